"""C25: topology scans record complete tables and survive failing devices."""
from __future__ import annotations

import asyncio

from vlib.core import Check, Suite, check, check_eq
from vlib import core, fakes, sim, vloop

import zigpy.config as conf
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

LQI, RTG, IEEE_REQ = 0x0031, 0x0032, 0x0001
BAD_IEEE = [bytes(8), b"\xff" * 8]
UNKNOWN = [0x7001, 0x7002, 0x7003]


def nwk_of(n):
    return 0x0000 if n == 0 else 0x1000 + n


def nb_bytes(e):
    """[ieee number or -1/-2, nwk, flags, permit, depth, lqi]"""
    n, nwk, flags, permit, depth, lqi = e
    ieee = BAD_IEEE[-n - 1] if n < 0 else fakes.eui(n).serialize()
    return b"\x01\x02\x03\x04\x05\x06\x07\x08" + ieee + sim.le16(nwk) + bytes([flags, permit, depth, lqi])


def rt_bytes(e):
    dst, flags, hop = e
    return sim.le16(dst) + bytes([flags]) + sim.le16(hop)


class Dev(sim.Sim):
    def __init__(self, n, log, kind):
        super().__init__(n, nwk_of(n), {"nd": sim.nd_bytes().hex(), "eps": [], "attrs": {}})
        if n == 0:
            self.ieee = fakes.NCP_IEEE
        self.n, self.log, self.kind = n, log, kind
        self.tables = {LQI: [], RTG: []}
        self.modes = {LQI: ["ok", [5]], RTG: ["ok", [5]]}
        self.tries = {}
        for cl in (LQI, RTG):
            self.handlers[(0, cl)] = lambda data, cl=cl: self.page(cl, data)

    def fresh(self):
        self.tries = {}

    def fault(self, cl, index):
        """Decides about losses before the device answers."""
        mode = self.modes[cl]
        if mode[0] in ("silent", "fail") and index >= mode[1]:
            k = self.tries.get((cl, index), 0)
            if k < mode[2]:
                self.tries[cl, index] = k + 1
                self.log.append([self.n, cl, index, "lost", []])
                return "lose" if mode[0] == "silent" else "fail"
        return None

    def page(self, cl, data):
        index = data[1]
        mode = self.modes[cl]
        enc = nb_bytes if cl == LQI else rt_bytes
        table = self.tables[cl]
        if mode[0] == "refuse" and index >= mode[1]:
            self.log.append([self.n, cl, index, "refused", []])
            return bytes([mode[2]])
        if mode[0] == "ok":
            size = mode[1][index % len(mode[1])]
        else:
            size = 3
        entries = table[index:index + size]
        count, start = len(table), index
        what = "page"
        if mode[0] == "absurd":
            kind = mode[1]
            if kind == "same":
                entries, start = table[:size], 0
            elif kind == "count0":
                count = 0
            elif kind == "count255":
                count = 255
            elif kind == "empty":
                entries, count = [], 9
            elif kind == "nopayload":
                self.log.append([self.n, cl, index, "lost", []])
                return b"\x00"
            elif kind == "truncated" and entries:
                self.log.append([self.n, cl, index, "lost", []])
                return (b"\x00" + bytes([count, start, len(entries)]) + b"".join(map(enc, entries)))[:-2]
            elif kind == "start":
                start = (index + 7) & 0xFF
        self.log.append([self.n, cl, index, what, [list(e) for e in entries]])
        return b"\x00" + bytes([count, start, len(entries)]) + b"".join(map(enc, entries))


# ---------------------------------------------------------------- generation

def nb_st():
    return st.tuples(st.sampled_from([-1, -2, 0, 1, 2, 3, 4, 50, 51]),
                     st.sampled_from([0, 0x1001, 0x1002, 0x1003] + UNKNOWN),
                     st.integers(0, 255), st.integers(0, 255), st.integers(0, 255), st.integers(0, 255)).map(list)


def rt_st():
    status = st.sampled_from([0, 0, 0, 1, 2, 3, 3, 4, 5, 7])
    return st.tuples(st.sampled_from([0, 0x1001, 0x1002] + UNKNOWN), status, st.integers(0, 31),
                     st.sampled_from([0, 0x1001, 0x1003] + UNKNOWN)).map(
                         lambda x: [x[0], x[1] | x[2] << 3, x[3]])


def size_st():
    return st.sampled_from([0, 1, 2, 3, 4, 7, 12, 12, 40])


@st.composite
def table_st(draw, entry):
    n = draw(size_st())
    if n <= 12:
        return draw(st.lists(entry, min_size=n, max_size=n))
    base = draw(st.lists(entry, min_size=4, max_size=4))
    return [[*e[:-1], (e[-1] + i // 4) & 0xFF] if len(e) == 6 else e for i, e in enumerate((base * 64)[:n])]


def mode_st():
    return st.one_of(
        st.lists(st.integers(1, 6), min_size=1, max_size=4).map(lambda x: ["ok", x]),
        st.lists(st.integers(1, 6), min_size=1, max_size=4).map(lambda x: ["ok", x]),
        st.tuples(st.sampled_from(["silent", "fail"]), st.integers(0, 6), st.sampled_from([1, 2, 9])).map(list),
        st.tuples(st.just("refuse"), st.integers(0, 6), st.sampled_from([0x84, 0x8A, 0x80, 0xFF])).map(list),
        st.tuples(st.just("absurd"), st.sampled_from(
            ["same", "count0", "count255", "empty", "nopayload", "truncated", "start"])).map(list))


@st.composite
def scan_case(draw):
    kinds = draw(st.lists(st.sampled_from(["router", "router", "router", "end", "none"]), min_size=1, max_size=4))
    scans = []
    for k in range(draw(st.integers(1, 3))):
        conf_ = {}
        for n in range(len(kinds) + 1):
            if k and draw(st.booleans()):
                continue                          # as before
            conf_[str(n)] = [draw(mode_st()), draw(mode_st())]
            if k == 0 or draw(st.booleans()):
                conf_[str(n)] += [draw(table_st(nb_st())), draw(table_st(rt_st()))]
        scans.append(conf_)
    n = len(kinds)
    return {"kinds": kinds, "scans": scans, "skip": draw(st.booleans()),
            "only": draw(st.one_of(st.none(), st.none(), st.tuples(
                st.lists(st.integers(0, n), unique=True, max_size=3),
                st.sampled_from(["list", "generator", "view"])).map(list))),
            "answers": draw(st.lists(st.sampled_from(UNKNOWN), unique=True, max_size=2)),
            "nofind": draw(st.lists(st.sampled_from(UNKNOWN), unique=True, max_size=2)),
            "join": draw(st.integers(0, 3)) == 0}


# ---------------------------------------------------------------- reference

def expected_table(cl, entries):
    if cl == LQI:
        return [e for e in entries if e[0] >= 0]
    return [e for e in entries if e[1] & 7 != 3]


def as_data(cl, x):
    return x.serialize().hex()


def enc(cl, e):
    return (nb_bytes(e) if cl == LQI else rt_bytes(e)).hex()


def make(case_kinds, log, skip):
    app = fakes.make_app(**{conf.CONF_TOPO_SKIP_COORDINATOR: skip})
    net = sim.Net(app)
    devs = {}
    coord = fakes.add_coordinator(app)
    devs[0] = net.add(Dev(0, log, "coordinator"))
    for i, kind in enumerate(case_kinds):
        n = i + 1
        d = fakes.add_device(app, n, nwk_of(n), logical_type=zdo_t.LogicalType.EndDevice if kind == "end"
                             else zdo_t.LogicalType.Router)
        if kind == "none":
            d.node_desc = None
        devs[n] = net.add(Dev(n, log, kind))

    def fault(s, p):
        if isinstance(s, Dev) and p.dst_ep == 0 and p.cluster_id in (LQI, RTG):
            return s.fault(p.cluster_id, p.data.serialize()[1])
        return None
    net.fault = fault
    return app, net, devs


def asked_nwk(p):
    d = p.data.serialize()
    return int.from_bytes(d[1:3], "little")


def run_scan(case):
    async def main(loop):
        log = []
        app, net, devs = make(case["kinds"], log, case["skip"])
        ieee = {n: (fakes.NCP_IEEE if n == 0 else fakes.eui(n)) for n in devs}
        events = []

        class L:
            def neighbors_updated(self, who, nbs):
                events.append([LQI, who, [as_data(LQI, x) for x in nbs]])

            def routes_updated(self, who, rts):
                events.append([RTG, who, [as_data(RTG, x) for x in rts]])
        app.topology.add_listener(L())
        send = net.send
        lookups = []

        async def hook(p):
            if p.dst.addr_mode == t.AddrMode.Broadcast:
                if p.cluster_id == IEEE_REQ:
                    nwk = asked_nwk(p)
                    lookups.append(nwk)
                    if nwk in case["nofind"]:
                        raise [zigpy.exceptions.DeliveryError("channel busy"), asyncio.TimeoutError(),
                               core.injected(RuntimeError, "radio is resetting"),
                               ConnectionResetError("radio is gone")][nwk % 4]
                    if nwk in case["answers"]:
                        loop.call_later(0.02, app.packet_received, fakes.packet(
                            nwk, 0x8001, p.data.serialize()[:1] + b"\x00" + fakes.eui(nwk).serialize()
                            + sim.le16(nwk), src_ep=0, dst_ep=0, profile=0))
                return
            return await send(p)
        app.hooks["send_packet"] = hook
        known = {(n, cl): [] for n in devs for cl in (LQI, RTG)}
        refused = set()
        labels = set()
        pages = 0
        for k, scan in enumerate(case["scans"]):
            for n, c in scan.items():
                d = devs[int(n)]
                d.modes = {LQI: c[0], RTG: c[1]}
                if len(c) > 2:
                    d.tables = {LQI: c[2], RTG: c[3]}
            for d in devs.values():
                d.fresh()
            log.clear(), events.clear(), lookups.clear()
            known_nwks = {int(d.nwk) for d in app.devices.values()}
            only = None
            if case["only"] is not None:
                ns, form = case["only"]
                picked = [app.devices[ieee[n]] for n in ns]
                if form == "list":
                    only = picked
                elif form == "generator":
                    only = (d for d in picked)
                else:
                    ns = list(devs)
                    only = app.devices.values()
            else:
                ns = list(devs)
            if case["join"]:
                loop.call_later(1.7, lambda: app.handle_join(
                    nwk=t.NWK(0x7777 + k), ieee=fakes.eui(0x7777 + k), parent_nwk=None))
            before = {nwk for nwk in known_nwks}
            try:
                await asyncio.wait_for(app.topology.scan(only), 50000)
            except asyncio.TimeoutError:
                check(False, "the scan does not end")
            own = [x for x in log if x[0] in devs]
            by = {}
            for n, cl, index, what, entries in own:
                by.setdefault((n, cl), []).append((index, what, entries))
            for n in devs:
                d = devs[n]
                eligible = n in ns and d.kind in ("router", "coordinator") and not (n == 0 and case["skip"])
                for cl in (LQI, RTG):
                    ev = by.get((n, cl), [])
                    name = f"device {n}'s {'neighbours' if cl == LQI else 'routes'}"
                    table = app.topology.neighbors if cl == LQI else app.topology.routes
                    have = [as_data(cl, x) for x in table.get(ieee[n], [])]
                    if not eligible:
                        check(not ev, f"{name} were asked for, though it is no router or was not to be scanned")
                        check_eq(have, known[n, cl], f"{name}, which were not scanned")
                        continue
                    if (n, cl) in refused:
                        check(not ev, f"{name} were asked for again after it had refused")
                        known[n, cl] = []
                        check_eq(have if have else [], [], f"{name}, which it refuses to tell")
                        continue
                    check(ev, f"{name} were not asked for")
                    got = []
                    state = "page"
                    for index, what, entries in ev:
                        check(state != "refused", f"{name} were asked for after it had refused")
                        check_eq(index, len(got), f"the index from which {name} were asked for")
                        state = what
                        got += entries
                    pages += len(ev) > 1
                    check(len(ev) <= 3 * 257, f"{name} were asked for {len(ev)} times")
                    if state == "refused":
                        refused.add((n, cl))
                        known[n, cl] = []
                        labels.add("refused")
                    elif state == "page":
                        if d.modes[cl][0] != "absurd":
                            check_eq(got, d.tables[cl], f"what was asked of {name}")
                        known[n, cl] = [enc(cl, e) for e in expected_table(cl, got)]
                        labels.add("absurd" if d.modes[cl][0] == "absurd" else "complete")
                    else:
                        labels.add("failed")
                    check_eq(have, known[n, cl], f"{name} after the scan ({d.modes[cl]})")
                    mine = [e[2] for e in events if e[0] == cl and e[1] == ieee[n]]
                    check(mine, f"the scan of {name} was not announced")
                    check_eq(mine[-1], known[n, cl], f"{name} as announced")
                    check_eq(len(mine), 1, f"announcements of {name}")
            # unknown devices
            unknown = set()
            for (n, cl), es in known.items():
                for h in es:
                    b = bytes.fromhex(h)
                    if cl == LQI:
                        unknown.add(int.from_bytes(b[16:18], "little"))
                    elif b[2] & 7 == 0:
                        unknown |= {int.from_bytes(b[0:2], "little"), int.from_bytes(b[3:5], "little")}
            unknown -= before
            check_eq(sorted(lookups), sorted(unknown), "the unknown devices that were looked up")
            for nwk in unknown & set(case["answers"]) - set(case["nofind"]):
                await vloop.settle(3)
                check(any(d.nwk == nwk for d in app.devices.values()), f"the answer of {nwk:#06x} was not used")
                labels.add("found")
            await vloop.quiesce(loop, 300)
        bad = [e for e in loop.errors if "topology" in repr(e)]
        check_eq(bad, [], "unhandled errors")
        return {"labels": sorted(labels), "nontrivial": len(labels) > 1 or pages > 0}
    return vloop.run(main)


# ---------------------------------------------------------------- overlapping scans

@st.composite
def overlap_case(draw):
    ops = []
    at = 0.0
    for _ in range(draw(st.integers(1, 7))):
        at += draw(st.sampled_from([0.0, 0.0, 0.3, 1.0, 2.0, 5.0, 12.0, 30.0, 61.0]))
        ops.append([round(at, 2), draw(st.sampled_from(["scan", "scan", "start", "stop", "cancel"]))])
    return {"ops": ops, "period": draw(st.sampled_from([3.0, 20.0, 60.0])), "n": draw(st.integers(1, 3)),
            "slow": draw(st.sampled_from([0.01, 0.5, 3.0]))}


def run_overlap(case):
    async def main(loop):
        log = []
        app, net, devs = make(["router"] * case["n"], log, True)
        net.latency = case["slow"]
        requests = []
        send = net.send

        async def hook(p):
            if p.dst_ep == 0 and p.cluster_id in (LQI, RTG):
                requests.append([loop.time(), int(p.dst.address), int(p.cluster_id), p.data.serialize()[1]])
            return await send(p)
        app.hooks["send_packet"] = hook
        t0 = loop.time()
        manual = []
        periodic = []           # [from, to]

        async def one(entry):
            try:
                await app.topology.scan()
                entry["result"] = "done"
            except asyncio.CancelledError:
                entry["result"] = "cancelled"
            finally:
                entry["end"] = loop.time()
        for at, op in case["ops"]:
            await asyncio.sleep(max(0, t0 + at - loop.time()))
            if op == "scan":
                e = {"start": loop.time(), "end": None, "result": None, "by": None, "mark": len(requests)}
                for m in manual:
                    if m["end"] is None and m["by"] is None:
                        m["by"] = "scan"
                e["task"] = asyncio.create_task(one(e))
                manual.append(e)
                await vloop.settle(2)
            elif op == "cancel":
                for m in manual[-1:]:
                    if m["end"] is None and m["by"] is None:
                        m["by"] = "caller"
                        m["task"].cancel()
            elif op == "start":
                if periodic and periodic[-1][1] is None:
                    periodic[-1][1] = loop.time()
                periodic.append([loop.time(), None])
                app.topology.start_periodic_scans(case["period"])
            else:
                if periodic and periodic[-1][1] is None:
                    periodic[-1][1] = loop.time()
                app.topology.stop_periodic_scans()
                await vloop.settle(3)
        await asyncio.sleep(150)
        if periodic and periodic[-1][1] is None:
            periodic[-1][1] = loop.time()
        app.topology.stop_periodic_scans()
        stopped = loop.time()
        await vloop.settle(5)
        for m in manual:
            if m["end"] is None:
                m["task"].cancel()
                check(False, "a manual scan does not end")
        await asyncio.sleep(3 * case["period"] + 100)
        late = [r for r in requests if r[0] > stopped]
        check_eq(late, [], "requests after the periodic scans were stopped")
        duration = 2 * case["n"] * (2 * case["slow"] + 1.5) + 1
        preempted = 0
        for m in manual:
            check_eq(m["result"], "cancelled" if m["by"] else "done", "the outcome of a manual scan")
            preempted += m["by"] == "scan"
            if m["by"]:
                continue
            mine = [r for r in requests[m["mark"]:] if r[0] <= m["end"] and r[3] == 0]
            for n in range(1, case["n"] + 1):
                for cl in (LQI, RTG):
                    check_eq(sum(r[1] == nwk_of(n) and r[2] == cl for r in mine), 1,
                             "requests for the same table during one scan")
        # nothing is asked while neither a manual scan nor the periodic scans are on
        for r in requests:
            in_manual = any(m["start"] <= r[0] <= m["end"] for m in manual)
            in_periodic = any(a <= r[0] <= b for a, b in periodic)
            check(in_manual or in_periodic, f"a table was asked for at {r[0] - t0:.2f}, when no scan was on")
        # scheduled scans do happen
        scheduled = 0
        for a, b in periodic:
            if b - a > case["period"] + 0.5:
                quiet = not any(m["start"] <= a + case["period"] + 1 and m["end"] >= a for m in manual)
                if quiet:
                    check(any(a + case["period"] - 0.01 <= r[0] <= a + case["period"] + 0.5 for r in requests),
                          "a scheduled scan did not start")
                    scheduled += 1
                # and go on: no gap longer than a period after a scan
                times = sorted([r[0] for r in requests if a <= r[0] <= b] + [b])
                for x, y in zip(times, times[1:]):
                    check(y - x <= duration + 2 * case["period"] + 1, "scheduled scans ceased")
        check_eq(loop.errors, [], "unhandled errors")
        return {"nontrivial": bool(preempted or scheduled), "labels": [f"preempted-{min(preempted, 2)}"]}
    return vloop.run(main)


CHECK = Check(
    "C25",
    rule="a table needed several requests, devices differed in what became of them, or scans interrupted each other "
         "or were scheduled",
    assumptions=["a device that refuses is recorded without entries and is not asked again (documented design); "
                 "radio and devices are simulated, the clock is virtual"],
    suites=[
        Suite("scan", run_scan, scan_case, quick=900, thorough=20000),
        Suite("overlap", run_overlap, overlap_case, quick=500, thorough=10000),
    ])
