"""C14: the device registry over joins, address changes, leaves and removals."""
from __future__ import annotations

import asyncio
import time

from vlib.core import Check, Suite, check, check_eq, one_of
from vlib import fakes, sim, vloop

import zigpy.types as t

from hypothesis import strategies as st

NWKS = [0x1001, 0x1002, 0x1003, 0x1004, 0x1005]
DESC = {"nd": sim.nd_bytes().hex(), "eps": [[1, 260, 0x0100, 1, [0, 3, 6], [25]]],
        "attrs": {"1/0": {"4": sim.cstr("Acme"), "5": sim.cstr("Lamp")}}}
SLEEPY = dict(DESC, nd=sim.nd_bytes(logical=2, mac=0x80).hex())


class Listener:
    def __init__(self, app):
        self.app = app
        self.events = []

    def _ev(self, kind, dev):
        self.events.append((kind, dev.ieee, int(dev.nwk), self.app.devices.get(dev.ieee) is dev))

    def device_joined(self, dev):
        self._ev("joined", dev)

    def device_left(self, dev):
        self._ev("left", dev)

    def device_removed(self, dev):
        self._ev("removed", dev)


def le(x, n):
    return int(x).to_bytes(n, "little")


def run(case):
    stat = {"moved": 0, "stolen": 0, "removed": 0, "pending": 0, "rejoined": 0}

    async def main(loop):
        app = fakes.make_app()
        own = case.get("own", 0)     # a radio may also be a router of someone else's network
        app.state.node_info.nwk = t.NWK(own)
        if case.get("old"):
            # a former coordinator, loaded from the database, heard of later than the present one
            fakes.add_device(app, 0x50, own, eps={1: (260, 5, [], [])}).last_seen = 4e9
        if case["coordinator"]:
            fakes.add_coordinator(app)
        net = sim.Net(app)
        net.fault = lambda s, p: fault["leave"] if p.cluster_id == 0x0034 else fault["other"]
        fault = {"leave": None, "other": None}
        ls = Listener(app)
        app.add_listener(ls)
        sims = {i: net.add(sim.Sim(i, 0xFFF0 + i, SLEEPY if i % 2 else DESC)) for i in range(1, 5)}
        ncp = app.state.node_info.ieee
        nwk_of = {}      # ieee -> nwk
        order = []       # ieee, in order of the last time they were heard of under their address
        removing = {}    # ieee -> {"nwk": nwk when removed, "deadline": when the removal is surely over}
        tsn = [0]

        def heard(ieee):
            if ieee in order:
                order.remove(ieee)
            order.append(ieee)

        def now_removed():
            """drop the removals that are surely over"""
            for ieee, r in list(removing.items()):
                if r["deadline"] < loop.time():
                    del removing[ieee]
                    if ieee not in nwk_of and ieee in app.devices:
                        # joined again under the same address while the removal was in progress:
                        # either outcome; take over what the application did
                        check(r["again"], "removed device %s is still known", ieee)
                        nwk_of[ieee] = r["nwk"]

        def verify(what):
            now_removed()
            got = {d for d in app.devices if d not in (ncp, fakes.eui(0x50))}
            must = {i for i in nwk_of}
            may = must | set(removing)
            check(must <= got, "after %s: devices %s joined and were not removed, but are unknown", what, must - got)
            check(got <= may, "after %s: devices %s are known, but never joined or were removed", what, got - may)
            check_eq(ncp in app.devices, case["coordinator"], f"after {what}: coordinator known")
            check_eq(fakes.eui(0x50) in app.devices, bool(case.get("old")), f"after {what}: former coordinator known")
            for ieee, dev in app.devices.items():
                check_eq(dev.ieee, ieee, f"after {what}: device registered under a foreign address")
                check(app.get_device(ieee=ieee) is dev, "after %s: get_device(ieee=%s)", what, ieee)
                if ieee in nwk_of:
                    check_eq(int(dev.nwk), nwk_of[ieee], f"after {what}: network address of {ieee}")
            for nwk in [*NWKS, 0x4321, *(s.nwk for s in sims.values())]:
                holders = [i for i in order if nwk_of.get(i) == nwk]
                loose = {i for i in removing if i in app.devices and int(app.devices[i].nwk) == nwk}
                try:
                    r = app.get_device(nwk=t.NWK(nwk)).ieee
                except KeyError:
                    r = None
                if not holders and not loose:
                    check(r is None, "after %s: nobody holds %04x, but it resolves to %s", what, nwk, r)
                elif holders and not loose:
                    check_eq(r, holders[-1], f"after {what}: holder of {nwk:04x} (of {holders})")
                else:
                    check(r in loose or (holders and r == holders[-1]) or not holders,
                          "after %s: %04x resolves to %s, neither of %s %s", what, nwk, r, holders, loose)
            if case["coordinator"]:
                check_eq(app.get_device(nwk=t.NWK(own)).ieee, ncp, "network address of the coordinator")
                check(app.get_device(nwk=own) is app._device, "the coordinator's device")
                if own:
                    try:
                        r = app.get_device(nwk=t.NWK(0)).ieee
                    except KeyError:
                        r = None
                    check_eq(r, None, "network address 0, which nobody has")

        def expect_events(what, exp):
            got, ls.events[:] = list(ls.events), []
            check_eq(got, [(k, i, n, True) for k, i, n in exp], f"events of {what}")

        def joined(i, nwk):
            """model of a device (re)joining; -> expected events"""
            ieee = sims[i].ieee
            if sims[i].nwk != nwk and ieee in nwk_of:
                stat["moved"] += 1
            if any(v == nwk and k != ieee for k, v in nwk_of.items()):
                stat["stolen"] += 1
            sims[i].nwk = nwk
            if ieee in removing and ieee not in nwk_of:
                present = ieee in app_before
                if not present:
                    del removing[ieee]
                elif app_before[ieee] == nwk:
                    removing[ieee]["again"] = True
                    stat["rejoined"] += 1
                    return []
                else:
                    stat["rejoined"] += 1
            new = nwk_of.get(ieee) != nwk
            nwk_of[ieee] = nwk
            heard(ieee)
            return [("joined", ieee, nwk)] if new else []

        for op in case["ops"]:
            kind, i = op[0], op[1]
            ieee = sims[i].ieee
            app_before = {k: int(d.nwk) for k, d in app.devices.items()}
            what = f"{op}"
            exp = []
            tsn[0] = (tsn[0] + 1) % 256
            if kind in ("join", "annce", "addr_rsp"):
                nwk = NWKS[op[2]]
                fault["other"] = op[3]
                # an older holder of this address does not answer there any more
                for s in sims.values():
                    if s is not sims[i] and s.nwk == nwk:
                        s.nwk = 0xFFF0 + [k for k, v in sims.items() if v is s][0]
                if kind == "join":
                    exp = joined(i, nwk)
                    app.handle_join(t.NWK(nwk), ieee, None, handle_rejoin=bool(op[4] % 2))
                elif kind == "annce":
                    exp = joined(i, nwk)
                    app.packet_received(fakes.packet(
                        nwk, 0x0013, bytes([tsn[0]]) + le(nwk, 2) + ieee.serialize() + b"\x8e",
                        src_ep=0, dst_ep=0, profile=0))
                else:
                    ok = op[4] % 3 != 0
                    cl = 0x8000 if op[4] % 2 else 0x8001
                    if ok:
                        exp = joined(i, nwk)
                    app.packet_received(fakes.packet(
                        nwk, cl, bytes([tsn[0], 0x00 if ok else 0x81]) + ieee.serialize() + le(nwk, 2) +
                        (b"\x00\x00" if op[4] % 5 else b""),
                        src_ep=0, dst_ep=0, profile=0))
                    if not ok and nwk in app_before.values():
                        # any packet from there makes its holder the one heard of last
                        h = [x for x in order if nwk_of.get(x) == nwk]
                        if h:
                            heard(h[-1])
                stat["rejoined"] += 0
            elif kind == "leave":
                if ieee in app_before:
                    exp = [("left", ieee, app_before[ieee])]
                app.handle_leave(t.NWK(sims[i].nwk), ieee)
            elif kind == "remove":
                fault["leave"] = op[2]
                if ieee in app_before:
                    exp = [("removed", ieee, app_before[ieee])]
                    stat["removed"] += 1
                    stat["pending"] += ieee in removing
                    nwk_of.pop(ieee, None)
                    old = removing.get(ieee)
                    removing[ieee] = {"nwk": app_before[ieee], "again": False,
                                      "deadline": loop.time() + 31}
                    if old is not None:
                        removing[ieee]["again"] = old["again"]
                await app.remove(ieee, remove_children=bool(op[3] % 2), rejoin=bool(op[3] % 3))
            elif kind == "remove_unknown":
                await app.remove(fakes.eui(0x77))
                app.handle_leave(t.NWK(0x4321), fakes.eui(0x78))
            elif kind == "data":
                nwk = NWKS[op[2]]
                n = len(net.broadcasts)
                app.packet_received(fakes.packet(nwk, 6, bytes([0x18, tsn[0], 0x0A, 0, 0, 0x10, 1])))
                h = [x for x in order if nwk_of.get(x) == nwk]
                if h:
                    heard(h[-1])
                await vloop.settle()
                if nwk not in app_before.values():
                    # asked who that is
                    asked = [p for p in net.broadcasts[n:] if p.cluster_id == 0x0001]
                    check_eq([p.data.serialize()[1:3] for p in asked], [le(nwk, 2)], f"address requests after {what}")
                    check(app.get_sequence() is not None, "")
            elif kind == "relays":
                nwk = NWKS[op[2]]
                app.handle_relays(t.NWK(nwk), [t.NWK(0x2000 + op[2]), t.NWK(0x3000 + i)])
                h = [x for x in order if nwk_of.get(x) == nwk]
                loose = any(int(app.devices[x].nwk) == nwk for x in removing if x in app.devices)
                if h and not loose:
                    check_eq([int(x) for x in app.devices[h[-1]].relays], [0x2000 + op[2], 0x3000 + i],
                             f"relays after {what}")
            elif kind == "sleep":
                await asyncio.sleep(op[2])
            await vloop.settle()
            expect_events(what, exp)
            verify(what)
            t0 = time.time_ns()
            while time.time_ns() - t0 < 3000:
                pass
        fault["leave"] = fault["other"] = None
        await asyncio.sleep(400)
        expect_events("the end", [])
        verify("the end")
        check(not removing, "harness")
        bad = [e for e in loop.errors if "exception" in e]
        check(not bad, "errors in background: %r", bad[:1])
        for i, s in sims.items():
            # everybody joined answers by now and is interviewed when announced again
            if nwk_of.get(s.ieee) == s.nwk:
                holder = [x for x in order if nwk_of.get(x) == nwk_of[s.ieee]][-1]
                if holder != s.ieee:
                    continue
                app.packet_received(fakes.packet(
                    s.nwk, 0x0013, bytes([i]) + le(s.nwk, 2) + s.ieee.serialize() + b"\x8e",
                    src_ep=0, dst_ep=0, profile=0))
                await asyncio.sleep(50)
                check(app.devices[s.ieee].is_initialized, "device %s is not interviewed in the end", s.ieee)
        expect_events("the final announcements", [])
        verify("the final announcements")

    vloop.run(main)
    return {"labels": sorted(k for k, v in stat.items() if v),
            "nontrivial": bool(stat["moved"] or stat["stolen"] or stat["removed"])}


FAULT = st.sampled_from([None, None, None, ["bytes", ""], "lose", "fail", "dup", "garble", ["delay", 3.0], ["delay", 6.5]])


def strategy():
    I = st.integers(1, 3)
    N = st.integers(0, 3)
    K = st.integers(0, 29)
    join = st.tuples(st.sampled_from(["join", "annce", "annce", "addr_rsp"]), I, N, FAULT, K)
    op = one_of(join, join, join,
                   st.tuples(st.just("remove"), I, FAULT, K), st.tuples(st.just("remove"), I, FAULT, K),
                   st.tuples(st.just("leave"), I),
                   st.tuples(st.just("remove_unknown"), I),
                   st.tuples(st.just("data"), I, N), st.tuples(st.just("relays"), I, N),
                   st.tuples(st.just("sleep"), I, st.sampled_from([0.3, 2.0, 5.0, 8.0, 31.5])))
    return st.fixed_dictionaries({"coordinator": st.booleans(), "own": st.sampled_from([0, 0, 0x7777]),
                                  "old": st.sampled_from([False, False, True]), "ops": st.lists(op.map(list), min_size=3, max_size=14)})


# -------------------------------------------------------------------------- leaving
def run_leaving(case):
    """which devices are asked to make a removed device leave, and what is left of it"""
    from zigpy.zdo import types as zdo_t
    labels = set()

    async def main(loop):
        app = fakes.make_app()
        ncp = fakes.add_coordinator(app)
        net = sim.Net(app)
        faults = {}
        net.fault = lambda s, p: faults.get(int(s.nwk)) if p.cluster_id == 0x0034 else None
        ls = Listener(app)
        devs = {0: ncp}
        for i, (kind, groups, fault) in enumerate(case["devices"], 1):
            dev = fakes.add_device(app, i, 0x1000 + i, eps={1: (260, 0x0100, [0, 4, 6], [])})
            net.add(sim.Sim(i, 0x1000 + i, SLEEPY if kind == "end" else DESC))
            dev.node_desc = None if kind == "new" else zdo_t.NodeDescriptor.deserialize(
                sim.nd_bytes(logical=1, mac=0x8E) if kind == "router" else sim.nd_bytes(logical=2, mac=0x80))[0]
            for g in groups:
                app.groups.add_group(g).add_member(dev.endpoints[1])
            faults[int(dev.nwk)] = fault
            devs[i] = dev
        app.add_listener(ls)
        seen_by = {i: [] for i in devs}
        for i, seen in case["tables"]:
            i %= len(devs)
            for n in seen:
                if n % 9 == i:
                    continue
                ieee = devs[n % 9].ieee if n % 9 in devs else fakes.eui(0x60 + n)
                app.topology.neighbors[devs[i].ieee].append(zdo_t.Neighbor(
                    extended_pan_id=t.ExtendedPanId(ncp.ieee), ieee=ieee, nwk=t.NWK(0x1000 + n), device_type=1,
                    rx_on_when_idle=1, relationship=2, reserved1=0, permit_joining=0, reserved2=0, depth=1, lqi=200))
                seen_by[i].append(n % 9)
                app.topology.routes[devs[i].ieee].append(zdo_t.Route(
                    DstNWK=t.NWK(0x1000 + n), RouteStatus=0, MemoryConstrained=0, ManyToOne=0,
                    RouteRecordRequired=0, Reserved=0, NextHop=t.NWK(0x1000)))
        gone = set()
        for i, children, rejoin, wait in case["removed"]:
            i = 1 + i % (len(devs) - 1)
            if i in gone:
                continue
            dev = devs[i]
            kind = case["devices"][i - 1][0]
            opts = (0x40 if children else 0) | (0x80 if rejoin else 0)
            want = {(int(dev.nwk), dev.ieee.serialize() + bytes([opts]))}
            if kind == "end":
                for j, seen in seen_by.items():
                    if i in seen and j not in gone:
                        want.add((int(devs[j].nwk), dev.ieee.serialize() + bytes([0x40 | (0x80 if rejoin else 0)])))
                        labels.add("parents")
            app.sent.clear()
            ls.events.clear()
            others = {d.ieee: sorted(int(g) for g in d.endpoints[1].member_of) for j, d in devs.items()
                      if d is not dev and j}
            topology = [app.topology.neighbors, app.topology.routes]
            tables = [{k: len(v) for k, v in x.items() if v and k != dev.ieee} for x in topology]
            await app.remove(dev.ieee, remove_children=children, rejoin=rejoin)
            await vloop.settle(5)
            check_eq(ls.events, [("removed", dev.ieee, int(dev.nwk), True)], "events of the removal")
            check_eq(sorted(int(g) for g in dev.endpoints[1].member_of), [], "groups of the removed device")
            check(not any(dev.endpoints[1].unique_id in g for g in app.groups.values()), "a group lists the removed device")
            check_eq([bool(x.get(dev.ieee)) for x in topology], [False, False],
                     "neighbours or routes of the removed device remain")
            check_eq({d.ieee: sorted(int(g) for g in d.endpoints[1].member_of) for j, d in devs.items()
                      if d is not dev and j}, others, "groups of the other devices")
            check_eq([{k: len(v) for k, v in x.items() if v and k != dev.ieee} for x in topology], tables,
                     "neighbour and route tables of the other devices")
            await asyncio.sleep(31.0713)
            got = {(int(p.dst.address), p.data.serialize()[1:]) for p in app.sent if p.cluster_id == 0x0034}
            check(all(int(p.dst.addr_mode) != t.AddrMode.Broadcast for p in app.sent if p.cluster_id == 0x0034),
                  "a leave request was broadcast")
            check_eq(sorted((a, b.hex()) for a, b in got), sorted((a, b.hex()) for a, b in want),
                     f"leave requests for the removed {kind} device {i}")
            gone.add(i)
            seen_by[i] = []
            check_eq(sorted(d.ieee for d in app.devices.values()), sorted(d.ieee for j, d in devs.items() if j not in gone),
                     "devices")
            labels.add(kind)
            await asyncio.sleep(wait)
        bad = [e for e in loop.errors if "exception" in e]
        check(not bad, "errors in background: %r", bad[:1])
    vloop.run(main)
    return {"labels": sorted(labels), "nontrivial": bool(labels)}


def leaving_case():
    dev = st.tuples(st.sampled_from(["end", "end", "router", "new"]),
                    st.lists(st.integers(1, 3), max_size=2, unique=True), FAULT).map(list)
    return st.fixed_dictionaries({
        "devices": st.lists(dev, min_size=2, max_size=5),
        "tables": st.lists(st.tuples(st.integers(0, 5), st.lists(st.integers(0, 8), max_size=4)).map(list), max_size=5),
        "removed": st.lists(st.tuples(st.integers(0, 4), st.booleans(), st.booleans(), st.sampled_from([0.5, 40.0])).map(
            list), min_size=1, max_size=3)})


CHECK = Check(
    "C14",
    rule="a history in which a device changes its address, takes over another device's address, or is removed",
    assumptions=["between a removal and the end of its leave request (30 s at most) a device may still be known; "
                 "an announcement under the same address in that time may or may not count as a new join",
                 "devices are simulated by byte-level answers; virtual time"],
    suites=[Suite("registry", run, strategy=strategy, quick=2400, thorough=60000),
            Suite("leaving", run_leaving, strategy=leaving_case, quick=800, thorough=30000)])
