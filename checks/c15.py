"""C15: interviews converge in spite of faults."""
from __future__ import annotations

import asyncio
import struct

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, sim, vloop

import zigpy.endpoint
import zigpy.types as t

from hypothesis import strategies as st

BASIC = 0


def basic_handler(dev, ep, mode):
    """How a device answers a read of several Basic attributes at once."""
    def h(data, tsn, body, back, manuf):
        ids = [struct.unpack("<H", body[k:k + 2])[0] for k in range(0, len(body), 2)]
        if len(ids) > 1:
            if mode == "silent":
                return []
            if mode == "default_rsp":
                return [bytes([back, tsn, 0x0B, 0x00, 0x80])]
            if mode == "first_only":
                ids = ids[:1]
            if mode == "reversed":
                ids = ids[::-1]
        out = b""
        for a in ids:
            v = dev.attr(ep, BASIC, a)
            if isinstance(v, int):
                out += sim.le16(a) + bytes([v])
            else:
                out += sim.le16(a) + b"\x00" + bytes([v[0]]) + bytes.fromhex(v[1])
        return [bytes([back, tsn, 0x01]) + out]
    return h


class Listener:
    def __init__(self):
        self.n = {"raw_device_initialized": [], "device_initialized": [], "device_init_failure": [], "device_joined": []}

    def raw_device_initialized(self, d):
        self.n["raw_device_initialized"].append(d)

    def device_initialized(self, d):
        self.n["device_initialized"].append(d)

    def device_init_failure(self, d):
        self.n["device_init_failure"].append(d)

    def device_joined(self, d):
        self.n["device_joined"].append(d)


def snapshot(dev):
    eps = {}
    for i, ep in dev.endpoints.items():
        if i == 0:
            continue
        eps[i] = {"status": ep.status.name, "profile": ep.profile_id,
                  "dtype": None if ep.device_type is None else int(ep.device_type),
                  "in": [int(c) for c in ep.in_clusters], "out": [int(c) for c in ep.out_clusters]}
    return {"nd": None if dev.node_desc is None else dev.node_desc.serialize().hex(), "eps": eps,
            "model": dev.model, "manufacturer": dev.manufacturer}


def grew(a, b, what):
    """everything known in a is still known in b"""
    if a["nd"] is not None:
        check_eq(b["nd"], a["nd"], f"node descriptor learned before {what}")
    for i, e in a["eps"].items():
        check(i in b["eps"], "endpoint %d learned before %s is gone", i, what)
        if e["status"] != "NEW":
            check_eq(b["eps"][i], e, f"endpoint {i} learned before {what}")
    for k in ("model", "manufacturer"):
        if a[k] is not None:
            check(b[k] is not None, "%s learned before %s is gone", k, what)


def expected(desc):
    eps = {}
    byid = {e[0]: e for e in desc["eps"]}
    for i in desc["active"]:
        if i == 0:
            continue
        e = byid[i]
        if e[1] is None:
            eps[i] = {"status": "ENDPOINT_INACTIVE", "profile": None, "dtype": None, "in": [], "out": []}
        else:
            eps[i] = {"status": "ZDO_INIT", "profile": e[1], "dtype": e[2],
                      "in": list(dict.fromkeys(e[4])), "out": list(dict.fromkeys(e[5]))}
    return {"nd": desc["nd"], "eps": eps}


def interview(desc, faults, triggers, moves, stats):
    res = {}

    async def main(loop):
        app = fakes.make_app()
        if triggers and triggers[0][1] % 2:
            fakes.add_coordinator(app)
        ls = Listener()
        app.add_listener(ls)
        d = sim.Sim(5, 0x1A00, desc)
        for e in desc["eps"]:
            d.handlers[(e[0], BASIC, 0)] = basic_handler(d, e[0], desc["pair"])
        todo = list(faults)
        count = [0]
        learned = []

        def fault(s, p):
            count[0] += 1
            if count[0] in moves:
                loop.call_soon(move)
            if not todo:
                return None
            f = todo.pop(0)
            if isinstance(f, list) and f[0] == "status":
                if p.dst_ep != 0:
                    return None
                # a failed reply that stops after the status, or goes on with an address
                return ["bytes", bytes([f[1]]).hex() + (sim.le16(d.nwk).hex() if f[2] else "") +
                        ("00" if f[2] and p.cluster_id in (4, 5) else "")]
            if f is not None:
                stats["faults"] += 1
            return f

        def move():
            if app.devices[d.ieee].is_initialized:
                return
            d.nwk += 1
            stats["moves"] += 1
            app.packet_received(fakes.packet(
                d.nwk, 0x0013, bytes([d.nwk & 0xFF]) + sim.le16(d.nwk) + d.ieee.serialize() + b"\x8e",
                src_ep=0, dst_ep=0, profile=0))

        net = sim.Net(app, fault)
        net.add(d)
        app.handle_join(t.NWK(d.nwk), d.ieee, None)
        dev = app.devices[d.ieee]
        attempts = 0
        while True:
            attempts += 1
            t0 = loop.time()
            while dev.initializing:
                await asyncio.sleep(1)
                check(loop.time() - t0 < 20000, "the interview does not end")
            snap = snapshot(dev)
            if learned:
                grew(learned[-1], snap, f"attempt {attempts}")
            learned.append(snap)
            if dev.is_initialized:
                break
            check_eq(ls.n["device_initialized"], [], "announced as initialised although it is not")
            check(len(ls.n["device_init_failure"]) >= 1, "a failed interview is not announced")
            check(attempts < len(faults) + 4, "not initialised although the device answers; known so far: %r", snap)
            stats["failed attempts"] += 1
            # let late replies come in: they may start another interview on their own
            await asyncio.sleep(triggers[attempts % len(triggers)][1] if triggers else 1)
            if dev.initializing or dev.is_initialized:
                continue
            how = triggers[attempts % len(triggers)][0] if triggers else "join"
            if how == "join":
                app.handle_join(t.NWK(d.nwk), d.ieee, None)
            elif how == "annce":
                app.packet_received(fakes.packet(
                    d.nwk, 0x0013, bytes([attempts % 256]) + sim.le16(d.nwk) + d.ieee.serialize() + b"\x8e",
                    src_ep=0, dst_ep=0, profile=0))
            elif how == "packet":
                app.packet_received(fakes.packet(d.nwk, 6, bytes([0x18, attempts % 256, 0x0A, 0, 0, 0x10, attempts % 2])))
                check(dev.initializing, "a packet from an uninitialised device does not start an interview")
            else:
                dev.schedule_initialize()
        # no more announcements by late replies
        n = {k: len(v) for k, v in ls.n.items()}
        await asyncio.sleep(200)
        for k in ("raw_device_initialized", "device_initialized"):
            check_eq(len(ls.n[k]), 1, f"{k} events")
            check(ls.n[k][0] is app.devices[d.ieee], "%s with another device", k)
        check_eq(len(ls.n["device_init_failure"]), n["device_init_failure"], "failures after success")
        if not moves:
            check_eq(len(ls.n["device_joined"]), 1, "device_joined events")
        check(app.devices[d.ieee].is_initialized, "not initialised any more")
        check_eq(int(app.devices[d.ieee].nwk), d.nwk, "network address")
        grew(learned[-1], snapshot(app.devices[d.ieee]), "later")
        bad = [e for e in loop.errors if "exception" in e]
        check(not bad, "errors in background: %r", bad[:1])
        res["snap"] = snapshot(app.devices[d.ieee])
        res["attempts"] = attempts

    vloop.run(main)
    return res


def run(case):
    desc = case["desc"]
    stats = {"faults": 0, "failed attempts": 0, "moves": 0}
    plain = interview(desc, [], [], [], dict(stats))
    exp = expected(desc)
    for k in ("nd", "eps"):
        check_eq(plain["snap"][k], exp[k], f"{k} after an undisturbed interview")
    check_eq(plain["attempts"], 1, "attempts of an undisturbed interview")
    byid = {e[0]: e for e in desc["eps"]}
    for k, a in (("manufacturer", "4"), ("model", "5")):
        said = [bytes.fromhex(v[1])[1:].decode() for i in exp["eps"] if byid[i][1] is not None and BASIC in byid[i][4]
                for v in [desc["attrs"].get(f"{i}/0", {}).get(a)] if v is not None]
        got = plain["snap"][k]
        check(got in said if said else got is None, "%s is %r, the device said %r", k, got, said)
    disturbed = interview(desc, case["faults"], case["triggers"], case["moves"], stats)
    check_eq(disturbed["snap"], plain["snap"], "after a disturbed interview, compared with an undisturbed one")
    return {"labels": sorted(k for k, v in stats.items() if v) + [desc["pair"]],
            "nontrivial": bool(stats["faults"] or stats["moves"])}


FAULT = st.one_of(
    st.none(), st.none(), st.sampled_from(["lose", "lose", "fail", "fail", "dup", "garble"]),
    st.sampled_from([["delay", 2.0], ["delay", 6.0], ["delay", 29.0], ["bytes", ""]]),
    st.tuples(st.just("status"), st.sampled_from([0x80, 0x81, 0x84, 0x82, 0x8A]), st.booleans()).map(list))
IDS = [0, 1, 3, 4, 5, 6, 8, 0x19, 0x0300, 0x0500, 0x0B04, 0x1000, 0xFC00, 0xFC57, 0x7777]


@st.composite
def desc_st(draw):
    ids = draw(st.lists(st.sampled_from([1, 2, 3, 8, 10, 11, 13, 200, 240, 242]), min_size=1, max_size=4, unique=True))
    big = draw(st.integers(0, 30)) == 0
    if big:
        # as many endpoints as there can be
        ids = list(range(1, draw(st.sampled_from([17, 33, 65, 130, 240])) + 1))
    eps, attrs = [], {}
    for i in ids:
        if draw(st.integers(0, 7)) == 0 and len(ids) > 1:
            eps.append([i, None, None, None, None, None])
            continue
        if big and i not in (1, ids[-1]):
            eps.append([i, 260, 0x0100, 0, IDS[i % 5:i % 7], [IDS[i % 15]]])
            continue
        cl = st.lists(st.sampled_from(IDS), max_size=6, unique=True)
        if draw(st.integers(0, 9)) == 0:
            # more clusters than fit into one frame
            cl = st.lists(st.integers(0xFC00, 0xFFFE), max_size=40, unique=True)
        ins = draw(cl)
        if draw(st.booleans()) and 0 not in ins:
            ins = [0, *ins]
        eps.append([i, draw(st.sampled_from([260, 260, 260, 49246, 0xA1E0, 0xC105, 0])),
                    draw(st.sampled_from([0, 1, 0x0100, 0x010C, 0x0402, 0x0820, 0x61, 0xFFFE])),
                    draw(st.integers(0, 15)), ins, draw(cl)])
        if 0 in ins:
            a = {}
            for k in ("4", "5"):
                if draw(st.integers(0, 4)):
                    a[k] = sim.cstr(draw(st.sampled_from(["Acme", "_TZ3000_x", "TS0601", "", "Bähn", "lumi.x y"])))
            attrs[f"{i}/0"] = a
    active = [e[0] for e in eps]
    if draw(st.integers(0, 5)) == 0:
        active.insert(draw(st.integers(0, len(active))), 0)
    if draw(st.integers(0, 5)) == 0:
        active.append(active[0])
    nd = sim.nd_bytes(logical=draw(st.sampled_from([1, 2])), manufacturer=draw(st.sampled_from([0, 4174, 0x1002, 0xFFFF])),
                      mac=draw(st.sampled_from([0x8E, 0x80, 0x84])), buf=draw(st.sampled_from([0, 82, 255])),
                      mtu=draw(st.sampled_from([0, 82, 0x0240])), server=draw(st.sampled_from([0, 0x2C00])))
    return {"nd": nd.hex(), "eps": eps, "active": active, "attrs": attrs,
            "pair": draw(st.sampled_from(["ok", "ok", "reversed", "silent", "default_rsp", "first_only"]))}


def strategy():
    return st.fixed_dictionaries({
        "desc": desc_st(),
        "faults": st.lists(FAULT, max_size=28),
        "triggers": st.lists(st.tuples(st.sampled_from(["join", "annce", "packet", "direct"]),
                                       st.sampled_from([0, 1, 30])).map(list), min_size=1, max_size=4),
        "moves": st.one_of(st.just([]), st.lists(st.integers(1, 12), max_size=3, unique=True))})


CHECK = Check(
    "C15",
    rule="an interview with at least one lost, failed, delayed, repeated, truncated or negative reply, or an address "
         "change during the interview",
    assumptions=["devices are simulated by byte-level answers; virtual time; no quirks registered",
                 "several Basic clusters stating different names: any one of them",
                 "negative replies to attribute reads count as part of what the device reports"],
    suites=[Suite("interview", run, strategy=strategy, quick=1600, thorough=40000)])
