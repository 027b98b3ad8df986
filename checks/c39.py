"""C39: packets reach the device they come from, whether it is known, half known or unknown."""
from __future__ import annotations

import asyncio
import struct
from datetime import datetime, timedelta, timezone

from vlib.core import Check, Suite, check, check_eq, one_of
from vlib import fakes, sim, vloop

import zigpy.quirks
import zigpy.types as t

from hypothesis import strategies as st

BASIC, ONOFF = 0x0000, 0x0006
DESC = {"nd": sim.nd_bytes().hex(),
        "eps": [[1, 260, 0x0100, 1, [BASIC, 3, ONOFF], [25]], [2, 260, 0x0101, 1, [BASIC, ONOFF, 8], [5]]],
        "attrs": {"1/0": {"4": sim.cstr("Acme"), "5": sim.cstr("Lamp")},
                  "2/0": {"4": sim.cstr("Acme"), "5": sim.cstr("Lamp")}}}
#          what the device does not answer        what the application knows when the interview stops there
STAGES = ["nothing", "no endpoints", "endpoint 1", "no model", "complete"]
T0 = datetime(2024, 1, 1, tzinfo=timezone.utc)
UNKNOWN = [0x7A01, 0x7A02, 0x7A03]


def unanswered(stage, p):
    d = p.data.serialize()
    if p.dst_ep == 0:
        return {0: p.cluster_id == 0x0002, 1: p.cluster_id == 0x0005,
                2: p.cluster_id == 0x0004 and d[3] == 2}.get(stage, False)
    return stage == 3 and p.cluster_id == BASIC


def body(kind, i):
    """-> (src ep, dst ep, profile, cluster, payload); all payloads differ"""
    tsn = 200 + i % 50
    if kind == "zdo":            # a match descriptor request for a profile nobody has
        return 0, 0, 0, 0x0006, bytes([tsn]) + b"\x00\x00" + struct.pack("<H", 0x9000 + i) + b"\x00\x00"
    if kind == "zdo1":           # a ZDO message from another endpoint
        return 1, 0, 0, 0x0015, bytes([tsn]) + struct.pack("<H", i)
    if kind == "from0":          # no ZDO message, although it comes from its endpoint
        return 0, 1, 260, ONOFF, bytes([0x18, tsn, 0x0A]) + b"\xf0\x00\x21" + struct.pack("<H", i)
    if kind == "zdo_rsp":
        return 0, 0, 0, 0x8021, bytes([tsn, 0])
    ep, cl = {"basic1": (1, BASIC), "basic2": (2, BASIC), "onoff1": (1, ONOFF), "onoff2": (2, ONOFF),
              "level2": (2, 8), "foreign": (1, 0x0500), "ep9": (9, ONOFF)}[kind]
    return ep, [1, 2, 240][i % 3], 260, cl, bytes([0x18, tsn, 0x0A]) + b"\xf0\x00\x21" + struct.pack("<H", i)


KINDS = ["zdo", "zdo_rsp", "basic1", "basic2", "onoff1", "onoff2", "level2", "foreign", "ep9", "zdo1", "from0"]
IN = {1: {BASIC, 3, ONOFF, 25}, 2: {BASIC, ONOFF, 8, 5}}


def handled(stage, kind):
    """is the packet processed by the device (as far as it is known); does it find its cluster"""
    se, de, _, cl, _ = body(kind, 0)
    taken = stage >= 3 or de == 0 or (stage == 2 and cl == BASIC)
    known = {0: (), 1: (), 2: (1,), 3: (1, 2), 4: (1, 2)}[stage]
    found = taken and (se == de == 0 or (se in known and cl in IN[se]))
    if kind == "zdo1":
        found = None             # what it means is not defined
    return taken, found and kind != "from0"


class Dev:
    def __init__(self, s, stage):
        self.s, self.stage, self.known = s, stage, False
        self.gone = None


class Seen:
    def __init__(self):
        self.msgs, self.joins, self.init = [], [], []

    def handle_message(self, dev, prof, cl, se, de, data):
        self.msgs.append((dev.ieee, int(prof), int(cl), int(se), int(de), bytes(data)))

    def device_joined(self, dev):
        self.joins.append(dev.ieee)

    def device_initialized(self, dev):
        self.init.append(dev.ieee)


def run(case):
    stat = {"half": 0, "unknown": 0, "restarted": 0, "handler": 0, "fast": 0, "pending": 0, "dup": 0}
    saved = list(zigpy.quirks._uninitialized_device_message_handlers)
    try:
        _run(case, stat)
    finally:
        zigpy.quirks._uninitialized_device_message_handlers[:] = saved
    return {"labels": sorted(k for k, v in stat.items() if v),
            "nontrivial": bool(stat["half"] or stat["unknown"])}


def _run(case, stat):
    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        net = sim.Net(app)
        ls = Seen()
        app.add_listener(ls)
        devs = [Dev(net.add(sim.Sim(i + 1, 0x1100 + i, DESC)), s) for i, s in enumerate(case["stages"])]
        by = {d.s: d for d in devs}
        asked = []               # requests sent to devices

        def fault(s, p):
            asked.append((s.ieee if s else None, p.dst_ep, int(p.cluster_id)))
            if p.cluster_id == 0x0034 and p.dst_ep == 0:
                return "lose"
            return "lose" if unanswered(by[s].stage, p) else None

        net.fault = fault

        calls = []
        for n, mode in enumerate(case["handlers"]):
            def handler(sender, prof, cl, se, de, msg, n=n, mode=mode):
                calls.append((n, sender.ieee, int(prof), int(cl), int(se), int(de), bytes(msg)))
                if mode == "fast":
                    sender.cancel_initialization()
                    sender.manufacturer, sender.model = "Fast", "Sensor"
                    q = type("Quick", (zigpy.quirks.CustomDevice,), {"replacement": {
                        "node_desc": fakes.node_desc(), "manufacturer": "Fast", "model": "Sensor", "endpoints": {
                            1: {"profile_id": 260, "device_type": 0x0100, "input_clusters": [BASIC, 3, ONOFF],
                                "output_clusters": [25]}}}})
                    app.device_initialized(q(app, sender.ieee, sender.nwk, sender))
                return mode != "pass" and {"fast": True, "take": "yes"}[mode]
            zigpy.quirks.register_uninitialized_device_message_handler(handler)
            if n % 2:
                zigpy.quirks.register_uninitialized_device_message_handler(handler)   # registered once

        got = []
        keep = []

        def watch(dev):
            """what arrives at the listeners of a device object"""
            if any(k[0] is dev for k in keep):
                return
            c = app.callback_for_response(dev, [lambda hdr, cmd: True], lambda hdr, cmd: got.append(dev.ieee))
            c.__enter__()
            seen = []

            class L:
                def device_last_seen_updated(self, when):
                    seen.append(when)
            dev.add_listener(L())
            keep.append((dev, c, seen))

        def last_seen(dev):
            return next(k[2] for k in keep if k[0] is dev)

        async def join(d):
            d.known = True
            app.packet_received(fakes.packet(
                d.s.nwk, 0x0013, bytes([90]) + sim.le16(d.s.nwk) + d.s.ieee.serialize() + b"\x8e",
                src_ep=0, dst_ep=0, profile=0))
            watch(app.get_device(ieee=d.s.ieee))
            await asyncio.sleep(1)

        def lookups():
            for d in devs:
                for a, mode in ((d.s.nwk, t.AddrMode.NWK), (d.s.ieee, t.AddrMode.IEEE)):
                    adr = t.AddrModeAddress(mode, a)
                    if d.known and d.gone is None:
                        o = app.devices[d.s.ieee]
                        check(app.get_device_with_address(adr) is o, "%r leads to another device", adr)
                        check(app.get_device(**{mode.name.lower(): adr.address}) is o, "get_device(%r)", adr)
                    else:
                        try:
                            x = app.get_device_with_address(adr)
                        except KeyError:
                            pass
                        else:
                            check(d.gone, "unknown address %r leads to %r", adr, x)
            for adr in (t.AddrModeAddress(t.AddrMode.Group, 0x1100), t.AddrModeAddress(t.AddrMode.Broadcast, 0xFFFD)):
                try:
                    app.get_device_with_address(adr)
                except ValueError:
                    pass
                else:
                    check(False, "%r leads to a device", adr)

        for d in devs[:case["known"]]:
            await join(d)
        ls.joins.clear()

        for i, (op, n, x, y) in enumerate(case["ops"]):
            d = devs[n % len(devs)]
            if op == "wait":
                await asyncio.sleep([0.5137, 4.3171, 41.0713, 403.0291][x % 4])
            elif op == "join":
                if d.gone is None:
                    await join(d)
            elif op == "fix":
                d.stage = max(d.stage, x % 5)
            elif op == "remove":
                if d.known and d.gone is None:
                    o = app.get_device(ieee=d.s.ieee)
                    d.gone = loop.time()
                    await app.remove(d.s.ieee)
                    await vloop.settle(3)
            elif op == "relays":
                nwk = UNKNOWN[x % 3]
                b = len(net.broadcasts)
                app.handle_relays(t.NWK(nwk), [0x1234, 0x4321][:n])
                await vloop.settle(5)
                asks(net.broadcasts[b:], nwk)
                stat["unknown"] += 1
            elif op in ("packet", "stranger"):
                kind = KINDS[x % len(KINDS)]
                se, de, prof, cl, data = body(kind, i)
                src = t.AddrModeAddress(t.AddrMode.NWK, d.s.nwk)
                if op == "stranger":
                    src = [t.AddrModeAddress(t.AddrMode.NWK, UNKNOWN[n % 3]),
                           t.AddrModeAddress(t.AddrMode.IEEE, fakes.eui(77)),
                           t.AddrModeAddress(t.AddrMode.Group, 0x1100),
                           t.AddrModeAddress(t.AddrMode.Broadcast, 0xFFFC)][y % 4]
                elif y & 1:
                    src = t.AddrModeAddress(t.AddrMode.IEEE, d.s.ieee)
                ts = T0 + timedelta(seconds=i)
                lqi, rssi = [(None, None), (i % 256, None), (None, -i), (255 - i, -i)][y % 4]
                pk = t.ZigbeePacket(
                    timestamp=ts, src=src, src_ep=se, dst=t.AddrModeAddress(t.AddrMode.NWK, 0), dst_ep=de, tsn=i,
                    profile_id=prof, cluster_id=cl, data=t.SerializableBytes(data), lqi=lqi, rssi=rssi)
                ieee = d.s.ieee
                is_known = op == "packet" and ieee in app.devices
                if op == "packet" and d.gone is None:
                    check_eq(is_known, d.known, f"device {ieee} is known")
                accepted = False
                for rep in range(1 + (y >> 2) % 2):
                    b, a, m, g, c = len(net.broadcasts), len(asked), len(ls.msgs), len(got), len(calls)
                    pre = None
                    if is_known:
                        o = app.get_device(ieee=ieee)
                        watch(o)
                        pre = dict(init=o.is_initialized, busy=o.initializing, n=len(last_seen(o)),
                                   lqi=o.lqi, rssi=o.rssi, pending=d.gone is not None, stage=learned(o))
                    app.packet_received(pk)
                    await vloop.settle(8)
                    new = [x for x in asked[a:] if x[0] == ieee and x[2] < 0x8000 and x[2] != 0x0034]
                    extra = [x for x in ls.msgs[m:] if x[5] == data]
                    if not is_known:
                        stat["unknown"] += 1
                        check_eq(extra, [], "messages of an unknown device reported")
                        check_eq(got[g:], [], "devices that processed a packet from a stranger")
                        check_eq(calls[c:], [], "handlers called for a packet from a stranger")
                        if src.addr_mode == t.AddrMode.NWK:
                            asks(net.broadcasts[b:], int(src.address))
                        else:
                            check_eq(net.broadcasts[b:], [], "broadcasts because of a packet from nobody")
                        check_eq(new, [], "requests sent to an unknown device")
                        continue
                    check_eq(net.broadcasts[b:], [], "broadcasts because of a packet from a known device")
                    check_eq(extra, [(ieee, prof, cl, se, de, data)], "messages reported to listeners")
                    stage = 4 if pre["init"] else pre["stage"]
                    taken, found = handled(stage, kind)
                    if pre["init"] and o.model == "Sensor":
                        taken, found = True, kind != "from0" and (se == de == 0 or (se == 1 and cl in IN[1]))
                        if kind == "zdo1":
                            found = None
                    if not pre["init"]:
                        stat["half"] += 1
                    if taken:
                        check_eq(last_seen(o)[pre["n"]:], [ts], "times reported to listeners")
                        check_eq(o.last_seen, ts.timestamp(), "last seen")
                        check_eq([o.lqi, o.rssi], [pre["lqi"] if lqi is None else lqi,
                                                   pre["rssi"] if rssi is None else rssi], "link quality")
                    else:
                        check_eq(last_seen(o)[pre["n"]:], [], "times reported although the packet is not processed")
                    if accepted:
                        found = found and False
                        stat["dup"] += 1
                    if found is not None:
                        check_eq(got[g:], [ieee] if found else [], f"{kind} at stage {STAGES[stage]}: processed by")
                    accepted |= taken
                    # fast initialisation by handlers
                    exp, fast = [], False
                    if not taken:
                        for k, mode in enumerate(case["handlers"]):
                            exp.append((k, ieee, prof, cl, se, de, data))
                            fast |= mode == "fast"
                            if mode != "pass":
                                break
                        stat["handler"] += bool(exp)
                    check_eq(calls[c:], exp, f"handlers called for {kind} at stage {STAGES[stage]}")
                    if d.gone is not None and ieee not in app.devices:
                        break        # the removal ended meanwhile
                    after = app.get_device(ieee=ieee)
                    if fast:
                        stat["fast"] += 1
                        check(after is not o and after.is_initialized and after.model == "Sensor",
                              "the device initialised by the handler is not the known one")
                        check_eq(new, [], "requests to a device initialised by the handler")
                        d.fast = True
                        continue
                    check(after is o, "the device was replaced")
                    if pre["init"] or pre["busy"] or pre["pending"]:
                        stat["pending"] += pre["pending"] and not pre["init"] and not pre["busy"]
                        check_eq([x for x in new if x[1] == 0 and x[2] in (2, 4, 5)], [],
                                 f"interview requests (before: {pre})")
                    else:
                        stat["restarted"] += 1
                        check(new and new[0] == (ieee, *[(0, 2), (0, 5), (0, 4), (1, 0)][stage]),
                              "a packet of a device that is not fully known (%s) made the application send %s",
                              STAGES[stage], new)
                        check(o.initializing, "no interview started")
            lookups()

        # what is known about complete devices, as data and as a signature
        for d in devs:
            if d.known and d.gone is None and not hasattr(d, "fast"):
                o = app.get_device(ieee=d.s.ieee)
                if not o.is_initialized:
                    continue
                s = o.get_signature()
                check_eq([s["manufacturer"], s["model"]], ["Acme", "Lamp"], "names in the signature")
                check_eq(s["endpoints"], {e[0]: {
                    "profile_id": e[1], "device_type": e[2], "input_clusters": e[4], "output_clusters": e[5]}
                    for e in DESC["eps"]}, "endpoints of the signature")
                check_eq(type(o.node_desc)(**s["node_descriptor" if "node_descriptor" in s else "node_desc"])
                         .serialize().hex(), DESC["nd"], "node descriptor in the signature")
                check(zigpy.quirks.signature_matches(s)(o), "a device does not match its own signature")
    vloop.run(main)


def learned(o):
    """the stage an interview got to, from what is known of the device"""
    eps = [e for i, e in o.endpoints.items() if i]
    if o.node_desc is None:
        return 0
    if not eps:
        return 1
    if any(e.status.name == "NEW" for e in eps):
        return 2
    return 3


def asks(broadcasts, nwk):
    check_eq(len(broadcasts), 1, f"broadcasts asking for {nwk:#06x}")
    p = broadcasts[0]
    check_eq([int(p.cluster_id), int(p.dst_ep), p.dst.addr_mode.name], [0x0001, 0, "Broadcast"], "kind of the broadcast")
    check_eq(p.data.serialize()[1:], sim.le16(nwk) + b"\x00\x00", "arguments of the address request")


def cases():
    i = st.integers(0, 2)
    op = [st.tuples(st.just("packet"), i, st.integers(0, 10), st.integers(0, 7))] * 8 + [
        st.tuples(st.just("stranger"), i, st.integers(0, 10), st.integers(0, 7))] * 3 + [
        st.tuples(st.just("wait"), i, st.integers(0, 3), st.just(0))] * 3 + [
        st.tuples(st.just("join"), i, st.just(0), st.just(0)),
        st.tuples(st.just("fix"), i, st.integers(0, 4), st.just(0)),
        st.tuples(st.just("remove"), i, st.just(0), st.just(0)),
        st.tuples(st.just("relays"), i, st.integers(0, 2), st.just(0))]
    op = one_of(*op).map(list)
    return st.fixed_dictionaries({
        "stages": st.lists(st.integers(0, 4), min_size=3, max_size=3), "known": st.integers(1, 3),
        "handlers": st.lists(st.sampled_from(["pass", "pass", "take", "fast"]), max_size=3),
        "ops": st.lists(op, min_size=3, max_size=14)})


def early(case):
    """packets that arrive before the coordinator itself is known, and after"""
    async def main(loop):
        app = fakes.make_app()
        if case["coordinator"]:
            fakes.add_coordinator(app)
        net = sim.Net(app)
        old = fakes.add_device(app, 1, 0x1100, eps={1: (260, 0x0100, [BASIC, ONOFF], [])})
        sims = [net.add(sim.Sim(2 + k, 0x1200 + k, DESC)) for k in range(3)]
        done = set()
        for i, (kind, k, extra, known) in enumerate(case["packets"]):
            s = sims[k]
            a = s.ieee.serialize() + sim.le16(s.nwk)
            cl, body, joins = {
                "annce": (0x0013, sim.le16(s.nwk) + s.ieee.serialize() + b"\x8e", True),
                "nwk": (0x8000, b"\x00" + a, True), "ieee": (0x8001, b"\x00" + a, True),
                "failed": (0x8001, b"\x81" + a, False),
                "more": (0x8001, b"\x00" + a + b"\x01\x00\x00\x12", True),
                "leave": (0x8034, b"\x00", False), "odd": (0x1234, a, False)}[kind]
            if extra < 0 and kind != "more":
                body, joins = body[:extra], False
            else:
                body += bytes(range(max(0, extra)))
            app.packet_received(fakes.packet(0x1100 if known else s.nwk, cl, bytes([i]) + body,
                                             src_ep=0, dst_ep=0, profile=0))
            await vloop.settle(5)
            if joins:
                done.add(s.ieee)
            for x in sims:
                check_eq(x.ieee in app.devices, x.ieee in done, f"{x.ieee} is known after {kind} ({extra} bytes)")
                if x.ieee in done:
                    check_eq(int(app.devices[x.ieee].nwk), int(x.nwk), "network address")
            check_eq(int(old.nwk), 0x1100, "network address of another device")
        bad = [x for x in loop.errors if "exception" in x]
        check(not bad, "errors in background: %r", bad[:1])
    vloop.run(main)
    return {"labels": [str(case["coordinator"])], "nontrivial": any(x > 0 for _, _, x, _ in case["packets"])}


def early_cases():
    return st.fixed_dictionaries({
        "coordinator": st.sampled_from([False, False, True]),
        "packets": st.lists(st.tuples(
            st.sampled_from(["annce", "annce", "nwk", "ieee", "more", "leave", "failed", "odd"]), st.integers(0, 2),
            st.sampled_from([0, 0, 1, 2, 5, -1, -3]), st.booleans()).map(list), min_size=1, max_size=6)})


def shared(case):
    """network addresses that several known devices have: the one heard from last is meant"""
    async def main(loop):
        app = fakes.make_app()
        ncp = fakes.add_coordinator(app)
        devs = []
        for i, (a, when) in enumerate(case["devices"]):
            dev = fakes.add_device(app, i + 1, [0x1100, 0x1101, 0x0000][a])
            if when is not None:
                dev.last_seen = 1.7e9 + when
            devs.append((int(dev.nwk), dev, when))
        for nwk in (0x1100, 0x1101, 0x1102, 0x0000):
            here = [(-1 if when is None else when, dev) for n, dev, when in devs if n == nwk]
            for call in (lambda: app.get_device(nwk=t.NWK(nwk)),
                         lambda: app.get_device_with_address(t.AddrModeAddress(t.AddrMode.NWK, t.NWK(nwk)))):
                try:
                    got = call()
                except KeyError:
                    got = None
                if nwk == 0:
                    check(got is ncp, "network address 0 leads to %r", got)
                elif not here:
                    check(got is None, "network address %#06x, which nobody has, leads to %r", nwk, got)
                else:
                    last = max(w for w, _ in here)
                    check(any(got is d for w, d in here if w == last), "network address %#06x leads to %r", nwk, got)
        await app.shutdown()
    vloop.run(main)
    addrs = [a for a, _ in case["devices"]]
    return {"nontrivial": len(addrs) > len(set(addrs)), "labels": []}


def shared_cases():
    d = st.tuples(st.integers(0, 2), st.one_of(st.none(), st.integers(0, 5), st.sampled_from([0.5, 1000, 8e7]))).map(list)
    return st.fixed_dictionaries({"devices": st.lists(d, max_size=6)})


CHECK = Check(
    id="C39",
    rule="three simulated devices that stop answering their interview at a drawn step; packets of every kind from them "
         "and from strangers (any address mode, repeated), joins, waits, removals, relays, later cooperation; oracle: "
         "the step the interview got to decides who handles a packet, whether an interview starts, what listeners "
         "and handlers for uninitialised devices are told. Non-trivial when a half-known or unknown device spoke.",
    assumptions=["handlers for messages of uninitialised devices do not raise"],
    suites=[Suite("packets", run, strategy=cases, quick=4000, thorough=120_000),
            Suite("early", early, strategy=early_cases, quick=1500, thorough=30_000),
            Suite("shared", shared, strategy=shared_cases, quick=600, thorough=10_000)],
)
