"""C34: what devices ask the coordinator is answered exactly once, and correctly."""
from __future__ import annotations

import calendar
import os
import time as systime

import freezegun
from hypothesis import strategies as st

from vlib import fakes, vloop
from vlib.core import Check, Suite, Violation, check_eq, injected, one_of

import zigpy.types as t
from zigpy.exceptions import DeliveryError

EPOCH = calendar.timegm((2000, 1, 1, 0, 0, 0))
ZONES = [
    "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "<-0330>3:30",
    "AEST-10AEDT,M10.1.0,M4.1.0/3",
]
# well away from any change of the clocks
DAYS = [(2001, 1, 15), (2024, 1, 15), (2024, 7, 15), (2036, 7, 15), (2000, 1, 3), (2100, 2, 28)]

BASIC, TIME, OTA, IAS, ONOFF, POLL, MANUF, LIGHTLINK = 0x0000, 0x000A, 0x0019, 0x0500, 0x0006, 0x0020, 0xFC45, 0x1000
CLUSTERS = [BASIC, TIME, OTA, IAS, ONOFF, POLL, MANUF, LIGHTLINK]
PROFILES = {0: 260, 1: 49246}

UNSUPPORTED = 0x86

# ------------------------------------------------------------------ cases


@st.composite
def cases(draw):
    eps = []
    for e in sorted(draw(st.sets(st.sampled_from([1, 2, 11, 240]), min_size=1, max_size=2))):
        side = st.lists(st.sampled_from(CLUSTERS), unique=True, max_size=6)
        eps.append([e, draw(st.integers(0, 1)), sorted(draw(side)), sorted(draw(side))])
    where = [(e[0], c, s) for e in eps for s, cs in ((0, e[2]), (1, e[3])) for c in cs]
    op = zdo_ops() if not where else one_of(zdo_ops(), *[zcl_ops(where)] * 4)
    return {
        "eps": eps, "zone": draw(st.integers(0, len(ZONES) - 1)), "day": draw(st.integers(0, len(DAYS) - 1)),
        "second": draw(st.integers(0, 86399)), "nwk": draw(st.sampled_from([0x0000, 0x0000, 0x4321])),
        "ops": draw(st.lists(op, min_size=1, max_size=8)),
    }


MODES = st.sampled_from(["unicast"] * 4 + ["ieee", "broadcast", "group"])
MANU = st.sampled_from([None, None, None, 0x115F, 0xFFFF, 0x0000])


def zcl_ops(where):
    site = st.sampled_from(where).map(list)
    attrs = st.lists(
        st.one_of(st.integers(0, 9), st.sampled_from([0xFFFD, 0xFFFE, 0x4000, 0xFFFF, 0xF000])), max_size=5
    )
    flags = st.booleans()
    common = {"site": site, "manu": MANU, "quiet": flags, "fail": st.sampled_from([0, 0, 0, 0, 1, 2])}
    report = st.lists(
        st.tuples(st.sampled_from([0, 1, 4, 0x4000, 0xF000]), st.sampled_from(["2005", "1001", "420161"])).map(list),
        max_size=3,
    )
    other = st.sampled_from([
        # general commands with payloads: write, responses, discovery, configure reporting
        [0x02, "04004200"], [0x05, "04004200"], [0x01, "00008600"], [0x04, "00"], [0x0B, "0000"], [0x0B, "0086"],
        [0x0C, "000005"], [0x06, "0000002010002000" "01"], [0x07, "00"], [0x08, "000000"], [0x11, "0005"],
        [0x09, "8600000100"], [0x0D, "01" "000020"],
    ])
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("read"), "ids": attrs, **common}),
        st.fixed_dictionaries({"op": st.just("read"), "ids": attrs, **common}),
        st.fixed_dictionaries({"op": st.just("report"), "records": report, "mode": MODES, **common}),
        st.fixed_dictionaries({"op": st.just("general"), "what": other, **common}),
        st.fixed_dictionaries({"op": st.just("cluster"), "n": st.integers(0, 3), "mode": MODES, **common}),
    )


def zdo_ops():
    fail = st.sampled_from([0, 0, 0, 0, 1])
    mode = st.sampled_from(["unicast", "unicast", "broadcast"])
    return st.one_of(
        st.fixed_dictionaries({
            "op": st.just("nwk_addr"), "who": st.sampled_from(["own", "own", "sender", "other"]),
            "kind": st.integers(0, 1), "start": st.integers(0, 3), "fail": fail, "mode": mode,
        }),
        st.fixed_dictionaries({
            "op": st.just("ieee_addr"), "nwk": st.sampled_from(["own", "own", "sender", 0x2222, 0xFFFD, 0xFFFF, 0xFFFC]),
            "kind": st.integers(0, 1), "start": st.integers(0, 3), "fail": fail, "mode": mode,
        }),
        st.fixed_dictionaries({
            "op": st.just("match"), "nwk": st.sampled_from(["own", 0xFFFD]), "profile": st.sampled_from([260, 260, 49246, 0xC2DF]),
            "ins": st.lists(st.integers(0, 0xFFFF), max_size=3), "outs": st.lists(st.integers(0, 0xFFFF), max_size=3),
            "fail": fail, "mode": mode,
        }),
        st.fixed_dictionaries({
            "op": st.just("zdo"), "what": st.sampled_from([
                [0x0036, "3c00"], [0x8038, "00"], [0x8002, "000012"], [0x8000, "81"], [0x8005, "00341200"], [0x0038, "00f8ff0700"],
            ]), "fail": st.just(0), "mode": mode,
        }),
    )


# ------------------------------------------------------------------ expectations

def le(x, n):
    return (x & ((1 << 8 * n) - 1)).to_bytes(n, "little")


def known_attributes(cluster, now):
    """{attribute: (ZCL type, value bytes, tolerance)} the coordinator has for a cluster."""
    local = calendar.timegm(systime.localtime(now))
    if cluster == BASIC:
        return {0x0000: (0x20, le(8, 1), 0), 0x0007: (0x30, le(4, 1), 0)}
    if cluster == TIME:
        return {
            0x0000: (0xE2, le(int(now) - EPOCH, 4), 1),
            0x0001: (0x18, le(0b111, 1), 0),
            0x0002: (0x2B, le(local - int(now), 4), 0),
            0x0007: (None, le(local - EPOCH, 4), 1),
        }
    return {}


def header(kind, direction, quiet, manu, tsn, command):
    fc = kind | (4 if manu is not None else 0) | direction << 3 | (0x10 if quiet else 0)
    return bytes([fc]) + (le(manu, 2) if manu is not None else b"") + bytes([tsn, command])


class Frame:
    """A sent ZCL frame, taken apart by the specification."""

    def __init__(self, data):
        fc = data[0]
        self.kind, self.direction, self.quiet = fc & 3, fc >> 3 & 1, fc >> 4 & 1
        self.manu = None
        i = 1
        if fc & 4:
            self.manu = int.from_bytes(data[1:3], "little")
            i = 3
        self.tsn, self.command, self.body = data[i], data[i + 1], data[i + 2:]


def check_read(frame, ids, known):
    body = frame.body
    for a in ids:
        if len(body) < 3 or int.from_bytes(body[:2], "little") != a:
            raise Violation(f"record for attribute {a:#06x} expected at {body.hex()}")
        status, body = body[2], body[3:]
        if a not in known:
            check_eq(status, UNSUPPORTED, f"status of attribute {a:#06x}")
            continue
        check_eq(status, 0, f"status of attribute {a:#06x}")
        kind, value, slack = known[a]
        if kind is not None:
            check_eq(body[0], kind, f"type of attribute {a:#06x}")
        elif body[0] not in (0x23, 0xE2):
            raise Violation(f"type of attribute {a:#06x} is {body[0]:#04x}")
        got, want = (int.from_bytes(x, "little") for x in (body[1:1 + len(value)], value))
        if abs(got - want) > slack:
            raise Violation(f"attribute {a:#06x} is {got}, expected {want}")
        body = body[1 + len(value):]
    check_eq(body.hex(), "", "bytes after the last record")


# ------------------------------------------------------------------ running

def run(case):
    answered = [0]
    saved = os.environ.get("TZ")
    moment = calendar.timegm((*DAYS[case["day"]], 0, 0, 0)) + case["second"] + 0.25
    os.environ["TZ"] = ZONES[case["zone"]]
    systime.tzset()
    try:
        frozen = freezegun.freeze_time(
            systime.strftime("%Y-%m-%d %H:%M:%S", systime.gmtime(moment)), ignore=["vlib", "hypothesis", "asyncio", "checks"]
        )
        frozen.start()
        try:
            vloop.run(lambda loop: scenario(case, loop, int(moment), answered))
        finally:
            frozen.stop()
    finally:
        if saved is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = saved
        systime.tzset()
    return {"labels": sorted({o["op"] for o in case["ops"]}), "nontrivial": answered[0] > 0}


async def scenario(case, loop, now, answered):
    app = fakes.make_app()
    app.state.node_info.nwk = t.NWK(case["nwk"])
    eps = {e: (PROFILES[p], 0x0100, ins, outs) for e, p, ins, outs in case["eps"]}
    dev = fakes.add_device(app, 1, 0x1234, eps=eps)
    bystander = fakes.add_device(app, 2, 0x5678, eps=eps)
    tsn = 0x40
    for op in case["ops"]:
        tsn += 1
        await one(app, loop, case, op, dev, tsn, now, answered)
    check_eq(len(bystander._pending), 0, "requests to another device")
    check_eq([repr(e) for e in loop.errors], [], "errors in the event loop")
    await app.shutdown()


def destination(app, mode, case):
    if mode == "ieee":
        return t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=app.state.node_info.ieee)
    if mode == "broadcast":
        return t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE)
    if mode == "group":
        return t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=t.Group(0x1234))
    return t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(case["nwk"]))


async def one(app, loop, case, op, dev, tsn, now, answered):
    def send_packet(packet):
        if op["fail"]:
            raise injected(DeliveryError if op["fail"] == 1 else RuntimeError, "it did not arrive")

    app.hooks["send_packet"] = send_packet
    app.sent.clear()
    want = None         # fn(payload) that checks the answer; None if there must not be one
    mode = op.get("mode", "unicast")

    if "site" in op:
        ep, cluster, side = op["site"]
        profile = next(PROFILES[e[1]] for e in case["eps"] if e[0] == ep)
        # a device's servers speak to clients and its clients to servers
        direction = 0 if side else 1
        kind, manu, quiet = 0, op["manu"], op["quiet"]
        if op["op"] == "read":
            command, body = 0x00, b"".join(le(a, 2) for a in op["ids"])
            known = known_attributes(cluster, now)

            def want(f):
                check_eq(f.command, 0x01, "command")
                check_read(f, op["ids"], known)
        elif op["op"] == "report":
            command, body = 0x0A, b"".join(le(a, 2) + bytes.fromhex(v) for a, v in op["records"])
            if not quiet and mode in ("unicast", "ieee"):
                def want(f):
                    check_eq((f.command, f.body.hex()), (0x0B, "0a00"), "command and payload")
        elif op["op"] == "general":
            command, body = op["what"][0], bytes.fromhex(op["what"][1])
        else:
            kind = 1
            manu = None if cluster in (OTA, IAS) else manu
            n = op["n"]
            command, body = n, b"\0" * n
            if cluster == OTA and side == 1:
                # query, block request, page request, end of upgrade
                command, body = [
                    (0x01, "00" "5f11" "0201" "01000000"), (0x03, "00" "5f11" "0201" "01000000" "00000000" "40"),
                    (0x04, "00" "5f11" "0201" "01000000" "00000000" "40" "0001" "0000"), (0x06, "00" "5f11" "0201" "01000000"),
                ][n]
                body = bytes.fromhex(body)
                if n < 2 and mode in ("unicast", "ieee"):
                    def want(f):
                        answer = [(0x02, "98"), (0x05, "95")][n]
                        check_eq((f.command, f.body.hex()), answer, "command and payload")
            elif cluster == OTA:
                command, body = 0x00, bytes.fromhex("0064")         # a server's notification
            elif cluster == IAS and side == 0:
                # status change, enrolment
                command, body = [(0x00, "0100" "00" "00" "0000"), (0x01, "0d00" "5f11")][n % 2]
                body = bytes.fromhex(body)
                if n % 2 == 0 and not quiet and mode in ("unicast", "ieee"):
                    def want(f):
                        check_eq((f.command, f.body.hex()), (0x0B, "0000"), "command and payload")
            if mode not in ("unicast", "ieee") and cluster == OTA:
                return
        data = header(kind, direction, quiet, manu, tsn, command) + body
        p = fakes.packet(0x1234, cluster, data, src_ep=ep, dst_ep=1, profile=profile)
        p = p.replace(dst=destination(app, mode, case))
        what = f"{op['op']} {data.hex()} on {cluster:#06x} of endpoint {ep}"
    else:
        own = app.state.node_info
        if op["op"] == "nwk_addr":
            ieee = {"own": own.ieee, "sender": dev.ieee, "other": fakes.eui(99)}[op["who"]]
            cluster, body = 0x0000, bytes(ieee.serialize()) + bytes([op["kind"], op["start"]])
            expected = op["who"] == "own"
        elif op["op"] == "ieee_addr":
            nwk = {"own": int(own.nwk), "sender": 0x1234}.get(op["nwk"], op["nwk"])
            cluster, body = 0x0001, le(nwk, 2) + bytes([op["kind"], op["start"]])
            expected = op["nwk"] in ("own", 0xFFFD, 0xFFFF, 0xFFFC)
        elif op["op"] == "match":
            nwk = {"own": int(own.nwk)}.get(op["nwk"], op["nwk"])
            lists = b"".join(bytes([len(x)]) + b"".join(le(c, 2) for c in x) for x in (op["ins"], op["outs"]))
            cluster, body = 0x0006, le(nwk, 2) + le(op["profile"], 2) + lists
            expected = True
        else:
            cluster, body = op["what"][0], bytes.fromhex(op["what"][1])
            expected = False
        data = bytes([tsn]) + body
        p = fakes.packet(0x1234, cluster, data, src_ep=0, dst_ep=0, profile=0)
        p = p.replace(dst=destination(app, mode, case))
        what = f"ZDO {cluster:#06x} {data.hex()}"
        if expected:
            head = bytes([tsn, 0])
            if op["op"] == "match":
                start = head + le(own.nwk, 2)
                full = [start + (b"\1\1" if op["profile"] == 260 else b"\0")]
            else:
                # the list of associated devices is optional, and there are none
                start = head + bytes(own.ieee.serialize()) + le(own.nwk, 2)
                full = [start, start + b"\0", start + b"\0\0"]

            def want(data):
                if data not in full:
                    raise Violation(f"the answer is {data.hex()}, expected {full[0].hex()}")

    app.packet_received(p)
    await vloop.quiesce(loop, 1)
    sent = list(app.sent)
    if op["op"] == "ieee_addr" or "site" not in op:
        sent = [x for x in sent if x.cluster_id & 0x8000]
    if want is None:
        check_eq([bytes(x.data.serialize()).hex() for x in sent], [], f"sent after {what}")
        return
    if op["fail"]:
        if not sent:
            raise Violation(f"no answer was tried to {what}")
        return
    check_eq(len(sent), 1, f"answers to {what}")
    answered[0] += 1
    a = sent[0]
    dst = (int(a.dst.addr_mode), a.dst.address)
    if dst not in ((int(t.AddrMode.NWK), dev.nwk), (int(t.AddrMode.IEEE), dev.ieee)):
        raise Violation(f"the answer to {what} goes to {a.dst}")
    data = bytes(a.data.serialize())
    if "site" not in op:
        check_eq(
            (a.cluster_id, a.src_ep, a.dst_ep, a.profile_id), (cluster | 0x8000, 0, 0, 0), f"addressing of the answer to {what}"
        )
        want(data)
        return
    check_eq(
        (a.cluster_id, a.dst_ep), (cluster, ep), f"cluster and endpoint of the answer to {what}"
    )
    touchlink = profile == 49246 and cluster == LIGHTLINK and data[-1:] and Frame(data).command < 0x40
    check_eq(a.profile_id, profile if touchlink else 260, f"profile of the answer to {what}")
    f = Frame(data)
    check_eq(f.tsn, tsn, f"transaction of the answer to {what}")
    check_eq(f.kind, int(kind == 1 and cluster == OTA), f"frame type of the answer to {what}")
    check_eq(f.direction, 1 - direction, f"direction of the answer to {what}")
    check_eq(f.manu, manu, f"manufacturer code of the answer to {what}")
    check_eq(f.quiet, 1, f"'disable default response' of the answer to {what}")
    try:
        want(f)
    except Violation as e:
        raise Violation(f"answer {data.hex()} to {what}: {e}") from e


CHECK = Check(
    "C34",
    rule="at least one question was answered",
    assumptions=[
        "the answers to requests received by broadcast are only checked for reports, address and matching queries",
        "devices send in the direction of the cluster side they have",
    ],
    suites=[
        Suite("questions", run, strategy=cases, quick=3000, thorough=60000),
    ],
)
