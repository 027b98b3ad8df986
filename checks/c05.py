"""C05: received traffic of any kind is contained."""
from __future__ import annotations

import asyncio
import datetime

from vlib.core import Check, Discard, Suite, Violation, b2h, check, check_eq, h2b, short
from vlib import fakes, vloop, wire
from checks import c01, c03, c04

import zigpy.types as t
import zigpy.zcl as zcl
import zigpy.zcl.foundation as f
import zigpy.zdo.types as zt

from hypothesis import strategies as st

U8, U16 = c01.boundary_int(8, False), c01.boundary_int(16, False)

D1, D2, D3, D4 = 0x1111, 0x2222, 0x3333, 0x4444
EUIS = {D1: 1, D2: 2, D3: 3, D4: 4}
SIGNATURE = {
    D1: {1: (260, 0x0100, [0, 3, 4, 5, 6, 8, 0x300], [0x19, 0x0A]),
         2: (260, 0x0402, [0x500, 0x501, 0x502, 0x101, 0x20], [6, 8])},
    D2: {1: (260, 0x0302, [0, 1, 0x402, 0x702], [0x19])},
}


class Trace:
    """Records every event of a cluster or of the ZDO."""

    def __init__(self, name, out):
        self._name, self._out = name, out

    def __getattr__(self, ev):
        if ev.startswith("__"):
            raise AttributeError(ev)

        def rec(*a):
            self._out.append((self._name, ev, [
                type(x).__name__ if hasattr(x, "endpoints") or isinstance(x, datetime.datetime) else fakes.canon(x) for x in a]))
        return rec


def build(extra=()):
    app = fakes.make_app()
    fakes.add_coordinator(app)
    d1 = fakes.add_device(app, 1, D1, eps=SIGNATURE[D1], manufacturer="m", model="x")
    d2 = fakes.add_device(app, 2, D2, eps=SIGNATURE[D2], logical_type=zt.LogicalType.EndDevice)
    fakes_add_new(app)
    ep = d1.add_endpoint(10)
    ep.status = fakes.zigpy.endpoint.Status.ZDO_INIT
    ep.profile_id, ep.device_type = 260, 0x0100
    for cid, server in extra:
        if cid not in ep.in_clusters and cid not in ep.out_clusters:
            (ep.add_input_cluster if server else ep.add_output_cluster)(cid)
    return app, d1, d2


def fakes_add_new(app):
    app.add_device(nwk=t.NWK(D3), ieee=fakes.eui(3))
    d4 = app.add_device(nwk=t.NWK(D4), ieee=fakes.eui(4))
    d4.node_desc = fakes.node_desc()
    d4.add_endpoint(1)


# ------------------------------------------------------------------------- packets
@st.composite
def mutated(draw, data):
    how = draw(st.sampled_from(["no", "no", "no", "cut", "flip", "append", "drop"]))
    if how == "cut":
        return data[: draw(st.integers(0, len(data)))]
    if how == "flip" and data:
        i = draw(st.integers(0, len(data) - 1))
        return data[:i] + bytes([data[i] ^ draw(st.integers(1, 255))]) + data[i + 1:]
    if how == "append":
        return data + draw(st.binary(max_size=8))
    if how == "drop" and data:
        i = draw(st.integers(0, len(data) - 1))
        return data[:i] + data[i + 1:]
    return data


def zcl_header(fc, manuf, tsn, cmd):
    return bytes([fc]) + (manuf.to_bytes(2, "little") if fc & 4 else b"") + bytes([tsn, cmd])


@st.composite
def zcl_data(draw, tsn):
    """(cluster, server side, payload)"""
    if draw(st.booleans()):
        cid, side, i = draw(st.sampled_from(c03.COMMANDS))
        schema = getattr(c03.GENERIC[cid], f"{side}_commands")[i].schema
        body = wire.enc_fields(schema, draw(wire.struct_vals(schema)))
        fc = 1 | (8 if side == "client" else 0)
        server = draw(st.booleans())
    else:
        name = draw(st.sampled_from(sorted(c03.G) + ["Report_Attributes"] * 6 + ["Read_Attributes"] * 3))
        g = c03.G[name]
        i, dir_ = c03.GID[name]
        body = b"".join(e(draw(s)) for _, s, _, e, _ in g)
        fc = draw(st.sampled_from([0, 8]))
        cid = draw(st.sampled_from(sorted(c03.GENERIC)))
        server = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:
        fc = draw(U8)
    if draw(st.integers(0, 8)) == 0:
        i = draw(U8)
    fc |= draw(st.sampled_from([0, 0, 0, 4, 16]))
    data = zcl_header(fc, draw(U16), tsn, int(i)) + body
    return cid, server, draw(mutated(data))


@st.composite
def report_data(draw, tsn):
    """Attribute reports with any data type for attributes that exist."""
    cid = draw(st.sampled_from(sorted(c03.GENERIC)))
    attrs = sorted(int(a) for a in c03.GENERIC[cid].attributes)
    recs = draw(st.lists(st.tuples(
        st.one_of(st.sampled_from(attrs or [0]), U16), c03.TV).map(list), min_size=1, max_size=3))
    return cid, True, zcl_header(8, 0, tsn, 0x0A) + b"".join(c03.attr_enc(r) for r in recs)


@st.composite
def zdo_data(draw, tsn):
    name = draw(st.sampled_from(sorted(c04.TABLE) + ["Device_annce", "IEEE_addr_rsp", "NWK_addr_rsp"] * 4))
    id_, args = c04.TABLE[name]
    opt = sum(o for *_, o in args)
    args = args[: len(args) - (draw(st.integers(0, opt)) if opt else 0)]
    vals = []
    for n, k, _ in args:
        if k == "ieee" and draw(st.booleans()):
            vals.append(fakes.eui(draw(st.integers(1, 6))).serialize().hex())
        elif k == "nwk" and draw(st.booleans()):
            vals.append(draw(st.sampled_from([D1, D2, D3, 0x5555, 0x6666, 0, 0xFFFF])))
        elif k == "status":
            vals.append(draw(st.sampled_from([0, 0, 0x81])))
        else:
            vals.append(draw(c04.KIND[k][0]))
    data = draw(mutated(bytes([tsn]) + c04.reference(args, vals)))
    return (draw(U16) if draw(st.integers(0, 8)) == 0 else id_), data


@st.composite
def packet_st(draw):
    src = draw(st.sampled_from([D1] * 6 + [D2] * 3 + [D3, D4, 0x5555, 0, 0xFFFF]))
    tsn = draw(st.one_of(st.sampled_from([1, 1, 2]), U8))
    kind = draw(st.sampled_from(["zcl", "zcl", "report", "zdo", "zdo", "raw"]))
    p = {"src": src, "mode": draw(st.sampled_from(["NWK"] * 8 + ["IEEE", "IEEE", "Group", "Broadcast"])),
         "tsn": tsn, "lqi": draw(st.one_of(st.none(), U8)), "rssi": draw(st.one_of(st.none(), st.integers(-128, 127))),
         "dm": draw(st.sampled_from(["NWK", "NWK", "Group", "Broadcast", "IEEE"])),
         "server": True, "wait": draw(st.sampled_from([0, 0, 0, 1, 40]))}
    if kind == "zdo":
        cl, data = draw(zdo_data(tsn))
        p.update(cl=cl, data=b2h(data), se=0, de=0, prof=0)
    elif kind == "raw":
        p.update(cl=draw(st.one_of(U16, st.sampled_from([0, 6, 8, 0x19, 0x13, 0x8001, 0x8000, 0x8002]))),
                 data=b2h(draw(st.binary(max_size=12))),
                 se=draw(st.sampled_from([0, 0, 1, 2, 10, 99, 255])), de=draw(st.sampled_from([0, 0, 1, 2, 242])),
                 prof=draw(st.sampled_from([0, 260, 260, 0xC05E])))
    else:
        cl, server, data = draw(zcl_data(tsn) if kind == "zcl" else report_data(tsn))
        p.update(cl=cl, server=server, data=b2h(data), se=draw(st.sampled_from([10, 10, 10, 1])), de=1, prof=260)
    if draw(st.integers(0, 7)) == 0:
        p["se"], p["de"] = draw(st.sampled_from([(0, 1), (1, 0), (0, 0), (10, 0), (1, 1), (255, 255)]))
    if draw(st.integers(0, 7)) == 0:
        p["cl"] = draw(st.one_of(U16, st.sampled_from([0, 6, 0x13, 0x8001, 0x19])))
    return p


def mk_packet(p):
    mode = t.AddrMode[p["mode"]]
    if mode == t.AddrMode.IEEE:
        addr = fakes.NCP_IEEE if p["src"] == 0 else fakes.eui(EUIS.get(p["src"], 5))
    elif mode == t.AddrMode.Group:
        addr = t.Group(p["src"])
    elif mode == t.AddrMode.Broadcast:
        addr = t.BroadcastAddress(0xFFFD)
    else:
        addr = t.NWK(p["src"])
    dm = t.AddrMode[p["dm"]]
    dst = {t.AddrMode.NWK: t.NWK(0), t.AddrMode.Group: t.Group(5), t.AddrMode.IEEE: fakes.NCP_IEEE,
           t.AddrMode.Broadcast: t.BroadcastAddress(0xFFFD)}[dm]
    return t.ZigbeePacket(
        src=t.AddrModeAddress(addr_mode=mode, address=addr), src_ep=p["se"],
        dst=t.AddrModeAddress(addr_mode=dm, address=dst), dst_ep=p["de"], tsn=p["tsn"],
        profile_id=p["prof"], cluster_id=p["cl"], data=t.SerializableBytes(h2b(p["data"])),
        lqi=p["lqi"], rssi=p["rssi"])


def announced(p):
    """(ieee bytes, nwk) if the packet announces an address, by the specification."""
    if 0 not in (p["se"], p["de"]):
        return None
    d = h2b(p["data"])
    if p["cl"] == 0x13 and len(d) >= 12:
        return d[3:11], int.from_bytes(d[1:3], "little")
    if p["cl"] in (0x8000, 0x8001) and len(d) >= 12 and d[1] == 0:
        return d[2:10], int.from_bytes(d[10:12], "little")
    return None


RESPONSES = {i for i, d in c03.GID.values() if d}


def reply_to(p):
    """Transaction numbers the packet may be a reply to (its direction bit or its command says so)."""
    d = h2b(p["data"])
    r = {zcl_reply(p)}
    if p["de"] == 0 and d and p["cl"] & 0x8000:
        r = r | {d[0]} if p["se"] else {d[0]}
    elif p["de"] == 0 and not p["se"]:
        r = set()
    return r - {None}


def zcl_reply(p):
    d = h2b(p["data"])
    if not d:
        return None
    n = 3 if d[0] & 4 else 1
    if len(d) <= n + 1:
        return None
    tsn, cmd = d[n], d[n + 1]
    if d[0] & 8 or (d[0] & 3 != 1 and cmd in RESPONSES):
        return tsn
    cls = zcl.Cluster._registry.get(p["cl"])
    if d[0] & 3 == 1 and cls is not None and cmd in cls.server_commands and cls.server_commands[cmd].direction:
        return tsn
    return None


def identity(dev):
    return {
        "ieee": dev.ieee.serialize().hex(), "node_desc": fakes.canon(dev.node_desc),
        "eps": {i: (ep.profile_id, ep.device_type, sorted(ep.in_clusters), sorted(ep.out_clusters))
                for i, ep in dev.endpoints.items() if i}}


def run_fuzz(case):
    extra = [(p["cl"], p["server"]) for p in case["packets"] if p["se"] == 10]

    async def main(loop):
        app, d1, d2 = build(extra)
        before = {d: identity(d) for d in (d1, d2)}
        addrs = {d.ieee.serialize(): int(d.nwk) for d in app.devices.values()}
        d1._send_sequence = d2._send_sequence = 0
        futs = {}
        for d in (d1, d2):
            for i in range(2 if d is d1 else 1):
                d._concurrent_requests_semaphore.max_value = 4
                futs[(d.ieee.serialize(), i + 1)] = asyncio.ensure_future(
                    d.endpoints[1].in_clusters[0].read_attributes(["zcl_version"]))
        await vloop.settle(5)
        answered = set()
        late = False
        for p in case["packets"]:
            pk = mk_packet(p)
            try:
                app.packet_received(pk)
            except Exception as e:  # noqa: BLE001
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation(f"packet_received raised {type(e).__name__}: {e} "
                                f"(at {tb.filename.split('/repo/')[-1]}:{tb.name})") from e
            a = announced(p)
            if a is not None:
                addrs[bytes(a[0])] = a[1]
            if p["mode"] in ("NWK", "IEEE"):
                # replies count for whichever device the address means right now
                answered |= {(i, r) for i, n in addrs.items() for r in reply_to(p)}
            await vloop.settle(3)
            have = {d.ieee.serialize(): int(d.nwk) for d in app.devices.values()}
            check_eq({b2h(k): v for k, v in sorted(have.items())}, {b2h(k): v for k, v in sorted(addrs.items())},
                     "known addresses")
            for k, fu in futs.items():
                if k not in answered:
                    check(not fu.done() or late, "request %s was completed by something else", k)
            for d, ident in before.items():
                now = app.devices.get(d.ieee)
                check(now is d, "device object of %s replaced", d.ieee)
                check_eq(identity(d), ident, "identity of a known device")
            if p["wait"]:
                # requests may time out from now on
                late = late or p["wait"] > 4
                await asyncio.sleep(p["wait"])
        for fu in futs.values():
            fu.cancel()
        await asyncio.gather(*futs.values(), return_exceptions=True)
    vloop.run(main)
    return {"labels": sorted({("zdo" if p["de"] == 0 else "zcl") for p in case["packets"]}), "nontrivial": True}


# ------------------------------------------------ requests in flight and what is no reply
NOT_REPLIES = ["report", "ias", "read", "write", "other_tsn", "other_device", "annce", "zdo_req", "command",
               "ieee_other", "unknown_ep", "unknown_cl", "config"]


def not_reply(kind, tsn, x):
    n = tsn
    other = (tsn + 1 + x % 255) % 256
    base = {"src": D1, "mode": "NWK", "tsn": n, "lqi": 1, "rssi": -1, "dm": "NWK", "se": 1, "de": 1,
            "prof": 260, "cl": 0, "server": True, "wait": 0}
    zero = bytes([0, 0])
    return {
        "report": dict(base, cl=6, data=b2h(bytes([8, n, 0x0A, 0, 0, 0x10, x & 1]))),
        "ias": dict(base, se=2, cl=0x500, data=b2h(bytes([9, n, 0, x, 0, 0, 1, 0, 0]))),
        "read": dict(base, data=b2h(bytes([x & 16, n, 0]) + zero)),
        "write": dict(base, data=b2h(bytes([x & 16 | 8, n, 2, 0, 0, 0x20, x]))),
        "config": dict(base, data=b2h(bytes([8, n, 8, 0, 0, 0]))),
        "other_tsn": dict(base, data=b2h(bytes([8 | x & 16, other, 1, 0, 0, 0, 0x20, x]))),
        "other_device": dict(base, src=D2, data=b2h(bytes([8, n, 1, 0, 0, 0, 0x20, x]))),
        "ieee_other": dict(base, src=D2, mode="IEEE", data=b2h(bytes([8, n, 1, 0, 0, 0, 0x20, x]))),
        "annce": dict(base, se=0, de=0, prof=0, cl=0x13,
                      data=b2h(bytes([n]) + D1.to_bytes(2, "little") + fakes.eui(1).serialize() + bytes([x]))),
        "zdo_req": dict(base, se=0, de=0, prof=0, cl=5, data=b2h(bytes([n, x, 0]))),
        "command": dict(base, se=2, cl=8, data=b2h(bytes([1, n, 0, x, 1, 0]))),
        "unknown_ep": dict(base, se=77, data=b2h(bytes([8, n, 1, 0, 0, 0, 0x20, x]))),
        "unknown_cl": dict(base, cl=0x1234, data=b2h(bytes([8, n, 1, 0, 0, 0, 0x20, x]))),
    }[kind]


def run_inflight(case):
    async def main(loop):
        app, d1, d2 = build()
        d1._send_sequence = (case["tsn"] - 1) % 256
        zdo = case["zdo"]
        fut = asyncio.ensure_future(
            d1.zdo.Active_EP_req(D1) if zdo else
            d1.endpoints[1].in_clusters[0].read_attributes(["zcl_version"]))
        await vloop.settle(5)
        for kind, x in case["noise"]:
            app.packet_received(mk_packet(not_reply(kind, case["tsn"], x)))
            await vloop.settle(5)
            check(not fut.done(), "the request was completed by %r", kind)
        n = case["tsn"]
        base = {"src": D1, "mode": "NWK", "tsn": n, "lqi": 1, "rssi": -1, "dm": "NWK"}
        if zdo:
            app.packet_received(mk_packet(dict(base, se=0, de=0, prof=0, cl=0x8005,
                                               data=b2h(bytes([n, 0, 0x11, 0x11, 1, case["val"]])))))
        else:
            app.packet_received(mk_packet(dict(base, se=1, de=1, prof=260, cl=0,
                                               data=b2h(bytes([8, n, 1, 0, 0, 0, 0x20, case["val"]])))))
        await vloop.settle(10)
        check(fut.done(), "the reply did not complete the request")
        r = fut.result()
        if zdo:
            check_eq([int(r[0]), int(r[1]), list(r[2])], [0, D1, [case["val"]]], "result")
        else:
            check_eq(fakes.canon(r), [{"zcl_version": case["val"]}, {}], "result")
    vloop.run(main)
    return {"labels": sorted({k for k, _ in case["noise"]}), "nontrivial": True}


# --------------------------------------------------------- malformed, then well-formed
@st.composite
def bad_packet(draw):
    """Malformed by construction, from a known device."""
    how = draw(st.sampled_from(["empty", "header", "args", "endpoint", "cluster", "zdoid", "zdoargs", "type",
                                "mode", "stranger"]))
    src = draw(st.sampled_from([D1, D1, D1, D2]))
    p = {"src": src, "mode": "NWK", "tsn": draw(st.integers(100, 200)), "lqi": 1, "rssi": -1, "dm": "NWK",
         "server": True, "wait": 0, "se": 1, "de": 1, "prof": 260, "cl": 0}
    tsn = p["tsn"]
    if how == "empty":
        p["data"] = ""
        if draw(st.booleans()):
            p.update(se=0, de=0, prof=0, cl=draw(st.sampled_from([0, 0x13, 0x8002, 0x77])))
    elif how == "header":
        p["data"] = b2h(draw(st.sampled_from([b"\x08", b"\x18\x01", b"\x04\x01\x02", b"\x0c\x01\x02\x03"])))
    elif how == "args":
        p["data"] = b2h(draw(st.sampled_from([
            bytes([8, tsn, 0x0A, 5]), bytes([8, tsn, 1, 0, 0, 0, 0x21, 1]), bytes([8, tsn, 0x0B]),
            bytes([8, tsn, 0x0A, 5, 0, 0x42, 200, 1, 2])])))
    elif how == "endpoint":
        p.update(se=draw(st.integers(11, 255)), data=b2h(bytes([8, tsn, 0x0A, 0, 0, 0x20, 1])))
    elif how == "cluster":
        p.update(cl=draw(st.integers(0xFC10, 0xFFFF)), data=b2h(bytes([8, tsn, 0x0A, 0, 0, 0x20, 1])))
    elif how == "zdoid":
        p.update(se=0, de=0, prof=0, cl=draw(st.sampled_from([0x77, 0x10, 0x8010, 0x4000, 0xFFFF])),
                 data=b2h(bytes([tsn]) + draw(st.binary(max_size=6))))
    elif how == "zdoargs":
        p.update(se=0, de=0, prof=0, cl=draw(st.sampled_from([0x13, 0x8000, 0x8001, 0x0006, 0x0036])),
                 data=b2h(bytes([tsn]) + draw(st.binary(max_size=1))))
    elif how == "type":
        p["data"] = b2h(bytes([8, tsn, 0x0A, 0, 0, draw(st.sampled_from([0x01, 0x60, 0xF7])), 1, 2, 3]))
    elif how == "mode":
        p.update(mode=draw(st.sampled_from(["Group", "Broadcast"])), data=b2h(bytes([8, tsn, 0x0A, 0, 0, 0x20, 1])))
    else:
        p.update(se=0, de=draw(st.integers(1, 5)), data=b2h(draw(st.binary(max_size=6))))
        if p["data"] and p["cl"] in (0x13, 0x8000, 0x8001):
            p["cl"] = 6
    return p


PROBES = ["report", "reply", "nwk_addr", "command", "read", "announce", "zdo_reply", "default_rsp"]


def probe_packets(name, i):
    base = {"src": D1, "mode": "NWK", "tsn": 50 + i, "lqi": 1, "rssi": -1, "dm": "NWK", "se": 1, "de": 1,
            "prof": 260, "cl": 0, "server": True, "wait": 0}
    n = 50 + i
    own = bytes(fakes.NCP_IEEE.serialize())
    return {
        "report": dict(base, cl=6, data=b2h(bytes([8, n, 0x0A, 0, 0, 0x10, 1]))),
        "reply": dict(base, data=b2h(bytes([8, 1, 1, 0, 0, 0, 0x20, 3]))),
        "default_rsp": dict(base, data=b2h(bytes([8, 1, 0x0B, 0, 0x86]))),
        "nwk_addr": dict(base, se=0, de=0, prof=0, cl=0, data=b2h(bytes([n]) + own + b"\0\0")),
        "command": dict(base, se=2, cl=8, data=b2h(bytes([1, n, 0, 9, 1, 0]))),
        "read": dict(base, cl=0, data=b2h(bytes([0, n, 0, 0, 0, 7, 0]))),
        "announce": dict(base, se=0, de=0, prof=0, cl=0x13,
                         data=b2h(bytes([n]) + D1.to_bytes(2, "little") + fakes.eui(1).serialize() + b"\x8e")),
        "zdo_reply": dict(base, se=0, de=0, prof=0, cl=0x8005, data=b2h(bytes([2, 0, 0x11, 0x11, 1, 1]))),
    }[name]


def history(noise, probes):
    out = []

    async def main(loop):
        app, d1, d2 = build()
        app.add_listener(AppTrace(out))
        for ep in (d1.endpoints[1], d1.endpoints[2]):
            for c in list(ep.in_clusters.values()) + list(ep.out_clusters.values()):
                c.add_listener(Trace(f"{ep.endpoint_id}/{c.cluster_id:04x}", out))
        d1.zdo.add_listener(Trace("zdo", out))
        d1._send_sequence = 0
        d1._concurrent_requests_semaphore.max_value = 4
        reqs = [asyncio.ensure_future(d1.endpoints[1].in_clusters[0].read_attributes(["zcl_version"])),
                asyncio.ensure_future(d1.zdo.Active_EP_req(D1))]
        await vloop.settle(5)
        for phase, p in noise + [("probe", p) for p in probes]:
            if phase == "probe":
                n0 = len(app.sent)
                out.append(("-- probe",))
            else:
                mark = len(out)
            app.packet_received(mk_packet(p))
            await vloop.settle(20)
            if phase == "probe":
                out.extend(("sent", q.cluster_id, q.dst_ep, b2h(q.data.serialize())) for q in app.sent[n0:]
                           if q.dst.address == D1)
            else:
                del out[mark:]
        for name, r in zip(("read", "eps"), reqs):
            if not r.done():
                out.append((name, "pending"))
                r.cancel()
            elif r.exception() is not None:
                out.append((name, type(r.exception()).__name__))
            else:
                out.append((name, fakes.canon(r.result())))
        await asyncio.gather(*reqs, return_exceptions=True)
        out.append(("cache", {f"{e}/{c}": fakes.canon(dict(cl._attr_cache)) for e in (1, 2)
                              for c, cl in d1.endpoints[e].in_clusters.items()}))
        out.append(("pending", sorted(d1._pending)))
        out.append(("devices", sorted((d.ieee.serialize().hex(), int(d.nwk)) for d in app.devices.values())))
    vloop.run(main)
    return out


class AppTrace:
    def __init__(self, out):
        self.out = out

    def device_joined(self, dev):
        self.out.append(("joined", int(dev.nwk)))

    def device_left(self, dev):
        self.out.append(("left", int(dev.nwk)))

    def device_initialized(self, dev):
        self.out.append(("initialized", int(dev.nwk)))


def run_after(case):
    probes = [probe_packets(n, i) for i, n in enumerate(case["probes"])]
    clean = history([], probes)
    noisy = history([("noise", p) for p in case["noise"]], probes)
    for a, b in zip(clean, noisy):
        check(a == b, "after malformed packets: %s, without them: %s", short(b), short(a))
    check_eq(len(noisy), len(clean), "number of effects")
    return {"labels": sorted(set(case["probes"])), "nontrivial": True}


CHECK = Check(
    id="C05",
    rule="fuzz: sequences of packets (well-formed, mutated and random ZCL/ZDO from known, unknown and "
         "uninitialised senders in every address mode) given to the application while requests are in flight; "
         "addresses follow an independent reading of announcements, identities stay, nothing raises, requests "
         "only end by replies. after: malformed packets, then well-formed ones, compared with the same "
         "history without the malformed ones. Every case is non-trivial.",
    assumptions=["a reply is a reply-direction message from the device with the transaction number"],
    suites=[
        Suite("fuzz", run_fuzz, strategy=lambda: st.fixed_dictionaries(
            {"packets": st.lists(packet_st(), min_size=1, max_size=5)}), quick=5000, thorough=400_000),
        Suite("after", run_after, strategy=lambda: st.fixed_dictionaries({
            "noise": st.lists(bad_packet(), min_size=1, max_size=5),
            "probes": st.lists(st.sampled_from(PROBES), min_size=1, max_size=5, unique=True)}),
            quick=1600, thorough=80_000),
        Suite("inflight", run_inflight, strategy=lambda: st.fixed_dictionaries({
            "tsn": U8, "val": U8, "zdo": st.booleans(),
            "noise": st.lists(st.tuples(st.sampled_from(NOT_REPLIES), U8).map(list), min_size=1, max_size=5)}),
            quick=1600, thorough=80_000),
    ],
)
