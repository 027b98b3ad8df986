"""C04: ZDO commands on the wire, against a hand-written table of the specification."""
from __future__ import annotations

import struct

from vlib.core import Check, Discard, Suite, Violation, b2h, check, check_eq, h2b, short
from vlib import fakes, vloop
from checks import c01

import zigpy.types as t
import zigpy.zdo as zdo
import zigpy.zdo.types as zt

from hypothesis import strategies as st

I = c01.boundary_int
U8, U16, U32 = I(8, False), I(16, False), I(32, False)
HEX8 = st.one_of(st.binary(min_size=8, max_size=8).map(b2h), st.sampled_from(["ff" * 8, "00" * 8]))


def le(v, n):
    return v.to_bytes(n, "little")


# name -> (strategy, encode, to-library, plain form of the decoded value)
def _int(n, T):
    return (I(8 * n, False), lambda v: le(v, n), T, int)


def _lst(s, n, T):
    """Length-prefixed list of n-byte integers."""
    return (st.lists(s, max_size=6), lambda v: bytes([len(v)]) + b"".join(le(x, n) for x in v),
            lambda v: [T(x) for x in v], lambda x: [int(i) for i in x])


def _rest(n, T):
    return (st.lists(I(8 * n, False), max_size=6), lambda v: b"".join(le(x, n) for x in v),
            lambda v: [T(x) for x in v], lambda x: [int(i) for i in x])


def fields(x):
    return {k: plain(v) for k, v in x.as_dict().items()}


def plain(v):
    if v is None:
        return None
    if isinstance(v, t.Struct):
        return fields(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, t.EUI64) or isinstance(v, t.ExtendedPanId):
        return v.serialize().hex()
    if isinstance(v, list):
        return [plain(i) for i in v]
    raise AssertionError(v)


def eui(v):
    return t.EUI64(list(h2b(v)))


def rec(spec):
    return st.fixed_dictionaries(spec)


def bits(*pairs):
    """Least significant first."""
    out = pos = 0
    for v, n in pairs:
        out |= v << pos
        pos += n
    return out.to_bytes(pos // 8, "little")


B = lambda n: st.integers(0, (1 << n) - 1)

ND = rec({"logical_type": B(3), "complex_descriptor_available": B(1), "user_descriptor_available": B(1),
          "reserved": B(3), "aps_flags": B(3), "frequency_band": B(5), "mac_capability_flags": U8,
          "manufacturer_code": U16, "maximum_buffer_size": U8, "maximum_incoming_transfer_size": U16,
          "server_mask": U16, "maximum_outgoing_transfer_size": U16, "descriptor_capability_field": U8})


def enc_nd(d):
    return (bits((d["logical_type"], 3), (d["complex_descriptor_available"], 1),
                 (d["user_descriptor_available"], 1), (d["reserved"], 3))
            + bits((d["aps_flags"], 3), (d["frequency_band"], 5))
            + struct.pack("<BHBHHHB", d["mac_capability_flags"], d["manufacturer_code"],
                          d["maximum_buffer_size"], d["maximum_incoming_transfer_size"], d["server_mask"],
                          d["maximum_outgoing_transfer_size"], d["descriptor_capability_field"]))


PD = rec({"current_power_mode": B(4), "available_power_sources": B(4), "current_power_source": B(4),
          "current_power_source_level": B(4)})


def enc_pd(d):
    return bits((d["current_power_mode"], 4), (d["available_power_sources"], 4)) + bits(
        (d["current_power_source"], 4), (d["current_power_source_level"], 4))


SD = rec({"endpoint": U8, "profile": U16, "device_type": U16, "device_version": U8,
          "input_clusters": st.lists(U16, max_size=8), "output_clusters": st.lists(U16, max_size=8)})


def enc_sd_plain(d):
    out = struct.pack("<BHHB", d["endpoint"], d["profile"], d["device_type"], d["device_version"])
    for k in ("input_clusters", "output_clusters"):
        out += bytes([len(d[k])]) + b"".join(le(c, 2) for c in d[k])
    return out


def enc_sd(d):
    p = enc_sd_plain(d)
    return bytes([len(p)]) + p


MA = st.one_of(rec({"addrmode": st.just(1), "nwk": U16}),
               rec({"addrmode": st.just(3), "ieee": HEX8, "endpoint": U8}))


def enc_ma(d):
    if d["addrmode"] == 1:
        return b"\x01" + le(d["nwk"], 2)
    return b"\x03" + h2b(d["ieee"]) + le(d["endpoint"], 1)


def mk_ma(d):
    return zt.MultiAddress(**{k: eui(v) if k == "ieee" else v for k, v in d.items()})


NEI = rec({"extended_pan_id": HEX8, "ieee": HEX8, "nwk": U16, "device_type": B(2), "rx_on_when_idle": B(2),
           "relationship": B(3), "reserved1": B(1), "permit_joining": B(2), "reserved2": B(6),
           "depth": U8, "lqi": U8})


def enc_nei(d):
    return (h2b(d["extended_pan_id"]) + h2b(d["ieee"]) + le(d["nwk"], 2)
            + bits((d["device_type"], 2), (d["rx_on_when_idle"], 2), (d["relationship"], 3), (d["reserved1"], 1))
            + bits((d["permit_joining"], 2), (d["reserved2"], 6)) + bytes([d["depth"], d["lqi"]]))


def mk_nei(d):
    return zt.Neighbor(**{**d, "ieee": eui(d["ieee"]),
                          "extended_pan_id": t.ExtendedPanId(list(h2b(d["extended_pan_id"])))})


RT = rec({"DstNWK": U16, "RouteStatus": B(3), "MemoryConstrained": B(1), "ManyToOne": B(1),
          "RouteRecordRequired": B(1), "Reserved": B(2), "NextHop": U16})


def enc_rt(d):
    return le(d["DstNWK"], 2) + bits(
        (d["RouteStatus"], 3), (d["MemoryConstrained"], 1), (d["ManyToOne"], 1),
        (d["RouteRecordRequired"], 1), (d["Reserved"], 2)) + le(d["NextHop"], 2)


BND = rec({"SrcAddress": HEX8, "SrcEndpoint": U8, "ClusterId": U16, "DstAddress": MA})


def enc_bnd(d):
    return h2b(d["SrcAddress"]) + le(d["SrcEndpoint"], 1) + le(d["ClusterId"], 2) + enc_ma(d["DstAddress"])


def mk_bnd(d):
    return zt.Binding(**{**d, "SrcAddress": eui(d["SrcAddress"]), "DstAddress": mk_ma(d["DstAddress"])})


def table(T, key, item, enc, mk):
    def e(d):
        return bytes([d["Entries"], d["StartIndex"], len(d[key])]) + b"".join(enc(x) for x in d[key])
    return (rec({"Entries": U8, "StartIndex": U8, key: st.lists(item, max_size=4)}), e,
            lambda d: T(**{**d, key: [mk(x) for x in d[key]]}), fields)


UPD = st.one_of(
    rec({"ScanChannels": U32, "ScanDuration": st.integers(0, 5), "ScanCount": U8}),
    rec({"ScanChannels": U32, "ScanDuration": st.integers(6, 0xFD)}),
    rec({"ScanChannels": U32, "ScanDuration": st.just(0xFE), "nwkUpdateId": U8}),
    rec({"ScanChannels": U32, "ScanDuration": st.just(0xFF), "nwkUpdateId": U8, "nwkManagerAddr": U16}))


def enc_upd(d):
    out = le(d["ScanChannels"], 4) + le(d["ScanDuration"], 1)
    for k, n in (("ScanCount", 1), ("nwkUpdateId", 1), ("nwkManagerAddr", 2)):
        if k in d:
            out += le(d[k], n)
    return out


def hexer(x):
    return x.serialize().hex()


KIND = {
    "u8": _int(1, t.uint8_t), "u16": _int(2, t.uint16_t), "nwk": _int(2, t.NWK), "u32": _int(4, t.uint32_t),
    "status": (st.one_of(st.just(0), st.sampled_from(sorted(int(s) for s in zt.Status)), U8),
               lambda v: bytes([v]), zt.Status, int),
    "bool": (st.integers(0, 1), lambda v: bytes([v]), t.Bool, int),
    "ieee": (HEX8, h2b, eui, hexer),
    "lv8": _lst(U8, 1, t.uint8_t), "lv16": _lst(U16, 2, t.uint16_t),
    "lvieee": (st.lists(HEX8, max_size=4), lambda v: bytes([len(v)]) + b"".join(map(h2b, v)),
               lambda v: [eui(x) for x in v], lambda x: [hexer(i) for i in x]),
    "rest8": _rest(1, t.uint8_t), "rest16": _rest(2, t.uint16_t),
    "b16": (st.lists(U8, min_size=16, max_size=16), bytes, list, lambda x: [int(i) for i in x]),
    "nd": (ND, enc_nd, lambda d: zt.NodeDescriptor(**d), fields),
    "pd": (PD, enc_pd, lambda d: zt.PowerDescriptor(**d), fields),
    "sd": (SD, enc_sd, lambda d: zt.SizePrefixedSimpleDescriptor(**d), fields),
    "ma": (MA, enc_ma, mk_ma, fields),
    "upd": (UPD, enc_upd, lambda d: zt.NwkUpdate(**d), fields),
    "neis": table(zt.Neighbors, "NeighborTableList", NEI, enc_nei, mk_nei),
    "rts": table(zt.Routes, "RoutingTableList", RT, enc_rt, lambda d: zt.Route(**d)),
    "bnds": (st.lists(BND, max_size=4), lambda v: bytes([len(v)]) + b"".join(map(enc_bnd, v)),
             lambda v: [mk_bnd(x) for x in v], lambda x: [fields(i) for i in x]),
}


# command -> (id, [(argument, kind)]); "?" marks what may be absent
def T(id_, s):
    return id_, [(a.split(":")[0].rstrip("?"), a.split(":")[1], "?" in a) for a in s.split()]


TABLE = {
    "NWK_addr_req": T(0x0000, "IEEEAddr:ieee RequestType:u8 StartIndex:u8"),
    "IEEE_addr_req": T(0x0001, "NWKAddrOfInterest:nwk RequestType:u8 StartIndex:u8"),
    "Node_Desc_req": T(0x0002, "NWKAddrOfInterest:nwk"),
    "Power_Desc_req": T(0x0003, "NWKAddrOfInterest:nwk"),
    "Simple_Desc_req": T(0x0004, "NWKAddrOfInterest:nwk EndPoint:u8"),
    "Active_EP_req": T(0x0005, "NWKAddrOfInterest:nwk"),
    "Match_Desc_req": T(0x0006, "NWKAddrOfInterest:nwk ProfileID:u16 InClusterList:lv16 OutClusterList:lv16"),
    "User_Desc_req": T(0x0011, "NWKAddrOfInterest:nwk"),
    "Discovery_Cache_req": T(0x0012, "NWKAddr:nwk IEEEAddr:ieee"),
    "Device_annce": T(0x0013, "NWKAddr:nwk IEEEAddr:ieee Capability:u8"),
    "User_Desc_set": T(0x0014, "NWKAddrOfInterest:nwk UserDescriptor:b16"),
    "System_Server_Discovery_req": T(0x0015, "ServerMask:u16"),
    "Discovery_store_req": T(0x0016, "NWKAddr:nwk IEEEAddr:ieee NodeDescSize:u8 PowerDescSize:u8 ActiveEPSize:u8 SimpleDescSizeList:lv8"),
    "Node_Desc_store_req": T(0x0017, "NWKAddr:nwk IEEEAddr:ieee NodeDescriptor:nd"),
    "Active_EP_store_req": T(0x0019, "NWKAddr:nwk IEEEAddr:ieee ActiveEPList:lv8"),
    "Simple_Desc_store_req": T(0x001A, "NWKAddr:nwk IEEEAddr:ieee SimpleDescriptor:sd"),
    "Remove_node_cache_req": T(0x001B, "NWKAddr:nwk IEEEAddr:ieee"),
    "Find_node_cache_req": T(0x001C, "NWKAddr:nwk IEEEAddr:ieee"),
    "Extended_Simple_Desc_req": T(0x001D, "NWKAddrOfInterest:nwk EndPoint:u8 StartIndex:u8"),
    "Extended_Active_EP_req": T(0x001E, "NWKAddrOfInterest:nwk StartIndex:u8"),
    "Parent_annce": T(0x001F, "Children:lvieee"),
    "End_Device_Bind_req": T(0x0020, "BindingTarget:u16 SrcAddress:ieee SrcEndpoint:u8 ProfileID:u16 InClusterList:lv16 OutClusterList:lv16"),
    "Bind_req": T(0x0021, "SrcAddress:ieee SrcEndpoint:u8 ClusterID:u16 DstAddress:ma"),
    "Unbind_req": T(0x0022, "SrcAddress:ieee SrcEndpoint:u8 ClusterID:u16 DstAddress:ma"),
    "Mgmt_Lqi_req": T(0x0031, "StartIndex:u8"),
    "Mgmt_Rtg_req": T(0x0032, "StartIndex:u8"),
    "Mgmt_Bind_req": T(0x0033, "StartIndex:u8"),
    "Mgmt_Leave_req": T(0x0034, "DeviceAddress:ieee Options:u8"),
    "Mgmt_Permit_Joining_req": T(0x0036, "PermitDuration:u8 TC_Significant:bool"),
    "Mgmt_NWK_Update_req": T(0x0038, "NwkUpdate:upd"),
    "NWK_addr_rsp": T(0x8000, "Status:status IEEEAddr:ieee NWKAddr:nwk NumAssocDev?:u8 StartIndex?:u8 NWKAddressAssocDevList?:rest16"),
    "IEEE_addr_rsp": T(0x8001, "Status:status IEEEAddr:ieee NWKAddr:nwk NumAssocDev?:u8 StartIndex?:u8 NWKAddrAssocDevList?:rest16"),
    "Node_Desc_rsp": T(0x8002, "Status:status NWKAddrOfInterest:nwk NodeDescriptor?:nd"),
    "Power_Desc_rsp": T(0x8003, "Status:status NWKAddrOfInterest:nwk PowerDescriptor?:pd"),
    "Simple_Desc_rsp": T(0x8004, "Status:status NWKAddrOfInterest:nwk SimpleDescriptor?:sd"),
    "Active_EP_rsp": T(0x8005, "Status:status NWKAddrOfInterest:nwk ActiveEPList:lv8"),
    "Match_Desc_rsp": T(0x8006, "Status:status NWKAddrOfInterest:nwk MatchList:lv8"),
    "User_Desc_rsp": T(0x8011, "Status:status NWKAddrOfInterest:nwk Length:u8 UserDescriptor?:b16"),
    "Discovery_Cache_rsp": T(0x8012, "Status:status"),
    "User_Desc_conf": T(0x8014, "Status:status NWKAddrOfInterest:nwk"),
    "System_Server_Discovery_rsp": T(0x8015, "Status:status ServerMask:u16"),
    "Discovery_Store_rsp": T(0x8016, "Status:status"),
    "Node_Desc_store_rsp": T(0x8017, "Status:status"),
    "Active_EP_store_rsp": T(0x8019, "Status:status"),
    "Simple_Desc_store_rsp": T(0x801A, "Status:status"),
    "Remove_node_cache_rsp": T(0x801B, "Status:status"),
    "Find_node_cache_rsp": T(0x801C, "CacheNWKAddr:nwk NWKAddr:nwk IEEEAddr:ieee"),
    "Extended_Simple_Desc_rsp": T(0x801D, "Status:status NWKAddr:nwk Endpoint:u8 AppInputClusterCount:u8 AppOutputClusterCount:u8 StartIndex:u8 AppClusterList?:rest16"),
    "Extended_Active_EP_rsp": T(0x801E, "Status:status NWKAddrOfInterest:nwk ActiveEPCount:u8 StartIndex:u8 ActiveEPList:rest8"),
    "Parent_annce_rsp": T(0x801F, "Status:status Children:lvieee"),
    "End_Device_Bind_rsp": T(0x8020, "Status:status"),
    "Bind_rsp": T(0x8021, "Status:status"),
    "Unbind_rsp": T(0x8022, "Status:status"),
    "Mgmt_Lqi_rsp": T(0x8031, "Status:status Neighbors?:neis"),
    "Mgmt_Rtg_rsp": T(0x8032, "Status:status Routes?:rts"),
    "Mgmt_Bind_rsp": T(0x8033, "Status:status BindingTableEntries:u8 StartIndex:u8 BindingTableList:bnds"),
    "Mgmt_Leave_rsp": T(0x8034, "Status:status"),
    "Mgmt_Permit_Joining_rsp": T(0x8036, "Status:status"),
    "Mgmt_NWK_Update_rsp": T(0x8038, "Status:status ScannedChannels:u32 TotalTransmissions:u16 TransmissionFailures:u16 EnergyValues:lv8"),
}

# values handed over as plain integers where the library's own type is an enumeration/bitmap
LIB = {"RequestType": zt.AddrRequestType, "Options": t.bitmap8, "ScannedChannels": t.Channels}


@st.composite
def cmd_case(draw):
    name = draw(st.sampled_from(sorted(TABLE)))
    id_, args = TABLE[name]
    n_opt = sum(o for *_, o in args)
    omit = draw(st.integers(0, n_opt)) if n_opt else 0
    vals = [draw(KIND[k][0]) for _, k, _ in args[: len(args) - omit]]
    return {"name": name, "args": vals, "seq": draw(st.one_of(U8, st.just(255))),
            "tsn": draw(st.one_of(st.none(), U8)), "raw": draw(st.booleans()),
            "nwk": draw(st.integers(1, 0xFFF7)), "ieee": draw(st.booleans()),
            "extra": draw(st.one_of(st.just(""), st.binary(max_size=4).map(b2h)))}


def reference(args, vals):
    return b"".join(KIND[k][1](v) for (_, k, _), v in zip(args, vals))


def lib_args(args, vals, raw):
    out = []
    for (n, k, _), v in zip(args, vals):
        x = KIND[k][2](v)
        if raw and k in ("u8", "u16", "nwk", "u32", "status", "bool"):
            x = v
        elif n in LIB:
            x = LIB[n](v)
        out.append(x)
    return out


def want_plain(k, v):
    if isinstance(v, dict):
        full = {kk: want_plain(None, x) for kk, x in v.items()}
        return full
    if isinstance(v, list):
        return [want_plain(None, x) for x in v]
    return v


def strip(x):
    """Drop absent fields."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def verify_args(args, vals, decoded, what):
    check_eq(len(decoded), len(args), f"{what}: number of arguments")
    for i, (n, k, _) in enumerate(args):
        if i >= len(vals):
            # a list that takes the rest of the payload is empty rather than absent
            if k.startswith("rest") and decoded[i] == []:
                continue
            check(decoded[i] is None, "%s: absent argument %s decoded as %r", what, n, decoded[i])
            continue
        check(decoded[i] is not None, "%s: argument %s lost", what, n)
        have = strip(KIND[k][3](decoded[i]))
        check_eq(have, want_plain(k, vals[i]), f"{what}: argument {n}")


class Tap:
    def __init__(self):
        self.events = []

    def __getattr__(self, name):
        if name.startswith("zdo_"):
            return lambda *a: self.events.append((name, a))
        raise AttributeError(name)


def known():
    check_eq(sorted((c.name, int(c)) for c in zt.CLUSTERS if c.name in TABLE),
             sorted((n, i) for n, (i, _) in TABLE.items() if n != "Power_Desc_store_rsp"), "command identifiers")
    for c, (names, types) in zt.CLUSTERS.items():
        if c.name in TABLE:
            check_eq(list(names), [a for a, *_ in TABLE[c.name][1]], f"argument names of {c.name}")


def run_cmd(case):
    name = case["name"]
    id_, args = TABLE[name]
    vals = case["args"]
    ref = reference(args, vals)

    async def main(loop):
        app = fakes.make_app()
        dev = fakes.add_device(app, 7, case["nwk"])
        dev._send_sequence = case["seq"]
        seq = (case["seq"] + 1) % 256
        largs = lib_args(args, vals, case["raw"])
        kw = {"use_ieee": case["ieee"]}
        tsn = seq
        if id_ & 0x8000:
            if case["tsn"] is not None:
                kw["tsn"] = tsn = case["tsn"]
        else:
            kw["expect_reply"] = False
        await getattr(dev.zdo, name)(*largs, **kw)
        check_eq(len(app.sent), 1, "packets sent for one command")
        p = app.sent[0]
        check_eq((p.profile_id, p.cluster_id, p.src_ep, p.dst_ep), (0, id_, 0, 0), "packet of " + name)
        want = (t.AddrMode.IEEE, dev.ieee) if case["ieee"] else (t.AddrMode.NWK, case["nwk"])
        check_eq((p.dst.addr_mode, p.dst.address), want, "destination")
        check_eq(p.tsn, tsn, "packet transaction number")
        raw = p.data.serialize()
        check(raw == bytes([tsn]) + ref, "%s: payload %s, specification %s", name, raw.hex(),
              (bytes([tsn]) + ref).hex())

        # the other side
        rapp = fakes.make_app()
        fakes.add_coordinator(rapp)
        rdev = fakes.add_device(rapp, 9, 0x2222)
        has_rest = args and args[-1][1].startswith("rest")
        extra = b"" if has_rest or len(vals) < len(args) else h2b(case["extra"])
        hdr, dec = rdev.zdo.deserialize(id_, raw + extra)
        check_eq((int(hdr.tsn), int(hdr.command_id), hdr.is_reply, hdr.command_id.name),
                 (tsn, id_, bool(id_ & 0x8000), name), "decoded header")
        check_eq(hdr.serialize(), bytes([tsn]), "header encoding")
        verify_args(args, vals, dec, name)

        tap = Tap()
        rdev.zdo.add_listener(tap)
        rdev.packet_received(fakes.packet(t.NWK(0x2222), id_, raw, src_ep=0, dst_ep=0, profile=0, tsn=tsn,
                                          timestamp=None))
        ev = [e for e in tap.events if e[0] == f"zdo_{name.lower()}"]
        check_eq(len(ev), 1, "events for one received command")
        check(ev[0][1][0] is rdev, "event names another device")
        check_eq((int(ev[0][1][2].tsn), int(ev[0][1][2].command_id)), (tsn, id_), "received header")
        verify_args(args, vals, ev[0][1][3], name + " received")
        await vloop.settle(3)

    vloop.run(main)
    return {"labels": [name, "partial" if len(vals) < len(args) else "full"], "nontrivial": True}


# ------------------------------------------------------------------------- broadcasts
@st.composite
def bcast_case(draw):
    name = draw(st.sampled_from(sorted(n for n, (i, a) in TABLE.items() if a and not any(o for *_, o in a))))
    args = TABLE[name][1]
    perm = draw(st.permutations(range(len(args))))
    return {"name": name, "args": [draw(KIND[k][0]) for _, k, _ in args],
            "npos": draw(st.integers(0, len(args))), "perm": list(perm), "seq": draw(U8),
            "radius": draw(U8), "addr": draw(st.sampled_from([0xFFFC, 0xFFFD, 0xFFFF]))}


def run_bcast(case):
    name = case["name"]
    id_, args = TABLE[name]
    largs = lib_args(args, case["args"], False)
    ref = reference(args, case["args"])
    npos = case["npos"]
    kw = {args[i][0]: largs[i] for i in case["perm"] if i >= npos}

    async def main(loop):
        app = fakes.make_app()
        app._send_sequence = case["seq"]
        await zdo.broadcast(app, zt.ZDOCmd(id_), 0, case["radius"], *largs[:npos],
                            broadcast_address=t.BroadcastAddress(case["addr"]), **kw)
        check_eq(len(app.sent), 1, "packets for one broadcast")
        p = app.sent[0]
        seq = (case["seq"] + 1) % 256
        check_eq((p.profile_id, p.cluster_id, p.src_ep, p.dst_ep, p.radius, p.tsn),
                 (0, id_, 0, 0, case["radius"], seq), "broadcast packet of " + name)
        check_eq((p.dst.addr_mode, p.dst.address), (t.AddrMode.Broadcast, case["addr"]), "destination")
        raw = p.data.serialize()
        check(raw == bytes([seq]) + ref, "%s: broadcast payload %s, specification %s", name, raw.hex(),
              (bytes([seq]) + ref).hex())

    vloop.run(main)
    return {"labels": [name, "named" if kw else "positional"], "nontrivial": True}


# ------------------------------------------------------------------- helpers and handlers
@st.composite
def helper_case(draw):
    return {"what": draw(st.sampled_from(["bind", "unbind", "leave", "permit", "nwk_addr", "ieee_addr", "match"])),
            "nwk": draw(st.integers(1, 0xFFF7)), "n": draw(st.integers(1, 2**32 - 1)),
            "ep": draw(st.integers(1, 254)), "cluster": draw(U16), "server": draw(st.booleans()),
            "a": draw(st.booleans()), "b": draw(st.booleans()), "u8": draw(U8), "tsn": draw(U8),
            "own": draw(st.sampled_from(["own", "other", "broadcast"])),
            "profile": draw(st.sampled_from([260, 49246, 0x1234]))}


def run_helper(case):
    what = case["what"]

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        dev = fakes.add_device(app, case["n"], case["nwk"], eps={case["ep"]: (260, 256, [], [])})
        own = bytes(app.state.node_info.ieee.serialize())
        theirs = bytes(dev.ieee.serialize())
        dev._send_sequence = 9
        # answers are not the subject here: let the request be sent and time out
        import asyncio

        async def call(coro):
            task = asyncio.ensure_future(coro)
            await vloop.settle(10)
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)

        def sent(id_, payload, tsn=10):
            check_eq(len(app.sent), 1, "packets sent")
            p = app.sent[0]
            check_eq((p.cluster_id, p.profile_id, p.src_ep, p.dst_ep), (id_, 0, 0, 0), what)
            raw = p.data.serialize()
            check(raw == bytes([tsn]) + payload, "%s: payload %s, expected %s", what, raw.hex(),
                  (bytes([tsn]) + payload).hex())

        if what in ("bind", "unbind"):
            ep = dev.endpoints[case["ep"]]
            cl = (ep.add_input_cluster if case["server"] else ep.add_output_cluster)(case["cluster"])
            via = cl if case["a"] else dev.zdo
            fn = getattr(via, what)
            await call(fn() if case["a"] else fn(cl))
            sent(0x21 if what == "bind" else 0x22,
                 theirs + bytes([case["ep"]]) + le(case["cluster"], 2) + b"\x03" + own + b"\x01")
        elif what == "leave":
            await call(dev.zdo.leave(remove_children=case["a"], rejoin=case["b"]))
            sent(0x34, theirs + bytes([case["a"] << 6 | case["b"] << 7]))
        elif what == "permit":
            await call(dev.zdo.permit(case["u8"], int(case["a"])))
            sent(0x36, bytes([case["u8"], case["a"]]))
        else:
            def rx(id_, data):
                dev.packet_received(fakes.packet(t.NWK(case["nwk"]), id_, bytes([case["tsn"]]) + data,
                                                 src_ep=0, dst_ep=0, profile=0, tsn=case["tsn"], timestamp=None))
            if what == "nwk_addr":
                rx(0, (own if case["own"] == "own" else theirs) + b"\x00\x00")
                id_, want = 0x8000, b"\x00" + own + b"\x00\x00"
                answered = case["own"] == "own"
            elif what == "ieee_addr":
                rx(1, {"own": b"\0\0", "other": le(case["nwk"], 2), "broadcast": b"\xff\xff"}[case["own"]] + b"\x00\x00")
                id_, want = 0x8001, b"\x00" + own + b"\x00\x00"
                answered = case["own"] != "other"
            else:
                rx(6, b"\xfd\xff" + le(case["profile"], 2) + b"\x01" + le(case["cluster"], 2) + b"\x00")
                id_ = 0x8006
                want = b"\x00\x00\x00" + (b"\x01\x01" if case["profile"] == 260 else b"\x00")
                answered = True
            await vloop.settle(10)
            if not answered:
                check_eq(len(app.sent), 0, f"{what} of another device: answers sent")
                return
            check_eq(len(app.sent), 1, f"{what}: answers sent")
            p = app.sent[0]
            check_eq((p.cluster_id, p.dst.address), (id_, case["nwk"]), "answer")
            raw = p.data.serialize()
            check(raw.startswith(bytes([case["tsn"]]) + want), "%s answered with %s, expected %s", what, raw.hex(),
                  (bytes([case["tsn"]]) + want).hex())

    vloop.run(main)
    return {"labels": [what], "nontrivial": True}


# ---------------------------------------------------------------- records by themselves
RECORDS = {
    "NodeDescriptor": (ND, enc_nd, lambda d: zt.NodeDescriptor(**d)),
    "PowerDescriptor": (PD, enc_pd, lambda d: zt.PowerDescriptor(**d)),
    "SimpleDescriptor": (SD, enc_sd_plain, lambda d: zt.SimpleDescriptor(**d)),
    "SizePrefixedSimpleDescriptor": (SD, enc_sd, lambda d: zt.SizePrefixedSimpleDescriptor(**d)),
    "MultiAddress": (MA, enc_ma, mk_ma),
    "Neighbor": (NEI, enc_nei, mk_nei),
    "Route": (RT, enc_rt, lambda d: zt.Route(**d)),
    "Binding": (BND, enc_bnd, mk_bnd),
    "NwkUpdate": (UPD, enc_upd, lambda d: zt.NwkUpdate(**d)),
}


@st.composite
def rec_case(draw):
    n = draw(st.sampled_from(sorted(RECORDS)))
    return [n, draw(RECORDS[n][0]), draw(st.binary(max_size=5).map(b2h)), draw(st.integers(0, 40))]


def run_rec(case):
    n, v, rest, cut = case
    _, enc, mk = RECORDS[n]
    T_ = getattr(zt, n)
    x = mk(v)
    data = x.serialize()
    check(data == enc(v), "%s encoded as %s, specification %s", n, data.hex(), enc(v).hex())
    y, r = T_.deserialize(data + h2b(rest))
    check(r == h2b(rest), "%s: remainder %s instead of %s", n, r.hex(), rest)
    check_eq(strip(fields(y)), v, n)
    check(y == x and type(y) is T_, "%s is not equal after the round trip", n)
    if n == "NodeDescriptor":
        b = data
        old = zt.NodeDescriptor(b[0], b[1], *struct.unpack("<BHBHHHB", b[2:]))
        check(old == x, "the descriptor from its packed bytes differs")
        lt = v["logical_type"]
        check_eq((y.is_coordinator, y.is_router, y.is_end_device), (lt == 0, lt == 1, lt == 2), "role")
        m = v["mac_capability_flags"]
        check_eq([y.is_alternate_pan_coordinator, y.is_full_function_device, y.is_mains_powered,
                  y.is_receiver_on_when_idle, y.is_security_capable, y.allocate_address],
                 [bool(m >> i & 1) for i in (0, 1, 2, 3, 6, 7)], "MAC capabilities")
    cut = cut % len(data)
    try:
        z, _ = T_.deserialize(data[:cut])
    except ValueError:
        pass
    else:
        # a size-prefixed descriptor of size zero means "none"
        check(n == "SizePrefixedSimpleDescriptor" and cut == 0 and z is None,
              "%s decoded from %d of its %d bytes", n, cut, len(data))
    return {"labels": [n], "nontrivial": True}


def run_table(_):
    known()
    return True


CHECK = Check(
    id="C04",
    rule="Every ZDO command of a hand-written specification table with generated arguments, sent through a "
         "device, as a reply or as a broadcast with arguments in any order and by name; the radio's packet is "
         "compared byte for byte with the table's encoding and decoded on a second application. "
         "Non-trivial: a packet or record was compared.",
    assumptions=["optional trailing arguments are those the library declares optional",
                 "user descriptors have 16 bytes"],
    suites=[
        Suite("commands", run_cmd, strategy=cmd_case, quick=6000, thorough=300_000),
        Suite("broadcast", run_bcast, strategy=bcast_case, quick=3000, thorough=100_000),
        Suite("helpers", run_helper, strategy=helper_case, quick=1500, thorough=50_000, shards=4),
        Suite("records", run_rec, strategy=rec_case, quick=6000, thorough=300_000),
        Suite("table", run_table, cases=lambda tier: [[]], shards=1),
    ],
)
