"""C03: ZCL commands on the wire and cluster definition lookups."""
from __future__ import annotations

import asyncio
import enum
import functools
import inspect

from vlib.core import Check, Discard, Suite, Violation, b2h, check, check_eq, h2b, short, one_of
from vlib import fakes, vloop, wire
from checks import c01

import zigpy.exceptions
import zigpy.types as t
import zigpy.zcl as zcl
import zigpy.zcl.foundation as f
from zigpy.zcl.clusters import security

from hypothesis import strategies as st

GENERIC = {}
for _cid, _c in zcl.Cluster._registry.items():
    GENERIC[int(_cid)] = _c
for (_lo, _hi), _c in zcl.Cluster._registry_range.items():
    GENERIC[int(_lo) + 7] = _c

COMMANDS = []
for _cid in sorted(GENERIC):
    for _side, _defs in (("server", GENERIC[_cid].server_commands),
                         ("client", GENERIC[_cid].client_commands)):
        for _i in sorted(_defs):
            COMMANDS.append((_cid, _side, int(_i)))

MANUF = st.one_of(st.none(), st.none(), c01.boundary_int(16, False))


# ------------------------------------------------------------ general commands by hand
ATTRID = c01.boundary_int(16, False)


def zvals(e):
    """Values of a type; the bit pattern of a NaN is not preserved by Python floats."""
    return c01.values(e).filter(lambda v: not c01.has_nan(e, v))


TV = st.sampled_from(sorted(c01.ZCL)[1:]).flatmap(
    lambda i: st.tuples(st.just(i), zvals(c01.ZCL[i])).map(list))
STATUSES = sorted({int(s) for s in f.Status})


def _u8(x):
    return bytes([x])


def _u16(x):
    return x.to_bytes(2, "little")


def tv_enc(v):
    return bytes([v[0]]) + c01.ref(c01.ZCL[v[0]], v[1])


def tv_mk(v):
    return f.TypeValue(t.uint8_t(v[0]), c01.mk(c01.ZCL[v[0]], v[1]))


def rar_strategy():  # read attribute response record
    ok = st.tuples(ATTRID, st.just(0), st.one_of(
        TV, st.sampled_from(["array", "set", "bag"]).flatmap(
            lambda k: zvals([k]).map(lambda v: [k, v])))).map(list)
    bad = st.tuples(ATTRID, st.sampled_from([s for s in STATUSES if s]), st.none()).map(list)
    return st.one_of(ok, bad)


def rar_mk(r):
    a, s, v = r
    if v is None:
        val = None
    elif isinstance(v[0], str):
        val = c01.mk([v[0]], v[1])
    else:
        val = tv_mk(v)
    return f.ReadAttributeRecord(t.uint16_t(a), f.Status(s), val)


KIND = {"array": 0x48, "set": 0x50, "bag": 0x51}


def rar_enc(r):
    a, s, v = r
    out = _u16(a) + _u8(s)
    if v is not None:
        out += (_u8(KIND[v[0]]) + c01.ref([v[0]], v[1])) if isinstance(v[0], str) else tv_enc(v)
    return out


def arc_strategy():
    send = st.sampled_from(sorted(c01.ZCL)[1:] + [0x48, 0x4C]).flatmap(
        lambda i: st.tuples(st.just(0), ATTRID, st.just(i), ATTRID, ATTRID,
                            zvals(c01.ZCL[i]) if i in c01.ANALOG else st.none()).map(list))
    recv = st.tuples(st.just(1), ATTRID, ATTRID).map(list)
    return one_of(send, send, recv)


def arc_mk(r, bare=False):
    c = f.AttributeReportingConfig()
    c.direction = f.ReportingDirection(r[0])
    c.attrid = t.uint16_t(r[1])
    if bare:
        return c
    if r[0] == 1:
        c.timeout = t.uint16_t(r[2])
    else:
        c.datatype = t.uint8_t(r[2])
        c.min_interval = t.uint16_t(r[3])
        c.max_interval = t.uint16_t(r[4])
        if r[5] is not None:
            c.reportable_change = c01.mk(c01.ZCL[r[2]], r[5])
    return c


def arc_enc(r, bare=False):
    out = _u8(r[0]) + _u16(r[1])
    if bare:
        return out
    if r[0] == 1:
        return out + _u16(r[2])
    out += _u8(r[2]) + _u16(r[3]) + _u16(r[4])
    if r[5] is not None:
        out += c01.ref(c01.ZCL[r[2]], r[5])
    return out


def arcs_strategy():
    return st.tuples(st.one_of(st.just(0), st.sampled_from(STATUSES)), arc_strategy()).map(list)


def arcs_mk(r):
    return f.AttributeReportingConfigWithStatus(
        status=f.Status(r[0]), config=arc_mk(r[1], bare=r[0] != 0))


def lst(s, mn=0):
    return st.lists(s, min_size=mn, max_size=5)


def attr_mk(a):
    return f.Attribute(t.uint16_t(a[0]), tv_mk(a[1]))


def attr_enc(a):
    return _u16(a[0]) + tv_enc(a[1])


ATTR = st.tuples(ATTRID, TV).map(list)
FAIL = st.sampled_from([s for s in STATUSES if s])


def was_mk(r):
    return f.WriteAttributesStatusRecord(status=f.Status(r[0]), **(
        {"attrid": t.uint16_t(r[1])} if r[0] else {}))


def crr_mk(r):
    return f.ConfigureReportingResponseRecord(
        status=f.Status(r[0]), direction=f.ReportingDirection(r[1]), attrid=t.uint16_t(r[2]))


def _join(fn):
    return lambda v: b"".join(fn(x) for x in v)


U8 = c01.boundary_int(8, False)
# name -> [(field, strategy, mk, enc, expected-after-decoding or None)]
G = {
    "Read_Attributes": [("attribute_ids", lst(ATTRID), lambda v: [t.uint16_t(x) for x in v], _join(_u16), None)],
    "Read_Attributes_rsp": [("status_records", lst(rar_strategy()), lambda v: [rar_mk(x) for x in v], _join(rar_enc), None)],
    "Write_Attributes_rsp": [("status_records", lst(st.one_of(
        st.tuples(FAIL, ATTRID), st.tuples(st.just(0), st.just(0))).map(list), 1),
        lambda v: f.WriteAttributesResponse([was_mk(x) for x in v]),
        lambda v: _join(lambda r: _u8(r[0]) + _u16(r[1]))([r for r in v if r[0]]) or b"\x00",
        lambda v: [was_mk(r) for r in v if r[0]] or [was_mk([0, 0])])],
    "Configure_Reporting": [("config_records", lst(arc_strategy()), lambda v: [arc_mk(x) for x in v], _join(arc_enc), None)],
    "Configure_Reporting_rsp": [("status_records", lst(st.tuples(
        st.one_of(st.just(0), FAIL), st.integers(0, 1), ATTRID).map(list), 1),
        lambda v: f.ConfigureReportingResponse([crr_mk(x) for x in v]),
        lambda v: _join(lambda r: _u8(r[0]) + _u8(r[1]) + _u16(r[2]))([r for r in v if r[0]]) or b"\x00",
        lambda v: [crr_mk(r) for r in v if r[0]] or [f.ConfigureReportingResponseRecord(status=f.Status.SUCCESS)])],
    "Read_Reporting_Configuration": [("attribute_records", lst(st.tuples(st.integers(0, 1), ATTRID).map(list)),
        lambda v: [f.ReadReportingConfigRecord(direction=t.uint8_t(a), attrid=t.uint16_t(b)) for a, b in v],
        _join(lambda r: _u8(r[0]) + _u16(r[1])), None)],
    "Read_Reporting_Configuration_rsp": [("attribute_configs", lst(arcs_strategy()), lambda v: [arcs_mk(x) for x in v],
        _join(lambda r: _u8(r[0]) + arc_enc(r[1], bare=r[0] != 0)), None)],
    "Report_Attributes": [("attribute_reports", lst(ATTR), lambda v: [attr_mk(x) for x in v], _join(attr_enc), None)],
    "Default_Response": [("command_id", U8, t.uint8_t, _u8, None),
                         ("status", st.sampled_from(STATUSES), f.Status, _u8, None)],
    "Discover_Attributes": [("start_attribute_id", ATTRID, t.uint16_t, _u16, None),
                            ("max_attribute_ids", U8, t.uint8_t, _u8, None)],
    "Discover_Attributes_rsp": [("discovery_complete", st.integers(0, 1), t.Bool, _u8, None),
        ("attribute_info", lst(st.tuples(ATTRID, U8).map(list)),
         lambda v: [f.DiscoverAttributesResponseRecord(attrid=a, datatype=b) for a, b in v],
         _join(lambda r: _u16(r[0]) + _u8(r[1])), None)],
    "Discover_Attribute_Extended_rsp": [("discovery_complete", st.integers(0, 1), t.Bool, _u8, None),
        ("extended_attr_info", lst(st.tuples(ATTRID, U8, st.integers(0, 7)).map(list)),
         lambda v: [f.DiscoverAttributesExtendedResponseRecord(attrid=a, datatype=b, acl=c) for a, b, c in v],
         _join(lambda r: _u16(r[0]) + _u8(r[1]) + _u8(r[2])), None)],
}
for _n in ("Write_Attributes", "Write_Attributes_Undivided", "Write_Attributes_No_Response"):
    G[_n] = [("attributes", lst(ATTR), lambda v: [attr_mk(x) for x in v], _join(attr_enc), None)]
G["Discover_Attribute_Extended"] = G["Discover_Attributes"]
for _n in ("Discover_Commands_Received", "Discover_Commands_Generated"):
    G[_n] = [("start_command_id", U8, t.uint8_t, _u8, None), ("max_command_ids", U8, t.uint8_t, _u8, None)]
    G[_n + "_rsp"] = [("discovery_complete", st.integers(0, 1), t.Bool, _u8, None),
                      ("command_ids", lst(U8), lambda v: [t.uint8_t(x) for x in v], bytes, None)]
# ids per the ZCL specification, table 2-3, and which way the command goes
GID = {"Read_Attributes": (0, 0), "Read_Attributes_rsp": (1, 1), "Write_Attributes": (2, 0),
       "Write_Attributes_Undivided": (3, 0), "Write_Attributes_rsp": (4, 1),
       "Write_Attributes_No_Response": (5, 0), "Configure_Reporting": (6, 0),
       "Configure_Reporting_rsp": (7, 1), "Read_Reporting_Configuration": (8, 0),
       "Read_Reporting_Configuration_rsp": (9, 1), "Report_Attributes": (10, 0),
       "Default_Response": (11, 1), "Discover_Attributes": (12, 0), "Discover_Attributes_rsp": (13, 1),
       "Discover_Commands_Received": (17, 0), "Discover_Commands_Received_rsp": (18, 1),
       "Discover_Commands_Generated": (19, 0), "Discover_Commands_Generated_rsp": (20, 1),
       "Discover_Attribute_Extended": (21, 0), "Discover_Attribute_Extended_rsp": (22, 1)}


# ------------------------------------------------------------------------- harness
def make(cid, side, ep_id, profile):
    """Sending app/device with the cluster, and a receiving app/device with the same one."""
    pair = []
    for _ in range(2):
        app = fakes.make_app()
        ins, outs = ([cid], []) if side == "server" else ([], [cid])
        dev = fakes.add_device(app, 1, 0x1234, eps={ep_id: (profile, 0, ins, outs)})
        ep = dev.endpoints[ep_id]
        pair.append((app, dev, (ep.in_clusters if side == "server" else ep.out_clusters)[cid]))
    return pair


def parse_frame(data):
    """Independent ZCL frame parser."""
    fc = data[0]
    d = {"type": fc & 3, "ms": fc >> 2 & 1, "dir": fc >> 3 & 1, "ddr": fc >> 4 & 1, "res": fc >> 5}
    data = data[1:]
    d["manuf"] = None
    if d["ms"]:
        d["manuf"] = int.from_bytes(data[:2], "little")
        data = data[2:]
    d["tsn"], d["cmd"] = data[0], data[1]
    d["payload"] = data[2:]
    return d


def run_sync(coro_fn):
    async def main(loop):
        return await coro_fn()
    return vloop.run(main)


OPTIONS = {"timeout", "command_id", "tsn", "manufacturer", "priority", "expect_reply", "use_ieee",
           "ask_for_ack", "general", "schema"}


def call_styles(names, values, style):
    """args/kwargs splits: how many leading arguments go positionally."""
    k = {0: 0, 1: len(names)}.get(style, style % (len(names) + 1))
    # a few arguments share their name with an option of the call itself (DoorLock's `timeout`,
    # the default response's `command_id`): they can only be given positionally
    for i, n in enumerate(names):
        if n in OPTIONS:
            k = max(k, i + 1)
    args = values[:k]
    kw = dict(zip(names[k:], values[k:]))
    if style % 3 == 2:
        kw = dict(reversed(list(kw.items())))
    return args, kw


def exchange(case, cluster_call, cid, side, ep_id, profile, manuf, seq, payload, cmd_id, general,
             expected_args, schema, direction_def, tsn_arg):
    async def main(loop):
        (app, dev, cl), (rapp, rdev, rcl) = make(cid, side, ep_id, profile)
        dev._send_sequence = seq
        await cluster_call(cl)
        check(len(app.sent) == 1, "%d packets were sent for one command", len(app.sent))
        p = app.sent[0]
        raw = p.data.serialize()
        d = parse_frame(raw)
        tsn = (seq + 1) % 256 if tsn_arg is None else tsn_arg
        check_eq(d["type"], 0 if general else 1, "frame type")
        check_eq(d["manuf"], manuf, "manufacturer code")
        check_eq(d["dir"], 1 if side == "client" else 0, "direction bit")
        check_eq(d["res"], 0, "reserved bits")
        check_eq(d["tsn"], tsn, "transaction number")
        check_eq(p.tsn, tsn, "transaction number of the packet")
        check_eq(d["cmd"], cmd_id, "command id")
        check(d["payload"] == payload, "payload %s, reference %s", b2h(d["payload"]), b2h(payload))
        check_eq((int(p.cluster_id), int(p.src_ep), int(p.dst_ep)), (cid, ep_id, ep_id), "addressing")

        # decoding on the receiving side: directly, and through the packet path
        got = rdev.endpoints[ep_id].deserialize(cid, raw)
        verify_decoded(*got, raw, tsn, cmd_id, manuf, general, expected_args, schema, direction_def)
        seen = []

        class L:
            def cluster_command(self, tsn, command_id, args):
                seen.append(("c", tsn, command_id, args))

            def general_command(self, hdr, args):
                seen.append(("g", hdr.tsn, hdr.command_id, args))
        rcl.add_listener(L())
        rapp.packet_received(fakes.packet(
            rdev.nwk, cid, raw, src_ep=ep_id, dst_ep=ep_id, profile=profile))
        check(len(seen) == 1, "the receiving cluster was told %d times", len(seen))
        k, stsn, scmd, sargs = seen[0]
        check_eq((k, int(stsn), int(scmd)), ("g" if general else "c", tsn, cmd_id), "event")
        check_eq(fakes.canon(sargs), fakes.canon(got[1]), "event arguments")
        await vloop.settle(3)
    vloop.run(main)


def verify_decoded(hdr, args, raw, tsn, cmd_id, manuf, general, expected, schema, direction_def):
    check_eq(int(hdr.tsn), tsn, "decoded transaction number")
    check_eq(int(hdr.command_id), cmd_id, "decoded command")
    check_eq(None if hdr.manufacturer is None else int(hdr.manufacturer), manuf, "decoded manufacturer")
    check_eq(bool(hdr.frame_control.is_manufacturer_specific), manuf is not None, "decoded flag")
    check_eq(bool(hdr.frame_control.is_general), general, "decoded frame type")
    check_eq(bool(hdr.frame_control.is_cluster), not general, "decoded frame type")
    check_eq(int(hdr.direction), direction_def, "decoded direction")
    check(isinstance(args, schema), "decoded as %s instead of %s", type(args).__name__, schema.__name__)
    for name, want in expected.items():
        have = getattr(args, name)
        check(fakes.canon(have) == fakes.canon(want), "argument %s decoded as %s, expected %s",
              name, short(have), short(want))
    for fl in schema.fields:
        if fl.name not in expected:
            check(getattr(args, fl.name) is None, "absent argument %s decoded as %r", fl.name,
                  getattr(args, fl.name))
    # tuple behaviour of the arguments
    check_eq(len(args), len(schema.fields), "length of the argument tuple")
    check(list(args) == [getattr(args, fl.name) for fl in schema.fields], "iteration over arguments")
    hdr2, rest = f.ZCLHeader.deserialize(raw)
    check(hdr2.serialize() == raw[: len(raw) - len(rest)], "header re-encodes differently")


# ------------------------------------------------------------------- cluster commands
@st.composite
def cluster_case(draw):
    cid, side, i = draw(st.sampled_from(COMMANDS))
    schema = getattr(GENERIC[cid], f"{side}_commands")[i].schema
    return {"cid": cid, "side": side, "cmd": i, "args": draw(wire.struct_vals(schema)),
            "manuf": draw(MANUF), "seq": draw(st.one_of(U8, st.just(255))),
            "style": draw(st.integers(0, 12)), "byname": draw(st.booleans()),
            "ep": draw(st.sampled_from([1, 2, 240])),
            "profile": draw(st.sampled_from([260, 49246])),
            "tsn": draw(st.one_of(st.none(), st.none(), U8))}


def _shadowed(cls, name):
    return hasattr(zcl.Cluster, name) or name in vars(cls)


def run_cluster(case):
    cid, side, i = case["cid"], case["side"], case["cmd"]
    cls = GENERIC.get(cid)
    if cls is None or i not in getattr(cls, f"{side}_commands"):
        raise Discard
    cmd = getattr(cls, f"{side}_commands")[i]
    schema = cmd.schema
    try:
        values = {n: wire.mk(getattr(schema.fields, n).type, v) for n, v in case["args"].items()}
    except AttributeError:
        raise Discard from None
    payload = wire.enc_fields(schema, case["args"])
    # positional only while there are no gaps
    names = [fl.name for fl in schema.fields]
    gapless = list(case["args"]) == names[: len(case["args"])]
    if not gapless and OPTIONS & set(values):
        raise Discard
    args, kw = call_styles(list(values), list(values.values()), case["style"] if gapless else 0)
    byname = case["byname"] and not _shadowed(cls, cmd.name)

    async def call(cl):
        extra = {"expect_reply": False} if side == "server" else {}
        if case["tsn"] is not None:
            extra["tsn"] = case["tsn"]
        if byname:
            fn = getattr(cl, cmd.name)
        elif side == "server":
            fn = functools.partial(cl.command, cmd.id)
        else:
            fn = functools.partial(cl.client_command, cmd.id)
        await fn(*args, manufacturer=case["manuf"], **extra, **kw)

    exchange(case, call, cid, side, case["ep"], case["profile"], case["manuf"], case["seq"], payload,
             i, False, values, schema, int(cmd.direction), case["tsn"])
    return {"labels": [side, "byname" if byname else "byid",
                       "args" if values else "noargs"]}


# --------------------------------------------------------------------- group commands
@st.composite
def group_case(draw):
    """a few commands to groups, through clusters found by number or by name"""
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        cid, side, i = draw(st.sampled_from([c for c in COMMANDS if c[1] == "server"]))
        schema = getattr(GENERIC[cid], f"{side}_commands")[i].schema
        ops.append({"cid": cid, "cmd": i, "args": draw(wire.struct_vals(schema)), "manuf": draw(MANUF),
                    "style": draw(st.integers(0, 12)), "byname": draw(st.booleans()), "attr": draw(st.booleans()),
                    "gid": draw(st.sampled_from([0, 1, 0x1234, 0xFFF7])),
                    "tsn": draw(st.one_of(st.none(), st.none(), U8)),
                    "fail": draw(st.sampled_from([False, False, False, True]))})
    return {"ops": ops, "seq": draw(st.one_of(U8, st.just(255)))}


def run_group(case):
    labels = set()
    by_attr = {}
    for c in GENERIC.values():
        by_attr.setdefault(c.ep_attribute, []).append(c)

    async def main(loop):
        app = fakes.make_app()
        seqs = {}
        found = {}
        for op in case["ops"]:
            cls = GENERIC.get(op["cid"])
            if cls is None or op["cmd"] not in cls.server_commands:
                raise Discard
            cmd = cls.server_commands[op["cmd"]]
            try:
                values = {n: wire.mk(getattr(cmd.schema.fields, n).type, v) for n, v in op["args"].items()}
            except AttributeError:
                raise Discard from None
            gapless = list(op["args"]) == [fl.name for fl in cmd.schema.fields][: len(op["args"])]
            if not gapless and OPTIONS & set(values):
                raise Discard
            args, kw = call_styles(list(values), list(values.values()), op["style"] if gapless else 0)
            gid = op["gid"]
            group = app.groups.get(gid)
            if group is None:
                group = app.groups.add_group(gid)
                seqs[gid] = group._send_sequence = case["seq"]
            attr = op["attr"] and isinstance(cls.ep_attribute, str) and len(by_attr[cls.ep_attribute]) == 1 \
                and not hasattr(type(group.endpoint), cls.ep_attribute) and not cls.ep_attribute.startswith("_")
            cl = getattr(group.endpoint, cls.ep_attribute) if attr else group.endpoint[op["cid"]]
            check(isinstance(cl, cls), "cluster 0x%04x of a group by %s is %s", op["cid"], "name" if attr else "number",
                  type(cl).__name__)
            check(found.setdefault((gid, op["cid"], attr), cl) is cl, "a group has a cluster twice")
            extra = {} if op["tsn"] is None else {"tsn": op["tsn"]}
            fn = getattr(cl, cmd.name) if op["byname"] and not _shadowed(cls, cmd.name) else \
                functools.partial(cl.command, cmd.id)
            app.sent.clear()
            if op["fail"]:
                app.hooks["send_packet"] = _refuse
            try:
                r = await fn(*args, manufacturer=op["manuf"], **extra, **kw)
            except zigpy.exceptions.DeliveryError:
                check(op["fail"], "the command was sent, but reported as undelivered")
                labels.add("undelivered")
            else:
                check(not op["fail"], "the command could not be sent, but %r was returned", r)
                check_eq([int(r.command_id), int(r.status)], [op["cmd"], 0], "what the group command returned")
            app.hooks.pop("send_packet", None)
            if op["tsn"] is None:
                seqs[gid] = (seqs[gid] + 1) % 256
            tsn = seqs[gid] if op["tsn"] is None else op["tsn"]
            if not op["fail"]:
                check_eq(len(app.sent), 1, "packets sent for one command to a group")
                p = app.sent[0]
                check_eq([p.dst.addr_mode.name, int(p.dst.address), int(p.profile_id), int(p.cluster_id), int(p.tsn),
                          p.dst_ep, int(p.src_ep), int(p.radius), int(p.non_member_radius)],
                         ["Group", gid, 260, op["cid"], tsn, None, 1, 0, 3], "packet to the group")
                d = parse_frame(p.data.serialize())
                check_eq(d, {"type": 1, "ms": int(op["manuf"] is not None), "dir": 0, "ddr": d["ddr"], "res": 0,
                             "manuf": op["manuf"], "tsn": tsn, "cmd": op["cmd"],
                             "payload": wire.enc_fields(cmd.schema, op["args"])}, "frame to the group")
                labels.add("attr" if attr else "number")
        for gid, group in app.groups.items():
            for cid in (0x1234, 0xFE12):
                if cid not in zcl.Cluster._registry:
                    try:
                        group.endpoint[cid]
                    except KeyError:
                        pass
                    else:
                        check(False, "a group has the unknown cluster 0x%04x", cid)
            check(not hasattr(group.endpoint, "no_such_cluster"), "a group has a cluster of an unknown name")
    vloop.run(main)
    return {"labels": sorted(labels), "nontrivial": bool(labels)}


async def _refuse(packet):
    raise zigpy.exceptions.DeliveryError("refused")


# ------------------------------------------------------------------- general commands
@st.composite
def general_case(draw):
    name = draw(st.sampled_from(sorted(G)))
    return {"name": name, "side": draw(st.sampled_from(["server", "client"])),
            "cid": draw(st.sampled_from([0, 6, 0x300, 0x0402, 0xFC00, 0x1234])),
            "args": [draw(s) for _, s, *_ in G[name]], "manuf": draw(MANUF),
            "seq": draw(st.one_of(U8, st.just(255))), "style": draw(st.integers(0, 6)),
            "ep": draw(st.sampled_from([1, 240])), "tsn": draw(st.one_of(st.none(), U8))}


def run_general(case):
    g = G[case["name"]]
    cid_, dir_ = GID[case["name"]]
    schema = f.GENERAL_COMMANDS[cid_].schema
    check_eq(f.GENERAL_COMMANDS[cid_].name, case["name"], f"name of general command {cid_}")
    check_eq([fl.name for fl in schema.fields], [x[0] for x in g], "fields of " + case["name"])
    values = {n: mkf(v) for (n, _, mkf, _, _), v in zip(g, case["args"])}
    expected = {n: (post or mkf)(v) for (n, _, mkf, _, post), v in zip(g, case["args"])}
    payload = b"".join(encf(v) for (_, _, _, encf, _), v in zip(g, case["args"]))
    args, kw = call_styles(list(values), list(values.values()), case["style"])

    async def call(cl):
        extra = {} if dir_ else {"expect_reply": False}
        if case["tsn"] is not None:
            extra["tsn"] = case["tsn"]
        await cl.general_command(f.GeneralCommand(cid_), *args, manufacturer=case["manuf"], **extra, **kw)

    exchange(case, call, case["cid"], case["side"], case["ep"], 260, case["manuf"], case["seq"],
             payload, cid_, True, expected, schema, dir_, case["tsn"])
    return {"labels": [case["name"], "empty" if not payload else "data"]}


# ------------------------------------------------------------------------- rejection
@st.composite
def reject_case(draw):
    cid, side, i = draw(st.sampled_from(COMMANDS))
    schema = getattr(GENERIC[cid], f"{side}_commands")[i].schema
    return {"cid": cid, "side": side, "cmd": i, "args": draw(wire.struct_vals(schema)),
            "how": draw(st.sampled_from(["missing", "missing", "unknown", "toomany", "twice", "range"])),
            "which": draw(st.integers(0, 20)), "seq": draw(U8)}


def run_reject(case):
    cid, side, i = case["cid"], case["side"], case["cmd"]
    cls = GENERIC.get(cid)
    if cls is None or i not in getattr(cls, f"{side}_commands"):
        raise Discard
    cmd = getattr(cls, f"{side}_commands")[i]
    schema = cmd.schema
    try:
        kw = {n: wire.mk(getattr(schema.fields, n).type, v) for n, v in case["args"].items()}
    except AttributeError:
        raise Discard from None
    args = []
    how = case["how"]
    if how == "missing":
        req = [fl.name for fl in schema.fields if fl.name in kw and not fl.optional]
        # fields other fields depend on decide what is required, so leave those
        if any(fl.requires for fl in schema.fields):
            req = [n for n in req if n not in ("payload_type", "field_control", "status")]
        if not req:
            raise Discard
        del kw[req[case["which"] % len(req)]]
    elif how == "unknown":
        kw["no_such_argument"] = 1
    elif how == "toomany":
        args = [0] * (len(schema.fields) + 1)
        kw = {}
    elif how == "twice":
        if not kw:
            raise Discard
        n0 = schema.fields[0].name
        args = [kw[n0]]
    else:
        ints = [fl for fl in schema.fields if fl.name in kw and wire.spec(fl.type)[0] in ("int", "sub")]
        if not ints:
            raise Discard
        fl = ints[case["which"] % len(ints)]
        e = wire.spec(fl.type)
        bits, signed = (e[1], False) if e[0] == "sub" else c01.INTS[e[1]][:2]
        hi = 1 << (bits - 1 if signed else bits)
        # (a negative flag is the complement of its bits, as for any enum.Flag)
        flag = issubclass(fl.type, enum.Flag)
        kw[fl.name] = hi if case["which"] & 1 or flag else (-hi - 1 if signed else -1)

    if how != "toomany" and OPTIONS & set(kw):
        raise Discard

    async def main(loop):
        (app, dev, cl), _ = make(cid, side, 1, 260)
        dev._send_sequence = case["seq"]
        fn = cl.command if side == "server" else cl.client_command
        extra = {"expect_reply": False} if side == "server" else {}
        try:
            await fn(cmd.id, *args, **extra, **kw)
        except (ValueError, TypeError):
            pass
        else:
            raise Violation(f"{how}: accepted as {app.sent[0].data.serialize().hex()}")
        check(not app.sent, "a packet was sent for a rejected command")
        check_eq(dev._send_sequence, case["seq"], "transaction number after a rejected command")
    vloop.run(main)
    return {"labels": [how]}


# ------------------------------------------------------------------------- definitions
def all_clusters():
    seen = []

    def rec(c):
        for s in c.__subclasses__():
            if s.__module__.startswith("zigpy") and s not in seen:
                seen.append(s)
                rec(s)
    rec(zcl.Cluster)
    return seen


CLUSTERS = {f"{c.__module__}.{c.__qualname__}:{c.cluster_id or c.cluster_id_range}": c
            for c in all_clusters()}


def verify_definitions(cls, attrs, scmds, ccmds):
    """attrs/...: name -> definition as declared."""
    def lookups(decl, by_id, what):
        check_eq(len({int(d.id) for d in decl.values()}), len(decl), f"distinct {what} ids")
        check_eq(sorted(int(i) for i in by_id), sorted(int(d.id) for d in decl.values()), f"{what} ids")
        for n, d in decl.items():
            check_eq(d.name, n, f"name of {what} {n}")
            check(by_id[d.id] == d and by_id[d.id].name == n, "%s 0x%x looked up as %r", what, d.id, by_id[d.id])
    lookups(attrs, cls.attributes, "attribute")
    lookups(scmds, cls.server_commands, "server command")
    lookups(ccmds, cls.client_commands, "client command")
    check_eq(sorted(cls.attributes_by_name), sorted(attrs), "attribute names")
    check_eq(sorted(cls.commands_by_name), sorted({**ccmds, **scmds}), "command names")

    app = fakes.make_app()
    dev = fakes.add_device(app, 1, 1)
    inst = cls(dev.endpoints[1], True)
    for n, d in attrs.items():
        a, b = inst.find_attribute(n), inst.find_attribute(int(d.id))
        check(a == b == d == cls.attributes_by_name[n], "attribute %s: by name %r, by id %r", n, a, b)
        # the data type sent for the attribute has the attribute type's shape
        zt = f.DataType.from_type_id(d.zcl_type).python_type if d.zcl_type in [
            int(x) for x in f.DataTypeId] and int(d.zcl_type) not in (0xFF,) else None
        if zt is not None and isinstance(zt, type) and issubclass(zt, int) and issubclass(d.type, int):
            check(issubclass(d.type, zt) or zt._bits == d.type._bits,
                  "attribute %s of type %s is declared as %s", n, d.type.__name__, zt.__name__)
    for n, d in {**scmds, **ccmds}.items():
        check(d.schema.command.id == d.id and d.schema.command.name == n, "schema of %s belongs to %r", n, d.schema.command)
        if _shadowed(cls, n) or (n in scmds and n in ccmds):
            continue
        p = getattr(inst, n)
        check(p.args == (d.id,), "command %s by name has id %r", n, p.args)
        check(p.func.__name__ == ("command" if n in scmds else "client_command"), "command %s goes through %s", n, p.func)
    for bad in ("no_such_attribute", 0xABCDE):
        try:
            inst.find_attribute(bad)
        except KeyError:
            continue
        raise Violation(f"unknown attribute {bad!r} was found")


def declared(defs, kind):
    out = {}
    for n in dir(defs):
        d = getattr(defs, n)
        if isinstance(d, kind):
            out[n] = d
    return out


def run_def(case):
    cls = CLUSTERS.get(case[0])
    if cls is None:
        raise Discard
    verify_definitions(cls, declared(cls.AttributeDefs, f.ZCLAttributeDef),
                       declared(cls.ServerCommandDefs, f.ZCLCommandDef),
                       declared(cls.ClientCommandDefs, f.ZCLCommandDef))
    app = fakes.make_app()
    ep = fakes.add_device(app, 1, 1).endpoints[1]
    if cls.cluster_id is not None and not cls._skip_registry:
        for s in (True, False):
            c = zcl.Cluster.from_id(ep, int(cls.cluster_id), is_server=s)
            check_eq(c.cluster_id, cls.cluster_id, "cluster id")
            check(c.is_server == s and c.is_client != s, "role of %r", c)
            check(type(c).cluster_id == cls.cluster_id, "class for 0x%x", cls.cluster_id)
    return True


@st.composite
def range_case(draw):
    return draw(c01.boundary_int(16, False)), draw(st.booleans())


def run_range(case):
    cid, server = case
    app = fakes.make_app()
    ep = fakes.add_device(app, 1, 1).endpoints[1]
    c = zcl.Cluster.from_id(ep, cid, is_server=server)
    check_eq(int(c.cluster_id), cid, "cluster id of a created cluster")
    check_eq(c.is_server, server, "role")
    other = zcl.Cluster.from_id(ep, (cid + 1) & 0xFFFF, is_server=server)
    check_eq((int(c.cluster_id), int(other.cluster_id)), (cid, (cid + 1) & 0xFFFF), "cluster ids")
    reg = cid in zcl.Cluster._registry
    if not reg:
        check((0xFC00 <= cid <= 0xFFFF) == (type(c) is not zcl.Cluster), "class %s for 0x%04x", type(c), cid)
    (ep.add_input_cluster if server else ep.add_output_cluster)(cid)
    check(cid in (ep.in_clusters if server else ep.out_clusters), "not added")
    return True


TYPES = ["uint8_t", "uint16_t", "int8s", "Bool", "CharacterString", "LVBytes", "EUI64", "enum8",
         "bitmap16", "uint48_t", "Single"]
NAME = st.sampled_from(["alpha", "beta", "gamma", "delta", "eps_1", "Zeta", "eta_two"])


@st.composite
def gen_case(draw):
    attrs = draw(st.dictionaries(NAME, st.tuples(
        c01.boundary_int(16, False), st.sampled_from(TYPES), st.booleans()).map(list), max_size=5))
    cmds = [draw(st.dictionaries(NAME.map(lambda n, p=p: p + n), st.tuples(
        U8, st.lists(st.sampled_from(TYPES), max_size=3), st.booleans()).map(list), max_size=4))
        for p in ("s_", "c_")]
    return {"attrs": attrs, "server": cmds[0], "client": cmds[1],
            "style": draw(st.sampled_from(["new", "old", "oldtuple", "inherit"]))}


def run_gen(case):
    attrs, cmds = case["attrs"], [case["server"], case["client"]]
    if len({v[0] for v in attrs.values()}) != len(attrs) or any(
            len({v[0] for v in c.values()}) != len(c) for c in cmds):
        raise Discard
    style = case["style"]
    T = lambda n: getattr(t, n)
    ns = {"_skip_registry": True, "cluster_id": 0xFD00, "ep_attribute": "gen"}
    dirs = [f.Direction.Client_to_Server, f.Direction.Server_to_Client]
    if style in ("new", "inherit"):
        ns["AttributeDefs"] = type("AttributeDefs", (f.BaseAttributeDefs,), {
            n: f.ZCLAttributeDef(id=i, type=T(ty), is_manufacturer_specific=m)
            for n, (i, ty, m) in attrs.items()})
        for k, c, dr in (("ServerCommandDefs", cmds[0], dirs[0]), ("ClientCommandDefs", cmds[1], dirs[1])):
            ns[k] = type(k, (f.BaseCommandDefs,), {
                n: f.ZCLCommandDef(id=i, schema={f"p{j}": T(ty) for j, ty in enumerate(tys)}, direction=dr)
                for n, (i, tys, r) in c.items()})
    elif style == "old":
        ns["attributes"] = {i: f.ZCLAttributeDef(n, type=T(ty), is_manufacturer_specific=m)
                            for n, (i, ty, m) in attrs.items()}
        for k, c, dr in (("server_commands", cmds[0], dirs[0]), ("client_commands", cmds[1], dirs[1])):
            ns[k] = {i: f.ZCLCommandDef(n, schema={f"p{j}": T(ty) for j, ty in enumerate(tys)}, direction=dr)
                     for n, (i, tys, r) in c.items()}
    else:
        ns["attributes"] = {i: (n, T(ty), m) if m else (n, T(ty)) for n, (i, ty, m) in attrs.items()}
        for k, c in (("server_commands", cmds[0]), ("client_commands", cmds[1])):
            ns[k] = {i: (n, tuple(T(ty) for ty in tys), r) for n, (i, tys, r) in c.items()}
    cls = type("GenCluster", (zcl.Cluster,), ns)
    if style == "inherit":
        cls = type("GenSub", (cls,), {"_skip_registry": True, "cluster_id": 0xFD01})
    A = declared(cls.AttributeDefs, f.ZCLAttributeDef)
    S = declared(cls.ServerCommandDefs, f.ZCLCommandDef)
    C = declared(cls.ClientCommandDefs, f.ZCLCommandDef)
    check_eq({n: (int(d.id), d.type, bool(d.is_manufacturer_specific)) for n, d in A.items()},
             {n: (i, T(ty), m) for n, (i, ty, m) in attrs.items()}, "attributes of the cluster")
    for D, c in ((S, cmds[0]), (C, cmds[1])):
        check_eq({n: (int(d.id), [fl.type for fl in d.schema.fields]) for n, d in D.items()},
                 {n: (i, [T(ty) for ty in tys]) for n, (i, tys, r) in c.items()}, "commands of the cluster")
    verify_definitions(cls, A, S, C)
    check(0xFD00 not in zcl.Cluster._registry and 0xFD01 not in zcl.Cluster._registry,
          "an unregistered class was registered")
    return {"labels": [style], "nontrivial": bool(attrs or any(cmds))}


# ------------------------------------------------------------------- warning bit fields
def warning_cases(tier):
    for v in range(256):
        yield v


def run_warning(v):
    """IAS warnings and squawks: mode bits 4-7, strobe, level bits 0-1."""
    for cls, sbit in ((security.WarningType, 2), (security.Squawk, 3)):
        x, rest = cls.deserialize(bytes([v, 9]))
        check(rest == b"\x09" and x.serialize() == bytes([v]), "%r", x)
        check_eq((int(x.mode), int(x.strobe), int(x.level)), (v >> 4, v >> sbit & 1, v & 3), "fields")
        for attr, shift, width in (("mode", 4, 4), ("strobe", sbit, 1), ("level", 0, 2)):
            for nv in range(1 << width):
                y = cls(v)
                enum = {"mode": getattr(cls, "WarningMode", None) or getattr(cls, "SquawkMode", None),
                        "strobe": cls.Strobe,
                        "level": getattr(cls, "SirenLevel", None) or getattr(cls, "SquawkLevel", None)}[attr]
                setattr(y, attr, enum(nv))
                want = (v & ~(((1 << width) - 1) << shift)) | nv << shift
                check(y.value == want, "%s 0x%02x with %s=%d became 0x%02x", cls.__name__, v, attr, nv, y.value)
    return True


# ------------------------------------------------------------ headers
def header_bytes(h):
    """h: {type, dir, ddr, manuf, tsn, cmd} -> the header as the specification lays it out"""
    fc = h["type"] | (4 if h["manuf"] is not None else 0) | h["dir"] << 3 | h["ddr"] << 4
    return _u8(fc) + (b"" if h["manuf"] is None else _u16(h["manuf"])) + _u8(h["tsn"]) + _u8(h["cmd"])


def run_headers(case):
    hdrs, model = [], []
    labels = set()
    for op, i, a in case:
        if op == "make":
            kind, d, m, tsn, cmd = a
            kw = {} if d == 0 and tsn % 2 else {"direction": f.Direction(d)}
            if m is not None or tsn % 3:
                kw["manufacturer"] = m
            hdrs.append(getattr(f.ZCLHeader, kind)(tsn=tsn, command_id=cmd, **kw))
            model.append({"type": kind == "cluster" and 1 or 0, "dir": d, "ddr": d, "manuf": None if m == -1 else m,
                          "tsn": tsn, "cmd": cmd})
        elif not hdrs:
            continue
        else:
            i %= len(hdrs)
            h, e = hdrs[i], model[i]
            if op == "manuf":
                try:
                    h.manufacturer = a
                except AttributeError:
                    check(h._frozen, "manufacturer of %r", h)
                else:
                    e["manuf"] = None if a == -1 else a
                labels.add("changed")
            elif op == "share":
                # the frame control of another header, shared
                fc = h.frame_control
                hdrs.append(f.ZCLHeader(frame_control=fc, manufacturer=e["manuf"], tsn=7, command_id=8))
                model.append({**e, "tsn": 7, "cmd": 8})
                labels.add("shared")
            elif op == "copy":
                hdrs.append(h.replace() if a is None else h.replace(tsn=9))
                model.append({**e, **({} if a is None else {"tsn": 9})})
                labels.add("copied")
            elif op == "freeze":
                hdrs[i] = h.freeze()
        for h, e in zip(hdrs, model):
            check_eq(h.serialize().hex(), header_bytes(e).hex(), f"header {e} after {op} {i} {a}")
            check_eq([h.frame_control.is_cluster, h.frame_control.is_general, int(h.direction), int(h.frame_control)],
                     [e["type"] == 1, e["type"] == 0, e["dir"], header_bytes(e)[0]], "what the header says")
            back, rest = f.ZCLHeader.deserialize(h.serialize() + b"\x77")
            check_eq([back == h, rest, back.manufacturer], [True, b"\x77", e["manuf"]], "decoded header")
        for k in range(len(header_bytes(model[-1]))):
            try:
                f.ZCLHeader.deserialize(header_bytes(model[-1])[:k])
            except ValueError:
                pass
            else:
                check(False, "%d of %d bytes of a header decode", k, len(header_bytes(model[-1])))
    return {"labels": sorted(labels), "nontrivial": bool(hdrs)}


def header_case():
    m = st.one_of(st.none(), st.none(), st.just(-1), st.sampled_from([0, 1, 0xFFFF, 0x1021]), c01.boundary_int(16, False))
    u8 = st.integers(0, 255)
    mk = st.tuples(st.just("make"), st.just(0), st.tuples(st.sampled_from(["general", "cluster"]), st.integers(0, 1), m, u8,
                                                          u8).map(list))
    i = st.integers(0, 5)
    op = one_of(mk, st.tuples(st.just("manuf"), i, m), st.tuples(st.just("manuf"), i, m),
                st.tuples(st.just("share"), i, st.none()), st.tuples(st.just("copy"), i, st.sampled_from([None, 1])),
                st.tuples(st.just("freeze"), i, st.none()))
    return st.tuples(mk.map(list), st.lists(op.map(list), max_size=6)).map(lambda x: [x[0], *x[1]])


CHECK = Check(
    id="C03",
    rule="Every registered cluster command and every general command with generated arguments, "
         "positional/by name, both roles, manufacturer code, transaction number wrap: sent through the "
         "real cluster into a recording radio, compared with an independent frame encoder, decoded on a "
         "second application; rejected calls; lookups over all cluster classes and generated ones. "
         "Non-trivial: a frame was compared or a rejection observed.",
    assumptions=["decoded frames carry the direction of the command's definition (requests and replies are told apart by it)"],
    suites=[
        Suite("cluster", run_cluster, strategy=cluster_case, quick=4000, thorough=200_000),
        Suite("general", run_general, strategy=general_case, quick=4000, thorough=200_000),
        Suite("reject", run_reject, strategy=reject_case, quick=2000, thorough=50_000, shards=4),
        Suite("definitions", run_def, cases=lambda tier: [[k] for k in sorted(CLUSTERS)], shards=2),
        Suite("ranges", run_range, strategy=lambda: range_case().map(list), quick=800, thorough=20_000, shards=2),
        Suite("generated", run_gen, strategy=gen_case, quick=1500, thorough=50_000, shards=4),
        Suite("headers", run_headers, strategy=header_case, quick=3000, thorough=100_000, shards=4),
        Suite("group", run_group, strategy=group_case, quick=1500, thorough=50_000, shards=4),
        Suite("warning", run_warning, cases=warning_cases, shards=1),
    ],
)
