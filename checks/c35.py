"""C35: commands, reads, writes, bindings and reporting reach devices exactly as asked, with the right manufacturer code."""
from __future__ import annotations

import asyncio
import struct

from vlib.core import Check, Suite, Violation, check, check_eq
from vlib import fakes, sim, vloop

import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.foundation as f
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

D = f.DataTypeId
# name -> (python type, data type id or None for the natural one, wire id, analog?, kind, size)
TYPES = {
    "uint8": (t.uint8_t, None, 0x20, True, "u", 1), "uint16": (t.uint16_t, None, 0x21, True, "u", 2),
    "uint24": (t.uint24_t, None, 0x22, True, "u", 3), "uint32": (t.uint32_t, None, 0x23, True, "u", 4),
    "uint40": (t.uint40_t, None, 0x24, True, "u", 5), "uint48": (t.uint48_t, None, 0x25, True, "u", 6),
    "uint64": (t.uint64_t, None, 0x27, True, "u", 8),
    "int8": (t.int8s, None, 0x28, True, "s", 1), "int16": (t.int16s, None, 0x29, True, "s", 2),
    "int24": (t.int24s, None, 0x2A, True, "s", 3), "int32": (t.int32s, None, 0x2B, True, "s", 4),
    "single": (t.Single, None, 0x39, True, "f", 4), "double": (t.Double, None, 0x3A, True, "f", 8),
    "utc": (t.UTCTime, None, 0xE2, True, "u", 4),
    "bool": (t.Bool, None, 0x10, False, "b", 1),
    "enum8": (t.enum8, None, 0x30, False, "u", 1), "enum16": (t.enum16, None, 0x31, False, "u", 2),
    "map8": (t.bitmap8, None, 0x18, False, "u", 1), "map16": (t.bitmap16, None, 0x19, False, "u", 2),
    "map32": (t.bitmap32, None, 0x1B, False, "u", 4),
    "enum over uint8": (t.uint8_t, D.enum8, 0x30, False, "u", 1),
    "map16 over uint16": (t.uint16_t, D.map16, 0x19, False, "u", 2),
    "uint16 over enum16": (t.enum16, D.uint16, 0x21, True, "u", 2),
    "string": (t.CharacterString, None, 0x42, False, "str", 0),
    "octets": (t.LVBytes, None, 0x41, False, "oct", 0),
    "eui64": (t.EUI64, None, 0xF0, False, "eui", 8),
}
NUMERIC = sorted(k for k, v in TYPES.items() if v[4] in "us")


def value(draw, name):
    k, n = TYPES[name][4:]
    if k == "u":
        return draw(st.one_of(st.integers(0, (1 << 8 * n) - 1), st.sampled_from([0, 1, (1 << 8 * n) - 1])))
    if k == "s":
        return draw(st.one_of(st.integers(-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1), st.sampled_from([-1, 0, -(1 << 8 * n - 1)])))
    if k == "f":
        return draw(st.sampled_from([0.0, 1.0, -2.5, 0.125, 1024.0, 3.5]))
    if k == "b":
        return draw(st.booleans())
    if k == "str":
        return draw(st.text("abc xyzü", max_size=12))
    if k == "oct":
        return draw(st.binary(max_size=12)).hex()
    return draw(st.integers(0, 1000))   # eui64 number


def enc(name, v):
    k, n = TYPES[name][4:]
    if k in ("u", "s"):
        return int(v).to_bytes(n, "little", signed=k == "s")
    if k == "f":
        return struct.pack("<f" if n == 4 else "<d", v)
    if k == "b":
        return bytes([v])
    if k == "str":
        b = v.encode()
        return bytes([len(b)]) + b
    if k == "oct":
        b = bytes.fromhex(v)
        return bytes([len(b)]) + b
    return fakes.eui(v).serialize()


def lib(name, v):
    """as a caller may give it"""
    k = TYPES[name][4]
    return bytes.fromhex(v) if k == "oct" else fakes.eui(v) if k == "eui" else v


@st.composite
def cases(draw):
    nattr = draw(st.integers(1, 5))
    aids = draw(st.lists(st.one_of(st.integers(0, 8), st.integers(0, 0xFFFF), st.sampled_from([0x4000, 0xF000, 0xFFFD])),
                         min_size=nattr, max_size=nattr, unique=True))
    attrs = [[a, draw(st.sampled_from(sorted(TYPES))), draw(st.booleans())] for a in aids]

    def commands():
        ids = draw(st.lists(st.one_of(st.integers(0, 5), st.integers(0, 255)), min_size=1, max_size=3, unique=True))
        return [[i, draw(st.lists(st.sampled_from(sorted(TYPES)), max_size=3)), draw(st.booleans())] for i in ids]
    srv, cli = commands(), commands()
    server = draw(st.booleans())

    def args(names):
        return [value(draw, n) for n in names]
    ops = []
    manuf = st.one_of(st.none(), st.none(), st.none(), st.integers(0, 0xFFFF), st.just(0))
    tsn = st.one_of(st.none(), st.none(), st.integers(0, 255))
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["command", "command", "client", "client", "read", "read", "write", "write", "write undivided",
                                  "report", "report", "report one", "bind", "unbind", "discover", "bad"]))
        if k in ("command", "client"):
            if (k == "command") != server:
                k = "client" if k == "command" else "command"
            tab = srv if k == "command" else cli
            j = draw(st.integers(0, len(tab) - 1))
            ops.append(dict(op=k, j=j, args=args(tab[j][1]), how=draw(st.sampled_from(["id", "def", "name", "attr"])),
                            kw=draw(st.integers(0, 3)), manuf=draw(manuf), tsn=draw(tsn), ack=draw(st.sampled_from([None, True, False])),
                            prio=draw(st.sampled_from([None, -1, 1])), noreply=draw(st.sampled_from([False, False, True]))))
        elif k == "read":
            ids = draw(st.lists(st.one_of(st.sampled_from(aids), st.sampled_from(aids), st.integers(0, 0xFFFF)), min_size=1, max_size=4, unique=True))
            ops.append(dict(op=k, ids=ids, names=draw(st.integers(0, 15)), manuf=draw(manuf)))
        elif k in ("write", "write undivided"):
            js = draw(st.lists(st.integers(0, nattr - 1), min_size=1, max_size=nattr, unique=True))
            ops.append(dict(op=k, items=[[j, value(draw, attrs[j][1])] for j in js], names=draw(st.integers(0, 15)), manuf=draw(manuf)))
        elif k in ("report", "report one"):
            js = draw(st.lists(st.integers(0, nattr - 1), min_size=1, max_size=1 if k == "report one" else nattr, unique=True))
            iv = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 0xFFFF, 0xFFFE]))
            ops.append(dict(op=k, items=[[j, draw(iv), draw(iv), value(draw, attrs[j][1]) if TYPES[attrs[j][1]][3] else draw(st.integers(0, 9))]
                                         for j in js], names=draw(st.integers(0, 15)), manuf=draw(manuf)))
        elif k in ("bind", "unbind"):
            ops.append(dict(op=k, status=draw(st.sampled_from([0, 0, 0x84, 0x8C, 0x88]))))
        elif k == "discover":
            ops.append(dict(op=k, which=draw(st.integers(0, 3)), start=draw(st.integers(0, 0xFFFF)), start8=draw(st.integers(0, 255)),
                            count=draw(st.integers(0, 255)), manuf=draw(manuf), tsn=draw(tsn)))
        else:
            ops.append(dict(op=k, which=draw(st.sampled_from(["unknown read", "unknown write", "unknown report", "unknown report id", "interval",
                                                              "interval", "change", "write value", "command value", "command missing",
                                                              "command excess", "command unknown", "no attribute"])),
                            j=draw(st.integers(0, 9)), sign=draw(st.booleans())))
        ops[-1]["reply"] = draw(st.sampled_from(["ok", "ok", "default", "lose"]))
    return dict(
        base=draw(st.sampled_from(["custom", "custom", "custom", "plain"])),
        cid=draw(st.one_of(st.integers(0x0010, 0xFBFF), st.integers(0xFC00, 0xFFFF), st.sampled_from([0xFBFF, 0xFC00, 0xFFFF]))),
        attrs=attrs, srv=srv, cli=cli, server=server, ops=ops, ep=draw(st.integers(1, 240)), coord_ep=draw(st.one_of(st.just(1), st.integers(1, 240))),
        profile=draw(st.sampled_from([260, 260, 0x0109, 0xA1E0])), nd=draw(st.one_of(st.none(), st.integers(0, 0xFFFF), st.just(0x115F))),
        override=draw(st.one_of(st.none(), st.none(), st.integers(1, 0xFFFF))), dev=draw(st.integers(1, 500)))


def build(case):
    base = zigpy.quirks.CustomCluster if case["base"] == "custom" else zigpy.zcl.Cluster

    class AttributeDefs(f.BaseAttributeDefs):
        pass
    for n, (aid, ty, manuf) in enumerate(case["attrs"]):
        T, zt = TYPES[ty][:2]
        setattr(AttributeDefs, f"at_{n}", f.ZCLAttributeDef(id=aid, type=T, is_manufacturer_specific=manuf, **({} if zt is None else {"zcl_type": zt})))

    def defs(tab, pre):
        class Defs(f.BaseCommandDefs):
            pass
        for n, (cid, tys, manuf) in enumerate(tab):
            setattr(Defs, f"{pre}_{n}", f.ZCLCommandDef(id=cid, schema={f"p{i}": TYPES[x][0] for i, x in enumerate(tys)},
                                                       is_manufacturer_specific=manuf))
        return Defs

    class Generated(base):
        _skip_registry = True
        cluster_id = case["cid"]
        name = "Generated"
        ep_attribute = "generated_c35"
    ns = {"_skip_registry": True, "cluster_id": t.ClusterId(case["cid"]), "ep_attribute": "generated_c35",
          "AttributeDefs": AttributeDefs, "ServerCommandDefs": defs(case["srv"], "srv"), "ClientCommandDefs": defs(case["cli"], "cli")}
    return type("GeneratedC35", (base,), ns)


def run(case):
    labels = set()

    async def main(loop):
        class App(fakes.Radio):
            def get_endpoint_id(self, cluster_id, is_server_cluster=False):
                return case["coord_ep"] if cluster_id == case["cid"] and is_server_cluster == case["server"] else 1
        app = fakes.make_app(App)
        fakes.add_coordinator(app)
        net = sim.Net(app)
        s = net.add(sim.Sim(case["dev"], 0x2345, {"nd": "", "eps": []}))
        dev = fakes.add_device(app, case["dev"], 0x2345, eps={case["ep"]: (case["profile"], 0x0100, [], [])})
        dev.node_desc = fakes.node_desc(manufacturer_code=case["nd"]) if case["nd"] is not None else None
        if case["override"] is not None:
            dev.manufacturer_id_override = case["override"]
        ep = dev.endpoints[case["ep"]]
        cls = build(case)
        cl = cls(ep, is_server=case["server"])
        if case["server"]:
            ep.add_input_cluster(case["cid"], cl)
        else:
            ep.add_output_cluster(case["cid"], cl)
        own = case["override"] if case["override"] is not None else case["nd"]
        custom = case["base"] == "custom"
        special = case["cid"] >= 0xFC00
        S2C = 0 if case["server"] else 8
        A = case["attrs"]
        mode = ["ok"]
        status = [0]

        def answer(data):
            return data[0] & 3, data

        def zcl_reply(sgn, cmd):
            def h(data, tsn, body, back, manuf):
                if mode[0] == "lose":
                    return []
                head = bytes([back | (4 if manuf else 0)]) + manuf + bytes([tsn])
                if mode[0] == "default" or sgn:
                    return [head + bytes([0x0B, cmd, 0x81])]
                if cmd == 0:
                    return [head + b"\x01" + b"".join(body[i:i + 2] + b"\x86" for i in range(0, len(body), 2))]
                if cmd in (2, 3):
                    return [head + b"\x04\x00"]
                if cmd == 6:
                    return [head + b"\x07\x00"]
                if cmd == 0x0C:
                    return [head + b"\x0D\x01"]
                if cmd == 0x15:
                    return [head + b"\x16\x01"]
                if cmd == 0x11:
                    return [head + b"\x12\x01"]
                return [head + b"\x14\x01"]
            return h
        for cmd in range(256):
            s.handlers[(case["ep"], case["cid"], cmd)] = zcl_reply(1, cmd)
            if cmd:
                s.handlers[(case["ep"], case["cid"], -cmd)] = zcl_reply(0, cmd)
        # a command 0 of the cluster and the general command 0 share their handler's key
        def zero(data, tsn, body, back, manuf):
            return zcl_reply(data[0] & 3, 0)(data, tsn, body, back, manuf)
        s.handlers[(case["ep"], case["cid"], 0)] = zero
        s.handlers[(0, 0x0021)] = s.handlers[(0, 0x0022)] = lambda data: None if mode[0] == "lose" else bytes([status[0]])
        last = [None]

        def code(given, manufacturer_specific):
            if given is not None:
                return given
            return own if custom and (special or manufacturer_specific) else None

        def key(names, i, n, aid):
            return f"at_{n}" if names >> (i & 3) & 1 else aid

        def one(what):
            new = app.sent[before:]
            check_eq(len(new), 1, f"packets sent by {what}")
            return new[0]

        def verify(what, p, general, cmd, body, manuf, tsn, reply):
            check_eq((p.dst.addr_mode, int(p.dst.address)), (t.AddrMode.NWK, 0x2345), f"destination of {what}")
            check_eq((p.profile_id, p.cluster_id, p.dst_ep), (case["profile"], case["cid"], case["ep"]), f"profile, cluster and endpoint of {what}")
            data = p.data.serialize()
            fc = (0 if general else 1) | (4 if manuf is not None else 0) | S2C | (0x10 if reply or S2C else 0)
            got = data[3] if data[0] & 4 else data[1]
            check_eq(got, int(p.tsn), f"transaction number inside {what} and of the packet")
            if tsn is not None:
                check_eq(got, tsn, f"transaction number of {what}")
            exp = bytes([fc]) + (b"" if manuf is None else struct.pack("<H", manuf)) + bytes([got, cmd]) + body
            check_eq(data.hex(), exp.hex(), f"frame of {what}")

        for op in case["ops"]:
            k = op["op"]
            # a frame from a device without a node descriptor starts an interview
            mode[0] = op["reply"] if case["nd"] is not None else "lose"
            await asyncio.sleep(20)   # answers repeated within ten seconds count as duplicates
            before = len(app.sent)
            what = f"{k} {({x: y for x, y in op.items() if x != 'op'})}"
            labels.add(k if k != "bad" else "refused")
            m = op.get("manuf")
            mk = {} if m is None else {"manufacturer": m}
            reply = False
            if k in ("command", "client"):
                tab, pre = (case["srv"], "srv") if k == "command" else (case["cli"], "cli")
                cid, tys, ms = tab[op["j"]]
                kw = dict(mk)
                if op["tsn"] is not None:
                    kw["tsn"] = op["tsn"]
                if op["ack"] is not None:
                    kw["ask_for_ack"] = op["ack"]
                if op["prio"] is not None:
                    kw["priority"] = op["prio"]
                if op["noreply"] and k == "command":
                    kw["expect_reply"] = False
                vals = [lib(x, v) for x, v in zip(tys, op["args"])]
                pos = vals[:max(0, len(vals) - op["kw"])]
                kw.update({f"p{i}": v for i, v in enumerate(vals) if i >= len(pos)})
                if op["how"] == "attr":
                    coro = getattr(cl, f"{pre}_{op['j']}")(*pos, **kw)
                else:
                    i = cid
                    if op["how"] == "def":
                        i = getattr(cl.ServerCommandDefs if k == "command" else cl.ClientCommandDefs, f"{pre}_{op['j']}").id
                    coro = (cl.command if k == "command" else cl.client_command)(i, *pos, **kw)
                exp = (False, cid, b"".join(enc(x, v) for x, v in zip(tys, op["args"])), code(m, ms), op["tsn"], k == "client")
                reply = k == "client" or op["noreply"]
            elif k == "read":
                ids = op["ids"]
                by = {a[0]: n for n, a in enumerate(A)}
                keys = [key(op["names"], i, by[a], a) if a in by else a for i, a in enumerate(ids)]
                coro = cl.read_attributes(keys, **mk)
                exp = (True, 0, b"".join(struct.pack("<H", a) for a in ids), code(m, any(a in by and A[by[a]][2] for a in ids)), None, False)
            elif k in ("write", "write undivided"):
                d = {key(op["names"], i, j, A[j][0]): lib(A[j][1], v) for i, (j, v) in enumerate(op["items"])}
                coro = (cl.write_attributes if k == "write" else cl.write_attributes_undivided)(d, **mk)
                body = b"".join(struct.pack("<HB", A[j][0], TYPES[A[j][1]][2]) + enc(A[j][1], v) for j, v in op["items"])
                exp = (True, 2 if k == "write" else 3, body, code(m, any(A[j][2] for j, _ in op["items"])), None, False)
            elif k in ("report", "report one"):
                d = {key(op["names"], i, j, A[j][0]): (lo, hi, ch) for i, (j, lo, hi, ch) in enumerate(op["items"])}
                if k == "report":
                    coro = cl.configure_reporting_multiple(d, **mk)
                else:
                    (a, (lo, hi, ch)), = d.items()
                    coro = cl.configure_reporting(a, lo, hi, ch, **mk)
                body = b"".join(struct.pack("<BHBHH", 0, A[j][0], TYPES[A[j][1]][2], lo, hi) + (enc(A[j][1], ch) if TYPES[A[j][1]][3] else b"")
                                for j, lo, hi, ch in op["items"])
                exp = (True, 6, body, code(m, any(A[j][2] for j, *_ in op["items"])), None, False)
            elif k == "discover":
                name, cmd = [("discover_attributes", 0x0C), ("discover_attributes_extended", 0x15), ("discover_commands_received", 0x11),
                             ("discover_commands_generated", 0x13)][op["which"]]
                first = op["start"] if op["which"] < 2 else op["start8"]
                kw = dict(mk)
                if op["tsn"] is not None:
                    kw["tsn"] = op["tsn"]
                coro = getattr(cl, name)(first, op["count"], **kw)
                exp = (True, cmd, struct.pack("<HB" if op["which"] < 2 else "<BB", first, op["count"]), m, op["tsn"], False)
            elif k in ("bind", "unbind"):
                status[0] = op["status"]
                coro = cl.bind() if k == "bind" else cl.unbind()
                exp = None
            else:
                w = op["which"]
                j = op["j"] % len(A)
                num = [n for n, a in enumerate(A) if a[1] in NUMERIC]
                tab, pre = (case["srv"], "srv") if case["server"] else (case["cli"], "cli")
                call = cl.command if case["server"] else cl.client_command
                cmds = [c for c in tab if c[1] and c[1][0] in NUMERIC]
                c = tab[op["j"] % len(tab)]
                good = [lib(x, {"str": "", "oct": "", "f": 0.0}.get(TYPES[x][4], 0)) for x in c[1]]
                over = None
                if w in ("change", "write value") and num:
                    j = num[op["j"] % len(num)]
                    over = (1 << 8 * TYPES[A[j][1]][5]) if op["sign"] else -(1 << 8 * TYPES[A[j][1]][5])
                    if w == "change" and not TYPES[A[j][1]][3]:
                        continue
                elif w in ("change", "write value"):
                    continue
                if w == "command value" and not cmds or w == "command missing" and not c[1]:
                    continue
                unknown = next(i for i in range(0x5000, 0x6000) if i not in [a[0] for a in A])
                free = next(i for i in range(200, 256) if i not in [x[0] for x in tab])

                def attempt():
                    if w == "unknown read":
                        return cl.read_attributes(["nonsense", A[0][0]])
                    if w == "unknown write":
                        return cl.write_attributes({A[0][0]: lib(A[0][1], "" if TYPES[A[0][1]][4] in ("str", "oct") else 0), "nonsense": 1})
                    if w == "unknown report":
                        return cl.configure_reporting("nonsense", 1, 2, 3)
                    if w == "unknown report id":
                        return cl.configure_reporting_multiple({A[0][0]: (1, 2, 1), unknown: (1, 2, 3)})
                    if w == "interval":
                        return cl.configure_reporting(A[j][0], *((0x10000, 5) if op["sign"] else (5, 0x10000)), 1)
                    if w == "change":
                        return cl.configure_reporting(A[j][0], 1, 2, over)
                    if w == "write value":
                        return cl.write_attributes({f"at_{j}": over})
                    if w == "command value":
                        d = cmds[op["j"] % len(cmds)]
                        wide = 1 << 8 * TYPES[d[1][0]][5]
                        rest = [lib(x, {"str": "", "oct": "", "f": 0.0}.get(TYPES[x][4], 0)) for x in d[1][1:]]
                        return call(d[0], wide if op["sign"] else -wide, *rest)
                    if w == "command missing":
                        return call(c[0], *good[:-1])
                    if w == "command excess":
                        return call(c[0], *good, 1)
                    if w == "command unknown":
                        return call(free)
                    return getattr(cl, "nonsense_command")(1)
                try:
                    await attempt()
                except (ValueError, KeyError, TypeError, AttributeError) as e:
                    labels.add("refused: " + w)
                else:
                    raise Violation(f"{w} is not refused")
                await vloop.settle(20)
                check_eq(len(app.sent) - before, 0, f"packets sent for a refused request ({w})")
                continue
            if m is not None:
                labels.add("given code")
            elif exp is not None and exp[3] is not None:
                labels.add("own code")
            out = err = None
            try:
                out = await coro
            except asyncio.TimeoutError:
                err = True
            p = one(what)
            if exp is None:
                check_eq((p.profile_id, p.cluster_id, p.src_ep, p.dst_ep), (0, 0x0021 if k == "bind" else 0x0022, 0, 0), f"addressing of {what}")
                check_eq((p.dst.addr_mode, int(p.dst.address)), (t.AddrMode.NWK, 0x2345), f"destination of {what}")
                data = p.data.serialize()
                check_eq(data[0], int(p.tsn), f"transaction number inside {what} and of the packet")
                check_eq(data[1:].hex(), (fakes.eui(case["dev"]).serialize() + bytes([case["ep"]]) + struct.pack("<H", case["cid"]) + b"\x03"
                                          + app.state.node_info.ieee.serialize() + bytes([case["coord_ep"]])).hex(), f"payload of {what}")
                if mode[0] != "lose":
                    check(out is not None, "%s has no outcome", what)
                    check_eq(int(out[0]), status[0], f"outcome of {what}")
                check_eq(bool(err), mode[0] == "lose", f"whether {what} times out")
            else:
                verify(what, p, *exp)
                check_eq(bool(err), mode[0] == "lose" and not reply, f"whether {what} times out")
                if k == "command" and not reply and err is None:
                    check_eq((int(out.command_id), int(out.status)), (exp[1], 0x81), f"outcome of {what}")
            if exp is None or exp[4] is None:
                if last[0] is not None:
                    check_eq(int(p.tsn), (last[0] + 1) % 256, f"transaction number of {what} following the one before")
                last[0] = int(p.tsn)
        check_eq([str(e) for e in loop.errors], [], "stray errors")

    vloop.run(main)
    return dict(labels=sorted(labels), nontrivial=bool(labels - {"refused"}))


CHECK = Check("C35", rule="a case counts if at least one request was sent and compared byte by byte with the reference frame",
              assumptions=["commands are used on the side of the cluster that receives them (command on input, client_command on output clusters)",
               "manufacturer codes are chosen automatically on quirk clusters only; ordinary clusters send the code the caller gives",
               "one request at a time (concurrency is the subject of other checks)"],
              suites=[Suite("requests", run, strategy=cases, quick=6000, thorough=120000)])
