"""C17: attribute reads, writes and reports keep the cache true and complete."""
from __future__ import annotations

import asyncio
import struct
import time

from vlib.core import Check, Suite, check, check_eq, Discard
from vlib import fakes, sim, vloop, wire
from checks import c01, c03

import zigpy.exceptions
import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.foundation as f
from zigpy.zcl.clusters import general  # noqa: F401  (fills the registry)

from hypothesis import strategies as st


class Custom(zigpy.zcl.Cluster):
    _skip_registry = True
    cluster_id = 0xFC31
    ep_attribute = "custom_c17"

    class AttributeDefs(f.BaseAttributeDefs):
        plain = f.ZCLAttributeDef(id=0x0000, type=t.uint16_t)
        as_enum = f.ZCLAttributeDef(id=0x0001, type=t.uint8_t, zcl_type=f.DataTypeId.enum8)
        as_map = f.ZCLAttributeDef(id=0x0002, type=t.uint16_t, zcl_type=f.DataTypeId.map16)
        manuf = f.ZCLAttributeDef(id=0x4003, type=t.int24s, is_manufacturer_specific=True)
        text = f.ZCLAttributeDef(id=0x0004, type=t.CharacterString)
        blob = f.ZCLAttributeDef(id=0x0005, type=t.LVBytes)
        wide = f.ZCLAttributeDef(id=0x0006, type=t.uint64_t)
        real = f.ZCLAttributeDef(id=0x0007, type=t.Single)
        flag = f.ZCLAttributeDef(id=0x0008, type=t.Bool)


CIDS = sorted(int(i) for i in zigpy.zcl.Cluster._registry) + [0xFC31] * 12 + [0, 6, 0x0702, 0x0201, 0x0500] * 4
UNSUP = 0x86
FAILS = [0x80, 0x86, 0x87, 0x88, 0x8D, 0x8F, 0x94, 0xC0, 0x01, 0x7E]


def cls_of(cid):
    return Custom if cid == 0xFC31 else zigpy.zcl.Cluster._registry[cid]


def usable(cid):
    out = {}
    for a in cls_of(cid).attributes.values():
        try:
            k = wire.spec(a.type)[0]
        except Exception:  # noqa: BLE001
            continue
        if k in ("int", "fixed", "string", "limstring", "octets", "float") and int(a.zcl_type) in c01.ZCL:
            out[int(a.id)] = a
    return out


USABLE = {c: u for c in set(CIDS) for u in [usable(c)] if u}
CIDS = [c for c in CIDS if c in USABLE]


class Listener:
    def __init__(self):
        self.ev = []

    def attribute_updated(self, a, value, ts):
        self.ev.append(["updated", int(a), fakes.canon(value)])

    def attribute_cleared(self, a):
        self.ev.append(["cleared", int(a), None])

    def unsupported_attribute_added(self, a):
        self.ev.append(["unsupported", int(a), None])

    def unsupported_attribute_removed(self, a):
        self.ev.append(["supported", int(a), None])


def same_type(got, a, what):
    """the converted value has the type of the attribute"""
    T = next(c for c in a.type.__mro__ if c.__name__ != "Optional")
    check(isinstance(got, T), "%s: %r is a %s, the type of %s is %s", what, got, type(got).__name__, a.name, T.__name__)


def run(case):
    cid = case["cid"]
    defs = USABLE[cid]
    stat = {}

    def tick(k):
        stat[k] = stat.get(k, 0) + 1

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        mode = [None]
        net = sim.Net(app, lambda s, p: mode[0])
        s = net.add(sim.Sim(1, 0x2001, {"nd": sim.nd_bytes().hex(), "eps": [], "attrs": {}}))
        dev = fakes.add_device(app, 1, 0x2001, eps={1: (260, 0x0100, [], [])})
        ep = dev.endpoints[1]
        cl = Custom(ep, is_server=case["server"]) if cid == 0xFC31 else None
        c = ep.add_input_cluster(cid, cl) if case["server"] else ep.add_output_cluster(cid, cl)
        ls = Listener()
        c.add_listener(ls)
        cache = {}       # id -> (canon, definition or None)
        unsup = set()
        loose = set()    # unsupported once, reported with a value afterwards
        exp = []
        answer = [None]
        asked = []
        tsn = [100]

        def handler(cmd):
            def h(data, tsn_, body, back, manuf):
                asked.append((cmd, manuf, body))
                return [answer[0](tsn_, back, manuf)]
            return h

        for cmd in (0x00, 0x02, 0x03, 0x06):
            for sgn in (0,):
                s.handlers[(1, cid, -cmd)] = handler(cmd)   # global commands

        def frame(tsn_, back, manuf, cmd, payload):
            return bytes([back | (4 if manuf else 0)]) + manuf + bytes([tsn_, cmd]) + payload

        def value(a, v):
            """-> (type id, bytes, canon of the typed value)"""
            if a in defs:
                d = defs[a]
                return int(d.zcl_type), wire.enc(d.type, v), fakes.canon(wire.mk(d.type, v))
            return v[0], bytes.fromhex(v[1]), v[2]

        def key(a, how):
            if how == 1 and a in defs:
                return str(defs[a].name)
            if how == 2 and a in defs:
                return defs[a].id
            return t.uint16_t(a) if how == 3 else a

        def upd(a, can):
            cache[a] = can
            exp.append(["updated", a, can])

        def m_unsup(a):
            if a not in unsup:
                unsup.add(a)
                exp.append(["unsupported", a, None])
            loose.discard(a)

        def m_sup(a):
            if a in unsup:
                unsup.discard(a)
                exp.append(["supported", a, None])
            loose.discard(a)

        def verify(what):
            got = {int(k): fakes.canon(v) for k, v in c._attr_cache.items()} if hasattr(c, "_attr_cache") else None
            for a, d in defs.items():
                v = c.get(a)
                check_eq(fakes.canon(v), cache.get(a), f"cached value of {d.name} after {what}")
                check_eq(fakes.canon(c.get(d.name, "dflt")), cache.get(a, "dflt"), f"get({d.name!r}, default) after {what}")
                try:
                    v = fakes.canon(c[d.name])
                except KeyError:
                    v = None
                check_eq(v, cache.get(a), f"[{d.name!r}] after {what}")
                if a in cache:
                    same_type(c.get(a), d, f"after {what}")
            check_eq(ls.ev, exp, f"announcements of {what}")
            ls.ev.clear()
            exp.clear()
            if got is not None:
                check_eq(got, cache, f"cache after {what}")

        for op in case["ops"]:
            kind, items, opt = op["op"], op["items"], op["opt"]
            what = f"{kind} {[i[0] for i in items]} {opt}"
            mode[0] = opt["mode"]
            asked.clear()
            n_sent = len(app.sent)
            manuf = opt["manuf"]
            mbytes = b"" if manuf is None else sim.le16(manuf)
            dead = mode[0] in ("lose", "fail")
            if kind == "read":
                ids = [i[0] for i in items]
                keys = [key(i[0], i[1]) for i in items]
                use_cache = opt["allow_cache"] or opt["only_cache"]
                todo, succ, fail = [], {}, {}
                for a, k in zip(ids, keys):
                    if use_cache and a in cache:
                        succ[k] = cache[a]
                    elif use_cache and a in unsup and a not in loose:
                        fail[k] = UNSUP
                    else:
                        todo.append((a, k))
                if any(a in loose and a not in cache for a in ids) and use_cache:
                    continue
                order = sorted(range(len(todo)), key=lambda j: opt["perm"][j % len(opt["perm"])] * 10 + j % 7)

                def ans(tsn_, back, m):
                    if opt["default"] is not None:
                        return frame(tsn_, back, m, 0x0B, bytes([0x00, opt["default"]]))
                    out = b""
                    for j in order:
                        a = todo[j][0]
                        res = results[a]
                        if res[0] == "omit":
                            continue
                        if res[0] == "status":
                            out += sim.le16(a) + bytes([res[1]])
                        else:
                            ty, b, _ = value(a, res[1])
                            out += sim.le16(a) + b"\x00" + bytes([ty]) + b
                    if opt["extra"] is not None:
                        a, v = opt["extra"]
                        if a not in ids:
                            ty, b, _ = value(a, v)
                            out += sim.le16(a) + b"\x00" + bytes([ty]) + b
                    return frame(tsn_, back, m, 0x01, out)
                results = {i[0]: i[2] for i in items}
                answer[0] = ans
                try:
                    r = await c.read_attributes(list(keys), allow_cache=opt["allow_cache"], only_cache=opt["only_cache"],
                                                manufacturer=manuf)
                except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError):
                    check(dead and todo and not opt["only_cache"], "%s failed", what)
                    tick("failed")
                    r = None
                else:
                    check(not (dead and todo and not opt["only_cache"]), "%s succeeded without an answer", what)
                if opt["only_cache"] or not todo:
                    check_eq(len(app.sent), n_sent, f"packets sent by {what}, which is answered by the cache")
                    tick("from cache")
                else:
                    if not mode[0] == "fail":
                        check_eq(len(app.sent), n_sent + 1, f"packets sent by {what}")
                    if asked:
                        check_eq(asked[0], (0x00, mbytes, b"".join(sim.le16(a) for a, _ in todo)), f"request of {what}")
                    if not dead:
                        if opt["default"] is not None:
                            for a, k in todo:
                                fail[k] = opt["default"]
                            tick("default response")
                        else:
                            for j in order:
                                a, k = todo[j]
                                res = results[a]
                                if res[0] == "status":
                                    fail[k] = res[1]
                                    if res[1] == UNSUP:
                                        m_unsup(a)
                                        tick("unsupported")
                                elif res[0] == "value":
                                    can = value(a, res[1])[2]
                                    succ[k] = can
                                    upd(a, can)
                                    m_sup(a)
                                    tick("read")
                            if opt["extra"] is not None and opt["extra"][0] not in ids:
                                a, v = opt["extra"]
                                upd(a, value(a, v)[2])
                                m_sup(a)
                                tick("unrequested")
                if r is not None:
                    gs = {k: fakes.canon(v) for k, v in r[0].items() if k in keys}
                    gf = {k: int(v) for k, v in r[1].items() if k in keys}
                    check_eq(gs, {k: v for k, v in succ.items()}, f"values returned by {what}")
                    check_eq(gf, {k: v for k, v in fail.items()}, f"failures returned by {what}")
                    for k, v in r[0].items():
                        a = c.attributes_by_name[k].id if isinstance(k, str) else k
                        if a in defs and a in cache:
                            same_type(v, defs[a], what)
            elif kind in ("write", "undivided", "set item"):
                its = [i for i in items if i[0] in defs and i[2][0] == "value"]
                if not its:
                    continue
                if kind == "set item":
                    # `cluster[attribute] = value` writes it in the background
                    its, manuf, mbytes = its[:1], None, b""
                payload = {key(i[0], i[1]): wire.mk(defs[i[0]].type, i[2][1]) for i in its}
                failed = {}
                if opt["wfail"]:
                    failed = {i[0]: FAILS[(opt["wfail"] + j) % len(FAILS)] for j, i in enumerate(its) if (opt["perm"][j % len(opt["perm"])] + opt["wfail"]) % 2}

                def ans(tsn_, back, m):
                    if opt["default"] is not None:
                        return frame(tsn_, back, m, 0x0B, bytes([asked[-1][0], opt["default"]]))
                    if not failed:
                        return frame(tsn_, back, m, 0x04, b"\x00")
                    return frame(tsn_, back, m, 0x04, b"".join(bytes([st_]) + sim.le16(a) for a, st_ in sorted(failed.items())))
                answer[0] = ans
                try:
                    if kind == "set item":
                        for k, v in payload.items():
                            c[k] = v
                        await asyncio.sleep(100)
                        check(dead or len(asked) == 1, "%s sent %d writes", what, len(asked))
                    elif kind == "write":
                        await c.write_attributes(payload, manufacturer=manuf)
                    else:
                        await c.write_attributes_undivided(payload, manufacturer=manuf)
                except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError):
                    check(dead, "%s failed", what)
                    tick("failed")
                else:
                    check(not dead or kind == "set item", "%s succeeded without an answer", what)
                if asked:
                    check_eq(asked[0], (0x03 if kind == "undivided" else 0x02, mbytes, b"".join(
                        sim.le16(i[0]) + bytes([int(defs[i[0]].zcl_type)]) + wire.enc(defs[i[0]].type, i[2][1]) for i in its)),
                        f"request of {what}")
                if not dead and opt["default"] is None and not (kind == "undivided" and failed):
                    for i in its:
                        if i[0] not in failed:
                            upd(i[0], value(i[0], i[2][1])[2])
                            if i[0] in unsup:
                                loose.add(i[0])
                    tick("written" if not failed else "partly written")
            elif kind == "report":
                its = [i for i in items if i[2][0] == "value"]
                if not its:
                    continue
                tsn[0] = (tsn[0] + 1) % 256
                fc = (0x08 if case["server"] else 0x00) | (0x10 if opt["ddr"] else 0) | (4 if manuf is not None else 0)
                body = b""
                for i in its:
                    ty, b, can = value(i[0], i[2][1])
                    body += sim.le16(i[0]) + bytes([ty]) + b
                    upd(i[0], can)
                    if i[0] in unsup:
                        loose.add(i[0])
                mode[0] = None
                app.packet_received(fakes.packet(0x2001, cid, bytes([fc]) + mbytes + bytes([tsn[0], 0x0A]) + body))
                await vloop.settle()
                rsp = [p for p in app.sent[n_sent:]]
                if opt["ddr"]:
                    check_eq(len(rsp), 0, f"packets sent after {what} that wants no response")
                else:
                    check_eq(len(rsp), 1, f"responses to {what}")
                    d = rsp[0].data.serialize()
                    k = 3 if d[0] & 4 else 1
                    check_eq(d[k:], bytes([tsn[0], 0x0B, 0x0A, 0x00]), f"response to {what}")
                tick("reported")
            elif kind == "configure":
                its = [i for i in items if i[0] in defs]
                if not its:
                    continue
                change = 1
                cfgs = {key(i[0], i[1]): (opt["perm"][0] + 1, 300 + opt["perm"][-1], change) for i in its}
                uns = [i[0] for j, i in enumerate(its) if opt["wfail"] and (j + opt["wfail"]) % 2]
                other = [i[0] for j, i in enumerate(its) if opt["wfail"] and (j + opt["wfail"]) % 4 == 2]

                def ans(tsn_, back, m):
                    if opt["default"] is not None:
                        return frame(tsn_, back, m, 0x0B, bytes([0x06, opt["default"]]))
                    if not uns and not other:
                        return frame(tsn_, back, m, 0x07, b"\x00")
                    return frame(tsn_, back, m, 0x07, b"".join(
                        bytes([UNSUP if a in uns else 0x8C, 0]) + sim.le16(a) for a in [*uns, *other]))
                answer[0] = ans
                try:
                    await c.configure_reporting_multiple(cfgs, manufacturer=manuf)
                except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError):
                    check(dead, "%s failed", what)
                else:
                    check(not dead, "%s succeeded without an answer", what)
                if asked:
                    body = b""
                    for i in its:
                        d = defs[i[0]]
                        ty = int(d.zcl_type)
                        body += b"\x00" + sim.le16(i[0]) + bytes([ty]) + sim.le16(opt["perm"][0] + 1) + sim.le16(300 + opt["perm"][-1])
                        if ty in c01.ANALOG:
                            flt = {0x38: "<e", 0x39: "<f", 0x3A: "<d"}.get(ty)
                            body += struct.pack(flt, change) if flt else wire.enc(d.type, change)
                    check_eq(asked[0], (0x06, mbytes, body), f"request of {what}")
                if not dead and opt["default"] is None:
                    if not uns and not other:
                        for i in its:
                            m_sup(i[0])
                    for a in uns:
                        m_unsup(a)
                        tick("unsupported")
            elif kind == "clear":
                for i in items[:1]:
                    c.update_attribute(i[0], None)
                    if i[0] in cache:
                        del cache[i[0]]
                        exp.append(["cleared", i[0], None])
            mode[0] = None
            await asyncio.sleep(10.5)
            verify(what)
        bad = [x for x in loop.errors if "exception" in x]
        check(not bad, "errors in background: %r", bad[:1])

    vloop.run(main)
    return {"labels": sorted(stat), "nontrivial": len(stat) > 1}


@st.composite
def case_st(draw):
    cid = draw(st.sampled_from(CIDS))
    defs = USABLE[cid]
    pool = draw(st.lists(st.sampled_from(sorted(defs)), min_size=1, max_size=5, unique=True))
    extra = [x for x in (0x4FF0, 0xFFF1) if x not in defs]

    def val(a):
        if a in defs:
            return draw(wire.vals(defs[a].type).filter(lambda v: v is not None))
        # an attribute the cluster does not define
        return draw(st.sampled_from([[0x20, "07", 7], [0x21, "3412", 0x1234], [0x42, "026869", "hi"], [0x10, "01", 1]]))

    def item():
        a = draw(st.sampled_from(pool + (extra if draw(st.integers(0, 5)) == 0 else [])))
        r = draw(st.sampled_from(["value", "value", "value", "status", "unsup", "omit"]))
        res = ["value", val(a)] if r == "value" else ["status", draw(st.sampled_from(FAILS))] if r == "status" else (
            ["status", UNSUP] if r == "unsup" else ["omit"])
        return [a, draw(st.integers(0, 3)), res]

    ops = []
    for _ in range(draw(st.integers(1, 9))):
        items, seen = [], set()
        for _ in range(draw(st.integers(1, 5))):
            i = item()
            if i[0] not in seen:
                seen.add(i[0])
                items.append(i)
        ops.append({"op": draw(st.sampled_from(["read", "read", "read", "write", "write", "undivided", "set item", "report", "report",
                                                "configure", "clear"])),
                    "items": items,
                    "opt": {"mode": draw(st.sampled_from([None] * 8 + ["lose", "fail", "dup"])),
                            "manuf": draw(st.sampled_from([None, None, None, 0x115F, 0x0000, 0xFFFF])),
                            "allow_cache": draw(st.booleans()),
                            "only_cache": draw(st.sampled_from([False, False, False, True])),
                            "default": draw(st.sampled_from([None] * 9 + [0x81, 0x82, 0x01])),
                            "perm": draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
                            "extra": (lambda a: [a, val(a)])(draw(st.sampled_from(pool))) if draw(st.integers(0, 9)) == 0 else None,
                            "wfail": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                            "ddr": draw(st.booleans())}})
    return {"cid": cid, "server": draw(st.booleans()), "ops": ops}


def strategy():
    return case_st()


# ---- the device reads attributes of the coordinator -----------------------------------------
def run_serve(case):
    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        fakes.add_device(app, 1, 0x2001, eps={1: (260, 0x0100, [0, 6], [0x000A, 0])})
        app.devices[fakes.eui(1)].endpoints[1].in_clusters.pop(0, None)
        before = int(time.time()) - 946684800
        fc = 0x00 | (0x10 if case["ddr"] else 0)
        app.packet_received(fakes.packet(
            0x2001, case["cid"], bytes([fc, case["tsn"], 0x00]) + b"".join(sim.le16(a) for a in case["ids"])))
        await vloop.settle()
        check_eq(len(app.sent), 1, "responses to a read request")
        p = app.sent[0]
        d = p.data.serialize()
        check_eq((int(p.dst.address), p.dst_ep, p.cluster_id, p.profile_id), (0x2001, 1, case["cid"], 260), "destination")
        check_eq((d[0] & ~0x10, d[1], d[2]), (0x08, case["tsn"], 0x01), "header of the response")
        i = 3
        got = []
        while i < len(d):
            a, s_ = struct.unpack("<HB", d[i:i + 3])
            i += 3
            if s_ == 0:
                ty = d[i]
                n = {0xE2: 4, 0x18: 1, 0x2B: 4, 0x23: 4, 0x20: 1, 0x30: 1}[ty]
                got.append((a, ty, int.from_bytes(d[i + 1:i + 1 + n], "little")))
                i += 1 + n
            else:
                got.append((a, None, s_))
        check_eq(i, len(d), "length of the response")
        check_eq([g[0] for g in got], case["ids"], "attributes answered")
        after = int(time.time()) - 946684800 + 1
        for a, ty, v in got:
            if case["cid"] == 0x000A and a in (0, 7):
                # UTC and local time (the sandbox runs in UTC)
                check_eq(ty, {0: 0xE2, 7: 0x23}[a], f"type of attribute {a}")
                check(before <= v <= after, "time is %d, expected %d to %d", v, before, after)
            elif case["cid"] == 0x000A and a == 1:
                check_eq((ty, v), (0x18, 0x07), "time status")
            elif case["cid"] == 0x000A and a == 2:
                check_eq((ty, v), (0x2B, 0), "time zone")
            elif case["cid"] == 0 and a in (0, 7):
                check_eq(ty, {0: 0x20, 7: 0x30}[a], f"type of attribute {a}")
            else:
                check_eq((ty, v), (None, UNSUP), f"status of attribute {a:#x}")
    vloop.run(main)
    return {"labels": [hex(case["cid"])], "nontrivial": len(case["ids"]) > 1}


def serve_strategy():
    return st.fixed_dictionaries({
        "cid": st.sampled_from([0x000A, 0x000A, 0]), "tsn": st.integers(0, 255), "ddr": st.booleans(),
        "ids": st.lists(st.one_of(st.integers(0, 9), st.sampled_from([0xFFFD, 0x4000, 0xFFFF])), min_size=1, max_size=10)})


CHECK = Check(
    "C17",
    rule="a history with at least two kinds of effects (values read, written, reported, refused, unsupported, served from "
         "the cache, failed)",
    assumptions=["an attribute that was reported with a value after it was unsupported and was then cleared locally may be "
                 "asked for or refused", "devices are simulated byte by byte; virtual time"],
    suites=[Suite("history", run, strategy=strategy, quick=3000, thorough=60000),
            Suite("serve", run_serve, strategy=serve_strategy, quick=600, thorough=6000)])
