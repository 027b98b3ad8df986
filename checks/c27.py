"""C27: response listeners fire for exactly the frames that match, then vanish."""
from __future__ import annotations

import asyncio

from vlib.core import Check, Suite, check, check_eq
from vlib import core, fakes, sim, vloop

import zigpy.listeners
import zigpy.types as t
from zigpy.zcl import clusters, foundation as f
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

# ---------------------------------------------------------------- the frames devices send
# kind -> (cluster, endpoint side, frame control, command id, schema, fields, encoder)

ONOFF = clusters.general.OnOff
LEVEL = clusters.general.LevelControl
OTA = clusters.general.Ota

FRAMES = {
    "off": (6, 0x01, 0x00, lambda: ONOFF.ServerCommandDefs.off.schema, []),
    "toggle": (6, 0x01, 0x02, lambda: ONOFF.ServerCommandDefs.toggle.schema, []),
    "off_effect": (6, 0x01, 0x40, lambda: ONOFF.ServerCommandDefs.off_with_effect.schema,
                   [["effect_id", 1], ["effect_variant", 1]]),
    "timed": (6, 0x01, 0x42, lambda: ONOFF.ServerCommandDefs.on_with_timed_off.schema,
              [["on_off_control", 1], ["on_time", 2], ["off_wait_time", 2]]),
    "move_to": (8, 0x01, 0x00, lambda: LEVEL.ServerCommandDefs.move_to_level.schema,
                [["level", 1], ["transition_time", 2]]),
    "end": (0x19, 0x01, 0x06, lambda: OTA.ServerCommandDefs.upgrade_end.schema,
            [["status", 1], ["manufacturer_code", 2], ["image_type", 2], ["file_version", 4]]),
    "report": (6, 0x18, 0x0A, lambda: f.GENERAL_COMMANDS[f.GeneralCommand.Report_Attributes].schema, None),
    "annce": (0x0006, None, None, None, None),      # a ZDO request: Match_Desc_req
}
LIMITS = {1: 0xFE, 2: 0xFFFE, 4: 0xFFFFFFFE}


def schema(kind):
    return FRAMES[kind][3]()


def payload(kind, values):
    cluster, fc, cmd, _, fields = FRAMES[kind]
    if kind == "annce":
        return b"\x00\x00" + sim.le16(260) + b"\x01" + sim.le16(values[0]) + b"\x00"
    if kind == "report":
        return b"\x00\x00\x10" + bytes([values[0] & 1])
    return b"".join(v.to_bytes(n, "little") for (_, n), v in zip(fields, values))


def frame_st():
    @st.composite
    def build(draw):
        kind = draw(st.sampled_from(sorted(FRAMES)))
        fields = FRAMES[kind][4]
        n = 1 if fields is None else len(fields)
        vals = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
        return [kind, vals]
    return build()


# ---------------------------------------------------------------- patterns

@st.composite
def pattern_st(draw):
    """["cmd", kind, {field index: value}] or ["fn", what, arg]"""
    if draw(st.integers(0, 2)):
        kind = draw(st.sampled_from([k for k in FRAMES if k != "annce"]))
        fields = FRAMES[kind][4]
        if fields is None:
            return ["cmd", kind, draw(st.one_of(st.just({}), st.fixed_dictionaries({"0": st.integers(0, 1)})))]
        n = len(fields)
        return ["cmd", kind, draw(st.dictionaries(st.integers(0, max(0, n - 1)).map(str), st.integers(0, 3),
                                                  max_size=n))] if n else ["cmd", kind, {}]
    return draw(st.one_of(
        st.sampled_from([["fn", "all", 0], ["fn", "none", 0], ["fn", "raise", 0], ["fn", "zdo", 0], ["fn", "truthy", 0]]),
        st.tuples(st.just("fn"), st.just("cmd_id"), st.sampled_from([0, 2, 0x40, 0x0A])).map(list)))


def make_pattern(p):
    if p[0] == "cmd":
        sc = schema(p[1])
        fields = FRAMES[p[1]][4]
        if fields is None:
            if "0" not in p[2]:
                return sc()
            return sc(attribute_reports=[f.Attribute(
                attrid=t.uint16_t(0), value=f.TypeValue(f.DataTypeId.bool_, t.Bool(p[2]["0"])))])
        kw = {}
        for i, v in p[2].items():
            name = fields[int(i)][0]
            kw[name] = getattr(sc, name).type(v)
        return sc(**kw)
    what, arg = p[1], p[2]
    if what == "raise":
        def bad(hdr, cmd):
            raise core.injected(KeyError, "matcher")
        return bad
    return {
        "all": lambda hdr, cmd: True,
        "truthy": lambda hdr, cmd: "yes",
        "none": lambda hdr, cmd: None,
        "zdo": lambda hdr, cmd: isinstance(hdr, zdo_t.ZDOHeader),
        "cmd_id": lambda hdr, cmd: hdr.command_id == arg,
    }[what]


def ref_match(p, kind, vals):
    if p[0] == "cmd":
        if p[1] != kind:
            return False
        if kind == "report":
            return p[2].get("0", vals[0] & 1) == vals[0] & 1
        return all(vals[int(i)] == v for i, v in p[2].items())
    what, arg = p[1], p[2]
    if what in ("raise", "none"):
        return False
    if what == "zdo":
        return kind == "annce"
    if what == "cmd_id":
        return (FRAMES[kind][2] if kind != "annce" else 0x0006) == arg
    return True


# ---------------------------------------------------------------- histories

@st.composite
def listener_st(draw, n):
    spec = {"kind": draw(st.sampled_from(["future", "callback", "callback"])), "src": draw(st.sampled_from([0, 1, 2])),
            "filters": draw(st.lists(pattern_st(), min_size=1, max_size=3))}
    if spec["kind"] == "callback":
        spec["does"] = draw(st.sampled_from(["ok", "ok", "raise", "async", "async_raise", "register", "remove", "remove",
                                             "cancel"]))
        spec["target"] = draw(st.integers(0, 7))
    return spec


@st.composite
def history(draw):
    ops = []
    n = 0
    for _ in range(draw(st.integers(2, 18))):
        k = draw(st.sampled_from(["add", "add", "frame", "frame", "frame", "exit", "cancel", "again"]))
        if k == "add" or (n == 0 and k != "frame"):
            ops.append(["add", draw(listener_st(n))])
            n += 1
        elif k == "frame":
            ops.append(["frame", draw(st.sampled_from([1, 1, 2])), *draw(frame_st())])
        elif k == "again":
            ops.append(["twin", draw(st.integers(0, n - 1))])
            n += 1
        else:
            ops.append([k, draw(st.integers(0, n - 1))])
    return {"ops": ops}


class Entry:
    def __init__(self, spec):
        self.spec = spec
        self.on = False
        self.done = False           # the one-shot has resolved or was cancelled
        self.calls = []
        self.expected = []
        self.future = None
        self.cm = None
        self.fresh = False          # registered while the current frame was being handled


def run_history(case):
    async def main(loop):
        app = fakes.make_app()
        devs = {}
        events = []
        for n in (1, 2):
            d = fakes.add_device(app, n, 0x1000 + n, eps={1: (260, 0x0103, [0], [6, 8, 0x19])})
            devs[n] = d

            class L:
                def __init__(self, n, c):
                    self.n, self.c = n, c

                def cluster_command(self, tsn, cmd, args):
                    events.append([self.n, self.c, tsn])

                def general_command(self, hdr, args):
                    events.append([self.n, self.c, hdr.tsn])
            for c in (6, 8, 0x19):
                d.endpoints[1].out_clusters[c].add_listener(L(n, c))

            class Z:
                def __init__(self, n):
                    self.n = n

                def zdo_match_desc_req(self, *args):
                    events.append([self.n, "zdo", args[2].tsn if hasattr(args[2], "tsn") else None])

                def __getattr__(self, name):
                    raise AttributeError(name)
            d.zdo.add_listener(Z(n))
        entries = []
        orders = {0: [], 1: [], 2: []}       # registered, in order
        tsn = [0]
        current = []
        tolerated = []

        def enter(spec, shared=None):
            e = Entry(spec)
            entries.append(e)
            src = zigpy.listeners.ANY_DEVICE if spec["src"] == 0 else devs[spec["src"]]
            filters = [make_pattern(p) for p in spec["filters"]] if shared is None else shared.made
            e.made = filters
            if current:
                # registered by a callback: only later frames are of interest to it
                now = current[0]
                filters = [lambda hdr, cmd, g=g, now=now: hdr.tsn != now and _apply(g, hdr, cmd) for g in filters]
            if spec["kind"] == "future":
                e.cm = app.wait_for_response(src, filters)
                e.future = e.cm.__enter__()
            else:
                e.cm = app.callback_for_response(src, filters, callback(e))
                e.cm.__enter__()
            e.on = True
            orders[spec["src"]].append(e)
            return e

        def _apply(g, hdr, cmd):
            if isinstance(g, f.CommandSchema):
                return isinstance(cmd, f.CommandSchema) and cmd.matches(g)
            return g(hdr, cmd)

        def leave(e):
            if e.on:
                e.on = False
                orders[e.spec["src"]].remove(e)
                e.cm.__exit__(None, None, None)

        def callback(e):
            spec = e.spec

            def cb(hdr, cmd):
                check(e.on, "a listener was called after it had been removed")
                e.calls.append(hdr.tsn)
                does = spec["does"]
                if does == "raise":
                    raise core.injected(RuntimeError, "callback")
                if does in ("async", "async_raise"):
                    return job(e, hdr.tsn, does)
                if does == "register" and len(entries) < 40:
                    enter({"kind": "callback" if spec["target"] % 2 else "future", "src": spec["target"] % 3,
                           "filters": spec["filters"], "does": "ok", "target": 0})
                elif does in ("remove", "cancel") and entries:
                    x = entries[spec["target"] % len(entries)]
                    if does == "remove":
                        leave(x)
                    elif x.future is not None:
                        x.future.cancel()
                return None
            return cb

        async def job(e, tsn_, does):
            e.jobs = getattr(e, "jobs", 0) + 1
            await asyncio.sleep(0)
            if does == "async_raise":
                raise core.injected(RuntimeError, "async callback")

        used = set()
        for op in case["ops"]:
            if op[0] == "add":
                enter(op[1])
            elif op[0] == "twin":
                e = entries[op[1] % len(entries)]
                enter(e.spec, shared=e)
            elif op[0] == "exit":
                leave(entries[op[1] % len(entries)])
            elif op[0] == "cancel":
                e = entries[op[1] % len(entries)]
                if e.future is not None:
                    e.future.cancel()
                    await vloop.settle(1)
            else:
                _, n, kind, vals = op
                tsn[0] = (tsn[0] + 1) & 0xFF
                cluster, fc, cmd, _, _ = FRAMES[kind]
                if kind == "annce":
                    data = bytes([tsn[0]]) + payload(kind, vals)
                    pkt = fakes.packet(0x1000 + n, 0x0006, data, src_ep=0, dst_ep=0, profile=0)
                else:
                    data = bytes([fc, tsn[0], cmd]) + payload(kind, vals)
                    pkt = fakes.packet(0x1000 + n, cluster, data)
                # the reference: what each listener will see, effects included
                plan = []
                on = {id(e): e.on for e in entries}
                done = {id(e): e.future.done() if e.future is not None else False for e in entries}
                snapshot = list(orders[0]) + list(orders[n])
                count = len(entries)
                for e in snapshot:
                    if not on[id(e)]:
                        continue
                    if not any(ref_match(p, kind, vals) for p in e.spec["filters"]):
                        continue
                    if e.spec["kind"] == "future":
                        if done[id(e)]:
                            continue
                        plan.append(e)
                        break
                    plan.append(e)
                    does = e.spec["does"]
                    if does == "register" and count < 40:
                        count += 1
                    elif does in ("remove", "cancel"):
                        i = e.spec["target"] % count
                        if i < len(entries):
                            x = entries[i]
                            if does == "remove":
                                on[id(x)] = False
                            elif x.future is not None:
                                done[id(x)] = True
                before = {id(e): (len(e.calls), e.future.done() if e.future is not None else None) for e in entries}
                events.clear()
                current[:] = [tsn[0]]
                app.packet_received(pkt)
                current.clear()
                for e in list(entries):
                    if id(e) not in before:
                        check(not e.calls, "a listener registered for later frames got the current one")
                        continue
                    calls, was = before[id(e)]
                    fired = len(e.calls) - calls
                    if e.future is not None:
                        fired = int(e.future.done() and not e.future.cancelled() and not was)
                    check_eq(fired, int(any(e is x for x in plan)),
                             f"how often listener {entries.index(e)} ({e.spec}) fired for {kind}{vals}")
                    if fired:
                        used.add(e.spec["kind"])
                        if e.future is not None:
                            hdr, got = e.future.result()
                            check_eq(hdr.tsn, tsn[0], "the frame the one-shot listener got")
                # and the frame was processed
                if kind == "annce":
                    pass
                elif kind == "report":
                    check_eq(events, [[n, 6, tsn[0]]], f"events of the {kind} frame")
                    check_eq(devs[n].endpoints[1].out_clusters[6].get("on_off"), vals[0] & 1, "the reported attribute")
                else:
                    check_eq(events, [[n, cluster, tsn[0]]], f"events of the {kind} frame")
                if kind == "annce" or True:
                    await vloop.settle(4)
        for e in entries:
            if e.spec.get("does", "").startswith("async"):
                check_eq(getattr(e, "jobs", 0), len(e.calls), "asynchronous callbacks that were run")
        for e in entries:
            leave(e)
        left = [x for q in app._req_listeners.values() for x in q]
        check_eq(left, [], "listeners left behind")
        bad = [x for x in loop.errors if "async callback" not in repr(x)]
        check_eq(bad, [], "unhandled errors")
        return {"labels": sorted(used), "nontrivial": bool(used)}
    return vloop.run(main)


# ---------------------------------------------------------------- matching of structs

class Inner(t.Struct):
    a: t.uint8_t
    b: t.uint16_t


class Middle(t.Struct):
    x: t.uint8_t
    inner: Inner
    items: t.LVList[t.uint8_t]


class Outer(t.Struct):
    kind: t.uint8_t
    mid: Middle
    name: t.CharacterString
    inner: Inner


class Wider(Outer):
    extra: t.uint8_t


def maybe(s):
    return st.one_of(st.none(), s)


def struct_st():
    small = st.integers(0, 2)
    inner = st.fixed_dictionaries({"a": maybe(small), "b": maybe(small)})
    mid = st.fixed_dictionaries({"x": maybe(small), "inner": maybe(inner),
                                 "items": maybe(st.lists(small, max_size=2))})
    return st.fixed_dictionaries({"kind": maybe(small), "mid": maybe(mid), "name": maybe(st.sampled_from(["", "a"])),
                                  "inner": maybe(inner)})


@st.composite
def match_case(draw):
    a = draw(struct_st())
    b = draw(st.one_of(struct_st(), st.just(a)))
    if draw(st.booleans()):
        # make the pattern a part of the subject
        b = thin(draw, a)
    ca, cb = draw(st.sampled_from([["Outer", "Outer"]] * 4 + [["Wider", "Outer"], ["Outer", "Wider"], ["Wider", "Wider"],
                                                              ["Outer", "Other"]]))
    return {"subject": a, "pattern": b, "cls": [ca, cb], "extra": [draw(maybe(st.integers(0, 1))),
                                                                   draw(maybe(st.integers(0, 1)))]}


def thin(draw, d):
    out = {}
    for k, v in d.items():
        if draw(st.booleans()):
            out[k] = None
        elif isinstance(v, dict):
            out[k] = thin(draw, v)
        else:
            out[k] = v
    return out


def build(cls, d):
    kw = {}
    for k, v in d.items():
        if v is None:
            continue
        if k == "inner":
            v = build(Inner, v)
        elif k == "mid":
            v = build(Middle, v)
        kw[k] = v
    return cls(**kw)


def ref_matches(a, b):
    for k, v in b.items():
        if v is None:
            continue
        if isinstance(v, dict):
            if a.get(k) is None or not ref_matches(a[k], v):
                return False
        elif a.get(k) != v:
            return False
    return True


def run_match(case):
    ca, cb = case["cls"]
    classes = {"Outer": Outer, "Wider": Wider}
    a, b = dict(case["subject"]), dict(case["pattern"])
    if ca == "Wider":
        a["extra"] = case["extra"][0]
    if cb == "Wider":
        b["extra"] = case["extra"][1]
    subject = build(classes[ca], a)
    if cb == "Other":
        check(subject.matches(Inner()) is False, "a struct matches one of another type")
        return False
    pattern = build(classes[cb], b)
    if case["extra"][0] and (b.get("mid") or {}).get("items") is None:
        pattern = pattern.freeze()
    want = ref_matches(a, b)
    check_eq(bool(subject.matches(pattern)), want, "whether the struct matches the pattern")
    return want or {"nontrivial": True, "labels": ["no match"]}


CHECK = Check(
    "C27",
    rule="a listener fired; for patterns, every comparison of related types",
    assumptions=["a frame goes to the listeners in order of registration, those for any device first, up to and including "
                 "the first one-shot listener it resolves (documented design)"],
    suites=[
        Suite("history", run_history, history, quick=3000, thorough=80000),
        Suite("match", run_match, match_case, quick=4000, thorough=100000),
    ])
