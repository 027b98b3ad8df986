"""C26: diagnostic counters never lose or invent counts."""
from __future__ import annotations

from vlib.core import Check, Suite, check, check_eq

import zigpy.state as state

from hypothesis import strategies as st

COLS = ["counters", "broadcast_counters", "device_counters", "group_counters"]
GROUPS = ["ezsp", "", 0, 3, "a b"]
NAMES = ["rx", "tx", 0x8031, ""]
TAGS = ["t1", "t2", 7]


def reading():
    return st.one_of(st.integers(0, 12), st.integers(0, 300), st.sampled_from([0xFFFF, 0xFFFFFFFF, 2**40]))


@st.composite
def history(draw):
    ops = []
    where = st.tuples(st.sampled_from(COLS[:2] * 2 + COLS), st.sampled_from(GROUPS),
                      st.lists(st.sampled_from(TAGS), max_size=2), st.sampled_from(NAMES))
    for _ in range(draw(st.integers(1, 25))):
        kind = draw(st.sampled_from(["update", "update", "update", "increment", "reset", "replace", "group_reset",
                                     "tagged", "tagged", "touch"]))
        c, g, path, n = draw(where)
        op = [kind, c, g, path, n]
        if kind in ("update", "replace"):
            op.append(draw(reading()))
        elif kind == "increment":
            op.append(draw(st.one_of(st.none(), st.integers(0, 1000))))
        elif kind == "tagged" and not path:
            op[3] = [draw(st.sampled_from(TAGS))]
        ops.append(op)
    return {"ops": ops}


class Ref:
    """One counter: everything counted so far, the device's last reading, the restarts."""

    def __init__(self):
        self.total = self.last = self.resets = 0

    def update(self, v):
        if v < self.last:
            self.total += v
            self.resets += 1
        else:
            self.total += v - self.last
        self.last = v

    def add(self, n):
        self.total += n
        self.last += n

    def restart(self, v=0):
        self.total += v
        self.last = v
        self.resets += 1


def run(case):
    s = state.State()
    ref = {c: {} for c in COLS}         # collection -> group -> {"counters": {}, "groups": {}}
    ids = {}
    seen = []

    def new():
        return {"counters": {}, "groups": {}}

    def ref_group(c, g, path, create=True):
        cur = ref[c].setdefault(g, new())
        for p in path:
            cur = cur["groups"].setdefault(p, new())
        return cur

    def real_group(c, g, path):
        cur = getattr(s, c)[g]
        for p in path:
            cur = cur.setdefault(p, state.CounterGroup(p)) if p not in cur else cur[p]
        return cur

    def resets(node):
        for r in node["counters"].values():
            r.restart()
        for sub in node["groups"].values():
            resets(sub)

    def compare(real, node, where):
        check_eq({k.name for k in real.counters()} | {None}, set(node["counters"]) | {None}, f"counters of {where}")
        check_eq(sorted(map(repr, real.tags())), sorted(map(repr, node["groups"])), f"tags of {where}")
        check_eq(len(real), len(node["counters"]) + len(node["groups"]), f"size of {where}")
        check_eq(len(list(real.groups())), len(node["groups"]), f"groups of {where}")
        for n, r in node["counters"].items():
            k = real[n]
            check(isinstance(k, state.Counter), f"{where}[{n!r}] is no counter")
            check(ids.setdefault(("c", where, n), k) is k, f"{where}[{n!r}] is another object now")
            check_eq(k.name, n, "a counter's name")
            check_eq(k.value, r.total, f"the value of {where}[{n!r}]")
            check_eq(int(k), r.total, "the counter as a number")
            check(k == r.total and not (k == r.total + 1), "comparing the counter with its value")
            check_eq(k.reset_count, r.resets, f"restarts of {where}[{n!r}]")
            check_eq(str(k), f"{n} = {r.total}", "the counter as text")
            check(f"{n} = {r.total}" in str(real), "the group as text lacks a counter")
        for p, sub in node["groups"].items():
            k = real[p]
            check(isinstance(k, state.CounterGroup), f"{where}[{p!r}] is no group")
            check(ids.setdefault(("g", where, p), k) is k, f"{where}[{p!r}] is another object now")
            compare(k, sub, where + (p,))
    shrunk = restarted = 0
    for op in case["ops"]:
        kind, c, g, path, n = op[:5]
        if kind == "tagged":
            s_group = getattr(s, c)[g]
            node = ref_group(c, g, [])
            s_group.increment(n, *path)
            for p in path:
                node = node["groups"].setdefault(p, new())
                node["counters"].setdefault(n, Ref()).add(1)
        elif kind == "group_reset":
            real_group(c, g, path).reset()
            resets(ref_group(c, g, path))
            restarted += 1
        elif kind == "touch":
            getattr(s, c)[g]
            ref[c].setdefault(g, new())
        else:
            k = real_group(c, g, path)[n]
            r = ref_group(c, g, path)["counters"].setdefault(n, Ref())
            before = k.value
            if kind == "update":
                shrunk += op[5] < r.last
                k.update(op[5])
                r.update(op[5])
            elif kind == "increment":
                if op[5] is None:
                    k.increment()
                else:
                    k.increment(op[5])
                r.add(1 if op[5] is None else op[5])
            elif kind == "reset":
                k.reset()
                r.restart()
                restarted += 1
            else:
                k.reset_and_update(op[5])
                r.restart(op[5])
            check(k.value >= before, f"the total fell from {before} to {k.value}")
        for col in COLS:
            real = getattr(s, col)
            check_eq(sorted(repr(x.name) for x in real),
                     sorted(repr(x if x is not None else "No Name") for x in ref[col]), f"groups of {col}")
            check_eq(len(real), len(ref[col]), f"number of groups of {col}")
            for x, node in ref[col].items():
                check(ids.setdefault(("G", col, x), real[x]) is real[x], f"{col}[{x!r}] is another object now")
                compare(real[x], node, (col, x))
        seen.append(kind)
    return {"nontrivial": bool(shrunk or restarted), "labels": sorted({k for k in seen})}


@st.composite
def single(draw):
    return {"initial": draw(st.one_of(st.none(), reading())),
            "ops": draw(st.lists(st.one_of(
                st.tuples(st.sampled_from(["update", "update", "replace"]), reading()),
                st.tuples(st.just("increment"), st.integers(0, 50)),
                st.just(("reset", 0)), st.just(("negative", -1))).map(list), max_size=30))}


def run_single(case):
    k = state.Counter("x") if case["initial"] is None else state.Counter("x", case["initial"])
    r = Ref()
    r.total = r.last = case["initial"] or 0
    falls = 0
    for op, v in case["ops"]:
        if op == "update":
            falls += v < r.last
            k.update(v)
            r.update(v)
        elif op == "replace":
            k.reset_and_update(v)
            r.restart(v)
        elif op == "increment":
            k.increment(v)
            r.add(v)
        elif op == "reset":
            k.reset()
            r.restart()
        else:
            try:
                k.increment(-1)
            except AssertionError:
                pass
        check_eq((k.value, k.reset_count), (r.total, r.resets), f"value and restarts after {op} {v}")
        other = state.Counter("y", r.total)
        check(k == other and k == r.total, "counters with the same value differ")
    return falls > 0


CHECK = Check(
    "C26",
    rule="a reading fell or something was reset",
    assumptions=["tags are never also counter names; group increments carry at least one tag"],
    suites=[
        Suite("collections", run, history, quick=4000, thorough=100000),
        Suite("counter", run_single, single, quick=6000, thorough=200000),
    ])
