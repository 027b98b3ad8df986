"""C32: events reach every listener, failures stay isolated, retries are counted."""

from __future__ import annotations

import asyncio
import functools

from hypothesis import strategies as st

import zigpy.exceptions as ze
import zigpy.util as util

from vlib import vloop
from vlib.core import Check, Suite, Violation, check_eq

# ------------------------------------------------------------------ listeners

EVENTS = ["alpha", "beta", "gamma"]

# A listener is told by number; all listeners compare equal and hash alike, since which
# listener is meant is a matter of identity


class Odd(Exception):
    """An exception of no known family."""


ERRORS = {
    "runtime": RuntimeError,
    "key": KeyError,
    "odd": Odd,
    "timeout": asyncio.TimeoutError,
    "zigbee": ze.DeliveryError,
    "stop": StopAsyncIteration,
    "assert": AssertionError,
    "attr": AttributeError,
}


class World:
    def __init__(self, spec):
        self.calls = []  # (event number, listener, event name, context, args)
        self.subject = util.ListenableMixin()
        self.listeners = [make_listener(self, i, l) for i, l in enumerate(spec)]
        self.registered = []  # numbers, in order of registration
        self.context = {}
        self.event = None

    def add(self, i):
        if i in self.registered:
            return False
        if self.context[i]:
            self.subject.add_context_listener(self.listeners[i])
        else:
            self.subject.add_listener(self.listeners[i])
        self.registered.append(i)
        return True

    def remove(self, i):
        self.subject.remove_listener(self.listeners[i])
        if i in self.registered:
            self.registered.remove(i)
            return True
        return False


def make_listener(world, number, spec):
    world_ = world

    class Listener:
        if spec["equal"]:

            def __eq__(self, other):
                return True

            def __hash__(self):
                return 1

        def __repr__(self):
            return f"<listener {number}>"

    def effects(h):
        for what, other in h["effects"]:
            other %= len(world_.listeners)
            if what == "add":
                if world_.add(other):
                    world_.touched.add(other)
            elif world_.remove(other):
                world_.touched.add(other)

    for name, h in spec["handles"].items():

        def sync(self, *args, _name=name, _h=h):
            world_.calls.append((world_.event, number, _name, args))
            effects(_h)
            if _h["raises"]:
                raise ERRORS[_h["raises"]](number)
            return ["ok", number, _name]

        async def slow(self, *args, _name=name, _h=h):
            # `begun` was recorded when called
            for _ in range(_h["hops"]):
                await asyncio.sleep(0)
            if _h["sleep"]:
                await asyncio.sleep(_h["sleep"] / 10)
            world_.calls.append((world_.event, number, _name, args))
            effects(_h)
            if _h["raises"]:
                raise ERRORS[_h["raises"]](number)
            return ["ok", number, _name]

        def early(self, *args, _name=name, _h=h):
            world_.calls.append((world_.event, number, _name, args))
            raise ERRORS[_h["raises"] or "runtime"](number)

        setattr(Listener, "on_" + name, sync)
        setattr(Listener, "async_" + name, early if h["early"] else slow)

    return Listener()


def listener_cases():
    handler = st.fixed_dictionaries(
        {
            "raises": st.sampled_from([None, None, None, *ERRORS]),
            "early": st.sampled_from([False, False, False, True]),
            "hops": st.integers(0, 3),
            "sleep": st.sampled_from([0, 0, 1, 5]),
            "effects": st.lists(
                st.tuples(st.sampled_from(["add", "remove"]), st.integers(0, 5)).map(list),
                max_size=2,
            )
            | st.just([]),
        }
    )
    listener = st.fixed_dictionaries(
        {
            "equal": st.booleans(),
            "context": st.booleans(),
            "handles": st.dictionaries(st.sampled_from(EVENTS), handler, max_size=3),
        }
    )
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, 5)).map(list),
        st.tuples(st.just("add"), st.integers(0, 5)).map(list),
        st.tuples(st.just("remove"), st.integers(0, 5)).map(list),
        st.tuples(
            st.sampled_from(["event", "async"]),
            st.sampled_from(EVENTS),
            st.lists(st.integers(0, 9), max_size=3),
        ).map(list),
    )
    return st.fixed_dictionaries(
        {
            "listeners": st.lists(listener, min_size=1, max_size=6),
            "ops": st.lists(op, min_size=1, max_size=14),
        }
    )


def run_listeners(case):
    stats = {"events": 0, "handled": 0, "failed": 0, "effects": 0}

    async def main(loop):
        w = World(case["listeners"])
        w.context = {i: l["context"] for i, l in enumerate(case["listeners"])}
        n = len(w.listeners)
        for step, op in enumerate(case["ops"]):
            if op[0] == "add":
                w.add(op[1] % n)
                continue
            if op[0] == "remove":
                w.remove(op[1] % n)
                continue

            kind, name, args = op
            before = list(w.registered)
            w.touched = set()
            w.event = step
            w.calls.clear()
            try:
                if kind == "event":
                    results = w.subject.listener_event("on_" + name, *args)
                else:
                    results = await w.subject.async_event("async_" + name, *args)
            except Exception as e:  # noqa: BLE001
                raise Violation(
                    f"a listener's failure reached whoever raised the event: {e!r}"
                ) from e
            await vloop.settle(20)

            specs = case["listeners"]
            handles = [i for i in range(n) if name in specs[i]["handles"]]
            counts = {i: 0 for i in range(n)}
            for event, i, got_name, got_args in w.calls:
                check_eq(got_name, name, "event name")
                counts[i] += 1
                want = (w.subject, *args) if w.context[i] else tuple(args)
                if len(got_args) != len(want) or any(
                    a is not b and a != b for a, b in zip(got_args, want)
                ):
                    raise Violation(f"listener {i} got {got_args}, expected {want}")
            for i in range(n):
                if i in w.touched:
                    allowed = (0, 1) if i in handles else (0,)
                elif i in before and i in handles:
                    allowed = (1,)
                else:
                    allowed = (0,)
                if counts[i] not in allowed:
                    raise Violation(
                        f"listener {i} was called {counts[i]} times for one event,"
                        f" expected {allowed}"
                    )

            def fails(i):
                h = specs[i]["handles"][name]
                return bool(h["raises"]) or (kind == "async" and h["early"])

            want = [
                ["ok", i, name]
                for i in before
                if i in handles and counts[i] and not fails(i)
            ]
            sure = [r for r in results if not (isinstance(r, list) and r[1] in w.touched)]
            want = [r for r in want if r[1] not in w.touched]
            check_eq(sure, want, "results of the event")
            stats["events"] += 1
            stats["handled"] += sum(counts.values())
            stats["failed"] += sum(1 for i in handles if counts[i] and fails(i))
            stats["effects"] += bool(w.touched)
        if loop.errors:
            raise Violation(f"errors left in the loop: {loop.errors}")

    vloop.run(main)
    return {
        "labels": [k for k, v in stats.items() if v],
        "nontrivial": stats["events"] > 0 and stats["handled"] > 1,
    }


# ------------------------------------------------------------------ retries


class Base(Exception):
    pass


class Derived(Base):
    pass


class Other(Exception):
    pass


FAIL = {
    "base": Base,
    "derived": Derived,
    "other": Other,
    "timeout": asyncio.TimeoutError,
    "delivery": ze.DeliveryError,
    "zigbee": ze.ZigbeeException,
    "value": ValueError,
}
SETS = {
    "base": (Base,),
    "derived": (Derived,),
    "two": (Derived, Other),
    "request": (ze.ZigbeeException, asyncio.TimeoutError),
    "none": (),
}


def retry_cases():
    attempt = st.tuples(
        st.sampled_from(["ok", *FAIL, "base", "derived", "timeout", "delivery"]),
        st.integers(0, 3),
    ).map(list)
    call = st.fixed_dictionaries(
        {
            "start": st.integers(0, 5),
            "plan": st.lists(attempt, min_size=1, max_size=8),
            "cancel": st.sampled_from([None, None, None, None, 1, 2, 3, 5, 8]),
        }
    )
    return st.fixed_dictionaries(
        {
            "how": st.sampled_from(["retry", "retryable", "request", "method"]),
            "set": st.sampled_from(list(SETS)),
            "tries": st.integers(1, 6),
            "delay": st.sampled_from([0, 1, 2, 7]),
            "calls": st.lists(call, min_size=1, max_size=4),
        }
    )


def run_retry(case):
    how = case["how"]
    retry_set = SETS["request"] if how == "request" else SETS[case["set"]]
    tries, delay = case["tries"], case["delay"]
    stats = {"retried": 0}

    async def main(loop):
        logs = [[] for _ in case["calls"]]

        async def work(i, *, plan):
            log = logs[i]
            attempt = len(log)
            entry = [loop.time(), None]
            log.append(entry)
            outcome, seconds = plan[min(attempt, len(plan) - 1)]
            try:
                if seconds:
                    await asyncio.sleep(seconds)
            finally:
                entry[1] = loop.time()
            if outcome == "ok":
                return (i, attempt)
            raise FAIL[outcome](f"{i}/{attempt}")

        class Thing:
            @util.retryable(retry_set, tries=tries, delay=delay)
            async def work(self, i, *, plan):
                return await work(i, plan=plan)

        decorated = None
        if how == "retryable":
            decorated = util.retryable(retry_set, tries=tries, delay=delay)(work)
        elif how == "request":
            decorated = util.retryable_request(tries=tries, delay=delay)(work)
        elif how == "method":
            decorated = Thing().work

        async def call(i, c):
            await asyncio.sleep(c["start"])
            if decorated is None:
                return await util.retry(
                    functools.partial(work, i, plan=c["plan"]),
                    retry_set,
                    tries=tries,
                    delay=delay,
                )
            return await decorated(i, plan=c["plan"])

        tasks = [asyncio.ensure_future(call(i, c)) for i, c in enumerate(case["calls"])]
        t0 = loop.time()
        ended = {}
        for i, task in enumerate(tasks):
            task.add_done_callback(lambda _, i=i: ended.__setitem__(i, loop.time() - t0))
        for i, c in enumerate(case["calls"]):
            if c["cancel"] is not None:
                # never at the moment something else happens
                loop.call_later(c["start"] + c["cancel"] - 0.5, tasks[i].cancel)
        results = await asyncio.gather(*tasks, return_exceptions=True)

        for i, c in enumerate(case["calls"]):
            now = c["start"]
            want_log, want = [], None
            stop = None if c["cancel"] is None else c["start"] + c["cancel"] - 0.5
            for attempt in range(tries):
                outcome, seconds = c["plan"][min(attempt, len(c["plan"]) - 1)]
                if stop is not None and now + seconds > stop:
                    want_log.append((now, stop))
                    now, want = stop, ("cancelled",)
                    break
                want_log.append((now, now + seconds))
                now += seconds
                if outcome == "ok":
                    want = ("ok", (i, attempt))
                    break
                want = ("error", FAIL[outcome], (f"{i}/{attempt}",))
                if not issubclass(FAIL[outcome], retry_set) or attempt == tries - 1:
                    break
                if stop is not None and now + delay > stop:
                    now, want = stop, ("cancelled",)
                    break
                now += delay
            got_log = [(a - t0, b - t0) for a, b in logs[i]]
            check_eq(got_log, want_log, f"attempts of call {i} (begin, end)")
            r = results[i]
            if isinstance(r, asyncio.CancelledError):
                got = ("cancelled",)
            elif isinstance(r, BaseException):
                got = ("error", type(r), r.args)
            else:
                got = ("ok", r)
            check_eq(got, want, f"outcome of call {i}")
            check_eq(ended[i], now, f"time at which call {i} ended")
            stats["retried"] += len(want_log) > 1
        if loop.errors:
            raise Violation(f"errors left in the loop: {loop.errors}")

    vloop.run(main)
    return {
        "labels": [how, f"tries {tries}"] + (["retried"] if stats["retried"] else []),
        "nontrivial": stats["retried"] > 0,
    }


# ------------------------------------------------------------------ combined calls

# Ways to spell the same call to f(a, b=0, *, c=None)
SPELL = ["plain", "keyword", "defaults", "mixed"]


def combine_cases():
    call = st.fixed_dictionaries(
        {
            "at": st.integers(0, 12),
            "a": st.integers(0, 1),
            "b": st.sampled_from([0, 0, 1]),
            "c": st.sampled_from([None, None, "x"]),
            "spell": st.sampled_from(SPELL),
            "cancel": st.sampled_from([None, None, None, 1, 2, 4]),
            "who": st.sampled_from([0, 0, 0, 1]),
            "again": st.sampled_from([False, False, True]),
        }
    )
    run = st.tuples(
        st.sampled_from(["ok", "ok", "base", "timeout"]),
        st.integers(0, 6),
        st.sampled_from([0, 0, 1, 2]),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "method": st.booleans(),
            "calls": st.lists(call, min_size=2, max_size=9),
            "runs": st.lists(run, min_size=1, max_size=6),
        }
    )


def spell(c):
    a, b, k = c["a"], c["b"], c["c"]
    if c["spell"] == "plain":
        return (a, b), {"c": k}
    if c["spell"] == "keyword":
        return (), {"c": k, "b": b, "a": a}
    if c["spell"] == "mixed":
        return (a,), {"b": b, "c": k}
    kw = {}
    if b != 0:
        kw["b"] = b
    if k is not None:
        kw["c"] = k
    return (a,), kw


def run_combine(case):
    stats = {"shared": 0, "cancelled": 0, "errors": 0, "runs": 0}

    async def main(loop):
        runs = []

        async def work(who, a, b, c):
            outcome, seconds, cleanup = case["runs"][len(runs) % len(case["runs"])]
            run = {
                "key": (who, a, b, c),
                "begin": loop.time() - t0,
                "end": None,
                "outcome": outcome,
                "n": len(runs),
                "whole": False,
            }
            runs.append(run)
            try:
                await asyncio.sleep(seconds + 0.25)
                run["whole"] = True
                run["end"] = loop.time() - t0
            except asyncio.CancelledError:
                run["end"] = loop.time() - t0
                if cleanup:
                    await asyncio.sleep(cleanup)
                raise
            if outcome == "ok":
                return ["result", run["n"]]
            raise FAIL[outcome](run["n"])

        @util.combine_concurrent_calls
        async def function(a, b=0, *, c=None):
            return await work(0, a, b, c)

        class Thing:
            def __init__(self, n):
                self.n = n

            @util.combine_concurrent_calls
            async def method(self, a, b=0, *, c=None):
                return await work(self.n, a, b, c)

        things = [Thing(0), Thing(1)]

        def who(c):
            return c["who"] if case["method"] else 0

        segments = []  # [call, arrival, outcome or None while waiting, end]

        async def call(i, c):
            await asyncio.sleep(c["at"])
            args, kwargs = spell(c)
            f = things[c["who"]].method if case["method"] else function
            # perhaps once more, the moment the first call ended
            for _ in range(1 + c["again"]):
                segment = [i, loop.time() - t0, None, None]
                segments.append(segment)
                try:
                    segment[2] = await f(*args, **kwargs)
                except asyncio.CancelledError as e:
                    segment[2] = e
                    raise
                except Exception as e:  # noqa: BLE001
                    segment[2] = e
                finally:
                    segment[3] = loop.time() - t0

        t0 = loop.time()
        tasks = [asyncio.ensure_future(call(i, c)) for i, c in enumerate(case["calls"])]
        for c, task in zip(case["calls"], tasks):
            if c["cancel"] is not None:
                loop.call_later(c["at"] + c["cancel"] - 0.5, task.cancel)
        await asyncio.gather(*tasks, return_exceptions=True)
        await asyncio.sleep(100)

        # never two runs for identical calls at a time
        for x in runs:
            if x["end"] is None:
                raise Violation(f"run {x} never ended")
            for y in runs:
                if x["n"] < y["n"] and x["key"] == y["key"] and y["begin"] < x["end"]:
                    raise Violation(f"identical calls ran side by side: {x} and {y}")

        takers = {r["n"]: 0 for r in runs}
        for i, at, r, end in segments:
            c = case["calls"][i]
            key = (who(c), c["a"], c["b"], c["c"])
            stop = None if c["cancel"] is None else c["at"] + c["cancel"] - 0.5
            mine = [x for x in runs if x["key"] == key and x["begin"] <= at < x["end"]]
            if not mine:
                raise Violation(f"call {i} {key} at {at} was served by no run: {runs}, got {r!r}")
            run = mine[0]
            takers[run["n"]] += 1
            if isinstance(r, asyncio.CancelledError):
                if stop is None:
                    raise Violation(
                        f"call {i} was cancelled although nobody cancelled it, only others"
                    )
                if not stop <= end <= stop + 2:
                    raise Violation(f"call {i}, cancelled at {stop}, ended at {end}")
                stats["cancelled"] += 1
                continue
            if stop is not None and at < stop < run["end"]:
                raise Violation(f"call {i} outlived its cancellation: {r!r}")
            if not run["whole"]:
                raise Violation(f"call {i} ended with {r!r} before its run did: {run}")
            check_eq(end, run["end"], f"time at which call {i} ended")
            if run["outcome"] == "ok":
                check_eq(r, ["result", run["n"]], f"result of call {i}")
            else:
                stats["errors"] += 1
                if type(r) is not FAIL[run["outcome"]] or r.args != (run["n"],):
                    raise Violation(
                        f"call {i} ended with {r!r}, its run {run['n']} with {run['outcome']}"
                    )
        for n, count in takers.items():
            if not count:
                raise Violation(f"run {runs[n]} was asked for by no call")
        stats["shared"] += sum(v > 1 for v in takers.values())
        stats["runs"] += len(runs)
        if loop.errors:
            raise Violation(f"errors left in the loop: {loop.errors}")

    vloop.run(main)
    return {
        "labels": [k for k, v in stats.items() if v],
        "nontrivial": stats["shared"] > 0,
    }


CHECK = Check(
    "C32",
    rule=(
        "events handled by more than one listener; calls with at least one retry; runs"
        " shared by at least two calls"
    ),
    assumptions=[
        "a listener registers once",
        "a listener added or removed while an event is delivered may or may not get it",
        "a listener does not raise cancellation",
        "what happens to a combined run once every caller was cancelled is left open",
    ],
    suites=[
        Suite("listeners", run_listeners, strategy=listener_cases, quick=4000, thorough=120000),
        Suite("retry", run_retry, strategy=retry_cases, quick=4000, thorough=120000),
        Suite("combine", run_combine, strategy=combine_cases, quick=4000, thorough=120000),
    ],
)
