"""C07: dynamically bounded priority semaphore, its users, and rescheduled timeouts."""
from __future__ import annotations

import asyncio
import contextlib

from vlib import core
from vlib.core import Check, Suite, Violation, check, check_eq, short
from vlib import fakes, vloop

import zigpy.datastructures as ds
import zigpy.types as t

from hypothesis import strategies as st


# ------------------------------------------------------------------- the semaphore
class Actor:
    def __init__(self, n, prio):
        self.n, self.prio = n, prio
        self.state = "new"
        self.arrived = None
        self.cancelled = False
        self.leave = None
        self.task = None

    def better(self, other):
        return (-self.prio, self.arrived) < (-other.prio, other.arrived)

    def __repr__(self):
        return f"<actor {self.n} prio={self.prio} {self.state}>"


class World:
    def __init__(self, sem, limit, settled):
        self.sem, self.limit = sem, limit
        self.actors = []
        self.limits = [limit]       # limits in force since the last quiescent point
        self.stable = []            # waiters at the last quiescent point
        self.entered = []           # entries since then
        self.clock = 0
        self.max_inside = 0

    def inside(self):
        return [a for a in self.actors if a.state == "inside"]

    def waiting(self):
        return [a for a in self.actors if a.state == "waiting"]

    async def actor(self, a, how):
        sem = self.sem
        a.leave = asyncio.Event()
        a.arrived = self.clock = self.clock + 1
        a.state = "waiting"
        try:
            if how == "acquire":
                r = await sem.acquire(a.prio)
                check(r is True, "acquire returned %r", r)
                cm = None
            elif how == "plain":
                cm = sem
                await cm.__aenter__()
            else:
                cm = sem(priority=a.prio)
                await cm.__aenter__()
        except asyncio.CancelledError:
            a.state = "gone"
            check(a.cancelled, "%r was cancelled by the semaphore", a)
            raise
        a.state = "inside"
        self.entered.append(a)
        n = len(self.inside())
        check(n <= max(self.limits), "%d inside although the limit was %s", n, self.limits)
        try:
            await a.leave.wait()
        finally:
            if a.state == "inside":
                a.state = "gone"
                if how == "acquire":
                    sem.release()
                else:
                    await cm.__aexit__(None, None, None)

    def quiescent(self):
        for a in self.actors:
            if a.task.done() and not a.task.cancelled() and a.task.exception() is not None:
                raise a.task.exception()
        ins, wai = self.inside(), self.waiting()
        live = [a for a in wai if not a.cancelled]
        check(not [a for a in wai if a.cancelled], "cancelled waiters still wait: %s", wai)
        check(not live or len(ins) >= self.limit,
              "%d of %d places used, yet %s wait", len(ins), self.limit, live)
        for x in self.entered:
            for w in self.stable:
                check(w not in live or not w.better(x), "%r waited longer than %r with higher precedence", w, x)
        check_eq(self.sem.max_value, self.limit, "max_value")
        check_eq(self.sem.value, self.limit - len(ins), "value")
        check_eq(self.sem.locked(), len(ins) >= self.limit, "locked()")
        self.max_inside = max(self.max_inside, len(live))
        self.stable, self.entered, self.limits = live, [], [self.limit]


def run_sem(case):
    lock = case["lock"]
    stats = {}

    async def main(loop):
        limit = 1 if lock else case["limit"]
        sem = ds.PriorityLock() if lock else ds.PriorityDynamicBoundedSemaphore(limit)
        w = World(sem, limit, case["settled"])
        ref_wait, ref_in = [], set()    # exact model, meaningful when every step settles

        def ref_fill():
            while ref_wait and len(ref_in) < w.limit:
                b = min(ref_wait, key=lambda a: (-a.prio, a.n))
                ref_wait.remove(b)
                ref_in.add(b)

        for op in case["ops"]:
            k = op[0]
            if k == "acq":
                a = Actor(len(w.actors), op[1] if op[2] != "plain" else 0)
                w.actors.append(a)
                a.task = asyncio.ensure_future(w.actor(a, op[2]))
                ref_wait.append(a)
            elif k == "rel":
                ins = w.inside()
                if ins:
                    a = ins[op[1] % len(ins)]
                    ref_in.discard(a)
                    if op[2]:
                        a.leave.set()
                    else:               # at once, from outside the task
                        a.state = "gone"
                        w.sem.release()
                        a.leave.set()
            elif k == "over":
                # nothing is inside and nothing waits: one release too many is refused
                if case["settled"] and not w.inside():
                    try:
                        sem.release()
                    except ValueError:
                        pass
                    else:
                        raise Violation("a release without an acquire was accepted")
            elif k == "can":
                live = [a for a in w.actors if not a.task.done() and a.state in op[2]]
                if live:
                    a = live[op[1] % len(live)]
                    a.cancelled = True
                    a.task.cancel()
                    ref_in.discard(a)
                    if a in ref_wait:
                        ref_wait.remove(a)
            elif k == "max":
                if lock:
                    try:
                        sem.max_value = op[1]
                    except ValueError:
                        pass
                    else:
                        raise Violation("the limit of a lock was changed")
                elif op[1] < 0:
                    try:
                        sem.max_value = op[1]
                    except ValueError:
                        pass
                    else:
                        raise Violation("a negative limit was accepted")
                else:
                    sem.max_value = op[1]
                    w.limit = op[1]
                    w.limits.append(op[1])
            elif k == "run":
                for _ in range(op[1]):
                    await asyncio.sleep(0)
            if k == "settle" or case["settled"]:
                await vloop.settle(12)
                w.quiescent()
            if case["settled"]:
                ref_fill()
                check(set(w.inside()) == ref_in, "inside: %s, expected %s", w.inside(),
                      sorted(ref_in, key=lambda a: a.n))
        await vloop.settle(12)
        w.quiescent()
        # everything drains in the end
        if not lock:
            sem.max_value = w.limit = max(1, w.limit)
            w.limits.append(w.limit)
        for _ in range(len(w.actors) + 1):
            await vloop.settle(12)
            w.quiescent()
            ins = w.inside()
            if not ins:
                break
            ins[0].leave.set()
        check(not w.waiting() and not w.inside(), "left over: %s", w.waiting())
        check_eq(sem.value, w.limit, "value at the end")
        stats["n"] = len(w.actors)
        stats["w"] = w.max_inside
    vloop.run(main)
    return {"labels": ["settled" if case["settled"] else "free", "lock" if lock else "sem"],
            "nontrivial": stats["n"] >= 2 and stats["w"] >= 1}


PRIO = st.integers(-1, 2)
OPS = st.lists(st.one_of(
    st.tuples(st.just("acq"), PRIO, st.sampled_from(["call", "acquire", "call", "plain"])),
    st.tuples(st.just("acq"), PRIO, st.sampled_from(["call", "acquire", "call"])),
    st.tuples(st.just("rel"), st.integers(0, 5), st.booleans()),
    st.tuples(st.just("rel"), st.integers(0, 5), st.just(False)),
    st.tuples(st.just("can"), st.integers(0, 5),
              st.sampled_from([["waiting"], ["waiting"], ["waiting", "inside", "new"]])),
    st.tuples(st.just("max"), st.one_of(st.integers(0, 3), st.integers(-2, 6))),
    st.tuples(st.just("run"), st.integers(1, 3)),
    st.just(("settle",)), st.just(("settle",)), st.just(("over",)),
).map(list), min_size=3, max_size=24)


@st.composite
def bursts(draw):
    """Full places, settled; then several things within one iteration of the loop, again and again."""
    ops = [["acq", draw(PRIO), "call"] for _ in range(draw(st.integers(2, 6)))] + [["settle"]]
    hit = st.one_of(
        st.tuples(st.just("rel"), st.integers(0, 3), st.just(False)),
        st.tuples(st.just("can"), st.integers(0, 3), st.just(["waiting"])),
        st.tuples(st.just("max"), st.integers(0, 5)),
        st.tuples(st.just("acq"), PRIO, st.sampled_from(["call", "acquire"])),
        st.tuples(st.just("run"), st.just(1))).map(list)
    for _ in range(draw(st.integers(1, 3))):
        ops += draw(st.lists(hit, min_size=2, max_size=6)) + [["settle"]]
    return ops


def sem_cases():
    return st.fixed_dictionaries({"limit": st.integers(0, 3), "settled": st.sampled_from([False, False, True]),
                                  "lock": st.sampled_from([False, False, False, True]), "ops": core.one_of(OPS, bursts())})


# --------------------------------------------------------- requests through the radio
class LimitedRadio(fakes.Radio):
    """Like the radio libraries: sending takes place inside the application's limit."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.events = []

    async def request(self, device, *a, **kw):
        self.events.append(("dev", device.nwk))
        self.on_dev(device, a, kw)
        return await super().request(device, *a, **kw)

    async def send_packet(self, packet):
        self.on_wait(packet)
        try:
            async with self._limit_concurrency(priority=packet.priority):
                await self.on_send(packet)
        finally:
            self.on_done(packet)


def run_requests(case):
    stats = {"waits": 0}

    async def main(loop):
        limit = case["limit"]
        app = fakes.make_app(LimitedRadio, max_concurrent_requests=limit)
        app.state.node_info.nwk = t.NWK(0)
        fakes.add_coordinator(app)
        devs = [fakes.add_device(app, i + 1, 0x1000 + i) for i in range(3)]
        per_dev = devs[0]._concurrent_requests_semaphore.max_value
        check_eq(per_dev, 1, "documented limit per device")
        sending = {}             # request -> packet
        radio_wait = {}          # request -> (arrival, prio)
        dev_wait = {}            # request -> (arrival, prio, device)
        dev_in = {}
        reqs = {}

        def by_data(b):
            return b[0]

        def on_dev(device, a, kw):
            i = by_data(kw["data"])
            r = reqs[i]
            check_eq(kw.get("priority"), r["prio"], "priority handed on")
            arrived, prio, d = dev_wait.pop(i)
            busy = [j for j, x in dev_in.items() if x == r["dev"]]
            check(len(busy) < per_dev, "device %d has %d requests in progress", r["dev"], len(busy) + 1)
            dev_in[i] = r["dev"]
            entered.append((i, dev_wait, d, loop.time(), prio, arrived))

        def on_wait(packet):
            i = by_data(packet.data.serialize())
            check_eq(int(packet.priority), reqs[i]["prio"], "priority of the packet")
            radio_wait[i] = (loop.time(), reqs[i]["prio"], None)

        async def on_send(packet):
            i = by_data(packet.data.serialize())
            arrived, prio, _ = radio_wait.pop(i)
            check(len(sending) < limit, "%d packets in the radio", len(sending) + 1)
            sending[i] = packet
            entered.append((i, radio_wait, None, loop.time(), prio, arrived))
            await asyncio.sleep(reqs[i]["send"])
            if reqs[i]["fail"]:
                raise fakes.zigpy.exceptions.DeliveryError("no")

        def on_done(packet):
            i = by_data(packet.data.serialize())
            radio_wait.pop(i, None)
            sending.pop(i, None)

        app.on_dev, app.on_wait, app.on_send, app.on_done = on_dev, on_wait, on_send, on_done
        cancelled = set()
        entered = []

        async def one(i, r):
            await asyncio.sleep(r["at"])
            d = devs[r["dev"] % 3]
            if r["kind"] == "broadcast":
                await app.broadcast(260, 6, 1, 1, 0, 0, i, bytes([i]), priority=r["prio"])
                return
            if r["kind"] == "multicast":
                await app.mrequest(5, 260, 6, 1, i, bytes([i]), priority=r["prio"])
                return
            dev_wait[i] = (loop.time(), r["prio"], r["dev"])
            try:
                await d.request(260, 6, 1, 1, i, bytes([i]), expect_reply=r["kind"] == "request",
                                timeout=r["timeout"], priority=r["prio"])
            finally:
                dev_wait.pop(i, None)
                dev_in.pop(i, None)

        for i, r in enumerate(case["reqs"]):
            reqs[i] = dict(r)
            reqs[i]["dev"] = r["dev"] % 3
        tasks = {i: asyncio.ensure_future(one(i, r)) for i, r in reqs.items()}

        async def cancel(i, at):
            await asyncio.sleep(at)
            cancelled.add(i)
            tasks[i].cancel()
        cs = [asyncio.ensure_future(cancel(i % len(reqs), at)) for i, at in case["cancel"]]

        # between any two instants of virtual time nothing may wait while there is room
        def idle(now):
            stats["waits"] += bool(radio_wait) + bool(dev_wait)
            for i, waiters, d, when, prio, arrived in entered:
                for j, (arr, p, dj) in waiters.items():
                    if dj == d and arr < when and (-p, arr) < (-prio, arrived):
                        stats["bad"] = f"{i} (priority {prio}) went ahead of {j} (priority {p})"
            entered.clear()
            if radio_wait and len(sending) < limit:
                stats["bad"] = f"packets {sorted(radio_wait)} wait with {len(sending)} of {limit} in the radio"
            for d in range(3):
                ws = [i for i, (_, _, x) in dev_wait.items() if x == d]
                if ws and not [j for j, x in dev_in.items() if x == d]:
                    stats["bad"] = f"requests {ws} wait for idle device {d}"
        loop.on_advance = idle
        res = await asyncio.gather(*tasks.values(), return_exceptions=True)
        await asyncio.gather(*cs)
        loop.on_advance = None
        check("bad" not in stats, "%s", stats.get("bad"))
        for i, e in enumerate(res):
            if isinstance(e, Violation):
                raise e
            if isinstance(e, asyncio.CancelledError):
                check(i in cancelled, "request %d was cancelled", i)
            elif reqs[i]["fail"] and i not in cancelled:
                check(isinstance(e, fakes.zigpy.exceptions.DeliveryError), "failing send gave %r", e)
        check_eq(app._concurrent_requests_semaphore.value, limit, "free places in the radio at the end")
        for d in devs:
            check_eq(d._concurrent_requests_semaphore.value, per_dev, "free places of the device at the end")
            check(not d._pending, "pending requests left: %s", d._pending)
    vloop.run(main)
    return {"labels": [f"limit{case['limit']}"], "nontrivial": stats["waits"] > 0}


def request_cases():
    T = st.sampled_from([0, 0, 0.5, 1, 1, 2, 3])
    req = st.fixed_dictionaries({
        "at": T, "dev": st.sampled_from([0, 0, 1, 2]), "prio": PRIO,
        "send": st.sampled_from([0, 0.25, 1, 1.5, 4]), "timeout": st.sampled_from([1, 2.5, 5]),
        "fail": st.sampled_from([False, False, False, True]),
        "kind": st.sampled_from(["request", "request", "oneway", "broadcast", "multicast"])})
    return st.fixed_dictionaries({
        "limit": st.integers(1, 3), "reqs": st.lists(req, min_size=2, max_size=9),
        "cancel": st.lists(st.tuples(st.integers(0, 8), st.sampled_from([0, 0.25, 0.5, 1, 1.25, 2, 2.5, 4])
                                     ).map(list), max_size=3)})


# -------------------------------------------------------------- rescheduled timeouts
def run_timeout(case):
    async def main(loop):
        fired = []
        again = list(case["again"])

        def cb():
            fired.append(loop.time())
            if again:
                d = again.pop(0)
                if d is not None:
                    to.reschedule(d)
                    due.append(loop.time() + d)
        due = []
        to = ds.ReschedulableTimeout(cb)
        expect = []
        for op, x in case["ops"]:
            if op == "wait":
                end = loop.time() + x
                while due and due[-1] <= end:
                    at = due[-1]
                    await asyncio.sleep(at - loop.time())
                    await vloop.settle(3)
                    expect.append(at)
                    check_eq([round(v, 6) for v in fired], [round(v, 6) for v in expect], "firing times")
                    if due[-1] == at:
                        due.clear()
                await asyncio.sleep(end - loop.time())
                await vloop.settle(3)
                check_eq([round(v, 6) for v in fired], [round(v, 6) for v in expect], "firing times")
            elif op == "set":
                to.reschedule(x)
                due[:] = [loop.time() + x]
            else:
                to.cancel()
                due.clear()
        while due:
            at = due[-1]
            await asyncio.sleep(at - loop.time())
            await vloop.settle(3)
            expect.append(at)
            if due[-1] == at:
                due.clear()
        await asyncio.sleep(1000)
        check_eq([round(v, 6) for v in fired], [round(v, 6) for v in expect], "firing times")
    vloop.run(main)
    return {"nontrivial": any(o == "set" for o, _ in case["ops"])}


def timeout_cases():
    D = st.sampled_from([0.5, 1, 2, 3, 5, 8, 13, 0.02, 1.03, 1.97, 5.004])
    return st.fixed_dictionaries({
        "ops": st.lists(st.one_of(st.tuples(st.just("set"), D), st.tuples(st.just("wait"), D),
                                  st.tuples(st.just("cancel"), st.just(0))).map(list), min_size=2, max_size=14),
        "again": st.lists(st.one_of(st.none(), D), max_size=3)})


CHECK = Check(
    id="C07",
    rule="sem: operation sequences (acquire with a priority, release, cancel, resize, at settled and unsettled "
         "points) on the semaphore and lock against a reference queue; non-trivial when something waited. "
         "requests: requests, broadcasts and multicasts of several priorities to several devices through a radio "
         "that sends inside the application's limit, with cancellations and failures, in virtual time; non-trivial "
         "when something waited. timeout: reschedule/cancel/wait sequences; non-trivial when a timeout was set.",
    assumptions=["between a place being granted and the waiter running, no order among simultaneous newcomers is demanded"],
    suites=[
        Suite("sem", run_sem, strategy=sem_cases, quick=12000, thorough=1_500_000),
        Suite("requests", run_requests, strategy=request_cases, quick=2400, thorough=200_000),
        Suite("timeout", run_timeout, strategy=timeout_cases, quick=2400, thorough=100_000),
    ],
)
