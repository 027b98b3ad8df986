"""Deterministic asyncio loop with virtual time, plus a driver."""
from __future__ import annotations

import asyncio
import contextlib
import selectors

from .core import Violation


class Deadlock(Violation):
    pass


class Livelock(Violation):
    pass


class _VSelector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        return self.loop._vselect(super().select, timeout)


class VLoop(asyncio.SelectorEventLoop):
    """Time only passes when nothing is ready.  run_in_executor runs inline."""

    def __init__(self, max_time=10**7, max_steps=200_000):
        sel = _VSelector()
        super().__init__(sel)
        sel.loop = self
        self._vtime = 1000.0
        self.max_time = self._vtime + max_time
        self.max_steps = max_steps
        self._steps = 0
        self.errors = []
        self.on_advance = None
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self._vtime

    def _vselect(self, real, timeout):
        self._steps += 1
        if self._steps > self.max_steps:
            self._steps = 0
            raise Livelock(f"no end after {self.max_steps} loop iterations")
        if timeout is None:
            raise Deadlock("nothing left that could make progress (lost wake-up)")
        if timeout > 0:
            # a hair more than the timer, so that the timer is due for certain
            self._vtime += timeout
            if self.on_advance is not None:
                self.on_advance(self._vtime)
            if self._vtime > self.max_time:
                self.max_time = float("inf")
                raise Deadlock("virtual time limit exceeded")
        return []

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def go():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as e:  # noqa: BLE001
                fut.set_exception(e)
            else:
                fut.set_result(r)

        self.call_soon(go)
        return fut

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)


def run(main, *, max_time=10**7, max_steps=200_000, setup=None):
    """Run coroutine function main(loop) to its end; returns its result.

    Tasks left over are cancelled and awaited."""
    loop = VLoop(max_time=max_time, max_steps=max_steps)
    try:
        asyncio.set_event_loop(loop)
        if setup is not None:
            setup(loop)
        try:
            return loop.run_until_complete(main(loop))
        finally:
            with contextlib.suppress(BaseException):
                cleanup(loop)
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def cleanup(loop):
    loop.max_time = float("inf")
    loop.max_steps = loop._steps + 50_000
    for _ in range(20):
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not tasks:
            break
        for t in tasks:
            t.cancel()
        loop.run_until_complete(asyncio.wait(tasks, timeout=1))
    with contextlib.suppress(Exception):
        loop.run_until_complete(loop.shutdown_asyncgens())


async def settle(n=30):
    """Let everything that can run without time passing run."""
    for _ in range(n):
        await asyncio.sleep(0)


async def quiesce(loop, t=0.0):
    """Run until nothing is ready at the current virtual time (then + t seconds)."""
    await asyncio.sleep(t)
    # a zero-length timer is processed after everything ready now; repeat while work remains
    for _ in range(10_000):
        await asyncio.sleep(0)
        if not [h for h in loop._ready if not h._cancelled]:
            return
