"""The application's database without threads: every operation is visible, can fail, or be a crash point."""
from __future__ import annotations

import asyncio
import contextlib
import os
import pathlib
import shutil
import sqlite3
import tempfile

import aiosqlite.core

from . import core, fakes, vloop  # noqa: F401

import zigpy.config as conf

_ctl = None         # the controller of the running case


class Control:
    """Sees every operation on every connection of a case."""

    def __init__(self):
        self.ops = []               # [(kind, sql)]
        self.hook = None            # fn(index, kind, sql): may raise; runs before the operation
        self.open = 0
        self.recording = True
        self.delay = 0              # seconds that every operation takes

    def before(self, kind, sql):
        i = len(self.ops)
        self.ops.append((kind, sql))
        if self.hook is not None:
            self.hook(i, kind, sql)


def _describe(fn, args):
    name = getattr(fn, "__name__", None) or type(fn).__name__
    if name in ("_execute_insert", "_execute_fetchall"):
        name = "execute"
    if isinstance(getattr(fn, "__self__", None), sqlite3.Cursor):
        name = "cursor." + name
    return name, (args[0] if args and isinstance(args[0], str) else "")


async def _execute(self, fn, *args, **kwargs):
    if not self._running or not self._connection:
        raise ValueError("Connection closed")
    kind, sql = _describe(fn, args)
    # operations run in the order of the calls, as on the real connection's thread
    try:
        if _ctl is not None:
            _ctl.before(kind, sql)
        result = fn(*args, **kwargs)
    except BaseException:
        await asyncio.sleep(_ctl.delay if _ctl is not None else 0)
        raise
    finally:
        if kind == "close" and _ctl is not None:
            _ctl.open -= 1          # the connection gives up its handle either way
    await asyncio.sleep(_ctl.delay if _ctl is not None else 0)
    return result


async def _connect(self):
    if self._connection is None:
        try:
            if _ctl is not None:
                _ctl.before("connect", "")
            self._connection = self._connector()
            # nobody else runs meanwhile, so there is no point in waiting for a lock
            self._connection.execute("PRAGMA busy_timeout = 0")
            if _ctl is not None:
                _ctl.open += 1
        except Exception:
            self._running = False
            raise
        finally:
            await asyncio.sleep(0)
    return self


def _await(self):
    return self._connect().__await__()


def _stop_running(self):
    self._running = False


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    c = aiosqlite.core.Connection
    c._execute, c._connect, c.__await__, c._stop_running = _execute, _connect, _await, _stop_running
    c.join = lambda self, timeout=None: None
    c.start = lambda self: None


@contextlib.contextmanager
def session():
    """A scratch directory and a controller."""
    global _ctl
    install()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = pathlib.Path(tempfile.mkdtemp(prefix="zigpy-db-", dir=base))
    _ctl = ctl = Control()
    try:
        yield ctl, d
    finally:
        _ctl = None
        shutil.rmtree(d, ignore_errors=True)


_template = None


def template():
    """A new, empty database of the current schema, as the code under test creates it (made once per process)."""
    global _template, _ctl
    if _template is None:
        install()
        saved, _ctl = _ctl, None
        try:
            with tempfile.TemporaryDirectory(dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None) as d:
                p = pathlib.Path(d) / "t.db"

                async def main(loop):
                    app = fakes.make_app(**{conf.CONF_DATABASE: str(p)})
                    await app._load_db()
                    await app.shutdown()
                vloop.run(main)
                _template = p.read_bytes()
        finally:
            _ctl = saved
    return _template


def snapshot(path, dest):
    """What another process would find on disk now."""
    for suffix in ("", "-wal"):
        src = pathlib.Path(str(path) + suffix)
        if src.exists():
            shutil.copyfile(src, str(dest) + suffix)
        else:
            with contextlib.suppress(FileNotFoundError):
                os.unlink(str(dest) + suffix)
    with contextlib.suppress(FileNotFoundError):
        os.unlink(str(dest) + "-shm")
    return dest


def rows(path, *, drop_version=True):
    """Every table of the database file, by plain sqlite3: {table: sorted rows}."""
    con = sqlite3.connect(str(path))
    try:
        names = [n for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'") if not n.startswith("sqlite_")]
        return {n: sorted((tuple(r) for r in con.execute(f"SELECT * FROM {n}")), key=repr) for n in names}
    finally:
        con.close()


async def open_app(path, **cfg):
    app = fakes.make_app(**{conf.CONF_DATABASE: str(path), **cfg})
    await app._load_db()
    return app


async def drain(app):
    """Let the database writer finish everything it has been given."""
    if app._dblistener is not None:
        await app._dblistener._callback_handlers.join()


