"""C10: a crash or failed write leaves the database consistent and loadable."""
from __future__ import annotations

import os
import sqlite3

from hypothesis import strategies as st

from vlib import db, fakes, vloop
from vlib.core import Check, Suite, Violation, check_eq, one_of

from checks import c09

import zigpy.config as conf
from zigpy.exceptions import DeliveryError

# ------------------------------------------------------------------ units of change


def flat(pic, known, extra=()):
    """{(entity, unit): value}: what is recorded wholly or not at all. Absent units are None."""
    out = {}
    pic = c09.only(pic, known)
    for i, d in pic["devices"].items():
        own = ("device", i)
        core = {
            k: d[k]
            for k in ("status", "initialized", "class", "node", "manufacturer", "model", "endpoints")
        }
        core["clusters"] = {k: c["class"] for k, c in d["clusters"].items()}
        out[own, "interview"] = core
        out[own, "nwk"] = d["nwk"]
        out[own, "relays"] = d["relays"]
        for k, c in d["clusters"].items():
            for a, v in c["cache"].items():
                if d["class"] == "QuirkOne" and "/in/0" in k and a in (4, 5):
                    continue  # quirks (v1) start without what was read during the interview
                out[own, f"{k}/{a}"] = v
            for a in c["unsupported"]:
                out[own, f"{k}/unsupported {a}"] = True
    for what in ("neighbors", "routes"):
        for i, v in pic[what].items():
            out[("device", i), what] = v
    for g, (name, members) in pic["groups"].items():
        out[("group", g), "name"] = [name]
        for m in members:
            out[("member", g, m[0]), f"endpoint {m[1]}"] = True
    for b in pic["backups"]:
        out[("backup", repr(b["time"]) if "time" in b else repr(b)), "content"] = b
    return out


class Memory:
    """The values every unit has had, in order."""

    def __init__(self):
        self.seq = {}       # unit -> [(step, value)]
        self.step = 0
        self.now = {}
        self.pos = {}       # unit -> index of the value last found in the database
        # A device is stored as it is when its turn comes, ahead of changes that still wait: with a
        # slow database, what is stored can go back to what it was when nothing was waiting
        self.low = None     # unit -> index of that value
        self.idle = []      # steps at which nothing was waiting

    def sample(self, units):
        self.step += 1
        for u in {**self.now, **units}:
            v = units.get(u)
            s = self.seq.setdefault(u, [(0, None)])
            if s[-1][1] != v:
                s.append((self.step, v))
        self.now = units

    def start(self, units):
        """The application starts with what it loaded."""
        self.step += 1
        self.seq = {u: [(0, v)] for u, v in units.items()}
        self.pos = {}
        self.low = None if self.low is None else {}
        self.idle = []
        self.now = units

    def at(self, unit, step):
        return [x for at, x in self.seq.get(unit, [(0, None)]) if at <= step]

    def changed(self, unit):
        return self.seq.get(unit, [(0, None)])[-1][0]

    def match(self, units, step, what):
        """Every unit in the database has had its value, and none goes back."""
        for u in {**self.seq, **units}:
            v = units.get(u)
            if u[1] == "nwk" and v is None:
                continue
            if u[0][0] == "device" and u[1] != "interview" and self.at((u[0], "interview"), step)[-1] is None:
                continue        # its removal is not recorded yet, or could not be
            s = self.at(u, step)
            if u[0][0] == "backup":
                # one that could not be removed hides while a newer one replaces it
                self.pos.pop(u, None)
            low = (self.pos if self.low is None else self.low).get(u, 0)
            for i in range(low, len(s)):
                if s[i] == v:
                    self.pos[u] = i
                    break
            else:
                raise Violation(
                    f"{what}: {show(u)} is {v!r} in the database; it was, in this order,"
                    f" {s[low:]!r}"[:1800]
                )


def show(u):
    return " ".join(str(x) for x in u[0]) + ": " + u[1]


# ------------------------------------------------------------------ the world with its database


class World(c09.World):
    most = 24

    def __init__(self, loop, path):
        super().__init__(loop, path)
        self.memory = Memory()
        self.shots = []         # [(file, step)]
        self.stamp = None
        self.files = 0
        self.bad = {}           # units with values the database cannot hold
        self.recording = False
        self.absent = {}        # until when something known was not in the database

    def stat(self):
        """What changes whenever the files do."""
        out = []
        for suffix in ("", "-wal"):
            try:
                x = os.stat(str(self.path) + suffix)
                out.append((x.st_size, x.st_mtime_ns))
            except FileNotFoundError:
                out.append(None)
        return out

    def units(self):
        pic = c09.picture(self.app)
        out = flat(pic, self.watch.known)
        # its address is kept up to date in the database if it could not be removed from there
        for i, d in pic["devices"].items():
            out[("device", i), "nwk"] = d["nwk"]
        return out

    def look(self):
        """Called before every operation of the database and between the steps of a history."""
        if not self.recording:
            return
        self.memory.sample(self.units())
        stamp = self.stat()
        if stamp != self.stamp:
            self.stamp = stamp
            self.files += 1
            f = self.path.with_name(f"shot{self.files}.db")
            db.snapshot(self.path, f)
            self.shots.append((f, self.memory.step))
        if not self.app._dblistener._callback_handlers._unfinished_tasks:
            self.memory.idle.append(self.memory.step)

    async def load(self, file):
        """What an application started with this file would know."""
        hook, self.ctl.hook = self.ctl.hook, None
        delay, self.ctl.delay = self.ctl.delay, 0
        try:
            app = await db.open_app(file)
            try:
                return flat(c09.picture(app), [str(i) for i in app.devices])
            finally:
                await app.shutdown()
        finally:
            self.ctl.hook, self.ctl.delay = hook, delay

    async def check_shots(self):
        self.recording = False
        shots, self.shots = self.shots, []
        n = len(shots)
        keep = range(n) if n <= self.most else sorted({i * (n - 1) // (self.most - 1) for i in range(self.most)})
        last = -1
        for k in keep:
            f, step = shots[k]
            if self.memory.low is not None and any(last <= x < step for x in self.memory.idle):
                self.memory.low = dict(self.memory.pos)
            last = step
            try:
                con = sqlite3.connect(str(f))
                try:
                    ok = [r[0] for r in con.execute("PRAGMA integrity_check")]
                    rows = con.execute("PRAGMA foreign_key_check").fetchall()
                finally:
                    con.close()
                check_eq(ok, ["ok"], "integrity of the database")
                check_eq(rows, [], "rows that refer to rows that do not exist")
                units = await self.load(f)
            except Exception as e:
                if isinstance(e, Violation):
                    raise
                raise Violation(
                    f"the database at write {k + 1} of {n} cannot be loaded: {type(e).__name__}: {e}"
                ) from e
            self.memory.match(units, step, f"at write {k + 1} of {n}")
            until = shots[k + 1][1] if k + 1 < n else self.memory.step
            for u in self.memory.seq:
                if u[1] in ("interview", "name") and u not in units:
                    if self.memory.at(u, until)[-1] is not None:
                        self.absent[u[0]] = until
        self.stats["states"] = self.stats.get("states", 0) + len(keep)
        self.recording = True

    async def begin(self):
        await db.drain(self.app)
        if self.ctl.delay:
            self.memory.low = {}
        await vloop.settle(3)
        self.memory.start(self.units())
        self.recording = True
        self.stamp = self.stat()

    async def report_bad(self, target, attr, what):
        await super().op(["report", target, [[attr, c09.UNSTORABLE[what]]]])
        self.count("value that cannot be stored")

    def full_compare(self, before, after, known):
        """As after a restart, without the attributes whose value cannot be stored."""
        for (i, k, a) in self.bad:
            x = before["devices"].get(i, {}).get("clusters", {}).get(k)
            if x is None:
                continue
            y = after["devices"].get(i, {}).get("clusters", {}).get(k)
            for p in (x, y):
                if p is not None:
                    p["cache"].pop(a, None)
                    p["updated"].pop(a, None)
        c09.compare(before, after, known)

    async def op(self, op):
        try:
            await self.attempt(op)
        except (DeliveryError, TimeoutError):
            self.count("not delivered")     # the network went on after the state that was lost
        self.look()

    def device(self, n):
        d = super().device(n)
        try:
            return d if d is None or self.app.get_device(nwk=d.nwk) is d else None
        except KeyError:
            return None

    async def attempt(self, op):
        kind = op[0]
        if kind == "report":
            # one value of an attribute at a time
            seen = {}
            for a, v in op[2]:
                seen[a] = v
            op = ["report", op[1], [[a, v] for a, v in seen.items()]]
            for a in seen:
                for k in self.keys(op[1], a):
                    self.bad.pop(k, None)
        if kind == "bad":
            _, target, attr, what = op
            if self.cluster(target) is None or target[2] == 0 and attr in (4, 5):
                return
            self.bad.update(dict.fromkeys(self.keys(target, attr), True))
            await self.report_bad(target, attr, what)
        else:
            await super().op(op)

    @staticmethod
    def keys(target, attr):
        """Clusters with the same id share what is reported to them."""
        n, ep, cluster, _ = target
        return [(str(fakes.eui(n)), f"{ep}/{side}/{cluster}", attr) for side in ("in", "out")]


def bad_ops(devs):
    cl = st.sampled_from([x for x in c09.TARGETS if x[0] in devs]).map(list)
    names = [n for n in c09.UNSTORABLE if "address" not in n]
    return st.tuples(
        st.just("bad"), cl, st.sampled_from([0x4000, 0x4001, 0xF123]), st.sampled_from(names)
    ).map(list)


@st.composite
def histories(draw, extra, least=4, most=14):
    devs = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3, unique=True))
    op = c09.operations(devs).filter(lambda op: op[0] != "restart")
    ops = draw(st.lists(op, min_size=least, max_size=most))
    extras = draw(
        st.lists(
            st.tuples(st.integers(0, len(ops)), one_of(extra, extra, extra, bad_ops(devs))),
            min_size=1, max_size=4,
        )
    )
    for at, op in extras:
        ops.insert(at, op)
    case = {"first": devs, "ops": ops}
    slow = draw(st.sampled_from([0, 0, 0.05, 0.9]))
    return {**case, "slow": slow} if slow else case


def execute(case, main_ops):
    old = c09.World
    c09.World = World
    try:
        return c09.execute(case, main_ops)
    finally:
        c09.World = old


def hook_of(w):
    def hook(i, kind, sql):
        w.look()

    return hook


# ------------------------------------------------------------------ crashes


async def crash(w, back):
    """The process dies, or died some writes ago; a new one starts with the files it left."""
    finished = back == 0
    if finished:
        await db.drain(w.app)
    w.look()
    shots = list(w.shots)
    await w.check_shots()
    w.recording = False
    dest = w.path.with_name(f"crash{w.files}.db")
    w.files += 1
    if finished or not shots:
        db.snapshot(w.path, dest)
    else:
        db.snapshot(shots[-min(back, len(shots))][0], dest)
    known = set(w.watch.known)
    before = c09.only(c09.picture(w.app), known)
    w.ctl.hook = None
    await w.close()
    w.path = dest
    await w.open()
    after = c09.picture(w.app)
    w.watch.known = set(after["devices"])
    if finished:
        w.full_compare(before, c09.picture(w.app), known)
    w.bad.clear()
    # the network is as the state says
    free = list(c09.NWKS)
    rest = []
    for sim in w.sims.values():
        d = w.app.devices.get(sim.ieee)
        if d is not None and d.nwk in free:
            sim.nwk = int(d.nwk)
            free.remove(sim.nwk)
        else:
            rest.append(sim)
    for sim in rest:
        sim.nwk = free.pop()
    w.ctl.hook = hook_of(w)
    await w.begin()
    w.count("crash" if not finished else "crash after all is written")


def run_crash(case):
    async def ops(w):
        await w.begin()
        w.ctl.hook = hook_of(w)
        for n in case["first"]:
            await w.op(["join", n, n - 1, None])
        for op in case["ops"]:
            if op[0] == "crash":
                await crash(w, op[1])
            else:
                await w.op(op)
        await crash(w, 0)
        w.recording = False
        w.ctl.hook = None
        w.stats["devices"] = len(w.watch.known)

    stats = execute(case, ops)
    n = stats.pop("devices", 0)
    states = stats.pop("states", 0)
    return {"labels": [*stats, f"{n - 1} devices", f"{states // 10 * 10}+ states"], "nontrivial": states > 3}


CRASH = st.tuples(st.just("crash"), st.sampled_from([0, 1, 2, 3, 5, 8])).map(list)


# ------------------------------------------------------------------ failing operations

ERRORS = {
    "locked": lambda: sqlite3.OperationalError("database is locked"),
    "io": lambda: sqlite3.OperationalError("disk I/O error"),
    "full": lambda: sqlite3.OperationalError("database or disk is full"),
    "corrupt": lambda: sqlite3.DatabaseError("database disk image is malformed"),
}


def run_fault(case):
    async def ops(w):
        armed = []          # [operations to go, error, how many]
        fired = []          # the step of the memory at the end of the op that met each fault
        raised = [0]
        names = []

        def hook(i, kind, sql):
            w.look()
            if not armed or kind not in ("execute", "executemany", "commit"):
                return
            if sql.lstrip().upper().startswith("ROLLBACK"):
                return
            if armed[0][0] > 0:
                armed[0][0] -= 1
                return
            armed[0][2] -= 1
            error = ERRORS[armed[0][1]]
            if armed[0][2] <= 0:
                armed.pop(0)
            raised[0] += 1
            names.append(f"{kind} fails")
            raise error()

        await w.begin()
        w.ctl.hook = hook

        async def step(op):
            n = raised[0]
            await w.op(op)
            if not case.get("slow"):
                await db.drain(w.app)
            w.look()
            if raised[0] > n:
                fired.append(w.memory.step)

        for n in case["first"]:
            await step(["join", n, n - 1, None])
        for op in case["ops"]:
            if op[0] == "fault":
                armed.append(list(op[1:]))
            else:
                await step(op)
        if case.get("slow"):
            n = raised[0]
            await db.drain(w.app)
            if raised[0] > n:
                fired.append(w.memory.step)
        armed.clear()
        await step(["wait", 1])
        await db.drain(w.app)
        w.look()
        await w.check_shots()
        w.recording = False
        w.ctl.hook = None
        last = w.path.with_name("last.db")
        db.snapshot(w.path, last)
        db_units = await w.load(last)
        memory = w.units()
        judge(w, memory, db_units, fired[-1] if fired else 0, raised[0])
        w.stats["devices"] = len(w.watch.known)
        w.stats["fired"] = raised[0]
        for x in names:
            w.count(x)

    stats = execute(case, ops)
    fired = stats.pop("fired", 0)
    stats.pop("devices", 0)
    stats.pop("states", 0)
    return {"labels": [*stats, f"{fired} failures"], "nontrivial": fired > 0}


def judge(w, memory, found, since, failures):
    """Only what was changed at the time of a failure may be missing, one thing per failure."""
    gone = set()            # entities whose base row is not as in memory
    for u in {**memory, **found}:
        if u[1] in ("interview", "name") and (u in memory) != (u in found):
            gone.add(u[0])
    affected = {}
    for u in {**memory, **found}:
        if memory.get(u) == found.get(u):
            continue
        if u[1] == "nwk" and u not in found:
            continue            # as the interview
        e = u[0]
        if e[0] == "device" and is_bad(w, u):
            continue
        if e[0] == "member":
            # a membership needs its group and its device
            changed = w.memory.changed(u)
            if any(
                x in gone or changed <= w.absent.get(x, 0)
                for x in (("group", e[1]), ("device", e[2]))
            ):
                continue
        if e not in gone and w.memory.changed(u) > max(since, w.absent.get(e, 0)):
            raise Violation(
                f"{show(u)} was changed after the failure and is {found.get(u)!r} in the database,"
                f" {memory.get(u)!r} in memory"[:1500]
            )
        affected.setdefault(e, u)
    if len(affected) > failures:
        raise Violation(
            f"{failures} failures left more changes unrecorded: "
            + "; ".join(f"{show(u)}: {memory.get(u)!r} in memory, {found.get(u)!r} found" for u in affected.values())[:1500]
        )


def is_bad(w, u):
    what, _, attr = u[1].rpartition("/")
    return attr.isdigit() and (u[0][1], what, int(attr)) in w.bad


FAULT = st.tuples(
    st.just("fault"), st.one_of(st.integers(0, 4), st.integers(0, 30)),
    st.sampled_from(sorted(ERRORS)), st.sampled_from([1, 1, 1, 2, 5]),
).map(list)

# ------------------------------------------------------------------ the first start


async def open_and_close(path):
    app = fakes.make_app(**{conf.CONF_DATABASE: str(path)})
    try:
        await app._load_db()
    finally:
        await app.shutdown()


def first_start(case):
    at, how = case["at"], case["how"]
    with db.session() as (ctl, d):
        path = d / "zigbee.db"
        reached = []

        def hook(i, kind, sql):
            if i != at:
                return
            reached.append(kind)
            if how == "crash":
                db.snapshot(path, d / "crash.db")
            elif kind not in ("close", "connect") and not sql.lstrip().upper().startswith("ROLLBACK"):
                raise sqlite3.OperationalError("disk I/O error")

        async def main(loop):
            ctl.hook = hook
            try:
                await open_and_close(path)
            except sqlite3.Error:
                pass
            ctl.hook = None
            p = path if how != "crash" else d / "crash.db"
            try:
                app = await db.open_app(p)
            except Exception as e:
                raise Violation(f"the database cannot be opened afterwards: {type(e).__name__}: {e}") from e
            await app.shutdown()
            (d / "new.db").write_bytes(db.template())
            check_eq(schema(p), schema(d / "new.db"), "the schema")

        db.template()
        # a crash before the file exists leaves nothing
        if how == "crash":
            (d / "crash.db").write_bytes(b"")
        vloop.run(main)
    return {"labels": [how, *reached], "nontrivial": bool(reached)}


def schema(path):
    con = sqlite3.connect(str(path))
    try:
        return [
            con.execute("PRAGMA user_version").fetchall(),
            sorted(con.execute("SELECT type, name, sql FROM sqlite_master WHERE name NOT LIKE 'sqlite_%'").fetchall()),
        ]
    finally:
        con.close()


def first_cases(tier):
    for i in range(160):
        for how in ("crash", "fail"):
            yield {"at": i, "how": how}


# ------------------------------------------------------------------ failures while opening


def run_open(case):
    async def ops(w):
        for n in case["first"]:
            await w.op(["join", n, n - 1, None])
        for op in case["ops"]:
            if op[0] != "bad":
                await w.op(op)
        await db.drain(w.app)
        known = set(w.watch.known)
        await w.close()
        before = db.rows(w.path)
        app = await db.open_app(w.path)
        want = c09.picture(app)
        await app.shutdown()
        ctl = w.ctl
        base = len(ctl.ops)
        failed = []

        def hook(i, kind, sql):
            if i - base != case["at"]:
                return
            failed.append(kind)
            if kind in ("connect", "close") or sql.lstrip().upper().startswith("ROLLBACK"):
                return
            raise ERRORS[case["error"]]()

        ctl.hook = hook
        try:
            await open_and_close(w.path)
        except sqlite3.Error:
            w.count("refused")
        ctl.hook = None
        if case["crash"]:
            dest = w.path.with_name("crash.db")
            db.snapshot(w.path, dest)
            w.path = dest
        check_eq(db.rows(w.path), before, "rows after the failure")
        await w.open()
        w.watch.known = known
        d = list(c09.differences(want, c09.picture(w.app)))
        if d:
            raise Violation(f"loaded differently after a failure: {'; '.join(d)[:1500]}")
        w.stats["failed"] = len(failed)

    stats = execute(case, ops)
    n = stats.pop("failed", 0)
    return {"labels": [*stats], "nontrivial": n > 0}


def open_cases():
    nothing = st.just(["wait", 1])
    return st.builds(
        lambda case, at, error, crash: {**case, "at": at, "error": error, "crash": crash},
        histories(nothing, 0, 6), st.integers(0, 90), st.sampled_from(sorted(ERRORS)),
        st.booleans(),
    )


# ------------------------------------------------------------------ every operation of an interview


def interview_cases(tier):
    for n in c09.DESCS:
        for k in range(24):
            for error in sorted(ERRORS) if tier == "thorough" else ["io"]:
                fault = ["fault", k, error, 1]
                yield {"first": [], "ops": [fault, ["join", n, 0, None], ["join", n, 1, None]]}
                yield {"first": [n], "ops": [fault, ["join", n, 0, None], ["join", n, 1, None]]}
                yield {
                    "first": [n],
                    "ops": [
                        ["relays", n, [0]], fault, ["remove", n, False, 1], ["join", n, 0, None],
                        ["wait", 1], ["join", n, 1, None],
                    ],
                }


def value_cases(tier):
    for n in c09.DESCS:
        for what in c09.UNSTORABLE:
            for early in (False, True):
                if "address" not in what:
                    yield {"device": n, "value": what, "early": early}


class Early:
    def __init__(self, w, op):
        self.w, self.op = w, op

    def device_initialized(self, dev):
        if self.op is not None:
            op, self.op = self.op, None
            self.w.loop.create_task(self.w.op(op))


def run_value(case):
    """A value that cannot be stored costs nothing but itself."""
    n = case["device"]
    ep = c09.DESCS[n]["eps"][-1 if n == 6 else 0][0]

    async def ops(w):
        w.recording = True
        bad = ["bad", [n, ep, 0, 0], 0x4001, case["value"]]
        if case["early"]:
            # it comes with the end of the interview, before anything is written
            w.app.add_listener(Early(w, bad))
        await w.op(["join", n, 0, None])
        await w.op(["wait", 1])
        if not case["early"]:
            await w.op(bad)
        if not w.bad:
            raise Violation("the device was not interviewed")
        await w.op(["join", n, 1, None])
        await w.op(["report", [n, ep, 0, 0], [[0x4002, [0x20, "07"]]]])
        await crash(w, 0)
        w.recording = False
        w.ctl.hook = None

    execute(case, ops)
    return True


CHECK = Check(
    "C10",
    rule="crash histories with at least four distinct states on disk; failure histories in which a"
    " failure was met; failing starts whose failing operation was reached",
    assumptions=[
        "a process that dies leaves the files as the operating system has them (no power loss)",
        "a failed change need not be tried again; a device whose interview could not be recorded is"
        " recorded with the next one",
        "rolling back and closing do not fail",
    ],
    suites=[
        Suite("crashes", run_crash, strategy=lambda: histories(CRASH), quick=800, thorough=20000),
        Suite("failures", run_fault, strategy=lambda: histories(FAULT), quick=1200, thorough=30000),
        Suite("opening", run_open, strategy=open_cases, quick=500, thorough=10000),
        Suite("interviews", run_fault, cases=interview_cases),
        Suite("values", run_value, cases=value_cases),
        Suite("first", first_start, cases=first_cases),
    ],
)
