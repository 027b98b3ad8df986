"""C11: old databases upgrade without losing data, or stay exactly as they were."""
from __future__ import annotations

import asyncio
import sqlite3

from hypothesis import strategies as st

from vlib import db, fakes, history as h, vloop
from vlib.core import Check, Suite, Violation, injected

from checks import c09

import zigpy.config as conf

# ------------------------------------------------------------------ cases

ANY = list(range(13))


@st.composite
def databases(draw):
    v = draw(st.sampled_from(ANY))
    stages = []
    if v >= 4 and draw(st.integers(0, 2)) == 0:
        # tables of an older schema are left behind by every upgrade
        w = draw(st.integers(0, v - 1)) if v > 4 else 3
        stages.append([w, draw(h.contents(w, w <= 4)), draw(st.integers(0, min(w, 3))) if w <= 4 else None])
    base = draw(st.integers(0, min(v, 3))) if v <= 4 else None
    stages.append([v, draw(h.contents(v, v <= 4 and draw(st.booleans()))), base])
    return stages


def upgrade_cases():
    return databases().map(lambda s: {"stages": s})


def fault_cases():
    fault = st.fixed_dictionaries({
        "how": st.sampled_from(["error", "cancel", "crash", "full"]),
        "at": st.integers(0, 1023),
    })
    return st.fixed_dictionaries({
        "stages": databases(), "faults": st.lists(fault, min_size=1, max_size=6),
    })


# ------------------------------------------------------------------ expectations

def build(case, path):
    stages = case["stages"]
    h.write(path, stages, stages[-1][0])


def expected(case):
    """(rows of the present schema, rows that may be there as well)"""
    v, c, _ = case["stages"][-1]
    want = h.current(c, v)
    maybe = {}
    if v == 5 and len(case["stages"]) > 1 and case["stages"][0][0] <= 4:
        # attributes that the upgrade to v5 could not keep are found in the older table

        known = {h.ieee(d["n"]) for d in c["devices"] if not d.get("gone")}
        has = {r[:5] for r in want.get("attributes_cache", [])}
        for d in case["stages"][0][1]["devices"]:
            for ep, cl, a, x, _when in d["attrs"]:
                r = (h.ieee(d["n"]), ep, 0, cl, a, h.val(x), 0.0)
                if r[0] in known and r[:5] not in has:
                    maybe.setdefault("attributes_cache", []).append(r)

    return want, maybe


def compare(dump, want, maybe):
    version, tables = dump
    if version != h.LAST:
        raise Violation(f"the database is at version {version} after the upgrade")
    for name in (
        "devices", "endpoints", "clusters", "node_descriptors", "relays", "neighbors", "routes",
        "attributes_cache", "unsupported_attributes", "groups", "group_members", "network_backups",
    ):
        have = [tuple(r) for r in tables[f"{name}_v{h.LAST}"][1]]
        spare = list(maybe.get(name, []))
        lost = []
        for r in want.get(name, []):
            if not take(have, r):
                lost.append(r)
        have = [r for r in have if not take(spare, r)]
        if lost or have:
            raise Violation(f"{name}: lost {lost!r}, not stored before {have!r}"[:1500])


def take(rows, r):
    """Remove the row from the rows, types included."""
    for x in rows:
        if x == r and [isinstance(a, bytes) for a in x] == [isinstance(a, bytes) for a in r]:
            rows.remove(x)
            return True
    return False


async def load(path):
    """Open, take a picture, close."""
    app = fakes.make_app(**{conf.CONF_DATABASE: str(path)})
    try:
        await app._load_db()
        return c09.picture(app)
    finally:
        await app.shutdown()


async def opened(path, what):
    try:
        return await load(path)
    except Exception as e:
        raise Violation(f"{what} cannot be opened: {type(e).__name__}: {e}") from e


async def reference(d, want, maybe, dump):
    """The same contents written directly at the present schema."""
    path = d / "direct.db"
    con = sqlite3.connect(str(path))
    try:
        con.executescript(h.SCHEMA[h.LAST])
        rows = {f"{k}_v{h.LAST}": list(v) for k, v in want.items()}
        if maybe:
            # those that were found
            rows[f"attributes_cache_v{h.LAST}"] = dump[1][f"attributes_cache_v{h.LAST}"][1]
        h.insert(con, rows)
        con.commit()
    finally:
        con.close()
    return await opened(path, "a database of the present version")


def check_picture(have, want):
    diff = list(c09.differences(want, have))
    if diff:
        raise Violation(f"loaded differently: {'; '.join(diff)[:1500]}")


def check_known(case, pic):
    """What the contents say, without any database."""
    v, c, _ = case["stages"][-1]
    want = {h.ieee(d["n"]): d for d in c["devices"] if not d.get("gone")}
    if set(pic["devices"]) != set(want):
        raise Violation(f"devices {sorted(pic['devices'])}, stored were {sorted(want)}")
    for i, d in want.items():
        have = pic["devices"][i]
        eps = {
            e["id"]: (e["profile"], e["type"], e["status"], sorted(e["in"]), sorted(e["out"]))
            for e in d["eps"] if not e.get("gone")
        }
        got = {}
        for e, (profile, kind, _, status, _) in have["endpoints"].items():
            clusters = {
                side: sorted(int(k.split("/")[2]) for k in have["clusters"] if k.startswith(f"{e}/{side}/"))
                for side in ("in", "out")
            }
            got[e] = (profile, kind, status, clusters["in"], clusters["out"])
        if got != eps or (have["nwk"], have["status"]) != (d["nwk"], d["status"]):
            raise Violation(f"{i} is {got!r}, {have['nwk']}, {have['status']}; stored was {eps!r}"[:1500])


def size(case):
    return sum(len(r) for r in h.tables(case["stages"][-1][1], case["stages"][-1][0]).values())


def labels(case):
    v, c, base = case["stages"][-1]
    out = [f"v{v}"]
    if len(case["stages"]) > 1:
        out.append("leftover tables")
    if any(d.get("gone") for d in c["devices"]):
        out.append("rows without device")
    if base is not None and base != v:
        out.append("tables of an earlier release")
    return out


# ------------------------------------------------------------------ upgrades

def run_upgrade(case):
    with db.session() as (ctl, d):
        path = d / "z.db"
        build(case, path)
        want, maybe = expected(case)

        async def main(loop):
            pic = await opened(path, "the old database")
            dump = h.dump(path)
            compare(dump, want, maybe)
            check_known(case, pic)
            check_picture(pic, await reference(d, want, maybe, dump))
            # and again, as the present version
            check_picture(await opened(path, "the upgraded database"), pic)
            compare(h.dump(path), want, maybe)

        vloop.run(main)
    return {"labels": labels(case), "nontrivial": size(case) > 3}


# ------------------------------------------------------------------ failures

def make_fault(how):
    if how == "cancel":
        return asyncio.CancelledError()
    if how == "full":
        return injected(sqlite3.OperationalError, "database or disk is full")
    return injected(sqlite3.DatabaseError, "disk I/O error")


def run_faults(case):
    with db.session() as (ctl, d):
        path = d / "z.db"
        build(case, path)
        before = h.dump(path)
        want, maybe = expected(case)
        stats = set()

        async def finish(p, what):
            """The upgrade still succeeds, with nothing lost."""
            pic = await opened(p, f"the database after {what}")
            dump = h.dump(p)
            compare(dump, want, maybe)
            check_known(case, pic)

        async def main(loop):
            # the operations of an upgrade nothing happens to
            free = d / "free.db"
            db.snapshot(path, free)
            ctl.ops.clear()
            await load(free)
            kinds = list(ctl.ops)
            last = max(
                (i for i, (kind, sql) in enumerate(kinds) if sql.strip().upper().startswith(("COMMIT", "INSERT", "CREATE"))),
                default=len(kinds),
            )
            for n, fault in enumerate(case["faults"]):
                p = d / f"f{n}.db"
                db.snapshot(path, p)
                at = fault["at"] * (last + 3) // 1024
                crash = d / f"c{n}.db"
                hit = []

                def hook(i, kind, sql, at=at, fault=fault, p=p, crash=crash, hit=hit):
                    if hit or i < at or kind in ("close", "rollback") or "ROLLBACK" in sql.upper():
                        return
                    if fault["how"] == "crash":
                        if p.exists():
                            hit.append(sql or kind)
                            db.snapshot(p, crash)
                        return
                    hit.append(sql or kind)
                    raise make_fault(fault["how"])

                ctl.ops.clear()
                ctl.hook = hook
                failed = None
                try:
                    await load(p)
                except (Exception, asyncio.CancelledError) as e:
                    failed = e
                ctl.hook = None
                if not hit:
                    continue
                what = f"{fault['how']} at {' '.join(hit[0].split())[:60]!r}"
                if fault["how"] == "crash":
                    p = crash
                elif failed is None:
                    stats.add("survived")
                state = h.dump(p)
                if state == before:
                    stats.add(f"{fault['how']}: as before")
                elif state[0] == h.LAST:
                    compare(state, want, maybe)
                    stats.add(f"{fault['how']}: upgraded")
                else:
                    diff = [t for t in {**before[1], **state[1]} if before[1].get(t) != state[1].get(t)]
                    raise Violation(f"after {what} the database is neither as before nor upgraded: version {state[0]}, {diff}")
                await finish(p, what)

        vloop.run(main)
    return {"labels": [*labels(case), *stats], "nontrivial": any("as before" in s for s in stats)}


# ------------------------------------------------------------------ other versions

def other_cases():
    @st.composite
    def make(draw):
        kind = draw(st.sampled_from(["newer", "newer", "mismatch"]))
        if kind == "newer":
            new = draw(st.integers(14, 20))
            return {
                "kind": kind, "tables": new, "version": new, "contents": draw(h.contents(12, False)),
                "leftover": draw(st.one_of(st.none(), st.tuples(st.integers(0, 12)).flatmap(
                    lambda x: h.contents(x[0], False).map(lambda c: [x[0], c])))),
            }
        tables = draw(st.integers(4, 16))
        version = draw(st.integers(0, 18).filter(lambda x: x != tables))
        return {
            "kind": kind, "tables": tables, "version": version,
            "contents": draw(h.contents(min(tables, 12), False)), "leftover": None,
        }
    return make()


def pair_cases(tier):
    """Every pair of versions that contradict each other, and every pair of a newer one and leftovers."""
    some = {
        "devices": [{
            "n": 1, "nwk": 0x1234, "status": 2, "seen": 5.0, "nd": [1, 0, 0, 0, 0, 8, 0x8E, 0x1037, 82, 82, 0, 82, 0],
            "eps": [{"id": 1, "profile": 260, "type": 256, "status": 1, "in": [0, 6], "out": [25]}],
            "relays": [1, 2], "neighbors": [], "routes": [], "attrs": [[1, 6, 6, 7, 3.0]], "unsupported": [],
        }],
        "groups": [{"id": 1, "name": "one", "members": [[1, 1]]}], "backups": [],
    }
    for tables in range(4, 17):
        for version in range(19):
            if tables != version:
                yield {"kind": "mismatch", "tables": tables, "version": version, "contents": some, "leftover": None}
    for new in range(14, 18):
        for v in [None, *range(13)]:
            yield {
                "kind": "newer", "tables": new, "version": new, "contents": some,
                "leftover": None if v is None else [v, some],
            }


def run_other(case):
    with db.session() as (ctl, d):
        path = d / "z.db"
        n, c = case["tables"], case["contents"]
        if n < h.LAST:
            h.write(path, [[n, c, 0 if n == 4 else None]], case["version"])
        else:
            if case["leftover"] is not None:
                v, old = case["leftover"]
                h.write(path, [[v, old, 0 if v <= 4 else None]], v)

                async def main(loop):
                    await load(path)        # as the last release with this schema did
                vloop.run(main)
            con = sqlite3.connect(str(path))
            try:
                # a later schema with another table
                sql = h.SCHEMA[h.LAST].replace(f"_v{h.LAST}", f"_v{n}")
                con.executescript(sql if n != h.LAST else h.SCHEMA[h.LAST])
                h.insert(con, {f"{k}_v{n}": v for k, v in h.current(c, 12).items()})
                con.executescript(f"CREATE TABLE future_v{n} (x); INSERT INTO future_v{n} VALUES (1)")
                con.execute(f"PRAGMA user_version = {case['version']}")
                con.commit()
            finally:
                con.close()
        before = h.dump(path)
        refused = []

        async def main(loop):
            app = fakes.make_app(**{conf.CONF_DATABASE: str(path)})
            try:
                try:
                    await app._load_db()
                except Exception as e:
                    refused.append(type(e).__name__)
                else:
                    # what is written now belongs to the older release
                    app.handle_join(0x1234, fakes.eui(5), 0)
                    app.groups.add_group(0x4321, "new")
                    await db.drain(app)
            finally:
                await app.shutdown()

        vloop.run(main)
        after = h.dump(path)
        if after[0] != before[0]:
            raise Violation(f"the version changed from {before[0]} to {after[0]}")
        keep = [t for t in before[1] if not t.endswith(f"_v{h.LAST}") or case["kind"] == "mismatch" or refused]
        for t in keep:
            if after[1].get(t) != before[1][t]:
                raise Violation(f"{t} changed from {before[1][t]!r} to {after[1].get(t)!r}"[:1500])
        if set(after[1]) != set(before[1]):
            raise Violation(f"other tables: {set(after[1]) ^ set(before[1])}")
    return {"labels": [case["kind"], *refused], "nontrivial": True}


CHECK = Check(
    id="C11",
    rule="an upgrade is non-trivial if the old database held more than three rows; a fault run if some failure or"
         " interruption fell inside the upgrade",
    assumptions=[
        "the historical schemas are those in the repository's schema files at the pinned commit",
        "crash points are the boundaries between database operations; SQLite itself is trusted to apply a statement wholly or not at all",
        "rows whose device, endpoint or group is gone are not part of what the database describes, and are dropped",
    ],
    suites=[
        Suite("upgrades", run_upgrade, strategy=upgrade_cases, quick=800, thorough=20000, budget_quick=60),
        Suite("failures", run_faults, strategy=fault_cases, quick=300, thorough=8000, budget_quick=80),
        Suite("other versions", run_other, strategy=other_cases, quick=200, thorough=3000, budget_quick=30),
        Suite("versions", run_other, cases=pair_cases),
    ],
)
