"""Databases as earlier releases wrote them.

The schemas are copies kept here, so that nothing below depends on the code under
test. Contents are plain data; `tables` says how a release with schema `v` stored
them, `current` what the rows of the present schema should be.
"""
from __future__ import annotations

import json
import pathlib
import sqlite3

from hypothesis import strategies as st

from . import bk
from .core import one_of

SCHEMA = {
    v: (pathlib.Path(__file__).parent / "schemas" / f"schema_v{v}.sql").read_text() for v in range(14)
}
LAST = 13
MISSING = -1        # stands for the absent profile and type of an inactive endpoint

ND = [
    "logical_type", "complex", "user", "reserved", "aps", "band", "mac", "manufacturer",
    "buffer", "incoming", "server", "outgoing", "capability",
]


def ieee(n):
    """The address of device n, as text."""
    return ":".join(f"{x:02x}" for x in (0xA4, 0xC1, 0x38, 0, 0, 0, n >> 8, n & 255))


def nd_blob(nd):
    """A node descriptor as sent over the air."""
    a, cplx, user, res, aps, band, mac, manu, buf, inc, server, out, cap = nd
    first = a | cplx << 3 | user << 4 | res << 5
    second = aps | band << 3
    return bytes([first, second, mac]) + b"".join(
        x.to_bytes(n, "little") for x, n in ((manu, 2), (buf, 1), (inc, 2), (server, 2), (out, 2), (cap, 1))
    )


def relays_blob(relays):
    return bytes([len(relays)]) + b"".join(r.to_bytes(2, "little") for r in relays)


def nb_packed(n):
    """The byte into which early releases packed four fields of a neighbor."""
    return n["type"] | n["rx"] << 2 | n["rel"] << 4 | n["res1"] << 7


def val(v):
    """Values as stored: bytes are written {"hex": ...}."""
    return bytes.fromhex(v["hex"]) if isinstance(v, dict) else v


def tables(c, v):
    """{table: [rows]} for the contents c at schema v."""
    s = "" if v < 5 else f"_v{v}"
    s4 = "_v4" if v == 4 else s
    out = {}

    def put(table, *row):
        out.setdefault(table, []).append(row)

    for d in c["devices"]:
        i = ieee(d["n"])
        extra = () if v < 8 else (int(d["seen"] * 1000),) if v == 8 else (d["seen"],)
        if not d.get("gone"):
            put("devices" + s, i, d["nwk"], d["status"], *extra)
        for e in d["eps"]:
            if not e.get("gone"):
                put("endpoints" + s, i, e["id"], e["profile"], e["type"], e["status"])
            if v < 5:
                names = "clusters", "output_clusters"
            else:
                names = "in_clusters" + s, "out_clusters" + s
            for table, cs in zip(names, (e["in"], e["out"])):
                for x in cs:
                    put(table, i, e["id"], x)
        if d["nd"] and 1 <= v < 4:
            put("node_descriptors", i, nd_blob(d["nd"]))
        elif d["nd"] and v >= 4:
            put("node_descriptors" + s4, i, *d["nd"])
        if d["relays"] is not None and v >= 1:
            put("relays" + s, i, relays_blob(d["relays"]))
        for n in d["neighbors"]:
            head = (i, ieee(n["epid"]), ieee(n["ieee"]), n["nwk"])
            if v == 3 or (v < 3 and c.get("early neighbors")):
                put("neighbors", *head, nb_packed(n), n["permit"], n["depth"], n["lqi"])
            elif v >= 4:
                put(
                    "neighbors" + s4, *head, n["type"], n["rx"], n["rel"], n["res1"],
                    n["permit"], n["res2"], n["depth"], n["lqi"],
                )
        if v >= 11:
            for r in d["routes"]:
                put("routes" + s, i, *r)
        for ep, cl, a, x, when in d["attrs"]:
            more = () if v < 12 else (when,)
            table = "attributes" if v < 5 else "attributes_cache" + s
            put(table, i, ep, cl, a, val(x), *more)
        if v >= 7:
            for ep, cl, a in d["unsupported"]:
                put("unsupported_attributes" + s, i, ep, cl, a)
    if v >= 1:
        for g in c["groups"]:
            if not g.get("gone"):
                put("groups" + s, g["id"], g["name"])
            for n, ep in g["members"]:
                put("group_members" + s, g["id"], ieee(n), ep)
    if v >= 10:
        for x, b in enumerate(c["backups"]):
            put("network_backups" + s, x * 2 + 1, json.dumps(bk.mk(b).as_dict()))
    return out


def current(c, v):
    """The rows of the present schema for contents that were stored at schema v."""
    known = {d["n"]: d for d in c["devices"] if not d.get("gone")}
    eps = {(n, e["id"]) for n, d in known.items() for e in d["eps"] if not e.get("gone")}
    out = {}

    def put(table, *row):
        out.setdefault(table, []).append(row)

    for d in c["devices"]:
        i, n = ieee(d["n"]), d["n"]
        if v >= 11:
            for r in d["routes"]:
                put("routes", i, *r)
        if n not in known:
            continue
        seen = 0.0 if v < 8 else int(d["seen"] * 1000) / 1000 if v == 8 else float(d["seen"])
        put("devices", i, d["nwk"], d["status"], seen)
        for e in d["eps"]:
            if (n, e["id"]) not in eps:
                continue
            absent = lambda x: MISSING if x is None else x      # noqa: E731
            put("endpoints", i, e["id"], absent(e["profile"]), absent(e["type"]), e["status"])
            for x in e["in"]:
                put("clusters", i, e["id"], 0, x)
            for x in e["out"]:
                put("clusters", i, e["id"], 1, x)
        if d["nd"] and v >= 1:
            put("node_descriptors", i, *d["nd"])
        if d["relays"] is not None and v >= 1:
            put("relays", i, relays_blob(d["relays"]))
        if v >= 3 or c.get("early neighbors"):
            for nb in d["neighbors"]:
                put(
                    "neighbors", i, ieee(nb["epid"]), ieee(nb["ieee"]), nb["nwk"], nb["type"], nb["rx"],
                    nb["rel"], nb["res1"], nb["permit"], nb["res2"] if v >= 4 else 0, nb["depth"], nb["lqi"],
                )
        for ep, cl, a, x, when in d["attrs"]:
            put("attributes_cache", i, ep, 0, cl, a, val(x), float(when) if v >= 12 else 0.0)
        if v >= 7:
            for ep, cl, a in d["unsupported"]:
                put("unsupported_attributes", i, ep, 0, cl, a)
    if v >= 1:
        for g in c["groups"]:
            if g.get("gone"):
                continue
            put("groups", g["id"], g["name"])
            for n, ep in g["members"]:
                if (n, ep) in eps:
                    put("group_members", g["id"], ieee(n), ep)
    if v >= 10:
        for x, b in enumerate(c["backups"]):
            put("network_backups", x * 2 + 1, json.dumps(bk.mk(b).as_dict()))
    return out


def insert(con, rows):
    for table, rs in rows.items():
        for r in rs:
            con.execute(f"INSERT INTO {table} VALUES ({','.join('?' * len(r))})", r)


def write(path, stages, version):
    """A database left behind by releases with the schemas of the stages.

    stages: [(schema, contents, schema of the unsuffixed tables)], in order; the last is the one in use.
    """
    con = sqlite3.connect(str(path))
    try:
        con.execute("PRAGMA foreign_keys = OFF")
        for v, c, base in stages:
            if v <= 4:
                for table in ("devices", "endpoints", "clusters", "output_clusters", "attributes", "groups",
                              "group_members", "relays"):
                    con.execute(f"DROP TABLE IF EXISTS {table}")
            if v <= 4 and base is not None:
                con.executescript(SCHEMA[base])
            con.executescript(SCHEMA[v])
            rows = tables(c, v)
            if v < 3 and "neighbors" in rows:
                con.executescript(SCHEMA[3])
            insert(con, rows)
        con.execute(f"PRAGMA user_version = {version}")
        con.commit()
    finally:
        con.close()


def dump(path):
    """(version, {table: (definition, rows)})"""
    con = sqlite3.connect(str(path))
    try:
        version = con.execute("PRAGMA user_version").fetchone()[0]
        names = con.execute(
            "SELECT name, sql FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'"
        ).fetchall()
        return version, {
            n: (sql, sorted((tuple(r) for r in con.execute(f"SELECT * FROM {n}")), key=repr)) for n, sql in names
        }
    finally:
        con.close()


# ------------------------------------------------------------------ generation

def u(n):
    return st.one_of(st.integers(0, (1 << n) - 1), st.sampled_from([0, 1, (1 << n) - 1]))


NODE = st.tuples(
    st.integers(0, 2), u(1), u(1), u(3), u(3), u(5), u(8), u(16), u(8), u(16), u(16), u(16), u(8)
).map(list)
NEIGHBOR = st.fixed_dictionaries({
    "epid": st.integers(1, 9), "ieee": st.integers(1, 12), "nwk": u(16), "type": u(2), "rx": u(2),
    "rel": u(3), "res1": u(1), "permit": u(2), "res2": u(6), "depth": u(8), "lqi": u(8),
})
ROUTE = st.tuples(u(16), u(3), u(1), u(1), u(1), u(2), u(16)).map(list)
VALUE = st.one_of(
    st.integers(-(2**63), 2**63 - 1), st.integers(0, 255), st.text(max_size=8), st.floats(allow_nan=False),
    st.binary(max_size=8).map(lambda b: {"hex": b.hex()}), st.sampled_from(["", "01:02:03:04:05:06:07:08", "12"]),
)
NAME = st.one_of(st.text(max_size=8), st.sampled_from(["", "Group", "12", "1e3"]),
                 st.text(max_size=6).map(lambda x: {"hex": (x.encode() + b"\0x").hex()}))
TIME = st.one_of(st.integers(1, 2**31).map(float), st.integers(0, 2**41).map(lambda x: x / 1000), st.just(0.0))
CLUSTERS = [0, 1, 3, 4, 6, 8, 0x0300, 0x0500, 0x0702, 0xFC01, 0xFFFF]
PROFILES = [260, 260, 49246, 41440, 0xC2DF]


def uniq(xs, key):
    out = {}
    for x in xs:
        out.setdefault(repr(key(x)), x)
    return list(out.values())


@st.composite
def device(draw, n, v):
    eps = []
    for e in sorted(draw(st.sets(st.one_of(st.integers(1, 4), st.integers(1, 254)), max_size=3))):
        inactive = v <= 4 and draw(st.integers(0, 4)) == 0
        some = st.lists(st.sampled_from(CLUSTERS), unique=True, max_size=3).map(sorted)
        eps.append({
            "id": e, "profile": None if inactive else draw(st.sampled_from(PROFILES)),
            "type": None if inactive else draw(st.one_of(st.integers(0, 10), u(16))),
            "status": 3 if inactive else draw(st.sampled_from([0, 1, 1])),
            "in": [] if inactive else draw(some), "out": [] if inactive else draw(some),
        })
    sites = [(e["id"], c) for e in eps for c in e["in"]]
    attrs = []
    for ep, c in sites:
        if c == 0 and draw(st.booleans()):
            attrs.append([ep, 0, 4, draw(NAME), draw(TIME)])
            attrs.append([ep, 0, 5, draw(NAME), draw(TIME)])
    anywhere = st.tuples(
        st.integers(1, 4) if v >= 6 or v <= 4 else st.sampled_from([e["id"] for e in eps] or [1]),
        st.sampled_from(CLUSTERS),
    ).map(list)
    site = st.one_of(st.sampled_from(sites), anywhere) if sites else anywhere
    for _ in range(draw(st.integers(0, 3))):
        if v == 5 and not eps:
            break
        ep, c = draw(site)
        attrs.append([ep, c, draw(st.one_of(st.integers(6, 30), st.integers(0x4000, 0xFFFF))), draw(VALUE), draw(TIME)])
    un = []
    for _ in range(draw(st.integers(0, 2)) if sites else 0):
        un.append([*draw(st.sampled_from(sites)), draw(st.one_of(st.integers(0, 30), u(16)))])
    return {
        "n": n, "nwk": draw(u(16)), "status": draw(st.integers(0, 2)), "seen": draw(TIME), "eps": eps,
        "nd": draw(one_of(st.none(), NODE, NODE)),
        "relays": draw(st.one_of(st.none(), st.lists(u(16), max_size=3))),
        "neighbors": draw(st.lists(NEIGHBOR, max_size=3)), "routes": draw(st.lists(ROUTE, max_size=2)),
        "attrs": uniq(attrs, lambda x: x[:3]), "unsupported": uniq(un, lambda x: x),
    }


@st.composite
def contents(draw, v, stale):
    """What a release with schema v may have stored; stale: also rows whose device, endpoint or group is gone."""
    ns = sorted(draw(st.sets(st.integers(1, 7), max_size=4)))
    devices = [draw(device(n, v)) for n in ns]
    eps = [(d["n"], e["id"]) for d in devices for e in d["eps"]]
    groups = []
    for g in sorted(draw(st.sets(st.one_of(st.integers(1, 5), u(16)), max_size=3))):
        members = draw(st.lists(st.sampled_from(eps), unique=True, max_size=3)) if eps else []
        groups.append({"id": g, "name": draw(st.text(max_size=8)), "members": [list(m) for m in members]})
    c = {"devices": devices, "groups": groups, "backups": draw(st.lists(bk.backup_st(), max_size=2)) if v >= 10 else []}
    if v in (1, 2):
        c["early neighbors"] = draw(st.booleans())
    if stale:
        for d in devices:
            d["gone"] = draw(st.integers(0, 3)) == 0
            for e in d["eps"]:
                e["gone"] = draw(st.integers(0, 3)) == 0
        for g in groups:
            g["gone"] = draw(st.integers(0, 3)) == 0
    elif v >= 11 and draw(st.booleans()):
        # nothing removed the routes of a device that was removed
        for d in devices:
            if draw(st.integers(0, 2)) == 0:
                only = {"n": d["n"] + 20, "gone": True, "eps": [], "nd": None, "relays": None, "neighbors": [],
                        "routes": d["routes"], "attrs": [], "unsupported": [], "nwk": 1, "status": 0, "seen": 0.0}
                devices.append(only)
                break
    return c
