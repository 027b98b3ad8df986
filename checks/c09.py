"""C09: everything learned about the network is the same after a restart."""
from __future__ import annotations

import datetime
import enum
import struct

import freezegun
from hypothesis import strategies as st

from vlib import bk, db, fakes, sim, vloop
from vlib.core import Check, Suite, Violation, check_eq, one_of

import zigpy.quirks
import zigpy.quirks.registry
import zigpy.types as t
import zigpy.zcl.clusters.general as zg
from zigpy.quirks import v2

LQI, RTG = 0x0031, 0x0032
START = datetime.datetime(2024, 5, 1, 12, 0, 0, tzinfo=datetime.timezone.utc)
NWKS = [0x1001, 0x1002, 0x1003, 0x1004, 0x1005, 0x1006, 0x1007]

# ------------------------------------------------------------------ devices


def attrs(manufacturer, model, **more):
    out = {"4": sim.cstr(manufacturer), "5": sim.cstr(model), "0": [0x20, "03"]}
    return out


DESCS = {
    # a plain router
    1: {
        "nd": sim.nd_bytes().hex(),
        "eps": [
            [1, 260, 0x0100, 1, [0, 4, 6, 8, 0x0500, 0x0702], [0x19, 6]],
            [242, 0xA1E0, 0x0061, 0, [], [0x21]],
        ],
        "attrs": {"1/0": attrs("Acme", "Plain")},
    },
    # a sleepy end device with manufacturer specific clusters and an unknown device type
    2: {
        "nd": sim.nd_bytes(logical=2, mac=0x80, manufacturer=0x117C).hex(),
        "eps": [
            [1, 260, 0xBEEF, 0, [0, 1, 3, 0x0402, 0xFC11], [6, 0xFC11]],
            [2, 0xC05E, 0x0820, 2, [0, 4, 0x1000], [0x1000]],
            [3, 0x7777, 0x0001, 0, [0, 6], []],
            [4, 0x0000, 0x0000, 0, [3], []],
        ],
        "attrs": {
            "1/0": attrs("Ünïcode", "Schläfer"),
            "2/0": attrs("Other", "Second"),
            "3/0": attrs("Third", "3"),
        },
    },
    # replaced by a quirk (v1)
    3: {
        "nd": sim.nd_bytes(manufacturer=0x1037).hex(),
        "eps": [[1, 260, 0x0100, 1, [0, 4, 5, 6], [0x19]], [2, 260, 0x0100, 1, [0, 4, 6], []]],
        "attrs": {"1/0": attrs("QOne", "One"), "2/0": attrs("QOne", "One")},
    },
    # replaced by a quirk (v2)
    4: {
        "nd": sim.nd_bytes(manufacturer=0x1037).hex(),
        "eps": [[1, 260, 0x0101, 1, [0, 4, 6, 8], [0x19]]],
        "attrs": {"1/0": attrs("QTwo", "Two")},
    },
    # answers for neither model nor manufacturer
    5: {
        "nd": sim.nd_bytes(logical=1, desc=3, server=0x7FFF, out=0xFFFF, buf=0).hex(),
        "eps": [[9, 260, 0x0302, 0, [0, 4, 0x0402, 6], [4]]],
        "attrs": {},
    },
    # with an endpoint that turns out to be inactive
    6: {
        "nd": sim.nd_bytes(manufacturer=0x1234).hex(),
        "eps": [[5, None, None, 0, [], []], [1, 260, 0x0051, 0, [0, 4, 6], []]],
        "attrs": {"1/0": attrs("Half", "Plug")},
    },
    # names itself in pieces, and not in the order of its endpoints' numbers
    7: {
        "nd": sim.nd_bytes(manufacturer=0x1234).hex(),
        "eps": [
            [3, 260, 0x0051, 0, [0, 6], []],
            [1, 260, 0x0051, 0, [0, 4, 6], [0]],
            [2, 260, 0x0051, 0, [0, 4, 6], []],
        ],
        "attrs": {
            "3/0": {"4": sim.cstr("First")},
            "1/0": {"4": sim.cstr("Part"), "5": sim.cstr("One")},
            "2/0": attrs("Whole", "Two"),
        },
    },
}
QUIRKED = {3, 4}

# (device, endpoint, cluster, side) that ever exist on devices, before and after quirks
TARGETS = [
    (n, e[0], c, side)
    for n, d in DESCS.items()
    for e in d["eps"]
    for side, cs in ((0, e[4]), (1, e[5]))
    for c in cs
]
# in the database only a quirk's attributes are stored for these
VIRTUAL = [(3, 1, 8, 0), (3, 77, 6, 0), (4, 1, 0x0300, 0)]


class Custom(zigpy.quirks.CustomCluster, zg.OnOff):
    pass


REGISTRY = zigpy.quirks.registry.DeviceRegistry()


class QuirkOne(zigpy.quirks.CustomDevice):
    replacement = {
        "manufacturer": "Renamed",
        "model": "Better one",
        "endpoints": {
            1: {
                "profile_id": 260,
                "device_type": 0x0102,
                "input_clusters": [0, 4, Custom, 8],
                "output_clusters": [0x19],
            },
            2: {"input_clusters": [0, 4, 6], "output_clusters": []},
            77: {
                "profile_id": 260,
                "device_type": 2,
                "input_clusters": [6],
                "output_clusters": [],
            },
        },
    }


# only in the registry of these checks
QuirkOne.signature = {
    "models_info": [("QOne", "One")],
    "endpoints": {
        1: {
            "profile_id": 260, "device_type": 0x0100,
            "input_clusters": [0, 4, 5, 6], "output_clusters": [0x19],
        },
        2: {
            "profile_id": 260, "device_type": 0x0100,
            "input_clusters": [0, 4, 6], "output_clusters": [],
        },
    },
}
REGISTRY.add_to_registry(QuirkOne)
v2.QuirkBuilder("QTwo", "Two", registry=REGISTRY).replaces(Custom, endpoint_id=1).adds(
    0x0300, endpoint_id=1
).add_to_registry()

# ------------------------------------------------------------------ values
# Those that SQLite can hold: [type, hex]; the rest are the business of the suite `limits`


def le(n, signed=False):
    def conv(x):
        return x.to_bytes(n, "little", signed=signed).hex()

    return conv


def ints(n, signed=False):
    bits = 8 * n
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    hi = min(hi, 2**63 - 1)
    return st.one_of(
        st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1, 2, hi // 2, hi - 1])
    ).map(le(n, signed))


def tagged(tag, s):
    return s.map(lambda x: [tag, x])


def lv(b):
    return (bytes([len(b)]) + b).hex()


VALUES = st.one_of(
    tagged(0x10, st.sampled_from(["00", "01"])),
    tagged(0x18, ints(1)),
    tagged(0x19, ints(2)),
    tagged(0x20, ints(1)),
    tagged(0x21, ints(2)),
    tagged(0x23, ints(4)),
    tagged(0x25, ints(6)),
    tagged(0x27, ints(8)),
    tagged(0x28, ints(1, True)),
    tagged(0x29, ints(2, True)),
    tagged(0x2B, ints(4, True)),
    tagged(0x2F, ints(8, True)),
    tagged(0x30, ints(1)),
    tagged(0x31, ints(2)),
    tagged(0x39, st.floats(width=32, allow_nan=False).map(lambda x: struct.pack("<f", x).hex())),
    tagged(0x3A, st.floats(allow_nan=False).map(lambda x: struct.pack("<d", x).hex())),
    tagged(0x41, st.binary(max_size=6).map(lv)),
    tagged(
        0x42,
        st.text(alphabet="aé0 ☃-", max_size=5).map(lambda s: lv(s.encode())),
    ),
    tagged(0xE2, ints(4)),
)
ADDRESSES = tagged(0xF0, st.binary(min_size=8, max_size=8).map(bytes.hex))
ATTRS = [0, 1, 2, 3, 4, 5, 0x10, 0x11, 0x12, 0x4000, 0x4001, 0xFFFD, 0xF123]

# ------------------------------------------------------------------ histories


def bools(p=0.5):
    return st.booleans()


@st.composite
def cases(draw):
    # few devices at a time, so that histories are about the same ones
    devs = draw(st.lists(st.integers(1, 7), min_size=1, max_size=draw(st.integers(1, 5)), unique=True))
    return draw(histories(devs))


def operations(devs):
    dev = st.sampled_from(devs)
    cl = st.sampled_from([x for x in TARGETS if x[0] in devs]).map(list)
    any_cl = cl
    virtual = [x for x in VIRTUAL if x[0] in devs]
    if virtual:
        any_cl = one_of(cl, cl, cl, cl, st.sampled_from(virtual).map(list))
    attr = st.sampled_from(ATTRS)
    neighbor = st.tuples(
        st.integers(0, 7), st.sampled_from(NWKS), st.integers(0, 255), st.integers(0, 255),
        st.integers(0, 255), st.integers(0, 255),
    ).map(list)
    route = st.tuples(
        st.sampled_from(NWKS), st.integers(0, 255), st.sampled_from(NWKS)
    ).map(list)
    gid = st.sampled_from([0, 1, 2, 0xFFFF])
    relays = st.lists(st.sampled_from([0, 0x1001, 0x1002, 0x9999, 0xFFFF]), max_size=4)
    ep = st.sampled_from(
        [x for x in [(1, 1), (2, 2), (3, 1), (3, 2), (4, 1), (5, 9), (6, 1), (7, 1)] if x[0] in devs]
    ).map(list)
    return st.one_of(
        st.tuples(
            st.just("join"), dev, st.integers(0, 5),
            st.sampled_from([None, None, None, None, 0x0002, 0x0004, 0x0004, "zcl"]),
        ),
        st.tuples(st.just("remove"), dev, bools(), st.sampled_from([0, 0.001, 1, 40, 40])),
        st.tuples(
            st.just("report"), any_cl,
            st.lists(st.tuples(attr, VALUES).map(list), min_size=1, max_size=3),
        ),
        st.tuples(
            st.just("report"), any_cl,
            st.lists(st.tuples(attr, VALUES).map(list), min_size=1, max_size=3),
        ),
        # the address of the alarm panel
        st.tuples(
            st.just("report"), st.just([1, 1, 0x0500, 0]),
            st.tuples(st.just(0x0010), ADDRESSES).map(lambda x: [list(x)]),
        ),
        st.tuples(st.just("clear"), any_cl, attr),
        st.tuples(st.just("unsupported"), cl, attr, bools()),
        st.tuples(st.just("read"), cl, st.lists(st.sampled_from([0, 1, 4, 5]), min_size=1, max_size=3, unique=True)),
        st.tuples(st.just("group"), gid, st.sampled_from([None, "", "one", "x;y'\"--"])),
        st.tuples(st.just("ungroup"), gid),
        st.tuples(st.just("member"), gid, ep, bools()),
        st.tuples(st.just("groups"), ep, st.lists(gid, max_size=3, unique=True)),
        st.tuples(
            st.just("scan"), st.sampled_from([None, None, None, 0.4, 2]), dev,
            st.lists(neighbor, max_size=4), st.lists(route, max_size=4),
        ),
        st.tuples(st.just("relays"), dev, one_of(st.none(), relays, relays, relays)),
        st.tuples(st.just("backup"), st.integers(0, 3), st.integers(0, 5), st.integers(0, 3)),
        st.tuples(st.just("packet"), dev),
        st.tuples(st.just("wait"), st.sampled_from([0.001, 1, 20, 40])),
        st.just(("restart",)),
    ).map(list)


def histories(devs):
    dev = st.sampled_from(devs)
    op = operations(devs)
    return st.fixed_dictionaries(
        {
            "first": st.one_of(
                st.lists(dev, min_size=1, max_size=4, unique=True),
                st.lists(dev, min_size=1, max_size=4, unique=True),
                st.just([]),
            ),
            "ops": st.lists(op, min_size=1, max_size=25),
        }
    )


# groups of targets that are easily mistaken for one another: the two sides of a cluster, the
# same cluster on other endpoints, neighbouring ids
ALIKE = [
    [[2, 1, 0xFC11, 0], [2, 1, 0xFC11, 1]],
    [[2, 2, 0x1000, 0], [2, 2, 0x1000, 1]],
    [[3, 1, 6, 0], [3, 2, 6, 0]],
    [[1, 1, 6, 0], [1, 1, 6, 1]],
    [[2, 1, 0, 0], [2, 2, 0, 0], [2, 3, 0, 0]],
    [[5, 9, 4, 0], [5, 9, 4, 1]],
    [[1, 1, 6, 0], [4, 1, 6, 0]],
    [[1, 1, 4, 0], [1, 1, 6, 0], [1, 1, 8, 0]],
]


@st.composite
def focused(draw):
    """Many changes to few things: every kind of record is made, changed, unmade and made again
    beside others that differ from it in one respect only."""
    topic = draw(st.sampled_from(["attributes", "unsupported", "groups", "routing", "all"]))
    alike = draw(st.sampled_from(ALIKE))
    devs = sorted({x[0] for x in alike})
    if topic == "groups":
        devs = draw(st.sampled_from([[3], [2], [3, 4], [1, 4]]))
    elif topic == "routing":
        devs = draw(st.sampled_from([[1], [1, 3], [3], [1, 2]]))
    target = st.sampled_from(alike)
    pair = draw(st.lists(st.sampled_from(ATTRS), min_size=2, max_size=2, unique=True))
    attr = st.sampled_from(pair)
    values = st.sampled_from(draw(st.lists(VALUES, min_size=2, max_size=3)))
    dev = st.sampled_from(devs)
    gids = draw(st.sampled_from([[0, 1], [1, 2], [1, 0xFFFF], [0x0100, 0x0001]]))
    gid = st.sampled_from(gids)
    eps = [[n, e[0]] for n in devs for e in DESCS[n]["eps"] if 4 in e[4]]
    ops = []
    if topic in ("attributes", "all"):
        report = st.tuples(st.just("report"), target, st.tuples(attr, values).map(lambda x: [list(x)]))
        ops += [report, report, report, st.tuples(st.just("clear"), target, attr)]
    if topic in ("unsupported", "all"):
        ops += [st.tuples(st.just("unsupported"), target, attr, bools())] * 2
    if topic in ("groups", "all") and eps:
        ep = st.sampled_from(eps)
        ops += [
            st.tuples(st.just("member"), gid, ep, bools()),
            st.tuples(st.just("member"), gid, ep, bools()),
            st.tuples(st.just("groups"), ep, st.lists(gid, max_size=2, unique=True)),
            st.tuples(st.just("group"), gid, st.sampled_from([None, "", "one", "two"])),
            st.tuples(st.just("ungroup"), gid),
        ]
    if topic in ("routing", "all"):
        hops = draw(st.permutations([0x1001, 0x1002, 0x9999, 0]))
        path = st.sampled_from([[], hops[:1], hops[1:2], hops[:2], hops[2:], hops[1::-1]])
        near = st.sampled_from([[1, 0x1001, 18, 0, 1, 50], [2, 0x1002, 18, 0, 1, 50], [1, 0x1001, 18, 0, 1, 51]])
        way = st.sampled_from([[0x1001, 0, 0x1002], [0x1002, 0, 0x1002], [0x1001, 1, 0x1002]])
        ops += [
            st.tuples(st.just("relays"), dev, one_of(path, path, path, st.none())),
            st.tuples(
                st.just("scan"), st.just(None), dev, st.lists(near, max_size=2),
                st.lists(way, max_size=2),
            ),
        ]
    more = [
        st.tuples(st.just("join"), dev, st.sampled_from([0, 1, 5]), st.just(None)),
        st.tuples(st.just("remove"), dev, bools(), st.sampled_from([0, 40])),
        st.just(("restart",)),
        st.tuples(st.just("wait"), st.sampled_from([1, 40])),
    ]
    op = one_of(*ops * 6, *more)
    return {
        "first": devs,
        "ops": [list(x) for x in draw(st.lists(op, min_size=draw(st.sampled_from([4, 10, 16])), max_size=30))],
    }


class Dev(sim.Sim):
    def __init__(self, n):
        super().__init__(n, NWKS[n - 1], DESCS[n])
        self.n = n
        self.groups = {}
        self.tables = {LQI: [], RTG: []}
        self.fault = None
        for cl in (LQI, RTG):
            self.handlers[0, cl] = lambda data, cl=cl: self.page(cl, data)
        for e in self.desc["eps"]:
            if 4 in e[4]:
                for cmd in (0, 2, 3):
                    self.handlers[e[0], 4, cmd] = (
                        lambda data, tsn, body, back, manuf, ep=e[0], cmd=cmd: self.group(
                            ep, cmd, tsn, body
                        )
                    )

    def page(self, cl, data):
        i = data[1]
        rows = self.tables[cl][i:i + 2]
        return (
            b"\x00"
            + bytes([len(self.tables[cl]), i, len(rows)])
            + b"".join((nb_bytes if cl == LQI else rt_bytes)(r) for r in rows)
        )

    def group(self, ep, cmd, tsn, body):
        mine = self.groups.setdefault(ep, [])
        if cmd == 2:
            out = bytes([0xFE, len(mine)]) + sim.le_list16(mine)
        else:
            gid = body[0] | body[1] << 8
            if cmd == 0 and gid not in mine:
                mine.append(gid)
            elif cmd == 3 and gid in mine:
                mine.remove(gid)
            out = b"\x00" + body[:2]
        return [bytes([0x19, tsn, cmd]) + out]


def nb_bytes(e):
    n, nwk, flags, permit, depth, lqi = e
    ieee = fakes.NCP_IEEE if n == 0 else fakes.eui(n)
    return (
        bytes(range(1, 9)) + ieee.serialize() + sim.le16(nwk) + bytes([flags, permit, depth, lqi])
    )


def rt_bytes(e):
    return sim.le16(e[0]) + bytes([e[1]]) + sim.le16(e[2])


# ------------------------------------------------------------------ pictures


def value(v):
    """Values that Python calls equal are equal."""
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        try:
            if v == int(v):
                return int(v)
        except (OverflowError, ValueError):
            pass
    return int(v) if isinstance(v, bool) else fakes.canon(v)


def number(x):
    return None if x is None else int(x)


def picture(app):
    devices = {}
    for ieee, d in app.devices.items():
        clusters = {}
        for ep in d.non_zdo_endpoints:
            for side, cs in (("in", ep.in_clusters), ("out", ep.out_clusters)):
                for c in cs.values():
                    clusters[f"{ep.endpoint_id}/{side}/{c.cluster_id}"] = {
                        "class": type(c).__name__,
                        "cache": {a: value(v) for a, v in c._attr_cache.items()},
                        "updated": {
                            a: v.timestamp() for a, v in c._attr_last_updated.items()
                        },
                        "unsupported": sorted(
                            a for a in c.unsupported_attributes if isinstance(a, int)
                        ),
                        "unsupported names": sorted(
                            a for a in c.unsupported_attributes if isinstance(a, str)
                        ),
                    }
        devices[str(ieee)] = {
            "nwk": int(d.nwk),
            "status": int(d.status),
            "initialized": d.is_initialized,
            "class": type(d).__name__,
            "seen": d.last_seen or 0,
            "node": fakes.canon(d.node_desc),
            "manufacturer": d.manufacturer,
            "model": d.model,
            "relays": None if d.relays is None else [int(x) for x in d.relays],
            "endpoints": {
                ep.endpoint_id: [
                    number(ep.profile_id), number(ep.device_type),
                    isinstance(ep.device_type, enum.Enum) and type(ep.device_type).__name__,
                    int(ep.status), type(ep).__name__,
                ]
                for ep in d.non_zdo_endpoints
            },
            "member of": {
                ep.endpoint_id: sorted(int(g) for g in ep.member_of)
                for ep in d.non_zdo_endpoints
            },
            "clusters": clusters,
        }
    return {
        "devices": devices,
        "groups": {
            int(g.group_id): [g.name, sorted((str(i), e) for i, e in g)]
            for g in app.groups.values()
        },
        "neighbors": {
            str(i): [fakes.canon(n) for n in ns] for i, ns in app.topology.neighbors.items() if ns
        },
        "routes": {
            str(i): [fakes.canon(r) for r in rs] for i, rs in app.topology.routes.items() if rs
        },
        "backups": [bk.canon(b) for b in app.backups.backups],
    }


def only(pic, known):
    """The part about devices that should be known."""
    return {
        "devices": {i: d for i, d in pic["devices"].items() if i in known},
        "groups": {
            g: [name, [m for m in members if m[0] in known]]
            for g, (name, members) in pic["groups"].items()
        },
        "neighbors": {i: n for i, n in pic["neighbors"].items() if i in known},
        "routes": {i: r for i, r in pic["routes"].items() if i in known},
        "backups": pic["backups"],
    }


def differences(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in {**a, **b}:
            if k not in a:
                yield f"{path}/{k}: new, {b[k]!r}"
            elif k not in b:
                yield f"{path}/{k}: gone, {a[k]!r}"
            else:
                yield from differences(a[k], b[k], f"{path}/{k}")
    elif a != b:
        yield f"{path}: {a!r} before, {b!r} after"


def same(after, before, what):
    d = list(differences(before, after))
    if d:
        raise Violation(f"{what} differs after the restart: {'; '.join(d)[:1500]}")


def close(what, a, b):
    """A time is stored at most 30 s late."""
    if not 0 <= a - b <= 30.001:
        raise Violation(f"{what}: {a} before the restart, {b} after")


def compare(before, after, known):
    check_eq(sorted(after["devices"]), sorted(known), "devices after the restart")
    check_eq(
        sorted(before["devices"]), sorted(known), "devices before the restart and those expected"
    )
    for i, x in before["devices"].items():
        y = after["devices"][i]
        close(f"last seen of {i}", x.pop("seen"), y.pop("seen"))
        cx, cy = x.pop("clusters"), y.pop("clusters")
        same(y, x, f"device {i}")
        check_eq(sorted(cy), sorted(cx), f"clusters of {i}")
        for k in cx:
            what = f"{k} of {i}"
            a, b = cx[k], cy[k]
            ua, ub = a.pop("updated"), b.pop("updated")
            if y["class"] == "QuirkOne" and "/in/0" in k:
                # quirks (v1) start without what was read during the interview
                for attr in (4, 5):
                    if attr not in a["cache"] and attr in b["cache"]:
                        check_eq(
                            b["cache"].pop(attr),
                            {4: "QOne", 5: "One"}[attr],
                            f"attribute {attr} of {what}",
                        )
                        ub.pop(attr)
            same(b, a, what)
            check_eq(sorted(ua), sorted(ub), f"attributes with a time of {what}")
            for attr in ua:
                close(f"time of attribute {attr} of {what}", ua[attr], ub[attr])
    for k in ("groups", "neighbors", "routes", "backups"):
        same(after[k], before[k], k)


# ------------------------------------------------------------------ running


class Watch:
    """Who is known: interviewed, and not removed since."""

    def __init__(self, known=()):
        self.known = set(known)

    def device_initialized(self, dev):
        self.known.add(str(dev.ieee))

    def device_removed(self, dev):
        self.known.discard(str(dev.ieee))


def make_backup(epid, key, step, number):
    return bk.mk(
        {
            "time": 1700000000 * 10**6 + number * 10**9 + step, "tz": 60 * (step % 3),
            "nwk": 0, "ieee": "0102030405060708", "type": 0, "model": "x", "manufacturer": None,
            "version": "1", "epid": f"{epid:02x}" * 8, "pan": 0x1234, "update": 0, "manager": 0,
            "channel": 15, "mask": [15], "sec": 5,
            "nk": {"key": "11" * 16, "tx": 1000 * key, "rx": 0, "seq": 0, "ieee": "ff" * 8},
            "tc": {"key": "22" * 16, "tx": 0, "rx": 0, "seq": 0, "ieee": "0102030405060708"},
            "keys": [], "children": [], "nwks": {"1112131415161718": step}, "stack": {"a;b": [1]},
            "meta": {"m": "ü"}, "source": "verif",
        }
    )


class World:
    def __init__(self, loop, path):
        self.loop = loop
        self.path = path
        self.sims = {n: Dev(n) for n in DESCS}
        self.watch = Watch()
        self.app = None
        self.interviewing = False   # changes can also happen to devices before they are known
        self.stats = {}

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    async def open(self):
        self.app = await db.open_app(self.path)
        self.app.add_listener(self.watch)
        self.net = sim.Net(self.app, fault=self.fault)
        for s in self.sims.values():
            self.net.add(s)

    def fault(self, s, p):
        if s is None or s.fault is None:
            return None
        if s.fault == "zcl":
            return "lose" if p.dst_ep != 0 else None
        return "lose" if p.dst_ep == 0 and p.cluster_id == s.fault else None

    async def close(self):
        await self.app.shutdown()
        for _ in range(3):
            # nothing of the old application goes on
            tasks = [
                x for x in self.app._tasks if not x.done()
            ] + [
                x
                for d in self.app.devices.values()
                for x in (d._initialize_task, d._group_scan_task)
                if x is not None and not x.done()
            ]
            for x in tasks:
                x.cancel()
            await vloop.settle(5)
        self.net.send = None
        self.app.hooks["send_packet"] = lost

    async def restart(self):
        backlog = self.ctl.delay and not self.app._dblistener._callback_handlers.empty()
        if not backlog:
            await db.drain(self.app)
        known = set(self.watch.known)
        before = only(picture(self.app), known)
        await self.close()
        if backlog:
            # what was still to be written at the time is written by stopping
            self.count("backlog")
            if only(picture(self.app), known) != before:
                self.count("changed while stopping")
                before = None
        await self.open()
        if before is None:
            self.watch.known = set(picture(self.app)["devices"]) & known
            return
        self.watch.known = known
        compare(before, picture(self.app), known)
        self.count("restart")
        self.stats["devices"] = max(self.stats.get("devices", 0), len(known))

    def device(self, n):
        return self.app.devices.get(fakes.eui(n))

    def cluster(self, target):
        n, ep, cluster, side = target
        d = self.device(n)
        if d is None or ep not in d.endpoints:
            return None
        if not self.known(n) and (n in (3, 4) or not self.interviewing):
            return None
        ep = d.endpoints[ep]
        return (ep.out_clusters if side else ep.in_clusters).get(cluster)

    def known(self, n):
        return str(fakes.eui(n)) in self.watch.known

    async def op(self, op):
        app, kind = self.app, op[0]
        if kind == "join":
            _, n, slot, fault = op
            s = self.sims[n]
            nwk = NWKS[slot]
            for other in self.sims.values():
                if other is not s and other.nwk == nwk:
                    other.nwk = s.nwk
                    d = self.device(other.n)
                    if d is not None:
                        app.handle_join(other.nwk, d.ieee, 0)
            s.nwk = nwk
            s.fault = fault
            app.handle_join(t.NWK(nwk), s.ieee, t.NWK(0))
            await vloop.quiesce(self.loop, 0.05 if fault is None else 0.3)
            self.count("join" if fault is None else "failing join")
        elif kind == "remove":
            _, n, silent, wait = op
            if self.device(n) is None:
                return
            self.sims[n].fault = 0x0034 if silent else None
            await app.remove(fakes.eui(n))
            await pause(wait)
            self.count("remove")
        elif kind == "report":
            _, target, records = op
            c = self.cluster(target)
            if c is None:
                return
            n, ep, cluster, side = target
            records = [r for r in records if not (cluster == 0 and r[0] in (4, 5))]
            body = b"".join(
                sim.le16(a) + bytes([tag]) + bytes.fromhex(v) for a, (tag, v) in records
            )
            d = self.device(n)
            d._send_sequence = (d._send_sequence + 1) % 256
            # from the server of the attributes; of a client, as it would do itself
            control = 0x18 if not side else 0x10
            app.packet_received(
                fakes.packet(
                    t.NWK(d.nwk), cluster, bytes([control, d._send_sequence, 0x0A]) + body,
                    src_ep=ep, dst_ep=ep,
                    profile=d.endpoints[ep].profile_id,
                )
            )
            self.count("report")
        elif kind == "clear":
            c = self.cluster(op[1])
            if c is None or op[1][2] == 0 and op[2] in (4, 5):
                return
            c.update_attribute(op[2], None)
            self.count("clear")
        elif kind == "unsupported":
            _, target, attr, add = op
            c = self.cluster(target)
            if c is None:
                return
            if add:
                c.add_unsupported_attribute(attr)
            else:
                c.remove_unsupported_attribute(attr)
            self.count("unsupported")
        elif kind == "read":
            _, target, which = op
            c = self.cluster(target)
            if c is None:
                return
            task = self.loop.create_task(read(c, which))
            await vloop.quiesce(self.loop, 0.2)
            task.cancel()
            self.count("read")
        elif kind == "group":
            app.groups.add_group(op[1], op[2])
            self.count("group")
        elif kind == "ungroup":
            if op[1] in app.groups:
                app.groups.pop(op[1])
                self.count("ungroup")
        elif kind == "member":
            _, gid, (n, ep), add = op
            d = self.device(n)
            if not self.known(n) or d is None:
                return
            self.sims[n].fault = None
            ep = d.endpoints[ep]
            await (ep.add_to_group(gid) if add else ep.remove_from_group(gid))
            self.count("member")
        elif kind == "groups":
            _, (n, ep), gids = op
            d = self.device(n)
            if not self.known(n) or d is None:
                return
            s = self.sims[n]
            s.fault = None
            s.groups[ep] = list(gids)
            await d.endpoints[ep].group_membership_scan()
            self.count("group scan")
        elif kind == "scan":
            self.sims[op[2]].tables = {LQI: op[3], RTG: op[4]}
            task = self.loop.create_task(app.topology.scan())
            task.add_done_callback(lambda x: x.cancelled() or x.exception())
            if op[1] is None:
                await vloop.quiesce(self.loop, 60)
            else:
                await pause(op[1])
            self.count("scan")
        elif kind == "relays":
            _, n, relays = op
            d = self.device(n)
            if d is None:
                return
            if relays is None:
                d.relays = None
            else:
                app.handle_relays(d.nwk, [t.NWK(x) for x in relays])
            self.count("relays")
        elif kind == "backup":
            self.count("backup")
            app.backups.add_backup(make_backup(*op[1:], self.stats["backup"]))
        elif kind == "packet":
            d = self.device(op[1])
            if d is not None:
                app.packet_received(
                    fakes.packet(t.NWK(d.nwk), 0x0036, b"\x01\x00", src_ep=0, dst_ep=0, profile=0)
                )
        elif kind == "wait":
            await pause(op[1])
        elif kind == "restart":
            await self.restart()


async def lost(packet):
    pass


async def read(c, which):
    try:
        await c.read_attributes(which)
    except Exception:  # noqa: BLE001
        pass


async def pause(s):
    import asyncio

    if s:
        await asyncio.sleep(s)


@st.composite
def busy(draw):
    """The database is slower than the network: changes wait for one another to be written."""
    case = draw(one_of(cases(), focused(), focused()))
    return {**case, "slow": draw(st.sampled_from([0.02, 0.3, 0.9]))}


def execute(case, main_ops):
    """Runs main_ops(world) with the clock of the machine bound to that of the loop."""
    out = {}
    old = zigpy.quirks._DEVICE_REGISTRY
    zigpy.quirks._DEVICE_REGISTRY = REGISTRY
    frozen = freezegun.freeze_time(START.replace(tzinfo=None), ignore=["vlib", "hypothesis", "asyncio"])
    clock = frozen.start()
    try:
        with db.session() as (ctl, d):
            path = d / "zigbee.db"
            path.write_bytes(db.template())

            async def main(loop):
                t0 = loop.time()
                loop.on_advance = lambda now: clock.move_to(
                    (START + datetime.timedelta(seconds=now - t0)).replace(tzinfo=None)
                )
                w = World(loop, path)
                w.ctl = ctl
                ctl.delay = case.get("slow", 0)
                await w.open()
                c = fakes.add_coordinator(w.app)
                w.app.device_initialized(c)
                await main_ops(w)
                await w.close()
                out.update(w.stats)
                if loop.errors:
                    raise Violation(f"errors left in the loop: {loop.errors}")

            vloop.run(main)
    finally:
        frozen.stop()
        zigpy.quirks._DEVICE_REGISTRY = old
    return out


def run(case):
    async def ops(w):
        w.interviewing = True
        for n in case["first"]:
            await w.op(["join", n, n - 1, None])
        for op in case["ops"]:
            await w.op(op)
        await w.restart()

    stats = execute(case, ops)
    n = stats.pop("devices", 0)
    return {"labels": [*stats, f"{n - 1} devices"], "nontrivial": n > 1}


# ------------------------------------------------------------------ the limits of the database
# Values and places that the tables cannot hold; see the known findings

UNSTORABLE = {
    "a float that is no number": [0x39, "0000c07f"],
    "an array": [0x48, "20020001" + "02"],
    "a structure": [0x4C, "0100" + "2005"],
    "a time of day": [0xE0, "01020304"],
    "a date": [0xE1, "7a010203"],
    "an integer beyond 2**63": [0x27, "ff" * 8],
    "a key": [0xF1, "11" * 16],
    "an address in an attribute that is no address": [0xF0, "0102030405060708"],
}


def limit_cases(tier):
    for what in UNSTORABLE:
        yield {"what": "value", "value": what}
    yield {"what": "unsupported", "target": list(VIRTUAL[0])}
    yield {"what": "unsupported", "target": list(VIRTUAL[1])}
    yield {"what": "unsupported", "target": list(VIRTUAL[2])}
    yield {"what": "member", "endpoint": [3, 77]}


def run_limits(case):
    async def ops(w):
        for n in (1, 3, 4):
            await w.op(["join", n, n - 1, None])
        if case["what"] == "value":
            v = UNSTORABLE[case["value"]]
            await w.op(["report", [1, 1, 6, 0], [[0x4001, v]]])
        elif case["what"] == "unsupported":
            await w.op(["unsupported", case["target"], 0x4000, True])
        else:
            n, ep = case["endpoint"]
            w.app.groups.add_group(5).add_member(w.device(n).endpoints[ep])
        await w.restart()

    execute(case, ops)
    return True


CHECK = Check(
    "C09",
    rule="histories ending with at least one interviewed device besides the coordinator",
    assumptions=[
        "a device is known from the end of its interview until it is removed; one whose"
        " interview never ended is not recorded",
        "times of attributes and of devices are stored at most 30 s late (a documented limit of"
        " the number of writes)",
        "backups are made one after the other, at increasing times",
        "reports of the model and manufacturer strings are left out: they take effect at the"
        " next start",
    ],
    suites=[
        Suite("histories", run, strategy=cases, quick=6000, thorough=150000),
        Suite("focused", run, strategy=focused, quick=6000, thorough=150000),
        Suite("busy", run, strategy=busy, quick=2000, thorough=50000),
        Suite("limits", run_limits, cases=limit_cases),
    ],
)
