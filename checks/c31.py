"""C31: configuration is accepted exactly when valid and normalised stably."""

from __future__ import annotations

import copy
import os
import pathlib
import shutil
import tempfile
import warnings

from hypothesis import strategies as st
import voluptuous as vol

import zigpy.config as conf
import zigpy.ota
import zigpy.ota.providers as prov
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from vlib import fakes
from vlib.core import Check, Suite, Violation

MISSING = object()

# ------------------------------------------------------------------ paths
# Paths named in a case are symbols, made real below one scratch directory
_SCRATCH = None


def scratch() -> pathlib.Path:
    global _SCRATCH

    if _SCRATCH is None or not _SCRATCH.exists():
        import atexit

        _SCRATCH = pathlib.Path(tempfile.mkdtemp(prefix="verif-c31-"))
        (_SCRATCH / "index.json").write_text("{}")
        (_SCRATCH / "other index.json").write_text("[]")
        (_SCRATCH / "folder").mkdir()
        (_SCRATCH / "folder" / "sub").mkdir()
        pid = os.getpid()
        path = _SCRATCH

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)

    return _SCRATCH


FILES = ["index.json", "other index.json"]
FOLDERS = ["folder", "folder/sub"]

# ------------------------------------------------------------------ raw values
# A raw value is JSON; {"$": kind, "v": x} stands for a typed object


def make(raw):
    if isinstance(raw, list):
        return [make(x) for x in raw]
    if not isinstance(raw, dict):
        return raw
    if "$" not in raw:
        return {k: make(v) for k, v in raw.items()}
    kind, v = raw["$"], raw["v"]
    if kind == "path":
        return scratch() / v
    if kind == "strpath":
        return str(scratch() / v)
    if kind == "channels":
        return t.Channels.from_channel_list(v)
    if kind == "key":
        return t.KeyData(v)
    if kind == "ieee":
        return t.EUI64(v)
    if kind == "epid":
        return t.ExtendedPanId(v)
    if kind == "pan":
        return t.PanId(v)
    if kind == "none":
        return None
    if kind == "float":
        return float(v)
    if kind == "bytes":
        return bytes.fromhex(v)
    if kind == "descriptor":
        return zdo_t.SimpleDescriptor(**v)
    if kind == "tuple":
        return tuple(make(x) for x in v)
    raise AssertionError(kind)


def typed(kind, v):
    return {"$": kind, "v": v}


# ------------------------------------------------------------------ expected settings
# What a setting must become is a picture; `pic` draws the picture of an actual setting


def pic(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, t.Channels):
        return ["channels", sorted(v)]
    if isinstance(v, t.KeyData):
        return ["key", list(v)]
    if isinstance(v, t.ExtendedPanId):
        return ["epid", list(v)]
    if isinstance(v, t.EUI64):
        return ["ieee", list(v)]
    if isinstance(v, t.PanId):
        return ["pan", int(v)]
    if isinstance(v, int):
        return ["int", int(v)]
    if isinstance(v, float):
        return ["float", v]
    if isinstance(v, str):
        return ["str", v]
    if isinstance(v, pathlib.Path):
        return ["path", str(v.relative_to(scratch()))]
    if isinstance(v, zdo_t.SimpleDescriptor):
        return [
            "sd",
            *(None if x is None else int(x) for x in (v.endpoint, v.profile, v.device_type, v.device_version)),
            *(None if x is None else [int(y) for y in x] for x in (v.input_clusters, v.output_clusters)),
        ]
    if isinstance(v, prov.BaseOtaProvider):
        return provider_pic(v)
    if isinstance(v, type):
        return ["class", v.NAME]
    if isinstance(v, list):
        return ["list", [pic(x) for x in v]]
    if isinstance(v, dict):
        return ["dict", {k: pic(x) for k, x in v.items()}]
    return ["?", repr(v)]


def provider_pic(p):
    where = getattr(p, "index_file", None) or getattr(p, "path", None)
    return [
        "provider",
        p.NAME,
        p.url,
        [int(x) for x in p.manufacturer_ids],
        bool(p.override_previous),
        None if where is None else str(pathlib.Path(where).relative_to(scratch())),
    ]


# ------------------------------------------------------------------ settings
# Each setting: strategies of (raw, expected picture) and of raw values outside its domain

ODD = st.sampled_from(
    [
        None,
        "",
        "abc",
        "0x",
        "0xZZ",
        "1.5",
        "12 34",
        [],
        [1],
        {},
        {"a": 1},
        typed("float", 12.5),
        typed("bytes", "0b"),
        typed("tuple", [11]),
    ]
)


def number_forms(n: int):
    return st.sampled_from(
        [n, str(n), f"0x{n:x}", f"0x{n:X}", f"0x{n:04x}", f"{n:05d}"]
    )


def numbers(lo: int, hi: int, none=False, wrap=lambda n: ["int", n]):
    """Integers in either form within bounds."""

    def forms(n):
        return number_forms(n).map(lambda raw: (raw, wrap(n)))

    edge = st.sampled_from([lo, lo + 1, hi - 1, hi])
    good = st.one_of(edge, st.integers(lo, hi)).flatmap(forms)
    outside = [lo - 1, hi + 1, lo - 256, hi + 256, -1, hi * 16 + 1]
    outside = [n for n in outside if not lo <= n <= hi]
    bad = st.sampled_from(outside).flatmap(
        lambda n: st.sampled_from([n, str(n)] + ([hex(n)] if n >= 0 else []))
    )
    bad = st.one_of(bad, ODD if not none else ODD.filter(lambda x: x is not None))
    if none:
        good = st.one_of(good, st.just((None, None)))
    return good, bad


def mixed_case(s: str):
    return st.lists(st.booleans(), min_size=len(s), max_size=len(s)).map(
        lambda up: "".join(c.upper() if u else c for c, u in zip(s, up))
    )


TRUE = ["1", "true", "yes", "on", "enable"]
FALSE = ["0", "false", "no", "off", "disable"]


def boolean_forms():
    def words(ws, value):
        return st.tuples(
            st.sampled_from(ws).flatmap(mixed_case),
            st.sampled_from(["", " ", "\t", "\n"]),
            st.sampled_from(["", " ", "\n"]),
        ).map(lambda x: (x[1] + x[0] + x[2], value))

    good = st.one_of(
        st.sampled_from([(True, True), (False, False), (1, True), (0, False), (2, True), (-1, True), (255, True)]),
        words(TRUE, True),
        words(FALSE, False),
    )
    bad = st.one_of(
        ODD, st.sampled_from(["2", "tru", "yess", "none", "onoff", "enabled", "01"])
    )
    return good, bad


def eui_forms(kind):
    def forms(b):
        shown = "".join(f"{x:02x}" for x in reversed(b))
        pairs = [shown[i : i + 2] for i in range(0, 16, 2)]
        return st.sampled_from([":".join(pairs), shown, " ".join(pairs)]).flatmap(
            lambda s: st.sampled_from([s, s.upper(), typed(kind, b)]).map(
                lambda raw: (raw, [kind, b])
            )
        )

    good = st.one_of(
        st.just((None, None)),
        st.lists(st.integers(0, 255), min_size=8, max_size=8).flatmap(forms),
    )
    bad = st.one_of(
        ODD.filter(lambda x: x is not None),
        st.sampled_from(
            [
                "00:11:22:33:44:55:66",
                "00:11:22:33:44:55:66:77:88",
                "00:11:22:33:44:55:66:7g",
                "0011223344556",
                5,
                0,
                -1,
                typed("tuple", [1, 2, 3, 4, 5, 6, 7, 8]),
                {"a": 1},
            ]
        ),
    )
    return good, bad


def key_forms(none):
    byte = st.one_of(st.sampled_from([0, 1, 127, 128, 254, 255]), st.integers(0, 255))
    good = st.lists(byte, min_size=16, max_size=16).flatmap(
        lambda k: st.sampled_from([(k, ["key", k]), (typed("key", k), ["key", k])])
    )
    if none:
        good = st.one_of(good, st.just((None, None)))
    wrong = st.one_of(
        st.lists(byte, min_size=0, max_size=15),
        st.lists(byte, min_size=17, max_size=33),
        st.tuples(
            st.lists(byte, min_size=16, max_size=16),
            st.integers(0, 15),
            st.sampled_from([-1, 256, 300, -128, "0", None, typed("float", 1.0), [1]]),
        ).map(lambda x: x[0][: x[1]] + [x[2]] + x[0][x[1] + 1 :]),
    )
    odd = ODD.filter(lambda x: not (none and x is None))
    bad = st.one_of(
        wrong,
        odd,
        st.sampled_from(["00" * 16, "ZigBeeAlliance09", typed("bytes", "00" * 16)]),
    )
    return good, bad


def channel_lists():
    chans = st.lists(st.integers(11, 26), min_size=1, max_size=16)
    good = chans.flatmap(
        lambda c: st.sampled_from(
            [
                (c, ["channels", sorted(set(c))]),
                (typed("channels", c), ["channels", sorted(set(c))]),
            ]
        )
    )
    bad = st.one_of(
        st.tuples(
            chans,
            st.integers(0, 15),
            st.sampled_from(
                [10, 27, 0, -11, 255, "abc", None, [11], {}, typed("float", 11.5)]
            ),
        ).map(lambda x: x[0][: x[1]] + [x[2]] + x[0][x[1] :]),
        ODD.filter(lambda x: x != []),
        st.sampled_from([11, "11", "all"]),
    )
    return good, bad


def ints_only(lo, hi):
    good = st.one_of(st.sampled_from([lo, lo + 1, hi]), st.integers(lo, hi)).map(
        lambda n: (n, ["int", n])
    )
    bad = st.one_of(
        ODD, st.sampled_from([lo - 1, lo - 2, -(2**31), typed("float", lo + 0.5)])
    )
    return good, bad


def seconds():
    good = st.one_of(
        st.integers(0, 10**6).flatmap(
            lambda n: st.sampled_from([(n, ["float", float(n)]), (str(n), ["float", float(n)])])
        ),
        st.integers(0, 10**6).map(lambda n: (typed("float", n / 8), ["float", n / 8])),
    )
    bad = st.sampled_from(
        [-1, "-1", typed("float", -0.5), None, "abc", "", [], {}, [1], "0x10", "1 2"]
    )
    return good, bad


def texts(none):
    text = st.text(min_size=0, max_size=20)
    good = text.map(lambda s: (s, ["str", s]))
    if none:
        good = st.one_of(good, st.just((None, None)))
    bad = st.sampled_from(
        [1, 0, True, [], {}, ["a"], typed("float", 1.0), typed("bytes", "6162")]
        + ([] if none else [None])
    )
    return good, bad


def one_of(values, wrong):
    return (
        st.sampled_from(values).map(lambda v: (v, pic(v))),
        st.sampled_from(wrong),
    )


URLS = [
    "https://example.org/index.json",
    "http://example.org/a?b=c",
    "https://ota.example.com:8443/x/y",
]
NOT_URLS = ["example", "", "//", "http://", 5, [], {}, "/path", "foo bar"]

NAMES = list(prov.OTA_PROVIDER_TYPES)
URL_OPTIONAL = ["ikea", "ledvance", "salus", "sonoff", "inovelli", "thirdreality", "z2m"]
CLASS = {
    "ikea": (prov.Tradfri, [0x117C], "https://fw.ota.homesmart.ikea.com/check/update/prod"),
}
WARNING = conf.CONF_OTA_ALLOW_ADVANCED_DIR_STRING


def class_defaults(name):
    cls = prov.OTA_PROVIDER_TYPES[name]
    return cls.DEFAULT_URL, [int(x) for x in cls.MANUFACTURER_IDS]


def provider_forms():
    """Provider descriptions and the provider each must give."""

    manuf = st.one_of(
        st.just(MISSING),
        st.just(None),
        st.lists(st.integers(0, 0xFFFF), max_size=3),
    )

    @st.composite
    def good(draw):
        name = draw(st.sampled_from(NAMES))
        raw = {"type": name}
        url, ids = class_defaults(name)
        where = None
        ids_given = draw(manuf)
        if ids_given is not MISSING:
            if ids_given is None:
                raw["manufacturer_ids"] = None
            else:
                raw["manufacturer_ids"] = [draw(number_forms(n)) for n in ids_given]
                ids = ids_given
        override = draw(st.sampled_from([MISSING, False, True, True]))
        if override is not MISSING:
            raw["override_previous"] = override
        else:
            override = False
        if name in URL_OPTIONAL:
            if draw(st.booleans()):
                url = raw["url"] = draw(st.sampled_from(URLS))
        elif name == "zigpy_remote":
            url = raw["url"] = draw(st.sampled_from(URLS))
        elif name in ("zigpy_local", "z2m_local"):
            where = draw(st.sampled_from(FILES))
            raw["index_file"] = typed(draw(st.sampled_from(["path", "strpath"])), where)
            url = None
        elif name == "advanced":
            where = draw(st.sampled_from(FOLDERS))
            raw["path"] = typed(draw(st.sampled_from(["path", "strpath"])), where)
            raw["warning"] = WARNING
            url = None
        else:
            raise AssertionError(name)
        return raw, ["provider", name, url, ids, override, where]

    @st.composite
    def bad(draw):
        how = draw(st.integers(0, 6))
        if how == 0:
            return draw(
                st.one_of(st.sampled_from([{}, "ikea", None, 5, [], ["ikea"], True]))
            )
        raw, _ = draw(good())
        if how == 1:
            raw["type"] = draw(
                st.sampled_from(["IKEA", "foo", "", None, 5, ["ikea"], {}])
            )
        elif how == 2:
            del raw["type"]
        elif how == 3:
            raw["manufacturer_ids"] = draw(
                st.sampled_from([5, "0x1234", ["abc"], [None], [[1]], {"a": 1}, [{}]])
            )
        elif how == 4:
            raw["override_previous"] = draw(st.sampled_from(["yes", 1, None, []]))
        elif how == 5:
            raw[draw(st.sampled_from(["foo", "urls", "Path"]))] = 1
        elif raw["type"] == "advanced":
            if draw(st.booleans()):
                raw["warning"] = draw(st.sampled_from(["ok", None, True, WARNING + " "]))
            else:
                raw["path"] = draw(
                    st.sampled_from(
                        [typed("strpath", "index.json"), typed("strpath", "none"), 5, None, []]
                    )
                )
        elif "index_file" in raw:
            raw["index_file"] = draw(
                st.sampled_from(
                    [typed("strpath", "folder"), typed("path", "none"), 5, None, []]
                )
            )
        else:
            raw["url"] = draw(st.sampled_from(NOT_URLS))
        return raw

    return good(), bad()


def list_of(forms, max_size=4, empty=True):
    good, bad = forms
    goods = st.lists(good, min_size=0 if empty else 1, max_size=max_size)
    return (
        goods.map(lambda xs: ([x[0] for x in xs], ["list", [x[1] for x in xs]])),
        st.one_of(
            st.tuples(goods, st.integers(0, 4), bad).map(
                lambda x: [y[0] for y in x[0]][: x[1]]
                + [x[2]]
                + [y[0] for y in x[0]][x[1] :]
            ),
            st.sampled_from([5, "ikea", True, {"type": "ikea"}, None]),
        ),
    )


def descriptors():
    u8 = st.one_of(st.sampled_from([0, 1, 254, 255]), st.integers(0, 255))
    u16 = st.one_of(st.sampled_from([0, 0x104, 0xFFFF]), st.integers(0, 0xFFFF))
    keys = [
        "endpoint",
        "profile",
        "device_type",
        "device_version",
        "input_clusters",
        "output_clusters",
    ]
    values = st.tuples(
        u8, u16, u16, u8, st.lists(u16, max_size=4), st.lists(u16, max_size=4)
    )
    good = st.tuples(values, st.integers(0, 3)).map(lambda x: (
        typed("descriptor", dict(zip(keys, x[0]))) if x[1] == 0 else dict(zip(keys, x[0])), ["sd", *x[0]]))

    @st.composite
    def bad(draw):
        raw = dict(zip(keys, draw(values)))
        k = draw(st.sampled_from(keys))
        how = draw(st.integers(0, 4))
        if how == 4:        # a descriptor object that lacks something
            del raw[k]
            return typed("descriptor", raw)
        if how == 0:
            del raw[k]
        elif how == 1:
            raw[k] = draw(st.sampled_from([None, 0x10000, -1]))
            if k.endswith("clusters"):
                raw[k] = draw(st.sampled_from([None, [0x10000], [-1], 5]))
        elif how == 2:
            raw["extra"] = 1
        else:
            return draw(st.sampled_from([None, 5, "a", [], [1, 2], {}]))
        return raw

    return good, bad()


def names():
    return (
        st.sampled_from(NAMES).map(lambda n: (n, ["class", n])),
        st.sampled_from(["foo", "IKEA", "", None, 5, [], ["ikea"], {}, True]),
    )


def switch_or_url():
    good, bad = boolean_forms()
    return (
        st.one_of(good, st.sampled_from(URLS).map(lambda u: (u, ["str", u]))),
        st.sampled_from([None, [], {}, "foo", "", typed("float", 0.5)]),
    )


def files():
    return (
        st.tuples(st.sampled_from(["path", "strpath"]), st.sampled_from(FILES)).map(
            lambda x: (typed(*x), ["path", x[1]])
        ),
        st.sampled_from([typed("strpath", "folder"), typed("path", "none"), 5, None, []]),
    )


DEFAULT_PROVIDERS = ["ledvance", "sonoff", "inovelli", "thirdreality"]


def default_provider(name):
    url, ids = class_defaults(name)
    return ["provider", name, url, ids, False, None]


# where: (forms, default picture)
SETTINGS = {
    ("device", "path"): (texts(False), MISSING),
    ("device", "baudrate"): (
        (
            st.sampled_from([9600, 57600, 115200, 1000000]).map(lambda n: (n, ["int", n])),
            ODD,
        ),
        ["int", 115200],
    ),
    ("device", "flow_control"): (
        one_of(["hardware", "software", None], ["Hardware", "none", "", 1, [], {}]),
        None,
    ),
    ("database_path",): (texts(True), None),
    ("network", "channel"): (numbers(11, 26, none=True), None),
    ("network", "channels"): (channel_lists(), ["channels", [11, 15, 20, 25]]),
    ("network", "extended_pan_id"): (eui_forms("epid"), None),
    ("network", "key"): (key_forms(True), None),
    ("network", "key_sequence_number"): (numbers(0, 255), ["int", 0]),
    ("network", "pan_id"): (
        (
            st.one_of(
                numbers(0, 0xFFFE, none=True, wrap=lambda n: ["pan", n])[0],
                st.integers(0, 0xFFFE).map(lambda n: (typed("pan", n), ["pan", n])),
            ),
            numbers(0, 0xFFFF, none=True)[1],
        ),
        None,
    ),
    ("network", "tc_address"): (eui_forms("ieee"), None),
    ("network", "tc_link_key"): (key_forms(False), ["key", list(b"ZigBeeAlliance09")]),
    ("network", "update_id"): (numbers(0, 255), ["int", 0]),
    ("ota", "enabled"): (boolean_forms(), True),
    ("ota", "broadcast_enabled"): (boolean_forms(), True),
    ("ota", "broadcast_initial_delay"): (seconds(), ["float", 14040.0]),
    ("ota", "broadcast_interval"): (seconds(), ["float", 14040.0]),
    ("ota", "providers"): (
        list_of(provider_forms()),
        ["list", [default_provider(n) for n in DEFAULT_PROVIDERS]],
    ),
    ("ota", "disable_default_providers"): (list_of(names()), ["list", []]),
    ("ota", "extra_providers"): (list_of(provider_forms()), ["list", []]),
    **{
        ("ota", f"{name}_provider"): (switch_or_url(), MISSING)
        for name in ("ikea", "inovelli", "ledvance", "salus", "sonoff", "thirdreality")
    },
    ("ota", "z2m_remote_index"): (switch_or_url(), MISSING),
    ("ota", "z2m_local_index"): (files(), MISSING),
    ("topology_scan_period",): (ints_only(20, 10**6), ["int", 240]),
    ("topology_scan_enabled",): (boolean_forms(), True),
    ("topology_scan_skip_coordinator",): (boolean_forms(), False),
    ("backup_enabled",): (boolean_forms(), True),
    ("backup_period",): (
        (
            numbers(1, 10**6)[0],
            st.one_of(
                ODD, st.sampled_from([0, "0", "0x0", -1, "-5", -(2**31)])
            ),
        ),
        ["int", 1440],
    ),
    ("validate_network_settings",): (boolean_forms(), False),
    ("additional_endpoints",): (list_of(descriptors()), ["list", []]),
    ("max_concurrent_requests",): (ints_only(0, 10**6), ["int", 8]),
    ("source_routing",): (boolean_forms(), False),
    ("startup_energy_scan",): (boolean_forms(), True),
    ("watchdog_enabled",): (boolean_forms(), True),
}

KEYS = sorted(SETTINGS)


@st.composite
def given(draw, keys, bad_chance=0):
    """One setting: [key, raw, expected picture or "bad"]."""
    key = draw(st.sampled_from(keys))
    (good, bad), _ = SETTINGS[key]
    if draw(st.integers(0, 9)) < bad_chance:
        return [list(key), draw(bad), "bad"]
    raw, expected = draw(good)
    return [list(key), raw, {"is": expected}]


def build(settings, extra=()):
    cfg = {}
    for key, raw, _ in settings:
        where = cfg
        for k in key[:-1]:
            where = where.setdefault(k, {})
        where[key[-1]] = make(raw)
    for k, v in extra:
        cfg[k] = make(v)
    return cfg


def lookup(cfg, key):
    for k in key:
        if not isinstance(cfg, dict) or k not in cfg:
            return MISSING
        cfg = cfg[k]
    return cfg


def validate(cfg, what="configuration"):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return conf.CONFIG_SCHEMA(cfg)
        except vol.Invalid:
            return None
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(
                f"{what} is neither accepted nor rejected as invalid:"
                f" {type(e).__name__}: {e}"
            ) from e


def compare(out, settings, extra, what):
    seen = {tuple(key): verdict["is"] for key, _, verdict in settings}
    for key, (_, default) in SETTINGS.items():
        want = seen.get(key, default)
        got = lookup(out, key)
        if want is MISSING:
            if got is not MISSING:
                raise Violation(f"{what}: {key} appeared: {got!r}")
            continue
        if got is MISSING:
            raise Violation(f"{what}: {key} is missing, expected {want}")
        if pic(got) != want:
            how = "given" if key in seen else "default"
            raise Violation(
                f"{what}: {how} setting {'/'.join(key)} is {pic(got)}, expected {want}"
            )
    known = {key[0] for key in KEYS} | {k for k, _ in extra}
    for k in out:
        if k not in known:
            raise Violation(f"{what}: unexpected key {k!r}")
    for k, v in extra:
        if out.get(k) != make(v):
            raise Violation(f"{what}: extra key {k!r} became {out.get(k)!r}")


def scramble(v):
    """Change everything that can be changed in place."""
    if isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v.clear()
    elif isinstance(v, list) and not isinstance(v, (t.KeyData, t.EUI64)):
        for x in v:
            scramble(x)
        v.append("scrambled")


# ------------------------------------------------------------------ suite: settings


def setting_cases():
    extra = st.lists(
        st.tuples(
            st.sampled_from(["zha_option", "custom", "ezsp_config"]),
            st.sampled_from([1, "x", None, [1, 2], {"a": [1]}]),
        ).map(list),
        max_size=2,
        unique_by=lambda x: x[0],
    )

    @st.composite
    def cases(draw):
        chance = draw(st.sampled_from([0, 0, 3, 10]))
        n = draw(st.integers(0, 6))
        settings = []
        used = set()
        for _ in range(n):
            s = draw(given(KEYS, bad_chance=chance if chance < 10 or not settings else 0))
            if tuple(s[0]) not in used:
                used.add(tuple(s[0]))
                settings.append(s)
        if ("device", "path") not in used:
            settings.insert(0, [["device", "path"], "/dev/null", {"is": ["str", "/dev/null"]}])
        return {
            "settings": settings,
            "extra": draw(extra),
            "order": draw(st.randoms(use_true_random=False)).random() < 0.5,
            "misplaced": draw(
                st.sampled_from([None] * 8 + ["device", "network", "nodevice", "section"])
            ),
        }

    return cases()


def run_settings(case):
    settings, extra = case["settings"], case["extra"]
    cfg = build(settings, extra)
    if case["order"]:
        cfg = dict(reversed(list(cfg.items())))
    valid = all(verdict != "bad" for _, _, verdict in settings)
    labels = ["valid" if valid else "invalid"]
    why = [f"{'/'.join(k)}={raw!r}" for k, raw, verdict in settings if verdict == "bad"]

    misplaced = case["misplaced"]
    if misplaced in ("device", "network"):
        cfg.setdefault(misplaced, {})["not_an_option"] = 1
        why.append(f"unknown option in {misplaced}")
    elif misplaced == "nodevice":
        del cfg["device"]
        why.append("no device")
    elif misplaced == "section":
        cfg["network"] = "channel"
        why.append("network is not a section")
    if why:
        valid = False

    before = pic(cfg)
    out = validate(cfg)

    if pic(cfg) != before:
        raise Violation(f"validation changed the configuration given: {before} -> {pic(cfg)}")
    if out is None and valid:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                conf.CONFIG_SCHEMA(cfg)
            except vol.Invalid as e:
                err = str(e)
        raise Violation(f"a valid configuration is rejected: {err}")
    if out is not None and not valid:
        raise Violation(f"an invalid configuration is accepted: {why}")

    if valid:
        compare(out, settings, extra, "validated")
        again = validate(out, "an already validated configuration")
        if again is None:
            raise Violation("an already validated configuration is rejected")
        compare(again, settings, extra, "validated twice")

        # What a caller does to its configuration does not change the defaults
        scramble(again)
        scramble(out)
        fresh = validate({"device": {"path": "/dev/null"}})
        compare(
            fresh,
            [[["device", "path"], None, {"is": ["str", "/dev/null"]}]],
            [],
            "defaults after an earlier configuration was changed",
        )
    for k, _, verdict in settings:
        labels.append("/".join(k) + ("!" if verdict == "bad" else ""))
    return {
        "labels": labels,
        "nontrivial": len(settings) > 1 or bool(why),
    }


# ------------------------------------------------------------------ suite: each setting
# the same, one setting at a time, so that every form of each one is visited


def single_cases():
    return st.tuples(given(KEYS, bad_chance=5)).map(
        lambda s: {
            "settings": (
                []
                if s[0][0] == ["device", "path"]
                else [[["device", "path"], "/dev/null", {"is": ["str", "/dev/null"]}]]
            )
            + [s[0]],
            "extra": [],
            "order": False,
            "misplaced": None,
        }
    )


# ------------------------------------------------------------------ suite: application


OTA_KEYS = [
    k
    for k in KEYS
    if k[0] == "ota" and k[1] not in ("broadcast_interval", "broadcast_initial_delay")
]
LEGACY = {
    "ikea_provider": "ikea",
    "inovelli_provider": "inovelli",
    "ledvance_provider": "ledvance",
    "salus_provider": "salus",
    "sonoff_provider": "sonoff",
    "thirdreality_provider": "thirdreality",
    "z2m_remote_index": "z2m",
}


def effective(settings):
    """Providers that serve images, after merging every way of naming them."""
    got = {k[1]: v["is"] for k, _, v in settings if k[0] == "ota"}
    if got.get("enabled", True) is False:
        return []
    extra = got.get("extra_providers", ["list", []])[1]
    wanted = list(got.get("providers", SETTINGS[("ota", "providers")][1])[1]) + list(extra)
    without = {c[1] for c in got.get("disable_default_providers", ["list", []])[1]}
    without -= {p[1] for p in extra}
    for key, name in LEGACY.items():
        v = got.get(key)
        if v is None:
            continue
        if v is False:
            without.add(name)
            continue
        without.discard(name)
        url, ids = class_defaults(name)
        wanted.append(
            ["provider", name, url if v is True else v[1], ids, False, None]
        )
    if "z2m_local_index" in got:
        without.discard("z2m_local")
        _, ids = class_defaults("z2m_local")
        wanted.append(["provider", "z2m_local", None, ids, False, got["z2m_local_index"][1]])

    result = []
    for p in wanted:
        if p[1] in without:
            continue
        if p[4]:
            result = [q for q in result if q[1] != p[1]]
        result.append(p)
    return result


def app_cases():
    @st.composite
    def cases(draw):
        settings = [[["device", "path"], "/dev/null", {"is": ["str", "/dev/null"]}]]
        used = set()
        for _ in range(draw(st.integers(0, 6))):
            s = draw(given(OTA_KEYS))
            if tuple(s[0]) not in used:
                used.add(tuple(s[0]))
                settings.append(s)
        return {"settings": settings, "twice": draw(st.booleans())}

    return cases()


def run_app(case):
    settings = case["settings"]
    cfg = build(settings)
    if case["twice"]:
        cfg = validate(cfg)
        if cfg is None:
            raise Violation("a valid configuration is rejected")

    async def main(loop):
        return fakes.Radio(cfg)

    from vlib import vloop

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        app = vloop.run(main)
    compare(app.config, settings, [], "configuration of the application")
    got = sorted([provider_pic(p) for p in app.ota._providers], key=str)
    want = sorted(effective(settings), key=str)
    if got != want:
        raise Violation(f"OTA providers in use {got}, configured {want}")
    keys = {k[1] for k, _, _ in settings}
    return {
        "labels": sorted(keys),
        "nontrivial": bool(keys & {"providers", "extra_providers", *LEGACY}),
    }


CHECK = Check(
    "C31",
    rule=(
        "a configuration with at least one generated setting or defect; for the"
        " application suite, one that names at least one image provider"
    ),
    assumptions=[
        "number strings with surrounding blanks, underscores, an upper-case 0X or a"
        " boolean standing for a number, an empty channel list and the PAN ID 0xFFFF are"
        " outside what is documented and are not generated",
        "the two deprecated advanced directory options are left out",
    ],
    suites=[
        Suite("single", run_settings, strategy=single_cases, quick=10000, thorough=150000),
        Suite("settings", run_settings, strategy=setting_cases, quick=5000, thorough=80000),
        Suite("app", run_app, strategy=app_cases, quick=3000, thorough=40000),
    ],
)
