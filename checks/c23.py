"""C23: a device gets the most specific matching quirk and its unmatched parts are kept."""
from __future__ import annotations

import pathlib
import sys
import types as pytypes

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop

import zigpy.device
import zigpy.endpoint
import zigpy.quirks
import zigpy.quirks.v2 as v2
from zigpy.quirks.registry import DeviceRegistry
import zigpy.types as t
import zigpy.zcl
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

MANUFS = [None, "Acme", "acme", "Bolt", ""]
MODELS = [None, "Lamp", "Lamp2", "Plug", ""]
EPS = [1, 2, 3, 242]
PROFILES = [260, 0xC05E, None]
TYPES = [0x0000, 0x0100, 0x0051, None]
CLUSTERS = [0x0000, 0x0003, 0x0006, 0x0008, 0x0019, 0x0300, 0xFC00]


# ---------------------------------------------------------------- generation

def ep_st():
    cl = st.lists(st.sampled_from(CLUSTERS), unique=True, max_size=4)
    return st.tuples(st.sampled_from(PROFILES), st.sampled_from(TYPES), cl, cl).map(list)


@st.composite
def devices_st(draw):
    eps = draw(st.dictionaries(st.sampled_from(EPS), ep_st(), max_size=3))
    base = {"man": draw(st.sampled_from(MANUFS)), "model": draw(st.sampled_from(MODELS)),
            "eps": {str(k): v for k, v in eps.items()}}
    out = [base]
    for _ in range(draw(st.integers(0, 2))):
        d = {"man": draw(st.sampled_from([base["man"]] * 2 + MANUFS)),
             "model": draw(st.sampled_from([base["model"]] * 2 + MODELS)), "eps": dict(base["eps"])}
        if draw(st.booleans()):
            d["eps"] = draw(mutated(d["eps"]))
        out.append(d)
    return out


@st.composite
def mutated(draw, eps):
    """The endpoints with one difference."""
    eps = {k: [v[0], v[1], list(v[2]), list(v[3])] for k, v in eps.items()}
    kind = draw(st.sampled_from(["drop", "new", "profile", "type", "in", "out", "swap"]))
    if kind == "new" or not eps:
        eps[str(draw(st.sampled_from(EPS)))] = draw(ep_st())
        return eps
    k = draw(st.sampled_from(sorted(eps)))
    if kind == "drop":
        del eps[k]
    elif kind in ("profile", "type"):
        i = 0 if kind == "profile" else 1
        eps[k][i] = draw(st.sampled_from(PROFILES if i == 0 else TYPES))
    elif kind == "swap":
        eps[k][2], eps[k][3] = eps[k][3], eps[k][2]
    else:
        cl = eps[k][2 if kind == "in" else 3]
        c = draw(st.sampled_from(CLUSTERS))
        if c in cl:
            cl.remove(c)
        else:
            cl.append(c)
    return eps


@st.composite
def quirk_st(draw, devs):
    dev = draw(st.sampled_from(devs))
    eps = dev["eps"]
    if draw(st.integers(0, 2)) == 0:
        eps = draw(mutated(eps))
    sig = {}
    shuffled = {}
    for k in draw(st.permutations(sorted(eps))):
        p, d, i, o = eps[k]
        e = {"in": draw(st.permutations(i)), "out": draw(st.permutations(o))}
        if not i and draw(st.booleans()):
            del e["in"]
        if not o and draw(st.booleans()):
            del e["out"]
        if draw(st.integers(0, 3)):
            e["profile"] = p
        if draw(st.integers(0, 3)):
            e["type"] = d
        shuffled[k] = e
    if draw(st.integers(0, 15)):
        sig["eps"] = shuffled
    style = draw(st.sampled_from(["info", "both", "man", "model", "none", "info2"]))
    man = draw(st.sampled_from([dev["man"]] * 4 + MANUFS))
    model = draw(st.sampled_from([dev["model"]] * 4 + MODELS))
    if style in ("both", "man"):
        sig["man"] = man
    if style in ("both", "model"):
        sig["model"] = model
    if style in ("info", "info2"):
        pairs = st.tuples(st.sampled_from([dev["man"]] * 3 + MANUFS),
                          st.sampled_from([dev["model"]] * 3 + MODELS)).map(list)
        sig["info"] = draw(st.lists(pairs, min_size=1, max_size=3, unique_by=tuple))
        if style == "info2":
            sig["model"] = model
    rep = {}
    cl = st.tuples(st.lists(st.sampled_from(CLUSTERS), unique=True, max_size=4),
                   st.integers(0, 127)).map(lambda x: [[c, bool(x[1] >> i & 1)] for i, c in enumerate(x[0])])
    for k in draw(st.lists(st.sampled_from(sorted({*eps, *map(str, EPS)})), unique=True, max_size=3)):
        e = {"custom_ep": draw(st.integers(0, 3)) == 0}
        if k not in eps or draw(st.booleans()):
            e["profile"] = draw(st.sampled_from(PROFILES))
        if k not in eps or draw(st.booleans()):
            e["type"] = draw(st.sampled_from(TYPES))
        if draw(st.integers(0, 5)):
            e["in"] = draw(cl)
        if draw(st.integers(0, 5)):
            e["out"] = draw(cl)
        rep[k] = e
    q = {"sig": sig, "rep": rep}
    for name, s in (("manufacturer", st.sampled_from(["New", "Acme"])), ("model", st.sampled_from(["Newer", ""])),
                    ("skip", st.booleans()), ("nd", st.just(True))):
        if draw(st.integers(0, 4)) == 0:
            q[name] = draw(s)
    return q


@st.composite
def registry_case(draw):
    devs = draw(devices_st())
    quirks = draw(st.lists(quirk_st(devs), min_size=1, max_size=6))
    n = len(quirks)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("add"), st.integers(0, n - 1)).map(list),
        st.tuples(st.just("add"), st.integers(0, n - 1)).map(list),
        st.tuples(st.just("remove"), st.integers(0, n - 1)).map(list)), min_size=1, max_size=10))
    return {"devices": devs, "quirks": quirks, "ops": ops}


# ---------------------------------------------------------------- building

class OddEndpoint(zigpy.quirks.CustomEndpoint):
    pass


_clusters = {}


def custom_cluster(c):
    if c not in _clusters:
        base = zigpy.zcl.Cluster._registry.get(c)
        bases = (zigpy.quirks.CustomCluster, base) if base is not None else (zigpy.quirks.CustomCluster,)
        _clusters[c] = type(f"Custom{c:04x}", bases, {"cluster_id": c})
    return _clusters[c]


NEW_ND = dict(logical_type=zdo_t.LogicalType.EndDevice, manufacturer_code=0x1234)


def build_quirk(i, q, auto=False):
    sig = {}
    s = q["sig"]
    if "info" in s:
        sig["models_info"] = [tuple(p) for p in s["info"]]
    if "man" in s:
        sig["manufacturer"] = s["man"]
    if "model" in s:
        sig["model"] = s["model"]
    if "eps" in s:
        sig["endpoints"] = {}
        for k, e in s["eps"].items():
            d = {}
            for a, b in (("profile", "profile_id"), ("type", "device_type"), ("in", "input_clusters"),
                         ("out", "output_clusters")):
                if a in e:
                    d[b] = e[a]
            sig["endpoints"][int(k)] = d
    rep = {"endpoints": {}}
    for k, e in q["rep"].items():
        d = {}
        for a, b in (("profile", "profile_id"), ("type", "device_type")):
            if a in e:
                d[b] = e[a]
        for a, b in (("in", "input_clusters"), ("out", "output_clusters")):
            if a in e:
                d[b] = [custom_cluster(c) if cust else c for c, cust in e[a]]
        rep["endpoints"][int(k)] = (OddEndpoint, d) if e["custom_ep"] else d
    if not q["rep"] and i % 2:
        del rep["endpoints"]
    for a in ("manufacturer", "model"):
        if a in q:
            rep[a] = q[a]
    if "skip" in q:
        rep["skip_configuration"] = q["skip"]
    if "nd" in q:
        rep["node_descriptor"] = fakes.node_desc(**NEW_ND)
        rep["node_desc"] = rep["node_descriptor"]
    ns = {"replacement": rep}
    if auto:
        ns["signature"] = sig
    cls = type(f"Quirk{i}", (zigpy.quirks.CustomDevice,), ns)
    if not auto:
        cls.signature = sig
    return cls


def build_device(app, n, d):
    dev = fakes.add_device(app, n, 0x1000 + n, manufacturer=d["man"], model=d["model"],
                           eps={int(k): tuple(v) for k, v in d["eps"].items()} or {},
                           logical_type=zdo_t.LogicalType.Router) if d["eps"] else \
        app.add_device(nwk=t.NWK(0x1000 + n), ieee=fakes.eui(n))
    if not d["eps"]:
        dev.node_desc = fakes.node_desc()
        dev.manufacturer, dev.model = d["man"], d["model"]
    dev.lqi, dev.rssi = t.uint8_t(77 + n), t.int8s(-50 - n)
    dev.last_seen = 1_600_000_000.0 + n
    dev.relays = t.Relays([0x2222, 0x3333 + n])
    dev.status = zigpy.device.Status.ENDPOINTS_INIT
    return dev


def picture(dev):
    return {
        "cls": type(dev).__name__, "ieee": str(dev.ieee), "nwk": int(dev.nwk), "man": dev.manufacturer,
        "model": dev.model, "nd": fakes.canon(dev.node_desc), "lqi": dev.lqi, "rssi": dev.rssi,
        "seen": dev.last_seen, "relays": [int(x) for x in dev.relays or ()], "status": int(dev.status),
        "skip": dev.skip_configuration,
        "eps": {i: [ep.profile_id, ep.device_type, type(ep).__name__, int(ep.status),
                    {c: [type(cl).__name__, int(cl.cluster_id), cl.is_server] for c, cl in ep.in_clusters.items()},
                    {c: [type(cl).__name__, int(cl.cluster_id), cl.is_server] for c, cl in ep.out_clusters.items()}]
                for i, ep in dev.endpoints.items() if i != 0}}


# ---------------------------------------------------------------- reference

def keys(q):
    s = q["sig"]
    if s.get("info"):
        return [tuple(p) for p in s["info"]]
    return [(s.get("man"), s.get("model"))]


def accepts(q, d):
    s = q["sig"]
    if "man" in s and s["man"] != d["man"] or "model" in s and s["model"] != d["model"]:
        return False
    if "eps" not in s or set(s["eps"]) != set(d["eps"]):
        return False
    for k, e in s["eps"].items():
        p, dt, i, o = d["eps"][k]
        if e.get("profile", p) != p or e.get("type", dt) != dt:
            return False
        if set(e.get("in", [])) != set(i) or set(e.get("out", [])) != set(o):
            return False
    return True


def buckets(man, model):
    out = []
    for k in ((man, model), (man, None), (None, model), (None, None)):
        if k not in out:
            out.append(k)
    return out


def expected(table, quirks, d):
    """table: key -> indexes, newest first"""
    for k in buckets(d["man"], d["model"]):
        for i in table.get(k, []):
            if accepts(quirks[i], d):
                return i
    return None


def cluster_class(c, cust, server, raw_default=None):
    if cust:
        return custom_cluster(c).__name__
    cls = zigpy.zcl.Cluster._registry.get(c)
    if cls is None:
        for (a, b), x in zigpy.zcl.Cluster._registry_range.items():
            if a <= c <= b:
                return x.__name__
        return "Cluster"
    return cls.__name__


def replaced(before, q, i, d):
    e = dict(before)
    e["cls"] = f"Quirk{i}"
    e["man"] = q.get("manufacturer", e["man"])
    e["model"] = q.get("model", e["model"])
    e["skip"] = q.get("skip", e["skip"])
    if "nd" in q:
        e["nd"] = fakes.canon(fakes.node_desc(**NEW_ND))
    e["eps"] = {}
    for k, r in q["rep"].items():
        prof = r["profile"] if "profile" in r else d["eps"][k][0]
        dt = r["type"] if "type" in r else d["eps"][k][1]
        e["eps"][int(k)] = [
            prof, dt, "OddEndpoint" if r["custom_ep"] else "CustomEndpoint",
            int(zigpy.endpoint.Status.ZDO_INIT),
            {c: [cluster_class(c, cust, True), c, True] for c, cust in r.get("in", [])},
            {c: [cluster_class(c, cust, False), c, False] for c, cust in r.get("out", [])}]
    return e


def reachable(new):
    """Clusters are reachable by name exactly as held by the endpoint."""
    for i, ep in new.endpoints.items():
        if i == 0:
            continue
        for c, cl in ep.in_clusters.items():
            check(cl.endpoint is ep, f"the cluster {c:#06x} belongs to another endpoint object")
            if cl.ep_attribute is not None:
                check(getattr(ep, cl.ep_attribute) is cl, f"{cl.ep_attribute} does not lead to the cluster")
        for c, cl in ep.out_clusters.items():
            check(cl.endpoint is ep, f"the client cluster {c:#06x} belongs to another endpoint object")
        check(ep.device is new, "the endpoint belongs to another device object")


# ---------------------------------------------------------------- registry

def run_registry(case):
    async def main(loop):
        app = fakes.make_app()
        quirks = case["quirks"]
        auto = case.get("global", False)
        reg = DeviceRegistry()
        old = zigpy.quirks._DEVICE_REGISTRY
        if auto:
            zigpy.quirks._DEVICE_REGISTRY = reg
        try:
            return await inner(app, quirks, auto, reg)
        finally:
            zigpy.quirks._DEVICE_REGISTRY = old

    async def inner(app, quirks, auto, reg):
        classes = {}
        table = {}
        devs = [build_device(app, n + 1, d) for n, d in enumerate(case["devices"])]
        before = [picture(d) for d in devs]
        matched = rules = 0
        labels = set()
        for op, i in case["ops"]:
            q = quirks[i]
            if op == "add":
                if i not in classes:
                    classes[i] = build_quirk(i, q, auto)
                    if not auto:
                        reg.add_to_registry(classes[i])
                else:
                    reg.add_to_registry(classes[i])
                for k in keys(q):
                    b = table.setdefault(k, [])
                    if i not in b:
                        b.insert(0, i)
            else:
                if not any(i in b for b in table.values()):
                    continue
                reg.remove(classes[i])
                for b in table.values():
                    if i in b:
                        b.remove(i)
                labels.add("removed")
            for j, c in classes.items():
                check_eq(c in reg, any(j in b for b in table.values()), f"whether Quirk{j} is registered")
            for d, dev, pic in zip(case["devices"], devs, before):
                want = expected(table, quirks, d)
                rules += want is None
                new = zigpy.quirks.get_device(dev) if auto else zigpy.quirks.get_device(dev, registry=reg)
                check_eq(picture(dev), pic, "the original device after looking for quirks")
                if want is None:
                    check(new is dev, f"no quirk matches but {type(new).__name__} was applied")
                    continue
                matched += 1
                check(new is not dev, f"Quirk{want} matches but was not applied")
                check_eq(type(new).__name__, f"Quirk{want}", "the quirk that was applied")
                check_eq(picture(new), replaced(pic, quirks[want], want, d), "the replacement device")
                check(new.application is app, "the application of the replacement")
                reachable(new)
                check(zigpy.quirks.get_device(new, registry=reg) is new, "a quirk was applied to a quirked device")
                n_cand = sum(accepts(quirks[j], d) for k in buckets(d["man"], d["model"]) for j in table.get(k, []))
                if n_cand > 1:
                    labels.add("several-candidates")
            for man in MANUFS:
                for model in MODELS:
                    got = zigpy.quirks.get_quirk_list(man, model, registry=None if auto else reg)
                    check_eq([c.__name__ for c in got], [f"Quirk{j}" for j in table.get((man, model), [])],
                             f"the quirks registered for {man!r}, {model!r}")
        return {"labels": sorted(labels), "nontrivial": bool(matched and rules) or len(labels) > 1}
    return vloop.run(main)


def global_case():
    return registry_case().map(lambda c: {**c, "global": True})


# ---------------------------------------------------------------- in the application

@st.composite
def app_case(draw):
    devs = draw(devices_st())
    devs = [d for d in devs if d["eps"]] or [{"man": "Acme", "model": "Lamp", "eps": {"1": [260, 256, [0, 6], [25]]}}]
    quirks = draw(st.lists(quirk_st(devs), min_size=1, max_size=3))
    return {"devices": devs, "quirks": quirks}


def run_app(case):
    """What the application keeps and announces once a device is initialised."""
    async def main(loop):
        reg = DeviceRegistry()
        old = zigpy.quirks._DEVICE_REGISTRY
        zigpy.quirks._DEVICE_REGISTRY = reg
        try:
            app = fakes.make_app()
            events = []

            class L:
                def raw_device_initialized(self, d):
                    events.append(["raw", d])

                def device_initialized(self, d):
                    events.append(["ready", d])
            app.add_listener(L())
            table = {}
            for i, q in enumerate(case["quirks"]):
                build_quirk(i, q, True)
                for k in keys(q):
                    table.setdefault(k, []).insert(0, i)
            matched = 0
            for n, d in enumerate(case["devices"]):
                dev = build_device(app, n + 1, d)
                pic = picture(dev)
                del events[:]
                app.device_initialized(dev)
                check_eq([e[0] for e in events], ["raw", "ready"], "the announcements of an initialised device")
                check(events[0][1] is dev, "the raw device that was announced")
                now = app.devices[dev.ieee]
                check(events[1][1] is now, "the announced device is not the one that is kept")
                want = expected(table, case["quirks"], d)
                check_eq(picture(now), pic if want is None else replaced(pic, case["quirks"][want], want, d),
                         "the device kept by the application")
                check(app.get_device(nwk=dev.nwk) is now and app.get_device(ieee=dev.ieee) is now,
                      "looking up the device finds another object")
                if want is None:
                    check(now is dev, "an unmatched device was replaced")
                    continue
                matched += 1
                app.device_initialized(now)
                check(app.devices[dev.ieee] is now, "a quirked device was replaced on being initialised again")
                # frames reach the clusters of the replacement
                for i, ep in now.endpoints.items():
                    if i == 0:
                        continue
                    for c, cl in ep.in_clusters.items():
                        if 0xFFFD not in cl.attributes:
                            continue
                        app.packet_received(fakes.packet(
                            now.nwk, c, bytes([0x18, 0x30 + i % 16, 0x0A, 0xFD, 0xFF, 0x21, 0x02, 0x00]), src_ep=i))
                        await vloop.settle(3)
                        check_eq(cl.get(0xFFFD), 2, f"the attribute reported by cluster {c:#06x} of endpoint {i}")
            check_eq(loop.errors, [], "unhandled errors")
            return {"nontrivial": matched > 0}
        finally:
            zigpy.quirks._DEVICE_REGISTRY = old
    return vloop.run(main)


# ---------------------------------------------------------------- purging

ROOTS = ["/c23/custom", "/c23/custom/sub/deeper", "/c23/customer", "/c23", "/other/custom"]


@st.composite
def purge_case(draw):
    devs = draw(devices_st())
    quirks = draw(st.lists(st.tuples(quirk_st(devs), st.sampled_from(ROOTS), st.booleans()).map(list),
                           min_size=1, max_size=6))
    v2s = draw(st.lists(st.tuples(st.sampled_from(["Acme", "Bolt"]), st.sampled_from(["Lamp", "Plug"]),
                                  st.sampled_from(ROOTS)).map(list), max_size=4))
    return {"devices": devs, "quirks": quirks, "v2": v2s, "root": draw(st.sampled_from(["/c23/custom", "/c23/custom/sub"]))}


def within(path, root):
    return path == root or path.startswith(root.rstrip("/") + "/")


def run_purge(case):
    async def main(loop):
        app = fakes.make_app()
        reg = DeviceRegistry()
        mods = []
        quirks = [q for q, _, _ in case["quirks"]]
        table = {}
        try:
            for i, (q, root, init) in enumerate(case["quirks"]):
                cls = build_quirk(i, q)
                m = pytypes.ModuleType(f"c23_quirk_{i}")
                m.__file__ = f"{root}/{'__init__' if init else f'q{i}'}.py"
                sys.modules[m.__name__] = m
                mods.append(m.__name__)
                cls.__module__ = m.__name__
                reg.add_to_registry(cls)
                if not within(m.__file__, case["root"]):
                    for k in keys(q):
                        table.setdefault(k, []).insert(0, i)
            entries = {}
            for j, (man, model, root) in enumerate(case["v2"]):
                b = v2.QuirkBuilder(man, model, registry=reg)
                b.quirk_file = pathlib.Path(f"{root}/v2_{j}.py")
                b.friendly_name(model=f"m{j}", manufacturer="x")
                entries[j] = (b.add_to_registry(), (man, model), within(str(b.quirk_file), case["root"]))
            reg.purge_custom_quirks(pathlib.Path(case["root"]))
            for man in MANUFS:
                for model in MODELS:
                    check_eq([c.__name__ for c in reg.registry[man][model]],
                             [f"Quirk{j}" for j in table.get((man, model), [])],
                             f"the quirks left for {man!r}, {model!r}")
            for j, (e, k, gone) in entries.items():
                check_eq(e in reg._registry_v2[k], not gone, f"whether the declarative quirk {j} is left")
            if not case["v2"]:
                for n, d in enumerate(case["devices"]):
                    new = reg.get_device(build_device(app, n + 1, d))
                    want = expected(table, quirks, d)
                    check_eq(type(new).__name__, "Device" if want is None else f"Quirk{want}",
                             "the quirk applied after the purge")
        finally:
            for m in mods:
                sys.modules.pop(m, None)
        left = sum(len(b) for b in table.values())
        return {"nontrivial": 0 < left < sum(len(keys(q)) for q in quirks)}
    return vloop.run(main)


CHECK = Check(
    "C23",
    rule="at least one device was given a quirk and at least one was left alone, or several candidates competed",
    assumptions=["the endpoints a quirk adds declare their profile and device type; the pairs a quirk lists are distinct"],
    suites=[
        Suite("registry", run_registry, registry_case, quick=2500, thorough=60000),
        Suite("global", run_registry, global_case, quick=1000, thorough=20000),
        Suite("application", run_app, app_case, quick=1000, thorough=20000),
        Suite("purge", run_purge, purge_case, quick=1000, thorough=20000),
    ])
