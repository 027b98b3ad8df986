"""C24: declarative quirks change exactly what they declare."""
from __future__ import annotations

import copy

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop
from checks import c23

import zigpy.exceptions
import zigpy.quirks
import zigpy.quirks.v2 as v2
import zigpy.quirks.v2.homeassistant.binary_sensor
import zigpy.quirks.v2.homeassistant.number
import zigpy.quirks.v2.homeassistant.sensor
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2.homeassistant import EntityType
import zigpy.types as t
import zigpy.zcl
from zigpy.zcl import ClusterType, foundation as f
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

CLUSTERS = [0x0000, 0x0003, 0x0006, 0x0008, 0x0019, 0x0300, 0xFC00]
PAIRS = [["Acme", "Lamp"], ["Acme", "Plug"], ["Bolt", "Lamp"], ["acme", "Lamp"]]
SIDES = [ClusterType.Client, ClusterType.Server]

_custom = {}


def custom(c, variant=0):
    """A custom cluster class; two variants per id, with own attributes."""
    if (c, variant) not in _custom:
        base = zigpy.zcl.Cluster._registry.get(c)
        attrs = type("AttributeDefs", ((base.AttributeDefs if base else f.BaseAttributeDefs),), {
            "c24_a": f.ZCLAttributeDef(id=0xF010, type=t.uint8_t),
            "c24_b": f.ZCLAttributeDef(id=0xF011, type=t.CharacterString),
            "c24_c": f.ZCLAttributeDef(id=0xF012, type=t.uint16_t, is_manufacturer_specific=True),
        })
        bases = (zigpy.quirks.CustomCluster,) + ((base,) if base else ())
        ns = {"cluster_id": c, "AttributeDefs": attrs}
        if not base:
            ns["ep_attribute"] = f"odd_{c:04x}"
        _custom[c, variant] = type(f"Custom{c:04x}v{variant}", bases, ns)
    return _custom[c, variant]


ATTRS = {"c24_a": (0xF010, st.integers(0, 254)), "c24_b": (0xF011, st.text("ab é", max_size=5)),
         "c24_c": (0xF012, st.integers(0, 0xFFFE))}


class OddDevice(v2.CustomDeviceV2):
    pass


# ---------------------------------------------------------------- generation

def eps_st():
    cl = st.lists(st.sampled_from(CLUSTERS), unique=True, max_size=5)
    ep = st.tuples(st.sampled_from([260, 0xC05E]), st.sampled_from([0, 0x100, 0x51]), cl, cl).map(list)
    return st.dictionaries(st.sampled_from(["1", "2", "11", "242"]), ep, min_size=1, max_size=3)


@st.composite
def device_st(draw):
    eps = draw(eps_st())
    d = {"eps": eps, "pair": draw(st.sampled_from(PAIRS[:2])), "cache": []}
    for k, v in eps.items():
        for side in (2, 3):
            for c in v[side]:
                if draw(st.booleans()):
                    d["cache"].append([k, side, c, draw(st.dictionaries(
                        st.sampled_from(["0xFFFD", "0x0000", "0xF010", "0x4321"]), st.integers(0, 200),
                        min_size=1, max_size=3))])
    return d


NUM = st.sampled_from([0, 1, -5, 0.5, 100, 10000])
TEXT = st.sampled_from(["a", "b_c", "", "°C"])
#: kind -> what is exposed where nothing is said, and the arguments: name -> (name of the exposed field, values)
COMMON = {"entity_type": ("entity_type", st.sampled_from([e.name for e in EntityType])),
          "initially_disabled": ("initially_disabled", st.booleans()),
          "fallback_name": ("fallback_name", st.sampled_from(["Name", "Other name"]))}
CACHED = {"attribute_initialized_from_cache": ("attribute_initialized_from_cache", st.booleans())}


def own(**kw):
    return {k: (k if isinstance(v, st.SearchStrategy) else v[0], v if isinstance(v, st.SearchStrategy) else v[1])
            for k, v in kw.items()}


ENTITIES = {
    "enum": ("ZCLEnumMetadata", {"entity_type": "CONFIG", "entity_platform": "SELECT", "enum": "EntityType"},
             {**CACHED, **own(entity_platform=st.sampled_from(["SELECT", "SENSOR"]))}),
    "sensor": ("ZCLSensorMetadata", {"entity_type": "STANDARD", "entity_platform": "SENSOR", "divisor": 1, "multiplier": 1,
                                     "unit": None, "device_class": None, "state_class": None},
               {**CACHED, **own(divisor=NUM, multiplier=NUM, unit=TEXT, device_class=st.sampled_from(["BATTERY", "CURRENT"]),
                                state_class=st.sampled_from(["MEASUREMENT", "TOTAL"]))}),
    "switch": ("SwitchMetadata", {"entity_type": "CONFIG", "entity_platform": "SWITCH", "force_inverted": False,
                                  "invert_attribute_name": None, "off_value": 0, "on_value": 1},
               {**CACHED, **own(force_inverted=st.booleans(), invert_attribute_name=TEXT, off_value=NUM, on_value=NUM,
                                entity_platform=st.sampled_from(["SWITCH", "BINARY_SENSOR"]))}),
    "number": ("NumberMetadata", {"entity_type": "CONFIG", "entity_platform": "NUMBER", "min": None, "max": None,
                                  "step": None, "unit": None, "mode": None, "multiplier": None, "device_class": None},
               {**CACHED, **own(min_value=("min", NUM), max_value=("max", NUM), step=NUM, unit=TEXT, mode=TEXT, multiplier=NUM,
                                device_class=st.sampled_from(["CURRENT", "HUMIDITY"]))}),
    "binary_sensor": ("BinarySensorMetadata", {"entity_type": "DIAGNOSTIC", "entity_platform": "BINARY_SENSOR",
                                               "device_class": None},
                      {**CACHED, **own(device_class=st.sampled_from(["DOOR", "BATTERY"]))}),
    "write_attr_button": ("WriteAttributeButtonMetadata", {"entity_type": "CONFIG", "entity_platform": "BUTTON"},
                          {**CACHED, **own(attribute_value=NUM)}),
    "command_button": ("ZCLCommandButtonMetadata", {"entity_type": "CONFIG", "entity_platform": "BUTTON", "args": [],
                                                    "kwargs": {}},
                       own(command_args=("args", st.lists(NUM, max_size=3)),
                           command_kwargs=("kwargs", st.dictionaries(st.sampled_from(["x", "y"]), NUM, max_size=2)))),
}
HA = {"number": v2.homeassistant.number.NumberDeviceClass, "sensor": v2.homeassistant.sensor.SensorDeviceClass,
      "binary_sensor": v2.homeassistant.binary_sensor.BinarySensorDeviceClass,
      "state": v2.homeassistant.sensor.SensorStateClass}


def entity_argument(kind, name, v):
    if name == "entity_type":
        return EntityType[v]
    if name == "entity_platform":
        return v2.homeassistant.EntityPlatform[v]
    if name == "device_class":
        return HA[kind][v]
    if name == "state_class":
        return HA["state"][v]
    return tuple(v) if name == "command_args" else dict(v) if name == "command_kwargs" else v


def exposed(n, kind, k, c, s, said):
    """The fields of the metadata a declared entity must have."""
    cls, defaults, args = ENTITIES[kind]
    want = {"entity_type": None, "initially_disabled": False, "attribute_initialized_from_cache": True,
            "cluster_id": c, "endpoint_id": int(k), "cluster_type": side(s).name, "translation_key": n,
            **defaults, **{{**COMMON, **args}[a][0]: v for a, v in said.items()}, "": cls}
    if kind == "command_button":
        want["command_name"] = "cmd"
    else:
        want["attribute_name"] = "attr"
    return want


def metadata(m):
    def plain(x):
        if isinstance(x, type):
            return x.__name__
        if hasattr(x, "name") and hasattr(type(x), "__members__"):
            return x.name
        if isinstance(x, (tuple, list)):
            return [plain(y) for y in x]
        return {k: plain(y) for k, y in x.items()} if hasattr(x, "items") else x
    return {**{a.name: plain(getattr(m, a.name)) for a in m.__attrs_attrs__}, "": type(m).__name__}


@st.composite
def quirk_st(draw, dev, idx):
    eps = sorted(dev["eps"])
    ep = st.sampled_from(eps)
    side = st.booleans()  # server?
    present = [[k, s == 2, c] for k, v in dev["eps"].items() for s in (2, 3) for c in v[s]]
    where = st.tuples(ep, side, st.sampled_from(CLUSTERS)).map(list)
    if present:
        where = st.one_of(st.sampled_from(present), where)
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(["add", "add_class", "remove", "replace", "replace_other", "all"]))
        k, s, c = draw(where)
        if kind == "add":
            ops.append(["add", k, s, c, None, {}])
        elif kind == "add_class":
            const = {}
            for name, (_, vals) in ATTRS.items():
                if draw(st.booleans()):
                    const[name] = draw(vals)
            ops.append(["add", k, s, c, draw(st.integers(0, 1)), const])
        elif kind == "remove":
            ops.append(["remove", k, s, c])
        elif kind == "replace":
            ops.append(["replace", k, s, None, c, draw(st.integers(0, 1))])
        elif kind == "replace_other":
            ops.append(["replace", k, s, c, draw(st.sampled_from(CLUSTERS)), draw(st.integers(0, 1))])
        else:
            ops.append(["all", c, draw(st.integers(0, 1)), draw(st.sampled_from([[True, True], [True, False], [False, True]]))])
    filt = st.one_of(
        st.tuples(st.just("eps"), st.integers(0, 3)),
        st.tuples(st.just("in"), ep, st.sampled_from(CLUSTERS)),
        st.tuples(st.just("code"), st.sampled_from([4174, 4447])),
        st.just(("true",)), st.just(("signature",)), st.just(("signature",)))
    entities = []
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(sorted(ENTITIES)))
        said = {"fallback_name": "Name"}
        for n, (_, vals) in sorted({**COMMON, **ENTITIES[kind][2]}.items()):
            if draw(st.integers(0, 2)) == 0 or n == "attribute_value":
                said[n] = draw(vals)
        entities.append([kind, draw(ep), draw(st.sampled_from(CLUSTERS)), draw(side), said])
    q = {"id": idx, "ops": ops, "filters": [list(x) for x in draw(st.lists(filt, max_size=2))],
         "pairs": draw(st.lists(st.sampled_from([dev["pair"]] * 3 + PAIRS), min_size=1, max_size=3, unique_by=tuple)),
         "entities": entities}
    if draw(st.integers(0, 3)) == 0:
        q["nd"] = draw(st.sampled_from([0x1234, 0x115F]))
    if draw(st.integers(0, 2)) == 0:
        q["skip"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        q["odd"] = True
    if draw(st.integers(0, 3)) == 0:
        q["triggers"] = [[["short", "on"], {"command": "on"}], [["long", "off"], {"command": "off", "endpoint_id": 2}]]
    if draw(st.integers(0, 3)) == 0:
        q["registered"] = 2
    return q


@st.composite
def apply_case(draw):
    dev = draw(device_st())
    n = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 3]))
    return {"device": dev, "quirks": [draw(quirk_st(dev, i)) for i in range(n)],
            "v1": draw(st.booleans()), "clone": draw(st.integers(0, 3)) == 0,
            "remove": draw(st.booleans())}


# ---------------------------------------------------------------- building

def make_filter(spec, dev):
    kind = spec[0]
    if kind == "eps":
        return lambda d: len(d.endpoints) - 1 >= spec[1]
    if kind == "in":
        return lambda d: spec[2] in d.endpoints[int(spec[1])].in_clusters
    if kind == "code":
        return lambda d: d.node_desc.manufacturer_code == spec[1]
    if kind == "true":
        return lambda d: True
    return zigpy.quirks.signature_matches({"endpoints": {
        int(k): {"profile_id": v[0], "device_type": v[1], "input_clusters": v[2], "output_clusters": v[3]}
        for k, v in dev["eps"].items()}})


def ref_filter(spec, dev):
    kind = spec[0]
    if kind == "eps":
        return len(dev["eps"]) >= spec[1]
    if kind == "in":
        return spec[2] in dev["eps"][spec[1]][2]
    if kind == "code":
        return spec[1] == 4174
    return True


def side(server):
    return ClusterType.Server if server else ClusterType.Client


def declare(b, q, dev):
    for op in q["ops"]:
        if op[0] == "add":
            _, k, s, c, variant, const = op
            kw = {}
            if const:
                cls = custom(c, variant)
                kw["constant_attributes"] = {getattr(cls.AttributeDefs, n): v for n, v in const.items()}
            b.adds(c if variant is None else custom(c, variant), cluster_type=side(s), endpoint_id=int(k), **kw)
        elif op[0] == "remove":
            b.removes(op[3], cluster_type=side(op[2]), endpoint_id=int(op[1]))
        elif op[0] == "replace":
            _, k, s, old, c, variant = op
            kw = {} if old is None else {"cluster_id": old}
            b.replaces(custom(c, variant), cluster_type=side(s), endpoint_id=int(k), **kw)
        else:
            _, c, variant, (srv, cli) = op
            b.replace_cluster_occurrences(custom(c, variant), replace_server_instances=srv, replace_client_instances=cli)
    for x in q["filters"]:
        b.filter(make_filter(x, dev))
    for n, (kind, k, c, s, said) in enumerate(q["entities"]):
        kw = dict(cluster_id=c, cluster_type=side(s), endpoint_id=int(k), translation_key=f"key{q['id']}_{n}")
        kw.update((a, entity_argument(kind, a, v)) for a, v in said.items())
        if kind == "enum":
            kw["enum_class"] = EntityType
        getattr(b, kind)("cmd" if kind == "command_button" else "attr", **kw)
    if "nd" in q:
        b.node_descriptor(fakes.node_desc(zdo_t.LogicalType.EndDevice, q["nd"]))
    if "skip" in q:
        b.skip_configuration(q["skip"])
    if q.get("odd"):
        b.device_class(OddDevice)
    if "triggers" in q:
        b.device_automation_triggers({tuple(k): v for k, v in q["triggers"]})
    b.friendly_name(model=f"Quirk {q['id']}", manufacturer="C24")


def build(q, dev, reg, clone):
    first, *rest = q["pairs"]
    b = v2.QuirkBuilder(*first, registry=reg)
    for p in rest:
        (b.applies_to if q["id"] % 2 else b.also_applies_to)(*p)
    declare(b, q, dev)
    if clone:
        other = b.clone()
        other.applies_to("Cloned", "Thing")
        other.adds(custom(0x0300, 1), endpoint_id=int(sorted(dev["eps"])[0]))
        other.filter(lambda d: False)
        other.removes(0x0006, endpoint_id=int(sorted(dev["eps"])[0]))
        other.skip_configuration(not q.get("skip", False))
        other.switch("x", cluster_id=6, endpoint_id=1, translation_key="other", fallback_name="Other")
        other.device_automation_triggers({("x", "y"): {"command": "z"}})
        full = b.clone(omit_man_model_data=False)
        check_eq([(m.manufacturer, m.model) for m in full.manufacturer_model_metadata],
                 [tuple(p) for p in q["pairs"]], "the pairs of a full copy")
        b = full if q["id"] % 2 else b
    for _ in range(q.get("registered", 1)):
        entry = b.add_to_registry()
    return entry


# ---------------------------------------------------------------- reference

def name_of(c, variant):
    return c23.cluster_class(c, False, True) if variant is None else custom(c, variant).__name__


def reference(q, dev):
    """(endpoint, server?) -> {cluster id: [class name, constants, kept?]}"""
    tab = {}
    for k, v in dev["eps"].items():
        tab[k, True] = {c: [name_of(c, None), {}, True] for c in v[2]}
        tab[k, False] = {c: [name_of(c, None), {}, True] for c in v[3]}
    for kind in ("add", "remove", "replace", "all"):
        for op in q["ops"]:
            if op[0] != kind:
                continue
            if kind == "add":
                _, k, s, c, variant, const = op
                if variant is None:
                    tab[k, s].setdefault(c, [name_of(c, None), {}, False])
                else:
                    tab[k, s][c] = [name_of(c, variant), dict(const), False]
            elif kind == "remove":
                tab[op[1], op[2]].pop(op[3], None)
            elif kind == "replace":
                _, k, s, old, c, variant = op
                tab[k, s].pop(c if old is None else old, None)
                tab[k, s][c] = [name_of(c, variant), {}, False]
            else:
                _, c, variant, sides = op
                for (k, s), cl in tab.items():
                    if c in cl and sides[0 if s else 1]:
                        cl[c] = [name_of(c, variant), {}, False]
    return tab


def make_device(app, d):
    dev = c23.build_device(app, 1, {"man": d["pair"][0], "model": d["pair"][1], "eps": d["eps"]})
    for k, s, c, attrs in d["cache"]:
        ep = dev.endpoints[int(k)]
        cl = (ep.in_clusters if s == 2 else ep.out_clusters)[c]
        for a, v in attrs.items():
            cl._attr_cache[int(a, 16)] = v
    return dev


def caches(dev):
    return {(i, s, c): dict(cl._attr_cache) for i, ep in dev.endpoints.items() if i for s in (True, False)
            for c, cl in (ep.in_clusters if s else ep.out_clusters).items()}


# ---------------------------------------------------------------- applying

async def check_constants(app, cl, const):
    """Every way of reading a constant gives it, with nothing sent."""
    app.sent.clear()
    for round_ in range(2):
        for name, val in const.items():
            aid = ATTRS[name][0]
            check_eq(cl.get(name), val, f"the constant {name} by name")
            check_eq(cl.get(aid), val, f"the constant {name} by id")
            check_eq(cl[name], val, f"the constant {name} by name, as an item")
            check_eq(cl[aid], val, f"the constant {name} by id, as an item")
        for kw in ({}, {"allow_cache": True}, {"only_cache": True}):
            names = list(const)
            check_eq(await cl.read_attributes(names, **kw), (dict(const), {}), f"reading constants by name ({kw})")
            ids = {ATTRS[n][0]: v for n, v in const.items()}
            check_eq(await cl.read_attributes(list(ids), **kw), (ids, {}), f"reading constants by id ({kw})")
        # the device reporting something else, or nothing, changes nothing
        for name, val in const.items():
            cl.update_attribute(ATTRS[name][0], val if round_ else (val + "x" if isinstance(val, str) else val + 1))
            cl.add_unsupported_attribute(ATTRS[name][0])
    check_eq(len(app.sent), 0, "packets sent to read constants")


def run_apply(case):
    async def main(loop):
        app = fakes.make_app()
        reg = DeviceRegistry()
        d = case["device"]
        dev = make_device(app, d)
        pic, cache = c23.picture(dev), caches(dev)
        if case["v1"]:
            old = type("Old", (zigpy.quirks.CustomDevice,), {"replacement": {"endpoints": {}}})
            old.signature = {"manufacturer": d["pair"][0], "endpoints": {
                int(k): {"input_clusters": v[2], "output_clusters": v[3]} for k, v in d["eps"].items()}}
            reg.add_to_registry(old)
        entries = [build(q, d, reg, case["clone"]) for q in case["quirks"]]
        unbuilt = [b for b in v2.UNBUILT_QUIRK_BUILDERS if b.registry is reg]
        del v2.UNBUILT_QUIRK_BUILDERS[:]
        check(case["clone"] or not unbuilt, "a registered quirk is still listed as unbuilt")
        fits = [i for i, q in enumerate(case["quirks"]) if d["pair"] in q["pairs"]
                and all(ref_filter(x, d) for x in q["filters"])]
        labels = {f"matching-{len(fits)}"}
        if len(fits) > 1:
            try:
                new = zigpy.quirks.get_device(dev, registry=reg)
                check(False, f"{len(fits)} quirks apply but one was chosen silently: {type(new).__name__}")
            except zigpy.exceptions.MultipleQuirksMatchException:
                pass
            check_eq(c23.picture(dev), pic, "the device several quirks apply to")
            return {"labels": sorted(labels), "nontrivial": True}
        new = zigpy.quirks.get_device(dev, registry=reg)
        check_eq(c23.picture(dev), pic, "the original device")
        check_eq(caches(dev), cache, "the attribute values of the original device")
        if not fits:
            if case["v1"]:
                check_eq(type(new).__name__, "Old", "the quirk applied when no declarative quirk does")
                return {"labels": sorted(labels | {"fallback"}), "nontrivial": True}
            check(new is dev, "no quirk applies but the device was replaced")
            return {"labels": sorted(labels), "nontrivial": False}
        q, entry = case["quirks"][fits[0]], entries[fits[0]]
        check(isinstance(new, v2.CustomDeviceV2), f"the declarative quirk was not applied: {type(new).__name__}")
        check(new.quirk_metadata == entry, "another quirk was applied")
        want = dict(pic)
        want["cls"] = "OddDevice" if q.get("odd") else "CustomDeviceV2"
        want["skip"] = q.get("skip", False)
        if "nd" in q:
            want["nd"] = fakes.canon(fakes.node_desc(zdo_t.LogicalType.EndDevice, q["nd"]))
        tab = reference(q, d)
        want["eps"] = {int(k): [v[0], v[1], "CustomEndpoint", 1] + [
            {c: [x[0], c, s] for c, x in tab[k, s].items()} for s in (True, False)] for k, v in d["eps"].items()}
        check_eq(c23.picture(new), want, "the device with the quirk applied")
        c23.reachable(new)
        # names lead nowhere but to the clusters the endpoint still has
        for i, ep in new.endpoints.items():
            if not i:
                continue
            for c in CLUSTERS:
                for cls in (zigpy.zcl.Cluster._registry.get(c), custom(c)):
                    if cls is None:
                        continue
                    got = getattr(ep, cls.ep_attribute, None)
                    check(got is None or any(got is x for x in ep.in_clusters.values()),
                          f"{cls.ep_attribute} still leads to a cluster that was removed")
        now = caches(new)
        kept = 0
        for (k, s), cl in tab.items():
            for c, (_, const, intact) in cl.items():
                if intact:
                    check_eq(now[int(k), s, c], cache[int(k), s, c], f"attribute values of {c:#06x} on endpoint {k}")
                    kept += bool(cache[int(k), s, c])
        # the copy is independent
        for (i, s, c), attrs in now.items():
            ep = new.endpoints[i]
            (ep.in_clusters if s else ep.out_clusters)[c]._attr_cache[0x7777] = 1
        check_eq(caches(dev), cache, "the original's attribute values after changing the replacement's")
        exp = {}
        for n, (kind, k, c, s, said) in enumerate(q["entities"]):
            exp.setdefault((int(k), c, side(s)), []).append(exposed(f"key{q['id']}_{n}", kind, k, c, s, said))
        check_eq({k: [metadata(m) for m in v] for k, v in new.exposes_metadata.items() if v}, exp,
                 "the entities exposed")
        trig = {tuple(k): v for k, v in q.get("triggers", [])}
        check_eq({k: dict(v) for k, v in getattr(new, "device_automation_triggers", {}).items()}, trig, "the triggers")
        if trig:
            labels.add("triggers")
        for (k, s), cl in tab.items():
            for c, (_, const, _) in cl.items():
                if const:
                    ep = new.endpoints[int(k)]
                    labels.add("constants")
                    await check_constants(app, (ep.in_clusters if s else ep.out_clusters)[c], const)
        check(new in reg, "the quirk of the device is not in the registry")
        if case["remove"]:
            reg.remove(new)
            check(new not in reg, "a removed quirk is in the registry")
            again = zigpy.quirks.get_device(dev, registry=reg)
            if case["v1"]:
                check_eq(type(again).__name__, "Old", "the quirk applied after removal")
            else:
                check(again is dev, "a removed quirk was applied")
            for p in q["pairs"]:
                if p != d["pair"]:
                    check(any(e == entry for e in reg._registry_v2[tuple(p)]),
                          f"removing the quirk of {d['pair']} removed that of {p}")
            labels.add("removed")
        changed = any(x[0] == "all" or True for x in q["ops"])
        return {"labels": sorted(labels), "nontrivial": changed}
    return vloop.run(main)


# ---------------------------------------------------------------- constants of classes and mixed reads

@st.composite
def constants_case(draw):
    const = {n: draw(v) for n, (_, v) in ATTRS.items() if draw(st.integers(0, 2))}
    ids = {"c24_a": 0xF010, "c24_b": 0xF011, "c24_c": 0xF012, "on_off": 0x0000, "cluster_revision": 0xFFFD,
           "start_up_on_off": 0x4003}
    reads = draw(st.lists(st.lists(st.tuples(st.sampled_from(sorted(ids)), st.booleans()).map(list), min_size=1,
                                   max_size=5, unique_by=lambda x: x[0]), min_size=1, max_size=3))
    return {"const": const, "reads": reads, "how": draw(st.sampled_from(["class", "declared"])),
            "server": draw(st.booleans()),
            "reply": draw(st.sampled_from(["values", "values", "unsupported", "default-unsupported", "default-failure"])),
            "values": {n: draw(st.integers(0, 1)) for n in ids}}


MIXED = {"c24_a": 0xF010, "c24_b": 0xF011, "c24_c": 0xF012, "on_off": 0x0000, "cluster_revision": 0xFFFD,
         "start_up_on_off": 0x4003}
ZT = {"c24_a": 0x20, "c24_b": 0x42, "c24_c": 0x21, "on_off": 0x10, "cluster_revision": 0x21, "start_up_on_off": 0x30}


def run_constants(case):
    """Reads mixing constants and ordinary attributes: only the latter are asked for."""
    async def main(loop):
        app = fakes.make_app()
        const = case["const"]
        server = case["server"]
        reg = DeviceRegistry()
        eps = {"1": [260, 256, [0, 6] if server else [0], [] if server else [6]]}
        dev = make_device(app, {"eps": eps, "pair": ["Acme", "Lamp"], "cache": []})
        if case["how"] == "class":
            cls = type("Const", (custom(6),), {"_CONSTANT_ATTRIBUTES": {MIXED[n]: v for n, v in const.items()} or None})
            v2.QuirkBuilder("Acme", "Lamp", registry=reg).replaces(cls, cluster_type=side(server)).add_to_registry()
        else:
            v2.QuirkBuilder("Acme", "Lamp", registry=reg).adds(
                custom(6), cluster_type=side(server), constant_attributes={
                    getattr(custom(6).AttributeDefs, n): v for n, v in const.items()}).add_to_registry()
        new = app.devices[dev.ieee] = reg.get_device(dev)
        ep = new.endpoints[1]
        cl = (ep.in_clusters if server else ep.out_clusters)[6]
        check_eq(cl.is_server, server, "the side of the cluster")
        asked = []

        def respond(pkt):
            data = pkt.data.serialize()
            fc = data[0]
            check_eq(bool(fc & 0x08), not server, "the direction of the request")
            off = 3 if fc & 4 else 1
            tsn, cmd, body = data[off], data[off + 1], data[off + 2:]
            check_eq(cmd, 0, "the command sent to read attributes")
            ids = [int.from_bytes(body[i:i + 2], "little") for i in range(0, len(body), 2)]
            asked.append(ids)
            back = (fc ^ 0x08) | 0x10
            head = bytes([back]) + data[1:off] + bytes([tsn])
            if case["reply"].startswith("default"):
                status = 0x86 if case["reply"].endswith("unsupported") else 0x01
                out = head + bytes([0x0B, 0x00, status])
            else:
                out = head + b"\x01"
                for a in ids:
                    n = next(k for k, v in MIXED.items() if v == a)
                    if case["reply"] == "unsupported":
                        out += a.to_bytes(2, "little") + b"\x86"
                        continue
                    v = case["values"][n]
                    raw = {0x42: bytes([1]) + b"%d" % v, 0x21: bytes([v, 0])}.get(ZT[n], bytes([v]))
                    out += a.to_bytes(2, "little") + b"\x00" + bytes([ZT[n]]) + raw
            loop.call_later(0.01, app.packet_received, fakes.packet(new.nwk, 6, out))
        app.hooks["send_packet"] = respond
        mixed = False
        for read in case["reads"]:
            await vloop.quiesce(loop, 15)
            keys = [n if by_name else MIXED[n] for n, by_name in read]
            want_ids = [MIXED[n] for n, _ in read if n not in const]
            asked.clear()
            ok, bad = await cl.read_attributes(list(keys))
            check_eq(asked, [want_ids] if want_ids else [], "the attributes asked from the device")
            mixed |= 0 < len(want_ids) < len(read)
            exp_ok, exp_bad = {}, {}
            for (n, by_name), key in zip(read, keys):
                if n in const:
                    exp_ok[key] = const[n]
                elif case["reply"] == "values":
                    v = case["values"][n]
                    exp_ok[key] = str(v) if ZT[n] == 0x42 else v
                else:
                    exp_bad[key] = 0x01 if case["reply"] == "default-failure" else 0x86
            check_eq({k: v for k, v in ok.items()}, exp_ok, "the attributes read")
            check_eq({k: int(v) for k, v in bad.items()}, exp_bad, "the attributes that failed")
            for (n, _), key in zip(read, keys):
                if n in const:
                    check_eq(cl.get(key), const[n], f"the constant {n} afterwards")
                elif case["reply"] != "values":
                    check_eq(cl.get(key), None, f"the value of {n}, which could not be read")
        check_eq(loop.errors, [], "unhandled errors")
        return {"nontrivial": mixed, "labels": [case["reply"], case["how"]]}
    return vloop.run(main)


# ---------------------------------------------------------------- declared constants on a plain cluster

def run_plain(case):
    async def main(loop):
        app = fakes.make_app()
        reg = DeviceRegistry()
        dev = make_device(app, {"eps": {"1": [260, 256, [0], []]}, "pair": ["Acme", "Lamp"], "cache": []})
        cls = zigpy.zcl.Cluster._registry[case["cluster"]]
        attr = getattr(cls.AttributeDefs, case["attr"])
        v2.QuirkBuilder("Acme", "Lamp", registry=reg).adds(
            case["cluster"], constant_attributes={attr: case["value"]}).add_to_registry()
        new = reg.get_device(dev)
        check_eq(new.endpoints[1].in_clusters[case["cluster"]].get(case["attr"]), case["value"],
                 f"the constant {case['attr']} declared for a cluster given by its id")
        return True
    return vloop.run(main)


CHECK = Check(
    "C24",
    rule="a quirk applied and declares something, several quirks compete, or a read mixes constants and attributes of the device",
    assumptions=["quirks refer to endpoints the device has; constants are declared for custom clusters, "
                 "except in the recorded finding"],
    suites=[
        Suite("apply", run_apply, apply_case, quick=2500, thorough=60000),
        Suite("constants", run_constants, constants_case, quick=1500, thorough=30000),
        Suite("plain", run_plain, cases=lambda tier: [], quick=0, thorough=0),
    ])
