"""C38: firmware is looked for exactly where the configuration says."""
from __future__ import annotations

import json
import warnings

from vlib.core import Check, Suite, check_eq
from vlib import fakes, vloop
from checks import c22
from checks.c37 import FALSE, TRUE, truth

import zigpy.config as conf
from zigpy.zcl.clusters.general import Ota

import freezegun
from hypothesis import strategies as st

# what each kind of source is, from the documentation: (where it looks by default, whose devices it is for)
KINDS = {
    "ikea": ("https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json", (4476,)),
    "ledvance": ("https://api.update.ledvance.com/v1/zigbee/firmwares", (4489, 4364)),
    "salus": ("https://eu.salusconnect.io/demo/default/status/firmware", (4216, 43981)),
    "sonoff": ("https://zigbee-ota.sonoff.tech/releases/upgrade.json", (4742,)),
    "inovelli": ("https://files.inovelli.com/firmware/firmware-zha-v2.json", (4655,)),
    "thirdreality": ("https://tr-zha.s3.amazonaws.com/firmware.json", (4659, 4877, 5127)),
    "z2m": ("https://raw.githubusercontent.com/Koenkk/zigbee-OTA/master/index.json", ()),
    "zigpy_remote": (None, ()),
    "zigpy_local": (None, ()),
    "z2m_local": (None, ()),
}
DEFAULTS = ["ledvance", "sonoff", "inovelli", "thirdreality"]
DEPRECATED = {"ikea": "ikea_provider", "inovelli": "inovelli_provider", "ledvance": "ledvance_provider", "salus": "salus_provider",
              "sonoff": "sonoff_provider", "thirdreality": "thirdreality_provider", "z2m": "z2m_remote_index"}
ORDER = ["ikea", "inovelli", "ledvance", "salus", "sonoff", "thirdreality", "z2m"]
IDS = [4476, 4489, 4364, 4216, 43981, 4742, 4655, 4659, 4877, 5127, 1, 0x1234]


def url_st():
    return st.integers(0, 5).map(lambda n: f"https://mirror{n}.example.com/index.json")


@st.composite
def provider_st(draw):
    kind = draw(st.sampled_from(list(KINDS)))
    p = {"type": kind}
    if kind.endswith("_local"):
        p["index_file"] = draw(st.integers(0, 3))
    elif kind == "zigpy_remote" or draw(st.integers(0, 2)) == 0:
        p["url"] = draw(url_st())
    if draw(st.integers(0, 3)) == 0:
        p["manufacturer_ids"] = draw(st.none() | st.lists(st.sampled_from(IDS), max_size=3))
    if draw(st.integers(0, 3)) == 0:
        p["override_previous"] = draw(st.booleans())
    return p


@st.composite
def sources_st(draw):
    c = {"enabled": draw(st.sampled_from([None] * 4 + TRUE + FALSE[:2])),
         "providers": draw(st.none() | st.lists(provider_st(), max_size=4)),
         "extra": draw(st.none() | st.lists(provider_st(), max_size=4)),
         "disabled": draw(st.none() | st.lists(st.sampled_from(list(KINDS)), max_size=4)),
         "old": {}, "remote": draw(st.none() | st.none() | st.lists(st.tuples(
             url_st(), st.none() | st.lists(st.sampled_from(IDS), max_size=2)).map(list), max_size=2)),
         "z2m_local": draw(st.none() | st.none() | st.integers(0, 3)),
         "devices": draw(st.lists(st.tuples(
             st.none() | st.sampled_from(IDS), st.sampled_from([0, 0, 1, 23, 24, 25, 100]),
             st.sampled_from(["ok", "error", "oserror", "hang"])).map(list), min_size=1, max_size=5)),
         "hex": draw(st.booleans())}
    taken = {p["type"] for p in c["extra"] or []}
    for kind in ORDER:
        if draw(st.integers(0, 5)) == 0:
            v = draw(st.sampled_from(TRUE + FALSE) | url_st())
            # refusing what was explicitly added says nothing
            if kind in taken and v in FALSE:
                continue
            c["old"][kind] = v
    return c


def wanted(c):
    """the sources, in order"""
    if c["enabled"] is not None and not truth(c["enabled"]):
        return []
    listed = []
    for p in (c["providers"] if c["providers"] is not None else [{"type": k} for k in DEFAULTS]) + (c["extra"] or []):
        ids = p.get("manufacturer_ids")
        where = p["index_file"] if "index_file" in p else p.get("url") or KINDS[p["type"]][0]
        listed.append((p["type"], where, tuple(KINDS[p["type"]][1] if ids is None else ids), p.get("override_previous", False)))
    refused = set(c["disabled"] or []) - {p["type"] for p in c["extra"] or []}
    for kind in ORDER:
        v = truth(c["old"].get(kind)) if kind in c["old"] else None
        if v is False:
            refused.add(kind)
        elif v is not None:
            refused.discard(kind)
            listed.append((kind, KINDS[kind][0] if v is True else v, KINDS[kind][1], False))
    if c["z2m_local"] is not None:
        refused.discard("z2m_local")
        listed.append(("z2m_local", c["z2m_local"], (), False))
    for url, ids in c["remote"] or []:
        refused.discard("zigpy_remote")
        listed.append(("zigpy_remote", url, tuple(ids or ()), False))
    out = []
    for kind, where, ids, over in listed:
        if kind in refused:
            continue
        if over:
            out = [o for o in out if o[0] != kind]
        out.append((kind, where, ids))
    return out


def run_sources(c):
    with c22.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i in range(4):
            (d / f"zigpy_local{i}").write_text(json.dumps({"firmwares": [
                {"path": "x.ota", "file_version": 10 + i, "file_size": 4, "image_type": 9, "manufacturer_id": m, "checksum": "sha3-256:" + "0" * 64,
                 "manufacturer_names": [], "model_names": []} for m in IDS + [0]]}))
            (d / f"z2m_local{i}").write_text(json.dumps([
                {"fileVersion": 20 + i, "fileSize": 4, "manufacturerCode": m, "imageType": 9, "sha512": "0" * 128,
                 "path": "x.ota", "url": "http://x/x.ota"} for m in IDS + [0]]))

        def provider(p):
            p = dict(p)
            if "index_file" in p:
                p["index_file"] = str(d / f"{p['type']}{p['index_file']}")
            if c["hex"] and p.get("manufacturer_ids"):
                p["manufacturer_ids"] = [f"0x{m:04X}" for m in p["manufacturer_ids"]]
            return p
        cfg = {}
        if c["enabled"] is not None:
            cfg[conf.CONF_OTA_ENABLED] = c["enabled"]
        if c["providers"] is not None:
            cfg[conf.CONF_OTA_PROVIDERS] = [provider(p) for p in c["providers"]]
        if c["extra"] is not None:
            cfg[conf.CONF_OTA_EXTRA_PROVIDERS] = [provider(p) for p in c["extra"]]
        if c["disabled"] is not None:
            cfg[conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS] = c["disabled"]
        for kind, v in c["old"].items():
            cfg[DEPRECATED[kind]] = v
        if c["z2m_local"] is not None:
            cfg["z2m_local_index"] = str(d / f"z2m_local{c['z2m_local']}")
        if c["remote"] is not None:
            cfg["remote_providers"] = [{"url": u, **({} if ids is None else {"manufacturer_ids": ids})} for u, ids in c["remote"]]
        expected = wanted(c)
        labels = ["several" if len(expected) > 1 else "one" if expected else "none"]

        async def main(loop):
            entries = {}
            with c22.web(entries), freezegun.freeze_time("2024-03-01", ignore=["vlib", "hypothesis", "asyncio"]) as clock:
                app = fakes.make_app(**{conf.CONF_OTA: cfg})
                fakes.add_coordinator(app)
                asked = {}              # number of the source -> when it was last asked
                loaded = set()
                now = 0
                for n, (manuf, hours, mode) in enumerate(c["devices"]):
                    now += hours
                    clock.tick(hours * 3600)
                    for kind, where, ids in expected:
                        if not kind.endswith("_local"):
                            entries[where] = {"mode": mode, "data": b"{}"}
                    entries.pop("#log", None)
                    dev = fakes.add_device(app, n + 1, 0x1111 + n, eps={1: (0x104, 1, [], [0x0019])})
                    if manuf is None:
                        dev.node_desc = None
                    else:
                        dev.node_desc = fakes.node_desc(manufacturer_code=manuf)
                    q = Ota.ServerCommandDefs.query_next_image.schema(
                        field_control=0, manufacturer_code=manuf or 0, image_type=9, current_file_version=100)
                    res = await app.ota.get_ota_images(dev, q)
                    due = [k for k, e in enumerate(expected) if (not e[2] or (manuf is not None and manuf in e[2]))
                           and (k not in asked or now - asked[k] >= 24)]
                    for k in due:
                        asked[k] = now
                        if expected[k][0].endswith("_local"):
                            loaded.add((10 if expected[k][0] == "zigpy_local" else 20) + expected[k][1])
                    remote = [expected[k][1] for k in due if not expected[k][0].endswith("_local")]
                    check_eq(entries.get("#log", []), remote, f"addresses consulted for question {n}, of a device of manufacturer {manuf}")
                    check_eq(sorted(i.version for i in res.downgrades), sorted(loaded), f"images in local files at question {n}")
                    check_eq(res.upgrades, (), "upgrades")
                    if due and len(due) != len(expected):
                        labels.append("filtered")
                    if hours >= 24 and due and n:
                        labels.append("asked again")
        vloop.run(main)
    return {"labels": sorted(set(labels)), "nontrivial": len(expected) > 1}


CHECK = Check("C38", rule="more than one source configured",
              assumptions=["the deprecated advanced directory is not configured (see C31)",
                           "a deprecated option switching off a kind of source that extra_providers adds says nothing either way"],
              suites=[Suite("sources", run_sources, strategy=sources_st, quick=2500, thorough=60000)])
