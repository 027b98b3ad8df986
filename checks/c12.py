"""C12: backups survive their serialisation formats."""
from __future__ import annotations

import copy
import json

from vlib.core import Check, Suite, check, check_eq
from vlib import bk

import zigpy.backups as zb

from hypothesis import strategies as st

TYPES = {0: "coordinator", 1: "router", 2: "end_device"}


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def same(b, expected, what):
    d = diff(expected, bk.canon(b))
    check(not d, "%s: fields changed (expected, got): %s", what, d)


def rev(h):
    return bytes.fromhex(h)[::-1].hex()


def colon(h):
    """text form of an address stored in wire order"""
    return ":".join(f"{x:02x}" for x in bytes.fromhex(h)[::-1])


# ------------------------------------------------------------------- native format
def ref_native(d, version=1):
    """The stored form, written from the format's definition."""
    def key(k):
        return {"key": ":".join(f"{x:02x}" for x in bytes.fromhex(k["key"])), "tx_counter": k["tx"],
                "rx_counter": k["rx"], "seq": k["seq"], "partner_ieee": colon(k["ieee"])}
    node = {"nwk": f"{d['nwk']:04X}", "ieee": colon(d["ieee"]), "logical_type": TYPES[d["type"]]}
    o = {"backup_time": bk.mk_time(d).isoformat(),
         "network_info": {
             "extended_pan_id": colon(d["epid"]), "pan_id": f"{d['pan']:04X}", "nwk_update_id": d["update"],
             "nwk_manager_id": f"{d['manager']:04X}", "channel": d["channel"], "channel_mask": d["mask"],
             "security_level": d["sec"], "network_key": key(d["nk"]), "tc_link_key": key(d["tc"]),
             "key_table": [key(k) for k in d["keys"]], "children": [colon(c) for c in d["children"]],
             "nwk_addresses": {colon(i): f"{n:04X}" for i, n in d["nwks"].items()},
             "stack_specific": d["stack"], "metadata": d["meta"], "source": d["source"]},
         "node_info": node}
    if version == 1:
        o["version"] = 1
        node.update(model=d["model"], manufacturer=d["manufacturer"], version=d["version"])
    return o


def run_native(d):
    b = bk.mk(d)
    want = bk.expect(d)
    same(b, want, "construction")
    o = b.as_dict()
    text = json.dumps(o)
    same(b, want, "writing changed the backup")
    back = zb.NetworkBackup.from_dict(json.loads(text))
    same(back, want, "stored form")
    same(zb.NetworkBackup.from_dict(copy.deepcopy(o)), want, "dictionary form")
    # equality ignores nothing: any difference in the sorted tables is a difference
    check(back.network_info.replace(key_table=[], children=[]) == b.network_info.replace(key_table=[], children=[]),
          "networks differ: %r %r", back, b)
    check(back.node_info == b.node_info and back.backup_time == b.backup_time and back.version == b.version,
          "not equal to the original")
    # the format itself
    ref = ref_native(d)
    same(zb.NetworkBackup.from_dict(json.loads(json.dumps(ref))), want, "format version 1")
    norm = json.loads(text)
    for x in (ref, norm):
        x["network_info"]["children"] = sorted(x["network_info"]["children"])
        x["network_info"]["key_table"].sort(key=lambda k: k["partner_ieee"])
    check_eq(json.dumps(norm, sort_keys=True).lower(), json.dumps(json.loads(json.dumps(ref)), sort_keys=True).lower(), "stored form")
    # the version before had no descriptions of the coordinator
    old = json.loads(json.dumps(ref_native(d, version=0)))
    if d["sec"] % 2:
        old["version"] = 0
    keep = copy.deepcopy(old)
    same(zb.NetworkBackup.from_dict(old), dict(want, model=None, manufacturer=None, version=None), "format version 0")
    check_eq(old, keep, "the dictionary that was read")
    return {"nontrivial": bool(d["keys"] or d["children"] or d["nwks"])}


# ------------------------------------------------------------- open coordinator backup
def ref_ocb(d, opt):
    """Open coordinator backup of d, written from the format's definition."""
    devs = {}
    for i in [*d["nwks"], *d["children"], *(k["ieee"] for k in d["keys"])]:
        devs[i] = {"ieee_address": rev(i), "nwk_address": f"{d['nwks'][i]:04x}" if i in d["nwks"] else None,
                   "is_child": i in d["children"]}
    for k in d["keys"]:
        devs[k["ieee"]]["link_key"] = {"key": k["key"], "tx_counter": k["tx"], "rx_counter": k["rx"]}
    for x in devs.values():
        if opt["omit_child"] and x["is_child"]:
            del x["is_child"]
    internal = {"creation_time": bk.mk_time(d).isoformat(),
                "node": {"ieee": rev(d["ieee"]), "nwk": f"{d['nwk']:04x}", "type": TYPES[d["type"]],
                         "model": d["model"], "manufacturer": d["manufacturer"], "version": d["version"]},
                "network": {"tc_link_key": {"key": d["tc"]["key"], "frame_counter": d["tc"]["tx"]},
                            "tc_address": rev(d["tc"]["ieee"]), "nwk_manager": f"{d['manager']:04x}"},
                "link_key_seqs": {rev(k["ieee"]): k["seq"] for k in d["keys"]}, **d["meta"]}
    o = {"metadata": {"version": 1, "format": "zigpy/open-coordinator-backup", "source": d["source"], "internal": internal},
         "stack_specific": d["stack"], "coordinator_ieee": rev(d["ieee"]), "pan_id": f"{d['pan']:04x}",
         "extended_pan_id": rev(d["epid"]), "nwk_update_id": d["update"], "security_level": d["sec"],
         "channel": d["channel"], "channel_mask": d["mask"],
         "network_key": {"key": d["nk"]["key"], "sequence_number": d["nk"]["seq"], "frame_counter": d["nk"]["tx"]},
         "devices": sorted(devs.values(), key=lambda x: x["ieee_address"])}
    for k in opt["drop"]:
        if k in ("node", "network", "link_key_seqs", "creation_time"):
            internal.pop(k, None)
        elif k == "internal":
            o["metadata"].pop("internal")
        elif k == "stack_specific":
            o.pop(k)
    if opt["date"] and "internal" in o["metadata"]:
        internal.pop("creation_time", None)
        internal["date"] = bk.mk_time(dict(d, tz=0)).isoformat(timespec="milliseconds").replace("+00:00", "Z")
    return o


ZERO = "f" * 32
TC_DEFAULT = b"ZigBeeAlliance09".hex()
UNKNOWN = "ff" * 8


def ocb_expect(d, opt):
    w = bk.expect(d)
    w["nk"] = dict(w["nk"], rx=0, ieee=UNKNOWN)
    w["tc"] = dict(w["tc"], rx=0, seq=0)
    drop = set(opt["drop"])
    if "internal" in drop:
        drop |= {"node", "network", "link_key_seqs", "creation_time", "meta"}
        w["meta"] = {}
    if "node" in drop:
        w.update(nwk=0, type=0, model=None, manufacturer=None, version=None)
    if "network" in drop:
        w["manager"] = 0
        w["tc"] = {"key": TC_DEFAULT, "tx": 0, "rx": 0, "seq": 0, "ieee": d["ieee"]}
    if "link_key_seqs" in drop:
        w["keys"] = [dict(k, seq=0) for k in w["keys"]]
    if "stack_specific" in drop:
        w["stack"] = {}
    if opt["date"] and "internal" not in opt["drop"]:
        iso = bk.mk_time(dict(d, tz=0)).isoformat(timespec="milliseconds")
        from datetime import datetime
        w["time"] = datetime.fromisoformat(iso).isoformat()
        w["meta"] = dict(w["meta"], date=iso.replace("+00:00", "Z"))
    elif "creation_time" in drop:
        w["time"] = "1970-01-01T00:00:00+00:00"
    return w


PLAIN = {"omit_child": False, "drop": [], "date": False}


def run_ocb(case):
    d, opt = case["backup"], case["opt"]
    b = bk.mk(d)
    text = json.dumps(b.as_open_coordinator_json())
    same(b, bk.expect(d), "writing changed the backup")
    check_eq(json.loads(text), json.loads(json.dumps(ref_ocb(d, PLAIN))), "open coordinator backup")
    want = ocb_expect(d, PLAIN)
    for how in ("from_open_coordinator_json", "from_dict"):
        back = getattr(zb.NetworkBackup, how)(json.loads(text))
        same(back, want, "what it wrote")
        # and again, through the native format
        again = zb.NetworkBackup.from_dict(json.loads(json.dumps(back.as_dict())))
        same(again, want, "native form of an imported backup")
        same(zb.NetworkBackup.from_dict(json.loads(json.dumps(again.as_open_coordinator_json()))), want, "second export")
    # what other programs write
    o = ref_ocb(d, opt)
    got = zb.NetworkBackup.from_dict(json.loads(json.dumps(o)))
    same(got, ocb_expect(d, opt), f"import with {opt}")
    return {"nontrivial": bool(d["keys"] or d["children"] or d["nwks"]), "labels": sorted(opt["drop"])}


def ocb_cases():
    return st.fixed_dictionaries({"backup": bk.backup_st(), "opt": st.fixed_dictionaries({
        "omit_child": st.booleans(), "date": st.booleans(),
        "drop": st.lists(st.sampled_from(["node", "network", "link_key_seqs", "creation_time", "internal",
                                          "stack_specific"]), unique=True, max_size=3)})})


# -------------------------------------------------------------------------- rejection
def run_reject(case):
    try:
        b = zb.NetworkBackup.from_dict(case)
    except (ValueError, KeyError):
        return {"nontrivial": True}
    check(False, "accepted as a backup: %r", b)


CHECK = Check(
    id="C12",
    rule="generated backups (any addresses, keys, counters, tables, metadata, times with time zones) written and read "
         "in the native format (this and the previous version) and the open coordinator format, each compared with an "
         "independent writer and with every field of the original; variations of what other programs omit. "
         "Non-trivial when the backup has a device.",
    assumptions=["the open coordinator format has no place for the network key's receive counter and partner, the trust "
                 "centre key's receive counter and sequence, and metadata named like its own fields"],
    suites=[
        Suite("native", run_native, strategy=bk.backup_st, quick=2400, thorough=200_000),
        Suite("ocb", run_ocb, strategy=ocb_cases, quick=2400, thorough=200_000),
        Suite("reject", run_reject, strategy=lambda: st.dictionaries(
            st.sampled_from(["version", "backup_time", "node_info", "devices", "x"]), bk.JSON, max_size=3),
            quick=200, thorough=5000),
    ],
)
