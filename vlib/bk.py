"""Network backups as plain data: generator, builder, canonical form."""
from __future__ import annotations

from datetime import datetime, timedelta, timezone

from . import fakes

import zigpy.backups
import zigpy.state as zs
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st


def hexs(n):
    return st.binary(min_size=n, max_size=n).map(bytes.hex)


U8, U16, U32 = st.integers(0, 255), st.integers(0, 0xFFFF), st.one_of(
    st.integers(0, 0xFFFFFFFF), st.sampled_from([0, 1, 0xFFFFFFFF, 0x80000000]))
EUI = st.one_of(hexs(8), st.sampled_from(["ff" * 8, "00" * 8, "0123456789abcdef", "fedcba9876543210"]))
TEXT = st.one_of(st.none(), st.text(max_size=8), st.sampled_from(["", "ConBee II", "0x26580700", "émetteur"]))
JSON = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**40, 2**40), st.text(max_size=5)),
                    lambda x: st.one_of(st.lists(x, max_size=2), st.dictionaries(st.text(max_size=4), x, max_size=2)),
                    max_leaves=4)
RESERVED = ("node", "network", "link_key_seqs", "creation_time", "date")
META = st.dictionaries(st.text(min_size=1, max_size=6).filter(lambda k: k not in RESERVED), JSON, max_size=3)


def key_st(partner=EUI):
    return st.fixed_dictionaries({"key": hexs(16), "tx": U32, "rx": U32, "seq": U8, "ieee": partner})


@st.composite
def backup_st(draw):
    pool = draw(st.lists(EUI, min_size=1, max_size=6, unique=True))
    some = st.lists(st.sampled_from(pool), unique=True, max_size=5)
    return {
        "time": draw(st.integers(-10**15, 4 * 10**15)),      # microseconds since 1970
        "tz": draw(st.sampled_from([0, 0, 60, -570, 345])),
        "nwk": draw(U16), "ieee": draw(EUI), "type": draw(st.sampled_from([0, 0, 1, 2])),
        "model": draw(TEXT), "manufacturer": draw(TEXT), "version": draw(TEXT),
        "epid": draw(EUI), "pan": draw(U16), "update": draw(U8), "manager": draw(U16),
        "channel": draw(st.one_of(st.integers(11, 26), U8)),
        "mask": sorted(draw(st.sets(st.integers(11, 26)))), "sec": draw(st.integers(0, 7)),
        "nk": draw(key_st()), "tc": draw(key_st()),
        "keys": [draw(key_st(st.just(i))) for i in draw(some)],
        "children": draw(some),
        "nwks": {i: draw(U16) for i in draw(some)},
        "stack": draw(st.dictionaries(st.text(max_size=6), JSON, max_size=2)), "meta": draw(META),
        "source": draw(TEXT)}


def eui(h):
    return t.EUI64.deserialize(bytes.fromhex(h))[0]


def mk_key(k):
    return zs.Key(key=t.KeyData(bytes.fromhex(k["key"])), tx_counter=t.uint32_t(k["tx"]),
                  rx_counter=t.uint32_t(k["rx"]), seq=t.uint8_t(k["seq"]), partner_ieee=eui(k["ieee"]))


def mk_time(d):
    tz = timezone(timedelta(minutes=d["tz"]))
    return (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=d["time"])).astimezone(tz)


def mk(d):
    import copy
    return zigpy.backups.NetworkBackup(
        backup_time=mk_time(d),
        node_info=zs.NodeInfo(nwk=t.NWK(d["nwk"]), ieee=eui(d["ieee"]), logical_type=zdo_t.LogicalType(d["type"]),
                              model=d["model"], manufacturer=d["manufacturer"], version=d["version"]),
        network_info=zs.NetworkInfo(
            extended_pan_id=t.ExtendedPanId.deserialize(bytes.fromhex(d["epid"]))[0], pan_id=t.PanId(d["pan"]),
            nwk_update_id=t.uint8_t(d["update"]), nwk_manager_id=t.NWK(d["manager"]),
            channel=t.uint8_t(d["channel"]), channel_mask=t.Channels.from_channel_list(d["mask"]),
            security_level=t.uint8_t(d["sec"]), network_key=mk_key(d["nk"]), tc_link_key=mk_key(d["tc"]),
            key_table=[mk_key(k) for k in d["keys"]], children=[eui(i) for i in d["children"]],
            nwk_addresses={eui(i): t.NWK(n) for i, n in d["nwks"].items()},
            stack_specific=copy.deepcopy(d["stack"]), metadata=copy.deepcopy(d["meta"]), source=d["source"]))


def canon_key(k):
    return {"key": bytes(t.KeyData(k.key).serialize()).hex(), "tx": int(k.tx_counter), "rx": int(k.rx_counter),
            "seq": int(k.seq), "ieee": k.partner_ieee.serialize().hex()}


def canon(b):
    """Every field of a backup as plain data, unordered tables sorted."""
    n, i = b.network_info, b.node_info
    return {"time": b.backup_time.astimezone(timezone.utc).isoformat(), "format": b.version, **canon_net(n), **canon_node(i)}


def canon_node(i):
    return {"nwk": int(i.nwk), "ieee": i.ieee.serialize().hex(), "type": int(i.logical_type), "model": i.model,
            "manufacturer": i.manufacturer, "version": i.version}


def canon_net(n):
    return {
        "epid": n.extended_pan_id.serialize().hex(), "pan": int(n.pan_id), "update": int(n.nwk_update_id),
        "manager": int(n.nwk_manager_id), "channel": int(n.channel), "mask": sorted(int(c) for c in n.channel_mask),
        "sec": int(n.security_level), "nk": canon_key(n.network_key), "tc": canon_key(n.tc_link_key),
        "keys": sorted((canon_key(k) for k in n.key_table), key=lambda k: (k["ieee"], k["key"])),
        "children": sorted(c.serialize().hex() for c in n.children),
        "nwks": {a.serialize().hex(): int(w) for a, w in n.nwk_addresses.items()},
        "stack": n.stack_specific, "meta": n.metadata, "source": n.source}


def expect(d):
    """canon() of mk(d), without going through the library."""
    utc = (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=d["time"])).isoformat()
    return {"time": utc, "format": 1,
            **{k: d[k] for k in ("epid", "pan", "update", "manager", "channel", "sec", "nk", "tc", "nwks", "stack",
                                 "meta", "source", "nwk", "ieee", "type", "model", "manufacturer", "version")},
            "mask": sorted(d["mask"]), "keys": sorted(d["keys"], key=lambda k: (k["ieee"], k["key"])),
            "children": sorted(d["children"])}


_ = fakes
