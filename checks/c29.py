"""C29: channel choice, energy scans, forming a network and moving it to another channel."""
from __future__ import annotations

import contextlib
import copy
import json
import os
import random

from vlib.core import Check, Suite, check, check_eq
from vlib import bk, fakes, sim, vloop

import zigpy.backups as zb
import zigpy.config as conf
import zigpy.exceptions
import zigpy.state as zs
import zigpy.types as t
import zigpy.util
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

ALL = list(range(11, 27))
KERNEL = [0.1, 0.5, 1.0, 0.5, 0.1]
PENALTY = {11: 2.0, 12: 3.0, 13: 3.0, 14: 3.0, 15: 1.0, 16: 3.0, 17: 3.0, 18: 3.0, 19: 3.0, 20: 1.0, 21: 3.0, 22: 3.0,
           23: 3.0, 24: 3.0, 25: 1.0, 26: 2.0}


def scores(energy, kernel=None, penalty=None):
    """Own reading plus the kernel-weighted readings around it (edges continue), plus one, times the penalty."""
    kernel = KERNEL if kernel is None else kernel
    penalty = PENALTY if penalty is None else penalty
    half = len(kernel) // 2

    def at(c):
        return energy[min(max(c, 11), 26)]

    out = {}
    for c in ALL:
        # readings are known (or continued) only up to half a kernel beyond the band
        near = sum(at(c + d) * kernel[half - d] for d in range(-half, half + 1))
        out[c] = (1 + at(c) + near) * penalty.get(c, 1.0)
    return out


def check_choice(chosen, energy, mask, kernel=None, penalty=None):
    check(chosen in mask, "channel %s is not permitted by %s", chosen, mask)
    s = scores(energy, kernel, penalty)
    best = min(s[c] for c in mask)
    check(s[chosen] <= best + 1e-9 * (1 + abs(best)), "channel %s scores %s though %s scores %s", chosen, s[chosen],
          [c for c in mask if s[c] == best], best)


def mask_st():
    return st.lists(st.sampled_from(ALL), min_size=1, max_size=16, unique=True).map(sorted)


def energy_st():
    one = st.one_of(st.integers(0, 255), st.sampled_from([0, 0, 255, 1, 100]))
    return st.one_of(st.lists(one, min_size=16, max_size=16),
                     st.lists(st.floats(0, 255, allow_nan=False), min_size=16, max_size=16),
                     st.tuples(st.integers(0, 255), st.dictionaries(st.integers(0, 15), st.integers(0, 255), max_size=3)).map(
                         lambda x: [x[1].get(i, x[0]) for i in range(16)]))


@st.composite
def pick_cases(draw):
    c = {"energy": draw(energy_st()), "mask": draw(mask_st()), "how": draw(st.sampled_from(["mask", "mask", "default"]))}
    c["order"] = draw(st.permutations(list(range(16)))) if draw(st.booleans()) else None
    if draw(st.integers(0, 3)) == 0:
        half = draw(st.integers(0, 4))
        c["kernel"] = draw(st.lists(st.sampled_from([0.0, 0.1, 0.25, 0.5, 1.0, 2.0]), min_size=2 * half + 1, max_size=2 * half + 1))
    if draw(st.integers(0, 3)) == 0:
        c["penalty"] = draw(st.lists(st.tuples(st.sampled_from(ALL), st.sampled_from([0.5, 1.0, 2.0, 5.0])).map(list), max_size=8))
    return c


def run_pick(case):
    energy = dict(zip(ALL, case["energy"]))
    if case["order"]:
        energy = {ALL[i]: energy[ALL[i]] for i in case["order"]}
    kw = {}
    if case["how"] == "mask":
        kw["channels"] = t.Channels.from_channel_list(case["mask"])
        mask = case["mask"]
    else:
        mask = [11, 15, 20, 25]
    if "kernel" in case:
        kw["kernel"] = list(case["kernel"])
    if "penalty" in case:
        kw["channel_penalty"] = dict(map(tuple, case["penalty"]))
    before = dict(energy)
    r = zigpy.util.pick_optimal_channel(energy, **kw)
    check_choice(r, energy, mask, case.get("kernel"), kw.get("channel_penalty"))
    check_eq(energy, before, "readings after picking")
    check_eq(zigpy.util.pick_optimal_channel(energy, **kw), r, "channel picked again from the same readings")
    return {"labels": ["kernel" if "kernel" in case else "default kernel"], "nontrivial": len(mask) > 1}


# ---------------------------------------------------------------- a radio with its own network

NWK_UPDATE = 0x0038


def channels_mask(chs):
    return sum(1 << c for c in chs)


@st.composite
def reply_st(draw):
    k = draw(st.sampled_from(["full", "full", "full", "partial", "more", "short", "long", "status", "status_only", "lost", "fail",
                              "twice"]))
    return [k, draw(st.integers(0, 2**16 - 1)), draw(energy_st().map(lambda e: [int(x) for x in e]))]


class Ether:
    """Answers energy scans and channel changes sent to the coordinator itself."""

    def __init__(self, app, loop):
        self.app, self.loop = app, loop
        self.reply = ["full", 0, [0] * 16]
        self.scans = []             # (channels, duration, count)
        self.reported = None        # channel -> value, of the last answered scan
        self.others = []
        self.on_change = None
        app.hooks["send_packet"] = self.send

    def send(self, pkt):
        data = pkt.data.serialize()
        if int(pkt.cluster_id) != NWK_UPDATE:
            return
        chs = int.from_bytes(data[1:5], "little")
        asked = [c for c in ALL if chs >> c & 1]
        dur = data[5]
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            self.others.append((int(pkt.dst.address), asked, dur, data[6:].hex(), int(pkt.radius)))
            return
        check_eq(int(pkt.dst.address), 0, "destination of the update request")
        if dur == 0xFE:
            self.others.append(("self", asked, dur, data[6:].hex(), None))
            self.answer(data[:1] + b"\0" + data[1:5] + bytes(4) + b"\0")
            if self.on_change:
                self.on_change(asked, data[6])
            return
        check(dur <= 5, "scan duration %s", dur)
        self.scans.append((asked, dur, data[6]))
        kind, bits, energy = self.reply
        self.reported = {}
        if kind == "lost":
            return
        if kind == "fail":
            raise zigpy.exceptions.DeliveryError("injected")
        if kind == "status_only":
            return self.answer(data[:1] + b"\x84")
        got = list(asked)
        if kind == "partial":
            got = [c for c in asked if bits >> (c - 11) & 1]
        if kind == "more":
            got = [c for c in ALL if c in asked or bits >> (c - 11) & 1]
        vals = [energy[c - 11] for c in got]
        if kind == "short":
            vals = vals[:bits % (len(vals) + 1)]
        if kind == "long":
            vals = vals + [1, 2]
        st_ = 0x84 if kind == "status" else 0
        if kind == "status":
            got, vals = [], []
        self.reported = dict(zip(got, vals))
        payload = bytes([st_]) + sim_le32(channels_mask(got)) + sim.le16(3) + sim.le16(1) + bytes([len(vals)]) + bytes(vals)
        self.answer(data[:1] + payload)
        if kind == "twice":
            self.answer(data[:1] + bytes([st_]) + sim_le32(channels_mask(got)) + bytes(4) + bytes([len(vals)])
                        + bytes(255 - v for v in vals))

    def answer(self, data):
        self.loop.call_later(0.05, lambda: self.app.packet_received(
            fakes.packet(0x0000, 0x8038, data, src_ep=0, dst_ep=0, profile=0)))


def sim_le32(x):
    return x.to_bytes(4, "little")


@st.composite
def scan_cases(draw):
    return {"scans": draw(st.lists(st.tuples(mask_st(), st.integers(0, 5), st.integers(1, 5), reply_st()).map(list),
                                   min_size=1, max_size=3))}


def check_scan(got, asked, ether, what):
    check(set(asked) <= set(got), "%s: channels %s were not reported", what, sorted(set(asked) - set(got)))
    check(set(got) <= set(asked) | set(ether.reported), "%s: channels reported out of nowhere: %s", what, sorted(got))
    for c, v in ether.reported.items():
        check_eq(got.get(c), v, f"{what}: energy of channel {c}")
    for c, v in got.items():
        check(0 <= v <= 255, "%s: energy of channel %s is %r", what, c, v)
    check(all(isinstance(c, int) for c in got), "%s: odd channels", what)


def run_scan(case):
    labels = []

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        ether = Ether(app, loop)
        for asked, dur, count, reply in case["scans"]:
            ether.reply = reply
            ether.scans.clear()
            got = await app.energy_scan(channels=t.Channels.from_channel_list(asked), duration_exp=dur, count=count)
            check(len(ether.scans) >= 1, "no scan was asked for")
            for s in ether.scans:
                check_eq(s, (asked, dur, count), "scan asked of the radio")
            check_scan(got, asked, ether, "scan")
            labels.append("reply " + reply[0])
            await vloop.quiesce(loop, 1)

    vloop.run(main)
    return {"labels": labels}


# ---------------------------------------------------------------- forming a network


class Entropy:
    def __init__(self, prefixes, seed):
        self.prefixes, self.rnd = {int(k): list(v) for k, v in prefixes.items()}, random.Random(seed)

    def __call__(self, n):
        q = self.prefixes.get(n)
        if q:
            return bytes.fromhex(q.pop(0))
        return bytes(self.rnd.randrange(256) for _ in range(n))


@contextlib.contextmanager
def entropy(src):
    saved = os.urandom, random._urandom
    os.urandom = random._urandom = src
    try:
        yield
    finally:
        os.urandom, random._urandom = saved


@st.composite
def form_cases(draw):
    nwk = {}
    hexb = lambda n: st.binary(min_size=n, max_size=n).map(lambda b: b.hex())  # noqa: E731
    for k, s in {"channel": st.sampled_from(ALL), "channels": mask_st(), "pan_id": st.integers(1, 0xFFFE),
                 "extended_pan_id": hexb(8), "key": hexb(16), "key_sequence_number": st.integers(0, 255),
                 "tc_address": hexb(8), "tc_link_key": hexb(16), "update_id": st.integers(0, 255)}.items():
        if draw(st.integers(0, 2)) == 0:
            nwk[k] = draw(s)
    return {"nwk": nwk, "fast": draw(st.integers(0, 3)) == 0, "formed": draw(st.none() | bk.backup_st()), "reply": draw(reply_st()),
            "times": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 999)),
            "two": [draw(st.sampled_from([None, "ffff", "feff", "fffe", "0000", "fdff", "0100"])) for _ in range(3)]}


def conf_nwk(n):
    out = dict(n)
    for k, cls in (("extended_pan_id", t.ExtendedPanId), ("tc_address", t.EUI64)):
        if k in n:
            out[k] = cls.deserialize(bytes.fromhex(n[k]))[0]
    for k in ("key", "tc_link_key"):
        if k in n:
            out[k] = t.KeyData(bytes.fromhex(n[k]))
    return out


def run_form(case):
    nwk = case["nwk"]
    labels = [("fast" if case["fast"] else "slow"), "formed" if case["formed"] else "blank"]

    async def main(loop):
        app = fakes.make_app(**{conf.CONF_NWK: conf_nwk(nwk)})
        fakes.add_coordinator(app)
        ether = Ether(app, loop)
        ether.reply = case["reply"]
        stored = [None]
        writes = []
        if case["formed"]:
            b = bk.mk(case["formed"])
            stored[0] = (b.network_info, zs.NodeInfo(nwk=t.NWK(0), ieee=fakes.NCP_IEEE))

        def load(load_devices):
            if stored[0] is None:
                raise zigpy.exceptions.NetworkNotFormed
            app.state.network_info, app.state.node_info = copy.deepcopy(stored[0])

        def write(ni, node):
            writes.append((copy.deepcopy(ni), copy.deepcopy(node), len(ether.scans)))
            ni, node = copy.deepcopy(ni), copy.deepcopy(node)
            if node.ieee == t.EUI64.UNKNOWN:
                node.ieee = fakes.NCP_IEEE
            if ni.tc_link_key.partner_ieee == t.EUI64.UNKNOWN:
                ni.tc_link_key.partner_ieee = node.ieee
            stored[0] = (ni, node)

        def start():
            if stored[0] is None:
                raise zigpy.exceptions.NetworkNotFormed
        app.hooks.update(load_network_info=load, write_network_info=write, start_network=start)

        results = []
        for i in range(case["times"]):
            writes.clear()
            ether.scans.clear()
            was_blank = stored[0] is None
            await app.form_network(fast=case["fast"])
            scanning = not case["fast"] and "channel" not in nwk
            want = 2 if scanning and was_blank else 1
            check_eq(len(writes), want, "network settings written")
            if scanning:
                check(len(ether.scans) >= 1, "no energy scan")
                check(all(s[0] == ALL for s in ether.scans), "scanned %s", ether.scans)
            else:
                check_eq(ether.scans, [], "energy scans")
            for j, (ni, node, nscan) in enumerate(writes):
                last = j == len(writes) - 1
                fast = case["fast"] or not last
                mask = nwk.get("channels", [11, 15, 20, 25])
                check_network(ni, node, nwk, fast)
                saved = zb.NetworkBackup(network_info=ni, node_info=node)
                again = zb.NetworkBackup.from_dict(json.loads(json.dumps(saved.as_dict())))
                check_eq((again.network_info, again.node_info), (ni, node), "settings written, after a backup of them")
                if "channel" in nwk:
                    check_eq(int(ni.channel), nwk["channel"], "channel")
                elif fast:
                    check(int(ni.channel) in mask, "channel %s is not in the mask %s", ni.channel, mask)
                else:
                    check(nscan >= 1, "written before scanning")
                    energy = {c: ether.reported.get(c) for c in ALL}
                    check(int(ni.channel) in mask, "channel %s is not in the mask %s", ni.channel, mask)
                    if None not in energy.values():
                        check_choice(int(ni.channel), energy, mask)
                        labels.append("scored")
                    elif not ether.reported:
                        check_choice(int(ni.channel), {c: 0 for c in ALL}, mask)
            if case["fast"]:
                check_eq(app.backups.backups, [], "backups made")
            elif nwk.get("extended_pan_id") != "ff" * 8 and nwk.get("key") != "ff" * 16:
                b = app.backups.backups[-1]
                check_eq((b.network_info.pan_id, b.network_info.extended_pan_id, b.network_info.network_key.key,
                          b.network_info.channel),
                         (writes[-1][0].pan_id, writes[-1][0].extended_pan_id, writes[-1][0].network_key.key,
                          writes[-1][0].channel), "network in the new backup")
            results += [w[0] for w in writes]
        for a in range(len(results)):
            for b in range(a):
                if "key" not in nwk:
                    check(results[a].network_key.key != results[b].network_key.key, "the network key was reused")
                if "extended_pan_id" not in nwk:
                    check(results[a].extended_pan_id != results[b].extended_pan_id, "the extended PAN id was reused")

    with entropy(Entropy({"2": [x for x in case["two"] if x]}, case["seed"])):
        vloop.run(main)
    return {"labels": labels}


def check_network(ni, node, nwk, fast):
    check(isinstance(ni.pan_id, int) and 0 < ni.pan_id < 0xFFFF, "PAN id %r", ni.pan_id)
    if "pan_id" in nwk:
        check_eq(int(ni.pan_id), nwk["pan_id"], "PAN id")
    check_eq(ni.pan_id, t.PanId(ni.pan_id), "PAN id")
    ext = ni.extended_pan_id.serialize().hex()
    if "extended_pan_id" in nwk:
        check_eq(ext, nwk["extended_pan_id"], "extended PAN id")
    check_eq(len(ext), 16, "length of the extended PAN id")
    key = ni.network_key.key.serialize().hex()
    if "key" in nwk:
        check_eq(key, nwk["key"], "network key")
    check_eq(len(key), 32, "length of the network key")
    check_eq((int(ni.network_key.seq), ni.network_key.tx_counter, ni.network_key.rx_counter),
             (nwk.get("key_sequence_number", 0), 0, 0), "key sequence number and counters")
    check_eq(ni.tc_link_key.key.serialize().hex(), nwk.get("tc_link_key", b"ZigBeeAlliance09".hex()), "TC link key")
    check_eq((ni.tc_link_key.seq, ni.tc_link_key.tx_counter, ni.tc_link_key.rx_counter), (0, 0, 0), "TC link key counters")
    check_eq(ni.tc_link_key.partner_ieee.serialize().hex(), nwk.get("tc_address", "ff" * 8), "trust center address")
    check_eq(int(ni.nwk_update_id), nwk.get("update_id", 0), "update id")
    check_eq(int(ni.nwk_manager_id), 0, "network manager")
    check_eq(int(ni.security_level), 5, "security level")
    check_eq(list(ni.channel_mask), [int(ni.channel)], "channel mask")
    check_eq((list(ni.children), list(ni.key_table), dict(ni.nwk_addresses)), ([], [], {}), "tables of a new network")
    check_eq(bool(ni.stack_specific.get("form_quickly")), fast, "form_quickly")
    check_eq((int(node.nwk), node.ieee.serialize().hex(), node.logical_type), (0, "ff" * 8, zdo_t.LogicalType.Coordinator),
             "node settings")


# ---------------------------------------------------------------- moving a network


@st.composite
def move_cases(draw):
    return {"ni": draw(bk.backup_st()), "old": draw(st.sampled_from(ALL)),
            "update_id": draw(st.integers(0, 255) | st.sampled_from([0, 0xFD, 0xFE, 0xFF])),
            "moves": draw(st.lists(st.tuples(st.sampled_from(ALL), st.sampled_from([None, None, 1, 3, 10]),
                                             st.sampled_from([0, 0.5, 3, 12]), st.booleans()).map(list), min_size=1, max_size=3))}


def run_move(case):
    labels = []

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        ether = Ether(app, loop)
        b = bk.mk(case["ni"])
        app.state.network_info = b.network_info.replace(channel=t.uint8_t(case["old"]), nwk_update_id=t.uint8_t(case["update_id"]),
                                                        channel_mask=t.Channels.from_channel_list([case["old"]]))
        app.state.node_info.nwk = t.NWK(0)
        real = {"v": copy.deepcopy(app.state.network_info)}
        uid = case["update_id"]
        channel = case["old"]
        for new, num, delay, inplace in case["moves"]:
            ether.others.clear()
            app.log.clear()
            expected = copy.deepcopy(app.state.network_info)
            node = copy.deepcopy(app.state.node_info)

            def change(asked, new_uid):
                def later():
                    real["v"] = real["v"].replace(channel=t.uint8_t(asked[0]), nwk_update_id=t.uint8_t(new_uid),
                                                  channel_mask=t.Channels.from_channel_list(asked))
                loop.call_later(delay, later)

            def load(load_devices):
                if inplace:
                    for k in ("channel", "nwk_update_id", "channel_mask"):
                        setattr(app.state.network_info, k, getattr(real["v"], k))
                else:
                    app.state.network_info = copy.deepcopy(real["v"])
            ether.on_change = change
            app.hooks["load_network_info"] = load
            await app.move_network_to_channel(new, **({} if num is None else {"num_broadcasts": num}))
            if new == channel:
                check_eq((ether.others, app.log), ([], []), "activity though the channel is already right")
                check_eq(vars(app.state.network_info), vars(expected), "network settings")
                labels.append("same channel")
                continue
            uid = 0 if uid in (0xFE,) else (uid + 1) % 0xFF
            channel = new
            casts = [(0xFFFF, [new], 0xFE, f"{uid:02x}", 30)] * (5 if num is None else num)
            got = [(o[0], o[1], o[2], o[3][:2], o[4]) for o in ether.others]
            check_eq(got, casts + [("self", [new], 0xFE, f"{uid:02x}", None)], "channel change requests")
            check_eq([o[0] for o in app.log if o[0] not in ("load_network_info",)], [], "other radio calls")
            expected = expected.replace(channel=t.uint8_t(new), nwk_update_id=t.uint8_t(uid),
                                        channel_mask=t.Channels.from_channel_list([new]))
            for k, v in vars(expected).items():
                check_eq(getattr(app.state.network_info, k), v, f"{k} after the move")
            check_eq(vars(app.state.node_info), vars(node), "node settings after the move")
            labels.append("moved")
            await vloop.quiesce(loop, 1)

    vloop.run(main)
    return {"labels": labels, "nontrivial": "moved" in labels}


CHECK = Check(
    "C29",
    rule="more than one permitted channel; at least one scan, network formed or move",
    assumptions=["the weight of a channel is its own reading plus the kernel-weighted readings around it, plus one, times its "
                 "penalty, as the code states", "the system's random numbers are replaced by generated ones"],
    suites=[
        Suite("pick", run_pick, strategy=pick_cases, quick=5000, thorough=200000),
        Suite("scan", run_scan, strategy=scan_cases, quick=2000, thorough=50000),
        Suite("form", run_form, strategy=form_cases, quick=2000, thorough=50000),
        Suite("move", run_move, strategy=move_cases, quick=1000, thorough=20000),
    ])
