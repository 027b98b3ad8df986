"""C08: duplicate suppression."""
from __future__ import annotations

import asyncio
import re
from datetime import datetime, timedelta, timezone

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop

import zigpy.datastructures as ds
import zigpy.types as t

from hypothesis import strategies as st

EPS = 1e-6


class Model:
    """value -> end of its window"""

    def __init__(self):
        self.until = {}

    def expect(self, key, now):
        """True / False / None (exactly at the edge: either)"""
        u = self.until.get(key)
        if u is None or u < now - EPS:
            return False
        return None if u <= now + EPS else True

    def live(self, now):
        return (sum(u > now + EPS for u in self.until.values()), sum(u >= now - EPS for u in self.until.values()))


VALUES = [1, "a", None, 2 + 1j, (1, "x"), b"z", frozenset({3}), t.uint8_t(7)]


def run_debouncer(case):
    seen = {"suppressed": 0, "expired": 0}

    async def main(loop):
        d = ds.Debouncer()
        m = Model()
        for op, i, w in case["ops"]:
            now = loop.time()
            v = VALUES[i % len(VALUES)]
            if op == "filter":
                e = m.expect(i % len(VALUES), now)
                r = d.filter(v, expire_in=w)
                check(isinstance(r, bool), "filter returned %r", r)
                if e is not None:
                    check_eq(r, e, f"filter({v!r}, {w}) at {now} with windows until {m.until}")
                if e is False and i % len(VALUES) in m.until:
                    seen["expired"] += 1
                seen["suppressed"] += r
                if not r:
                    m.until[i % len(VALUES)] = now + w
            elif op == "peek":
                e = m.expect(i % len(VALUES), now)
                r = d.is_filtered(v)
                if e is not None:
                    check_eq(r, e, f"is_filtered({v!r}) at {now} with windows until {m.until}")
            elif op == "clean":
                d.clean()
                lo, hi = m.live(now)
                n = int(re.search(r"tracked:(\d+)", repr(d)).group(1))
                check(lo <= n <= hi, "%d values remembered, %d to %d windows still open", n, lo, hi)
            else:
                await asyncio.sleep(w)
        await asyncio.sleep(1000)
        d.clean()
        check_eq(repr(d), "<Debouncer [tracked:0]>", "memory after everything expired")
    vloop.run(main)
    return {"labels": sorted(k for k, v in seen.items() if v), "nontrivial": bool(seen["suppressed"])}


W = st.sampled_from([0.5, 1, 1.5, 2, 3, 5, 10])


def debouncer_cases():
    I = st.integers(0, len(VALUES) - 1)
    op = st.one_of(st.tuples(st.just("filter"), I, W), st.tuples(st.just("filter"), st.integers(0, 2), W),
                   st.tuples(st.just("peek"), I, W), st.tuples(st.just("clean"), st.just(0), W),
                   st.tuples(st.just("wait"), st.just(0), W)).map(list)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=3, max_size=25)})


def run_flood(case):
    """Hundreds of different values within their windows: none of them is forgotten early."""
    n, w = case["n"], case["window"]
    seen = {"again": 0}

    async def main(loop):
        d = ds.Debouncer()
        until = {}
        for i in range(n):
            until[i] = loop.time() + w + i * case["spread"]
            check(not d.filter((i, "v"), expire_in=w + i * case["spread"]), "value %d of %d is suppressed on its first appearance", i, n)
            if i % case["every"] == 0:
                await asyncio.sleep(case["step"])
                for j in [x % (i + 1) for x in case["probe"]]:
                    if abs(until[j] - loop.time()) < EPS:
                        continue
                    open_ = until[j] > loop.time()
                    seen["again"] += open_
                    check_eq(d.is_filtered((j, "v")), open_, f"value {j} of {i + 1} at {loop.time()}, its window ending at {until[j]}")
        d.clean()
        lo, hi = (sum(u > loop.time() + e for u in until.values()) for e in (EPS, -EPS))
        k = int(re.search(r"tracked:(\d+)", repr(d)).group(1))
        check(lo <= k <= hi, "%d values remembered, %d to %d windows still open", k, lo, hi)
        await asyncio.sleep(max(until.values()) - loop.time() + 1)
        d.clean()
        check_eq(repr(d), "<Debouncer [tracked:0]>", "memory after everything expired")
    vloop.run(main)
    return {"labels": ["over 256"] if n > 256 else [], "nontrivial": seen["again"] > 0}


def flood_cases():
    return st.fixed_dictionaries({
        "n": st.sampled_from([40, 130, 260, 600, 1100]), "window": st.sampled_from([1, 10, 60]), "spread": st.sampled_from([0, 0.01, -0.0001]),
        "every": st.sampled_from([7, 31]), "step": st.sampled_from([0.0301, 0.2503, 1.1]), "probe": st.lists(st.integers(0, 10**6), min_size=2, max_size=4)})


# ------------------------------------------------------------------------- packets
PAYLOADS = [bytes([1, 9, 0x70]), bytes([1, 9, 0x71]), bytes([1, 10, 0x70]), bytes([8, 9, 0x0A, 0, 0, 0x10, 1]),
            bytes([8, 9, 0x0A, 0, 0, 0x10, 0])]
ZDO_PAYLOADS = [bytes([9, 1, 0]), bytes([10, 1, 0]), bytes([9, 2, 0])]
DST = [(t.AddrMode.NWK, 0x0000), (t.AddrMode.Group, 5), (t.AddrMode.Group, 6), (t.AddrMode.Broadcast, 0xFFFD)]
KEY = ["dev", "mode", "se", "dst", "de", "prof", "cl", "data", "zdo"]
T0 = datetime(2024, 1, 1, tzinfo=timezone.utc)


def run_packets(case):
    n = {"dup": 0}

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        devs = [fakes.add_device(app, i + 1, 0x1111 * (i + 1), eps={
            1: (260, 0x0100, [0, 6, 8], [6, 8]), 2: (260, 0x0100, [0, 6, 8], [])}) for i in range(2)]
        got = []
        ctx = []
        for i, d in enumerate(devs):
            c = app.callback_for_response(d, [lambda hdr, cmd: True], lambda hdr, cmd, i=i: got.append(i))
            c.__enter__()
            ctx.append(c)
        m = Model()
        radio = [[None, None], [None, None]]
        for p in case["packets"]:
            await asyncio.sleep(p["wait"])
            now = loop.time()
            d = devs[p["dev"]]
            mode, addr = DST[p["dst"]]
            data = (ZDO_PAYLOADS[p["data"] % 3] if p["zdo"] else PAYLOADS[p["data"] % 5])
            cls = {t.AddrMode.NWK: t.NWK, t.AddrMode.Group: t.Group, t.AddrMode.Broadcast: t.BroadcastAddress}[mode]
            ts = T0 + timedelta(seconds=p["ts"])
            pk = t.ZigbeePacket(
                timestamp=ts,
                src=t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=d.ieee) if p["mode"] else
                t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=d.nwk),
                src_ep=0 if p["zdo"] else p["se"],
                dst=t.AddrModeAddress(addr_mode=mode, address=cls(addr)), dst_ep=0 if p["zdo"] else p["de"],
                tsn=p["tsn"], profile_id=0 if p["zdo"] else p["prof"],
                cluster_id=0x0036 if p["zdo"] else p["cl"],
                data=t.SerializableBytes(data), lqi=p["lqi"], rssi=p["rssi"])
            key = tuple(0 if p["zdo"] and k in ("se", "de", "prof", "cl") else p[k] for k in KEY)
            key = key[:7] + (data,)
            before = list(got)
            app.packet_received(pk)
            await vloop.settle(3)
            e = m.expect(key, now)
            new = got[len(before):]
            if e is True:
                n["dup"] += 1
                check_eq(new, [], "devices that processed a repeated packet")
            elif e is False:
                check_eq(new, [p["dev"]], "devices that processed a new packet")
            if new:
                m.until[key] = now + 10
            for j, x in enumerate(("lqi", "rssi")):
                if p[x] is not None:
                    radio[p["dev"]][j] = p[x]
            check_eq([d.lqi, d.rssi], radio[p["dev"]], "link quality of the last packet")
            check_eq(d.last_seen, ts.timestamp(), "last seen")
    vloop.run(main)
    return {"labels": ["zdo"] if any(p["zdo"] for p in case["packets"]) else [], "nontrivial": n["dup"] > 0}


@st.composite
def packet_cases(draw):
    base = {"dev": 0, "mode": 0, "se": 1, "dst": 0, "de": 1, "prof": 260, "cl": 6, "data": 0, "zdo": False,
            "tsn": 9, "lqi": 100, "rssi": -50, "ts": 0, "wait": 0}
    alt = {"dev": st.integers(0, 1), "mode": st.integers(0, 1), "se": st.integers(1, 2), "dst": st.integers(0, 3),
           "de": st.integers(1, 2), "prof": st.sampled_from([260, 0xC05E]), "cl": st.sampled_from([6, 8]),
           "data": st.integers(0, 4), "zdo": st.booleans(), "tsn": st.integers(0, 255),
           "lqi": st.one_of(st.none(), st.integers(0, 255)), "rssi": st.one_of(st.none(), st.integers(-128, 127)),
           "ts": st.integers(0, 5), "wait": st.sampled_from([0, 0, 0, 0.5, 2, 4, 9, 9.5, 10.5, 11])}
    out, cur = [], dict(base)
    for _ in range(draw(st.integers(2, 9))):
        if out and draw(st.integers(0, 2)) == 0:
            cur = dict(draw(st.sampled_from(out)))
        cur = dict(cur, wait=draw(alt["wait"]))
        for k in draw(st.lists(st.sampled_from(sorted(alt)), max_size=2)):
            cur[k] = draw(alt[k])
        out.append(dict(cur))
    return {"packets": out}


CHECK = Check(
    id="C08",
    rule="debouncer: filter/query/clean/wait sequences over values of incomparable types with mixed windows against "
         "a table of window ends; packets: packets of two devices differing in few fields, in virtual time, against "
         "the same table with the 10 s window; flood: up to 1100 values at once. Non-trivial when something was suppressed.",
    assumptions=["exactly at the end of a window either answer is accepted",
                 "the APS counter is no part of a packet's identity (the payload has its own)"],
    suites=[
        Suite("debouncer", run_debouncer, strategy=debouncer_cases, quick=8000, thorough=800_000),
        Suite("flood", run_flood, strategy=flood_cases, quick=60, thorough=3000),
        Suite("packets", run_packets, strategy=packet_cases, quick=4000, thorough=200_000),
    ],
)
