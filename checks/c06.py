"""C06: requests, replies, timeouts."""
from __future__ import annotations

import asyncio

from vlib.core import Check, Suite, Violation, b2h, check, check_eq, short
from vlib import fakes, vloop

import zigpy.exceptions as ex
import zigpy.types as t
import zigpy.zdo.types as zt

from hypothesis import strategies as st

ADDR = [0x1111, 0x2222, 0x3333]
EXTENDED = 28
#: the third one may also not be described yet
TYPES = [zt.LogicalType.Router, zt.LogicalType.EndDevice, zt.LogicalType.Router]


def build(conc, seqs, undescribed):
    app = fakes.make_app()
    fakes.add_coordinator(app)
    devs = []
    for i, a in enumerate(ADDR):
        d = fakes.add_device(app, i + 1, a, eps={1: (260, 0x0100, [0, 6], []), 2: (260, 0x0100, [0, 6], [])},
                             logical_type=TYPES[i])
        d._concurrent_requests_semaphore.max_value = conc
        d._send_sequence = seqs[i]
        devs.append(d)
    if undescribed:
        # requests are possible before the node descriptor is known
        devs[2].node_desc = None
        devs[2].__class__ = type("Undescribed", (type(devs[2]),), {"is_initialized": True})
    return app, devs


def start(d, r):
    k = r["kind"]
    ep = d.endpoints[r["ep"]]
    if k == "read":
        return ep.in_clusters[0].request(True, 0, fakes_read_schema(), [t.uint16_t(0)], timeout=r["timeout"])
    if k == "on":
        return ep.in_clusters[6].command(1, timeout=r["timeout"])
    if k == "zdo":
        return d.zdo.Active_EP_req(d.nwk, timeout=r["timeout"])
    if k == "raw":
        return d.request(260, 0, r["ep"], r["ep"], r["seq"], bytes([0, r["seq"], 0, 0, 0]), timeout=r["timeout"])
    return d.request(260, 0, r["ep"], r["ep"], d.get_sequence(), b"\0\0\0\0\0", expect_reply=False)


def fakes_read_schema():
    import zigpy.zcl.foundation as f
    return f.GENERAL_COMMANDS[f.GeneralCommand.Read_Attributes].schema


def answer(d, r, tsn, kind, val):
    """(packet, what the caller must get) of a reply to request r; `val` makes it unique."""
    src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=d.nwk)
    zdo = r["kind"] == "zdo"
    v16 = val.to_bytes(2, "little")
    if zdo:
        cl, ep, prof = 0x8005, 0, 0
        if kind == "other_zdo":
            # the reply to something else, e.g. asked for before the numbers started over
            cl, data, want = [(0x8002, b"\0" + v16 + bytes(13)), (0x8001, b"\0" + bytes(8) + v16),
                              (0x8004, b"\x81" + v16 + b"\0"), (0x8034, b"\0"), (0x8038, b"")][val % 5] + (None,)
            data = bytes([tsn]) + data
        elif kind == "bad":
            data, want = bytes([tsn, 0]) + v16 + bytes([9]), "ParsingError"
        elif kind == "fail":
            data, want = bytes([tsn, 0x81]) + v16 + b"\0", [0x81, val, []]
        else:
            data, want = bytes([tsn, 0]) + v16 + bytes([1, 5]), [0, val, [5]]
    else:
        cl, ep, prof = (6 if r["kind"] == "on" else 0), r["ep"], 260
        if kind == "bad":
            data, want = bytes([0x18, tsn, 1, 0, 0, 0, 0x41, 9]) + v16, "ParsingError"
        elif kind == "fail" or r["kind"] == "on":
            # a default response; its command id carries the value, so it stays below 256
            st_ = 0x86 if kind == "fail" else 0
            data, want = bytes([0x18, tsn, 0x0B, val & 0xFF, st_]), ["default", val & 0xFF, st_]
        else:
            data, want = bytes([0x18, tsn, 1, 0, 0, 0, 0x21]) + v16, ["read", val]
    p = t.ZigbeePacket(src=src, src_ep=ep, dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                       dst_ep=ep, tsn=tsn, profile_id=prof, cluster_id=cl, data=t.SerializableBytes(data))
    return p, want


def outcome(x):
    if isinstance(x, BaseException):
        return type(x).__name__
    if x is None:
        return None
    if hasattr(x, "status_records"):
        return ["read", int(x.status_records[0].value.value)]
    if hasattr(x, "status"):
        return ["default", int(x.command_id), int(x.status)]
    try:
        return [int(x[0]), int(x[1]), [int(e) for e in x[2]]]
    except (TypeError, ValueError, IndexError, KeyError):
        return "something else: " + short(x)


def run(case):
    stats = {"replied": 0, "mismatch": 0, "late": 0, "timeout": 0, "concurrent": 0}

    async def main(loop):
        app, devs = build(case["conc"], case["seqs"], case["undescribed"])
        reqs = case["reqs"]
        info = [dict(r, sent=None, done=None, candidates=[], out=None) for r in reqs]
        by_task = {}
        uniq = iter(range(1, 60000))
        used = set()

        async def send(packet):
            i = by_task[asyncio.current_task()]
            r = info[i]
            check(r["sent"] is None, "request %d was sent twice", i)
            r["sent"] = loop.time()
            d = devs[r["dev"]]
            tsn = packet.data.serialize()[0 if packet.dst_ep == 0 else 1] if r["kind"] != "oneway" else packet.tsn
            check_eq(int(packet.tsn), tsn, "transaction number of the packet")
            r["tsn"] = tsn
            used.add((r["dev"], tsn))
            others = [o for j, o in enumerate(info) if j != i and o["dev"] == r["dev"] and o["sent"] is not None
                      and o["done"] is None and o["kind"] != "oneway"]
            stats["concurrent"] += bool(others)
            check(r["kind"] == "oneway" or tsn not in [o["tsn"] for o in others],
                  "transaction %d is used by two outstanding requests", tsn)
            for rep in r["replies"]:
                asyncio.ensure_future(deliver(i, rep))
            await asyncio.sleep(r["send"])
            r["ready"] = loop.time()
            if r["fail"] == "delivery":
                raise ex.DeliveryError("no route")
            if r["fail"] == "timeout":
                raise asyncio.TimeoutError

        last = {}

        async def deliver(i, rep):
            r = info[i]
            await asyncio.sleep(rep["dt"])
            d = devs[r["dev"]]
            kind = rep["kind"]
            tsn, rr, src = r["tsn"], dict(r), d
            if kind == "dup" and i in last:
                # the very same frame again
                app.packet_received(last[i])
                return
            if kind == "foreign":
                src = devs[(r["dev"] + 1 + rep["x"] % 2) % 3]
            elif kind == "other_tsn":
                tsn = (tsn + 1 + rep["x"] % 255) % 256
            if rr["kind"] == "oneway":
                rr["kind"] = "read"
            if kind == "other_zdo":
                rr["kind"] = "zdo"
            pk, want = answer(src, rr, tsn, kind, next(uniq))
            # whom may it answer?  An outstanding request of that device with that number;
            # a ZDO reply one for just that reply, any other reply one to an application endpoint
            hits = [o for o in info if devs[o["dev"]] is src and o.get("tsn") == tsn and o["sent"] is not None
                    and o["done"] is None and o["kind"] != "oneway"]
            others_of = kind == "other_zdo" or any((o["kind"] == "zdo") != (rr["kind"] == "zdo") for o in hits)
            stats["mismatch"] += bool(hits and others_of)
            check(len(hits) <= 1, "two outstanding requests share %d", tsn)
            for o in hits if not others_of else ():
                o["candidates"].append((loop.time(), want))
            if not hits:
                stats["late"] += 1
            if kind not in ("foreign", "other_tsn", "other_zdo"):
                last[i] = pk
            app.packet_received(pk)

        app.hooks["send_packet"] = send

        async def one(i):
            r = info[i]
            await asyncio.sleep(r["at"])
            by_task[asyncio.current_task()] = i
            try:
                return await start(devs[r["dev"]], r)
            finally:
                check(r["done"] is None, "request %d ended twice", i)
                r["done"] = loop.time()

        tasks = [asyncio.ensure_future(one(i)) for i in range(len(reqs))]
        cancelled = {}

        async def cancel(i, at):
            await asyncio.sleep(at)
            if not tasks[i].done():
                cancelled[i] = loop.time()
                tasks[i].cancel()
        cs = [asyncio.ensure_future(cancel(i % len(reqs), at)) for i, at in case["cancel"]]
        res = await asyncio.gather(*tasks, return_exceptions=True)
        await asyncio.gather(*cs)
        for i, (r, x) in enumerate(zip(info, res)):
            if isinstance(x, Violation):
                raise x
            got = outcome(x)
            if r["done"] is None:
                check(i in cancelled, "request %d did not start: %s", i, got)
                continue
            what = f"request {i} ({r['kind']}, sent {r['sent']}, candidates {r['candidates']})"
            ends = []       # (time, outcome) that may end it, the earliest of which has to
            if i in cancelled:
                ends.append((cancelled[i], "CancelledError"))
            if r["sent"] is None:
                # refused at once, because a chosen number is in use
                clash = [o for j, o in enumerate(info) if j != i and o["dev"] == r["dev"] and "raw" in (o["kind"], r["kind"])
                         and o["sent"] is not None and o["sent"] <= r["done"] <= o["done"] + 1e-3
                         and (r["kind"] != "raw" or o["tsn"] == r["seq"])]
                if clash and got == "ControllerException" and r["kind"] != "oneway":
                    continue
                check(i in cancelled, "%s was never sent: %s", what, got)
            else:
                sent_end = r["sent"] + r["send"]
                if r["fail"]:
                    ends.append((sent_end, {"delivery": "DeliveryError", "timeout": "TimeoutError"}[r["fail"]]))
                elif r["kind"] == "oneway":
                    ends.append((sent_end, None))
                else:
                    T = EXTENDED if r["dev"] == 1 or (case["undescribed"] and r["dev"] == 2) else r["timeout"]
                    ends.append((sent_end + T, "TimeoutError"))
                    if r["candidates"]:
                        at, want = r["candidates"][0]
                        ends.append((max(at, sent_end), want))
            first = min(e[0] for e in ends)
            allowed = [e[1] for e in ends if e[0] <= first + 1e-6]
            check(got in allowed, "%s: expected %s, got %s (%s)", what, allowed, short(got), short(x))
            check(abs(r["done"] - first) < 1e-3, "%s ended at %s, not at %s", what, r["done"], first)
            stats["replied"] += isinstance(got, list)
            stats["timeout"] += got == "TimeoutError"
        for d in devs:
            check(not d._pending, "pending requests left: %s", d._pending)
        # every transaction number used can be used again
        await asyncio.sleep(100)

        async def ok(packet):
            pass
        app.hooks["send_packet"] = ok
        for dev, tsn in sorted(used):
            d = devs[dev]
            r = {"kind": "read", "ep": 1}
            fut = asyncio.ensure_future(d.request(260, 0, 1, 1, tsn, bytes([0, tsn, 0, 0, 0])))
            await vloop.settle(5)
            pk, want = answer(d, r, tsn, "match", next(uniq))
            app.packet_received(pk)
            await vloop.settle(5)
            check(fut.done(), "a later request with number %d was not answered", tsn)
            check_eq(outcome(fut.result()), want, "later request")
        check(not loop.errors, "errors in callbacks: %s", loop.errors)

    vloop.run(main)
    return {"labels": sorted(k for k, v in stats.items() if v), "nontrivial": bool(stats["replied"])}


def cases():
    DT = st.sampled_from([0, 0, 0.1, 0.3, 0.7, 0.95, 1.3, 2, 3.1, 4.9, 5.3, 7, 27, 29])
    rep = st.fixed_dictionaries({
        "dt": DT, "kind": st.sampled_from(["match", "match", "match", "dup", "foreign", "other_tsn", "other_zdo", "bad", "fail"]),
        "x": st.integers(0, 254)})
    req = st.fixed_dictionaries({
        "at": st.sampled_from([0, 0, 0, 0.2, 0.6, 1.1, 5.15]), "dev": st.sampled_from([0, 0, 0, 1, 2]),
        "ep": st.integers(1, 2), "kind": st.sampled_from(["read", "read", "on", "zdo", "raw", "oneway"]),
        "seq": st.sampled_from([1, 2, 3, 255, 0, 200]), "timeout": st.sampled_from([5, 1, 2.5, 11]),
        "send": st.sampled_from([0, 0, 0.05, 0.5, 4, 6]), "fail": st.sampled_from([None] * 6 + ["delivery", "timeout"]),
        "replies": st.lists(rep, max_size=3)})
    return st.fixed_dictionaries({
        "conc": st.sampled_from([1, 1, 3, 8]), "seqs": st.lists(st.sampled_from([0, 0, 198, 254, 255]), min_size=3, max_size=3),
        "undescribed": st.booleans(), "reqs": st.lists(req, min_size=1, max_size=7),
        "cancel": st.lists(st.tuples(st.integers(0, 6), st.sampled_from([0, 0.05, 0.5, 0.8, 1.4, 3, 5])).map(list), max_size=2)})


CHECK = Check(
    id="C06",
    rule="schedules of up to 7 concurrent requests (ZCL, ZDO, raw with chosen transaction numbers, one-way) to three "
         "devices with replies that come early, late, twice, from others, for others, unparsable, failing or never, "
         "with delivery failures and cancellations, in virtual time; the reference says when and how each one ends. "
         "Non-trivial when at least one request got its reply.",
    assumptions=["when two endings fall on the same instant either is accepted",
                 "end devices and undescribed devices get 28 s, others the caller's timeout, counted from the end of sending"],
    suites=[Suite("schedules", run, strategy=cases, quick=8000, thorough=600_000)],
)
