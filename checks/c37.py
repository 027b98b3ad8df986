"""C37: background work runs exactly as configured."""
from __future__ import annotations

import asyncio

from vlib import core
from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop
from checks import c30

import zigpy.config as conf
import zigpy.types as t

from hypothesis import strategies as st

TRUE = [True, True, 1, "on", "Yes", " true ", "1", "ENABLE"]
FALSE = [False, False, 0, "off", "No", " false ", "0", "DISABLE"]


def truth(v):
    if isinstance(v, str):
        v = v.strip().lower()
        return True if v in ("1", "true", "yes", "on", "enable") else False if v in ("0", "false", "no", "off", "disable") else v
    return bool(v)


# ---- schedules -------------------------------------------------------------------------------
JOBS = ["watchdog", "backup", "topo", "ota"]


def boolean(draw):
    return draw(st.sampled_from(TRUE + TRUE + FALSE))


@st.composite
def op_st(draw):
    k = draw(st.sampled_from(["sleep"] * 6 + ["restart", "backup", "topo", "topo", "ota", "ota", "scan", "fault", "fault"]))
    if k == "sleep":
        return {"op": k, "s": draw(st.sampled_from([0, 0.5, 29, 31, 100, 1000, 5000, 20000]) | st.integers(1, 30000))}
    if k == "backup":
        return {"op": k, "p": draw(st.none() | st.sampled_from([60, 61.5, 3600, 20000]))}
    if k == "topo":
        return {"op": k, "p": draw(st.none() | st.sampled_from([1200, 1500.5, 3600, 20000]))}
    if k == "ota":
        return {"op": k, "p": draw(st.none() | st.tuples(st.sampled_from([0, 0.5, 60, 5000]), st.sampled_from([30, 60.5, 3600])).map(
            list))}
    if k == "fault":
        return {"op": k, "on": draw(st.sampled_from(["load_network_info", "send_packet"])),
                "kind": draw(st.sampled_from([k for k in c30.KINDS if k != "hang"])), "times": draw(st.integers(1, 3))}
    return {"op": k}


@st.composite
def schedule_st(draw):
    return {"on": {j: boolean(draw) for j in JOBS}, "scan": boolean(draw), "skip": boolean(draw), "enabled": draw(st.sampled_from(TRUE + [False])),
            "backup": draw(st.sampled_from([1, 5, 60, 1440, "0x10"])), "topo": draw(st.sampled_from([20, 21, 60, 240])),
            "ota": draw(st.tuples(st.sampled_from([0, 10, 1000.5, "300"]), st.sampled_from([60, 500.5, 14040, "900"])).map(list)),
            "slow": {k: draw(st.sampled_from([0, 0, 0.25, 3, 12])) for k in ("watchdog_feed", "load_network_info", "send_packet")},
            "devices": draw(st.integers(1, 2)),
            "ops": draw(st.lists(op_st(), min_size=2, max_size=10))}


def run_schedule(c):
    labels = []

    async def main(loop):
        w = c30.World(loop, True)
        seen = {j: [] for j in JOBS}
        asked = []
        scans = []                  # nwk of every table request
        faults = {}

        class App(fakes.Radio):
            def __init__(self, config):
                super().__init__(config)
                w.wire(self)
                inner = dict(self.hooks)

                async def slow(k):
                    if c["slow"][k]:
                        await asyncio.sleep(c["slow"][k])
                    if faults.get(k):
                        faults[k][1] -= 1
                        e = c30.KINDS[faults[k][0]]()
                        if not faults[k][1]:
                            del faults[k]
                        raise e

                async def feed():
                    seen["watchdog"].append(loop.time())
                    await slow("watchdog_feed")

                async def load(load_devices):
                    seen["backup"].append(loop.time())
                    await slow("load_network_info")
                    await inner["load_network_info"](load_devices)

                async def send(pkt):
                    cl = int(pkt.cluster_id)
                    if cl == 0x0019:
                        seen["ota"].append(loop.time())
                        check_eq(pkt.dst.addr_mode, t.AddrMode.Broadcast, "OTA announcement's address mode")
                    elif cl in (0x0031, 0x0032):
                        scans.append((loop.time(), int(pkt.dst.address)))
                    elif cl == 0x0038:
                        asked.append(loop.time())
                    await slow("send_packet")
                    if cl in (0x0031, 0x0032):
                        loop.call_later(0.02, lambda: self.packet_received(fakes.packet(
                            int(pkt.dst.address), 0x8000 | cl, pkt.data.serialize()[:1] + bytes(4), src_ep=0, dst_ep=0, profile=0)))
                    elif cl != 0x0019:
                        await inner["send_packet"](pkt)
                self.hooks.update(watchdog_feed=feed, load_network_info=load, send_packet=send)
        app = App(fakes.config(**{
            conf.CONF_WATCHDOG_ENABLED: c["on"]["watchdog"], conf.CONF_STARTUP_ENERGY_SCAN: c["scan"],
            conf.CONF_NWK_BACKUP_ENABLED: c["on"]["backup"], conf.CONF_NWK_BACKUP_PERIOD: c["backup"],
            conf.CONF_TOPO_SCAN_ENABLED: c["on"]["topo"], conf.CONF_TOPO_SCAN_PERIOD: c["topo"],
            conf.CONF_TOPO_SKIP_COORDINATOR: c["skip"],
            conf.CONF_OTA: {conf.CONF_OTA_ENABLED: c["enabled"], conf.CONF_OTA_BROADCAST_ENABLED: c["on"]["ota"],
                            conf.CONF_OTA_BROADCAST_INITIAL_DELAY: c["ota"][0], conf.CONF_OTA_BROADCAST_INTERVAL: c["ota"][1],
                            conf.CONF_OTA_PROVIDERS: []}}))
        for i in range(c["devices"]):
            fakes.add_device(app, i + 1, 0x1111 * (i + 1), eps={1: (0x104, 1, [0], [])})
        on = {j: truth(c["on"][j]) for j in JOBS}
        on["ota"] = on["ota"] and truth(c["enabled"])
        period = {"watchdog": 30, "backup": 60 * int(str(c["backup"]), 0), "topo": 60 * c["topo"], "ota": float(c["ota"][1])}
        first = {"watchdog": 0, "backup": 0, "topo": 60 * c["topo"], "ota": float(c["ota"][0])}
        running = {}                # job -> (earliest start, latest start, first delay, period)
        manual = []
        s = c["slow"]
        # how long one round can take (a failed request is repeated, an unanswered one times out)
        slack = {"watchdog": s["watchdog_feed"], "backup": s["load_network_info"] + 1, "ota": s["send_packet"],
                 "topo": 6 * (s["send_packet"] + 35) * (c["devices"] + 1)}
        EPS = 0.01

        async def start():
            t0 = loop.time()
            for x in seen.values():
                x.clear()
            n = len(asked)
            await app.startup(auto_form=False)
            t1 = loop.time()
            check_eq(len(asked) - n, 1 if truth(c["scan"]) else 0, "energy scans while starting")
            for j in JOBS:
                if on[j]:
                    running[j] = (t0, t1, first[j], period[j])
            # the settings are read once to start the network; this is not one of the periodic backups
            check(seen["backup"], "the network settings were not read")
            del seen["backup"][0]

        def job_scans():
            """starts of topology scans: requests after a pause longer than any inside a scan"""
            out, last = [], -10**9
            for at, nwk in scans:
                if at - last > 500:
                    out.append(at)
                last = at
            return out

        def settle(j, now):
            """what the job did in its current segment"""
            times = job_scans() if j == "topo" else list(seen[j])
            if j == "topo":
                times = [x for x in times if not any(m - 1 <= x <= m + 600 for m in manual)]
            if j not in running:
                check(not times, "%s at %s though it is not running", j, [round(x - 1000, 3) for x in times])
            else:
                lo, hi, delay, per = running[j]
                # a scan that was asked for by hand takes the place of, or delays, a scheduled one
                extra = (per + slack[j]) * len(manual) if j == "topo" else 0
                prev_lo, prev_hi, gap = lo, hi, delay
                for x in times:
                    check(prev_lo + gap - EPS <= x <= prev_hi + gap + slack[j] * (gap is per) + extra + EPS,
                          "%s at %s, expected between %s and %s; started at %s, all: %s", j, round(x - 1000, 3), round(prev_lo + gap - 1000, 3),
                          round(prev_hi + gap + slack[j] - 1000, 3), round(lo - 1000, 3), [round(y - 1000, 3) for y in times[:20]])
                    prev_lo = prev_hi = x
                    gap = per
                check(now <= prev_hi + gap + slack[j] + extra + EPS, "no %s at %s though expected at %s; started at %s, all: %s", j,
                      round(now - 1000, 3), round(prev_hi + gap - 1000, 3), round(lo - 1000, 3), [round(y - 1000, 3) for y in times[-20:]])
                if len(times) > 2:
                    labels.append(j)

        def forget(j):
            settle(j, loop.time())
            if j == "topo":
                scans.clear()
                manual.clear()
            else:
                seen[j].clear()
            running.pop(j, None)

        await start()
        for op in c["ops"]:
            k = op["op"]
            if k == "sleep":
                await asyncio.sleep(op["s"])
            elif k == "fault":
                faults[op["on"]] = [op["kind"], op["times"]]
            elif k == "restart":
                faults.clear()
                for j in JOBS:
                    settle(j, loop.time())
                await app.shutdown()
                for x in seen.values():
                    x.clear()
                await vloop.settle(20)
                scans.clear()
                manual.clear()
                running.clear()
                await asyncio.sleep(50000)
                for j in JOBS:
                    settle(j, loop.time())
                await start()
                labels.append("restarted")
            elif k == "scan":
                manual.append(loop.time())
                task = loop.create_task(app.topology.scan())
                await asyncio.wait([task])
                manual.append(loop.time())
            else:
                forget(k)
                now = loop.time()
                p = op["p"]
                if k == "backup":
                    app.backups.start_periodic_backups(p) if p else app.backups.stop_periodic_backups()
                    if p:
                        running[k] = (now, now, 0, p)
                elif k == "topo":
                    app.topology.start_periodic_scans(p) if p else app.topology.stop_periodic_scans()
                    if p:
                        running[k] = (now, now, p, p)
                else:
                    app.ota.start_periodic_broadcasts(*p) if p else app.ota.stop_periodic_broadcasts()
                    if p:
                        running[k] = (now, now, p[0], p[1])
                labels.append("changed")
        for j in JOBS:
            settle(j, loop.time())
        if truth(c["skip"]):
            check(not any(nwk == 0 for _, nwk in scans), "the coordinator was scanned")
        check_eq([x for x in w.events], [], "lost connections")
        await app.shutdown()
        check_eq(loop.errors, [], "errors in background")
    vloop.run(main, max_time=10**9, max_steps=3_000_000)
    return {"labels": sorted(set(labels)), "nontrivial": any(x in labels for x in JOBS)}


# ---- endpoints -------------------------------------------------------------------------------
@st.composite
def endpoints_st(draw):
    return {"extra": draw(st.lists(st.fixed_dictionaries({
        "endpoint": st.integers(1, 254), "profile": st.integers(0, 0xFFFF), "device_type": st.integers(0, 0xFFFF),
        "device_version": st.integers(0, 15), "input_clusters": st.lists(st.integers(0, 0xFFFF), max_size=5),
        "output_clusters": st.lists(st.integers(0, 0xFFFF), max_size=5)}), max_size=4)),
        "ready": draw(st.booleans()), "fail": draw(st.none() | st.integers(0, 5)), "again": draw(st.booleans())}


def run_endpoints(c):
    import zigpy.zdo.types as zdo_t
    got = []

    async def main(loop):
        extra = [zdo_t.SimpleDescriptor(**e) for e in c["extra"]] if c["ready"] else c["extra"]
        app = fakes.make_app(**{conf.CONF_ADDITIONAL_ENDPOINTS: extra})
        boom = core.injected(RuntimeError, "the radio has no room")

        def add(desc):
            if len(got) == c["fail"]:
                raise boom
            got.append(desc)
        app.hooks["add_endpoint"] = add
        n = 2 + len(c["extra"])
        for i in range(2 if c["again"] else 1):
            got.clear()
            try:
                await app.register_endpoints()
            except RuntimeError as e:
                check(e is boom and c["fail"] is not None and c["fail"] < n, "registering raised %r", e)
                check_eq(len(got), c["fail"], "endpoints registered before the failure")
            else:
                check(c["fail"] is None or c["fail"] >= n, "a failure to register was hidden")
                check_eq(len(got), n, "endpoints registered")
            if got:
                e = got[0]
                check_eq((int(e.endpoint), int(e.profile)), (1, 0x0104), "the first endpoint")
                check({0, 6, 0x0A, 0x19, 0x501} <= set(e.input_clusters), "input clusters %s", e.input_clusters)
                check({1, 0x20, 0x500, 0x502} <= set(e.output_clusters), "output clusters %s", e.output_clusters)
                check(0x19 not in e.output_clusters, "OTA client")
            if len(got) > 1:
                check_eq((int(got[1].endpoint), int(got[1].profile)), (2, 0xC05E), "the second endpoint")
            for e, x in zip(got[2:], c["extra"]):
                check_eq({k: fakes.canon(getattr(e, k)) for k in x}, x, "an additional endpoint")
                check_eq(e.serialize(), zdo_t.SimpleDescriptor(**x).serialize(), "an additional endpoint")
    vloop.run(main)
    return {"nontrivial": bool(c["extra"])}


CHECK = Check("C37", rule="schedule: some job ran at least three rounds; endpoints: some are configured",
              assumptions=["a round may start late by as long as the one before it took"],
              suites=[
    Suite("schedule", run_schedule, strategy=schedule_st, quick=1500, thorough=30000),
    Suite("endpoints", run_endpoints, strategy=endpoints_st, quick=300, thorough=5000)])
