"""C30: starting and stopping leave a clean state whichever step fails."""
from __future__ import annotations

import asyncio
import copy
import errno

from vlib import core
from vlib.core import Check, Suite, check, check_eq
from vlib import db, fakes, vloop

import zigpy.config as conf
import zigpy.exceptions as ze
import zigpy.state as zs
import zigpy.types as t

from hypothesis import strategies as st

OPS = ["connect", "watchdog_feed", "load_network_info", "start_network", "write_network_info", "permit_ncp", "send_packet",
       "disconnect"]
KINDS = {
    "runtime": lambda: core.injected(RuntimeError, "injected"),
    "oserror": lambda: core.injected(OSError, errno.EIO, "injected"),
    "unreachable": lambda: core.injected(OSError, errno.ENETUNREACH, "injected"),
    "refused": lambda: core.injected(ConnectionRefusedError, "injected"),
    "reset": lambda: core.injected(ConnectionResetError, "injected"),
    "delivery": lambda: ze.DeliveryError("injected", 0xE9),
    "timeout": lambda: core.injected(asyncio.TimeoutError, "injected"),
    "formation": lambda: ze.FormationFailure("injected"),
    "value": lambda: core.injected(ValueError, "injected"),
    "hang": None,           # never finishes; the caller gives up
}
TRANSIENT = ("unreachable", "refused", "reset")


def info(n=0):
    return (zs.NetworkInfo(extended_pan_id=t.ExtendedPanId([1 + n] * 8), pan_id=t.PanId(0x1234), nwk_update_id=0,
                           nwk_manager_id=t.NWK(0), channel=t.uint8_t(15), channel_mask=t.Channels.from_channel_list([15]),
                           security_level=5, network_key=zs.Key(key=t.KeyData([3] * 16)),
                           tc_link_key=zs.Key(key=t.KeyData(b"ZigBeeAlliance09"), partner_ieee=fakes.NCP_IEEE)),
            zs.NodeInfo(nwk=t.NWK(0), ieee=fakes.NCP_IEEE))


class World:
    """The radio hardware, which outlives application objects."""

    def __init__(self, loop, formed):
        self.loop = loop
        self.stored = info() if formed else None
        self.faults = {}            # op -> {nth: kind}
        self.counts = {}
        self.log = []               # (time, op)
        self.raised = []
        self.connected = 0
        self.events = []

    def arm(self, faults):
        self.faults = faults
        self.counts = {}
        self.raised = []

    async def act(self, op):
        self.log.append((round(self.loop.time() - 1000, 3), op))
        n = self.counts[op] = self.counts.get(op, 0) + 1
        kind = self.faults.get(op, {}).get(n)
        if kind is None:
            return
        self.raised.append((op, kind, n))
        if kind == "hang":
            await self.loop.create_future()
        e = KINDS[kind]()
        self.raised[-1] = (op, kind, n, e)
        raise e

    def wire(self, app):
        self.app = app

        async def connect():
            self.connected += 1
            await self.act("connect")

        async def disconnect():
            self.connected = 0
            await self.act("disconnect")

        async def load(load_devices):
            await self.act("load_network_info")
            if self.stored is None:
                raise ze.NetworkNotFormed
            app.state.network_info, app.state.node_info = copy.deepcopy(self.stored)

        async def start():
            await self.act("start_network")
            if self.stored is None:
                raise ze.NetworkNotFormed
            if fakes.NCP_IEEE not in app.devices:
                dev = fakes.add_coordinator(app)
                app.device_initialized(dev)

        async def write(ni, node):
            await self.act("write_network_info")
            ni, node = copy.deepcopy(ni), copy.deepcopy(node)
            if node.ieee == t.EUI64.UNKNOWN:
                node.ieee = fakes.NCP_IEEE
            if ni.tc_link_key.partner_ieee == t.EUI64.UNKNOWN:
                ni.tc_link_key.partner_ieee = fakes.NCP_IEEE
            self.stored = (ni, node)

        async def permit(time_s):
            await self.act("permit_ncp")

        async def feed():
            await self.act("watchdog_feed")

        async def send(pkt):
            self.log.append((round(self.loop.time() - 1000, 3), f"cluster {int(pkt.cluster_id):04x} {pkt.dst.addr_mode.name}"))
            await self.act("send_packet")
            if int(pkt.cluster_id) == 0x0038 and pkt.dst.addr_mode == t.AddrMode.NWK:
                data = pkt.data.serialize()
                self.loop.call_later(0.02, lambda: app.packet_received(fakes.packet(
                    0, 0x8038, data[:1] + b"\0" + data[1:5] + bytes(4) + bytes([16]) + bytes(range(16)), src_ep=0, dst_ep=0,
                    profile=0)))
        app.hooks.update(connect=connect, disconnect=disconnect, load_network_info=load, start_network=start,
                         write_network_info=write, permit_ncp=permit, watchdog_feed=feed, send_packet=send)
        w = self

        class L:
            def connection_lost(self, exc):
                w.events.append(exc)
        self.listener = L()
        app.add_listener(self.listener)


def fault_st():
    return st.tuples(st.sampled_from(OPS[:-1]), st.sampled_from([1, 1, 1, 1, 2, 3]), st.sampled_from(list(KINDS))).map(list)


@st.composite
def cycle_st(draw):
    c = {"via": draw(st.sampled_from(["new", "startup", "startup"])), "auto_form": draw(st.booleans()),
         "fault": draw(st.none() | fault_st() | fault_st()),
         "disconnect": draw(st.sampled_from([None, None, "runtime", "oserror", "timeout"])),
         "run": draw(st.sampled_from([0, 1, 29, 31, 95, 1000, 20000, 100000])),
         "feed_fail": draw(st.none() | st.tuples(st.integers(2, 5), st.sampled_from(["runtime", "timeout", "delivery", "reset"])).map(
             list)),
         "db": draw(st.none() | st.none() | st.sampled_from(["PRAGMA wal_checkpoint", "close", "UPDATE", "INSERT", "commit"])),
         "lost": draw(st.sampled_from([None, None, 0.5, 40]))}
    return c


@st.composite
def case_st(draw):
    return {"db": draw(st.booleans()), "formed": draw(st.booleans()),
            "cfg": {k: draw(st.booleans()) for k in ("watchdog", "scan", "backup", "topo", "ota")},
            "cycles": draw(st.lists(cycle_st(), min_size=1, max_size=3))}


def app_config(case, path):
    c = case["cfg"]
    return fakes.config(**{
        conf.CONF_DATABASE: str(path) if case["db"] else None,
        conf.CONF_WATCHDOG_ENABLED: c["watchdog"], conf.CONF_STARTUP_ENERGY_SCAN: c["scan"],
        conf.CONF_NWK_BACKUP_ENABLED: c["backup"], conf.CONF_TOPO_SCAN_ENABLED: c["topo"],
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: c["ota"], conf.CONF_OTA_BROADCAST_ENABLED: c["ota"],
                        conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS: ["ikea"], conf.CONF_OTA_PROVIDERS: []}})


def others(loop, app):
    """Tasks that are still running, except the database writer of an open database."""
    me = asyncio.current_task()
    worker = app._dblistener._worker_task if app is not None and app._dblistener is not None else None
    return [tk.get_coro().__qualname__ for tk in asyncio.all_tasks(loop) if tk not in (me, worker) and not tk.done()]


def run(case):
    labels = []
    with db.session() as (ctl, d):
        path = d / "z.db"
        path.write_bytes(db.template())

        async def main(loop):
            w = World(loop, case["formed"])
            apps = []

            class App(fakes.Radio):
                _watchdog_period = 30

                def __init__(self, config):
                    super().__init__(config)
                    w.wire(self)
                    apps.append(self)
            last = {"via": "startup", "auto_form": True, "fault": None, "disconnect": None, "run": 31, "feed_fail": None,
                    "db": None, "lost": None}
            keep = None         # an application whose start failed but which may be started again
            for cyc in case["cycles"] + [last, {**last, "via": "new"}]:
                keep = await cycle(loop, w, ctl, case, cyc, App, apps, keep, path, labels)
            if keep is not None:
                await keep.shutdown()
            check_eq(ctl.open, 0, "open databases at the end")

        vloop.run(main, max_time=10**9, max_steps=2_000_000)
    return {"labels": labels}


async def cycle(loop, w, ctl, case, cyc, App, apps, keep, path, labels):
    cfg = app_config(case, path)
    faults = {}
    if cyc["fault"]:
        op, nth, kind = cyc["fault"]
        faults.setdefault(op, {})[nth] = kind
    starting_faults = {op: dict(v) for op, v in faults.items()}
    if cyc["disconnect"]:
        starting_faults.setdefault("disconnect", {})[1] = cyc["disconnect"]
    formed = w.stored is not None
    # ------------------------------------------------ start
    if cyc["via"] == "new" and keep is not None:
        await keep.shutdown()
        keep = None
    if cyc["via"] == "new":
        w.arm(starting_faults)
        open_before = ctl.open
        start = App.new(cfg, auto_form=cyc["auto_form"])
    else:
        if keep is None:
            keep = await App.new(cfg, start_radio=False)
        w.arm(starting_faults)
        open_before = ctl.open
        start = keep.startup(auto_form=cyc["auto_form"])
    mark = len(w.log)
    w.events.clear()
    task = loop.create_task(start)
    done, _ = await asyncio.wait([task], timeout=300)
    gave_up = not done
    if gave_up:
        check(any(k[1] == "hang" for k in w.raised), "starting did not finish though no radio operation hangs")
        task.cancel()
        await asyncio.wait([task], timeout=300)
        check(task.done(), "starting could not be cancelled")
    app = apps[-1] if cyc["via"] == "new" else keep
    calls = [op for _, op in w.log[mark:]]
    if not calls and task.done() and not task.cancelled() and task.exception():
        raise task.exception()
    check_eq(calls[:1], ["connect"], "first radio call")
    exc = None
    cancelled = task.cancelled()
    if not cancelled:
        exc = task.exception()
    hit = [r for r in w.raised if r[0] != "disconnect"]
    # faults that need not be fatal
    tolerated = ("delivery", "timeout")
    background = hit and not gave_up and exc is None and not cancelled and hit[0][2] > 1 \
        and hit[0][0] in ("load_network_info", "send_packet")      # a periodic job, already started
    if background:
        ok = True
    elif hit and hit[0][1] == "hang":
        check(gave_up and cancelled, "starting ended with %r though an operation hangs", exc)
        labels.append("cancelled")
        ok = False
    elif hit:
        op, kind, nth, e = hit[0]
        ok = exc is None
        if ok:
            check(op == "send_packet" and kind in tolerated, "starting succeeded though %s raised %r", op, e)
        else:
            if kind in TRANSIENT:
                check(isinstance(exc, ze.TransientConnectionError) and exc.__cause__ is e,
                      "%s raised %r but starting raised %r caused by %r", op, e, exc, exc.__cause__)
            else:
                check(exc is e, "%s raised %r but starting raised %r", op, e, exc)
            labels.append("failed " + op)
    elif not formed and not cyc["auto_form"]:
        check(isinstance(exc, ze.NetworkNotFormed), "starting without a network gave %r", exc)
        labels.append("not formed")
        ok = False
    else:
        if exc is not None:
            raise exc
        ok = True
    if not ok:
        check(calls[-1] == "disconnect", "the radio was left connected: %s", calls)
        check_eq(w.connected, 0, "radio connections left")
        await vloop.settle(50)
        mark2 = len(w.log)
        await asyncio.sleep(300000)
        check_eq(w.log[mark2:], [], "radio activity after starting failed")
        check_eq(others(loop, app), [], "tasks left after starting failed")
        check_eq(w.events, [], "lost connections reported")
        if cyc["via"] == "new":
            check_eq(ctl.open, open_before, "databases left open")
            check(app._dblistener is None or app._dblistener._worker_task.done(), "the database writer still runs")
            return None
        check_eq(ctl.open, open_before, "open databases")
        return app
    # ------------------------------------------------ run
    labels.append("started")
    check("disconnect" not in calls, "disconnected while starting: %s", calls)
    t0 = loop.time() - 1000
    feeds = {}
    if cyc["feed_fail"] and case["cfg"]["watchdog"]:
        n, kind = cyc["feed_fail"]
        feeds = {"watchdog_feed": {n - 1: kind}}
    w.arm(feeds)
    mark = len(w.log)
    reports = []
    if cyc["lost"] is not None and cyc["lost"] < cyc["run"]:
        e = core.injected(ConnectionResetError, "cable")
        loop.call_later(cyc["lost"], app.connection_lost, e)
        reports.append(e)
    await asyncio.sleep(cyc["run"])
    got = [(tm, op) for tm, op in w.log[mark:] if op == "watchdog_feed"]
    if not case["cfg"]["watchdog"]:
        check_eq(got, [], "health checks though disabled")
    else:
        # one every thirty seconds until one fails
        limit = feeds.get("watchdog_feed")
        limit = list(limit)[0] if limit else None
        due = int((cyc["run"] + 1e-6) // 30) + 1
        lo = int(max(0, cyc["run"] - 30) // 30)
        if limit is None:
            check(lo <= len(got) <= due, "%d health checks in %s s", len(got), cyc["run"])
        else:
            check(min(lo, limit) <= len(got) <= min(due, limit), "%d health checks in %s s (the %d. fails)", len(got),
                  cyc["run"], limit)
    failed = [r[3] for r in w.raised if r[0] == "watchdog_feed"]
    check_eq(sorted(map(repr, w.events)), sorted(map(repr, failed + reports)), "lost connections reported")
    for x in failed + reports:
        check(sum(y is x for y in w.events) == 1, "%r was reported %d times", x, sum(y is x for y in w.events))
    if failed:
        labels.append("watchdog failed")
    check_eq([op for _, op in w.log[mark:] if op in ("connect", "disconnect", "start_network", "write_network_info")], [],
             "radio calls while running")
    if cyc["run"] >= 100000:
        # the jobs that were asked for are running, and no other
        ops = {op for _, op in w.log[mark:]}
        for what, op in (("backup", "load_network_info"), ("topo", "cluster 0031 NWK"), ("ota", "cluster 0019 Broadcast")):
            check_eq(op in ops, case["cfg"][what], f"whether the periodic {what} job ran within {cyc['run']} s")
    # ------------------------------------------------ stop
    w.arm({"disconnect": {1: cyc["disconnect"]}} if cyc["disconnect"] else {})
    broken = [cyc["db"] if case["db"] else None]

    def hook(i, kind, sql):
        if broken[0] and (kind == broken[0] or sql.strip().startswith(broken[0])):
            broken[0] = None
            labels.append("database step failed")
            raise core.injected(__import__("sqlite3").OperationalError, "disk I/O error")
    ctl.hook = hook
    if broken[0]:
        app.listener_event("device_joined", app.devices[fakes.NCP_IEEE])
    await asyncio.wait_for(app.shutdown(), 300)
    ctl.hook = None
    check_eq(ctl.open, 0, "open databases after the shutdown")
    check_eq(w.connected, 0, "radio connections left")
    check_eq([op for _, op in w.log if not op.startswith("cluster")][-1], "disconnect", "last radio call")
    await vloop.settle(50)
    mark2 = len(w.log)
    nev = len(w.events)
    await asyncio.sleep(300000)
    check_eq(w.log[mark2:], [], "radio activity after the shutdown")
    check_eq(w.events[nev:], [], "lost connections reported after the shutdown")
    check_eq(others(loop, None), [], "tasks left after the shutdown")
    labels.append("stopped")
    if not case["db"] and cyc["via"] == "startup":
        return app
    return None


# ---------------------------------------------------------------- databases that cannot be loaded


@st.composite
def load_cases(draw):
    return {"at": draw(st.integers(0, 90)), "via": draw(st.sampled_from(["new", "new", "offline"])), "kind": draw(st.sampled_from(
        ["sqlite", "sqlite", "runtime", "closefail"]))}


def run_load(case):
    """Any single failing database operation while opening: the error arrives and nothing is left open."""
    import sqlite3
    labels = []
    with db.session() as (ctl, d):
        path = d / "z.db"
        path.write_bytes(db.template())

        async def main(loop):
            w = World(loop, True)
            made = []

            class App(fakes.Radio):
                def __init__(self, config):
                    super().__init__(config)
                    w.wire(self)
                    made.append(self)
            raised = []

            def hook(i, kind, sql):
                if i == case["at"] or (raised and case["kind"] == "closefail" and kind != "close" and len(raised) < 2):
                    e = core.injected(RuntimeError, "injected") if case["kind"] == "runtime" else \
                        core.injected(sqlite3.OperationalError, "injected")
                    raised.append(e)
                    raise e
            ctl.hook = hook
            cfg = app_config({"db": True, "cfg": dict.fromkeys(("watchdog", "scan", "backup", "topo", "ota"), False)}, path)
            try:
                app = await App.new(cfg, start_radio=case["via"] == "new")
            except Exception as e:  # noqa: BLE001
                ctl.hook = None
                x, chain = e, []
                while x is not None and x not in chain:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                check(any(x is r for x in chain for r in raised), "opening raised %r", e)
                check_eq(ctl.open, 0, "databases left open")
                await asyncio.sleep(1000)
                check_eq(others(loop, None), [], "tasks left")
                check_eq([op for _, op in w.log if op == "connect"], [], "radio calls")
                app = await App.new(cfg, start_radio=False)
                labels.append("failed")
            else:
                labels.append("opened" if raised else "not reached")
            ctl.hook = None
            await app.shutdown()
            check_eq(ctl.open, 0, "open databases")
            check_eq(others(loop, None), [], "tasks left at the end")

        vloop.run(main)
    return {"labels": labels, "nontrivial": "not reached" not in labels}


# ---------------------------------------------------------------- probing


@st.composite
def probe_cases(draw):
    path = draw(st.sampled_from(["/dev/ttyA", "socket://x:1"]))
    over = st.fixed_dictionaries({}, optional={"baudrate": st.sampled_from([38400, 57600, 115200]),
                                               "flow_control": st.sampled_from(["hardware", "software", None])})
    return {"device": {"path": path, **draw(over)}, "overrides": draw(st.lists(over, max_size=4)),
            "works": sorted(draw(st.sets(st.integers(0, 5), max_size=3))),
            "error": draw(st.sampled_from(["runtime", "timeout", "reset", "value"]))}


def run_probe(case):
    tried = []

    async def main(loop):
        live = {"n": 0}

        class App(fakes.Radio):
            _probe_configs = [dict(o) for o in case["overrides"]]

            async def connect(self):
                tried.append(dict(self.config[conf.CONF_DEVICE]))
                live["n"] += 1
                if len(tried) - 1 not in case["works"]:
                    raise KINDS[case["error"]]()

            async def disconnect(self):
                live["n"] -= 1

        base = {"baudrate": 115200, "flow_control": None}
        want = []
        for o in [{}] + case["overrides"]:
            c = {**base, **case["device"], **o}
            if c not in want:
                want.append(c)
        r = await App.probe(dict(case["device"]))
        hits = [i for i in case["works"] if i < len(want)]
        check_eq(live["n"], 0, "radios left connected")
        if hits:
            check_eq(tried, want[:hits[0] + 1], "configurations tried")
            check_eq(r, want[hits[0]], "result of probing")
        else:
            check_eq(tried, want, "configurations tried")
            check_eq(r, False, "result of probing")
        await asyncio.sleep(1000)
        check_eq(others(loop, None), [], "tasks left")

    vloop.run(main)
    return {"labels": [f"tried {len(tried)}"], "nontrivial": len(tried) > 1}


CHECK = Check(
    "C30",
    rule="a history of starts and stops (every case); a database operation that was reached; more than one configuration tried",
    assumptions=["disconnecting and database operations do not hang", "an undeliverable startup broadcast or unanswered scan may "
                 "be tolerated or fail the start"],
    suites=[
        Suite("cycles", run, strategy=case_st, quick=1500, thorough=40000, case_timeout=60),
        Suite("load", run_load, strategy=load_cases, quick=500, thorough=4000),
        Suite("probe", run_probe, strategy=probe_cases, quick=800, thorough=20000),
    ])
