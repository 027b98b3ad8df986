"""C40: starting up restores, forms, refuses or starts the network, as configured and as the backups say."""
from __future__ import annotations

import asyncio
import copy

from vlib.core import Check, Suite, check, check_eq
from vlib import bk, core, db, fakes, vloop
from checks.c13 import BROKEN, IDENTITY, OTHER, complete, ident, spec

import zigpy.backups
import zigpy.config as conf
import zigpy.exceptions as ze
import zigpy.types as t

from hypothesis import strategies as st

INTERFERENCE = int(t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE)
#: ways to fail the announcement that the network is closed
FAILS = {"interference": lambda: ze.DeliveryError("injected", t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE),
         "delivery": lambda: ze.DeliveryError("injected"),
         "no ack": lambda: ze.DeliveryError("injected", t.MACStatus.MAC_NO_ACK),
         "timeout": lambda: core.injected(asyncio.TimeoutError, "injected")}
HW = "0102030405060708"


def plain(ni, node):
    return {**bk.canon_net(ni), **bk.canon_node(node)}


def same(d):
    """canonical form of a spec, without the time"""
    e = bk.expect(d)
    e.pop("time"), e.pop("format")
    return e


def idc(c):
    """what a device that joins depends on, from the canonical form"""
    return (c["nwk"], c["type"], c["ieee"], c["epid"], c["pan"], c["update"], c["manager"], c["channel"], c["sec"],
            c["tc"]["key"], c["nk"]["key"])


def whole(c):
    return (c["ieee"] != "ff" * 8 and c["epid"] != "ff" * 8 and c["pan"] not in (0, 0xFFFF)
            and 11 <= c["channel"] <= 26 and c["nk"]["key"] != "ff" * 16)


class World:
    """the radio hardware"""

    def __init__(self, loop, case):
        self.loop, self.case = loop, case
        self.stored = None
        self.log = []
        self.permit_fault = None
        self.connected = False
        self.energies = [0] * 16

    def put(self, d):
        b = bk.mk(d)
        self.stored = (b.network_info, b.node_info)

    def canon(self):
        return plain(*self.stored)

    def wire(self, app):
        async def connect():
            self.log.append("connect")
            self.connected = True

        async def disconnect():
            self.log.append("disconnect")
            self.connected = False

        async def load(load_devices):
            self.log.append("load")
            if self.stored is None:
                raise ze.NetworkNotFormed
            ni, node = copy.deepcopy(self.stored)
            app.state.network_info, app.state.node_info = ni, node

        async def start():
            self.log.append("start")
            if self.stored is None:
                raise ze.NetworkNotFormed
            ieee = app.state.node_info.ieee
            if ieee not in app.devices:
                dev = app.add_device(nwk=app.state.node_info.nwk, ieee=ieee)
                dev.node_desc = fakes.node_desc(logical_type=t.uint8_t(0))
                ep = dev.add_endpoint(1)
                ep.status = zigpy.endpoint.Status.ZDO_INIT
                dev.status = zigpy.device.Status.ENDPOINTS_INIT
                dev.manufacturer, dev.model = "Maker", "Stick"

        async def write(ni, node):
            self.log.append("write")
            ni, node = copy.deepcopy(ni), copy.deepcopy(node)
            self.written.append(plain(ni, node))
            if node.ieee == t.EUI64.UNKNOWN or self.case["fixed"]:
                node.ieee = bk.eui(HW)
            if ni.tc_link_key.partner_ieee == t.EUI64.UNKNOWN:
                ni.tc_link_key.partner_ieee = node.ieee
            self.stored = (ni, node)

        async def permit(time_s):
            self.log.append(("ncp", int(time_s)))

        async def send(pkt):
            d = pkt.data.serialize()
            if int(pkt.cluster_id) == 0x0036:
                self.log.append(("announce", d[1:].hex(), pkt.dst.addr_mode.name, int(pkt.dst.address)))
                if self.permit_fault:
                    self.error = FAILS[self.permit_fault]()
                    raise self.error
            elif int(pkt.cluster_id) == 0x0038 and pkt.dst.addr_mode == t.AddrMode.NWK:
                self.log.append("energy")
                if self.energies is not None:
                    self.loop.call_later(0.02, lambda: app.packet_received(fakes.packet(
                        int(app.state.node_info.nwk), 0x8038, d[:1] + b"\0" + d[1:5] + bytes(4) + bytes([16])
                        + bytes(self.energies), src_ep=0, dst_ep=0, profile=0)))
        app.hooks.update(connect=connect, disconnect=disconnect, load_network_info=load, start_network=start,
                         write_network_info=write, permit_ncp=permit, send_packet=send)


def run(case):
    labels = []
    with db.session() as (ctl, d):
        path = d / "z.db"
        if case["db"]:
            path.write_bytes(db.template())
        vloop.run(lambda loop: main(loop, case, path, labels), max_time=10**9)
    return {"labels": labels, "nontrivial": bool(set(labels) - {"started"})}


def config(case, path):
    nwk = {k: v for k, v in case["nwk"].items()}
    return fakes.config(**{
        conf.CONF_DATABASE: str(path) if case["db"] else None, conf.CONF_WATCHDOG_ENABLED: False,
        conf.CONF_STARTUP_ENERGY_SCAN: case["scan"], conf.CONF_NWK_BACKUP_ENABLED: case["backup"],
        conf.CONF_TOPO_SCAN_ENABLED: False, conf.CONF_NWK_VALIDATE_SETTINGS: case["validate"], conf.CONF_NWK: nwk})


async def main(loop, case, path, labels):
    w = World(loop, case)
    if case["radio"] is not None:
        w.put(spec(case["radio"]))

    class App(fakes.Radio):
        def __init__(self, config):
            super().__init__(config)
            w.wire(self)

    cfg = config(case, path)
    app = await App.new(copy.deepcopy(cfg), start_radio=False)
    last = None
    for i, s in enumerate(case["backups"]):
        s = spec(s)
        s["time"], s["tz"] = 10**14 + i * 10**9, [0, 60, -570][i % 3]
        app.backups.add_backup(bk.mk(s))
        if complete(s):
            last = same(s)
    await vloop.settle(20)

    for i, step in enumerate(case["starts"]):
        what = f"start {i}"
        ch = step["change"]
        if ch == "blank":
            w.stored = None
        elif ch is not None and w.stored is not None:
            c = w.canon()
            dd = {**c, "time": 0, "tz": 0, "nk": dict(c["nk"]), "tc": dict(c["tc"])}
            dd["nk"]["tx"] += ch["tx"]
            for k, v in ch["set"]:
                if k in ("tck", "nkk", "seq", "nkrx", "tctx", "tci"):
                    a, b = {"tck": ("tc", "key"), "nkk": ("nk", "key"), "seq": ("nk", "seq"), "nkrx": ("nk", "rx"),
                            "tctx": ("tc", "tx"), "tci": ("tc", "ieee")}[k]
                    dd[a][b] = v
                elif k != "time":
                    dd[k] = v
            w.put(dd)
        if case["db"]:
            await app.shutdown()
            app = await App.new(copy.deepcopy(cfg), start_radio=False)
        got = app.backups.most_recent_backup()
        check_eq(got and plain(got.network_info, got.node_info), last, f"most recent backup before {what}")
        w.log, w.written, w.error = [], [], None
        w.permit_fault, w.energies = step["permit"], step["energies"]
        before, count = (w.canon() if w.stored else None), len(app.backups.backups)
        task = loop.create_task(app.startup(auto_form=step["auto"]))
        await asyncio.wait([task], timeout=600)
        check(task.done(), "%s does not end", what)
        exc = task.exception()
        log = [x for x in w.log if x not in ("load", "energy")]
        base, kept = last, last
        # ------------------------------------------------ what must have happened
        fail = None
        if before is None and not step["auto"]:
            fail = ze.NetworkNotFormed
            check_eq(w.written, [], f"settings written by {what}")
            labels.append("not formed")
        elif before is None and last is not None:
            exp = copy.deepcopy(last)
            exp["nk"]["tx"] += 10000
            check_eq(w.written, [exp], f"settings restored by {what}")
            labels.append("restored")
        elif before is None:
            labels.append("formed")
            check(w.written, "nothing was formed")
            formed(case, w.written[-1], what)
        else:
            check_eq(w.written, [], f"settings written by {what}")
            check_eq(w.canon(), before, f"settings of the radio after {what}")
        if fail is None:
            now = w.canon()
            if before is None and whole(now):
                kept = now
            if case["validate"] and base is not None and idc(now) != idc(base):
                fail = ze.NetworkSettingsInconsistent
                labels.append("inconsistent")
                check(isinstance(exc, fail), "%s with a network that differs from the backup in %s: %r", what,
                      [k for k in now if now[k] != base[k]], exc)
                check_eq([plain(b.network_info, b.node_info) for b in (exc.old_state, exc.new_state)], [base, now],
                         f"settings named by {what}")
        if fail is None and step["permit"] not in (None, "interference"):
            fail = "permit"
            labels.append("not announced")
            check(exc is not None and exc is w.error, "%s ended with %r though the announcement failed with %r", what, exc, w.error)
        elif fail is not None:
            if exc is not None and not isinstance(exc, fail):
                raise exc
            check(isinstance(exc, fail), "%s ended with %r, expected %s", what, exc, fail)
        elif exc is not None:
            raise exc
        if fail in (ze.NetworkNotFormed, ze.NetworkSettingsInconsistent):
            if base is not None or before is not None or fail is ze.NetworkNotFormed:
                check_eq([x for x in log if x == "start"], [], f"networks started by {what}")
            check(not any(isinstance(x, tuple) for x in log), "%s sent %r", what, log)
        else:
            after = log[max([k for k, x in enumerate(log) if x == "write"] or [0]):]
            check_eq([x for x in after if x == "start"], ["start"], f"networks started by {what} ({log})")
            tail = log[log.index("start", len(log) - len(after)) + 1:]
            exp = [("announce", "0000", "Broadcast", 0xFFFC)] + [("ncp", 0)] * (fail is None) + ["disconnect"] * (fail is not None)
            check_eq(tail, exp, f"what {what} did after the network was up")
        if fail is not None:
            check_eq(log[-1], "disconnect", f"last operation of {what}")
            check(not w.connected, "%s left the radio connected", what)
            last = kept
        else:
            labels.append("started")
            check_eq(plain(app.state.network_info, app.state.node_info), w.canon(), f"state of the application after {what}")
            await asyncio.sleep(5)
            last = kept
            if case["backup"] and whole(w.canon()):
                last = w.canon()
        got = app.backups.most_recent_backup()
        check_eq(got and plain(got.network_info, got.node_info), last, f"most recent backup after {what}")
        if last is base:
            check_eq(len(app.backups.backups), count, f"number of backups after {what}")
        if fail is None:
            # a network in use is accepted by the next start
            w.log = []
            await app.shutdown(db=False)
            check(not w.connected, "the radio is connected after the shutdown")
    await app.shutdown()
    bad = [x for x in loop.errors if "exception" in x]
    check(not bad, "errors in background: %r", bad[:1])


def formed(case, c, what):
    n = case["nwk"]
    want = {"nwk": 0, "type": 0, "manager": 0, "sec": 5, "children": [], "nwks": {}, "keys": [],
            "update": n.get(conf.CONF_NWK_UPDATE_ID, 0)}
    check_eq({k: c[k] for k in want}, want, f"settings formed by {what}")
    check_eq(c["nk"]["tx"], 0, "frame counter of a new network")
    check_eq(c["nk"]["seq"], n.get(conf.CONF_NWK_KEY_SEQ, 0), "key sequence number")
    if conf.CONF_NWK_KEY in n:
        check_eq(c["nk"]["key"], bytes(n[conf.CONF_NWK_KEY]).hex(), "network key")
    if conf.CONF_NWK_PAN_ID in n:
        check_eq(c["pan"], n[conf.CONF_NWK_PAN_ID], "PAN ID")
    if conf.CONF_NWK_CHANNEL in n:
        check_eq(c["channel"], n[conf.CONF_NWK_CHANNEL], "channel")
    check(whole({**c, "ieee": HW}), "the network formed is incomplete: %r", c)


@st.composite
def cases(draw):
    every = {**IDENTITY, **OTHER}

    def changes(k=2, broken=True):
        out, names = [], list(every) + list(IDENTITY)
        for _ in range(draw(st.integers(0, k))):
            n = draw(st.sampled_from(names))
            v = draw(st.sampled_from(every[n]))
            if n != "time":
                out.append([n, v])
        if broken and draw(st.integers(0, 9)) == 0:
            n = draw(st.sampled_from(["pan", "nkk", "epid"]))
            out.append([n, draw(st.sampled_from(BROKEN[n][:1]))])
        return out

    def a_spec():
        return {"tx": draw(st.sampled_from([0, 5, 100, 9999, 10000, 20000, 123456])), "set": changes()}

    def start():
        ch = draw(st.sampled_from([None, None, "blank", "change", "change"]))
        if ch == "change":
            ch = {"tx": draw(st.sampled_from([0, 1, 500])), "set": changes(1, broken=False)}
        return {"change": ch, "auto": draw(st.integers(0, 3)) > 0,
                "permit": draw(st.sampled_from([None] * 7 + ["interference"] * 2 + ["delivery", "no ack", "timeout"])),
                "energies": draw(st.none() | st.lists(st.integers(0, 255), min_size=16, max_size=16))}
    nwk = {}
    if draw(st.booleans()):
        nwk[conf.CONF_NWK_CHANNEL] = draw(st.integers(11, 26))
    if draw(st.integers(0, 3)) == 0:
        nwk[conf.CONF_NWK_PAN_ID] = draw(st.integers(1, 0xFFFE))
    if draw(st.integers(0, 3)) == 0:
        nwk[conf.CONF_NWK_KEY] = list(bytes.fromhex(draw(bk.hexs(16))))
        nwk[conf.CONF_NWK_KEY_SEQ] = draw(st.integers(0, 255))
    if draw(st.integers(0, 3)) == 0:
        nwk[conf.CONF_NWK_UPDATE_ID] = draw(st.integers(0, 255))
    return {"db": draw(st.booleans()), "validate": draw(st.booleans()), "backup": draw(st.booleans()),
            "scan": draw(st.booleans()), "fixed": draw(st.integers(0, 4)) == 0, "nwk": nwk,
            "backups": [a_spec() for _ in range(draw(st.integers(0, 3)))],
            "radio": draw(st.none() | st.just(1)) and a_spec(),
            "starts": [start() for _ in range(draw(st.integers(1, 4)))]}


_ = ident

CHECK = Check(
    "C40",
    rule="a start on a radio without a network, with one that contradicts the last backup, or whose announcement fails",
    assumptions=["only complete backups are kept (see C13); the radio stores what it is given, some cannot change their address",
                 "what a new network consists of beyond its configured settings is C29's subject"],
    suites=[Suite("starts", run, strategy=cases, quick=2500, thorough=60000)])
