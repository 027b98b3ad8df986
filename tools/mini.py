"""A small radio for demonstrations: the real application around a recording stand-in."""
import asyncio

import zigpy.application
import zigpy.config as conf
import zigpy.endpoint
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t
from zigpy.zcl import foundation

NCP = t.EUI64.convert("aa:11:22:bb:33:44:be:ef")


class App(zigpy.application.ControllerApplication):
    def __init__(self, config=None, **more):
        super().__init__({
            conf.CONF_DATABASE: None, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
            conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}, conf.CONF_STARTUP_ENERGY_SCAN: False,
            conf.CONF_TOPO_SCAN_ENABLED: False, conf.CONF_NWK_BACKUP_ENABLED: False,
            conf.CONF_WATCHDOG_ENABLED: False, **(config or {}), **more})
        self.sent, self.log, self.on_send = [], [], None
        self.state.node_info = zigpy.state.NodeInfo(
            nwk=t.NWK(0), ieee=NCP, logical_type=zdo_t.LogicalType.Coordinator)

    async def send_packet(self, packet):
        self.sent.append(packet)
        if self.on_send is not None:
            r = self.on_send(packet)
            if asyncio.iscoroutine(r):
                await r

    async def _note(self, name, *args):
        self.log.append((name, args))

    async def connect(self): await self._note("connect")
    async def disconnect(self): await self._note("disconnect")
    async def start_network(self): await self._note("start_network")
    async def force_remove(self, dev): await self._note("force_remove", dev)
    async def add_endpoint(self, descriptor): await self._note("add_endpoint", descriptor)
    async def permit_ncp(self, time_s=60): await self._note("permit_ncp", time_s)
    async def permit_with_link_key(self, node, link_key, time_s=60): await self._note("permit_with_link_key", node, link_key, time_s)
    async def reset_network_info(self): await self._note("reset_network_info")
    async def write_network_info(self, *, network_info, node_info): await self._note("write_network_info", network_info, node_info)
    async def load_network_info(self, *, load_devices=False): await self._note("load_network_info", load_devices)
    async def _watchdog_feed(self): await self._note("watchdog_feed")


def eui(n):
    return t.EUI64([t.uint8_t(x) for x in n.to_bytes(4, "little") + b"\x11\x22\x33\x44"])


def desc(kind=zdo_t.LogicalType.Router, manufacturer=4174):
    return zdo_t.NodeDescriptor(kind, 0, 0, 0, 0, zdo_t.NodeDescriptor.FrequencyBand.Freq2400MHz,
                                142, manufacturer, 82, 82, 0, 82, 0)


def device(app, n, nwk, ins=(0, 6), outs=(), eps=(1,), kind=zdo_t.LogicalType.Router, model="model", manufacturer="manufacturer"):
    d = app.add_device(nwk=t.NWK(nwk), ieee=eui(n))
    d.node_desc, d.model, d.manufacturer = desc(kind), model, manufacturer
    for i in eps:
        ep = d.add_endpoint(i)
        ep.status, ep.profile_id, ep.device_type = zigpy.endpoint.Status.ZDO_INIT, 260, 0x0100
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
    return d


def coordinator(app):
    d = app.add_device(nwk=t.NWK(0), ieee=NCP)
    d.node_desc = desc(zdo_t.LogicalType.Coordinator)
    ep = d.add_endpoint(1)
    ep.status, ep.profile_id, ep.device_type = zigpy.endpoint.Status.ZDO_INIT, 260, 0x0400
    return d


def packet(src, cluster, data, src_ep=1, dst_ep=1, profile=260, **kw):
    return t.ZigbeePacket(
        src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(src)), src_ep=src_ep,
        dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), dst_ep=dst_ep,
        profile_id=profile, cluster_id=cluster, data=t.SerializableBytes(bytes(data)), **kw)


class Events:
    """Everything a listener is told."""

    def __init__(self):
        self.log = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a: self.log.append((name, *a))

    def names(self):
        return [x[0] for x in self.log]


def run(main, timeout=60):
    asyncio.run(asyncio.wait_for(main(), timeout))
