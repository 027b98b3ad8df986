"""A scriptable radio around the real ControllerApplication, and small builders."""
from __future__ import annotations

import asyncio
import dataclasses

from . import core  # noqa: F401  (sets up sys.path)

import zigpy.application
import zigpy.backups
import zigpy.config as conf
import zigpy.endpoint
import zigpy.profiles
import zigpy.state as app_state
import zigpy.types as t
import zigpy.zdo.types as zdo_t

NCP_IEEE = t.EUI64.convert("aa:11:22:bb:33:44:be:ef")


class Radio(zigpy.application.ControllerApplication):
    """Every abstract method records its call; `hooks[name]` replaces its behaviour."""

    def __init__(self, config):
        super().__init__(config)
        self.sent = []          # packets handed to the radio
        self.log = []           # (method, args)
        self.hooks = {}
        self.state.node_info = app_state.NodeInfo(
            nwk=t.NWK(0x0000), ieee=NCP_IEEE, logical_type=zdo_t.LogicalType.Coordinator)

    async def _call(self, name, *args):
        self.log.append((name, args))
        h = self.hooks.get(name)
        if h is not None:
            r = h(*args)
            if asyncio.iscoroutine(r):
                r = await r
            return r

    async def send_packet(self, packet):
        self.sent.append(packet)
        h = self.hooks.get("send_packet")
        if h is not None:
            r = h(packet)
            if asyncio.iscoroutine(r):
                r = await r
            return r

    async def connect(self):
        await self._call("connect")

    async def disconnect(self):
        await self._call("disconnect")

    async def start_network(self):
        await self._call("start_network")

    async def force_remove(self, dev):
        await self._call("force_remove", dev)

    async def add_endpoint(self, descriptor):
        await self._call("add_endpoint", descriptor)

    async def permit_ncp(self, time_s=60):
        await self._call("permit_ncp", time_s)

    async def permit_with_link_key(self, node, link_key, time_s=60):
        await self._call("permit_with_link_key", node, link_key, time_s)

    async def reset_network_info(self):
        await self._call("reset_network_info")

    async def write_network_info(self, *, network_info, node_info):
        await self._call("write_network_info", network_info, node_info)

    async def load_network_info(self, *, load_devices=False):
        await self._call("load_network_info", load_devices)

    async def _watchdog_feed(self):
        await self._call("watchdog_feed")


def config(**updates):
    c = {
        conf.CONF_DATABASE: None,
        conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False},
    }
    c.update(updates)
    return c


def make_app(cls=Radio, **updates):
    return cls(config(**updates))


def eui(n):
    """A distinct hardware address per small integer."""
    return t.EUI64([t.uint8_t(x) for x in (n & 0xFFFFFFFF).to_bytes(4, "little") + b"\x11\x22\x33\x44"])


def node_desc(logical_type=zdo_t.LogicalType.Router, manufacturer_code=4174, rx_on=True):
    caps = zdo_t.NodeDescriptor.MACCapabilityFlags.AllocateAddress
    if rx_on:
        caps |= zdo_t.NodeDescriptor.MACCapabilityFlags.RxOnWhenIdle
    return zdo_t.NodeDescriptor(
        logical_type=logical_type, complex_descriptor_available=0, user_descriptor_available=0,
        reserved=0, aps_flags=0,
        frequency_band=zdo_t.NodeDescriptor.FrequencyBand.Freq2400MHz,
        mac_capability_flags=caps, manufacturer_code=manufacturer_code, maximum_buffer_size=82,
        maximum_incoming_transfer_size=82, server_mask=0, maximum_outgoing_transfer_size=82,
        descriptor_capability_field=zdo_t.NodeDescriptor.DescriptorCapability.NONE)


def add_device(app, n, nwk, *, eps=None, logical_type=zdo_t.LogicalType.Router, ieee=None,
               manufacturer=None, model=None):
    """An initialised device; eps: {ep_id: (profile, device_type, in ids, out ids)}."""
    dev = app.add_device(nwk=t.NWK(nwk), ieee=ieee if ieee is not None else eui(n))
    dev.node_desc = node_desc(logical_type)
    dev.manufacturer = manufacturer
    dev.model = model
    for i, (prof, dt, ins, outs) in (eps or {1: (260, 0x0100, [0, 6], [])}).items():
        ep = dev.add_endpoint(i)
        ep.status = zigpy.endpoint.Status.ZDO_INIT
        ep.profile_id = prof
        ep.device_type = dt
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
    return dev


def add_coordinator(app):
    dev = app.add_device(nwk=app.state.node_info.nwk, ieee=app.state.node_info.ieee)
    dev.node_desc = node_desc(zdo_t.LogicalType.Coordinator)
    ep = dev.add_endpoint(1)
    ep.status = zigpy.endpoint.Status.ZDO_INIT
    ep.profile_id = 260
    ep.device_type = zigpy.profiles.zha.DeviceType.IAS_CONTROL
    return dev


def packet(src, cluster, data, *, src_ep=1, dst_ep=1, profile=260, dst=0x0000, tsn=None,
           src_mode=t.AddrMode.NWK, **kw):
    return t.ZigbeePacket(
        src=t.AddrModeAddress(addr_mode=src_mode, address=src),
        src_ep=src_ep,
        dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(dst)),
        dst_ep=dst_ep, tsn=tsn, profile_id=profile, cluster_id=cluster,
        data=t.SerializableBytes(bytes(data)), **kw)


def canon(x):
    """A library value as plain data, for comparison that does not depend on __eq__."""
    import enum
    import zigpy.zcl.foundation as f
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, t.Struct):
        return {"_": type(x).__name__, **{n: canon(v) for n, v in x.as_dict().items()}}
    if isinstance(x, f.TypeValue):
        return ["TV", None if x.type is None else int(x.type), canon(x.value)]
    if isinstance(x, (f.AttributeReportingConfig,)):
        return {"_": "ARC", **{k: canon(v) for k, v in sorted(vars(x).items()) if v is not None}}
    if isinstance(x, enum.Enum) and not isinstance(x, int):
        return [type(x).__name__, x.name]
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return repr(float(x))
    if isinstance(x, str):
        return str(x) if not getattr(x, "invalid", False) else {"invalid": True}
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v) for v in x), key=repr)
    if dataclasses.is_dataclass(x):
        return {"_": type(x).__name__,
                **{fl.name: canon(getattr(x, fl.name)) for fl in dataclasses.fields(x)}}
    if hasattr(x, "serialize"):
        return {"_": type(x).__name__, "hex": x.serialize().hex()}
    if hasattr(x, "__dict__"):
        return {"_": type(x).__name__, **{k: canon(v) for k, v in sorted(vars(x).items())}}
    return repr(x)
