"""Simulated Zigbee devices answering the packets the application sends, byte by byte.

Independent of the library's codecs: payloads are built by hand from the specification.
"""
from __future__ import annotations

import asyncio
import struct

from . import fakes

import zigpy.exceptions as zex
import zigpy.types as t


def le16(x):
    return struct.pack("<H", x)


def le_list16(xs):
    return b"".join(le16(x) for x in xs)


# a node descriptor as bytes: router, 2.4 GHz, mac flags, manufacturer code
def nd_bytes(logical=1, manufacturer=4174, mac=0x8E, buf=82, mtu=82, server=0, out=82, desc=0, band=0b01000):
    return (bytes([logical & 7, (band << 3) & 0xFF, mac]) + le16(manufacturer) + bytes([buf]) + le16(mtu)
            + le16(server) + le16(out) + bytes([desc]))


class Sim:
    """desc = {"nd": hex, "eps": [[id, profile, dtype, ver, [in], [out]], ...],
               "attrs": {"ep/cluster": {attr id: [type id, value hex] or status int}}}"""

    def __init__(self, n, nwk, desc):
        self.ieee = fakes.eui(n)
        self.nwk = nwk
        self.desc = desc
        self.seen = []          # (profile, cluster, dst ep, payload)
        self.handlers = {}      # (profile, cluster) or (profile, cluster, cmd) -> function

    # -> list of (profile, cluster, src_ep, dst_ep, payload)
    def answer(self, p):
        data = p.data.serialize()
        self.seen.append((p.profile_id, p.cluster_id, p.dst_ep, data))
        if p.dst_ep == 0:
            r = self.zdo(p.cluster_id, data)
            return [] if r is None else [(0, p.cluster_id | 0x8000, 0, 0, data[:1] + r)]
        r = self.zcl(p.dst_ep, p.cluster_id, data)
        return [(p.profile_id, p.cluster_id, p.dst_ep, p.src_ep, x) for x in (r or [])]

    def ep(self, i):
        for e in self.desc["eps"]:
            if e[0] == i:
                return e

    def zdo(self, cluster, data):
        h = self.handlers.get((0, cluster))
        if h is not None:
            return h(data)
        if cluster & 0x8000:
            return None
        me = le16(self.nwk)
        if cluster == 0x0002:
            return b"\x00" + me + bytes.fromhex(self.desc["nd"])
        if cluster == 0x0005:
            ids = self.desc.get("active", [e[0] for e in self.desc["eps"]])
            return b"\x00" + me + bytes([len(ids), *ids])
        if cluster == 0x0004:
            e = self.ep(data[3])
            if e is None:
                return b"\x82" + me + b"\x00"   # INVALID_EP
            if e[1] is None:
                return b"\x83" + me + b"\x00"   # NOT_ACTIVE
            i, prof, dt, ver, ins, outs = e
            sd = (bytes([i]) + le16(prof) + le16(dt) + bytes([ver & 0x0F]) + bytes([len(ins)]) + le_list16(ins)
                  + bytes([len(outs)]) + le_list16(outs))
            return b"\x00" + me + bytes([len(sd)]) + sd
        if cluster in (0x0034, 0x0036, 0x0021, 0x0022):
            return b"\x00"
        return b"\x84"                           # NOT_SUPPORTED

    def zcl(self, ep, cluster, data):
        fc = data[0]
        manuf = b""
        i = 1
        if fc & 4:
            manuf = data[1:3]
            i = 3
        tsn, cmd = data[i], data[i + 1]
        body = data[i + 2:]
        if fc & 3 == 0 and cmd in (0x01, 0x04, 0x07, 0x09, 0x0B, 0x0D, 0x16):
            return []
        h = self.handlers.get((ep, cluster, cmd if fc & 3 else -cmd))
        back = 0x18 ^ (fc & 8)                    # the other direction, no default response
        if h is not None:
            return h(data, tsn, body, back, manuf)
        if fc & 3 == 0 and cmd == 0x00:
            out = b""
            for k in range(0, len(body), 2):
                a = struct.unpack("<H", body[k:k + 2])[0]
                v = self.attr(ep, cluster, a)
                if isinstance(v, int):
                    out += le16(a) + bytes([v])
                else:
                    out += le16(a) + b"\x00" + bytes([v[0]]) + bytes.fromhex(v[1])
            return [bytes([back | (fc & 4)]) + manuf + bytes([tsn, 0x01]) + out]
        # default response: general, unsupported command
        return [bytes([back | (fc & 4)]) + manuf + bytes([tsn, 0x0B, cmd, 0x81 if fc & 3 else 0x82])]

    def attr(self, ep, cluster, a):
        v = self.desc.get("attrs", {}).get(f"{ep}/{cluster}", {}).get(str(a))
        return 0x86 if v is None else v


def cstr(s):
    b = s.encode()
    return [0x42, (bytes([len(b)]) + b).hex()]


class Net:
    """Connects the application's radio with simulated devices.

    `fault(sim, packet)` may return None (answer normally), "lose", "fail" (delivery error),
    "dup", "garble" (truncated reply), ("delay", s), ("bytes", payload)."""

    def __init__(self, app, fault=None, latency=0.01):
        self.app = app
        self.sims = []
        self.fault = fault
        self.latency = latency
        self.broadcasts = []
        app.hooks["send_packet"] = self.send

    def add(self, sim):
        self.sims.append(sim)
        return sim

    def find(self, addr):
        for s in self.sims:
            if (addr.addr_mode == t.AddrMode.NWK and s.nwk == addr.address) or (
                    addr.addr_mode == t.AddrMode.IEEE and s.ieee == addr.address):
                return s

    async def send(self, p):
        if p.dst.addr_mode in (t.AddrMode.Broadcast, t.AddrMode.Group):
            self.broadcasts.append(p)
            return
        s = self.find(p.dst)
        f = self.fault(s, p) if self.fault is not None else None
        if s is None or f == "fail":
            raise zex.DeliveryError("no such device", 0xE9)
        if f == "lose":
            return
        for prof, cl, sep, dep, payload in s.answer(p):
            delay = self.latency
            n = 1
            if f == "dup":
                n = 2
            elif f == "garble":
                payload = payload[:max(2, len(payload) // 2)]
            elif isinstance(f, (tuple, list)) and f[0] == "delay":
                delay = f[1]
            elif isinstance(f, (tuple, list)) and f[0] == "bytes":
                payload = payload[:1] + bytes.fromhex(f[1])
            for _ in range(n):
                asyncio.get_running_loop().call_later(
                    delay, self.receive, s, prof, cl, sep, dep, payload)

    def receive(self, s, prof, cl, sep, dep, payload):
        self.app.packet_received(fakes.packet(
            s.nwk, cl, payload, src_ep=sep, dst_ep=dep, profile=prof))
