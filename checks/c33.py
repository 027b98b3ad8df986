"""C33: outgoing requests hand the radio exactly the intended packet."""

from __future__ import annotations

import asyncio
import contextvars

from hypothesis import strategies as st

import zigpy.config as conf
import zigpy.device
import zigpy.exceptions as ze
import zigpy.types as t
import zigpy.zcl.foundation as f
import zigpy.zdo
import zigpy.zdo.types as zdo_t

from vlib import fakes, vloop
from vlib.core import Check, Suite, Violation, check_eq

ZHA, ZLL, GP = 0x0104, 0xC05E, 0xA1E0
LIGHTLINK = 0x1000

# endpoint: (profile, device type, input clusters, output clusters)
EPS = {
    1: (ZHA, 0x0100, [0, 6, LIGHTLINK], [6, 0x19]),
    11: (ZLL, 0x0200, [0, 6, LIGHTLINK], [6, LIGHTLINK]),
    242: (GP, 0x0061, [0, 0x21], [0x21]),
}
CLUSTERS = [(ep, c, side) for ep, e in EPS.items() for side in (0, 1) for c in e[2 + side]]
KINDS = [zdo_t.LogicalType.Router, zdo_t.LogicalType.EndDevice, zdo_t.LogicalType.Router, None]
NWKS = [0x1111, 0x2222, 0x3333, 0x4444, 0x5555, 0x6666]
REQUEST = contextvars.ContextVar("request")


class Token(t.Struct):
    token: t.uint16_t


class Odd(Exception):
    pass


FAULTS = {
    "delivery": lambda: ze.DeliveryError("not delivered", 0xE9),
    "controller": lambda: ze.ControllerException("no"),
    "timeout": lambda: asyncio.TimeoutError("radio"),
    "odd": lambda: Odd("odd"),
}

# ------------------------------------------------------------------ generation

u8 = st.one_of(st.sampled_from([0, 1, 255]), st.integers(0, 255))
u16 = st.one_of(st.sampled_from([0, 1, 0xFFFF]), st.integers(0, 0xFFFF))
tsns = st.one_of(st.none(), st.sampled_from([0, 7, 255]), st.integers(0, 255))
payload = st.binary(min_size=0, max_size=8).map(bytes.hex)
PRIORITIES = [-1, 0, 1, 2]


def options(reply=False):
    return st.fixed_dictionaries(
        {},
        optional={
            "expect_reply": st.booleans(),
            "use_ieee": st.booleans(),
            "ask_for_ack": st.sampled_from([None, True, False]),
            "priority": st.sampled_from(PRIORITIES),
            "timeout": st.sampled_from([1, 5, 12]),
        },
    )


def requests():
    common = {
        "dev": st.integers(0, 3),
        "fault": st.sampled_from([None] * 5 + list(FAULTS)),
        "delay": st.sampled_from([0, 0, 0, 2]),
        "answer": st.sampled_from([True, True, False]),
        "opts": options(),
    }

    def kind(*names, **fields):
        return st.fixed_dictionaries({"kind": st.sampled_from(names), **common, **fields})

    command = st.sampled_from([0, 1, 2, 0x3F, 0x40, 0x41, 0x42, 0xFF])
    manufacturer = st.sampled_from([None, None, 0, 1, 0x1037, 0xFFFF])
    cluster = st.sampled_from(CLUSTERS).map(list)
    return st.one_of(
        kind(
            "raw", "raw_reply", "app", profile=u16, cluster=u16, src_ep=u8, dst_ep=u8,
            tsn=st.sampled_from([0, 7, 255, 8]), data=payload,
        ),
        kind(
            "ep", "ep_reply", on=cluster, cluster=st.sampled_from([0, 6, LIGHTLINK, 0xFC00]),
            command=command, tsn=u8, data=payload,
        ),
        kind(
            "read", "read_reply", on=cluster, token=u16, manufacturer=manufacturer, tsn=tsns
        ),
        kind(
            "command", "command_reply", on=cluster, command=command, token=u16,
            manufacturer=manufacturer, tsn=tsns,
        ),
        kind("zdo", "zdo_named", token=u16),
        kind("zdo_reply", token=u16, tsn=tsns),
        kind(
            "mrequest", group=u16, profile=u16, cluster=u16, src_ep=u8, tsn=u8, data=payload,
            extra=st.fixed_dictionaries(
                {},
                optional={
                    "hops": st.integers(0, 30),
                    "non_member_radius": st.integers(0, 7),
                    "priority": st.sampled_from(PRIORITIES),
                },
            ),
        ),
        kind(
            "broadcast", "dev_broadcast", profile=u16, cluster=u16, src_ep=u8, dst_ep=u8,
            group=u16, radius=st.integers(0, 30), tsn=u8, data=payload,
            to=st.sampled_from([None, 0xFFFC, 0xFFFD, 0xFFFF, 0xFFFB]),
            priority=st.sampled_from([None, *PRIORITIES]),
        ),
        kind(
            "zdo_broadcast", token=u16, radius=st.integers(0, 30),
            to=st.sampled_from([None, 0xFFFC, 0xFFFD, 0xFFFF]), named=st.booleans(),
        ),
        kind(
            "group", group=u16, command=command, token=u16, manufacturer=manufacturer,
            cluster=st.sampled_from([3, 6, 8, 0x300]), tsn=tsns,
        ),
        kind("notify", to=st.sampled_from([None, 0xFFFD, 0xFFFF]), jitter=st.integers(1, 100)),
    )


def cases():
    relays = st.lists(st.sampled_from([0, 0, 0x1111, 0x2222, 0x3333, 0x4444, 0x7777, 0xFFFF]), max_size=8)
    op = st.one_of(
        requests().map(lambda r: ["request", r]),
        requests().map(lambda r: ["request", r]),
        requests().map(lambda r: ["request", r]),
        st.tuples(st.just("relays"), st.integers(0, 3), relays).map(list),
        st.tuples(st.just("move"), st.integers(0, 3), st.integers(0, 5)).map(list),
        st.tuples(st.just("own"), st.sampled_from([0, 0x0000, 0x9999])).map(list),
        st.tuples(st.just("wait"), st.sampled_from([0.1, 1, 3, 40])).map(list),
    )
    return st.fixed_dictionaries(
        {
            "routing": st.booleans(),
            "concurrency": st.integers(1, 4),
            "seq": st.tuples(u8, u8, u8, u8, u8).map(list),
            "ops": st.lists(op, min_size=1, max_size=16),
        }
    )


# ------------------------------------------------------------------ the model


def address(mode, value):
    return [mode, list(value) if isinstance(value, list) else int(value)]


def addr_pic(a):
    if a is None:
        return None
    value = a.address
    return [
        a.addr_mode.name,
        [int(x) for x in value] if a.addr_mode == t.AddrMode.IEEE else int(value),
    ]


def zcl(*, general, client, tsn, command, body, manufacturer, quiet):
    control = (0 if general else 1) | (client << 3) | (quiet << 4)
    out = bytes([control | (4 if manufacturer is not None else 0)])
    if manufacturer is not None:
        out += manufacturer.to_bytes(2, "little")
    return out + bytes([tsn, command]) + body


class World:
    def __init__(self, app, case):
        self.app = app
        self.case = case
        self.devs = []
        self.nwk = NWKS[:4]
        self.relays = [None] * 4
        self.own = 0
        self.sent = {}
        self.outstanding = [dict() for _ in range(4)]
        self.stray = []

    def expected(self, r, packet):
        """The packet that request must give right now; its tsn may be free to choose."""
        k = r["kind"]
        opts = r["opts"]
        base = {
            "src": address("NWK", self.own),
            "radius": 0,
            "non_member_radius": 0,
            "extended_timeout": False,
            "source_route": None,
            "ack": False,
            "priority": 0,
        }
        tsn = int(packet.tsn)
        if not 0 <= tsn <= 255:
            raise Violation(f"transaction number {tsn}")
        if r.get("tsn") is not None:
            tsn = r["tsn"]
        token = r.get("token", 0).to_bytes(2, "little")

        if k == "mrequest":
            e = r["extra"]
            return {
                **base, "dst": address("Group", r["group"]), "src_ep": r["src_ep"],
                "dst_ep": None, "tsn": tsn, "profile": r["profile"], "cluster": r["cluster"],
                "data": r["data"], "radius": e.get("hops", 0),
                "non_member_radius": e.get("non_member_radius", 3),
                "priority": e.get("priority", 0),
            }
        if k in ("broadcast", "dev_broadcast"):
            return {
                **base, "dst": address("Broadcast", r["to"] or 0xFFFD), "src_ep": r["src_ep"],
                "dst_ep": r["dst_ep"], "tsn": tsn, "profile": r["profile"],
                "cluster": r["cluster"], "data": r["data"], "radius": r["radius"],
                "priority": (r["priority"] or 0) if k == "broadcast" else 0,
            }
        if k == "zdo_broadcast":
            return {
                **base, "dst": address("Broadcast", r["to"] or 0xFFFD), "src_ep": 0,
                "dst_ep": 0, "tsn": tsn, "profile": 0, "cluster": 0x0001,
                "data": (bytes([tsn]) + token + b"\x00\x05").hex(), "radius": r["radius"],
            }
        if k == "group":
            data = zcl(
                general=False, client=False, tsn=tsn, command=r["command"], body=token,
                manufacturer=r["manufacturer"], quiet=False,
            )
            return {
                **base, "dst": address("Group", r["group"]), "src_ep": 1, "dst_ep": None,
                "tsn": tsn, "profile": ZHA, "cluster": r["cluster"], "data": data.hex(),
                "non_member_radius": 3,
            }
        if k == "notify":
            data = bytes([0x19, tsn, 0x00, 0x00, r["jitter"]])
            return {
                **base, "dst": address("Broadcast", r["to"] or 0xFFFF), "src_ep": 1,
                "dst_ep": 0xFF, "tsn": tsn, "profile": ZHA, "cluster": 0x19,
                "data": data.hex(), "radius": 30,
            }

        i = r["dev"]
        expect_reply = opts.get("expect_reply", not k.endswith("_reply"))
        ieee = opts.get("use_ieee", False)
        ack = opts.get("ask_for_ack")
        extended = expect_reply and KINDS[i] in (None, zdo_t.LogicalType.EndDevice)
        if k == "app":
            extended = r["opts"].get("timeout") == 12  # see `start`
        if self.case["routing"] and self.relays[i] is not None:
            route = []
            for x in self.relays[i]:
                if x != 0 and x not in route:
                    route.append(x)
            route.reverse()
        else:
            route = None
        out = {
            **base,
            "dst": address("NWK", self.nwk[i]),
            "tsn": tsn,
            "extended_timeout": extended,
            "source_route": route,
            "ack": ack if ack is not None else not expect_reply,
            "priority": opts.get("priority", 0),
        }
        if ieee:
            out["src"] = address("IEEE", [int(x) for x in fakes.NCP_IEEE])
            out["dst"] = address("IEEE", [int(x) for x in fakes.eui(i + 1)])

        if k in ("raw", "raw_reply", "app"):
            out |= {
                "src_ep": r["src_ep"], "dst_ep": r["dst_ep"], "profile": r["profile"],
                "cluster": r["cluster"], "data": r["data"],
            }
            return out
        if k.startswith("zdo"):
            body = token if k != "zdo_reply" else b"\x00" + token + b"\x02\x01\xf2"
            out |= {
                "src_ep": 0, "dst_ep": 0, "profile": 0,
                "cluster": 0x8005 if k == "zdo_reply" else 0x0005,
                "data": (bytes([tsn]) + body).hex(),
            }
            return out

        ep, cluster, side = r["on"]
        command = r.get("command", 0)
        if k.startswith("ep"):
            cluster = r["cluster"]
            data = bytes.fromhex(r["data"])
        else:
            data = zcl(
                general=k.startswith("read"), client=bool(side), tsn=tsn, command=command,
                body=token, manufacturer=r["manufacturer"],
                quiet=bool(side) or k.endswith("_reply"),
            )
        profile = EPS[ep][0]
        if profile == ZLL and not (cluster == LIGHTLINK and command < 0x40):
            profile = ZHA
        out |= {
            "src_ep": ep, "dst_ep": ep, "profile": profile, "cluster": cluster,
            "data": data.hex(),
        }
        return out


def picture(p):
    route = p.source_route
    return {
        "src": addr_pic(p.src),
        "dst": addr_pic(p.dst),
        "src_ep": None if p.src_ep is None else int(p.src_ep),
        "dst_ep": None if p.dst_ep is None else int(p.dst_ep),
        "tsn": int(p.tsn),
        "profile": int(p.profile_id),
        "cluster": int(p.cluster_id),
        "data": p.data.serialize().hex(),
        "radius": int(p.radius),
        "non_member_radius": int(p.non_member_radius),
        "extended_timeout": bool(p.extended_timeout),
        "source_route": None if route is None else [int(x) for x in route],
        "ack": bool(p.tx_options & t.TransmitOptions.ACK),
        "priority": int(p.priority),
    }


def start(w, r):
    """The coroutine of a request."""
    app = w.app
    k = r["kind"]
    dev = w.devs[r["dev"]]
    opts = dict(r["opts"])
    data = bytes.fromhex(r.get("data", ""))
    read = f.GENERAL_COMMANDS[f.GeneralCommand.Read_Attributes].schema

    if k == "mrequest":
        return app.mrequest(
            r["group"], r["profile"], r["cluster"], r["src_ep"], r["tsn"], data, **r["extra"]
        )
    to = {} if r.get("to") is None else {"broadcast_address": t.BroadcastAddress(r["to"])}
    if k == "broadcast":
        more = {} if r["priority"] is None else {"priority": r["priority"]}
        return app.broadcast(
            r["profile"], r["cluster"], r["src_ep"], r["dst_ep"], r["group"], r["radius"],
            r["tsn"], data, **to, **more,
        )
    if k == "dev_broadcast":
        return zigpy.device.broadcast(
            app, r["profile"], r["cluster"], r["src_ep"], r["dst_ep"], r["group"], r["radius"],
            r["tsn"], data, **to,
        )
    if k == "zdo_broadcast":
        args = (t.NWK(r["token"]), 0, 5)
        names = ("NWKAddrOfInterest", "RequestType", "StartIndex")
        if r["named"]:
            # in any order
            to |= dict(reversed(list(zip(names, args))))
            args = ()
        return zigpy.zdo.broadcast(
            app, zdo_t.ZDOCmd.IEEE_addr_req, None, r["radius"], *args, **to
        )
    if k == "group":
        group = app.groups.add_group(r["group"])
        return group.endpoint[r["cluster"]].request(
            False, r["command"], Token, r["token"], manufacturer=r["manufacturer"], tsn=r["tsn"]
        )
    if k == "notify":
        return app.ota.broadcast_notify(jitter=r["jitter"], **to)

    if k == "app":
        opts["extended_timeout"] = opts.pop("timeout", None) == 12
        return app.request(
            dev, r["profile"], r["cluster"], r["src_ep"], r["dst_ep"], r["tsn"], data, **opts
        )
    if k in ("raw", "raw_reply"):
        call = dev.request if k == "raw" else dev.reply
        return call(
            r["profile"], r["cluster"], r["src_ep"], r["dst_ep"], r["tsn"], data, **opts
        )
    if k in ("zdo", "zdo_named"):
        if k == "zdo":
            return dev.zdo.request(zdo_t.ZDOCmd.Active_EP_req, t.NWK(r["token"]), **opts)
        return dev.zdo.Active_EP_req(t.NWK(r["token"]), **opts)
    if k == "zdo_reply":
        return dev.zdo.reply(
            zdo_t.ZDOCmd.Active_EP_rsp, 0, t.NWK(r["token"]), [1, 242], tsn=r["tsn"], **opts
        )
    ep, cluster, side = r["on"]
    ep = dev.endpoints[ep]
    if k in ("ep", "ep_reply"):
        call = ep.request if k == "ep" else ep.reply
        return call(r["cluster"], r["tsn"], data, command_id=r["command"], **opts)
    cluster = (ep.out_clusters if side else ep.in_clusters)[cluster]
    opts |= {"manufacturer": r["manufacturer"], "tsn": r["tsn"]}
    if k == "read":
        return cluster.request(True, 0x00, read, [t.uint16_t(r["token"])], **opts)
    if k == "read_reply":
        return cluster.reply(True, 0x00, read, [t.uint16_t(r["token"])], **opts)
    call = cluster.request if k == "command" else cluster.reply
    return call(False, r["command"], Token, r["token"], **opts)


MULTI = ("mrequest", "broadcast", "dev_broadcast", "zdo_broadcast", "group", "notify")


def expects_reply(r):
    if r["kind"] in MULTI or r["kind"] == "app":
        return False
    return r["opts"].get("expect_reply", not r["kind"].endswith("_reply"))


def answer(w, r, packet):
    """Bytes of a matching answer from the device, or None."""
    k = r["kind"]
    tsn = int(packet.tsn)
    if k in ("zdo", "zdo_named"):
        return (0, 0x8005, bytes([tsn, 0]) + w.nwk[r["dev"]].to_bytes(2, "little") + b"\x01\x01")
    if k in ("read", "command") and r["on"][2] == 0 and r["manufacturer"] is None:
        return (r["on"][0], r["on"][1], bytes([0x18, tsn, 0x0B, r.get("command", 0), 0]))
    return None


def run(case):
    stats = {"requests": 0, "failed": 0, "answered": 0, "timeout": 0, "refused": 0, "routed": 0}

    async def main(loop):
        app = fakes.make_app(**{conf.CONF_SOURCE_ROUTING: case["routing"]})
        app._send_sequence = case["seq"][4]
        fakes.add_coordinator(app)
        w = World(app, case)
        for i, (kind, nwk) in enumerate(zip(KINDS, NWKS)):
            d = fakes.add_device(app, i + 1, nwk, eps=EPS)
            d.node_desc = None if kind is None else fakes.node_desc(kind)
            if kind is None:
                d.__class__ = type("Undescribed", (type(d),), {"is_initialized": True})
            d._concurrent_requests_semaphore.max_value = case["concurrency"]
            d._send_sequence = case["seq"][i]
            w.devs.append(d)

        async def send_packet(packet):
            r = REQUEST.get(None)
            if r is None:
                w.stray.append(picture(packet))
                return
            n = r["n"]
            got, want = picture(packet), w.expected(r, packet)
            if r["kind"] == "group" and got["src"] is None:
                got["src"] = want["src"]
            if n in w.sent:
                raise Violation(f"a second packet for one request: {got}")
            w.sent[n] = got
            if got != want:
                diff = {x: (got[x], want[x]) for x in want if got[x] != want[x]}
                w.wrong = Violation(
                    f"packet of a {r['kind']} request: (got, expected) {diff}"
                )
                raise w.wrong
            if want["source_route"]:
                stats["routed"] += 1
                packet.source_route.append(0x1234)  # the radio may do what it likes
            if expects_reply(r):
                if got["tsn"] in w.outstanding[r["dev"]]:
                    w.wrong = Violation(
                        f"two requests outstanding to one device share transaction"
                        f" number {got['tsn']}"
                    )
                    raise w.wrong
                w.outstanding[r["dev"]][got["tsn"]] = n
            if r["delay"]:
                await asyncio.sleep(r["delay"])
            if r["fault"]:
                w.injected[n] = FAULTS[r["fault"]]()
                raise w.injected[n]
            if expects_reply(r) and r["answer"]:
                a = answer(w, r, packet)
                if a is not None:
                    ep, cluster, data = a
                    w.answered.add(n)

                    def deliver():
                        app.packet_received(
                            fakes.packet(
                                t.NWK(w.nwk[r["dev"]]), cluster, data, src_ep=ep,
                                dst_ep=ep, profile=packet.profile_id, tsn=packet.tsn,
                            )
                        )

                    loop.call_later(0.05, deliver, context=contextvars.Context())

        w.wrong = None
        w.injected = {}
        w.answered = set()
        app.hooks["send_packet"] = send_packet

        async def request(r):
            REQUEST.set(r)
            try:
                return await start(w, r)
            finally:
                w.outstanding[r["dev"]] = {
                    k: v for k, v in w.outstanding[r["dev"]].items() if v != r["n"]
                }

        tasks = []
        everyone = []
        for n, op in enumerate(case["ops"]):
            if op[0] == "request":
                r = dict(op[1], n=n)
                task = loop.create_task(request(r))
                tasks.append((r, task))
                stats["requests"] += 1
                everyone.append(r)
                await vloop.settle(6)
            elif op[0] == "relays":
                i = op[1]
                w.relays[i] = op[2]
                app.handle_relays(nwk=t.NWK(w.nwk[i]), relays=[t.NWK(x) for x in op[2]])
            elif op[0] == "move":
                i, to = op[1], NWKS[op[2]]
                if to not in w.nwk:
                    w.nwk[i] = to
                    w.devs[i].nwk = t.NWK(to)
            elif op[0] == "own":
                w.own = op[1]
                app.state.node_info.nwk = t.NWK(op[1])
            else:
                await asyncio.sleep(op[1])
            if w.wrong:
                raise w.wrong
        results = await asyncio.gather(*[x for _, x in tasks], return_exceptions=True)
        if w.wrong:
            raise w.wrong
        for (r, _), res in zip(tasks, results):
            n = r["n"]
            if isinstance(res, Violation):
                raise res
            what = f"{r['kind']} request {n}"
            if n not in w.sent:
                # refused is only a transaction number in use, by a request whose caller
                # has chosen it or for one whose caller has
                others = [o for o in everyone if o["dev"] == r["dev"] and expects_reply(o)]
                clash = expects_reply(r) and len(others) > 1 and any(
                    o.get("tsn") is not None for o in others
                )
                if not clash or not isinstance(res, ze.ControllerException):
                    raise Violation(f"{what} sent nothing and ended with {res!r}")
                stats["refused"] += 1
                continue
            if n in w.injected:
                stats["failed"] += 1
                if res is not w.injected[n]:
                    raise Violation(
                        f"{what} failed with {w.injected[n]!r}, its caller got {res!r}"
                    )
                continue
            if expects_reply(r) and n not in w.answered:
                stats["timeout"] += 1
                if not isinstance(res, asyncio.TimeoutError):
                    raise Violation(f"{what} was not answered, its caller got {res!r}")
                continue
            if expects_reply(r) and isinstance(res, asyncio.TimeoutError) and (
                len(everyone) > 1 or r["opts"].get("timeout") == 1
            ):
                continue  # answered too late or its answer was taken for a repeat
            if isinstance(res, BaseException):
                raise Violation(f"{what} was delivered, its caller got {res!r}") from res
            stats["answered"] += n in w.answered
            if r["kind"] == "group":
                check_eq(int(res.command_id), r["command"], f"command in the outcome of {what}")
                check_eq(int(res.status), 0, f"status in the outcome of {what}")
        check_eq(w.stray, [], "packets nobody asked for")
        for i, d in enumerate(w.devs):
            if d._pending:
                raise Violation(f"requests left pending: {d._pending}")
        if loop.errors:
            raise Violation(f"errors left in the loop: {loop.errors}")

    vloop.run(main)
    return {
        "labels": [k for k, v in stats.items() if v]
        + sorted({op[1]["kind"] for op in case["ops"] if op[0] == "request"}),
        "nontrivial": stats["requests"] > 0,
    }


# ------------------------------------------------------------------ relays
# Reports for devices that move, are replaced, or are unknown


def relay_cases():
    relays = st.lists(st.sampled_from([0, 0, 1, 0x1111, 0x2222, 0x3333, 0x7777, 0xFFFD]), max_size=9)
    op = st.one_of(
        st.tuples(st.just("report"), st.sampled_from([0x1111, 0x2222, 0x3333, 0x9999]), relays),
        st.tuples(st.just("report"), st.sampled_from([0x1111, 0x2222, 0x3333]), relays),
        st.tuples(st.just("forget"), st.integers(0, 2)),
        st.tuples(st.just("move"), st.integers(0, 2), st.sampled_from([0x1111, 0x2222, 0x3333, 0x4444])),
        st.tuples(st.just("send"), st.integers(0, 2)),
    ).map(list)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=14)})


def run_relays(case):
    stats = {"routed": 0, "unknown": 0}

    async def main(loop):
        app = fakes.make_app(**{conf.CONF_SOURCE_ROUTING: True})
        fakes.add_coordinator(app)
        nwk = [0x1111, 0x2222, 0x3333]
        devs = [fakes.add_device(app, i + 1, a) for i, a in enumerate(nwk)]
        last = [None] * 3

        for op in case["ops"]:
            app.sent.clear()
            if op[0] == "report":
                given = [t.NWK(x) for x in op[2]]
                app.handle_relays(nwk=t.NWK(op[1]), relays=given)
                given.append(t.NWK(0x4321))  # the list stays the caller's
                if op[1] in nwk:
                    last[nwk.index(op[1])] = op[2]
                await vloop.settle(10)
                if op[1] in nwk:
                    check_eq(app.sent, [], "packets on a report of a known device")
                else:
                    stats["unknown"] += 1
                    # whose address is this?
                    check_eq(
                        [
                            (int(p.cluster_id), addr_pic(p.dst)[0], p.data.serialize()[1:3])
                            for p in app.sent
                        ],
                        [(0x0001, "Broadcast", op[1].to_bytes(2, "little"))],
                        "packets on a report of an unknown device",
                    )
            elif op[0] == "forget":
                devs[op[1]].relays = None
                last[op[1]] = None
            elif op[0] == "move":
                if op[2] not in nwk:
                    nwk[op[1]] = op[2]
                    devs[op[1]].nwk = t.NWK(op[2])
            else:
                i = op[1]
                await devs[i].request(260, 6, 1, 1, 5, b"\x01\x05\x01", expect_reply=False)
                want = None
                if last[i] is not None:
                    want = []
                    for x in last[i]:
                        if x != 0 and x not in want:
                            want.append(x)
                    want.reverse()
                    stats["routed"] += bool(want)
                check_eq([picture(p)["source_route"] for p in app.sent], [want], "source route")
                check_eq([picture(p)["dst"] for p in app.sent], [["NWK", nwk[i]]], "destination")
        if loop.errors:
            raise Violation(f"errors left in the loop: {loop.errors}")

    vloop.run(main)
    return {"labels": [k for k, v in stats.items() if v], "nontrivial": stats["routed"] > 0}


CHECK = Check(
    "C33",
    rule="histories with at least one request; for relay reports, with a non-empty route used",
    assumptions=[
        "group clusters take no delivery options: their multicasts have normal priority,"
        " unlimited radius and a non-member radius of three",
        "multicasts of a group may leave the source address to the radio",
    ],
    suites=[
        Suite("requests", run, strategy=cases, quick=3000, thorough=120000),
        Suite("relays", run_relays, strategy=relay_cases, quick=1500, thorough=40000),
    ],
)
