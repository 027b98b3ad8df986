"""C28: install codes convert exactly when their checksum is right; permits reach who was asked."""
from __future__ import annotations

import asyncio
import warnings

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop

import zigpy.types as t
import zigpy.util

from hypothesis import strategies as st

# ---------------------------------------------------------------- independent AES-MMO and CRC-16/X-25


def _sbox():
    box = [0] * 256
    p = q = 1
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q
        for r in range(1, 5):
            x ^= ((q << r) | (q >> (8 - r))) & 0xFF
        box[p] = x ^ 0x63
        if p == 1:
            break
    box[0] = 0x63
    return box


SBOX = _sbox()


def _xt(a):
    return ((a << 1) ^ 0x1B) & 0xFF if a & 0x80 else a << 1


def aes128(key, block):
    w = [list(key[i:i + 4]) for i in range(0, 16, 4)]
    rcon = 1
    for i in range(4, 44):
        x = list(w[i - 1])
        if i % 4 == 0:
            x = [SBOX[b] for b in x[1:] + x[:1]]
            x[0] ^= rcon
            rcon = _xt(rcon)
        w.append([a ^ b for a, b in zip(w[i - 4], x)])
    keys = [sum(w[i:i + 4], []) for i in range(0, 44, 4)]
    s = [a ^ b for a, b in zip(block, keys[0])]
    for rnd in range(1, 11):
        s = [SBOX[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if rnd < 10:
            out = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]
                al = a[0] ^ a[1] ^ a[2] ^ a[3]
                out += [a[i] ^ al ^ _xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = out
        s = [a ^ b for a, b in zip(s, keys[rnd])]
    return bytes(s)


def mmo(data):
    """Zigbee specification B.6 (messages shorter than 2**16 bits)."""
    assert len(data) < 8192
    msg = bytes(data) + b"\x80"
    msg += bytes(-(len(msg) + 2) % 16) + (8 * len(data)).to_bytes(2, "big")
    h = bytes(16)
    for i in range(0, len(msg), 16):
        b = msg[i:i + 16]
        h = bytes(x ^ y for x, y in zip(aes128(h, b), b))
    return h


def crc(data):
    c = 0xFFFF
    for b in data:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0x8408 if c & 1 else c >> 1
    return (c ^ 0xFFFF).to_bytes(2, "little")


# the published vectors hold for the reference
assert aes128(bytes(range(16)), bytes.fromhex("00112233445566778899aabbccddeeff")) == bytes.fromhex(
    "69c4e0d86a7b0430d8cdb78070b4c55a")
assert mmo(bytes.fromhex("83FED3407A939723A5C639B26916D505C3B5")) == bytes.fromhex("66b6900981e1ee3ca4206b6b861c02bb")
assert mmo(b"\xc0") == bytes.fromhex("ae3a102a28d43ee0d4a09e22788b206c")
assert crc(bytes.fromhex("83FED3407A939723A5C639B26916D505")) == bytes.fromhex("C3B5")

LENGTHS = (8, 10, 14, 18)


def expected(code):
    return mmo(code) if len(code) in LENGTHS and crc(code[:-2]) == code[-2:] else None


def convert(code, kind):
    r = zigpy.util.convert_install_code({"bytes": bytes, "bytearray": bytearray}[kind](code))
    if r is not None:
        check(isinstance(r, t.KeyData), "the link key is a %s", type(r).__name__)
        r = r.serialize()
    return r


KINDS = ["bytes", "bytes", "bytearray"]


@st.composite
def codes(draw):
    base = draw(st.binary(min_size=0, max_size=32) | st.sampled_from([6, 8, 12, 16]).flatmap(
        lambda n: st.binary(min_size=n, max_size=n)))
    code = base + crc(base)
    how = draw(st.sampled_from(["ok", "ok", "flip", "swap", "crc", "cut", "extend", "none", "raw"]))
    if how == "flip":
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, 8 * len(code) - 1))
            code = bytearray(code)
            code[i // 8] ^= 1 << (i % 8)
    elif how == "swap":
        code = code[:-2] + code[:-3:-1]
    elif how == "crc":
        code = code[:-2] + draw(st.sampled_from([b"\0\0", b"\xff\xff", bytes(b ^ 0xFF for b in code[-2:])]))
    elif how == "cut":
        code = code[:draw(st.integers(0, len(code)))]
    elif how == "extend":
        code = code + draw(st.sampled_from([b"\0", code[-2:], b"\xff\xff"]))
    elif how == "none":
        code = base
    elif how == "raw":
        code = draw(st.binary(max_size=20))
    return {"code": bytes(code).hex(), "kind": draw(st.sampled_from(KINDS))}


def run_code(case):
    code = bytes.fromhex(case["code"])
    want = expected(code)
    got = convert(code, case["kind"])
    check_eq(got and got.hex(), want and want.hex(), "link key for the install code")
    return {"labels": ["accepted" if want else "refused", f"len {len(code)}"], "nontrivial": len(code) in LENGTHS}


def flips(tier):
    import random
    rnd = random.Random(f"c28 {__import__('os').environ.get('VERIF_SEED', '1')}")
    for n in LENGTHS:
        for _ in range(2 if tier == "quick" else 12):
            base = bytes(rnd.randrange(256) for _ in range(n - 2))
            yield {"base": base.hex()}


def run_flips(case):
    """Every single-bit corruption, every adjacent pair, every truncation of one valid code."""
    base = bytes.fromhex(case["base"])
    code = base + crc(base)
    check_eq(convert(code, "bytes"), mmo(code), "link key for the install code")
    for i in range(8 * len(code)):
        for width in (1, 2, 5):
            c = int.from_bytes(code, "big") ^ (((1 << width) - 1) << i)
            if c >> (8 * len(code)):
                continue
            check_eq(convert(c.to_bytes(len(code), "big"), "bytes"), None, "key for a corrupted code")
    for i in range(len(code)):
        check_eq(convert(code[:i], "bytes"), expected(code[:i]), "key for a truncated code")
    return True


@st.composite
def messages(draw):
    n = draw(st.integers(0, 70) | st.sampled_from([13, 14, 15, 16, 29, 30, 31, 32, 33, 255, 256]))
    return {"data": draw(st.binary(min_size=n, max_size=n)).hex()}


def run_hash(case):
    data = bytes.fromhex(case["data"])
    check_eq(zigpy.util.aes_mmo_hash(data).serialize().hex(), mmo(data).hex(), f"hash of {len(data)} bytes")
    return {"labels": [f"tail {len(data) % 16}"], "nontrivial": len(data) > 0}


# ---------------------------------------------------------------- permitting through the application


@st.composite
def permits(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["code", "code", "node", "node", "all"]))
        time_s = draw(st.sampled_from([None, 0, 1, 60, 254]) | st.integers(0, 254))
        if k == "code":
            c = draw(codes())
            ops.append([k, draw(st.integers(0, 0xFFFFFFFF)), c, time_s, draw(st.integers(0, 9)) == 0])
        elif k == "node":
            ops.append([k, draw(st.integers(0, 4)), draw(st.sampled_from(["eui", "eui", "list", "tuple", "str"])), time_s,
                        draw(st.sampled_from([None, None, None, "fail", "status"]))])
        else:
            ops.append([k, time_s])
    return {"ops": ops, "own": draw(st.sampled_from([0, 0, 0x2345]))}


def run_permits(case):
    labels = []

    async def main(loop):
        app = fakes.make_app()
        app.state.node_info.nwk = t.NWK(case["own"])
        fakes.add_coordinator(app)
        replies = {"mode": None}

        def send(pkt):
            if pkt.dst.addr_mode == t.AddrMode.NWK and pkt.cluster_id == 0x0036 and replies["mode"] != "fail":
                data = pkt.data.serialize()
                loop.call_later(0.01, lambda: app.packet_received(fakes.packet(
                    pkt.dst.address, 0x8036, data[:1] + (b"\x80" if replies["mode"] == "status" else b"\0"),
                    src_ep=0, dst_ep=0, profile=0)))
            elif replies["mode"] == "fail":
                import zigpy.exceptions
                raise zigpy.exceptions.DeliveryError("injected")
        app.hooks["send_packet"] = send
        boom = {"on": False}

        def link_key(*a):
            if boom["on"]:
                raise OSError("injected")
        app.hooks["permit_with_link_key"] = link_key
        for n in range(1, 4):
            fakes.add_device(app, n, 0x1000 + n)
        for op in case["ops"]:
            app.log.clear()
            app.sent.clear()
            args = {} if op[-2 if op[0] != "all" else -1] is None else {
                "time_s": op[-2 if op[0] != "all" else -1]}
            want_t = args.get("time_s", 60)
            if op[0] == "code":
                node = fakes.eui(op[1])
                code = bytes.fromhex(op[2]["code"])
                key = expected(code)
                boom["on"] = op[4]
                raised = None
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        await app.permit_with_key(node=node, code=code, **args)
                except ValueError:
                    raised = "refused"
                except OSError:
                    raised = "radio"
                boom["on"] = False
                check_eq(raised, "refused" if key is None else ("radio" if op[4] else None), "outcome of the permit")
                calls = [(nm, a) for nm, a in app.log]
                if key is None:
                    check_eq(calls, [], "radio calls for a refused code")
                else:
                    check_eq([c[0] for c in calls], ["permit_with_link_key"], "radio calls for an install code")
                    a = calls[0][1]
                    check_eq((a[0].serialize(), a[1].serialize(), a[2]), (node.serialize(), key, want_t),
                             "address, key and time handed to the radio")
                check_eq(app.sent, [], "packets sent")
                labels.append("code ok" if key else "code refused")
            elif op[0] == "node":
                ieee = fakes.NCP_IEEE if op[1] == 0 else fakes.eui(op[1])
                arg = {"eui": lambda: ieee, "list": lambda: [int(x) for x in ieee], "tuple": lambda: tuple(int(x) for x in ieee),
                       "str": lambda: str(ieee)}[op[2]]()
                replies["mode"] = op[4]
                try:
                    await app.permit(node=arg, **args)
                except asyncio.TimeoutError:
                    pass
                replies["mode"] = None
                if op[1] == 0:
                    check_eq([(nm, a) for nm, a in app.log], [("permit_ncp", (want_t,))], "radio calls")
                    check_eq(app.sent, [], "packets sent")
                else:
                    check_eq(app.log, [], "radio calls")
                    bodies = {(int(p.dst.address), int(p.cluster_id), p.data.serialize()[1:3].hex()) for p in app.sent}
                    check_eq(bodies, {(0x1000 + op[1], 0x0036, f"{want_t:02x}00")} if op[1] < 4 else set(),
                             "permit requests sent")
                    if op[1] < 4 and op[4] is None:
                        check_eq(len(app.sent), 1, "permit requests sent")
                labels.append("node " + op[2])
            else:
                await app.permit(**args)
                check_eq([(nm, a) for nm, a in app.log], [("permit_ncp", (want_t,))], "radio calls")
                check_eq([(p.dst.addr_mode, int(p.dst.address), int(p.dst_ep), int(p.cluster_id), p.data.serialize()[1:].hex())
                          for p in app.sent],
                         [(t.AddrMode.Broadcast, 0xFFFC, 0, 0x0036, f"{want_t:02x}00")], "broadcast permit")
                labels.append("all")
        await vloop.quiesce(loop, 1)

    vloop.run(main)
    return {"labels": labels}


CHECK = Check(
    "C28",
    rule="the code has a legal length (so the checksum decides), the hashed message is not empty, or at least one permit "
         "was asked",
    assumptions="AES and CRC come from independent implementations checked against published vectors",
    suites=[
        Suite("codes", run_code, strategy=codes, quick=6000, thorough=300000),
        Suite("corruptions", run_flips, cases=flips, quick=0, thorough=0),
        Suite("hash", run_hash, strategy=messages, quick=3000, thorough=100000),
        Suite("permits", run_permits, strategy=permits, quick=1500, thorough=40000),
    ])
