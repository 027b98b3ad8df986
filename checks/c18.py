"""C18: OTA images parse and serialise without changing a byte."""
from __future__ import annotations

import hashlib
import struct

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes

import zigpy.types as t
from zigpy.ota import image as I

from hypothesis import strategies as st

MAGIC = 0x0BEEF11E
HUE = 4107


# ---- independent codec ----------------------------------------------------------------------
def enc_header(h, size):
    b = b""
    fc = h["fc"]
    if fc & 1:
        b += bytes([h["scv"]])
    if fc & 2:
        b += bytes.fromhex(h["dest"])
    if fc & 4:
        b += struct.pack("<HH", h["hwmin"], h["hwmax"])
    hl = 56 + len(b)
    return struct.pack("<IHHHHHIH", MAGIC, h["hv"], hl + h.get("dhl", 0), fc, h["manuf"], h["type"], h["fv"], h["sv"]) + \
        bytes.fromhex(h["str"]) + struct.pack("<I", max(0, size + hl + h.get("dsize", 0))) + b


def enc_image(c):
    els = b"".join(struct.pack("<HI", tag, len(d) // 2) + bytes.fromhex(d) for tag, d in c["els"])
    return enc_header(c["h"], len(els)) + els


class Bad(Exception):
    pass


def ref_header(b):
    if len(b) < 56:
        raise Bad("short")
    magic, hv, hl, fc, manuf, typ, fv, sv = struct.unpack("<IHHHHHIH", b[:20])
    if magic != MAGIC:
        raise Bad("magic")
    size = struct.unpack("<I", b[52:56])[0]
    n = 56 + (1 if fc & 1 else 0) + (8 if fc & 2 else 0) + (4 if fc & 4 else 0)
    if len(b) < n:
        raise Bad("short")
    return {"size": size, "hl": hl, "n": n, "manuf": manuf}


def ref_ota(b):
    """length of the image at the start of b, its elements"""
    h = ref_header(b)
    if h["hl"] != h["n"] or h["size"] < h["n"] or len(b) < h["size"]:
        raise Bad("lengths")
    i, els = h["n"], []
    while i < h["size"]:
        if i + 6 > h["size"]:
            raise Bad("element")
        tag, n = struct.unpack("<HI", b[i:i + 6])
        i += 6
        if i + n > h["size"]:
            raise Bad("element")
        els.append((tag, b[i:i + n]))
        i += n
    return h["size"], els


def ref_hue(b):
    h = ref_header(b)
    if h["size"] < h["n"] or len(b) < h["size"] or h["manuf"] != HUE or b[h["n"]:h["size"]][:3] != b"\x2a\x00\x01":
        raise Bad("hue")
    return h["size"]


def ref_parse(b):
    """(kind, bytes of the image, rest)"""
    if len(b) > 4 and struct.unpack("<I", b[:4])[0] + 21 == len(b):
        w = b[4:-17]
        n, _ = ref_ota(w)
        return "ota", w[:n], w[n:]
    if len(b) > 152 and struct.unpack("<I", b[68:72])[0] + 64 == len(b) and b[:64] == hashlib.sha512(b[64:]).digest():
        w = b[152:]
        n, _ = ref_ota(w)
        return "ota", w[:n], w[n:]
    if b[:4] == b"NGIS":
        if len(b) <= 24:
            raise Bad("container")
        off, size = struct.unpack("<II", b[16:24])
        if len(b) <= off + size:
            raise Bad("container")
        w = b[off:off + size]
        n, els = ref_ota(w)
        rest = w[n:]
        if rest:
            # sizes that do not count the end of the only element
            if len(els) != 1 or els[0][0] != 0:
                raise Bad("trailing data")
            hn = ref_header(w)["n"]
            w = w[:52] + struct.pack("<I", n + len(rest)) + w[56:hn] + struct.pack("<HI", 0, len(els[0][1]) + len(rest)) + els[0][1] + rest
        return "ota", w, b""
    try:
        n = ref_hue(b)
        return "hue", b[:n], b[n:]
    except Bad:
        n, _ = ref_ota(b)
        return "ota", b[:n], b[n:]


def attempt(fn, *a):
    try:
        return fn(*a)
    except Bad:
        return None


def got(fn, b, what):
    try:
        return fn(b)
    except ValueError:
        return None


def compare(b, what):
    exp = attempt(ref_parse, b)
    r = got(I.parse_ota_image, b, what)
    if exp is None:
        check(r is None, "%s: accepted as %r", what, r)
        return None
    check(r is not None, "%s: rejected a valid image (%s, %d bytes)", what, exp[0], len(exp[1]))
    check(isinstance(r[0], I.HueSBLOTAImage if exp[0] == "hue" else I.OTAImage), "%s: %s image parsed as %s", what, exp[0], type(r[0]).__name__)
    check(r[0].serialize() == exp[1], "%s: the image serialises to different bytes", what)
    check(bytes(r[1]) == exp[2], "%s: trailing data is %r, expected %r", what, r[1], exp[2])
    return exp[0]


# ---- generated images -----------------------------------------------------------------------
def build(c):
    h = c["h"]
    kw = {}
    if h["fc"] & 1:
        kw["security_credential_version"] = h["scv"]
    if h["fc"] & 2:
        kw["upgrade_file_destination"] = t.EUI64.deserialize(bytes.fromhex(h["dest"]))[0]
    if h["fc"] & 4:
        kw.update(minimum_hardware_version=h["hwmin"], maximum_hardware_version=h["hwmax"])
    n = len(enc_image(c))
    hl = struct.unpack("<H", enc_image(c)[6:8])[0]
    hdr = I.OTAImageHeader(
        upgrade_file_id=MAGIC, header_version=h["hv"], header_length=hl, field_control=I.FieldControl(h["fc"]),
        manufacturer_id=h["manuf"], image_type=h["type"], file_version=h["fv"], stack_version=h["sv"],
        header_string=I.HeaderString(bytes.fromhex(h["str"])), image_size=n, **kw)
    return I.OTAImage(header=hdr, subelements=[
        I.SubElement(tag_id=I.ElementTagId(tag), data=bytes.fromhex(d)) for tag, d in c["els"]])


def run_image(c):
    raw = enc_image(c)
    img = build(c)
    out = img.serialize()
    check_eq(out.hex(), raw.hex(), "serialised image")
    tail = bytes.fromhex(c["tail"])
    back, rest = I.OTAImage.deserialize(raw + tail)
    check(back == img, "parsed image differs: %r", back)
    check_eq(bytes(rest), tail, "trailing bytes")
    check_eq(back.serialize().hex(), raw.hex(), "image parsed and serialised")
    h = c["h"]
    hd = back.header
    check_eq((int(hd.manufacturer_id), int(hd.image_type), int(hd.file_version), int(hd.image_size)), (h["manuf"], h["type"], h["fv"], len(raw)), "header")
    check_eq((hd.security_credential_version_present, hd.device_specific_file, hd.hardware_versions_present),
             (bool(h["fc"] & 1), bool(h["fc"] & 2), bool(h["fc"] & 4)), "header flags")
    check_eq(hd.minimum_hardware_version, h["hwmin"] if h["fc"] & 4 else None, "minimum hardware version")
    check_eq(hd.maximum_hardware_version, h["hwmax"] if h["fc"] & 4 else None, "maximum hardware version")
    check_eq([(int(e.tag_id), bytes(e.data).hex()) for e in back.subelements], [(tag, d) for tag, d in c["els"]], "elements")
    str(hd), repr(back)
    # wrong sizes do not serialise
    for d in (1, -1):
        img.header.image_size = len(raw) + d
        try:
            img.serialize()
        except ValueError:
            pass
        else:
            check(False, "image of %d bytes serialises with a size of %d", len(raw), len(raw) + d)
    # every truncation is rejected
    cuts = range(len(raw)) if len(raw) < 160 else sorted({*range(0, 75), *range(len(raw) - 40, len(raw)), *range(75, len(raw), 17)})
    for n in cuts:
        for fn in (I.OTAImage.deserialize, I.parse_ota_image):
            check(got(fn, raw[:n], "truncated") is None, "an image truncated from %d to %d bytes is accepted", len(raw), n)
    return {"labels": [f"elements {min(3, len(c['els']))}", f"fields {h['fc'] & 7}"], "nontrivial": len(c["els"]) > 0}


def run_bytes(c):
    b = bytearray(enc_image(c["img"]) + bytes.fromhex(c["img"]["tail"]))
    for m in c["muts"]:
        if not b:
            break
        i = m[1] % len(b)
        if m[0] == "set":
            b[i] = m[2]
        elif m[0] == "cut":
            del b[i:]
        elif m[0] == "del":
            del b[i:i + 1 + m[2] % 9]
        elif m[0] == "ins":
            b[i:i] = bytes([m[2]] * (1 + m[2] % 7))
        elif m[0] == "size":
            b[52:56] = struct.pack("<I", max(0, len(b) + m[2] - 128))
        elif m[0] == "len":
            # the length of some element
            j = m[3] % 3
            k = ref_len(bytes(b), j)
            if k is not None and k + 4 <= len(b):
                v = struct.unpack("<I", b[k:k + 4])[0]
                b[k:k + 4] = struct.pack("<I", (v + m[2] - 128) & 0xFFFFFFFF)
    b = bytes(b)
    kind = compare(b, "bytes")
    # the plain parser
    exp = attempt(ref_ota, b)
    r = got(I.OTAImage.deserialize, b, "plain")
    check((r is None) == (exp is None), "plain parser: %s", "rejects a valid image" if r is None else f"accepts {r!r}")
    if exp is not None:
        check(r[0].serialize() == b[:exp[0]] and bytes(r[1]) == b[exp[0]:], "plain parser changes bytes")
    return {"labels": [str(kind)], "nontrivial": True}


def ref_len(b, j):
    try:
        i = ref_header(b)["n"]
    except Bad:
        return None
    for _ in range(j):
        if i + 6 > len(b):
            return None
        i += 6 + struct.unpack("<I", b[i + 2:i + 6])[0]
    return i + 2


def wrap(c):
    img = enc_image(c["img"])
    inner = img + bytes.fromhex(c["inner"])
    k = c["kind"]
    if k == "legrand":
        return struct.pack("<I", len(inner) + c["off"]) + inner + bytes.fromhex(c["pad"])[:17].ljust(17, b"\x5a")
    if k == "tr":
        body = bytes.fromhex(c["pad"])[:4].ljust(4, b"\0") + struct.pack("<I", 152 - 64 + len(inner) + c["off"]) + bytes(80) + inner
        dig = hashlib.sha512(body).digest()
        if c["off"] == 1:
            dig = bytes([dig[0] ^ 1]) + dig[1:]
        return dig + body
    if k == "ikea":
        pre = bytes.fromhex(c["pad"])[:40]
        off = 24 + len(pre)
        return b"NGIS" + bytes(12) + struct.pack("<II", off, len(inner) + c["off"]) + pre + inner + bytes.fromhex(c["tail"])
    if k == "hue":
        h = dict(c["img"]["h"], manuf=HUE + c["off"])
        data = b"\x2a\x00\x01" + bytes.fromhex(c["pad"])
        return enc_header(h, len(data)) + data + bytes.fromhex(c["tail"])
    return inner


def run_container(c):
    b = bytearray(wrap(c))
    for i, v in c["muts"]:
        b[i % len(b)] = v
    if c["cut"]:
        del b[max(0, len(b) - c["cut"]):]
    kind = compare(bytes(b), c["kind"])
    clean = not c["muts"] and not c["cut"] and not c["off"]
    if clean and c["kind"] in ("legrand", "tr") or clean and c["kind"] == "ikea" and c["tail"] and not c["inner"]:
        check(kind == "ota", "an intact %s container is rejected", c["kind"])
        img, rest = I.parse_ota_image(bytes(b))
        check(img.serialize() == enc_image(c["img"]), "%s container: not the image it contains", c["kind"])
    return {"labels": [c["kind"] + (" accepted" if kind else " rejected")], "nontrivial": kind is not None}


@st.composite
def header_st(draw):
    u16 = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 1, 0x0100, 0xFFFF]))
    return {"hv": draw(u16), "fc": draw(st.one_of(st.integers(0, 7), st.integers(0, 7), u16)), "manuf": draw(st.one_of(u16, st.just(HUE))),
            "type": draw(u16), "fv": draw(st.one_of(st.integers(0, 0xFFFFFFFF), st.just(0xFFFFFFFF))), "sv": draw(u16),
            "str": draw(st.one_of(st.binary(min_size=32, max_size=32),
                                  st.text("abc \0é", max_size=12).map(lambda s: s.encode().ljust(32, b"\0")[:32]))).hex(),
            "scv": draw(st.integers(0, 255)), "dest": draw(st.binary(min_size=8, max_size=8)).hex(),
            "hwmin": draw(u16), "hwmax": draw(u16)}


@st.composite
def image_st(draw):
    els = []
    for _ in range(draw(st.integers(0, 4))):
        d = draw(st.one_of(st.binary(max_size=20), st.binary(max_size=8).map(lambda x: x * draw(st.sampled_from([1, 30, 40])))))
        els.append([draw(st.one_of(st.sampled_from([0, 0, 1, 2, 3, 6, 0x2A]), st.integers(0, 0xFFFF))), d.hex()])
    return {"h": draw(header_st()), "els": els, "tail": draw(st.one_of(st.just(""), st.binary(max_size=12).map(bytes.hex)))}


@st.composite
def bytes_st(draw):
    img = draw(image_st())
    img["h"]["dhl"] = draw(st.sampled_from([0, 0, 0, 0, 1, -1, 4, -8, 100]))
    img["h"]["dsize"] = draw(st.sampled_from([0, 0, 0, 0, 1, -1, -6, -60, 60]))
    muts = draw(st.lists(st.tuples(st.sampled_from(["set", "set", "cut", "del", "ins", "size", "len", "len"]), st.integers(0, 400),
                                   st.one_of(st.integers(0, 255), st.integers(120, 136)), st.integers(0, 9)).map(list), max_size=3))
    return {"img": img, "muts": muts}


@st.composite
def container_st(draw):
    img = draw(image_st())
    kind = draw(st.sampled_from(["legrand", "tr", "ikea", "ikea", "ikea", "hue", "hue", "plain"]))
    if kind == "ikea" and draw(st.booleans()):
        img["els"] = [[0, draw(st.binary(max_size=30)).hex()]]
    if kind == "hue":
        img["h"]["dsize"] = draw(st.sampled_from([0, 0, 0, 1, -1, -3, -500]))
        img["h"]["dhl"] = draw(st.sampled_from([0, 0, 3]))
    clean = draw(st.booleans())
    return {"img": img, "kind": kind, "inner": draw(st.one_of(st.just(""), st.binary(max_size=20).map(bytes.hex))),
            "off": 0 if clean else draw(st.sampled_from([0, 0, 1, -1])), "pad": draw(st.binary(max_size=50)).hex(),
            "tail": draw(st.binary(max_size=12)).hex(),
            "muts": [] if clean else draw(st.lists(st.tuples(st.integers(0, 260), st.integers(0, 255)).map(list), max_size=2)),
            "cut": 0 if clean else draw(st.sampled_from([0, 0, 1, 5, 60]))}


def run_text(text):
    """the header string of an image made from text: exactly 32 bytes, padded, never cut"""
    raw = text.encode("utf-8")
    try:
        got = I.HeaderString(text)
    except ValueError:
        check(len(raw) > 32, "a header string of %d bytes is refused", len(raw))
        return {"labels": ["too long"]}
    check(len(raw) <= 32, "a header string of %d bytes is accepted as %s", len(raw), bytes(got).hex())
    check_eq(got.serialize(), raw + bytes(32 - len(raw)), "header string")
    check_eq(I.HeaderString.deserialize(got.serialize() + b"x"), (got, b"x"), "header string read back")
    return {"labels": ["fits"], "nontrivial": 0 < len(raw)}


CHECK = Check(
    "C18",
    rule="an image with elements, or any mutated input, or a container that is accepted",
    assumptions=["header lengths other than the length of the header fields contradict the image (no vendor fields are known)",
                 "the four vendor containers are laid out as documented beside the code that unwraps them"],
    suites=[Suite("text", run_text, strategy=lambda: st.text(max_size=40) | st.text("aé€", min_size=28, max_size=36), quick=500,
                  thorough=20000),
            Suite("image", run_image, strategy=image_st, quick=1500, thorough=30000),
            Suite("bytes", run_bytes, strategy=bytes_st, quick=5000, thorough=150000),
            Suite("container", run_container, strategy=container_st, quick=4000, thorough=100000)])
