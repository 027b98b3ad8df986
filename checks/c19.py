"""C19: corrupt firmware is never judged valid and sound firmware never invalid."""
from __future__ import annotations

import struct

from vlib.core import Check, Suite, check, check_eq

import zigpy.types as t
from zigpy.ota import image as I, validators as V

from hypothesis import strategies as st

TAB = []
for n in range(256):
    x = n
    for _ in range(8):
        x = (x >> 1) ^ (0xEDB88320 if x & 1 else 0)
    TAB.append(x)


def crc(b):
    r = 0xFFFFFFFF
    for x in b:
        r = (r >> 8) ^ TAB[(r ^ x) & 255]
    return r ^ 0xFFFFFFFF


GBL_END, EBL_END = b"\xfc\x04\x04\xfc", b"\xfc\x04"
GBL_MAGIC, EBL_MAGIC = b"\xeb\x17\xa6\x03", b"\x00\x00\x00\x8c"


# ---- reference ------------------------------------------------------------------------------
def ref(b):
    """'valid' | 'invalid' | 'unknown'"""
    if b[:4] == GBL_MAGIC:
        hn, fmt, end, pad = 8, "<I", GBL_END, None
    elif b[:4] == EBL_MAGIC:
        if len(b) % 64:
            return "invalid"
        hn, fmt, end, pad = 4, ">H", EBL_END, 0xFF
    else:
        return "unknown"
    tn = len(end)
    i = 0
    while True:
        if i + hn > len(b):
            return "invalid"
        tag = b[i:i + tn]
        n = struct.unpack(fmt, b[i + tn:i + hn])[0]
        i += hn + n
        if i > len(b):
            return "invalid"
        if tag == end:
            break
    if pad is not None and any(x != pad for x in b[i:]):
        return "invalid"
    if i < 4 or struct.unpack("<I", b[i - 4:i])[0] != crc(b[:i - 4]):
        return "invalid"
    return "valid"


# ---- containers -----------------------------------------------------------------------------
def enc(c):
    gbl = c["kind"] == "gbl"
    out = b""
    # the first tag is the header
    tags = [[GBL_MAGIC.hex() if gbl else "0000", c["head"]]] + c["tags"]
    for i, (tag, d) in enumerate(tags):
        d = bytes.fromhex(d)
        if gbl:
            out += bytes.fromhex(tag) + struct.pack("<I", len(d)) + d
        else:
            if i == 0:
                d = d[:0x8C].ljust(0x8C, b"\x11")
            out += bytes.fromhex(tag)[:2] + struct.pack(">H", len(d)) + d
    out += (GBL_END + struct.pack("<I", 4)) if gbl else (EBL_END + struct.pack(">H", 4))
    out += struct.pack("<I", crc(out))
    n = len(out)
    if gbl:
        out += bytes.fromhex(c["pad"])
    else:
        out += b"\xff" * (-len(out) % 64) + b"\xff" * (64 * (len(c["pad"]) // 2 % 3))
    return out, n


def verdict(b):
    try:
        r = V.validate_firmware(b)
    except V.ValidationError:
        return "invalid"
    return {V.ValidationResult.VALID: "valid", V.ValidationResult.UNKNOWN: "unknown"}[r]


def run_sound(c):
    b, n = enc(c)
    check_eq(ref(b), "valid", "reference")   # the generator builds sound containers
    check_eq(verdict(b), "valid", "verdict on a sound container")
    gbl = c["kind"] == "gbl"
    # all corruptions of small containers
    poss = range(n) if n <= 250 else sorted({*range(0, 60), *range(n - 60, n), *range(60, n, 13)})
    for i in poss:
        x = b[:i] + bytes([b[i] ^ c["xor"]]) + b[i + 1:]
        r = ref(x)
        check_eq(verdict(x), r, f"verdict with byte {i} of {n} changed by {c['xor']:#x}")
        check(r != "valid", "reference judges a corrupt container valid")
    for k in range(len(b)):
        x = b[:k]
        r = ref(x)
        if k < n:
            check(r != "valid", "reference judges a truncated container valid")
        check_eq(verdict(x), r, f"verdict when truncated to {k} of {n} (+{len(b) - n}) bytes")
    ext = bytes.fromhex(c["ext"])
    check_eq(verdict(b + ext), ref(b + ext), "verdict when extended")
    if not gbl and ext.strip(b"\xff"):
        check_eq(verdict(b + ext + b"\xff" * (-len(ext) % 64)), "invalid", "verdict when extended by data")
    return {"labels": [c["kind"]], "nontrivial": len(c["tags"]) > 0}


def mutate(b, muts):
    b = bytearray(b)
    for m in muts:
        if not b:
            break
        i = m[1] % len(b)
        if m[0] == "set":
            b[i] = m[2]
        elif m[0] == "flip":
            b[i] ^= 1 << (m[2] % 8)
        elif m[0] == "swap":
            j = m[2] % len(b)
            b[i], b[j] = b[j], b[i]
        elif m[0] == "cut":
            del b[i:]
        elif m[0] == "del":
            del b[i:i + 1 + m[2] % 8]
        elif m[0] == "ins":
            b[i:i] = bytes([m[2]] * (1 + m[2] % 5))
        elif m[0] == "pad":
            b += b"\xff" * (-len(b) % 64)
        elif m[0] == "recrc":
            # end the image here with a sound checksum
            del b[i:]
            end = (GBL_END + struct.pack("<I", 4)) if b[:4] == GBL_MAGIC else EBL_END + struct.pack(">H", 4)
            b += end
            b += struct.pack("<I", crc(bytes(b)))
            if b[:4] != GBL_MAGIC:
                b += b"\xff" * (-len(b) % 64)
    return bytes(b)


def run_mut(c):
    b, _ = enc(c["fw"])
    x = mutate(b, c["muts"])
    r = ref(x)
    check_eq(verdict(x), r, "verdict on mutated container")
    return {"labels": [f"{c['fw']['kind']} {r}"], "nontrivial": x != b}


def run_ota(c):
    els, results = [], []
    for e in c["els"]:
        if e["kind"] == "raw":
            b = bytes.fromhex(e["data"])
        else:
            b = mutate(enc(e["fw"])[0], e["muts"])
        els.append((e["tag"], b))
        if e["tag"] == 0:
            results.append(ref(b))
    if c["hue"]:
        img = I.HueSBLOTAImage(header=I.OTAImageHeader(image_size=1), data=els[0][1] if els else b"")
        exp = "unknown"
    else:
        img = I.OTAImage(header=I.OTAImageHeader(), subelements=[
            I.SubElement(tag_id=I.ElementTagId(tag), data=b) for tag, b in els])
        exp = "invalid" if "invalid" in results else "unknown" if not results or "unknown" in results else "valid"
    try:
        got = {V.ValidationResult.VALID: "valid", V.ValidationResult.UNKNOWN: "unknown"}[V.validate_ota_image(img)]
    except V.ValidationError:
        got = "invalid"
    check_eq(got, exp, f"verdict on an image with {results}")
    check_eq(V.check_invalid(img), exp == "invalid", f"check_invalid on an image with {results}")
    return {"labels": [exp], "nontrivial": len(results) > 1}


@st.composite
def fw_st(draw, small=False):
    kind = draw(st.sampled_from(["gbl", "ebl"]))
    tags = draw(st.lists(st.tuples(
        st.one_of(st.sampled_from([b"\xfd\x03\x03\xfd", b"\xfe\x01\x01\xfe", b"\xf7\x0a\x0a\xf7", b"\xfd\x03\x00\x01", b"\xfe\x01\x00\x00", b"\xeb\x17\xa6\x03",
                                   b"\xfc\x05\x05\xfc", b"\xfc\x04\x05\xfc" if kind == "gbl" else b"\xfc\x03\0\0"]),
                  st.binary(min_size=4, max_size=4)).map(bytes.hex),
        st.one_of(st.binary(max_size=24), st.binary(min_size=1, max_size=6).map(lambda x: x * 12), st.just(b""), st.just(GBL_END + b"\x04\0\0\0"),
                  st.just(b"\xff" * 40)).map(bytes.hex)).map(list), max_size=2 if small else 5))
    end = GBL_END.hex() if kind == "gbl" else EBL_END.hex()
    tags = [x for x in tags if not x[0].startswith(end)]
    return {"kind": kind, "head": draw(st.binary(max_size=12)).hex(), "tags": tags,
            "pad": draw(st.one_of(st.just(b""), st.binary(max_size=9), st.just(b"\xff" * 5))).hex()}


MUTS = st.lists(st.tuples(st.sampled_from(["set", "flip", "flip", "swap", "cut", "del", "ins", "pad", "recrc", "recrc"]), st.integers(0, 500), st.integers(0, 255)).map(list),
                max_size=3)


@st.composite
def sound_st(draw):
    c = draw(fw_st())
    c["xor"] = draw(st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 0xFF]), st.integers(1, 255)))
    c["ext"] = draw(st.one_of(st.just(b""), st.just(b"\xff" * 64), st.just(b"\xff" * 63 + b"\xfe"), st.binary(max_size=64))).hex()
    return c


def mut_st():
    return st.fixed_dictionaries({"fw": fw_st(), "muts": MUTS})


@st.composite
def ota_st(draw):
    els = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["fw", "fw", "fw", "bad", "raw"]))
        e = {"kind": "raw" if k == "raw" else "fw", "tag": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 0xF000]))}
        if k == "raw":
            e["data"] = draw(st.one_of(st.binary(max_size=20), st.just(GBL_MAGIC), st.just(EBL_MAGIC), st.just(b""))).hex()
        else:
            e["fw"] = draw(fw_st(small=True))
            e["muts"] = [] if k == "fw" else draw(MUTS)
        els.append(e)
    return {"els": els, "hue": draw(st.integers(0, 9)) == 0}


CHECK = Check(
    "C19",
    rule="a container with content, or one that was changed, or an image with several upgrade images",
    assumptions=["data after the end tag of a GBL container is padding and not judged"],
    suites=[Suite("sound", run_sound, strategy=sound_st, quick=1200, thorough=20000),
            Suite("mutated", run_mut, strategy=mut_st, quick=5000, thorough=150000),
            Suite("images", run_ota, strategy=ota_st, quick=2500, thorough=40000)])
