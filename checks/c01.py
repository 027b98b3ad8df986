"""C01: wire data types."""
from __future__ import annotations

import importlib
import math
import pkgutil
import struct

from vlib.core import Check, Discard, Suite, Violation, b2h, check, check_eq, h2b, short, one_of

import zigpy.types as t
import zigpy.zcl.foundation as f
import zigpy.zcl.clusters
import zigpy.zdo.types as zdo_t

from hypothesis import strategies as st

# ---------------------------------------------------------------- reference table
# name -> (bits, signed, byteorder); transcribed from the Zigbee/ZCL specifications.
INTS = {}
for n in (8, 16, 24, 32, 40, 48, 56, 64):
    INTS[f"uint{n}_t"] = (n, False, "little")
    INTS[f"int{n}s"] = (n, True, "little")
    if n > 8:
        INTS[f"uint{n}_t_be"] = (n, False, "big")
        INTS[f"int{n}s_be"] = (n, True, "big")
for n in (8, 16, 24, 32, 40, 48, 56, 64):
    INTS[f"bitmap{n}"] = (n, False, "little")
    if n > 8:
        INTS[f"bitmap{n}_be"] = (n, False, "big")
for n in (8, 16, 32):
    INTS[f"enum{n}"] = (n, False, "little")
    if n > 8:
        INTS[f"enum{n}_be"] = (n, False, "big")
for nm, n in {"NWK": 16, "PanId": 16, "Group": 16, "ClusterId": 16, "AttributeId": 16,
              "BACNetOid": 32, "UTCTime": 32, "StandardTime": 32, "LocalTime": 32,
              "Bool": 8, "BroadcastAddress": 16, "Channels": 32}.items():
    INTS[nm] = (n, False, "little")
SUB = {}
for n in range(1, 8):
    SUB[f"uint{n}_t"] = n
    SUB[f"enum{n}"] = n
    if n > 1:
        SUB[f"bitmap{n}"] = n
FLOATS = {"Half": ("<e", 5, 10), "Single": ("<f", 8, 23), "Double": ("<d", 11, 52)}
FIXEDBYTES = {"EUI64": 8, "ExtendedPanId": 8, "KeyData": 16,
              **{f"data{8 * k}": k for k in range(1, 9)}}

SUFFIX = st.binary(max_size=6).map(b2h)


def boundary_int(bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    pts = {lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, 0x0102030405060708 & hi}
    for k in range(8, bits, 8):
        pts |= {(1 << k) - 1, 1 << k}
    pts = sorted(p for p in pts if lo <= p <= hi)
    return st.one_of(st.integers(lo, hi), st.sampled_from(pts))


# ---------------------------------------------------------------- type expressions
# A type expression is JSON; build(expr) gives the library type, values(expr) a strategy
# of JSON values, mk(expr, v) the library value and ref(expr, v) the reference bytes.

def build(e):
    k = e[0]
    if k in ("int", "float", "fixed"):
        return getattr(t, e[1])
    if k == "octets":
        return {1: t.LVBytes, 2: t.LongOctetString}[e[1]]
    if k == "string":
        return {1: t.CharacterString, 2: t.LongCharacterString}[e[1]]
    if k == "limoctets":
        return t.LimitedLVBytes(e[1])
    if k == "limstring":
        return t.LimitedCharString(e[1])
    if k == "octets2":
        return t.LVBytesSize2
    if k == "relays":
        return t.Relays
    if k == "date":
        return t.Date
    if k == "tod":
        return t.TimeOfDay
    if k == "nodata":
        return t.NoData
    if k == "list":
        return t.List[build(e[1])]
    if k == "lvlist":
        return t.LVList[build(e[1]), getattr(t, e[2])]
    if k == "fixedlist":
        return t.FixedList[build(e[1]), e[2]]
    if k == "typevalue":
        return f.TypeValue
    if k in ("array", "set", "bag"):
        return {"array": f.Array, "set": f.Set, "bag": f.Bag}[k]
    if k == "zclstruct":
        return f.ZCLStructure
    raise AssertionError(k)


def strings(maxlen):
    ch = st.characters(exclude_characters="\x00", exclude_categories=["Cs"])
    wide = st.sampled_from("äß漢😀é\u07ff\uffff")
    s = st.one_of(st.text(ch, max_size=20),
                  st.text(st.one_of(wide, ch), max_size=12),
                  st.tuples(st.sampled_from("aé漢😀"), st.integers(0, maxlen)).map(
                      lambda p: p[0] * min(p[1], maxlen)))
    return s


# ZCL type id -> expression, per ZCL specification table 2-10
ZCL = {0x00: ["nodata"], 0x10: ["int", "Bool"], 0xE0: ["tod"], 0xE1: ["date"],
       0xE2: ["int", "UTCTime"], 0xE8: ["int", "ClusterId"], 0xE9: ["int", "AttributeId"],
       0xEA: ["int", "BACNetOid"], 0xF0: ["fixed", "EUI64"], 0xF1: ["fixed", "KeyData"],
       0x30: ["int", "enum8"], 0x31: ["int", "enum16"], 0x38: ["float", "Half"],
       0x39: ["float", "Single"], 0x3A: ["float", "Double"], 0x41: ["octets", 1],
       0x42: ["string", 1], 0x43: ["octets", 2], 0x44: ["string", 2]}
for i in range(8):
    ZCL[0x08 + i] = ["fixed", f"data{8 * i + 8}"]
    ZCL[0x18 + i] = ["int", f"bitmap{8 * i + 8}"]
    ZCL[0x20 + i] = ["int", f"uint{8 * i + 8}_t"]
    ZCL[0x28 + i] = ["int", f"int{8 * i + 8}s"]
ANALOG = set(range(0x20, 0x30)) | {0x38, 0x39, 0x3A, 0xE0, 0xE1, 0xE2}
COMPOSITE = {0x48: "array", 0x4C: "zclstruct", 0x50: "set", 0x51: "bag"}
# invalid ("non-value") patterns of the specification: type id -> bytes
NONVALUE = {0x10: "ff", 0x30: "ff", 0x31: "ffff", 0xE0: "ff" * 4, 0xE1: "ff" * 4,
            0xE2: "ff" * 4, 0xE8: "ffff", 0xE9: "ffff", 0xEA: "ff" * 4, 0xF0: "ff" * 8,
            0xF1: "ff" * 16}
for i in range(8):
    NONVALUE[0x20 + i] = "ff" * (i + 1)
    NONVALUE[0x28 + i] = "00" * i + "80"


def float_bits(name):
    _, eb, fb = FLOATS[name]
    size = 1 + eb + fb
    emax = (1 << eb) - 1

    def mkb(tup):
        s, e, m = tup
        return (s << (eb + fb)) | (e << fb) | m

    return st.tuples(
        st.integers(0, 1),
        st.one_of(st.integers(0, emax), st.sampled_from([0, 1, 2, emax - 1, emax])),
        st.one_of(st.integers(0, (1 << fb) - 1), st.sampled_from([0, 1, (1 << fb) - 1]))
    ).map(mkb)


def values(e):
    k = e[0]
    if k == "int":
        b, s, _ = INTS[e[1]]
        return boundary_int(b, s)
    if k == "float":
        return float_bits(e[1])
    if k == "fixed":
        n = FIXEDBYTES[e[1]]
        return st.binary(min_size=n, max_size=n).map(b2h)
    if k == "octets":
        m = 254 if e[1] == 1 else 700
        return st.one_of(st.binary(max_size=12), st.integers(0, m).map(
            lambda n: bytes(i * 7 & 0xFF for i in range(n))),
            st.sampled_from([253, 254] if e[1] == 1 else [253, 254, 255, 256, 511, 512, 65534])
            .map(lambda n: b"\xff" * n)).map(b2h)
    if k == "string":
        m = 254 if e[1] == 1 else 600
        return strings(m).map(lambda s: _clip(s, m)) if e[1] == 1 else st.one_of(
            strings(m), st.sampled_from([254, 255, 256, 257, 65534]).map(lambda n: "x" * n),
            st.none()) if e[1] == 2 else None
    if k == "limoctets":
        return st.binary(max_size=e[1]).map(b2h)
    if k == "limstring":
        return strings(e[1]).map(lambda s: _clip(s, e[1]))
    if k == "octets2":
        return st.binary(min_size=2, max_size=2).map(b2h)
    if k == "relays":
        return st.lists(boundary_int(16, False), max_size=12)
    if k in ("date", "tod"):
        return st.lists(boundary_int(8, False), min_size=4, max_size=4)
    if k == "nodata":
        return st.just(0)
    if k == "list":
        return st.lists(values(e[1]), max_size=6)
    if k == "lvlist":
        cap = {"uint8_t": 255, "uint16_t": 300}[e[2]]
        return st.one_of(st.lists(values(e[1]), max_size=6),
                         st.tuples(values(e[1]), st.sampled_from([cap, cap - 1, 128]))
                         .map(lambda p: [p[0]] * p[1]) if e[1][0] == "int"
                         else st.lists(values(e[1]), max_size=3))
    if k == "fixedlist":
        return st.lists(values(e[1]), min_size=e[2], max_size=e[2])
    if k == "typevalue":
        return st.sampled_from(sorted(ZCL) + sorted(COMPOSITE)).flatmap(
            lambda i: st.tuples(st.just(i), values(zcl_expr(i))).map(list))
    if k in ("array", "set", "bag"):
        return st.sampled_from(sorted(ZCL)[1:]).flatmap(
            lambda i: st.tuples(st.just(i), st.lists(values(ZCL[i]), max_size=4)).map(list))
    if k == "zclstruct":
        return st.lists(st.sampled_from(sorted(ZCL)).flatmap(
            lambda i: st.tuples(st.just(i), values(ZCL[i])).map(list)), max_size=4)
    raise AssertionError(k)


def zcl_expr(i):
    return ZCL[i] if i in ZCL else [COMPOSITE[i]]


def _clip(s, n):
    while len(s.encode("utf8")) > n:
        s = s[:-1]
    return s


def mk(e, v):
    k = e[0]
    T = build(e)
    if k == "int":
        return T(v)
    if k == "float":
        fmt = FLOATS[e[1]][0]
        return T(struct.unpack(fmt, v.to_bytes(struct.calcsize(fmt), "little"))[0])
    if k == "fixed":
        return T([t.uint8_t(x) for x in h2b(v)])
    if k in ("octets", "limoctets", "octets2"):
        return T(h2b(v))
    if k in ("string", "limstring"):
        return T("", invalid=True) if v is None else T(v)
    if k == "relays":
        return T([t.NWK(x) for x in v])
    if k == "date":
        return T(years_since_1900=v[0], month=v[1], day=v[2], day_of_week=v[3])
    if k == "tod":
        return T(hours=v[0], minutes=v[1], seconds=v[2], hundredths=v[3])
    if k == "nodata":
        return T()
    if k in ("list", "lvlist", "fixedlist"):
        return T([mk(e[1], x) for x in v])
    if k == "typevalue":
        return T(t.uint8_t(v[0]), mk(zcl_expr(v[0]), v[1]))
    if k in ("array", "set", "bag"):
        it = build(ZCL[v[0]])
        return T(t.uint8_t(v[0]), t.LVList[it, t.uint16_t]([mk(ZCL[v[0]], x) for x in v[1]]))
    if k == "zclstruct":
        return T([f.TypeValue(t.uint8_t(i), mk(ZCL[i], x)) for i, x in v])
    raise AssertionError(k)


def ref(e, v):
    k = e[0]
    if k == "int":
        b, s, o = INTS[e[1]]
        return v.to_bytes(b // 8, o, signed=s)
    if k == "float":
        return v.to_bytes(struct.calcsize(FLOATS[e[1]][0]), "little")
    if k == "fixed":
        return h2b(v)
    if k == "octets":
        return (len(v) // 2).to_bytes(e[1], "little") + h2b(v)
    if k in ("limoctets", "octets2"):
        return bytes([len(v) // 2]) + h2b(v)
    if k in ("string", "limstring"):
        n = e[1] if k == "string" else 1
        if v is None:
            return b"\xff" * n
        raw = v.encode("utf8")
        return len(raw).to_bytes(n, "little") + raw
    if k == "relays":
        return bytes([len(v)]) + b"".join(x.to_bytes(2, "little") for x in v)
    if k in ("date", "tod"):
        return bytes(v)
    if k == "nodata":
        return b""
    if k in ("list", "fixedlist"):
        return b"".join(ref(e[1], x) for x in v)
    if k == "lvlist":
        return len(v).to_bytes({"uint8_t": 1, "uint16_t": 2}[e[2]], "little") + b"".join(
            ref(e[1], x) for x in v)
    if k == "typevalue":
        return bytes([v[0]]) + ref(zcl_expr(v[0]), v[1])
    if k in ("array", "set", "bag"):
        return bytes([v[0]]) + len(v[1]).to_bytes(2, "little") + b"".join(
            ref(ZCL[v[0]], x) for x in v[1])
    if k == "zclstruct":
        return len(v).to_bytes(2, "little") + b"".join(bytes([i]) + ref(ZCL[i], x) for i, x in v)
    raise AssertionError(k)


def same(a, b, e, v):
    """Equality of library values that is aware of NaN and of value-less types."""
    k = e[0]
    if k == "float":
        return (math.isnan(a) and math.isnan(b)) or (
            a == b and math.copysign(1, a) == math.copysign(1, b))
    if k == "nodata":
        return True
    if k in ("string", "limstring"):
        return a == b and a.invalid == b.invalid
    if k in ("list", "lvlist", "fixedlist"):
        return len(a) == len(b) and all(same(x, y, e[1], z) for x, y, z in zip(a, b, v))
    if k == "typevalue":
        return a.type == b.type and same(a.value, b.value, zcl_expr(v[0]), v[1])
    if k in ("array", "set", "bag"):
        return a.type == b.type and len(a.value) == len(b.value) and all(
            same(x, y, ZCL[v[0]], z) for x, y, z in zip(a.value, b.value, v[1]))
    if k == "zclstruct":
        return len(a) == len(b) and all(
            x.type == y.type and same(x.value, y.value, ZCL[z[0]], z[1])
            for x, y, z in zip(a, b, v))
    return a == b


def has_nan(e, v):
    k = e[0]
    if k == "float":
        fmt = FLOATS[e[1]][0]
        return math.isnan(struct.unpack(fmt, v.to_bytes(struct.calcsize(fmt), "little"))[0])
    if k in ("list", "lvlist", "fixedlist"):
        return any(has_nan(e[1], x) for x in v)
    if k == "typevalue":
        return has_nan(zcl_expr(v[0]), v[1])
    if k in ("array", "set", "bag"):
        return any(has_nan(ZCL[v[0]], x) for x in v[1])
    if k == "zclstruct":
        return any(has_nan(ZCL[i], x) for i, x in v)
    return False


def greedy(e):
    return e[0] == "list"


def boundaries(e, v):
    out = {0}
    n = 0
    for x in v:
        n += len(ref(e[1], x))
        out.add(n)
    return out


LEAF = st.one_of(
    st.sampled_from(sorted(INTS)).map(lambda n: ["int", n]),
    st.sampled_from(sorted(FLOATS)).map(lambda n: ["float", n]),
    st.sampled_from(sorted(FIXEDBYTES)).map(lambda n: ["fixed", n]),
    st.sampled_from([["octets", 1], ["octets", 2], ["string", 1], ["string", 2],
                     ["octets2"], ["relays"], ["date"], ["tod"]]),
    st.integers(1, 40).map(lambda n: ["limoctets", n]),
    st.integers(1, 40).map(lambda n: ["limstring", n]),
    st.sampled_from([["typevalue"], ["array"], ["set"], ["bag"], ["zclstruct"], ["nodata"]]),
)
ITEM = LEAF.filter(lambda e: e[0] != "nodata")
COMP = st.one_of(
    ITEM.map(lambda e: ["list", e]),
    st.tuples(ITEM, st.sampled_from(["uint8_t", "uint16_t"])).map(lambda p: ["lvlist", *p]),
    st.tuples(ITEM, st.integers(0, 5)).map(lambda p: ["fixedlist", *p]),
)
COMP2 = COMP.filter(lambda e: e[0] != "list").flatmap(lambda e: st.one_of(
    st.just(["list", e]) if not (e[0] == "fixedlist" and e[2] == 0) else st.just(e),
    st.just(["lvlist", e, "uint8_t"]), st.integers(0, 3).map(lambda n: ["fixedlist", e, n])))


def roundtrip_strategy():
    ex = one_of(LEAF, LEAF, LEAF, COMP, COMP2)
    return ex.flatmap(lambda e: st.tuples(values(e), SUFFIX).map(
        lambda p: {"type": e, "value": p[0], "suffix": p[1]}))


def run_roundtrip(case):
    e, v, suffix = case["type"], case["value"], h2b(case["suffix"])
    T = build(e)
    expected = ref(e, v)
    val = mk(e, v)
    out = val.serialize()
    nan = has_nan(e, v)
    if not nan:
        check(bytes(out) == expected, "%s(%s) encodes as %s, specification says %s",
              e, short(v), b2h(out)[:200], b2h(expected)[:200])
    else:
        check_eq(len(out), len(expected), f"encoded length of {e}")
        out = expected
    tail = b"" if greedy(e) else suffix
    got, rest = T.deserialize(bytes(out) + tail)
    check(bytes(rest) == tail, "decoding %s left %s instead of %s", e, rest, tail)
    check(same(got, val, e, v), "%s decoded to %s, was %s", e, short(got), short(val))
    if not isinstance(got, (float,)) and e[0] not in ("nodata",):
        check(isinstance(got, T), "%s decoded to a %s", e, type(got))
    again = got.serialize()
    if not nan:
        check(bytes(again) == bytes(out), "re-encoding %s gives %s instead of %s",
              e, b2h(again)[:200], b2h(out)[:200])
    # truncation
    n = len(out)
    cuts = range(n) if n <= 40 else sorted({0, 1, 2, 3, n // 2, n - 2, n - 1})
    ok = boundaries(e, v) if greedy(e) else ()
    for c in cuts:
        if c in ok:
            continue
        try:
            r = T.deserialize(bytes(out[:c]))
        except ValueError:
            continue
        raise Violation(f"{e}: {c} of {n} bytes ({b2h(out[:c])}) were accepted as {short(r)}")
    return {"nontrivial": True, "labels": [e[0]]}


# ---------------------------------------------------------------- rejection
def reject_strategy():
    def bad_int(name):
        b, s, _ = INTS[name]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        return st.one_of(st.integers(hi + 1, hi * 4 + 9), st.integers(lo - hi * 2 - 9, lo - 1),
                         st.sampled_from([hi + 1, lo - 1])).map(
            lambda v: {"kind": "int", "type": name, "value": v})

    def bad_sub(name):
        hi = (1 << SUB[name]) - 1
        return st.one_of(st.integers(hi + 1, 4 * hi + 9), st.integers(-9, -1)).map(
            lambda v: {"kind": "int", "type": name, "value": v})

    bm = [n for n in INTS if n.startswith("bitmap") or n == "Channels"]
    plain = [n for n in INTS if n not in bm]
    return st.one_of(
        st.sampled_from(sorted(plain)).flatmap(bad_int),
        st.sampled_from(sorted(n for n in SUB if not n.startswith("bitmap"))).flatmap(bad_sub),
        st.sampled_from(sorted(bm)).flatmap(
            lambda n: st.integers(1 << INTS[n][0], 1 << (INTS[n][0] + 3)).map(
                lambda v: {"kind": "int", "type": n, "value": v})),
        st.tuples(st.sampled_from(["Half", "Single"]), st.integers(0, 1),
                  st.floats(1, 1e200)).map(
            lambda p: {"kind": "float", "type": p[0], "neg": p[1], "scale": p[2]}),
        st.integers(255, 300).map(lambda n: {"kind": "octets", "len": n}),
        st.tuples(st.sampled_from("aé漢😀"), st.integers(0, 40)).map(
            lambda p: {"kind": "string", "ch": p[0], "extra": p[1]}),
        st.tuples(st.integers(1, 30), st.sampled_from("aé漢😀"), st.booleans()).map(
            lambda p: {"kind": "limited", "max": p[0], "ch": p[1], "text": p[2]}),
        st.integers(65535, 65600).map(lambda n: {"kind": "longoctets", "len": n}),
        st.integers(256, 300).map(lambda n: {"kind": "lvlist", "len": n}),
        st.tuples(st.integers(0, 9), st.integers(0, 9)).map(
            lambda p: {"kind": "fixedlist", "want": p[0], "len": p[1]}),
        st.tuples(st.sampled_from(sorted(INTS)), st.integers(0, 2)).map(
            lambda p: {"kind": "listitem", "type": p[0], "where": p[1]}),
        st.integers(0, 9).filter(lambda n: n != 2).map(lambda n: {"kind": "size2", "len": n}),
        st.one_of(st.integers(-5, 10), st.integers(27, 40)).map(
            lambda c: {"kind": "channel", "value": c}),
    )


def expect_value_error(fn, what):
    try:
        r = fn()
    except ValueError:
        return
    raise Violation(f"{what} was accepted: {short(r)}")


def run_reject(case):
    k = case["kind"]
    if k == "int":
        T = getattr(t, case["type"])
        expect_value_error(lambda: T(case["value"]), f"{case['type']}({case['value']})")
    elif k == "float":
        T = getattr(t, case["type"])
        lim = {"Half": 65520.0, "Single": 3.4028235677973366e38}[case["type"]]
        v = lim * case["scale"] * (-1 if case["neg"] else 1)
        if math.isinf(v):
            raise Discard
        expect_value_error(lambda: T(v).serialize(), f"{case['type']}({v}).serialize()")
    elif k == "octets":
        expect_value_error(lambda: t.LVBytes(bytes(case["len"])).serialize(), f"octets {case}")
    elif k == "longoctets":
        expect_value_error(lambda: t.LongOctetString(bytes(case["len"])).serialize(), f"{case}")
        expect_value_error(lambda: t.LongCharacterString("a" * case["len"]).serialize(), f"{case}")
    elif k == "string":
        w = len(case["ch"].encode())
        s = case["ch"] * ((254 // w) + 1 + case["extra"])
        expect_value_error(lambda: t.CharacterString(s).serialize(),
                           f"character string of {len(s.encode())} bytes")
    elif k == "limited":
        w = len(case["ch"].encode())
        s = case["ch"] * (case["max"] // w + 1)
        if case["text"]:
            T = t.LimitedCharString(case["max"])
            # the limit is in characters or bytes: exceed both
            s = case["ch"] * (case["max"] + 1)
            expect_value_error(lambda: T(s).serialize(), f"limited string {case}")
        else:
            T = t.LimitedLVBytes(case["max"])
            expect_value_error(lambda: T(b"x" * (case["max"] + 1)).serialize(), f"{case}")
    elif k == "lvlist":
        expect_value_error(
            lambda: t.LVList[t.uint8_t]([0] * case["len"]).serialize(), f"{case}")
    elif k == "fixedlist":
        if case["want"] == case["len"]:
            raise Discard
        expect_value_error(
            lambda: t.FixedList[t.uint8_t, case["want"]]([1] * case["len"]).serialize(), f"{case}")
    elif k == "listitem":
        b, s, _ = INTS[case["type"]]
        T = getattr(t, case["type"])
        hi = (1 << (b - 1)) if s else (1 << b)
        lst = [0, 0, 0]
        lst[case["where"]] = hi
        expect_value_error(lambda: t.LVList[T](lst).serialize(), f"list item {hi} of {T}")
    elif k == "size2":
        expect_value_error(lambda: t.LVBytesSize2(bytes(case["len"])).serialize(), f"{case}")
        expect_value_error(
            lambda: t.LVBytesSize2.deserialize(bytes([case["len"]]) + bytes(case["len"])),
            f"{case}")
    elif k == "channel":
        expect_value_error(lambda: t.Channels.from_channel_list([case["value"]]), f"{case}")
    return {"labels": [k]}


# ---------------------------------------------------------------- sub-byte, bits
def bits_strategy():
    one = st.sampled_from(sorted(SUB) + ["uint8_t", "uint16_t", "int8s", "enum8", "bitmap16"])

    def val(n):
        bits = SUB.get(n) or INTS[n][0]
        signed = n == "int8s"
        return boundary_int(bits, signed).map(lambda v: [n, v])

    return st.lists(one.flatmap(val), min_size=1, max_size=7)


def run_bits(case):
    """Packing a segment of integers LSB first, and unpacking it again."""
    acc = 0
    pos = 0
    objs = []
    for name, v in case:
        T = getattr(t, name)
        bits = SUB.get(name) or INTS[name][0]
        o = T(v)
        check(int(o) == v, "%s(%s) is %s", name, v, o)
        objs.append((T, o, bits))
        acc |= (v & ((1 << bits) - 1)) << pos
        pos += bits
    bl = t.Bits.from_bitfields([o for _, o, _ in objs])
    check_eq(len(bl), pos, "number of bits")
    check_eq(int("".join(str(b) for b in bl), 2), acc, "packed bits")
    rest = bl
    for T, o, bits in objs:
        got, rest = T.from_bits(rest)
        check(got == o and type(got) is type(o), "unpacked %s, packed %s", got, o)
    check(not rest, "bits left over: %s", rest)
    if pos % 8 == 0:
        ser = bl.serialize()
        # the segment is a bit string, most significant bit first
        check_eq(ser, acc.to_bytes(pos // 8, "big"), "bytes of the bit string")
        back, r = t.Bits.deserialize(ser)
        check(back == bl and r == b"", "bits after the byte round trip: %s", back)
    else:
        expect_value_error(bl.serialize, "bits not on a byte boundary")
    for T, o, bits in objs:
        expect_value_error(lambda: T.from_bits(t.Bits([0] * (bits - 1))), f"{bits - 1} bits for {T}")
    return True


# ---------------------------------------------------------------- enumerations, bitmaps
def int_classes():
    """Every named enumeration and bitmap the package defines."""
    import zigpy
    seen = {}
    for m in pkgutil.walk_packages(zigpy.__path__, "zigpy."):
        mod = importlib.import_module(m.name)
        stack = [(m.name, v) for v in vars(mod).values() if isinstance(v, type)]
        done = set()
        while stack:
            modname, c = stack.pop()
            if c in done:
                continue
            done.add(c)
            if getattr(c, "__module__", "").startswith("zigpy"):
                stack += [(modname, v) for k, v in vars(c).items()
                          if isinstance(v, type) and not k.startswith("__")]
                if issubclass(c, t.FixedIntType) and hasattr(c, "__members__") and c.__members__:
                    seen[f"{c.__module__}:{c.__qualname__}"] = c
    return dict(sorted(seen.items()))


CLASSES = int_classes()


def enum_strategy():
    def vals(name):
        c = CLASSES[name]
        hi = c.max_value
        mem = [int(m.value) for m in c.__members__.values()]
        return st.one_of(st.integers(0, hi), st.sampled_from(mem),
                         st.sampled_from([0, 1, hi])).map(lambda v: {"cls": name, "value": v})
    return st.sampled_from(sorted(CLASSES)).flatmap(vals)


def run_enum(case):
    c = CLASSES.get(case["cls"])
    if c is None:
        raise Discard
    v = case["value"]
    import enum
    o = c(v)
    check(isinstance(o, c) and int(o) == v and o == v, "%s(%s) is %r", c, v, o)
    bits = (c.max_value + 1).bit_length() - 1
    if bits % 8 == 0:
        out = o.serialize()
        if case["cls"].endswith(":PowerSource"):
            # bit 7 of a power source is a flag of its own
            got, rest = c.deserialize(out + b"zz")
            check(int(got) == v & 0x7F and got.battery_backup == bool(v & 0x80)
                  and rest == b"zz" and len(out) == 1 and out[0] == v, "power source %s: %r", v, got)
            return True
        check(len(out) == bits // 8 and int.from_bytes(
            out, "big" if "_be" in "".join(k.__name__ for k in c.__mro__) else "little") == v,
            "%r encodes as %s", o, out)
        got, rest = c.deserialize(out + b"zz")
        check(got == o and isinstance(got, c) and rest == b"zz", "%r decoded as %r", o, got)
        check(int(got) == v, "%r", got)
    else:
        b = o.bits()
        got, rest = c.from_bits(t.Bits([1, 0] + b))
        check(got == o and isinstance(got, c) and rest == [1, 0], "%r from bits %r", o, got)
    if not issubclass(c, enum.Flag):
        named = [m for m in c.__members__.values() if int(m.value) == v]
        if named:
            check(o is named[0], "%r is not the member %r", o, named[0])
            for nm, m in c.__members__.items():
                if int(m.value) == v:
                    for text in (nm, f"{c.__name__}.{nm}"):
                        try:
                            p = c(text)
                        except (KeyError, ValueError):
                            p = None
                        check(p is m, "%s(%r) is %r, not %r", c, text, p, m)
        for text in (str(v), f"0x{v:X}", f"0x{v:08x}"):
            check(c(text) == o, "%s(%r) is %r", c, text, c(text))
    else:
        full = c.max_value
        w = (v * 2654435761) & full
        p = c(w)
        for a, b2, nm in ((o | p, v | w, "|"), (o & p, v & w, "&"), (o ^ p, v ^ w, "^")):
            check(int(a) == b2 and isinstance(a, c), "%r %s %r gave %r", o, nm, p, a)
        for m in c.__members__.values():
            if int(m.value) and not (v & ~full):
                check((m in o) == (v & int(m.value) == int(m.value)),
                      "membership of %r in %r", m, o)
    return {"nontrivial": True}


# ---------------------------------------------------------------- text forms
def text_strategy():
    sep = st.sampled_from(["", ":", " "])
    return st.one_of(
        st.tuples(st.sampled_from(["EUI64", "ExtendedPanId"]), st.binary(min_size=8, max_size=8)
                  .map(b2h), sep, st.booleans()).map(list),
        st.tuples(st.just("KeyData"), st.binary(min_size=16, max_size=16).map(b2h), sep,
                  st.booleans()).map(list),
        st.tuples(st.sampled_from(["NWK", "PanId"]), boundary_int(16, False), st.just(""),
                  st.booleans()).map(list),
        st.tuples(st.just("Channels"), st.lists(st.integers(11, 26), max_size=16), st.just(""),
                  st.booleans()).map(list),
        st.tuples(st.just("badmask"), st.integers(0, 2**32 - 1), st.just(""), st.booleans())
        .map(list),
        st.tuples(st.just("hash"), st.binary(min_size=8, max_size=8).map(b2h),
                  st.binary(min_size=8, max_size=8).map(b2h), st.booleans()).map(list),
        st.tuples(st.just("date"), st.integers(1900, 2155), st.just(""), st.booleans()).map(list),
    )


def run_text(case):
    kind, v, sep, up = case
    if kind in ("EUI64", "ExtendedPanId", "KeyData"):
        T = getattr(t, kind)
        raw = h2b(v)
        order = raw[::-1] if kind != "KeyData" else raw
        text = sep.join(f"{b:02x}" for b in order)
        if up:
            text = text.upper()
        o = T.convert(text)
        check(isinstance(o, T) and bytes(o.serialize()) == raw, "%s.convert(%r) = %r", kind, text, o)
        check(repr(o) == ":".join(f"{b:02x}" for b in order), "repr of %s is %r", v, repr(o))
        check(T.convert(repr(o)) == o, "text form of %r does not parse back", o)
        if kind != "KeyData":
            check(hash(T.convert(repr(o))) == hash(o), "hash differs for %r", o)
        for bad in (text[:-1], text + "0", text + "00"):
            try:
                r = T.convert(bad)
            except (ValueError, AssertionError):
                continue
            raise Violation(f"{kind}.convert({bad!r}) was accepted: {r!r}")
    elif kind in ("NWK", "PanId"):
        T = getattr(t, kind)
        text = f"{v:04X}" if up else f"{v:04x}"
        check(T.convert(text) == v and type(T.convert(text)) is T, "%s.convert(%r)", kind, text)
        check(int(repr(T(v)), 16) == v and repr(T(v)) == f"0x{v:04X}", "repr %r", T(v))
    elif kind == "Channels":
        m = t.Channels.from_channel_list(v)
        check(int(m) == sum(1 << c for c in set(v)), "mask of %s is %s", v, int(m))
        check(list(m) == sorted(set(v)), "channels of %r are %s", m, list(m))
        check(t.Channels.from_channel_list(m) == m, "%r", m)
    elif kind == "badmask":
        m = t.Channels(v)
        if v & ~0x07FFF800:
            expect_value_error(lambda: list(m), f"iterating mask {v:#x}")
        else:
            check(list(m) == [c for c in range(11, 27) if v >> c & 1], "%r", m)
    elif kind == "hash":
        a, b = (t.EUI64([t.uint8_t(x) for x in h2b(x_)]) for x_ in (v, sep))
        check((a == b) == (v == sep), "equality of %r and %r", a, b)
        d = {a: 1}
        check((b in d) == (v == sep), "%r in dict with %r", b, a)
    elif kind == "date":
        d = t.Date(years_since_1900=0, month=1, day=2, day_of_week=3)
        d.year = v
        check(d.year == v and int(d.years_since_1900) == v - 1900, "year %s -> %r", v, d)
    return True


# ---------------------------------------------------------------- every half-precision float
def half_cases(tier):
    return [{"hi": h} for h in range(256)]


def run_half(case):
    for lo in range(256):
        raw = bytes([lo, case["hi"]])
        (want,) = struct.unpack("<e", raw)
        got, rest = t.Half.deserialize(raw + b"!")
        check(rest == b"!" and isinstance(got, t.Half), "%s -> %r", b2h(raw), got)
        if math.isnan(want):
            check(math.isnan(got), "%s decodes to %r", b2h(raw), got)
            continue
        check(got == want and math.copysign(1, got) == math.copysign(1, want),
              "%s decodes to %r, IEEE-754 says %r", b2h(raw), got, want)
        check(t.Half(want).serialize() == raw, "%r encodes as %s, IEEE-754 says %s", want,
              b2h(t.Half(want).serialize()), b2h(raw))
    return True


# ---------------------------------------------------------------- ZCL type table
def zcl_cases(tier):
    return [{"id": i} for i in sorted(set(ZCL) | set(COMPOSITE))]


def run_zcltable(case):
    i = case["id"]
    d = f.DataType.from_type_id(i)
    check(int(d.type_id) == i, "type id %s looked up as %s", i, d)
    want = build(zcl_expr(i))
    check(d.python_type is want, "type 0x%02x is %s, expected %s", i, d.python_type, want)
    check(f.DataType.from_python_type(want) is d, "%s maps to %s", want,
          f.DataType.from_python_type(want))

    # application types derived from a data type keep the data type
    sub = type("Derived", (want,), {}) if (
        not hasattr(want, "__members__") and not issubclass(want, float)) else None
    if sub is not None:
        check(f.DataType.from_python_type(sub) is d, "subclass of %s maps to %s", want,
              f.DataType.from_python_type(sub))
    if i in COMPOSITE:
        return True
    cls = (f.DataClass.Null if i == 0 else
           f.DataClass.Analog if i in ANALOG else f.DataClass.Discrete)
    check(d.type_class is cls, "type 0x%02x is %s, expected %s", i, d.type_class, cls)
    if i in NONVALUE:
        check(d.non_value is not None and b2h(d.non_value.serialize()) == NONVALUE[i],
              "non-value of 0x%02x encodes as %s, specification says %s", i,
              d.non_value and b2h(d.non_value.serialize()), NONVALUE[i])
    elif i in (0x38, 0x39, 0x3A):
        pass
    else:
        check(d.non_value is None, "0x%02x has a non-value %r", i, d.non_value)
    return True


# ---------------------------------------------------------------- arbitrary bytes
def valueless(v):
    """A collection of items of the "no data"/"unknown" types (not a legal ZCL value)."""
    if isinstance(v, f.TypeValue):
        return valueless(v.value)
    if isinstance(v, list):
        return any(isinstance(x, t.NoData) or valueless(x) for x in v)
    return False


DECODERS = st.one_of(LEAF, COMP)


def bytes_strategy():
    return st.tuples(DECODERS, st.binary(max_size=40).map(b2h)).map(
        lambda p: {"type": p[0], "data": p[1]})


def run_bytes(case):
    """Whatever decodes consumed a prefix that is an encoding of the decoded value."""
    e, data = case["type"], h2b(case["data"])
    T = build(e)
    try:
        val, rest = T.deserialize(data)
    except (ValueError, KeyError):
        return False
    rest = bytes(rest)
    check(data.endswith(rest) and len(rest) <= len(data), "remainder %s of %s", rest, data)
    used = data[: len(data) - len(rest)]
    check(len(used) > 0 or e[0] in ("nodata", "list", "fixedlist"), "%s decoded from nothing", e)
    if e[0] in ("string", "limstring"):
        n = e[1] if e[0] == "string" else 1
        raw = used[n:]
        if used == b"\xff" * n:
            check(val.invalid and val == "", "%r", val)
        else:
            check(not val.invalid and val == raw.split(b"\0")[0].decode("utf8", errors="replace")
                  and bytes(val.raw) == raw, "%s decoded as %r", b2h(used), val)
        return True
    if valueless(val):
        return {"nontrivial": False, "labels": ["collection-of-nothing"]}
    try:
        out = bytes(val.serialize())
    except ValueError:
        # e.g. a received 255-byte octet string, which must not be sent
        return {"labels": ["not-reencodable"]}
    if b"\x7c" in used or b"\x7e" in used or "Half" in str(e) or e[0] in (
            "typevalue", "array", "set", "bag", "zclstruct") or "string" in str(e) or \
            "float" in str(e) or "typevalue" in str(e) or "array" in str(e) or "zcl" in str(e) \
            or "set" in str(e) or "bag" in str(e):
        return True  # NaN payloads and broken UTF-8 need not re-encode identically
    check(out == used, "%s: %s decodes to %s which encodes as %s", e, b2h(used), short(val), b2h(out))
    return True


CHECK = Check(
    id="C01",
    rule="Cases are (type expression, value, trailing bytes) drawn over every exported scalar, "
         "string, list, address and ZCL type with boundary-biased values, compared with a "
         "reference encoder written from the specification, plus every truncation of each "
         "encoding; out-of-range values; bit segments; every value of every enumeration and "
         "bitmap class found in the package; text forms; arbitrary bytes. Non-trivial: the case "
         "reached an encode/decode comparison or a rejection (not discarded, and for arbitrary "
         "bytes: the bytes decoded).",
    assumptions=["the reference encoders in checks/c01.py state the wire format",
                 "character strings with embedded NULs are truncated at the NUL on decoding by "
                 "documented design and are excluded from the round trip"],
    suites=[
        Suite("roundtrip", run_roundtrip, strategy=roundtrip_strategy, quick=20000,
              thorough=1_000_000),
        Suite("reject", run_reject, strategy=reject_strategy, quick=8000, thorough=100_000, shards=4),
        Suite("bits", run_bits, strategy=bits_strategy, quick=6000, thorough=100_000, shards=4),
        Suite("enums", run_enum, strategy=enum_strategy, quick=12000, thorough=300_000, shards=4),
        Suite("text", run_text, strategy=text_strategy, quick=4000, thorough=80_000, shards=4),
        Suite("zcltable", run_zcltable, cases=zcl_cases, shards=1, thorough_shards=1),
        Suite("half", run_half, cases=half_cases, shards=2, thorough_shards=2),
        Suite("bytes", run_bytes, strategy=bytes_strategy, quick=8000, thorough=400_000, shards=4),
    ],
)
