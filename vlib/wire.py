"""Values and reference encodings for any type that appears in a command schema.

vals(T)   strategy of JSON values;  mk(T, v) library value;  enc(T, v) reference bytes.
The widths come from checks.c01's transcription of the specification, found by class name."""
from __future__ import annotations

from hypothesis import strategies as st

from checks import c01
from .core import b2h, h2b

import zigpy.types as t
import zigpy.zcl.foundation as f


def spec(T):
    """Type -> type expression of c01 (leafs), or ["struct"|"byte"|"reclist", ...]."""
    T = next(c for c in T.__mro__ if c.__name__ != "Optional")
    if issubclass(T, t.Struct) and T.fields:
        return ["struct"]
    names = [c.__name__ for c in T.__mro__]
    if issubclass(T, int):
        for n in names:
            if n in c01.INTS:
                return ["int", n]
            if n in c01.SUB:
                return ["sub", c01.SUB[n]]
        raise AssertionError(T)
    for n in names:
        if n in c01.FLOATS:
            return ["float", n]
        if n in c01.FIXEDBYTES:
            return ["fixed", n]
    if "LimitedCharString" in names:
        return ["limstring", T._max_len] if hasattr(T, "_max_len") else ["string", 1]
    if "LongCharacterString" in names:
        return ["string", 2]
    if "CharacterString" in names:
        return ["string", 1]
    if "LongOctetString" in names:
        return ["octets", 2]
    if "LVBytes" in names:
        return ["octets", 1]
    if issubclass(T, (t.LVList,)):
        return ["lv", T._item_type, T._length_type]
    if issubclass(T, t.List):
        return ["li", T._item_type]
    if T is f.TypeValue:
        return ["typevalue"]
    if "_SquawkOrWarningCommand" in names:
        return ["byte"]
    raise AssertionError(T)


def vals(T):
    e = spec(T)
    k = e[0]
    if k == "sub":
        return st.integers(0, (1 << e[1]) - 1)
    if k == "byte":
        return st.integers(0, 255)
    if k == "lv":
        return st.lists(vals(e[1]), max_size=5)
    if k == "li":
        return st.lists(vals(e[1]), max_size=5)
    if k == "struct":
        return struct_vals(T)
    if k == "string":
        return c01.strings(40).map(lambda s: c01._clip(s, 60))
    if k == "limstring":
        return c01.strings(e[1]).map(lambda s: c01._clip(s, e[1]))
    if k == "octets":
        if hasattr(T, "_max_len"):
            return st.binary(max_size=T._max_len).map(b2h)
        if any(c.__name__ == "LVBytesSize2" for c in T.__mro__):
            return st.binary(min_size=2, max_size=2).map(b2h)
        return st.binary(max_size=60).map(b2h)
    return c01.values(e).filter(lambda v: not c01.has_nan(e, v))


def struct_vals(T, required_only=False):
    """{field: value}; optional fields from the end may be absent (drawn)."""
    nopt = 0
    for fl in reversed(list(T.fields)):
        if not fl.optional:
            break
        nopt += 1

    @st.composite
    def go(draw):
        keep = draw(st.integers(0, nopt))
        names = [fl.name for fl in T.fields]
        names = names[: len(names) - nopt + keep]
        v = {}
        for fl in T.fields:
            if fl.name not in names:
                continue
            assert fl.type is not None
            x = draw(vals(fl.type))
            v[fl.name] = x
            if fl.requires is not None:
                inst = T(**{n: mk(g.type, v[n]) for g in T.fields
                            for n in [g.name] if n in v and n != fl.name})
                if not fl.requires(inst):
                    del v[fl.name]
        return v
    return go()


def mk(T, v):
    e = spec(T)
    k = e[0]
    T = next(c for c in T.__mro__ if c.__name__ != "Optional")
    if k == "byte":
        return T(v)
    if k in ("lv", "li"):
        return T([mk(e[1], x) for x in v])
    if k == "struct":
        return T(**{n: mk(getattr(T.fields, n).type, x) for n, x in v.items()})
    if k == "sub":
        return T(v)
    if k in ("int",):
        return T(v)
    if k == "fixed":
        return T([t.uint8_t(x) for x in h2b(v)])
    if k == "octets":
        return T(h2b(v))
    if k in ("string", "limstring"):
        return T(v) if v is not None else T("", invalid=True)
    return c01.mk(e, v)


def enc(T, v):
    e = spec(T)
    k = e[0]
    if k == "byte":
        return bytes([v])
    if k == "lv":
        n = {"uint8_t": 1, "uint16_t": 2}[e[2].__name__]
        return len(v).to_bytes(n, "little") + b"".join(enc(e[1], x) for x in v)
    if k == "li":
        return b"".join(enc(e[1], x) for x in v)
    if k == "struct":
        return enc_fields(T, v)
    return c01.ref(e, v)


def enc_fields(T, v):
    out = b""
    acc = pos = 0
    for fl in T.fields:
        if fl.name not in v:
            continue
        e = spec(fl.type)
        if e[0] == "sub" or (pos % 8 and e[0] == "int"):
            b = e[1] if e[0] == "sub" else c01.INTS[e[1]][0]
            acc |= (v[fl.name] & ((1 << b) - 1)) << pos
            pos += b
            if pos % 8 == 0:
                out += acc.to_bytes(pos // 8, "big")
                acc = pos = 0
            continue
        assert pos == 0
        out += enc(fl.type, v[fl.name])
    return out
