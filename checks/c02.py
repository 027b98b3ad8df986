"""C02: structure codec against an independent bit-level reference."""
from __future__ import annotations

import importlib

from vlib.core import Check, Discard, Suite, Violation, b2h, check, check_eq, h2b, short
from checks import c01

import zigpy.types as t

from hypothesis import strategies as st

# A structure definition is a list of segments:
#   {"k": "bits", "fields": [[type, nbits], ...], "opt": bool, "req": cond}
#   {"k": "plain", "type": expr, "opt": bool, "req": cond}
#   {"k": "struct", "segs": [...], "opt": bool, "req": cond}
#   {"k": "dyn", "on": field name, "opt": False, "req": None}   8/16-bit int or octets by a field
# cond: None or [field name, op, value] over an earlier one-field byte segment
BITINT = {**{f"uint{n}_t": n for n in range(1, 8)}, **{f"enum{n}": n for n in range(1, 8)},
          **{f"bitmap{n}": n for n in range(2, 8)}}
WIDE = {"uint8_t": 8, "enum8": 8, "bitmap8": 8, "uint16_t": 16, "uint24_t": 24}
SIGNED = {"int8s": 8, "int16s": 16}

PLAIN = st.one_of(
    st.sampled_from([["int", n] for n in
                     ("uint8_t", "uint16_t", "uint24_t", "uint32_t", "uint64_t", "int8s",
                      "int16s", "int32s", "uint16_t_be", "uint32_t_be", "enum8", "enum16",
                      "bitmap8", "bitmap16", "NWK", "Bool", "uint40_t", "bitmap24")]),
    st.sampled_from([["fixed", "EUI64"], ["fixed", "KeyData"], ["fixed", "data24"],
                     ["octets", 1], ["octets", 2], ["string", 1], ["relays"], ["date"],
                     ["float", "Single"], ["lvlist", ["int", "uint16_t"], "uint8_t"],
                     ["fixedlist", ["int", "NWK"], 2], ["array"]]),
)


@st.composite
def bit_segment(draw):
    total = draw(st.sampled_from([8, 8, 8, 16, 16, 24, 32]))
    left = total
    fields = []
    while left:
        cand = [n for n, b in BITINT.items() if b <= left]
        if left < total or draw(st.booleans()):
            cand += [n for n, b in {**WIDE, **SIGNED}.items()
                     if b <= left and (total - left) % 8 != 0]
        if not cand:
            break
        n = draw(st.sampled_from(cand))
        b = BITINT.get(n) or WIDE.get(n) or SIGNED[n]
        # a wide integer at a byte boundary would be a segment of its own
        fields.append([n, b])
        left -= b
        if (total - left) % 8 == 0:
            break  # a segment ends at the first byte boundary
    return {"k": "bits", "fields": fields}


@st.composite
def segs(draw, depth=0, allow_cond=True):
    n = draw(st.integers(1, 5 if depth == 0 else 3))
    out = []
    condable = []
    opt_started = False
    for i in range(n):
        kind = draw(st.sampled_from(["plain", "plain", "bits", "bits", "struct", "dyn"]
                                    if depth == 0 else ["plain", "bits"]))
        if kind == "bits":
            s = draw(bit_segment())
        elif kind == "struct":
            s = {"k": "struct", "segs": draw(segs(depth=1))}
        elif kind == "dyn" and condable:
            s = {"k": "dyn", "on": draw(st.sampled_from(condable))}
        else:
            s = {"k": "plain", "type": draw(PLAIN)}
        s["req"] = None
        if allow_cond and condable and draw(st.integers(0, 3)) == 0:
            s["req"] = [draw(st.sampled_from(condable)),
                        draw(st.sampled_from(["eq", "ne", "bit"])), draw(st.integers(0, 3))]
        s["opt"] = draw(st.integers(0, 5)) == 0
        out.append(s)
        if s["k"] == "plain" and s["type"] in (["int", "uint8_t"], ["int", "enum8"]) \
                and not s["opt"] and s["req"] is None and not opt_started:
            condable.append(f"f{i}_0")
        opt_started = opt_started or s["opt"]
    return out


def seg_values(draw, ss, ctx=None):
    """Values per segment: list aligned with ss; None = absent."""
    vals = []
    env = {}
    absent = False
    for i, s in enumerate(ss):
        req = holds(s["req"], env)
        stale = req is False and draw(st.integers(0, 4)) == 0
        if s["opt"] and req and (absent or draw(st.booleans())):
            absent = True
        if (s["opt"] and absent and req) or (req is False and not stale):
            vals.append(None)
            continue
        if s["k"] == "bits":
            v = []
            for n, b in s["fields"]:
                if n in SIGNED:
                    v.append(draw(c01.boundary_int(b, True)))
                else:
                    v.append(draw(c01.boundary_int(b, False)))
        elif s["k"] == "plain":
            if s["type"] in (["int", "uint8_t"], ["int", "enum8"]):
                v = draw(st.one_of(st.integers(0, 3), st.integers(0, 255)))
            else:
                v = draw(c01.values(s["type"]))
        elif s["k"] == "struct":
            v = seg_values(draw, s["segs"])
        else:
            on = env[s["on"]]
            v = draw(c01.values(dyn_expr(on)))
        if s["k"] == "plain":
            env[f"f{i}_0"] = v
        vals.append(v)
        if s["k"] == "struct" and any(x is None and holds2(s["segs"], v, j)
                                      for j, x in enumerate(v)):
            pass
    return vals


def dyn_expr(on):
    return [["int", "uint8_t"], ["int", "uint16_t"], ["octets", 1]][on % 3]


def holds(req, env):
    if req is None:
        return True
    name, op, val = req
    x = env.get(name)
    if x is None:
        return False
    return {"eq": x == val, "ne": x != val, "bit": bool(x >> val & 1)}[op]


def holds2(ss, vals, j):
    env = {f"f{i}_0": v for i, (s, v) in enumerate(zip(ss, vals)) if s["k"] == "plain"}
    return holds(ss[j]["req"], env)


def absent_tail_ok(ss, vals):
    """Once an optional segment is absent, nothing else may follow (else not decodable)."""
    gone = False
    for i, (s, v) in enumerate(zip(ss, vals)):
        if not holds2(ss, vals, i):
            continue
        if gone and v is not None:
            return False
        if v is None:
            gone = True
        elif s["opt"] and s["k"] == "struct" and not ref([dict(s, req=None)], [v]):
            return False  # a present but empty optional structure looks absent
        elif s["k"] == "struct":
            if not absent_tail_ok(s["segs"], v):
                return False
            if nested_absent(s["segs"], v):
                gone = True
    return True


def nested_absent(ss, vals):
    return any(v is None and holds2(ss, vals, i) or
               (v is not None and s["k"] == "struct" and nested_absent(s["segs"], v))
               for i, (s, v) in enumerate(zip(ss, vals)))


# -- building the library structure -------------------------------------------------
_n = [0]


def build(ss, name="S", bases=(t.Struct,)):
    ann = {}
    ns = {"__annotations__": ann, "__module__": "checks.c02", "__qualname__": name}
    for i, s in enumerate(ss):
        kw = {}
        if s["opt"]:
            kw["optional"] = True
        if s["req"] is not None:
            kw["requires"] = _cond(*s["req"])
        if s["k"] == "bits":
            for j, (n, _b) in enumerate(s["fields"]):
                ann[f"f{i}_{j}"] = getattr(t, n)
                if kw:
                    ns[f"f{i}_{j}"] = t.StructField(**kw)
        elif s["k"] == "plain":
            ann[f"f{i}_0"] = c01.build(s["type"])
            if kw:
                ns[f"f{i}_0"] = t.StructField(**kw)
        elif s["k"] == "struct":
            ann[f"f{i}_0"] = build(s["segs"], name=f"{name}_{i}")
            if kw:
                ns[f"f{i}_0"] = t.StructField(**kw)
        else:
            ann[f"f{i}_0"] = None
            ns[f"f{i}_0"] = t.StructField(
                dynamic_type=(lambda st_, on=s["on"]: c01.build(
                    dyn_expr(int(getattr(st_, on) or 0)))),
                **kw)
    return type(name, bases, ns)


def _cond(name, op, val):
    def cond(s):
        x = getattr(s, name)
        if x is None:
            return False
        x = int(x)
        return {"eq": x == val, "ne": x != val, "bit": bool(x >> val & 1)}[op]
    return cond


def kwargs(cls, ss, vals):
    kw = {}
    env = {f"f{i}_0": v for i, (s, v) in enumerate(zip(ss, vals)) if s["k"] == "plain"}
    for i, (s, v) in enumerate(zip(ss, vals)):
        if v is None:
            continue
        if s["k"] == "bits":
            for j, (n, _b) in enumerate(s["fields"]):
                kw[f"f{i}_{j}"] = v[j]
        elif s["k"] == "plain":
            kw[f"f{i}_0"] = c01.mk(s["type"], v)
        elif s["k"] == "struct":
            sub = getattr(cls.fields, f"f{i}_0").type
            kw[f"f{i}_0"] = sub(**kwargs(sub, s["segs"], v))
        else:
            kw[f"f{i}_0"] = c01.mk(dyn_expr(env[s["on"]]), v)
    return kw


def ref(ss, vals):
    out = b""
    env = {f"f{i}_0": v for i, (s, v) in enumerate(zip(ss, vals)) if s["k"] == "plain"}
    for i, (s, v) in enumerate(zip(ss, vals)):
        if v is None or not holds(s["req"], env):
            continue
        if s["k"] == "bits":
            acc = pos = 0
            for (n, b), x in zip(s["fields"], v):
                acc |= (x & ((1 << b) - 1)) << pos
                pos += b
            out += acc.to_bytes(pos // 8, "big")
        elif s["k"] == "plain":
            out += c01.ref(s["type"], v)
        elif s["k"] == "struct":
            out += ref(s["segs"], v)
        else:
            out += c01.ref(dyn_expr(env[s["on"]]), v)
    return out


def effective(ss, vals):
    """The values that are on the wire: stale values of fields not required are dropped."""
    res = []
    for i, (s, v) in enumerate(zip(ss, vals)):
        if v is None or not holds2(ss, vals, i):
            res.append(None)
        elif s["k"] == "struct":
            res.append(effective(s["segs"], v))
        else:
            res.append(v)
    return res


def nan(ss, vals):
    return any(v is not None and (
        (s["k"] == "plain" and c01.has_nan(s["type"], v)) or
        (s["k"] == "struct" and nan(s["segs"], v))) for s, v in zip(ss, vals))


def valid_bits(ss):
    return all((sum(b for _, b in s["fields"]) % 8 == 0) if s["k"] == "bits" else
               valid_bits(s["segs"]) if s["k"] == "struct" else True for s in ss)


@st.composite
def roundtrip(draw):
    ss = draw(segs())
    return {"segs": ss, "vals": seg_values(draw, ss), "suffix": draw(c01.SUFFIX)}


def run_roundtrip(case):
    ss, vals, suffix = case["segs"], case["vals"], h2b(case["suffix"])
    cls = build(ss)
    if not valid_bits(ss):
        kw = kwargs(cls, ss, vals)
        if any(v is None for v in vals):
            raise Discard
        if not all(holds2(ss, vals, i) for i in range(len(ss))):
            raise Discard
        try:
            out = cls(**kw).serialize()
        except ValueError:
            return {"labels": ["misaligned"]}
        raise Violation(f"bit fields that do not end on a byte boundary were encoded: {out}")
    if nan(ss, vals):
        raise Discard
    kw = kwargs(cls, ss, vals)
    obj = cls(**kw)
    expected = ref(ss, vals)
    out = obj.serialize()
    check(out == expected, "encodes as %s, reference says %s", b2h(out), b2h(expected))
    check(obj.is_valid, "a complete structure is not valid: %r", obj)

    labels = sorted({s["k"] for s in ss})
    # positional construction is the same
    names = [f.name for f in cls.fields]
    check(cls(*[kw.get(n) for n in names]) == obj, "positional construction differs: %r", obj)
    # copies, dictionary, replace
    check(cls(obj) == obj and cls(obj).serialize() == out, "copy of %r differs: %r", obj, cls(obj))
    d = obj.as_dict()
    check(list(d) == names, "as_dict has keys %s, fields are %s", list(d), names)
    check(all((d[n] is None) == (n not in kw) for n in names), "as_dict of %r: %s", obj, d)
    check(cls(**d) == obj, "rebuilding %r from its dictionary differs", obj)
    check(obj.as_tuple() == tuple(d.values()), "as_tuple of %r", obj)
    sk = obj.as_dict(skip_missing=True)
    check(list(sk) == [n for n in names if n in kw], "skip_missing of %r: %s", obj, sk)
    rec = obj.as_dict(recursive=True, skip_missing=True)
    for n, v in rec.items():
        o = getattr(obj, n)
        check(v == (o.as_dict(recursive=True, skip_missing=True) if isinstance(o, t.Struct) else o),
              "recursive dictionary field %s: %r", n, v)
    check(cls.from_dict(rec) == obj, "from_dict(%r) gives %r, not %r", rec, cls.from_dict(rec), obj)
    check(cls.from_dict(rec).serialize() == out, "from_dict(%r) encodes differently", rec)
    check(isinstance(repr(obj), str), "repr")
    rp = obj.replace()
    check(rp == obj and rp is not obj, "replace() of %r", obj)
    check(obj.matches(obj) and obj.matches(cls()), "%r does not match itself or the wildcard", obj)

    # freeze: possible where every value is hashable
    if all(_freezable(getattr(obj, n)) for n in names):
        fr = obj.freeze()
        check(fr == obj and fr.serialize() == out, "frozen %r differs", obj)
        try:
            setattr(fr, names[0], getattr(fr, names[0]))
        except AttributeError:
            pass
        else:
            raise Violation("a frozen structure can be changed")
        labels.append("frozen")
        check(hash(fr) == hash(cls(**kw).freeze()), "equal frozen structures differ in hash")
        check(hash(fr.replace()) == hash(fr), "replace() of a frozen structure changes its hash")
    try:
        hash(obj)
    except TypeError:
        pass
    else:
        raise Violation("an unfrozen structure is hashable")

    # every single-field change is visible in equality, and replace() changes only it
    for i, (s, v) in enumerate(zip(ss, vals)):
        if v is None or s["k"] != "bits":
            continue
        for j, (n, b) in enumerate(s["fields"]):
            if n in SIGNED:
                continue
            nv = v[j] ^ (1 << (b - 1))
            ch = obj.replace(**{f"f{i}_{j}": nv})
            check(ch != obj and not ch.matches(obj), "%s changed but %r == %r", f"f{i}_{j}", ch, obj)
            check(int(getattr(ch, f"f{i}_{j}")) == nv, "replace: %r", ch)
            v2 = [list(x) if isinstance(x, list) else x for x in vals]
            v2[i][j] = nv
            check(ch.serialize() == ref(ss, v2), "replace changed other fields: %r -> %r", obj, ch)

    # missing required values
    for i, (s, v) in enumerate(zip(ss, vals)):
        if v is None or s["opt"] or not holds2(ss, vals, i):
            continue
        nm = f"f{i}_0"
        if any(x["k"] == "dyn" and x["on"] == nm or x["req"] and x["req"][0] == nm for x in ss):
            continue
        try:
            r = obj.replace(**{nm: None}).serialize()
        except ValueError:
            continue
        raise Violation(f"required field {nm} missing, still encoded as {b2h(r)}")

    if not absent_tail_ok(ss, vals):
        return {"labels": labels + ["encode-only"]}
    eff = effective(ss, vals)
    want = cls(**kwargs(cls, ss, eff))
    tail = b"" if nested_absent(ss, vals) else suffix
    got, rest = cls.deserialize(out + tail)
    check(rest == tail, "decoding left %s instead of %s", rest, tail)
    check(got == want, "decoded %r, expected %r", got, want)
    check(type(got) is cls and got.serialize() == out, "re-encoding %r gives %s", got, b2h(got.serialize()))
    for f in cls.fields:
        gv, wv = getattr(got, f.name), getattr(want, f.name)
        check((gv is None) == (wv is None) and (gv is None or isinstance(gv, type(wv))),
              "field %s decoded as %r, expected %r", f.name, gv, wv)

    # truncation: only where every field is mandatory is every shorter input invalid
    if not any_optional(ss):
        for c in range(len(out)):
            try:
                r = cls.deserialize(out[:c])
            except ValueError:
                continue
            raise Violation(f"{c} of {len(out)} bytes were accepted as {short(r)}")
    return {"labels": labels + (["optional"] if any_optional(ss) else [])}


def any_optional(ss):
    return any(s["opt"] or s["k"] == "struct" and any_optional(s["segs"]) for s in ss)


def _freezable(v):
    if isinstance(v, t.Struct):
        return all(_freezable(getattr(v, f.name)) for f in v.fields)
    try:
        hash(v)
    except TypeError:
        return False
    return True


# ------------------------------------------------------------------ integer structures
@st.composite
def intstruct(draw):
    size = draw(st.sampled_from([8, 16, 24, 32]))
    fields = []
    left = size
    while left:
        n = draw(st.sampled_from([x for x, b in BITINT.items() if b <= left]))
        fields.append([n, BITINT[n]])
        left -= BITINT[n]
    v = draw(c01.boundary_int(size, False))
    w = draw(st.one_of(c01.boundary_int(size, False), st.just(v)))
    return {"size": size, "fields": fields, "v": v, "w": w}


def run_intstruct(case):
    size, fields = case["size"], case["fields"]
    base = getattr(t, f"uint{size}_t")
    ann = {f"f{j}": getattr(t, n) for j, (n, _) in enumerate(fields)}
    cls = type("IS", (t.Struct, base), {"__annotations__": ann, "__module__": "checks.c02"})
    v, w = case["v"], case["w"]
    a = cls(v)
    check(int(a) == v and a == v, "%r built from %d has value %d", a, v, int(a))
    # the wire image is that of the integer type; fields are its bits in the order of
    # the segments, each segment closing at the first byte boundary
    raw = v.to_bytes(size // 8, "little")
    check(a.serialize() == raw, "%d encodes as %s", v, b2h(a.serialize()))
    pos = 0
    seg = []
    byte = 0
    for j, (n, b) in enumerate(fields):
        seg.append((j, b))
        pos += b
        if pos % 8 == 0:
            k = pos // 8
            acc = int.from_bytes(raw[byte:byte + k], "big")
            for jj, bb in seg:
                x = acc & ((1 << bb) - 1)
                acc >>= bb
                check(int(getattr(a, f"f{jj}")) == x, "field %d of %r is not %d", jj, a, x)
            byte += k
            pos, seg = 0, []
    c = cls(w)
    for op, r in (("==", (a == c, v == w)), ("<", (a < c, v < w)), ("<=", (a <= c, v <= w)),
                  (">", (a > c, v > w)), (">=", (a >= c, v >= w)), ("!=", (a != c, v != w))):
        check(r[0] == r[1], "%d %s %d is %s", v, op, w, r[0])
        r2 = {"==": a == w, "<": a < w, "<=": a <= w, ">": a > w, ">=": a >= w, "!=": a != w}[op]
        check(r2 == r[1], "structure %d %s integer %d is %s", v, op, w, r2)
    for bad in (1 << size, -1):
        try:
            r = cls(bad)
        except ValueError:
            continue
        raise Violation(f"{bad} accepted by a {size}-bit structure: {r!r}")
    got, rest = cls.deserialize(raw + b"!")
    check(got == a and rest == b"!", "%r", got)
    return True


# ------------------------------------------------------------------ the package's own structures
def lib_structs():
    import importlib, pkgutil, zigpy
    out = {}
    for m in pkgutil.walk_packages(zigpy.__path__, "zigpy."):
        mod = importlib.import_module(m.name)
        for k, c in vars(mod).items():
            if isinstance(c, type) and issubclass(c, t.Struct) and c is not t.Struct \
                    and c.__module__.startswith("zigpy"):
                out[f"{c.__module__}:{c.__qualname__}"] = c
    return dict(sorted(out.items()))


LIB = lib_structs()


def lib_strategy():
    return st.tuples(st.sampled_from(sorted(LIB)), st.binary(max_size=60).map(b2h)).map(list)


def run_lib(case):
    """Whatever decodes re-encodes to the bytes consumed and copies faithfully."""
    c = LIB.get(case[0])
    if c is None:
        raise Discard
    data = h2b(case[1])
    try:
        v, rest = c.deserialize(data)
    except (ValueError, KeyError):
        return False
    check(data.endswith(bytes(rest)), "remainder %s of %s", rest, data)
    used = data[: len(data) - len(rest)]
    if not used or v is None:
        return False
    repr(v)
    if type(v).__eq__ is t.Struct.__eq__ and "nan" not in repr(v):
        check(c(**v.as_dict()) == v, "%r", v)
        check(v.replace() == v, "%r", v)
        if all(isinstance(f.type, type) or f.dynamic_type for f in v.fields):
            rec = v.as_dict(recursive=True, skip_missing=True)
            check(c.from_dict(rec) == v, "from_dict(%r)", rec)
        if _freezable(v):
            before = (repr(v), v.as_dict())
            fr = v.freeze()
            check(fr == v and not fr != v, "frozen %r", v)
            check(hash(fr) == hash(v.replace().freeze()) == hash(fr.replace()), "hash of %r", v)
            for f in v.fields:
                x = getattr(v, f.name)
                if x is not None:
                    v.replace(**{f.name: None})
                    check((repr(v), v.as_dict()) == before,
                          "replace(%s=None) changed the original to %r", f.name, v)
    try:
        out = v.serialize()
    except ValueError:
        return {"labels": ["not-reencodable"], "nontrivial": False}
    v2, rest2 = c.deserialize(out)
    check(not rest2, "%s re-encodes with %s left over", short(v), rest2)
    if "TypeValue" not in repr(v) and "str" not in repr(type(v)) and len(out) == len(used):
        check(v2.serialize() == out, "unstable encoding of %r", v)
    return True


# ---------------------------------------------------------------- hand-written bit fields of the security and HVAC clusters
# class -> {field: (shift, readable width, values)}; bits outside the fields keep their value
PACKED = {
    "warning": ("zigpy.zcl.clusters.security", "WarningType", {"mode": (4, 4, 7), "strobe": (2, 1, 2), "level": (0, 2, 4)}),
    "squawk": ("zigpy.zcl.clusters.security", "Squawk", {"mode": (4, 4, 2), "strobe": (3, 1, 2), "level": (0, 2, 4)}),
    "system": ("zigpy.zcl.clusters.hvac", "SystemType", {"cooling_system_stage": (0, 2, 4), "heating_system_stage": (2, 2, 4),
                                                         "heating_system_type": (4, 1, 2), "heating_fuel_source": (5, 1, 2)}),
}


@st.composite
def packed(draw):
    k = draw(st.sampled_from(["warning", "warning", "squawk", "squawk", "system"]))
    fields = PACKED[k][2]
    sets = []
    if k != "system":
        for _ in range(draw(st.integers(0, 6))):
            n = draw(st.sampled_from(sorted(fields)))
            sets.append([n, draw(st.integers(0, fields[n][2] - 1))])
    return {"k": k, "start": draw(st.one_of(st.none(), st.integers(0, 255))) if k != "system" else draw(st.integers(0, 255)), "sets": sets}


def run_packed(case):
    mod, cls, fields = PACKED[case["k"]]
    T = getattr(importlib.import_module(mod), cls)
    v = T() if case["start"] is None else T(case["start"])
    ref = case["start"] or 0

    def verify(o, what):
        for n, (sh, w, _) in fields.items():
            check(int(getattr(o, n)) == ref >> sh & (1 << w) - 1, "%s: %s of 0x%02x is %r", what, n, ref, getattr(o, n))
        check(o.serialize() == bytes([ref]), "%s: 0x%02x encodes as %s", what, ref, o.serialize())
        check(o == ref, "%s: 0x%02x is not equal to %r", what, ref, o)
    verify(v, f"{cls} created")
    for n, x in case["sets"]:
        sh, w, _ = fields[n]
        T2 = type(getattr(v, n))
        setattr(v, n, T2(x) if x % 2 else x)
        ref = ref & ~((1 << w) - 1 << sh) | x << sh
        verify(v, f"{cls}.{n} set to {x}")
    got, rest = T.deserialize(v.serialize() + b"zz")
    check(rest == b"zz" and type(got) is type(v), "%r decodes as %r, %s", v, got, rest)
    verify(got, f"{cls} decoded")
    try:
        T.deserialize(b"")
    except ValueError:
        pass
    else:
        raise Violation(f"{cls} decodes from nothing")
    return True


CHECK = Check(
    id="C02",
    rule="Generated structure definitions (byte-aligned and packed bit segments, optional, "
         "conditional, nested and dynamically typed fields) with generated values, compared with "
         "an independent encoder; every truncation; copy/dict/replace/freeze/matches relations; "
         "integer-backed structures against integer arithmetic; all structure classes of the "
         "package over arbitrary bytes. Non-trivial: the definition is valid and a comparison or "
         "rejection was made (arbitrary bytes: they decoded).",
    assumptions=["conditions refer to earlier fields whose bit segment is complete",
                 "an absent optional field is followed by nothing (otherwise no decoder could tell)"],
    suites=[
        Suite("roundtrip", run_roundtrip, strategy=roundtrip, quick=6000, thorough=500_000),
        Suite("intstruct", run_intstruct, strategy=intstruct, quick=4000, thorough=100_000, shards=4),
        Suite("packed", run_packed, strategy=packed, quick=1500, thorough=20_000, shards=2),
        Suite("lib", run_lib, strategy=lib_strategy, quick=8000, thorough=300_000, shards=4),
    ],
)
