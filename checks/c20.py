"""C20: only compatible firmware is offered, newest and most specific first."""
from __future__ import annotations

import asyncio
import struct

import attrs

from vlib.core import Check, Suite, check, check_eq, one_of
from vlib import fakes, vloop
from checks import c18

from zigpy.ota import image as I, providers as P
from zigpy.zcl.clusters.general import Ota

from hypothesis import strategies as st

CUR = {}


@attrs.define(frozen=True, kw_only=True)
class Meta(P.BaseOtaImageMetadata):
    idx: int

    async def _fetch(self):
        return await CUR["fetch"](self.idx)


class Provider(P.BaseOtaProvider):
    NAME = "c20"

    def __init__(self, n, **kw):
        super().__init__(url=f"p{n}", **kw)
        self.n = n
        self.loads = 0
        self.loaded = False

    async def load_index(self):
        self.loads += 1
        mode = CUR["index"](self.n, self.loads)
        if mode == "fail":
            raise OSError("no index")
        if mode == "hang":
            await asyncio.sleep(100)
        if self.loaded:
            return None
        self.loaded = True
        return [CUR["metas"][i] for i, e in enumerate(CUR["entries"]) if self.n in e["prov"]]


META_INTS = ["manufacturer_id", "image_type", "min_hardware_version", "max_hardware_version", "min_current_file_version",
             "max_current_file_version", "specificity"]


def image_bytes(e):
    h = {"hv": 0x0100, "fc": 4 if e["hw"] else 0, "manuf": e["h_manuf"], "type": e["h_type"], "fv": e["file_version"], "sv": 2,
         "str": bytes(32).hex(), "scv": 0, "dest": bytes(8).hex(), "hwmin": (e["hw"] or [0, 0])[0], "hwmax": (e["hw"] or [0, 0])[1]}
    return c18.enc_image({"h": h, "els": [[0, bytes([e["content"]] * 5).hex()]]})


def run(case):
    entries = case["entries"]
    metas = [Meta(idx=e.get("same", i), file_version=e["file_version"], manufacturer_names=tuple(e["mn"]), model_names=tuple(e["md"]),
                  source=e["source"], **{k: e[k] for k in META_INTS}) for i, e in enumerate(entries)]
    images = [image_bytes(e) for e in entries]
    fetched = set()       # entries whose image is known
    plan = {}             # (query number, idx) -> fault
    stat = set()
    now = [0]

    def eff(i, name):
        e = entries[i]
        if name == "hwmin":
            v = e["min_hardware_version"]
            return v if v is not None else (e["hw"][0] if i in fetched and e["hw"] else None)
        if name == "hwmax":
            v = e["max_hardware_version"]
            return v if v is not None else (e["hw"][1] if i in fetched and e["hw"] else None)
        if name == "manuf":
            v = e["manufacturer_id"]
            return v if v is not None else (e["h_manuf"] if i in fetched else None)
        v = e["image_type"]
        return v if v is not None else (e["h_type"] if i in fetched else None)

    def compatible(i, q, dev):
        e = entries[i]
        if eff(i, "manuf") not in (None, q["manuf"]) or eff(i, "type") not in (None, q["type"]):
            return False
        if e["md"] and dev["model"] not in e["md"] or e["mn"] and dev["manufacturer"] not in e["mn"]:
            return False
        lo, hi = eff(i, "hwmin"), eff(i, "hwmax")
        if q["hw"] is None:
            return lo is None and hi is None
        return (lo is None or lo <= q["hw"]) and (hi is None or q["hw"] <= hi)

    def newer(i, q):
        e = entries[i]
        lo, hi = e["min_current_file_version"], e["max_current_file_version"]
        return e["file_version"] > q["cur"] and (lo is None or lo <= q["cur"]) and (hi is None or q["cur"] <= hi)

    def score(i):
        e = entries[i]
        return (1000 * bool(e["mn"]) + 1000 * bool(e["md"]) + 100 * (eff(i, "type") is not None) + 100 * (eff(i, "manuf") is not None)
                + 10 * (e["min_current_file_version"] is not None) + 10 * (e["max_current_file_version"] is not None)
                + (eff(i, "hwmin") is not None) + (eff(i, "hwmax") is not None) + (e["specificity"] or 0))

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        dev = fakes.add_device(app, 1, 0x2001, eps={1: (260, 0x0100, [0], [0x0019])})
        results = []

        class L:
            def device_ota_image_query_result(self, res, cmd):
                results.append(res)

        dev.add_listener(L())
        ota = app.ota
        ota._providers = []
        n_prov = case["providers"]
        provs = [Provider(n) for n in range(n_prov)]
        for p in provs:
            ota.register_provider(p)
        attempts = {}

        async def fetch(i):
            await asyncio.sleep(0.1 * (i % 4))
            mode = attempts.pop(i, None)
            if mode == "fail":
                raise OSError("no image")
            if mode == "hang":
                await asyncio.sleep(500)
            if mode == "garbage":
                return images[i][:-3]
            return images[i]

        loads = [0]
        failing = {}
        CUR.update(fetch=fetch, index=lambda n, k: failing.get(n), entries=entries, metas=metas)
        available = set()
        for qn, q in enumerate(case["queries"]):
            dev._model, dev._manufacturer = q["dev"]["model"], q["dev"]["manufacturer"]   # also back to None
            failing.clear()
            failing.update({n: m for n, m in q["index"] if n < n_prov})
            attempts.clear()
            attempts.update({i: m for i, m in q["faults"] if i < len(entries)})
            broken = dict(attempts)
            # reference
            for n in range(n_prov):
                if n not in failing:
                    available.update(i for i, e in enumerate(entries) if n in e["prov"])
            uniq = {}
            for i in sorted(available):
                uniq.setdefault(metas[i], i)
            pool = list(uniq.values())
            cand = [i for i in pool if compatible(i, q, q["dev"])]
            up = [i for i in cand if newer(i, q)]
            down = [i for i in cand if entries[i]["file_version"] <= q["cur"]]
            for i in up:
                if i not in fetched and broken.get(metas[i].idx) is None:
                    fetched.add(i)
                    stat.add("downloaded")
            up2 = [i for i in up if i in fetched and compatible(i, q, q["dev"])]
            if len(up2) < len(up):
                stat.add("dropped after download")
            groups = {}
            for i in up2:
                groups.setdefault((entries[i]["file_version"], score(i)), []).append(i)
            final = []
            for k, g in groups.items():
                if len({images[i] for i in g}) == 1:
                    final += g
                else:
                    stat.add("collision")
            # the library
            if q["packet"]:
                results.clear()
                fc = 1 if q["hw"] is not None else 0
                data = bytes([0x01, qn + 1, 0x01, fc]) + struct.pack("<HHI", q["manuf"], q["type"], q["cur"]) + (
                    struct.pack("<H", q["hw"]) if fc else b"")
                n0 = len(app.sent)
                app.packet_received(fakes.packet(0x2001, 0x0019, data))
                await vloop.quiesce(loop, 60)
                check_eq(len(results), 1, "results of a query")
                res = results[0]
                rsp = [p.data.serialize() for p in app.sent[n0:]]
                check_eq([x.hex() for x in rsp], [bytes([0x19, qn + 1, 0x02, 0x98]).hex()], "response to the query")
            else:
                cmd = Ota.ServerCommandDefs.query_next_image.schema(
                    field_control=1 if q["hw"] is not None else 0, manufacturer_code=q["manuf"], image_type=q["type"],
                    current_file_version=q["cur"], **({} if q["hw"] is None else {"hardware_version": q["hw"]}))
                if q["twice"] and not broken and not failing:
                    res, res2 = await asyncio.gather(ota.get_ota_images(dev, cmd), ota.get_ota_images(dev, cmd))
                    check_eq([[m.metadata.idx for m in x] for x in (res.upgrades, res.downgrades)],
                             [[m.metadata.idx for m in x] for x in (res2.upgrades, res2.downgrades)], "results of concurrent queries")
                    stat.add("concurrent")
                else:
                    res = await ota.get_ota_images(dev, cmd)
            what = f"query {qn} ({q})"
            idx = {metas[i]: i for i in pool}
            gu, gd = [idx[m.metadata] for m in res.upgrades], [idx[m.metadata] for m in res.downgrades]
            check_eq(sorted(gu), sorted(final), f"upgrades offered to {what}")
            check_eq(sorted(gd), sorted(down), f"downgrades of {what}")
            for name, g in (("upgrades", gu), ("downgrades", gd)):
                ks = [(entries[i]["file_version"], score(i)) for i in g]
                check_eq(ks, sorted(ks, reverse=True), f"order of the {name} of {what}")
            for m in res.upgrades:
                i = idx[m.metadata]
                check(m.firmware is not None, "upgrade without image")
                check_eq(m.firmware.serialize().hex(), images[i].hex(), f"image of upgrade {i}")
                check_eq(m.version, entries[i]["file_version"], "version")
            if final:
                stat.add("upgrades")
                if len(final) > 1:
                    stat.add("several upgrades")
            if down:
                stat.add("downgrades")
            if attempts != broken:
                stat.add("failed downloads")
        check(not [x for x in loop.errors if "exception" in x], "errors in background: %r", loop.errors[:1])

    vloop.run(main)
    return {"labels": sorted(stat), "nontrivial": bool(stat & {"several upgrades", "collision", "dropped after download", "downgrades"})}


@st.composite
def case_st(draw):
    manufs, types = [0x1001, 0x1002], [1, 2, 0xFFFF]
    models, names = ["m1", "m2", ""], ["n1", "n2"]
    vers = st.sampled_from([0, 1, 2, 3, 5, 7, 0xFFFFFFFF])
    opt = lambda s, w=1: one_of(*[st.none()] * w, s)  # noqa: E731
    hwv = st.sampled_from([0, 1, 2, 3, 0x0100, 0xFFFF])
    entries = []
    for i in range(draw(st.integers(1, 7))):
        hm, ht = draw(st.sampled_from(manufs)) if draw(st.integers(0, 4)) == 0 else manufs[0], draw(st.sampled_from(types)) if draw(st.integers(0, 4)) == 0 else types[0]
        hw = draw(opt(st.tuples(hwv, hwv).map(sorted), 3))
        e = {"file_version": draw(vers), "h_manuf": hm, "h_type": ht, "hw": hw,
             "manufacturer_id": draw(st.sampled_from([hm, hm, hm, None])),
             "image_type": draw(st.sampled_from([ht, ht, ht, None])),
             "mn": draw(st.sampled_from([[], [], [], [], [], [], ["n1"], ["n2"], ["n1", "n2"], ["N1"], ["n1 ", "n12"]])),
             "md": draw(st.sampled_from([[], [], [], [], [], [], ["m1"], ["m2", "m1"], [""], ["M1"], ["m1 ", "m"]])),
             "min_hardware_version": draw(opt(hwv, 6)), "max_hardware_version": draw(opt(hwv, 6)),
             "min_current_file_version": draw(opt(vers, 8)), "max_current_file_version": draw(opt(vers, 8)),
             "specificity": draw(st.sampled_from([None, None, None, 0, 10, 1, -100])),
             "source": draw(st.sampled_from(["a", "a", "b"])), "content": draw(st.integers(0, 2)),
             "prov": draw(st.sampled_from([[0], [0], [1], [0, 1]]))}
        if entries and draw(st.booleans()):
            # a near copy of another entry
            base = dict(draw(st.sampled_from(entries)))
            k = draw(st.sampled_from(["none", "content", "content", "content", "file_version", "md", "specificity", "hw", "source"]))
            if k != "none":
                base[k] = e[k]
            base["prov"] = e["prov"]
            e = base
        entries.append(e)
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        queries.append({
            "manuf": draw(st.sampled_from(manufs[:1] * 5 + manufs)), "type": draw(st.sampled_from(types[:1] * 5 + types)),
            "cur": draw(st.one_of(st.sampled_from([0, 1, 2]), vers)), "hw": draw(st.one_of(hwv, opt(hwv))),
            "dev": {"model": draw(st.sampled_from(["m1", "m1", "m2", "", None])), "manufacturer": draw(st.sampled_from(["n1", "n1", "n2", None]))},
            "index": draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["fail", "hang"])).map(list), max_size=1))),
            "faults": draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 6), st.sampled_from(["fail", "hang", "garbage"])).map(list), max_size=3, unique_by=lambda x: x[0]))),
            "packet": draw(st.booleans()), "twice": draw(st.booleans())})
    return {"entries": entries, "queries": queries, "providers": draw(st.integers(1, 2))}


CHECK = Check(
    "C20",
    rule="at least one query with several upgrades, indistinguishable images, downgrades or an image that its own header excludes",
    assumptions=["the weights of the constraints that decide which entry is more specific are those of the library",
                 "equal images of equal entries are one entry"],
    suites=[Suite("queries", run, strategy=case_st, quick=6000, thorough=100000)])
