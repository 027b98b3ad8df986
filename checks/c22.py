"""C22: firmware that does not match its advertised size or digest is never accepted."""
from __future__ import annotations

import asyncio
import contextlib
import hashlib
import io
import json
import pathlib
import shutil
import struct
import tarfile
import tempfile
import urllib.parse

import aiohttp

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop
from checks import c18

from zigpy.ota import providers as P
from zigpy.zcl.clusters.general import Ota

from hypothesis import strategies as st

PY = "zigpy"


# ---- the web ---------------------------------------------------------------------------------
class Rsp:
    def __init__(self, web, url):
        self.web, self.url = web, url

    async def __aenter__(self):
        e = self.web.get(self.url)
        self.web.setdefault("#log", []).append(self.url)
        if e is None:
            raise aiohttp.ClientError(f"404 {self.url}")
        if e["mode"] == "error":
            raise aiohttp.ClientError("500")
        if e["mode"] == "hang":
            await asyncio.sleep(1000)
        if e["mode"] == "oserror":
            raise OSError("network is unreachable")
        self.data = e["data"]
        return self

    async def __aexit__(self, *a):
        return False

    async def read(self):
        return self.data

    async def text(self, encoding="utf-8"):
        return self.data.decode("utf-8")

    async def json(self, *, encoding=None, loads=json.loads, content_type="application/json"):
        return loads(self.data.decode("utf-8"))


class Session:
    def __init__(self, web):
        self.web = web

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False

    def get(self, url, **kw):
        return Rsp(self.web, str(url))


@contextlib.contextmanager
def web(entries):
    class Fake:
        ClientSession = staticmethod(lambda *a, **k: Session(entries))

        def __getattr__(self, name):
            return getattr(aiohttp, name)

    old, P.aiohttp = P.aiohttp, Fake()
    try:
        yield
    finally:
        P.aiohttp = old


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d)


# ---- files -----------------------------------------------------------------------------------
def base_image(c):
    b = c18.enc_image(c)
    return b


def ikea(img, block, tail, trick=None):
    """a signed container with block hashes"""
    n = (len(img) + block - 1) // block
    off = 40 + 32 * n
    hashes = b"".join(hashlib.sha256(img[i * block:(i + 1) * block]).digest() for i in range(n))
    return b"NGIS" + bytes(12) + struct.pack("<II", off, len(img)) + bytes(8) + struct.pack("<II", block, n) + hashes + img + tail


def salus(img, name, digest):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w") as tar:
        for fn, d in (("networkinfo.json", json.dumps({"upgrade": [{"filename": name, "checksum": digest}]}).encode()),
                      ("readme.txt", b"hello"), (name, img)):
            ti = tarfile.TarInfo(fn)
            ti.size = len(d)
            tar.addfile(ti, io.BytesIO(d))
    return out.getvalue()


def corrupt(b, m):
    if m is None or not b:
        return b
    b = bytearray(b)
    i = m[1] % len(b)
    if m[0] == "flip":
        b[i] ^= 1 << (m[2] % 8)
    elif m[0] == "cut":
        del b[i:]
    elif m[0] == "drop":
        del b[i]
    elif m[0] == "ext":
        b += bytes([m[2]])
    elif m[0] == "swap":
        j = m[2] % len(b)
        b[i], b[j] = b[j], b[i]
    return bytes(b)


ALGOS = ["sha1", "sha256", "sha512", "sha3-256", "md5"]


def digest(algo, b):
    return hashlib.new(algo, b).hexdigest()


def expect(kind, served, meta):
    """bytes of the image that has to be accepted, or None"""
    if kind == "salus":
        try:
            with tarfile.open(fileobj=io.BytesIO(served)) as tar:
                files = {x.name: tar.extractfile(x).read() for x in tar if x.isfile()}
            up = json.loads(files["networkinfo.json"])["upgrade"][0]
            inner = files[up["filename"]]
            if hashlib.md5(inner).hexdigest().upper() != up["checksum"]:
                return None
        except Exception:  # noqa: BLE001
            return None
        served = inner
    if kind == "signed":
        if len(served) < 40 or served[:4] != b"NGIS":
            return None
        off, size = struct.unpack("<II", served[16:24])
        block, n = struct.unpack("<II", served[32:40])
        if size != meta["file_size"] or off != 40 + 32 * n or block * n < size or len(served) < off + size:
            return None
        for i in range(n):
            blk = served[off + i * block:min(off + (i + 1) * block, off + size)] if i * block < size else b""
            if hashlib.sha256(blk).digest() != served[40 + 32 * i:72 + 32 * i]:
                return None
    else:
        if meta["file_size"] is not None and meta["file_size"] != len(served):
            return None
        if meta["checksum"] is not None:
            a, d = meta["checksum"].split(":")
            if digest(a, served) != d:
                return None
    r = c18.attempt(c18.ref_parse, served)
    return None if r is None else r[1]


def run_fetch(case):
    kind = case["kind"]
    img = base_image(case["img"])
    good = img
    if kind == "signed":
        good = ikea(img, case["block"], bytes.fromhex(case["tail"]))
    elif kind == "salus":
        d = hashlib.md5(img).hexdigest().upper()
        good = salus(img, "fw.ota", [d, d.lower(), "", d[:-1], d[1:], d[:4], d + "0"][int(case["lower"])])
    elif case["wrap"]:
        good = c18.wrap({"img": case["img"], "inner": "", "kind": case["wrap"], "off": 0, "pad": "", "tail": "00"})
    meta = {"file_size": None, "checksum": None}
    if case["size"] is not None:
        meta["file_size"] = len(img if kind in ("signed", "salus") else good) + case["size"]
    if case["algo"] and kind != "signed":
        d = digest(case["algo"], img if kind == "salus" else good)
        if case["wrong"]:
            k = case["wrong"] % len(d)
            d = {"other": d[:k] + ("0" if d[k] != "0" else "1") + d[k + 1:], "cut": d[:-1], "none": ""}[{1: "other", 2: "cut", 7: "other", 4: "none"}[case["wrong"]]]
        meta["checksum"] = case["algo"] + ":" + d
    served = good
    for m in case["muts"]:
        served = corrupt(served, m)
    if kind == "salus" and case["inner"]:
        bad = corrupt(img, case["inner"])
        served = salus(bad, "fw.ota", hashlib.md5(img).hexdigest().upper())
    exp = expect(kind, served, meta)

    async def main(loop):
        with scratch() as d, web({"http://x/f": {"mode": "ok", "data": served}}):
            kw = dict(file_version=1, **meta)
            if kind == "local":
                (d / "f.ota").write_bytes(served)
                m = P.LocalOtaImageMetadata(path=d / "f.ota", **kw)
            else:
                cls = {"remote": P.RemoteOtaImageMetadata, "ikea": P.IkeaRemoteOtaImageMetadata, "signed": P.SignedIkeaRemoteOtaImageMetadata,
                       "salus": P.SalusRemoteOtaImageMetadata}[kind]
                m = cls(url="http://x/f", **kw)
            try:
                r = await m.fetch()
            except Exception:  # noqa: BLE001
                check(exp is None, "a sound file is not accepted (%s)", kind)
                return
            check(exp is not None, "a file that does not match its metadata is accepted (%s, %d bytes)", kind, len(served))
            check(r.serialize() == exp, "the accepted firmware is not what was served")
            if not case["muts"] and not case["inner"]:
                if kind != "salus" and case["wrap"] != "hue":
                    check(r.serialize() == img, "the accepted firmware is not the image")

    vloop.run(main)
    return {"labels": [kind + (" accepted" if exp else " refused")], "nontrivial": True}


# ---- indexes ---------------------------------------------------------------------------------
FIELDS = ["file_version", "manufacturer_id", "image_type", "checksum", "file_size", "manufacturer_names", "model_names", "changelog",
          "release_notes", "min_hardware_version", "max_hardware_version", "min_current_file_version", "max_current_file_version", "specificity"]


def E(**kw):
    e = dict.fromkeys(FIELDS)
    e.update(manufacturer_names=(), model_names=())
    e.update(kw)
    return e


def make_index(fmt, es, root):
    """(JSON of the index, expected entries)"""
    out, exp = [], []
    for e in es:
        v, m, ty, size, url, names, models = e["v"], e["m"], e["t"], e["size"], e["url"], e["names"], e["models"]
        model = models[0] if models else "M"
        opt = e["opt"]
        h = e["hash"]
        if fmt == "ikea":
            k = e["k"] % 5
            if k == 0:
                out.append({"fw_image_type": ty, "fw_type": 2, "fw_sha3_256": h[:64], "fw_binary_url": f"{url}/x_v9_y_v{v}_z.ota"})
                if ty not in (8704, 8710):
                    exp.append(E(file_version=v, manufacturer_id=4476, image_type=ty, checksum="sha3-256:" + h[:64], url=f"{url}/x_v9_y_v{v}_z.ota"))
            elif k in (1, 2):
                out.append({"fw_binary_url": url, "fw_file_version_LSB": v & 0xFFFF, "fw_file_version_MSB": v >> 16, "fw_filesize": size, "fw_image_type": ty,
                            "fw_manufacturer_id": m, "fw_type": 2})
                if ty not in (8704, 8710):
                    exp.append(E(file_version=v, manufacturer_id=m, image_type=ty, file_size=size, url=url.replace("http://", "https://", 1)))
            elif k == 3:
                out.append({"fw_update_prio": 5, "fw_filesize": size, "fw_type": 3, "fw_hotfix_version": 1, "fw_major_version": 2, "fw_binary_checksum": h,
                            "fw_minor_version": 3, "fw_sha3_256": h[:64], "fw_binary_url": url})
            else:
                out.append({"fw_image_type": ty, "fw_type": 2, "fw_sha3_256": h[:64], "fw_binary_url": f"{url}/noversion.ota"})
        elif fmt == "ledvance":
            ver = {"major": e["k"], "minor": v % 7, "build": 3, "revision": v % 11}
            out.append({"blob": None, "identity": {"company": m, "product": ty, "version": ver}, "releaseNotes": "notes " + model, "shA256": h[:64], "name": "n",
                        "productName": model, "fullName": f"{model.replace('/', '')}/{v:08X}/x", "extension": ".ota", "released": "2020-01-01T00:00:00",
                        "salesRegion": None, "length": size})
            q = urllib.parse.urlencode({"Company": m, "Product": ty, "Version": f"{e['k']}.{v % 7}.3.{v % 11}"})
            exp.append(E(file_version=v, manufacturer_id=m, image_type=ty, checksum="sha256:" + h[:64], file_size=size, model_names=(model,),
                         release_notes="notes " + model, url="https://api.update.ledvance.com/v1/zigbee/firmwares/download?" + q))
        elif fmt == "salus":
            if e["k"] == 1:
                out.append({"model": model, "version": "", "url": url})
            else:
                out.append({"model": model, "version": f"{v:08X}", "url": url})
                exp.append(E(file_version=v, model_names=(model,), url=url.replace("http://", "https://", 1)))
        elif fmt == "sonoff":
            out.append({"fw_binary_url": url, "fw_file_version": v, "fw_filesize": size, "fw_image_type": ty, "fw_manufacturer_id": m, "model_id": model})
            exp.append(E(file_version=v, manufacturer_id=m, image_type=ty, file_size=size, model_names=(model,), url=url))
        elif fmt == "inovelli":
            iv = v if v <= 11 else max(12, v)
            text = f"{iv:08X}" if iv <= 11 else str(iv)
            out.append((f"M{e['k']}", {"version": text, "channel": "prod", "firmware": url, "manufacturer_id": m, "image_type": ty}))
            exp.append(E(file_version=iv, manufacturer_id=m, image_type=ty, model_names=(f"M{e['k']}",), url=url))
        elif fmt == "thirdreality":
            out.append({"modelId": model, "url": url, "version": "1.2.3", "imageType": ty, "manufacturerId": m, "fileVersion": v})
            exp.append(E(file_version=v, manufacturer_id=m, image_type=ty, model_names=(model,), url=url))
        elif fmt.startswith("zigpy"):
            d = {"file_version": v, "file_size": size, "image_type": ty, "manufacturer_id": m, "checksum": "sha3-256:" + h[:64]}
            x = E(file_version=v, file_size=size, image_type=ty, manufacturer_id=m, checksum="sha3-256:" + h[:64])
            if opt & 1:
                d["manufacturer_names"] = names
                x["manufacturer_names"] = tuple(names)
            if opt & 2:
                d["model_names"] = models
                x["model_names"] = tuple(models)
            for i, k in enumerate(["min_hardware_version", "max_hardware_version", "min_current_file_version", "max_current_file_version", "specificity"]):
                if opt >> (2 + i) & 1:
                    d[k] = x[k] = (v + i) % 13
            for i, k in enumerate(["changelog", "release_notes"]):
                if opt >> (7 + i) & 1:
                    d[k] = x[k] = k + model
            if fmt == "zigpy-local" and e["k"] % 2:
                d["path"] = f"sub/{e['k']}.ota"
                x["path"] = root / f"sub/{e['k']}.ota"
                if e["k"] == 3:
                    d["binary_url"] = url
            else:
                d["binary_url"] = x["url"] = url
                if e["k"] == 2 and fmt != "zigpy-local":
                    d["path"] = "x.ota"
            out.append(d)
            exp.append(x)
        else:
            d = {"fileVersion": v, "fileSize": size, "manufacturerCode": m, "imageType": ty, "sha512": h, "url": url}
            x = E(file_version=v, file_size=size, image_type=ty, manufacturer_id=m, checksum="sha512:" + h)
            if opt & 1:
                d["manufacturerName"] = names
                x["manufacturer_names"] = tuple(names)
            if opt & 2:
                d["modelId"] = model
                x["model_names"] = (model,)
            if opt & 4:
                d["minFileVersion"] = x["min_current_file_version"] = v % 5
            if opt & 8:
                d["maxFileVersion"] = x["max_current_file_version"] = v % 9
            if e["k"] % 2:
                d["path"] = f"sub/{e['k']}.ota"
            if fmt == "z2m-local" and e["k"] % 2:
                x["path"] = root / f"sub/{e['k']}.ota"
            else:
                x["url"] = url
            out.append(d)
            exp.append(x)
    if fmt == "ledvance":
        return {"firmwares": out}, exp
    if fmt in ("salus", "thirdreality"):
        return {"versions": out}, exp
    if fmt.startswith("zigpy"):
        return {"firmwares": out}, exp
    if fmt == "inovelli":
        d = {}
        for k, x in out:
            d.setdefault(k, []).append(x)
        order = [k for k in d]
        return d, sorted(exp, key=lambda x: order.index(x["model_names"][0]))
    return out, exp


URLS = {"ikea": "https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json", "ledvance": "https://api.update.ledvance.com/v1/zigbee/firmwares",
        "salus": "https://eu.salusconnect.io/demo/default/status/firmware", "sonoff": "https://zigbee-ota.sonoff.tech/releases/upgrade.json",
        "inovelli": "https://files.inovelli.com/firmware/firmware-zha-v2.json", "thirdreality": "https://tr-zha.s3.amazonaws.com/firmware.json",
        "zigpy": "http://idx/zigpy", "z2m": "http://idx/z2m"}
CLS = {"ikea": P.Tradfri, "ledvance": P.Ledvance, "salus": P.Salus, "sonoff": P.Sonoff, "inovelli": P.Inovelli, "thirdreality": P.ThirdReality,
       "zigpy": P.RemoteZigpyProvider, "zigpy-local": P.LocalZigpyProvider, "z2m": P.RemoteZ2MProvider, "z2m-local": P.LocalZ2MProvider}


def run_index(case):
    fmt = case["fmt"]

    async def main(loop):
        with scratch() as root:
            idx, exp = make_index(fmt, case["entries"], root)
            text = json.dumps(idx)
            for m in case["muts"]:
                text = corrupt(text.encode(), m).decode("latin1")
            broken = bool(case["muts"])
            w = {}
            if fmt in URLS:
                w[URLS[fmt]] = {"mode": "ok", "data": text.encode("latin1") if broken else text.encode()}
                p = CLS[fmt](url=URLS[fmt]) if fmt in ("zigpy", "z2m") else CLS[fmt]()
            else:
                (root / "index.json").write_bytes(text.encode("latin1") if broken else text.encode())
                p = CLS[fmt](index_file=root / "index.json")
            with web(w):
                try:
                    got = await p.load_index()
                except Exception as e:  # noqa: BLE001
                    check(broken, "a well formed index is not loaded: %r", e)
                    return
                again = await p.load_index()
            check_eq(again, None, "index asked for again at once")
            if broken:
                return
            check_eq(len(got), len(exp), "number of entries")
            for i, (g, x) in enumerate(zip(got, exp)):
                for k in FIELDS:
                    check_eq(getattr(g, k), x[k], f"{k} of entry {i}")
                for k in ("url", "path"):
                    check_eq(getattr(g, k, None), x.get(k), f"{k} of entry {i}")
                check_eq(type(g.manufacturer_names).__name__ + type(g.model_names).__name__, "tupletuple", "types")
                hash(g)

    vloop.run(main)
    return {"labels": [fmt + (" mutated" if case["muts"] else "")], "nontrivial": len(case["entries"]) > 0}


# ---- several sources --------------------------------------------------------------------------
def run_sources(case):
    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        dev = fakes.add_device(app, 1, 0x2001, eps={1: (260, 0x0100, [0], [0x0019])})
        dev.model, dev.manufacturer = "M", "N"
        ota = app.ota
        ota._providers = []
        w, exp, n = {}, [], 0
        unreadable = set()
        with scratch() as root:
            for si, s in enumerate(case["sources"]):
                fmt = s["fmt"]
                entries = []
                folder = root / f"s{si}"
                (folder / "sub").mkdir(parents=True)
                for fe in s["files"]:
                    n += 1
                    img = c18.enc_image({"h": {"hv": 0x0100, "fc": 0, "manuf": 0x1001, "type": 7, "fv": 100 + n, "sv": 2, "str": bytes(32).hex()},
                                         "els": [[0, bytes([n] * fe["n"]).hex()]]})
                    served = corrupt(img, fe["mut"])
                    ok = fe["mode"] == "ok" and (served == img) and s["mode"] == "ok"
                    url = f"http://files/{si}/{n}"
                    local = s["fmt"] == "advanced" or s["fmt"] == "zigpy-local" and fe["local"]
                    if s["fmt"] == "advanced":
                        (folder / "sub" / f"{n}.ota").write_bytes(served)
                        ok = fe["mode"] == "ok" and c18.attempt(c18.ref_parse, served) is not None
                        if fe["mode"] != "ok":
                            unreadable.add(f"{n}.ota")
                        if ok and c18.ref_parse(served)[1] != img:
                            # another sound image
                            ok = None
                    elif local:
                        if fe["mode"] == "ok":
                            (folder / "sub" / f"{n}.ota").write_bytes(served)
                        entries.append({"file_version": 100 + n, "file_size": len(img), "image_type": 7, "manufacturer_id": 0x1001,
                                        "checksum": "sha3-256:" + hashlib.sha3_256(img).hexdigest(), "path": f"sub/{n}.ota"})
                    else:
                        w[url] = {"mode": fe["mode"], "data": served}
                        entries.append({"file_version": 100 + n, "file_size": len(img), "image_type": 7, "manufacturer_id": 0x1001,
                                        "checksum": "sha3-256:" + hashlib.sha3_256(img).hexdigest(), "binary_url": url})
                    if ok is None:
                        exp.append(None)
                    elif ok:
                        exp.append((100 + n, img.hex()))
                text = json.dumps({"firmwares": entries})
                if s["mode"] == "garbage":
                    text = text[:-2]
                elif s["mode"] == "schema":
                    text = json.dumps({"firmwares": entries + [{"file_version": "1"}]})
                if fmt == "zigpy":
                    w[f"http://idx/{si}"] = {"mode": s["mode"] if s["mode"] in ("error", "hang", "oserror") else "ok", "data": text.encode()}
                    ota.register_provider(P.RemoteZigpyProvider(url=f"http://idx/{si}"))
                elif fmt == "zigpy-local":
                    if s["mode"] not in ("error", "hang", "oserror"):
                        (folder / "index.json").write_text(text)
                    ota.register_provider(P.LocalZigpyProvider(index_file=folder / "index.json"))
                else:
                    ota.register_provider(P.AdvancedFileProvider(path=folder))
            cmd = Ota.ServerCommandDefs.query_next_image.schema(
                field_control=0, manufacturer_code=0x1001, image_type=7, current_file_version=1)
            read = pathlib.Path.read_bytes

            def flaky(self):
                if self.name in unreadable and str(root) in str(self):
                    raise PermissionError(13, "no", str(self))
                return read(self)

            pathlib.Path.read_bytes = flaky
            try:
                with web(w):
                    if case["twice"]:
                        res, res2 = await asyncio.gather(ota.get_ota_images(dev, cmd), ota.get_ota_images(dev, cmd))
                        check_eq([m.version for m in res.upgrades], [m.version for m in res2.upgrades], "results of concurrent queries")
                        log = w.get("#log", [])
                        check_eq(len(log), len(set(log)), f"downloads of concurrent queries ({log})")
                    else:
                        res = await ota.get_ota_images(dev, cmd)
            finally:
                pathlib.Path.read_bytes = read
            got = sorted((m.version, m.firmware.serialize().hex()) for m in res.upgrades)
            want = sorted(x for x in exp if x is not None)
            if None in exp:
                check(set(want) <= set(got), "offered %r, sound are %r", [g[0] for g in got], [x[0] for x in want])
            else:
                check_eq(got, want, "firmware offered")
            return len(want)

    n = vloop.run(main)
    modes = {s["mode"] for s in case["sources"]} | {f["mode"] for s in case["sources"] for f in s["files"]}
    return {"labels": [f"offered {min(n, 3)}"] + sorted(modes - {"ok"}), "nontrivial": n > 0 and len(modes) > 1}


# ---- strategies --------------------------------------------------------------------------------
MUT = st.tuples(st.sampled_from(["flip", "flip", "cut", "drop", "ext", "swap"]), st.integers(0, 2000), st.integers(0, 255)).map(list)


@st.composite
def fetch_st(draw):
    kind = draw(st.sampled_from(["remote", "remote", "local", "ikea", "signed", "signed", "salus"]))
    img = draw(c18.image_st())
    return {"kind": kind, "img": img, "block": draw(st.sampled_from([1, 7, 16, 64, 1000])) if len(str(img)) < 900 else 64,
            "tail": draw(st.binary(min_size=1, max_size=8)).hex(), "wrap": draw(st.sampled_from([None, None, "legrand", "tr", "ikea", "hue"])),
            "lower": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6])), "size": draw(st.sampled_from([None, 0, 0, 0, 1, -1])) if kind != "signed" else draw(st.sampled_from([None, 0, 0, 0, 0, 1, -1])),
            "algo": draw(st.sampled_from([None] + ALGOS)), "wrong": draw(st.sampled_from([0, 0, 0, 1, 2, 4, 7])),
            "muts": draw(st.one_of(st.just([]), st.lists(MUT, min_size=1, max_size=2))), "inner": draw(st.one_of(st.none(), st.none(), MUT))}


@st.composite
def index_st(draw):
    fmt = draw(st.sampled_from(sorted(CLS)))
    es = []
    for _ in range(draw(st.integers(0, 5))):
        es.append({"v": draw(st.one_of(st.integers(0, 12), st.integers(0, 0xFFFFFFFF))), "m": draw(st.integers(0, 0xFFFF)), "t": draw(st.one_of(st.integers(0, 0xFFFF), st.sampled_from([8704, 8710, 0]))),
                   "size": draw(st.integers(0, 1 << 20)), "url": draw(st.sampled_from(["http://a/b", "https://a/b", "http://x/?u=http://y"])) + str(draw(st.integers(0, 99))),
                   "names": draw(st.lists(st.text(max_size=5), max_size=2)), "models": draw(st.lists(st.text(max_size=6), max_size=3)),
                   "opt": draw(st.integers(0, 511)), "hash": draw(st.binary(min_size=64, max_size=64)).hex(), "k": draw(st.integers(0, 4))})
    return {"fmt": fmt, "entries": es, "muts": draw(st.lists(MUT, max_size=2)) if draw(st.integers(0, 4)) == 0 else []}


@st.composite
def sources_st(draw):
    srcs = []
    for _ in range(draw(st.integers(1, 3))):
        fmt = draw(st.sampled_from(["zigpy", "zigpy", "zigpy-local", "advanced"]))
        files = [{"n": draw(st.integers(1, 20)), "mut": draw(st.one_of(st.none(), st.none(), MUT)), "mode": draw(st.sampled_from(["ok", "ok", "ok", "error", "hang", "oserror"])),
                  "local": draw(st.booleans())} for _ in range(draw(st.integers(0, 3)))]
        srcs.append({"fmt": fmt, "files": files, "mode": "ok" if fmt == "advanced" else draw(st.sampled_from(["ok", "ok", "ok", "error", "hang", "oserror", "garbage", "schema"]))})
    return {"sources": srcs, "twice": draw(st.booleans())}


CHECK = Check(
    "C22",
    rule="any fetched file, a non-empty index, or sources of which some fail while others offer firmware",
    assumptions=["a stand-in for aiohttp's client serves indexes and files; transport security is not modelled",
                 "an index that violates its schema is refused as a whole"],
    suites=[Suite("fetch", run_fetch, strategy=fetch_st, quick=4000, thorough=100000),
            Suite("index", run_index, strategy=index_st, quick=2500, thorough=50000),
            Suite("sources", run_sources, strategy=sources_st, quick=1200, thorough=20000)])
