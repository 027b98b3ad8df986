"""C21: an OTA update delivers exactly the image and always terminates cleanly."""
from __future__ import annotations

import asyncio
import struct

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, vloop
from checks import c18

import zigpy.exceptions
import zigpy.ota
from zigpy.ota import image as I, providers as P

from hypothesis import strategies as st

OK, FAILURE, MALFORMED, TIMEOUT, ABORT, NOIMG = 0x00, 0x01, 0x80, 0x94, 0x95, 0x98
OTA = 0x0019


def run(case):
    im = case["img"]
    els = [[0, (bytes(range(256)) * 9)[im["seed"]:im["seed"] + n].hex()] for n in im["els"]]
    h = {"hv": 0x0100, "fc": 4 if im["hw"] else 0, "manuf": 0x1001 if not im["hue"] else c18.HUE, "type": 7, "fv": im["fv"], "sv": 2,
         "str": bytes(32).hex(), "scv": 0, "dest": bytes(8).hex(), "hwmin": (im["hw"] or [0, 0])[0], "hwmax": (im["hw"] or [0, 0])[1]}
    if im["hue"]:
        data = b"\x2a\x00\x01" + bytes.fromhex("".join(d for _, d in els))
        raw = c18.enc_header(h, len(data)) + data
    else:
        raw = c18.enc_image({"h": h, "els": els})
    firmware, rest = I.parse_ota_image(raw)
    check_eq(bytes(rest), b"", "rest")
    stat = set()

    def raw_for(force):
        return raw[:14] + struct.pack("<I", 0xFFFFFFFE) + raw[18:] if force else raw

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        eps = {1: (260, 0x0100, [0], [OTA] if case["ep"] == 1 else [])}
        if case["ep"] == 2:
            eps[2] = (260, 0x0100, [0], [OTA])
        dev = fakes.add_device(app, 1, 0x2001, eps=eps)
        ep = case["ep"]
        other = fakes.add_device(app, 2, 0x2002, eps={1: (260, 0x0100, [0], [OTA])})
        meta = P.BaseOtaImageMetadata(file_version=im["fv"], manufacturer_id=h["manuf"], image_type=7,
                                      max_current_file_version=im["maxcur"])
        image = zigpy.ota.OtaImageWithMetadata(metadata=meta, firmware=firmware)
        fault = [None]
        reads = [0]
        tsn = [10]

        async def send(packet):
            d = packet.data.serialize()
            if packet.cluster_id == OTA and d[2] == 0 and not d[0] & 1:
                # the device is asked for its version
                reads[0] += 1
                if reads[0] > case["deaf"]:
                    body = sim_read(d)
                    loop.call_later(0.2, app.packet_received, fakes.packet(0x2001, OTA, body, src_ep=ep, dst_ep=1))
                    return
                how = case.get("how") or ("fail" if case["deaf"] % 2 else "lost")
                if how == "fail":
                    raise zigpy.exceptions.DeliveryError("away")
                if how != "lost":
                    # an answer cut short, a refusal of the command, one of the attribute, an answer that says nothing
                    body = {"garbled": sim_read(d)[:-2], "refused": bytes([0x18, d[1], 0x0B, 0x00, 0x81]),
                            "unsupported": bytes([0x18, d[1], 0x01, 0x02, 0x00, 0x86]), "empty": bytes([0x18, d[1], 0x01])}[how]
                    loop.call_later(0.2, app.packet_received, fakes.packet(0x2001, OTA, body, src_ep=ep, dst_ep=1))
                return
            f, fault[0] = fault[0], None
            if f == "fail":
                raise zigpy.exceptions.DeliveryError("no route")
            if f == "error":
                raise asyncio.TimeoutError()
            if f:
                await asyncio.sleep(f)

        def sim_read(d):
            return bytes([0x18, d[1], 0x01]) + struct.pack("<H", 2) + b"\x00\x23" + struct.pack("<I", 77)

        app.hooks["send_packet"] = send

        def recv(cmd, payload, src=0x2001, fc=0x11, e=None):
            tsn[0] = (tsn[0] + 1) % 256
            app.packet_received(fakes.packet(src, OTA, bytes([fc, tsn[0], cmd]) + payload, src_ep=e or (ep if src == 0x2001 else 1), dst_ep=1))
            return tsn[0]

        def out(n0):
            r = []
            for p in app.sent[n0:]:
                d = p.data.serialize()
                if p.cluster_id == OTA and d[0] & 3 == 1:
                    r.append((int(p.dst.address), p.dst_ep, d[1], d[2], d[3:]))
            return r

        for rn, upd in enumerate(case["updates"]):
            img = raw_for(upd["force"])
            fv = 0xFFFFFFFE if upd["force"] else im["fv"]
            ident = struct.pack("<HHI", h["manuf"], 7, fv)
            progress = []
            done = []

            def cb(cur, total, pct):
                progress.append((cur, total, pct))

            async def update():
                try:
                    done.append(("result", await dev.update_firmware(image, progress_callback=cb if upd["cb"] else None, force=upd["force"]), loop.time()))
                except asyncio.CancelledError:
                    done.append(("cancelled", None, loop.time()))
                    raise
                except Exception as e:  # noqa: BLE001
                    done.append(("error", e, loop.time()))

            n0 = len(app.sent)
            reads[0] = 0
            fault[0] = upd["notify"]
            task = asyncio.create_task(update())
            start = loop.time()
            await vloop.settle()
            what = f"update {rn}"
            ended = None          # (status, time)
            exp_progress = []
            notify_delay = upd["notify"] if isinstance(upd["notify"], float) else 0
            if isinstance(upd["notify"], str):
                ended = (FAILURE, start)
            elif notify_delay:
                await asyncio.sleep(notify_delay)
                await vloop.settle()
            deadline = start + notify_delay + 30
            o = out(n0)
            check_eq([x[:2] + x[3:4] for x in o], [(0x2001, ep, 0x00)], f"notification of the device ({done})")

            def ended_by_now():
                nonlocal ended
                if ended is None and loop.time() > deadline:
                    ended = (TIMEOUT, deadline)
                    stat.add("stalled")

            for op in upd["ops"]:
                ended_by_now()
                n0 = len(app.sent)
                k = op["op"]
                fault[0] = None
                if k == "wait":
                    await asyncio.sleep(op["t"])
                    continue
                if k == "second":
                    r = "pending"
                    if ended is None:
                        r = await dev.update_firmware(image)
                        check_eq(r, None, "an update started during an update")
                        check_eq(len(app.sent), n0, "packets sent by an update started during an update")
                        stat.add("second update")
                    continue
                if k == "cancel":
                    if ended is None:
                        task.cancel()
                        await vloop.settle()
                        check_eq(done[0][0] if done else None, "cancelled", "cancelled update")
                        ended = ("cancelled", loop.time())
                        stat.add("cancelled")
                    continue
                if k == "foreign" and not (ended is not None and ended[0] == OK):
                    # another device asks for blocks
                    t0 = recv(0x03, b"\x00" + ident + struct.pack("<IB", 0, 40), src=0x2002)
                    await vloop.settle()
                    check_eq(out(n0), [(0x2002, 1, t0, 0x05, bytes([ABORT]))], "answer to another device")
                    continue
                if k == "report":
                    app.packet_received(fakes.packet(0x2001, OTA, bytes([0x18, 99, 0x0A, 6, 0, 0x30, 1]), src_ep=ep, dst_ep=1))
                    await vloop.settle()
                    continue
                if ended is not None and ended[0] == OK and loop.time() > ended[1] + 9.5:
                    # answers may have to wait for the request of the version
                    continue
                f = op["fault"]
                fault[0] = f
                reqs = []
                if k == "query":
                    reqs.append((0x01, bytes([0 if op["hw"] is None else 1]) + struct.pack("<HHI", op["manuf"] if op["manuf"] else h["manuf"], op["type"], op["cur"]) + (
                        b"" if op["hw"] is None else struct.pack("<H", op["hw"])), op))
                elif k == "block":
                    for off in op["offs"]:
                        o = (off if isinstance(off, int) else len(img) + off[0]) & 0xFFFFFFFF
                        extra = (bytes(8) if op["fc"] & 1 else b"") + (b"\x05\x00" if op["fc"] & 2 else b"")
                        reqs.append((0x03, bytes([op["fc"]]) + ident + struct.pack("<IB", o, op["max"]) + extra, o))
                elif k == "end":
                    reqs.append((0x06, bytes([op["status"]]) + ident, op))
                elif k == "abort-end":
                    reqs.append((0x06, bytes([ABORT]) + b"\x99\x99\x07\x00" + b"\x01\0\0\0", {"status": ABORT}))
                if len(reqs) > 1:
                    fault[0] = f = None
                fs, reqs2 = isinstance(f, float), []
                for cmd, payload, x in reqs:
                    reqs2.append((recv(cmd, payload), cmd, x))
                await vloop.settle()
                if fs:
                    await asyncio.sleep(f)
                    await vloop.settle()
                sent = out(n0)
                was_ended = ended
                if fs and ended is None and loop.time() > deadline:
                    # timed out while the answer was being sent
                    ended = (TIMEOUT, deadline)
                    stat.add("stalled")
                exp = []
                over = was_ended is not None
                for t0, cmd, x in reqs2:
                    if cmd == 0x01:
                        if over:
                            exp.append((0x2001, ep, t0, 0x02, bytes([NOIMG])))
                            continue
                        m = x["manuf"] if x["manuf"] else h["manuf"]
                        adm = upd["force"] or (m == h["manuf"] and x["type"] == 7 and (
                            im["hw"] is None or x["hw"] is not None and im["hw"][0] <= x["hw"] <= im["hw"][1]) and im["fv"] > x["cur"] and (
                            im["maxcur"] is None or x["cur"] <= im["maxcur"]))
                        exp.append((0x2001, ep, t0, 0x02, bytes([OK if adm else NOIMG]) + ident + struct.pack("<I", len(img))))
                        stat.add("query admitted" if adm else "query refused")
                        if not adm or isinstance(f, str):
                            over = True
                            if ended is None:
                                ended = (FAILURE if isinstance(f, str) else NOIMG, loop.time())
                    elif cmd == 0x03:
                        if over:
                            exp.append((0x2001, ep, t0, 0x05, bytes([ABORT])))
                            continue
                        blk = img[x:x + min(40, op["max"])]
                        if not blk:
                            exp.append((0x2001, ep, t0, 0x05, bytes([MALFORMED])))
                            # nothing that was asked for together with it is wrong, its order of processing is free
                            over = len(reqs2) == 1
                            if ended is None:
                                ended = (MALFORMED, loop.time())
                            stat.add("out of range")
                        else:
                            exp.append((0x2001, ep, t0, 0x05, b"\x00" + ident + struct.pack("<IB", x, len(blk)) + blk))
                            if isinstance(f, str):
                                if ended is None:
                                    ended = (FAILURE, loop.time())
                                over = True
                                stat.add("delivery failure")
                            else:
                                if ended is None:
                                    deadline = loop.time() + 30
                                    exp_progress.append((x + len(blk), len(img)))
                                stat.add("block")
                    else:
                        if over:
                            continue
                        exp.append((0x2001, ep, t0, 0x07, ident + bytes(8)))
                        over = True
                        if ended is None:
                            ended = (FAILURE if isinstance(f, str) else x["status"], loop.time())
                        stat.add("end")
                w = f"{what}, {k} {op}"
                if len(reqs2) > 1:
                    check_eq(sorted(sent), sorted(exp), f"answers to {w}")
                else:
                    if exp and exp[0][3] == 0x02 and exp[0][4][:1] == bytes([NOIMG]):
                        sent = [s[:4] + (s[4][:1],) for s in sent]
                        exp = [s[:4] + (s[4][:1],) for s in exp]
                    check_eq(sent, exp, f"answers to {w}")
                # progress
                if upd["cb"]:
                    got = [p[:2] for p in progress]
                    if len(reqs2) > 1 and ended is not None and was_ended is None:
                        # blocks and an invalid request together: blocks processed first may be counted
                        check(all(p in exp_progress or p[1] == len(img) and p[0] <= len(img) for p in got), "progress %r", got)
                        exp_progress = list(got)
                    else:
                        check_eq(got, exp_progress, f"progress after {w}")
                    for c, tot, pct in progress:
                        check(0 < c <= tot and abs(pct - 100 * c / tot) < 1e-6 and pct <= 100, "progress %r of %r is %r", c, tot, pct)
                await vloop.settle()
                if ended is not None and ended[0] != "cancelled":
                    if ended[0] != OK:
                        check_eq([d[:1] + (int(d[1]),) if d[0] == "result" else d for d in done], [("result", ended[0])], f"outcome of {w}")
                    else:
                        check_eq(len(done), 0 if loop.time() < ended[1] + 10 else len(done), f"outcome of {w}")
                else:
                    check(bool(done) == (ended is not None), "outcome of %s: %r, expected %r", w, done, ended)
            fault[0] = None
            if ended is None:
                await asyncio.sleep(max(0, deadline - loop.time()) + 1)
                ended = (TIMEOUT, deadline)
                stat.add("stalled")
            await asyncio.sleep(300)
            if ended[0] != "cancelled":
                check_eq(len(done), 1, f"outcomes of {what}, which ended with {ended[0]:#x}: {done}")
                check(done[0][0] == "result", "%s, which the device ended with %#x, raised %r", what, ended[0], done[0][1])
                check_eq(int(done[0][1]), ended[0], f"result of {what}")
                if ended[0] != OK:
                    check(abs(done[0][2] - ended[1]) < 0.01, "%s ended at %r, expected %r", what, done[0][2], ended[1])
                else:
                    stat.add("success")
                    check(reads[0] >= 1, "the version is not read after the update")
                    how = case.get("how")
                    if case["deaf"] < 4 and (not case["deaf"] or how not in ("refused", "unsupported", "empty")):
                        check_eq(dev.endpoints[ep].out_clusters[OTA].get("current_file_version"), 77, "version after the update")
                    else:
                        stat.add("away after the update")
                        check_eq(dev.endpoints[ep].out_clusters[OTA].get("current_file_version"), None, "version after the update")
            check(task.done(), "update still running")
            check_eq(dev.ota_in_progress, False, "update in progress")
            # requests are refused afterwards
            n0, np = len(app.sent), len(progress)
            t0 = recv(0x03, b"\x00" + ident + struct.pack("<IB", 0, 40))
            t1 = recv(0x06, b"\x00" + ident)
            await vloop.settle()
            check_eq(out(n0), [(0x2001, ep, t0, 0x05, bytes([ABORT]))], "answers after the update")
            check_eq(len(progress), np, "progress after the update")
        bad = [x for x in loop.errors if "exception" in x]
        check(not bad, "errors in background: %r", bad[:1])
        await app._dblistener.shutdown() if getattr(app, "_dblistener", None) else None
        assert other is not None

    vloop.run(main)
    return {"labels": sorted(stat), "nontrivial": len(stat & {"block", "query admitted", "end", "stalled", "delivery failure", "success", "out of range"}) > 1}


@st.composite
def case_st(draw):
    hw = draw(st.sampled_from([None, None, [1, 5]]))
    img = {"seed": draw(st.integers(0, 255)), "els": draw(st.lists(st.integers(0, 200), min_size=1, max_size=2)), "hw": hw,
           "fv": draw(st.sampled_from([5, 100, 0xFFFFFFFE])), "hue": draw(st.integers(0, 4)) == 0,
           "maxcur": draw(st.sampled_from([None, None, None, 50]))}
    size = 56 + 6 * len(img["els"]) + sum(img["els"])

    def ops():
        res = []
        style = draw(st.sampled_from(["proper", "proper", "wild"]))
        flt = lambda p: draw(st.sampled_from([None] * p + ["fail", "error", 0.37, 3.3, 33.3]))  # noqa: E731
        query = lambda good: {"op": "query", "manuf": None if good else draw(st.sampled_from([None, 0x1002])),  # noqa: E731
                              "type": 7 if good else draw(st.sampled_from([7, 8])),
                              "cur": draw(st.sampled_from([0, 1])) if good else draw(st.sampled_from([0, 1, 4, 5, 6, 50, 51, 100, 0xFFFFFFFF])),
                              "hw": 3 if good and hw else draw(st.sampled_from([None, 0, 1, 3, 5, 6])), "fault": flt(20)}
        if style == "proper":
            mx = draw(st.sampled_from([20, 40, 48, 64, 255]))
            res.append(query(True))
            start = draw(st.sampled_from([0, 0, 1, 20]))
            for off in range(start, size + 10, min(mx, 40)):
                if off >= size:
                    break
                res.append({"op": "block", "offs": [off], "max": mx, "fc": 0, "fault": flt(60)})
            res.append({"op": "end", "status": draw(st.sampled_from([0, 0, 0, 0x96, ABORT])), "fault": flt(12)})
            n = draw(st.integers(0, 3))
        else:
            n = draw(st.integers(1, 10))
        for _ in range(n):
            k = draw(st.sampled_from(["query", "block", "block", "block", "end", "abort-end", "wait", "wait", "second", "cancel", "foreign", "report"]))
            if k == "query":
                o = query(draw(st.booleans()))
            elif k == "block":
                off = lambda: draw(st.one_of(st.integers(0, size), st.sampled_from([0, [0], [-1], [-40], [1], 0xFFFFFFFF, 0x80000000])))  # noqa: E731
                o = {"op": k, "offs": [off() for _ in range(draw(st.sampled_from([1, 1, 1, 2, 4])))], "max": draw(st.sampled_from([0, 1, 40, 41, 64, 255, 40])),
                     "fc": draw(st.sampled_from([0, 0, 1, 2, 3])), "fault": flt(9)}
            elif k == "end":
                o = {"op": k, "status": draw(st.sampled_from([0, 0, 0x96, ABORT, 0x99, 0x01])), "fault": flt(6)}
            elif k == "wait":
                o = {"op": k, "t": draw(st.sampled_from([0.013, 2.07, 11.11, 12.5, 29.3, 29.93, 31.17]))}
            else:
                o = {"op": k, "fault": None}
            res.insert(draw(st.integers(0, len(res))), o)
        return res

    ups = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        ups.append({"ops": ops(), "force": draw(st.integers(0, 3)) == 0, "cb": draw(st.booleans()),
                    "notify": draw(st.sampled_from([None] * 9 + ["fail", "error", 0.7, 31.7]))})
    return {"img": img, "updates": ups, "ep": draw(st.sampled_from([1, 1, 2])), "deaf": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 8, 9])),
            "how": draw(st.sampled_from(["fail", "lost", "garbled", "refused", "unsupported", "empty"]))}


CHECK = Check(
    "C21",
    rule="an update with at least two of: admitted query, served blocks, end, stall, delivery failure, out of range request, success",
    assumptions=["the device stops asking when no block could be delivered for 30 seconds",
                 "requests that arrive together may be processed in any order"],
    suites=[Suite("updates", run, strategy=case_st, quick=4000, thorough=60000, case_timeout=60)])
