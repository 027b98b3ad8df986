"""C36: connections to the radio are opened exactly as configured, and failures surface as themselves."""
from __future__ import annotations

import asyncio
import pathlib

from vlib.core import Check, Suite, Violation, check, check_eq
from vlib import vloop

import serial as pyserial
import zigpy.serial
from zigpy.typing import UNDEFINED

from hypothesis import strategies as st

LABEL = st.text("abcdefghijklmnopqrstuvwxyz0123456789-", min_size=1, max_size=8).filter(lambda x: x[0] != "-" and x[-1] != "-")
HOST = st.one_of(LABEL, st.lists(LABEL, min_size=2, max_size=3).map(".".join), st.sampled_from(["localhost", "192.168.1.20", "10.0.0.1"]),
                 st.sampled_from(["[::1]", "[fe80::1]", "[2001:db8::17]"]))
ERRORS = {"os": OSError, "notfound": FileNotFoundError, "perm": PermissionError, "refused": ConnectionRefusedError, "value": ValueError, "timeout": TimeoutError}


@st.composite
def cases(draw):
    tcp = draw(st.booleans())
    c = dict(tcp=tcp)
    if tcp:
        c["scheme"] = draw(st.sampled_from(["socket", "tcp", "SOCKET", "Tcp"]))
        c["host"] = draw(HOST)
        c["port"] = draw(st.one_of(st.none(), st.integers(1, 65535), st.sampled_from([1, 80, 6638, 6639, 65535])))
        c["user"] = draw(st.sampled_from([None, None, "u", "u:p"]))
        c["tail"] = draw(st.sampled_from(["", "", "/", "/x", "?y=1"]))
    else:
        c["url"] = draw(st.one_of(
            st.sampled_from(["/dev/ttyUSB0", "/dev/serial/by-id/usb-ITEAD_SONOFF:1-if00-port0", "COM3", "COM10", "loop://", "rfc2217://host:7000",
                             "spy:///dev/ttyUSB0?file=x", "/dev/socket", "/dev/tcp0", "socketed://x", "\\\\.\\COM12", "tcp", "alt:///dev/x?class=PosixPollSerial", "/dev/tty radio ", "/dev/TTYusb0"]),
            st.text("abcXYZ019_-.", min_size=1, max_size=20).map(lambda x: "/dev/" + x)))
        c["path"] = c["url"].startswith("/dev") and draw(st.booleans())
    for k, s in (("baudrate", st.sampled_from([1200, 9600, 38400, 57600, 115200, 230400, 460800, 921600])),
                 ("exclusive", st.sampled_from([None, True, False])), ("xonxoff", st.booleans()), ("rtscts", st.booleans()),
                 ("flow_control", st.sampled_from([None, "hardware", "software"])), ("timeout", st.sampled_from([0, 1.5])),
                 ("bytesize", st.sampled_from([7, 8]))):
        if draw(st.integers(0, 2)) == 0:
            c[k] = draw(s)
    # (kind, error name, context error name or None, delay)
    c["end"] = draw(st.sampled_from(["ok", "ok", "ok", "error", "wrapped", "bare", "hang"]))
    c["err"] = draw(st.sampled_from(sorted(ERRORS)))
    c["chained"] = draw(st.booleans())
    c["delay"] = draw(st.sampled_from([0, 0, 0.5, 4.9]))
    return c


def run(case):
    labels = {"tcp" if case["tcp"] else "serial", case["end"]}

    async def main(loop):
        calls = []
        made = (object(), object())
        original = ERRORS[case["err"]]("injected failure")

        async def finish():
            if case["delay"]:
                await asyncio.sleep(case["delay"])
            end = case["end"]
            if end == "ok" or (end in ("wrapped", "bare") and case["tcp"]):
                return made
            if end == "hang":
                await asyncio.sleep(1e6)
            if end == "error":
                try:
                    raise RuntimeError("something before") if case["chained"] else original
                except RuntimeError:
                    raise original      # noqa: B904
            if end == "bare":
                raise pyserial.SerialException("port is gone")
            try:
                raise original
            except Exception:
                raise pyserial.SerialException("could not open port")   # noqa: B904

        async def create_connection(*a, **kw):
            calls.append(("tcp", a, kw))
            return await finish()

        async def create_serial_connection(*a, **kw):
            calls.append(("serial", a, kw))
            return await finish()

        class Loop:
            """hands everything else to the real loop"""
            def __getattr__(self, name):
                return getattr(loop, name)
        lp = Loop()
        lp.create_connection = create_connection
        mod = zigpy.serial.pyserial_asyncio
        keep = mod.create_serial_connection
        mod.create_serial_connection = create_serial_connection

        def factory():
            raise AssertionError
        kw = {k: case[k] for k in ("baudrate", "exclusive", "xonxoff", "rtscts", "flow_control", "timeout", "bytesize") if k in case}
        if case["tcp"]:
            url = f"{case['scheme']}://" + (f"{case['user']}@" if case["user"] else "") + case["host"] + (
                f":{case['port']}" if case["port"] is not None else "") + case["tail"]
        else:
            url = pathlib.PurePosixPath(case["url"]) if case["path"] else case["url"]
        start = loop.time()
        out = err = None
        task = asyncio.ensure_future(zigpy.serial.create_serial_connection(lp, factory, url, **kw))
        try:
            done, _ = await asyncio.wait([task], timeout=60)
            took = loop.time() - start
            hung = not done
            if hung:
                task.cancel()
                await asyncio.wait([task])
            else:
                err = task.exception()
                out = None if err is not None else task.result()
        finally:
            mod.create_serial_connection = keep
        what = f"opening {url!r} with {kw}"
        check_eq(len(calls), 1, f"connections made by {what}")
        kind, a, got = calls[0]
        check_eq(kind, "tcp" if case["tcp"] else "serial", f"kind of connection made by {what}")
        got = dict(got)
        if case["tcp"]:
            pf = a[0] if a else got.pop("protocol_factory")
            rest = list(a[1:])
            host = rest.pop(0) if rest else got.pop("host")
            port = rest.pop(0) if rest else got.pop("port")
            check(pf is factory, "another protocol factory was used")
            check_eq((host, port), (case["host"].strip("[]"), case["port"] or 6638), f"address of {what}")
            check_eq((rest, got), ([], {}), f"other arguments of {what}")
        else:
            a = list(a)
            check((a.pop(0) if a else got.pop("loop")) is lp, "another loop was used")
            check((a.pop(0) if a else got.pop("protocol_factory")) is factory, "another protocol factory was used")
            u = a.pop(0) if a else got.pop("url")
            check_eq((type(u), u), (str, str(url)), f"port of {what}")
            fc = case.get("flow_control", 0)
            exp = {"baudrate": case.get("baudrate", 115200), "exclusive": case.get("exclusive"),
                   "xonxoff": case.get("xonxoff", False) if fc == 0 else fc == "software",
                   "rtscts": case.get("rtscts", False) if fc == 0 else fc == "hardware"}
            exp.update({k: case[k] for k in ("timeout", "bytesize") if k in case})
            check_eq(got, exp, f"settings of {what}")
            if "flow_control" in case:
                labels.add(f"flow control {fc}")
        end = case["end"]
        fails = end == "error" or (end in ("wrapped", "bare") and not case["tcp"])
        if end == "hang":
            if case["tcp"]:
                check(isinstance(err, asyncio.TimeoutError), "a TCP connection that hangs ends in %r", err)
                check(4.99 <= took <= 5.01, "a TCP connection that hangs is given up after %s s", took)
            else:
                check(hung or isinstance(err, asyncio.TimeoutError), "a port that hangs ends in %r", err)
        elif fails:
            if end == "bare":
                check(isinstance(err, pyserial.SerialException) and str(err) == "port is gone", "a serial error surfaces as %r", err)
            else:
                check(err is original, "the error %r surfaces as %r", original, err)
        else:
            check(err is None, "%s fails with %r", what, err)
            check_eq(len(out), 2, f"result of {what}")
            check(out[0] is made[0] and out[1] is made[1], "%s returns something else than its transport and protocol", what)

    vloop.run(main)
    return dict(labels=sorted(labels), nontrivial=True)


CHECK = Check("C36", rule="every case opens one connection", assumptions=[
    "the TCP and serial back ends are stand-ins recording their arguments; no port is opened",
    "flow_control=None means neither kind, as its documented values say"],
    suites=[Suite("connections", run, strategy=cases, quick=2500, thorough=60000)])
assert UNDEFINED is not None
