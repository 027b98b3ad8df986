"""C13: backup history and restoring."""
from __future__ import annotations

import asyncio
import copy

from vlib.core import Check, Suite, Violation, check, check_eq, short, one_of
from vlib import bk, core, fakes, vloop

import zigpy.backups as zb
import zigpy.exceptions as ex
import zigpy.state as zs

from hypothesis import strategies as st

BASE = {"time": 0, "tz": 0, "nwk": 0, "ieee": "1111111111111111", "type": 0, "model": "m", "manufacturer": "f",
        "version": "1", "epid": "2222222222222222", "pan": 0x1234, "update": 3, "manager": 0, "channel": 15,
        "mask": [15], "sec": 5, "nk": {"key": "33" * 16, "tx": 0, "rx": 0, "seq": 1, "ieee": "ff" * 8},
        "tc": {"key": "44" * 16, "tx": 5, "rx": 0, "seq": 0, "ieee": "1111111111111111"},
        "keys": [], "children": [], "nwks": {}, "stack": {}, "meta": {}, "source": "radio"}
#: fields that make two backups belong to different networks
IDENTITY = {"nwk": [1], "type": [1], "ieee": ["55" * 8], "epid": ["66" * 8], "pan": [0x4321, 1], "update": [4, 2],
            "manager": [9], "channel": [11, 26], "sec": [4], "tck": ["77" * 16], "nkk": ["88" * 16]}
OTHER = {"model": [None, "x"], "manufacturer": [None], "version": [None, "2"], "mask": [[11, 15]], "seq": [2],
         "nkrx": [7], "tctx": [9], "tci": ["99" * 8], "children": [["aa" * 8]], "nwks": [{"aa" * 8: 0x1111}],
         "keys": [[{"key": "ab" * 16, "tx": 1, "rx": 2, "seq": 3, "ieee": "aa" * 8}]], "stack": [{"a": 1}],
         "meta": [{"b": [1]}], "source": [None], "time": [10**12, 2 * 10**12]}
#: fields without which a network cannot be recreated
BROKEN = {"ieee": ["ff" * 8], "epid": ["ff" * 8], "pan": [0, 0xFFFF], "channel": [0, 10, 27, 255], "nkk": ["ff" * 16]}


def spec(s):
    d = copy.deepcopy(BASE)
    d["nk"]["tx"] = s["tx"]
    for k, v in s["set"]:
        if k == "tck":
            d["tc"]["key"] = v
        elif k == "nkk":
            d["nk"]["key"] = v
        elif k == "seq":
            d["nk"]["seq"] = v
        elif k == "nkrx":
            d["nk"]["rx"] = v
        elif k == "tctx":
            d["tc"]["tx"] = v
        elif k == "tci":
            d["tc"]["ieee"] = v
        else:
            d[k] = v
    return d


def ident(d):
    return (d["nwk"], d["type"], d["ieee"], d["epid"], d["pan"], d["update"], d["manager"], d["channel"], d["sec"],
            d["tc"]["key"], d["nk"]["key"])


def complete(d):
    return (d["ieee"] != "ff" * 8 and d["epid"] != "ff" * 8 and d["pan"] not in (0, 0xFFFF)
            and 11 <= d["channel"] <= 26 and d["nk"]["key"] != "ff" * 16)


def plain(b):
    c = bk.canon(b)
    c.pop("format")
    return c


def notime(c):
    return {k: v for k, v in c.items() if k != "time"}


class Log:
    def __init__(self):
        self.events = []

    def network_backup_created(self, b):
        self.events.append(("created", plain(b)))

    def network_backup_removed(self, b):
        self.events.append(("removed", plain(b)))


class RadioState:
    """What the radio remembers; read either into fresh objects or into the application's own ones."""

    def __init__(self, app, mutate):
        self.app, self.mutate = app, mutate
        self.stored = None
        self.fail = None
        app.hooks["load_network_info"] = self.load
        app.hooks["write_network_info"] = self.write

    def load(self, load_devices):
        if self.fail == "load":
            raise core.injected(RuntimeError, "radio")
        b = copy.deepcopy(self.stored)
        if self.mutate and self.app.state.network_info is not None:
            for a, o in ((self.app.state.network_info, b.network_info), (self.app.state.node_info, b.node_info)):
                for k, v in vars(o).items():
                    if k in ("network_key", "tc_link_key"):
                        for kk, vv in vars(v).items():
                            setattr(getattr(a, k), kk, vv)
                    else:
                        setattr(a, k, v)
        else:
            self.app.state.network_info, self.app.state.node_info = b.network_info, b.node_info

    def write(self, network_info, node_info):
        if self.fail == "write":
            raise core.injected(RuntimeError, "radio")
        self.stored = zb.NetworkBackup(network_info=copy.deepcopy(network_info), node_info=copy.deepcopy(node_info))


def run_history(case):
    n = {"removed": 0, "kept": 0, "incomplete": 0, "restored": 0}

    async def main(loop):
        app = fakes.make_app()
        app.state.network_info = zs.NetworkInfo()
        app.state.node_info = zs.NodeInfo()
        radio = RadioState(app, case["mutate"])
        radio.stored = bk.mk(BASE)
        log = Log()
        app.backups.add_listener(log)
        model = []       # canonical dicts, oldest first

        def model_add(c, quiet=False):
            ev = []
            if not complete(c):
                n["incomplete"] += 1
                return ev
            for o in model[:]:
                if ident(o) == ident(c):
                    if o["nk"]["tx"] <= c["nk"]["tx"]:
                        model.remove(o)
                        ev.append(("removed", o))
                        n["removed"] += 1
                    else:
                        n["kept"] += 1
            model.append(c)
            ev.append(("created", c))
            return [] if quiet else ev

        for op in case["ops"]:
            k = op["op"]
            log.events.clear()
            want = []
            if k == "add":
                d = spec(op["spec"])
                b = bk.mk(d)
                c = plain(b)
                check_eq(b.is_complete(), complete(c), f"completeness of {c}")
                for old, m in zip(app.backups.backups, model):
                    same = ident(m) == ident(c)
                    for x, y, cx, cy in ((b, old, c, m), (old, b, m, c)):
                        check_eq(x.is_compatible_with(y), same, "compatibility")
                        check_eq(x.supersedes(y), same and cx["nk"]["tx"] > cy["nk"]["tx"], "supersedes")
                app.backups.add_backup(b, suppress_event=op["quiet"])
                want = model_add(c, op["quiet"])
            elif k == "create":
                d = spec(op["spec"])
                radio.stored = bk.mk(d)
                radio.fail = op["fail"]
                try:
                    b = await app.backups.create_backup()
                except RuntimeError:
                    check_eq(op["fail"], "load", "failure")
                else:
                    check(op["fail"] != "load", "the failure of the radio was lost")
                    c = plain(b)
                    check_eq(notime(c), notime(plain(bk.mk(d))), "created backup")
                    want = model_add(c)
                radio.fail = None
            elif k == "restore":
                if op["pick"] is not None and app.backups.backups:
                    i = op["pick"] % len(model)
                    b, c = app.backups[i], model[i]
                else:
                    b = bk.mk(spec(op["spec"]))
                    c = plain(b)
                before = plain(b)
                radio.stored = bk.mk(dict(BASE, epid="ff" * 8))
                was = copy.deepcopy(radio.stored)
                radio.fail = op["fail"] if op["fail"] == "write" else None
                try:
                    kw = {} if op["inc"] is None else {"counter_increment": op["inc"]}
                    await app.backups.restore_backup(b, allow_incomplete=op["allow"], create_new=op["new"], **kw)
                except ValueError:
                    check(not complete(c) and not op["allow"], "a complete backup was refused")
                    check_eq(plain(radio.stored), plain(was), "radio after a refused restore")
                except RuntimeError:
                    check(radio.fail == "write", "unexpected failure")
                else:
                    check(radio.fail is None, "the failure of the radio was lost")
                    check(complete(c) or op["allow"], "an incomplete backup was restored")
                    n["restored"] += 1
                    exp = copy.deepcopy(c)
                    exp["nk"]["tx"] += 10000 if op["inc"] is None else op["inc"]
                    check_eq(notime(plain(radio.stored)), notime(exp), "written to the radio")
                    if op["new"]:
                        check(app.backups.backups or not complete(exp), "no backup after restoring")
                        if complete(exp):
                            last = plain(app.backups.most_recent_backup())
                            check_eq(notime(last), notime(exp), "backup made after restoring")
                            exp["time"] = last["time"]
                        want = model_add(exp)
                radio.fail = None
                check_eq(plain(b), before, "the backup that was restored")
            have = [plain(b) for b in app.backups.backups]
            check(have == model, "history after %s:\n expected %s\n got %s", k,
                  short([x for x in model if x not in have]), short([x for x in have if x not in model]))
            check_eq(log.events, want, f"events of {k}")
            m = app.backups.most_recent_backup()
            check_eq(None if m is None else plain(m), model[-1] if model else None, "most recent backup")
    vloop.run(main)
    return {"labels": sorted(k for k, v in n.items() if v), "nontrivial": n["removed"] + n["kept"] > 0}


def spec_st():
    def pick(d):
        return st.sampled_from(sorted(d)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(d[k])).map(list))
    tx = st.sampled_from([0, 10, 100, 100, 101, 5000, 10100, 20100, 0xFFFFFFFF - 50000])
    return st.fixed_dictionaries({"tx": tx, "set": st.one_of(
        st.just([]), st.lists(pick(OTHER), max_size=3), st.lists(pick(IDENTITY), min_size=1, max_size=1),
        st.lists(st.one_of(pick(IDENTITY), pick(OTHER)), max_size=4), st.lists(pick(BROKEN), min_size=1, max_size=1))})


def history_cases():
    fail = st.sampled_from([None, None, None, "load", "write"])
    add = st.fixed_dictionaries({"op": st.just("add"), "spec": spec_st(), "quiet": st.sampled_from([False, False, True])})
    create = st.fixed_dictionaries({"op": st.just("create"), "spec": spec_st(), "fail": fail})
    restore = st.fixed_dictionaries({
        "op": st.just("restore"), "spec": spec_st(), "pick": st.one_of(st.none(), st.integers(0, 5)),
        "inc": st.sampled_from([None, None, 0, 1, 5000, 10000]), "allow": st.booleans(), "new": st.booleans(), "fail": fail})
    return st.fixed_dictionaries({"mutate": st.booleans(),
                                  "ops": st.lists(one_of(add, add, add, create, create, restore), min_size=2, max_size=10)})


# ------------------------------------------------------------------ periodic backups
FAILURES = [None, RuntimeError, asyncio.TimeoutError, ex.ControllerException, ex.NetworkNotFormed, ex.DeliveryError,
            OSError, KeyError, ValueError, AttributeError, NotImplementedError]


def run_periodic(case):
    async def main(loop):
        app = fakes.make_app()
        app.state.network_info = zs.NetworkInfo()
        app.state.node_info = zs.NodeInfo()
        times, tx = [], [0]
        fails = list(case["fails"])

        def load(load_devices):
            times.append(round(loop.time() - 1000, 3))
            kind = fails.pop(0) if fails else 0
            if kind:
                raise core.injected(FAILURES[kind % len(FAILURES)], "radio")
            tx[0] += 1
            b = bk.mk(spec({"tx": tx[0], "set": []}))
            app.state.network_info, app.state.node_info = b.network_info, b.node_info
        app.hooks["load_network_info"] = load
        want, start, end = [], None, None
        for op, x in case["ops"]:
            if op == "start":
                start, period = loop.time() - 1000, x
                app.backups.start_periodic_backups(x)
                nxt = start
            elif op == "stop":
                app.backups.stop_periodic_backups()
                start = None
            else:
                t1 = loop.time() - 1000 + x + 0.5
                if start is not None:
                    while nxt <= t1:
                        want.append(round(nxt, 3))
                        nxt += period
                await asyncio.sleep(x + 0.5)
                check_eq(times, want, "times of backups")
                check_eq(len(app.backups.backups), min(1, tx[0]), "backups kept of one network")
                if tx[0]:
                    check_eq(app.backups.backups[0].network_info.network_key.tx_counter, tx[0], "counter kept")
        app.backups.stop_periodic_backups()
    vloop.run(main)
    return {"nontrivial": any(o == "start" for o, _ in case["ops"])}


def periodic_cases():
    op = st.one_of(st.tuples(st.just("start"), st.sampled_from([10, 60, 3600])),
                   st.tuples(st.just("wait"), st.sampled_from([0, 5, 25, 100, 3600])),
                   st.tuples(st.just("wait"), st.sampled_from([0, 5, 25, 100, 3600])),
                   st.tuples(st.just("stop"), st.just(0))).map(list)
    return st.fixed_dictionaries({"fails": st.lists(st.one_of(st.just(0), st.integers(1, len(FAILURES) - 1)), max_size=5),
                                  "ops": st.lists(op, min_size=2, max_size=8)})


CHECK = Check(
    id="C13",
    rule="history: sequences of adding, creating and restoring backups of the same and of different networks, complete "
         "and not, with radios that refresh the state in place or not and radio failures, against a reference list; "
         "non-trivial when an addition met a compatible backup. periodic: schedules of starting and stopping periodic "
         "backups with failures in virtual time.",
    assumptions=["counters that would exceed 32 bits after the margin are outside the domain"],
    suites=[
        Suite("history", run_history, strategy=history_cases, quick=3200, thorough=300_000),
        Suite("periodic", run_periodic, strategy=periodic_cases, quick=800, thorough=40_000),
    ],
)
_ = Violation
