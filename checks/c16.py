"""C16: group membership agrees from both sides and with what devices accepted."""
from __future__ import annotations

import asyncio

from vlib.core import Check, Suite, check, check_eq
from vlib import fakes, sim, vloop

import zigpy.exceptions
import zigpy.types as t
import zigpy.zcl.foundation as f

from hypothesis import strategies as st

GROUPS = [0x0000, 0x0001, 0x0002, 0x1234, 0xFFF7]
SUCCESS, NOT_FOUND, DUPLICATE, FULL = 0x00, 0x8B, 0x8A, 0x89
# device -> endpoint -> has the groups cluster
EPS = {1: {1: True, 2: True}, 2: {1: True, 11: False}, 3: {1: False}}
DESC = {n: {"nd": sim.nd_bytes().hex(),
            "eps": [[i, 260, 0x0100, 1, [0, 4, 6] if g else [0, 6], []] for i, g in e.items()],
            "attrs": {f"{i}/0": {"4": sim.cstr("Acme"), "5": sim.cstr("Lamp")} for i in e}}
        for n, e in EPS.items()}
NAMES = [None, "", "Room", "0123456789abcdef"]


class Dev(sim.Sim):
    """A device with a real group table."""

    def __init__(self, n, nwk):
        super().__init__(n, nwk, DESC[n])
        self.n = n
        self.table = {i: [] for i in EPS[n]}
        self.capacity = 4
        self.mode = None
        for i, g in EPS[n].items():
            if g:
                for cmd in (0x00, 0x02, 0x03):
                    self.handlers[(i, 4, cmd)] = self.groups(i, cmd)
        self.names = []

    def groups(self, ep, cmd):
        def h(data, tsn, body, back, manuf):
            back |= 1
            mode = self.mode
            if isinstance(mode, list) and mode[0] == "default":
                return [bytes([back & ~1, tsn, 0x0B, cmd, mode[1]])]
            tab = self.table[ep]
            if cmd == 0x02:
                check_eq(body, b"\x00", "arguments of the membership request")
                if isinstance(mode, list) and mode[0] == "list":
                    tab[:] = list(mode[1])
                return [bytes([back, tsn, 0x02, self.capacity - len(tab) & 0xFF, len(tab)]) + sim.le_list16(tab)]
            g = int.from_bytes(body[:2], "little")
            if cmd == 0x00:
                check_eq(len(body), 3 + body[2], "length of the add request")
                self.names.append(body[3:].decode())
            else:
                check_eq(len(body), 2, "length of the remove request")
            if isinstance(mode, list) and mode[0] == "status":
                s = mode[1]
            elif cmd == 0x00:
                s = DUPLICATE if g in tab else FULL if len(tab) >= self.capacity else SUCCESS
            else:
                s = SUCCESS if g in tab else NOT_FOUND
            if s == SUCCESS and cmd == 0x00 and g not in tab:
                tab.append(g)
            if s == SUCCESS and cmd == 0x03 and g in tab:
                tab.remove(g)
            self.last = s
            return [bytes([back, tsn, cmd, s]) + body[:2]]
        return h


class Listener:
    def __init__(self, app):
        self.app = app
        self.ev = []

    def group_added(self, g):
        self.ev.append(["group_added", int(g.group_id), None])

    def group_removed(self, g):
        self.ev.append(["group_removed", None if g is None else int(g.group_id), None])

    def group_member_added(self, g, ep):
        self.ev.append(["member_added", int(g.group_id), [str(ep.device.ieee), ep.endpoint_id]])

    def group_member_removed(self, g, ep):
        self.ev.append(["member_removed", int(g.group_id), [str(ep.device.ieee), ep.endpoint_id]])


def run(case):
    stat = {}

    def tick(k):
        stat[k] = stat.get(k, 0) + 1

    async def main(loop):
        app = fakes.make_app()
        fakes.add_coordinator(app)
        mode = [None]
        net = sim.Net(app, lambda s, p: mode[0] if isinstance(mode[0], str) else
                      (mode[0] if isinstance(mode[0], list) and mode[0][0] in ("delay", "bytes") else None))
        sims = {n: net.add(Dev(n, 0x2000 + n)) for n in EPS}
        ls = Listener(app)
        app.groups.add_listener(ls)

        def make(n):
            fakes.add_device(app, n, sims[n].nwk, eps={i: (260, 0x0100, [0, 4, 6] if g else [0, 6], []) for i, g in EPS[n].items()},
                             manufacturer="Acme", model="Lamp")

        for n in EPS:
            make(n)
        names = {}       # group -> name
        members = set()  # (group, device, endpoint)
        present = set(EPS)
        exp = []

        def ref(n, e):
            return [str(sims[n].ieee), e]

        def m_group(g, name):
            if g not in names:
                names[g] = name
                exp.append(["group_added", g, None])

        def m_add(g, n, e):
            if (g, n, e) not in members:
                members.add((g, n, e))
                exp.append(["member_added", g, ref(n, e)])

        def m_del(g, n, e):
            if (g, n, e) in members:
                members.discard((g, n, e))
                exp.append(["member_removed", g, ref(n, e)])

        def m_sync(n, e, new):
            for g in sorted(names):
                if (g, n, e) in members and g not in new:
                    m_del(g, n, e)
            for g in sorted(new):
                m_group(g, None)
                m_add(g, n, e)

        def endpoint(n, e):
            return app.devices[sims[n].ieee].endpoints[e]

        def verify(what):
            check_eq(sorted(app.groups), sorted(names), f"groups after {what}")
            for g, grp in app.groups.items():
                check_eq(int(grp.group_id), g, f"identity of group {g} after {what}")
                if names[g] is not None:
                    check_eq(grp.name, names[g], f"name of group {g} after {what}")
                got = sorted([str(i), e] for i, e in grp)
                check_eq(got, sorted(ref(n, e) for gg, n, e in members if gg == g), f"members of {g} after {what}")
                for (i, e), ep in grp.items():
                    dev = app.devices.get(i)
                    check(dev is not None and dev.endpoints.get(e) is ep,
                          "after %s: group %d lists an endpoint object that is not endpoint %d of device %s", what, g, e, i)
            for n in present:
                for e in EPS[n]:
                    m = endpoint(n, e).member_of
                    check_eq(sorted(int(x) for x in m), sorted(g for g, nn, ee in members if (nn, ee) == (n, e)),
                             f"groups listed by endpoint {n}/{e} after {what}")
                    for g, grp in m.items():
                        check(app.groups.get(g) is grp, "after %s: endpoint %d/%d lists a group %d that does not exist", what, n, e, g)
            srt = lambda x: sorted(x, key=repr)  # noqa: E731
            check_eq(srt(ls.ev), srt(exp), f"events of {what}")
            # a group is announced before its members, and its members are gone before it
            for k, ev in enumerate(ls.ev):
                if ev[0] == "group_added":
                    check(not any(x[1] == ev[1] for x in ls.ev[:k]), "group %d added late", ev[1])
            ls.ev.clear()
            exp.clear()

        async def call(coro):
            try:
                return ("ok", await coro)
            except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
                return ("error", type(ex).__name__)

        for op in case["ops"]:
            kind, n, i, g, nm, md = op
            n = n if n in present else sorted(present)[0] if present else 0
            if not n:
                break
            e = sorted(EPS[n])[i % len(EPS[n])]
            gid, name = GROUPS[g], NAMES[nm]
            mode[0] = md
            sims[n].mode = md
            lossy = md in ("lose", "fail") or (isinstance(md, list) and md[0] == "delay" and md[1] > 5)
            garbled = isinstance(md, list) and md[0] == "bytes"
            dflt = isinstance(md, list) and md[0] == "default"
            what = f"{op}"
            if kind in ("add", "remove", "dev_add", "dev_remove"):
                add = kind.endswith("add")
                todo = [e] if not kind.startswith("dev") else list(EPS[n])
                outcome = None
                if kind == "add":
                    r = await call(endpoint(n, e).add_to_group(gid, name) if nm or i % 2 else endpoint(n, e).add_to_group(gid))
                elif kind == "remove":
                    r = await call(endpoint(n, e).remove_from_group(gid))
                elif kind == "dev_add":
                    r = await call(app.devices[sims[n].ieee].add_to_group(gid, name))
                else:
                    r = await call(app.devices[sims[n].ieee].remove_from_group(gid))
                for ee in todo:
                    if not EPS[n][ee]:
                        if not kind.startswith("dev"):
                            check_eq((r[0], int(r[1])), ("ok", 1), f"result of {what}")
                        continue
                    if lossy or garbled:
                        check_eq(r[0], "error", f"result of {what}")
                        tick("failed")
                        break
                    # what the device says in this mode; its own table is already changed
                    if dflt:
                        status = md[1]
                    elif isinstance(md, list) and md[0] == "status":
                        status = md[1]
                    else:
                        status = sims[n].last
                    if len(todo) > 1 and md is None:
                        # both endpoints have their own answer: take it from their tables
                        status = SUCCESS if (gid in sims[n].table[ee]) == add else FULL
                    if not kind.startswith("dev"):
                        check_eq((r[0], int(r[1])), ("ok", status), f"result of {what}")
                    else:
                        check_eq(r[0], "ok", f"result of {what}: {r}")
                    if add and status in (SUCCESS, DUPLICATE):
                        m_group(gid, name)
                        m_add(gid, n, ee)
                        tick("added")
                    elif not add and status in (SUCCESS, NOT_FOUND):
                        m_del(gid, n, ee)
                        tick("removed")
                    else:
                        tick("refused")
                if add and name is not None and not (lossy or garbled or dflt) and any(EPS[n][x] for x in todo):
                    check(name in sims[n].names, "name %r was not sent", name)
            elif kind in ("scan", "announce"):
                if kind == "scan":
                    await call(app.devices[sims[n].ieee].group_membership_scan())
                else:
                    # an initialised device announces itself again under the same address
                    app.packet_received(fakes.packet(
                        sims[n].nwk, 0x0013, bytes([i]) + sim.le16(sims[n].nwk) + sims[n].ieee.serialize() + b"\x8e",
                        src_ep=0, dst_ep=0, profile=0))
                    await asyncio.sleep(30)
                if not (lossy or garbled or dflt):
                    for ee, has in EPS[n].items():
                        if has:
                            m_sync(n, ee, set(sims[n].table[ee]))
                            tick("scanned")
            elif kind == "sync":
                new = {GROUPS[k] for k in (g, nm, i) if k < len(GROUPS)}
                app.groups.update_group_membership(endpoint(n, e), set(new))
                m_sync(n, e, new)
            elif kind == "direct_add":
                grp = app.groups.add_group(gid, name)
                m_group(gid, name)
                grp.add_member(endpoint(n, e))
                m_add(gid, n, e)
            elif kind == "direct_remove":
                if gid in app.groups:
                    app.groups[gid].remove_member(endpoint(n, e))
                    m_del(gid, n, e)
            elif kind == "add_group":
                check(app.groups.add_group(gid, name) is app.groups[gid], "add_group returns the group")
                m_group(gid, name)
            elif kind == "pop":
                if gid in names:
                    arg = app.groups[gid] if i % 2 else gid
                    r = app.groups.pop(arg) if nm % 2 else app.groups.remove_group(arg)
                    check_eq(int(r.group_id), gid, f"result of {what}")
                    for gg, nn, ee in sorted(members):
                        if gg == gid:
                            m_del(gid, nn, ee)
                    del names[gid]
                    exp.append(["group_removed", gid, None])
                    tick("group removed")
                elif nm % 2:
                    try:
                        app.groups.pop(gid)
                    except KeyError:
                        pass
                    else:
                        check(False, "removing an unknown group succeeds")
                else:
                    check(app.groups.pop(gid, None) is None, "result of %s", what)
            elif kind == "replace":
                # the device is removed and, after a while, paired again
                await app.remove(sims[n].ieee)
                await asyncio.sleep(40)
                check(sims[n].ieee not in app.devices, "device is still there after its removal")
                for gg, nn, ee in sorted(members):
                    if nn == n:
                        m_del(gg, nn, ee)
                present.discard(n)
                verify(what + " (removed)")
                for tab in sims[n].table.values():
                    tab.clear()
                mode[0] = sims[n].mode = None
                app.handle_join(t.NWK(sims[n].nwk), sims[n].ieee, None)
                await asyncio.sleep(60)
                check(app.devices[sims[n].ieee].is_initialized, "not initialised after joining")
                present.add(n)
                tick("replaced")
            mode[0] = None
            await asyncio.sleep(10.5)
            verify(what)
        bad = [x for x in loop.errors if "exception" in x]
        check(not bad, "errors in background: %r", bad[:1])

    vloop.run(main)
    return {"labels": sorted(stat), "nontrivial": bool(stat.get("added") and len(stat) > 1)}


MODE = st.one_of(
    st.none(), st.none(), st.none(),
    st.sampled_from(["lose", "fail", "dup", ["delay", 3.0], ["delay", 6.0], ["bytes", ""], ["bytes", "19"]]),
    st.tuples(st.just("status"), st.sampled_from([0x00, 0x01, 0x7E, 0x80, 0x87, 0x89, 0x8A, 0x8B, 0x81])).map(list),
    st.tuples(st.just("default"), st.sampled_from([0x01, 0x7E, 0x80, 0x81, 0x87, 0x89])).map(list),
    st.tuples(st.just("list"), st.lists(st.sampled_from(GROUPS), max_size=4, unique=True)).map(list))


def strategy():
    op = st.tuples(
        st.sampled_from(["add", "add", "add", "remove", "remove", "dev_add", "dev_remove", "scan", "announce", "sync",
                         "direct_add", "direct_remove", "add_group", "pop", "pop", "replace"]),
        st.integers(1, 3), st.integers(0, 1), st.integers(0, len(GROUPS) - 1), st.integers(0, 3), MODE)
    return st.fixed_dictionaries({"ops": st.lists(op.map(list), min_size=2, max_size=12)})


CHECK = Check(
    "C16",
    rule="a history with an accepted addition and at least one further kind of event (refusal, removal, failure, scan...)",
    assumptions=["a device removed from the network leaves all its groups",
                 "devices with group tables are simulated byte by byte; virtual time"],
    suites=[Suite("membership", run, strategy=strategy, quick=1600, thorough=40000)])
