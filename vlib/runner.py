"""Runs the suites of a check in parallel shards, shrinks, confirms, reports."""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import multiprocessing
import os
import pathlib
import pickle
import re
import resource
import signal
import sys
import time as _time
import traceback
import warnings

from . import core
from .core import Discard, HarnessError, Suite, Violation, case_key

_now = [_time.perf_counter][0]


class StopRun(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


_REPO_PREFIX = str(core.REPO.resolve() / "zigpy") + "/"
_VERIF_PREFIX = str(core.VERIF) + "/"


def _injectable(exc):
    import sqlite3
    ze = sys.modules.get("zigpy.exceptions")
    return isinstance(exc, (core.Injected, OSError, TimeoutError, sqlite3.Error) + ((ze.ZigbeeException,) if ze else ()))


def classify(exc: BaseException):
    """('violation'|'harness', text)"""
    if isinstance(exc, Violation):
        return "violation", str(exc)
    if isinstance(exc, HarnessError):
        return "harness", str(exc)
    last = repo = None
    for fs in traceback.extract_tb(exc.__traceback__):
        fn = os.path.realpath(fs.filename)
        if fn.startswith(_REPO_PREFIX):
            last = repo = ("violation", fs)
        elif fn.startswith(_VERIF_PREFIX):
            last = ("harness", fs)
    text = "".join(traceback.format_exception_only(type(exc), exc)).strip()
    if isinstance(exc, RecursionError) and last is None:
        return "violation", text
    if last is None:
        return "harness", text
    if repo is not None and _injectable(exc):
        last = repo         # a fault the check injected came back through the library
    kind, fs = last
    if kind == "violation":
        return kind, f"unexpected {text} at {os.path.relpath(fs.filename, core.REPO)}:{fs.name}"
    if _misshapen(exc, text, fs):
        return "violation", (f"a result does not have the shape promised: {text} "
                             f"at {os.path.relpath(fs.filename, core.VERIF)}:{fs.name}")
    return kind, text


_SIGNATURE = re.compile(r"keyword argument|positional argument|has no attribute '_|^AttributeError: (module|type object) ")


def _misshapen(exc, text, fs):
    """Whether an oracle tripped over the value it was given (None instead of a list, a key that
    is missing from a result, ...), rather than over an interface it expects to be there."""
    if not os.path.realpath(fs.filename).startswith(_VERIF_PREFIX + "checks/"):
        return False
    return isinstance(exc, (TypeError, KeyError, IndexError, ValueError, AttributeError)) and not _SIGNATURE.search(text)


def _alarm(signum, frame):
    raise CaseTimeout()


KNOWN = []  # the listed findings of the property that is checked


def is_known(suite, case, msg):
    """Whether this violation is a listed finding: the same case fails in the same way."""
    return any(e["suite"] == suite.name and e["case"] == case and e["message"] == msg
               for e in KNOWN)


def run_case(suite: Suite, case):
    """Returns (status, info); status in ok, trivial, violation, harness."""
    status, info = _run_case(suite, case)
    if status == "violation" and is_known(suite, case, info):
        return "trivial", {"labels": ["known finding"]}
    return status, info


def _run_case(suite: Suite, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(suite.case_timeout)
    try:
        r = suite.run(case)
        signal.alarm(0)
    except CaseTimeout:
        return "violation", f"case did not finish within {suite.case_timeout} s"
    except Discard:
        signal.alarm(0)
        return "trivial", {"labels": ["discarded"]}
    except StopRun:
        signal.alarm(0)
        raise
    except MemoryError as e:
        signal.alarm(0)
        kind, text = classify(e)
        return "violation", "memory exhausted: " + text
    except Exception as e:  # noqa: BLE001
        signal.alarm(0)
        kind, text = classify(e)
        if kind == "harness":
            text += "\n" + "".join(traceback.format_exception(e))
        return kind, text
    finally:
        signal.alarm(0)
    if isinstance(r, dict):
        return ("ok" if r.get("nontrivial", True) else "trivial"), r
    if r is None or r:
        return "ok", {}
    return "trivial", {}


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.violation = None  # (case, msg)
        self.harness = None
        self.capped = False

    def add(self, case, status, info):
        self.evaluations += 1
        if status == "ok":
            k = case_key(case)
            if k not in self.keys:
                self.keys.add(k)
                n = len(self.keys)
                if n <= 2 or (n in (8, 64)):
                    s = json.dumps(case)
                    if len(s) <= 3000:
                        self.samples.append(case)
        for lab in (info or {}).get("labels", ()):
            self.labels[lab] += 1


def _limit_memory(gb):
    lim = int(gb * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))


def shard_main(check, suite: Suite, shard, nshards, seed, n, budget, tier, conn):
    try:
        warnings.simplefilter("ignore")
        _limit_memory(suite.mem_gb)
        st = Stats()
        t0 = _now()
        if suite.cases is not None:
            for i, case in enumerate(suite.cases(tier)):
                if i % nshards != shard:
                    continue
                case = json.loads(json.dumps(case))
                status, info = run_case(suite, case)
                if status == "violation":
                    st.violation = (case, info)
                    st.evaluations += 1
                    break
                if status == "harness":
                    st.harness = (case, info)
                    break
                st.add(case, status, info)
                if _now() - t0 > budget:
                    st.capped = True
                    break
        else:
            _hypothesis_shard(suite, shard, seed, n, budget, st, t0)
        conn.send_bytes(pickle.dumps(st))
    except BaseException as e:  # noqa: BLE001
        st = Stats()
        st.harness = (None, "".join(traceback.format_exception(e)))
        try:
            conn.send_bytes(pickle.dumps(st))
        except Exception:  # noqa: BLE001
            pass
    finally:
        conn.close()
        os._exit(0)


def _hypothesis_shard(suite, shard, seed, n, budget, st, t0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 25

    class Fail(Exception):
        pass

    best = []
    failing = [False]

    def body(case):
        if not failing[0] and _now() - t0 > budget:
            st.capped = True
            raise StopRun
        status, info = run_case(suite, case)
        if status == "violation":
            failing[0] = True
            size = len(json.dumps(case))
            best.append((size, len(best), json.loads(json.dumps(case)), info))
            if len(best) > 2000:
                best.sort()
                del best[50:]
            raise Fail(type(info))
        if status == "harness":
            st.harness = (case, info)
            raise StopRun
        if not failing[0]:
            st.add(case, status, info)

    test = settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], derandomize=False,
    )(given(suite.strategy())(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except StopRun:
        pass
    except Fail:
        pass
    except BaseException as e:  # noqa: BLE001
        if not best:
            st.harness = (None, "".join(traceback.format_exception(e)))
    if best and st.harness is None:
        best.sort()
        st.violation = (best[0][2], best[0][3])


def confirm(check, suite, case, times=3):
    """Re-run a failing case in fresh processes."""
    for _ in range(times):
        r, w = multiprocessing.Pipe(duplex=False)
        pid = os.fork()
        if pid == 0:
            try:
                _limit_memory(suite.mem_gb)
                warnings.simplefilter("ignore")
                res = run_case(suite, case)
            except BaseException as e:  # noqa: BLE001
                res = ("harness", repr(e))
            w.send_bytes(pickle.dumps(res))
            w.close()
            os._exit(0)
        w.close()
        try:
            res = pickle.loads(r.recv_bytes())
        except EOFError:
            res = ("violation", "the process died while running the case")
        os.waitpid(pid, 0)
        if res[0] == "violation":
            return res[1]
    return None


def load_known(pid):
    f = core.VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())["findings"] if e["property"] == pid]


def write_replay(check, suite, case, msg):
    d = pathlib.Path(os.environ.get("VERIF_SCRATCH_OUT") or core.VERIF) / "replays"
    d.mkdir(parents=True, exist_ok=True)
    name = f"{check.id}-{suite.name}-{case_key(case).hex()}.json"
    p = d / name
    p.write_text(json.dumps(
        {"property": check.id, "suite": suite.name, "case": case, "message": msg}, indent=1))
    return f"replays/{name}"


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--suite")
    ap.add_argument("--n", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args(argv)
    t0 = _now()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    warnings.simplefilter("ignore")
    sys.path.insert(0, str(core.VERIF))
    mod = importlib.import_module(f"checks.{a.id.lower()}")
    check = mod.CHECK
    suites = {s.name: s for s in check.suites}

    if a.replay:
        p = core.VERIF / a.replay if not os.path.isabs(a.replay) else a.replay
        d = json.loads(open(p).read())
        msg = confirm(check, suites[d["suite"]], d["case"], times=1)
        if msg is None:
            status, info = run_case(suites[d["suite"]], d["case"])
            print(f"replay: {status} {info if status == 'harness' else ''}")
            return 0 if status in ("ok", "trivial") else 2
        print(f"  {msg}")
        print(f"VIOLATION property={check.id} replay={a.replay}")
        return 1

    # Known findings: each is replayed; while it still fails it is announced, never counted.
    known = load_known(check.id)
    for e in known:
        msg = confirm(check, suites[e["suite"]], e["case"], times=1)
        if msg == e["message"]:
            print(f"KNOWN-FINDING: property={check.id} {e['what']}", flush=True)

    KNOWN[:] = known

    # hypothesis does some lazy imports and charmap work: do it before forking
    import hypothesis.strategies  # noqa: F401

    jobs = []
    for s in check.suites:
        if a.suite and s.name != a.suite:
            continue
        nsh = s.shards if tier == "quick" else s.thorough_shards
        total = a.n or (s.quick if tier == "quick" else s.thorough)
        budget = a.budget or (s.budget_quick if tier == "quick" else s.budget_thorough)
        for i in range(nsh):
            sseed = int.from_bytes(case_key([seed, check.id, s.name, i]), "big")
            jobs.append((s, i, nsh, sseed, max(1, total // nsh), budget))
    # interleave the suites so that long ones start early
    jobs.sort(key=lambda j: j[1])

    results = collections.defaultdict(list)
    ctx = multiprocessing.get_context("fork")
    running = []
    pending = list(jobs)
    stop = False
    while pending or running:
        while pending and len(running) < a.jobs and not stop:
            j = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                r.close()
                shard_main(check, j[0], j[1], j[2], j[3], j[4], j[5], tier, w)
            w.close()
            running.append((pid, r, j))
        if stop:
            pending = []
        ready = multiprocessing.connection.wait([x[1] for x in running], timeout=1.0)
        for x in list(running):
            if x[1] not in ready:
                continue
            try:
                st = pickle.loads(x[1].recv_bytes())
            except EOFError:
                st = Stats()
                st.harness = (None, "a shard process died")
            x[1].close()
            os.waitpid(x[0], 0)
            running.remove(x)
            results[x[2][0].name].append(st)
            if st.violation is not None:
                stop = True
        if stop and running and not ready:
            # give the other shards a moment, then end them
            for x in running:
                try:
                    os.kill(x[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(x[0], 0)
                x[1].close()
            running = []

    evaluations = sum(st.evaluations for sts in results.values() for st in sts)
    keys = set()
    labels = collections.Counter()
    per_suite = {}
    samples = []
    for name, sts in results.items():
        sk = set().union(*[st.keys for st in sts])
        keys |= {(name, k) for k in sk}
        lab = sum((st.labels for st in sts), collections.Counter())
        for k, v in lab.items():
            labels[f"{name}:{k}"] = v
        per_suite[name] = {
            "evaluations": sum(st.evaluations for st in sts),
            "distinct_nontrivial": len(sk),
            "capped_by_time": any(st.capped for st in sts),
            "enumeration": suites[name].cases is not None,
        }
        got = [c for st in sts for c in st.samples]
        got.sort(key=lambda c: -len(json.dumps(c)))
        samples += [{"suite": name, "case": c} for c in got[len(got) // 3:][:2]]

    rc = 0
    nviol = 0
    for name, sts in results.items():
        s = suites[name]
        found = [st.violation for st in sts if st.violation is not None]
        found.sort(key=lambda v: len(json.dumps(v[0])))
        for case, msg in found[:1]:
            again = confirm(check, s, case)
            if again is None:
                print(f"harness: unreproducible failure in {name}: {msg}\n{json.dumps(case)}",
                      file=sys.stderr)
                rc = rc or 2
                continue
            nviol += 1
            path = write_replay(check, s, case, again)
            print(f"[{name}] {again}")
            print(f"  case: {json.dumps(case)[:2000]}")
            print(f"VIOLATION property={check.id} replay={path}", flush=True)
            rc = 1
    for name, sts in results.items():
        for st in sts:
            if st.harness is not None:
                print(f"harness error in {name}: {st.harness[1]}\n case: "
                      f"{json.dumps(st.harness[0])[:2000]}", file=sys.stderr)
                rc = rc or 2
                break

    ev = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys),
            "rule": check.rule, "samples": samples, "suites": per_suite,
            "labels": dict(sorted(labels.items())),
        },
        "assumptions": check.assumptions,
        "wall_s": round(_now() - t0, 2), "violations": nviol,
    }
    d = pathlib.Path(os.environ.get("VERIF_SCRATCH_OUT") or core.VERIF) / "evidence"
    d.mkdir(parents=True, exist_ok=True)
    (d / f"{check.id}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{check.id} {tier}: {evaluations} cases, {len(keys)} distinct non-trivial, "
          f"{ev['wall_s']} s, exit {rc}")
    return rc
