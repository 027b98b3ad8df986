#!/usr/bin/env python3
"""Mutation sweep: which small changes to zigpy pass its tests and all the relevant checks?

mutate.py FILE[:N] ... [--seed S] [--jobs J] [--out LOG] [--lines a-b]
Generates syntactic mutants of the files, keeps those the stable tests pass, and runs the mapped checks on them.
Survivors are printed with their diff; they are equivalent, or blind spots to look into.  Scratch copies in /tmp/mut."""
import ast
import concurrent.futures as cf
import fnmatch
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import threading

VERIF = pathlib.Path(os.environ.get("MUT_VERIF", pathlib.Path(__file__).resolve().parent.parent))
REPO = pathlib.Path(os.environ.get("MUT_REPO", "/repo"))
TMP = pathlib.Path("/tmp/mut")
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
MAP = {
    "zigpy/types/basic.py": "C01 C02 C03 C04",
    "zigpy/types/named.py": "C01 C08 C04 C31 C28 C12",
    "zigpy/types/struct.py": "C02 C04 C27 C03",
    "zigpy/zcl/foundation.py": "C01 C03 C17 C34",
    "zigpy/zcl/__init__.py": "C35 C03 C17 C34 C05 C24 C23",
    "zigpy/zcl/clusters/general.py": "C03 C34 C16 C21 C17",
    "zigpy/zcl/clusters/security.py": "C03 C34",
    "zigpy/zdo/types.py": "C04 C15",
    "zigpy/zdo/__init__.py": "C04 C14 C15 C34 C05 C33",
    "zigpy/application.py": "C33 C14 C30 C29 C05 C08 C07 C28 C27 C13 C16 C09",
    "zigpy/device.py": "C06 C15 C33 C05 C07 C21 C09 C34",
    "zigpy/endpoint.py": "C15 C23 C33 C05 C16 C34 C09 C06",
    "zigpy/datastructures.py": "C07 C08 C06",
    "zigpy/util.py": "C32 C28 C29 C06",
    "zigpy/appdb.py": "C09 C10 C11",
    "zigpy/backups.py": "C12 C13 C10",
    "zigpy/state.py": "C12 C26 C13",
    "zigpy/group.py": "C16 C33 C09",
    "zigpy/ota/image.py": "C18 C19 C20",
    "zigpy/ota/validators.py": "C19 C20",
    "zigpy/ota/__init__.py": "C20 C22",
    "zigpy/ota/manager.py": "C21",
    "zigpy/ota/providers.py": "C22 C18 C20",
    "zigpy/ota/json_schemas.py": "C22",
    "zigpy/quirks/registry.py": "C23 C24",
    "zigpy/quirks/__init__.py": "C35 C23 C24",
    "zigpy/quirks/v2/__init__.py": "C24 C23",
    "zigpy/topology.py": "C25",
    "zigpy/listeners.py": "C27",
    "zigpy/config/*.py": "C31",
    "zigpy/serial.py": "C36",
}


def checks_for(f):
    for k, v in MAP.items():
        if fnmatch.fnmatch(f, k):
            return [c for c in v.split() if (VERIF / "checks" / (c.lower() + ".py")).exists()]
    return []


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.fn = []

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, n.lineno, kind))

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__") and False:
                return
            self.fn.append(n.name)
            for x in n.body:
                self.visit(x)
            for x in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self.visit(x)
            self.fn.pop()
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                self.visit(n.value)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and "LOGGER" in self.text(n)[:60] or isinstance(n, ast.Expr) and any(
                self.text(n).startswith(p) for p in ("self.debug", "self.warning", "self.error", "self.info", "self.log", "warnings.")):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.If) and "TYPE_CHECKING" in self.text(n.test):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Raise):
            if self.fn:
                self.add(n, "pass", "del-raise")
            return
        m = getattr(self, "m_" + type(n).__name__, None)
        if m and (self.fn or isinstance(n, ast.Constant)):
            m(n)
        self.generic_visit(n)

    def m_Compare(self, n):
        if len(n.ops) != 1:
            return
        l, r = self.text(n.left), self.text(n.comparators[0])
        sw = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
              ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
        for o in sw.get(type(n.ops[0]), []):
            self.add(n, f"({l} {o} {r})", "cmp")

    def m_BoolOp(self, n):
        vs = [self.text(v) for v in n.values]
        vs = [f"({v})" for v in vs]
        o, p = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        self.add(n, "(" + f" {p} ".join(vs) + ")", "boolop")
        for i in range(len(vs)):
            self.add(n, "(" + f" {o} ".join(vs[:i] + vs[i + 1:]) + ")", "drop-operand")

    def m_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, f"({self.text(n.operand)})", "not")

    def m_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "*"}
        o = sw.get(type(n.op))
        if o and not isinstance(n.left, ast.Constant) or o and not isinstance(getattr(n.left, "value", 0), str):
            self.add(n, f"({self.text(n.left)} {o} {self.text(n.right)})", "binop")

    def m_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            if v:
                self.add(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.add(n, str(v * 2), "const")
        elif v is None and False:
            pass

    def stmt(self, n, kind="del"):
        self.add(n, "pass", kind)

    def m_Expr(self, n):
        self.stmt(n)

    def m_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.stmt(n)

    def m_AugAssign(self, n):
        self.stmt(n)

    def m_Delete(self, n):
        self.stmt(n)

    def m_Return(self, n):
        self.stmt(n, "del-return") if n.value is None else self.add(n, "return None", "return-none") if not (isinstance(n.value, ast.Constant) and n.value.value is None) else None

    def m_Continue(self, n):
        self.add(n, "pass", "del-continue")
        self.add(n, "break", "continue-break")

    def m_Break(self, n):
        self.add(n, "pass", "del-break")

    def m_If(self, n):
        self.add(n.test, "True", "if-true")
        self.add(n.test, "False", "if-false")

    def m_IfExp(self, n):
        self.add(n, self.text(n.body), "ifexp-body")
        self.add(n, self.text(n.orelse), "ifexp-else")

    def m_comprehension(self, n):
        for i in n.ifs:
            self.add(i, "True", "comp-if")

    def m_Call(self, n):
        if len(n.args) + len(n.keywords) > 1:
            f = self.text(n.func)
            parts = [self.text(a) for a in n.args] + [("**" if k.arg is None else k.arg + "=") + self.text(k.value) for k in n.keywords]
            for i, k in enumerate(n.keywords):
                j = len(n.args) + i
                if k.arg is not None:
                    self.add(n, f"{f}({', '.join(parts[:j] + parts[j + 1:])})", "drop-kw")
        if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            a, b = self.pos(n.func)
            self.out.append((a, b, "max" if n.func.id == "min" else "min", n.lineno, "minmax"))
        if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "set", "dict", "sorted", "reversed") and len(n.args) == 1 and not n.keywords:
            self.add(n, self.text(n.args[0]), "drop-copy")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "lower", "upper", "strip") and not n.args:
            self.add(n, self.text(n.func.value), "drop-method")

    def m_Try(self, n):
        for h in n.handlers:
            if h.type is not None:
                self.add(h.type, "ZeroDivisionError", "no-except")

    def m_AsyncWith(self, n):
        pass

    def m_Slice(self, n):
        pass


def mutants(f, count, rnd, lines=None):
    src = (REPO / f).read_text()
    g = Gen(src)
    g.visit(ast.parse(src))
    ms = []
    for a, b, new, ln, kind in sorted(set(g.out)):
        if lines and not lines[0] <= ln <= lines[1]:
            continue
        txt = (g.b[:a] + new.encode() + g.b[b:]).decode()
        try:
            ast.parse(txt)
        except SyntaxError:
            continue
        ms.append((f, ln, kind, g.b[a:b].decode(), new, txt))
    rnd.shuffle(ms)
    return ms[:count] if count else ms


lock = threading.Lock()
pool = []
JOBS = 8
CHECK_SEM = threading.Semaphore(2)
stats = {"tests": 0, "caught": 0, "survived": 0, "broken": 0}


def tests(d, w):
    bad = json.load(open("/tmp/mut/bad.json")) if pathlib.Path("/tmp/mut/bad.json").exists() else []
    cmd = ["timeout", "-k", "5", "240", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--ignore=tests/ota/test_ota_providers.py",
           f"--basetemp={w}", "tests"]
    for x in bad:
        cmd += ["--deselect", x]
    return subprocess.run(cmd, cwd=d, env=ENV, capture_output=True, text=True).returncode


def one(m):
    f, ln, kind, old, new, txt = m
    with lock:
        d = pool.pop()
    try:
        p = d / f
        orig = p.read_text()
        p.write_text(txt)
        try:
            if subprocess.run([PY, "-W", "error", "-c", "import zigpy.application, zigpy.quirks.v2, zigpy.ota.providers"], cwd=d, env=ENV, capture_output=True).returncode:
                pass
            if not os.environ.get("MUT_NOTESTS") and tests(d, str(TMP / (d.name + ".t"))):
                with lock:
                    stats["tests"] += 1
                return
            caught = None
            for c in checks_for(f):
                with CHECK_SEM:
                    try:
                        r = subprocess.run([str(VERIF / "run.py"), c, "--jobs", "4"], env={**ENV, "VERIF_REPO": str(d), "VERIF_SEED": "1", "VERIF_TIER": "quick",
                                           "VERIF_SCRATCH_OUT": str(TMP / (d.name + ".out"))}, capture_output=True, text=True, timeout=900)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 99
                if rc:
                    caught = f"{c}" + ("" if rc == 1 else f" (exit {rc})")
                    break
            with lock:
                stats["caught" if caught else "survived"] += 1
                print(f"{'caught ' + caught if caught else 'SURVIVED'}: {f}:{ln} {kind}\n    - {' '.join(old.split())[:170]}\n    + {' '.join(new.split())[:170]}", flush=True)
        finally:
            p.write_text(orig)
    finally:
        with lock:
            pool.append(d)


def main(argv):
    seed, specs, lines = 1, [], None
    it = iter(argv)
    for a in it:
        if a == "--seed":
            seed = int(next(it))
        elif a == "--lines":
            lines = tuple(map(int, next(it).split("-")))
        else:
            specs.append(a)
    rnd = random.Random(seed)
    ms = []
    for s in specs:
        f, _, n = s.partition(":")
        ms += mutants(f, int(n) if n else 0, rnd, lines)
    TMP.mkdir(exist_ok=True)
    for k in range(JOBS):
        d = TMP / f"w{os.getpid()}_{k}"
        subprocess.run(["cp", "-a", str(REPO), str(d)], check=True)
        pool.append(d)
    print(f"{len(ms)} mutants", flush=True)
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, ms))
    finally:
        for d in pool:
            for x in (d, TMP / (d.name + ".t"), TMP / (d.name + ".out")):
                shutil.rmtree(x, ignore_errors=True)
    print(stats, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
