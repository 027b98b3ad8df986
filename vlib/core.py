"""Shared vocabulary of the checks: paths, Violation, Suite, Check, helpers."""
from __future__ import annotations

import dataclasses
import hashlib
import json
import os
import pathlib
import sys
import typing

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))

# The code under test comes from the working tree; hypothesis is only in the tooling venv.
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _HYP not in sys.path:
    sys.path.append(_HYP)

import logging  # noqa: E402

import zigpy  # noqa: E402

_zf = pathlib.Path(zigpy.__file__).resolve()
if not str(_zf).startswith(str(REPO.resolve()) + "/"):
    raise SystemExit(f"zigpy was imported from {_zf}, not from {REPO}")

logging.disable(logging.CRITICAL)


def _same(x):
    return x


def one_of(*strategies):
    """st.one_of() counts a strategy that is given several times only once; here it weighs."""
    from hypothesis import strategies as st

    out = []
    for s in strategies:
        out.append(s.map(_same) if any(s is x for x in out) else s)
    return st.one_of(*out)
logging.raiseExceptions = False


class Violation(Exception):
    """The property does not hold for this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted as trivial)."""


class HarnessError(Exception):
    pass


class Injected(Exception):
    """Mixed into an exception a check's own callback raises on purpose: when the library lets it
    through to the check, that is the library's doing."""


def injected(kind, *args):
    """An instance of `kind` marked as injected."""
    return type(kind.__name__, (Injected, kind), {})(*args)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def check_eq(actual, expected, what):
    if actual != expected:
        raise Violation(f"{what}: expected {short(expected)}, got {short(actual)}")


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...<{len(s)} chars>"


def h2b(s: str) -> bytes:
    return bytes.fromhex(s)


def b2h(b) -> str:
    return bytes(b).hex()


def case_key(case) -> bytes:
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True, separators=(",", ":")).encode(), digest_size=8
    ).digest()


@dataclasses.dataclass
class Suite:
    """One generator + oracle.

    strategy: () -> hypothesis strategy of JSON-able cases   (random search), or
    cases:    (tier) -> iterable of JSON-able cases           (enumeration)
    run(case) -> None | truthy (non-trivial) | dict(labels=[...], nontrivial=bool)
    """

    name: str
    run: typing.Callable
    strategy: typing.Callable | None = None
    cases: typing.Callable | None = None
    quick: int = 1000
    thorough: int = 20000
    shards: int = 8
    thorough_shards: int = 16
    #: seconds after which a single case counts as "does not terminate"
    case_timeout: int = 60
    #: soft wall-clock cap per shard
    budget_quick: float = 60.0
    budget_thorough: float = 1200.0
    mem_gb: float = 4.0


@dataclasses.dataclass
class Check:
    id: str
    suites: list
    rule: str
    assumptions: list = dataclasses.field(default_factory=list)
    level: str = "exploration"
