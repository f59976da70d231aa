"""Facet registry, case context, violation classification, per-shard search loop.

A *facet* is one executable statement of (a part of) a property: a hypothesis strategy which
produces a JSON-able case, and a function ``run(case, ctx)`` which decides that case against
an explicit oracle.  Everything random happens inside the strategy, so a shrunk failure is a
plain JSON value that is replayed without hypothesis.
"""

from __future__ import annotations

import hashlib
import json
import os
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
VERIF = Path(__file__).resolve().parents[1]
QUICK_SCALE = int(os.environ.get("VERIF_QUICK_SCALE", "4"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
SCRATCH = Path(os.environ.get("VERIF_SCRATCH", tempfile.gettempdir()))


class Violation(AssertionError):
    """The code under test broke the property on this case."""

    def __init__(self, msg: str, key: str | None = None) -> None:
        super().__init__(msg)
        self.key = key


class HarnessError(RuntimeError):
    """The machinery itself failed, nothing was learned."""


class CaseTimeout(BaseException):
    pass


@dataclass
class Facet:
    pid: str
    name: str
    run: Callable[[Any, "Ctx"], None]
    strategy: Any
    quick: int
    thorough: int
    rule: str
    shards: int = 1
    cases: Callable[[], list] | None = None
    case_timeout: int = 120
    shrink: bool = False


FACETS: dict[str, list[Facet]] = {}


def facet(
    pid: str,
    name: str,
    strategy: Any = None,
    *,
    quick: int = 100,
    thorough: int | None = None,
    shards: int = 1,
    rule: str,
    cases: Callable[[], list] | None = None,
    case_timeout: int = 120,
    shrink: bool = False,
) -> Callable:
    """Register a facet.

    :param cases: enumerated cases that are always run before the random ones
    :param shrink: minimize lists of the failing case (for seeded generators, where hypothesis can't)
    """

    def deco(func: Callable) -> Callable:
        FACETS.setdefault(pid, []).append(
            Facet(
                pid,
                name,
                func,
                strategy,
                quick,
                thorough if thorough is not None else quick * 20,
                rule,
                shards,
                cases,
                case_timeout,
                shrink,
            )
        )
        return func

    return deco


class Ctx:
    """Handed to every run() - collects classification, offers scratch space."""

    def __init__(self, known: set[str]) -> None:
        self.labels: list[str] = []
        self.is_nontrivial: bool = False
        self.known = known
        self.excluded: list[str] = []
        self._tmp: Path | None = None

    @property
    def tmp(self) -> Path:
        if self._tmp is None:
            self._tmp = Path(tempfile.mkdtemp(prefix="case-", dir=SCRATCH))
        return self._tmp

    def label(self, *names: str) -> None:
        self.labels.extend(str(_n) for _n in names)

    def nontrivial(self, flag: bool = True) -> None:  # noqa: FBT001
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def fail(self, msg: str, key: str | None = None) -> None:
        if key is not None and key in self.known:
            self.excluded.append(key)
            return
        raise Violation(msg, key)

    def check(self, cond: Any, msg: str | Callable[[], str], key: str | None = None) -> None:
        if not bool(cond):
            self.fail(msg() if callable(msg) else msg, key)

    def eq(self, got: Any, want: Any, what: str, key: str | None = None) -> None:
        if not (got == want):
            self.fail(f"{what}: got {short(got)}, expected {short(want)}", key)

    def close(
        self,
        got: float,
        want: float,
        what: str,
        *,
        rel: float = 1e-9,
        abs_: float = 0.0,
        key: str | None = None,
    ) -> None:
        tol = max(abs_, rel * max(abs(float(got)), abs(float(want))))
        if not (got == want or abs(float(got) - float(want)) <= tol):
            self.fail(f"{what}: got {got!r}, expected {want!r} (tol {tol:.3g})", key)

    def raises(
        self,
        func: Callable[[], Any],
        what: str,
        types: tuple = (Exception,),
        key: str | None = None,
    ) -> BaseException | None:
        """func() has to reject its input with one of the types."""
        try:
            res = func()
        except types as xcp:
            return xcp
        self.fail(f"{what}: accepted, returned {short(res)}", key)
        return None

    def close_case(self) -> None:
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def short(obj: Any, limit: int = 400) -> str:
    txt = repr(obj)
    return txt if len(txt) <= limit else txt[: limit - 20] + f"...<{len(txt)} chars>"


def in_repo(tb: Any) -> bool:
    """Does the traceback pass through the code under test?"""
    roots = (str(REPO / "shepherd_core"), str(REPO / "shepherd_data"))
    return any(frame.filename.startswith(roots) for frame in traceback.extract_tb(tb))


def unusable(xcp: BaseException) -> bool:
    """Failed evaluation that originates from the data (not from a changed interface or the environment)."""
    txt = str(xcp)
    if isinstance(xcp, (ValueError, LookupError, ArithmeticError, FileNotFoundError, StopIteration, EOFError, struct.error)):
        return True
    if isinstance(xcp, (AttributeError, TypeError)):
        return "NoneType" in txt
    if isinstance(xcp, OSError):
        return "open file" in txt and "space" not in txt and "Too many" not in txt
    return type(xcp).__module__.split(".")[0] in {"yaml", "zstandard", "csv", "_csv"}


def jsonable(case: Any) -> Any:
    return json.loads(json.dumps(case))


def canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True)


def run_case(fct: Facet, case: Any, known: set[str]) -> Ctx:
    """Run one case; raises Violation, or HarnessError, or hypothesis-control-flow."""
    ctx = Ctx(known)

    def on_alarm(signum: int, frame: Any) -> None:
        raise CaseTimeout

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(fct.case_timeout)
    try:
        fct.run(case, ctx)
    except (Violation, HarnessError, CaseTimeout):
        raise
    except MemoryError as xcp:
        raise HarnessError(f"memory: {xcp}") from xcp
    except Exception as xcp:
        if type(xcp).__module__.startswith("hypothesis"):
            raise
        if in_repo(xcp.__traceback__):
            tb = traceback.extract_tb(xcp.__traceback__)
            last = [f for f in tb if f.filename.startswith(str(REPO))][-1]
            raise Violation(
                f"unexpected {type(xcp).__name__}: {short(str(xcp))} "
                f"from {Path(last.filename).name}:{last.name}",
                key=f"crash:{type(xcp).__name__}:{Path(last.filename).stem}.{last.name}",
            ) from xcp
        if type(xcp).__name__ == "ValidationError" and type(xcp).__module__.startswith("pydantic"):
            # raised by the compiled validator -> without a frame of the repository
            raise Violation(
                f"valid model refused: {short(str(xcp))}", key="crash:ValidationError"
            ) from xcp
        if unusable(xcp):
            # the oracle could not make sense of what the code returned or stored
            frame = traceback.extract_tb(xcp.__traceback__)[-1]
            raise Violation(
                f"result is not usable, {type(xcp).__name__}: {short(str(xcp))}",
                key=f"unusable:{type(xcp).__name__}:{frame.name}",
            ) from xcp
        raise HarnessError(
            f"{type(xcp).__name__}: {xcp}\n" + "".join(traceback.format_exception(xcp))
        ) from xcp
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        ctx.close_case()
    return ctx


def lists_of(node: Any) -> list:
    """All lists in the case, outermost first."""
    found = []
    if isinstance(node, dict):
        for val in node.values():
            found += lists_of(val)
    elif isinstance(node, list):
        found.append(node)
        for val in node:
            found += lists_of(val)
    return found


def minimize(fct: Facet, case: Any, known: set[str], seconds: float) -> Any:
    """Drop parts of lists as long as the case fails the same way."""

    def outcome(cand: Any) -> str | None:
        try:
            run_case(fct, cand, known)
        except Violation as xcp:
            return str(xcp.key) + "".join(c for c in str(xcp) if c.isalpha() or c == " ")[:24]
        except (Exception, CaseTimeout):  # noqa: BLE001
            return None
        return None

    end = time.monotonic() + seconds
    want = outcome(case)
    pos = 0
    while pos < len(lists_of(case)) and time.monotonic() < end:
        size = len(lists_of(case)[pos])
        cut = size
        while cut >= 1 and time.monotonic() < end:
            start = 0
            while start < len(lists_of(case)[pos]) and time.monotonic() < end:
                cand = json.loads(json.dumps(case))
                del lists_of(cand)[pos][start : start + cut]
                if outcome(cand) == want:
                    case = cand
                else:
                    start += cut
            cut //= 2
        pos += 1
    return case


@dataclass
class ShardResult:
    facet: str
    shard: int
    evaluations: int = 0
    rejected: int = 0
    nontrivial: set = field(default_factory=set)
    labels: dict = field(default_factory=dict)
    excluded: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    violation: dict | None = None
    error: str | None = None
    budget_hit: bool = False
    wall_s: float = 0.0

    def to_json(self) -> dict:
        out = dict(self.__dict__)
        out["nontrivial"] = sorted(self.nontrivial)
        return out


def run_shard(
    fct: Facet, shard: int, n_shards: int, tier: str, known: set[str], out_path: Path
) -> None:
    """Search one facet with one seed, write the result as json."""
    import hypothesis  # noqa: PLC0415
    from hypothesis import HealthCheck, Phase, given, settings  # noqa: PLC0415

    res = ShardResult(fct.name, shard)
    t0 = time.monotonic()
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3000"))
    shrink_budget = 40.0 if tier == "quick" else 120.0
    state: dict[str, Any] = {"fail_t": None, "best": None}

    def finish() -> None:
        res.wall_s = time.monotonic() - t0
        tmp = out_path.with_suffix(".tmp")
        tmp.write_text(json.dumps(res.to_json()))
        tmp.rename(out_path)

    def confirm() -> None:
        """Replay the smallest failing case without the library."""
        best = state["best"]
        if fct.shrink:
            best["case"] = minimize(fct, best["case"], known, 30)
        for _ in range(2):
            try:
                run_case(fct, best["case"], known)
            except Violation as xcp:
                res.violation = {
                    "property": fct.pid,
                    "facet": fct.name,
                    "case": best["case"],
                    "message": str(xcp),
                    "key": xcp.key,
                    "seed": SEED,
                    "tier": tier,
                }
                return
        res.error = f"failure did not reproduce: {best['msg']} case={short(best['case'])}"

    def one(case: Any) -> None:
        case = jsonable(case)
        if state["fail_t"] is not None:
            if time.monotonic() - state["fail_t"] > shrink_budget:
                confirm()
                finish()
                sys.stdout.flush()
                os._exit(0)
        elif time.monotonic() - t0 > budget:
            res.budget_hit = True
            return
        if state["fail_t"] is None:
            res.evaluations += 1
        try:
            ctx = run_case(fct, case, known)
        except Violation as xcp:
            if state["fail_t"] is None:
                state["fail_t"] = time.monotonic()
            size = len(canon(case))
            if state["best"] is None or size <= state["best"]["size"]:
                state["best"] = {"case": case, "msg": str(xcp), "size": size}
            raise
        if state["fail_t"] is not None:
            return
        for lab in ctx.labels:
            res.labels[lab] = res.labels.get(lab, 0) + 1
        for key in ctx.excluded:
            res.excluded[key] = res.excluded.get(key, 0) + 1
        if ctx.is_nontrivial:
            digest = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if digest not in res.nontrivial:
                res.nontrivial.add(digest)
                n = len(res.nontrivial)
                if n in {1, 5, 25}:
                    txt = canon(case)
                    res.samples.append(case if len(txt) < 1500 else short(txt, 1500))

    try:
        if fct.cases is not None and shard == 0:
            for case in fct.cases():
                one(case)
        if fct.strategy is not None:
            n_total = fct.quick * QUICK_SCALE if tier == "quick" else fct.thorough
            n_cases = max(1, n_total // n_shards)
            strat = fct.strategy() if callable(fct.strategy) else fct.strategy
            seed = (SEED * 1_000_003 + zlib.crc32(f"{fct.pid}.{fct.name}.{shard}".encode())) % 2**32

            @hypothesis.seed(seed)
            @settings(
                max_examples=n_cases,
                deadline=None,
                database=None,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )
            @given(case=strat)
            def search(case: Any) -> None:
                one(case)

            search()
    except Violation:
        confirm()
    except CaseTimeout:
        res.error = f"a single case ran for over {fct.case_timeout} s"
    except HarnessError as xcp:
        res.error = str(xcp)
    except BaseException as xcp:  # noqa: BLE001
        if state["best"] is not None:
            confirm()
        else:
            res.error = "".join(traceback.format_exception(xcp))
    finish()
