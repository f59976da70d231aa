"""Runs the facets of one property in parallel, prints the verdict, writes the evidence."""

from __future__ import annotations

import argparse
import importlib
import json
import logging
import os
import resource
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
sys.path.insert(0, str(VERIF))
for _pkg in ("shepherd_data", "shepherd_core"):
    sys.path.insert(0, str(REPO / _pkg))

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EXIT_ERROR = 2


def load_tools() -> None:
    """hypothesis is not part of the runtime venv, borrow it from the tooling venv."""
    sys.path.append(_VT)
    import hypothesis  # noqa: F401, PLC0415
    import hypothesis.extra.numpy  # noqa: F401, PLC0415
    import hypothesis.strategies  # noqa: F401, PLC0415

    sys.path.remove(_VT)


def load_known(pid: str) -> list[dict]:
    """Entries of known_findings.txt, that belong to this property."""
    path = VERIF / "known_findings.txt"
    found = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 4)
                # known: property=P00 key=abc facet=name text
                ent = dict(_p.split("=", 1) for _p in parts[1:4])
                ent["what"] = parts[4]
                if ent["property"] == pid:
                    found.append(ent)
    return found


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    t0 = time.monotonic()
    load_tools()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    from harness import core  # noqa: PLC0415

    registry = json.loads((VERIF / "checks" / "registry.json").read_text())
    module = importlib.import_module(f"checks.{registry[args.property]}")
    import shepherd_core  # noqa: PLC0415

    if not Path(shepherd_core.__file__).resolve().is_relative_to(REPO):
        print(f"ERROR: shepherd_core imported from {shepherd_core.__file__}")
        return EXIT_ERROR
    quiet_logs()

    facets = core.FACETS.get(args.property, [])
    if args.facet:
        facets = [f for f in facets if f.name == args.facet]
    if not facets:
        print("ERROR: no facets", module)
        return EXIT_ERROR
    known_ents = load_known(args.property)
    known = {e["key"] for e in known_ents}

    if args.replay:
        rep = json.loads(Path(args.replay).read_text())
        fct = next(f for f in facets if f.name == rep["facet"])
        try:
            core.run_case(fct, rep["case"], set() if rep.get("ignore_known") else known)
        except core.Violation as xcp:
            print(f"reproduced: {xcp}")
            print(f"VIOLATION property={args.property} replay={args.replay}")
            return 1
        print("held on the replayed case")
        return 0

    jobs = args.jobs or min(8, os.cpu_count() or 1)
    tasks = []
    for fct in facets:
        n_sh = max(fct.shards, (4 if args.tier == "quick" else 8) if fct.strategy is not None else 1)
        tasks += [(fct, i, n_sh) for i in range(n_sh)]
    tasks.sort(key=lambda t: (t[1] > 0, ))
    scratch = Path(os.environ["VERIF_SCRATCH"])
    kill_after = 780 if args.tier == "quick" else 4 * 3600
    results, errors = run_tasks(core, tasks, jobs, args.tier, known, scratch, kill_after)

    violations = [r["violation"] for r in results if r["violation"]]
    errors += [f"{r['facet']}[{r['shard']}]: {r['error']}" for r in results if r["error"]]

    # listed findings: state them (as long as they still fail)
    for ent in known_ents:
        rep_path = VERIF / "findings" / f"{ent['key'].replace(':', '_')}.json"
        rep = json.loads(rep_path.read_text())
        fct = next((f for f in core.FACETS[args.property] if f.name == rep["facet"]), None)
        if fct is None:
            continue
        try:
            core.run_case(fct, rep["case"], set())
        except core.Violation as xcp:
            if xcp.key == ent["key"]:
                print(f"KNOWN-FINDING: property={args.property} {ent['what']}")
            else:
                violations.append(
                    {"property": args.property, "facet": fct.name, "case": rep["case"],
                     "message": str(xcp), "key": xcp.key, "seed": core.SEED, "tier": args.tier}
                )
        except core.HarnessError as xcp:
            errors.append(str(xcp))

    write_evidence(core, args, facets, results, violations, time.monotonic() - t0)
    summarize(facets, results, args)

    (VERIF / "replay").mkdir(exist_ok=True)
    seen = set()
    for vio in sorted(violations, key=lambda v: len(core.canon(v["case"]))):
        if vio["facet"] in seen:
            continue
        seen.add(vio["facet"])
        path = VERIF / "replay" / f"{vio['property']}-{vio['facet']}.json"
        path.write_text(json.dumps(vio, indent=1))
        print(f"  {vio['facet']}: {vio['message']}")
        print(f"  case: {core.short(vio['case'], 600)}")
        print(f"VIOLATION property={vio['property']} replay={path}")
    for err in errors:
        print(f"ERROR {err}")
    if violations:
        return 1
    return EXIT_ERROR if errors else 0


def quiet_logs() -> None:
    logging.raiseExceptions = False
    root = logging.getLogger()
    for name in list(logging.root.manager.loggerDict):
        log = logging.getLogger(name)
        log.handlers = [h for h in log.handlers if not isinstance(h, logging.StreamHandler)]
    root.handlers = [logging.NullHandler()]


def run_tasks(core, tasks, jobs, tier, known, scratch, kill_after):
    results, errors = [], []
    running: dict[int, tuple] = {}
    pending = list(tasks)
    t_start = time.monotonic()
    while pending or running:
        while pending and len(running) < jobs:
            fct, shard, n_sh = pending.pop(0)
            out = scratch / f"res-{fct.name}-{shard}.json"
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    log_fd = os.open(str(out) + ".log", os.O_WRONLY | os.O_CREAT)
                    os.dup2(log_fd, 1)
                    os.dup2(log_fd, 2)
                    cwd = scratch / f"cwd-{fct.name}-{shard}"
                    cwd.mkdir()
                    os.chdir(cwd)
                    core.run_shard(fct, shard, n_sh, tier, known, out)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            running[pid] = (fct, shard, out)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() - t_start > kill_after:
                for pid_ in list(running):
                    os.kill(pid_, 9)
                    os.waitpid(pid_, 0)
                    fct, shard, out = running.pop(pid_)
                    errors.append(f"{fct.name}[{shard}]: stopped after {kill_after} s")
                pending.clear()
                break
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        fct, shard, out = running.pop(pid)
        if out.exists():
            results.append(json.loads(out.read_text()))
        else:
            log = Path(str(out) + ".log")
            tail = log.read_text(errors="replace")[-1500:] if log.exists() else ""
            errors.append(f"{fct.name}[{shard}]: worker ended with status {status}\n{tail}")
    order = {(f.name, s): i for i, (f, s, _) in enumerate(tasks)}
    results.sort(key=lambda r: order[(r["facet"], r["shard"])])
    return results, errors


def merge(results, name):
    rows = [r for r in results if r["facet"] == name]
    labels: dict[str, int] = {}
    excl: dict[str, int] = {}
    for row in rows:
        for k, v in row["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in row["excluded"].items():
            excl[k] = excl.get(k, 0) + v
    return {
        "evaluations": sum(r["evaluations"] for r in rows),
        "distinct_nontrivial": len(set().union(*[set(r["nontrivial"]) for r in rows])) if rows else 0,
        "labels": dict(sorted(labels.items())),
        "excluded_known": excl,
        "samples": [s for r in rows for s in r["samples"]][:3],
        "budget_hit": any(r["budget_hit"] for r in rows),
        "wall_s": round(max([r["wall_s"] for r in rows] + [0.0]), 2),
    }


def write_evidence(core, args, facets, results, violations, wall):
    rows = {f.name: merge(results, f.name) for f in facets}
    samples = []
    for name, row in rows.items():
        samples += [{"facet": name, "case": s} for s in row["samples"][:2]]
    evi = {
        "property": args.property,
        "tier": args.tier,
        "seed": core.SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in rows.values()),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in rows.values()),
            "rule": " | ".join(f"{f.name}: {f.rule}" for f in facets),
            "samples": samples,
            "facets": {
                n: {k: v for k, v in r.items() if k != "samples"} for n, r in rows.items()
            },
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "assumptions": [
            "inputs outside the generated domain (see rule) were not explored",
            "the reference oracles in /verif/checks are trusted",
        ],
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{args.property}.json").write_text(json.dumps(evi, indent=1))


def summarize(facets, results, args):
    for fct in facets:
        row = merge(results, fct.name)
        print(
            f"{args.property}.{fct.name}: {row['evaluations']} cases, "
            f"{row['distinct_nontrivial']} distinct non-trivial, {row['wall_s']} s"
            + (" (budget hit)" if row["budget_hit"] else "")
            + (f" excluded={row['excluded_known']}" if row["excluded_known"] else "")
        )
        if args.verbose:
            for key, val in row["labels"].items():
                print(f"      {val:6d} {key}")


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = EXIT_ERROR
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
