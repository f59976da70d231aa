"""Build & confirm planted bugs: python3 tools/plant.py SPEC.py [--notest] [--nocheck]

A spec defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (python code).
Works on a scratch copy of /repo, the result goes to /verif/seeded/<name of spec>/.
"""

import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
RUN = """#!/bin/bash
# cwd is /repo: exit 0 if the property holds there
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME="$work/cache" MPLCONFIGDIR="$work/mpl" HOME="$work" TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc" WORK="$work" REPO="$PWD"
export PYTHONPATH="$PWD/shepherd_core:$PWD/shepherd_data"
cd "$work" && /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec, *opts):
    spec = Path(spec)
    s = runpy.run_path(str(spec))
    out = VERIF / "seeded" / spec.stem
    out.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="plant-") as tmp:
        repo = Path(tmp) / "repo"
        sh(f"cp -a /repo {repo}")
        sh("git checkout -q -- . && git clean -fdxq", cwd=repo) if 0 else None
        (out / "demo.sh").write_text(RUN)
        (out / "demo.py").write_text(s["DEMO"].lstrip("\n"))
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        r = sh(f"bash {out}/demo.sh", cwd=repo)
        if r.returncode != 0:
            print(spec.stem, "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-1500:])
            return 1
        for file, old, new in s["EDITS"]:
            p = repo / file
            t = p.read_text()
            assert t.count(old) == 1, (spec.stem, file, t.count(old), old)
            p.write_text(t.replace(old, new))
        d = sh("git diff", cwd=repo).stdout
        (out / "patch.diff").write_text(d)
        # only lines of the original repository
        orig = {}
        for line in d.splitlines():
            if line.startswith("--- a/"):
                f = line[6:]
                orig = set(sh(f"git show b5016e7:{f}", cwd=repo).stdout.splitlines())
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in orig:
                print(spec.stem, "NOT ORIGINAL:", line)
        r = sh(f"bash {out}/demo.sh", cwd=repo)
        if r.returncode == 0:
            print(spec.stem, "DEMO PASSES WITH BUG")
            return 1
        print(spec.stem, "demo ok:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        assert sh(f"git -C /repo apply --check {out}/patch.diff").returncode == 0
        if "--nocheck" not in opts:
            env = dict(os.environ, VERIF_REPO=str(repo), VERIF_SEED="1")
            r = sh(f"{VERIF}/check {s['PROPERTY']}", env=env)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(spec.stem, s["PROPERTY"], "CAUGHT" if r.returncode == 1 and v else f"** MISSED ** rc={r.returncode}", v[:1])
        if "--notest" not in opts:
            t = Path("/opt/vp/test.sh").read_text().replace("/repo", str(repo))
            t = t.replace("export HOME=", f"export PYTHONPATH={repo}/shepherd_core:{repo}/shepherd_data HOME=", 1)
            (Path(tmp) / "test.sh").write_text(t)
            r = sh(f"bash {tmp}/test.sh {tmp}/out.json", cwd=tmp)
            try:
                res = json.loads((Path(tmp) / "out.json").read_text())
                base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
                bad = compare(base, res)
                print(spec.stem, "tests:", "ok" if not bad else f"** BROKEN ** {bad[:4]}")
            except Exception as e:
                print(spec.stem, "tests: ?", e, r.stdout[-500:], r.stderr[-500:])
    return 0


def ids(x):
    for key in ("passed", "pass", "stable", "tests"):
        if isinstance(x, dict) and key in x:
            return set(x[key])
    return set(x) if isinstance(x, list) else {k for k, v in x.items() if v in ("passed", True)}


def compare(base, res):
    return sorted(ids(base) - ids(res))


if __name__ == "__main__":
    sys.exit(main(*sys.argv[1:]))
