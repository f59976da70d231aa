"""development-aid: run the check of each planted bug against a patched scratch copy, note catching facet in caught.json"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]


def run(name: str) -> tuple[str, str]:
    src = HERE / "seeded" / name
    pid = json.loads((src / "meta.json").read_text())["property"]
    tmp = Path(tempfile.mkdtemp(prefix="bugcheck-"))
    try:
        repo, ver = tmp / "repo", tmp / "verif"
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replay", "__pycache__"))
        subprocess.run(["git", "apply", str(src / "patch.diff")], cwd=repo, check=True)
        res = subprocess.run([str(ver / "check"), pid], cwd=ver, env={**os.environ, "VERIF_REPO": str(repo)},
                             capture_output=True, text=True, timeout=1500, check=False)
        hit = re.findall(rf"VIOLATION property={pid} replay=\S+/{pid}-(\w+)\.json", res.stdout)
        return name, f"`{hit[0]}`" if hit and res.returncode == 1 else f"missed (rc={res.returncode})"
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    path = HERE / "tools" / "caught.json"
    notes = json.loads(path.read_text()) if path.exists() else {}
    names = sys.argv[1:] or sorted(d.name for d in (HERE / "seeded").iterdir())
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as pool:
        for name, text in pool.map(run, names):
            print(name, text, flush=True)
            notes[name] = text
    path.write_text(json.dumps(notes, indent=1, sort_keys=True) + "\n")
