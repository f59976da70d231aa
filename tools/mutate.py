"""Mutation-analysis of the checks: python3 tools/mutate.py OUT.jsonl [--n 20] [--workers 2] [--seed 1] [FILE...]

Small syntactic changes are applied to scratch copies of /repo and the checks of all properties
that are anchored at the changed file are run. Survivors get listed for a review by hand.
"""

import argparse
import ast
import json
import os
import random
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

VERIF = Path(__file__).resolve().parents[1]
REPO = Path("/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//",
       ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}
CALLS = {"max": "min", "min": "max", "round": "int", "int": "round", "abs": "float", "any": "all", "all": "any",
         "floor": "ceil", "ceil": "floor", "argmax": "argmin", "argmin": "argmax", "mean": "max", "sum": "max",
         "copy": "", "deepcopy": ""}
SKIP = ("logger", "_logger", "log.", "warnings.warn", "print(", "description=", "TypeVar", "super().__init__")


def mutants(path: Path):
    text = path.read_text()
    raw = text.encode()
    lines = text.splitlines(keepends=True)
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()))

    def pos(node, end=False):
        return offs[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def seg(node):
        return raw[pos(node):pos(node, True)].decode()

    out = []

    def add(node, new, what, begin=None, end=None):
        b = pos(node) if begin is None else begin
        e = pos(node, True) if end is None else end
        out.append({"line": node.lineno, "what": what, "b": b, "e": e, "new": new, "old": raw[b:e].decode()})

    tree = ast.parse(text)
    dead = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body:
            first = node.body[0]
            if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) and isinstance(first.value.value, str):
                dead.add(first.value)
                dead.add(first)
        for name in ("annotation", "returns"):
            ann = getattr(node, name, None)
            if ann is not None and not isinstance(node, ast.AnnAssign):
                dead.update(ast.walk(ann))
        if isinstance(node, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            dead.update(ast.walk(node))
        if isinstance(node, ast.stmt) and not hasattr(node, "body"):
            if any(s in seg(node) for s in SKIP[:4]):
                dead.update(ast.walk(node))
        if isinstance(node, ast.Raise):
            dead.update(n for n in ast.walk(node) if n is not node)
        if isinstance(node, ast.If) and "TYPE_CHECKING" in seg(node)[:30]:
            dead.update(ast.walk(node))
    for node in ast.walk(tree):
        if node in dead:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            b, e = pos(node.left, True), pos(node.comparators[0])
            gap = raw[b:e].decode()
            op = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
                  ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}[type(node.ops[0])]
            if gap.count(op) == 1:
                add(node, gap.replace(op, CMP[type(node.ops[0])]), "compare", b, e)
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            b, e = pos(node.left, True), pos(node.right)
            gap = raw[b:e].decode()
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
                  ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.Pow: "**"}[type(node.op)]
            if gap.count(op) == 1 and not isinstance(node.left, ast.Constant | ast.JoinedStr) or (
                gap.count(op) == 1 and isinstance(getattr(node.left, "value", 0), (int, float))):
                add(node, gap.replace(op, BIN[type(node.op)]), "operator", b, e)
        elif isinstance(node, ast.BoolOp):
            b, e = pos(node.values[0], True), pos(node.values[1])
            gap = raw[b:e].decode()
            op = "and" if isinstance(node.op, ast.And) else "or"
            if gap.count(op) == 1 and len(node.values) == 2:
                add(node, gap.replace(op, "or" if op == "and" else "and"), "bool", b, e)
            for num, val in enumerate(node.values):
                add(val, "True" if op == "and" else "False", f"drop condition {num}")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, seg(node.operand), "not")
        elif isinstance(node, ast.Constant):
            val = node.value
            if isinstance(val, bool):
                add(node, str(not val), "constant")
            elif isinstance(val, int):
                add(node, str(val + 1), "constant")
            elif isinstance(val, float):
                add(node, str(val * 1.1 + (0.1 if val == 0 else 0)), "constant")
        elif isinstance(node, ast.Call):
            name = node.func.id if isinstance(node.func, ast.Name) else getattr(node.func, "attr", "")
            if name in CALLS:
                new = CALLS[name]
                if new:
                    nb = pos(node.func, True) - len(name)
                    add(node, new, "call", nb, nb + len(name))
                elif len(node.args) == 1:
                    add(node, seg(node.args[0]), "copy")
            for kw in node.keywords:
                if kw.arg and kw.arg not in ("description", "help", "title") and len(node.args) + len(node.keywords) > 1:
                    b, e = pos(kw), pos(kw, True)
                    while raw[e:e + 1] in (b",", b" ", b"\n"):
                        e += 1
                        if raw[e - 1:e] == b",":
                            break
                    add(kw.value, "", f"drop keyword {kw.arg}", b, e)
        elif isinstance(node, (ast.If, ast.While)):
            add(node.test, f"not ({seg(node.test)})", "negate")
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)
        ):
            if node.col_offset > 0 and not (isinstance(node, ast.Assign) and "model_config" in seg(node)):
                add(node, "pass", f"drop {type(node).__name__}")
        if isinstance(node, ast.Continue) or isinstance(node, ast.Break):
            add(node, "pass", "drop loop-control")
    seen, res = set(), []
    for mut in out:
        new = raw[:mut["b"]] + mut["new"].encode() + raw[mut["e"]:]
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        if new not in seen and new != raw:
            seen.add(new)
            res.append((mut, new))
    return res


def properties() -> dict:
    table: dict = {}
    for line in (VERIF / "properties.jsonl").read_text().splitlines():
        prop = json.loads(line)
        for file in prop["anchors"]["files"]:
            table.setdefault(file, []).append(prop["id"])
    return table


def main() -> None:
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="*")
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", default="1")
    args = ap.parse_args()
    table = properties()
    rng = random.Random(args.seed)
    jobs = []
    for pkg in ("shepherd_core/shepherd_core", "shepherd_data/shepherd_data"):
        for path in sorted((REPO / pkg).rglob("*.py")):
            rel = path.relative_to(REPO).as_posix()
            if args.files and not any(f in rel for f in args.files):
                continue
            pids = sorted({p for f, ps in table.items() if rel == f or (f.endswith("/") and rel.startswith(f)) for p in ps})
            muts = mutants(path)
            rng.shuffle(muts)
            if not pids:
                if muts:
                    print("no property for", rel, len(muts))
                continue
            jobs += [(rel, pids, *m) for m in muts[: args.n]]
    rng.shuffle(jobs)
    print(len(jobs), "mutants")
    pool: Queue = Queue()
    with tempfile.TemporaryDirectory(prefix="mutate-") as tmp:
        verif = Path(tmp) / "verif"
        subprocess.run(["cp", "-a", str(VERIF), str(verif)], check=True)
        for i in range(args.workers):
            subprocess.run(["cp", "-a", str(REPO), f"{tmp}/repo{i}"], check=True)
            pool.put(Path(f"{tmp}/repo{i}"))
        done = 0

        def work(job) -> None:
            nonlocal done
            rel, pids, mut, new = job
            repo = pool.get()
            old = (repo / rel).read_bytes()
            res = {"file": rel, "line": mut["line"], "what": mut["what"], "old": mut["old"][:200], "new": mut["new"][:200], "killed": None, "rc": {}}
            try:
                (repo / rel).write_bytes(new)
                env = dict(os.environ, VERIF_REPO=str(repo), VERIF_JOBS=str(8 // args.workers), VERIF_QUICK_SCALE=args.scale, VERIF_BUDGET="60", PYTHONDONTWRITEBYTECODE="1")
                for pid in pids:
                    try:
                        run = subprocess.run([str(verif / "check"), pid], env=env, capture_output=True, text=True, timeout=240, check=False)
                        res["rc"][pid] = run.returncode
                        if run.returncode == 1:
                            res["killed"] = pid
                            break
                        if run.returncode != 0:
                            res["killed"] = pid + "?"
                    except subprocess.TimeoutExpired:
                        res["rc"][pid] = "timeout"
                        res["killed"] = pid + "?"
            finally:
                (repo / rel).write_bytes(old)
                pool.put(repo)
            done += 1
            with open(args.out, "a") as fh:
                fh.write(json.dumps(res) + "\n")

        with ThreadPoolExecutor(args.workers) as ex:
            list(ex.map(work, jobs))


if __name__ == "__main__":
    main()
