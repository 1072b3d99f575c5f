"""Mutation testing of the checks (development tool, not used by any check).

    mutate.py cover OUT.json [C01 ...]          lines of the repository each check executes
    mutate.py run COVER.json OUT.jsonl FILE [--n 60] [--seed 1] [--jobs 8] [--checks C01,C02]

Every mutant changes one expression or statement on a line which a check executes.  The
checks which execute this line run (reduced number of cases, no shrinking) on a copy of the
repository under /tmp; mutants which no check reports are listed for a manual review.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def environment(repo, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{repo}:{HERE / 'shim'}",
        VERIF_REPO=str(repo),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=f"{scratch}/pyc",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=f"{scratch}/mpl",
        QT_QPA_PLATFORM="offscreen",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        HOME=str(scratch),
    )
    return env


def child_check(check, scale, seed, cover):
    """Runs one check in this process; prints KILLED / SURVIVED / lines."""
    sys.path.insert(0, str(HERE))
    from lib import pbt

    sys.path.append(pbt.HYPOTHESIS_PATH)
    lines = {}
    if cover:
        mon = sys.monitoring
        mon.use_tool_id(3, "cover")
        prefix = pbt.REPO + os.sep

        def on_line(code, line):
            if code.co_filename.startswith(prefix):
                lines.setdefault(code.co_filename[len(prefix):], set()).add(line)
            return mon.DISABLE

        mon.register_callback(3, mon.events.LINE, on_line)
    pbt.setup_runtime()
    import importlib

    try:
        module = importlib.import_module(f"checks.{check.lower()}")
    except Exception as err:
        print("RESULT KILLED import", type(err).__name__)
        return
    if cover:
        sys.monitoring.set_events(3, sys.monitoring.events.LINE)
    for ii, sub in enumerate(module.SUBS):
        n_cases = max(20, int(sub.quick * scale)) if sub.quick > 100 else max(8, int(sub.quick * scale))
        res = pbt._run_shard((f"checks.{check.lower()}", ii, 0, n_cases, seed, 200, 0))
        if res["failure"] and not cover:
            print("RESULT KILLED", sub.name, res["failure"]["message"][:150].replace("\n", " "))
            return
        if res["error"] and not cover:
            print("RESULT ERROR", sub.name, res["error"][-150:].replace("\n", " "))
            return
    if cover:
        sys.monitoring.set_events(3, 0)
        print("LINES", json.dumps({k: sorted(v) for k, v in lines.items()}))
    print("RESULT SURVIVED")


COMPARE = {
    ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt, ast.GtE],
    ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
}
BINARY = {
    ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
    ast.Pow: [ast.Mult], ast.MatMult: [],
}
NAMES = {
    "min": "max", "max": "min", "sin": "cos", "cos": "sin", "argmin": "argmax",
    "argmax": "argmin", "minimum": "maximum", "maximum": "minimum", "append": None,
    "any": "all", "all": "any", "arcsin": "arccos", "arccos": "arcsin",
    "transform_position_to_relative": "transform_position_from_relative",
    "transform_position_from_relative": "transform_position_to_relative",
    "transform_direction_to_relative": "transform_direction_from_relative",
    "transform_direction_from_relative": "transform_direction_to_relative",
    "rotate": "inverse_rotate", "inverse_rotate": "rotate", "ones": "zeros", "zeros": "ones",
    "in_global_frame": "in_obstacle_frame",
}


def variants(node):
    """Yields (description, replacement node) of one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in COMPARE.get(type(node.ops[0]), []):
            new = copy.deepcopy(node)
            new.ops = [op()]
            yield new
    if isinstance(node, ast.BinOp):
        for op in BINARY.get(type(node.op), []):
            new = copy.deepcopy(node)
            new.op = op()
            yield new
        if isinstance(node.op, (ast.Add, ast.Sub)):
            yield copy.deepcopy(node.left)
        if isinstance(node.op, (ast.Mult, ast.Div)):
            yield copy.deepcopy(node.left)
            if isinstance(node.op, ast.Mult):
                yield copy.deepcopy(node.right)
    if isinstance(node, ast.BoolOp):
        new = copy.deepcopy(node)
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield new
        for value in node.values:
            yield copy.deepcopy(value)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        yield copy.deepcopy(node.operand)
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield ast.Constant(not node.value)
        elif isinstance(node.value, (int, float)):
            for value in {0: [1], 1: [0, 2], 2: [1, 3]}.get(node.value, [node.value * 2, node.value * 0.5]):
                yield ast.Constant(type(node.value)(value))
    if isinstance(node, ast.If):
        for value in (True, False):
            new = copy.deepcopy(node)
            new.test = ast.Constant(value)
            yield new
    if isinstance(node, ast.IfExp):
        yield copy.deepcopy(node.body)
        yield copy.deepcopy(node.orelse)
    if isinstance(node, ast.Attribute) and NAMES.get(node.attr):
        new = copy.deepcopy(node)
        new.attr = NAMES[node.attr]
        yield new
    if isinstance(node, ast.Name) and NAMES.get(node.id) and isinstance(node.ctx, ast.Load):
        yield ast.Name(NAMES[node.id], ast.Load())
    if isinstance(node, ast.Call):
        if node.keywords:
            for ii in range(len(node.keywords)):
                new = copy.deepcopy(node)
                del new.keywords[ii]
                yield new
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "normalize"):
            yield copy.deepcopy(node.func.value)
        if len(node.args) == 2:
            new = copy.deepcopy(node)
            new.args = new.args[::-1]
            yield new
    if isinstance(node, ast.AugAssign):
        yield ast.Assign([copy.deepcopy(node.target)], copy.deepcopy(node.value))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
        isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)
    ):
        yield ast.Pass()
    if isinstance(node, ast.Continue):
        yield ast.Pass()
        yield ast.Break()
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
        new = copy.deepcopy(node)
        new.slice = ast.Constant(0)
        yield new
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.UnaryOp):
        new = copy.deepcopy(node)
        new.slice = ast.Constant(0)
        yield new


def tokens(name):
    return {part for part in name.strip("_").split("_") if part}


def structural(tree):
    """Yields (node, replacement) of a second family: aliasing (in-place changes, dropped
    copies), mixed-up names, loops which miss an end, exchanged statements."""
    attributes = sorted({
        x.attr for x in ast.walk(tree)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"
    })
    for func in ast.walk(tree):
        if not isinstance(func, ast.FunctionDef):
            continue
        names = {x.arg for x in func.args.args} | {
            x.id for x in ast.walk(func) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
        }
        names -= {"self", "cls"}
        defaults = {id(x) for x in ast.walk(func.args)}
        for node in ast.walk(func):
            if id(node) in defaults:
                continue
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                value = node.value
                if (
                    isinstance(value, ast.BinOp) and isinstance(value.left, ast.Name)
                    and value.left.id == node.targets[0].id
                ):
                    yield node, ast.AugAssign(copy.deepcopy(node.targets[0]), value.op, copy.deepcopy(value.right))
            if isinstance(node, ast.Call):
                name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
                if name in ("copy", "deepcopy", "array") and node.args and not isinstance(node.args[0], (ast.List, ast.ListComp)):
                    yield node, copy.deepcopy(node.args[0])
                if name == "range":
                    new = copy.deepcopy(node)
                    if len(new.args) == 1:
                        new.args = [ast.Constant(1), new.args[0]]
                    else:
                        new.args[0] = ast.BinOp(new.args[0], ast.Add(), ast.Constant(1))
                    yield node, new
                    new = copy.deepcopy(node)
                    last = min(len(new.args), 2) - 1
                    new.args[last] = ast.BinOp(new.args[last], ast.Sub(), ast.Constant(1))
                    yield node, new
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in names:
                for other in sorted(names - {node.id}):
                    near = tokens(other) & tokens(node.id) or (len(other) < 4 and len(node.id) < 4)
                    if near:
                        yield node, ast.Name(other, ast.Load())
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and getattr(node.value, "id", "") == "self":
                for other in attributes:
                    if other != node.attr and len(tokens(other) & tokens(node.attr)) >= 1:
                        new = copy.deepcopy(node)
                        new.attr = other
                        yield node, new
            if isinstance(node, ast.If) and node.orelse and not (
                len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)
            ):
                new = copy.deepcopy(node)
                new.orelse = []
                yield node, new
            for attr in ("body", "orelse"):
                block = getattr(node, attr, None)
                if not isinstance(block, list):
                    continue
                for ii in range(len(block) - 1):
                    if all(isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) for x in block[ii:ii + 2]):
                        new = copy.deepcopy(node)
                        both = getattr(new, attr)
                        both[ii], both[ii + 1] = both[ii + 1], both[ii]
                        yield node, (new, block[ii].lineno)


def structural_mutants(path, lines):
    tree = ast.parse(path.read_text())
    order = {id(node): index for index, node in enumerate(walk(tree))}
    seen = {ast.unparse(tree)}
    out = []
    for node, new in structural(tree):
        line = getattr(node, "lineno", None)
        what = ast.unparse(node)[:80]
        if isinstance(new, tuple):
            new, line = new
            what = "exchanged statements"
        if line not in lines:
            continue
        changed = Replace(order[id(node)], new).visit(copy.deepcopy(tree))
        try:
            text = ast.unparse(ast.fix_missing_locations(changed))
        except Exception:
            continue
        if text not in seen:
            seen.add(text)
            extra = "" if what.startswith("exch") else " -> " + ast.unparse(new)[:100]
            out.append((line, (what + extra).replace("\n", " "), text))
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, index, new):
        self.index, self.new, self.count = index, new, -1

    def visit(self, node):
        self.count += 1
        if self.count == self.index:
            return self.new
        return self.generic_visit(node)


def walk(node):
    """Same order as the transformer."""
    yield node
    for _, value in ast.iter_fields(node):
        if isinstance(value, list):
            for item in value:
                if isinstance(item, ast.AST):
                    yield from walk(item)
        elif isinstance(value, ast.AST):
            yield from walk(value)


def mutants(path, lines):
    tree = ast.parse(path.read_text())
    base = ast.unparse(tree)
    seen = {base}
    inside = set()
    for func in ast.walk(tree):
        if isinstance(func, ast.FunctionDef):
            args = {id(x) for x in ast.walk(func.args)}
            for x in ast.walk(func):
                if id(x) not in args:
                    inside.add(id(x))
    out = []
    for index, node in enumerate(walk(tree)):
        if id(node) not in inside or getattr(node, "lineno", None) not in lines:
            continue
        for new in variants(node):
            changed = Replace(index, new).visit(copy.deepcopy(tree))
            try:
                text = ast.unparse(ast.fix_missing_locations(changed))
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            if isinstance(node, ast.If):
                what = f"if {ast.unparse(node.test)} -> {new.test.value}"
            else:
                what = f"{ast.unparse(node)} -> {ast.unparse(new)}"
            out.append((node.lineno, what.replace("\n", " ")[:200], text))
    return out


def main():
    if sys.argv[1] == "child":
        child_check(sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), sys.argv[5] == "1")
        return
    scratch = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    if sys.argv[1] == "cover":
        checks = sys.argv[3:] or sorted(p.stem.upper() for p in (HERE / "checks").glob("c*.py"))
        data = {}
        procs = []
        for check in checks:
            procs.append((check, subprocess.Popen(
                [PYTHON, "-W", "ignore", __file__, "child", check, "0.1", "1", "1"],
                env=environment(REPO, scratch), stdout=subprocess.PIPE, text=True, cwd=scratch)))
        for check, proc in procs:
            text = proc.communicate()[0]
            line = [x for x in text.splitlines() if x.startswith("LINES")][0]
            data[check] = json.loads(line[6:])
        Path(sys.argv[2]).write_text(json.dumps(data))
        shutil.rmtree(scratch)
        return
    import argparse
    from concurrent.futures import ThreadPoolExecutor

    parser = argparse.ArgumentParser()
    parser.add_argument("mode")
    parser.add_argument("cover")
    parser.add_argument("out")
    parser.add_argument("file")
    parser.add_argument("--n", type=int, default=60)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--jobs", type=int, default=8)
    parser.add_argument("--scale", type=float, default=0.25)
    parser.add_argument("--checks")
    parser.add_argument("--lines")
    parser.add_argument("--kind", default="expressions", choices=["expressions", "structure"])
    args = parser.parse_args()
    cover = json.loads(Path(args.cover).read_text())
    if args.checks:
        cover = {k: v for k, v in cover.items() if k in args.checks.split(",")}
    by_line = {}
    for check, files in cover.items():
        for line in files.get(args.file, []):
            by_line.setdefault(line, []).append(check)
    if args.lines:
        low, high = map(int, args.lines.split("-"))
        by_line = {k: v for k, v in by_line.items() if low <= k <= high}
    create = structural_mutants if args.kind == "structure" else mutants
    found = create(Path(REPO) / args.file, by_line)
    random.Random(args.seed).shuffle(found)
    print(args.file, len(found), "mutants,", len(by_line), "lines", flush=True)
    found = found[: args.n]

    def run(item):
        line, what, text = item
        work = tempfile.mkdtemp(prefix="m.", dir=scratch)
        repo = Path(work) / "repo"
        shutil.copytree(Path(REPO) / "nonlinear_avoidance", repo / "nonlinear_avoidance",
                        ignore=shutil.ignore_patterns("__pycache__"))
        (repo / args.file).write_text(text)
        result = "SURVIVED " + ",".join(by_line[line])
        order = sorted(by_line[line], key=lambda c: len(cover[c].get(args.file, [])), reverse=True)[:5]
        for check in order:
            try:
                proc = subprocess.run(
                    [PYTHON, "-W", "ignore", __file__, "child", check, str(args.scale), "1", "0"],
                    env=environment(repo, work), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                    text=True, cwd=work, timeout=600)
                answer = [x for x in proc.stdout.splitlines() if x.startswith("RESULT")]
            except subprocess.TimeoutExpired:
                answer = ["RESULT TIMEOUT"]
            if not answer:
                result = f"KILLED {check} (crash)"
                break
            if "SURVIVED" not in answer[0]:
                result = f"{answer[0][7:]} [{check}]"
                break
        shutil.rmtree(work)
        record = {"file": args.file, "line": line, "what": what, "result": result}
        with open(args.out, "a") as out:
            out.write(json.dumps(record) + "\n")
        return record

    with ThreadPoolExecutor(args.jobs) as pool:
        records = list(pool.map(run, found))
    alive = [r for r in records if not r["result"].startswith("KILLED")]
    print(f"{args.file}: {len(records)} mutants, {len(alive)} not killed")
    shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
