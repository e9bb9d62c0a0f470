"""Automatic mutation of the library to find what the checks miss (development tool; no check uses it).

mutate.py cover            which lines of the library each check runs (to /tmp/mut/cover.json)
mutate.py list [FILES]     make the list of mutants (/tmp/mut/list.json)
mutate.py run [N]          try all mutants with N processes; log to /tmp/mut/log.jsonl
mutate.py one DIR P...     run the quick cases of the checks P... against DIR until one reports a violation
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, TOP)
W = "/tmp/mut"
PY = "/opt/venv/bin/python"
FILES = ["algorithm", "arraytools", "fields", "galaxies", "harmonics", "healpix", "lensing", "observations", "points", "rng", "shapes", "shells", "user", "jax", "_array_api_utils", "grf/_core", "grf/_solver", "grf/_transformations", "ext/__init__"]
LATE = {"C30", "C31", "C32", "C36", "C37", "C38", "C39", "C40"}

SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.MatMult: ["*"]}
BOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.MatMult: "@"}
NAMES = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "cos": "sin", "sin": "cos", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "ones": "zeros", "zeros": "ones", "ones_like": "zeros_like", "zeros_like": "ones_like", "hypot": "atan2", "abs": "negative", "imag": "real", "real": "imag", "argmin": "argmax", "append": "extend", "triu": "tril", "tril": "triu", "log": "log1p", "exp": "expm1", "log1p": "log", "expm1": "exp"}


def mutants(rel):
    path = f"/repo/glass/{rel}.py"
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    out = []
    span = []  # default arguments count as run where their function runs

    def pos(line, col):
        return starts[line - 1] + col

    def seg(node):
        return raw[pos(node.lineno, node.col_offset):pos(node.end_lineno, node.end_col_offset)].decode()

    def add(node, new, what):
        first, last = span[-1] if span else (node.lineno, node.end_lineno)
        out.append(dict(file=rel, line=first, end=last, a=pos(node.lineno, node.col_offset), b=pos(node.end_lineno, node.end_col_offset), new=new, what=what, old=seg(node)[:100]))

    def visit(node, in_fn):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            span.append((node.body[0].lineno, node.end_lineno))
            for d in node.args.defaults + [d for d in node.args.kw_defaults if d]:
                visit(d, in_fn)
            span.pop()
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            if any(getattr(d, "attr", getattr(d, "id", "")) == "overload" for d in node.decorator_list):
                return
            for s in body:
                visit(s, True)
            return
        if isinstance(node, ast.ClassDef):
            for s in node.body:
                visit(s, in_fn)
            return
        if isinstance(node, ast.If) and "TYPE_CHECKING" in seg(node.test):
            return
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value:
                visit(node.value, in_fn)
            return
        if isinstance(node, ast.Raise):
            add(node, "pass", "no raise")
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if in_fn and isinstance(node, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(node, "value", None), (ast.Yield, ast.YieldFrom)):
            add(node, "pass", "statement removed")
        if isinstance(node, ast.Assign) and in_fn and not isinstance(node.targets[0], (ast.Name, ast.Tuple)):
            add(node, "pass", "store removed")
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            add(node.test, f"(not ({seg(node.test)}))", "negated test")
            if isinstance(node, ast.If):
                add(node.test, "False", "never")
                add(node.test, "True", "always")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for n in SWAP.get(type(node.ops[0]), []):
                add(node, f"{seg(node.left)} {n} {seg(node.comparators[0])}", f"compare {n}")
        elif isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for n in SWAP.get(type(op), []):
                    parts = [seg(node.left)]
                    for kk, (o, cc) in enumerate(zip(node.ops, node.comparators)):
                        parts += [n if kk == k else CMP[type(o)], seg(cc)]
                    add(node, " ".join(parts), f"compare {n}")
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            for n in BIN[type(node.op)]:
                add(node, f"({seg(node.left)} {n} {seg(node.right)})", f"operator {n}")
            if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(node, f"({seg(node.left)})", "right operand dropped")
        if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            for n in BIN[type(node.op)]:
                add(node, f"{seg(node.target)} {n}= {seg(node.value)}", f"augmented {n}=")
        if isinstance(node, ast.BoolOp):
            o = " or " if isinstance(node.op, ast.And) else " and "
            add(node, "(" + o.join(f"({seg(v)})" for v in node.values) + ")", "and/or")
            for k in range(len(node.values)):
                add(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join(f"({seg(v)})" for i, v in enumerate(node.values) if i != k) + ")", f"operand {k} dropped")
        if isinstance(node, ast.UnaryOp):
            add(node, f"({seg(node.operand)})", "unary dropped")
        if isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                if "use_compat" not in lines[node.lineno - 1]:
                    add(node, str(not v), "bool")
            elif isinstance(v, int) and not isinstance(v, bool):
                add(node, f"{v + 1}", "int+1")
                if v > 0:
                    add(node, f"{v - 1}", "int-1")
            elif isinstance(v, float):
                add(node, f"{v * 1.5 if v else 1.0!r}", "float")
            return
        if isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg and k.arg != "use_compat" and len(node.args) + len(node.keywords) > 1:
                    i = pos(node.lineno, node.col_offset)
                    ka, kb = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    txt = raw[i:ka].decode() + raw[kb:pos(node.end_lineno, node.end_col_offset)].decode().lstrip(",")
                    add(node, txt, f"keyword {k.arg} dropped")
            f = node.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if name in NAMES:
                add(f, (seg(f)[: -len(name)]) + NAMES[name], f"{name}->{NAMES[name]}")
            if len(node.args) >= 2:
                s0, s1 = seg(node.args[0]), seg(node.args[1])
                if s0 != s1 and not isinstance(node.args[0], ast.Starred) and not isinstance(node.args[1], ast.Starred):
                    i = pos(node.lineno, node.col_offset)
                    a0, b0 = pos(node.args[0].lineno, node.args[0].col_offset), pos(node.args[0].end_lineno, node.args[0].end_col_offset)
                    a1, b1 = pos(node.args[1].lineno, node.args[1].col_offset), pos(node.args[1].end_lineno, node.args[1].end_col_offset)
                    add(node, (raw[i:a0] + s1.encode() + raw[b0:a1] + s0.encode() + raw[b1:pos(node.end_lineno, node.end_col_offset)]).decode(), "arguments swapped")
        if isinstance(node, ast.Continue):
            add(node, "break", "continue->break")
        if isinstance(node, ast.Break):
            add(node, "pass", "break removed")
        if isinstance(node, ast.Slice):
            if node.upper is not None and node.lower is not None:
                add(node, f"{seg(node.lower)}:", "upper dropped")
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.arguments) or isinstance(ch, ast.expr_context) or isinstance(ch, (ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
                continue
            if isinstance(node, ast.Subscript) and False:
                continue
            visit(ch, in_fn)

    for s in tree.body:
        visit(s, False)
    good, seen = [], set()
    for m in out:
        new = raw[: m["a"]] + m["new"].encode() + raw[m["b"]:]
        if new in seen or new == raw:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        good.append(m)
    return good


def cover():
    from tools.props import P  # noqa

    os.makedirs(W, exist_ok=True)
    cov = {}

    def one(p):
        env = dict(os.environ, VERIF_EVIDENCE=f"{W}/ev.{p}", VERIF_LINES=f"{W}/lines.{p}", VERIF_WORKERS="3")
        subprocess.run([PY, f"{TOP}/harness/run.py", p], env=env, capture_output=True)
        cov[p] = json.load(open(f"{W}/lines.{p}"))

    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, [p["id"] for p in P]))
    json.dump(cov, open(f"{W}/cover.json", "w"))


def one(d, props):
    os.environ["GLASS_REPO"] = d
    import importlib

    from harness import core

    t00 = time.time()
    try:
        core.setup_process()
    except BaseException as e:  # noqa: BLE001
        print("KILLED", "import", repr(e)[:100])
        return
    core.MON.start()
    JAX = os.environ.get("MUT_JAX") == "1"
    for p in props:
        importlib.import_module(f"harness.checks.{p.lower()}")
        todo = core.plan(p, "quick", 1)
        todo.sort(key=lambda si: si[0]["backends"][si[1] % len(si[0]["backends"])] == "jax")
        known = core.load_known(p)
        t0 = time.time()
        for s, i in todo:
            if time.time() - t0 > (12 if p in LATE else 60) or time.time() - t00 > 240:
                break
            if not JAX and s["backends"][i % len(s["backends"])] == "jax":
                break
            r = core.run_case(p, s, i, 1, "quick")
            if r["verdict"] == "violated" and not (r.get("known") in known if r.get("known") else False):
                print("KILLED", p, f"{s['name']}#{i}", r["msg"][:120].replace("\n", " "))
                return
    print("SURVIVED", " ".join(props))


def run(n):
    cov = json.load(open(f"{W}/cover.json"))
    todo = json.load(open(f"{W}/list.json"))
    done = set()
    log = f"{W}/log.jsonl"
    if os.path.exists(log):
        for ln in open(log):
            d = json.loads(ln)
            done.add((d["file"], d["a"], d["b"], d["new"]))
    lines = {p: {tuple(x) for x in v} for p, v in cov.items()}
    todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done]
    random.Random(3).shuffle(todo)
    print(len(todo), "to do", flush=True)
    os.makedirs(f"{W}/dirs", exist_ok=True)

    def job(km):
        k, m = km
        d = f"{W}/dirs/{k}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/glass", f"{d}/glass", ignore=shutil.ignore_patterns("__pycache__"))
        f = f"{d}/glass/{m['file']}.py"
        raw = open(f, "rb").read()
        open(f, "wb").write(raw[: m["a"]] + m["new"].encode() + raw[m["b"]:])
        rel = f"glass/{m['file']}.py"
        hit = [p for p, v in lines.items() if any((rel, ln) in v for ln in range(m["line"], m["end"] + 1))]
        hit.sort(key=lambda p: (p in LATE, len(lines[p])))
        hit = [p for p in hit if p not in ("C39", "C40")]
        if "ext/" in m["file"]:
            hit = ["C40"]
        m = dict(m)
        if not hit:
            m["res"] = "UNCOVERED"
        else:
            t0 = time.time()
            try:
                pr = subprocess.run([PY, os.path.abspath(__file__), "one", d, *hit], capture_output=True, text=True, timeout=900, env=dict(os.environ, TMPDIR=f"{W}/dirs", MUT_JAX=str(int(m["file"] in ("jax", "rng", "_array_api_utils")))))
                last = [ln for ln in pr.stdout.splitlines() if ln.startswith(("KILLED", "SURVIVED"))]
                m["res"] = last[-1] if last else f"DIED {pr.returncode} {pr.stderr[-200:]}"
            except subprocess.TimeoutExpired:
                m["res"] = "TIMEOUT"
            m["t"] = round(time.time() - t0, 1)
        shutil.rmtree(d, ignore_errors=True)
        with open(log, "a") as fh:
            fh.write(json.dumps(m) + "\n")

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(job, enumerate(todo)))


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "cover":
        cover()
    elif cmd == "list":
        ms = [m for f in (sys.argv[2:] or FILES) for m in mutants(f)]
        os.makedirs(W, exist_ok=True)
        json.dump(ms, open(f"{W}/list.json", "w"))
        from collections import Counter

        print(len(ms), Counter(m["file"] for m in ms))
    elif cmd == "run":
        run(int(sys.argv[2]) if len(sys.argv) > 2 else 6)
    elif cmd == "one":
        one(sys.argv[2], sys.argv[3:])
        sys.stdout.flush()
        from harness import core

        if core.SCRATCH and "glassverif." in core.SCRATCH:
            shutil.rmtree(core.SCRATCH, ignore_errors=True)
        os._exit(0)
