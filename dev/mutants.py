#!/usr/bin/env python3
"""Development aid (no check uses it): mutates Slate mechanically and runs the simulations on each mutant.

    mutants.py OUT.jsonl [FILE ...]     every mutant of the files, 8 at a time; resumes
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = {
    "slate/event.py": "C15 C12",
    "slate/terminal.py": "C01 C02 C03 C04 C10 C11 C12 C13 C14 C24 C25 C26",
    "slate/screen.py": "C01 C03 C04 C02 C12 C24",
    "slate/core.py": "C05 C07 C08 C09 C10 C06 C16 C13 C25 C11 C14 C26",
    "slate/span.py": "C01 C03 C13",
    "slate/color.py": "C01 C13 C10 C03",
    "slate/__main__.py": "C25",
    "slate/key_names.py": "C09",
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd}


def docstrings(tree):
    found = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            for stmt in node.body:
                if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant):
                    found.add(id(stmt.value)); found.add(id(stmt))
    return found


def variants(node):
    """Yields (description, function applying the change in place)."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            if type(op) in SWAP:
                yield "compare", lambda n, i=i: n.ops.__setitem__(i, SWAP[type(n.ops[i])]())
    if isinstance(node, ast.BoolOp):
        yield "boolop", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            yield f"drop operand {i}", lambda n, i=i: n.values.pop(i)
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        yield "binop", lambda n: setattr(n, "op", BIN[type(n.op)]())
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield "flip", lambda n: setattr(n, "value", not n.value)
        elif isinstance(v, (int, float)):
            yield "+1", lambda n: setattr(n, "value", n.value + 1)
            if v: yield "zero", lambda n: setattr(n, "value", 0)
        elif isinstance(v, str):
            yield ("empty", lambda n: setattr(n, "value", "")) if v else ("filled", lambda n: setattr(n, "value", "Z"))
            if len(v) > 2: yield "cut", lambda n: setattr(n, "value", n.value[:-1])
        elif v is None:
            yield "None to 0", lambda n: setattr(n, "value", 0)
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        yield "if True", lambda n: setattr(n, "test", ast.Constant(True))
        yield "if False", lambda n: setattr(n, "test", ast.Constant(False))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "no not", lambda n: setattr(n, "op", ast.UAdd())
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            yield f"drop keyword {node.keywords[i].arg}", lambda n, i=i: n.keywords.pop(i)
        if len(node.args) > 1:
            yield "drop last argument", lambda n: n.args.pop()
            yield "swap arguments", lambda n: n.args.reverse()
    if isinstance(node, ast.Try):
        for i in range(len(node.handlers)):
            if len(node.handlers) > 1 or node.finalbody:
                yield f"drop handler {i}", lambda n, i=i: n.handlers.pop(i)
        if node.finalbody:
            def after(n):
                n.body = n.body + n.finalbody if not n.orelse else n.body
                n.orelse = n.orelse + n.finalbody if n.orelse else []
                n.finalbody = []
                if not n.handlers:
                    n.handlers = [ast.ExceptHandler(type=None, name=None, body=[ast.Raise()])]
            yield "finally only on success", after
    if isinstance(node, ast.ExceptHandler) and node.type is not None:
        yield "catch Exception", lambda n: setattr(n, "type", ast.Name("Exception", ast.Load()))
        yield "catch less", lambda n: setattr(n, "type", ast.Name("ZeroDivisionError", ast.Load()))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield "no slice", lambda n: setattr(n, "slice", ast.Slice())
    for field in ("body", "orelse", "finalbody"):
        block = getattr(node, field, None)
        if isinstance(block, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
            for i, stmt in enumerate(block):
                if isinstance(stmt, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Return,
                                     ast.If, ast.For)) and not (isinstance(stmt, ast.Expr) and isinstance(stmt.value, (ast.Constant, ast.Yield))):
                    yield f"delete {type(stmt).__name__} line {stmt.lineno}", lambda n, f=field, i=i: getattr(n, f).__setitem__(i, ast.Pass())
                if i + 1 < len(block) and all(isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) for s in block[i:i+2]):
                    def swap(n, f=field, i=i):
                        b = getattr(n, f); b[i], b[i + 1] = b[i + 1], b[i]
                    yield f"swap statements line {stmt.lineno}", swap


def mutants(path):
    source = open(os.path.join(REPO, path)).read()
    tree = ast.parse(source)
    skip = docstrings(tree)
    annotations = set()
    for node in ast.walk(tree):
        for field in ("annotation", "returns"):
            sub = getattr(node, field, None)
            if isinstance(sub, ast.AST):
                annotations.update(id(n) for n in ast.walk(sub))
    nodes = list(ast.walk(tree))
    for index, node in enumerate(nodes):
        if id(node) in skip or id(node) in annotations:
            continue
        for number, (what, _) in enumerate(variants(node)):
            new = copy.deepcopy(tree)
            target = list(ast.walk(new))[index]
            list(variants(target))[number][1](target)
            try:
                text = ast.unparse(ast.fix_missing_locations(new))
                compile(text, path, "exec")
            except Exception:
                continue
            line = getattr(node, "lineno", 0)
            yield f"{path}:{index}:{number}", f"line {line}: {what}: {ast.unparse(node)[:90]!r}", text


RUN = r'''
import sys; sys.path.insert(0, %r)
from dst import runner
out = sys.stdout
runner.prepare()
for prop in sys.argv[2].split():
    mod = runner.load(prop)
    for i in range(int(sys.argv[1])):
        try:
            r = runner.run_seed(mod, prop, 7, i)
        except BaseException as exc:
            print("killed", prop, "harness", type(exc).__name__, str(exc)[:100], file=out); sys.exit()
        if r.violation:
            print("killed", prop, i, r.violation.cls, r.violation.msg[:100], file=out); sys.exit()
print("survived", file=out)
''' % HERE


def one(job):
    key, what, path, text, props, runs = job
    with tempfile.TemporaryDirectory(prefix="mut-") as scratch:
        shutil.copytree(os.path.join(REPO, "slate"), os.path.join(scratch, "slate"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(scratch, path), "w") as file:
            file.write(text)
        env = {**os.environ, "DST_REPO": scratch, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
        try:
            run = subprocess.run([sys.executable, "-c", RUN, str(runs), props], env=env, cwd=HERE, capture_output=True,
                                 text=True, timeout=900, stdin=subprocess.DEVNULL)
            result = (run.stdout.strip().splitlines() or [f"crashed {run.returncode} {run.stderr[-200:]}"])[-1]
        except subprocess.TimeoutExpired:
            result = "killed (timeout)"
        if result == "survived":
            shutil.copytree(os.path.join(REPO, "tests"), os.path.join(scratch, "tests"))
            run = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-rA", "-p", "no:cacheprovider", "tests"],
                                 cwd=scratch, env={**env, "PYTHONPATH": scratch}, capture_output=True, text=True,
                                 stdin=subprocess.DEVNULL, timeout=300)
            passed = {l.split()[1].replace("/", ".").replace(".py::", "::") for l in run.stdout.splitlines() if l.startswith("PASSED")}
            lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
            if lost:
                result = f"tests {len(lost)}"
    return {"key": key, "what": what, "result": result}


if __name__ == "__main__":
    out, files = sys.argv[1], sys.argv[2:] or list(FILES)
    runs = int(os.environ.get("RUNS", "400"))
    done = set()
    if os.path.exists(out):
        done = {json.loads(line)["key"] for line in open(out)}
    jobs = [(key, what, path, text, FILES[path], runs) for path in files for key, what, text in mutants(path) if key not in done]
    print(len(jobs), "mutants to run", flush=True)
    with open(out, "a") as file, ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as pool:
        for record in pool.map(one, jobs):
            file.write(json.dumps(record) + "\n")
            file.flush()
