"""Development tool: systematic small mutants of /repo that pass its tests, run against the checks.

mutate.py list                 number of mutants per file
mutate.py tests OUT [--files a,b] [--jobs N]   which mutants pass the tests (one JSON line per mutant, appended)
mutate.py run OUT TESTED [--files a,b] [--jobs N] [--most N]   runs the checks on the mutants that do
"""
import ast
import concurrent.futures
import difflib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/age"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

# checks worth trying first, by file
JOBS = os.environ.get("MUT_JOBS", "3")
FIRST = {
    "cli.py": "C18 C16 C17 C21 C27 C19 C28 C15 C14",
    "file.py": "C26 C01 C06 C05 C02 C03 C25 C16 C08 C23 C21 C28",
    "format.py": "C25 C05 C06 C07 C23 C02",
    "keyloader.py": "C15 C14 C28 C23 C21 C18",
    "openssh_keys.py": "C12 C14 C23 C28",
    "stream.py": "C04 C01 C06 C07 C08 C23 C22",
    "algorithms/": "C06 C07 C24 C09 C02 C03 C08 C05 C20 C23",
    "recipients/": "C06 C07 C24 C09 C02 C03 C08 C05 C23 C25",
    "keys/": "C11 C13 C24 C14 C21 C28 C02 C20 C22 C15 C12",
    "primitives/bech32.py": "C11 C23",
    "primitives/": "C20 C09 C08 C06 C01 C24 C23 C13",
    "utils/": "C10 C26 C17 C23 C16 C22 C28",
}
ENTITY = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["|"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.Pow: ["*"]}


def files():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith(".py") and not f.endswith("_test.py") and f not in ("_version.py", "conftest.py"):
                out.append(p)
    return sorted(out)


def mutants(path):
    """-> [(description, new source)]"""
    src = open(os.path.join(SRC, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out, seen = [], {src}

    def put(a, b, new, what, line):
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        if s in seen:
            return
        seen.add(s)
        try:
            compile(s, path, "exec")
        except Exception:
            return
        out.append((f"{path}:{line} {what}: {raw[a:b].decode()[:70]!r} -> {new[:70]!r}", s))

    def rep(n, new, what):
        a, b = pos(n)
        put(a, b, new, what, n.lineno)

    skip = set()
    for n in ast.walk(tree):
        # annotations, messages, docstrings
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST):
                skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
            for x in n.exc.args:
                skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.keyword) and n.arg in ("help", "metavar"):
            skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "typing":
            skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(y) for y in ast.walk(n) if y is not n)
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in ENTITY[type(n.ops[0])]:
                rep(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "compare")
        elif isinstance(n, ast.Compare):
            rep(n, "True", "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(text(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                keep = [text(v) for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(keep) + ")", "operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(" + text(n.operand) + ")", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, "(" + text(n.operand) + ")", "minus")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                rep(n, f"({text(n.left)} {o} {text(n.right)})", "binop")
            rep(n, "(" + text(n.left) + ")", "left")
            rep(n, "(" + text(n.right) + ")", "right")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "bool")
            elif v is None:
                pass
            elif isinstance(v, int):
                rep(n, f"({v + 1})", "const")
                rep(n, f"({v - 1})", "const")
            elif isinstance(v, (str, bytes)):
                t = text(n)
                if not t.startswith(("f", "F", "r", "R")):
                    if v:
                        rep(n, 'b""' if isinstance(v, bytes) else '""', "string")
                    rep(n, repr(v + (b"x" if isinstance(v, bytes) else "x")), "string")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if")
            rep(n.test, "False", "if")
        elif isinstance(n, ast.IfExp):
            rep(n, "(" + text(n.body) + ")", "ifexp")
            rep(n, "(" + text(n.orelse) + ")", "ifexp")
        elif isinstance(n, ast.While):
            rep(n.test, "False", "while")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ("os", "io", "re", "typing", "click", "base64", "struct", "hashlib", "sys")):
                rep(n, "(" + text(f.value) + ")", "call dropped")
            for i, a in enumerate(n.args):
                if not isinstance(a, ast.Starred):
                    others = [text(x) for j, x in enumerate(n.args) if j != i] + [text(k) for k in n.keywords]
                    rep(n, f"{text(f)}({', '.join(others)})", "argument dropped")
                    if len(n.args) == 1 and not n.keywords:
                        rep(n, "(" + text(a) + ")", "call unwrapped")
            if len(n.args) == 2:
                rep(n, f"{text(f)}({', '.join([text(n.args[1]), text(n.args[0])] + [text(k) for k in n.keywords])})", "arguments swapped")
            for i, k in enumerate(n.keywords):
                if k.arg not in ("help", "metavar"):
                    others = [text(x) for x in n.args] + [text(x) for j, x in enumerate(n.keywords) if j != i]
                    rep(n, f"{text(f)}({', '.join(others)})", "keyword dropped")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, text(n.value), "slice dropped")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, "return None", "return")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "raise dropped")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.Delete)):
            rep(n, "pass", "statement dropped")
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, "continue" if isinstance(n, ast.Break) else "break", "jump")
            rep(n, "pass", "jump")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, "Exception", "except widened")
            rep(n.type, "ZeroDivisionError", "except narrowed")
        elif isinstance(n, (ast.For,)):
            rep(n.iter, f"list({text(n.iter)})[1:]", "loop")
            rep(n.iter, f"list({text(n.iter)})[:-1]", "loop")
        elif isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                a, b = pos(d)
                if text(d).startswith(("abc", "property", "classmethod", "staticmethod", "abstract")):
                    continue
                put(a - 1, b, "", "decorator dropped", d.lineno)
    return out


def sh(cmd, cwd=None, timeout=300, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env={**os.environ, **(env or {})}, start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return "timeout", ""


_pool = threading.local()
_dirs = []


def scratch():
    if not hasattr(_pool, "d"):
        d = _pool.d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        _dirs.append(d)
        sh(["cp", "-a", "/repo", d + "/repo"])
        shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        os.mkdir(d + "/verif/evidence")
    return _pool.d


def tests(d):
    env = {"PYTHONPATH": d + "/repo/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "PYTHONHASHSEED": "0"}
    x = d + "/junit.xml"
    if os.path.exists(x):
        os.remove(x)
    code, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "--timeout=20", "--deselect", "src/age/cli_test.py::test_decrypt", "--deselect", "src/age/cli_test.py::test_decrypt_from_file", "--deselect", "src/age/cli_test.py::test_decrypt_to_file", "-o", "junit_family=xunit2", "--junitxml=" + x], d + "/repo", 120, env)
    t = open(x).read() if os.path.exists(x) else ""
    failed = re.findall(r'<testcase classname="([^"]*)" name="([^"]*)"[^>]*>\s*<(?:failure|error)', t)
    passed = set(f"{c}::{n}" for c, n in re.findall(r'<testcase classname="([^"]*)" name="([^"]*)"', t)) - set(f"{c}::{n}" for c, n in failed)
    return sorted(set(BASE) - passed)


def judge(path, what, new, checks):
    d = scratch()
    p = f"{d}/repo/src/age/{path}"
    old = open(f"{SRC}/{path}").read()
    try:
        open(p, "w").write(new)
        if not checks:
            return {"mutant": what, "result": "tests" if tests(d) else "passes"}
        diff = "".join(difflib.unified_diff(old.splitlines(1), new.splitlines(1), "a", "b", n=2))
        for c in checks:
            code, o = sh(["bash", d + "/verif/run.sh", c, "--jobs", JOBS], d + "/verif", 900, {"VERIF_REPO": d + "/repo"})
            if code != 0:
                return {"mutant": what, "result": c if code == 1 else f"{c} exit {code}", "log": o[:300]}
        return {"mutant": what, "result": "SURVIVES", "diff": diff}
    finally:
        open(p, "w").write(old)


def main():
    a = sys.argv[1:]
    if a[0] == "list":
        t = 0
        for f in files():
            m = mutants(f)
            t += len(m)
            print(f, len(m))
        print(t)
        return
    opts = a[2:] if a[0] == "tests" else a[3:]
    opt = dict(zip(opts[::2], opts[1::2]))
    passing = None if a[0] == "tests" else {d["mutant"] for d in map(json.loads, open(a[2])) if d["result"] == "passes"}
    done = set()
    if os.path.exists(a[1]):
        done = {json.loads(l)["mutant"] for l in open(a[1])}
    todo = []
    for f in files():
        if "--files" in opt and not any(f == x or (x.endswith("/") and f.startswith(x)) for x in opt["--files"].split(",")):
            continue
        key = max((k for k in FIRST if f.startswith(k) or f == k), key=len, default=None)
        checks = FIRST[key].split() if key else ["C01", "C18"]
        todo += [(f, w, s, checks if passing is not None else []) for w, s in mutants(f) if w not in done and (passing is None or w in passing)]
    random.Random(7).shuffle(todo)
    if "--most" in opt:
        todo = todo[: int(opt["--most"])]
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    with concurrent.futures.ThreadPoolExecutor(int(opt.get("--jobs", 4))) as ex, open(a[1], "a") as out:
        def one(x):
            r = judge(*x)
            with lock:
                out.write(json.dumps(r) + "\n")
                out.flush()
        list(ex.map(one, todo))
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)


main()
