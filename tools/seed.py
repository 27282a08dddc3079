"""Development tool: build, confirm and run planted bugs (see DESIGN.md, planted bugs).

seed.py make SPEC.py [ID...]   writes seeded/<id>/ from a spec and confirms each one in a scratch copy
seed.py run [ID...] [--all-checks] [--tier T]   runs the check of each bug's property on a patched copy
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + "/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; anything else: it is broken
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, timeout=300, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh(["cp", "-a", "/repo", d + "/repo"])
    sh(["git", "checkout", "-q", "--", "."], d + "/repo")
    return d


def tests(repo):
    env = {"PYTHONPATH": repo + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "PYTHONHASHSEED": "0"}
    x = repo + "/../junit.xml"
    code, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x], repo, 300, env)
    t = open(x).read() if os.path.exists(x) else ""
    failed = re.findall(r'<testcase classname="([^"]*)" name="([^"]*)"[^>]*>\s*<(?:failure|error)', t)
    passed = set(f"{c}::{n}" for c, n in re.findall(r'<testcase classname="([^"]*)" name="([^"]*)"', t)) - set(f"{c}::{n}" for c, n in failed)
    return sorted(set(BASE) - passed)


def make(name, spec):
    d = copy()
    try:
        repo = d + "/repo"
        out = f"{SEEDED}/{name}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for path, old, new in spec["edits"]:
            p = f"{repo}/src/age/{path}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{path}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo)[1]
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # the demonstration from a foreign folder
        dd = d + "/demo"
        os.mkdir(dd)
        shutil.copy(out + "/demo.sh", dd)
        shutil.copy(out + "/demo.py", dd)
        bad, log = sh(["bash", dd + "/demo.sh"], repo)
        miss = tests(repo)
        sh(["git", "checkout", "-q", "--", "."], repo)
        good, log2 = sh(["bash", dd + "/demo.sh"], repo)
        if good != 0:
            return f"demo fails on the unchanged tree: {good} {log2[-600:]}"
        if bad == 0 or bad == "timeout":
            return f"demo passes with the patch: {bad} {log[-300:]}"
        if miss:
            return f"tests fail with the patch: {miss}"
        return "ok   (demo: " + log.strip().splitlines()[-1][:120] + ")" if log.strip() else "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(name, checks=None, tier="quick", jobs=3):
    meta = json.load(open(f"{SEEDED}/{name}/meta.json"))
    d = copy()
    try:
        repo = d + "/repo"
        code, o = sh(["git", "apply", f"{SEEDED}/{name}/patch.diff"], repo)
        if code:
            return name, meta["property"], {"apply": o}
        shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        os.mkdir(d + "/verif/evidence")
        res = {}
        for c in checks or [meta["property"]]:
            code, o = sh(["bash", d + "/verif/run.sh", c, "--jobs", str(jobs)], d + "/verif", 900, {"VERIF_REPO": repo, "VERIF_TIER": tier})
            v = [ln for ln in o.splitlines() if ln.startswith("VIOLATION")]
            res[c] = "CAUGHT" if code == 1 and any(f"property={c} " in ln for ln in v) else f"exit {code}"
            if checks is None:
                res[c] += " | " + " ".join(o.split("\n")[:6])[:420]
        return name, meta["property"], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if a[0] == "make":
        ns = {}
        exec(open(a[1]).read(), ns)
        todo = {k: v for k, v in ns["SPECS"].items() if not a[2:] or k in a[2:]}
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for k, r in zip(todo, ex.map(lambda k: make(k, todo[k]), todo)):
                print(f"{k:34s} {r}", flush=True)
        return
    names = a[1:] or sorted(os.listdir(SEEDED))
    names = [n for n in sorted(os.listdir(SEEDED)) if any(n == x or (x.endswith("-") and n.startswith(x)) for x in names)]
    checks = [f"C{i:02d}" for i in range(1, 29)] if "--all-checks" in sys.argv else None
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for name, p, res in ex.map(lambda n: run(n, checks, tier), names):
            print(f"{name:34s} {p}  {res if checks is None else ' '.join(k for k, v in res.items() if v == 'CAUGHT')}", flush=True)


main()
