"""Case runner: deterministic cases, forked workers, three-valued verdicts, measured evidence."""
import hashlib
import importlib
import json
import os
import pickle
import re
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only while developing the checks
AGE_DIR = REPO + "/src/age"
CASE_LIMIT = 100  # seconds; only ever leads to a re-run under the step counter
STEP_LIMIT = 30_000_000  # executed lines of pyage code in one case


class Violation(Exception):
    """the monitored execution broke the property"""

    def __init__(self, message, **detail):
        super().__init__(message)
        self.message, self.detail = message, detail


class Inconclusive(Exception):
    """the case could not be judged (never counted as held)"""


class Hang(BaseException):
    pass


class StepLimit(BaseException):
    pass


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


CASE_RNG = random.Random(0)  # reseeded with each case: for choices far away from the case function


class Ctx:
    """one case: its random source, scratch directory and what its monitors observed"""

    def __init__(self, prop, family, idx, seed, tier):
        self.prop, self.family, self.idx, self.seed, self.tier = prop, family, idx, seed, tier
        h = hashlib.sha256(f"{seed}|{prop}|{family}|{idx}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h, "big"))
        CASE_RNG.seed(h)
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.evals = 0
        self._tmp = None

    # --- evidence
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def eval(self, sig=None, n=1):
        """one execution judged by the oracle; `sig` identifies it when it is non-trivial"""
        self.evals += n
        if sig is not None:
            self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({"case": f"{self.family}#{self.idx}", **{k: short(v, 300) for k, v in kw.items()}})

    # --- randomness
    def bytes(self, n):
        return self.rng.randbytes(n)

    # --- oracles
    def check(self, cond, message, **detail):
        if not cond:
            raise Violation(message, **detail)

    def equal(self, got, want, message, **detail):
        if got != want:
            raise Violation(message, got=short(got), want=short(want), **detail)

    def must(self, what, fn, *a, **kw):
        try:
            return fn(*a, **kw)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: failed with {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:])

    def fails(self, what, fn, *a, **kw):
        """fn has to raise; returns the exception"""
        kinds = kw.pop("kinds", (Exception,))
        try:
            r = fn(*a, **kw)
        except Violation:
            raise
        except kinds as e:
            return e
        except Exception as e:
            raise Violation(f"{what}: failed with {type(e).__name__} ({e}), expected {[k.__name__ for k in kinds]}")
        raise Violation(f"{what}: did not fail", returned=short(r))

    # --- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix=f"pyage-{self.prop}-")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


# ---------------------------------------------------------------------- step counting
class Steps:
    """counts executed lines of pyage code with sys.monitoring (logical time)"""

    TOOL = 4

    def __init__(self, limit=STEP_LIMIT):
        self.limit, self.n = limit, 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "steps")

        def line(code, lineno):
            if not code.co_filename.startswith(AGE_DIR):
                return m.DISABLE
            self.n += 1
            if self.n > self.limit:
                raise StepLimit()

        m.register_callback(self.TOOL, m.events.LINE, line)
        m.restart_events()
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


# ---------------------------------------------------------------------- one case
def _age_in_trace(tb):
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(AGE_DIR):
            return True
    return False


def _alarm(*a):
    raise Hang()


# what the interpreter says when a special method of pyage returns the wrong kind of object
BAD_PROTOCOL = re.compile(r"__\w+__ (method )?(should return|returned)|__\w+__\(\) should return|unhashable type")


def run_case(mod, family, fn, idx, seed, tier, limit=CASE_LIMIT):
    """-> (ctx, verdict, detail) verdict in ok / violation / inconclusive / error"""

    def attempt(steps):
        ctx = Ctx(mod.PROPERTY, family, idx, seed, tier)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            if steps:
                with Steps():
                    fn(ctx)
            else:
                fn(ctx)
            return ctx, "ok", None
        except Violation as e:
            return ctx, "violation", {"message": e.message, **{k: short(v, 1600) for k, v in e.detail.items()}}
        except Inconclusive as e:
            return ctx, "inconclusive", {"message": str(e)}
        except StepLimit:
            return ctx, "violation", {"message": f"no result after {STEP_LIMIT} executed lines of pyage"}
        except Hang:
            return ctx, "hang", {"message": f"no result after {limit} s", "trace": traceback.format_exc()[-2500:]}
        except Exception as e:
            kind = "violation" if _age_in_trace(e.__traceback__) or BAD_PROTOCOL.match(str(e)) else "error"
            return ctx, kind, {
                "message": f"unexpected {type(e).__name__}: {e}",
                "trace": traceback.format_exc()[-2500:],
            }
        except SystemExit as e:
            return ctx, "violation", {"message": f"unexpected SystemExit({e.code})", "trace": traceback.format_exc()[-1500:]}
        finally:
            signal.alarm(0)
            ctx.cleanup()

    r = attempt(False)
    if r[1] == "hang":
        # never decide on wall-clock time: repeat with a bound on executed lines
        r = attempt(True)
        if r[1] == "hang":
            return r[0], "inconclusive", r[2]
        if r[1] == "ok":
            r[0].counters["repeated"] = 1
    elif r[1] == "inconclusive":
        # no decision (the machine stood still, say): once more
        r = attempt(False)
        if r[1] == "hang":
            return r[0], "inconclusive", r[2]
        r[0].counters["repeated"] = 1
    return r


# ---------------------------------------------------------------------- workers
def die_with_parent():
    """no process outlives the check that started it"""
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)


def _worker(mod, tasks, seed, tier, wfd, deadline):
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    out = os.fdopen(wfd, "wb")

    def emit(obj):
        b = pickle.dumps(obj)
        out.write(struct.pack(">I", len(b)) + b)
        out.flush()

    fams = {name: fn for name, _, fn in mod.families(tier)}
    mark = "@O" if sys.flags.optimize else ""
    for family, idx in tasks:
        if time.monotonic() > deadline:
            emit(("skipped", family, idx))
            continue
        ctx, verdict, detail = run_case(mod, family, fams[family], idx, seed, tier)
        if mark:
            ctx.counters = {**ctx.counters, "without_assertions": 1}
        emit(("case", family + mark, idx, verdict, detail, ctx.counters, ctx.sigs, ctx.samples, ctx.evals))
        if verdict == "violation":
            break
    if hasattr(mod, "worker_done"):
        mod.worker_done()
    emit(("done",))
    out.close()


# `python -O` drops assert statements: what they refuse must be refused all the same.  A part of every family
# is repeated in an interpreter that runs without them.
OPTIMIZED = "import sys; from mon.core import optimized; optimized(sys.argv[1:])"


def optimized(argv):
    """one worker in an interpreter without assertions"""
    prop, seed, tier, wfd, deadline = argv[0], int(argv[1]), argv[2], int(argv[3]), float(argv[4])
    mod = importlib.import_module(f"mon.checks.{prop.lower()}")
    tasks = []
    for name, n, _ in mod.families(tier):
        step = getattr(mod, "OPTIMIZED_EVERY", 16)
        # other cases with every seed, at least one of each family
        tasks += [((i + 0.5) / n, name, i) for i in sorted({seed % n, *range(seed % step, n, step)})]
    if hasattr(mod, "global_init"):
        mod.global_init()
    code = 0
    try:
        _worker(mod, [t[1:] for t in sorted(tasks)], seed, tier, wfd, deadline)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        if hasattr(mod, "global_done"):
            mod.global_done()
        os._exit(code)


def _replay_path(prop):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop}.json")


def _evidence(mod, seed, tier, cov, wall, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    doc = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    path = os.path.join(d, mod.PROPERTY + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--idx", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    # started in the background or under nohup: the commands must not inherit that
    for sig in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM):
        signal.signal(sig, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.path[:0] = [REPO + "/src"]
    mod = importlib.import_module(f"mon.checks.{a.property.lower()}")

    import age  # the code under test must come from /repo

    if not age.__file__.startswith(AGE_DIR):
        print(f"age imported from {age.__file__}", file=sys.stderr)
        return 2
    if hasattr(mod, "global_init"):
        mod.global_init()

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.family, a.idx, a.seed, a.tier = r["family"], r["idx"], r["seed"], r["tier"]
    if a.family is not None and a.idx is not None:
        if a.family.endswith("@O") and not sys.flags.optimize:
            os.execv(sys.executable, [sys.executable, "-O", "-c", "import sys; from mon.core import main; sys.exit(main(sys.argv[1:]))", *argv])
        a.family = a.family.replace("@O", "")
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        fams = {name: fn for name, _, fn in mod.families(a.tier)}
        ctx, verdict, detail = run_case(mod, a.family, fams[a.family], a.idx, a.seed, a.tier)
        if hasattr(mod, "worker_done"):
            mod.worker_done()
        print(verdict, json.dumps(detail, indent=1) if detail else "", ctx.counters, ctx.evals)
        if verdict == "violation":
            print(f"VIOLATION property={a.property} replay={a.replay or ''}")
            return 1
        return 0 if verdict == "ok" else 2

    t0 = time.monotonic()
    soft = float(os.environ.get("VERIF_SOFT_CAP", "420" if a.tier == "quick" else "560"))
    tasks = []
    fams = mod.families(a.tier)
    if a.family:
        fams = [f for f in fams if f[0] == a.family]
    for name, n, _ in fams:
        # spread each family over the whole run
        tasks += [((i + 0.5) / n, name, i) for i in range(n)]
    tasks = [t[1:] for t in sorted(tasks)]
    jobs = max(1, min(a.jobs, getattr(mod, "MAX_JOBS", 8), len(tasks)))
    shards = [[] for _ in range(jobs)]
    per_family = {}
    for name, i in tasks:
        # round-robin per family so that expensive families are spread evenly
        k = per_family.get(name, sum(map(ord, name)))
        per_family[name] = k + 1
        shards[k % jobs].append((name, i))
    shards = [s for s in shards if s]
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for s in shards:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                die_with_parent()
                os.close(r)
                for fd in procs:
                    os.close(fd)
                _worker(mod, s, a.seed, a.tier, w, t0 + soft)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        procs[r] = [pid, b"", False]
    if getattr(mod, "OPTIMIZED_EVERY", 16) and not a.family:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                die_with_parent()
                os.set_inheritable(w, True)
                os.execv(sys.executable, [sys.executable, "-O", "-c", OPTIMIZED, a.property, str(a.seed), a.tier, str(w), str(t0 + soft)])
            finally:
                os._exit(3)
        os.close(w)
        procs[r] = [pid, b"", False]

    counters, sigs, samples, evals, cases, skipped = {}, set(), {}, 0, 0, 0
    fam_cases = {}
    violations, troubles = [], []
    hard = t0 + soft + 3 * CASE_LIMIT

    def kill_all():
        for st in procs.values():
            try:
                os.kill(st[0], signal.SIGKILL)
            except OSError:
                pass

    open_fds = set(procs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], max(0.1, hard - time.monotonic()))
        if not ready and time.monotonic() >= hard:
            troubles.append(("hard time cap", {}))
            kill_all()
            break
        for fd in ready:
            st = procs[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_fds.discard(fd)
                if not st[2]:
                    troubles.append((f"worker {st[0]} died", {}))
                continue
            st[1] += chunk
            while len(st[1]) >= 4:
                (n,) = struct.unpack(">I", st[1][:4])
                if len(st[1]) < 4 + n:
                    break
                obj = pickle.loads(st[1][4 : 4 + n])
                st[1] = st[1][4 + n :]
                if obj[0] == "done":
                    st[2] = True
                elif obj[0] == "skipped":
                    skipped += 1
                else:
                    _, fam, idx, verdict, detail, cnt, sg, smp, ev = obj
                    cases += 1
                    fam_cases[fam] = fam_cases.get(fam, 0) + 1
                    evals += ev
                    sigs |= sg
                    for k, v in cnt.items():
                        counters[k] = counters.get(k, 0) + v
                    if smp:
                        samples.setdefault(fam, smp[0])
                    if verdict == "violation":
                        violations.append((fam, idx, detail))
                    elif verdict != "ok":
                        troubles.append((f"{fam}#{idx}: {verdict}", detail))
        if violations:
            # the witness is there: no need to finish the run
            time.sleep(0.05)
            kill_all()
            break
    for fd, st in procs.items():
        try:
            os.waitpid(st[0], 0)
        except ChildProcessError:
            pass
    if hasattr(mod, "global_done"):
        mod.global_done()
    wall = time.monotonic() - t0
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": list(samples.values())[:8] or [{"note": "no sample recorded"}],
        "cases": cases,
        "cases_skipped_by_time_cap": skipped,
        "cases_by_family": fam_cases,
        "observed": dict(sorted(counters.items())),
    }
    _evidence(mod, a.seed, a.tier, cov, wall, len(violations))

    if violations:
        fam, idx, detail = violations[0]
        path = _replay_path(mod.PROPERTY)
        with open(path, "w") as f:
            json.dump({"property": mod.PROPERTY, "family": fam, "idx": idx, "seed": a.seed, "tier": a.tier, "detail": detail}, f, indent=1)
        print(f"{mod.PROPERTY} {fam}#{idx}: {detail.get('message')}")
        for k, v in detail.items():
            if k != "message":
                print(f"  {k}: {v}")
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    bad = list(troubles)
    if counters.get("repeated", 0) > 8:
        bad.append((f"{counters['repeated']} cases gave no answer at first", {}))
    for name, need in getattr(mod, "REQUIRED", {}).items():
        if counters.get(name, 0) < need and not a.family:
            bad.append((f"monitor counter {name}={counters.get(name, 0)}, needs {need}", {}))
    if bad:
        for what, detail in bad[:5]:
            print(f"INCONCLUSIVE {mod.PROPERTY} {what} {json.dumps(detail, indent=1) if detail else ''}")
        return 2
    for line in known_findings(mod.PROPERTY):
        print(line)
    print(f"{mod.PROPERTY}: held on {evals} executions ({len(sigs)} distinct), {wall:.1f} s, skipped {skipped}")
    return 0


def known_findings(prop):
    """the listed, unrepaired findings of this property (there are none at present: see KNOWN_FINDINGS.txt)"""
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith(f"KNOWN-FINDING: property={prop} "):
                out.append(line.rstrip("\n"))
    return out
