"""C22 concurrent and interleaved use does not interfere"""
import gc
import io
import os
import pickle
import random
import struct
import sys
import threading

from age.file import Decryptor, Encryptor
from age.format import Header, Recipient, dump_header, load_header
from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, load_ssh_private_key, resolve_public_key
from age.primitives.hmac import HMAC
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput, read_ascii_armored

from mon import gen, ref, sched, tasks
from mon.core import Inconclusive, Violation, short

OPTIMIZED_EVERY = 0  # the whole run has been tried without assertions; nothing in it depends on them
PROPERTY = "C22"
RULE = (
    "a case = operations on distinct stream objects (key objects shared) run under a controlled scheduler that changes threads at "
    "chosen executed lines or bytecodes of pyage, or freely in real threads, or merged step by step in one thread; every result is "
    "compared with the result of the same operation alone in a pristine process (with the same random bytes: byte for byte); "
    "distinct = (operations, schedule as it really happened)"
)
ASSUMPTIONS = [
    "preemption is observed at line and bytecode boundaries of pyage code; races inside native libraries are only met by the free-running family",
    "a schedule in which the running thread waits for a lock of a paused one is infeasible and is left to run freely",
]
REQUIRED = {"schedules": 2000, "preempted": 1500, "results_compared": 5000, "exact_compared": 800, "cold_schedules": 900, "opcode_schedules": 200,
            "free_runs": 12, "merged_histories": 300, "baselines": 600, "rewritten": 60, "shared_schedules": 1500}

_server = None


# ---------------------------------------------------------------------- a pristine process
def build(seed, kinds, tmp):
    os.makedirs(tmp, exist_ok=True)
    rng = random.Random(seed)
    pool = tasks.Pool(rng, tmp)
    return [table(k)(pool) for k in kinds]


def table(kind):
    if "@" in kind:
        k, letter = kind.split("@")
        return lambda pool: tasks.SHARED[k](pool, letter)
    return ACTORS[kind] if kind in ACTORS else tasks.KINDS.get(kind) or tasks.t_encrypt_scrypt


def guarded(fn, u, name):
    def go():
        u.enter(name)
        try:
            return fn()
        finally:
            u.leave()

    return go


def run_alone(seed, kinds, tmp, i):
    ts = build(seed, kinds, tmp)
    with gen.muted(), sched.local_urandom(seed) as u:
        try:
            if kinds[i] in ACTORS:
                return merge([(i, ts[i])], None, u)[i]
            return guarded(ts[i].fn, u, i)()
        except Exception as e:
            return ("raised", type(e).__name__, str(e)[:200])


def run_scheduled(seed, kinds, tmp, schedule, opcodes):
    ts = build(seed, kinds, tmp)
    with gen.muted(), sched.local_urandom(seed) as u:
        r = sched.Run([guarded(t.fn, u, i) for i, t in enumerate(ts)], schedule, opcodes)
        return r.run(), r.trail, r.events, r.free


def places_of(seed, kinds, tmp, opcodes):
    """the places of the first operation's events, numbered"""
    ts = build(seed, kinds, tmp)
    with gen.muted(), sched.local_urandom(seed) as u:
        r = sched.Run([guarded(t.fn, u, i) for i, t in enumerate(ts)], [(0, sched.INF)], opcodes)
        r.places = []
        r.run()
        ids = {}
        return [ids.setdefault(p, len(ids)) for p in r.places]


def _recv(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    return pickle.loads(f.read(struct.unpack(">I", h)[0]))


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack(">I", len(b)) + b)
    f.flush()


def global_init():
    gen.rsa_pool()


def worker_init():
    """before anything of pyage has been used"""
    global _server
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a[1])
            os.close(b[0])
            req, rep = os.fdopen(a[0], "rb"), os.fdopen(b[1], "wb")
            while True:
                m = _recv(req)
                if m is None:
                    break
                r, w = os.pipe()
                c = os.fork()
                if c == 0:
                    try:
                        os.close(r)
                        with os.fdopen(w, "wb") as f:
                            try:
                                f.write(pickle.dumps(("ok", globals()[m[0]](*m[1:]))))
                            except BaseException as e:
                                f.write(pickle.dumps(("error", type(e).__name__, str(e))))
                    finally:
                        os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(c, 0)
                rep.write(struct.pack(">I", len(data)) + data)
                rep.flush()
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _server = (pid, os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb"))


def worker_done():
    global _server
    if _server:
        _server[1].close()
        os.waitpid(_server[0], 0)
        _server = None


def pristine(*m):
    _send(_server[1], m)
    r = _recv(_server[2])
    if r is None or r[0] != "ok":
        if r and r[1] == "Stuck":
            raise Violation("operations under a controlled scheduler never finish", schedule=m)
        raise Inconclusive(f"pristine process: {r}")
    return r[1]


# ---------------------------------------------------------------------- judging
class Group:
    """operations with what they do alone"""

    def __init__(self, ctx, kinds, tag=""):
        self.ctx, self.kinds = ctx, kinds
        self.seed = f"{ctx.seed}|{ctx.family}|{ctx.idx}|{tag}"
        self.tmp = os.path.join(ctx.tmp, "g" + str(abs(hash(tag)) % 10**8))
        self.base, self.exact = [], []
        for i in range(len(kinds)):
            a = pristine("run_alone", self.seed, kinds, self.tmp, i)
            b = pristine("run_alone", self.seed, kinds, self.tmp, i)
            if a[0] == "raised" or b[0] == "raised":
                raise Inconclusive(f"{kinds[i]} alone: {a}")
            if a[0] != b[0]:
                raise Inconclusive(f"{kinds[i]} alone gives different results: {short(a[0])} {short(b[0])}")
            self.base.append(a)
            self.exact.append(a[1] is not None and a[1] == b[1])
            ctx.count("baselines")
        self.rebuild()
        for t, a in zip(self.tasks, self.base):
            if a[0] != t.expect:
                ctx.count("alone_unexpected")  # another property's business

    def rebuild(self):
        self.tasks = build(self.seed, self.kinds, self.tmp)

    def judge(self, results, how):
        for i, (r, a) in enumerate(zip(results, self.base)):
            ctx = self.ctx
            what = f"{self.kinds[i]} next to {[k for j, k in enumerate(self.kinds) if j != i]}"
            if r is None or r[0] == "raised":
                raise Violation(f"{what} failed: {r}", alone=a[0], how=how)
            if r[0] != a[0]:
                raise Violation(f"{what} gives another result than alone", got=r[0], alone=a[0], how=how)
            ctx.count("results_compared")
            if self.exact[i]:
                if r[1] != a[1]:
                    raise Violation(f"{what} gives other bytes than alone, with the same random bytes", got=r[1], alone=a[1], how=how)
                ctx.count("exact_compared")

    def schedule(self, schedule, opcodes=False, fresh=True, places=None):
        ctx = self.ctx
        if fresh:
            self.rebuild()
        with sched.local_urandom(self.seed) as u:
            r = sched.Run([guarded(t.fn, u, i) for i, t in enumerate(self.tasks)], schedule, opcodes)
            r.places = places
            try:
                res = r.run()
            except sched.Stuck:
                raise Violation("operations under a controlled scheduler never finish", kinds=self.kinds, schedule=schedule, trail=r.trail)
        self.judge(res, {"schedule": schedule, "trail": r.trail, "opcodes": opcodes, "set_free": r.free})
        ctx.count("schedules")
        ctx.count("opcode_schedules", opcodes)
        ctx.count("set_free", r.free)
        ctx.count("switches", r.switches)
        if any(0 < n < r.events[i] for i, n in r.trail):
            ctx.count("preempted")
        ctx.eval((self.kinds, [(i, n) for i, n in r.trail]))
        return r


def events_of(g, opcodes=False):
    """how many events each operation has when they run one after the other"""
    r = g.schedule([(i, sched.INF) for i in range(len(g.kinds))], opcodes)
    return r.events


def points(g, cap, opcodes=False):
    """where to pause the first operation: every distinct place once (a random occurrence), then more at random"""
    rng = g.ctx.rng
    places = []
    g.schedule([(0, sched.INF), (1, sched.INF)], opcodes, places=places)
    where = {}
    for k, pl in enumerate(places, 1):
        where.setdefault(pl, []).append(k)
    ks = [rng.choice(v) for v in where.values()]
    g.ctx.count("places_possible", len(ks))
    if len(ks) > cap:
        ks = rng.sample(ks, cap)
    g.ctx.count("places_tried", len(ks))
    more = min(len(places), cap // 4)
    return sorted({*ks, *rng.sample(range(1, len(places) + 1), more)})


def pair_kinds(idx):
    n = len(tasks.NAMES)
    return [tasks.NAMES[idx % n], tasks.NAMES[(idx // n + idx) % n]]


def pairs(ctx):
    """one operation paused at a line, the other run completely, then the first resumed"""
    rng = ctx.rng
    with gen.muted():
        g = Group(ctx, pair_kinds(ctx.idx))
        ks = points(g, 24 if ctx.tier == "quick" else 300)
        for k in ks:
            g.schedule([(0, k), (1, sched.INF)], fresh=rng.random() < 0.5)
    ctx.sample(kinds=g.kinds, tried=ks[:40])


def same_kind(ctx):
    """two of a kind: every line of the first"""
    with gen.muted():
        k = tasks.NAMES[ctx.idx % len(tasks.NAMES)]
        g = Group(ctx, [k, k])
        for p in points(g, 160 if ctx.tier == "quick" else 3000):
            g.schedule([(0, p), (1, sched.INF)], fresh=ctx.rng.random() < 0.5)
        # two preemptions: each paused once
        n, m = events_of(g)
        for _ in range(30 if ctx.tier == "quick" else 300):
            g.schedule([(0, ctx.rng.randrange(1, n + 1)), (1, ctx.rng.randrange(1, m + 1)), (0, sched.INF)])


SHARED_PAIRS = [(a, b, x) for x in "xerp" for a in sorted(tasks.SHARED) for b in sorted(tasks.SHARED)]


def shared(ctx):
    """one key object, two uses of it: every line of the first"""
    rng = ctx.rng
    a, b, letter = SHARED_PAIRS[ctx.idx % len(SHARED_PAIRS)]
    with gen.muted():
        g = Group(ctx, [f"{a}@{letter}", f"{b}@{letter}"])
        ps = points(g, 60 if ctx.tier == "quick" else 600)
        for p in ps:
            g.schedule([(0, p), (1, sched.INF)], fresh=rng.random() < 0.3)
            ctx.count("shared_schedules")
        n, m = events_of(g)
        for _ in range(8 if ctx.tier == "quick" else 200):
            g.schedule([(0, rng.randrange(1, n + 1)), (1, rng.randrange(1, m + 1)), (0, sched.INF)], fresh=rng.random() < 0.3)
        # and a third party in between
        g = Group(ctx, [f"{x}@{letter}" for x in (a, b, rng.choice(sorted(tasks.SHARED)), a)], "4")
        for _ in range(6 if ctx.tier == "quick" else 60):
            scale = rng.choice([3, 10, 40])
            g.schedule([(rng.randrange(4), rng.randrange(1, scale + 1)) for _ in range(rng.choice([5, 40]))], rng.random() < 0.3)


def random_schedules(ctx):
    rng = ctx.rng
    with gen.muted():
        kinds = [rng.choice(tasks.NAMES) for _ in range(rng.choice([2, 3, 3, 4, 6]))]
        if rng.random() < 0.4:
            kinds = [kinds[0]] * len(kinds)
        kinds = [k if k not in ("encrypt-chunks",) else "encrypt" for k in kinds]
        g = Group(ctx, kinds)
        for r in range(12 if ctx.tier == "quick" else 60):
            opcodes = rng.random() < 0.4
            s = []
            scale = rng.choice([1, 3, 10, 40, 150]) * (4 if opcodes else 1)
            for _ in range(rng.choice([3, 10, 60, 300])):
                s.append((rng.randrange(len(kinds)), rng.randrange(1, scale + 1)))
            g.schedule(s, opcodes)
    ctx.sample(kinds=kinds)


def opcode_pairs(ctx):
    """preemption inside a line"""
    rng = ctx.rng
    with gen.muted():
        g = Group(ctx, pair_kinds(rng.randrange(400)))
        m = events_of(g, True)[1]
        for k in points(g, 20 if ctx.tier == "quick" else 200, True):
            g.schedule([(0, k), (1, rng.choice([sched.INF, rng.randrange(1, m + 1)])), (0, sched.INF)], True)


def cold(ctx):
    """the first uses in a process, interleaved"""
    rng = ctx.rng
    kinds = pair_kinds(rng.randrange(400))
    each = ctx.idx < 2 * len(tasks.NAMES)
    if each:
        kinds = [tasks.NAMES[ctx.idx % len(tasks.NAMES)]] * 2
    elif rng.random() < 0.6:
        kinds = [kinds[0]] * 2
    g = Group(ctx, kinds)
    opcodes = rng.random() < 0.3
    where = {}
    for k, p in enumerate(pristine("places_of", g.seed, kinds, g.tmp, opcodes), 1):
        where.setdefault(p, []).append(k)
    if not where:
        raise Inconclusive("no events seen in the first use of a process")
    ctx.count("cold_opcode_cases", opcodes)
    # every place at one of its first passes (where things are set up), some at any
    cap = (70 if each else 14) if ctx.tier == "quick" else 150
    ks = [rng.choice(v[:3]) for v in where.values()]
    ks = rng.sample(ks, min(len(ks), cap))
    ks += [rng.choice(rng.choice(list(where.values()))) for _ in range(cap // 5)]
    for k in sorted(set(ks)):
        res, trail, ev, free = pristine("run_scheduled", g.seed, kinds, g.tmp, [(0, k), (1, sched.INF)], opcodes)
        g.judge(res, {"first uses in the process": True, "trail": trail, "opcodes": opcodes})
        ctx.count("cold_schedules")
        ctx.eval(("cold", kinds, trail))


def scrypt_writers(ctx):
    """passphrase encryptions are slow and release the interpreter lock: a few schedules"""
    with gen.muted():
        g = Group(ctx, ["encrypt-scrypt", ctx.rng.choice(["encrypt-scrypt", "encrypt", "scrypt-unwrap"])])
        n = events_of(g)[0]
        for k in ctx.rng.sample(range(1, n + 1), 1 if ctx.tier == "quick" else 3):
            g.schedule([(0, k), (1, sched.INF)])


def free(ctx):
    """real threads, switching as often as the interpreter can"""
    rng = ctx.rng
    n = rng.choice([4, 8])
    kinds = [rng.choice([k for k in tasks.NAMES]) for _ in range(n)]
    if rng.random() < 0.5:
        kinds = [rng.choice(["decrypt", "encrypt", "keys", "openssh", "scrypt-unwrap", "header", "armor-read"])] * n
    g = Group(ctx, kinds)
    rounds = 12 if ctx.tier == "quick" else 60
    old = sys.getswitchinterval()
    results = [[None] * rounds for _ in kinds]
    gate = threading.Barrier(n)
    with gen.muted(), sched.local_urandom(g.seed) as u:

        def body(i):
            gate.wait()
            for r in range(rounds):
                try:
                    results[i][r] = guarded(g.tasks[i].fn, u, i)()
                except BaseException as e:
                    results[i][r] = ("raised", type(e).__name__, str(e)[:200])

        try:
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(80)
                if t.is_alive():
                    raise Inconclusive("threads did not finish in time")
        finally:
            sys.setswitchinterval(old)
    for r in range(rounds):
        g.judge([results[i][r] for i in range(n)], {"threads": n, "round": r})
    ctx.count("free_runs")
    ctx.eval(("free", kinds), rounds)


# ---------------------------------------------------------------------- one thread, many objects
class Actor:
    """a generator function: one step per object operation; returns (meaning, exact)"""

    def __init__(self, kind, fn, expect):
        self.kind, self.fn, self.expect = kind, fn, expect


def a_encrypt(pool):
    rng = pool.rng
    ps = [pool.any("xe") for _ in range(rng.choice([1, 2]))]
    parts = [rng.randbytes(rng.choice([0, 1, 30, 500])) for _ in range(rng.randrange(1, 6))]

    def fn():
        out = io.BytesIO()
        e = Encryptor([p.recipient for p in ps], out)
        yield
        for x in parts:
            b = bytearray(x)
            e.write(b)
            b[:] = b"?" * 40
            yield
        e.flush()
        yield
        e.close()
        yield
        return [gen.ref_open(out.getvalue(), p) for p in ps], out.getvalue()

    return Actor("a-encrypt", fn, [b"".join(parts)] * len(ps))


def a_decrypt(pool):
    rng = pool.rng
    p = pool.any("xxer")
    data = rng.randbytes(300)
    ct = gen.ref_file(rng, [p], data)
    ns = [rng.randrange(60) for _ in range(6)]

    def fn():
        d = Decryptor([p.identity], io.BytesIO(ct))
        yield
        out = []
        for n in ns:
            out.append(d.read(n))
            yield
        out.append(d.readline())
        yield
        out.append(d.read())
        return b"".join(out), None

    return Actor("a-decrypt", fn, data)


def a_armor_out(pool):
    rng = pool.rng
    parts = [rng.randbytes(rng.choice([0, 1, 30, 48, 200])) for _ in range(rng.randrange(1, 6))]

    def fn():
        out = io.BytesIO()
        a = AsciiArmoredOutput(ref.LABEL, out)
        yield
        for x in parts:
            a.write(x)
            yield
            a.flush()
        a.close()
        yield
        return out.getvalue().decode(), None

    return Actor("a-armor-out", fn, ref.armor(b"".join(parts)))


def a_armor_in(pool):
    rng = pool.rng
    secs = [(rng.choice(["ONE", "TWO B", ref.LABEL]), rng.randbytes(rng.choice([0, 40, 100]))) for _ in range(4)]
    text = "".join("note\n" + ref.armor(d, lab) for lab, d in secs)
    one = rng.randbytes(200)

    def fn():
        out = []
        it = read_ascii_armored(io.StringIO(text))
        a = AsciiArmoredInput(ref.LABEL, io.BytesIO(ref.armor(one).encode()))
        for lab, d in it:
            out.append((lab, d))
            yield
            out.append(a.read(13))
            yield
        out.append(a.read())
        return out, None

    want = []
    for i, s in enumerate(secs):
        want += [s, one[13 * i : 13 * i + 13]]
    return Actor("a-armor-in", fn, want + [one[52:]])


def a_hmac(pool):
    rng = pool.rng
    keys = [rng.randbytes(rng.choice([16, 64, 90])) for _ in range(3)]
    msg = rng.randbytes(70)

    def fn():
        hs = []
        for k in keys:
            hs.append(HMAC(k))
            yield
        out = []
        for h in hs:
            out.append(h.generate(msg))
            yield
        return out, None

    return Actor("a-hmac", fn, [ref.hmac256(k, msg) for k in keys])


def a_header(pool):
    rng = pool.rng
    sts = [gen.unknown_stanza(rng) for _ in range(rng.randrange(0, 4))]
    tag = rng.randbytes(32)

    def fn():
        h = Header()
        yield
        for s in sts:
            r = Recipient(s.type)
            yield
            for a in s.args:
                r.arguments.append(a)
            r.body += ref.b64(s.body)
            h.recipients.append(r)
            yield
        f = io.BytesIO()
        dump_header(h, f, tag)
        yield
        g, t = load_header(io.BytesIO(f.getvalue() + b"\n"))
        yield
        empty = Header()
        return [[(r.type, list(r.arguments), r.body) for r in x.recipients] for x in (h, g, empty)] + [bytes(t)], None

    want = [(s.type, s.args, ref.b64(s.body)) for s in sts]
    return Actor("a-header", fn, [want, want, [], tag])


def a_failed(pool):
    """objects whose construction fails, and what is left of them"""
    rng = pool.rng
    p = pool.any("xe")
    ct = gen.ref_file(rng, [p], b"x" * 30)
    other = gen.XParty(rng.randbytes(32))

    def fn():
        out = io.BytesIO()
        n = 0
        for _ in range(3):
            try:
                Decryptor([other.identity], io.BytesIO(ct))
            except Exception:
                n += 1
            yield
            try:
                Encryptor([other.recipient, object()], out)
            except Exception:
                n += 1
            yield
        gc.collect(0)
        return (n, out.getvalue()), None

    return Actor("a-failed", fn, (6, b""))


ACTORS = {"a-encrypt": a_encrypt, "a-decrypt": a_decrypt, "a-armor-out": a_armor_out, "a-armor-in": a_armor_in, "a-hmac": a_hmac, "a-header": a_header, "a-failed": a_failed}


def merge(actors, rng, u, order=None):
    """run (name, actor) generators step by step in a random order; with rng None one after the other"""
    live, res, rngs = [], {}, {}
    for name, a in actors:
        live.append((name, a.fn()))
    last = None
    while live:
        k = 0 if rng is None else rng.randrange(len(live))
        name, it = live[k]
        if order is not None:
            order.append(name)
        if name != last:
            if last is not None:
                rngs[last] = u.tl.rng
            if name in rngs:
                u.tl.rng = rngs[name]
            else:
                u.enter(name)
            last = name
        try:
            next(it)
        except StopIteration as e:
            res[name] = e.value
            live.pop(k)
        except Exception as e:
            res[name] = ("raised", type(e).__name__, str(e)[:200])
            live.pop(k)
    u.leave()
    return res


def merged(ctx):
    rng = ctx.rng
    with gen.muted():
        kinds = [rng.choice(sorted(ACTORS)) for _ in range(rng.choice([2, 3, 5, 8]))]
        if rng.random() < 0.4:
            kinds = [kinds[0]] * len(kinds)
        g = Group(ctx, kinds)
        for _ in range(8):
            g.rebuild()
            with sched.local_urandom(g.seed) as u:
                order = []
                res = merge(list(enumerate(g.tasks)), rng, u, order)
            g.judge([res[i] for i in range(len(kinds))], {"merged": True})
            ctx.count("merged_histories")
            ctx.eval(("merged", kinds, order))


def rewritten(ctx):
    """files whose content changes between uses, interleaved with other loads: every load sees the file as it is"""
    rng = ctx.rng
    d = ctx.tmp
    keys, recs, als, ssh = (os.path.join(d, n) for n in ("keys", "recs", "aliases", "sshdir"))
    os.mkdir(ssh)
    with gen.muted():
        for _ in range(6):
            p, q, e = gen.XParty(rng.randbytes(32)), gen.XParty(rng.randbytes(32)), gen.EParty(rng.randbytes(32))
            # same length as before, and often within the same clock tick
            for path, text in ((keys, ref.priv_string(p.sk) + "\n"), (recs, q.cli_recipient + "\n"), (als, f"name: {q.cli_recipient}\n")):
                with open(path, "w") as f:
                    f.write(text)
            with open(os.path.join(ssh, "id_x"), "wb") as f:
                f.write(e.pem())
            stamp = 10**18
            for path in (keys, recs, als, os.path.join(ssh, "id_x")):
                os.utime(path, ns=(stamp, stamp))
            al = load_aliases(als)
            got = [
                [k.private_bytes() for k in load_keys_txt(keys)],
                [k.public_bytes() for k in resolve_public_key(recs)],
                al,
                [k.public_bytes() for k in resolve_public_key("name", al)],
                gen.age_decrypt(load_ssh_keys(ssh), gen.ref_file(rng, [e], b"t")),
                gen.age_decrypt([load_ssh_private_key(os.path.join(ssh, "id_x"))], gen.ref_file(rng, [e], b"u")),
            ]
            want = [[p.sk], [q.pk], {"name": [q.cli_recipient]}, [q.pk], b"t", b"u"]
            for g, w in zip(got, want):
                ctx.equal(g, w, "a file whose content changed gives the old result")
            # results belong to the caller: changing them changes no later result
            al["name"].append("junk")
            al["other"] = []
            load_keys_txt(keys).clear()
            load_ssh_keys(ssh).clear()
            resolve_public_key(recs).clear()
            ctx.equal(load_aliases(als), {"name": [q.cli_recipient]}, "aliases after the caller changed an earlier result")
            ctx.equal(len(load_keys_txt(keys)) + len(load_ssh_keys(ssh)) + len(resolve_public_key(recs)), 3, "lists after the caller changed earlier ones")
            ctx.count("rewritten")
            ctx.eval(("rewritten", p.name))


def families(tier):
    q = tier == "quick"
    n = len(tasks.NAMES)
    return [
        ("pairs", n * n // (4 if q else 1), pairs_stride if q else pairs),
        ("same_kind", n if q else 3 * n, same_kind),
        ("shared", 64 if q else 256, shared),
        ("random_schedules", 80 if q else 1500, random_schedules),
        ("opcode_pairs", 50 if q else 800, opcode_pairs),
        ("cold", 2 * n + 16 if q else 600, cold),
        ("scrypt_writers", 3 if q else 16, scrypt_writers),
        ("free", 24 if q else 300, free),
        ("merged", 80 if q else 1500, merged),
        ("rewritten", 24 if q else 200, rewritten),
    ]


def pairs_stride(ctx):
    """a different quarter of the pairs for every seed"""
    ctx.idx_full = ctx.idx * 4 + (ctx.seed % 4)
    real, ctx.idx = ctx.idx, ctx.idx_full
    try:
        pairs(ctx)
    finally:
        ctx.idx = real
