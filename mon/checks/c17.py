"""C17 success is reported only when the whole output was written"""
import errno
import fcntl
import os
import re
import threading
import time

from mon import cli, gen, ref
from mon.core import Violation
from mon.gen import C, XParty, hostile32
from mon.world import World

PROPERTY = "C17"
RULE = (
    "a case = encrypt / decrypt / generate processes whose output channel fails or is cut short at a chosen byte (file-size limit, "
    "full device, closed or broken descriptor, injected write errors, short writes, interruptions, close errors), buffered and "
    "unbuffered; what reached the file or pipe is judged by an independent reader and compared with the exit status; "
    "distinct = (command, channel, armor, buffering, fault, offset)"
)
ASSUMPTIONS = [
    "an error of close() counts as a failed write of the file",
    "faults below the write() call of the C library are simulated by an interposed library in the process under test",
]
LEVEL = "fault_enumeration"
REQUIRED = {
    "cut_failed": 300, "uncut_succeeded": 60, "fsize": 150, "injected": 150, "short_writes": 40, "short_writes_complete": 10, "full_device": 20, "closed_stdout": 10,
    "broken_pipe": 15, "nonblocking": 8, "close_errors": 6, "unbuffered": 80, "generate_cuts": 60, "fresh_processes": 4, "as_module": 200, "modes": 300,
}


def global_init():
    cli.build_shim()


def global_done():
    cli.drop_shim()


def worker_done():
    cli.stop()


class Job:
    """one command with known complete output"""

    def __init__(self, ctx, w, cmd=None, size=None, armored=None):
        rng = ctx.rng
        self.ctx, self.w = ctx, w
        self.cmd = cmd or rng.choice(["encrypt", "decrypt", "generate"])
        self.armored = rng.random() < 0.4 if armored is None else armored
        self.p = XParty(hostile32(rng))
        self.stdin = b""
        if self.cmd == "generate":
            self.armored = False
            self.args = ["generate"]
            self.size = len(f"# created: 2020-01-01T00:00:00\n# {ref.pub_string(bytes(32))}\n{ref.priv_string(bytes(32))}\n")
            return
        pt = gen.plain(rng, rng.choice([1, 2, 5, 30, 100, 300]) if size is None else size)
        self.pt = pt
        a = ["-a"] if self.armored else []
        if self.cmd == "encrypt":
            self.args = ["encrypt", *a, self.p.cli_recipient]
            self.stdin = pt
            n = len(gen.ref_file(rng, [self.p], pt))
            self.size = len(ref.armor(bytes(n))) if self.armored else n
        else:
            d = gen.ref_file(rng, [self.p], pt)
            self.args = ["decrypt", *a, w.key_file([self.p], "keys")]
            self.stdin = ref.armor(d).encode() if self.armored else d
            self.size = len(pt)

    def complete(self, out):
        """is out the whole result?"""
        if self.cmd == "decrypt":
            return out == self.pt
        if self.cmd == "generate":
            m = re.fullmatch(rb"# created: [^\n]*\n# (age1[a-z0-9]{58})\n(AGE-SECRET-KEY-1[A-Z0-9]{58})\n", out)
            return bool(m)
        try:
            d = ref.dearmor_strict(out.decode()) if self.armored else out
            return gen.ref_open(d, self.p) == self.pt
        except Exception:
            return False


def judge(ctx, job, r, out, what, cut, **d):
    """cut: True = bytes were certainly lost, False = nothing was in the way, None = unknown"""
    whole = job.complete(out)
    ctx.count("as_module", int(r.module))
    d = dict(command=job.args, fault=what, exit=r.code, wrote=len(out), needs=job.size, stderr=r.err[-500:], **d)
    if r.code == 0 and not whole:
        raise Violation(f"{job.cmd}: exit status 0 but the output is incomplete ({what})", output=out[-80:], **d)
    if cut:
        ctx.check(r.code != 0, f"{job.cmd}: exit status 0 although writing failed ({what})", **d)
        ctx.count("cut_failed")
        ctx.count("generate_cuts", int(job.cmd == "generate"))
    elif cut is False:
        ctx.check(r.code == 0 and whole, f"{job.cmd}: failed although nothing was in the way ({what})", **d)
        ctx.count("uncut_succeeded")
    ctx.sample(command=job.args[:2], fault=what, exit=r.code, wrote=len(out), needs=job.size)


def run(ctx, job, channel, fault_name, cut, unbuffered=False, fresh=False, **kw):
    """channel: -o file (new or existing), or standard output on a file"""
    w = job.w
    args = list(job.args)
    fd = None
    w.n += 1
    path = w.path(f"out{w.n}")
    if channel == "existing":
        w.file(b"old " * 50, f"out{w.n}")
    if channel in ("new", "existing"):
        args += ["-o", path]
    else:
        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | (os.O_APPEND if channel == "append" else 0))
        kw["stdout"] = fd
        if channel == "dash":
            args += ["-o", "-"]
    r = cli.run(args, w.home, stdin=job.stdin, unbuffered=unbuffered, fresh=fresh, **kw)
    if fd is not None:
        os.close(fd)
    out = b""
    if os.path.exists(path):
        with open(path, "rb") as f:
            out = f.read()
        os.unlink(path)
    judge(ctx, job, r, out, fault_name, cut, channel=channel, unbuffered=unbuffered)
    ctx.count("unbuffered", int(unbuffered))
    ctx.count("fresh_processes", int(fresh))
    return r, out


CHANNELS = ["new", "existing", "stdout", "stdout", "append", "dash"]


def offsets(rng, n, k):
    """k offsets at which n bytes of output are cut, the ends always among them"""
    o = {0, 1, n - 1, n - 2, n // 2, n, n + 1}
    while len(o) < min(k, n):
        o.add(rng.randrange(n + 2))
    return sorted(x for x in o if x >= 0)


def fsize(ctx):
    """file-size limits"""
    rng = ctx.rng
    w = World(ctx)
    cmd = ["generate", "encrypt", "decrypt"][ctx.idx % 3]
    job = Job(ctx, w, cmd)
    ch = rng.choice(CHANNELS)
    unb = rng.random() < 0.4
    for off in offsets(rng, job.size, 10 if ctx.tier == "quick" else 24):
        run(ctx, job, ch, f"file-size limit {off}", off < job.size, unbuffered=unb, fsize=off, fresh=rng.random() < 0.03)
        ctx.count("fsize")
        ctx.eval(("fsize", cmd, ch, job.armored, unb, off, job.size))


SETTINGS = ["", "utf-8:strict", "utf-8:surrogateescape", "ascii:strict", "latin-1:replace"]


def modes(ctx):
    """every output channel, buffered or not, under every setting of the standard streams"""
    rng = ctx.rng
    w = World(ctx)
    cmd = ["generate", "generate", "encrypt", "decrypt"][ctx.idx % 4]
    job = Job(ctx, w, cmd)
    setting = SETTINGS[ctx.idx // 4 % len(SETTINGS)]
    env = {"PYTHONIOENCODING": setting} if setting else None
    for ch in ("stdout", "append", "dash", "new"):
        for unb in (True, False):
            for off in {job.size - 1, rng.randrange(job.size), rng.randrange(job.size), job.size}:
                run(ctx, job, ch, f"file-size limit {off}", off < job.size, unbuffered=unb, fsize=off, env=env, fresh=rng.random() < 0.01)
                ctx.count("modes")
                ctx.eval(("modes", cmd, ch, job.armored, unb, setting, off, job.size))


def fsize_big(ctx):
    """outputs beyond the buffers: the cut falls on one of several write calls"""
    rng = ctx.rng
    w = World(ctx)
    job = Job(ctx, w, rng.choice(["encrypt", "decrypt"]), size=rng.choice([8192, 8193, 20_000, C, 2 * C + 1, 200_000]))
    ch = rng.choice(CHANNELS)
    unb = rng.random() < 0.4
    n = job.size
    for off in {0, n - 1, n, 8191, 8192, 8193, C, rng.randrange(n), n - rng.randrange(1, 8193)}:
        if off > n:
            continue
        if rng.random() < 0.5:
            run(ctx, job, ch, f"file-size limit {off}", off < n, unbuffered=unb, fsize=off)
            ctx.count("fsize")
        else:
            t = 2 if ch in ("new", "existing") else 1
            run(ctx, job, ch, f"write error after {off}", off < n, unbuffered=unb, shim=[t, off, rng.choice([-1, 1000, 4096]), errno.ENOSPC, 0, 0])
            ctx.count("injected")
        ctx.eval(("big", job.cmd, ch, job.armored, unb, off, n))


ERRORS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE, errno.EBADF]


def injected(ctx):
    """write errors at a byte, with short writes and interruptions before it"""
    rng = ctx.rng
    w = World(ctx)
    cmd = ["generate", "encrypt", "decrypt"][ctx.idx % 3]
    job = Job(ctx, w, cmd)
    ch = rng.choice(CHANNELS)
    unb = rng.random() < 0.4
    t = 2 if ch in ("new", "existing") else 1
    for off in offsets(rng, job.size, 9 if ctx.tier == "quick" else 24):
        piece = rng.choice([-1, -1, 1, 7, 64])
        again = int(rng.random() < 0.3)
        e = rng.choice(ERRORS)
        cut = off < job.size
        if not cut and piece >= 0:
            cut = None  # short writes alone may be refused, but not be taken for complete ones
        r, out = run(ctx, job, ch, f"write error {errno.errorcode[e]} after {off} (at most {piece} per call)", cut, unbuffered=unb, shim=[t, off, piece, e, 0, again])
        ctx.count("injected")
        ctx.count("interruptions", again)
        ctx.eval(("inject", cmd, ch, job.armored, unb, off, piece, again, e))


def short_writes(ctx):
    """every write call accepts only a part; nothing fails"""
    rng = ctx.rng
    w = World(ctx)
    cmd = ["generate", "encrypt", "decrypt"][ctx.idx % 3]
    job = Job(ctx, w, cmd, size=rng.choice([None, None, 9000, 40_000]))
    for _ in range(3):
        ch = rng.choice(CHANNELS)
        unb = rng.random() < 0.5
        t = 2 if ch in ("new", "existing") else 1
        piece = rng.choice([1, 2, 3, 10, 63, 64, 100, 4096]) if job.size < 1000 else rng.choice([100, 1000, 4096, 8191])
        r, out = run(ctx, job, ch, f"at most {piece} bytes per write", None, unbuffered=unb, shim=[t, -1, piece, errno.ENOSPC, 0, rng.randrange(2)])
        ctx.count("short_writes")
        ctx.count("short_writes_complete", int(r.code == 0))
        ctx.eval(("short", cmd, ch, job.armored, unb, piece))


def close_errors(ctx):
    rng = ctx.rng
    w = World(ctx)
    job = Job(ctx, w)
    run(ctx, job, rng.choice(["new", "existing"]), "close error", True, shim=[2, -1, -1, errno.ENOSPC, rng.choice([errno.EIO, errno.EDQUOT, errno.ENOSPC]), 0])
    ctx.count("close_errors")
    ctx.eval(("close", job.cmd, job.armored))


def devices(ctx):
    """full device, closed or unwritable standard output, with and without other trouble"""
    rng = ctx.rng
    w = World(ctx)
    job = Job(ctx, w, ["generate", "encrypt", "decrypt"][ctx.idx % 3], size=rng.choice([None, 9000, 100_000]))
    dash = rng.choice([[], ["-o", "-"]])
    for how in ("full", "full-file", "closed", "readonly"):
        unb = rng.random() < 0.5
        fresh = rng.random() < 0.1
        fd = None
        args = [*job.args, *dash]
        if how == "full":
            fd = os.open("/dev/full", os.O_WRONLY)
        elif how == "full-file":
            args = [*job.args, "-o", "/dev/full"]
        elif how == "readonly":
            fd = os.open("/dev/null", os.O_RDONLY)
        r = cli.run(args, w.home, stdin=job.stdin, unbuffered=unb, fresh=fresh, **({} if how == "full-file" else {"stdout": fd}))
        if fd is not None:
            os.close(fd)
        judge(ctx, job, r, r.out, how, True, unbuffered=unb)
        ctx.count({"full": "full_device", "full-file": "full_device", "closed": "closed_stdout", "readonly": "readonly_stdout"}[how])
        ctx.count("unbuffered", int(unb))
        ctx.count("fresh_processes", int(fresh))
        ctx.eval(("device", how, job.cmd, job.armored, unb, bool(dash), job.size))


def pipes(ctx):
    """readers that go away, and pipes that do not block"""
    rng = ctx.rng
    w = World(ctx)
    capacity = rng.choice([4096, 65536])
    size = rng.choice([10, 300, 5000, 100_000, 300_000, 1_000_000])
    job = Job(ctx, w, rng.choice(["encrypt", "decrypt", "decrypt"]) if rng.random() < 0.85 else "generate", size=size)
    unb = rng.random() < 0.5
    how = ["gone", "leaves", "nonblocking", "nonblocking-drained", "slow"][ctx.idx % 5]
    r, wr = os.pipe()
    fcntl.fcntl(r, 1031, capacity)
    got = []
    stop = threading.Event()
    chunk = [1, 100, 4096] if size < 500_000 else [1000, 4096, 65536]
    take = rng.choice([0, 1, 100, 4096, size // 2, max(0, size - 3)])
    if how.startswith("nonblocking"):
        os.set_blocking(wr, False)
    if how == "gone":
        os.close(r)
        th = None
    else:

        def reader():
            try:
                n = 0
                while how not in ("leaves",) or n < take:
                    if how == "nonblocking":
                        stop.wait()
                    b = os.read(r, min(4096, take - n) if how == "leaves" else rng.choice(chunk))
                    if not b:
                        break
                    n += len(b)
                    got.append(b)
                    if how in ("slow", "nonblocking-drained") and len(got) < 40:
                        time.sleep(0.002)
            finally:
                os.close(r)

        th = threading.Thread(target=reader)
        th.start()
    try:
        res = cli.run([*job.args, *rng.choice([[], ["-o", "-"]])], w.home, stdin=job.stdin, unbuffered=unb, stdout=wr)
    finally:
        os.close(wr)
        stop.set()
        if th:
            th.join(30)
    out = b"".join(got)
    if how == "gone":
        cut = True
    elif how == "leaves":
        cut = True if job.size > take + 2 * capacity + 4096 else None
        if cut is None and res.code == 0 and len(out) < job.size:
            out = None  # the rest was still in the pipe when its reader left
    elif how == "nonblocking":
        cut = True if job.size > 2 * capacity else None
    else:
        cut = False if how == "slow" else None
    if out is None:
        ctx.count("undecided")
    else:
        judge(ctx, job, res, out, "pipe: " + how, cut, unbuffered=unb, take=take)
    ctx.count({"gone": "broken_pipe", "leaves": "broken_pipe", "nonblocking": "nonblocking", "nonblocking-drained": "nonblocking", "slow": "slow_pipe"}[how])
    ctx.count("unbuffered", int(unb))
    ctx.eval(("pipe", how, job.cmd, job.armored, unb, job.size, take))


def stderr_trouble(ctx):
    """a lost standard error never turns an incomplete output into a success"""
    rng = ctx.rng
    w = World(ctx)
    for how in ("closed", "full"):
        # with a closed standard error Python's print() goes to standard output: not judged for generate
        job = Job(ctx, w, rng.choice(["encrypt", "decrypt"] + ["generate"] * (how == "full")))
        fd = os.open("/dev/full", os.O_WRONLY) if how == "full" else None
        unb = rng.random() < 0.5
        limit = rng.choice([None, rng.randrange(job.size)])
        run(ctx, job, rng.choice(CHANNELS), f"standard error {how}, limit {limit}", None if limit is None else True, unbuffered=unb, fsize=limit, stderr=fd)
        if fd is not None:
            os.close(fd)
        ctx.count("stderr_trouble")
        ctx.eval(("stderr", how, job.cmd, unb, limit is None))


def families(tier):
    k = 1 if tier == "quick" else 10
    return [
        ("fsize", 36 * k, fsize), ("modes", 20 * k, modes), ("fsize-big", 14 * k, fsize_big), ("injected", 36 * k, injected), ("short", 24 * k, short_writes), ("close", 12 * k, close_errors),
        ("devices", 18 * k, devices), ("pipes", 80 * k, pipes), ("stderr", 8 * k, stderr_trouble),
    ]
