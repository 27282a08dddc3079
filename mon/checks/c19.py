"""C19 generated key pairs are valid and announced truthfully"""
import contextlib
import datetime
import io
import os
import re
import socket
import stat
import threading

import age.cli
from age.keyloader import load_keys_txt
from age.keys.agekey import AgePublicKey

from mon import cli, gen, ref
from mon.world import World

PROPERTY = "C19"
RULE = (
    "a case = generate processes writing to standard output or a file of a given kind and permission mode; the key file is read by an "
    "independent bech32/X25519 reference, by the program, and compared with both announcements; all 512 permission modes of an existing "
    "file are enumerated; distinct = (channel, permission mode, umask)"
)
ASSUMPTIONS = ["any text on standard error beside the public key counts as a warning; it has to contain the octal mode"]
REQUIRED = {
    "keys": 560, "modes_existing": 512, "warned": 480, "not_warned": 40, "umask_runs": 24, "redirected": 24, "non_regular": 20, "loaded_by_pyage": 560, "announced": 540,
    "decrypted_with_generated": 8, "distinct_keys": 500, "in_process": 8, "tty": 3, "appended": 40, "times_checked": 550, "zones": 300, "as_module": 120,
}


def global_init():
    cli.build_shim()


def global_done():
    cli.drop_shim()


def worker_done():
    cli.stop()


def zone(rng):
    """-> (TZ, offset of local time in minutes)"""
    m = rng.choice([0, 60, -300, 330, 765, -720, 840, rng.randrange(-720, 840)])
    return f"XYZ{'-' if m >= 0 else '+'}{abs(m) // 60}:{abs(m) % 60:02}", m


def generate(ctx, args, home, **kw):
    tz, m = zone(ctx.rng)
    r = cli.run(["generate", *args], home, env={"TZ": tz}, **kw)
    r.zone = m
    ctx.count("as_module", int(r.module))
    return r


def judge_time(ctx, when, minutes):
    """local time, or universal time, or with an explicit offset"""
    try:
        t = datetime.datetime.fromisoformat(when)
    except ValueError:
        ctx.check(False, "creation time is not a time", when=when)
    now = datetime.datetime.now(datetime.timezone.utc)
    if t.tzinfo is not None:
        ok = [t]
    elif minutes is None:
        ok = [t.astimezone(), t.replace(tzinfo=datetime.timezone.utc)]
    else:
        ok = [t.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=x))) for x in {0, minutes}]
    ctx.check(any(abs(now - x) < datetime.timedelta(minutes=3) for x in ok), "creation time is not the time of creation", when=when, now=now, offset=minutes)
    ctx.count("times_checked")
    ctx.count("zones", int(minutes not in (None, 0)))


def judge_key(ctx, text, err, w, announced=True, perms=None, zone=None, **d):
    """text: everything that went to the output; -> private key string"""
    m = re.fullmatch(r"# created: (\S+)\n# (age1[a-z0-9]+)\n(AGE-SECRET-KEY-1[A-Z0-9]+)\n", text)
    hidden = re.sub(r"(AGE-SECRET-KEY-1)\S+", r"\1...", text)
    ctx.check(m, "output of generate is not a key file with creation time, public key and private key", output=hidden, **d)
    when, pub, priv = m.groups()
    judge_time(ctx, when, zone)
    raw = _bech32_decode("AGE-SECRET-KEY-", priv)
    ctx.check(raw is not None and ref.priv_string(raw) == priv, "private key is not canonical bech32", **d)
    want = ref.pub_string(ref.x25519_base(raw))
    ctx.equal(pub, want, "public key in the comment does not belong to the private key", **d)
    path = w.file(text, "loaded", 0o600)
    keys = ctx.must("loading the generated key file", load_keys_txt, path)
    ctx.check(len(keys) == 1 and keys[0].private_string() == priv, "generated key file does not load as the one key in it", **d)
    ctx.equal(keys[0].public_key().public_string(), want, "public key of the loaded key")
    ctx.count("loaded_by_pyage")
    e = err.decode()
    found = re.findall(r"age1[a-z0-9]+", e)
    if announced:
        ctx.check(found, "public key not announced on standard error", stderr=e, **d)
        ctx.count("announced")
    ctx.check(all(f == want for f in found), "another public key announced on standard error", stderr=e, want=want, **d)
    up = e.upper()
    ctx.check("SECRET" not in up and priv[16:40] not in up and raw.hex().upper() not in up, "private key on standard error", **d)
    rest = [ln for ln in e.splitlines() if want not in ln and ln.strip()]
    if perms is None or perms & 0o077 == 0:
        ctx.check(not rest, "warned although nobody else can access the output", stderr=e, perms=perms if perms is None else oct(perms), **d)
        ctx.count("not_warned")
    else:
        ctx.check(rest, "not warned although group or others can access the output file", stderr=e, perms=oct(perms), **d)
        ctx.check(re.search(rf"(?<![0-7])(0o?)?{perms:o}(?![0-9])", " ".join(rest)), "warning does not contain the file's permissions", stderr=e, perms=oct(perms), **d)
        ctx.count("warned")
    ctx.count("keys")
    ctx.count("distinct_keys")
    ctx.check(raw not in SEEN, "the same private key was generated twice")
    SEEN.add(raw)
    return priv, want


SEEN = set()


def _bech32_decode(hrp, s):
    if s.upper() != s:
        return None
    data = s.lower()[len(hrp) + 1 :]
    vals = [ref.B32.find(c) for c in data[:-6]]
    if min(vals) < 0:
        return None
    acc = bits = 0
    out = bytearray()
    for v in vals:
        acc = (acc << 5 | v) & 0xFFFFFF
        bits += 5
        if bits >= 8:
            bits -= 8
            out.append(acc >> bits & 255)
    return bytes(out) if len(out) == 32 else None


def modes(ctx):
    """every permission mode of an existing output file"""
    for mode in range(ctx.idx * 16, ctx.idx * 16 + 16):
        w = World(ctx, f"m{mode}")
        p = w.file(b"x" * ctx.rng.choice([0, 10, 1000]), "keys", 0o600)
        os.chmod(p, mode)
        r = generate(ctx, [ctx.rng.choice(["-o", "--outfile"]), p], w.home, umask=ctx.rng.randrange(512), fresh=ctx.rng.random() < 0.01)
        ctx.check(r.code == 0 and r.out == b"", "generate failed or wrote to standard output", result=r, mode=oct(mode))
        ctx.equal(stat.S_IMODE(os.stat(p).st_mode), mode, "generate changed the permissions of an existing file")
        text = open(p).read()
        judge_key(ctx, text, r.err, w, zone=r.zone, perms=mode, mode=oct(mode))
        ctx.count("modes_existing")
        ctx.eval(("existing", mode))
    ctx.sample(modes=f"{ctx.idx * 16:o}..{ctx.idx * 16 + 15:o}", stderr=r.err)


def umasks(ctx):
    """new files under a umask; announced permissions are those the file has"""
    rng = ctx.rng
    for _ in range(4):
        w = World(ctx, f"u{_}")
        u = rng.choice([0, 0o022, 0o077, 0o177, 0o007, 0o070, 0o777, rng.randrange(512)])
        r = generate(ctx, ["-o", "new"], w.home, umask=u, unbuffered=rng.random() < 0.3)
        ctx.check(r.code == 0 and r.out == b"", "generate failed or wrote to standard output", result=r, umask=oct(u))
        p = w.path("new")
        perms = stat.S_IMODE(os.stat(p).st_mode)
        judge_key(ctx, open(p).read(), r.err, w, zone=r.zone, perms=perms, umask=oct(u))
        ctx.count("umask_runs")
        ctx.eval(("new", u))


def redirected(ctx):
    """standard output on a regular file of some mode"""
    rng = ctx.rng
    for k in range(4):
        w = World(ctx, f"r{k}")
        mode = rng.choice([0o600, 0o644, 0o640, 0o604, 0o700, 0o400, 0o660, 0o601, 0o610, rng.randrange(512)])
        p = w.file(b"", "keys")
        fd = os.open(p, os.O_WRONLY | os.O_TRUNC)
        os.chmod(p, mode)
        dash = rng.choice([[], ["-o", "-"]])
        r = generate(ctx, dash, w.home, stdout=fd, unbuffered=rng.random() < 0.3, fresh=rng.random() < 0.1)
        os.close(fd)
        ctx.check(r.code == 0, "generate failed", result=r)
        os.chmod(p, 0o600)
        judge_key(ctx, open(p).read(), r.err, w, zone=r.zone, perms=mode, mode=oct(mode))
        ctx.count("redirected")
        ctx.eval(("redirected", mode, bool(dash)))


def appended(ctx):
    """outputs that hold something already, and outputs with odd names"""
    rng = ctx.rng
    for k in range(6):
        w = World(ctx, f"a{k}")
        old = []
        for _ in range(rng.randrange(1, 4)):
            sk = rng.randbytes(32)
            old.append("# created: 2020-01-01T00:00:00\n# " + ref.pub_string(ref.x25519_base(sk)) + "\n" + ref.priv_string(sk) + "\n")
        before = "".join(old)
        mode = rng.choice([0o600, 0o600, 0o644, 0o660])
        name = rng.choice(["keys", "<stdout>", "<fdopen>", "1", "stdout"])
        p = w.file(before, name)
        os.chmod(p, mode)
        how = k % 3
        zone_ = None
        if how == 0:
            fd = os.open(p, os.O_WRONLY | os.O_APPEND)
            r = generate(ctx, [], w.home, stdout=fd)
            os.close(fd)
            ctx.check(r.code == 0, "generate failed", result=r)
            err, zone_ = r.err, r.zone
        elif how == 1:
            e = io.StringIO()
            cwd = os.getcwd()
            with open(p, "a") as f, contextlib.redirect_stderr(e):
                ctx.must("generate()", age.cli.generate, outfile=f)
            os.chdir(cwd)
            err = e.getvalue().encode()
        else:
            # a file of that name in the working directory, the output goes elsewhere
            text = None
            r = generate(ctx, [], w.home)
            ctx.check(r.code == 0, "generate failed", result=r)
            ctx.equal(open(p).read(), before, "generate changed a file nobody named")
            judge_key(ctx, r.out.decode(), r.err, w, zone=r.zone, name=name)
            ctx.count("appended")
            ctx.eval(("beside", name))
            continue
        text = open(p).read()
        ctx.check(text.startswith(before), "generate did not append")
        judge_key(ctx, text[len(before) :], err, w, perms=mode, zone=zone_, name=name, how=how)
        keys = load_keys_txt(p)
        ctx.equal(len(keys), len(old) + 1, "keys of the file appended to")
        ctx.count("appended")
        ctx.eval(("append", how, name, mode))


def others(ctx):
    """outputs that are no regular files are never warned about"""
    rng = ctx.rng
    w = World(ctx)
    # a pipe
    r = generate(ctx, rng.choice([[], ["-o", "-"]]), w.home, unbuffered=rng.random() < 0.5)
    ctx.check(r.code == 0, "generate failed", result=r)
    priv, pub = judge_key(ctx, r.out.decode(), r.err, w, zone=r.zone)
    ctx.count("non_regular")
    ctx.eval("pipe")
    # the generated key works
    pt = gen.plain(rng, maximum=3000)
    raw = gen.age_encrypt([AgePublicKey.from_public_string(pub)], pt)
    k = w.file(r.out, "k", 0o600)
    d = cli.run(["decrypt", k], w.home, stdin=raw)
    ctx.check(d.code == 0 and d.out == pt, "a file encrypted to the announced key does not decrypt with the generated key", result=d)
    ctx.count("decrypted_with_generated")
    # a named pipe
    f = w.path("fifo")
    os.mkfifo(f, 0o666)
    os.chmod(f, 0o666)
    box = []
    t = threading.Thread(target=lambda: box.append(open(f, "rb").read()))
    t.start()
    r = generate(ctx, ["-o", f], w.home)
    if r.code != 0 and not box:
        with contextlib.suppress(OSError):
            os.close(os.open(f, os.O_WRONLY | os.O_NONBLOCK))
    t.join(20)
    ctx.check(r.code == 0 and box, "generate to a named pipe failed", result=r)
    judge_key(ctx, box[0].decode(), r.err, w, zone=r.zone, channel="fifo")
    ctx.count("non_regular")
    ctx.eval("fifo")
    # a socket
    a, b = socket.socketpair()
    r = generate(ctx, [], w.home, stdout=a.fileno())
    a.close()
    text = b""
    while True:
        x = b.recv(4096)
        if not x:
            break
        text += x
    b.close()
    ctx.check(r.code == 0, "generate to a socket failed", result=r)
    judge_key(ctx, text.decode(), r.err, w, zone=r.zone, channel="socket")
    ctx.count("non_regular")
    ctx.eval("socket")
    # /dev/null
    r = cli.run(["generate", "-o", "/dev/null"], w.home)
    ctx.check(r.code == 0 and r.out == b"" and b"arning" not in r.err, "generate -o /dev/null failed or warned", result=r)
    ctx.count("non_regular")
    ctx.eval("null")
    # a symbolic link to a regular file: the file counts
    p = w.file(b"", "target", 0o640)
    os.symlink(p, w.path("link"))
    r = generate(ctx, ["-o", "link"], w.home)
    judge_key(ctx, open(p).read(), r.err, w, zone=r.zone, perms=0o640, channel="symlink")
    # a terminal: the key is on it; what is announced elsewhere has to match
    import pty

    m, s = pty.openpty()
    import termios

    at = termios.tcgetattr(s)
    at[1] &= ~termios.OPOST
    termios.tcsetattr(s, termios.TCSANOW, at)
    r = generate(ctx, [], w.home, stdout=s)
    text = os.read(m, 4096)
    os.close(s)
    os.close(m)
    ctx.check(r.code == 0, "generate to a terminal failed", result=r)
    judge_key(ctx, text.decode(), r.err, w, zone=r.zone, announced=False, channel="tty")
    ctx.count("tty")
    ctx.eval("tty")


def in_process(ctx):
    """called as a function with any text stream"""
    w = World(ctx)
    for kind in ("stringio", "file", "wrapper"):
        err = io.StringIO()
        perms = None
        if kind == "stringio":
            f = io.StringIO()
        elif kind == "wrapper":
            f = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
        else:
            f = open(w.file(b"", "x", 0o600), "w")
            perms = ctx.rng.choice([0o600, 0o644, 0o606, 0o660])
            os.chmod(w.path("x"), perms)
        with contextlib.redirect_stderr(err):
            ctx.must("generate()", age.cli.generate, outfile=f)
        if kind == "stringio":
            text = f.getvalue()
        elif kind == "wrapper":
            f.flush()
            text = f.buffer.getvalue().decode()
        else:
            f.close()
            text = open(w.path("x")).read()
        judge_key(ctx, text, err.getvalue().encode(), w, perms=perms, channel=kind)
        ctx.count("in_process")
        ctx.eval(("in-process", kind))


def families(tier):
    k = 1 if tier == "quick" else 10
    return [("modes", 32, modes), ("umasks", 8 * k, umasks), ("redirected", 8 * k, redirected), ("others", 12 * k, others), ("in-process", 6 * k, in_process), ("appended", 8 * k, appended)]
