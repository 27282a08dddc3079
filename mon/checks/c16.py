"""C16 a failing command leaves no output behind"""
import os
import signal
import time

from mon import cli, gen, ref
from mon.gen import C, XParty, hostile32
from mon.world import TEXT_PASSWORDS, World, cli_party, damage

PROPERTY = "C16"
RULE = (
    "a case = failing encrypt / decrypt processes (cause of failure x input mode x output mode x armor); exit status, standard "
    "output and a snapshot (content, inode, modification time) of every file before and after are compared; in release cases "
    "the output is observed while the last bytes of the input are held back; distinct = (cause, input mode, output mode, armor)"
)
ASSUMPTIONS = [
    "processes are forked from an interpreter with everything imported (some are started afresh), each with its own descriptors, environment and finalisation",
    "a signal is only sent while the command waits for its input",
]
REQUIRED = {
    "no_directory": 35,
    "failing_runs": 300, "encrypt_failures": 100, "decrypt_failures": 150, "controls_ok": 60, "existing_kept": 60, "missing_kept": 40,
    "in_place": 25, "held_back_probes": 25, "released_ok": 3, "withheld": 10, "signals": 12, "fresh_processes": 6, "late_damage": 36, "read_errors": 80,
}
MAX_JOBS = 8


def global_init():
    cli.build_shim()


def global_done():
    cli.drop_shim()


def worker_done():
    cli.stop()


IN = ["pipe", "file", "option", "option-"]
OUT = ["stdout", "stdout-file", "missing", "existing", "in-place", "dash", "symlink", "hardlink", "no-directory"]


class Setup:
    """input and output of one command; knows what has to be left alone"""

    def __init__(self, ctx, w, data, how_in=None, how_out=None):
        rng = ctx.rng
        self.ctx, self.w = ctx, w
        self.how_out = how_out or rng.choice(OUT)
        self.how_in = how_in or rng.choice(IN)
        if self.how_out == "in-place":
            self.how_in = "option"
        self.args, self.kw = [], {}
        src = None
        if self.how_in == "pipe":
            self.kw.update(stdin=data, stdin_via="pipe")
        elif self.how_in == "file":
            self.kw.update(stdin=data)
        elif self.how_in == "option":
            src = w.old(w.file(data, "input"))
            self.args += [rng.choice(["-i", "--infile"]), src]
        else:
            self.kw.update(stdin=data)
            self.args += ["-i", "-"]
        self.out_fd = None
        self.result = None
        if self.how_out == "stdout-file":
            p = w.old(w.file(b"previous content of the file\n" * 20, "redirected"))
            self.out_fd = os.open(p, os.O_WRONLY)
            self.kw["stdout"] = self.out_fd
        elif self.how_out == "missing":
            self.result = w.path("result.out")
        elif self.how_out == "no-directory":
            self.result = w.path(rng.choice(["no/result.out", "no/such/directory/result.out"]))
            ctx.count("no_directory")
        elif self.how_out == "existing":
            self.result = w.old(w.file(rng.choice([b"precious\n", b"", rng.randbytes(5000)]), "result.out"))
        elif self.how_out == "in-place":
            self.result = src
        elif self.how_out == "dash":
            self.result = "-"
        elif self.how_out == "symlink":
            t = w.old(w.file(b"target", "target"))
            self.result = w.path("link")
            os.symlink(t, self.result)
        elif self.how_out == "hardlink":
            t = w.old(w.file(b"target", "target"))
            self.result = w.path("link")
            os.link(t, self.result)
        if self.result:
            self.args += [rng.choice(["-o", "--outfile"]), self.result]

    def close(self):
        if self.out_fd is not None:
            os.close(self.out_fd)


def must_fail(ctx, w, s, what, args, **kw):
    """run, expect failure without a trace"""
    args = [args[0], *s.args, *args[1:]]
    before = w.snapshot()
    fresh = (ctx.rng.random() < 0.04 or what == "directory-stdin") and "rshim" not in kw
    r = cli.run(args, w.home, fresh=fresh, **{**s.kw, **kw})
    after = w.snapshot()
    s.close()
    d = dict(cause=what, args=args, input=s.how_in, output=s.how_out, stderr=r.err[-600:], code=r.code)
    ctx.check(r.code != 0, f"{args[0]} exited with status 0 although it failed ({what})", **d)
    ctx.check(r.out == b"", f"failing {args[0]} wrote to standard output ({what})", out=r.out[:100], **d)
    for p in sorted(set(before) | set(after)):
        ctx.check(p in after, f"failing {args[0]} removed a file ({what})", path=p, **d)
        ctx.check(p in before, f"failing {args[0]} created a file ({what})", path=p, content=after[p][2], **d)
        ctx.check(before[p] == after[p], f"failing {args[0]} touched a file ({what})", path=p, before=before[p], after=after[p], **d)
    ctx.count("failing_runs")
    ctx.count(args[0] + "_failures")
    ctx.count({"missing": "missing_kept", "in-place": "in_place"}.get(s.how_out, "stdout_empty" if s.how_out in ("stdout", "dash") else "existing_kept"))
    ctx.count("fresh_processes", int(fresh))
    ctx.eval((args[0], what, s.how_in, s.how_out, "-a" in args))
    ctx.sample(cause=what, args=args, exit=r.code)
    return r


# ---------------------------------------------------------------------- encrypt
ECAUSES = [
    "no-recipient", "unknown-name", "bad-checksum", "low-order", "mixed-case", "alias-bad-member", "alias-empty", "missing-file", "empty-file",
    "file-without-keys", "url-refused", "ecdsa-key", "ssh-low-order", "small-rsa", "secret-key", "directory-stdin", "write-only-stdin", "missing-input", "closed-stdin",
    "password-eof", "password-abort", "bad-option", "truncated-ssh", "directory-input", "truncated-key",
]


def one_encrypt(ctx, w, cause):
    rng = ctx.rng
    pt = gen.plain(rng, maximum=70_000)
    good = [cli_party(rng, ("x25519", "ssh-ed25519", "ssh-rsa")).cli_recipient for _ in range(rng.choice([0, 0, 1, 2]))]
    bad, kw = None, {}
    s = Setup(ctx, w, pt)
    key = XParty(hostile32(rng))
    opts = rng.choice([[], ["-a"]])
    if cause == "no-recipient":
        good = []
    elif cause == "unknown-name":
        bad = rng.choice(["nobody", "age1", "ssh-rsa", "me@example.org", " ", "AGE1", "./x", "github:"])
    elif cause == "bad-checksum":
        k = key.cli_recipient
        i = rng.randrange(4, len(k))
        bad = k[:i] + rng.choice([c for c in "qpzry9x8gf2tvdw0s3jn54khce6mua7l" if c != k[i]]) + k[i + 1 :]
    elif cause == "mixed-case":
        k = key.cli_recipient
        bad = k[:10] + k[10:].upper()
    elif cause == "truncated-key":
        bad = key.cli_recipient[: rng.randrange(4, 61)]
    elif cause == "low-order":
        bad = ref.pub_string(rng.choice(ref.LOW_ORDER))
    elif cause == "secret-key":
        bad = ref.priv_string(key.sk)
    elif cause in ("alias-bad-member", "alias-empty"):
        members = [] if cause == "alias-empty" else [key.cli_recipient, "doesnotexist" + str(rng.randrange(100))]
        rng.shuffle(members)
        w.file("team: " + " ".join(members) + "\n", ".config/age/aliases.txt")
        bad = "team"
    elif cause == "missing-file":
        bad = w.path("no/such/file")
    elif cause == "empty-file":
        bad = w.file(b"")
    elif cause == "file-without-keys":
        bad = w.file(rng.choice([b"# nothing\n\n", b"\xff\xfe\x00\n", b"hello world\n"]))
    elif cause == "url-refused":
        bad = "http://127.0.0.1:1/keys"
    elif cause == "ecdsa-key":
        bad = "ecdsa-sha2-nistp256 AAAAE2VjZHNhLXNoYTItbmlzdHAyNTYAAAAIbmlzdHAyNTYAAABBBPmd"
    elif cause == "truncated-ssh":
        k = cli_party(rng, ("ssh-ed25519", "ssh-rsa")).cli_recipient
        bad = k[: rng.randrange(12, len(k) - 4)]
    elif cause == "ssh-low-order":
        import base64

        pk = rng.choice([b"\x01" + bytes(31), b"\xec" + b"\xff" * 30 + b"\x7f", bytes(32)])
        bad = "ssh-ed25519 " + base64.b64encode(ref.ed_wire(pk)).decode()
    elif cause == "small-rsa":
        import base64

        n = (1 << 511) | (rng.getrandbits(510) << 1) | 1
        bad = "ssh-rsa " + base64.b64encode(ref.rsa_wire(n, 65537)).decode()
    elif cause == "directory-stdin":
        s = Setup(ctx, w, pt, "pipe", rng.choice([o for o in OUT if o != "in-place" and o != s.how_out and o not in ("symlink", "hardlink", "stdout-file")]))
        s.kw = {**{k: v for k, v in s.kw.items() if k == "stdout"}, "stdin": w.home}
    elif cause == "write-only-stdin":
        s = Setup(ctx, w, pt, "pipe", rng.choice(["stdout", "missing", "existing"]))
        fd = os.open("/dev/null", os.O_WRONLY)
        s.kw = {"stdin": fd}
        s.fd = fd
    elif cause == "closed-stdin":
        s = Setup(ctx, w, pt, "pipe", rng.choice(["stdout", "missing", "existing"]))
        s.kw = {"stdin": None}
    elif cause in ("missing-input", "directory-input"):
        s = Setup(ctx, w, pt, "pipe", rng.choice(["stdout", "missing", "existing"]))
        s.args += ["-i", w.path("no-such-input") if cause == "missing-input" else w.home]
    elif cause in ("password-eof", "password-abort"):
        opts = [*opts, "-p"]
        kw["passphrase"] = "\x04" if cause == "password-eof" else "half\x03"
    elif cause == "bad-option":
        opts = [*opts, rng.choice(["--no-such-option", "-z", "-i"])]
        if opts[-1] == "-i":
            good, key = [], None
    if cause in ("directory-stdin", "write-only-stdin", "closed-stdin", "missing-input", "directory-input", "bad-option") and key and not good:
        good = [key.cli_recipient]
    rec = list(good)
    if bad is not None:
        rec.insert(rng.randrange(len(rec) + 1), bad)
    if opts and opts[-1] == "-i":
        args = ["encrypt", *rec, *opts]
    else:
        args = ["encrypt", *opts, *rec] if rng.random() < 0.5 and "-o" not in rec else ["encrypt", *rec, *opts]
    try:
        must_fail(ctx, w, s, cause, args, **kw)
    finally:
        if hasattr(s, "fd"):
            os.close(s.fd)


def encrypt_failures(ctx):
    for i in range(4):
        one_encrypt(ctx, World(ctx, f"h{i}"), ECAUSES[(ctx.idx * 4 + i) % len(ECAUSES)])
    # control: the same kind of command succeeds
    w = World(ctx, "control")
    p = cli_party(ctx.rng, ("x25519", "ssh-ed25519"))
    s = Setup(ctx, w, b"data", None, ctx.rng.choice(OUT[:-1]))
    r = cli.run(["encrypt", *s.args, p.cli_recipient], w.home, **s.kw)
    ctx.check(r.code == 0, "control encryption failed", result=r)
    ctx.count("controls_ok")
    s.close()


# ---------------------------------------------------------------------- decrypt
DCAUSES = [
    "no-keys", "no-match", "damage", "damage", "damage", "last-chunk", "last-chunk", "forged-mac", "forged-payload", "armor-missing", "armor-unexpected", "armor-damage", "armor-damage", "armor-two",
    "armor-none", "armor-label", "malformed-keys", "missing-keys", "malformed-default", "wrong-passphrase", "work-factor", "low-order-share", "trailing",
    "directory-stdin", "write-only-stdin", "missing-input", "password-eof", "trailing-file", "header-line", "armored-damage",
]


def one_decrypt(ctx, w, cause, control):
    rng = ctx.rng
    big = cause in ("last-chunk", "trailing") or rng.random() < 0.3
    pt = gen.plain(rng, maximum=4 * C if big else 3000)
    if cause == "last-chunk" and len(pt) <= C:
        pt = pt + rng.randbytes(2 * C)
    p = cli_party(rng, ("x25519", "x25519", "ssh-ed25519", "ssh-rsa"))
    others = gen.parties(rng, rng.choice([0, 0, 1, 2]), ("x25519", "ssh-ed25519"))
    group = [*others, p]
    rng.shuffle(group)
    fk = rng.randbytes(16)
    data = ref.encrypt(fk, rng.randbytes(16), [q.wrap(rng, fk) for q in group], pt)
    good = data
    opts, kw = [], {}
    armored = rng.random() < 0.3 and not cause.startswith("armor")
    keys = []
    give = cause not in ("no-keys", "no-match", "wrong-passphrase", "missing-keys")
    if give:
        keys, _ = w.give(p)
    if cause == "no-match" or rng.random() < 0.2 and cause != "no-keys":
        w.ssh(cli_party(rng, ("ssh-ed25519", "ssh-rsa")), "id_other")
        keys = [*keys, w.key_file([XParty(rng.randbytes(32))])]
        rng.shuffle(keys)
    what = cause
    text = None
    how_in = None
    s = None
    if cause in ("damage", "armored-damage"):
        op, data = damage(rng, data)
        what = f"damage:{op}"
        armored = armored or cause == "armored-damage"
    elif cause == "last-chunk":
        b = bytearray(data)
        b[len(b) - 1 - rng.randrange(min(16 + len(pt) % C, len(b)))] ^= 1 << rng.randrange(8)
        data = bytes(b)
    elif cause == "trailing":
        data += rng.choice([b"\n", b"\0", rng.randbytes(16), rng.randbytes(C + 16), data])
    elif cause == "trailing-file":
        data += data
    elif cause == "forged-mac":
        sts = ref.parse_header(data)[0]
        data = ref.build_header(sts, rng.randbytes(16)) + data[ref.parse_header(data)[3] :]
    elif cause == "forged-payload":
        fk2 = rng.randbytes(16)
        other = ref.encrypt(fk2, rng.randbytes(16), [p.wrap(rng, fk2)], pt)
        data = data[: ref.parse_header(data)[3]] + other[ref.parse_header(other)[3] :]
    elif cause == "header-line":
        i = data.index(b"\n") + 1
        data = data[:i] + rng.choice([b"\n", b"-> x\n\n", b"-> grease\nAAAA\n", b" \n", b"#\n"]) + data[i:]
    elif cause == "armor-missing":
        opts = ["-a"]
        text = data
    elif cause == "armor-unexpected":
        text = ref.armor(data).encode()
    elif cause == "armor-damage":
        t = ref.armor(data)
        lines = t.split("\n")
        i = rng.randrange(1, len(lines) - 2)
        op = rng.choice(["no-end", "no-begin", "short-line", "bad-char", "label", "truncated", "long-line", "split-line"])
        what += ":" + op
        if op == "no-end":
            lines = lines[:-2]
        elif op == "no-begin":
            lines = lines[1:]
        elif op == "short-line":
            lines[1] = lines[1][:-4]
            if len(lines) == 4:
                lines[1] = lines[1][:-3]
        elif op == "bad-char":
            lines[i] = "!" + lines[i][1:]
        elif op == "label":
            lines[-2] = "-----END AGE FILE-----"
        elif op == "truncated":
            lines = t[: rng.randrange(40, len(t) - 30)].split("\n")
        elif op == "long-line":
            lines[i] = lines[i] + "AAAA" * 17
        elif op == "split-line":
            lines[1:2] = [lines[1][:8], lines[1][8:]]
        text = "\n".join(lines).encode()
        opts = ["-a"]
    elif cause == "armor-two":
        text = (ref.armor(data) * 2).encode() if rng.random() < 0.5 else (ref.armor(data) + ref.armor(ref.encrypt(fk, rng.randbytes(16), [p.wrap(rng, fk)], b"x"))).encode()
        opts = ["-a"]
    elif cause == "armor-none":
        text = rng.choice([b"", b"\n", b"just text\n", rng.randbytes(50)])
        opts = ["-a"]
    elif cause == "armor-label":
        text = ref.armor(data, rng.choice(["MESSAGE", "AGE ENCRYPTED FILE 2", "age encrypted file"])).encode()
        opts = ["-a"]
    elif cause == "malformed-keys":
        bad = rng.choice(["garbage\n", ref.priv_string(rng.randbytes(32))[:-1] + "\n", ref.pub_string(rng.randbytes(32)) + "\n", "AGE-SECRET-KEY-1\n"])
        keys.insert(rng.randrange(len(keys) + 1), w.file(bad))
    elif cause == "missing-keys":
        keys.insert(rng.randrange(len(keys) + 1), w.path("no-such-keys"))
    elif cause == "malformed-default":
        w.file("what is this\n", ".config/age/keys.txt")
    elif cause in ("wrong-passphrase", "work-factor"):
        pw = rng.choice(TEXT_PASSWORDS)
        q = gen.PParty(pw.encode())
        st = q.wrap(rng, fk, rng.randrange(1, 8))
        if cause == "work-factor":
            st.args[1] = rng.choice(["23", "64", "-1", "0x10", "", "018", "1e1", "99999999999"])
        data = ref.encrypt(fk, rng.randbytes(16), [st], pt)
        opts = ["-p"]
        kw["passphrase"] = pw if cause == "work-factor" else pw + rng.choice(["x", " ", "\u0301"])
        keys = []
    elif cause == "low-order-share":
        st = ref.wrap_x25519(fk, p.pk if hasattr(p, "sk") else bytes([9]) + bytes(31), rng.randbytes(32))
        share = rng.choice(ref.LOW_ORDER)
        st.args[0] = ref.b64(share)
        data = ref.encrypt(fk, rng.randbytes(16), [st], pt)
    elif cause == "password-eof":
        opts = ["-p"]
        kw["passphrase"] = "\x04"
    if armored and text is None:
        text = ref.armor(data).encode()
        opts = [*opts, "-a"]
    payload = data if text is None else text
    s = Setup(ctx, w, payload)
    if cause == "directory-stdin":
        s = Setup(ctx, w, payload, "pipe", "missing" if s.how_out != "missing" else "dash")
        s.kw = {"stdin": w.home}
    elif cause == "write-only-stdin":
        s = Setup(ctx, w, payload, "pipe", "missing" if s.how_out != "missing" else "dash")
        s.fd = os.open("/dev/null", os.O_WRONLY)
        s.kw = {"stdin": s.fd}
    elif cause == "missing-input":
        s = Setup(ctx, w, payload, "pipe", "missing" if s.how_out != "missing" else "dash")
        s.args += ["-i", w.path("no-such-input")]
    args = ["decrypt", *opts, *keys] if rng.random() < 0.5 else ["decrypt", *keys, *opts]
    try:
        must_fail(ctx, w, s, what, args, **kw)
    finally:
        if hasattr(s, "fd"):
            os.close(s.fd)
    if control and give and cause != "malformed-default":
        # the undamaged file under the same identities succeeds: the failure was the damage's
        keys2, pw = w.give(p)
        r = cli.run(["decrypt", *keys2], w.home, stdin=good)
        ctx.check(r.code == 0 and r.out == pt, "control decryption failed", result=r, cause=what)
        ctx.count("controls_ok")


def decrypt_failures(ctx):
    for i in range(5):
        one_decrypt(ctx, World(ctx, f"h{i}"), DCAUSES[(ctx.idx * 5 + i) % len(DCAUSES)], control=i == ctx.idx % 5 or i == (ctx.idx + 2) % 5)


# ---------------------------------------------------------------------- nothing before the end was seen
def held_back(ctx):
    rng = ctx.rng
    w = World(ctx)
    p = cli_party(rng, ("x25519", "ssh-ed25519"))
    pt = gen.plain(rng, rng.choice([0, 1, 100, C - 1, C, C + 1, 2 * C, 3 * C + 5, 300_000]))
    data = gen.ref_file(rng, [p], pt)
    keys, _ = w.give(p)
    armored = rng.random() < 0.4
    text = ref.armor(data).encode() if armored else data
    hold = rng.choice([1, 1, 2, 16, 17, 100, C // 2, C + 17])
    hold = min(hold, len(text))
    if armored:
        hold = max(hold, 12)  # within the END line there may be nothing left to miss
    finish = rng.choice(["complete", "cut", "wrong", "extra", "signal"])
    s = Setup(ctx, w, text, "pipe", rng.choice(["stdout", "stdout-file", "missing", "existing", "dash", "symlink"]))
    before = w.snapshot()
    seen = []

    def probe(data):
        time.sleep(0.12)
        ctx.check(not data["stdout"], "plaintext released before the input was complete", out=data["stdout"][:80], held_back=hold)
        ctx.equal(w.snapshot(), before, "output touched before the input was complete", held_back=hold)
        seen.append(1)
        ctx.count("held_back_probes")

    steps = [("send", text[: len(text) - hold]), ("drain",), ("probe", probe)]
    rest = text[len(text) - hold :]
    sig = None
    if finish == "complete":
        steps += [("send", rest), ("eof",)]
    elif finish == "cut":
        steps += [("eof",)]
    elif finish == "wrong":
        b = bytearray(rest)
        b[-1 if not armored else rng.randrange(len(b) - 11) if len(b) > 11 else 0] ^= 1
        steps += [("send", bytes(b)), ("eof",)]
    elif finish == "extra":
        steps += [("send", rest), ("send", b"x" if not armored else text), ("eof",)]
    else:
        sig = rng.choice([signal.SIGINT, signal.SIGTERM, signal.SIGHUP])
        steps += [("kill", sig), ("wait", 0.05), ("eof",)]
    kw = {**s.kw, "steps": steps}
    r = cli.run(["decrypt", *s.args, *(["-a"] if armored else []), *keys], w.home, **kw)
    after = w.snapshot()
    s.close()
    ctx.check(seen, "probe did not run")
    d = dict(finish=finish, output=s.how_out, armored=armored, held_back=hold, result=r)
    if finish == "complete":
        ctx.check(r.code == 0, "complete input was refused", **d)
        got = r.out if s.how_out in ("stdout", "dash") else open(s.result or w.path("redirected"), "rb").read()
        if s.how_out == "stdout-file":
            got = got[: len(pt)]
        ctx.equal(got, pt, "output of a slowly fed command", **d)
        ctx.count("released_ok")
    else:
        ctx.check(r.code != 0, "incomplete or altered input: exit status 0", **d)
        ctx.check(r.out == b"", "incomplete or altered input: output on standard output", **d)
        ctx.equal(after, before, "incomplete or altered input: files touched", **d)
        ctx.count("withheld")
        ctx.count("signals", int(finish == "signal"))
    ctx.eval(("held", finish, s.how_out, armored, hold, len(pt)))
    ctx.sample(finish=finish, output=s.how_out, held_back=hold, size=len(pt))


def interrupted_encrypt(ctx):
    rng = ctx.rng
    for _ in range(2):
        w = World(ctx, f"h{_}")
        p = cli_party(rng, ("x25519", "ssh-ed25519"))
        s = Setup(ctx, w, b"", "pipe", rng.choice(["stdout", "stdout-file", "missing", "existing", "dash", "symlink"]))
        before = w.snapshot()
        sig = rng.choice([signal.SIGINT, signal.SIGTERM, signal.SIGHUP])

        def probe(data):
            time.sleep(0.05)
            ctx.check(not data["stdout"], "encrypt wrote output before its input was complete")

        steps = [("send", gen.plain(rng, maximum=200_000) or b"x"), ("drain",), ("probe", probe), ("kill", sig), ("wait", 0.05), ("eof",)]
        kw = {**s.kw, "steps": steps}
        r = cli.run(["encrypt", *s.args, *rng.choice([[], ["-a"]]), p.cli_recipient], w.home, **kw)
        s.close()
        ctx.check(r.code != 0, "interrupted encrypt: exit status 0", result=r)
        ctx.check(r.out == b"", "interrupted encrypt: output on standard output", result=r)
        ctx.equal(w.snapshot(), before, "interrupted encrypt: files touched", output=s.how_out)
        ctx.count("signals")
        ctx.eval(("interrupt", sig, s.how_out))


def late_sizes(rng):
    r = rng.random()
    if r < 0.3:
        return gen.number(rng, 300_000, 24 << 20, 1 << 20)
    return rng.choice([1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24]) + rng.choice([-1, 0, 1, 1000, rng.randrange(1 << 19)])


def late_damage(ctx):
    """inputs of many megabytes which are wrong near their end only"""
    rng = ctx.rng
    w = World(ctx)
    size = late_sizes(rng)
    p = cli_party(rng, ("x25519", "ssh-ed25519"))
    pt = rng.randbytes(1 << 16) * (size >> 16) + rng.randbytes(size & 0xFFFF)
    data = gen.ref_file(rng, [p], pt)
    keys, _ = w.give(p)
    chunks = -(-size // C)
    for k in range(3):
        w = World(ctx, f"h{k}")
        keys, _ = w.give(p)
        how = rng.choice(["flip-last", "flip-late", "cut-1", "cut-chunk", "cut-late", "extend", "swap", "drop"])
        b = bytearray(data)
        start = len(b) - chunks * 16 - size  # of the payload's chunks
        at = start + rng.randrange(chunks * 2 // 3, chunks) * (C + 16)
        if how == "flip-last":
            b[-1 - rng.randrange(16)] ^= 1
        elif how == "flip-late":
            b[at + rng.randrange(16)] ^= 1 << rng.randrange(8)
        elif how == "cut-1":
            del b[-1:]
        elif how == "cut-chunk":
            del b[at:]
        elif how == "cut-late":
            del b[at + rng.randrange(1, 16) :]
        elif how == "extend":
            b += rng.choice([b"\n", rng.randbytes(C + 16)])
        elif how == "drop":
            del b[at - C - 16 : at]
        else:
            b[at - C - 16 : at] = b[at - 2 * C - 32 : at - C - 16]
        armored = rng.random() < 0.25
        text = ref.armor(bytes(b)).encode() if armored else bytes(b)
        s = Setup(ctx, w, text)
        must_fail(ctx, w, s, "late " + how, ["decrypt", *(["-a"] if armored else []), *keys])
        ctx.count("late_damage")
        ctx.eval(("late", how, size, s.how_out, armored))
    s = Setup(ctx, w, data, "file", "stdout")
    r = cli.run(["decrypt", *keys], w.home, stdin=data)
    ctx.check(r.code == 0 and r.out == pt, "control decryption of a big file failed", code=r.code, err=r.err[-300:], size=size)
    ctx.count("controls_ok")


def read_errors(ctx):
    """reading the input fails after some bytes: nothing is released; short and interrupted reads change nothing"""
    import errno

    rng = ctx.rng
    for k in range(4):
        w = World(ctx, f"h{k}")
        cmd = ["encrypt", "decrypt"][(ctx.idx + k) % 2]
        p = cli_party(rng, ("x25519", "ssh-ed25519"))
        pt = gen.plain(rng, maximum=rng.choice([300, 300_000]))
        if cmd == "encrypt":
            data, args = pt, ["encrypt", *rng.choice([[], ["-a"]]), p.cli_recipient]
        else:
            keys, _ = w.give(p)
            data, args = gen.ref_file(rng, [p], pt), ["decrypt", *keys]
            if rng.random() < 0.3:
                data, args = ref.armor(data).encode(), [*args, "-a"]
        s = Setup(ctx, w, data, rng.choice(["file", "option", "option-"]))
        ino = os.stat(w.path("input")).st_ino if s.how_in == "option" else 0
        after = rng.choice([0, 1, len(data), len(data) // 2, max(0, len(data) - 1), rng.randrange(len(data) + 1), 8192, C])
        after = min(after, len(data))
        e = rng.choice([errno.EIO, errno.EIO, errno.EBADF, errno.ENXIO, errno.EINVAL, errno.EISDIR])
        piece = rng.choice([-1, -1, 1000, 4096])
        must_fail(ctx, w, s, f"read error {errno.errorcode[e]} after {after} of {len(data)}", args, rshim=[ino, after, piece, e, int(rng.random() < 0.3)])
        ctx.count("read_errors")
        ctx.eval(("read", cmd, s.how_in, s.how_out, after, e, piece, len(data)))


def families(tier):
    k = 1 if tier == "quick" else 12
    return [("encrypt", 50 * k, encrypt_failures), ("decrypt", 78 * k, decrypt_failures), ("held-back", 48 * k, held_back), ("interrupt", 12 * k, interrupted_encrypt),
            ("late", 12 * k, late_damage), ("read-errors", 20 * k, read_errors)]
