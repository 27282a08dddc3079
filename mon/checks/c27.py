"""C27 terminals receive no ciphertext and show no passphrase"""
import contextlib
import os
import pty
import select
import termios
import time

from mon import cli, gen, ref
from mon.core import CASE_RNG, REPO, Inconclusive
from mon.gen import EParty, PParty, XParty
from mon.world import World, cli_party

OPTIMIZED_EVERY = 0  # the whole run has been tried without assertions; nothing in it depends on them
PROPERTY = "C27"
RULE = (
    "a case = encrypt / decrypt / generate processes with a pseudo-terminal in the place of some or all of controlling terminal, standard "
    "input, standard output and standard error, with passphrases and data typed on it, interrupted or ended there; what the terminal "
    "received, its settings before and after, the exit status, the output and all files are judged; distinct = (command, channels on the "
    "terminal, options, what was typed)"
)
ASSUMPTIONS = ["the line discipline of Linux pseudo-terminals; passphrases are typed once the program switched the echo off (or half a second after its prompt)"]
REQUIRED = {
    "refused": 60, "refused_armored": 20, "refused_with_prompt": 10, "refused_devices": 10, "control": 40, "typed_passphrases": 60, "not_shown": 60, "settings_restored": 100,
    "interrupted": 12, "ended": 6, "typed_data": 10, "shown_plaintext": 10, "generated_on_terminal": 6, "piped_decoy": 8, "retyped": 4, "silent_terminals": 15,
}


def global_init():
    cli.build_shim()


def global_done():
    cli.drop_shim()


def worker_done():
    cli.stop()


class Shown:
    pass


def asleep(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rpartition(")")[2].split()[0] == "S"
    except OSError:
        return False


def session(args, home, on, typed=(), stdin=None, ctty=True, unbuffered=False, limit=60, opost=False, fresh=False, module=None):
    """on: which standard streams are the terminal; typed: what is typed, in order:

    ('secret', text)  once the command asked for something and sleeps with the echo off (or with the echo on for half a second)
    ('data', text)    once the command sleeps with the echo on
    """
    if module is None:
        module = CASE_RNG.random() < 0.33
    env = {"PATH": "/usr/bin:/bin", "HOME": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONPATH": REPO + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "NO_PROXY": "*", "TERM": "xterm"}
    master, slave = pty.openpty()
    at = termios.tcgetattr(slave)
    if not opost:
        at[1] &= ~termios.OPOST
    silent = False
    if CASE_RNG.random() < 0.3:
        # settings other than the usual ones: they have to be the same afterwards
        for i, bit in ((0, termios.IXON), (0, termios.ICRNL), (0, termios.IXANY), (2, termios.HUPCL), (3, termios.ECHOE), (3, termios.ECHOK), (3, termios.ECHOCTL), (3, termios.ECHOKE), (3, termios.IEXTEN), (3, termios.ECHONL)):
            if CASE_RNG.random() < 0.4:
                at[i] ^= bit
        at[6][termios.VERASE] = CASE_RNG.choice([b"\x7f", b"\x08"])
        at[6][termios.VKILL] = CASE_RNG.choice([b"\x15", b"\x18"])
        silent = CASE_RNG.random() < 0.4
        if silent:
            at[3] &= ~termios.ECHO
    termios.tcsetattr(slave, termios.TCSANOW, at)
    before = termios.tcgetattr(slave)
    roles, mine, reading = {}, [], {master: "tty"}
    if ctty:
        roles["tty"] = slave
    for name in ("stdout", "stderr"):
        if name in on:
            roles[name] = slave
        else:
            r, w = os.pipe()
            roles[name] = w
            mine.append(w)
            reading[r] = name
    tmp = None
    if "stdin" in on:
        roles["stdin"] = slave
    else:
        r, w = os.pipe()
        roles["stdin"] = r
        mine.append(r)
        tmp = [w, stdin or b""]
        os.set_blocking(w, False)
    data = {"stdout": b"", "stderr": b"", "tty": b""}
    if fresh:
        pid, wait = cli._fresh(args, roles, home, env, unbuffered, None, 0o022, module)
        ended = os.pidfd_open(pid)
    else:
        z = cli.zygote()
        pid = z.start({"args": list(args), "fds": list(roles), "env": env, "cwd": home, "unbuffered": unbuffered, "umask": 0o022, "module": module}, [roles[k] for k in roles])
        wait, ended = z.read, z.s.fileno()
    for fd in mine:
        os.close(fd)
    typed = list(typed)
    t_end = time.monotonic() + limit
    slept = quiet = last = time.monotonic()
    asked = 0  # what the terminal had received when the last answer was typed
    over = False
    try:
        while True:
            now = time.monotonic()
            if now - last > 5:
                # the whole machine stood still
                t_end += now - last
            last = now
            if now > t_end:
                raise Inconclusive(f"command did not finish in {limit} s: {args}")
            wl = [tmp[0]] if tmp else []
            rl, wr, _ = select.select([*reading, *([] if over else [ended])], wl, [], 0.02)
            if ended in rl:
                over = True
                rl.remove(ended)
            for fd in rl:
                try:
                    b = os.read(fd, 1 << 16)
                except OSError:
                    b = b""
                quiet = time.monotonic()
                if not b:
                    if fd != master:
                        os.close(fd)
                    del reading[fd]
                    continue
                data[reading[fd]] += b
            if wr:
                try:
                    n = os.write(tmp[0], tmp[1][:65536]) if tmp[1] else 0
                    tmp[1] = tmp[1][n:]
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    tmp[1] = b""
                if not tmp[1]:
                    os.close(tmp[0])
                    tmp = None
            if over and not rl and not [x for x in reading if x != master]:
                break
            if typed and not over:
                hidden = not termios.tcgetattr(slave)[3] & termios.ECHO
                what, text = typed[0]
                if (tmp and wr) or not asleep(pid):
                    slept = time.monotonic()
                waits = time.monotonic() - max(quiet, slept)
                if what == "secret":
                    ready = len(data["tty"] + data["stderr"]) > asked and waits > (0.05 if hidden and not silent else 0.5)
                else:
                    ready = hidden == silent and waits > (0.5 if silent else 0.15)
                if ready:
                    asked = len(data["tty"] + data["stderr"])
                    os.write(master, text.encode() if isinstance(text, str) else text)
                    typed.pop(0)
                    quiet = time.monotonic()
    except BaseException:
        with contextlib.suppress(OSError):
            os.kill(pid, 9)
        wait()
        raise
    finally:
        after = termios.tcgetattr(slave)
        for fd in (master, slave, *[x for x in reading if x != master]):
            os.close(fd)
        if tmp:
            os.close(tmp[0])
        if fresh:
            os.close(ended)
    s = Shown()
    s.code = wait()
    if s.code in (198, 199):
        raise RuntimeError("child could not be set up")
    s.silent = silent
    s.tty, s.out, s.err, s.before, s.after, s.untyped, s.args = data["tty"], data["stdout"], data["stderr"], before, after, typed, args
    return s


Shown.__repr__ = lambda s: f"<exit {s.code}, terminal {s.tty[-300:]!r}, out {s.out[:80]!r}, err {s.err[-300:]!r}, not typed {s.untyped}>"


def secret(rng):
    alphabet = "abcdefghijkmnpqrstuvwxyz23456789"
    s = "".join(rng.choice(alphabet) for _ in range(rng.randrange(8, 20)))
    return rng.choice([s, s, s + " " + s[:3], "\u00e4" + s, s.upper() + "!", s + "\U0001f511"])


def restored(ctx, s, what):
    ctx.check(s.after == s.before, f"{what}: the settings of the terminal were not restored", before=s.before[:6], after=s.after[:6], result=s)
    ctx.count("settings_restored")
    ctx.count("silent_terminals", int(s.silent))


def no_ciphertext(ctx, s, where, text):
    for mark in (b"age-encryption.org", b"-----BEGIN", b"-----END", b"\n-> ", b"\n--- "):
        ctx.check(mark not in text, f"ciphertext was written to {where}", mark=mark, result=s)


def subset(rng, items, p=0.5):
    return [x for x in items if rng.random() < p]


def refused(ctx):
    """no output file, standard output is a terminal: encrypt refuses"""
    rng = ctx.rng
    for i in range(3):
        w = World(ctx, f"h{i}")
        parts = [cli_party(rng, ("x25519", "ssh-ed25519", "ssh-rsa")) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        prompt = rng.random() < (0.3 if parts else 1.0)
        armored = rng.random() < 0.5
        ctty = rng.random() < 0.8
        on = ["stdout", *subset(rng, ["stdin", "stderr"])]
        pt = rng.randbytes(rng.choice([0, 1, 100, 70_000]))
        pw = secret(rng)
        args = ["encrypt", *(["-p"] if prompt else []), *(["-a"] if armored else [])]
        decoy = b""
        if rng.random() < 0.35:
            args += ["-i", w.file(pt, "in")]
            if rng.random() < 0.3:
                os.symlink(args[-1], w.path("link"))
                args[-1] = "link"
        else:
            if "stdin" not in on:
                decoy = pt
            special = rng.choice([None, None, "-", "/dev/stdin", "/dev/fd/0", "/proc/self/fd/0"])
            if special:
                args += ["-i", special]
                ctx.count("refused_devices")
        if rng.random() < 0.2:
            args += ["-o", "-"]
        from_file = "-i" in args and args[args.index("-i") + 1] in ("link", w.path("in"))
        names = []
        for p in parts:
            names.append(p.cli_recipient if rng.random() < 0.7 else w.file(p.cli_recipient + "\n"))
        rng.shuffle(names)
        args += names
        before = w.snapshot()
        typed = [("secret", pw + "\n")] if prompt and ctty else []
        if "stdin" in on:
            typed += [("data", "typed text\n"), ("data", "\x04")]
        s = session(args, w.home, on, typed, stdin=decoy, ctty=ctty, unbuffered=rng.random() < 0.3, opost=rng.random() < 0.3, fresh=i == 0 and ctx.idx % 5 == 0)
        d = dict(args=args, terminal=on)
        ctx.check(s.code != 0, "encrypt to a terminal: exit status 0", result=s, **d)
        no_ciphertext(ctx, s, "the terminal", s.tty)
        if not prompt and "stderr" not in on and len(s.untyped) == 2 * ("stdin" in on):
            ctx.equal(s.tty, b"", "encrypt to a terminal: something was written to it", result=s, **d)
        ctx.check(pw.encode() not in s.tty + s.err, "the passphrase was shown", result=s, **d)
        ctx.equal(w.snapshot(), before, "encrypt to a terminal: files were touched", result=s, **d)
        restored(ctx, s, "refused encryption")
        ctx.count("refused")
        ctx.count("refused_armored", int(armored))
        ctx.count("refused_with_prompt", int(prompt))
        ctx.eval(("refused", tuple(on), prompt, armored, ctty, len(parts), "-i" in args, "-o" in args))
        ctx.sample(args=args, terminal=on, exit=s.code)
        # the same with the output elsewhere
        if prompt and not ctty:
            continue
        to_file = "-o" not in args and rng.random() < 0.5
        on2 = [x for x in on if x != "stdout" or to_file]
        data = pt
        typed = [("secret", pw + "\n")] if prompt else []
        if "stdin" in on and not from_file:
            data = b"typed text\n"
            typed += [("data", "typed text\n"), ("data", "\x04")]
        s = session([args[0], *(["-o", "result"] if to_file else []), *args[1:]], w.home, on2, typed, stdin=decoy, ctty=ctty)
        ctx.check(s.code == 0, "encrypt with its output elsewhere failed", result=s, terminal=on2)
        no_ciphertext(ctx, s, "the terminal", s.tty)
        ct = open(w.path("result"), "rb").read() if to_file else s.out
        raw = ref.dearmor_strict(ct.decode()) if armored else ct
        for p in [*parts, *([PParty(pw.encode())] if prompt else [])]:
            ctx.equal(gen.ref_open(raw, p), data, "encrypted at a terminal", party=p, result=s)
        restored(ctx, s, "encryption")
        ctx.count("control")
        ctx.count("typed_data", int(data == b"typed text\n"))
        ctx.eval(("control", tuple(on2), prompt, armored, ctty, len(parts), to_file))


def setup(ctx, w, command, armored, pw, other=None):
    """-> arguments, input for standard input or None, judge(out bytes)"""
    rng = ctx.rng
    pt = gen.plain(rng, maximum=3000)
    if command == "encrypt":
        data = pt

        def judge(out, what, **d):
            raw = ref.dearmor_strict(out.decode()) if armored else out
            ctx.equal(gen.ref_open(raw, PParty(pw.encode())), pt, what, **d)

    else:
        data = gen.ref_file(rng, [PParty((other or pw).encode())], pt)
        if armored:
            data = ref.armor(data).encode()

        def judge(out, what, **d):
            ctx.equal(out, pt, what, **d)

    return data, judge


def typed(ctx):
    """passphrases are typed on the controlling terminal, whatever the standard streams are"""
    rng = ctx.rng
    for i in range(3):
        w = World(ctx, f"h{i}")
        command = rng.choice(["encrypt", "decrypt"])
        armored = rng.random() < 0.4
        pw = secret(rng)
        fate = rng.choice(["right", "right", "right", "interrupt", "eof", "wrong", "empty-first", "interrupt-late"])
        wrong = command == "decrypt" and fate == "wrong"
        data, judge = setup(ctx, w, command, armored, pw, secret(rng) if wrong else None)
        to_file = rng.random() < 0.5
        on = subset(rng, ["stdin", "stdout", "stderr"], 0.4)
        if command == "encrypt" and not to_file:
            on = [x for x in on if x != "stdout"]
        piped = "stdin" not in on and rng.random() < 0.6
        args = [command, "-p", *(["-a"] if armored else [])]
        decoy = b"decoy passphrase\n" * 3 if not piped and "stdin" not in on else data
        if not piped:
            args += ["-i", w.file(data, "in")]
        if to_file:
            args += ["-o", w.old(w.file(b"x" * rng.randrange(5000), "result")) if rng.random() < 0.5 else w.path("result")]
        # more ways to open or write the file do not matter
        if rng.random() < 0.3:
            p = XParty(rng.randbytes(32))
            args.append(p.cli_recipient if command == "encrypt" else w.key_file([p]))
        before = w.snapshot()
        keys = {
            "interrupt": [("secret", "\x03")], "eof": [("secret", "\x04")], "empty-first": [("secret", "\n"), ("secret", pw + "\n")],
            "interrupt-late": [("secret", pw[:4]), ("secret", "\x03")],
        }.get(fate, [("secret", pw + "\n")])
        if fate == "interrupt-late":
            keys = [("secret", pw[:4] + "\x03")]
        s = session(args, w.home, on, keys, stdin=decoy, unbuffered=rng.random() < 0.3, fresh=i == 0 and ctx.idx % 5 == 0)
        d = dict(result=s, terminal=on, fate=fate)
        for name, text in (("the terminal", s.tty), ("standard error", s.err)):
            ctx.check(pw.encode() not in text, f"the passphrase was shown on {name}", **d)
            ctx.check(pw.encode("utf-8")[-5:] not in text, f"a part of the passphrase was shown on {name}", **d)
        ctx.check(not (fate == "interrupt-late" and pw[:4].encode() in s.tty), "a part of the passphrase was shown on the terminal", **d)
        ctx.count("not_shown")
        restored(ctx, s, "passphrase prompt")
        if fate in ("interrupt", "eof", "interrupt-late") or wrong:
            ctx.check(s.code != 0, "no passphrase, or a wrong one: exit status 0", **d)
            ctx.equal(s.out, b"", "no passphrase, or a wrong one: output", **d)
            ctx.equal(w.snapshot(), before, "no passphrase, or a wrong one: files were touched", **d)
            if command == "encrypt":
                no_ciphertext(ctx, s, "the terminal", s.tty)
            ctx.count("interrupted", int(fate.startswith("interrupt")))
            ctx.count("ended", int(fate == "eof"))
        else:
            ctx.check(s.code == 0 and not s.untyped, "a command with a typed passphrase failed", **d)
            if "stdout" in on and not to_file:
                # between the prompt and messages
                ctx.check(plaintext_of(data, pw, armored) in s.tty, "the plaintext is not on the terminal", **d)
            else:
                judge(open(w.path("result"), "rb").read() if to_file else s.out, "result with a typed passphrase", **d)
            ctx.count("typed_passphrases")
            ctx.count("retyped", int(fate == "empty-first"))
            ctx.count("piped_decoy", int(decoy is not data and "stdin" not in on))
        ctx.eval(("typed", command, tuple(on), armored, fate, piped, to_file))
        ctx.sample(args=args, terminal=on, fate=fate, exit=s.code, shown=s.tty)


def plaintext_of(data, pw, armored):
    raw = ref.dearmor_strict(data.decode()) if armored else data
    return gen.ref_open(raw, PParty(pw.encode()))


def allowed(ctx):
    """decrypt and generate may write to terminals: what they show is exact"""
    rng = ctx.rng
    for i in range(2):
        w = World(ctx, f"h{i}")
        p = rng.choice([XParty(rng.randbytes(32)), EParty(rng.randbytes(32))])
        pt = gen.plain(rng, maximum=rng.choice([3000, 100_000]))
        ct = gen.ref_file(rng, [p], pt)
        extra, _ = w.give(p)
        armored = rng.random() < 0.5
        if armored:
            ct = ref.armor(ct).encode()
        on = ["stdout", *subset(rng, ["stdin"])]
        bad = rng.random() < 0.3
        if bad:
            b = bytearray(ct)
            # (not the last four characters of the text: unused bits)
            k = rng.randrange(len(b) - 63, len(b) - 39) if armored else len(b) - 1
            b[k] = 66 if b[k] == 65 else 65
            ct = bytes(b)
        piped = "stdin" not in on and rng.random() < 0.5
        args = ["decrypt", *(["-a"] if armored else []), *([] if piped else ["-i", w.file(ct)]), *extra]
        s = session(args, w.home, on, stdin=ct if piped else b"", unbuffered=rng.random() < 0.3, ctty=rng.random() < 0.5)
        if bad:
            ctx.check(s.code != 0, "a damaged file at a terminal: exit status 0", result=s)
            ctx.equal(s.tty, b"", "a damaged file: something was shown", result=s)
        else:
            ctx.check(s.code == 0, "decrypt to a terminal failed", result=s)
            ctx.equal(s.tty, pt, "decrypted to a terminal", result=s)
            ctx.count("shown_plaintext")
        restored(ctx, s, "decrypt")
        ctx.eval(("shown", tuple(on), armored, bad, piped, len(pt)))
    w = World(ctx, "g")
    on = ["stdout", *subset(rng, ["stdin", "stderr"], 0.3)]
    s = session(["generate"], w.home, on, ctty=rng.random() < 0.5, unbuffered=rng.random() < 0.3)
    ctx.check(s.code == 0, "generate on a terminal failed", result=s)
    lines = [x for x in s.tty.decode().split("\n") if x.startswith("AGE-SECRET-KEY-")]
    ctx.check(len(lines) == 1, "generate on a terminal: no key, or several", result=s)
    ctx.check(b"AGE-SECRET-KEY" not in s.err, "private key on standard error", result=s)
    restored(ctx, s, "generate")
    ctx.count("generated_on_terminal")
    ctx.eval(("generated", tuple(on)))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("refused", 32 * k, refused), ("typed", 48 * k, typed), ("allowed", 16 * k, allowed)]
