"""C18 every combination of command-line options round-trips"""
import itertools
import os
import threading

from mon import cli, gen, ref
from mon.core import Violation
from mon.gen import XParty
from mon.world import TEXT_PASSWORDS, World, cli_party

PROPERTY = "C18"
RULE = (
    "a case = an encrypt process followed by decrypt processes with the corresponding options, as separate processes with real "
    "descriptors; the encrypted file is also opened by the independent reference and files of the reference are decrypted; "
    "distinct = (input mode, output mode, armor, recipient kinds, identity source, size class)"
)
ASSUMPTIONS = [
    "passphrases are typed on a pseudo-terminal, or given on standard input where there is no terminal",
    "most processes are forked from an interpreter with everything imported, some are started afresh",
]
REQUIRED = {
    "round_trips": 130, "armored": 60, "in_place_encrypt": 20, "in_place_decrypt": 20, "typed_passphrases": 30, "passphrase_on_stdin": 4, "default_key_file": 20,
    "ssh_directory": 30, "key_file_argument": 20, "reference_opened": 130, "fresh_processes": 6, "combos": 120, "reference_files": 20, "piped_chain": 6, "overwrote_longer": 15, "short_reads": 40, "needless_passphrases": 15, "as_module": 100, "no_terminal": 20, "large": 6, "special": 25,
}


def global_init():
    cli.build_shim()


def global_done():
    cli.drop_shim()


def worker_done():
    cli.stop()


INS = ["stdin-file", "stdin-pipe", "option", "dash"]
OUTS = ["stdout", "stdout-file", "option-new", "option-existing", "dash", "in-place"]
KINDS = ["x25519", "ssh-ed25519", "ssh-rsa", "scrypt", "mixed"]
COMBOS = list(itertools.product(INS, OUTS, [False, True], KINDS))


EXT = ["", ".age", ".asc", ".pem", ".txt", ".gpg", ".enc", ".gz", ".key", ".pub", ".b64", ".armor", ".bin", ".json", ".tmp", ".AGE", ".ASC", ".bak"]
STEMS = ["out", "a b", "\u00fcber", "[x]", "x*", "-out", "--", "~", "$HOME", "age", "keys", "plain:text", "id_rsa", "a'b", 'a"b', "new\nline", ".hidden", "%s", "http:", "stdin", "<stdout>", "..."]


def file_name(rng, w):
    """names of any kind: what a file is called never matters"""
    w.n += 1
    r = rng.random()
    if r < 0.3:
        return f"f{w.n}"
    if r < 0.45:
        return gen.token(rng).replace("/", "_").replace("\0", "")[:40] + f"{w.n}"
    if r < 0.6:
        return f"f{w.n}" + gen.token(rng).replace("/", "_").replace("\0", "")[:40]
    return rng.choice(STEMS) + str(w.n) * (rng.random() < 0.7) + rng.choice(EXT)


def command(ctx, w, head, opts, data, how_in, how_out, passphrase=None, fresh=False, after=()):
    """run with `data` as input -> output bytes"""
    rng = ctx.rng
    kw = {}
    io_args = []
    src = None
    if how_out == "in-place":
        how_in = "option"
    if how_in == "stdin-file":
        kw["stdin"] = data
    elif how_in == "stdin-pipe":
        kw.update(stdin=data, stdin_via="pipe")
        if rng.random() < 0.3 and data:
            k = rng.randrange(len(data) + 1)
            kw["steps"] = [("send", data[:k]), ("wait", 0.02), ("send", data[k:]), ("eof",)]
    elif how_in == "option":
        w.n += 1
        src = w.file(data, f"in{w.n}/" + file_name(rng, w))
        if rng.random() < 0.3:
            src = os.path.relpath(src, w.home)
        io_args += [[rng.choice(["-i", "--infile"]), src]]
        kw["stdin"] = rng.choice([b"", b"unrelated standard input"]) if passphrase is None else b""
    else:
        kw["stdin"] = data
        io_args += [["-i", "-"]]
    path, fd = None, None
    w.n += 1
    os.mkdir(w.path(f"to{w.n}"))
    name = f"to{w.n}/" + file_name(rng, w)
    if how_out == "option-new":
        path = w.path(name)
        if rng.random() < 0.2:
            path = os.path.relpath(path, w.home)
    elif how_out == "option-existing":
        path = w.file(rng.randbytes(rng.choice([0, 5, len(data) * 2 + 3000])), name)
        ctx.count("overwrote_longer", int(os.path.getsize(path) > len(data) + 2000))
    elif how_out == "in-place":
        path = src
    elif how_out == "dash":
        io_args += [["-o", "-"]]
    elif how_out == "stdout-file":
        full = w.path(name)
        fd = os.open(full, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        kw["stdout"] = fd
    if path:
        io_args += [[rng.choice(["-o", "--outfile"]), path]]
    parts = [*io_args, *opts]
    rng.shuffle(parts)
    pos = list(after)
    args = [x for p in parts for x in p]
    args = [head, *args, *pos] if rng.random() < 0.6 and not any(p.startswith("-") for p in pos) else [head, *pos, *args]
    if not fresh and rng.random() < 0.2:
        # reads deliver less than asked for, or are interrupted
        ino = os.stat(os.path.join(w.home, src)).st_ino if src else 0
        if src or kw.get("stdin"):
            kw["rshim"] = [ino, -1, rng.choice([-1, 1, 7, 100] if len(data) < 2000 else [-1, 1000, 4096, 65536]), 0, rng.randrange(2)]
            ctx.count("short_reads")
    kw["unbuffered"] = rng.random() < 0.15
    kw["umask"] = rng.choice([0o022, 0o077, 0o002, 0, 0o777])
    r = cli.run(args, w.home, passphrase=passphrase, fresh=fresh, **kw)
    ctx.count("as_module", int(r.module))
    if fd is not None:
        os.close(fd)
    ctx.check(r.code == 0, f"{head} failed", result=r, stderr=r.err[-700:], input=how_in, output=how_out)
    if how_out in ("stdout", "dash"):
        out = r.out
    else:
        ctx.check(r.out == b"", f"{head} wrote to standard output although an output file was chosen", result=r, output=how_out)
        p = full if how_out == "stdout-file" else os.path.join(w.home, path)
        ctx.check(os.path.exists(p), f"{head} did not create its output", result=r)
        with open(p, "rb") as f:
            out = f.read()
    if how_in == "option" and how_out != "in-place":
        with open(os.path.join(w.home, src), "rb") as f:
            ctx.equal(f.read(), data, f"{head} changed its input file")
    if how_out == "in-place":
        ctx.count("in_place_" + head)
    if passphrase is not None:
        ctx.count("typed_passphrases")
    ctx.count("fresh_processes", int(fresh))
    return out


def plaintext(rng):
    if rng.random() < 0.15:
        # runs of one byte, of the sizes of blocks
        runs = [bytes([rng.choice([0, 0, 0, 10, 32, 255])]) * (rng.choice([512, 4096, 65536]) * rng.randrange(1, 5)) for _ in range(rng.randrange(1, 3))]
        if rng.random() < 0.5:
            runs.insert(rng.randrange(len(runs) + 1), rng.randbytes(rng.choice([1, 100, 4096])))
        return b"".join(runs)
    pt = gen.plain(rng, maximum=70_000 if rng.random() < 0.8 else 300_000)
    if rng.random() < 0.1:
        pt = rng.choice([ref.INTRO, b"-----BEGIN AGE ENCRYPTED FILE-----\n", b"\r\n\x1a\x00", b"\xef\xbb\xbfx", ref.armor(b"hello").encode()])
    return pt


def install(ctx, w, p, rest):
    """make the identity of p available (the others of the group stay away); -> (args, passphrase)"""
    rng = ctx.rng
    noise = rng.random()
    keys = []
    phrase = p.password.decode() if p.kind == "scrypt" else None
    if p.kind == "x25519":
        how = rng.choice(["default", "file", "file", "both"])
        parts = [p, XParty(rng.randbytes(32))] if rng.random() < 0.5 else [p]
        rng.shuffle(parts)
        if how in ("default", "both"):
            w.default_keys(parts)
            ctx.count("default_key_file")
        if how in ("file", "both"):
            keys.append(w.key_file(parts))
            ctx.count("key_file_argument")
    elif p.kind != "scrypt":
        w.ssh(p)
        ctx.count("ssh_directory")
    if noise < 0.3:
        w.ssh(cli_party(rng, ("ssh-ed25519", "ssh-rsa")), rng.choice(["id_a", "id_z"]))
    if 0.2 < noise < 0.5:
        keys.insert(rng.randrange(len(keys) + 1), w.key_file([XParty(rng.randbytes(32))]))
    if 0.4 < noise < 0.5:
        w.file(b"not a key", ".ssh/id_broken")
    if p.kind != "x25519" and rng.random() < 0.3:
        w.default_keys([XParty(rng.randbytes(32)) for _ in range(rng.randrange(3))])
    if rng.random() < 0.15:
        # the same identities once more, or an empty list
        keys.insert(rng.randrange(len(keys) + 1), rng.choice([*keys, w.file(b"# nothing yet\n")]))
    if phrase is None and rng.random() < 0.15 and not any(q.kind == "scrypt" for q in rest):
        # a passphrase that opens nothing, next to the identity
        phrase = "not this one"
        ctx.count("needless_passphrases")
    return keys, phrase


def group_of(rng, kind):
    if kind != "mixed":
        g = [cli_party(rng, (kind,))]
        if kind != "scrypt" and rng.random() < 0.3:
            g.append(cli_party(rng, (kind,)))
        return g
    g = gen.parties(rng, rng.choice([2, 3]), ("x25519", "ssh-ed25519"))
    if rng.random() < 0.4:
        g.append(cli_party(rng, ("ssh-rsa",)))
    if rng.random() < 0.5:
        g.append(cli_party(rng, ("scrypt",)))  # the passphrase entry comes last
    return g


def name_recipients(ctx, w, parts):
    """the same recipients as keys, files or aliases"""
    rng = ctx.rng
    out = []
    for p in parts:
        how = rng.choice(["key", "key", "file", "alias"])
        if how == "alias" and p.kind != "x25519":
            how = "file"
        if how == "key":
            out.append(p.cli_recipient + rng.choice(["", "", " me@host"]) if p.kind != "x25519" else p.cli_recipient)
        elif how == "file":
            f = w.file(f"# a comment\n{p.cli_recipient}\n\n", f"recipients{w.n}")
            w.n += 1
            out.append(f)
        else:
            w.n += 1
            f = w.path(".config/age/aliases.txt")
            old = open(f).read() if os.path.exists(f) else ""
            w.file(old + f"friend{w.n}: {p.cli_recipient}\n", ".config/age/aliases.txt")
            out.append(f"friend{w.n}")
    return out


def flags(rng, armored, password):
    return [[rng.choice(["-a", "--ascii"])]] * armored + [[rng.choice(["-p", "--password"])]] * password


def trip(ctx):
    """all combinations for encrypt; the decrypt side is drawn at random"""
    rng = ctx.rng
    how_in, how_out, armored, kind = COMBOS[ctx.idx % len(COMBOS)]
    w = World(ctx, "alice")
    group = group_of(rng, kind)
    pt = plaintext(rng)
    pw = [p for p in group if p.kind == "scrypt"]
    names = name_recipients(ctx, w, [p for p in group if p.kind != "scrypt"])
    fresh = rng.random() < 0.04
    ct = command(ctx, w, "encrypt", flags(rng, armored, bool(pw)), pt, how_in, how_out, passphrase=pw[0].password.decode() if pw else None, fresh=fresh, after=names)
    ctx.count("combos")
    ctx.count("runs", int(len(pt) >= 512 and pt[:512].count(pt[:1]) == 512 or len(pt) >= 512 and pt[-512:].count(pt[-1:]) == 512))
    ctx.count("armored", int(armored))
    # the file is what it should be
    raw = ct
    if armored:
        try:
            raw = ref.dearmor_strict(ct.decode("latin-1"))
        except Exception as e:
            raise Violation(f"armored output is not canonical armor: {e}", output=ct[:200])
    who = rng.choice(group)
    try:
        got = gen.ref_open(raw, who)
    except ref.Malformed as e:
        raise Violation(f"the independent reader cannot open the output: {e}", output=ct[:300], input=how_in, out=how_out)
    ctx.equal(got, pt, "plaintext seen by the independent reader", input=how_in, out=how_out)
    ctx.count("reference_opened")
    for p in rng.sample(group, min(len(group), 2)):
        b = World(ctx, f"bob{w.n}{p.name}".replace("/", "_"))
        keys, phrase = install(ctx, b, p, group)
        out = command(
            ctx, b, "decrypt", flags(rng, armored, phrase is not None), ct, rng.choice(INS), rng.choice(OUTS), passphrase=phrase, fresh=rng.random() < 0.04, after=keys
        )
        ctx.equal(out, pt, "decrypted output", party=p, armored=armored, size=len(pt))
        ctx.count("round_trips")
        ctx.eval((how_in, how_out, armored, kind, p.kind, len(pt)))
    ctx.sample(input=how_in, output=how_out, armored=armored, group=group, size=len(pt))


def reference_files(ctx):
    """files of an independent writer, through the command line"""
    rng = ctx.rng
    for i in range(2):
        w = World(ctx, f"h{i}")
        p = cli_party(rng)
        others = gen.parties(rng, rng.choice([0, 0, 1, 3]), ("x25519", "ssh-ed25519")) if p.kind != "scrypt" else []
        pt = plaintext(rng)
        extra = [gen.unknown_stanza(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        data = gen.ref_file(rng, [*others, p], pt, extra)
        armored = rng.random() < 0.5
        text = ref.armor(data) if armored else None
        if text and rng.random() < 0.4:
            text = rng.choice(["Dear Bob,\n\n", "\n\n", "-----BEGIN OTHER-----\nAAAA\n-----END OTHER-----\n"]) + text + rng.choice(["", "\nRegards\n"])
        keys, phrase = install(ctx, w, p, [])
        out = command(
            ctx, w, "decrypt", flags(rng, armored, phrase is not None), text.encode() if armored else data, rng.choice(INS), rng.choice(OUTS), passphrase=phrase, after=keys
        )
        ctx.equal(out, pt, "decrypted file of the independent writer", party=p, armored=armored)
        ctx.count("reference_files")
        ctx.eval(("ref", p.kind, armored, len(pt), len(extra)))


def chain(ctx):
    """generate -o keys; encrypt | decrypt, many times over the same file in place"""
    rng = ctx.rng
    w = World(ctx)
    r = cli.run(["generate", "-o", "keys"], w.home)
    ctx.check(r.code == 0, "generate failed", result=r)
    text = open(w.path("keys")).read()
    pub = [x for x in text.split() if x.startswith("age1")]
    ctx.check(len(pub) == 1, "generated key file without public key", text=text.replace("SECRET", "..."))
    pt = plaintext(rng)
    f = w.file(pt, "doc")
    layers = []
    for _ in range(3):
        a = rng.choice([[], ["-a"]])
        layers.append(a)
        r = cli.run(["encrypt", "-i", "doc", "-o", "doc", *a, pub[0]], w.home)
        ctx.check(r.code == 0, "in-place encryption failed", result=r)
        ctx.count("in_place_encrypt")
    for a in reversed(layers):
        r = cli.run(["decrypt", "-i", "doc", "-o", "doc", *a, "keys"], w.home)
        ctx.check(r.code == 0, "in-place decryption failed", result=r, layers=layers)
        ctx.count("in_place_decrypt")
    with open(f, "rb") as g:
        ctx.equal(g.read(), pt, "content after layers of in-place encryption and decryption", layers=layers)
    # encrypt | decrypt over one pipe
    rd, wr = os.pipe()
    import threading

    box = []

    def second():
        box.append(cli.run(["decrypt", "keys"], w.home, stdin=rd, fresh=True))

    t = threading.Thread(target=second)
    t.start()
    try:
        e = cli.run(["encrypt", pub[0]], w.home, stdin=pt, stdout=wr)
    finally:
        os.close(wr)
        t.join(90)
        os.close(rd)
    ctx.check(e.code == 0 and box and box[0].code == 0, "encrypt | decrypt failed", first=e, second=box)
    ctx.equal(box[0].out, pt, "encrypt | decrypt")
    ctx.count("piped_chain")
    ctx.count("round_trips", 2)
    ctx.eval(("chain", str(layers), len(pt)))


def passphrase_stdin(ctx):
    """no terminal: the passphrase is read from standard input, the data from files"""
    rng = ctx.rng
    w = World(ctx)
    pw = rng.choice([p for p in TEXT_PASSWORDS if p.isascii()])
    pt = plaintext(rng)
    f = w.file(pt, "doc")
    armored = rng.choice([[], ["-a"]])
    r = cli.run(["encrypt", "-p", *armored, "-i", f, "-o", "ct"], w.home, stdin=pw.encode() + b"\n", stdin_via=rng.choice(["file", "pipe"]))
    ctx.check(r.code == 0, "encrypt with a passphrase from standard input failed", result=r)
    ct = open(w.path("ct"), "rb").read()
    raw = ref.dearmor_strict(ct.decode()) if armored else ct
    ctx.equal(gen.ref_open(raw, gen.PParty(pw.encode())), pt, "reference opens with the passphrase")
    for how in ("stdin", "typed"):
        kw = {"stdin": pw.encode() + b"\n"} if how == "stdin" else {"passphrase": pw}
        to_file = rng.random() < 0.5
        r = cli.run(["decrypt", "-p", *armored, "-i", "ct", *(["-o", "pt"] if to_file else [])], w.home, **kw)
        ctx.check(r.code == 0, "decrypt with a passphrase from standard input failed", result=r)
        ctx.equal(open(w.path("pt"), "rb").read() if to_file else r.out, pt, "decrypted with a passphrase from standard input", how=how)
    ctx.count("passphrase_on_stdin")
    ctx.count("round_trips", 2)
    ctx.eval(("stdin-pass", pw, bool(armored), len(pt)))


def no_terminal(ctx):
    """the data is on standard input and nobody can be asked: it must not be taken for the passphrase"""
    rng = ctx.rng
    w = World(ctx)
    first = rng.choice([p for p in TEXT_PASSWORDS if p.isascii()])
    rest = rng.choice([b"", b"a second line\n", rng.randbytes(50), b"x\n" * 3000])
    data = rng.choice([first.encode() + b"\n" + rest, first.encode(), b"", b"\n" + rest, first.encode() + b"\n" + first.encode() + b"\n" + rest, rng.randbytes(100)])
    opts = rng.choice([[], [["-i", "-"]], [["-i", "/dev/stdin"]]])
    to = rng.choice([None, None, "out", "-"])
    if to:
        opts = [*opts, ["-o", to]]
    armored = rng.random() < 0.4
    names = [XParty(rng.randbytes(32)).cli_recipient] if rng.random() < 0.3 else []
    opts = [*opts, *flags(rng, armored, True)]
    rng.shuffle(opts)
    head = rng.choice(["encrypt", "encrypt", "decrypt"])
    kw = {"stdin": data, "stdin_via": rng.choice(["file", "pipe"])}
    pt = rest
    if head == "decrypt":
        # a file of a passphrase recipient; its identity is at hand or not
        pt, names = rng.randbytes(20), []
        p = gen.PParty(first.encode())
        if rng.random() < 0.5:
            p = XParty(rng.randbytes(32))
            names = [w.key_file([p])]
        kw["stdin"] = gen.ref_file(rng, [p], pt)
        if armored:
            kw["stdin"] = ref.armor(kw["stdin"]).encode()
    r = cli.run([head, *[x for o in opts for x in o], *names], w.home, fresh=rng.random() < 0.2, **kw)
    out = r.out
    if to == "out":
        out = open(w.path("out"), "rb").read() if os.path.exists(w.path("out")) else b""
    if r.code != 0:
        ctx.check(out == b"", "output of a command that failed for want of a passphrase", result=r, output=out[:200])
        ctx.count("nobody_to_ask")
    elif head == "decrypt":
        ctx.equal(out, pt, "decrypted without the passphrase")
    else:
        # then the first line was the passphrase, and everything behind it is the data
        key, _, left = data.partition(b"\n")
        try:
            raw = ref.dearmor_strict(out.decode("latin-1")) if armored else out
            got = gen.ref_open(raw, gen.PParty(key))
        except ref.Malformed as e:
            raise Violation(f"a file nobody can open was reported as success: {e}", result=r, data=data[:200], output=out[:200])
        ctx.equal(got, left, "the data (partly) disappeared into the passphrase prompt", data=data[:200], args=opts)
    ctx.count("no_terminal")
    ctx.eval(("no-terminal", head, str(opts), kw["stdin_via"], len(data)))


def special(ctx):
    """inputs and outputs that are no ordinary files: pipes with a name, devices, /proc, links; the same file under two names"""
    rng = ctx.rng
    ins = ["fifo", "/dev/stdin", "/dev/fd/0", "/proc/version", "/proc/filesystems", "/dev/null", "symlink", "hard link", "option"]
    outs = ["fifo", "/dev/stdout", "/dev/fd/1", "symlink", "hard link", "new link", "in-place symlink", "in-place hard link", "option-new"]
    w = World(ctx, "alice")
    p = cli_party(rng, ("x25519", "ssh-ed25519", "ssh-rsa"))
    names = name_recipients(ctx, w, [p])
    pt = plaintext(rng)
    armored = rng.random() < 0.5
    b = World(ctx, "bob")
    keys, _ = install(ctx, b, p, [p])
    how = []

    def run(head, w, data, after, i, o):
        kw, threads, args = {}, [], []
        d = w.path(f"special-{head}")
        os.mkdir(d)
        src = os.path.join(d, "in")

        def feed(path, block):
            with open(path, "wb") as f:
                try:
                    f.write(block)
                except BrokenPipeError:
                    pass

        got = []

        def drain(path):
            with open(path, "rb") as f:
                got.append(f.read())

        def thread(fn, *a):
            t = threading.Thread(target=fn, args=a, daemon=True)
            t.start()
            threads.append((t, a[0], fn))

        if o.startswith("in-place"):
            i = "option"
        if i == "fifo":
            os.mkfifo(src)
            thread(feed, src, data)
        elif i in ("/dev/stdin", "/dev/fd/0"):
            kw.update(stdin=data, stdin_via=rng.choice(["pipe", "file"]))
            src = i
        elif i.startswith(("/proc", "/dev/null")):
            src = i
        else:
            feed(src, data)
            if i != "option":
                (os.symlink if i == "symlink" else os.link)(src, src + "2")
                src += "2"
        dst = os.path.join(d, "out")
        read = dst
        if o == "fifo":
            os.mkfifo(dst)
            thread(drain, dst)
        elif o.startswith("/dev"):
            dst, read = o, None
        elif o in ("symlink", "hard link", "new link"):
            read = dst + "-real"
            if o != "new link":
                feed(read, rng.randbytes(rng.choice([0, 10, len(data) * 2 + 1000])))
            (os.link if o == "hard link" else os.symlink)(read, dst)
        elif o.startswith("in-place"):
            (os.symlink if o.endswith("symlink") else os.link)(src, dst)
            read = src
            if rng.random() < 0.5:
                src, dst = dst, src
        parts = [["-i", src], ["-o", dst], *flags(rng, armored, False)]
        rng.shuffle(parts)
        r = cli.run([head, *[x for q in parts for x in q], *after], w.home, umask=0o022, unbuffered=rng.random() < 0.2, fresh=rng.random() < 0.1, **kw)
        for t, path, fn in threads:
            t.join(10)
            if t.is_alive():
                # the command never opened its end
                fd = os.open(path, os.O_RDWR | os.O_NONBLOCK)
                t.join(5)
                os.close(fd)
        how.append((i, o))
        ctx.check(r.code == 0, f"{head} failed", result=r, stderr=r.err[-600:], input=i, output=o)
        if o == "fifo":
            return b"".join(got)
        if read is None:
            return r.out
        with open(read, "rb") as f:
            return f.read()

    k = ctx.idx + ctx.seed
    i = ins[k % len(ins)]
    o = outs[(k + k // 9) % len(outs)]
    if o.startswith("in-place"):
        i = "option"
    if i.startswith("/proc"):
        with open(i, "rb") as f:
            pt = f.read()
    elif i == "/dev/null":
        pt = b""
    ct = run("encrypt", w, pt, names, i, o)
    raw = ct
    if armored:
        try:
            raw = ref.dearmor_strict(ct.decode("latin-1"))
        except Exception as e:
            raise Violation(f"armored output is not canonical armor: {e}", output=ct[:200], how=how)
    try:
        seen = gen.ref_open(raw, p)
    except ref.Malformed as e:
        raise Violation(f"the independent reader cannot open the output: {e}", output=ct[:300], how=how)
    ctx.equal(seen, pt, "plaintext seen by the independent reader", how=how)
    out = run("decrypt", b, ct, keys, rng.choice([x for x in ins if "proc" not in x and "null" not in x]), rng.choice(outs))
    ctx.equal(out, pt, "decrypted output", how=how)
    ctx.count("special")
    ctx.eval(("special", tuple(how), armored))
    ctx.sample(how=how)


LARGE = [(17 << 20) + 3, (33 << 20) + 1, 1 << 25, (65 << 20) + 5]


def large(ctx):
    """many megabytes: nothing is cut off"""
    rng = ctx.rng
    w = World(ctx, "alice")
    p = cli_party(rng, ("x25519", "ssh-ed25519"))
    names = name_recipients(ctx, w, [p])
    size = LARGE[ctx.idx % len(LARGE)] if ctx.tier == "quick" or rng.random() < 0.5 else gen.number(rng, 1 << 24, 200 << 20, 1 << 20)
    piece = rng.randbytes(65521)
    pt = (piece * (size // len(piece) + 1))[:size]
    armored = bool(ctx.idx // 4 % 2)
    how_in = INS[(ctx.idx + ctx.seed) % len(INS)]
    kw = dict(fresh=True) if rng.random() < 0.2 else {}
    ct = command(ctx, w, "encrypt", flags(rng, armored, False), pt, how_in, rng.choice(OUTS), after=names, **kw)
    b = World(ctx, "bob")
    keys, _ = install(ctx, b, p, [p])
    out = command(ctx, b, "decrypt", flags(rng, armored, False), ct, rng.choice(INS), rng.choice(OUTS), after=keys)
    ctx.check(out == pt, "decrypted output of many megabytes", size=size, got=len(out), armored=armored)
    ctx.count("large")
    ctx.eval(("large", size, armored, how_in))
    ctx.sample(size=size, armored=armored)


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("trip", len(COMBOS) * (1 if k == 1 else 4), trip), ("reference", 24 * k, reference_files), ("large", 8 if k == 1 else 16, large), ("special", 45 * k, special), ("chain", 10 * k, chain), ("passphrase-stdin", 8 * k, passphrase_stdin), ("no-terminal", 30 * k, no_terminal)]
