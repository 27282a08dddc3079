"""C10 ASCII armor: lossless, canonical, strict"""
import base64
import io
import os
import subprocess

from age.utils.asciiarmor import (
    AsciiArmoredInput,
    AsciiArmoredOutput,
    read_ascii_armored,
    write_ascii_armored,
)

from mon import gen, ref

PROPERTY = "C10"
RULE = (
    "a case = a byte string armored (all writers, StringIO / BytesIO / real files) and compared with the one canonical text, "
    "or a text of sections and surroundings read back, or a damaged armored text that has to be refused; distinct = "
    "(kind, label, size or damage)"
)
ASSUMPTIONS = ["labels are printable upper-case strings without '-'", "text outside sections is valid UTF-8 in lines of its own"]
REQUIRED = {"written": 150, "sections_read": 400, "truncations": 2000, "insertions": 600, "bad_lines": 150, "bad_labels": 60, "age_sections": 60, "openssl": 5, "padding": 60}

WORDS = ["AGE ENCRYPTED FILE", "PRIVATE KEY", "OPENSSH PRIVATE KEY", "X", "CERTIFICATE", "A B C", "1", "FOO_BAR", "42 IS (ALL).", "A+B=C", "\u00c4GE", "X" * 80]


def label(rng):
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    s = "".join(rng.choice("ABCXYZ0189 _.,:;+/=()!#") for _ in range(rng.randrange(1, 30))).strip()
    return s or "L"


def data(ctx, maximum=40_000):
    return gen.plain(ctx.rng, ctx.rng.choice([0, 1, 2, 3, 46, 47, 48, 49, 50, 95, 96, 97, 143, 144, 145, 192, 480]) if ctx.rng.random() < 0.6 else None, maximum)


def text_of(lab, d):
    out = io.StringIO()
    write_ascii_armored(out, lab, d)
    return out.getvalue()


def write(ctx):
    rng = ctx.rng
    lab, d = label(rng), data(ctx)
    t = text_of(lab, d)
    ctx.equal(t, ref.armor(d, lab), "armored text is not the canonical one", label=lab, size=len(d))
    ctx.equal(ref.dearmor_strict(t, lab), d, "armored text, strict reader")
    ctx.equal(list(read_ascii_armored(io.StringIO(t))), [(lab, d)], "armored and read back")
    # the stream classes, in pieces
    if lab == lab.encode("utf-8").decode("utf-8"):
        b = io.BytesIO()
        o = AsciiArmoredOutput(lab, b)
        for w in gen.split(rng, d):
            o.write(w)
        o.close()
        ctx.equal(b.getvalue(), t.encode(), "AsciiArmoredOutput differs from write_ascii_armored")
        got = gen.drain(rng, AsciiArmoredInput(lab, io.BytesIO(t.encode())))
        ctx.equal(got, d, "AsciiArmoredInput")
    # a real file
    p = os.path.join(ctx.tmp, "f.pem")
    with open(p, "w") as f:
        write_ascii_armored(f, lab, d)
    with open(p, "rb") as f:
        ctx.equal(f.read(), t.encode(), "armored file")
    with open(p) as f:
        ctx.equal(list(read_ascii_armored(f)), [(lab, d)], "armored file read back")
    with open(p, "rb") as f:
        ctx.equal(AsciiArmoredInput(lab, f).read(), d, "armored file read back as a stream")
    ctx.count("written")
    ctx.eval(("write", lab, len(d), d[:8]))
    ctx.sample(label=lab, size=len(d), text=t)


def sizes(ctx):
    """every size around the line boundaries"""
    for n in range(ctx.idx * 40, ctx.idx * 40 + 40):
        d = ctx.bytes(n)
        t = text_of(ref.LABEL, d)
        ctx.equal(t, ref.armor(d), "armored text is not the canonical one", size=n)
        ctx.equal(list(read_ascii_armored(io.StringIO(t))), [(ref.LABEL, d)], "armored and read back", size=n)
        ctx.equal(AsciiArmoredInput(ref.LABEL, io.BytesIO(t.encode())).read(), d, "stream", size=n)
        ctx.count("written")
        ctx.eval(("size", n))


NOISE = [
    "", "hello", "Comment: x", "----- BEGIN X-----", " -----BEGIN AGE ENCRYPTED FILE-----", "text -----BEGIN X-----", "-----BEGIN X----- trailing",
    "AAAA", "=" * 10, "#", "-", "--", "a" * 300, "\u00fc\u2028\u00df", "\x0c", "\tx", "age-encryption.org/v1", "-----", "-----BEGIN", "BEGIN X-----",
    "-----BEGIN A-B-----", "-----BEGIN X----", "QUJD\x0b", "\x85", "-> X25519 abc", "\x1c\x1d",
]


def noise(rng):
    return "".join(rng.choice(NOISE) + "\n" for _ in range(rng.randrange(5)))


def sections(ctx):
    """every section in order, whatever surrounds it"""
    rng = ctx.rng
    for _ in range(6):
        n = rng.randrange(0, 6)
        secs = [(label(rng), data(ctx, 3000)) for _ in range(n)]
        t = noise(rng) + "".join(text_of(a, b) + noise(rng) for a, b in secs)
        if rng.random() < 0.2 and secs and t.endswith("-----\n"):
            t = t[:-1]
        got = ctx.must(f"{n} sections with text around them", lambda: list(read_ascii_armored(io.StringIO(t))))
        ctx.equal(got, secs, "sections read", text=t)
        tw = io.TextIOWrapper(io.BytesIO(t.encode()), "utf-8")
        ctx.equal(list(read_ascii_armored(tw)), secs, "sections read from a file object", text=t)
        ctx.count("sections_read", n)
        ctx.eval(("sections", n, t[:200]))
        # and one by one: nothing is lost when the reader is consumed lazily
        it = read_ascii_armored(io.StringIO(t))
        for s in secs:
            ctx.equal(next(it, None), s, "lazily read section")


def age_only(ctx):
    """an age file is exactly one age section"""
    rng = ctx.rng
    for _ in range(4):
        others = [(rng.choice([w for w in WORDS if w != ref.LABEL] + ["AGE ENCRYPTED FILES", "AGE ENCRYPTED", "AGE  ENCRYPTED FILE", "XAGE ENCRYPTED FILE"]), data(ctx, 500)) for _ in range(rng.randrange(3))]
        for k in (0, 1, 2, 3):
            secs = others + [(ref.LABEL, data(ctx, 500)) for _ in range(k)]
            rng.shuffle(secs)
            t = (noise(rng) + "".join(text_of(a, b) + noise(rng) for a, b in secs)).encode()
            if k == 1:
                want = [b for a, b in secs if a == ref.LABEL][0]
                got = ctx.must("one age section among others", lambda: AsciiArmoredInput(ref.LABEL, io.BytesIO(t)).read())
                ctx.equal(got, want, "the age section")
            else:
                ctx.fails(f"{k} age sections", lambda: AsciiArmoredInput(ref.LABEL, io.BytesIO(t)).read())
            ctx.count("age_sections")
            ctx.eval(("age", k, len(others)))
    # the same section twice is still two sections
    t = (text_of(ref.LABEL, b"x") * 2).encode()
    ctx.fails("the same age section twice", lambda: AsciiArmoredInput(ref.LABEL, io.BytesIO(t)).read())


def rejected(ctx, what, t):
    ctx.fails(what, lambda: list(read_ascii_armored(io.StringIO(t))))
    ctx.fails(what + " (stream)", lambda: AsciiArmoredInput(ref.LABEL, io.BytesIO(t.encode("utf-8", "surrogatepass"))).read())


def truncated(ctx):
    rng = ctx.rng
    d = ctx.bytes(rng.choice([0, 1, 2, 3, 30, 48, 60, 96, 100, 150]))
    t = text_of(ref.LABEL, d)
    begin = t.index("\n") + 1
    for i in range(len(t) - 1):
        if i < begin:
            ctx.equal(list(read_ascii_armored(io.StringIO(t[:i]))), [], "incomplete BEGIN line")
            ctx.fails("incomplete BEGIN line (stream)", lambda: AsciiArmoredInput(ref.LABEL, io.BytesIO(t[:i].encode())))
        else:
            rejected(ctx, f"armor truncated to {i} of {len(t)} characters", t[:i])
        ctx.count("truncations")
        ctx.eval(("trunc", len(d), i))
    # truncated, with a complete section before or after it
    for _ in range(20):
        i = rng.randrange(begin, len(t) - 1)
        rejected(ctx, f"second section truncated to {i}", text_of("FIRST", b"1") + t[:i])
        rejected(ctx, f"first section truncated to {i}", t[:i] + ("" if t[i - 1] == "\n" else "\n") + text_of("SECOND", b"2"))
        ctx.count("truncations", 2)


ALIEN = "!#$%&()*,.:;<>?@[]^_`{|}~\\\"'-\0\x1b\u00e9\uff21\u0410"


def insertions(ctx):
    rng = ctx.rng
    d = ctx.bytes(rng.choice([2, 30, 47, 48, 49, 60, 97, 100, 150]))
    lines = text_of(ref.LABEL, d).split("\n")
    k = len(lines) - 3
    for c in ALIEN + " \t":
        li = rng.randrange(1, k + 1)
        ln = lines[li]
        for replace in (False, True):
            pos = rng.randrange(len(ln) + (0 if replace else 1))
            if c in " \t" and (pos == 0 or pos >= len(ln) - (1 if replace else 0)):
                if len(ln) < 3:
                    continue
                pos = len(ln) // 2
            new = ln[:pos] + c + ln[pos + (1 if replace else 0) :]
            if c == "-" and new.startswith("-----"):
                continue
            t = "\n".join(lines[:li] + [new] + lines[li + 1 :])
            rejected(ctx, f"{c!r} {'in place of' if replace else 'before'} character {pos} of armor line {li}", t)
            ctx.count("insertions")
            ctx.eval(("insert", c, replace, pos, li))
    # a foreign line between the others
    for new in ["Comment: x", "!!!!", "-----BEGIN X-----", "-----END X-----", "-----BEGIN AGE ENCRYPTED FILE-----", "----", "#" * 64, "-" * 64, "\u00e9" * 64, "_-" * 32]:
        li = rng.randrange(1, k + 1)
        t = "\n".join(lines[:li] + [new] + lines[li:])
        rejected(ctx, f"line {new!r} inside a section", t)
        ctx.count("insertions")


def padding(ctx):
    """'=' anywhere but at its place, or missing"""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 20, 46, 47, 48, 49, 50, 51, 95, 96])
    e = base64.b64encode(ctx.bytes(n)).decode()

    def body(s):
        return f"-----BEGIN {ref.LABEL}-----\n" + "".join(s[i : i + 64] + "\n" for i in range(0, len(s), 64)) + f"-----END {ref.LABEL}-----\n"

    assert list(read_ascii_armored(io.StringIO(body(e)))) == [(ref.LABEL, base64.b64decode(e))]
    bad = [e + "=", e + "==", e + "===", e + "====", "=" + e, "====" + e, "=", "==", "====", e + "A", e + "AA"]
    if n % 3:
        bad += [e.rstrip("="), e.rstrip("=") + "=" * (3 - n % 3 + 1), e + e, e + "QUJD"]
        if n % 3 == 1:
            bad.append(e[:-1])
    else:
        bad += [e[:-1], e[:-2], e[:-3], e[:-1] + "==", e[:-2] + "="]
    for _ in range(4):
        i = rng.randrange(len(e.rstrip("=")) - 1)
        bad.append(e[:i] + "=" + e[i + 1 :] if i % 4 != 3 or i + 1 < len(e.rstrip("=")) else "=" + e)
        bad.append(e[:i] + "=" + e[i:])
    for s in bad:
        rejected(ctx, f"base64 content {s[-30:]!r} (of {e[-20:]!r})", body(s))
        ctx.count("padding")
        ctx.eval(("pad", n, s[-12:]))


def line_lengths(ctx):
    rng = ctx.rng
    d = ctx.bytes(rng.choice([97, 100, 144, 150, 193, 500, 1000]))
    e = base64.b64encode(d).decode()

    def armored(ls):
        return f"-----BEGIN {ref.LABEL}-----\n" + "".join(x + "\n" for x in ls) + f"-----END {ref.LABEL}-----\n"

    good = [e[i : i + 64] for i in range(0, len(e), 64)]
    assert list(read_ascii_armored(io.StringIO(armored(good)))) == [(ref.LABEL, d)]
    bad = []
    for w in (1, 2, 4, 16, 32, 60, 62, 63, 65, 66, 68, 72, 76, 80, 100, 128, 10_000):
        bad.append([e[i : i + w] for i in range(0, len(e), w)])
    for _ in range(8):
        # one boundary moved
        i = rng.randrange(len(good) - 1)
        s = good[i] + good[i + 1]
        c = rng.choice([x for x in range(0, len(s) + 1) if x != 64])
        bad.append(good[:i] + [s[:c], s[c:]] + good[i + 2 :])
    i = rng.randrange(len(good))
    bad.append(good[:i] + [""] + good[i:])
    bad.append(good[:-2] + [good[-2] + good[-1]])
    for ls in bad:
        if all(len(x) == 64 for x in ls[:-1]) and len(ls[-1]) <= 64:
            continue
        rejected(ctx, f"lines of {[len(x) for x in ls][:6]} columns", armored(ls))
        ctx.count("bad_lines")
        ctx.eval(("lines", tuple(len(x) for x in ls)[:12]))


def labels(ctx):
    rng = ctx.rng
    body = "\n".join(ref.armor(ctx.bytes(20)).split("\n")[1:-2]) + "\n"
    L = ref.LABEL
    bad = [
        (L.lower(), L.lower()), ("age", "age"), ("PRIVATE key", "PRIVATE key"), ("Foo", "Foo"), (" " + L, " " + L), (L + " ", L + " "), (" ", " "), ("x" + L, "x" + L), ("\u00e4", "\u00e4"),
        (L, L + "S"), (L, L[:-1]), (L, "X"), (L, L.lower()), (L, L + " "), (L, " " + L), ("X", L), (L, L.replace(" ", "  ")), (L, ""),
    ]
    w = label(rng)
    bad += [(w, w + "Z"), (w + "q", w + "q")]
    for a, b in bad:
        t = f"-----BEGIN {a}-----\n{body}-----END {b}-----\n"
        rejected(ctx, f"section BEGIN {a!r} END {b!r}", t)
        rejected(ctx, f"section BEGIN {a!r} END {b!r} after a good one", text_of(L, b"g") + t)
        ctx.count("bad_labels")
        ctx.eval(("label", a, b))


def independent(ctx):
    """PEM readers of other projects accept the armored form"""
    import ssl

    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, load_pem_public_key

    rng = ctx.rng
    d = data(ctx, 5000)
    t = text_of("CERTIFICATE", d)
    ctx.equal(ssl.PEM_cert_to_DER_cert(t), d, "ssl module")
    body = "".join(x + "\n" for x in text_of(ref.LABEL, d).split("\n")[1:-2])
    r = subprocess.run(["openssl", "base64", "-d"], input=body.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    ctx.equal(r.stdout, d, "openssl base64 -d", size=len(d))
    ctx.count("openssl")
    key = gen.rsa_pool()[rng.choice(sorted(gen.rsa_pool()))].public_key()
    der = key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
    t = text_of("PUBLIC KEY", der)
    ctx.equal(load_pem_public_key(t.encode()).public_numbers(), key.public_numbers(), "cryptography PEM reader")
    ctx.equal(t.encode(), key.public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo), "PEM written by OpenSSL")
    ctx.equal(list(read_ascii_armored(io.StringIO(key.public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode()))), [("PUBLIC KEY", der)], "PEM written by OpenSSL, read")
    ctx.eval(("independent", len(d)))


def families(tier):
    q = tier == "quick"
    return [
        ("write", 150 if q else 4000, write),
        ("sizes", 8 if q else 100, sizes),
        ("sections", 80 if q else 2000, sections),
        ("age_only", 12 if q else 300, age_only),
        ("truncated", 24 if q else 500, truncated),
        ("insertions", 24 if q else 600, insertions),
        ("padding", 24 if q else 600, padding),
        ("line_lengths", 24 if q else 600, line_lengths),
        ("labels", 8 if q else 200, labels),
        ("independent", 6 if q else 100, independent),
    ]
