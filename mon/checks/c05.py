"""C05 any change to the header is detected, even with a matching entry left intact"""
import io
import re

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C05"
RULE = (
    "a case = intact file for several recipients (identity's own entry first, middle or last) x header edits: every bit "
    "and byte, insertions of line breaks / whitespace / entries / junk at every position, entries added, removed, "
    "repeated, reordered, re-wrapped, re-encoded, arguments edited, version line altered, tag altered / cut / removed / "
    "re-encoded; distinct = (layout, mutation); oracle: an error and no plaintext (intact file opens)"
)
ASSUMPTIONS = ["the adversary does not know the file key (edits are not re-tagged)"]
REQUIRED = {"rejected": 8000, "bitflips": 2000, "insertions": 2000, "entry_edits": 300, "tag_edits": 300, "version_edits": 100, "control": 20, "large_headers": 3}


def rejected(ctx, me, ct, what, sig):
    try:
        with gen.muted():
            d = gen.Decryptor([me.identity], io.BytesIO(ct))
        first = d.read(40)
        raise Violation(f"{what}: accepted", plaintext=first, header=ct[: ct.find(b"---") + 50])
    except Violation:
        raise
    except Exception as e:
        ctx.count("err:" + type(e).__name__)
    ctx.count("rejected")
    ctx.eval(sig)


def make(ctx, layout=None, pt=None):
    """-> (identity, file, header length); our entry is intact at a chosen place"""
    rng = ctx.rng
    me = gen.XParty(rng.randbytes(32)) if rng.random() < 0.7 else gen.EParty(rng.randbytes(32))
    others = gen.parties(rng, rng.choice([1, 2, 3]) if layout is None else layout, ("x25519", "ssh-ed25519", "ssh-rsa"))
    pos = rng.randrange(len(others) + 1)
    parts = others[:pos] + [me] + others[pos:]
    pt = rng.randbytes(rng.randrange(60)) if pt is None else pt
    if rng.random() < 0.5:
        ct = gen.age_encrypt([p.recipient for p in parts], pt)
    else:
        extra = [gen.unknown_stanza(rng) for _ in range(rng.choice([0, 1]))]
        ct = gen.ref_file(rng, parts, pt, extra)
    off = ref.parse_header(ct)[3]
    with gen.muted():
        ctx.check(gen.age_decrypt([me.identity], ct) == pt, "the intact file does not decrypt")
    ctx.count("control")
    return me, ct, off, [p.kind for p in parts]


def bitflips(ctx):
    me, ct, off, lay = make(ctx, 1)
    for i in range(off):
        for b in range(8):
            m = bytearray(ct)
            m[i] ^= 1 << b
            rejected(ctx, me, bytes(m), f"bit {b} of header byte {i} flipped", ("flip", tuple(lay), i, b))
            ctx.count("bitflips")
    ctx.sample(layout=lay, header_bytes=off)


JUNK = [b"\n", b"\r", b" ", b"\t", b"\0", b"A", b"=", b"-", b">", b"\r\n", b"\n\n", b"\x0b", b"\x0c", b"\x1c", b"#", b"/", b"+", b"\xc2\x85", b"\xe2\x80\xa8", b"\xc2\xa0", b"\xff"]


def insertions(ctx):
    """one junk token at every position of the header"""
    me, ct, off, lay = make(ctx, 1)
    toks = [JUNK[(ctx.idx * 3 + k) % len(JUNK)] for k in range(3)]
    for t in toks:
        for i in range(off):
            m = ct[:i] + t + ct[i:]
            rejected(ctx, me, m, f"{t!r} inserted at header byte {i}", ("ins", tuple(lay), t, i))
            ctx.count("insertions")
    for i in range(off):
        m = ct[:i] + ct[i + 1 :]
        rejected(ctx, me, m, f"header byte {i} removed", ("del", tuple(lay), i))


def lines_of(ct, off):
    return ct[:off].split(b"\n")[:-1]


def line_edits(ctx):
    """whole lines added, removed, repeated, exchanged, re-ended"""
    rng = ctx.rng
    me, ct, off, lay = make(ctx)
    L = lines_of(ct, off)
    rest = ct[off:]

    def put(lines):
        return b"\n".join(lines) + b"\n" + rest

    inserts = [b"", b" ", b"# comment", b"-> X25519", b"->", b"-> grease", b"-> grease abc", b"AAAA", b"-", b"--", b"Hello", b"age-encryption.org/v1", b"-----", b"\t", b"=", b"-> scrypt AAAAAAAAAAAAAAAAAAAAAA 1"]
    inserts += [x for w in sorted({gen.token(rng) for _ in range(12)}) for x in ([w.encode("utf-8")] if "\n" not in w else [])]
    for i in range(len(L)):
        for t in inserts:
            rejected(ctx, me, put(L[:i] + [t] + L[i:]), f"line {t!r} inserted before header line {i}", ("line", tuple(lay), i, t))
            ctx.count("insertions")
        if i != len(L) - 1 or True:
            rejected(ctx, me, put(L[:i] + L[i + 1 :]), f"header line {i} removed", ("ldel", tuple(lay), i))
            dup = put(L[: i + 1] + L[i:])
            if i < len(L) - 1:
                rejected(ctx, me, dup, f"header line {i} repeated", ("ldup", tuple(lay), i))
            for name, f in {
                "cr": lambda x: x + b"\r", "sp": lambda x: x + b" ", "lead": lambda x: b" " + x, "tab": lambda x: x + b"\t",
                "up": lambda x: x.upper(), "low": lambda x: x.lower(), "dbl": lambda x: x.replace(b" ", b"  "),
                "tabs": lambda x: x.replace(b" ", b"\t"), "pad": lambda x: x + b"=", "cut": lambda x: x[:-1], "nul": lambda x: x + b"\0",
                "vt": lambda x: x + b"\x0b", "nbsp": lambda x: x.replace(b" ", b"\xc2\xa0"),
            }.items():
                new = f(L[i])
                if new != L[i]:
                    rejected(ctx, me, put(L[:i] + [new] + L[i + 1 :]), f"header line {i} changed ({name})", ("lmod", tuple(lay), i, name))
            if i + 1 < len(L) and L[i] != L[i + 1]:
                L2 = list(L)
                L2[i], L2[i + 1] = L2[i + 1], L2[i]
                rejected(ctx, me, put(L2), f"header lines {i} and {i + 1} exchanged", ("lswap", tuple(lay), i))
                joined = L[:i] + [L[i] + L[i + 1]] + L[i + 2 :]
                rejected(ctx, me, put(joined), f"header lines {i} and {i + 1} joined", ("ljoin", tuple(lay), i))
    rejected(ctx, me, ct[:off].replace(b"\n", b"\r\n") + rest, "all header lines end in CRLF", ("crlf", tuple(lay)))
    rejected(ctx, me, ct[:off].replace(b"\n", b"\r") + rest, "all header lines end in CR", ("cr", tuple(lay)))
    rejected(ctx, me, b"\xef\xbb\xbf" + ct, "byte order mark", ("bom",))
    rejected(ctx, me, b"\n" + ct, "leading empty line", ("lead",))
    rejected(ctx, me, b" " + ct, "leading space", ("leadsp",))


def render(sts, mac_line, wrap=64, final=True):
    s = ref.INTRO.decode()
    for st in sts:
        s += " ".join(["->", st.type] + st.args) + "\n"
        e = ref.b64(st.body)
        n = len(e) + 1 if final else len(e)
        for i in range(0, max(n, 1), wrap):
            s += e[i : i + wrap] + "\n"
    return s.encode() + mac_line


def entry_edits(ctx):
    """structured edits of the recipient list with our own entry left as it is"""
    rng = ctx.rng
    me, ct, off, lay = make(ctx)
    sts = ref.parse_header(ct)[0]
    mac_line = ct[:off].split(b"\n")[-2] + b"\n"
    rest = ct[off:]
    assert render(sts, mac_line) == ct[:off]
    mine = next(i for i, s in enumerate(sts) if s.type in ("X25519", "ssh-ed25519") and _opens(me, s))
    stranger = gen.XParty(rng.randbytes(32))
    other_file = ref.parse_header(gen.age_encrypt([stranger.recipient, me.recipient], b"x"))[0]

    def go(new, name, **kw):
        m = render(new, mac_line, **kw) + rest
        if m == ct:
            return
        rejected(ctx, me, m, f"recipient list changed: {name}", ("entry", tuple(lay), name))
        ctx.count("entry_edits")

    go(sts + [stranger.wrap(rng, rng.randbytes(16))], "stranger appended")
    go([stranger.wrap(rng, rng.randbytes(16))] + sts, "stranger prepended")
    go(sts + [other_file[0]], "entry of another file appended")
    go([gen.unknown_stanza(rng)] + sts, "unknown type prepended")
    go(sts + [gen.unknown_stanza(rng)], "unknown type appended")
    go(sts + [ref.Stanza("grease", [], b"")], "empty unknown type appended")
    go(sts + [sts[mine]], "own entry repeated")
    d = gen.dictionary()
    words = {w for w in d[0][: min(d[2], 40)] + [gen.word(rng) for _ in range(10)] if w not in gen.KNOWN_TYPES and all(33 <= ord(c) < 127 for c in w)}
    for w in sorted(words):
        go(sts + [ref.Stanza(w, [], b"")], f"empty entry of type {w} appended")
        go([ref.Stanza(w, ["abc"], b"x")] + sts, f"entry of type {w} prepended")
    go([sts[mine]], "only own entry kept") if len(sts) > 1 else None
    go(sts[::-1], "reversed")
    for i in range(len(sts)):
        if i != mine:
            go(sts[:i] + sts[i + 1 :], f"entry {i} removed")
        go(sts[: i + 1] + sts[i:], f"entry {i} repeated")
        if i:
            go(sts[: i - 1] + [sts[i], sts[i - 1]] + sts[i + 1 :], f"entries {i - 1},{i} exchanged")
        s = sts[i]
        go(sts[:i] + [ref.Stanza(s.type, s.args + ["x"], s.body)] + sts[i + 1 :], f"argument added to {i}")
        if i != mine and s.args:
            go(sts[:i] + [ref.Stanza(s.type, s.args[1:], s.body)] + sts[i + 1 :], f"argument removed from {i}")
            go(sts[:i] + [ref.Stanza(s.type, s.args[::-1] + [""], s.body)] + sts[i + 1 :], f"arguments changed in {i}")
        go(sts[:i] + [ref.Stanza(s.type + "x", s.args, s.body)] + sts[i + 1 :], f"type of {i} renamed")
        if i != mine:
            go(sts[:i] + [ref.Stanza(s.type, s.args, s.body[:-1])] + sts[i + 1 :], f"body of {i} cut")
            go(sts[:i] + [ref.Stanza(s.type, s.args, s.body + b"x")] + sts[i + 1 :], f"body of {i} extended")
            go(sts[:i] + [ref.Stanza(s.type, s.args, b"")] + sts[i + 1 :], f"body of {i} removed")
    for w in (1, 2, 4, 20, 43, 60, 63, 65, 76, 1000):
        go(sts, f"wrapped at {w}", wrap=w)
    go(sts, "no final short line", final=False)
    # encodings that decode to the same bytes
    text = ct[:off].decode("latin-1")
    for m in re.finditer(r"(?m)^([A-Za-z0-9+/]+)$", text):
        line = m.group(1)
        for name, new in {
            "padded": line + "=" * (-len(line) % 4), "bits": _noncanon(line), "url": line.replace("+", "-").replace("/", "_"),
            "split": line[: len(line) // 2] + "\n" + line[len(line) // 2 :], "junk": line[:3] + "!" + line[3:], "space": line[:3] + " " + line[3:],
        }.items():
            if new and new != line:
                mod = text[: m.start(1)] + new + text[m.end(1) :]
                rejected(ctx, me, mod.encode("latin-1") + rest, f"body line re-encoded ({name})", ("reenc", tuple(lay), m.start(1), name))
                ctx.count("entry_edits")
    for m in re.finditer(r"(?m)^-> \S+ (\S+)", text):
        arg = m.group(1)
        for name, new in {"padded": arg + "=" * (-len(arg) % 4 or 4), "bits": _noncanon(arg), "junk": arg[:2] + "_" + arg[2:], "url": arg.replace("+", "-").replace("/", "_")}.items():
            if new and new != arg:
                mod = text[: m.start(1)] + new + text[m.end(1) :]
                rejected(ctx, me, mod.encode("latin-1") + rest, f"argument re-encoded ({name})", ("reenca", tuple(lay), m.start(1), name))
                ctx.count("entry_edits")
    ctx.sample(layout=lay, entries=sts)


def _opens(me, st):
    try:
        me.unwrap(st)
        return True
    except Exception:
        return False


_A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _noncanon(s):
    """same bytes, other unused trailing bits"""
    k = {2: 16, 3: 4}.get(len(s) % 4)
    if k is None:
        return None
    v = _A.find(s[-1])
    return s[:-1] + _A[v ^ 1] if v >= 0 else None


def tag_edits(ctx):
    rng = ctx.rng
    me, ct, off, lay = make(ctx, pt=rng.choice([b"", b"x", b"\n\n\n", rng.randbytes(40)]))
    hdr = ref.parse_header(ct)[1]
    mac = ref.parse_header(ct)[2]
    e = ref.b64(mac)
    rest = ct[off:]
    foots = {f"len{k}": b" " + e[:k].encode() + b"\n" for k in range(43)}
    foots |= {f"mac{k}": b" " + ref.b64(mac[:k]).encode() + b"\n" for k in range(32)}
    foots |= {
        "none": b"\n", "space": b" \n", "spaces": b"   \n", "nothing": b"", "zero": b" " + ref.b64(bytes(32)).encode() + b"\n",
        "rand": b" " + ref.b64(rng.randbytes(32)).encode() + b"\n", "long": b" " + ref.b64(mac + b"\0").encode() + b"\n",
        "twice": b" " + ref.b64(mac + mac).encode() + b"\n", "padded": b" " + e.encode() + b"=\n", "padded3": b" " + e.encode() + b"===\n",
        "bits": b" " + _noncanon(e).encode() + b"\n", "two": f" {e} {e}\n".encode(), "extra": f" {e} x\n".encode(), "sp_end": f" {e} \n".encode(),
        "two_sp": f"  {e}\n".encode(), "tab": f"\t{e}\n".encode(), "cr": f" {e}\r\n".encode(), "nosp": f"{e}\n".encode(), "dash": f"- {e}\n".encode(),
        "dashes": f"-- {e}\n".encode(), "split": f" {e[:20]}\n{e[20:]}\n".encode(), "junk": f" {e[:20]}!{e[20:]}\n".encode(), "url": f" {e[:20]}_{e[20:]}\n".encode(),
        "us": f" {e[:10]}={e[10:]}\n".encode(), "upper": f" {e.upper()}\n".encode(), "swap": f" {e.swapcase()}\n".encode(),
        "hex": b" " + mac.hex().encode() + b"\n", "rev": b" " + ref.b64(mac[::-1]).encode() + b"\n",
        "wrong_key": b" " + ref.b64(ref.hmac256(bytes(16), hdr)).encode() + b"\n", "sha": b" " + ref.b64(ref.sha256(hdr)).encode() + b"\n",
        "empty_key": b" " + ref.b64(ref.hmac256(b"", hdr)).encode() + b"\n", "x85": f" {e}\u0085\n".encode(), "vt": f" {e}\x0b\n".encode(), "nul": f" {e}\0\n".encode(),
        "ls": f" {e}\u2028\n".encode(), "sp_ff": f" {e}\x0c\n".encode(), "fs": f" {e}\x1c\n".encode(), "cr_only": f" {e}\r".encode(), "eof": f" {e}".encode()[:-1],
    }
    for name, f in foots.items():
        m = hdr + f + rest
        if m == ct or m[:off] == ct[:off]:
            continue
        rejected(ctx, me, m, f"tag replaced ({name})", ("tag", tuple(lay), name))
        ctx.count("tag_edits")
    for bit in range(256):
        t = bytearray(mac)
        t[bit // 8] ^= 1 << (bit % 8)
        rejected(ctx, me, hdr + b" " + ref.b64(bytes(t)).encode() + b"\n" + rest, f"bit {bit} of the tag flipped", ("tagbit", bit))
        ctx.count("tag_edits")
    # whole header of another file for the same recipients
    other = gen.age_encrypt([me.recipient], b"x")
    o = ref.parse_header(other)
    rejected(ctx, me, o[1] + b" " + e.encode() + b"\n" + rest, "header of another file", ("hdr2",))
    rejected(ctx, me, hdr + b" " + ref.b64(o[2]).encode() + b"\n" + rest, "tag of another file", ("tag2",))


def version_edits(ctx):
    rng = ctx.rng
    me, ct, off, lay = make(ctx)
    rest = ct[len(ref.INTRO) :]
    for v in [
        "", "\n", "age-encryption.org/v2\n", "age-encryption.org/v1 \n", " age-encryption.org/v1\n", "age-encryption.org/v1\r\n", "age-encryption.org/v1\t\n",
        "age-encryption.org/v10\n", "age-encryption.org/v\n", "age-encryption.org/V1\n", "AGE-ENCRYPTION.ORG/V1\n", "age-encryption.org/v1", "age-encryption.com/v1\n",
        "age-encryption.org/v1\n\n", "age-encryption.org/v1\n \n", "age-encryption.org/v1\nage-encryption.org/v1\n", "This is a file encrypted with age-tool.com, version 1\n",
        "age-encryption.org/v1\x0b\n", "age-encryption.org/v1\x0c\n", "age-encryption.org/v1\u0085\n", "age-encryption.org/v1\u00a0\n", "\ufeffage-encryption.org/v1\n",
        "age-encryption.org/v1 2\n", "age-encryption.org//v1\n", "age-encryption.org/v01\n", "x\nage-encryption.org/v1\n", "\x1cage-encryption.org/v1\n", "age-encryption.org/v1\0\n",
        "age-encryption.org/v1\nHello\n", "age-encryption.org/v1\n# age\n", "age-encryption.org/v1\nAAAA\n", "\u2003age-encryption.org/v1\n",
    ]:
        rejected(ctx, me, v.encode() + rest, f"version line {v!r}", ("ver", v))
        ctx.count("version_edits")
    line = b"age-encryption.org/v1\n"
    edits = set()
    for c in range(256):
        # any character anywhere
        edits |= {line[:i] + bytes([c]) + line[i:] for i in (0, rng.randrange(1, 19), 18, 19, 20, 21, 22)}
        edits |= {line[:i] + bytes([c]) + line[i + 1 :] for i in (rng.randrange(21), 19, 20, 21)}
    for x in (".0", ".1", ".2.3", ".10", "-beta", "-1", "_1", "+gzip", "/ext", "/X25519", "; charset=utf-8", " (pyage)", "?x=1", "#frag", "a", "alpha1", "rc1", ",v2", ":", "=", "/", "//", "\\", "\x00" * 8, " " * 200, "x" * 5000):
        edits |= {line[:-1] + x.encode() + b"\n", line[:-1] + x.encode() + b"\r\n", x.encode() + line, x.encode() + b"\n" + line}
    for x in ("http://", "https://", "www.", "-----", "# ", "#!/usr/bin/age\n", "From x\n", "\n", "\n\n", "\x1f\x8b", "\xff\xfe", "data:,", "age:", "%"):
        edits.add(x.encode("latin-1") + line)
    edits |= {line[:i] + line[i + 1 :] for i in range(len(line))}
    edits |= {line[:i] + line[i + 1 : i + 2] + line[i : i + 1] + line[i + 2 :] for i in range(len(line) - 1)}
    edits |= {line[:i] + line[i : i + 1].swapcase() + line[i + 1 :] for i in range(len(line))}
    for v in sorted(edits - {line}):
        rejected(ctx, me, v + rest, f"version line {v[:60]!r}", ("ver", v))
        ctx.count("version_edits")


def large(ctx):
    """headers of tens of thousands of bytes and more: the last of them counts as much as the first"""
    rng = ctx.rng
    me = gen.XParty(rng.randbytes(32))
    pt = rng.randbytes(50)
    how = ctx.idx % 3
    if how == 0:
        n = rng.choice([350, 700, 800, 1100])
        keys = [me.recipient] + [gen.XParty(rng.randbytes(32)).recipient for _ in range(n)]
        ct = gen.age_encrypt(keys, pt)
    else:
        size = rng.choice([3000, 9000, 25_000, 70_000, 140_000, 300_000, 600_000])
        sts = [me.wrap(rng, fk := rng.randbytes(16))]
        while size > 0:
            k = rng.choice([100, 2000, 20_000]) if how == 1 else size
            sts.append(ref.Stanza(rng.choice(["grease", "big", "ssh-dss"]), [], rng.randbytes(k)))
            size -= k
        ct = ref.encrypt(fk, rng.randbytes(16), sts, pt)
    off = ref.parse_header(ct)[3]
    with gen.muted():
        ctx.check(gen.age_decrypt([me.identity], ct) == pt, "the intact file does not decrypt")
    ctx.count("control")
    tag = off - 50
    ours = 200
    spots = {tag - 1 - k for k in range(6)} | {rng.randrange(ours, tag) for _ in range(10)} | {p + d for p in (4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288) for d in (-1, 0, 40) if ours < p + d < tag}
    for i in sorted(spots):
        m = bytearray(ct)
        m[i] ^= 1 << rng.randrange(7)
        rejected(ctx, me, bytes(m), f"a bit of byte {i} of a header of {off} bytes flipped", ("large", how, off, i))
        c = bytes([ct[i]])
        if c.isalpha():
            m[i] = c.swapcase()[0]
            rejected(ctx, me, bytes(m), f"the letter at byte {i} of a header of {off} bytes in the other case", ("large-case", how, off, i))
    cut = sorted(rng.sample(range(ours, tag), 2))
    rejected(ctx, me, ct[: cut[0]] + ct[cut[1] :], f"bytes {cut} of a header of {off} bytes removed", ("large-cut", how, off))
    L = lines_of(ct, off)
    i = rng.randrange(5, len(L) - 1)
    rejected(ctx, me, b"\n".join(L[:i] + L[i + 1 :]) + b"\n" + ct[off:], f"line {i} of {len(L)} removed", ("large-line", how, i))
    rejected(ctx, me, b"\n".join([*L[:-1], b"-> grease", b"", L[-1]]) + b"\n" + ct[off:], f"entry appended to a header of {off} bytes", ("large-append", how, off))
    ctx.count("large_headers", int(off > 65536))
    ctx.sample(header_bytes=off)


def families(tier):
    q = tier == "quick"
    return [
        ("bitflips", 10 if q else 100, bitflips),
        ("insertions", 21 if q else 210, insertions),
        ("line_edits", 24 if q else 300, line_edits),
        ("entry_edits", 40 if q else 600, entry_edits),
        ("tag_edits", 16 if q else 200, tag_edits),
        ("large", 18 if q else 200, large),
        ("version_edits", 12 if q else 100, version_edits),
    ]
