"""C25 headers: what is written is read back, and not a byte of the payload is consumed"""
import io
import os
import random
import tempfile
import threading

from age.format import Header, Recipient, dump_header, load_header

from mon import gen, ref, sources

PROPERTY = "C25"
RULE = (
    "a case = a generated header (entries, arguments, bodies, tag) written by dump_header and read back by load_header from an "
    "in-memory, buffered, unbuffered or pipe stream followed by a payload prefix; judged by entries, tag and the bytes left in "
    "the stream; or a truncation or damage of such a header that has to be rejected; distinct = (entry shapes, tag length, "
    "stream kind, payload prefix)"
)
ASSUMPTIONS = ["arguments are visible ASCII and bodies are in the standard base64 alphabet, as the format demands"]
REQUIRED = {"roundtrips": 1500, "stream:bytesio": 200, "stream:file": 100, "stream:raw": 100, "stream:pipe": 100,
            "truncations": 2000, "rejected": 400, "body%64==0": 200, "prefix-newline": 100, "prefix-entry": 100,
            "reference_read": 200, "files": 60, "long_headers": 80, "crowds": 6}

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
PREFIXES = [b"", b"\n", b"\n\n", b"\r\n", b" ", b"\t", b"-", b"--", b"---", b"--- ", b"--- abc\n", b"-> X25519 abc\n", b"->", b"\x00",
            b"\xff", b"age-encryption.org/v1\n", b"\x85", b"\xe2\x80\xa8", b"\xc3", b"\x1c\x1d", b"=", b"A", b"/", b"#\n", b"\x0b\x0c"]


def body(rng):
    n = rng.choice([0, 1, 2, 3, 21, 22, 42, 43, 62, 63, 64, 65, 66, 86, 127, 128, 129, 171, 191, 192, 193, 256, 342, 512, 683, 1024, 4096, rng.randrange(700)])
    r = rng.random()
    if r < 0.1:
        return "/" * n
    if r < 0.2:
        return "+/" * (n // 2)
    if r < 0.3:
        return "A" * n
    return "".join(rng.choice(B64) for _ in range(n))


def entries(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5, 20])):
        t = rng.choice(["X25519", "scrypt", "ssh-rsa", "ssh-ed25519", "piv-p256", "-", "->", "---", "#", gen.vchars(rng, rng.randrange(1, 30))])
        args = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 8])):
            args.append(rng.choice([gen.vchars(rng, rng.choice([1, 2, 22, 43, 64, 65, 200])), "18", "-", "--", "---", "->", "=", "a=b", "%s", "{}"]))
        out.append((t, args, body(rng)))
    if out and rng.random() < 0.12:
        # long ones and many of them
        size = lambda most: min(most, rng.choice([255, 256, 257, 1000, 1023, 1024, 1025, 2040, 2047, 2048, 2049, 4096, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100_000]) if rng.random() < 0.7 else gen.number(rng, 1, most, 5000))
        i = rng.randrange(len(out))
        t, args, b = out[i]
        what = rng.randrange(6)
        if what == 0:
            t = gen.vchars(rng, size(70_000))
        elif what == 1:
            args.insert(rng.randrange(len(args) + 1), gen.vchars(rng, size(100_000)))
        elif what == 2:
            args = [gen.vchars(rng, rng.choice([1, 2, 10])) for _ in range(size(3000))]
        elif what == 3:
            b = "".join(rng.choices(B64, k=size(100_000)))
        elif what == 4:
            # a line of exactly that length
            n = size(100_000)
            t, args = "t", [gen.vchars(rng, max(1, n - 5 - rng.choice([0, 1, 2])))]
        else:
            out += [("t%d" % k, [], body(rng)[:70]) for k in range(size(1500))]
        out[i] = (t, args, b)
        LONG[0] += 1
    return out


LONG = [0]


def build(es):
    return Header([Recipient(t, list(a), b) for t, a, b in es])


def shape(h):
    return [(r.type, list(r.arguments), r.body) for r in h.recipients]


def write(h, tag):
    f = io.BytesIO()
    dump_header(h, f, tag)
    data = f.getvalue()
    return data if data.endswith(b"\n") else data + b"\n"


class Pipe:
    def __init__(self, data, unbuffered=False):
        self.data, self.unbuffered = data, unbuffered

    def __enter__(self):
        r, w = os.pipe()
        self.f = os.fdopen(r, "rb", 0 if self.unbuffered else -1)

        def feed():
            try:
                with os.fdopen(w, "wb", 0) as f:
                    v = memoryview(self.data)
                    while len(v):
                        v = v[f.write(v[:7000]) :]
            except OSError:
                pass

        self.t = threading.Thread(target=feed)
        self.t.start()
        return self.f

    def __exit__(self, *a):
        self.f.close()
        self.t.join()


class Disk:
    def __init__(self, data, buffering=-1):
        self.data, self.buffering = data, buffering

    def __enter__(self):
        t = tempfile.TemporaryFile("w+b")
        t.write(self.data)
        t.flush()
        t.seek(0)
        self.t = t
        self.f = os.fdopen(os.dup(t.fileno()), "rb", self.buffering)
        return self.f

    def __exit__(self, *a):
        self.f.close()
        self.t.close()


class Mem:
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def __enter__(self):
        return self.f

    def __exit__(self, *a):
        pass


KINDS = {
    "bytesio": Mem,
    "file": Disk,
    "raw": lambda d: Disk(d, 0),
    "smallbuf": lambda d: Disk(d, 16),
    "pipe": Pipe,
    "rawpipe": lambda d: Pipe(d, True),
    **{k: (lambda d, make=make: make(d, RNG[0])) for k, make in sources.KINDS.items()},
}
RNG = [random.Random(25)]


def roundtrip(ctx, es, tag, prefix, payload, kind):
    ctx.count("long_headers", LONG[0])
    LONG[0] = 0
    data = write(build(es), tag)
    RNG[0] = ctx.rng
    with KINDS[kind](data + prefix + payload) as f:
        h, mac = ctx.must("reading back a written header", load_header, f)
        ctx.equal(shape(h), es, "entries after writing and reading", header=data[:400])
        ctx.check(bytes(mac) == tag, "tag after writing and reading", got=mac, want=tag)
        if kind == "bytesio":
            ctx.equal(f.tell(), len(data), "stream position after the header", prefix=prefix)
        if ctx.rng.random() < 0.5:
            rest = f.read()
        else:
            rest = b""
            while True:
                b = f.read(ctx.rng.choice([1, 16, 100, 5000]))
                if not b:
                    break
                rest += b
        ctx.check(rest == prefix + payload, "the stream is not at the first byte of the payload", missing=len(prefix + payload) - len(rest), prefix=prefix, stream=kind)
    ctx.count("roundtrips")
    ctx.count("stream:" + kind)
    if any(len(e[2]) % 64 == 0 for e in es):
        ctx.count("body%64==0")
    if prefix[:1] == b"\n":
        ctx.count("prefix-newline")
    if prefix[:2] == b"->" or prefix[:3] == b"---":
        ctx.count("prefix-entry")
    ctx.eval(([(t, len(a), len(b)) for t, a, b in es], len(tag), kind, prefix))
    return data


def codec(ctx):
    rng = ctx.rng
    for kind in KINDS:
        es = entries(rng)
        tag = gen.hostile32(rng) if rng.random() < 0.85 else rng.randbytes(rng.choice([1, 2, 16, 31, 33, 48, 64]))
        payload = rng.randbytes(rng.choice([0, 1, 16, 32, 200, 9000])) if rng.random() < 0.8 else b"\n" * 50
        data = roundtrip(ctx, es, tag, rng.choice(PREFIXES), payload, kind)
        if len(tag) == 32 and all(e[1] for e in es) and all(len(e[2]) % 4 != 1 for e in es):
            # the same bytes in the eyes of the reference (where bodies are base64 of something)
            try:
                sts, _, mac, off = ref.parse_header(data)
            except ref.Malformed as e:
                ctx.check(not all(map(ref_ok, es)), "the reference cannot read a written header", why=e, header=data[:600])
                continue
            ctx.equal([(s.type, s.args) for s in sts], [(t, a) for t, a, _ in es], "entries in the eyes of the reference")
            ctx.check(mac == tag and off == len(data), "tag and length in the eyes of the reference")
            ctx.count("reference_read")
    ctx.sample(entries=es[:2], tag=tag)


def ref_ok(e):
    try:
        ref.unb64(e[2])
        return not e[0].startswith("---")
    except Exception:
        return False


def body_lengths(ctx):
    """every body length in a range, alone and next to another entry"""
    rng = ctx.rng
    for n in range(ctx.idx * 24, ctx.idx * 24 + 24):
        b = "".join(rng.choice(B64) for _ in range(n))
        es = [("t", ["a"], b)]
        if rng.random() < 0.5:
            es.insert(rng.randrange(2), ("u", ["b"], body(rng)))
        roundtrip(ctx, es, rng.randbytes(32), rng.choice(PREFIXES), b"payload", rng.choice(["bytesio", "file", "raw"]))


def crowds(ctx):
    """tens of thousands of entries and lines"""
    rng = ctx.rng
    n = [5001, 12_000, 40_000][ctx.idx % 3] + rng.randrange(100)
    e = ("t", ["a"], "AAAA")
    es = [e] * n if ctx.idx % 2 else [e, ("u", ["b"], "".join(rng.choices(B64, k=64 * n)))]
    roundtrip(ctx, es, rng.randbytes(32), rng.choice(PREFIXES), b"payload", rng.choice(["bytesio", "raw", "pipe"]))
    ctx.count("crowds")


def first_bytes(ctx):
    """every first payload byte, and pairs with a newline"""
    rng = ctx.rng
    es = entries(rng)
    for b in range(ctx.idx % 8 * 32, ctx.idx % 8 * 32 + 32):
        for prefix in (bytes([b]), bytes([b, b]), b"\n" + bytes([b]), bytes([b]) + b"\n"):
            roundtrip(ctx, es, rng.randbytes(32), prefix, b"", rng.choice(["bytesio", "raw", "file"]))


def reference_written(ctx):
    """headers as the reference writes them"""
    rng = ctx.rng
    for _ in range(8):
        sts = [gen.unknown_stanza(rng) for _ in range(rng.choice([1, 2, 4]))]
        sts += [p.wrap(rng, b"k" * 16) for p in gen.parties(rng, rng.choice([1, 2]))]
        fk = rng.randbytes(16)
        data = ref.build_header(sts, fk)
        prefix = rng.choice(PREFIXES)
        kind = rng.choice(list(KINDS))
        with KINDS[kind](data + prefix) as f:
            h, mac = ctx.must("reading a header of the reference", load_header, f)
            ctx.equal(shape(h), [(s.type, s.args, ref.b64(s.body)) for s in sts], "entries of a header of the reference", header=data[:400])
            ctx.check(bytes(mac) == ref.parse_header(data)[2], "tag of a header of the reference")
            ctx.check(f.read() == prefix, "the stream is not at the first byte of the payload", prefix=prefix, stream=kind)
        # and through the writer again
        if all(s.args for s in sts):
            ctx.equal(write(h, mac), data, "a header read and written again")
        ctx.count("roundtrips")
        ctx.count("stream:" + kind)
        ctx.eval(("ref", [(s.type, len(s.args), len(s.body)) for s in sts], kind, prefix))


def files(ctx):
    """real files: the header of every written file reads back, positioned at the nonce"""
    rng = ctx.rng
    ps = gen.parties(rng, rng.choice([1, 2, 3]))
    with gen.hostile_urandom(rng):
        ct = gen.age_encrypt([p.recipient for p in ps], rng.randbytes(rng.randrange(50)))
    sts, _, mac, off = ref.parse_header(ct)
    for kind in ("bytesio", "raw", "pipe"):
        with KINDS[kind](ct) as f:
            h, m = ctx.must("reading the header of a written file", load_header, f)
            ctx.equal(shape(h), [(s.type, s.args, ref.b64(s.body)) for s in sts], "entries of a written file")
            ctx.check(bytes(m) == mac, "tag of a written file")
            ctx.check(f.read() == ct[off:], "the stream is not at the first byte of the payload", first=ct[off : off + 4], stream=kind)
        ctx.eval(("file", kind, ct[:200]))
    ctx.count("files")


def reject(ctx, what, data, kind="bytesio"):
    with KINDS[kind](data) as f:
        ctx.fails(what, load_header, f)
    ctx.eval((what, kind, data[:300]))


def truncated(ctx):
    rng = ctx.rng
    es = entries(rng)[:4]
    tag = rng.randbytes(32)
    data = write(build(es), tag)
    end = data.rindex(b"--- ") + 4
    cuts = range(end + 1) if end < 500 else sorted({0, 1, 20, 21, 22, 23, end, end - 1, end - 2, end - 3, end - 4, end - 5, *(rng.randrange(end) for _ in range(150))})
    for c in cuts:
        # entries called "---" are footers to a reader of the cut file only when the line starts so; lines start with "->"
        reject(ctx, f"header cut at byte {c} of {len(data)}", data[:c], "bytesio" if c % 7 else rng.choice(["file", "raw", "rawpipe"]))
        ctx.count("truncations")


def malformed(ctx):
    rng = ctx.rng
    es = entries(rng)[:4]
    tag = rng.randbytes(32)
    data = write(build(es), tag)
    payload = rng.randbytes(40)
    intro, rest = data.split(b"\n", 1)
    foot = data.rindex(b"--- ")
    bad = []
    for first in [b"", b"age-encryption.org/v2", b"age-encryption.org/v", b"age-encryption.org/v11", b"Age-encryption.org/v1", b"age-encryption.org/V1",
                  b"\xef\xbb\xbf" + intro, b"#" + intro, intro + b"#", intro + b"\x00", intro[1:], b"-" + intro, intro + b" " + intro, intro.upper(),
                  b" " + intro, intro + b" ", intro + b"\r", b"\t" + intro, intro + b"\xc2\xa0", intro + b"\x0c",
                  b"\n" + intro, b"-----BEGIN AGE ENCRYPTED FILE-----", b"age-encryption.org\\v1", b"age.encryption.org/v1", b"\xff\xfe", b"\xff" + intro]:
        bad.append((f"first line {first!r}", first + b"\n" + rest + payload))
    i = rng.randrange(len(intro))
    x = bytearray(intro)
    x[i] ^= 1 << rng.randrange(8)
    bad.append((f"first line {bytes(x)!r}", bytes(x) + b"\n" + rest + payload))
    bad.append(("no first line", rest + payload))
    bad.append(("entries without a footer", data[:foot]))
    bad.append(("entries without a footer, then text", data[:foot] + b"QUJD\n"))
    for f in [b"---", b"--- ", b"---  ", b"---\t", b"---\r"]:
        bad.append((f"footer {f!r}", data[:foot] + f + b"\n" + payload.replace(b"\n", b"x")))
    bad.append(("footer without a tag, then a newline", data[:foot] + b"---\n\n" + payload))
    bad.append(("tag on the next line", data[:foot] + b"---\n" + data[foot + 4 :]))
    bad.append(("version line only", intro + b"\n"))
    bad.append(("version line without newline", intro))
    bad.append(("nothing", b""))
    for what, d in bad:
        reject(ctx, what, d, rng.choice(["bytesio", "file", "raw"]))
        ctx.count("rejected")
    # positive control
    with Mem(data + payload) as f:
        ctx.must("the undamaged header", load_header, f)
    ctx.sample(header=data[:200])


def families(tier):
    q = tier == "quick"
    return [
        ("codec", 320 if q else 6000, codec),
        ("crowds", 12 if q else 60, crowds),
        ("body_lengths", 16 if q else 160, body_lengths),
        ("first_bytes", 8 if q else 40, first_bytes),
        ("reference_written", 60 if q else 1500, reference_written),
        ("files", 80 if q else 1500, files),
        ("truncated", 40 if q else 1000, truncated),
        ("malformed", 24 if q else 500, malformed),
    ]
