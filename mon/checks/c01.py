"""C01 round trip: whatever was written comes back, for every recipient of the file"""
import io

from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput

from mon import gen, ref, sources

PROPERTY = "C01"
RULE = (
    "a case = plaintext (sizes around multiples of 16 B / 64 KiB, hundreds of chunks, six content shapes) x random "
    "partition into writes x random non-empty recipient set x every recipient's identity x random read pattern; "
    "distinct = (length, write pattern, recipient kinds, opened by); oracle: byte equality with what was written"
)
ASSUMPTIONS = [
    "plaintexts up to 64 MiB are run in full; longer chunk counts only with the block size constants scaled down",
    "cryptography, PyNaCl and bcrypt are trusted",
]
REQUIRED = {"opened": 300, "opened:x25519": 50, "opened:ssh-ed25519": 50, "opened:ssh-rsa": 30, "opened:scrypt": 2, "chunks>256": 1, "empty": 3, "hostile": 20, "source_kinds": 60}


def roundtrip(ctx, parts, data, writes=None, opener=None):
    rng = ctx.rng
    writes = gen.split(rng, data) if writes is None else writes
    keys = [p.recipient for p in parts]
    conv = rng.randrange(4)
    if conv == 1:
        writes = [bytearray(w) for w in writes]
    elif conv == 2:
        writes = [memoryview(w) for w in writes]
    ct = gen.age_encrypt(gen.collection(rng, keys), data, writes)
    for p in opener if opener is not None else parts:
        d = gen.Decryptor(gen.collection(rng, [p.identity]), io.BytesIO(ct))
        got = gen.drain(rng, d)
        ctx.check(
            got == data,
            "decrypted bytes differ from what was written",
            length=len(data), got_length=len(got), first_diff=next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), None),
            recipients=parts, opened_by=p, writes=[len(w) for w in writes],
        )
        ctx.check(d.read() == b"" and d.read(5) == b"" and not d.read(None), "data after the end of the plaintext")
        ctx.count("opened")
        ctx.count("opened:" + p.kind)
        ctx.eval((len(data), [len(w) for w in writes], [q.kind for q in parts], p.kind))
    ctx.count("writes", len(writes))
    ctx.count("bytes", len(data))
    if not data:
        ctx.count("empty")
    ctx.sample(length=len(data), writes=[len(w) for w in writes][:8], recipients=parts, opened=opener or parts)


def mix(ctx):
    parts = gen.parties(ctx.rng, ctx.rng.choice([1, 1, 2, 3, 5]))
    roundtrip(ctx, parts, gen.plain(ctx.rng))


def boundaries(ctx):
    sizes = sorted(set(gen.SIZES) | {k * ref.CHUNK + d for k in (1, 2, 3, 4, 5, 7, 8, 9) for d in (-17, -16, -1, 0, 1, 15, 16, 17)})
    per = -(-len(sizes) // 12)
    for s in sizes[ctx.idx % 12 * per : (ctx.idx % 12 + 1) * per]:
        p = gen.party(ctx.rng, ("x25519", "ssh-ed25519"))
        roundtrip(ctx, [p], gen.plain(ctx.rng, s))


def short_lengths(ctx):
    """every length in a range: no residue class is special"""
    p = gen.XParty(ctx.rng.randbytes(32))
    for n in range(ctx.idx * 40, ctx.idx * 40 + 40):
        roundtrip(ctx, [p], gen.plain(ctx.rng, n))


def keys(ctx):
    """many keys, ephemeral secrets, file keys and nonces (data-dependent slips are rare)"""
    for _ in range(40):
        with gen.hostile_urandom(ctx.rng) as h:
            p = gen.party(ctx.rng, ("x25519", "x25519", "ssh-ed25519"))
            roundtrip(ctx, [p], ctx.bytes(ctx.rng.randrange(40)))
        ctx.count("hostile", h.calls > 0)


def rsa_keys(ctx):
    p = gen.RParty(ctx.rng.choice(gen.SMALL_RSA), ctx.rng.randrange(3, 1 << 30) | 1)
    for _ in range(25):
        with gen.hostile_urandom(ctx.rng):
            roundtrip(ctx, [p], ctx.bytes(ctx.rng.randrange(40)))


def rsa_sizes(ctx):
    names = sorted(gen.rsa_pool())
    p = gen.RParty(names[ctx.idx % len(names)])
    roundtrip(ctx, [p] + gen.parties(ctx.rng, 1, ("x25519",)), gen.plain(ctx.rng, None, 70000))


def passphrase(ctx):
    parts = [gen.PParty(gen.PASSWORDS[ctx.idx % len(gen.PASSWORDS)])]
    if ctx.idx % 3 == 1:
        parts += gen.parties(ctx.rng, 2)
        ctx.rng.shuffle(parts)
    roundtrip(ctx, parts, gen.plain(ctx.rng, None, 70000))


def many_writes(ctx):
    n = 3000
    data = ctx.bytes(n + 40000 * (ctx.idx % 2))
    cuts = [data[i : i + 1] for i in range(n)] + [data[n:]]
    for _ in range(50):
        cuts.insert(ctx.rng.randrange(len(cuts)), b"")
    roundtrip(ctx, gen.parties(ctx.rng, 1, ("x25519",)), data, cuts)


def big(ctx):
    n = [257, 300, 513, 256, 258][ctx.idx % 5] if ctx.tier == "quick" or ctx.idx < 5 else ctx.rng.randrange(500, 1025)
    size = n * ref.CHUNK + ctx.rng.choice([-1, 0, 1, 12345])
    # position-dependent content so that exchanged chunks show
    block = ctx.bytes(ref.CHUNK - 4)
    data = b"".join(i.to_bytes(4, "big") + block for i in range(n + 1))[:size]
    roundtrip(ctx, gen.parties(ctx.rng, 1), data, [data[: size // 3], data[size // 3 :]])
    ctx.count("chunks>256", n > 256)


def source_kinds(ctx):
    """the same file delivered by streams of every kind"""
    rng = ctx.rng
    p = gen.party(rng, ("x25519", "ssh-ed25519"))
    for kind, make in sources.KINDS.items():
        size = rng.choice([0, 10, 1000, ref.CHUNK, 3 * ref.CHUNK + 5])
        # what compresses well is longer than the file behind it
        data = gen.plain(rng, size)
        ct = gen.age_encrypt(gen.collection(rng, [p.recipient]), data)
        with make(ct, rng) as f:
            d = ctx.must(f"decrypting from a stream of kind {kind}", gen.Decryptor, gen.collection(rng, [p.identity]), f)
            got = gen.drain(rng, d)
            ctx.check(got == data, "decrypted bytes differ from what was written", source=kind, length=len(data), got_length=len(got))
            ctx.check(not f.closed, "the source was closed", source=kind)
        ctx.count("source_kinds")
        # an armored one
        b = io.BytesIO()
        a = AsciiArmoredOutput("AGE ENCRYPTED FILE", b)
        a.write(ct)
        a.close()
        with make(b.getvalue(), rng) as f:
            try:
                r = AsciiArmoredInput("AGE ENCRYPTED FILE", f)
            except AttributeError:
                # io.TextIOWrapper does not take streams without readable()
                ctx.count("no_text:" + kind)
                continue
            ctx.check(r.read() == ct, "dearmored bytes differ from what was written", source=kind)
        ctx.eval(("source", kind, size, p.kind))


def tiny_blocks(ctx):
    """2^16 and more chunks, with the module's block size constants scaled down"""
    import age.stream as s

    k = [1, 2, 16][ctx.idx % 3]
    names = ("PLAINTEXT_BLOCK_SIZE", "CIPHERTEXT_BLOCK_SIZE")
    if not all(isinstance(getattr(s, n, None), int) for n in names):
        ctx.count("tiny_skipped")
        return
    old = [getattr(s, n) for n in names]
    try:
        s.PLAINTEXT_BLOCK_SIZE, s.CIPHERTEXT_BLOCK_SIZE = k, k + 16
        key = ctx.bytes(32)
        probe = ctx.bytes(3 * k)
        if s.stream_encrypt(key, probe) != ref.stream_enc(key, probe, k):
            ctx.count("tiny_skipped")  # the constants do not (only) mean what we think
            return
        n = 66000 if ctx.idx < 3 else 20000
        data = ctx.bytes(n * k)
        ct = s.stream_encrypt(key, data)
        ctx.check(ct == ref.stream_enc(key, data, k), "payload of many chunks differs from the STREAM construction", chunks=n, block=k)
        ctx.check(s.stream_decrypt(key, ct) == data, "payload of many chunks does not round-trip", chunks=n, block=k)
        ctx.count("tiny_chunks", n)
        ctx.eval(("tiny", k, n))
    finally:
        for n, v in zip(names, old):
            setattr(s, n, v)


def families(tier):
    q = tier == "quick"
    return [
        ("mix", 400 if q else 6000, mix),
        ("boundaries", 24 if q else 240, boundaries),
        ("short_lengths", 10 if q else 60, short_lengths),
        ("keys", 60 if q else 1500, keys),
        ("rsa_keys", 24 if q else 300, rsa_keys),
        ("rsa_sizes", 14 if q else 140, rsa_sizes),
        ("passphrase", 6 if q else 48, passphrase),
        ("many_writes", 4 if q else 24, many_writes),
        ("source_kinds", 10 if q else 120, source_kinds),
        ("big", 2 if q else 12, big),
        ("tiny_blocks", 1 if q else 6, tiny_blocks),
    ]
