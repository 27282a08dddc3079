"""C03 no matching identity: the NoIdentity error and not a byte of plaintext"""
import unicodedata

from age.exceptions import NoIdentity

from mon import cli, gen, ref
from mon.world import World

PROPERTY = "C03"
RULE = (
    "a case = file x set of identities none of which belongs to it, built as near misses (one-edit passphrases, "
    "typed at the prompt too, one-bit keys, colliding SSH tags, converted keys of the other kind, key pairs of the same user); distinct = "
    "(entry kinds, identity kinds, kind of near miss, position); oracle: exactly NoIdentity is raised, and the right "
    "identity still opens the file (positive control)"
)
ASSUMPTIONS = [
    "scrypt (like every PBKDF2-HMAC construction) cannot tell a passphrase from the same one with NUL bytes appended, "
    "or one longer than 64 bytes from its digest: these are not generated",
]
REQUIRED = {"refused": 1000, "control": 300, "pw_near_miss": 400, "bit_near_miss": 300, "tag_collision": 20, "no_identities": 5, "no_entries": 5, "prompted": 100, "twins": 60}
ALL = ("x25519", "ssh-ed25519", "ssh-rsa", "scrypt")


def worker_done():
    cli.stop()


def refused(ctx, ids, ct, what, sig):
    with gen.muted():
        ctx.fails(f"decrypting {what}", gen.age_decrypt, ids, ct, kinds=(NoIdentity,))
    ctx.count("refused")
    ctx.eval(sig)


def control(ctx, p, ct, data):
    with gen.muted():
        got = ctx.must("decrypting with the right identity", gen.age_decrypt, [p.identity], ct)
    ctx.check(got == data, "wrong plaintext with the right identity")
    ctx.count("control")


def variants(rng, pw):
    """near misses of a text passphrase"""
    out = {}
    for i, c in enumerate(pw):
        out[f"drop{i}"] = pw[:i] + pw[i + 1 :]
        out[f"dup{i}"] = pw[:i] + c + pw[i:]
        out[f"case{i}"] = pw[:i] + c.swapcase() + pw[i + 1 :]
        out[f"chr{i}"] = pw[:i] + chr(ord(c) ^ 1 or 65) + pw[i + 1 :]
        if i:
            out[f"swap{i}"] = pw[: i - 1] + c + pw[i - 1] + pw[i + 1 :]
    for name, f in {
        "lead": " " + pw, "trail": pw + " ", "nl": pw + "\n", "crlf": pw + "\r\n", "tab": "\t" + pw, "cr": pw + "\r",
        "upper": pw.upper(), "lower": pw.lower(), "title": pw.title(), "strip": pw.strip(), "fold": pw.casefold(),
        "nfc": unicodedata.normalize("NFC", pw), "nfd": unicodedata.normalize("NFD", pw),
        "nfkc": unicodedata.normalize("NFKC", pw), "nfkd": unicodedata.normalize("NFKD", pw),
        "empty": "", "double": pw + pw, "rev": pw[::-1], "nbsp": pw.replace(" ", "\u00a0"), "sp2": pw.replace(" ", "  "),
        "bom": "\ufeff" + pw, "zwsp": pw + "\u200b", "x": pw + "x", "latin": pw.replace("\u00e4", "a"),
    }.items():
        out[name] = f
    return {k: v for k, v in out.items() if v != pw and v.rstrip("\0") != pw}


TEXTS = [
    "correct horse battery staple", "Tr0ub4dor&3", " leading", "trailing ", "pa\u00dfwort \u00e4\u00f6\u00fc", "\u212bngstr\u00f6m \ufb01n",
    "\u30d1\u30b9\u30ef\u30fc\u30c9", "a", "0", "1234567890" * 6 + "1234", "x" * 80, "y" * 130, "caf\u00e9", "\u0130stanbul", "p\tq r\nz",
]


EXTRA = ["x\u00b2y", "\uff41\uff42c", "e\u0301te", "1\u00bd", "\u00c5ngstrom", "na\u00efve\u00a0x", "\ufb03"]
PROMPTS = len([t for t in TEXTS + EXTRA if t.isprintable()])


def passwords(ctx):
    rng = ctx.rng
    pw = TEXTS[ctx.idx % len(TEXTS)]
    if ctx.idx >= len(TEXTS):
        pw += rng.choice(TEXTS)
    me = gen.PParty(pw.encode())
    extra = gen.parties(rng, rng.choice([0, 0, 1]), ("x25519",))
    data = gen.plain(rng, None, 300)
    fk = rng.randbytes(16)
    logn = rng.randrange(1, 7)
    ct = ref.encrypt(fk, rng.randbytes(16), [me.wrap(rng, fk, logn)] + [p.wrap(rng, fk) for p in extra], data)
    control(ctx, me, ct, data)
    for name, v in variants(rng, pw).items():
        refused(ctx, [gen.PasswordKey(v.encode("utf-8"))], ct, f"with passphrase {v!r} instead of {pw!r}", ("pw", pw, name))
        ctx.count("pw_near_miss")
    ctx.sample(passphrase=pw, variants=len(variants(rng, pw)))


def prompt(ctx):
    """near misses typed at the prompt of the decrypt command"""
    rng = ctx.rng
    pw = [t for t in TEXTS + EXTRA if t.isprintable()][ctx.idx % PROMPTS]
    me = gen.PParty(pw.encode())
    data = b"the quick brown fox"
    ct = gen.ref_file(rng, [me], data)
    w = World(ctx)
    r = cli.run(["decrypt", "-p"], w.home, stdin=ct, passphrase=pw)
    ctx.check(r.code == 0 and r.out == data, "the right passphrase typed at the prompt does not decrypt", passphrase=pw, result=r)
    ctx.count("control")
    vs = {k: v for k, v in variants(rng, pw).items() if v.isprintable() and v}
    always = [k for k in vs if not k[-1].isdigit()]
    rest = [k for k in vs if k[-1].isdigit()]
    for name in always + rng.sample(rest, min(3, len(rest))):
        v = vs[name]
        r = cli.run(["decrypt", "-p"], w.home, stdin=ct, passphrase=v)
        ctx.check(r.code != 0, f"passphrase {v!r} typed instead of {pw!r}: exit status 0", result=r)
        ctx.check(r.out == b"" and data not in r.err, f"passphrase {v!r} typed instead of {pw!r}: plaintext came out", result=r)
        ctx.check(b"NoIdentity" in r.err or b"No matching" in r.err, f"passphrase {v!r} typed instead of {pw!r}: the error does not say that no identity matched", result=r)
        ctx.count("prompted")
        ctx.eval(("prompt", pw, name))


def password_bytes(ctx):
    """binary passphrases, every byte counts, long ones too"""
    rng = ctx.rng
    n = [1, 8, 16, 55, 56, 63, 64, 65, 71, 72, 73, 100, 127, 128, 129, 255, 256, 257, 1000, 4097][ctx.idx % 20]
    pw = rng.randbytes(n - 1) + bytes([rng.randrange(1, 256)])
    me = gen.PParty(pw)
    data = b"secret"
    ct = gen.ref_file(rng, [gen.PParty(pw)], data)
    control(ctx, me, ct, data)
    pos = range(n) if n <= 130 else sorted(rng.sample(range(n), 60) + [n - 1, 0, 63, 64, 71, 72])
    for i in pos:
        v = bytearray(pw)
        v[i] ^= 1 << rng.randrange(8)
        if bytes(v).rstrip(b"\0") == pw.rstrip(b"\0"):
            continue
        refused(ctx, [gen.PasswordKey(bytes(v))], ct, f"with byte {i} of {n} of the passphrase changed", ("pwb", n, i))
        ctx.count("pw_near_miss")
    for v in (pw[:-1], pw[:64], pw[:72], pw[:32]):
        if v.rstrip(b"\0") != pw.rstrip(b"\0"):
            refused(ctx, [gen.PasswordKey(v)], ct, f"with the passphrase of {n} cut to {len(v)}", ("pwcut", n, len(v)))


def bits(ctx):
    """private keys that differ in one significant bit"""
    rng = ctx.rng
    kind = ctx.idx % 2
    data = gen.plain(rng, None, 200)
    if kind == 0:
        sk = ref.clamp(rng.randbytes(32))
        me = gen.XParty(sk)
    else:
        me = gen.EParty(rng.randbytes(32))
    ct = gen.age_encrypt([me.recipient], data) if rng.random() < 0.5 else gen.ref_file(rng, [me], data)
    control(ctx, me, ct, data)
    for bit in rng.sample(range(256), 64):
        raw = bytearray(me.sk if kind == 0 else me.seed)
        if kind == 0 and (bit in (0, 1, 2) or bit >= 254):
            continue  # clamped away: the same key
        raw[bit // 8] ^= 1 << (bit % 8)
        other = gen.XParty(bytes(raw)) if kind == 0 else gen.EParty(bytes(raw))
        refused(ctx, [other.identity], ct, f"with bit {bit} of the key flipped", ("bit", kind, bit))
        ctx.count("bit_near_miss")


def collision(ctx):
    rng = ctx.rng
    kind = ["ssh-rsa", "ssh-ed25519"][ctx.idx % 2]
    owner, me = gen.parties(rng, 2, (kind,))
    if kind == "ssh-rsa" and ctx.idx % 4 == 0:
        # same modulus, other exponent
        name = rng.choice(gen.SMALL_RSA)
        owner, me = gen.RParty(name), gen.RParty(name, rng.randrange(70001, 1 << 30) | 1)
    data = gen.plain(rng, None, 200)
    fk = rng.randbytes(16)
    st = owner.wrap(rng, fk)
    mine = me.wrap(rng, fk).args[0]
    good = ref.encrypt(fk, rng.randbytes(16), [st], data)
    control(ctx, owner, good, data)
    st2 = ref.Stanza(st.type, [mine] + st.args[1:], st.body)
    ct = ref.encrypt(fk, rng.randbytes(16), [st2], data)
    refused(ctx, [me.identity], ct, f"an entry of {owner} whose tag was made that of {me}", ("coll", kind, owner.name, me.name))
    refused(ctx, [owner.identity], ct, "an entry whose tag is not ours", ("colltag", kind, owner.name))
    ctx.count("tag_collision")


def twins(ctx):
    """the file is for a key which has the tag of ours"""
    rng = ctx.rng
    for _ in range(6):
        a, b = gen.twins(rng)
        data = gen.plain(rng, None, 200)
        parts = [a] + gen.parties(rng, rng.randrange(2), ("x25519",))
        rng.shuffle(parts)
        ct = gen.age_encrypt([p.recipient for p in parts], data) if rng.random() < 0.5 else gen.ref_file(rng, parts, data)
        refused(ctx, [b.identity] + [p.identity for p in gen.parties(rng, rng.randrange(2), ("ssh-rsa", "ssh-ed25519")) if repr(p) != repr(a)], ct, f"a file for {a} with {b}, whose tag is the same", ("twins", a.name, len(parts)))
        control(ctx, a, ct, data)
        ctx.count("twins")


def ring(ctx):
    rng = ctx.rng
    owners = gen.parties(rng, rng.choice([0, 1, 2, 5]), ALL)
    strangers = gen.parties(rng, rng.choice([0, 1, 2, 5, 12]), ALL)
    own = {repr(p) for p in owners}
    strangers = [s for s in strangers if repr(s) not in own]
    data = gen.plain(rng, None, 2000)
    extra = [gen.unknown_stanza(rng) for _ in range(rng.choice([0, 0, 1, 3]))]
    ct = gen.ref_file(rng, owners, data, extra)
    refused(
        ctx, [s.identity for s in strangers], ct, f"a file for {owners} with {strangers}",
        ("ring", [p.kind for p in owners], [p.kind for p in strangers], len(extra)),
    )
    if owners:
        control(ctx, rng.choice(owners), ct, data)
    ctx.count("no_identities", not strangers)
    ctx.count("no_entries", not owners)
    ctx.sample(owners=owners, strangers=strangers)


def written(ctx):
    """files written by pyage itself (no fallback entry sneaks in)"""
    rng = ctx.rng
    owners = gen.parties(rng, rng.choice([1, 2, 4]))
    strangers = gen.parties(rng, 6, ALL)
    own = {repr(p) for p in owners}
    strangers = [s for s in strangers if repr(s) not in own]
    # identities an erroneous derivation might produce
    zero = [gen.XParty(bytes(32)), gen.XParty(b"\xff" * 32), gen.EParty(bytes(32)), gen.PParty(b"x"), gen.PParty(b"\0")]
    zero = [z for z in zero if repr(z) not in own]
    data = gen.plain(rng, None, 2000)
    ct = gen.age_encrypt([p.recipient for p in owners], data)
    refused(ctx, [s.identity for s in strangers + zero], ct, f"a file for {owners}", ("written", [p.kind for p in owners]))
    control(ctx, rng.choice(owners), ct, data)


def cousins(ctx):
    """the same user's key in another role, public material used as a secret, same passphrase elsewhere"""
    rng = ctx.rng
    e = gen.EParty(rng.randbytes(32))
    conv = gen.XParty(ref.ed_seed_to_scalar(e.seed))
    data = gen.plain(rng, None, 200)
    ct_e = gen.age_encrypt([e.recipient], data)
    ct_x = gen.age_encrypt([conv.recipient], data)
    control(ctx, e, ct_e, data)
    control(ctx, conv, ct_x, data)
    refused(ctx, [conv.identity], ct_e, "an ssh-ed25519 entry with the converted age key", "cousin1")
    refused(ctx, [e.identity], ct_x, "an X25519 entry with the SSH key", "cousin2")
    for raw in (e.pk, conv.pk, e.seed, bytes(32), ref.BASE, e.pk[::-1]):
        refused(ctx, [gen.XParty(raw).identity], ct_e, "an ssh-ed25519 entry with public material as key", "cousin3")
        if raw != conv.sk:
            refused(ctx, [gen.XParty(raw).identity], ct_x, "an X25519 entry with public material as key", "cousin4")
        refused(ctx, [gen.PasswordKey(raw), gen.PasswordKey(ref.pub_string(conv.pk).encode())], ct_x, "an X25519 entry with a passphrase", "cousin5")
    ctx.eval(("cousins", e.name))


def families(tier):
    q = tier == "quick"
    return [
        ("passwords", 15 if q else 150, passwords),
        ("password_bytes", 20 if q else 100, password_bytes),
        ("prompt", PROMPTS if q else PROMPTS * 8, prompt),
        ("bits", 16 if q else 300, bits),
        ("collision", 60 if q else 800, collision),
        ("twins", 20 if q else 300, twins),
        ("ring", 300 if q else 5000, ring),
        ("written", 80 if q else 1000, written),
        ("cousins", 24 if q else 300, cousins),
    ]
