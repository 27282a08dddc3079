"""C09 passphrase entries: strong when written, refused before the work when too expensive"""
import hashlib
import resource

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C09"
RULE = (
    "a case = a written passphrase file (its entry inspected and opened by the reference), a reference entry with one bit of "
    "passphrase, salt or work factor changed under a correct header tag, or an entry with a forbidden work factor, "
    "while a monitor at the scrypt boundary records the cost of every derivation that is started; distinct = "
    "(kind, passphrase, work-factor text)"
)
ASSUMPTIONS = [
    "derivations go through cryptography's Scrypt or hashlib.scrypt (an address-space limit backs this up)",
    "passphrases that are the same HMAC key by definition (trailing NULs, digest of a passphrase over 64 bytes) are not told apart by any scrypt",
]
REQUIRED = {"written": 16, "near_pass": 150, "near_salt": 60, "near_cost": 30, "refused": 150, "derivations_seen": 300, "positive": 60, "allowed_high": 4, "allowed_unfit": 4}

MAXN = 1 << 22


class TooExpensive(Exception):
    pass


class Recorder:
    """cost of every scrypt derivation that is started; those above the limit are stopped"""

    def __init__(self, fake=None):
        self.costs, self.fake = [], fake

    def __enter__(self):
        from cryptography.hazmat.primitives.kdf import scrypt as m

        self.cls = m.Scrypt
        self.real_init, self.real_derive = self.cls.__init__, self.cls.derive
        self.real_h = hashlib.scrypt
        rec = self

        def init(obj, salt, length, n, r, p, *a, **kw):
            obj._mon_n = n
            return rec.real_init(obj, salt, length, n, r, p, *a, **kw)

        def derive(obj, key_material):
            r = rec.started(getattr(obj, "_mon_n", None))
            return r if r is not None else rec.real_derive(obj, key_material)

        def hsc(password, *, salt, n, r, p, maxmem=0, dklen=64):
            v = rec.started(n)
            return v if v is not None else rec.real_h(password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)

        self.cls.__init__, self.cls.derive, hashlib.scrypt = init, derive, hsc
        return self

    def started(self, n):
        self.costs.append(n)
        if self.fake is not None:
            return self.fake
        if n is not None and n > MAXN:
            raise TooExpensive(n)

    def __exit__(self, *a):
        self.cls.__init__, self.cls.derive, hashlib.scrypt = self.real_init, self.real_derive, self.real_h


def worker_init():
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))


def password(rng):
    if rng.random() < 0.4:
        return rng.choice(gen.PASSWORDS)
    return rng.randbytes(rng.choice([1, 2, 8, 16, 31, 63, 64, 65, 100, 200]))


def hmac_equal(a, b):
    n = lambda k: (hashlib.sha256(k).digest() if len(k) > 64 else k).ljust(64, b"\0")
    return n(a) == n(b)


def written(ctx):
    rng = ctx.rng
    pws = [password(rng)]
    if rng.random() < 0.3:
        pws.append(password(rng) + b"2")
    pt = ctx.bytes(rng.randrange(50))
    with Recorder() as rec:
        ct = gen.age_encrypt([gen.PasswordKey(p) for p in pws], pt)
    ctx.count("derivations_seen", len(rec.costs))
    sts, _, _, off = ref.parse_header(ct)
    ctx.equal([s.type for s in sts], ["scrypt"] * len(pws), "entries of a passphrase file")
    for st, pw in zip(sts, pws):
        ctx.check(len(st.args) == 2, "scrypt entry arguments", args=st.args)
        ctx.equal(len(ref.unb64(st.args[0])), 16, "salt length")
        logn = int(st.args[1])
        ctx.check(logn >= 18, "work factor below 2^18", logn=logn)
        ctx.check(logn <= 22, "work factor nobody may accept", logn=logn)
        fk = ctx.must("reference derivation with salt, work factor and the complete passphrase", ref.unwrap_scrypt, st, pw)
        ctx.equal(ref.open_payload(ct, off, fk), pt, "plaintext")
        ctx.count("written")
        ctx.eval(("written", pw))
    ctx.sample(password=pws[0], entry=sts[0].args)


def decrypt_must_not(ctx, what, pws, ct, exc=True):
    from age.exceptions import NoIdentity

    ctx.fails(what, gen.age_decrypt, [gen.PasswordKey(p) for p in pws], ct, kinds=(NoIdentity,) if exc else (Exception,))
    ctx.eval((what, pws[0], ct[:120]))


def variants(rng, pw):
    out = []
    for i in sorted({0, len(pw) - 1, rng.randrange(len(pw)), rng.randrange(len(pw))}):
        b = bytearray(pw)
        b[i] ^= 1 << rng.randrange(8)
        out.append(bytes(b))
        out.append(pw[:i] + pw[i + 1 :])
        out.append(pw[:i] + bytes([rng.randrange(256)]) + pw[i:])
    out += [pw + pw, pw + b" ", pw + b"\n", b" " + pw, pw + b"\0x", pw.upper(), pw.lower(), pw.strip(), pw[::-1], pw[:8], pw[:16], pw[:32], pw[:64], pw[:72], pw.rstrip(b"\n"), b""]
    return [v for v in dict.fromkeys(out) if not hmac_equal(v, pw)]


def near_pass(ctx):
    rng = ctx.rng
    pw = password(rng)
    p = gen.PParty(pw)
    ct = gen.ref_file(rng, [p], b"secret")
    with Recorder() as rec:
        ctx.equal(ctx.must("the right passphrase", gen.age_decrypt, [p.identity], ct), b"secret", "plaintext")
        ctx.count("positive")
        for v in variants(rng, pw):
            decrypt_must_not(ctx, f"passphrase {v!r} instead of {pw!r}", [v], ct)
            ctx.count("near_pass")
    ctx.count("derivations_seen", len(rec.costs))


def near_params(ctx):
    rng = ctx.rng
    pw = password(rng)
    p = gen.PParty(pw)
    fk = ctx.bytes(16)
    logn = rng.randrange(2, 11)
    salt = ctx.bytes(16)
    st = ref.wrap_scrypt(fk, pw, salt, logn)
    nonce = ctx.bytes(16)

    def file(args):
        return ref.encrypt(fk, nonce, [ref.Stanza("scrypt", args, st.body)], b"secret")

    with Recorder() as rec:
        ctx.equal(ctx.must("the right passphrase", gen.age_decrypt, [p.identity], file(st.args)), b"secret", "plaintext")
        ctx.count("positive")
        ctx.check(not rec.costs or set(rec.costs) == {1 << logn}, "derivation cost differs from the entry's work factor", costs=rec.costs, logn=logn)
        for _ in range(6):
            b = bytearray(salt)
            b[rng.randrange(16)] ^= 1 << rng.randrange(8)
            decrypt_must_not(ctx, "entry with a changed salt", [pw], file([ref.b64(bytes(b)), str(logn)]))
            ctx.count("near_salt")
        for d in (-1, 1, rng.randrange(2, 5)):
            n2 = max(1, logn + d)
            decrypt_must_not(ctx, f"entry with work factor {n2} instead of {logn}", [pw], file([st.args[0], str(n2)]))
            ctx.count("near_cost")
    ctx.count("derivations_seen", len(rec.costs))


HUGE = [23, 24, 25, 30, 31, 32, 33, 40, 62, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 10**9, 2**31 - 1, 2**31, 2**32, 2**63, 2**64 + 18, 10**40, 10**4000, 10**5000]
BAD = [
    "-1", "-18", "-0", "-4", "-64", "+18", "018", "0018", "1_8", "1_0", "\uff11\uff18", "\u0661\u0668", "18.0", "1e1", "0x12", "0b1",
    "0o22", "x", "18a", "a18", "-", "+", "\u00b2", "18\u200b", "NaN", "inf", "\uff0d1", "1.8", "18,", "~18", "18=", "--18", "True", "+0", "-22",
]


def refused(ctx):
    """no derivation at all for the forbidden entry, whatever else is in the file"""
    rng = ctx.rng
    pw = password(rng)
    fk, nonce = ctx.bytes(16), ctx.bytes(16)
    values = [str(h) if h < 10**100 else f"1{'0' * (4000 if h < 10**4500 else 5000)}" for h in HUGE] + BAD
    for v in rng.sample(values, 12) + ["23"] + [None]:
        args = [ref.b64(ctx.bytes(16))] + ([v] if v is not None else [])
        # what a lenient reader would come up with
        try:
            n = int(v)
        except (TypeError, ValueError):
            n = 18 if rng.random() < 0.3 else 3
        key = ref.scrypt(pw, ref.S_LABEL + ref.unb64(args[0]), n if 1 <= n <= 12 else 3)
        sts = [ref.Stanza("scrypt", args, ref.aead_enc(key, ref.ZERO12, fk))]
        costs_ok = set()
        shape = rng.randrange(4)
        if shape == 1:
            sts.insert(rng.randrange(2), gen.XParty(ctx.bytes(32)).wrap(rng, fk))
        if shape == 2:
            # an affordable entry for somebody else's passphrase before or after
            sts.insert(rng.randrange(2), ref.wrap_scrypt(fk, pw + b"!", ctx.bytes(16), 2))
            costs_ok = {4}
        ids = [pw] if rng.random() < 0.7 else [pw + b"?", pw]
        ct = ref.encrypt(fk, nonce, sts, b"secret")
        with Recorder() as rec:
            try:
                decrypt_must_not(ctx, f"work factor {(v or 'missing')[:40]!r}", ids, ct, exc=False)
            finally:
                started = [c for c in rec.costs if c not in costs_ok]
        if started:
            raise Violation(f"derivation with N={started[0]} started for work factor {(v or 'missing')[:40]!r}")
        ctx.count("refused")
        ctx.eval(("refused", v, shape))


def allowed(ctx):
    """work factors up to the limit are served: derivation answered by a stand-in"""
    rng = ctx.rng
    fk, fake = ctx.bytes(16), ctx.bytes(32)
    for logn in (19, 20, 21, 22):
        st = ref.Stanza("scrypt", [ref.b64(ctx.bytes(16)), str(logn)], ref.aead_enc(fake, ref.ZERO12, fk))
        ct = ref.encrypt(fk, ctx.bytes(16), [st], b"secret")
        with Recorder(fake) as rec:
            try:
                got = gen.age_decrypt([gen.PasswordKey(b"pw")], ct)
            except Exception as e:
                got = e
        if not rec.costs and isinstance(got, MemoryError):
            ctx.count("allowed_unseen")
            continue
        ctx.check(got == b"secret", f"work factor {logn} not accepted", got=repr(got))
        ctx.equal(rec.costs, [1 << logn], "derivation cost")
        ctx.count("allowed_high")
        # the same entry when nothing fits: no attempt at other costs either
        with Recorder(ctx.bytes(32)) as rec:
            try:
                gen.age_decrypt([gen.PasswordKey(b"pw"), gen.PasswordKey(b"pw2")], ct)
            except Exception as e:
                ctx.count("err:" + type(e).__name__)
            else:
                raise Violation("an entry opens with a passphrase that does not fit", logn=logn)
        if rec.costs and max(rec.costs) > MAXN:
            raise Violation(f"derivation with N={max(rec.costs)} started for an entry with work factor {logn}", costs=rec.costs)
        ctx.count("allowed_unfit")
        ctx.eval(("allowed", logn))


def real_high(ctx):
    """really derived, at and above the default"""
    rng = ctx.rng
    logn = [18, 19, 20][ctx.idx % 3]
    p = gen.PParty(password(rng))
    fk = ctx.bytes(16)
    ct = ref.encrypt(fk, ctx.bytes(16), [p.wrap(rng, fk, logn)], b"secret")
    ctx.equal(ctx.must(f"work factor {logn}", gen.age_decrypt, [p.identity], ct), b"secret", "plaintext")
    ctx.count("positive")
    ctx.eval(("real", logn))


def families(tier):
    q = tier == "quick"
    return [
        ("written", 20 if q else 150, written),
        ("near_pass", 30 if q else 600, near_pass),
        ("near_params", 40 if q else 800, near_params),
        ("refused", 24 if q else 500, refused),
        ("allowed", 1 if q else 4, allowed),
        ("real_high", 3 if q else 12, real_high),
    ]
