"""C24 low-order points never become a recipient and never unlock a file"""
import base64
import io

from age.file import Decryptor, Encryptor
from age.keyloader import resolve_public_key
from age.keys.agekey import AgePublicKey
from age.keys.ed25519 import Ed25519PublicKey

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C24"
RULE = (
    "a case = an attempt to encrypt to a public key that is a low-order point (X25519 encodings, or Ed25519 encodings that convert to "
    "one), alone or among valid recipients, or a file crafted without any secret whose entry uses a low-order share; the first has to "
    "fail without output, the second must not open; each with a positive control; distinct = (encoding, entry kind, place, identity)"
)
ASSUMPTIONS = [
    "low-order X25519 encodings are the seven published ones, their non-canonical forms (plus p) and both settings of the ignored top bit",
    "crafted entries cover the keys an attacker can compute: all-zero shared secret, with and without the tweak, salts built from either share",
]
REQUIRED = {"encrypt_refused": 200, "entries_refused": 1500, "controls": 200, "ed_points": 14, "x_points": 14, "opened_with_valid_entry": 60}

ZERO = bytes(32)
P = 2**255 - 19


def low_order_u():
    """every 32-byte string whose u-coordinate (top bit ignored) has order 1, 2, 4 or 8 on the curve or its twist"""
    return list(dict.fromkeys(ref.LOW_ORDER))


def low_order_ed():
    """encodings of Ed25519 points of low order, canonical or not, and points that convert to u in {0, 1, -1, ...}"""
    ys = []
    # u = (1+y)/(1-y): y = (u-1)/(u+1)
    for u in {int.from_bytes(x[:31] + bytes([x[31] & 127]), "little") % P for x in low_order_u()}:
        if (u + 1) % P:
            ys.append((u - 1) * pow(u + 1, P - 2, P) % P)
    ys.append(1)  # the neutral element; its conversion divides by zero
    out = []
    for y in dict.fromkeys(ys):
        for v in (y, y + P):
            if v < 2**255:
                b = v.to_bytes(32, "little")
                out += [b, b[:31] + bytes([b[31] | 0x80])]
    return list(dict.fromkeys(out))


X = low_order_u()
E = low_order_ed()


def ed_key(pk):
    """the public key object for any 32 bytes the library accepts"""
    from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey as K

    return Ed25519PublicKey(K.from_public_bytes(pk))


def refuse_encrypt(ctx, what, make, others, sig):
    """constructing the key, the encryptor or finishing it has to fail, and the target stays empty"""
    rng = ctx.rng
    out = io.BytesIO()

    def go():
        key = make()
        keys = [o.recipient for o in others]
        keys.insert(rng.randrange(len(keys) + 1), key)
        enc = Encryptor(keys, out)
        enc.write(b"secret")
        enc.close()

    ctx.fails(what, go)
    ctx.check(out.getvalue() == b"", "output although the recipient was refused", what=what, output=out.getvalue()[:200])
    ctx.count("encrypt_refused")
    ctx.eval(("enc", *sig))


def encrypt_x(ctx):
    rng = ctx.rng
    pt = X[ctx.idx % len(X)]
    s = ref.pub_string(pt)
    for n in (0, 1, 3):
        others = gen.parties(rng, n)
        refuse_encrypt(ctx, f"encrypting to {s}", lambda: AgePublicKey.from_public_string(s), others, (s, n))
        refuse_encrypt(ctx, f"encrypting to {pt.hex()}", lambda: AgePublicKey.from_public_bytes(pt), others, (pt, n))
        refuse_encrypt(ctx, f"encrypting to argument {s}", lambda: resolve_public_key(s)[0], others, ("arg", s, n))
    # next to the low-order points lie valid ones
    near = bytes([pt[0] ^ 2]) + pt[1:]
    if near not in X:
        ctx.must("encrypting to a valid key", gen.age_encrypt, [AgePublicKey.from_public_bytes(near)], b"x")
    p = gen.XParty(rng.randbytes(32))
    ct = gen.age_encrypt([AgePublicKey.from_public_string(p.cli_recipient)], b"x")
    ctx.check(gen.age_decrypt([p.identity], ct) == b"x", "positive control")
    ctx.count("controls")
    ctx.count("x_points")
    ctx.sample(point=pt.hex(), key=s)


def encrypt_ed(ctx):
    rng = ctx.rng
    pk = E[ctx.idx % len(E)]
    line = "ssh-ed25519 " + base64.b64encode(ref.ed_wire(pk)).decode()
    for n in (0, 1, 2):
        others = gen.parties(rng, n)
        refuse_encrypt(ctx, f"encrypting to {line}", lambda: Ed25519PublicKey.from_ssh_public_key(line.encode()), others, ("ssh", pk, n))
        refuse_encrypt(ctx, f"encrypting to argument {line}", lambda: resolve_public_key(line)[0], others, ("sshline", pk, n))
        refuse_encrypt(ctx, f"encrypting to Ed25519 {pk.hex()}", lambda: ed_key(pk), others, ("ed", pk, n))
        # and through its conversion to an age key
        refuse_encrypt(ctx, f"encrypting to the age key of Ed25519 {pk.hex()}", lambda: ed_key(pk).to_age_public_key(), others, ("conv", pk, n))
    p = gen.EParty(rng.randbytes(32))
    ct = gen.age_encrypt([resolve_public_key(p.ssh_line)[0]], b"x")
    ctx.check(gen.age_decrypt([p.identity], ct) == b"x", "positive control")
    ctx.count("controls")
    ctx.count("ed_points")
    ctx.sample(pk=pk.hex())


def crafted_x(fk, pk, share, secret=ZERO):
    """what an attacker knowing the public key alone can write with this share"""
    out = []
    for salt in (share + pk, ZERO + pk, share, pk, b""):
        key = ref.hkdf(secret, salt, ref.X_LABEL, 32)
        out.append(ref.Stanza("X25519", [ref.b64(share)], ref.aead_enc(key, ref.ZERO12, fk)))
    return out


def crafted_ed(fk, pk, share, secret=ZERO):
    wire = ref.ed_wire(pk)
    tag = ref.b64(ref.sha256(wire)[:4])
    u = ref.ed_pk_to_u(pk)
    tweaked = ref.x25519(ref.ed_tweak(pk), u)
    out = []
    for label in (ref.X_LABEL, ref.E_LABEL):
        for salt in (share + tweaked, share + u, ZERO + tweaked):
            key = ref.hkdf(secret, salt, label, 32)
            out.append(ref.Stanza("ssh-ed25519", [tag, ref.b64(share)], ref.aead_enc(key, ref.ZERO12, fk)))
    return out


def forged(ctx, craft, p, share, kind):
    rng = ctx.rng
    fk = rng.randbytes(16)
    for k, st in enumerate(craft(fk, p.pk, share)):
        text = rng.randbytes(rng.randrange(1, 40))
        ct = ref.encrypt(fk, rng.randbytes(16), [st], text)
        others = [q.identity for q in gen.parties(rng, rng.randrange(3))]
        ids = [p.identity, *others]
        rng.shuffle(ids)
        what = f"{kind} entry with low-order share {share.hex()} (form {k})"
        got = None
        try:
            with Decryptor(ids, io.BytesIO(ct)) as d:
                got = d.read()
        except Exception:
            pass
        if got is not None:
            raise Violation(what + " opens without any secret", plaintext=got, identity=p)
        ctx.count("entries_refused")
        ctx.eval((kind, share, k, p.name, len(others)))


def entry_x(ctx):
    rng = ctx.rng
    share = X[ctx.idx % len(X)]
    for sk in (gen.hostile32(rng), rng.randbytes(32)):
        p = gen.XParty(sk)
        forged(ctx, crafted_x, p, share, "X25519")
    # control: the same construction with the real secret does open
    eph = rng.randbytes(32)
    fk = rng.randbytes(16)
    st = crafted_x(fk, p.pk, ref.x25519_base(eph), ref.x25519(eph, p.pk))[0]
    ct = ref.encrypt(fk, rng.randbytes(16), [st], b"fine")
    ctx.check(gen.age_decrypt([p.identity], ct) == b"fine", "positive control")
    ctx.count("controls")
    ctx.sample(share=share.hex(), identity=p)


def entry_ed(ctx):
    rng = ctx.rng
    share = X[ctx.idx % len(X)]
    p = gen.EParty(rng.randbytes(32))
    forged(ctx, crafted_ed, p, share, "ssh-ed25519")
    ct = gen.ref_file(rng, [p], b"fine")
    ctx.check(gen.age_decrypt([p.identity], ct) == b"fine", "positive control")
    ctx.count("controls")


def beside(ctx):
    """a low-order entry beside valid ones: only a valid entry unlocks, and it alone decides the file key"""
    rng = ctx.rng
    share = X[ctx.idx % len(X)]
    kind = rng.choice(["X25519", "ssh-ed25519"])
    p = gen.XParty(rng.randbytes(32)) if kind == "X25519" else gen.EParty(rng.randbytes(32))
    craft = crafted_x if kind == "X25519" else crafted_ed
    fk, own = rng.randbytes(16), rng.randbytes(16)
    text = rng.randbytes(20)
    # the crafted entry carries the attacker's file key, header and payload are made with it: p's valid entry (of another key) must not help
    sts = [rng.choice(craft(own, p.pk, share)), p.wrap(rng, fk)]
    if rng.random() < 0.5:
        sts.reverse()
    ct = ref.encrypt(own, rng.randbytes(16), sts, text)
    try:
        with Decryptor([p.identity], io.BytesIO(ct)) as d:
            got = d.read()
    except Exception:
        pass
    else:
        raise Violation("a low-order entry next to a valid one opens without any secret", plaintext=got, share=share.hex(), kind=kind)
    ctx.count("entries_refused")
    ctx.eval(("beside", kind, share, [s.type for s in sts]))
    # a valid entry for the same identity placed before it opens the file
    ct = ref.encrypt(fk, rng.randbytes(16), [p.wrap(rng, fk), sts[0] if sts[0].args != p.wrap(rng, fk).args else sts[1]], text)
    ctx.equal(ctx.must("a file whose first entry is valid", gen.age_decrypt, [p.identity], ct), text, "plaintext")
    ctx.count("opened_with_valid_entry")


def all_zero_identities(ctx):
    """identities and shares around zero: valid ones keep working"""
    rng = ctx.rng
    for sk in (bytes(32), b"\xff" * 32, bytes([8]) + bytes(31), bytes(31) + b"\x40", rng.randbytes(32)):
        p = gen.XParty(sk)
        ct = gen.age_encrypt([p.recipient], b"y")
        ctx.check(gen.age_decrypt([p.identity], ct) == b"y", "positive control")
        ctx.count("controls")
        for share in rng.sample(X, 4):
            forged(ctx, crafted_x, p, share, "X25519")


def families(tier):
    q = tier == "quick"
    nx, ne = len(X), len(E)
    return [
        ("encrypt_x", nx * (2 if q else 20), encrypt_x),
        ("encrypt_ed", ne * (2 if q else 20), encrypt_ed),
        ("entry_x", nx * (6 if q else 120), entry_x),
        ("entry_ed", nx * (6 if q else 120), entry_ed),
        ("beside", nx * (6 if q else 120), beside),
        ("all_zero_identities", 4 if q else 60, all_zero_identities),
    ]
