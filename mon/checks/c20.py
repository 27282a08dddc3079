"""C20 cryptographic building blocks compute the published functions"""
import hashlib

from cryptography.exceptions import InvalidSignature

from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
from age.keys.password import PasswordKey
from age.primitives.encode import decode, encode
from age.primitives.encrypt import decrypt, encrypt
from age.primitives.hashes import sha256
from age.primitives.hkdf import hkdf
from age.primitives.hmac import HMAC
from age.primitives.rsa_oaep import rsa_decrypt, rsa_encrypt
from age.primitives.scrypt import scrypt
from age.primitives.x25519 import x25519_reduce, x25519_scalarmult, x25519_scalarmult_base

from mon import gen, ref, selftest
from mon.gen import EParty, RParty, SMALL_RSA, XParty, hostile32, rsa_pool

PROPERTY = "C20"
RULE = (
    "a case = calls of one exported primitive, each result compared with a pure-Python implementation written from the RFC (self-tested "
    "against published vectors), plus inverse and alteration-rejection checks; distinct = (primitive, input lengths or structure)"
)
ASSUMPTIONS = ["scrypt with N above 16 and ciphertexts above 2 KiB are compared with OpenSSL through hashlib / cryptography instead of the pure twins"]
REQUIRED = {
    "hmac": 700, "hmac_rejected": 3000, "hkdf": 300, "scrypt": 60, "x25519": 250, "x25519_base": 100, "low_order_raised": 28, "wrong_length_raised": 60, "reduce": 200, "aead": 300, "aead_rejected": 3000,
    "oaep": 60, "oaep_rejected": 150, "sha256": 250, "base64": 300, "file_key_wraps": 60, "file_key_altered": 300, "repeated_calls": 300, "history_calls": 3000,
}

# ---------------------------------------------------------------------- SHA-256, pure
_K = None


def _primes(n):
    out, c = [], 2
    while len(out) < n:
        if all(c % p for p in out):
            out.append(c)
        c += 1
    return out


def _iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def pure_sha256(msg):
    """FIPS 180-4, constants derived from the primes"""
    global _K
    M = 0xFFFFFFFF
    if _K is None:
        ps = _primes(64)
        _K = ([_iroot(p << 64, 2) & M for p in ps[:8]], [_iroot(p << 96, 3) & M for p in ps])
    h, k = list(_K[0]), _K[1]

    def rr(x, n):
        return (x >> n | x << (32 - n)) & M

    m = msg + b"\x80" + bytes((55 - len(msg)) % 64) + (8 * len(msg)).to_bytes(8, "big")
    for o in range(0, len(m), 64):
        w = [int.from_bytes(m[o + 4 * i : o + 4 * i + 4], "big") for i in range(16)]
        for i in range(16, 64):
            s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ w[i - 15] >> 3
            s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ w[i - 2] >> 10
            w.append((w[i - 16] + s0 + w[i - 7] + s1) & M)
        a, b, c, d, e, f, g, hh = h
        for i in range(64):
            t1 = (hh + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + (e & f ^ ~e & M & g) + k[i] + w[i]) & M
            t2 = ((rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + (a & b ^ a & c ^ b & c)) & M
            a, b, c, d, e, f, g, hh = (t1 + t2) & M, a, b, c, (d + t1) & M, e, f, g
        h = [(x + y) & M for x, y in zip(h, (a, b, c, d, e, f, g, hh))]
    return b"".join(x.to_bytes(4, "big") for x in h)


_A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def pure_b64(data):
    s = ""
    bits = "".join(f"{b:08b}" for b in data)
    for i in range(0, len(bits), 6):
        s += _A64[int(bits[i : i + 6].ljust(6, "0"), 2)]
    return s


# ---------------------------------------------------------------------- families
def hmac_f(ctx):
    rng = ctx.rng
    for j in range(24):
        n = (ctx.idx * 24 + j) % 300 if j < 20 else rng.choice([0, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000, 5000])
        key = rng.choice([rng.randbytes(n), bytes(n), b"\xff" * n]) if rng.random() < 0.4 else rng.randbytes(n)
        msg = rng.randbytes(rng.choice([0, 1, 32, 55, 56, 63, 64, 65, 1000, rng.randrange(300)]))
        want = ref.hmac256(key, msg)
        ctx.equal(ctx.must("HMAC", lambda: HMAC(key).generate(msg)), want, "HMAC-SHA-256", key_length=n, message_length=len(msg))
        ctx.must("HMAC.verify", lambda: HMAC(key).verify(msg, want))
        ctx.check(HMAC(key).is_valid(msg, want) is True, "is_valid refused the right tag")
        ctx.count("hmac")
        bad = []
        for _ in range(3):
            i = rng.randrange(256)
            bad.append((key, msg, want[: i // 8] + bytes([want[i // 8] ^ 1 << i % 8]) + want[i // 8 + 1 :]))
        bad += [
            (key, msg, want[: rng.randrange(32)]), (key, msg, want + b"\0"), (key, msg, b""), (key, msg, want[::-1]), (key, msg, rng.randbytes(32)), (key, msg, want[:16]), (key, msg, want[:31]),
            (key, msg + b"\0", want), (key + b"x", msg, want), (key, msg, want * 2), (key, b"\0" + msg, want),
        ]
        if msg:
            bad.append((key, msg[:-1], want))
        if key and ref.hmac256(key[:-1], msg) != want:
            bad.append((key[:-1], msg, want))
        for k2, m2, t in bad:
            if ref.hmac256(k2, m2) == t:
                continue
            e = ctx.fails("HMAC.verify of a wrong tag", HMAC(k2).verify, m2, t)
            ctx.check(isinstance(e, InvalidSignature), f"HMAC.verify raised {type(e).__name__}", tag_length=len(t))
            ctx.check(HMAC(k2).is_valid(m2, t) is False, "is_valid accepted a wrong tag", tag=t, want=want)
            ctx.count("hmac_rejected")
        ctx.eval(("hmac", n, len(msg)))


def hkdf_f(ctx):
    rng = ctx.rng
    for j in range(20):
        lens = [0, 1, 16, 31, 32, 33, 63, 64, 65, 100, 200]
        salt = rng.choice([rng.randbytes, bytes])(rng.choice(lens))
        info = rng.randbytes(rng.choice(lens))
        ikm = rng.randbytes(rng.choice(lens))
        n = rng.choice([1, 12, 16, 31, 32, 33, 64, 65, 96, 100, 255, 256, 1000, 8160]) if j else 8160 - ctx.idx
        got = ctx.must("hkdf", hkdf, salt, info, ikm, n)
        ctx.equal(got, ref.hkdf(ikm, salt, info, n), "HKDF-SHA-256", salt=len(salt), info=len(info), key=len(ikm), length=n)
        ctx.equal(hkdf(salt=salt, label=info, key=ikm, len=n), got, "hkdf called again, by keyword")
        ctx.count("hkdf")
        ctx.count("repeated_calls")
        ctx.eval(("hkdf", len(salt), len(info), len(ikm), n))
    ctx.fails("hkdf beyond 255 blocks", hkdf, b"", b"", b"k", 8161)


def scrypt_f(ctx):
    rng = ctx.rng
    for j in range(6):
        pw = rng.choice([b"", b"x", b"password", rng.randbytes(rng.choice([1, 31, 64, 65, 200]))])
        salt = rng.choice([b"", b"NaCl", b"age-encryption.org/v1/scrypt" + rng.randbytes(16), rng.randbytes(rng.choice([1, 16, 63, 64, 65, 100]))])
        if j == 0:
            n = rng.choice([2, 4, 8, 16])
            want = ref.scrypt_pure(pw, salt, n)
        else:
            logn = rng.choice([1, 2, 5, 8, 10, 12, 14, 15])
            n = 1 << logn
            want = ref.scrypt(pw, salt, logn)
        ctx.equal(ctx.must("scrypt", scrypt, salt, n, pw), want, "scrypt (r=8, p=1)", N=n, password=pw, salt=salt)
        ctx.count("scrypt")
        ctx.eval(("scrypt", n, len(pw), len(salt)))
    for bad in (0, 1, 3, 100, -2):
        ctx.fails(f"scrypt with N={bad}", scrypt, b"salt", bad, b"pw")
    # parameter confusion
    a, b = rng.randbytes(16), rng.randbytes(16)
    ctx.check(scrypt(a, 4, b) != scrypt(b, 4, a), "scrypt does not distinguish password and salt")


def point(rng):
    r = rng.randrange(8)
    if r == 0:
        v = rng.choice([2, 3, 9, ref.P - 2, ref.P + 2, ref.P + 9, (1 << 255) - 1, (1 << 255) - 19 + 18, 1 << 254])
        b = v.to_bytes(32, "little")
    elif r == 1:
        b = rng.randbytes(31) + bytes([rng.randrange(128, 256)])
    elif r == 2:
        b = hostile32(rng)
    elif r == 3:
        b = b"\xff" * 32
    else:
        b = rng.randbytes(32)
    return b


def x25519_f(ctx):
    rng = ctx.rng
    for _ in range(9):
        k, u = hostile32(rng), point(rng)
        want = ref.x25519(k, u)
        if not any(want):
            ctx.fails("X25519 with an all-zero result", x25519_scalarmult, k, u)
            ctx.count("low_order_raised")
            continue
        ctx.equal(bytes(ctx.must("x25519_scalarmult", x25519_scalarmult, k, u)), want, "X25519", scalar=k, point=u)
        ctx.equal(bytes(x25519_scalarmult(k, u)), want, "X25519 called again")
        ctx.count("x25519")
        ctx.count("repeated_calls")
        ctx.eval(("x25519", k[:2], u[:2]))
    for _ in range(4):
        k = hostile32(rng)
        ctx.equal(bytes(ctx.must("x25519_scalarmult_base", x25519_scalarmult_base, k)), ref.x25519_base(k), "X25519 base point form", scalar=k)
        a, b = rng.randbytes(32), rng.randbytes(32)
        ctx.equal(x25519_scalarmult(a, x25519_scalarmult_base(b)), x25519_scalarmult(b, x25519_scalarmult_base(a)), "Diffie-Hellman does not commute")
        ctx.count("x25519_base")
        ctx.eval(("base", k[:3]))
    lo = ref.LOW_ORDER[ctx.idx % len(ref.LOW_ORDER)]
    ctx.fails("X25519 with a low-order point", x25519_scalarmult, rng.randbytes(32), lo)
    ctx.count("low_order_raised")
    for n in rng.sample([0, 1, 16, 30, 31, 33, 34, 63, 64, 100], 3):
        # other lengths are outside the function's domain: computing something means reading beyond the end
        ctx.fails(f"X25519 with a {n}-byte point", x25519_scalarmult, rng.randbytes(32), rng.randbytes(n))
        ctx.fails(f"X25519 with a {n}-byte scalar", x25519_scalarmult, rng.randbytes(n), rng.randbytes(32))
        ctx.fails(f"X25519 base point with a {n}-byte scalar", x25519_scalarmult_base, rng.randbytes(n))
        ctx.count("wrong_length_raised", 3)


def reduce_f(ctx):
    rng = ctx.rng
    top = (1 << 512) - 1
    edges = [0, 1, ref.L - 1, ref.L, ref.L + 1, 2 * ref.L, 8 * ref.L, ref.L * (1 << 252), top, top - top % ref.L, top - top % ref.L - 1, 1 << 252, 1 << 255, 1 << 256, ref.P, ref.L * ref.L, ref.L * ref.L - 1]
    for i in range(20):
        v = rng.choice(edges) if i < 5 else rng.getrandbits(512) if i < 15 else rng.getrandbits(rng.randrange(1, 512))
        got = ctx.must("x25519_reduce", x25519_reduce, v.to_bytes(64, "little"))
        ctx.equal(bytes(got), (v % ref.L).to_bytes(32, "little"), "scalar reduction modulo the group order", scalar=hex(v))
        ctx.count("reduce")
        ctx.eval(("reduce", v))
    for n in (0, 32, 63, 65):
        ctx.fails(f"reduction of {n} bytes", x25519_reduce, rng.randbytes(n))
        ctx.count("wrong_length_raised")


def aead_f(ctx):
    rng = ctx.rng
    for i in range(12):
        key = rng.choice([rng.randbytes(32), hostile32(rng)])
        n = (ctx.idx * 12 + i) % 330 if i < 10 else rng.choice([16, 1000, 2047, 65535, 65536, 65537])
        pt = rng.choice([rng.randbytes, bytes])(n)
        want = ref.aead_pure(key, bytes(12), pt) if n <= 2048 else ref.aead_enc(key, bytes(12), pt)
        ct = ctx.must("encrypt", encrypt, key, pt)
        ctx.equal(ct, want, "ChaCha20-Poly1305 with a zero nonce", length=n)
        ctx.equal(ctx.must("decrypt", decrypt, key, ct), pt, "decrypt(encrypt(x))", length=n)
        ctx.count("aead")
        muts = []
        for _ in range(6):
            j = rng.randrange(len(ct))
            muts.append((key, ct[:j] + bytes([ct[j] ^ 1 << rng.randrange(8)]) + ct[j + 1 :]))
        muts += [(key, ct[:-1]), (key, ct + b"\0"), (key, ct[1:]), (key, ct[:16]) if n else (key, ct[:15]), (key, b""), (key, ct[:-16]), (key, b"\0" + ct), (key, ct[:-16] + bytes(16))]
        j = rng.randrange(32)
        muts += [(key[:j] + bytes([key[j] ^ 1 << rng.randrange(8)]) + key[j + 1 :], ct), (rng.randbytes(32), ct)]
        for k2, c2 in muts:
            if (k2, c2) == (key, ct):
                continue
            ctx.fails("decrypt of an altered ciphertext", decrypt, k2, c2)
            ctx.count("aead_rejected")
        ctx.eval(("aead", n))
    for n in (0, 16, 31, 33):
        ctx.fails(f"encrypt with a {n}-byte key", encrypt, bytes(n), b"x")
        ctx.count("wrong_length_raised")


def oaep_f(ctx):
    rng = ctx.rng
    names = sorted(rsa_pool())
    for i in range(4):
        p = RParty(rng.choice(names) if rng.random() < 0.5 else rng.choice(SMALL_RSA), rng.choice([None, 3, 17, 65537, rng.randrange(3, 1 << 31) | 1]))
        k = (p.n.bit_length() + 7) // 8
        label = rng.choice([b"", b"age-encryption.org/v1/ssh-rsa", rng.randbytes(rng.randrange(1, 80))])
        msg = rng.randbytes(rng.choice([0, 1, 16, k - 66, rng.randrange(k - 65)]))
        ct = ctx.must("rsa_encrypt", rsa_encrypt, p.recipient, label, msg)
        ctx.equal(ref.oaep_decrypt(p.numbers, label, ct), msg, "RSA-OAEP ciphertext opened by the reference", bits=p.n.bit_length(), label=label)
        ctx.equal(ctx.must("rsa_decrypt", rsa_decrypt, p.identity, label, ct), msg, "rsa_decrypt(rsa_encrypt(x))")
        ct2 = ref.oaep_encrypt(p.n, p.e, label, msg, rng.randbytes(32))
        ctx.equal(ctx.must("rsa_decrypt", rsa_decrypt, p.identity, label, ct2), msg, "RSA-OAEP ciphertext of the reference", bits=p.n.bit_length(), label=label)
        ctx.check(rsa_encrypt(p.recipient, label, msg) != ct, "RSA-OAEP is not randomised")
        ctx.count("oaep")
        q = RParty(rng.choice([x for x in names if x != p.name.split("/")[0]]))
        j = rng.randrange(len(ct))
        flip = ct[:j] + bytes([ct[j] ^ 1 << rng.randrange(8)]) + ct[j + 1 :]
        for key, lab, c in (
            (p, label + b"x", ct), (p, b"other", ct), (p, label[:-1] if label else b"\0", ct), (p, label, flip), (p, label, ct[:-1]), (p, label, ct + b"\0"), (p, label, b""),
            (q, label, ct), (p, label, bytes(k)), (p, label, rng.randbytes(k)), (p, label, ref.oaep_encrypt(p.n, p.e, b"zz" + label, msg, rng.randbytes(32))),
        ):
            ctx.fails("rsa_decrypt of an altered ciphertext, key or label", rsa_decrypt, key.identity, lab, c)
            ctx.count("oaep_rejected")
        ctx.fails("rsa_encrypt of an overlong message", rsa_encrypt, p.recipient, label, bytes(k - 65))
        for bad in (p.identity, None, p.key.public_key()):
            ctx.fails("rsa_encrypt with something else than a public key", rsa_encrypt, bad, label, msg)
        for bad in (p.recipient, None, p.key):
            ctx.fails("rsa_decrypt with something else than a private key", rsa_decrypt, bad, label, ct)
        ctx.eval(("oaep", p.name, len(label), len(msg)))


def hash_b64(ctx):
    rng = ctx.rng
    for i in range(24):
        n = (ctx.idx * 24 + i) % 260
        d = rng.choice([rng.randbytes, rng.randbytes, bytes, lambda n: b"\xff" * n, lambda n: b"\xfb\xef\xbe" * n])(n)
        want = pure_sha256(d)
        ctx.check(want == hashlib.sha256(d).digest(), "reference SHA-256 disagrees with itself")
        ctx.equal(ctx.must("sha256", sha256, d), want, "SHA-256", length=n)
        ctx.count("sha256")
        e = ctx.must("encode", encode, d)
        ctx.equal(e, pure_b64(d), "unpadded base64", data=d)
        ctx.equal(ctx.must("decode", decode, e), d, "decode(encode(x))", data=d)
        ctx.check(isinstance(e, str) and isinstance(decode(e), bytes), "types of encode/decode")
        ctx.count("base64")
        ctx.eval(("hash", n))
    for bad in ("text", None, 5, ["x"]):
        ctx.fails("encode of something else than bytes", encode, bad)
    for bad in (b"dGVzdA", None, 5):
        ctx.fails("decode of something else than text", decode, bad)
    for bad in ("A", "AAAAA", "\u00e9AAA", "AAAA\u0410AAA"):
        ctx.fails("decode of something that is no base64", decode, bad)


def wraps(ctx):
    """file-key wrapping: inverse, equal to the reference in both directions, altered input refused"""
    rng = ctx.rng
    fk = rng.randbytes(16)
    x, e, r, pw = XParty(hostile32(rng)), EParty(rng.randbytes(32)), RParty(rng.choice(SMALL_RSA)), PasswordKey(rng.choice(gen.PASSWORDS))

    def altered(what, fn, args):
        """every argument changed in one bit"""
        for j, a in enumerate(args):
            if not isinstance(a, bytes):
                continue
            for _ in range(3):
                i = rng.randrange(len(a) * 8)
                b = bytearray(a)
                b[i // 8] ^= 1 << i % 8
                if what in ("X25519", "ssh-ed25519") and i == 255 and len(a) == 32:
                    continue  # the top bit of a point is ignored by X25519; it is bound by the salt, checked in C05
                ctx.fails(f"{what} unwrapping with an altered argument {j}", fn, *args[:j], bytes(b), *args[j + 1 :])
                ctx.count("file_key_altered")
            ctx.fails(f"{what} unwrapping with a shortened argument {j}", fn, *args[:j], a[:-1], *args[j + 1 :])
            ctx.count("file_key_altered")

    a = ctx.must("x25519_encrypt_file_key", x25519_encrypt_file_key, x.recipient, fk)
    ctx.equal(x25519_decrypt_file_key(x.identity, *a), fk, "X25519 wrap and unwrap")
    ctx.equal(x.unwrap(ref.Stanza("X25519", [ref.b64(bytes(a[0]))], a[1])), fk, "X25519 wrap, reference unwrap")
    st = x.wrap(rng, fk)
    ctx.equal(ctx.must("x25519_decrypt_file_key", x25519_decrypt_file_key, x.identity, ref.unb64(st.args[0]), st.body), fk, "reference wrap, X25519 unwrap")
    altered("X25519", lambda *z: x25519_decrypt_file_key(x.identity, *z), (bytes(a[0]), a[1]))
    ctx.fails("X25519 unwrapping with another key", x25519_decrypt_file_key, XParty(rng.randbytes(32)).identity, *a)
    a = ctx.must("ssh_ed25519_encrypt_file_key", ssh_ed25519_encrypt_file_key, e.recipient, fk)
    ctx.equal(ssh_ed25519_decrypt_file_key(e.identity, *a), fk, "ssh-ed25519 wrap and unwrap")
    ctx.equal(e.unwrap(ref.Stanza("ssh-ed25519", [ref.b64(a[0]), ref.b64(bytes(a[1]))], a[2])), fk, "ssh-ed25519 wrap, reference unwrap")
    altered("ssh-ed25519", lambda *z: ssh_ed25519_decrypt_file_key(e.identity, *z), (a[0], bytes(a[1]), a[2]))
    ctx.fails("ssh-ed25519 unwrapping with another key", ssh_ed25519_decrypt_file_key, EParty(rng.randbytes(32)).identity, *a)
    a = ctx.must("ssh_rsa_encrypt_file_key", ssh_rsa_encrypt_file_key, r.recipient, fk)
    ctx.equal(ssh_rsa_decrypt_file_key(r.identity, *a), fk, "ssh-rsa wrap and unwrap")
    ctx.equal(r.unwrap(ref.Stanza("ssh-rsa", [ref.b64(a[0])], a[1])), fk, "ssh-rsa wrap, reference unwrap")
    altered("ssh-rsa", lambda *z: ssh_rsa_decrypt_file_key(r.identity, *z), a)
    logn = rng.choice([1, 2, 5, 10, 13])
    a = ctx.must("scrypt_encrypt_file_key", scrypt_encrypt_file_key, pw, fk, log_cost=logn)
    ctx.equal((len(a[0]), a[1]), (16, logn), "salt length and work factor")
    ctx.equal(scrypt_decrypt_file_key(pw, *a), fk, "scrypt wrap and unwrap")
    ctx.equal(ref.unwrap_scrypt(ref.Stanza("scrypt", [ref.b64(a[0]), str(logn)], a[2]), pw.value), fk, "scrypt wrap, reference unwrap")
    altered("scrypt", lambda *z: scrypt_decrypt_file_key(pw, z[0], logn, z[1]), (a[0], a[2]))
    ctx.fails("scrypt unwrapping with another passphrase", scrypt_decrypt_file_key, PasswordKey(pw.value + b"x"), *a)
    ctx.fails("scrypt unwrapping with another work factor", scrypt_decrypt_file_key, pw, a[0], logn + 1, a[2])
    ctx.count("file_key_wraps", 4)
    ctx.eval(("wraps", ctx.idx))


def history(ctx):
    """related calls in random order, each several times: what was computed before must not show in a result"""
    rng = ctx.rng
    rb = lambda ns: rng.randbytes(rng.choice(ns))
    keys = [rng.randbytes(32), rng.randbytes(32)]
    salts, infos, iks = [rb([0, 16, 32, 48]) for _ in range(2)], [rb([0, 8, 30]) for _ in range(2)], [rb([0, 16, 32]) for _ in range(2)]
    lens = [rng.choice([1, 16, 31, 32]), 32, rng.choice([33, 48, 63, 64]), rng.choice([65, 80, 96, 97, 128]), rng.choice([129, 255, 256, 1000]), rng.randrange(1, 8161)]
    msgs = [rb([0, 1, 64, 65, 300]) for _ in range(2)]
    msgs += [msgs[-1] + b"\0", msgs[-1][:-1]]
    pts = [rb([0, 1, 16, 64, 200]) for _ in range(2)]
    scal = [hostile32(rng) for _ in range(2)]
    wide = [rng.randbytes(64) for _ in range(2)]
    wide += [wide[0][:63] + bytes([wide[0][63] ^ 1]), wide[0][:32] + bytes(32)]
    pws, ns = [b"", b"pw", rng.randbytes(70)], [2, 4, 16, 1024]
    p = RParty(rng.choice(SMALL_RSA))
    labels = [b"", b"a", b"age-encryption.org/v1/ssh-rsa"]
    calls = []
    for _ in range(14):
        a, b, c = rng.choice(salts), rng.choice(infos), rng.choice(iks)
        n = rng.choice(lens)
        calls.append(("hkdf", lambda a=a, b=b, c=c, n=n: hkdf(a, b, c, n), ref.hkdf(c, a, b, n)))
    for _ in range(6):
        k, m = rng.choice(keys + salts), rng.choice(msgs)
        calls.append(("hmac", lambda k=k, m=m: HMAC(k).generate(m), ref.hmac256(k, m)))
        w, bad = ref.hmac256(k, m), rng.randbytes(32)
        k2, m2 = rng.choice(keys + salts), rng.choice(msgs)
        calls.append(("is_valid", lambda k=k2, m=m2, w=w: HMAC(k).is_valid(m, w), ref.hmac256(k2, m2) == w))
        k, m = rng.choice(keys), rng.choice(pts)
        calls.append(("encrypt", lambda k=k, m=m: encrypt(k, m), ref.aead_enc(k, bytes(12), m)))
        ct = ref.aead_enc(k, bytes(12), m)
        calls.append(("decrypt", lambda k=k, ct=ct: decrypt(k, ct), m))
        k2 = rng.choice(keys)
        if k2 != k:
            calls.append(("decrypt", lambda k=k2, ct=ct: decrypt(k, ct), ValueError))
        k, u = rng.choice(scal), rng.choice(scal)
        if any(ref.x25519(k, u)):
            calls.append(("x25519", lambda k=k, u=u: bytes(x25519_scalarmult(k, u)), ref.x25519(k, u)))
        calls.append(("x25519 base", lambda k=k: bytes(x25519_scalarmult_base(k)), ref.x25519_base(k)))
        v = rng.choice(wide)
        calls.append(("reduce", lambda v=v: bytes(x25519_reduce(v)), (int.from_bytes(v, "little") % ref.L).to_bytes(32, "little")))
        pw, salt, n = rng.choice(pws), rng.choice(salts), rng.choice(ns)
        calls.append(("scrypt", lambda pw=pw, salt=salt, n=n: scrypt(salt, n, pw), ref.scrypt(pw, salt, n.bit_length() - 1)))
        m = rng.choice(msgs)
        calls.append(("sha256", lambda m=m: sha256(m), hashlib.sha256(m).digest()))
        calls.append(("encode", lambda m=m: encode(m), pure_b64(m)))
        calls.append(("decode", lambda m=pure_b64(m): decode(m), m))
        label, m = rng.choice(labels), rng.choice([b"", b"file key 16 byte", rng.randbytes(20)])
        ct = ref.oaep_encrypt(p.n, p.e, label, m, rng.randbytes(32))
        calls.append(("oaep", lambda label=label, ct=ct: rsa_decrypt(p.identity, label, ct), m))
        other = rng.choice([x for x in labels if x != label])
        calls.append(("oaep", lambda label=other, ct=ct: rsa_decrypt(p.identity, label, ct), ValueError))
    hist = []
    for c in rng.sample(calls * 3, 3 * len(calls)):
        hist.append(c[0])
        if c[2] is ValueError:
            ctx.fails(f"{c[0]} of something it must refuse, after other calls", c[1])
        else:
            ctx.equal(ctx.must(c[0], c[1]), c[2], f"{c[0]} after other calls", history=hist[-6:])
        ctx.count("history_calls")
    ctx.eval(("history", ctx.idx))


def families(tier):
    k = 1 if tier == "quick" else 12
    return [
        ("hmac", 32 * k, hmac_f), ("hkdf", 18 * k, hkdf_f), ("scrypt", 12 * k, scrypt_f), ("x25519", 32 * k, x25519_f), ("reduce", 14 * k, reduce_f), ("aead", 30 * k, aead_f),
        ("oaep", 20 * k, oaep_f), ("hash-base64", 16 * k, hash_b64), ("wraps", 20 * k, wraps), ("history", 16 * k, history),
    ]


def global_init():
    selftest.main()  # the oracle against published vectors
