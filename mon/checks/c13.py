"""C13 SSH public keys: encodings, fingerprints, equality, conversion to X25519"""
import base64
import os
import subprocess

from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey

from cryptography.hazmat.primitives.asymmetric import ed25519 as c_ed
from cryptography.hazmat.primitives.asymmetric import rsa as c_rsa

from mon import gen, ref

PROPERTY = "C13"
RULE = (
    "a case = SSH keys (many RSA moduli and exponents, random and hostile Ed25519 seeds) whose encodings and fingerprints "
    "are compared with ssh-keygen's and the reference's and whose X25519 conversions are compared with the birational "
    "map computed in integers; distinct = keys"
)
ASSUMPTIONS = ["ssh-keygen of OpenSSH 9.6 as oracle for fingerprint lines"]
REQUIRED = {"ssh_keygen_lines": 300, "rsa_keys": 100, "ed_keys": 150, "conversions": 300, "equality": 500}


def ssh_lines(ctx, lines, algorithm):
    p = os.path.join(ctx.tmp, "keys.pub")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ssh-keygen", "-l", "-E", algorithm.lower(), "-f", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    out = r.stdout.decode().split("\n")[:-1]
    if r.returncode or len(out) != len(lines):
        raise RuntimeError(f"ssh-keygen: {r.stderr!r}")
    return out


COMMENTS = ["user@host", "age", "a b c", "x" * 100, "1#", "(RSA)", "MD5:00"]


def rsa_public(ctx):
    """any odd modulus with any exponent is a public key (nobody can tell whether it is a product of primes)"""
    rng = ctx.rng
    if rng.random() < 0.5:
        p = gen.RParty(rng.choice(sorted(gen.rsa_pool())), None if rng.random() < 0.5 else rng.randrange(3, 1 << 31) | 1)
        return p.n, p.e, p.key.public_key(), p.key
    bits = rng.choice([1024, 1025, 1031, 1032, 1033, 2047, 2048, 2049, 3071, 3072, 4096, rng.randrange(1024, 4200)])
    n = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
    e = rng.choice([3, 5, 17, 35, 127, 129, 255, 257, 32767, 32769, 65537, rng.randrange(3, 1 << 33) | 1])
    return n, e, c_rsa.RSAPublicNumbers(e, n).public_key(), None


def judge_encoding(ctx, cls, pub, wire, typ, bits, tag):
    """-> the fingerprint lines ssh-keygen has to print"""
    ctx.equal(pub.binary_encoding(), wire, "binary encoding")
    md5 = "MD5:" + ":".join(f"{b:02x}" for b in __import__("hashlib").md5(wire).digest())
    sha = "SHA256:" + base64.b64encode(ref.sha256(wire)).decode().rstrip("=")
    ctx.equal(pub.fingerprint("MD5"), md5, "MD5 fingerprint")
    ctx.equal(pub.fingerprint("SHA256"), sha, "SHA256 fingerprint")
    ctx.equal(pub.fingerprint(algorithm="SHA256"), sha, "SHA256 fingerprint")
    out = []
    for com in (ctx.rng.choice(COMMENTS), None):
        for alg, fp in (("MD5", md5), ("SHA256", sha)):
            line = pub.fingerprint_line(algorithm=alg, comment=com) if com is not None else pub.fingerprint_line(algorithm=alg)
            ctx.equal(line, f"{bits} {fp} {com if com is not None else 'age'} ({tag})", "fingerprint line")
            out.append((alg, f"{typ} {base64.b64encode(wire).decode()} {com if com is not None else 'age'}", line))
    return out


def judge_equality(ctx, cls, wire, typ, other_wire):
    b = base64.b64encode(wire).decode()
    a = cls.from_ssh_public_key(f"{typ} {b}".encode())
    for com in ("", " x", " user@host with spaces", " " + b[:20], " #"):
        k = cls.from_ssh_public_key(f"{typ} {b}{com}".encode())
        ctx.check(k == a and a == k and not (k != a), "same key with another comment is not equal", comment=com)
        ctx.equal(hash(k), hash(a), "hash depends on the comment")
        ctx.equal(k.binary_encoding(), wire, "binary encoding of a parsed key")
        ctx.equal(len({k, a}), 1, "set of the same key")
        ctx.count("equality")
    o = cls.from_ssh_public_key(f"{typ} {base64.b64encode(other_wire).decode()} x".encode())
    ctx.check(not (o == a) and o != a, "different keys compare equal")
    ctx.check(a != wire and a != b and a is not None and a != object(), "key equal to something else")
    ctx.equal(len({o, a}), 2, "set of two keys")
    ctx.count("equality", 2)
    return a


def compare(ctx, collected):
    for alg in ("MD5", "SHA256"):
        mine = [(k, l) for a, k, l in collected if a == alg]
        for (k, l), want in zip(mine, ssh_lines(ctx, [k for k, _ in mine], alg)):
            ctx.equal(l, want, "fingerprint line differs from ssh-keygen", key=k)
            ctx.count("ssh_keygen_lines")


def rsa(ctx):
    rng = ctx.rng
    col = []
    for _ in range(5):
        n, e, pk, sk = rsa_public(ctx)
        wire = ref.rsa_wire(n, e)
        pub = RSAPublicKey(pk)
        col += judge_encoding(ctx, RSAPublicKey, pub, wire, "ssh-rsa", n.bit_length(), "RSA")
        # neighbours: same modulus, other exponent; modulus that differs in one bit
        other = ref.rsa_wire(n, e + 2) if rng.random() < 0.5 else ref.rsa_wire(n ^ (1 << rng.randrange(1, n.bit_length() - 1)), e)
        a = judge_equality(ctx, RSAPublicKey, wire, "ssh-rsa", other)
        ctx.check(a == pub and hash(a) == hash(pub), "parsed key differs from the same key")
        if sk is not None:
            ctx.check(RSAPrivateKey(sk).public_key() == pub, "public key of the private key")
        ctx.count("rsa_keys")
        ctx.eval(wire)
    compare(ctx, col)
    ctx.sample(line=col[0][2])


def ed(ctx):
    rng = ctx.rng
    col = []
    for _ in range(6):
        seed = gen.hostile32(rng)
        pk = ref.ed_public(seed)
        k = Ed25519PrivateKey(c_ed.Ed25519PrivateKey.from_private_bytes(seed))
        wire = ref.ed_wire(pk)
        pub = k.public_key()
        col += judge_encoding(ctx, Ed25519PublicKey, pub, wire, "ssh-ed25519", 256, "ED25519")
        o = bytearray(pk)
        o[rng.randrange(32)] ^= 1 << rng.randrange(8)
        a = judge_equality(ctx, Ed25519PublicKey, wire, "ssh-ed25519", ref.ed_wire(bytes(o)))
        ctx.check(a == pub and hash(a) == hash(pub), "parsed key differs from the same key")
        r = RSAPublicKey(gen.rsa_pool()[gen.SMALL_RSA[0]].public_key())
        ctx.check(a != r and r != a, "keys of different types are equal")
        convert(ctx, k, a, seed, pk)
        ctx.count("ed_keys")
        ctx.eval(wire)
    compare(ctx, col)


def convert(ctx, k, pub, seed, pk):
    u = ref.ed_pk_to_u(pk)
    ap = pub.to_age_public_key()
    ctx.check(isinstance(ap, AgePublicKey), "type of a converted key")
    ctx.equal(bytes(ap.public_bytes()), u, "converted public key differs from the birational map", pk=pk.hex())
    sk = k.to_age_private_key()
    ctx.check(isinstance(sk, AgePrivateKey), "type of a converted key")
    ctx.equal(bytes(sk.public_key().public_bytes()), u, "public key of the converted private key", seed=seed.hex())
    ctx.equal(ref.clamp(bytes(sk.private_bytes())), ref.ed_seed_to_scalar(seed), "converted private key", seed=seed.hex())
    ctx.equal(ref.x25519_base(bytes(sk.private_bytes())), u, "reference public key of the converted private key")
    ctx.check(sk.public_key() == ap, "converted halves do not belong together")
    ctx.count("conversions")


def conversions(ctx):
    for _ in range(20):
        seed = gen.hostile32(ctx.rng)
        k = Ed25519PrivateKey(c_ed.Ed25519PrivateKey.from_private_bytes(seed))
        convert(ctx, k, k.public_key(), seed, ref.ed_public(seed))
        ctx.eval(("conv", seed))
    # the converted pair really is an age key pair, from another party's point of view
    ct = gen.age_encrypt([k.public_key().to_age_public_key()], b"m")
    ctx.equal(gen.age_decrypt([k.to_age_private_key()], ct), b"m", "message to the converted key")
    ctx.equal(ref.unwrap_x25519(ref.parse_header(ct)[0][0], ref.ed_seed_to_scalar(seed)) is not None, True, "reference")


def generated(ctx):
    """keys made by ssh-keygen and by the classes themselves"""
    rng = ctx.rng
    p = os.path.join(ctx.tmp, "id")
    t = rng.choice([["ed25519"], ["rsa", "-b", "1024"], ["rsa", "-b", str(rng.randrange(1024, 1400))]])
    subprocess.run(["ssh-keygen", "-q", "-t", *t, "-N", "", "-C", rng.choice(COMMENTS), "-f", p], check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
    with open(p + ".pub", "rb") as f:
        line = f.read().strip()
    with open(p, "rb") as f:
        pem = f.read()
    cls, pcls = (Ed25519PublicKey, Ed25519PrivateKey) if t[0] == "ed25519" else (RSAPublicKey, RSAPrivateKey)
    com = line.split(b" ", 2)[2].decode()
    pub = cls.from_ssh_public_key(line)
    ctx.equal(pub.binary_encoding(), base64.b64decode(line.split()[1]), "binary encoding")
    ctx.check(pcls.from_pem(pem).public_key() == pub, "private and public file of ssh-keygen")
    for alg in ("MD5", "SHA256"):
        ctx.equal(pub.fingerprint_line(alg, com), ssh_lines(ctx, [line.decode()], alg)[0], "fingerprint line")
        ctx.count("ssh_keygen_lines")
    k = Ed25519PrivateKey.generate() if t[0] == "ed25519" else RSAPrivateKey.generate(1024)
    w = k.public_key().binary_encoding()
    line = f"ssh-{t[0]} {base64.b64encode(w).decode()} age"
    for alg in ("MD5", "SHA256"):
        ctx.equal(k.public_key().fingerprint_line(alg), ssh_lines(ctx, [line], alg)[0], "fingerprint line of a generated key")
    ctx.eval(w)


def families(tier):
    q = tier == "quick"
    return [
        ("rsa", 24 if q else 800, rsa),
        ("ed", 30 if q else 1000, ed),
        ("conversions", 16 if q else 600, conversions),
        ("generated", 8 if q else 150, generated),
    ]
