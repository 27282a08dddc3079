"""Workload generators shared by the checks: plaintexts, keys of every kind, files."""
import collections
import glob
import io
import json
import os

from cryptography.hazmat.primitives.asymmetric import ed25519 as c_ed
from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
from cryptography.hazmat.primitives.serialization import (
    Encoding,
    NoEncryption,
    PrivateFormat,
    PublicFormat,
    load_pem_private_key,
)

from age.file import Decryptor, Encryptor
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey

from mon import ref
from mon.core import AGE_DIR, VERIF, Violation

C = ref.CHUNK

_dict = None


def dictionary():
    """constants of the code under test, as fuzzers collect them: they only feed inputs, never a verdict"""
    global _dict
    if _dict is None:
        words, numbers = set(), set()

        def walk(v):
            if hasattr(v, "co_consts"):
                for k in v.co_consts:
                    walk(k)
            elif isinstance(v, (tuple, frozenset)):
                for k in v:
                    walk(k)
            elif isinstance(v, str) and 0 < len(v) <= 64:
                words.add(v)
            elif isinstance(v, bytes) and 0 < len(v) <= 64:
                words.add(v.decode("latin-1"))
            elif isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 40:
                numbers.add(v)

        for path in sorted(glob.glob(AGE_DIR + "/**/*.py", recursive=True)):
            if path.endswith("_test.py") or path.endswith("_version.py"):
                continue
            try:
                with open(path, "rb") as f:
                    walk(compile(f.read(), path, "exec"))
            except (OSError, SyntaxError, ValueError):
                continue
        with open(os.path.join(VERIF, "fixtures", "constants.json")) as f:
            usual = json.load(f)
        # those the pinned tree does not have come first: they are what a change is about
        new = sorted(words - set(usual["words"])), sorted(numbers - set(usual["numbers"]))
        _dict = new[0] + sorted(words & set(usual["words"])), new[1] + sorted(numbers & set(usual["numbers"])), len(new[0]), len(new[1])
    return _dict


def pick(rng, values, fresh):
    return rng.choice(values[:fresh]) if fresh and rng.random() < 0.5 else rng.choice(values)


KNOWN_TYPES = ("X25519", "scrypt", "ssh-rsa", "ssh-ed25519")


def token(rng):
    return pick(rng, dictionary()[0], dictionary()[2])


def word(rng):
    """a printable word of the code under test"""
    for _ in range(50):
        w = token(rng)
        if all(33 <= ord(c) < 127 for c in w):
            return w
    return "x"


def number(rng, low, high, default=1):
    """a constant of the code under test, or its neighbour, within bounds"""
    for _ in range(50):
        n = pick(rng, dictionary()[1], dictionary()[3]) + rng.choice([-1, 0, 1])
        if low <= n <= high:
            return n
    return default


SIZES = [
    0, 1, 2, 15, 16, 17, 31, 32, 47, 48, 49, 63, 64, 65, 255, 256, 1000, 4096, 8191, 8192, 8193,
    C - 17, C - 16, C - 15, C - 1, C, C + 1, C + 15, C + 16, C + 17,
    2 * C - 1, 2 * C, 2 * C + 1, 2 * C + 16, 2 * C + 32, 3 * C - 1, 3 * C, 3 * C + 1, 3 * C + 48,
]


def plain(rng, size=None, maximum=300_000):
    if size is None:
        r = rng.random()
        if r < 0.55:
            size = rng.choice([s for s in SIZES if s <= maximum])
        elif r < 0.6:
            size = number(rng, 0, maximum)
        elif r < 0.85:
            size = rng.randrange(min(2000, maximum + 1))
        else:
            size = rng.randrange(maximum + 1)
    kind = rng.randrange(8)
    if kind == 0:
        return bytes(size)
    if kind == 1:
        return (b"\n" * size) if rng.random() < 0.5 else (b"\r\n" * (size // 2 + 1))[:size]
    if kind == 2:
        return b"\xff" * size
    if kind == 3:
        t = b"age-encryption.org/v1\n-> X25519 abc\n--- def\n"
        return (t * (size // len(t) + 1))[:size]
    if kind == 4 and size:
        return rng.randbytes(size - 1) + b"\n"
    return rng.randbytes(size)


def split(rng, data, limit=40):
    """a random partition of data into writes (empty ones included)"""
    mode = rng.randrange(5)
    if mode == 0 or not data:
        return [data]
    if mode == 1:
        k = rng.choice([1, 7, 16, 100, 1000, 4096, C - 1, C, C + 1])
        k = max(k, len(data) // limit + 1)
        return [data[i : i + k] for i in range(0, len(data), k)]
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(1, limit)))
    out, p = [], 0
    for c in cuts + [len(data)]:
        out.append(data[p:c])
        p = c
    return out


def drain(rng, f):
    """read f to its end with a random pattern of read sizes"""
    mode = rng.randrange(6)
    if mode == 0:
        return f.read()
    if mode == 1:
        return f.read(-1)
    if mode == 5:
        return f.read(None)
    out = []

    def read(k):
        b = f.read(k)
        if len(b) > k:
            raise Violation(f"read({k}) returned {len(b)} bytes", got=b[:100])
        out.append(b)
        return bool(b) or not k

    if mode == 2:
        k = rng.choice([1000, 4096, C - 1, C, C + 1, 50_000])
        while read(k):
            pass
        return b"".join(out)
    for _ in range(rng.randrange(60)):
        if not read(rng.choice([0, 1, 2, 3, 16, 17, 100, 4095, C - 1, C, C + 1])):
            break
    out.append(rng.choice([f.read, lambda: f.read(None), lambda: f.read(-1)])())
    return b"".join(out)


# ---------------------------------------------------------------------- keys
_rsa = {}


def rsa_pool():
    """name -> cryptography private key"""
    if not _rsa:
        for p in sorted(glob.glob(os.path.join(VERIF, "fixtures", "rsa*.pem"))):
            with open(p, "rb") as f:
                _rsa[os.path.basename(p)[:-4]] = load_pem_private_key(f.read(), None)
    return _rsa


_wrapped = {}


class Party:
    """a recipient with its identity, as pyage objects and as reference data"""

    kind = None

    def unwrap(self, st):
        raise NotImplementedError

    def __repr__(self):
        return f"{self.kind}:{self.name}"


class XParty(Party):
    kind = "x25519"

    def __init__(self, sk):
        self.sk = sk
        k = X25519PrivateKey.from_private_bytes(sk)
        self.pk = k.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
        self.identity = AgePrivateKey.from_private_bytes(sk)
        self.recipient = AgePublicKey.from_public_bytes(self.pk)
        self.name = self.pk[:4].hex()
        self.cli_recipient = ref.pub_string(self.pk)

    def unwrap(self, st):
        return ref.unwrap_x25519(st, self.sk)

    def wrap(self, rng, fk):
        return ref.wrap_x25519(fk, self.pk, rng.randbytes(32))


class PParty(Party):
    kind = "scrypt"

    def __init__(self, password):
        self.password = password
        self.identity = self.recipient = PasswordKey(password)
        self.name = password[:6].hex()

    def unwrap(self, st):
        return ref.unwrap_scrypt(st, self.password)

    def wrap(self, rng, fk, logn=None):
        return ref.wrap_scrypt(fk, self.password, rng.randbytes(16), logn or rng.randrange(1, 11))


def rsa_with_exponent(key, e):
    import math

    from cryptography.hazmat.primitives.asymmetric import rsa

    n = key.private_numbers()
    p, q = n.p, n.q
    while math.gcd(e, (p - 1) * (q - 1)) != 1:
        e += 2
    d = pow(e, -1, (p - 1) * (q - 1) // math.gcd(p - 1, q - 1))
    return rsa.RSAPrivateNumbers(
        p=p, q=q, d=d, dmp1=d % (p - 1), dmq1=d % (q - 1), iqmp=pow(q, -1, p),
        public_numbers=rsa.RSAPublicNumbers(e, n.public_numbers.n),
    ).private_key()


class RParty(Party):
    kind = "ssh-rsa"

    def __init__(self, name, e=None):
        self.name = name
        self.key = rsa_pool()[name]
        if e is not None:
            # the same primes with another exponent: another key, another tag, no prime search
            self.name += f"/{e}"
            self.key = rsa_with_exponent(self.key, e)
        self.numbers = self.key.private_numbers()
        self.n, self.e = self.numbers.public_numbers.n, self.numbers.public_numbers.e
        self.identity = RSAPrivateKey(self.key)
        self.recipient = RSAPublicKey(self.key.public_key())
        import base64

        self.ssh_line = "ssh-rsa " + base64.b64encode(ref.rsa_wire(self.n, self.e)).decode()
        self.cli_recipient = self.ssh_line

    def unwrap(self, st):
        return ref.unwrap_rsa(st, self.numbers)

    def wrap(self, rng, fk):
        return ref.wrap_rsa(fk, self.n, self.e, rng.randbytes(32))

    def pem(self):
        """in one of the usual formats, the same for the same key"""
        k = (self.n ^ self.e) >> 1 & 3
        if k == 1:
            return ref.openssh_pem(ref.openssh_blob(ref.openssh_rsa_fields(self.numbers), ref.rsa_wire(self.n, self.e)))
        form = {2: PrivateFormat.PKCS8, 3: PrivateFormat.OpenSSH}.get(k, PrivateFormat.TraditionalOpenSSL)
        return self.key.private_bytes(Encoding.PEM, form, NoEncryption())


class EParty(Party):
    kind = "ssh-ed25519"

    def __init__(self, seed):
        self.seed = seed
        self.key = c_ed.Ed25519PrivateKey.from_private_bytes(seed)
        self.pk = self.key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
        self.identity = Ed25519PrivateKey(self.key)
        self.recipient = Ed25519PublicKey(self.key.public_key())
        self.name = self.pk[:4].hex()
        import base64

        self.ssh_line = "ssh-ed25519 " + base64.b64encode(ref.ed_wire(self.pk)).decode()
        self.cli_recipient = self.ssh_line

    def unwrap(self, st):
        return ref.unwrap_ed(st, self.seed, self.pk)

    def wrap(self, rng, fk):
        return ref.wrap_ed(fk, self.pk, rng.randbytes(32))

    def pem(self):
        return ref.openssh_pem(
            ref.openssh_blob(ref.openssh_ed_fields(self.seed, self.pk), ref.ed_wire(self.pk))
        )


_twins = []


def twins(rng, kind=None):
    """two different SSH keys of one kind whose tags in a file are the same (fixtures/twins.json)"""
    if not _twins:
        with open(os.path.join(VERIF, "fixtures", "twins.json")) as f:
            _twins.append(json.load(f))
    kind = kind or rng.choice(["ssh-rsa", "ssh-ed25519"])
    if kind == "ssh-rsa":
        return [RParty(n, e) for n, e in rng.choice(_twins[0]["rsa"])]
    return [EParty(bytes.fromhex(s)) for s in rng.choice(_twins[0]["ed25519"])]


class Box:
    """a collection that is neither a list nor a set"""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __contains__(self, x):
        return x in self._items


def collection(rng, items):
    """the same items (in the same order) in some kind of collection"""
    items = list(items)
    k = rng.randrange(8)
    if k == 0:
        return tuple(items)
    if k == 1:
        return dict(enumerate(items)).values()
    if k == 2 and len({id(x) for x in items}) == len(items) and len(set(items)) == len(items):
        return dict.fromkeys(items).keys()
    if k == 3:
        return collections.deque(items)
    if k == 4:
        return Box(items)
    if k == 5 and len(items) == 1:
        return rng.choice([set, frozenset])(items)
    return items


def hostile32(rng):
    """32 bytes, sometimes with a structure that trips careless code"""
    r = rng.randrange(12)
    b = bytearray(rng.randbytes(32))
    if r == 0:
        b[rng.randrange(32)] = 10
    elif r == 1:
        b[0] = b[31] = 0
    elif r == 2:
        b = bytearray(32)
        b[rng.randrange(32)] = rng.randrange(1, 256)
    elif r == 3:
        b = bytearray(b"\xff" * 32)
    elif r == 4:
        for i in range(8):
            b[i] = 0
    elif r == 5:
        for i in range(24, 32):
            b[i] = 0
    return bytes(b)


class hostile_urandom:
    """os.urandom may return any bytes: make the awkward ones frequent (each value still fresh)"""

    def __init__(self, rng):
        self.rng, self.calls = rng, 0

    def __enter__(self):
        self.real = os.urandom
        os.urandom = self.gen
        return self

    def __exit__(self, *a):
        os.urandom = self.real

    def gen(self, n):
        self.calls += 1
        b = bytearray(self.real(n) if n > 64 else self.rng.randbytes(n))
        if n >= 16:
            r = self.rng.randrange(10)
            ws = b"\n\r \t\x0b\x0c\x00\x85\xa0-"
            if r < 3:
                b[0] = self.rng.choice(ws)
            if 2 <= r < 5:
                b[-1] = self.rng.choice(ws)
            if r == 5:
                b[0:2] = b"\r\n"
            if r == 6:
                b[0:3] = b"\n\n\n"
            if r == 7:
                b[0] = b[1] = b[-1] = b[-2] = 0
            if r == 8:
                b[:4] = b"--- "
        return bytes(b)


SMALL_RSA = ["rsa1024e65537", "rsa1024e3", "rsa1536e65537"]

PASSWORDS = [
    b"x", b"correct horse battery staple", b" ", b"a b", b"trailing ", b"\n", b"pass\nword",
    "p\u00e4ss".encode(), "\u30d1\u30b9\u30ef\u30fc\u30c9".encode(), b"\x00", b"a\x00b", b"p" * 200,
    bytes(range(256)), b"'quoted'", b"-p", b"\xff\xfe",
]


def party(rng, kinds=("x25519", "ssh-ed25519", "ssh-rsa")):
    k = rng.choice(kinds)
    if k == "x25519":
        return XParty(hostile32(rng))
    if k == "ssh-ed25519":
        return EParty(rng.randbytes(32))
    if k == "ssh-rsa":
        names = sorted(rsa_pool())
        name = rng.choice(names if rng.random() < 0.4 else SMALL_RSA)
        e = rng.randrange(3, 1 << 30) | 1 if rng.random() < 0.6 and name in SMALL_RSA else None
        return RParty(name, e)
    if k == "scrypt":
        return PParty(rng.choice(PASSWORDS) if rng.random() < 0.5 else rng.randbytes(rng.randrange(1, 40)))
    raise ValueError(k)


def parties(rng, n, kinds=("x25519", "ssh-ed25519", "ssh-rsa")):
    out, seen = [], set()
    while len(out) < n:
        p = party(rng, kinds)
        if repr(p) in seen:
            continue
        seen.add(repr(p))
        out.append(p)
    return out


def age_encrypt(recipients, data, writes=None):
    out = io.BytesIO()
    with Encryptor(recipients, out) as e:
        for w in writes if writes is not None else [data]:
            e.write(w)
    return out.getvalue()


def age_decrypt(identities, data):
    with Decryptor(identities, io.BytesIO(data)) as d:
        return d.read()


def ref_file(rng, parts, pt, extra=None, file_key=None, nonce=None):
    """a file written by the reference for the given parties; extra: more stanzas, shuffled in"""
    fk = file_key if file_key is not None else rng.randbytes(16)
    sts = [p.wrap(rng, fk) for p in parts]
    if extra:
        for s in extra:
            sts.insert(rng.randrange(len(sts) + 1), s)
    return ref.encrypt(fk, nonce if nonce is not None else rng.randbytes(16), sts, pt)


def ref_open(data, p):
    """the plaintext of a complete, correct file for party p by the strict reference, or Malformed"""
    sts, covered, mac, off = ref.parse_header(data)
    for st in sts:
        try:
            fk = p.unwrap(st)
        except Exception:
            continue
        if fk is not None and ref.header_mac(fk, covered) == mac:
            return ref.open_payload(data, off, fk)
    raise ref.Malformed("no entry for this party, or wrong tag")


# ---------------------------------------------------------------------- entries of other types
def vchars(rng, n):
    return "".join(chr(rng.randrange(33, 127)) for _ in range(n))


def unknown_stanza(rng):
    t = rng.choice(
        ["piv-p256", "X25519-v2", "x25519", "Scrypt", "scrypt2", "ssh-dss", "ssh-rsa2", "ssh-ed25519x", "mlkem768x25519", "abc-grease", "-", "->", "#"]
    )
    if rng.random() < 0.3:
        t = vchars(rng, rng.randrange(1, 20)) + "-grease"
    elif rng.random() < 0.2:
        t = word(rng)
        t += "x" * (t in KNOWN_TYPES)
    args = [word(rng) if rng.random() < 0.1 else vchars(rng, rng.choice([1, 2, 8, 43, 100])) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
    n = rng.choice([0, 1, 2, 3, 16, 31, 32, 47, 48, 49, 95, 96, 97, 144, 200, 768, rng.randrange(400)])
    return ref.Stanza(t, args, rng.randbytes(n))


def mac_fixed(data, file_key, mutate):
    """re-serialise a file after changing its entries, with a correct tag (needs the file key)"""
    sts, _, _, off = ref.parse_header(data)
    sts = mutate(sts) or sts
    return ref.build_header(sts, file_key) + data[off:]


class muted:
    """swallow what pyage prints about unknown entries"""

    def __enter__(self):
        import sys

        self.old = sys.stderr
        sys.stderr = self.buf = io.StringIO()
        return self

    def __exit__(self, *a):
        import sys

        sys.stderr = self.old
