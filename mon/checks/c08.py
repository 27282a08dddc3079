"""C08 freshness: nothing that must be unique ever repeats; no AEAD key+nonce reuse"""
import base64
import os
import pickle
import random
import sys
import time

from mon import core, gen, ref
from mon.core import Violation

OPTIMIZED_EVERY = 0  # the whole run has been tried without assertions; nothing in it depends on them
PROPERTY = "C08"
RULE = (
    "a case = a batch of encryptions (same plaintext, same recipients, repeated) in one process, in processes forked "
    "from a common parent, or in processes whose clocks, pids and `random` module were reset to one state; an offline "
    "checker opens every file with the reference and compares all file keys, nonces, shares, salts, OAEP seeds, wrap "
    "keys and payload keys pairwise (whole values and 64-bit halves) and tests each bit position for bias; distinct = "
    "secret values compared"
)
ASSUMPTIONS = ["repetition and bias are observed on samples; predictability by other means is out of sight of any black-box monitor"]
REQUIRED = {"files": 600, "values": 2500, "forked_files": 60, "frozen_files": 30, "generated_keys": 500, "bias_tests": 4, "chunks_compared": 500, "salts": 20, "reentrant": 75, "rank_tests": 8, "many": 400000}


def collect(parts, ct):
    """-> list of (category, value) of everything that has to be unique"""
    sts, _, _, off = ref.parse_header(ct)
    nonce = ct[off : off + 16]
    out = [("nonce", nonce)]
    fk = None
    for st, p in zip(sts, parts):
        k = p.unwrap(st)
        if fk is not None and k != fk:
            raise Violation("entries of one file carry different file keys")
        fk = k
        if st.type == "X25519":
            out.append(("share", ref.unb64(st.args[0])))
        elif st.type == "ssh-ed25519":
            out.append(("share", ref.unb64(st.args[1])))
        elif st.type == "scrypt":
            out.append(("salt", ref.unb64(st.args[0])))
        elif st.type == "ssh-rsa":
            out.append(("oaep", st.body[:32]))
        # entry bodies are encryptions under a zero nonce: equal bodies for one file key mean an equal wrap key
        if st.type != "ssh-rsa":
            out.append(("body", st.body[:32]))
    out.append(("file_key", fk))
    out.append(("payload_key", ref.payload_key(fk, nonce)))
    return out


class Seen:
    def __init__(self, ctx):
        self.ctx, self.d, self.by = ctx, {}, {}

    def add(self, cat, val, where):
        pieces = [("", val)]
        if len(val) >= 16:
            pieces += [(f"[{i}:{i + 8}]", val[i : i + 8]) for i in range(0, len(val) - 7, 8)]
        for nm, v in pieces:
            old = self.d.get((len(v), v))
            if old is not None and old != (cat + nm, where):
                raise Violation(
                    f"{cat}{nm} of {where} repeats {old[0]} of {old[1]}", value=v.hex(),
                )
            self.d[(len(v), v)] = (cat + nm, where)
        self.by.setdefault(cat, []).append(val)
        self.ctx.count("values")
        self.ctx.eval((cat, val))

    def file(self, parts, ct, where):
        for i, (cat, val) in enumerate(collect(parts, ct)):
            self.add(cat, val, f"{where}.{i}")
            if cat == "salt":
                self.ctx.count("salts")
        self.ctx.count("files")

    def bias(self, cat, skip=()):
        vals = self.by.get(cat, [])
        n = len(vals)
        if n < 300:
            return
        self.ctx.count("bias_tests")
        for bit in range(len(vals[0]) * 8):
            if bit in skip:
                continue
            ones = sum(v[bit // 8] >> (bit % 8) & 1 for v in vals)
            # 9 standard deviations
            if abs(ones - n / 2) > 9 * (n**0.5) / 2:
                raise Violation(f"bit {bit} of {cat} is set in {ones} of {n} cases", sample=[v.hex() for v in vals[:4]])
        independent(self.ctx, cat, vals, skip)


def independent(ctx, cat, vals, skip=()):
    """no linear relation between the bits of a random value: a short value blown up shows at once, whatever its entropy"""
    bits = len(vals[0]) * 8 - len(skip)
    if len(vals) < bits + 64:
        return
    mask = ~sum(1 << b for b in skip)
    # bit numbers as in bias(): little endian
    nums = [int.from_bytes(v, "little") & mask for v in vals[: bits + 200]]
    first, pivots = nums[0], {}
    for x in nums[1:]:
        x ^= first
        while x:
            h = x.bit_length()
            if h not in pivots:
                pivots[h] = x
                break
            x ^= pivots[h]
    ctx.count("rank_tests")
    if len(pivots) != bits:
        raise Violation(f"{cat}: {bits} bits of {len(vals)} random values span {len(pivots)} dimensions only", sample=[v.hex() for v in vals[:4]])


def many(ctx):
    """so many values of one kind that a generator with some 30 bits of entropy repeats itself"""
    from age.algorithms.scrypt import scrypt_encrypt_file_key
    from age.algorithms.x25519 import x25519_encrypt_file_key
    from age.keys.agekey import AgePrivateKey
    from age.keys.ed25519 import Ed25519PrivateKey
    from age.primitives.random import random as rand

    party = gen.XParty(ref.sha256(b"c08"))
    pub, pw = party.recipient, gen.PasswordKey(b"pw")
    top = (255,)

    def files():
        import io

        from age.file import Encryptor

        b = io.BytesIO()
        with Encryptor([pub], b):
            pass
        c = b.getvalue()
        return [("nonce", c[-32:-16], ()), ("share", c[c.index(b"25519 ") + 6 : c.index(b"25519 ") + 49], None)]

    def file_keys():
        import io

        from age.file import Encryptor
        from age.format import load_header
        from age.recipients.helpers import decrypt_file_key, get_recipient

        b = io.BytesIO()
        with Encryptor([pub], b):
            pass
        b.seek(0)
        r = load_header(b)[0].recipients[0]
        return [("file key", decrypt_file_key([get_recipient(r.type, r.arguments, r.body)], [party.identity]), ())]

    kinds = [
        (files, 40000), (file_keys, 20000),
        (lambda: [("share", bytes(x25519_encrypt_file_key(pub, b"k" * 16)[0]), top)], 60000),
        (lambda: [("salt", scrypt_encrypt_file_key(pw, b"k" * 16, log_cost=1)[0], ())], 260000),
        (lambda: [("private key", bytes(AgePrivateKey.generate().private_bytes()), (0, 1, 2, 254, 255))], 260000),
        (lambda: [("ed25519 key", Ed25519PrivateKey.generate().public_key().binary_encoding()[-32:], None)], 40000),
        (lambda: [("random", rand(16), ())], 600000),
    ]
    make, n = kinds[ctx.idx % len(kinds)]
    if ctx.tier == "thorough":
        n *= 6
    seen, first = {}, {}
    t = time.monotonic()
    done = 0
    for i in range(n):
        for cat, val, skip in make():
            d = seen.setdefault(cat, set())
            h = val[:12]
            if h in d:
                raise Violation(f"{cat} number {i} repeats an earlier one", value=val.hex())
            d.add(h)
            f = first.setdefault(cat, ([], skip))[0]
            if len(f) < 520:
                f.append(val)
        done += 1
        if i % 500 == 0 and time.monotonic() - t > (45 if ctx.tier == "quick" else 300):
            break
    for cat, (vals, skip) in first.items():
        if skip is not None:
            independent(ctx, cat, vals, skip)
    ctx.count("many", done)
    ctx.eval(("many", ctx.idx % len(kinds)))


def fixed_parts(ctx):
    return [gen.XParty(ref.sha256(b"c08")), gen.EParty(ref.sha256(b"c08e")), gen.RParty("rsa1024e65537")]


def batch(ctx):
    """the same message to the same recipients, over and over"""
    rng = ctx.rng
    parts = fixed_parts(ctx)[:2]
    parts = parts + [parts[0]] * 2 + [parts[1]]
    seen = Seen(ctx)
    for i in range(330):
        ps = parts if i % 3 == 0 else rng.sample(parts, rng.randrange(1, 3))
        seen.file(ps, gen.age_encrypt([p.recipient for p in ps], b"same message"), f"file {i}")
    for cat in ("nonce", "file_key", "payload_key"):
        seen.bias(cat)
    seen.bias("share", skip=(255,))
    ctx.sample(values=len(seen.d))


def rsa(ctx):
    parts = [gen.RParty("rsa1024e65537")] * 2 + [gen.RParty("rsa1024e3")]
    seen = Seen(ctx)
    for i in range(60):
        ct = gen.age_encrypt([p.recipient for p in parts], b"same message")
        seen.file(parts, ct, f"file {i}")


def salts(ctx):
    """salts through the algorithm function at low cost and through real files"""
    from age.algorithms.scrypt import scrypt_encrypt_file_key

    pw = gen.PasswordKey(b"pw")
    seen = Seen(ctx)
    fk = bytes(16)
    for i in range(320):
        r = scrypt_encrypt_file_key(pw, fk, log_cost=1)
        seen.add("salt", r[0], f"entry {i}")
        seen.add("body", r[2], f"entry {i}")
        ctx.count("salts")
    seen.bias("salt")
    parts = [gen.PParty(b"pw"), gen.PParty(b"pw")]
    seen.file(parts, gen.age_encrypt([p.recipient for p in parts], b""), "real")


def generated(ctx):
    from age.keys.agekey import AgePrivateKey
    from age.keys.ed25519 import Ed25519PrivateKey

    seen = Seen(ctx)
    for i in range(320):
        k = AgePrivateKey.generate()
        seen.add("private", bytes(k.private_bytes()), f"key {i}")
        seen.add("public", bytes(k.public_key().public_bytes()), f"key {i}")
        seen.add("ed", Ed25519PrivateKey.generate().public_key().binary_encoding()[-32:], f"key {i}")
        ctx.count("generated_keys", 2)
    seen.bias("private", skip=(0, 1, 2, 254, 255))


def _child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def _join(kids):
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            out.append(pickle.loads(f.read()))
        os.waitpid(pid, 0)
    return out


def _encrypt_some(parts, n=6):
    from age.keys.agekey import AgePrivateKey

    cts = [gen.age_encrypt([p.recipient for p in parts], b"same message") for _ in range(n)]
    return cts, [bytes(AgePrivateKey.generate().private_bytes()) for _ in range(3)]


def forked(ctx):
    """parent warmed up, children forked from it: nobody repeats anybody"""
    rng = ctx.rng
    parts = fixed_parts(ctx)[: rng.choice([1, 2, 3])]
    random.seed(1234)
    warm = _encrypt_some(parts)
    kids = [_child(lambda: _encrypt_some(parts)) for _ in range(4)]
    after = _encrypt_some(parts)
    seen = Seen(ctx)
    for where, (cts, keys) in [("parent before", warm), ("parent after", after)] + [(f"child {i}", r) for i, r in enumerate(_join(kids))]:
        for j, ct in enumerate(cts):
            seen.file(parts, ct, f"{where}/{j}")
            ctx.count("forked_files")
        for j, k in enumerate(keys):
            seen.add("private", k, f"{where}/{j}")
            ctx.count("generated_keys")


def reentrant(ctx):
    """a signal handler or finaliser encrypts while an encryption of the same thread is on its way, at every line of it"""
    from mon.core import AGE_DIR

    parts = fixed_parts(ctx)[:2]
    seen = Seen(ctx)
    state = {}

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(AGE_DIR):
            return None
        if event == "line":
            state["n"] += 1
            if state["n"] == state["at"]:
                sys.settrace(None)
                try:
                    state["nested"] = _encrypt_some(parts, 1)
                finally:
                    sys.settrace(tracer)
        return tracer

    at, total = 1 + ctx.idx, 1
    while at <= total:
        state.update(n=0, at=at, nested=None)
        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            outer = _encrypt_some(parts, 1)
        finally:
            sys.settrace(old)
        total = state["n"]
        for where, r in (("outer", outer), ("nested", state["nested"])):
            if r is None:
                continue
            cts, keys = r
            for ct in cts:
                seen.file(parts, ct, f"{where} at line event {at}")
            for i, k in enumerate(keys):
                seen.add("private", k, f"{where} at line event {at}.{i}")
            ctx.count("reentrant")
        at += 4


def _freeze():
    """everything a lazy generator could be seeded with, in one fixed state"""
    import datetime
    import uuid

    random.seed(0)
    for name in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time", "process_time_ns", "thread_time", "clock_gettime", "clock_gettime_ns"):
        ns = name.endswith("_ns")
        setattr(time, name, (lambda *a, ns=ns: 1700000000 * (10**9 if ns else 1)))
    os.getpid = lambda: 4242
    os.getppid = lambda: 4241

    class Frozen(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls(2024, 1, 1, tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls(2024, 1, 1)

        @classmethod
        def today(cls):
            return cls(2024, 1, 1)

    datetime.datetime = Frozen
    uuid.getnode = lambda: 1
    uuid.uuid1 = uuid.uuid4 = lambda *a: uuid.UUID(int=5)


def frozen(ctx):
    parts = fixed_parts(ctx)[:2]

    def work():
        _freeze()
        return _encrypt_some(parts, 5)

    kids = [_child(work) for _ in range(5)]
    seen = Seen(ctx)
    for i, (cts, keys) in enumerate(_join(kids)):
        for j, ct in enumerate(cts):
            seen.file(parts, ct, f"reset process {i}/{j}")
            ctx.count("frozen_files")
        for j, k in enumerate(keys):
            seen.add("private", k, f"reset process {i}/{j}")
            ctx.count("generated_keys")
    # and within one process, the generator reset before each use
    st = random.getstate()
    try:
        for j in range(10):
            random.seed(0)
            seen.file(parts, gen.age_encrypt([p.recipient for p in parts], b"same message"), f"reseeded {j}")
            ctx.count("frozen_files")
    finally:
        random.setstate(st)


def interpreters(ctx):
    """separate interpreters started with the same hash seed and environment"""
    import subprocess
    import sys

    code = (
        "import io,sys,base64\n"
        "from age.file import Encryptor\nfrom age.keys.agekey import AgePublicKey,AgePrivateKey\n"
        "k=AgePublicKey.from_public_string(sys.argv[1])\n"
        "for i in range(5):\n b=io.BytesIO()\n with Encryptor([k],b) as e: e.write(b'm')\n print(base64.b64encode(b.getvalue()).decode())\n"
        "for i in range(3): print(AgePrivateKey.generate().private_bytes().hex())\n"
    )
    p = gen.XParty(ref.sha256(b"c08"))
    env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": "0", "PYTHONPATH": core.REPO + "/src", "PYTHONDONTWRITEBYTECODE": "1"}
    ps = [subprocess.Popen([sys.executable, "-c", code, p.cli_recipient], stdout=subprocess.PIPE, env=env) for _ in range(3)]
    seen = Seen(ctx)
    for i, q in enumerate(ps):
        lines = q.communicate()[0].decode().split()
        ctx.check(q.returncode == 0 and len(lines) == 8, "encryption failed in a fresh interpreter")
        for j, ln in enumerate(lines[:5]):
            seen.file([p], base64.b64decode(ln), f"interpreter {i}/{j}")
        for j, ln in enumerate(lines[5:]):
            seen.add("private", bytes.fromhex(ln), f"interpreter {i}/{j}")


def chunks(ctx):
    """chunks of equal plaintext under one key: equal ciphertext means a repeated nonce"""
    n = [300, 270, 520][ctx.idx % 3]
    p = gen.XParty(ctx.bytes(32))
    ct = gen.age_encrypt([p.recipient], bytes(n * ref.CHUNK))
    sts, _, _, off = ref.parse_header(ct)
    fk = p.unwrap(sts[0])
    body = ct[off + 16 :]
    E = ref.CHUNK + 16
    seen = {}
    for i in range(0, len(body), E):
        h = body[i : i + 64]
        if h in seen:
            raise Violation(f"chunks {seen[h]} and {i // E} are encrypted under the same key and nonce")
        seen[h] = i // E
        ctx.count("chunks_compared")
    try:
        ref.open_payload(ct, off, fk)
    except Exception as e:
        raise Violation(f"chunk nonces are not the counter sequence: {type(e).__name__}")
    ctx.eval(("chunks", n))


def tiny_chunks(ctx):
    """beyond 2^16 chunks, block size constants scaled down (skipped when they are gone)"""
    import age.stream as s

    names = ("PLAINTEXT_BLOCK_SIZE", "CIPHERTEXT_BLOCK_SIZE")
    if not all(isinstance(getattr(s, n, None), int) for n in names):
        ctx.count("tiny_skipped")
        return
    old = [getattr(s, n) for n in names]
    try:
        k = 8
        s.PLAINTEXT_BLOCK_SIZE, s.CIPHERTEXT_BLOCK_SIZE = k, k + 16
        key = ctx.bytes(32)
        if s.stream_encrypt(key, bytes(3 * k)) != ref.stream_enc(key, bytes(3 * k), k):
            ctx.count("tiny_skipped")
            return
        n = 66000
        body = s.stream_encrypt(key, bytes(n * k))
        seen = {}
        for i in range(0, len(body), k + 16):
            c = body[i : i + k + 16]
            if c in seen:
                raise Violation(f"chunks {seen[c]} and {i // (k + 16)} of {n} are encrypted under the same key and nonce")
            seen[c] = i // (k + 16)
        ctx.count("tiny_chunks", n)
        ctx.eval(("tiny", n))
    finally:
        for nm, v in zip(names, old):
            setattr(s, nm, v)


def families(tier):
    q = tier == "quick"
    return [
        ("many", 7 if q else 14, many),
        ("batch", 3 if q else 40, batch),
        ("rsa", 3 if q else 30, rsa),
        ("salts", 1 if q else 8, salts),
        ("generated", 2 if q else 20, generated),
        ("forked", 6 if q else 60, forked),
        ("reentrant", 4, reentrant),
        ("frozen", 4 if q else 40, frozen),
        ("interpreters", 1 if q else 12, interpreters),
        ("chunks", 2 if q else 6, chunks),
        ("tiny_chunks", 1 if q else 2, tiny_chunks),
    ]
