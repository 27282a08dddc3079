"""C11 key strings: exact bech32, typing errors caught"""
from age.keys.agekey import AgePrivateKey, AgePublicKey

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C11"
RULE = (
    "a case = a key converted to text and back (compared with the reference's bech32), or a damaged / foreign / random "
    "string given to the readers: either refused or, up to letter case, the text form of the key it yields; "
    "distinct = strings"
)
ASSUMPTIONS = ["the published bech32 checksum (BIP-173) as implemented in mon/ref.py"]
REQUIRED = {"roundtrips": 600, "substituted": 8000, "foreign": 500, "random": 2000, "case": 500}

HP, HS = "age", "age-secret-key-"


def pub(s):
    return AgePublicKey.from_public_string(s)


def priv(s):
    return AgePrivateKey.from_private_string(s)


def text_pub(k):
    return k.public_string()


def text_priv(k):
    return k.private_string()


def judged(ctx, read, text, s, why, refuse=True):
    try:
        k = read(s)
    except Exception:
        ctx.eval((s, why))
        return
    if refuse:
        raise Violation(f"{why}: accepted", string=s, yields=text(k))
    if text(k).lower() != s.lower() or not (s == s.lower() or s == s.upper()):
        raise Violation(f"{why}: accepted string is not the text form of its key", string=s, yields=text(k))
    ctx.eval((s, why))


def roundtrip(ctx):
    rng = ctx.rng
    for _ in range(12):
        sk = gen.hostile32(rng) if rng.random() < 0.7 else ctx.bytes(32)
        if rng.random() < 0.2:
            sk = rng.choice([bytes(32), b"\xff" * 32, bytes(31) + b"\x80", b"\x01" + bytes(31), bytes([31] * 32)])
        k = AgePrivateKey.from_private_bytes(sk)
        s = k.private_string()
        ctx.equal(s, ref.priv_string(sk), "private key string")
        ctx.check(s == s.upper() and s.startswith("AGE-SECRET-KEY-1"), "private key prefix and case", s=s)
        for form in (s, s.lower()):
            k2 = ctx.must("private key string read back", priv, form) if form == s else None
            if form != s:
                judged(ctx, priv, text_priv, form, "lower case private key", refuse=False)
            if k2 is not None:
                ctx.equal(bytes(k2.private_bytes()), sk, "private key bytes")
                ctx.equal(k2, k, "private key equality")
                ctx.equal(hash(k2), hash(k), "private key hash")
        pk = ref.x25519_base(sk)
        ctx.equal(bytes(k.public_key().public_bytes()), pk, "public key of a private key")
        for raw in (pk, gen.hostile32(rng)):
            p = AgePublicKey.from_public_bytes(raw)
            t = p.public_string()
            ctx.equal(t, ref.pub_string(raw), "public key string")
            ctx.check(t == t.lower() and t.startswith("age1"), "public key prefix and case", t=t)
            p2 = ctx.must("public key string read back", pub, t)
            ctx.equal(bytes(p2.public_bytes()), raw, "public key bytes")
            ctx.equal(p2, p, "public key equality")
            judged(ctx, pub, text_pub, t.upper(), "upper case public key", refuse=False)
            ctx.count("roundtrips")
            ctx.eval(t)
        # different keys are different
        other = AgePublicKey.from_public_bytes(ctx.bytes(32))
        ctx.check(not (other == k.public_key()), "different public keys compare equal")
    ctx.sample(string=t)


CH = ref.B32
ANY = "".join(chr(c) for c in range(33, 127))


def both(rng):
    sk = rng.randbytes(32)
    yield pub, text_pub, ref.pub_string(ref.x25519_base(sk)), HP
    yield priv, text_priv, ref.priv_string(sk), HS


def substituted(ctx):
    rng = ctx.rng
    for read, text, s, hrp in both(rng):
        up = s == s.upper()
        start = len(hrp) + 1
        for i in range(len(s)):
            # one position: another bech32 letter, any character, the other case
            for c in (rng.choice(CH), rng.choice(ANY), s[i].swapcase(), "1", rng.choice("bioq")):
                c = c.upper() if up and rng.random() < 0.5 else c
                if c == s[i]:
                    continue
                judged(ctx, read, text, s[:i] + c + s[i + 1 :], f"character {i} substituted")
                ctx.count("substituted")
        for _ in range(120):
            n = rng.randrange(2, 5)
            lo = start if rng.random() < 0.8 else 0
            if rng.random() < 0.5:
                # a burst
                a = rng.randrange(lo, len(s) - n + 1)
                pos = list(range(a, a + n))
            else:
                pos = rng.sample(range(lo, len(s)), n)
            t = list(s)
            for i in pos:
                c = rng.choice(CH) if rng.random() < 0.9 else rng.choice(ANY)
                t[i] = c.upper() if up else c
            t = "".join(t)
            if t == s:
                continue
            judged(ctx, read, text, t, f"characters {pos} substituted")
            ctx.count("substituted")


def letter_case(ctx):
    """mixed letter case, in every proportion"""
    rng = ctx.rng
    for read, text, s, hrp in both(rng):
        low = s.lower()
        letters = [i for i, c in enumerate(low) if c.isalpha()]
        forms = []
        for _ in range(40):
            up = set(rng.sample(letters, rng.choice([1, 2, 3, len(letters) // 2, len(letters) - 1])))
            forms.append("".join(c.upper() if i in up else c for i, c in enumerate(low)))
        forms += [low[: len(hrp)].upper() + low[len(hrp) :], low[: len(hrp)] + low[len(hrp) :].upper(), low[:-6] + low[-6:].upper(), low[:-1] + low[-1].upper(), low.capitalize(), low.title()]
        for t in forms:
            if t == t.lower() or t == t.upper():
                continue
            judged(ctx, read, text, t, "mixed letter case")
            ctx.count("case")
        # other characters that lower() or upper() map onto letters
        for a, b in (("k", "\u212a"), ("s", "\u017f"), ("i", "\u0131"), ("a", "\uff41"), ("a", "\u0430"), ("e", "\u0435"), ("1", "\uff11"), ("-", "\u2010")):
            for base in (low, low.upper()):
                for src in (a, a.upper()):
                    idx = [i for i, c in enumerate(base) if c == src]
                    if idx:
                        i = rng.choice(idx)
                        judged(ctx, read, text, base[:i] + b + base[i + 1 :], f"{b!r} in place of {src!r}")
                        ctx.count("case")


def to5(data):
    n = len(data) * 8
    pad = -n % 5
    v = int.from_bytes(data, "big") << pad
    return [(v >> (5 * i)) & 31 for i in range((n + pad) // 5 - 1, -1, -1)]


def bech32m(hrp, vals):
    s = ref.bech32_raw(hrp, vals)
    body, chk = s[:-6], [CH.index(c) for c in s[-6:]]
    d = 0x2BC830A3 ^ 1
    return body + "".join(CH[c ^ ((d >> 5 * (5 - i)) & 31)] for i, c in enumerate(chk))


def foreign(ctx):
    """well-formed bech32 that is not a key of this kind"""
    rng = ctx.rng
    for read, text, s, hrp in both(rng):
        up = (lambda x: x.upper()) if hrp == HS else (lambda x: x)
        raw = ctx.bytes(32)
        bad = []
        for n in (0, 1, 15, 16, 19, 20, 30, 31, 33, 34, 40, 48, 64):
            bad.append(("wrong length", ref.bech32(hrp, ctx.bytes(n))))
        bad.append(("wrong length", ref.bech32(hrp, raw + b"\0")))
        bad.append(("wrong length", ref.bech32(hrp, raw[:31])))
        for h in ("age", "age-secret-key-", "ag", "agee", "age-", "age1", "a", "aga", "bc", "age-secret-key", "age-secret-key--", "age-secret-key-1", "age-plugin-", "xage", "age-recipient-", "agf", "age_secret_key_"):
            if h != hrp:
                bad.append((f"prefix {h!r}", ref.bech32(h, raw)))
        bad.append(("no prefix", ref.bech32("", raw)))
        bad.append(("no prefix, no separator", ref.bech32(hrp, raw).split("1", 1)[1]))
        v = to5(raw)
        for x in range(1, 16):
            bad.append(("non-zero padding", ref.bech32_raw(hrp, v[:-1] + [v[-1] & 16 | x])))
        for x in (0, 1, 31):
            bad.append(("superfluous group", ref.bech32_raw(hrp, v + [x])))
            bad.append(("superfluous groups", ref.bech32_raw(hrp, v + [x, 0])))
        bad.append(("missing group", ref.bech32_raw(hrp, v[:-1])))
        bad.append(("bech32m checksum", bech32m(hrp, v)))
        for const in (0, 2, 0x3FFFFFFF):
            t = ref.bech32_raw(hrp, v)
            d = const ^ 1
            bad.append(("other checksum constant", t[:-6] + "".join(CH[CH.index(c) ^ ((d >> 5 * (5 - i)) & 31)] for i, c in enumerate(t[-6:]))))
        good = up(s)
        base = good.lower()
        for i in (0, len(hrp), len(hrp) + 1, rng.randrange(len(base)), len(base) - 1):
            bad.append(("character dropped", base[:i] + base[i + 1 :]))
            bad.append(("character doubled", base[:i] + base[i] + base[i:]))
        for c in (" ", "\n", "\t", "\0", "\x7f", "\x80", "1", "q", "p", "=", "\r\n"):
            bad.append(("character appended", base + c))
            bad.append(("character prepended", c + base))
            i = rng.randrange(1, len(base))
            bad.append(("character inserted", base[:i] + c + base[i:]))
        for c in [rng.choice(CH) for _ in range(4)] + list(" -_.,:;/+'\"()[]<>|*#@!~^`$%&?\\{}=") + ["\xa0", "\u200b", "\xad", "\u2011", "\ufeff", "\u200d", "\u2028", "%20", "\\n", "\r", "\v", "\x1c", "\x85", "--"]:
            i = rng.randrange(1, len(base))
            bad += [("character inserted", base[:i] + c + base[i:]), ("character appended", base + c), ("character prepended", c + base)]
            k = rng.choice([1, 2, 3, 4, 5, 8, 16, 32])
            bad.append(("written in groups", c.join(base[j : j + k] for j in range(0, len(base), k))))
            bad.append(("written in groups", base[: len(hrp) + 1] + c.join(base[j : j + k] for j in range(len(hrp) + 1, len(base), k))))
            bad.append(("one character repeatedly inserted", base[:4] + c * rng.randrange(2, 6) + base[4:]))
        for a in ("age:", "age://", "AGE:", "age ", "public key: ", "# public key: ", "recipient=", "mailto:", "ssh-ed25519 "):
            bad.append(("text before it", a + base))
        for a in (" comment", "\tme@host", "#comment", " # comment", "@host", "/", "?", "\nx", ",", ";"):
            bad.append(("text behind it", base + a))
        # the insertion weakness of bech32: q before a final p
        for _ in range(3):
            for _try in range(400):
                r = rng.randbytes(32)
                t = ref.bech32(hrp, r)
                if t.endswith("p"):
                    bad += [("q inserted before the final p", t[:-1] + "q" * n + "p") for n in (1, 2, 3, 5, 8)]
                    break
        for i in range(len(hrp) + 1, len(base) - 1):
            if base[i] != base[i + 1]:
                bad.append(("transposed", base[:i] + base[i + 1] + base[i] + base[i + 2 :]))
        bad += [("empty", ""), ("separator only", "1"), ("prefix only", hrp + "1"), ("two keys", base + base), ("two keys", base + " " + base), ("doubled separator", base.replace("1", "11", 1))]
        for why, t in bad:
            for form in (t, t.upper()):
                if form.lower() == base and (form == form.lower() or form == form.upper()):
                    continue
                judged(ctx, read, text, form, why)
                ctx.count("foreign")


def randoms(ctx):
    """whatever is accepted is the text form of what it yields"""
    rng = ctx.rng
    for _ in range(150):
        for read, text, s, hrp in both(rng):
            k = rng.randrange(5)
            if k == 0:
                t = hrp + "1" + "".join(rng.choice(CH) for _ in range(rng.choice([58, 58, 58, 57, 59, 52, 64])))
            elif k == 1:
                t = ref.bech32_raw(hrp, [rng.randrange(32) for _ in range(rng.choice([50, 51, 52, 52, 52, 53, 54]))])
            elif k == 2:
                t = "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0x500), 0x212A, 0x17F])) for _ in range(rng.randrange(80)))
            elif k == 3:
                t = s[: rng.randrange(len(s))] + gen.vchars(rng, rng.randrange(20))
            else:
                t = s if rng.random() < 0.5 else s.swapcase()
            judged(ctx, read, text, t if rng.random() < 0.5 else t.upper(), "arbitrary string", refuse=False)
            ctx.count("random")


def families(tier):
    q = tier == "quick"
    return [
        ("roundtrip", 40 if q else 1500, roundtrip),
        ("substituted", 16 if q else 600, substituted),
        ("letter_case", 10 if q else 300, letter_case),
        ("foreign", 8 if q else 200, foreign),
        ("randoms", 10 if q else 400, randoms),
    ]
