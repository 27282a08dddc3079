"""C07 files of other age v1 implementations decrypt"""
import base64
import hashlib
import io
import json
import os

from mon import gen, ref
from mon.core import VERIF

PROPERTY = "C07"
RULE = (
    "a case = file produced by the independent reference writer (random entries incl. unknown types with any arguments "
    "and bodies of every length, any work factor, hostile key/nonce/tag bytes, any plaintext length) opened by pyage "
    "with one matching identity; plus files written by the original release; distinct = (entry types and body lengths, "
    "plaintext length, nonce class)"
)
ASSUMPTIONS = ["work factors 2^17..2^22 are sampled (2^22 takes 4 GiB)"]
REQUIRED = {"opened": 800, "unknown_entries": 200, "body_multiple_of_64": 30, "empty_body": 30, "hostile_nonce": 100, "old_files": 30, "scrypt": 40, "big_work_factor": 2}
ALL = ("x25519", "ssh-ed25519", "ssh-rsa", "scrypt")


def hostile16(rng, ctx=None):
    b = bytearray(rng.randbytes(16))
    r = rng.randrange(9)
    ws = b"\n\r \t\x0b\x0c\0-"
    if r < 3:
        b[0] = rng.choice(ws)
    elif r == 3:
        b[-1] = rng.choice(ws)
    elif r == 4:
        b[:4] = rng.choice([b"\n---", b"\n-> ", b"\r\n\r\n", b"\n\n\n\n", b"--- ", b"-> X"])
    elif r == 5:
        b = bytearray(rng.choice([0, 255, 10, 32]) for _ in range(1)) * 16
    elif r == 6:
        b[0] = 0x80 | rng.randrange(128)
    return bytes(b)


def opened(ctx, me, ct, data, what, sig):
    with gen.muted():
        got = ctx.must(f"decrypting {what} with {me}", gen.age_decrypt, [me.identity], ct)
    ctx.check(got == data, f"wrong plaintext from {what}", length=len(data), got=len(got))
    ctx.count("opened")
    ctx.eval(sig)


def mix(ctx):
    rng = ctx.rng
    parts = gen.parties(rng, rng.choice([1, 1, 2, 3, 6]), ALL)
    extra = [gen.unknown_stanza(rng) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    nonce, fk = hostile16(rng), hostile16(rng)
    data = gen.plain(rng)
    ct = gen.ref_file(rng, parts, data, extra, fk, nonce)
    me = rng.choice(parts)
    opened(ctx, me, ct, data, f"a file for {parts} and {extra}", ([(s.type, len(s.body)) for s in extra], [p.kind for p in parts], len(data), nonce[0]))
    ctx.count("unknown_entries", len(extra))
    ctx.count("body_multiple_of_64", sum(len(s.body) % 48 == 0 and len(s.body) > 0 for s in extra))
    ctx.count("empty_body", sum(not s.body for s in extra))
    ctx.count("hostile_nonce", nonce[0] in b"\n\r \t\x0b\x0c\0-" or nonce[0] >= 128)
    ctx.sample(recipients=parts, unknown=extra, nonce=nonce, length=len(data))


def bodies(ctx):
    """unknown entries with every body length, before and after ours"""
    rng = ctx.rng
    me = gen.XParty(rng.randbytes(32))
    for n in range(ctx.idx * 25, ctx.idx * 25 + 25):
        st = ref.Stanza("grease" + str(n), [gen.vchars(rng, 3)] * (n % 3), rng.randbytes(n))
        fk = rng.randbytes(16)
        sts = [me.wrap(rng, fk), st] if n % 2 else [st, me.wrap(rng, fk)]
        opened(ctx, me, ref.encrypt(fk, rng.randbytes(16), sts, b"data"), b"data", f"a file with an unknown entry of {n} bytes", ("body", n))
        ctx.count("unknown_entries")
        ctx.count("body_multiple_of_64", n % 48 == 0 and n > 0)
        ctx.count("empty_body", n == 0)


def arguments(ctx):
    """unknown entries whose type and arguments look like something else"""
    rng = ctx.rng
    me = gen.party(rng, ("x25519", "ssh-ed25519"))
    odd = ["X25519x", "x25519", "scrypt-v2", "ssh-rsa-sha1", "ssh", "-", "--", "---", "->", "#", ":", "=", "AAAA", "0", "age", "X-25519", "\\", "\"", "'", "%s", "{}", "{0}", "$HOME", "<a>", "Scrypt", "SSH-RSA"]
    for t in odd:
        args = [rng.choice(odd + [gen.vchars(rng, 60)]) for _ in range(rng.randrange(0, 4))]
        st = ref.Stanza(t, args, rng.randbytes(rng.choice([0, 5, 48])))
        fk = rng.randbytes(16)
        sts = [st, me.wrap(rng, fk)]
        if rng.random() < 0.5:
            sts.reverse()
        opened(ctx, me, ref.encrypt(fk, hostile16(rng), sts, b"data"), b"data", f"a file with entry {st} {args}", ("arg", t, tuple(args)))
        ctx.count("unknown_entries")
        ctx.count("empty_body", not st.body)


def lengths(ctx):
    rng = ctx.rng
    me = gen.party(rng, ("x25519", "ssh-ed25519"))
    for n in [gen.SIZES[(ctx.idx * 3 + k) % len(gen.SIZES)] for k in range(3)]:
        data = gen.plain(rng, n)
        opened(ctx, me, gen.ref_file(rng, [me], data), data, f"a file of {n} bytes", ("len", n))


def work_factor(ctx):
    rng = ctx.rng
    me = gen.PParty(rng.choice(gen.PASSWORDS))
    logn = 1 + ctx.idx % 17
    fk = hostile16(rng)
    st = ref.wrap_scrypt(fk, me.password, hostile16(rng), logn)
    ct = ref.encrypt(fk, hostile16(rng), [st], b"pw")
    opened(ctx, me, ct, b"pw", f"a passphrase file with work factor 2^{logn}", ("logn", logn, me.name))
    ctx.count("scrypt")


def big_work_factor(ctx):
    rng = ctx.rng
    me = gen.PParty(rng.randbytes(9))
    logn = [22, 21, 20, 19, 18][ctx.idx % 5]
    fk = rng.randbytes(16)
    ct = ref.encrypt(fk, rng.randbytes(16), [ref.wrap_scrypt(fk, me.password, rng.randbytes(16), logn)], b"pw")
    opened(ctx, me, ct, b"pw", f"a passphrase file with work factor 2^{logn}", ("logn", logn))
    ctx.count("big_work_factor")


def secrets(ctx):
    """hostile ephemeral secrets, shares, tags, salts for each kind"""
    rng = ctx.rng
    for _ in range(12):
        me = gen.party(rng, ("x25519", "ssh-ed25519", "ssh-rsa"))
        data = rng.randbytes(rng.randrange(30))
        nonce = hostile16(rng)
        ct = gen.ref_file(rng, [me], data, None, hostile16(rng), nonce)
        opened(ctx, me, ct, data, "a file with hostile key material", ("secret", me.name, nonce))
        ctx.count("hostile_nonce", nonce[0] in b"\n\r \t\x0b\x0c\0-" or nonce[0] >= 128)


def rsa_lengths(ctx):
    """ciphertexts with leading zero bytes and every modulus size"""
    rng = ctx.rng
    names = sorted(gen.rsa_pool())
    me = gen.RParty(names[ctx.idx % len(names)])
    fk = rng.randbytes(16)
    st = me.wrap(rng, fk)
    if me.name in gen.SMALL_RSA or ctx.idx % 5 == 0:
        for _ in range(1200):
            if st.body[0] == 0:
                break
            st = me.wrap(rng, fk)
        ctx.count("rsa_leading_zero", st.body[0] == 0)
    opened(ctx, me, ref.encrypt(fk, rng.randbytes(16), [st], b"r"), b"r", "an ssh-rsa file", ("rsa", me.name, st.body[0] == 0))


def armored(ctx):
    """armored by another tool: line ends, surrounding text"""
    from age.utils.asciiarmor import AsciiArmoredInput

    rng = ctx.rng
    me = gen.party(rng, ("x25519", "ssh-ed25519"))
    data = gen.plain(rng, None, 5000)
    text = ref.armor(gen.ref_file(rng, [me], data))
    if rng.random() < 0.3:
        text = text.replace("\n", "\r\n")
    raw = text.encode()
    got = ctx.must("decrypting an armored file", lambda: gen.Decryptor([me.identity], AsciiArmoredInput(ref.LABEL, io.BytesIO(raw))).read())
    ctx.check(got == data, "wrong plaintext from an armored file", length=len(data))
    ctx.count("opened")
    ctx.eval(("armored", len(data), b"\r" in raw))


def old(ctx):
    """files of the original release"""
    with open(os.path.join(VERIF, "fixtures", "old", "files.json")) as f:
        files = json.load(f)
    for rec in files[ctx.idx :: 4]:
        pt = hashlib.shake_256(b"pt%d" % rec["i"]).digest(rec["n"])
        for kind, v in rec["spec"]:
            if kind == "scrypt" and ctx.tier == "quick" and rec["i"] > 12:
                continue
            me = {"x25519": lambda: gen.XParty(bytes.fromhex(v)), "ssh-ed25519": lambda: gen.EParty(bytes.fromhex(v)),
                  "ssh-rsa": lambda: gen.RParty(v), "scrypt": lambda: gen.PParty(bytes.fromhex(v))}[kind]()
            opened(ctx, me, base64.b64decode(rec["file"]), pt, f"file {rec['i']} of the original release", ("old", rec["i"], kind))
            ctx.count("old_files")


def families(tier):
    q = tier == "quick"
    return [
        ("mix", 500 if q else 8000, mix),
        ("bodies", 12 if q else 60, bodies),
        ("arguments", 12 if q else 200, arguments),
        ("lengths", 13 if q else 130, lengths),
        ("work_factor", 51 if q else 170, work_factor),
        ("big_work_factor", 4 if q else 10, big_work_factor),
        ("secrets", 30 if q else 600, secrets),
        ("rsa_lengths", 28 if q else 280, rsa_lengths),
        ("armored", 60 if q else 800, armored),
        ("old", 4, old),
    ]
