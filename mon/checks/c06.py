"""C06 files written by pyage are age v1 files for an independent strict reader"""
import io

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C06"
RULE = (
    "a case = file written by pyage (Encryptor, or the encrypt command's function with and without armor) for random "
    "recipients; the strict reference parser has to accept every byte of it, unwrap every entry with the matching "
    "secret, agree on one file key, verify the tag and open the payload to the plaintext; distinct = (kinds, length); "
    "awkward os.urandom values are forced in part of the cases"
)
ASSUMPTIONS = ["the reference (mon/ref.py) states the published format; ssh-ed25519 follows the draft pyage implements"]
REQUIRED = {"files": 600, "entries:x25519": 200, "entries:ssh-rsa": 100, "entries:ssh-ed25519": 100, "entries:scrypt": 2, "full_last_line": 5, "armored": 10, "hostile": 100, "wide_headers": 1, "nonce_newline": 5}
TYPES = {"x25519": "X25519", "scrypt": "scrypt", "ssh-rsa": "ssh-rsa", "ssh-ed25519": "ssh-ed25519"}


def verify(ctx, parts, ct, data, what=""):
    try:
        sts, covered, mac, off = ref.parse_header(ct)
    except ref.Malformed as e:
        raise Violation(f"strict parser rejects the header: {e}", parts=parts, header=ct[:400])
    ctx.check(
        [s.type for s in sts] == [TYPES[p.kind] for p in parts], "entries are not the recipients in order",
        entries=sts, parts=parts,
    )
    keys = []
    for s, p in zip(sts, parts):
        try:
            keys.append(p.unwrap(s))
        except Exception as e:
            raise Violation(f"reference cannot unwrap the {s.type} entry: {type(e).__name__} {e}", args=s.args, body=s.body, party=p)
        ctx.count("entries:" + p.kind)
        if len(ref.b64(s.body)) % 64 == 0:
            ctx.count("full_last_line")
        if s.type == "scrypt":
            ctx.check(int(s.args[1]) >= 18, "work factor", got=s.args)
    ctx.check(len(set(keys)) == 1 and len(keys[0]) == 16, "entries carry different or odd file keys", keys=keys)
    ctx.equal(mac, ref.header_mac(keys[0], covered), "header tag is not the one of the v1 definition", parts=parts)
    if ct[off : off + 1] in (b"\n", b"\r", b" "):
        ctx.count("nonce_newline")
    n = max(1, -(-len(data) // ref.CHUNK))
    ctx.equal(len(ct) - off, 16 + len(data) + 16 * n, "payload length")
    try:
        got = ref.open_payload(ct, off, keys[0])
    except Exception as e:
        raise Violation(f"reference cannot open the payload: {type(e).__name__} {e}", length=len(data))
    ctx.check(got == data, "payload opens to something else", length=len(data))
    ctx.count("files")
    ctx.eval((what, [repr(p) for p in parts], len(data)))


def mix(ctx):
    rng = ctx.rng
    parts = gen.parties(rng, rng.choice([1, 1, 2, 3, 6]))
    if rng.random() < 0.15:
        parts += [parts[0]]
    data = gen.plain(rng)
    if rng.random() < 0.6:
        with gen.hostile_urandom(rng) as h:
            ct = gen.age_encrypt([p.recipient for p in parts], data, gen.split(rng, data))
        ctx.count("hostile", h.calls > 0)
    else:
        ct = gen.age_encrypt([p.recipient for p in parts], data, gen.split(rng, data))
    verify(ctx, parts, ct, data)
    ctx.sample(recipients=parts, length=len(data), header=ct[:200])


def tiny(ctx):
    rng = ctx.rng
    for _ in range(12):
        parts = gen.parties(rng, 1, ("x25519", "ssh-ed25519"))
        data = rng.randbytes(rng.randrange(20))
        with gen.hostile_urandom(rng):
            ct = gen.age_encrypt([p.recipient for p in parts], data)
        verify(ctx, parts, ct, data)
        ctx.count("hostile")


def rsa(ctx):
    """many RSA keys: every modulus size, many exponents (hence tags)"""
    rng = ctx.rng
    names = sorted(gen.rsa_pool())
    name = names[ctx.idx % len(names)]
    parts = [gen.RParty(name)]
    for _ in range(6):
        parts.append(gen.RParty(rng.choice(gen.SMALL_RSA), rng.randrange(3, 1 << 30) | 1))
    rng.shuffle(parts)
    for p in parts:
        verify(ctx, [p], gen.age_encrypt([p.recipient], b"r"), b"r", "rsa")
    verify(ctx, parts, gen.age_encrypt([p.recipient for p in parts], b"r"), b"r", "rsa")


def big(ctx):
    rng = ctx.rng
    n = [256, 257, 300, 65, 128][ctx.idx % 5]
    data = rng.randbytes(n * ref.CHUNK + rng.choice([-1, 0, 1]))
    parts = gen.parties(rng, 1)
    verify(ctx, parts, gen.age_encrypt([p.recipient for p in parts], data), data)


def wide(ctx):
    """headers of many kilobytes: hundreds of entries"""
    rng = ctx.rng
    n = [620, 900, 300, 1300][ctx.idx % 4] + rng.randrange(30)
    some = gen.parties(rng, 3, ("x25519", "ssh-ed25519", "ssh-rsa"))
    parts = [rng.choice(some) for _ in range(n)]
    ct = gen.age_encrypt([p.recipient for p in parts], b"wide")
    verify(ctx, parts, ct, b"wide")
    ctx.count("wide_headers", int(ref.parse_header(ct)[3] > 1 << 16))


def passphrase(ctx):
    rng = ctx.rng
    parts = [gen.PParty(gen.PASSWORDS[(ctx.idx * 5) % len(gen.PASSWORDS)])]
    if ctx.idx % 4:
        others = gen.parties(rng, 2)
        parts = [others + parts, parts + others, others[:1] + parts + others[1:]][ctx.idx % 4 - 1]
    data = gen.plain(rng, None, 1000)
    with gen.hostile_urandom(rng):
        ct = gen.age_encrypt([p.recipient for p in parts], data)
    verify(ctx, parts, ct, data)


class _Keep(io.BytesIO):
    def close(self):
        pass


def command(ctx):
    """through age.cli.encrypt, armored and not"""
    import contextlib
    import os

    from age.cli import encrypt

    rng = ctx.rng
    parts = gen.parties(rng, rng.choice([1, 2, 4]))
    data = gen.plain(rng, None, 70000)
    armored = rng.random() < 0.6
    out = _Keep()
    old = os.environ.get("HOME")
    os.environ["HOME"] = ctx.tmp
    try:
        with gen.hostile_urandom(rng), contextlib.redirect_stderr(io.StringIO()):
            encrypt(recipients=[p.cli_recipient for p in parts], infile=io.BytesIO(data), outfile=out, ascii_armored=armored)
    finally:
        if old is not None:
            os.environ["HOME"] = old
    ct = out.getvalue()
    if armored:
        try:
            ct = ref.dearmor_strict(ct.decode("ascii"))
        except Exception as e:
            raise Violation(f"armored output is not strict PEM: {type(e).__name__} {e}", head=ct[:200], tail=ct[-100:])
        ctx.count("armored")
    verify(ctx, parts, ct, data, "command")


def families(tier):
    q = tier == "quick"
    return [
        ("mix", 450 if q else 8000, mix),
        ("tiny", 60 if q else 1500, tiny),
        ("rsa", 24 if q else 240, rsa),
        ("big", 2 if q else 20, big),
        ("wide", 4 if q else 24, wide),
        ("passphrase", 4 if q else 32, passphrase),
        ("command", 60 if q else 900, command),
    ]
