"""C04 any change to the payload is detected"""
import base64
import bz2
import codecs
import gzip
import io
import json
import lzma
import quopri
import urllib.parse
import zlib

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C04"
RULE = (
    "a case = intact file (written by pyage or by the reference) whose payload is changed: every bit of small payloads, "
    "every truncation point, extensions, chunks dropped / repeated / reordered / taken from other files with the same "
    "or another file key, final-chunk marks forged; distinct = (payload length, mutation); oracle: an error, and no "
    "byte returned before it (the intact file opens: positive control)"
)
ASSUMPTIONS = ["the adversary does not know the file key except where stated (exchange between files sharing one)"]
REQUIRED = {"rejected": 5000, "bitflips": 2500, "truncations": 1000, "extensions": 200, "paddings": 1200, "chunk_edits": 100, "empty_plaintext": 2, "far_edits": 20, "mangled": 3000, "control": 20}


def rejected(ctx, me, ct, what, sig, off):
    try:
        d = gen.Decryptor([me.identity], io.BytesIO(ct))
        first = d.read(1)
        if first == b"":
            raise Violation(f"{what}: decrypted to an empty plaintext", payload_len=len(ct) - off)
        raise Violation(f"{what}: plaintext returned", first=first, payload_len=len(ct) - off)
    except Violation:
        raise
    except Exception as e:
        ctx.count("err:" + type(e).__name__)
    ctx.count("rejected")
    ctx.eval(sig)


def make(ctx, n, own=None, data=None):
    rng = ctx.rng
    me = gen.XParty(rng.randbytes(32))
    data = rng.randbytes(n) if data is None else data
    if own if own is not None else rng.random() < 0.5:
        ct = gen.age_encrypt([me.recipient], data)
        fk = me.unwrap(ref.parse_header(ct)[0][0])
    else:
        fk = rng.randbytes(16)
        ct = gen.ref_file(rng, [me], data, file_key=fk)
    off = ref.parse_header(ct)[3]
    ctx.check(gen.age_decrypt([me.identity], ct) == data, "the intact file does not decrypt")
    ctx.count("control")
    if not n:
        ctx.count("empty_plaintext")
    return me, data, ct, off, fk


LENS = [0, 1, 2, 15, 16, 17, 33, 64, 100, 200]


def bitflips(ctx):
    me, data, ct, off, _ = make(ctx, LENS[ctx.idx % len(LENS)])
    for i in range(off, len(ct)):
        for b in range(8):
            m = bytearray(ct)
            m[i] ^= 1 << b
            rejected(ctx, me, bytes(m), f"bit {b} of payload byte {i - off} flipped", ("flip", len(data), i - off, b), off)
            ctx.count("bitflips")
    ctx.sample(plaintext=len(data), payload=len(ct) - off)


def truncate_small(ctx):
    me, data, ct, off, _ = make(ctx, LENS[ctx.idx % len(LENS)])
    for k in range(off, len(ct)):
        rejected(ctx, me, ct[:k], f"truncated to {k - off} payload bytes", ("cut", len(data), k - off), off)
        ctx.count("truncations")
    for k in range(off + 1, len(ct)):
        # cut at the front
        rejected(ctx, me, ct[:off] + ct[k:], f"first {k - off} payload bytes removed", ("front", len(data), k - off), off)
    for k in range(off, len(ct)):
        rejected(ctx, me, ct[:k] + ct[k + 1 :], f"payload byte {k - off} removed", ("del", len(data), k - off), off)


C = ref.CHUNK
E = C + 16


def truncate_big(ctx):
    """around chunk boundaries and at random places of files with several chunks"""
    rng = ctx.rng
    n = [C - 1, C, C + 1, 2 * C, 2 * C + 1, 3 * C, 3 * C + 500, C + 16][ctx.idx % 8]
    me, data, ct, off, _ = make(ctx, n)
    ends = set()
    total = len(ct) - off
    for base in [0, 16] + [16 + k * E for k in range(1, 5)] + [16 + k * C for k in range(1, 4)] + [total]:
        for d in (-33, -32, -17, -16, -15, -2, -1, 0, 1, 2, 15, 16, 17, 32, 33):
            if 0 <= base + d < total:
                ends.add(base + d)
    ends |= {rng.randrange(total) for _ in range(20)}
    for k in sorted(ends):
        rejected(ctx, me, ct[: off + k], f"{n}-byte plaintext: truncated to {k} of {total} payload bytes", ("bigcut", n, k), off)
        ctx.count("truncations")


def extend(ctx):
    rng = ctx.rng
    n = rng.choice(LENS + [C - 1, C, C + 1, 2 * C])
    me, data, ct, off, fk = make(ctx, n)
    key = ref.payload_key(fk, ct[off : off + 16])
    idx = max(1, -(-n // C))
    tails = [b"\0", b"\n", bytes(16), rng.randbytes(1), rng.randbytes(15), rng.randbytes(16), rng.randbytes(17),
             rng.randbytes(1000), ct[off + 16 :], ct[off:], ct, ct[-16:], bytes(C), b"\0" * E, rng.randbytes(E),
             ref.stream_enc(rng.randbytes(32), b"forged"), ct[-E:], gen.age_encrypt([me.recipient], b"second file")]
    for i, t in enumerate(tails):
        if t:
            rejected(ctx, me, ct + t, f"{len(t)} bytes appended", ("ext", n, i), off)
            ctx.count("extensions")
    for i, t in enumerate(tails[:9]):
        rejected(ctx, me, ct[:off] + t + ct[off:], f"{len(t)} bytes inserted after the header", ("pre", n, i), off)
        rejected(ctx, me, ct[: off + 16] + t + ct[off + 16 :], f"{len(t)} bytes inserted after the nonce", ("mid", n, i), off)
        k = rng.randrange(off, len(ct))
        if (ct[:k] + t + ct[k:]) != ct + t:
            rejected(ctx, me, ct[:k] + t + ct[k:], f"{len(t)} bytes inserted at {k - off}", ("ins", n, i, k - off), off)
        ctx.count("extensions", 3)


def padded(ctx):
    """filled up to a round length, as tapes, disks and mailers do"""
    rng = ctx.rng
    n = rng.choice([0, 1, 100, 500, 4000, C - 1, C, C + 1, 2 * C, rng.randrange(3 * C)])
    while True:
        me, data, ct, off, fk = make(ctx, n)
        if ct[-1] not in b"\0 \n\r\x1a\xff=":
            break
    for fill in (b"\0", b" ", b"\n", b"\x1a", b"\xff", b"=", b"\r\n"):
        for unit in (2, 3, 4, 8, 16, 64, 128, 512, 1000, 1024, 2048, 4096, 10240, 65536, E):
            for length in (len(ct), len(ct) - off, len(ct) - off - 16):
                k = -length % unit or unit
                rejected(ctx, me, ct + (fill * k)[:k], f"filled up with {k} x {fill!r}", ("pad", n, fill, unit, k), off)
                ctx.count("paddings")
    for k in range(1, 80):
        rejected(ctx, me, ct + bytes(k), f"{k} zeros appended", ("pad", n, k), off)


def chunks_of(ct, off):
    p = ct[off + 16 :]
    return [p[i : i + E] for i in range(0, len(p), E)]


def chunk_edits(ctx):
    rng = ctx.rng
    n = [2 * C, 3 * C, 3 * C + 100, 4 * C + 1, C + 1, 5 * C - 1][ctx.idx % 6]
    me, data, ct, off, fk = make(ctx, n)
    head, nonce = ct[:off], ct[off : off + 16]
    ch = chunks_of(ct, off)
    other_data = rng.randbytes(n)
    same_key = ref.encrypt(fk, rng.randbytes(16), ref.parse_header(ct)[0], other_data)  # same file key, other nonce
    o_off = ref.parse_header(same_key)[3]
    oc = chunks_of(same_key, o_off)
    fresh = gen.age_encrypt([me.recipient], other_data)
    f_off = ref.parse_header(fresh)[3]
    fc = chunks_of(fresh, f_off)
    muts = {}
    for i in range(len(ch)):
        muts[f"drop{i}"] = ch[:i] + ch[i + 1 :]
        muts[f"dup{i}"] = ch[: i + 1] + ch[i:]
        muts[f"same_key{i}"] = ch[:i] + [oc[i]] + ch[i + 1 :]
        muts[f"fresh{i}"] = ch[:i] + [fc[i]] + ch[i + 1 :]
        muts[f"keep{i}"] = ch[: i + 1]
        muts[f"zero{i}"] = ch[:i] + [bytes(len(ch[i]))] + ch[i + 1 :]
        muts[f"empty{i}"] = ch[:i] + [ch[i][:-16] + bytes(16)] + ch[i + 1 :]
        for j in range(i):
            c2 = list(ch)
            c2[i], c2[j] = c2[j], c2[i]
            muts[f"swap{i}{j}"] = c2
    muts["rev"] = ch[::-1]
    muts["rot"] = ch[1:] + ch[:1]
    muts["app_same"] = ch + oc
    muts["app_fresh"] = ch + fc
    muts["last_only"] = ch[-1:]
    muts["first_twice"] = [ch[0]] + ch
    for name, c2 in muts.items():
        m = head + nonce + b"".join(c2)
        if m == ct or (len(c2) == len(ch) and c2 == ch):
            continue
        rejected(ctx, me, m, f"chunks edited: {name} of {len(ch)}", ("chunk", n, name), off)
        ctx.count("chunk_edits")
    # whole payloads exchanged, nonce exchanged
    rejected(ctx, me, head + fresh[f_off:], "payload of another file", ("payload_fresh", n), off)
    rejected(ctx, me, head + fresh[f_off : f_off + 16] + ct[off + 16 :], "nonce of another file", ("nonce_fresh", n), off)
    rejected(ctx, me, head + same_key[o_off : o_off + 16] + ct[off + 16 :], "nonce of another file with the same key", ("nonce_same", n), off)
    rejected(ctx, me, head + nonce + same_key[o_off + 16 :], "chunks of another file with the same key", ("chunks_same", n), off)


FAR = [128, 255, 256, 257, 511, 512, 1023, 1024, 4096, 8192]


def far(ctx):
    """chunks a power of two apart (or what the code has for constants) exchanged, repeated, dropped"""
    rng = ctx.rng
    d = FAR[ctx.idx] if ctx.idx < len(FAR) else gen.number(rng, 2, 600, 300)
    n = (d + 3) * C + rng.choice([0, 1, 777])
    block = rng.randbytes(C - 8)
    data = b"".join(k.to_bytes(8, "big") + block for k in range(d + 4))[:n]
    me, data, ct, off, _ = make(ctx, n, own=True, data=data)
    total = -(-(len(ct) - off - 16) // E)
    mv = memoryview(ct)

    def at(i):
        return off + 16 + i * E

    i, j = 1, 1 + d
    muts = {
        "exchanged": [mv[: at(i)], mv[at(j) : at(j + 1)], mv[at(i + 1) : at(j)], mv[at(i) : at(i + 1)], mv[at(j + 1) :]],
        "dropped": [mv[: at(1)], mv[at(1 + d) :]],
    }
    if d <= 1100:
        muts["repeated"] = [mv[: at(1 + d)], mv[at(1) :]]
    for name, parts in muts.items():
        rejected(ctx, me, b"".join(parts), f"chunks {d} apart {name} in a file of {total}", ("far", d, name), off)
        ctx.count("far_edits")


def forged_marks(ctx):
    """payloads somebody sealed with wrong counters or final marks (i.e. a broken STREAM structure)"""
    rng = ctx.rng
    me, data, ct, off, fk = make(ctx, 3 * C)
    head, nonce = ct[:off], ct[off : off + 16]
    from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

    a = ChaCha20Poly1305(ref.payload_key(fk, nonce))

    def seal(i, last, pt):
        return a.encrypt(i.to_bytes(11, "big") + bytes([last]), pt, None)

    A, B = rng.randbytes(C), rng.randbytes(C)
    t = rng.randbytes(100)
    muts = {
        "no_final": [seal(0, 0, A), seal(1, 0, B)],
        "single_no_final": [seal(0, 0, t)],
        "empty_no_final": [seal(0, 0, b"")],
        "final_first": [seal(0, 1, A), seal(1, 1, B)],
        "final_only_first": [seal(0, 1, A), seal(1, 0, B)],
        "counter0_twice": [seal(0, 0, A), seal(0, 1, B)],
        "counter_gap": [seal(0, 0, A), seal(2, 1, B)],
        "counter_from1": [seal(1, 0, A), seal(2, 1, B)],
        "mark2": [seal(0, 0, A), seal(1, 2, t)],
        "mark255": [seal(0, 255, t)],
        "le_counter": [seal(0, 0, A), a.encrypt((1).to_bytes(11, "little") + b"\1", B, None)],
        "short_middle": [seal(0, 0, t), seal(1, 1, t)],
        "long": [seal(0, 1, rng.randbytes(C + 1))],
        "long_full": [seal(0, 1, rng.randbytes(2 * C))],
        "nothing": [],
        "tag_only": [bytes(16)],
    }
    for name, parts in muts.items():
        rejected(ctx, me, head + nonce + b"".join(parts), f"badly structured payload: {name}", ("forge", name), off)
        ctx.count("chunk_edits")
    rejected(ctx, me, head, "nothing after the header", ("bare", 1), off)
    rejected(ctx, me, head + nonce, "nothing after the nonce", ("nonce", 1), off)


def _frames(d, n):
    return [d[i : i + n] for i in range(0, len(d), n)] or [b""]


MANGLERS = {
    # what transports, editors and converters do to bytes; many can be undone
    "LF to CRLF": lambda d: d.replace(b"\n", b"\r\n"), "CRLF to LF": lambda d: d.replace(b"\r\n", b"\n"), "LF to CR": lambda d: d.replace(b"\n", b"\r"),
    "CR to LF": lambda d: d.replace(b"\r", b"\n"), "CR removed": lambda d: d.replace(b"\r", b""), "LF removed": lambda d: d.replace(b"\n", b""),
    "CR and LF exchanged": lambda d: d.translate(bytes.maketrans(b"\r\n", b"\n\r")), "NUL removed": lambda d: d.replace(b"\0", b""), "NUL to blank": lambda d: d.replace(b"\0", b" "),
    "stripped": bytes.strip, "seven bits": lambda d: bytes(c & 127 for c in d), "complement": lambda d: bytes(c ^ 255 for c in d), "upper case": bytes.upper,
    "lower case": bytes.lower, "swapped case": bytes.swapcase, "reversed": lambda d: d[::-1], "UTF-8": lambda d: d.decode("latin-1").encode("utf-8"),
    "UTF-8 twice": lambda d: d.decode("latin-1").encode("utf-8").decode("latin-1").encode("utf-8"), "replacement characters": lambda d: d.decode("utf-8", "replace").encode("utf-8"),
    "UTF-16": lambda d: d.decode("latin-1").encode("utf-16"), "UTF-16LE": lambda d: d.decode("latin-1").encode("utf-16-le"), "byte order mark": lambda d: b"\xef\xbb\xbf" + d,
    "base64": base64.b64encode, "base64 lines": base64.encodebytes, "urlsafe base64": base64.urlsafe_b64encode, "base32": base64.b32encode, "base85": base64.b85encode,
    "hex": lambda d: d.hex().encode(), "hex upper": lambda d: d.hex().upper().encode(), "quoted-printable": lambda d: quopri.encodestring(d), "percent": lambda d: urllib.parse.quote(d).encode(),
    "plus": lambda d: urllib.parse.quote_plus(d).encode(), "escaped": lambda d: d.decode("latin-1").encode("unicode_escape"), "repr": lambda d: repr(d).encode(), "json": lambda d: json.dumps(d.decode("latin-1")).encode(),
    "gzip": gzip.compress, "zlib": zlib.compress, "bzip2": bz2.compress, "xz": lzma.compress, "armored": lambda d: ref.armor(d).encode(), "twice": lambda d: d + d,
    "16-bit swapped": lambda d: b"".join(x[::-1] for x in _frames(d, 2)), "32-bit swapped": lambda d: b"".join(x[::-1] for x in _frames(d, 4)), "64-bit swapped": lambda d: b"".join(x[::-1] for x in _frames(d, 8)),
    "nibbles": lambda d: bytes(c >> 4 | (c & 15) << 4 for c in d), "bits reversed": lambda d: bytes(int(f"{c:08b}"[::-1], 2) for c in d),
    "dot-stuffed": lambda d: d.replace(b"\n.", b"\n.."), "From quoted": lambda d: d.replace(b"\nFrom ", b"\n>From ").replace(b"\n", b"\n>"), "backslashes": lambda d: d.replace(b"\\", b"\\\\"), "quotes": lambda d: d.replace(b"'", b"''").replace(b'"', b'""'),
    "telnet": lambda d: d.replace(b"\xff", b"\xff\xff"), "SLIP": lambda d: d.replace(b"\xdb", b"\xdb\xdd").replace(b"\xc0", b"\xdb\xdc"), "blanks to tabs": lambda d: d.replace(b" ", b"\t"), "plus to blank": lambda d: d.replace(b"+", b" "),
    "length in front": lambda d: len(d).to_bytes(4, "big") + d, "length in front, LE": lambda d: len(d).to_bytes(8, "little") + d, "netstring": lambda d: b"%d:%s," % (len(d), d),
    "chunked": lambda d: b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in _frames(d, 1000)) + b"0\r\n\r\n", "CRC behind": lambda d: d + zlib.crc32(d).to_bytes(4, "big"), "checksum in front": lambda d: ref.sha256(d) + d,
    "lines of 1000": lambda d: b"\n".join(_frames(d, 998)), "blocks padded": lambda d: d + bytes(-len(d) % 512 or 512), "PKCS#7": lambda d: d + bytes([16 - len(d) % 16]) * (16 - len(d) % 16), "ISO padding": lambda d: d + b"\x80",
    "control-Z": lambda d: d + b"\x1a", "rotated": lambda d: d[1:] + d[:1], "rotated back": lambda d: d[-1:] + d[:-1], "ROT13": lambda d: codecs.encode(d.decode("latin-1"), "rot13").encode("latin-1"), "EBCDIC": lambda d: d.decode("latin-1").encode("cp500", "replace"),
    "tag in front": lambda d: d[-16:] + d[:-16], "halves exchanged": lambda d: d[len(d) // 2 :] + d[: len(d) // 2], "zeros in front": lambda d: bytes(16) + d, "first line dropped": lambda d: d.partition(b"\n")[2], "newline in front": lambda d: b"\n" + d, "CRLF in front": lambda d: b"\r\n" + d,
}


def mangled(ctx):
    """the payload, its nonce, or what follows the nonce changed by a transport"""
    n = ctx.rng.choice([30, 400, 5000, C, 2 * C + 99])
    for _ in range(50):
        # with everything in it that gets changed
        me, data, ct, off, fk = make(ctx, n)
        if n < 1000 and b"\n" not in ct[off + 16 :]:
            continue
        break
    for name, f in MANGLERS.items():
        for where, a, b in (("payload", off, len(ct)), ("chunks", off + 16, len(ct)), ("nonce", off, off + 16), ("last chunk", max(off + 16, len(ct) - (len(ct) - off - 16) % E), len(ct)), ("first chunk", off + 16, min(len(ct), off + 16 + E))):
            m = ct[:a] + f(ct[a:b]) + ct[b:]
            if m == ct:
                continue
            rejected(ctx, me, m, f"{where} of a {n}-byte plaintext: {name}", ("mangled", name, where, n), off)
            ctx.count("mangled")


def random_edits(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 100, 5000, C, 2 * C + 7])
    me, data, ct, off, _ = make(ctx, n)
    for _ in range(30):
        m = bytearray(ct)
        for _ in range(rng.choice([1, 1, 2, 5])):
            r = rng.randrange(5)
            i = rng.randrange(off, max(off + 1, len(m)))
            if i >= len(m):
                continue
            if r == 0:
                m[i] ^= rng.randrange(1, 256)
            elif r == 1:
                del m[i : i + rng.choice([1, 2, 16, 100, E])]
            elif r == 2:
                m[i:i] = rng.randbytes(rng.choice([1, 2, 16, 17]))
            elif r == 3:
                j = rng.randrange(off, len(m))
                m[i], m[j] = m[j], m[i]
            else:
                m[i : i + 4] = b"\0\0\0\0"[: len(m) - i]
        if bytes(m) == ct:
            continue
        rejected(ctx, me, bytes(m), f"random edits on the payload of {n} bytes", ("rnd", n, len(m), hash(bytes(m))), off)


def families(tier):
    q = tier == "quick"
    return [
        ("bitflips", 20 if q else 200, bitflips),
        ("truncate_small", 20 if q else 200, truncate_small),
        ("truncate_big", 16 if q else 160, truncate_big),
        ("extend", 30 if q else 400, extend),
        ("padded", 8 if q else 80, padded),
        ("chunk_edits", 18 if q else 200, chunk_edits),
        ("forged_marks", 8 if q else 60, forged_marks),
        ("far", 12 if q else 60, far),
        ("mangled", 24 if q else 200, mangled),
        ("random_edits", 40 if q else 800, random_edits),
    ]
