"""Self-contained operations on pyage with results known beforehand from the reference.

A task is (kind, prepare, expect): prepare(shared) -> fn; fn() does the operation and returns (meaning, exact bytes or None)."""
import hashlib
import io
import os

from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
from age.file import Decryptor, Encryptor
from age.format import Header, Recipient, dump_header, load_header
from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, load_ssh_private_key, resolve_public_key
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.openssh_keys import load_openssh_private_key
from age.primitives.bech32 import bech32_decode, bech32_encode
from age.primitives.encrypt import decrypt, encrypt
from age.primitives.hkdf import hkdf
from age.primitives.hmac import HMAC
from age.stream import stream_decrypt, stream_encrypt
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput, read_ascii_armored, write_ascii_armored

from mon import gen, ref


class Task:
    def __init__(self, kind, fn, expect):
        self.kind, self.fn, self.expect = kind, fn, expect

    def __repr__(self):
        return self.kind


class Pool:
    """parties whose key objects the tasks share (or rebuild, when fresh)"""

    def __init__(self, rng, tmp):
        self.rng, self.tmp, self.n = rng, tmp, 0
        self.xs = [gen.XParty(rng.randbytes(32)) for _ in range(2)]
        self.es = [gen.EParty(rng.randbytes(32)) for _ in range(2)]
        self.rs = [gen.RParty("rsa1024e3"), gen.RParty("rsa1024e65537")]
        self.ps = [gen.PParty(b"one passphrase"), gen.PParty(b"another")]

    def any(self, kinds="xxer"):
        return self.rng.choice({"x": self.xs, "e": self.es, "r": self.rs, "p": self.ps}[self.rng.choice(kinds)])

    def path(self, data):
        self.n += 1
        p = os.path.join(self.tmp, f"t{self.n}")
        with open(p, "wb") as f:
            f.write(data)
        return p


def small(rng):
    return rng.randbytes(rng.choice([0, 1, 5, 48, 100]))


def t_encrypt(pool, parts=None):
    rng = pool.rng
    parts = parts or [pool.any() for _ in range(rng.choice([1, 1, 2, 3]))]
    data = small(rng)
    cut = rng.randrange(len(data) + 1)
    exact = all(p.kind in ("x25519", "ssh-ed25519") for p in parts)

    def fn():
        out = io.BytesIO()
        with Encryptor([p.recipient for p in parts], out) as e:
            e.write(data[:cut])
            e.write(data[cut:])
        ct = out.getvalue()
        types = [s.type for s in ref.parse_header(ct)[0]]
        return (types, [gen.ref_open(ct, p) for p in parts]), ct if exact else None

    return Task("encrypt", fn, ([{"x25519": "X25519"}.get(p.kind, p.kind) for p in parts], [data] * len(parts)))


def t_encrypt_scrypt(pool):
    return t_encrypt(pool, [pool.rng.choice(pool.ps)])


def t_encrypt_armored(pool):
    p, data = pool.any("xe"), small(pool.rng)

    def fn():
        out = io.BytesIO()
        a = AsciiArmoredOutput(ref.LABEL, out)
        with Encryptor([p.recipient], a) as e:
            e.write(data)
        a.close()
        text = out.getvalue()
        return gen.ref_open(ref.dearmor_strict(text.decode()), p), text

    return Task("encrypt-armored", fn, data)


def t_encrypt_chunks(pool):
    p, data = pool.any("xe"), pool.rng.randbytes(gen.C * 2 + 100)

    def fn():
        ct = gen.age_encrypt([p.recipient], data, [data[:70000], data[70000:]])
        return gen.ref_open(ct, p) == data, hashlib.sha256(ct).digest()

    return Task("encrypt-chunks", fn, True)


def t_decrypt(pool):
    rng = pool.rng
    p = pool.any("xxerp")
    data = small(rng)
    ct = gen.ref_file(rng, [p] + [gen.XParty(rng.randbytes(32)) for _ in range(rng.randrange(2))], data)
    ids = [p.identity]
    if rng.random() < 0.3:
        ids = [pool.any("xe").identity, *ids]

    def fn():
        with Decryptor(ids, io.BytesIO(ct)) as d:
            a = d.read(3)
            return a + d.read(), None

    return Task("decrypt", fn, data)


def t_decrypt_wrong(pool):
    p = pool.xs[0]
    ct = gen.ref_file(pool.rng, [p], b"x")
    other = gen.XParty(pool.rng.randbytes(32))

    def fn():
        try:
            Decryptor([other.identity], io.BytesIO(ct))
        except Exception as e:
            return type(e).__name__, None
        return "opened", None

    return Task("decrypt-wrong", fn, "NoIdentity")


def t_decrypt_damaged(pool):
    rng = pool.rng
    p = pool.any("xe")
    ct = bytearray(gen.ref_file(rng, [p], rng.randbytes(50)))
    ct[-1 - rng.randrange(60)] ^= 1

    def fn():
        try:
            Decryptor([p.identity], io.BytesIO(bytes(ct)))
        except Exception:
            return "refused", None
        return "opened", None

    return Task("decrypt-damaged", fn, "refused")


def t_decrypt_chunks(pool):
    p, data = pool.any("xe"), pool.rng.randbytes(gen.C + 7)
    ct = gen.ref_file(pool.rng, [p], data)
    return Task("decrypt-chunks", lambda: (gen.age_decrypt([p.identity], ct) == data, None), True)


def t_armor_write(pool):
    data = pool.rng.randbytes(pool.rng.choice([0, 10, 48, 100, 200]))
    how = pool.rng.random() < 0.5

    def fn():
        if how:
            out = io.BytesIO()
            a = AsciiArmoredOutput(ref.LABEL, out)
            a.write(data[:7])
            a.write(data[7:])
            a.close()
            return out.getvalue().decode(), None
        out = io.StringIO()
        write_ascii_armored(out, ref.LABEL, data)
        return out.getvalue(), None

    return Task("armor-write", fn, ref.armor(data))


def t_armor_read(pool):
    rng = pool.rng
    parts = [(lab, rng.randbytes(rng.choice([0, 10, 48, 130]))) for lab in ("A B", ref.LABEL, "X")[: rng.randrange(1, 4)]]
    text = "junk\n".join(ref.armor(d, lab) for lab, d in parts)
    one = ref.armor(parts[0][1]).encode()

    def fn():
        got = list(read_ascii_armored(io.StringIO(text)))
        return ([tuple(g) for g in got], AsciiArmoredInput(ref.LABEL, io.BytesIO(one)).read()), None

    return Task("armor-read", fn, (parts, parts[0][1]))


def t_armor_bad(pool):
    text = ref.armor(pool.rng.randbytes(100)).replace("END", "EXD")

    def fn():
        try:
            list(read_ascii_armored(io.StringIO(text)))
        except ValueError:
            return "refused", None
        return "accepted", None

    return Task("armor-bad", fn, "refused")


def t_keys(pool):
    rng = pool.rng
    p = gen.XParty(rng.randbytes(32)) if rng.random() < 0.5 else rng.choice(pool.xs)
    priv, pub = ref.priv_string(p.sk), ref.pub_string(p.pk)
    bad = pub[:-1] + ("q" if pub[-1] != "q" else "p")
    raw = rng.randbytes(20)

    def fn():
        k = AgePrivateKey.from_private_string(priv)
        out = [k.private_string(), k.public_key().public_string(), AgePublicKey.from_public_string(pub).public_string(), k == p.identity]
        out.append(p.identity.public_key().public_bytes() == p.pk)
        try:
            AgePublicKey.from_public_string(bad)
            out.append("accepted")
        except Exception:
            out.append("refused")
        out.append(bytes(bech32_decode(bech32_encode("test", raw))[1]) == raw)
        return out, None

    return Task("keys", fn, [priv, pub, pub, True, True, "refused", True])


def t_primitives(pool):
    rng = pool.rng
    key, msg, label = rng.randbytes(rng.choice([16, 32, 64, 70])), small(rng), rng.randbytes(8)
    k32 = rng.randbytes(32)
    want = [ref.hmac256(key, msg), True, False, ref.hkdf(key, msg, label, 48), ref.aead_enc(k32, ref.ZERO12, msg), msg]

    def fn():
        a, b = HMAC(key), HMAC(key)
        tag = a.generate(msg)
        return [tag, b.is_valid(msg, tag), HMAC(key).is_valid(msg + b"x", tag), hkdf(msg, label, key, 48), encrypt(k32, msg), decrypt(k32, want[4])], None

    return Task("primitives", fn, want)


def t_stream(pool):
    key, data = pool.rng.randbytes(32), pool.rng.randbytes(pool.rng.choice([0, 5, gen.C, gen.C + 1]))
    want = ref.stream_enc(key, data)

    def fn():
        return (stream_encrypt(key, data) == want, stream_decrypt(key, want) == data), None

    return Task("stream", fn, (True, True))


def t_header(pool):
    rng = pool.rng
    sts = [gen.unknown_stanza(rng) for _ in range(rng.randrange(1, 4))]
    data = ref.build_header(sts, b"k" * 16)
    want = [(s.type, s.args, ref.b64(s.body)) for s in sts]
    tag = ref.parse_header(data)[2]

    def fn():
        f = io.BytesIO(data + b"\npayload")
        h, mac = load_header(f)
        h2 = Header()
        for t, a, b in want:
            r = Recipient(t)
            r.arguments.extend(a)
            r.body += b
            h2.recipients.append(r)
        out = io.BytesIO()
        dump_header(h2, out, mac)
        g, mac2 = load_header(io.BytesIO(out.getvalue() + b"\n"))
        shape = lambda x: [(r.type, list(r.arguments), r.body) for r in x.recipients]
        return [shape(h), shape(g), bytes(mac), bytes(mac2), f.read()], None

    return Task("header", fn, [want, want, tag, tag, b"\npayload"])


def t_key_files(pool):
    rng = pool.rng
    ps = [gen.XParty(rng.randbytes(32)) for _ in range(2)]
    keys = pool.path(b"# c\n" + "\n".join(ref.priv_string(p.sk) for p in ps).encode() + b"\n")
    e = rng.choice(pool.es)
    recs = pool.path((ps[0].cli_recipient + "\n" + e.ssh_line + "\n").encode())
    als = pool.path(f"a: {ps[0].cli_recipient} {ps[1].cli_recipient}\nb: {recs}\na: {pool.xs[0].cli_recipient}\n".encode())

    def fn():
        out = [[k.private_bytes() for k in load_keys_txt(keys)]]
        out.append([type(k).__name__ for k in resolve_public_key(recs)])
        al = load_aliases(als)
        out.append(al)
        out.append([k.public_bytes() for k in resolve_public_key("a", al)])
        out.append(len(resolve_public_key("b", al)))
        return out, None

    pubs = [p.cli_recipient for p in (*ps, pool.xs[0])]
    want = [[p.sk for p in ps], ["AgePublicKey", "Ed25519PublicKey"], {"a": pubs, "b": [recs]}, [p.pk for p in (*ps, pool.xs[0])], 2]
    return Task("key-files", fn, want)


def t_ssh_keys(pool):
    rng = pool.rng
    e = gen.EParty(rng.randbytes(32))
    r = rng.choice(pool.rs)
    pool.n += 1
    d = os.path.join(pool.tmp, f"ssh{pool.n}")
    os.makedirs(d, exist_ok=True)
    for name, body in (("id_a", e.pem()), ("id_b", r.pem()), ("id_c", b"junk")):
        with open(os.path.join(d, name), "wb") as f:
            f.write(body)
    ct = gen.ref_file(rng, [e], b"via e")
    ct2 = gen.ref_file(rng, [r], b"via r")

    def fn():
        ids = load_ssh_keys(d)
        one = load_ssh_private_key(os.path.join(d, "id_b"))
        return [len(ids), gen.age_decrypt(ids, ct), gen.age_decrypt([one], ct2)], None

    return Task("ssh-keys", fn, [2, b"via e", b"via r"])


def t_openssh(pool):
    rng = pool.rng
    e = gen.EParty(rng.randbytes(32))
    pw = rng.choice([None, b"pw", b"other"])
    blob = ref.openssh_blob(ref.openssh_ed_fields(e.seed, e.pk), ref.ed_wire(e.pk), b"comment", cipher=b"aes256-ctr" if pw else b"none", passphrase=pw, rounds=1, salt=rng.randbytes(16))
    pem = ref.openssh_pem(blob)
    from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

    def fn():
        k = load_openssh_private_key(pem, passphrase=pw)
        return k.private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption()), None

    return Task("openssh", fn, e.seed)


def t_generate(pool):
    def fn():
        k = AgePrivateKey.generate()
        s = k.private_string()
        sk = k.private_bytes()
        return (ref.priv_string(sk) == s, ref.pub_string(ref.x25519_base(sk)) == k.public_key().public_string()), None

    return Task("generate", fn, (True, True))


def t_scrypt_unwrap(pool):
    """small derivations that release the interpreter lock"""
    rng = pool.rng
    p = rng.choice(pool.ps)
    fk = rng.randbytes(16)
    st = p.wrap(rng, fk, 10)
    salt, logn = ref.unb64(st.args[0]), int(st.args[1])
    return Task("scrypt-unwrap", lambda: (scrypt_decrypt_file_key(p.identity, salt, logn, st.body), None), fk)


def t_repr(pool):
    x, e, r = pool.xs[0], pool.es[0], pool.rs[0]

    def fn():
        return [x.cli_recipient in repr(x.recipient), x.cli_recipient in repr(x.identity), x.recipient == AgePublicKey.from_public_bytes(x.pk), hash(x.identity) == hash(AgePrivateKey.from_private_bytes(x.sk))], None

    return Task("repr", fn, [True] * 4)


# --- the same key object in every task
def one(pool, letter):
    return {"x": pool.xs, "e": pool.es, "r": pool.rs, "p": pool.ps}[letter][0]


def t_unwrap_with(pool, letter):
    """each task has a file of its own"""
    rng, p = pool.rng, one(pool, letter)
    data, fk = small(rng), rng.randbytes(16)
    more = [rng.choice(pool.xs + pool.es)] if rng.random() < 0.4 and letter != "p" else []
    sts = [p.wrap(rng, fk, rng.randrange(1, 9)) if letter == "p" else p.wrap(rng, fk)]
    ct = ref.encrypt(fk, rng.randbytes(16), [*[q.wrap(rng, fk) for q in more], *sts], data)
    ids = [p.identity]

    def fn():
        with Decryptor(ids, io.BytesIO(ct)) as d:
            return d.read(), None

    return Task("unwrap@" + letter, fn, data)


def t_wrap_with(pool, letter):
    rng, p = pool.rng, one(pool, letter)
    data, fk, logn = small(rng), rng.randbytes(16), rng.randrange(1, 9)
    if letter == "p":

        def fn():
            salt, cost, body = scrypt_encrypt_file_key(p.recipient, fk, log_cost=logn)
            return [cost, ref.unwrap_scrypt(ref.Stanza("scrypt", [ref.b64(salt), str(cost)], body), p.password)], (salt, body)

        return Task("wrap@p", fn, [logn, fk])

    def fn():
        out = io.BytesIO()
        with Encryptor([p.recipient], out) as e:
            e.write(data)
        return gen.ref_open(out.getvalue(), p), out.getvalue() if letter != "r" else None

    return Task("wrap@" + letter, fn, data)


def t_wrong_with(pool, letter):
    """the shared key does not fit"""
    rng, p = pool.rng, one(pool, letter)
    fk = rng.randbytes(16)
    q = {"x": gen.XParty, "e": gen.EParty}[letter](rng.randbytes(32)) if letter in "xe" else pool.rs[1] if letter == "r" else gen.PParty(rng.randbytes(9))
    st = q.wrap(rng, fk, rng.randrange(1, 9)) if letter == "p" else q.wrap(rng, fk)
    ct = ref.encrypt(fk, rng.randbytes(16), [st], b"secret")

    def fn():
        try:
            Decryptor([p.identity], io.BytesIO(ct))
        except Exception as e:
            return "refused", None
        return "opened", None

    return Task("wrong@" + letter, fn, "refused")


def t_use(pool, letter):
    """everything else a key object offers"""
    p = one(pool, letter)
    i, r = p.identity, p.recipient

    def look():
        out = [repr(i), repr(r), i == i, i == r, hash(i) == hash(i), hash(r) == hash(r)]
        for o in (i, r):
            for m in ("private_bytes", "private_string", "public_bytes", "public_string", "public_key", "to_age_private_key", "to_age_public_key", "fingerprint", "binary_encoding"):
                f = getattr(o, m, None)
                if f is None:
                    continue
                try:
                    v = f()
                    out.append((m, v if isinstance(v, (bytes, str)) else repr(v)))
                    for m2 in ("private_bytes", "public_bytes"):
                        if hasattr(v, m2) and type(v).__module__.startswith("age.keys.agekey"):
                            out.append((m, m2, bytes(getattr(v, m2)())))
                except TypeError:
                    continue
        return out

    want = look()
    return Task("use@" + letter, lambda: (look(), None), want)


SHARED = {"unwrap": t_unwrap_with, "wrap": t_wrap_with, "wrong": t_wrong_with, "use": t_use}

KINDS = {
    "encrypt": t_encrypt, "encrypt-armored": t_encrypt_armored, "encrypt-chunks": t_encrypt_chunks, "decrypt": t_decrypt,
    "decrypt-wrong": t_decrypt_wrong, "decrypt-damaged": t_decrypt_damaged, "decrypt-chunks": t_decrypt_chunks,
    "armor-write": t_armor_write, "armor-read": t_armor_read, "armor-bad": t_armor_bad, "keys": t_keys, "primitives": t_primitives,
    "stream": t_stream, "header": t_header, "key-files": t_key_files, "ssh-keys": t_ssh_keys, "openssh": t_openssh,
    "generate": t_generate, "scrypt-unwrap": t_scrypt_unwrap, "repr": t_repr,
}
NAMES = sorted(KINDS)
