"""C21 secrets stay in their channel and effects stay confined"""
import base64
import copy
import hashlib
import http.server
import io
import os
import re
import sys
import threading
import traceback

from cryptography.hazmat.primitives.serialization import BestAvailableEncryption, Encoding, NoEncryption, PrivateFormat

from age.file import Decryptor, Encryptor
from age.keyloader import load_ssh_private_key
from age.keys.agekey import AgePrivateKey
from age.openssh_keys import load_openssh_private_key
from age.stream import stream_decrypt

from mon import cli, gen, ref
from mon.core import Inconclusive, Violation
from mon.gen import C, EParty, PParty, SMALL_RSA, XParty
from mon.world import World, cli_party, damage, strange_names

OPTIMIZED_EVERY = 0  # the whole run has been tried without assertions; nothing in it depends on them
PROPERTY = "C21"
RULE = (
    "a case = succeeding and failing commands in a world whose plaintext, passphrases, file keys and private keys are known random "
    "tokens; every output channel (including the terminal and tracebacks) is searched for them in raw, hex, base64 (three alignments), "
    "decimal and escaped form, and an audit hook plus file-system snapshots record every file opened, process started and "
    "connection made; distinct = (command, outcome kind, options)"
)
ASSUMPTIONS = [
    "a secret counts as revealed when 12 consecutive bytes of it (or 16 characters of an encoding) appear",
    "recipient names, on the command line or as alias members, are not secrets: messages quote them",
    "effects outside Python's audit events (C libraries) are only seen where they change the scratch directories",
]
REQUIRED = {
    "encrypt_ok": 30, "encrypt_failed": 40, "decrypt_ok": 60, "decrypt_failed": 100, "generate_ok": 12, "generate_failed": 12, "secrets_searched": 2000, "opens_seen": 400,
    "file_keys_recovered": 50, "objects": 200, "exceptions": 100, "passphrases_typed": 40, "url_connections": 4, "github_lookups": 1, "malformed_key_files": 15, "tracebacks": 100, "near_keys": 5, "strange_names": 100, "odd_key_files": 40,
    "piece_series": 100, "piece_observations": 2000, "loader_calls": 3000, "loader_failures": 1000, "chunk_failures": 150, "pieces_searched": 300, "removed_fields": 80,
}


def global_init():
    cli.build_shim()


def global_done():
    cli.drop_shim()


PORT = None
SITE = {}


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        status, body, headers = SITE.get(self.path, (404, b"no", {}))
        self.send_response(status)
        for k, v in headers.items():
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


def worker_init():
    global PORT
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    srv.daemon_threads = True
    PORT = srv.server_address[1]
    threading.Thread(target=srv.serve_forever, daemon=True).start()


def worker_done():
    cli.stop()


# ---------------------------------------------------------------------- what must not be seen
class Needles(dict):
    def __setitem__(self, needle, name):
        # short or monotonous strings (keys made of zero bytes) would be found by chance
        if len(needle) >= 12 and len(set(needle)) >= 6:
            super().__setitem__(needle, name)


class Secrets:
    def __init__(self, ctx):
        self.ctx = ctx
        self.needles = Needles()  # needle -> name
        self.blobs = []

    def add(self, name, data):
        """raw bytes of a secret with at least 12 bytes"""
        if len(data) < 12:
            return
        n = self.needles
        pieces = [data[i : i + 12] for i in range(0, len(data) - 11, 6)][:12]
        for p in [data[:12], data[-12:], *pieces]:
            if len(set(p)) < 6:
                continue  # e.g. zero bytes: would match by chance
            n[p] = name
            n[p.hex().encode()] = name + " (hex)"
            n[repr(p)[2:-1].encode()] = name + " (escaped)"
            n[",".join(map(str, p)).encode()] = name + " (list)"
            n[", ".join(map(str, p)).encode()] = name + " (list)"
        for align in range(3):
            d = data[align:]
            e = base64.b64encode(d[: len(d) // 3 * 3])[:60]
            if len(e) >= 16:
                n[e[:16]] = name + " (base64)"
                n[base64.urlsafe_b64encode(d[: len(d) // 3 * 3])[:16]] = name + " (base64)"
        if len(data) <= 64:
            for order in ("big", "little"):
                n[str(int.from_bytes(data, order)).encode()[:30]] = name + " (decimal)"
                n[f"{int.from_bytes(data, order):x}".encode()[2:32]] = name + " (hex number)"

    def text(self, name, s, k=16):
        b = s.encode() if isinstance(s, str) else s
        for i in range(0, max(1, len(b) - k + 1), 4):
            self.needles[b[i : i + k]] = name
        self.needles[b[-k:]] = name

    def party(self, p):
        if p.kind == "x25519":
            self.add("X25519 private key", p.sk)
            s = ref.priv_string(p.sk)
            self.text("age private key", s[16:-6])
            self.text("age private key", s[16:-6].lower())
        elif p.kind == "scrypt":
            self.add("passphrase", p.password)
            self.text("passphrase", p.password, 12)
        elif p.kind == "ssh-ed25519":
            self.add("Ed25519 seed", p.seed)
            self.add("Ed25519 scalar", ref.ed_seed_to_scalar(p.seed) if isinstance(ref.ed_seed_to_scalar(p.seed), bytes) else ref.ed_seed_to_scalar(p.seed).to_bytes(32, "little"))
        else:
            for f in ("p", "q", "d"):
                v = getattr(p.numbers, f)
                self.add("RSA " + f, v.to_bytes((v.bit_length() + 7) // 8, "big"))
                self.needles[str(v).encode()[:40]] = f"RSA {f} (decimal)"
            for ln in p.key.private_bytes(Encoding.PEM, PrivateFormat.TraditionalOpenSSL, NoEncryption()).splitlines()[6:-2]:
                self.needles[ln[:40]] = "RSA private key (PEM)"
            lines = p.pem().splitlines()
            for ln in lines[1 + len(lines) // 2 : -2]:
                self.needles[ln[:40]] = "RSA private key (file)"

    def blob(self, name, data):
        """data of any size, any piece of which may be what is shown"""
        self.blobs.append((name, data))

    def pieces_of(self, where, shown):
        """is there a piece of a blob in what is shown, as it is or in the usual encodings?"""
        shown = shown[:12000] + shown[-12000:] if len(shown) > 24000 else shown
        forms = [shown]
        forms += [re.sub(rb"\\\\x([0-9a-f]{2})", lambda m: bytes([int(m[1], 16)]), shown).replace(rb"\n", b"\n").replace(rb"\t", b"\t").replace(rb"\r", b"\r").replace(b"\\\\", b"\\").replace(rb"\'", b"'")]
        forms += [bytes.fromhex(m[: len(m) // 2 * 2].decode()) for x in re.findall(rb"[0-9a-fA-F]{24,}", shown) for m in (x, x[1:])]
        forms += [base64.b64decode(x[k : k + (len(x) - k) // 4 * 4].replace(b"-", b"+").replace(b"_", b"/")) for x in re.findall(rb"[A-Za-z0-9+/_-]{20,}", shown) for k in range(4)]
        forms += [bytes(int(v) for v in re.split(rb", ?", x) if v and int(v) < 256) for x in re.findall(rb"(?:\d{1,3}, ?){12,}", shown)]
        for name, blob in self.blobs:
            for f in forms:
                for i in range(0, len(f) - 11):
                    w = f[i : i + 12]
                    if len(set(w)) >= 6 and w in blob:
                        raise Violation(f"a piece of the {name} appears in {where}", found=f[i : i + 40], at=blob.find(w))
            self.ctx.count("pieces_searched")

    def search(self, where, data, skip=()):
        for n, name in self.needles.items():
            if any(name.startswith(s) for s in skip):
                continue
            self.ctx.count("secrets_searched")
            if n in data:
                raise Violation(f"{name} appears in {where}", found=n if not isinstance(n, bytes) else n[:40], context=data[max(0, data.find(n) - 200) : data.find(n) + 60])


def token_password(rng):
    return "".join(rng.choice("abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789-_.") for _ in range(rng.choice([14, 20, 40])))


def secret_plain(rng, n=None):
    if n is None:
        n = rng.choice([24, 100, 1000, 5000, C + 100])
        if rng.random() < 0.12:
            n = rng.choice([200_000, 300_000, (1 << 19) + 1, 1_000_001, (1 << 20) + 1, 1_500_000, 3_000_000, 5_000_000])
        elif rng.random() < 0.1:
            n = gen.number(rng, 24, 5_000_000, 2_000_000)
    if rng.random() < 0.5:
        return rng.randbytes(n)
    return "".join(rng.choices("abcdefghijklmnopqrstuvwxyz ", k=n)).encode()


# ---------------------------------------------------------------------- effects
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def effects(ctx, r, outputs, hosts=(), before=None, after=None, cwd="/"):
    """outputs: the files the command may write; hosts: (host, port) pairs it may contact"""
    ok = {os.path.realpath(os.path.join(cwd, o)) for o in outputs}
    names = {h for h, _ in hosts}
    for ev, a in r.audit:
        if ev == "open":
            path, mode, flags = (list(a) + [None, None])[:3]
            ctx.count("opens_seen")
            writing = isinstance(flags, int) and flags & WRITE or isinstance(mode, str) and any(c in mode for c in "wax+")
            if isinstance(path, str) and not path.isdigit():
                if path in ("/dev/tty", "/dev/null"):
                    continue
                if writing and os.path.realpath(os.path.join(cwd, path)) not in ok:
                    raise Violation(f"{r.args[0]} opened a file for writing that is not the chosen output", path=path, mode=mode, args=r.args)
        elif ev in ("socket.connect", "socket.sendto"):
            ad = a[-1]
            m = re.match(r"\('([^']+)', (\d+)", ad) if isinstance(ad, str) else None
            if not m:
                if isinstance(ad, str) and "nscd" in ad:
                    continue
                raise Violation(f"{r.args[0]} made a connection", address=ad, args=r.args)
            if (m[1], int(m[2])) not in hosts and not (int(m[2]) == 53 and hosts):
                raise Violation(f"{r.args[0]} contacted a host that was not asked for", address=ad, args=r.args)
            ctx.count("url_connections")
        elif ev == "socket.getaddrinfo":
            if a[0] not in names:
                raise Violation(f"{r.args[0]} looked up a host that was not asked for", host=a[0], args=r.args)
            ctx.count("github_lookups", int(a[0] == "github.com"))
        elif ev == "socket.bind":
            if not hosts:
                raise Violation(f"{r.args[0]} bound a socket", address=a, args=r.args)
        elif ev == "ctypes.dlopen":
            pass
        elif ev == "os.putenv":
            pass
        else:
            raise Violation(f"{r.args[0]}: {ev}", detail=a, args=r.args)
    if before is not None:
        for p in set(before) | set(after):
            if before.get(p) != after.get(p) and os.path.realpath(p) not in ok:
                raise Violation(f"{r.args[0]} changed a file that is not the chosen output", path=p, before=before.get(p), after=after.get(p))


def execute(ctx, w, sec, args, outputs=(), hosts=(), skip_out=(), **kw):
    tmpdir = w.path("tmpdir")
    os.makedirs(tmpdir, exist_ok=True)
    cwd = w.path("cwd")
    os.makedirs(cwd, exist_ok=True)
    before = w.snapshot()
    r = cli.run(args, w.home, cwd=cwd, audit=True, env={"TMPDIR": tmpdir}, **kw)
    after = w.snapshot()
    effects(ctx, r, outputs, hosts, before, after, cwd)
    sec.search(f"standard error of {args[0]}", r.err)
    sec.search(f"the terminal during {args[0]}", r.tty)
    sec.pieces_of(f"standard error of {args[0]}", r.err + b"\n" + r.tty)
    if args[0] == "encrypt" or r.code != 0:
        sec.search(f"standard output of {args[0]}", r.out)
    if kw.get("passphrase"):
        ctx.count("passphrases_typed")
    ctx.count("tracebacks", int(b"Traceback" in r.err))
    ctx.count(f"{args[0]}_{'ok' if r.code == 0 else 'failed'}")
    return r


# ---------------------------------------------------------------------- commands
def encrypt_runs(ctx):
    rng = ctx.rng
    for i in range(4):
        w = World(ctx, f"h{i}")
        sec = Secrets(ctx)
        pt = secret_plain(rng)
        sec.add("plaintext", pt)
        group = [cli_party(rng, ("x25519", "ssh-ed25519", "ssh-rsa")) for _ in range(rng.choice([0, 1, 1, 2]))]
        pw = None
        if rng.random() < 0.35 or not group:
            pw = PParty(token_password(rng).encode())
        for p in [*group, *([pw] if pw else [])]:
            sec.party(p)
        # identities lying around must not be touched or shown
        idents = [XParty(rng.randbytes(32)), EParty(rng.randbytes(32))]
        w.default_keys(idents[:1])
        w.ssh(idents[1])
        for p in idents:
            sec.party(p)
        names, hosts = [], []
        for p in group:
            how = rng.choice(["key", "file", "url", "github", "alias"])
            if how == "alias" and p.kind == "x25519":
                w.file(f"a{w.n}: {p.cli_recipient}\n", ".config/age/aliases.txt")
                names.append(f"a{w.n}")
            elif how == "file":
                names.append(w.file(f"{p.cli_recipient}\n"))
            elif how == "url":
                path = f"/{ctx.family}{ctx.idx}-{i}-{len(names)}"
                SITE[path] = (200, f"{p.cli_recipient}\nhttp://127.0.0.1:2/x\n/etc/passwd\ngithub:evil\n".encode(), {})
                names.append(f"http://127.0.0.1:{PORT}{path}")
                hosts.append(("127.0.0.1", PORT))
            else:
                names.append(p.cli_recipient)
        fail = rng.choice([None] * 9 + ["unknown", "unknown", "unknown", "keyfile-as-recipients", "github", "url-404", "bad-key", "full", "fsize", "low-order", "url-redirect", "abort"])
        opts = rng.choice([[], ["-a"]])
        kw, outputs = {}, []
        if fail == "unknown":
            names.insert(rng.randrange(len(names) + 1), rng.choice(strange_names(rng, PORT)))
            ctx.count("strange_names")
        elif fail == "keyfile-as-recipients":
            names.append(w.path(".config/age/keys.txt"))
        elif fail == "github":
            names.append("github:someone")
            hosts.append(("github.com", 443))
        elif fail == "url-404":
            names.append(f"http://127.0.0.1:{PORT}/missing")
            hosts.append(("127.0.0.1", PORT))
        elif fail == "url-redirect":
            SITE["/redir"] = (302, b"", {"Location": f"http://127.0.0.1:{PORT}/missing"})
            names.append(f"http://127.0.0.1:{PORT}/redir")
            hosts.append(("127.0.0.1", PORT))
        elif fail == "bad-key":
            names.append(ref.pub_string(rng.randbytes(32))[:-1] + "b")
        elif fail == "low-order":
            names.append(ref.pub_string(rng.choice(ref.LOW_ORDER)))
        if pw:
            opts = [*opts, "-p"]
            kw["passphrase"] = pw.password.decode() + ("\x03" if fail == "abort" else "")
        out = None
        if fail in ("full", "fsize"):
            if fail == "fsize":
                kw["fsize"] = rng.randrange(150)
            else:
                kw["shim"] = [2, rng.randrange(150), -1, 28, 0, 0]
        if rng.random() < 0.5 or fail in ("full", "fsize"):
            out = w.path("result")
            opts = [*opts, "-o", out]
            outputs.append(out)
        if rng.random() < 0.4:
            src = w.file(pt, "input")
            opts = [*opts, "-i", src]
            if rng.random() < 0.3 and not fail:
                opts = [*opts, "-o", src]
                out = src
                outputs = [src]
        else:
            kw["stdin"] = pt
        r = execute(ctx, w, sec, ["encrypt", *opts, *names], outputs, hosts, **kw)
        data = r.out
        if out and os.path.exists(out):
            with open(out, "rb") as f:
                data = f.read()
        if not (out and out.endswith("input") and r.code):
            sec.search("the ciphertext", data)
        if r.code == 0 and data:
            raw = ref.dearmor_strict(data.decode()) if "-a" in opts else data
            sts, _, mac, off = ref.parse_header(raw)
            who = (group or [pw])[0]
            fk = None
            for st in sts:
                try:
                    fk = who.unwrap(st)
                    break
                except Exception:
                    continue
            ctx.check(fk, "reference could not recover the file key")
            s2 = Secrets(ctx)
            s2.add("file key", fk)
            s2.search("the ciphertext", data)
            s2.search("the decoded ciphertext", raw)
            sec.search("the decoded ciphertext", raw)
            s2.search("standard error", r.err)
            ctx.count("file_keys_recovered")
        ctx.eval(("encrypt", fail, tuple(opts), len(names), r.code))
        ctx.sample(args=r.args[:6], outcome=r.code, cause=fail)


def decrypt_runs(ctx):
    rng = ctx.rng
    for i in range(5):
        w = World(ctx, f"h{i}")
        sec = Secrets(ctx)
        pt = secret_plain(rng)
        fk = rng.randbytes(16)
        p = cli_party(rng, ("x25519", "x25519", "ssh-ed25519", "ssh-rsa"))
        if rng.random() < 0.3:
            p = PParty(token_password(rng).encode())
        others = [cli_party(rng, ("x25519", "ssh-ed25519")) for _ in range(rng.choice([0, 1]))]
        for q in [p, *others]:
            sec.party(q)
        sec.add("file key", fk)
        sec.add("plaintext", pt)
        sec.blob("plaintext", pt)
        data = ref.encrypt(fk, rng.randbytes(16), [q.wrap(rng, fk) for q in [*others, p]], pt)
        keys, phrase = w.give(p)
        opts, kw, outputs = [], {}, []
        fail = rng.choice([None, None, "damage", "damage", "forged-mac", "no-match", "malformed-keys", "near-key", "armor", "wrong-pass", "fsize", "stdout-gone", "last", "unknown", "bad-ssh", "default-broken"])
        if fail == "damage":
            try:
                _, data = damage(rng, data)
            except Inconclusive:
                pass
        elif fail == "last":
            data = data[:-1] + bytes([data[-1] ^ 1])
        elif fail == "forged-mac":
            sts, _, _, off = ref.parse_header(data)
            data = ref.build_header(sts, rng.randbytes(16)) + data[off:]
        elif fail == "unknown":
            data = gen.mac_fixed(data, fk, lambda s: [gen.unknown_stanza(rng), *s])
        elif fail == "no-match":
            q = XParty(rng.randbytes(32))
            sec.party(q)
            data = ref.encrypt(fk, rng.randbytes(16), [XParty(rng.randbytes(32)).wrap(rng, fk)], pt)
        elif fail in ("malformed-keys", "near-key", "default-broken"):
            q = XParty(rng.randbytes(32))
            sec.party(q)
            s = ref.priv_string(q.sk)
            j = rng.randrange(17, len(s))
            c = rng.choice([x for x in ref.B32.upper() if x != s[j]])
            bad = {
                "near-key": rng.choice([s[:j] + c + s[j + 1 :], s[:-1], s + "Q", s.swapcase()[:20] + s[20:], s.replace("SECRET", "SECRETE"), s + " trailing", "key=" + s, s[:j] + "\u00e9" + s[j + 1 :], s[:j] + "b" + s[j:]]),
                "malformed-keys": rng.choice(["passphrase: " + token_password(rng), "\x00" + s, s + "\n" + s[:50], "# ok\n" + s[16:]]),
                "default-broken": s[:-2] + "\n",
            }[fail]
            body = f"# near\n{bad}\n".encode()
            if rng.random() < 0.2:
                body += b"\xff\xfe"
            if fail == "default-broken":
                w.file(body, ".config/age/keys.txt")
            else:
                keys.insert(0, w.file(body))
            ctx.count("malformed_key_files" if fail != "near-key" else "near_keys")
            ctx.count("malformed_key_files", int(fail == "near-key"))
        elif fail == "bad-ssh":
            e = EParty(rng.randbytes(32))
            sec.party(e)
            sec.text("Ed25519 key file", b"".join(e.pem().splitlines()[2:-2]), 24)
            pem = e.pem()
            w.file(rng.choice([pem[: len(pem) // 2], pem.replace(b"AAAA", b"AAAB", 1), pem[:-60] + b"\n", pem.replace(b"BEGIN", b"BEGINN")]), ".ssh/id_bad")
        text = ref.armor(data).encode() if rng.random() < 0.35 or fail == "armor" else data
        if text is not data:
            opts.append("-a")
        if fail == "armor":
            text = rng.choice([text[:-10], text.replace(b"\n", b"", 3), text + text, text.replace(b"BEGIN AGE", b"BEGIN XGE"), data])
        if phrase is not None:
            opts.append("-p")
            keys = [k for k in keys if k != "-p"]
            kw["passphrase"] = phrase if fail != "wrong-pass" else phrase + "x"
        elif fail == "wrong-pass":
            q = PParty(token_password(rng).encode())
            sec.party(q)
            opts.append("-p")
            kw["passphrase"] = q.password.decode()
        if rng.random() < 0.5:
            out = w.path("result")
            opts += ["-o", out]
            outputs.append(out)
            if fail == "fsize":
                kw["fsize"] = rng.randrange(len(pt))
        elif fail == "stdout-gone":
            kw["stdout"] = None
        if rng.random() < 0.3:
            # key files are files, whatever they are called
            keys.insert(
                rng.randrange(len(keys) + 1),
                rng.choice([
                    "http://127.0.0.1:9/keys.txt", "https://example.invalid/keys.txt", "HTTP://127.0.0.1:9/k", "github:nobody", "ftp://127.0.0.1/k", "file:///etc/hostname", "//127.0.0.1/share/keys",
                    "https://github.com/nobody.keys", "age-keys.example.invalid", "user@example.invalid:keys.txt", "ssh://example.invalid/k", "|id", "$(id)", "`id`", "~nobody/keys.txt", "data:,AGE-SECRET-KEY-1",
                ]),
            )
            ctx.count("odd_key_files")
        # the plaintext may only go to the output
        r = execute(ctx, w, sec, ["decrypt", *opts, *keys], outputs, stdin=text, **kw)
        if r.code == 0:
            s2 = copy.copy(sec)
            s2.search("standard output of decrypt", r.out, skip=("plaintext",))
        ctx.eval(("decrypt", fail, tuple(opts[:1]), p.kind, r.code))
        ctx.sample(args=[a if "/" not in a else "..." for a in r.args], cause=fail, outcome=r.code)


def generate_runs(ctx):
    rng = ctx.rng
    for i in range(4):
        w = World(ctx, f"h{i}")
        old = XParty(rng.randbytes(32))
        w.default_keys([old])
        sec = Secrets(ctx)
        sec.party(old)
        how = rng.choice(["stdout", "file", "existing", "fsize", "full", "directory", "closed", "missing-dir"])
        args, outputs, kw = ["generate"], [], {}
        path = None
        if how in ("file", "existing", "fsize"):
            path = w.path("key")
            if how == "existing":
                w.file(b"x", "key", rng.choice([0o600, 0o644]))
            if how == "fsize":
                kw["fsize"] = rng.randrange(170)
        elif how == "full":
            path = "/dev/full"
        elif how == "directory":
            path = w.home
        elif how == "missing-dir":
            path = w.path("no/key")
        elif how == "closed":
            kw["stdout"] = None
        if path:
            args += ["-o", path]
            outputs.append(path)
        r = execute(ctx, w, sec, args, outputs, **kw)
        text = r.out
        if path and os.path.isfile(path):
            text = open(path, "rb").read()
            ctx.check(r.out == b"", "generate -o wrote to standard output too")
        m = re.search(rb"AGE-SECRET-KEY-1([A-Z0-9]+)", text)
        if m:
            s2 = Secrets(ctx)
            if len(m[1]) > 20:
                s2.text("generated private key", m[1])
                s2.text("generated private key", m[1].lower())
            if r.code == 0:
                from mon.checks.c19 import _bech32_decode

                s2.add("generated private key", _bech32_decode("AGE-SECRET-KEY-", m[0].decode()))
            s2.search("standard error of generate", r.err)
        ctx.check(b"AGE-SECRET" not in r.err.upper(), "private key on standard error of generate")
        ctx.eval(("generate", how, r.code))


# ---------------------------------------------------------------------- objects
def objects(ctx):
    """printable forms of key and stream objects, exceptions of library calls"""
    rng = ctx.rng
    parts = [cli_party(rng, (k,)) for k in ("x25519", "ssh-ed25519", "ssh-rsa")] + [PParty(rng.choice([token_password(rng).encode(), rng.randbytes(20)]))]
    sec = Secrets(ctx)
    for p in parts:
        sec.party(p)
    pt = secret_plain(rng, 500)
    sec.add("plaintext", pt)

    def show(o, what):
        for name, f in (("repr", repr), ("str", str), ("format", format), ("%s", lambda x: "%s" % (x,)), ("%r", lambda x: "%r" % (x,)), ("f-string", lambda x: f"{x}|{x!r}|{x!s}|{x!a}"), ("list", lambda x: str([x])), ("dict", lambda x: repr({"k": x}))):
            sec.search(f"{name}() of {what}", f(o).encode("utf-8", "surrogateescape"))
            ctx.count("objects")

    for p in parts:
        show(p.identity, type(p.identity).__name__)
        show(p.recipient, type(p.recipient).__name__)
        if hasattr(p.identity, "public_key"):
            show(p.identity.public_key(), "public_key()")
        if hasattr(p.identity, "to_age_private_key"):
            a = p.identity.to_age_private_key()
            s = Secrets(ctx)
            s.add("converted private key", bytes(a.private_bytes()))
            for f in (repr, str):
                s.search("printable form of a converted key", f(a).encode())
    g = AgePrivateKey.generate()
    s = Secrets(ctx)
    s.add("generated key", bytes(g.private_bytes()))
    s.text("generated key", g.private_string()[16:-6])
    for f in (repr, str, format):
        s.search("printable form of a generated key", f(g).encode())
        ctx.count("objects")
    # streams
    fast = parts[:3]
    out = io.BytesIO()
    e = Encryptor([p.recipient for p in fast], out)
    e.write(pt)
    show(e, "Encryptor")
    e.close()
    show(e, "closed Encryptor")
    ct = out.getvalue()
    sec.search("a ciphertext", ct)
    p = rng.choice(fast)
    d = Decryptor([p.identity], io.BytesIO(ct))
    d.read(5)
    show(d, "Decryptor")
    sts, _, _, off = ref.parse_header(ct)
    fk = p.unwrap(sts[fast.index(p)])
    s2 = Secrets(ctx)
    s2.add("file key", fk)
    for o in (e, d):
        for f in (repr, str):
            s2.search(f"printable form of {type(o).__name__}", f(o).encode())
    s2.search("a ciphertext", ct)
    # failing library calls
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        for k in range(12):
            op = rng.randrange(6)
            try:
                if op <= 2:
                    what, bad = damage(rng, ct)
                    gen.age_decrypt([q.identity for q in rng.sample(fast, rng.choice([1, 2, 3]))], bad)
                elif op == 3:
                    gen.age_decrypt([XParty(rng.randbytes(32)).identity, parts[3].identity], ct)
                elif op == 4:
                    st = parts[3].wrap(rng, fk, 2)
                    st.body = rng.randbytes(32)
                    gen.age_decrypt([parts[3].identity], ref.encrypt(fk, rng.randbytes(16), [st], pt))
                else:
                    x = ref.priv_string(fast[0].sk)
                    j = rng.randrange(16, len(x))
                    AgePrivateKey.from_private_string(x[:j] + ("Q" if x[j] != "Q" else "P") + x[j + 1 :])
                raise Inconclusive("a failing call did not fail")
            except (Violation, Inconclusive):
                raise
            except Exception as ex:
                chain = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)) + repr(ex) + str(ex.args)
                sec.search(f"exception {type(ex).__name__}", chain.encode("utf-8", "surrogateescape"))
                s2.search(f"exception {type(ex).__name__}", chain.encode("utf-8", "surrogateescape"))
                ctx.count("exceptions")
        printed = sys.stderr.getvalue().encode("utf-8", "surrogateescape")
    finally:
        sys.stderr = old
    sec.search("standard error of library calls", printed)
    s2.search("standard error of library calls", printed)
    ctx.eval(("objects", ctx.idx))


def chunks(ctx):
    """data of several chunks, damaged in one of them: what is raised shows nothing of the others"""
    rng = ctx.rng
    p = cli_party(rng, ("x25519", "ssh-ed25519"))
    fk, key = rng.randbytes(16), rng.randbytes(32)
    n = rng.choice([1, 2, 2, 3, 4, 6])
    pt = secret_plain(rng, n * C - rng.choice([0, 1, 100, C - 1, C - 40]))
    sec = Secrets(ctx)
    sec.party(p)
    for name, v in (("file key", fk), ("stream key", key)):
        sec.add(name, v)
        sec.blob(name, v)
    sec.blob("plaintext", pt)
    ct = ref.encrypt(fk, rng.randbytes(16), [p.wrap(rng, fk)], pt)
    off = ref.parse_header(ct)[3] + 16
    st = ref.stream_enc(key, pt)
    S = C + 16
    box = []

    def lib(data, start):
        return lambda: gen.age_decrypt([p.identity], data)

    def stream(data, start):
        return lambda: stream_decrypt(key, data)

    for data, start, call in ((ct, off, lib), (st, 0, stream)):
        for i in range((len(data) - start + S - 1) // S):
            at = start + i * S
            end = min(at + S, len(data))
            m = bytearray(data)
            m[rng.choice([at, end - 1, rng.randrange(at, end)])] ^= 1 << rng.randrange(8)
            box.append((f"chunk {i} damaged", call(bytes(m), start)))
            box.append((f"cut in chunk {i}", call(data[: rng.randrange(at, end)], start)))
            if i:
                box.append((f"cut behind chunk {i - 1}", call(data[:at], start)))
                box.append((f"chunk {i} missing", call(data[:at] + data[end:], start)))
                box.append((f"chunk {i} twice", call(data[:end] + data[at:], start)))
        box.append(("junk behind the end", call(data + rng.randbytes(rng.choice([1, 20, 70000])), start)))
    for what, f in box:
        old, sys.stderr = sys.stderr, io.StringIO()
        old_out, sys.stdout = sys.stdout, io.StringIO()
        try:
            try:
                f()
            except Exception as ex:
                shown, e = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)), ex
                while e is not None:
                    shown += repr(e) + repr(e.args) + repr(vars(e))
                    e = e.__cause__ or e.__context__
                ctx.count("exceptions")
                ctx.count("chunk_failures")
            else:
                shown = ""
                ctx.count("chunk_no_failure")
            shown += sys.stderr.getvalue() + sys.stdout.getvalue()
        finally:
            sys.stderr, sys.stdout = old, old_out
        shown = shown.encode("utf-8", "surrogateescape")
        sec.search(f"the exception for {what}", shown)
        sec.pieces_of(f"the exception for {what}", shown)
    ctx.eval(("chunks", n, len(pt)))


def names(ctx):
    """names that denote nothing: the command fails without asking anybody"""
    rng = ctx.rng
    w = World(ctx)
    sec = Secrets(ctx)
    pt = secret_plain(rng, 60)
    sec.add("plaintext", pt)
    good = [XParty(rng.randbytes(32)).cli_recipient]
    todo = strange_names(rng, PORT)
    for n in todo[ctx.idx % 6 :: 6]:
        out = w.path("result")
        opts = rng.choice([[], ["-a"]])
        args = ["encrypt", *opts, "-o", out, *rng.choice([[n], [good[0], n], [n, good[0]]])]
        r = execute(ctx, w, sec, args, [out], stdin=pt)
        ctx.check(r.code != 0, "encrypt succeeded although a recipient denotes nothing", args=args)
        ctx.count("strange_names")
        ctx.eval(("names", n.split(":")[0][:8]))


# ---------------------------------------------------------------------- short pieces
def views(data):
    """encodings of a secret in which a piece of it may be shown"""
    out = {"hex": data.hex(), "HEX": data.hex().upper(), "list": ", ".join(map(str, data)), "list,": ",".join(map(str, data)), "escaped": "".join(f"\\x{b:02x}" for b in data), "colons": data.hex(":"), "raw": data.decode("latin-1")}
    for k in range(3):
        out[f"base64+{k}"] = base64.b64encode(data[k : k + (len(data) - k) // 3 * 3]).decode()
    out["base32"] = base64.b32encode(data).decode().rstrip("=")
    for o in ("big", "little"):
        v = int.from_bytes(data, o)
        out["decimal " + o], out["number " + o] = str(v), f"{v:x}"
    return out


WINDOW = {"hex": 4, "HEX": 4, "list": 8, "list,": 7, "escaped": 8, "colons": 5, "raw": 2, "base32": 4, "decimal big": 5, "decimal little": 5, "number big": 4, "number little": 4}


class Common:
    """pieces of secrets found in what each of many like objects (or commands) shows

    One piece of two bytes may be there by chance; the same piece of every one of two dozen is not.
    """

    def __init__(self, ctx, extra=0):
        self.ctx, self.left, self.extra, self.n = ctx, None, extra, 0

    def see(self, secrets, text):
        """secrets: name -> bytes or str"""
        found = set()
        for name, v in secrets.items():
            for enc, s in (views(v) if isinstance(v, bytes) else {"text": v, "lower": v.lower()}).items():
                k = WINDOW.get(enc, 3) + self.extra
                if enc in ("list", "list,", "escaped", "colons"):
                    k = WINDOW[enc]
                for i in range(min(len(s), 700) - k + 1):
                    if (self.left is None or (name, enc, i) in self.left) and s[i : i + k] in text:
                        found.add((name, enc, i))
                # the end of it
                for i in range(1, 40):
                    if len(s) >= i + k and (self.left is None or (name, enc, -i) in self.left) and s[-i - k : -i] in text:
                        found.add((name, enc, -i))
        self.left = found
        self.n += 1
        self.last = text

    def verdict(self, what):
        self.ctx.count("piece_series")
        self.ctx.count("piece_observations", self.n)
        if self.left:
            name, enc, i = sorted(self.left, key=repr)[0]
            raise Violation(f"{what} shows a piece of the {name} ({enc}, at {i}) every time", last=self.last[-400:], pieces=len(self.left))


def party_secrets(p):
    if p.kind == "x25519":
        return {"X25519 private key": p.sk, "age private key": ref.priv_string(p.sk)[17:]}
    if p.kind == "ssh-ed25519":
        h = hashlib.sha512(p.seed).digest()
        return {"Ed25519 seed": p.seed, "Ed25519 scalar": h[:32], "Ed25519 prefix": h[32:], "converted key": bytes(p.identity.to_age_private_key().private_bytes())}
    if p.kind == "ssh-rsa":
        out = {}
        for f in ("p", "q", "d", "dmp1", "dmq1", "iqmp"):
            v = getattr(p.numbers, f)
            # leading zeros differ from key to key: only the high half is compared from its start
            out["RSA " + f] = v.to_bytes((v.bit_length() + 7) // 8, "big")
        return out
    return {"passphrase": p.password.decode("latin-1"), "passphrase bytes": p.password, "passphrase MD5": hashlib.md5(p.password).digest(), "passphrase SHA-1": hashlib.sha1(p.password).digest(), "passphrase SHA-256": hashlib.sha256(p.password).digest()}


SHOWN = (("repr", repr), ("str", str), ("format", format), ("%a", ascii), ("list", lambda o: str([o])))


def pieces(ctx):
    """two dozen fresh keys of each kind: no part of a secret, however short, is in what they show"""
    rng = ctx.rng
    n = 24
    rsa = sorted(gen.rsa_pool())
    makers = {
        "x25519": lambda i: XParty(rng.randbytes(32)), "ssh-ed25519": lambda i: EParty(rng.randbytes(32)),
        "ssh-rsa": lambda i: gen.RParty(rsa[i % len(rsa)], rng.randrange(3, 1 << 31) | 1),
        "scrypt": lambda i: PParty("".join(rng.choice("0123456789!#%&*+;^~QXZJ") for _ in range(16)).encode()),
    }
    for kind, make in makers.items():
        series = {}
        for i in range(n):
            p = make(i)
            sec = party_secrets(p)
            fk = rng.randbytes(16)
            objs = {"identity": p.identity, "recipient": p.recipient}
            if hasattr(p.identity, "public_key"):
                objs["public_key()"] = p.identity.public_key()
            if hasattr(p.identity, "to_age_private_key"):
                objs["converted key"] = p.identity.to_age_private_key()
            if kind != "scrypt":
                d = Decryptor([p.identity], io.BytesIO(ref.encrypt(fk, rng.randbytes(16), [p.wrap(rng, fk)], b"0123456789 plain" + rng.randbytes(32))))
                objs["Decryptor"] = d
                d.read(3)
            for what, o in objs.items():
                s = dict(sec)
                if what == "Decryptor":
                    s["file key"] = fk
                text = "\n".join(f(o) for _, f in SHOWN)
                series.setdefault(what, Common(ctx)).see(s, text)
                ctx.count("objects", len(SHOWN))
        for what, c in series.items():
            c.verdict(f"the printable form of {what} ({kind})")
        ctx.eval(("pieces", kind, ctx.idx))


FAILURES = ["wrong-key", "wrong-pass", "damaged", "last", "mac", "armor", "near-key", "bad-ssh", "no-space", "stdout-gone", "unknown-recipient", "keyfile-as-recipients", "alias", "encrypt-no-space", "generate-fails", "ok-decrypt", "ok-encrypt", "ok-generate"]


def failing_pieces(ctx):
    """the same command with other secrets, several times: no piece of a secret in what it prints every time"""
    rng = ctx.rng
    for what in rng.sample(FAILURES, 6):
        c = Common(ctx, 2)
        kind = rng.choice(["x25519", "ssh-ed25519"])
        armored = rng.random() < 0.3
        for i in range(6):
            w = World(ctx, f"{what}{i}")
            p = PParty("".join(rng.choice("0123456789!#%&*+;^~QXZJ") for _ in range(24)).encode()) if "pass" in what else cli_party(rng, (kind,))
            pt = secret_plain(rng, 120)
            fk = rng.randbytes(16)
            secrets = {**party_secrets(p), "file key": fk, "plaintext": pt}
            opts, kw = ["-a"] if armored or what == "armor" else [], {}
            if "recipient" in what or what in ("alias", "encrypt-no-space", "ok-encrypt"):
                q = XParty(rng.randbytes(32))
                secrets.update(party_secrets(q))
                name = q.cli_recipient
                if what == "unknown-recipient":
                    name = "nobody"
                elif what == "keyfile-as-recipients":
                    name = w.key_file([q], "k")
                elif what == "alias":
                    w.file(f"team: {q.cli_recipient} nobody\n", ".config/age/aliases.txt")
                    name = "team"
                if what == "encrypt-no-space":
                    kw["shim"] = [1, 20, -1, 28, 0, 0]
                r = cli.run(["encrypt", *opts, name], w.home, stdin=pt, **kw)
            elif "generate" in what:
                kw = {"shim": [1, 150, -1, 28, 0, 0]} if what == "generate-fails" else {}
                r = cli.run(["generate"], w.home, **kw)
                m = re.search(rb"AGE-SECRET-KEY-1([A-Z0-9]+)", r.out)
                secrets = {"generated key": m[1].decode()} if m else {}
            else:
                data = ref.encrypt(fk, rng.randbytes(16), [p.wrap(rng, fk)], pt)
                keys, phrase = w.give(p, "file")
                if what == "wrong-key":
                    data = ref.encrypt(fk, rng.randbytes(16), [XParty(rng.randbytes(32)).wrap(rng, fk)], pt)
                elif what == "damaged":
                    data = data[:-30] + bytes([data[-30] ^ 1]) + data[-29:]
                elif what == "last":
                    data = data[:-1]
                elif what == "mac":
                    sts, _, _, off = ref.parse_header(data)
                    data = ref.build_header(sts, rng.randbytes(16)) + data[off:]
                elif what == "near-key":
                    q = XParty(rng.randbytes(32))
                    secrets.update(party_secrets(q))
                    s = ref.priv_string(q.sk)
                    keys.append(w.file(s[:-1] + ("Q" if s[-1] != "Q" else "P") + "\n"))
                elif what == "bad-ssh":
                    e = EParty(rng.randbytes(32))
                    secrets["Ed25519 seed of a damaged file"] = e.seed
                    w.file(e.pem().replace(b"AAAAB", b"AAAAC", 1), ".ssh/id_bad")
                    data = data[:-1]
                if opts:
                    data = ref.armor(data).encode()
                if what == "armor":
                    data = data.replace(b"-----END", b"----END")
                if what == "no-space":
                    kw["shim"] = [1, 20, -1, 28, 0, 0]
                elif what == "stdout-gone":
                    kw["stdout"] = None
                if phrase is not None:
                    kw["passphrase"] = phrase if what != "wrong-pass" else phrase + "x"
                r = cli.run(["decrypt", *opts, *keys], w.home, stdin=data, **kw)
            c.see(secrets, r.err.decode("latin-1") + "\n" + r.tty.decode("latin-1"))
        c.verdict(f"standard error ({what}, {kind})")
        ctx.eval(("failing-pieces", what, kind, r.code))


def key_files(ctx):
    """loaders of SSH key files that are refused: what is raised or printed shows neither the key nor its passphrase"""
    rng = ctx.rng
    p = rng.choice([EParty(rng.randbytes(32)), gen.RParty(rng.choice(SMALL_RSA), rng.randrange(3, 1 << 30) | 1)])
    sec = Secrets(ctx)
    sec.party(p)
    pw, wrong = token_password(rng).encode(), token_password(rng).encode()
    for x in (pw, wrong):
        sec.add("passphrase of a key file", x)
        sec.text("passphrase of a key file", x, 12)
    k = p.key
    enc = BestAvailableEncryption(pw)
    forms = {"clear OpenSSH": p.pem()}
    for name, fmt in (("PKCS8", PrivateFormat.PKCS8), ("OpenSSH", PrivateFormat.OpenSSH), ("traditional", PrivateFormat.TraditionalOpenSSL)):
        try:
            forms[f"clear {name}"] = k.private_bytes(Encoding.PEM, fmt, NoEncryption())
            forms[f"encrypted {name}"] = k.private_bytes(Encoding.PEM, fmt, enc)
        except Exception:
            continue
    for name, pem in forms.items():
        lines = pem.splitlines()
        for ln in lines[1 + len(lines) // 3 : -2]:
            sec.needles[ln[:24]] = f"key file ({name})"
    for name, pem in forms.items():
        j = rng.randrange(40, len(pem) - 40)
        variants = {"intact": pem, "flipped": pem[:j] + (b"A" if pem[j : j + 1] != b"A" else b"B") + pem[j + 1 :], "cut": pem[: rng.randrange(60, len(pem) - 20)], "other label": pem.replace(b"PRIVATE", b"PUBLIC"), "crlf": pem.replace(b"\n", b"\r\n"), "joined": pem + pem}
        for vname, body in variants.items():
            path = os.path.join(ctx.tmp, "id_key")
            with open(path, "wb") as f:
                f.write(body)
            for pname, word in (("none", None), ("wrong", wrong), ("right", pw), ("empty", b""), ("text", pw.decode()), ("list", list(pw))):
                for fn in (lambda: load_ssh_private_key(path, password=word), lambda: load_ssh_private_key(path, word), lambda: load_openssh_private_key(body, passphrase=word)):
                    old, sys.stderr = sys.stderr, io.StringIO()
                    old_out, sys.stdout = sys.stdout, io.StringIO()
                    shown = ""
                    try:
                        try:
                            o = fn()
                            if o is not None:
                                # repr() of library objects is not pyage's; those of pyage's own classes are
                                shown = repr(o) + str(o) if type(o).__module__.startswith("age.") else ""
                        except Exception as ex:
                            shown = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)) + repr(ex) + repr(ex.args) + repr(vars(ex))
                            ctx.count("loader_failures")
                        shown += sys.stderr.getvalue() + sys.stdout.getvalue()
                    finally:
                        sys.stderr, sys.stdout = old, old_out
                    sec.search(f"what loading a key file shows ({name}, {vname}, passphrase {pname})", shown.encode("utf-8", "surrogateescape"))
                    ctx.count("loader_calls")
        ctx.eval(("key-files", p.kind, name))


def removed_fields(ctx):
    """OpenSSH files in which bytes are missing or moved, so that a secret stands where a name is expected, as keys of commands"""
    rng = ctx.rng
    w = World(ctx, "moved")
    sec = Secrets(ctx)
    for i in range(12):
        p = rng.choice([EParty(rng.randbytes(32)), gen.RParty(rng.choice(SMALL_RSA), rng.randrange(3, 1 << 30) | 1)])
        sec.party(p)
        if p.kind == "ssh-rsa":
            parts = [b"ssh-rsa", *(ref.mpint(v)[4:] for v in (p.n, p.e, p.numbers.d, p.numbers.iqmp, p.numbers.p, p.numbers.q))]
            secrets, wire = parts[3:], ref.rsa_wire(p.n, p.e)
        else:
            parts = [b"ssh-ed25519", p.pk, p.seed + p.pk]
            secrets, wire = [p.seed], ref.ed_wire(p.pk)
        for x in secrets:
            sec.blob("private part of a key", x)
        x = rng.choice(secrets)
        name = rng.choice([b"ssh-ed25519", b"ecdsa-sha2-nistp256", b"ecdsa-x", b"ssh-dss", b"ssh-rsa"])
        kw, magic = {}, b"openssh-key-v1\0"
        how = rng.choice(["dropped", "type", "second", "prefixed", "shuffled", "outside", "cipher", "kdf", "magic", "bytes", "comment"])
        if how == "dropped":
            parts = parts[rng.randrange(1, len(parts)) :]
        elif how == "type":
            parts = [x, *parts]
        elif how == "second":
            parts = [name, x, *parts]
        elif how == "prefixed":
            parts = [rng.choice([b"ecdsa-", b"ssh-rsa", b"ssh-ed25519", b"sk-ssh-"]) + x, *parts[1:]]
        elif how == "shuffled":
            rng.shuffle(parts)
        elif how == "kdf":
            kw["kdf"] = x
        fields = b"".join(map(ref.sstr, parts))
        if how == "bytes":
            fields = fields[rng.randrange(1, len(fields)) :]
        if how == "comment":
            kw["trailing"] = x
            fields += ref.sstr(x)
        blob = ref.openssh_blob(fields, x if how == "outside" else wire, **kw)
        if how == "cipher":
            blob = blob.replace(ref.sstr(b"none"), ref.sstr(x), 1)
        elif how == "magic":
            blob = x + blob[rng.randrange(15) :]
        label = b"OPENSSH PRIVATE KEY"
        body = ref.openssh_pem(blob)
        if rng.random() < 0.1:
            body = body.replace(label, base64.b64encode(x)[:60], rng.choice([1, 2]))
        w.file(body, f".ssh/id_{i}")
        ctx.count("removed_fields")
        ctx.eval(("removed", p.kind, how, name if how == "second" else b""))
    good = XParty(rng.randbytes(32))
    pt = secret_plain(rng)
    sec.party(good)
    data = gen.ref_file(rng, [rng.choice([good, XParty(rng.randbytes(32)), EParty(rng.randbytes(32))])], pt)
    execute(ctx, w, sec, ["decrypt", w.file(ref.priv_string(good.sk).encode() + b"\n")], stdin=data)


def families(tier):
    k = 1 if tier == "quick" else 12
    return [("removed-fields", 14 * k, removed_fields), ("pieces", 8 * k, pieces), ("failing-pieces", 10 * k, failing_pieces), ("key-files", 16 * k, key_files), ("names", 12 * k, names), ("chunks", 16 * k, chunks), ("encrypt", 44 * k, encrypt_runs), ("decrypt", 56 * k, decrypt_runs), ("generate", 14 * k, generate_runs), ("objects", 16 * k, objects)]
