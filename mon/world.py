"""A scratch home directory for command-line runs, with keys of every kind in the places the program looks."""
import os
import stat

from mon import gen, ref
from mon.core import Inconclusive
from mon.gen import C, EParty, PParty, RParty, SMALL_RSA, XParty, hostile32



class World:
    def __init__(self, ctx, name="home"):
        self.ctx, self.rng = ctx, ctx.rng
        self.home = os.path.join(ctx.tmp, name)
        os.mkdir(self.home, 0o755)
        self.n = 0

    def path(self, name):
        return os.path.join(self.home, name)

    def file(self, data, name=None, mode=0o644):
        if name is None:
            self.n += 1
            name = f"f{self.n}"
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        os.chmod(p, mode)
        return p

    def old(self, p):
        """an old time stamp, so that every rewrite shows"""
        os.utime(p, ns=(10**18, 10**18))
        return p

    # --- identities
    def key_file(self, parts, name=None):
        lines = ["# created: 2020-01-01T00:00:00"]
        for p in parts:
            lines += ["# " + p.cli_recipient, ref.priv_string(p.sk)]
        return self.file("\n".join(lines) + "\n", name, 0o600)

    def default_keys(self, parts):
        return self.key_file(parts, ".config/age/keys.txt")

    def ssh(self, p, name=None):
        self.n += 1
        return self.file(p.pem(), f".ssh/{name or 'id_' + p.kind[4:] + str(self.n)}", 0o600)

    def give(self, p, how=None):
        """install the identity of p; -> (extra arguments, passphrase or None)"""
        if p.kind == "scrypt":
            return ["-p"], p.password.decode()
        if p.kind == "x25519":
            if (how or self.rng.choice(["default", "file"])) == "default":
                self.default_keys([p])
                return [], None
            return [self.key_file([p])], None
        self.ssh(p)
        return [], None

    # --- observation
    def snapshot(self, *more):
        out = {}
        for top in (self.home, *more):
            for d, dirs, files in os.walk(top):
                for n in [*dirs, *files]:
                    p = os.path.join(d, n)
                    s = os.lstat(p)
                    body = None
                    if stat.S_ISREG(s.st_mode):
                        with open(p, "rb") as f:
                            body = f.read()
                    elif stat.S_ISLNK(s.st_mode):
                        body = os.readlink(p)
                    out[p] = (stat.S_IFMT(s.st_mode), s.st_ino, body) + ((s.st_mode, s.st_mtime_ns) if body is not None else ())
        return out


TEXT_PASSWORDS = ["x", "correct horse", "p\u00e4ss w\u00f6rd", " lead", "trail ", "-p", "1234", "'q\"", "\u30d1\u30b9", "a" * 100]


def cli_party(rng, kinds=("x25519", "ssh-ed25519", "ssh-rsa", "scrypt")):
    k = rng.choice(kinds)
    if k == "x25519":
        return XParty(hostile32(rng))
    if k == "ssh-ed25519":
        return EParty(rng.randbytes(32))
    if k == "ssh-rsa":
        return RParty(rng.choice(SMALL_RSA), rng.randrange(3, 1 << 30) | 1)
    return PParty(rng.choice(TEXT_PASSWORDS).encode())


def strange_names(rng, port):
    """names that denote nothing: no key, alias, file, http(s) URL or "github:" user"""
    u = "".join(rng.choice("abcdefghijkmnpqrstuvwxyz") for _ in range(6))
    w = gen.word(rng).strip(":/@") or "x"
    hp = f"127.0.0.1:{port}"
    out = [
        "@" + u, u + "@github.com", f"git@github.com:{u}", f"git@github.com:{u}/keys.git", f"ssh://git@{hp}/{u}", f"ssh://{u}", "gh:" + u, "gl:" + u, "gitlab:" + u, "bitbucket:" + u, "codeberg:" + u, "sourcehut:~" + u, "launchpad:" + u, "lp:" + u,
        "keybase:" + u, "keybase://" + u, "mailto:" + u + "@example.com", f"//{hp}/{u}", f"{hp}/{u}", hp, f"localhost:{port}/{u}", f"localhost:{port}", f"127.0.0.1/{u}", f"ftp://{hp}/{u}", f"sftp://{hp}/{u}", f"file://{hp}/{u}", f"file:///{u}", f"github.com/{u}",
        f"github.com/{u}.keys", "www.example.com", f"{u}.example.com", f"{u}.keys", f"{u}.github.io", f"github/{u}", f"github-{u}", f"github {u}", f"githubs:{u}", f"git:{u}", f"url:{hp}", f"dns:{u}", f"@{hp}", f"<http://{hp}/{u}>", f"(https://{hp}/{u})",
        f"xhttp://{hp}/{u}", f"ht tp://{hp}/{u}", f"http:{hp}/{u}", f"https:/{hp}/{u}", f"httpss://{hp}/{u}", f"http+unix://{hp}", f"data:text/plain,{u}", f"unix:{u}", f"wss://{hp}/", f"ipfs://{u}", f"s3://{u}/{u}", f"doi:10.1/{u}", f"urn:{u}", f"tcp://{hp}", f"+{u}", f"~{u}",
        f"#{u}", f"%{u}", f"={u}", f"!{u}", f"|{u}", f"${u}", f"${{HOME}}", f"`{u}`", f"${{{u}}}", f"*{u}", f"?{u}",
        w + u, f"{w}:{u}", f"{w}@{u}", f"{u}@{w}", f"{w}/{u}", f"{u}:{w}", f"{w}://{hp}/{u}",
    ]
    ok = lambda n: not n.startswith(("github:", "http://", "https://", "-", "age", "ssh-rsa", "ssh-ed25519", "/")) and "\n" not in n and "\0" not in n and not os.path.exists(n)
    return [n for n in out if ok(n)]


def damage(rng, data, controls=False):
    """a file that must not decrypt, with what was done to it"""
    off = ref.parse_header(data)[3]
    ops = ["flip", "flip-payload", "flip-last", "cut", "cut-payload", "cut-1", "cut-tag", "cut-chunk", "extend", "extend-0", "header-only", "nonce-only", "empty", "garbage", "mac", "swap-mac-char", "dup-entry"]
    op = rng.choice(ops)
    b = bytearray(data)
    n = len(data)
    if op == "flip":
        # not in the last characters of a base64 line, where bits are unused by some readers
        i = rng.randrange(n)
        b[i] ^= 1 << rng.randrange(8)
        if off - 2 <= i < off:
            b[n - 1] ^= 1
    elif op == "flip-payload":
        b[rng.randrange(off, n)] ^= 1 << rng.randrange(8)
    elif op == "flip-last":
        b[n - 1 - rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif op == "cut":
        del b[rng.randrange(n) :]
    elif op == "cut-payload":
        del b[rng.randrange(off, n) :]
    elif op == "cut-1":
        del b[n - 1 :]
    elif op == "cut-tag":
        del b[n - 16 :]
    elif op == "cut-chunk":
        k = (n - off - 16 - 1) // (C + 16)
        del b[off + 16 + k * (C + 16) :]
    elif op == "extend":
        b += rng.randbytes(rng.choice([1, 16, 17, 100]))
    elif op == "extend-0":
        b += b"\n"
    elif op == "header-only":
        del b[off:]
    elif op == "nonce-only":
        del b[off + 16 :]
    elif op == "empty":
        b.clear()
    elif op == "garbage":
        b = bytearray(rng.randbytes(rng.randrange(1, 300)))
    elif op == "mac":
        i = off - 1 - rng.randrange(3, 40)
        b[i : i + 1] = b"A" if b[i : i + 1] != b"A" else b"B"
    elif op == "swap-mac-char":
        i = off - 1 - rng.randrange(3, 40)
        b[i : i + 1] = b"z" if b[i : i + 1] != b"z" else b"y"
    elif op == "dup-entry":
        i = data.index(b"\n") + 1
        j = data.find(b"\n-> ", i)
        j = data.find(b"\n--- ") + 1 if j < 0 else j + 1
        b[i:i] = data[i:j]
    if bytes(b) == data:
        raise Inconclusive("no damage done")
    return op, bytes(b)
