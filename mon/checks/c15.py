"""C15 recipient names resolve to exactly the keys they denote"""
import http.server
import io
import os
import socket
import sys
import threading
import urllib.parse

import requests

import age.cli
from age.keyloader import load_aliases, resolve_public_key

from mon import gen, ref
from mon.core import Violation
from mon.world import strange_names

PROPERTY = "C15"
RULE = (
    "a case = a world of key files, aliases, URLs (a loopback HTTP server and a stand-in for https) and github users, and "
    "encryptions to names in it; the written entries are opened with the expected keys in the expected order while audit "
    "hooks record every file opened and every request; distinct = (recipient list shape, expected keys)"
)
ASSUMPTIONS = [
    "requests go through `requests`; other sockets would be seen by the connect monitor",
    "lines that are no key at all (comments, blank, other SSH key types) may be ignored; SSH keys cannot be alias members",
]
REQUIRED = {
    "encryptions": 150, "entries_opened": 400, "aliases": 80, "files": 80, "urls": 60, "github": 60, "failing": 300,
    "inert_lines": 200, "requests_seen": 120, "opens_seen": 300, "duplicates": 20, "many_keys": 10_000, "strange_names": 500, "shadowed": 3,
}

# ---------------------------------------------------------------------- monitors
_state = {"on": False, "opens": [], "connects": [], "other": []}
SITE = {}  # path -> (status, body, headers)
HTTPS = {}  # url -> (status, body) or an exception
SEEN = []  # urls asked for
PORT = None


def _hook(event, args):
    if not _state["on"]:
        return
    if event == "open":
        _state["opens"].append(args[0])
    elif event == "socket.connect":
        _state["connects"].append(args[1])
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork"):
        _state["other"].append(event)


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        SEEN.append(f"http://127.0.0.1:{PORT}{self.path}")
        status, body, headers = SITE.get(self.path, (404, b"not found", {}))
        self.send_response(status)
        for k, v in headers.items():
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


def worker_init():
    global PORT
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    srv.daemon_threads = True
    PORT = srv.server_address[1]
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    real = requests.adapters.HTTPAdapter.send

    def send(self, request, *a, **kw):
        if request.url.startswith((f"http://127.0.0.1:{PORT}/", f"http://127.0.0.1:{PORT}#")):
            return real(self, request, *a, **kw)
        # what is sent has no fragment
        url = urllib.parse.urldefrag(request.url)[0]
        SEEN.append(url)
        r = HTTPS.get(url, requests.exceptions.ConnectionError("no network"))
        if isinstance(r, Exception):
            raise r
        resp = requests.Response()
        resp.status_code, resp._content = r
        resp.url, resp.request, resp.encoding = request.url, request, "utf-8"
        resp.reason = "x"
        return resp

    requests.adapters.HTTPAdapter.send = send
    for v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(v, None)
    os.environ["NO_PROXY"] = "*"
    sys.addaudithook(_hook)


class watched:
    def __enter__(self):
        _state.update(on=True, opens=[], connects=[], other=[])
        SEEN.clear()
        return self

    def __exit__(self, *a):
        _state["on"] = False
        self.opens, self.connects, self.other = _state["opens"], _state["connects"], _state["other"]
        self.urls = list(SEEN)


# ---------------------------------------------------------------------- world
class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.dir = os.path.join(ctx.tmp, f"w{ctx.rng.randrange(10**9)}")
        os.makedirs(self.dir + "/home/.config/age")
        self.n = 0
        self.aliases = {}
        self.shadowed = []
        self.redirected = {}
        SITE.clear()
        HTTPS.clear()

    def name(self, stem="f"):
        self.n += 1
        return f"{stem}{self.n}"

    def key(self, kinds=("x25519", "x25519", "ssh-ed25519", "ssh-rsa")):
        k = self.rng.choice(kinds)
        if k == "ssh-rsa":
            return gen.RParty(self.rng.choice(gen.SMALL_RSA), self.rng.randrange(3, 1 << 30) | 1)
        return gen.party(self.rng, (k,))

    def line(self, p):
        s = p.cli_recipient
        if p.kind.startswith("ssh"):
            s += self.rng.choice(["", " user@host", " a b c", " age1xyz", " # x"])
        return self.rng.choice(["", "", "", " ", "\t"]) + s + self.rng.choice(["", "", " ", "\t"])

    def listing(self, keys):
        """text that lists exactly these keys, with comments and blank lines"""
        rng = self.rng
        lines = []
        for p in keys:
            for _ in range(rng.randrange(3)):
                lines.append(rng.choice(["", " ", "# comment", "#age1abc", "# ssh-rsa AAAA", "# " + self.key(("x25519",)).cli_recipient, "# \u00fcber"]))
            lines.append(self.line(p))
        if rng.random() < 0.3:
            lines.append("# end")
        nl = rng.choice(["\n", "\n", "\r\n"])
        return nl.join(lines) + (nl if rng.random() < 0.8 else "")

    def file(self, keys, text=None, stem=None):
        p = os.path.join(self.dir, self.name(stem or self.rng.choice(["keys", "k e y s ", "\u00fc", "age", "ssh-rsa", "x.pub", "keys", "a#b", "#keys", "c:d", "e=f&g", "%41", "$HOME", "~x", "it's", "x,y", "[z]", "*"])))
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(self.listing(keys) if text is None else text)
        self.ctx.count("files")
        return p

    def url(self, keys, text=None, status=200, headers=None, moved=False):
        body = (self.listing(keys) if text is None else text).encode()
        k = self.rng.random()
        if moved:
            # the keys have moved: a chain of redirections, absolute and relative
            path = "/" + self.name("moved")
            SITE[path] = (status, body, headers or {"Content-Type": "text/plain; charset=utf-8"})
            via = [f"http://127.0.0.1:{PORT}{path}"]
            for _ in range(self.rng.randrange(1, 4)):
                to, path = path, "/" + self.name("old")
                other = self.listing(self.some_keys()).encode() if self.rng.random() < 0.5 else b"see there"
                SITE[path] = (self.rng.choice([301, 302, 303, 307, 308]), other, {"Location": self.rng.choice([to, f"http://127.0.0.1:{PORT}{to}", to.lstrip("/")])})
                via.append(f"http://127.0.0.1:{PORT}{path}")
            u = via.pop()
            self.redirected[u] = via
            self.ctx.count("redirected")
        elif k < 0.6:
            path = "/" + self.name("u") + self.rng.choice(["", ".keys", "?a=b", "/x/y"])
            SITE[path] = (status, body, headers or {"Content-Type": "text/plain; charset=utf-8"})
            u = f"http://127.0.0.1:{PORT}{path}"
        else:
            u = f"https://keys.example/{self.name('u')}"
            HTTPS[u] = (status, body)
        self.ctx.count("urls")
        return u

    def github(self, keys, text=None, status=200):
        user = self.name(self.rng.choice(["alice", "Bob-", "x"]))
        HTTPS[f"https://github.com/{user}.keys"] = (status, (self.listing(keys) if text is None else text).encode())
        self.ctx.count("github")
        return "github:" + user, f"https://github.com/{user}.keys"

    def alias(self, members):
        a = self.name(self.rng.choice(["alice", "bob.smith", "team-", "\u00fcber", "a/b", "age-team", "Alice", "x@y", "t m "]))
        self.aliases[a] = members
        self.ctx.count("aliases")
        return a

    def some_keys(self, lo=1, hi=4):
        return [self.key() for _ in range(self.rng.randrange(lo, hi))]

    def spec(self, depth=0):
        """-> (recipient string, expected keys, urls it may ask for)"""
        rng = self.rng
        k = rng.randrange(6 if depth == 0 else 4)
        if depth and k == 0 or k == 5:
            p = self.key(("x25519",) if depth else ("x25519", "ssh-ed25519", "ssh-rsa"))
            s = p.cli_recipient
            if not depth and p.kind != "x25519" and rng.random() < 0.5:
                s += " comment"
            if not depth and rng.random() < 0.2:
                s = " " + s + "\n"
            return s, [p], []
        if k == 0:
            members, keys, urls = [], [], []
            for _ in range(rng.randrange(1, 4)):
                m, ks, us = self.spec(1)
                if " " in m:
                    continue
                members.append(m)
                keys += ks
                urls += us
            if not keys:
                return self.spec(depth)
            if rng.random() < 0.15:
                # aliases come first, also when a file has the same name
                label = self.file(self.some_keys(), stem=rng.choice(["team", "bob"]))
                label = os.path.relpath(label) if rng.random() < 0.5 else label
                self.aliases[label] = members
                self.shadowed.append(label)
                self.ctx.count("shadowed")
                return label, keys, urls
            return self.alias(members), keys, urls
        if k == 1:
            ks = self.some_keys()
            p = self.file(ks)
            return os.path.relpath(p) if rng.random() < 0.2 else p, ks, []
        if k == 2:
            ks = self.some_keys()
            u = self.url(ks, moved=rng.random() < 0.3)
            return u + rng.choice(["", "", "#", "#frag", "#a:b"]), ks, [u, *self.redirected.get(u, [])]
        if k == 3:
            ks = self.some_keys()
            g, u = self.github(ks)
            return g, ks, [u]
        p = self.key()
        return p.cli_recipient, [p], []

    def write_aliases(self):
        rng = self.rng
        lines = []
        for a, members in self.aliases.items():
            if rng.random() < 0.3 and len(members) > 1:
                # the same alias on two lines
                c = rng.randrange(1, len(members))
                lines.append((a, members[:c]))
                lines.append((a, members[c:]))
            else:
                lines.append((a, members))
        text = ""
        for a, ms in lines:
            if rng.random() < 0.3:
                text += rng.choice(["\n", "# comment\n", "  \n", "# x: age1abc\n"])
            text += f"{a}:{rng.choice(['', ' ', '  '])}{rng.choice([' ', '  ', chr(9)]).join(ms)}{rng.choice(['', ' '])}\n"
        self.alias_path = self.dir + "/home/.config/age/aliases.txt"
        with open(self.alias_path, "w", encoding="utf-8") as f:
            f.write(text)

    def encrypt(self, recipients, data=b"hello"):
        """-> (output, what failed or None, monitor)"""
        self.write_aliases()
        out = io.BytesIO()
        old = os.environ.get("HOME")
        os.environ["HOME"] = self.dir + "/home"
        err = None
        w = watched()
        try:
            with gen.muted(), w:
                try:
                    age.cli.encrypt(recipients=list(recipients), infile=io.BytesIO(data), outfile=out)
                except SystemExit as e:
                    err = e
                    if e.code in (0, None):
                        raise Violation("encryption stopped with exit status 0", recipients=recipients)
                except Exception as e:
                    err = e
        finally:
            os.environ["HOME"] = old or "/root"
        self.ctx.count("requests_seen", len(w.urls))
        self.ctx.count("opens_seen", len(w.opens))
        return out.getvalue(), err, w


def judge(ctx, ct, keys, what):
    sts, _, _, off = ref.parse_header(ct)
    ctx.equal([s.type for s in sts], [{"x25519": "X25519"}.get(p.kind, p.kind) for p in keys], f"{what}: entries written")
    fks = set()
    for i, (s, p) in enumerate(zip(sts, keys)):
        try:
            fks.add(p.unwrap(s))
        except Exception as e:
            raise Violation(f"{what}: entry {i} is not for key {i} of the {len(keys)} it lists ({type(e).__name__})")
        ctx.count("entries_opened")
    ctx.equal(len(fks), 1, "file keys")
    ctx.equal(ref.open_payload(ct, off, fks.pop()), b"hello", "plaintext")


def resolved(ctx):
    """any list of recipients: exactly their keys, in order"""
    rng = ctx.rng
    w = World(ctx)
    specs = [w.spec() for _ in range(rng.randrange(1, 5))]
    if rng.random() < 0.3:
        specs.append(rng.choice(specs))
        ctx.count("duplicates")
    # things that must not be touched
    w.url([w.key()]), w.file([w.key()])
    w.alias([w.key(("x25519",)).cli_recipient])
    names = [s for s, _, _ in specs]
    keys = [k for _, ks, _ in specs for k in ks]
    ct, err, mon = w.encrypt(names)
    if err is not None:
        raise Violation(f"encryption to {len(keys)} listed keys failed: {err!r}", recipients=names, aliases=w.aliases)
    judge(ctx, ct, keys, "recipients")
    ctx.equal(sorted(mon.urls), sorted(u for _, _, us in specs for u in us), "URLs asked for", recipients=names)
    ctx.equal(mon.other, [], "processes")
    named = {os.path.realpath(n) for n in [w.alias_path, *names, *(x for m in w.aliases.values() for x in m)] if n not in w.shadowed}
    bad = [p for p in mon.opens if isinstance(p, str) and os.path.realpath(p).startswith(w.dir) and os.path.realpath(p) not in named]
    ctx.equal(bad, [], "files opened that nobody named")
    ctx.count("encryptions")
    p = rng.choice(keys)
    ctx.equal(gen.age_decrypt([p.identity], ct), b"hello", "decryption by a listed key")
    ctx.eval(("resolved", tuple(type(n) and n[:6] for n in names), tuple(map(repr, keys))))
    ctx.sample(recipients=names, keys=keys)


def unresolvable(ctx):
    """one bad recipient among good ones: failure, no output"""
    rng = ctx.rng
    w = World(ctx)
    good = [w.key().cli_recipient, w.file([w.key()]), w.key().cli_recipient]
    k = ref.pub_string(ref.x25519_base(ctx.bytes(32)))
    broken = k[:-1] + ("q" if k[-1] != "q" else "p")
    e = gen.EParty(ctx.bytes(32)).ssh_line
    r = gen.RParty(gen.SMALL_RSA[0]).ssh_line
    os.mkdir(w.dir + "/directory")
    closed = socket.socket()
    closed.bind(("127.0.0.1", 0))
    bad = {
        "unknown name": "nobody", "empty": "", "blank": "  ", "missing file": w.dir + "/missing", "directory": w.dir + "/directory",
        "malformed age key": broken, "truncated age key": k[:-5], "secret key": ref.priv_string(ctx.bytes(32)), "private prefix": "age-secret-key-1xyz", "age alone": "age", "age1 alone": "age1",
        "malformed SSH key": e[:-8], "malformed RSA key": r[: len(r) // 2], "ssh-rsa alone": "ssh-rsa", "ssh-ed25519 alone": "ssh-ed25519", "garbage SSH key": "ssh-ed25519 AAAA", "type mismatch": "ssh-rsa " + e.split()[1],
        "other SSH type": "ecdsa-sha2-nistp256 AAAAE2VjZHNhLXNoYTItbmlzdHAyNTYAAAAIbmlzdHAyNTYAAABBBA==", "empty file": w.file([], ""), "comment-only file": w.file([], "# nothing\n\n"),
        "file with a malformed age key": w.file([], w.key(("x25519",)).cli_recipient + "\n" + broken + "\n"), "file with a malformed age key first": w.file([], broken + "\n" + w.key(("x25519",)).cli_recipient + "\n"),
        "file with a malformed SSH key": w.file([], w.key(("x25519",)).cli_recipient + "\nssh-ed25519 AAAA\n"), "file with a malformed RSA key": w.file([], r[:-20] + "\n" + w.key().cli_recipient),
        "URL 404": w.url([w.key()], status=404), "URL 500": w.url([w.key()], status=500), "URL 403": w.url([w.key()], status=403), "URL empty": w.url([], ""), "URL with comments only": w.url([], "# x\n"),
        "URL with a malformed key": w.url([], w.key(("x25519",)).cli_recipient + "\n" + broken + "\n"), "URL refused": f"http://127.0.0.1:{closed.getsockname()[1]}/x", "URL without network": "https://nowhere.example/k",
        "github 404": w.github([w.key()], status=404)[0], "github empty": w.github([], "")[0], "github with a malformed key": w.github([], broken + "\n")[0], "github nobody": "github:nobody-at-all", "github alone": "github:", "ftp URL": "ftp://127.0.0.1/x",
        "empty alias": w.alias([]), "alias with an unknown member": w.alias([k, "nobody"]), "alias with an unknown first member": w.alias(["nobody", k]), "alias with a malformed key": w.alias([k, broken]),
        "alias with a missing file": w.alias([k, w.dir + "/missing2"]), "alias with an empty file": w.alias([w.file([], ""), k]) if True else None, "alias with a failing URL": w.alias([k, w.url([w.key()], status=404)]), "alias with an empty URL": w.alias([k, w.url([], "\n")]),
        "alias with a failing github user": w.alias([k, "github:nobody-at-all2"]), "alias of itself": None,
    }
    a = w.name("self")
    w.aliases[a] = [a]
    bad["alias of itself"] = a
    # file names with blanks cannot be alias members
    for n in list(w.aliases):
        if any(" " in m for m in w.aliases[n]):
            w.aliases[n] = [m.replace(" ", "_") for m in w.aliases[n]]
    items = sorted(bad.items())
    rng.shuffle(items)
    for what, name in items[:14]:
        shape = rng.randrange(4)
        rec = [[name], good[:1] + [name], [name] + good[:1], good[:2] + [name] + good[2:]][shape]
        ct, err, mon = w.encrypt(rec)
        if err is None:
            raise Violation(f"encryption succeeded although a recipient cannot be resolved: {what}", recipients=rec, aliases=w.aliases.get(name))
        ctx.equal(ct, b"", f"output although a recipient cannot be resolved: {what}")
        ctx.count("failing")
        ctx.eval(("bad", what, shape))
    for name in rng.sample(strange_names(rng, PORT), 24):
        ct, err, mon = w.encrypt([name] if rng.random() < 0.5 else [good[0], name])
        if err is None or ct:
            raise Violation("encryption succeeded although a recipient cannot be resolved", recipient=name)
        ctx.equal(mon.urls, [], "URLs asked for because of a name that is none", name=name)
        ctx.equal([x for x in mon.connects], [], "connections because of a name that is none", name=name)
        ctx.equal(mon.other, [], "processes started because of a name", name=name)
        ctx.count("strange_names")
        ctx.eval(("strange", name.split(":")[0].split("@")[0][:8]))
    closed.close()
    ct, err, mon = w.encrypt([])
    ctx.check(err is not None and ct == b"", "encryption to nobody succeeded")


def inert(ctx):
    """lines of files and responses are keys or nothing: no alias, file or URL behind them"""
    rng = ctx.rng
    w = World(ctx)
    victim = w.key(("x25519",))
    planted = {
        "alias": w.alias([victim.cli_recipient]), "file": w.file([victim], stem="victim"), "url": None, "https": "https://keys.example/planted", "github": w.github([victim])[0],
    }
    SITE["/planted"] = (200, victim.cli_recipient.encode(), {})
    planted["url"] = f"http://127.0.0.1:{PORT}/planted"
    HTTPS["https://keys.example/planted"] = (200, victim.cli_recipient.encode())
    os.symlink(planted["file"], w.dir + "/link")
    planted["link"] = w.dir + "/link"
    rel = os.path.relpath(planted["file"])
    planted["relative"] = rel
    for kind, text in planted.items():
        mine = w.some_keys()
        lines = [w.line(p) for p in mine]
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(["", " ", "\t"]) + text + rng.choice(["", " "]))
        body = "\n".join(lines) + "\n"
        carrier = rng.choice(["file", "url", "github", "alias file", "alias url"])
        if carrier == "github":
            src, u = w.github([], body)
            allowed = [u]
        elif "url" in carrier:
            src = w.url([], body)
            allowed = [src]
        else:
            src = w.file([], body, stem="carrier")
            allowed = []
        if carrier.startswith("alias"):
            src = w.alias([src])
        ct, err, mon = w.encrypt([src])
        ctx.check(err is not None or ct, "neither a result nor an error")
        if err is None:
            judge(ctx, ct, mine, f"{carrier} with a line naming a {kind}")
        else:
            ctx.equal(ct, b"", "output of a failed encryption")
        ctx.equal([u for u in mon.urls if u not in allowed], [], f"URLs asked for because of a line in a {carrier}", line=text)
        ctx.check(not any(isinstance(p, str) and os.path.realpath(p) == os.path.realpath(planted["file"]) for p in mon.opens), f"file opened because of a line in a {carrier}", line=text)
        ctx.count("inert_lines")
        ctx.eval(("inert", kind, carrier))
        # nothing but such a line: nothing to encrypt to
        src = w.file([], text + "\n", stem="only")
        ct, err, mon = w.encrypt([src])
        ctx.check(err is not None and ct == b"", f"a file whose only line names a {kind} was accepted as recipient")
        ctx.equal(mon.urls, [], "URLs asked for")
        ctx.count("inert_lines")


def flags(ctx):
    """the resolver's switches"""
    rng = ctx.rng
    w = World(ctx)
    p, q = w.key(), w.key(("x25519",))
    f, u, (g, gu) = w.file([p]), w.url([p]), w.github([p])
    al = {"alice": [q.cli_recipient]}
    with watched() as mon, gen.muted():
        for kw in (dict(read_files=False), dict(read_files=False, read_aliases=False), dict(read_files=False, read_urls=False)):
            try:
                got = resolve_public_key(f, aliases=al, **kw)
            except Exception:
                got = []
            ctx.equal(list(got), [], "file read although files are disabled")
        for name in (u, g):
            try:
                got = resolve_public_key(name, aliases=al, read_urls=False)
            except Exception:
                got = []
            ctx.equal(list(got), [], "URL used although URLs are disabled", name=name)
        try:
            got = resolve_public_key("alice", aliases=al, read_aliases=False)
        except Exception:
            got = []
        ctx.equal(list(got), [], "alias used although aliases are disabled")
    ctx.equal(mon.urls, [], "requests although URLs are disabled")
    ctx.check(f not in mon.opens, "file opened although files are disabled")
    # and with everything enabled
    for name, want in ((f, p), (u, p), (g, p), ("alice", q), (p.cli_recipient, p), ("  " + q.cli_recipient + "\n", q)):
        got = ctx.must(f"resolving {name!r}", resolve_public_key, name, aliases=al)
        ctx.check(list(got) == [want.recipient], f"{name!r} does not denote its key", got=got)
    ctx.eval(("flags", repr(p)))


def alias_file(ctx):
    rng = ctx.rng
    w = World(ctx)
    for i in range(rng.randrange(1, 6)):
        w.alias([w.key(("x25519",)).cli_recipient for _ in range(rng.randrange(0, 4))] + rng.choice([[], ["github:x"], ["https://h:8080/p:q"], ["/a:b"]]))
    w.write_aliases()
    got = load_aliases(w.alias_path)
    ctx.equal({k: list(v) for k, v in got.items()}, w.aliases, "alias file")
    ctx.equal(dict(load_aliases(w.dir + "/none")), {}, "missing alias file")
    ctx.eval(("aliases", tuple(w.aliases)))


COUNTS = [17, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 4096, 5000]


def many(ctx):
    """files, responses, aliases and argument lists of any length"""
    rng = ctx.rng
    w = World(ctx)
    for how in ("file", "url", "github", "alias", "alias-file", "arguments"):
        n = rng.choice(COUNTS) if rng.random() < 0.7 else gen.number(rng, 2, 6000, 100)
        if how == "arguments":
            n = min(n, 600)
        pubs = [ref.pub_string(ref.x25519_base(ctx.bytes(32)) if how == "arguments" else ctx.bytes(32)) for _ in range(n)]
        for _ in range(rng.randrange(3)):
            # repeated ones count as often as they are listed
            pubs[rng.randrange(n)] = rng.choice(pubs)
        want = list(pubs)
        lines = []
        spaced = rng.random() < 0.4
        for s in pubs:
            if spaced:
                lines += rng.choice([[], [], [""], ["# " + "x" * rng.choice([1, 100])], [""] * 30])
            lines.append(s)
        if rng.random() < 0.5:
            k = rng.choice([1000, 8191, 8192, 8193, 65536, 200_000])
            lines.insert(rng.randrange(len(lines) + 1), "#" + rng.choice("x \u00fc") * k)
        if rng.random() < 0.3:
            i = rng.randrange(len(lines) + 1)
            lines[i:i] = ["# comment"] * gen.number(rng, 100, 20_000, 3000)
        text = "\n".join(lines) + rng.choice(["", "\n"])
        ws = w.rng.choice(["", " ", "\t"])
        if how == "file":
            src = w.file([], text)
        elif how == "url":
            src = w.url([], text)
        elif how == "github":
            src, _ = w.github([], text)
        elif how == "alias":
            src = w.alias(pubs)
        elif how == "alias-file":
            src = w.alias([w.file([], text, stem="listed")])
        w.write_aliases()
        if how == "arguments":
            out, err, _ = w.encrypt(pubs)
            if err is not None:
                raise Violation(f"encryption to {n} keys failed: {err!r}")
            sts = ref.parse_header(out)[0]
            ctx.equal(len(sts), n, "entries written for the arguments")
            ctx.count("many_keys", n)
            ctx.eval(("many", how, n))
            continue
        with gen.muted():
            got = ctx.must(f"{how} with {n} keys", resolve_public_key, ws + src + ws, aliases=load_aliases(w.alias_path))
        ctx.equal([k.public_string() for k in got], want, f"keys listed by a {how} of {n} keys, in order", lines=len(lines), size=len(text))
        ctx.count("many_keys", n)
        ctx.eval(("many", how, n))
    # many aliases
    n = rng.choice([100, 1000, 3000])
    w.aliases.clear()
    want = {f"name{i}": ref.pub_string(ctx.bytes(32)) for i in range(n)}
    w.aliases.update({k: [v] for k, v in want.items()})
    w.write_aliases()
    al = load_aliases(w.alias_path)
    for k in rng.sample(sorted(want), 20) + ["name0", f"name{n - 1}"]:
        got = ctx.must("resolving an alias", resolve_public_key, k, aliases=al)
        ctx.equal([x.public_string() for x in got], [want[k]], f"one of {n} aliases")
    ctx.eval(("many-aliases", n))


def families(tier):
    q = tier == "quick"
    return [
        ("resolved", 180 if q else 6000, resolved),
        ("unresolvable", 30 if q else 800, unresolvable),
        ("inert", 24 if q else 800, inert),
        ("flags", 8 if q else 200, flags),
        ("many", 16 if q else 300, many),
        ("alias_file", 16 if q else 400, alias_file),
    ]
