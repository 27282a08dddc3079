"""Run the real command line: forked from a warm interpreter, or as a fresh process."""
import array
import fcntl
import json
import os
import pty
import select
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import termios
import time

from mon.core import AGE_DIR, CASE_RNG, REPO, VERIF, Inconclusive, die_with_parent

PY = sys.executable
OPT = ["-O"] if sys.flags.optimize else []
_shim = None
_zygote = None


def build_shim():
    """compile the fault-injection library (before the workers are forked)"""
    global _shim
    if _shim is None:
        d = tempfile.mkdtemp(prefix="pyage-shim-")
        _shim = os.path.join(d, "shim.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", _shim, os.path.join(VERIF, "mon", "shim.c"), "-ldl"], check=True)
    return _shim


def drop_shim():
    global _shim
    if _shim:
        os.unlink(_shim)
        os.rmdir(os.path.dirname(_shim))
        _shim = None


class Zygote:
    def __init__(self):
        a, b = socket.socketpair()
        env = {"PATH": "/usr/bin:/bin", "PYTHONPATH": REPO + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"}
        if _shim:
            env["LD_PRELOAD"] = _shim
        self.p = subprocess.Popen([PY, *OPT, os.path.join(VERIF, "mon", "zygote.py"), str(b.fileno()), AGE_DIR], env=env, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, cwd="/")
        b.close()
        self.s = a

    def start(self, req, fds):
        b = json.dumps(req).encode()
        self.s.sendmsg([struct.pack(">I", len(b))], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", fds))])
        self.s.sendall(b)
        return self.read()

    def read(self):
        d = b""
        while len(d) < 4:
            k = self.s.recv(4 - len(d))
            if not k:
                raise RuntimeError("zygote died")
            d += k
        return struct.unpack(">i", d)[0]


def zygote():
    global _zygote
    if _zygote is None or _zygote[0] != os.getpid():
        _zygote = (os.getpid(), Zygote())
    return _zygote[1]


def stop():
    global _zygote
    if _zygote and _zygote[0] == os.getpid():
        _zygote[1].s.close()
        _zygote[1].p.wait()
    _zygote = None


class Result:
    def __init__(self, code, out, err, tty, audit, fed, args):
        self.code, self.out, self.err, self.tty, self.audit, self.fed, self.args = code, out, err, tty, audit, fed, args

    def __repr__(self):
        return f"<exit {self.code}, out {self.out[:60]!r} ({len(self.out)}), err {self.err[-300:]!r}>"


def run(
    args, home, cwd=None, stdin=b"", stdout="pipe", stderr="pipe", passphrase=None, unbuffered=False, fsize=None,
    umask=0o022, env=None, audit=False, shim=None, fresh=False, limit=60, stdin_via="file", steps=None, mem=None, module=None, rshim=None,
):
    """stdin: bytes (given as file or pipe), path, fd or None (closed); stdout/stderr: 'pipe', fd or None (closed).

    module: run as `python -m age.cli` instead of the console script (None: every third time)
    rshim: [inode of the file or 0 for standard input, bytes until the error or -1, bytes per call or -1, errno, interrupt every other call]
    steps: for stdin_via='pipe', a list of ('send', bytes) | ('wait', seconds) | ('probe', fn) | ('kill', sig) | ('eof',)
    """
    cwd = cwd or home
    if module is None:
        module = CASE_RNG.random() < 0.33
    e = {"PATH": "/usr/bin:/bin", "HOME": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONPATH": REPO + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "NO_PROXY": "*"}
    e.update(env or {})
    mine, roles = [], {}
    feed = None
    cleanup = []
    if isinstance(stdin, bytes) and stdin_via == "file" and not steps:
        f = tempfile.TemporaryFile()
        f.write(stdin)
        f.flush()
        os.lseek(f.fileno(), 0, 0)
        roles["stdin"] = f.fileno()
        cleanup.append(f)
    elif isinstance(stdin, bytes):
        r, w = os.pipe()
        os.set_blocking(w, False)
        roles["stdin"] = r
        mine.append(r)
        feed = [w, steps if steps is not None else [("send", stdin), ("eof",)]]
    elif isinstance(stdin, str):
        fd = os.open(stdin, os.O_RDONLY)
        roles["stdin"] = fd
        mine.append(fd)
    elif stdin is not None:
        roles["stdin"] = stdin
    reading = {}
    for name, how in (("stdout", stdout), ("stderr", stderr)):
        if how == "pipe":
            r, w = os.pipe()
            roles[name] = w
            mine.append(w)
            reading[r] = name
        elif how is not None:
            roles[name] = how
    master = None
    if passphrase is not None:
        master, slave = pty.openpty()
        roles["tty"] = slave
        mine.append(slave)
        reading[master] = "tty"
    if audit:
        r, w = os.pipe()
        roles["audit"] = w
        mine.append(w)
        reading[r] = "audit"
    data = {"stdout": bytearray(), "stderr": bytearray(), "tty": bytearray(), "audit": bytearray()}
    to_type = ([passphrase] if isinstance(passphrase, str) else list(passphrase or []))
    typed = 0
    fed = 0
    t_end = time.monotonic() + limit
    last = time.monotonic()
    if fresh:
        pid, wait = _fresh(args, roles, cwd, e, unbuffered, fsize, umask, module)
    else:
        req = {"args": list(args), "fds": list(roles), "env": e, "cwd": cwd, "unbuffered": unbuffered, "fsize": fsize, "umask": umask, "shim": shim, "as": mem, "module": module, "rshim": rshim}
        z = zygote()
        pid = z.start(req, [roles[k] for k in roles])
        wait = z.read
    for fd in mine:
        os.close(fd)
    pause = 0.0
    drain_end = 0
    try:
        while reading or feed:
            now = time.monotonic()
            if now - last > 5:
                # the whole machine stood still
                t_end += now - last
            last = now
            if now > t_end:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                raise Inconclusive(f"command did not finish in {limit} s: {args}")
            wl = []
            if feed and now >= pause:
                if not feed[1]:
                    os.close(feed[0])
                    feed = None
                else:
                    op = feed[1][0]
                    if op[0] == "send":
                        wl = [feed[0]]
                        if not op[1]:
                            feed[1] = feed[1][1:]
                            continue
                    elif op[0] == "wait":
                        pause = now + op[1]
                        feed[1] = feed[1][1:]
                    elif op[0] == "drain":
                        # until the command took what was sent (or ten seconds passed, or it ended)
                        n = struct.unpack("i", fcntl.ioctl(feed[0], termios.FIONREAD, b"\0" * 4))[0]
                        drain_end = drain_end or now + 10
                        if n == 0 or now > drain_end:
                            drain_end = 0
                            feed[1] = feed[1][1:]
                        else:
                            pause = now + 0.01
                    elif op[0] == "probe":
                        op[1]({k: bytes(v) for k, v in data.items()})
                        feed[1] = feed[1][1:]
                    elif op[0] == "kill":
                        try:
                            os.kill(pid, op[1])
                        except OSError:
                            pass
                        feed[1] = feed[1][1:]
                    elif op[0] == "eof":
                        os.close(feed[0])
                        feed = None
            if not reading and not feed:
                break
            rl, wr, _ = select.select(list(reading), wl, [], 0.01 if feed and not wl else 1.0)
            for fd in rl:
                try:
                    b = os.read(fd, 1 << 16)
                except OSError:
                    b = b""
                if not b:
                    if fd != master:
                        os.close(fd)
                    del reading[fd]
                    continue
                data[reading[fd]] += b
            if master is not None and typed < len(to_type) and len(data["tty"]) > 3 * typed:
                os.write(master, to_type[typed].encode() + b"\n")
                typed += 1
                again = time.monotonic() + 3
            elif typed and to_type[typed - 1].endswith("\x03") and master in reading and time.monotonic() > again:
                # an interrupt that came just before the command began to read
                os.write(master, b"\x03\n")
                again = time.monotonic() + 3
            if wr:
                op = feed[1][0]
                try:
                    n = os.write(feed[0], op[1][:65536])
                    fed += n
                    feed[1] = [("send", memoryview(op[1])[n:])] + feed[1][1:] if n < len(op[1]) else feed[1][1:]
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    os.close(feed[0])
                    feed = None
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        wait()
        raise
    finally:
        for fd in reading:
            if fd != master:
                os.close(fd)
        if feed:
            os.close(feed[0])
        if master is not None:
            os.close(master)
        for f in cleanup:
            f.close()
    code = wait()
    if code == 199:
        raise RuntimeError("child could not be set up")
    data = {k: bytes(v) for k, v in data.items()}
    audit_log = [json.loads(x) for x in data["audit"].decode("utf-8", "surrogateescape").splitlines()]
    res = Result(code, data["stdout"], data["stderr"], data["tty"], audit_log, fed, args)
    res.module = module
    return res


def _fresh(args, roles, cwd, env, unbuffered, fsize, umask, module):
    """a fresh interpreter with the same descriptors"""
    pid = os.fork()
    if pid == 0:
        try:
            import resource

            die_with_parent()
            os.umask(umask)
            os.setsid()
            if "tty" in roles:
                fcntl.ioctl(roles["tty"], termios.TIOCSCTTY, 0)
            high = {k: fcntl.fcntl(v, fcntl.F_DUPFD_CLOEXEC, 200) for k, v in roles.items()}
            for n, k in enumerate(("stdin", "stdout", "stderr")):
                if k in high:
                    os.dup2(high[k], n, inheritable=True)
                else:
                    try:
                        os.close(n)
                    except OSError:
                        pass
            os.closerange(3, 200)
            if "tty" in high:
                # held until the end: the terminal hangs up when the process is gone
                os.set_inheritable(high["tty"], True)
            os.chdir(cwd)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
            argv = [PY, *OPT] + (["-u"] if unbuffered else []) + (["-m", "age.cli"] if module else ["-c", "import sys; from age.cli import main; sys.argv[0]='pyage'; sys.exit(main())"]) + list(args)
            os.execve(PY, argv, env)
        finally:
            os._exit(198)
    return pid, lambda: os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
