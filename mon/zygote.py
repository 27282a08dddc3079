"""Runs the command line in forks of one interpreter that has everything imported.

Each request is one process: its own descriptors, environment, limits and controlling terminal, `main()` called
at top level the way the console script does, real interpreter finalisation and exit status.
"""
import array
import ctypes
import io
import json
import os
import socket
import struct
import sys
import time

sock = socket.socket(fileno=int(sys.argv[1]))
AGE_DIR = sys.argv[2]

import age.cli  # noqa: E402

if not age.cli.__file__.startswith(AGE_DIR):
    sys.exit(f"age imported from {age.cli.__file__}")

import bcrypt  # noqa: E402,F401
import encodings.idna  # noqa: E402,F401
import getpass  # noqa: E402,F401
import termios  # noqa: E402,F401
import traceback  # noqa: E402,F401


def die_with_parent():
    ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)


die_with_parent()


def receive():
    try:
        hdr, anc, _, _ = sock.recvmsg(4, socket.CMSG_SPACE(64))
    except ConnectionError:
        hdr = b""
    if len(hdr) < 4:
        return None, []
    fds = array.array("i")
    for level, typ, data in anc:
        if level == socket.SOL_SOCKET and typ == socket.SCM_RIGHTS:
            fds.frombytes(data[: len(data) - len(data) % fds.itemsize])
    (n,) = struct.unpack(">I", hdr)
    b = b""
    while len(b) < n:
        b += sock.recv(n - len(b))
    return json.loads(b), list(fds)


def stdio(fd, write, name, unbuffered):
    try:
        os.fstat(fd)
    except OSError:
        return None
    buf = io.open(fd, "wb" if write else "rb", buffering=0 if unbuffered and write else -1, closefd=False)
    raw = buf if unbuffered and write else buf.raw
    raw.name = name
    # as the interpreter does: 'surrogateescape' in the C locales (LC_ALL=C.UTF-8 among them), 'strict' in others
    encoding, _, errors = os.environ.get("PYTHONIOENCODING", "").partition(":")
    return io.TextIOWrapper(
        buf, encoding=encoding or "utf-8", errors="backslashreplace" if fd == 2 else errors or "surrogateescape", newline="\n",
        line_buffering=fd == 2 or (write and raw.isatty()), write_through=bool(unbuffered and write),
    )


def audit_hook(fd):
    def hook(event, args):
        if event in ("open", "socket.connect", "socket.bind", "socket.getaddrinfo", "socket.sendto", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
                     "os.fork", "os.forkpty", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown",
                     "shutil.copyfile", "shutil.move", "tempfile.mkstemp", "tempfile.mkdtemp", "os.putenv", "ctypes.dlopen"):
            os.write(fd, (json.dumps([event, [a if isinstance(a, (int, str, type(None))) else repr(a) for a in args]]) + "\n").encode("utf-8", "surrogateescape"))

    return hook


def child(req, fds):
    """become the process the request describes"""
    sock.close()
    die_with_parent()
    roles = dict(zip(req["fds"], fds))
    os.umask(req.get("umask", 0o022))
    if "tty" in roles:
        import fcntl

        os.setsid()
        fcntl.ioctl(roles["tty"], termios.TIOCSCTTY, 0)
    else:
        os.setsid()
    # out of the way first
    import fcntl

    high = {k: fcntl.fcntl(v, fcntl.F_DUPFD_CLOEXEC, 100) for k, v in roles.items()}
    os.closerange(0, 100)
    for n, k in enumerate(("stdin", "stdout", "stderr")):
        if k in high:
            os.dup2(high[k], n, inheritable=True)
    for k, v in high.items():
        if k not in ("audit", "tty"):
            os.close(v)
    os.environ.clear()
    os.environ.update(req["env"])
    time.tzset()
    os.chdir(req["cwd"])
    if req.get("as"):
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (req["as"], req["as"]))
    sys.stdin = sys.__stdin__ = stdio(0, False, "<stdin>", req.get("unbuffered"))
    sys.stdout = sys.__stdout__ = stdio(1, True, "<stdout>", req.get("unbuffered"))
    sys.stderr = sys.__stderr__ = stdio(2, True, "<stderr>", req.get("unbuffered"))
    sys.argv = ["pyage"] + req["args"]
    if req.get("shim"):
        ctypes.CDLL(None).shim_set(*[ctypes.c_int(req["shim"][0]), ctypes.c_long(req["shim"][1]), ctypes.c_long(req["shim"][2]), *map(ctypes.c_int, req["shim"][3:])])
    if req.get("rshim"):
        r = req["rshim"]
        ctypes.CDLL(None).shim_read(ctypes.c_ulong(r[0]), ctypes.c_long(r[1]), ctypes.c_long(r[2]), ctypes.c_int(r[3]), ctypes.c_int(r[4]))
    if req.get("fsize") is not None:
        import resource

        resource.setrlimit(resource.RLIMIT_FSIZE, (req["fsize"], resource.RLIM_INFINITY))
    if "audit" in high:
        sys.addaudithook(audit_hook(high["audit"]))


while True:
    request, passed = receive()
    if request is None:
        os._exit(0)
    pid = os.fork()
    if pid == 0:
        break
    for f in passed:
        os.close(f)
    try:
        sock.sendall(struct.pack(">i", pid))
        _, status = os.waitpid(pid, 0)
        sock.sendall(struct.pack(">i", os.waitstatus_to_exitcode(status)))
    except OSError:
        os._exit(0)  # the worker is gone

try:
    child(request, passed)
except BaseException as e:
    os._exit(199)
if request.get("module"):
    # python -m age.cli
    import runpy

    del sys.modules["age.cli"]
    runpy.run_module("age.cli", run_name="__main__", alter_sys=True)
else:
    # from here on: the console script
    sys.exit(age.cli.main())
