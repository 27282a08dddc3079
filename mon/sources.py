"""Binary streams of every kind that deliver the same bytes."""
import bz2
import contextlib
import gzip
import io
import lzma
import os
import socket
import tarfile
import tempfile
import threading
import zipfile


@contextlib.contextmanager
def _compressed(module, data, rng):
    with tempfile.TemporaryFile() as t:
        t.write(module.compress(data))
        t.flush()
        t.seek(0)
        opener = gzip.GzipFile(fileobj=t) if module is gzip else module.open(t, "rb")
        with opener as f:
            yield f


@contextlib.contextmanager
def _zip(data, rng):
    with tempfile.TemporaryFile() as t:
        with zipfile.ZipFile(t, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            z.writestr("other", b"x" * rng.randrange(100))
            z.writestr("member", data)
        with zipfile.ZipFile(t) as z, z.open("member") as f:
            yield f


@contextlib.contextmanager
def _tar(data, rng):
    with tempfile.TemporaryFile() as t:
        with tarfile.open(fileobj=t, mode="w") as a:
            for name, content in (("before", b"y" * rng.randrange(2000)), ("member", data), ("after", b"z" * 100)):
                i = tarfile.TarInfo(name)
                i.size = len(content)
                a.addfile(i, io.BytesIO(content))
        t.seek(0)
        with tarfile.open(fileobj=t) as a:
            yield a.extractfile("member")


@contextlib.contextmanager
def _spooled(data, rng):
    with tempfile.SpooledTemporaryFile(max_size=rng.choice([1, 1 << 20])) as f:
        f.write(data)
        f.seek(0)
        yield f


@contextlib.contextmanager
def _named(data, rng):
    with tempfile.NamedTemporaryFile() as f:
        f.write(data)
        f.seek(0)
        yield f


@contextlib.contextmanager
def _socket(data, rng):
    a, b = socket.socketpair()

    def feed():
        with contextlib.suppress(OSError):
            b.sendall(data)
            b.shutdown(socket.SHUT_WR)

    t = threading.Thread(target=feed)
    t.start()
    try:
        with a.makefile("rb") as f:
            yield f
    finally:
        a.close()
        t.join()
        b.close()


@contextlib.contextmanager
def _inside(data, rng, file=False):
    """the data behind other data, the stream stands at its first byte"""
    junk = rng.choice([b"\0", b"junk\n", b"age-encryption.org/v1\n", b"age-encryption.org/v1\n-> X25519 a\nb\n", rng.randbytes(700), data[: rng.randrange(len(data) + 1)]])
    f = tempfile.TemporaryFile() if file else io.BytesIO()
    with f:
        f.write(junk + data)
        f.seek(len(junk))
        yield f


@contextlib.contextmanager
def _updated(data, rng):
    """open for reading and writing"""
    fd, path = tempfile.mkstemp()
    os.write(fd, data)
    os.close(fd)
    try:
        with open(path, "r+b", buffering=rng.choice([0, -1, 100])) as f:
            yield f
    finally:
        os.unlink(path)


@contextlib.contextmanager
def _expanded(data, rng):
    """what is delivered is longer than the file it is made from (a decoder above a file)"""
    with tempfile.TemporaryFile() as t:
        t.write(b"x" * rng.randrange(1, 40))
        t.flush()

        class Decoded(io.BytesIO):
            def fileno(self):
                return t.fileno()

        with Decoded(data) as f:
            yield f


KINDS = {
    "expanded": _expanded,
    "gzip": lambda d, r: _compressed(gzip, d, r),
    "bz2": lambda d, r: _compressed(bz2, d, r),
    "lzma": lambda d, r: _compressed(lzma, d, r),
    "zip": _zip,
    "tar": _tar,
    "spooled": _spooled,
    "named": _named,
    "socket": _socket,
    "inside": _inside,
    "inside-file": lambda d, r: _inside(d, r, True),
    "updated": _updated,
}
