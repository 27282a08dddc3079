"""C26 streams honour every history of file operations"""
import contextlib
import gc
import io
import os
import shutil
import tempfile

from age.file import Decryptor, Encryptor
from age.keys.agekey import AgePublicKey
from age.keys.base import EncryptionKey
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput

from mon import gen, ref
from mon.core import Violation

PROPERTY = "C26"
RULE = (
    "a case = a generated history of operations on an encryptor, an armor writer or both stacked (writes of every bytes-like type, "
    "mutated afterwards, flushes, refused operations, context exits, closes, disposal, wrappers of the io module), judged against a "
    "log of accepted bytes by the strict reference after the first close and after every later step; histories of reads on decryptors "
    "and armor readers judged against io.BytesIO; constructions that fail, judged by what the target holds for ever after; "
    "distinct = history"
)
ASSUMPTIONS = [
    "stream objects are used as io streams by one thread; targets are append-only binary streams",
    "an armor writer offers no context manager (it never did), so that operation is expected to be accepted or refused, not to work",
]
REQUIRED = {
    "writer_histories": 1500, "reader_histories": 600, "op:write": 6000, "op:flush": 300, "op:close-again": 600, "op:write-after-close": 600,
    "op:mutate": 600, "op:with": 60, "op:with-exception": 30, "op:del": 150, "op:wrap-buffered": 60, "op:copyfileobj": 60, "op:refused-write": 300,
    "failed_constructions": 300, "failing_targets": 100, "failing_closes": 120, "short_reads": 80, "short_targets": 120, "read-ops": 6000, "second-result": 200, "stack": 200, "occupied": 100, "late-gc": 300, "cycle": 30, "left_by_exception": 200, "left_otherwise": 250,
}


class Boom(Exception):
    pass


# ---------------------------------------------------------------------- targets
class ShortRaw(io.RawIOBase):
    """an unbuffered target that accepts only a part of what it is given, as pipes and sockets do"""

    def __init__(self, rng, most):
        self.rng, self.most, self.data, self.part = rng, most, bytearray(), 0

    def writable(self):
        return True

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        b = bytes(b)
        n = min(len(b), self.rng.randint(1, self.most))
        self.part += n < len(b)
        self.data += b[:n]
        return n


class ShortSource(io.RawIOBase):
    """an unbuffered source that returns only a part of what it is asked for"""

    def __init__(self, rng, data, most):
        self.rng, self.data, self.most, self.pos, self.part = rng, data, most, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.rng.randint(1, self.most))
        self.part += n < min(len(b), len(self.data) - self.pos)
        got = self.data[self.pos : self.pos + n]
        b[: len(got)] = got
        self.pos += len(got)
        return len(got)


class Target:
    """an append-only stream with a view on what it holds"""

    def __init__(self, ctx, kind):
        self.kind = kind
        if kind == "bytesio":
            self.f = io.BytesIO()
        elif kind == "short":
            self.f = ShortRaw(ctx.rng, ctx.rng.choice([1, 2, 7, 16, 60, 65, 300, 5000]))
        else:
            fd, self.path = tempfile.mkstemp(dir=ctx.tmp)
            self.f = os.fdopen(fd, "w+b", {"file": -1, "raw": 0, "smallbuf": 16}[kind])

    def content(self):
        if self.kind == "bytesio":
            return self.f.getvalue()
        if self.kind == "short":
            return bytes(self.f.data)
        self.f.flush()
        with open(self.path, "rb") as f:
            return f.read()

    def put(self, data):
        """the owner of the target writes"""
        if self.kind == "short":
            while data:
                data = data[self.f.write(data) :]
        else:
            self.f.write(data)

    def visible(self):
        """without touching the stream"""
        if self.kind == "bytesio":
            return self.f.getvalue()
        if self.kind == "short":
            return bytes(self.f.data)
        with open(self.path, "rb") as f:
            return f.read()


def opened(kind, content, p):
    """the one complete result in content, in the eyes of the strict reference"""
    data = content
    if kind in ("armor", "stack"):
        text = data.decode("ascii")
        data = ref.dearmor_strict(text)
    if kind in ("enc", "stack"):
        data = ref.ref_open(data, p) if hasattr(ref, "ref_open") else gen.ref_open(data, p)
    return data


def chunk(rng):
    r = rng.random()
    if r < 0.12:
        return b""
    if r < 0.85:
        return rng.randbytes(rng.choice([1, 2, 3, 15, 16, 47, 48, 49, 64, 100, 1000]))
    return rng.randbytes(rng.choice([4096, 8192, 8193, 20000, 65535, 65536, 65537]))


class Writer:
    """the stream under test, the accepted bytes, and the oracle"""

    def __init__(self, ctx, kind, target, p):
        self.ctx, self.rng, self.kind, self.t, self.p = ctx, ctx.rng, kind, target, p
        self.base = target.content()
        self.accepted = []
        self.history = []
        self.closed = False
        self.final = None
        self.inner = None
        if kind == "enc":
            self.s = Encryptor([p.recipient], target.f)
        elif kind == "armor":
            self.s = AsciiArmoredOutput(ref.LABEL, target.f)
        else:
            self.inner = AsciiArmoredOutput(ref.LABEL, target.f)
            self.s = Encryptor([p.recipient], self.inner)

    def log(self, op, *a):
        self.history.append((op, *a))
        self.ctx.count("op:" + op)

    def fail(self, msg, **kw):
        raise Violation(msg, history=self.history[-30:], kind=self.kind, target=self.t.kind, **kw)

    # --- one operation each
    def write(self, s=None, mutate=True):
        rng = self.rng
        s = s if s is not None else self.s
        data = chunk(rng)
        form = rng.randrange(6)
        if form == 0:
            obj = bytearray(data)
        elif form == 1:
            obj = memoryview(data)
        elif form == 2:
            obj = memoryview(bytearray(data))
        elif form == 3:
            b = bytearray(rng.randbytes(5) + data + rng.randbytes(7))
            obj = memoryview(b)[5 : 5 + len(data)]
        else:
            obj = data
        self.log("write", type(obj).__name__, len(data))
        try:
            n = s.write(obj)
        except Exception as e:
            if self.closed:
                return
            # refusing is allowed for anything but plain bytes, as long as nothing of it appears
            if isinstance(obj, bytes):
                self.fail(f"writing bytes to an open stream failed: {type(e).__name__}: {e}")
            self.history.append(("refused",))
            return
        if self.closed:
            self.fail("a write after close was accepted", returned=n)
        if n is not None and n != len(data):
            self.fail("write returned another number than the bytes given", returned=n, given=len(data))
        self.accepted.append(data)
        if not isinstance(obj, bytes) and mutate:
            # the caller may reuse its buffer
            self.log("mutate")
            if isinstance(obj, bytearray):
                for i in range(len(obj)):
                    obj[i] ^= 0x55
                try:
                    del obj[:]
                except BufferError:
                    pass
            else:
                if not obj.readonly:
                    for i in range(len(obj)):
                        obj[i] = 0x41
                obj.release()

    def refused_write(self):
        bad = self.rng.choice(["text", 5, None, [65, 66], 1.5, object()])
        self.log("refused-write", type(bad).__name__)
        try:
            self.s.write(bad)
        except Exception:
            return
        if isinstance(bad, list) and not self.closed:
            # numbers of bytes may be taken for bytes
            self.accepted.append(bytes(bad))
            return
        self.fail("something that is not bytes was accepted", value=bad)

    def flush(self):
        self.log("flush")
        try:
            self.s.flush()
        except Exception as e:
            if not self.closed:
                self.fail(f"flush of an open stream failed: {type(e).__name__}: {e}")

    def writelines(self):
        lines = [chunk(self.rng) for _ in range(self.rng.randrange(4))]
        self.log("writelines", [len(x) for x in lines])
        try:
            self.s.writelines(lines)
        except NotImplementedError:
            return
        except Exception as e:
            if not self.closed:
                self.fail(f"writelines on an open stream failed: {type(e).__name__}: {e}")
            return
        if self.closed and lines:
            self.fail("writelines after close was accepted")
        self.accepted += lines

    def others(self):
        """operations a write-only stream refuses; whatever they do, the result must not change"""
        op = self.rng.choice(["tell", "seek", "truncate", "read", "readline", "fileno", "isatty", "seekable", "readable", "closed", "next", "repr"])
        self.log(op)
        s = self.s
        try:
            if op == "seek":
                s.seek(0)
            elif op == "truncate":
                s.truncate(0)
            elif op == "read":
                s.read(5)
            elif op == "next":
                next(s)
            elif op == "closed":
                return self.state()
            elif op == "repr":
                repr(s)
            else:
                getattr(s, op)()
        except Exception:
            pass

    def copy(self):
        data = b"".join(chunk(self.rng) for _ in range(3))
        self.log("copyfileobj", len(data))
        try:
            shutil.copyfileobj(io.BytesIO(data), self.s, self.rng.choice([1000, 4096, 65536]))
        except Exception as e:
            if not self.closed:
                self.fail(f"copying into an open stream failed: {type(e).__name__}: {e}")
            return
        if self.closed and data:
            self.fail("copying into a closed stream was accepted")
        self.accepted.append(data)

    def state(self):
        if bool(self.s.closed) != self.closed:
            self.fail("closed does not tell the truth", says=self.s.closed)
        if not self.closed and not self.s.writable():
            self.fail("an open writer says it is not writable")

    def close(self):
        self.log("close" if not self.closed else "close-again")
        try:
            self.s.close()
            if self.inner is not None:
                self.inner.close()
        except Exception as e:
            self.fail(f"close failed: {type(e).__name__}: {e}")
        self.closed = True

    # --- oracle
    def verify(self):
        """after the first close: exactly one complete result, and it never changes again"""
        if self.t.f.closed:
            self.fail("the underlying stream was closed")
        c = self.t.content()
        if self.final is None:
            want = b"".join(self.accepted)
            if not c.startswith(self.base):
                self.fail("what the target held before was changed")
            try:
                got = opened(self.kind, c[len(self.base) :], self.p)
            except Exception as e:
                self.fail(f"the target does not hold one complete result after close: {type(e).__name__}: {e}", held=c[len(self.base) :][:300], accepted=len(want))
            if got != want:
                self.fail("the result is not made of exactly the accepted writes", got=len(got), accepted=len(want),
                          first_diff=next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None))
            self.final = c
            self.ctx.eval((self.kind, self.t.kind, [h[:3] for h in self.history]))
        elif c != self.final:
            self.fail("the target changed after close", grew=len(c) - len(self.final))

    def after(self):
        """operations after the first close"""
        rng = self.rng
        for _ in range(rng.randrange(1, 8)):
            op = rng.choice(["close", "close", "write", "write", "flush", "others", "writelines", "copy", "empty", "gc", "bad"])
            if op == "close":
                self.close()
            elif op == "write":
                self.log("write-after-close")
                self.write()
            elif op == "empty":
                self.log("write-after-close")
                try:
                    self.s.write(b"")
                except Exception:
                    continue
                self.fail("an empty write after close was accepted")
            elif op == "bad":
                self.refused_write()
            elif op == "gc":
                gc.collect()
            else:
                getattr(self, op)()
            self.verify()
        self.state()

    def gone(self):
        """dispose of the stream; the target stays usable"""
        self.log("late-gc")
        self.ctx.count("late-gc")
        if self.t.kind == "short" and self.t.f.part:
            self.ctx.count("short_targets")
        self.s = self.inner = None
        gc.collect()
        self.verify()
        self.t.put(b"tail\n")
        if self.t.content() != self.final + b"tail\n":
            self.fail("the target is not usable after close")


def before(w, n):
    for _ in range(n):
        r = w.rng.random()
        if r < 0.6:
            w.write()
        elif r < 0.7:
            w.flush()
        elif r < 0.78:
            w.refused_write()
        elif r < 0.84:
            w.writelines()
        elif r < 0.88:
            w.copy()
        elif r < 0.92:
            w.state()
        else:
            w.others()


KINDS = ["enc", "enc", "armor", "armor", "stack"]


def new_target(ctx):
    t = Target(ctx, ctx.rng.choice(["bytesio", "bytesio", "file", "raw", "smallbuf", "short"]))
    return t


def new_party(rng):
    return gen.party(rng, ("x25519", "x25519", "ssh-ed25519"))


def histories(ctx):
    rng = ctx.rng
    for _ in range(4):
        t = new_target(ctx)
        p = new_party(rng)
        kind = rng.choice(KINDS)
        if rng.random() < 0.3:
            t.put(b"before\n")
        w = Writer(ctx, kind, t, p)
        before(w, rng.choice([0, 1, 2, 5, 15]))
        w.close()
        w.verify()
        w.after()
        w.gone()
        ctx.count("writer_histories")
        if kind == "stack":
            ctx.count("stack")
        if rng.random() < 0.4:
            # the stream is free for another result
            w2 = Writer(ctx, rng.choice(KINDS), t, new_party(rng))
            before(w2, 3)
            w2.close()
            w2.verify()
            w2.gone()
            ctx.count("second-result")
            ctx.count("writer_histories")
        t.f.close()
    ctx.sample(kind=kind, target=t.kind, history=w.history[:8])


def occupied(ctx):
    """targets that hold other data before, behind and under the place of the result: only that place is written"""
    rng = ctx.rng
    for _ in range(4):
        p = new_party(rng)
        kind = rng.choice(KINDS)
        old = rng.randbytes(rng.choice([5000, 20000, 200_000]))
        at = rng.choice([0, 1, 100, 4096, len(old) // 2, len(old) - 1, len(old)])
        how = rng.choice(["bytesio", "r+b", "raw", "append", "fixed"])
        path = None
        if how == "bytesio":
            f = io.BytesIO(old)
        elif how == "fixed":
            # a device: neither grows nor shrinks
            f = mmap_stream(old)
        else:
            fd, path = tempfile.mkstemp(dir=ctx.tmp)
            os.write(fd, old)
            os.close(fd)
            f = open(path, "ab" if how == "append" else "r+b", buffering=0 if how == "raw" else -1)
        if how == "append":
            at = len(old)
        f.seek(at)
        pt = rng.randbytes(rng.choice([0, 10, 1000]))
        if how == "fixed" and at > 100:
            f.seek(at := 100)
        armor = AsciiArmoredOutput("AGE ENCRYPTED FILE", f) if kind != "enc" else None
        if kind == "armor":
            with_parts(rng, armor, pt)
            armor.close()
        else:
            e = Encryptor([p.recipient], armor or f)
            with_parts(rng, e, pt)
            e.close()
            if armor:
                armor.close()
        ctx.check(not f.closed, "the target was closed", target=how)
        end = f.tell()
        f.flush()
        if path:
            with open(path, "rb") as g:
                now = g.read()
            os.unlink(path)
        else:
            now = f.getvalue()
        f.close()
        ctx.check(now[:at] == old[:at], "data before the result changed", target=how, at=at)
        ctx.check(now[end:] == old[end:], "data behind the result changed", target=how, at=at, end=end, left=len(now), before=len(old))
        try:
            ok = opened(kind, now[at:end], p) == pt
        except Exception as e:
            ok = repr(e)
        ctx.check(ok is True, "the target does not hold the complete result", target=how, at=at, end=end, error=ok)
        ctx.count("occupied")
        ctx.eval(("occupied", kind, how, at, len(pt)))


def with_parts(rng, w, data):
    while data:
        k = rng.randrange(1, len(data) + 1)
        w.write(data[:k])
        data = data[k:]


class mmap_stream(io.BytesIO):
    """truncate() is refused, as by devices and maps"""

    def truncate(self, *a):
        raise OSError(22, "Invalid argument")


def exhaustive(ctx):
    """every history of up to four operations from a small alphabet, per kind of writer"""
    rng = ctx.rng
    ops = ["w1", "w0", "wa", "fl", "cl", "wl"]
    combos = [[]]
    for _ in range(4 if ctx.tier == "quick" else 5):
        combos += [c + [o] for c in combos for o in ops if len(c) + 1 <= 5]
    combos = [list(c) for c in dict.fromkeys(tuple(c) for c in combos)]
    p = gen.XParty(rng.randbytes(32))
    part = combos[ctx.idx % 24 :: 24]
    if ctx.tier == "quick":
        part = [c for c in part if len(c) <= 3] + rng.sample([c for c in part if len(c) > 3], 12)
    for c in part:
        for kind in ("enc", "armor"):
            w = Writer(ctx, kind, Target(ctx, "bytesio"), p)
            for o in c:
                if o == "cl":
                    w.close()
                elif o == "fl":
                    w.flush()
                elif o == "wl":
                    w.writelines()
                else:
                    if w.closed:
                        ctx.count("op:write-after-close")
                    data = b"" if o == "w0" else rng.randbytes(rng.choice([1, 48, 50]))
                    obj = bytearray(data) if o == "wa" else data
                    w.log("write", o)
                    try:
                        w.s.write(obj)
                    except Exception as e:
                        if not w.closed:
                            w.fail(f"write to an open stream failed: {e}")
                    else:
                        if w.closed:
                            w.fail("a write after close was accepted")
                        w.accepted.append(data)
                    if o == "wa":
                        obj[:] = b"z" * 200
                if w.closed:
                    w.verify()
            if not w.closed:
                w.close()
                w.verify()
            w.gone()
            ctx.count("writer_histories")


class Rude(BaseException):
    pass


ENDS = [GeneratorExit, KeyboardInterrupt, SystemExit, StopIteration, StopAsyncIteration, EOFError, BrokenPipeError, InterruptedError, BlockingIOError, MemoryError, ValueError, TypeError, AttributeError, NotImplementedError, RecursionError, OSError, Rude, Boom, UnicodeDecodeError]


def make_end(cls):
    return cls("utf-8", b"x", 0, 1, "y") if cls is UnicodeDecodeError else cls()


def left(ctx):
    """`with` blocks left in every way there is: the result is complete all the same"""
    rng = ctx.rng
    for cls in rng.sample(ENDS, 6):
        w = Writer(ctx, "enc", new_target(ctx), new_party(rng))
        w.log("with-" + cls.__name__)
        ex = make_end(cls)
        try:
            with w.s:
                before(w, 4)
                raise ex
        except BaseException as e:
            if isinstance(e, Violation) or e is not ex:
                raise
        w.closed = True
        w.verify()
        w.after()
        w.gone()
        ctx.count("left_by_exception")
        ctx.count("writer_histories")
    for how in ("return", "break", "continue", "generator closed", "generator dropped", "generator thrown at", "nested", "exit stack"):
        w = Writer(ctx, "enc", new_target(ctx), new_party(rng))
        w.log(how)
        if how == "return":

            def f():
                with w.s:
                    before(w, 3)
                    return

            f()
        elif how in ("break", "continue"):
            for _ in range(1):
                with w.s:
                    before(w, 3)
                    if how == "break":
                        break
                    continue
        elif how.startswith("generator"):

            def g():
                with w.s:
                    before(w, 3)
                    yield

            it = g()
            next(it)
            if how.endswith("closed"):
                it.close()
            elif how.endswith("at"):
                try:
                    it.throw(Boom())
                except Boom:
                    pass
            it = None
        elif how == "nested":
            v = Writer(ctx, "enc", new_target(ctx), new_party(rng))
            with w.s, v.s:
                before(v, 2)
                before(w, 3)
            v.closed = True
            v.verify()
            v.after()
            v.gone()
        else:
            with contextlib.ExitStack() as st:
                st.enter_context(w.s)
                before(w, 3)
        w.closed = True
        w.verify()
        w.after()
        w.gone()
        ctx.count("left_otherwise")
        ctx.count("writer_histories")


def contexts(ctx):
    """context managers, with and without an exception, nested and repeated"""
    rng = ctx.rng
    for _ in range(3):
        w = Writer(ctx, "enc", new_target(ctx), new_party(rng))
        if rng.random() < 0.5:
            w.log("with")
            with w.s as s:
                w.ctx.check(s is w.s, "entering returns another object")
                before(w, 4)
        else:
            w.log("with-exception")
            try:
                with w.s:
                    before(w, 4)
                    raise Boom()
            except Boom:
                pass
        w.closed = True
        w.verify()
        try:
            with w.s:
                w.fail("a closed stream can be entered again")
        except Violation:
            raise
        except Exception:
            pass
        w.after()
        w.gone()
        ctx.count("writer_histories")
        # closed inside its own context
        w = Writer(ctx, "enc", new_target(ctx), new_party(rng))
        w.log("with")
        with w.s:
            before(w, 2)
            w.close()
            w.verify()
            w.log("close-again")
        w.verify()
        w.after()
        w.gone()
        ctx.count("writer_histories")
        # armor writers: accepted or refused, and still complete after close
        w = Writer(ctx, "armor", new_target(ctx), new_party(rng))
        try:
            with w.s:
                before(w, 2)
        except NotImplementedError:
            before(w, 2)
            w.close()
        w.closed = True
        w.verify()
        w.gone()
        ctx.count("writer_histories")


def disposal(ctx):
    """never closed: dropping the last reference finishes the result, once"""
    rng = ctx.rng
    for _ in range(4):
        kind = rng.choice(KINDS)
        w = Writer(ctx, kind, new_target(ctx), new_party(rng))
        before(w, 4)
        w.log("del")
        cyc = kind != "stack" and rng.random() < 0.3
        if cyc:
            ctx.count("cycle")
            box = [w.s]
            try:
                w.s.me = box
            except AttributeError:
                pass
            box = None
        w.s = None
        if cyc:
            gc.collect()
        w.inner = None
        if rng.random() < 0.5:
            gc.collect()
        w.closed = True
        w.verify()
        w.gone()
        ctx.count("writer_histories")


def wrapped(ctx):
    """used through the wrappers of the io module"""
    rng = ctx.rng
    for _ in range(3):
        kind = rng.choice(["enc", "armor", "stack"])
        w = Writer(ctx, kind, new_target(ctx), new_party(rng))
        form = rng.choice(["buffered", "text", "print", "two"])
        w.log("wrap-buffered", form)
        b = io.BufferedWriter(w.s, rng.choice([1, 16, 100, 8192, 100000]))
        if form in ("buffered", "two"):
            for _ in range(rng.randrange(8)):
                data = chunk(rng)
                if b.write(data) != len(data):
                    w.fail("a buffered write came back short")
                w.accepted.append(data)
                if rng.random() < 0.2:
                    b.flush()
                if form == "two" and rng.random() < 0.3:
                    b.flush()
                    w.write()
        else:
            t = io.TextIOWrapper(b, "utf-8", newline="", write_through=rng.random() < 0.3)
            for _ in range(rng.randrange(8)):
                line = gen.vchars(rng, rng.randrange(200)) + rng.choice(["", "\n", "\r\n", "\u00e9\u4e2d"])
                if form == "print":
                    print(line, file=t)
                    line += "\n"
                else:
                    t.write(line)
                w.accepted.append(line.encode())
            t.flush()
            if rng.random() < 0.5:
                t.close()
            else:
                t.detach()
        if rng.random() < 0.5 and not b.closed:
            b.close()
        elif not b.closed:
            b.flush()
            b.detach()
        w.close()
        w.verify()
        w.after()
        w.gone()
        ctx.count("writer_histories")


def large_history(ctx):
    """long histories: thousands of writes between flushes"""
    rng = ctx.rng
    w = Writer(ctx, rng.choice(["enc", "armor", "stack"]), new_target(ctx), new_party(rng))
    for i in range(1500):
        data = rng.randbytes(rng.choice([0, 1, 1, 7, 60]))
        w.s.write(data)
        w.accepted.append(data)
        if i % 97 == 0:
            w.flush()
    w.log("write", "x1500")
    w.close()
    w.verify()
    w.after()
    w.gone()
    ctx.count("writer_histories")
    ctx.count("op:write", 1500)


# ---------------------------------------------------------------------- constructions that fail
class AlienKey(EncryptionKey):
    @classmethod
    def from_public_string(cls, s):
        raise ValueError

    def public_string(self):
        return "alien"


class Flaky(io.RawIOBase):
    """fails once after `k` bytes (perhaps in parts), works before and after"""

    def __init__(self, rng, k, most, flush=False):
        self.rng, self.k, self.most, self.data, self.failed, self.bad_flush = rng, k, most, b"", None, flush

    def flush(self):
        super().flush()
        if self.bad_flush and self.failed is None and len(self.data) >= self.k:
            self.failed = len(self.data)
            raise OSError(5, "Input/output error")

    def writable(self):
        return True

    def write(self, b):
        n = min(len(b), self.rng.randint(1, self.most))
        if self.failed is None and not self.bad_flush:
            n = min(n, self.k - len(self.data))
            if n <= 0 and len(b):
                self.failed = len(self.data)
                raise OSError(28, "No space left on device")
        self.data += bytes(b)[:n]
        return n


def bad_recipients(rng, good):
    def exploding():
        for g in good:
            yield g.recipient
        raise Boom()

    low = AgePublicKey.from_public_bytes(rng.choice(ref.LOW_ORDER))
    bad = rng.choice(["alien", "none", "string", "low", "generator", "notiterable", "private"])
    keys = [g.recipient for g in good]
    if bad == "generator":
        return bad, exploding()
    if bad == "notiterable":
        return bad, 5
    try:
        x = {"alien": AlienKey, "none": lambda: None, "string": lambda: good[0].cli_recipient if good else "age1", "low": lambda: low,
             "private": lambda: gen.XParty(rng.randbytes(32)).identity}[bad]()
    except TypeError:
        x = object()
    keys.insert(rng.randrange(len(keys) + 1), x)
    return bad, keys


def failed(ctx):
    rng = ctx.rng
    for _ in range(6):
        t = new_target(ctx)
        pre = rng.choice([b"", b"already here"])
        t.put(pre)
        armored = rng.random() < 0.25
        keep = rng.random() < 0.5
        why, keys = bad_recipients(rng, gen.parties(rng, rng.choice([0, 1, 2])))
        out = AsciiArmoredOutput(ref.LABEL, t.f) if armored else t.f
        obj = exc = None
        made = Encryptor.__new__(Encryptor) if keep else None
        try:
            if keep:
                # the half-made object stays reachable and is used on
                Encryptor.__init__(made, keys, out)
            else:
                obj = Encryptor(keys, out)
        except Exception as e:
            exc = e
        if exc is None:
            if why == "generator":
                raise Violation("an exception of the recipients was swallowed")
            raise Violation(f"construction with {why} recipient did not fail")
        ctx.check(t.content() == pre, "a failed construction wrote to its target", wrote=t.content()[:200], why=why)
        if keep:
            for op in rng.sample(["write", "flush", "close", "close", "exit"], 4):
                try:
                    {"write": lambda: made.write(b"secret"), "flush": made.flush, "close": made.close, "exit": lambda: made.__exit__(None, None, None)}[op]()
                except Exception:
                    pass
                ctx.check(t.content() == pre, f"{op} after a failed construction wrote to the target", why=why, wrote=t.content()[:200])
        made = obj = exc = keys = None
        gc.collect()
        ctx.check(t.content() == pre, "disposal after a failed construction wrote to the target", why=why, wrote=t.content()[:200])
        ctx.check(not t.f.closed, "a failed construction closed its target")
        if armored:
            out.close()
            try:
                held = ref.dearmor_strict(t.content()[len(pre) :].decode())
            except ref.Malformed:
                held = b""
            ctx.check(held == b"", "a failed construction wrote to the armor stream", held=held[:100])
        ctx.count("failed_constructions")
        ctx.eval(("failed", why, keep, armored, t.kind))
        t.f.close()


def failing_target(ctx):
    """the target fails during construction and would work later: no byte may follow"""
    rng = ctx.rng
    ps = gen.parties(rng, rng.choice([1, 2]), ("x25519", "ssh-ed25519"))
    whole = io.BytesIO()
    head = Encryptor([p.recipient for p in ps], whole)
    size = len(whole.getvalue())
    head.close()
    for k in [0, 1, size - 1] + [rng.randrange(size) for _ in range(5)]:
        t = Flaky(rng, k, rng.choice([1, 10, 64, 1000, 10**6]))
        made = Encryptor.__new__(Encryptor)
        try:
            Encryptor.__init__(made, [p.recipient for p in ps], t)
        except OSError:
            pass
        if t.failed is None:
            # nothing has been written so far, or the header is of another size
            ctx.count("did_not_fail")
            continue
        for op in rng.sample(["write", "flush", "close", "exit"], 3):
            try:
                {"write": lambda: made.write(b"secret"), "flush": made.flush, "close": made.close, "exit": lambda: made.__exit__(None, None, None)}[op]()
            except Exception:
                pass
        made = None
        gc.collect()
        ctx.check(len(t.data) == t.failed, "bytes written after the construction had failed", failing_write=k, before=t.failed, after=len(t.data), extra=t.data[t.failed :][:100])
        ctx.count("failing_targets")
        ctx.eval(("flaky", k, [p.kind for p in ps]))


def failing_close(ctx):
    """the target fails once while the result is written and works again: what it holds is never more than one result"""
    rng = ctx.rng
    for _ in range(4):
        kind = rng.choice(KINDS)
        p = new_party(rng)
        parts = [chunk(rng) for _ in range(rng.randrange(4))]
        want = b"".join(parts)

        def make(t):
            inner = AsciiArmoredOutput(ref.LABEL, t) if kind != "enc" else None
            return inner if kind == "armor" else Encryptor([p.recipient], inner or t), inner

        whole = io.BytesIO()
        s, inner = make(whole)
        head = len(whole.getvalue())
        for x in parts:
            s.write(x)
        s.close()
        if inner is not None:
            inner.close()
        size = len(whole.getvalue())
        flush = rng.random() < 0.3
        k = rng.choice([size, size - 1]) if flush else rng.choice([head, size - 1, rng.randrange(head, size), rng.randrange(head, size)])
        t = Flaky(rng, k, rng.choice([1000, 10**6]) if size > 5000 else rng.choice([1, 10, 64, 1000, 10**6]), flush)
        hist = []
        with gen.muted():
            try:
                s, inner = make(t)
            except OSError:
                # written (and flushed) all at once
                ctx.count("did_not_fail")
                continue
            objs = [s] if inner in (None, s) else [s, inner]
            todo = [("write", x) for x in parts] + [("close", None)]
            for op, x in todo:
                hist.append(op)
                try:
                    if op == "write":
                        s.write(x)
                    else:
                        for o in objs:
                            o.close()
                except OSError:
                    hist.append("failed")
                    break
            if t.failed is None:
                ctx.count("did_not_fail")
            if "failed" not in hist:
                # nothing failed as far as the caller knows
                got = ctx.must("what the target holds after close without an error", opened, kind, t.data, p)
                ctx.equal(got, want, "the result after close without an error", kind=kind, failed_at=t.failed, size=size)
            held = t.data
            for op in rng.sample(["close", "close", "inner", "write", "empty", "flush", "exit", "gc", "writelines"], rng.randrange(1, 7)) + ["close", "inner", "dispose"]:
                hist.append(op)
                try:
                    if op == "close":
                        s.close()
                    elif op == "inner":
                        objs[-1].close()
                    elif op == "write":
                        # bytes of the result itself are refused or belong to nothing any more
                        if s.write(b"late"):
                            break
                    elif op == "empty":
                        s.write(b"")
                    elif op == "flush":
                        s.flush()
                    elif op == "exit":
                        s.__exit__(None, None, None)
                    elif op == "writelines":
                        s.writelines([])
                    elif op == "dispose":
                        s = inner = o = None
                        objs.clear()
                        gc.collect()
                    else:
                        gc.collect()
                except Exception:
                    hist.append("error")
                if kind == "armor":
                    ok = ref.armor(want).encode().startswith(t.data)
                elif t.data == held:
                    ok = True
                else:
                    try:
                        ok = t.data.startswith(held) and opened(kind, t.data, p) == want
                    except Exception:
                        # still growing, towards a complete result only
                        ok = False
                ctx.check(ok, "after a failure the target holds something else than (the beginning of) one result", kind=kind, history=hist, held=len(held), holds=len(t.data), size=size, tail=t.data[len(held) :][:200])
        ctx.count("failing_closes", "failed" in hist)
        ctx.count("retried")
        ctx.eval(("failing_close", kind, flush, hist))
    ctx.sample(kind=kind, history=hist)


# ---------------------------------------------------------------------- readers
def text(rng):
    n = rng.choice([0, 1, 2, 10, 100, 1000, 3000])
    r = rng.random()
    if r < 0.5:
        return b"".join(rng.randbytes(rng.randrange(40)).replace(b"\n", b"") + rng.choice([b"\n", b"\r\n", b"\n\n", b"\r", b""]) for _ in range(n // 20))
    if r < 0.7:
        return b"\n" * n
    return rng.randbytes(n)


def reading(ctx):
    rng = ctx.rng
    for _ in range(4):
        pt = text(rng) if rng.random() < 0.9 else gen.plain(rng, None, 140000)
        p = new_party(rng)
        kind = rng.choice(["dec", "armor", "stack"])
        data = pt
        if kind != "armor":
            data = gen.ref_file(rng, [p], pt)
        if kind != "dec":
            data = ref.armor(data).encode()
        src = io.BytesIO(data)
        if rng.random() < 0.3:
            src = ShortSource(rng, data, rng.choice([1, 2, 10, 15, 100, 5000]) if len(data) < 20000 else 30000)
        s = ctx.must(f"a {kind} reader of {type(src).__name__}", lambda: {
            "dec": lambda: Decryptor([p.identity], src),
            "armor": lambda: AsciiArmoredInput(ref.LABEL, src),
            "stack": lambda: Decryptor([p.identity], AsciiArmoredInput(ref.LABEL, src)),
        }[kind]())
        m = io.BytesIO(pt)
        big = len(pt) > 5000
        hist = []
        ops = ["read", "read", "readn", "readn", "read0", "readall", "readline", "readlimit", "next", "readlines", "hint", "iter", "bad", "copy", "state", "none"]
        if big:
            ops = ["readn", "readn", "read0", "read", "bad", "state"]
        for _ in range(rng.randrange(1, 25)):
            op = rng.choice(ops)
            if rng.random() < 0.6 and op in ("read", "readall", "copy", "readlines", "iter", "none"):
                op = "readn"
            n = rng.choice([1, 2, 3, 10, 100, 1000, 65536, 10**9])
            hist.append((op, n))
            f = {
                "read": lambda x: x.read(*([-1] if n % 2 else [])),
                "none": lambda x: x.read(None),
                "readn": lambda x: x.read(n),
                "read0": lambda x: x.read(0),
                "readall": lambda x: x.readall() if x is s else x.read(),
                "readline": lambda x: x.readline(),
                "readlimit": lambda x: x.readline(n),
                "next": lambda x: next(x, None),
                "readlines": lambda x: x.readlines(),
                "iter": lambda x: list(x),
                "copy": lambda x: (lambda o: (shutil.copyfileobj(x, o, 100), o.getvalue())[1])(io.BytesIO()),
                "state": lambda x: (x.readable(), x.closed),
            }.get(op)
            ctx.count("read-ops")
            if op == "bad":
                try:
                    rng.choice([lambda: s.write(b"x"), lambda: s.seek(0), lambda: s.truncate(0), lambda: s.fileno()])()
                except Exception:
                    pass
                continue
            if op == "hint":
                # how far the hint reaches is up to the implementation
                got = ctx.must(f"readlines with a hint on a {kind} reader", s.readlines, n)
                ctx.equal(got, [m.readline() for _ in got], "readlines with a hint differs from the remaining lines", history=hist[-20:])
                continue
            want = f(m)
            got = ctx.must(f"{op} on a {kind} reader (history {hist[-12:]})", f, s)
            if op == "readall" and got is None:
                got = b""
            ctx.equal(got, want, f"{op} on a {kind} reader differs from the remaining data", history=hist[-20:], length=len(pt))
        # everything left, nothing more
        ctx.equal(s.read(), m.read(), "the rest of the data", history=hist[-20:])
        ctx.check(s.read(1) == b"" and s.read() == b"" and s.readline() == b"", "data after the end", history=hist[-10:])
        if rng.random() < 0.3:
            s.close()
        s = None
        gc.collect()
        ctx.check(not src.closed, f"the source of a {kind} reader was closed", history=hist[-5:])
        ctx.count("reader_histories")
        if type(src) is ShortSource and src.part:
            ctx.count("short_reads")
        ctx.eval(("reader", kind, len(pt), hist))
    ctx.sample(kind=kind, length=len(pt), history=hist[:8])


def families(tier):
    q = tier == "quick"
    return [
        ("histories", 320 if q else 6000, histories),
        ("exhaustive", 24, exhaustive),
        ("contexts", 60 if q else 900, contexts),
        ("left", 40 if q else 500, left),
        ("disposal", 80 if q else 1200, disposal),
        ("wrapped", 80 if q else 1200, wrapped),
        ("large_history", 6 if q else 60, large_history),
        ("failed", 80 if q else 1200, failed),
        ("failing_target", 30 if q else 300, failing_target),
        ("failing_close", 70 if q else 1200, failing_close),
        ("reading", 240 if q else 5000, reading),
        ("occupied", 60 if q else 600, occupied),
    ]
