"""Write attempts of the bundled file stores with a fault at every file operation, recorded for FileStore.tla.

Every attempt runs in a forked child below a scratch directory; the preloaded shim (fsshim.c) makes the k-th file operation
on that directory fail or ends the process there.  The parent looks at the directory afterwards."""
import ctypes
import errno
import json
import os
import pathlib
import pickle
import random
import shutil
import signal
import tempfile

import uberjob.stores as S
from uberjob.stores import _file_store  # noqa: F401  (loaded before the shim is armed)

OFF, COUNT, ERR, DIE, SHORT_ERR, SHORT_DIE, INTR, DIE_AFTER, ERR_FOREVER = range(9)
MODES = [ERR, DIE, SHORT_ERR, SHORT_DIE, INTR, DIE_AFTER, ERR_FOREVER]
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EEXIST, errno.ENOENT, errno.EXDEV, errno.EPERM, errno.EBUSY]

shim = ctypes.CDLL(None)
shim.fs_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
shim.fs_hitname.restype = ctypes.c_char_p
shim.fs_ops.restype = ctypes.c_char_p

try:
    staged_write, staged_write_path = S.staged_write, S.staged_write_path
except AttributeError:
    staged_write, staged_write_path = _file_store.staged_write, _file_store.staged_write_path


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


RAISES = [Boom, BaseBoom, KeyboardInterrupt, SystemExit, GeneratorExit, OSError, StopIteration]


class Bad:
    """A value that turns out not to be serialisable once part of it has been produced."""

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc("reduce")


class Chunked(S.FileStore if hasattr(S, "FileStore") else _file_store.FileStore):
    """A user's store on top of staged_write: a list of chunks, any of which may be an exception to raise."""

    buffering = -1

    def read(self):
        with open(self.path, "rb") as f:
            return json.loads(f.read())

    def write(self, value):
        with staged_write(self.path, "wb", buffering=self.buffering) as f:
            for part in json.JSONEncoder().iterencode(value if not isinstance(value, Bad) else [1, 2, 3] * 3000):
                data = part.encode()
                while data:  # an unbuffered file may write less than asked for
                    data = data[f.write(data):]
            if isinstance(value, Bad):
                raise value.exc("body")


class Unbuffered(Chunked):
    buffering = 0


class TextChunked(Chunked):
    def write(self, value):
        with staged_write(self.path, "w", encoding="utf-8", newline="\n") as f:
            for k, part in enumerate(json.JSONEncoder(indent=1).iterencode(value if not isinstance(value, Bad) else [1, 2, 3] * 3000)):
                f.write(part)
                if k % 7 == 3:
                    f.flush()
                if isinstance(value, Bad) and k == 40:
                    raise value.exc("body")


class PathStaged(Chunked):
    """On top of staged_write_path."""

    def write(self, value):
        with staged_write_path(self.path) as p:
            if isinstance(value, Bad) and value.exc is Boom:
                return  # never creates the file: the rename must fail
            with open(p, "w") as f:
                f.write(json.dumps(value if not isinstance(value, Bad) else [1] * 5000))
            if isinstance(value, Bad):
                raise value.exc("body")


class Appending(Chunked):
    """Appends to whatever the staging path holds."""

    def write(self, value):
        with staged_write_path(self.path) as p:
            if isinstance(value, Bad) and value.exc is Boom:
                return
            with open(p, "a") as f:
                for part in json.JSONEncoder().iterencode(value if not isinstance(value, Bad) else [1, 2, 3] * 3000):
                    f.write(part)
                if isinstance(value, Bad):
                    raise value.exc("body")


class EarlyReturn(Chunked):
    def write(self, value):
        with staged_write(self.path, "wb") as f:
            if isinstance(value, Bad):
                f.write(b"partial")
                raise value.exc("body")
            f.write(json.dumps(value).encode())
            return


class Mounted(S.MountedStore):
    def __init__(self, path):
        super().__init__(S.JsonFileStore)
        self.path = path

    def get_modified_time(self):
        return _file_store.get_modified_time(self.path)

    def copy_to_local(self, local_path):
        shutil.copyfile(self.path, local_path)

    def copy_from_local(self, local_path):
        with staged_write_path(self.path) as p:
            with open(local_path, "rb") as a, open(p, "wb") as b:
                b.write(a.read())


def texts(n, tag):
    return (tag + "zażółć \n\r\n\t€ ") * n


def kinds():
    lone = "ab\ud800"
    js = [[1, {"a": [None, True, 2.5], "b": "x" * 50}], [{"k": "A" * 100, "l": list(range(60))} for _ in range(60)], {"q": "short"}]
    jbad = [[list(range(3000)), Boom()], {"a": "x" * 20000, "b": {1, 2}}, ["y" * 9000, lone, {(1,): 2}], object()]
    pk = [{"a": (1, 2)}, [os.urandom(7).hex()[:0] + "z" * 90000, list(range(4000))], "s"]
    pbad = [["p" * 70000, lambda: 0]] + [["p" * 70000, Bad(x)] for x in RAISES]
    chunked = [[1, 2], list(range(4000)), "w"]
    cbad = [Bad(x) for x in RAISES]
    return {
        "text": (lambda p: S.TextFileStore(p, encoding="utf-8"), [texts(1, "A"), texts(3000, "B"), "", texts(2, "C")],
                 [5, None, texts(2000, "x") + lone, b"bytes", ["a"]]),
        "text16": (lambda p: S.TextFileStore(p, encoding="utf-16"), [texts(1, "A"), texts(3000, "B"), "c"], [lone, 7]),
        "textdefault": (S.TextFileStore, ["plain A", "plain B " * 3000, "c"], [lone * 3, 7]),
        "json": (lambda p: S.JsonFileStore(p, encoding="utf-8"), js, jbad),
        "jsondefault": (S.JsonFileStore, js, jbad[:2]),
        "pickle": (S.PickleFileStore, pk, pbad),
        "binary": (S.BinaryFileStore, [b"A\n\r\n", b"B" * 100000, b"", b"\0\xff"], ["text", 5, None, object()]),
        "touch": (S.TouchFileStore, [None], [0, "", False, [], object()]),
        "chunked": (Chunked, chunked, cbad),
        "unbuffered": (Unbuffered, [[1, 2], list(range(40)), "w"], cbad),
        "textchunked": (TextChunked, chunked, cbad),
        "pathstaged": (PathStaged, chunked, cbad),
        "appending": (Appending, chunked, cbad),
        "earlyreturn": (EarlyReturn, chunked, cbad),
        "mounted": (Mounted, js, jbad[:3]),
    }


KINDS = kinds()
PATHS = ["str", "pathlib", "relative", "relpathlib", "odd"]


class World:
    def __init__(self, kind, path):
        self.kind = kind
        self.make, self.values, self.bads = KINDS[kind]
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="fs-", dir=os.getcwd0))
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        self.target = os.path.join(self.dir, "value {x}.json" if path == "odd" else "value")
        if path == "odd":
            self.target = os.path.join(self.dir, "d.STAGING", "va lué%s.STAGING")
            os.mkdir(os.path.dirname(self.target))
        os.chdir(self.dir)
        rel = os.path.relpath(self.target, self.dir)
        self.path = {"str": self.target, "odd": self.target, "pathlib": pathlib.Path(self.target), "relative": rel,
                     "relpathlib": pathlib.Path(rel)}[path]
        self.store = self.make(self.path)
        self.events = []

    def close(self):
        os.chdir(os.getcwd0)
        shutil.rmtree(self.dir, ignore_errors=True)

    def listing(self):
        out = {}
        for root, dirs, files in os.walk(self.dir):
            for f in files:
                p = os.path.join(root, f)
                st = os.lstat(p)
                if p == self.target:
                    continue
                with_ = None
                if os.path.isfile(p):
                    with open(p, "rb") as fh:
                        with_ = fh.read()
                out[p] = (st.st_ino, with_)
        return out

    def match(self, store=None):
        """The numbers of the values that the target holds."""
        if os.path.isdir(self.target):
            return [99]
        if not os.path.lexists(self.target):
            return [0]
        try:
            got = (store or self.make(self.path)).read()
        except Exception:
            return []
        return [i + 1 for i, v in enumerate(self.values) if type(v) is type(got) and v == got]

    def stamp(self):
        """What the modified time of the target is, as seen by the store and by the file system."""
        try:
            ns = os.lstat(self.target).st_mtime_ns
        except OSError:
            ns = None
        try:
            m = self.store.get_modified_time()
        except Exception as e:
            m = type(e).__name__
        return ns, str(m)

    def attempt(self, v, bad, mode, k, err):
        """v: index into values (or into bads)."""
        value = self.bads[v] if bad else self.values[v]
        if os.path.isfile(self.target):
            os.utime(self.target, ns=(10**18 + len(self.events), 10**18 + len(self.events)))
        before, stamp, isdir = self.listing(), self.stamp(), os.path.isdir(self.target)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 98
            try:
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.alarm(20)
                tempfile.tempdir = self.tmp
                shim.fs_arm(os.fsencode(self.dir), mode, k, err)
                res = None
                try:
                    try:
                        self.store.write(value)
                        res = "ok"
                    except BaseException as e:
                        res = "exc:" + type(e).__name__
                    shim.fs_off()
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                except KeyboardInterrupt:
                    shim.fs_off()
                    res = res or "exc:KeyboardInterrupt"
                os.write(w, json.dumps([res, shim.fs_hit(), shim.fs_hitname().decode(), shim.fs_count()]).encode())
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            data += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if data:
            res, hit, name, count = json.loads(data)
        else:
            res, hit, name, count = "died", 1, "", -1
            assert status in (99 << 8, signal.SIGALRM), (status, self.kind)
            if status == signal.SIGALRM:
                res = "hung"
        out = res.split(":")[0]
        after = self.listing()
        extra = [p for p in after if before.get(p) != after[p]]
        faults = mode in (ERR, SHORT_ERR, ERR_FOREVER)
        self.events.append({
            "e": "write", "v": -1 if bad else v + 1, "bad": bool(bad), "inj": bool(hit) or isdir, "out": out, "res": res, "at": name, "match": self.match(),
            "mt": self.stamp() != stamp, "extra": len(extra),
            "unl": bool(hit) and (mode == ERR_FOREVER or faults and name in ("unlink", "rmdir")), "mode": mode, "k": k})
        return count

    def read(self):
        self.events.append({"e": "read", "match": self.match(self.store)})

    def trace(self, rp):
        return {"p": {"kind": self.kind}, "t": self.events, "replay": ["filestores", "scenario", *rp], "runs": len(self.events)}


os.getcwd0 = os.getcwd()
COUNTS = {}


def ops(kind, path, v, bad):
    key = (kind, path, v, bad)
    if key not in COUNTS:
        w = World(kind, path)
        try:
            COUNTS[key] = w.attempt(v, bad, COUNT, 0, 0)
        finally:
            w.close()
    return COUNTS[key]


def scenario(kind, path, steps):
    """steps: ["w", v, bad, mode, k, errno] | ["dir"] | ["raw"] (as left by another program)"""
    w = World(kind, path)
    try:
        for s in steps:
            if s[0] == "dir":
                os.mkdir(w.target)
                w.events.append({"e": "set", "match": [99]})
            elif s[0] == "undir":
                os.rmdir(w.target)
                w.events.append({"e": "set", "match": [0]})
            else:
                w.attempt(*s[1:])
                w.read()
        return w.trace([kind, path, steps])
    finally:
        w.close()


def everywhere(params, seed, shard, nshards):
    """Every fault at every operation of one attempt, then a fault-free write of another value."""
    rng = random.Random(f"{seed}-fs")
    jobs = []
    for kind, (_, values, bads) in KINDS.items():
        for bad in (False, True):
            for v in range(len(bads if bad else values)):
                for prev in (None, *range(len(values))):
                    if prev is None or (prev + v) % 2 == 0 or len(values) <= 2:
                        jobs.append((kind, bad, v, prev))
    rng.shuffle(jobs)
    for n, (kind, bad, v, prev) in enumerate(jobs):
        if n % nshards != shard:
            continue
        _, values, bads = KINDS[kind]
        count = ops(kind, "str", v, bad)
        first = [] if prev is None else [["w", prev, False, COUNT, 0, 0]]
        later = (v + 1) % len(values)
        last = [["w", later, False, COUNT, 0, 0], ["w", min(v, len(values) - 1), False, COUNT, 0, 0]]
        yield scenario(kind, rng.choice(PATHS), first + [["w", v, bad, COUNT, 0, 0]] + last)
        for k in range(1, count + 1):
            if k > 8 and k < count - 3 and (k + v) % params.get("stride", 40):
                continue
            for mode in MODES:
                err = ERRNOS[(k + v + mode) % len(ERRNOS)]
                third = [["w", 0, True, COUNT, 0, 0]] if bads and prev is None else []
                for path in PATHS if params.get("paths") else [PATHS[(n + k + mode) % len(PATHS)]]:
                    yield scenario(kind, path, first + [["w", v, bad, mode, k, err]] + third + last)
        if not bad:
            yield scenario(kind, PATHS[n % len(PATHS)], [["dir"], ["w", v, False, COUNT, 0, 0], ["undir"], ["w", v, False, COUNT, 0, 0]])
    yield {"p": {"kind": "all"}, "t": [], "runs": 0, "count": {"workers_that_finished_the_enumeration": 1}}


def sequences(params, seed, shard, nshards):
    """Random sequences of attempts with faults."""
    rng = random.Random(f"{seed}-fs-{shard}")
    while True:
        kind, path = rng.choice(list(KINDS)), rng.choice(PATHS)
        _, values, bads = KINDS[kind]
        steps = []
        for _ in range(rng.randint(2, 6)):
            bad = rng.random() < 0.2
            v = rng.randrange(len(bads if bad else values))
            count = ops(kind, path, v, bad)
            if rng.random() < 0.3:
                steps.append(["w", v, bad, COUNT, 0, 0])
            else:
                steps.append(["w", v, bad, rng.choice(MODES), rng.randint(1, count + 2), rng.choice(ERRNOS)])
        steps.append(["w", rng.randrange(len(values)), False, COUNT, 0, 0])
        yield scenario(kind, path, steps)
