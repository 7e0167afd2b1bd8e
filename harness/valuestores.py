"""Uses of the bundled value stores (one or more in a directory), recorded for Register.tla."""
import collections
import datetime as dt
import decimal
import enum
import fractions
import json
import os
import pathlib
import pickle
import random
import shutil
import tempfile
import time
import uuid

import uberjob.stores as S

CWD = os.getcwd()
EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)


def sub(*a):
    return random.Random("-".join(str(x) for x in a))


# ------------------------------------------------------------------ values; a builder returns equal, independent values every time
class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, other):
        return type(other) is Point and (self.x, self.y) == (other.x, other.y)

    __hash__ = None


class Slotted:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class MyError(Exception):
    def __init__(self, code):
        super().__init__(code)
        self.code = code


Pair = collections.namedtuple("Pair", "left right")


class SubStr(str):
    pass


class SubDict(dict):
    pass


def text_of(classes, rng):
    pick = {"LF": "\n", "CR": "\r", "NUL": "\0", "NEL": rng.choice("\x85\u2028\u2029\x0b\x0c\x1c\x1e"), "BOM": "\ufeff", "x": rng.choice("x ,\"\\{\t\x1a~"),
            "latin": rng.choice("éÿ\xa0\x80"), "astral": rng.choice("\U0001f600\U0010ffff中\ufffe")}
    return "".join(pick[c] for c in classes)


def rand_text(rng):
    n = rng.choice([0, 1, 2, 3, 5, 20, 300])
    s = text_of([rng.choice(["LF", "CR", "NUL", "NEL", "BOM", "x", "x", "latin", "astral"]) for _ in range(n)], rng)
    r = rng.random()
    if r < 0.08:  # something at a buffer boundary
        s = "y" * (rng.choice([4096, 8192, 65536]) - rng.randint(0, 3)) + rng.choice(["\r\n", "é\r", "\r", "\U0001f600\r\n"]) + s
    elif r < 0.12:
        s = ("line\r\nzwei\n€\r" * 3000) + s
    return s


JSON_LEAF = {
    "null": lambda r: None, "true": lambda r: True, "false": lambda r: False, "int": lambda r: r.choice([0, 1, -1, 7, 2**31, 2**53 + 1]),
    "bigint": lambda r: r.choice([10**100, -(2**70), 2**64 - 1]), "float": lambda r: r.choice([0.1, -2.5e-300, 1.7976931348623157e308, 5e-324, 1 / 3]),
    "intfloat": lambda r: r.choice([1.0, -0.0, 0.0, 1e16, 1e22]), "str": lambda r: r.choice(["a", "key", "x y"]), "estr": lambda r: "",
    "numstr": lambda r: r.choice(["1", "1.0", "null", "true", "NaN", "[]"]), "ctrl": lambda r: r.choice(["\n\r\t", "\0\x1f", "\"\\/", "\r\n", "\x7f\x85\u2028"]),
    "wide": lambda r: r.choice(["é", "\U0001f600", "中\ufeff", "\ufeff", "\ud83d", "€"]),
}


def json_of(v, r):
    if v["j"] == "list":
        return [json_of(x, r) for x in v["q"]]
    if v["j"] == "dict":
        out = {}
        for k, x in v["q"]:
            key = JSON_LEAF[k](r)
            out[key] = json_of(x, r)
        return out
    return JSON_LEAF[v["j"]](r)


def rand_json(rng, depth=3):
    if depth == 0 or rng.random() < 0.35:
        k = rng.choice(list(JSON_LEAF) + ["wide"])
        return rng.choice([float("inf"), float("-inf"), float("nan")]) if rng.random() < 0.03 else JSON_LEAF[k](rng)
    n = rng.choice([0, 1, 2, 2, 3, 6])
    if rng.random() < 0.5:
        return [rand_json(rng, depth - 1) for _ in range(n)]
    return {JSON_LEAF[rng.choice(["str", "estr", "numstr", "ctrl", "wide"])](rng) + str(i or ""): rand_json(rng, depth - 1) for i in range(n)}


def big_json(rng):
    return [{"i": i, "s": "żółw\n" * 3, "f": i / 7, "n": None} for i in range(700)]


def deep_json(rng):
    v = rng.choice([[], {}, "end"])
    for i in range(60):
        v = [v] if i % 2 else {"k": v}
    return v


def rand_bytes(rng):
    n = rng.choice([0, 1, 2, 3, 17, 4096, 70000])
    return rng.choice([bytes(rng.randrange(256) for _ in range(min(n, 300))), b"\r\n" * n, b"\0" * n, b"\n\r\x1a", b"\xef\xbb\xbf", b"\xff\xfe" + b"x" * n])


def cyclic():
    a = [1]
    a.append({"me": a})
    return a


def shared():
    x = [1]
    return [x, x, (x, {"x": x})]


PICKLES = [
    lambda r: None, lambda r: Ellipsis, lambda r: NotImplemented, lambda r: r.choice([True, False, 0, 1, 10**50]), lambda r: float("nan"),
    lambda r: (1, (2, [3, {4}])), lambda r: {frozenset({1}): {2: b"x"}}, lambda r: set(), lambda r: frozenset("ab"), lambda r: bytearray(b"\r\n"),
    lambda r: complex(1, -2), lambda r: decimal.Decimal("1.10"), lambda r: fractions.Fraction(1, 3), lambda r: Color.RED, lambda r: Color.BLUE,
    lambda r: Point(1, [2]), lambda r: Point(None, "\ud800"), lambda r: Falsy(), lambda r: [Falsy()], lambda r: Pair(1, Pair(2, None)),
    lambda r: dt.datetime(2024, 3, 1, 2, 3, 4, 5, tzinfo=dt.timezone(dt.timedelta(hours=2))), lambda r: dt.datetime(2024, 11, 3, 1, 30, fold=1),
    lambda r: dt.timedelta(microseconds=-1), lambda r: collections.OrderedDict([("b", 1), ("a", 2)]), lambda r: collections.defaultdict(list, {"x": [1]}),
    lambda r: collections.deque([1, 2], maxlen=3), lambda r: collections.Counter("aab"), lambda r: range(2, 9, 3), lambda r: len, lambda r: int,
    lambda r: Point, lambda r: json.dumps, lambda r: MyError(5), lambda r: OSError(2, "no", "file"), lambda r: SubStr("abc"), lambda r: SubDict(a=1),
    lambda r: cyclic(), lambda r: shared(), lambda r: uuid.UUID(int=5), lambda r: pathlib.PurePosixPath("/a/b"), lambda r: "", lambda r: b"",
    lambda r: "text\r\n\x85\U0001f600", lambda r: b"\x80\x04.", lambda r: [b"z" * 100000, "q" * 70000], lambda r: list(range(3000)), lambda r: {}, lambda r: (),
    lambda r: pickle.dumps([1, 2]), lambda r: S.JsonFileStore("x"), lambda r: [[]] * 3, lambda r: {"a": {"b": {"c": [1.5, None]}}},
]


def same(a, b, memo=None):
    """Equal, with the same types all the way down."""
    memo = {} if memo is None else memo
    if (id(a), id(b)) in memo:
        return True
    memo[id(a), id(b)] = (a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y, memo) for x, y in zip(a, b))
    if isinstance(a, collections.OrderedDict) and list(a) != list(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k], memo) for k, v in a.items()) and \
            sorted(map(repr, map(type, a))) == sorted(map(repr, map(type, b)))
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(repr, map(type, a))) == sorted(map(repr, map(type, b)))
    if isinstance(a, BaseException):
        return same(a.args, b.args, memo) and same(a.__dict__, b.__dict__, memo)
    if isinstance(a, Falsy):
        return True
    if isinstance(a, Point):
        return same(a.__dict__, b.__dict__, memo)
    if isinstance(a, S.JsonFileStore):
        return a.path == b.path and a.encoding == b.encoding
    if isinstance(a, dt.datetime):
        return a == b and a.tzinfo == b.tzinfo and a.fold == b.fold
    return a == b


def mutate(v):
    """Changes a value in place after it has been written or read."""
    if isinstance(v, list):
        v.append("mutated")
        for x in v[:1]:
            if isinstance(x, (list, dict)) and x is not v:
                mutate(x)
    elif isinstance(v, dict):
        v["mutated"] = 1
    elif isinstance(v, (set, bytearray)):
        v.clear()
    elif isinstance(v, Point):
        v.x = "mutated"


# ------------------------------------------------------------------ stores
TEXT_ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-32", "latin-1", "ascii", "cp1252", "utf-7", "gb18030", None]
JSON_ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-be", "utf-32", "latin-1", "ascii", None]


class Remote(S.MountedStore):
    """A remote location that holds a file or a directory."""

    def __init__(self, create_store, path):
        super().__init__(create_store)
        self.path = str(path)

    def get_modified_time(self):
        try:
            t = os.stat(self.path).st_mtime
        except OSError:
            return None
        return dt.datetime.fromtimestamp(t, dt.timezone.utc)

    def copy(self, a, b):
        if os.path.isdir(a):
            shutil.copytree(a, b, dirs_exist_ok=True)
        else:
            shutil.copyfile(a, b)

    def copy_to_local(self, local_path):
        assert not os.path.lexists(local_path)
        self.copy(self.path, local_path)

    def copy_from_local(self, local_path):
        self.copy(local_path, self.path)


class Failing(Remote):
    """Uploads fail now and then."""

    fail = False

    def copy_from_local(self, local_path):
        if self.fail:
            raise OSError("upload failed")
        super().copy_from_local(local_path)


class DirStore:
    """Stores a dict of strings as the files of a directory."""

    def __init__(self, path):
        self.path = path

    def read(self):
        return {k: S.TextFileStore(os.path.join(self.path, k), encoding="utf-8").read() for k in os.listdir(self.path)}

    def write(self, value):
        os.makedirs(self.path, exist_ok=True)
        for k, v in value.items():
            S.TextFileStore(os.path.join(self.path, k), encoding="utf-8").write(v)


def inner(kind, enc):
    return {"text": lambda p: S.TextFileStore(p, encoding=enc), "json": lambda p: S.JsonFileStore(p, encoding=enc), "pickle": S.PickleFileStore,
            "binary": S.BinaryFileStore, "touch": S.TouchFileStore}[kind]


def encodable(s, enc):
    try:
        return s.encode(enc or "utf-8").decode(enc or "utf-8") == s
    except (UnicodeError, LookupError):
        return False


def builder(kind, enc, rng):
    """A function that returns the value (equal and independent every time)."""
    seed = rng.random()
    if kind == "text":
        for _ in range(30):
            v = rand_text(rng)
            if encodable(v, enc):
                return lambda: v
        return lambda: "plain\r\n\r" + str(seed)
    if kind == "json":
        f = rng.choice([rand_json] * 12 + [big_json, deep_json])
        return lambda: f(random.Random(seed))
    if kind == "pickle":
        if rng.random() < 0.3:
            return lambda: rand_json(random.Random(seed))
        f = rng.choice(PICKLES)
        return lambda: f(random.Random(seed))
    if kind == "binary":
        return lambda: rand_bytes(random.Random(seed))
    return lambda: None


def instant(d):
    if d is None:
        return []
    us = (d.astimezone(dt.timezone.utc) - EPOCH) // dt.timedelta(microseconds=1)
    return [us // 86400_000000, us // 1_000000 % 86400, us % 1_000000]


def from_ns(ns):
    us = ns // 1000
    return [us // 86400_000000, us // 1_000000 % 86400, us % 1_000000]


NAMES = ["value", "value.json", "value.txt", "a b %s {0} $HOME", "zażółć\n", "-dash", ".hidden", "value~", "v" * 200]
ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kolkata", "America/St_Johns", "Pacific/Apia"]
BASES = [1730611800, 1729990800, 1712412000, 1700000000, 86400 * 365, -86400 * 900, 0, 4102444800, 1743296400]


class World:
    def __init__(self, rng, n, specs=None):
        self.rng = rng
        self.dir = tempfile.mkdtemp(prefix="vs-", dir=CWD)
        os.chdir(self.dir)
        self.tz = rng.choice(ZONES)
        os.environ["TZ"] = self.tz
        time.tzset()
        self.events = []
        names = rng.sample(NAMES, n)
        self.stores = []
        for i in range(n):
            kind, enc, mounted = specs[i] if specs else rand_spec(rng)
            target = os.path.join(self.dir, names[i])
            arg = rng.choice([target, pathlib.Path(target), names[i], pathlib.Path(names[i])])
            make = self.maker(kind, enc, mounted, target, arg)
            self.stores.append({"kind": kind, "enc": enc, "mounted": mounted, "target": target, "make": make, "obj": make(), "want": [], "stamp": None, "cur": 0})

    def maker(self, kind, enc, mounted, target, arg):
        if mounted == "dir":
            return lambda: Remote(DirStore, target)
        if mounted == "twice":
            return lambda: Remote(lambda p: Remote(inner(kind, enc), p), target)
        if mounted == "failing":
            return lambda: Failing(inner(kind, enc), target)
        if mounted:
            return lambda: Remote(inner(kind, enc), target)
        if kind == "pathsource":
            return lambda: S.PathSource(arg, required=False)
        return lambda: inner(kind, enc)(arg)

    def close(self):
        os.chdir(CWD)
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, **e):
        self.events.append(e)

    def write(self, i, build, stamping=False):
        s = self.stores[i]
        value = build()
        s["want"].append(build)
        out = "ok"
        try:
            if s["kind"] == "pathsource":
                with open(s["target"], "w") as f:
                    f.write(str(len(self.events)))
            else:
                s["obj"].write(value)
        except Exception as e:
            out = type(e).__name__
        # the time of the previous write may have been made up
        if s["stamp"] is not None and s["stamp"] != stamping:
            self.rec(e="aged", s=i + 1)
        s["stamp"] = stamping
        if out == "ok":
            s["cur"] = len(s["want"])
        self.rec(e="write", s=i + 1, v=len(s["want"]), out="ok" if out == "ok" else "exc", bad=False, how=out)
        if self.rng.random() < 0.3:
            mutate(value)

    def bad_write(self, i):
        """A write that cannot succeed leaves the register alone."""
        s = self.stores[i]
        s["want"].append(lambda: Ellipsis)
        if s["mounted"] == "failing":
            s["obj"].fail = True
            bad = builder(s["kind"], s["enc"], self.rng)()
        else:
            bad = {"text": [5, ["x"]], "json": [[1, {2, 3}], {"a" * 9000: object()}], "pickle": [[1, lambda: 0]], "binary": ["text", 5],
                   "touch": [0, "x"], "pathsource": [1]}[s["kind"]]
            bad = self.rng.choice(bad)
        out = "ok"
        try:
            s["obj"].write(bad)
        except Exception:
            out = "exc"
        if s["mounted"] == "failing":
            s["obj"].fail = False
        self.rec(e="write", s=i + 1, v=len(s["want"]), out=out, bad=True, how=out)

    def read(self, i):
        s = self.stores[i]
        out, match = "ok", []
        try:
            got = s["obj"].read()
            if s["kind"] == "pathsource":
                match = [s["cur"]] if got == s["obj"].path and type(got) is type(s["obj"].path) else []
            else:
                match = [k + 1 for k, b in enumerate(s["want"]) if same(b(), got)]
                if self.rng.random() < 0.3:
                    mutate(got)
        except Exception as e:
            out = type(e).__name__
        self.rec(e="read", s=i + 1, out="ok" if out == "ok" else "exc", match=match, how=out)

    def time(self, i):
        s = self.stores[i]
        out, t, lo, hi = "ok", [], [], []
        try:
            got = s["obj"].get_modified_time()
            t = instant(got)
        except Exception as e:
            out = type(e).__name__
        if s["mounted"] is None or s["mounted"] != "dir":
            try:
                ns = os.stat(s["target"]).st_mtime_ns
                lo, hi = from_ns(ns - 10**9), from_ns(ns + 10**9)
            except OSError:
                pass
        self.rec(e="time", s=i + 1, out="ok" if out == "ok" else "exc", t=t, lo=lo, hi=hi, how=out)

    def stamp(self, i, ns):
        """As if the last write had happened at this time."""
        os.utime(self.stores[i]["target"], ns=(ns, ns))

    def gone(self, i):
        s = self.stores[i]
        if os.path.isdir(s["target"]):
            shutil.rmtree(s["target"])
        elif os.path.lexists(s["target"]):
            os.remove(s["target"])
        if self.rng.random() < 0.2 and s["mounted"] is None and s["kind"] != "pathsource":
            os.symlink(os.path.join(self.dir, "nowhere"), s["target"])
        s["stamp"] = None
        self.rec(e="gone", s=i + 1)

    def trace(self, rp):
        return {"p": {"stores": len(self.stores), "kinds": [[s["kind"], str(s["enc"]), str(s["mounted"])] for s in self.stores], "tz": self.tz}, "t": self.events,
                "replay": ["valuestores", *rp], "runs": 1}


def rand_spec(rng):
    kind = rng.choice(["text", "text", "json", "json", "pickle", "pickle", "binary", "touch", "pathsource"])
    enc = rng.choice(TEXT_ENCODINGS) if kind == "text" else rng.choice(JSON_ENCODINGS) if kind == "json" else None
    mounted = rng.choice([None, None, None, "once", "twice", "failing", "dir"]) if kind != "pathsource" else None
    if mounted == "dir":
        kind, enc = "text", "utf-8"
    return kind, enc, mounted


def history(key):
    rng = sub(*key)
    w = World(rng, rng.choice([1, 1, 2, 3]))
    try:
        clock = (rng.choice(BASES) * 1000 + rng.randint(-5400_000, 5400_000)) * 10**6
        simulated = rng.random() < 0.6
        if rng.random() < 0.3:
            clock = rng.choice([0, 0, 1, 10**9, -(10**9), 86400 * 10**9])  # around the epoch
        for i in range(len(w.stores)):
            w.time(i)
        for _ in range(rng.randint(4, 16)):
            i = rng.randrange(len(w.stores))
            s = w.stores[i]
            r = rng.random()
            if r < 0.45:
                if s["mounted"] == "dir":
                    keys = {"k", "ł"}
                    texts = {k: rand_text(rng) for k in keys}
                    if os.path.isdir(s["target"]):
                        os.utime(s["target"])
                    w.write(i, lambda texts=texts: dict(texts))
                    continue
                stamping = simulated and rng.random() < 0.9
                w.write(i, builder(s["kind"], s["enc"], rng), stamping)
                if stamping and w.stores[i]["cur"]:
                    clock += rng.choice([0, 1, 999, 1000, 10**6, 10**9, 60 * 10**9, 1800 * 10**9, 3600 * 10**9])
                    if os.path.isfile(s["target"]):
                        w.stamp(i, clock)
                w.time(i)
            elif r < 0.65:
                w.read(i)
                w.read(i)
            elif r < 0.75:
                w.time(i)
            elif r < 0.82 and w.events:
                w.gone(i)
                w.time(i)
            elif r < 0.88:
                w.bad_write(i)
                w.time(i)
            elif r < 0.94:
                s["obj"] = s["make"]()
            else:
                for k in range(len(w.stores)):
                    w.read(k)
        for k in range(len(w.stores)):
            w.stores[k]["obj"] = w.stores[k]["make"]()
            w.time(k)
            w.read(k)
        return w.trace(["history", list(key)])
    finally:
        w.close()


def histories(params, seed, shard, nshards):
    k = 0
    while True:
        yield history([seed, "vs", shard, k])
        k += 1


VALUES = None


def values():
    global VALUES
    if VALUES is None:
        VALUES = [json.loads(x) for x in open(os.environ["VALUES"])]
    return VALUES


def exported(item, key):
    """The values of the model, through every way of storing them."""
    rng = sub(*key)
    kind = "text" if "text" in item else "json"
    specs = [(kind, enc, m) for enc in (TEXT_ENCODINGS if kind == "text" else JSON_ENCODINGS) for m in (None, "once")]
    rng.shuffle(specs)
    specs = specs[:4] + ([("pickle", None, None)] if rng.random() < 0.3 else [])
    w = World(rng, len(specs), specs)
    try:
        for i, (k, enc, m) in enumerate(specs):
            seed = rng.random()

            def build(seed=seed):
                r = random.Random(seed)
                return text_of(item["text"], r) if kind == "text" else json_of(item["json"], r)

            if k == "text" and not encodable(build(), enc):
                continue
            w.write(i, build)
            w.time(i)
            w.read(i)
            w.read(i)
        return w.trace(["exported", item, list(key)])
    finally:
        w.close()


def domain(params, seed, shard, nshards):
    vs = values()
    order = list(range(len(vs)))
    random.Random(f"{seed}-domain").shuffle(order)
    for k in order[shard::nshards]:
        yield exported(vs[k], [seed, "dom", k])
    yield {"p": {"stores": 0}, "t": [], "runs": 0, "count": {"workers_that_finished_the_enumeration": 1}}
