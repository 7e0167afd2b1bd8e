"""Odd values: scope values that are hashable and equatable and nothing else, unusual callables and exceptions."""
import dataclasses
import datetime as dt
import functools

class Unord:
    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return type(other) is type(self) and other.k == self.k

    def __hash__(self):
        return 7


class BadStr(Unord):
    def __str__(self):
        raise ValueError("no string")


class BadRepr(Unord):
    def __repr__(self):
        raise RuntimeError("no representation")


class NonStr(Unord):
    def __str__(self):
        return 5


class Result:
    def __bool__(self):
        raise ValueError("ambiguous")


class WeirdLt(Unord):
    def __lt__(self, other):
        return Result()


class RaisingLt(Unord):
    def __lt__(self, other):
        raise RuntimeError("cannot compare")


class Meta(type):
    def __repr__(cls):
        raise RuntimeError("no representation of the class")


class BadClass(metaclass=Meta):
    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return other is self

    def __hash__(self):
        return 8

    def __repr__(self):
        return "BadClass"


class Text(str):
    def __str__(self):
        return "text"


ORDERED = [1, 2, "a", "b", "a.b.c", 0.5, ("x", 1)]
UNORDERED = [None, Unord(1), Unord(2), frozenset({1}), frozenset({2}), 1j, 2j, Unord, int, ..., b"x", float("nan"), (1, None), (1, "x"),
             WeirdLt(1), WeirdLt(2), RaisingLt(1), RaisingLt(2), dt.timezone.utc, len, "\ud800", "é", "日本", "two\nlines", "<b>&\"'", "</td>",
             "\x00", "%s{}", "", Text("hidden"), range(2), dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)]
NASTY = [BadStr(1), BadStr(2), BadRepr(1), NonStr(1), 10 ** 5000, BadClass(1), BadClass(2)]




def scope_value(r, nasty=0.5):
    return r.choice(NASTY if r.random() < nasty else UNORDERED + ORDERED)


# ------------------------------------------------------------------ callables
class Equal:
    """A callable that equals every other one."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args, **kwargs):
        return self.fn(*args, **kwargs)

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 9


class Unhashable(Equal):
    __hash__ = None


class Falsy(Equal):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Faceless(Equal):
    def __repr__(self):
        raise RuntimeError("no representation")


class Bound:
    def __init__(self, fn):
        self.fn = fn

    def call(self, *args, **kwargs):
        return self.fn(*args, **kwargs)


CALLABLES = [Equal, Unhashable, Falsy, Faceless, functools.partial, lambda fn: Bound(fn).call, lambda fn: lambda *a, **k: fn(*a, **k)]


def callable_of(r, fn, p=0.3):
    return r.choice(CALLABLES)(fn) if r.random() < p else fn


# ------------------------------------------------------------------ exceptions
@dataclasses.dataclass(frozen=True)
class Frozen(Exception):
    code: int


class Rigid(Exception):
    """Its attributes cannot be assigned and it cannot be printed."""

    def __setattr__(self, name, value):
        raise TypeError("immutable")

    def __str__(self):
        raise RuntimeError("no string")

    __repr__ = __str__


class Group(ExceptionGroup):
    pass


def exception(r):
    k = r.randrange(5)
    return Frozen(1) if k == 0 else Rigid(1) if k == 1 else Group("g", [ValueError(1)]) if k == 2 else StopIteration(1) if k == 3 else KeyError("\ud800")


def text(x):
    try:
        return repr(x)
    except Exception:
        return object.__repr__(x)
