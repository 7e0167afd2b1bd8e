"""Runs whose results are tracked by weak references, recorded for Release.tla."""
import datetime as dt
import gc
import random
import weakref

import detsched

detsched.install()
import uberjob  # noqa: E402
from uberjob import CallError  # noqa: E402
from uberjob.graph import Call, KeywordArg, PositionalArg  # noqa: E402
from runplans import ExcA, strategy, sub, want_file  # noqa: E402


class Tok:
    __slots__ = ("__weakref__", "id", "payload")


class World:
    def __init__(self):
        self.refs = []
        self.events = []

    def tok(self, payload=None):
        t = Tok()
        t.id = len(self.refs) + 1
        t.payload = payload
        self.refs.append(weakref.ref(t))
        return t

    def alive(self):
        gc.collect()
        return [k + 1 for k, ref in enumerate(self.refs) if ref() is not None]

    def add(self, **e):
        self.events.append(e)


def tokens(x, acc=None):
    """The tokens contained in a value."""
    acc = set() if acc is None else acc
    if isinstance(x, Tok):
        acc.add(x.id)
        tokens(x.payload, acc)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            tokens(y, acc)
    elif isinstance(x, dict):
        for k, y in x.items():
            tokens(k, acc)
            tokens(y, acc)
    return acc


class Store(uberjob.ValueStore):
    """Keeps nothing: every read makes a new object."""

    def __init__(self, w, k, modified):
        self.w, self.k, self.modified, self.many = w, k, modified, False

    def read(self):
        return tuple(self.w.tok() for _ in range(2)) if self.many else self.w.tok()

    def write(self, value):
        self.modified = dt.datetime(2021, 1, 1) + dt.timedelta(seconds=self.k)
        self.many = isinstance(value, tuple) and len(value) == 2

    def get_modified_time(self):
        return self.modified


class Scenario:
    def __init__(self, params, s):
        self.r = r = random.Random(s)
        random.seed(s)
        self.w = World()
        big = r.random() < params.get("p_big", 0.15)
        self.n = n = r.randint(8, params.get("big", 30)) if big else r.randint(1, params.get("n", 7))
        self.R = r.choice([1, 1, 1, 2, 3])
        self.W = r.choice([1, 1, 2, 2, 3, 4])
        self.ME = r.choice([0, 1, None, None])
        q = r.choice([0.2, 0.4]) if r.random() < params.get("p_fail", 0.35) else 0
        self.fail = [r.choice([99, r.randint(1, self.R)]) if r.random() < q else 0 for _ in range(n)]
        self.gate_p = r.choice([1.0, 1.0, 0.6, 0.3])
        self.cons, self.out = [], 0
        self.index = {}
        self.plan, self.registry, self.output = self.build()

    # ---- user code
    def fn(self, i, kind):
        w, r = self.w, self.r
        attempts = [0]

        def f(*args, **kwargs):
            attempts[0] += 1
            if attempts[0] <= self.fail[i]:
                raise ExcA(i)
            if kind == "one":
                return w.tok()
            if kind == "two":
                return (w.tok(), w.tok())
            if kind == "same":
                return args[0] if args else w.tok()
            if kind == "wrap":
                return [args, dict(kwargs)]
            if kind == "refer":
                return w.tok((args, kwargs))
            if kind == "cycle":
                t = w.tok()
                t.payload = t2 = w.tok()
                t2.payload = [args]
                return [t]
            return None

        f.__name__ = f.__qualname__ = f"f{i}"
        return f

    def build(self):
        r, n = self.r, self.n
        plan = uberjob.Plan()
        registry = uberjob.Registry()
        use_reg = r.random() < 0.45
        values = []  # symbolic values with whether they are calls that return pairs
        calls = []
        shape = r.random()
        for i in range(n):
            if use_reg and r.random() < 0.2:
                v = registry.source(plan, Store(self.w, i, dt.datetime(2020, 1, 1)))
                values.append(v)
                calls.append(v)
                continue
            if shape < 0.2:
                pool = values[-1:]
            elif shape < 0.4:
                pool = values[-3:]
            elif shape < 0.5:
                pool = values[:2]
            else:
                pool = values
            kind = r.choice(["one", "one", "one", "two", "two", "same", "wrap", "refer", "cycle", "none"])
            args, kwargs = [], {}
            for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if pool else 0):
                v = r.choice(pool)
                how = r.choice(["pos", "pos", "kw", "list", "dict", "tuple", "set", "deep"])
                if how == "pos":
                    args.append(v)
                elif how == "kw":
                    kwargs[r.choice(["a", "b", "fn"])] = v
                elif how == "list":
                    args.append([v, 1, r.choice(pool)])
                elif how == "dict":
                    args.append({"k": v, "l": r.choice(pool)})
                elif how == "tuple":
                    args.append((v,))
                elif how == "set":
                    args.append([{"k": 1}, v])
                else:
                    args.append({"k": [(r.choice(pool),), {"z": v}]})
            c = plan.call(self.fn(i, kind), *args, **kwargs)
            if values and r.random() < 0.2:
                plan.add_dependency(r.choice(calls), c)
            calls.append(c)
            if kind == "two" and r.random() < 0.7:
                values.extend(plan.unpack(c, 2))
            values.append(c)
            if use_reg and r.random() < 0.4:
                registry.add(c, Store(self.w, i, None if r.random() < 0.7 else dt.datetime(2022, 1, 1)))
        k = r.random()
        if k < 0.15:
            output = None
        elif k < 0.5:
            output = r.choice(values)
        elif k < 0.6:
            output = [r.choice(values), {"x": r.choice(calls)}]
        else:
            output = calls[-1]
        return plan, registry if use_reg else None, output

    # ---- the physical plan, with every call observed
    def transform(self, plan, out):
        g = plan.graph
        order = [u for u in g.nodes() if type(u) is Call]
        self.index = {u: k + 1 for k, u in enumerate(order)}
        self.cons = [[] for _ in order]
        for u, v, key in g.edges(keys=True):
            if isinstance(key, (PositionalArg, KeywordArg)) and u in self.index and v in self.index:
                self.cons[self.index[u] - 1].append(self.index[v])
        self.cons = [sorted(set(x)) for x in self.cons]
        self.out = self.index.get(out, 0)
        self.literal_out = out is not None and out not in self.index
        for u in order:
            u.fn = self.observed(self.index[u], u.fn)
        return plan, out

    def observed(self, n, fn):
        w, R = self.w, self.R
        attempts = [0]
        gate = self.r.random() < self.gate_p

        def call(*args, **kwargs):
            attempts[0] += 1
            ct = detsched.current()
            if gate:
                ct.sess.gate(ct, n)
            else:
                ct.sess.point(ct)
            try:
                result = fn(*args, **kwargs)
            except ExcA:
                if attempts[0] >= R:
                    w.add(e="end", n=n, ok=False, has=sorted(tokens((args, kwargs))))
                raise
            w.add(e="end", n=n, ok=True, has=sorted(tokens(result)))
            return result

        call.__name__ = call.__qualname__ = getattr(fn, "__name__", "call")
        return call

    # ---- driving
    def on_idle(self, sess):
        g = sess.gated()
        if not g:
            return False
        self.w.add(e="quiet", alive=self.w.alive())
        k = 1 if self.r.random() < 0.7 else self.r.randint(1, len(g))
        for _, t in self.r.sample(g, k):
            sess.open_gate(t)
        return True

    def execute(self, trace):
        w, r = self.w, self.r
        sess = detsched.Session(strategy(r, 3000), trace_files=want_file if trace else None, on_idle=self.on_idle)
        box = {}
        sched = r.choice(["default", "random", None])

        def main():
            try:
                box["value"] = uberjob.run(self.plan, output=self.output, registry=self.registry, max_workers=self.W, max_errors=self.ME,
                                           retry=self.R if self.R > 1 else None, scheduler=sched, progress=None,
                                           transform_physical=self.transform)
                box["ok"] = True
            except CallError:
                box["ok"] = False
            except Exception as exc:
                box["ok"] = False
                box["crash"] = repr(exc)[:200]

        gc.disable()
        try:
            hang = sess.run(main)
            if hang:
                w.add(e="hang", why=hang)
            elif "crash" in box:
                w.add(e="crash", what=box["crash"])
            else:
                w.add(e="ret", ok=box["ok"], alive=w.alive())
        finally:
            gc.enable()
        return {"p": {"cons": self.cons, "out": self.out}, "t": w.events}


def runs(params, seed, shard, nshards):
    gc.collect()
    gc.freeze()
    i = shard
    while True:
        yield run_one(params, sub(seed, "release", params, i))
        i += nshards


def run_one(params, s):
    sc = Scenario(params, s)
    tr = sc.execute(sc.r.random() < 0.4)
    tr["replay"] = ["release", "run_one", params, s]
    tr["count"] = {"quiet": sum(1 for e in tr["t"] if e["e"] == "quiet"), "tokens": len(sc.w.refs), "failed": sum(1 for e in tr["t"] if e["e"] == "end" and not e["ok"])}
    return tr
