"""Runs with recording progress observers, recorded for Progress.tla."""
import enum
import random

import detsched
import odd
import regplans
from regplans import Faults, World, gen_problem, opcodes, sub
from runplans import strategy

import uberjob
from uberjob.graph import Call
from uberjob.progress import Progress, ProgressObserver, composite_progress


class Colour(enum.Enum):
    RED = 1
    BLUE = 2


class Opaque:
    """Hashable and equatable, and nothing else."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Opaque) and other.k == self.k

    def __hash__(self):
        return 5


TOKENS = [10 ** 5000, odd.BadStr(1), odd.BadStr(2), 1, 2, None, "§a", "§b", Colour.RED, ("§t", 1), Opaque(1), Opaque(2), frozenset({3}), 0.5]
EQUAL = {1: [1, True, 1.0]}


def token_id(x):
    for k, t in enumerate(TOKENS):
        try:
            if t == x and hash(t) == hash(x):
                return k
        except TypeError:
            pass
    return None


def tail(x):
    return str(x).rsplit(".", 1)[-1]


def user_part(scope):
    out = []
    for x in scope:
        k = token_id(x)
        if k is None:
            break
        out.append(k)
    return out


class Member(ProgressObserver):
    def __init__(self, w, m):
        self.w, self.m = w, m

    def note(self, k, section="", scope=(), a=0):
        ct = detsched.current()
        if ct is not None:
            ct.sess.point(ct)
        self.w.log(e="note", m=self.m, k=k, sc=self.w.scope_id(section, scope) if section else "", a=a)
        if ct is not None:
            ct.sess.point(ct)

    def __enter__(self):
        self.note("enter")

    def __exit__(self, *a):
        self.note("exit")

    def increment_total(self, *, section, scope, amount):
        self.note("total", section, scope, amount)

    def increment_running(self, *, section, scope):
        self.note("running", section, scope)

    def increment_completed(self, *, section, scope):
        self.note("completed", section, scope)

    def increment_failed(self, *, section, scope, exception):
        self.note("failed", section, scope)


class PWorld(World):
    def __init__(self, p, r):
        self.r = r
        self.events = []
        n = p["n"]
        self.names = [f"f{r.randrange(3)}" for _ in range(n)]
        pool = r.sample(range(len(TOKENS)), 3)
        self.uscope = [tuple(r.choice(pool) for _ in range(r.choice([0, 0, 1, 1, 2]))) for _ in range(n)]
        super().__init__(dict(p, scope=[None] * n, wrap=[None] * n))
        self.reset()

    def reset(self):
        self.events = []
        self.ids = {}
        self.keys = {}
        self.strict = True
        self.K = 0
        self.begun = set()

    def log(self, **e):
        self.events.append(e)

    # ---- scopes and keys
    def scope_id(self, section, scope):
        try:
            scope = tuple(scope)
            k = (section, scope)
            if k not in self.ids:
                u = user_part(scope)
                rest = scope[len(u):]
                name = "" if not rest else tail(rest[0] if section == "stale" else rest[-1])
                self.ids[k] = f"{section}{len(self.ids)}"
                self.keys[self.ids[k]] = self.key(section, u, name)
        except TypeError as exc:
            return self.scope_id(section, ("malformed", str(exc)))
        return self.ids[k]

    @staticmethod
    def key(section, u, name):
        return f"{section}|{','.join(map(str, u))}|{name}"

    def tokens(self, i):
        return [self.r.choice(EQUAL[t]) if type(t) is int and t in EQUAL else t for t in (TOKENS[k] for k in self.uscope[i])]

    # ---- the plan: scopes and shared names
    def make_fn(self, i):
        fn = super().make_fn(i)
        fn.__name__ = fn.__qualname__ = self.names[i]
        fn.__module__ = "some.module"
        return fn

    def build(self):
        outer = self

        class ScopedPlan(uberjob.Plan):
            pass

        # every node is created within its own scope
        plan_cls = uberjob.Plan
        order = iter(range(self.p["n"]))
        real_call, real_lit, real_source = plan_cls.call, plan_cls.lit, uberjob.Registry.source

        def scoped(f):
            def g(self, *a, **k):
                i = next(order)
                plan = self if isinstance(self, plan_cls) else a[0]
                with plan.scope(*outer.tokens(i)):
                    return f(self, *a, **k)
            return g

        try:
            plan_cls.call, plan_cls.lit, uberjob.Registry.source = scoped(real_call), scoped(real_lit), scoped(real_source)
            super().build()
        finally:
            plan_cls.call, plan_cls.lit, uberjob.Registry.source = real_call, real_lit, real_source

    # ---- what happened
    def add(self, **e):
        super().add(**e)
        k = e["e"]
        if k in ("cs", "rs", "ws", "ce", "re", "we"):
            i = e["n"] - 1
            key = self.key("run", self.uscope[i], {"c": self.names[i], "r": "read", "w": "write"}[k[0]])
            if k[1] == "s":
                if (k, i) not in self.begun:
                    self.begun.add((k, i))
                    self.log(e="op", k="start", key=key, ok=True, last=True)
            else:
                self.log(e="op", k="end", key=key, ok=e["ok"], last=e["last"])
                if not e["ok"] and "base" in self.fault.faults.values():
                    self.strict = False
        elif k in ("qe",):
            if not e["ok"] and "base" in self.fault.faults.values():
                self.strict = False
        elif k == "hang":
            self.log(e="hang")

    def progress(self):
        r = self.r

        def one():
            self.K += 1
            m = self.K
            return Progress(lambda: Member(self, m))

        x = r.random()
        if x < 0.3:
            return one()
        if x < 0.5:
            return [one() for _ in range(r.randint(1, 3))]
        if x < 0.7:
            return tuple(one() for _ in range(2))
        if x < 0.85:
            return composite_progress(one(), composite_progress(one(), one()))
        return [composite_progress(*[one() for _ in range(r.randint(1, 2))]), one()]

    def extra(self):
        def transform(plan, out):
            if self.r.random() < 0.25:
                def extra():
                    self.log(e="op", k="start", key="run||extra", ok=True, last=True)
                    self.log(e="op", k="end", key="run||extra", ok=True, last=True)

                extra.__module__, extra.__qualname__ = "some.module", "extra"
                with plan.scope(*self.boom):
                    plan.call(extra)
            counts, ops = {}, set()
            for u in plan.graph.nodes():
                if type(u) is Call:
                    name = tail(getattr(u.fn, "__qualname__", ""))
                    k = self.key("run", user_part(u.scope), name)
                    counts[k] = counts.get(k, 0) + 1
                    if name in ("f0", "f1", "f2", "read", "write", "extra"):
                        ops.add(k)
            self.log(e="phys", counts=[dict(k=k, n=n) for k, n in counts.items()], ops=sorted(ops))
            if self.r.random() < 0.04:
                raise RuntimeError("transform")
            return plan, out

        self.boom = ()
        return {"transform_physical": transform}

    def examined(self):
        """Calls of the plan that the stale check has to examine, by user scope and name."""
        counts = {}
        if len(self.registry):
            for i in range(self.p["n"]):
                if self.p["kind"][i] != "lit":
                    k = self.key("stale", self.uscope[i], "source" if self.p["kind"][i] == "src" else self.names[i])
                    counts[k] = counts.get(k, 0) + 1
        return [dict(k=k, n=n) for k, n in counts.items()]

    def record(self, ev, dry):
        if ev is not None:
            self.log(e="ret", out=ev["out"], dry=dry, strict=self.strict)
        return {"p": {"K": self.K, "key": [dict(k=k, n=n) for k, n in self.keys.items()]}, "t": self.events}


def runs(params, seed, shard, nshards):
    i = shard
    while True:
        s = sub(seed, "prog", params, i)
        yield from history(params, s)
        i += nshards


def history(params, s):
    for k, tr in enumerate(_history(params, s)):
        tr["replay"] = ["progressruns", "nth", params, s, k]
        yield tr


def nth(params, s, k):
    for j, tr in enumerate(_history(params, s)):
        if j == k:
            return tr


def _history(params, s):
    r = random.Random(s)
    random.seed(s)
    p = gen_problem(r, params)
    if r.random() < 0.2:
        p["reg"] = [k == "src" for k in p["kind"]]
    if r.random() < 0.12:  # nothing is registered
        p["kind"] = ["call" if k == "src" else k for k in p["kind"]]
        p["reg"] = [False] * p["n"]
        p["side"] = [0] * p["n"]
    w = PWorld(p, r)
    for i in w.primary():
        w.update_source(i)
    nops = 12
    for _ in range(r.randint(1, 3)):
        w.reset()
        faults, gates, intr = {}, [], 0.0
        if r.random() < 0.5:
            x = r.random()
            faults = {r.randint(1, max(2, nops)): r.choice(["before", "after", "before", "base"] if x < 0.15 else ["before", "after"])
                      for _ in range(r.choice([1, 1, 3]))}
        elif r.random() < 0.2:
            intr, gates = r.choice([0.1, 0.3, 1.0]), opcodes(p)
        if not gates and r.random() < 0.2:
            gates = [g for g in opcodes(p) if r.random() < 0.6]
        out, output = w.output_spec(r, 0.3)
        f = Faults(faults, gates, r.random(), intr, naive=r.random() < 0.5)
        R = r.choice([1, 1, 1, 2, 3])
        dry = r.random() < 0.1
        if len(w.registry):
            w.log(e="examined", counts=w.examined())
        box = w.run(r, out, output, fault=f, W=r.choice([1, 1, 2, 3, 4]), SW=r.choice([None, None, 1, 2]), R=R, ME=r.choice([0, 0, 1, None]),
                    fresh=w.tick() if r.random() < 0.2 else None, dry=dry, sched=r.choice(["default", "random", None]), strat=strategy(r, 4000),
                    trace=r.random() < params.get("p_trace", 0.3))
        tr = w.record(box.get("ev"), dry)
        tr["count"] = {"dry": int(dry), "failed": int(box.get("ev", {}).get("out") != "value"), "interrupts": int(f.intr_done), "members": w.K}
        yield tr
        nops = max(nops // 2, w.ops)
        if r.random() < 0.6 and w.primary():
            w.update_source(r.choice(w.primary()))
        if box.get("hang"):
            break
