"""Histories of plans and registries (mutations, copies, runs, dry runs, renderings, nested and concurrent), recorded for
Isolation.tla."""
import copy
import datetime as dt
import random
import sys
import threading

import uberjob
from uberjob.graph import Call, Dependency, KeywordArg, Literal, Node, PositionalArg

T0 = dt.datetime(2024, 1, 1, tzinfo=dt.timezone.utc)


class Interner:
    def __init__(self):
        self.d = {}
        self.keep = []

    def __call__(self, x):
        return self.d.setdefault(x, len(self.d) + 1)

    def obj(self, o):
        """The number of an object by identity (kept alive, so that numbers are never reused)."""
        k = ("id", id(o))
        if k not in self.d:
            self.keep.append(o)
        return self(k)


class Inject(Exception):
    pass


class Store(uberjob.ValueStore):
    def __init__(self, w, name, value=None, time=None):
        self.w, self.name, self.value, self.time = w, name, value, time
        self.lock = threading.Lock()

    def read(self):
        self.w.inside("read")
        with self.lock:
            return self.value

    def write(self, value):
        self.w.inside("write")
        with self.lock:
            self.value, self.time = value, self.w.tick()

    def get_modified_time(self):
        self.w.inside("time")
        return self.time

    def __repr__(self):
        return f"Store({self.name})"


class Observer(uberjob.progress.ProgressObserver):
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w.inside("enter")

    def __exit__(self, *a):
        self.w.inside("exit")

    def increment_total(self, *, section, scope, amount):
        self.w.inside("total")

    def increment_running(self, *, section, scope):
        self.w.inside("running")

    def increment_completed(self, *, section, scope):
        self.w.inside("completed")

    def increment_failed(self, *, section, scope, exception):
        self.w.inside("failed")


class World:
    def __init__(self, rng, threads=False):
        self.rng = rng
        self.lock = threading.RLock()
        self.num = Interner()
        self.plans, self.regs, self.nodes, self.scopes = [], [], [], []
        self.phys = []
        self.fns = {}
        self.events = []
        self.clock = 0
        self.depth = 0
        self.inject = None
        self.nest = 0.0
        self.quiet = threads
        self.last = None

    def tick(self):
        with self.lock:
            self.clock += 1
            return T0 + dt.timedelta(seconds=self.clock)

    # ---- contents
    def node_attrs(self, u):
        n = self.num
        scope = tuple(n.obj(x) for x in u.scope) if type(u.scope) is tuple else ("?", type(u.scope).__name__)
        if type(u) is Call:
            extra = ("call", n.obj(u.fn))
        elif type(u) is Literal:
            extra = ("lit", n.obj(u.value))
        else:
            extra = ("?",)
        return n((n.obj(u), extra, scope, n.obj(getattr(u, "stack_frame", None))))

    def plan_content(self, plan):
        g = plan.graph
        nodes = frozenset((self.node_attrs(u), repr(sorted(d.items(), key=repr))) for u, d in g.nodes(data=True))
        edges = []
        for u, v, k, d in g.edges(keys=True, data=True):
            key = ("p", k.index) if type(k) is PositionalArg else ("k", k.name, k.index) if type(k) is KeywordArg \
                else ("d",) if type(k) is Dependency else ("?", repr(k))
            edges.append((self.num.obj(u), self.num.obj(v), key, repr(d)))
        return self.num(("plan", nodes, tuple(sorted(edges)), repr(g.graph)))

    def reg_content(self, reg):
        items = frozenset((self.num.obj(n), self.num.obj(s)) for n, s in reg.items())
        more = frozenset((self.num.obj(n), self.num.obj(v.value_store), v.is_source, self.num.obj(getattr(v, "stack_frame", None))) for n, v in reg.mapping.items()) \
            if hasattr(reg, "mapping") else ()
        return self.num(("reg", items, more, len(reg), frozenset(self.num.obj(n) for n in reg)))

    def obs(self):
        out = {}
        for pre, objs, f in (("p", self.plans, self.plan_content), ("r", self.regs, self.reg_content)):
            for i, o in enumerate(objs):
                try:
                    out[f"{pre}{i + 1}"] = f(o)
                except RuntimeError as e:  # changed while it was being iterated over
                    out[f"{pre}{i + 1}"] = self.num(("broken", str(e), random.random()))
        return out

    def see(self, op, w=(), of="", **more):
        with self.lock:
            self.events.append({"e": "op", "op": op, "w": list(w), "of": of, "obs": self.obs(), **more})

    # ---- code of the user, called by uberjob
    def inside(self, point):
        if self.quiet:
            return
        with self.lock:
            r = self.rng.random()
            if r < 0.25:
                self.see("inside", at=point)
            if self.inject and self.rng.random() < self.inject:
                raise self.rng.choice([Inject, Inject, KeyError, KeyboardInterrupt if point != "x" else Inject])(point)
            nest = self.depth < 2 and self.rng.random() < self.nest
            if nest:
                self.depth += 1
                saved, self.inject = self.inject, None
        if nest:
            try:
                self.nonmutating()
            finally:
                with self.lock:
                    self.inject = saved
                    self.depth -= 1

    def fn(self, name):
        if name not in self.fns:
            def f(*args, **kwargs):
                self.inside("call")
                return f"{name}({','.join(map(str, args))};{','.join(f'{k}={v}' for k, v in kwargs.items())})"
            f.__name__ = f.__qualname__ = name
            self.fns[name] = f
        return self.fns[name]

    # ---- operations of the user
    def new_plan(self):
        self.plans.append(uberjob.Plan())
        self.nodes.append([])
        self.scopes.append([])
        self.see("new", [])

    def new_reg(self):
        self.regs.append(uberjob.Registry())
        self.see("new", [])

    def value(self, i, depth=2):
        rng = self.rng
        r = rng.random()
        if r < 0.55 and self.nodes[i]:
            return rng.choice(self.nodes[i])
        if r < 0.7 and depth:
            items = [self.value(i, depth - 1) for _ in range(rng.randint(1, 3))]
            try:
                return rng.choice([list, tuple, set, lambda q: {"k": q}])(items)
            except TypeError:
                return items
        return rng.choice(["a", "b", 1, None, (1, 2)])

    def mutate(self):
        rng = self.rng
        i = rng.randrange(len(self.plans))
        plan, nodes = self.plans[i], self.nodes[i]
        p = [f"p{i + 1}"]
        kind = rng.choice(["call", "call", "call", "lit", "dep", "gather", "unpack", "source", "add", "add", "set", "del", "graph"])
        j = rng.randrange(len(self.regs)) if self.regs else None
        if kind == "call":
            args = [self.value(i) for _ in range(rng.randint(0, 2))]
            kw = {k: self.value(i) for k in rng.sample(["x", "y"], rng.choice([0, 0, 1, 2]))}
            node = plan.call(self.fn(rng.choice("fgh")), *args, **kw)
            nodes.append(node)
            self.see("call", p)
            self.events.append({"e": "scope", "want": repr(tuple(self.scopes[i])), "got": repr(node.scope)})
        elif kind == "lit":
            nodes.append(plan.lit(rng.choice([1, "lit", [1]])))
            self.see("lit", p)
        elif kind == "gather":
            v = plan.gather(self.value(i))
            if v not in nodes:
                nodes.append(v)
            self.see("gather", p)
        elif kind == "unpack":
            pair = plan.call(self.pair, *([rng.choice(nodes)] if nodes else []))
            nodes.extend(plan.unpack(pair, 2))
            self.see("unpack", p)
        elif kind == "dep" and len(nodes) > 1:
            a, b = sorted(rng.sample(range(len(nodes)), 2))
            if rng.random() < 0.08:
                a, b = b, a  # may close a cycle
            plan.add_dependency(nodes[a], nodes[b])
            self.see("dep", p)
        elif kind == "source" and j is not None:
            s = Store(self, f"s{self.clock}", f"src{self.clock}", self.tick())
            nodes.append(self.regs[j].source(plan, s))
            self.see("source", p + [f"r{j + 1}"])
        elif kind == "add" and j is not None:
            free = [u for u in nodes if u not in self.regs[j]]
            if free:
                self.regs[j].add(rng.choice(free), Store(self, f"s{self.clock}"))
                self.see("add", [f"r{j + 1}"])
        elif kind == "set" and j is not None and len(self.regs[j]) and hasattr(self.regs[j], "mapping"):
            u = rng.choice(list(self.regs[j].keys()))
            v = self.regs[j].mapping[u]
            v.value_store = Store(self, "other" + v.value_store.name, v.value_store.value, v.value_store.time)
            self.see("set", [f"r{j + 1}"])
        elif kind == "del" and j is not None and len(self.regs[j]) and hasattr(self.regs[j], "mapping"):
            del self.regs[j].mapping[rng.choice(list(self.regs[j].keys()))]
            self.see("del", [f"r{j + 1}"])
        elif kind == "graph" and rng.random() < 0.3 and nodes:
            u = rng.choice(nodes)
            plan.graph.add_node(u, mark=self.clock)
            self.see("graph", p)

    @staticmethod
    def pair(x=0):
        return (f"l{x}", f"r{x}")

    def copy(self):
        rng = self.rng
        plan = rng.random() < 0.5 or not self.regs
        objs = self.plans if plan else self.regs
        i = rng.randrange(len(objs))
        new = rng.choice([objs[i].copy, lambda: copy.copy(objs[i])])()
        with self.lock:
            objs.append(new)
            if plan:
                self.nodes.append(list(self.nodes[i]))
                self.scopes.append([])
            self.see("copy", of=f"{'p' if plan else 'r'}{i + 1}")

    def output(self, i):
        r = self.rng.random()
        if r < 0.2 or not self.nodes[i]:
            return None
        if r < 0.6:
            return self.rng.choice(self.nodes[i])
        return self.value(i)

    def transform(self, plan, out):
        """A transformation that tears the physical plan apart, but for what the output needs."""
        self.inside("transform")
        g = plan.graph
        for u in list(g.nodes()):
            if self.rng.random() < 0.3:
                g.add_node(u, touched=1)
        for e in list(g.edges(keys=True)):
            if self.rng.random() < 0.2:
                g.add_edge(e[0], e[1], Dependency())
        plan.call(self.fn("t"))
        if self.rng.random() < 0.2:
            g.clear()
            return plan, None
        return plan, out

    def run(self, dry=False):
        rng = self.rng
        i = rng.randrange(len(self.plans))
        j = rng.randrange(len(self.regs)) if self.regs and rng.random() < 0.7 else None
        out = self.output(i)
        if self.last and rng.random() < 0.35:  # once more
            i, out = self.last[0], self.last[1]
            j = self.last[2] if rng.random() < 0.7 else j
        self.last = (i, out, j)
        kw = {}
        inj = self.inject
        if rng.random() < 0.15 and self.depth == 0:
            kw["transform_physical"] = self.transform
        if rng.random() < 0.15:
            kw["fresh_time"] = T0 + dt.timedelta(seconds=rng.randint(0, self.clock))
        if rng.random() < 0.1:
            kw["scheduler"] = "random"
        if rng.random() < 0.2:
            kw["retry"] = 2
        if rng.random() < 0.3:
            kw["max_errors"] = rng.choice([None, 1, 5])
        if rng.random() < 0.03:
            kw[rng.choice(["max_workers", "scheduler", "retry", "fresh_time", "progress"])] = "nonsense"
        kw.setdefault("max_workers", 1 if self.depth or rng.random() < 0.7 else 3)
        kw.setdefault("progress", [Observer_progress(self)] if rng.random() < 0.3 and self.depth == 0 else False)
        val = None
        try:
            val = uberjob.run(self.plans[i], output=out, registry=None if j is None else self.regs[j], dry_run=dry, **kw)
            how = "ok"
        except BaseException as e:
            how = type(e).__name__
        if dry and how == "ok":
            self.phys.append(val[0])
            if rng.random() < 0.5:  # the physical plan belongs to the caller
                g = val[0].graph
                for u in list(g.nodes()):
                    if rng.random() < 0.3:
                        g.remove_node(u)
                for e in list(g.edges(keys=True)):
                    if rng.random() < 0.3:
                        g.remove_edge(*e)
                if rng.random() < 0.3:
                    try:
                        self.see("dry")
                        uberjob.run(val[0], progress=False, max_workers=1)
                    except BaseException:
                        pass
        with self.lock:
            self.see("dry" if dry else "run", how=how)
            if how == "ok" and not dry and not inj and "transform_physical" not in kw:
                key = self.outkey(out)
                self.result(i, key, repr(self.plain(val)))

    def result(self, i, key, val):
        # what a run returns does not depend on the registry: stores hold what would be computed, sources are constant
        with self.lock:
            k = f"{self.plan_content(self.plans[i])}/{key}"
            self.events.append({"e": "result", "key": k, "val": val})

    def outkey(self, out):
        if isinstance(out, Node):
            return f"n{self.num.obj(out)}"
        if type(out) in (list, tuple):
            return f"{type(out).__name__}({','.join(map(self.outkey, out))})"
        if type(out) is set:
            return f"set({','.join(sorted(map(self.outkey, out)))})"
        if type(out) is dict:
            return f"dict({','.join(f'{k}:{self.outkey(v)}' for k, v in out.items())})"
        return repr(out)

    def plain(self, v):
        if type(v) is set:
            return ("set", sorted(map(repr, map(self.plain, v))))
        if type(v) in (list, tuple):
            return (type(v).__name__, [self.plain(x) for x in v])
        return v

    def render(self):
        rng = self.rng
        i = rng.randrange(len(self.plans))
        plan = self.plans[i]
        what = rng.choice([plan, plan, plan.graph, (plan, None)] + ([(plan, self.nodes[i][0])] if self.nodes[i] else []))
        kw = {}
        if rng.random() < 0.6:
            kw["level"] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.4:
            kw["predicate"] = rng.choice([lambda u, d: type(u) is Call, lambda u, d: self.inside("predicate") or True, lambda u, d: False])
        if self.regs and rng.random() < 0.5:
            kw["registry"] = rng.choice(self.regs)
        try:
            uberjob.render(what, format=rng.choice(["raw", "svg"]) if rng.random() < 0.3 else "raw", **kw)
            how = "ok"
        except BaseException as e:
            how = type(e).__name__ + str(e)[:80]
        self.see("render", how=how)

    def nonmutating(self):
        r = self.rng.random()
        if r < 0.5:
            self.run()
        elif r < 0.75:
            self.run(dry=True)
        elif r < 0.9 and self.depth < 2:
            self.copy()
        else:
            self.see("inside", at="nested")

    def trace(self, rp):
        return {"p": {"x": 0}, "t": self.events, "replay": ["isolation", *rp], "runs": 1}


def Observer_progress(w):
    return uberjob.progress.Progress(lambda: Observer(w))


def build(w, n):
    w.new_plan()
    if w.rng.random() < 0.85:
        w.new_reg()
    stack = []
    for _ in range(n):
        if w.rng.random() < 0.25:
            if stack and w.rng.random() < 0.5:
                leave(w, stack)
            else:
                i, value = w.rng.randrange(len(w.plans)), w.rng.choice(["a", "b", 1])
                cm = w.plans[i].scope(value)
                cm.__enter__()
                w.scopes[i].append(value)
                stack.append((cm, i))
        else:
            w.mutate()
    return stack


def leave(w, stack):
    cm, i = stack.pop()
    cm.__exit__(None, None, None)
    w.scopes[i].pop()


def history(key):
    rng = random.Random("-".join(map(str, key)))
    w = World(rng)
    stack = build(w, rng.randint(2, 12))
    renders = 0
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        w.inject = rng.choice([None, None, 0.1, 0.4])
        w.nest = rng.choice([0, 0.05, 0.15])
        try:
            if r < 0.4:
                w.run()
            elif r < 0.55:
                w.run(dry=True)
            elif r < 0.62 and renders < 2:
                renders += 1
                w.inject = None
                w.render()
            elif r < 0.75:
                w.inject = None
                w.copy()
            else:
                w.inject = None
                for _ in range(rng.randint(1, 3)):
                    w.mutate()
        except KeyboardInterrupt:
            w.see("run", how="KeyboardInterrupt")
        if stack and rng.random() < 0.2:
            leave(w, stack)
    return w.trace(["history", list(key)])


def histories(params, seed, shard, nshards):
    k = 0
    while True:
        yield history([seed, "iso", shard, k])
        k += 1


def concurrent(key):
    """The same plan and registry, run from several threads at once."""
    rng = random.Random("-".join(map(str, key)))
    w = World(rng, threads=True)
    sys.setswitchinterval(1e-5)
    stack = build(w, rng.randint(6, 25))
    while stack:
        leave(w, stack)
    i = 0
    outs = [w.output(i) for _ in range(2)]
    regs = [None] + w.regs
    jobs = []
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(["run", "run", "run", "dry", "copy", "render"])
        jobs.append((kind, rng.choice(outs), rng.choice(regs), rng.choice([1, 2, 4])))
    results = []
    # alone first
    for out in outs:
        for reg in regs:
            try:
                v = uberjob.run(w.plans[i], output=out, registry=reg, progress=False, max_workers=1)
                w.result(i, w.outkey(out) + str(reg is None), repr(w.plain(v)))
            except Exception as e:
                w.result(i, w.outkey(out) + str(reg is None), "raised " + type(e).__name__)
            w.see("run")
    for s in w.regs:
        for u, st in s.items():
            if rng.random() < 0.4 and not s.mapping[u].is_source:
                st.time = None  # to be computed again
    start = threading.Barrier(len(jobs))

    def work(kind, out, reg, mw):
        start.wait()
        try:
            if kind == "run":
                results.append((out, reg, repr(w.plain(uberjob.run(w.plans[i], output=out, registry=reg, progress=False, max_workers=mw)))))
            elif kind == "dry":
                uberjob.run(w.plans[i], output=out, registry=reg, progress=False, dry_run=True, max_workers=mw)
            elif kind == "render":
                uberjob.render(w.plans[i], registry=reg, level=1, format="raw")
            else:
                w.plans[i].copy()
        except Exception as e:
            if kind == "run":
                results.append((out, reg, "raised " + type(e).__name__))

    ts = [threading.Thread(target=work, args=j) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    w.see("run")
    for out, reg, v in results:
        w.result(i, w.outkey(out) + str(reg is None), v)
    return w.trace(["concurrent", list(key)])


def threads(params, seed, shard, nshards):
    k = 0
    while True:
        yield concurrent([seed, "thr", shard, k])
        k += 1
