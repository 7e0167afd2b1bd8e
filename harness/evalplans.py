"""Symbolic programs executed by uberjob.run, recorded for Eval.tla."""
import collections
import functools
import json
import os
import random

import detsched

detsched.install()
import uberjob  # noqa: E402
from runplans import strategy, sub, want_file  # noqa: E402
from uberjob.graph import Node  # noqa: E402

KW = ["a", "b", "fn", "self", "stack_frame", "node", "args", "kwargs", "scope", "retry", "name", "value", "plan", "index", "z"]


class Obj:
    """Equal and hashed by key."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return isinstance(other, Obj) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


class Weird:
    """Nothing but identity may be used."""

    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError("compared")

    def __bool__(self):
        raise RuntimeError("truth value")

    def __iter__(self):
        raise RuntimeError("iterated")

    def __len__(self):
        raise RuntimeError("len")

    def __call__(self, *a, **k):
        raise RuntimeError("called")

    def __copy__(self):
        raise RuntimeError("copied")

    def __deepcopy__(self, memo):
        raise RuntimeError("copied")


class Falsy(Obj):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class SubList(list):
    pass


class SubDict(dict):
    pass


class SubTuple(tuple):
    pass


Named = collections.namedtuple("Named", "a b")


class Iter:
    def __init__(self, items, forever):
        self.items = items
        self.forever = forever

    def __iter__(self):
        yield from self.items
        while self.forever:
            yield object()


PRIMS = [None, True, False, 0, 1, 1.0, 0.0, "", "a", b"", 2, "1"]


def prim(v):
    key = f"n{float(v)}" if isinstance(v, (int, float)) else f"{type(v).__name__}:{v!r}"
    return {"t": "obj", "id": f"p:{type(v).__name__}:{v!r}", "key": key}


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, r, opt):
        self.r = r
        self.opt = opt
        self.count = 0

    def fresh(self):
        self.count += 1
        return f"k{self.count}"

    def const(self, hashable):
        r = self.r
        x = r.random()
        if x < 0.4:
            return dict(prim(r.choice(PRIMS)))
        i = self.fresh()
        if x < 0.7 or hashable:
            key = r.choice(["A", "B", i])
            return {"t": "obj", "id": i, "key": key, "mk": r.choice(["obj", "obj", "falsy"])}
        mk = r.choice(["weird", "weird", "sublist", "subdict", "deque", "odict", "gen", "subtuple", "named", "frozen", "defaultdict",
                       "bytearray", "type"])
        return {"t": "obj", "id": i, "key": i if mk in ("gen", "subtuple", "named", "frozen", "type") else "", "mk": mk}

    def expr(self, refs, depth, hashable=False):
        r = self.r
        x = r.random()
        if refs and x < 0.5:
            n, j = r.choice(refs)
            return {"t": "node", "n": n, "j": j}
        if depth == 0 or x < 0.65:
            return self.const(hashable)
        t = "tuple" if hashable else r.choice(["list", "tuple", "set", "dict", "list", "tuple"])
        k = r.choice([0, 1, 1, 2, 2, 3])
        if r.random() < 0.03:  # a large container, or a deep one
            if r.random() < 0.5:
                k, depth = r.randint(8, 24), 1
            else:
                k, depth = 1, self.deep
                self.deep = max(2, self.deep // 2)
        rr = refs if r.random() < 0.7 else []
        if t == "dict":
            q = [[self.expr(rr, depth - 1, True), self.expr(rr, depth - 1, hashable)] for _ in range(k)]
        elif t == "set":
            q = [self.expr(rr, depth - 1, True) for _ in range(k)]
        else:
            q = [self.expr(rr, depth - 1, hashable) for _ in range(k)]
        return {"t": t, "id": "empty" if t == "tuple" and not q else self.fresh(), "q": q}

    def program(self):
        r = self.r
        n = r.randint(1, self.opt.get("n", 6))
        nodes, refs, fixed = [], [], []
        depth = self.opt.get("depth", 3)
        self.deep = 24
        for i in range(1, n + 1):
            x = r.random()
            if x < 0.1:
                e = self.expr([], depth)
                if e["t"] in ("list", "tuple", "dict", "set") and r.random() < 0.5:
                    e = {"t": "obj", "id": self.fresh(), "key": "", "mk": r.choice(["listofnodes", "dictofnodes"])}
                nodes.append({"op": "lit", "x": e})
                refs.append((i, 0))
            elif x < 0.25:
                e = self.expr(refs, depth)
                nodes.append({"op": "gather", "x": e})
                # gathering a symbolic node yields that very node
                refs.append((e["n"], e["j"]) if e["t"] == "node" else (i, 0))
            elif x < 0.42:
                # an unpack of something that has a known number of items
                it = r.choice(["iter", "const", "gathered"]) if fixed else r.choice(["const", "gathered"])
                if it == "iter":
                    m, k = fixed.pop()
                    e = {"t": "node", "n": m, "j": 0}
                else:
                    k = r.choice([0, 1, 2, 3]) if r.random() < 0.95 else r.randint(8, 20)
                    q = [self.expr(refs if it == "gathered" else [], 1) for _ in range(k)]
                    t = r.choice(["list", "tuple"])
                    e = {"t": t, "id": "empty" if t == "tuple" and not q else self.fresh(), "q": q}
                if r.random() < self.opt.get("p_wrong", 0.06):
                    k = max(0, k + r.choice([-1, 1]))
                nodes.append({"op": "unpack", "x": e, "n": k})
                refs.extend((i, j) for j in range(1, k + 1))
            else:
                pos = [self.expr(refs, depth) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                names = r.sample(KW, r.choice([0, 0, 1, 2, 3]))
                if r.random() < 0.04:
                    pos = [self.expr(refs, 1) for _ in range(r.randint(9, 14))]
                elif r.random() < 0.04:
                    names = r.sample(KW, r.randint(9, 15))
                kw = [{"k": k, "x": self.expr(refs, depth)} for k in names]
                # shared arguments: the same object passed twice
                if pos and r.random() < 0.2:
                    pos.append(r.choice(pos))
                y = r.random()
                mk = r.choice(["def", "def", "lambda", "partial", "method", "callable", "unhashable", "class", "static"])
                if y < 0.45:
                    key = r.choice(["A", "B", f"r{i}", f"r{i}"])
                    what = r.choice(["obj", "obj", "falsy", "prim", "weird", "node"])
                    res = {"r": "fresh", "key": "" if what == "weird" else key, "what": what}
                    if what == "prim":
                        res = {"r": "fresh", "key": f"r{i}", "what": "obj"}
                elif y < 0.6:
                    res = {"r": "arg", "k": r.randint(0, 3)}
                elif y < 0.8:
                    res = {"r": r.choice(["list", "tuple"])}
                else:
                    k = r.choice([0, 1, 2, 3]) if r.random() < 0.95 else r.randint(8, 30)
                    res = {"r": "iter", "k": k + (50 if r.random() < 0.05 else 0)}
                    fixed.append((i, k))
                nodes.append({"op": "call", "pos": pos, "kw": kw, "res": res, "mk": mk})
                refs.append((i, 0))
        out = self.expr(refs, depth) if r.random() < 0.9 else prim(None)
        if r.random() < 0.3 and refs:
            out = {"t": r.choice(["list", "tuple"]), "id": self.fresh(), "q": [{"t": "node", "n": m, "j": j} for m, j in refs]}
        return {"nodes": nodes, "out": out}


# ------------------------------------------------------------------ execution on the real code
class World:
    def __init__(self, prog):
        self.prog = prog
        self.t = []
        self.names = {}
        self.keep = []
        self.consts = {}
        self.opaque = set()

    def name(self, obj, name):
        self.names[id(obj)] = name
        self.keep.append(obj)
        return obj

    # ---- constants
    def build_const(self, x):
        mk = x.get("mk")
        i = x["id"]
        if i in self.consts:
            return self.consts[i]
        nodes = [v for v in self.syms.values() if isinstance(v, Node)]
        nodes = nodes[:2] or [uberjob.Plan().lit(1)]
        if i.startswith("p:"):
            v = next(p for p in PRIMS if prim(p)["id"] == i)
            return v
        elif mk in ("obj", None):
            v = Obj(x["key"])
        elif mk == "falsy":
            v = Falsy(x["key"])
        elif mk == "weird":
            v = Weird()
        elif mk == "type":
            v = type("T", (), {})
        elif mk == "bytearray":
            v = bytearray(b"x")
        elif mk == "listofnodes":
            self.opaque.add(i)
            v = [nodes[0], [nodes[-1]]]
        elif mk == "dictofnodes":
            self.opaque.add(i)
            v = {nodes[0]: (nodes[-1],)}
        elif mk == "named":
            v = Named(nodes[0], Obj(i))
        elif mk == "frozen":
            v = frozenset([*nodes, Obj(i)])
        elif mk == "odict":
            v = collections.OrderedDict({"x": nodes[0]})
        elif mk == "defaultdict":
            v = collections.defaultdict(list, {"x": nodes[0]})
        elif mk == "subdict":
            v = SubDict(x=nodes[0])
        elif mk == "sublist":
            v = SubList(nodes)
        elif mk == "subtuple":
            v = SubTuple([*nodes, Obj(i)])
        elif mk == "deque":
            v = collections.deque(nodes)
        elif mk == "gen":
            v = (n for n in nodes)
        else:
            raise AssertionError(mk)
        self.consts[i] = v
        return self.name(v, i)

    def build(self, x):
        if x["t"] == "node":
            return self.syms[x["n"], x["j"]]
        if x["t"] == "obj":
            return self.build_const(x)
        if x["id"] in self.consts:
            return self.consts[x["id"]]
        if x["t"] == "dict":
            v = {self.build(k): self.build(e) for k, e in x["q"]}
        else:
            v = {"list": list, "tuple": tuple, "set": set}[x["t"]]([self.build(e) for e in x["q"]])
        self.consts[x["id"]] = v
        return self.name(v, x["id"])

    # ---- observed values
    def canon(self, v, depth=0):
        name = self.names.get(id(v), "")
        ty = type(v)
        if name in self.opaque:
            return {"t": "obj", "id": name, "key": ""}
        if ty in (list, tuple):
            return {"t": ty.__name__, "id": name, "q": [self.canon(e, depth + 1) for e in v]}
        if ty is set:
            return {"t": "set", "id": name, "q": [self.canon(e, depth + 1) for e in v]}
        if ty is dict:
            return {"t": "dict", "id": name, "q": [[self.canon(k), self.canon(e)] for k, e in v.items()]}
        if ty is Iter:
            return {"t": "iter", "id": name, "q": []}
        if ty in (type(None), bool, int, float, str, bytes):
            return prim(v)
        if ty in (Obj, Falsy, ObjNode):
            return {"t": "obj", "id": name, "key": v.key}
        try:
            hash(v)
            key = name
        except Exception:
            key = ""
        return {"t": "obj", "id": name or f"?{ty.__name__}", "key": key}

    # ---- functions
    def make_fn(self, i, node):
        world = self
        res = node["res"]

        def body(args, kwargs):
            world.t.append({"e": "call", "n": i, "pos": [world.canon(a) for a in args],
                            "kw": [{"k": k, "x": world.canon(a)} for k, a in kwargs.items()]})
            ct = detsched.current()
            if ct is not None:
                ct.sess.point(ct)
            a = list(args) + list(kwargs.values())
            if res["r"] == "arg" and a:
                return a[res["k"] % len(a)]
            if res["r"] in ("arg", "fresh"):
                what = res.get("what", "obj")
                key = res.get("key", f"r{i}")
                v = {"obj": Obj, "falsy": Falsy}.get(what, Obj)(key)
                if what == "weird":
                    v = Weird()
                elif what == "node":
                    v = ObjNode(key)
                return world.name(v, f"r{i}")
            if res["r"] == "list":
                return world.name(a, f"r{i}")
            if res["r"] == "tuple":
                return world.name(tuple(a), f"r{i}") if a else ()
            items = [world.name(Obj(f"r{i}.{k}"), f"r{i}.{k}") for k in range(1, res["k"] + 1)]
            return world.name(Iter(items, res["k"] >= 50), f"r{i}")

        mk = node.get("mk", "def")
        if mk == "lambda":
            return lambda *args, **kwargs: body(args, kwargs)

        def f(*args, **kwargs):
            return body(args, kwargs)

        if mk == "partial":
            return functools.partial(f)
        if mk == "method":
            class M:
                def m(__me, /, *args, **kwargs):  # noqa
                    return body(args, kwargs)

            return M().m
        if mk in ("callable", "unhashable"):
            class K:
                def __call__(__me, /, *args, **kwargs):  # noqa
                    return body(args, kwargs)

            if mk == "unhashable":
                K.__eq__ = lambda a, b: False
                K.__hash__ = None
            return K()
        if mk == "class":
            class N:
                def __new__(__cls, /, *args, **kwargs):  # noqa
                    return body(args, kwargs)

                def __init__(__me, /, *args, **kwargs):  # noqa
                    pass

            return N
        if mk == "static":
            class S:
                @staticmethod
                def m(*args, **kwargs):
                    return body(args, kwargs)

            return S.m
        return f

    def make_plan(self):
        plan = self.plan = uberjob.Plan()
        self.syms = {}
        for i, node in enumerate(self.prog["nodes"], 1):
            if node["op"] == "lit":
                self.syms[i, 0] = plan.lit(self.build(node["x"]))
            elif node["op"] == "gather":
                self.syms[i, 0] = plan.gather(self.build(node["x"]))
            elif node["op"] == "unpack":
                for j, v in enumerate(plan.unpack(self.build(node["x"]), node["n"]), 1):
                    self.syms[i, j] = v
            else:
                pos = [self.build(x) for x in node["pos"]]
                kw = {x["k"]: self.build(x["x"]) for x in node["kw"]}
                self.syms[i, 0] = plan.call(self.make_fn(i, node), *pos, **kw)
        self.output = self.build(self.prog["out"])

    def run(self, **kw):
        try:
            v = uberjob.run(self.plan, output=self.output, progress=None, **kw)
        except Exception as exc:
            self.t.append({"e": "raise", "x": repr(exc)[:150]})
        else:
            self.t.append({"e": "value", "v": self.canon(v)})


class ObjNode(Obj, Node):
    """A value that happens to be a symbolic node."""

    def __init__(self, key):
        Node.__init__(self)
        self.key = key

    __hash__ = Obj.__hash__


def clean(x):
    """The program without the harness's own annotations."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if k not in ("mk", "what")}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def run_program(prog, r, runs, traced):
    w = World(prog)
    random.seed(r.random())
    try:
        w.make_plan()
    except Exception as exc:
        w.t.append({"e": "built", "ok": False, "x": repr(exc)[:200]})
        return {"p": clean(prog), "t": w.t}
    for k in range(runs):
        sess = detsched.Session(strategy(r, 1500), trace_files=want_file if traced and r.random() < traced else None)
        W = r.choice([1, 2, 3, 4])
        sched = r.choice(["default", "random", None])
        hang = sess.run(lambda: w.run(max_workers=W, scheduler=sched, max_errors=r.choice([0, None])))
        if hang:
            w.t.append({"e": "hang", "why": hang})
            break
    return {"p": clean(prog), "t": w.t}


# ------------------------------------------------------------------ campaigns
def one(params, s):
    r = random.Random(s)
    prog = Gen(r, params).program()
    tr = run_program(prog, r, params.get("runs", 2), params.get("traced", 0.2))
    if len(json.dumps(tr)) > 60000:
        return None
    tr["replay"] = ["evalplans", "one", params, s]
    tr["count"] = {"calls": sum(1 for e in tr["t"] if e["e"] == "call"), "values": sum(1 for e in tr["t"] if e["e"] == "value"),
                   "raises": sum(1 for e in tr["t"] if e["e"] == "raise")}
    return tr


def programs(params, seed, shard, nshards):
    i = shard
    while True:
        yield one(params, sub(seed, "prog", params, i))
        i += nshards


def replay_one(prog, s):
    tr = run_program(prog, random.Random(s), 2, 0)
    tr["replay"] = ["evalplans", "replay_one", prog, s]
    return tr


def generated(params, seed, shard, nshards):
    """Programs enumerated by TLC (EvalModel)."""
    progs = [json.loads(x) for x in open(os.environ["PROGRAMS"])]
    order = list(range(len(progs)))
    random.Random(sub(seed, "order")).shuffle(order)
    for k in order[shard::nshards]:
        yield replay_one(progs[k], sub(seed, "gen", k))
