"""Campaigns that run uberjob.run without a registry under the deterministic scheduler (Run.tla)."""
import _thread
import hashlib
import os
import random
import sys

import detsched

detsched.install()
import odd  # noqa: E402
import uberjob  # noqa: E402
from uberjob import CallError  # noqa: E402
from uberjob.progress import Progress, ProgressObserver  # noqa: E402

UBER = os.path.dirname(os.path.realpath(uberjob.__file__)) + os.sep


def want_file(name):
    return name.startswith(UBER)


class ExcA(Exception):
    pass


class ExcB(Exception):
    """Compares equal to every other instance and is falsy: identity is what counts."""

    def __eq__(self, other):
        return isinstance(other, ExcB)

    def __hash__(self):
        return 7

    def __bool__(self):
        return False


class BaseExc(BaseException):
    pass





def sub(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


# ------------------------------------------------------------------ problems
def gen_problem(r, opt):
    n = r.randint(1, opt.get("n", 6))
    kinds, preds = [], []
    p_lit = r.choice([0, 0, 0.3, 0.5])
    dens = r.choice([0.2, 0.4, 0.7])
    shape = r.random()
    if r.random() < opt.get("p_chain", 0.0):
        shape, n = 0.9, r.randint(4, max(4, opt.get("n", 6)))
    storm = r.random() < opt.get("p_storm", 0.0)
    if storm:
        n = r.randint(4, max(4, opt.get("n", 6)))
        p_lit = 0
    sources = r.randint(2, min(3, n - 2)) if storm else 0
    for i in range(n):
        kinds.append("lit" if r.random() < p_lit else "call")
        if storm:  # a few sources, then calls that depend on some of them
            ps = r.sample(range(sources), r.choice([1, 1, 2])) if i >= sources else []
        elif shape > 0.85 and i and r.random() < 0.7:  # chains, mostly of literals
            if i > 1:
                kinds[-1] = "lit" if r.random() < 0.7 else "call"
            ps = [i - 1] if r.random() < 0.8 else r.sample(range(i), min(i, 2))
        elif shape < 0.15:  # layered
            ps = [j for j in range(i) if j // 2 == i // 2 - 1]
        elif shape < 0.25:  # star
            ps = [0] if i and i < n - 1 else list(range(1, i))
        else:
            ps = [j for j in range(i) if r.random() < dens]
        preds.append(sorted(ps))
    how = []
    for i in range(n):
        h = []
        for j in preds[i]:
            if kinds[i] == "lit" or shape > 0.85 and r.random() < 0.8:
                h.append("dep")
            else:
                h.append(r.choice(["pos", "kw", "dep", "dep", "list", "dict", "unpack", "posdep", "twice"]))
        how.append(h)
    W = r.choice([1, 1, 2, 2, 3, 4])
    ME = r.choice([0, 0, 1, 2, -1])
    R = r.choice([1, 1, 2, 3]) if opt.get("retry", True) else 1
    fail = [0] * n
    if r.random() < opt.get("p_fail", 0.5):
        q = r.choice([0.2, 0.5, 0.8])
        for i in range(n):
            if kinds[i] == "call" and r.random() < q:
                fail[i] = r.choice([99, 99, r.randint(1, R)]) if R > 1 else 99
    if storm:  # some sources fail, and so does everything that depends on the others only
        W, ME = r.choice([2, 2, 3]), r.choice([0, 0, 1])
        bad = r.randint(1, sources - 1)
        fail = [99 if i < bad or i >= sources else 0 for i in range(n)]
    outs = r.random()
    if storm or outs < 0.25:
        out = list(range(n))
    elif outs < 0.85:
        out = r.sample(range(n), r.randint(1, n))
    elif outs < 0.95:
        out = [n - 1]
    else:
        out = []
    extra = []
    if r.random() < opt.get("p_cycle", 0.0):
        for _ in range(r.randint(1, 2)):
            a = r.randrange(n)
            b = r.randrange(a, n)
            extra.append((b, a))  # b must run before a: closes a cycle if a leads to b
    # the nodes are created in an order in which arguments come before calls (dependencies can be added later)
    order = list(range(n))
    if r.random() < (0.8 if shape > 0.85 else 0.4):
        left, order = list(range(n)), []
        while left:
            i = r.choice([i for i in left if all(h == "dep" or j in order for j, h in zip(preds[i], how[i]))])
            left.remove(i)
            order.append(i)
    p = dict(n=n, kind=kinds, preds=[sorted(x) for x in preds], how=how, W=W, ME=ME, R=R, fail=fail,
             out=sorted(out), extra=extra, order=order, sched=r.choice(["default", "default", "random", None]),
             exc=r.choice(["fresh", "fresh", "single", "falsy", "native", "odd"]), single_out=r.random() < 0.5)
    if R == 1 and r.random() < 0.08:
        p["exc"] = "base"
    for b, a in extra:
        p["preds"][a] = sorted(set(p["preds"][a]) | {b})
    return p


def tla_problem(p):
    """The part of the problem the specification sees, with 1-based nodes."""
    return dict(n=p["n"], kind=p["kind"], preds=[[j + 1 for j in ps] for ps in p["preds"]],
                out=[i + 1 for i in p["out"]], W=p["W"], ME=p["ME"], R=p["R"], fail=p["fail"])


class Rec:
    def __init__(self):
        self.t = []
        self.live = None

    def add(self, **e):
        self.t.append(e)


class Notifications(ProgressObserver):
    """Counts enter/exit only (C17: the observer is exited)."""

    def __init__(self, rec):
        self.rec = rec
        self.entered = 0
        self.exited = 0

    def __enter__(self):
        self.entered += 1

    def __exit__(self, *a):
        self.exited += 1

    def increment_total(self, *, section, scope, amount):
        pass

    def increment_running(self, *, section, scope):
        pass

    def increment_completed(self, *, section, scope):
        pass

    def increment_failed(self, *, section, scope, exception):
        pass


class Scenario:
    """One execution of one problem under one schedule."""

    def __init__(self, p, strategy, *, gates=(), idle_seed=0, intr=0.0, start_fail=None, trace=True, start_intr=None,
                 pre_intr=None):
        self.p = p
        self.rec = Rec()
        self.strategy = strategy
        self.gates = set(gates)
        self.r = random.Random(idle_seed)
        self.intr = intr
        self.intr_done = False
        self.start_fail = start_fail
        self.start_intr = start_intr
        self.starts = 0
        self.trace = trace
        self.attempts = {}
        self.exc_ids = {}
        self.keep = []
        self.main_done = False
        self.shared = ExcA("shared")
        self.running = set()
        self.fns = []

    # -- plan functions
    def make_fn(self, i):
        p, rec = self.p, self.rec
        only_base = p["exc"] == "base"

        def fn(*args, **kwargs):
            ct = detsched.current()
            a = self.attempts[i] = self.attempts.get(i, 0) + 1
            rec.add(e="start", n=i + 1, a=a)
            self.running.add(i)
            if ct is not None:
                if i in self.gates:
                    ct.sess.gate(ct, i)
                else:
                    ct.sess.point(ct)
            self.running.discard(i)
            if a <= p["fail"][i]:
                exc = self.make_exc(i, a)
                rec.add(e="end", n=i + 1, a=a, ok=False, last=bool(a >= p["R"] or only_base), x=self.exc_id(exc))
                if p["exc"] == "native":
                    raise exc from ValueError("context")
                raise exc
            rec.add(e="end", n=i + 1, a=a, ok=True, last=True, x=0)
            return (f"v{i}.0", f"v{i}.1")

        fn.__name__ = fn.__qualname__ = f"f{i}"
        return fn

    def make_exc(self, i, a):
        k = self.p["exc"]
        if k == "single":
            return self.shared
        if k == "odd":
            return odd.exception(self.r)
        if k == "falsy":
            return ExcB(i, a)
        if k == "base":
            return BaseExc(i, a) if i % 2 else ExcA(i, a)
        return ExcA(i, a)

    def exc_id(self, exc):
        for k, (e, n) in enumerate(self.keep):
            if e is exc:
                return n
        n = len(self.keep) + 1
        self.keep.append((exc, n))
        return n

    # -- building the plan
    def build(self):
        p = self.p
        plan = uberjob.Plan()
        nodes = {}
        late = []
        back = {(b, a) for b, a in p["extra"]}
        for i in p["order"]:
            args, kwargs, deps = [], {}, []
            for j, h in zip([x for x in p["preds"][i] if x < i and (x, i) not in back], p["how"][i]):
                if h in ("pos", "posdep", "twice"):
                    args.append(nodes[j])
                    if h == "posdep":
                        deps.append(j)
                    if h == "twice":
                        kwargs[f"k{j}"] = nodes[j]
                elif h == "kw":
                    kwargs[f"k{j}"] = nodes[j]
                elif h == "list":
                    args.append([1, (nodes[j], "x")])
                elif h == "dict":
                    kwargs[f"k{j}"] = {"a": nodes[j], "b": [nodes[j]]}
                elif h == "unpack":
                    if p["kind"][j] == "lit":
                        args.append(nodes[j])
                    else:
                        args.extend(plan.unpack(nodes[j], 2)[: 1 + j % 2])
                else:
                    deps.append(j)
            if p["kind"][i] == "lit":
                nodes[i] = plan.lit((f"l{i}.0", f"l{i}.1"))
            else:
                with plan.scope(*self.scope(i)):
                    fn = odd.callable_of(self.r, self.make_fn(i))
                    self.fns.append((fn, i))
                    nodes[i] = plan.call(fn, *args, **kwargs)
            late.extend((j, i) for j in deps)
        for j, i in late:
            plan.add_dependency(nodes[j], nodes[i])
        for b, a in p["extra"]:
            plan.add_dependency(nodes[b], nodes[a])
        if not p["out"]:
            output = None
        elif len(p["out"]) == 1 and p["single_out"]:
            output = nodes[p["out"][0]]
        else:
            output = {"o": [nodes[i] for i in p["out"]]}
        return plan, output

    def scope(self, i):
        x = self.r.random()
        return () if x < 0.1 else (f"s{i % 2}",) if x < 0.7 else tuple(odd.scope_value(self.r) for _ in range(self.r.randint(1, 2)))

    # -- driving
    def on_idle(self, sess):
        g = sess.gated()
        if not g:
            return False
        self.rec.add(e="quiet")
        if (self.intr and not self.intr_done and self.r.random() < self.intr and not self.main_done
                and self.start_fail is None):
            if sess.caller.state == detsched.BLOCKED and self.running:
                self.interrupt(sess, True)
                return True
        k = 1 if self.r.random() < 0.6 else self.r.randint(1, len(g))
        for _, t in self.r.sample(g, k):
            sess.open_gate(t)
        return True

    def interrupt(self, sess, strict):
        self.intr_done = True
        self.rec.add(e="intr", strict=strict)
        sess.inject(sess.caller, KeyboardInterrupt())
        sess.prefer = sess.caller

    def start_hook(self, sess, ct):
        self.starts += 1
        if self.start_fail is not None and self.starts == self.start_fail:
            self.rec.add(e="abort")
            raise RuntimeError("can't start new thread")

    def point_hook(self, sess, ct):
        # Ctrl-C while the calling thread waits for a new worker to come up
        if (self.start_intr is not None and not self.intr_done and self.starts >= self.start_intr and self.running
                and ct is not sess.caller and sess.caller.state == detsched.BLOCKED and in_thread_start(sess.caller)):
            self.interrupt(sess, False)

    def execute(self):
        p, rec = self.p, self.rec
        random.seed(sub(1, p["n"], self.r.random()))
        plan, output = self.build()
        sess = detsched.Session(self.strategy, trace_files=want_file if self.trace else None, on_idle=self.on_idle)
        sess.start_hook = self.start_hook
        if self.start_intr is not None:
            sess.point_hook = self.point_hook
        obs = Notifications(rec)

        def main():
            self.main_ident = _thread.get_ident()
            ev = dict(e="ret", out="value", live=0, n=0, x=0, expected=False)
            try:
                uberjob.run(plan, output=output, max_workers=p["W"], max_errors=None if p["ME"] < 0 else p["ME"],
                            retry=p["R"] if p["R"] > 1 else None, scheduler=p["sched"],
                            progress=Progress(lambda: obs))
            except CallError as exc:
                ev.update(out="callerror", n=next((i + 1 for f, i in self.fns if f is exc.call.fn), 0),
                          x=self.exc_id(exc.__cause__) if exc.__cause__ is not None else 0)
            except KeyboardInterrupt:
                ev.update(out="ki")
            except BaseException as exc:  # noqa
                ev.update(out="cycle" if cycle_error(exc) else "other", detail=odd.text(exc)[:200],
                          expected=self.start_fail is not None and isinstance(exc, RuntimeError))
            self.main_done = True
            ev["live"] = sum(1 for t in sess.threads if t is not sess.caller and t.state != detsched.DONE)
            rec.add(**ev)
            rec.add(e="observer", entered=obs.entered, exited=obs.exited)

        hang = sess.run(main)
        for d in sess.log:
            rec.add(e="died", detail=d["x"][:200], tb=d["tb"][-1500:])
        if hang:
            rec.add(e="hang", why=hang)
        self.ops = sess.ops
        self.points = sess.points
        return self.finish()

    def finish(self):
        return {"p": tla_problem(self.p), "t": self.rec.t}


def cycle_error(exc):
    """An error that reports a cycle (whatever its exact type)."""
    return not isinstance(exc, RecursionError) and "cycle" in (type(exc).__name__ + " " + str(exc)).lower()


def in_thread_start(ct):
    f = sys._current_frames().get(ct.ident)
    while f is not None:
        if f.f_code.co_name in ("_acquire_restore", "__enter__"):
            return False  # the standard library itself is not safe against interruption here
        if f.f_code.co_name == "start" and f.f_code.co_filename.endswith("threading.py"):
            return True
        f = f.f_back
    return False


# ------------------------------------------------------------------ campaigns
def strategy(r, horizon):
    k = r.random()
    if k < 0.35:
        return detsched.RandomStrategy(r.random(), p_sync=r.choice([0.1, 0.4, 1.0]), p_op=r.choice([0, 0.01, 0.05, 0.2]))
    if k < 0.7:
        return detsched.PctStrategy(r.random(), r.randint(1, 4), horizon)
    return detsched.PreemptStrategy([(r.randrange(1, horizon), r.randrange(3)) for _ in range(r.randint(1, 3))], r.random(),
                                    p_sync=r.choice([0, 0.1]))


def random_runs(params, seed, shard, nshards):
    """Random problems, random schedules."""
    i = shard
    while True:
        yield run_one(params, sub(seed, "runs", params, i))
        i += nshards


def run_one(params, s):
    r = random.Random(s)
    opt = params
    p = gen_problem(r, opt)
    gates = []
    if r.random() < opt.get("p_gate", 0.3):
        gates = [i for i in range(p["n"]) if r.random() < r.choice([0.5, 1.0])]
    if r.random() < opt.get("p_storm", 0.0):
        gates = list(range(p["n"]))
    intr = 0.0
    start_fail = start_intr = None
    if r.random() < opt.get("p_intr", 0.0):
        gates = list(range(p["n"]))
        intr = r.choice([0.3, 0.7, 1.0])
        if r.random() < opt.get("p_start_intr", 0.25):
            start_intr = r.randint(2, max(2, p["W"]))
            p["W"] = max(p["W"], 2)
    if r.random() < opt.get("p_start_fail", 0.0):
        start_fail = r.randint(1, p["W"])
    sc = Scenario(p, strategy(r, 2500), gates=gates, idle_seed=r.random(), intr=intr, start_fail=start_fail,
                  start_intr=start_intr, trace=r.random() < 0.8)
    tr = sc.execute()
    tr["replay"] = ["runplans", "run_one", params, s]
    tr["count"] = {"preemptions": getattr(sc.strategy, "hit", 0), "failures": sum(1 for e in tr["t"] if e["e"] == "end" and not e["ok"]),
                   "quiet": sum(1 for e in tr["t"] if e["e"] == "quiet"), "interrupts": int(sc.intr_done),
                   "start_failures": int(any(e["e"] == "abort" for e in sc.rec.t))}
    return tr


SMALL = [
    # diamonds, joins and fan-outs where two workers race on the same successor
    dict(n=3, preds=[[], [], [0, 1]]),
    dict(n=4, preds=[[], [0], [0], [1, 2]]),
    dict(n=4, preds=[[], [], [0, 1], [0, 1]]),
    dict(n=5, preds=[[], [], [], [0, 1, 2], [0, 1]]),
    dict(n=4, preds=[[], [], [0], [1, 2]]),
    dict(n=3, preds=[[], [], [0, 1]], fail=[99, 99, 0]),
    dict(n=4, preds=[[], [], [0, 1], [2]], fail=[99, 0, 0, 0]),
    dict(n=3, preds=[[], [], []], fail=[99, 99, 99]),
    dict(n=4, preds=[[], [], [], [0, 1, 2]], fail=[99, 99, 0, 0], exc="single"),
    dict(n=2, preds=[[], []], fail=[1, 99], R=2, exc="single"),
    dict(n=2, preds=[[], []], fail=[99, 99], exc="single"),
]


def small_problem(k):
    d = SMALL[k % len(SMALL)]
    n = d["n"]
    return dict(n=n, kind=["call"] * n, preds=d["preds"], how=[["pos" if (i + j) % 2 else "dep" for j in range(len(ps))]
                for i, ps in enumerate(d["preds"])], W=2, ME=d.get("ME", -1), R=d.get("R", 1), fail=d.get("fail", [0] * n),
                out=list(range(n)), extra=[], order=list(range(n)), sched="default", exc=d.get("exc", "fresh"), single_out=False)


def preempt_all(params, seed, shard, nshards):
    """Every single preemption point (bytecode) of every small problem, then pairs at random."""
    work = []
    for k in range(len(SMALL)):
        for variant in range(params.get("variants", 2)):
            sc = Scenario(small_problem(k), detsched.PreemptStrategy([], variant), idle_seed=variant)
            sc.execute()
            for op in range(1, sc.ops + 1):
                work.append((k, variant, ((op, 0),)))
    r = random.Random(sub(seed, "preempt", 0))
    r.shuffle(work)
    for j, w in enumerate(work):
        if j % nshards == shard:
            yield preempt_one(*w)
    r = random.Random(sub(seed, "pairs", shard))
    while True:
        k, v = r.randrange(len(SMALL)), r.randrange(4)
        near = r.random() < 0.5
        at, points = r.randrange(1, 1500), []
        for _ in range(r.choice([2, 2, 3])):
            points.append((at, r.randrange(2)))
            at = at + r.randrange(1, 200) if near else r.randrange(1, 1500)
        yield preempt_one(k, v, tuple(sorted(points)))


def preempt_one(k, variant, points):
    sc = Scenario(small_problem(k), detsched.PreemptStrategy([tuple(x) for x in points], variant), idle_seed=variant)
    tr = sc.execute()
    tr["replay"] = ["runplans", "preempt_one", k, variant, points]
    tr["count"] = {"preemptions": sc.strategy.hit}
    return tr
