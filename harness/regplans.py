"""Histories of uberjob.run with a registry, recorded for Registry.tla."""
import ctypes
import datetime as dt
import errno
import json
import os
import pathlib
import pickle
import random
import shutil
import signal
import sys
import tempfile
import warnings

import detsched

detsched.install()
import odd  # noqa: E402
import uberjob  # noqa: E402
import uberjob.stores as S  # noqa: E402
from runplans import BaseExc, Notifications, ExcA, cycle_error, strategy, sub, want_file  # noqa: E402
from uberjob import CallError  # noqa: E402
from uberjob.progress import Progress  # noqa: E402

# What the times 1, 2, ... of a history are: a first instant and a step in microseconds.
EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
BASES = [dt.datetime(2024, 1, 1, tzinfo=dt.timezone.utc), EPOCH, dt.datetime(2024, 2, 29, 23, 59, 59, 999990, tzinfo=dt.timezone.utc)]
STEPS = [1000000, 1000, 1, 250000, 3600 * 10**6, 86400 * 10**6]
warnings.filterwarnings("ignore", category=DeprecationWarning)  # fork in a process with (parked) threads
HERE = os.getcwd()


# ------------------------------------------------------------------ values in files
class Bad:
    """A value that turns out not to be serialisable once part of it has been produced."""

    def __reduce__(self):
        raise ExcA("reduce")


class Chunked(S.FileStore):
    """A user's store on top of staged_write."""

    def read(self):
        with open(self.path) as f:
            return f.read()

    def write(self, value):
        with S.staged_write(self.path, "w") as f:
            for k in range(0, len(value), 1000):
                f.write(value[k:k + 1000])
                f.flush()
            if value.endswith("BAD"):
                raise ExcA("body")


class PathStaged(Chunked):
    """A user's store on top of staged_write_path."""

    def write(self, value):
        with S.staged_write_path(self.path) as p:
            with open(p, "a") as f:
                f.write(value)
            if value.endswith("BAD"):
                raise ExcA("body")


# kind: (store, what to write for the text t, a value that fails to serialise part-way, bytes -> text, text -> bytes)
FILES = {
    "text": (lambda p: S.TextFileStore(p, encoding="utf-8"), lambda t: t, lambda t: t + "\ud800", lambda b: b.decode(), str.encode),
    "json": (lambda p: S.JsonFileStore(p, encoding="utf-8"), lambda t: {"v": [t]}, lambda t: {"v": [t], "w": object()}, lambda b: json.loads(b)["v"][0],
             lambda t: json.dumps({"v": [t]}).encode()),
    "pickle": (S.PickleFileStore, lambda t: ("v", t), lambda t: ("v", t, Bad()), lambda b: pickle.loads(b)[1],
               lambda t: pickle.dumps(("v", t))),
    "binary": (S.BinaryFileStore, lambda t: t.encode(), lambda t: t, lambda b: b.decode(), str.encode),
    "chunked": (Chunked, lambda t: t, lambda t: t + "BAD", lambda b: b.decode(), str.encode),
    "pathstaged": (PathStaged, lambda t: t, lambda t: t + "BAD", lambda b: b.decode(), str.encode),
}
OFF, COUNT, ERR, DIE, SHORT_ERR, SHORT_DIE, INTR, DIE_AFTER, ERR_FOREVER = range(9)
MODES = [ERR, DIE, SHORT_ERR, SHORT_DIE, DIE_AFTER, ERR_FOREVER]
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EPERM]
_shim = []


def shim():
    if not _shim:
        lib = ctypes.CDLL(None)
        lib.fs_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _shim.append(lib)
    return _shim[0]


class File:
    """The file behind a store, and what a program other than uberjob can see of it."""

    def __init__(self, kind, dir, name, pad, as_path, when):
        self.make, self.enc, self.bad, self.dec, self.raw = FILES[kind]
        self.dir = dir
        self.path = os.path.join(dir, name)
        self.store = self.make(pathlib.Path(self.path) if as_path else self.path)
        self.pad = pad
        self.when = when

    def text(self, v):
        return v + "\n" + "x" * self.pad

    def stamp(self):
        try:
            st = os.stat(self.path)
            with open(self.path, "rb") as f:
                return st.st_ino, st.st_mtime_ns, f.read()
        except OSError:
            return None

    def look(self):
        """The stored value, or what is there instead."""
        with open(self.path, "rb") as f:
            b = f.read()
        try:
            t = self.dec(b)
            v = t.partition("\n")[0]
            if t == self.text(v):
                return v
        except Exception:
            pass
        return f"?{len(b)} bytes"

    def date(self, t):
        ns = (self.when(t) - EPOCH) // dt.timedelta(microseconds=1) * 1000
        os.utime(self.path, ns=(ns, ns))

    def raw_write(self, v):
        """As by another program."""
        with open(self.path, "wb") as f:
            f.write(self.raw(self.text(v)))

    def attempt(self, v, mode, k, err):
        """A write in a process of its own in which the k-th file operation fails or ends the process."""
        pid = ctypes.PyDLL(None).fork()  # without the interpreter's hooks, which would use replaced threading primitives
        if pid == 0:
            code = 98
            try:
                sys.settrace(None)
                signal.alarm(20)
                shim().fs_arm(os.fsencode(self.dir), mode, k, err)
                try:
                    self.store.write(self.enc(self.text(v)))
                    code = 0
                except BaseException:
                    code = 1
                shim().fs_off()
            finally:
                os._exit(code)
        status = os.waitpid(pid, 0)[1]
        if status == 99 << 8:
            return "died"
        return "failed" if status else "ok"


# ------------------------------------------------------------------ problems
def gen_problem(r, opt):
    n = r.randint(2, opt.get("n", 6))
    kind, args, deps, reg, side = [], [], [], [], [0] * n
    p_reg = r.choice([0.3, 0.6, 0.9])
    p_lit = r.choice([0, 0.15])
    p_route = r.choice([0, 0, 0.1, 0.25])
    dens = r.choice([0.3, 0.5, 0.8])
    i = 0
    writers = set()
    while i < n:
        prev = [j for j in range(i) if j not in writers]
        x = r.random()
        if not prev or (x < 0.2 and not (opt.get("few_src") and prev)):
            kind.append("src"), args.append([]), deps.append([]), reg.append(True)
            i += 1
            continue
        if x < 0.32 and i + 1 < n:
            # a call that updates a source as a side effect, and the dependent source
            extra = [j for j in prev if r.random() < 0.2]
            kind.append("call"), reg.append(False), deps.append(list(extra))
            args.append(gen_args(r, prev, dens))
            writers.add(i)
            w = i
            if i + 2 < n and r.random() < 0.4:
                # ... which depends on it through a literal
                kind.append("lit"), args.append([]), deps.append([i]), reg.append(False)
                i += 1
                writers.add(i)  # nothing else may use it: that would run the call by itself
            side[w] = i + 1 + 1
            kind.append("src"), args.append([]), deps.append(sorted({i, *extra})), reg.append(True)
            i += 2
            continue
        if x < 0.32 + p_route and i + 1 < n:
            # a call, some of whose dependencies are routed through a literal
            kind.append("lit"), args.append([]), deps.append(sorted(r.sample(prev, r.randint(1, min(2, len(prev)))))), reg.append(r.random() < 0.15)
            kind.append("call"), args.append(gen_args(r, prev, dens * 0.5)), deps.append([i]), reg.append(r.random() < p_reg)
            i += 2
            continue
        d = [j for j in prev if r.random() < dens * 0.4]
        if x < 0.32 + p_route + p_lit:
            kind.append("lit"), args.append([]), deps.append(d), reg.append(r.random() < 0.4)
        else:
            kind.append("call"), args.append(gen_args(r, prev, dens)), deps.append(d), reg.append(r.random() < p_reg)
        i += 1
    kw = [[r.random() < 0.3 for _ in a] for a in args]
    p = dict(n=n, kind=kind, args=args, deps=deps, reg=reg, side=side, kw=kw, writers=sorted(writers),
             naive=[r.random() < 0.5 for _ in range(n)], reg_order=r.sample(range(n), n))
    odds = opt.get("p_odd", 0.15)
    p["scope"] = [r.randrange(len(odd.NASTY + odd.UNORDERED)) if r.random() < odds else None for _ in range(n)]
    p["wrap"] = [r.randrange(len(odd.CALLABLES)) if r.random() < odds else None for _ in range(n)]
    p["clock"] = (r.randrange(len(BASES)), r.choice(STEPS)) if r.random() < 0.5 else (0, STEPS[0])
    p["file"] = [(r.choice(list(FILES)), r.choice([0, 0, 3000, 20000]), r.random() < 0.5)
                 if reg[i] and r.random() < opt.get("p_file", 0) else None for i in range(n)]
    anc = [set() for _ in range(n)]
    for i in range(n):
        for j in {j for _, q in args[i] for j in q} | set(deps[i]):
            anc[i] |= {j} | anc[j]
    look = r.choice([0, 0.3, 0.8])
    p["peek"] = [[j for j in sorted(anc[i]) if reg[j] and r.random() < look][:3] if kind[i] == "call" else [] for i in range(n)]
    p["cyc_extra"] = []
    if r.random() < opt.get("p_cycle", 0):
        b = r.randrange(n)
        p["cyc_extra"] = [(b, r.choice(sorted({b} | anc[b])))]
    return p


def gen_args(r, prev, dens):
    out = []
    for j in prev:
        if r.random() < dens * 0.6:
            out.append(["n", [j]])
    if len(prev) >= 2 and r.random() < 0.25:
        out.append(["l", r.sample(prev, r.randint(1, min(3, len(prev))))])
    if prev and r.random() < 0.15:
        out.append(["n", [r.choice(prev)]])
    r.shuffle(out)
    return out[:4]


def tla_problem(p, allout=()):
    deps = [set(j + 1 for j in d) for d in p["deps"]]
    for b, a in p["cyc_extra"]:
        deps[a].add(b + 1)
    return dict(n=p["n"], kind=p["kind"], args=[[dict(s=s, q=[j + 1 for j in q]) for s, q in order_args(p, i) + [("p", [j]) for j in p["peek"][i]]] for i in range(p["n"])],
                deps=[sorted(d) for d in deps], reg=p["reg"], side=p["side"], allout=sorted(allout))


def order_args(p, i):
    """positional arguments first, then keywords: the order in which the call's value lists them"""
    a = p["args"][i]
    return [x for x, k in zip(a, p["kw"][i]) if not k] + [x for x, k in zip(a, p["kw"][i]) if k]


def canon(v):
    if isinstance(v, list):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, str):
        return v
    return f"<{type(v).__name__}>"


class Killed(BaseException):
    pass


class World:
    """The stores, the plan and the recorded history of one problem."""

    def __init__(self, p):
        self.p = p
        self.t = []
        self.clock = 0
        self.content = {}
        self.mt = {}
        self.version = {}
        self.keep = []
        self.fault = None
        self.allout = set()
        self.files = {}
        self.dir = None
        base, step = p.get("clock", (0, STEPS[0]))
        self.base, self.step = BASES[base], step
        if any(p.get("file", ())):
            self.dir = tempfile.mkdtemp(prefix="reg-", dir=HERE)
            for i, f in enumerate(p["file"]):
                if f:
                    self.files[i] = File(f[0], self.dir, f"v{i}", f[1], f[2], self.instant)
        self.build()

    def instant(self, t, naive=False):
        v = self.base + dt.timedelta(microseconds=self.step * (t - 1))
        return v.astimezone().replace(tzinfo=None) if naive else v

    def tick(self):
        self.clock += 1
        return self.clock

    def add(self, **e):
        self.t.append(e)

    def exc_id(self, exc):
        for e, n in self.keep:
            if e is exc:
                return n
        self.keep.append((exc, len(self.keep) + 1))
        return len(self.keep)

    # ---- operations as seen by the plan
    def op(self, code, n, start, body, end):
        """One call or store operation: start event, gate, faults, effect, end event."""
        f = self.fault
        ct = detsched.current()
        k = f.next_op(code, n)
        self.add(e=start[0], n=n + 1, **start[1])
        f.busy += 1
        if ct is not None:
            if (code, n) in f.gates:
                ct.sess.gate(ct, (code, n))
            else:
                ct.sess.point(ct)
        what = f.faults.get(k)
        if code == "w":
            f.writes += 1
            what = f.wfaults.get(f.writes, what)
        infile = None
        if isinstance(what, tuple) or what == "bad":
            if code == "w" and n in self.files:
                infile, what = what, None
                f.infile += 1
            else:
                what = "after"
        a = f.att[(code, n)] = f.att.get((code, n), 0) + 1
        if what == "kill":
            self.add(e="dead")
            f.kill(ct)
        exc = None
        res = {}
        v = None
        if infile:
            exc = self.file_fault(n, start[1]["v"], infile, code)
            if exc == "died":
                self.add(e="dead")
                f.kill(ct)
        elif what != "before":
            try:
                v, res = body()
            except Exception as e:
                exc, what = e, "own"
            if ct is not None and code in ("w", "c"):
                ct.sess.point(ct)
        if what == "killafter":
            self.add(e="dead")
            f.kill(ct)
        if what in ("before", "after", "base"):
            exc = (BaseExc if what == "base" else ExcA)(code, n, k)
        f.busy -= 1
        if exc is not None:
            self.add(e=end, n=n + 1, ok=False, last=a >= f.R or what == "base", x=self.exc_id(exc), v="", inj=what != "own")
            raise exc
        self.add(e=end, n=n + 1, ok=True, last=True, x=0, v=res.get("v", ""), inj=False)
        return v

    def put(self, n, v):
        self.content[n] = v
        self.mt[n] = self.tick()
        if n in self.files:
            self.files[n].raw_write(v)
            self.files[n].date(self.mt[n])
        self.add(e="wa", n=n + 1, v=v, t=self.mt[n])

    def file_fault(self, n, v, what, code):
        """A write to a file that does not go through.  Returns the exception to raise, None or "died"."""
        fl = self.files[n]
        before = fl.stamp()
        exc = None
        if what == "bad":
            try:
                fl.store.write(fl.bad(fl.text(v)))
            except Exception as e:
                exc = e
            out = "failed" if exc else "ok"
        else:
            out = fl.attempt(v, *what)
            exc = ExcA(code, n) if out == "failed" else None
        self.file_changed(n, before)
        return "died" if out == "died" else exc

    def file_changed(self, n, before):
        """Records what is in the file now, if it has changed, and moves its time to the clock of the history."""
        fl = self.files[n]
        now = fl.stamp()
        if now != before:
            if now is None:
                self.content[n], self.mt[n] = None, 0
                self.add(e="wa", n=n + 1, v="", t=0)
            else:
                self.content[n], self.mt[n] = fl.look(), self.tick()
                fl.date(self.mt[n])
                self.add(e="wa", n=n + 1, v=self.content[n], t=self.mt[n])

    def make_store(self, i):
        world = self
        fl = self.files.get(i)
        naive = self.p["naive"][i]

        class Store(uberjob.ValueStore):
            def read(self):
                def body():
                    if fl is not None:
                        got = fl.store.read()
                        t = fl.dec(pickle.dumps(got) if fl.make is S.PickleFileStore else json.dumps(got).encode() if isinstance(got, dict)
                                   else got if isinstance(got, bytes) else got.encode())
                        v = t.partition("\n")[0]
                        v = f"r({v})" if t == fl.text(v) else f"?{len(t)} characters"
                        return v, {"v": v}
                    if world.content.get(i) is None:
                        raise RuntimeError("nothing stored")
                    v = f"r({world.content[i]})"
                    return v, {"v": v}

                return world.op("r", i, ("rs", {}), body, "re")

            def write(self, value):
                def body():
                    if fl is None:
                        world.put(i, canon(value))
                    else:
                        before = fl.stamp()
                        fl.store.write(fl.enc(fl.text(canon(value))))
                        world.file_changed(i, before)
                    return None, {}

                return world.op("w", i, ("ws", {"v": canon(value)}), body, "we")

            def get_modified_time(self):
                def body():
                    if fl is not None:
                        return fl.store.get_modified_time(), {}
                    t = world.mt.get(i)
                    return (world.instant(t, naive) if t else None), {}

                return world.op("q", i, ("q", {}), body, "qe")

        return Store()

    def make_fn(self, i):
        p = self.p

        def fn(*args, **kwargs):
            vals = [canon(a) for a in args] + [canon(a) for a in kwargs.values()]
            vals += [f"r({self.content.get(j) or ''})" for j in p["peek"][i]]

            def body():
                v = f"f{i + 1}(" + ",".join(vals) + ")"
                if p["side"][i]:
                    self.put(p["side"][i] - 1, "w" + v)
                return v, {"v": v}

            return self.op("c", i, ("cs", {"args": vals}), body, "ce")

        fn.__name__ = fn.__qualname__ = f"f{i + 1}"
        return fn

    # ---- the plan
    def build(self):
        p = self.p
        plan = self.plan = uberjob.Plan()
        registry = self.registry = uberjob.Registry()
        nodes = self.nodes = {}
        self.stores = {}
        def create(i):
            if p["kind"][i] == "src":
                nodes[i] = registry.source(plan, self.stores[i])
            elif p["kind"][i] == "lit":
                nodes[i] = plan.lit(f"l{i + 1}")
            else:
                pos, kw = [], {}
                for m, ((s, q), k) in enumerate(zip(p["args"][i], p["kw"][i])):
                    a = nodes[q[0]] if s == "n" else [nodes[j] for j in q]
                    if k:
                        kw[f"k{m}"] = a
                    else:
                        pos.append(a)
                fn = self.make_fn(i)
                if p["wrap"][i] is not None:
                    fn = odd.CALLABLES[p["wrap"][i]](fn)
                nodes[i] = plan.call(fn, *pos, **kw)

        for i in range(p["n"]):
            if p["reg"][i]:
                self.stores[i] = self.make_store(i)
            if p["scope"][i] is None:
                create(i)
            else:
                with plan.scope((odd.NASTY + odd.UNORDERED)[p["scope"][i]]):
                    create(i)
            for j in p["deps"][i]:
                plan.add_dependency(nodes[j], nodes[i])
        for b, a in p["cyc_extra"]:
            plan.add_dependency(nodes[b], nodes[a])
        for i in p["reg_order"]:
            if p["reg"][i] and p["kind"][i] != "src":
                registry.add(nodes[i], self.stores[i])

    # ---- history
    def primary(self):
        p = self.p
        return [i for i in range(p["n"]) if p["kind"][i] == "src" and (i + 1) not in p["side"]]

    def update_source(self, i):
        self.version[i] = self.version.get(i, 0) + 1
        self.content[i] = f"s{i + 1}v{self.version[i]}"
        self.mt[i] = self.tick()
        if i in self.files:
            self.files[i].raw_write(self.content[i])
            self.files[i].date(self.mt[i])
        self.add(e="src", n=i + 1, v=self.content[i], t=self.mt[i])

    def delete(self, i):
        if self.content.get(i) is not None:
            self.content[i] = None
            self.mt[i] = 0
            if i in self.files:
                os.remove(self.files[i].path)
            self.add(e="del", n=i + 1)

    def output_spec(self, r, none=0.25):
        p = self.p
        self.bare = False
        if r.random() < none:
            return [], None
        cand = [i for i in range(p["n"]) if i not in p["writers"]]
        out = []
        if r.random() < 0.35:  # a node by itself
            self.bare = True
            i = r.choice(cand)
            return [["n", [i]]], self.nodes[i]
        for i in r.sample(cand, r.randint(1, min(3, len(cand)))):
            out.append(["n", [i]] if r.random() < 0.7 else ["l", [i, r.choice(cand)]])
        return out, [self.nodes[q[0]] if s == "n" else [self.nodes[j] for j in q] for s, q in out]

    def run(self, r, out, output, *, fault, W, SW, R, ME, fresh, dry=False, sched=None, strat=None, trace=True, phys=None, tr=False):
        """One uberjob.run under the deterministic scheduler.  Returns the outcome event."""
        self.fault = fault
        fault.R = R
        self.add(e="begin", out=[dict(s=s, q=[j + 1 for j in q]) for s, q in out], fresh=fresh or 0, dry=dry, phys=phys is not None, tr=tr,
                 W=W, SW=SW or W, R=R)
        self.allout |= {j + 1 for _, q in out for j in q}
        sess = detsched.Session(strat, trace_files=want_file if trace else None, on_idle=lambda s: fault.on_idle(self, s))
        fault.sess = sess
        box = {}

        def main():
            ev = dict(e="end", out="value", v="", live=0, x=0)
            try:
                if phys is not None:
                    plan, node = phys
                    every = list(plan.graph.nodes())
                    res = uberjob.run(plan, output=(node, every) if node is not None else (None, every), max_workers=W, max_errors=ME,
                                      retry=R if R > 1 else None, scheduler=sched, progress=self.progress())[0]
                    res = res if node is not None else None
                else:
                    kw = {}
                    if fresh:
                        kw["fresh_time"] = self.instant(fresh, fault.naive)
                    if tr:
                        kw["transform_physical"] = self.transform
                    if SW:
                        kw["stale_check_max_workers"] = SW
                    res = uberjob.run(self.plan, output=output, registry=self.registry, max_workers=W, max_errors=ME, dry_run=dry,
                                      retry=R if R > 1 else None, scheduler=sched, progress=self.progress(), **kw, **self.extra())
                box["res"] = res
                if not dry:
                    if self.bare and not tr:
                        res = [res]
                    ev["v"] = canon(res) if output is not None else ("" if res is None else canon(res))
            except CallError as exc:
                ev.update(out="callerror", x=self.exc_id(exc.__cause__) if exc.__cause__ is not None else 0, who=self.who(getattr(exc, "call", None)))
            except KeyboardInterrupt:
                ev.update(out="ki")
            except BaseException as exc:  # noqa
                ev.update(out="cycle" if cycle_error(exc) else "other", detail=repr(exc)[:300])
            fault.main_done = True
            ev["live"] = sum(1 for t in sess.threads if t is not sess.caller and t.state != detsched.DONE)
            self.add(**ev)
            box["ev"] = ev

        hang = sess.run(main)
        for d in sess.log:
            self.add(e="died", detail=d["x"][:200], tb=d["tb"][-1500:])
        if hang and not fault.killed:
            self.add(e="hang", why=hang)
            box["hang"] = True
        self.ops = fault.count
        return box

    def who(self, call):
        """The operations that a call of an error may stand for."""
        out = [dict(c=c, n=i + 1) for i, node in self.nodes.items() if call is node for c in ("c", "q")]
        fn = getattr(call, "fn", None)
        for i, store in self.stores.items():
            for c, m in (("r", "read"), ("w", "write"), ("q", "get_modified_time")):
                if fn is getattr(type(store), m):
                    out.append(dict(c=c, n=i + 1))
        return out

    def transform(self, plan, node):
        """Wraps the output and adds a call of its own."""
        plan = plan.copy()
        bare = self.bare

        def extra():
            self.add(e="xc")

        def tagged(v):
            return "T(" + canon([v] if bare else v) + ")"

        plan.call(extra)
        return plan, None if node is None else plan.call(tagged, node)

    def progress(self):
        return None

    def extra(self):
        return {}

    def trace(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        return {"p": tla_problem(self.p, self.allout), "t": self.t}


class Faults:
    def __init__(self, faults=None, gates=(), seed=0, intr=0.0, naive=False):
        self.faults = faults or {}
        self.gates = set(gates)
        self.r = random.Random(seed)
        self.count = 0
        self.busy = 0
        self.writes = self.infile = 0
        self.wfaults = {}  # by number of the write
        self.att = {}
        self.killed = False
        self.intr = intr
        self.intr_done = False
        self.main_done = False
        self.naive = naive
        self.counted = {}

    def next_op(self, code, n):
        self.count += 1
        return self.count

    def kill(self, ct):
        """The process dies here: nothing of this run ever executes again."""
        self.killed = True
        ct.sess._declare_hang("killed")
        ct.sess._park_forever()

    def on_idle(self, world, sess):
        g = sess.gated()
        if not g:
            return False
        if (self.intr and not self.intr_done and not self.main_done and self.r.random() < self.intr
                and any(k[0] != "q" for k, _ in g)):
            self.intr_done = True
            world.add(e="intr")
            sess.inject(sess.caller, KeyboardInterrupt())
            sess.prefer = sess.caller
            return True
        k = 1 if self.r.random() < 0.6 else self.r.randint(1, len(g))
        for _, t in self.r.sample(g, k):
            sess.open_gate(t)
        return True


def opcodes(p):
    return [(c, i) for i in range(p["n"]) for c in ("c", "r", "w", "q")]


# ------------------------------------------------------------------ campaigns
def one_history(params, s):
    r = random.Random(s)
    random.seed(s)
    opt = params
    p = gen_problem(r, opt)
    w = World(p)
    for i in w.primary():
        w.update_source(i)
    cnt = {"histories": 1, "runs_ok": 0, "runs_failed": 0, "runs_cut": 0, "dry": 0, "ops": 0, "interrupts": 0}
    steps = r.randint(2, opt.get("steps", 6))
    quiet_after = False
    nops = 12
    for k in range(steps):
        # changes between runs
        if k and not quiet_after:
            for _ in range(r.choice([0, 1, 1, 2])):
                x = r.random()
                if x < 0.5 and w.primary():
                    w.update_source(r.choice(w.primary()))
                elif x < 0.9:
                    stored = [i for i in w.stores if i not in w.primary()]
                    if stored:
                        w.delete(r.choice(stored))
        fresh = None
        if r.random() < 0.25 and not quiet_after:
            fresh = r.choice([w.tick(), r.randint(1, w.clock)])
        faults, gates, intr = {}, [], 0.0
        cut = r.random() < opt.get("p_cut", 0.4) and not quiet_after
        R = r.choice([1, 1, 1, 2, 3])
        if cut:
            x = 1.0 if r.random() < opt.get("p_intr", 0) else r.random()
            at = r.randint(1, max(2, nops))
            if x < 0.55:
                faults = {at: r.choice(["before", "after", "before", "after", "base"])}
            elif x < 0.7:
                faults = {r.randint(1, max(2, nops)): r.choice(["before", "after", "base"]) for _ in range(3)}
            elif x < 0.7 + opt.get("p_kill", 0.2):
                faults = {at: r.choice(["kill", "killafter"])}
            else:
                intr = r.choice([0.1, 0.3, 1.0])
                gates = opcodes(p)
        if not gates and r.random() < opt.get("p_gate", 0.2):
            gates = [g for g in opcodes(p) if r.random() < 0.6]
        out, output = w.output_spec(r, 0.9 if quiet_after else 0.3)
        f = Faults(faults, gates, r.random(), intr, naive=r.random() < 0.5)
        if cut and w.files and r.random() < 0.6:
            f.faults = {}
            for _ in range(r.choice([1, 1, 2])):
                f.wfaults[r.randint(1, len(w.stores))] = (
                    (r.choice(MODES), r.randint(1, 9), r.choice(ERRNOS)) if opt.get("shim") and r.random() < 0.8 else "bad")
        W = r.choice([1, 1, 2, 3, 4])
        kw = dict(W=W, SW=r.choice([None, None, 1, 2, 5]), R=R, ME=r.choice([0, 0, 1, None]), fresh=fresh, sched=r.choice(["default", "random", None]),
                  strat=strategy(r, 4000), trace=r.random() < opt.get("p_trace", 0.3), tr=r.random() < opt.get("p_tr", 0))
        if not cut and r.random() < opt.get("p_dry", 0.0):
            # dry run, then the physical plan by itself
            box = w.run(r, out, output, fault=f, dry=True, **kw)
            cnt["dry"] += 1
            if box.get("ev", {}).get("out") == "value":
                kw["strat"] = strategy(r, 4000)
                box = w.run(r, out, output, fault=Faults({}, gates, r.random()), phys=box["res"], **kw)
        else:
            box = w.run(r, out, output, fault=f, **kw)
        nops = max(nops // 2, w.ops)
        cnt["file_faults"] = cnt.get("file_faults", 0) + f.infile
        cnt["ops"] += w.ops
        ev = box.get("ev")
        if ev is None:
            cnt["runs_cut"] += 1
        elif ev["out"] == "value":
            cnt["runs_ok"] += 1
        else:
            cnt["runs_failed"] += 1
        cnt["interrupts"] += f.intr_done
        if box.get("hang"):
            break
        quiet_after = ev is not None and ev["out"] == "value" and r.random() < 0.3
        if fresh and quiet_after:
            quiet_after = False
    tr = w.trace()
    tr["replay"] = ["regplans", "one_history", params, s]
    tr["count"] = cnt
    return tr


def histories(params, seed, shard, nshards):
    i = shard
    while True:
        yield one_history(params, sub(seed, "hist", params, i))
        i += nshards


def cut_everywhere(params, seed, shard, nshards):
    """For each random problem: a first successful run, changes, then the same run cut at every single operation
    (before it takes effect, after it, or with the process dying there), followed by a repairing run."""
    i = shard
    while True:
        s = sub(seed, "cut", params, i)
        i += nshards
        k = 1
        while True:
            for how in ("before", "after", "kill", "killafter"):
                tr, total = cut_one(params, s, k, how)
                yield tr
            k += 1
            if k > total or k > 60:
                break


def cut_files(params, seed, shard, nshards):
    """As cut_everywhere, for the file operations of the writes to files."""
    i = shard
    while True:
        s = sub(seed, "cutf", params, i)
        i += nshards
        for j in range(1, 7):
            tr, total = cut_one(params, s, 0, {j: "bad"})
            yield tr
            if not total:
                break
            more = list(MODES)
            for k in range(1, 30):
                for mode in list(more):
                    tr, total = cut_one(params, s, 0, {j: (mode, k, ERRNOS[(j + k) % len(ERRNOS)])})
                    yield tr
                    if not total:
                        more.remove(mode)
                if not more:
                    break


def cut_one(params, s, k, how):
    if isinstance(how, dict):
        how = {int(j): v if v == "bad" else tuple(v) for j, v in how.items()}
    r = random.Random(s)
    random.seed(s)
    p = gen_problem(r, params)
    w = World(p)
    for i in w.primary():
        w.update_source(i)
    W = r.choice([1, 2, 3])

    def go(faults, seed, none=0.4):
        rr = random.Random(seed)
        out, output = w.output_spec(rr, none)
        f = Faults({} if isinstance(how, dict) else faults, (), rr.random())
        if faults and isinstance(how, dict):
            f.wfaults = how
        box = w.run(rr, out, output, fault=f, W=W, SW=None, R=1, ME=rr.choice([0, None]), fresh=None, sched="default",
                    strat=detsched.RandomStrategy(rr.random(), 0.3), trace=False)
        return box, w.ops if not isinstance(how, dict) else w.fault.infile and not (box.get("ev") or {}).get("out") == "value"

    if r.random() < 0.5:
        go({}, r.random())
        stored = [i for i in w.stores if i not in w.primary()]
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.6 and w.primary():
                w.update_source(r.choice(w.primary()))
            elif stored:
                w.delete(r.choice(stored))
    a, b = r.random(), r.random()
    _, total = go({k: how}, a)
    go({}, b)
    tr = w.trace()
    tr["replay"] = ["regplans", "cut_one", params, s, k, how]
    tr["count"] = {"cuts": 1}
    return tr, (total if total >= k else 0)
