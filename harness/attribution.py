"""Generated scripts whose runs fail, with the user's stack recorded at every use of the API, for Attribution.tla."""
import _thread
import datetime as dt
import hashlib
import itertools
import os
import random
import re
import sys
import tempfile

import uberjob
from uberjob.graph import Call

UBER = os.path.dirname(os.path.realpath(uberjob.__file__)) + os.sep
API = {"call", "gather", "unpack", "lit", "add", "source", "run"}


def sub(seed, *parts):
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:8], "big")


class Boom(Exception):
    pass


class Store(uberjob.ValueStore):
    def __init__(self, w, k, source):
        self.w, self.k, self.value, self.time = w, k, "s", dt.datetime(2020, 1, 1) if source else None

    def fault(self, op):
        if self.w.fault == (op, self.k):
            raise Boom(op, self.k)

    def read(self):
        self.fault("read")
        return self.value

    def write(self, value):
        self.fault("write")
        self.value = value
        self.time = dt.datetime(2021, 1, 1)

    def get_modified_time(self):
        self.fault("query")
        return self.time


def frame(f):
    path = f.f_code.co_filename
    return dict(f=path, l=f.f_lineno, n=f.f_code.co_name, ip="/IPython/core/" in path)


class World:
    """What the scripts use."""

    def __init__(self, fault):
        self.fault = fault
        self.files = set()
        self.sites = {}
        self.current = 0
        self.N = {}
        self.P, self.R = uberjob.Plan(), uberjob.Registry()
        self.event = None

    def fn(self, k, result):
        def f(*args, **kwargs):
            if self.fault == ("call", k):
                raise Boom("call", k)
            return result

        f.__name__ = f.__qualname__ = f"f{k}"
        return f

    def store(self, k, source=False):
        return Store(self, k, source)

    def at(self, j):
        self.current = j

    def profile(self, f, event, arg):
        if event != "call" or not self.current or not f.f_code.co_filename.startswith(UBER) or f.f_code.co_name not in API:
            return
        back = f.f_back
        if back is None or back.f_code.co_filename not in self.files:
            return
        stack = []
        while back is not None:
            stack.append(frame(back))
            back = back.f_back
        self.sites[self.current] = stack
        self.current = 0

    def execute(self, code):
        done = _thread.allocate_lock()
        done.acquire()
        ns = {"W": self, "P": self.P, "R": self.R, "N": self.N, "__name__": "__main__"}
        # the profile function must be set within the thread, whose outermost frame is the script's
        ns["_go"] = lambda: sys.setprofile(self.profile)
        ns["_done"] = done.release
        _thread.start_new_thread(exec, (code, ns))
        if not done.acquire(True, 30):
            raise RuntimeError("script did not finish")


# ------------------------------------------------------------------ scripts
class Script:
    def __init__(self, r, w, folder):
        self.r, self.w, self.folder = r, w, folder
        self.n = 0
        self.parts = []

    def path(self):
        self.n += 1
        name = self.r.choice(["script", "my plan", "pläne", "a,b", "x", "IPython", "uberjob", "core", "contextlib", "threading"]) + f"{self.n}.py"
        if self.r.random() < 0.1:
            return self.r.choice(["<ipython-input-{}-abc>", "<stdin{}>", "/tmp/ipykernel_1/{}.py", "relative{}.py", "/IPython{}.py", "lib/uberjob/_plan{}.py"]).format(self.n)
        d = self.r.choice([self.folder] * 12 + [self.folder + "/IPython/core"] * 2
                          + [self.folder + x for x in ("/IPython", "/MyIPython/core", "/IPython/coreutils", "/ipython/core", "/uberjob", "/core/IPython")])
        return os.path.join(d, name)

    def name(self):
        self.n += 1
        return self.r.choice(["build", "helper", "make_plan", "größe", "f", "_inner"]) + str(self.n)

    def wrap(self, stmts, depth):
        """Code whose execution leads, through `depth` levels, to the statements."""
        r = self.r
        body = stmts
        for _ in range(depth):
            nm = self.name()
            pad = ["pass"] * r.choice([0, 0, 1, 3])
            style = r.choice(["def", "def", "def", "lambda", "gen", "class", "rec", "method", "exec", "map", "deco", "scope", "comp", "file", "partial", "try"])
            ind = ["    " + x for x in pad + body]
            if style == "lambda":
                body = [f"def {nm}():", *ind, f"{nm}l = lambda *a: {nm}()", f"{nm}l()"]
            elif style == "gen":
                body = [f"def {nm}():", *ind, "    yield 1", f"list({nm}())"]
            elif style == "class":
                body = [f"def {nm}f():", *ind, f"class {nm}:", f"    {nm}f()"]
            elif style == "rec":
                body = [f"def {nm}(k):", "    if k:", f"        {nm}(k - 1)", "        return", *ind, f"{nm}({r.randint(1, 5)})"]
            elif style == "method":
                body = [f"class {nm}:", "    def run(self):", *["    " + x for x in ind], f"{nm}().run()"]
            elif style == "exec":
                self.w.files.add("<string>")
                body = [f"exec({chr(10).join(pad + body)!r}, dict(globals(), **locals()))"]
            elif style == "map":
                body = [f"def {nm}(_):", *ind, f"list(map({nm}, [0]))"]
            elif style == "deco":
                body = [f"def {nm}d(f):", "    def wrapper(*a):", "        return f(*a)", "    return wrapper", f"@{nm}d", f"def {nm}():", *ind, f"{nm}()"]
            elif style == "scope":
                body = ["with P.scope('x', 1):", *ind]
            elif style == "comp":
                body = [f"def {nm}(_):", *ind, f"[{nm}(q) for q in range(1)]"]
            elif style == "file":  # a function of another module
                path = self.path()
                self.w.files.add(path)
                src = "\n".join([*["#"] * r.randint(0, 9), f"def {nm}():", *ind])
                self.w.__dict__.setdefault("modules", {})[nm] = compile(src, path, "exec")
                body = [f"exec(W.modules[{nm!r}], globals())", f"{nm}()"]
            elif style == "partial":
                body = ["import functools", f"def {nm}(*a):", *ind, f"functools.partial({nm}, 1)()"]
            elif style == "try":
                body = ["try:", *ind, "finally:", "    pass"]
            else:
                body = [f"def {nm}(a=1):", *ind, f"{nm}()"]
        return body

    def site(self, j, expr):
        """expr uses the API once; it may be laid out over several lines."""
        r = self.r
        if r.random() < 0.25 and "(" in expr:
            a, b = expr.split("(", 1)
            k = b.rindex(")")
            expr_lines = [a + "(", "    " + b[:k], ")" + b[k + 1:]]
        else:
            expr_lines = [expr]
        pad = ["pass"] * r.choice([0, 0, 0, 2])
        self.parts += self.wrap([*pad, f"W.at({j})", *expr_lines], r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8]))


def generate(seed, w, folder, f):
    """The script, with fault f built in (None: none); also the faults that it could have."""
    r = random.Random(seed)
    n = r.randint(1, 6)
    sc = Script(r, w, folder)
    made, entry, kinds = [0] * n, [0] * n, []
    j = 0
    faults = []
    value = {}

    def hit(what, k):
        return f is not None and f[:2] == (what, k)

    for k in range(1, n + 1):
        prev = list(range(1, k))
        kind = r.choice(["call", "call", "call", "gather", "unpack", "lit", "source", "litgather"])
        if kind in ("gather", "unpack") and not prev:
            kind = "call"
        j += 1
        made[k - 1] = j
        if kind == "call":
            args = []
            for q in r.sample(prev, min(len(prev), r.choice([0, 1, 1, 2]))):
                args.append(r.choice([f"N[{q}]", f"[N[{q}], 1]", f"{{'a': N[{q}]}}", f"x{q}=N[{q}]", f"(N[{q}],)"]))
            args.sort(key=lambda a: a.startswith("x"))
            value[k] = ["u"] if r.random() < 0.5 else "h"
            bad = [q for q in prev if value.get(q) == ["u"] and kinds[q - 1] == "call"]
            fn = f"W.fn({k}, {value[k]!r})"
            if bad and r.random() < 0.3:  # an argument that cannot be gathered
                faults.append(("gather-arg", k, f"{{N[{r.choice(bad)}]}}"))
            how = r.choice(["P.call({})", "P.call({})", "uberjob.Plan.call(P, {})", "functools.partial(P.call, {})()"])
            sc.site(j, f"N[{k}] = " + how.format(", ".join([fn, *([f[2]] if hit("gather-arg", k) else []), *args])))
            faults.append(("call", k, ""))
        elif kind == "gather":
            q = r.choice(prev)
            bad = [q for q in prev if value.get(q) == ["u"] and kinds[q - 1] == "call"]
            value[k] = ["g"]
            sc.site(j, f"N[{k}] = P.gather({f[2] if hit('gather', k) else f'[N[{q}], 5]'})")
            if bad:
                faults.append(("gather", k, r.choice(["{{N[{0}]}}", "{{N[{0}]: 1}}", "[{{N[{0}]}}]", "({{'k': {{N[{0}]}}}},)"]).format(r.choice(bad))))
        elif kind == "unpack":
            q = r.choice(prev)
            value[k] = "x"
            # the node stands for the first element
            sc.site(j, f"N[{k}] = P.unpack(([N[{q}]], 'z'), {3 if hit('unpack', k) else 2})[0]")
            faults.append(("unpack", k, "0, 1"))
        elif kind == "lit":
            value[k] = "l"
            sc.site(j, f"N[{k}] = P.lit({r.choice(['5', repr('l'), 'None'])})")
        elif kind == "litgather":
            value[k] = "l"
            sc.site(j, f"N[{k}] = P.gather(7)")
        else:
            value[k] = "s"
            entry[k - 1] = j
            sc.site(j, f"N[{k}] = R.source(P, W.store({k}, True))")
            faults += [("read", k, ""), ("query", k, "")]
        kinds.append(kind)
        if kind != "source" and r.random() < 0.4:
            j += 1
            entry[k - 1] = j
            value[k] = value[k] if value[k] == ["u"] else "h"
            sc.site(j, r.choice([f"R.add(N[{k}], W.store({k}))", f"uberjob.Registry.add(R, N[{k}], W.store({k}))"]))
            faults += [("read", k, ""), ("write", k, ""), ("query", k, ""), ("query", k, "")]
    bad = [q for q in range(1, n + 1) if value.get(q) == ["u"] and kinds[q - 1] == "call"]
    if bad:
        faults.append(("output", 0, r.choice(["{{N[{0}]}}", "{{N[{0}]: 1}}", "[{{N[{0}]}}]"]).format(r.choice(bad))))
    j += 1
    run = j
    extra = f[2] if f and f[0] == "output" else "None"
    if r.random() < 0.3:
        sc.parts += ["P0 = P; P = P.copy(); R = R.copy()"] if r.random() < 0.5 else ["R = R.copy()"]
    opts = f"max_workers={r.choice([1, 2])}, max_errors={r.choice([0, 0, 1, None])}, retry={r.choice([None, None, 2])}, progress=None"
    sc.parts += ["try:"]
    k0 = len(sc.parts)
    sc.site(j, f"W.result = uberjob.run(P, output=[list(N.values()), {extra}], registry=R, {opts})")
    sc.parts[k0:] = ["    " + x for x in sc.parts[k0:]]
    sc.parts += ["except BaseException as e:", "    W.error = e"]
    text = "\n".join(sc.parts)
    text = "_go()\nimport uberjob, functools\ntry:\n" + "\n".join("    " + x for x in text.split("\n")) + "\nfinally:\n    _done()\n"
    return text, faults, made, entry, run


def chain(sf):
    frames, trunc = [], False
    while sf is not None:
        if not hasattr(sf, "path"):
            trunc = True
            break
        frames.append(dict(f=str(sf.path), l=sf.line, n=str(sf.name), ip="/IPython/core/" in str(sf.path)))
        if len(frames) > 200:
            break
        sf = sf.outer
    return frames, trunc


LINE = re.compile(r'^\s*File "(.*)", line (\d+), in (.*)$')


def rendered(msg):
    out = []
    for line in msg.split("\n")[1:]:
        m = LINE.match(line)
        if m:
            out.append(dict(f=m[1], l=int(m[2]), n=m[3], ip="/IPython/core/" in m[1]))
        elif "truncated" in line:
            out.append(dict(f="...", l=0, n="", ip=False))
    return out


def scripts(params, seed, shard, nshards):
    for k in itertools.count(shard, nshards):
        tr = run_one(params, sub(seed, "script", k))
        if tr is not None:
            yield tr


def run_one(params, s):
    r = random.Random(s)
    w = World(None)
    folder = os.path.join(os.getcwd(), "s")
    faults = generate(s, w, folder, None)[1]
    if not faults:
        return None
    f = r.choice(faults)
    text, _, made, entry, run = generate(s, w, folder, f)
    w.fault = (f[0], f[1])
    path = os.path.join(folder, r.choice(["main.py", "main script.py"]))
    w.files.add(path)
    w.error = None
    w.execute(compile(text, path, "exec"))
    what, k = f[0], f[1]
    t = []
    if isinstance(w.error, uberjob.CallError):
        call = w.error.call
        node = w.N.get(k)
        what = {"gather-arg": "call"}.get(what, what)
        if f[0] in ("call", "query", "gather") and type(node) is Call:
            same = call is node or f[0] == "gather" and isinstance(getattr(w.error, "__cause__", None), TypeError) and type(call) is Call
        elif f[0] == "unpack":
            same = call in set(w.P.graph.predecessors(node)) or call is node
        elif f[0] in ("read", "write"):
            same = getattr(call.fn, "__name__", "") == f[0]
        elif f[0] == "query":
            same = getattr(call.fn, "__name__", "") == "get_modified_time"
        else:
            same = type(call) is Call
        frames, trunc = chain(call.stack_frame)
        t.append(dict(e="fail", what=what, node=max(k, 1), frames=frames, trunc=trunc, text=rendered(str(w.error)), same=bool(same), fault=list(f)))
    elif w.error is not None:
        t.append(dict(e="other", why=repr(w.error)[:300]))
    else:
        t.append(dict(e="nofail"))
    sites = [w.sites.get(j, []) for j in range(1, run + 1)]
    return {"p": {"sites": sites, "made": made, "entry": entry, "run": run}, "t": t, "replay": ["attribution", "run_one", params, s],
            "count": {"nofail": int(t[0]["e"] == "nofail"), f[0]: 1, "truncated": int(bool(t[0].get("trunc")))}}
