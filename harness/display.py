"""The bundled progress displays under generated notifications and runs, recorded for Display.tla."""
import datetime as dt
import html.parser
import io
import os
import random
import re
import sys
import tempfile
import threading
import time

import detsched

detsched.install()
import IPython.display  # noqa: E402
import ipywidgets  # noqa: E402

import uberjob  # noqa: E402
from odd import NASTY, ORDERED, UNORDERED, BadStr, RaisingLt, Unord, WeirdLt, exception  # noqa: E402
from regplans import sub  # noqa: E402
from runplans import in_thread_start, strategy  # noqa: E402
from uberjob.progress import ProgressObserver, Progress, composite_progress, console_progress, html_progress, ipython_progress, null_progress  # noqa: E402

BASE = 999_999
SECTIONS = ("stale", "run")
GAP = {"console": 333, "html": 93, "ipython": 12}


class DirObject:
    def __dir__(self):
        return [1, 2]


def thrown(e, depth=0):
    try:
        if depth:
            thrown(e, depth - 1)
        raise e
    except BaseException as x:
        return x


class StrRaises(Exception):
    def __str__(self):
        raise RuntimeError("no string")


def cycle():
    a, b = ValueError("a"), KeyError("b")
    a.__cause__, b.__cause__ = b, a
    return a


def noted(n):
    e = ValueError("noted")
    e.__notes__ = n
    return e


EXCEPTIONS = [lambda: ValueError("plain"), lambda: KeyError("\ud800"), lambda: ExceptionGroup("g", [ValueError(1), TypeError("é")]), cycle,
              lambda: StrRaises(), lambda: ValueError("<b>\nline"), lambda: Exception(), lambda: OSError(2, "no", "/f"),
              lambda: SyntaxError("bad", ("f.py", 3, 2, "x y\n")), lambda: exception(random), lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "r"), lambda: noted(["n"])]
ODD_EXCEPTIONS = [lambda: SyntaxError("bad", ("f.py", 3, 2, 5)), lambda: noted(5), lambda: SyntaxError("bad", ("f.py", "x", "y", "text")),
                  lambda: AttributeError("m", name="nam", obj=DirObject()), lambda: noted([BadStr(1)])]


def make_exc(r, odd):
    e = r.choice(ODD_EXCEPTIONS if r.random() < odd else EXCEPTIONS)()
    if r.random() < 0.8:
        e = thrown(e, r.choice([0, 0, 3]))
    if r.random() < 0.3:
        c = uberjob.CallError(next(iter(some_plan.graph.nodes()))) if r.random() < 0.5 else RuntimeError("outer")
        c.__cause__ = e
        e = c
    return e


some_plan = uberjob.Plan()
some_plan.call(len, ())

# ------------------------------------------------------------------ reading what is displayed
PROG = re.compile(r"^\(?(\d+)(?:\s*\+\s*(\d+)\))?\s*/\s*(\d+)(?:\s*,\s*(\d+)\s+failed)?$")
ELAPSED = re.compile(r"^(?:(\d+)h)?(?:(\d+)m)?(\d+)s$")
MARK = re.compile(r"@@(\d+)@@(.*)", re.S)
LINE = re.compile(r"^ *(\(?\d+[^|\n]*/[^|\n]*?) \| *([0-9hms]+) \| (.*?)@@(\d+)@@([^\n]*)|^(\w+):$", re.M | re.S)


def letters(x):
    return re.sub(r"\W", "", x)


def row(section, prog, elapsed, mark, rest, bv=-1, bm=-1):
    p, e = PROG.match(" ".join(prog.split())), ELAPSED.match(elapsed.strip())
    if not p or not e:
        return None
    c, r, t, f = (int(x or 0) for x in p.groups())
    h, m, s = (int(x or 0) for x in e.groups())
    return dict(key=(section, int(mark) if mark is not None else None, letters(rest)), t=t, r=r, c=c, f=f, el=h * 3600 + m * 60 + s, bv=bv, bm=bm)


def section_of(title):
    return "stale" if "stale" in title.lower() else "run"


def console_rows(text):
    section, out = "run", []
    for m in LINE.finditer(text):
        if m.group(6):
            section = section_of(m.group(6))
        else:
            out.append(row(section, m.group(1), m.group(2), m.group(4), m.group(5)))
    return [x for x in out if x]


class Tables(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.section, self.rows, self.cells, self.cell, self.heading = "run", [], None, None, None

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.cells = []
        elif tag == "td" and self.cells is not None:
            self.cell = []
        elif tag in ("h1", "h2", "h3", "h4"):
            self.heading = []

    def handle_data(self, data):
        if self.cell is not None:
            self.cell.append(data)
        elif self.heading is not None:
            self.heading.append(data)

    def handle_endtag(self, tag):
        if tag == "td" and self.cell is not None:
            self.cells.append("".join(self.cell))
            self.cell = None
        elif tag == "tr" and self.cells is not None:
            self.rows.append((self.section, self.cells))
            self.cells = None
        elif tag in ("h1", "h2", "h3", "h4") and self.heading is not None:
            self.section = section_of("".join(self.heading))
            self.heading = None


def html_rows(data):
    t = Tables()
    t.feed(data.decode("utf-8").replace("\u200b", ""))
    out, sums = [], []
    for section, cells in t.rows:
        m = next((m for m in map(MARK.search, cells) if m), None)
        prog = next((c for c in cells if PROG.match(" ".join(c.split()))), None)
        el = next((c for c in cells if ELAPSED.match(c.strip())), None)
        if prog is None or el is None:
            continue
        if m:
            out.append(row(section, prog, el, m.group(1), m.group(2)))
        elif any(c.strip() == "Total" for c in cells):
            x = row(section, prog, el, None, "")
            sums.append(dict(sec=section, **{k: x[k] for k in "trcf"}))
    return [x for x in out if x], sums


def widget_rows(box):
    section, out = "run", []
    for w in box.children:
        if isinstance(w, ipywidgets.HTML) and isinstance(w.value, str):
            section = section_of(w.value)
        elif isinstance(w, ipywidgets.Box):
            bar = next((x for x in w.children if isinstance(x, ipywidgets.IntProgress)), None)
            for x in w.children:
                m = isinstance(x, ipywidgets.Label) and MARK.search(x.value.replace("\u200b", ""))
                if m:
                    parts = x.value.split("; ")
                    if len(parts) >= 3:
                        out.append(row(section, parts[0], parts[1], m.group(1), m.group(2), *((bar.value, bar.max) if bar else ())))
    return [x for x in out if x]


class Out(io.TextIOWrapper):
    """A standard output that hands over what has been written at every flush."""

    def __init__(self, w, encoding):
        self.raw_bytes = io.BytesIO()
        super().__init__(self.raw_bytes, encoding=encoding, errors="strict", write_through=True, newline="")
        self.w, self.seen = w, 0

    def take(self):
        data = self.raw_bytes.getvalue()[self.seen:]
        self.seen += len(data)
        return data.decode(self.encoding)

    def flush(self):
        super().flush()
        if getattr(self, "seen", None) is not None and self.w is not None and not self.closed:
            self.w.printed()


class Watch:
    """One display and what is recorded about it."""

    def __init__(self, r, kind, sess):
        self.r, self.kind, self.sess = r, kind, sess
        self.events, self.ids, self.sec = [], {}, []
        self.over = False
        self.box = None
        self.path = None
        self.dir = None
        self.out = None
        self.polls = 0
        self.ours, self.notifiers = set(), set()
        self.lost = 0
        self.slow = 0  # how long displaying may take
        self.intr = False

    def linger(self):
        if self.slow and self.r.random() < 0.5:
            time.sleep(self.r.choice([1, self.slow]))

    def returned(self, out):
        mine = [t for t in self.sess.threads if t is not self.sess.caller and t.thread not in self.ours]
        self.log(e="ret", out=out, intr=self.intr, live=sum(t.state != detsched.DONE for t in mine))

    def interrupt(self):
        """Ctrl-C, while a call is executing."""
        ct = self.sess.caller
        if not self.intr and ct.state == detsched.BLOCKED and not in_thread_start(ct):
            self.intr = True
            self.sess.inject(ct, KeyboardInterrupt())

    def at(self):
        return int(self.sess.now) - BASE

    def log(self, **e):
        self.events.append(e)

    def sid(self, key):
        if key not in self.ids:
            self.ids[key] = len(self.ids) + 1
            self.sec.append(key[0])
        return self.ids[key]

    def key(self, section, scope):
        k = next(i for i, x in enumerate(scope) if isinstance(x, str) and MARK.match(x))
        return (section, int(MARK.match(scope[k]).group(1)), letters("".join(str(x) for x in scope[k + 1:])))

    def shot(self, rows, w, whole, sums=()):
        good = []
        for x in rows:
            k = x.pop("key")
            if k in self.ids:
                good.append(dict(x, sc=self.ids[k]))
            else:
                self.lost += 1
        self.log(e="shot", at=self.at(), w=w, whole=whole, rows=good, sums=list(sums))

    # ---- where the displays go
    def progress(self):
        if self.kind == "console":
            self.out = Out(self, self.r.choice(["utf-8", "ascii", "latin-1", "utf-8"]))
            return console_progress
        if self.kind == "ipython":
            return ipython_progress
        if self.r.random() < 0.6:
            return html_progress(self.rendered)
        self.dir = tempfile.mkdtemp()
        self.path = os.path.join(self.dir, "p.html")
        return html_progress(self.path)

    def printed(self, w=0):
        text = self.out.take()
        if text:
            self.shot(console_rows(text), w, False)
            if w == 0:
                self.linger()

    def rendered(self, data):
        rows, sums = html_rows(data)
        self.shot(rows, 0, True, sums)
        self.linger()

    def shown(self, box):
        if self.box is None:
            self.box = box

    def poll(self):
        gap = GAP[self.kind]
        if self.kind == "console":
            self.printed(gap)
        elif self.box is not None:
            self.shot(widget_rows(self.box), gap, True)
        elif self.path is not None and os.path.exists(self.path):
            with open(self.path, "rb") as f:
                rows, sums = html_rows(f.read())
            self.shot(rows, gap, True, sums)
        elif self.kind == "ipython" and self.at() <= 1 + gap:
            return
        if self.box is None and self.path is None:
            self.log(e="poll", at=self.at())

    def poller(self):
        while not self.over and self.polls < 40:
            self.polls += 1
            time.sleep(self.r.choice([1, 5, 12, 40]) if self.kind == "ipython" else self.r.choice([7, 40, 95, 340]))
            if not self.over:
                self.poll()

    def died(self, args):
        if args.thread in self.ours:
            self.log(e="harness", x=repr(args.exc_value))
        elif not self.over:  # a worker of the run (C07) or the thread that updates the display
            self.log(e="worker-died" if args.thread in self.notifiers else "died", x=repr(args.exc_type))

    def trace(self):
        return {"p": {"n": len(self.ids), "sec": self.sec, "gap": GAP[self.kind]}, "t": self.events}


class Tee(ProgressObserver):
    """Records every notification and passes it on."""

    def __init__(self, w, inner):
        self.w, self.inner = w, inner

    def __enter__(self):
        self.forward(lambda: self.inner.__enter__())

    def __exit__(self, *a):
        self.forward(lambda: self.inner.__exit__(*a))
        self.w.over = True
        self.w.poll()
        self.w.log(e="over", at=self.w.at())

    def forward(self, fn):
        try:
            return fn()
        except Exception as e:
            self.w.log(e="raised", x=repr(type(e)))

    def note(self, k, section, scope, a=0):
        ct = detsched.current()
        if ct is not None:
            ct.sess.point(ct)
        self.w.notifiers.add(threading.current_thread())
        self.w.log(e="note", at=self.w.at(), k=k, sc=self.w.sid(self.w.key(section, scope)), a=a)
        if ct is not None and self.w.r.random() < 0.3:
            ct.sess.point(ct)

    def increment_total(self, *, section, scope, amount):
        self.note("total", section, scope, amount)
        self.forward(lambda: self.inner.increment_total(section=section, scope=scope, amount=amount))

    def increment_running(self, *, section, scope):
        self.note("running", section, scope)
        self.forward(lambda: self.inner.increment_running(section=section, scope=scope))

    def increment_completed(self, *, section, scope):
        self.note("completed", section, scope)
        self.forward(lambda: self.inner.increment_completed(section=section, scope=scope))

    def increment_failed(self, *, section, scope, exception):
        self.note("failed", section, scope)
        self.forward(lambda: self.inner.increment_failed(section=section, scope=scope, exception=exception))


def of_progress(fn):
    return "/uberjob/" in fn


def session(r, kind, body, strat, p_trace):
    sess = detsched.Session(strat, trace_files=of_progress if r.random() < p_trace else None)
    w = Watch(r, kind, sess)
    prog = w.progress()
    real = sys.stdout, threading.excepthook, IPython.display.display

    def main():
        sess.trace_caller = True
        w.ours.add(threading.current_thread())
        p = threading.Thread(target=w.poller)
        w.ours.add(p)
        p.start()
        body(w, prog)

    try:
        if w.out is not None:
            sys.stdout = w.out
        threading.excepthook = w.died
        IPython.display.display = w.shown
        hang = sess.run(main)
    finally:
        sys.stdout, threading.excepthook, IPython.display.display = real
        if w.path is not None:
            for f in os.listdir(w.dir):
                os.unlink(os.path.join(w.dir, f))
            os.rmdir(w.dir)
        if kind == "ipython":
            ipywidgets.Widget.close_all()
        w.out = None
    if hang:
        w.log(e="hang")
    for x in sess.log:
        if x["e"] == "thread-died":
            w.log(e="harness", x=x["tb"][-600:])
    return w


# ------------------------------------------------------------------ scopes
def scopes(r, n, nasty):
    pool = r.sample(ORDERED, 2) + r.sample(UNORDERED, 4) + (r.sample(NASTY, 2) if r.random() < nasty else [])
    if r.random() < 0.5:  # two values of one type
        t = r.choice([Unord, WeirdLt, RaisingLt, frozenset, complex])
        pool += [x for x in UNORDERED if type(x) is t][:2]
    k = r.choice([0, 1, 1, 2])
    return [tuple(r.choice(pool) for _ in range(k if r.random() < 0.8 else r.randint(0, 3))) + (f"@@{i}@@",) for i in range(n)]


# ------------------------------------------------------------------ campaign 1: notification sequences
def notifications(params, seed, shard, nshards):
    i = shard
    while True:
        yield one(params, sub(seed, "disp", params, i))
        i += nshards


def one(params, s):
    r = random.Random(s)
    random.seed(s)
    kind = r.choice(["console", "html", "ipython"])
    n = r.choice([1, 2, 3, 4])
    scs = scopes(r, n, params.get("p_nasty", 0.15))
    many = r.random() < (0.02 if kind == "ipython" else 0.002)
    jobs = {}
    for sec in SECTIONS:
        if sec == "run" or r.random() < 0.6:
            some = [x for x in range(n) if r.random() < 0.8] or [0]
            jobs[sec] = [x for x in some for _ in range(r.choice([1, 1, 2, 3, 4]))]
    if many:  # more calls than the maximum of a new progress bar
        jobs["run"] += [jobs["run"][0]] * r.choice([105, 140])  # and than the exceptions that a display keeps
    W = r.choice([1, 1, 2, 3])
    p_fail = r.choice([0, 0.1, 0.4, 1.0])
    odd = r.choice([0, 0, 0.1]) if params.get("odd", True) else 0
    cut = r.choice([None, None, r.randint(0, 6)])  # the run is interrupted after so many calls have been started
    unit = r.choice([0, 1, 12, 12, 60])
    dts = [[r.choice([0, 0, 1, 1, 2, 5]) * unit for _ in range(3)] for _ in range(12)]
    aligned = r.random() < 0.5  # notifications come at the times of renderings
    beat = [1, 1] if kind == "ipython" else [3, 30]
    if r.random() < 0.1:
        dts[0][0] = 4000
    started, calls = [0], {}

    idle = r.choice([0, 0.02, 0.1])

    def pause():
        if many and r.random() >= idle:
            return
        if aligned and r.random() < 0.7:
            me = threading.get_ident()
            time.sleep(beat[min(calls.get(me, 0), 1)] if r.random() < 0.8 else 0)
            calls[me] = calls.get(me, 0) + 1
            return
        d = r.choice(r.choice(dts))
        if d:
            time.sleep(d)

    def body(w, prog):
        obs = Tee(w, prog.observer())
        lock = threading.Lock()
        obs.__enter__()
        for sec, todo in jobs.items():
            order = list(dict.fromkeys(todo))
            r.shuffle(order)
            if r.random() < (0.8 if aligned else 0.3):
                pause()
            for x in order:
                obs.increment_total(section=sec, scope=scs[x], amount=todo.count(x))
                if aligned and r.random() < 0.1:
                    pause()
            left = list(todo)
            r.shuffle(left)

            def work():
                while True:
                    with lock:
                        if not left or (cut is not None and started[0] >= cut):
                            return
                        started[0] += 1
                        x = left.pop()
                        last = cut is not None and started[0] == cut and r.random() < 0.6
                    obs.increment_running(section=sec, scope=scs[x])
                    pause()
                    if last:
                        return
                    if r.random() < p_fail:
                        obs.increment_failed(section=sec, scope=scs[x], exception=make_exc(r, odd))
                    else:
                        obs.increment_completed(section=sec, scope=scs[x])
                    if r.random() < 0.3:
                        pause()

            ts = [threading.Thread(target=work) for _ in range(W)]
            w.ours.update(ts)
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if cut is not None and started[0] >= cut:
                break
        if r.random() < 0.3:
            pause()
        if cut is not None:
            e = thrown(KeyboardInterrupt())
            obs.__exit__(KeyboardInterrupt, e, e.__traceback__)
        else:
            obs.__exit__(None, None, None)

    w = session(r, kind, body, strategy(r, 3000), params.get("p_trace", 0.4) * (0 if many else 1))
    tr = w.trace()
    tr["replay"] = ["display", "one", params, s]
    tr["count"] = {kind: 1, "shots": sum(e["e"] == "shot" for e in w.events), "notes": sum(e["e"] == "note" for e in w.events), "rows_unmatched": w.lost}
    return tr


# ------------------------------------------------------------------ campaign 2: runs
class Stamp(uberjob.ValueStore):
    def __init__(self, r, fail):
        self.v, self.t, self.r, self.fail = None, None, r, fail

    def act(self):
        if detsched.current() is None:
            return
        if self.r.random() < 0.5:
            time.sleep(self.r.choice([1, 12, 24]))
        if self.r.random() < self.fail:
            raise make_exc(self.r, 0.05)

    def read(self):
        self.act()
        return self.v

    def write(self, v):
        self.act()
        self.v, self.t = v, dt.datetime(2020, 1, 1) + dt.timedelta(seconds=self.r.randrange(10 ** 6))

    def get_modified_time(self):
        self.act()
        return self.t


def runs(params, seed, shard, nshards):
    i = shard
    while True:
        yield one_run(params, sub(seed, "disprun", params, i))
        i += nshards


def one_run(params, s):
    r = random.Random(s)
    random.seed(s)
    kind = r.choice(["console", "html", "ipython"])
    n = r.randint(1, 6)
    scs = scopes(r, n, params.get("p_nasty", 0.15))
    fail = r.choice([0, 0.1, 0.4])
    stores = r.random() < 0.6
    kill = r.random() < 0.1
    intr = r.random() < params.get("p_intr", 0)
    box = []
    plan, reg = uberjob.Plan(), uberjob.Registry()
    names = ["f", "g", "run.h"]

    def make(i):
        def f(*a):
            if detsched.current() is None:
                return i
            if r.random() < 0.7:
                time.sleep(r.choice([1, 12, 24, 36, 60]))
            if kill and r.random() < 0.2:
                raise SystemExit()
            if intr and r.random() < 0.5:
                box[0].interrupt()
                time.sleep(r.choice([0, 0, 5, 40]))
            if r.random() < fail:
                raise make_exc(r, 0.05)
            return i

        f.__name__ = f.__qualname__ = names[i % 3]
        return f

    nodes = []
    for i in range(n):
        with plan.scope(*scs[i if r.random() < 0.8 else 0]):
            args = [x if r.random() < 0.7 else [x, i] for x in nodes if r.random() < 0.4]
            if stores and r.random() < 0.2:
                st = Stamp(r, fail / 2)
                st.t = dt.datetime(2020, 1, 1)
                nodes.append(reg.source(plan, st))
            else:
                nodes.append(plan.call(make(i), *args))
                if stores and r.random() < 0.5:
                    reg.add(nodes[-1], Stamp(r, fail / 2))
    with plan.scope("@@99@@"):
        output = plan.call(make(0), *nodes) if r.random() < 0.8 else nodes[-1]
    kw = dict(max_workers=r.choice([1, 2, 3]), max_errors=r.choice([0, 1, None]), registry=reg if stores else None,
              retry=r.choice([None, 2]), scheduler=r.choice(["default", "random", None]))
    again = r.random() < 0.3
    wrap = r.random()

    def body(w, prog):
        box.append(w)
        w.slow = params.get("slow", 0)
        tee = Progress(lambda: Tee(w, prog.observer()))
        p = tee if wrap < 0.4 else composite_progress(tee, null_progress) if wrap < 0.7 else [null_progress, composite_progress(tee)]
        try:
            uberjob.run(plan, output=output, progress=p, **kw)
        except Exception as e:
            w.returned(type(e).__name__)
            if not isinstance(e, uberjob.CallError):
                raise
        except BaseException as e:
            w.returned(type(e).__name__)
        else:
            w.returned("value")

    if again and stores:
        try:
            uberjob.run(plan, output=output, progress=None, max_errors=None, registry=reg, max_workers=1)
        except Exception:
            pass
    w = session(r, kind, body, strategy(r, 3000), params.get("p_trace", 0.3))
    tr = w.trace()
    tr["replay"] = ["display", "one_run", params, s]
    tr["count"] = {kind: 1, "shots": sum(e["e"] == "shot" for e in w.events), "notes": sum(e["e"] == "note" for e in w.events), "rows_unmatched": w.lost}
    return tr
