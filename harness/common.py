"""Shared machinery: running TLC, running campaign workers, collecting verdicts, writing evidence."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """The check itself is broken (as opposed to the code under test)."""


class Scratch:
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="verif-")

    def file(self, name):
        return os.path.join(self.path, name)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------ TLC
def _tlc_cmd(module, cfg, meta, workers, heap, opts):
    return [
        "java", f"-Djava.io.tmpdir={os.path.dirname(meta)}", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss16m", "-cp", JARS,
        "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *opts,
        "-config", cfg, module,
    ]


def parse_tlc(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", out, re.M)
    gen, distinct, left = (int(x) for x in m[-1]) if m else (0, 0, -1)
    return {"generated": gen, "distinct": distinct, "left": left,
            "ok": "Model checking completed. No error has been found." in out}


def tlc_model(scratch, module, cfg, overrides=None, workers=NPROC, heap="6g", timeout=800, opts=()):
    """Exhaustive check of a design model.  Returns stats; raises Machinery unless it passes."""
    r = tlc_try(scratch, module, cfg, overrides, workers, heap, timeout, opts)
    if not r["ok"] or r["left"] != 0:
        raise Machinery(f"design model {module}/{cfg} {overrides or ''} failed:\n" + r["out"][-4000:])
    return r


def tlc_try(scratch, module, cfg, overrides=None, workers=NPROC, heap="6g", timeout=800, opts=()):
    d = tempfile.mkdtemp(dir=scratch.path)
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in (overrides or {}).items():
        text, n = re.subn(rf"(?m)^(\s*{re.escape(k)}\s*(?:=|<-)).*$", rf"\1 {v}", text)
        if not n:
            raise Machinery(f"{cfg} has no constant {k}")
    c = os.path.join(d, cfg)
    open(c, "w").write(text)
    t0 = time.time()
    try:
        p = subprocess.run(_tlc_cmd(os.path.join(SPEC, module), c, os.path.join(d, "md"), workers, heap, list(opts)),
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        raise Machinery(f"TLC timed out on {module}/{cfg}") from e
    r = parse_tlc(out)
    r.update(module=module, cfg=cfg, overrides=overrides or {}, out=out, wall_s=round(time.time() - t0, 1))
    shutil.rmtree(d, ignore_errors=True)
    return r


VIOL = re.compile(r'^"?VIOL (\d+) (\d+) (.*?)"?$', re.M)
CLAUSE = re.compile(r'\\?"([A-Z0-9]+\.[A-Za-z0-9_.\-]+)\\?"')


def tlc_traces(scratch, module, cfg, traces, shards=NPROC, heap="2g", timeout=800):
    """Validate traces (dicts with key "t": list of events) against a trace module.

    Returns (violations, stats); violations are (trace index, event index, [clauses])."""
    n = len(traces)
    if n == 0:
        return [], {"distinct": 0, "generated": 0, "traces": 0, "problem": None}
    shards = max(1, min(shards, (n + 19) // 20))
    groups = [list(range(k, n, shards)) for k in range(shards)]
    procs = []
    for k, g in enumerate(groups):
        d = tempfile.mkdtemp(dir=scratch.path)
        path = os.path.join(d, "traces.ndjson")
        with open(path, "w") as f:
            for i in g:
                f.write(json.dumps({"p": traces[i]["p"], "t": traces[i]["t"]}) + "\n")
        outf = open(os.path.join(d, "out"), "w+")
        env = dict(os.environ, TRACE=path)
        pr = subprocess.Popen(_tlc_cmd(os.path.join(SPEC, module), os.path.join(SPEC, cfg), os.path.join(d, "md"), 1, heap, []),
                              cwd=d, stdout=outf, stderr=subprocess.STDOUT, text=True, env=env)
        procs.append((pr, outf, g, d))
    viols, distinct, gen = [], 0, 0
    deadline = time.time() + timeout
    err = None
    for pr, outf, g, d in procs:
        try:
            pr.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
            err = err or f"TLC timed out validating traces with {module}"
            continue
        outf.seek(0)
        out = outf.read()
        outf.close()
        st = parse_tlc(out)
        want = sum(len(traces[i]["t"]) + 1 for i in g)
        if not st["ok"] or st["distinct"] != want:
            err = err or f"trace validation with {module}: {st}, expected {want} states\n" + out[-3000:]
        distinct += st["distinct"]
        gen += st["generated"]
        for m in VIOL.finditer(out):
            viols.append((g[int(m.group(1)) - 1], int(m.group(2)) - 1, sorted(set(CLAUSE.findall(m.group(3))))))
        shutil.rmtree(d, ignore_errors=True)
    viols.sort()
    # a problem is reported by the caller, unless what was validated shows a violation
    return viols, {"distinct": distinct, "generated": gen, "traces": n, "problem": err}


# ------------------------------------------------------------------ running campaigns in worker processes
def worker_env(extra=None):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC",
               PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + os.path.join(VERIF, "harness"))
    env["VERIF_REPO"] = REPO
    env.update(extra or {})
    return env


def run_workers(scratch, module, campaign, params, seconds, nproc=NPROC, max_items=10**9, extra_env=None):
    """Start nproc processes running `module`.campaign; returns (traces, stats)."""
    procs = []
    pyc = scratch.file("pyc")
    for k in range(nproc):
        out = scratch.file(f"w-{campaign}-{k}-{time.time_ns()}.ndjson")
        cmd = [PY, "-X", f"pycache_prefix={pyc}", os.path.join(VERIF, "harness", "worker.py"), module, campaign, json.dumps(params), str(SEED),
               str(k), str(nproc), str(seconds), str(max_items), out]
        work = scratch.file(f"cwd-{campaign}-{k}")
        os.makedirs(work, exist_ok=True)
        err = open(out + ".err", "w+")
        procs.append((subprocess.Popen(cmd, env=worker_env(extra_env), cwd=work, stdout=err, stderr=subprocess.STDOUT,
                                       stdin=subprocess.DEVNULL), out, err))
    traces, stats = [], {"runs": 0, "distinct": 0}
    deadline = time.time() + seconds + 240
    failed = None
    for p, out, err in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.seek(0)
        errtext = err.read()[-3000:]
        err.close()
        done = False
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        break
                    if "stats" in rec:
                        done = True
                        for kk, v in rec["stats"].items():
                            if isinstance(v, (int, float)):
                                stats[kk] = stats.get(kk, 0) + v
                    else:
                        traces.append(rec)
        if not done:
            failed = failed or f"worker {campaign} ended without a result (rc={p.returncode}): {errtext}"
    # reported by the caller, unless the traces that were recorded show a violation
    stats["problem"] = failed
    # identical traces recorded by different workers count once
    seen, uniq = set(), []
    for t in traces:
        h = hashlib.sha1(json.dumps([t["p"], t["t"]], sort_keys=True).encode()).digest()
        if h not in seen:
            seen.add(h)
            uniq.append(t)
    stats["distinct"] = len(uniq)
    return uniq, stats


def shim(scratch):
    """Builds the file-operation shim into the scratch directory."""
    so = scratch.file("fsshim.so")
    if not os.path.exists(so):
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(VERIF, "harness", "fsshim.c"), "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Machinery("the shim does not compile: " + p.stdout[-2000:])
    return so


# ------------------------------------------------------------------ verdicts
def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


def write_replay(pid, trace, clauses, idx, extra=None):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "clauses": clauses, "event_index": idx, "trace": trace}
    body.update(extra or {})
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def write_evidence(pid, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    doc = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
           "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(VERIF, "evidence", f"{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
