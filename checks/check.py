"""Decide one property: check.py C01 [--replay FILE]

1. TLC explores the design models of the property exhaustively.
2. Worker processes run the real code of /repo and record traces.
3. TLC validates every trace against the specification; its verdicts are the only oracle.

exit 0: held on everything explored; 1: VIOLATION line printed; other: the machinery failed."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "harness"), HERE]
import common  # noqa: E402
import properties  # noqa: E402


def sample(tr):
    s = json.dumps({"p": tr["p"], "t": tr["t"]})
    return s if len(s) < 1500 else s[:1500] + "..."


def run(pid):
    t0 = time.time()
    spec = properties.PROPERTIES[pid]
    scratch = common.Scratch()
    thorough = common.TIER == "thorough"
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "design_models": [], "campaigns": [],
           "exhaustive": False}
    viols, problems = [], []
    try:
        for m in spec["models"]:
            if m.get("thorough") and not thorough:
                continue
            if "export" in m:  # the model writes scenarios for the campaigns
                os.environ[m["export"]] = scratch.file(m["export"])
            r = common.tlc_model(scratch, m["module"], m["cfg"], m.get("thorough_overrides") if thorough and "thorough_overrides" in m
                                 else m.get("overrides"), timeout=m.get("timeout", 800) * (6 if thorough else 1))
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            cov["design_models"].append({k: r[k] for k in ("module", "cfg", "overrides", "distinct", "generated", "wall_s")})
        # the specification must be able to fail: deliberately broken designs are rejected
        for m in spec.get("broken", []):
            if m.get("thorough") and not thorough:
                continue
            r = common.tlc_try(scratch, m["module"], m["cfg"], m.get("overrides"), timeout=400)
            if r["ok"] or not ("violated" in r["out"] or "Deadlock reached" in r["out"]):
                raise common.Machinery(f"the deliberately broken design {m} was not rejected\n" + r["out"][-1500:])
            cov.setdefault("broken_designs_rejected", []).append(m.get("overrides") or m["cfg"])
        for c in spec["campaigns"]:
            if c.get("thorough") and not thorough:
                continue
            secs = c["seconds"] * (c.get("factor", 12) if thorough else 1)
            items = c.get("max_items", 10**9) * (c.get("factor", 12) if thorough else 1)
            params = dict(c.get("params", {}))
            if thorough:
                params.update(c.get("thorough_params", {}))
            env = dict(c.get("env", {}))
            if c.get("shim"):
                env["LD_PRELOAD"] = common.shim(scratch)
            traces, st = common.run_workers(scratch, c["py"], c["fn"], params, secs, max_items=items, extra_env=env,
                                            nproc=c.get("nproc", common.NPROC))
            problem = st.pop("problem")
            if problem:
                problems.append(problem)
            if not traces:
                problems.append(f"campaign {c['fn']} recorded nothing")
                continue
            v, ts = common.tlc_traces(scratch, c["module"], c["cfg"], traces, timeout=800 * (6 if thorough else 1))
            if ts["problem"]:
                problems.append(ts["problem"])
            cov["states"] += ts["distinct"]
            cov["transitions"] += ts["generated"]
            cov["traces_validated_against_impl"] += ts["traces"]
            cov["campaigns"].append({"name": c["fn"], "params": params, "trace_spec": c["module"], **st,
                                     "events": ts["distinct"] - ts["traces"]})
            cov["samples"].append({"campaign": c["fn"], "trace": sample(traces[len(traces) // 3])})
            other = {}
            for i, j, clauses in v:
                mine = [x for x in clauses if x.split(".")[0] == pid]
                for x in clauses:
                    if x not in mine:
                        other[x] = other.get(x, 0) + 1
                    if x.split(".")[0] == "M":
                        problems.append(f"the trace specification found the harness inconsistent: {x} in {sample(traces[i])}")
                if mine:
                    viols.append((mine, traces[i], j))
            if other:
                cov["campaigns"][-1]["clauses_of_other_properties_violated"] = other
        known = common.load_known()
        new, shown = [], set()
        for mine, tr, j in viols:
            hit = match_known(known, pid, mine, tr)
            if hit is None:
                new.append((mine, tr, j))
            elif hit not in shown:
                shown.add(hit)
                print(f"KNOWN-FINDING: property={pid} {hit}")
        by = {}
        for mine, tr, j in new:
            by.setdefault(tuple(mine), []).append((len(tr["t"]), j, tr))
        cov["violated_clauses"] = {",".join(k): len(v) for k, v in by.items()}
        for k, vs in sorted(by.items(), key=lambda kv: min(x[0] for x in kv[1]))[:5]:
            _, j, tr = min(vs, key=lambda x: x[0])
            path = common.write_replay(pid, tr, list(k), j)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  clauses {', '.join(k)} ({len(vs)} traces); shortest: {sample(tr)[:700]}")
        if problems and not new:
            raise common.Machinery(problems[0])
        common.write_evidence(pid, "model_checking", cov, time.time() - t0, len(new), spec["assumptions"])
        print(f"{pid}: {cov['states']} states, {cov['traces_validated_against_impl']} traces validated, "
              f"{len(new)} violations, {time.time() - t0:.1f}s")
        return 1 if new else 0
    finally:
        scratch.close()


def match_known(known, pid, clauses, tr):
    for f in known.get("findings", []):
        if f["property"] == pid and set(clauses) <= set(f["clauses"]) and all(tr.get("key", {}).get(k) == v for k, v in f["key"].items()):
            return f["what"]
    return None


def replay(pid, path):
    """Re-execute the scenario of a violation and validate the fresh trace."""
    import subprocess

    body = json.load(open(path))
    rp = body["trace"].get("replay")
    spec = properties.PROPERTIES[pid]
    scratch = common.Scratch()
    try:
        tr = body["trace"]
        c = next(c for c in spec["campaigns"] if not rp or c["py"] == rp[0])
        if rp:
            code = ("import sys,json,os,importlib\nm=importlib.import_module(sys.argv[1])\n"
                    "tr=getattr(m,sys.argv[2])(*json.loads(sys.argv[3]))\n"
                    "sys.stdout.write('\\n@@'+json.dumps(tr,default=str)+'\\n');sys.stdout.flush();os._exit(0)")
            env = dict(c.get("env", {}))
            if c.get("shim"):
                env["LD_PRELOAD"] = common.shim(scratch)
            p = subprocess.run([common.PY, "-B", "-c", code, rp[0], rp[1], json.dumps(rp[2:])], env=common.worker_env(env),
                               stdout=subprocess.PIPE, text=True, cwd=scratch.path)
            tr = json.loads(p.stdout.split("@@", 1)[1])
        for k, e in enumerate(tr["t"]):
            print(k, json.dumps(e))
        v, _ = common.tlc_traces(scratch, c["module"], c["cfg"], [tr])
        for _, j, clauses in v:
            print("event", j, clauses)
        return 1 if any(x.startswith(pid + ".") for _, _, cl in v for x in cl) else 0
    finally:
        scratch.close()


if __name__ == "__main__":
    try:
        rc = replay(sys.argv[1], sys.argv[3]) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else run(sys.argv[1])
    except common.Machinery as e:
        print("MACHINERY:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
