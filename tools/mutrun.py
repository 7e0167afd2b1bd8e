"""Runs short campaigns against mutants: mutrun.py KEPT.json OUT.jsonl PARALLEL SECONDS [FILE-PREFIX]

One line per mutant: the clauses it violates (or nothing: it survives)."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "harness"), os.path.join(os.path.dirname(HERE), "checks")]
import common  # noqa: E402
import properties  # noqa: E402

MAP = [("_execution/", ["runplans", "regplans", "release", "progressruns"]),
       ("_transformations/", ["regplans", "runplans", "isolation", "attribution", "evalplans", "instants", "progressruns", "release"]),
       ("_plan", ["evalplans", "isolation", "attribution", "runplans", "progressruns"]), ("_builtins", ["evalplans", "release", "runplans"]),
       ("graph", ["evalplans", "isolation", "runplans", "progressruns"]), ("_graph", ["evalplans", "runplans"]),
       ("_errors", ["attribution", "runplans"]),
       ("_run", ["runplans", "regplans", "evalplans", "isolation", "attribution", "progressruns", "release", "instants", "display"]),
       ("_registry", ["regplans", "isolation", "attribution"]), ("_value_store", ["regplans", "valuestores"]),
       ("stores/", ["filestores", "valuestores", "instants", "regplans"]),
       ("progress/", ["display", "progressruns"]),
       ("_util/traceback", ["attribution", "evalplans"]), ("_util/retry", ["runplans", "regplans"]),
       ("_util/networkx", ["runplans", "regplans", "evalplans"]), ("_util/", ["evalplans", "display", "progressruns", "runplans", "regplans", "attribution"]),
       ("", ["runplans", "regplans", "evalplans"])]


def campaigns(f):
    want = next(m for p, m in MAP if f.startswith(p))
    out, seen = [], set()
    for pid, p in properties.PROPERTIES.items():
        for c in p["campaigns"]:
            key = (c["py"], c["fn"], json.dumps(c.get("params", {}), sort_keys=True))
            if c["py"] in want and key not in seen and not c.get("thorough") and sum(k[:2] == key[:2] for k in seen) < 2:
                seen.add(key)
                out.append(dict(c, pid=pid))
    return out


def one(secs, f):
    sc = common.Scratch()
    common.NPROC = 2
    found, mach = {}, []
    try:
        for c in campaigns(f):
            env = {}
            if c.get("shim"):
                env["LD_PRELOAD"] = common.shim(sc)
            tr, st = common.run_workers(sc, c["py"], c["fn"], c.get("params", {}), secs, nproc=1, extra_env=env, max_items=1500)
            if st.pop("problem"):
                mach.append(c["py"] + "." + c["fn"])
            if found:
                break
            if tr:
                try:
                    v, ts = common.tlc_traces(sc, c["module"], c["cfg"], tr, shards=1)
                except common.Machinery:
                    mach.append(c["py"] + "." + c["fn"] + ":tlc")
                    continue
                if ts["problem"]:
                    mach.append(c["py"] + "." + c["fn"] + ":tlc")
                for i, j, cl in v:
                    for x in cl:
                        found[x] = found.get(x, 0) + 1
    finally:
        sc.close()
    print("@@" + json.dumps({"found": found, "mach": mach}))


def main(kept, out, par, secs, prefix):
    ms = [m for m in json.load(open(kept)) if m["file"].startswith(prefix)]
    done = {json.loads(x)["id"] for x in open(out)} if os.path.exists(out) else set()
    exp = tempfile.mkdtemp(prefix="mutexp-")
    sc = common.Scratch()
    for p in properties.PROPERTIES.values():
        for m in p["models"]:
            if "export" in m:
                os.environ[m["export"]] = os.path.join(exp, m["export"])
                common.tlc_model(sc, m["module"], m["cfg"], m.get("overrides"))

    def go(m):
        if m["id"] in done:
            return
        d = tempfile.mkdtemp(prefix="mutsrc-")
        try:
            shutil.copytree("/repo/src", d + "/src")
            open(os.path.join(d, "src/uberjob", m["file"]), "w").write(m["src"])
            r = subprocess.run([common.PY, "-B", os.path.abspath(__file__), "one", str(secs), m["file"]], env=dict(os.environ, VERIF_REPO=d),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            line = next((x for x in r.stdout.split("\n") if x.startswith("@@")), None)
            res = json.loads(line[2:]) if line else {"error": r.stdout[-500:]}
            with open(out, "a") as f:
                f.write(json.dumps(dict(id=m["id"], file=m["file"], line=m["line"], what=m["what"], **res)) + "\n")
        finally:
            shutil.rmtree(d)

    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        list(ex.map(go, ms))
    sc.close()
    shutil.rmtree(exp)


if __name__ == "__main__":
    if sys.argv[1] == "one":
        one(float(sys.argv[2]), sys.argv[3])
    else:
        main(sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "")
