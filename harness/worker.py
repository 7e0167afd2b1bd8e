"""Worker process: runs one campaign against the real code and writes the recorded traces.

argv: module campaign params-json seed shard nshards seconds max_items out
A campaign is a function `f(params, rng_seed, shard, nshards)` returning an iterator of traces."""
import hashlib
import importlib
import json
import os
import sys
import time


def main():
    module, campaign, params, seed, shard, nshards, seconds, max_items, out = sys.argv[1:]
    seed, shard, nshards, max_items, seconds = int(seed), int(shard), int(nshards), int(max_items), float(seconds)
    mod = importlib.import_module(module)
    import uberjob

    want = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    assert os.path.realpath(uberjob.__file__).startswith(os.path.realpath(want)), uberjob.__file__
    end = time.time() + seconds
    seen = set()
    runs = 0
    stats = {}
    with open(out, "w") as f:
        for tr in getattr(mod, campaign)(json.loads(params), seed, shard, nshards):
            if tr is not None:
                runs += tr.pop("runs", 1)
                for k, v in tr.pop("count", {}).items():
                    stats[k] = stats.get(k, 0) + v
                s = json.dumps([tr["p"], tr["t"]], sort_keys=True)
                h = hashlib.sha1(s.encode()).digest()
                if h not in seen:
                    seen.add(h)
                    f.write(json.dumps(tr) + "\n")
            if len(seen) >= max_items or mod_time() > end:
                break
        stats["runs"] = runs
        f.write(json.dumps({"stats": stats}) + "\n")
        f.flush()
    sys.stdout.flush()
    os._exit(0)


def mod_time():
    # time.time may be replaced by the deterministic scheduler; this thread is never controlled
    return time.time()


if __name__ == "__main__":
    main()
