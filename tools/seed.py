"""Confirm a planted bug and keep it: seed.py SPEC.py...

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file under src/uberjob, old, new)] and DEMO (Python source: exits 0 iff the
property holds).  In scratch copies of /repo: the demonstration passes on the unchanged tree and fails with the change, and the change
passes the stable tests.  Then /verif/seeded/<ID>/ is written."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
cd "$work"
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def env(repo):
    return dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def demo(d, repo):
    try:
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return p.returncode, p.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def tests(repo):
    x = os.path.join(repo, "..", "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--disable-warnings", "-o", "junit_family=xunit2",
                    f"--junitxml={x}"], cwd=repo, env=env(repo), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if c.find("failure") is None and c.find("error") is None and c.find("skipped") is None:
            ok.add(c.get("classname") + "::" + c.get("name"))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    top = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = top + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        d = top + "/demo"
        os.mkdir(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        for k in range(3):
            rc, out = demo(d, repo)
            if rc:
                return print(ns["ID"], "REJECTED: the demonstration fails on the unchanged tree", rc, out)
        for f, old, new in ns["EDITS"]:
            p = f"{repo}/src/uberjob/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return print(ns["ID"], f"REJECTED: {s.count(old)} occurrences of {old!r} in {f}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        for k in range(3):
            rc, out = demo(d, repo)
            if not rc:
                return print(ns["ID"], "REJECTED: the demonstration passes with the change", out)
        bad = tests(repo)
        if bad:
            return print(ns["ID"], "REJECTED: tests fail with the change", bad)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        dest = f"{HERE}/seeded/{ns['ID']}"
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        shutil.copytree(d, dest)
        print(ns["ID"], "kept; demonstration with the change:", rc, out.strip()[-200:].replace("\n", " | "))
    finally:
        shutil.rmtree(top)


for path in sys.argv[1:]:
    main(path)
