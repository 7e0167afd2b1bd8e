"""Small syntactic mutants of uberjob that pass its tests: mutants.py list OUT.json; used to look for weak spots of the checks.

Each mutant: file, line, description, source.  `filter` keeps those that pass the repository's tests (in copies of /repo)."""
import ast
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
SKIP = ("_version.py", "_testing", "_rendering.py")
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def mutants_of(path):
    src = open(path).read()
    tree = ast.parse(src)
    offs = [0]
    for line in src.split("\n"):
        offs.append(offs[-1] + len(line.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def rep(n, new, what):
        a, b = span(n)
        m = raw[:a].decode() + new + raw[b:].decode()
        try:
            compile(m, path, "exec")
        except SyntaxError:
            return
        if m != src:
            out.append((n.lineno, what, m))

    for n in ast.walk(tree):
        if isinstance(n, ast.stmt):
            doc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.AnnAssign)) and not doc:
                rep(n, "pass", f"delete: {text(n)[:80]}")
            if isinstance(n, ast.Return) and n.value is not None:
                rep(n.value, "None", f"return None instead of {text(n.value)[:60]}")
            if isinstance(n, (ast.If, ast.While)):
                rep(n.test, f"(not ({text(n.test)}))", f"negate {text(n.test)[:60]}")
                if isinstance(n, ast.If):
                    rep(n.test, "True", f"always {text(n.test)[:60]}")
                    rep(n.test, "False", f"never {text(n.test)[:60]}")
            if isinstance(n, ast.With):
                a, _ = span(n)
                first = n.body[0]
                header = raw[a:span(first)[0]].decode()
                indent = header[header.rfind("\n"):] if "\n" in header else None
                if indent and not any(i.optional_vars for i in n.items):
                    hdr_node = n
                    a, b = span(n)
                    body = raw[span(first)[0]:b].decode()
                    m = raw[:a].decode() + "if True:" + indent + body + raw[b:].decode()
                    try:
                        compile(m, path, "exec")
                        out.append((n.lineno, f"without {text(n.items[0].context_expr)[:60]}", m))
                    except SyntaxError:
                        pass
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    if isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException"):
                        rep(h.type, "BaseException" if h.type.id == "Exception" else "Exception", f"except {h.type.id} changed")
                    if h.type is not None:
                        rep(h.type, "()", f"except {text(h.type)} never")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                rep(n, f"({text(n.left)} {op} {text(n.comparators[0])})", f"{text(n)[:60]} with {op}")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", f"{text(n)[:60]} with{op}")
            for i in range(len(n.values)):
                rep(n, text(n.values[i]), f"{text(n)[:60]} only operand {i}")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), f"{n.value} flipped")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), f"{n.value}+1")
                rep(n, f"({n.value - 1})", f"{n.value}-1")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), f"without not: {text(n)[:60]}")
        elif isinstance(n, ast.IfExp):
            rep(n, text(n.body), f"always {text(n.body)[:50]} of {text(n)[:60]}")
            rep(n, text(n.orelse), f"always {text(n.orelse)[:50]} of {text(n)[:60]}")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd, ast.Mult, ast.Div)):
            new = {ast.Add: "-", ast.Sub: "+", ast.BitOr: "&", ast.BitAnd: "|", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            rep(n, f"({text(n.left)} {new} {text(n.right)})", f"{text(n)[:60]} with {new}")
            rep(n, text(n.left), f"{text(n)[:60]}: left only")
            rep(n, text(n.right), f"{text(n)[:60]}: right only")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ("sorted", "list", "set", "tuple", "dict", "max", "min", "frozenset", "reversed") and len(n.args) == 1 and not n.keywords:
                rep(n, text(n.args[0]), f"without {f}: {text(n)[:60]}")
            if f in ("max", "min"):
                rep(n.func, "min" if f == "max" else "max", f"{f} swapped: {text(n)[:60]}")
            for k in n.keywords:
                if k.arg and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                    rep(k.value, "None", f"{f}(... {k.arg}=None)")
            for i, a in enumerate(n.args):
                if isinstance(a, ast.GeneratorExp):
                    continue
                if len(n.args) == 2 and i == 0:
                    rep(n, f"{f}({text(n.args[1])}, {text(n.args[0])})" if not n.keywords else text(n), f"swap args {text(n)[:60]}")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", f"comprehension without filter {text(c)[:50]}")
        if isinstance(n, ast.For) and not n.orelse:
            rep(n.iter, f"list({text(n.iter)})[1:]", f"skip first of {text(n.iter)[:50]}")
            rep(n.iter, f"list({text(n.iter)})[:-1]", f"skip last of {text(n.iter)[:50]}")
            rep(n.iter, f"list({text(n.iter)})[::-1]", f"reverse {text(n.iter)[:50]}")
    return out


def all_mutants():
    res = []
    base = os.path.join(REPO, "src/uberjob")
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            if f.endswith(".py") and not any(s in rel for s in SKIP):
                seen = set()
                for line, what, m in mutants_of(p):
                    if m not in seen:
                        seen.add(m)
                        res.append({"file": rel, "line": line, "what": what, "src": m, "id": hashlib.sha1((rel + m).encode()).hexdigest()[:10]})
    return res


BASELINE = None


def passes(args):
    m, d = args
    p = os.path.join(d, "src/uberjob", m["file"])
    orig = open(p).read()
    try:
        open(p, "w").write(m["src"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=os.path.join(d, "src"))
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            return r.returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        open(p, "w").write(orig)


def filter_tests(ms, out, nproc):
    import queue

    root = tempfile.mkdtemp(prefix="mu-")
    dirs = queue.Queue()
    for i in range(nproc):
        subprocess.run(["cp", "-a", REPO, f"{root}/{i}"], check=True)
        dirs.put(f"{root}/{i}")
    kept = []

    def go(m):
        d = dirs.get()
        try:
            if passes((m, d)):
                kept.append(m)
        finally:
            dirs.put(d)

    with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
        for i, _ in enumerate(ex.map(go, ms)):
            if i % 50 == 0:
                print(i, len(kept), flush=True)
                json.dump(kept, open(out, "w"))
    json.dump(kept, open(out, "w"))
    shutil.rmtree(root)


if __name__ == "__main__":
    ms = all_mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m["file"], m["line"], m["what"])
        print(len(ms))
    else:
        filter_tests(ms, sys.argv[2], int(sys.argv[3]))
