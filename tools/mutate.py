"""Mutation sweep: mutate.py gen|test|check …   A measure of the checks, not a check.

  gen   OUT.json                       every mutant of the files in scope (source-position edits found with ast)
  test  MUTS.json OUT.json [N seed]    a random N of them through the stable tests, 8 at a time; writes the survivors
  check SURV.json OUT.json COVDIR      each survivor through the checks that execute its line, most specific first

Works in copies under /tmp/mw_*; never touches /repo."""
import ast
import json
import os
import random
import subprocess
import sys
import time
from multiprocessing import Pool

REPO, PY = os.environ.get("MUT_REPO", "/repo"), "/opt/venv/bin/python"
FILES = ["core/fiber.py", "core/iterators.py", "core/tensor.py", "core/rank.py", "core/rank_attrs.py", "core/payload.py",
         "core/coord_payload.py", "core/metrics.py", "model/compute.py", "model/format.py", "model/intersect.py",
         "model/traffic.py", "codec/tensor_codec.py", "codec/compression_types.py", "codec/formats/compression_format.py",
         "codec/formats/uncompressed.py", "codec/formats/coord_list.py", "codec/formats/bitvector.py"]
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Div: ["*"]}
SKIPCALL = {"print", "debug", "info", "warning", "error", "getLogger", "repr", "str", "format", "isinstance_"}
SKIPFUN = {"print", "__str__", "__repr__", "uncoordStr", "dump", "_dump", "__format__", "setMutable_"}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines, self.out, self.fn, self.off = src, src.splitlines(True), [], [], [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, e = self.pos(n)
        return self.b[a:e].decode()

    def add(self, n, a, e, new, op):
        old = self.b[a:e].decode()
        if old != new:
            self.out.append({"line": n.lineno, "a": a, "e": e, "new": new, "old": old, "op": op, "fn": ".".join(self.fn)})

    def rep(self, n, new, op):
        self.add(n, *self.pos(n), new, op)

    def visit_FunctionDef(self, n):
        if n.name in SKIPFUN:
            return
        self.fn.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                self.rep(d, str(not d.value), "default")
        self.body(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.body(n.body)
        self.fn.pop()

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = s.value.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if nm in SKIPCALL:
                    continue
            if self.fn and isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Continue, ast.Break, ast.Delete)):
                if not (isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.Constant))):
                    if not (isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets)):
                        self.rep(s, "pass", "drop-stmt")
            self.visit(s)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                self.body(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_If(self, n):
        t = self.seg(n.test)
        self.rep(n.test, "True", "cond")
        self.rep(n.test, "False", "cond")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, self.seg(n.body), "ifexp")
        self.rep(n, self.seg(n.orelse), "ifexp")
        self.generic_visit(n)

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            a, e = self.pos(left)[1], self.pos(right)[0]
            for new in CMP.get(type(op), []):
                self.add(n, a, e, f" {new} ", "cmp")
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, e = self.pos(n.left)[1], self.pos(n.right)[0]
        mid = self.b[a:e].decode()
        for new in BIN.get(type(n.op), []):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                for o in ("//", "+", "-", "*", "%", "/"):
                    if o in mid:
                        self.add(n, a, e, mid.replace(o, new, 1), "bin")
                        break
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        for x, y in zip(n.values, n.values[1:]):
            a, e = self.pos(x)[1], self.pos(y)[0]
            self.add(n, a, e, self.b[a:e].decode().replace(o, w, 1), "bool")
        for i in range(len(n.values)):
            vs = [f"({self.seg(v)})" for j, v in enumerate(n.values) if j != i]
            self.rep(n, f" {o} ".join(vs), "drop-term")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, f"({self.seg(n.operand)})", "drop-not")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.rep(n, str(not v), "const")
        elif isinstance(v, int) and not isinstance(v, bool):
            self.rep(n, str(v + 1), "const")
            if v > 0:
                self.rep(n, str(v - 1), "const")
            elif v == 0:
                self.rep(n, "-1", "const")

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if nm in SKIPCALL:
            return
        if nm in ("deepcopy", "copy") and n.args:
            self.rep(n, f"({self.seg(n.args[0])})", "drop-copy")
        if nm in ("sorted", "list", "reversed") and len(n.args) >= 1:
            self.rep(n, f"({self.seg(n.args[0])})", "drop-call")
        if nm in ("min", "max"):
            self.rep(f, "max" if nm == "min" else "min", "minmax")
        alla = list(n.args) + [k for k in n.keywords]
        for k in n.keywords:
            if k.arg:
                a, e = self.pos(k)
                j = a
                while j > 0 and self.b[j - 1:j] in b" \n\t":
                    j -= 1
                if self.b[j - 1:j] == b",":
                    self.add(k, j - 1, e, "", "drop-kw")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        s = n.slice
        if isinstance(s, ast.Slice) and s.lower is None and s.upper is None and s.step is None:
            self.rep(n, self.seg(n.value), "drop-copy")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.rep(n.value, "None", "return")
        self.generic_visit(n)


def gen(out):
    res = []
    for f in FILES:
        p = f"{REPO}/fibertree/{f}"
        src = open(p).read()
        v = V(src)
        v.body(ast.parse(src).body)
        seen = set()
        for m in v.out:
            k = (m["a"], m["e"], m["new"])
            if k in seen:
                continue
            seen.add(k)
            m["file"] = "fibertree/" + f
            res.append(m)
    for i, m in enumerate(res):
        m["id"] = i
    json.dump(res, open(out, "w"))
    print(len(res), "mutants")


def apply(m, root):
    p = f"{root}/{m['file']}"
    b = open(f"{REPO}/{m['file']}", "rb").read()
    assert b[m["a"]:m["e"]].decode() == m["old"]
    nb = b[:m["a"]] + m["new"].encode() + b[m["e"]:]
    open(p, "wb").write(nb)
    return nb


def restore(m, root):
    open(f"{root}/{m['file']}", "wb").write(open(f"{REPO}/{m['file']}", "rb").read())


def _root():
    root = f"/tmp/mw_{os.getpid()}"
    if not os.path.exists(root):
        subprocess.run(f"mkdir {root}; cp -a {REPO}/fibertree {REPO}/test {REPO}/setup.py {root}/; cp -a {REPO}/examples {root}/ 2>/dev/null",
                       shell=True)
    return root


def one_test(m):
    root = _root()
    try:
        compile(apply(m, root), m["file"], "exec")
    except SyntaxError:
        restore(m, root)
        return m["id"], "syntax"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=f"{root}/pyc", PYTHONPATH=root, PYTHONHASHSEED="0",
               MPLBACKEND="Agg", MPLCONFIGDIR=f"{root}/mpl", TMPDIR=root)
    subprocess.run(f"rm -rf {root}/test/tmp", shell=True)
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--rootdir={root}", "."], cwd=f"{root}/test",
                           env=env, capture_output=True, text=True, timeout=40)
        res = "survived" if r.returncode == 0 else "killed"
    except subprocess.TimeoutExpired:
        res = "timeout"
    restore(m, root)
    return m["id"], res


def test(muts, out, n, seed, only=None):
    ms = json.load(open(muts))
    if only:
        ms = [m for m in ms if only in m["file"]]
    random.Random(seed).shuffle(ms)
    ms = ms[:n] if n else ms
    by = {m["id"]: m for m in ms}
    tally, surv, t0 = {}, [], time.time()
    with Pool(8) as p:
        for k, (i, r) in enumerate(p.imap_unordered(one_test, ms)):
            tally[r] = tally.get(r, 0) + 1
            if r == "survived":
                surv.append(by[i])
            if k % 50 == 0:
                json.dump(surv, open(out, "w"))
                print(k, tally, round(time.time() - t0), flush=True)
    json.dump(surv, open(out, "w"))
    print(tally)
    subprocess.run("rm -rf /tmp/mw_*", shell=True)


def one_check(a):
    m, props = a
    root = _root()
    apply(m, root)
    res = []
    for c in props:
        env = dict(os.environ, VERIF_REPO=root, VERIF_JOBS="2", VF_STOP_FIRST="1")
        try:
            r = subprocess.run(["python3", f"{os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}/run.py", c], env=env,
                               capture_output=True, text=True, timeout=600)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, o = "timeout", ""
        if rc != 0:
            res.append([c, rc, o[-1200:]])
            if rc == 1 and "VIOLATION property=" in o:
                break
    restore(m, root)
    return m["id"], res


def check(surv, out, covdir):
    ms = json.load(open(surv))
    cov = {}
    for f in os.listdir(covdir):
        d = json.load(open(f"{covdir}/{f}"))
        cov[f[:3]] = {k: set(v) for k, v in d.items()}
    size = {c: sum(len(x) for x in d.values()) for c, d in cov.items()}
    done = json.load(open(out)) if os.path.exists(out) else {}
    jobs, un = [], 0
    for m in ms:
        if str(m["id"]) in done:
            continue
        # the statement may start on an earlier line than the expression
        ps = [c for c, d in cov.items() if set(range(m["line"] - 2, m["line"] + 2)) & d.get(m["file"], set())]
        ps.sort(key=lambda c: size[c])
        if not ps:
            done[str(m["id"])] = {"m": m, "r": "unexecuted"}
            un += 1
        else:
            jobs.append((m, ps))
    by = {m["id"]: m for m in ms}
    print(len(jobs), "to check;", un, "unexecuted", flush=True)
    t0, ncaught = time.time(), 0
    with Pool(4) as p:
        for k, (i, res) in enumerate(p.imap_unordered(one_check, jobs)):
            c = [x for x in res if x[1] == 1]
            ncaught += bool(c)
            done[str(i)] = {"m": by[i], "r": c[0][0] if c else "MISSED", "other": res}
            if not c:
                m = by[i]
                print("MISSED", i, m["file"], m["line"], m["fn"], m["op"], repr(m["old"][:60]), "->", repr(m["new"][:60]),
                      [x[:2] for x in res], flush=True)
            if k % 10 == 0:
                json.dump(done, open(out, "w"))
                print(k, "caught", ncaught, round(time.time() - t0), flush=True)
    json.dump(done, open(out, "w"))
    subprocess.run("rm -rf /tmp/mw_*", shell=True)


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(a[2])
    elif a[1] == "test":
        test(a[2], a[3], int(a[4]) if len(a) > 4 else 0, int(a[5]) if len(a) > 5 else 1, a[6] if len(a) > 6 else None)
    elif a[1] == "check":
        check(a[2], a[3], a[4])
