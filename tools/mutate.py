#!/opt/venv/bin/python
"""Mutation campaign: small changes of the library in scratch copies, run against the checks.

  mutate.py OUT.jsonl [--slots 8] [--fraction 0.15] [--files a.py,b.py] [--limit N] [--seed S]

Runs from a copy of the committed /verif and of /repo under /tmp/mc; nothing in
/repo or /verif is touched.  Each mutant is run against the checks that concern
its file until one reports a violation; the survivors are what to look at.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

WORK = "/tmp/mc"
SRC = "/repo/VolterraBasis"
FILES = {
    "__init__.py": "C01 C02 C22 C21 C09",
    "correlation.py": "C07 C08 C10",
    "fit_memory.py": "C19 C17 C18",
    "fit_prony.py": "C19 C18",
    "gle_estimation.py": "C08 C11 C10 C12 C14 C21 C15 C09 C16 C13 C24 C20",
    "gle_integrate.py": "C17 C18 C21",
    "models.py": "C13 C10 C11 C04 C15 C12 C16 C08 C14 C21 C24 C09 C22 C17 C20",
    "basis/_basis_features.py": "C03 C06 C05 C04 C21 C15 C09",
    "basis/_data_describe.py": "C23 C09 C10 C06",
    "basis/_fem_features.py": "C24 C05",
    "basis/_local_features.py": "C03 C06 C05 C04 C15 C21 C09",
    "basis/_mesh_utils.py": "C23 C24",
    "basis/_multidim_basis.py": "C05 C03 C06 C21 C15",
    "fkernel.f90": "C11 C12 C13 C16 C20 C17",
}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.lines = text.splitlines(keepends=True)
        self.offs = [0]
        for ln in self.lines:
            self.offs.append(self.offs[-1] + len(ln.encode()))
        self.data = text.encode()
        self.fn = []
        self.out = []

    def pos(self, node, end=False):
        return self.offs[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def src(self, node):
        return self.data[self.pos(node):self.pos(node, True)].decode()

    def add(self, node, new, kind):
        a, b = self.pos(node), self.pos(node, True)
        self.out.append((a, b, new, kind, ".".join(self.fn), node.lineno))

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in node.args.defaults + [k for k in node.args.kw_defaults if k is not None]:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        for s in node.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fn.pop()

    def visit_Raise(self, node):
        self.add(node, "pass", "del-raise")

    def visit_Import(self, node):
        pass

    visit_ImportFrom = visit_Import

    def visit_JoinedStr(self, node):
        pass

    def visit_Call(self, node):
        f = self.src(node.func)
        if f in ("print", "warnings.warn", "logging.debug") or f.endswith(".format"):
            return
        for i, k in enumerate(node.keywords):
            if k.arg and len(node.keywords) and not isinstance(k.value, ast.Constant):
                pass
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) and f not in ("isinstance", "hasattr", "getattr", "range"):
            a, b = node.args
            s = self.pos(a)
            e = self.pos(b, True)
            mid = self.data[self.pos(a, True):self.pos(b)].decode()
            self.out.append((s, e, self.src(b) + mid + self.src(a), "swap-args", ".".join(self.fn), node.lineno))
        self.generic_visit(node)

    def visit_BinOp(self, node):
        op = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["+"]}.get(type(node.op))
        if isinstance(node.op, ast.MatMult):
            op = None
        if op and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            for o in op:
                self.add(node, "(" + self.src(node.left) + ") " + o + " (" + self.src(node.right) + ")", "binop")
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}[type(node.ops[0])]
            self.add(node, self.src(node.left) + " " + o + " " + self.src(node.comparators[0]), "compare")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        o = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, o.join("(" + self.src(v) + ")" for v in node.values), "boolop")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.add(node, "(" + self.src(node.operand) + ")", "unary")
            if isinstance(node.operand, ast.Constant):
                return
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), "bool")
        elif isinstance(v, int):
            self.add(node, str(v + 1), "int+")
            if v > 0:
                self.add(node, str(v - 1), "int-")
        elif isinstance(v, float):
            self.add(node, repr(v * 1.3 if v else 1.0), "float")
        elif isinstance(v, str) and v in ("force", "kernel", "x", "v", "a", "time", "left", "right"):
            pass

    def visit_If(self, node):
        t = node.test
        if not isinstance(t, ast.Compare) or len(t.ops) > 1:
            self.add(t, "not (" + self.src(t) + ")", "if-not")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node.test, "not (" + self.src(node.test) + ")", "if-not")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "del-aug")
        o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(node.op))
        if o:
            self.add(node, self.src(node.target) + " " + o + " " + self.src(node.value), "aug")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, "pass", "del-assign")
        elif isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            uses = [x for x in ast.walk(node.value) if isinstance(x, ast.Name) and x.id == n]
            if uses:  # x = f(x)
                self.add(node, "pass", "del-update")
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call):
            f = self.src(node.value.func)
            if f == "print" or f.startswith("warnings"):
                return
        self.add(node, "pass", "del-call")
        self.generic_visit(node)


def py_mutants(path):
    text = open(path).read()
    f = Finder(text)
    f.visit(ast.parse(text))
    for a, b, new, kind, fn, line in f.out:
        out = f.data[:a] + new.encode() + f.data[b:]
        try:
            ast.parse(out)
        except SyntaxError:
            continue
        yield kind, fn, line, f.data[a:b].decode(), new, out


def f90_mutants(path):
    import re

    data = open(path).read()
    lines = data.splitlines(keepends=True)
    fn = ""
    for i, ln in enumerate(lines):
        m = re.match(r"\s*subroutine\s+(\w+)", ln)
        if m:
            fn = m.group(1)
        code = ln.split("!")[0]
        if not code.strip() or re.match(r"\s*(subroutine|integer|double|real|end|implicit|external|call dgesv|use|contains|module|!)", code):
            continue
        for pat, news in ((r"(?<![eEdD(,=:])\s?\+\s?", ["-"]), (r"(?<=[\w)])\s?-\s?(?=[\w(])", ["+"]), (r"(?<![*(/])\*(?!\*)", ["/"]), (r"(?<![(/])/(?![)/=])", ["*"]), (r"(?<![\w.])1(?![\w.])", ["2", "0"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"0\.5D?0?", ["1.0D0"])):
            for mm in re.finditer(pat, code):
                for new in news:
                    nl = code[: mm.start()] + new + code[mm.end():] + ln[len(code):]
                    yield "f90", fn, i + 1, code.strip(), nl.strip(), ("".join(lines[:i]) + nl + "".join(lines[i + 1:])).encode()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--slots", type=int, default=8)
    ap.add_argument("--fraction", type=float, default=0.15)
    ap.add_argument("--files")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--survivors", help="run again the survivors of that file, with every case")
    o = ap.parse_args()
    files = o.files.split(",") if o.files else list(FILES)
    todo = []
    for f in files:
        gen = f90_mutants if f.endswith(".f90") else py_mutants
        for kind, fn, line, old, new, data in gen(os.path.join(SRC, f)):
            todo.append(dict(file=f, kind=kind, fn=fn, line=line, old=old[:200], new=new[:200], data=data))
    if os.path.exists(o.out):
        done = set()
        for ln in open(o.out):
            r = json.loads(ln)
            done.add((r["file"], r["kind"], r["fn"], r["line"], r["old"], r["new"]))
        todo = [t for t in todo if (t["file"], t["kind"], t["fn"], t["line"], t["old"], t["new"]) not in done]
    # the scripts at the end of the modules, what only writes messages, what no property is about
    todo = [t for t in todo if t["fn"] and "verbose" not in t["old"] and t["fn"].split(".")[0] not in ("BGLEIntegrator", "Integrator_posgle", "PosColoredNoiseGenerator", "asymptotic_fit_integral")]
    if o.survivors:
        keep = set()
        for ln in open(o.survivors):
            r = json.loads(ln)
            if not r["caught"]:
                keep.add((r["file"], r["kind"], r["fn"], r["old"], r["new"]))
        todo = [t for t in todo if (t["file"], t["kind"], t["fn"], t["old"], t["new"]) in keep]
    random.Random(o.seed).shuffle(todo)
    if o.limit:
        todo = todo[: o.limit]
    print(len(todo), "mutants", flush=True)
    sys.path.insert(0, "/verif")
    from vbmon import catalog

    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    last = {}
    lock = threading.Lock()
    outf = open(o.out, "a")
    n = [0, 0]

    def slot(i):
        v, r = os.path.join(WORK, "v%d" % i), os.path.join(WORK, "r%d" % i)
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"), symlinks=True)
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        while True:
            with lock:
                if not todo:
                    return
                t = todo.pop()
            path = os.path.join(r, "VolterraBasis", t["file"])
            shutil.copy(os.path.join(SRC, t["file"]), path)
            orig = open(path, "rb").read()
            with open(path, "wb") as fh:
                fh.write(t["data"])
            props = FILES[t["file"]].split()
            pref = [p for p in last.get((t["file"], t["fn"]), []) if p in props]
            props = sorted(props, key=lambda p: (-pref.count(p), props.index(p)))
            caught, codes = None, []
            t0 = time.time()
            for p in props:
                quick = catalog.CHECKS[p]["cases"]["quick"]
                cases = max(int(quick * o.fraction), 20)
                env = dict(os.environ, VB_REPO=r, VB_WORKERS="1" if o.slots > 1 else "8", VERIF_SEED="1")
                try:
                    res = subprocess.run([os.path.join(v, "check"), p, "--cases", str(cases)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    rc, txt = res.returncode, res.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = 99, ""
                codes.append((p, rc))
                if rc == 1:
                    caught = p
                    msg = [ln for ln in txt.splitlines() if ln.startswith("  ")][:1]
                    break
            with lock:
                if caught:
                    last.setdefault((t["file"], t["fn"]), []).append(caught)
                n[0] += 1
                n[1] += bool(caught)
                rec = {k: t[k] for k in ("file", "kind", "fn", "line", "old", "new")}
                rec.update(caught=caught, codes=[c for c in codes if c[1] not in (0, 1)], secs=round(time.time() - t0), msg=(msg[0][:160] if caught and msg else ""))
                outf.write(json.dumps(rec) + "\n")
                outf.flush()
                if n[0] % 20 == 0:
                    print(n, flush=True)
            with open(path, "wb") as fh:
                fh.write(orig)
            shutil.rmtree(os.path.join(v, "replays"), ignore_errors=True)
            if t["file"].endswith(".f90"):
                for d in os.listdir(os.path.join(v, ".build")):
                    if not os.path.exists(os.path.join("/verif/.build", d)):
                        p = os.path.join(v, ".build", d)
                        if os.path.isdir(p):
                            shutil.rmtree(p, ignore_errors=True)

    th = [threading.Thread(target=slot, args=(i,)) for i in range(o.slots)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    shutil.rmtree(WORK, ignore_errors=True)
    print("done", n)


if __name__ == "__main__":
    main()
