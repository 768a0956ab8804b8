#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--seed N] [--hours H] [--files a,b]: random small changes of pySOT, in scratch copies, against the checks
that watch the changed file and then the tests. Lists the changes no check reports and the tests accept (equivalent, or a gap)."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAP = {
    "strategy/surrogate_strategy": "C04 C02 C06 C01 C05 C12 C14 C07 C13 C26 C27 C28 C03 C08 C09 C15",
    "strategy/srbf_strategy": "C11 C12 C09 C02 C07 C14 C26 C28 C03 C08 C30 C29",
    "strategy/dycors_strategy": "C30 C09 C12 C08 C02 C26",
    "strategy/ei_strategy": "C10 C12 C07 C02 C26 C08 C05",
    "strategy/lcb_strategy": "C10 C12 C07 C02 C26 C08 C05",
    "strategy/random_strategy": "C02 C01 C03 C15 C26 C28",
    "strategy/sop_strategy": "C24 C02 C09 C26 C14 C07 C08 C28",
    "controller/controller": "C13 C14 C15 C28",
    "utils": "C25 C21 C23 C26 C27 C03",
    "auxiliary_problems/candidate_srbf": "C30 C09 C08 C03 C27",
    "auxiliary_problems/candidate_dycors": "C30 C09 C08 C03 C27",
    "auxiliary_problems/candidate_uniform": "C30 C09 C08 C03 C27",
    "auxiliary_problems/ei_ga": "C10 C08 C03 C27",
    "auxiliary_problems/lcb_ga": "C10 C08 C03 C27",
    "auxiliary_problems/ei_merit": "C10 C27 C08",
    "auxiliary_problems/lcb_merit": "C10 C27 C08",
    "surrogate/surrogate": "C18 C27 C05 C26",
    "surrogate/rbf": "C16 C17 C18 C27 C26 C29",
    "surrogate/gp": "C19 C18 C29 C27 C26",
    "surrogate/poly": "C19 C18 C29 C27 C26",
    "surrogate/kernels": "C17 C16 C27 C26",
    "surrogate/tails": "C17 C16 C27 C26",
    "surrogate/output_transformations": "C29 C27",
    "experimental_design": "C20 C27 C28 C26",
    "optimization_problems": "C22 C26",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "minimum": "maximum", "maximum": "minimum",
         "any": "all", "all": "any", "amin": "amax", "amax": "amin"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: src[slice(*pos(n))]
    out = []

    def add(n, new, what):
        a, b = pos(n)
        out.append((src[:a] + new + src[b:], "%d: %s -> %s" % (n.lineno, src[a:b][:80].replace("\n", " "), new[:80].replace("\n", " "))))

    doc = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n)
            doc.add(n.value)
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                add(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, "value", 0), str):
            add(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            add(n, "(" + (" %s " % o).join(seg(v) for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    o2 = "and" if isinstance(n.op, ast.And) else "or"
                    add(n, "(" + (" %s " % o2).join(seg(v) for j, v in enumerate(n.values) if j != k) + ")", "drop")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n not in doc:
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.5 if v else 1e-3), "const")
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n, ast.While):
            add(n.test, "not (%s)" % seg(n.test), "neg")
            add(n.test, "False", "never")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if "logger" in seg(n) or "super().__init__" in seg(n):
                continue
            add(n, "pass", "drop statement")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "copy":
                if isinstance(f.value, ast.Name) and f.value.id == "np" and n.args:
                    add(n, seg(n.args[0]), "copy")
                elif not n.args:
                    add(n, seg(f.value), "copy")
            if isinstance(f, ast.Attribute) and f.attr in NAMES:
                a, b = pos(f)
                add(f, seg(f.value) + "." + NAMES[f.attr], "name")
            elif isinstance(f, ast.Name) and f.id in NAMES:
                add(f, NAMES[f.id], "name")
            for k in n.keywords:
                if k.arg in ("Xpend", "dtol", "xbest", "num_cand", "sampling_radius", "kappa", "int_var", "axis", "subset"):
                    a, b = pos(k)
                    rest = src[b:]
                    out.append((src[:a] + rest.lstrip().lstrip(","), "%d: drop %s" % (n.lineno, seg(k)[:60])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(%s)" % seg(n.operand), "unary")
    if "--second" in sys.argv:
        out = second(src, pos, off)
    good = []
    for t, d in out:
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((t, d))
    return good


TWINS = [("self.X", "self._X"), ("self.fX", "self._fX"), ("self.num_evals", "self.accepted_count"), ("self.ev_last", "self.ev_adjust"), ("self.max_evals", "self.accepted_count"),
         ("self.pending_evals", "len(self.Xpend)"), ("self._fbest", "self.fX.min()"), ("self.status", "self.failcount"), ("opt_prob.lb", "opt_prob.ub"), ("lb", "ub"),
         ("self.num_exp", "self.exp_design.num_pts"), ("self.failtol", "self.succtol"), ("fX", "self.fX"), ("self._X", "self.X"), ("self._fX", "self.fX"),
         ("XX", "X"), ("num_pts", "len(X)"), ("weights[0]", "weights[-1]"), ("self.batch_size", "num_pts"), ("num_pts", "self.batch_size"), ("center_index", "index"),
         ("ndf_index", "df_index"), ("mu", "sig"), ("record.params[0]", "self.X[-1]"), ("self.num_pts", "self.dim"), ("ind_new", "ind"), ("dists", "dmerit"), ("nevals", "self.ncenters"),
         ("self.tail", "self.kernel"), ("self.dim", "self.num_pts"), ("self.pending_evals", "self.init_pending"), ("self.sampling_radius", "self.sampling_radius_max")]


def second(src, pos, off):
    """Statement order, scope, index and lookalike changes."""
    out = []
    tree = ast.parse(src)
    simple = (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)
    log = lambda n: "logger" in src[slice(*pos(n))] or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)

    def line_start(n):
        return off[n.lineno - 1]

    def line_end(n):
        return off[n.end_lineno] if n.end_lineno < len(off) else len(src)

    for n in ast.walk(tree):
        for fld in ("body", "orelse"):
            body = getattr(n, fld, None)
            if not isinstance(body, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for a, b in zip(body, body[1:]):
                if isinstance(a, simple) and isinstance(b, simple) and not log(a) and not log(b) and a.end_lineno < b.lineno:
                    A, B, C, D = line_start(a), line_end(a), line_start(b), line_end(b)
                    out.append((src[:A] + src[C:D] + src[B:C] + src[A:B] + src[D:], "%d: swap with the next statement" % a.lineno))
            if isinstance(n, (ast.If, ast.For)) and len(body) and not log(body[-1]) and isinstance(body[-1], (ast.Assign, ast.AugAssign, ast.Expr)) and len(body) > 1:
                a = body[-1]
                A, B, E = line_start(a), line_end(a), line_end(n)
                ind = " " * n.col_offset
                out.append((src[:A] + src[B:E] + ind + src[A:B].lstrip() + src[E:], "%d: last statement moved out of its block" % a.lineno))
        if isinstance(n, ast.Subscript):
            a, b = pos(n)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                out.append((src[:a] + src[slice(*pos(n.value))] + "[-1]" + src[b:], "%d: %s -> last" % (n.lineno, src[a:b])))
            if isinstance(n.slice, ast.Slice):
                out.append((src[:a] + src[slice(*pos(n.value))] + src[b:], "%d: %s -> all" % (n.lineno, src[a:b])))
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            a, b = pos(n)
            for u, v in TWINS:
                for x, y in ((u, v), (v, u)):
                    if src[a:b] == x:
                        out.append((src[:a] + y + src[b:], "%d: %s -> %s in %s" % (n.lineno, x, y, src[off[n.lineno - 1]:off[n.lineno]].strip()[:60])))
        if isinstance(n, (ast.Break, ast.Continue)):
            a, b = pos(n)
            out.append((src[:a] + "pass" + src[b:], "%d: %s -> pass" % (n.lineno, src[a:b])))
        if isinstance(n, ast.If) and n.orelse and not isinstance(n.orelse[0], ast.If) and n.col_offset == 8 * 1:
            a, b = pos(n.test)
            out.append((src[:a] + "True" + src[b:], "%d: if %s -> True" % (n.lineno, src[a:b][:50])))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("vstack", "hstack", "concatenate") and len(n.args) == 1 and isinstance(n.args[0], ast.Tuple) and len(n.args[0].elts) == 2:
            a, b = pos(n.args[0])
            e = [src[slice(*pos(x))] for x in n.args[0].elts]
            out.append((src[:a] + "(%s, %s)" % (e[1], e[0]) + src[b:], "%d: operands of %s exchanged" % (n.lineno, n.func.attr)))
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ("sqrt", "abs", "fabs", "log", "maximum", "ravel", "round"):
            a, b = pos(n)
            out.append((src[:a] + "(" + src[slice(*pos(n.args[0]))] + ")" + src[b:], "%d: %s dropped" % (n.lineno, src[a:b][:50])))
    return out


def arg(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def main():
    outp = sys.argv[1]
    rnd = random.Random(int(arg("--seed", 1)))
    end = time.time() + 3600 * float(arg("--hours", 1))
    work = arg("--work", "/tmp/w/mut")
    jobs = []
    for dp, _, fs in os.walk("/repo/pySOT"):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, "/repo/pySOT")[:-3]
            k = next((k for k in MAP if rel == k or rel.startswith(k + "/") or rel == k), None)
            if not f.endswith(".py") or f == "__init__.py" or k is None:
                continue
            if arg("--files", "") and not any(a in rel for a in arg("--files", "").split(",")):
                continue
            ms = mutants(p)
            rnd.shuffle(ms)
            cap = int(arg("--cap", 40 if "optimization" not in rel else 5))
            jobs += [(rel, t, d, MAP[k].split()) for t, d in ms[:cap]]
    rnd.shuffle(jobs)
    done = set()
    if os.path.exists(outp):
        done = {(r["file"], r["change"]) for r in map(json.loads, open(outp))}
    print(len(jobs), "mutants", len(done), "done")
    import multiprocessing as mp

    todo = [j for j in jobs if (j[0], j[2]) not in done]
    n = int(arg("--workers", 3))
    ps = [mp.Process(target=worker, args=(todo[i::n], "%s.%d" % (work, i), outp, end)) for i in range(n)]
    [p.start() for p in ps]
    [p.join() for p in ps]


def worker(jobs, work, outp, end):
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", work])
    here = work + ".v"
    shutil.rmtree(here, ignore_errors=True)
    shutil.copytree(HERE, here, ignore=shutil.ignore_patterns(".git", "seeded"))
    for rel, text, d, checks in jobs:
        if time.time() > end:
            break
        p = work + "/pySOT/" + rel + ".py"
        keep = open(p).read()
        open(p, "w").write(text)
        t0 = time.time()
        res, why = None, ""
        env = dict(os.environ, PV_REPO=work, VERIF_SEED="1", VERIF_TIER="quick")
        try:
            for c in checks:
                r = subprocess.run([PY, "check.py", c, "--tier", "quick", "--jobs", arg("--jobs", "3")], cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                o = r.stdout.decode(errors="replace")
                if r.returncode == 1 and "VIOLATION" in o:
                    res, why = c, next((l.strip()[:160] for l in o.splitlines() if l.strip().startswith("[")), "")
                    break
                if r.returncode != 0:
                    res, why = c + "?", o[-300:]
                    break
            if res is None:
                r = subprocess.run(["timeout", "400", PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=work,
                                   env=dict(os.environ, PYTHONPATH=work, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                res = "SURVIVED" if r.returncode == 0 else "tests"
        except subprocess.TimeoutExpired:
            res = "timeout"
        open(p, "w").write(keep)
        with open(outp, "a") as f:
            f.write(json.dumps(dict(file=rel, change=d, result=res, why=why, t=round(time.time() - t0))) + "\n")


main()
