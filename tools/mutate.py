#!/usr/bin/env python3
"""Mutation sweep over the package: which single-site changes do the checks not see?

  mutate.py --per-file N --seed S --jobs J [--only FILE-SUBSTRING] > report
Works in scratch copies under /tmp/mut and runs the checks of this clone with VERIF_REPO pointing there.
Survivors are printed with their diff line; many are equivalent and are triaged by hand (DESIGN.md).
"""
import argparse, ast, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
FG = "fluctuation_generation/"
MAP = {
    "common.py": ["C01", "C03", "C04", "C28", "C27", "C13", "C29"],
    "nn_modules.py": ["C02", "C28", "C11", "C16"],
    "parameters.py": ["C05", "C11", "C12", "C09", "C14", "C04", "C02", "C07"],
    "spectra_fitting/one_point_spectra.py": ["C04", "C07", "C01", "C06", "C03", "C28", "C11", "C05"],
    "spectra_fitting/data_generator.py": ["C08", "C31"],
    "spectra_fitting/loss_functions.py": ["C09", "C10", "C28", "C14", "C12", "C29"],
    "spectra_fitting/calibration.py": ["C12", "C11", "C14", "C13", "C27", "C06", "C28", "C29"],
    FG + "sampling_methods.py": ["C17", "C20"],
    FG + "gaussian_random_fields.py": ["C17", "C18", "C20"],
    FG + "covariance_kernels.py": ["C15", "C20"],
    FG + "nn_covariance.py": ["C16", "C20"],
    FG + "fluctuation_field_generator.py": ["C18", "C19", "C21", "C26", "C16", "C20", "C13"],
    FG + "low_frequency/fluctuation_field_generator.py": ["C22", "C25", "C23", "C24", "C21", "C30"],
    FG + "low_frequency/large_plot.py": ["C30"],
    FG + "wind_plot.py": ["C26"],
}
SWAPS = [("u1", "u2"), ("k2", "k3"), ("k1", "k2"), ("dx", "dy"), ("N1", "N2"), ("L1", "L2"), ("_u", "_v"), ("Phi11", "Phi22"), ("Phi13", "Phi23"), ("zeta1", "zeta2"), ("kk", "kk0"), ("pen1", "pen2"), ("mse", "coherence"), ("y", "z"), ("S11", "S22")]


def seg(src, n):
    return ast.get_source_segment(src, n)


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.out = []
        lines = src.split("\n")
        self.off = [0]
        for l in lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, kind):
        a, e = self.pos(n)
        old = self.b[a:e].decode()
        if old != new:
            self.out.append((a, e, new, kind, n.lineno))

    def visit_Call(self, n):
        f = seg(self.src, n.func) or ""
        if f in ("print", "warnings.warn") or f.endswith(("add_scalar", "set_title", "set_xlabel", "set_ylabel", "legend", "suptitle", "tight_layout", "grid", "update_layout", "set_xscale", "set_yscale", "rcParams.update", "subplots", "style.context", "set_ylim")):
            return
        for kw in n.keywords:
            if kw.arg and kw.arg not in ("label", "color", "alpha", "markersize", "linewidth", "figsize", "dpi", "format", "opacity", "colorscale", "surface_count"):
                pass
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "drop-raise")

    def visit_JoinedStr(self, n):
        pass

    def visit_FunctionDef(self, n):
        if n.name in ("plot_loss_logs", "plot_velocity_fields", "__repr__"):
            return
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            f = seg(self.src, n.value.func)
            if f not in ("print", "warnings.warn", "plt.show") and not f.endswith("add_scalar"):
                self.add(n, "pass", "drop-call")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r = seg(self.src, n.left), seg(self.src, n.right)
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "+"}
        if type(n.op) in sw and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, f"(({l}) {sw[type(n.op)]} ({r}))", "binop")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.add(n, f"({l})", "drop-right")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub):
            self.add(n, f"({seg(self.src, n.operand)})", "unminus")
        elif isinstance(n.op, ast.Not):
            self.add(n, f"({seg(self.src, n.operand)})", "unnot")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            o = sw[type(n.ops[0])]
            self.add(n, f"({seg(self.src, n.left)} {o} {seg(self.src, n.comparators[0])})", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            self.add(n, "(" + seg(self.src, v) + ")", "boolop")
        self.generic_visit(n)

    def visit_If(self, n):
        t = seg(self.src, n.test)
        self.add(n.test, f"(False and ({t}))", "if-false")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(" + seg(self.src, n.body) + ")", "ifexp")
        self.add(n, "(" + seg(self.src, n.orelse) + ")", "ifexp")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1) if v >= 0 else str(v - 1), "const")
            if v > 0:
                self.add(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.1 if v else 0.1), "const")

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.names(n, n.id, lambda x: x)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load):
            base = seg(self.src, n.value)
            self.names(n, n.attr, lambda x: base + "." + x)
        self.generic_visit(n)

    def names(self, n, id, mk):
        for a, b in SWAPS:
            for p, q in ((a, b), (b, a)):
                if len(p) <= 2 and not p.startswith("_") and p not in ("u1", "u2", "dx", "dy", "N1", "N2", "L1", "L2"):
                    if id == p:
                        self.add(n, mk(q), "name")
                elif p in id and id.replace(p, q) in self.src:
                    self.add(n, mk(id.replace(p, q)), "name")


def mutants(rel):
    p = os.path.join("/repo/drdmannturb", rel)
    src = open(p).read()
    g = Gen(src)
    g.visit(ast.parse(src))
    res = []
    for a, e, new, kind, line in g.out:
        t = g.b[:a] + new.encode() + g.b[e:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            continue
        res.append((rel, line, kind, t.decode(), g.b[a:e].decode(), new))
    return res


def run(job):
    i, (rel, line, kind, text, old, new) = job
    d = f"/tmp/mut/{os.getpid()}-{i}"
    os.makedirs(d)
    try:
        shutil.copytree("/repo/drdmannturb", d + "/drdmannturb", ignore=shutil.ignore_patterns("__pycache__"))
        if os.path.isdir("/repo/docs/source/data"):
            pass
        open(os.path.join(d, "drdmannturb", rel), "w").write(text)
        for c in MAP[rel]:
            env = dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1", VERIF_WORKERS="1", VERIF_FAST="1", OMP_NUM_THREADS="1")
            try:
                p = subprocess.run([PY, f"{VERIF}/run_check.py", c], env=env, capture_output=True, text=True, timeout=400)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                return job, f"{c}:{'killed' if rc == 1 else rc}"
        return job, "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--per-file", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--only", default="")
    ap.add_argument("--list", action="store_true")
    o = ap.parse_args()
    r = random.Random(o.seed)
    todo = []
    for rel in MAP:
        if o.only in rel:
            ms = mutants(rel)
            if o.list:
                print(rel, len(ms))
            r.shuffle(ms)
            todo += ms[: o.per_file]
    if o.list:
        return
    r.shuffle(todo)
    n = k = 0
    with ThreadPoolExecutor(o.jobs) as ex:
        for (i, (rel, line, kind, text, old, new)), res in ex.map(run, enumerate(todo)):
            n += 1
            k += "killed" in res
            if "killed" not in res:
                print(f"{res} {rel}:{line} [{kind}] {old[:110]!r} -> {new[:110]!r}", flush=True)
    print(f"{n} mutants, {k} killed")


main()
