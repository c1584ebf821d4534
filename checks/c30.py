"""C30 figures and parameter studies of the low-frequency model."""
import concurrent.futures
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.lowfreq import PHYS, config, shrink_grid
from vlib.plots import setup

ID = "C30"
RULE = "non-trivial: different extents or point counts in the two directions (figures), at least two realizations or parameter values (studies)"

GRID = dict(PHYS, f1=logf(0.3, 15), f2=logf(0.3, 15), e1=st.integers(1, 5), e2=st.integers(1, 5), seed=seeds)


def gen(c, **kw):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    return LowFreqGenerator(config(c), **kw)


class Recorder:
    """every field generated by the package while active, with its generator"""

    def __enter__(self):
        from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator as G

        self.G, self.orig, self.rows = G, G.generate, []

        def generate(g, *a, **k):
            u1, u2 = self.orig(g, *a, **k)
            self.rows.append((g, np.array(u1), np.array(u2)))
            return u1, u2

        G.generate = generate
        return self

    def __exit__(self, *a):
        self.G.generate = self.orig
        return False


class Serial(concurrent.futures.Executor):
    """runs submitted calls at once in this process, so that their fields can be recorded"""

    used = 0

    def __init__(self, *a, **k):
        Serial.used += 1

    def submit(self, fn, /, *a, **k):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **k))
        except Exception as e:  # noqa: BLE001
            f.set_exception(e)
        return f


def images(fig):
    """(axes, physical image [x, y], extent) of every image of a figure"""
    out = []
    for ax in fig.get_axes():
        for im in ax.get_images():
            a = np.asarray(im.get_array(), float)
            e = list(im.get_extent())
            if im.origin == "upper":
                a = a[::-1]
            if e[0] > e[1]:
                a, e = a[:, ::-1], [e[1], e[0], e[2], e[3]]
            if e[2] > e[3]:
                a, e = a[::-1], [e[0], e[1], e[3], e[2]]
            out.append((ax, a.T, e, im.get_clim()))
    return out


def xy(ax):
    return [(np.asarray(li.get_xdata(), float), np.asarray(li.get_ydata(), float)) for li in ax.get_lines()]


def has_line(ax, x, y, what, tol=1e-8):
    for gx, gy in xy(ax):
        if gx.shape == np.shape(x) and close(gx, x, tol) and bool(np.all(np.abs(gy - y) <= tol * np.abs(y) + 1e-300)):
            return
    fail(f"no line of the panel shows {what}: {[(a[:3], b[:3]) for a, b in xy(ax)]}, expected {np.asarray(x)[:3]} {np.asarray(y)[:3]}")


FIG = st.fixed_dictionaries(dict(GRID, amp=logf(1e-3, 1e3), off=st.sampled_from([0.0, 3.0, -3.0]), real=st.booleans()))


def run_fields(c, ctx):
    plt = setup()
    try:
        c = shrink_grid(c, 1e5)
        g = gen(c, seed=c["seed"])
        expect_raises((RuntimeError,), g.plot_velocity_fields, "field figure before generation")
        plt.close("all")
        r = rng(c["seed"])
        n = (2 ** c["e1"], 2 ** c["e2"])
        if c["real"]:
            g.generate()
        else:
            g.u1, g.u2 = c["amp"] * (r.normal(size=n) + c["off"]), c["amp"] * r.normal(size=n)
        keep = np.array(g.u1), np.array(g.u2)
        g.plot_velocity_fields()
        need(np.array_equal(g.u1, keep[0]) and np.array_equal(g.u2, keep[1]), "plotting changed the field")
        im = images(plt.gcf())
        need(len(im) == 2, lambda: f"{len(im)} images")
        L = c["f1"] * c["L"] / 1000, c["f2"] * c["L"] / 1000
        top = max(np.abs(keep[0]).max(), np.abs(keep[1]).max())
        for i, (_, a, e, cl) in enumerate(im):
            need(a.shape == n and bool(np.all(np.abs(a - keep[i]) <= 1e-9 * top)), lambda: f"panel {i} does not show component {i + 1} with x to the right and y upwards")
            d = L[0] / n[0], L[1] / n[1]
            exp = [-d[0] / 2, L[0] - d[0] / 2, -d[1] / 2, L[1] - d[1] / 2]
            need(all(abs(u - v) <= 1e-9 * max(L) for u, v in zip(e, exp)), lambda: f"extent {e}, expected {exp} km")
            need(top == 0 or abs(cl[1] - top) <= 1e-9 * top and abs(cl[0] + top) <= 1e-9 * top, lambda: f"colour range {cl}, expected +-{top}")
        ctx.label("generated" if c["real"] else "assigned")
        return n[0] != n[1]
    finally:
        plt.close("all")


SPEC = st.fixed_dictionaries(dict(GRID, e1=st.integers(1, 4), e2=st.integers(1, 4)))


def run_spectra(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        c = shrink_grid(c, 5e4)
        g = gen(c, seed=c["seed"])
        g.generate()
        k, F1, F2 = g.compute_spectrum()
        A1, A2 = g.analytical_spectrum(k)
        large_plot.plot_spectra_comparison(g)
        ax = plt.gcf().get_axes()
        need(len(ax) == 2, lambda: f"{len(ax)} panels")
        for a, num, ana, w in ((ax[0], F1, A1, "F11"), (ax[1], F2, A2, "F22")):
            need(len(a.get_lines()) == 2, "two lines per panel")
            has_line(a, k * c["L"], k * num, "the estimated k1 " + w)
            has_line(a, k * c["L"], k * ana, "the analytic k1 " + w)
        return c["e1"] > 1
    finally:
        plt.close("all")


FIG2 = st.fixed_dictionaries(dict(a=st.fixed_dictionaries(dict(GRID, e1=st.integers(1, 4), e2=st.integers(1, 4))), b=st.fixed_dictionaries(dict(GRID, e1=st.integers(1, 4), e2=st.integers(1, 4))), n=st.integers(1, 4)))


def run_fig2(c, ctx):
    """the expensive target curves are sampled through a stand-in; C24 checks analytical_spectrum itself"""
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        gs = [gen(shrink_grid(c[x], 5e4), seed=c[x]["seed"]) for x in "ab"]
        clones = [gen(shrink_grid(c[x], 5e4), seed=c[x]["seed"]) for x in "ab"]
        seen = []
        for i, g in enumerate(gs):
            def fake(k1, *a, _i=i, **kw):
                k1 = np.asarray(k1, float)
                seen.append((_i, k1))
                return (2.0 + _i) / (1 + k1**2), (5.0 + _i) / (3 + k1)
            g.analytical_spectrum = fake
        large_plot.recreate_fig2(gs[0], gs[1], num_realizations=c["n"], do_plot=True)
        ax = plt.gcf().get_axes()
        need(len(ax) == 4, lambda: f"{len(ax)} panels")
        for i, g in enumerate(clones):
            acc = []
            for _ in range(c["n"]):
                g.generate()
                k, *F = g.compute_spectrum()
                acc.append(F)
            F = np.mean(acc, axis=0)
            ks = [s for j, s in seen if j == i]
            need(len(ks) >= 1, "no target curve")
            t = ks[-1]
            T = (2.0 + i) / (1 + t**2), (5.0 + i) / (3 + t)
            for q in range(2):
                a = ax[2 * i + q]
                has_line(a, k * g.L_2d, k * F[q], f"the averaged spectrum F{q+1}{q+1} of case {'ab'[i]}")
                has_line(a, t * g.L_2d, t * T[q], f"the target spectrum F{q+1}{q+1} of case {'ab'[i]}")
        return c["n"] > 1
    finally:
        plt.close("all")


ANIS = st.fixed_dictionaries(dict(GRID, psis=st.lists(unif(5, 85), min_size=1, max_size=3, unique=True), n=st.integers(1, 4), plot=st.booleans()))


def run_anis(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        c = shrink_grid(c, 5e4)
        base = config(c)
        keep = dict(base)
        with Recorder() as rec:
            res = large_plot.anisotropy_study(base, c["psis"], num_realizations=c["n"], do_plot=c["plot"])
        need(base == keep, "the configuration was changed")
        need(list(res) == list(c["psis"]), lambda: f"results for {list(res)}, angles {c['psis']}")
        mine = {p: [(u1, u2) for g, u1, u2 in rec.rows if abs(g.psi - np.deg2rad(p)) < 1e-12] for p in c["psis"]}
        for p in c["psis"]:
            rows = mine[p]
            need(len(rows) >= c["n"], lambda: f"{len(rows)} fields for angle {p}, asked for {c['n']}")
            v = np.array([[np.var(a), np.var(b)] for a, b in rows[-c["n"]:]]).mean(axis=0)
            got = res[p]
            for k, e in (("avg_u1_var", v[0]), ("avg_u2_var", v[1]), ("avg_total_var", v.sum())):
                need(abs(got[k] - e) <= 1e-9 * abs(e), lambda: f"angle {p}: {k} = {got[k]}, the fields have {e}")
        if c["plot"]:
            im = images(plt.gcf())
            need(len(im) == 2 * len(c["psis"]), lambda: f"{len(im)} images for {len(c['psis'])} angles")
            lim = max(np.abs(a).max() for _, a, _, _ in im)
            for j, p in enumerate(c["psis"]):
                a, b = im[2 * j], im[2 * j + 1]
                ok = any(a[1].shape == u.shape and np.allclose(a[1], u, rtol=1e-9) and np.allclose(b[1], w, rtol=1e-9) for u, w in mine[p])
                need(ok, lambda: f"the row of angle {p} does not show a field of that angle")
                for x in (a, b):
                    need(lim == 0 or abs(x[3][0] + lim) <= 1e-9 * lim and abs(x[3][1] - lim) <= 1e-9 * lim, lambda: f"colour range {x[3]}, expected +-{lim}")
        ctx.label(f"angles={len(c['psis'])}", "plot" if c["plot"] else "no-plot")
        return c["n"] > 1 or len(c["psis"]) > 1
    finally:
        plt.close("all")


class Mock(Recorder):
    """as Recorder, with generation replaced by cheap random fields on the requested grid"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        super().__enter__()
        r = rng(self.seed)

        def generate(g, *a, **k):
            def one():
                return r.normal() + r.normal(size=(g.user_N1, 1)) * r.normal(size=(1, g.user_N2))

            g.u1, g.u2 = one(), one()
            self.rows.append((g, g.u1, g.u2))
            return g.u1, g.u2

        self.G.generate = generate
        return self


def study(call, ctx, recorder=Recorder):
    """runs a study with its worker processes replaced by direct calls; returns recorded fields and the panels"""
    plt = setup()
    old = concurrent.futures.ProcessPoolExecutor
    before = Serial.used
    concurrent.futures.ProcessPoolExecutor = Serial
    try:
        with recorder() as rec:
            call()
    finally:
        concurrent.futures.ProcessPoolExecutor = old
    if Serial.used == before:
        ctx.label("not-recorded")
        return None, None
    need(plt.get_fignums(), "the study produced no figure")
    return rec.rows, plt.gcf().get_axes()


def stats(rows):
    g = rows[0][0]
    u1, u2 = np.mean([r[1] for r in rows], axis=0), np.mean([r[2] for r in rows], axis=0)
    da = (g.user_L1 / u1.shape[0]) * (g.user_L2 / u1.shape[1])
    return [np.sum(u1**2) * da, np.sum(u2**2) * da, np.var(u1), np.var(u2)]


def check_study(rows, ax, keys, key_of, xs):
    need(len(ax) == 2, lambda: f"{len(ax)} panels")
    E = []
    for k in keys:
        mine = [r for r in rows if key_of(r[0]) == k]
        need(len(mine) > 0, lambda: f"no field generated for {k}")
        E.append(stats(mine))
    E = np.array(E)
    for q, (a, w) in enumerate(((ax[0], "norm of u1"), (ax[0], "norm of u2"), (ax[1], "variance of u1"), (ax[1], "variance of u2"))):
        has_line(a, xs, E[:, q], w)


MESH = st.fixed_dictionaries(dict(low=st.integers(1, 4), k=st.integers(0, 2)))


def run_mesh(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        hi = c["low"] + c["k"]
        rows, ax = study(lambda: large_plot.mesh_independence_study(low=c["low"], high=hi), ctx)
        if rows is None:
            return False
        keys = list(range(c["low"], hi + 1))
        check_study(rows, ax, keys, lambda g: int(round(np.log2(g.user_N1))), np.array(keys, float))
        ctx.label("mesh")
        return c["k"] > 0
    finally:
        plt.close("all")


DOM = st.fixed_dictionaries(dict(f=st.lists(st.sampled_from([3, 4, 5, 6, 8, 12]), min_size=1, max_size=2, unique=True)))


def run_dom(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        rows, ax = study(lambda: large_plot.domain_size_study(factors=list(c["f"])), ctx)
        if rows is None:
            return False
        keys = sorted(c["f"])
        L = rows[0][0].L_2d
        check_study(rows, ax, keys, lambda g: int(round(g.user_L1 / L)), np.array(keys) * L / 1000)
        ctx.label("domain")
        return len(keys) > 1
    finally:
        plt.close("all")


MMESH = st.fixed_dictionaries(dict(seed=seeds, low=st.integers(1, 7), k=st.integers(0, 4)))


def run_mmesh(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        low, hi = c["low"], min(8, c["low"] + c["k"])
        rows, ax = study(lambda: large_plot.mesh_independence_study(low=low, high=hi), ctx, lambda: Mock(c["seed"]))
        if rows is None:
            return False
        keys = list(range(low, hi + 1))
        need({int(round(np.log2(r[0].user_N1))) for r in rows} == set(keys) and all(r[0].user_N1 == r[0].user_N2 for r in rows), "other meshes than the requested ones")
        check_study(rows, ax, keys, lambda g: int(round(np.log2(g.user_N1))), np.array(keys, float))
        return len(keys) > 1
    finally:
        plt.close("all")


MDOM = st.fixed_dictionaries(dict(seed=seeds, f=st.one_of(st.none(), st.lists(st.one_of(st.integers(1, 60), unif(0.3, 20).map(lambda v: round(v, 2))), min_size=1, max_size=6, unique_by=float)), arr=st.booleans()))


def run_mdom(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        f = None if c["f"] is None else np.array(c["f"], float) if c["arr"] else list(c["f"])
        rows, ax = study(lambda: large_plot.domain_size_study() if f is None else large_plot.domain_size_study(factors=f), ctx, lambda: Mock(c["seed"]))
        if rows is None:
            return False
        keys = [round(float(v), 9) for v in (range(1, 17) if f is None else sorted(f))]
        L = rows[0][0].L_2d
        need({round(r[0].user_L1 / L, 9) for r in rows} == set(keys), lambda: f"domains {sorted({r[0].user_L1 / L for r in rows})} L, asked for {keys}")
        check_study(rows, ax, keys, lambda g: round(g.user_L1 / L, 9), np.array(keys) * L / 1000)
        ctx.label("default" if f is None else "given")
        return len(keys) > 1
    finally:
        plt.close("all")


@contextlib.contextmanager
def cheap(seed):
    """generation replaced by small random arrays (the field itself is C22, C23, C25); yields the recorded fields"""
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator as G

    orig, rows, r = G.generate, [], rng(seed)

    def generate(g, *a, **k):
        u1, u2 = r.normal(size=(3, 4)) * r.uniform(0.3, 3), r.normal(size=(3, 4)) * r.uniform(0.3, 3)
        g.u1, g.u2 = u1, u2
        g.u1_full, g.u2_full = r.normal(size=(4, 5)), r.normal(size=(4, 5)) * 2
        rows.append((g, u1, u2, g.u1_full, g.u2_full))
        return u1, u2

    G.generate = generate
    try:
        yield rows
    finally:
        G.generate = orig


BIG = st.fixed_dictionaries(dict(GRID, n=st.integers(1, 4), plot=st.booleans()))
PAIRS = [(16, 8, 11, 10), (16, 4, 11, 9), (8, 4, 11, 10), (8, 2, 12, 10), (4, 2, 11, 10), (2, 4, 10, 11), (2, 8, 10, 12), (4, 8, 10, 11), (4, 16, 10, 12), (8, 16, 10, 11)]


def by_case(rows, c, want):
    """fields by (L1 factor, L2 factor, exponents); the physics of every generator is the base configuration's"""
    out = {k: [] for k in want}
    for row in rows:
        g = row[0]
        need(g.sigma2 == c["sigma2"] and g.L_2d == c["L"] and g.z_i == config(c)["z_i"] and g.psi == config(c)["psi"], "a case was run with other physical parameters")
        k = (int(round(g.user_L1 / g.L_2d)), int(round(g.user_L2 / g.L_2d)), int(round(np.log2(g.user_N1))), int(round(np.log2(g.user_N2))))
        need(k in out, lambda: f"case {k} was not asked for")
        out[k].append(row)
    for k, v in out.items():
        need(len(v) == c["n"], lambda: f"{len(v)} realizations for case {k}, asked for {c['n']}")
    return out


def run_rect(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    base = config(c)
    keep = dict(base)
    text = io.StringIO()
    with cheap(c["seed"]) as rows, contextlib.redirect_stdout(text):
        large_plot.rectangular_domain_study(base, num_realizations=c["n"], do_plot=False)
    need(base == keep, "the configuration was changed")
    cases = by_case(rows, c, PAIRS)
    got = {}
    for line in text.getvalue().splitlines():
        m = re.match(r"\s*(Avg (?:Full )?(?:var|u1|u2|Total|Total var|u1 var|u2 var|var u1|var u2)[^:]*): (\S+)$", line)
        if m:
            got.setdefault(m.group(1).lower().replace("var", "").split()[1:].__str__(), []).append(float(m.group(2)))
    for key, f in ((["u1"], lambda r: np.var(r[1])), (["u2"], lambda r: np.var(r[2])), (["total"], lambda r: np.var(r[1]) + np.var(r[2])),
                   (["full", "u1"], lambda r: np.var(r[3])), (["full", "u2"], lambda r: np.var(r[4])), (["full", "total"], lambda r: np.var(r[3]) + np.var(r[4]))):
        exp = [np.mean([f(r) for r in cases[k]]) for k in PAIRS]
        have = got.get(str(key))
        if have is None:
            ctx.label("report-not-parsed")
            continue
        need(close(have, exp, 1e-9), lambda: f"reported variances {key}: {have}, the fields have {exp}")
        ctx.label("reported")
    return c["n"] > 1


def run_lenstudy(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot

    plt = setup()
    try:
        base = config(c)
        keep = dict(base)
        with cheap(c["seed"]) as rows:
            large_plot.length_AND_grid_size_study(base, do_plot=c["plot"], num_realizations=c["n"])
        need(base == keep, "the configuration was changed")
        E, F = [7, 8, 9, 10, 11], list(range(2, 21, 2))
        cases = by_case(rows, c, [(f, f, e, e) for e in E for f in F])
        if c["plot"]:
            need(len(plt.get_fignums()) == 3, lambda: f"{len(plt.get_fignums())} figures")
            V = np.array([[[np.mean([np.var(r[q]) for r in cases[f, f, e, e]]) for f in F] for e in E] for q in (1, 2)])
            for n, X in zip(sorted(plt.get_fignums()), (V[0], V[1], V[0] + V[1])):
                ax = [a for a in plt.figure(n).get_axes() if a.get_images()][0]
                A = np.asarray(ax.get_images()[0].get_array(), float)
                need(A.shape == X.shape and close(A, X, 1e-9), lambda: f"heat map {ax.get_title()!r} is not the mean variance of the fields")
                need([t.get_text() for t in ax.get_xticklabels()] == [str(f) for f in F], "domain factors on the axis")
                need([t.get_text().split()[0] for t in ax.get_yticklabels()] == [f"2^{e}" for e in E], "grid exponents on the axis")
        ctx.label("plot" if c["plot"] else "no-plot")
        return c["n"] > 1
    finally:
        plt.close("all")


SUBS = [
    Sub("rectangular", BIG, run_rect, 10, 200), Sub("length_grid", BIG, run_lenstudy, 8, 100),
    Sub("fields", FIG, run_fields, 60, 2000), Sub("spectra", SPEC, run_spectra, 20, 400), Sub("fig2", FIG2, run_fig2, 15, 400), Sub("anisotropy", ANIS, run_anis, 25, 600),
    Sub("mesh", MESH, run_mesh, 8, 60), Sub("domain", DOM, run_dom, 3, 30),
    Sub("mesh_mock", MMESH, run_mmesh, 15, 300), Sub("domain_mock", MDOM, run_mdom, 8, 200),
]
