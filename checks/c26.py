"""C26 divergence, grid construction, VTK export and figures."""
import os
import re
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.fields import GENCASE, PROFILE, gen_args, in_dir, make_gen, with_box
from vlib.harness import Sub

ID = "C26"
RULE = "non-trivial: three different axis lengths and three different spacings (transpositions are visible)"

SHAPE = st.one_of(st.tuples(st.integers(2, 7), st.integers(2, 7), st.integers(2, 7)), st.tuples(st.integers(2, 5), st.integers(2, 5), st.integers(2, 5)).flatmap(
    lambda t: st.tuples(st.integers(0, 2), st.integers(8, 130)).map(lambda u: tuple(u[1] if i == u[0] else v for i, v in enumerate(t)))))
SPC = st.tuples(wide(1e-3, 1e3), wide(1e-3, 1e3), wide(1e-3, 1e3))
FLD = dict(shape=SHAPE, spacing=SPC, seed=seeds, order=st.sampled_from(["C", "F", "view", "neg"]), single=st.booleans(), aslist=st.sampled_from(["tuple", "array", "list"]))


def generator():
    return make_gen(dict(model="VK", dims=[4.0, 3.0, 2.0], lev=(1, 1, 1), fseed=1, blend=1, Ls=1.0, Ga=1.0))


def layout(a, order):
    if order == "F":
        return np.asfortranarray(a)
    if order == "view":
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1)
    if order == "neg":
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def sp(c):
    return dict(tuple=tuple, array=np.array, list=list)[c["aslist"]](c["spacing"])


def distinct(c):
    return len(set(c["shape"])) == 3 and len(set(c["spacing"])) == 3


# ------------------------------------------------------------------ divergence
def run_lin(c, ctx):
    g = generator()
    r = rng(c["seed"])
    A, b = r.normal(size=(3, 3)), r.normal(size=3)
    x = np.meshgrid(*[np.arange(n) * h for n, h in zip(c["shape"], c["spacing"])], indexing="ij")
    f = layout(np.stack([sum(A[i, j] * x[j] for j in range(3)) + b[i] for i in range(3)], axis=-1), c["order"])
    keep = np.array(f, copy=True)
    d = g.evaluate_divergence(sp(c), f)
    need(np.array_equal(f, keep), "the field was modified")
    need(np.shape(d) == tuple(c["shape"]), lambda: f"shape {np.shape(d)}")
    size = sum(np.abs(f[..., i]).max() / c["spacing"][i] for i in range(3)) + 1
    need(bool(np.all(np.abs(d - np.trace(A)) <= 1e-12 * size)), lambda: f"divergence of a linear field with trace {np.trace(A)} is {d.ravel()[:4]}")
    ctx.label(c["order"])
    return distinct(c)


def run_any(c, ctx):
    g = generator()
    r = rng(c["seed"])
    f = layout(r.normal(size=tuple(c["shape"]) + (3,)), c["order"])
    if c["single"]:
        f = f.astype(np.float32)
    d1 = g.evaluate_divergence(sp(c), f)
    need(np.shape(d1) == tuple(c["shape"]), lambda: f"shape {np.shape(d1)}")
    F = np.asarray(f, dtype=float)
    if min(c["shape"]) > 2:
        e, s = 0.0, 0.0
        for i in range(3):
            up, dn = [slice(1, -1)] * 3, [slice(1, -1)] * 3
            up[i], dn[i] = slice(2, None), slice(None, -2)
            e = e + (F[tuple(up) + (i,)] - F[tuple(dn) + (i,)]) / (2 * c["spacing"][i])
            s += np.abs(F[..., i]).max() / c["spacing"][i]
        tol = (1e-5 if c["single"] else 1e-12) * s
        need(bool(np.all(np.abs(d1[1:-1, 1:-1, 1:-1] - e) <= tol)), lambda: f"divergence inside the box differs from central differences by {np.abs(d1[1:-1,1:-1,1:-1]-e).max():.3g}")
    # malformed input
    for bad in (c["spacing"][:2], list(c["spacing"]) + [1.0], (), [1.0]):
        expect_raises(ValueError, lambda: g.evaluate_divergence(bad, f), f"spacing of length {len(bad)}")
    for last in (1, 2, 4):
        expect_raises(ValueError, lambda: g.evaluate_divergence(sp(c), np.zeros(tuple(c["shape"]) + (last,))), f"field with {last} components")
    ctx.label(c["order"])
    return distinct(c)


# ------------------------------------------------------------------ VTK
def read_vti(path):
    """own reader of a VTK image with raw appended data"""
    raw = open(path, "rb").read()
    mark = b'<AppendedData encoding="raw">'
    need(mark in raw, "no raw appended data in the file")
    head, tail = raw.split(mark, 1)
    head = head.decode()
    data = tail[tail.index(b"_") + 1 :]
    need('type="ImageData"' in head, "not a VTK image")
    bo = "<" if 'byte_order="LittleEndian"' in head else ">"
    hs = 8 if 'header_type="UInt64"' in head else 4
    num = lambda name: [float(v) for v in re.search(name + r'="([^"]*)"', head).group(1).split()]  # noqa: E731
    try:
        ext, org, spc, piece = num("WholeExtent"), num("Origin"), num("Spacing"), num("Piece Extent")
    except ValueError as e:
        fail(f"unreadable image header: {e}: {head[:300]}")
    n = [int(ext[2 * i + 1] - ext[2 * i]) for i in range(3)]
    need(ext == piece, "piece and whole extent differ")
    arrays = {}
    section = re.search(r"<CellData.*?</CellData>", head, re.S)
    where = "cell"
    if not section:
        section, where = re.search(r"<PointData.*?</PointData>", head, re.S), "point"
        n = [v + 1 for v in n]
    for m in re.finditer(r"<DataArray ([^>]*)/>", section.group(0)):
        at = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        dt = np.dtype(bo + dict(Float64="f8", Float32="f4", Int64="i8", Int32="i4")[at["type"]])
        o, nc = int(at["offset"]), int(at.get("NumberOfComponents", 1))
        size = int.from_bytes(data[o : o + hs], "little" if bo == "<" else "big")
        v = np.frombuffer(data[o + hs : o + hs + size], dtype=dt)
        need(v.size == nc * int(np.prod(n)), lambda: f"{at['Name']}: {v.size} values for {n} cells")
        v = v.reshape(tuple(n[::-1]) + (nc,))  # x fastest
        arrays[at["Name"]] = np.transpose(v, (2, 1, 0, 3))
    return n, spc, org, arrays, where


VTK = st.fixed_dictionaries(dict(GENCASE, p=st.fixed_dictionaries(PROFILE), blocks=st.lists(st.integers(1, 2), min_size=1, max_size=2), kind=st.sampled_from(["str", "path", "rel", "dots", "twice", "space", "long"]), own=st.booleans()))


def run_vtk(c, ctx):
    c = with_box(c, ctx)
    g = make_gen(c)
    for b in c["blocks"]:
        g.generate(b, **gen_args(c["p"]))
    d = ctx.tmpdir()
    name = {"dots": "out.v1.field", "space": "my field  2", "long": "f" * 120 + "-Ä"}.get(c["kind"], "field")
    with in_dir(d):
        if c["kind"] == "twice":
            g.save_to_vtk(os.path.join(d, name))
            g.generate(1, **gen_args(c["p"]))
        want = np.array(g.total_fluctuation, copy=True)
        target = {"path": Path(d) / name, "rel": name}.get(c["kind"], os.path.join(d, name))
        g.save_to_vtk(target)
        need(np.array_equal(want, g.total_fluctuation), "exporting changed the field")
        need(sorted(os.listdir(d)) == [name + ".vti"], lambda: f"files written: {os.listdir(d)}")
        n, spc, org, arr, where = read_vti(os.path.join(d, name + ".vti"))
    need(tuple(n) == want.shape[:3], lambda: f"image of {n} cells for a field of shape {want.shape}")
    N = [2 ** v + 1 for v in c["lev"]]
    e = [c["dims"][i] / N[i] for i in range(3)]
    need(close(spc, e, 1e-6), lambda: f"spacing {spc}, expected {e}")
    vec = [k for k, v in arr.items() if v.shape[-1] == 3]
    need("wind" in vec, lambda: f"no vector array 'wind' in the file: {list(arr)}")
    w = arr["wind"]
    need(np.array_equal(w, want), lambda: f"exported velocities differ from the field by {np.abs(w-want).max():.3g}")
    # the default argument of the divergence is the stored field
    D1, D2 = g.evaluate_divergence(spc), g.evaluate_divergence(spc, want)
    need(np.array_equal(D1, D2), "divergence without a field is not that of the stored field")
    ctx.label(c["kind"], c["model"], where)
    return len(set(want.shape[:3])) == 3


# ------------------------------------------------------------------ grids, formatting and figures
def run_fig(c, ctx):
    from drdmannturb.fluctuation_generation import create_grid, format_wind_field, plot_velocity_components, plot_velocity_magnitude

    r = rng(c["seed"])
    n = tuple(c["shape"])
    f = layout(r.normal(size=n + (3,)), c["order"])
    keep = np.array(f, copy=True)
    e = np.meshgrid(*[np.arange(k) * h for k, h in zip(n, c["spacing"])], indexing="ij")
    X = create_grid(sp(c), n)
    need(len(X) == 3, "three coordinate arrays expected")
    for i in range(3):
        need(np.shape(X[i]) == n and close(X[i], e[i], 1e-12), lambda: f"coordinate {i} of the grid")
    comp = format_wind_field(f)
    need(len(comp) == 3 and all(np.array_equal(comp[i], f[..., i]) and comp[i].flags["C_CONTIGUOUS"] for i in range(3)), "formatted components differ from the field or are not C-ordered")
    comp[0][...] = 7.0
    need(np.array_equal(f, keep), "the formatted components share memory with the field")
    for reshape in (True, False):
        a = f if reshape else np.ascontiguousarray(np.moveaxis(f, -1, 0))
        fc = plot_velocity_components(sp(c), a, reshape=reshape)
        need(len(fc.data) == 3, lambda: f"{len(fc.data)} traces")
        titles = [t.text.lower() for t in fc.layout.annotations]
        order = {"scene": 0, "scene1": 0, "scene2": 1, "scene3": 2}
        seen = set()
        for t in fc.data:
            i = order[t.scene or "scene"]
            seen.add(i)
            check_trace(t, e, f[..., i], f"component {i}, reshape={reshape}")
        need(seen == {0, 1, 2}, lambda: f"panels {seen}")
        need([("x" in t[:2], "y" in t[:2], "z" in t[:2]).index(True) for t in titles] == [0, 1, 2], lambda: f"panel titles {titles}")
        fm = plot_velocity_magnitude(sp(c), a, reshape=reshape, transparent=c["single"])
        need(len(fm.data) == 1, lambda: f"{len(fm.data)} traces")
        check_trace(fm.data[0], e, np.sqrt((f**2).sum(-1)), f"magnitude, reshape={reshape}")
        need(np.array_equal(f, keep), "plotting changed the field")
    ctx.label(c["order"])
    return distinct(c)


def check_trace(t, e, v, what):
    """the trace is the set {(x, y, z, value)} of the field, in any order"""
    got = [np.asarray(q, dtype=float).ravel() for q in (t.x, t.y, t.z, t.value)]
    need(all(len(q) == v.size for q in got), lambda: f"{what}: {[len(q) for q in got]} entries for {v.size} points")
    idx = []
    for i in range(3):
        ax = np.unique(e[i])
        j = np.abs(got[i][:, None] - ax[None, :]).argmin(axis=1)
        need(close(got[i], ax[j], 1e-9) if len(ax) > 1 else True, lambda: f"{what}: coordinates off the grid along axis {i}")
        idx.append(j)
    flat = np.ravel_multi_index(idx, v.shape)
    need(len(np.unique(flat)) == v.size, lambda: f"{what}: grid points are missing or repeated")
    need(close(got[3], v.ravel()[flat], 1e-9), lambda: f"{what}: values do not belong to their coordinates")


FIELD = st.fixed_dictionaries(FLD)
PIN = dict(shape=(3, 4, 5), spacing=(0.5, 2.0, 3.0), seed=1, order="C", single=False, aslist="tuple")
SUBS = [
    Sub("linear", FIELD, run_lin, 200, 20000, pinned=[PIN]),
    Sub("central", FIELD, run_any, 200, 20000, pinned=[PIN]),
    Sub("vtk", VTK, run_vtk, 60, 3000),
    Sub("figures", FIELD, run_fig, 60, 2000, pinned=[PIN]),
]
