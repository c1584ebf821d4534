"""C17 random-field sampling."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C17"
RULE = "non-trivial: at least two grid axes longer than one point and a kernel with off-diagonal or anisotropic entries"

GRID = dict(shape=st.one_of(st.tuples(st.integers(1, 12), st.integers(1, 9), st.integers(1, 9)), st.tuples(st.integers(1, 9), st.integers(1, 12), st.integers(1, 12)), st.tuples(st.integers(13, 70), st.integers(1, 6), st.integers(1, 6))), lev=st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)),
            dims=st.tuples(wide(0.1, 100), wide(0.1, 100), wide(0.1, 100)), seed=seeds, fseed=st.integers(0, 2**32 - 1), amp=logf(1e-2, 1e2), bit=st.integers(0, 31))


class Kernel:
    """G(k) = A(k) + i B(k) with A even and B odd in k: an admissible kernel of a real stationary field"""

    def __init__(self, seed, scale, amp, vector, ell):
        r = rng(seed)
        self.ndim = 3
        self.c = r.normal(size=(3, 3) if vector else ())
        self.d = r.normal(size=(3, 3, 3) if vector else (3,))
        self.scale, self.amp, self.vector, self.ell = scale, amp, vector, ell
        self.seen = None

    def precompute_Spectrum(self, F):
        self.seen = [np.array(f, float) for f in F]
        k = np.stack(np.meshgrid(*F, indexing="ij"), axis=-1) * self.scale
        n2 = np.sum(k * k * self.ell, axis=-1)
        w = self.amp / (1.0 + n2)
        if self.vector:
            A = self.c[:, :, None, None, None] * w
            B = np.einsum("ijm,...m->ij...", self.d, k) * w / np.sqrt(1 + n2)
            return A + 1j * B
        return abs(self.c) * w + 0.0


def build(c, vector, method):
    from drdmannturb.fluctuation_generation import GaussianRandomField, VectorGaussianRandomField

    h = np.array(c["dims"]) / (2.0 ** np.array(c["lev"]) + 1)
    ker = Kernel(c["seed"], float(np.exp(np.mean(np.log(h)))), c["amp"], vector, np.array([1.0, 0.5, 2.0]))
    C = VectorGaussianRandomField if vector else GaussianRandomField
    f = C(ndim=3, grid_level=np.array(c["lev"]), grid_dimensions=np.array(c["dims"]), sampling_method=method, grid_shape=np.array(c["shape"]), Covariance=ker)
    return f, ker, h


def reference(ker, h, shape, noise):
    L = h * np.array(shape)
    F = [2 * np.pi / L[j] * (shape[j] * np.fft.fftfreq(shape[j])) for j in range(3)]
    S = Kernel.precompute_Spectrum(ker, F)
    for a, b in zip(ker.seen, F):
        assert np.array_equal(a, b)
    half = S[..., : shape[2] // 2 + 1]
    norm = np.sqrt(np.prod(shape)) / np.sqrt(np.prod(L))
    if ker.vector:
        nh = np.fft.rfftn(noise, axes=(0, 1, 2))
        out = np.einsum("kl...,...l->...k", half, nh)
        return np.stack([np.fft.irfftn(out[..., i], s=shape, axes=(0, 1, 2)) for i in range(3)], axis=-1) * norm
    return np.fft.irfftn(half * np.fft.rfftn(noise), s=shape, axes=(0, 1, 2)) * norm


def freqs_ok(ker, h, shape):
    L = h * np.array(shape)
    for j in range(3):
        e = 2 * np.pi / L[j] * (shape[j] * np.fft.fftfreq(shape[j]))
        need(close(ker.seen[j], e, 1e-12, 1e-12 * (np.abs(e).max() + 1e-300)), lambda: f"axis {j}: kernel evaluated at {ker.seen[j]}, grid frequencies are {e}")


def run(vector):
    def f(c, ctx):
        shape = tuple(c["shape"])
        R, ker, h = build(c, vector, "vf_fftw" if vector else "fftw")
        freqs_ok(ker, h, shape)
        r = rng(c["seed"] + 1)
        ns = shape + (3,) if vector else shape
        X = [r.normal(size=ns) * s for s in (1.0, c["amp"], 1.0)]
        rt = 2e-5 if vector else 1e-10
        outs = []
        for x in X:
            keep = x.copy()
            y = np.array(R.sample(x), dtype=float)
            need(np.array_equal(x, keep), "the noise was modified")
            need(y.shape == ns, lambda: f"shape {y.shape} for noise {ns}")
            e = reference(ker, h, shape, x)
            s = np.abs(e).max() + 1e-300
            need(bool(np.all(np.abs(y - e) <= rt * s)), lambda: f"sampled field differs from the filtered noise by {np.abs(y-e).max()/s:.3g} of its maximum")
            outs.append(y)
        s = max(np.abs(o).max() for o in outs) + 1e-300
        # linear, shift-equivariant, stateless
        a, b = r.normal(size=2)
        y = R.sample(a * X[0] + b * X[2])
        need(bool(np.all(np.abs(y - a * outs[0] - b * outs[2]) <= 5 * rt * s * (abs(a) + abs(b)))), "sampling is not linear in the noise")
        sh = [int(v) for v in r.integers(0, 50, size=3)]
        y = R.sample(np.roll(X[0], sh, axis=(0, 1, 2)))
        need(bool(np.all(np.abs(y - np.roll(outs[0], sh, axis=(0, 1, 2))) <= 5 * rt * s)), "sampling does not commute with periodic shifts")
        y = R.sample(X[0])
        need(np.array_equal(y, outs[0]), "a repeated call gives another field")
        held = R.sample(X[1])
        R.sample(X[2])
        need(np.array_equal(held, outs[1]), "a later call changed an earlier result")
        z = R.sample(np.zeros(ns))
        need(bool(np.all(z == 0)), "zero noise gives a field")
        ctx.label("odd" if any(v % 2 for v in shape) else "even")
        return sum(v > 1 for v in shape) >= 2

    return f


def run_noise(c, ctx):
    shape = tuple(c["shape"])
    R, ker, h = build(c, c["vector"], "vf_fftw" if c["vector"] else "fftw")
    big = [64, 20, 8, 3] if c["vector"] else [64, 20, 24]
    R.reseed(c["fseed"])
    a = R.sample_noise(big)
    a2 = R.sample_noise(list(shape) + ([3] if c["vector"] else []))
    R.reseed(c["fseed"])
    b = R.sample_noise(big)
    b2 = R.sample_noise(list(shape) + ([3] if c["vector"] else []))
    need(np.array_equal(a, b) and np.array_equal(a2, b2), "reseeding does not reproduce the noise")
    need(a.shape == tuple(big), lambda: f"noise shape {a.shape}")
    R.reseed(c["fseed"] ^ (1 << c["bit"]))
    need(not np.array_equal(R.sample_noise(big), a), "another seed gives the same noise")
    Q, _, _ = build(c, c["vector"], "vf_fftw" if c["vector"] else "fftw")
    R.reseed(c["fseed"])
    Q.reseed(c["fseed"])
    R.sample_noise(big)
    need(np.array_equal(Q.sample_noise(big), a), "two fields with one seed give different noise, or share their generator")
    v = float(np.prod(h))
    x = a.reshape(-1) / np.sqrt(v)
    n = x.size
    need(abs(x.mean()) < 6 / np.sqrt(n), lambda: f"noise mean {x.mean():.3g} of its standard deviation (n={n})")
    need(abs(np.mean(x**2) - 1) < 6 * np.sqrt(2 / n), lambda: f"noise variance is {np.mean(x**2):.5g} cell volumes (n={n})")
    need(abs(np.mean(x**4) - 3) < 6 * np.sqrt(96 / n), lambda: f"noise kurtosis {np.mean(x**4):.4g} (n={n})")
    need(abs(np.mean(x**3)) < 6 * np.sqrt(15 / n), lambda: f"noise skewness {np.mean(x**3):.4g}")
    y = x.reshape(big)
    for ax in range(len(big)):
        p = (y * np.roll(y, 1, axis=ax)).mean()
        need(abs(p) < 6 / np.sqrt(n) * 1.3, lambda: f"noise correlated along axis {ax}: {p:.3g}")
    # sampling without explicit noise draws it from the same generator
    if not c["vector"]:
        R.reseed(c["fseed"])
        f1 = np.array(R.sample())
        R.reseed(c["fseed"])
        nz = R.sample_noise()
        need(nz.shape == shape, lambda: f"default noise shape {nz.shape}")
        f2 = R.sample(nz)
        need(np.array_equal(f1, f2), "sample() differs from sample(sample_noise())")
    ctx.label("vector" if c["vector"] else "scalar")
    return True


def run_other(c, ctx):
    """the remaining sampling methods: linear, stateless, diagonal in their transform"""
    from drdmannturb.fluctuation_generation import GaussianRandomField

    m = c["method"]
    shape = tuple(max(2, v) for v in c["shape"])
    c = dict(c, shape=shape)
    h = np.array(c["dims"]) / (2.0 ** np.array(c["lev"]) + 1)
    ker = Kernel(c["seed"], float(np.exp(np.mean(np.log(h)))), c["amp"], False, np.array([1.0, 0.5, 2.0]))
    R = GaussianRandomField(ndim=3, grid_level=np.array(c["lev"]), grid_dimensions=np.array(c["dims"]), sampling_method=m, grid_shape=np.array(shape), Covariance=ker)
    freqs_ok(ker, h, shape)
    r = rng(c["seed"] + 1)
    x, y = r.normal(size=shape), r.normal(size=shape)
    keep = x.copy()
    fx, fy = np.array(R.sample(x)), np.array(R.sample(y))
    need(np.array_equal(x, keep), "the noise was modified")
    s = np.abs(fx).max() + np.abs(fy).max()
    need(fx.shape == shape and bool(np.all(np.isfinite(fx))), "shape or values")
    need(bool(np.all(np.abs(R.sample(2 * x - 3 * y) - 2 * fx + 3 * fy) <= 1e-9 * s)), f"{m}: not linear")
    need(np.array_equal(R.sample(x), fx), f"{m}: repeated call differs")
    L = h * np.array(shape)
    S = ker.precompute_Spectrum([2 * np.pi / L[j] * (shape[j] * np.fft.fftfreq(shape[j])) for j in range(3)])
    if m == "fft":
        e = np.fft.ifftn(S * np.fft.fftn(x)).real / np.sqrt(np.prod(L))
    else:
        import scipy.fft as sf

        e = (sf.dstn(S * x, type=1) if m == "dst" else sf.dctn(S * x, type=2)) / np.sqrt(np.prod(L))
    t = float(np.sum(fx * e) / np.sum(e * e))
    need(t > 0 and bool(np.all(np.abs(fx - t * e) <= 1e-9 * np.abs(fx).max())), lambda: f"{m}: not the filtered noise")
    ok = (1.0, np.sqrt(np.prod(shape)))
    need(any(abs(t / o - 1) < 1e-9 for o in ok), lambda: f"{m}: normalization {t}")
    ctx.label(m)
    return True


def run_cube(c, ctx):
    """one level and one point count for all axes: a cubic grid of spacing 2^-level"""
    from drdmannturb.fluctuation_generation import GaussianRandomField, VectorGaussianRandomField

    vec, n, lev = c["vector"], c["n"], c["level"]
    h = np.full(3, 2.0**-lev)
    ker = Kernel(c["seed"], float(h[0]), c["amp"], vec, np.array([1.0, 0.5, 2.0]))
    C = VectorGaussianRandomField if vec else GaussianRandomField
    R = C(ndim=3, grid_level=lev, sampling_method="vf_fftw" if vec else c["method"], grid_shape=n, Covariance=ker)
    freqs_ok(ker, h, (n,) * 3)
    ns = (n,) * 3 + ((3,) if vec else ())
    R.reseed(c["fseed"])
    x = np.array(R.sample_noise([40, 40, 10] + ([3] if vec else [])), float).reshape(-1) / np.sqrt(np.prod(h))
    need(abs(np.mean(x**2) - 1) < 6 * np.sqrt(2 / x.size), lambda: f"noise variance is {np.mean(x**2):.5g} cell volumes")
    noise = rng(c["seed"] + 1).normal(size=ns)
    y = np.array(R.sample(noise), float)
    if vec or c["method"] == "fftw":
        e = reference(ker, h, (n,) * 3, noise)
        need(bool(np.all(np.abs(y - e) <= 2e-5 * (np.abs(e).max() + 1e-300))), "sampled field differs from the filtered noise")
    expect_raises((ValueError,), lambda: GaussianRandomField(ndim=3, grid_level=lev, grid_shape=np.array([n, n, n]), Covariance=ker), "a scalar level with a grid shape per axis")
    ctx.label("vector" if vec else c["method"])
    return n > 1


CUBE = st.fixed_dictionaries(dict(n=st.integers(1, 10), level=st.integers(0, 9), seed=seeds, fseed=st.integers(0, 2**32 - 1), amp=logf(1e-2, 1e2), vector=st.booleans(), method=st.sampled_from(["fftw", "fft"])))


def run_tails(c, ctx):
    """the noise is normal out to its tails"""
    R, ker, h = build(c, c["vector"], "vf_fftw" if c["vector"] else "fftw")
    R.reseed(c["fseed"])
    x = np.concatenate([R.sample_noise([50, 40, 30] + ([3] if c["vector"] else [])).reshape(-1) for _ in range(8)]).astype(float) / np.sqrt(np.prod(h))
    n = x.size
    for t, p in ((0.1, 0.0796556746), (1.0, 0.6826894921), (2.0, 0.9544997361), (3.0, 0.9973002039), (4.0, 0.9999366575)):
        q = 1 - p
        m = int((np.abs(x) > t).sum())
        need(abs(m - n * q) < 6 * np.sqrt(n * q * p) + 3, lambda: f"{m} of {n} noise values are beyond {t} standard deviations, expected {n*q:.1f}")
    need(len(np.unique(x)) > 0.9 * n, lambda: f"only {len(np.unique(x))} different values among {n}")
    ctx.label("vector" if c["vector"] else "scalar")
    return True


def run_unknown(c, ctx):
    expect_raises((Exception,), lambda: build(dict(c), False, c["bad"]), f"sampling method {c['bad']!r}")
    return True


G = st.fixed_dictionaries(GRID)
SUBS = [Sub("vector", G, run(True), 500, 15000), Sub("scalar", G, run(False), 300, 10000), Sub("noise_vector", G.map(lambda c: dict(c, vector=True)), run_noise, 150, 4000),
        Sub("noise_scalar", G.map(lambda c: dict(c, vector=False)), run_noise, 150, 4000)] + [
    Sub("method_" + m, G.map(lambda c, m=m: dict(c, method=m)), run_other, 120, 3000) for m in ("fft", "dct", "dst")] + [
    Sub("tails", G.flatmap(lambda c: st.booleans().map(lambda b: dict(c, vector=b))), run_tails, 6, 80), Sub("cube", CUBE, run_cube, 100, 3000), Sub("unknown", G.flatmap(lambda c: st.sampled_from(["", "FFT", "vf", "fftw3"]).map(lambda b: dict(c, bad=b))), run_unknown, 5, 20)]
