"""C19 normalization and mean profile."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.fields import GENCASE, PROFILE, gen_args, make_gen, profile, strip_profile, with_box
from vlib.harness import Sub

ID = "C19"
RULE = "non-trivial: two or more blocks, or a rejected call in the middle of a history"

CASE = st.fixed_dictionaries(dict(GENCASE, p=st.fixed_dictionaries(PROFILE), p2=st.fixed_dictionaries(PROFILE), blocks=st.integers(1, 3), us2=logf(0.05, 5), e2=logf(1e-3, 1e3), zr2=logf(0.2, 300)))


def run(c, ctx):
    c = with_box(c, ctx)
    nx = 2 ** c["lev"][0] + 1
    nz = 2 ** c["lev"][2] + 1
    p, p2 = c["p"], c["p2"]
    a = make_gen(c).generate(c["blocks"], **gen_args(p)).copy()
    z = np.linspace(0.0, c["dims"][2], nz)
    m = profile(p["prof"], z, p["zref"], p["uref"], p["z0"], p["plexp"])
    f = strip_profile(a, c["dims"], p)
    eps = 1e-13 * (1 + np.abs(m).max())
    for b in range(c["blocks"]):
        blk = f[b * nx : (b + 1) * nx]
        rms = np.sqrt(np.mean(blk**2))
        need(abs(rms - 1) <= 1e-6 + eps * 10, lambda: f"block {b} minus the {p['prof']} profile has RMS {rms}")
    # another profile: only the streamwise component changes, by the difference of the profiles
    b_ = make_gen(c).generate(c["blocks"], **gen_args(p2)).copy()
    m2 = profile(p2["prof"], z, p2["zref"], p2["uref"], p2["z0"], p2["plexp"])
    d = b_ - a
    tol = 2e-4 + 1e-12 * (np.abs(m).max() + np.abs(m2).max())
    need(bool(np.all(np.abs(d[..., 1:]) <= tol)), "the profile changes the lateral components")
    e = np.abs(d[..., 0] - (m2 - m)[None, None, :])
    need(bool(np.all(e <= tol)), lambda: f"profiles {p['prof']} -> {p2['prof']}: streamwise change off by {e.max():.3g}, at height index {np.unravel_index(np.argmax(e), e.shape)[2]} of {nz}")
    # neither friction velocity, amplitude nor reference height of the generator play a role
    over = dict(us=c["us2"]) if c["model"] == "DRD" else dict(us=c["us2"], E0=c["e2"], zr=c["zr2"])
    g = make_gen(c, **over).generate(c["blocks"], **gen_args(p))
    need(bool(np.all(np.abs(g - a) <= tol)), lambda: f"the field depends on friction velocity, amplitude or reference height: max difference {np.abs(g-a).max():.3g}")
    ctx.label(c["model"], p["prof"], f"blocks={c['blocks']}")
    return c["blocks"] >= 2


BADKIND = ["zref0", "uref0", "z00", "zrefneg", "urefneg", "z0neg", "unknown", "lower", "noexp", "empty"]
BAD = st.fixed_dictionaries(dict(GENCASE, p=st.fixed_dictionaries(PROFILE), hist=st.lists(st.one_of(st.integers(1, 2), st.sampled_from(BADKIND)), min_size=1, max_size=5)))


def bad_args(p, kind):
    a = gen_args(p)
    if kind.endswith("0") and kind != "unknown":
        a[kind[:-1]] = 0.0
    elif kind.endswith("neg"):
        a[kind[:-3]] = -abs(a[kind[:-3]])
    elif kind == "unknown":
        a["windprofiletype"] = "EXP"
    elif kind == "lower":
        a["windprofiletype"] = "log"
    elif kind == "empty":
        a["windprofiletype"] = ""
    else:
        a["windprofiletype"], a["plexp"] = "PL", None
    return a


def run_bad(c, ctx):
    c = with_box(c, ctx)
    g = make_gen(c)
    nx = 2 ** c["lev"][0] + 1
    bad = 0
    blocks = 0
    for op in c["hist"]:
        before = np.array(g.total_fluctuation, copy=True)
        if isinstance(op, str):
            expect_raises((ValueError,), lambda: g.generate(1, **bad_args(c["p"], op)), f"generate with {op}")
            need(np.array_equal(g.total_fluctuation, before), f"a rejected call ({op}) changed the field")
            bad += 1
            ctx.label(op)
        else:
            g.generate(op, **gen_args(c["p"]))
            blocks += op
            need(g.total_fluctuation.shape[0] == blocks * nx and np.array_equal(g.total_fluctuation[: len(before)], before), "blocks after a rejected call")
            f = strip_profile(g.total_fluctuation, c["dims"], c["p"])
            for b in range(blocks):
                rms = np.sqrt(np.mean(f[b * nx : (b + 1) * nx] ** 2))
                need(abs(rms - 1) <= 1e-5, lambda: f"block {b} has RMS {rms} after {bad} rejected calls")
    return bad > 0 and blocks > 0


LAW = st.fixed_dictionaries(dict(PROFILE, seed=seeds, n=st.integers(1, 20), top=logf(0.1, 500)))


def run_law(c, ctx):
    """the public profile functions"""
    from drdmannturb.fluctuation_generation import FluctuationFieldGenerator as F

    z = np.concatenate([[0.0], rng(c["seed"]).uniform(0, c["top"], size=c["n"])])
    need(close(F.log_law(z, c["z0"], c["zref"], c["uref"]), profile("LOG", z, c["zref"], c["uref"], c["z0"], 0), 1e-12), "log_law")
    need(close(F.power_law(z, c["zref"], c["uref"], c["plexp"]), profile("PL", z, c["zref"], c["uref"], c["z0"], c["plexp"]), 1e-12), "power_law")
    need(abs(F.power_law(c["zref"], c["zref"], c["uref"], c["plexp"]) / c["uref"] - 1) < 1e-12, "power law at the reference height")
    ctx.label(c["prof"])
    return True


SUBS = [Sub("profile_vk", strat(CASE, model="VK"), run, 120, 4000), Sub("profile_mann", strat(CASE, model="Mann"), run, 120, 4000),
        Sub("profile_drd", strat(CASE, model="DRD"), run, 80, 2000), Sub("tall", strat(CASE, lev=st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, 8))), run, 60, 2000), Sub("rejected", BAD, run_bad, 120, 3000), Sub("laws", LAW, run_law, 200, 4000)]
