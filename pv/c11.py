"""C11: injected bunches."""
import numpy as np
from hypothesis import strategies as st

import at

from pv.core import Info, close, equal, facet, require
from pv.lat import num, small, vec
from pySC.core import beam
from pySC.core.simulated_commissioning import SimulatedCommissioning

VAR3 = 0.973337  # variance of the normal distribution truncated at three


def machine():
    return SimulatedCommissioning(at.Lattice([at.Drift("D", 1.0), at.Monitor("B")], energy=2e9))


@st.composite
def sigma(draw):
    """eigenvalues (zeros and repeated ones included) and Givens rotations"""
    scales = draw(st.sampled_from([[0.0, 1e-3, 1e-4, 1e-5], [0.0, 1e-3], [1e-3], [1e-3, 1e-4], [0.0]]))
    return dict(s=draw(st.lists(st.sampled_from(scales), min_size=6, max_size=6)),
                rot=draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), num(-3, 3, 1)).map(list), max_size=5)))


def matrix(c):
    q = np.eye(6)
    for i, j, a in c["rot"]:
        if i != j:
            g = np.eye(6)
            g[i, i] = g[j, j] = np.cos(a)
            g[i, j], g[j, i] = -np.sin(a), np.sin(a)
            q = g @ q
    s = np.array(c["s"])
    v = q @ np.diag(s ** 2) @ q.T
    return (v + v.T) / 2, q, s


@st.composite
def bunch_case(draw):
    return dict(sig=draw(sigma()), z0=draw(vec(6, 1e-2)), jit=draw(st.one_of(st.just([0.0] * 6), st.lists(num(0, 1, 2).map(lambda x: x * 1e-3), min_size=6, max_size=6))),
                n=draw(st.sampled_from([1, 1, 2, 3, 7, 30, 200])), arg=draw(st.booleans()), other=draw(st.integers(1, 5)), post=draw(st.sampled_from(["none", "scale", "shift", "kill"])))


@facet("C11", "bunch", bunch_case(), quick=800, thorough=20000, rule="several particles and a non-zero sigma matrix, or a jitter")
def check_bunch(case):
    SC = machine()
    v, q, s = matrix(case["sig"])
    inj = SC.INJ
    inj.Z0, inj.randomInjectionZ, inj.beamSize = np.array(case["z0"]), np.array(case["jit"]), v
    inj.nParticles = case["other"] if case["arg"] else case["n"]
    seen = []

    def post(z):
        seen.append(z.copy())
        return {"none": z, "scale": 2 * z, "shift": z + 1, "kill": np.where(np.arange(z.shape[1]) % 2, np.nan, z)}[case["post"]]
    inj.postFun = post
    keep = [inj.Z0.copy(), inj.randomInjectionZ.copy(), v.copy()]
    state = np.random.get_state()
    z = beam.generate_bunches(SC, nParticles=case["n"]) if case["arg"] else beam.generate_bunches(SC)
    require(len(seen) == 1, "post-processing function not called exactly once")
    raw = seen[0]
    require(raw.shape == (6, case["n"]), f"bunch of shape {raw.shape} for {case['n']} particles")
    equal(z, {"none": raw, "scale": 2 * raw, "shift": raw + 1, "kill": np.where(np.arange(raw.shape[1]) % 2, np.nan, raw)}[case["post"]], "post-processed bunch")
    equal(inj.Z0, keep[0], "Z0")
    equal(inj.randomInjectionZ, keep[1], "jitter sigmas")
    equal(inj.beamSize, keep[2], "sigma matrix")
    require(not np.any(np.isnan(raw)), "not-a-number particle")
    d = raw - np.array(case["z0"])[:, None]
    if case["n"] == 1:
        require(np.all(np.abs(d[:, 0]) <= 2 * np.array(case["jit"]) * (1 + 1e-9) + 1e-15), "single particle off by more than twice the jitter")
    else:
        # within the range of the sigma matrix, up to one common jitter; each particle within the truncated scatter
        w = q.T @ d
        common = w - w[:, :1]
        require(np.max(np.abs(common[s == 0]), initial=0) <= 1e-9, "particles scatter outside of the range of the sigma matrix")
        r = np.sqrt(sum(np.array([6 * 9 * np.max(s) ** 2])))
        require(np.all(np.abs(d) <= r + 2 * np.array(case["jit"])[:, None] + 1e-12), "particle outside of the truncated distribution")
        if np.any(s):
            require(np.max(np.abs(common)) > 0, "all particles at the same place")
            if case["n"] > 2:
                require(np.linalg.matrix_rank(common / np.max(s), tol=1e-12) >= min(np.sum(s > 0), case["n"] - 1), "particles do not scatter over all directions")
    np.random.set_state(state)
    equal(beam.generate_bunches(SC, nParticles=case["n"]), z, "bunch with the same random state")
    if any(case["jit"]) and case["n"] == 1:
        again = beam.generate_bunches(SC, nParticles=case["n"])
        require(not np.array_equal(again, z), "jitter is not drawn anew for each bunch")
        idx = np.array(case["jit"]) > 0
        require(np.all(np.array(seen[-1])[idx, 0] != raw[idx, 0]), "jitter is not drawn anew for each coordinate")
        require(len(np.unique(np.round(d[idx, 0] / np.array(case["jit"])[idx], 9))) == np.sum(idx), "jitter of the coordinates is not independent")
    return Info((case["n"] > 1 and any(case["sig"]["s"])) or any(case["jit"]), f"n={case['n']}", case["post"], "singular" if 0.0 in case["sig"]["s"] else "",
                "correlated" if case["sig"]["rot"] else "")


@st.composite
def stats_case(draw):
    return dict(sig=draw(sigma()), z0=draw(vec(6, 1e-3)), n=20000)


@facet("C11", "sigma_matrix", stats_case(), quick=60, thorough=1500, rule="non-zero sigma matrix")
def check_sigma(case):
    SC = machine()
    v, q, s = matrix(case["sig"])
    SC.INJ.Z0, SC.INJ.beamSize = np.array(case["z0"]), v
    z = beam.generate_bunches(SC, nParticles=case["n"])
    n = case["n"]
    w = q.T @ (z - np.array(case["z0"])[:, None])
    for i in range(6):
        if s[i] == 0:
            require(np.max(np.abs(w[i])) < 1e-9, "scatter outside of the range of the sigma matrix")
            continue
        x = w[i] / s[i]
        if s[i] < 1e-4 * np.max(s):
            continue
        require(abs(np.mean(x)) < 6 / np.sqrt(n), f"centroid off by {np.mean(x)} sigma")
        require(0.965 - 6 / np.sqrt(n / 2) * 1 < np.var(x) < 1.0 + 6 / np.sqrt(n / 2), f"variance is {np.var(x)} of the configured")
        for j in range(i):
            if s[j] >= 1e-4 * np.max(s):
                require(abs(np.mean(x * w[j] / s[j])) < 6 / np.sqrt(n), "sigma matrix not reproduced (correlation)")
    return Info(np.any(s), "repeated" if len(set(case["sig"]["s"])) < 6 else "", "rotated" if case["sig"]["rot"] else "")


@st.composite
def jitter_case(draw):
    return dict(jit=draw(st.lists(num(0.1, 1, 2), min_size=6, max_size=6)), n=draw(st.sampled_from([1, 1, 3])), reps=300)


@facet("C11", "jitter", jitter_case(), quick=30, thorough=600, rule="every case")
def check_jitter(case):
    """over many bunches the jitter has the configured sizes, is truncated at two and common to all particles"""
    SC = machine()
    SC.INJ.randomInjectionZ = np.array(case["jit"])
    z = np.array([beam.generate_bunches(SC, nParticles=case["n"]) for _ in range(case["reps"])])
    require(np.all(z == z[:, :, :1]), "particles of a bunch of zero size differ")
    x = z[:, :, 0] / np.array(case["jit"])
    require(np.max(np.abs(x)) <= 2 + 1e-9, "jitter beyond twice its sigma")
    n = case["reps"]
    require(np.all(np.abs(np.std(x, axis=0) / 0.8796 - 1) < 6 / np.sqrt(2 * n)), f"jitter sizes {np.std(x, axis=0)}")
    require(np.all(np.abs(np.mean(x, axis=0)) < 6 / np.sqrt(n)), "jitter is not centred")
    c = np.corrcoef(x.T) - np.eye(6)
    require(np.max(np.abs(c)) < 6.5 / np.sqrt(n), "jitter of the coordinates is correlated")
    return Info(True, f"n={case['n']}")


@facet("C11", "applied_injection", st.fixed_dictionaries(dict(z0=vec(6, 1e-3), static=st.lists(num(0, 1, 2).map(lambda x: x * 1e-3), min_size=6, max_size=6),
                                                              random=st.lists(num(0, 1, 2).map(lambda x: x * 1e-3), min_size=6, max_size=6))), quick=100, thorough=2000, rule="non-zero uncertainties")
def check_applied(case):
    """after applying errors the bunch is injected at the design trajectory plus static error, with the registered jitter"""
    SC = machine()
    SC.INJ.Z0ideal = np.array(case["z0"])
    SC.SIG.staticInjectionZ, SC.SIG.randomInjectionZ = np.array(case["static"]), np.array(case["random"])
    SC.apply_errors()
    z = beam.generate_bunches(SC)[:, 0]
    d = z - np.array(case["z0"])
    require(np.all(np.abs(d) <= 2 * (np.array(case["static"]) + np.array(case["random"])) + 1e-12), "injection error beyond the cutoffs")
    centre = SC.INJ.Z0
    require(np.all(np.abs(z - centre) <= 2 * np.array(case["random"]) + 1e-12), "jitter beyond its cutoff")
    close(centre - np.array(case["z0"]), np.where(np.array(case["static"]) > 0, centre - np.array(case["z0"]), 0), "static error without uncertainty")
    return Info(any(case["static"]) and any(case["random"]))
