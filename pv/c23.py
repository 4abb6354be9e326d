"""C23: circumference. Oracle: sums of lengths and a common factor."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pv import lat, machine
from pv.core import Info, close, facet, freeze_element, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num, small
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils.sc_tools import scale_circumference


def lengths(ring):
    return np.array([getattr(e, "Length", 0.0) for e in ring], dtype=float)


def only_drifts(before, ring, spec, what):
    """common factor of all drifts; nothing else differs"""
    drifts = set(lat.of_kind(spec, "drift"))
    factor = None
    require(len(ring) == len(spec), f"{what}: number of elements")
    for i, el in enumerate(ring):
        now, old = freeze_element(el), dict(before[i])
        if i in drifts:
            f = now["Length"] / old["Length"]
            factor = f if factor is None else factor
            close(f, factor, f"{what}: common factor of drift {i}", rtol=1e-12)
            now["Length"] = old["Length"]
        unchanged(old, now, f"{what}: element {i}")
    return factor


@st.composite
def scale_case(draw):
    els = draw(lat.elements(min_size=4, max_size=14, need=("drift", "drift")))
    return dict(els=els, mode=draw(st.sampled_from(["abs", "rel", "default"])), f=draw(st.one_of(small(1e-3, 4), small(0.9, 3), st.sampled_from([0.0, 1e-9, -1e-7]))),
                mark=draw(st.booleans()), second=draw(small(0.1)))


@facet("C23", "scale", scale_case(), quick=1500, thorough=40000, rule="change of the circumference")
def check_scale(case):
    ring = lat.build(case["els"])
    c0, d0 = np.sum(lengths(ring)), np.sum(lengths(ring)[lat.of_kind(case["els"], "drift")])
    f = 1 + case["f"] * d0 / c0  # drifts keep a positive length
    target = c0 * f
    before = {i: freeze_element(e) for i, e in enumerate(ring)}
    ids = [id(e) for e in ring]
    out = scale_circumference(ring, f, "rel") if case["mode"] == "rel" else (scale_circumference(ring, target, "abs") if case["mode"] == "abs" else scale_circumference(ring, target))
    require(len(out) == len(case["els"]), "number of elements")
    close(np.sum(lengths(out)), target, "circumference", rtol=1e-13 * len(ring), atol=0)
    close(out.get_s_pos(len(out))[0], target, "end position", rtol=1e-13 * len(ring), atol=0)
    only_drifts(before, out, case["els"], "scaling")
    require([id(e) for e in out] == ids and [id(e) for e in ring] == ids, "the elements of the given ring are not kept")
    # and back again / further: depends on the current circumference only
    again = scale_circumference(out, c0, "abs")
    close(lengths(again), lengths(lat.build(case["els"])), "lengths after scaling back", rtol=1e-11, atol=0)
    return Info(case["f"] != 0, case["mode"], "shrinks" if f < 1 else "")


@facet("C23", "rejects", st.fixed_dictionaries(dict(els=lat.elements(min_size=4, max_size=10, need=("drift",)), mode=st.sampled_from(["", "ABS", "add", "relative", "Rel", "absrel", "a", None, 1]), f=num(0.5, 2, 3))), quick=100, thorough=1000,
       rule="every case")
def check_rejects(case):
    ring = lat.build(case["els"])
    before = freeze_ring(ring)
    raises(ValueError, f"mode {case['mode']!r}", scale_circumference, ring, case["f"], case["mode"])
    unchanged(before, freeze_ring(ring), "ring after a rejected mode")
    return Info(True)


@st.composite
def error_case(draw):
    return dict(els=draw(lat.elements(min_size=6, max_size=10, need=("drift", "drift", "quad", "bpm"))), sigma=draw(st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 1e-2])), nsig=draw(st.sampled_from([0.5, 1, 2, 3])),
                n=draw(st.integers(1, 3)), other=draw(st.booleans()))


@facet("C23", "error", error_case(), quick=300, thorough=8000, rule="every case")
def check_error(case):
    SC = SimulatedCommissioning(lat.build(case["els"]))
    SC.SIG.Circumference = case["sigma"]
    if case["other"]:
        SC.register_magnets(np.array(lat.of_kind(case["els"], "quad")), MagnetOffset=np.ones(3) * 1e-5)
    ideal = freeze_ring(SC.IDEALRING)
    for _ in range(case["n"]):
        old = np.sum(lengths(SC.RING))
        before = {i: freeze_element(e) for i, e in enumerate(SC.RING)}
        SC.apply_errors(case["nsig"])
        now = np.sum(lengths(SC.RING))
        err = now / old - 1
        require(err != 0, "no circumference error")
        require(abs(err) <= case["sigma"] * case["nsig"] * (1 + 1e-9) + 1e-14, f"relative circumference error {err} exceeds the cutoff of {case['nsig']} sigma ({case['sigma']})")
        if not case["other"]:
            only_drifts(before, SC.RING, case["els"], "circumference error")
        unchanged(ideal, freeze_ring(SC.IDEALRING), "ideal ring")
    SC.SIG.Circumference = 0.0
    before = lengths(SC.RING)
    SC.apply_errors(case["nsig"])
    close(lengths(SC.RING), before, "lengths without circumference uncertainty", rtol=1e-14)
    return Info(True, f"nsig {case['nsig']}")


@facet("C23", "distribution", st.fixed_dictionaries(dict(sigma=st.sampled_from([1e-4, 1e-3]), nsig=st.sampled_from([1, 2, 3]), seed=st.integers(0, 10 ** 6))), quick=6, thorough=50, rule="1500 machines")
def check_distribution(case):
    spec = [dict(t="drift", L=1.0), dict(t="quad", L=0.5, k=0.3), dict(t="drift", L=2.0)]
    SC = SimulatedCommissioning(lat.build(spec))
    SC.SIG.Circumference = case["sigma"]
    x = []
    for _ in range(1500):
        c0 = np.sum(lengths(SC.RING))
        SC.apply_errors(case["nsig"])
        x.append((np.sum(lengths(SC.RING)) / c0 - 1) / case["sigma"])
    p = stats.kstest(x, stats.truncnorm(-case["nsig"], case["nsig"]).cdf).pvalue
    require(p > 1e-8, f"circumference errors do not follow the truncated normal distribution (p={p:.2g}, rms {np.std(x):.3f})")
    r = np.corrcoef(x[:-1], x[1:])[0, 1]
    require(abs(r) < 0.16, f"successive circumference errors are correlated ({r:.2f})")
    return Info(True)
