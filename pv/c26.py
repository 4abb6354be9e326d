"""C26: injection fits. Oracle: straight line through two readings, merit of the ideal trajectories tracked independently."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat
from pv.core import Discard, Info, close, equal, facet, fail, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.core.beam import bpm_reading
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory

REST = ("RING", "IDEALRING", "SIG", "ORD", "plot")


@st.composite
def drift_case(draw):
    els = draw(lat.ring_spec(sexts=(0.0, 3.0), cavity=False))
    return dict(ring=els, bpms=draw(st.lists(st.integers(0, 30), min_size=2, max_size=5, unique=True)), z0=draw(vec(4, 1e-3)), delta=draw(st.sampled_from([0.0, 0.0, 1e-3])), noise=draw(st.booleans()), off=draw(st.booleans()),
                shots=draw(st.integers(1, 3)), turns=draw(st.sampled_from([2, 2, 3])), dims=draw(st.sampled_from([None, None, [0], [1], [0, 1]])), lost=draw(st.sampled_from([None, None, None, None, 0, 1, 2])), jitter=draw(st.booleans()), particles=draw(st.sampled_from([1, 1, 5])), circ=draw(st.sampled_from([0.0, 0.0, 1e-3, -0.02])))


@facet("C26", "drift", drift_case(), quick=250, thorough=6000, rule="trajectory reaches the second turn")
def check_drift(case):
    els = lat.ring_elements(case["ring"])
    SC = SimulatedCommissioning(lat.build(els))
    bpms = lat.pick(lat.of_kind(els, "bpm"), case["bpms"])
    if len(bpms) < 2:
        raise Discard()
    SC.register_bpms(np.array(bpms), Noise=np.ones(2) * (1e-5 if case["noise"] else 0), Offset=np.ones(2) * (1e-4 if case["off"] else 0), Roll=1e-2 if case["off"] else 0.0, CalError=np.ones(2) * (0.05 if case["off"] else 0))
    SC.apply_errors()
    if case["circ"]:
        for el in SC.RING:
            if el.PassMethod == "DriftPass":
                el.Length *= 1 + case["circ"]
    SC.INJ.Z0 = np.array(case["z0"] + [case["delta"], 0.0])
    SC.INJ.nTurns, SC.INJ.nShots, SC.INJ.nParticles = case["turns"], case["shots"], case["particles"]
    if case["jitter"]:
        SC.INJ.randomInjectionZ = np.ones(6) * 1e-6
        SC.INJ.beamSize = np.diag(np.ones(6) * 1e-12)
    if case["lost"] is not None:  # beam lost before the first turn ends / between the turns / after the first BPM of the second turn
        o = dict([(0, bpms[0] + 1), (1, bpms[-1] + 1), (2, bpms[0] + 1)])[case["lost"]]
        if case["lost"] < 2:
            SC.RING[o % len(SC.RING)].EApertures = np.array([1e-9, 1e-9])
        else:
            SC.RING[bpms[-1]].Offset = np.array([1e-3, -1e-3])
    s = np.concatenate(([0.0], np.cumsum([el.Length for el in SC.RING])))
    s_last, s_first = s[bpms[-1]] - s[-1], s[bpms[0]]
    if abs(s_last - s_first) < 1e-3:
        raise Discard()
    seed = 12345
    before = freeze_sc(SC)
    np.random.seed(seed)
    b = np.array(bpm_reading(SC)[0])
    n = len(bpms)
    last, first = b[:, n - 1], b[:, n]
    np.random.seed(seed)
    kw = {} if case["dims"] is None else dict(n_dims=np.array(case["dims"]))
    if np.any(np.isnan([last, first])):
        raises((RuntimeError, np.linalg.LinAlgError), "fit without beam", fit_injection_drift, SC, **kw)
        unchanged(before, freeze_sc(SC), "machine after a failed fit")
        return Info(True, "lost")
    d = fit_injection_drift(SC, **kw)
    unchanged(before, freeze_sc(SC), "machine")
    slope = (first - last) / (s_first - s_last)
    start = first - slope * s_first
    want = -np.array([start[0], slope[0], start[1], slope[1], 0, 0])
    close(d, want, "correction", rtol=1e-7, atol=1e-12)
    equal(d[4:], [0, 0], "longitudinal part of the correction")
    return Info(True, "noise" if case["noise"] else "", f"turns {case['turns']}")


@st.composite
def straight_case(draw):
    return dict(ring=draw(lat.ring_spec(sexts=(0.0, 3.0), cavity=False)), la=draw(num(0.1, 2, 2)), lb=draw(num(0.1, 2, 2)), z0=draw(vec(4, 5e-4)), gap=draw(st.booleans()))


@facet("C26", "straight", straight_case(), quick=80, thorough=2000, rule="every case")
def check_straight(case):
    """nothing but drifts between the last and the first BPM: the fit cancels the beam's coordinates at the beginning of the second turn"""
    els = lat.ring_elements(dict(case["ring"], roll=0))
    els = [dict(t="drift", L=case["lb"]), dict(t="bpm", name="FIRST")] + els + [dict(t="bpm", name="LAST"), dict(t="drift", L=case["la"])] + ([dict(t="mark"), dict(t="drift", L=0.5)] if case["gap"] else [])
    SC = SimulatedCommissioning(lat.build(els))
    SC.register_bpms(np.array(lat.of_kind(els, "bpm")))
    SC.INJ.Z0 = np.array(case["z0"] + [0.0, 0.0])
    SC.INJ.nTurns = 2
    z = beamref.track(SC.RING, SC.INJ.Z0.reshape(6, 1), 2, [0])[:, 0, 0, 1]
    if np.any(np.isnan(z)):
        raise Discard()
    d = fit_injection_drift(SC)
    close(d[:4], -z[:4], "correction against the true coordinates", rtol=1e-6, atol=1e-11)
    return Info(np.any(z))


def merit(ideal, x, readings, ords):
    t = beamref.track(ideal, np.concatenate((x, [0, 0])).reshape(6, 1), 1, ords)[[0, 2], 0, :, 0]
    return np.sqrt(np.mean((readings - t) ** 2))


@st.composite
def traj_case(draw):
    n = draw(st.sampled_from([1, 1, 1, 8]))
    return dict(ring=draw(lat.ring_spec(sexts=(0.0,), cavity=False)), z0=draw(st.lists(vec(4, 1.0), min_size=n, max_size=n)), scale=draw(st.sampled_from([3e-4, 2e-3, 2e-3])), inds=draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=2, max_size=5, unique=True))),
                errors=draw(st.booleans()), noise=draw(st.booleans()), turns=draw(st.integers(1, 2)), long=draw(vec(2, 1e-4)))


@facet("C26", "trajectory", traj_case(), quick=60, thorough=1500, rule="non-zero start coordinates")
def check_trajectory(case):
    els = lat.ring_elements(case["ring"])
    quality = []
    for z0 in case["z0"]:
        SC = SimulatedCommissioning(lat.build(els))
        bpms = np.array(lat.of_kind(els, "bpm"))
        if case["errors"]:
            SC.register_bpms(bpms, Noise=np.ones(2) * (1e-5 if case["noise"] else 0), Offset=np.ones(2) * 1e-4, CalError=np.ones(2) * 0.02)
            SC.register_magnets(np.array(lat.of_kind(els, "quad")), MagnetOffset=np.ones(3) * 5e-5)
            SC.apply_errors()
        else:
            SC.register_bpms(bpms)
        # units of rms beam position for positions and angles
        SC.INJ.Z0 = np.concatenate((np.array(z0) * case["scale"] * np.array([1, 0.2, 1, 0.2]), case["long"] if case["errors"] else [0, 0]))
        SC.INJ.nTurns = case["turns"]
        inds = np.array([0, 1, 2]) if case["inds"] is None else np.sort(case["inds"])
        rest, z_before = freeze_sc(SC, REST), SC.INJ.Z0.copy()
        inj = freeze_sc(SC, ("INJ",))["INJ"]
        state = np.random.get_state()
        b = np.array(bpm_reading(SC)[0])[:, inds]
        np.random.set_state(state)
        z_object = SC.INJ.Z0
        kw = {} if case["inds"] is None else dict(bpm_inds=inds.copy())
        with contextlib.redirect_stdout(io.StringIO()):
            d = fit_injection_trajectory(SC, **kw)
        require(np.shape(d) == (6,), f"correction of shape {np.shape(d)}")
        equal(d[4:], [0, 0], "longitudinal part of the correction")
        close(SC.INJ.Z0, z_before + d, "injection after the fit", rtol=1e-12, atol=1e-15)
        unchanged(rest, freeze_sc(SC, REST), "machine")
        after = freeze_sc(SC, ("INJ",))["INJ"]
        unchanged({k: v for k, v in inj.items() if k != "Z0"}, {k: v for k, v in after.items() if k != "Z0"}, "injection settings")
        before, now = (merit(SC.IDEALRING, x, b, bpms[inds]) for x in (np.zeros(4), -d[:4]))
        require(now <= before * (1 + 1e-9) + 1e-12, f"fitted trajectory (merit {now}) is worse than none ({before})")
        # best possible: the ideal ring is linear
        cols = [beamref.track(SC.IDEALRING, (1e-6 * np.eye(6)[:, [k]]), 1, bpms[inds])[[0, 2], 0, :, 0].ravel() / 1e-6 for k in range(4)]
        a = np.array(cols).T
        best = np.sqrt(np.mean((a @ np.linalg.lstsq(a, b.ravel(), rcond=None)[0] - b.ravel()) ** 2))
        require(now >= best * (1 - 1e-2) - 1e-7, "harness: better than the best fit")
        if before > best + 1e-3:  # far above the tolerance of the search
            quality.append((now - best) / (before - best))
        if not case["errors"] and case["turns"] == 1:
            c = np.array(bpm_reading(SC)[0])[:, inds]
            close(np.sqrt(np.mean(c ** 2)), now, "rms reading after the correction of an ideal machine", rtol=1e-2, atol=1e-6)
    if len(quality) >= 6:
        require(np.median(quality) < 0.3, f"remaining fraction of the avoidable misfit: median of {len(quality)} fits is {np.median(quality):.2f}")
    return Info(np.any(np.array(case["z0"])), "quality judged" if len(quality) >= 6 else "", "errors" if case["errors"] else "")
