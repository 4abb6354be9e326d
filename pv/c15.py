"""C15: measured responses and dispersion. Oracle: readings taken independently at the reported corrector settings of a copy of the machine."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat, machine
from pv.core import Discard, Info, close, equal, facet, fail, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.core import beam
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction import loco
from pySC.lattice_properties.response_measurement import dispersion, response_matrix

PARTS = ("IDEALRING", "INJ", "SIG", "ORD")


@st.composite
def ring_machine_case(draw, sexts=(0.0, 1.0, 3.0), modes=("TBT", "TBT", "ORB", "PORB")):
    return dict(ring=draw(lat.ring_spec(sexts=sexts, cavs=(1, 1, 2, 3))), bpmerr=draw(st.booleans()), mis=draw(st.booleans()), girder=draw(st.booleans()), k=draw(st.lists(vec(2, 5e-5), max_size=3)),
                mode=draw(st.sampled_from(modes)), turns=draw(st.integers(1, 2)), z0=draw(vec(4, 1e-4)), limits=draw(st.sampled_from([None, None, None, 1e-4, 3e-5])), cal=draw(st.booleans()))


def ring_machine(case, cav_err=True):
    """machine with static errors and without any jitter or noise"""
    els = [dict(e) for e in lat.ring_elements(case["ring"])]
    if case.get("ap"):
        for e in els:
            if e["t"] in ("quad", "bpm"):
                e["EAp"] = [case["ap"]] * 2
    SC = SimulatedCommissioning(lat.build(els))
    cors = np.array([i for i, e in enumerate(els) if e["name"].startswith("COR")])
    bpms, quads = np.array(lat.of_kind(els, "bpm")), np.array(lat.of_kind(els, "quad"))
    lim = case["limits"] or np.inf
    SC.register_bpms(bpms, Offset=np.ones(2) * (1e-4 if case["bpmerr"] else 0), Roll=0.05 if case["bpmerr"] else 0.0, CalError=np.ones(2) * (0.05 if case["bpmerr"] else 0))
    SC.register_magnets(quads, MagnetOffset=np.ones(3) * (3e-5 if case["mis"] else 0), CalErrorB=np.array([0, 1e-3 if case["mis"] else 0]))
    SC.register_magnets(cors, HCM=lim, VCM=lim, CalErrorB=np.array([0.1, 0]) * case["cal"], CalErrorA=np.array([0.1, 0]) * case["cal"])
    SC.register_cavities(np.array(lat.of_kind(els, "rf")), FrequencyOffset=10.0 if cav_err else 0.0)
    SC.apply_errors()
    for i, k in enumerate(case["k"]):
        for d in range(2):
            SC.set_cm_setpoints(cors[2 * i], k[d], bool(d))
    SC.INJ.trackMode = case["mode"]
    if case["mode"] != "ORB":
        SC.INJ.nTurns = case["turns"]
    SC.INJ.Z0 = np.array(case["z0"] + [0.0, 0.0])
    return SC, els, bpms, cors


def read(SC, bpms):
    return np.ravel(beam.bpm_reading(SC, bpm_ords=bpms)[0])


def at_step(SC, bpms, cm, plane, step):
    """readings of a copy of the machine with the corrector moved by the step"""
    other = copy.deepcopy(SC)
    start = other.get_cm_setpoints(cm, bool(plane))[0]
    other.set_cm_setpoints(cm, start + step, bool(plane))
    got = other.get_cm_setpoints(cm, bool(plane))[0]
    require(abs(got - start - step) <= 1e-9 * abs(step) + 1e-15, f"reported step {step} of corrector {cm} cannot be set (reached {got - start})")
    return read(other, bpms)


def column(ref, readings, steps, n_steps, order):
    """expected column"""
    if n_steps == 2:
        out = (readings[1] - ref) / steps[1]
    else:
        out = np.full(len(ref), np.nan)
        y = np.array(readings) - ref
        for i in range(len(ref)):
            ok = ~np.isnan(y[:, i])
            x = np.array(steps)[ok]
            if len(np.unique(x)) > order:  # otherwise nothing can be fitted
                if len(np.unique(np.round(x / np.max(np.abs(steps)), 6))) <= order:
                    return None  # steps equal up to rounding: undecided
                out[i] = np.polynomial.polynomial.polyfit(x / np.max(np.abs(steps)), y[ok, i], order)[1] / np.max(np.abs(steps))
    return np.where(np.isnan(out), 0.0, out)


@st.composite
def rm_case(draw):
    c = draw(ring_machine_case())
    c.update(bpms=draw(lat.idx_subset(1, 4)), h=draw(lat.idx_subset(0, 2)), v=draw(lat.idx_subset(0, 2)), n_steps=draw(st.sampled_from([2, 2, 3, 4, 5])), order=draw(st.sampled_from([1, 1, 2])),
             amp=draw(st.sampled_from([1e-5, 5e-5, 2e-4, 1e-3])), form=draw(st.sampled_from(["scalar", "list", "list", "one"])), how=draw(st.sampled_from(["fixedKick", "fixedKick", "default", "fixedOffset"])),
             scale=draw(st.lists(num(0.5, 1.5, 3), min_size=4, max_size=4)), ap=draw(st.sampled_from([None, None, 1e-3, 4e-4])),
             start=draw(st.lists(st.sampled_from([-1.0, 1.0, 0.3, -0.77]), max_size=4)))
    if c["n_steps"] == 2:
        c["order"] = 1
    return c


@facet("C15", "response", rm_case(), quick=120, thorough=3000, rule="at least one corrector, non-zero response")
def check_response(case):
    SC, els, all_bpms, cors = ring_machine(case)
    bpms = np.array(lat.pick(list(all_bpms), case["bpms"]))
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    n_cm = len(cms[0]) + len(cms[1])
    amps = [np.array([case["amp"] * case["scale"][(2 * p + i) % 4] for i in range(len(cms[p]))]) for p in range(2)]
    amp = amps
    if case["form"] != "list":
        amp = case["amp"] if case["form"] == "scalar" else np.array([case["amp"]])
        amps = [np.full(len(c), case["amp"]) for c in cms]
    if case["start"] and case["limits"]:  # some correctors start at their negative or positive limit
        for p in range(2):
            for i, cm in enumerate(cms[p]):
                SC.set_cm_setpoints(cm, case["limits"] * case["start"][(2 * p + i) % len(case["start"])], bool(p))
    how = case["how"]
    if how == "fixedOffset":  # amplitude is an offset at the BPMs
        amp = [a * 3 for a in amp] if isinstance(amp, list) else 3 * amp
    kw = {} if how == "default" else dict(mode=how)
    if case["n_steps"] != 2:
        kw.update(n_steps=case["n_steps"], fit_order=case["order"])
    ref = read(SC, bpms)
    if case["mode"] == "ORB" and np.any(np.isnan(ref)):
        raise Discard()
    origin, original = freeze_sc(SC, PARTS), freeze_ring(SC.RING)
    keep = copy.deepcopy(amp)
    machine0 = copy.deepcopy(SC)
    rm, err, steps = response_matrix(SC, amp, bpms, cms, **kw)
    unchanged(origin, freeze_sc(SC, PARTS), "machine (other than the ring)")
    unchanged(original, freeze_ring(SC.RING), "ring after the measurement", rtol=1e-12, atol=1e-18)
    for a, b in zip(np.atleast_1d(keep) if not isinstance(keep, list) else keep, np.atleast_1d(amp) if not isinstance(amp, list) else amp):
        equal(b, a, "amplitudes given by the caller")
    require(rm.shape == (len(ref), n_cm), f"response matrix of shape {rm.shape} instead of {(len(ref), n_cm)}")
    require(len(steps) == 2 and all(np.shape(s) == (case["n_steps"], len(c)) for s, c in zip(steps, cms)), "shape of the corrector steps")
    reach, i, labels = np.sum(~np.isnan(ref)), 0, set()
    for p in range(2):
        for j, cm in enumerate(cms[p]):
            s = steps[p][:, j]
            require(np.all(np.isfinite(s)), "corrector steps are not numbers")
            cur = machine0.get_cm_setpoints(cm, bool(p))[0]
            lim = case["limits"] or np.inf
            require(np.all(np.abs(cur + s) <= lim * (1 + 1e-9) + 1e-15), "reported steps exceed the limit")
            top = s[-1]
            if top == 0:  # no step possible in either direction
                require(lim <= abs(cur) + 1e-12, "no step made")
                i += 1
                continue
            readings = [at_step(machine0, bpms, cm, p, x) for x in s]
            require(np.sum(~np.isnan(readings[-1])) >= reach or how == "fixedOffset" or abs(top) < 0.9 ** 18.5 * amps[p][j], "the used step loses the beam further")
            want = column(ref, readings, s, case["n_steps"], case["order"])
            if want is None:
                i += 1
                continue
            size = np.max(np.abs(want), initial=1e-3)
            close(rm[:, i], want, f"column {i} (corrector {cm}, plane {p}, steps {s})", rtol=1e-5, atol=1e-5 * size + (2e-13 if case["mode"] != "ORB" else 1e-9) / np.max(np.abs(s)))
            if how != "fixedOffset":
                a = amps[p][j]
                fits = abs(cur + a) <= lim * (1 - 1e-9)
                plain = at_step(machine0, bpms, cm, p, a) if fits else None
                if fits and np.sum(~np.isnan(plain)) >= reach:
                    require(abs(top - a) <= 1e-9 * a, f"step of {top} instead of the amplitude {a}")
                    labels.add("full step")
                elif not fits:
                    labels.add("limited")
                    if abs(cur - a) <= lim * (1 - 1e-9):
                        require(top < 0, f"step {top} not reversed at the limit")
                else:
                    labels.add("reduced")
                    require(abs(top) < a, "step which loses the beam is not reduced")
                if case["n_steps"] > 2:
                    w = np.linspace(-top, top, case["n_steps"])
                    w = np.clip(cur + w, -lim, lim) - cur
                    close(s, w, "corrector steps", rtol=1e-7, atol=1e-12)
                else:
                    equal(s[0], 0.0, "first corrector step")
            elif labels.add("fixedOffset") is None and case["n_steps"] == 2 and lim == np.inf and case["ring"]["sext"] == 0 and not (case["ap"] and case["mode"] == "PORB") and not np.any(np.isnan(ref)) and np.max(np.abs(readings[-1] - ref)) > 1e-12:
                a = amp[p][j] if isinstance(amp, list) else float(np.ravel(amp)[0])
                close(np.max(np.abs(readings[-1] - ref)), a, "maximum offset of a step of fixed offset", rtol=1e-2)
            i += 1
    return Info(n_cm and np.max(np.abs(rm), initial=0) > 1e-3, case["mode"], f"steps {case['n_steps']}", "partial reach" if np.any(np.isnan(ref)) else "", *labels)


@st.composite
def linear_case(draw):
    c = draw(ring_machine_case(sexts=(0.0,), modes=("TBT", "PORB")))
    c.update(bpms=draw(lat.idx_subset(1, 4)), h=draw(lat.idx_subset(1, 2)), v=draw(lat.idx_subset(1, 2)), amps=draw(st.lists(st.sampled_from([1e-6, 1e-5, 1e-4]), min_size=2, max_size=2)),
             n=draw(st.integers(2, 6)), how=draw(st.sampled_from(["fixedKick", "fixedOffset"])), limits=None)
    return c


@facet("C15", "linear", linear_case(), quick=80, thorough=2000, rule="every case")
def check_linear(case):
    """on a (nearly) linear machine all amplitudes, numbers of steps and modes agree"""
    SC, els, all_bpms, cors = ring_machine(case)
    bpms = np.array(lat.pick(list(all_bpms), case["bpms"]))
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    a = response_matrix(SC, case["amps"][0], bpms, cms)[0]
    amp = case["amps"][1] * (2 if case["how"] == "fixedOffset" else 1)
    b = response_matrix(SC, amp, bpms, cms, mode=case["how"], n_steps=case["n"])[0]
    # the two-point difference and the fit differ by second order terms only
    close(b, a, "response measured in different ways", rtol=1e-2, atol=1e-3 * np.max(np.abs(a)))
    return Info(True, case["how"], f"steps {case['n']}", case["mode"])


@st.composite
def bad_case(draw):
    c = draw(ring_machine_case())
    c.update(h=draw(lat.idx_subset(1, 3)), v=draw(lat.idx_subset(1, 3)), form=draw(st.sampled_from(["array", "short", "long", "swap"])))
    return c


@facet("C15", "rejects", bad_case(), quick=40, thorough=500, rule="mismatching amplitudes")
def check_rejects(case):
    SC, els, bpms, cors = ring_machine(case)
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    n = [len(c) for c in cms]
    amp = dict(array=np.ones(max(2, sum(n))) * 1e-5, short=[np.ones(n[0] - 1) * 1e-5, np.ones(n[1]) * 1e-5], long=[np.ones(n[0]) * 1e-5, np.ones(n[1] + 1) * 1e-5],
               swap=[np.ones(n[1]) * 1e-5, np.ones(n[0]) * 1e-5])[case["form"]]
    if case["form"] == "swap" and n[0] == n[1]:
        raise Discard()
    before = freeze_sc(SC)
    raises(ValueError, "mismatching amplitudes", response_matrix, SC, amp, bpms[:2], cms)
    unchanged(before, freeze_sc(SC), "machine after a rejected measurement")
    return Info(True, case["form"])


@st.composite
def disp_case(draw):
    c = draw(ring_machine_case(modes=("ORB", "TBT", "PORB")))
    c.update(bpms=draw(st.one_of(st.none(), lat.idx_subset(1, 5))), cav=draw(st.one_of(st.none(), lat.idx_subset(1, 3))), df=draw(st.lists(st.sampled_from([0.0, 300.0, -500.0]), max_size=3)), step=draw(st.sampled_from([10.0, 100.0, 500.0, -100.0])), n=draw(st.sampled_from([2, 2, 3, 4, 5])), ap=None)
    return c


@facet("C15", "dispersion", disp_case(), quick=80, thorough=2000, rule="non-zero dispersion")
def check_dispersion(case):
    SC, els, all_bpms, cors = ring_machine(case)
    bpms = all_bpms if case["bpms"] is None else np.array(lat.pick(list(all_bpms), case["bpms"]))
    kw = {}
    if case["bpms"] is not None:
        kw["bpm_ords"] = bpms
    cavs = SC.ORD.RF
    if case["mode"] != "ORB":
        for o, d in zip(cavs, case["df"]):
            SC.set_cavity_setpoints(o, d, "Frequency", "add")
    if case["cav"] and case["mode"] != "ORB":  # no closed orbit with cavities of different frequencies
        cavs = kw["cav_ords"] = np.array(lat.pick(list(cavs), case["cav"]))
    if case["n"] != 2:
        kw["n_steps"] = case["n"]
    ref = read(SC, bpms)
    if np.any(np.isnan(ref)):
        raise Discard()
    m0 = copy.deepcopy(SC)
    rest, ring = freeze_sc(SC, PARTS), freeze_ring(SC.RING)
    start = {int(o): SC.RING[o].FrequencySetPoint for o in SC.ORD.RF}
    seen = []

    def post(z):
        seen.append([SC.RING[o].FrequencySetPoint - start[int(o)] for o in SC.ORD.RF])
        return z
    saved = SC.INJ.postFun
    SC.INJ.postFun = post
    try:
        eta = dispersion(SC, case["step"], **kw)
    finally:
        SC.INJ.postFun = saved
    for row in seen:  # all chosen cavities are moved alike
        chosen = np.isin(SC.ORD.RF, cavs)
        row = np.array(row)
        require(np.all(np.abs(row[~chosen]) < 1e-6), f"frequencies of other cavities moved while measuring: {row}")
        require(np.ptp(row[chosen]) < 1e-6, f"cavities moved by different steps: {row}")
    unchanged(rest, freeze_sc(SC, PARTS), "machine (other than the ring)")
    unchanged(ring, freeze_ring(SC.RING), "ring after the measurement", rtol=1e-14)
    steps = [case["step"]] if case["n"] == 2 else np.linspace(-case["step"], case["step"], case["n"])
    ys = []
    for s in steps:
        other = copy.deepcopy(m0)
        for o in cavs:
            other.RING[o].FrequencySetPoint = other.RING[o].FrequencySetPoint + s
        other.update_cavities()
        ys.append(read(other, bpms) - ref)
    ys, x = np.array(ys), np.array(steps)
    if np.any(np.isnan(ys)):
        raise Discard()
    want = x @ ys / (x @ x)  # least squares through the reference
    with_offset = np.polyfit(x, ys, 1)[0] if len(x) > 2 else want
    tol = np.abs(want - with_offset) + 1e-4 * np.max(np.abs(want)) + (2e-9 if case["mode"] == "ORB" else 1e-15) / abs(case["step"])
    require(eta.shape == want.shape, f"dispersion of shape {eta.shape}")
    if np.any(np.abs(eta - want) > tol):
        i = int(np.argmax(np.abs(eta - want) - tol))
        fail(f"dispersion {eta[i]} instead of {want[i]} (tolerance {tol[i]}) at reading {i}")
    return Info(np.max(np.abs(want)) > 0 and case["mode"] == "ORB" or np.any(want), case["mode"], f"steps {case['n']}", f"{len(cavs)} of {len(SC.ORD.RF)} cavities")


@st.composite
def loco_case(draw):
    c = draw(ring_machine_case(modes=("TBT", "ORB")))
    c.update(bpms=draw(lat.idx_subset(1, 4)), h=draw(lat.idx_subset(0, 2)), v=draw(lat.idx_subset(0, 2)), dkick=draw(st.sampled_from([1e-5, 5e-5, -1e-5, 2e-5])), ap=None)
    return c


@facet("C15", "closed_orbit_response", loco_case(), quick=50, thorough=1200, rule="at least one corrector")
def check_loco(case):
    SC, els, all_bpms, cors = ring_machine(case)
    bpms = np.array(lat.pick(list(all_bpms), case["bpms"]))
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    m0 = copy.deepcopy(SC)
    m0.INJ.trackMode = "ORB"
    ref = read(m0, bpms)
    if np.any(np.isnan(ref)):
        raise Discard()
    ring, rest = freeze_ring(SC.RING), freeze_sc(SC, ("IDEALRING", "SIG", "ORD"))
    rm = loco.measure_closed_orbit_response_matrix(SC, bpms, cms, case["dkick"])
    unchanged(ring, freeze_ring(SC.RING), "ring after the measurement", rtol=1e-12, atol=1e-18)
    unchanged(rest, freeze_sc(SC, ("IDEALRING", "SIG", "ORD")), "machine (other than the ring)")
    require(rm.shape == (len(ref), len(cms[0]) + len(cms[1])), f"response matrix of shape {rm.shape}")
    i, limited = 0, False
    for p in range(2):
        for cm in cms[p]:
            start, lim = m0.get_cm_setpoints(cm, bool(p))[0], case["limits"] or np.inf
            steps = [min(max(start + d, -lim), lim) - start for d in (case["dkick"], -case["dkick"])]
            steps = steps[:1] if abs(steps[0]) > 0.999 * abs(case["dkick"]) else [d for d in steps if abs(d) > 0.1 * abs(case["dkick"])]
            limited |= lim < abs(start + case["dkick"])
            for k, d in enumerate(steps):  # within the limits the step may go in the other direction
                want = (at_step(m0, bpms, cm, p, d) - ref) / d
                tol = 1e-4 * np.max(np.abs(want)) + 2e-9 / abs(d)
                if k == len(steps) - 1 or np.all(np.abs(rm[:, i] - want) <= 1e-4 * np.abs(want) + tol):
                    close(rm[:, i], want, f"closed orbit response of corrector {cm} (step {d})", rtol=1e-4, atol=tol)
                    break
            i += 1
    return Info(i > 0, case["mode"], "limited" if limited else "")
