"""C19: rf phase and frequency correction. Oracle: energy gain and orbit slopes found by independent tracking of the corrected machine."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat
from pv.core import Discard, Info, close, equal, facet, fail, freeze_element, freeze_sc, raises, require, unchanged
from pv.lat import C0, num, small, vec
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction.rf import correct_rf_frequency, correct_rf_phase, phase_and_energy_error

REST = ("IDEALRING", "INJ", "SIG", "ORD", "plot")


@st.composite
def machine_case(draw, sexts=(0.0, 1.0)):
    r = draw(lat.ring_spec(sexts=sexts))
    r["volt"] = draw(st.sampled_from([1.5e6, 3e6]))
    return dict(ring=r, rad=draw(st.booleans()), two=draw(st.sampled_from([0, 0, 1, 2])), lag=draw(small(1.0)), bpmerr=draw(st.booleans()), cal=draw(st.booleans()), df=0.0, turns=8, z0=[0.0] * 6, shots=1, sub=draw(st.sampled_from([None, None, [0], [1], [1, 0]])))


def make(case):
    """machine with one or two cavities (far apart or neighbours)"""
    els = [dict(e) for e in lat.ring_elements(case["ring"])]
    if case["two"]:
        k = lat.of_kind(els, "rf")[0]
        els[k]["V"] /= 2
        other = dict(els[k])
        if case.get("harm"):  # harmonic cavity
            other.update(h=other["h"] * case["harm"], f=other["f"] * case["harm"])
        els.insert((k + (1 if case["two"] == 1 else len(els) // 2)) % len(els), other)
    SC = SimulatedCommissioning(lat.build(els))
    if case["rad"]:
        SC.RING = switch_cavity_and_radiation(SC.RING, "radiationon")
    bpms, cavs = np.array(lat.of_kind(els, "bpm")), np.array(lat.of_kind(els, "rf"))
    SC.register_bpms(bpms, Offset=np.ones(2) * (case.get("spread") or (5e-5 if case["bpmerr"] else 1e-5)), CalError=np.ones(2) * (0.02 if case["bpmerr"] else 0))
    SC.register_cavities(cavs, VoltageCalError=0.02 if case["cal"] else 0.0, TimeLagOffset=0.05 if case["cal"] else 0.0)
    SC.register_magnets(np.array(lat.of_kind(els, "quad")))
    SC.apply_errors()
    SC.INJ.nTurns, SC.INJ.nShots = case["turns"], case["shots"]
    SC.INJ.Z0 = np.array(case["z0"], dtype=float)
    f = SC.RING[cavs[0]].FrequencySetPoint
    SC.set_cavity_setpoints(cavs, case["lag"] * C0 / f, "TimeLag", "abs")
    if case["df"]:
        SC.set_cavity_setpoints(cavs, case["df"], "Frequency", "add")
    return SC, els, bpms, cavs, C0 / f


def some_cavities(cavs, case):
    """cavities to be corrected"""
    return cavs if case["sub"] is None else np.array(lat.pick(list(cavs), case["sub"]))


def only_cavities(before, SC, cavs, field, els):
    """common change of the given field of the given cavities; nothing else"""
    unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
    changes = []
    for i, el in enumerate(SC.RING):
        now, old = freeze_element(el), dict(before["ring"][i])
        if i in cavs:
            changes.append(now[field + "SetPoint"] - old[field + "SetPoint"])
            actual = now[field + "SetPoint"] * (1 + now[field + "CalError"]) + now[field + "Offset"]
            close(now[field], actual, f"{field} of cavity {i}", rtol=1e-12)
            for k in (field, field + "SetPoint"):
                now[k] = old[k] = 0.0
        unchanged(old, now, f"element {i}")
    changes = np.array(changes, dtype=float).ravel()
    close(changes, np.full(len(changes), changes[0]), "change of the cavities", rtol=1e-9, atol=1e-7 if field == "Frequency" else 1e-12)
    return changes[0]


def state(SC):
    return dict(rest=freeze_sc(SC, REST), ring={i: freeze_element(e) for i, e in enumerate(SC.RING)})


def gain(SC, turns=1, shift=0.0, cavs=()):
    """energy gain per turn of the injected particle, optionally with all time lags shifted"""
    ring = SC.RING.deepcopy()
    for c in cavs:
        ring[c].TimeLag += shift
    t = beamref.track(ring, SC.INJ.Z0.reshape(6, 1), turns, [len(ring)])[4, 0, 0]
    return (t[-1] - SC.INJ.Z0[4]) / turns


@st.composite
def phase_case(draw):
    c = draw(machine_case())
    c.update(turns=draw(st.integers(5, 10)), steps=draw(st.one_of(st.none(), st.integers(8, 24))), bpms=draw(st.one_of(st.none(), st.none(), lat.idx_subset(3, 8))), shots=draw(st.sampled_from([1, 1, 2])),
             z0=[0.0] * 4 + [0.0, draw(st.sampled_from([0.0, 0.0, 0.05, -0.3]))], lag2=draw(small(1.0)))
    return c


def correct_phase(SC, els, bpms, cavs, case):
    kw, used = {}, some_cavities(cavs, case)
    if case["sub"] is not None:
        kw["cav_ords"] = used.copy()
    if case["bpms"]:
        kw["bpm_ords"] = np.array(lat.pick(list(bpms), case["bpms"]))
    if case["steps"]:
        kw["n_steps"] = case["steps"]
    before = state(SC)
    out = correct_rf_phase(SC, **kw)
    require(out is SC, "returns another machine")
    return only_cavities(before, SC, set(int(c) for c in used), "TimeLag", els)


@facet("C19", "phase", phase_case(), quick=160, thorough=4000, rule="phase corrected")
def check_phase(case):
    results = []
    for lag in (case["lag"], case["lag2"]):
        SC, els, bpms, cavs, lamb = make(dict(case, lag=lag))
        lags = np.array([SC.RING[c].TimeLag for c in cavs], dtype=float)
        amplitude = case["ring"]["volt"] / 2e9
        if case["bpms"] and len(lat.pick(list(bpms), case["bpms"])) < 3:
            raise Discard()
        used = some_cavities(cavs, case)
        try:
            d = correct_phase(SC, els, bpms, cavs, case)
        except RuntimeError:
            if len(used) == len(cavs):
                raise
            raise Discard()  # the other cavities change the energy by too much
        require(abs(d) <= lamb / 2 * (1 + 1e-9), f"time lag changed by {d / lamb} wavelengths")
        if d == 0 or abs(d) < 1e-9 * lamb:
            results.append(None)  # measurement not precise enough
            require(len(used) < len(cavs) or not (case["rad"] and case["turns"] >= 7 and not case["bpms"]) or abs(gain(SC)) < 0.1 * amplitude, f"phase of a noise-free machine not corrected, energy gain {gain(SC) / amplitude} of the maximum")
            continue
        g = gain(SC)
        require(abs(g) <= (0.3 if case["bpms"] or len(used) < len(cavs) else 0.15) * amplitude, f"energy gain after the correction is {g / amplitude} of the maximum")
        up, down = gain(SC, 1, 0.05 * lamb, used), gain(SC, 1, -0.05 * lamb, used)
        require(up > down, "corrected to the unstable phase")
        results.append((SC.RING[cavs[0]].TimeLagSetPoint, lamb))
    if results[0] and results[1] and len(used) == len(cavs) and not case["cal"] and not case["bpmerr"]:
        a, b = results[0][0], results[1][0]
        x = (a - b) / lamb
        require(abs(x - round(float(x))) < 0.04, f"corrected phases from different initial ones differ by {x} wavelengths")
    return Info(any(results), "radiation" if case["rad"] else "", f"{len(used)} of {len(cavs)} cavities", "both corrected" if all(results) else "")


@st.composite
def harmonic_case(draw):
    c = draw(machine_case(sexts=(0.0,)))
    c.update(two=draw(st.integers(1, 2)), harm=draw(st.integers(2, 3)), which=draw(st.integers(0, 1)), rad=False, turns=draw(st.integers(5, 6)), steps=draw(st.one_of(st.none(), st.integers(10, 24))), bpms=None, cal=False, other=draw(num(0.1, 0.6, 2)) * draw(st.sampled_from([-1, 1])))
    return c


@facet("C19", "harmonic", harmonic_case(), quick=60, thorough=1500, rule="phase corrected")
def check_harmonic(case):
    """one of two cavities of different frequency is corrected: its own wavelength counts"""
    SC, els, bpms, cavs, _ = make(case)
    own, other = cavs[case["which"]], cavs[1 - case["which"]]
    lamb, lamb2 = (C0 / SC.RING[c].FrequencySetPoint for c in (own, other))
    SC.set_cavity_setpoints(own, case["lag"] * lamb, "TimeLag", "abs")
    SC.set_cavity_setpoints(other, np.arcsin(case["other"]) / 2 / np.pi * lamb2, "TimeLag", "abs")
    before = state(SC)
    try:
        out = correct_rf_phase(SC, cav_ords=np.array([own]), **(dict(n_steps=case["steps"]) if case["steps"] else {}))
    except RuntimeError:
        raise Discard()  # the other cavity changes the energy by too much
    require(out is SC, "returns another machine")
    d = only_cavities(before, SC, {int(own)}, "TimeLag", els)
    require(abs(d) <= lamb / 2 * (1 + 1e-9), f"time lag changed by {d / lamb} wavelengths")
    if d == 0:
        return Info(False, "not precise enough")
    g = gain(SC) / (case["ring"]["volt"] / 2 / 2e9)
    require(abs(g) <= 0.45, f"energy gain after the correction is {g} of the amplitude of the cavity")
    require(gain(SC, 1, 0.05 * lamb, [own]) > gain(SC, 1, -0.05 * lamb, [own]), "corrected to the unstable phase")
    return Info(True, f"harmonic {case['harm']}", "first" if own < other else "second")


@st.composite
def freq_case(draw):
    c = draw(machine_case())
    lo, hi = draw(st.sampled_from([(-1e3, 1e3), (-2e3, 2e3), (-3e3, 1e3), (-500.0, 2e3)]))
    c.update(spread=1.5e-4, turns=draw(st.sampled_from([20, 30, 40, 50])), steps=draw(st.one_of(st.none(), st.integers(6, 20))), rad=False, lag=0.0, cal=False, df=draw(st.sampled_from([0.0, 300.0, -700.0, 1000.0, -1500.0])), frange=[lo, hi], default=draw(st.booleans()))
    return c


def slope(SC, bpms, cavs, shift=0.0):
    ring = SC.RING.deepcopy()
    for c in cavs:
        ring[c].Frequency += shift
    x = beamref.track(ring, SC.INJ.Z0.reshape(6, 1), SC.INJ.nTurns, bpms)[0, 0]  # (B, T)
    y = np.mean(x - x[:, :1], axis=0)
    return np.polyfit(np.arange(len(y)), y, 1)[0]


@facet("C19", "frequency", freq_case(), quick=120, thorough=3000, rule="frequency corrected")
def check_frequency(case):
    SC, els, bpms, cavs, lamb = make(case)
    f0 = SC.RING[cavs[0]].FrequencySetPoint - case["df"]
    kw = {} if case["default"] else dict(f_range=tuple(case["frange"]))
    lo, hi = kw.get("f_range", (-1e3, 1e3))
    if case["steps"]:
        kw["n_steps"] = case["steps"]
    used = some_cavities(cavs, case)
    if case["sub"] is not None:
        kw["cav_ords"] = used.copy()
    before = state(SC)
    edge = max(abs(slope(SC, bpms, used, lo)), abs(slope(SC, bpms, used, hi)))
    start = slope(SC, bpms, cavs)
    out = correct_rf_frequency(SC, **kw)
    require(out is SC, "returns another machine")
    d = only_cavities(before, SC, set(int(c) for c in used), "Frequency", els)
    if abs(d) < 1e-5:
        return Info(False, "not precise enough")
    after = slope(SC, bpms, cavs)
    require(abs(after) <= 0.3 * max(edge, abs(start)), f"drift of the beam per turn after the correction is {after / max(edge, abs(start))} of the largest in the scan (before: {start / edge})")
    if len(used) == len(cavs):
        now = SC.RING[cavs[0]].FrequencySetPoint - f0
        require(abs(now) <= 0.3 * abs(case["df"]) + 30, f"frequency error {case['df']} -> {now}")
    return Info(True, f"{len(used)} of {len(cavs)} cavities")


@st.composite
def error_case(draw):
    c = draw(machine_case())
    c.update(z0=[draw(small(1e-4)) for _ in range(4)] + [draw(small(3e-3)), draw(small(3.0))], lag=draw(small(2.0)), df=draw(small(500.0)), mode=draw(st.sampled_from(["TBT", "ORB"])), which=draw(st.integers(0, 1)))
    return c


@facet("C19", "error", error_case(), quick=200, thorough=5000, rule="closed orbit exists")
def check_error(case):
    if case["two"]:
        case["cal"] = False  # AT finds no synchronous phase for cavities of different phases
    SC, els, bpms, cavs, _ = make(case)
    SC.INJ.trackMode = case["mode"]
    cav = cavs[[case["which"] % len(cavs)]]
    lamb = C0 / SC.RING[cav[0]].Frequency
    orbit = beamref.orbit(SC.RING, [0])[0]
    if np.any(np.isnan(orbit)) or np.max(np.abs(orbit[:4])) > 0.05:
        raise Discard()
    before = state(SC)
    phase, energy = phase_and_energy_error(SC, cav)
    only_state(before, SC)
    close(energy, SC.INJ.Z0[4] - orbit[4], "energy error", rtol=1e-6, atol=1e-9)
    x = (orbit[5] - SC.INJ.Z0[5]) / lamb
    x = (x - np.round(x)) * 360
    require(abs(phase) <= 180 * (1 + 1e-9), f"phase error of {phase} degrees")
    d = (float(np.ravel(phase)[0]) - x + 180) % 360 - 180
    require(abs(d) < 1e-3, f"phase error of {phase} instead of {x} degrees")
    return Info(True, "radiation" if case["rad"] else "", "folded" if abs(orbit[5] - SC.INJ.Z0[5]) > lamb / 2 else "")


def only_state(before, SC):
    unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
    unchanged(before["ring"], {i: freeze_element(e) for i, e in enumerate(SC.RING)}, "ring")


@st.composite
def bad_case(draw):
    c = draw(machine_case())
    c.update(how=draw(st.sampled_from(["ORB", "PORB", "turns", "steps", "off", "nocav", "lost"])), phase=draw(st.booleans()), n=draw(st.integers(0, 5)), pos=draw(st.integers(0, 50)))
    return c


@facet("C19", "rejects", bad_case(), quick=120, thorough=2000, rule="every case")
def check_rejects(case):
    SC, els, bpms, cavs, lamb = make(case)
    fun = correct_rf_phase if case["phase"] else correct_rf_frequency
    kw, how, exc = {}, case["how"], ValueError
    if how in ("ORB", "PORB"):
        SC.INJ.trackMode = how
        SC.INJ.nTurns = 8
    elif how == "turns":
        SC.INJ.nTurns = 1 + case["n"] % 2
    elif how == "steps":
        kw["n_steps"] = 1 + case["n"] % 5
    elif how == "off":
        SC.RING[cavs[case["n"] % len(cavs)]].PassMethod = "IdentityPass"
    elif how == "nocav":
        kw["cav_ords"] = np.array([i for i in range(len(els)) if i not in cavs])[[case["pos"] % (len(els) - len(cavs))]]
    else:  # the beam is lost within the first turns
        SC.RING[bpms[case["n"] % len(bpms)]].EApertures = np.array([1e-12, 1e-12])
        SC.INJ.Z0 = np.array([1e-4, 0, 1e-4, 0, 0, 0])
        exc = RuntimeError
    before = state(SC)
    raises(exc, f"rf correction ({how})", fun, SC, **kw)
    if how != "lost":
        only_state(before, SC)
    else:
        unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
        unchanged(before["ring"], {i: freeze_element(e) for i, e in enumerate(SC.RING)}, "ring", rtol=1e-12, atol=1e-12)
    return Info(True, how)


@st.composite
def noise_case(draw):
    c = draw(machine_case())
    c.update(rad=False, phase=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))
    return c


@facet("C19", "imprecise", noise_case(), quick=24, thorough=300, rule="every case")
def check_imprecise(case):
    """BPMs which see mostly noise: no correction in (nearly) all the cases"""
    kept, n = 0, 12
    for i in range(n):
        SC, els, bpms, cavs, lamb = make(case)
        for c in cavs:
            SC.RING[c].VoltageSetPoint = SC.RING[c].VoltageSetPoint * 1e-9
        SC.update_cavities(cavs)
        for b in bpms:
            SC.RING[b].Noise = np.ones(2) * 1e-3
        before = state(SC)
        try:
            (correct_rf_phase if case["phase"] else correct_rf_frequency)(SC)
        except RuntimeError:  # noise does not cross zero
            only = {i: freeze_element(e) for i, e in enumerate(SC.RING)}
            unchanged(before["ring"], only, "ring after a failed correction", rtol=1e-12, atol=1e-12)
            kept += 1
            continue
        d = only_cavities(before, SC, set(int(c) for c in cavs), "TimeLag" if case["phase"] else "Frequency", els)
        kept += abs(d) < 1e-5
    require(kept >= n // 2, f"corrections made from pure noise in {n - kept} of {n} cases")
    return Info(True)


@st.composite
def partial_case(draw):
    phase = draw(st.booleans())
    c = draw(phase_case() if phase else freq_case())
    n = draw(st.integers(6, 15))
    keep = draw(st.sampled_from([2, 5, 6, n - 1, n - 1] if phase else [1, 2, 3, 3, 4, n - 1, n - 1]))
    c.update(phase=phase, steps=n, keep=sorted(draw(st.permutations(range(n)))[:keep]), sub=None, bpms=None, shots=1, two=0, z0=[0.0] * 6)
    c.update(dict(rad=True) if phase else dict(df=draw(st.sampled_from([700.0, -1000.0, 1500.0])), spread=draw(st.sampled_from([3e-5, 8e-5, 1.5e-4])), ring=dict(c["ring"], sext=0.0)))
    return c


@facet("C19", "partial", partial_case(), quick=60, thorough=1500, rule="beam lost at some of the scanned settings")
def check_partial(case):
    """beam which is lost at some of the settings of the scan: corrected from the others, or not at all if they are too few"""
    SC, els, bpms, cavs, lamb = make(case)
    seen = []

    def post(z):
        seen.append(freeze_element(SC.RING[cavs[0]])["TimeLag" if case["phase"] else "Frequency"])
        return np.full_like(z, np.nan) if len(seen) - 1 not in case["keep"] else z
    SC.INJ.postFun = post
    kw = {} if case["phase"] or case["default"] else dict(f_range=tuple(case["frange"]))
    lo, hi = kw.get("f_range", (-1e3, 1e3))
    before = state(SC)
    field, need = ("TimeLag", 6) if case["phase"] else ("Frequency", 3)
    fun = correct_rf_phase if case["phase"] else correct_rf_frequency
    if len(case["keep"]) < need:
        raises(RuntimeError, f"{field} with {len(case['keep'])} of {case['steps']} measurements", fun, SC, n_steps=case["steps"], **kw)
        only = {i: freeze_element(e) for i, e in enumerate(SC.RING)}
        unchanged(before["ring"], only, "ring after a failed correction", rtol=1e-12, atol=1e-12)
        unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
        return Info(True, f"{field} too few")
    try:
        out = fun(SC, n_steps=case["steps"], **kw)
    except RuntimeError as e:
        if case["phase"] and len(case["keep"]) < case["steps"] - 1 and "enough data" not in str(e):
            raise Discard()  # no curve found through a few points which are close to each other
        raise
    require(out is SC, "returns another machine")
    require(len(seen) == case["steps"], f"{len(seen)} injections for {case['steps']} steps")
    d = only_cavities(before, SC, set(int(c) for c in cavs), field, els)
    x = np.array(case["keep"])
    if abs(d) < (1e-9 * lamb if case["phase"] else 1e-5):
        return Info(False, f"{field} not precise enough")
    SC.INJ.postFun = None
    if case["phase"]:
        require(abs(d) <= lamb / 2 * (1 + 1e-9), f"time lag changed by {d / lamb} wavelengths")
        if len(x) >= case["steps"] - 1 and case["steps"] >= 10:
            amplitude, g = case["ring"]["volt"] / 2e9, gain(SC)
            require(abs(g) <= 0.3 * amplitude, f"energy gain after the correction is {g / amplitude} of the maximum")
    elif len(x) > 3 and np.ptp(x) >= case["steps"] / 2:
        edge = max(abs(slope(SC, bpms, cavs, lo - d)), abs(slope(SC, bpms, cavs, hi - d)), abs(slope(SC, bpms, cavs, -d)))
        after = slope(SC, bpms, cavs)
        require(abs(after) <= 0.6 * edge, f"drift of the beam per turn after the correction is {after / edge} of the largest in the scan")
    return Info(len(x) < case["steps"], field)
