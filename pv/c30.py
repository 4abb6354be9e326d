"""C30: LOCO interface. Oracle: the machine described by the structures, readings taken independently, exact fits which have to cancel the errors."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import lat
from pv.c15 import at_step, read, ring_machine, ring_machine_case
from pv.core import Discard, Info, close, diff, equal, facet, fail, freeze, freeze_element, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num
from pySC.core.beam import bpm_reading
from pySC.correction.loco_wrapper import (apply_lattice_correction, applyDiagnosticCorrection, loco_bpm_structure, loco_cm_structure,
                                          loco_fit_parameters, loco_measurement, loco_model)
from pySC.lattice_properties.response_measurement import dispersion, response_matrix

PARTS = ("IDEALRING", "INJ", "SIG", "ORD", "plot")
FLAGS = dict(Dispersion=False, HorizontalDispersionWeight=10, VerticalDispersionWeight=10, FitHCMEnergyShift=False, FitVCMEnergyShift=False,
             AutoCorrectDelta=False, SVmethod=1e-3, Normalize=True, Coupling=False, Linear=True)


def ordinates(machine_ords, positions):
    return None if positions is None else np.array(lat.pick(list(machine_ords), positions, keep_order=True), dtype=int)


@st.composite
def structure_case(draw):
    c = draw(ring_machine_case())
    some = st.one_of(st.none(), lat.idx_subset(1, 4))
    c.update(flags=draw(st.dictionaries(st.sampled_from(sorted(FLAGS) + ["Extra"]), st.sampled_from([True, 0.5, 100]), max_size=3)), bpms=draw(some), h=draw(some), v=draw(lat.idx_subset(0, 4)),
             steps=draw(st.sampled_from([None, "float", "int", "list1", "array1", "two", "two", "two"])), step=draw(num(0.1, 9, 2)), scale=draw(st.lists(num(0.5, 1.5, 2), min_size=8, max_size=8)),
             bpm_kw=draw(st.sampled_from([{}, dict(FitGains=True), dict(FitGains=True, FitCoupling=True), dict(FamName="B")])), cm_kw=draw(st.sampled_from([{}, dict(FitKicks=True), dict(FamName="C", FitKicks=True, FitCoupling=True)])))
    return c


def steps_of(case, n):
    """argument, expected steps"""
    s, k = case["steps"], case["step"] * 1e-5
    if s is None:
        return None, [np.ones(m) for m in n]
    if s == "two":
        out = [k * np.array([case["scale"][(3 * p + i) % 8] for i in range(m)]) for p, m in enumerate(n)]
        return [x.copy() for x in out], out
    k = 2.0 if s == "int" else k
    return dict(float=k, int=2, list1=[k], array1=np.array([k]))[s], [np.full(m, k) for m in n]


@facet("C30", "structures", structure_case(), quick=160, thorough=4000, rule="a subset of the elements, or steps given")
def check_structures(case):
    SC, els, bpms, cors = ring_machine(case)
    before = freeze_sc(SC)
    data, flags, init = loco_model(SC, **case["flags"])
    rf = SC.IDEALRING[int(SC.ORD.RF[0])]
    equal(data.CavityFrequency, rf.Frequency, "cavity frequency")
    equal(data.CavityHarmNumber, rf.HarmNumber, "harmonic number")
    unchanged(freeze_ring(SC.IDEALRING), freeze_ring(data.Lattice), "model lattice")
    require(init.SC is SC or isinstance(init.SC, type(SC)), "initial machine")
    require(dict(flags) == dict(FLAGS, **case["flags"]), f"flags {dict(flags)}")
    b = ordinates(bpms, case["bpms"])
    out = loco_bpm_structure(SC, **({} if b is None else dict(bpmords=b)), **case["bpm_kw"])
    want = SC.ORD.BPM if b is None else b
    n = len(want)
    expected = dict(FamName="BPM", BPMIndex=want, FitGains=False, HBPMIndex=np.arange(n), VBPMIndex=np.arange(n), HBPMGain=np.ones(n), VBPMGain=np.ones(n),
                    HBPMCoupling=np.zeros(n), VBPMCoupling=np.zeros(n))
    same_data(out, dict(expected, **case["bpm_kw"]), "BPM structure")
    require(not np.shares_memory(out.BPMIndex, want), "the BPM structure shares the ordinates with the machine")
    h = ordinates(SC.ORD.CM[0], case["h"])
    cms = None if h is None else [h, np.array(ordinates(SC.ORD.CM[1], case["v"]), dtype=int)]
    want = SC.ORD.CM if cms is None else cms
    n = [len(w) for w in want]
    arg, steps = steps_of(case, n)
    keep = copy.deepcopy(arg)
    out = loco_cm_structure(SC, **({} if cms is None else dict(cmords=cms)), **({} if arg is None else dict(cm_steps=arg)), **case["cm_kw"])
    expected = dict(FamName="CM", HCMIndex=want[0], VCMIndex=want[1], FitKicks=False, HCMCoupling=np.zeros(n[0]), VCMCoupling=np.zeros(n[1]), HCMsteps=steps[0], VCMsteps=steps[1],
                    HCMKicks=2e3 * steps[0], VCMKicks=2e3 * steps[1])
    same_data(out, dict(expected, **case["cm_kw"]), "corrector structure")
    require(not np.shares_memory(out.HCMIndex, want[0]) and not np.shares_memory(out.VCMIndex, want[1]), "the corrector structure shares the ordinates with the machine")
    if case["steps"] == "two":
        require(not np.shares_memory(out.HCMsteps, arg[0]) and not np.shares_memory(out.VCMsteps, arg[1]), "the corrector structure shares the steps with the caller")
        for a, k in zip(arg, keep):
            equal(a, k, "steps of the caller")
    unchanged(before, freeze_sc(SC), "machine")
    return Info(b is not None or cms is not None or case["steps"], case["steps"] or "default steps", "subset" if cms is not None else "all")


def same_data(got, want, what):
    require(set(got.keys()) == set(want), f"{what}: fields {sorted(got.keys())} instead of {sorted(want)}")
    for k, v in want.items():
        if isinstance(v, (str, bool)):
            require(got[k] == v, f"{what}: {k} is {got[k]!r} instead of {v!r}")
        else:
            close(got[k], v, f"{what}: {k}", rtol=1e-12, atol=0)


@st.composite
def measurement_case(draw):
    c = draw(ring_machine_case(modes=("TBT", "TBT", "ORB", "PORB")))
    c.update(bpms=draw(lat.idx_subset(1, 4)), h=draw(lat.idx_subset(0, 2)), v=draw(lat.idx_subset(0, 2)), amp=draw(st.sampled_from([1e-5, 5e-5, 2e-4])), list=draw(st.booleans()),
             scale=draw(st.lists(num(0.5, 1.5, 3), min_size=4, max_size=4)), kw=draw(st.sampled_from([{}, {}, dict(n_steps=3), dict(mode="fixedOffset"), dict(n_steps=4, fit_order=2)])),
             df=draw(st.sampled_from([10.0, 100.0, -50.0])), start=draw(st.lists(st.sampled_from([-1.0, 1.0, 0.3, -0.77]), max_size=4)))
    return c


@facet("C30", "measurement", measurement_case(), quick=80, thorough=2000, rule="at least one corrector")
def check_measurement(case):
    SC, els, all_bpms, cors = ring_machine(case)
    bpms = np.array(lat.pick(list(all_bpms), case["bpms"]))
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    amp = case["amp"]
    if case["list"]:
        amp = [np.array([case["amp"] * case["scale"][(2 * p + i) % 4] for i in range(len(cms[p]))]) for p in range(2)]
    if case["start"] and case["limits"]:
        for p in range(2):
            for i, cm in enumerate(cms[p]):
                SC.set_cm_setpoints(cm, case["limits"] * case["start"][(2 * p + i) % len(case["start"])], bool(p))
    ref = read(SC, bpms)
    if case["mode"] == "ORB" and np.any(np.isnan(ref)):
        raise Discard()
    machine0 = copy.deepcopy(SC)
    twin = copy.deepcopy(SC)
    before, ring0 = freeze_sc(SC, PARTS), freeze_ring(SC.RING)
    data, steps = loco_measurement(SC, amp, case["df"], bpms, cms, **case["kw"])
    unchanged(before, freeze_sc(SC, PARTS), "machine (other than the ring)")
    unchanged(ring0, freeze_ring(SC.RING), "ring after the measurement", rtol=1e-12, atol=1e-18)
    equal(data.RF, machine0.RING[int(SC.ORD.RF[0])].Frequency, "cavity frequency")
    equal(data.DeltaRF, case["df"], "frequency step")
    close(data.BPMSTD, 1e-3 * np.ones(2 * len(bpms)), "errors of the BPMs")
    rm, _, all_steps = response_matrix(twin, amp, bpms, cms, **case["kw"])
    require(len(steps) == 2, "two planes of steps")
    largest = [np.array([np.max(np.abs(s[:, i])) for i in range(s.shape[1])]) for s in all_steps]
    for p in range(2):
        close(steps[p], largest[p], f"largest steps in plane {p}", rtol=1e-9)
    size = max(np.max(np.abs(rm), initial=0.0), 1e-3)
    require(np.shape(data.M) == rm.shape, f"measured matrix of shape {np.shape(data.M)} instead of {rm.shape}")
    i = 0
    for p in range(2):
        for j, cm in enumerate(cms[p]):
            s = largest[p][j]
            close(data.M[:, i], 2000 * s * rm[:, i], f"matrix column {i} [mm]", rtol=1e-6, atol=2000 * s * 1e-6 * size + 1e-9)
            if case["kw"].get("n_steps", 2) == 2 and s > 0:
                top = all_steps[p][-1, j]
                want = (at_step(machine0, bpms, cm, p, top) - ref) * np.sign(top) * 2000  # twice the change, in mm
                close(data.M[:, i], np.where(np.isnan(want), 0.0, want), f"matrix column {i} (corrector {cm})", rtol=1e-5, atol=2000 * s * 1e-5 * size + 1e-6)
            i += 1
    eta = dispersion(twin, rf_step=case["df"], bpm_ords=bpms, n_steps=3)
    close(data.Eta, 1000 * case["df"] * eta, "dispersion [mm]", rtol=1e-6, atol=1e-9)
    return Info(i > 0, case["mode"], *(f"{k}={v}" for k, v in case["kw"].items()), "limits" if case["limits"] else "")


@st.composite
def exact_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    c.update(cal=False, limits=None, bpmerr=False, mis=draw(st.booleans()))
    c.update(bcal=draw(st.lists(num(-0.1, 0.1, 3), min_size=2, max_size=6)), roll=draw(st.lists(num(-0.05, 0.05, 3), min_size=1, max_size=5)), ccal=draw(st.lists(num(-0.2, 0.2, 3), min_size=2, max_size=6)),
             what=draw(st.sampled_from(["gains", "coupling", "kicks", "kicks", "all"])), step=draw(num(1, 9, 1)), two=draw(st.booleans()), array=draw(st.booleans()), sub=draw(st.one_of(st.none(), lat.idx_subset(1, 5))), kick=draw(num(2, 9, 1)))
    return c


@facet("C30", "exact", exact_case(), quick=80, thorough=2000, rule="some error cancelled")
def check_exact(case):
    """a perfect fit of kicks, gains and rolls removes these errors"""
    SC, els, bpms, cors = ring_machine(case)
    sel_b = ordinates(bpms, case["sub"] or list(range(len(bpms))))
    sel_c = ordinates(cors, case["sub"] or list(range(len(cors))))
    what = case["what"]
    on = lambda k: what in (k, "all")
    ideal = copy.deepcopy(SC)  # without these errors
    for i, b in enumerate(sel_b):
        if on("gains"):
            SC.RING[b].CalError = np.array([case["bcal"][(2 * i) % len(case["bcal"])], case["bcal"][(2 * i + 1) % len(case["bcal"])]])
        if on("coupling"):
            SC.RING[b].Roll = np.ones(1) * case["roll"][i % len(case["roll"])] if np.ndim(SC.RING[b].Roll) else case["roll"][i % len(case["roll"])]
    for i, c in enumerate(sel_c):
        if on("kicks"):
            SC.RING[c].CalErrorB[0] = case["ccal"][(2 * i) % len(case["ccal"])]
            SC.RING[c].CalErrorA[0] = case["ccal"][(2 * i + 1) % len(case["ccal"])]
    SC.update_magnets(cors)
    bpm_data = loco_bpm_structure(SC, sel_b, FitGains=on("gains"), FitCoupling=on("coupling"))
    k = case["step"] * 1e-5
    steps = [np.full(len(sel_c), k), np.full(len(sel_c), k)]
    arg = k
    if case["two"]:
        steps = [k * (1 + 0.1 * np.arange(len(sel_c))), k * (2 - 0.1 * np.arange(len(sel_c)))]
        arg = [s.copy() for s in steps]
    elif case["array"]:
        arg = np.array([k])
    cm_data = loco_cm_structure(SC, [sel_c, sel_c], arg if case["two"] else k, FitKicks=on("kicks"))
    # what a perfect fit returns: gains, couplings and kicks as seen by BPMs and beam
    if on("gains") or on("coupling"):
        for i, b in enumerate(sel_b):
            m = probe_matrix(SC, b)
            if not on("coupling"):
                bpm_data.HBPMGain[i], bpm_data.VBPMGain[i] = m[0, 0], m[1, 1]
            else:
                r = np.arctan((m[1, 0] / m[1, 1] - m[0, 1] / m[0, 0]) / 2)
                bpm_data.HBPMCoupling[i], bpm_data.VBPMCoupling[i] = -r, r
                bpm_data.HBPMGain[i], bpm_data.VBPMGain[i] = m[0, 0] / np.cos(r), m[1, 1] / np.cos(r)
    if on("kicks"):
        for i, c in enumerate(sel_c):
            for p in range(2):
                cm_data["HV"[p] + "CMKicks"][i] *= kick_of(SC, c, p) / kick_of(ideal, c, p)
    out = applyDiagnosticCorrection(SC, arg, cm_data, bpm_data)
    require(out is SC, "the corrected machine is returned")
    SC.update_magnets(cors)
    for b in bpms:
        close(SC.RING[b].CalError, ideal.RING[b].CalError, f"calibration of BPM {b}", atol=1e-9)
        close(np.ravel(SC.RING[b].Roll), np.ravel(ideal.RING[b].Roll), f"roll of BPM {b}", atol=1e-9)
    for c in cors:
        for n in ("CalErrorA", "CalErrorB"):
            close(getattr(SC.RING[c], n), getattr(ideal.RING[c], n), f"{n} of corrector {c}", atol=1e-9)
    kicks = np.array([case["kick"] * 1e-5, -case["kick"] * 1e-5])
    for m in (SC, ideal):
        for p in range(2):
            m.set_cm_setpoints(sel_c[0], kicks[p], bool(p))
        m.INJ.Z0 = np.array([1e-4, 2e-5, -1e-4, 1e-5, 0, 0])
    close(read(SC, bpms), read(ideal, bpms), "readings of the corrected machine", rtol=1e-7, atol=1e-10)
    return Info(True, what, "scalar" if not case["two"] else "per corrector", "subset" if case["sub"] else "all")


def probe_matrix(SC, b):
    """readings of a BPM per position of the beam, by moving the beam at a copy of this BPM alone at the start of the ring"""
    twin = copy.deepcopy(SC)
    src = twin.RING[b]
    start = int(twin.ORD.BPM[0])
    first = twin.RING[start]
    for k in ("Offset", "CalError", "Roll", "SupportOffset", "SupportRoll", "Noise", "NoiseCO", "SumError"):
        setattr(first, k, copy.deepcopy(getattr(src, k)))
    first.Offset = np.zeros(2)
    first.SupportOffset, first.SupportRoll = np.zeros_like(first.SupportOffset), np.zeros_like(first.SupportRoll)
    from pv import beamref
    pos, val = [], []
    for z in ([0, 0], [1e-4, 0], [0, 1e-4]):
        z6 = np.array([z[0], 0, z[1], 0, 0, 0], dtype=float)
        pos.append(beamref.track(twin.RING, z6.reshape(6, 1), 1, [start])[[0, 2], 0, 0, 0])
        twin.INJ.Z0, twin.INJ.nTurns = z6, 1
        val.append(bpm_reading(twin, bpm_ords=np.array([start]))[0][:, 0])
    pos, val = np.array(pos), np.array(val)
    if np.any(np.isnan(pos)):
        raise Discard()
    return (val[1:] - val[0]).T @ np.linalg.inv((pos[1:] - pos[0]).T)


def kick_of(SC, c, p):
    """field of the corrector per setpoint"""
    twin = copy.deepcopy(SC)
    field = []
    for k in (0.0, 1e-4):
        twin.set_cm_setpoints(c, k, bool(p))
        field.append(getattr(twin.RING[c], "PolynomA" if p else "PolynomB")[0])
    return field[1] - field[0]


@st.composite
def model_case(draw):
    c = draw(ring_machine_case())
    c.update(gains=draw(st.booleans()), kicks=draw(st.booleans()), coupling=draw(st.booleans()), mean=draw(st.booleans()), out=draw(st.sampled_from([None, None, 0.1, 0.3])), offsets=draw(st.booleans()),
             vals=draw(st.lists(num(-0.5, 0.5, 3), min_size=3, max_size=12)), step=draw(num(1, 9, 1)), form=draw(st.sampled_from(["scalar", "array", "two", "bad"])), subs=draw(st.lists(lat.idx_subset(1, 4), min_size=3, max_size=3)),
             part=draw(st.booleans()))
    return c


@facet("C30", "diagnostic", model_case(), quick=120, thorough=3000, rule="something corrected")
def check_diagnostic(case):
    SC, els, bpms, cors = ring_machine(case)
    sel_b = ordinates(bpms, case["subs"][0])
    cms = [ordinates(cors, s) for s in case["subs"][1:]]
    v = iter(np.tile(np.array(case["vals"]), 40))
    nxt = lambda n: np.array([next(v) for _ in range(n)])
    bpm_data = loco_bpm_structure(SC, sel_b, FitGains=case["gains"], FitCoupling=case["coupling"])
    if case["part"] and len(sel_b) > 1:  # not all of the BPMs in both planes
        bpm_data.HBPMIndex, bpm_data.VBPMIndex = np.arange(len(sel_b))[:-1], np.arange(len(sel_b))[1:]
    for p in "HV":
        n = len(bpm_data[p + "BPMIndex"])
        bpm_data[p + "BPMGain"], bpm_data[p + "BPMCoupling"] = 1 + nxt(n), 0.1 * nxt(len(sel_b))
    k = case["step"] * 1e-5
    steps = [np.full(len(c), k) for c in cms]
    arg = dict(scalar=k, array=np.array([k]), two=None, bad=np.array([k, k, k]))[case["form"]]
    if case["form"] == "two":
        steps = [k * (1 + 0.5 * np.arange(len(c))) for c in cms]
        arg = [s.copy() for s in steps]
    cm_data = loco_cm_structure(SC, cms, k, FitKicks=case["kicks"])
    for p in range(2):
        cm_data["HV"[p] + "CMKicks"] = 2000 * steps[p] * (1 + nxt(len(cms[p])))
    offsets = [0.1 * nxt(len(c)) for c in cms] if case["offsets"] else None
    kw = {}
    if case["offsets"]:
        kw["CMcalOffsets"] = offsets
    if case["mean"]:
        kw["meanToZero"] = True
    if case["out"]:
        kw["outlierRemovalAt"] = case["out"]
    if case["form"] == "bad":
        before = freeze_sc(SC)
        raises(ValueError, "steps of the wrong size", applyDiagnosticCorrection, SC, arg, cm_data, bpm_data, **kw)
        unchanged(before, freeze_sc(SC), "machine after a rejected call")
        return Info(False, "rejected")

    def treat(fit):
        fit = np.array(fit)
        if case["out"]:
            if np.any(np.abs(np.abs(1 - fit) - case["out"]) < 1e-9):
                raise Discard()
            fit = np.where(np.abs(1 - fit) >= case["out"], 1.0, fit)
        return fit + np.mean(1 - fit) if case["mean"] else fit
    want = {}
    for p in range(2):
        if case["kicks"]:
            fit = cm_data["HV"[p] + "CMKicks"] / (2000 * steps[p]) - (offsets[p] if offsets else 0)
            for c, f in zip(cms[p], treat(fit)):
                old = np.array(getattr(SC.RING[c], "CalError" + "BA"[p]), dtype=float)
                old[0] += 1 - f
                want[int(c), "CalError" + "BA"[p]] = old
        if case["gains"]:
            for b, f in zip(sel_b[bpm_data["HV"[p] + "BPMIndex"]], treat(bpm_data["HV"[p] + "BPMGain"])):
                old = want.get((int(b), "CalError"), np.array(SC.RING[b].CalError, dtype=float))
                old[p] += 1 - f
                want[int(b), "CalError"] = old
    if case["coupling"]:
        for b, h, w in zip(sel_b, bpm_data.HBPMCoupling, bpm_data.VBPMCoupling):
            want[int(b), "Roll"] = SC.RING[b].Roll - (w - h) / 2
    before = freeze_sc(SC, PARTS)
    ring0 = [freeze_element(e) for e in SC.RING]
    given = freeze([dict(cm_data), dict(bpm_data), arg, offsets])
    out = applyDiagnosticCorrection(SC, arg, cm_data, bpm_data, **kw)
    require(out is SC, "the corrected machine is returned")
    unchanged(before, freeze_sc(SC, PARTS), "machine (other than the ring)")
    unchanged(given, freeze([dict(cm_data), dict(bpm_data), arg, offsets]), "data given by the caller")
    for i, e in enumerate(SC.RING):
        now = freeze_element(e)
        for (j, name), value in want.items():
            if j == i:
                close(np.ravel(now.pop(name)), np.ravel(value), f"{name} of element {i}", rtol=1e-9, atol=1e-12)
                ring0[i].pop(name)
        unchanged(ring0[i], now, f"element {i}")
    return Info(bool(want), *(k for k in ("gains", "kicks", "coupling", "mean", "offsets", "part") if case[k]), f"outliers {case['out']}", case["form"])


@st.composite
def lattice_case(draw):
    c = draw(ring_machine_case())
    fams = st.fixed_dictionaries(dict(kind=st.sampled_from(["quad", "quad", "dip", "skew"]), pos=lat.idx_subset(1, 5), how=st.sampled_from(["individual", "individual", "family"]),
                                      delta=st.sampled_from([1e-3, 1e-4, 5e-4])))
    c.update(kdip=draw(st.sampled_from([0.0, 0.02, -0.03])), cf=draw(st.booleans()), lim=draw(st.sampled_from([None, 5e-3, 1e-3, 0.5])), fams=draw(st.lists(fams, max_size=4)),
             other=draw(st.booleans()), vals=draw(st.lists(num(-0.03, 0.03, 3), min_size=3, max_size=10)), orig=draw(st.lists(num(-0.02, 0.02, 3), max_size=4)),
             comp=draw(st.sampled_from([None, None, True, False])), damping=draw(st.sampled_from([None, None, 1, 0.5, 0.0, 0.3])), repeat=draw(st.booleans()), df=draw(st.sampled_from([100.0, 1e3])))
    return c


def lattice_machine(case):
    SC, els, bpms, cors = ring_machine(dict(case, ring=dict(case["ring"], kdip=case["kdip"])))
    dips = np.array(lat.of_kind(els, "dip"))
    skews = cors[::2]
    for ring in (SC.RING, SC.IDEALRING):
        for d in dips:
            ring[int(d)].PolynomB = np.array([0.0, case["kdip"]])
    SC.register_magnets(dips, HCM=np.inf, **(dict(CF=True) if case["cf"] and case["kdip"] else {}))
    SC.register_magnets(skews, **(dict(SkewQuad=case["lim"]) if case["lim"] else dict(SkewQuad=np.inf)))
    SC.apply_errors()
    for i, k in enumerate(case["k"]):
        for d in range(2):
            SC.set_cm_setpoints(cors[2 * i], k[d], bool(d))
    quads = np.array(lat.of_kind(els, "quad"))
    for i, v in enumerate(case["orig"]):  # setpoints other than the nominal ones
        SC.set_magnet_setpoints(int(quads[(3 * i) % len(quads)]), 1 + v, False, 1, method="rel")
        SC.set_magnet_setpoints(int(skews[i % len(skews)]), v * 0.02, True, 1)
    return SC, dict(quad=quads, dip=dips, skew=skews)


@facet("C30", "lattice", lattice_case(), quick=96, thorough=2500, rule="at least one group and a setpoint which changes")
def check_lattice(case):
    """fit parameters describe the families; the correction moves the setpoints by the fitted differences from the ideal lattice"""
    SC, ords = lattice_machine(case)
    ring_data, _, init = loco_model(SC)
    if case["other"]:  # the fit starts from another model than the ideal one
        ring_data.Lattice = SC.IDEALRING.deepcopy()
        for i, q in enumerate(np.concatenate([ords[k] for k in ("quad", "dip", "skew")])):
            e = ring_data.Lattice[int(q)]
            e.PolynomB, e.PolynomA = np.array(e.PolynomB) + [0.0, 0.01 * (i + 1)], np.array(e.PolynomA) + [0.0, -0.003 * (i + 1)]
    ring0 = SC.RING.deepcopy()
    fams = [[np.array(lat.pick(list(ords[f["kind"]]), f["pos"])), f["kind"] == "skew", f["how"], f["delta"]] for f in case["fams"]]
    before, given = freeze_sc(SC), freeze_ring(ring_data.Lattice)
    fit = loco_fit_parameters(SC, ring0, ring_data, case["df"], *fams)
    unchanged(before, freeze_sc(SC), "machine")
    unchanged(given, freeze_ring(ring_data.Lattice), "fitted model")
    require(fit.FitRFFrequency is True and fit.DeltaRF == case["df"], "rf settings of the fit")
    groups = []
    for o, skew, how, delta in fams:
        groups += [([int(i)], skew, delta) for i in o] if how != "family" else [([int(i) for i in o], skew, delta)]
    for name in ("Params", "Values", "IdealValues", "OrigValues", "Deltas"):
        require(len(fit[name]) == len(groups), f"{name}: {len(fit[name])} groups instead of {len(groups)}")
    for g, (members, skew, delta) in enumerate(groups):
        require([int(p.ElemIndex) for p in fit.Params[g]] == members, f"group {g}: elements {[p.ElemIndex for p in fit.Params[g]]} instead of {members}")
        ab = "BA"[skew]
        for p in fit.Params[g]:
            require((p.FieldName, p.SCFieldName) == ("Polynom" + ab, "SetPoint" + ab), f"group {g}: fields {p.FieldName}, {p.SCFieldName}")
        for name, ring, field in (("Values", ring_data.Lattice, "Polynom"), ("IdealValues", SC.IDEALRING, "Polynom"), ("OrigValues", ring0, "SetPoint")):
            some = [getattr(ring[m], field + ab)[1] for m in members]
            require(any(abs(fit[name][g] - v) <= 1e-12 for v in some), f"group {g}: {name} {fit[name][g]} instead of {some}")
        require(abs(fit.Deltas[g] - delta) <= 1e-12, f"group {g}: step {fit.Deltas[g]}")
    kw = {}
    if case["comp"] is not None:
        kw["dipole_compensation"] = case["comp"]
    if case["damping"] is not None:
        kw["damping"] = case["damping"]
    damping = 1 if case["damping"] is None else case["damping"]
    moved = False
    for n in range(1 + case["repeat"]):  # iterations restart from the original values
        for g in range(len(groups)):
            fit.Values[g] = fit.IdealValues[g] + case["vals"][(g + 3 * n) % len(case["vals"])] * (0.1 if groups[g][1] else 1)
        want = copy.deepcopy(SC)
        target = {}
        for g, (members, skew, _) in enumerate(groups):
            for m in members:
                v = fit.OrigValues[g] + damping * (fit.IdealValues[g] - fit.Values[g])
                target[m, skew] = v
                want.set_magnet_setpoints(m, v, skew, 1, dipole_compensation=case["comp"] is not False and not skew)
        kept = freeze([np.array(fit[k]) for k in ("Values", "IdealValues", "OrigValues", "Deltas")])
        start = freeze_sc(SC)
        out = apply_lattice_correction(SC, fit, **kw)
        require(out is SC, "the corrected machine is returned")
        unchanged(kept, freeze([np.array(fit[k]) for k in ("Values", "IdealValues", "OrigValues", "Deltas")]), "fit parameters")
        unchanged(freeze_sc(want), freeze_sc(SC), "machine after the correction", rtol=1e-9, atol=1e-14)
        for (m, skew), v in target.items():
            lim = getattr(SC.RING[m], "SkewQuadLimit", np.inf) if skew else np.inf
            close(getattr(SC.RING[m], "SetPoint" + "BA"[skew])[1], np.clip(v, -lim, lim), f"setpoint of element {m}", rtol=1e-9, atol=1e-14)
        moved = moved or bool(diff(start, freeze_sc(SC)))
    return Info(bool(groups) and moved, *(f"{f['kind']} {f['how']}" for f in case["fams"]), f"damping {damping}", "compensation" if case["comp"] is not False and case["cf"] and case["kdip"] else "")
