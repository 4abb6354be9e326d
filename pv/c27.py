"""C27: LOCO. Oracle: jacobian by independent forward differences on independently built models; data made from known parameters."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.c13 import kicked, observe, shifted
from pv.c14 import expected_model
from pv.c13 import ring_case as model_case
from pv.c13 import ring_machine
from pv.core import Discard, Info, close, equal, facet, fail, freeze_element, freeze_ring, freeze_sc, require, unchanged
from pv.lat import num, small, vec
from pySC.correction import loco
from pySC.lattice_properties.response_model import SCgetModelRM


def response(model, mode, bpms, cms, dkick):
    ref = observe(model, mode, [0.0] * 6, 1, bpms)
    return np.array([(observe(kicked(model, int(o), plane, dkick), mode, [0.0] * 6, 1, bpms) - ref) / dkick for plane in range(2) for o in cms[plane]]).T


def dispersion(model, bpms, cavs, step):
    ref = observe(model, "ORB", None, 1, bpms)
    return (observe(shifted(model, cavs, step), "ORB", None, 1, bpms) - ref) / step


def strength(SC, quad, order, skew, dk):
    """copy of the machine with another setpoint written directly"""
    other = copy.deepcopy(SC)
    name = "SetPointA" if skew else "SetPointB"
    p = np.array(getattr(other.RING[quad], name), dtype=float)
    p[order] += dk
    setattr(other.RING[quad], name, p)
    return other


@st.composite
def jac_case(draw):
    c = draw(model_case())
    c.update(quads=draw(lat.idx_subset(1, 3)), dk=draw(st.sampled_from([1e-3, 1e-4, -1e-3])), skew=draw(st.sampled_from([False, False, True])), full=draw(st.booleans()), disp=draw(st.sampled_from([False, False, True])),
             h=draw(lat.idx_subset(1, 2)), v=draw(lat.idx_subset(1, 2)), bpms=draw(lat.idx_subset(2, 4)), direct=draw(st.sampled_from([True, True, False])), ideal=draw(st.sampled_from([False, False, False, True])))
    return c


@facet("C27", "jacobian", jac_case(), quick=160, thorough=4000, rule="response depends on the quadrupoles", shards=4)
def check_jacobian(case):
    SC, els, cors = ring_machine(case)
    quads = lat.pick(lat.of_kind(els, "quad"), case["quads"])
    bpms = np.array(lat.pick(list(SC.ORD.BPM), case["bpms"]))
    cms = [np.array(lat.pick(cors, case[k]), dtype=int) for k in "hv"]
    mode, dk, dkick, skew, ideal = case["mode"], case["dk"], case["dkick"], case["skew"], case["ideal"]
    model = SC.IDEALRING if ideal else expected_model(SC)
    if np.any(np.isnan(observe(model, mode, [0.0] * 6, 1, bpms))) or np.any(np.isnan(observe(model, "ORB", None, 1, bpms))):
        raise Discard()
    c_model = SCgetModelRM(SC, bpms, cms, trackMode=mode, dkick=dkick, useIdealRing=ideal)
    if np.any(np.isnan(c_model)):
        raise Discard()
    cavs = SC.ORD.RF.copy()
    before, c_keep, quads_keep = freeze_sc(SC), c_model.copy(), list(quads)
    if case["direct"] and not case["full"]:
        jac = [loco.generating_quads_response_matrices((q, SC, c_model, dkick, cms, bpms, dk, mode, ideal, skew, 1, "add", case["disp"], case["step"], cavs)) / dk for q in quads]
        unchanged(before, freeze_sc(SC), "machine", rtol=1e-14, atol=1e-16)
    else:
        jac = loco.calculate_jacobian(SC, c_model, dkick, cms, bpms, quads, dk, trackMode=mode, useIdealRing=ideal, skewness=skew, includeDispersion=case["disp"],
                                      rf_step=case["step"], cav_ords=cavs, full_jacobian=case["full"])
        unchanged(before, freeze_sc(SC), "machine")
    equal(c_model, c_keep, "model response given by the caller")
    require(list(quads) == quads_keep, "list of quadrupoles changed")
    nc, nb = len(cms[0]) + len(cms[1]), 2 * len(bpms)
    cols = nc + (1 if case["disp"] else 0)
    require(len(jac) == len(quads) + (nc + nb if case["full"] else 0), f"{len(jac)} matrices in the jacobian")
    for m in jac:
        require(np.shape(m) == (nb, cols), f"matrix of shape {np.shape(m)} instead of {(nb, cols)}")
    active = False
    eta0 = dispersion(model, bpms, cavs, case["step"]) if case["disp"] else None
    c0 = response(model, mode, bpms, cms, dkick)
    for q, m in zip(quads, jac):
        if ideal:
            want, wanteta = np.zeros((nb, nc)), np.zeros(nb)
        else:
            other = expected_model(strength(SC, q, 1, skew, dk))
            want = (response(other, mode, bpms, cms, dkick) - c0) / dk
            wanteta = (dispersion(other, bpms, cavs, case["step"]) - eta0) / dk if case["disp"] else None
        if np.any(np.isnan(want)):
            continue
        scale = np.max(np.abs(c0)) / abs(dk)
        noise = (1e-11 if mode == "ORB" else 1e-13) / dkick / abs(dk)  # convergence of the closed orbit
        close(m[:, :nc], want, f"derivative with respect to magnet {q}", rtol=1e-3, atol=1e-9 * scale + 1e-3 * np.max(np.abs(want)) + noise)
        if case["disp"] and not np.any(np.isnan(wanteta)):
            close(m[:, nc], wanteta, f"derivative of the dispersion with respect to magnet {q}", rtol=1e-2, atol=1e-2 * np.max(np.abs(wanteta)) + 4e-9 / abs(case["step"] * dk))
        active = active or np.max(np.abs(want)) > 10 * noise
    if case["full"]:
        full = np.column_stack((c_keep, eta0)) if case["disp"] else c_keep
        for i, m in enumerate(jac[len(quads):]):
            want = np.zeros((nb, cols))
            if i < nc:
                want[:, i] = full[:, i]
            else:
                want[i - nc] = full[i - nc]
            tol = np.zeros((nb, cols))
            if case["disp"]:
                tol[:, nc] = 4e-9 / abs(case["step"]) + 1e-3 * np.max(np.abs(eta0))
            require(np.all(np.abs(m - want) <= tol), f"matrix of {'corrector' if i < nc else 'BPM row'} {i if i < nc else i - nc}")
    return Info(bool(active), mode, "ideal" if ideal else "model", "dispersion" if case["disp"] else "", "skew" if skew else "", "pool" if not case["direct"] or case["full"] else "direct")


@st.composite
def fit_case(draw):
    nq, nc, nb = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 6))
    return dict(n=[nq, nc, nb], without=draw(st.sampled_from([[]] * 3 + [["quads"], ["cor"], ["bpm"], ["cor", "bpm"]])), extra=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), what=draw(st.lists(st.sampled_from(["quads", "cor", "bpm"]), min_size=1, max_size=3, unique=True)), style=draw(st.sampled_from(["loco", "random"])),
                size=draw(st.sampled_from([1e-3, 0.1, 1.0])), weights=draw(st.sampled_from(["one", "four", "unit", "diag"])), lam=draw(st.sampled_from([0.0, 0.0, 0.5, 10.0])), cut=draw(st.integers(1, 18)), zero=draw(st.booleans()), noise=draw(st.booleans()))


def lengths(case):
    return [0 if k in case["without"] else n for k, n in zip(("quads", "cor", "bpm"), case["n"])]


def fit_data(case):
    """jacobian, model, measurement, parameters (full length), mask, weights"""
    rng = np.random.default_rng(case["seed"])
    nq, nc, nb = case["n"]
    cols = nc + (1 if case["extra"] else 0)
    model = rng.normal(size=(nb, cols)) * 10
    if case["style"] == "random":
        jac = rng.normal(size=(nq + nc + nb, nb, cols))
    else:
        jac = np.zeros((nq + nc + nb, nb, cols))
        jac[:nq] = rng.normal(size=(nq, nb, cols)) * 5
        for i in range(nc):
            jac[nq + i, :, i] = model[:, i]
        for i in range(nb):
            jac[nq + nc + i, i] = model[i]
    kind = ["quads"] * nq + ["cor"] * nc + ["bpm"] * nb
    jac = jac[[k not in case["without"] for k in kind]]  # parameters which are not part of the jacobian
    mask = np.array([k in case["what"] for k in kind if k not in case["without"]])
    if not np.any(mask):
        raise Discard()
    p = np.where(mask, rng.uniform(-1, 1, size=len(mask)) * case["size"], 0.0)
    meas = model + np.einsum("i,ijk->jk", p, jac)
    if case["noise"]:
        meas = meas + rng.normal(size=meas.shape) * 0.1
    w = dict(one=1, four=4.0, unit=np.eye(nb), diag=np.diag(rng.uniform(0.2, 3.0, size=nb)))[case["weights"]]
    return jac, model, meas, p, mask, w, rng


@facet("C27", "least_squares", fit_case(), quick=1200, thorough=8000, rule="at least two parameters")
def check_lm(case):
    jac, model, meas, p, mask, w, rng = fit_data(case)
    a = jac[mask].reshape(np.sum(mask), -1).T  # rows of the weighted linear system
    wm = np.eye(model.shape[0]) * w if np.ndim(w) == 0 else w
    aw = np.array([(np.sqrt(wm) @ m).ravel() for m in jac[mask]]).T
    s = np.linalg.svd(aw, compute_uv=False)
    if aw.shape[0] < aw.shape[1] or s[-1] < 1e-4 * s[0]:
        raise Discard()
    guess = np.zeros(len(p)) if case["zero"] else rng.normal(size=len(p))
    keep = [x.copy() if isinstance(x, np.ndarray) else x for x in (guess, model, meas, jac, w)]
    got = loco.loco_correction_lm(guess, model, meas, jac, lengths(case), list(case["what"]), weights=w, verbose=0)
    for x, y, what in zip((guess, model, meas, jac, w), keep, ("guess", "model", "measurement", "jacobian", "weights")):
        equal(x, y, f"{what} given by the caller")
    want = p[mask] if not case["noise"] else np.linalg.lstsq(aw, (np.sqrt(wm) @ (meas - model)).ravel(), rcond=None)[0]
    require(np.shape(got) == want.shape, f"{np.shape(got)} parameters instead of {want.shape}")
    close(got, want, "fitted parameters", rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(guess[mask] - want))) * s[0] / s[-1])
    return Info(len(want) > 1, case["style"], case["weights"], "+".join(sorted(case["what"])), "noise" if case["noise"] else "")


@facet("C27", "gauss_newton", fit_case(), quick=1500, thorough=10000, rule="at least two parameters")
def check_ng(case):
    """normal equations of the row sums of the jacobian"""
    jac, model, meas, p, mask, w, rng = fit_data(case)
    wm = np.eye(model.shape[0]) * w if np.ndim(w) == 0 else w
    k = int(np.sum(mask))
    j = jac[mask].sum(axis=2)  # parameters x rows
    matrix = j @ wm @ j.T
    matrix = matrix + case["lam"] * np.diag(np.diag(matrix))
    u, s, vh = np.linalg.svd(matrix)
    kept = min(k, case["cut"])
    guess = np.zeros(len(p)) if case["zero"] else rng.normal(size=len(p)) * case["size"]
    rest = meas - model - np.einsum("i,ijk->jk", guess[mask], jac[mask])
    rhs = j @ wm @ rest.sum(axis=1)
    if s[kept - 1] < 1e-7 * s[0] or (kept < k and s[kept] > 0.9 * s[kept - 1]):
        raise Discard()
    keep = [np.copy(x) for x in (guess, model, meas, jac, w)]
    got = loco.loco_correction_ng(guess, model, meas, jac, lengths(case), list(case["what"]), case["cut"], weights=w, LM_lambda=case["lam"])
    for x, y, what in zip((guess, model, meas, jac, w), keep, ("guess", "model", "measurement", "jacobian", "weights")):
        equal(x, y, f"{what} given by the caller")
    require(np.shape(got) == (k,), f"parameters of shape {np.shape(got)} instead of {(k,)}")
    want = vh[:kept].T @ ((u[:, :kept].T @ rhs) / s[:kept])
    close(got, want, "Gauss-Newton step", rtol=1e-6, atol=1e-9 * np.max(np.abs(rhs)) / s[kept - 1])
    if case["zero"] and not case["noise"] and kept == k and case["lam"] == 0:
        close(got, p[mask], "recovered parameters", rtol=1e-5, atol=1e-6 * s[0] / s[-1] * case["size"])
    return Info(k > 1, case["style"], case["weights"], "cut" if kept < k else "", "damped" if case["lam"] else "")


@st.composite
def set_case(draw):
    els = draw(lat.elements(min_size=4, max_size=10, need=("quad", "quad", "dip")))
    return dict(els=els, pos=draw(st.lists(st.integers(0, 30), min_size=1, max_size=5, unique=True)), split=draw(st.integers(0, 5)), r=draw(vec(5, 0.05)), skew=draw(st.booleans()), individuals=draw(st.booleans()), method=draw(st.sampled_from(["default", "add", "abs", "rel"])),
                comp=draw(st.sampled_from([None, True, False])), order=draw(st.sampled_from([None, 1, 0])), scalar=draw(st.booleans()))


@facet("C27", "set_correction", set_case(), quick=800, thorough=8000, rule="non-zero correction")
def check_set(case):
    spec = case["els"]
    mags = lat.of_kind(spec, "quad") + lat.of_kind(spec, "dip")
    SC = machine.make(dict(els=spec, regs=[], inj={}, apply=False))
    SC.register_magnets(np.array(sorted(mags)), CalErrorB=np.array([0.0, 0.1]))
    for o in mags:
        el = SC.RING[o]
        if el.BendingAngle if hasattr(el, "BendingAngle") else 0:
            if el.NomPolynomB[1] != 0:
                SC.register_magnets(np.array([o]), HCM=np.inf, CF=True)
    SC.apply_errors()
    ords = list(dict.fromkeys(lat.pick(mags, case["pos"])))
    other = copy.deepcopy(SC)
    kw = {}
    skew, order, method = case["skew"], 1, "add"
    if skew:
        kw["skewness"] = True
    if case["order"] is not None:
        kw["order"] = order = case["order"]
    if case["method"] != "default":
        kw["method"] = method = case["method"]
    comp = True
    if case["comp"] is not None:
        kw["dipole_compensation"] = comp = case["comp"]
    fams = [np.array(ords)] if not case["split"] or case["split"] >= len(ords) else [np.array(ords[:case["split"]]), np.array(ords[case["split"]:])]
    if case["individuals"]:
        r = np.array(case["r"][:len(ords)])
        if case["scalar"]:
            r = case["r"][0]
        out = loco.set_correction(SC, r, np.array(ords), **kw)
        per = [(o, x) for o, x in zip(ords, np.broadcast_to(r, len(ords)))]
    else:
        r = np.array(case["r"][:len(fams)])
        out = loco.set_correction(SC, r, fams, individuals=False, **kw)
        per = [(int(o), r[i]) for i, f in enumerate(fams) for o in f]
    require(out is SC, "returns another machine")
    plain = {o: np.array(getattr(SC.RING[o], "SetPointA" if skew else "SetPointB"))[order] for o, _ in per}
    for o, x in per:
        other.set_magnet_setpoints(o, -float(x), skew, order, method, dipole_compensation=comp)
        start = 0.0
        if method == "add" and (order > 0 or not comp):
            nominal = np.array(getattr(SC.RING[o], "NomPolynomA" if skew else "NomPolynomB"))[order]
            close(plain[o], nominal - x, f"setpoint of magnet {o}", rtol=1e-12, atol=1e-15 + start)
    unchanged(freeze_sc(other), freeze_sc(SC), "machine against single setpoint changes", rtol=1e-12, atol=1e-15)
    return Info(bool(np.any(np.array([x for _, x in per]) != 0)), "individual" if case["individuals"] else "families", method)


@st.composite
def select_case(draw):
    return dict(total=draw(st.integers(2, 200)), n=draw(st.integers(2, 60)))


@facet("C27", "select", select_case(), quick=300, thorough=3000, rule="every case")
def check_select(case):
    if case["n"] > case["total"]:
        raise Discard()
    total = np.arange(case["total"]) * 3 + 1
    got = loco.select_equally_spaced_elements(total, case["n"])
    require(len(got) >= case["n"] - 1 and got[0] == total[0] and set(got) <= set(total), f"{len(got)} elements for {case}")
    require(len(got) < 2 or len(set(np.diff(got))) == 1, "elements are not equally spaced")
    return Info(True)


@st.composite
def end_case(draw):
    c = draw(model_case())
    c.update(sel=draw(lat.idx_subset(1, 3)), err=draw(vec(3, 0.002)), bpms=draw(lat.idx_subset(3, 6)), h=draw(lat.idx_subset(2, 3)), v=draw(lat.idx_subset(2, 3)), mis=False, k=[])
    return c


@facet("C27", "end_to_end", end_case(), quick=120, thorough=4000, rule="optics error present", shards=4)
def check_end(case):
    """optics errors of chosen quadrupoles are found from the measured orbit response and removed"""
    SC, els, cors = ring_machine(case)
    for el in SC.RING:
        if hasattr(el, "CalErrorB"):
            el.CalErrorB = np.zeros_like(el.CalErrorB)
    SC.update_magnets()
    SC.RING = SC.RING  # no change of the lattice
    quads = lat.pick(lat.of_kind(els, "quad"), case["sel"])
    bpms = np.array(lat.pick(list(SC.ORD.BPM), case["bpms"]))
    cms = [np.array(lat.pick(cors, case[k]), dtype=int) for k in "hv"]
    k0 = {q: float(SC.RING[q].NomPolynomB[1]) for q in quads}
    if np.any(np.isnan(observe(expected_model(SC), "ORB", None, 1, bpms))):
        raise Discard()
    c_model = SCgetModelRM(SC, bpms, cms, trackMode="ORB", useIdealRing=False)
    jac = np.array([loco.generating_quads_response_matrices((q, SC, c_model, 1e-5, cms, bpms, 1e-4, "ORB", False, False, 1, "add", False, 1e3, None)) / 1e-4 for q in quads])
    for q, e in zip(quads, case["err"]):
        SC.RING[q].CalErrorB = np.array([0.0, e])
    SC.update_magnets()
    meas = loco.measure_closed_orbit_response_matrix(SC, bpms, cms)
    if np.any(np.isnan(meas)) or np.any(np.isnan(c_model)):
        raise Discard()
    a = jac.reshape(len(quads), -1).T
    s = np.linalg.svd(a, compute_uv=False)
    if s[-1] < 0.02 * s[0]:
        raise Discard()
    n = [len(quads), len(cms[0]) + len(cms[1]), 2 * len(bpms)]
    fit = loco.loco_correction_lm(np.zeros(sum(n)), c_model, meas, jac if len(jac) == sum(n) else np.concatenate((jac, np.zeros((sum(n) - len(jac),) + c_model.shape))), n, ["quads"], verbose=0)
    err = np.array([SC.RING[q].SetPointB[1] * e for q, e in zip(quads, case["err"])])
    size = np.max(np.abs(err))
    require(np.max(np.abs(fit - err)) <= 0.25 * size + 2e-4 * abs(list(k0.values())[0]), f"fitted {fit} for errors {err}")
    loco.set_correction(SC, fit, np.array(quads))
    left = np.array([SC.RING[q].PolynomB[1] - SC.IDEALRING[q].PolynomB[1] * (1 + case["dq"]) for q in quads])
    require(np.max(np.abs(left)) <= 0.3 * size + 2e-4 * abs(list(k0.values())[0]), f"errors after the correction {left}, before {err}")
    return Info(size > 1e-4)


@st.composite
def beat_case(draw):
    c = draw(model_case())
    c.update(where=draw(lat.idx_subset(1, 8)), dk=draw(vec(4, 0.01)), ref=draw(vec(4, 0.003)), plot=draw(st.sampled_from([False, False, False, True])), long=draw(st.booleans()))
    return c


@facet("C27", "beta_beat", beat_case(), quick=80, thorough=2000, rule="optics differ")
def check_beat(case):
    """rms of the relative differences of the beta functions, plane by plane"""
    import at
    SC, els, cors = ring_machine(case)
    rings = []
    for dk in (case["dk"], case["ref"]):
        ring = SC.IDEALRING.deepcopy()
        for i, q in enumerate(lat.of_kind(els, "quad")):
            ring[q].PolynomB[1] *= 1 + dk[i % 4]
        rings.append(ring if case["long"] else ring.disable_6d(copy=True))
    refs = np.array(sorted(lat.pick(list(range(len(els))), case["where"])))

    try:
        beat = at.get_optics(rings[0].deepcopy(), refs)[2].beta / at.get_optics(rings[1].deepcopy(), refs)[2].beta - 1
        twiss = at.get_optics(rings[1], refs)[2]
    except at.AtError:
        raise Discard()
    before = freeze_ring(rings[0])
    __import__("matplotlib.pyplot").pyplot.close("all")
    got = loco.model_beta_beat(rings[0], twiss, refs, plot=case["plot"])
    unchanged(before, freeze_ring(rings[0]), "ring")
    require(np.shape(got) == (2,), f"beta beating of shape {np.shape(got)}")
    close(np.array(got), [np.sqrt(sum(x * x for x in beat[:, p]) / len(refs)) for p in range(2)], "rms beta beating", rtol=1e-8, atol=1e-10)
    import matplotlib.pyplot as plt
    drawn = [np.column_stack(ln.get_data()) for n in plt.get_fignums() for a in plt.figure(n).axes for ln in a.lines]
    plt.close("all")
    require(len(drawn) == (2 if case["plot"] else 0), f"{len(drawn)} curves drawn")
    for p, xy in enumerate(drawn):
        close(xy, np.column_stack((rings[0].get_s_pos(refs), beat[:, p])), f"drawn beta beating in plane {p}", rtol=1e-8, atol=1e-10)
    return Info(np.max(np.abs(beat)) > 1e-4)
