"""C16: orbit and trajectory correction. Oracle: independent pseudo-inverse step, projection of the residual onto the reachable space, known solutions."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import lat
from pv.c15 import read, ring_machine, ring_machine_case
from pv.core import Discard, Info, close, equal, facet, freeze_element, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.correction.orbit_trajectory import correct

REST = ("IDEALRING", "INJ", "SIG", "ORD", "plot")


def state(SC):
    return dict(rest=freeze_sc(SC, REST), ring={i: freeze_element(e) for i, e in enumerate(SC.RING)})


def only_cms(before, SC, cms, rf=False):
    """nothing but the kicks of the given correctors (and the frequency) changed; returns the change of the frequency"""
    unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
    cms = [{int(c) for c in cm} for cm in cms]
    df = []
    for i, el in enumerate(SC.RING):
        now, old = freeze_element(el), copy.deepcopy(before["ring"][i])
        for plane, letter in enumerate("BA"):
            if i in cms[plane]:
                for d in (now, old):
                    for k in ("SetPoint" + letter, "Polynom" + letter):
                        require(np.ndim(d[k]) == 1, f"{k} of element {i} has shape {np.shape(d[k])}")
                        d[k] = d[k][1:]
                    if "KickAngle" in d:
                        d["KickAngle"] = np.array(d["KickAngle"], dtype=float)
                        d["KickAngle"][plane] = 0.0
        if rf and i in SC.ORD.RF:
            df.append(float(np.ravel(now["FrequencySetPoint"] - old["FrequencySetPoint"])[0]))
            for k in ("Frequency", "FrequencySetPoint"):
                now[k] = old[k] = 0.0
        unchanged(old, now, f"element {i}")
    return df


def setpoints(SC, cms):
    return np.concatenate([np.ravel(SC.get_cm_setpoints(cms[0], False)) if len(cms[0]) else [], np.ravel(SC.get_cm_setpoints(cms[1], True)) if len(cms[1]) else []])


def set_all(SC, cms, values):
    for plane in range(2):
        v = values[:len(cms[0])] if plane == 0 else values[len(cms[0]):]
        for c, x in zip(cms[plane], v):
            SC.set_cm_setpoints(int(c), float(x), bool(plane))


def true_response(SC, bpms, cms, d=1e-6):
    """central differences of the readings of a copy of the machine without limits"""
    other = copy.deepcopy(SC)
    for el in other.RING:
        if hasattr(el, "CMlimit"):
            el.CMlimit = np.array([np.inf, np.inf])
    cols = []
    for plane in range(2):
        for c in cms[plane]:
            c = int(c)
            s = float(np.ravel(other.get_cm_setpoints(c, bool(plane)))[0])
            r = []
            for sign in (1, -1):
                other.set_cm_setpoints(c, s + sign * d, bool(plane))
                r.append(read(other, bpms))
            other.set_cm_setpoints(c, s, bool(plane))
            cols.append((r[0] - r[1]) / (2 * d))
    return np.array(cols).T.reshape(-1, len(cols))


def filtered_inverse(m, alpha=0, num_removed=0):
    u, s, vh = np.linalg.svd(m, full_matrices=False)
    n = np.sum(s > 1e-14 * s[0]) if len(s) else 0
    keep = max(0, min(n, len(s) - num_removed))
    f = s[:keep] / (s[:keep] ** 2 + alpha ** 2)
    return vh[:keep].T @ (f[:, None] * u[:, :keep].T), u[:, :keep], s


@st.composite
def corr_case(draw, modes=("TBT", "ORB")):
    c = draw(ring_machine_case(sexts=(0.0, 1.0), modes=modes))
    c.update(limits=None, ap=None, bpms=draw(st.one_of(st.none(), lat.idx_subset(2, 8))), h=draw(lat.idx_subset(1, 3)), v=draw(lat.idx_subset(1, 3)), refform=draw(st.sampled_from(["none", "flat", "column"])),
             ref=draw(vec(4, 1e-4)), alpha=draw(st.sampled_from([0, 0, 0, 1.0, 10.0])), removed=draw(st.sampled_from([0, 0, 1])), args=draw(st.booleans()))
    return c


def prepare(case):
    SC, els, all_bpms, cors = ring_machine(case)
    bpms = all_bpms if case["bpms"] is None else np.array(lat.pick(list(all_bpms), case["bpms"]))
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    kw = dict(cm_ords=cms)
    if case["bpms"] is not None or case["args"]:
        kw["bpm_ords"] = bpms
    if case["alpha"]:
        kw["alpha"] = case["alpha"]
    if case["removed"]:
        kw["num_removed"] = case["removed"]
    n = 2 * len(bpms) * SC.INJ.nTurns
    ref = np.zeros(n)
    if case["refform"] != "none":
        ref = np.array([case["ref"][i % 4] for i in range(n)])
    return SC, bpms, cms, kw, ref


def form(ref, case):
    return dict(none=None, flat=ref.copy(), column=ref.copy()[:, None])[case["refform"]]


@st.composite
def step_case(draw):
    c = draw(corr_case(modes=("TBT", "ORB", "TBT")))
    c.update(limits=draw(st.sampled_from([None, None, 1e-4, 2e-5])), random_rm=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), disp=draw(st.sampled_from([0, 0, 1e6, 1e7])), rev=draw(st.booleans()))
    return c


@facet("C16", "step", step_case(), quick=160, thorough=4000, rule="non-zero correction")
def check_step(case):
    """a single step applies the regularised pseudo-inverse to the deviation from the reference"""
    SC, bpms, cms, kw, ref = prepare(case)
    if case["rev"]:
        cms = [c[::-1].copy() for c in cms]
        kw["cm_ords"] = cms
    rng = np.random.default_rng(case["seed"])
    rm = rng.normal(size=(len(ref), len(cms[0]) + len(cms[1]))) * 10 if case["random_rm"] else true_response(SC, bpms, cms)
    scale = case["disp"] if case["mode"] == "ORB" else 0
    if scale:
        rm = np.column_stack((rm, rng.normal(size=len(ref)) * 1e-8 * scale))
    inverse, _, s = filtered_inverse(rm, case["alpha"], case["removed"])
    if s[-1] < 1e-6 * s[0] or len(s) <= case["removed"]:
        raise Discard()
    start = read(SC, bpms)
    if np.any(np.isnan(start)):
        raise Discard()
    d = -inverse @ (start - ref)
    if np.max(np.abs(d[:len(cms[0]) + len(cms[1])])) > 3e-4:
        raise Discard()
    old = setpoints(SC, cms)
    lim = case["limits"] or np.inf
    want = np.clip(old + d[:len(old)], -lim, lim)
    before, keep = state(SC), rm.copy()
    arg = form(ref, case)
    if scale:
        kw["scaleDisp"] = scale
    try:
        out = correct(SC, rm, reference=arg, maxsteps=1, **kw)
    except RuntimeError:
        test = copy.deepcopy(SC)
        require(np.any(np.isnan(read(test, bpms))), "single step fails though the beam is not lost")
        raise Discard()
    require(out is SC, "returns another machine")
    equal(rm, keep, "response matrix given by the caller")
    if arg is not None:
        equal(np.ravel(arg), ref, "reference given by the caller")
    df = only_cms(before, SC, cms, bool(scale))
    close(setpoints(SC, cms), want, "corrector setpoints after one step", rtol=1e-6, atol=1e-7 * max(1e-4, np.max(np.abs(d[:len(old)]))))
    if scale:
        f = scale * d[-1]
        close(df, [f] * len(df), "change of the rf frequency", rtol=1e-6, atol=1e-6)
    return Info(np.max(np.abs(d)) > 1e-9, case["mode"], case["refform"], "dispersion" if scale else "", "limited" if np.any(np.abs(want) == lim) else "")


@st.composite
def target_case(draw):
    c = draw(corr_case(modes=("TBT", "ORB", "ORB")))
    c.update(theta=draw(vec(6, 5e-5)), eps=draw(st.sampled_from([1e-6, 1e-7])), exact=draw(st.booleans()), turns=1)
    return c


@facet("C16", "best_orbit", target_case(), quick=80, thorough=2000, rule="orbit needs correction")
def check_best(case):
    if case["exact"]:
        case.update(alpha=0, removed=0, refform="flat" if case["refform"] == "none" else case["refform"])
    SC, bpms, cms, kw, ref = prepare(case)
    theta = np.array([case["theta"][i % 6] for i in range(len(cms[0]) + len(cms[1]))])
    start = read(SC, bpms)
    if case["exact"]:
        other = copy.deepcopy(SC)
        set_all(other, cms, theta)
        ref = read(other, bpms)
    rm = true_response(SC, bpms, cms)
    if np.any(np.isnan(start)) or np.any(np.isnan(ref)) or np.any(np.isnan(rm)):
        raise Discard()
    inverse, u, s = filtered_inverse(rm, case["alpha"], case["removed"])
    if s[-1] < 0.02 * s[0] or s[0] < 0.1 or len(s) <= case["removed"] or np.max(np.abs(inverse @ (start - ref))) > 5e-4:
        raise Discard()
    before = state(SC)
    arg = form(ref, case)
    noise = 1e-8 if case["mode"] == "ORB" else 1e-12
    try:
        out = correct(SC, rm, reference=arg, eps=case["eps"], **kw)
    except RuntimeError:
        only_cms(before, SC, cms)
        require(case["alpha"] > 0, "correction with a faithful response matrix fails")
        return Info(True, "not converged")
    require(out is SC, "returns another machine")
    only_cms(before, SC, cms)
    end = read(SC, bpms)
    first, last = np.linalg.norm(u.T @ (start - ref)), np.linalg.norm(u.T @ (end - ref))
    tol = 10 * case["eps"] + 10 * noise + 1e-3 * first
    if case["alpha"]:
        require(last <= first * 1.05 + tol, f"deviation from the reference grows from {first} to {last}")
    else:
        require(last <= tol, f"remaining reachable deviation {last} from the reference (initially {first})")
        if case["exact"]:
            close(end, ref, "corrected readings", rtol=0, atol=tol)
            if len(s) == len(theta):
                close(setpoints(SC, cms), theta, "found corrector setpoints", rtol=0, atol=2 * tol / s[-1])
    # repeated: the correction stays where it is
    if not case["alpha"]:
        x = setpoints(SC, cms)
        correct(SC, rm, reference=arg, eps=case["eps"], **kw)
        close(setpoints(SC, cms), x, "setpoints after repeating the correction", rtol=0, atol=2 * tol / s[-1])
    return Info(first > 1e-6, case["mode"], "exact" if case["exact"] else "", "alpha" if case["alpha"] else "")


@st.composite
def disp_case(draw):
    c = draw(corr_case(modes=("ORB",)))
    c.update(theta=draw(vec(6, 3e-5)), df=draw(small(200.0)), scale=draw(st.sampled_from([1e6, 1e7, 1e8])), alpha=0, removed=0, bpms=None)
    c["ring"]["sext"] = 0.0
    return c


@facet("C16", "dispersion", disp_case(), quick=60, thorough=1200, rule="frequency error")
def check_dispersion(case):
    """orbit errors due to a wrong rf frequency are corrected by the frequency"""
    SC, bpms, cms, kw, ref = prepare(dict(case, refform="flat"))
    theta = np.array([case["theta"][i % 6] for i in range(len(cms[0]) + len(cms[1]))])
    f0 = float(np.ravel(SC.RING[SC.ORD.RF[0]].FrequencySetPoint)[0])
    other = copy.deepcopy(SC)
    set_all(other, cms, theta)
    ref = read(other, bpms)
    eta = []
    for s in (1, -1):
        other = copy.deepcopy(SC)
        other.set_cavity_setpoints(other.ORD.RF, f0 + s * 50.0, "Frequency")
        eta.append(read(other, bpms))
    eta = (eta[0] - eta[1]) / 100.0
    SC.set_cavity_setpoints(SC.ORD.RF, case["df"], "Frequency", "add")
    rm = np.column_stack((true_response(SC, bpms, cms), case["scale"] * eta))
    start = read(SC, bpms)
    if np.any(np.isnan(start)) or np.any(np.isnan(ref)) or np.any(np.isnan(rm)):
        raise Discard()
    norm = rm / np.linalg.norm(rm, axis=0)
    if np.linalg.svd(norm)[1][-1] < 0.05 or np.max(np.abs((np.linalg.pinv(rm) @ (start - ref))[:-1])) > 3e-4:
        raise Discard()
    before = state(SC)
    out = correct(SC, rm, reference=form(ref, dict(refform="flat" if case["refform"] == "none" else case["refform"])), eps=1e-6, scaleDisp=case["scale"], **kw)
    require(out is SC, "returns another machine")
    df = only_cms(before, SC, cms, True)
    first = np.max(np.abs(start - ref))
    close(read(SC, bpms), ref, "corrected readings", rtol=0, atol=3e-7 + 2e-3 * first)
    e = 2e-3 + 3e-7 / max(first, 1e-7)
    close(df[0], -case["df"], "correction of the rf frequency", rtol=0.02, atol=0.3 + 0.02 * np.max(np.abs(theta)) / 1e-5 + abs(case["df"]) * e)
    return Info(abs(case["df"]) > 1 and first > 1e-6)


@st.composite
def bad_case(draw):
    c = draw(corr_case())
    c.update(how=draw(st.sampled_from(["rows", "cols", "ref", "noise", "sign", "lost", "dispcols", "gain"])), extra=draw(st.sampled_from([-1, 1, 2])), turns=1, alpha=0, removed=0, lim=draw(st.sampled_from([None, 1e-4])))
    return c


@facet("C16", "fails", bad_case(), quick=120, thorough=2000, rule="every case")
def check_fails(case):
    how = case["how"]
    SC, bpms, cms, kw, ref = prepare(case)
    n_cm = len(cms[0]) + len(cms[1])
    rm, arg, exc = np.ones((len(ref), n_cm)) * 0.1 + np.eye(len(ref), n_cm), form(ref, case), ValueError
    if how == "rows":
        rm = np.ones((len(ref) + case["extra"], n_cm))
        arg = None if arg is None else np.zeros(len(rm))
    elif how == "cols":
        rm = np.ones((len(ref), n_cm + case["extra"]))
    elif how == "dispcols":
        kw["scaleDisp"] = 1e6
    elif how == "ref":
        arg = np.zeros(len(ref) + case["extra"])
    else:
        exc = RuntimeError
        rm = true_response(SC, bpms, cms)
        start = read(SC, bpms)
        _, _, s = filtered_inverse(rm)
        if np.any(np.isnan(rm)) or np.any(np.isnan(start)) or s[-1] < 0.02 * s[0]:
            raise Discard()
        if how == "noise":  # never stable
            for b in bpms:
                SC.RING[b].Noise = SC.RING[b].NoiseCO = np.array([1e-4, 1e-4])
            kw["eps"] = 1e-7
        elif how in ("sign", "gain"):  # diverges
            if np.linalg.norm(filtered_inverse(rm)[1].T @ (start - ref)) < 1e-5:
                raise Discard()
            rm = rm * (-1 if how == "sign" else 0.3)
            kw["eps"] = 1e-6
        else:
            if case["mode"] == "ORB":
                raise Discard()
            p = lat.pick(list(bpms), [case["extra"] + 5])[0]
            SC.RING[p].EApertures = np.array([1e-9, 1e-9])
            SC.INJ.Z0 = np.array([1e-4, 0, 1e-4, 0, 0, 0])
            if p == bpms[-1]:  # the beam is lost behind its last reading
                raise Discard()
    before, keep = state(SC), rm.copy()
    raises(exc, f"orbit correction ({how})", correct, SC, rm, reference=arg, **kw)
    equal(rm, keep, "response matrix given by the caller")
    only_cms(before, SC, cms if exc is RuntimeError else [[], []])
    require(np.all(np.isfinite(setpoints(SC, cms))), f"corrector setpoints {setpoints(SC, cms)} after a failed correction ({how})")
    return Info(True, how)


@st.composite
def limit_case(draw):
    c = draw(corr_case())
    c.update(limits=draw(st.sampled_from([1e-4, 3e-5, 1e-5])), theta=draw(vec(6, 3e-4)), turns=1, steps=draw(st.integers(1, 12)))
    return c


@facet("C16", "limits", limit_case(), quick=60, thorough=1200, rule="some corrector at its limit")
def check_limits(case):
    SC, bpms, cms, kw, ref = prepare(case)
    other = copy.deepcopy(SC)
    for el in other.RING:
        if hasattr(el, "CMlimit"):
            el.CMlimit = np.array([np.inf, np.inf])
    set_all(other, cms, np.array([case["theta"][i % 6] for i in range(len(cms[0]) + len(cms[1]))]))
    ref, rm = read(other, bpms), true_response(SC, bpms, cms)
    if np.any(np.isnan(ref)) or np.any(np.isnan(rm)) or np.any(np.isnan(read(SC, bpms))):
        raise Discard()
    before = state(SC)
    try:
        correct(SC, rm, reference=ref, maxsteps=case["steps"], **kw)
    except RuntimeError:
        pass
    only_cms(before, SC, cms)
    x = setpoints(SC, cms)
    require(np.all(np.abs(x) <= case["limits"] * (1 + 1e-12)), f"corrector setpoints {x} exceed the limit")
    return Info(np.any(np.abs(x) > case["limits"] * (1 - 1e-9)))


@st.composite
def stop_case(draw):
    c = draw(corr_case(modes=("TBT", "ORB")))
    c.update(turns=1, alpha=0, removed=0, gain=draw(st.sampled_from([1.0, 1.0, 0.7, 0.4, 0.2, 1.5, 1.8, 2.3])), eps=draw(st.sampled_from([1e-4, 1e-5, 1e-6, 1e-7, 1e-8])), maxsteps=draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12, 30])),
             target=draw(st.sampled_from([0, 0, 1e-3, 1e-4, 3e-5])), plain=draw(st.booleans()))
    return c


@facet("C16", "stopping", stop_case(), quick=120, thorough=3000, rule="more than one step")
def check_stopping(case):
    """the loop ends when the rms readings of both planes no longer vary (last five readings, by eps), with fewer allowed steps over the steps; else it fails"""
    SC, bpms, cms, kw, ref = prepare(case)
    rm = true_response(SC, bpms, cms) / case["gain"]
    s = np.linalg.svd(rm)[1] if np.all(np.isfinite(rm)) else [0]
    if len(s) == 0 or s[-1] < 0.02 * s[0] or s[0] < 0.1:
        raise Discard()
    model, inverse = copy.deepcopy(SC), filtered_inverse(rm)[0]
    n, eps, target, window = len(bpms), case["eps"], case["target"], 5
    r = read(model, bpms)
    hist, outcome, lost = [], "unstable", bool(np.any(np.isnan(r)))

    def rms(r):
        return [np.sqrt(np.mean(r[:n] ** 2)), np.sqrt(np.mean(r[n:] ** 2))]

    def steady(k, hist):
        if len(hist) < k:
            return False
        spread = max(np.std(np.array(hist[-k:]), axis=0))
        if abs(spread - eps) < 0.02 * eps + 1e-10:
            raise Discard()
        return spread < eps

    if lost:
        raise Discard()
    hist.append(rms(r))
    steps = 0
    for steps in range(1, case["maxsteps"] + 1):
        d = inverse @ (r - ref)
        if np.max(np.abs(d)) > 5e-4:
            raise Discard()
        x = setpoints(model, cms) - d
        if np.max(np.abs(x)) > 2e-3:
            raise Discard()
        set_all(model, cms, x)
        r = read(model, bpms)
        if np.any(np.isnan(r)):
            raise Discard()
        hist.append(rms(r))
        if target and abs(max(hist[-1]) - target) < 1e-3 * target:
            raise Discard()
        if max(hist[-1]) < target and steady(min(window, case["maxsteps"]), hist):
            outcome = "target"
            break
        if steady(window, hist):
            outcome = "converged"
            break
    else:
        if case["maxsteps"] == 1 or steady(min(window, case["maxsteps"]), hist):
            outcome = "steps"
    before, arg = state(SC), form(ref, case)
    if target or not case["plain"]:
        kw["target"] = target
    kw.update(eps=eps, maxsteps=case["maxsteps"])
    if outcome == "unstable":
        raises(RuntimeError, "orbit correction that does not settle in its allowed steps", correct, SC, rm, reference=arg, **kw)
    else:
        require(correct(SC, rm, reference=arg, **kw) is SC, "returns another machine")
    only_cms(before, SC, cms)
    close(setpoints(SC, cms), setpoints(model, cms), f"corrector setpoints at the end of the correction ({outcome})", rtol=1e-5, atol=1e-9 if case["mode"] == "TBT" else 1e-8)
    return Info(steps > 1, outcome, case["mode"], "long" if steps > 6 else "")
