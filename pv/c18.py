"""C18: beam-based alignment. Oracle: the true magnetic centres seen by BPMs next to thin magnets; independent flags and bookkeeping."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat
from pv.core import Discard, Info, close, equal, facet, fail, freeze_element, freeze_sc, raises, require, unchanged
from pv.lat import C0, num, small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction.bba import apply_bpm_offsets, fake_bba, is_bba_errored, trajectory_bba

REST = ("IDEALRING", "INJ", "SIG", "ORD", "plot")
THIN = 0.02


def ring_elements(case):
    """FODO ring with thin quadrupoles right next to the BPMs, and thin skew quadrupoles/sextupoles at the other side of the BPM"""
    out = []
    for e in lat.ring_elements(case["ring"]):
        e = dict(e)
        if e["t"] == "quad":
            e["k"] *= 0.3 / THIN
            e["L"] = THIN
            if case.get("cf"):  # combined-function magnet
                e.update(t="dip", th=case["cf"])
        if e["name"][:3] in ("DA_", "DD_"):
            continue
        out.append(e)
        if e["t"] == "bpm" and case["kind"] != "quad":
            out.append(dict(t="mult", name="X" + e["name"], L=THIN, pa=[0.0, 0.0, 0.0], pb=[0.0, 0.0, 0.0]))
    if case["side"]:  # BPM before its quadrupole
        i = 0
        while i < len(out):
            if out[i]["t"] == "bpm":
                j = next(k % len(out) for k in range(i - 1, i - len(out), -1) if out[k]["name"][0] == "Q")
                if j < i:
                    out.insert(j, out.pop(i))
            i += 1
    circ = sum(e.get("L", 0) for e in out)
    for e in out:
        if e["t"] == "rf":
            e["f"] = e["h"] * C0 / circ
    return out


@st.composite
def bba_case(draw):
    kind = draw(st.sampled_from(["quad", "quad", "quad", "skew", "sext"]))
    planes = 1 if kind == "sext" else draw(st.sampled_from([2, 2, 1]))
    return dict(ring=draw(lat.ring_spec(sexts=(0.0, 0.5))), kind=kind, side=draw(st.booleans()) if kind == "quad" else False, planes=planes, pos=draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)), noise=draw(st.sampled_from([0.0, 1e-9, 1e-8])),
                spread=draw(st.sampled_from([2e-4, 4e-4, 1e-5, 8e-4])), mag=draw(st.sampled_from([0.0, 3e-5, 1e-4])), sup=draw(st.booleans()), z0=draw(vec(4, 5e-5)), n_steps=draw(st.sampled_from([None, None, 5, 6])),
                down=draw(st.sampled_from([None, 4, 8, 30])), strengths=draw(st.sampled_from([None, [0.95, 1.05], [0.9, 1.0, 1.1], [0.97, 1.04]])), phase=draw(st.sampled_from([None, None, [0.9, 1.0, 1.1], [1.0, 0.95]])), form=draw(st.booleans()),
                ap=draw(st.sampled_from([None, None, 2e-3])), angle=draw(st.sampled_from([None, [5e-4, 5e-4], [9e-4, 2e-4]])), dark=draw(st.sampled_from([False] * 9 + [True])),
                cf=draw(st.sampled_from([None, None, 1e-4, -5e-5, 2e-4])) if kind == "quad" else None, comp=draw(st.booleans()), hcm=draw(st.booleans()),
                set=draw(st.lists(num(-1, 1, 2), min_size=1, max_size=4)), extra=draw(st.sampled_from([0.0, 0.0, 0.3, -0.2])))


def make(case):
    els = ring_elements(case)
    if case["ap"]:
        for e in els:
            if e["t"] in ("quad", "dip"):
                e["EAp"] = [case["ap"] * 1.5] * 2
    SC = SimulatedCommissioning(lat.build(els))
    bpms, quads = np.array(lat.of_kind(els, "bpm")), np.array([i for i, e in enumerate(els) if e["name"][0] == "Q"])
    SC.register_bpms(bpms, Offset=np.ones(2) * case["spread"], Noise=np.ones(2) * case["noise"])
    SC.register_magnets(quads, MagnetOffset=np.ones(3) * case["mag"], CalErrorB=np.array([0, 1e-3]), **(dict(CF=True) if case.get("cf") else {}), **(dict(HCM=1e-2) if case.get("cf") and (case["comp"] or case["hcm"]) else {}))
    extra = np.array([i for i, e in enumerate(els) if e["name"].startswith("XBPM")], dtype=int)
    if len(extra):
        SC.register_magnets(extra, MagnetOffset=np.ones(3) * case["mag"])
        if case["extra"]:
            SC.set_magnet_setpoints(extra, case["extra"] * (1 if case["kind"] == "skew" else 1000.0) * 0.05, case["kind"] == "skew", 1 if case["kind"] == "skew" else 2, "abs")
    if case["sup"]:
        SC.register_supports(np.array([[2], [len(els) // 2]]), "Girder", Offset=np.ones(3) * 3e-5)
    SC.register_cavities(np.array(lat.of_kind(els, "rf")))
    SC.apply_errors()
    for i, q in enumerate(quads):  # not at the design
        SC.set_magnet_setpoints(q, 1 + 0.01 * case["set"][i % len(case["set"])], False, 1, "rel")
    SC.INJ.nTurns = 2
    SC.INJ.Z0 = np.array(case["z0"] + [0.0, 0.0])
    mags = {}
    for b in bpms:
        if case["kind"] != "quad":
            mags[int(b)] = int(b) + 1
        else:
            n = int(b) + (1 if case["side"] else -1)
            if 0 <= n < len(els) and els[n]["name"][0] == "Q":
                mags[int(b)] = n
    return SC, els, bpms, quads, mags


def true_offsets(SC, bo, mo):
    """position of the magnetic centre relative to the zero of the BPM"""
    out = np.empty(bo.shape)
    for (n, j), b in np.ndenumerate(bo):
        m = SC.RING[mo[n, j]]
        out[n, j] = m.MagnetOffset[n] + m.SupportOffset[n] - SC.RING[b].Offset[n] - SC.RING[b].SupportOffset[n]
    return out


def scanned(SC, bo, angle):
    """half of the range of positions at the BPMs when the injection is varied"""
    out = np.empty(bo.shape)
    for n in range(bo.shape[0]):
        z = np.tile(SC.INJ.Z0.reshape(6, 1), (1, 2))
        z[2 * n:2 * n + 2] += np.outer(angle, [1, -1])
        x = beamref.track(SC.RING, z, 1, bo[n])[2 * n, :, :, 0]
        out[n] = np.abs(x[0] - x[1]) / 2
    return np.maximum(np.nan_to_num(out, nan=1e-9), 1e-9)


def expected(SC, bo, mo, angle, whole=False):
    """reading of the BPMs when the varied beam passes the middle of the magnets at their centres (linear optics); whole: bending is
    varied too, the kick vanishes off the centre"""
    out = np.empty(bo.shape)
    for (n, j), b in np.ndenumerate(bo):
        m = mo[n, j]
        z = np.tile(SC.INJ.Z0.reshape(6, 1), (1, 2))
        z[2 * n:2 * n + 2] += np.outer(angle, [1, -1])
        x = [beamref.track(SC.RING, z, 1, [k])[2 * n, :, 0, 0] for k in (b, m, m + 1)]
        shift = SC.RING[m].BendingAngle / SC.RING[m].NomPolynomB[1] / SC.RING[m].Length if whole and n == 0 else 0
        middle = (x[1] + x[2]) / 2 - SC.RING[m].MagnetOffset[n] - SC.RING[m].SupportOffset[n] + shift
        t = middle[0] / (middle[0] - middle[1])
        out[n, j] = x[0][0] + t * (x[0][1] - x[0][0]) - SC.RING[b].Offset[n] - SC.RING[b].SupportOffset[n] + shift
    return out


def passing(SC, bo, angle):
    """scanned(), with the injection scaled down by steps of 20 % until the beam passes the last of the BPMs; zero where it does not come much further"""
    out = np.zeros(bo.shape)
    for n in range(bo.shape[0]):
        for k in range(20):
            z = np.tile(SC.INJ.Z0.reshape(6, 1), (1, 2))
            z[2 * n:2 * n + 2] += 0.8 ** k * np.outer(angle, [1, -1])
            x = beamref.track(SC.RING, z, 1, [bo[n, -1]])
            if not np.any(np.isnan(x)):
                if np.any(np.isnan(beamref.track(SC.RING, z, 1, [b for b in SC.ORD.BPM if b > bo[n, -1]][:6]))):
                    break  # lost right behind
                out[n] = scanned(SC, bo[n:n + 1] if n == 0 else bo, 0.8 ** k * angle)[n]
                break
    return out


def state(SC):
    return dict(rest=freeze_sc(SC, REST), ring={i: freeze_element(e) for i, e in enumerate(SC.RING)})


def only_offsets(before, SC, want, rtol=1e-12, atol=1e-15):
    """want: {(BPM, plane): expected offset}; everything else is as it was"""
    unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
    for i, el in enumerate(SC.RING):
        now, old = freeze_element(el), copy.deepcopy(before["ring"][i])
        for n in range(2):
            if (i, n) in want:
                close(now["Offset"][n], want[i, n], f"offset of BPM {i} in plane {n}", rtol=1e-9, atol=1e-12)
                now["Offset"][n] = old["Offset"][n] = 0.0
        unchanged(old, now, f"element {i}", rtol=rtol, atol=atol)


def flags(offsets, errors):
    o, e = np.asarray(offsets, dtype=float), np.asarray(errors, dtype=float)
    out = np.zeros(o.shape, dtype=bool)
    for i, x in np.ndenumerate(o):
        out[i] = x != x or abs(x) > 1.5e-3 or abs(x) < 2.5 * e[i]
    return out


@facet("C18", "centre", bba_case(), quick=64, thorough=1500, rule="some offset found")
def check_centre(case):
    SC, els, bpms, quads, mags = make(case)
    chosen = lat.pick([b for b in bpms if int(b) in mags and 2 <= b < len(els) - 20], case["pos"])
    if not chosen:
        raise Discard()
    bo = np.array([chosen] * case["planes"])
    mo = np.array([[mags[int(b)] for b in chosen]] * case["planes"])
    kw = {}
    if case["n_steps"]:
        kw["n_steps"] = case["n_steps"]
    kw["num_downstream_bpms"] = min(case["down"] or len(bpms), len(bpms))
    if case["kind"] == "quad":
        s = case["strengths"]
    else:
        s = [-1.0, 1.0] if case["kind"] == "skew" else [-1000.0, 1000.0]
        if case["strengths"] and len(case["strengths"]) == 3:
            s.insert(1, 0.2 * s[1])
        kw.update(setpoint_method="abs", skewness=case["kind"] == "skew")
    if case["kind"] == "sext":
        kw.update(magnet_order=2, fit_order=2)
    if s:
        s = np.array(s)
        kw["magnet_strengths"] = np.tile(s, bo.shape + (1,)) if case["form"] else s
    if case["phase"]:
        kw.update(q_ord_phase=np.array([quads[1]]), q_ord_setpoints=np.array(case["phase"]))
    if case.get("cf") and not case["comp"]:
        kw["dipole_compensation"] = False
    if case["angle"]:
        kw["max_injection_pos_angle"] = np.array(case["angle"])
    if case["dark"]:
        SC.RING[0].RApertures = np.array([-1e-9, 1e-9, -1e-9, 1e-9])
        SC.INJ.Z0 = np.array([1e-2, 0, 1e-2, 0, 0, 0])
    want, reach = true_offsets(SC, bo, mo), scanned(SC, bo, case["angle"] or [9e-4, 9e-4])
    passing_reach = passing(SC, bo, np.array(case["angle"] or [9e-4, 9e-4])) if case["ap"] else reach
    SC0 = copy.deepcopy(SC)
    launched, z0 = [], SC.INJ.Z0.copy()
    SC.INJ.postFun = lambda tracked: (launched.append(SC.INJ.Z0.copy()), tracked)[1]
    before = state(SC)
    args = copy.deepcopy(kw), bo.copy(), mo.copy()
    out, offsets, errors = trajectory_bba(SC, bo, mo, **kw)
    require(out is SC, "returns another machine")
    require(np.shape(offsets) == bo.shape and np.shape(errors) == bo.shape, f"shape of the offsets {np.shape(offsets)}")
    equal(bo, args[1], "BPM ordinates given by the caller")
    equal(mo, args[2], "magnet ordinates given by the caller")
    for k, v in args[0].items():
        if isinstance(v, np.ndarray):
            equal(kw[k], v, f"{k} given by the caller")
    bad = flags(offsets, errors)
    most = np.tile(case["angle"] or [9e-4, 9e-4], 3) * np.repeat([1, case["planes"] > 1, 0], 2)
    for z in launched:  # one plane at a time, within the given range
        require(np.all(np.abs(z - z0) <= most * (1 + 1e-9) + 1e-15) and (np.all(z[:2] == z0[:2]) or np.all(z[2:4] == z0[2:4])), f"injection varied by {z - z0}, at most {most} in one plane")
    if case["ap"] and not case["phase"] and np.min(passing_reach) > 0:  # varied over a range which passes the last of the BPMs
        z = z0[:, None] + np.outer(launched[-1] - z0, [1, -1])
        require(not np.any(np.isnan(beamref.track(SC0.RING, z, 1, [bo[-1, -1]]))), f"positions measured with an injection varied by {launched[-1] - z0}, which does not reach the last of the BPMs")
    moved = {(int(b), n): before["ring"][int(b)]["Offset"][n] + offsets[n, j] for (n, j), b in np.ndenumerate(bo) if not bad[n, j]}
    only_offsets(before, SC, moved)
    if case["dark"]:
        require(np.all(bad), "offsets found without any beam")
        return Info(False, "no beam")
    if not case["phase"]:  # the optics before the BPM stay as they are
        better = expected(SC0, bo, mo, np.array(case["angle"] or [9e-4, 9e-4]) * 1e-2, case["cf"] and not case["comp"])
        want = np.where(np.isnan(better) | (reach < 1e-5), want, better)
    n_found = 0
    for (n, j), b in np.ndenumerate(bo):
        if np.isnan(offsets[n, j]):
            continue
        n_found += 1
        if reach[n, j] < (1e-4 if case["cf"] else 1e-5):  # far extrapolation
            continue
        tol = 8e-6 + 40 * case["noise"] + 0.02 * abs(want[n, j]) + 6 * errors[n, j] + (1.5e-5 if case["kind"] == "sext" else 0)
        tol += THIN * 4e-3 * (abs(want[n, j]) + 1e-4) / reach[n, j]  # beam passes the magnet at an angle
        require(abs(offsets[n, j] - want[n, j]) <= tol, f"magnetic centre found at {offsets[n, j]} +- {errors[n, j]} instead of {want[n, j]} (BPM {b}, plane {n})")
    if case["kind"] == "quad" and not case["cf"] and not case["ap"] and not case["phase"] and np.all(np.isfinite(offsets)) and np.min(reach) > 2e-4:
        close(offsets, want, "offsets found without apertures", rtol=0, atol=4e-6 + 100 * case["noise"] + (1e-5 if case["ring"]["sext"] else 0))
    # beam is seen everywhere: all the centres are found
    if case["kind"] == "quad" and not case["phase"] and np.min(passing_reach) > 1e-4:
        require(n_found == bo.size, f"{bo.size - n_found} of {bo.size} centres not found")
    return Info(n_found, case["kind"], "apertures" if case["ap"] else "", "scaled down" if np.any(passing_reach < 0.9 * reach) else "", "phase" if case["phase"] else "", f"combined function, {'compensated' if case['comp'] else 'not compensated'}" if case["cf"] else "", f"planes {case['planes']}")


@st.composite
def noisy_case(draw):
    c = draw(bba_case())
    c.update(kind="quad", dark=False, ap=None, cf=None, noise=draw(st.sampled_from([1e-7, 1e-6, 3e-6])), side=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), steps=draw(st.sampled_from([None, None, 12, 20])))
    return c


@facet("C18", "noisy", noisy_case(), quick=24, thorough=600, rule="all centres found", shards=8)
def check_noisy(case):
    """all the centres are found with noise far below the varied positions"""
    SC, els, bpms, quads, mags = make(case)
    chosen = lat.pick([b for b in bpms if int(b) in mags and 2 <= b < len(els) - 20], case["pos"])
    if not chosen:
        raise Discard()
    bo, mo = np.array([chosen] * case["planes"]), np.array([[mags[int(b)] for b in chosen]] * case["planes"])
    want, reach = expected(SC, bo, mo, [9e-4, 9e-4]), scanned(SC, bo, [9e-4, 9e-4])
    np.random.seed(case["seed"])
    kw = dict(n_steps=case["steps"]) if case["steps"] else {}
    out, offsets, errors = trajectory_bba(SC, bo, mo, **kw)
    if np.min(reach) < 2e-4:
        raise Discard()
    tol = np.full(bo.shape, 4e-6 + 10 * case["noise"] + (1e-5 if case["ring"]["sext"] else 0))
    for (n, j), b in np.ndenumerate(bo):
        require(abs(offsets[n, j] - want[n, j]) <= tol[n, j], f"magnetic centre found at {offsets[n, j]} +- {errors[n, j]} instead of {want[n, j]} (BPM {b}, plane {n}, noise {case['noise']})")
    return Info(True, case["noise"], f"planes {case['planes']}")


@st.composite
def stop_case(draw):
    c = draw(bba_case())
    c.update(kind="quad", dark=False, ap=None, down=draw(st.integers(2, 6)), at=draw(st.integers(0, 30)), noise=draw(st.sampled_from([0.0, 1e-7, 1e-6, 1e-5])))
    return c


@facet("C18", "stop", stop_case(), quick=40, thorough=800, rule="some offset found", shards=8)
def check_stop(case):
    """beam lost after the last BPM in use: nothing changes"""
    SC, els, bpms, quads, mags = make(case)
    chosen = sorted(lat.pick([b for i, b in enumerate(bpms[:len(bpms) - case["down"] - 1]) if int(b) in mags and b > 2], case["pos"]))
    if not chosen:
        raise Discard()
    bo, mo = np.array([chosen] * case["planes"]), np.array([[mags[int(b)] for b in chosen]] * case["planes"])
    kw = dict(num_downstream_bpms=case["down"], n_steps=case["n_steps"] or 10)
    if case["strengths"]:
        kw["magnet_strengths"] = np.array(case["strengths"])
    if case["angle"]:
        kw["max_injection_pos_angle"] = np.array(case["angle"])
    last = list(bpms).index(chosen[-1]) + case["down"]  # first BPM not in use
    stop = next(i for i in range(bpms[last - 1] + 1, len(els)) if i == len(els) - 1 or case["at"] == 0 or i >= bpms[last])
    other = copy.deepcopy(SC)
    other.RING[stop].RApertures = np.array([1.0, 2.0, 1.0, 2.0])
    results = []
    for machine in (SC, other):
        np.random.seed(case["at"])
        results.append(trajectory_bba(machine, bo, mo, **copy.deepcopy(kw)))
    a, b = results
    for x, y, what in ((a[1], b[1], "offsets"), (a[2], b[2], "their errors")):
        close(y, x, f"{what} with the beam lost behind the last BPM in use", rtol=1e-6, atol=1e-9)
    for n in bo.ravel():
        close(other.RING[n].Offset, SC.RING[n].Offset, f"offset of BPM {n}", rtol=1e-6, atol=1e-9)
    return Info(np.any(~np.isnan(a[1])), f"BPMs {len(chosen)}")


@st.composite
def apply_case(draw):
    val = st.one_of(st.sampled_from([None, 1.5e-3, -1.5e-3, 1.4999e-3, -1.5001e-3, 0.0, 2e-3]), small(1.6e-3), small(1e-4))
    err = st.one_of(st.sampled_from([0.0, None, 1e-6]), small(1e-3).map(abs), small(1e-4).map(abs))
    planes, n = draw(st.integers(1, 2)), draw(st.integers(1, 4))
    return dict(ring=draw(lat.ring_spec(sexts=(0.0,))), planes=planes, n=n, start=draw(st.integers(0, 10)), off=draw(st.lists(val, min_size=planes * n, max_size=planes * n)), err=draw(st.lists(err, min_size=planes * n, max_size=planes * n)),
                edge=draw(st.booleans()), per_plane=draw(st.booleans()))


def nan_array(values, shape):
    return np.array([np.nan if v is None else v for v in values], dtype=float).reshape(shape)


@facet("C18", "apply", apply_case(), quick=250, thorough=5000, rule="accepted and refused offsets")
def check_apply(case):
    els = lat.ring_elements(case["ring"])
    SC = SimulatedCommissioning(lat.build(els))
    bpms = np.array(lat.of_kind(els, "bpm"))
    SC.register_bpms(bpms, Offset=np.ones(2) * 1e-4, Roll=1e-3, CalError=np.ones(2) * 0.1)
    SC.apply_errors()
    shape = (case["planes"], case["n"])
    off, err = nan_array(case["off"], shape), nan_array(case["err"], shape)
    if case["edge"]:  # just above and below the significance
        off = np.where(np.isnan(err), off, 2.5 * np.nan_to_num(err) * (1 + 1e-6 * (-1) ** np.arange(off.size).reshape(shape)) * np.where(off < 0, -1, 1))
    rows = [[bpms[(case["start"] + i + (2 * n if case["per_plane"] else 0)) % len(bpms)] for i in range(case["n"])] for n in range(case["planes"])]
    bo = np.array(rows)
    bad = flags(off, err)
    got = is_bba_errored(off.copy(), err.copy())
    require(np.shape(got) == shape and np.all(np.asarray(got, dtype=bool) == bad), f"failures {got} instead of {bad} for {off}, {err}")
    before, keep = state(SC), (off.copy(), err.copy(), bo.copy())
    out = apply_bpm_offsets(SC, bo, off, err)
    require(out is SC, "returns another machine")
    for a, b in zip((off, err, bo), keep):
        equal(a, b, "arrays given by the caller")
    only_offsets(before, SC, {(int(b), n): before["ring"][int(b)]["Offset"][n] + off[n, j] for (n, j), b in np.ndenumerate(bo) if not bad[n, j]}, rtol=0, atol=0)
    return Info(np.any(bad) and not np.all(bad), f"planes {case['planes']}")


@st.composite
def fake_case(draw):
    planes, n = draw(st.integers(1, 2)), draw(st.integers(1, 8))
    return dict(ring=draw(lat.ring_spec(sexts=(0.0,))), planes=planes, n=n, start=draw(st.integers(0, 10)), flags=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=planes * n, max_size=planes * n))),
                fake=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 5e-5, 1e-6, 1e-3]), min_size=2, max_size=2))), ints=draw(st.booleans()), sup=draw(st.booleans()), mag=draw(st.sampled_from([0.0, 1e-4])), shift=draw(st.integers(0, 3)))


@facet("C18", "fake", fake_case(), quick=250, thorough=5000, rule="some BPMs reassigned")
def check_fake(case):
    els = lat.ring_elements(case["ring"])
    SC = SimulatedCommissioning(lat.build(els))
    bpms, quads = np.array(lat.of_kind(els, "bpm")), np.array(lat.of_kind(els, "quad"))
    SC.register_bpms(bpms, Offset=np.ones(2) * 1e-4, Roll=1e-3, CalError=np.ones(2) * 0.1)
    SC.register_magnets(quads, MagnetOffset=np.ones(3) * case["mag"])
    if case["sup"]:
        SC.register_supports(np.array([[2, 30], [20, 50]]), "Girder", Offset=np.ones(3) * 1e-4)
    SC.apply_errors()
    shape = (case["planes"], case["n"])
    bo = np.array([[bpms[(case["start"] + i + case["shift"] * n) % len(bpms)] for i in range(case["n"])] for n in range(case["planes"])])
    mo = np.array([[quads[(case["start"] + i) % len(quads)] for i in range(case["n"])]] * case["planes"])
    kw = {}
    bad = np.ones(shape, dtype=bool)
    if case["flags"] is not None:
        bad = np.array(case["flags"]).reshape(shape)
        kw["errors"] = bad.astype(int) if case["ints"] else bad.copy()
    if case["fake"] is not None:
        kw["fake_offset"] = np.array(case["fake"])[:case["planes"]]
    before = state(SC)
    if not kw:
        raises(ValueError, "emulated alignment without errors and offsets", fake_bba, SC, bo, mo)
        only_offsets(before, SC, {})
        return Info(False, "rejected")
    deviation = -true_offsets(SC, bo, mo)
    size = kw.get("fake_offset")
    if size is None:
        size = np.array([np.sqrt(np.mean(d[~f] ** 2)) if not np.all(f) else np.nan for d, f in zip(deviation, bad)])
    keep = copy.deepcopy(kw)
    out = fake_bba(SC, bo, mo, **kw)
    require(out is SC, "returns another machine")
    for k in keep:
        equal(kw[k], keep[k], f"{k} given by the caller")
    moved, n = {}, 0
    for (p, j), b in np.ndenumerate(bo):
        if bad[p, j] and not np.isnan(size[p]):
            now = -true_offsets(SC, bo[:, j:j + 1], mo[:, j:j + 1])[p, 0]
            require(abs(now) <= 2 * size[p] * (1 + 1e-9) + 1e-15, f"BPM {b} plane {p} is {now} away from the magnetic centre, allowed {2 * size[p]}")
            if size[p]:
                require(now != deviation[p, j], f"BPM {b} plane {p} not reassigned")
            moved[int(b), p] = SC.RING[b].Offset[p]
            n += 1
    only_offsets(before, SC, moved, rtol=0, atol=0)
    return Info(n, "re-estimated" if case["fake"] is None else "given", f"planes {case['planes']}")


@st.composite
def stat_case(draw):
    return dict(fake=draw(st.sampled_from([1e-5, 1e-4, 1e-3])), given=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), ring=dict(cells=8, mu=0.24, lcell=4.0, cor="thin", sext=0.0, cav=True, volt=1e6, roll=0))


@facet("C18", "fake_size", stat_case(), quick=24, thorough=200, rule="every case")
def check_size(case):
    """the remainders follow a Gaussian cut at two sigma"""
    els = lat.ring_elements(case["ring"])
    SC = SimulatedCommissioning(lat.build(els))
    bpms, quads = np.array(lat.of_kind(els, "bpm")), np.array(lat.of_kind(els, "quad"))
    SC.register_bpms(bpms, Offset=np.ones(2) * case["fake"])
    SC.register_magnets(quads, MagnetOffset=np.ones(3) * 1e-4)
    SC.apply_errors()
    bo, mo = np.tile(bpms, (2, 1)), np.tile(quads, (2, 1))
    bad = np.ones(bo.shape, dtype=bool)
    if case["given"]:
        kw, size = dict(fake_offset=np.array([case["fake"], 2 * case["fake"]])), np.array([case["fake"], 2 * case["fake"]])
    else:
        bad[:, ::4] = False
        kw = dict(errors=bad)
        size = np.sqrt(np.mean(true_offsets(SC, bo, mo)[:, ::4] ** 2, axis=1))
    x = []
    for _ in range(60):
        fake_bba(SC, bo, mo, **kw)
        x.append(-true_offsets(SC, bo, mo) / size[:, None])
    x = np.array(x)[:, bad].ravel()
    n = len(x)
    require(abs(np.mean(x)) < 6 * 0.88 / np.sqrt(n), f"mean of {n} remainders {np.mean(x)} sigma")
    require(abs(np.std(x) - 0.8796) < 6 * 0.6 / np.sqrt(n), f"spread of {n} remainders {np.std(x)} sigma")
    return Info(True, "given" if case["given"] else "re-estimated")


@st.composite
def bad_case(draw):
    c = draw(bba_case())
    c.update(how=draw(st.sampled_from(["ORB", "PORB", "turns", "shape", "order"])), n=draw(st.integers(0, 5)), dark=False)
    return c


@facet("C18", "rejects", bad_case(), quick=60, thorough=600, rule="every case")
def check_rejects(case):
    SC, els, bpms, quads, mags = make(case)
    b = [x for x in bpms if int(x) in mags][1:4]
    bo, mo, kw = np.array([b] * 2), np.array([[mags[int(x)] for x in b]] * 2), {}
    how = case["how"]
    if how in ("ORB", "PORB"):
        SC.INJ.trackMode = how
        if how == "PORB":
            SC.INJ.nTurns = 2
    elif how == "turns":
        SC.INJ.nTurns = (1, 3, 4)[case["n"] % 3]
    elif how == "shape":
        mo = mo[:1] if case["n"] % 2 else mo[:, :2]
    else:
        kw["fit_order"] = 3 + case["n"]
    before = state(SC)
    raises(ValueError, f"beam-based alignment ({how})", trajectory_bba, SC, bo, mo, **kw)
    only_offsets(before, SC, {}, rtol=0, atol=0)
    return Info(True, how)
