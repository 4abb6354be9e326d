"""C20: tune scan, tune fit and chromaticity fit. Oracle: history of setpoints and bunches at each injection, independent tracking and optics."""
import copy

import at
import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat
from pv.core import Discard, Info, close, equal, facet, fail, freeze_element, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction.chroma import fit_chroma
from pySC.correction.tune import fit_tune, tune, tune_scan

REST = ("IDEALRING", "INJ", "SIG", "ORD", "plot")


@st.composite
def machine_case(draw, sexts=(0.0, 1.0, 3.0)):
    return dict(ring=draw(lat.ring_spec(sexts=sexts)), cal=draw(st.booleans()), mag=draw(st.sampled_from([0.0, 1e-4, 3e-4])), ap=draw(st.sampled_from([None, 3e-3, 1.5e-3, 8e-4])), z0=draw(vec(4, 2e-4)), fam=draw(st.sampled_from(["QF|QD", "QF|QD", "QD|QF", "part", "one"])), dq=draw(vec(2, 0.01)), cf=False)


def make(case):
    els = [dict(e) for e in lat.ring_elements(case["ring"])]
    for e in els:
        if case["ap"] and e["t"] in ("quad", "bpm"):
            e["EAp"] = [case["ap"]] * 2
        if case["cf"] and e["name"].startswith("BA_"):
            e["k"] = 0.04
    SC = SimulatedCommissioning(lat.build(els))
    quads = np.array(lat.of_kind(els, "quad"))
    SC.register_magnets(quads, MagnetOffset=np.ones(3) * case["mag"], CalErrorB=np.array([0, 2e-3 if case["cal"] else 0.0]))
    SC.register_magnets(np.array(lat.of_kind(els, "sext")), CalErrorB=np.array([0, 0, 2e-3 if case["cal"] else 0.0]))
    if case["cf"]:
        SC.register_magnets(np.array([i for i, e in enumerate(els) if e["name"].startswith("BA_")]), HCM=np.inf, CF=True)
    SC.register_bpms(np.array(lat.of_kind(els, "bpm")))
    SC.register_cavities(np.array(lat.of_kind(els, "rf")))
    SC.apply_errors()
    fams = [np.array([i for i, e in enumerate(els) if e["name"].startswith(n)]) for n in ("QF", "QD")]
    if case["fam"] == "QD|QF":
        fams = fams[::-1]
    elif case["fam"] == "part":
        fams = [fams[0][::2], fams[1][1::2]]
    elif case["fam"] == "one":
        fams = [fams[0][:1], fams[1]]
    if case["cf"]:
        fams[1] = np.array([i for i, e in enumerate(els) if e["name"].startswith("BA_")])
    for f, d in zip(fams, case["dq"]):
        SC.set_magnet_setpoints(f, 1 + d, False, 1, "rel")
        SC.set_magnet_setpoints(f[:1], case.get("single", 0.0) * nominal(SC, f[:1]), False, 1, "add")  # differs from the rest of its family
    SC.INJ.Z0 = np.array(case["z0"] + [0.0, 0.0])
    return SC, els, fams


def state(SC):
    return dict(rest=freeze_sc(SC, REST), ring={i: freeze_element(e) for i, e in enumerate(SC.RING)})


def only_fields(before, SC, ords, order, cms=(), rtol=0.0):
    """only the given order of the normal field of the given magnets changed (and the kick of compensating correctors)"""
    unchanged(before["rest"], freeze_sc(SC, REST), "machine (other than the ring)")
    ords = {int(o) for o in ords}
    for i, el in enumerate(SC.RING):
        now, old = freeze_element(el), copy.deepcopy(before["ring"][i])
        if i in ords:
            for d in (now, old):
                for k in ("SetPointB", "PolynomB"):
                    require(np.ndim(d[k]) == 1 and len(d[k]) > order, f"{k} of element {i} has shape {np.shape(d[k])}")
                    d[k][order] = 0.0
                    if i in cms:
                        d[k][0] = 0.0
                d.pop("K", None)  # aliases of the field
                d.pop("H", None)
        unchanged(old, now, f"element {i}", rtol=rtol)


def nominal(SC, ords):
    return np.array([SC.RING[o].NomPolynomB[1] for o in ords])


def setpoints(SC, ords, order=1):
    return np.array([SC.RING[o].SetPointB[order] for o in ords], dtype=float)


@st.composite
def scan_case(draw):
    c = draw(machine_case(sexts=(1.0, 3.0)))
    c.update(n=draw(st.lists(st.integers(1, 7), min_size=2, max_size=2)), span=draw(st.lists(st.sampled_from([0.05, 0.3, -0.4, 0.6]), min_size=2, max_size=2)), mid=draw(st.lists(st.sampled_from([1.0, 0.9, 1.2, 1.4, 0.7]), min_size=2, max_size=2)), target=draw(st.sampled_from([None, 1, 0.5, 2, 2])),
             ap=draw(st.sampled_from([None, 6e-3, 3e-3, 1.5e-3])), points=draw(st.integers(2, 14)), full=draw(st.booleans()), np=draw(st.sampled_from([None, 1, 10, 10])), nt=draw(st.sampled_from([None, 1, 5, 20, 20])), inj=draw(st.tuples(st.integers(1, 6), st.integers(1, 8)).map(list)), size=draw(st.sampled_from([0.0, 2e-4, 1e-3])), lost=draw(st.sampled_from([1.0, 0.5, 0.25])),
             aslist=draw(st.booleans()), dark=draw(st.sampled_from([False] * 8 + [True])))
    return c


@facet("C20", "scan", scan_case(), quick=160, thorough=4000, rule="several different results")
def check_scan(case):
    SC, els, fams = make(case)
    SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.beamLostAt = case["inj"][0], case["inj"][1], case["lost"]
    SC.INJ.beamSize = np.diag([case["size"] ** 2, 1e-10, case["size"] ** 2, 1e-10, 1e-8, 1e-10])
    if case["dark"]:
        SC.RING[3].RApertures = np.array([-1e-9, 1e-9, -1e-9, 1e-9])
        SC.INJ.Z0 = np.array([1e-2, 0, 1e-2, 0, 0, 0])
    grids = [np.array([m]) if n == 1 else np.linspace(m - abs(s), m + abs(s), n)[::1 if s > 0 else -1] for n, s, m in zip(case["n"], case["span"], case["mid"])]
    kw = dict(n_points=case["points"], full_scan=case["full"])
    if case["target"] is not None:
        kw["target"] = case["target"]
    if case["np"]:
        kw["nParticles"] = case["np"]
    if case["nt"]:
        kw["nTurns"] = case["nt"]
    target, nt, npart = case["target"] if case["target"] is not None else 1, case["nt"] or case["inj"][1], case["np"] or case["inj"][0]
    ords = np.concatenate(fams)
    shots = []

    def post(z):
        shots.append((setpoints(SC, ords), np.array(z)))
        return z
    SC.INJ.postFun = post
    before, start, nom = state(SC), setpoints(SC, ords), nominal(SC, ords)
    arg = [list(f) for f in fams] if case["aslist"] else [f.copy() for f in fams]
    rel = [g.copy() for g in grids]
    pristine = copy.deepcopy(SC)
    try:
        out = tune_scan(SC, arg, rel, **kw)
        failed = False
    except RuntimeError:
        failed = True
    for a, b in zip(rel, grids):
        equal(a, b, "grid given by the caller")
    only_fields(before, SC, ords, 1, rtol=1e-15)
    # independent evaluation of what has been tried
    trans, turns = np.full((*case["n"], nt), np.nan), np.full(case["n"], np.nan)
    path, values = [], []
    require(0 < len(shots) <= case["points"], f"{len(shots)} evaluations")
    for sp, z in shots:
        r = sp / nom
        k = [r[:len(fams[0])], r[len(fams[0]):]]
        ij = []
        for g, x in zip(grids, k):
            hit = [i for i, v in enumerate(g) if np.all(np.abs(x - v) < 1e-9)]
            require(len(hit) > 0, f"setting {x} is not one of {g} times the nominal")
            ij.append(hit[0])
        require(z.shape == (6, npart), f"{z.shape[1]} particles injected instead of {npart}")
        other = copy.deepcopy(pristine)
        for o, s in zip(ords, sp):
            other.set_magnet_setpoints(int(o), float(s), False, 1)
        frac = np.mean(~np.isnan(beamref.track(other.RING, z, nt, [len(els)])[0]), axis=(0, 1))
        trans[ij[0], ij[1]], turns[ij[0], ij[1]] = frac, np.sum(frac > 1 - case["lost"])
        path.append(ij)
        values.append((frac[-1], turns[ij[0], ij[1]]))
    centre = np.array([(n - 1) // 2 for n in case["n"]])
    require(path[0] == list(centre), f"scan starts at {path[0]} instead of the centre {centre}")
    d = np.abs(np.array(path) - centre)
    size = np.maximum(centre, 1)
    far = np.sqrt(np.sum((d / size) ** 2, axis=1))
    slack = np.sqrt(np.sum((0.75 / size[centre > 0]) ** 2)) if np.any(centre > 0) else 0
    require(np.any(centre == 0) or np.all(np.maximum.accumulate(far) - far <= 2 * slack), f"scan does not proceed outwards: {path}")
    reached = [i for i, v in enumerate(values) if v[0] >= target]
    if not case["full"] and reached:
        require(len(shots) == reached[0] + 1, f"scan goes on ({len(shots)} points) after the target has been reached at point {reached[0]}")
    else:
        require(len(shots) == case["points"], f"{len(shots)} of {case['points']} points evaluated")
    if failed:
        require(max(turns[i, j] for i, j in path) == 0 and not (reached and not case["full"]), "scan fails in spite of transmission")
        close(setpoints(SC, ords), start, "setpoints after a failed scan", rtol=1e-12)
        return Info(False, "no transmission")
    require(len(out) == 4 and out[0] is SC, "four outputs, the machine first")
    require(max(turns[i, j] for i, j in path) > 0 or not case["full"] and reached, "no transmission is not reported")
    close(out[3], trans, "transmission at the grid points", rtol=0, atol=1e-12)
    close(out[2], turns, "turns at the grid points", rtol=0, atol=1e-12)
    got = [float(x) for x in out[1]]
    hit = [[i for i, v in enumerate(g) if abs(x - v) < 1e-12] for g, x in zip(grids, got)]
    require(len(got) == 2 and all(hit), f"returned setpoints {got} are not on the grid")
    mine = [(trans[i, j, -1], turns[i, j]) for i in hit[0] for j in hit[1]]
    best = [trans[i, j, -1] for i, j in path], [turns[i, j] for i, j in path]
    if not case["full"] and reached:
        require(any(m[0] >= target for m in mine) and [hit[0][0], hit[1][0]] == path[-1], f"returned setpoints {got} do not reach the target")
    elif max(best[0]) > 0:
        require(any(m[0] == max(best[0]) for m in mine), f"returned setpoints {got} have transmission {mine}, best is {max(best[0])}")
    else:
        require(any(m[1] == max(best[1]) for m in mine), f"returned setpoints {got} survive {mine} turns, best is {max(best[1])}")
    close(setpoints(SC, ords), nom * np.repeat(got, [len(f) for f in fams]), "setpoints after the scan", rtol=1e-12)
    return Info(len(set(values)) > 1, "target reached" if reached else "best", "full" if case["full"] else "")


def optics(ring, integer):
    if integer:
        mu = at.get_optics(ring.deepcopy(), range(len(ring) + 1))[2].mu
        return mu[-1, :2] / 2 / np.pi
    return np.array(at.get_optics(ring.deepcopy())[1].tune[:2])


@st.composite
def tune_case(draw):
    c = draw(machine_case(sexts=(0.0, 1.0)))
    c.update(ap=None, z0=[0.0] * 4, mag=draw(st.sampled_from([0.0, 3e-5])), shift=draw(vec(2, 0.01)), target=draw(st.sampled_from(["reachable", "reachable", "ideal", "any"])), any=draw(vec(2, 0.05)), integer=draw(st.sampled_from([None, True, False])), cf=draw(st.sampled_from([False, False, True])), aslist=draw(st.booleans()))
    c["fam"] = draw(st.sampled_from(["QF|QD", "QF|QD", "QD|QF", "part"]))
    c["dq"], c["single"] = draw(vec(2, 0.003)), draw(st.sampled_from([0.0, 1e-3, -2e-3]))
    return c


def shifted(SC, fams, shifts, order):
    other = copy.deepcopy(SC)
    for f, d in zip(fams, shifts):
        for o in f:
            other.set_magnet_setpoints(int(o), float(other.RING[o].SetPointB[order] + d), False, order, dipole_compensation=True)
    return other


@facet("C20", "fit_tune", tune_case(), quick=40, thorough=800, rule="tune away from the target")
def check_fit_tune(case):
    SC, els, fams = make(case)
    integer = case["integer"] in (None, True)
    k = abs(nominal(SC, fams[0])[0])
    try:
        now = optics(SC.RING, integer)
        if case["target"] == "ideal":
            target = optics(SC.IDEALRING, integer)
        elif case["target"] == "reachable":
            target = optics(shifted(SC, fams, [k * s for s in case["shift"]], 1).RING, integer)
        else:
            target = now + np.array(case["any"])
    except at.AtError:
        raise Discard()
    if np.any(np.isnan(now)) or np.any(np.isnan(target)) or not integer and np.max(np.abs(now - target)) > 0.1:
        raise Discard()
    if not integer and np.any((np.minimum(now, target) < 0.05) | (np.maximum(now, target) > 0.95)):
        raise Discard()
    kw = {} if case["target"] == "ideal" else dict(target_tune=target.copy())
    if case["integer"] is not None:
        kw["fit_integer"] = case["integer"]
    before = state(SC)
    start = [setpoints(SC, f) for f in fams]
    try:
        out = fit_tune(SC, [list(f) for f in fams] if case["aslist"] else fams, **kw)
    except at.AtError:
        both = np.sort(np.array([now, target]), axis=0)  # no optics at some point on the way
        if case["target"] == "any" or np.any(np.floor(2 * (both[0] - 0.02)) != np.floor(2 * (both[1] + 0.02))):
            raise Discard()
        raise
    require(out is SC, "returns another machine")
    if "target_tune" in kw:
        equal(kw["target_tune"], target, "target given by the caller")
    cms = set(int(o) for o in fams[1]) if case["cf"] else set()
    only_fields(before, SC, np.concatenate(fams), 1, cms, rtol=1e-15)
    for f, s in zip(fams, start):
        d = setpoints(SC, f) - s
        close(d, np.full(len(d), d[0]), "change of a family", rtol=0, atol=1e-12)
    if case["cf"]:
        for o, s in zip(fams[1], start[1]):
            el = SC.RING[o]
            kick = (el.SetPointB[1] - s) / el.NomPolynomB[1] * el.BendingAngle
            close(SC.get_cm_setpoints(int(o), False) - 0.0, [kick], f"compensation by magnet {o}", rtol=1e-6, atol=1e-12)
    end = optics(SC.RING, integer)
    merit = lambda nu: np.sqrt(np.mean((nu - target) ** 2))  # noqa: E731
    require(merit(end) <= merit(now) + 1e-9, f"deviation from the target {merit(now)} -> {merit(end)}")
    if case["target"] == "reachable" and not case["cf"]:
        require(merit(end) <= 1e-3 + 0.1 * merit(now), f"reachable target missed: deviation {merit(now)} -> {merit(end)}")
    return Info(merit(now) > 1e-3, case["target"], "integer" if integer else "fractional", "compensated" if case["cf"] else "")


@facet("C20", "tune", tune_case(), quick=60, thorough=1000, rule="every case")
def check_tune(case):
    SC, els, fams = make(case)
    before = state(SC)
    for integer in (True, False):
        for ideal in (True, False):
            try:
                want = optics(SC.IDEALRING if ideal else SC.RING, integer)
            except at.AtError:  # no stable optics
                raise Discard()
            got = tune(SC, integer, ideal)
            close(got, want, f"tune (integer part {integer}, ideal {ideal})", rtol=1e-9, atol=1e-9)
    only_fields(before, SC, [], 1)
    return Info(True)


@st.composite
def chroma_case(draw):
    c = draw(machine_case(sexts=(1.0, 3.0)))
    c.update(ap=None, z0=[0.0] * 4, mag=0.0, shift=draw(st.lists(small(20.0), min_size=2, max_size=2)), target=draw(st.sampled_from(["reachable", "reachable", "ideal", "nan"])), step=draw(st.sampled_from([None, [1.0, 3.0], [-5.0, 5.0]])), dh=draw(vec(2, 10.0)), part=draw(st.booleans()), single_h=draw(vec(2, 2.0)))
    c["fam"], c["dq"] = "QF|QD", draw(vec(2, 0.003))
    return c


@facet("C20", "fit_chroma", chroma_case(), quick=24, thorough=500, rule="chromaticity away from the target")
def check_fit_chroma(case):
    SC, els, _ = make(case)
    fams = [np.array([i for i, e in enumerate(els) if e["name"].startswith(n)]) for n in ("SF", "SD")]
    if case["part"]:
        fams = [f[::2] for f in fams]
    for f, d, e in zip(fams, case["dh"], case["single_h"]):
        SC.set_magnet_setpoints(f, d, False, 2, "add")
        SC.set_magnet_setpoints(f[1:2], e, False, 2, "add")
    chrom = lambda ring: np.array(ring.deepcopy().get_chrom()[:2])  # noqa: E731
    try:
        now = chrom(SC.RING)
        target = np.array([np.nan, 1.0]) if case["target"] == "nan" else chrom(SC.IDEALRING if case["target"] == "ideal" else shifted(SC, fams, case["shift"], 2).RING)
    except at.AtError:
        raise Discard()
    kw = {} if case["target"] == "ideal" else dict(target_chroma=target.copy())
    if case["step"]:
        kw["init_step_size"] = np.array(case["step"])
    before = state(SC)
    start = [setpoints(SC, f, 2) for f in fams]
    out = fit_chroma(SC, fams, **kw)
    require(out is SC, "returns another machine")
    if case["target"] == "nan":
        only_fields(before, SC, [], 2)
        return Info(False, "invalid target")
    only_fields(before, SC, np.concatenate(fams), 2, rtol=1e-15)
    for f, s in zip(fams, start):
        d = setpoints(SC, f, 2) - s
        close(d, np.full(len(d), d[0]), "change of a family", rtol=0, atol=1e-9)
    merit = lambda c: np.sqrt(np.mean((c - target) ** 2))  # noqa: E731
    end = chrom(SC.RING)
    require(merit(end) <= 0.02 + 0.02 * merit(now), f"reachable target missed: deviation {merit(now)} -> {merit(end)}")
    return Info(merit(now) > 0.05, case["target"])
