"""C13: model response and dispersion. Oracle: independent forward and backward differences of tracking on an independently built model."""
import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat, machine
from pv.c14 import expected_model, ops, perform
from pv.core import Discard, Info, close, equal, facet, fail, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.lattice_properties.response_model import SCgetModelDispersion, SCgetModelRM


def observe(ring, mode, z0, turns, bpms):
    """rows: plane, turn, BPM"""
    if mode == "ORB":
        o = beamref.orbit(ring, bpms)
        return np.concatenate((o[:, 0], o[:, 2]))
    t = beamref.track(ring, np.array(z0, dtype=float).reshape(6, 1), turns, bpms)[:, 0]
    return np.concatenate([t[0].T.ravel(), t[2].T.ravel()])


def kicked(ring, o, plane, kick):
    """ring with an additional kick towards positive coordinates"""
    ring = ring.deepcopy()
    el = ring[o]
    if el.PassMethod == "CorrectorPass":
        k = np.array(el.KickAngle, dtype=float)
        k[plane] += kick
        el.KickAngle = k
    elif plane == 0:
        p = np.array(el.PolynomB, dtype=float)
        p[0] -= kick / el.Length
        el.PolynomB = p
    else:
        p = np.array(el.PolynomA, dtype=float)
        p[0] += kick / el.Length
        el.PolynomA = p
    return ring


def shifted(ring, cavs, df):
    ring = ring.deepcopy()
    for o in cavs:
        ring[o].Frequency = ring[o].Frequency + df
    return ring


def between(actual, ref, plus, minus, d, what, ok=True, rtol=1e-6):
    """the derivative by a forward, backward or central difference"""
    f, b = (plus - ref) / d, (ref - minus) / d
    span = np.abs(f - b)
    scale = np.nanmax(np.abs(f), initial=0.0)
    tol = span * 0.51 + rtol * scale + 3e-15 * (1 + np.nanmax(np.abs(ref), initial=0.0)) / abs(d) + (1e-9 if ok is True else ok)
    actual = np.asarray(actual, dtype=float)
    require(actual.shape == f.shape, f"{what}: shape {actual.shape} instead of {f.shape}")
    lost = np.isnan(f) | np.isnan(b)
    bad = ~lost & ~(np.abs(actual - (f + b) / 2) <= tol)
    if np.any(bad):
        i = int(np.argmax(bad))
        fail(f"{what}: {actual[i]} instead of {(f + b)[i] / 2} (row {i})")


@st.composite
def line_case(draw):
    c = draw(machine.machine_case(min_regs=2, max_regs=5, need=("bpm", "rf", "quad", "dip", "drift", "mult", "cor", "bpm"), max_size=14))
    c.update(apply=draw(st.booleans()), ops=draw(ops()), bpms=draw(lat.idx_subset(1, 4)), any=draw(st.booleans()), h=draw(lat.idx_subset(0, 3)), v=draw(lat.idx_subset(0, 3)),
             rev=draw(st.booleans()), z0=draw(st.one_of(st.just([0.0] * 6), vec(6, 1e-3))), turns=draw(st.integers(1, 3)), dkick=draw(st.sampled_from([1e-5, 1e-4, 1e-6, -1e-5])),
             ideal=draw(st.booleans()), omit=draw(st.one_of(st.just([]), st.sets(st.sampled_from(["nTurns", "dkick", "useIdealRing", "Z0", "trackMode"])).map(sorted), st.just(["nTurns", "dkick", "useIdealRing", "Z0", "trackMode"]))))
    return c


def prepare(case, mode):
    if machine.support_conflict(case["regs"], case["els"]):
        raise Discard()
    SC = machine.make(case)
    perform(SC, case["ops"], case["els"])
    n = len(SC.RING)
    pool = list(range(n)) if case["any"] else lat.of_kind(case["els"], "bpm")
    bpms = np.array(lat.pick(pool, case["bpms"]))
    mags = lat.magnets_of(case["els"])
    cms = [np.array(lat.pick(mags, case[k], keep_order=case["rev"]), dtype=int) for k in "hv"]
    return SC, bpms, cms


@facet("C13", "response", line_case(), quick=350, thorough=8000, rule="correctors in both planes")
def check_response(case):
    SC, bpms, cms = prepare(case, "TBT")
    omit = case["omit"]  # documented defaults
    turns, d, ideal, z0 = 1 if "nTurns" in omit else case["turns"], 1e-5 if "dkick" in omit else case["dkick"], "useIdealRing" in omit or case["ideal"], [0.0] * 6 if "Z0" in omit else case["z0"]
    kw = dict(nTurns=turns, dkick=d, useIdealRing=ideal, Z0=np.array(z0), trackMode="TBT")
    kw = {k: v for k, v in kw.items() if k not in omit}
    model = SC.IDEALRING if ideal else expected_model(SC)
    ref = observe(model, "TBT", z0, turns, bpms)
    if np.any(np.isnan(ref)):
        raise Discard()
    before = freeze_sc(SC)
    rm = SCgetModelRM(SC, bpms, cms, **kw)
    unchanged(before, freeze_sc(SC), "machine")
    if "Z0" in kw:
        equal(kw["Z0"], z0, "start point given by the caller")
    require(rm.shape == (len(ref), len(cms[0]) + len(cms[1])), f"response matrix of shape {rm.shape}")
    i = 0
    for plane in range(2):
        for o in cms[plane]:
            plus, minus = (observe(kicked(model, int(o), plane, s * d), "TBT", z0, turns, bpms) for s in (1, -1))
            between(rm[:, i], ref, plus, minus, d, f"column of corrector {o} plane {plane}")
            i += 1
    return Info(len(cms[0]) and len(cms[1]), "ideal" if ideal else "model", f"turns {turns}", "defaults" if omit else "")


@st.composite
def sign_case(draw):
    return dict(kind=draw(st.sampled_from(["quad", "dip", "mult", "cor", "sext"])), L=draw(num(0.05, 0.5, 2)), D=draw(num(0.5, 3, 1)), th=0.1)


@facet("C13", "sign", sign_case(), quick=50, thorough=300, rule="every case")
def check_sign(case):
    """a positive kick in the plane of the corrector moves the beam towards positive coordinates at the end of the drift behind it"""
    k = case["kind"]
    e = dict(quad=dict(t="quad", L=case["L"], k=0.5), dip=dict(t="dip", L=case["L"], th=0.05), mult=dict(t="mult", L=case["L"], pa=[0.0], pb=[0.0]),
             cor=dict(t="cor"), sext=dict(t="sext", L=case["L"], h=5.0))[k]
    els = [dict(t="drift", L=0.3), e, dict(t="drift", L=case["D"]), dict(t="bpm")]
    SC = machine.make(dict(els=els, regs=[]))
    rm = SCgetModelRM(SC, np.array([3]), [np.array([1]), np.array([1])])
    want = np.diag([1.0, 1.0]) * (case["D"] + (0 if k == "cor" else case["L"] / 2))
    close(rm, want, "response of one corrector followed by a drift", rtol=0.1, atol=1e-4)
    return Info(True, k)


@st.composite
def ring_case(draw):
    return dict(ring=draw(lat.ring_spec(cavs=(1, 1, 2, 3))), design=draw(st.lists(vec(2, 2e-5), max_size=3)), cav=draw(st.one_of(st.none(), lat.idx_subset(1, 3))), h=draw(lat.idx_subset(0, 3)), v=draw(lat.idx_subset(1, 3)), bpms=draw(lat.idx_subset(1, 6)), ideal=draw(st.booleans()), k=draw(st.lists(vec(2, 1e-4), max_size=3)),
                dq=draw(small(0.005)), df=draw(small(200.0)), turns=draw(st.integers(1, 3)), dkick=draw(st.sampled_from([1e-5, 1e-6])), mis=draw(st.booleans()), mode=draw(st.sampled_from(["ORB", "ORB", "TBT"])),
                step=draw(st.sampled_from([1e3, 100.0, -500.0])), defaults=draw(st.booleans()), z0=draw(vec(6, 1e-4)),
                coupled=draw(st.lists(num(-0.2, 0.2, 2), max_size=2)), omit=draw(st.sets(st.sampled_from(["nTurns", "Z0", "rfStep", "useIdealRing", "dkick", "trackMode"])).map(sorted)))


def ring_machine(case):
    els = lat.ring_elements(case["ring"])
    cors = [i for i, e in enumerate(els) if e["name"].startswith("COR")]
    for i, (h, v) in enumerate(case["design"]):  # correctors which are not zero by design
        e = els[cors[5 * i % len(cors)]]
        if e["t"] == "cor":
            e["kick"] = [h, v]
        else:
            e.update(pb=[-h / e["L"], 0.0], pa=[v / e["L"], 0.0])
    sexts = [e for e in els if e["name"].startswith("SD_")]
    for i, k in enumerate(case["coupled"]):  # skew quadrupoles in the design
        e = sexts[3 * i % len(sexts)]
        e.update(t="mult", pa=[0.0, k, 0.0], pb=[0.0, 0.0, e.pop("h", 0.0)])
    SC = machine.make(dict(els=els, regs=[dict(r="mag", kind="quad", pos=list(range(31)), kw=dict(MagnetOffset=[1e-4 if case["mis"] else 0] * 3, CalErrorB=[0, 1e-3]), form="arr"),
                                          dict(r="rf", pos=[0, 1, 2], kw=dict(FrequencyOffset=100.0), form="arr")], inj={}, apply=False))
    SC.register_magnets(np.array(cors), HCM=np.inf, VCM=np.inf, CalErrorB=np.array([0.1, 0]))
    SC.register_bpms(np.array(lat.of_kind(els, "bpm")))
    SC.apply_errors()
    for i, k in enumerate(case["k"]):
        for d in range(2):
            SC.set_cm_setpoints(cors[i], k[d], bool(d))
    SC.set_magnet_setpoints(np.array(lat.of_kind(els, "quad")), 1 + case["dq"], False, 1, "rel")
    SC.set_cavity_setpoints(SC.ORD.RF, case["df"], "Frequency", "add")
    return SC, els, cors


@facet("C13", "orbit_response", ring_case(), quick=40, thorough=1000, rule="at least one corrector")
def check_orbit_response(case):
    SC, els, cors = ring_machine(case)
    bpms = np.array(lat.pick(list(SC.ORD.BPM), case["bpms"]))
    cms = [np.array(lat.pick(cors, case[k]), dtype=int) for k in "hv"]
    omit = set(case["omit"]) if case["defaults"] else set()  # documented defaults
    case = dict(case, ideal="useIdealRing" in omit or case["ideal"], dkick=1e-5 if "dkick" in omit else case["dkick"])
    model = SC.IDEALRING if case["ideal"] else expected_model(SC)
    ref = observe(model, "ORB", None, 1, bpms)
    if np.any(np.isnan(ref)):
        raise Discard()
    before = freeze_sc(SC)
    kw = dict(nTurns=case["turns"], dkick=case["dkick"], useIdealRing=case["ideal"], Z0=np.array(case["z0"]))
    rm = SCgetModelRM(SC, bpms, cms, trackMode="ORB", **{k: v for k, v in kw.items() if k not in omit})
    unchanged(before, freeze_sc(SC), "machine")
    require(rm.shape == (len(ref), len(cms[0]) + len(cms[1])), f"response matrix of shape {rm.shape}")
    i = 0
    for plane in range(2):
        for o in cms[plane]:
            plus, minus = (observe(kicked(model, int(o), plane, s * case["dkick"]), "ORB", None, 1, bpms) for s in (1, -1))
            between(rm[:, i], ref, plus, minus, case["dkick"], f"orbit response of corrector {o} plane {plane}", rtol=1e-3, ok=1e-9 / case["dkick"] * 1e-2)
            i += 1
    return Info(i > 0, "ideal" if case["ideal"] else "model", case["ring"]["cor"])


@facet("C13", "dispersion", ring_case(), quick=60, thorough=1500, rule="every case with a stable reference")
def check_dispersion(case):
    SC, els, cors = ring_machine(case)
    bpms = np.array(lat.pick(list(SC.ORD.BPM), case["bpms"]))
    mode, turns, z0, ideal, step = case["mode"], case["turns"], case["z0"], case["ideal"], case["step"]
    cavs = SC.ORD.RF if case["cav"] is None else np.array(lat.pick(list(SC.ORD.RF), case["cav"]))
    if mode == "ORB" and len(cavs) < len(SC.ORD.RF):  # no closed orbit with cavities of different frequencies
        mode = "TBT"
    omit = set(case["omit"]) if case["defaults"] else set()  # documented defaults
    if mode == "ORB":
        omit.add("trackMode")
    else:
        omit.discard("trackMode")
    turns, z0 = 1 if "nTurns" in omit else turns, [0.0] * 6 if "Z0" in omit else z0
    step, ideal = 1e3 if "rfStep" in omit else step, "useIdealRing" in omit or ideal
    kw = dict(trackMode=mode, nTurns=turns, Z0=np.array(z0), rfStep=step, useIdealRing=ideal)
    kw = {k: v for k, v in kw.items() if k not in omit}
    model = SC.IDEALRING if ideal else expected_model(SC)
    ref = observe(model, mode, z0, turns, bpms)
    plus, minus = (observe(shifted(model, cavs, s * step), mode, z0, turns, bpms) for s in (1, -1))
    if np.any(np.isnan(ref)):
        raise Discard()
    before = freeze_sc(SC)
    eta = SCgetModelDispersion(SC, bpms, cavs, **kw)
    unchanged(before, freeze_sc(SC), "machine")
    between(eta, ref, plus, minus, step, f"{mode} dispersion", rtol=1e-3, ok=1e-11 / abs(step) if mode == "TBT" else 1e-8 / abs(step))
    if mode == "ORB" and not (np.any(np.isnan(plus)) or np.any(np.isnan(minus))):
        require(np.max(np.abs(eta)) > 0, "no dispersion")
    return Info(True, mode, "ideal" if ideal else "model", f"{len(cavs)} of {len(SC.ORD.RF)} cavities")


@st.composite
def bad_case(draw):
    c = draw(ring_case())
    c.update(what=draw(st.sampled_from(["mode", "lost"])), name=draw(st.sampled_from(["PORB", "tbt", "", "XYZ"])))
    return c


@facet("C13", "rejects", bad_case(), quick=40, thorough=500, rule="every case")
def check_rejects(case):
    SC, els, cors = ring_machine(dict(case, k=[], dq=0, df=0))
    cms = [np.array(cors[:1]), np.array(cors[:1])]
    bpms = SC.ORD.BPM
    before = freeze_sc(SC)
    if case["what"] == "mode":
        raises(ValueError, "unknown mode (response)", SCgetModelRM, SC, bpms, cms, trackMode=case["name"], useIdealRing=case["ideal"])
        raises(ValueError, "unknown mode (dispersion)", SCgetModelDispersion, SC, bpms, SC.ORD.RF, trackMode=case["name"], useIdealRing=case["ideal"])
    else:
        z = np.array([np.nan if case["turns"] == 1 else 10.0, 0, 0, 0, 0, 0])
        for el in SC.IDEALRING:
            el.RApertures = np.array([-1.0, 1.0, -1.0, 1.0])
        before = freeze_sc(SC)
        raises(ValueError, "lost reference (response)", SCgetModelRM, SC, bpms, cms, Z0=z)
        raises(ValueError, "lost reference (dispersion)", SCgetModelDispersion, SC, bpms, SC.ORD.RF, trackMode="TBT", Z0=z)
    unchanged(before, freeze_sc(SC), "machine")
    return Info(True, case["what"])
