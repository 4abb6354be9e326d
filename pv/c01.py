"""C01: isolation of the design lattice, the user's lattice and copies. Oracle: deep snapshots around random histories, search for shared objects."""
import copy
import warnings

import at
import numpy as np
from hypothesis import strategies as st

from pv import c28, lat, machine
from pv.core import Discard, Info, diff, facet, fail, freeze_ring, freeze_sc, require, sut, unchanged
from pv.lat import small
from pySC.core.beam import all_elements_reading
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction import loco, orbit_trajectory, tune
from pySC.lattice_properties.response_model import SCgetModelRING
from pySC.utils import sc_tools

EXTRA = ("edit", "edit", "correct", "scan", "switch", "circ", "model", "allread", "loco", "inj", "sig", "ord", "plot", "chroma", "feedback", "poly")
NATIVE = ("apply", "apply", "cm", "mag", "mag", "cav", "rndmult", "sysmult", "updcav", "updmag", "updsup", "bunches", "transmission", "reading", "sanity", "modelrm", "modeldisp", "bpm", "rf", "magreg", "sup", "pseudo", "rm", "disp")


@st.composite
def history_case(draw, names=EXTRA + NATIVE, max_ops=7):
    c = draw(machine.machine_case(min_regs=2, max_regs=6))
    if machine.support_conflict(c["regs"], c["els"]):
        c["apply"] = False
    p = st.fixed_dictionaries(dict(n=st.sampled_from(names), i=st.integers(0, 30), j=st.integers(0, 30), x=small(1.0), y=small(1.0), o=st.integers(1, 3), t=st.integers(0, 3), d=st.booleans(), m=st.sampled_from(["abs", "rel", "add", None])))
    c.update(todo=draw(st.lists(p, min_size=1, max_size=max_ops)), extra=draw(st.lists(st.one_of(machine.bpm_reg(), machine.rf_reg(), machine.mag_reg(c["els"]), machine.sup_reg()), max_size=3)), seed=draw(st.integers(0, 10 ** 6)))
    return c


def arrays_of(ring):
    """names and objects of everything mutable in the elements"""
    out = []
    for i, el in enumerate(ring):
        out.append((f"element {i}", el))
        for k, v in vars(el).items():
            if isinstance(v, (np.ndarray, list, dict, set)):
                out.append((f"{k} of element {i}", v))
    return out


def shared(rings, strict=True):
    """names of objects which are reachable in more than one place (in more than one of the rings)"""
    seen, bounds = {}, []
    for label, ring in rings:
        for name, obj in arrays_of(ring):
            full = f"{name} of {label}"
            if id(obj) in seen and (strict or isinstance(obj, at.Element) or seen[id(obj)][0] != label):
                return f"{seen[id(obj)][1]} is {full}"
            seen[id(obj)] = label, full
            if isinstance(obj, np.ndarray) and obj.size:
                lo = obj.__array_interface__["data"][0]
                bounds.append((label, lo, lo + max(1, (np.lib.array_utils.byte_bounds(obj)[1] - np.lib.array_utils.byte_bounds(obj)[0])), full))
    bounds.sort(key=lambda b: b[1:3])
    for (la, _, end, one), (lb, start, _, two) in zip(bounds, bounds[1:]):
        if start < end and (strict or la != lb):
            return f"{one} and {two} share memory"
    return ""


def edit(SC, p, ring=None):
    """in-place change of some field of some element (as user scripts do)"""
    ring = SC.RING if ring is None else ring
    el = ring[p["i"] % len(ring)]
    fields = sorted(k for k, v in vars(el).items() if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size and k not in ("R1", "R2"))
    if not fields:
        return
    v = getattr(el, fields[p["j"] % len(fields)])
    if v.flags.writeable:
        v.flat[p["t"] % v.size] += 1e-5 * p["x"]


def act(SC, p, case):
    """one step of the history; failures are steps too"""
    n = p["n"]
    pool = lambda ords: np.array(sorted({int(ords[p["i"] % len(ords)]), int(ords[p["j"] % len(ords)])})) if len(ords) else None  # noqa: E731
    mags = pool(SC.ORD.Magnet)
    if n == "edit":
        return edit(SC, p)
    if n == "plot":
        return setattr(SC, "plot", False)
    if n == "inj":
        SC.INJ.Z0 = SC.INJ.Z0 + p["x"] * 1e-5
        SC.INJ.Z0ideal[p["i"] % 6] += p["x"] * 1e-5
        SC.INJ.randomInjectionZ[p["j"] % 6] = abs(p["y"]) * 1e-6
        SC.INJ.beamSize[p["i"] % 6, p["i"] % 6] = abs(p["y"]) * 1e-12
        SC.INJ.nTurns, SC.INJ.nParticles, SC.INJ.nShots = p["o"], 1 + p["t"], 1 + p["d"]
        return
    if n == "sig":
        SC.SIG.staticInjectionZ = np.ones(6) * abs(p["x"]) * 1e-5
        SC.SIG.randomInjectionZ[p["i"] % 6] = abs(p["y"]) * 1e-6
        SC.SIG.Circumference = abs(p["y"]) * 1e-4
        for book in (SC.SIG.BPM, SC.SIG.Magnet, SC.SIG.RF):
            for k in list(book)[:1]:
                for f, v in list(book[k].items())[:1]:
                    book[k][f] = copy.deepcopy(v) if not isinstance(v, np.ndarray) else v * 1.5
        return
    if n == "ord":
        if p["d"] and len(SC.ORD.BPM):
            SC.ORD.BPM = SC.ORD.BPM[::1].copy()
        return
    if n == "model":
        ring = SCgetModelRING(SC, includeAperture=p["d"])
        edit(SC, p, ring)
        for el in ring:
            for k in ("PolynomA", "PolynomB", "KickAngle", "T1", "R1", "EApertures"):
                if hasattr(el, k):
                    v = np.array(getattr(el, k), dtype=float)
                    getattr(el, k)[...] = v + 1e-3
            if hasattr(el, "Length"):
                el.Length = el.Length * 1.01
        return
    if n == "switch":
        args = (("radiationon",), ("radiationoff",), ("cavityoff",), ("cavityon", "radiationoff"))[p["t"]]
        SC.RING = switch_cavity_and_radiation(SC.RING, *args)
        return
    if n == "circ":
        SC.RING = sc_tools.scale_circumference(SC.RING, 1 + 1e-3 * p["x"], "rel")
        return
    if n == "allread":
        return all_elements_reading(SC)
    if n == "poly" and mags is not None:
        el = SC.RING[mags[0]]
        el.PolynomBOffset = np.array([p["x"], p["y"]]) * 1e-4
        return SC.update_magnets()
    if n == "scan" and mags is not None and len(SC.ORD.BPM):
        return tune.tune_scan(SC, [mags[:1], mags[-1:]], [np.array([0.99, 1.01]), np.array([1.0, 1.02])], n_points=3)
    if n == "loco" and mags is not None:
        return loco.set_correction(SC, np.array([p["x"], p["y"]][:len(mags)]) * 1e-3, mags, order=0 if p["d"] else 1)
    if n == "chroma" and mags is not None:
        return SC.set_magnet_setpoints(mags, p["x"] * 0.01, False, 2, "add")
    cms = [pool(SC.ORD.HCM), pool(SC.ORD.VCM)]
    if n in ("correct", "feedback") and len(SC.ORD.BPM) and None not in [None if c is None else 1 for c in cms]:
        rm = np.random.default_rng(p["i"]).normal(size=(2 * len(SC.ORD.BPM) * SC.INJ.nTurns, sum(map(len, cms)))) * 10
        if n == "correct":
            return orbit_trajectory.correct(SC, rm, cm_ords=cms, maxsteps=2, alpha=1)
        return orbit_trajectory.first_turn(SC, rm, cm_ords=cms, maxsteps=3, alpha=1)
    if n in NATIVE:
        pair = c28.native_and_wrapper(p, SC, case)
        if pair is not None:
            return pair[1](SC)
    return "skipped"


def step(SC, p, case):
    """performs the step; True if it did something"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = act(SC, p, case)
            return not (isinstance(out, str) and out == "skipped")
    except Exception:  # noqa: BLE001
        return False  # whether a call succeeds is decided elsewhere


def alias(ring, case):
    """the lattice of the user repeats element objects (and arrays)"""
    n = len(ring)
    for i, j in case["alias"]:
        i, j = i % n, j % n
        if i != j:
            ring[j] = ring[i]
    return ring


def kinds(spec, pairs):
    spec = [dict(e) for e in spec]
    n = len(spec)
    for i, j in pairs:
        i, j = i % n, j % n
        if i != j:
            spec[j] = spec[i]
    return spec


@st.composite
def source_case(draw):
    c = draw(history_case())
    c["alias"] = draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list), max_size=4))
    c["share"] = draw(st.booleans())
    c["attr"] = draw(st.booleans())
    return c


@facet("C01", "source", source_case(), quick=500, thorough=15000, rule="at least two steps changed the machine", shards=4)
def check_source(case):
    case = dict(case)
    ring = alias(lat.build(case["els"]), case)
    case["els"] = kinds(case["els"], case["alias"])
    if machine.support_conflict(case["regs"], case["els"]):
        case["apply"] = False
    if case["share"]:  # two elements of the user share one array object
        mags = [el for el in ring if hasattr(el, "PolynomB") and hasattr(el, "MaxOrder")]
        if len(mags) > 1:
            with_same = [el for el in mags if len(el.PolynomB) == len(mags[0].PolynomB) and el.MaxOrder == mags[0].MaxOrder]
            for el in with_same:
                el.__dict__["PolynomB"] = mags[0].PolynomB
    if case["attr"]:
        for el in list(ring)[:4]:
            el.Note = dict(values=[1, 2])
            el.Extra = np.ones(3)
    before = freeze_ring(ring)
    ids = [id(el) for el in ring]
    SC = SimulatedCommissioning(ring)
    d = diff(before, freeze_ring(SC.RING)) or diff(before, freeze_ring(SC.IDEALRING))
    require(not d, f"machine differs from the lattice it was built from: {d}")
    unique = [el for k, el in enumerate(ring) if id(el) not in ids[:k]]
    found = shared([("RING", SC.RING), ("IDEALRING", SC.IDEALRING)]) or shared([("RING", SC.RING), ("IDEALRING", SC.IDEALRING), ("user's lattice", unique)], strict=False)
    require(not found, found)
    ideal = freeze_ring(SC.IDEALRING)
    for op in case["regs"]:
        machine.register(SC, case["els"], op)
        unchanged(before, freeze_ring(ring), f"user's lattice after registration {op['r']}")
        unchanged(ideal, freeze_ring(SC.IDEALRING), f"design lattice after registration {op['r']}")
    if case["apply"]:
        step(SC, dict(n="apply", i=0, j=0, x=0.0, y=0.0, o=1, t=0, d=True, m="abs"), case)  # may fail: aliased elements shorter than their calibration errors
        unchanged(before, freeze_ring(ring), "user's lattice after applying errors")
        unchanged(ideal, freeze_ring(SC.IDEALRING), "design lattice after applying errors")
    start, done = freeze_ring(SC.RING), 0
    for k, p in enumerate(case["todo"]):
        np.random.seed(case["seed"] + k)
        if step(SC, p, case):
            now = freeze_ring(SC.RING)
            done += bool(diff(start, now))
            start = now
        unchanged(before, freeze_ring(ring), f"user's lattice after {p['n']}")
        unchanged(ideal, freeze_ring(SC.IDEALRING), f"design lattice after {p['n']}")
    require([id(el) for el in ring] == ids, "elements of the user's lattice replaced")
    found = shared([("RING", SC.RING), ("IDEALRING", SC.IDEALRING), ("user's lattice", unique)], strict=False)
    require(not found, f"after the history: {found}")
    return Info(done > 1, "aliased" if case["alias"] else "", "shared arrays" if case["share"] else "", *sorted({p["n"] for p in case["todo"]}))


@st.composite
def copy_case(draw):
    c = draw(history_case(max_ops=4))
    p = draw(history_case(max_ops=5))
    c["later"], c["later_extra"] = p["todo"], p["extra"]
    c["original"] = draw(st.booleans())
    c["twice"] = draw(st.booleans())
    c["ideal"] = draw(st.booleans())
    c["mode"] = draw(st.sampled_from(["TBT", "ORB", "PORB", "TBT"]))
    c["how"] = draw(st.sampled_from(["very", "very", "very", "std"]))
    return c


@facet("C01", "copy", copy_case(), quick=400, thorough=12000, rule="one of the two machines changed after copying", shards=4)
def check_copy(case):
    np.random.seed(case["seed"])
    SC = machine.make(case)
    for k, p in enumerate(case["todo"]):
        step(SC, p, case)
    SC.plot = case["twice"]
    if case["ideal"]:  # an edited design lattice has to be copied as it is
        edit(SC, case["todo"][0], SC.IDEALRING)
        for el in SC.IDEALRING[:2]:
            el.Tag = [1, 2]
    SC.INJ.trackMode = case["mode"]
    SC.INJ.postFun = marker
    before = freeze_sc(SC)
    make = (lambda s: s.very_deep_copy()) if case["how"] == "very" else copy.deepcopy
    with sut("copy of the machine"):
        other = make(SC)
        if case["twice"]:
            other = make(other)
    require(isinstance(other, SimulatedCommissioning) and other is not SC, "not another machine")
    unchanged(before, freeze_sc(SC), "original while copying")
    unchanged(before, freeze_sc(other), "copy against the original")
    for a, b in ((SC.INJ, other.INJ), (SC.SIG, other.SIG), (SC.ORD, other.ORD)):
        require(a is not b and type(a) is type(b), f"{type(a).__name__} of the copy")
    found = shared([("RING", SC.RING), ("IDEALRING", SC.IDEALRING), ("RING of the copy", other.RING), ("IDEALRING of the copy", other.IDEALRING)], strict=False)
    require(not found, found)
    found = mutable_shared(SC, other)
    require(not found, found)
    changed, kept = (SC, other) if case["original"] else (other, SC)
    SC.plot = other.plot = False
    before["plot"] = False
    n = 0
    case = dict(case, extra=case["later_extra"])
    for k, p in enumerate(case["later"]):
        step(changed, p, case)
        n += bool(diff(before, freeze_sc(changed)))
        unchanged(before, freeze_sc(kept), f"{'copy' if case['original'] else 'original'} after {p['n']} on the other")
    if case["ideal"]:
        edit(changed, dict(case["later"][0], x=0.7), changed.IDEALRING)
        unchanged(before, freeze_sc(kept), "machine after an edit of the design lattice of the other")
    return Info(n > 0, "change the original" if case["original"] else "change the copy", case["how"])


def marker(matrix):
    return matrix


def mutable_shared(a, b):
    """arrays and containers of the books which are the same object in both machines"""
    def walk(obj, path, out, depth=0):
        if isinstance(obj, np.ndarray):
            out[id(obj)] = path
        elif isinstance(obj, dict):
            out[id(obj)] = path
            for k, v in obj.items():
                walk(v, f"{path}[{k}]", out, depth + 1)
        elif isinstance(obj, list):
            out[id(obj)] = path
            for k, v in enumerate(obj):
                walk(v, f"{path}[{k}]", out, depth + 1)
        return out

    for name in ("SIG", "ORD", "INJ"):
        one, two = getattr(a, name), getattr(b, name)
        one, two = (vars(o) if not isinstance(o, dict) else o for o in (one, two))
        one, two = walk(one, name, {}), walk(two, name, {})
        both = set(one) & set(two)
        if both:
            return f"{one[both.pop()]} is shared by the machine and its copy"
    return ""
