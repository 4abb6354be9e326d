"""C33: verification of a machine. Oracle: the list of everything inconsistent or suspicious, derived from the generated machine."""
import logging
import re

import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Discard, Info, Violation, facet, freeze_sc, require, unchanged
from pv.lat import num, small

RAISING = ("polynoms", "calB", "calA", "offsets", "no_angle", "beam", "random", "static")
WARNING = ("zero_gradient", "zero_angle", "limitH", "limitV", "sigma", "sigma_rf", "both", "dup_bpm", "dup_hcm", "dup_vcm", "dup_rf", "child")


class Records(logging.Handler):
    """warnings of the code under test"""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())

    def __enter__(self):
        self.was = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        logging.root.addHandler(self)
        return self

    def __exit__(self, *args):
        logging.root.removeHandler(self)
        logging.disable(self.was)


def verify(SC):
    """(warnings, error); the machine stays as it is"""
    before = freeze_sc(SC)
    error = None
    with Records() as rec:
        try:
            SC.verify_structure()
        except ValueError as exc:
            error = str(exc)
    unchanged(before, freeze_sc(SC), "machine by its verification")
    return rec.text, error


def suspicious(SC):
    """[(words, ordinates)] one entry per expected warning"""
    out = []
    ring, reg = SC.RING, SC.ORD
    for name, word in (("BPM", "bpm"), ("HCM", "horizontal"), ("VCM", "vertical"), ("RF", "cavit")):
        if len(reg[name]) == 0:
            out.append((word, ()))
        elif len(set(reg[name])) < len(reg[name]):
            out.append((word, ()))
    for name, k in (("HCM", 0), ("VCM", 1)):
        out += [(name.lower() + " limit", (o,)) for o in reg[name] if ring[o].CMlimit[k] == 0]
    for o in reg.Magnet:
        el = ring[o]
        if getattr(el, "CombinedFunction", False):
            if el.NomPolynomB[1] == 0:
                out.append(("combined function", (o,)))
            if el.BendingAngle == 0:
                out.append(("combined function", (o,)))
        out += [(f.lower(), (o,)) for f in SC.SIG.Magnet[o] if not hasattr(el, f)]
        for c in getattr(el, "MasterOf", ()):
            out += [(f.lower(), (c, o)) for f in vars(ring[c]) if not hasattr(el, f)]
    for o in reg.RF:
        out += [(f.lower(), (o,)) for f in SC.SIG.RF[o] if not hasattr(ring[o], f)]
    n = 0
    for o, el in enumerate(ring):
        e, r = hasattr(el, "EApertures"), hasattr(el, "RApertures")
        n += e or r
        if e and r:
            out.append(("aperture", (o,)))
    if n == 0:
        out.append(("aperture", ()))
    return out


def check_warnings(SC, texts):
    left = list(texts)
    want = sorted(suspicious(SC), key=lambda w: -len(w[1]))
    for word, ords in want:
        for t in left:
            numbers = [int(x) for x in re.findall(r"(?<![A-Za-z0-9])\d+", t)]
            if word in t.lower() and (numbers == [int(o) for o in ords] if len(ords) > 1 else set(int(o) for o in ords) <= set(numbers)):
                left.remove(t)
                break
        else:
            raise Violation(f"no warning about {word} at {[int(o) for o in ords]}: {texts}")
    require(not left, f"warnings without reason: {left}")
    return len(want)


@st.composite
def verify_case(draw):
    c = draw(machine.machine_case(min_regs=1, max_regs=8))
    c.update(ap=draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 2)).map(list), max_size=2)), girder=draw(st.sampled_from([True, True, False])), split=draw(st.booleans()),
             mult=draw(st.lists(st.tuples(st.integers(0, 30), st.integers(1, 4), st.booleans(), small(1e-3)).map(list), max_size=2)),
             sets=draw(st.lists(st.tuples(st.integers(0, 30), num(-1, 1, 2)).map(list), max_size=2)))
    return c


def prepare(case):
    els = [dict(e) for e in case["els"]]
    for p, how in case["ap"]:
        e = els[p % len(els)]
        if how != 1:
            e["EAp"] = [1e-2, 1e-2]
        if how != 0:
            e["RAp"] = [-1e-2, 1e-2, -1e-2, 1e-2]
    n = len(els)
    if case["split"]:
        els += [dict(t="dip", L=0.5, th=0.05, k=0.3, name=f"SPLIT{i}") for i in range(4)]
    if machine.support_conflict(case["regs"], els):
        raise Discard()
    regs = [r for r in case["regs"] if r["r"] != "sup" or case["girder"] or r["type"] != "Girder"]
    SC = machine.make(dict(case, els=els, regs=regs), apply=False)
    if case["split"]:
        SC.register_magnets(np.array([n, n + 1]), MasterOf=np.array([[n + 2, n + 3]]), CalErrorB=np.array([0, 1e-3]), BendingAngle=1e-3)
    if case["girder"] and any(len(SC.ORD[t][0]) for t in ("Section", "Plinth")):
        if not len(SC.ORD.Girder[0]):
            SC.register_supports(np.array([[0], [n - 1]]), "Girder")
    if case["apply"]:
        SC.apply_errors(case["nsig"])
    mags = SC.ORD.Magnet
    if len(mags):
        for p, order, skew, x in case["mult"]:
            o = mags[p % len(mags)]
            ba = np.full((order, 2), x)
            if skew:
                SC.set_random_multipole_errors(np.array([o]), ba)
            else:
                SC.set_systematic_multipole_errors(np.array([o]), ba, 0, False)
            SC.update_magnets(np.array([o]))
        for p, x in case["sets"]:
            SC.set_magnet_setpoints(np.array([mags[p % len(mags)]]), x, False, 0, "abs")
    return SC


def girders_missing(SC):
    return not len(SC.ORD.Girder[0]) and any(len(SC.ORD[t][0]) for t in ("Section", "Plinth"))


@facet("C33", "valid", verify_case(), quick=400, thorough=10000, rule="errors applied to at least two magnets, or a warning about an element", shards=8)
def check_valid(case):
    """every machine made by registrations is accepted, with exactly the warnings there is a reason for"""
    SC = prepare(case)
    texts, error = verify(SC)
    if girders_missing(SC):
        require(error is not None, "supports without girders accepted")
        return Info(False, "no girders")
    require(error is None, f"valid machine refused: {error}")
    n = check_warnings(SC, texts)
    return Info(n > 4 or (case["apply"] and len(SC.ORD.Magnet) > 1), "errors applied" if case["apply"] else "", f"warnings {min(n, 8)}")


@st.composite
def fault_case(draw):
    c = draw(verify_case())
    c.update(girder=True, faults=draw(st.lists(st.tuples(st.sampled_from(RAISING + WARNING), st.integers(0, 30), st.integers(0, 3)).map(list), min_size=1, max_size=3)))
    return c


def break_it(SC, how, i, k):
    """makes the machine inconsistent (returns the text to be found in the error) or suspicious (returns True)"""
    mags, rf = SC.ORD.Magnet, SC.ORD.RF
    if how in ("polynoms", "calB", "calA", "offsets", "no_angle", "zero_gradient", "zero_angle", "sigma"):
        if how in ("zero_gradient", "zero_angle"):
            mags = [o for o in mags if hasattr(SC.RING[o], "BendingAngle")]
        elif how == "no_angle":
            mags = [o for o in mags if not hasattr(SC.RING[o], "BendingAngle")]
        if not len(mags):
            return None
        o = mags[i % len(mags)]
        el = SC.RING[o]
        if how == "polynoms":
            # direct assignment of a longer polynom by the user
            el.__dict__["PolynomA" if k % 2 else "PolynomB"] = np.zeros(len(el.PolynomB) + 1 + k)
        elif how in ("calB", "calA"):
            setattr(el, "CalError" + how[-1], np.zeros(len(el.SetPointB) + 1 + k))
        elif how == "offsets":
            el.PolynomBOffset, el.PolynomAOffset = np.zeros(2 + k), np.zeros(1 + k)
        elif how == "no_angle":
            el.CombinedFunction = True
        elif how == "zero_gradient":
            el.CombinedFunction = True
            el.NomPolynomB[1] = 0.0
            return True
        elif how == "zero_angle":
            el.CombinedFunction = True
            el.BendingAngle = 0.0
            return True
        else:
            SC.SIG.Magnet[o]["Unknown" * (1 + k)] = 1.0
            return True
        return str(o)
    if how in ("limitH", "limitV"):
        ords = SC.ORD.HCM if how == "limitH" else SC.ORD.VCM
        if not len(ords):
            return None
        SC.RING[ords[i % len(ords)]].CMlimit[0 if how == "limitH" else 1] = 0.0
        return True
    if how == "sigma_rf":
        if not len(rf):
            return None
        SC.SIG.RF[rf[i % len(rf)]]["Unknown"] = 1.0
        return True
    if how == "both":
        el = SC.RING[i % len(SC.RING)]
        el.EApertures, el.RApertures = np.ones(2), np.array([-1.0, 1.0, -1.0, 1.0])
        return True
    if how.startswith("dup"):
        name = how[4:].upper()
        if not len(SC.ORD[name]):
            return None
        ords = SC.ORD[name]
        SC.ORD[name] = np.sort(np.append(ords, ords[i % len(ords)]))
        return True
    if how == "child":
        masters = [o for o in SC.ORD.Magnet if hasattr(SC.RING[o], "MasterOf")]
        if not masters:
            return None
        SC.RING[SC.RING[masters[i % len(masters)]].MasterOf[0]].Coating = 1
        return True
    if how == "beam":
        SC.INJ.beamSize = (np.zeros((4, 4)), np.zeros(6), np.zeros((6, 5)), np.zeros((7, 6)))[k]
        return "beamSize"
    name = dict(random="randomInjectionZ", static="staticInjectionZ")[how]
    setattr(SC.SIG, name, (np.zeros(5), np.zeros(7), np.zeros((6, 1)), np.zeros((1, 6)))[k])
    return name


@facet("C33", "faults", fault_case(), quick=600, thorough=15000, rule="some fault", shards=8)
def check_faults(case):
    SC = prepare(case)
    errors, n = [], 0
    for how, i, k in case["faults"]:
        made = break_it(SC, how, i, k)
        n += made is not None
        if isinstance(made, str):
            errors.append(made)
    if not n:
        raise Discard()
    texts, error = verify(SC)
    if errors:
        require(error is not None, f"inconsistent machine accepted: {case['faults']}")
        require(any(re.search(rf"(?<![0-9]){e}(?![0-9])", error) for e in errors), f"error {error!r} does not name any of {errors}")
    else:
        require(error is None, f"suspicious but consistent machine refused: {error}")
        check_warnings(SC, texts)
    return Info(True, *[f[0] for f in case["faults"]])
