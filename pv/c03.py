"""C03: registration. Model-based: sequences of registrations are run against a plain-dictionary model of the books."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import (Info, REPO, close, diff, equal, facet, fail, freeze, freeze_element, freeze_ring, freeze_sc, raises,  # noqa: F401
                     require, unchanged)
from pySC.core.simulated_commissioning import SimulatedCommissioning

ROLES = dict(HCM="HCM", VCM="VCM", SkewQuad="SkewQuad")
REGISTERED = ("BPM", "RF", "Magnet", "HCM", "VCM", "SkewQuad")
MAG_EXTRA = {"NomPolynomA", "NomPolynomB", "SetPointA", "SetPointB", "CalErrorA", "CalErrorB", "MagnetOffset", "SupportOffset",
             "MagnetRoll", "SupportRoll", "T1", "T2", "CMlimit", "SkewQuadLimit", "CombinedFunction", "MasterOf"}
BPM_ZERO = dict(Noise=np.zeros(2), NoiseCO=np.zeros(2), Offset=np.zeros(2), SupportOffset=np.zeros(2), Roll=0, SupportRoll=0,
                CalError=np.zeros(2), SumError=0)


class Books:
    """reference model"""

    def __init__(self, spec):
        self.spec = spec
        self.ord = {k: set() for k in REGISTERED}
        self.pairs = {t: set() for t in machine.SUPPORTS}
        self.sig = dict(BPM={}, RF={}, Magnet={}, Support={})
        self.limits, self.skew, self.cf = {}, {}, set()

    def apply(self, op):
        kw = {k: machine.jval(v) for k, v in op["kw"].items()}
        if op["r"] == "sup":
            pairs = [tuple(int(x) for x in p) for p in machine.pairs_of(self.spec, op).T]
            t = op["type"]
            for p in pairs:
                self.pairs[t].add(p)
                for o in p:
                    old = self.sig["Support"].get(o, {})
                    self.sig["Support"][o] = {k: v for k, v in old.items() if not k.startswith(t)}
            for a, b in pairs:
                for k, v in kw.items():
                    val, cut = (v[0], v[1]) if isinstance(v, list) else (v, None)
                    ends = [(a, val)] if val.ndim == 1 else [(a, val[0]), (b, val[1])]
                    for o, x in ends:
                        self.sig["Support"][o][t + k] = x if cut is None else [x, cut]
            return
        ords = [int(o) for o in machine.ords_of(self.spec, op)]
        book = dict(bpm="BPM", rf="RF", mag="Magnet")[op["r"]]
        self.ord[book] |= set(ords)
        for o in ords:
            self.sig[book].setdefault(o, {}).update({k: v for k, v in kw.items() if k not in ("HCM", "VCM", "SkewQuad", "CF", "MasterOf")})
            for role in ROLES:
                if role in kw:
                    self.ord[role].add(o)
            for i, role in enumerate(("HCM", "VCM")):
                if role in kw:
                    self.limits.setdefault(o, [0.0, 0.0])[i] = kw[role]
            if "SkewQuad" in kw:
                self.skew[o] = kw["SkewQuad"]
            if "CF" in kw:
                (self.cf.add if kw["CF"] else self.cf.discard)(o)


def check_books(SC, m, when):
    for k in REGISTERED:
        equal(SC.ORD[k], sorted(m.ord[k]), f"{when}: SC.ORD.{k}")
        require(len(SC.ORD[k]) == 0 or np.issubdtype(np.asarray(SC.ORD[k]).dtype, np.integer), f"{when}: SC.ORD.{k} not integer")
    require(np.array_equal(SC.ORD.CM[0], SC.ORD.HCM) and np.array_equal(SC.ORD.CM[1], SC.ORD.VCM), f"{when}: SC.ORD.CM")
    for t in machine.SUPPORTS:
        got = np.asarray(SC.ORD[t])
        require(got.ndim == 2 and got.shape[0] == 2, f"{when}: shape of SC.ORD.{t}: {got.shape}")
        cols = [tuple(int(x) for x in c) for c in got.T]
        require(len(cols) == len(set(cols)), f"{when}: repeated pair in SC.ORD.{t}: {cols}")
        require(set(cols) == m.pairs[t], f"{when}: SC.ORD.{t} = {sorted(cols)}, registered {sorted(m.pairs[t])}")
    for book in ("BPM", "RF", "Magnet", "Support"):
        if d := diff(freeze(m.sig[book]), freeze({int(k): dict(v) for k, v in SC.SIG[book].items()})):
            fail(f"{when}: SC.SIG.{book}{d}")


def check_init(SC, m, op, before):
    """state of the elements after registering, before = frozen ring before"""
    after = freeze_ring(SC.RING)
    spec = m.spec
    if op["r"] == "sup":
        touched = {int(o) for o in machine.pairs_of(spec, op).ravel()}
    else:
        touched = {int(o) for o in machine.ords_of(spec, op)}
    for i in range(len(spec)):
        b, a = before[i], after[i]
        if i not in touched:
            unchanged(b, a, f"element {i} not concerned by the registration")
            continue
        el = SC.RING[i]
        if op["r"] == "sup":
            own = {f"{op['type']}Offset", f"{op['type']}Roll"}
            for f in own:
                equal(getattr(el, f), np.zeros(3), f"{f} after registration")
        elif op["r"] == "bpm":
            own = set(BPM_ZERO)
            for f, v in BPM_ZERO.items():
                equal(getattr(el, f), v, f"BPM field {f} after registration")
        elif op["r"] == "rf":
            own = {f"{p}{k}" for p in ("Voltage", "Frequency", "TimeLag") for k in ("SetPoint", "Offset", "CalError")}
            for p in ("Voltage", "Frequency", "TimeLag"):
                equal(getattr(el, f"{p}SetPoint"), b[("k", p)] if ("k", p) in b else b[p], f"{p}SetPoint after registration")
                equal(getattr(el, f"{p}Offset"), 0, f"{p}Offset after registration")
                equal(getattr(el, f"{p}CalError"), 0, f"{p}CalError after registration")
        else:
            own = set(MAG_EXTRA)
            for ab in "AB":
                pol = b[f"Polynom{ab}"]
                equal(getattr(el, f"SetPoint{ab}"), pol, f"SetPoint{ab} after registration")
                equal(getattr(el, f"NomPolynom{ab}"), pol, f"NomPolynom{ab} after registration")
                equal(getattr(el, f"CalError{ab}"), np.zeros(len(pol)), f"CalError{ab} after registration")
            for f in ("MagnetOffset", "SupportOffset", "MagnetRoll", "SupportRoll"):
                equal(getattr(el, f), np.zeros(3), f"{f} after registration")
            for f in ("T1", "T2"):
                equal(getattr(el, f), np.zeros(6), f"{f} after registration")
            if i in m.limits:
                equal(el.CMlimit, m.limits[i], "CMlimit")
            else:
                require(not hasattr(el, "CMlimit"), "CMlimit without corrector")
            if i in m.skew:
                equal(el.SkewQuadLimit, m.skew[i], "SkewQuadLimit")
            require(bool(getattr(el, "CombinedFunction", False)) == (i in m.cf), "combined-function flag")
            arrays = [getattr(el, f) for f in ("PolynomA", "PolynomB", "SetPointA", "SetPointB", "NomPolynomA", "NomPolynomB", "CalErrorA", "CalErrorB")]
            for x in range(len(arrays)):
                for y in range(x):
                    require(not np.shares_memory(arrays[x], arrays[y]), "setpoint, design and field arrays of a magnet share memory")
        keep_b = {k: v for k, v in b.items() if k not in own}
        keep_a = {k: v for k, v in a.items() if k not in own}
        unchanged(keep_b, keep_a, f"fields of registered element {i}")


@st.composite
def reg_case(draw):
    case = draw(machine.machine_case(min_regs=2, max_regs=7))
    case.pop("inj"), case.pop("nsig"), case.pop("apply")
    case["edits"] = draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 40), st.sampled_from([0.3, -0.2, 1.0])), max_size=3))
    return case


def edit(SC, case, i):
    """the user changes fields of elements himself before registration i"""
    for when, k, v in case.get("edits", ()):
        if when != i:
            continue
        el = SC.RING[k % len(SC.RING)]
        if hasattr(el, "Voltage"):
            el.Voltage, el.Frequency, el.TimeLag = el.Voltage * (1 + v), el.Frequency + v, v
        elif hasattr(el, "PolynomB"):
            el.PolynomB, el.PolynomA = np.asarray(el.PolynomB) + v, np.asarray(el.PolynomA) - v


@facet("C03", "sequences", reg_case(), quick=500, thorough=15000, rule="an element or ordinate is concerned by at least two registrations")
def check_sequences(case):
    spec = case["els"]
    SC = SimulatedCommissioning(lat.build(spec))
    m = Books(spec)
    seen, twice, labels = set(), False, []
    for i, op in enumerate(case["regs"]):
        edit(SC, case, i)
        before = freeze_ring(SC.RING)
        others = freeze_sc(SC, parts=("IDEALRING", "INJ", "plot"))
        args = freeze(op["kw"])
        if not machine.register(SC, spec, op):
            continue
        m.apply(op)
        check_books(SC, m, f"after registration {i} ({op['r']})")
        check_init(SC, m, op, before)
        unchanged(others, freeze_sc(SC, parts=("IDEALRING", "INJ", "plot")), "design lattice or injection by registration")
        require(not SC.SIG.get("RF", {}) or set(SC.SIG.RF) == m.ord["RF"], "cavity uncertainties")
        now = {int(o) for o in (machine.pairs_of(spec, op).ravel() if op["r"] == "sup" else machine.ords_of(spec, op))}
        twice |= bool(now & seen)
        seen |= now
        labels.append(op["r"])
    return Info(twice and len(labels) >= 2, *labels)


BAD_KW = ("Ofset", "BendingAngleError", "offset", "MagnetOffset", "Noise", "VoltageOffset", "Roll", "CMlimit", "HCM", "SkewQuadLimit", "CalError")
ALLOWED = dict(bpm={"Noise", "NoiseCO", "Offset", "Roll", "CalError", "SumError"},
               rf={f"{p}{k}" for p in ("Voltage", "Frequency", "TimeLag") for k in ("Setpoint", "Offset", "CalError")},
               mag={"MagnetOffset", "MagnetRoll", "CalErrorA", "CalErrorB", "BendingAngle", "HCM", "VCM", "CF", "SkewQuad", "MasterOf"},
               sup={"Offset", "Roll"})


@st.composite
def bad_case(draw):
    case = draw(reg_case())
    how = draw(st.sampled_from(["kw", "kw", "type", "shape"]))
    op = draw(st.one_of(machine.bpm_reg(), machine.rf_reg(), machine.mag_reg(case["els"]), machine.sup_reg())) if how == "kw" else draw(machine.sup_reg())
    case["bad"] = op
    case["how"] = how
    case["badkw"] = draw(st.sampled_from([k for k in BAD_KW if k not in ALLOWED[op["r"]]]))
    case["badtype"] = draw(st.sampled_from(["girder", "Magnet", "", "Support", "Girders"]))
    case["shape"] = draw(st.sampled_from(["empty", "3rows", "1row"]))
    return case


@facet("C03", "rejections", bad_case(), quick=300, thorough=6000, rule="rejected call after at least one registration")
def check_rejections(case):
    spec = case["els"]
    SC = SimulatedCommissioning(lat.build(spec))
    n = sum(machine.register(SC, spec, op) for op in case["regs"])
    op = case["bad"]
    kw = {k: machine.jval(v) for k, v in op["kw"].items()}
    before = freeze_sc(SC)
    if op["r"] == "sup":
        ords = machine.pairs_of(spec, op)
        if not ords.shape[1]:
            ords = np.array([[0], [len(spec) - 1]])
        sup_type = op["type"]
        if case["how"] == "kw":
            kw[case["badkw"]] = np.zeros(3)
        elif case["how"] == "type":
            sup_type = case["badtype"]
        else:
            ords = dict(empty=np.zeros((0, 0), dtype=int), **{"3rows": np.array([[0], [1], [2]]), "1row": np.array([[0, 1, 2]])})[case["shape"]]
        raises(ValueError, f"support registration with bad {case['how']}", SC.register_supports, ords, sup_type, **kw)
    else:
        kw[case["badkw"]] = np.zeros(2)
        ords = machine.ords_of(spec, op)
        raises(ValueError, f"registration with keyword {case['badkw']}",
               dict(bpm=SC.register_bpms, rf=SC.register_cavities, mag=SC.register_magnets)[op["r"]], ords, **kw)
    unchanged(before, freeze_sc(SC), "rejected registration")
    return Info(n > 0, case["how"], op["r"])


@st.composite
def master_case(draw):
    els = []
    k = draw(st.integers(1, 3))
    nch = draw(st.integers(1, 2))
    for i in range(k):
        for j in range(nch + 1):
            els.append(dict(t="dip", L=0.5, th=0.05, k=0.3))
            els.append(dict(t="drift", L=0.2))
    return dict(els=els, k=k, nch=nch, perm=draw(st.permutations(range(k))), col=draw(st.permutations(range(nch + 1))))


@facet("C03", "split_magnets", master_case(), quick=60, thorough=500, rule="at least two masters")
def check_masters(case):
    """each master gets the children of its own column"""
    spec, k, nch = case["els"], case["k"], case["nch"]
    parts = np.array([[2 * (i * (nch + 1) + case["col"][j]) for i in case["perm"]] for j in range(nch + 1)])
    SC = SimulatedCommissioning(lat.build(spec))
    SC.register_magnets(parts[0], MasterOf=parts[1:], BendingAngle=1e-3)
    for i in range(k):
        equal(SC.RING[int(parts[0, i])].MasterOf, parts[1:, i], "children of a master")
    equal(SC.ORD.Magnet, np.sort(parts[0]), "registered magnets")
    require(all(not hasattr(SC.RING[int(o)], "MasterOf") for o in parts[1:].ravel()), "child became master")
    return Info(k > 1, f"masters{k}", f"children{nch}")


@st.composite
def owned_case(draw):
    case = draw(reg_case())
    case["which"] = draw(st.lists(st.integers(0, 200), min_size=len(case["regs"]), max_size=len(case["regs"])))
    case["apply"] = draw(st.booleans())
    return case


def scramble(value, by=0.75):
    """in-place change of an argument or a book entry"""
    if isinstance(value, list):
        for v in value:
            scramble(v, by)
    elif isinstance(value, np.ndarray):
        value *= by
        value += 1e-3


@facet("C03", "owned_books", owned_case(), quick=300, thorough=8000, rule="an array given for several elements or reused by the caller")
def check_owned(case):
    """the caller reuses his arrays, entries of single elements are edited in place: all other entries stay"""
    spec = case["els"]
    SC = SimulatedCommissioning(lat.build(spec))
    m = Books(spec)
    several, labels = False, []
    for i, (op, which) in enumerate(zip(case["regs"], case["which"])):
        kw = {k: machine.jval(v) for k, v in op["kw"].items()}
        ords = machine.pairs_of(spec, op) if op["r"] == "sup" else machine.ords_of(spec, op)
        if not ords.size:
            continue
        given = ords.copy()
        if op["r"] == "sup":
            SC.register_supports(given, op["type"], **kw)
        else:
            dict(bpm=SC.register_bpms, rf=SC.register_cavities, mag=SC.register_magnets)[op["r"]](given, **kw)
        m.apply(op)
        equal(given, ords, "ordinates of the caller after registration")
        if d := diff(freeze({k: machine.jval(v) for k, v in op["kw"].items()}), freeze(kw)):
            fail(f"registration changed the arrays of the caller: {d}")
        for v in kw.values():
            scramble(v)
        given[...] = 0
        check_books(SC, m, f"after registration {i} ({op['r']}) and reuse of its arguments by the caller")
        several |= any(isinstance(v, (np.ndarray, list)) for v in kw.values())
        # in-place change of one entry in the books
        book = dict(bpm="BPM", rf="RF", mag="Magnet", sup="Support")[op["r"]]
        entries = sorted((o, f) for o, fields in m.sig[book].items() for f, v in fields.items() if isinstance(v, (np.ndarray, list)))
        if entries:
            o, f = entries[which % len(entries)]
            scramble(SC.SIG[book][o][f], 1.5)
            m.sig[book][o][f] = copy.deepcopy(m.sig[book][o][f])
            scramble(m.sig[book][o][f], 1.5)
            check_books(SC, m, f"after an in-place change of {f} of element {o}")
        labels.append(op["r"])
    if case["apply"] and m.ord["BPM"]:
        SC.SIG.Support.clear()  # explicit pitch or yaw may be in conflict with end points
        SC.apply_errors()
        books = freeze({int(k): dict(v) for k, v in SC.SIG.BPM.items()})
        ords = sorted(m.ord["BPM"])
        one = ords[case["which"][0] % len(ords)]
        for f in ("Noise", "NoiseCO", "Offset", "CalError"):
            others = freeze([getattr(SC.RING[o], f) for o in ords if o != one])
            if isinstance(getattr(SC.RING[one], f), np.ndarray):
                scramble(getattr(SC.RING[one], f))
            unchanged(others, freeze([getattr(SC.RING[o], f) for o in ords if o != one]), f"{f} of the other BPMs after an in-place change of that of BPM {one}")
        unchanged(books, freeze({int(k): dict(v) for k, v in SC.SIG.BPM.items()}), "BPM uncertainties after in-place changes of BPM fields")
    return Info(several and len(labels) >= 2, *labels)
