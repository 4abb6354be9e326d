"""C14: model ring. Oracle: the design lattice with setpoints written into it."""
import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Discard, Info, equal, facet, freeze, freeze_element, freeze_ring, freeze_sc, require, unchanged
from pv.lat import num, small, vec
from pySC.lattice_properties.response_model import SCgetModelRING

RF = ("Voltage", "Frequency", "TimeLag")


def expected_model(SC, apertures=False, cavities=True):
    """independent construction from the public setpoints"""
    ring = SC.IDEALRING.deepcopy()
    mags, rf = {int(o) for o in SC.ORD.Magnet}, {int(o) for o in SC.ORD.RF}
    for i, el in enumerate(SC.RING):
        if i in mags:
            a, b = np.array(el.SetPointA, dtype=float), np.array(el.SetPointB, dtype=float)
            a[0] = b[0] = 0.0
            ring[i].PolynomA, ring[i].PolynomB = a, b
        if i in rf:
            for f in RF:
                setattr(ring[i], f, float(np.ravel(getattr(el, f + "SetPoint"))[0]))
        if apertures:
            for f in ("EApertures", "RApertures"):
                if hasattr(el, f):
                    setattr(ring[i], f, np.array(getattr(el, f), dtype=float))
    return ring


def arrays(ring):
    out = []
    for i, el in enumerate(ring):
        out += [(i, k, v) for k, v in vars(el).items() if isinstance(v, np.ndarray)]
    return out


@st.composite
def ops(draw):
    return draw(st.lists(st.tuples(st.sampled_from(["cmH", "cmV", "mag", "rf", "sys", "off"]), st.integers(0, 30), small(1.0), st.integers(0, 2)).map(list), min_size=1, max_size=6))


def perform(SC, todo, spec):
    """random operation history on the machine"""
    n = 0
    for k, p, v, order in todo:
        pool = dict(cmH=SC.ORD.HCM, cmV=SC.ORD.VCM, rf=SC.ORD.RF).get(k, SC.ORD.Magnet)
        if not len(pool):
            continue
        o = int(pool[p % len(pool)])
        if k in ("cmH", "cmV"):
            SC.set_cm_setpoints(o, v * 1e-4, k == "cmV")
        elif k == "rf":
            field, scale = (("Frequency", 1e3), ("Voltage", 1e4), ("TimeLag", 0.1))[order]
            SC.set_cavity_setpoints(np.array([o]), v * scale, field, "add")
        elif k == "mag":
            if order >= len(SC.RING[o].SetPointB):
                continue
            SC.set_magnet_setpoints(o, v * 0.1, bool(p % 2), order, "add")
        elif k == "sys":
            SC.set_systematic_multipole_errors(np.array([o]), np.array([[0.0, 0.0], [v * 1e-3, 0.0], [0.0, v * 1e-2]]), 1, False) if len(SC.RING[o].SetPointB) > 1 else None
            SC.update_magnets()
        else:
            SC.RING[o].MagnetOffset = np.array([v * 1e-3, 0, 0])
            SC.update_supports()
        n += 1
    return n


@st.composite
def model_case(draw):
    c = draw(machine.machine_case(min_regs=2, max_regs=6))
    c.update(apply=draw(st.sampled_from([True, True, True, False])), ops=draw(ops()), ap=draw(st.lists(st.tuples(st.integers(0, 30), st.booleans(), st.booleans(), num(1, 9, 0)).map(list), max_size=3)), ask=draw(st.booleans()),
             later=draw(ops()))
    return c


@facet("C14", "model", model_case(), quick=400, thorough=10000, rule="errors applied and setpoints changed")
def check_model(case):
    if machine.support_conflict(case["regs"], case["els"]):
        raise Discard()
    els = [dict(e) for e in case["els"]]
    for p, design, ell, v in case["ap"]:
        if design:
            els[p % len(els)]["EAp" if ell else "RAp"] = [v * 1e-3] * 2 if ell else [-v * 1e-3, v * 1e-3] * 2
    SC = machine.make(dict(case, els=els))
    n = perform(SC, case["ops"], els)
    for p, design, ell, v in case["ap"]:
        if not design:
            setattr(SC.RING[p % len(els)], "EApertures" if ell else "RApertures", np.array([v * 1e-3] * 2 if ell else [-v * 1e-3, v * 1e-3] * 2))
    before = freeze_sc(SC)
    ring = SCgetModelRING(SC, includeAperture=case["ask"])
    unchanged(before, freeze_sc(SC), "machine after getting its model")
    require(len(ring) == len(SC.RING), "length of the model")
    want = expected_model(SC, case["ask"])
    for i in range(len(ring)):
        unchanged(freeze_element(want[i]), freeze_element(ring[i]), f"model element {i} against the expected one")
    mine = [(i, k, v) for r in (SC.RING, SC.IDEALRING) for i, k, v in arrays(r)]
    for i, k, v in arrays(ring):
        for j, kk, w in mine:
            if np.shares_memory(v, w):
                raise_shared(i, k, j, kk)
    ids = {id(el) for r in (SC.RING, SC.IDEALRING) for el in r}
    require(not any(id(el) in ids for el in ring), "the model shares elements with the machine")
    # later changes of the machine do not show up in the model and vice versa
    frozen = freeze_ring(ring)
    perform(SC, case["later"], els)
    for o in SC.ORD.Magnet:
        SC.RING[o].SetPointB += 0.5
        SC.RING[o].SetPointA[0] += 0.5
    unchanged(frozen, freeze_ring(ring), "model after a change of the machine")
    before = freeze_sc(SC)
    for el in ring:
        for k, v in list(vars(el).items()):
            if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                v += 1.0
    unchanged(before, freeze_sc(SC), "machine after a change of the model")
    return Info(case["apply"] and n, "apertures" if case["ask"] and case["ap"] else "", "cavity set" if any(o[0] == "rf" for o in case["ops"]) else "")


def raise_shared(i, k, j, kk):
    require(False, f"model element {i} shares {k} with {kk} of element {j} of the machine")


@st.composite
def errorless_case(draw):
    return dict(ring=draw(lat.ring_spec()), k=draw(st.lists(vec(2, 1e-4), min_size=1, max_size=3)), dq=draw(small(0.02)))


@facet("C14", "no_errors", errorless_case(), quick=40, thorough=800, rule="non-zero errors")
def check_no_errors(case):
    """two machines with different errors and the same setpoints have the same model; without changes it is the design"""
    els = lat.ring_elements(case["ring"])
    models = []
    for _ in range(2):
        SC = machine.make(dict(els=els, regs=[dict(r="mag", kind="quad", pos=list(range(30)), kw=dict(MagnetOffset=[1e-4] * 3, CalErrorB=[0, 0.01]), form="arr"),
                                              dict(r="mag", kind="dip", pos=list(range(30)), kw=dict(BendingAngle=1e-3), form="arr"),
                                              dict(r="rf", pos=[0], kw=dict(FrequencyOffset=100.0), form="arr")], inj={}, apply=True))
        cors = np.array([i for i, e in enumerate(els) if e["name"].startswith("COR")])
        SC.register_magnets(cors, HCM=1.0, VCM=1.0, CalErrorB=np.array([0.1, 0]))
        SC.apply_errors()
        design = SCgetModelRING(SC)
        a, b = freeze_ring(SC.IDEALRING), freeze_ring(design)
        unchanged(a, b, "model of the uncorrected machine against the design")
        for i, k in enumerate(case["k"]):
            for d in range(2):
                SC.set_cm_setpoints(cors[i], k[d], bool(d))
        SC.set_magnet_setpoints(np.array(lat.of_kind(els, "quad")), 1 + case["dq"], False, 1, "rel")
        models.append(freeze_ring(SCgetModelRING(SC)))
    unchanged(models[0], models[1], "models of machines which differ only in their errors")
    return Info(True)
