"""C05: magnet fields. Stateful: operation sequences, after which fields are compared with an independent field model."""
import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Info, close, diff, equal, facet, fail, freeze_ring, freeze_sc, require, unchanged
from pv.lat import small, vec

FIELD_ATTRS = {"PolynomA", "PolynomB", "MaxOrder", "KickAngle"}


def padded_sum(*vs):
    n = max(len(v) for v in vs)
    out = [0.0] * n
    for v in vs:
        for i, x in enumerate(v):
            out[i] += float(x)
    return out


def expected_fields(src, tgt):
    """normal and skew field of tgt which follows the setpoints of src"""
    exc = {}
    for ab in "AB":
        sp = np.atleast_1d(getattr(src, f"SetPoint{ab}"))
        cal = np.atleast_1d(getattr(src, f"CalError{ab}"))
        exc[ab] = [float(s) * (1 + (float(cal[i]) if i < len(cal) else 0.0)) for i, s in enumerate(sp)]
    out = {}
    for ab in "AB":
        parts = [exc[ab], list(np.atleast_1d(getattr(tgt, f"Polynom{ab}Offset", [0.0])))]
        for source in "AB":
            for n, table in getattr(tgt, f"SysPol{ab}From{source}", {}).items():
                parts.append([exc[source][int(n)] * float(x) for x in table])
        out[ab] = padded_sum(*parts)
    theta, length = getattr(tgt, "BendingAngle", 0.0), tgt.Length
    out["B"][0] += (getattr(src, "BendingAngleError", 0.0) * theta / length) if hasattr(src, "BendingAngleError") else 0.0
    if getattr(src, "CombinedFunction", False) and hasattr(src, "BendingAngle"):
        out["B"][0] += (exc["B"][1] / float(src.NomPolynomB[1]) - 1) * theta / length
    return out


def check_element(src, tgt, what):
    exp = expected_fields(src, tgt)
    exp = {ab: padded_sum(exp[ab], [0.0] * max(len(e) for e in exp.values())) for ab in "AB"}
    for ab in "AB":
        close(getattr(tgt, f"Polynom{ab}"), exp[ab], f"{what}: Polynom{ab}", rtol=1e-10, atol=1e-13)
    require(tgt.MaxOrder == len(exp["B"]) - 1, f"{what}: MaxOrder {tgt.MaxOrder} for {len(exp['B'])} components")
    require(len(tgt.PolynomA) >= tgt.MaxOrder + 1, f"{what}: PolynomA shorter than the multipole order")
    if src.PassMethod == "CorrectorPass":
        close(tgt.KickAngle, [exp["B"][0], exp["A"][0]], f"{what}: KickAngle", rtol=1e-10, atol=1e-13)
    for f in ("SetPointA", "SetPointB", "NomPolynomA", "NomPolynomB", "CalErrorA", "CalErrorB"):
        if hasattr(tgt, f):
            require(not np.shares_memory(getattr(tgt, f), tgt.PolynomA) and not np.shares_memory(getattr(tgt, f), tgt.PolynomB),
                    f"{what}: field shares memory with {f}")


@st.composite
def table(draw):
    n = draw(st.integers(1, 6))
    return draw(st.lists(vec(2, 0.05), min_size=n, max_size=n))


@st.composite
def op(draw):
    k = draw(st.sampled_from(["apply", "setmag", "setmag", "setcm", "sys", "sys", "rand", "edit", "edit", "update", "supports"]))
    o = dict(op=k, pos=draw(lat.idx_subset(1, 3)))
    if k in ("sys", "rand", "edit"):
        o["parts"] = draw(st.booleans())
    if k == "apply":
        o["nsig"] = draw(st.sampled_from([1, 2]))
    elif k == "setmag":
        o.update(order=draw(st.integers(0, 2)), skew=draw(st.booleans()), method=draw(st.sampled_from(["abs", "rel", "add"])), val=draw(vec(3, 1.5)),
                 comp=draw(st.booleans()))
    elif k == "setcm":
        o.update(skew=draw(st.booleans()), method=draw(st.sampled_from(["abs", "rel", "add"])), val=draw(vec(3, 1e-3)))
    elif k == "sys":
        o.update(ba=draw(table()), order=draw(st.integers(0, 3)), skew=draw(st.booleans()))
    elif k == "rand":
        o.update(ba=draw(table()))
    elif k == "edit":
        o.update(field=draw(st.sampled_from(["CalErrorA", "CalErrorB", "PolynomAOffset", "PolynomBOffset", "BendingAngleError", "MagnetOffset",
                                             "MagnetRoll"])), val=draw(vec(3, 0.05)), len=draw(st.integers(1, 3)))
    elif k == "update":
        o["all"] = draw(st.booleans())
    return o


@st.composite
def field_case(draw):
    split = draw(st.integers(0, 2))
    els = draw(lat.elements(min_size=5, max_size=9, need=("quad", "dip", "mult", "cor", "drift")))
    regs = draw(st.lists(machine.mag_reg(els), min_size=1, max_size=4))
    parts = []
    for i in range(split):
        n = draw(st.integers(1, 2))
        kind = draw(st.sampled_from(["dip", "dip", "quad"]))
        k = draw(st.sampled_from([0.3, -0.7]))
        grp = []
        for _ in range(n + 1):
            L = draw(st.sampled_from([0.2, 0.5, 1.1]))
            grp.append(dict(t="dip", L=L, th=draw(st.sampled_from([0.02, 0.05, -0.03])), k=k) if kind == "dip" else dict(t="quad", L=L, k=k))
        parts.append(dict(grp=grp, cf=draw(st.booleans()) and kind == "dip", ba=draw(st.booleans()) and kind == "dip"))
    sup = draw(st.booleans())
    return dict(els=els, regs=regs, parts=parts, sup=sup, ops=draw(st.lists(op(), min_size=1, max_size=8)))


def build(case):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    spec = [dict(e) for e in case["els"]]
    groups = []
    for p in case["parts"]:
        idx = []
        for e in p["grp"]:
            idx.append(len(spec))
            spec.append(dict(e))
            spec.append(dict(t="drift", L=0.1))
        groups.append(idx)
    SC = SimulatedCommissioning(lat.build(spec))
    for r in case["regs"]:
        if all(e["t"] != r["kind"] for e in case["els"]):
            continue
        machine.register(SC, case["els"], r)
    children = {}
    for p, idx in zip(case["parts"], groups):
        kw = dict(MagnetOffset=np.array([1e-4, 2e-4, 1e-4]), MagnetRoll=np.array([1e-3, 0, 0]), CalErrorB=np.array([0.0, 0.02]),
                  MasterOf=np.array(idx[1:]).reshape(-1, 1))
        if p["cf"]:
            kw["CF"] = True
        if p["ba"]:
            kw["BendingAngle"] = 1e-3
        SC.register_magnets(np.array(idx[:1]), **kw)
        children[idx[0]] = idx[1:]
    if case["sup"]:
        SC.register_supports(np.array([[0], [len(spec) - 1]]), "Girder", Offset=np.array([[1e-4, 1e-4, 0], [1e-4, 1e-4, 0]]), Roll=np.array([1e-4, 0, 0]))
    return SC, spec, children


@facet("C05", "sequences", field_case(), quick=400, thorough=12000, rule="at least two effective operations, one of them a setpoint or error change")
def check_sequences(case):
    SC, spec, children = build(case)
    mags = [int(o) for o in SC.ORD.Magnet]
    dirty = set(mags)
    if not mags:
        return Info(False)
    effective = 0
    labels = []
    SC.update_magnets()
    dirty.clear()
    for step, o in enumerate(case["ops"]):
        k = o["op"]
        ords = [mags[p % len(mags)] for p in o["pos"]]
        ords = list(dict.fromkeys(ords))
        before = freeze_ring(SC.RING)
        changed = set(ords)
        targets = ords
        if o.get("parts") and children and o.get("field", "Polynom").startswith("Polynom"):  # the later parts of split magnets
            targets = [c for m in children for c in children[m]][:len(ords)]
            ords = [m for m in children if any(c in targets for c in children[m])]
            changed = set(ords)
        vals = np.array([o["val"][i % len(o["val"])] for i in range(len(ords))]) if "val" in o else None
        if k == "apply":
            SC.apply_errors(o["nsig"])
            changed = set(mags)
            dirty.clear()
        elif k == "setmag":
            ords = [q for q in ords if len(SC.RING[q].SetPointB) > o["order"]]
            changed = set(ords)
            if not ords:
                continue
            comp = o["comp"] and o["order"] == 1 and all(SC.RING[q].NomPolynomB[1] != 0 for q in ords)
            SC.set_magnet_setpoints(np.array(ords), vals[:len(ords)], o["skew"], o["order"], o["method"], comp)
            dirty -= changed
        elif k == "setcm":
            ords = [int(q) for q in (SC.ORD.VCM if o["skew"] else SC.ORD.HCM)]
            changed = set(ords)
            if not ords:
                continue
            SC.set_cm_setpoints(np.array(ords), o["val"][0], o["skew"], o["method"])
            dirty -= changed
        elif k == "sys":
            ba = np.array(o["ba"])
            if any(len(SC.RING[q].SetPointB) <= o["order"] for q in ords) or len(ba) <= o["order"]:
                continue
            SC.set_systematic_multipole_errors(np.array(targets), ba, o["order"], o["skew"])
            dirty |= changed
        elif k == "rand":
            SC.set_random_multipole_errors(np.array(targets), np.array(o["ba"]))
            dirty |= changed
        elif k == "edit":
            f = o["field"]
            for q in targets:
                if f == "BendingAngleError":
                    if spec[q]["t"] == "dip":
                        SC.RING[q].BendingAngleError = o["val"][0]
                elif f.startswith("CalError"):
                    setattr(SC.RING[q], f, np.array(o["val"][:len(SC.RING[q].SetPointB)]))
                elif f in ("MagnetOffset", "MagnetRoll"):
                    setattr(SC.RING[q], f, np.array(o["val"]) * 1e-2)
                else:
                    setattr(SC.RING[q], f, np.array(o["val"][:o["len"]]))
            dirty |= changed
        elif k == "update":
            if o["all"]:
                SC.update_magnets()
                changed = set(mags)
            else:
                SC.update_magnets(np.array(ords))
            dirty -= changed
        elif k == "supports":
            SC.update_supports()
            changed = set(mags)
        effective += 1
        labels.append(k)
        what = f"after operation {step} ({k})"
        after = freeze_ring(SC.RING)
        family = changed | {c for m in changed for c in children.get(m, [])}
        for i in range(len(spec)):
            if i not in family:
                b, a = before[i], after[i]
                if k == "apply":
                    b = {x: y for x, y in b.items() if not x.startswith("Girder")}
                    a = {x: y for x, y in a.items() if not x.startswith("Girder")}
                unchanged(b, a, f"{what}: magnet {i}, not concerned")
            elif k in ("update", "supports"):
                fields = FIELD_ATTRS if k == "update" else {"T1", "T2", "R1", "R2", "SupportOffset", "SupportRoll"}
                unchanged({x: y for x, y in before[i].items() if x not in fields}, {x: y for x, y in after[i].items() if x not in fields},
                          f"{what}: other attributes of magnet {i}")
        for m in mags:
            if m not in dirty:
                check_element(SC.RING[m], SC.RING[m], f"{what}: magnet {m}")
                for c in children.get(m, []):
                    check_element(SC.RING[m], SC.RING[c], f"{what}: child {c} of magnet {m}")
        if k in ("apply", "supports"):
            for m, cs in children.items():
                for c in cs:
                    for f in ("T1", "T2", "R1", "R2"):
                        equal(getattr(SC.RING[c], f), getattr(SC.RING[m], f), f"{what}: {f} of child {c}")
        if k in ("update", "apply", "setmag"):
            if not dirty:
                SC.update_magnets()
                if d := diff(after, freeze_ring(SC.RING)):
                    fail(f"{what}: updating the magnets again changed{d}")
    return Info(effective >= 2 and any(x in ("apply", "setmag", "setcm", "edit", "sys", "rand") for x in labels), *labels,
                "split" if children else "", "cf" if any(getattr(SC.RING[m], "CombinedFunction", False) for m in mags) else "")


@st.composite
def kick_case(draw):
    return dict(L=draw(st.sampled_from([0.0, 0.05])), kx=draw(small(1e-3)), ky=draw(small(1e-3)), calx=draw(small(0.1)), caly=draw(small(0.1)),
                th=draw(st.sampled_from([0.05, -0.02])), bae=draw(small(1e-2)), k=draw(st.sampled_from([0.4, -0.6])), rel=draw(lat.num(0.9, 1.1, 3)))


@facet("C05", "tracking", kick_case(), quick=150, thorough=3000, rule="non-zero kick")
def check_tracking(case):
    """the fields act on the beam: corrector kicks, bending angle error, relative quadrupole change of a combined-function magnet"""
    import at
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    spec = [dict(t="cor", L=case["L"], n=2), dict(t="dip", L=0.3, th=case["th"], k=case["k"]), dict(t="drift", L=1.0)]
    SC = SimulatedCommissioning(lat.build(spec))
    SC.register_magnets(np.array([0]), HCM=1.0, VCM=1.0)
    SC.register_magnets(np.array([1]), CF=True)
    SC.RING[0].CalErrorB, SC.RING[0].CalErrorA = np.array([case["calx"]]), np.array([case["caly"]])
    SC.set_cm_setpoints(0, case["kx"], False)
    SC.set_cm_setpoints(0, case["ky"], True)
    cor = at.Lattice([SC.RING[0]], energy=2e9)
    z = at.lattice_track(cor, np.zeros((6, 1)), refpts=[1])[0][:, 0, 0, 0]
    close(z[1], case["kx"] * (1 + case["calx"]), "horizontal kick of a corrector", rtol=1e-6, atol=1e-12)
    close(z[3], case["ky"] * (1 + case["caly"]), "vertical kick of a corrector", rtol=1e-6, atol=1e-12)
    # the bend: integrated dipole field error equals angle error
    SC.RING[1].BendingAngleError = case["bae"]
    SC.set_magnet_setpoints(np.array([1]), case["rel"], False, 1, "rel")
    integrated = SC.RING[1].PolynomB[0] * SC.RING[1].Length
    close(integrated, case["bae"] * case["th"] + (case["rel"] - 1) * case["th"], "integrated dipole error of a combined-function magnet", rtol=1e-9, atol=1e-15)
    equal(SC.RING[1].BendingAngle, case["th"], "bending angle (coordinate system) of the magnet")
    return Info(case["kx"] != 0 or case["ky"] != 0)
