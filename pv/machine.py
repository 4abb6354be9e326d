"""
Machines from JSON cases: element list + sequence of registrations, interpreted for the code under test and for the models.
"""
import numpy as np
from hypothesis import strategies as st

from pv import lat
from pv.lat import num, pos_vec, small
from pySC.core.simulated_commissioning import SimulatedCommissioning

SUPPORTS = ("Section", "Plinth", "Girder")


def jval(v):
    """JSON -> argument: lists are arrays, {'v':..,'cut':..} the pair [value, cutoff]"""
    if isinstance(v, dict):
        return [jval(v["v"]), v["cut"]]
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def with_cut(strat):
    return st.one_of(strat, strat, strat, st.tuples(strat, st.sampled_from([0.5, 1, 1.5, 3])).map(lambda t: dict(v=t[0], cut=t[1])))


def kwargs_of(fields):
    """random subset of the fields"""
    return st.fixed_dictionaries({}, optional=fields)


BPM_FIELDS = dict(Noise=pos_vec(2, 1e-4), NoiseCO=pos_vec(2, 1e-5), Offset=with_cut(pos_vec(2, 1e-3)), Roll=with_cut(num(0, 1, 2).map(lambda x: x * 1e-2)),
                  CalError=with_cut(pos_vec(2, 0.1)), SumError=with_cut(num(0, 0.3, 2)))
RF_FIELDS = {f"{p}{k}": with_cut(num(0, 1, 2).map(lambda x, s=s: x * s))
             for p, so, sc in (("Voltage", 5e3, 1e-2), ("Frequency", 1e3, 1e-5), ("TimeLag", 0.1, 1e-2))
             for k, s in (("Offset", so), ("CalError", sc))}
LIMITS = st.sampled_from([1e-3, 5e-4, 1e-4, float("inf"), 0.02, 0.0])


@st.composite
def bpm_reg(draw, fields=None):
    return dict(r="bpm", pos=draw(lat.idx_subset(1, 5)), kw=draw(kwargs_of(fields or BPM_FIELDS)), form=draw(st.sampled_from(["arr", "dup", "rev"])))


@st.composite
def rf_reg(draw, fields=None):
    return dict(r="rf", pos=draw(lat.idx_subset(1, 3)), kw=draw(kwargs_of(fields or RF_FIELDS)), form=draw(st.sampled_from(["arr", "rev"])))


def mag_fields(n, dip):
    """n: shortest polynom of the magnets"""
    out = dict(MagnetOffset=with_cut(pos_vec(3, 3e-4)), MagnetRoll=with_cut(pos_vec(3, 1e-3)),
               CalErrorA=with_cut(st.integers(1, n).flatmap(lambda k: pos_vec(k, 0.05))),
               CalErrorB=with_cut(st.one_of(num(0, 0.05, 3), st.integers(1, n).flatmap(lambda k: pos_vec(k, 0.05)))))
    if dip:
        out["BendingAngle"] = with_cut(num(0, 1e-2, 4))
    return out


@st.composite
def mag_reg(draw, spec, kinds=None, roles=True, cf=True, errors=True):
    kinds = kinds or [k for k in ("quad", "sext", "dip", "mult", "cor") if lat.of_kind(spec, k)]
    kind = draw(st.sampled_from(kinds))
    pos = draw(lat.idx_subset(1, 4))
    ords = lat.pick(lat.of_kind(spec, kind), pos)
    n = min(poly_len(spec[o]) for o in ords)
    kw = draw(kwargs_of(mag_fields(n, kind == "dip"))) if errors else {}
    if roles and kind != "sext":
        role = draw(st.sampled_from(["none", "H", "V", "HV", "none", "HS"]))
        if "H" in role:
            kw["HCM"] = draw(LIMITS)
        if "V" in role:
            kw["VCM"] = draw(LIMITS)
        if "S" in role and n > 1:
            kw["SkewQuad"] = draw(st.sampled_from([0.05, 0.5, float("inf"), 0.0]))
    if cf and kind == "dip" and draw(st.booleans()):
        kw["CF"] = all(spec[o]["k"] != 0 for o in ords) and draw(st.sampled_from([True, True, False]))
    return dict(r="mag", kind=kind, pos=pos, kw=kw, form=draw(st.sampled_from(["arr", "rev", "arr"])))


def poly_len(e):
    return dict(quad=2, dip=2, sext=3).get(e["t"]) or (len(e["pb"]) if "pb" in e else e.get("n", 2))


@st.composite
def sup_reg(draw, types=SUPPORTS, roll=True):
    t = draw(st.sampled_from(types))
    kw = {}
    two = draw(st.booleans())
    off = [pos_vec(3, 2e-4), pos_vec(3, 2e-4)] if two else None
    if draw(st.booleans()):
        kw["Offset"] = draw(with_cut(st.tuples(*off).map(list) if two else pos_vec(3, 2e-4)))
    if roll and draw(st.booleans()):
        r = draw(pos_vec(3, 1e-4))
        if two:
            r[1] = r[2] = 0.0
        kw["Roll"] = r
    return dict(r="sup", type=t, pos=draw(st.lists(st.integers(0, 30), min_size=2, max_size=4)), kw=kw, wrap=draw(st.booleans()))


def pairs_of(spec, op):
    """disjoint [start, end] pairs of positive length; optionally one which spans the end of the ring"""
    n = len(spec)
    p = lat.pick(list(range(n)), op["pos"])
    p = p[:len(p) // 2 * 2]
    if op.get("wrap"):
        p = p[1:] + p[:1]
    s = s_positions(spec)
    out = []
    for a, b in zip(p[::2], p[1::2]):
        length = pair_length(s, a, b)
        if length > 1e-6 and (a < b or length < s[-1] - 1e-6):
            out.append([a, b])
    return np.array(out, dtype=int).T.reshape(2, -1)


def pair_length(s, a, b):
    return s[b] - s[a] + (s[-1] if a > b else 0.0)


def s_positions(spec):
    return np.concatenate(([0.0], np.cumsum([e.get("L", 0.0) for e in spec])))


def ords_of(spec, op):
    kind = dict(bpm=("bpm", "mark"), rf=("rf",)).get(op["r"]) or (op["kind"],)
    ords = lat.pick(lat.of_kind(spec, *kind), op["pos"])
    if op.get("form") == "rev":
        ords = ords[::-1]
    elif op.get("form") == "dup" and ords:
        ords = ords + ords[:1]
    return np.array(ords, dtype=int)


def register(SC, spec, op):
    """apply one registration to the machine under test; False if it is empty"""
    kw = {k: jval(v) for k, v in op["kw"].items()}
    if op["r"] == "sup":
        pairs = pairs_of(spec, op)
        if not pairs.shape[1]:
            return False
        SC.register_supports(pairs, op["type"], **kw)
        return True
    ords = ords_of(spec, op)
    if not len(ords):
        return False
    dict(bpm=SC.register_bpms, rf=SC.register_cavities, mag=SC.register_magnets)[op["r"]](ords, **kw)
    return True


@st.composite
def machine_case(draw, min_regs=2, max_regs=6, supports=True, need=("bpm", "rf", "quad", "dip", "drift", "mult"), cf=True, max_size=14):
    els = draw(lat.elements(min_size=8, max_size=max_size, need=need))
    regs = []
    for _ in range(draw(st.integers(min_regs, max_regs))):
        kind = draw(st.sampled_from(["bpm", "mag", "mag", "rf"] + (["sup", "sup"] if supports else [])))
        regs.append(draw(dict(bpm=bpm_reg(), rf=rf_reg(), mag=mag_reg(els, cf=cf), sup=sup_reg())[kind]))
    inj = draw(kwargs_of(dict(static=pos_vec(6, 1e-4), random=pos_vec(6, 1e-5), z0=lat.vec(6, 1e-4), circ=num(0, 1e-3, 5))))
    return dict(els=els, regs=regs, inj=inj, nsig=draw(st.sampled_from([2, 2, 1, 3, 0.5])), apply=draw(st.booleans()))


def support_conflict(regs, spec):
    """two-endpoint offsets and explicit pitch/yaw at the same support are rejected by apply_errors; also supports of the same
    type sharing an ordinate are ambiguous"""
    used = {}
    for op in regs:
        if op["r"] != "sup":
            continue
        for a, b in pairs_of(spec, op).T:
            for o in (a, b):
                if (op["type"], o) in used and used[(op["type"], o)] != (a, b):
                    return True
                used[(op["type"], o)] = (a, b)
    return False


def make(case, apply=None):
    """machine under test for the case"""
    ring = lat.build(case["els"])
    SC = SimulatedCommissioning(ring)
    for k, v in case.get("gradient_edits", ()):  # magnets differ from the design before they are registered
        el = SC.RING[k % len(SC.RING)]
        if hasattr(el, "PolynomB"):
            el.PolynomB, el.PolynomA = np.asarray(el.PolynomB) + v, np.asarray(el.PolynomA) - v
    for op in case["regs"]:
        register(SC, case["els"], op)
    inj = case.get("inj", {})
    if "static" in inj:
        SC.SIG.staticInjectionZ = np.array(inj["static"])
    if "random" in inj:
        SC.SIG.randomInjectionZ = np.array(inj["random"])
    if "z0" in inj:
        SC.INJ.Z0ideal = np.array(inj["z0"])
        SC.INJ.Z0 = np.array(inj["z0"])
    if "circ" in inj:
        SC.SIG.Circumference = inj["circ"]
    if case.get("apply") if apply is None else apply:
        SC.apply_errors(case.get("nsig", 2))
    return SC
