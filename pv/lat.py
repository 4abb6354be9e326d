"""
Lattice generators. A lattice is a list of JSON-able element specifications, so that cases can be written out and replayed.

``elements()``: arbitrary element sequences, for everything which does not need a stable machine.
``ring_spec()``: stable FODO-like rings with a cavity, BPMs, thin and thick correctors, sextupoles.
"""
import math

import at
import numpy as np
from hypothesis import strategies as st


C0 = 299792458.0


# ------------------------------------------------------------------------------------------ numbers

def num(lo, hi, digits=4):
    """Floats in [lo, hi] as multiples of a fine step (so that cases are readable); shrinks towards lo or 0."""
    n = 10 ** digits
    lo_i, hi_i = math.ceil(lo * n), math.floor(hi * n)
    return st.integers(lo_i, hi_i).map(lambda i: i / n)


def small(scale, digits=3):
    """signed numbers of a given scale, zero included"""
    return num(-1, 1, digits).map(lambda x: x * scale)


def vec(n, scale):
    return st.lists(small(scale), min_size=n, max_size=n)


def pos_vec(n, scale):
    return st.lists(num(0, 1, 3).map(lambda x: x * scale), min_size=n, max_size=n)


def idx_subset(min_size=0, max_size=6):
    """Positions in some list, to be taken modulo its length"""
    return st.lists(st.integers(0, 30), min_size=min_size, max_size=max_size)


def pick(items, positions, unique=True, keep_order=False):
    """elements of items at the given positions modulo length"""
    if not len(items):
        return []
    out = [items[p % len(items)] for p in positions]
    if unique:
        out = list(dict.fromkeys(out))
    return out if keep_order else sorted(out)


# ------------------------------------------------------------------------------------------ elements

def build(spec):
    """[element dict] -> at.Lattice"""
    els = []
    circ = sum(e.get("L", 0.0) for e in spec) or 1.0
    for i, e in enumerate(spec):
        t = e["t"]
        name = e.get("name", f"{t.upper()}{i}")
        if t == "drift":
            el = at.Drift(name, e["L"])
        elif t == "quad":
            el = at.Quadrupole(name, e["L"], e["k"])
        elif t == "sext":
            el = at.Sextupole(name, e["L"], e["h"])
        elif t == "dip":
            el = at.Dipole(name, e["L"], e["th"], e.get("k", 0.0))
        elif t == "mult":
            el = at.Multipole(name, e["L"], list(e["pa"]), list(e["pb"]))
        elif t == "thin":
            el = at.ThinMultipole(name, list(e["pa"]), list(e["pb"]))
        elif t == "cor":
            el = at.Corrector(name, e.get("L", 0.0), list(e.get("kick", [0.0, 0.0])), PolynomA=[0.0] * e.get("n", 2),
                              PolynomB=[0.0] * e.get("n", 2))
        elif t == "bpm":
            el = at.Monitor(name)
        elif t == "mark":
            el = at.Marker(name)
        elif t == "rf":
            el = at.RFCavity(name, e.get("L", 0.0), e["V"], e["f"] if "f" in e else e["h"] * C0 / circ, e["h"], 2e9)
            el.TimeLag = e.get("lag", 0.0)
        else:
            raise ValueError(t)
        if "EAp" in e:
            el.EApertures = np.array(e["EAp"], dtype=float)
        if "RAp" in e:
            el.RApertures = np.array(e["RAp"], dtype=float)
        els.append(el)
    return at.Lattice(els, name="pv", energy=2e9, periodicity=1)


LEN = num(0.05, 2.0, 3)


@st.composite
def multipole_pair(draw, max_order=4, scale=2.0):
    n = draw(st.integers(1, max_order))
    return (draw(st.lists(small(scale), min_size=n, max_size=n)), draw(st.lists(small(scale), min_size=n, max_size=n)))


@st.composite
def one_element(draw, kinds):
    t = draw(st.sampled_from(kinds))
    e = dict(t=t)
    if t == "drift":
        e["L"] = draw(LEN)
    elif t == "quad":
        e.update(L=draw(LEN), k=draw(small(3.0)))
    elif t == "sext":
        e.update(L=draw(LEN), h=draw(small(50.0)))
    elif t == "dip":
        e.update(L=draw(LEN), th=draw(st.sampled_from([0.1, 0.05, -0.05, 0.3, 0.01])), k=draw(st.sampled_from([0.0, -0.5, 0.8, 0.3])))
    elif t == "mult":
        pa, pb = draw(multipole_pair())
        e.update(L=draw(LEN), pa=pa, pb=pb)
    elif t == "cor":
        e.update(L=0.0, n=draw(st.integers(1, 3)))
    elif t == "rf":
        e.update(V=draw(num(0.1, 5, 2)) * 1e6, h=draw(st.sampled_from([4, 8, 12])), lag=draw(small(0.3)))
    return e


MAG_KINDS = ("quad", "sext", "dip", "mult")
ALL_KINDS = ("drift", "quad", "sext", "dip", "mult", "cor", "bpm", "mark", "rf")


@st.composite
def elements(draw, min_size=4, max_size=16, kinds=ALL_KINDS, need=()):
    """random element sequences which contain at least the needed kinds"""
    n = draw(st.integers(max(0, min_size - len(need)), max_size - len(need)))
    out = [draw(one_element(kinds)) for _ in range(n)]
    for kind in need:
        out.insert(draw(st.integers(0, len(out))), draw(one_element((kind,))))
    return out


def of_kind(spec, *kinds):
    return [i for i, e in enumerate(spec) if e["t"] in kinds]


def magnets_of(spec, cor=True):
    return of_kind(spec, *(MAG_KINDS + (("cor",) if cor else ())))


# ------------------------------------------------------------------------------------------ stable rings

C0 = 299792458.0


# (cells, mu, cell length): stable, fractional tunes away from integers, half-integers and from each other
WORKING_POINTS = [(6, 0.24, 5.0), (6, 0.22, 6.0), (6, 0.29, 4.0), (8, 0.21, 4.0), (8, 0.21, 5.0), (8, 0.22, 5.0), (8, 0.24, 4.0),
                  (8, 0.25, 6.0), (10, 0.18, 5.0), (10, 0.23, 5.0), (10, 0.25, 4.0), (10, 0.28, 5.0), (10, 0.29, 5.0)]


@st.composite
def ring_spec(draw, points=tuple(WORKING_POINTS), cor_kinds=("thin", "thick"), sexts=(0.0, 1.0, 3.0), cavity=True, cavs=(1,)):
    cells, mu, lcell = draw(st.sampled_from(points))
    return dict(cells=cells, mu=mu, lcell=lcell,
                cor=draw(st.sampled_from(cor_kinds)), sext=draw(st.sampled_from(sexts)), cav=cavity,
                volt=draw(st.sampled_from([0.5e6, 1e6, 3e6])) if cavity else 0.0,
                roll=draw(st.integers(0, 15)),          # rotates the starting point of the ring
                ncav=draw(st.sampled_from(cavs)))


def ring_elements(r, extra_corrector_fields=2):
    """FODO cells: [QF/2? no: QF, D, B, D, BPM, COR, SF, QD, D, B, D, BPM, COR, SD], cavity at the end of the last cell (and of others, which share the voltage)"""
    n, lc = r["cells"], r["lcell"]
    theta = 2 * math.pi / (2 * n)
    lq, ls, lb = 0.3, 0.15, 1.0
    # thin lens: sin(mu/2) = L/(4 f) with L the cell length -> k = 1/(f lq)
    k = 4 * math.sin(math.pi * r["mu"]) / lc / lq
    lbpm = 0.2
    lcor = 0.1 if r["cor"] == "thick" else 0.0
    rest = (lc - 2 * (lq + lb + ls + lcor + lbpm)) / 4
    assert rest > 0.05
    out = []

    def cor(nm):
        if r["cor"] == "thick":
            return dict(t="mult", name=nm, L=lcor, pa=[0.0, 0.0], pb=[0.0, 0.0])
        return dict(t="cor", name=nm, L=0.0, n=2)

    for c in range(n):
        cell = [dict(t="quad", name=f"QF_{c}", L=lq, k=k), dict(t="drift", name=f"DA_{c}", L=lbpm), dict(t="bpm", name=f"BPMA_{c}"),
                cor(f"CORA_{c}"), dict(t="drift", name=f"DB_{c}", L=rest), dict(t="dip", name=f"BA_{c}", L=lb, th=theta, k=0.0),
                dict(t="drift", name=f"DC_{c}", L=rest), dict(t="sext", name=f"SD_{c}", L=ls, h=-r["sext"]),
                dict(t="quad", name=f"QD_{c}", L=lq, k=-k), dict(t="drift", name=f"DD_{c}", L=lbpm), dict(t="bpm", name=f"BPMB_{c}"),
                cor(f"CORB_{c}"), dict(t="drift", name=f"DE_{c}", L=rest), dict(t="dip", name=f"BB_{c}", L=lb, th=theta, k=0.0),
                dict(t="drift", name=f"DF_{c}", L=rest), dict(t="sext", name=f"SF_{c}", L=ls, h=r["sext"])]
        out += cell
        m = r.get("ncav", 1)
        if r["cav"] and n - c <= m:
            circ = n * lc
            h = max(1, int(round(circ * 300e6 / C0)))
            out.append(dict(t="rf", name="CAV", V=r["volt"] / m, f=h * C0 / circ, h=h, lag=0.0))
    s = r.get("roll", 0) % len(out)
    return out[s:] + out[:s]
