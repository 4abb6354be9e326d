"""C24: systematic and random multipole errors. Oracle: books of multipole tables kept by the check, independent field sum."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pv import lat, machine
from pv.c05 import padded_sum
from pv.core import Info, close, diff, equal, facet, fail, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils.sc_tools import read_multipoles


@st.composite
def table(draw, min_rows=1, scale=0.05):
    n = draw(st.integers(min_rows, 7))
    t = draw(st.lists(vec(2, scale), min_size=n, max_size=n))
    if draw(st.booleans()):
        t[draw(st.integers(0, n - 1))][draw(st.integers(0, 1))] = 1.0
    return t


@st.composite
def op(draw):
    k = draw(st.sampled_from(["sys", "sys", "sys", "rand", "rand", "mag", "cm", "cal", "update"]))
    o = dict(op=k, pos=draw(lat.idx_subset(1, 3)))
    if k == "sys":
        order = draw(st.integers(0, 2))
        o.update(order=order, skew=draw(st.booleans()), ba=draw(table(order + 1)), form=draw(st.sampled_from(["float", "int", "view"])))
    elif k == "rand":
        o.update(ba=draw(table()), form=draw(st.sampled_from(["float", "int", "view"])))
    elif k == "mag":
        o.update(order=draw(st.integers(0, 2)), skew=draw(st.booleans()), val=draw(small(1.0)), method=draw(st.sampled_from(["abs", "add"])))
    elif k == "cm":
        o.update(val=draw(small(1e-3)), skew=draw(st.booleans()))
    elif k == "cal":
        o.update(val=draw(vec(3, 0.1)), field=draw(st.sampled_from(["CalErrorA", "CalErrorB"])))
    return o


def as_table(rows, form):
    a = np.array(rows, dtype=float)
    if form == "int":
        return np.round(a * 40).astype(int)
    if form == "view":
        big = np.full((2 * len(a), 4), 7.0)
        big[::2, 1:3] = a
        return big[::2, 1:3]
    return a


@st.composite
def seq_case(draw):
    els = draw(lat.elements(min_size=6, max_size=10, need=("quad", "quad", "sext", "mult", "dip", "cor")))
    return dict(els=els, cal=draw(st.booleans()), pre=draw(st.booleans()), ops=draw(st.lists(op(), min_size=1, max_size=10)))


@facet("C24", "sequences", seq_case(), quick=500, thorough=15000, rule="a multipole table given and a setpoint or another table afterwards")
def check_sequences(case):
    els = case["els"]
    SC = SimulatedCommissioning(lat.build(els))
    mags = lat.magnets_of(els)
    kw = dict(CalErrorB=np.array([0.02]), CalErrorA=np.array([0.02])) if case["cal"] else {}
    SC.register_magnets(np.array(mags), HCM=np.inf, VCM=np.inf, **kw)
    if case["cal"]:
        SC.apply_errors()
    sys = {o: {} for o in mags}  # (source, order) -> rows
    offset = {o: {t: np.array(getattr(SC.RING[o], f"Polynom{t}Offset", [0.0]), dtype=float) for t in "BA"} for o in mags}
    n_tables, after, labels = 0, 0, set()
    for o in case["ops"]:
        ords = lat.pick(mags, o["pos"], keep_order=True)
        frozen = freeze_ring(SC.RING)
        ideal = freeze_sc(SC, ("IDEALRING", "INJ", "SIG", "ORD"))
        if o["op"] == "sys":
            src = "A" if o["skew"] else "B"
            ords = [m for m in ords if len(np.atleast_1d(getattr(SC.RING[m], f"SetPoint{src}"))) > o["order"]]
            if not ords:
                continue
            ba = as_table(o["ba"], o["form"])
            keep = ba.copy()
            SC.set_systematic_multipole_errors(np.array(ords), ba, o["order"], o["skew"])
            equal(ba, keep, "table given by the caller")
            rows = np.array(keep, dtype=float)
            rows[o["order"], 1 if o["skew"] else 0] = 0.0
            for m in ords:
                labels.add("replaced" if (src, o["order"]) in sys[m] else ("several" if sys[m] else ""))
                sys[m][(src, o["order"])] = rows
            ba[:] = 3  # the machine does not depend on the table any more
            n_tables += 1
        elif o["op"] == "rand":
            ba = as_table(o["ba"], o["form"])
            keep = np.array(ba.copy(), dtype=float)
            SC.set_random_multipole_errors(np.array(ords), ba)
            equal(ba, keep, "table given by the caller")
            for m in ords:
                for i, t in enumerate("BA"):
                    now = np.array(getattr(SC.RING[m], f"Polynom{t}Offset"), dtype=float)
                    size = np.array(padded_sum(np.abs(keep[:, i]), np.zeros(len(offset[m][t]))))
                    require(now.ndim == 1 and len(now) == len(size), f"Polynom{t}Offset of length {now.shape} instead of {len(size)}")
                    d = now - padded_sum(offset[m][t], np.zeros(len(size)))
                    require(np.all(np.abs(d) <= 2 * size * (1 + 1e-9) + 1e-15), f"random multipole {d} exceeds two sigma {size}")
                    require(np.all((d != 0) == (size != 0)), f"random multipoles {d} for the uncertainties {size}")
                    offset[m][t] = now.copy()
            ba[:] = 3
            n_tables += 1
            after += n_tables > 1
        elif o["op"] == "mag":
            ords = [m for m in ords if len(SC.RING[m].SetPointB) > o["order"] and len(SC.RING[m].SetPointA) > o["order"]]
            if not ords:
                continue
            SC.set_magnet_setpoints(np.array(ords), o["val"], o["skew"], o["order"], o["method"])
            after += n_tables > 0
        elif o["op"] == "cm":
            SC.set_cm_setpoints(np.array(ords), o["val"], o["skew"], "add")
            after += n_tables > 0
        elif o["op"] == "cal":
            for m in ords:
                c = np.array(getattr(SC.RING[m], o["field"]), dtype=float)
                c[:3] = o["val"][:len(c[:3])]
                setattr(SC.RING[m], o["field"], c)
        else:
            SC.update_magnets(np.array(ords))
        unchanged(ideal, freeze_sc(SC, ("IDEALRING", "INJ", "SIG", "ORD")), f"rest of the machine after {o['op']}")
        now = freeze_ring(SC.RING)
        for i in range(len(els)):
            if i not in ords:
                unchanged(frozen[i], now[i], f"element {i} not addressed by {o['op']}")
            elif o["op"] in ("sys", "rand"):  # only definitions, fields follow with the next update
                for a in ("SetPointA", "SetPointB", "CalErrorA", "CalErrorB", "NomPolynomA", "NomPolynomB", "MagnetOffset"):
                    equal(now[i][a], frozen[i][a], f"{a} of element {i} after {o['op']}")
        # fields of all the magnets after an update of a copy of the machine
        if o["op"] in ("sys", "rand", "cal"):
            SC.update_magnets()
        for m in mags:
            el = SC.RING[m]
            exc = {}
            for t in "AB":
                sp, cal = np.atleast_1d(getattr(el, f"SetPoint{t}")).astype(float), np.atleast_1d(getattr(el, f"CalError{t}")).astype(float)
                exc[t] = sp * (1 + np.array(padded_sum(cal, np.zeros(len(sp))))[:len(sp)])
            for i, t in enumerate("BA"):
                want = padded_sum(exc[t], offset[m][t], *[exc[s][n] * rows[:, i] for (s, n), rows in sys[m].items()])
                close(getattr(el, f"Polynom{t}"), want, f"Polynom{t} of magnet {m} after {o['op']}", rtol=1e-10, atol=1e-14)
                close(getattr(el, f"Polynom{t}Offset", [0.0]), offset[m][t], f"Polynom{t}Offset of magnet {m}", rtol=1e-13)
    return Info(n_tables and after, *labels)


@st.composite
def bad_case(draw):
    return dict(shape=draw(st.sampled_from([[3], [3, 1], [2, 3], [3, 2, 1], [1, 4], [0], [], [2, 2, 2], [4, 3]])), rand=draw(st.booleans()), order=draw(st.integers(0, 1)), skew=draw(st.booleans()), n=draw(st.integers(1, 2)))


@facet("C24", "rejects", bad_case(), quick=80, thorough=500, rule="every case")
def check_rejects(case):
    els = [dict(t="quad", L=0.5, k=1.0), dict(t="drift", L=1.0), dict(t="quad", L=0.5, k=-1.0)]
    SC = SimulatedCommissioning(lat.build(els))
    SC.register_magnets(np.array([0, 2]))
    before = freeze_sc(SC)
    ords = np.array([0, 2][:case["n"]])
    if case["rand"]:
        raises(ValueError, f"table of shape {case['shape']}", SC.set_random_multipole_errors, ords, np.ones(case["shape"]))
    else:
        raises(ValueError, f"table of shape {case['shape']}", SC.set_systematic_multipole_errors, ords, np.ones(case["shape"]), case["order"], case["skew"])
    unchanged(before, freeze_sc(SC), "machine after a malformed table")
    return Info(True)


@facet("C24", "distribution", st.fixed_dictionaries(dict(ba=st.lists(st.lists(num(0.1, 1, 2).map(lambda x: x * 1e-2), min_size=2, max_size=2), min_size=2, max_size=3), seed=st.integers(0, 10 ** 6))),
       quick=8, thorough=60, rule="4000 numbers")
def check_distribution(case):
    ba = np.array(case["ba"])
    els = [dict(t="quad", L=0.5, k=1.0)] * 700
    SC = SimulatedCommissioning(lat.build(els))
    SC.register_magnets(np.arange(700))
    SC.set_random_multipole_errors(np.arange(700), ba)
    rows = len(ba)
    x = np.array([np.stack([SC.RING[i].PolynomBOffset[:rows], SC.RING[i].PolynomAOffset[:rows]], axis=1) / ba for i in range(700)])
    p = stats.kstest(x.ravel(), stats.truncnorm(-2, 2).cdf).pvalue
    require(p > 1e-8, f"random multipoles do not follow the truncated normal distribution (p={p:.2g}, rms {np.std(x):.3f})")
    c = np.corrcoef(x.reshape(700, -1).T) - np.eye(2 * rows)
    require(np.max(np.abs(c)) < 0.23, "random multipoles of different components are correlated")
    r = np.corrcoef(x[:-1].ravel(), x[1:].ravel())[0, 1]
    require(abs(r) < 0.13, f"random multipoles of different magnets are correlated ({r:.2f})")
    return Info(True)


@st.composite
def file_case(draw):
    n = draw(st.integers(1, 12))
    rows = draw(st.lists(vec(2, 0.9), min_size=n, max_size=n))
    return dict(rows=rows, at=[draw(st.integers(0, n - 1)), draw(st.integers(0, 1))], fmt=draw(st.sampled_from(["%g", "%.10e", "%+.6f"])), sep=draw(st.sampled_from([" ", "\t", "   "])), tail=draw(st.booleans()), use=draw(st.booleans()),
                first=draw(st.sampled_from([0, 1])), extra=draw(st.sampled_from([0, 0, 0, 1, 2])),
                unclear=draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 23))))


@facet("C24", "file", file_case(), quick=300, thorough=5000, rule="well-formed file")
def check_file(case):
    rows = [list(r) for r in case["rows"]]
    order, kind = case["at"]
    rows[order][kind] = 1.0
    unclear = case["unclear"] is not None
    if unclear:  # no nominal component, or two of them
        i = case["unclear"] % (2 * len(rows))
        rows[i // 2][i % 2] = 0.5 if (i // 2, i % 2) == (order, kind) else 1.0
        order, kind = 0, 0
    lines = [case["sep"].join([str(i + case["first"])] + [case["fmt"] % v for v in r]) for i, r in enumerate(rows)]
    rows = [[float(case["fmt"] % v) for v in r] for r in rows]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "multipoles.tsv")
        text = "\n".join(lines) + ("\n" if case["tail"] else "") + "".join(f" {k + 2}" for k in range(case["extra"]))
        with open(path, "w") as f:
            f.write(text)
        out = read_multipoles(path)
        with open(path) as f:
            require(f.read() == text, "file changed")
    if case["extra"]:
        require(out is None, "table of incorrect size accepted")
        return Info(False, "incorrect size")
    require(len(out) == 3, "three results")
    table, o, k = out
    require(int(o) == order and int(k) == kind, f"{'not unique: ' if unclear else ''}nominal component order {o} type {k} instead of {order}, {kind}")
    equal(table, [[r[1], r[0]] for r in rows], "normal and skew multipoles")
    if case["use"] and order < 2:  # file: skew, normal; type 0 is skew
        SC = SimulatedCommissioning(lat.build([dict(t="quad", L=0.5, k=2.0)]))
        SC.register_magnets(np.array([0]))
        SC.RING[0].SetPointA[order], SC.RING[0].SetPointB[order] = 0.3, 0.7
        SC.update_magnets()
        base = np.array(SC.RING[0].PolynomA), np.array(SC.RING[0].PolynomB)
        SC.set_systematic_multipole_errors(np.array([0]), table, order, kind == 0)
        SC.update_magnets()
        exc = 0.3 if kind == 0 else 0.7
        for t, (f, b) in enumerate(zip("AB", base)):
            col = [r[t] for r in rows]
            if t == kind:
                col[order] = 0.0  # the nominal one is not added
            close(getattr(SC.RING[0], f"Polynom{f}"), padded_sum(b, exc * np.array(col)), f"Polynom{f} with multipoles from the file", rtol=1e-12, atol=1e-15)
    return Info(True, "skew" if kind == 0 else "normal", "nominal not unique" if unclear else "")
