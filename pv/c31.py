"""C31: plots. Oracle: the data found in the drawn figure against the actual values of the machine; the machine, the plot settings and the results are as without plot."""
import contextlib
import copy

import at
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import LineCollection, PatchCollection, PathCollection
from matplotlib.patches import Rectangle, StepPatch

from pv import beamref, c19, c20, lat, machine
from pv.c15 import ring_machine, ring_machine_case
from pv.core import Discard, Info, close, diff, equal, facet, fail, freeze, freeze_sc, raises, require, sut, unchanged
from pv.lat import C0, num, small, vec
from pySC.core.beam import all_elements_reading, beam_transmission, bpm_reading
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction.bba import is_bba_errored, plot_bba_results, plot_bpm_offsets_from_magnets
from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory
from pySC.correction.rf import correct_rf_frequency, correct_rf_phase
from pySC.correction.tune import tune_scan
from pySC.plotting.plot_lattice import plot_cm_strengths, plot_lattice
from pySC.plotting.plot_phase_space import plot_phase_space
from pySC.plotting.plot_support import plot_support
from pySC.plotting.plot_synoptic import plot_synoptic
from pySC.utils import sc_tools

FONT = 11.5  # settings of the user


@contextlib.contextmanager
def drawing(SC=None, what="machine", parts=("RING", "IDEALRING", "INJ", "SIG", "ORD", "plot")):
    """new figures are drawn; machine and plot settings are as before"""
    plt.close("all")
    plt.pause = lambda *a, **k: None
    plt.rcParams["font.size"] = FONT
    before = freeze_sc(SC, parts) if SC is not None else None
    settings = dict(matplotlib.rcParams)
    yield
    now = dict(matplotlib.rcParams)
    changed = [k for k in settings if str(settings[k]) != str(now.get(k))]
    matplotlib.rcParams.update({k: settings[k] for k in changed})
    require(not changed, f"plot settings left changed: {changed}")
    if SC is not None:
        unchanged(before, freeze_sc(SC, parts), what)


def figure(n=None):
    """axes of the figures drawn last"""
    nums = plt.get_fignums()
    require(len(nums) >= 1, "nothing is drawn")
    return plt.figure(nums[-1] if n is None else n).axes


def labelled(axes, text, axis="y"):
    out = [a for a in axes if text in (a.get_ylabel() if axis == "y" else a.get_xlabel())]
    require(len(out), f"no axes labelled {text!r}")
    return out


def points(axes, label=None, lines=True, sets=True):
    """drawn points (n, 2)"""
    out = [np.zeros((0, 2))]
    for a in axes:
        if lines:
            for line in a.get_lines():
                if label is None or label in str(line.get_label()):
                    x, y = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
                    out.append(np.column_stack((x.ravel(), y.ravel())))
        if sets:
            for c in a.collections:
                if isinstance(c, PathCollection) and (label is None or label in str(c.get_label())):
                    out.append(np.asarray(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)))
        for c in a.containers:
            if label is not None and label in str(c.get_label()) and hasattr(c, "lines"):
                line = c.lines[0]
                if line is not None:
                    out.append(np.column_stack((np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float))))
    out = np.concatenate(out)
    return out[np.all(np.isfinite(out), axis=1)]


def drawn(axes, x, y, what, label=None, rtol=1e-7, exactly=False):
    """all points (x, y) are drawn; exactly: no others"""
    x, y = np.broadcast_arrays(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
    want = np.column_stack((x.ravel(), y.ravel()))
    want = want[np.all(np.isfinite(want), axis=1)]
    got = points(axes, label)
    tol = np.maximum(np.max(np.abs(want), axis=0, initial=0.0), 1e-9) * rtol
    if len(want):
        require(len(got), f"{what}: nothing drawn")
        for w in want:
            require(np.any(np.all(np.abs(got - w) <= tol, axis=1)), f"{what}: {tuple(float(v) for v in w)} is not drawn")
    if exactly:
        for g in got:
            require(len(want) and np.any(np.all(np.abs(want - g) <= tol, axis=1)), f"{what}: {tuple(float(v) for v in g)} is drawn")


def noise_free(case):
    SC, els, bpms, cors = ring_machine(case)
    return SC, els, bpms, cors


@st.composite
def reading_case(draw):
    c = draw(ring_machine_case(modes=("TBT", "TBT", "ORB", "PORB")))
    c.update(shots=draw(st.integers(1, 2)), particles=draw(st.sampled_from([1, 1, 3])), how=draw(st.sampled_from(["bpm", "bpm", "some", "all"])), pos=draw(lat.idx_subset(1, 5)), apert=draw(st.lists(st.integers(0, 60), max_size=4)), rect=draw(st.booleans()),
             noise=draw(st.booleans()), stop=draw(st.sampled_from([None, None, 7, 30])), first=draw(st.booleans()), errors=draw(st.booleans()))
    return c


@facet("C31", "reading", reading_case(), quick=64, thorough=1500, rule="beam seen by some BPM")
def check_reading(case):
    SC, els, bpms, cors = noise_free(case)
    if case["noise"]:
        for b in bpms:
            SC.RING[b].Noise = SC.RING[b].NoiseCO = np.array([2e-5, 1e-5])
    n = len(SC.RING)
    for i, k in enumerate(case["apert"]):
        k %= n
        if case["rect"] and i % 2:
            SC.RING[k].RApertures = np.array([-0.011, 0.012 + 1e-3 * i, -0.008, 0.009])
        else:
            SC.RING[k].EApertures = np.array([0.01 + 1e-3 * i, 0.015])
    if case["stop"] is not None:
        SC.RING[case["stop"] % n].EApertures = np.array([1e-9, 1e-9])
    SC.INJ.nShots = case["shots"]
    if case["mode"] != "ORB":
        SC.INJ.nParticles = case["particles"]
        SC.INJ.beamSize = np.diag(np.ones(6) * 1e-10)
    kw = dict(bpm_ords=np.array(lat.pick(list(bpms), case["pos"]))) if case["how"] == "some" else {}
    if case["how"] != "all" and case["errors"]:
        kw["calculate_errors"] = True
    fun = all_elements_reading if case["how"] == "all" else lambda s: bpm_reading(s, **kw)
    seed = np.random.randint(2 ** 31)
    np.random.seed(seed)
    plain = copy.deepcopy(SC)
    try:
        want = fun(plain)
    except at.AtError:
        raise Discard()
    tbt = copy.deepcopy(SC)
    if case["mode"] == "PORB":  # single turns are shown, only their average is returned
        tbt.INJ.trackMode = "TBT"
    np.random.seed(seed)
    single = fun(tbt)[0]
    SC.plot = True
    np.random.seed(seed)
    if case["first"]:
        fun(SC)  # an earlier plot
        np.random.seed(seed)
    with drawing(SC, "machine after a plotted reading"):
        got = fun(SC)
    require(len(got) == len(want), "number of results")
    for a, b in zip(got, want):
        equal(a, b, "result with plot")
    ax = figure()
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in SC.RING])))
    turns = SC.INJ.nTurns
    ords = kw.get("bpm_ords", SC.ORD.BPM)
    x = np.concatenate([t * s[-1] + s[ords] for t in range(turns)])
    for d, name in enumerate("xy"):
        axes = labelled(ax, rf"\Delta {name}$ [mm]")
        drawn(axes, x, 1e3 * single[d], f"{name} readings", label="BPM reading", exactly=True)
        for i in range(n):
            e = SC.RING[i]
            if hasattr(e, "EApertures"):
                lims = np.array([-1, 1]) * np.asarray(e.EApertures)[d]
            elif hasattr(e, "RApertures"):
                lims = np.asarray(e.RApertures)[2 * d:2 * d + 2]
            else:
                continue
            for t in range(turns):
                drawn(axes, t * s[-1] + s[i] * np.ones(2), 1e3 * lims, f"{name} aperture of element {i}", label="Aperture")
        if case["how"] == "all":
            xs = np.concatenate([t * s[-1] + s for t in range(turns)])
            for shot in range(got[1].shape[4]):
                for p in range(got[1].shape[1]):
                    ys = 1e3 * np.concatenate([got[1][d, p, :, t, shot] for t in range(turns)])
                    sel = slice(None, None, 7)
                    drawn(axes, xs[sel], ys[sel], f"{name} trajectory of particle {p}", label="Particle trajectories")
        lo, hi = axes[0].get_xlim()
        require(lo <= 0 and hi >= turns * s[-1] * (1 - 1e-9), "not all turns are shown")
    return Info(np.any(np.isfinite(single)), case["mode"], case["how"], f"turns {turns}", "lost" if np.any(np.isnan(single)) else "")


@st.composite
def transmission_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    c.update(ap=draw(st.sampled_from([1e-3, 5e-4, 3e-4, None])), particles=draw(st.sampled_from([None, 10, 40])), nturns=draw(st.sampled_from([None, 5, 20])), lost=draw(st.sampled_from([1.0, 0.3, 0.6])), size=draw(st.sampled_from([1e-8, 1e-7])))
    return c


@facet("C31", "transmission", transmission_case(), quick=32, thorough=600, rule="some particles lost")
def check_transmission(case):
    SC, els, bpms, cors = noise_free(case)
    SC.INJ.beamLostAt = case["lost"]
    SC.INJ.nParticles = 20
    SC.INJ.beamSize = np.diag(np.ones(6) * case["size"])
    seed = np.random.randint(2 ** 31)
    np.random.seed(seed)
    want = beam_transmission(SC, case["particles"], case["nturns"])
    np.random.seed(seed)
    with drawing(SC):
        got = beam_transmission(SC, case["particles"], case["nturns"], plot=True)
    equal(got[0], want[0], "turns with plot")
    equal(got[1], want[1], "transmission with plot")
    ax = labelled(figure(), "Beam transmission [%]")
    n = len(want[1])
    drawn(ax, np.arange(n), 100 * want[1], "transmission")
    drawn(ax, [0, n], 100 * (1 - case["lost"]) * np.ones(2), "loss threshold")
    require("turns" in ax[0].get_xlabel(), "label of the turns")
    return Info(np.any(want[1] < 1), f"turns {n}")


@st.composite
def support_case(draw):
    c = draw(machine.machine_case(need=("bpm", "bpm", "quad", "dip", "quad", "drift", "drift")))
    c["apply"] = True
    c.update(lim=draw(st.one_of(st.none(), st.tuples(num(0, 1, 2), num(0, 1, 2)))), font=draw(st.sampled_from([None, 5])), nsup=draw(st.integers(0, 2)), bpm=draw(machine.bpm_reg()), mag=draw(machine.mag_reg(c["els"], kinds=["quad", "dip"])))
    c["regs"] = c["regs"] + [c["bpm"], c["mag"]]
    return c


@facet("C31", "support", support_case(), quick=32, thorough=500, rule="supports registered and shown", shards=4)
def check_support(case):
    if machine.support_conflict(case["regs"], case["els"]):
        raise Discard()
    try:
        SC = machine.make(case)
    except ValueError:
        raise Discard()
    if not len(SC.ORD.BPM) or not len(SC.ORD.Magnet):
        raise Discard()
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in SC.RING])))
    circ = s[-1]
    if circ < 0.01:
        raise Discard()
    kw = {} if case["font"] is None else dict(font_size=case["font"])
    lim = (0.0, circ)
    if case["lim"] is not None:
        lim = tuple(sorted(v * circ for v in case["lim"]))
        if lim[1] - lim[0] < 0.01:
            raise Discard()
        kw["x_lim"] = lim
    with drawing(SC):
        plot_support(SC, **kw)
    ax = figure()
    g = lambda ords, name, m=3: np.array([np.pad(np.ravel(np.asarray(getattr(SC.RING[o], name), dtype=float)), (0, 3))[:m] for o in ords])  # noqa: E731
    mags, bpms = SC.ORD.Magnet, SC.ORD.BPM
    total = np.array([np.asarray(SC.RING[o].T2)[[0, 2, 5]] for o in mags])
    shown = 0
    for d in range(3):
        off = labelled(ax, r"\Delta " + "xyz"[d] + r"$ [$\mu$m]")
        rol = labelled(ax, "a_" + "zxy"[d] + r"$ [$\mu$rad]")
        um = 1e6
        drawn(off, s[mags], um * g(mags, "SupportOffset")[:, d], "support offset of magnets", label="Overall supports", exactly=True)
        drawn(rol, s[mags], um * g(mags, "SupportRoll")[:, d], "support roll of magnets", label="Overall supports", exactly=True)
        drawn(off, s[mags], um * g(mags, "MagnetOffset")[:, d], "offset of magnets", label="Individual Magnet", exactly=True)
        drawn(rol, s[mags], um * g(mags, "MagnetRoll")[:, d], "roll of magnets", label="Individual Magnet", exactly=True)
        drawn(off, s[mags], um * total[:, d], "overall offset of magnets", label="Overall magnet offset", exactly=True)
        drawn(rol, s[mags], um * (g(mags, "MagnetRoll") + g(mags, "SupportRoll"))[:, d], "overall roll of magnets", label="Overall magnet roll", exactly=True)
        for name, lab in (("Offset", "Random BPM offset"), ("SupportOffset", "BPM support offset")):
            v = g(bpms, name, 2)
            drawn(off, s[bpms], um * (v[:, d] if d < 2 else 0 * v[:, 0]), lab, label=lab, exactly=True)
        for name, lab in (("Roll", "Random BPM roll"), ("SupportRoll", "BPM support roll")):
            v = g(bpms, name, 1)[:, 0]
            drawn(rol, s[bpms], um * (v if d == 0 else 0 * v), lab, label=lab, exactly=True)
        inside = [a for a in off + rol if a.get_xlim()[0] <= lim[0] + 1e-9 and a.get_xlim()[1] >= lim[1] - 1e-9]
        require(len(inside) == len(off + rol), "range of the plot")
        for t in machine.SUPPORTS:
            for a, b in np.reshape(SC.ORD[t], (2, -1)).T:
                if not (lim[0] <= s[a] <= lim[1] or lim[0] <= s[b] <= lim[1]):
                    continue
                shown += 1
                A, B = SC.RING[a], SC.RING[b]
                drawn(off, s[[a, b]], um * np.array([getattr(A, t + "Offset")[d], getattr(B, t + "Offset")[d]]), f"offset of {t} {a, b}")
                drawn(rol, s[[a, b]], um * getattr(A, t + "Roll")[d] * np.ones(2), f"roll of {t} {a, b}")
                # the support is one straight line over its length
                length = machine.pair_length(s, a, b)
                if a > b and length > 1e-6:
                    f = (circ - s[a]) / length
                    v = (1 - f) * getattr(A, t + "Offset")[d] + f * getattr(B, t + "Offset")[d]
                    if 1e-9 < f < 1 - 1e-9:
                        drawn(off, [circ, 0.0], um * v * np.ones(2), f"{t} {a, b} at the end of the ring", rtol=1e-6)
        for axes, k in ((off, 0), (rol, 1)):  # the line of the supports
            steps = [p for a in axes for p in a.patches if isinstance(p, StepPatch)]
            for p in steps:
                v, e, _ = p.get_data()
                sel = np.arange(0, len(v), max(1, len(v) // 12))
                want = SC.support_offset_and_roll(np.array(e)[:-1][sel])[k][d]
                close(np.asarray(v)[sel], um * np.asarray(want), "line of the supports", rtol=1e-9, atol=1e-9)
    return Info(shown > 0, "range" if case["lim"] else "all")


def shape_of(v):
    width = v[:, 0].max() - v[:, 0].min()
    return tuple(np.round(np.ravel(np.column_stack(((v[:, 0] - v[:, 0].min()) / (width or 1.0), v[:, 1]))), 6) + 0.0)


@st.composite
def lattice_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    c.update(how=draw(st.sampled_from(["all", "range", "indices", "sectors"])), a=draw(num(0, 0.5, 2)), b=draw(num(0.6, 1, 2)), idx=draw(st.lists(st.integers(0, 95), min_size=2, max_size=5, unique=True)), sect=draw(st.sampled_from([2, 3, 6])),
             ideal=draw(st.booleans()), names=draw(st.booleans()), apert=draw(st.lists(st.integers(0, 60), max_size=4)), rect=draw(st.booleans()), big=draw(st.booleans()), before=draw(st.booleans()), skew=draw(lat.idx_subset(0, 3)), line=draw(st.booleans()), rbig=draw(st.integers(0, 15)), sks=draw(st.integers(0, 7)), also=draw(st.integers(0, 3)))
    return c


@facet("C31", "lattice", lattice_case(), quick=96, thorough=400, rule="every case", shards=6)
def check_lattice(case):
    SC, els, bpms, cors = noise_free(case)
    n = len(SC.RING)
    ring = SC.IDEALRING if case["ideal"] else SC.RING
    for i, k in enumerate(case["apert"]):
        k %= n
        if case["rect"] and i % 2:
            far = [20.0 if case["rbig"] >> j & 1 else 1.0 for j in range(4)]
            ring[k].RApertures = np.array([-0.011, 0.012 + 1e-3 * i, -0.008, 0.009]) * far
        else:
            ring[k].EApertures = np.array([0.2 if case["big"] else 0.01 + 1e-3 * i, 0.015])
    quads = np.array(lat.of_kind(els, "quad"))
    if case["skew"]:
        sk = np.array(lat.pick(list(quads), case["skew"]))
        SC.register_magnets(sk, SkewQuad=np.inf)
        for j, o in enumerate(sk):
            SC.IDEALRING[o].PolynomA = np.array([0.0, -1e-6 if case["sks"] >> j & 1 else 1e-6])
    else:
        sk = np.array([], dtype=int)
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in ring])))
    kw, lim = {}, (0.0, s[-1])
    if case["before"]:
        ring.s_range = (1.0, 0.9 * s[-1])
    initial = tuple(ring.s_range)
    if case["how"] == "range":
        lim = (case["a"] * s[-1], case["b"] * s[-1])
        kw["s_range"] = np.array(lim)
        if case["also"] & 1:  # the range has priority
            kw["indices"] = np.array([i % n for i in case["idx"]])
        if case["also"] & 2:
            kw["n_sectors"] = case["sect"]
    elif case["how"] == "indices":
        if case["also"] & 2:
            kw["n_sectors"] = case["sect"]
        idx = [i % n for i in case["idx"]]
        lim = (s[min(idx)], s[max(idx)])
        kw["indices"] = np.array(idx)
        if lim[1] - lim[0] < 1.0:
            raise Discard()
    elif case["how"] == "sectors":
        lim = (0.0, s[-1] / case["sect"])
        kw["n_sectors"] = case["sect"]
    else:
        lim = initial
    try:
        _, _, opt = at.get_optics(ring.deepcopy(), range(n + 1), get_chrom=True)
    except at.AtError:
        raise Discard()
    if not np.all(np.isfinite(opt.beta)):
        raise Discard()
    with drawing(SC):
        plot_lattice(SC, ideal_ring=case["ideal"], plot_magnet_names=case["names"], transfer_line=case["line"], **kw)
    close(tuple(ring.s_range), initial, "range of the lattice after the plot", rtol=0, atol=0)
    ax = figure()
    beta = labelled(ax, r"$\beta$ [m]")
    disp = labelled(ax, "dispersion [cm]")
    apert = labelled(ax, "Aperture [mm]")
    inside = [i for i in range(n + 1) if lim[0] + 1e-6 < s[i] < lim[1] - 1e-6]
    for i, p in enumerate("xy"):
        drawn(beta, s[inside], opt.beta[inside, i], f"beta function {p}", label=rf"$\beta_{p}$", rtol=2e-4)
    drawn(disp, s[inside], 100 * opt.dispersion[inside, 0], "dispersion [cm]", label=r"$D_x$", rtol=2e-3)
    for a in beta + apert:
        close(sorted(a.get_xlim()), sorted(lim), "shown range", rtol=1e-9, atol=1e-9)
    for i in range(n):
        if not (lim[0] + 1e-6 < s[i] < lim[1] - 1e-6) or not getattr(ring[i], "Length", 0) > 0.05:
            continue
        for name in ("EApertures", "RApertures"):
            if hasattr(ring[i], name):
                v = np.asarray(getattr(ring[i], name), dtype=float)
                lims = [[-v[0], v[0]], [-v[1], v[1]]] if name[0] == "E" else [v[:2], v[2:]]
                for d, w in enumerate(lims):
                    lab = (r"elliptic$_{" + "ab"[d] if name[0] == "E" else r"rectangular$_{" + "xy"[d])
                    w = np.array([u for u in w if abs(u) <= 0.1])
                    drawn(apert, s[i] * np.ones(len(w)), 1e3 * w, f"aperture {name} of element {i}", label=lab)
    for a in apert:
        for line in a.get_lines():
            y = np.asarray(line.get_ydata(), dtype=float)
            require(not np.any(np.abs(y[np.isfinite(y)]) > 100 * (1 + 1e-9)), "apertures beyond 100 mm are drawn")
    # elements
    boxes = []
    for a in ax:
        for c in a.collections:
            if isinstance(c, PatchCollection):
                col = tuple(np.round(np.ravel(c.get_facecolor()[:1]), 3)) if len(c.get_facecolor()) else ()
                edge = tuple(np.round(np.ravel(c.get_edgecolor()[:1]), 3)) if len(c.get_edgecolor()) else ()
                boxes += [(p.vertices[:, 0].min(), p.vertices[:, 0].max(), p.vertices[:, 1].min(), col, edge, shape_of(p.vertices)) for p in c.get_paths()]
    kinds = {}
    shapes = {}  # of focusing and of defocusing ones
    for i, e in enumerate(els):
        if e["t"] in ("quad", "dip", "sext"):
            hits = [b for b in boxes if abs(b[0] - s[i]) < 1e-9 and abs(b[1] - s[i + 1]) < 1e-9]
            require(len(hits), f"element {e['name']} is not drawn at its place")
            kinds.setdefault(e["t"], set()).update(h[3] for h in hits if h[3] and h[3][-1] > 0)
            if e["t"] in ("quad", "sext"):
                k = SC.IDEALRING[i].PolynomB[1 if e["t"] == "quad" else 2]
                if k:
                    shapes.setdefault((e["t"], k > 0), set()).update(h[5] for h in hits if h[3] and h[3][-1] > 0)
            if i in sk:
                hollow = [b[5] for b in boxes if abs(b[0] - s[i]) < 1e-9 and b[1] > b[0] + 1e-9 and b[3] and b[3][-1] == 0]
                require(len(hollow), f"skew quadrupole {i} is not drawn")
                shapes.setdefault(("skew", SC.IDEALRING[i].PolynomA[1] > 0), set()).update(hollow)
    for (kind, positive), found in shapes.items():
        require(len(found) == 1, f"{'focusing' if positive else 'defocusing'} magnets of one kind ({kind}) are drawn differently")
        require(shapes.get((kind, not positive)) != found, f"focusing and defocusing magnets ({kind}) are drawn alike")
    common = [set.intersection(kinds[a], kinds[b]) for a in kinds for b in kinds if a < b]
    require(not any(common), "different kinds of magnets are drawn alike")
    for p, ords in enumerate((SC.ORD.HCM, SC.ORD.VCM)):
        for o in ords:
            require(any(abs(b[0] - s[o]) < 1e-9 and (b[2] < 0) == bool(p) and b[3] and b[3][-1] == 0 for b in boxes), f"corrector {o} of plane {p} is not drawn")
    for o in SC.ORD.BPM:
        require(any(abs(b[0] - s[o]) < 1e-9 and abs(b[1] - s[o]) < 1e-9 for b in boxes), f"BPM {o} is not drawn")
    return Info(True, case["how"], "ideal" if case["ideal"] else "", "apertures" if case["apert"] else "")


@st.composite
def phase_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    c.update(ord=draw(st.one_of(st.none(), st.integers(0, 95))), n=draw(st.integers(1, 4)), bunch=draw(st.lists(vec(6, 1e-4), min_size=1, max_size=4)), how=draw(st.sampled_from(["custom", "custom", "number", "default"])), turns2=draw(st.sampled_from([None, 1, 7])),
             co=draw(st.booleans()), on=draw(st.booleans()), df=draw(st.sampled_from([0.0, 500.0])), stop=draw(st.booleans()), bad=draw(st.booleans()))
    return c


@facet("C31", "phasespace", phase_case(), quick=32, thorough=500, rule="beam survives", shards=4)
def check_phase(case):
    SC, els, bpms, cors = noise_free(case)
    if case["df"]:
        SC.set_cavity_setpoints(SC.ORD.RF, case["df"], "Frequency", "add")
    if case["on"]:
        for o in SC.ORD.RF:
            SC.RING[o].PassMethod = "RFCavityPass"
    if case["stop"]:
        SC.RING[len(els) // 2].EApertures = np.array([2e-4, 2e-4])
    SC.INJ.nParticles = case["n"]
    SC.INJ.beamSize = np.diag(np.ones(6) * 1e-10)
    SC.INJ.Z0[4:] = [1e-3, 0.02]
    kw = {}
    rec = beamref.recorder(SC)
    o = 0 if case["ord"] is None else case["ord"] % len(els)
    if case["ord"] is not None:
        kw["ords"] = np.array([o])
    if case["turns2"]:
        kw["nTurns"] = case["turns2"]
    turns = case["turns2"] or SC.INJ.nTurns
    if case["how"] == "custom":
        kw["custom_bunch"] = np.array(case["bunch"]).T
    elif case["how"] == "number":
        kw["nParticles"] = 3
    orbit = None
    if case["co"]:
        kw["plotCO"] = True
        try:
            orbit = np.array(at.find_orbit6(SC.RING.deepcopy(), refpts=np.array([o]), keep_lattice=False)[1])[0]
        except at.AtError:
            raise Discard()
        if np.any(np.isnan(orbit)):
            raise Discard()
    if case["bad"]:
        with drawing(SC):
            raises(ValueError, "bunch and number of particles", plot_phase_space, SC, **dict(kw, custom_bunch=np.array(case["bunch"]).T, nParticles=2))
            raises(ValueError, "bunch of the wrong shape", plot_phase_space, SC, **dict({k: v for k, v in kw.items() if k != "nParticles"}, custom_bunch=np.zeros((5, 2))))
    given = copy.deepcopy(kw)
    with drawing(SC):
        plot_phase_space(SC, **kw)
    d = diff(freeze(given), freeze(kw))
    require(not d, f"arguments changed{d}")
    z = given["custom_bunch"] if case["how"] == "custom" else rec[-1]
    require(z.shape[1] == (dict(custom=len(case["bunch"]), number=3).get(case["how"]) or case["n"]), "number of particles")
    t = beamref.track(SC.RING, z, turns, [o])[:, :, 0, :]
    cav = SC.RING[int(SC.ORD.RF[0])]
    s_end = sum(getattr(e, "Length", 0.0) for e in SC.RING)
    if cav.PassMethod == "RFCavityPass":
        t[5] -= (C0 * cav.HarmNumber / cav.Frequency - s_end) * np.arange(turns)
    ax = figure()
    scale = [1e6, 1e6, 1e6, 1e6, 1.0, 1e2]
    pick = [0, 1, 2, 3, 5, 4]
    for k, title in enumerate(("Horizontal", "Vertical", "Longitudinal")):
        axes = [a for a in ax if a.get_title().startswith(title)]
        require(len(axes) == 1, f"axes of the {title.lower()} plane")
        i, j = pick[2 * k], pick[2 * k + 1]
        dots = [c for a in axes for c in a.collections if isinstance(c, PathCollection)]
        got = np.concatenate([np.asarray(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)) for c in dots])
        got = got[np.all(np.isfinite(got), axis=1)]
        want = np.column_stack((t[i].ravel() * scale[2 * k], t[j].ravel() * scale[2 * k + 1]))
        want = want[np.all(np.isfinite(want), axis=1)]
        tol = np.maximum(np.max(np.abs(want), axis=0, initial=0), 1e-6) * 1e-6 + (1e-6 if k < 2 else 1e-9)
        require(len(got) == len(want), f"{title}: {len(got)} particles are drawn instead of {len(want)}")
        for w in want:
            require(np.any(np.all(np.abs(got - w) <= tol, axis=1)), f"{title}: particle at {w} is not drawn")
        z0 = SC.INJ.Z0
        drawn(axes, [z0[i] * scale[2 * k]], [z0[j] * scale[2 * k + 1]], "injection point", label="Injection point", exactly=True)
        if case["co"]:
            drawn(axes, [orbit[i] * scale[2 * k]], [orbit[j] * scale[2 * k + 1]], "closed orbit", label="Closed orbit", rtol=1e-4)
        require(els[o]["name"] in axes[0].get_title(), "title names the element")
    return Info(len(want) > 0, case["how"], f"turns {turns}", "orbit" if case["co"] else "", "rf" if cav.PassMethod == "RFCavityPass" else "")


@st.composite
def strength_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    c.update(kicks=draw(st.lists(vec(2, 9e-4), min_size=1, max_size=12)), lim=None, limits=None)
    return c


@facet("C31", "strengths", strength_case(), quick=24, thorough=300, rule="non-zero strengths")
def check_strengths(case):
    SC, els, bpms, cors = noise_free(case)
    for i, c in enumerate(cors):
        for p in range(2):
            SC.set_cm_setpoints(c, case["kicks"][i % len(case["kicks"])][p] * (1 + 0.01 * i), bool(p))
    with drawing(SC):
        plot_cm_strengths(SC)
    ax = figure()
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in SC.RING])))
    bars = [(r.get_x() + r.get_width() / 2, r.get_y() + r.get_height(), r.get_y()) for a in labelled(ax, "CM strength") for r in a.patches if isinstance(r, Rectangle)]
    cdf = labelled(ax, "CDF")
    curves = [np.column_stack((line.get_xdata(), line.get_ydata())) for a in cdf for line in a.get_lines()]
    require(len(curves) == 2, "two distributions")
    for p, ords in enumerate(SC.ORD.CM):
        k = 1e6 * np.array([SC.get_cm_setpoints(o, bool(p))[0] for o in ords])
        for o, v in zip(ords, k):
            require(any(abs(b[0] - s[o]) < 1e-9 and (abs(b[1] - v) <= 1e-9 * abs(v) + 1e-12 or abs(b[2] - v) <= 1e-9 * abs(v) + 1e-12) for b in bars), f"strength {v} of corrector {o} in plane {p} is not drawn")
        if np.ptp(k) > 1e-9:
            tol = 1e-9 * np.max(np.abs(k))
            for x, y in curves[p]:
                require(np.mean(k < x - tol) - 1e-9 <= y <= np.mean(k <= x + tol) + 1e-9, f"distribution in plane {p}: {y} at {x}")
            close(curves[p][-1, 1], 1.0, "end of the distribution", rtol=1e-9)
    return Info(True)


@st.composite
def bba_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    n = draw(st.integers(1, 9))
    c.update(bpmerr=True, mis=True, pos=draw(st.lists(st.integers(0, 19), min_size=n, max_size=n, unique=True)), planes=draw(st.sampled_from([2, 2, 1])), off=draw(st.lists(st.sampled_from([1e-4, -3e-4, 2e-3, float("nan"), 5e-7, 9e-4, -1e-5]), min_size=3, max_size=9)),
             err=draw(st.lists(st.sampled_from([1e-6, 1e-5, 4e-5]), min_size=3, max_size=5)), what=draw(st.sampled_from(["results", "results", "magnets"])), sort=draw(st.booleans()), mix=draw(st.booleans()))
    return c


@facet("C31", "bba", bba_case(), quick=48, thorough=800, rule="more than one BPM", shards=4)
def check_bba(case):
    SC, els, bpms, cors = noise_free(case)
    chosen = [int(bpms[i % len(bpms)]) for i in case["pos"]]
    chosen = list(dict.fromkeys(chosen))
    if case["sort"]:
        chosen = sorted(chosen)
    rows = [chosen] + ([chosen[::-1] if case["mix"] else chosen] if case["planes"] == 2 else [])
    bo = np.array(rows)
    quads = np.array(lat.of_kind(els, "quad"))
    mo = np.array([[quads[np.argmin(np.abs(quads - b))] for b in r] for r in rows])
    index = {int(b): i for i, b in enumerate(SC.ORD.BPM)}
    names = ("Horizontal", "Vertical")
    keep = bo.copy(), mo.copy()
    if case["what"] == "results":
        flat = np.array([case["off"][i % len(case["off"])] for i in range(bo.size)]).reshape(bo.shape)
        err = np.array([case["err"][i % len(case["err"])] for i in range(bo.size)]).reshape(bo.shape)
        failed = np.array([[not np.isfinite(flat[i, j]) or abs(flat[i, j]) > 1.5e-3 or abs(flat[i, j]) < 2.5 * err[i, j] for j in range(bo.shape[1])] for i in range(bo.shape[0])])
        with drawing(SC):
            plot_bba_results(SC, bo, flat, err)
        values = flat
    else:
        failed = np.array([case["off"][i % len(case["off"])] > 5e-4 for i in range(bo.size)]).reshape(bo.shape)
        values = np.array([[SC.RING[b].Offset[d] + SC.RING[b].SupportOffset[d] - SC.RING[m].MagnetOffset[d] - SC.RING[m].SupportOffset[d] for b, m in zip(bo[d], mo[d])] for d in range(bo.shape[0])])
        with drawing(SC):
            plot_bpm_offsets_from_magnets(SC, bo, mo, failed.copy())
    equal(bo, keep[0], "BPMs of the caller")
    equal(mo, keep[1], "magnets of the caller")
    ax = figure()
    for d in range(bo.shape[0]):
        axes = [a for a in ax if any(t.get_text().startswith(names[d]) and "rms" not in t.get_text() for t in (a.get_legend().get_texts() if a.get_legend() else []))]
        require(len(axes) == 1, f"axes of the {names[d].lower()} plane")
        x = np.array([index[int(b)] for b in bo[d]])
        drawn(axes, x, 1e6 * values[d], f"offsets in plane {d}")
        drawn(axes, x[failed[d]], 1e6 * values[d][failed[d]], f"failed offsets in plane {d}", label="failed", exactly=True)
        require("[$\\mu$m]" in axes[0].get_ylabel() and "BPM" in axes[0].get_xlabel(), "labels")
    return Info(len(chosen) > 1, case["what"], "sorted" if case["sort"] else "any order", f"{len(chosen)} BPMs")


@st.composite
def injection_case(draw):
    c = draw(ring_machine_case(modes=("TBT",), sexts=(0.0,)))
    c.update(turns=2, fit=draw(st.sampled_from(["drift", "trajectory"])), dims=draw(st.sampled_from([None, None, [0], [1]])), inds=draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=2, max_size=5, unique=True))), noise=draw(st.booleans()))
    return c


@facet("C31", "injection", injection_case(), quick=40, thorough=600, rule="injection error", shards=4)
def check_injection(case):
    SC, els, bpms, cors = noise_free(case)
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in SC.RING])))
    if case["noise"]:
        for b in bpms:
            SC.RING[b].Noise = np.array([1e-6, 1e-6])
    seed = np.random.randint(2 ** 31)
    other = copy.deepcopy(SC)
    np.random.seed(seed)
    bref = np.array(bpm_reading(other)[0])
    if np.any(np.isnan(bref)):
        raise Discard()
    n = len(bpms)
    if case["fit"] == "drift":
        np.random.seed(seed)
        want = fit_injection_drift(other)
        kw = {} if case["dims"] is None else dict(n_dims=np.array(case["dims"]))
        np.random.seed(seed)
        with drawing(SC):
            got = fit_injection_drift(SC, plot=True, **kw)
        equal(got, want, "correction with plot")
        ax = figure()
        x = np.array([s[bpms[-1]] - s[-1], s[bpms[0]]])
        for d in case["dims"] or (0, 1):
            axes = labelled(ax, ("Hor.", "Ver.")[d])
            drawn(axes, x, 1e3 * bref[d, [n - 1, n]], "readings", label="BPM reading", exactly=True)
            drawn(axes, x, 1e3 * (-want[2 * d] - want[2 * d + 1] * x), "fitted trajectory", label="Fitted", exactly=True)
            drawn(axes, x, 1e3 * (SC.INJ.Z0[2 * d] + SC.INJ.Z0[2 * d + 1] * x), "real trajectory", label="Real", exactly=True)
        return Info(np.any(SC.INJ.Z0), "drift")
    inds = np.array([0, 1, 2] if case["inds"] is None else sorted(case["inds"]))
    kw = {} if case["inds"] is None else dict(bpm_inds=inds.copy())
    np.random.seed(seed)
    want = fit_injection_trajectory(other, **kw)
    np.random.seed(seed)
    with drawing(SC, parts=("RING", "IDEALRING", "SIG", "ORD", "plot")):
        got = fit_injection_trajectory(SC, plot=True, **kw)
    equal(got, want, "correction with plot")
    close(SC.INJ.Z0, other.INJ.Z0, "injection with plot", rtol=0, atol=0)
    after = np.array(bpm_reading(other)[0])[:, inds] if not case["noise"] else None
    ax = figure()
    for d in range(2):
        axes = labelled(ax, ("Hor.", "Ver.")[d])
        drawn(axes, s[bpms[inds]], 1e3 * bref[d, inds], "initial readings", label="Initial", exactly=True)
        if after is not None:
            drawn(axes, s[bpms[inds]], 1e3 * after[d], "readings after the correction", label="After correction", exactly=True, rtol=1e-6)
    return Info(np.any(case["z0"]), "trajectory")


@st.composite
def rf_case(draw):
    c = draw(c19.machine_case())
    c.update(rad=False, turns=draw(st.integers(5, 8)), steps=draw(st.integers(10, 16)), phase=draw(st.booleans()), df=draw(st.sampled_from([0.0, 300.0, -200.0])), progress=draw(st.booleans()), stop=draw(st.sampled_from([None, None, 0.5])), sub=None)
    if not c["phase"]:
        c["lag"] = 0.0
    else:
        c["df"] = 0.0
    return c


@facet("C31", "rf", rf_case(), quick=24, thorough=300, rule="correction made", shards=6)
def check_rf(case):
    SC, els, bpms, cavs, lam = c19.make(case)
    if case["stop"]:
        for e in SC.RING:  # beam lost for some of the steps
            if e.FamName.startswith("B"):
                e.EApertures = np.array([case["stop"] * 1e-2, 1e-2])
    kw = dict(n_steps=case["steps"])
    if not case["phase"]:
        kw["f_range"] = np.array([-1e3, 1e3])
    fun = correct_rf_phase if case["phase"] else correct_rf_frequency
    name = "TimeLag" if case["phase"] else "Frequency"
    other = copy.deepcopy(SC)
    start = float(getattr(SC.RING[int(cavs[0])], name + "SetPoint"))
    seed = np.random.randint(2 ** 31)
    np.random.seed(seed)
    error = None
    try:
        fun(other, **kw)
    except RuntimeError as exc:
        error = exc
    np.random.seed(seed)
    with drawing(SC, "machine (other than the ring)", parts=("IDEALRING", "INJ", "SIG", "ORD", "plot")):
        if error is not None:
            raises(RuntimeError, "failing correction with plot", fun, SC, plot_results=True, plot_progress=case["progress"], **kw)
        else:
            out = fun(SC, plot_results=True, plot_progress=case["progress"], **kw)
            require(out is SC, "returned machine")
    unchanged(freeze_sc(other), freeze_sc(SC), "machine corrected with plot")
    if error is not None:
        return Info(False, "failed")
    change = float(getattr(SC.RING[int(cavs[0])], name + "SetPoint")) - start
    ax = figure()
    xs = 360 / lam if case["phase"] else 1e-3
    axes = labelled(ax, "RF phase [deg]" if case["phase"] else "kHz", axis="x")
    if change == 0:
        return Info(False, "no correction")
    p = points(axes, "Corrected")
    require(len(p) == 1, "corrected setting is not drawn")
    close(p[0], [xs * change, 0.0], "corrected setting", rtol=1e-6, atol=1e-6)
    test = xs * (lam * np.linspace(-0.5, 0.5, case["steps"]) if case["phase"] else np.linspace(-1e3, 1e3, case["steps"]))
    for m in (points(axes, "Measurement"), points(axes, "Fit")):
        require(len(m) >= (6 if case["phase"] else 3), "measured points")
        for v in m:
            require(np.min(np.abs(test - v[0])) <= 1e-9 * np.max(np.abs(test)), f"value {v[0]} is not a setting of the scan")
    # measured shift per turn at single settings, found independently
    m = points(axes, "Measurement")
    for k in (0, len(m) // 2, len(m) - 1):
        probe = copy.deepcopy(other)
        probe.set_cavity_setpoints(cavs, -change, name, "add")
        probe.set_cavity_setpoints(cavs, m[k, 0] / xs, name, "add")
        x = np.reshape(bpm_reading(probe)[0][0], (probe.INJ.nTurns, len(probe.ORD.BPM)))
        dev = x - x[0]
        mean, err = np.mean(dev, axis=1), np.std(x, axis=1) / np.sqrt(x.shape[1])
        ok = ~np.isnan(mean)
        w = 1 / (err[ok] + 1e-9)
        t = np.arange(len(mean))[ok]
        A = np.column_stack((t, np.ones(len(t)))) * w[:, None]
        slope = np.linalg.lstsq(A, mean[ok] * w, rcond=None)[0][0]
        close(m[k, 1], 1e6 * slope, f"measured shift [um/turn] at {m[k, 0]}", rtol=1e-3, atol=1e-3 * np.max(np.abs(m[:, 1])))
    f = points(axes, "Fit")
    zero = points(axes, "Initial")
    require(len(zero) == 1 and abs(zero[0, 0]) < 1e-9, "initial setting")
    if not case["phase"]:  # straight line through the corrected setting
        slope = (f[-1, 1] - f[0, 1]) / (f[-1, 0] - f[0, 0])
        close(zero[0, 1], -slope * xs * change, "fit at the initial setting", rtol=1e-5, atol=1e-6 * np.max(np.abs(f[:, 1])))
    if case["progress"]:
        require(len(plt.get_fignums()) >= 2, "progress is not drawn")
        prog = [a for n in plt.get_fignums() for a in plt.figure(n).axes if (r"\Delta \phi$ [m]" if case["phase"] else r"\Delta f$ [Hz]") in a.get_xlabel()]
        require(len(prog), "progress is not drawn")
        last = points(prog[-1:])
        drawn(prog[-1:], m[:, 0] / xs, m[:, 1], "measurements in the progress plot", rtol=1e-6)
        require(len(last) >= len(m), "progress")
    return Info(True, "phase" if case["phase"] else "frequency", "progress" if case["progress"] else "", "lost" if case["stop"] else "")


@st.composite
def scan_case(draw):
    c = draw(c20.machine_case(sexts=(0.0,)))
    c.update(fam="QF|QD", n=draw(st.lists(st.integers(2, 6), min_size=2, max_size=2)), points=draw(st.integers(2, 6)), full=draw(st.booleans()), particles=draw(st.sampled_from([4, 9])), turns=draw(st.integers(2, 6)), w=draw(st.sampled_from([0.02, 0.05])), target=draw(st.sampled_from([1, 2])), ap=draw(st.sampled_from([8e-4, 1.2e-3, 2e-3])))
    return c


@facet("C31", "scan", scan_case(), quick=24, thorough=300, rule="scan with different transmissions", shards=6)
def check_scan(case):
    SC, els, fams = c20.make(case)
    SC.INJ.beamSize = np.diag([1e-7, 3e-9, 1e-7, 3e-9, 1e-8, 1e-8])
    for o in fams[1][:1]:
        SC.RING[o].EApertures = np.array([case["ap"], case["ap"]])
    q = [1 + case["w"] * np.linspace(-1, 1, n) + 1e-3 * i for i, n in enumerate(case["n"])]
    kw = dict(n_points=case["points"], nParticles=case["particles"], nTurns=case["turns"], full_scan=case["full"], target=case["target"])
    seed = np.random.randint(2 ** 31)
    other = copy.deepcopy(SC)
    np.random.seed(seed)
    try:
        want = tune_scan(other, fams, q, **kw)
    except RuntimeError:
        raise Discard()
    keep = copy.deepcopy(q)
    np.random.seed(seed)
    with drawing(SC, "machine (other than the ring)", parts=("IDEALRING", "INJ", "SIG", "ORD", "plot")):
        got = tune_scan(SC, fams, q, do_plot=True, **kw)
    unchanged(freeze_sc(other), freeze_sc(SC), "machine scanned with plot")
    close(got[1], want[1], "setpoints with plot", rtol=0, atol=0)
    equal(got[2], want[2], "turns with plot")
    equal(got[3], want[3], "transmission with plot")
    for a, b in zip(q, keep):
        equal(a, b, "grid of the caller")
    names = [els[f[0]]["name"] for f in fams]
    ax = figure()
    pictures = [(a, im) for a in ax for im in a.get_images()]
    require(len(pictures) >= 2, "two maps")
    values = []
    for a, im in pictures[-2:]:
        data = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
        order = [[i for i in range(2) if names[i] in text] for text in (a.get_xlabel(), a.get_ylabel())]
        require(order in ([[0], [1]], [[1], [0]]), "axes are labelled by the families")
        x, y = order[0][0], order[1][0]
        require(data.shape == (len(q[y]), len(q[x])), f"map of shape {data.shape} for {len(q[x])} settings along x and {len(q[y])} along y")
        for fam, axis in ((x, a.xaxis), (y, a.yaxis)):
            for loc, text in zip(axis.get_ticklocs(), [t.get_text() for t in axis.get_ticklabels()]):
                require(abs(float(text.replace("−", "-")) - (q[fam][int(loc)] - 1)) < 1.1e-5, f"tick {text} at setting {q[fam][int(loc)] - 1}")
        values.append(data if x == 1 else data.T)  # [first family, second family]
    tr, turns = 100 * want[3][:, :, -1], want[2]
    ok = (lambda a, b: np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True))
    require((ok(values[0], tr) and ok(values[1], turns)) or (ok(values[1], tr) and ok(values[0], turns)), "maps show other values")
    return Info(np.nanmax(tr) > np.nanmin(tr), f"{case['n'][0] == case['n'][1] and 'square' or 'not square'}")


@st.composite
def pinv_case(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return dict(a=draw(st.lists(st.lists(num(-1, 1, 2), min_size=n, max_size=n), min_size=m, max_size=m)), removed=draw(st.integers(0, 1)), alpha=draw(st.sampled_from([0, 0.1])), damping=draw(st.sampled_from([1, 0.5])))


@facet("C31", "singular", pinv_case(), quick=24, thorough=300, rule="non-zero matrix")
def check_singular(case):
    a = np.array(case["a"])
    keep = a.copy()
    want = sc_tools.pinv(a, case["removed"], case["alpha"], case["damping"])
    with drawing():
        got = sc_tools.pinv(a, case["removed"], case["alpha"], case["damping"], plot=True)
    equal(got, want, "inverse with plot")
    equal(a, keep, "matrix of the caller")
    s = np.linalg.svd(a, compute_uv=False)
    if s[0] < 1e-6 or np.any((s > 0) & (s < 1e-9 * s[0])):
        return Info(False, "degenerate")
    left = labelled(figure(), r"$\sigma/\sigma_0$")
    require(left[0].get_yscale() == "log", "logarithmic scale")
    got = points(left)
    got = got[got[:, 1] > 0]
    for i, v in enumerate(s / s[0]):
        if v > 0:
            require(np.any(np.all(np.abs(got - [i, v]) <= [1e-9, 1e-9], axis=1)), f"singular value {i} is not drawn")
    right = labelled(figure(), r"$\sigma * \sigma^+$")
    f = case["damping"] * (s ** 2 / (s ** 2 + case["alpha"] ** 2) if case["alpha"] else np.ones(len(s)))
    drawn(right, np.arange(len(s))[s > 0], f[s > 0], "damping", rtol=1e-6)
    return Info(True)
