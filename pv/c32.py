"""C32: dynamic and momentum aperture, orbit in magnets. Oracle: independent tracking on both sides of every reported limit; independent closed orbits."""
import copy

import at
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat
from pv.c15 import ring_machine, ring_machine_case
from pv.core import Discard, Info, close, equal, facet, freeze_ring, freeze_sc, require, unchanged
from pv.lat import num
from pySC import matlab_index
from pySC.lattice_properties.apertures import SCdynamicAperture, SCmomentumAperture
from pySC.lattice_properties.magnet_orbit import SCgetCOD


def limited(ring, case):
    """apertures around the beam"""
    n = len(ring)
    for i, (k, a, b) in enumerate(case["apert"]):
        el = ring[k % n]
        if case["rect"] and i % 2:
            el.RApertures = np.array([-a, 1.3 * a, -b, 0.8 * b])
        else:
            el.EApertures = np.array([a, b])


aperture = st.tuples(st.integers(0, 80), st.sampled_from([0.004, 0.01, 0.02]), st.sampled_from([0.003, 0.008, 0.015]))


@st.composite
def da_case(draw):
    c = draw(ring_machine_case(modes=("TBT",), sexts=(0.0, 0.0, 2.0)))
    full = draw(st.booleans())
    c.update(apert=draw(st.lists(aperture, min_size=1, max_size=3)), rect=draw(st.booleans()), six=draw(st.booleans()), launch=draw(st.booleans()), center=draw(st.booleans()), dE=draw(st.sampled_from([0.0, 0.0, 3e-3, -5e-3])),
             thetas=None if full else draw(st.lists(num(0, 6.28, 2), min_size=2, max_size=5)), n=draw(st.integers(3, 9)), turns=draw(st.sampled_from([1, 5, 20])), acc=draw(st.sampled_from([1e-6, 1e-5, 3e-4])),
             bounds=draw(st.sampled_from([None, [0.0, 1e-3], [0.0, 0.05], [1e-3, 2e-3], [0.05, 0.0], [0.0, 1e-5]])), plot=draw(st.booleans()), iface=draw(st.booleans()), negative=draw(st.booleans()))
    return c


def alive(ring, z0, r, theta, turns):
    z = np.repeat(np.reshape(z0, (6, 1)), len(r), axis=1)
    z[0], z[2] = r * np.cos(theta), r * np.sin(theta)
    return ~np.isnan(beamref.track(ring, z, turns, [len(ring)])[0, :, 0, -1])


@facet("C32", "dynamic", da_case(), quick=160, thorough=3000, rule="limit at a finite amplitude", shards=8)
def check_da(case):
    SC, els, bpms, cors = ring_machine(case)
    ring = SC.RING
    limited(ring, case)
    if not case["six"]:
        ring.disable_6d()
    elif not ring.is_6d:
        raise Discard()
    try:
        orb = np.array((at.find_orbit6 if case["six"] else at.find_orbit4)(ring.deepcopy())[0])
    except at.AtError:
        raise Discard()
    if np.any(np.isnan(orb)):
        raise Discard()
    thetas = np.linspace(0, 2 * np.pi, case["n"]) if case["thetas"] is None else np.array(case["thetas"])
    bounds = None if case["bounds"] is None else np.array(case["bounds"])
    if case["negative"] and bounds is not None:
        bounds = -bounds
    kw = dict(nturns=case["turns"], thetas=thetas, accuracy=case["acc"], launchOnOrbit=case["launch"], centerOnOrbit=case["center"], useOrbit6=case["six"])
    if bounds is not None:
        kw["bounds"] = bounds
    keep, before = copy.deepcopy((thetas, bounds)), freeze_ring(ring)
    fun = matlab_index.SCdynamicAperture if case["iface"] else SCdynamicAperture
    plt.close("all")
    area, rmax, angles = fun(ring, case["dE"], **dict(kw, **(dict(plot=True) if case["plot"] else {})))
    require(bool(plt.get_fignums()) == case["plot"], "figure drawn exactly on request")
    unchanged(before, freeze_ring(ring), "ring")
    equal(thetas, keep[0], "angles of the caller")
    if bounds is not None:
        equal(bounds, keep[1], "bounds of the caller")
    rmax, angles = np.array(rmax, dtype=float), np.array(angles, dtype=float)
    require(rmax.shape == thetas.shape == angles.shape, "one limit per angle")
    z0 = np.zeros(6)
    if case["launch"]:
        z0 = orb.copy() if case["six"] else np.concatenate((orb[:4], [0.0, 0.0]))
    z0[4] += case["dE"]
    x, y = rmax * np.cos(angles), rmax * np.sin(angles)
    if case["center"]:
        x, y = x + orb[0], y + orb[2]
    r = x * np.cos(thetas) + y * np.sin(thetas)
    close(np.column_stack((x, y)), np.column_stack((r * np.cos(thetas), r * np.sin(thetas))), "limits lie in the given directions", rtol=1e-9, atol=1e-12)
    sign = -1.0 if bounds is not None and np.sum(bounds) < 0 else 1.0
    acc = case["acc"]
    found = 0
    linear = case["ring"]["sext"] == 0
    for i, th in enumerate(thetas):
        grid = np.concatenate(([acc * 1.001], acc * np.linspace(0.02, 0.98, 7)))
        inner, outer = alive(ring, z0, r[i] - sign * grid, th, case["turns"]), alive(ring, z0, r[i] + sign * grid, th, case["turns"])
        zero = alive(ring, z0, np.array([0.0]), th, case["turns"])[0]
        if not zero or (bounds is not None and not alive(ring, z0, bounds[np.argmin(np.abs(bounds))] * np.ones(1), th, case["turns"])[0]):
            continue  # no stable amplitude to start from
        found += 1
        require(np.any(inner), f"direction {th}: beam is lost already {acc} below the limit {r[i]}")
        require(not np.all(outer), f"direction {th}: beam survives {acc} above the limit {r[i]}")
        if linear and abs(r[i]) > 2 * acc:  # apertures are convex, one limit per direction
            require(inner[0], f"direction {th}: beam is lost {acc} below the limit {r[i]}")
            require(not outer[0], f"direction {th}: beam survives {acc} above the limit {r[i]}")
    want = 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
    close(area, want, "area spanned by the limits", rtol=1e-9, atol=1e-9 * np.max(r ** 2))
    if case["plot"]:
        got = np.concatenate([np.asarray(c.get_offsets()) for n in plt.get_fignums() for a in plt.figure(n).axes for c in a.collections])
        require(got.shape == (len(thetas), 2), "drawn limits")
        close(got, np.column_stack((r * np.cos(thetas), r * np.sin(thetas))), "drawn limits", rtol=1e-9, atol=1e-12)
    return Info(found > 0, "6D" if case["six"] else "4D", "full" if case["thetas"] is None else "", "sextupoles" if not linear else "linear", "negative" if sign < 0 else "")


@st.composite
def auto_case(draw):
    c = draw(ring_machine_case(modes=("TBT",), sexts=(0.0,)))
    c.update(ap=None, cal=False, mis=False, bpmerr=False, k=[], a=draw(num(0.004, 0.02, 3)), ratio=draw(num(0.2, 0.7, 2)), at=draw(st.integers(0, 20)), n=draw(st.integers(3, 12)), turns=draw(st.sampled_from([1, 3])))
    return c


@facet("C32", "automatic", auto_case(), quick=16, thorough=300, rule="every case", shards=4)
def check_auto(case):
    """the automatic angles are those of points at equal phases on the ellipse through the horizontal and vertical limits"""
    SC, els, bpms, cors = ring_machine(case)
    ring = SC.RING
    ring.disable_6d()
    for i, q in enumerate(lat.of_kind(els, "bpm")):
        ring[q].EApertures = np.array([case["a"], case["a"] * case["ratio"] / 3])  # vertical limit is below the horizontal one
    before = freeze_ring(ring)
    _, r, _ = SCdynamicAperture(ring, 0.0, thetas=np.linspace(0, 2 * np.pi * 3 / 4, 4))
    a, b = (r[0] + r[2]) / 2, (r[1] + r[3]) / 2
    if not 0 < b < 0.9 * a:
        raise Discard()
    _, rmax, angles = SCdynamicAperture(ring, 0.0, auto=case["n"], nturns=case["turns"])
    unchanged(before, freeze_ring(ring), "ring")
    nu = np.linspace(0, 2 * np.pi, case["n"])
    require(np.shape(angles) == np.shape(rmax) == (case["n"],), "one limit per automatic angle")
    want = np.exp(1j * np.arctan2(b * np.sin(nu), a * np.cos(nu)))
    close(np.abs(np.exp(1j * np.array(angles)) - want), np.zeros(case["n"]), "automatic angles", atol=1e-6)
    _, again, _ = SCdynamicAperture(ring, 0.0, thetas=np.array(angles), nturns=case["turns"])
    close(rmax, again, "limits along automatic angles", atol=2.1e-6)
    return Info(True, f"n {case['n']}")


@st.composite
def ma_case(draw):
    c = draw(ring_machine_case(modes=("TBT",), sexts=(0.0, 2.0)))
    c.update(apert=draw(st.lists(aperture, min_size=1, max_size=3)), rect=draw(st.booleans()), refs=draw(st.lists(st.integers(0, 80), min_size=1, max_size=3, unique=True)), turns=draw(st.sampled_from([1, 5, 20])), acc=draw(st.sampled_from([1e-4, 1e-3, 1e-2])),
             bounds=draw(st.sampled_from([[1e-3, 2e-3], [0.01, 0.03], [-1e-3, -2e-3], [-0.01, -0.03], [1e-4, 0.2], [0.0, 0.01], [0.005, 0.006]])), step=draw(st.sampled_from([None, 1e-3, 3e-3])), plot=draw(st.booleans()), iface=draw(st.booleans()), form=draw(st.sampled_from(["array", "list"])),
             bad=draw(st.sampled_from([False, False, False, False, False, True])))
    return c


@facet("C32", "momentum", ma_case(), quick=160, thorough=3000, rule="limit found, or zero without an orbit", shards=8)
def check_ma(case):
    SC, els, bpms, cors = ring_machine(case)
    ring = SC.RING
    limited(ring, case)
    if not ring.is_6d:
        raise Discard()
    if case["bad"]:
        ring[lat.of_kind(els, "bpm")[0]].RApertures = np.array([0.1, 0.2, 0.1, 0.2])  # nothing comes through
    refs = np.array([i % len(ring) for i in case["refs"]])
    refs = np.unique(refs)
    try:
        orb = np.array(at.find_orbit6(ring.deepcopy(), refpts=refs)[1])
    except at.AtError:
        raise Discard()
    lost = bool(np.any(~np.isfinite(orb)))
    bounds = case["bounds"] if case["form"] == "list" else np.array(case["bounds"])
    keep, before = copy.deepcopy((refs, bounds)), freeze_ring(ring)
    kw = dict(nturns=case["turns"], accuracy=case["acc"])
    if case["step"]:
        kw["stepsize"] = case["step"]
    turned = [ring[int(o):] + ring[:int(o)] for o in refs]

    def lives(i, d):
        z = orb[i].reshape(6, 1) + np.zeros((6, len(d)))
        z[4] += d
        return ~np.isnan(beamref.track(turned[i], z, case["turns"], [len(ring)])[0, :, 0, -1])

    step = case["step"] or 1e-3
    if not lost:
        for i in range(len(refs)):  # a stable start is found by the search
            near = np.array([b for b in np.arange(abs(case["bounds"][0]), -step / 2, -step)]) * (1.0 if np.sum(case["bounds"]) > 0 else -1.0)
            if not lives(i, np.array([0.0]))[0] or not np.all(lives(i, near[-1:])):
                raise Discard()
    plt.close("all")
    fun = matlab_index.SCmomentumAperture if case["iface"] else SCmomentumAperture
    got = fun(ring, refs, bounds, plot=int(case["plot"]), **kw)
    unchanged(before, freeze_ring(ring), "ring")
    equal(refs, keep[0], "reference points of the caller")
    equal(np.array(bounds), np.array(keep[1]), "bounds of the caller")
    got = np.array(got)
    require(got.shape == (len(refs), 2), f"shape {got.shape} of the limits")
    if lost:
        require(not np.any(got), "limits without closed orbit")
        return Info(True, "no orbit")
    sign = 1.0 if np.sum(case["bounds"]) > 0 else -1.0
    for i in range(len(refs)):
        stable, unstable = got[i]
        e = 1e-9 * np.max(np.abs(got[i]))
        require(abs(unstable) > abs(stable) or sign * (unstable - stable) > 0, f"limits {got[i]} at element {refs[i]}")
        require(abs(unstable - stable) <= case["acc"] * max(np.max(np.abs(got[i])), 1e-12) * (1 + 1e-9), f"limits {got[i]} at element {refs[i]} differ by more than the accuracy")
        require(np.any(lives(i, stable + np.array([-e, 0, e]))), f"beam is lost below the limits {got[i]} at element {refs[i]}")
        require(not np.all(lives(i, unstable + np.array([-e, 0, e]))), f"beam survives above the limits {got[i]} at element {refs[i]}")
    if case["plot"]:
        s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in ring])))[refs]
        lines = [np.column_stack((li.get_xdata(), li.get_ydata())) for n in plt.get_fignums() for a in plt.figure(n).axes for li in a.get_lines()]
        require(len(lines) == 2, "two drawn curves")
        for d in range(2):
            require(any(np.allclose(li, np.column_stack((s, got[:, d])), rtol=1e-12, atol=1e-15) for li in lines), "drawn limits")
    return Info(True, "negative" if sign < 0 else "positive", "scan outwards" if abs(case["bounds"][1]) < 0.005 else "", f"{len(refs)} points")


@st.composite
def cod_case(draw):
    c = draw(ring_machine_case(modes=("ORB",), sexts=(0.0, 2.0)))
    c.update(mis=True, roll=draw(st.booleans()), ords=draw(st.one_of(st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=5))), plot=draw(st.booleans()), bad=draw(st.sampled_from([False, False, False, False, True])), iface=draw(st.booleans()), sup=draw(st.booleans()))
    return c


@facet("C32", "magnets", cod_case(), quick=120, thorough=3000, rule="orbit and offsets", shards=4)
def check_cod(case):
    SC, els, bpms, cors = ring_machine(case)
    quads = np.array(lat.of_kind(els, "quad"))
    if case["roll"]:
        SC.register_magnets(quads, MagnetRoll=np.array([1e-3, 1e-4, 1e-4]))
    if case["sup"]:
        SC.register_supports(np.array([[quads[0]], [quads[2]]]), "Girder", Offset=np.array([1e-4, 1e-4, 0]))
        SC.apply_errors()
    elif case["roll"]:
        SC.apply_errors()
    if case["bad"]:
        for e in SC.RING:
            if e.FamName == "QF":
                e.PolynomB = 3.0 * np.asarray(e.PolynomB)
    pool = SC.ORD.Magnet
    ords = pool if case["ords"] is None else np.array(sorted({int(pool[i % len(pool)]) for i in case["ords"]}))
    try:
        orb = np.array(at.find_orbit6(SC.RING.deepcopy(), refpts=ords)[1])
    except at.AtError:
        raise Discard()
    lost = bool(np.any(np.isnan(orb)))
    keep = np.array(ords)
    before = freeze_sc(SC)
    plt.close("all")
    plt.pause = lambda *a, **k: None
    fun = matlab_index.SCgetCOD if case["iface"] else SCgetCOD
    got = np.array(fun(SC, ords=None if case["ords"] is None else ords, plot=case["plot"]))
    unchanged(before, freeze_sc(SC), "machine")
    equal(np.array(ords), keep, "ordinates of the caller")
    require(got.shape == (2, len(ords)), f"shape {got.shape}")
    if lost:
        require(np.all(np.isnan(got)), "orbit in magnets without closed orbit")
        return Info(False, "no orbit")
    off = np.array([np.asarray(SC.RING[o].T2)[[0, 2]] for o in ords]).T
    plain = np.array([(np.asarray(SC.RING[o].MagnetOffset) + np.asarray(SC.RING[o].SupportOffset))[:2] for o in ords]).T
    if not case["roll"] and not case["sup"]:
        off = plain
    want = orb[:, [0, 2]].T - off
    close(got, want, "orbit relative to the magnets", rtol=1e-9, atol=1e-11)
    if case["plot"]:
        s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in SC.RING])))[ords]
        axes = [a for n in plt.get_fignums() for a in plt.figure(n).axes]
        require(len(axes) == 2, "two planes")
        for d, a in enumerate(axes):
            require("xy"[d] in a.get_ylabel() and "[mm]" in a.get_ylabel(), "label")
            for v, label in ((got[d], "COD in magnets"), (off[d], "Magnet offset"), (orb[:, 2 * d], "Orbit")):
                k = [t.get_text() for t in a.get_legend().get_texts()].index(label)
                li = a.get_lines()[k]
                close(np.column_stack((li.get_xdata(), li.get_ydata())), np.column_stack((s, 1e3 * v)), f"drawn curve {label!r}", rtol=1e-9, atol=1e-8)
    return Info(bool(np.any(off)) and bool(np.any(orb)), "rolls" if case["roll"] else "", "girder" if case["sup"] else "")
