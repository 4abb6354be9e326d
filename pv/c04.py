"""C04: applied errors. Invariants per registered uncertainty, reproducibility, and statistical oracle for truncated Gaussians."""
import math

import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Discard, Info, close, diff, equal, facet, fail, freeze, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num
from pv.c03 import Books
from pySC.core.simulated_commissioning import SimulatedCommissioning

DERIVED = dict(bpm={"SupportOffset", "SupportRoll"}, rf={"Voltage", "Frequency", "TimeLag"},
               mag={"PolynomA", "PolynomB", "T1", "T2", "R1", "R2", "SupportOffset", "SupportRoll", "KickAngle", "MaxOrder"})


class Normalized:
    """errors in units of their sigma"""

    def __init__(self):
        self.values = []

    def add(self, err, sig, nsig, what):
        cut = nsig
        if isinstance(sig, list):
            sig, cut = sig
        err, sig = np.asarray(err, dtype=float), np.asarray(sig, dtype=float)
        require(err.shape == sig.shape, f"{what}: shape {err.shape} instead of {sig.shape}")
        for e, s in zip(err.ravel(), sig.ravel()):
            if s == 0:
                require(e == 0, f"{what}: error {e} for zero uncertainty")
            else:
                require(abs(e) <= abs(s * cut) * (1 + 1e-12), f"{what}: error {e} exceeds {cut} sigma of {s}")
                require(e != 0, f"{what}: no error for uncertainty {s}")
                self.values.append(e / s)

    def check_distinct(self):
        v = np.sort(np.abs(np.array(self.values)))
        if len(v) > 1:
            i = int(np.argmin(np.diff(v)))
            require(v[i + 1] - v[i] > 1e-11, f"errors are not independent: {v[i]!r} and {v[i + 1]!r} times their sigmas")


def check_support(SC, books, before, nsig, norm):
    s = np.array(SC.RING.get_s_pos(range(len(SC.RING) + 1)))
    for t in machine.SUPPORTS:
        for a, b in SC.ORD[t].T:
            a, b = int(a), int(b)
            sig0, sig1 = books.sig["Support"].get(a, {}), books.sig["Support"].get(b, {})
            length = machine.pair_length(s, a, b)
            off0, off1 = (np.array(getattr(SC.RING[o], f"{t}Offset"), dtype=float) for o in (a, b))
            roll = np.array(getattr(SC.RING[a], f"{t}Roll"), dtype=float)
            what = f"{t} [{a}, {b}]"
            rsig = sig0.get(f"{t}Roll", np.zeros(3))
            osig = sig0.get(f"{t}Offset", np.zeros(3))
            require(off0.shape == (3,) and off1.shape == (3,) and roll.shape == (3,), f"{what}: shape of offsets or roll")
            norm.add(roll[0], np.asarray(rsig)[0], nsig, f"{what} roll")
            two = f"{t}Offset" in sig1
            for comp, axis in ((1, 1), (2, 0)):  # pitch moves y, yaw moves x
                slope = (off1[axis] - off0[axis]) / length
                close(roll[comp], slope, f"{what}: slope of the end points against its angle", rtol=1e-8, atol=1e-12)
                if np.asarray(rsig)[comp] != 0:
                    norm.add(roll[comp], np.asarray(rsig)[comp], nsig, f"{what} angle {comp}")
                    sg, cut = osig if isinstance(osig, list) else (osig, nsig)
                    centre = (off0[axis] + off1[axis]) / 2
                    require(abs(centre) <= sg[axis] * cut + 1e-15, f"{what}: centre offset {centre} exceeds {cut} x {sg[axis]}")
                elif not two:
                    equal(off1[axis], off0[axis], f"{what}: end point offset of a paraxially shifted structure")
                    norm.add(off0[axis], _comp(osig, axis), nsig, f"{what} offset {axis}")
                else:
                    norm.add(off0[axis], _comp(osig, axis), nsig, f"{what} start offset {axis}")
                    norm.add(off1[axis], _comp(sig1[f"{t}Offset"], axis), nsig, f"{what} end offset {axis}")
            if not two:
                equal(off1[2], off0[2], f"{what}: longitudinal end point offset")
            else:
                norm.add(off1[2], _comp(sig1[f"{t}Offset"], 2), nsig, f"{what} longitudinal end offset")
            norm.add(off0[2], _comp(osig, 2), nsig, f"{what} longitudinal offset")


def _comp(sig, i):
    return [sig[0][i], sig[1]] if isinstance(sig, list) else np.asarray(sig)[i]


def random_vs_ideal(SC, case, norm):
    inj = case["inj"]
    nsig = case["nsig"]
    norm.add(SC.INJ.Z0 - SC.INJ.Z0ideal if "static" not in inj or "z0" not in inj else _exact_diff(SC), np.array(inj.get("static", np.zeros(6))), nsig,
             "static injection error")
    equal(SC.INJ.Z0ideal, inj.get("z0", np.zeros(6)), "ideal injection")
    equal(SC.INJ.randomInjectionZ, inj.get("random", np.zeros(6)), "injection jitter")


def _exact_diff(SC):
    d = SC.INJ.Z0 - SC.INJ.Z0ideal
    return np.where(np.abs(d) < 1e-18, 0.0, d)


@st.composite
def conflict_case(draw):
    axis = draw(st.sampled_from([1, 2]))
    ends = st.lists(num(0.1, 1, 1).map(lambda x: x * 1e-4), min_size=3, max_size=3)
    return dict(els=draw(lat.elements(min_size=8, max_size=12, need=("bpm", "quad", "drift"))), pos=draw(st.lists(st.integers(0, 30), min_size=2, max_size=2, unique=True)), type=draw(st.sampled_from(list(machine.SUPPORTS))),
                off=[draw(ends), draw(ends)], axis=axis, angle=draw(num(0.1, 1, 1)), cut=draw(st.booleans()), two=draw(st.sampled_from([True, True, False])))


@facet("C04", "conflict", conflict_case(), quick=40, thorough=800, rule="offsets of both ends and an explicit angle")
def check_conflict(case):
    """explicit pitch or yaw together with offsets of both ends is over-determined: it has to be refused, not resolved silently"""
    pairs = machine.pairs_of(case["els"], dict(pos=case["pos"]))
    if not pairs.shape[1]:
        raise Discard()
    SC = machine.make(dict(els=case["els"], regs=[]), apply=False)
    off = np.array(case["off"] if case["two"] else case["off"][0])
    roll = np.zeros(3)
    roll[case["axis"]] = case["angle"] * 1e-4
    SC.register_supports(pairs, case["type"], Offset=[off, 2] if case["cut"] else off, Roll=roll)
    if case["two"]:
        raises(Exception, "explicit angle and offsets of both ends", SC.apply_errors)
    else:
        SC.apply_errors()
        require(getattr(SC.RING[int(pairs[0, 0])], case["type"] + "Roll")[case["axis"]] != 0, "no angle applied")
    return Info(case["two"], case["type"])


@facet("C04", "bookkeeping", machine.machine_case(min_regs=3, max_regs=8), quick=400, thorough=12000,
       rule="at least six non-zero errors of at least two device classes")
def check_bookkeeping(case):
    spec, nsig = case["els"], case["nsig"]
    if machine.support_conflict(case["regs"], spec):
        raise Discard()
    books = Books(spec)
    for op in case["regs"]:
        if (op["r"] == "sup" and machine.pairs_of(spec, op).shape[1]) or (op["r"] != "sup" and len(machine.ords_of(spec, op))):
            books.apply(op)
    SC = machine.make(case, apply=False)
    before = freeze_sc(SC)
    ring0 = freeze_ring(SC.RING)
    state = np.random.get_state()
    SC.apply_errors(nsig)
    after = freeze_sc(SC)
    unchanged({k: before[k] for k in ("IDEALRING", "SIG", "ORD", "plot")}, {k: after[k] for k in ("IDEALRING", "SIG", "ORD", "plot")},
              "design lattice, uncertainties or registrations by applying errors")
    inj0, inj1 = dict(before["INJ"]), dict(after["INJ"])
    for k in ("Z0", "randomInjectionZ"):
        inj0.pop(k), inj1.pop(k)
    unchanged(inj0, inj1, "injection settings")
    norm = Normalized()
    classes = set()
    for book, errors in (("RF", "rf"), ("BPM", "bpm"), ("Magnet", "mag")):
        for o, sigs in books.sig[book].items():
            for f, sg in sigs.items():
                got = getattr(SC.RING[o], "BendingAngleError" if f == "BendingAngle" else f)
                if book == "BPM" and f in ("Noise", "NoiseCO"):
                    equal(got, sg, f"{f} of BPM {o}")
                    continue
                n = len(norm.values)
                norm.add(got, sg, nsig, f"{f} of element {o}")
                if len(norm.values) > n:
                    classes.add(book)
    check_support(SC, books, before, nsig, norm)
    random_vs_ideal(SC, case, norm)
    norm.check_distinct()
    # circumference: one factor for all drifts
    l0 = np.array([e.Length for e in SC.IDEALRING])
    l1 = np.array([e.Length for e in SC.RING])
    drifts = np.array([e.PassMethod == "DriftPass" for e in SC.IDEALRING])
    equal(l1[~drifts], l0[~drifts], "lengths of elements which are no drifts")
    circ = case["inj"].get("circ", 0.0)
    rel = (np.sum(l1) / np.sum(l0) - 1)
    require(abs(rel) <= circ * nsig * (1 + 1e-6) + 1e-14, f"relative circumference error {rel} for uncertainty {circ}")
    require(circ == 0 or abs(rel) > 0, "no circumference error")
    if circ == 0:
        equal(l1, l0, "drift lengths without circumference uncertainty")
    else:
        close(l1[drifts] / l0[drifts], np.full(np.sum(drifts), l1[drifts][0] / l0[drifts][0]), "common scaling of drifts", rtol=1e-12)
    # everything else is untouched
    for i in range(len(spec)):
        own = set()
        b, a = dict(ring0[i]), freeze_ring([SC.RING[i]])[0]
        if i in books.ord["RF"]:
            own |= DERIVED["rf"] | set(books.sig["RF"].get(i, {}))
        if i in books.ord["BPM"]:
            own |= DERIVED["bpm"] | set(books.sig["BPM"].get(i, {}))
        if i in books.ord["Magnet"]:
            own |= DERIVED["mag"] | {("BendingAngleError" if f == "BendingAngle" else f) for f in books.sig["Magnet"].get(i, {})}
        for t in machine.SUPPORTS:
            if any(i in p for p in books.pairs[t]):
                own |= {f"{t}Offset", f"{t}Roll"}
        if drifts[i]:
            own.add("Length")
        unchanged({k: v for k, v in b.items() if k not in own}, {k: v for k, v in a.items() if k not in own}, f"element {i} by applying errors")
    # consistent with the errors: updating changes nothing
    SC.update_supports()
    SC.update_magnets()
    SC.update_cavities()
    if d := diff(after, freeze_sc(SC)):
        fail(f"machine was not consistent with its errors after applying them: changed{d}")
    # the same random seed gives the same machine
    SC2 = machine.make(case, apply=False)
    np.random.set_state(state)
    SC2.apply_errors(nsig)
    if d := diff({k: v for k, v in after.items()}, freeze_sc(SC2)):
        fail(f"not reproducible with the same random seed{d}")
    return Info(len(norm.values) >= 6 and len(classes) >= 2, f"errors>{min(50, len(norm.values) // 10 * 10)}", *classes)


@st.composite
def again_case(draw):
    c = draw(machine.machine_case(min_regs=3, max_regs=8))
    c["inj"].pop("circ", None)  # scales the present ring
    c["seeds"] = [draw(st.integers(0, 10 ** 6)) for _ in range(3)]
    c["nsigs"] = [c["nsig"], draw(st.sampled_from([2, 1, 3]))]
    c["between"] = draw(st.booleans())
    c["edit"] = draw(st.booleans())
    return c


@facet("C04", "again", again_case(), quick=250, thorough=8000, rule="errors differ between the first and the second application")
def check_again(case):
    """applying errors again replaces the errors applied before"""
    spec = case["els"]
    if machine.support_conflict(case["regs"], spec):
        raise Discard()
    SC, fresh = machine.make(case, apply=False), machine.make(case, apply=False)
    np.random.seed(case["seeds"][0])
    SC.apply_errors(case["nsigs"][0])
    if case["between"]:
        np.random.seed(case["seeds"][1])
        SC.apply_errors(case["nsigs"][1])
    first = freeze_sc(SC)
    if case["edit"]:  # the errors are the user's: changing them in place does not change the uncertainties they came from
        SC.INJ.Z0 += 1e-3
        SC.INJ.randomInjectionZ *= 3.0
        SC.INJ.randomInjectionZ += 1e-5
        for book in (SC.SIG.BPM, SC.SIG.RF, SC.SIG.Magnet, SC.SIG.Support):
            for o in book:
                for f in book[o]:
                    value = getattr(SC.RING[o], "BendingAngleError" if f == "BendingAngle" else f)
                    if isinstance(value, np.ndarray):
                        value += 1e-6
    for m in (SC, fresh):
        np.random.seed(case["seeds"][2])
        m.apply_errors(case["nsig"])
    unchanged(freeze_sc(fresh), freeze_sc(SC), "errors applied again against errors applied once", rtol=1e-12, atol=1e-18)
    return Info(bool(diff(first, freeze_sc(SC))), *sorted({op["r"] for op in case["regs"]}))


# ------------------------------------------------------------------------------------------ distributions

def trunc_moments(c):
    phi = math.exp(-c * c / 2) / math.sqrt(2 * math.pi)
    p = math.erf(c / math.sqrt(2))
    var = 1 - 2 * c * phi / p
    return var


@st.composite
def dist_case(draw):
    return dict(nsig=draw(st.sampled_from([2, 1, 0.5, 3, 2.5])), cut=draw(st.sampled_from([None, 0.7, 1, 1.7, 4])), n=draw(st.sampled_from([60, 90])),
                which=draw(st.sampled_from(["bpm", "mag", "rf", "sup", "inj"])), seed=draw(st.integers(0, 10 ** 6)))


def truncated_ok(v, cut, what):
    """v: rows independent draws in units of sigma"""
    v = np.asarray(v)
    n = v.size
    require(np.max(np.abs(v)) <= cut * (1 + 1e-12), f"{what}: largest error {np.max(np.abs(v)):.4f} sigma, cutoff {cut}")
    var = trunc_moments(cut)
    z = np.mean(v) / math.sqrt(var / n)
    require(abs(z) < 6, f"{what}: mean error is {z:.1f} standard errors away from zero")
    # variance: fourth moment bounded by cut^2 * var
    z = (np.mean(v ** 2) - var) / math.sqrt(max(1e-12, min(cut ** 2 * var, 3.0) - var ** 2) / n)
    require(abs(z) < 6.5, f"{what}: variance {np.mean(v ** 2):.4f}, expected {var:.4f} for a cutoff of {cut} sigma ({z:.1f} standard errors)")
    z = (np.mean(np.abs(v) < cut / 2) - math.erf(cut / 2 / math.sqrt(2)) / math.erf(cut / math.sqrt(2))) / math.sqrt(0.25 / n)
    require(abs(z) < 6, f"{what}: fraction of small errors off by {z:.1f} standard errors")


def uncorrelated(columns, what):
    c = np.corrcoef(np.asarray(columns))
    n = np.shape(columns)[1]
    off = np.abs(c[np.triu_indices(len(c), 1)])
    if off.size:
        require(np.max(off) < 6 / math.sqrt(n), f"{what}: correlation {np.max(off):.3f} between errors")


@facet("C04", "distribution", dist_case(), quick=40, thorough=1200, rule="at least 100 errors drawn")
def check_distribution(case):
    n, nsig, own = case["n"], case["nsig"], case["cut"]
    cut = nsig if own is None else own
    which = case["which"]

    def sig(v):
        return v if own is None else [v, own]

    reps = 3
    if which == "bpm":
        spec = [dict(t="bpm") if i % 2 else dict(t="drift", L=0.1) for i in range(2 * n)]
        SC = SimulatedCommissioning(lat.build(spec))
        SC.register_bpms(np.arange(1, 2 * n, 2), Offset=sig(np.array([1e-3, 2e-3])), CalError=sig(np.array([0.1, 0.02])), Roll=sig(1e-2),
                         SumError=sig(0.1))
        rows = lambda: [[SC.RING[i].Offset[0] / 1e-3 for i in SC.ORD.BPM], [SC.RING[i].Offset[1] / 2e-3 for i in SC.ORD.BPM],  # noqa: E731
                        [SC.RING[i].CalError[0] / 0.1 for i in SC.ORD.BPM], [SC.RING[i].CalError[1] / 0.02 for i in SC.ORD.BPM],
                        [SC.RING[i].Roll / 1e-2 for i in SC.ORD.BPM], [SC.RING[i].SumError / 0.1 for i in SC.ORD.BPM]]
    elif which == "mag":
        spec = [dict(t="dip", L=0.2, th=0.01, k=0.3) if i % 2 else dict(t="drift", L=0.1) for i in range(2 * n)]
        SC = SimulatedCommissioning(lat.build(spec))
        SC.register_magnets(np.arange(1, 2 * n, 2), MagnetOffset=sig(np.array([1e-4, 2e-4, 3e-4])), MagnetRoll=sig(np.array([1e-3, 2e-3, 3e-3])),
                            CalErrorA=sig(np.array([0.1, 0.02])), CalErrorB=sig(np.array([0.1, 0.02])), BendingAngle=sig(1e-2))
        rows = lambda: [np.array([f(SC.RING[i]) for i in SC.ORD.Magnet]) for f in (  # noqa: E731
            lambda e: e.MagnetOffset[0] / 1e-4, lambda e: e.MagnetOffset[1] / 2e-4, lambda e: e.MagnetOffset[2] / 3e-4,
            lambda e: e.MagnetRoll[0] / 1e-3, lambda e: e.MagnetRoll[1] / 2e-3, lambda e: e.MagnetRoll[2] / 3e-3,
            lambda e: e.CalErrorA[0] / 0.1, lambda e: e.CalErrorA[1] / 0.02, lambda e: e.CalErrorB[0] / 0.1, lambda e: e.CalErrorB[1] / 0.02,
            lambda e: e.BendingAngleError / 1e-2)]
    elif which == "rf":
        spec = [dict(t="rf", V=1e6, h=4 * n) if i % 2 else dict(t="drift", L=0.5) for i in range(2 * n)]
        SC = SimulatedCommissioning(lat.build(spec))
        SC.register_cavities(np.arange(1, 2 * n, 2), VoltageOffset=sig(1e3), VoltageCalError=sig(1e-2), FrequencyOffset=sig(100.0),
                             FrequencyCalError=sig(1e-5), TimeLagOffset=sig(0.1), TimeLagCalError=sig(1e-3))
        rows = lambda: [[getattr(SC.RING[i], f) / s for i in SC.ORD.RF] for f, s in (  # noqa: E731
            ("VoltageOffset", 1e3), ("VoltageCalError", 1e-2), ("FrequencyOffset", 100.0), ("FrequencyCalError", 1e-5), ("TimeLagOffset", 0.1),
            ("TimeLagCalError", 1e-3))]
    elif which == "sup":
        spec = [dict(t="drift", L=0.5)] * (2 * n)
        SC = SimulatedCommissioning(lat.build(spec))
        ords = np.arange(2 * n).reshape(n, 2).T
        SC.register_supports(ords, "Girder", Offset=sig(np.array([[1e-4, 2e-4, 3e-4], [4e-4, 5e-4, 6e-4]])), Roll=np.array([1e-3, 0, 0]))
        SC.register_supports(ords, "Plinth", Offset=sig(np.array([1e-4, 2e-4, 3e-4])), Roll=np.array([1e-3, 0, 0]))
        rows = lambda: [np.array([getattr(SC.RING[i], "GirderOffset")[k] for i in ords[0]]) / (k + 1) / 1e-4 for k in range(3)] + [  # noqa: E731
            np.array([getattr(SC.RING[i], "GirderOffset")[k] for i in ords[1]]) / (k + 4) / 1e-4 for k in range(3)] + [
            np.array([getattr(SC.RING[i], "PlinthOffset")[k] for i in ords[0]]) / (k + 1) / 1e-4 for k in range(3)]
    else:
        SC = SimulatedCommissioning(lat.build([dict(t="drift", L=1.0)]))
        SC.SIG.staticInjectionZ = np.array([1e-3, 2e-3, 3e-3, 4e-3, 5e-3, 6e-3])
        cut, reps = nsig, 60
        rows = lambda: [[z / (k + 1) / 1e-3] for k, z in enumerate(SC.INJ.Z0)]  # noqa: E731
    out = []
    for _ in range(reps):
        SC.apply_errors(nsig)
        out.append(np.array(rows(), dtype=float))
        if which == "sup":
            r = np.array([getattr(SC.RING[i], f"{t}Roll")[0] for t in ("Girder", "Plinth") for i in ords[0]]) / 1e-3
            truncated_ok(r, nsig, "support rolls")
            end = np.array([getattr(SC.RING[i], "GirderOffset")[0] for i in ords[1]])
            start = np.array([getattr(SC.RING[i], "GirderOffset")[0] for i in ords[0]])
            uncorrelated([start, end], "girder start and end points")
            require(np.max(np.abs(end)) <= 4e-4 * cut * (1 + 1e-9), "end point offset exceeds its cutoff")
    data = np.concatenate(out, axis=1)
    for i, row in enumerate(data):
        truncated_ok(row, cut, f"{which} error {i}")
    uncorrelated(data, f"{which} errors")
    return Info(data.size >= 100, which, f"cut{own}")
