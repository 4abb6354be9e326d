"""C28: MATLAB-style interface. Oracle: the native calls with translated arguments, on a twin of the machine under the same random state."""
import copy
import os

import at
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from pv import c18, c19, lat, machine
from pv.c15 import ring_machine, ring_machine_case
from pv.c16 import true_response
from pv.core import Discard, Info, Violation, close, diff, equal, facet, fail, freeze, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num, pos_vec, small, vec
from pySC import matlab_index as M
from pySC.core.beam import beam_transmission, bpm_reading, generate_bunches
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction import bba, injection_fit, orbit_trajectory, rf, tune
from pySC.lattice_properties import response_measurement, response_model
from pySC.plotting.plot_lattice import plot_cm_strengths, plot_lattice
from pySC.plotting.plot_phase_space import plot_phase_space
from pySC.plotting.plot_support import plot_support
from pySC.lattice_properties.magnet_orbit import SCgetCOD
from pySC.utils import sc_tools


def outcome(fun, SC, seed):
    """frozen result (the machine itself marked) or type of the exception"""
    np.random.seed(seed)
    try:
        out = fun(SC)
    except Exception as exc:  # noqa: BLE001
        return ("raised", type(exc).__name__), exc
    return ("returned", seal(out, SC)), None


def seal(out, SC):
    if out is SC:
        return "the machine"
    if isinstance(out, SimulatedCommissioning):
        return "another machine"
    if isinstance(out, at.Lattice):
        return freeze_ring(out)
    if isinstance(out, (list, tuple)):
        return [type(out).__name__] + [seal(v, SC) for v in out]
    return freeze(out)


def compare(build, seed, what, wrapper, native):
    """same result and same machine; returns whether the call succeeded"""
    twins = build(), build()
    return compare_on(twins, seed, what, wrapper, native)


def compare_on(twins, seed, what, wrapper, native):
    (a, exc), (b, _) = outcome(wrapper, twins[0], seed), outcome(native, twins[1], seed)
    if a[0] == "raised" and a != b:
        raise Violation(f"{what}: raised {a[1]} ({exc}) where the native call {b[0]} {b[1] if b[0] == 'raised' else ''}") from exc
    require(a[0] == b[0], f"{what}: {a[0]} where the native call {b[0]} {b[1] if b[0] == 'raised' else ''}")
    d = diff(b[1], a[1])
    require(not d, f"{what}: result differs from the native call: {d}")
    unchanged(freeze_sc(twins[1]), freeze_sc(twins[0]), f"{what}: machine against the native call")
    return a[0] == "returned"


# ------------------------------------------------------------------------------------------ machine

NAMES = ("apply", "cm", "getcm", "mag", "cav", "rndmult", "sysmult", "updcav", "updmag", "updsup", "bunches", "transmission", "reading", "offset", "roll", "sanity", "model", "modelrm", "modeldisp", "bpm", "rf", "magreg", "sup", "pseudo", "init",
         "rm", "disp", "plotreading", "dimless", "mag", "mag")


@st.composite
def machine_case(draw):
    c = draw(machine.machine_case(min_regs=4, max_regs=7))
    if machine.support_conflict(c["regs"], c["els"]):
        c["apply"] = False
    dips = [e for e in c["els"] if e["t"] == "dip"]
    if dips and all(e["k"] for e in dips) and draw(st.booleans()):
        c["regs"].append(dict(r="mag", kind="dip", pos=[0, 1, 2], kw=dict(CF=True, HCM=0.5), form="arr"))
    p = st.fixed_dictionaries(dict(n=st.sampled_from(NAMES), i=st.integers(0, 30), j=st.integers(0, 30), x=small(1.0), y=small(1.0), o=st.integers(1, 3), t=st.integers(0, 3), d=st.booleans(), m=st.sampled_from(["abs", "rel", "add", None])))
    c.update(todo=draw(st.lists(p, min_size=1, max_size=6)), extra=draw(st.lists(st.one_of(machine.bpm_reg(), machine.rf_reg(), machine.mag_reg(c["els"]), machine.sup_reg()), min_size=1, max_size=2)), seed=draw(st.integers(0, 10 ** 6)))
    return c


def some(pool, i, j):
    pool = [int(o) for o in pool]
    if not pool:
        return None
    return np.array(sorted({pool[i % len(pool)], pool[j % len(pool)]}))


def native_and_wrapper(p, SC, case):
    """pair of calls for the operation, None if it does not apply to the machine"""
    n, i, j, x, y, o, t, d, m = (p[k] for k in "nijxyotdm")
    kwm = {} if m is None else dict(mode=m)
    meth = m or "abs"
    spec = case["els"]
    if n == "apply":
        if d:
            return lambda s: M.SCapplyErrors(s), lambda s: (s.apply_errors(nsigmas=2), s)[1]
        return lambda s: M.SCapplyErrors(s, nsigmas=1.5), lambda s: (s.apply_errors(nsigmas=1.5), s)[1]
    if n in ("cm", "getcm", "dimless"):
        ords = some(SC.ORD.VCM if t % 2 else SC.ORD.HCM, i, j)
        if ords is None:
            return None
        dim = 2 if t % 2 else 1
        if n == "getcm":
            return lambda s: M.SCgetCMSetPoints(s, ords, dim), lambda s: s.get_cm_setpoints(ords, skewness=dim == 2)
        if n == "dimless":  # planes counted from one
            bad = (0, 3, -1, True + 2)[t]
            raises(ValueError, f"plane {bad}", M.SCgetCMSetPoints, SC, ords, bad)
            raises(ValueError, f"plane {bad}", M.SCsetCMs2SetPoints, SC, ords, 1e-5 * np.ones(len(ords)), bad)
            mags = some(SC.ORD.Magnet, i, j)
            raises(ValueError, f"type {bad}", M.SCsetMags2SetPoints, SC, mags, bad, 1, np.ones(len(mags)))
            raises(ValueError, f"type {bad}", M.SCsetMultipoles, SC, mags, np.zeros((3, 2)), method="sys", order=1, type=bad)
            raises(ValueError, "one-dimensional multipoles", M.SCsetMultipoles, SC, mags, np.zeros(3), method="sys", order=1, type=1)
            raises(NotImplementedError, "SClocoLib", M.SClocoLib, "x")
            raises(NotImplementedError, "SCparticlesIn3D", M.SCparticlesIn3D)
            raises(NotImplementedError, "central reference", M.SCgetTransformation, x, y, 0, 0, 0, 0, 0, 1.0)
            raises(ValueError, "fit mode", M.SCfitInjectionZ, SC, "something")
            return lambda s: None, lambda s: None
        vals = 1e-4 * np.array([x, y][:len(ords)])
        if meth == "rel":
            vals = vals * 1e4

        def native(s):
            s.set_cm_setpoints(ords, vals, skewness=dim == 2, method=meth)
            return s, s.get_cm_setpoints(ords, skewness=dim == 2)
        return lambda s: M.SCsetCMs2SetPoints(s, ords, vals, dim, **kwm), native
    if n in ("mag", "rndmult", "sysmult"):
        ords = some(SC.ORD.Magnet, i, j)
        if ords is None:
            return None
        typ = 1 + t % 2
        if n == "mag":
            cf = [q for q in SC.ORD.HCM if getattr(SC.RING[q], "CombinedFunction", False)]
            if cf and d:  # compensated by the corrector
                ords, typ, o = some(cf, i, j), 2, 2
            vals = 0.1 * np.array([x, y][:len(ords)])
            kw = {} if m is None else dict(method=m)
            if t > 1:
                kw["dipCompensation"] = d

            def native(s):
                s.set_magnet_setpoints(ords, vals, typ == 1, o - 1, method=meth, dipole_compensation=t > 1 and d)
                return s
            return lambda s: M.SCsetMags2SetPoints(s, ords, typ, o, vals, **kw), native
        ab = np.array([[x, y], [y * 1e-3, 0.5 * x], [0.3, -0.1 * y]])[:1 + i % 3] * 1e-3
        ba = ab[:, ::-1].copy()
        if n == "rndmult":
            return (lambda s: M.SCsetMultipoles(s, ords, np.abs(ab)) if d else M.SCsetMultipoles(s, ords, np.abs(ab), method="rnd", type=typ)), lambda s: (s.set_random_multipole_errors(ords, np.abs(ba)), s)[1]
        return lambda s: M.SCsetMultipoles(s, ords, ab, method="sys", order=o, type=typ), lambda s: (s.set_systematic_multipole_errors(ords, ba, o - 1, typ == 1), s)[1]
    if n == "cav":
        ords = some(SC.ORD.RF, i, j)
        if ords is None:
            return None
        field, scale = (("Frequency", 1e3), ("Voltage", 1e4), ("TimeLag", 0.1), ("Phase", 1.0))[t]
        vals = np.array([x, y][:len(ords)]) * (scale if meth == "add" else 1)
        return lambda s: M.SCsetCavs2SetPoints(s, ords, field, vals, **kwm), lambda s: (s.set_cavity_setpoints(ords, vals, field, method=meth), s)[1]
    if n in ("updcav", "updmag"):
        ords = some(SC.ORD.RF if n == "updcav" else SC.ORD.Magnet, i, j) if d else None
        f, g = ("SCupdateCAVs", "update_cavities") if n == "updcav" else ("SCupdateMagnets", "update_magnets")

        def prep(s):  # something to be updated
            for k, el in enumerate(s.RING):
                if k in s.ORD.Magnet:
                    el.CalErrorB = el.CalErrorB + 1e-3
                if k in s.ORD.RF:
                    el.VoltageOffset = el.VoltageOffset + 10.0

        def wrapper(s):
            prep(s)
            return getattr(M, f)(s) if ords is None else getattr(M, f)(s, ords)

        def native(s):
            prep(s)
            getattr(s, g)(ords)
            return s
        return wrapper, native
    if n == "updsup":
        a, b = t in (0, 1), t in (0, 2)

        def prep(s):
            for k in list(s.ORD.Magnet) + list(s.ORD.BPM):
                if hasattr(s.RING[k], "MagnetOffset"):
                    s.RING[k].MagnetOffset = s.RING[k].MagnetOffset + np.array([x, y, 0]) * 1e-5
            for typ in ("Section", "Plinth", "Girder"):
                for k in np.ravel(s.ORD[typ]).astype(int):
                    setattr(s.RING[k], typ + "Offset", getattr(s.RING[k], typ + "Offset") + np.array([y, x, 0]) * 1e-5)

        def wrapper(s):
            prep(s)
            return M.SCupdateSupport(s) if t == 0 and d else M.SCupdateSupport(s, BPMstructOffset=a, MAGstructOffset=b) if d else M.SCupdateSupport(s, a, b)

        def native(s):
            prep(s)
            s.update_supports(offset_bpms=a, offset_magnets=b)
            return s
        return wrapper, native
    if n == "bunches":
        return lambda s: M.SCgenBunches(s), lambda s: generate_bunches(s)
    if n == "transmission":
        kw = {} if d else dict(nParticles=1 + i % 5, nTurns=1 + j % 3)
        return lambda s: M.SCgetBeamTransmission(s, **kw), lambda s: beam_transmission(s, kw.get("nParticles"), nTurns=kw.get("nTurns"))
    if n == "reading":
        if not len(SC.ORD.BPM):
            return None
        ords = some(SC.ORD.BPM, i, j)
        return (lambda s: M.SCgetBPMreading(s) if d else M.SCgetBPMreading(s, BPMords=ords)), lambda s: bpm_reading(s, bpm_ords=None if d else ords)[0]
    if n in ("offset", "roll"):
        pos = np.abs(np.array([x, y])) * 10 % machine.s_positions(spec)[-1]
        if n == "offset":
            return lambda s: M.SCgetSupportOffset(s, pos), lambda s: s.support_offset_and_roll(pos)[0]
        return lambda s: M.SCgetSupportRoll(s, pos), lambda s: s.support_offset_and_roll(pos)[1]
    if n == "sanity":
        return lambda s: M.SCSanityCheck(s), lambda s: s.verify_structure()
    if n == "model":
        return (lambda s: M.SCgetModelRING(s) if t == 0 else M.SCgetModelRING(s, includeAperture=d)), lambda s: response_model.SCgetModelRING(s, t > 0 and d)
    cms = [some(SC.ORD.HCM, i, j), some(SC.ORD.VCM, j, i)]
    cms = [np.array([], dtype=int) if c is None else c for c in cms]
    bpms = some(SC.ORD.BPM, i, j)
    if n == "modelrm":
        if bpms is None:
            return None
        z0 = np.array([x, y, x, y, 0, 0]) * 1e-5
        kw = {} if t == 0 else dict(trackMode="TBT", Z0=z0, nTurns=o, dkick=1e-6, useIdealRing=d)
        return lambda s: M.SCgetModelRM(s, bpms, cms, **kw), lambda s: response_model.SCgetModelRM(s, bpms, cms, "TBT", z0 if t else np.zeros(6), o if t else 1, 1e-6 if t else 1e-5, d if t else True)
    cavs = some(SC.ORD.RF, i, j)
    if n == "modeldisp":
        if bpms is None or cavs is None:
            return None
        z0 = np.array([x, y, x, y, 0, 0]) * 1e-5
        kw = dict(trackMode="TBT", Z0=z0, nTurns=o, rfStep=1e4, useIdealRing=d)
        return lambda s: M.SCgetModelDispersion(s, bpms, cavs, **kw), lambda s: response_model.SCgetModelDispersion(s, bpms, cavs, "TBT", z0, o, 1e4, d)
    if n == "rm":
        if bpms is None or not sum(map(len, cms)) or np.any(SC.SIG.randomInjectionZ):
            return None
        kw = [{}, dict(mode="fixedKick", nSteps=3, fit="quadratic"), dict(nSteps=3), dict(nSteps=4, fit="linear")][t]
        steps, order = [(2, 1), (3, 2), (3, 1), (4, 1)][t]
        return lambda s: M.SCgetRespMat(s, 1e-5, bpms, cms, **kw), lambda s: response_measurement.response_matrix(s, 1e-5, bpms, cms, mode="fixedKick", n_steps=steps, fit_order=order)
    if n == "disp":
        if bpms is None or cavs is None:
            return None
        kw = [{}, dict(BPMords=bpms), dict(CAVords=cavs), dict(BPMords=bpms, CAVords=cavs, nSteps=3)][t]
        return lambda s: M.SCgetDispersion(s, 100.0, **kw), lambda s: response_measurement.dispersion(s, 100.0, bpm_ords=kw.get("BPMords"), cav_ords=kw.get("CAVords"), n_steps=kw.get("nSteps", 2))
    if n in ("bpm", "rf", "magreg", "sup"):
        ops = [op for op in case["extra"] if dict(bpm="bpm", rf="rf", magreg="mag", sup="sup")[n] == op["r"]]
        if not ops:
            return None
        op = ops[0]
        kw = {k: machine.jval(v) for k, v in op["kw"].items()}
        if n == "sup":
            pairs = machine.pairs_of(spec, op)
            return lambda s: M.SCregisterSupport(s, op["type"], pairs, **kw), lambda s: (s.register_supports(pairs, op["type"], **copy.deepcopy(kw)), s)[1]
        ords = machine.ords_of(spec, op)
        if not len(ords):
            return None
        f, g = dict(bpm=("SCregisterBPMs", "register_bpms"), rf=("SCregisterCAVs", "register_cavities"), magreg=("SCregisterMagnets", "register_magnets"))[n]
        return lambda s: getattr(M, f)(s, ords, **kw), lambda s: (getattr(s, g)(ords, **copy.deepcopy(kw)), s)[1]
    if n == "pseudo":
        mags = some(SC.ORD.Magnet, i, j)
        if bpms is None or mags is None:
            return None
        k = min(len(bpms), len(mags))
        b, q = np.tile(bpms[:k], (2, 1)), np.tile(mags[:k], (2, 1))
        off = np.abs(np.array([x, y])) * 1e-4
        return lambda s: M.SCpseudoBBA(s, b, q, off), lambda s: bba.fake_bba(s, b, q, fake_offset=off)
    if n == "init":
        ring = lat.build(spec)
        new = M.SCinit(ring)
        unchanged(freeze_sc(SimulatedCommissioning(lat.build(spec))), freeze_sc(new), "SCinit")
        return lambda s: None, lambda s: None
    if n == "plotreading":
        if not len(SC.ORD.BPM):
            return None

        def wrapper(s):
            s.plot = d
            try:
                return M.SCplotBPMreading(s)
            finally:
                plt.close("all")

        def native(s):
            s.plot = d
            bpm_reading(s)
            plt.close("all")
            return s
        return wrapper, native
    raise AssertionError(n)


@facet("C28", "machine", machine_case(), quick=800, thorough=12000, rule="at least one call succeeded", shards=4)
def check_machine(case):
    def build():
        np.random.seed(case["seed"])
        return machine.make(case)
    twins = build(), build()
    done = []
    for k, p in enumerate(case["todo"]):
        pair = native_and_wrapper(p, twins[1], case)
        if pair is None:
            continue
        what = f"{p['n']} (call {k})"
        if compare_on(twins, case["seed"] + k, what, *pair):
            done.append(p["n"])
        else:
            break  # state after a failed call is compared, then left alone
    return Info(bool(done), *sorted(set(done)))


# ------------------------------------------------------------------------------------------ rings and numbers

@st.composite
def tool_case(draw):
    return dict(els=draw(lat.elements(min_size=4, max_size=10, need=("drift", "rf", "dip"))), what=draw(st.sampled_from(["cron", "circ", "ords", "pinv", "randnc", "transform", "transform", "read"])), x=draw(vec(6, 1e-2)), d=draw(st.booleans()), i=draw(st.integers(0, 8)),
                seed=draw(st.integers(0, 10 ** 6)), th=draw(small(0.3)), L=draw(num(0.05, 2, 2)))


@facet("C28", "tools", tool_case(), quick=500, thorough=15000, rule="every case")
def check_tools(case):
    what, x, d, i, seed = (case[k] for k in ("what", "x", "d", "i", "seed"))

    def run(fun):
        return outcome(lambda s: fun(), None, seed)[0]

    if what == "cron":
        args = (("radiationon",), ("radiationoff",), ("cavityon",), ("cavityoff",), ("radiationon", "cavityoff"), ("cavityon", "radiationoff"), (), ("radiationon", "cavityon"), ("nonsense",))[i]
        wrapper, native = lambda: M.SCcronoff(lat.build(case["els"]), *args), lambda: switch_cavity_and_radiation(lat.build(case["els"]), *args)
    elif what == "circ":
        val = (1 + 0.01 * x[0]) * (machine.s_positions(case["els"])[-1] if d else 1)
        wrapper = lambda: M.SCscaleCircumference(lat.build(case["els"]), val, **({} if d else dict(mode="rel")))  # noqa: E731
        native = lambda: sc_tools.scale_circumference(lat.build(case["els"]), val, "abs" if d else "rel")  # noqa: E731
    elif what == "ords":
        rx = ("^Q", "B", "^D", ".*", "^$", "CAV|BPM", "[0-9]$", "q", "xyz")[i]
        wrapper, native = lambda: M.SCgetOrds(lat.build(case["els"]), rx, verbose=d), lambda: sc_tools.ords_from_regex(lat.build(case["els"]), rx)
    elif what == "pinv":
        m = np.random.default_rng(seed).normal(size=(2 + i % 3, 1 + i % 4))
        kw = {} if d else dict(N=1 if min(m.shape) > 1 else 0, alpha=abs(x[1]) * 100, damping=0.5)
        wrapper, native = lambda: M.SCgetPinv(m, **kw), lambda: sc_tools.pinv(m, kw.get("N", 0), kw.get("alpha", 0), kw.get("damping", 1))
    elif what == "randnc":
        args = ((), (1.0,), (0.5, (3,)), (2, (2, 3)), (1, (1,)))[i % 5]
        wrapper, native = lambda: M.SCrandnc(*args), lambda: sc_tools.randnc(args[0] if args else 2, args[1] if len(args) > 1 else (1,))
    elif what == "transform":
        dx, dy, dz, ax, ay, az = x
        th = case["th"] if d else 0.0
        el = at.Dipole("D", case["L"], th) if th else at.Quadrupole("Q", case["L"], 0.0)
        el.MagnetOffset, el.MagnetRoll, el.SupportOffset, el.SupportRoll = np.array([dx, dy, dz]), np.array([az, ax, ay]), np.zeros(3), np.zeros(3)

        def native():
            sc_tools.update_transformation(el)
            return el.T1, el.T2, el.R1, el.R2
        wrapper = lambda: M.SCgetTransformation(dx, dy, dz, ax, ay, az, th, case["L"], refPoint="entrance")  # noqa: E731
    else:
        rows = [f"{n}\t{abs(x[n % 6]) + 1e-5}\t{x[(n + 1) % 6]}" for n in range(2 + i % 3)]
        path = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"multipoles-{os.getpid()}.txt")
        with open(path, "w") as f:
            f.write("# n\tPolynomA(n)\tPolynomB(n)\n" + "\n".join(rows[:1]).replace(rows[0], f"0\t0.0\t1.0\n") + "\n".join(rows[1:]) + "\n")
        wrapper, native = lambda: M.SCmultipolesRead(path), lambda: sc_tools.read_multipoles(path)
    a, b = run(wrapper), run(native)
    require(a[0] == b[0] and (a[0] == "returned" or a[1] == b[1]), f"{what}: {a} where the native call {b}")
    dd = diff(b[1], a[1])
    require(not dd, f"{what}: result differs from the native call: {dd}")
    if what == "transform" and a[0] == "returned":
        require(np.shape(a[1][1]) == (6,) and np.shape(a[1][3]) == (6, 6), "shapes of the transformation")
    return Info(a[0] == "returned", what)


# ------------------------------------------------------------------------------------------ corrections

@st.composite
def feedback_case(draw):
    c = draw(ring_machine_case(sexts=(0.0, 1.0), modes=("TBT", "TBT", "ORB")))
    c.update(limits=None, ap=draw(st.sampled_from([None, None, 2e-3])), fun=draw(st.sampled_from(["run", "first", "stitch", "balance"])), form=draw(st.sampled_from(["all", "sub", "sub"])), bpms=draw(lat.idx_subset(3, 8)), h=draw(lat.idx_subset(2, 4)), v=draw(lat.idx_subset(2, 4)),
             refform=draw(st.sampled_from(["none", "flat", "column"])), ref=draw(vec(4, 1e-4)), steps=draw(st.sampled_from([None, 3, 12])), nb=draw(st.sampled_from([None, 2])), eps=draw(st.sampled_from([None, 1e-6])), target=draw(st.sampled_from([None, 1e-5])), seed=draw(st.integers(0, 10 ** 6)),
             jitter=draw(st.booleans()), scale=draw(st.sampled_from([0, 0, 1e6])), alpha=draw(st.sampled_from([1.0, 10.0])))
    if c["fun"] in ("first", "stitch", "balance"):
        c["mode"] = "TBT"
        c["turns"] = 1 if c["fun"] == "first" else 2
    return c


@facet("C28", "feedback", feedback_case(), quick=80, thorough=2000, rule="correction succeeded", shards=3)
def check_feedback(case):
    def build():
        np.random.seed(case["seed"])
        SC = ring_machine(case)[0]
        SC.INJ.randomInjectionZ = np.ones(6) * (1e-6 if case["jitter"] else 0)
        return SC
    twins = build(), build()
    SC = twins[1]
    bpms, cms, kw, nkw = SC.ORD.BPM, [SC.ORD.HCM, SC.ORD.VCM], {}, {}
    if case["form"] == "sub":
        bpms, cms = np.array(lat.pick(list(SC.ORD.BPM), case["bpms"])), [np.array(lat.pick(list(SC.ORD[k]), case[i]), dtype=int) for k, i in (("HCM", "h"), ("VCM", "v"))]
        bpms = np.sort(bpms)
        cms = [np.sort(c) for c in cms]
        kw.update(CMords=cms, BPMords=bpms)
        nkw.update(cm_ords=[c.copy() for c in cms], bpm_ords=bpms.copy())
    fun = case["fun"]
    if case["mode"] == "ORB":
        twin = build()
        rm = true_response(twin, bpms, cms)
    else:
        rm = response_model.SCgetModelRM(SC, bpms, cms, nTurns=SC.INJ.nTurns)
    if np.any(np.isnan(rm)):
        raise Discard()
    disp = case["scale"] if fun == "run" and case["mode"] == "ORB" else 0
    if disp:
        rm = np.column_stack((rm, np.random.default_rng(case["seed"]).normal(size=len(rm)) * 1e-2))
        kw["scaleDisp"] = nkw["scaleDisp"] = disp
    mplus = sc_tools.pinv(rm, alpha=case["alpha"])
    native_rm = np.linalg.pinv(mplus)  # the native functions invert the response themselves
    if case["refform"] != "none":
        ref = np.array([case["ref"][k % 4] for k in range(len(rm))])
        kw["R0"] = ref.copy() if case["refform"] == "flat" else ref.copy()[:, None]
        nkw["reference"] = ref.copy() if case["refform"] == "flat" else ref.copy()[:, None]
    steps = dict(run=30, first=100, stitch=30, balance=10)[fun]
    if case["steps"]:
        steps = kw["maxsteps"] = case["steps"]
    nkw["maxsteps"] = steps
    if fun in ("run", "balance"):
        nkw["eps"] = 1e-4
        if case["eps"]:
            kw["eps"] = nkw["eps"] = case["eps"]
    if fun == "run":
        nkw["target"] = 0
        if case["target"]:
            kw["target"] = nkw["target"] = case["target"]
    if fun == "stitch":
        nkw["n_bpms"] = 4
        if case["nb"]:
            kw["nBPMs"] = nkw["n_bpms"] = case["nb"]
    f, g = dict(run=("SCfeedbackRun", "correct"), first=("SCfeedbackFirstTurn", "first_turn"), stitch=("SCfeedbackStitch", "stitch"), balance=("SCfeedbackBalance", "balance"))[fun]
    keep = mplus.copy()
    ok = compare_on(twins, case["seed"], f, lambda s: getattr(M, f)(s, mplus, **kw), lambda s: getattr(orbit_trajectory, g)(s, native_rm, **nkw))
    equal(mplus, keep, "pseudo-inverse given by the caller")
    return Info(ok, fun, "succeeded" if ok else "raised")


@st.composite
def synch_case(draw):
    c = draw(c19.machine_case(sexts=(0.0,)))
    c.update(what=draw(st.sampled_from(["phase", "energy"])), turns=draw(st.integers(1, 12)), nturns=draw(st.sampled_from([None, 20, 8, 3])), steps=draw(st.sampled_from([None, None, 9, 4])), cav=draw(st.booleans()), range=draw(st.sampled_from([None, [-500.0, 700.0]])), seed=draw(st.integers(0, 10 ** 6)))
    return c


@facet("C28", "synch", synch_case(), quick=32, thorough=600, rule="correction succeeded", shards=4)
def check_synch(case):
    def build():
        np.random.seed(case["seed"])
        return c19.make(case)[0]
    twins = build(), build()
    phase = case["what"] == "phase"
    kw, nkw = {}, dict(n_steps=15)
    turns = 20 if phase else 150
    if case["nturns"]:
        turns = kw["nTurns"] = case["nturns"]
    elif not phase and case["turns"] % 3:  # default number of turns only sometimes (slow)
        turns = kw["nTurns"] = 12
    if case["steps"]:
        kw["nSteps"] = nkw["n_steps"] = case["steps"]
    cavs = twins[0].ORD.RF[:1]
    if case["cav"]:
        kw["cavOrd"], nkw["cav_ords"] = cavs.copy(), cavs.copy()
    if not phase:
        nkw["f_range"] = (-1e3, 1e3)
        if case["range"]:
            kw["f_range"] = nkw["f_range"] = tuple(case["range"])

    def native(s):
        s.INJ.nTurns = turns
        try:
            return (rf.correct_rf_phase if phase else rf.correct_rf_frequency)(s, **nkw)
        finally:
            s.INJ.nTurns = case["turns"]
    f = "SCsynchPhaseCorrection" if phase else "SCsynchEnergyCorrection"
    ok = compare_on(twins, case["seed"], f, lambda s: getattr(M, f)(s, **kw), native)
    require(twins[0].INJ.nTurns == case["turns"], f"{f}: number of turns {twins[0].INJ.nTurns} instead of {case['turns']}")
    return Info(ok, f, "succeeded" if ok else "raised")


@st.composite
def other_case(draw):
    c = draw(c18.bba_case())
    c.update(dark=False, what=draw(st.sampled_from(["bba", "tune", "tune", "traj", "drift", "drift"])), seed=draw(st.integers(0, 10 ** 6)), full=draw(st.sampled_from([None, 0, 1, True])), grid=draw(st.lists(num(0.97, 1.03, 3), min_size=3, max_size=3)), particles=draw(st.sampled_from([None, 1, 4])), target=draw(st.sampled_from([None, 0.5])),
             dims=draw(st.sampled_from([None, [0], [1]])), nb=draw(st.sampled_from([None, [0, 1, 2, 3], [1, 3]])), scanturns=draw(st.sampled_from([None, 3])))
    if c["what"] != "bba":
        c["kind"], c["planes"] = "quad", 2
    return c


@facet("C28", "alignment", other_case(), quick=48, thorough=1000, rule="call succeeded", shards=3)
def check_other(case):
    def build():
        np.random.seed(case["seed"])
        return c18.make(case)
    A, B = build(), build()
    twins = A[0], B[0]
    SC = twins[1]
    what = case["what"]
    quads = [int(o) for o, e in enumerate(SC.RING) if type(e).__name__ == "Quadrupole"]
    if what == "bba":
        nb = min(len(SC.ORD.BPM), 2)
        bpms, mags = np.tile(SC.ORD.BPM[:nb], (2, 1)), np.tile(np.array(quads[:nb]), (2, 1))
        kw = dict(n_steps=4, num_downstream_bpms=4) if case["n_steps"] else {}
        raises(KeyError, "missing mode", M.SCBBA, copy.deepcopy(SC), bpms, mags)
        wrapper, native = lambda s: M.SCBBA(s, bpms.copy(), mags.copy(), mode="TBT", **kw), lambda s: bba.trajectory_bba(s, bpms.copy(), mags.copy(), **kw)
    elif what == "tune":
        fams = [np.array(quads[::2]), np.array(quads[1::2])]
        grid = [np.array(case["grid"]), np.array(case["grid"][::-1])]
        kw, nkw = {}, dict(target=1, nParticles=None, nTurns=None, full_scan=0)
        if case["full"] is not None:
            kw["fullScan"] = nkw["full_scan"] = case["full"]
        if case["particles"]:
            kw["nParticles"] = nkw["nParticles"] = case["particles"]
        if case["target"]:
            kw["target"] = nkw["target"] = case["target"]
        if case["scanturns"]:
            kw["nTurns"] = nkw["nTurns"] = case["scanturns"]
        wrapper, native = lambda s: M.SCtuneScan(s, fams, grid, **kw), lambda s: tune.tune_scan(s, fams, grid, **nkw)
    elif what == "traj":
        inds = np.array(case["nb"]) if case["nb"] else np.array([0, 1, 2])
        kw = dict(nBPMs=inds.copy()) if case["nb"] else {}
        wrapper, native = lambda s: M.SCfitInjectionZ(s, "fitTrajectory", **kw), lambda s: injection_fit.fit_injection_trajectory(s, inds)
    else:
        dims = np.array(case["dims"] if case["dims"] else [0, 1])
        kw = dict(nDims=dims.copy()) if case["dims"] else {}
        wrapper, native = lambda s: M.SCfitInjectionZ(s, "injectionDrift", **kw), lambda s: injection_fit.fit_injection_drift(s, dims)
    ok = compare_on(twins, case["seed"], what, wrapper, native)
    return Info(ok, what, "succeeded" if ok else "raised")


# ------------------------------------------------------------------------------------------ plots

def picture():
    """content of all figures"""
    out = []
    for n in plt.get_fignums():
        for a in plt.figure(n).axes:
            texts = [a.get_xlabel(), a.get_ylabel(), a.get_title(), a.xaxis.label.get_fontsize()] + [t.get_text() for t in a.texts]
            out.append(dict(texts=[str(t) for t in texts], lim=np.array(a.get_xlim() + a.get_ylim()), lines=[np.array([li.get_xdata(), li.get_ydata()], dtype=float) for li in a.get_lines()],
                            sets=[np.asarray(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)) for c in a.collections],
                            paths=[np.array(q.vertices) for c in a.collections for q in c.get_paths()], patches=[np.array(q.get_path().vertices) for q in a.patches]))
    return out


@st.composite
def plots_case(draw):
    c = draw(ring_machine_case(modes=("TBT",)))
    c.update(what=draw(st.sampled_from(["lattice", "lattice", "phase", "phase", "support", "strengths", "cod"])), opt=draw(st.lists(st.booleans(), min_size=6, max_size=6)), sect=draw(st.integers(2, 4)), part=draw(st.sampled_from(["sectors", "range", "list", "range and list"])),
             idx=draw(st.lists(st.integers(0, 95), min_size=2, max_size=4, unique=True)), span=draw(st.tuples(num(0, 0.4, 2), num(0.6, 1, 2))), font=draw(st.integers(6, 14)), n=draw(st.integers(1, 4)), ord=draw(st.integers(0, 95)))
    return c


@facet("C28", "plots", plots_case(), quick=64, thorough=500, rule="every case", shards=8)
def check_plots(case):
    SC, els, bpms, cors = ring_machine(case)
    SC.register_supports(np.array([[2, 9], [6, 15]]), "Girder", Offset=np.array([1e-4, 1e-4, 0]))
    SC.apply_errors()
    o, n, what = case["opt"], len(SC.RING), case["what"]
    end = sum(getattr(e, "Length", 0.0) for e in SC.RING)
    kw, nat = {}, {}
    if what == "lattice":
        pairs = [("plotIdealRing", "ideal_ring", int(o[0]), o[0]), ("plotMagNames", "plot_magnet_names", int(o[1]), o[1]), ("fontSize", "font_size", case["font"], case["font"])]
        nat = dict(ideal_ring=True, plot_magnet_names=False, font_size=16, n_sectors=1)
        for (a, b, v, w), use in zip(pairs, o[2:5]):
            if use:
                kw[a], nat[b] = v, w
        if o[5]:
            idx = np.array([i % n for i in case["idx"]])
            if case["part"] == "sectors":
                kw["nSectors"] = nat["n_sectors"] = case["sect"]
            elif case["part"].startswith("range"):
                kw["sRange"] = nat["s_range"] = np.array(case["span"]) * end
            if case["part"].endswith("list"):
                s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in SC.RING])))
                if s[max(idx)] - s[min(idx)] < 1.0:
                    raise Discard()
                kw["oList"] = nat["indices"] = idx
        wrapper, native = (lambda s: M.SCplotLattice(s, **kw)), (lambda s: plot_lattice(s, **nat))
    elif what == "phase":
        if o[0]:
            kw["ord"] = nat["ords"] = np.array([case["ord"] % n])
        if o[1]:
            kw["customBunch"] = nat["custom_bunch"] = 1e-5 * np.arange(6.0 * case["n"]).reshape(6, -1)
        elif o[2]:
            kw["nParticles"] = nat["nParticles"] = case["n"]
        if o[3]:
            kw["nTurns"] = nat["nTurns"] = 1 + case["n"]
        if o[4]:
            kw["plotCO"] = nat["plotCO"] = True
        wrapper, native = (lambda s: M.SCplotPhaseSpace(s, **kw)), (lambda s: plot_phase_space(s, **nat))
    elif what == "support":
        if o[0]:
            kw["fontSize"] = nat["font_size"] = case["font"]
        if o[1]:
            kw["xLim"] = nat["x_lim"] = tuple(float(v) * end for v in case["span"])
        wrapper, native = (lambda s: M.SCplotSupport(s, **kw)), (lambda s: plot_support(s, **nat))
    elif what == "strengths":
        wrapper, native = M.SCplotCMstrengths, plot_cm_strengths
    else:
        if o[0]:
            kw["ords"] = nat["ords"] = SC.ORD.Magnet[:4]
        wrapper, native = (lambda s: M.SCgetCOD(s, plot=True, **kw)), (lambda s: SCgetCOD(s, plot=True, **nat))
    plt.pause = lambda *a, **k: None
    seed = np.random.randint(2 ** 31)
    shown = []
    for fun in (native, wrapper):
        plt.close("all")
        np.random.seed(seed)
        other = copy.deepcopy(SC)
        fun(other)
        shown.append(picture())
        unchanged(freeze_sc(SC), freeze_sc(other), f"machine after the plot ({what})")
    plt.close("all")
    d = diff(shown[0], shown[1])
    require(len(shown[0]) and not d, f"plot of the {what} differs from the native one: {d}")
    return Info(True, what)
