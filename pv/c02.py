"""C02: observing the machine does not change it. Oracle: deep snapshots before and after, repetition under the same random state, results overwritten by the caller."""
import copy
import warnings

import at
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.c14 import ops, perform
from pv.c15 import ring_machine, ring_machine_case
from pv.core import Discard, Info, Violation, diff, facet, fail, freeze, freeze_ring, freeze_sc, require, unchanged
from pv.lat import small, vec
from pySC.core.beam import all_elements_reading, beam_transmission, bpm_reading, generate_bunches
from pySC.correction import loco, rf
from pySC.correction.tune import tune
from pySC.lattice_properties import response_measurement
from pySC.lattice_properties.response_model import SCgetModelDispersion, SCgetModelRING, SCgetModelRM
from pySC.plotting.plot_support import plot_support
from pySC.plotting.plot_synoptic import plot_synoptic
from pySC.utils import at_wrapper, sc_tools

warnings.filterwarnings("ignore")


def pool(ords, p, least=1):
    ords = [int(o) for o in ords]
    return np.array(sorted({ords[p["i"] % len(ords)], ords[p["j"] % len(ords)]})) if ords else None


def call(name, SC, p, sizes):
    """function and its arguments, None if it does not apply. sizes: kinds of elements of the lattice"""
    n = len(SC.RING)
    refs = np.array(sorted({p["i"] % (n + 1), p["j"] % (n + 1)}))
    bpms, mags = pool(SC.ORD.BPM, p), pool(SC.ORD.Magnet, p)
    cms = [pool(SC.ORD.HCM, p), pool(SC.ORD.VCM, p)]
    z = np.array([p["x"], p["y"], -p["y"], p["x"], 0, 0]) * 1e-4
    orb = SC.INJ.trackMode == "ORB"
    if name == "reading":
        if bpms is None:
            return None
        ords = (None, bpms, list(bpms), bpms[::-1].copy())[p["t"]]
        return (lambda s, o: bpm_reading(s, bpm_ords=o, calculate_errors=p["d"])), [ords]
    if name == "all":
        return (all_elements_reading, []) if len(SC.ORD.BPM) else None
    if name == "transmission":
        return (lambda s: beam_transmission(s, nParticles=p["o"] if p["d"] else None, nTurns=p["t"] + 1 if p["d"] else None)), []
    if name == "bunches":
        return (lambda s: generate_bunches(s, nParticles=p["o"]) if p["d"] else generate_bunches(s)), []
    if name == "getcm":
        v = p["t"] % 2
        return None if cms[v] is None else ((lambda s, o: s.get_cm_setpoints(o, bool(v))), [cms[v][::-1].copy() if p["d"] else int(cms[v][0])])
    if name == "support":
        where = at_wrapper.findspos(SC.RING)
        return (lambda s, pos: s.support_offset_and_roll(pos)), [where[refs] if p["d"] else np.linspace(0, where[-1], 7)]
    if name == "model":
        return (lambda s: SCgetModelRING(s, includeAperture=p["d"])), []
    if name == "modelrm":
        if mags is None or bpms is None:
            return None
        mode = "ORB" if orb and p["d"] else "TBT"
        return (lambda s, b, c, zz: SCgetModelRM(s, b, c, trackMode=mode, Z0=zz, nTurns=1 if mode == "ORB" else p["o"], useIdealRing=p["t"] % 2 == 0)), [bpms, [c if c is not None else np.array([], dtype=int) for c in cms], z]
    if name == "modeldisp":
        cavs = pool(SC.ORD.RF, p)
        if cavs is None or bpms is None or not orb and p["t"] % 2:
            return None
        mode = "ORB" if orb else "TBT"
        return (lambda s, b, c, zz: SCgetModelDispersion(s, b, c, trackMode=mode, Z0=zz, nTurns=1 if orb else p["o"], useIdealRing=p["d"])), [bpms, cavs, z]
    if name == "verify":
        return (lambda s: s.verify_structure()), []
    if name == "regex":
        return (lambda s, r: sc_tools.ords_from_regex(r, ("", "BPM", "^C", "Q.*1$")[p["t"]])), ["RING" if p["d"] else "IDEALRING"]
    if name == "track":
        zin = np.asfortranarray(np.tile(z.reshape(6, 1), p["o"]))
        return (lambda s, r, zz, f: at_wrapper.lattice_track(r, zz, p["t"] + 1, f)), ["RING", zin, refs]
    if name == "spos":
        return (lambda s, r: at_wrapper.findspos(r)), ["RING"]
    if name == "values":
        return (lambda s, r, f: at_wrapper.atgetfieldvalues(r, f, ("Noise", "Offset", "CalError")[p["o"] % 3])), ["RING", bpms] if bpms is not None else None
    if name == "orbit6":
        return ((lambda s, r, f: at_wrapper.findorbit6(r, f)), ["RING", refs]) if sizes == "ring" else None
    if name == "orbit4":
        return ((lambda s, r, f: at_wrapper.findorbit4(r, 1e-4 * p["x"], f)), ["FLAT", refs]) if sizes == "ring" else None
    if name == "optics":
        return ((lambda s, r, f: at_wrapper.atlinopt(r, 0, f)), ["FLAT", refs]) if sizes == "ring" else None
    if name == "tune":
        return ((lambda s: tune(s, fit_integer=p["d"], ideal=p["t"] % 2 == 0)), []) if sizes == "ring" else None
    if name == "phase_energy":
        return ((lambda s, c: rf.phase_and_energy_error(s, c)), [np.array(SC.ORD.RF)]) if sizes == "ring" else None
    if name == "betabeat":
        return ((lambda s, r, t, f: loco.model_beta_beat(r, t, f)), ["FLAT", "twiss", refs[refs < n]]) if sizes == "ring" and np.any(refs < n) else None
    if name == "quadresponse":
        if mags is None or bpms is None or None in [None if c is None else 1 for c in cms]:
            return None
        nominal = SCgetModelRM(SC, bpms, cms, trackMode="TBT", nTurns=1, useIdealRing=p["d"])
        return (lambda s, a, b, c, m: loco.calculate_jacobian(s, a, 1e-5, c, b, m, 1e-4, trackMode="TBT", useIdealRing=p["d"], full_jacobian=p["t"] % 2 == 0)), [nominal, bpms, cms, mags]
    if name == "plot":
        return ((plot_support if p["d"] else lambda s: plot_synoptic(s, correctors=p["t"] % 2 == 0, famnames=p["t"] > 1)), []) if mags is not None and bpms is not None else None
    raise ValueError(name)


GENERIC = ("reading", "reading", "all", "transmission", "bunches", "getcm", "support", "model", "modelrm", "modeldisp", "verify", "regex", "track", "spos", "values")
RING = ("reading", "all", "getcm", "model", "modelrm", "modeldisp", "verify", "orbit6", "orbit4", "optics", "tune", "phase_energy", "betabeat", "quadresponse", "values", "track", "support")


def step(names):
    return st.fixed_dictionaries(dict(n=st.sampled_from(names), i=st.integers(0, 30), j=st.integers(0, 30), x=small(1.0), y=small(1.0), o=st.integers(1, 3), t=st.integers(0, 3), d=st.booleans()))


def resolve(SC, a):
    if isinstance(a, str) and a in ("RING", "IDEALRING"):
        return getattr(SC, a)
    return a


def seal(out):
    if isinstance(out, at.Lattice):
        return freeze_ring(out)
    if isinstance(out, (list, tuple)):
        return [seal(v) for v in out]
    if isinstance(out, dict):
        return {k: seal(v) for k, v in out.items()}
    if isinstance(out, (np.ndarray, float, int, np.generic, str, type(None))):
        return freeze(out)
    return type(out).__name__  # figures and axes


def spoil(out):
    """the caller overwrites everything he got"""
    if isinstance(out, at.Lattice):
        for el in out:
            for v in vars(el).values():
                spoil(v)
            if "Length" in vars(el):
                el.Length = 3.14
    elif isinstance(out, (list, tuple)):
        for v in out:
            spoil(v)
    elif isinstance(out, dict):
        for v in out.values():
            spoil(v)
    elif isinstance(out, np.ndarray) and out.flags.writeable and out.dtype.names is None:
        if out.dtype.kind in "iu":
            out[...] = out + 1
        elif out.dtype.kind in "fc":
            out[...] = 17.5


def flat(ring):
    return ring.disable_6d(copy=True)


def observe(SC, p, sizes, seed):
    """one observation; returns whether it was successful"""
    built = call(p["n"], SC, p, sizes)
    if built is None or built[1] is None:
        return False
    fun, args = built
    args = [resolve(SC, a) for a in args]
    extra = None
    if sizes == "ring":
        args = [flat(SC.RING) if isinstance(a, str) and a == "FLAT" else a for a in args]
        if any(isinstance(a, str) and a == "twiss" for a in args):
            extra = at.get_optics(flat(SC.IDEALRING), refpts=args[2])[2]
            args = [extra if isinstance(a, str) and a == "twiss" else a for a in args]
    before, given = freeze_sc(SC), seal(args)
    outs = []
    for rep in range(2):
        np.random.seed(seed)
        try:
            out = fun(SC, *args)
        except at.AtError as exc:
            out = f"raised {exc}"
        except Exception as exc:  # noqa: BLE001
            out = f"raised {type(exc).__name__} {exc}"  # success is decided elsewhere
        finally:
            if p["n"] == "plot":
                plt.close("all")
        what = f"{p['n']} ({'first' if not rep else 'second'} call)"
        unchanged(before, freeze_sc(SC), f"machine after {what}")
        d = diff(given, seal(args))
        require(not d, f"arguments of the caller after {what}: {d}")
        if p["n"] != "plot":
            outs.append(seal(out))
            d = diff(outs[0], outs[-1])
            require(not d, f"{what} under the same random state: {d}")
            spoil(out)
            unchanged(before, freeze_sc(SC), f"machine after the caller changed the result of {what}")
            if p["n"] not in ("track", "orbit6", "orbit4"):
                d = diff(given, seal(args))
                require(not d, f"arguments of the caller after he changed the result of {what}: {d}")
        last = out
    return not (isinstance(last, str) and last.startswith("raised"))


@st.composite
def generic_case(draw):
    c = draw(machine.machine_case(min_regs=3, max_regs=7))
    if machine.support_conflict(c["regs"], c["els"]):
        c["apply"] = False
    c.update(ops=draw(ops()), steps=draw(st.lists(step(GENERIC), min_size=2, max_size=6)), seed=draw(st.integers(0, 10 ** 6)), mode=draw(st.sampled_from(["TBT", "TBT", "PORB"])),
             shots=draw(st.integers(1, 2)), turns=draw(st.integers(1, 2)), particles=draw(st.sampled_from([1, 1, 3])), lost=draw(st.sampled_from([1.0, 0.5])), ap=draw(st.booleans()),
             size=draw(st.sampled_from([0.0, 1e-10])))
    return c


@facet("C02", "machines", generic_case(), quick=250, thorough=9000, rule="two or more successful observations of a machine with registered devices", shards=4)
def check_machines(case):
    SC = machine.make(case)
    perform(SC, case["ops"], case["els"])
    SC.INJ.trackMode = case["mode"]
    SC.INJ.nShots, SC.INJ.nTurns, SC.INJ.nParticles, SC.INJ.beamLostAt = case["shots"], case["turns"], case["particles"], case["lost"]
    SC.INJ.beamSize = np.diag(np.full(6, case["size"]))
    if case["ap"]:
        for el in list(SC.RING)[::3]:
            el.EApertures = np.array([1e-3, 1e-3])
    good = [p["n"] for k, p in enumerate(case["steps"]) if observe(SC, p, "line", case["seed"] + k)]
    return Info(len(good) > 1, case["mode"], *set(good))


@st.composite
def ring_case(draw):
    c = draw(ring_machine_case())
    c.update(steps=draw(st.lists(step(RING), min_size=2, max_size=5)), seed=draw(st.integers(0, 10 ** 6)), supports=draw(st.booleans()))
    return c


@facet("C02", "rings", ring_case(), quick=150, thorough=5000, rule="two or more successful observations", shards=3)
def check_rings(case):
    SC, els, bpms, cors = ring_machine(case)
    if case["supports"]:
        SC.register_supports(np.array([[0], [len(els) // 2]]), "Girder", Offset=np.ones(3) * 1e-6)
        SC.apply_errors()
    good = [p["n"] for k, p in enumerate(case["steps"]) if observe(SC, p, "ring", case["seed"] + k)]
    return Info(len(good) > 1, case["mode"], *set(good))


@st.composite
def plot_case(draw):
    c = draw(generic_case())
    c["steps"] = [dict(p, n="plot") for p in c["steps"][:1]]
    return c


@facet("C02", "plots", plot_case(), quick=6, thorough=60, rule="plot drawn", shards=1)
def check_plots(case):
    SC = machine.make(case)
    if not len(SC.ORD.BPM) or not len(SC.ORD.Magnet):
        raise Discard()
    return Info(observe(SC, case["steps"][0], "line", case["seed"]))


@st.composite
def measure_case(draw):
    c = draw(ring_machine_case())
    c.update(what=draw(st.sampled_from(["rm", "rm", "disp", "loco"])), n_steps=draw(st.sampled_from([2, 3])), h=draw(lat.idx_subset(0, 3)), v=draw(lat.idx_subset(0, 3)), amp=draw(st.sampled_from([1e-5, 5e-5, 1e-3])),
             noise=draw(st.booleans()), how=draw(st.sampled_from(["fixedKick", "fixedOffset"])), ap=draw(st.sampled_from([None, 1e-3])), times=draw(st.integers(1, 2)), step=draw(st.sampled_from([100.0, 1000.0, -500.0])), only=draw(st.integers(0, 3)), bad=draw(st.booleans()))
    return c


SETTINGS = ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle", "VoltageSetPoint", "FrequencySetPoint", "TimeLagSetPoint", "Voltage", "Frequency", "TimeLag")


@facet("C02", "measurements", measure_case(), quick=100, thorough=3000, rule="completed measurement", shards=2)
def check_measurements(case):
    """measurements put back every corrector and cavity; everything else is never touched"""
    SC, els, bpms, cors = ring_machine(case)
    if case["noise"]:
        for o in bpms:
            SC.RING[o].Noise = np.array([1e-6, 2e-6])
            SC.RING[o].NoiseCO = np.array([1e-6, 2e-6])
        SC.INJ.randomInjectionZ = np.ones(6) * 1e-6
    cms = [np.array(lat.pick(list(cors), case[k]), dtype=int) for k in "hv"]
    args = [bpms.copy(), [c.copy() for c in cms], np.array(SC.ORD.RF).copy()]
    given = seal(args)
    parts = ("IDEALRING", "SIG", "ORD", "plot") + (("INJ",) if case["what"] != "loco" else ())  # loco switches to closed orbits
    keep = freeze_sc(SC, parts)
    ring = freeze_ring(SC.RING)
    done = False
    for _ in range(case["times"]):
        try:
            if case["what"] == "rm":
                response_measurement.response_matrix(SC, case["amp"], args[0], args[1], mode=case["how"], n_steps=case["n_steps"])
            elif case["what"] == "disp":
                response_measurement.dispersion(SC, case["step"], args[0], args[2], n_steps=case["n_steps"])
            else:
                if not (len(cms[0]) and len(cms[1])):
                    raise Discard()
                loco.measure_closed_orbit_response_matrix(SC, args[0], args[1], dkick=case["amp"])
            done = True
        except (at.AtError, ValueError, RuntimeError):
            break  # orbit or corrector range not available
        unchanged(ring, freeze_ring(SC.RING), f"ring after the measurement ({case['what']})", rtol=1e-13, atol=1e-19)
        d = diff(given, seal(args))
        require(not d, f"arguments of the caller after the measurement: {d}")
        unchanged(keep, freeze_sc(SC, parts), "machine (other than the ring)")
    return Info(done, case["what"], case["mode"], "noise" if case["noise"] else "")
