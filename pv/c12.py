"""C12: beam transmission. Oracle: independent tracking of the recorded bunch."""
import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat, machine
from pv.core import Discard, Info, close, equal, facet, require
from pv.c10 import APS
from pv.lat import num, small, vec
from pySC.core import beam
from pySC.core.simulated_commissioning import SimulatedCommissioning

LOST = st.sampled_from([1.0, 0.5, 0.25, 0.75, 0.3, 0.6, 0.1, 0.0])


@st.composite
def line_case(draw):
    els = draw(lat.elements(min_size=4, max_size=12, need=("quad", "drift")))
    return dict(els=els, ap=draw(st.lists(st.tuples(st.integers(0, 30), st.booleans(), num(0.2, 6, 1), num(0.2, 6, 1)).map(list), min_size=1, max_size=3)),
                z0=draw(vec(6, 2e-4)), size=draw(num(0, 2, 1)) * 1e-3, jit=draw(num(0, 1, 1)) * 1e-4, n=draw(st.one_of(st.integers(1, 20), st.sampled_from([100]))), turns=draw(st.one_of(st.integers(1, 6), st.sampled_from([30]))),
                lost=draw(LOST), args=draw(st.sampled_from(["none", "both", "n", "turns"])), other=draw(st.tuples(st.integers(1, 7), st.integers(1, 7)).map(list)),
                mode=draw(st.sampled_from(["TBT", "PORB"])), kill=draw(st.sampled_from([0, 0, 0, 2, 3])), mis=draw(st.booleans()))


@facet("C12", "transmission", line_case(), quick=600, thorough=15000, rule="some but not all particles are lost, or several turns")
def check_transmission(case):
    els = [dict(e) for e in case["els"]]
    for p, ell, a, b in case["ap"]:
        e = els[p % len(els)]
        e["EAp" if ell else "RAp"] = [a * 1e-3, b * 1e-3] if ell else [-a * 1e-3, b * 1e-3, -b * 1e-3, a * 1e-3]
    SC = SimulatedCommissioning(lat.build(els))
    if case["mis"]:  # transmission is that of the actual machine, not of the design
        quads = np.array(lat.of_kind(els, "quad"))
        SC.register_magnets(quads, MagnetOffset=np.ones(3) * 1e-3, CalErrorB=np.array([0, 0.3]))
        SC.apply_errors()
    _check(SC, case)
    T, frac = case["_out"]
    partial = np.any((frac > 0) & (frac < 1))
    return Info(partial or len(frac) > 1 and frac[0] > 0, "partial" if partial else ("all" if frac[-1] == 1 else "none"), case["args"],
                "lost on later turns" if frac[-1] < frac[0] else "", "misaligned" if case["mis"] else "")


def _check(SC, case):
    n, turns = case["n"], case["turns"]
    SC.INJ.nParticles, SC.INJ.nTurns = n, turns
    kw = {}
    if case["args"] in ("both", "n"):
        kw["nParticles"] = n
        SC.INJ.nParticles = case["other"][0]
    if case["args"] in ("both", "turns"):
        kw["nTurns"] = turns
        SC.INJ.nTurns = case["other"][1]
    SC.INJ.trackMode, SC.INJ.beamLostAt = case["mode"], case["lost"]
    SC.INJ.nShots = 2
    SC.INJ.Z0, SC.INJ.randomInjectionZ = np.array(case["z0"]), np.ones(6) * case["jit"]
    SC.INJ.beamSize = np.diag([case["size"] ** 2, case.get("ang", 1e-4) ** 2, case["size"] ** 2, case.get("ang", 1e-4) ** 2, 1e-8, 1e-10])

    def after(z):
        if case["kill"]:
            z[:, ::case["kill"]] = np.nan
        return z
    rec = beamref.recorder(SC, after)
    ring = SC.RING.deepcopy()
    out = beam.beam_transmission(SC, **kw)
    require(len(out) == 2, "two outputs")
    survived, frac = out
    require(len(rec) == 1 and rec[0].shape == (6, n), "one bunch of the requested number of particles is injected")
    pos = beamref.track(ring, rec[0], turns, [len(ring)])
    want = np.mean(~np.isnan(pos[0]), axis=(0, 1))
    equal(frac, want, "transmission by turn")
    require(np.all(np.diff(frac) <= 0) and frac[0] <= 1, "transmission increases")
    thr = 1 - case["lost"]
    case["_out"] = (survived, np.asarray(frac))
    if np.any((np.abs(want - thr) < 1e-9) & (not float(case["lost"] * 4).is_integer())):
        return
    require(isinstance(survived, (int, np.integer)) and survived == np.sum(want > thr), f"{survived} turns survived instead of {np.sum(want > thr)} (transmission {want}, threshold {thr})")


@st.composite
def ring_case(draw):
    return dict(ring=draw(lat.ring_spec()), z0=draw(vec(6, 2e-4)), size=draw(num(0, 2, 1)) * 1e-3, jit=0.0, n=draw(st.sampled_from([1, 5, 20])), turns=draw(st.integers(2, 40)),
                lost=draw(LOST), args="none", other=[1, 1], mode="TBT", kill=0, ap=draw(num(1, 6, 1)), every=draw(st.integers(1, 5)), qerr=draw(st.booleans()))


@facet("C12", "ring", ring_case(), quick=60, thorough=1500, rule="some but not all particles are lost, or several turns survived")
def check_ring(case):
    els = lat.ring_elements(case["ring"])
    for i, e in enumerate(els):
        if e["t"] == "quad" and int(e["name"].split("_")[1]) % case["every"] == 0:
            e["EAp"] = [case["ap"] * 1e-3, case["ap"] * 1e-3]
    SC = SimulatedCommissioning(lat.build(els))
    if case["qerr"]:
        SC.register_magnets(np.array(lat.of_kind(els, "quad")), MagnetOffset=np.ones(3) * 2e-4)
        SC.apply_errors()
    _check(SC, case)
    T, frac = case["_out"]
    return Info(np.any((frac > 0) & (frac < 1)) or T > 1, "lost on later turns" if frac[-1] < frac[0] else "", f"{'some' if 0 < frac[-1] < 1 else 'all or none'} left")
