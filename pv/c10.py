"""C10: BPM readings. Oracle: independent BPM model on independently tracked bunches (recorded through INJ.postFun)."""
import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat, machine
from pv.core import Discard, Info, close, equal, facet, fail, raises, require
from pv.lat import num, pos_vec, small, vec
from pySC.core import beam
from pySC.core.simulated_commissioning import SimulatedCommissioning

CUT = 2.0
APS = st.lists(st.tuples(st.integers(0, 30), st.booleans(), num(0.2, 6, 1), num(0.2, 6, 1)).map(list), max_size=3)


@st.composite
def bpm_errors(draw, noise):
    e = dict(off=draw(vec(2, 1e-3)), soff=draw(vec(2, 1e-3)), roll=draw(small(0.5)), sroll=draw(small(0.5)), cal=draw(vec(2, 0.2)), sum=0.0,
             noise=[0.0, 0.0], co=[0.0, 0.0])
    if noise:
        e.update(sum=draw(st.sampled_from([0.0, 0.0, 0.1, 0.3])), noise=draw(pos_vec(2, 1e-4)), co=draw(pos_vec(2, 1e-5)))
    return e


@st.composite
def line_case(draw, noise=False):
    els = draw(lat.elements(min_size=6, max_size=14, need=("bpm", "quad", "drift", "bpm")))
    n = draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 8, 40]))
    return dict(els=els, ap=draw(APS), bpms=draw(lat.idx_subset(1, 6)), err=draw(st.lists(bpm_errors(noise), min_size=3, max_size=3)),
                sub=draw(st.one_of(st.none(), lat.idx_subset(1, 4))), extra=draw(st.booleans()), z0=draw(vec(6, 2e-3)), size=draw(num(0, 2, 1)) * 1e-3,
                jit=draw(num(0, 1, 1)) * 1e-4, n=n, turns=draw(st.sampled_from([1, 1, 2, 2, 3, 3, 6])), shots=draw(st.sampled_from([1, 1, 1, 2, 2, 3, 6])), mode=draw(st.sampled_from(["TBT", "TBT", "PORB"])),
                lost=draw(st.sampled_from([1.0, 0.5, 0.25, 0.75, 0.3, 0.6, 0.0])), off=draw(lat.vec(3, 1e-3)))


def setup(case):
    els = [dict(e) for e in case["els"]]
    for p, ell, a, b in case["ap"]:
        e = els[p % len(els)]
        if ell:
            e["EAp"] = [a * 1e-3, b * 1e-3]
        else:
            e["RAp"] = [-a * 1e-3, b * 1e-3, -b * 1e-3, a * 1e-3]
    return machine_from(lat.build(els), lat.of_kind(els, "bpm", "mark"), case)


def machine_from(ring, candidates, case):
    SC = SimulatedCommissioning(ring)
    bpms = lat.pick(candidates, case["bpms"])
    SC.register_bpms(np.array(bpms))
    for i, o in enumerate(bpms):
        e, el = case["err"][i % len(case["err"])], SC.RING[o]
        el.Offset, el.SupportOffset, el.Roll, el.SupportRoll = np.array(e["off"]), np.array(e["soff"]), e["roll"], e["sroll"]
        el.CalError, el.SumError, el.Noise, el.NoiseCO = np.array(e["cal"]), e["sum"], np.array(e["noise"]), np.array(e["co"])
    SC.INJ.trackMode = case["mode"]
    SC.INJ.nShots, SC.INJ.beamLostAt = case["shots"], case["lost"]
    if case["mode"] != "ORB":
        SC.INJ.nParticles, SC.INJ.nTurns = case["n"], case["turns"]
    SC.INJ.Z0, SC.INJ.randomInjectionZ = np.array(case["z0"]), np.ones(6) * case["jit"]
    SC.INJ.beamSize = np.diag([case["size"] ** 2, 1e-8, case["size"] ** 2, 1e-8, 1e-8, 1e-10])
    return SC, bpms


def selection(SC, bpms, case):
    """requested ordinates and the registered ones among them"""
    if case["sub"] is None:
        return None, bpms
    want = lat.pick(bpms, case["sub"], keep_order=True)
    req = list(want)
    if case["extra"]:
        req.insert(len(req) // 2, next(i for i in range(len(SC.RING)) if i not in bpms))
    return np.array(req), sorted(want)


def borderline(frac, lost):
    thr = 1 - lost
    dyadic = float(lost * 8).is_integer()
    near = np.abs(frac - thr) < 1e-9
    return np.any(near & (not dyadic or not np.all((frac * 8) == np.round(frac * 8))))


def reference(ring, sel, shots, turns, mode, lost, err):
    """clean readings (S, 2, B, T) and fractions (S, B, T), not-a-number where lost"""
    xs, ws = [], []
    for z in shots:
        c, f = beamref.shot(ring, sel, z, turns, mode)
        if borderline(f, lost):
            raise Discard()
        gone = f < 1 - lost
        x = beamref.clean(c, err)
        x[:, gone] = np.nan
        xs.append(x)
        ws.append(np.where(gone, np.nan, f))
    return np.array(xs), np.array(ws)


def combine(xs, ws, mode):
    """weighted averages over shots, and over turns in pseudo orbit mode"""
    n = len(xs)
    w = np.broadcast_to(ws[:, None], xs.shape)
    x = beamref.wmean(xs, w, 0)
    s = np.nansum(w, axis=0) / n
    if mode == "PORB":
        x = beamref.wmean(x, s, 2)[:, :, None]
        s = (np.nansum(s, axis=2) / s.shape[2])[:, :, None]
    return x, s


def measure(SC, case, bpms):
    req, sel = selection(SC, bpms, case)
    ring = SC.RING.deepcopy()
    rec = beamref.recorder(SC)
    keep = None if req is None else req.copy()
    out = beam.bpm_reading(SC, bpm_ords=req, calculate_errors=case.get("errors", False))
    if req is not None:
        equal(req, keep, "requested BPM ordinates")
    if SC.INJ.trackMode == "ORB":
        rec = [None] * case["shots"]
    require(len(rec) == case["shots"], f"{len(rec)} bunches injected for {case['shots']} shots")
    for z in rec:
        if z is not None:
            require(z.shape == (6, case["n"]), f"bunch of shape {z.shape}")
    err = beamref.bpm_error(ring, sel)
    return out, ring, sel, rec, err


@st.composite
def exact_case(draw):
    c = draw(line_case(False))
    c["errors"] = draw(st.booleans())
    return c


@facet("C10", "exact", exact_case(), quick=500, thorough=12000, rule="at least two registered BPMs or turns, non-zero roll and offset, some reading is a number")
def check_exact(case):
    """without noise and sum errors the readings are exactly those of the model"""
    SC, bpms = setup(case)
    out, ring, sel, rec, err = measure(SC, case, bpms)
    turns = case["turns"]
    xs, ws = reference(ring, sel, rec, turns, case["mode"], case["lost"], err)
    x, s = combine(xs, ws, case["mode"])
    with_err = case["errors"] and case["mode"] == "TBT"
    require(len(out) == 2 + with_err, f"{len(out)} outputs")
    scale = 1e-10
    close(out[0], beamref.flat(x), "BPM reading", rtol=1e-7, atol=scale)
    close(out[1], beamref.flat(s), "BPM sum signal", rtol=1e-9, atol=1e-12)
    if with_err:
        some_lost = np.any(np.isnan(xs), axis=0)
        e = np.sqrt(beamref.wmean((xs - x[None]) ** 2, np.broadcast_to(ws[:, None], xs.shape), 0))
        e[some_lost] = np.nan
        close(out[2], beamref.flat(e), "BPM reading errors", rtol=1e-5, atol=1e-9)
    nan = np.isnan(x)
    return Info((len(sel) > 1 or turns > 1) and any(e["roll"] or e["sroll"] for e in case["err"]) and not np.all(nan), case["mode"],
                "some NaN" if np.any(nan) else "", "partial loss" if np.any((s > 0) & (s < 1)) else "", "subset" if case["sub"] is not None else "")


@facet("C10", "noisy", line_case(True), quick=400, thorough=10000, rule="noise or sum error present and some reading a number")
def check_noisy(case):
    """bounds with noise and sum errors"""
    SC, bpms = setup(case)
    out, ring, sel, rec, err = measure(SC, case, bpms)
    _bounds(case, out, ring, sel, rec, err, case["turns"])
    return Info((np.any(err["noise"]) or np.any(err["sum"])) and not np.all(np.isnan(out[0])), case["mode"], "sum error" if np.any(err["sum"]) else "",
                "several shots" if case["shots"] > 1 else "")


def _bounds(case, out, ring, sel, rec, err, turns):
    thr = 1 - case["lost"]
    noise = err["noise_co" if case["mode"] == "ORB" else "noise"]
    lo, hi, slo, shi, sure, maybe = [], [], [], [], [], []
    for z in rec:
        c, f = beamref.shot(ring, sel, z, turns, case["mode"])
        x = beamref.clean(c, err)
        es = CUT * np.abs(err["sum"])[:, None] + 1e-9
        fl, fh = f * (1 - es), f * (1 + es)
        seen = np.maximum(fl, max(thr, 0.0))
        b = np.where(f > 0, CUT * noise[:, :, None] / np.where(seen > 0, seen, 1e-9)[None], 0) + 1e-9
        sure.append((fl >= thr) & (f > 0))
        maybe.append((fh >= thr) & (f > 0))
        lo.append(np.where(maybe[-1], x - b, np.inf))
        hi.append(np.where(maybe[-1], x + b, -np.inf))
        slo.append(np.where(sure[-1], fl, 0))
        shi.append(np.where(maybe[-1], fh, 0))
    lo, hi = np.min(lo, axis=0), np.max(hi, axis=0)
    slo, shi = np.mean(slo, axis=0), np.mean(shi, axis=0)
    sure, maybe = np.any(sure, axis=0), np.any(maybe, axis=0)
    if case["mode"] == "PORB":
        lo, hi = np.min(lo, axis=2)[:, :, None], np.max(hi, axis=2)[:, :, None]
        slo, shi = np.mean(slo, axis=1)[:, None], np.mean(shi, axis=1)[:, None]
        sure, maybe = np.any(sure, axis=1)[:, None], np.any(maybe, axis=1)[:, None]
    both = lambda v: beamref.flat(np.array([v, v]).astype(float))  # noqa: E731
    x, s = np.asarray(out[0]), np.asarray(out[1])
    lo, hi, slo, shi, sure, maybe = beamref.flat(lo), beamref.flat(hi), both(slo), both(shi), both(sure) > 0, both(maybe) > 0
    require(x.shape == lo.shape and s.shape == lo.shape, f"shapes {x.shape}, {s.shape} instead of {lo.shape}")
    nan = np.isnan(x)
    if np.any(nan & sure):
        fail("not-a-number reading although the beam is seen")
    if np.any(~nan & ~maybe):
        fail("reading although the beam is lost")
    bad = ~nan & ((x < lo) | (x > hi))
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        fail(f"reading {x[i]} outside of [{lo[i]}, {hi[i]}] at {tuple(map(int, i))}")
    if np.any((s < slo - 1e-9) | (s > shi + 1e-9)):
        fail("sum signal outside of the transmitted fraction within the sum error")


# ------------------------------------------------------------------------------------------ closed orbit

@st.composite
def orbit_case(draw):
    noise = draw(st.booleans())
    return dict(ring=draw(lat.ring_spec(sexts=(0.0, 1.0))), bpms=draw(lat.idx_subset(2, 8)), err=draw(st.lists(bpm_errors(noise), min_size=3, max_size=3)), noise=noise,
                sub=draw(st.one_of(st.none(), lat.idx_subset(1, 4))), extra=draw(st.booleans()), z0=draw(vec(6, 1e-3)), size=1e-3, jit=1e-5, n=1, turns=1,
                shots=draw(st.sampled_from([1, 2, 3])), mode="ORB", lost=draw(st.sampled_from([1.0, 0.5])), kicks=draw(st.lists(vec(2, 1e-4), min_size=1, max_size=4)),
                was=draw(st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list)))


@facet("C10", "orbit", orbit_case(), quick=60, thorough=1500, rule="non-zero closed orbit and BPM errors")
def check_orbit(case):
    """closed orbit mode: the orbit (closed under one turn of tracking) seen through the BPMs, noise level NoiseCO"""
    els = lat.ring_elements(case["ring"])
    SC, bpms = machine_from(lat.build(els), lat.of_kind(els, "bpm"), case)
    cors = [i for i, e in enumerate(els) if e["name"].startswith("COR")]
    SC.register_magnets(np.array(cors), HCM=1e-3, VCM=1e-3)
    for i, k in enumerate(case["kicks"]):
        for d in range(2):
            SC.set_cm_setpoints(cors[3 * i], k[d], bool(d))
    SC.INJ.nParticles, SC.INJ.nTurns = case["was"]
    SC.INJ.trackMode = "ORB"
    out, ring, sel, rec, err = measure(SC, case, bpms)
    start = beamref.orbit(ring, [0])[0]
    if np.any(np.isnan(start)):
        raise Discard()
    z = beamref.track(ring, start.reshape(6, 1), 1, sel + [len(ring)])[:, 0, :, 0]
    close(z[:4, -1], start[:4], "harness: closed orbit does not close", rtol=1e-4, atol=1e-9)
    x = beamref.clean(z[[0, 2], :-1][:, :, None], err)
    if not case["noise"]:
        close(out[0], beamref.flat(x), "closed orbit reading", rtol=1e-5, atol=2e-9)
        equal(out[1], np.ones((2, len(sel))), "closed orbit sum signal")
    else:
        _bounds(case, out, ring, sel, rec, err, 1)
    return Info(np.max(np.abs(z[[0, 2]])) > 1e-7, "noise" if case["noise"] else "exact", case["ring"]["cor"])


# ------------------------------------------------------------------------------------------ noise statistics, errors, all elements

@st.composite
def stats_case(draw):
    return dict(noise=draw(st.lists(num(0.1, 1, 2), min_size=2, max_size=2)), co=draw(st.lists(num(0.1, 1, 2), min_size=2, max_size=2)), sum=draw(num(0.02, 0.2, 2)),
                mode=draw(st.sampled_from(["TBT", "TBT", "ORB", "PORB"])), turns=draw(st.integers(1, 2)), cells=draw(st.sampled_from([6, 8])), reps=40, seed=draw(st.integers(0, 10 ** 6)))


@facet("C10", "noise_statistics", stats_case(), quick=24, thorough=400, rule="every case (at least 480 noise samples per plane)")
def check_stats(case):
    """noise has the configured level per plane and mode, is drawn afresh per BPM, turn and reading"""
    r = dict(cells=case["cells"], mu=0.24 if case["cells"] == 6 else 0.21, lcell=5.0, cor="thin", sext=0.0, cav=True, volt=1e6, roll=0)
    els = lat.ring_elements(r)
    SC = SimulatedCommissioning(lat.build(els))
    bpms = np.array(lat.of_kind(els, "bpm"))
    SC.register_bpms(bpms, Noise=np.array(case["noise"]) * 1e-4, NoiseCO=np.array(case["co"]) * 1e-6)
    SC.apply_errors()
    for o in bpms:
        SC.RING[o].SumError = case["sum"]
    SC.INJ.trackMode = case["mode"]
    turns = 1 if case["mode"] == "ORB" else case["turns"]
    SC.INJ.nTurns = turns
    xs, ss = [], []
    for _ in range(case["reps"]):
        x, s = beam.bpm_reading(SC)
        xs.append(x)
        ss.append(s)
    xs, ss = np.array(xs), np.array(ss)
    level = np.array(case["co"]) * 1e-6 if case["mode"] == "ORB" else np.array(case["noise"]) * 1e-4
    sig_cut = 0.879626  # standard deviation of the normal distribution truncated at two
    if case["mode"] == "PORB":
        return Info(True, _porb(xs, level, turns, case))
    sums = (ss - 1) / case["sum"]
    require(np.all(np.abs(sums) <= 2 + 1e-9), "sum error beyond its cutoff")
    require(np.array_equal(ss[:, 0], ss[:, 1]), "sum signals of the planes differ")
    norm = xs * ss / level[None, :, None]
    require(np.all(np.abs(norm) <= 2 + 1e-3), "noise beyond its cutoff")
    n = norm[:, 0].size
    for d, name in enumerate(("horizontal", "vertical")):
        v = norm[:, d].ravel()
        require(abs(np.mean(v)) < 6 * sig_cut / np.sqrt(n), f"{name} noise has mean {np.mean(v)}")
        require(abs(np.std(v) / sig_cut - 1) < 6 / np.sqrt(2 * n), f"{name} noise has rms {np.std(v)} of its level instead of {sig_cut}")
        require(len(np.unique(v)) > 0.99 * n, f"{name} noise repeats")
    v = sums[:, 0].ravel()
    require(abs(np.std(v) / sig_cut - 1) < 6 / np.sqrt(2 * n) and abs(np.mean(v)) < 6 / np.sqrt(n), "sum errors are not as configured")
    c = np.mean(norm[:, 0] * norm[:, 1]) / sig_cut ** 2
    require(abs(c) < 6 / np.sqrt(n), f"noise of the planes is correlated ({c})")
    return Info(True, case["mode"])


def _porb(xs, level, turns, case):
    for d in range(2):
        v = xs[:, d].ravel() / level[d] * np.sqrt(turns)
        require(abs(np.std(v) / 0.8796 - 1) < 6 / np.sqrt(2 * v.size) + 0.12, f"noise of the average over turns {np.std(v)}")
    return "PORB"


@st.composite
def reject_case(draw):
    c = draw(line_case())
    c["ask"] = draw(lat.idx_subset(1, 3))
    return c


@facet("C10", "unregistered", reject_case(), quick=80, thorough=2000, rule="every case")
def check_unregistered(case):
    SC, bpms = setup(case)
    rest = [i for i in range(len(SC.RING)) if i not in bpms]
    ask = np.array(lat.pick(rest, case["ask"]))
    raises(ValueError, "reading of unregistered BPMs", beam.bpm_reading, SC, bpm_ords=ask)
    return Info(len(ask) > 0)


@facet("C10", "all_elements", line_case(), quick=200, thorough=5000, rule="several particles or shots and some reading a number")
def check_all(case):
    """all-element readings are the true trajectories of the injected particles, BPM part as seen by the BPMs"""
    SC, bpms = setup(case)
    ring = SC.RING.deepcopy()
    rec = beamref.recorder(SC)
    read, true = beam.all_elements_reading(SC)
    require(len(rec) == case["shots"], "number of injected bunches")
    refs = list(range(len(ring) + 1))
    want = np.stack([beamref.track(ring, z, case["turns"], refs)[[0, 2]] for z in rec], axis=-1)
    close(true, want, "true positions", rtol=1e-9, atol=1e-12)
    xs, _ = reference(ring, bpms, rec, case["turns"], "TBT", case["lost"], beamref.bpm_error(ring, bpms))
    close(read, beamref.flat(beamref.nanmean(xs, 0)), "BPM part", rtol=1e-7, atol=1e-10)
    return Info((case["n"] > 1 or case["shots"] > 1) and not np.all(np.isnan(read)), "some NaN" if np.any(np.isnan(want)) else "")
