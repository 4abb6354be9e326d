"""C17: first-turn threading, stitching and balancing. Oracle: independent single correction steps, the history of injected bunches and setpoints recorded at each injection."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import beamref, lat
from pv.c15 import ring_machine, ring_machine_case
from pv.c16 import filtered_inverse, only_cms, setpoints, state
from pv.core import Discard, Info, close, equal, facet, fail, raises, require
from pv.lat import num, small, vec
from pySC.core import beam
from pySC.correction.orbit_trajectory import balance, first_turn, stitch
from pySC.lattice_properties.response_model import SCgetModelRM

FUNS = dict(first=first_turn, stitch=stitch, balance=balance)


@st.composite
def thread_case(draw, funs=("first", "stitch", "balance")):
    c = draw(ring_machine_case(sexts=(0.0, 1.0), modes=("TBT",)))
    fun = draw(st.sampled_from(funs))
    c.update(fun=fun, turns=1 if fun == "first" else 2, limits=draw(st.sampled_from([None, None, None, 5e-4, 1e-4])), ap=draw(st.sampled_from([None, 5e-3, 2e-3, 1e-3, 5e-4])), kicks=draw(st.lists(st.tuples(st.integers(0, 60), small(1e-3)).map(list), max_size=3)),
             drop=draw(st.one_of(st.just([]), st.just([]), lat.idx_subset(1, 6))), dropc=draw(st.one_of(st.just([]), st.just([]), lat.idx_subset(1, 6))), refform=draw(st.sampled_from(["none", "flat", "column"])), ref=draw(vec(4, 1e-4)), jitter=draw(st.sampled_from([0.0, 0.0, 1e-6, 2e-5])),
             alpha=draw(st.sampled_from([1.0, 5.0, 20.0, 0])), removed=draw(st.sampled_from([0, 0, 2])), n_bpms=draw(st.sampled_from([None, None, 1, 3, 6])), steps=draw(st.sampled_from([None, None, 4, 7, 12])), z0=draw(vec(4, 2e-4)))
    c["girder"] = False
    return c


def without(items, positions):
    """ascending items without those at the positions"""
    gone = {p % len(items) for p in positions}
    return np.array([x for i, x in enumerate(items) if i not in gone])


def prepare(case):
    SC, els, bpms, cors = ring_machine(case)
    for p, k in case["kicks"]:
        SC.set_cm_setpoints(int(cors[p % len(cors)]), k, bool(p % 2))
    SC.SIG.randomInjectionZ = np.zeros(6)
    SC.INJ.randomInjectionZ = np.ones(6) * case["jitter"] * np.array([1, 1, 1, 1, 0, 0])
    kw = {}
    cms = [cors.copy(), cors.copy()]
    if case["drop"]:
        bpms = kw["bpm_ords"] = without(bpms, case["drop"])
    if case["dropc"]:
        half = len(case["dropc"]) // 2
        cms = kw["cm_ords"] = [without(cors, case["dropc"][:half]), without(cors, case["dropc"][half:])]
    if case["alpha"]:
        kw["alpha"] = case["alpha"]
    if case["fun"] == "stitch" and case["n_bpms"]:
        kw["n_bpms"] = min(case["n_bpms"], len(bpms))
    n = 2 * len(bpms) * case["turns"]
    ref = np.zeros(n) if case["refform"] == "none" else np.array([case["ref"][i % 4] for i in range(n)])
    rm = SCgetModelRM(SC, bpms, cms, nTurns=case["turns"])
    if not case["alpha"]:  # the small singular values have to be removed
        s = np.linalg.svd(rm)[1]
        case["removed"] = int(np.sum(s < 0.02 * s[0]))
        if np.any(np.abs(s / s[0] - 0.02) < 1e-4):
            raise Discard()
    if case["removed"]:
        kw["num_removed"] = case["removed"]
    return SC, bpms, cms, kw, ref, rm


def form(ref, case):
    return dict(none=None, flat=ref.copy(), column=ref.copy()[:, None])[case["refform"]]


def look(SC, bpms):
    """(2, N) readings of a copy"""
    return beam.bpm_reading(copy.deepcopy(SC), bpm_ords=bpms)[0]


def expected_step(case, rm, start, ref, kw, bpms, cms):
    """change of the setpoints after one step, None if undecided"""
    n = len(bpms)
    inverse, _, s = filtered_inverse(rm, case["alpha"], case["removed"])
    y, r = np.array(start, dtype=float), np.array(ref).reshape(2, -1)
    if case["fun"] != "first":
        r = r.copy()
        r[:, n:] = 0
        d = y[:, n:] - y[:, :n]
        if case["fun"] == "stitch":
            d[:, kw.get("n_bpms", 4):] = 0
        y = np.concatenate((y[:, :n], d), axis=1)
    y[np.isnan(y)] = 0
    step = -inverse @ (y - r).ravel()
    h, v = step[:len(cms[0])], step[len(cms[0]):]
    if case["fun"] == "first":  # only correctors up to the last BPM reached
        last = bpms[np.sum(~np.isnan(start[0])) - 1]
        h, v = np.where(cms[0] <= last, h, 0), np.where(cms[1] <= last, v, 0)
    return np.concatenate((h, v))


@st.composite
def step_case(draw):
    c = draw(thread_case())
    c.update(jitter=0.0)
    return c


@facet("C17", "step", step_case(), quick=160, thorough=4000, rule="non-zero step")
def check_step(case):
    SC, bpms, cms, kw, ref, rm = prepare(case)
    n, start = len(bpms), look(SC, bpms)
    seen = int(np.sum(~np.isnan(start[0])))
    nb = kw.get("n_bpms", 4)
    before, keep, arg = state(SC), rm.copy(), form(ref, case)
    old = setpoints(SC, cms)
    fun, exc = FUNS[case["fun"]], RuntimeError
    possible = seen > 0
    if case["fun"] == "first":
        possible = seen > 0 and np.any(cms[0] <= bpms[max(seen, 1) - 1]) and np.any(cms[1] <= bpms[max(seen, 1) - 1])
    elif case["fun"] == "stitch":
        if n <= seen < n + nb:
            raise Discard()  # wiggles first
        possible = seen >= n + nb
    elif seen < 2 * n:
        possible, exc = False, ValueError
    raises(exc, f"{case['fun']} with a single step", fun, SC, rm, reference=arg, maxsteps=1, **kw)
    equal(rm, keep, "response matrix given by the caller")
    if arg is not None:
        equal(np.ravel(arg), ref, "reference given by the caller")
    only_cms(before, SC, cms if possible else [[], []])
    if not possible:
        return Info(False, case["fun"] + " impossible")
    d = expected_step(case, rm, start, ref, kw, bpms, cms)
    lim = case["limits"] or np.inf
    close(setpoints(SC, cms), np.clip(old + d, -lim, lim), f"corrector setpoints after one step of {case['fun']}", rtol=1e-6, atol=1e-8 * max(1e-4, np.max(np.abs(d))))
    return Info(np.max(np.abs(d)) > 1e-9, case["fun"], "partial" if seen < 2 * n and case["fun"] == "stitch" or seen < n else "", "limited" if np.any(np.abs(old + d) > lim) else "")


class History:
    """setpoints of the correctors and bunches at each injection"""

    def __init__(self, SC, cms):
        self.shots = []

        def post(z):
            self.shots.append((setpoints(SC, cms), np.array(z)))
            return z
        SC.INJ.postFun = post

    def seen(self, SC, bpms, cms, i):
        """readings reached and readings of the given shot, by independent tracking"""
        x, z = self.shots[i]
        other = copy.deepcopy(SC)
        for plane in range(2):
            v = x[:len(cms[0])] if plane == 0 else x[len(cms[0]):]
            for c, k in zip(cms[plane], v):
                other.set_cm_setpoints(int(c), float(k), bool(plane))
        c, _ = beamref.shot(other.RING, bpms, z.reshape(6, -1), SC.INJ.nTurns, "TBT")
        return beamref.flat(beamref.clean(c, beamref.bpm_error(other.RING, bpms)))


@facet("C17", "outcome", thread_case(), quick=160, thorough=4000, rule="beam corrected")
def check_outcome(case):
    SC, bpms, cms, kw, ref, rm = prepare(case)
    n, nb = len(bpms), kw.get("n_bpms", 4)
    fun, eps = FUNS[case["fun"]], 1e-4
    if case["fun"] == "balance":
        eps = kw["eps"] = [1e-4, 1e-5, 3e-6][len(case["kicks"]) % 3]
    if case["steps"]:
        kw["maxsteps"] = case["steps"]
    hist = History(SC, cms)
    before, keep, arg = state(SC), rm.copy(), form(ref, case)
    lim0 = np.max(np.abs(setpoints(SC, cms)))
    try:
        out = fun(SC, rm, reference=arg, **kw)
        failed = None
    except (RuntimeError, ValueError) as e:
        failed = type(e)
    used = [cms[0], cms[1]]
    only_cms(before, SC, used)
    equal(rm, keep, "response matrix given by the caller")
    if arg is not None:
        equal(np.ravel(arg), ref, "reference given by the caller")
    lim = case["limits"] or np.inf
    require(np.max(np.abs(setpoints(SC, cms))) <= max(lim, 0) * (1 + 1e-12), "corrector limits exceeded")
    shots = hist.shots
    require(len(shots) > 0, "no beam injected")
    first = hist.seen(SC, bpms, cms, 0)
    seen = int(np.sum(~np.isnan(first[0])))
    # nothing is corrected downstream of all BPMs reached so far
    if case["fun"] == "first":
        reach, changed = 0, None
        for i in range(len(shots) - 1):
            moved = np.nonzero(shots[i + 1][0] != shots[i][0])[0]
            far = [np.concatenate((cms[0], cms[1]))[j] for j in moved]
            if not len(far):
                continue
            if reach < n:
                reach = max(reach, int(np.sum(~np.isnan(hist.seen(SC, bpms, cms, i)[0]))) if i < 40 else n)
            if reach < n and reach > 0:
                require(max(far) <= bpms[reach - 1], f"corrector {max(far)} changed behind the last BPM reached so far ({bpms[reach - 1]})")
    if failed:
        if failed is ValueError:
            require(case["fun"] == "balance" and seen < 2 * n, f"{case['fun']}: ValueError although the conditions are met")
        return Info(False, f"{case['fun']} fails")
    require(out is SC, "returns another machine")
    if case["fun"] == "balance":
        require(seen == 2 * n, "balancing without two-turn transmission")
    elif case["fun"] == "stitch":
        require(seen >= n, "stitching without full first turn")
    require(len(shots) >= 5, "declared success after too few observations")
    last = [hist.seen(SC, bpms, cms, i) for i in range(-5, 0)]
    for r in last:
        require(not np.any(np.isnan(r)), f"{case['fun']} succeeded though the beam is not seen at {int(np.sum(np.isnan(r[0])))} readings")
    if case["fun"] == "balance":
        rms = np.array([np.sqrt(np.mean(r ** 2, axis=1)) for r in last])
        require(np.all(np.std(rms, axis=0) < eps * 1.001 + 1e-12), f"readings not stable: {np.std(rms, axis=0)}, eps {eps}")
    end = shots[-1][0]
    equal(end, setpoints(SC, cms), "setpoints at the last injection")
    return Info(np.any(end != shots[0][0]), case["fun"], "lost before" if seen < 2 * n and case["fun"] == "stitch" or seen < n else "", "jitter" if case["jitter"] else "")


@st.composite
def script_case(draw):
    c = draw(thread_case())
    c.update(limits=1e-8, jitter=0.0, kicks=[], k=[], drop=[], dropc=[], z0=[0.0] * 4, bpmerr=False, mis=False, ap=None, alpha=5.0, removed=0, n_bpms=draw(st.integers(2, 6)), j=draw(st.integers(0, 30)), steps=draw(st.sampled_from([6, 12, 25])),
             start=draw(st.sampled_from(["g", "b", "b", "d"])), script=draw(st.one_of(st.lists(st.tuples(st.sampled_from(["g", "g", "b", "d"]), st.integers(1, 8)).map(list), max_size=6),
                                                      st.tuples(st.integers(0, 2), st.integers(4, 8), st.integers(1, 3)).map(lambda k: [["b", k[0]], ["g", k[1]], ["b", k[2]]]))), dirs=draw(vec(4, 1e-3)))
    c["ring"]["sext"] = 0.0
    return c


@facet("C17", "scripted", script_case(), quick=250, thorough=3000, rule="some shots of different transmission")
def check_scripted(case):
    """the transmission of each shot is given, correctors can hardly influence it"""
    SC, bpms, cms, kw, ref, rm = prepare(case)
    n, nb, fun = len(bpms), kw.get("n_bpms", 4), case["fun"]
    other = SC.RING.deepcopy()
    j = case["j"] % (n - 1 if fun == "first" else nb - 1 if fun == "stitch" else n)
    bad = None
    for scale in [(1, 1), (1, -1), (0, 1), (1, 0)]:
        z = np.zeros((6, 1))
        z[:2, 0] = np.array(case["dirs"][:2]) * scale
        x = np.abs(beamref.track(other, z, 2, bpms)[0, 0])  # (B, T)
        if fun == "first" and x[j, 0] > 1e-4:
            bad, ap = z, x[j, 0] / 2
            break
        if fun != "first" and x[j, 1] > 1e-4 and x[j, 1] > 1.3 * x[j, 0]:
            bad, ap = z, (x[j, 0] + x[j, 1]) / 2
            break
    if bad is None:
        raise Discard()
    SC.RING[bpms[j]].EApertures = np.array([ap, 1.0])
    for o in range(bpms[0] + 1):
        SC.RING[o].RApertures = np.array([-0.5, 0.5, -0.5, 0.5])
    dark = np.zeros((6, 1))
    dark[0] = 1.0
    script = [case["start"]] + [a for a, k in case["script"] for _ in range(k)]
    shots = []

    def post(z):
        i = len(shots)
        kind = script[i] if i < len(script) else "g"
        shots.append((kind, setpoints(SC, cms)))
        return dict(g=np.zeros((6, 1)), b=bad, d=dark)[kind].copy()
    SC.INJ.postFun = post
    low = j + 1 if fun == "first" else n + j + 1
    full = n if fun == "first" else 2 * n
    reach = dict(g=full, b=low, d=0)
    x0 = setpoints(SC, cms)
    try:
        FUNS[fun](SC, rm, reference=form(ref, case), maxsteps=case["steps"], **kw)
        failed = None
    except (RuntimeError, ValueError) as e:
        failed = type(e)
    kinds = [k for k, _ in shots]
    seen = [reach[k] for k in kinds]
    require(len(shots) > 0, "no beam injected")
    if failed is None:
        require(len(seen) >= 5 and all(s == full for s in seen[-5:]), f"{fun} succeeded though the last shots reached {seen[-5:]} of {full} readings")
    if fun == "balance":
        require((failed is ValueError) == (seen[0] < full), f"balancing from {seen[0]} of {full} readings: {failed}")
        require(all(s == full for s in seen[:-1]), "balancing goes on though transmission was lost")
        if seen[-1] < full:
            require(failed is not None, "balancing succeeded though transmission was lost")
    else:
        require(failed is not ValueError, f"{fun}: ValueError although the arguments are valid")
    if seen[0] == 0 or fun == "stitch" and seen[0] < n:
        require(failed is not None and len(shots) == 1 and np.array_equal(setpoints(SC, cms), x0), f"{fun} starts without sufficient transmission")
    if fun == "stitch" and n <= seen[0] < n + nb and np.any(ref):  # all correctors are used by a correction, at most the last eight by wiggling
        for i in range(1, len(shots)):
            if np.count_nonzero(shots[i][1] != shots[i - 1][1]) > 16 + 2:
                require(seen[i - 1] >= n + nb, f"stitching is based on {seen[i - 1]} of the required {n + nb} readings")
                break
    if kinds == ["g"] * len(kinds) and case["steps"] >= 12:
        require(failed is None, f"{fun} fails with full transmission")
    return Info(len(set(kinds)) > 1, fun, "fails" if failed else "succeeds", "from partial" if kinds[0] == "b" else "")


@st.composite
def easy_case(draw):
    c = draw(thread_case())
    c.update(limits=None, jitter=0.0, drop=[], dropc=[], steps=None, refform=draw(st.sampled_from(["none", "flat"])), ref=draw(vec(4, 2e-5)), alpha=draw(st.sampled_from([1.0, 5.0])), removed=0, bpmerr=False)
    c["ring"]["sext"] = 0.0
    c["ap"] = draw(st.sampled_from([3e-3, 2e-3, 1.5e-3, None]))
    c["kicks"] = draw(st.lists(st.tuples(st.integers(4, 20), st.sampled_from([-1e-3, 5e-4, 1e-3, 7e-4, 2e-3])).map(list), min_size=1, max_size=2)) if c["fun"] == "first" else []
    c["k"] = []
    if c["fun"] == "balance":
        c["ap"] = None
    return c


@facet("C17", "succeeds", easy_case(), quick=80, thorough=2000, rule="beam not yet where it should be")
def check_succeeds(case):
    """moderate errors, complete instrumentation: the algorithms must succeed"""
    SC, bpms, cms, kw, ref, rm = prepare(case)
    start = look(SC, bpms)
    seen, n = int(np.sum(~np.isnan(start[0]))), len(bpms)
    if seen < 4 or case["fun"] == "balance" and seen < 2 * n or case["fun"] == "stitch" and seen < n + 4:
        raise Discard()
    if case["fun"] == "first" and seen < max(p % n for p, _ in case["kicks"]) + 3:
        raise Discard()  # the beam has to be seen behind the kick
    if case["fun"] == "balance":
        kw["maxsteps"] = 30
    try:
        FUNS[case["fun"]](SC, rm, reference=form(ref, case), **kw)
    except (RuntimeError, ValueError) as e:
        fail(f"{case['fun']} fails on a machine with moderate errors: {e} (readings at first {seen} of {start.shape[1]})")
    end = look(SC, bpms)
    require(not np.any(np.isnan(end)), "beam not seen at all BPMs")
    return Info(seen < start.shape[1] or np.max(np.abs(start)) > 1e-6, case["fun"], "lost before" if seen < start.shape[1] else "")


@st.composite
def bad_case(draw):
    c = draw(thread_case())
    c.update(how=draw(st.sampled_from(["rows", "cols", "ref", "turns", "turns", "dark"])), turns_rm=draw(st.booleans()), extra=draw(st.sampled_from([-1, 1, 2])), jitter=0.0, ap=None)
    return c


@facet("C17", "rejects", bad_case(), quick=100, thorough=1500, rule="every case")
def check_rejects(case):
    SC, bpms, cms, kw, ref, rm = prepare(case)
    arg, how, exc = form(ref, case), case["how"], ValueError
    if how == "rows":
        rm = np.ones((rm.shape[0] + case["extra"], rm.shape[1]))
        arg = None if arg is None else np.zeros(rm.shape[0])
    elif how == "cols":
        rm = np.ones((rm.shape[0], rm.shape[1] + case["extra"]))
    elif how == "ref":
        arg = np.zeros(len(ref) + case["extra"])
    elif how == "turns":
        SC.INJ.nTurns = 3 - case["turns"] if case["extra"] < 2 else 3
        if case["turns_rm"] and case["fun"] != "first":  # consistent matrix
            n = rm.shape[0] // case["turns"]
            rm = np.vstack([rm[:n]] * SC.INJ.nTurns)
            arg = None if arg is None else np.zeros(len(rm))
    else:
        for o in range(bpms[0] + 1):
            SC.RING[o].RApertures = np.array([-1e-9, 1e-9, -1e-9, 1e-9])
        SC.INJ.Z0 = np.array([1e-3, 0, 1e-3, 0, 0, 0])
        exc = ValueError if case["fun"] == "balance" else RuntimeError
    before = state(SC)
    raises(exc, f"{case['fun']} ({how})", FUNS[case["fun"]], SC, rm, reference=arg, **kw)
    only_cms(before, SC, [[], []])
    return Info(True, f"{case['fun']} {how}")


@st.composite
def wiggle_case(draw):
    c = draw(thread_case(funs=("first",)))
    c.update(limits=None, jitter=0.0, kicks=[], k=[], z0=[0.0] * 4, bpmerr=False, mis=False, ap=None, alpha=5.0, removed=0, n_bpms=None, refform="none", steps=None, j=draw(st.integers(1, 30)), opens=draw(st.one_of(st.none(), st.integers(0, 250))))
    c["ring"]["sext"] = 0.0
    return c


@facet("C17", "wiggles", wiggle_case(), quick=20, thorough=600, rule="beam stopped")
def check_wiggles(case):
    """beam which always stops at the same place: an increasing number of the last reached correctors is wiggled around, until the beam comes further"""
    SC, bpms, cms, kw, ref, rm = prepare(case)
    j = case["j"] % (len(bpms) - 1)
    reached = [[i for i, c in enumerate(cm) if c <= bpms[j]] for cm in cms]
    stop = SC.RING[bpms[j] + 1]
    if min(len(r) for r in reached) == 0 or hasattr(stop, "RApertures"):
        raise Discard()
    stop.RApertures = np.array([1.0, 2.0, 1.0, 2.0])
    shots, moves = [], []

    def post(z):
        x = setpoints(SC, cms)
        if shots and np.any(np.abs(x - shots[-1]) > 1e-5):
            moves.append(len(shots))
        shots.append(x)
        if case["opens"] is not None and len(moves) > case["opens"]:
            stop.RApertures = np.array([-2.0, 2.0, -2.0, 2.0])
        return np.zeros((6, 1))
    SC.INJ.postFun = post
    try:
        FUNS["first"](SC, rm, maxsteps=19 if case["opens"] is None else 60, **kw)
        failed = False
    except RuntimeError:
        failed = True
    require(len(moves) > 0, f"no wiggling in {len(shots)} shots without progress")
    if case["opens"] is not None:
        require(len(moves) > case["opens"], f"wiggling given up after {len(moves)} positions")
        require(not failed, "first turn fails although the beam comes through while wiggling")
        later = len(shots) - moves[case["opens"]]
        require(later <= 70, f"goes on for {later} shots though the beam comes through")
    else:
        require(failed, "first turn succeeds with a beam which is lost")
    n, limit, stages = len(cms[0]), min(len(r) for r in reached), []
    for i in (moves if case["opens"] is None else moves[:case["opens"]]):
        d = shots[i] - shots[i - 1]
        kick, used = [], []
        for plane, part in enumerate((d[:n], d[n:])):
            ids = np.flatnonzero(np.abs(part) > 1e-9)
            used.append(len(ids))
            last = reached[plane][len(reached[plane]) - len(ids):] if len(ids) else []
            require(list(ids) == last, f"correctors {cms[plane][ids]} are wiggled with the beam lost behind the element {bpms[j]}")
            require(np.ptp(part[ids]) < 1e-9 if len(ids) else True, f"correctors are wiggled by different kicks {part[ids]}")
            kick.append(part[ids[0]] if len(ids) else 0.0)
        count = max(used)
        if count > limit:
            break  # one plane has no more correctors: the stages cannot be told apart
        require(min(used) in (0, count), f"{used} correctors wiggled")
        if not stages or count > stages[-1][0]:
            require(count == (stages[-1][0] if stages else 0) + 1, f"{count} correctors wiggled after {stages[-1][0] if stages else 0}")
            stages.append([count, np.zeros(2), []])
        require(count == stages[-1][0], f"{count} correctors wiggled after {stages[-1][0]}")
        if count == limit:
            break
        stages[-1][1] = stages[-1][1] + kick
        stages[-1][2].append(stages[-1][1])
    for count, _, pos in stages[:-1]:
        r, phi = np.hypot(*np.array(pos).T), np.sort(np.arctan2(*np.array(pos).T))
        require(np.min(r) > 4e-4 and np.max(r) < 1.1e-3, f"{count} correctors wiggled by {np.min(r)} to {np.max(r)}")
        gap = np.max(np.diff(np.append(phi, phi[0] + 2 * np.pi)))
        require(gap < 1.0, f"directions up to {gap} rad apart when {count} correctors are wiggled")
        require(np.max(r) - np.min(r) > 1e-4, f"{count} correctors wiggled by the same angle {np.max(r)} in all directions")
    if case["opens"] is None:
        require(len(stages) >= min(4, limit), f"only up to {stages[-1][0]} of the {limit} correctors are wiggled")
    return Info(True, "comes through" if case["opens"] is not None else "lost for good", f"correctors {min(limit, 9)}")
