"""C08: supports. Oracle: independent element-by-element interpolation over the nested structures."""
import math

import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Discard, Info, close, diff, equal, facet, fail, freeze_ring, freeze_sc, require, unchanged
from pv.lat import small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning

TYPES = machine.SUPPORTS


@st.composite
def layout(draw, max_size=16):
    els = draw(lat.elements(min_size=8, max_size=max_size, kinds=("drift", "quad", "bpm", "mark", "dip", "drift"), need=("drift", "quad", "bpm", "drift", "quad")))
    wrap = draw(st.booleans())
    aligned = draw(st.booleans())
    pos = {}
    whole = draw(st.sampled_from([[]] * 3 + [["Section"], ["Plinth", "Section"], list(TYPES), ["Girder"]]))  # from the very start to the very end
    if whole:
        els = [dict(t="mark")] + els + [dict(t="mark")]
    if aligned:
        n = len(els)
        p = lat.pick(list(range(n)), draw(st.lists(st.integers(0, 30), min_size=2, max_size=8)))
        p = p[:len(p) // 2 * 2]
        pos["Girder"] = p
        groups = [list(p[i:i + 2]) for i in range(0, len(p), 2)]
        for t in ("Plinth", "Section"):
            merged, i = [], 0
            while i < len(groups):
                k = draw(st.integers(0, 3))
                if k:
                    merged.append([groups[i][0], groups[min(i + k, len(groups)) - 1][1]])
                i += max(1, k)
            pos[t] = [x for g in merged for x in g]
            groups = merged if merged else groups
    else:
        for t in TYPES:
            pos[t] = draw(st.lists(st.integers(0, 30), min_size=2, max_size=6)) if draw(st.booleans()) else []
    return dict(els=els, pos=pos, wrap=wrap and not aligned, aligned=aligned, whole=whole)


def pairs(case):
    out = {}
    for t in TYPES:
        p = machine.pairs_of(case["els"], dict(pos=case["pos"][t], wrap=case["wrap"])) if case["pos"][t] else np.zeros((2, 0), dtype=int)
        out[t] = [(int(a), int(b)) for a, b in p.T]
        if t in case["whole"]:
            out[t] = [(0, len(case["els"]) - 1)]
    return out


@st.composite
def support_case(draw):
    case = draw(layout())
    case["vals"] = draw(st.lists(vec(6, 1e-3), min_size=1, max_size=6))
    case["rolls"] = draw(vec(6, 1e-3))
    case["flags"] = draw(st.sampled_from([[True, True]] * 3 + [[True, False], [False, True]]))
    case["query"] = draw(lat.idx_subset(1, 5))
    return case


def model(case, prs, ends, rolls, s=None):
    """ends[(t, pair)] = (start offset, end offset); rolls[(t, pair)] = roll. -> offsets, rolls per element"""
    spec = case["els"]
    n = len(spec)
    s = machine.s_positions(spec) if s is None else s
    total = s[-1]
    off = [[0.0] * 3 for _ in range(n)]
    ang = [[0.0] * 3 for _ in range(n)]
    inside_any = [False] * n
    for t in TYPES:
        base = [list(o) for o in off]
        for a, b in prs[t]:
            e0, e1 = ends[t, a, b]
            p0 = [base[a][i] + e0[i] for i in range(3)]
            p1 = [base[b][i] + e1[i] for i in range(3)]
            length = machine.pair_length(s, a, b)
            members = list(range(a, b + 1)) if a < b else list(range(a, n)) + list(range(0, b + 1))
            for m in members:
                f = (s[m] - s[a] + (total if m < a else 0.0)) / length if m != b else 1.0
                if m == a:
                    f = 0.0
                off[m] = [p0[i] + f * (p1[i] - p0[i]) for i in range(3)]
                ang[m] = [ang[m][0] + rolls[t, a, b], (p1[1] - p0[1]) / length, (p1[0] - p0[0]) / length]
                inside_any[m] = True
    return np.array(off), np.array(ang), inside_any


def check_elements(SC, off, ang, what, mags=True, bpms=True):
    for q in SC.ORD.Magnet:
        el = SC.RING[q]
        close(el.SupportOffset, off[q] if mags else np.zeros(3), f"{what}: support offset of magnet {q}", rtol=1e-9, atol=1e-15)
        close(el.SupportRoll, ang[q] if mags else np.zeros(3), f"{what}: support roll of magnet {q}", rtol=1e-8, atol=1e-14)
    for q in SC.ORD.BPM:
        el = SC.RING[q]
        close(el.SupportOffset, off[q][:2] if bpms else np.zeros(2), f"{what}: support offset of BPM {q}", rtol=1e-9, atol=1e-15)
        close(el.SupportRoll, ang[q][0] if bpms else 0.0, f"{what}: support roll of BPM {q}", rtol=1e-8, atol=1e-14)


def around(prs, q):
    """structures containing the element"""
    return {(t, a, b) for t in TYPES for a, b in prs[t] if (a <= q <= b if a < b else q >= a or q <= b)}


def check_query(SC, case, off, ang, s, prs):
    n = len(case["els"])
    o, r = SC.support_offset_and_roll(np.array(SC.RING.get_s_pos(range(n + 1))))
    require(o.shape == (3, n + 1) and r.shape == (3, n + 1), "shape of the support query")
    close(o[:, :n], off.T, "support query: offsets at all elements", rtol=1e-9, atol=1e-15)
    close(r[:, :n], ang.T, "support query: rolls at all elements", rtol=1e-8, atol=1e-14)
    back = s[::-1].copy()  # as many positions as elements, in another order
    o, r = SC.support_offset_and_roll(back)
    require(o.shape == (3, n + 1) and r.shape == (3, n + 1), "shape of the support query")
    equal(back, s[::-1], "positions given by the caller")
    for q in range(n):
        same = [p for p in range(n) if s[p] == s[q]]
        ok = any(np.allclose(o[:, n - q], off[p], rtol=1e-9, atol=1e-15) and np.allclose(r[:, n - q], ang[p], rtol=1e-8, atol=1e-14) for p in same)
        require(ok or s[q] == s[n], f"support query at all positions in reversed order at s={s[q]} gives {o[:, n - q]}, {r[:, n - q]}; element there has {off[q]}, {ang[q]}")
    # inside of the elements: both neighbours on the same structures
    inner = [q for q in range(n - 1) if s[q + 1] > s[q] and (q == 0 or s[q - 1] < s[q] or around(prs, q - 1) == around(prs, q)) and around(prs, q) == around(prs, q + 1)
             and all(around(prs, p) == around(prs, q) and np.array_equal(off[p], off[q]) for p in range(q) if s[p] == s[q])]
    if inner:
        f = np.array([0.25 + 0.5 * (i % 2) for i in range(len(inner))])
        i = np.array(inner)
        o, r = SC.support_offset_and_roll(s[i] + f * (s[i + 1] - s[i]))
        close(o, (off[i] * (1 - f[:, None]) + off[i + 1] * f[:, None]).T, "support query inside of elements: offsets", rtol=1e-9, atol=1e-15)
        close(r, ang[i].T, "support query inside of elements: rolls", rtol=1e-8, atol=1e-14)
    ords = lat.pick(list(range(n)), case["query"], keep_order=True)
    o, r = SC.support_offset_and_roll(np.array([s[q] for q in ords]))
    for k, q in enumerate(ords):
        same = [p for p in range(n) if s[p] == s[q]]
        ok = any(np.allclose(o[:, k], off[p], rtol=1e-9, atol=1e-15) and np.allclose(r[:, k], ang[p], rtol=1e-8, atol=1e-14) for p in same)
        require(ok, f"support query at s={s[q]} gives {o[:, k]}, {r[:, k]}; element there has {off[q]}, {ang[q]}")


@facet("C08", "interpolation", support_case(), quick=500, thorough=15000, rule="at least two structures, one of them not the innermost type, with elements on them")
def check_interpolation(case):
    spec = case["els"]
    prs = pairs(case)
    SC = SimulatedCommissioning(lat.build(spec))
    SC.register_magnets(np.array(lat.of_kind(spec, "quad", "dip")))
    SC.register_bpms(np.array(lat.of_kind(spec, "bpm", "mark")))
    for t in TYPES:
        if prs[t]:
            SC.register_supports(np.array(prs[t]).T, t)
    ends, rolls = {}, {}
    i = 0
    used = {}
    for t in TYPES:
        for a, b in prs[t]:
            v = case["vals"][i % len(case["vals"])]
            f = 1 + 0.3 * (i // len(case["vals"]))
            ends[t, a, b] = ([x * f for x in v[:3]], [x * f for x in v[3:]])
            rolls[t, a, b] = case["rolls"][i % 6]
            setattr(SC.RING[a], f"{t}Offset", np.array(ends[t, a, b][0]))
            setattr(SC.RING[b], f"{t}Offset", np.array(ends[t, a, b][1]))
            setattr(SC.RING[a], f"{t}Roll", np.array([rolls[t, a, b], 0.0, 0.0]))
            i += 1
    s = np.array(SC.RING.get_s_pos(range(len(spec) + 1)))
    off, ang, inside = model(case, prs, ends, rolls, s)
    before = freeze_ring(SC.RING)
    bpms, mags = case["flags"]
    SC.update_supports(offset_bpms=bpms, offset_magnets=mags)
    check_elements(SC, off, ang, "after updating supports", mags, bpms)
    after = freeze_ring(SC.RING)
    own = {"SupportOffset", "SupportRoll", "T1", "T2", "R1", "R2"}
    for q in range(len(spec)):
        unchanged({k: v for k, v in before[q].items() if k not in own}, {k: v for k, v in after[q].items() if k not in own}, f"element {q} by updating supports")
    check_query(SC, case, off, ang, s, prs)
    SC.update_supports()
    SC.update_supports()
    check_elements(SC, off, ang, "after updating again")
    n = sum(len(p) for p in prs.values())
    used = sum(inside)
    return Info(n >= 2 and used >= 3 and bool(prs["Plinth"] or prs["Section"]), f"structures{n}", "aligned" if case["aligned"] else "free",
                "wrap" if any(a > b for p in prs.values() for a, b in p) else "")


@st.composite
def apply_case(draw):
    case = draw(layout(max_size=14))
    kws = {}
    for t in TYPES:
        kw = {}
        two = draw(st.booleans())
        if draw(st.booleans()):
            v = [draw(lat.pos_vec(3, 5e-4)) for _ in range(2)]
            kw["Offset"] = v if two else v[0]
        if draw(st.booleans()):
            r = draw(lat.pos_vec(3, 1e-3))
            kw["Roll"] = [r[0], 0.0, 0.0] if two and "Offset" in kw else r
        kws[t] = kw
    case["kw"] = kws
    case["mag"] = draw(st.booleans())
    case["circ"] = draw(st.sampled_from([0.0, 0.0, 1e-3]))
    return case


@facet("C08", "apply_errors", apply_case(), quick=300, thorough=10000, rule="at least two structures with errors")
def check_apply(case):
    spec = case["els"]
    prs = pairs(case)
    SC = SimulatedCommissioning(lat.build(spec))
    kw = dict(MagnetOffset=np.ones(3) * 1e-4, MagnetRoll=np.ones(3) * 1e-4) if case["mag"] else {}
    SC.register_magnets(np.array(lat.of_kind(spec, "quad", "dip")), **kw)
    SC.register_bpms(np.array(lat.of_kind(spec, "bpm", "mark")), **(dict(Offset=np.ones(2) * 1e-4, Roll=1e-3) if case["mag"] else {}))
    SC.SIG.Circumference = case["circ"]
    nerr = 0
    for t in TYPES:
        if prs[t]:
            SC.register_supports(np.array(prs[t]).T, t, **{k: np.array(v) for k, v in case["kw"][t].items()})
            nerr += len(prs[t]) * bool(case["kw"][t])
    SC.apply_errors()
    s = np.array(SC.RING.get_s_pos(range(len(spec) + 1)))
    ends, rolls = {}, {}
    for t in TYPES:
        for a, b in prs[t]:
            ends[t, a, b] = tuple([float(x) for x in getattr(SC.RING[o], f"{t}Offset")] for o in (a, b))
            r = [float(x) for x in getattr(SC.RING[a], f"{t}Roll")]
            rolls[t, a, b] = r[0]
            length = machine.pair_length(s, a, b)
            e0, e1 = ends[t, a, b]
            sig = case["kw"][t].get("Roll", [0, 0, 0])
            for ax, comp in ((1, 1), (0, 2)):
                close((e1[ax] - e0[ax]) / length, r[comp], f"{t} [{a},{b}]: slope and angle {comp}", rtol=1e-7, atol=1e-12)
                if sig[comp] and "Offset" not in case["kw"][t]:
                    close(e0[ax] + e1[ax], 0.0, f"{t} [{a},{b}]: rotated about its centre", atol=1e-16 + 1e-9 * abs(e0[ax]))
    off, ang, inside = model(case, prs, ends, rolls, s)
    check_elements(SC, off, ang, "after applying errors")
    check_query(SC, dict(case, query=[0, 3, 5]), off, ang, s, prs)
    return Info(nerr >= 2 and sum(inside) > 2, f"errors{nerr}", "aligned" if case["aligned"] else "free",
                "wrap" if any(a > b for p in prs.values() for a, b in p) else "")
