"""C25: switching of cavities and radiation. Oracle: table of pass methods; tracking."""
import numpy as np
from hypothesis import strategies as st

from pv import lat
from pv.core import Info, facet, freeze_element, freeze_ring, raises, require, unchanged
from pySC.core.lattice_setting import switch_cavity_and_radiation, switch_rf

PAIRS = {"BndMPoleSymplectic4Pass": "BndMPoleSymplectic4RadPass", "BndMPoleSymplectic4E2Pass": "BndMPoleSymplectic4E2RadPass", "StrMPoleSymplectic4Pass": "StrMPoleSymplectic4RadPass"}
BACK = {v: k for k, v in PAIRS.items()}
OTHER = ["DriftPass", "IdentityPass", "QuadLinearPass", "BendLinearPass", "BndMPoleSymplectic4QuantPass", "StrMPoleSymplectic4QuantPass", "ThinMPolePass", "CorrectorPass", "ExactHamiltonianPass", "ThinMPoleRadPass",
         "RFCavityPass", "CavityPass", "QuadMPoleFringePass"]
ARGS = ("radiationoff", "radiationon", "cavityoff", "cavityon")


def expected(methods, cavs, args):
    out = list(methods)
    for i, m in enumerate(out):
        if "radiationoff" in args:
            out[i] = BACK.get(m, m)
        elif "radiationon" in args:
            out[i] = PAIRS.get(m, m)
        if i in cavs and ("cavityoff" in args or "cavityon" in args):
            out[i] = "IdentityPass" if "cavityoff" in args else "RFCavityPass"
    return out


@st.composite
def switch_case(draw):
    els = draw(lat.elements(min_size=4, max_size=12, need=("rf", "dip", "quad", "sext", "mult")))
    methods = draw(st.lists(st.one_of(st.none(), st.sampled_from(list(PAIRS)), st.sampled_from(list(BACK)), st.sampled_from(OTHER)), min_size=len(els), max_size=len(els)))
    return dict(els=els, methods=methods, calls=draw(st.lists(st.one_of(st.lists(st.sampled_from(ARGS), max_size=4), st.fixed_dictionaries(dict(ords=lat.idx_subset(0, 4), scalar=st.booleans(), state=st.booleans(), cav=st.booleans()))), min_size=1, max_size=6)))


@facet("C25", "switch", switch_case(), quick=1500, thorough=40000, rule="some pass method changes")
def check_switch(case):
    ring = lat.build(case["els"])
    for el, m in zip(ring, case["methods"]):
        if m:
            el.PassMethod = m
    cavs = set(lat.of_kind(case["els"], "rf"))
    now, changed, labels = [el.PassMethod for el in ring], 0, set()
    frozen = {i: freeze_element(el) for i, el in enumerate(ring)}
    ids = [id(e) for e in ring]
    for call in case["calls"]:
        if isinstance(call, list):
            want = expected(now, cavs, call)
            run = lambda r, call=call: switch_cavity_and_radiation(r, *call)  # noqa: E731
            labels.add("mixed" if len(set(call)) > 1 else "single")
        else:
            ords = lat.pick(sorted(cavs) if call["cav"] else list(range(len(ring))), call["ords"], keep_order=True)
            if call["scalar"] and ords:
                ords = ords[:1]
            want = [("RFCavityPass" if call["state"] else "IdentityPass") if i in cavs and i in ords else m for i, m in enumerate(now)]
            arg = ords[0] if call["scalar"] and ords else np.array(ords, dtype=int)
            run = lambda r, arg=arg, call=call: switch_rf(r, arg, call["state"])  # noqa: E731
            labels.add("individual")
        for repeat in range(2):
            out = run(ring)
            require([id(e) for e in out] == ids, "returned lattice has other elements")
            for i, el in enumerate(out):
                state = freeze_element(el)
                require(state["PassMethod"] == want[i], f"element {i} with {now[i]}: {state['PassMethod']} instead of {want[i]} after {call}{' (repeated)' if repeat else ''}")
                frozen[i]["PassMethod"] = want[i]
                unchanged(frozen[i], state, f"element {i}")
        changed += want != now
        now = want
    return Info(changed, *labels)


@st.composite
def reverse_case(draw):
    els = draw(lat.elements(min_size=4, max_size=12, need=("rf", "dip", "quad", "sext", "mult")))
    return dict(els=els, what=draw(st.sampled_from(["cavity", "radiation", "both"])), e2=draw(st.booleans()), first=draw(st.booleans()))


@facet("C25", "reversible", reverse_case(), quick=300, thorough=5000, rule="every case")
def check_reversible(case):
    ring = lat.build(case["els"])
    for el in ring:
        if case["e2"] and el.PassMethod == "BndMPoleSymplectic4Pass":
            el.PassMethod = "BndMPoleSymplectic4E2Pass"
    names = ["cavity", "radiation"] if case["what"] == "both" else [case["what"]]
    a, b = ("on", "off") if case["first"] else ("off", "on")
    ring = switch_cavity_and_radiation(ring, *[n + b for n in names])
    state = freeze_ring(ring)
    ring = switch_cavity_and_radiation(ring, *[n + a for n in names])
    require(any(state[i] != v for i, v in enumerate(freeze_ring(ring)[j]["PassMethod"] for j in range(len(ring)))), "the switch has no effect")
    ring = switch_cavity_and_radiation(ring, *[n + b for n in names])
    unchanged(state, freeze_ring(ring), "switched there and back")
    return Info(True, case["what"])


@st.composite
def bad_case(draw):
    bad = draw(st.one_of(st.sampled_from(["cavityOn", "radiation", "", "cavityof", "on", "off", "radiationonoff", "cavityon ", "rfoff", "cavity", "Radiationoff"]), st.text(max_size=12).filter(lambda s: s not in ARGS)))
    good = draw(st.lists(st.sampled_from(ARGS), max_size=3))
    good.insert(draw(st.integers(0, len(good))), bad)
    return dict(els=draw(lat.elements(min_size=4, max_size=8, need=("rf", "dip", "quad"))), args=good, start=draw(st.lists(st.sampled_from(ARGS), max_size=2)))


@facet("C25", "rejects", bad_case(), quick=200, thorough=3000, rule="every case")
def check_rejects(case):
    ring = switch_cavity_and_radiation(lat.build(case["els"]), *case["start"])
    before = freeze_ring(ring)
    raises(ValueError, f"arguments {case['args']}", switch_cavity_and_radiation, ring, *case["args"])
    unchanged(before, freeze_ring(ring), "ring after rejected switches")
    return Info(True)


@st.composite
def effect_case(draw):
    return dict(ring=draw(lat.ring_spec()), order=draw(st.permutations(["cavity", "radiation"])), lag=draw(lat.num(0.1, 0.2, 2)))


@facet("C25", "effect", effect_case(), quick=40, thorough=500, rule="every case")
def check_effect(case):
    """particles lose energy in the magnets exactly if radiation is on, and change energy in the cavity exactly if it is on"""
    els = lat.ring_elements(case["ring"])
    ring = lat.build(els)
    z = np.array([1e-5, 0, 1e-5, 0, 0, case["lag"]]).reshape(6, 1)
    track = lambda r: r.track(np.asfortranarray(z.copy()), nturns=1)[0][4, 0, 0, 0]  # noqa: E731
    off = switch_cavity_and_radiation(ring.deepcopy(), "cavityoff", "radiationoff")
    require(track(off) == 0, "energy changes with everything switched off")
    rad = switch_cavity_and_radiation(off.deepcopy(), "radiationon")
    loss = track(rad)
    require(loss < -1e-6, "no energy loss with radiation switched on")
    cav = switch_cavity_and_radiation(off.deepcopy(), "cavityon")
    gain = track(cav)
    require(abs(gain) > 1e-6, "no energy change with cavities switched on")
    both = off.deepcopy()
    for name in case["order"]:
        both = switch_cavity_and_radiation(both, name + "on")
    require(abs(track(both) - loss - gain) < 1e-2 * (abs(loss) + abs(gain)), "energy change with both")
    return Info(True)
