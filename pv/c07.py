"""C07: cavities. Model-based histories of setpoint commands, errors and updates."""
import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Info, close, equal, facet, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import num, small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning

PROPS = ("Voltage", "Frequency", "TimeLag")
SCALE = dict(Voltage=1e6, Frequency=1e8, TimeLag=1.0)
ADD = dict(Voltage=1e4, Frequency=1e3, TimeLag=0.1)


@st.composite
def op(draw):
    k = draw(st.sampled_from(["set", "set", "set", "apply", "update", "edit", "cancel"]))
    o = dict(op=k, pos=draw(lat.idx_subset(1, 3)), param=draw(st.sampled_from(PROPS)))
    if k in ("set", "cancel"):
        o.update(method=draw(st.sampled_from(["abs", "rel", "add"])), val=draw(vec(3, 2.0)), form=draw(st.sampled_from(["array", "list", "scalar", "int"])))
    elif k == "apply":
        o["nsig"] = draw(st.sampled_from([1, 2]))
    elif k == "edit":
        o.update(field=draw(st.sampled_from(["Offset", "CalError"])), val=draw(vec(3, 1.0)))
    else:
        o["all"] = draw(st.booleans())
    return o


@st.composite
def rf_case(draw):
    els = draw(lat.elements(min_size=4, max_size=7, kinds=("drift", "quad", "bpm", "rf"), need=("rf", "rf", "drift", "rf")))
    return dict(els=els, regs=draw(st.lists(machine.rf_reg(), min_size=1, max_size=3)), ops=draw(st.lists(op(), min_size=1, max_size=9)))


@facet("C07", "histories", rf_case(), quick=600, thorough=20000, rule="at least two commands, errors or setpoint changes included")
def check_histories(case):
    spec = case["els"]
    SC = machine.make(dict(case, inj={}), apply=False)
    cavs = [int(o) for o in SC.ORD.RF]
    require(len(cavs) > 0, "no cavity registered")
    sp = {(q, p): float(getattr(SC.IDEALRING[q], p)) for q in cavs for p in PROPS}
    stale = set()
    done, labels = 0, []
    for step, o in enumerate(case["ops"]):
        ords = lat.pick(cavs, o["pos"], keep_order=True)
        k, p = o["op"], o["param"]
        before = freeze_ring(SC.RING)
        rest = freeze_sc(SC, parts=("IDEALRING", "SIG", "ORD"))
        allowed = {}
        what = f"command {step} ({k} {p} {o.get('method', '')})"
        if k in ("set", "cancel"):
            f = dict(abs=SCALE[p], rel=1.0, add=ADD[p])[o["method"]]
            vals = [f * o["val"][i % 3] for i in range(len(ords))]
            if o["form"] == "int":
                vals = [float(round(v)) for v in vals]
            if o["form"] == "scalar":
                vals = [vals[0]] * len(ords)
            if k == "cancel":
                if o["method"] == "rel":
                    vals = [v if abs(v) > 0.01 else 2.0 for v in vals]
                old = [sp[q, p] for q in ords]
            arg = dict(array=np.array(vals), list=list(vals), scalar=vals[0], int=np.array([int(v) for v in vals]))[o["form"]]
            keep = np.copy(arg)
            o_arg = ords[0] if len(ords) == 1 and o["form"] == "scalar" else np.array(ords)
            SC.set_cavity_setpoints(o_arg, arg, p, o["method"])
            for q, v in zip(ords, vals):
                sp[q, p] = dict(abs=v, rel=sp[q, p] * v, add=sp[q, p] + v)[o["method"]]
            require(np.array_equal(keep, arg), f"{what}: caller's array modified")
            if k == "cancel":
                back = dict(abs=old, add=[-v for v in vals], rel=[1 / v if v else 1.0 for v in vals])[o["method"]]
                SC.set_cavity_setpoints(np.array(ords), np.array(back), p, o["method"])
                for q, v in zip(ords, old):
                    sp[q, p] = v if o["method"] != "rel" or all(vals) else sp[q, p]
            for q in ords:
                allowed[q] = {p, f"{p}SetPoint"} | ({x for x in PROPS} if q in stale else set())
            stale -= set(ords)
        elif k == "apply":
            SC.apply_errors(o["nsig"])
            stale.clear()
            allowed = {q: {f"{x}{s}" for x in PROPS for s in ("", "Offset", "CalError")} for q in cavs}
        elif k == "update":
            if o["all"]:
                SC.update_cavities()
                allowed = {q: set(PROPS) for q in cavs}
                stale.clear()
            else:
                SC.update_cavities(np.array(ords))
                allowed = {q: set(PROPS) for q in ords}
                stale -= set(ords)
        else:
            for q, v in zip(ords, o["val"]):
                setattr(SC.RING[q], f"{p}{o['field']}", v * ADD[p] if o["field"] == "Offset" else v * 1e-2)
            stale |= set(ords)
            done += 1
            continue
        done += 1
        labels.append(k)
        unchanged(rest, freeze_sc(SC, parts=("IDEALRING", "SIG", "ORD")), f"{what}: rest of the machine")
        after = freeze_ring(SC.RING)
        for i in range(len(spec)):
            own = allowed.get(i, set())
            unchanged({x: y for x, y in before[i].items() if x not in own}, {x: y for x, y in after[i].items() if x not in own}, f"{what}: element {i}")
        for q in cavs:
            el = SC.RING[q]
            for x in PROPS:
                close(getattr(el, f"{x}SetPoint"), sp[q, x], f"{what}: {x} setpoint of cavity {q}", rtol=1e-12, atol=1e-9 * ADD[x])
                if q not in stale:
                    close(getattr(el, x), float(getattr(el, f"{x}SetPoint")) * (1 + float(getattr(el, f"{x}CalError"))) + float(getattr(el, f"{x}Offset")),
                          f"{what}: {x} of cavity {q}", rtol=1e-12, atol=1e-9 * ADD[x])
    return Info(done >= 2, *labels, f"cavities{len(cavs)}")


@st.composite
def bad_case(draw):
    case = draw(rf_case())
    case.update(how=draw(st.sampled_from(["method", "length"])), badmethod=draw(st.sampled_from(["relative", "Abs", "", "mul"])), param=draw(st.sampled_from(PROPS)),
                n=draw(st.integers(2, 5)))
    return case


@facet("C07", "rejections", bad_case(), quick=100, thorough=2000, rule="more than one cavity")
def check_rejections(case):
    SC = machine.make(dict(case, inj={}), apply=False)
    cavs = SC.ORD.RF
    before = freeze_sc(SC)
    n = case["n"] if case["n"] != len(cavs) else len(cavs) + 1
    if case["how"] == "method":
        raises(ValueError, "unknown method", SC.set_cavity_setpoints, cavs, np.ones(len(cavs)), case["param"], case["badmethod"])
    else:
        raises(ValueError, "wrong number of setpoints", SC.set_cavity_setpoints, cavs, np.ones(n), case["param"], "abs")
    unchanged(before, freeze_sc(SC), "rejected cavity command")
    return Info(len(cavs) > 1, case["how"])
