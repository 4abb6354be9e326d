"""C06: setting magnets and correctors. Model-based: histories of set commands against a dictionary of setpoints."""
import numpy as np
from hypothesis import strategies as st

from pv import lat, machine
from pv.core import Info, close, equal, facet, fail, freeze_ring, freeze_sc, raises, require, unchanged
from pv.lat import small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning

FIELDS = {"PolynomA", "PolynomB", "MaxOrder", "KickAngle"}
FORMS = ("array", "list", "scalar", "int_array")
METHODS = ("abs", "rel", "add")


@st.composite
def op(draw):
    k = draw(st.sampled_from(["cm", "cm", "mag", "mag", "comp"]))
    o = dict(op=k, pos=draw(lat.idx_subset(1, 4)), method=draw(st.sampled_from(METHODS)), form=draw(st.sampled_from(FORMS)),
             skew=draw(st.booleans()))
    if k == "cm":
        o["val"] = draw(vec(4, draw(st.sampled_from([2e-4, 2e-3]))))
        if o["method"] == "rel":
            o["val"] = draw(vec(4, 2.0))
    else:
        o["val"] = draw(vec(4, 1.5))
        o["order"] = draw(st.integers(0, 2))
    return o


@st.composite
def set_case(draw):
    els = draw(lat.elements(min_size=6, max_size=9, need=("quad", "dip", "mult", "cor", "cor", "drift")))
    for e in els:
        if e["t"] == "cor":
            e["L"] = draw(st.sampled_from([0.0, 0.0, 0.1]))
    regs = [dict(r="mag", kind="cor", pos=[0, 1, 2, 3], kw=dict(HCM=draw(machine.LIMITS), VCM=draw(machine.LIMITS)), form="arr")]
    regs += draw(st.lists(machine.mag_reg(els), min_size=1, max_size=4))
    if draw(st.booleans()):
        dips = [e for e in els if e["t"] == "dip"]
        kw = dict(HCM=draw(st.sampled_from([1e-3, 0.5, float("inf")])))
        if all(e["k"] for e in dips) and draw(st.booleans()):
            kw["CF"] = True
        regs.append(dict(r="mag", kind="dip", pos=[0, 1, 2, 3], kw=kw, form="arr"))
    return dict(els=els, regs=regs, gradient_edits=draw(st.lists(st.tuples(st.integers(0, 40), st.sampled_from([0.3, -0.2, 1.0])), max_size=3)), apply=draw(st.booleans()), gradients=draw(st.sampled_from([True, True, False])), ops=draw(st.lists(op(), min_size=1, max_size=8)))


class Model:
    """setpoints of all registered magnets"""

    def __init__(self, SC, spec):
        self.spec = spec
        self.sp = {int(o): {ab: [float(x) for x in getattr(SC.RING[o], f"SetPoint{ab}")] for ab in "AB"} for o in SC.ORD.Magnet}
        self.nom = {int(o): {ab: [float(x) for x in getattr(SC.RING[o], f"NomPolynom{ab}")] for ab in "AB"} for o in SC.ORD.Magnet}
        self.lim = {int(o): [float(x) for x in SC.RING[o].CMlimit] for o in SC.ORD.Magnet if hasattr(SC.RING[o], "CMlimit")}
        self.skewlim = {int(o): float(SC.RING[o].SkewQuadLimit) for o in SC.ORD.Magnet if hasattr(SC.RING[o], "SkewQuadLimit")}
        self.hcm = {int(o) for o in SC.ORD.HCM}
        self.cf = {int(o) for o in SC.ORD.Magnet if getattr(SC.RING[o], "CombinedFunction", False)}
        self.compensated = 0
        self.clipped = 0

    def norm(self, o, skew):
        e = self.spec[o]
        if e["t"] == "cor":
            return 1.0
        return e["L"] if skew else -e["L"]

    def get_cm(self, o, skew):
        return self.sp[o]["A" if skew else "B"][0] * self.norm(o, skew)

    def set_cm(self, o, v, skew, method):
        cur = self.get_cm(o, skew)
        v = dict(abs=v, add=cur + v, rel=cur * v)[method]
        if o in self.lim and abs(v) > self.lim[o][int(skew)]:
            v = np.sign(v) * self.lim[o][int(skew)]
            self.clipped += 1
        self.sp[o]["A" if skew else "B"][0] = v / self.norm(o, skew)
        return v

    def set_mag(self, o, v, skew, order, method, comp=False):
        ab = "A" if skew else "B"
        v = dict(abs=v, add=self.sp[o][ab][order] + v, rel=self.nom[o][ab][order] * v)[method]
        if skew and order == 1 and o in self.skewlim and abs(v) > self.skewlim[o]:
            v = np.sign(v) * self.skewlim[o]
            self.clipped += 1
        theta = self.spec[o].get("th", 0.0)
        if comp and theta and o in self.hcm and o in self.cf and order == 1 and not skew:
            self.compensated += 1
            self.set_cm(o, (v - self.sp[o]["B"][1]) / self.nom[o]["B"][1] * theta, False, "add")
        self.sp[o][ab][order] = v


def arguments(ords, vals, form):
    if form == "scalar":
        vals = [vals[0]] * len(ords)
        return (ords[0] if len(ords) == 1 else np.array(ords)), vals[0], vals
    if form == "list":
        return list(ords), list(vals), vals
    if form == "int_array":
        vals = [float(round(v)) for v in vals]
        return np.array(ords), np.array([int(v) for v in vals]), vals
    return np.array(ords), np.array(vals), vals


@facet("C06", "histories", set_case(), quick=500, thorough=15000, rule="at least two set commands on the machine")
def check_histories(case):
    spec = case["els"]
    SC = machine.make(dict(case, inj={}, nsig=2))
    SC.update_magnets()
    m = Model(SC, spec)
    mags = [int(o) for o in SC.ORD.Magnet]
    done, labels = 0, []
    for step, o in enumerate(case["ops"]):
        skew = o["skew"]
        if o["op"] == "cm":
            pool = [int(q) for q in (SC.ORD.VCM if skew else SC.ORD.HCM)]
        elif o["op"] == "mag":
            pool = [q for q in mags if len(m.sp[q]["B"]) > o["order"]]
        else:
            if o["order"] < 2 and case["gradients"]:
                o["order"] = 1
            pool = [q for q in mags if len(m.sp[q]["B"]) > o["order"] and (not case["gradients"] or spec[q]["t"] in ("dip", "quad"))]
            skew = skew and not case["gradients"]
        ords = lat.pick(pool, o["pos"], keep_order=True)
        if not ords:
            continue
        a_ords, a_vals, vals = arguments(ords, [o["val"][i % 4] for i in range(len(ords))], o["form"])
        keep = (np.copy(a_ords), np.copy(a_vals))
        before = freeze_ring(SC.RING)
        rest = freeze_sc(SC, parts=("IDEALRING", "SIG", "ORD", "INJ"))
        if o["op"] == "cm":
            SC.set_cm_setpoints(a_ords, a_vals, skew, o["method"])
            for q, v in zip(ords, vals):
                m.set_cm(q, v, skew, o["method"])
        else:
            comp = o["op"] == "comp"
            SC.set_magnet_setpoints(a_ords, a_vals, skew, o["order"], o["method"], comp)
            for q, v in zip(ords, vals):
                m.set_mag(q, v, skew, o["order"], o["method"], comp)
        done += 1
        labels.append(f"{o['op']}_{o['method']}")
        what = f"command {step} ({o['op']}, {o['method']}, skew={skew})"
        require(np.array_equal(keep[0], a_ords) and np.array_equal(keep[1], a_vals), f"{what}: caller's arrays modified")
        unchanged(rest, freeze_sc(SC, parts=("IDEALRING", "SIG", "ORD", "INJ")), f"{what}: rest of the machine")
        after = freeze_ring(SC.RING)
        for q in mags:
            for ab in "AB":
                close(getattr(SC.RING[q], f"SetPoint{ab}"), m.sp[q][ab], f"{what}: SetPoint{ab} of magnet {q}", rtol=1e-10, atol=1e-15)
        for i in range(len(spec)):
            own = FIELDS | {"SetPointA", "SetPointB"} if i in ords else set()
            unchanged({k: v for k, v in before[i].items() if k not in own}, {k: v for k, v in after[i].items() if k not in own},
                      f"{what}: element {i}")
        for sk, book in ((False, SC.ORD.HCM), (True, SC.ORD.VCM)):
            if len(book):
                close(SC.get_cm_setpoints(book, sk), [m.get_cm(int(q), sk) for q in book], f"{what}: read corrector setpoints", rtol=1e-10, atol=1e-16)
                close(np.ravel(SC.get_cm_setpoints(int(book[-1]), sk)), [m.get_cm(int(book[-1]), sk)], f"{what}: read one corrector", rtol=1e-10, atol=1e-16)
        if o["op"] != "cm" or not case["apply"]:
            SC.update_magnets(np.array(ords))
            unchanged(after, freeze_ring(SC.RING), f"{what}: fields were not up to date", rtol=1e-13, atol=1e-16)
    return Info(done >= 2, *labels, "clipped" if m.clipped else "", "compensated" if m.compensated else "")


@st.composite
def bad_case(draw):
    case = draw(set_case())
    case["bad"] = draw(op())
    case["how"] = draw(st.sampled_from(["method", "length", "length"]))
    case["badmethod"] = draw(st.sampled_from(["absolute", "ABS", "", "mul", "set"]))
    return case


@facet("C06", "rejections", bad_case(), quick=150, thorough=3000, rule="at least two magnets addressed")
def check_rejections(case):
    SC = machine.make(dict(case, inj={}, nsig=2))
    o = case["bad"]
    ords = lat.pick([int(q) for q in (SC.ORD.HCM if o["op"] == "cm" else SC.ORD.Magnet)], o["pos"])
    method = case["badmethod"] if case["how"] == "method" else o["method"]
    n = len(ords) if case["how"] == "method" else len(ords) + 1 if len(ords) % 2 else max(2, len(ords) - 1 if len(ords) > 3 else len(ords) + 2)
    vals = np.array([o["val"][i % 4] for i in range(n)])
    before = freeze_sc(SC)
    if o["op"] == "cm":
        raises(ValueError, f"set_cm_setpoints with bad {case['how']}", SC.set_cm_setpoints, np.array(ords), vals, False, method)
    else:
        raises(ValueError, f"set_magnet_setpoints with bad {case['how']}", SC.set_magnet_setpoints, np.array(ords), vals, False, 0, method)
    unchanged(before, freeze_sc(SC), "rejected set command")
    return Info(len(ords) > 1, case["how"], o["op"])


@st.composite
def kick_case(draw):
    return dict(kind=draw(st.sampled_from(["cor", "mult", "quad", "sext"])), L=draw(st.sampled_from([0.05, 0.3])), k=draw(small(1.0)),
                x=draw(small(1e-3)), y=draw(small(1e-3)), lim=draw(st.sampled_from([5e-4, float("inf")])))


@facet("C06", "kick_direction", kick_case(), quick=150, thorough=2000, rule="non-zero kicks in both planes")
def check_kick(case):
    import at
    e = dict(t=case["kind"], L=0.0 if case["kind"] == "cor" else case["L"], k=case["k"], h=case["k"], pa=[0.0, 0.0], pb=[0.0, 0.0], n=2)
    SC = SimulatedCommissioning(lat.build([e, dict(t="drift", L=1.0)]))
    SC.register_magnets(np.array([0]), HCM=case["lim"], VCM=case["lim"])
    SC.set_cm_setpoints(0, case["x"], False)
    SC.set_cm_setpoints(np.array([0]), [case["y"]], True)
    one = at.Lattice([SC.RING[0]], energy=2e9)
    z = at.lattice_track(one, np.zeros((6, 1)), refpts=[1])[0][:, 0, 0, 0]
    for i, want in ((1, case["x"]), (3, case["y"])):
        want = np.sign(want) * min(abs(want), case["lim"])
        close(z[i], want, f"kick in plane {'xy'[i // 2]} for a setpoint of {want}", rtol=0.05, atol=1e-9)
    close(SC.get_cm_setpoints(0, False), [np.clip(case["x"], -case["lim"], case["lim"])], "read setpoint", rtol=1e-12, atol=1e-18)
    return Info(case["x"] != 0 and case["y"] != 0, case["kind"])


@st.composite
def comp_case(draw):
    return dict(th=draw(st.sampled_from([0.05, -0.1, 0.3])), k=draw(st.sampled_from([0.5, -0.8])), L=draw(st.sampled_from([0.3, 1.0])),
                steps=draw(st.lists(st.tuples(st.sampled_from(METHODS), lat.num(0.95, 1.05, 4)).map(list), min_size=1, max_size=4)),
                hcm=draw(small(1e-3)))


@facet("C06", "compensation", comp_case(), quick=100, thorough=2000, rule="several steps with a gradient change")
def check_compensation(case):
    """combined-function magnet: its dipole field does not change when the gradient is changed with compensation"""
    SC = SimulatedCommissioning(lat.build([dict(t="dip", L=case["L"], th=case["th"], k=case["k"]), dict(t="drift", L=1.0)]))
    SC.register_magnets(np.array([0]), HCM=float("inf"), CF=True)
    SC.set_cm_setpoints(0, case["hcm"], False)
    field = float(SC.RING[0].PolynomB[0])
    for method, v in case["steps"]:
        SC.set_magnet_setpoints(0, dict(abs=v * case["k"], rel=v, add=(v - 1) * case["k"])[method], False, 1, method, dipole_compensation=True)
        close(SC.RING[0].PolynomB[0], field, f"dipole field after a compensated gradient change ({method})", rtol=1e-9, atol=1e-12)
        alpha = float(SC.RING[0].SetPointB[1]) / case["k"]
        close(SC.get_cm_setpoints(0, False), [case["hcm"] + (alpha - 1) * case["th"]], "compensating corrector setpoint", rtol=1e-8, atol=1e-13)
    return Info(len(case["steps"]) > 1)
