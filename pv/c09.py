"""C09: misalignment. Oracle: exact ray transformation between frames of a rigid body, linearised by complex step."""
import math

import at
import numpy as np
from hypothesis import strategies as st

from pv import lat
from pv.core import Info, close, equal, facet, freeze_element, require, unchanged
from pv.lat import num, small, vec
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import sc_tools


def rot(ax, ay, az):
    """roll about z first, then yaw about y, then pitch about x (fixed axes)"""
    cx, sx, cy, sy, cz, sz = math.cos(ax), math.sin(ax), math.cos(ay), math.sin(ay), math.cos(az), math.sin(az)
    rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return rx @ ry @ rz


def change_frame(z, pos0, rot0, pos1, rot1):
    """coordinates z at the plane z=0 of frame 0 -> at the plane z=0 of frame 1 (free flight between the planes)"""
    d = 1 + z[4]
    p = np.array([z[1], z[3], np.sqrt(d * d - z[1] ** 2 - z[3] ** 2)])
    r = pos0 + rot0 @ np.array([z[0], z[2], 0.0])
    p = rot0 @ p
    r1, p1 = rot1.T @ (r - pos1), rot1.T @ p
    lam = -r1[2] / p1[2]
    r1 = r1 + lam * p1
    path = lam * np.sqrt(p1[0] ** 2 + p1[1] ** 2 + p1[2] ** 2)
    return np.array([r1[0], p1[0], r1[1], p1[1], z[4], z[5] + path])


def linearised(*frames):
    t = np.real(change_frame(np.zeros(6), *frames))
    m = np.zeros((6, 6))
    for i in range(6):
        z = np.zeros(6, dtype=complex)
        z[i] = 1e-30j
        m[:, i] = np.imag(change_frame(z, *frames)) / 1e-30
    return t, m


def transformations(length, theta, offset, roll):
    """(T1, R1, T2, R2) with out = R2 M (R1 (z + T1)) + T2; roll = [az, ax, ay]"""
    r = rot(roll[1], roll[2], roll[0])
    o = np.array(offset, dtype=float)
    zero, eye = np.zeros(3), np.eye(3)
    exit0 = np.array([length * (math.cos(theta) - 1) / theta, 0, length * math.sin(theta) / theta]) if theta else np.array([0, 0, length])
    rb = rot(0, -theta, 0)
    t, r1 = linearised(zero, eye, o, r)
    t2, r2 = linearised(o + r @ exit0, r @ rb, exit0, rb)
    return np.linalg.solve(r1, t), r1, t2, r2


def build(e):
    if e["kind"] == "dip":
        el = at.Dipole("B", e["L"], e["th"], 0.3)
    elif e["kind"] == "quad":
        el = at.Quadrupole("Q", e["L"], 1.2)
    elif e["kind"] == "cor":
        el = at.Corrector("C", 0.0, [0.0, 0.0], PolynomA=[0.0, 0.0], PolynomB=[0.0, 0.0])
    elif e["kind"] == "thin":
        el = at.ThinMultipole("T", [0.0, 0.0], [0.0, 0.5])
    else:
        el = at.Multipole("M", e["L"], [0.0, 0.0, 0.0], [0.0, 0.0, 3.0])
    return el


def parts(e):
    length = 0.0 if e["kind"] in ("cor", "thin") else e["L"]
    return length, (e["th"] if e["kind"] == "dip" else 0.0)


@st.composite
def element_case(draw):
    big = draw(st.booleans())
    so, sa = (1e-2, 0.2) if big else (1e-3, 1e-3)
    return dict(kind=draw(st.sampled_from(["dip", "dip", "quad", "mult", "cor", "thin"])), L=draw(num(0.05, 3, 2)),
                th=draw(st.sampled_from([0.1, -0.1, 0.4, 0.02, 1.0, 8e-4, -5e-5])),
                mo=draw(vec(3, so)), mr=draw(vec(3, sa)), so=draw(vec(3, so)), sr=draw(vec(3, sa)),
                split=draw(st.sampled_from(["both", "own", "support"])), big=big)


def misalign(el, case):
    mo, mr, so, sr = (np.array(case[k]) for k in ("mo", "mr", "so", "sr"))
    if case["split"] == "own":
        so, sr = 0 * so, 0 * sr
    elif case["split"] == "support":
        mo, mr = 0 * mo, 0 * mr
    el.MagnetOffset, el.MagnetRoll, el.SupportOffset, el.SupportRoll = mo, mr, so, sr
    return mo + so, mr + sr


@facet("C09", "rigid_body", element_case(), quick=600, thorough=20000, rule="non-zero offset and rotation")
def check_rigid(case):
    el = build(case)
    off, roll = misalign(el, case)
    before = freeze_element(el)
    out = sc_tools.update_transformation(el)
    require(out is el, "the element is not updated in place")
    length, theta = parts(case)
    t1, r1, t2, r2 = transformations(length, theta, off, roll)
    scale = 1e-13 + 1e-12 * (1 + length)
    close(el.R1, r1, "R1", rtol=1e-9, atol=1e-12)
    close(el.T1, t1, "T1", rtol=1e-9, atol=scale)
    close(el.R2, r2, "R2", rtol=1e-9, atol=1e-12)
    close(el.T2, t2, "T2", rtol=1e-9, atol=scale)
    own = {"T1", "T2", "R1", "R2"}
    unchanged({k: v for k, v in before.items() if k not in own}, {k: v for k, v in freeze_element(el).items() if k not in own}, "other attributes")
    return Info(np.any(off) and np.any(roll), case["kind"], case["split"], "large" if case["big"] else "small")


@st.composite
def special_case(draw):
    case = draw(element_case())
    case["mode"] = draw(st.sampled_from(["none", "offset", "roll", "long"]))
    return case


@facet("C09", "special", special_case(), quick=300, thorough=6000, rule="a non-zero misalignment of one kind")
def check_special(case):
    """closed-form results for no misalignment, pure transverse offset, pure roll, pure longitudinal shift"""
    el = build(case)
    length, theta = parts(case)
    m = case["mode"]
    z3 = np.zeros(3)
    el.SupportOffset, el.SupportRoll, el.MagnetOffset, el.MagnetRoll = z3, z3, z3.copy(), z3.copy()
    dx, dy, dz = case["mo"]
    a = case["mr"][0]
    if m == "offset":
        el.MagnetOffset = np.array([dx, dy, 0.0])
    elif m == "roll":
        el.MagnetRoll = np.array([a, 0.0, 0.0])
    elif m == "long":
        el.MagnetOffset = np.array([0.0, 0.0, dz])
    sc_tools.update_transformation(el)
    eye = np.eye(6)
    if m == "none":
        for k, want in (("T1", np.zeros(6)), ("T2", np.zeros(6)), ("R1", eye), ("R2", eye)):
            close(getattr(el, k), want, f"{k} without misalignment", rtol=0, atol=1e-15)
    elif m == "offset":
        close(el.T1, [-dx, 0, -dy, 0, 0, 0], "T1 of a pure offset", atol=1e-15)
        close(el.R1, eye, "R1 of a pure offset", atol=1e-15)
        # at the exit the offset is seen in the frame turned by the bending angle: x part dx cos(theta), z part -dx sin(theta)
        close(el.T2[[0, 2]], [dx * math.cos(theta), dy], "T2 of a pure offset", atol=1e-14)
    elif m == "roll":
        c, s = math.cos(a), math.sin(a)
        rotm = np.eye(6)
        rotm[0, 0] = rotm[1, 1] = rotm[2, 2] = rotm[3, 3] = c
        rotm[0, 2] = rotm[1, 3] = s
        rotm[2, 0] = rotm[3, 1] = -s
        close(el.R1, rotm, "R1 of a pure roll", atol=1e-14)
        close(el.T1, np.zeros(6), "T1 of a pure roll", atol=1e-15)
        if theta == 0:
            close(el.R2, rotm.T, "R2 of a pure roll", atol=1e-14)
            close(el.T2, np.zeros(6), "T2 of a pure roll", atol=1e-14)
    else:
        close(el.T1[[0, 1, 2, 3, 4]], np.zeros(5), "T1 of a longitudinal shift", atol=1e-15)
        z = np.array([1e-3, 2e-3, -1e-3, 1e-3, 0, 0])
        close((el.R1 @ (z + el.T1))[[0, 2]], [z[0] + dz * z[1], z[2] + dz * z[3]], "longitudinal shift acts as a drift", rtol=1e-9, atol=1e-15)
    return Info(m != "none" and (dx or a or dz), m, case["kind"])


@st.composite
def drift_case(draw):
    return dict(L=draw(num(0.05, 3, 2)), off=draw(vec(3, 1e-3)), roll=draw(vec(3, 1e-3)), z=draw(vec(4, 1e-3)), d=draw(small(1e-3)), az=draw(st.sampled_from([0.0, 1.0, -2.0])))


@facet("C09", "drift", drift_case(), quick=300, thorough=6000, rule="non-zero pitch or yaw and offset")
def check_drift(case):
    """tracking through a misaligned empty magnet is a drift"""
    el = at.Multipole("D", case["L"], [0.0, 0.0], [0.0, 0.0])
    off, roll = np.array(case["off"]), np.array(case["roll"])
    roll[0] += case["az"]
    el.MagnetOffset, el.MagnetRoll, el.SupportOffset, el.SupportRoll = off, roll, np.zeros(3), np.zeros(3)
    sc_tools.update_transformation(el)
    z = np.array([case["z"][0], case["z"][1], case["z"][2], case["z"][3], case["d"], 0.0])
    out = at.lattice_track(at.Lattice([el], energy=2e9), z.reshape(6, 1), refpts=[1])[0][:, 0, 0, 0]
    ref = at.lattice_track(at.Lattice([at.Drift("D", case["L"])], energy=2e9), z.reshape(6, 1), refpts=[1])[0][:, 0, 0, 0]
    close(out[:5], ref[:5], "misaligned empty magnet", rtol=0, atol=2e-8 * (1 + case["L"]))
    return Info(np.any(roll[1:]) and np.any(off))


@st.composite
def history_case(draw):
    return dict(kind=draw(st.sampled_from(["dip", "quad", "mult"])), L=draw(num(0.1, 1, 2)), th=draw(st.sampled_from([0.1, -0.2])),
                steps=draw(st.lists(st.tuples(st.sampled_from(["mo", "mr", "g0", "g1", "gr", "update", "apply"]), vec(3, 1e-3)).map(list), min_size=1, max_size=7)))


@facet("C09", "history", history_case(), quick=250, thorough=6000, rule="at least two changes of the misalignment")
def check_history(case):
    """after any history the transformation is that of the current total misalignment"""
    d = lambda: at.Drift("D", 0.5)  # noqa: E731
    SC = SimulatedCommissioning(at.Lattice([d(), build(case), d(), at.Quadrupole("Q", 0.3, 1.0), d()], energy=2e9))
    SC.register_magnets(np.array([1]), MagnetOffset=np.ones(3) * 1e-4, MagnetRoll=np.ones(3) * 1e-3)
    SC.register_supports(np.array([[0], [2]]), "Girder", Offset=np.ones(3) * 1e-4, Roll=np.array([1e-3, 1e-3, 0]))
    n = 0
    for k, v in case["steps"]:
        if k == "apply":
            SC.apply_errors()
        elif k == "mo":
            SC.RING[1].MagnetOffset = np.array(v)
        elif k == "mr":
            SC.RING[1].MagnetRoll = np.array(v)
        elif k == "gr":
            SC.RING[0].GirderRoll = np.array([v[0], 0, 0])
        elif k in ("g0", "g1"):
            SC.RING[0 if k == "g0" else 2].GirderOffset = np.array(v)
        n += k != "update"
        if k in ("update", "apply"):
            _compare(SC, case)
    SC.update_supports()
    _compare(SC, case)
    return Info(n >= 2, case["kind"])


def _compare(SC, case):
    if "T1" not in vars(SC.RING[1]) or not hasattr(SC.RING[1], "R1"):
        SC.update_supports()
    SC.update_supports()
    el = SC.RING[1]
    fr = 0.5 / (0.5 + case["L"])
    g0, g1 = np.array(SC.RING[0].GirderOffset, dtype=float), np.array(SC.RING[2].GirderOffset, dtype=float)
    off = np.array(el.MagnetOffset) + g0 + fr * (g1 - g0)
    slope = (g1 - g0) / (0.5 + case["L"])
    roll = np.array(el.MagnetRoll) + np.array([SC.RING[0].GirderRoll[0], slope[1], slope[0]])
    length, theta = parts(case)
    for name, want in zip(("T1", "R1", "T2", "R2"), transformations(length, theta, off, roll)):
        close(getattr(el, name), want, f"{name} after a history", rtol=1e-8, atol=1e-12)
    require(not hasattr(SC.RING[3], "R1"), "unregistered magnet got a transformation")
