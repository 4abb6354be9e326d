"""C21: regularised pseudo-inverse. Oracle: matrices built from chosen singular systems; Moore-Penrose conditions."""
import numpy as np
from hypothesis import strategies as st

from pv.core import Info, close, facet, fail, require, equal
from pv.lat import num
from pySC.correction import loco  # noqa: F401  (importable without side effects)
from pySC.utils import sc_tools

dims = st.integers(1, 7)


@st.composite
def svd_case(draw):
    m, n = draw(dims), draw(dims)
    k = min(m, n)
    # well separated singular values: cumulative products of ratios >= 1.3
    ratios = draw(st.lists(num(0.1, 0.75, 2), min_size=k, max_size=k))
    zeros = draw(st.integers(0, k - 1)) if draw(st.booleans()) else 0
    return dict(m=m, n=n, top=draw(st.sampled_from([1.0, 0.01, 50.0, 3.0])), unit=draw(st.sampled_from([1.0, 1.0, 1e-15, 1e-12, 1e-8, 1e9])), ratios=ratios, zeros=zeros,
                seed=draw(st.integers(0, 10 ** 6)), removed=draw(st.integers(0, k)),
                alpha=draw(st.sampled_from([0, 0.0, 0.1, 1.0, 5.0, 1e-3])),
                damping=draw(st.sampled_from([1, 0.5, 0.01, 2.0, 1.0])), default=draw(st.booleans()))


def system(case):
    rng = np.random.default_rng(case["seed"])
    m, n = case["m"], case["n"]
    k = min(m, n)
    u = np.linalg.qr(rng.standard_normal((m, m)))[0][:, :k]
    v = np.linalg.qr(rng.standard_normal((n, n)))[0][:, :k]
    s = case["top"] * case["unit"] * np.cumprod([1.0] + case["ratios"][1:])
    return u, s, v


@facet("C21", "filter", svd_case(), quick=1200, thorough=30000,
       rule="at least two singular values and a removed value, regularisation or damping")
def check_filter(case):
    u, s, v = system(case)
    k, alpha = len(s), case["alpha"] * case["unit"]
    zeros = min(case["zeros"], max(0, case["removed"]))  # null singular values only if they get removed
    if zeros:
        s[k - zeros:] = 0.0
    matrix = u @ np.diag(s) @ v.T
    backup = matrix.copy()
    keep = k - case["removed"]
    with np.errstate(all="ignore"):
        filt = s / (s ** 2 + alpha ** 2)
    filt[keep:] = 0.0
    expected = v @ np.diag(case["damping"] * filt) @ u.T
    got = sc_tools.pinv(matrix, num_removed=case["removed"], alpha=alpha, damping=case["damping"])
    equal(matrix, backup, "input matrix of pinv")
    require(got.shape == (case["n"], case["m"]), f"shape of the pseudo-inverse {got.shape}")
    scale = np.max(np.abs(expected)) if expected.size else 0.0
    cond = s[0] / s[max(0, keep - 1)] if keep else 1.0
    close(got, expected, "filtered pseudo-inverse", rtol=0, atol=1e-12 * max(cond, 1) * max(scale, 1e-30) + 1e-14 * scale + 1e-300)
    return Info(k > 1 and (case["removed"] > 0 or case["alpha"] or case["damping"] != 1), f"removed{case['removed'] > 0}",
                f"alpha{case['alpha'] > 0}", f"zeros{zeros}", "wide" if case["n"] > case["m"] else "tall", f"unit{case['unit']:.0e}")


@st.composite
def raw_case(draw):
    m, n = draw(dims), draw(dims)
    mat = draw(st.lists(st.lists(st.integers(-9, 9), min_size=n, max_size=n), min_size=m, max_size=m))
    return dict(mat=mat, form=draw(st.sampled_from(["float", "fortran", "list", "int"])))


@facet("C21", "moore_penrose", raw_case(), quick=1200, thorough=30000, rule="at least 2x2 (full rank, or null singular values removed)")
def check_mp(case):
    a = np.array(case["mat"], dtype=float)
    sv = np.linalg.svd(a, compute_uv=False)
    null = int(np.sum(sv < 1e-9 * max(1.0, sv[0])))
    arg = dict(float=a.copy(), fortran=np.asfortranarray(a), list=[list(r) for r in a], int=np.array(case["mat"], dtype=int))[case["form"]]
    p = sc_tools.pinv(arg, num_removed=null) if null else sc_tools.pinv(arg)
    require(np.array_equal(np.array(arg, dtype=float), a), "pinv modified its input")
    require(np.shape(p) == a.shape[::-1], f"shape {np.shape(p)} instead of {a.shape[::-1]}")
    rank = len(sv) - null
    cond = sv[0] / sv[rank - 1] if rank else 1.0
    tol = 1e-12 * cond ** 2 + 1e-12
    for what, x, y in (("A P A = A", a @ p @ a, a), ("P A P = P", p @ a @ p, p), ("(A P)^T = A P", (a @ p).T, a @ p),
                       ("(P A)^T = P A", (p @ a).T, p @ a)):
        close(x, y, f"Moore-Penrose {what}", rtol=0, atol=tol * max(1.0, np.max(np.abs(y))))
    if rank == 0:
        require(not np.any(p), "pseudo-inverse of a zero matrix with all values removed")
    return Info(min(a.shape) > 1, f"rank{rank}", f"null{null}", case["form"])


@st.composite
def zero_case(draw):
    m, n = draw(dims), draw(dims)
    mat = draw(st.lists(st.lists(st.integers(-9, 9), min_size=n, max_size=n), min_size=m, max_size=m))
    return dict(mat=mat, x=draw(st.lists(st.integers(-5, 5), min_size=n, max_size=n)), alpha=draw(st.sampled_from([0.3, 1.0, 4.0])),
                damping=draw(st.sampled_from([1, 0.5])))


@facet("C21", "tikhonov", zero_case(), quick=800, thorough=20000, rule="at least 2x2 matrix, any rank")
def check_tikhonov(case):
    """For any rank the regularised inverse solves the ridge normal equations."""
    a = np.array(case["mat"], dtype=float)
    b = a @ np.array(case["x"], dtype=float) + np.arange(a.shape[0])
    p = sc_tools.pinv(a, alpha=case["alpha"], damping=case["damping"])
    expected = case["damping"] * np.linalg.solve(a.T @ a + case["alpha"] ** 2 * np.eye(a.shape[1]), a.T @ b)
    close(p @ b, expected, "ridge solution", rtol=1e-8, atol=1e-8)
    return Info(min(a.shape) > 1, f"a{case['alpha']}")
