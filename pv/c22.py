"""C22: weighted and circular statistics. Oracle: slice-by-slice textbook definitions in plain Python; metamorphic relations."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import stdtrit

from pv.core import Discard, Info, close, equal, facet, require
from pv.lat import num
from pySC.utils import stats

P_1SIGMA = 0.5 * (1 + math.erf(1 / math.sqrt(2)))


@st.composite
def data_case(draw, nans=False):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    size = int(np.prod(shape))
    nd = len(shape)
    axis = draw(st.one_of(st.none(), st.integers(0, nd - 1), st.integers(-nd, -1),
                          st.permutations(range(nd)).flatmap(lambda p: st.integers(1, nd).map(lambda k: list(p[:k])))))
    kind = draw(st.sampled_from(["none", "vary", "vary", "equal", "zero", "nan"]))
    return dict(shape=shape, data=draw(st.lists(num(-2.4, 2.4, 3), min_size=size, max_size=size)), axis=axis,
                err=draw(st.lists(num(0.05, 2, 2), min_size=size, max_size=size)), kind=kind,
                spot=draw(st.integers(0, size - 1)), period=draw(st.sampled_from([2 * math.pi, 1.0, 10.0, 5.0])),
                tval=draw(st.booleans()),
                nan=draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=max(1, size // 2))) if nans else [])


def unpack(case):
    data = np.array(case["data"]).reshape(case["shape"])
    err = np.array(case["err"]).reshape(case["shape"])
    if case["kind"] == "none":
        err = None
    elif case["kind"] == "equal":
        err = np.full(data.shape, case["err"][0])
    elif case["kind"] == "zero":
        err.flat[case["spot"]] = 0.0
    elif case["kind"] == "nan":
        err.flat[case["spot"]] = np.nan
    axis = tuple(case["axis"]) if isinstance(case["axis"], list) else case["axis"]
    mask = np.zeros(data.shape, dtype=bool)
    for i in case["nan"]:
        mask.flat[i] = True
    return data, err, axis, mask


def slices(shape, axis):
    """output index -> list of data indices"""
    nd = len(shape)
    axes = range(nd) if axis is None else [a % nd for a in (axis if isinstance(axis, tuple) else (axis,))]
    keep = [i for i in range(nd) if i not in axes]
    groups = {}
    for ind in itertools.product(*[range(s) for s in shape]):
        groups.setdefault(tuple(ind[k] for k in keep), []).append(ind)
    return tuple(shape[k] for k in keep), groups


def apply(fun, data, err, axis, mask):
    """fun(values, errors or None) per output slice"""
    use = err is not None and not np.any(np.isnan(err[~mask])) and np.all(err[~mask] != 0)
    out_shape, groups = slices(data.shape, axis)
    out = np.zeros(out_shape)
    for o, inds in groups.items():
        inds = [i for i in inds if not mask[i]]
        if not inds:
            raise Discard()
        out[o] = fun([float(data[i]) for i in inds], [float(err[i]) for i in inds] if use else None)
    return out


def wmean(v, e):
    w = [1.0] * len(v) if e is None else [1 / x ** 2 for x in e]
    return sum(a * b for a, b in zip(w, v)) / sum(w)


def n_eff(n, w):
    x = n if w is None else sum(w) ** 2 / sum(a * a for a in w)
    return max(2.0, x)


def t_corr(n):
    return float(stdtrit(max(n, 2.0) - 1, P_1SIGMA))


def w_error(v, e, tval):
    w = [1.0] * len(v) if e is None else [1 / (x * 1.0) ** 2 for x in e]
    m = wmean(v, e)
    var = sum(a * (b - m) ** 2 for a, b in zip(w, v)) / sum(w)
    if e is not None:
        var += 1 / sum(w)
    n = n_eff(len(v), None if e is None else w)
    return math.sqrt(var * n / (n - 1)) * (t_corr(n) if tval else 1.0)


def phasor(v, e, period):
    w = [1.0] * len(v) if e is None else [1 / (x * 2 * math.pi / period) ** 2 for x in e]
    ph = [x * 2 * math.pi / period for x in v]
    c = sum(a * complex(math.cos(b), math.sin(b)) for a, b in zip(w, ph)) / sum(w)
    return c, w, ph


def c_mean(v, e, period):
    c, _, _ = phasor(v, e, period)
    if abs(c) < 1e-4:
        raise Discard()
    return math.atan2(c.imag, c.real) * period / 2 / math.pi


def c_error(v, e, period, tval):
    c, w, ph = phasor(v, e, period)
    if abs(c) < 1e-4:
        raise Discard()
    var = sum(a * abs(complex(math.cos(b), math.sin(b)) - c) ** 2 for a, b in zip(w, ph)) / sum(w)
    if e is not None:
        var += 1 / sum(w)
    n = n_eff(len(v), None if e is None else w)
    err = math.sqrt(max(0.0, var) * n / (n - 1)) / abs(c) * (t_corr(n) if tval else 1.0)
    if abs(err - math.pi / 2) < 1e-6:
        raise Discard()
    return 0.3 * period if err > math.pi / 2 else err * period / 2 / math.pi


def close_mod(a, b, period, what):
    a, b = np.asarray(np.ma.getdata(a), dtype=float), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    d = (a - b + period / 2) % period - period / 2
    close(d, np.zeros_like(d), f"{what} (difference on the circle)", atol=1e-8 * period)
    require(np.all(np.abs(a) <= period / 2 * (1 + 1e-12)), f"{what} outside of half a period")


TOL = dict(rtol=1e-9, atol=1e-7)


def plain(x):
    return np.asarray(np.ma.getdata(x), dtype=float)


def all_stats(data, err, axis, period, tval, nan):
    s = stats
    if nan:
        return dict(mean=s.weighted_nanmean(data, err, axis), rms=s.weighted_nanrms(data, err, axis),
                    cmean=s.circular_nanmean(data, period, err, axis), cerr=s.circular_nanerror(data, period, err, axis, tval))
    return dict(mean=s.weighted_mean(data, err, axis), rms=s.weighted_rms(data, err, axis),
                err=s.weighted_error(data, err, axis, tval),
                cmean=s.circular_mean(data, period, err, axis), cerr=s.circular_error(data, period, err, axis, tval))


def compare(got, case, data, err, axis, mask):
    period, tval = case["period"], case["tval"]
    close(plain(got["mean"]), apply(wmean, data, err, axis, mask), "weighted mean", **TOL)
    close(plain(got["rms"]), apply(lambda v, e: math.sqrt(wmean([x * x for x in v], e)), data, err, axis, mask), "weighted rms", **TOL)
    if "err" in got:
        close(plain(got["err"]), apply(lambda v, e: w_error(v, e, tval), data, err, axis, mask), "weighted error", **TOL)
    close_mod(got["cmean"], apply(lambda v, e: c_mean(v, e, period), data, err, axis, mask), period, "circular mean")
    close(plain(got["cerr"]), apply(lambda v, e: c_error(v, e, period, tval), data, err, axis, mask), "circular error", rtol=1e-6, atol=1e-6)


def info(case, data):
    ax = "none" if case["axis"] is None else "tuple" if isinstance(case["axis"], list) else "int"
    return Info(data.size > 1 and case["kind"] != "equal", f"axis_{ax}", f"errors_{case['kind']}", f"ndim{data.ndim}")


@facet("C22", "definitions", data_case(), quick=1200, thorough=30000, rule="more than one value, errors absent, varying or unusable")
def check_definitions(case):
    data, err, axis, mask = unpack(case)
    apply(lambda v, e: c_error(v, e, case["period"], True), data, err, axis, mask)
    d0, e0 = data.copy(), None if err is None else err.copy()
    got = all_stats(data, err, axis, case["period"], case["tval"], False)
    equal(data, d0, "input data")
    if err is not None:
        equal(err, e0, "input errors")
    compare(got, case, data, err, axis, mask)
    if case["kind"] == "none":
        close(plain(stats.rms(data, axis)), apply(lambda v, e: math.sqrt(sum(x * x for x in v) / len(v)), data, None, axis, mask), "rms", **TOL)
        for k in (1.0, 0.3 / np.max(np.abs(data), initial=1e-3)):  # squares well within half a period: no folding
            x, p = data * k * case["period"] / 2.5, case["period"]
            if np.max(np.abs(x / p)) < 0.49:
                ref = apply(lambda v, e: p * math.sqrt(c_mean([(y / p) ** 2 for y in v], None, 1.0)), x, None, axis, mask)
                close(plain(stats.circular_rms(x, period=p, axis=axis)), ref, "circular rms", **TOL)
        x = data * case["period"] * 1e-2  # small data: nothing circular
        close(plain(stats.circular_rms(x, period=case["period"], axis=axis)), plain(stats.rms(x, axis)), "circular rms of small data", rtol=1e-4, atol=1e-7)
        if abs(case["period"] - 2 * math.pi) < 1e-12:
            equal(plain(stats.circular_rms(x, axis=axis)), plain(stats.circular_rms(x, period=2 * np.pi, axis=axis)), "circular rms with the default period")
    return info(case, data)


@facet("C22", "missing_values", data_case(nans=True), quick=1000, thorough=25000, rule="some but not all values of each slice missing")
def check_nan(case):
    data, err, axis, mask = unpack(case)
    filled = data.copy()
    filled[mask] = np.nan
    if err is not None and case["spot"] % 2:
        err = np.where(mask, np.nan, err)  # missing data usually come with missing errors
    ref_err = err
    apply(lambda v, e: c_error(v, e, case["period"], True), data, err, axis, mask)  # discards undefined cases
    got = all_stats(filled, err, axis, case["period"], case["tval"], True)
    compare(got, case, data, ref_err, axis, mask)
    return info(case, data)


@facet("C22", "invariances", data_case(), quick=800, thorough=20000, rule="shift, scale, period, permutation, axis layout relations")
def check_invariances(case):
    data, err, axis, mask = unpack(case)
    period, tval = case["period"], case["tval"]
    apply(lambda v, e: c_error(v, e, period, tval), data, err, axis, mask)  # discards undefined circular statistics
    base = all_stats(data, err, axis, period, tval, False)
    shift = case["err"][0] * 3.0
    s = all_stats(data + shift, err, axis, period, tval, False)
    close(plain(s["mean"]), plain(base["mean"]) + shift, "mean of shifted data", **TOL)
    close(plain(s["err"]), plain(base["err"]), "error of shifted data", **TOL)
    close_mod(s["cmean"], (plain(base["cmean"]) + shift + period / 2) % period - period / 2, period, "circular mean of shifted data")
    close(plain(s["cerr"]), plain(base["cerr"]), "circular error of shifted data", rtol=1e-5, atol=1e-5)
    rng = np.random.default_rng(case["spot"])
    s = all_stats(data + period * rng.integers(-3, 4, data.shape), err, axis, period, tval, False)
    close_mod(s["cmean"], plain(base["cmean"]), period, "circular mean of data shifted by whole periods")
    close(plain(s["cerr"]), plain(base["cerr"]), "circular error of data shifted by whole periods", rtol=1e-5, atol=1e-5)
    k = 2.5
    s = all_stats(data * k, None if err is None else err * k, axis, period * k, tval, False)
    for name in ("mean", "rms", "err", "cerr"):
        close(plain(s[name]), plain(base[name]) * k, f"{name} of scaled data", rtol=1e-5, atol=1e-5)
    close_mod(s["cmean"], plain(base["cmean"]) * k, period * k, "circular mean of scaled data")
    # axis layout: reversing the axes of the data
    if axis is None:
        new_axis = None
    else:
        nd = data.ndim
        axes = [a % nd for a in (axis if isinstance(axis, tuple) else (axis,))]
        new_axis = tuple(nd - 1 - a for a in axes) if isinstance(axis, tuple) else nd - 1 - axes[0]
    s = all_stats(data.T, None if err is None else err.T, new_axis, period, tval, False)
    for name in s:
        close(plain(s[name]).T, plain(base[name]), f"{name} of the transposed data", rtol=1e-6, atol=1e-6)
    # order of elements along the whole array
    perm = rng.permutation(data.size)
    a = all_stats(data.ravel(), None if err is None else err.ravel(), None, period, tval, False)
    b = all_stats(data.ravel()[perm], None if err is None else err.ravel()[perm], None, period, tval, False)
    if abs(phasor(list(data.ravel()), None, period)[0]) > 1e-3 and (err is None or case["kind"] in ("equal",)):
        for name in a:
            close(plain(a[name]), plain(b[name]), f"{name} of permuted data", rtol=1e-6, atol=1e-6)
    for name in ("mean", "rms", "err"):
        close(plain(a[name]), plain(b[name]), f"{name} of permuted data", **TOL)
    if case["kind"] == "equal":
        none = all_stats(data, None, axis, period, tval, False)
        for name in ("mean", "rms", "cmean"):
            close(plain(base[name]), plain(none[name]), f"{name} with equal errors", rtol=1e-6, atol=1e-6)
    return info(case, data)


@facet("C22", "sample_size", data_case(nans=True), quick=500, thorough=10000, rule="more than two values in a slice")
def check_size(case):
    data, err, axis, mask = unpack(case)
    usable = err is not None and case["kind"] in ("vary", "equal")
    w = stats.weights_from_errors(err, period=case["period"])
    require((w is None) == (not usable), f"weights with errors '{case['kind']}': {w}")
    if usable:
        close(w, 1 / (err * 2 * np.pi / case["period"]) ** 2, "weights", rtol=1e-10)
    if not usable:
        no = np.zeros(data.shape, dtype=bool)
        count = apply(lambda v, e: len(v), data, None, axis, no)
        close(plain(stats.effective_sample_size(data, None, axis)), np.maximum(count, 2), "sample size", rtol=1e-12)
        masked = apply(lambda v, e: len(v), data, None, axis, mask)
        got = stats.effective_sample_size(np.ma.array(data, mask=mask), None, axis)
        close(plain(got), np.maximum(masked, 2), "sample size of masked data", rtol=1e-12)
    else:
        ref = apply(lambda v, e: n_eff(len(v), [1 / x ** 2 for x in e]), data, err, axis, np.zeros(data.shape, dtype=bool))
        close(plain(stats.effective_sample_size(data, w, axis)), ref, "effective sample size", rtol=1e-9)
        close(plain(stats.unbias_variance(data, w, axis)), ref / (ref - 1), "unbias factor", rtol=1e-9)
    n = np.array([1.0, 2.0, 2.5, 3.0, 7.0, 30.0, 1000.0]) + case["err"][0]
    close(stats.t_value_correction(n), np.array([t_corr(x) for x in n]), "t value correction", rtol=1e-8)
    require(np.all(np.diff(stats.t_value_correction(n)) <= 1e-12), "small-sample correction grows with the sample size")
    return info(case, data)
