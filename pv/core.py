"""
Core of the checks: facets, deciding procedure (generated-input search), oracles' helpers.

A property consists of facets. A facet has a Hypothesis strategy producing JSON-able cases and a deterministic
function ``check(case)`` which drives the code under test and raises ``Violation`` if the oracle disagrees.
``check`` returns ``Info(nontrivial, labels)``. All random numbers of the code under test are seeded from the case.
"""
import contextlib
import hashlib
import json
import os
import sys
import traceback

import numpy as np

REPO = os.path.abspath(os.environ.get("PV_REPO", "/repo"))  # another tree only for trying out seeded changes


class Violation(Exception):
    """The code under test broke the property for the given case."""


class Known(Exception):
    """The case hits exactly a listed known finding: excluded (and counted), the search goes on."""

    def __init__(self, key):
        super().__init__(key)
        self.key = key


class Discard(Exception):
    """The case is outside of the domain of the property (counted, not evaluated)."""


class Info:
    def __init__(self, nontrivial=True, *labels):
        self.nontrivial = bool(nontrivial)
        self.labels = [str(label) for label in labels if label]


class Facet:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, regress, shards=None):
        self.shards = shards  # number of parallel workers in the quick tier
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule, self.regress = quick, thorough, rule, regress


REGISTRY = {}


def facet(prop, name, strategy, quick, thorough=None, rule="", regress=(), shards=None):
    def wrap(fun):
        facets = REGISTRY.setdefault(prop, {})
        assert name not in facets
        facets[name] = Facet(prop, name, strategy, fun, quick, thorough or 20 * quick, rule, list(regress), shards)
        return fun
    return wrap


# ---------------------------------------------------------------- execution of one case

def canonical(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha1(canonical(case).encode()).hexdigest()[:16]


def from_repo(exc):
    """True if the exception passed through a frame of the code under test."""
    while exc is not None:
        for frame in traceback.extract_tb(exc.__traceback__):
            if os.path.abspath(frame.filename).startswith(REPO + "/pySC"):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def execute(fct, case):
    """Runs one case. Returns Info, raises Violation (property broken), Discard, Known, or anything else (harness error)."""
    case = json.loads(canonical(case))  # the check sees exactly what a replay would see
    np.random.seed(int(case_hash(case)[:8], 16))
    try:
        info = fct.check(case)
    except (Violation, Discard, Known):
        raise
    except Exception as exc:
        if from_repo(exc):
            tail = traceback.format_exception_only(type(exc), exc)[-1].strip()
            where = [f for f in traceback.extract_tb(exc.__traceback__) if f.filename.startswith(REPO)]
            loc = f"{where[-1].filename}:{where[-1].lineno}" if where else "?"
            raise Violation(f"unexpected exception on valid input: {tail} at {loc}") from exc
        owner = type(getattr(exc, "obj", None))
        if isinstance(exc, AttributeError) and (owner.__module__ or "").split(".")[0] in ("at", "pySC"):
            raise Violation(f"missing in the machine: {exc}") from exc  # a field every machine of this kind has
        raise
    return info if info is not None else Info()


@contextlib.contextmanager
def sut(what):
    """Objects produced by the code under test are used here: any failure is the fault of the code under test."""
    try:
        yield
    except (Violation, Discard, Known):
        raise
    except Exception as exc:
        raise Violation(f"{what}: {type(exc).__name__}: {exc}") from exc


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def raises(types, what, fun, *args, **kwargs):
    """The call has to raise one of the given exception types."""
    try:
        fun(*args, **kwargs)
    except types:
        return
    except Exception as exc:
        raise Violation(f"{what}: raised {type(exc).__name__} ({exc}) instead of {types}") from exc
    raise Violation(f"{what}: not rejected")


# ---------------------------------------------------------------- comparisons

def close(actual, expected, what, rtol=1e-9, atol=1e-12, nan_ok=True):
    try:
        a, e = np.asarray(actual, dtype=float), np.asarray(expected, dtype=float)
    except Exception as exc:
        raise Violation(f"{what}: not numeric: {actual!r} ({exc})")
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {e.shape}")
    if a.size == 0:
        return
    na, ne = np.isnan(a), np.isnan(e)
    if np.any(na != ne) or (not nan_ok and np.any(na)):
        raise Violation(f"{what}: NaN pattern differs: {_short(a)} instead of {_short(e)}")
    with np.errstate(invalid="ignore"):
        diff = np.where(na | (a == e), 0.0, np.abs(a - e))
        tol = np.where(ne, 0.0, np.abs(np.where(np.isfinite(e), e, 0.0)) * rtol) + atol
    if np.any(~(diff <= tol)):
        worst = np.unravel_index(np.argmax(np.where(np.isnan(diff), np.inf, diff - tol)), a.shape)
        raise Violation(f"{what}: {a[worst]!r} instead of {e[worst]!r} at {tuple(int(w) for w in worst)} "
                        f"(tolerance {tol[worst]:.3g})")


def equal(actual, expected, what):
    close(actual, expected, what, rtol=0.0, atol=0.0)


def _short(a, n=8):
    return np.array2string(np.ravel(a)[:n], precision=4)


# ---------------------------------------------------------------- snapshots of arbitrary state

def freeze(obj, depth=0):
    """Deep, comparable copy of a value: arrays are copied, containers and objects with public attributes walked."""
    if depth > 12:
        return repr(type(obj))
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ["objarr"] + [freeze(o, depth + 1) for o in obj.ravel()]
        return np.array(obj, copy=True)
    if isinstance(obj, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        return obj
    if isinstance(obj, dict):
        return {("k", _key(k)): freeze(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [freeze(v, depth + 1) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted(repr(o) for o in obj)
    return repr(type(obj)) if not hasattr(obj, "__dict__") else f"obj:{type(obj).__name__}"


def _key(k):
    return int(k) if isinstance(k, (int, np.integer)) and not isinstance(k, bool) else str(k)


def freeze_element(el):
    out = {k: freeze(v) for k, v in vars(el).items() if not k.startswith("_")}
    out["<class>"] = type(el).__name__
    if out["<class>"] != "RFCavity":  # AT notes the beam energy in radiating elements when tracking
        out.pop(("k", "Energy"), None)
        out.pop("Energy", None)
    return out


def freeze_ring(ring):
    out = {i: freeze_element(el) for i, el in enumerate(ring)}
    for key in ("energy", "periodicity", "name", "particle"):
        if hasattr(ring, key):
            out[key] = str(getattr(ring, key))
    return out


INJ_FIELDS = ("beamLostAt", "Z0ideal", "Z0", "beamSize", "randomInjectionZ", "staticInjectionZ", "nParticles", "nTurns",
              "nShots", "trackMode")


def freeze_sc(SC, parts=("RING", "IDEALRING", "INJ", "SIG", "ORD", "plot")):
    out = {}
    with sut("machine state"):
        if "RING" in parts:
            out["RING"] = freeze_ring(SC.RING)
        if "IDEALRING" in parts:
            out["IDEALRING"] = freeze_ring(SC.IDEALRING)
        if "INJ" in parts:
            out["INJ"] = {k: freeze(getattr(SC.INJ, k)) for k in INJ_FIELDS}
            out["INJ"]["postFun"] = id(SC.INJ.postFun) if not hasattr(SC.INJ.postFun, "__func__") else id(SC.INJ.postFun.__func__)
        if "SIG" in parts:
            out["SIG"] = freeze(dict(SC.SIG))
        if "ORD" in parts:
            out["ORD"] = freeze(dict(SC.ORD))
        if "plot" in parts:
            out["plot"] = SC.plot
    return out


def diff(a, b, path="", rtol=0.0, atol=0.0):
    """First difference of two frozen values, '' if none."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a.keys()) + [k for k in b.keys() if k not in a]:
            name = k[1] if isinstance(k, tuple) else k
            if k not in a:
                return f"{path}.{name} appeared"
            if k not in b:
                return f"{path}.{name} disappeared"
            if d := diff(a[k], b[k], f"{path}.{name}", rtol, atol):
                return d
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path} length {len(a)} -> {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := diff(x, y, f"{path}[{i}]", rtol, atol):
                return d
        return ""
    num = (np.ndarray, int, float, np.generic, complex)
    if isinstance(a, num) and isinstance(b, num):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"{path} shape {x.shape} -> {y.shape}"
        if x.dtype.kind in "biufc" and y.dtype.kind in "biufc":
            with np.errstate(invalid="ignore"):
                ok = (x == y) | ((x != x) & (y != y))
                if (rtol or atol) and not (x.dtype.kind == "b" or y.dtype.kind == "b"):
                    ok = ok | (np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y)))
            if not np.all(ok):
                return f"{path} {_short(x)} -> {_short(y)}"
            return ""
        return "" if np.array_equal(x, y) else f"{path} {x!r} -> {y!r}"
    if type(a) is not type(b) or a != b:
        return f"{path} {a!r} -> {b!r}"
    return ""


def unchanged(before, after, what, rtol=0.0, atol=0.0):
    if d := diff(before, after, "", rtol, atol):
        raise Violation(f"{what}: changed{d}")


def quiet():
    """No logs, no numerical warnings, no interactive plots."""
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def assert_repo():
    import pySC
    path = os.path.abspath(pySC.__file__)
    if not path.startswith(REPO + "/"):
        print(f"harness error: pySC imported from {path}", file=sys.stderr)
        sys.exit(2)
