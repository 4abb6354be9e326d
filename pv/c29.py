"""C29: truncated random numbers, element search, settings containers."""
import copy
import pickle

import at
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pv import lat
from pv.core import Info, equal, facet, fail, freeze, raises, require, unchanged
from pySC.core.classes import DotDict, Indices, Injection, Sigmas
from pySC.utils.sc_tools import ords_from_regex, randnc

CUTS = st.sampled_from([2, 1, 3, 0.5, 0.1, 0.01, 1.5, 5, 10, -2, -1, float("inf")])


@st.composite
def shape_case(draw):
    shape = draw(st.one_of(st.just([]), st.lists(st.integers(1, 7), min_size=1, max_size=4), st.lists(st.integers(-3, 4), min_size=1, max_size=3)))
    return dict(cut=draw(CUTS), shape=shape, default=draw(st.sampled_from([0, 0, 1, 2])), form=draw(st.sampled_from(["tuple", "list", "array"])))


@facet("C29", "random_shape", shape_case(), quick=2000, thorough=50000, rule="valid shape")
def check_shape(case):
    shape = tuple(case["shape"])
    if any(s < 0 for s in shape):
        raises(ValueError, f"shape {shape}", randnc, case["cut"], shape)
        return Info(False, "negative")
    if any(s == 0 for s in shape):
        if np.sum(shape) == 0:
            return Info(False)
        require(randnc(case["cut"], shape).shape == shape, f"empty shape {shape}")
        return Info(True, "empty")
    cut = case["cut"]
    if case["default"] == 1:
        x, shape = randnc(cut), (1,)
    elif case["default"] == 2:
        x, shape, cut = randnc(shape=shape), shape, 2
    else:
        x = randnc(cut, dict(tuple=shape, list=list(shape), array=np.array(shape, dtype=int))[case["form"]] if shape else ())
    if shape == ():
        require(np.ndim(x) == 0 and isinstance(float(x), float), "single number")
    else:
        require(isinstance(x, np.ndarray) and x.shape == shape, f"shape {np.shape(x)} instead of {shape}")
    require(np.all(np.isfinite(x)) and np.all(np.abs(x) <= abs(cut)), "number exceeds the cutoff")
    require(len(np.unique(x)) == np.size(x), "repeated numbers")
    return Info(True, f"dim {len(shape)}")


@st.composite
def dist_case(draw):
    return dict(cut=draw(CUTS.filter(lambda c: c >= 0.05)), calls=draw(st.sampled_from([1, 20, 2000])), scalar=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 9)))


@facet("C29", "random_distribution", dist_case(), quick=40, thorough=600, rule="20000 numbers")
def check_distribution(case):
    n, k = 20000, case["calls"]
    cut = case["cut"]
    if case["scalar"] and k == 2000:
        n = 4000
        x = np.array([randnc(cut, ()) for _ in range(n)])
    else:
        x = np.concatenate([randnc(cut, (n // k // 2, 2)).ravel() if n // k > 1 else randnc(cut) for _ in range(k)])
    p = stats.kstest(x, stats.truncnorm(-cut, cut).cdf if np.isfinite(cut) else stats.norm.cdf).pvalue
    require(p > 1e-9, f"numbers with cutoff {cut} do not follow the truncated normal distribution (p={p:.2g}, rms {np.std(x):.3f})")
    for lag in (1, 2, 5):
        r = np.corrcoef(x[:-lag], x[lag:])[0, 1]
        require(abs(r) < 7 / np.sqrt(n), f"numbers are correlated ({r:.2f} at lag {lag})")
    require(np.max(np.abs(x)) > 0.9 * min(cut, 3), f"largest of {n} numbers is {np.max(np.abs(x))}")
    return Info(True)


@facet("C29", "random_seed", st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 31), shapes=st.lists(st.lists(st.integers(1, 4), max_size=2), min_size=1, max_size=4), cut=CUTS)), quick=300, thorough=3000, rule="every case")
def check_seed(case):
    out = []
    for _ in range(2):
        np.random.seed(case["seed"])
        out.append([randnc(case["cut"], tuple(s)) for s in case["shapes"]])
    for a, b in zip(*out):
        equal(a, b, "numbers for the same seed")
    return Info(True)


# ---------------------------------------------------------------------------------------- element search

CHARS = "QFDB_01a "


@st.composite
def regex_case(draw):
    names = draw(st.lists(st.text(CHARS, max_size=5), min_size=1, max_size=15))
    alts = draw(st.lists(st.fixed_dictionaries(dict(start=st.booleans(), end=st.booleans(), body=st.lists(st.one_of(st.sampled_from(CHARS), st.just("."), st.just("[QD]"), st.just("[^QD]"), st.just("\\d")), max_size=3))), min_size=1, max_size=3))
    return dict(names=names, alts=alts)


def char_match(tok, c):
    return dict([(".", True), ("[QD]", c in "QD"), ("[^QD]", c not in "QD"), ("\\d", c in "01")]).get(tok, tok == c)


def matches(alt, name):
    n = len(alt["body"])
    for i in range(len(name) - n + 1):
        if alt["start"] and i > 0 or alt["end"] and i + n < len(name):
            continue
        if all(char_match(t, c) for t, c in zip(alt["body"], name[i:i + n])):
            return True
    return False


@facet("C29", "regex", regex_case(), quick=2000, thorough=40000, rule="some but not all elements match")
def check_regex(case):
    ring = at.Lattice([at.Drift(n, 1.0) for n in case["names"]], energy=1e9, periodicity=1)
    regex = "|".join(("^" if a["start"] else "") + "".join(a["body"]) + ("$" if a["end"] else "") for a in case["alts"])
    want = [i for i, n in enumerate(case["names"]) if any(matches(a, n) for a in case["alts"])]
    got = ords_from_regex(ring, regex)
    require(isinstance(got, np.ndarray) and got.dtype.kind == "i" and got.ndim == 1, "array of integers")
    require(got.tolist() == want, f"{regex} in {case['names']}: {got.tolist()} instead of {want}")
    require([e.FamName for e in ring] == case["names"], "names changed")
    return Info(0 < len(want) < len(case["names"]))


# ---------------------------------------------------------------------------------------- containers

KEYS = ["a", "b", "c", "BPM", "Offset", "_x", "x1"]
VALUE = st.one_of(st.integers(-5, 5), st.text("ab", max_size=2), st.none(), st.lists(st.integers(0, 3), max_size=2))
TREE = st.recursive(VALUE, lambda sub: st.dictionaries(st.sampled_from(KEYS), sub, max_size=3), max_leaves=8)


@st.composite
def dict_case(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(["setattr", "setitem", "delattr", "delitem", "getattr", "getitem", "path", "hasattr", "copy", "in"]), st.sampled_from(KEYS), VALUE, st.lists(st.sampled_from(KEYS), max_size=3)).map(list), min_size=1, max_size=12))
    return dict(tree=draw(st.dictionaries(st.sampled_from(KEYS), TREE, max_size=4)), ops=ops, how=draw(st.sampled_from(["dict", "kwargs", "pairs"])), kind=draw(st.sampled_from(["DotDict", "DotDict", "Indices", "Sigmas"])))


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, DotDict) and set(a.keys()) == set(b.keys()) and all(same(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


@facet("C29", "containers", dict_case(), quick=2000, thorough=40000, rule="at least two changes or a nested access")
def check_containers(case):
    model = copy.deepcopy(case["tree"])
    src = copy.deepcopy(case["tree"])
    base = {}
    if case["kind"] == "DotDict":
        d = DotDict(src) if case["how"] == "dict" else (DotDict(**src) if case["how"] == "kwargs" else DotDict(list(src.items())))
    else:
        d = dict(Indices=Indices, Sigmas=Sigmas)[case["kind"]]()
        base = {k: freeze(v) for k, v in d.items() if k != "BPM"}
        d.pop("BPM")
        for k, v in src.items():
            d[k] = DotDict(v) if isinstance(v, dict) else v
    own = lambda: {k: v for k, v in d.items() if k not in base}  # noqa: E731
    n, nested, copies = 0, 0, []
    for op, key, value, path in case["ops"]:
        if op == "setattr":
            setattr(d, key, value)
            model[key], n = value, n + 1
        elif op == "setitem":
            d[key] = value
            model[key], n = value, n + 1
        elif op in ("delattr", "delitem"):
            if key in model:
                delattr(d, key) if op == "delattr" else d.pop(key)
                del model[key]
                n += 1
            elif op == "delitem":
                raises(KeyError, f"deletion of the missing key {key}", d.__delitem__, key)
        elif op == "getattr":
            if key in model:
                require(same(getattr(d, key), model[key]), f"attribute {key}: {getattr(d, key)!r} instead of {model[key]!r}")
                require(getattr(d, key) is d[key], f"attribute and key {key} are different objects")
            else:
                raises(AttributeError, f"missing attribute {key}", getattr, d, key)
                require(getattr(d, key, 17) == 17, "default of a missing attribute")
        elif op == "getitem":
            if key in model:
                require(same(d[key], model[key]), f"key {key}")
            else:
                raises(KeyError, f"missing key {key}", d.__getitem__, key)
        elif op == "in":
            require((key in d) == (key in model), f"{key} in container")
        elif op == "hasattr":
            require(hasattr(d, key) == (key in model), f"hasattr {key}")
        elif op == "path":
            m, o, i = model, d, 0
            while i < len(path) and isinstance(m, dict) and path[i] in m:
                m, o, i = m[path[i]], getattr(o, path[i]), i + 1
                nested += i > 1
            require(i == 0 or same(o, m), f"nested access {path[:i]}")
            if i < len(path) and isinstance(m, dict):
                raises(AttributeError, f"missing nested attribute {path[:i + 1]}", getattr, o, path[i])
                setattr(o, path[i], value)  # set through attributes of the nested container
                m[path[i]] = value
                require(o[path[i]] == value, "nested set")
        elif op == "copy":
            c = d.deepcopy() if len(copies) % 2 else copy.deepcopy(d)
            require(type(c) is type(d), f"copy is of type {type(c)}")
            copies.append((c, copy.deepcopy(model)))
        require(same(DotDict(own()), model), f"content {own()} instead of {model} after {op} {key}")
    for c, m in copies:
        require(same(DotDict({k: v for k, v in c.items() if k not in base}), m), "copy follows later changes")
    unchanged(base, {k: freeze(v) for k, v in d.items() if k in base}, "other entries of the container")
    return Info(n > 1 or nested, case["kind"], "nested" if nested else "")


@facet("C29", "fresh", st.fixed_dictionaries(dict(kind=st.sampled_from(["Indices", "Sigmas", "Injection"]), ord=st.integers(0, 50), v=st.integers(1, 5))), quick=100, thorough=500, rule="every case")
def check_fresh(case):
    """two containers share nothing"""
    cls = dict(Indices=Indices, Sigmas=Sigmas, Injection=Injection)[case["kind"]]
    a, b, c = cls(), cls(), cls()
    items = lambda o: dict(o) if isinstance(o, dict) else {k: v for k, v in vars(o).items() if not callable(v)}  # noqa: E731
    for k, v in items(a).items():
        if isinstance(v, np.ndarray):
            v[...] = case["v"]
        elif isinstance(v, dict):
            v[case["ord"]] = case["v"]
    unchanged(freeze(items(c)), freeze(items(b)), f"{case['kind']} after a change of another one")
    if case["kind"] == "Indices":
        require(a.CM[0] is a.HCM and a.CM[1] is a.VCM, "correctors")
    return Info(True, case["kind"])


@st.composite
def mode_case(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.just("mode"), st.sampled_from(["TBT", "ORB", "PORB", "orb", "", "TbT", "ORBIT", "O", "TBTORB", None, 1])), st.tuples(st.sampled_from(["turns", "particles", "shots"]), st.integers(1, 50))).map(list), min_size=1, max_size=10))
    return dict(ops=ops)


@facet("C29", "tracking_mode", mode_case(), quick=800, thorough=10000, rule="closed-orbit mode set or a mode rejected")
def check_mode(case):
    inj = Injection()
    m = dict(mode="TBT", turns=1, particles=1, shots=1)
    hit = False
    for k, v in case["ops"]:
        if k == "mode":
            if v in ("TBT", "ORB", "PORB"):
                inj.trackMode = v
                m["mode"] = v
                if v == "ORB":
                    hit, m["turns"], m["particles"] = True, 1, 1
            else:
                raises(AttributeError, f"tracking mode {v!r}", setattr, inj, "trackMode", v)
                hit = True
        else:
            setattr(inj, dict(turns="nTurns", particles="nParticles", shots="nShots")[k], v)
            m[k] = v
        got = dict(mode=inj.trackMode, turns=inj.nTurns, particles=inj.nParticles, shots=inj.nShots)
        require(got == m, f"injection settings {got} instead of {m}")
        c = copy.deepcopy(inj)
        require(dict(mode=c.trackMode, turns=c.nTurns, particles=c.nParticles, shots=c.nShots) == m, "copied injection settings")
    return Info(hit)
