"""Hypothesis strategies: parameters, models, configuration texts."""
import math
from hypothesis import strategies as st
from . import ref


def fl(lo, hi, special=(), digits=None):
    s = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)
    s = s.map(lambda v: float("%.6g" % v) if digits is None else float(("%%.%dg" % digits) % v))
    s = s.map(lambda v: min(max(v, lo), hi))
    if special:
        return st.one_of(st.sampled_from([float(x) for x in special]), s, s)
    return s


def logfl(lo, hi, special=()):
    s = st.floats(math.log(lo), math.log(hi)).map(lambda v: float("%.6g" % math.exp(v)))
    if special:
        return st.one_of(st.sampled_from([float(x) for x in special]), s, s)
    return s


KIND = {
    "PA": fl(-400, 400, (0, 90, 180, 45, -90, 270, 359.99, 30)),
    "ell": fl(0, 0.95, (0, 0.5, 0.25, 0.9)),
    "ell8": fl(0, 0.8, (0, 0.5)),
    "I": logfl(1e-3, 1e5, (1, 100)),
    "S": fl(-1e3, 1e4, (0, 1, -5)),
    "R": logfl(0.2, 60, (1, 0.5, 5, 10)),
    "R3": logfl(2, 30, (5, 10)),
    "Rz": logfl(0.7, 5, (1, 2)),
    "rb": logfl(0.05, 20, (1, 0.5)),
    "c0": fl(-0.95, 4, (0, 1, -0.5, 2)),
    "sersicn": logfl(0.12, 12, (1, 4, 0.5, 0.36, 0.3601, 0.35, 10)),
    "alphacs": logfl(0.5, 30, (1, 5, 10)),
    "gamma": fl(0, 1.2, (0, 0.5)),
    "alpha": logfl(0.02, 20, (1, 5, 10)),
    "beta": logfl(0.6, 12, (1, 2.5, 4.765)),
    "kingalpha": logfl(0.5, 5, (2, 1)),
    "kingc": logfl(1.05, 50, (5, 10)),
    "slope": fl(-5, 5, (0, 1)),
    "ferrersn": fl(0, 8, (0, 1, 2, 0.5)),
    "ferrersn3": fl(1, 6, (1, 2)),
    "dpa": fl(3, 90, (10, 30, 90)),
    "unit": fl(0, 2, (0, 1, 0.5)),
    "vertn": logfl(0.5, 60, (1, 2, 50)),
    "inc": fl(0, 90, (0, 90, 45, 60, 89)),
    "axratio": fl(0.2, 1.0, (1, 0.5)),
    "cbar": fl(1.2, 4, (2, 3)),
}
ALLF = list(ref.F)
FAST = [f for f in ALLF if f not in ref.THREED]


@st.composite
def func_params(draw, name, kinds=None):
    K = dict(KIND)
    if kinds:
        K.update(kinds)
    spec = ref.SPEC.get(name) or ref.POINT[name]
    p = [draw(K[k]) for _, k in spec]
    if name == "ModifiedKing":
        p[4] = max(p[4], p[3] * 1.05)
    if name == "Core-Sersic":            # the break radius lies inside the effective radius
        p[2] = max(p[2], 0.3)
        p[5] = min(p[5], p[4])
    return p


@st.composite
def function(draw, names=None, kinds=None):
    n = draw(st.sampled_from(names or ALLF))
    return [n, draw(func_params(n, kinds))]


@st.composite
def model(draw, nx, ny, names=None, max_sets=3, max_funcs=3, margin=4.0, kinds=None, total=None):
    """Function sets: list of [x0, y0, [[name, params], ...]]"""
    ns = draw(st.integers(1, max_sets))
    sets = []
    left = total or 99
    for _ in range(ns):
        if left <= 0:
            break
        x0 = draw(st.one_of(fl(1 - margin, nx + margin), st.integers(1, max(1, nx)).map(float), st.integers(1, max(1, nx)).map(lambda v: v + 0.5)))
        y0 = draw(st.one_of(fl(1 - margin, ny + margin), st.integers(1, max(1, ny)).map(float), st.integers(1, max(1, ny)).map(lambda v: v - 0.5)))
        fs = draw(st.lists(function(names, kinds), min_size=1, max_size=min(max_funcs, left)))
        left -= len(fs)
        sets.append([x0, y0, fs])
    return sets


def pnames(name):
    return [n for n, _ in (ref.SPEC.get(name) or ref.POINT[name])]


def num(v):
    return repr(float(v))


def flat_params(sets):
    out = []
    for x0, y0, fs in sets:
        out += [x0, y0]
        for f in fs:
            out += list(f[1])
    return out


def param_labels(sets):
    out = []
    for _, _, fs in sets:
        out += ["X0", "Y0"]
        for f in fs:
            out += pnames(f[0])
    return out


def config(sets, limits=None, header=(), labels=None):
    """Plain configuration text; limits: list aligned with flat_params of None / 'fixed' / (lo, hi)."""
    L = list(header)
    k = 0

    def lim():
        nonlocal k
        l = limits[k] if limits else None
        k += 1
        if l is None:
            return ""
        if l == "fixed":
            return "  fixed"
        return "  %s,%s" % (num(l[0]), num(l[1]))
    j = 0
    for x0, y0, fs in sets:
        L.append("X0  %s%s" % (num(x0), lim()))
        L.append("Y0  %s%s" % (num(y0), lim()))
        for f in fs:
            n, p = f[0], f[1]
            L.append("FUNCTION %s%s" % (n, ("  # LABEL " + labels[j]) if labels and labels[j] else ""))
            j += 1
            for pn, v in zip(pnames(n), p):
                L.append("%s  %s%s" % (pn, num(v), lim()))
            if len(f) > 2 and f[2]:
                L.append("OPTIONAL_PARAMS_START")
                for a, b in f[2].items():
                    L.append("%s  %s" % (a, b))
                L.append("OPTIONAL_PARAMS_END")
    return "\n".join(L) + "\n"
