"""Reference fit statistics, from the documentation."""
import math
import numpy as np

SMALL = 1.0e-25


def noise2(level, ch, clamp):
    """Variance in ADU^2 of a pixel with that flux level: (flux + sky)/geff + ncomb*rn^2/geff^2."""
    gain, rn, texp, nc, sky = ch
    g = gain * texp * nc
    t = np.asarray(level, float) + sky
    if clamp:
        t = np.maximum(t, 0.0)
    return t / g + nc * rn * rn / g ** 2


def sigma2(kind, data, model, ch, err=None):
    if kind == "data":
        return noise2(data, ch, True)
    if kind == "model":
        return noise2(model, ch, False)
    if kind == "sigma":
        return np.asarray(err, float) ** 2
    if kind == "var":
        return np.asarray(err, float)
    if kind == "weight":
        with np.errstate(divide="ignore"):
            return 1.0 / np.asarray(err, float)
    raise ValueError(kind)


def terms(kind, data, model, ch, err=None):
    """Per-pixel terms, before masking: the statistic is the sum over unmasked pixels."""
    data, model = np.asarray(data, float), np.asarray(model, float)
    if kind in ("cash", "pmlr"):
        gain, rn, texp, nc, sky = ch
        g = gain * texp * nc
        m, d = g * (model + sky), g * (data + sky)
        with np.errstate(all="ignore"):
            lm = np.where(m <= 0, SMALL, np.log(np.where(m <= 0, 1.0, m)))
            t = m - d * lm
            if kind == "pmlr":
                t = t + np.where(d > 0, d * np.log(np.where(d > 0, d, 1.0)) - d, 0.0)
            mag = np.abs(m) + np.abs(d * lm) + (np.where(d > 0, np.abs(d * np.log(np.where(d > 0, d, 1.0))) + np.abs(d), 0.0) if kind == "pmlr" else 0)
        return 2 * t, 2 * mag
    if kind == "weight":
        t = np.asarray(err, float) * (data - model) ** 2
        mag = np.asarray(err, float) * (np.abs(data) + np.abs(model)) ** 2
        return t, np.maximum(t, 1e-6 * mag)
    s2 = sigma2(kind, data, model, ch, err)
    with np.errstate(all="ignore"):
        t = (data - model) ** 2 / s2
        mag = (np.abs(data) + np.abs(model)) ** 2 / s2
    return t, np.maximum(t, 1e-6 * mag)


def stat(kind, data, model, ch, err=None, good=None, dm=0.0):
    """-> (value, absolute tolerance) given that the model image may be off by dm per pixel."""
    t, mag = terms(kind, data, model, ch, err)
    good = np.ones(t.shape, bool) if good is None else good
    val = math.fsum(t[good].ravel())
    tol = 1e-11 * float(np.sum(mag[good])) + 1e-300
    if np.any(dm):
        for sgn in (1, -1):
            u, _ = terms(kind, data, np.asarray(model, float) + sgn * dm, ch, err)
            tol += float(np.sum(np.abs(u[good] - t[good])))
    return val, tol


def aic(stat_, nfree, n):
    return stat_ + 2 * nfree + 2.0 * nfree * (nfree + 1.0) / (n - nfree - 1.0)


def bic(stat_, nfree, n):
    return stat_ + nfree * math.log(n)
