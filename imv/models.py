"""Setting up library models through the worker, and reference images."""
import numpy as np
from . import gens, ref


def grid(nx, ny):
    """IRAF pixel coordinates: x = column, y = row, both 1-based; shape (ny, nx)."""
    return np.meshgrid(np.arange(1, nx + 1, dtype=float), np.arange(1, ny + 1, dtype=float))


def setup(w, mid, nx, ny, cfg, psf=None, norm=True, subsample=True, data=None, chars=None, osamp=(), mask=None, mfmt=10, err=None, errtype=100,
          stat=None, limits=False, threads=None, chunk=None, fit=None, offsets=None):
    """psf/data/mask/err: (rows, cols) arrays.  osamp: list of dict(psf, scale, region, norm, xoff, yoff)."""
    w.call("mnew", mid)
    if threads is not None:
        w.call("mthreads", mid, threads)
    if chunk is not None:
        w.call("mchunk", mid, chunk)
    if psf is not None:
        psf = np.asarray(psf, float)
        w.call("mpsf", mid, psf.shape[1], psf.shape[0], int(norm), psf)
    if data is not None:
        w.call("mdata", mid, nx, ny, data)
    else:
        w.call("mimage", mid, nx, ny)
    if chars is not None:
        w.call("mchars", mid, float(chars[0]), float(chars[1]), float(chars[2]), int(chars[3]), float(chars[4]))
    for o in osamp:
        p = np.asarray(o["psf"], float)
        w.call("mosamp", mid, o["scale"], p.shape[1], p.shape[0], int(o.get("norm", True)), o.get("xoff", 0), o.get("yoff", 0), o["region"].encode(), p)
    if mask is not None:
        w.call("mmask", mid, mfmt, mask)
    if stat:
        w.call("mstat", mid, stat)
    if err is not None:
        w.call("merr", mid, errtype, err)
    n, lf, params = w.call("mconf", mid, int(subsample), int(limits), cfg.encode() if isinstance(cfg, str) else cfg)
    if limits:
        w.call("mpinfo", mid, *(offsets or (0, 0)))
    fit = data is not None if fit is None else fit
    w.call("mfinal" if fit else "mfinalmodel", mid)
    return params


def image(w, mid, params, nx, ny):
    return w.call("mimg", mid, params)[0].reshape(ny, nx)


def single(w, mid, params, k, nx, ny):
    return w.call("msingle", mid, k, params)[0].reshape(ny, nx)


def free(w, mid):
    w.call("mfree", mid)


def term(w, name, p, x0, y0, nx, ny, subsample, box=None):
    """The code's own value of one function at every pixel; box=(x_lo, y_lo) shifts the grid."""
    X, Y = grid(nx, ny)
    if box:
        X, Y = X + box[0] - 1, Y + box[1] - 1
    v = w.call("fval", int(subsample), 1.0, 0.0, 1.0, name.encode(), p, [x0, y0], np.stack([X.ravel(), Y.ravel()], 1))[3]
    return v.reshape(ny, nx)


def terms(w, sets, nx, ny, subsample, box=None):
    out = []
    for x0, y0, fs in sets:
        for f in fs:
            out.append(term(w, f[0], f[1], x0, y0, nx, ny, subsample, box))
    return out


def scale_of(ts):
    """Largest absolute value over the summed terms, for absolute tolerances of a sum."""
    return max([float(np.max(np.abs(t))) if t.size else 0.0 for t in ts] + [0.0])
