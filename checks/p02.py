"""P02: every image function evaluates its documented brightness profile."""
import numpy as np
from hypothesis import strategies as st
from imv import ref, gens
from imv.harness import Component, require, close, Violation



def tiny(v):
    return 0.0 if abs(v) < 1e-6 else v


pt = st.tuples(gens.fl(-1, 1, (0, 1, -1, 0.5)), gens.fl(-1, 1, (0, 1, -1, 0.5)))


@st.composite
def case(draw, names, npts):
    n, p = draw(gens.function(names))
    if n == "GaussianRing3D":        # documented as a ring: width and thickness small against its radius
        p[6] = min(p[6], p[5] / 5)
        p[7] = min(p[7], p[5] / 8)
    scale = draw(st.sampled_from([1.0, 3.0, 10.0, 30.0, 100.0]))
    pts = draw(st.lists(pt, min_size=2, max_size=npts))
    xc = draw(gens.fl(-50, 500, (0, 1, 100)))
    yc = draw(gens.fl(-50, 500, (0, 1, 100)))
    return dict(f=n, p=p, scale=scale, pts=[[tiny(v) for v in q] for q in pts], xc=xc, yc=yc)


def xy(c):
    P = np.array(c["pts"], float) * c["scale"]
    # off-centre positions used by the code are x - xc computed in doubles: do the same
    x, y = c["xc"] + P[:, 0], c["yc"] + P[:, 1]
    return x, y, x - c["xc"], y - c["yc"]


LOSLIM = {"ExponentialDisk3D": lambda p: 20 * p[3], "BrokenExponentialDisk3D": lambda p: max(20 * p[5], 20 * p[4]), "GaussianRing3D": lambda p: 2 * p[5],
          "FerrersBar3D": lambda p: 1.01 * p[4], "DattathriPeanut3D": lambda p: 10 * p[4]}


def run_los(ctx, c):
    """Line-of-sight integrals: the exact integral, or what standard adaptive quadrature (QUADPACK QAGS at the requested 1e-6) makes of it."""
    name, p = c["f"], c["p"]
    x, y, dx, dy = xy(c)
    got = ctx.worker().call("fval", 0, 1.0, 0.0, 1.0, name.encode(), p, [c["xc"], c["yc"]], np.stack([x, y], 1))[3]
    want = ref.value(name, p, dx, dy)
    mid = abs(float(ref.value(name, p, [0.0], [0.0])[0]))
    peak = max(float(np.max(np.abs(want))), mid)
    if name == "GaussianRing3D":
        peak = max(peak, p[4] * p[7])
    atol = 1e-6 * peak + 1e-280
    ctx.note(tag=name, nontrivial=bool(np.any(np.abs(want) > 1e-3 * peak)))
    err = np.abs(got - want)
    bad = ~(err <= 2e-4 * np.abs(want) + atol)
    if not bad.any():
        return
    loose = 0.03 if name in ("GaussianRing3D", "DattathriPeanut3D") else 1e-3
    n = 0
    for k in np.where(bad)[0]:
        with ref.adaptive(LOSLIM[name](p)):
            q = float(ref.value(name, p, dx[k:k + 1], dy[k:k + 1])[0])
        if abs(got[k] - q) <= 2e-4 * abs(q) + atol:
            ctx.note(tag="adaptive")
            continue
        n += 1
        if name == "FerrersBar3D":       # a short grazing chord can fall between quadrature nodes
            atol = 0.02 * peak
        require(err[k] <= loose * abs(want[k]) + atol, "%s%s at offset (%r, %r): value %.10g, line-of-sight integral %.10g (adaptive quadrature %.10g)", name, p, dx[k], dy[k], got[k], want[k], q)
    require(n < 4, "%s%s: all offsets differ from the line-of-sight integral: got %s want %s", name, p, got, want)


def run_center(ctx, c):
    name, p = c["f"], c["p"]
    x, y, dx, dy = xy(c)
    can, tf, bg, got = ctx.worker().call("fval", 0, 1.0, 0.0, 1.0, name.encode(), p, [c["xc"], c["yc"]], np.stack([x, y], 1))
    want = ref.value(name, p, dx, dy)
    peak = float(np.max(np.abs(want))) if len(want) else 0.0
    mid = abs(float(ref.value(name, p, [0.0], [0.0])[0]))
    rtol, atol = 1e-9, 1e-50 * max(peak, mid) + 1e-280
    ctx.note(tag=name)
    if name in ("FerrersBar2D", "ModifiedKing", "ModifiedKing2", "GaussianRing2Side", "EdgeOnRing2Side", "FlatBar"):
        # piecewise definitions: at a rounding distance from the break either side is right
        eps = 1e-9
        alts = [ref.value(name, p, dx * (1 + s) , dy * (1 + s)) for s in (-eps, eps)]
        lo = np.minimum(np.minimum(alts[0], alts[1]), want)
        hi = np.maximum(np.maximum(alts[0], alts[1]), want)
        tol = 1e-7 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-280
        bad = ~((got >= lo - tol) & (got <= hi + tol))
        if bad.any():
            k = int(np.argmax(bad))
            raise Violation("%s%s at offset (%r, %r): value %.15g, documented profile %.15g" % (name, p, dx[k], dy[k], got[k], want[k]))
    else:
        close(got, want, rtol, atol, "%s%s at offsets %s" % (name, p, list(zip(dx.tolist(), dy.tolist()))[:4]))
    ctx.note(nontrivial=bool(np.any(np.abs(want) > 1e-200)))


def submean(name, p, dx, dy, k):
    """Mean of the profile over a k x k grid of sub-pixels of the unit pixel centred at each offset."""
    u = (np.arange(k) + 0.5) / k - 0.5
    X = dx[:, None, None] + u[None, :, None]
    Y = dy[:, None, None] + u[None, None, :]
    X, Y = np.broadcast_arrays(X, Y)
    return ref.value(name, p, X, Y).mean(axis=(1, 2))


@st.composite
def subcase(draw):
    n, p = draw(gens.function([f for f in gens.ALLF if f not in ref.THREED]))
    scale = draw(st.sampled_from([0.5, 1.0, 3.0, 9.0, 30.0]))
    pts = draw(st.lists(pt, min_size=1, max_size=4))
    return dict(f=n, p=p, scale=scale, pts=[[tiny(v) for v in q] for q in pts], xc=draw(gens.fl(1, 50, (1, 25))), yc=draw(gens.fl(1, 50, (1, 25))))


COMMON_K = (1, 20, 2, 3, 4, 5, 6, 10, 100, 40)


def run_sub(ctx, c):
    name, p = c["f"], c["p"]
    x, y, dx, dy = xy(c)
    can, tf, bg, got = ctx.worker().call("fval", 1, 1.0, 0.0, 1.0, name.encode(), p, [c["xc"], c["yc"]], np.stack([x, y], 1))
    left = np.ones(len(got), bool)
    kfound = np.zeros(len(got), int)
    tried = set()
    piecewise = name in ("FerrersBar2D", "ModifiedKing", "ModifiedKing2", "FlatBar")
    rt = 2e-8
    want1 = None
    for k in list(COMMON_K) + list(range(1, 101)):
        if k in tried:
            continue
        tried.add(k)
        m = submean(name, p, dx[left], dy[left], k)
        if k == 1:
            want1 = m.copy()
        tol = rt * np.abs(m) + 1e-280
        if piecewise:     # single sub-pixels may fall either side of an edge through rounding
            mx = np.abs(submean(name, [*p], dx[left], dy[left], 1))
            tol = tol + 2.5 / (k * k) * _edge(name, p, dx[left], dy[left], k)
        ok = np.abs(got[left] - m) <= tol
        idx = np.where(left)[0][ok]
        kfound[idx] = k
        left[idx] = False
        if not left.any():
            break
    if left.any():
        i = int(np.argmax(left))
        raise Violation("%s%s with subsampling at offset (%r, %r): value %.12g is not the mean of the profile over any k x k sub-pixel grid (centre value %.12g, fine mean %.12g)" %
                        (name, p, dx[i], dy[i], got[i], ref.value(name, p, dx[i:i+1], dy[i:i+1])[0], submean(name, p, dx[i:i+1], dy[i:i+1], 60)[0]))
    if not ref.F[name][2]:
        close(got, submean(name, p, dx, dy, 1), 2e-8, 1e-280, "%s%s: function without sub-sampling, value with sub-sampling switched on" % (name, p))
    fine = submean(name, p, dx, dy, 61)
    for i in range(len(got)):
        # inside the documented central zone (offset below ~1 pixel) the cusp must be resolved
        if ref.F[name][2] and np.hypot(dx[i], dy[i]) <= 0.7 and name != "EdgeOnDisk" and not piecewise:
            r = float(np.max(ref.radius(dx[i:i+1], dy[i:i+1], p[0], p[1] if ref.SPEC[name][1][0] == "ell" else 0.0)))
            if r < 2.5:
                require(kfound[i] >= 4 or abs(got[i] - fine[i]) <= 1e-3 * abs(fine[i]), "%s%s: pixel at offset (%r,%r) next to the centre is not sub-sampled (value %.12g, pixel mean %.12g)", name, p, dx[i], dy[i], got[i], fine[i])
        ctx.note(tag="k=%d" % kfound[i])
    ctx.note(nontrivial=bool((kfound > 1).any()), tag=name)


def _edge(name, p, dx, dy, k):
    """Size of the jump a single sub-pixel can make at the edge of a truncated profile (0 when no edge crosses the pixel)."""
    u = (np.arange(k) + 0.5) / k - 0.5
    X, Y = np.broadcast_arrays(dx[:, None, None] + u[None, :, None], dy[:, None, None] + u[None, None, :])
    a = ref.value(name, p, X * (1 - 1e-9), Y * (1 - 1e-9))
    b = ref.value(name, p, X * (1 + 1e-9), Y * (1 + 1e-9))
    d = np.abs(a - b)
    d = np.where(d > 1e-6 * np.maximum(np.abs(a), np.abs(b)), d, 0)
    return d.reshape(len(dx), -1).sum(axis=1)


def run_sub3d(ctx, c):
    """3D functions are never sub-sampled: the flag must not matter."""
    x, y, dx, dy = xy(c)
    a = ctx.worker().call("fval", 1, 1.0, 0.0, 1.0, c["f"].encode(), c["p"], [c["xc"], c["yc"]], np.stack([x, y], 1))[3]
    b = ctx.worker().call("fval", 0, 1.0, 0.0, 1.0, c["f"].encode(), c["p"], [c["xc"], c["yc"]], np.stack([x, y], 1))[3]
    close(a, b, 0, 0, "%s: sub-sampling flag changes a line-of-sight integral" % c["f"])
    ctx.note(nontrivial=bool(np.any(b != 0)), tag=c["f"])


def run_names(ctx, c):
    """The set of available functions and their parameter names is the documented one."""
    names = ctx.worker().call("fnames")[0].decode().split()
    want = set(ref.F) | set(ref.POINT)
    require(set(names) >= want, "documented functions missing: %s", sorted(want - set(names)))
    for n in c["names"]:
        st_, t = ctx.worker().call("fparams", n.encode())
        require(st_ == 0, "no parameter list for %s", n)
        require(t.decode().split() == gens.pnames(n), "parameters of %s are %s, documented %s", n, t.decode().split(), gens.pnames(n))
    ctx.note(nontrivial=True)


CHECK = dict(
    property="P02", needs={"opt": ((), True)},
    rule="a case is a function, a parameter vector in the documented domain (biased to limiting values) and 2-14 offsets from the centre; non-trivial when the documented profile is non-zero at an offset (centre component) or a pixel is actually sub-sampled (subsampling component)",
    assumptions=["sub-sampling scheme is an equal-weight k x k grid for some k <= 100", "line-of-sight integrals are compared to 2e-4 relative (the code integrates to 1e-6)"],
    components=[
        Component("centre", case(gens.FAST, 14), run_center, 24000, 400000),
        Component("los", case(list(ref.THREED), 4), run_los, 3000, 60000),
        Component("subsample", subcase(), run_sub, 4000, 100000),
        Component("nosub3d", case(list(ref.THREED), 3), run_sub3d, 400, 5000),
        Component("names", st.just(dict(names=sorted(list(ref.F) + list(ref.POINT)))), run_names, 1, 1),
    ])
