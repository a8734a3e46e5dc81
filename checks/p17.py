"""P17: MCMC chains stay in bounds, record the right likelihood and have the right target distribution."""
import math, os, re, shutil
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, ref, fitgen as F, models as M, statref as S
from imv.harness import Component, require, close, Violation, Skip

NCR = 3


def read_chain(path, what):
    rows, head = [], []
    text = open(path).read()
    require(text.endswith("\n"), "%s: %s does not end with a newline", what, os.path.basename(path))
    for l in text.split("\n"):
        if l.startswith("#"):
            head.append(l)
        elif l.strip():
            rows.append([float(t) for t in l.split()])
    return head, rows


def chain_files(d, root="ch"):
    return sorted((f for f in os.listdir(d) if f.startswith(root + ".")), key=lambda f: int(f.split(".")[1]))


def column_names(sets):
    want, nf = [], 0
    for i, s in enumerate(sets):
        want += ["X0_%d" % (i + 1), "Y0_%d" % (i + 1)]
        for f in s[2]:
            nf += 1
            want += ["%s_%d" % (x, nf) for x in gens.pnames(f[0])]
    return want + ["likelihood", "burn-in"] + ["CR%d" % (k + 1) for k in range(NCR)] + ["accept"]


# ---------------------------------------------------------------- chains

@st.composite
def chain_case(draw):
    c = draw(F.scene(maxn=8, limits="all", total=2, max_funcs=2, fixed=0.3))
    c["sub"] = c["sub"] and draw(st.integers(0, 3)) == 0
    c["n"] = draw(st.sampled_from([0, 0, 3, 4, 6]))
    c["T"] = draw(st.sampled_from([1, 2, 9, 12, 30, 41, 60]))
    c["B"] = draw(st.sampled_from([1, 5, 20, 100]))
    c["rs"] = draw(st.integers(1, 10 ** 6))
    c["more"] = draw(st.sampled_from([0, 1, 10, 25]))
    c["uo"] = draw(st.sampled_from([None, None, 0.05, 0.3]))
    c["go"] = draw(st.sampled_from([None, None, 1e-3, 0.05]))
    c["out"] = draw(st.sampled_from([[], ["--quiet"], ["--silent"]]))
    c["ge"] = draw(st.sampled_from([0, 0, 10, 20]))
    return c


def mcmc_opts(c):
    a = ["--burnin-length", c["B"]] + (["--nchains", c["n"]] if c["n"] else [])
    a += ["--uniform-offset", c["uo"]] if c["uo"] is not None else []
    a += ["--gaussian-offset", c["go"]] if c["go"] is not None else []
    if c["ge"]:
        a += ["--gelman-evals", c["ge"], "--gelman-rubin-limit", "1.5"]
    return a


def setup_dir(ctx, c, P, config):
    d = ctx.newdir()
    data, opts = F.files(d, c, P)
    open(os.path.join(d, "c.dat"), "w").write(config)
    return d, [data, "-c", "c.dat", "--max-threads", "1"] + opts


def check_rows(what, chains, c, P, full, kinds, T, resumed=None, collapse_until=0.0, reenter=False):
    """chains: array [chain][generation][column]."""
    n = len(P.start)
    N = len(chains)
    start = F.shift(P.start, P.kinds, P.off)
    A = np.array(chains)
    for j, l in enumerate(full):
        col = A[:, :, j]
        if l == "fixed":
            v = start[j]
            require((np.abs(col - v) <= 1e-9 * abs(v)).all(), "%s: fixed parameter %d (%r) varies", what, j, v)
        else:
            e0, e1 = 1e-9 * (abs(l[0]) + 1e-3), 1e-9 * (abs(l[1]) + 1e-3)
            bad = (col < l[0] - e0) | (col > l[1] + e1)
            require(not bad.any(), "%s: parameter %d with limits %s takes the value %r", what, j, l, float(col[bad][0]) if bad.any() else 0)
    cr = A[:, :, n + 2:n + 2 + NCR]
    require(((cr >= 0) & (cr <= 1)).all() and (np.abs(cr.sum(2) - 1) < 1e-9).all(), "%s: crossover probabilities do not sum to 1", what)
    require((cr == cr[:1]).all(), "%s: chains record different crossover probabilities in one generation", what)
    flag, acc = A[:, :, n + 1], A[:, :, n + 2 + NCR]
    require(np.isin(flag, (0, 1)).all() and np.isin(acc, (0, 1)).all(), "%s: flags other than 0 and 1", what)
    require((flag == flag[:1]).all(), "%s: burn-in flags of the chains differ", what)
    state = A[:, :, :n + 1]
    for t in range(1, A.shape[1]):
        for i in range(N):
            same = (state[i, t] == state[i, t - 1]).all()
            if acc[i, t] == 0 and not same:
                if resumed is not None and t == resumed:
                    same = np.allclose(state[i, t, :n], state[i, t - 1, :n], rtol=1e-8, atol=1e-8)
                if not same:
                    # collapse of an outlier chain onto the best chain
                    require(t < collapse_until and any((state[i, t] == state[k, t]).all() for k in range(N) if k != i), "%s: chain %d generation %d was not accepted but differs from generation %d", what, i + 1, t, t - 1)
    return A


def check_likelihood(ctx, w, what, A, c, P, rng, count=60):
    F.fit_library(w, 71, c, P, sets=c["sets"])
    n = len(P.start)
    seen = 0
    flat = [(i, t) for i in range(A.shape[0]) for t in range(A.shape[1])]
    pick = rng.permutation(len(flat))[:count]
    for q in sorted(pick):
        i, t = flat[q]
        vals = F.shift(A[i, t, :n], P.kinds, P.off, -1)
        vals = [min(max(v, l[0]), l[1]) if l != "fixed" else P.start[k] for k, (v, l) in enumerate(zip(vals, P.lims))]
        s = F.stat_of(w, 71, c, P, vals)
        got = A[i, t, n]
        if not np.isfinite(s):
            continue
        if not F.in_domain(c, P, M.image(w, 71, list(vals), c["nx"], c["ny"])):
            continue
        tol = 1e-9 * abs(s) + 1e-9
        if abs(got + s / 2) > tol:
            h = 0.6e-9 * (np.abs(A[i, t, :n]) + 1e-6)
            dev = [abs(F.stat_of(w, 71, c, P, list(np.array(vals) + h * rng.choice([-1.0, 0.0, 1.0], n) * np.array(P.free))) - s) for _ in range(24)]
            tol += 6 * max(dev)
            if tol > 1e-4 * (1 + abs(s)):
                ctx.note(tag="rounding-sensitive state")
                continue
            require(abs(got + s / 2) <= tol, "%s: chain %d generation %d records likelihood %r; the statistic of that state is %r", what, i + 1, t, got, s)
        seen += 1
    M.free(w, 71)
    return seen


def run_chain(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if int(P.good.sum()) - P.nfree <= 1:
        raise Skip("few pixels")
    full = F.full_limits(P)
    if any(l not in (None, "fixed") and not l[0] < l[1] for l in full):
        raise Skip("empty limits")
    cfg = F.start_config(c, P)
    what = "imfit-mcmc, %d generations, %s" % (c["T"], c["kind"])
    runs = []
    for k in range(2):
        d, a = setup_dir(ctx, c, P, cfg)
        q = ctx.run("imfit-mcmc", a + ["-o", "ch", "--max-chain-length", c["T"], "--seed", c["rs"]] + mcmc_opts(c) + (c["out"] if k else []), d, cpu=10)
        if q.timeout:
            raise Skip("slow or no finite likelihood")
        require(not q.crashed, "%s crashed: %s", what, q.tail())
        require(q.rc == 0, "%s fails: %s", what, q.tail())
        runs.append((d, q))
    N = c["n"] or max(P.nfree, 3)
    d = runs[0][0]
    names = ["ch.%d.txt" % (k + 1) for k in range(N)]
    require(chain_files(d) == names, "%s: files %s, expected %s", what, chain_files(d), names)
    chains = []
    n = len(P.start)
    for f in names:
        head, rows = read_chain(os.path.join(d, f), what)
        require(all(len(r) == n + 6 for r in rows), "%s: rows of %s columns for %d parameters", what, sorted({len(r) for r in rows}), n)
        hl = [h for h in head if re.match(r"#\s+X0_1\s", h)]
        require(len(hl) == 1 and hl[0][1:].split() == column_names(c["sets"]), "%s: column names %s", what, hl)
        h2, r2 = read_chain(os.path.join(runs[1][0], f), what)
        require(rows == r2, "%s: two runs with the same seed%s write different chains", what, " (the second %s)" % c["out"][0] if c["out"] else "")
        chains.append(rows)
    T = len(chains[0])
    require(all(len(x) == T for x in chains), "%s: chains of different length %s", what, [len(x) for x in chains])
    out = runs[0][1].out
    conv = "Convergence detected" in out
    require(T == c["T"] if not conv else T <= c["T"], "%s: %d generations written%s", what, T, " (convergence)" if conv else "")
    reenter = "re-entering burn-in" in out
    A = check_rows(what, chains, c, P, full, P.kinds, T, collapse_until=0.2 * c["T"] + 1, reenter=reenter)
    if not reenter:
        fl = A[0, :, n + 1]
        require((fl == (np.arange(T) < c["B"])).all(), "%s: burn-in of %d generations flagged as %s", what, c["B"], "".join("%d" % x for x in fl))
        cr = A[0, :, n + 2:n + 5]
        last = (c["B"] + 10) // 10 * 10 + 10
        if T > last:
            require((cr[last:] == cr[last]).all(), "%s: crossover probabilities change after burn-in", what)
    rng = np.random.default_rng(c["rs"])
    if not c["sub"]:
        check_likelihood(ctx, w, what, A, c, P, rng)
    else:
        check_likelihood(ctx, w, what, A, c, P, rng, 20)
    # initial states: Latin hypercube of the limits (unless resampled)
    if "Resampling" not in out:
        for j, l in enumerate(full):
            if l == "fixed":
                continue
            z = np.sort((A[:, 0, j] - l[0]) / (l[1] - l[0]) * N)
            if abs(l[0]) + abs(l[1]) > 1e7 * (l[1] - l[0]):
                continue
            require((np.abs(z - (np.arange(N) + 0.5)) <= 0.5 + 1e-2).all(), "%s: initial values of parameter %d are not spread over its limits %s: %s", what, j, l, A[:, 0, j].tolist())
    # fixed or varying: accepted proposals move
    moved = (np.diff(A[:, :, :n], axis=1) != 0).any()
    ctx.note(nontrivial=bool(moved) and T >= 9, tag=c["kind"])
    if conv or not c["more"]:
        return
    # resume
    d2, a = setup_dir(ctx, c, P, cfg)
    for f in names:
        shutil.copy(os.path.join(d, f), os.path.join(d2, f))
    q = ctx.run("imfit-mcmc", a + ["-o", "ch", "--append", "--max-chain-length", c["T"] + c["more"], "--seed", c["rs"] + 7] + mcmc_opts(dict(c, n=N)), d2, cpu=10)
    if q.timeout:
        raise Skip("slow")
    require(q.rc == 0, "%s resumed: exit %d: %s", what, q.rc, q.tail())
    again = []
    for f, rows in zip(names, chains):
        old = open(os.path.join(d, f)).read()
        require(open(os.path.join(d2, f)).read().startswith(old), "%s resumed: the earlier part of %s is changed", what, f)
        again.append(read_chain(os.path.join(d2, f), what)[1])
    conv = "Convergence detected" in q.out
    L = len(again[0])
    require(all(len(x) == L for x in again) and (L == c["T"] + c["more"] if not conv else c["T"] < L <= c["T"] + c["more"]), "%s resumed for %d more generations: %s rows", what, c["more"], [len(x) for x in again])
    B = check_rows(what + " resumed", again, c, P, full, P.kinds, L, resumed=c["T"], collapse_until=0.2 * (c["T"] + c["more"]) + 1)
    if not c["sub"]:
        check_likelihood(ctx, w, what + " resumed", B[:, c["T"]:], c, P, rng, 30)
    ctx.note(tag="resumed")


# ---------------------------------------------------------------- rejected requests

@st.composite
def bad_case(draw):
    return dict(what=draw(st.sampled_from(["nolimit", "lower only", "few chains", "zero chains", "all fixed", "no files", "fewer files", "other model", "truncated file", "no config", "no data"])), seed=draw(st.integers(0, 10 ** 6)), n=draw(st.integers(3, 5)), fl=draw(st.booleans()))


def run_bad(ctx, c):
    d = ctx.newdir()
    r = np.random.default_rng(c["seed"])
    fits.write(os.path.join(d, "data.fits"), r.uniform(90, 110, (4, 4)))
    k = c["what"]
    lim = {"nolimit": "", "lower only": None}.get(k, "0,1000") if k != "all fixed" else "fixed"
    if lim is None:
        lim = ""
    f2 = "FUNCTION TiltedSkyPlane\nI_0 1 0,10\nm_x 0 -1,1\nm_y 0 -1,1\n" if c["fl"] and k not in ("all fixed",) else ""
    good = "X0 2 fixed\nY0 2 fixed\nFUNCTION FlatSky\nI_sky 100 0,1000\n" + f2
    cfg = "X0 2 fixed\nY0 2 fixed\nFUNCTION FlatSky\nI_sky 100 %s\n" % lim + f2
    open(os.path.join(d, "c.dat"), "w").write(cfg)
    open(os.path.join(d, "g.dat"), "w").write(good)
    a = ["data.fits", "-c", "c.dat", "-o", "ch", "--seed", 1, "--max-chain-length", 12, "--burnin-length", 3, "--nchains", c["n"]]
    what = "imfit-mcmc (%s)" % k
    if k == "few chains":
        a[-1] = 1 + c["seed"] % 2
    elif k == "zero chains":
        a[-1] = 0
    elif k == "no config":
        a[2] = "none.dat"
    elif k == "no data":
        a[0] = "none.fits"
    elif k in ("no files", "fewer files", "other model", "truncated file"):
        if k != "no files":
            b = list(a)
            b[2] = "g.dat"
            q = ctx.run("imfit-mcmc", b, d)
            require(q.rc == 0, "a plain run fails: %s", q.tail())
        if k == "fewer files":
            os.remove(os.path.join(d, "ch.%d.txt" % (1 + c["seed"] % c["n"])))
        if k == "other model":
            open(os.path.join(d, "c.dat"), "w").write("X0 2 fixed\nY0 2 fixed\nFUNCTION FlatSky\nI_sky 100 0,1000\nFUNCTION Gaussian\nPA 1 0,10\nell 0.1 0,1\nI_0 1 0,5\nsigma 1 0,5\n" if c["seed"] % 2 else good.replace("0,1000", "2000,3000"))
        if k == "truncated file":
            f = os.path.join(d, "ch.%d.txt" % c["n"])
            t = open(f).read()
            open(f, "w").write(t[:len(t) - r.integers(2, 40)])
        a += ["--append"]
    before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    q = ctx.run("imfit-mcmc", a, d)
    require(not q.crashed and not q.timeout, "%s crashed: %s", what, q.tail())
    require(q.rc != 0, "%s exits with status 0", what)
    after = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    require(before == after, "%s writes %s", what, sorted(f for f in after if before.get(f) != after[f]))
    require(len(q.err.strip() + q.out.strip()) > 0, "%s says nothing", what)
    ctx.note(nontrivial=True, tag=k)


# ---------------------------------------------------------------- target distribution

@st.composite
def post_case(draw):
    return dict(model=draw(st.sampled_from(["level", "level", "plane", "two", "five"])), kind=draw(st.sampled_from(["sigma", "var", "weight", "cash", "pmlr", "data", "model"])), seed=draw(st.integers(0, 10 ** 9)), rs=draw(st.integers(1, 10 ** 6)), n=draw(st.sampled_from([8, 10, 12])),
                nx=draw(st.integers(2, 5)), ny=draw(st.integers(2, 5)), trunc=draw(st.sampled_from([0, 0, 1, 2])), gain=draw(st.sampled_from([1.0, 2.5])), mask=draw(st.booleans()), uo=draw(st.sampled_from([None, None, 0.1])))


def batch(x, nb=25):
    """Mean of x[t] and its standard error from batch means."""
    L = len(x) // nb
    b = x[len(x) - nb * L:].reshape(nb, L).mean(1)
    return float(b.mean()), float(b.std(ddof=1) / math.sqrt(nb))


def run_post(ctx, c):
    T = ctx_len(ctx)
    d = ctx.newdir()
    r = np.random.default_rng(c["seed"])
    model = c["model"]
    linear = model != "level"
    nx, ny = (c["nx"], c["ny"]) if not linear else (max(c["nx"], 4), max(c["ny"], 4))
    kind = c["kind"] if not linear else (c["kind"] if c["kind"] in F.ERRT else "sigma")
    good = r.random((ny, nx)) > (0.2 if c["mask"] else -1)
    if good.sum() < (2 if not linear else 10):
        raise Skip("few pixels")
    yy, xx = np.mgrid[1:ny + 1, 1:nx + 1].astype(float)
    xc, yc = (nx + 1) / 2, (ny + 1) / 2
    cols = [np.ones((ny, nx))]
    fun = "FUNCTION FlatSky\n"
    if linear:
        fun = "FUNCTION TiltedSkyPlane\n"
        cols += [xx - xc, yy - yc]
    if model == "five":
        # two round Gaussians of fixed width at other centres
        cen = [(float(r.uniform(1, nx)), float(r.uniform(1, ny))) for _ in range(2)]
        cols += [np.exp(-((xx - a) ** 2 + (yy - b) ** 2) / (2 * 0.9 ** 2)) for a, b in cen]
    truth = [float(r.uniform(80, 150))] + [float(r.uniform(-3, 3)) for _ in cols[1:3]] + [float(r.uniform(40, 90)) for _ in cols[3:]]
    img = sum(a * b for a, b in zip(truth, cols))
    g = c["gain"]
    if kind in ("cash", "pmlr"):
        data = r.poisson(img * g) / g
    else:
        data = np.array([[float("%.8g" % v) for v in row] for row in img + r.normal(0, 5, img.shape)])
    sig = np.array([[float("%.8g" % v) for v in row] for row in r.uniform(3, 8, img.shape)])
    ch = [g, 0.0, 1.0, 1, 0.0]
    a = ["data.fits", "-c", "c.dat", "-o", "ch", "--gain", g, "--max-threads", 1, "--no-subsampling", "--silent"]
    fits.write(os.path.join(d, "data.fits"), data)
    err = None
    if kind in F.ERRT:
        err = {"sigma": sig, "var": sig ** 2, "weight": 1 / sig ** 2}[kind]
        fits.write(os.path.join(d, "err.fits"), err)
        a += ["--noise", "err.fits"] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[kind]
    a += {"cash": ["--cashstat"], "pmlr": ["--poisson-mlr"], "model": ["--model-errors"]}.get(kind, [])
    if c["mask"]:
        fits.write(os.path.join(d, "mask.fits"), np.where(good, 0.0, 1.0))
        a += ["--mask", "mask.fits"]
    what = "posterior of %s (%s, %d chains of %d)" % (model, kind, c["n"], T)
    nb = 25
    if not linear:
        nv = int(good.sum())
        m0 = float(data[good].mean())
        s0 = float(5 / math.sqrt(nv)) if kind in F.ERRT else math.sqrt(m0 / g / nv)
        if c["trunc"] == 1:
            lo, hi = m0 - 0.3 * s0, m0 + 6 * s0
        elif c["trunc"] == 2:
            lo, hi = m0 - 1.2 * s0, m0 + 0.5 * s0
        else:
            lo, hi = max(m0 - 12 * s0, 0.5), m0 + 12 * s0
        lo, hi = float("%.8g" % lo), float("%.8g" % hi)
        grid = np.linspace(lo, hi, 4001)
        ll = np.array([-0.5 * float(S.stat(kind, data, np.full(data.shape, v), ch, err, good)[0]) for v in grid])
        pr = np.exp(ll - ll.max())
        pr[0] *= 0.5
        pr[-1] *= 0.5
        pr /= pr.sum()
        mean = float((pr * grid).sum())
        sd = math.sqrt(float((pr * (grid - mean) ** 2).sum()))
        cdf = np.cumsum(pr) - pr / 2
        qs = [float(np.interp(f, cdf, grid)) for f in (0.1, 0.25, 0.5, 0.75, 0.9)]
        open(os.path.join(d, "c.dat"), "w").write("X0 1 fixed\nY0 1 fixed\n%sI_sky %r %r,%r\n" % (fun, m0, lo, hi))
        names = [2]
    else:
        W = 1 / sig[good] ** 2
        D = np.array([q[good] for q in cols]).T
        if np.linalg.cond(D) > 60:
            raise Skip("nearly degenerate")
        C = np.linalg.inv(D.T @ (W[:, None] * D))
        mean = C @ D.T @ (W * data[good])
        sds = np.sqrt(np.diag(C))
        names = [2, 3, 4]
        txt = "X0 %r fixed\nY0 %r fixed\n%s" % (xc, yc, fun)
        for k, nm in enumerate(("I_0", "m_x", "m_y")):
            txt += "%s %r %s\n" % (nm, float(mean[k]), "%r,%r" % (float(mean[k] - 9 * sds[k]), float(mean[k] + 9 * sds[k])))
        if model == "two":
            # one slope fixed
            txt = txt.replace("m_y %r %r,%r" % (float(mean[2]), float(mean[2] - 9 * sds[2]), float(mean[2] + 9 * sds[2])), "m_y %r fixed" % float(mean[2]))
            names = [2, 3]
            Q = np.linalg.inv(C)
            C = np.linalg.inv(Q[:2, :2])
            mean = mean[:2]
        if model == "five":
            pos = 5
            for k, (a0, b0) in enumerate(cen):
                j = 3 + k
                txt += "X0 %r fixed\nY0 %r fixed\nFUNCTION Gaussian\nPA 0 fixed\nell 0 fixed\nI_0 %r %r,%r\nsigma 0.9 fixed\n" % (a0, b0, float(mean[j]), float(mean[j] - 9 * sds[j]), float(mean[j] + 9 * sds[j]))
                names.append(pos + 4)
                pos += 6
        open(os.path.join(d, "c.dat"), "w").write(txt)
    B = T // 4
    q = ctx.run("imfit-mcmc", a + ["--nchains", c["n"], "--max-chain-length", T, "--burnin-length", B, "--gelman-evals", 10 ** 7, "--seed", c["rs"]] + (["--uniform-offset", c["uo"]] if c["uo"] else []), d, cpu=60)
    require(q.rc == 0, "%s fails: %s", what, q.tail())
    X = []
    for k in range(c["n"]):
        z = np.loadtxt(os.path.join(d, "ch.%d.txt" % (k + 1)))
        require(len(z) == T, "%s: %d rows", what, len(z))
        X.append(z[B + 20:, names])
    X = np.array(X)                     # chain, generation, parameter

    def test(series, want, scale, name):
        m, se = batch(series.mean(0), nb)
        require(abs(m - want) <= 7 * se + 0.03 * scale, "%s: %s is %.5g +/- %.2g (sampling error), should be %.5g", what, name, m, se, want)

    if not linear:
        x = X[:, :, 0]
        test((x - mean) / sd, 0.0, 1.0, "mean (in units of the posterior's sigma, from its mean)")
        test(((x - mean) / sd) ** 2, 1.0, 1.0, "variance (in units of the posterior's)")
        for f, v in zip((0.1, 0.25, 0.5, 0.75, 0.9), qs):
            test((x < v).astype(float), f, 1.0, "fraction below the posterior's %g quantile" % f)
    else:
        L = np.linalg.inv(np.linalg.cholesky(C))
        Z = np.einsum("ij,ktj->kti", L, X - mean)
        k = Z.shape[2]
        for i in range(k):
            test(Z[:, :, i], 0.0, 1.0, "mean of whitened component %d" % i)
            for j in range(i + 1):
                test(Z[:, :, i] * Z[:, :, j], float(i == j), 1.0, "covariance of whitened components %d, %d" % (i, j))
            test((np.abs(Z[:, :, i]) < 1).astype(float), 0.682689, 1.0, "fraction of whitened component %d within 1 sigma" % i)
    ctx.note(nontrivial=True, tag=model)
    ctx.note(tag=kind)


def ctx_len(ctx):
    return 4000 if getattr(ctx, "tier", "quick") == "quick" else 12000


CHECK = dict(
    property="P17",
    needs={"opt": (("imfit-mcmc",), True)},
    rule="chains: at least nine generations and some chain moved; bad: every rejected request; posterior: every case (known target distribution)",
    assumptions=["A chain may be replaced by the best chain (outlier removal) without acceptance only in the first fifth of the requested generations.", "Recorded states have ten digits; likelihoods are compared within the effect of that rounding, and states where it exceeds 1e-4 are not compared.",
                 "The target distribution is tested with at least eight chains and twice as many chains as free parameters: with three or four chains the parallel updates of this algorithm are biased (variance of a one-parameter posterior 1.4 and 1.04 times too large), which is inherent in it.", "Posterior tests use batch means over 25 batches and 7 standard errors."],
    components=[Component("chains", chain_case(), run_chain, 240, 2400),
                Component("bad", bad_case(), run_bad, 40, 250),
                Component("posterior", post_case(), run_post, 56, 240)],
)
