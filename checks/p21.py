"""P21: degrees of freedom, information criteria, uncertainties, means, deviations and intervals are those of their definitions."""
import math, os, re
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, fitgen as F, models as M, statref as S
from imv.harness import Component, require, close, Skip
from checks import p15

# -- samples


@st.composite
def sample_case(draw):
    return dict(n=draw(st.one_of(st.integers(1, 12), st.integers(13, 60), st.integers(61, 3000))), seed=draw(st.integers(0, 2 ** 31)), shape=draw(st.sampled_from(["normal", "uniform", "skew", "ties", "two-valued", "constant", "heavy", "integers"])),
                order=draw(st.sampled_from(["random", "random", "up", "down"])), loc=draw(st.sampled_from([0.0, 0.0, 1.0, -50.0, 1e4, -3e6])), scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e5, 1e-12, 1e30])))


def sample(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    x = {"normal": lambda: r.normal(size=n), "uniform": lambda: r.random(n), "skew": lambda: r.exponential(size=n), "ties": lambda: np.round(r.normal(size=n), 1), "two-valued": lambda: (r.random(n) < 0.5) * 1.0,
         "constant": lambda: np.full(n, 0.1), "heavy": lambda: r.standard_cauchy(n), "integers": lambda: r.integers(-3, 4, n) * 1.0}[c["shape"]]()
    x = c["loc"] + c["scale"] * x
    if c["order"] != "random":
        x = np.sort(x)[::1 if c["order"] == "up" else -1]
    return np.array(x, float), r


def run_sample(ctx, c):
    w = ctx.worker()
    x, r = sample(c)
    n = len(x)
    mean, sd, lo, hi = w.call("stats", x)
    what = "%d values (%s, around %g)" % (n, c["shape"], c["loc"])
    big = float(np.abs(x).max())
    m = math.fsum(x) / n
    require(abs(mean - m) <= 1e-15 * (n + 4) * big + 1e-300, "mean of %s: %r, it is %r", what, mean, m)
    if n > 1:
        fx = [Fraction(float(v)) for v in x] if n <= 400 else None
        if fx:
            fm = sum(fx) / n
            var = float(sum((v - fm) ** 2 for v in fx) / (n - 1))
        else:
            var = math.fsum(((v - m) ** 2 for v in x)) / (n - 1)
        s = math.sqrt(var)
        tol = 1e-13 * n * s + 1e-15 * (n + 4) * big
        require(abs(sd - s) <= tol, "standard deviation of %s: %r, it is %r (n-1 in the denominator)", what, sd, s)
    q = np.sort(x)
    require(lo in x and hi in x, "68%% interval of %s: %r .. %r are not elements of the sample", what, lo, hi)
    require(lo <= hi, "68%% interval of %s: lower limit %r above upper limit %r", what, lo, hi)
    # the fraction below the lower limit and the fraction above the upper limit are those of +-1 sigma of a Gaussian (0.1585), as closely as n values allow
    below, upto = int((q < lo).sum()), int((q <= lo).sum())
    require(below - 1.0 <= 0.1585 * n <= upto + 1.0, "lower 68%% limit of %s: %d values lie below it, %d not above it; expected 15.85%%", what, below, upto)
    above, from_ = int((q > hi).sum()), int((q >= hi).sum())
    require(above - 1.0 <= 0.1585 * n <= from_ + 1.0, "upper 68%% limit of %s: %d values lie above it, %d not below it; expected 15.85%%", what, above, from_)
    for k in range(2):
        y = x[r.permutation(n)] if k else x[::-1]
        _, sd2, lo2, hi2 = w.call("stats", np.ascontiguousarray(y))
        require((lo2, hi2) == (lo, hi), "68%% interval of %s depends on their order: %r .. %r and %r .. %r", what, lo, hi, lo2, hi2)
        if n > 1:
            require(abs(sd2 - sd) <= 2 * tol, "standard deviation of %s depends on their order: %r and %r", what, sd, sd2)
    # increasing map: the limits map along; powers of two are exact
    mean3, sd3, lo3, hi3 = w.call("stats", x * 4.0)
    require((lo3, hi3) == (4 * lo, 4 * hi) and mean3 == 4 * mean, "%s multiplied by 4: interval %r .. %r and mean %r, expected %r .. %r and %r", what, lo3, hi3, mean3, 4 * lo, 4 * hi, 4 * mean)
    if n > 1:
        require(sd3 == 4 * sd, "%s multiplied by 4: standard deviation %r, expected %r", what, sd3, 4 * sd)
        require(sd >= 0, "negative standard deviation %r", sd)
    ctx.note(nontrivial=n > 1 and len(set(x.tolist())) > 1, tag=c["shape"])
    ctx.note(tag="n<4" if n < 4 else "n<=60" if n <= 60 else "n>60")


# -- information criteria
@st.composite
def ic_case(draw):
    k = draw(st.one_of(st.integers(0, 12), st.integers(13, 400)))
    n = k + 2 + draw(st.one_of(st.integers(0, 20), st.integers(21, 10 ** 4), st.integers(10 ** 4, 4 * 10 ** 8)))
    return dict(k=k, n=n, stat=draw(st.one_of(gens.logfl(1e-3, 1e9), gens.fl(-1e6, 1e6))), chi=draw(st.sampled_from([1, 1, 0, 2])))


def run_ic(ctx, c):
    k, n, s = c["k"], c["n"], c["stat"]
    a, b = ctx.worker().call("ic", float(s), k, n, c["chi"])
    m2 = Fraction(s) * (1 if c["chi"] else -2)
    want = float(m2 + 2 * k + Fraction(2 * k * (k + 1), n - k - 1))
    wb = float(m2) + k * math.log(n)
    what = "statistic %r%s, %d free parameters, %d data values" % (s, "" if c["chi"] else " (ln likelihood)", k, n)
    close(a, want, 1e-13, 1e-13 * abs(s), "AIC of " + what)
    close(b, wb, 1e-13, 1e-13 * abs(s), "BIC of " + what)
    ctx.note(nontrivial=k > 0, tag="n-k<=20" if n - k <= 22 else "n-k<=1e4" if n - k <= 10 ** 4 + 2 else "large n")


# -- parameter uncertainties of the Levenberg-Marquardt solver
@st.composite
def cov_case(draw):
    c = draw(F.scene(maxn=16, minn=9, stats=("data", "model", "sigma", "var", "weight"), section=False, funcs=["Gaussian", "Exponential", "Sersic", "Moffat", "FlatSky", "FlatSky", "TiltedSkyPlane"], total=3, psf=False, limits="mixed", fixed=0.25))
    c["sub"] = False
    c["start"] = 0.02
    return c


def jacobian(w, mid, p, free, n, h, lims):
    out = []
    for k in free:
        q, s = np.array(p), np.array(p)
        q[k] += h[k]
        s[k] -= h[k]
        out.append((w.call("mdev", mid, n, list(q))[0] - w.call("mdev", mid, n, list(s))[0]) / (q[k] - s[k]))
    return np.array(out).T


def run_cov(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if int(P.good.sum()) - P.nfree <= 1:
        raise Skip("few pixels")
    F.fit_library(w, 3, c, P, sets=F.with_values(c["sets"], P.start))
    try:
        i0 = M.image(w, 3, list(P.start), c["nx"], c["ny"])
        if not F.in_domain(c, P, i0):
            raise Skip("undefined at the start")
        r1 = p15.solve(w, 3, "lm", 1e-10, 1, P.start, p15.pinfo(P), 1)
        if r1[0] <= 0 or r1[0] >= 5 or not np.isfinite(r1[4]).all():
            raise Skip("not converged")
        # started at the solution: the covariance belongs to (almost) the point returned
        p0 = r1[4]
        st2, f, rep, present, p, errs, init = p15.solve(w, 3, "lm", 1e-10, 1, p0, p15.pinfo(P), 1)
        require(present == 1, "LM fit: uncertainties reported as not available")
        if st2 <= 0 or st2 >= 5 or not np.isfinite(p).all():
            raise Skip("not converged")
        what = "LM fit of %s (%s)" % (", ".join(f[0] for s in c["sets"] for f in s[2]), c["kind"])
        for k, l in enumerate(P.lims):
            if l == "fixed":
                require(errs[k] == 0, "%s: fixed parameter %d has uncertainty %r", what, k, errs[k])
        require((np.asarray(errs) >= 0).all(), "%s: uncertainties %s", what, errs)
        if any(l not in (None, "fixed") and not l[0] + 1e-6 * (l[1] - l[0]) < p[k] < l[1] - 1e-6 * (l[1] - l[0]) for k, l in enumerate(P.lims)):
            ctx.note(tag="ends on a limit")
            return
        free = [k for k in range(len(p)) if P.free[k]]
        n = c["nx"] * c["ny"]
        sc = np.array([max(abs(v), 1e-2) for v in p])
        e = np.asarray(errs)
        h1 = np.where((e > 0) & (e < 10 * sc), np.minimum(1e-3 * np.where(e > 0, e, 1), 1e-4 * sc), 1e-5 * sc)
        J1, J2 = jacobian(w, 3, p, free, n, h1, P.lims), jacobian(w, 3, p, free, n, 2 * h1, P.lims)
        nr = np.sqrt((J1 ** 2).sum(axis=0))
        # one-sided derivatives agree (no kink, such as the centre of an exponential on the centre of a pixel, nearby)
        d0 = w.call("mdev", 3, n, list(p))[0]
        for j, k in enumerate(free):
            q = np.array(p)
            q[k] += h1[k]
            one = (w.call("mdev", 3, n, list(q))[0] - d0) / (q[k] - p[k])
            if not np.abs(one - J1[:, j]).max() <= 5e-3 * nr[j]:
                raise Skip("derivatives not resolved")
        if (nr == 0).any() or not np.isfinite(nr).all() or (np.abs(J1 - J2).max(axis=0) > 2e-3 * nr).any():
            raise Skip("derivatives not resolved")
        # forward differences with a step of 1.5e-8 |p| must be meaningful, too
        dev = np.abs(w.call("mdev", 3, n, list(p))[0]).max() + 1
        if any(np.abs(J1[:, j]).max() * 1.5e-8 * abs(p[k]) < 1e-9 * dev for j, k in enumerate(free)):
            raise Skip("derivatives not resolved by the solver")
        Jn = J1 / nr
        A = Jn.T @ Jn
        if np.linalg.cond(A) > 1e5:
            raise Skip("degenerate parameters")
        want = np.sqrt(np.diag(np.linalg.inv(A))) / nr
        for j, k in enumerate(free):
            require(abs(errs[k] - want[j]) <= 0.02 * want[j], "%s: uncertainty of parameter %d is %r; the covariance matrix at the best fit gives %r", what, k, errs[k], want[j])
        # a fit with all errors four times larger has the same minimum and uncertainties four times larger
        if c["kind"] in F.ERRT:
            P.err = P.err * {"sigma": 4.0, "var": 16.0, "weight": 1 / 16.0}[c["kind"]]
            F.fit_library(w, 4, c, P, sets=F.with_values(c["sets"], P.start))
            r3 = p15.solve(w, 4, "lm", 1e-10, 1, p0, p15.pinfo(P), 1)
            M.free(w, 4)
            require(abs(r3[1] - f / 16) <= 1e-6 * f / 16 + 1e-12, "%s: all errors four times larger: statistic %r, expected %r", what, r3[1], f / 16)
            for k in free:
                require(abs(r3[5][k] - 4 * errs[k]) <= 0.02 * 4 * errs[k], "%s: all errors four times larger: uncertainty of parameter %d is %r, before %r", what, k, r3[5][k], errs[k])
            ctx.note(tag="rescaled errors")
        ctx.note(nontrivial=True, tag=c["kind"])
        if len(free) < len(p):
            ctx.note(tag="with fixed parameters")
    finally:
        M.free(w, 3)


# -- what imfit prints and saves
SOL = [[], [], [], ["--nm"], ["--nlopt", "BOBYQA"], ["--nlopt", "SBPLX"], ["--de"], ["--de-lhs"]]


@st.composite
def report_case(draw):
    sol = draw(st.sampled_from(SOL))
    fso = draw(st.integers(0, 3)) == 0
    de = sol[:1] in (["--de"], ["--de-lhs"]) and not fso
    c = draw(F.scene(maxn=7 if de else 11, minn=4, limits="all" if de else "mixed", total=1 if de else 3, fixed=0.5 if de else 0.3, psf=not de))
    if c["kind"] == "cash" and not sol and not fso:
        sol = ["--nm"]
    c["sol"], c["fso"] = sol, fso
    return c


def num(pat, text, what):
    m = re.findall(pat, text, re.M)
    require(len(m) == 1, "%s: %d matches of /%s/ in\n%s", what, len(m), pat, text[-1500:])
    return m[0]


def check_criteria(what, stat, half, aic, bic, red, nfree, ngood):
    # AIC, BIC, reduced value: rounding of both numbers to the last of six decimals
    eps = half + 1e-6 + 1e-9 * abs(stat)
    a, b = S.aic(stat, nfree, ngood), S.bic(stat, nfree, ngood)
    require(abs(aic - a) <= eps + 1e-12 * abs(a), "%s: AIC = %r; the statistic %r, %d free parameters and %d unmasked pixels give %r", what, aic, stat, nfree, ngood, a)
    require(abs(bic - b) <= eps, "%s: BIC = %r; the statistic %r, %d free parameters and %d unmasked pixels give %r", what, bic, stat, nfree, ngood, b)
    if red is not None:
        v = stat / (ngood - nfree)
        require(abs(red - v) <= eps, "%s: reduced value %r; the statistic %r with %d degrees of freedom gives %r", what, red, stat, ngood - nfree, v)


def run_report(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    ngood = int(P.good.sum())
    if ngood - P.nfree <= 1:
        raise Skip("few pixels")
    d = ctx.newdir()
    data, opts = F.files(d, c, P)
    open(os.path.join(d, "c.dat"), "w").write(F.start_config(c, P))
    what = "imfit %s, %s, %d of %d parameters free, %d of %d pixels masked" % (" ".join(c["sol"]) + (" --fitstat-only" if c["fso"] else ""), c["kind"], P.nfree, len(P.start), P.good.size - ngood, P.good.size)
    q = ctx.run("imfit", [data, "-c", "c.dat", "--max-threads", "1", "--seed", 5] + opts + c["sol"] + (["--fitstat-only"] if c["fso"] else ["--save-params", "p.dat", "--save-model", "m.fits"]), d, cpu=10)
    if q.timeout:
        raise Skip("slow fit")
    require(not q.crashed, "%s crashed: %s", what, q.tail())
    if q.rc or re.search(r"\bnan|-nan|forced termination", q.out):
        raise Skip("refused or undefined")
    title = F.TITLE.get(c["kind"], "CHI-SQUARE")
    if c["fso"]:
        stat = float(num(r"^\s*%s = (\S+)" % title, q.out, what))
        if c["kind"] not in ("cash", "pmlr"):
            dof = int(num(r"CHI-SQUARE = \S+\s+\((-?\d+) DOF\)", q.out, what))
            require(dof == ngood - P.nfree, "%s: %d degrees of freedom reported, there are %d", what, dof, ngood - P.nfree)
        red = float(num(r"^Reduced Chi\^2(?: equivalent)? = (\S+)", q.out, what)) if c["kind"] != "cash" else None
        if c["kind"] == "cash":
            require("Reduced" not in q.out, "%s: a reduced value of a Cash statistic is reported", what)
        a, b = num(r"^AIC = (\S+), BIC = (\S+)", q.out, what)
        check_criteria(what, stat, 0, float(a), float(b), red, P.nfree, ngood)
        F.fit_library(w, 3, c, P)
        s = F.stat_of(w, 3, c, P, P.start)
        M.free(w, 3)
        require(abs(s - stat) <= 1e-6 + 1e-7 * abs(s), "%s: statistic %r printed, it is %r", what, stat, s)
        ctx.note(nontrivial=True, tag="fitstat-only")
    else:
        R = F.printed(q.out, c)
        check_criteria(what, R["stat"], 0, R["aic"], R["bic"], R["red"], P.nfree, ngood)
        require((R["red"] is None) == (c["kind"] == "cash"), "%s: reduced value: %s", what, R["red"])
        if not c["sol"]:
            require(R["dof"] == ngood - P.nfree, "%s: %d degrees of freedom reported, there are %d", what, R["dof"], ngood - P.nfree)
            require(int(num(r"^\s*NPAR = (\d+)", q.out, what)) == len(P.start), "%s: NPAR is not %d", what, len(P.start))
            require(int(num(r"^\s*NFREE = (\d+)", q.out, what)) == P.nfree, "%s: NFREE is not %d", what, P.nfree)
            i0 = float(num(r"^\s*INITIAL (?:CHI\^2|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)", q.out, what))
            F.fit_library(w, 3, c, P)
            s0 = F.stat_of(w, 3, c, P, P.start)
            if np.isfinite(s0):
                require(abs(s0 - i0) <= 1e-6 + 1e-7 * abs(s0), "%s: initial statistic %r printed, it is %r", what, i0, s0)
            if not c["sec"] and F.in_domain(c, P, M.image(w, 3, list(P.start), c["nx"], c["ny"])):
                res = p15.solve(w, 3, "lm", 1e-8, 5, P.start, p15.pinfo(P), 1)
                npeg = sum(l not in (None, "fixed") and (res[4][k] == l[0] or res[4][k] == l[1]) for k, l in enumerate(P.lims))
                lines = [l for l in R["body"].split("\n") if re.match(r"\w+\s+\S+\s+#", l) and "+/-" in l]
                if abs(res[1] - R["stat"]) < 1e-6 * abs(R["stat"]) + 1e-6 and res[0] < 5:
                    require(int(num(r"^\s*NPEGGED = (\d+)", q.out, what)) == npeg, "%s: NPEGGED is not %d, the number of parameters on a limit", what, npeg)
                    require(len(lines) == len(P.start), "%s: %d uncertainties printed", what, len(lines))
                    tame = bool((np.asarray(res[5]) < 30 * np.maximum(np.abs(res[4]), 1.0)).all())     # otherwise degenerate: uncertainties are dominated by rounding
                    for k, l in enumerate(lines):
                        e = float(re.search(r"\+/-\s*(\S+)", l).group(1))
                        require(tame is False or abs(e - res[5][k]) <= 1e-2 * abs(res[5][k]) + 0.51e-4, "%s: uncertainty of parameter %d printed as %r, the solver returns %r", what, k, e, res[5][k])
                    if tame:
                        ctx.note(tag="printed uncertainties")
            M.free(w, 3)
        t = open(os.path.join(d, "p.dat")).read()
        ps = float(num(r"^#\s+Best-fit value: (\S+)", t, what))
        red = num(r"^#\s+Reduced value: (\S+)", t, what)
        require((red == "none") == (c["kind"] == "cash"), "%s: reduced value saved as %s", what, red)
        check_criteria(what + ", saved parameters", ps, 0, float(num(r"^#\s+AIC: (\S+)", t, what)), float(num(r"^#\s+BIC: (\S+)", t, what)), None if red == "none" else float(red), P.nfree, ngood)
        require(abs(ps - R["stat"]) <= 1e-6 + 1e-7 * abs(ps), "%s: statistic printed as %r and saved as %r", what, R["stat"], ps)
        require(F.WORDS[c["kind"]] == num(r"^#\s+Fit statistic: (.*)$", t, what).strip(), "%s: statistic described as %s", what, re.findall("Fit statistic: .*", t))
        # the statistic is that of the saved model image against the data
        img = fits.read(os.path.join(d, "m.fits"))[0]
        mag = 2e-7 * np.abs(img).max()
        want, tol = S.stat(c["kind"], P.data, img, c["ch"], P.err, P.good, dm=mag)
        if np.isfinite(want) and F.in_domain(c, P, img):
            require(abs(want - ps) <= tol + 1e-6 + 1e-7 * abs(want), "%s: statistic saved as %r, that of the saved model image is %r", what, ps, want)
        ctx.note(nontrivial=True, tag=" ".join(c["sol"]) or "lm")
    ctx.note(tag=c["kind"])
    if ngood < P.good.size:
        ctx.note(tag="masked pixels")
    if P.nfree < len(P.start):
        ctx.note(tag="fixed parameters")


CHECK = dict(
    property="P21", needs={"opt": (("imfit",), True)},
    rule="samples: at least two different values; criteria: at least one free parameter; uncertainties: derivatives resolved, parameters neither degenerate nor on a limit; report: the program printed results",
    assumptions=["the limits of the 68% interval leave 15.85% of the sample on either side, to within one value",
                 "uncertainties are compared to 2%, for a fit restarted at its solution, with derivatives of the library's own deviates (which are those of the statistic: P07)"],
    components=[
        Component("sample", sample_case(), run_sample, 2500, 120000),
        Component("criteria", ic_case(), run_ic, 1500, 60000),
        Component("uncertainty", cov_case(), run_cov, 500, 15000),
        Component("report", report_case(), run_report, 130, 6000),
    ])
