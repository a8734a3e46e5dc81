"""P16: bootstrap resampling draws only valid pixels, keeps fixed values, limits, seeds and the best fit itself."""
import math, os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, ref, fitgen as F, models as M, statref as S
from imv.harness import Component, require, close, Violation, Skip
from checks.p15 import pinfo

HOT = {"lm": ["data", "model", "sigma", "var", "weight", "pmlr"], "nm": ["cash"]}


# ---------------------------------------------------------------- which pixels are drawn

@st.composite
def sample_case(draw):
    nx, ny = draw(st.integers(1, 24)), draw(st.integers(1, 24))
    if nx * ny < 4:
        nx = ny = 4
    return dict(nx=nx, ny=ny, kind=draw(st.sampled_from(F.STATS)), mask=draw(st.sampled_from(["none", "none", "few", "half", "most", "edge"])), mfmt=draw(st.sampled_from([10, 20])),
                one=draw(st.sampled_from(["first", "last", "random"])), seed=draw(st.integers(0, 10 ** 9)), rs=draw(st.integers(1, 2 ** 31 - 1)), lev=draw(gens.logfl(0.5, 500)), psf=draw(st.integers(0, 5)) == 0)


def run_sample(ctx, c):
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    r = np.random.default_rng(c["seed"])
    n = nx * ny
    frac = {"none": 0.0, "few": 0.1, "half": 0.5, "most": 0.85, "edge": 0.0}[c["mask"]]
    good = r.random(n) >= frac
    if c["mask"] == "edge":
        g = good.reshape(ny, nx)
        g[:, -1] = g[-1] = False
        if nx > 2:
            g[:, 0] = False
    if good.sum() < 4:
        raise Skip("few pixels")
    idx = np.flatnonzero(good)
    nv = len(idx)
    # classes: 1 = a single pixel, 0 and 2 = a random division of the others, 3 = masked pixels
    cls = r.choice([0, 2], n)
    cls[{"first": idx[0], "last": idx[-1], "random": r.choice(idx)}[c["one"]]] = 1
    cls[~good] = 3
    B = nv + 1
    kind = c["kind"]
    lev = c["lev"]
    if kind == "cash":
        d = np.array([1.0, B, B * B, 3.7e9])
    else:
        d = lev * np.array([1.0, 2.5, 1.7, 40.0]) * r.uniform(0.9, 1.1, 4)
    data = d[cls].reshape(ny, nx)
    err = None
    sig = lev * r.uniform(0.5, 2.0, 4)
    if kind in F.ERRT:
        err = {"sigma": sig, "var": sig ** 2, "weight": 1 / sig ** 2}[kind][cls].reshape(ny, nx)
    ch = [1.0, 0.0, 1.0, 1, 0.0] if kind == "cash" else [float(r.uniform(0.5, 4)), 2.0, 1.0, int(r.integers(1, 3)), 10.0]
    mk = None
    if c["mask"] != "none":
        mk = np.where(good, 0.0, 1.0) if c["mfmt"] == 10 else np.where(good, 1.0, 0.0)
        mk = mk.reshape(ny, nx)
    psf = [[0.0, 0.1, 0.0], [0.1, 0.6, 0.1], [0.0, 0.1, 0.0]] if c["psf"] else None
    sky = 0.3 if kind == "cash" else lev * 1.3
    params = M.setup(w, 60, nx, ny, gens.config([[2.0, 2.0, [["FlatSky", [sky], {}]]]]), psf=psf, data=data, chars=ch, mask=mk, mfmt=c["mfmt"], err=err, errtype=F.ERRT.get(kind, 100), stat=kind if kind in ("cash", "pmlr", "model") else None)
    p = list(params)
    what = "bootstrap sample of %d valid of %d pixels (%s)" % (nv, n, kind)
    require(w.call("mnvalid", 60)[0] == nv, "%s: %s valid pixels reported", what, w.call("mnvalid", 60)[0])
    img = M.image(w, 60, p, nx, ny)
    m = float(img[0, 0])
    t, _ = S.terms(kind, d, np.full(4, m), ch, None if err is None else {"sigma": sig, "var": sig ** 2, "weight": 1 / sig ** 2}[kind])
    plain = float(S.stat(kind, data, img, ch, err, good.reshape(ny, nx))[0])
    s0 = w.call("mstatval", 60, p)[0]
    close(s0, plain, 1e-7, 1e-7, what + ": statistic before resampling")
    require(w.call("mboot", 60, c["rs"])[0] >= 0, "%s: UseBootstrap fails", what)
    R = 20
    counts = []
    for k in range(R):
        if k:
            require(w.call("mbootsample", 60)[0] >= 0, "%s: MakeBootstrapSample fails", what)
        if kind == "cash":
            s = w.call("mstatval", 60, p)[0]
            tot = (2 * m * nv - s) / (2 * math.log(m))
            q = int(round(tot))
            require(abs(tot - q) < 0.2, "%s: sum of the resampled data is %r, not an integer (sample %d)", what, tot, k)
            cnt = [q % B, q // B % B, q // (B * B)]
            require(sum(cnt) == nv, "%s: sample %d has data sum %d, which is not a sum of %d valid pixel values", what, k, q, nv)
        else:
            y = np.array(w.call("mdev", 60, nv, p)[0])
            dv = y * y if kind != "pmlr" else None
            if kind == "pmlr":
                dv = y * y
            cnt = [0, 0, 0]
            for v in dv:
                e = np.abs(t - v) / (np.abs(t) + 1e-9)
                j = int(e.argmin())
                require(e[j] < 1e-6, "%s: sample %d contains a deviate (%r) of no pixel", what, k, v)
                require(j < 3, "%s: sample %d contains a masked pixel", what, k)
                cnt[j] += 1
            s = w.call("mstatval", 60, p)[0]
            close(s, float(np.dot(cnt, t[:3])), 1e-8, 1e-8 * float(np.dot(cnt, np.abs(t[:3]))), what + ": statistic of a resample against its pixels")
        counts.append(cnt)
    counts = np.array(counts, float)
    frq = np.array([(cls == k).sum() for k in range(3)]) / nv
    for k in range(3):
        mu, sd = R * nv * frq[k], math.sqrt(R * nv * frq[k] * (1 - frq[k]))
        x = counts[:, k].sum()
        require(abs(x - mu) <= 6.5 * sd + 6, "%s: class of %d pixels drawn %d times in %d samples, expected %.1f +/- %.1f", what, (cls == k).sum(), x, R, mu, sd)
    if nv >= 12:
        for k in (0, 2):
            if 0.2 < frq[k] < 0.8:
                v = ((counts[:, k] - nv * frq[k]) ** 2).sum() / (nv * frq[k] * (1 - frq[k]))
                require(R / 8 <= v <= R * 4, "%s: counts of a class over %d samples scatter %.2g times as much as with independent draws with replacement: %s", what, R, v / R, counts[:, k].tolist())
    M.free(w, 60)
    ctx.note(nontrivial=nv < n, tag=kind)


# ---------------------------------------------------------------- rows of the library routine

@st.composite
def rows_case(draw):
    c = draw(F.scene(maxn=7, section=False, total=2, fixed=0.35, max_funcs=2))
    c["it"] = draw(st.integers(3, 6 if c["kind"] == "cash" else 10))
    c["rs"] = draw(st.integers(1, 10 ** 6))
    c["tight"] = draw(st.booleans())
    c["ftol"] = draw(st.sampled_from([1e-8, 1e-4]))
    return c


def tighten(c, P):
    """Narrow limits around the start, so that many resampled fits end on them."""
    r = np.random.default_rng(c["seed"] + 17)
    for k, l in enumerate(P.lims):
        if l in (None, "fixed") or r.random() < 0.4:
            continue
        s, wd = P.start[k], (l[1] - l[0]) * 0.02
        P.lims[k] = (max(l[0], float("%.6g" % (s - wd))), min(l[1], float("%.6g" % (s + wd))))
        P.lims[k] = (min(P.lims[k][0], s), max(P.lims[k][1], s))


def run_rows(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if c["tight"]:
        tighten(c, P)
    nv = int(P.good.sum())
    if nv - P.nfree <= 1:
        raise Skip("few pixels")
    start = F.fit_library(w, 61, c, P, sets=F.with_values(c["sets"], P.start))
    if not F.in_domain(c, P, M.image(w, 61, list(start), c["nx"], c["ny"])):
        raise Skip("noise variances not positive")
    n = len(start)
    s0 = w.call("mstatval", 61, list(start))[0]
    d0 = w.call("mdev", 61, c["nx"] * c["ny"], list(start))[0] if c["kind"] != "cash" else None
    what = "bootstrap of %d iterations (%s)" % (c["it"], c["kind"])
    res = []
    for seed in (c["rs"], c["rs"], c["rs"] + 1):
        k, a = w.call("mboots", 61, c["it"], float(c["ftol"]), seed, 0, list(start), pinfo(P))
        a = np.array(a).reshape(c["it"], n)
        res.append((int(k), a))
        s1 = w.call("mstatval", 61, list(start))[0]
        require(s1 == s0 or (np.isnan(s0) and np.isnan(s1)), "%s: statistic of the data was %r before and is %r after", what, s0, s1)
        if d0 is not None:
            require(np.array_equal(np.array(w.call("mdev", 61, c["nx"] * c["ny"], list(start))[0]), np.array(d0), equal_nan=True), "%s: deviates of the data differ after it", what)
        require(0 <= k <= c["it"], "%s: reports %d successes", what, k)
        require(np.isnan(a[int(k):]).all(), "%s: rows beyond the %d successful ones are written", what, k)
        a = a[:int(k)]
        for j, l in enumerate(P.lims):
            col = a[:, j]
            if l == "fixed":
                require((col == start[j]).all(), "%s: fixed parameter %d (%r) varies: %s", what, j, start[j], col.tolist())
            elif l is not None:
                require(((col >= l[0]) & (col <= l[1])).all(), "%s: parameter %d leaves its limits %s: %s", what, j, l, col.tolist())
    M.free(w, 61)
    require(res[0][0] == res[1][0] and np.array_equal(res[0][1], res[1][1], equal_nan=True), "%s: the same seed gives different rows", what)
    k = res[0][0]
    a = res[0][1][:k]
    vary = k > 0 and (a.max(0) > a.min(0)).any()
    if k >= 3 and np.isfinite(s0) and c["noise"] and any(l is None and q == "I" for l, q in zip(P.lims, P.kinds)) and not any(l not in (None, "fixed") for l in P.lims):
        require(vary or not np.array_equal(a[0], start), "%s: every row equals the best fit", what)
    ctx.note(nontrivial=bool(vary) and k >= 3 and "fixed" in P.lims, tag=c["kind"])
    ctx.note(tag="limits reached" if any(l not in (None, "fixed") and ((a[:, j] == l[0]) | (a[:, j] == l[1])).any() for j, l in enumerate(P.lims)) else "interior")


# ---------------------------------------------------------------- what is fitted: means of two-valued data lie on a lattice

@st.composite
def lattice_case(draw):
    nx, ny = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    return dict(nx=nx, ny=ny, stat=draw(st.sampled_from(["sigma", "var", "weight", "pmlr", "cash", "data"])), mask=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 9)), rs=draw(st.integers(1, 10 ** 6)), it=draw(st.sampled_from([6, 12])),
                sec=draw(st.booleans()), sky=draw(st.sampled_from([0.0, 20.0])))


def run_lattice(ctx, c):
    nx, ny, kind = c["nx"], c["ny"], c["stat"]
    r = np.random.default_rng(c["seed"])
    good = r.random((ny, nx)) > (0.3 if c["mask"] else -1)
    nv = int(good.sum())
    if nv < 4:
        raise Skip("few pixels")
    lo, hi = float(r.integers(60, 120)), float(r.integers(150, 250))
    if kind == "data":
        lo = hi = lo
    frac = 0.5
    pick = r.random((ny, nx)) < frac
    data = np.where(pick, hi, lo)
    data[~good] = r.choice([1e5, 3.0, 700.0], int((~good).sum()))
    na = int((pick & good).sum())
    d = ctx.newdir()
    sec = [2, 3, 1, 2] if c["sec"] else None
    s = "[3:%d,4:%d]" % (nx + 2, ny + 3) if sec else ""
    fits.write(os.path.join(d, "data.fits"), F.embed(data, sec, r, 1000.0))
    a = ["data.fits" + s, "-c", "c.dat", "--sky", c["sky"]]
    if c["mask"]:
        fits.write(os.path.join(d, "mask.fits"), F.embed(np.where(good, 0.0, 1.0), sec, r, 1.0))
        a += ["--mask", "mask.fits" + s]
    if kind in F.ERRT:
        fits.write(os.path.join(d, "err.fits"), F.embed(np.full((ny, nx), 7.0), sec, r, 1.0))
        a += ["--noise", "err.fits" + s] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[kind]
    a += {"cash": ["--cashstat", "--nm"], "pmlr": ["--poisson-mlr"]}.get(kind, [])
    open(os.path.join(d, "c.dat"), "w").write("X0 5 fixed\nY0 5 fixed\nFUNCTION FlatSky\nI_sky 130  10,1000\n")
    N = c["it"]
    q = ctx.run("imfit", a + ["--ftol", "1e-12", "--bootstrap", N, "--save-bootstrap", "b.dat", "--seed", c["rs"], "--max-threads", "1"], d)
    what = "bootstrap of a constant fitted to %d pixels of values %g and %g (%s)" % (nv, lo, hi, kind)
    require(q.rc == 0, "%s fails: %s", what, q.tail())
    rows = read_rows(d, what)
    if hi == lo:
        require(all(abs(x[2] - lo) < 1e-4 * lo for x in rows), "%s: rows %s", what, [x[2] for x in rows])
        return
    tol = 1e-3 if kind != "cash" else 0.05
    tot = 0
    for x in rows:
        require(x[0] == 5 and x[1] == 5, "%s: fixed centre in row %s", what, x)
        k = (x[2] - lo) / (hi - lo) * nv
        require(abs(k - round(k)) <= tol and -tol < k < nv + tol, "%s: row value %r is not the mean of a sample of its pixels (%r of %d high ones)", what, x[2], k, nv)
        tot += round(k)
    p = na / nv
    R = len(rows)
    require(abs(tot - R * na) <= 6.5 * math.sqrt(R * nv * p * (1 - p)) + 6, "%s: %d high pixels of %d in all rows, expected %.1f", what, tot, R * nv, R * na)
    ctx.note(nontrivial=c["mask"] and R >= 3 and 0 < na < nv, tag=kind)


# ---------------------------------------------------------------- the program

def read_rows(d, what, name="b.dat"):
    rows = []
    for l in open(os.path.join(d, name)):
        if l.strip() and not l.startswith("#"):
            rows.append([float(t) for t in l.split()])
    return rows


@st.composite
def cli_case(draw):
    c = draw(F.scene(maxn=9, total=2, fixed=0.3, max_funcs=2))
    c["it"] = draw(st.integers(1, 7 if c["kind"] == "cash" else 16))
    if draw(st.integers(0, 2)):
        c["it"] = max(c["it"], 4)
    c["rs"] = draw(st.integers(1, 10 ** 6))
    c["tight"] = draw(st.integers(0, 2)) == 0
    c["save"] = draw(st.integers(0, 5)) > 0
    c["fso"] = draw(st.integers(0, 5)) == 0
    c["badfile"] = draw(st.integers(0, 11)) == 0
    return c


NUM = r"([-+.\deEinfa]+)"
ROW = re.compile(r"^(\S+) = %s\s+\+%s, -%s\s+\[%s -- %s, %s\];\s+\(%s \+/- %s\)$" % ((NUM,) * 8))
FIX = re.compile(r"^(\S+) = %s\s+\[fixed parameter\]$" % NUM)


def g6(v):
    return 6e-6 * abs(v)


def sd1(col):
    return float(np.std(col, ddof=1))


def summary(out, what):
    m = re.search(r"Statistics for parameter values from bootstrap resampling \((\d+) successful iterations\):\n(.*\n)", out)
    require(m is not None, "%s: no summary: %s", what, out[-800:])
    lines = []
    for l in out[m.end():].split("\n"):
        if not l.strip() or not (" = " in l):
            if lines:
                break
            continue
        lines.append(l.rstrip())
    return int(m.group(1)), lines


def check_summary(what, lines, rows, best, free):
    """lines: printed rows of the summary; rows: written resampled fits; best: list of best values (None unknown)."""
    n = rows.shape[1]
    require(len(lines) == n, "%s: summary lists %d parameters of %d: %s", what, len(lines), n, lines)
    for j, l in enumerate(lines):
        m = FIX.match(l)
        require((m is not None) == (not free[j]), "%s: parameter %d is %s but its line is %r", what, j, "free" if free[j] else "fixed", l)
        if m:
            close(float(m.group(2)), rows[0, j], 6e-6, 1e-12, "%s: fixed parameter %s in the summary and in the rows" % (what, m.group(1)))
            continue
        m = ROW.match(l)
        require(m is not None, "%s: unreadable line %r", what, l)
        b, plus, minus, lo, hi, half, mean, sd = (float(x) for x in m.groups()[1:])
        col = np.sort(rows[:, j])
        mag = max(abs(col).max(), 1e-300)
        at = 2e-9 * mag
        name = "%s: %s" % (what, m.group(1))
        if best is not None:
            require(abs(b - best[j]) <= g6(b) + 1e-4 * 0 + best_tol(best[j], j), "%s: best fit is %r in the summary, %r in the saved parameters", name, b, best[j])
        close(mean, float(col.mean()), 7e-6, at, name + " mean of the rows")
        close(sd, sd1(col), 7e-6, 10 * at, name + " standard deviation of the rows")
        k = len(col)
        for v, fr, side in ((lo, 0.1587, "lower"), (hi, 0.8413, "upper")):
            e = np.abs(col - v) <= g6(v) + at
            require(e.any(), "%s: %s confidence limit %r is not one of the rows %s", name, side, v, col.tolist())
            pos = np.flatnonzero(e)
            want = fr * k - 0.5
            require(pos.min() - 1.51 <= want <= pos.max() + 1.51, "%s: %s confidence limit is element %s of %d sorted rows", name, side, pos.tolist(), k)
        gl = g6(hi) + g6(lo)
        require(lo <= hi + gl, "%s: confidence limits %r, %r in the wrong order", name, lo, hi)
        close(half, (hi - lo) / 2, 1e-5, gl, name + " half-width of the printed limits")
        close(plus, hi - b, 1e-5, g6(hi) + g6(b), name + " upper error")
        close(minus, b - lo, 1e-5, g6(lo) + g6(b), name + " lower error")


def best_tol(v, j):
    return 0.51e-4 + 6e-6 * abs(v)


def strip_run(text):
    return "\n".join(l for l in text.split("\n") if not l.startswith(("(Elapsed", "Date", "Reading")) and l.strip())


def saved(path):
    return [l.rstrip() for l in open(path) if l.strip() and not re.match(r"#.*(Generated on|imfit|data\.fits)", l)]


def run_cli(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if c["tight"]:
        tighten(c, P)
    if int(P.good.sum()) - P.nfree <= 1:
        raise Skip("few pixels")
    what = "imfit --bootstrap %d (%s%s)" % (c["it"], c["kind"], ", --fitstat-only" if c["fso"] else "")
    sol = ["--nm"] if c["kind"] == "cash" else []
    base = ["--max-threads", "1", "--save-model", "m.fits", "--save-residual", "r.fits", "--save-weights", "w.fits"] + (["--fitstat-only"] if c["fso"] else ["--save-params", "p.dat"]) + sol
    bname = "nodir/b.dat" if c["badfile"] else "b.dat"
    bopts = ["--bootstrap", c["it"], "--seed", c["rs"]] + (["--save-bootstrap", bname] if c["save"] or c["badfile"] else [])
    dirs, outs = [], []
    for extra in ([], bopts, bopts):
        d = ctx.newdir()
        data, opts = F.files(d, c, P)
        open(os.path.join(d, "c.dat"), "w").write(F.start_config(c, P))
        q = ctx.run("imfit", [data, "-c", "c.dat"] + opts + base + extra, d, cpu=10)
        if q.timeout:
            raise Skip("slow fit")
        require(not q.crashed, "%s crashed: %s", what, q.tail())
        dirs.append(d)
        outs.append(q)
        if q.rc and not extra:
            raise Skip("refused")
        require(q.rc == 0, "%s fails: %s", what, q.tail())
    plain, one, two = outs
    # (1) the fit itself is not affected
    if not c["fso"]:
        if re.search(r"nan|forced termination", plain.out):
            raise Skip("undefined values")
        A, B = F.printed(plain.out, c), F.printed(one.out, c)
        require(A == B, "%s: printed results differ from those without bootstrap\n%s\n%s", what, A, B)
        pa, pb = (saved(os.path.join(d, "p.dat")) for d in dirs[:2])
        require(pa == pb, "%s: saved parameters differ from those without bootstrap\n%s\n%s", what, "\n".join(pa), "\n".join(pb))
        best = [float(l.split()[1]) for l in F.body_lines(open(os.path.join(dirs[1], "p.dat")).read()) if not l.startswith(("FUNCTION", "OPTIONAL", "method"))]
    else:
        best = F.shift(P.start, P.kinds, P.off)
    for f in ("m.fits", "r.fits", "w.fits"):
        ia, ib = (fits.read(os.path.join(d, f))[0] for d in dirs[:2])
        require(np.array_equal(ia, ib, equal_nan=True), "%s: %s differs from that without bootstrap", what, {"m": "model image", "r": "residual image", "w": "weight image"}[f[0]])
    # (2) repeatable
    strip = lambda q: [l for l in q.out.split("\n") if "Elapsed" not in l]
    require(strip(one) == strip(two), "%s: two runs with seed %d print different results", what, c["rs"])
    if c["badfile"]:
        require(not os.path.exists(os.path.join(dirs[1], bname)), "file in a missing directory?")
        ctx.note(tag="unwritable file")
        return
    if not c["save"]:
        require(sorted(os.listdir(dirs[0])) == sorted(os.listdir(dirs[1])), "%s writes files without --save-bootstrap", what)
        ctx.note(tag="not saved")
        return
    ra, rb = (read_rows(d, what) for d in dirs[1:])
    require(ra == rb, "%s: two runs with seed %d write different rows", what, c["rs"])
    n = len(P.start)
    require(all(len(x) == n for x in ra), "%s: rows of %s columns for %d parameters", what, sorted({len(x) for x in ra}), n)
    require(len(ra) <= c["it"], "%s: %d rows", what, len(ra))
    few = re.search(r"Not enough successful bootstrap iterations \((\d+)\)", one.out)
    if few:
        k = int(few.group(1))
        require(k < 3, "%s: %d successes said not to be enough", what, k)
    else:
        k, lines = summary(one.out, what)
        require(k >= 3, "%s: summary for %d successes", what, k)
    require(len(ra) == k, "%s: %d successful iterations reported, %d rows written", what, k, len(ra))
    text = open(os.path.join(dirs[1], "b.dat")).read()
    require(("(%d iterations requested)" % c["it"]) in text, "%s: file header does not give the number of iterations", what)
    head = [l for l in text.split("\n") if re.match(r"#\s+X0_1\s", l)]
    require(len(head) == 1, "%s: no single line of column names", what)
    want, nf = [], 0
    for i, s in enumerate(c["sets"]):
        want += ["X0_%d" % (i + 1), "Y0_%d" % (i + 1)]
        for f in s[2]:
            nf += 1
            want += ["%s_%d" % (x, nf) for x in gens.pnames(f[0])]
    require(head[0][1:].split() == want, "%s: column names %s, expected %s", what, head[0][1:].split(), want)
    if ra:
        rows = np.array(ra)
        full = F.full_limits(P)
        for j, l in enumerate(full):
            col = rows[:, j]
            if l == "fixed":
                v = F.shift(P.start, P.kinds, P.off)[j]
                require((np.abs(col - v) <= 1e-9 * abs(v)).all(), "%s: fixed parameter %d (%r) is %s in the rows", what, j, v, col.tolist())
            elif l is not None:
                require(((col >= l[0] - 1e-9 * (1 + abs(l[0]))) & (col <= l[1] + 1e-9 * (1 + abs(l[1])))).all(), "%s: parameter %d has limits %s in the image's coordinates, rows %s", what, j, l, col.tolist())
        if k >= 3:
            check_summary(what, lines, rows, best, P.free)
    ctx.note(nontrivial=k >= 3 and not c["fso"], tag=c["kind"])
    ctx.note(tag="section" if c["sec"] else "whole image")


CHECK = dict(
    property="P16",
    needs={"opt": (("imfit",), True)},
    rule="sample: some pixel is masked; rows: at least three successful fits with differing values and a fixed parameter; lattice: a mask and both pixel values present; cli: at least three successful iterations after a real fit",
    assumptions=["The random-number stream is not pinned: only its reproducibility for equal seeds and the uniformity of the draws (6.5 sigma) are checked.", "Resampled fits that the solver reports as failed produce no row; which ones fail is not predicted.",
                 "Confidence limits may be one sorted element away from the exact 15.87% and 84.13% quantile."],
    components=[Component("sample", sample_case(), run_sample, 200, 2500),
                Component("rows", rows_case(), run_rows, 120, 2500),
                Component("lattice", lattice_case(), run_lattice, 100, 1200),
                Component("cli", cli_case(), run_cli, 150, 1800)],
)
