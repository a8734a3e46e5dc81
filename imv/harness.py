"""Generated-input checking harness.

A check is a list of components.  Each component has a Hypothesis strategy producing a plain-data case (JSON-able), and
a run(ctx, case) function which exercises the code under test and raises Violation when the property's oracle disagrees.
Cases are sharded over processes with seeds derived from VERIF_SEED; failures are shrunk by Hypothesis, replayed three
times from the plain case (without Hypothesis), and only then reported.
"""
import os, sys, json, time, hashlib, traceback, multiprocessing as mp, subprocess, shutil, tempfile, resource, signal, collections, math
import numpy as np
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase
import hypothesis.internal.conjecture.engine as _eng
from . import build as B
from .worker import Worker, WorkerDied, WorkerErr

VERIF = B.VERIF
_eng.MAX_SHRINKING_SECONDS = 30
SLOW = float(os.environ.get("IMV_SLOW", "0"))
NPROC = int(os.environ.get("IMV_JOBS", "8"))


class Violation(Exception):
    pass


class Skip(Exception):
    """Case outside the property's domain (counted)."""


class Known(Exception):
    """Case is an instance of a listed known finding."""
    def __init__(self, fid, msg=""):
        self.fid = fid
        Exception.__init__(self, msg)


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            p = tempfile.mkdtemp(prefix="imv", dir=d)
            return p
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="imv", dir=os.path.join(VERIF, ".build"))


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def crashed(self):
        return (self.rc < 0) or self.rc in (99, 134, 139) or "ERROR: AddressSanitizer" in self.err or "runtime error:" in self.err

    @property
    def timeout(self):
        """Ended by the time limits this harness set."""
        return self.rc in (-24, -9, -1000)

    def tail(self):
        return "rc=%s\nstdout: ...%s\nstderr: ...%s" % (self.rc, self.out[-800:], self.err[-1500:])


class Ctx:
    def __init__(self, bins, tmp):
        self.bins, self.tmp = bins, tmp
        self._w = {}
        self.n = 0
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.reset()

    def reset(self):
        self.nontrivial = False
        self.tags = []
        self.sample = None

    def note(self, nontrivial=None, tag=None):
        if nontrivial is not None:
            self.nontrivial = self.nontrivial or bool(nontrivial)
        if tag is not None:
            self.tags.append(str(tag))

    def worker(self, cfg="opt"):
        if cfg not in self._w:
            self._w[cfg] = Worker(self.bins[cfg]["worker"], env={"OMP_WAIT_POLICY": "passive"})
        return self._w[cfg]

    def close(self):
        for w in self._w.values():
            w.stop()

    def newdir(self):
        self.n += 1
        d = os.path.join(self.tmp, "c%d" % self.n)
        os.makedirs(d)
        return d

    def run(self, prog, args, cwd, cfg="opt", cpu=120, env=None, wall=300, stdin=b"", fsize=None):
        e = dict(os.environ)
        e["OMP_WAIT_POLICY"] = "passive"
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        if env:
            e.update(env)

        def lim():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28) if fsize is None else (fsize, fsize))
        try:
            r = subprocess.run([self.bins[cfg][prog]] + [a if isinstance(a, bytes) else str(a) for a in args], cwd=cwd, capture_output=True, env=e,
                               input=stdin, timeout=wall, preexec_fn=lim)
        except subprocess.TimeoutExpired as x:
            return Result(-1000, (x.stdout or b"").decode("latin1"), "TIMEOUT")
        return Result(r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1"))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(got, want, rtol, atol, what, extra=""):
    """Array comparison with stated tolerances; NaNs never equal anything."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s %s" % (what, got.shape, want.shape, extra))
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= atol + rtol * np.abs(want)
    if not ok.all():
        bad = np.argwhere(~ok)
        k = tuple(bad[0])
        # report the worst one
        with np.errstate(all="ignore"):
            dev = np.where(ok, 0, np.abs(got - want))
        dev = np.where(np.isnan(dev), np.inf, dev)
        w = np.unravel_index(np.argmax(dev), dev.shape) if dev.ndim else ()
        raise Violation("%s: %d of %d values differ; worst at %s: got %.12g expected %.12g %s" %
                        (what, len(bad), got.size, tuple(int(x) for x in w), got[w], want[w], extra))


class Component:
    def __init__(self, name, strategy, run, quick, thorough, rule="", exhaustive=None):
        self.name, self.strategy, self.run, self.quick, self.thorough, self.rule = name, strategy, run, quick, thorough, rule
        self.exhaustive = exhaustive      # optional list of fixed cases always run first (limiting values)


def _jsonable(c):
    if isinstance(c, dict):
        return {str(k): _jsonable(v) for k, v in c.items()}
    if isinstance(c, (list, tuple)):
        return [_jsonable(v) for v in c]
    if isinstance(c, bytes):
        return {"__b": c.decode("latin1")}
    if isinstance(c, (np.floating,)):
        return float(c)
    if isinstance(c, (np.integer,)):
        return int(c)
    return c


def _unjson(c):
    if isinstance(c, dict):
        if set(c) == {"__b"}:
            return c["__b"].encode("latin1")
        return {k: _unjson(v) for k, v in c.items()}
    if isinstance(c, list):
        return [_unjson(v) for v in c]
    return c


def canon(case):
    return _unjson(json.loads(json.dumps(_jsonable(case))))


def run_case(ctx, comp, case):
    """Returns (status, msg): ok / skip / known:<id> / violation."""
    ctx.reset()
    d0 = ctx.n
    try:
        comp.run(ctx, case)
        return "ok", ""
    except Skip as e:
        return "skip", str(e)
    except Known as e:
        return "known:" + e.fid, str(e)
    except Violation as e:
        return "violation", str(e)
    except MemoryError:
        raise
    except Exception as e:     # anything unexpected from the code under test or its output
        return "violation", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        for k in range(d0 + 1, ctx.n + 1):
            shutil.rmtree(os.path.join(ctx.tmp, "c%d" % k), ignore_errors=True)


class _Stop(Exception):
    pass


def _shard(args):
    (check, ci, shard, nshards, n, seed, bins, tmp, stopev, deadline, q) = args
    try:
        comp = check["components"][ci]
        wd = os.path.join(tmp, "%d_%d" % (ci, shard))
        os.makedirs(wd, exist_ok=True)
        ctx = Ctx(bins, wd)
        st = dict(eval=0, skip=0, known=collections.Counter(), tags=collections.Counter(), nontriv=set(), samples=[], fail=None, capped=False)
        known_msgs = {}

        last = [None]

        def one(case):
            case = canon(case)
            if time.time() > deadline:
                st["capped"] = True
                return
            if stopev.is_set() and st["fail"] is None:
                return
            last[0] = case
            tc = time.time()
            status, msg = run_case(ctx, comp, case)
            st["eval"] += 1
            if SLOW and time.time() - tc > SLOW:
                sys.stderr.write("slow %.1f s: %s\n" % (time.time() - tc, json.dumps(_jsonable(case))))
            for t in ctx.tags:
                st["tags"][t] += 1
            if status == "skip":
                st["skip"] += 1
            elif status.startswith("known:"):
                st["known"][status[6:]] += 1
                known_msgs[status[6:]] = msg
            elif status == "violation":
                st["fail"] = (case, msg)
                raise Violation(msg[:400])
            elif ctx.nontrivial:
                h = hashlib.sha1(json.dumps(_jsonable(case), sort_keys=True).encode()).digest()[:8]
                if h not in st["nontriv"]:
                    st["nontriv"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(json.dumps(_jsonable(case))[:700])
            if last[0] is not None and status == "ok":
                pass
        t0 = time.time()
        try:
            if comp.exhaustive:
                for k, c in enumerate(comp.exhaustive):
                    if k % nshards == shard:
                        one(c)
            f = given(comp.strategy)(one)
            f = hypothesis.seed(seed)(f)
            f = settings(max_examples=max(1, n), database=None, deadline=None, derandomize=False, print_blob=False,
                         report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                         phases=(Phase.generate, Phase.shrink))(f)
            if n > 0:
                f()
        except Violation:
            stopev.set()
        except hypothesis.errors.HypothesisException as e:
            if st["fail"] is None:
                q.put(("error", comp.name, "hypothesis: %s: %s" % (type(e).__name__, e)))
        except BaseExceptionGroup:
            stopev.set()
        if st["fail"] is not None:
            stopev.set()
        ctx.close()
        st["nontriv"] = list(st["nontriv"])
        st["wall"] = time.time() - t0
        st["known_msgs"] = known_msgs
        q.put(("done", ci, st))
    except BaseException as e:
        q.put(("error", "shard", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())))


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["id"]: k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"}


def main(check, argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    prop = check["property"]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    scale = float(os.environ.get("IMV_SCALE", "1"))
    for k, a in enumerate(argv):
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = argv[k + 1]
        elif a == "--only":
            only = argv[k + 1].split(",")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bins = {}
    for cfg, (progs, worker) in check["needs"].items():
        bins[cfg] = B.build(cfg, progs=progs, worker=worker)
    tb = time.time() - t0
    tmp = scratch_root()
    rc = 3
    try:
        if replay:
            rc = do_replay(check, bins, tmp, replay)
        else:
            rc = do_run(check, bins, tmp, tier, seed, only, scale, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


def do_replay(check, bins, tmp, path):
    r = json.load(open(path))
    comp = [c for c in check["components"] if c.name == r["component"]][0]
    ctx = Ctx(bins, tmp)
    status, msg = run_case(ctx, comp, _unjson(r["case"]))
    ctx.close()
    print("%s: %s" % (status, msg))
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (check["property"], path))
        return 1
    return 0


def do_run(check, bins, tmp, tier, seed, only, scale, t0, tb):
    prop = check["property"]
    cap = check.get("cap", {}).get(tier, 420 if tier == "quick" else 3000)
    deadline = time.time() + cap
    q = mp.Queue()
    jobs = []
    comps = check["components"]
    stopev = mp.Event()
    for ci, c in enumerate(comps):
        if only and c.name not in only:
            continue
        n = c.quick if tier == "quick" else c.thorough
        n = max(1, int(n * scale)) if n > 0 else 0
        shards = NPROC if n >= NPROC * 2 or (c.exhaustive and len(c.exhaustive) >= NPROC) else max(1, min(NPROC, n))
        for s in range(shards):
            ss = int.from_bytes(hashlib.sha256(("%s/%s/%d/%d" % (prop, c.name, seed, s)).encode()).digest()[:6], "big")
            jobs.append((check, ci, s, shards, (n + shards - 1) // shards, ss, bins, tmp, stopev, deadline, q))
    # longest components first would be ideal; interleave by order given
    agg = {c.name: dict(eval=0, skip=0, known=collections.Counter(), tags=collections.Counter(), nontriv=set(), samples=[], wall=0.0, capped=False) for c in comps}
    fails, errors, known_msgs = [], [], {}
    running, pending = [], list(jobs)
    ndone = 0
    expected = 0
    while pending or running:
        while pending and len(running) < NPROC:
            if stopev.is_set():
                pending = []
                break
            j = pending.pop(0)
            p = mp.Process(target=_shard, args=(j,))
            p.start()
            running.append(p)
            expected += 1
        try:
            kind, a, b = q.get(timeout=0.5)
            if kind == "done":
                c = comps[a]
                g = agg[c.name]
                g["eval"] += b["eval"]; g["skip"] += b["skip"]; g["known"].update(b["known"]); g["tags"].update(b["tags"])
                g["nontriv"].update(b["nontriv"]); g["wall"] += b["wall"]; g["capped"] |= b["capped"]
                if len(g["samples"]) < 3:
                    g["samples"] += b["samples"]
                known_msgs.update(b["known_msgs"])
                if b["fail"]:
                    fails.append((c, b["fail"][0], b["fail"][1]))
            else:
                errors.append("%s: %s" % (a, b))
        except Exception as e:
            if type(e).__name__ != "Empty":
                raise
        running = [p for p in running if p.is_alive() or p.join() or False]
    while True:
        try:
            kind, a, b = q.get(timeout=0.3)
        except Exception:
            break
        if kind == "done":
            c = comps[a]; g = agg[c.name]
            g["eval"] += b["eval"]; g["skip"] += b["skip"]; g["known"].update(b["known"]); g["tags"].update(b["tags"])
            g["nontriv"].update(b["nontriv"]); g["wall"] += b["wall"]; g["capped"] |= b["capped"]
            g["samples"] += b["samples"]
            known_msgs.update(b["known_msgs"])
            if b["fail"]:
                fails.append((c, b["fail"][0], b["fail"][1]))
        else:
            errors.append("%s: %s" % (a, b))

    violations = []
    unrep = []
    ctx = Ctx(bins, os.path.join(tmp, "replay")); os.makedirs(ctx.tmp, exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    fails.sort(key=lambda f: len(json.dumps(_jsonable(f[1]))))
    for comp, case, msg in fails[:3]:
        case = canon(case)
        res = []
        for _ in range(3):
            ctx2 = Ctx(bins, ctx.tmp)
            ctx2.n = ctx.n
            res.append(run_case(ctx2, comp, case))
            ctx.n = ctx2.n
            ctx2.close()
        if all(r[0] == "violation" for r in res):
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(json.dumps(_jsonable(case), sort_keys=True).encode()).hexdigest()[:12]
            path = os.path.join(rdir, "%s-%s-%s.json" % (prop, comp.name, h))
            json.dump(dict(property=prop, component=comp.name, case=_jsonable(case), message=res[0][1], seed=seed, tier=tier), open(path, "w"), indent=1)
            violations.append((comp.name, path, res[0][1]))
        else:
            unrep.append("%s: failed once but not on 3 replays (%s): %s -- %s" % (comp.name, [r[0] for r in res], msg[:300], json.dumps(_jsonable(case))[:600]))
    known = load_known(prop)
    seen_known = collections.Counter()
    for g in agg.values():
        seen_known.update(g["known"])
    unlisted = [k for k in seen_known if k not in known]
    for k in unlisted:
        errors.append("known finding %s is not listed" % k)
    total = sum(g["eval"] for g in agg.values())
    nt = sum(len(g["nontriv"]) for g in agg.values())
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
              coverage=dict(evaluations=total, distinct_nontrivial=nt, rule=check["rule"],
                            samples=[dict(component=n, case=s) for n, g in agg.items() for s in g["samples"][:2]][:12],
                            build_s=round(tb, 1),
                            components={n: dict(evaluations=g["eval"], distinct_nontrivial=len(g["nontriv"]), outside_domain=g["skip"], known=dict(g["known"]),
                                                capped_by_time=g["capped"], cpu_s=round(g["wall"], 1), classes=dict(g["tags"].most_common(60))) for n, g in agg.items() if g["eval"]},
                            unreproduced=unrep, errors=errors[:5]),
              assumptions=check.get("assumptions", []),
              violations=len(violations), violation_details=[dict(component=c, replay=p, message=m[:1500]) for c, p, m in violations])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for n, g in agg.items():
        if g["eval"]:
            print("  %-22s evaluations=%d nontrivial=%d skipped=%d known=%s cpu=%.1fs%s" % (n, g["eval"], len(g["nontriv"]), g["skip"], dict(g["known"]), g["wall"], " CAPPED" if g["capped"] else ""))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, build %.1fs, total %.1fs" % (prop, tier, seed, total, nt, tb, time.time() - t0))
    for k, e in known.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, e["what"]))
    for u in unrep:
        print("UNREPRODUCED: " + u)
    for e in errors:
        print("ERROR: " + e)
    for c, p, m in violations:
        print("[%s] %s" % (c, m))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    if errors:
        return 2
    return 0
