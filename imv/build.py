"""Builds what the checks need from the current working tree of the repository under test.

Everything goes to /verif/.build (git-ignored), keyed by the content of sources, headers and flags,
so that a changed tree is always rebuilt and an unchanged one is not.
Two configurations: "opt" (as the shipped build, -O2) and "san" (address + undefined sanitizers).
"""
import hashlib, os, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IMV_REPO", "/repo")
BUILD = os.environ.get("IMV_BUILD", os.path.join(VERIF, ".build"))

_mo = "model_object convolver oversampled_region downsample psf_oversampling_info setup_model_object"
_fo = ("function_object func_gaussian func_exp func_gen-exp func_sersic func_gen-sersic func_core-sersic func_broken-exp "
       "func_broken-exp2d func_moffat func_flatsky func_tilted-sky-plane func_flatbar func_gaussian-ring func_gaussian-ring2side "
       "func_gaussian-ring-az func_edge-on-ring func_edge-on-ring2side func_king func_king2 func_ferrersbar2d func_peanut_dattathri "
       "helper_funcs helper_funcs_3d psf_interpolators func_edge-on-disk integrator func_expdisk3d func_brokenexpdisk3d "
       "func_gaussianring3d func_ferrersbar3d func_pointsource func_pointsource-rot")
_so = "levmar_fit mpfit diff_evoln_fit DESolver dispatch_solver solver_results nmsimplex_fit nlopt_fit"
_cd = "check_outliers dream dream_initialize dream_pars gelman_rubin gen_CR restore_state"
_ba = ("mp_enorm statistics mersenne_twister commandline_parser utilities config_file_parser add_functions count_cpu_cores "
       "image_io getimages print_results bootstrap_errors estimate_memory print_results_multi "
       "model_object_multimage read_simple_params paramvector_processing param_holder imageparams_file_parser "
       "store_psf_oversampling utilities_multimfit")
LIBDIRS = (("core", _mo + " " + _ba), ("function_objects", _fo), ("solvers", _so), ("cdream", _cd))
MAINS = {"imfit": "core/imfit_main.cpp", "makeimage": "core/makeimage_main.cpp", "imfit-mcmc": "core/mcmc_main.cpp",
         "multimfit": "core/multimfit_main.cpp", "makemultimages": "core/makemultimages_main.cpp"}
INC = ["", "core", "solvers", "cdream", "cdream/include", "function_objects"]
BASEFLAGS = ["-std=c++11", "-w", "-fPIC", "-msse2", "-fopenmp", "-include", "cstring",
             "-DANSI", "-DUSING_SCONS", "-DLINUX", "-DFFTW_THREADING", "-DUSE_OPENMP", "-DIMFIT_VERIF"]
CONFIGS = {
    "opt": ["-O2", "-g0"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow",
            "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LIBS = ["-lcfitsio", "-lfftw3_threads", "-lfftw3", "-lnlopt", "-lgsl", "-lgslcblas", "-lpthread", "-ldl", "-lm"]


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _headers_hash():
    h = hashlib.sha256()
    for d in ("", "core", "solvers", "cdream", "cdream/include", "function_objects", "loguru"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.h")) + glob.glob(os.path.join(REPO, d, "*.hpp"))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def lib_sources():
    """(path, required) for every library source: the known ones that exist, plus any file added since the base tree."""
    base = set(open(os.path.join(VERIF, "imv", "baseline_sources.txt")).read().split())
    out = []
    for d, names in LIBDIRS:
        known = set(n + ".cpp" for n in names.split())
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if not f.endswith(".cpp"):
                continue
            rel = d + "/" + f
            if f in known:
                out.append((rel, True))
            elif rel not in base:
                out.append((rel, False))
    return out


class BuildError(Exception):
    pass


def _compile(cfg, path, hh, extra=()):
    src = open(path, "rb").read()
    flags = BASEFLAGS + CONFIGS[cfg] + list(extra)
    key = _sha(path, src, hh, " ".join(flags))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = ["g++"] + flags + ["-I" + os.path.join(REPO, i) for i in INC] + ["-c", path, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (path, r.stderr[-3000:]))
        os.replace(tmp, obj)
    return obj


def build(cfg="opt", progs=(), worker=False, jobs=None):
    """Returns {name: path} of the requested executables."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = _headers_hash()
    libs = lib_sources()
    tasks = [(os.path.join(REPO, r), req, ()) for r, req in libs]
    mains = [(p, os.path.join(REPO, MAINS[p])) for p in progs]
    wsrc = os.path.join(VERIF, "imv", "worker.cpp")
    objs, mainobjs = [], {}
    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        # large files first: they dominate the critical path
        order = sorted([(t[0], t[1]) for t in tasks] + [(m, True) for _, m in mains] + ([(wsrc, True)] if worker else []),
                       key=lambda t: -os.path.getsize(t[0]))
        futs = {}
        for path, req in order:
            futs[path] = (ex.submit(_compile, cfg, path, hh), req)
        for path, (f, req) in futs.items():
            try:
                futs[path] = f.result()
            except BuildError:
                if req:
                    raise
                futs[path] = None
    objs = [futs[t[0]] for t in tasks if futs[t[0]]]
    akey = _sha(cfg, *sorted(objs))
    ar = os.path.join(BUILD, "bin", "lib-%s.a" % akey)
    if not os.path.exists(ar):
        tmp = ar + ".%d.tmp" % os.getpid()
        subprocess.run(["ar", "rcs", tmp] + objs, check=True, capture_output=True)
        os.replace(tmp, ar)
    out = {}

    def link(name, obj):
        key = _sha(akey, obj, name)
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, cfg, key))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            san = [f for f in CONFIGS[cfg] if f.startswith("-fsanitize")]
            r = subprocess.run(["g++", "-fopenmp"] + san + [obj, ar] + LIBS + ["-o", tmp], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
            os.replace(tmp, exe)
        return name, exe
    todo = [(p, futs[m]) for p, m in mains] + ([("worker", futs[wsrc])] if worker else [])
    with ThreadPoolExecutor(8) as ex:
        for name, exe in ex.map(lambda t: link(*t), todo):
            out[name] = exe
    return out


if __name__ == "__main__":
    t = time.time()
    cfgs = sys.argv[1:] or ["opt", "san", "tsan"]
    for c in cfgs:
        print(c, build(c, progs=list(MAINS), worker=True), round(time.time() - t, 1))
