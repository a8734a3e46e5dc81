#!/usr/bin/env python3
"""Verify planted bugs: seedcheck.py [-j N] [--nocheck] [--all-checks] ID...
For each /verif/seeded/ID: in a scratch copy of /repo bind-mounted over /repo in a private user namespace,
run demo.sh on the unchanged tree (must exit 0), apply patch.diff, build, run the stable tests, run demo.sh
(must be nonzero) and the property's quick check (should exit 1)."""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
SEED = '/verif/seeded'
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base
    for k in ('passed', 'tests', 'stable'):
        if isinstance(b, dict) and k in b: return set(b[k])
    return set(b)
def ns(w, cmd, timeout, env=None):
    e = dict(os.environ); e.update(env or {})
    pre = f'mount --bind {w}/repo /repo && cd /repo && '
    try:
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''
import threading
TESTLOCK = threading.Lock()   # the repository's own tests interfere with each other when run concurrently
def one(i, docheck, allc):
    d = os.path.join(SEED, i); meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='sd_', dir='/tmp'); out = []
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        shutil.copytree(d, w + '/demo'); os.remove(w + '/demo/patch.diff'); os.remove(w + '/demo/meta.json')
        rc, o = ns(w, f'bash {w}/demo/demo.sh', 300); out.append(f'demo-clean={rc}')
        if rc != 0: out.append(o[-1500:])
        rc, o = ns(w, f'git apply {d}/patch.diff', 60)
        if rc != 0: return i, out + ['APPLY FAILED ' + o]
        rc, o = ns(w, 'bash /opt/vp/build.sh', 900); out.append(f'build={rc}')
        if rc != 0: return i, out + [o[-2000:]]
        rc, o = ns(w, f'bash {w}/demo/demo.sh', 300); out.append(f'demo-bug={rc} [{o.strip()[-160:]}]')
        with TESTLOCK: rc, o = ns(w, f'bash /opt/vp/test.sh {w}/t.json', 1200)
        try:
            got = set(json.load(open(w + '/t.json'))['passed']); miss = sorted(stable() - got)
            out.append(f'tests-missing={miss[:6]}')
        except Exception as ex: out.append(f'tests? {ex} {o[-300:]}')
        if docheck:
            props = [meta['property']] + (meta.get('also', []) if allc else [])
            for p in props:
                rc, o = ns(w, f'cd /verif && ./check {p} quick', 900, {'IMV_BUILD': w + '/bld', 'VERIF_SEED': '1', 'IMV_EVIDENCE': w + '/ev'})
                line = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                out.append(f'check {p}={rc} {line[:1]}')
                if rc not in (0, 1): out.append(o[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, out
if __name__ == '__main__':
    a = sys.argv[1:]; j = 2; chk = True; allc = False
    if '-j' in a: k = a.index('-j'); j = int(a[k+1]); del a[k:k+2]
    if '--nocheck' in a: a.remove('--nocheck'); chk = False
    if '--all-checks' in a: a.remove('--all-checks'); allc = True
    ids = a or sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(j) as ex:
        for i, out in ex.map(lambda i: one(i, chk, allc), ids): print(i, ' | '.join(out), flush=True)
