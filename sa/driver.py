"""Runs the analyses a property needs on /repo's current source and reports."""
import os, sys, json, time, shutil, subprocess, tempfile, traceback, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = shutil.which('clang') or 'clang'
CFLAGS = ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-std=c99', '-DNDEBUG', '-fno-strict-aliasing', '-w']


class BuildError(Exception):
    pass


def sources():
    s = sorted(glob.glob(REPO + '/src/*.c')) + sorted(glob.glob(REPO + '/src/blake2/*.c'))
    if not s:
        raise BuildError('no sources under %s/src' % REPO)
    return s


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make_config(scratch):
    """config.h as the build under test generates it (a scratch cmake configure)"""
    b = scratch + '/cfg'
    env = dict(os.environ)
    for k in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'DESTDIR'):
        env.pop(k, None)
    r = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_C_COMPILER=/usr/bin/gcc',
            '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_C_FLAGS=-Wno-error',
            '-DBUILD_RDIFF=ON', '-DBUILD_SHARED_LIBS=ON'], env=env)
    if r.returncode == 0 and os.path.exists(b + '/src/config.h'):
        return b + '/src', 'cmake'
    d = scratch + '/fb'
    os.makedirs(d, exist_ok=True)
    shutil.copy(VERIF + '/fallback/config.h', d + '/config.h')
    return d, 'committed copy (cmake failed)'


def build_ir(scratch):
    """-> text of the linked module in SSA form, list of files, config source"""
    cfg, how = make_config(scratch)
    procs = []
    bcs = []
    files = []
    for c in sources():
        bc = '%s/%s.bc' % (scratch, os.path.basename(c)[:-2])
        cmd = [CLANG] + CFLAGS + ['-I', REPO + '/src/blake2', '-I', cfg, '-I', REPO + '/src', '-emit-llvm', '-c', c,
                                  '-o', bc]
        procs.append((c, bc, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                              cwd=REPO + '/src')))
        bcs.append(bc)
        files.append(os.path.relpath(c, REPO))
    for c, bc, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('cannot compile %s:\n%s' % (c, out[-2000:]))
    r = sh(['llvm-link'] + bcs + ['-o', scratch + '/all.bc'])
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stdout[-2000:])
    r = sh(['opt', '-passes=sroa', '-S', scratch + '/all.bc', '-o', scratch + '/all.ll'])
    if r.returncode:
        raise BuildError('opt: ' + r.stdout[-2000:])
    return open(scratch + '/all.ll').read(), files, how


def run_analysis(name, text, tier, q):
    import irparse
    import analyses
    t0 = time.time()
    res = dict(name=name, violations=[], error=None, cov={})
    try:
        mod = irparse.parse_module(text)
        fn = analyses.ANALYSES[name]
        res.update(fn(mod, tier))
    except BaseException as e:   # noqa
        from engine import AnalysisError
        res['error'] = ('%s: %s' % (type(e).__name__, e)) if isinstance(e, AnalysisError) else traceback.format_exc()[-1500:]
        res['violations'] = getattr(e, 'violations', [])
    res['wall_s'] = round(time.time() - t0, 2)
    q.put(res)


def run_all(names, text, tier, jobs=8):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pending = list(names)
    live = {}
    out = {}
    while pending or live:
        while pending and len(live) < jobs:
            n = pending.pop(0)
            p = ctx.Process(target=run_analysis, args=(n, text, tier, q))
            p.start()
            live[n] = p
        try:
            r = q.get(timeout=1.0)
            out[r['name']] = r
            live.pop(r['name']).join()
        except Exception:
            for n, p in list(live.items()):
                if not p.is_alive() and q.empty():
                    time.sleep(0.2)
                    if q.empty():
                        out[n] = dict(name=n, violations=[], error='analysis process died (%s)' % p.exitcode, cov={},
                                      wall_s=0)
                        live.pop(n)
    return out


def relfile(f):
    if not f:
        return f
    if f.startswith(REPO + '/'):
        return f[len(REPO) + 1:]
    if os.path.exists(REPO + '/src/' + f):
        return 'src/' + f
    return f


def vkey(v):
    return '%s:%s: %s' % (v.get('file') or '?', v.get('function') or '?', v['msg'])


def load_known():
    p = VERIF + '/known-findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main(argv):
    import analyses
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = VERIF + '/evidence'
    os.makedirs(ev, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vsa-')
    try:
        text, files, how = build_ir(scratch)
    except BuildError as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    names = analyses.PROPS[pid]
    res = run_all(names, text, tier)
    viol, errs = [], []
    cov = dict(analyses={})
    obl = prv = 0
    funcs = {}
    for n in names:
        r = res[n]
        for v in r['violations']:
            if pid in v['tags']:
                v['analysis'] = n
                v['file'] = relfile(v.get('file'))
                viol.append(v)
        if r['error']:
            errs.append('%s: %s' % (n, r['error']))
        c = r.get('cov', {})
        t = c.get('by_tag', {}).get(pid)
        if t:
            obl += t[0]
            prv += t[1]
        for f, k in c.get('functions', {}).items():
            funcs[f] = funcs.get(f, 0) + k
        cov['analyses'][n] = dict(obligations=t[0] if t else 0, discharged=t[1] if t else 0, wall_s=r['wall_s'],
                                  **{k: x for k, x in c.items() if k not in ('by_tag', 'functions')})
    known = load_known()
    fresh = []
    for v in viol:
        hit = None
        for k in known:
            if k['property'] == pid and k['file'] == v.get('file') and k['function'] == v.get('function') and \
                    k['message'] in v['msg']:
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
        else:
            fresh.append(v)
    if not errs and obl == 0:
        errs.append('no obligation of %s was generated (vanished anchor?)' % pid)
    cov['obligations'] = obl
    cov['discharged'] = prv
    cov['functions_analysed'] = len(funcs)
    cov['files'] = files
    cov['config_h'] = how
    cov['checker_cmd'] = 'python3 check.py %s %s' % (pid, tier)
    cov['trusted_base'] = analyses.TRUSTED
    cov['explanation'] = analyses.EXPLAIN.get(pid, '')
    cov['functions'] = dict(sorted(funcs.items()))
    doc = dict(property=pid, tier=tier, seed=seed, level=analyses.LEVEL.get(pid, 'other'), coverage=cov,
               assumptions=analyses.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open('%s/%s.json' % (ev, pid), 'w') as f:
        json.dump(doc, f, indent=1)
    rp = '%s/%s.violation.json' % (ev, pid)
    if fresh:
        json.dump(fresh, open(rp, 'w'), indent=1, default=str)
        for v in fresh[:8]:
            print('%s:%s %s(): [%s] %s' % (v.get('file'), v.get('line'), v.get('function'), v.get('rule'), v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if errs:
        for e in errs:
            print('ERROR: no answer: %s' % e)
        return 2
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (pid, obl, len(funcs), time.time() - t0))
    return 0
