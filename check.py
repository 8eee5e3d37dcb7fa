#!/usr/bin/env python3-vt
"""check.py ID quick|thorough : decide one property on /repo's current working tree.
1. the contracts in spec/ are compiled together with /repo's current sources to LLVM IR; engine/ generates the
   verification conditions of the real code and discharges them (z3, cvc5);
2. a native driver (drive/) runs the same real code against an independent oracle: the labelled bounded stand-in for
   what surrounds the contracts, and the search for a concrete failing input when an obligation fails.
exit 0: held; exit 1 + VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, multiprocessing as mp, traceback, re
if os.environ.get('PYTHONHASHSEED') != '0': os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)   # the same run every time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine'); sys.path.insert(0, HERE + '/props'); sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')

def harness_job(arg):
    ll, h, opts, pid = arg
    t = time.time()
    try:
        import run, ir
        mod = ir.Module(ll)
        P = importlib.import_module(pid)
        o = dict(getattr(P, 'OPTS', {}).get('*', {})); o.update(getattr(P, 'OPTS', {}).get(h, {}))
        bud = o.pop('budget', 240); tmo = o.pop('tmo', 15000)
        r = run.run_harness(mod, h, o, bud, tmo)
        ex = r['ex']
        obls = [dict(name=x.name, kind=x.kind, where=x.where, status=x.status, solver=x.solver or '', time=round(x.time, 3), ctx=x.ctx, info=(x.model or '')[:3000]) for x in ex.obls]
        return dict(h=h, err=r['err'], obls=obls, covers=dict(ex.covers), funcs=sorted(set(ex.dm(f) for f in ex.funcs_seen)), models=sorted(ex.used_models), notes=sorted(ex.notes),
                    replaced=sorted(set(getattr(ex, 'replaced_seen', []))), paths=r['paths'], loops=ex.stats['loops'], qtime=round(ex.stats['qtime'], 2), wall=round(time.time()-t, 2))
    except Exception as e:
        return dict(h=h, err='%s: %s' % (type(e).__name__, str(e)[:500]) + ('' if type(e).__name__ == 'Unsupported' else traceback.format_exc()[-1500:]), obls=[], covers={}, funcs=[], models=[], notes=[], replaced=[], paths=0, loops=0, qtime=0, wall=round(time.time()-t, 2))

def harness_proc(q, arg): q.put(harness_job(arg))
def run_jobs(jobs, limit):
    """one process per harness, at most 6 at a time, each with a hard wall limit"""
    res = {}; run = []; todo = list(jobs)
    while todo or run:
        while todo and len(run) < 6:
            a = todo.pop(0); q = mp.Queue(); p = mp.Process(target=harness_proc, args=(q, a)); p.start(); run.append((p, q, a, time.time()))
        for r in list(run):
            p, q, a, t0 = r
            try: x = q.get(timeout=0.05)
            except Exception: x = None
            if x is None and not p.is_alive():
                try: x = q.get(timeout=0.5)
                except Exception: x = dict(h=a[1], err='verifier process died', obls=[], covers={}, funcs=[], models=[], notes=[], replaced=[], paths=0, loops=0, qtime=0, wall=time.time()-t0)
            if x is None and time.time()-t0 > limit:
                p.terminate(); x = dict(h=a[1], err='time limit', obls=[], covers={}, funcs=[], models=[], notes=[], replaced=[], paths=0, loops=0, qtime=0, wall=time.time()-t0)
            if x is not None:
                res[a[1]] = x; run.remove(r); p.join(1)
                if p.is_alive(): p.kill()
    return [res[a[1]] for a in jobs]

def build_driver(P, d):
    """the driver and the repository sources it needs, with sanitizers"""
    drv = getattr(P, 'DRIVER', None)
    if not drv: return None, 'no driver'
    srcs = [HERE + '/drive/' + drv] + [REPO + '/src/' + s for s in getattr(P, 'SRCS', [])]
    fl = ['-std=c++11', '-O1', '-g', '-w', '-fno-access-control', '-fno-omit-frame-pointer', '-I' + REPO + '/src', '-I' + REPO + '/src/openfst/include', '-I' + REPO + '/src/gemmlowp', '-I' + HERE + '/drive']
    san = getattr(P, 'SAN', ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr,nonnull-attribute'])
    fl += san + getattr(P, 'CFLAGS', [])
    objs = []; ps = []
    for i, s in enumerate(srcs):
        o = '%s/o%d.o' % (d, i); objs.append(o)
        ps.append(subprocess.Popen(['clang++-18'] + fl + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    errs = ''
    for p in ps:
        o, e = p.communicate()
        if p.returncode: errs += e[:1500]
    if errs: return None, errs
    exe = d + '/driver'
    p = subprocess.run(['clang++-18'] + san + objs + ['-o', exe] + getattr(P, 'LIBS', []), capture_output=True, text=True)
    if p.returncode: return None, p.stderr[:1500]
    return exe, ''

def run_driver(exe, d, seed, secs, hard):
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=9:allocator_may_return_null=1:handle_abort=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    w = d + '/work'; os.makedirs(w, exist_ok=True)
    try:
        p = subprocess.run([exe, str(seed), str(secs), w], capture_output=True, timeout=hard, env=env, cwd=w)
        out = p.stdout.decode('latin1'); err = p.stderr.decode('latin1'); rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('latin1'); err = 'driver wall limit'; rc = 'timeout'
    st = {}
    for l in out.split('\n'):
        if l.startswith('STATS '):
            try: st = json.loads(l[6:])
            except Exception: pass
    return rc, st, out, err

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = importlib.import_module(pid)
    d = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try: return decide(pid, tier, seed, t0, P, d)
    except Exception as e:          # the machinery itself fails: the bounded driver decides
        traceback.print_exc()
        P.SPECS = []; P.HARNESSES = None
        return decide(pid, tier, seed, t0, P, d, ['internal error: %s: %s' % (type(e).__name__, str(e)[:300])])
    finally: shutil.rmtree(d, ignore_errors=True)

def decide(pid, tier, seed, t0, P, d, pre=()):
    pool = mp.get_context('fork')
    # driver build in the background
    from concurrent.futures import ThreadPoolExecutor
    tp = ThreadPoolExecutor(2)
    fb = tp.submit(build_driver, P, d)
    res = []; undecided = list(pre)
    for spec in getattr(P, 'SPECS', []):
        try:
            import run as R, ir
            ll = R.compile_ll(HERE + '/spec/' + spec, d + '/' + spec + '.ll')
            hs = [f for f in ir.Module(ll).funcs if f.startswith('H_')]
            sel = getattr(P, 'HARNESSES', None)
            if sel is not None: hs = [h for h in hs if h in sel]
            res += run_jobs([(ll, h, None, pid) for h in hs], 420 if tier == 'quick' else 900)
        except Exception as e:
            undecided.append('%s: %s' % (spec, str(e)[:600]))
    obls = []; failed = []
    for r in res:
        if r['err']: undecided.append('%s: %s' % (r['h'], r['err']))
        for o in r['obls']:
            o['harness'] = r['h']; obls.append(o)
            if o['status'] != 'discharged': failed.append(o)
        if not r['err']:
            if not r['obls']: undecided.append('%s: no obligation was generated' % r['h'])
            for c, v in r['covers'].items():
                if not v: undecided.append('%s: cover point %s unreachable (vacuous)' % (r['h'], c))
    exp = getattr(P, 'HARNESSES', None)
    if exp is not None:
        for h in exp:
            if h not in [r['h'] for r in res]: undecided.append('%s: did not run' % h)
    exe, berr = fb.result()
    drv = {}; dviol = None; known = load_known(pid); hits = []
    if exe:
        secs = getattr(P, 'QSECS', 15) if tier == 'quick' else getattr(P, 'TSECS', 120)
        if failed: secs = max(secs, 45)
        rc, st, out, err = run_driver(exe, d, seed, secs, secs * 3 + 60)
        drv = dict(st); drv['rc'] = rc
        for l in out.split('\n'):
            if l.startswith('KNOWN '): hits.append(l[6:].strip())
        if rc != 0 and rc != 'timeout':
            dviol = (rc, out[-6000:], err[-6000:])
        elif rc == 'timeout': undecided.append('driver: wall limit')
    elif berr != 'no driver':
        undecided.append('driver does not build: ' + berr[:500])
    unknown = sorted(set(h for h in hits if h not in known))
    viol = None
    EV = os.environ.get('VF_EVID', HERE + '/evidence')
    rp = EV + '/%s.replay.txt' % pid
    os.makedirs(EV, exist_ok=True)
    if dviol:
        viol = 'VIOLATION property=%s replay=%s' % (pid, rp)
        with open(rp, 'w') as f:
            f.write('property %s: failing input found by the native driver %s on the real code (exit %s)\nreproduce: %s seed=%d\n' % (pid, P.DRIVER, dviol[0], 'check.py %s %s' % (pid, tier), seed))
            f.write('--- driver output\n' + dviol[1] + '\n--- stderr\n' + dviol[2] + '\n')
            for o in failed[:30]: f.write('failed obligation: [%s] %s in %s (%s)\n%s\n' % (o['harness'], o['name'], o['where'], o['ctx'], o['info']))
    elif unknown:
        viol = 'VIOLATION property=%s replay=%s' % (pid, rp)
        open(rp, 'w').write('property %s: not listed in known-findings.txt:\n' % pid + '\n'.join(unknown) + '\n')
    elif failed:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
        with open(rp, 'w') as f:
            f.write('property %s: the verifier does not accept these obligations generated from the current source\n' % pid)
            for o in failed[:60]: f.write('failed obligation: [%s] %s (%s) in %s, call path %s\n   verifier output: %s\n' % (o['harness'], o['name'], o['kind'], o['where'], o['ctx'], o['info']))
            f.write('the driver %s found no failing input (%s)\n' % (getattr(P, 'DRIVER', None), json.dumps(drv)))
    # evidence
    ndis = sum(1 for o in obls if o['status'] == 'discharged')
    by = {}
    for o in obls:
        if o['status'] == 'discharged': by[o['solver']] = by.get(o['solver'], 0)+1
    funcs = sorted(set(f for r in res for f in r['funcs'] if 'pocketkaldi' in f or 'pasco' in f or 'ce_' in f or f.startswith('(anonymous') ))
    assum = list(getattr(P, 'ASSUME', []))
    assum += ['engine note: ' + n for n in sorted(set(n for r in res for n in r['notes']))]
    assum += ['callee replaced by its contract at call sites: ' + n for n in sorted(set(n for r in res for n in r['replaced']))]
    assum += ['library call under an assumed model: ' + n for n in sorted(set(n for r in res for n in r['models']))[:80]]
    level = getattr(P, 'LEVEL', 'proof')
    proved = bool(res) and not failed and not undecided
    cov = dict(obligations=len(obls), discharged=ndis, checker_cmd='python3-vt /verif/check.py %s %s' % (pid, tier),
               trusted_base=['clang-18 front end (LLVM IR of the real sources) and opt always-inline/sroa/simplifycfg/loop-simplify', '/verif/engine (VC generator)', 'z3 4.x python module', 'cvc5 1.1.2', 'models of the C/C++ library in engine/models.py'],
               by_backend=by, solver_time_s=round(sum(r['qtime'] for r in res) + sum(o['time'] for o in obls), 2),
               functions_under_contract=funcs, harnesses=[dict(name=r['h'], obligations=len(r['obls']), paths=r['paths'], loops=r['loops'], wall_s=r['wall'], covers=r['covers'], error=r['err']) for r in res],
               obligation_names=sorted(set('%s: %s' % (o['harness'], o['name']) for o in obls if o['kind'] == 'assert'))[:200] or sorted(set('%s: %s' % (o['harness'], o['name']) for o in obls))[:200],
               undecided=undecided, proof_complete=proved,
               bounded_standin=dict(driver=getattr(P, 'DRIVER', None), bound=getattr(P, 'BOUND', ''), result=drv))
    if level != 'proof' or not obls:
        cov['evaluations'] = int(drv.get('cases', 0)); cov['distinct_nontrivial'] = int(drv.get('distinct', drv.get('cases', 0)))
        cov['rule'] = getattr(P, 'BOUND', ''); cov['samples'] = drv.get('samples', [])
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov, assumptions=assum, wall_s=round(time.time()-t0, 2), violations=1 if viol else 0)
    json.dump(ev, open(EV + '/%s.json' % pid, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses, driver %s, %.1f s' % (pid, len(obls), ndis, len(res), {k: drv[k] for k in drv if k != 'samples'}, time.time()-t0))
    for u in undecided: print('  undecided (bounded driver stands in): ' + u.split('\n')[0][:300])
    for h in sorted(set(hits)):
        if h in known: print('KNOWN-FINDING: property=%s %s' % (pid, h))
    if viol:
        for o in failed[:10]: print('  failed obligation [%s] %s in %s' % (o['harness'], o['name'], o['where']))
        print(viol); return 1
    return 0

def load_known(pid):
    out = set()
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.add(l.split(' ', 2)[2])
    return out
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
