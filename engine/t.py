"""developer: t.py PROP [harness...]"""
import sys, os, importlib, tempfile
if os.environ.get('PYTHONHASHSEED') != '0': os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)   # the same run every time
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); sys.path.insert(0, H + '/../props')
import run, ir
P = importlib.import_module(sys.argv[1])
for spec in P.SPECS:
    d = tempfile.mkdtemp(prefix='vft_'); ll = run.compile_ll(H + '/../spec/' + spec, d + '/m.ll')
    if os.environ.get('KEEP'): run.subprocess.run(['cp', ll, '/tmp/w/last.ll'])
    mod = ir.Module(ll)
    bad = []
    for h in [f for f in mod.funcs if f.startswith('H_')]:
        if sys.argv[2:] and h not in sys.argv[2:]: continue
        if getattr(P, 'HARNESSES', None) is not None and h not in P.HARNESSES and not sys.argv[2:]: continue
        o = dict(getattr(P, 'OPTS', {}).get('*', {})); o.update(getattr(P, 'OPTS', {}).get(h, {}))
        r = run.run_harness(mod, h, o, o.pop('budget', 240), o.pop('tmo', 15000))
        ex = r['ex']; bad = [x for x in ex.obls if x.status != 'discharged']
        print('== %s: %d obligations, %d failed, paths %d, %.1fs (queries %d, %.1fs) covers %s notes %s %s' % (h, len(ex.obls), len(bad), r['paths'], r['wall'], ex.stats['queries'], ex.stats['qtime'], ex.covers, sorted(ex.notes), ('ERR ' + r['err']) if r['err'] else ''), flush=True)
        for o in bad: print('   FAILED [%s] %s | %s | %.1fs %s' % (o.kind, o.name, o.ctx, o.time, (o.model or '')[:int(os.environ.get('ML', '200'))]))
    if os.environ.get('DBG'):
        import z3
        for o in bad[:int(os.environ['DBG'])]:
            print('-----', o.name, o.ctx); sv = z3.Solver(); sv.from_string(o.smt)
            for a in sv.assertions(): print('    ', str(a).replace('\n', ' '))
    import shutil; shutil.rmtree(d)
