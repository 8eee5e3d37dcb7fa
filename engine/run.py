import sys, os, subprocess, time, json, tempfile, multiprocessing as mp
sys.path.insert(0, os.path.dirname(__file__))
import z3
from ir import Module, Unsupported
from exe import Executor, State, PathEnd
REPO = os.environ.get('VF_REPO', '/repo')
INC = ['-I' + REPO + '/src', '-I' + REPO + '/src/openfst/include', '-I' + REPO + '/src/gemmlowp', '-I/verif/spec']
STDINLINE = None
def compile_ll(src, out, defs=()):
    """spec -> one LLVM module; a line `// vf-link: x.cc y.cc` in the spec adds those repository sources as modules of their own;
    `// vf-noinline: regex` keeps library functions as calls (so that a contract can replace them)"""
    import re
    link = [REPO + '/src/' + f for l in re.findall(r'^// vf-link: (.*)$', open(src).read(), re.M) for f in l.split()]
    lls = []
    for i, s in enumerate([src] + link):
        ll0 = '%s.%d.ll' % (out, i); lls.append(ll0)
        cmd = ['clang++-18', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-access-control',
               '-fno-discard-value-names', '-w', '-S', '-emit-llvm', '-DVF_VERIFY'] + list(defs) + INC + [s, '-o', ll0]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode and 'exceptions disabled' in p.stderr:
            cmd = [c for c in cmd if c != '-fno-exceptions']
            p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise Unsupported('does not compile: ' + p.stderr[:2000])
    ll0 = lls[0]
    if link:
        ll0 = out + '.l.ll'
        p = subprocess.run(['llvm-link-18', '-S'] + lls + ['-o', ll0], capture_output=True, text=True)
        if p.returncode: raise Unsupported('llvm-link: ' + p.stderr[:500])
    inline_std(ll0, [r for r in re.findall(r'^// vf-noinline: (.*)$', open(src).read(), re.M)])
    p = subprocess.run(['opt-18', '-S', '-passes=always-inline,function(sroa,simplifycfg,loop-simplify)', ll0, '-o', out], capture_output=True, text=True)
    if p.returncode: raise Unsupported('opt: ' + p.stderr[:500])
    return out
import re
INL = re.compile(r'^(bool |void |auto |decltype.* )?(__gnu_cxx::__normal_iterator<|bool __gnu_cxx::operator|__gnu_cxx::operator|std::forward|std::move|std::(max|min)<|std::vector<.*>::(begin|end|size|operator\[\]|empty|back|front|data|cbegin|cend|pop_back|clear|_M_erase_at_end|_M_data_ptr)\b|std::addressof|std::__addressof|vf_(forall|forall2|newest|exists|inv|inv_i|inv_o|inv_oo|inv_f|inv_pi|inv_ii|inv_pp|inv_p|array|heap|snapshot|implies|count)\b)')
def inline_std(path, keep=()):
    txt = open(path).read().split('\n')
    idx = []; names = []
    for i, l in enumerate(txt):
        if l.startswith('define'):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            idx.append(i); names.append(m.group(1).strip('"'))
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    for i, n, d in zip(idx, names, p.stdout.split('\n')):
        if any(re.search(r, d) for r in keep): continue
        d2 = re.sub(r'^(std::)?enable_if<.*?>::type ', '', d)
        m = re.match(r'^(?:[\w:<>,*& ]+? )?((?:std|__gnu_cxx|vf_).*)$', d)
        if INL.match(d) or (m and INL.match(m.group(1))) or re.search(r'\bvf_(forall|forall2|newest|exists|inv|inv_i|inv_o|inv_oo|inv_f|inv_pi|inv_ii|inv_pp|inv_p|array|heap|snapshot|implies|count)<', d.split('(')[0]):
            txt[i] = re.sub(r'(\) )((?:unnamed_addr |local_unnamed_addr )?)(#\d+)', r'\1\2alwaysinline \3', txt[i], count=1)
    s = '\n'.join(txt)
    s = s.replace(' noinline ', ' ')
    open(path, 'w').write(s)

def solve_one(arg):
    i, smt, tmo, expr = arg
    t = time.time()
    res = []
    for cfg in ({}, {'smt.mbqi': False}, {'smt.arith.solver': 2}):
        try:
            ctx = z3.Context()
            s = z3.Solver(ctx=ctx)
            s.set('timeout', tmo*6); s.set('rlimit', tmo*15000)
            for k, v in cfg.items(): s.set(k, v)
            s.from_string(smt)
            r = s.check()
            if r == z3.unsat: return (i, 'discharged', 'z3', time.time()-t, '')
            why = s.reason_unknown() if r == z3.unknown else 'countermodel'
            res.append('%s:%s' % (r, why))
            if r == z3.sat: 
                try: m = str(s.model())[:3000]
                except Exception: m = ''
                return (i, 'failed', 'z3', time.time()-t, 'sat ' + m)
        except Exception as e:
            res.append('error %s' % e)
    # second back end
    try:
        import cvc5
        p = None
        d = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        d.write('(set-logic ALL)\n' + smt + '\n'); d.close()
        p = subprocess.run(['timeout', str(tmo*2//1000+1), 'cvc5', '--lang=smt2', d.name], capture_output=True, text=True)
        os.unlink(d.name)
        if p.stdout.strip().startswith('unsat'): return (i, 'discharged', 'cvc5', time.time()-t, '')
        res.append('cvc5:' + p.stdout.strip()[:60] + p.stderr.strip()[:60])
    except Exception as e:
        res.append('cvc5 error %s' % e)
    return (i, 'failed', 'z3+cvc5', time.time()-t, '; '.join(res))

def run_harness(mod, name, opts=None, budget=300, tmo=10000, pool=None):
    ex = Executor(mod, opts)
    ex.overflow = ex.opts.get('overflow', 'assume')
    ex.covers = {}
    ex.deadline = time.time() + budget
    st = State()
    t = time.time()
    err = None
    try:
        outs = ex.call(st, name, [])
        for s, v in outs:
            if s.thr: ex.obligation(s, False, 'an exception leaves the function', 'assertion')
        outs = [o for o in outs if not o[0].thr]
    except PathEnd:
        outs = []
    except Unsupported as e:
        err = str(e) + ' @ ' + ' > '.join(ex.dm(x)[:50] for x in ex.stack[-5:]); outs = []
    if outs and not err:
        # the facts at the end of the harness must not contradict each other on every path
        ex.covers['end'] = any(ex.check([f for f in o[0].facts], z3.BoolVal(True), 3000, allow_q=True, cone=False) != z3.unsat for o in outs)
    pend = [(i, o.smt, tmo, o.name) for i, o in enumerate(ex.obls) if o.status == 'pending']
    if pend:
        if pool is None:
            with mp.Pool(min(8, len(pend))) as p: rs = p.map(solve_one, pend, chunksize=1)
        else: rs = pool.map(solve_one, pend, chunksize=1)
        for i, stt, sv, dt, info in rs:
            o = ex.obls[i]; o.status = stt; o.solver = sv; o.time = dt; o.model = info
        # what no solver decided is tried again alone, with more time: a loaded machine must not decide
        again = [p for p in pend if ex.obls[p[0]].status != 'discharged' and not ex.obls[p[0]].model.startswith('sat ')][:3]
        for i, smt, tm, nm in again:
            if time.time() > ex.deadline: break
            if ex.obls[i].time < tm / 1000.0: continue
            i, stt, sv, dt, info = solve_one((i, smt, tm * 2, nm))
            o = ex.obls[i]; o.status = stt; o.solver = sv; o.time += dt; o.model = info
    return dict(name=name, ex=ex, err=err, paths=len(outs), wall=time.time()-t)

if __name__ == '__main__':
    src = sys.argv[1]
    d = tempfile.mkdtemp()
    ll = compile_ll(src, d + '/m.ll')
    if os.environ.get('KEEP'): subprocess.run(['cp', ll, '/tmp/w/last.ll'])
    mod = Module(ll)
    hs = sys.argv[2:] or [f for f in mod.funcs if f.startswith('H_')]
    for h in hs:
        opts = {}
        r = run_harness(mod, h, opts)
        ex = r['ex']
        print('==', h, 'paths', r['paths'], 'err', r['err'], 'wall %.1f' % r['wall'], {k: (round(v, 1) if isinstance(v, float) else v) for k, v in ex.stats.items()})
        print('   covers', ex.covers, 'notes', ex.notes)
        from collections import Counter
        print('   ', Counter((o.status) for o in ex.obls))
        for o in ex.obls:
            if o.status != 'discharged': print('   FAILED', o.kind, o.name, '|', o.ctx, '|', o.time, o.model[:300])
