"""Trusted contracts: verifier intrinsics, C library, libstdc++ containers."""
import re, z3
from fractions import Fraction
from sym import *
from ir import Unsupported, parse_type, Toks, skip_attrs
import sym
from loops import mk_forall, mk_forall2, TRIG

def L0(n=0): return Lin({}, n)

TABLE = []      # (regex on demangled name, handler, description)
EXACT = {}
def model(pat, desc=None):
    def deco(f):
        TABLE.append((re.compile(pat), f, desc)); return f
    return deco
def cname(*names, desc=None):
    def deco(f):
        for n in names: EXACT[n] = (f, desc)
        return f
    return deco

def lookup(ex, name, d):
    res = []
    if name in ex.replace: res.append(ex.replace[name])
    for pat, h in ex.opts.get('replace_re', []):
        if re.search(pat, d):
            if isinstance(h, str): h = by_contract(h, d)
            res.append(h)
    if name in EXACT:
        f, desc = EXACT[name]
        res.append(wrap(ex, f, desc, name))
    else:
        for pat, f, desc in TABLE:
            if pat.match(d):
                res.append(wrap(ex, f, desc, d)); break
    return res
def by_contract(sc, d):
    sc, _, mode = sc.partition('@')
    def g(ex, st, n, d, args):
        if sc in ex.stack: return NotImplemented
        if mode == 'rec' and n not in ex.stack: return NotImplemented      # the recursive call only
        if not hasattr(ex, 'replaced_seen'): ex.replaced_seen = []
        ex.replaced_seen.append('%s (contract %s)' % (d[:90], sc))
        return ex.exec_func(st, sc, args)
    return g
def wrap(ex, f, desc, name):
    def g(ex, st, n, d, args):
        r = f(ex, st, n, d, args)
        if desc and r is not NotImplemented: ex.used_models[desc] = ex.used_models.get(desc, 0)+1
        return r
    return g
def ret_type(ex, name):
    l = ex.mod.decls.get(name) or ex.mod.funcs[name][0]
    s = l[l.index(' ')+1:]
    tk = Toks(s)
    while tk.peek() in ('dso_local','linkonce_odr','weak_odr','internal','local_unnamed_addr','hidden','noundef','signext','zeroext','noalias','nonnull','align','dereferenceable','dereferenceable_or_null','available_externally','weak','unnamed_addr'):
        v = tk.next()
        if tk.peek() == '(':
            tk.next(); tk.next(); tk.expect(')')
        elif v == 'align': tk.next()
    return parse_type(tk)
def cstr(ex, st, p):
    from exe import Ptr
    o = st.obj(p.o)
    out = ''
    i = p.off.c
    while i in o.cells:
        v = o.cells[i][1]
        if v == 0: break
        out += chr(v & 255); i += 1
    return out

# ---------------------------------------------------------------- verifier intrinsics
@model(r'.*\bvf_any<')
def vf_any(ex, st, n, d, a):
    ty = ret_type(ex, n)
    if ty == ('i', 1):
        return [(st, st.fresh('any', Bool))]
    v = ex.fresh_val(st, ty, 'any')
    m = re.search(r'vf_any<(.*)>\(', d)
    t = m.group(1)
    if t.startswith('unsigned') and ty[1] < 64 or t in ('unsigned long',):
        pass
    return [(st, v)]
@cname('vf_assume')
def vf_assume(ex, st, n, d, a):
    c = a[0] if not isinstance(a[0], int) else bool(a[0])
    from exe import PathEnd
    if c is False: raise PathEnd()
    ex.assume(st, c, 'f')
    if isz(c) and not ex.feasible(st, z3.BoolVal(True)): raise PathEnd()
    return [(st, None)]
@cname('vf_assert')
def vf_assert(ex, st, n, d, a):
    c = a[0] if not isinstance(a[0], int) or isinstance(a[0], bool) else bool(a[0])
    ex.obligation(st, c, cstr(ex, st, a[1]), 'assert')
    return [(st, None)]
@cname('vf_cover')
def vf_cover(ex, st, n, d, a):
    nm = cstr(ex, st, a[0])
    if not ex.quiet and not ex.pure:
        r = ex.check(st.facts, z3.BoolVal(True), 3000, cone=False)
        cur = ex.covers.get(nm)
        ex.covers[nm] = True if (cur or r != z3.unsat) else False
    return [(st, None)]
def binder(ex, st, fn, clo, m):
    v, extra = ex.eval_pure(st, fn.name, [clo, m])
    return v
@cname('vf_forall_', 'vf_exists_')
def vf_forall(ex, st, n, d, a):
    lo, hi, fn, clo = a
    st.ctr += 1
    m = keep(z3.Int('m$%d' % len(ex.stack) + '_%d' % st.ctr))
    body = binder(ex, st, fn, clo, m)
    import os
    if os.environ.get('VF_DEBUG')=='4': print('BIND', m, str(body)[:600].replace('\n',' '))
    rng = band(le(lo, m), lt(m, hi))
    if n == 'vf_forall_':
        r = mk_forall(m, rng, body)
    else:
        if isinstance(body, bool) and not body: r = False
        else:
            r = bnot(mk_forall(m, rng, bnot(body)))
    return [(st, r)]
@cname('vf_forall2_')
def vf_forall2(ex, st, n, d, a):
    lo, hi, fn, clo = a
    st.ctr += 1
    m1 = keep(z3.Int('ma$%d_%d' % (len(ex.stack), st.ctr))); m2 = keep(z3.Int('mb$%d_%d' % (len(ex.stack), st.ctr)))
    body, extra = ex.eval_pure(st, fn.name, [clo, m1, m2])
    rng = band(le(lo, m1), lt(m1, hi), le(lo, m2), lt(m2, hi))
    return [(st, mk_forall2(m1, m2, rng, body))]
@cname('vf_gget')
def vf_gget(ex, st, n, d, a):
    key = 'g%d' % a[0]
    if key not in st.ghost: st.ghost[key] = (('array', z3.ArraySort(Int, Int)), st.fresh('ghost', z3.ArraySort(Int, Int)))
    v = sel(st.ghost[key][1], a[1])
    return [(st, v)]
@cname('vf_gset')
def vf_gset(ex, st, n, d, a):
    key = 'g%d' % a[0]
    if key not in st.ghost: st.ghost[key] = (('array', z3.ArraySort(Int, Int)), st.fresh('ghost', z3.ArraySort(Int, Int)))
    st.ghost[key] = (st.ghost[key][0], store(st.ghost[key][1], a[1], a[2]))
    ex.log_write(('ghost', key))
    return [(st, None)]
@cname('vf_trig')
def vf_trig(ex, st, n, d, a):
    st.facts.append((keep(TRIG(iz(a[0]))), 'f'))
    return [(st, None)]
def newest_gcd(o):
    import math
    z = o.size
    if isinstance(z, int): return z
    try: l = lin(z)
    except Exception: return None
    g = abs(l.c)
    for c in l.t.values(): g = math.gcd(g, abs(c[1] if isinstance(c, tuple) else c))
    return g
@cname('vf_newest_')
def vf_newest(ex, st, n, d, a):
    from exe import Ptr
    best = None
    for i, o in st.objs.items():
        if not (isinstance(i, int) and o.kind == 'heap' and o.alive is True) or str(o.name).startswith(('snap', 'array')): continue
        if o.segs and o.segs[0].stride is not None: ok = o.segs[0].stride == a[0]
        else: ok = newest_gcd(o) == a[0]
        if ok and (best is None or i > best): best = i
    if best is None:
        import os
        if os.environ.get('VF_DEBUG') == '3': print([(i, o.name, o.kind, o.alive, [x.stride for x in o.segs], str(o.size), newest_gcd(o)) for i, o in st.objs.items() if isinstance(i, int)])
        raise Unsupported('no such object')
    return [(st, Ptr(best, L0()))]
@cname('vf_inv_')
def vf_inv(ex, st, n, d, a):
    kind, fn, clo, nm = a
    kind = chr(kind)
    if not ex.pure:
        ent = (kind, cstr(ex, st, nm), fn.name, [clo])
        if not any(e[0] == kind and e[1] == ent[1] and e[2] == ent[2] and same_ptr(e[3][0], clo) for e in ex.invs):
            ex.invs = [e for e in ex.invs if not (e[2] == ent[2])] + [ent]
    return [(st, None)]
def same_ptr(a, b): return a.o == b.o and a.off.eq(b.off)
@cname('vf_inv_clear')
def vf_inv_clear(ex, st, n, d, a):
    ex.invs = []
    return [(st, None)]
@cname('vf_array_')
def vf_array(ex, st, n, d, a):
    from exe import Ptr
    cnt, sz = a
    if isinstance(cnt, int): 
        o = ex.new_obj(st, 'array', cnt*sz, 'heap')
        return [(st, Ptr(o.id, L0()))]
    if not ex.quiet: pass
    ex.assume(st, le(0, cnt), 'f')
    o = ex.new_array(st, 'array', sz, cnt)
    return [(st, Ptr(o.id, L0()))]
@cname('vf_heap_')
def vf_heap(ex, st, n, d, a):
    from exe import Ptr
    cnt, sz = a
    o = ex.new_array(st, 'heap', sz, cnt)
    o.kind = 'family'
    return [(st, Ptr(o.id, L0()))]
@cname('vf_snapshot_')
def vf_snapshot(ex, st, n, d, a):
    from exe import Ptr
    o = st.obj(a[0].o)
    st.ctr += 1
    c = o.copy(); c.id = st.ctr; c.name = 'snap_' + str(o.name); c.kind = 'heap'; c.fam = dict(o.fam); c.ro = False
    # untouched parts must read the same values as in the original object
    c.init = o.init
    if o.init != 'zero':
        if not o.segs and isinstance(o.size, int) and o.size <= 4096 and o.ty is not None:
            for off, t in ex.mod.flatten(o.ty):
                if off not in o.cells and t[0] != 'ptr':
                    v = ex.load(st, Ptr(o.id, L0(off)), t); c.cells[off] = (t, v)
    st.objs[c.id] = c; st.own.add(c.id)
    return [(st, Ptr(c.id, a[0].off))]
@cname('vf_touch_')
def vf_touch(ex, st, n, d, a):
    """vf_touch_(p, kind): make field of the array at p exist (so that snapshots share it)"""
    ty = {105: ('i', 32), 108: ('i', 64), 98: ('i', 8), 102: ('float',), 100: ('double',), 115: ('i', 16)}[a[1]]
    p = a[0]
    o = st.wobj(p.o)
    if not o.segs: return [(st, None)]
    s = o.segs[0]
    c = (p.off.c - s.start) % s.stride
    if c not in s.fields: s.fields[c] = ex.new_field(st, o, s, c, ty)
    return [(st, None)]
@cname('vf_ptrfield_')
def vf_ptrfield(ex, st, n, d, a):
    """pointer field of array elements: values are pointers into the family of a[1]"""
    p, t = a
    o = st.wobj(p.o); s = o.segs[0]
    c = (p.off.c - s.start) % s.stride
    o.fam = dict(o.fam); o.fam[(s.start, c)] = t.o
    s.fields[c] = ex.new_field(st, o, s, c, ('ptr',))
    return [(st, None)]
@cname('vf_constfield_')
def vf_constfield(ex, st, n, d, a):
    """pointer field of array elements that has the same value a[1] in every element (the virtual table of an array of objects)"""
    p, t = a
    o = st.wobj(p.o)
    if not o.segs: ex.load(st, p, ('i', 64)); o = st.wobj(p.o)
    s = o.segs[0]
    c = (p.off.c - s.start) % s.stride if s.stride else 0
    o.fam = dict(o.fam); o.fam[(s.start, c)] = t
    s.fields[c] = ex.new_field(st, o, s, c, ('ptr',))
    return [(st, None)]
@cname('vf_havoc_array_')
def vf_havoc_array(ex, st, n, d, a):
    o = st.wobj(a[0].o)
    for s in o.segs:
        for c in list(s.fields):
            t, A = s.fields[c]
            s.fields[c] = (t, st.fresh('A', A.sort()))
            ex.log_write(('seg', o.id, s.start, c))
    if not o.segs and o.cells:
        for off in list(o.cells):
            t, v = o.cells[off]
            if t[0] == 'ptr': raise Unsupported('havoc of a pointer cell')
            o.cells[off] = (t, ex.fresh_val(st, t)); ex.log_write(('cell', o.id, off))
    o.init = None      # what was not looked at yet is unknown, too
    return [(st, None)]
@cname('vf_same_object')
def vf_same_object(ex, st, n, d, a):
    return [(st, a[0].o == a[1].o)]
@cname('vf_count_')
def vf_count(ex, st, n, d, a):
    o = st.obj(a[0].o)
    if o.segs and o.segs[0].count is not None: return [(st, o.segs[0].count)]
    return [(st, idiv(o.size, a[1]))]
@cname('vf_alive')
def vf_alive(ex, st, n, d, a):
    o = st.objs.get(a[0].o)
    return [(st, o is not None and o.alive)]

# ---------------------------------------------------------------- C library
@cname('__assert_fail')
def assert_fail(ex, st, n, d, a):
    from exe import PathEnd
    pat = ex.opts.get('assume_assert_in')
    if pat and ex.stack and re.search(pat, ex.dm(ex.stack[-1])):
        ex.notes.add('assertion inside %s taken as an assumption' % ex.dm(ex.stack[-1]).split('(')[0])
        raise PathEnd()
    ex.obligation(st, False, 'assertion %s (line %s)' % (cstr(ex, st, a[0]), a[2]) if False else 'assertion ' + cstr(ex, st, a[0]), 'assertion')
    raise PathEnd()
@cname('abort', 'exit', '__cxa_pure_virtual', '__clang_call_terminate', '_ZSt9terminatev')
def c_abort(ex, st, n, d, a):
    from exe import PathEnd
    ex.obligation(st, False, d + ' reached', 'assertion')
    raise PathEnd()
@model(r'(std::__throw_|__cxa_throw)')
def thrower(ex, st, n, d, a):
    from exe import PathEnd
    ex.obligation(st, False, 'exception: ' + d.split('(')[0], 'assertion')
    raise PathEnd()
@cname('vf_throw_')
def vf_throw(ex, st, n, d, a):
    # 0: std::invalid_argument, 1: std::out_of_range
    from exe import PathEnd
    k = a[0]
    if not isinstance(k, int):
        k = z3.simplify(k)
        if z3.is_int_value(k): k = k.as_long()
    if isinstance(k, int):
        st.thr = True; st.exc = k
        return [(st, None)]
    out = []
    for v in (0, 1):
        c = k == v
        if not ex.feasible(st, c): continue
        s2 = st.fork(); s2.thr = True; s2.exc = v
        try: ex.assume(s2, c, 'b')
        except PathEnd: continue
        out.append((s2, None))
    return out
@model(r'llvm\.eh\.typeid\.for')
def eh_typeid(ex, st, n, d, a):
    t = str(a[0].o)
    return [(st, 1 if t in ('g:_ZTISt9exception', 'g:_ZTISt11logic_error', ('g:_ZTISt16invalid_argument', 'g:_ZTISt12out_of_range')[st.exc]) else 2)]
@cname('__cxa_begin_catch')
def begin_catch(ex, st, n, d, a): return [(st, a[0])]
@cname('__cxa_end_catch')
def end_catch(ex, st, n, d, a): return [(st, None)]
def alloc(ex, st, size, name, init='undef'):
    if isz(size) and z3.is_app(size) and size.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(size.arg(1)) and (size.arg(1).as_long() < 0 or size.arg(1).as_long() >= 2**63):
        ex.obligation(st, bnot(size.arg(0)), 'allocation size does not overflow', 'memory')
        size = keep(size.arg(2))
    from exe import Ptr, Seg
    if isinstance(size, int):
        o = ex.new_obj(st, name, size, 'heap', None, init)
    else:
        ex.obligation(st, le(0, size), 'allocation size is not negative', 'memory')
        o = ex.new_obj(st, name, size, 'heap', None, init)
        o.segs = [Seg(0, None, None)]
    return Ptr(o.id, L0())
@cname('_Znwm', '_Znam', '_ZnwmSt11align_val_t', desc='operator new returns a fresh block of the requested size')
def op_new(ex, st, n, d, a):
    fam = ex.opts.get('new_family')
    for (sz, obj, fn) in st.ghost.get('$newfam', ()):
        if isinstance(a[0], int) and a[0] == sz: return fn(ex, st, a[0])
    return [(st, alloc(ex, st, a[0], 'new'))]
@cname('malloc', desc='malloc returns a fresh block (allocation failure not modelled)')
def c_malloc(ex, st, n, d, a): return [(st, alloc(ex, st, a[0], 'malloc'))]
@cname('calloc', desc='calloc returns a fresh zeroed block (allocation failure not modelled)')
def c_calloc(ex, st, n, d, a): return [(st, alloc(ex, st, mul(a[0], a[1]), 'calloc', 'zero'))]
@cname('posix_memalign', desc='posix_memalign returns a fresh block (allocation failure not modelled)')
def c_memalign(ex, st, n, d, a):
    p = alloc(ex, st, a[2], 'memalign')
    ex.store(st, a[0], p, ('ptr',))
    return [(st, 0)]
@cname('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', desc='operator delete / free end the lifetime of the block')
def op_delete(ex, st, n, d, a):
    p = a[0]
    if p.o is None: return [(st, None)]
    o = st.obj(p.o)
    if o.kind == 'family': return [(st, None)]
    ex.obligation(st, o.alive, 'double free', 'memory')
    if not (p.off.const() and p.off.c == 0):
        ex.obligation(st, eq(p.off.to(), 0), 'free of an interior pointer', 'memory')
    if o.kind not in ('heap',):
        ex.obligation(st, False, 'free of non-heap object ' + str(o.name), 'memory')
    st.wobj(p.o).alive = False
    ex.log_write(('alive', p.o))
    return [(st, None)]
@cname('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def c_nop(ex, st, n, d, a): return [(st, 0)]
@cname('__cxa_guard_acquire')
def c_ga(ex, st, n, d, a): return [(st, 1)]
FIN = z3.Function('FLT_FINITE', z3.RealSort(), z3.BoolSort())
@model(r'llvm\.is\.fpclass', 'isfinite/isinf: an uninterpreted finiteness predicate, false for INFINITY; not a number does not occur')
def is_fpclass(ex, st, n, d, a):
    from exe import INF
    x = a[0]; m = a[1]
    if isf(x): f = True
    else:
        st.facts.append((keep(z3.And(z3.Not(FIN(INF)), z3.Not(FIN(-INF)))), 'f'))
        f = keep(FIN(rz(x)))
    if m == 504: return [(st, f)]
    if m == 516: return [(st, bnot(f))]
    if m == 3: return [(st, False)]
    raise Unsupported('floating point class %s' % m)
@model(r'llvm\.(lifetime|dbg|assume|experimental\.noalias|stacksave|stackrestore|invariant)')
def llvm_nop(ex, st, n, d, a): return [(st, None)]
@model(r'llvm\.expect\.')
def llvm_expect(ex, st, n, d, a): return [(st, a[0])]
@model(r'llvm\.is\.constant')
def llvm_isc(ex, st, n, d, a): return [(st, False)]
@model(r'llvm\.(umul|smul|uadd|sadd)\.with\.overflow')
def llvm_ovf(ex, st, n, d, a):
    r = mul(a[0], a[1]) if 'mul' in n else add(a[0], a[1])
    if 'i64' in n and n.startswith('llvm.u'):
        # allocation sizes: negative counts are the only wrap considered
        if isinstance(r, int): return [(st, (r, r < 0 or r >= 1 << 63))]
        return [(st, (r, lt(r, 0)))]
    raise Unsupported(n)
@model(r'llvm\.(umax|umin|smax|smin)')
def llvm_minmax(ex, st, n, d, a):
    x, y = a
    if n[5] == 'u':
        w = int(n.rsplit('i', 1)[1]); ux, uy = ex.unsigned(st, x, w), ex.unsigned(st, y, w)
        c = lt(ux, uy)
    else: c = lt(x, y)
    return [(st, ite(c, x, y) if 'min' in n else ite(c, y, x))]
@model(r'llvm\.abs\.')
def llvm_abs(ex, st, n, d, a): return [(st, ite(lt(a[0], 0), sub(0, a[0]), a[0]))]
def real_uf(nm):
    def f(ex, st, n, d, a):
        return [(st, ex.uf('real_' + nm, [rz(x) for x in a], Real))]
    return f
for nm in ('exp','log','sin','cos','tan','sqrt','pow','log10','log2','exp2','atan2'):
    for v in (nm, nm+'f'):
        EXACT[v] = (real_uf(nm), 'mathematical function %s as an uninterpreted total function' % nm)
TABLE.append((re.compile(r'llvm\.(exp|log|sin|cos|sqrt|pow|log10|log2)\.'), lambda ex, st, n, d, a: real_uf(n.split('.')[1])(ex, st, n, d, a), 'mathematical functions as uninterpreted total functions'))
@model(r'llvm\.fabs|fabsf?$')
def fabs(ex, st, n, d, a):
    x = a[0]
    if isf(x): return [(st, abs(x))]
    return [(st, ite(rcmp('lt', x, Fraction(0)), rneg(x), x))]
EXACT['fabs'] = EXACT['fabsf'] = (fabs, None)
@model(r'llvm\.floor|floorf?$|llvm\.ceil|ceilf?$')
def ffloor(ex, st, n, d, a):
    x = a[0]
    if isf(x):
        import math
        return [(st, Fraction(math.floor(x) if 'floor' in n else math.ceil(x)))]
    if 'floor' in n: return [(st, keep(z3.ToReal(z3.ToInt(x))))]
    return [(st, keep(-z3.ToReal(z3.ToInt(-x))))]
for v in ('floor','floorf','ceil','ceilf'): EXACT[v] = (ffloor, None)
@model(r'llvm\.l?l?round\.|roundf?$')
def fround(ex, st, n, d, a):
    """to the nearest integer, halves away from zero"""
    x = a[0]
    if isf(x):
        q = (2*abs(x.numerator) + x.denominator)//(2*x.denominator)
        return [(st, Fraction(q if x >= 0 else -q))]
    h = z3.RealVal('1/2')
    return [(st, keep(z3.ToReal(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(h - x)))))]
for v in ('round','roundf'): EXACT[v] = (fround, None)
@model(r'llvm\.fmuladd|llvm\.fma')
def fma(ex, st, n, d, a): return [(st, radd(rmul(a[0], a[1]), a[2]))]
@model(r'llvm\.(max|min)num|fmaxf?$|fminf?$')
def fmm(ex, st, n, d, a):
    c = rcmp('lt', a[0], a[1])
    return [(st, ite(c, a[1], a[0]) if 'max' in n else ite(c, a[0], a[1]))]
@model(r'llvm\.trap')
def trap(ex, st, n, d, a):
    from exe import PathEnd
    ex.obligation(st, False, 'trap', 'memory'); raise PathEnd()

# bulk memory
def bulk_range(ex, st, p, nbytes, write):
    """-> (obj, seg, start index, element count, stride) for an array range"""
    o = st.obj(p.o)
    return o
def elem_of(ex, st, p, n):
    o = st.obj(p.o)
    if o.segs:
        for i, s in enumerate(o.segs):
            if s.start <= p.off.c or not p.off.const(): return i, s
    return None, None
@model(r'llvm\.mem(cpy|move)\.|mem(cpy|move)$', 'memcpy/memmove copy the bytes (element-wise on typed arrays)')
def mem_copy(ex, st, n, d, a):
    dst, src, nb = a[0], a[1], a[2]
    copy_range(ex, st, dst, src, nb)
    return [(st, dst)]
EXACT['memcpy'] = EXACT['memmove'] = (mem_copy, 'memcpy/memmove copy the bytes (element-wise on typed arrays)')
def ensure_seg(ex, st, p, nb, stride, fields):
    """make sure the object of p has an array segment with this stride"""
    from exe import Seg
    o = st.wobj(p.o)
    if not o.segs:
        if isinstance(o.size, int):
            if p.off.const() and o.ty is None:
                s = Seg(0, stride, o.size//stride); cells = o.cells
                o.cells = {}
                for k, (t, v) in cells.items():
                    c = k % stride
                    f = s.fields.get(c) or ex.new_field(st, o, s, c, t)
                    s.fields[c] = (f[0], store(f[1], k//stride, ex.enc(st, o, s, c, f[0], v)))
                o.segs = [s]
            else:
                ex.make_seg(st, o, Lin({-1: (z3.Int('dummy'), stride)}, p.off.c), None)
                o = st.wobj(p.o)
        else: raise Unsupported('bulk access')
    s = o.segs[0] if len(o.segs) == 1 else [s for s in o.segs if s.start <= p.off.c][-1]
    if s.stride is None:
        s.stride = stride; s.count = idiv(o.size, stride)
    return o, s
def index_in(p, s):
    rel = p.off - L0(s.start)
    if rel.c % s.stride or rel.gcd() % s.stride: raise Unsupported('unaligned bulk access')
    return Lin({k: (e, c//s.stride) for k, (e, c) in rel.t.items()}, rel.c//s.stride).to()
def copy_range(ex, st, dst, src, nb):
    from exe import Ptr
    if isinstance(nb, int) and nb == 0: return
    if dst.o is None or src.o is None:
        ex.obligation(st, eq(nb, 0), 'null pointer passed to memcpy', 'memory')
        return
    so, do = st.obj(src.o), st.obj(dst.o)
    ex.obligation(st, band(so.alive, do.alive), 'memcpy on dead object', 'memory')
    if isinstance(nb, int) and nb <= 512 and (not so.segs or not (so.segs[0].stride)) and src.off.const():
        # copy typed cells
        if not so.segs and isinstance(so.size, int):
            if not (0 <= src.off.c and src.off.c + nb <= so.size): ex.obligation(st, False, 'bounds of memcpy source', 'memory')
            cells = [(k, t, v) for k, (t, v) in so.cells.items() if src.off.c <= k < src.off.c+nb]
            done = set()
            for k, t, v in cells:
                ex.store(st, Ptr(dst.o, dst.off + L0(k - src.off.c)), v, t); done.add(k)
            if so.ty is not None:
                for off, t in ex.mod.flatten(so.ty):
                    if src.off.c <= off < src.off.c+nb and off not in done and not any(k <= off < k+ex.mod.size(t2) for k, t2, v in cells):
                        try: v = ex.load(st, Ptr(src.o, L0(off)), t)
                        except Unsupported: continue
                        ex.store(st, Ptr(dst.o, dst.off + L0(off - src.off.c)), v, t)
            elif so.init == 'zero':
                raise Unsupported('copy of untyped zero memory')
            return
    # a single element of known layout
    if isinstance(nb, int) and nb <= 512:
        lay = None
        for o, p in ((do, dst), (so, src)):
            if o.ty is not None and p.off.const() and not o.segs:
                l = [(off - p.off.c, t) for off, t in ex.mod.flatten(o.ty) if p.off.c <= off < p.off.c+nb]
                if l and l[-1][0] + ex.mod.size(l[-1][1]) <= nb: lay = l; break
            elif o.segs and o.segs[0].stride == nb and o.segs[0].fields and (p.off.c - o.segs[0].start) % nb == 0:
                fs = sorted(o.segs[0].fields.items())
                if sum(ex.mod.size(t) for c, (t, A) in fs) == nb: lay = [(c, t) for c, (t, A) in fs]; break
            elif o.segs and o.segs[0].stride > nb and o.segs[0].fields and p.off.gcd() % o.segs[0].stride == 0:
                # some members of an element
                rel = (p.off.c - o.segs[0].start) % o.segs[0].stride
                fs = [(c - rel, t) for c, (t, A) in sorted(o.segs[0].fields.items()) if rel <= c < rel + nb]
                if fs and sum(ex.mod.size(t) for c, t in fs) == nb: lay = fs; break
        if lay is not None and (do.segs or so.segs):
            vals = [ex.load(st, Ptr(src.o, src.off + L0(c)), t) for c, t in lay]
            for (c, t), v in zip(lay, vals): ex.store(st, Ptr(dst.o, dst.off + L0(c)), v, t)
            return
    # array copy
    stride = None
    for o in (so, do):
        for s in o.segs:
            if s.stride: stride = s.stride; break
        if stride: break
    if stride is None:
        g = lin(nb).gcd() or (4 if isinstance(nb, int) and nb % 4 == 0 else 1)
        stride = g
        ts = [t for o in (so, do) for t in ([o.ty] if o.ty else [])]
        for t in ts:
            r = ex.mod.resolve(t) if t[0] == 'named' else t
            if r[0] == 'arr': stride = ex.mod.size(r[2])
    do, ds = ensure_seg(ex, st, dst, nb, stride, None)
    so, ss = ensure_seg(ex, st, src, nb, stride, None)
    if ss.stride != ds.stride: raise Unsupported('memcpy between different strides')
    stride = ss.stride
    if (lin(nb).gcd() % stride) or lin(nb).c % stride: raise Unsupported('memcpy of partial elements')
    n = idiv(nb, stride)
    di, si = index_in(dst, ds), index_in(src, ss)
    z = le(n, 0)
    ex.obligation(st, bor(z, band(le(0, di), le(add(di, n), ds.count))), 'bounds of memcpy destination', 'memory')
    ex.obligation(st, bor(z, band(le(0, si), le(add(si, n), ss.count))), 'bounds of memcpy source', 'memory')
    for c in sorted(set(ss.fields) | set(ds.fields)) or [0]:
        if c not in ss.fields:
            t = ds.fields[c][0] if c in ds.fields else None
            if t is None: raise Unsupported('memcpy of untyped memory')
            ss.fields[c] = ex.new_field(st, so, ss, c, t)
        t, A = ss.fields[c]
        if t[0] == 'ptr':
            if (ss.start, c) in so.fam: do.fam = dict(do.fam); do.fam.setdefault((ds.start, c), so.fam[(ss.start, c)])
        if c not in ds.fields: ds.fields[c] = ex.new_field(st, do, ds, c, t)
        t2, B = ds.fields[c]
        set_range(ex, st, do, ds, c, t, di, n, lambda j: sel(A, add(si, j)))
def set_range(ex, st, o, s, c, t, i0, n, f):
    """field c of elements [i0, i0+n) := f(j)"""
    ot, B = s.fields[c]
    if isinstance(n, int) and n <= 8:
        vals = [f(j) for j in range(n)]
        for j in range(n): B = store(B, add(i0, j), vals[j])
    else:
        j = z3.Int('j?')
        rel = sub(j, i0)
        B = keep(z3.Lambda([j], val(ite(band(le(0, rel), lt(rel, n)), f(rel), sel(B, j)))))
    s.fields[c] = (t, B)
    ex.log_write(('seg', o.id, s.start, c))
@model(r'llvm\.memset\.|memset$', 'memset fills the bytes (zero fill, or byte arrays)')
def mem_set(ex, st, n, d, a):
    from exe import Ptr
    p, v, nb = a[0], a[1], a[2]
    if isinstance(nb, int) and nb == 0: return [(st, p)]
    if p.o is None:
        ex.obligation(st, eq(nb, 0), 'null pointer passed to memset', 'memory'); return [(st, p)]
    o = st.obj(p.o)
    ex.obligation(st, o.alive, 'memset on dead object', 'memory')
    if not o.segs and isinstance(nb, int) and p.off.const():
        if not (0 <= p.off.c and p.off.c+nb <= o.size): ex.obligation(st, False, 'bounds of memset', 'memory')
        if isinstance(v, int) and v == 0 and o.ty is not None:
            for off, t in ex.mod.flatten(o.ty):
                if p.off.c <= off < p.off.c+nb: ex.store(st, Ptr(p.o, L0(off)), ex.zero_val(t), t)
            return [(st, p)]
        if isinstance(v, int) and v == 0 and p.off.c == 0 and nb == o.size:
            o = st.wobj(p.o); o.cells = {}; o.init = 'zero'
            return [(st, p)]
        if nb <= 4096:
            for i in range(nb): ex.store(st, Ptr(p.o, L0(p.off.c+i)), v, ('i', 8))
            return [(st, p)]
    o, s = ensure_seg(ex, st, p, nb, (o.segs[0].stride if o.segs and o.segs[0].stride else lin(nb).gcd() or 1), None)
    if lin(nb).gcd() % s.stride or lin(nb).c % s.stride: raise Unsupported('memset of partial elements')
    n_ = idiv(nb, s.stride); i0 = index_in(p, s)
    ex.obligation(st, bor(le(n_, 0), band(le(0, i0), le(add(i0, n_), s.count))), 'bounds of memset', 'memory')
    fs = list(s.fields)
    if not fs:
        # untyped so far: by stride
        t = {1: ('i', 8), 2: ('i', 16), 4: ('float',), 8: ('i', 64)}.get(s.stride)
        if t is None: raise Unsupported('memset of untyped memory')
        s.fields[0] = ex.new_field(st, o, s, 0, t); fs = [0]; s.guess = (0,)
    for c in fs:
        t = s.fields[c][0]
        if isinstance(v, int) and v == 0: x = -1 if t[0] == 'ptr' else ex.zero_val(t)
        elif t == ('i', 8): x = v
        else: raise Unsupported('memset with a non-zero byte')
        set_range(ex, st, o, s, c, t, i0, n_, lambda j: x)
    return [(st, p)]

# ---------------------------------------------------------------- std:: helpers
def ty_layout(ex, t):
    """(size, alignment, [(offset, scalar type)]) of a C++ type name"""
    t = t.strip()
    sc = scalar_ty(t)
    if sc:
        z = elem_size(ex, t); return z, z, [(0, sc)]
    for p in ('struct.', 'class.'):
        if p + t in ex.mod.types:
            fl = list(ex.mod.flatten(('named', p + t)))
            return ex.mod.size(('named', p + t)), max([{'float': 4, 'double': 8, 'ptr': 8}.get(f[0]) or max(1, f[1]//8) for _, f in fl] + [1]), fl
    if t.startswith('std::pair<'):
        dep = 0; args = ['']
        for ch in t[10:-1]:
            if ch in '<(': dep += 1
            if ch in '>)': dep -= 1
            if ch == ',' and dep == 0: args.append('')
            else: args[-1] += ch
        off = 0; al = 1; out = []
        for x in args:
            z, a, fl = ty_layout(ex, x)
            off = (off + a - 1)//a*a
            out += [(off + o, f) for o, f in fl]
            off += z; al = max(al, a)
        return (off + al - 1)//al*al, al, out
    raise Unsupported('element type ' + t)
def elem_size(ex, t):
    t = t.strip()
    if t.startswith('std::pair<'): return ty_layout(ex, t)[0]
    b = {'float': 4, 'double': 8, 'int': 4, 'unsigned int': 4, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'long': 8, 'unsigned long': 8, 'bool': 1}
    if t in b: return b[t]
    if t.endswith('*'): return 8
    for p in ('struct.', 'class.'):
        if p + t in ex.mod.types: return ex.mod.size(('named', p + t))
    raise Unsupported('element type ' + t)
def scalar_ty(t):
    return {'float': ('float',), 'double': ('double',), 'int': ('i', 32), 'unsigned int': ('i', 32), 'char': ('i', 8), 'signed char': ('i', 8), 'unsigned char': ('i', 8),
            'short': ('i', 16), 'unsigned short': ('i', 16), 'long': ('i', 64), 'unsigned long': ('i', 64)}.get(t, ('ptr',) if t.endswith('*') else None)
def vec_T(d):
    """template argument of std::vector<T, std::allocator<T>>"""
    i = d.index('std::vector<') + 12
    dep = 0
    for j in range(i, len(d)):
        ch = d[j]
        if ch in '<(': dep += 1
        elif ch in '>)':
            if dep == 0: return d[i:j].strip()
            dep -= 1
        elif ch == ',' and dep == 0: return d[i:j].strip()
    raise Unsupported('vector type')
def trivial(ex, t):
    return t.endswith('*') or scalar_ty(t) is not None or t in TRIVIAL_STRUCTS
TRIVIAL_STRUCTS = {'pocketkaldi::FstArc', 'pocketkaldi::Fst::Arc', 'std::pair<int, float>', 'std::pair<int, pocketkaldi::FstArc>'}
def pointer_field(ex, st, this, k): 
    from exe import Ptr
    return ex.load(st, Ptr(this.o, this.off + L0(8*k)), ('ptr',))
def vset(ex, st, this, k, v):
    from exe import Ptr
    ex.store(st, Ptr(this.o, this.off + L0(8*k)), v, ('ptr',))
def vec_new(ex, st, this, esz, n=0, init='undef', name='vec'):
    from exe import Ptr
    o = ex.new_array(st, name, esz, n, init=init)
    p = Ptr(o.id, L0())
    vset(ex, st, this, 0, p); vset(ex, st, this, 1, Ptr(o.id, lin(n).scale(esz))); vset(ex, st, this, 2, Ptr(o.id, lin(n).scale(esz)))
    return o
def set_count(ex, st, oid, n):
    o = st.wobj(oid)
    o.segs[0].count = n
    ex.log_write(('count', oid))
def vget(ex, st, this, esz):
    """-> (buffer object id, start index, number of elements)"""
    b = pointer_field(ex, st, this, 0); e = pointer_field(ex, st, this, 1)
    if b.o is None:
        raise Unsupported('vector without buffer')
    n = idiv((e.off - b.off).to(), esz)
    return b, e, n
def store_elem(ex, st, p, src, t, esz):
    """*p = *src for a trivially copyable element"""
    from exe import Ptr
    sc = scalar_ty(t)
    if sc: ex.store(st, p, ex.load(st, src, sc), sc)
    else:
        for off, ft in ty_layout(ex, t)[2]:
            ex.store(st, Ptr(p.o, p.off + L0(off)), ex.load(st, Ptr(src.o, src.off + L0(off)), ft), ft)
VD = 'std::vector (libstdc++): construction, growth, insertion and assignment as element-wise list operations'
@model(r'std::vector<.*>::vector\(\)$|std::vector<.*>::vector\(std::allocator<.*> const&\)$', VD)
def vec_ctor(ex, st, n, d, a):
    t = vec_T(d)
    vec_new(ex, st, a[0], elem_size(ex, t))
    return [(st, None)]
@model(r'std::vector<.*>::vector\(unsigned long, std::allocator', VD)
def vec_ctor_n(ex, st, n, d, a):
    t = vec_T(d)
    if not trivial(ex, t): return NotImplemented
    ex.obligation(st, le(0, a[1]), 'vector size is not negative', 'memory')
    vec_new(ex, st, a[0], elem_size(ex, t), a[1], init='zero')
    return [(st, None)]
@model(r'std::vector<.*>::~vector\(\)$', VD)
def vec_dtor(ex, st, n, d, a):
    t = vec_T(d)
    if not trivial(ex, t): return NotImplemented
    b = pointer_field(ex, st, a[0], 0)
    if b.o is not None:
        st.wobj(b.o).alive = False
        ex.log_write(('alive', b.o))
    return [(st, None)]
@model(r'std::vector<.*>::(push_back|emplace_back)', VD)
def vec_push(ex, st, n, d, a):
    from exe import Ptr
    t = vec_T(d)
    if not trivial(ex, t): return NotImplemented
    if 'emplace_back' in d and not re.search(r'emplace_back<[^,<>]*>\(', d): return NotImplemented
    esz = elem_size(ex, t)
    b, e, cnt = vget(ex, st, a[0], esz)
    o = st.obj(b.o)
    ex.obligation(st, o.alive, 'use of a destroyed vector', 'memory')
    src = a[1]
    sc = scalar_ty(t)
    if sc: v = ex.load(st, src, sc)
    set_count(ex, st, b.o, add(idiv(e.off.to(), esz), 1))
    if sc: ex.store(st, e, v, sc)
    else: store_elem(ex, st, e, src, t, esz)
    ne = Ptr(e.o, e.off + L0(esz))
    vset(ex, st, a[0], 1, ne); vset(ex, st, a[0], 2, ne)
    return [(st, e if 'emplace' in d else None)]
@model(r'std::vector<.*>::reserve', VD)
def vec_reserve(ex, st, n, d, a): return [(st, None)]
@model(r'std::vector<.*>::resize\(unsigned long(, .*)?\)', VD)
def vec_resize(ex, st, n, d, a):
    from exe import Ptr
    t = vec_T(d)
    if not trivial(ex, t): return NotImplemented
    esz = elem_size(ex, t)
    b, e, cnt = vget(ex, st, a[0], esz)
    m = a[1]
    ex.obligation(st, le(0, m), 'vector size is not negative', 'memory')
    o = st.wobj(b.o); s = o.segs[0]
    i0 = idiv(b.off.to(), esz); ie = idiv(e.off.to(), esz)
    set_count(ex, st, b.o, add(i0, m))
    if not s.fields:
        sc = scalar_ty(t)
        if sc: s.fields[0] = ex.new_field(st, o, s, 0, sc)
        else:
            for off, ft in ty_layout(ex, t)[2]: s.fields[off] = ex.new_field(st, o, s, off, ft)
    for c in s.fields:
        ft = s.fields[c][0]
        if len(a) > 2:
            x = ex.load(st, Ptr(a[2].o, a[2].off + L0(c)), ft)
            x = ex.enc(st, o, s, c, ft, x)
        elif scalar_ty(t) or ft[0] == 'ptr': x = -1 if ft[0] == 'ptr' else ex.zero_val(ft)
        else:      # a type with constructors: nothing is assumed of the new elements
            F = keep(z3.FreshConst(s.fields[c][1].sort(), 'newel'))
            xf = lambda j: val(sel(F, j))
            grow = sub(m, cnt)
            if isz(grow) or grow > 0: set_range(ex, st, o, s, c, ft, ie, grow, xf)
            continue
        grow = sub(m, cnt)
        if isz(grow) or grow > 0: set_range(ex, st, o, s, c, ft, ie, grow, lambda j: x)
    ne = Ptr(b.o, b.off + lin(m).scale(esz))
    vset(ex, st, a[0], 1, ne); vset(ex, st, a[0], 2, ne)
    return [(st, None)]
@model(r'std::vector<.*>::vector\(std::vector<.*> const&\)|std::vector<.*>::operator=\(std::vector<.*> const&\)', VD)
def vec_copy(ex, st, n, d, a):
    from exe import Ptr
    t = vec_T(d)
    if not trivial(ex, t): return NotImplemented
    esz = elem_size(ex, t)
    b, e, cnt = vget(ex, st, a[1], esz)
    if 'operator=' in d and same_ptr(a[0], a[1]): return [(st, a[0])]
    o2 = vec_new(ex, st, a[0], esz, cnt)
    src = st.obj(b.o)
    i0 = idiv(b.off.to(), esz)
    dst = st.wobj(o2.id); dst.fam = dict(src.fam)
    for c, (ft, A) in src.segs[0].fields.items():
        if isinstance(i0, int) and i0 == 0: dst.segs[0].fields[c] = (ft, A)
        else:
            j = z3.Int('j?')
            dst.segs[0].fields[c] = (ft, keep(z3.Lambda([j], val(sel(A, add(j, i0))))))
    return [(st, a[0])]
@model(r'std::vector<.*>::vector<.*>\(.*, .*, std::allocator<.*> const&\)|.*void std::vector<.*>::_M_range_initialize<', VD)
def vec_range_ctor(ex, st, n, d, a):
    t = vec_T(d)
    if not trivial(ex, t): return NotImplemented
    esz = elem_size(ex, t)
    vec_new(ex, st, a[0], esz)
    return append_range(ex, st, a[0], a[1], a[2], t, esz)
def append_range(ex, st, this, first, last, t, esz):
    from exe import Ptr
    b, e, cnt = vget(ex, st, this, esz)
    if first.o is None: return [(st, None)]
    m = idiv((last.off - first.off).to(), esz)
    ex.obligation(st, le(0, m), 'iterator range is ordered', 'memory')
    set_count(ex, st, b.o, add(idiv(e.off.to(), esz), m))
    copy_range(ex, st, e, first, mul(m, esz))
    ne = Ptr(e.o, e.off + lin(m).scale(esz))
    vset(ex, st, this, 1, ne); vset(ex, st, this, 2, ne)
    return [(st, None)]
