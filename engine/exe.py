"""Deductive verifier for LLVM IR: forward symbolic execution per function with loops
cut at their headers (inductive invariants / closed forms), all other obligations
discharged by SMT."""
import re, subprocess, sys, time, os, copy
from fractions import Fraction
import z3
from ir import Module, Unsupported, Func
from sym import *
import sym

sys.setrecursionlimit(100000)

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off.to())
NULL = Ptr(None, Lin({}, 0))
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'Fn(%s)' % self.name
class PtrInt:
    """integer obtained by ptrtoint"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Packed:
    """several cells loaded as one wide integer (struct coercion)"""
    __slots__ = ('cells', 'n')
    def __init__(self, cells, n): self.cells = cells; self.n = n
UNDEF = None

class Seg:
    __slots__ = ('start', 'stride', 'count', 'fields', 'guess')
    def __init__(self, start, stride, count, fields=None, guess=()):
        self.start = start; self.stride = stride; self.count = count; self.fields = fields or {}
        self.guess = guess    # fields whose type was guessed (zero fill of untyped memory)
    def copy(self): return Seg(self.start, self.stride, self.count, dict(self.fields), self.guess)
class Obj:
    __slots__ = ('id','name','size','alive','kind','cells','segs','init','ty','own','fam','ro')
    def __init__(self, id, name, size, kind, ty=None, init='undef'):
        self.id = id; self.name = name; self.size = size; self.kind = kind; self.ty = ty; self.init = init
        self.alive = True; self.cells = {}; self.segs = []; self.fam = {}; self.ro = False
    def copy(self):
        o = Obj(self.id, self.name, self.size, self.kind, self.ty, self.init)
        o.alive = self.alive; o.cells = dict(self.cells); o.segs = [s.copy() for s in self.segs]; o.fam = self.fam; o.ro = self.ro
        return o
class State:
    __slots__ = ('facts','objs','ctr','own','dead','ghost','ks','thr','exc')
    def __init__(self):
        self.facts = []   # (expr, kind) kind in b f q
        self.objs = {}; self.ctr = 0; self.own = set(); self.dead = False; self.ghost = {}; self.thr = False; self.exc = None; self.ks = ()   # thr: an exception is under way; counters of the enclosing cut loops
    def fork(self):
        s = State()
        s.facts = list(self.facts); s.objs = dict(self.objs); s.ctr = self.ctr
        s.own = set(); self.own = set()
        s.ghost = dict(self.ghost); s.ks = self.ks; s.thr = self.thr; s.exc = self.exc
        return s
    def obj(self, i):
        o = self.objs.get(i)
        if o is None: raise Unsupported('dangling stack object')
        return o
    def wobj(self, i):
        o = self.obj(i)
        if i not in self.own:
            o = o.copy(); self.objs[i] = o; self.own.add(i)
        return o
    def fresh(self, base, sort):
        self.ctr += 1
        c = keep(z3.Const('%s!%d' % (base, self.ctr), sort))
        return c
def symno(n):
    i = n.rfind('!')
    if i < 0: return -1
    try: return int(n[i+1:])
    except ValueError: return -1

class PathEnd(Exception):
    """the current path is infeasible / terminated"""

class Obligation:
    __slots__ = ('name','kind','where','status','smt','solver','time','model','ctx')

INF = z3.Real('FLT_INF')
NANV = z3.Real('FLT_NAN')

INLINE_LIMIT = 60

from loops import LoopMixin
def eqb(a, b):
    if isinstance(a, bool): return b if a else bnot(b)
    if isinstance(b, bool): return a if b else bnot(a)
    return keep(a == b)
def bool01(v):
    """the truth value of an integer term that can only be 0 or 1"""
    if isinstance(v, int): return {0: False, 1: True}.get(v)
    if not z3.is_app(v) or v.decl().kind() != z3.Z3_OP_ITE: return None
    a = bool01(v.arg(1) if not z3.is_int_value(v.arg(1)) else v.arg(1).as_long()); b = bool01(v.arg(2) if not z3.is_int_value(v.arg(2)) else v.arg(2).as_long())
    if a is None or b is None: return None
    c = v.arg(0)
    return bor(band(c, a), band(bnot(c), b))
_nl = {}
_NLF = {}
def _nlf(name, n):
    k = (name, n)
    if k not in _NLF: _NLF[k] = z3.Function('%s!%d' % k, *([z3.IntSort()]*(n+1)))
    return _NLF[k]
def _nlr(n):
    k = ('R', n)
    if k not in _NLF: _NLF[k] = z3.Function('NLR!%d' % n, *([z3.RealSort()]*(n+1)))
    return _NLF[k]
def nlabs(e):
    """(formula with nonlinear terms replaced by uninterpreted ones, side lemmas) or None when there are none"""
    if e.get_id() in _nl: return _nl[e.get_id()]
    memo = {}; lem = []; dep = [0]
    def has_var(x): return any(c.startswith('bv?') for c in consts(x))
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i]
        if z3.is_quantifier(x):
            dep[0] += 1
            vs = [z3.Const('bv?%d_%d' % (dep[0], j), x.var_sort(j)) for j in range(x.num_vars())]
            inst = z3.substitute_vars(x.body(), *reversed(vs))
            keep(inst); nb = go(inst)
            if nb is not inst: r = z3.Lambda(vs, nb) if x.is_lambda() else (z3.ForAll(vs, nb, patterns=pats(x, vs)) if x.is_forall() else z3.Exists(vs, nb))
            else: r = x
            dep[0] -= 1
        elif z3.is_app(x) and x.num_args():
            cs = x.children(); ns = [go(c) for c in cs]
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in ns if not z3.is_int_value(c) and not z3.is_rational_value(c)) >= 2:
                cst = [c for c in ns if z3.is_int_value(c) or z3.is_rational_value(c)]
                fs = sorted([c for c in ns if not (z3.is_int_value(c) or z3.is_rational_value(c))], key=lambda c: c.get_id())
                f = _nlr(len(fs)) if x.sort() == z3.RealSort() else _nlf('NL', len(fs))
                r = f(*fs)
                if len(fs) == 2 and fs[0].get_id() == fs[1].get_id() and not has_var(r): lem.append(r >= 0)
                for c in cst: r = c*r
            elif k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(ns[1]):
                r = _nlf('MOD' if k == z3.Z3_OP_MOD else 'DIV', 2)(*ns)
                if not has_var(r):
                    if k == z3.Z3_OP_MOD: lem.append(z3.Implies(ns[1] > 0, z3.And(r >= 0, r < ns[1])))
                    else: lem.append(z3.Implies(ns[1] > 0, z3.And(z3.Implies(ns[0] >= 0, z3.And(r >= 0, r <= ns[0])), z3.Implies(ns[0] < 0, r < 0))))
            elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ns[1]):
                k2 = ('RD', 2)
                if k2 not in _NLF: _NLF[k2] = z3.Function('RDIV', z3.RealSort(), z3.RealSort(), z3.RealSort())
                r = _NLF[k2](*ns)
            elif all(a is b for a, b in zip(ns, cs)) or all(a.get_id() == b.get_id() for a, b in zip(ns, cs)): r = x
            else: r = x.decl()(*ns)
        else: r = x
        keep(x); keep(r)
        memo[i] = r
        return r
    def pats(x, vs):
        out = []
        for j in range(x.num_patterns()):
            p = x.pattern(j)
            es = [go(z3.substitute_vars(c, *reversed(vs))) for c in p.children()]
            out.append(z3.MultiPattern(*es) if len(es) > 1 else es[0])
        return out
    keep(e)
    r = go(e)
    res = None if r.get_id() == e.get_id() else (keep(r), [keep(l) for l in lem])
    _nl[e.get_id()] = res
    return res
_rn = {}
def nest(e):
    """nesting depth of binders"""
    i = e.get_id()
    if i in _rn: return _rn[i]
    r = nest(e.body()) + 1 if z3.is_quantifier(e) else max([nest(c) for c in e.children()] + [0])
    keep(e); _rn[i] = r
    return r
def uniq_bound(e, d=0):
    """rename nested binders apart (the SMT-LIB printer does not)"""
    if nest(e) == 0 or (d == 0 and nest(e) == 1): return e
    if z3.is_quantifier(e):
        vs = [z3.Const('bq?%d_%d' % (d, j), e.var_sort(j)) for j in range(e.num_vars())]
        b = uniq_bound(z3.substitute_vars(e.body(), *reversed(vs)), d+1)
        if e.is_lambda(): return z3.Lambda(vs, b)
        ps = []
        for j in range(e.num_patterns()):
            es = [z3.substitute_vars(c, *reversed(vs)) for c in e.pattern(j).children()]
            ps.append(z3.MultiPattern(*es) if len(es) > 1 else es[0])
        return (z3.ForAll if e.is_forall() else z3.Exists)(vs, b, patterns=ps)
    cs = [uniq_bound(c, d) for c in e.children()]
    if z3.is_and(e): return z3.And(cs)
    if z3.is_or(e): return z3.Or(cs)
    return e.decl()(*cs)
_hv = {}
def has_var(e):
    i = e.get_id()
    if i in _hv: return _hv[i]
    if z3.is_var(e): r = True
    elif z3.is_quantifier(e): r = has_var(e.body())
    else: r = any(has_var(c) for c in e.children())
    keep(e); _hv[i] = r
    return r

RL = 15000
SANE = os.environ.get('VF_SANE')   # developer: machine integers stay in the range of their type
class Executor(LoopMixin):
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.obls = []
        self.quiet = 0
        self.pure = 0
        self.wlogs = []
        self.stack = []
        self.demangled = {}
        self.stats = dict(paths=0, queries=0, qtime=0.0, loops=0, insts=0)
        self.qcache = {}
        self.models = {}
        self.used_models = {}
        self.funcs_seen = {}
        self.loops_seen = {}
        self.invs = []       # user candidate invariants (closures)
        self.replace = {}
        self.notes = set()
        self.dbg = bool(os.environ.get('VF_DEBUG'))
        self.loop_cache = {}
        self.folds = {}
        self.nounroll = set()
        self.wrapped = {}
        self.fold_defs = {}
        self.overflow = 'assume'
        self.deadline = None
        self._demangle()

    def _demangle(self):
        names = list(self.mod.funcs) + list(self.mod.decls)
        p = subprocess.run(['llvm-cxxfilt-18'] if os.path.exists('/usr/bin/llvm-cxxfilt-18') else ['c++filt'],
                           input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, p.stdout.split('\n')): self.demangled[a] = b
    def dm(self, n): return self.demangled.get(n, n)

    # ------------------------------------------------------------ solving
    def relevant(self, facts, goal, allow_q):
        """cone of influence"""
        want = set(consts(goal)) if isz(goal) else set()
        pool = [(f, consts(f)) for (f, k) in facts if isz(f) and (allow_q or k != 'q')]
        if not want: return [f for f, c in pool]
        out = []
        ch = True
        while ch and pool:
            ch = False; rest = []
            for f, cs in pool:
                if not cs or (cs & want):
                    out.append(f)
                    if not cs <= want:
                        want |= cs; ch = True
                else: rest.append((f, cs))
            pool = rest
        return out
    def check(self, facts, extra, timeout, allow_q=False, cone=True, absonly=False):
        """returns unsat/sat/unknown for facts and extra"""
        fs = self.relevant(facts, extra, allow_q) if cone else [f for f, k in facts if isz(f) and (allow_q or k != 'q')]
        key = (frozenset(f.get_id() for f in fs), extra.get_id(), allow_q, absonly)
        r = self.qcache.get(key)
        if r is not None: return r
        keep(extra)
        for f in fs: keep(f)
        t = time.time()
        r = z3.unknown
        ab = [nlabs(f) for f in fs]; ax = nlabs(extra)
        nl = [a for a in ab + [ax] if a is not None]
        if nl:
            s = z3.Solver()
            s.set('timeout', min(timeout, 500)*8); s.set('rlimit', min(timeout, 500)*RL)
            for f, a in zip(fs, ab): s.add(f if a is None else a[0])
            s.add(extra if ax is None else ax[0])
            seen = set()
            for a in nl:
                for l in a[1]:
                    if l.get_id() not in seen: seen.add(l.get_id()); s.add(l)
            r = s.check()
        if r != z3.unsat and not (nl and absonly):
            s = z3.Solver()
            s.set('timeout', timeout*8); s.set('rlimit', timeout*RL)   # the resource limit decides (the same on a loaded machine)
            for f in fs: s.add(f)
            s.add(extra)
            r = s.check()
        dt = time.time()-t
        self.stats['queries'] += 1; self.stats['qtime'] += dt
        if self.dbg and dt > 1: print('   slow query %.1fs %s %s' % (dt, r, str(extra)[:200]), file=sys.stderr)
        if r != z3.unknown or True: self.qcache[key] = r
        return r
    def feasible(self, st, cond):
        if isinstance(cond, bool): return cond
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')
        return self.check(st.facts, cond, 300, absonly=True) != z3.unsat
    def qprove(self, st, goal, timeout=500):
        """quick quantifier-free proof"""
        if isinstance(goal, bool): return goal
        return self.check(st.facts, z3.Not(goal), timeout) == z3.unsat
    def fprove(self, st, goal, timeout=8000):
        """full proof with quantified facts"""
        if isinstance(goal, bool) and goal: return True
        goal = bz(goal)
        if self.check(st.facts, z3.Not(goal), 1000) == z3.unsat: return True
        if not any(k == 'q' for f, k in st.facts) and not has_quant(goal):
            return False
        return self.check(st.facts, z3.Not(goal), timeout, allow_q=True) == z3.unsat

    def assume(self, st, cond, kind='f'):
        if isinstance(cond, bool):
            if not cond: raise PathEnd()
            return
        if z3.is_and(cond):
            for c in cond.children(): self.assume(st, conc(c), kind)
            return
        k = kind
        if k != 'q' and has_quant(cond):
            k = 'q'
            cond = self.trigger_forms(cond)
        st.facts.append((cond, k))
    def trigger_forms(self, e):
        return e

    def obligation(self, st, goal, name, kind):
        """record & try to discharge"""
        if self.pure:
            if goal is False: raise PathEnd()
            return
        if self.quiet:
            if isinstance(goal, bool):
                if not goal: raise PathEnd()
            else: self.assume(st, goal, 'f')
            return
        if goal is True: 
            if kind in ('assert',):
                o = self.mk_obl(name, kind); o.status = 'discharged'; o.solver = 'syntactic'; o.time = 0.0; self.obls.append(o)
            else:
                self.stats['trivial'] = self.stats.get('trivial', 0) + 1
            return
        g = bz(goal)
        o = self.mk_obl(name, kind)
        t = time.time()
        if self.check(st.facts, z3.Not(g), 300) == z3.unsat:
            o.status = 'discharged'; o.solver = 'z3'; o.time = time.time()-t
        else:
            s = z3.Solver()
            for f in self.relevant(st.facts, z3.Not(g), True): s.add(uniq_bound(f))
            s.add(uniq_bound(z3.Not(g)))
            o.status = 'pending'; o.smt = s.to_smt2()
            o.ctx = ' > '.join(self.dm(x)[:60] for x in self.stack[-4:])
        self.obls.append(o)
        if goal is False: raise PathEnd()
        self.assume(st, g, 'f')
    def mk_obl(self, name, kind):
        o = Obligation()
        o.name = name; o.kind = kind; o.where = self.dm(self.stack[-1]) if self.stack else ''
        o.status = 'pending'; o.smt = None; o.solver = None; o.time = 0.0; o.model = None; o.ctx = ''
        return o

    # ------------------------------------------------------------ fresh values
    def sort_of(self, ty):
        k = ty[0]
        if k == 'i': return Bool if ty[1] == 1 else Int
        if k in ('float','double'): return Real
        if k == 'ptr': return Int
        raise Unsupported('sort_of %s' % (ty,))
    def range_fact(self, st, v, ty):
        if ty[0] == 'i' and ty[1] > 1 and isz(v) and ty[1] <= 64:
            n = ty[1]
            st.facts.append((keep(z3.And(v >= -(1 << (n-1)), v < (1 << (n-1)))), 'f'))
    def fresh_val(self, st, ty, base='v'):
        k = ty[0]
        if k == 'i' or k in ('float','double'):
            v = st.fresh(base, self.sort_of(ty))
            self.range_fact(st, v, ty)
            return v
        raise Unsupported('fresh value of type %s' % (ty,))

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind, ty=None, init='undef'):
        st.ctr += 1
        o = Obj(st.ctr, name, size, kind, ty, init)
        st.objs[o.id] = o; st.own.add(o.id)
        return o
    def new_array(self, st, name, stride, count, kind='heap', init='undef'):
        o = self.new_obj(st, name, None, kind, None, init)
        o.segs = [Seg(0, stride, count)]
        return o
    def glob_ptr(self, st, name):
        key = 'g:' + name
        if key in st.objs: return Ptr(key, Lin({}, 0))
        if name in self.mod.funcs or name in self.mod.decls: return FnPtr(name)
        g = self.mod.glob(name)
        if g is None: raise Unsupported('global ' + name)
        ty, init, const = g
        try: size = self.mod.size(ty)
        except Unsupported: size = 8
        o = Obj(key, name, size, 'glob', ty, 'undef' if init is None else 'zero')
        o.ro = const
        st.objs[key] = o; st.own.add(key)
        if init is not None and init[0] not in ('zero','undef'):
            self.init_glob(st, o, 0, ty, init)
        return Ptr(key, Lin({}, 0))
    def init_glob(self, st, o, off, ty, v):
        k = v[0]
        if k in ('zero','undef'): return
        if k == 'cstr':
            for i, b in enumerate(v[1]):
                o.cells[off+i] = (('i', 8), b-256 if b > 127 else b)
            return
        if k == 'agg':
            r = self.mod.resolve(ty) if ty[0] == 'named' else ty
            if r[0] == 'struct':
                for (t, x), fo in zip(v[1], self.mod.layout(r)[2]): self.init_glob(st, o, off+fo, t, x)
            else:
                s = self.mod.size(r[2])
                for i, (t, x) in enumerate(v[1]): self.init_glob(st, o, off+i*s, t, x)
            return
        o.cells[off] = (ty, self.const_val(st, ty, v))
    def const_val(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty == ('i', 1): return bool(v[1])
            n = ty[1]; x = v[1]
            if n <= 64:
                x &= (1 << n)-1
                if x >> (n-1): x -= 1 << n
            return x
        if k == 'fp':
            if v[1] == 'inf': return INF
            if v[1] == '-inf': return keep(-INF)
            if v[1] == 'nan': return NANV
            return v[1]
        if k == 'null': return NULL
        if k == 'glob': return self.glob_ptr(st, v[1])
        if k == 'undef': return self.undef_val(st, ty)
        if k == 'zero': return self.zero_val(ty)
        if k == 'gep':
            b = self.const_val(st, v[2][0][0], v[2][0][1])
            return self.gep(st, v[1], b, [self.const_val(st, t, x) for t, x in v[2][1:]])
        if k == 'cast':
            if v[1] in ('bitcast',): return self.const_val(st, v[2], v[3])
            if v[1] == 'inttoptr':
                x = self.const_val(st, v[2], v[3])
                if x == 0: return NULL
            raise Unsupported('const cast')
        if k == 'agg':
            return tuple(self.const_val(st, t, x) for t, x in v[1])
        raise Unsupported('const %s' % k)
    def undef_val(self, st, ty):
        k = ty[0]
        if k == 'ptr': return NULL
        if k in ('struct','named','arr'):
            r = self.mod.resolve(ty) if k == 'named' else ty
            ts = r[1] if r[0] == 'struct' else [r[2]]*r[1]
            return tuple(self.undef_val(st, t) for t in ts)
        if k == 'vec': return tuple(self.undef_val(st, ty[2]) for _ in range(ty[1]))
        return self.fresh_val(st, ty, 'undef')
    def zero_val(self, ty):
        k = ty[0]
        if k == 'i': return False if ty[1] == 1 else 0
        if k in ('float','double'): return Fraction(0)
        if k == 'ptr': return NULL
        r = self.mod.resolve(ty) if k == 'named' else ty
        if r[0] == 'struct': return tuple(self.zero_val(t) for t in r[1])
        if r[0] in ('arr','vec'): return tuple(self.zero_val(r[2]) for _ in range(r[1]))
        raise Unsupported('zero')

    # ------------------------------------------------------------ memory
    def log_write(self, key):
        for s in self.wlogs: s.add(key)
    def deref(self, st, p, size, what):
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %s' % (p,))
        if p.o is None:
            self.obligation(st, False, 'null-dereference', 'memory')
            raise PathEnd()
        o = st.obj(p.o)
        if o.alive is not True:
            self.obligation(st, o.alive, 'use-after-free:' + o.name, 'memory')
        return o
    def pick_seg(self, st, o, p, size, ty, write):
        """-> None for a plain cell, or (seg index, idx, field offset)"""
        off = p.off
        if off.const():
            for i, s in enumerate(o.segs):
                if s.stride is None: s_ok = True
                else: s_ok = True
                if off.c >= s.start and (not isinstance(s.count, int) or s.stride is None or off.c < s.start + s.stride*s.count):
                    break
            else:
                if o.size is not None and not o.segs or isinstance(o.size, int):
                    if isinstance(o.size, int):
                        if not (0 <= off.c and off.c + size <= o.size):
                            self.obligation(st, False, 'bounds:' + o.name, 'memory')
                            raise PathEnd()
                    return None
                raise Unsupported('offset before array')
        else:
            i = None
            if len(o.segs) >= 1:
                # choose the segment whose start precedes the constant part
                cand = [j for j, s in enumerate(o.segs) if not isinstance(s.count, int) or True]
                if len(o.segs) == 1: i = 0
                else:
                    best = None
                    for j in cand:
                        s = o.segs[j]
                        if s.start <= max(off.c, 0) or off.c < 0:
                            if best is None or s.start > o.segs[best].start: best = j
                    i = best
                if isinstance(o.size, int) and i is not None:
                    # make sure this is the right seg (const part inside)
                    s = o.segs[i]
                    g = off.gcd()
                    if s.stride and g % s.stride: i = None
            if i is None:
                i = self.make_seg(st, o, off, ty); o = st.obj(o.id)
        s = o.segs[i]
        if s.stride is None:
            o = st.wobj(o.id); s = o.segs[i]
            g = off.gcd() or size
            s.stride = g
            # symbolic byte size
            sz = lin(o.size) if not isinstance(o.size, int) else lin(o.size)
            import math
            for e, c in sz.t.values(): s.stride = math.gcd(s.stride, c)
            if s.stride < size: s.stride = size
            s.count = idiv(o.size if not isinstance(o.size, Lin) else o.size.to(), s.stride)
        rel = off - Lin({}, s.start)
        c = rel.c % s.stride
        g = rel.gcd()
        if g % s.stride:
            raise Unsupported('unaligned symbolic access stride=%d off=%s (%s)' % (s.stride, off, o.name))
        idx = Lin({k: (e, cc//s.stride) for k, (e, cc) in rel.t.items()}, (rel.c - c)//s.stride).to()
        # bounds
        lo = le(0, idx); hi = lt(idx, s.count)
        if lo is not True or hi is not True:
            self.obligation(st, band(lo, hi), 'bounds:' + o.name, 'memory')
        return (i, idx, c)
    def make_seg(self, st, o, off, ty):
        """turn (part of) a concretely sized object into an array segment"""
        stride = off.gcd()
        o = st.wobj(o.id)
        start, cnt = None, None
        if o.ty is not None:
            def find(t, base):
                r = self.mod.resolve(t) if t[0] == 'named' else t
                if r[0] == 'arr':
                    s = self.mod.size(r[2])
                    if s == stride: return (base, r[1])
                    if s > stride and r[1] > 0:
                        for i in range(r[1]):
                            z = find(r[2], base+i*s)
                            if z and z[0] <= off.c < z[0] + z[1]*stride: return z
                    if stride % s == 0 and stride > s and (s*r[1]) % stride == 0: return (base, s*r[1]//stride)
                    return None
                if r[0] == 'struct':
                    hit = None
                    for f, fo in zip(r[1], self.mod.layout(r)[2]):
                        z = find(f, base+fo)
                        if z and (hit is None or (z[0] <= off.c < z[0]+z[1]*stride)): hit = z
                    return hit
                return None
            z = find(o.ty, 0)
            if z: start, cnt = z
        if start is None:
            if not isinstance(o.size, int): raise Unsupported('symbolic offset in %s' % o.name)
            start = 0; cnt = o.size//stride
        if any(not (s.start >= start + cnt*stride or (isinstance(s.count, int) and s.start + s.stride*s.count <= start)) for s in o.segs):
            raise Unsupported('overlapping segments in %s %s %s %s %s' % (o.name, off, start, stride, [(s.start,s.stride,s.count) for s in o.segs]))
        seg = Seg(start, stride, cnt)
        cells = sorted((k, v) for k, v in o.cells.items() if start <= k < start + cnt*stride)
        for k, (t, v) in cells:
            c = (k - start) % stride
            f = seg.fields.get(c)
            if f is None:
                f = self.new_field(st, o, seg, c, t)
            seg.fields[c] = (f[0], store(f[1], (k-start)//stride, self.enc(st, o, seg, c, f[0], v)))
            del o.cells[k]
        o.segs.append(seg)
        return len(o.segs)-1
    def new_field(self, st, o, seg, c, t):
        s = self.sort_of(t) if t != ('i', 1) else Int
        if o.init == 'zero':
            A = z3.K(Int, val(0 if s == Int else Fraction(0)) if s != Bool else z3.BoolVal(False))
            if t[0] == 'ptr': A = z3.K(Int, z3.IntVal(-1))
        else:
            A = z3.Const('mem_%s_%d_%d!%s' % (str(o.name).replace('!','_'), seg.start, c, o.id), z3.ArraySort(Int, s))
        keep(A)
        return (t, A)
    def retype(self, s, c, ty):
        """a zero-filled field of guessed type gets its real type (zero bytes are zero in every scalar type)"""
        A = s.fields[c][1]; so = self.sort_of(ty)
        if A.sort().range() != so:
            j = z3.Int('j?')
            A = keep(z3.Lambda([j], z3.ToReal(A[j]) if so == Real else z3.ToInt(A[j])))
        if ty[0] == 'ptr':
            j = z3.Int('j?'); A = keep(z3.Lambda([j], z3.If(A[j] == 0, z3.IntVal(-1), A[j])))
        s.fields[c] = (ty, A); s.guess = tuple(x for x in s.guess if x != c)
        return s.fields[c]
    # pointers inside arrays: encoded as element index in a target object (family)
    def enc(self, st, o, seg, c, t, v):
        if t[0] != 'ptr': return v
        if v is None: raise Unsupported('undef ptr in array')
        if isinstance(v, FnPtr): raise Unsupported('function pointer in array')
        key = (seg.start, c)
        fam = o.fam.get(key)
        if isinstance(fam, Ptr):
            if v.o != fam.o or not (v.off.const() and v.off.c == fam.off.c): raise Unsupported('constant pointer field overwritten')
            return 0
        if v.o is None: return -1
        if fam is None:
            o.fam = dict(o.fam); o.fam[key] = v.o; fam = v.o
        if fam != v.o:
            raise Unsupported('pointer array %s mixes objects' % o.name)
        return self.ptr_index(st, v)
    def ptr_index(self, st, v):
        t = st.obj(v.o)
        if not t.segs or t.segs[0].stride is None: 
            if v.off.const() and v.off.c == 0: return 0
            raise Unsupported('pointer to non-array stored in array: %s %s' % (t.name, t.kind))
        s = t.segs[0]
        l = v.off - Lin({}, s.start)
        if l.gcd() % s.stride or l.c % s.stride: raise Unsupported('interior pointer in array')
        return Lin({k: (e, cc//s.stride) for k, (e, cc) in l.t.items()}, l.c//s.stride).to()
    def dec(self, st, o, seg, c, t, v):
        if t[0] != 'ptr': return v
        fam = o.fam.get((seg.start, c))
        if fam is None:
            if isinstance(v, int) and v == -1: return NULL
            raise Unsupported('pointer array %s without target' % o.name)
        if isinstance(fam, Ptr): return fam
        tgt = st.obj(fam)
        if isinstance(v, int) and v == -1: return NULL
        sd = tgt.segs[0].stride if tgt.segs else 1
        return Ptr(fam, lin(v).scale(sd) + Lin({}, tgt.segs[0].start if tgt.segs else 0))
    def load(self, st, p, ty):
        size = self.mod.size(ty)
        if ty[0] in ('struct','arr','named','vec'):
            r = self.mod.resolve(ty) if ty[0] == 'named' else ty
            if r[0] == 'struct':
                return tuple(self.load(st, Ptr(p.o, p.off + Lin({}, fo)), t) for t, fo in zip(r[1], self.mod.layout(r)[2]))
            s = self.mod.size(r[2])
            return tuple(self.load(st, Ptr(p.o, p.off + Lin({}, i*s)), r[2]) for i in range(r[1]))
        o = self.deref(st, p, size, 'load')
        w = self.pick_seg(st, o, p, size, ty, False)
        o = st.obj(p.o)
        if w is None:
            return self.load_cell(st, o, p.off.c, ty, size)
        i, idx, c = w
        s = o.segs[i]
        f = s.fields.get(c)
        if f is None:
            # maybe a wider read over narrower fields
            sub = sorted(k for k in s.fields if c <= k < c+size)
            if sub and ty[0] == 'i':
                return Packed([(k-c, s.fields[k][0], self.load(st, Ptr(p.o, p.off + Lin({}, k-c)), s.fields[k][0])) for k in sub], size)
            o = st.wobj(p.o); s = o.segs[i]
            f = self.new_field(st, o, s, c, ty); s.fields[c] = f
        ft, A = f
        if ft != ty and c in s.guess and self.mod.size(ft) == size:
            s = st.wobj(o.id).segs[i]; ft, A = self.retype(s, c, ty)
        if ft != ty:
            fs = self.mod.size(ft)
            if fs == size and ft[0] == 'i' and ty[0] == 'i': pass
            elif fs < size and ty[0] == 'i':
                sub = sorted(k for k in s.fields if c <= k < c+size)
                if fs*1 >= s.stride:  # consecutive elements
                    n = size//fs
                    return self.pack_ints([self.load(st, Ptr(p.o, p.off + Lin({}, j*fs)), ft) for j in range(n)], ft, fs)
                return Packed([(k-c, s.fields[k][0], self.load(st, Ptr(p.o, p.off + Lin({}, k-c)), s.fields[k][0])) for k in sub], size)
            else:
                raise Unsupported('type confusion %s vs %s in %s' % (ft, ty, o.name))
        v = sel(A, idx)
        if o.kind == 'glob' and ty[0] == 'i' and isz(v) and not self.pure and len(v.sexpr()) > 400:
            w_ = st.fresh('tab', Int); st.facts.append((keep(w_ == v), 'f')); v = w_   # a name for an entry of a constant table
        if ty[0] == 'i': self.range_fact(st, v, ty)
        elif ty[0] in ('float','double') and isz(v): pass
        return self.dec(st, o, s, c, ty, v)
    def pack_ints(self, vals, ft, fs):
        r = 0
        for j, v in enumerate(vals):
            u = v
            if j < len(vals)-1: u = self.unsigned(None, v, ft[1])
            r = add(r, mul(u, 1 << (8*fs*j)))
        return r
    def load_cell(self, st, o, off, ty, size):
        c = o.cells.get(off)
        if c is not None:
            ct, v = c
            if ct == ty: return v
            cs = self.mod.size(ct)
            if cs == size:
                if ct[0] == 'i' and ty[0] == 'i':
                    if ty[1] == 1: return self.tobool(v)
                    if ct[1] == 1: return ite(v, 1, 0)
                    return v
                if ct[0] == 'ptr' and ty[0] == 'i': return PtrInt(v)
                if ct[0] == 'i' and ty[0] == 'ptr':
                    if isinstance(v, PtrInt): return v.p
                    if isinstance(v, int) and v == 0: return NULL
                if isinstance(v, Packed): pass
                if ct[0] in ('float','double') and ty[0] == 'i': return Packed([(0, ct, v)], size)
                if v is None: return self.fresh_val(st, ty)
            elif isinstance(v, Packed):
                return v.cells[0][2]
            elif cs > size and ct[0] == 'i' and ty[0] == 'i' and isinstance(v, int):
                x = v & ((1 << ty[1])-1)
                return x - (1 << ty[1]) if x >> (ty[1]-1) else x
        sub = sorted(k for k in o.cells if off <= k < off+size and k + self.mod.size(o.cells[k][0]) <= off+size)
        if sub and ty[0] == 'i':
            if all(o.cells[k][0][0] == 'i' and isinstance(o.cells[k][1], int) for k in sub):
                fs = self.mod.size(o.cells[sub[0]][0])
                if all(self.mod.size(o.cells[k][0]) == fs for k in sub) and len(sub)*fs == size:
                    r = self.pack_ints([o.cells[k][1] for k in sub], o.cells[sub[0]][0], fs)
                    n = ty[1]; r &= (1 << n)-1
                    return r - (1 << n) if r >> (n-1) else r
            return Packed([(k-off, o.cells[k][0], o.cells[k][1]) for k in sub], size)
        for k in o.cells:
            if k < off < k + self.mod.size(o.cells[k][0]):
                ct, v = o.cells[k]
                if isinstance(v, Packed):
                    for (co, t, x) in v.cells:
                        if k+co == off and t == ty: return x
                if isinstance(v, int) and ty[0] == 'i':
                    x = (v >> (8*(off-k))) & ((1 << ty[1])-1)
                    return x - (1 << ty[1]) if x >> (ty[1]-1) else x
                raise Unsupported('partial read in %s' % o.name)
        if o.init == 'zero':
            return self.zero_val(ty)
        if ty[0] == 'ptr':
            raise Unsupported('uninitialised pointer read in %s+%d' % (o.name, off))
        v = keep(z3.Const('mem_%s_%d!%s' % (str(o.name).replace('!','_'), off, o.id), self.sort_of(ty) if ty != ('i', 1) else Int))
        if ty[0] == 'i': self.range_fact(st, v, ty)
        o = st.wobj(o.id)
        o.cells[off] = (ty, v)
        return v
    def store(self, st, p, v, ty):
        if ty[0] in ('struct','arr','named','vec'):
            r = self.mod.resolve(ty) if ty[0] == 'named' else ty
            if r[0] == 'struct':
                for x, t, fo in zip(v, r[1], self.mod.layout(r)[2]): self.store(st, Ptr(p.o, p.off + Lin({}, fo)), x, t)
            else:
                s = self.mod.size(r[2])
                for i, x in enumerate(v): self.store(st, Ptr(p.o, p.off + Lin({}, i*s)), x, r[2])
            return
        if isinstance(v, Packed):
            for (co, t, x) in v.cells: self.store(st, Ptr(p.o, p.off + Lin({}, co)), x, t)
            return
        size = self.mod.size(ty)
        if ty[0] == 'i' and type(v) is int and ty[1] > 1 and not -(1 << (ty[1]-1)) <= v < (1 << (ty[1]-1)): raise Unsupported('engine: constant outside its type')
        if SANE and ty[0] == 'i' and 1 < ty[1] <= 64 and isz(v) and not self.quiet:
            n = ty[1]
            if self.check(st.facts, z3.Not(z3.And(v >= -(1 << (n-1)), v < (1 << (n-1)))), 1000) != z3.unsat: print('   SANE: store of a value maybe outside i%d: %s in %s' % (n, str(v)[:200], self.dm(self.stack[-1])[:80]), file=sys.stderr)
        o = self.deref(st, p, size, 'store')
        if o.ro: 
            self.obligation(st, False, 'write-to-constant:' + o.name, 'memory'); raise PathEnd()
        w = self.pick_seg(st, o, p, size, ty, True)
        o = st.wobj(p.o)
        if w is None:
            off = p.off.c
            for k in list(o.cells):
                ks = self.mod.size(o.cells[k][0])
                if k != off and k < off+size and off < k+ks:
                    if off <= k and k+ks <= off+size: del o.cells[k]; self.log_write(('cell', o.id, k))
                    else:
                        ct, cv = o.cells[k]
                        if isinstance(cv, Packed):
                            del o.cells[k]
                            for (co, t, x) in cv.cells: o.cells[k+co] = (t, x)
                        elif isinstance(cv, int) and ct[0] == 'i':
                            del o.cells[k]
                            for j in range(ks):
                                b = (cv >> (8*j)) & 255
                                o.cells[k+j] = (('i', 8), b-256 if b > 127 else b)
                            for j in range(off, off+size): o.cells.pop(j, None)
                        else: raise Unsupported('partial overwrite in %s' % o.name)
            o.cells[off] = (ty, v)
            self.log_write(('cell', o.id, off))
            return
        i, idx, c = w
        s = o.segs[i]
        f = s.fields.get(c)
        if f is None: f = self.new_field(st, o, s, c, ty)
        if f[0] != ty and c in s.guess and self.mod.size(f[0]) == size: f = self.retype(s, c, ty)
        if f[0] != ty and not (f[0][0] == 'i' and ty[0] == 'i' and self.mod.size(f[0]) == size):
            raise Unsupported('type confusion on store %s vs %s in %s' % (f[0], ty, o.name))
        if ty == ('i', 1): v = ite(v, 1, 0)
        if isinstance(v, PtrInt): raise Unsupported('ptrint in array')
        s.fields[c] = (f[0], store(f[1], idx, self.enc(st, o, s, c, f[0], v)))
        self.log_write(('seg', o.id, s.start, c))

    def gep(self, st, ty, base, idxs):
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        if not isinstance(base, Ptr): raise Unsupported('gep on %s' % (base,))
        off = base.off
        off = off + lin(idxs[0]).scale(self.mod.size(ty))
        t = ty
        for ix in idxs[1:]:
            r = self.mod.resolve(t) if t[0] == 'named' else t
            if r[0] == 'struct':
                off = off + Lin({}, self.mod.layout(r)[2][ix]); t = r[1][ix]
            elif r[0] in ('arr','vec'):
                t = r[2]; off = off + lin(ix).scale(self.mod.size(t))
            else: raise Unsupported('gep into %s' % (r,))
        return Ptr(base.o, off)

    # ------------------------------------------------------------ integer helpers
    def unsigned(self, st, x, n):
        if isinstance(x, bool): return int(x)
        if isinstance(x, int): return x & ((1 << n)-1)
        if st is not None and self.qprove(st, x >= 0, 200): return x
        return ite(lt(x, 0), add(x, 1 << n), x)
    def wrap(self, st, x, n):
        """mathematical integer -> canonical signed n-bit"""
        if isinstance(x, int):
            x &= (1 << n)-1
            return x - (1 << n) if x >> (n-1) else x
        if st is not None and self.qprove(st, z3.And(x >= -(1 << (n-1)), x < (1 << (n-1))), 200): return x
        r = sub(imod(add(x, 1 << (n-1)), 1 << n), 1 << (n-1))
        if isz(r): self.wrapped[r.get_id()] = x
        return r
    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, z3.BoolRef): return v
        # bool objects hold 0/1 (type validity)
        k = v.decl().kind() if z3.is_app(v) else None
        if k == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            return ite(v.arg(0), bool(a), bool(b))
        return bnot(eq(v, 0))

    def binop(self, st, op, ty, a, b, fl):
        if op[0] == 'f' and op in ('fadd','fsub','fmul','fdiv','frem'):
            if op == 'fadd': return radd(a, b)
            if op == 'fsub': return rsub(a, b)
            if op == 'fmul': return rmul(a, b)
            if op == 'fdiv':
                if isf(b):
                    if b == 0: return self.uf('fdiv0', [a], Real)
                    return rmul(a, 1/b) if isf(a) else keep(rz(a)/rz(b))
                if self.opts.get('fdiv_check'): self.obligation(st, bnot(rcmp('eq', b, Fraction(0))), 'division by zero (float)', 'arith')
                return keep(rz(a)/rz(b))
            raise Unsupported(op)
        n = ty[1]
        if n == 1:
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if op == 'xor': 
                if b is True: return bnot(a)
                if a is True: return bnot(b)
                if isinstance(a, bool): return b if not a else bnot(b)
                if isinstance(b, bool): return a
                return keep(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, (PtrInt,)) or isinstance(b, (PtrInt,)):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptr_diff(st, a.p, b.p)
            raise Unsupported('arithmetic on pointer bits: ' + op)
        if isinstance(a, Packed) and op == 'lshr' and isinstance(b, int) and b % 8 == 0:
            m = b//8
            if all(o >= m or o + self.mod.size(t) <= m for o, t, v in a.cells): return Packed([(o-m, t, v) for o, t, v in a.cells if o >= m], n//8)
        if isinstance(a, Packed) or isinstance(b, Packed): raise Unsupported('arithmetic on packed struct: ' + op)
        if op in ('add','sub','mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            if isinstance(r, int): 
                w = self.wrap(None, r, n)
                if w != r and 'nsw' in fl:
                    self.obligation(st, False, 'signed overflow', 'arith')
                return w
            if 'nsw' in fl:
                ok = z3.And(r >= -(1 << (n-1)), r < (1 << (n-1)))
                if self.pure: return r
                if self.overflow == 'check':
                    self.obligation(st, ok, 'signed overflow', 'arith')
                else:
                    if not self.qprove(st, ok, 100):
                        self.notes.add('no signed overflow assumed')
                        st.facts.append((keep(ok), 'f'))
                return r
            return self.wrap(st, r, n)
        if op in ('sdiv','srem'):
            if isinstance(b, int):
                if b == 0:
                    self.obligation(st, False, 'division by zero', 'arith'); raise PathEnd()
                if isinstance(a, int):
                    q = abs(a)//abs(b)
                    if (a < 0) != (b < 0): q = -q
                    return q if op == 'sdiv' else a - q*b
                if b > 0:
                    if lin(a).gcd() % b == 0 and lin(a).c % b == 0:
                        return idiv(a, b) if op == 'sdiv' else 0
                    if self.qprove(st, a >= 0, 200):
                        return idiv(a, b) if op == 'sdiv' else imod(a, b)
                    na = sub(0, a)
                    if op == 'sdiv': return ite(le(0, a), idiv(a, b), sub(0, idiv(na, b)))
                    return ite(le(0, a), imod(a, b), sub(0, imod(na, b)))
            self.obligation(st, bnot(eq(b, 0)), 'division by zero', 'arith')
            q = self.uf('sdiv', [a, b], Int); r = self.uf('srem', [a, b], Int)
            za, zb = iz(a), iz(b)
            # characterisation of truncated division
            st.facts.append((keep(z3.And(
                z3.Implies(z3.And(za >= 0, zb > 0), z3.And(r >= 0, r < zb, q >= 0, q <= za)),
                z3.Implies(z3.And(za <= 0, zb > 0), z3.And(r <= 0, r > -zb, q <= 0, q >= za)),
                z3.Implies(z3.And(za >= 0, za < zb), z3.And(r == za, q == 0)))), 'f'))
            return q if op == 'sdiv' else r
        if op in ('udiv','urem'):
            ua, ub = self.unsigned(st, a, n), self.unsigned(st, b, n)
            if isinstance(ub, int):
                if ub == 0:
                    self.obligation(st, False, 'division by zero', 'arith'); raise PathEnd()
                return self.wrap(st, idiv(ua, ub) if op == 'udiv' else imod(ua, ub), n)
            self.obligation(st, bnot(eq(ub, 0)), 'division by zero', 'arith')
            q = self.uf('sdiv', [ua, ub], Int); r = self.uf('srem', [ua, ub], Int)
            st.facts.append((keep(z3.And(r >= 0, r < iz(ub), q >= 0, q <= iz(ua))), 'f'))
            for c, x in self.coef(iz(ua)):
                # floor(c*x/b) < x for b > c and x > 0
                st.facts.append((keep(z3.Implies(z3.And(iz(ua) == c*x, x > 0, iz(ub) > c), q < x)), 'f'))
            return self.wrap(st, q if op == 'udiv' else r, n)
        if op == 'shl' and isinstance(b, int):
            r = mul(a, 1 << b)
            if 'nsw' in fl and isz(r):
                ok = z3.And(r >= -(1 << (n-1)), r < (1 << (n-1)))
                st.facts.append((keep(ok), 'f')); return r
            return self.wrap(st, r, n)
        if op == 'shl' and isinstance(a, int) and a == 1:
            r = self.uf('pow2', [b], Int); 
            return r
        if op == 'ashr' and isinstance(b, int): return idiv(a, 1 << b)
        if op == 'lshr' and isinstance(b, int): return self.wrap(st, idiv(self.unsigned(st, a, n), 1 << b), n)
        if op in ('and','or','xor'):
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if op == 'and':
                    if b == 0: return 0
                    if bool01(a) is not None: return a if b & 1 else 0
                    if b == -1: return a
                    if b > 0 and (b & (b+1)) == 0: return imod(a, b+1)
                    m = -b
                    if b < 0 and (m & (m-1)) == 0:  # clear low bits
                        return sub(a, imod(a, m))
                    if b > 0 and (b & (b-1)) == 0:
                        return mul(imod(idiv(a, b), 2), b)
                if op == 'xor' and b == -1: return sub(-1, a)
                if op in ('or','xor') and b == 0: return a
            ba, bb = bool01(a), bool01(b)
            if ba is not None and bb is not None:
                x = {'and': band, 'or': bor}[op](ba, bb) if op != 'xor' else bnot(eqb(ba, bb))
                return ite(x, 1, 0)
            r = self.uf('bit' + op, [a, b] if isinstance(b, int) or iz(a).get_id() < iz(b).get_id() else [b, a], Int)
            self.range_fact(st, r, ty)
            za, zb = iz(a), iz(b)
            if op == 'and': st.facts.append((keep(z3.Implies(z3.And(za >= 0, zb >= 0), z3.And(r >= 0, r <= za, r <= zb))), 'f'))
            if op in ('or','xor'): st.facts.append((keep(z3.Implies(z3.And(za >= 0, zb >= 0), z3.And(r >= 0, r <= za+zb))), 'f'))
            return r
        raise Unsupported('%s %s %s' % (op, a, b))
    def uf(self, name, args, sort):
        zs = [rz(a) if isf(a) else val(a) for a in args]
        f = z3.Function(name, *[z.sort() for z in zs], sort)
        return keep(f(*zs))
    def coef(self, e):
        out = []
        for t in ([e] if not z3.is_app_of(e, z3.Z3_OP_ITE) else [e.arg(1), e.arg(2)]):
            t = z3.simplify(t)
            if z3.is_app_of(t, z3.Z3_OP_MOD): t = t.arg(0)
            if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() > 0: out.append((t.arg(0).as_long(), t.arg(1)))
        return out
    def ptr_diff(self, st, a, b):
        if a.o == b.o: return (a.off - b.off).to()
        raise Unsupported('difference of pointers into different objects')
    def ptr_eq(self, st, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        if a.o == b.o:
            if a.o is None: return True
            return eq(a.off.to(), b.off.to())
        if a.o is None: a, b = b, a
        if b.o is None:
            o = st.obj(a.o)
            if o.kind == 'family':
                s = o.segs[0]
                return lt(a.off.to(), 0)
            return False
        return False
    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr' or isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt): a = a.p
            if isinstance(b, PtrInt): b = b.p
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if not isinstance(a, (Ptr, FnPtr)) or not isinstance(b, (Ptr, FnPtr)): raise Unsupported('pointer compare')
            if pred == 'eq': return self.ptr_eq(st, a, b)
            if pred == 'ne': return bnot(self.ptr_eq(st, a, b))
            if a.o == b.o and a.o is not None:
                x, y = a.off.to(), b.off.to()
                return {'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x),
                        'slt': lt(x, y), 'sle': le(x, y), 'sgt': lt(y, x), 'sge': le(y, x)}[pred]
            raise Unsupported('ordering of unrelated pointers')
        if ty == ('i', 1):
            if pred in ('eq','ne'):
                if isinstance(b, bool): r = a if b else bnot(a)
                elif isinstance(a, bool): r = b if a else bnot(b)
                else: r = keep(a == b)
                return r if pred == 'eq' else bnot(r)
            raise Unsupported('i1 icmp')
        if isinstance(a, Packed) or isinstance(b, Packed): raise Unsupported('icmp on packed')
        if pred in ('eq', 'ne'):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and isz(a):
                t = bool01(a)
                if t is not None:
                    r = t if b == 1 else bnot(t) if b == 0 else False
                    return r if pred == 'eq' else bnot(r)
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return bnot(eq(a, b))
        if pred[0] == 's':
            return {'slt': lt(a, b), 'sle': le(a, b), 'sgt': lt(b, a), 'sge': le(b, a)}[pred]
        n = ty[1]
        if pred in ('ugt','uge'):
            a, b = b, a; pred = 'ult' if pred == 'ugt' else 'ule'
        ua, ub = self.unsigned(st, a, n), self.unsigned(st, b, n)
        return lt(ua, ub) if pred == 'ult' else le(ua, ub)
    def fcmp(self, st, pred, a, b):
        nan = False
        if pred in ('true','false'): return pred == 'true'
        if a is NANV or b is NANV: return pred[0] == 'u'
        if pred == 'ord': return True
        if pred == 'uno': return False
        p = pred[1:]
        if p == 'eq': return rcmp('eq', a, b)
        if p == 'ne': return bnot(rcmp('eq', a, b))
        if p == 'lt': return rcmp('lt', a, b)
        if p == 'le': return rcmp('le', a, b)
        if p == 'gt': return rcmp('lt', b, a)
        if p == 'ge': return rcmp('le', b, a)
        raise Unsupported('fcmp ' + pred)
    def cast(self, st, op, ty, a, to):
        if op in ('bitcast', 'freeze'):
            if ty == to or ty[0] == to[0]: return a
            if isinstance(a, Packed) and len(a.cells) == 1: return a.cells[0][2]
            if ty[0] in ('float','double') and to[0] == 'i': return Packed([(0, ty, a)], self.mod.size(ty))
            raise Unsupported('bitcast %s %s' % (ty, to))
        if op == 'ptrtoint': return PtrInt(a) if isinstance(a, Ptr) and a.o is not None else (0 if isinstance(a, Ptr) else PtrInt(a))
        if op == 'inttoptr':
            if isinstance(a, PtrInt): return a.p
            if isinstance(a, int) and a == 0: return NULL
            raise Unsupported('inttoptr')
        if isinstance(a, Packed):
            if op == 'trunc':
                n = to[1]//8
                cs = [c for c in a.cells if c[0] < n]
                if len(cs) == 1 and cs[0][0] == 0 and cs[0][1][0] == 'i' and self.mod.size(cs[0][1]) == n: return cs[0][2]
                return Packed(cs, n)
            raise Unsupported('cast of packed')
        if op == 'sext':
            if ty[1] == 1: return ite(a, -1, 0)
            return a
        if op == 'zext':
            if ty[1] == 1: return ite(a, 1, 0)
            return self.unsigned(st, a, ty[1])
        if op == 'trunc':
            if to[1] == 1: return self.tobool(a)
            return self.wrap(st, a, to[1])
        if op in ('fpext','fptrunc'): return a
        if op == 'sitofp':
            if ty[1] == 1: return ite(a, Fraction(-1), Fraction(0))
            return itor(a)
        if op == 'uitofp':
            if ty[1] == 1: return ite(a, Fraction(1), Fraction(0))
            return itor(self.unsigned(st, a, ty[1]))
        if op in ('fptosi','fptoui'):
            if isf(a):
                q = abs(a.numerator)//a.denominator
                q = q if a >= 0 else -q
                return q - (1 << to[1]) if op == 'fptoui' and q >= (1 << (to[1]-1)) else q
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL: r = a.arg(0)
            else: r = keep(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))
            n = to[1]
            lo, hi = (0, 1 << n) if op == 'fptoui' else (-(1 << (n-1)), 1 << (n-1))
            ok = keep(z3.And(r >= lo, r < hi))
            if not (isinstance(conc(r), int)):
                if self.overflow == 'check' or self.opts.get('fptosi_check'): self.obligation(st, ok, 'float-to-int conversion in range', 'arith')
                else: st.facts.append((ok, 'f'))
            if op == 'fptoui': r = keep(z3.If(r >= (1 << (n-1)), r - (1 << n), r))
            return conc(r)
        raise Unsupported(op)

    # ------------------------------------------------------------ execution
    def val(self, st, regs, ty, v):
        k = v[0]
        if k == 'reg':
            try: return regs[v[1]]
            except KeyError: raise Unsupported('unset register %s' % v[1])
        if k == 'int' and ty[0] == 'i': 
            return bool(v[1]) if ty[1] == 1 else self.const_val(st, ty, v)
        return self.const_val(st, ty, v)

    def call(self, st, name, args):
        """-> list of (state, value)"""
        name = self.mod.alias.get(name, name)
        if len(self.stack) > INLINE_LIMIT: raise Unsupported('call depth')
        if self.stack.count(name) > 3: raise Unsupported('recursion in ' + self.dm(name))
        d = self.dm(name)
        for h in self.hooks(name, d):
            r = h(self, st, name, d, args)
            if r is not NotImplemented:
                return r
        if name not in self.mod.funcs:
            raise Unsupported('external function ' + d)
        return self.exec_func(st, name, args)
    def hooks(self, name, d):
        h = self.models.get(name)
        if h is None:
            import models
            h = models.lookup(self, name, d)
            self.models[name] = h
        return h
    def exec_func(self, st, name, args):
        fn = self.mod.func(name)
        if not name.startswith('_ZZ') or True:
            self.funcs_seen[name] = self.funcs_seen.get(name, 0)+1
        self.stack.append(name)
        try:
            regs = {}
            for (t, nm, info), a in zip(fn.params, args):
                if 'byval' in info:
                    q = self.new_obj(st, 'byval', self.mod.size(info['byval']), 'stack', info['byval'])
                    self.copy_bytes(st, Ptr(q.id, Lin({}, 0)), a, info['byval'])
                    a = Ptr(q.id, Lin({}, 0))
                regs[nm] = a
            regs['$allocas'] = ()
            outs = self.run(st, fn, regs, fn.entry, None, None)
            res = []
            for o in outs:
                if o[0] == 'ret':
                    s = o[1]
                    for a in o[3]: s.objs.pop(a, None)
                    res.append((s, o[2]))
                else: raise Unsupported('bad outcome')
            return res
        finally:
            self.stack.pop()
    def copy_bytes(self, st, dst, src, ty):
        for off, t in self.mod.flatten(ty):
            so = st.obj(src.o)
            try:
                v = self.load(st, Ptr(src.o, src.off + Lin({}, off)), t)
            except Unsupported as e:
                if 'uninitialised pointer' in str(e): continue
                raise
            self.store(st, Ptr(dst.o, dst.off + Lin({}, off)), v, t)

    def run(self, st, fn, regs, bb, prev, ctx):
        """explore from the start of block bb.  ctx = (header, blocks) when inside a cut loop.
        outcomes: ('ret',st,val,allocas) ('back',st,regs,prev) ('exit',st,regs,target,prev)"""
        outs = []
        work = [(st, regs, bb, prev, True)]
        while work:
            st, regs, bb, prev, first = work.pop()
            if ctx and not first:
                if bb == ctx[0]:
                    outs.append(('back', st, regs, prev)); continue
                if bb not in ctx[1]:
                    outs.append(('exit', st, regs, bb, prev)); continue
            if bb in fn.loops and not (ctx and first and bb == ctx[0]):
                try:
                    exits = self.loop(st, fn, regs, bb, prev)
                except PathEnd:
                    continue
                for e in exits:
                    if e[0] == 'exit': work.append((e[1], e[2], e[3], e[4], False))
                    else: outs.append(e)
                continue
            try:
                nxt = self.block(st, fn, regs, fn.blocks[bb], prev, outs)
            except PathEnd:
                self.stats['paths'] += 1
                continue
            for (s, r, b) in nxt:
                work.append((s, r, b, bb, False))
        return outs

    def block(self, st, fn, regs, blk, prev, outs):
        insts = blk.insts
        # phis
        i = 0
        new = {}
        while i < len(insts) and insts[i].op == 'phi':
            I = insts[i]
            if not (prev == '$header'):
                for v, b in I.a:
                    if b == prev:
                        new[I.res] = self.val(st, regs, I.ty, v); break
                else: raise Unsupported('phi without edge')
            i += 1
        regs = dict(regs)
        regs.update(new)
        return self.insts(st, fn, regs, blk, i, outs)
    def insts(self, st, fn, regs, blk, i, outs):
        insts = blk.insts
        while True:
            I = insts[i]
            op = I.op
            self.stats['insts'] += 1
            if op == 'br':
                if len(I.a) == 1: return [(st, regs, I.a[0])]
                c = self.val(st, regs, I.ty, I.a[0])
                return self.branch(st, regs, c, I.a[1], I.a[2], fn, blk)
            if op == 'switch':
                v = self.val(st, regs, I.ty, I.a[0])
                res = []
                if isinstance(v, int):
                    for (cv, b) in I.a[2]:
                        if self.const_val(st, I.ty, ('int', cv)) == v: return [(st, regs, b)]
                    return [(st, regs, I.a[1])]
                for (cv, b) in I.a[2]:
                    c = eq(v, cv)
                    if c is False: continue
                    if c is True or self.feasible(st, c):
                        s = st.fork()
                        try:
                            self.assume(s, c, 'b'); res.append((s, dict(regs), b))
                        except PathEnd: pass
                    self.assume(st, bnot(c), 'b')
                if self.feasible(st, z3.BoolVal(True)): res.append((st, regs, I.a[1]))
                return res
            if op == 'ret':
                v = None if I.a[0] is None else self.val(st, regs, I.ty, I.a[0])
                outs.append(('ret', st, v, regs['$allocas']))
                return []
            if op == 'resume':
                st.thr = True
                outs.append(('ret', st, None, regs['$allocas']))
                return []
            if op == 'unreachable':
                self.obligation(st, False, 'unreachable code reached', 'memory')
                raise PathEnd()
            if op in ('call', 'invoke'):
                callee = I.a[0]
                if callee[0] == 'glob': name = callee[1]
                else:
                    f = self.val(st, regs, ('ptr',), callee)
                    if not isinstance(f, FnPtr): raise Unsupported('indirect call to %s' % (f,))
                    name = f.name
                args = [self.val(st, regs, t, v) if t[0] != 'metadata' else None for t, v, inf in I.a[1]]
                rs = self.call(st, name, args)
                if op == 'invoke':
                    res = []
                    for s, v in rs:
                        r2 = dict(regs)
                        if s.thr: res.append((s, r2, I.a[3])); continue
                        if I.res is not None: r2[I.res] = v
                        res.append((s, r2, I.a[2]))
                    return res
                if not rs: raise PathEnd()
                for s, v in rs:
                    if s.thr: outs.append(('ret', s, None, regs['$allocas']))      # the exception leaves this function
                rs = [(s, v) for s, v in rs if not s.thr]
                if not rs: return []
                if len(rs) == 1:
                    st = rs[0][0]
                    if I.res is not None: regs[I.res] = rs[0][1]
                    i += 1
                    continue
                res = []
                for s, v in rs:
                    r2 = dict(regs)
                    if I.res is not None: r2[I.res] = v
                    try:
                        res += self.insts(s, fn, r2, blk, i+1, outs)
                    except PathEnd:
                        self.stats['paths'] += 1
                return res
            if op == 'select':
                c = self.val(st, regs, ('i', 1), I.a[0])
                a = self.val(st, regs, I.ty, I.a[1]); b = self.val(st, regs, I.ty, I.a[2])
                if isinstance(c, bool): regs[I.res] = a if c else b
                elif isinstance(a, (Ptr, FnPtr, tuple)) or isinstance(b, (Ptr, FnPtr, tuple)):
                    res = []
                    s2 = st.fork()
                    for s, cc, v in ((st, c, a), (s2, bnot(c), b)):
                        if self.feasible(s, cc):
                            try:
                                self.assume(s, cc, 'b')
                                r2 = dict(regs); r2[I.res] = v
                                res += self.insts(s, fn, r2, blk, i+1, outs)
                            except PathEnd: pass
                    return res
                else: regs[I.res] = ite(c, a, b)
            else:
                self.simple(st, fn, regs, I)
            i += 1
    def branch(self, st, regs, c, a, b, fn, blk):
        if isinstance(c, bool): return [(st, regs, a if c else b)]
        nc = bnot(c)
        fa = self.feasible(st, c)
        fb = self.feasible(st, nc)
        if fa and fb:
            s2 = st.fork()
            res = []
            try:
                self.assume(s2, nc, 'b'); res.append((s2, dict(regs), b))
            except PathEnd: pass
            try:
                self.assume(st, c, 'b'); res.append((st, regs, a))
            except PathEnd: pass
            return res
        if fa:
            self.assume(st, c, 'f')
            return [(st, regs, a)]
        if fb:
            self.assume(st, nc, 'f')
            return [(st, regs, b)]
        raise PathEnd()
    def halves(self, st, fn, regs, v, depth):
        """a 64 bit value put together from two 32 bit integers (a struct passed in a register): (low, high), None where unknown"""
        if depth > 6: return None
        if v[0] == 'int': 
            x = v[1] & 0xffffffffffffffff
            f = lambda y: y - (1 << 32) if y >> 31 else y
            return (f(x & 0xffffffff), f(x >> 32))
        if v[0] == 'undef' or v[0] == 'poison': return (0, 0)
        if v[0] != 'reg': return None
        x = regs.get(v[1])
        if isinstance(x, Packed):
            c = {o: w for o, t, w in x.cells if t == ('i', 32)}
            return (c.get(0), c.get(4))
        if not hasattr(fn, 'defmap'):
            fn.defmap = {J.res: J for b in fn.blocks.values() for J in b.insts if J.res is not None}
        D = fn.defmap.get(v[1])
        if D is None: return None
        if D.op == 'zext' and D.ty == ('i', 32): return (self.val(st, regs, D.ty, D.a[0]), 0)
        if D.op == 'shl' and D.a[1] == ('int', 32):
            h = self.halves(st, fn, regs, D.a[0], depth+1)
            return None if h is None else (0, h[0])
        if D.op == 'and' and D.a[1][0] == 'int' and D.a[1][1] & 0xffffffffffffffff in (0xffffffff, 0xffffffff00000000):
            h = self.halves(st, fn, regs, D.a[0], depth+1)
            if h is None: return None
            return (h[0], 0) if D.a[1][1] & 0xffffffff else (0, h[1])
        if D.op == 'or':
            a, b = self.halves(st, fn, regs, D.a[0], depth+1), self.halves(st, fn, regs, D.a[1], depth+1)
            if a is None or b is None: return None
            r = []
            for x, y in zip(a, b):
                r.append(y if isinstance(x, int) and x == 0 else x if isinstance(y, int) and y == 0 else None)
            return tuple(r)
        return None
    def simple(self, st, fn, regs, I):
        op = I.op
        V = lambda t, v: self.val(st, regs, t, v)
        from ir import BIN, CAST
        if op in ('or', 'and') and I.ty == ('i', 64):
            pc = self.halves(st, fn, regs, ('reg', I.res), 0)
            if pc is not None and pc[0] is not None and pc[1] is not None and not (isinstance(pc[0], int) and isinstance(pc[1], int)):
                regs[I.res] = Packed([(0, ('i', 32), pc[0]), (4, ('i', 32), pc[1])], 8)
                return
        if op in BIN:
            regs[I.res] = self.binop(st, op, I.ty, V(I.ty, I.a[0]), V(I.ty, I.a[1]), I.flags)
        elif op == 'icmp':
            regs[I.res] = self.icmp(st, I.flags[0], I.ty, V(I.ty, I.a[0]), V(I.ty, I.a[1]))
        elif op == 'fcmp':
            regs[I.res] = self.fcmp(st, I.flags[0], V(I.ty, I.a[0]), V(I.ty, I.a[1]))
        elif op in CAST:
            regs[I.res] = self.cast(st, op, I.ty, V(I.ty, I.a[0]), I.flags[0])
        elif op == 'fneg': regs[I.res] = rneg(V(I.ty, I.a[0]))
        elif op == 'freeze': regs[I.res] = V(I.ty, I.a[0])
        elif op == 'alloca':
            n = V(('i', 64), I.a[0])
            sz = self.mod.size(I.ty)
            if n != 1:
                o = self.new_array(st, I.res or 'alloca', sz, n, 'stack'); o.ty = None
            else:
                o = self.new_obj(st, '%s.%s' % (self.dm(fn.name).split('(')[0][-30:], I.res), sz, 'stack', I.ty)
            regs['$allocas'] = regs['$allocas'] + (o.id,)
            regs[I.res] = Ptr(o.id, Lin({}, 0))
        elif op == 'load': regs[I.res] = self.load(st, V(('ptr',), I.a[0]), I.ty)
        elif op == 'store': self.store(st, V(('ptr',), I.a[1]), V(I.ty, I.a[0]), I.ty)
        elif op == 'getelementptr':
            regs[I.res] = self.gep(st, I.ty, V(*I.a[0]), [V(t, v) for t, v in I.a[1:]])
        elif op == 'extractvalue':
            v = V(I.ty, I.a[0])
            for ix in I.a[1]: v = v[ix]
            regs[I.res] = v
        elif op == 'insertvalue':
            v = V(I.ty, I.a[0])
            def ins(v, ix, w):
                l = list(v); l[ix[0]] = w if len(ix) == 1 else ins(l[ix[0]], ix[1:], w)
                return tuple(l)
            regs[I.res] = ins(v, I.a[2], V(*I.a[1]))
        elif op == 'extractelement':
            regs[I.res] = V(I.ty, I.a[0])[V(('i', 64), I.a[1])]
        elif op == 'insertelement':
            l = list(V(I.ty, I.a[0])); l[V(('i', 64), I.a[2])] = V(*I.a[1]); regs[I.res] = tuple(l)
        elif op in ('nop',): pass
        elif op == 'landingpad':
            st.thr = False
            if I.res is not None: regs[I.res] = (Ptr(None, Lin({}, 0)), 1)
        else: raise Unsupported('%s: %s' % (op, I.text[:120]))

    # ------------------------------------------------------------ pure evaluation
    def eval_pure(self, st, name, args):
        """evaluate a side-effect free function; merge its paths into one term"""
        s0 = st.fork()
        pos = len(s0.facts)
        self.pure += 1
        logs, self.wlogs = self.wlogs, []
        try:
            outs = self.call(s0, name, args)
        finally:
            self.pure -= 1
            self.wlogs = logs
        res = None
        extra = []
        for s, v in outs:
            c = band(*[f for f, k in s.facts[pos:] if k == 'b'])
            for f, k in s.facts[pos:]:
                if k == 'f': extra.append(bor(bnot(c), f))
                elif k == 'q' and isz(f) and not any(isz(g) and g.get_id() == f.get_id() for g, _ in st.facts):
                    st.facts.append((f, k))      # closed lemma about an uninterpreted contract function
            if isinstance(v, int) and not isinstance(v, bool): v = self.tobool(v)
            if isinstance(v, z3.ArithRef) : v = self.tobool(v)
            res = v if res is None else ite(c, v, res)
        if res is None: raise Unsupported('no path in specification function')
        return res, extra
