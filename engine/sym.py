"""Symbolic values: Python ints / Fractions / bools when concrete, z3 terms otherwise."""
import z3
from fractions import Fraction
from ir import Unsupported

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_keep = {}
def keep(e):
    _keep[e.get_id()] = e
    return e
def isz(x): return isinstance(x, z3.ExprRef)

# ---------------------------------------------------------------- linear forms over Int
class Lin:
    __slots__ = ('t', 'c', '_e')
    def __init__(self, t, c):
        self.t = t; self.c = c; self._e = None
    def __add__(self, o):
        if not self.t: return Lin(o.t, o.c + self.c) if self.c else o
        if not o.t: return Lin(self.t, self.c + o.c) if o.c else self
        t = dict(self.t)
        for k, (e, c) in o.t.items():
            if k in t:
                n = t[k][1] + c
                if n == 0: del t[k]
                else: t[k] = (e, n)
            else: t[k] = (e, c)
        return Lin(t, self.c + o.c)
    def scale(self, n):
        if n == 0: return Lin({}, 0)
        if n == 1: return self
        return Lin({k: (e, c*n) for k, (e, c) in self.t.items()}, self.c*n)
    def __sub__(self, o): return self + o.scale(-1)
    def const(self): return not self.t
    def to(self):
        if not self.t: return self.c
        if self._e is None:
            ps = []
            for k in sorted(self.t):
                e, c = self.t[k]
                ps.append(e if c == 1 else z3.IntVal(c)*e)
            if self.c: ps.append(z3.IntVal(self.c))
            r = ps[0] if len(ps) == 1 else z3.Sum(ps)
            self._e = keep(r)
            _lin[r.get_id()] = self
        return self._e
    def eq(self, o):
        return self.c == o.c and len(self.t) == len(o.t) and all(k in o.t and o.t[k][1] == c for k, (e, c) in self.t.items())
    def gcd(self):
        import math
        g = 0
        for e, c in self.t.values(): g = math.gcd(g, c)
        return g
    def __repr__(self): return 'Lin(%s)' % (self.to(),)
_lin = {}
def lin(x):
    if isinstance(x, Lin): return x
    if isinstance(x, bool): return Lin({}, int(x))
    if isinstance(x, int): return Lin({}, x)
    r = _lin.get(x.get_id())
    if r is not None: return r
    r = _mklin(x)
    _lin[x.get_id()] = r; keep(x)
    return r
def _mklin(x):
    k = x.decl().kind() if z3.is_app(x) else None
    if z3.is_int_value(x): return Lin({}, x.as_long())
    if k == z3.Z3_OP_ADD:
        r = Lin({}, 0)
        for c in x.children(): r = r + lin(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = x.children(); r = lin(cs[0])
        for c in cs[1:]: r = r - lin(c)
        return r
    if k == z3.Z3_OP_UMINUS: return lin(x.arg(0)).scale(-1)
    if k == z3.Z3_OP_MUL and x.num_args() == 2:
        a, b = lin(x.arg(0)), lin(x.arg(1))
        if a.const(): return b.scale(a.c)
        if b.const(): return a.scale(b.c)
    return Lin({x.get_id(): (keep(x), 1)}, 0)

def iz(x):
    """int value -> z3"""
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Lin): return iz(x.to())
    return x
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return (lin(a) + lin(b)).to()
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return (lin(a) - lin(b)).to()
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a*b
    la, lb = lin(a), lin(b)
    if la.const(): return lb.scale(la.c).to()
    if lb.const(): return la.scale(lb.c).to()
    # distribute so that nonlinear monomials are canonical
    r = Lin({}, la.c*lb.c)
    if la.c: r = r + Lin(lb.t, 0).scale(la.c)
    if lb.c: r = r + Lin(la.t, 0).scale(lb.c)
    for e1, c1 in la.t.values():
        for e2, c2 in lb.t.values():
            fs = _factors(e1) + _factors(e2)
            fs.sort(key=lambda e: e.get_id())
            p = fs[0]
            for f in fs[1:]: p = p*f
            p = keep(p)
            r = r + Lin({p.get_id(): (p, c1*c2)}, 0)
    return r.to()
def _factors(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        l = []
        for c in e.children(): l += _factors(c)
        return l
    return [e]

# ---------------------------------------------------------------- booleans
def bz(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def bnot(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def band(*xs):
    l = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: l.append(x)
    if not l: return True
    return l[0] if len(l) == 1 else z3.And(l)
def bor(*xs):
    l = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: l.append(x)
    if not l: return False
    return l[0] if len(l) == 1 else z3.Or(l)
def cmp_int(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'eq': a == b, 'lt': a < b, 'le': a <= b}[op]
    d = lin(a) - lin(b)
    if d.const():
        return {'eq': d.c == 0, 'lt': d.c < 0, 'le': d.c <= 0}[op]
    g = d.gcd()
    # terms cmp -c
    t = {k: (e, c//g) for k, (e, c) in d.t.items()}
    rhs = -d.c
    neg = all(c < 0 for e, c in t.values())
    if op == 'eq':
        if rhs % g: return False
        rhs //= g
        first = t[min(t)][1]
        if first < 0:
            t = {k: (e, -c) for k, (e, c) in t.items()}; rhs = -rhs
        return _side(t) [0] == _side2(t, rhs)
    if op == 'lt':  # sum < rhs  <=> sum <= rhs-1 <=> sum <= floor((rhs-1)/g)
        rhs = (rhs - 1)//g
    else:
        rhs = rhs//g
    # sum <= rhs ; split positive and negative terms for readability
    pos = {k: v for k, v in t.items() if v[1] > 0}
    ngs = {k: (e, -c) for k, (e, c) in t.items() if c < 0}
    if not pos: return iz(Lin(ngs, rhs).to()) >= 0 if rhs != 0 and False else (iz(Lin(ngs, 0).to()) >= -rhs)
    if not ngs: return iz(Lin(pos, 0).to()) <= rhs
    return iz(Lin(pos, 0).to()) <= iz(Lin(ngs, rhs).to())
def _side(t):
    pos = {k: v for k, v in t.items() if v[1] > 0}
    return (iz(Lin(pos, 0).to()),)
def _side2(t, rhs):
    ngs = {k: (e, -c) for k, (e, c) in t.items() if c < 0}
    return iz(Lin(ngs, rhs).to())
def eq(a, b): return cmp_int('eq', a, b)
def lt(a, b): return cmp_int('lt', a, b)
def le(a, b): return cmp_int('le', a, b)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if a is True and b is False: return c
        if a is False and b is True: return bnot(c)
        if a is True: return bor(c, b)
        if a is False: return band(bnot(c), b)
        if b is False: return band(c, a)
        if b is True: return bor(bnot(c), a)
    return keep(z3.If(c, val(a), val(b)))
def val(a):
    if isinstance(a, bool): return z3.BoolVal(a)
    if isinstance(a, int): return z3.IntVal(a)
    if isinstance(a, Fraction): return z3.RealVal(a)
    if isinstance(a, Lin): return iz(a)
    return a
def same(a, b):
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    return type(a) == type(b) and a == b

# ---------------------------------------------------------------- reals (floats)
def rz(x): return z3.RealVal(x) if isinstance(x, (Fraction, int)) else x
def isf(x): return isinstance(x, Fraction)
def radd(a, b):
    if isf(a) and isf(b): return a + b
    if isf(a) and a == 0: return b
    if isf(b) and b == 0: return a
    return keep(rz(a) + rz(b))
def rsub(a, b):
    if isf(a) and isf(b): return a - b
    if isf(b) and b == 0: return a
    return keep(rz(a) - rz(b))
def rmul(a, b):
    if isf(a) and isf(b): return a*b
    if isf(a) and a == 1: return b
    if isf(b) and b == 1: return a
    if isz(a) and isz(b) and a.get_id() > b.get_id(): a, b = b, a
    return keep(rz(a)*rz(b))
def rneg(a):
    return -a if isf(a) else keep(-a)
def rcmp(op, a, b):
    if isf(a) and isf(b): return {'eq': a == b, 'lt': a < b, 'le': a <= b}[op]
    if same(a, b): return op != 'lt'
    a, b = rz(a), rz(b)
    return keep({'eq': a == b, 'lt': a < b, 'le': a <= b}[op])

# ---------------------------------------------------------------- arrays
def sel(A, i, depth=0):
    """select with beta reduction and read-over-write"""
    while True:
        if z3.is_quantifier(A) and A.is_lambda():
            b = z3.substitute_vars(A.body(), iz(i))
            return clean(b)
        if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
            e = eq(A.arg(1), i)
            if e is True: return conc(A.arg(2))
            if e is False: A = A.arg(0); continue
            if depth < 6:
                return ite(e, conc(A.arg(2)), sel(A.arg(0), i, depth+1))
        if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return conc(A.arg(0))
        if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_ITE:
            return ite(A.arg(0), sel(A.arg(1), i), sel(A.arg(2), i))
        return keep(z3.Select(A, iz(i)))
def store(A, i, v):
    return keep(z3.Store(A, iz(i), val(v)))
def conc(e):
    if not isz(e): return e
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
_clean = {}
def clean(e):
    """rebuild with the smart constructors (after a substitution)"""
    if not isz(e): return e
    r = _clean.get(e.get_id())
    if r is not None: return r
    keep(e)
    r = _clean1(e)
    _clean[e.get_id()] = r
    if isz(r): keep(r)
    return r
def _clean1(e):
    if z3.is_quantifier(e): return e
    if z3.is_var(e) or e.num_args() == 0: return conc(e)
    k = e.decl().kind()
    cs = [clean(c) for c in e.children()]
    s = e.sort()
    if k == z3.Z3_OP_SELECT: return sel(cs[0], cs[1])
    if k == z3.Z3_OP_ITE: return ite(cs[0], cs[1], cs[2])
    if k == z3.Z3_OP_AND: return band(*cs)
    if k == z3.Z3_OP_OR: return bor(*cs)
    if k == z3.Z3_OP_NOT: return bnot(cs[0])
    if k == z3.Z3_OP_IMPLIES: return bor(bnot(cs[0]), cs[1])
    if s == Int:
        if k == z3.Z3_OP_ADD:
            r = 0
            for c in cs: r = add(r, c)
            return r
        if k == z3.Z3_OP_SUB:
            r = cs[0]
            for c in cs[1:]: r = sub(r, c)
            return r
        if k == z3.Z3_OP_UMINUS: return sub(0, cs[0])
        if k == z3.Z3_OP_MUL:
            r = 1
            for c in cs: r = mul(r, c)
            return r
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and isinstance(cs[1], int) and cs[1] > 0:
            return idiv(cs[0], cs[1]) if k == z3.Z3_OP_IDIV else imod(cs[0], cs[1])
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) :
        a, b = cs
        ss = e.arg(0).sort()
        if ss == Int:
            if k == z3.Z3_OP_LE: return le(a, b)
            if k == z3.Z3_OP_LT: return lt(a, b)
            if k == z3.Z3_OP_GE: return le(b, a)
            if k == z3.Z3_OP_GT: return lt(b, a)
            return eq(a, b)
        if ss == Real:
            if k == z3.Z3_OP_LE: return rcmp('le', a, b)
            if k == z3.Z3_OP_LT: return rcmp('lt', a, b)
            if k == z3.Z3_OP_GE: return rcmp('le', b, a)
            if k == z3.Z3_OP_GT: return rcmp('lt', b, a)
            return rcmp('eq', a, b)
        if ss == Bool and k == z3.Z3_OP_EQ:
            if same(a, b): return True
            if isinstance(a, bool): return b if a else bnot(b)
            if isinstance(b, bool): return a if b else bnot(a)
            return keep(a == b)
    if s == Real:
        if k == z3.Z3_OP_ADD:
            r = cs[0]
            for c in cs[1:]: r = radd(r, c)
            return r
        if k == z3.Z3_OP_SUB:
            r = cs[0]
            for c in cs[1:]: r = rsub(r, c)
            return r
        if k == z3.Z3_OP_MUL:
            r = cs[0]
            for c in cs[1:]: r = rmul(r, c)
            return r
        if k == z3.Z3_OP_UMINUS: return rneg(cs[0])
        if k == z3.Z3_OP_TO_REAL: return itor(cs[0])
    if all(x is y or (isz(x) and x.eq(y)) for x, y in zip(cs, e.children())): return e
    d = e.decl()
    return conc(keep(d(*[coerce(c, d.domain(i)) for i, c in enumerate(cs)]))) if d.arity() == len(cs) else \
        keep(z3.substitute(e, *[(o, val(n)) for o, n in zip(e.children(), cs) if isz(o) and not same(o, n)]))
def coerce(c, s):
    if isz(c): return c
    if s == Real: return z3.RealVal(c)
    return val(c)
def itor(x):
    if isinstance(x, int): return Fraction(x)
    return keep(z3.ToReal(x))
def idiv(a, n):
    """floor division by positive constant n"""
    if isinstance(a, int): return a//n
    if n == 1: return a
    l = lin(a)
    # pull out the multiples of n
    q = Lin({k: (e, c//n) for k, (e, c) in l.t.items() if c % n == 0}, l.c//n)
    r = Lin({k: (e, c) for k, (e, c) in l.t.items() if c % n}, l.c % n)
    if r.const(): return q.to()
    return add(q.to(), keep(iz(r.to())/z3.IntVal(n)))
def imod(a, n):
    if isinstance(a, int): return a % n
    if n == 1: return 0
    l = lin(a)
    r = Lin({k: (e, c % n) for k, (e, c) in l.t.items() if c % n}, l.c % n)
    if r.const(): return r.c % n
    return keep(iz(r.to()) % z3.IntVal(n))

_consts = {}
def consts(e):
    """set of free constant names (0-ary and array constants, uninterpreted functions excluded)"""
    if not isz(e): return frozenset()
    r = _consts.get(e.get_id())
    if r is not None: return r
    seen = set(); out = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _consts.get(i)
        if c is not None:
            out |= c; continue
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_var(x): continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else:
            st.extend(x.children())
    r = frozenset(out)
    _consts[e.get_id()] = r; keep(e)
    return r
def has_quant(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        if z3.is_app(x): st.extend(x.children())
    return False
