"""Contracts used at call sites instead of the callee's body (each is proved for the real body by a harness)."""
import z3
from sym import *
from exe import Ptr
def record(ex, s):
    if not hasattr(ex, 'replaced_seen'): ex.replaced_seen = []
    ex.replaced_seen.append(s)
def field_array(ex, st, p, ty, sub=0, stride=None):
    """z3 array of the field at offset sub of the array object p points to (p must point to the first element)"""
    o = st.obj(p.o)
    if stride and o.segs and o.segs[0].stride is None:
        o = st.wobj(p.o); o.segs[0].stride = stride; o.segs[0].count = idiv(o.size.to() if isinstance(o.size, Lin) else o.size, stride)
    ex.load(st, Ptr(p.o, p.off + Lin({}, sub)), ty)
    o = st.obj(p.o)
    if not o.segs and isinstance(o.size, int):
        k = z3.Int('any!idx'); ex.make_seg(st, o, Lin({k.get_id(): (keep(k), stride or ex.mod.size(ty))}, 0), ty); o = st.obj(p.o)
    for s in o.segs:
        for c, (t, A) in s.fields.items():
            if s.start + c == sub and p.off.const() and p.off.c == 0: return A
    from ir import Unsupported
    raise Unsupported('contract: not the start of an array')
_nm = {}
def named(A):
    """a constant standing for an array term that contains binders (patterns cannot)"""
    from loops import has_quant_term
    if not has_quant_term(A): return A
    if A.get_id() not in _nm: keep(A); _nm[A.get_id()] = keep(z3.Const('arr!n%d' % len(_nm), A.sort()))
    return _nm[A.get_id()]
_LK = None
def LK():
    global _LK
    if _LK is None:
        AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
        _LK = z3.Function('LK', AI, AI, z3.IntSort(), z3.IntSort(), z3.IntSort())
    return _LK
def lookup_contract(ex, st, n, d, a):
    """HashTable::Lookup(this, buckets, empty, size, key): proved by H_lookup.
    L1 slot in range, empty or holding the key; L2/L3 stable when an empty slot x is filled (other slot, or with this key)"""
    record(ex, 'HashTable::Lookup (harness H_lookup)')
    this, b, e, size, key = a
    E = field_array(ex, st, e, ('i', 8), 0, 1); K = field_array(ex, st, b, ('i', 32), 0, 8)
    f = LK()
    def app(E, K, key): return f(named(E), named(K), named(iz(size)), key)
    r = keep(app(E, K, iz(key)))
    done = st.ghost.setdefault('$lk', frozenset())
    def l1(E, K, r, key): return z3.And(r >= 0, r < iz(size), z3.Or(z3.Select(E, r) != 0, z3.Select(K, r) == key))
    if not ex.pure:
        ex.obligation(st, lt(0, size), 'Lookup: table size positive', 'pre')
    from sym import sel
    # facts about this table: quantified over the key
    tab = (E.get_id(), K.get_id(), iz(size).get_id())
    if tab not in done:
        keep(E); keep(K); keep(iz(size))
        q = z3.Int('q!lk')
        rq = app(E, K, q)
        def l1q():
            return z3.Implies(iz(size) > 0, z3.And(rq >= 0, rq < iz(size), z3.Or(iz(sel(E, rq)) != 0, iz(sel(K, rq)) == q)))
        fs = [z3.ForAll([q], l1q(), patterns=[rq])]
        # peel stores at formerly empty slots
        def strip(A):
            if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE: return A.arg(0), A.arg(1), A.arg(2)
            return None
        se, sk = strip(E), strip(K)
        if se and z3.is_int_value(se[2]) and se[2].as_long() == 0:
            E0, x, _ = se
            K0 = K; kx = None
            if sk and sk[1].get_id() == x.get_id(): K0 = sk[0]; kx = sk[2]
            r0 = app(E0, K0, q)
            cond = [iz(sel(E0, x)) != 0]
            cond.append(z3.Or(r0 != x, (kx == q) if kx is not None else (iz(sel(K, x)) == q)))
            fs.append(z3.ForAll([q], z3.Implies(z3.And(*cond), rq == r0), patterns=[rq]))
            fs.append(z3.ForAll([q], z3.Implies(iz(size) > 0, z3.And(r0 >= 0, r0 < iz(size), z3.Or(iz(sel(E0, r0)) != 0, iz(sel(K0, r0)) == q))), patterns=[r0]))
            # ground instances
            k0 = iz(key); a0 = keep(app(E0, K0, k0))
            st.facts.append((keep(z3.substitute(fs[1].body() if False else z3.Implies(z3.And(*cond), rq == r0), (q, k0))), 'f'))
            st.facts.append((keep(z3.Implies(iz(size) > 0, z3.And(a0 >= 0, a0 < iz(size), z3.Or(iz(sel(E0, a0)) != 0, iz(sel(K0, a0)) == k0)))), 'f'))
        for x in fs: st.facts.append((keep(x), 'q'))
        st.ghost['$lk'] = done | {tab}
    k0 = iz(key)
    st.facts.append((keep(z3.Implies(iz(size) > 0, z3.And(r >= 0, r < iz(size), z3.Or(iz(sel(E, r)) != 0, iz(sel(K, r)) == k0)))), 'f'))
    return [(st, r)]
