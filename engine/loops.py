"""Loop cutting: induction variables, array closed forms, folds, candidate invariants."""
import z3
from fractions import Fraction
from sym import *
from ir import Unsupported
import sym

UNROLL = 72

class LoopMixin:
    def static_trip(self, st, fn, regs, H, prev):
        """number of iterations when some exit compares a counter with a constant bound"""
        L = fn.loops[H]
        phis = [I for I in fn.blocks[H].insts if I.op == 'phi']
        init = {}; step = {}
        latches = [b for b in fn.blocks[H].pred if b in L]
        defs = {}
        for b in L:
            for I in fn.blocks[b].insts:
                if I.res is not None: defs[I.res] = I
        def ev(ty, v):
            try:
                if v[0] == 'reg':
                    if v[1] in defs and v[1] not in init: return None
                    if v[1] in init: return ('phi', v[1], 0)
                    return regs.get(v[1])
                return self.val(st, regs, ty, v)
            except Unsupported: return None
        for I in phis:
            iv = None; sv = None; ok = True
            for v, b in I.a:
                if b == prev:
                    try: iv = self.val(st, regs, I.ty, v)
                    except Unsupported: ok = False
                elif b in latches:
                    s = None
                    if v[0] == 'reg' and v[1] in defs:
                        d = defs[v[1]]
                        if d.op in ('add','sub') and d.a[0] == ('reg', I.res) and d.a[1][0] == 'int':
                            s = d.a[1][1] if d.op == 'add' else -d.a[1][1]
                        elif d.op == 'getelementptr' and len(d.a) == 2 and d.a[0][1] == ('reg', I.res) and d.a[1][1][0] == 'int':
                            s = d.a[1][1][1]*self.mod.size(d.ty)
                    if s is None or (sv is not None and sv != s): ok = False
                    sv = s
            if ok and sv is not None and iv is not None:
                init[I.res] = iv; step[I.res] = sv
        from exe import Ptr
        for b in L:
            t = fn.blocks[b].insts[-1]
            if t.op != 'br' or len(t.a) != 3: continue
            if t.a[1] in L and t.a[2] in L: continue
            if t.a[0][0] != 'reg' or t.a[0][1] not in defs: continue
            c = defs[t.a[0][1]]
            if c.op != 'icmp': continue
            ops = []
            for v in c.a:
                if v[0] == 'reg' and v[1] in init: ops.append((v[1], 0))
                elif v[0] == 'reg' and v[1] in defs and defs[v[1]].op in ('add',) and defs[v[1]].a[0][0] == 'reg' and defs[v[1]].a[0][1] in init and defs[v[1]].a[1][0] == 'int':
                    ops.append((defs[v[1]].a[0][1], defs[v[1]].a[1][1]))
                else:
                    x = ev(c.ty, v)
                    ops.append(x)
            stay = t.a[1] in L
            def at(o, n):
                if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str):
                    x = init[o[0]]
                    d = o[1] + n*step[o[0]]
                    if isinstance(x, int): return x + d
                    if isinstance(x, Ptr) and x.o is not None and x.off.const(): return (x.o, x.off.c + d)
                    return None
                if isinstance(o, bool): return None
                if isinstance(o, int): return o
                if isinstance(o, Ptr) and o.off.const(): return (o.o, o.off.c)
                return None
            if not any(isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str) for o in ops): continue
            n = 0
            while n <= max(UNROLL, self.opts.get('unroll_max', 0)):
                x, y = at(ops[0], n), at(ops[1], n)
                if x is None or y is None or type(x) != type(y): break
                if isinstance(x, tuple):
                    if x[0] != y[0]: break
                    x, y = x[1], y[1]
                p = c.flags[0]
                r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                     'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]
                if r != stay: return n
                n += 1
        return None

    def loop(self, st, fn, regs, H, prev):
        n = self.static_trip(st, fn, regs, H, prev)
        if n is not None and n > self.opts.get('unroll_max', 10**9): return self.cut(st, fn, regs, H, prev)
        if n is not None:
            return self.unroll(st, fn, regs, H, prev, n)
        for rx, k in self.opts.get('unroll_re', ()):
            import re
            if re.search(rx, self.dm(fn.name)): return self.unroll(st, fn, regs, H, prev, k, True)
        if (fn.name, H) not in self.nounroll and 'unroll_max' not in self.opts:
            r = self.try_concrete(st, fn, regs, H, prev)
            if r is not None: return r
            self.nounroll.add((fn.name, H))
        return self.cut(st, fn, regs, H, prev)
    def header_regs(self, st, fn, regs, H, prev):
        r = dict(regs); new = {}
        for I in fn.blocks[H].insts:
            if I.op != 'phi': break
            for v, b in I.a:
                if b == prev: new[I.res] = self.val(st, regs, I.ty, v); break
            else: raise Unsupported('phi edge')
        r.update(new)
        return r
    def unroll(self, st, fn, regs, H, prev, n, checked=False):
        from exe import PathEnd
        res = []
        work = [(st, self.header_regs(st, fn, regs, H, prev), 0)]
        while work:
            st, regs, i = work.pop()
            if checked and i > n:
                try: self.obligation(st, False, 'the loop leaves after at most %d iterations' % n, 'assert')
                except PathEnd: pass
                continue
            if i > n + 2: raise Unsupported('unroll bound exceeded')
            for o in self.run(st, fn, regs, H, '$header', (H, fn.loops[H])):
                if o[0] == 'back': work.append((o[1], self.header_regs(o[1], fn, o[2], H, o[3]), i+1))
                else: res.append(o)
        return res
    def try_concrete(self, st, fn, regs, H, prev):
        """run the loop concretely as long as no branch forks (e.g. walks over constants)"""
        s = st.fork(); r = self.header_regs(s, fn, regs, H, prev)
        # only when every exit condition is decided without the solver
        obl = len(self.obls)
        self.concrete_only = getattr(self, 'concrete_only', 0)
        n = 0
        sv = list(self.obls), dict(self.stats)
        old_branch = self.branch
        class Fork(Exception): pass
        def br(st_, regs_, c, a, b, f_, blk):
            if isinstance(c, bool): return [(st_, regs_, a if c else b)]
            raise Fork()
        self.branch = br
        try:
            cur = (s, r)
            while n < 300:
                try: outs = self.run(cur[0], fn, cur[1], H, '$header', (H, fn.loops[H]))
                except Fork:
                    self.obls = sv[0]
                    return None
                if len(outs) != 1:
                    self.obls = sv[0]
                    return None
                o = outs[0]
                if o[0] != 'back': return outs
                cur = (o[1], self.header_regs(o[1], fn, o[2], H, o[3]))
                n += 1
            self.obls = sv[0]
            return None
        finally:
            del self.branch

    # ------------------------------------------------------------------
    def cut(self, st0, fn, regs0, H, prev):
        from exe import Ptr, PathEnd, NULL, PtrInt, FnPtr, Packed, symno
        self.stats['loops'] += 1
        self.loops_seen[(fn.name, H)] = self.loops_seen.get((fn.name, H), 0) + 1
        L = fn.loops[H]; ctx = (H, L)
        init = self.header_regs(st0, fn, regs0, H, prev)
        phis = [I for I in fn.blocks[H].insts if I.op == 'phi']
        base_ctr = st0.ctr
        tag = '%s:%s' % (self.dm(fn.name).split('(')[0][-40:], H)

        def cell_init(key):
            """initial (entry) value of a modified location"""
            if key[0] == 'cell':
                o = st0.obj(key[1]); c = o.cells.get(key[2])
                return c
            if key[0] == 'count':
                return (('i', 64), st0.obj(key[1]).segs[0].count)
            if key[0] == 'ghost':
                return (st0.ghost[key[1]][0], st0.ghost[key[1]][1])

        cache_key = (fn.name, H)
        hint = self.loop_cache.get(cache_key)
        mods = set(m for m in (hint[0] if hint else ()) if (m[0] == 'ghost' and m[1] in st0.ghost) or (m[0] != 'ghost' and m[1] in st0.objs and (m[0] != 'cell' or m[2] in st0.objs[m[1]].cells)
                    and (m[0] != 'seg' or any(s.start == m[2] and m[3] in s.fields for s in st0.objs[m[1]].segs))))

        def head(plan, inv=None):
            """header state: modified scalars/arrays according to plan"""
            st = st0.fork()
            k = st.fresh('k', Int)
            st.ks = st0.ks + (k,)
            st.facts.append((keep(z3.And(k >= 0, TRIG(k))), 'f'))
            r = dict(init); r['$allocas'] = init['$allocas']
            syms = {}
            def fresh_for(what, ty, iv):
                if ty[0] == 'ptr':
                    if isinstance(iv, Ptr) and iv.o is not None:
                        o = st.obj(iv.o)
                        t = plan.get(('ptrobj',) + what)
                        if t is not None and t != iv.o: raise Unsupported('pointer variable changes object in loop ' + tag)
                        sd = plan.get(('pstride',) + what, None)
                        if sd is None:
                            sd = o.segs[0].stride if o.segs and o.segs[0].stride else 1
                        x = st.fresh('p', Int)
                        syms[what] = x
                        g = iv.off.c % sd if iv.off.const() or True else 0
                        return Ptr(iv.o, lin(x).scale(sd) + Lin({}, g))
                    t = plan.get(('ptrobj',) + what)
                    if iv is not None and isinstance(iv, Ptr) and iv.o is None and t is not None:
                        o = st.obj(t)
                        if o.kind == 'family':
                            x = st.fresh('p', Int); syms[what] = x
                            return Ptr(t, lin(x).scale(o.segs[0].stride))
                    raise Unsupported('pointer variable in loop ' + tag)
                if ty[0] in ('struct','named','arr','vec'): raise Unsupported('aggregate loop variable')
                v = self.fresh_val(st, ty, 'h')
                syms[what] = v
                return v
            for I in phis:
                w = ('phi', I.res); iv = init[I.res]
                r[I.res] = self.plan_val(plan, w, I.ty, iv, k) if w in plan else fresh_for(w, I.ty, iv)
            arrs = {}
            for m in sorted(mods, key=str):
                if m[0] == 'cell':
                    c = cell_init(m)
                    if c is None:
                        o = st.wobj(m[1]); o.cells.pop(m[2], None); continue
                    ty, iv = c
                    v = self.plan_val(plan, m, ty, iv, k) if m in plan else fresh_for(m, ty, iv)
                    st.wobj(m[1]).cells[m[2]] = (ty, v)
                elif m[0] == 'seg':
                    o = st.wobj(m[1])
                    for s in o.segs:
                        if s.start == m[2]:
                            f = s.fields[m[3]]
                            if m in plan: A = plan[m](k)
                            else: A = st.fresh('A', f[1].sort())
                            arrs[m] = A
                            s.fields[m[3]] = (f[0], A)
                elif m[0] == 'count':
                    o = st.wobj(m[1]); iv = o.segs[0].count
                    v = self.plan_val(plan, m, ('i', 64), iv, k) if m in plan else fresh_for(m, ('i', 64), iv)
                    o.segs[0].count = v
                    st.facts.append((keep(iz(v) >= iz(iv)), 'f'))
                elif m[0] == 'alive':
                    raise Unsupported('deallocation of an outer object inside a loop')
                elif m[0] == 'ghost':
                    ty, iv = st0.ghost[m[1]]
                    if m in plan: v = self.plan_val(plan, m, ty, iv, k) if ty[0] != 'array' else plan[m](k)
                    elif ty[0] == 'array':
                        v = st.fresh('G', ty[1])
                    else: v = fresh_for(m, ty, iv)
                    arrs[m] = v
                    st.ghost[m[1]] = (ty, v)
            for f in plan.get('facts', []):
                x = f(k)
                if x is not None: self.assume(st, x, 'f')
            pos = len(st.facts)
            if inv:
                for (nm, fun) in inv:
                    e = fun(st, r, k, init, st0)
                    if e is not None: self.assume(st, e, 'f')
                pos = len(st.facts)
            return st, r, k, syms, arrs, pos

        def body(st, r, quiet=True):
            if quiet: self.quiet += 1
            wl = set(); self.wlogs.append(wl)
            try:
                outs = self.run(st, fn, r, H, '$header', ctx)
            finally:
                self.wlogs.pop()
                if quiet: self.quiet -= 1
            return outs, wl
        def outer_keys(wl):
            res = set()
            for key in wl:
                if key[0] == 'ghost': 
                    res.add(key); continue
                if key[1] not in st0.objs: continue
                o = st0.objs[key[1]]
                if key[0] == 'seg':
                    s = [s for s in o.segs if s.start == key[2]]
                    if not s or key[3] not in s[0].fields:
                        res.add(('needseg',) + key[1:])
                        continue
                if key[0] == 'cell' and key[2] not in o.cells:
                    if any(s.start <= key[2] and (not isinstance(s.count, int) or s.stride is None or key[2] < s.start + s.stride*s.count) for s in o.segs):
                        continue
                    # scratch location: written before being read in this loop, or uninitialised outside
                    res.add(key); continue
                res.add(key)
            return res
        # --- stage 1: fixpoint of the modified set (and of pointer targets)
        plan = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported('modified set does not stabilise in ' + tag)
            st, r, k, syms, arrs, pos = head(plan)
            outs, wl = body(st, r)
            # materialise array segments created inside the body on outer objects
            changed = False
            for key in outer_keys(wl):
                if key[0] == 'needseg':
                    if self.materialise(st0, outs, key): changed = True
                    continue
                if key not in mods:
                    mods.add(key); changed = True
            # pointer phis / cells
            back = [o for o in outs if o[0] == 'back']
            for w, ty, iv, news in self.scalars(st0, fn, phis, mods, init, back, H):
                if ty[0] == 'ptr':
                    for nv in news:
                        if isinstance(nv, Ptr) and nv.o is not None:
                            t = plan.get(('ptrobj',) + w)
                            if t is None and (iv is None or iv.o is None):
                                if nv.o in st0.objs:
                                    plan[('ptrobj',) + w] = nv.o; changed = True
                                    if iv is None: pass
                            if iv is not None and iv.o is not None and nv.o == iv.o:
                                import math
                                g = nv.off.gcd()
                                sd = plan.get(('pstride',) + w)
                                d = nv.off - iv.off
                                if iv.off.const() and nv.off.t:
                                    pass
            if self.dbg: print('  loop', tag, 'round', rounds, 'mods', len(mods), 'back', len(back), 'outs', len(outs))
            if not changed: break
        base_plan = dict(plan)
        black = set()
        for restart in range(6):
            plan = dict(base_plan)
            # --- stage 2: inductions (wrapping steps are optimistic and verified below)
            for attempt in range(4):
                st, r, k, syms, arrs, pos = head(plan)
                curs = {m: (st.obj(m[1]).cells[m[2]][1] if m[2] in st.obj(m[1]).cells else None) if m[0] == 'cell' else st.obj(m[1]).segs[0].count if m[0] == 'count' else st.ghost[m[1]][1] for m in mods if m[0] in ('cell', 'ghost', 'count')}
                outs, wl = body(st, r)
                back = [o for o in outs if o[0] == 'back']
                found = False
                for w, ty, iv, news in self.scalars(st0, fn, phis, mods, init, back, H):
                    if w in plan or w in black: continue
                    if not news and not back and iv is not None and ty[0] in ('ptr', 'i'):
                        plan[w] = ('ind', 0); found = True; continue     # no iteration is completed
                    if not news: continue
                    if w[0] == 'phi': cur = r[w[1]]
                    else: cur = curs.get(w)
                    if cur is None or iv is None: continue
                    d = None
                    for nv in news:
                        d1 = self.delta(ty, cur, nv)
                        if w[0] == 'count' and isz(nv) and isz(d1):
                            # the number of elements follows the end pointer: a function of the iteration alone
                            at = lambda x: z3.simplify(z3.substitute(nv, (k, x)))
                            if z3.simplify(at(z3.IntVal(-1)) - iz(iv)).eq(z3.IntVal(0)): d1 = (lin(nv) - lin(at(k - 1))).to()
                            else: d1 = None
                        if d1 is None or (d is not None and not same(d, d1)): d = False; break
                        d = d1
                    if d is False or d is None: continue
                    if isz(d) and any(symno(c) > base_ctr for c in consts(d)): continue
                    plan[w] = ('ind', d); found = True
                if not found: break
            # --- stage 3: folds, array closed forms
            for attempt in range(4):
                st, r, k, syms, arrs, pos = head(plan)
                outs, wl = body(st, r)
                back = [o for o in outs if o[0] == 'back']
                kn = k.decl().name()
                conds = []
                # branch conditions shared by every way round the loop hold in each completed iteration
                bcs = [[f for f, kk in o[1].facts[pos:] if kk == 'b' and isz(f)] for o in back]
                common = set.intersection(*[set(f.get_id() for f in cs) for cs in bcs]) if len(back) > 1 else set()
                for cs in bcs:
                    closed = [c for c in cs if all(symno(x) <= base_ctr or x == kn for x in consts(c))]
                    conds.append((band(*closed), len(closed) == len(cs), band(*[c for c in cs if c.get_id() not in common])))
                found = False
                if back:
                    for m in sorted(mods, key=str):
                        if m[0] != 'seg' or m in plan or m in black: continue
                        cf = self.array_closed(st0, st, m, arrs[m], back, conds, k, base_ctr, plan)
                        if cf is not None:
                            plan[m] = cf; found = True
                            if self.dbg: print('   array closed form for', m)
                    if not found:
                        sc = self.scalars(st0, fn, phis, mods, init, back, H)
                        if self.find_folds(st0, st, r, [x for x in sc if x[0] not in black], back, conds, k, base_ctr, plan, syms, tag): found = True
                if not found: break
            # --- continue conditions (each completed iteration m satisfied them)
            st, r, k, syms, arrs, pos = head(plan)
            outs, wl = body(st, r)
            back = [o for o in outs if o[0] == 'back']
            kn = k.decl().name()
            if back:
                allc = []
                for o in back:
                    cs = [f for f, kk in o[1].facts[pos:] if kk == 'b' and isz(f)]
                    closed = [c for c in cs if all(symno(x) <= base_ctr or x == kn for x in consts(c))]
                    allc.append(band(*closed))
                cond = bor(*allc)
                if not isinstance(cond, bool):
                    self.add_cond_facts(plan, cond, k, kn)
            # --- verify closed forms by induction
            st, r, k, syms, arrs, pos = head(plan)
            outs, wl = body(st, r)
            back = [o for o in outs if o[0] == 'back']
            if self.dbg: print('  verify', tag, plan.keys(), mods, {m: str(v) for m, v in arrs.items()})
            bad = set()
            for w, ty, iv, news in self.scalars(st0, fn, phis, mods, init, back, H):
                if w not in plan or plan[w][0] != 'ind': continue
                want = self.plan_val(plan, w, ty, iv, add(k, 1))
                for o, nv in zip(back, news):
                    if ty[0] == 'ptr': g = nv.o == want.o and eq(nv.off.to(), want.off.to())
                    elif ty == ('i', 1): g = self.veq(bz(nv), bz(want))
                    else: g = self.veq(nv, want)
                    if not self.fprove(o[1], g): bad.add(w); break
            for m in [m for m in plan if m[0] == 'seg' and not isinstance(m, str)]:
                for o in back:
                    s = [s for s in o[1].obj(m[1]).segs if s.start == m[2]][0]
                    A2 = s.fields[m[3]][1]
                    j = o[1].fresh('j', Int)
                    g = self.veq(sel(A2, j), sel(plan[m](add(k, 1)), j))
                    if not self.fprove(o[1], g):
                        bad.add(m); break
            if not bad: break
            if self.dbg: print('   dropped closed forms', bad, [(w, str(nv)[:300]) for w, ty, iv, news in self.scalars(st0, fn, phis, mods, init, back, H) if w in bad for nv in news])
            black |= bad
        else: raise Unsupported('loop summary does not stabilise in ' + tag)
        # --- stage 4: candidate invariants (Houdini)
        cands = self.candidates(st0, fn, H, phis, mods, plan, init, tag)
        if cands:
            cands = self.houdini(cands, st0, init, head, body, fn, H, plan, tag)
        # --- final run
        st, r, k, syms, arrs, pos = head(plan, cands)
        if self.dbg: print('  final', tag, 'cands', [c[0] for c in cands], 'plan', [p for p in plan if isinstance(p, tuple)])
        outs, wl = body(st, r, quiet=False)
        back = [o for o in outs if o[0] == 'back']
        for w, ty, iv, news in self.scalars(st0, fn, phis, mods, init, back, H):
            if ty[0] == 'ptr' and w not in plan and w[0] == 'phi' and isinstance(iv, Ptr) and iv.o is not None:
                ob = st0.obj(iv.o); sd = ob.segs[0].stride if ob.segs and ob.segs[0].stride else 1
                for nv in news:
                    if not isinstance(nv, Ptr) or nv.o != iv.o: raise Unsupported('pointer variable changes object in loop ' + tag)
                    d = nv.off - Lin({}, iv.off.c % sd)
                    if d.c % sd or (d.t and d.gcd() % sd): raise Unsupported('pointer variable of unknown alignment in loop ' + tag)
                d = iv.off - Lin({}, iv.off.c % sd)
                if d.t and d.gcd() % sd: raise Unsupported('pointer variable of unknown alignment in loop ' + tag)
        res = []
        for o in outs:
            if o[0] == 'back':
                continue
            o[1].ks = st0.ks
            o2 = self.exit_count(o, k, plan)
            res.append(o2)
        return res

    def add_cond_facts(self, plan, cond, k, kn):
        def at(kk, cond=cond, k=k): return clean(z3.substitute(cond, (k, iz(kk))))
        fs = [lambda kk: bor(lt(kk, 1), at(sub(kk, 1)))]
        if kn in consts(cond):
            def allm(kk, at=at):
                m = z3.Int('m?')
                return mk_forall(m, band(le(0, m), lt(m, kk)), bz(at(m)))
            if has_sel(cond): fs.append(allm)
            for c in (list(cond.children()) if z3.is_and(cond) else [cond]):
                s = self.solve_ne(c, k)
                if s is not None:
                    fs.append(lambda kk, s=s: bnot(band(le(0, s), lt(s, kk))))
        plan['facts'] = plan.get('facts', []) + fs
    def exit_count(self, o, k, plan):
        """replace the iteration counter by its closed form when the exit condition determines it"""
        if o[0] not in ('exit', 'ret'): return o
        st = o[1]
        for f, kk in reversed(st.facts[-12:]):
            if kk == 'q' or not isz(f): continue
            if not (consts(f) & {k.decl().name()}): continue
            s = None
            for e in self.solve_bound(f, k):
                if self.qprove(st, k == iz(e), 300): s = e; break
            if s is not None:
                if isz(s) and k.decl().name() in consts(s): continue
                return self.subst_outcome(o, k, s)
        return o
    def subst_outcome(self, o, k, s):
        from exe import Ptr, PtrInt, Packed
        z = iz(s); kn = k.decl().name()
        def sub(v):
            if isz(v): return clean(z3.substitute(v, (k, z))) if kn in consts(v) else v
            if isinstance(v, Ptr):
                if v.off.const() or not any(kn in consts(e) for e, c in v.off.t.values()): return v
                return Ptr(v.o, lin(sub(iz(v.off.to()))))
            if isinstance(v, tuple): return tuple(sub(x) for x in v)
            if isinstance(v, PtrInt): return PtrInt(sub(v.p))
            return v
        st = o[1]
        st.facts = [(f if not (isz(f) and kn in consts(f)) else bz(sub(f)), kk) for f, kk in st.facts]
        for i in list(st.objs):
            ob = st.objs[i]
            nd = any(isz(v) and kn in consts(v) or isinstance(v, (Ptr, tuple, PtrInt)) for t, v in ob.cells.values()) or \
                any((isz(s_.count) and kn in consts(s_.count)) or any(kn in consts(f[1]) for f in s_.fields.values()) for s_ in ob.segs)
            if nd:
                ob = st.wobj(i)
                for c in ob.cells: t, v = ob.cells[c]; ob.cells[c] = (t, sub(v))
                for s_ in ob.segs:
                    s_.count = sub(s_.count)
                    for c in s_.fields:
                        t, A = s_.fields[c]
                        if kn in consts(A): s_.fields[c] = (t, keep(z3.substitute(A, (k, z))))
        for g in list(st.ghost):
            if str(g).startswith("$"): continue
            ty, v = st.ghost[g]
            if isz(v) and kn in consts(v):
                st.ghost[g] = (ty, keep(z3.substitute(v, (k, z))) if ty[0] == 'array' else sub(v))
        if o[0] == 'ret': return (o[0], st, sub(o[2]), o[3])
        return (o[0], st, {a: (sub(v) if a != '$allocas' else v) for a, v in o[2].items()}, o[3], o[4])
    def solve_bound(self, f, k):
        """candidate closed forms of k from an exit fact like a <= b / a == b"""
        res = []
        if z3.is_not(f): f = f.arg(0)
        if z3.is_app(f) and f.num_args() == 2 and f.arg(0).sort() == Int:
            d = lin(f.arg(0)) - lin(f.arg(1))
            t = d.t.get(k.get_id())
            if t and abs(t[1]) == 1:
                rest = Lin({i: v for i, v in d.t.items() if i != k.get_id()}, d.c)
                e = rest.scale(-t[1])
                res += [e.to(), add(e.to(), 1), add(e.to(), -1)]
            elif t:
                rest = Lin({i: v for i, v in d.t.items() if i != k.get_id()}, d.c)
                n = t[1]
                e = rest.scale(-1 if n > 0 else 1)
                if all(c % abs(n) == 0 for _, c in e.t.values()):
                    q = Lin({i: (x, c//abs(n)) for i, (x, c) in e.t.items()}, e.c//abs(n)).to()
                    res += [q, add(q, 1)]
        return res
    def solve_ne(self, c, k):
        if z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort() == Int:
            e = c.arg(0)
            d = lin(e.arg(0)) - lin(e.arg(1))
            t = d.t.get(k.get_id())
            if t and abs(t[1]) == 1:
                rest = Lin({i: v for i, v in d.t.items() if i != k.get_id()}, d.c)
                return rest.scale(-t[1]).to()
        return None
    def veq(self, a, b):
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (isz(a) and a.sort() == Real): return rcmp('eq', a, b)
        if isz(a) and isz(b) and a.sort() == Bool: return True if a.eq(b) else keep(a == b)
        return eq(a, b)
    def materialise(self, st0, outs, key):
        """an outer object got an array segment inside the loop body: create it outside"""
        _, oid, start, c = key
        for o in outs:
            ob = o[1].objs.get(oid)
            if ob is None: continue
            for s in ob.segs:
                if s.start == start and c in s.fields:
                    w = st0.wobj(oid)
                    for s0 in w.segs:
                        if s0.start == start:
                            if s0.stride is None: s0.stride = s.stride; s0.count = s.count if not isz(s.count) else s.count
                            if c not in s0.fields:
                                s0.fields[c] = self.new_field(st0, w, s0, c, s.fields[c][0])
                                w.fam = dict(ob.fam)
                            return True
                    self.make_seg_at(st0, oid, s, c)
                    return True
        return False
    def make_seg_at(self, st0, oid, s, c):
        from exe import Seg
        w = st0.wobj(oid)
        seg = Seg(s.start, s.stride, s.count)
        end = s.start + s.stride*s.count
        for off in sorted(w.cells):
            if s.start <= off < end:
                t, v = w.cells[off]
                cc = (off - s.start) % s.stride
                f = seg.fields.get(cc) or self.new_field(st0, w, seg, cc, t)
                seg.fields[cc] = (f[0], store(f[1], (off-s.start)//s.stride, self.enc(st0, w, seg, cc, f[0], v)))
                del w.cells[off]
        if c not in seg.fields: seg.fields[c] = self.new_field(st0, w, seg, c, s.fields[c][0])
        w.segs.append(seg)

    def plan_val(self, plan, w, ty, iv, k):
        from exe import Ptr
        p = plan[w]
        if p[0] == 'ind':
            d = p[1]
            if ty[0] == 'ptr': return Ptr(iv.o, iv.off + lin(mul(d, k)))
            if ty[0] == 'i': return add(iv, mul(d, k))
            return radd(iv, rmul(d, itor(k)))
        if p[0] == 'fold': return p[1](k)
        raise Unsupported('plan')
    def delta(self, ty, cur, nv):
        from exe import Ptr
        if ty[0] == 'ptr':
            if not isinstance(nv, Ptr) or nv.o != cur.o or nv.o is None: return None
            return (nv.off - cur.off).to()
        if ty[0] == 'i' and ty[1] > 1:
            if not isinstance(nv, (int, z3.ArithRef)) or isinstance(nv, bool): return None
            if isz(nv) and nv.get_id() in self.wrapped: nv = self.wrapped[nv.get_id()]
            if isinstance(cur, (int, z3.ArithRef)): return (lin(nv) - lin(cur)).to()
        if ty[0] in ('float', 'double') and isz(cur) and isz(nv) and cur.eq(nv): return Fraction(0)
        return None
    def scalars(self, st0, fn, phis, mods, init, back, H):
        """[(key, type, initial value, [new values at the back edges])]"""
        res = []
        for I in phis:
            news = []
            for o in back:
                for v, b in I.a:
                    if b == o[3]: news.append(self.val(o[1], o[2], I.ty, v)); break
            res.append((('phi', I.res), I.ty, init[I.res], news))
        for m in sorted(mods, key=str):
            if m[0] == 'cell':
                c = st0.obj(m[1]).cells.get(m[2])
                if c is None: continue
                news = []
                for o in back:
                    c2 = o[1].obj(m[1]).cells.get(m[2])
                    if c2 is None: raise Unsupported('cell vanished in loop')
                    news.append(c2[1])
                res.append((m, c[0], c[1], news))
            elif m[0] == 'ghost' and st0.ghost[m[1]][0][0] != 'array':
                res.append((m, st0.ghost[m[1]][0], st0.ghost[m[1]][1], [o[1].ghost[m[1]][1] for o in back]))
            elif m[0] == 'count':
                res.append((m, ('i', 64), st0.obj(m[1]).segs[0].count, [o[1].obj(m[1]).segs[0].count for o in back]))
        return res

    # ---------------------------------------------------------- array closed forms
    def array_closed(self, st0, st, m, Ah, back, conds, k, base_ctr, plan):
        from exe import symno
        ft = [s for s in st0.obj(m[1]).segs if s.start == m[2]][0].fields[m[3]]
        A0 = ft[1]
        kn = k.decl().name(); an = Ah.decl().name()
        ups = []   # (cond, idx, value)
        for o, (cc, closed, full) in zip(back, conds):
            s = [s for s in o[1].obj(m[1]).segs if s.start == m[2]][0]
            A = s.fields[m[3]][1]
            chain = []
            while z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
                chain.append((conc(A.arg(1)), conc(A.arg(2)))); A = A.arg(0)
            if not A.eq(Ah):
                return self.array_closed2(st0, st, m, Ah, back, conds, k, base_ctr, plan, A0)
            ups.append((full, closed, chain[::-1]))
        okc = lambda e: not isz(e) or all(symno(x) <= base_ctr or x in (kn, an) for x in consts(e))
        if self.dbg: print('   array_closed', m, k, base_ctr, [(str(i)[:200], str(v)[:300]) for u in ups for i, v in u[2]])
        idx = None
        items = []
        for full, closed, chain in ups:
            for i, v in chain:
                if not okc(i) or not okc(v): return None
                l = lin(i); t = l.t.get(k.get_id())
                if isz(i) and an in consts(i): return None
                if t is None and isz(i) and kn in consts(i): return None
                if idx is None: idx = l
                elif not idx.eq(l):
                    return None
            if len(ups) > 1 and not okc(full): return None
        if idx is None: return None
        if self.dbg: print("   store at", idx, k, ups)
        if k.get_id() not in idx.t: return self.array_accum(Ah, A0, idx, ups, k, plan)
        d = idx.t[k.get_id()][1]
        a = Lin({i: v for i, v in idx.t.items() if i != k.get_id()}, idx.c)
        if any(kn in consts(e) for e, c in a.t.values()): return None
        # value written at iteration k
        newv = None
        cur = sel(Ah, idx.to())
        for full, closed, chain in reversed(ups):
            v = chain[-1][1] if chain else cur
            newv = v if newv is None else ite(full, v, newv)
        vz = val(newv) if not isinstance(newv, bool) else z3.BoolVal(newv)
        if an in consts(vz): vz = z3.substitute(vz, (Ah, A0))
        keep(vz)
        at = a.to()
        def closed_form(kk):
            j = z3.Int('j?')
            rel = sub(j, at)
            if abs(d) == 1:
                mm = rel if d == 1 else sub(0, rel)
                c = band(le(0, mm), lt(mm, kk))
            else:
                if d < 0: rel = sub(0, rel)
                mm = idiv(rel, abs(d))
                c = band(le(0, rel), lt(mm, kk), eq(imod(rel, abs(d)), 0))
            v = clean(z3.substitute(vz, (k, iz(mm))))
            b = ite(c, v, sel(A0, j))
            return keep(z3.Lambda([j], val(b)))
        return closed_form
    def array_accum(self, Ah, A0, idx, ups, k, plan):
        """one element at a fixed index accumulates over the iterations: a fold"""
        at = idx.to(); s = z3.Const('acc$%d' % k.get_id(), Ah.sort().range())
        def repl(e):
            if e.eq(Ah): raise KeyError
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).eq(Ah):
                x = conc(e.arg(1)); l = lin(x)
                if l.eq(idx): return s
                d = l - idx
                if d.const() and d.c != 0: return sel(A0, x)
                raise KeyError
            if not (consts(e) & {Ah.decl().name()}): return e
            if z3.is_quantifier(e) or e.num_args() == 0: raise KeyError
            subs = [(c, repl(c)) for c in e.children()]
            return z3.substitute(e, *[(c, iz(n) if not isz(n) else n) for c, n in subs if not (isz(n) and n.eq(c))])
        cur = sel(Ah, at); newv = None
        for full, closed, chain in reversed(ups):
            v = chain[-1][1] if chain else cur
            newv = v if newv is None else ite(full, v, newv)
        vz = val(newv)
        if s.sort() == Real and vz.sort() == Int: vz = z3.ToReal(vz)
        try: g = keep(repl(vz))
        except KeyError: return None
        init = val(sel(A0, at))
        w = ('acc',)
        F = self.fold_fn(w, [w], {w: g}, {w: s}, k, {w: init})
        def unfold(kk):
            return self.veq2(F(add(kk, 1)), clean(z3.substitute(g, (k, iz(kk)), (s, val(F(kk))))))
        plan['facts'] = plan.get('facts', []) + [unfold, lambda kk: self.veq2(F(z3.IntVal(0)), init), lambda kk: None if not isz(kk) else bor(lt(kk, 1), unfold(sub(kk, 1))),
            lambda kk: None if not isz(kk) else bor(bnot(eq(kk, 0)), self.veq2(F(kk), init))]
        return lambda kk: A0 if isinstance(kk, int) and kk == 0 else keep(store(A0, at, val(F(kk))))
    def array_closed2(self, st0, st, m, Ah, back, conds, k, base_ctr, plan, A0):
        return None

    # ---------------------------------------------------------- folds
    def find_folds(self, st0, st, r, sc, back, conds, k, base_ctr, plan, syms, tag):
        from exe import symno
        kn = k.decl().name()
        cand = {}
        for w, ty, iv, news in sc:
            if w in plan or ty[0] == 'ptr' or w not in syms: continue
            if isinstance(iv, tuple) or any(isinstance(n, tuple) or n is None for n in news): continue
            if not isz(syms[w]): continue
            try: [val(n) for n in news]
            except Exception: continue
            if any(not (isz(n) or isinstance(n, (int, bool, Fraction))) for n in news): continue
            cand[w] = (ty, iv, news)
        ch = True
        while ch and cand:
            ch = False
            names = {syms[w].decl().name(): w for w in cand}
            for w in list(cand):
                ty, iv, news = cand[w]
                bad = False
                es = list(news)
                if len(back) > 1: es += [c[2] for c in conds]
                for e in es:
                    if isz(e) and any(not (symno(x) <= base_ctr or x == kn or x in names) for x in consts(e)):
                        bad = True
                if bad:
                    del cand[w]; ch = True; break
        if not cand: return False
        # dependency groups: build g for each, functions take all scalars they depend on
        order = sorted(cand, key=str)
        g = {}
        for w in order:
            ty, iv, news = cand[w]
            e = None
            for nv, c in zip(reversed(news), reversed(conds)):
                e = nv if e is None else ite(c[2], nv, e)
            if ty == ('i', 1) or syms[w].sort() == Bool: e = bz(e)
            elif syms[w].sort() == Real: e = rz(e)
            else: e = iz(e)
            g[w] = e
        symset = {syms[w].decl().name(): w for w in order}
        def deps(w):
            seen = {w}; stx = [w]
            while stx:
                x = stx.pop()
                for c in consts(g[x]):
                    if c in symset and symset[c] not in seen:
                        seen.add(symset[c]); stx.append(symset[c])
            return sorted(seen, key=str)
        for w in order:
            grp = deps(w)
            f = self.fold_fn(w, grp, g, {x: syms[x] for x in grp}, k, {x: cand[x][1] for x in grp})
            plan[w] = ('fold', f)
            plan.setdefault('facts', [])
            def unfold(kk, w=w, grp=grp, g=g, f=f, k=k):
                subs = [(k, iz(kk))] + [(syms[x], val(plan[x][1](kk))) for x in grp]
                rhs = clean(z3.substitute(g[w], *subs))
                return self.veq2(f(add(kk, 1)), rhs)
            plan['facts'] = plan['facts'] + [unfold]
            iv = cand[w][1]
            if w[0] == 'phi': plan['facts'] = plan['facts'] + [lambda kk, f=f, iv=iv: self.veq2(f(z3.IntVal(0)), iv)]
            plan['facts'] = plan['facts'] + [lambda kk, unfold=unfold: None if not isz(kk) else bor(lt(kk, 1), unfold(sub(kk, 1)))]
        return True
    def veq2(self, a, b):
        a = val(a); b = val(b)
        if a.sort() == Real and b.sort() == Int: b = z3.ToReal(b)
        return True if a.eq(b) else keep(a == b)
    def fold_fn(self, w, grp, g, syms, k, inits):
        """uninterpreted function for the fold, keyed by its alpha-normalised body"""
        # abstract loop-invariant maximal subterms into parameters
        params = []
        pidx = {}
        hot = {syms[x].decl().name() for x in grp} | {k.decl().name()}
        ph = {x: z3.Const('S$%d' % i, syms[x].sort()) for i, x in enumerate(grp)}
        K = z3.Int('K$')
        def walk(e):
            if not (consts(e) & hot):
                if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e): return e
                if has_var(e): return e
                i = pidx.get(e.get_id())
                if i is None:
                    i = pidx[e.get_id()] = len(params); params.append(e)
                return z3.Const('P$%d' % i, e.sort())
            if z3.is_quantifier(e): 
                return e
            if e.num_args() == 0:
                for x in grp:
                    if e.eq(syms[x]): return ph[x]
                if e.eq(k): return K
                return e
            ch = e.children()
            if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and len(ch) > 1:
                # canonical order of operands, independent of the numbering of terms
                ch = sorted(ch, key=lambda c: z3.substitute(c, *norm).sexpr())
                cs = [walk(c) for c in ch]
                r = cs[0]
                for c in cs[1:]: r = e.decl()(r, c) if e.decl().arity() == 2 else (r + c if e.decl().kind() == z3.Z3_OP_ADD else r * c)
                return keep(r)
            cs = [walk(c) for c in ch]
            return e.decl()(*cs) if e.decl().arity() == len(cs) else z3.substitute(e, *[(o, n) for o, n in zip(e.children(), cs) if not o.eq(n)])
        norm = [(k, K)] + [(syms[x], ph[x]) for x in grp]
        # parameters are numbered in order of appearance in the normal form
        bodies = [walk(g[x]) for x in grp]
        key = (grp.index(w), tuple(b.sexpr() for b in bodies))
        fid = self.folds.get(key)
        if fid is None:
            fid = self.folds[key] = len(self.folds)
            if __import__('os').environ.get('VF_DEBUG'): print('   FOLD', fid, key, params)
        args = params + [val(inits[x]) if syms[x].sort() != Real else rz(inits[x]) for x in grp]
        F = z3.Function('fold%d_%d' % (fid, len(args)), *[a.sort() for a in args], Int, syms[w].sort())
        self.fold_defs[F.name()] = (w, grp, g, syms, k, inits)
        return lambda kk: (inits[w] if isinstance(kk, int) and kk == 0 else keep(F(*args, iz(kk))))

    # ---------------------------------------------------------- Houdini
    def candidates(self, st0, fn, H, phis, mods, plan, init, tag):
        from exe import PathEnd
        res = []
        # a loop whose every variable and array has a closed form needs no stated invariant
        full = all(('phi', I.res) in plan and plan[('phi', I.res)][0] == 'ind' for I in phis) and all(m in plan and (m[0] != 'cell' or plan[m][0] != 'fold') for m in mods)
        for idx, (kind, nm, fun, args) in enumerate(self.invs):
            if full: break
            if kind == 'k':
                def f(st, r, k, init, s0, fun=fun, args=args):
                    e, extra = self.eval_pure(st, fun, args + [k])
                    return band(*(extra + [e])) if False else e
                res.append((nm, f))
            elif kind in 'ot':
                n = 1 if kind == 'o' else 2
                def f(st, r, k, init, s0, fun=fun, args=args, n=n):
                    if len(s0.ks) < n: return None
                    e, extra = self.eval_pure(st, fun, args + [k] + list(s0.ks[::-1][:n]))
                    return e
                res.append((nm, f))
            elif kind in 'qjr':
                ps = [I for I in phis if I.ty[0] == 'ptr']; ns = [I for I in phis if I.ty[0] == 'i' and I.ty[1] in (32, 64)]
                for I in (ns if kind == 'j' else ps):
                    for J in (ps if kind == 'r' else ns):
                        if I is J or (('phi', I.res) in plan and ('phi', J.res) in plan): continue
                        def f(st, r, k, init, s0, fun=fun, args=args, a=I.res, b=J.res):
                            e, extra = self.eval_pure(st, fun, args + [k, r[a], r[b]])
                            return e
                        res.append(('%s@%s,%s' % (nm, I.res, J.res), f))
            else:
                # for every non-inductive scalar of the type
                for I in phis:
                    if ('phi', I.res) in plan and plan[('phi', I.res)][0] != 'fold': continue
                    if (kind == 'i' and I.ty[0] == 'i' and I.ty[1] in (32, 64)) or (kind == 'f' and I.ty[0] in ('float', 'double')):
                        def f(st, r, k, init, s0, fun=fun, args=args, nm=I.res):
                            e, extra = self.eval_pure(st, fun, args + [k, r[nm]])
                            return e
                        res.append((nm + '@' + I.res, f))
                    if kind == 'p' and I.ty[0] == 'ptr':
                        def f(st, r, k, init, s0, fun=fun, args=args, nm=I.res):
                            e, extra = self.eval_pure(st, fun, args + [k, r[nm]])
                            return e
                        res.append((nm + '@' + I.res, f))
                for m in mods:
                    if m[0] != 'cell' or m in plan: continue
                    c = st0.obj(m[1]).cells.get(m[2])
                    if c is None: continue
                    ty = c[0]
                    if (kind == 'i' and ty[0] == 'i' and ty[1] in (32, 64)) or (kind == 'f' and ty[0] in ('float', 'double')):
                        def f(st, r, k, init, s0, fun=fun, args=args, m=m):
                            e, extra = self.eval_pure(st, fun, args + [k, st.obj(m[1]).cells[m[2]][1]])
                            return e
                        res.append((nm + '@' + str(m), f))
        # automatic: integer scalars keep a simple relation to their initial value
        for I in phis:
            if ('phi', I.res) in plan: continue
            if I.ty[0] == 'i' and I.ty[1] > 1 and isinstance(init[I.res], (int, z3.ArithRef)):
                iv = init[I.res]
                res.append(('auto:ge-init@' + I.res, lambda st, r, k, init, s0, n=I.res, iv=iv: le(iv, r[n])))
                res.append(('auto:le-init@' + I.res, lambda st, r, k, init, s0, n=I.res, iv=iv: le(r[n], iv)))
                res.append(('auto:le-k@' + I.res, lambda st, r, k, init, s0, n=I.res, iv=iv: le(r[n], add(iv, k))))
        for m in sorted(mods, key=str):
            if m[0] == 'cell' and m not in plan:
                c = st0.obj(m[1]).cells.get(m[2])
                if c and c[0][0] == 'i' and c[0][1] > 1 and isinstance(c[1], (int, z3.ArithRef)) and not isinstance(c[1], bool):
                    iv = c[1]
                    g = lambda st, m=m: st.obj(m[1]).cells[m[2]][1]
                    res.append(('auto:ge-init@%s' % (m,), lambda st, r, k, init, s0, g=g, iv=iv: le(iv, g(st))))
                    res.append(('auto:le-k@%s' % (m,), lambda st, r, k, init, s0, g=g, iv=iv: le(g(st), add(iv, k))))
                    res.append(('auto:same@%s' % (m,), lambda st, r, k, init, s0, g=g, iv=iv: eq(g(st), iv)))
                if c and c[0][0] == 'ptr' and getattr(c[1], 'o', None) is not None:
                    iv = c[1]
                    g = lambda st, m=m: st.obj(m[1]).cells[m[2]][1]
                    res.append(('auto:pge@%s' % (m,), lambda st, r, k, init, s0, g=g, iv=iv: le(iv.off.to(), g(st).off.to())))
        return res
    def houdini(self, cands, st0, init, head, body, fn, H, plan, tag):
        from exe import PathEnd
        # base
        keepers = []
        for nm, f in cands:
            try:
                s = st0.fork()
                e = f(s, init, 0, init, st0)
                if e is None or not self.fprove(s, e, 3000):
                    if self.dbg and not nm.startswith('auto'): print('   base fails', nm, tag, str(e)[:1500], [str(f)[:200] for f,_ in s.facts] if self.dbg>1 else '')
                    continue
                keepers.append((nm, f))
            except (Unsupported, PathEnd) as ex:
                if self.dbg: print('   base n/a', nm, ex)
                continue
        cands = keepers
        while cands:
            st, r, k, syms, arrs, pos = head(plan, cands)
            outs, wl = body(st, r)
            bad = []
            for o in outs:
                if o[0] != 'back': continue
                r2 = self.header_regs(o[1], fn, o[2], H, o[3])
                for c in cands:
                    if c in bad: continue
                    try:
                        s = o[1].fork()
                        e = c[1](s, r2, add(k, 1), init, st0)
                        if not self.fprove(s, e, 5000):
                            bad.append(c)
                            if self.dbg and not c[0].startswith('auto'): print('   step fails', c[0], tag)
                    except (Unsupported, PathEnd) as ex:
                        bad.append(c)
                        if self.dbg: print('   step n/a', c[0], ex)
            if not bad: break
            cands = [c for c in cands if c not in bad]
        return cands

def has_sel(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_SELECT,) or (x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): return True
            st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body())
    return False
def has_var(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return True
        if z3.is_app(x): st.extend(x.children())
    return False

def patterns(body, m):
    """select / uf terms mentioning m, with their argument linear in m"""
    res = []; seen = set(); st = [body]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if (k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and x.num_args())) and m.decl().name() in consts(x):
                res.append(x)
            st.extend(x.children())
    return res
_fa = {}
TRIG = z3.Function('trig', Int, Bool)
def mk_forall2(a, b, rng, body):
    body = bz(body); rng = bz(rng)
    if z3.is_true(body): return True
    pa = [p for p in patterns(body, a) if any(x.eq(a) for x in p.children()) and b.decl().name() not in consts(p)]
    pb = [p for p in patterns(body, b) if any(x.eq(b) for x in p.children()) and a.decl().name() not in consts(p)]
    im = z3.Implies(rng, body)
    if pa and pb: return keep(z3.ForAll([a, b], im, patterns=[z3.MultiPattern(x, y) for x in pa[:3] for y in pb[:3]]))
    return keep(z3.ForAll([a, b], im))
def mk_forall(m, rng, body):
    """ForAll m. rng -> body, with one copy per distinct shifted index so that e-matching works"""
    if isinstance(body, bool):
        if body: return True
    body = bz(body); rng = bz(rng)
    key = (rng.get_id(), body.get_id(), m.get_id())
    if key in _fa: return _fa[key]
    keep(body); keep(rng)
    pats = patterns(body, m)
    forms = {}
    for p in pats:
        for a in p.children():
            if a.sort() == Int and m.decl().name() in consts(a):
                l = lin(a); t = l.t.get(m.get_id())
                if t and t[1] in (1, -1):
                    rest = Lin({i: v for i, v in l.t.items() if i != m.get_id()}, l.c)
                    if any(m.decl().name() in consts(e) for e, c in rest.t.values()): continue
                    kk = (t[1], str(rest.to()))
                    if kk not in forms: forms[kk] = (t[1], rest)
    out = []
    if not forms:
        r = z3.ForAll([m], z3.Implies(z3.And(TRIG(m), rng), body), patterns=[TRIG(m)])
        _fa[key] = r; keep(r)
        return r
    for (sg, rest) in list(forms.values())[:4]:
        # a = sg*m + rest  =>  m = sg*(a - rest)
        j = z3.Int('q?')
        me = (lin(j) - rest).scale(sg).to()
        b = clean(z3.substitute(body, (m, iz(me)))); rg = clean(z3.substitute(rng, (m, iz(me))))
        im = bor(bnot(rg), b)
        if isinstance(im, bool):
            if im: continue
            im = z3.BoolVal(False)
        ps = [p for p in patterns(im, j) if any(x.eq(j) for x in p.children())]
        uniq = []
        for p in ps:
            if not any(p.eq(u) for u in uniq): uniq.append(p)
        if uniq: out.append(z3.ForAll([j], im, patterns=uniq[:6]))
        else: out.append(z3.ForAll([j], im))
    r = True if not out else (out[0] if len(out) == 1 else z3.And(out))
    _fa[key] = r
    if isz(r): keep(r)
    return r

_hq = {}
def has_quant_term(e):
    i = e.get_id()
    if i in _hq: return _hq[i]
    r = z3.is_quantifier(e) or z3.is_bool(e) or any(has_quant_term(c) for c in e.children())
    keep(e); _hq[i] = r
    return r
