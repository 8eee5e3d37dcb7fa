"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
from /repo's sources.  Functions are parsed lazily."""
import re, struct
from fractions import Fraction

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
# ('i',n) ('float',) ('double',) ('ptr',) ('void',) ('arr',n,t) ('struct',(t..),packed) ('named',name) ('vec',n,t) ('fn',)
TOK = re.compile(r'''\s*(?:
 (?P<lstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
 (?P<name>[%@](?:"[^"]*"|[-\w.$]+))|
 (?P<meta>![-\w.]*(?:\([^)]*\))?)|
 (?P<attr>\#\d+)|
 (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))|
 (?P<str>"[^"]*")|
 (?P<id>[A-Za-z_.$][-\w.$]*)|
 (?P<punc>\.\.\.|[\[\]{}()<>,=*:|])
)''', re.X)

class Toks:
    __slots__ = ('t', 'p')
    def __init__(self, s):
        out = []
        i = 0
        n = len(s)
        while i < n:
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                    break
                raise Unsupported('tokenise: ' + s[i:i+60])
            out.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.t = out
        self.p = 0
    def peek(self, k=0):
        return self.t[self.p+k][1] if self.p+k < len(self.t) else None
    def kind(self):
        return self.t[self.p][0] if self.p < len(self.t) else None
    def next(self):
        v = self.t[self.p][1]
        self.p += 1
        return v
    def accept(self, s):
        if self.p < len(self.t) and self.t[self.p][1] == s:
            self.p += 1
            return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise Unsupported('expected %s at %s' % (s, [x[1] for x in self.t[self.p:self.p+6]]))
    def end(self):
        return self.p >= len(self.t)

PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly',
  'returned','immarg','nofree','nest','swiftself','readnone','inalloca','noreturn','allocptr','allocalign','dead_on_unwind','writable'}
def skip_attrs(tk):
    info = {}
    while True:
        v = tk.peek()
        if v in PARAM_ATTRS:
            tk.next()
        elif v in ('align',):
            tk.next()
            if tk.accept('('):
                tk.next(); tk.expect(')')
            else:
                tk.next()
        elif v in ('dereferenceable','dereferenceable_or_null','byval','sret','byref','elementtype','preallocated','range','memory','captures'):
            a = tk.next()
            if tk.accept('('):
                if a in ('byval','sret','byref','elementtype'):
                    info[a] = parse_type(tk)
                    tk.expect(')')
                else:
                    d = 1
                    while d:
                        w = tk.next()
                        if w == '(': d += 1
                        elif w == ')': d -= 1
        else:
            return info

def unq(s):
    if s[1] == '"':
        return s[2:-1]
    return s[1:]

def parse_type(tk):
    v = tk.next()
    if v == 'ptr':
        t = ('ptr',)
        if tk.peek() == 'addrspace':
            raise Unsupported('addrspace')
    elif v == 'void': t = ('void',)
    elif v == 'float': t = ('float',)
    elif v == 'double': t = ('double',)
    elif v == 'x86_fp80': t = ('x86_fp80',)
    elif v in ('metadata','label','token','opaque'): t = (v,)
    elif re.match(r'i\d+$', v): t = ('i', int(v[1:]))
    elif v == '[':
        n = int(tk.next()); tk.expect('x')
        e = parse_type(tk); tk.expect(']')
        t = ('arr', n, e)
    elif v == '<':
        if tk.accept('{'):
            l = []
            if not tk.accept('}'):
                while True:
                    l.append(parse_type(tk))
                    if tk.accept('}'): break
                    tk.expect(',')
            tk.expect('>')
            t = ('struct', tuple(l), True)
        else:
            n = int(tk.next()); tk.expect('x')
            e = parse_type(tk); tk.expect('>')
            t = ('vec', n, e)
    elif v == '{':
        l = []
        if not tk.accept('}'):
            while True:
                l.append(parse_type(tk))
                if tk.accept('}'): break
                tk.expect(',')
        t = ('struct', tuple(l), False)
    elif v[0] == '%':
        t = ('named', unq(v))
    else:
        raise Unsupported('type ' + v)
    # function type suffix
    if tk.peek() == '(':
        d = 0
        while True:
            w = tk.next()
            if w == '(': d += 1
            elif w == ')':
                d -= 1
                if d == 0: break
        t = ('fnty', t)
    return t

def fpconst(s, ty):
    if s.startswith('0x'):
        h = s[2:]
        if h[0] in 'KLMHR':
            raise Unsupported('fp80')
        d = struct.unpack('>d', bytes.fromhex(h.zfill(16)))[0]
    else:
        d = float(s)
    if d != d: return 'nan'
    if d in (float('inf'), float('-inf')): return 'inf' if d > 0 else '-inf'
    return Fraction(d)

def parse_value(tk, ty):
    v = tk.next()
    k = v[0]
    if k == '%': return ('reg', unq(v))
    if k == '@': return ('glob', unq(v))
    if v == 'true': return ('int', 1)
    if v == 'false': return ('int', 0)
    if v == 'null': return ('null',)
    if v in ('undef','poison'): return ('undef',)
    if v == 'zeroinitializer': return ('zero',)
    if v == 'none': return ('undef',)
    if k.isdigit() or k == '-':
        if ty[0] == 'i':
            return ('int', int(v))
        return ('fp', fpconst(v, ty))
    if v.startswith('c"'):
        raw = v[2:-1]
        out = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                if raw[i+1] == '\\':
                    out.append(92); i += 2
                else:
                    out.append(int(raw[i+1:i+3], 16)); i += 3
            else:
                out.append(ord(raw[i])); i += 1
        return ('cstr', bytes(out))
    if v in ('[', '{', '<'):
        close = {'[':']','{':'}','<':'>'}[v]
        packed = False
        if v == '<' and tk.accept('{'):
            packed = True; close = '}'
        l = []
        if not tk.accept(close):
            while True:
                t = parse_type(tk)
                l.append((t, parse_value(tk, t)))
                if tk.accept(close): break
                tk.expect(',')
        if packed: tk.expect('>')
        return ('agg', l)
    if v in ('getelementptr',):
        while tk.peek() in ('inbounds','inrange'): tk.next()
        tk.expect('(')
        st = parse_type(tk)
        ops = []
        while tk.accept(','):
            tk.accept('inrange')
            t = parse_type(tk)
            ops.append((t, parse_value(tk, t)))
        tk.expect(')')
        return ('gep', st, ops)
    if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
        tk.expect('(')
        t = parse_type(tk)
        x = parse_value(tk, t)
        tk.expect('to')
        t2 = parse_type(tk)
        tk.expect(')')
        return ('cast', v, t, x, t2)
    if v in ('sub','add'):
        while tk.peek() in ('nsw','nuw'): tk.next()
        tk.expect('(')
        t = parse_type(tk); a = parse_value(tk, t); tk.expect(',')
        t2 = parse_type(tk); b = parse_value(tk, t2); tk.expect(')')
        return ('cbin', v, t, a, b)
    raise Unsupported('value ' + v)

class Inst:
    __slots__ = ('op','res','ty','a','flags','text')
    def __init__(self, op, res, ty, a, flags=(), text=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.flags = flags; self.text = text
    def __repr__(self): return self.text

BIN = {'add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'sext','zext','trunc','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','ptrtoint','inttoptr','bitcast'}

def parse_inst(line):
    text = line.strip()
    tk = Toks(text)
    res = None
    if tk.kind() == 'name' and tk.peek(1) == '=':
        res = unq(tk.next()); tk.next()
    op = tk.next()
    if op in ('tail','musttail','notail'):
        op = tk.next()
    fl = []
    if op in BIN or op == 'fneg':
        while tk.peek() in ('nsw','nuw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint'):
            fl.append(tk.next())
        t = parse_type(tk)
        a = parse_value(tk, t)
        if op == 'fneg': return Inst(op, res, t, [a], fl, text)
        tk.expect(',')
        return Inst(op, res, t, [a, parse_value(tk, t)], fl, text)
    if op in ('icmp','fcmp'):
        while tk.peek() in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): tk.next()
        pred = tk.next()
        t = parse_type(tk)
        a = parse_value(tk, t); tk.expect(',')
        b = parse_value(tk, t)
        return Inst(op, res, t, [a, b], [pred], text)
    if op in CAST:
        tk.accept('nneg')
        t = parse_type(tk); a = parse_value(tk, t); tk.expect('to')
        return Inst(op, res, t, [a], [parse_type(tk)], text)
    if op == 'alloca':
        t = parse_type(tk)
        n = ('int', 1)
        if tk.accept(','):
            if tk.peek() != 'align':
                t2 = parse_type(tk)
                n = parse_value(tk, t2)
        return Inst(op, res, t, [n], fl, text)
    if op == 'load':
        tk.accept('volatile')
        t = parse_type(tk); tk.expect(','); parse_type(tk)
        return Inst(op, res, t, [parse_value(tk, ('ptr',))], fl, text)
    if op == 'store':
        tk.accept('volatile')
        t = parse_type(tk); v = parse_value(tk, t); tk.expect(','); parse_type(tk)
        return Inst(op, res, t, [v, parse_value(tk, ('ptr',))], fl, text)
    if op == 'getelementptr':
        while tk.peek() in ('inbounds','nuw','nusw'): tk.next()
        st = parse_type(tk)
        ops = []
        while tk.accept(','):
            if tk.kind() == 'meta': break
            t = parse_type(tk)
            ops.append((t, parse_value(tk, t)))
        return Inst(op, res, st, ops, fl, text)
    if op == 'phi':
        while tk.peek() in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): tk.next()
        t = parse_type(tk)
        l = []
        while tk.accept('['):
            v = parse_value(tk, t); tk.expect(',')
            b = unq(tk.next()); tk.expect(']')
            l.append((v, b))
            if not tk.accept(','): break
        return Inst(op, res, t, l, fl, text)
    if op == 'select':
        t = parse_type(tk); c = parse_value(tk, t); tk.expect(',')
        t1 = parse_type(tk); a = parse_value(tk, t1); tk.expect(',')
        t2 = parse_type(tk); b = parse_value(tk, t2)
        return Inst(op, res, t1, [c, a, b], fl, text)
    if op == 'br':
        if tk.accept('label'):
            return Inst(op, None, None, [unq(tk.next())], fl, text)
        t = parse_type(tk); c = parse_value(tk, t); tk.expect(','); tk.expect('label')
        a = unq(tk.next()); tk.expect(','); tk.expect('label'); b = unq(tk.next())
        return Inst(op, None, t, [c, a, b], fl, text)
    if op == 'switch':
        t = parse_type(tk); v = parse_value(tk, t); tk.expect(','); tk.expect('label')
        d = unq(tk.next()); tk.expect('[')
        cs = []
        while not tk.accept(']'):
            t2 = parse_type(tk); cv = parse_value(tk, t2); tk.expect(','); tk.expect('label')
            cs.append((cv[1], unq(tk.next())))
        return Inst(op, None, t, [v, d, cs], fl, text)
    if op == 'ret':
        t = parse_type(tk)
        if t == ('void',): return Inst(op, None, t, [None], fl, text)
        return Inst(op, None, t, [parse_value(tk, t)], fl, text)
    if op == 'unreachable':
        return Inst(op, None, None, [], fl, text)
    if op in ('call','invoke'):
        while tk.peek() in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','ccc','fastcc'): tk.next()
        skip_attrs(tk)
        rt = parse_type(tk)
        if rt[0] == 'fnty': rt = rt[1]
        # function type may be followed by parens e.g. i32 (ptr, ...) already eaten
        callee = parse_value(tk, ('ptr',))
        tk.expect('(')
        args = []
        if not tk.accept(')'):
            while True:
                t = parse_type(tk)
                info = skip_attrs(tk)
                if t == ('metadata',):
                    return Inst('nop', res, rt, [], fl, text)
                args.append((t, parse_value(tk, t), info))
                if tk.accept(')'): break
                tk.expect(',')
        if op == 'invoke':
            while tk.peek() != 'to': tk.next()
            tk.next(); tk.expect('label'); nb = unq(tk.next())
            while tk.peek() != 'unwind': tk.next()
            tk.next(); tk.expect('label'); ub = unq(tk.next())
            return Inst('invoke', res, rt, [callee, args, nb, ub], fl, text)
        return Inst('call', res, rt, [callee, args], fl, text)
    if op == 'extractvalue':
        t = parse_type(tk); v = parse_value(tk, t)
        ix = []
        while tk.accept(','): ix.append(int(tk.next()))
        return Inst(op, res, t, [v, ix], fl, text)
    if op == 'insertvalue':
        t = parse_type(tk); v = parse_value(tk, t); tk.expect(',')
        t2 = parse_type(tk); w = parse_value(tk, t2)
        ix = []
        while tk.accept(','): ix.append(int(tk.next()))
        return Inst(op, res, t, [v, (t2, w), ix], fl, text)
    if op == 'freeze':
        t = parse_type(tk); return Inst(op, res, t, [parse_value(tk, t)], fl, text)
    if op in ('extractelement',):
        t = parse_type(tk); v = parse_value(tk, t); tk.expect(',')
        t2 = parse_type(tk); i = parse_value(tk, t2)
        return Inst(op, res, t, [v, i], fl, text)
    if op in ('insertelement',):
        t = parse_type(tk); v = parse_value(tk, t); tk.expect(',')
        t2 = parse_type(tk); w = parse_value(tk, t2); tk.expect(',')
        t3 = parse_type(tk); i = parse_value(tk, t3)
        return Inst(op, res, t, [v, (t2, w), i], fl, text)
    if op in ('fence',):
        return Inst('nop', res, None, [], fl, text)
    raise Unsupported('inst ' + text[:100])

class Block:
    __slots__ = ('name','insts','succ','pred')

class Func:
    def __init__(self, mod, name, header, body, internal=False):
        self.mod = mod; self.name = name; self.header = header; self.body = body
        self._parsed = False
        tk = Toks(header)
        # find @name
        while True:
            v = tk.next()
            if v[0] == '@' and unq(v) == name: break
        # ret type: re-scan
        self.params = []
        tk.expect('(')
        if not tk.accept(')'):
            while True:
                if tk.peek() == '...':
                    tk.next(); tk.expect(')'); break
                t = parse_type(tk); info = skip_attrs(tk)
                nm = None
                if tk.kind() == 'name': nm = unq(tk.next())
                self.params.append((t, nm, info))
                if tk.accept(')'): break
                tk.expect(',')
    def parse(self):
        if self._parsed: return
        self.blocks = {}
        self.order = []
        cur = None
        n = sum(1 for p in self.params if p[1] is None)
        # unnamed params get numbers 0..; entry label might be implicit
        i = 0
        fixed = []
        cnt = 0
        for (t, nm, info) in self.params:
            if nm is None:
                nm = str(cnt); cnt += 1
            fixed.append((t, nm, info))
        self.params = fixed
        lines = self.body
        j = 0
        while j < len(lines):
            ln = lines[j]; j += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', ln)
            if m:
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                cur = Block(); cur.name = nm; cur.insts = []
                self.blocks[nm] = cur; self.order.append(nm)
                continue
            if cur is None:
                cur = Block(); cur.name = str(cnt); cur.insts = []
                self.blocks[cur.name] = cur; self.order.append(cur.name)
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while not lines[j].strip().startswith(']'):
                    s += ' ' + lines[j].strip(); j += 1
                s += ' ]'; j += 1
            if s.startswith('cleanup') or s.startswith('catch') or s.startswith('filter'):
                continue
            if re.match(r'%\S+ = landingpad', s):
                cur.insts.append(Inst('landingpad', s.split(' = ')[0][1:].strip('"'), None, [], (), s)); continue
            if s.startswith('resume'):
                cur.insts.append(Inst('resume', None, None, [], (), s)); continue
            if re.match(r'^to label|^unwind', s): continue
            if ' invoke ' in ' ' + s and 'to label' not in s:
                while 'unwind label' not in s:
                    s += ' ' + lines[j].strip(); j += 1
            s = re.sub(r'(, !\S+ !\d+)+\s*$', '', s)
            try:
                cur.insts.append(parse_inst(s))
            except Unsupported as e:
                cur.insts.append(Inst('unsupported', None, None, [str(e)], (), s))
        self.entry = self.order[0]
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == 'br': b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke': b.succ = [t.a[2], t.a[3]]
            else: b.succ = []
            b.pred = []
        for b in self.blocks.values():
            for s in b.succ: self.blocks[s].pred.append(b.name)
        self._loops()
        self._parsed = True
    def _loops(self):
        # reachable rpo
        seen = set(); post = []
        def dfs(n):
            st = [(n, iter(self.blocks[n].succ))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(self.blocks[y].succ))); break
                else:
                    post.append(x); st.pop()
        dfs(self.entry)
        rpo = post[::-1]; self.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.blocks[b].pred if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if s in num and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in self.blocks[x].pred if p in num)
        # irreducible check: a retreating edge whose target does not dominate the source
        for b in rpo:
            for s in self.blocks[b].succ:
                if s in num and num[s] <= num[b] and not dom(s, b):
                    raise Unsupported('irreducible loop in ' + self.name)

class Module:
    def __init__(self, path):
        txt = open(path).read().split('\n')
        self.types = {}
        self.globals = {}
        self.gtext = {}
        self.funcs = {}
        self.decls = {}
        self.alias = {}
        self._lay = {}
        i = 0
        while i < len(txt):
            l = txt[i]; i += 1
            if not l: continue
            c = l[0]
            if c == '%':
                m = re.match(r'^%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                self.types[nm] = m.group(2)
            elif c == '@':
                m = re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$', l)
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                ma = re.search(r'\balias .*@("[^"]*"|[-\w.$]+)$', m.group(2))
                if ma: self.alias[nm] = ma.group(1).strip('"')
                self.gtext[nm] = m.group(2)
            elif l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                body = []
                while txt[i] != '}':
                    body.append(txt[i]); i += 1
                i += 1
                self.funcs[nm] = (l, body)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                self.decls[nm] = l
        self._fn = {}
        self.alias = {a: b for a, b in self.alias.items() if b in self.funcs}
        for a, b in self.alias.items(): self.funcs[a] = self.funcs[b]
    def func(self, name):
        if name not in self._fn:
            if name not in self.funcs: return None
            h, b = self.funcs[name]
            f = Func(self, name, h, b)
            f.parse()
            self._fn[name] = f
        return self._fn[name]
    def resolve(self, t):
        while t[0] == 'named':
            v = self.types.get(t[1])
            if v is None: raise Unsupported('type ' + t[1])
            if isinstance(v, str):
                v = parse_type(Toks(v)); self.types[t[1]] = v
            t = v
        return t
    def layout(self, t):
        """(size, align, [field offsets])"""
        r = self._lay.get(t)
        if r: return r
        k = t[0]
        if k == 'i':
            n = t[1]; s = (n+7)//8
            p = 1
            while p < s: p *= 2
            r = (p, min(p, 16), None)
        elif k == 'float': r = (4, 4, None)
        elif k == 'double': r = (8, 8, None)
        elif k == 'ptr': r = (8, 8, None)
        elif k == 'x86_fp80': r = (16, 16, None)
        elif k == 'named':
            r = self.layout(self.resolve(t))
        elif k == 'arr':
            s, a, _ = self.layout(t[2]); r = (s*t[1], a, None)
        elif k == 'vec':
            s, a, _ = self.layout(t[2]); r = (s*t[1], s*t[1], None)
        elif k == 'struct':
            off = 0; al = 1; offs = []
            for f in t[1]:
                s, a, _ = self.layout(f)
                if t[2]: a = 1
                off = (off + a - 1)//a*a
                offs.append(off); off += s
                al = max(al, a)
            off = (off + al - 1)//al*al
            r = (off, al, offs)
        else:
            raise Unsupported('layout of %s' % (t,))
        self._lay[t] = r
        return r
    def size(self, t): return self.layout(t)[0]
    def flatten(self, t, base=0):
        """yield (offset, scalar type)"""
        k = t[0]
        if k == 'named':
            yield from self.flatten(self.resolve(t), base)
        elif k == 'struct':
            for f, o in zip(t[1], self.layout(t)[2]):
                yield from self.flatten(f, base+o)
        elif k in ('arr', 'vec'):
            s = self.size(t[2])
            for i in range(t[1]):
                yield from self.flatten(t[2], base+i*s)
        else:
            yield (base, t)
    def glob(self, name):
        """-> (type, init value or None, constant?)"""
        g = self.globals.get(name)
        if g is None:
            s = self.gtext.get(name)
            if s is None: return None
            tk = Toks(re.sub(r', (comdat|align|section|!dbg).*$', '', s))
            ext = False; const = False
            while True:
                v = tk.peek()
                if v in ('global','constant'):
                    const = v == 'constant'
                    tk.next(); break
                if v in ('external','extern_weak'): ext = True
                if v in ('alias',): raise Unsupported('alias')
                tk.next()
            t = parse_type(tk)
            init = None
            if not ext and not tk.end():
                init = parse_value(tk, t)
            g = (t, init, const)
            self.globals[name] = g
        return g
