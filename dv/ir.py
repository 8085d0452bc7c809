"""Parser of textual LLVM IR (LLVM 18, opaque pointers), function bodies parsed on demand."""
import re, struct

TOK = re.compile(r'''c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*"|[%@$]"[^"]*"|[%@$][-\w.$]+|"[^"]*"|![\w.]+|!\{|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[(){}\[\]<>,=*:#!|]''')

def tokens(s): return TOK.findall(s)

VOID, PTR = ('void',), ('ptr',)
FLOATS = {'float': 32, 'double': 64, 'x86_fp80': 80}
ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly returned immarg nest swiftself noreturn nounwind
 dso_local dso_preemptable hidden protected default internal private linkonce linkonce_odr weak weak_odr external extern_weak available_externally common appending
 unnamed_addr local_unnamed_addr fastcc ccc coldcc tail musttail notail nuw nsw exact disjoint nneg inbounds volatile fast nnan ninf nsz arcp contract afn reassoc
 dead_on_unwind writable noinline mustprogress willreturn speculatable thread_local mutable'''.split())

class P:
    def __init__(self, mod, s): self.m, self.t, self.i = mod, tokens(s), 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        self.i += 1
        return self.t[self.i - 1]
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        assert self.next() == x, (x, self.t, self.i)
    def skip_parens(self):
        d = 0
        while True:
            t = self.next()
            if t == '(': d += 1
            if t == ')':
                d -= 1
                if d == 0: return
    def attrs(self):
        while True:
            t = self.peek()
            if t in ATTRS: self.i += 1
            elif t in ('align', 'addrspace', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'memory', 'range', 'inrange', 'preallocated', 'inalloca', 'captures', 'byref', 'allocsize', 'nofpclass', 'comdat', 'section', 'partition'):
                self.i += 1
                if self.peek() == '(': self.skip_parens()
                elif t == 'align' and self.peek() and re.match(r'\d+$', self.peek()): self.i += 1
            elif t is not None and t.startswith('#'): self.i += 1; self.next() if False else None
            else: return
    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace': self.i += 1; self.skip_parens()
        elif t == 'void': r = VOID
        elif t in FLOATS: r = (t,)
        elif re.match(r'i\d+$', t): r = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']'); r = ('arr', n, e)
        elif t == '<':
            if self.eat('{'):
                f = []
                while not self.eat('}'):
                    f.append(self.type()); self.eat(',')
                self.need('>'); r = ('struct', tuple(f), True)
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>'); r = ('vec', n, e)
        elif t == '{':
            f = []
            while not self.eat('}'):
                f.append(self.type()); self.eat(',')
            r = ('struct', tuple(f), False)
        elif t[0] == '%': r = ('named', t)
        elif t in ('metadata', 'label', 'token', 'opaque'): r = (t,)
        else: raise SyntaxError(f"type {t} in {self.t}")
        while self.peek() == '(' and r[0] in ('void', 'i', 'ptr', 'named', 'struct', 'float', 'double') and self._is_fnty():
            self.skip_parens(); r = ('fn', r)
        return r
    def _is_fnty(self):
        # a function type in a call: RET (args...) @callee
        d, k = 0, 0
        while True:
            t = self.peek(k)
            if t is None: return False
            if t == '(': d += 1
            if t == ')':
                d -= 1
                if d == 0: break
            k += 1
        n = self.peek(k + 1)
        return n is not None and (n[0] in '%@')
    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('reg', t)
        if t[0] == '@': return ('glob', t)
        if t in ('null',): return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'none': return ('null',)
        if t[0] == 'c' and t[1:2] == '"':
            b, s, k = bytearray(), t[2:-1], 0
            while k < len(s):
                if s[k:k + 2] == '\\\\': b.append(92); k += 2
                elif s[k] == '\\': b.append(int(s[k + 1:k + 3], 16)); k += 3
                else: b.append(ord(s[k])); k += 1
            return ('str', bytes(b))
        if ty and ty[0] in FLOATS: return ('fp', ty[0], fpbits(ty[0], t))
        if re.match(r'-?\d+$', t): return ('int', int(t))
        if t == '[' or t == '{' or (t == '<'):
            end = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and self.eat('{'): end = '}>'
            f = []
            while True:
                if end == '}>' and self.peek() == '}': self.next(); self.next(); break
                if self.eat(end): break
                et = self.type(); self.attrs(); f.append((et, self.value(et))); self.eat(',')
            return ('agg', f)
        if t == 'getelementptr':
            self.attrs(); self.need('('); self.attrs()
            bt = self.type(); self.need(','); pt = self.type(); base = self.value(pt); idx = []
            while self.eat(','):
                self.attrs(); it = self.type(); idx.append((it, self.value(it)))
            self.need(')')
            return ('gep', bt, base, idx)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.need('('); ft = self.type(); v = self.value(ft); self.need('to'); tt = self.type(); self.need(')')
            return ('cast', t, ft, v, tt)
        if t in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
            self.attrs(); self.need('('); a = self.type(); va = self.value(a); self.need(','); b = self.type(); vb = self.value(b); self.need(')')
            return ('bin', t, a, va, vb)
        if t == 'dso_local_equivalent' or t == 'no_cfi': return self.value(ty)
        if t == 'blockaddress': self.skip_parens(); return ('undef',)
        raise SyntaxError(f"value {t} in {' '.join(self.t)}")

def fpbits(kind, t):
    if t.startswith('0xK'): return int(t[3:], 16)
    if t.startswith('0x'):
        b = int(t[2:], 16)
        if kind == 'double': return b
        d = struct.unpack('<d', struct.pack('<Q', b))[0]
        return struct.unpack('<I', struct.pack('<f', d))[0]
    d = float(t)
    if kind == 'double': return struct.unpack('<Q', struct.pack('<d', d))[0]
    if kind == 'float': return struct.unpack('<I', struct.pack('<f', d))[0]
    raise SyntaxError('fp80 ' + t)

class Block:
    __slots__ = ('name', 'ins', 'succ', 'phis')
    def __init__(self, name): self.name, self.ins, self.succ, self.phis = name, [], [], []

class Fn:
    def __init__(self, name, ret, params, body): self.name, self.ret, self.params, self.text, self._blocks = name, ret, params, body, None

class Mod:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.decls, self.aliases = {}, {}, {}, {}, {}
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._fn(l, lines[i + 1:j]); i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls['@' + m[1]] = l
            elif l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1); self.types[n] = t
            elif l.startswith('@'): self._glob(l)
            i += 1
        self._ty, self._lay = {}, {}
    def _fn(self, l, body):
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
        name = m[1]
        p = P(self, l[len('define '):m.start()]); p.attrs(); ret = p.type()
        p = P(self, l[m.end() - 1:]); p.need('('); params = []
        while not p.eat(')'):
            if p.eat('...'): continue
            t = p.type()
            a0 = p.i; p.attrs(); byval = 'byval' in p.t[a0:p.i]; sret = 'sret' in p.t[a0:p.i]
            params.append((t, p.next(), byval)); p.eat(',')
        self.fns[name] = Fn(name, ret, params, body)
    def _glob(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', l)
        s = m[2]
        if re.search(r'\balias\b', s.split('"')[0]) and ' alias ' in ' ' + s:
            a = re.search(r'alias .*?, ptr (@(?:"[^"]*"|[-\w.$]+))', s)
            if a: self.aliases[m[1]] = a[1]
            return
        self.globals[m[1]] = s
    def global_init(self, name):
        s = self.globals[name]
        m = re.search(r'(?:^|\s)(global|constant)\s', s)
        const = m[1] == 'constant'; ext = re.search(r'\b(external|extern_weak)\b', s[:m.start()]) is not None
        p = P(self, s[m.end():]); p.attrs(); t = p.type()
        if ext: return t, None, const
        p.attrs(); v = p.value(t)
        return t, v, const
    def resolve(self, t):
        if t[0] != 'named': return t
        r = self._ty.get(t[1])
        if r is None:
            r = self._ty[t[1]] = P(self, self.types[t[1]]).type()
        return r
    def align(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i': return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'arr': return self.align(t[2])
        if k == 'struct': return 1 if t[2] else max([self.align(x) for x in t[1]], default=1)
        raise ValueError(t)
    def size(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i': a = self.align(t); return ((t[1] + 7) // 8 + a - 1) // a * a
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'struct': return self.layout(t)[1]
        raise ValueError(t)
    def store_size(self, t):
        t = self.resolve(t)
        if t[0] == 'i': return (t[1] + 7) // 8
        if t[0] == 'x86_fp80': return 10
        return self.size(t)
    def layout(self, t):
        t = self.resolve(t)
        r = self._lay.get(t)
        if r: return r
        offs, o = [], 0
        for x in t[1]:
            if not t[2]: a = self.align(x); o = (o + a - 1) // a * a
            offs.append(o); o += self.size(x)
        if not t[2]: a = self.align(t); o = (o + a - 1) // a * a
        r = self._lay[t] = (offs, o)
        return r
    def blocks(self, fn):
        if fn._blocks is None: fn._blocks = parse_body(self, fn)
        return fn._blocks

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_call(p, dst, kind):
    p.attrs(); rt = p.type(); callee_ty = None
    if rt[0] == 'fn': rt = rt[1]
    callee = p.value(PTR); p.need('('); args = []
    while not p.eat(')'):
        t = p.type()
        a0 = p.i; p.attrs(); byval = 'byval' in p.t[a0:p.i]
        if t == ('metadata',):
            d = 0
            while not (p.peek() in (',', ')') and d == 0):
                x = p.next()
                if x in '({[': d += 1
                if x in ')}]': d -= 1
            v = ('undef',)
        else: v = p.value(t)
        args.append((t, v, byval)); p.eat(',')
    r = {'op': 'call', 'dst': dst, 'ty': rt, 'fn': callee, 'args': args}
    if kind == 'invoke':
        while p.next() != 'to': pass
        p.need('label'); r['normal'] = p.next()[1:].strip('"'); p.need('unwind'); p.need('label'); r['unwind'] = p.next()[1:].strip('"'); r['op'] = 'invoke'
    return r

def parse_ins(m, line):
    p = P(m, line); dst = None
    if p.t[0][0] == '%' and p.peek(1) == '=': dst = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    if op == 'call' or op == 'invoke': return parse_call(p, dst, op)
    if op == 'alloca':
        p.attrs(); t = p.type(); n = ('int', 1)
        if p.eat(',') and p.peek() not in ('align', 'addrspace'): it = p.type(); n = p.value(it)
        return {'op': op, 'dst': dst, 'ty': t, 'n': n}
    if op == 'load':
        p.attrs(); p.eat('atomic'); p.attrs(); t = p.type(); p.need(','); pt = p.type(); return {'op': op, 'dst': dst, 'ty': t, 'ptr': p.value(pt)}
    if op == 'store':
        p.attrs(); p.eat('atomic'); p.attrs(); t = p.type(); v = p.value(t); p.need(','); pt = p.type(); return {'op': op, 'dst': None, 'ty': t, 'val': v, 'ptr': p.value(pt)}
    if op == 'getelementptr':
        p.attrs(); bt = p.type(); p.need(','); pt = p.type(); base = p.value(pt); idx = []
        while p.eat(','):
            if p.peek()[0] == '!': break
            p.attrs(); it = p.type(); idx.append((it, p.value(it)))
        return {'op': op, 'dst': dst, 'bt': bt, 'base': base, 'idx': idx}
    if op in BIN:
        a0 = p.i; p.attrs(); fl = p.t[a0:p.i]; t = p.type(); a = p.value(t); p.need(','); return {'op': 'bin', 'o': op, 'dst': dst, 'ty': t, 'a': a, 'b': p.value(t), 'flags': fl}
    if op == 'fneg': p.attrs(); t = p.type(); return {'op': 'fneg', 'dst': dst, 'ty': t, 'a': p.value(t)}
    if op in ('icmp', 'fcmp'):
        p.attrs(); pred = p.next(); t = p.type(); a = p.value(t); p.need(','); return {'op': op, 'dst': dst, 'pred': pred, 'ty': t, 'a': a, 'b': p.value(t)}
    if op in CAST:
        p.attrs(); ft = p.type(); v = p.value(ft); p.need('to'); return {'op': 'cast', 'o': op, 'dst': dst, 'from': ft, 'a': v, 'ty': p.type()}
    if op == 'phi':
        p.attrs(); t = p.type(); inc = {}
        while True:
            p.need('['); v = p.value(t); p.need(','); b = p.next()[1:].strip('"'); p.need(']'); inc[b] = v
            if not p.eat(','): break
            if p.peek()[0] == '!': break
        return {'op': op, 'dst': dst, 'ty': t, 'inc': inc}
    if op == 'select':
        p.attrs(); ct = p.type(); c = p.value(ct); p.need(','); t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); return {'op': op, 'dst': dst, 'ty': t, 'c': c, 'a': a, 'b': p.value(t2)}
    if op == 'br':
        if p.eat('label'): return {'op': 'br', 'dst': None, 'to': p.next()[1:].strip('"')}
        t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = p.next()[1:].strip('"'); p.need(','); p.need('label'); b = p.next()[1:].strip('"')
        return {'op': 'cbr', 'dst': None, 'c': c, 'a': a, 'b': b}
    if op == 'switch':
        t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.next()[1:].strip('"'); p.need('['); cs = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.need(','); p.need('label'); cs.append((cv[1], p.next()[1:].strip('"')))
        return {'op': op, 'dst': None, 'ty': t, 'v': v, 'default': d, 'cases': cs}
    if op == 'ret':
        t = p.type(); return {'op': op, 'dst': None, 'ty': t, 'v': None if t == VOID else p.value(t)}
    if op == 'unreachable': return {'op': op, 'dst': None}
    if op == 'extractvalue':
        t = p.type(); a = p.value(t); idx = []
        while p.eat(',') and re.match(r'\d+$', p.peek()): idx.append(int(p.next()))
        return {'op': op, 'dst': dst, 'aty': t, 'a': a, 'idx': idx}
    if op == 'insertvalue':
        t = p.type(); a = p.value(t); p.need(','); et = p.type(); v = p.value(et); idx = []
        while p.eat(',') and re.match(r'\d+$', p.peek()): idx.append(int(p.next()))
        return {'op': op, 'dst': dst, 'ty': t, 'a': a, 'et': et, 'v': v, 'idx': idx}
    if op == 'landingpad':
        t = p.type(); cl = []; cleanup = False
        while p.peek():
            x = p.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch': ct = p.type(); cl.append(('catch', p.value(ct)))
            elif x == 'filter': ct = p.type(); cl.append(('filter', p.value(ct)))
            else: break
        return {'op': op, 'dst': dst, 'ty': t, 'cleanup': cleanup, 'clauses': cl}
    if op == 'resume': t = p.type(); return {'op': op, 'dst': None, 'v': p.value(t), 'ty': t}
    if op == 'freeze': t = p.type(); return {'op': op, 'dst': dst, 'ty': t, 'a': p.value(t)}
    if op == 'atomicrmw':
        p.attrs(); o = p.next(); pt = p.type(); ptr = p.value(pt); p.need(','); t = p.type(); return {'op': op, 'dst': dst, 'o': o, 'ptr': ptr, 'ty': t, 'v': p.value(t)}
    if op == 'cmpxchg':
        p.attrs(); p.eat('weak'); pt = p.type(); ptr = p.value(pt); p.need(','); t = p.type(); c = p.value(t); p.need(','); t2 = p.type(); return {'op': op, 'dst': dst, 'ptr': ptr, 'ty': t, 'cmp': c, 'new': p.value(t2)}
    if op == 'fence': return {'op': 'nop', 'dst': None}
    return {'op': 'unsupported', 'dst': dst, 'text': line}

def parse_body(m, fn):
    bl, cur = {}, None
    first = True; text = []
    for l in fn.text:                                  # join continuation lines (switch, invoke, landingpad)
        s = l.strip()
        if not s or s.startswith(';'): continue
        mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if mm: text.append(('L', mm[1].strip('"'))); continue
        if text and text[-1][0] == 'I' and (text[-1][2] or s.startswith('to label') or s.startswith('catch ') or s == 'cleanup' or s.startswith('filter ')):
            prev = text[-1][1] + ' ' + s; text[-1] = ('I', prev, text[-1][2] and s != ']' and not s.endswith(']'))
        else: text.append(('I', s, s.startswith('switch') and s.endswith('[')))
    for x in text:
        if x[0] == 'L': cur = Block(x[1]); bl[cur.name] = cur; continue
        if cur is None:
            cur = Block('0' if not fn.params and False else str(len([q for q in fn.params if re.match(r'%\d+$', q[1])]))); bl[cur.name] = cur
        s = re.sub(r'(, )?![\w.]+ !\d+', '', x[1])
        s = re.sub(r' #\d+', '', s)
        cur.ins.append(s)
    order = list(bl.values())
    for b in order:
        b.ins = [parse_ins(m, s) for s in b.ins]
        b.phis = [i for i in b.ins if i['op'] == 'phi']; b.ins = [i for i in b.ins if i['op'] != 'phi']
        t = b.ins[-1]
        b.succ = {'br': lambda: [t['to']], 'cbr': lambda: [t['a'], t['b']], 'switch': lambda: [t['default']] + [c[1] for c in t['cases']], 'invoke': lambda: [t['normal'], t['unwind']]}.get(t['op'], lambda: [])()
    return {'entry': order[0].name, 'b': bl}
