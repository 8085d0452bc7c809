"""Summaries of loops whose exit test is not decided: the effect of N iterations is hypothesised from one symbolic iteration and
verified by induction (the k-th iteration, started after the hypothesised effect of the first k, has the hypothesised effect)."""
import time, z3
from sym import *
from exec import *
import exec as E

def consts(t, acc=None, seen=None):
    """uninterpreted constants of a term"""
    acc = {} if acc is None else acc; seen = set() if seen is None else seen
    stack = [t]
    while stack:
        e = stack.pop()
        if not isinstance(e, z3.ExprRef) or e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[e.decl().name()] = e
        stack += e.children()
    return acc
def num(name):
    return int(name.rsplit('!', 1)[1]) if '!' in name and name.rsplit('!', 1)[1].isdigit() else -1

def has_uf(t):
    return any(z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() for e in subterms(t))
def subterms(t):
    seen, stack = set(), [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id()); yield e; stack += e.children()
class Bail(Exception): pass
class NewCells(Exception): pass
class Cand:
    def __init__(self, f, why): self.f, self.why = f, why

def summarise(x, st, f, depth, stop, work):
    li = x.loops(f.fn)
    I = f.block.ins[f.i]
    cand = [h for h in f.loops if f.block.name in li[h] and ((I['a'] in li[h]) != (I['b'] in li[h]))]
    h = min(cand, key=lambda q: len(li[q]))
    snap, cnt, _, flag, first = f.loops[h]
    if (f.fn.name, h) in x.forkloops: raise Fork(x.cases(st, I))
    if flag[0] == 'done': raise Infeasible()
    if flag[0] == 'final': raise Undecided(f'the exit of a loop in {f.fn.name[1:]} is not understood')
    flag[0] = 'done'
    # from the entry of the loop, or else after the iterations that were decided
    n = len(work)
    if first[1][0] == 'ok': raise Infeasible()                    # the summary from the entry covers this path
    if first[0] is not snap and first[1][0] == 0:
        try: Loop(x, first[0], h, li[h]).summarise(work); first[1][0] = 'ok'; raise Infeasible()
        except Undecided: del work[n:]; first[1][0] = 'no'
    d = x.discover
    try: Loop(x, snap, h, li[h]).summarise(work)
    except Undecided as e:
        del work[n:]; x.discover = d
        if time.time() > (x.deadline or 1e18): raise
        try: Loop(x, snap, h, li[h]).invariant(work)
        except Undecided as e2:
            x.discover = d
            if not tested_before(x, f, h, li[h]): raise Undecided(f'{e}; {e2}')
            # the number of iterations is decided by another test: case by case
            del work[n:]; flag[0] = 0; x.forkloops.add((f.fn.name, h)); raise Fork(x.cases(st, I))
    raise Infeasible()

def tested_before(x, f, h, body):
    """does every iteration pass another exit test of the loop (then decided) before the current block?"""
    bl = x.m.blocks(f.fn)['b']; b, seen = h, set()
    while b != f.block.name and b not in seen:
        seen.add(b); last = bl[b].ins[-1]
        if last['op'] == 'cbr' and (last['a'] in body) != (last['b'] in body): return True
        nxt = [s for s in bl[b].succ if s in body]
        if last['op'] == 'invoke': nxt = [last['normal']]
        if len(nxt) != 1: return False
        b = nxt[0]
    return False

class Loop:
    def __init__(self, x, snap, h, body):
        self.x, self.snap, self.h, self.body = x, snap, h, body
        self.D = len(snap.frames)
        s0 = snap.copy(); st_detach(snap, s0)
        f = s0.frames[-1]
        x.goto(s0, f, h)
        self.s0 = s0
        self.where = f.fn.name[1:]
        self.phis = [(p['dst'], p['ty']) for p in f.block.phis]
        for k in [q for q in f.loops if q not in x.loops(f.fn) or h not in x.loops(f.fn)[q]]: del f.loops[k]
    def state(self, vals, cells, logs=None):
        """a state at the header with the given phi values and memory cells"""
        s = self.s0.copy(); st_detach(self.s0, s)
        f = s.frames[-1]
        f.loops.pop(self.h, None)
        f.env.update(vals)
        for (o, off), (n, v) in cells.items():
            ob = self.x.wobj(s, o); ob.cells[off] = (n, v)
            for k in range(off + 1, off + n): ob.cells.pop(k, None)
        for (o, part), lg in (logs or {}).items():
            ob = self.x.wobj(s, o); l = list(ob.arr.log); l[part] = lg; ob.arr = Arr(ob.arr.parts, ob.arr.count, tuple(l))
        return s
    def iterate(self, s):
        """all outcomes of one iteration"""
        f0 = self.D
        def stop(st, f, to):
            if len(st.frames) == f0:
                if to == self.h:
                    # a flag with another known value: the next test of the loop is part of this iteration
                    for c, v in getattr(self, 'inv', {}).items():
                        b = conc(self.x.val(st, f.env, dict(self.phis)[c[1]], next(p for p in f.blocks['b'][to].phis if p['dst'] == c[1])['inc'][f.block.name]))
                        if isint(b) and b != v: return None
                    return ('back', to)
                if to not in self.body: return ('exit', to)
            return None
        self.n0 = len(s.pc)
        return list(self.x.run(s, self.D - 1, stop))
    def phi_back(self, st):
        f = st.frames[-1]; hb = f.blocks['b'][self.h]
        return {p['dst']: self.x.val(st, f.env, p['ty'], p['inc'][f.block.name]) for p in hb.phis}
    def same(self, a, b):
        if a is b: return True
        if isint(a) and isint(b): return a == b
        if isint(a) != isint(b): return False
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and self.same(a.off, b.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if issym(a) and issym(b): return a.eq(b)
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        return False
    def dirty(self, st, single=False):
        """memory cells of older objects that the iteration changed, and changed slot logs"""
        cells, logs = set(), set()
        for oid, o0 in self.s0.objs.items():
            o1 = st.objs.get(oid)
            if o1 is o0 or o1 is None: continue
            if o1.freed != o0.freed: raise Undecided('a loop frees older memory in ' + self.where)
            for off in set(o0.cells) | set(o1.cells):
                c0, c1 = o0.cells.get(off), o1.cells.get(off)
                if c0 is c1: continue
                if c1 is None and any(off - k in o1.cells and o1.cells[off - k][0] > k for k in range(1, 16)): continue      # part of a changed cell
                if c0 is None or c1 is None or c0[0] != c1[0] or not self.same(c0[1], c1[1]): cells.add((oid, off, (c1 or c0)[0]))
            if not single and o1.pts is not o0.pts and not (len(o1.pts) == len(o0.pts) and all(self.samept(p, q) for p, q in zip(o0.pts, o1.pts))):
                raise Undecided('a loop changes a single instance in ' + self.where)
            if o1.arr is not None:
                if o0.arr is None: logs |= {(oid, p) for p in range(len(o1.arr.parts)) if o1.arr.log[p]}
                else: logs |= {(oid, p) for p in range(len(o1.arr.parts)) if o1.arr.log[p] is not o0.arr.log[p] and not self.same(o1.arr.log[p], o0.arr.log[p])}
        return cells, logs
    def samept(self, p, q): return p is q or (p.off == q.off and self.same(p.live, q.live) and self.same(p.val, q.val) and self.same(p.ty, q.ty))
    def freshlike(self, v, w, name):
        if isinstance(v, Ptr): return Ptr(v.obj, fresh(name, 64))
        return fresh(name, w)
    def width(self, ty):
        ty = self.x.m.resolve(ty)
        if ty[0] == 'i': return ty[1]
        if ty[0] == 'ptr': return 64
        if ty[0] in FLOATS: return FLOATS[ty[0]]
        raise Undecided('loop variable')

    def discover(self):
        x, s0 = self.x, self.s0
        env = s0.frames[-1].env
        self.init = {('phi', d): (env[d], self.width(t)) for d, t in self.phis}
        mk = sym._n[0]
        for rnd in range(10):
            self.sy = {}
            for c, (v, w) in self.init.items():
                if isinstance(v, FnPtr): raise Undecided('loop variable is a function')
                self.sy[c] = self.freshlike(v, w, 'lv')
            s = self.state({c[1]: v for c, v in self.sy.items() if c[0] == 'phi'}, {(c[1], c[2]): (c[3], v) for c, v in self.sy.items() if c[0] == 'cell'})
            base = {oid: o for oid, o in s.objs.items()}
            self.sbase = s.copy(); st_detach(s, self.sbase)
            outs = self.iterate(s)
            new = set(); self.logs = set()
            save, self.s0 = self.s0, self.sbase
            try:
                for r, t in outs:
                    if isinstance(r, tuple) and r[0] == 'back':
                        cs, ls = self.dirty(t); new |= cs; self.logs |= ls
                        for oid, o in t.objs.items():
                            if oid not in base and o.kind == HEAP and not o.freed and o.alloc != 'exc': raise Undecided('a loop allocates memory that survives the iteration in ' + self.where)
            finally: self.s0 = save
            add = [c for c in new if ('cell',) + c not in self.init]
            if not add: break
            for oid, off, n in add:
                c = x.getobj(s0, oid).cells.get(off)
                if c is None or c[0] != n:
                    v = x.assemble(s0, x.getobj(s0, oid), off, n)
                else: v = c[1]
                if v is UNDEF: v = fresh('undef', 8 * n)
                self.init[('cell', oid, off, n)] = (v, 8 * n)
        else: raise Undecided('loop variables of ' + self.where)
        self.outs = outs
        self.backs = [t for r, t in outs if isinstance(r, tuple) and r[0] == 'back']
        if not self.backs: raise Undecided('a loop without a second iteration in ' + self.where)
        # classify
        self.kind = {}
        for c, (v0, w) in self.init.items():
            xs = self.sy[c]; steps = set()
            for t in self.backs:
                b = self.back_value(t, c)
                steps.add(self.step(xs, b, w))
            if len(steps) == 1 and None not in steps:
                k = steps.pop(); self.kind[c] = ('inv',) if k == 0 else ('aff', k)
            else: self.kind[c] = ('other',)
    def back_value(self, t, c):
        if c[0] == 'phi':
            return self.phi_back(t)[c[1]]
        o = self.x.getobj(t, c[1]); q = o.cells.get(c[2])
        return q[1] if q is not None and q[0] == c[3] else self.x.assemble(t, o, c[2], c[3])
    def step(self, a, b, w):
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or b.obj != a.obj: return None
            a, b, w = a.off, b.off, 64
        if not (isint(b) or issym(b)) or not (isint(a) or issym(a)): return None
        if self.same(a, b): return 0
        if w == 1 or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef): return None
        d = conc(z3.simplify(bv(b, w) - bv(a, w)))
        if isint(d): return d
        # symbolic but invariant step (an instance size)
        cs = consts(d)
        if not any(num(n) >= 0 and any(n == q for q in self.symnames()) for n in cs) and not any(num(n) > self.mark for n in cs): return ('sym', d)
        return None
    def symnames(self):
        r = set()
        for v in self.sy.values(): r |= set(consts(v.off if isinstance(v, Ptr) else v))
        return r
    def at(self, c, k):
        """closed form of an affine loop variable after k iterations"""
        v, w = self.init[c]; kd = self.kind[c]
        if kd[0] == 'inv': return v
        st = kd[1][1] if isinstance(kd[1], tuple) else kd[1]
        if isinstance(v, Ptr): return Ptr(v.obj, self.lin(v.off, st, k, 64))
        return self.lin(v, st, k, w)
    def lin(self, v, st, k, w):
        kw = resize(k, 64, w)
        if isint(st) and st == (1 << w) - 1: return binop('sub', w, v, kw)
        return binop('add', w, v, binop('mul', w, kw, st))
    def delta(self, t): return t.pc[self.n0:]

    def trip(self):
        """candidates for the number of iterations, from the comparisons that the paths decide"""
        x = self.x
        k = fresh('k', 64)
        sub = []
        for c, v in self.sy.items():
            if self.kind[c][0] == 'other': continue
            a = v.off if isinstance(v, Ptr) else v
            b = self.at(c, k); b = b.off if isinstance(b, Ptr) else b
            sub.append((a, bv(b, a.size()) if not isinstance(a, z3.BoolRef) else boolv(b)))
        zero = [(k, z3.BitVecVal(0, 64))]; one = [(k, z3.BitVecVal(1, 64))]
        others = [n for c, v in self.sy.items() if self.kind[c][0] == 'other' for n in consts(v.off if isinstance(v, Ptr) else v)]
        cands, seen = [], set()
        atoms = []
        for r, t in self.outs:
            for c in t.pc[self.n0:]:
                q = [c]
                while q:
                    a = q.pop()
                    if z3.is_not(a) or z3.is_and(a) or z3.is_or(a): q += a.children(); continue
                    if a.get_id() in seen: continue
                    seen.add(a.get_id()); atoms.append(a)
        for a in atoms:
            if a.num_args() != 2 or not isinstance(a.arg(0), z3.BitVecRef): continue
            nm = consts(a)
            if any(n in others for n in nm) or any(num(n) > self.mark2 for n in nm): continue
            A, B = [z3.substitute(q, *sub) for q in (a.arg(0), a.arg(1))]
            w = A.size()
            def at(e, kk): return z3.simplify(z3.substitute(e, (k, kk)))
            a0, b0 = at(A, z3.BitVecVal(0, 64)), at(B, z3.BitVecVal(0, 64))
            sA = conc(z3.simplify(z3.substitute(A, (k, k + 1)) - A)); sB = conc(z3.simplify(z3.substitute(B, (k, k + 1)) - B))
            if not isint(sA): sA = self.polystep(A, k)
            if not isint(sB): sB = self.polystep(B, k)
            if sA is None or sB is None: continue
            if isint(sA) and isint(sB) and signed(sA, w) == signed(sB, w): continue
            ext = lambda e: z3.ZeroExt(64 - w, e) if w < 64 else e
            base = []
            d1, d2 = z3.simplify(b0 - a0), z3.simplify(a0 - b0)
            for s, d in ((sA, d1), (sB, d2), (sB, d1), (sA, d2)):
                if isint(s) and s == 0: continue
                base.append((s, d))
            for s, d in base:
                if isint(s):
                    s2 = abs(signed(s, w))
                    if signed(s, w) < 0: d = z3.simplify(-d)
                    if s2 != 1:
                        d = z3.UDiv(d, z3.BitVecVal(s2, w))
                    forms = [d, d + 1]
                else:
                    q = x.polydiv(self.s0, d, s)
                    if q is None:
                        q = x.polydiv(self.s0, -d, s)
                    if q is None: continue
                    forms = [bv(q, 64)]
                cond0 = z3.substitute(z3.substitute(a, *sub), (k, z3.BitVecVal(0, 64)))
                for fm in forms:
                    e = ext(fm)
                    for g in (e, z3.If(cond0, e, z3.BitVecVal(0, 64)), z3.If(cond0, z3.BitVecVal(0, 64), e)):
                        cands.append((a, sub, k, g))
        return cands
    def polystep(self, e, k):
        if e.size() != 64: return None
        try: d = padd(self.x.poly(self.s0, z3.simplify(z3.substitute(e, (k, k + 1)))), self.x.poly(self.s0, z3.simplify(e)), -1)
        except Undecided: return None
        r = unpoly(d)
        if isint(r): return r
        if k.decl().name() in consts(r): return None
        return r
    def choose(self):
        """a count N such that the deciding comparison has one value before N and the other at N"""
        x, s0 = self.x, self.s0
        done = set()
        for a, sub, k, N in self.trip():
            c = z3.substitute(a, *sub)
            cN = z3.substitute(c, (k, N))
            key = (c.get_id(), N.get_id())
            if key in done: continue
            done.add(key)
            for pos in (True, False):
                go, goN = (c, cN) if pos else (z3.Not(c), z3.Not(cN))
                try:
                    if x.sv.check(s0.pc, goN) == 'unsat' and x.sv.check(s0.pc, z3.ULT(k, N), z3.Not(go)) == 'unsat' and x.sv.check(s0.pc, N != 0) == 'sat':
                        n = conc(z3.simplify(N))
                        return n
                except Undecided: continue
        return None

    def summarise(self, work):
        x, s0 = self.x, self.s0
        self.mark = sym._n[0]
        x.discover += 1
        try: self.discover()
        finally: x.discover -= 1
        self.mark2 = sym._n[0]
        # conditions that do not depend on the iteration are decided before the loop
        if len(self.backs) > 1:
            for t in self.backs:
                for c in t.pc[self.n0:]:
                    if any(num(n) > self.mark for n in consts(c)): continue
                    if x.decide(s0, c) is None:
                        for g in (c, z3.Not(c)):
                            s = self.snap.copy(); st_detach(self.snap, s); x.assume(s, g); s.pend = self.h; work.append(s)
                        return
        self.mark2 = max([num(n) for v in self.sy.values() for n in consts(v.off if isinstance(v, Ptr) else v)], default=0)
        N = self.choose()
        if N is None: raise Undecided(f'the number of iterations of a loop in {self.where} is not found')
        self.N = N
        if isint(N) and N == 0: raise Undecided('a loop with a decided exit in ' + self.where)
        # phase A: the effect of iteration k, with unknown effects of the iterations before
        k = self.k = fresh('k', 64)
        acc = {}
        vals, cells = {}, {}
        for c, (v, w) in self.init.items():
            if self.kind[c][0] == 'other':
                q = fresh('acc', w) if not isinstance(v, Ptr) else Ptr(v.obj, fresh('acc', 64)); acc[c] = q
            else: q = self.at(c, k)
            (vals if c[0] == 'phi' else cells)[c[1] if c[0] == 'phi' else (c[1], c[2])] = q if c[0] == 'phi' else (c[3], q)
        m0 = sym._n[0]; self.accsyms = acc_names(acc)
        prev = {}
        logs = {}
        for key in self.logs:
            o = s0.objs[key[0]]
            if o.arr is None:
                ob = self.sbase_arr(key[0])
                s0o = x.wobj(s0, key[0]); s0o.arr = Arr(ob.parts, ob.count, tuple(() for _ in ob.parts))
            lg = s0.objs[key[0]].arr.log[key[1]]
            nm = f'prev{fresh("p", 64).decl().name()}'
            prev[key] = nm
            logs[key] = lg + (('fn', 0, (1 << 64) - 1, (lambda nm: lambda j: (uf(nm + 'l', z3.BoolSort(), j), uf(nm + 'v', z3.BitVecSort(64), j)))(nm)),)
        x.discover += 1
        try:
            # first without the unknown prefix: which slots are read before being written by the same iteration is settled in phase B
            s = self.state(vals, cells)
            self.assume_k(s, k, N)
            outs = self.iterate(s)
        finally: x.discover -= 1
        backs = [t for r, t in outs if isinstance(r, tuple) and r[0] == 'back']
        if not backs: raise Undecided('no further iteration of a loop in ' + self.where)
        m1 = sym._n[0]
        conds = [zand(*[c for c in t.pc[self.n0:]]) for t in backs]
        if len(backs) == 1: guards = [1]
        else: guards = conds
        # accumulators
        self.acc = {}
        for c, q in acc.items():
            v0, w = self.init[c]
            bvals = [self.back_value(t, c) for t in backs]
            self.acc[c] = self.classify(c, q, v0, w, bvals, guards, m0, k)
        # slot effects
        eff = {}
        for key in self.logs:
            o0 = s0.objs[key[0]].arr.log[key[1]]
            es = []
            for t, g in zip(backs, guards):
                lg = t.objs[key[0]].arr.log[key[1]]
                if lg[:len(o0)] != o0: 
                    # the last older entry may have been replaced by one of the same index
                    raise Undecided('effects of a loop on instances in ' + self.where)
                for e in lg[len(o0):]:
                    if e[0] != 'at': raise Undecided('a loop inside a loop over instances in ' + self.where)
                    es.append((zand(g, e[1]), e[2], e[3], e[4]))
            eff[key] = self.affine(es, k, backs, N)
        self.eff = eff
        self.sk = {n: None for n in range(m0 + 1, m1 + 1)}
        self.skn = (m0, m1)
        names = set(acc_names(acc))
        for key, es in eff.items():
            for (a, s_, g, l, v) in es:
                for tm in (g, l, v):
                    if issym(tm) and any(n in names for n in consts(tm)): raise Undecided('instances depend on an accumulated value in ' + self.where)
        # phase B: induction step with the exact effect of the first k iterations, obligations on
        logsB = {key: s0.objs[key[0]].arr.log[key[1]] + (self.entry(key, k),) for key in eff}
        vB, cB = dict(vals), dict(cells)
        s = self.state(vals, cells, logsB)
        self.assume_k(s, k, N)
        accB = {}
        for c in acc:
            q = self.acc_value(s, c, k)
            accB[c] = q
            self.set(s, c, q)
        data = self.datafact(conds)
        if data is not None and len(outs) > len(backs): E.add_fact(x, s, 0, k, data)
        E.add_index(x, s, k)
        m2 = sym._n[0]
        outsB = self.iterate(s)
        backsB = [t for r, t in outsB if isinstance(r, tuple) and r[0] == 'back']
        for t in backsB: self.verify(t, k, m0, m2, conds, backs)
        for r, t in outsB:
            if isinstance(r, tuple) and r[0] == 'back': continue
            if r == 'throw': t.pend = ('throw', t.thrown)
            elif r == 'stop': raise Undecided('stop in a loop')
            elif isinstance(r, tuple) and r[0] == 'exit': t.pend = r[1]
            else: raise Undecided('loop outcome')
            work.append(t)
        # the end of the loop: the header after N iterations
        vals, cells = {}, {}
        for c, (v, w) in self.init.items():
            if self.kind[c][0] == 'other': continue
            q = self.at(c, bv(N, 64))
            (vals if c[0] == 'phi' else cells)[c[1] if c[0] == 'phi' else (c[1], c[2])] = q if c[0] == 'phi' else (c[3], q)
        s = self.state(vals, cells, {key: s0.objs[key[0]].arr.log[key[1]] + (self.entry(key, bv(N, 64)),) for key in eff})
        for c in acc: self.set(s, c, self.acc_value(s, c, bv(N, 64)))
        if data is not None: E.add_fact(x, s, 0, N, data)
        s.frames[-1].loops[self.h] = (s, 0, self.h, ['final'], (s, ['no']))
        work.append(s)
        x.summaries.append(f'{self.where}: {len(self.kind)} loop variables, {sum(len(e) for e in eff.values())} instance effects per iteration, {len(acc)} accumulators')
    # ------------------------------------------------------------ loops over an inductive invariant
    def invariant(self, work):
        """loops that change no instance and are not counted: the invariant is inferred (conjunctions of candidates, Houdini) and verified"""
        x, s0 = self.x, self.s0
        env = s0.frames[-1].env
        self.init = {('phi', d): (env[d], self.width(t)) for d, t in self.phis}
        self.noinv = set(); self.single = {}; self.mark0 = sym._n[0]
        for rnd in range(16):
            try: self.infer(); break
            except NewCells as e:
                for oid, off, n in e.args[0]:
                    c = x.getobj(s0, oid).cells.get(off)
                    v = c[1] if c is not None and c[0] == n else x.assemble(s0, x.getobj(s0, oid), off, n)
                    self.init[('cell', oid, off, n)] = (v, 8 * n)
        else: raise Undecided('loop variables of ' + self.where)
        if __import__('os').environ.get('DV_INV'): print('INV', self.where[-30:], list(self.init), {c: (d[1] if d[0]=='ptr' else 'val') for c, d in self.defs.items()}, [c.why for c in self.cand])
        # the invariant is verified with all obligations of the body
        s, sy = self.havoc()
        outs = self.iterate(s)
        for r, t in outs:
            if isinstance(r, tuple) and r[0] == 'back':
                try: bad = self.undone(t, sy)
                except NewCells: bad = True
                if bad: raise Undecided('the induction over a loop in ' + self.where)
                continue
            if r == 'throw': t.pend = ('throw', t.thrown)
            elif r == 'stop': raise Undecided('stop in a loop')
            elif isinstance(r, tuple) and r[0] == 'exit': t.pend = r[1]
            else: raise Undecided('loop outcome')
            work.append(t)
        x.summaries.append(f'{self.where}: invariant of {len(self.defs)} equations and {len(self.cand)} conditions over {len(self.init)} loop variables')
    def ints(self): return [c for c, (v, w) in self.init.items() if not isinstance(v, (Ptr, FnPtr)) and v is not UNDEF and w in (32, 64) and self.inv.get(c) is None and not (issym(v) and has_uf(v))]
    def stride(self, obj):
        o = self.x.getobj(self.s0, obj)
        if o.arr is None: return None
        r = None
        for _, a in o.arr.parts: r = ATOMS[a] if r is None else r + ATOMS[a]
        return r
    def infer(self):
        x, s0 = self.x, self.s0
        self.inv = {c: conc(v) for c, (v, w) in self.init.items() if c[0] == 'phi' and w in (1, 8) and isint(conc(v)) and c not in self.noinv}; self.defs = {}; self.cand = []
        # a pointer into an array of instances is expected at a multiple of the instance size, given by another variable
        options = {}
        for c, (v, w) in self.init.items():
            if not isinstance(v, Ptr) or v.obj is None: continue
            st = self.stride(v.obj)
            if st is None:
                o = [('same', b) for b, (u, _) in self.init.items() if b != c and isinstance(u, Ptr) and u.obj == v.obj and b not in self.defs and self.equal(s0, u.off, v.off, 64)]
                options[c] = o
                if o: self.defs[c] = o.pop(0)
                continue
            o = []
            for i in self.ints():
                vi, wi = self.init[i]
                q = resize(bv(vi, wi), wi, 64)
                if x.poly(s0, bv(v.off, 64)) == x.poly(s0, z3.simplify(q * st)): o.append((i, st))
            options[c] = o
            if o: self.defs[c] = ('ptr',) + o.pop(0)
        # order between the integers and their first values
        iv = self.ints()
        z = lambda c: (lambda m: bv(m[c], self.init[c][1]))
        z0 = lambda c: (lambda m: bv(self.init[c][0], self.init[c][1]))
        def add(f, why):
            if all(f0.why != why for f0 in self.cand):
                g = Cand(f, why)
                try:
                    if x.proved(s0, g.f({c: v for c, (v, w) in self.init.items()})): self.cand.append(g); return True
                except Undecided: pass
            return False
        for a in iv:
            for b in iv:
                if self.init[a][1] != self.init[b][1]: continue
                if a != b:
                    add(lambda m, a=a, b=b: z3.ULT(z(a)(m), z(b)(m)), ('lt', a, b)) or add(lambda m, a=a, b=b: z3.ULE(z(a)(m), z(b)(m)), ('le', a, b))
                add(lambda m, a=a, b=b: z3.ULE(z(a)(m), z0(b)(m)), ('le0', a, b)); add(lambda m, a=a, b=b: z3.ULE(z0(b)(m), z(a)(m)), ('ge0', a, b))
        for c, (v, w) in self.init.items():
            if w == 8 and c not in self.inv and isint(v): add(lambda m, c=c, v=v: bv(m[c], 8) == v, ('const', c))
        for rnd in range(40):
            s, sy = self.havoc(False)
            x.discover += 1
            try: outs = self.iterate(s)
            finally: x.discover -= 1
            backs = [t for r, t in outs if isinstance(r, tuple) and r[0] == 'back']
            if not backs: raise Undecided('a loop without a second iteration in ' + self.where)
            bad = []
            for t in backs: bad += self.undone(t, sy, True)
            if bad:
                for b in set(bad):
                    if isinstance(b, Cand): self.cand = [c for c in self.cand if c is not b]
                    elif options.get(b): o = options[b].pop(0); self.defs[b] = o if o[0] == 'same' else ('ptr',) + o
                    else: self.defs.pop(b, None)
                continue
            n = len(self.cand), len(self.defs)
            self.learn(backs, sy, add)
            if (len(self.cand), len(self.defs)) == n: return
        raise Undecided('no invariant of a loop in ' + self.where)
    def value(self, c, m):
        """the value of a defined variable for the values m of the others"""
        d = self.defs[c]
        if d[0] == 'same': return m[d[1]]
        if d[0] == 'ptr':
            wi = self.init[d[1]][1]
            return Ptr(self.init[c][0].obj, z3.simplify(resize(bv(m[d[1]], wi), wi, 64) * d[2]) if not isint(m[d[1]]) or True else 0)
        return d[1](m)
    def havoc(self, index=True):
        """the header in an arbitrary iteration"""
        x = self.x; m = {}
        for c, (v, w) in self.init.items():
            if v is UNDEF or isinstance(v, FnPtr) or self.inv.get(c) is not None: m[c] = v
            elif c not in self.defs: m[c] = self.freshlike(v, w, 'lv')
        for c in self.init:
            if c in self.defs: m[c] = self.value(c, m)
        s = self.state({c[1]: v for c, v in m.items() if c[0] == 'phi'}, {(c[1], c[2]): (c[3], v) for c, v in m.items() if c[0] == 'cell'})
        for (kind, oid, at), (ty, live) in self.single.items():
            ob = x.wobj(s, oid); l = fresh('live', 1) if live is None else live; v = fresh('val', 64)
            if kind == 'pt': ob.pts = tuple(p for p in ob.pts if p.off != dict(at)) + (E.Pt(dict(at), ty, l, v),)
            else:
                if ob.arr is None: ob.arr = Arr(ty[0], ty[1], tuple(() for _ in ty[0]))
                lg = list(ob.arr.log); lg[at[0]] = lg[at[0]] + (('at', 1, at[1], l, v),); ob.arr = Arr(ob.arr.parts, ob.arr.count, tuple(lg))
        s.approx = s.approx or 'an inferred invariant of a loop in ' + self.where
        for g in self.cand: x.assume(s, g.f(m))
        for c in (self.ints() if index else []):
            if c not in self.defs: E.add_index(x, s, z3.simplify(resize(bv(m[c], self.init[c][1]), self.init[c][1], 64)), True)
        self.n0 = len(s.pc); self.sbase = s.copy(); st_detach(s, self.sbase)
        return s, m
    def undone(self, t, sy, discover=False):
        """what an iteration does not preserve"""
        x = self.x; bad = []
        m = {c: self.back_value(t, c) for c in self.init}
        m = {c: fresh('undef', self.init[c][1]) if v is UNDEF else v for c, v in m.items()}
        save, self.s0 = self.s0, self.sbase
        try: cs, ls = self.dirty(t, True)
        finally: self.s0 = save
        self.singles(t, ls)
        new = [c for c in cs if ('cell',) + c not in self.init]
        if new: raise NewCells(new)
        for c, (v, w) in self.init.items():
            if c in self.inv:
                if not self.equal(t, m[c], v, w): self.noinv.add(c); raise NewCells([])
                continue
            if isinstance(v, FnPtr) and not self.same(v, m[c]): raise Undecided('loop variable of ' + self.where)
            if isinstance(v, Ptr) and not (isinstance(m[c], Ptr) and m[c].obj == v.obj): raise Undecided('loop variable of ' + self.where)
            if c in self.defs:
                want = self.value(c, m); b = m[c]
                if isinstance(want, Ptr): want, b, w = want.off, b.off, 64
                if not self.equal(t, b, want, w): bad.append(c)
        for g in self.cand:
            try: ok = x.proved(t, g.f(m))
            except Undecided: ok = False
            if not ok: bad.append(g)
        return bad
    def singles(self, t, ls):
        """instances at fixed places that the iteration changes: their value is arbitrary afterwards, their lifetime is kept or arbitrary"""
        x = self.x; again = False
        def note(key, ty, l0, l1):
            nonlocal again
            old = self.single.get(key)
            keep = l0 == l1 if isint(l0) and isint(l1) else self.proves(t, boolv(l0) == boolv(l1))
            if old is None: self.single[key] = (ty, l0 if keep else None); again = True
            elif old[1] is not None and not keep: self.single[key] = (ty, None); again = True
        for oid, o0 in self.sbase.objs.items():
            o1 = t.objs.get(oid)
            if o1 is None or o1 is o0: continue
            if o1.pts is not o0.pts:
                for q in o0.pts + o1.pts:
                    a = [p for p in o0.pts if p.off == q.off]; b = [p for p in o1.pts if p.off == q.off]
                    if len(a) > 1 or len(b) > 1 or a and b and not bv(a[0].ty, 64).eq(bv(b[0].ty, 64)): raise Undecided('a loop changes the type of an instance in ' + self.where)
                    if a and b and self.samept(a[0], b[0]): continue
                    if any(num(n) > self.mark0 for m in q.off for k in m for n in consts(E.ATOMS[k])): raise Undecided('a loop without a count changes instances in ' + self.where)
                    note(('pt', oid, tuple(sorted(q.off.items()))), q.ty, a[0].live if a else 0, b[0].live if b else 0)
            for _, part in [k for k in ls if k[0] == oid]:
                l0 = o0.arr.log[part] if o0.arr is not None else (); l1 = o1.arr.log[part]; n = 0
                while n < min(len(l0), len(l1)) and (l0[n] is l1[n] or self.same(l0[n], l1[n])): n += 1
                ends = {}
                for e in l0[n:] + l1[n:]:
                    if e[0] != 'at' or not (isint(e[1]) and e[1]) or any(num(c) > self.mark0 for c in consts(bv(e[2], 64))): raise Undecided('a loop without a count changes instances in ' + self.where)
                    ends[z3.simplify(bv(e[2], 64))] = e[2]
                if len(ends) != 1: raise Undecided('a loop without a count changes instances in ' + self.where)
                i = next(iter(ends))
                key = ('ar', oid, (part, i))
                note(key, (o1.arr.parts, o1.arr.count), x.query(t, l0, i)[0], x.query(t, l1, i)[0])
        if again: raise NewCells([])
    def learn(self, backs, sy, add):
        """candidates that the effect of an iteration suggests"""
        x = self.x
        for t in backs:
            m = {c: self.back_value(t, c) for c in self.init}
            m = {c: fresh('undef', self.init[c][1]) if v is UNDEF else v for c, v in m.items()}
            iv = [c for c in self.ints() if c not in self.defs]
            # terms that are the new value of a variable
            holder = [(bv(m[c], self.init[c][1]), c) for c in iv if issym(m[c])]
            X = {c: z3.BitVec('X' + str(k), self.init[c][1]) for k, c in enumerate(iv)}
            for c in self.init:
                v, w = self.init[c]
                if v is UNDEF or isinstance(v, (Ptr, FnPtr)) or c in self.defs or not issym(m[c]) or w == 1: continue
                sub = [(e, X[i]) for e, i in holder if i != c and not z3.is_const(bv(m[c], w))]
                e = z3.simplify(bv(m[c], w)); q = z3.substitute(e, *[(z3.simplify(p), r) for p, r in sub])
                if q.eq(e) or any(n == str(z3.simplify(bv(sy[i], self.init[i][1]))) for n in consts(q) for i in iv): continue
                f = lambda mm, q=q: z3.substitute(q, *[(X[i], bv(mm[i], self.init[i][1])) for i in iv])
                z0 = {k: a for k, (a, b) in self.init.items()}
                if c in iv: add(lambda mm, f=f, c=c: bv(mm[c], self.init[c][1]) == f(mm), ('eq', c, q.sexpr()))
                elif self.equal(self.s0, v, f(z0), w): self.defs[c] = ('val', f)
            # an integer that an iteration needs below a bound does not pass it
            for c in iv:
                xc = z3.simplify(bv(sy[c], self.init[c][1]))
                for a in t.pc[self.n0:]:
                    a = z3.simplify(a)
                    if z3.is_not(a) and a.arg(0).decl().kind() == z3.Z3_OP_ULEQ and a.arg(0).arg(1).eq(xc):
                        T = a.arg(0).arg(0)
                        if not any(num(n) > self.mark0 for n in consts(T)): add(lambda mm, c=c, T=T: z3.ULE(bv(mm[c], self.init[c][1]), T), ('below', c, T.sexpr()))
            # what the path has tested about a value that a variable takes over
            for c in iv:
                if self.same(m[c], sy[c]): continue
                e = z3.simplify(bv(m[c], self.init[c][1]))
                if z3.is_bv_value(e): continue
                for a in t.pc[self.n0:]:
                    q = z3.substitute(z3.simplify(a), (e, X[c]))
                    if q.eq(z3.simplify(a)) or any(n == d for n in consts(q) for i in iv for d in consts(bv(sy[i], self.init[i][1]))): continue
                    add(lambda mm, q=q, c=c: z3.Or(bv(mm[c], self.init[c][1]) == bv(self.init[c][0], self.init[c][1]), z3.substitute(q, (X[c], bv(mm[c], self.init[c][1])))), ('test', c, q.sexpr()))
    def sbase_arr(self, oid):
        for t in self.backs:
            o = t.objs[oid]
            if o.arr is not None: return o.arr
    def set(self, s, c, q):
        if c[0] == 'phi': s.frames[-1].env[c[1]] = q
        else: self.x.wobj(s, c[1]).cells[c[2]] = (c[3], q)
    def assume_k(self, s, k, N):
        self.x.assume(s, z3.ULT(k, bv(N, 64)))
        if not self.x.sat(s):
            if not self.x.sat(self.s0): raise Infeasible()
            raise Undecided('the number of iterations of a loop in ' + self.where)
        self.n0 = len(s.pc)
    def datafact(self, conds):
        """the condition under which an iteration goes on, as a function of its number"""
        c = zor(*conds)
        if isint(c): return None
        if self.x.proved_under(self.s0, z3.ULT(self.k, bv(self.N, 64)), c): return None
        return lambda j: boolv(self.inst(c, j))
    def inst(self, t, j):
        """a term of iteration k as a term of iteration j"""
        if not issym(t): return t
        m0, m1 = self.skn
        sub = [(self.k, bv(j, 64))]
        for n, e in consts(t).items():
            q = num(n)
            if m0 < q <= m1: sub.append((e, uf(n + '@', e.sort(), bv(j, 64))))
        return conc(z3.substitute(t, *sub))
    def affine(self, es, k, backs, N):
        """effects as (a, s, guard, live, value): the slot a + s*k changes"""
        r = []
        for g, idx, l, v in es:
            i0 = z3.simplify(z3.substitute(bv(idx, 64), (k, z3.BitVecVal(0, 64))))
            for s_ in (1, -1):
                want = i0 + k if s_ == 1 else i0 - k
                ok = True
                for t in backs:
                    if self.x.sv.check(t.pc, bv(idx, 64) != want) != 'unsat': ok = False; break
                if ok: break
            else: raise Undecided('the instances that a loop visits, in ' + self.where)
            if any(num(n) > self.skn_lo(k) for n in consts(i0)): raise Undecided('the first instance that a loop visits, in ' + self.where)
            r = [e for e in r if not (e[0].eq(i0) and e[1] == s_ and isint(g) and g)]
            r.append((i0, s_, g, l, v))
        return r
    def skn_lo(self, k): return num(k.decl().name())
    def entry(self, key, K):
        """log entry: the effect of the first K iterations"""
        es = self.eff[key]
        def f(j, es=es, K=bv(K, 64)):
            # the last writer wins
            cs = []
            for a, s_, g, l, v in es:
                it = j - a if s_ == 1 else a - j
                cs.append((zand(z3.ULT(it, K), self.inst(g, it)), it, self.inst(l, it), self.inst(v, it)))
            if len(cs) == 1: return cs[0]
            return cs
        return ('loop', f)
    def classify(self, c, q, v0, w, bvals, guards, m0, k):
        x, s0 = self.x, self.s0
        if isinstance(q, Ptr) or any(not (isint(b) or issym(b)) for b in bvals): return ('havoc',)
        if v0 is UNDEF: return ('havoc',)
        b = bvals[-1]
        for g, bb in list(zip(guards, bvals))[:-1]: b = ite(g, bb, b, w)
        if isint(b) or any(o in self.accsyms and not (issym(q) and o == q.decl().name()) for o in consts(b)): return ('havoc',)
        fd = self.fold(q, bv(b, w) if w != 1 else boolv(b), k) if w > 1 else None
        zero, one = (z3.BoolVal(False), z3.BoolVal(True)) if w == 1 else (z3.BitVecVal(0, w), z3.BitVecVal(1, w))
        bz = bv(b, w) if w != 1 else boolv(b)
        v0z = bv(v0, w) if w != 1 else boolv(v0)
        b0, b1 = z3.simplify(z3.substitute(bz, (q, zero))), z3.simplify(z3.substitute(bz, (q, one)))
        try:
            if x.sv.check(s0.pc, z3.And(v0z != zero, v0z != one)) != 'unsat': return fd or ('havoc',)
            boolish = lambda t: x.sv.check(s0.pc, z3.And(t != zero, t != one)) == 'unsat'
            if boolish(b0) and boolish(b1):
                if x.sv.check(s0.pc, b0 != zero) == 'unsat': return ('all', b1 != zero)
                if x.sv.check(s0.pc, b1 != one) == 'unsat': return ('any', b0 != zero)
        except Undecided: pass
        return fd or ('havoc',)
    def fold(self, q, b, k):
        """shape of acc := G(acc, data of iteration k) and its data terms"""
        params = []; cache = {}
        def has(e):
            if e.get_id() in cache: return cache[e.get_id()]
            r = e.eq(q) or any(has(c) for c in e.children()); cache[e.get_id()] = r; return r
        def shape(e):
            if e.eq(q): return '@'
            if not has(e):
                if isinstance(e, z3.BitVecNumRef): return e.sexpr()
                if not isinstance(e, (z3.BitVecRef, z3.BoolRef)): raise Bail()
                for i, p in enumerate(params):
                    if p.eq(e): return f'${i}'
                params.append(e); return f'${len(params) - 1}:{e.sort()}'
            return f'({e.decl().name()}{list(e.params()) if e.params() else ""} ' + ' '.join(shape(c) for c in e.children()) + ')'
        try: return ('fold', shape(z3.simplify(b)), params)
        except Bail: return None
    def fold_value(self, s, kd, v0, w, K):
        x = self.x; r = fresh('fold', w); K = bv(K, 64); v0 = bv(v0, w)
        x.assume(s, z3.Implies(K == 0, r == v0))
        data = lambda j: [self.inst(p, j) for p in kd[2]]
        for key, u0, L, d2, r2 in s.folds:
            if key != kd[1] or u0.size() != w: continue
            wit = fresh('wit', 64)
            x.assume(s, z3.Or(v0 != u0, K != L, z3.And(z3.ULT(wit, K), z3.Or(*[p != q for p, q in zip(data(wit), d2(wit))])), r == r2))
            E.add_index(x, s, wit)
        if __import__("os").environ.get("DV_FOLD"): print("FOLD", kd, v0, K, r)
        s.folds = s.folds + ((kd[1], v0, K, data, r),)
        return r
    def acc_value(self, s, c, K):
        x = self.x
        kd = self.acc[c]; v0, w = self.init[c]
        if isinstance(v0, Ptr):
            s.approx = s.approx or 'an unknown pointer in ' + self.where
            return Ptr(v0.obj, fresh('any', 64))
        if kd[0] == 'havoc':
            s.approx = s.approx or 'an accumulator of unknown value in ' + self.where
            return fresh('any', w)
        if kd[0] == 'fold': return self.fold_value(s, kd, v0, w, K)
        p = kd[1]; neg = kd[0] == 'any'
        v0b = boolv(v0) if w == 1 or isinstance(v0, z3.BoolRef) else bv(v0, w) != 0
        # B: all iterations so far satisfied p (or, for 'any', none did)
        B = fresh('all', 1)
        fn = (lambda j: z3.Not(boolv(self.inst(p, j)))) if neg else (lambda j: boolv(self.inst(p, j)))
        E.add_fact(x, s, 0, K, fn, B)
        wit = fresh('wit', 64)
        x.assume(s, z3.Or(B, z3.And(z3.ULT(wit, bv(K, 64)), z3.Not(fn(wit)))))
        E.add_index(x, s, wit)
        r = z3.Or(v0b, z3.Not(B)) if neg else z3.And(v0b, B)
        return conc(z3.simplify(r)) if w == 1 else conc(z3.simplify(z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))))
    def verify(self, t, k, m0, m2, conds, backs):
        """the iteration took the loop variables and instances to the hypothesised state after k + 1 iterations"""
        x = self.x
        ren = self.rename(t, m0, m2)
        for c, (v0, w) in self.init.items():
            b = self.back_value(t, c)
            if self.kind[c][0] == 'other':
                if self.acc[c][0] == 'havoc': continue
                continue                                             # b(q, k) was computed for an arbitrary previous value q
            want = self.at(c, k + 1)
            if isinstance(want, Ptr):
                if not isinstance(b, Ptr) or b.obj != want.obj: raise Undecided('loop variable of ' + self.where)
                b, want, w = b.off, want.off, 64
            if not self.equal(t, b, want, w): raise Undecided('loop variable of ' + self.where)
        base = self.s0
        cells, logs = None, None
        save = self.s0
        for key, es in self.eff.items():
            o0 = self.s0.objs[key[0]].arr.log[key[1]]
            lg = t.objs[key[0]].arr.log[key[1]]
            n = len(o0) + 1
            got = []
            for e in lg[n:]:
                if e[0] != 'at': raise Undecided('effects in ' + self.where)
                got = [q for q in got if not self.equal(t, q[2], e[2], 64)] + [e]
            ok = [False] * len(es)
            for e in got:
                hit = False
                for i, (a, s_, g, l, v) in enumerate(es):
                    want = a + k if s_ == 1 else a - k
                    if not self.equal(t, e[2], want, 64): continue
                    gg = self.proves(t, boolv(ren(g)) if issym(g) else z3.BoolVal(bool(g)))
                    if not gg: continue
                    if self.equal(t, ren(l), e[3], 1) and self.equalv(t, ren(v), e[4]): hit = True; ok[i] = True; break
                if not hit and __import__('os').environ.get('DV_IND'): print('IND', k, e[1:], [(str(z3.simplify(ren(q))) if issym(q) else q) for q in es[0][2:]], len(es), len(got), [str(a) for a in es[0][:2]])
                if not hit: raise Undecided('the induction over a loop in ' + self.where)
            for i, (a, s_, g, l, v) in enumerate(es):
                if not ok[i] and not self.proves(t, z3.Not(boolv(ren(g)) if issym(g) else z3.BoolVal(bool(g)))): raise Undecided('the induction over a loop in ' + self.where)
        for oid, o in t.objs.items():
            if o.arr is None or oid not in self.s0.objs: continue
            o0 = self.s0.objs[oid]
            for p in range(len(o.arr.parts)):
                if (oid, p) in self.eff: continue
                if o0.arr is None:
                    if o.arr.log[p]: raise Undecided('further effects of a loop in ' + self.where)
                elif not self.same(o.arr.log[p], o0.arr.log[p]): raise Undecided('further effects of a loop in ' + self.where)
    def rename(self, t, m0, m2):
        """fresh symbols of phase A to those of phase B, by order of creation and kind"""
        def ren(term):
            if not issym(term): return term
            sub = []
            m0_, m1_ = self.skn
            for n, e in consts(term).items():
                if m0_ < num(n) <= m1_:
                    q = f'{n.rsplit("!", 1)[0]}!{num(n) - self.startA + self.startB}' if False else None
                    sub.append((e, z3.Const(n + '?', e.sort())))
            return z3.substitute(term, *sub) if sub else term
        return ren
    def equal(self, t, a, b, w):
        if a is b: return True
        if a is UNDEF or b is UNDEF: return False
        if isint(a) and isint(b): return a == b
        p, q = (boolv(a), boolv(b)) if w == 1 else (bv(a, w), bv(b, w))
        if p.eq(q): return True
        if w == 64:
            try:
                if self.x.poly(t, p) == self.x.poly(t, q): return True
            except Undecided: pass
        return self.x.sv.check(t.pc, p != q) == 'unsat'
    def equalv(self, t, a, b):
        """values: fresh symbols of the hypothesis stand for anything"""
        if a is UNDEF or b is UNDEF: return a is b or a is UNDEF
        if isint(a) and isint(b): return a == b
        fr = [e for n, e in consts(bv(a, 64)).items() if n.endswith('?')]
        if not fr: return self.equal(t, a, b, 64)
        # exists an assignment of the free symbols: match structurally
        m = {}
        def match(p, q):
            if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.decl().name().endswith('?'):
                if p.decl().name() in m: return m[p.decl().name()].eq(q)
                m[p.decl().name()] = q; return True
            if p.eq(q): return True
            if p.sort() == q.sort() and not any(n.endswith('?') for n in consts(p)): return self.x.sv.check(t.pc, p != q) == 'unsat'
            if p.num_args() != q.num_args() or p.num_args() == 0 or p.decl() != q.decl(): return False
            return all(match(c, d) for c, d in zip(p.children(), q.children()))
        return match(z3.simplify(bv(a, 64)), z3.simplify(bv(b, 64)))
    def proves(self, t, c):
        return self.x.sv.check(t.pc, z3.Not(c)) == 'unsat'

def acc_names(acc):
    r = set()
    for v in acc.values(): r |= set(consts(v.off if isinstance(v, Ptr) else v))
    return r
