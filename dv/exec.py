"""Symbolic executor of LLVM IR with contracts for opaque components and summaries of unbounded loops."""
import re, sys, time, z3
from ir import Mod, VOID, PTR, FLOATS
from sym import *
import sym
sys.setrecursionlimit(100000)

STACK, HEAP, GLOB = 'stack', 'heap', 'glob'

class Obj:
    __slots__ = ('kind', 'size', 'cells', 'fill', 'freed', 'alloc', 'const', 'name', 'arr', 'pts', 'owner')
    def __init__(self, kind, size, name='', fill=None, alloc=None):
        self.kind, self.size, self.cells, self.fill, self.freed, self.alloc, self.const, self.name = kind, size, {}, fill, False, alloc, False, name
        self.arr, self.pts, self.owner = None, (), None
    def copy(self):
        o = Obj(self.kind, self.size, self.name, self.fill, self.alloc)
        o.cells, o.freed, o.const, o.arr, o.pts = dict(self.cells), self.freed, self.const, self.arr, self.pts
        return o

class Arr:
    """an array of opaque slots: parts = ((ty, size atom id), ...) in memory order, entries = write log per part (immutable)"""
    __slots__ = ('parts', 'count', 'log')
    def __init__(self, parts, count, log): self.parts, self.count, self.log = parts, count, log
# log entry: ('at', guard, idx, live, val) | ('fn', lo, hi, f) with f(j) -> (live, val); the slot is covered when lo <= j < hi

class Pt:
    """one opaque slot at a symbolic offset"""
    __slots__ = ('off', 'ty', 'live', 'val')
    def __init__(self, off, ty, live, val): self.off, self.ty, self.live, self.val = off, ty, live, val

class Frame:
    __slots__ = ('fn', 'blocks', 'block', 'i', 'env', 'prev', 'ret', 'allocas', 'loops')
    def copy(self):
        f = Frame(); f.fn, f.blocks, f.block, f.i, f.prev, f.ret = self.fn, self.blocks, self.block, self.i, self.prev, self.ret
        f.env, f.allocas, f.loops = dict(self.env), list(self.allocas), dict(self.loops)
        return f

class State:
    def __init__(self):
        self.frames, self.objs, self.pc, self.exc, self.caught = [], {}, [], None, []
        self.facts2 = (); self.idx2 = (); self.facts, self.idx, self.nds, self.heapmark, self.thrown, self.order = (), (), (), None, None, {}
        self.trace = (); self.pend = None; self.folds = (); self.approx = ''
    def copy(self):
        s = State(); s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs); s.pc = list(self.pc); s.exc = self.exc; s.caught = list(self.caught)
        s.facts2 = self.facts2; s.idx2 = self.idx2; s.facts, s.idx, s.nds, s.heapmark, s.thrown, s.order, s.trace, s.pend, s.folds = self.facts, self.idx, self.nds, self.heapmark, self.thrown, dict(self.order), self.trace, self.pend, self.folds
        s.approx = self.approx
        return s
    def w(self, oid):
        o = self.objs[oid]
        if o.owner is not self: o = o.copy(); o.owner = self; self.objs[oid] = o
        return o

class PtrIte:
    """a pointer that depends on a condition; only loads and returns keep it, any other use decides the condition"""
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
class Infeasible(Exception): pass
class Fork(Exception):
    """the current instruction has to be re-executed in each of the states"""
    def __init__(self, conds): self.conds = conds
class Failed(Exception):
    """an obligation does not hold on this path"""
    def __init__(self, name, why, model=None): self.name, self.why, self.model = name, why, model
class Throw(Exception):
    def __init__(self, ty, obj): self.ty, self.obj = ty, obj

FORKS = {} if __import__('os').environ.get('DV_FORKS') else None
LIMIT_INS = 3_000_000

BASES = {'@_ZTISt12bad_weak_ptr': ['@_ZTISt9exception'], '@_ZTISt13runtime_error': ['@_ZTISt9exception'], '@_ZTISt11logic_error': ['@_ZTISt9exception'],
         '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'], '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
         '@_ZTISt9bad_alloc': ['@_ZTISt9exception'], '@_ZTISt8bad_cast': ['@_ZTISt9exception'], '@_ZTISt17bad_function_call': ['@_ZTISt9exception'],
         '@_ZTISt11range_error': ['@_ZTISt13runtime_error', '@_ZTISt9exception']}
THROWERS = {'@__xt_throw': '@_ZTISt13runtime_error', '@_ZSt20__throw_length_errorPKc': '@_ZTISt12length_error', '@_ZSt20__throw_out_of_rangePKc': '@_ZTISt12out_of_range',
            '@_ZSt24__throw_out_of_range_fmtPKcz': '@_ZTISt12out_of_range', '@_ZSt17__throw_bad_allocv': '@_ZTISt9bad_alloc', '@_ZSt28__throw_bad_array_new_lengthv': '@_ZTISt9bad_alloc',
            '@_ZSt19__throw_logic_errorPKc': '@_ZTISt11logic_error', '@_ZSt25__throw_bad_function_callv': '@_ZTISt17bad_function_call', '@_ZSt16__throw_bad_castv': '@_ZTISt8bad_cast'}

def ite(c, a, b, w):
    c = conc(c)
    if isint(c): return a if c else b
    if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnPtr) or isinstance(b, FnPtr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return Ptr(a.obj, ite(c, a.off, b.off, 64))
        raise Fork([c, z3.Not(c)])
    if a is UNDEF or b is UNDEF: return b if a is UNDEF else a
    if isint(a) and isint(b) and a == b: return a
    if w == 1: return z3.If(c, boolv(a), boolv(b))
    return z3.If(c, bv(a, w), bv(b, w))
def zand(*cs):
    r = []
    for c in cs:
        c = conc(c)
        if isint(c):
            if not c: return 0
        else: r.append(c)
    return 1 if not r else r[0] if len(r) == 1 else z3.And(*r)
def znot(c):
    c = conc(c)
    return int(not c) if isint(c) else z3.Not(c)
def zor(*cs): return znot(zand(*[znot(c) for c in cs]))

class Exec:
    def __init__(self, mod, solver, prop='?'):
        self.m, self.sv = mod, solver
        self.gl, self.ti = {}, {}
        self.nobj = 0
        self.obl = {}                 # name -> [queries, state]
        self.used = set()
        self.loopinfo = {}; self.forkloops = set()
        self.discover = 0
        self.ins = 0
        self.contracts_used = set()
        self.summaries = []
        self.deadline = None
        self.base = State()
        self.layout_atoms = {}
        self.trunc_ok = {}
        self.eqhash = False

    # ------------------------------------------------------------ obligations
    def require(self, st, cond, name, why=''):
        c = conc(cond)
        if self.discover:
            if isint(c):
                if not c: raise Infeasible()
            else: self.assume(st, c)
            return
        o = self.obl.setdefault(name, [0, 0])
        o[0] += 1
        if isint(c):
            if c: return
            if st.approx: raise Undecided(f'{name} ({why}) not proved after {st.approx}')
            raise Failed(name, why, self.model(st, []))
        n = z3.Not(c)
        if self.sv.check(st.pc, n) == 'sat':
            if st.approx: raise Undecided(f'{name} ({why}) not proved after {st.approx}')
            raise Failed(name, why, self.model(st, [n]))
    def model(self, st, conds):
        try:
            if self.sv.check(st.pc, *conds) != 'sat': return None
        except Undecided: return None
        m = self.sv.model
        out = []
        for n, t, w in st.nds:
            v = m.eval(bv(t, w) if w != 1 else boolv(t), model_completion=True)
            out.append((n, conc(v)))
        return out
    def assume(self, st, c):
        c = conc(z3.simplify(c)) if issym(c) else c
        if isint(c):
            if not c: raise Infeasible()
            return
        if z3.is_and(c):
            for x in c.children(): self.assume(st, x)
            return
        st.pc.append(c)
    def sat(self, st, *c):
        return self.sv.check(st.pc, *c) == 'sat'
    def proved(self, st, c):
        c = conc(c)
        if isint(c): return bool(c)
        return self.sv.check(st.pc, z3.Not(c)) == 'unsat'
    def proved_under(self, st, a, c):
        return self.sv.check(st.pc, boolv(a), znot(c)) == 'unsat' if issym(conc(c)) else bool(conc(c))
    def decide(self, st, c):
        """1/0 when the condition is decided on this path, else None"""
        c = conc(c)
        if isint(c): return 1 if c else 0
        c = conc(z3.simplify(c))
        if isint(c): return 1 if c else 0
        if not self.sat(st, c): return 0
        if not self.sat(st, z3.Not(c)): return 1
        return None
    def branch(self, st, c):
        """boolean value of a condition, forking the path when both are possible"""
        d = self.decide(st, c)
        if d is None:
            c = conc(c)
            raise Fork([c, z3.Not(c)])
        return d

    # ------------------------------------------------------------ objects
    def new(self, st, kind, size, name='', fill=None, alloc=None):
        self.nobj += 1
        o = Obj(kind, size, name, fill, alloc); o.owner = st
        st.objs[self.nobj] = o
        return self.nobj
    def glob(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.fns or name in self.m.decls: return FnPtr(name)
        if name in self.gl: return Ptr(self.gl[name], 0)
        t, v, const = self.m.global_init(name)
        self.nobj += 1; oid = self.nobj
        o = Obj(GLOB, self.m.size(t) if t[0] != 'opaque' else 1 << 20, name)
        self.gl[name] = oid
        self.base.objs[oid] = o; st.objs[oid] = o
        if v is not None:
            o.fill = 0
            self.init(st, o, 0, t, v)
            o.const = const
        elif name == '@__libc_single_threaded': o.cells[0] = (1, 1)
        elif name.startswith('@_ZTV') or name.startswith('@_ZTI'): o.fill = 'ext'
        return Ptr(oid, 0)
    def getobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None: o = st.objs[oid] = self.base.objs[oid]
        return o
    def wobj(self, st, oid):
        self.getobj(st, oid); return st.w(oid)
    def init(self, st, o, off, t, v):
        t = self.m.resolve(t); k = v[0]
        if k in ('zero',): return
        if k == 'undef': return
        if k == 'agg':
            if t[0] == 'struct':
                for (et, ev), fo in zip(v[1], self.m.layout(t)[0]): self.init(st, o, off + fo, et, ev)
            else:
                es = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]): self.init(st, o, off + i * es, et, ev)
        elif k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        else:
            x = self.const(st, t, v)
            o.cells[off] = (self.m.store_size(t), x)
    def const(self, st, t, v):
        k = v[0]
        if k == 'int':
            w = t[1] if t[0] == 'i' else 64
            return v[1] & ((1 << w) - 1)
        if k == 'null': return NULL
        if k == 'fp': return v[2]
        if k == 'glob': return self.glob(st, v[1])
        if k == 'undef':
            t = self.m.resolve(t)
            if t[0] == 'struct': return tuple(UNDEF for _ in t[1])
            return UNDEF
        if k == 'zero':
            t = self.m.resolve(t)
            if t[0] == 'ptr': return NULL
            if t[0] == 'struct': return tuple(self.const(st, x, ('zero',)) for x in t[1])
            if t[0] == 'arr': return tuple(self.const(st, t[2], ('zero',)) for _ in range(t[1]))
            return 0
        if k == 'gep':
            base = self.const(st, PTR, v[2])
            return self.gep(st, v[1], base, [(it, self.const(st, it, x)) for it, x in v[3]])
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'bin':
            a, b = self.const(st, v[2], v[3]), self.const(st, v[2], v[4])
            return self.bin(st, v[1], v[2], a, b)
        if k == 'agg':
            return tuple(self.const(st, et, ev) for et, ev in v[1])
        raise Undecided(f'constant {v}')
    def val(self, st, env, t, v):
        if v[0] == 'reg': return env[v[1]]
        return self.const(st, t, v)
    def gep(self, st, bt, base, idx):
        if isinstance(base, FnPtr): raise Undecided('gep on function')
        if base is UNDEF: raise Undecided('address computed from an undefined pointer')
        if not isinstance(base, Ptr): raise Undecided('gep on integer')
        off = base.off; t = bt
        for n, (it, x) in enumerate(idx):
            w = it[1]
            if n == 0: es = self.m.size(t)
            else:
                t = self.m.resolve(t)
                if t[0] == 'struct':
                    off = binop('add', 64, off, self.m.layout(t)[0][x]); t = t[1][x]; continue
                t = t[2]; es = self.m.size(t)
            if x is UNDEF: raise Undecided('index is undefined')
            if isinstance(x, Ptr): raise Undecided('index is a pointer')
            x = resize(x, w, 64, True)
            off = binop('add', 64, off, binop('mul', 64, x, es))
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ memory
    def nowrap(self, st):
        """callback for poly(): is the extension of a narrow operation exact on this path?"""
        def f(kind, a, b, w, sg):
            key = (kind, a.get_id(), b.get_id() if b is not None else 0, w, sg, len(st.pc), id(st.pc[-1]) if st.pc else 0)
            if key in self.trunc_ok: return self.trunc_ok[key]
            if kind == 'trunc':
                c = z3.ULE(a, z3.BitVecVal((1 << (w - 1 if sg else w)) - 1, 64))
            elif kind == 'nonneg': c = a >= 0
            elif kind == 'dec':
                k = signed(b.as_long(), w)
                if k >= 0 or sg: return False
                c = z3.UGE(a, z3.BitVecVal(-k, w))
            elif kind == z3.Z3_OP_BADD: c = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)) if sg else z3.BVAddNoOverflow(a, b, False)
            else: c = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)) if sg else z3.BVSubNoUnderflow(a, b, False)
            r = self.sv.check(st.pc, z3.Not(c)) == 'unsat'
            self.trunc_ok[key] = r
            return r
        return f
    def poly(self, st, e):
        if isint(e): return pconst(e)
        return poly(e, self.nowrap(st))
    def access(self, st, p, n, what):
        """object and offset of a raw access of n bytes; requires that it is inside a live object"""
        if p is UNDEF: self.require(st, 0, 'memory-safety', f'{what} through an uninitialised pointer')
        if not isinstance(p, Ptr): raise Undecided(f'{what} through {p}')
        if p.obj is None: self.require(st, 0, 'memory-safety', f'{what} through a null pointer')
        o = self.getobj(st, p.obj)
        if o.freed: self.require(st, 0, 'memory-safety', f'{what} in freed memory ({o.name})')
        return o
    def inb(self, st, o, off, n, what):
        if isint(o.size) and isint(off):
            if off > 1 << 63: off -= 1 << 64
            if not (0 <= off and off + n <= o.size): self.require(st, 0, 'memory-safety', f'{what} of {n} bytes at offset {off} of {o.name} ({o.size} bytes)')
            return
        a, s = bv(off, 64), bv(o.size, 64)
        self.require(st, z3.And(z3.ULE(a, s), z3.UGE(s - a, n)), 'memory-safety', f'{what} of {n} bytes outside of {o.name}')
    def concoff(self, st, off, limit=64):
        """a concrete offset: forks over the possible values when there are few"""
        off = conc(off)
        if isint(off): return off
        off = conc(z3.simplify(off))
        if isint(off): return off
        vals = []; extra = []
        while True:
            if not self.sat(st, *extra): break
            v = self.sv.model.eval(off, model_completion=True).as_long()
            vals.append(v); extra.append(off != v)
            if len(vals) > limit: raise Undecided('access at a symbolic offset')
        if len(vals) == 1: return vals[0]
        if not vals: raise Infeasible()
        raise Fork([off == v for v in vals])
    def load(self, st, p, n, t=None):
        o = self.access(st, p, n, 'load')
        self.inb(st, o, p.off, n, 'load')
        off = self.concoff(st, p.off)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        return self.assemble(st, o, off, n)
    def byte(self, o, off):
        for k in range(16):
            c = o.cells.get(off - k)
            if c is not None and c[0] > k:
                v = c[1]
                if c[0] == 1: return v
                if isint(v): return (v >> (8 * k)) & 255
                if isinstance(v, z3.BitVecRef):
                    if v.size() < 8 * c[0]: v = z3.ZeroExt(8 * c[0] - v.size(), v)
                    if v.decl().kind() == z3.Z3_OP_CONCAT and all(x.size() == 8 for x in v.children()): return conc(v.children()[-1 - k])
                    return conc(z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)))
                if v is UNDEF: return UNDEF
                return ('part', v, k, c[0])
        if o.fill == 0: return 0
        if o.fill == 'ext': return ('ext',)
        if callable(o.fill): return o.fill(off)
        return UNDEF
    def assemble(self, st, o, off, n):
        bs = [self.byte(o, off + k) for k in range(n)]
        if all(isint(b) for b in bs): return int.from_bytes(bytes(bs), 'little')
        b0 = bs[0]
        if isinstance(b0, tuple) and b0[0] == 'part' and all(isinstance(b, tuple) and b[0] == 'part' and b[1] is b0[1] and b[2] == k for k, b in enumerate(bs)) and b0[3] == n: return b0[1]
        if any(isinstance(b, tuple) for b in bs): raise Undecided(f'load of {n} bytes at offset {off} of {o.name} mixes pointers')
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs): return UNDEF
            bs = [fresh('undef', 8) if b is UNDEF else b for b in bs]
        # an aligned run of extracts of the same term
        r = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bv(bs[0], 8)
        return conc(z3.simplify(r))
    def carve(self, o, off, n):
        """drop the cells overlapping [off, off+n), keeping the outer bytes"""
        for k in list(range(off - 15, off)) + list(range(off, off + n)) if n <= 64 else [x for x in list(o.cells) if off - 16 < x < off + n]:
            c = o.cells.get(k)
            if c is None or k + c[0] <= off: continue
            if k < off or k + c[0] > off + n:
                outer = [(x, self.byte(o, x)) for x in range(k, k + c[0]) if not (off <= x < off + n)]
                del o.cells[k]
                for x, b in outer:
                    if isinstance(b, tuple): b = UNDEF
                    o.cells[x] = (1, b)
            else: del o.cells[k]
    def store(self, st, p, n, v):
        o = self.access(st, p, n, 'store')
        self.inb(st, o, p.off, n, 'store')
        off = self.concoff(st, p.off)
        if o.const: self.require(st, 0, 'memory-safety', 'store in constant memory ' + o.name)
        if o.arr is not None: raise Undecided('raw store in an array of opaque instances')
        o = self.wobj(st, p.obj)
        c = o.cells.get(off)
        if c is None or c[0] != n: self.carve(o, off, n)
        if isinstance(v, z3.BoolRef): v = bv(v, 8 * n)
        o.cells[off] = (n, conc(v))
    def store_t(self, st, p, t, v):
        t = self.m.resolve(t)
        if t[0] == 'struct':
            for x, fo, ft in zip(v, self.m.layout(t)[0], t[1]): self.store_t(st, Ptr(p.obj, binop('add', 64, p.off, fo)), ft, x)
            return
        n = self.m.store_size(t)
        if t == ('i', 1): v = resize(v, 1, 8)
        elif t[0] == 'i' and t[1] % 8: v = resize(v, t[1], n * 8) if not v is UNDEF else v
        self.store(st, p, n, v)
    def load_t(self, st, p, t):
        t = self.m.resolve(t)
        if t[0] == 'struct': return tuple(self.load_t(st, Ptr(p.obj, binop('add', 64, p.off, fo)), ft) for fo, ft in zip(self.m.layout(t)[0], t[1]))
        n = self.m.store_size(t)
        v = self.load(st, p, n, t)
        if v is UNDEF: return UNDEF
        if t[0] == 'i' and t[1] == 1: v = resize(v, 8, 1) if not isinstance(v, z3.BoolRef) else v
        elif t[0] == 'i' and t[1] % 8: v = resize(v, n * 8, t[1])
        elif t[0] == 'ptr' and v == 0 and isint(v): v = NULL
        elif t[0] == 'ptr' and issym(v): raise Undecided('pointer read from symbolic bytes')
        elif t[0] != 'ptr' and v is NULL: v = 0
        return v
    def memcpy(self, st, d, s, n, move=False):
        n = conc(n) if isint(conc(n)) else conc(z3.simplify(n))
        if isint(n):
            if n == 0: return
            do, so = self.access(st, d, n, 'memcpy to'), self.access(st, s, n, 'memcpy from')
            if so.arr is None and do.arr is None and not so.pts and not do.pts:
                self.inb(st, do, d.off, n, 'memcpy to'); self.inb(st, so, s.off, n, 'memcpy from')
                a, b = self.concoff(st, d.off), self.concoff(st, s.off)
                if do.const: self.require(st, 0, 'memory-safety', 'memcpy to constant memory')
                if n > 4096: raise Undecided('long memcpy')
                new, x = [], b
                while x < b + n:
                    c = so.cells.get(x)
                    if c is not None and x + c[0] <= b + n and (x == b or True):
                        new.append((a + x - b, c)); x += c[0]; continue
                    y = self.byte(so, x)
                    if isinstance(y, tuple): raise Undecided('memcpy splits a pointer')
                    new.append((a + x - b, (1, y))); x += 1
                do = self.wobj(st, d.obj); self.carve(do, a, n)
                for k, c in new: do.cells[k] = c
                return
        self.slot_memcpy(st, d, s, n)
    def memset(self, st, d, v, n):
        n = conc(n) if isint(conc(n)) else conc(z3.simplify(n))
        if isint(n) and n == 0: return
        o = self.access(st, d, n, 'memset')
        if isint(n) and isint(o.size):
            self.inb(st, o, d.off, n, 'memset'); a = self.concoff(st, d.off)
            o = self.wobj(st, d.obj); self.carve(o, a, n)
            if n == o.size and isint(v) and v == 0: o.fill = 0; return
            if n > 4096: raise Undecided('long memset')
            for k in range(n): o.cells[a + k] = (1, v)
            return
        pn, ps, po = self.poly(st, n), self.poly(st, o.size), self.poly(st, d.off)
        if po == {} and pn == ps:
            if o.arr is not None or o.pts: raise Undecided('memset over opaque instances')
            o = self.wobj(st, d.obj); o.cells = {}
            o.fill = 0 if isint(v) and v == 0 else 'undef'
            return
        raise Undecided('memset of symbolic size')

    # ------------------------------------------------------------ opaque slots
    def S(self, ty): return uf('size', z3.BitVecSort(64), bv(ty, 64))
    def ctor(self, ty): return uf('ctor', z3.BoolSort(), bv(ty, 64))
    def slot(self, st, ty, p, what):
        """locate the slot of type ty at p: ('arr', obj, part, idx) or ('pt', obj, k | None, poly)"""
        o = self.access(st, p, 1, what)
        s = self.S(ty); sp = self.poly(st, s)
        sa = next(iter(sp))[0]
        if o.arr is None and not o.pts and not isint(o.size):
            self.make_arr(st, p.obj, ty, sa)
            o = self.getobj(st, p.obj)
        if o.arr is not None: return self.arr_slot(st, o, p, ty, sa, what)
        off = self.poly(st, p.off)
        for k, q in enumerate(o.pts):
            if q.off == off: return ('pt', p.obj, k, off)
        return ('pt', p.obj, None, off)
    def make_arr(self, st, oid, ty, sa):
        """the shape of a memory block of symbolic size: count * (sum of sizes)"""
        o = self.getobj(st, oid)
        size = self.poly(st, o.size)
        S_atoms = [a for a in {x for m in size for x in m} if ATOMS[a].decl().name() == 'size']
        if max((len(m) for m in size), default=0) < 2 and len(size) > 1 and not all(a in self.layout_atoms for a in S_atoms): return          # a fixed sum of sizes: points
        cof = {}
        for m, c in size.items():
            xs = [a for a in m if a in S_atoms]
            if len(xs) != 1: raise Undecided('shape of a memory block: ' + o.name)
            r = list(m); r.remove(xs[0])
            cof.setdefault(xs[0], {})[tuple(r)] = c
        if not cof or any(c != next(iter(cof.values())) for c in cof.values()): raise Undecided('shape of a memory block: ' + o.name)
        count = unpoly(next(iter(cof.values())))
        order = self.layout_order(list(cof))
        o = self.wobj(st, oid)
        o.arr = Arr(tuple((ATOMS[a].arg(0), a) for a in order), count, tuple(() for _ in order))
    def layout_order(self, atoms):
        return sorted(atoms, key=lambda a: self.layout_atoms.get(a, a))
    def arr_slot(self, st, o, p, ty, sa, what):
        off = self.poly(st, p.off)
        ps = [a for _, a in o.arr.parts]
        if sa not in ps:
            raise Undecided(f'{what}: an instance of another type in an array of opaque instances')
        cof = {a: {} for a in ps}
        for m, c in off.items():
            xs = [a for a in m if a in cof]
            if len(xs) != 1: raise Undecided(f'{what}: offset not a multiple of the instance size')
            r = list(m); r.remove(xs[0]); cof[xs[0]][tuple(r)] = c
        part = ps.index(sa)
        idx = cof[ps[-1]] if part < len(ps) else None
        one = pconst(1)
        base = cof[sa]
        for k, a in enumerate(ps):
            want = padd(base, one) if k < part else base
            if cof[a] != want: self.require(st, 0, 'memory-safety', f'{what}: address is not the start of an instance')
        t = unpoly(base)
        self.require(st, z3.ULT(bv(t, 64), bv(o.arr.count, 64)) if not (isint(t) and isint(o.arr.count)) else int(t < o.arr.count), 'memory-safety', f'{what} past the end of the reserved memory')
        return ('arr', p.obj, part, t)
    def get(self, st, ty, p, what, raw=False):
        """(live, value) of the slot"""
        loc = self.slot(st, ty, p, what)
        o = self.getobj(st, loc[1])
        if loc[0] == 'arr': return loc, self.query(st, o.arr.log[loc[2]], loc[3])
        if loc[2] is None:
            self.check_point(st, o, ty, loc[3], what); return loc, (0, UNDEF)
        q = o.pts[loc[2]]
        if not (isint(q.live) and q.live == 0):
            same = bv(q.ty, 64) == bv(ty, 64)
            if raw and not bv(q.ty, 64).eq(bv(ty, 64)):
                # an instance without constructor needs no destruction
                return loc, (zand(q.live, self.ctor(q.ty)), q.val)
            self.require(st, zor(znot(q.live), same), 'type-safety', f'{what}: the instance stored there has another type')
        return loc, (q.live, q.val)
    def check_point(self, st, o, ty, off, what):
        """a new slot must lie inside the object and not over another slot or plain data"""
        e, s = unpoly(off), self.S(ty)
        end = padd(off, self.poly(st, s))
        if isint(o.size) or any(True for _ in [0]):
            diff = padd(self.poly(st, o.size), end, -1)
            if not all(c < 1 << 63 for c in diff.values()):
                a, b = bv(unpoly(end), 64), bv(o.size, 64)
                self.require(st, z3.ULE(a, b), 'memory-safety', f'{what}: instance larger than the reserved memory')
        for q in o.pts:
            if isint(q.live) and not q.live: continue
            d1 = padd(off, padd(q.off, self.poly(st, self.S(q.ty))), -1)
            d2 = padd(q.off, end, -1)
            if all(c < 1 << 63 for c in d1.values()) or all(c < 1 << 63 for c in d2.values()): continue
            self.require(st, znot(q.live), 'memory-safety', f'{what}: overlaps another instance')
    def query(self, st, log, j):
        live, val = 0, UNDEF
        for e in log:
            if e[0] == 'at':
                c = conc(z3.simplify(bv(e[2], 64) == bv(j, 64)))
                c = zand(e[1], c)
                if isint(c) and not c: continue
                live, val = ite(c, e[3], live, 1), ite(c, e[4], val, 64)
            elif e[0] == 'loop':
                cs = e[1](bv(j, 64))
                if isinstance(cs, tuple): cs = [cs]
                # the write of the latest iteration; within an iteration the last entry
                best = None
                for c, it, l2, v2 in cs:
                    c = conc(z3.simplify(c)) if issym(c) else c
                    if isint(c) and not c: continue
                    if best is None: best = (c, it, l2, v2)
                    else:
                        c0, i0, l0, v0 = best
                        later = zand(c, zor(znot(c0), z3.ULE(i0, it)))
                        best = (zor(c, c0), ite(later, it, i0, 64), ite(later, l2, l0, 1), ite(later, v2, v0, 64))
                if best is not None:
                    c, it, l2, v2 = best
                    live, val = ite(c, l2, live, 1), ite(c, v2, val, 64)
            else:
                c = zand(conc(z3.simplify(z3.ULE(bv(e[1], 64), bv(j, 64)))), conc(z3.simplify(z3.ULT(bv(j, 64), bv(e[2], 64)))))
                if isint(c) and not c: continue
                l2, v2 = e[3](bv(j, 64))
                live, val = ite(c, l2, live, 1), ite(c, v2, val, 64)
        # decided reads keep the terms small
        if issym(live):
            d = None
            live = conc(z3.simplify(live))
        if issym(val): val = conc(z3.simplify(val))
        return live, val
    def put(self, st, loc, ty, live, val):
        if loc[0] == 'arr':
            o = self.wobj(st, loc[1]); logs = list(o.arr.log)
            lg = logs[loc[2]]
            if lg and lg[-1][0] == 'at' and isint(lg[-1][1]) and (bv(lg[-1][2], 64)).eq(bv(loc[3], 64)): lg = lg[:-1]
            logs[loc[2]] = lg + (('at', 1, loc[3], live, val),)
            o.arr = Arr(o.arr.parts, o.arr.count, tuple(logs))
        else:
            o = self.wobj(st, loc[1]); pts = list(o.pts)
            q = Pt(loc[3], ty, live, val)
            if loc[2] is None:
                pts = [x for x in pts if not (isint(x.live) and not x.live)]
                pts.append(q)
            else: pts[loc[2]] = q
            o.pts = tuple(pts)
    def need_live(self, st, ty, p, what):
        loc, (live, val) = self.get(st, ty, p, what)
        self.require(st, live, 'lifetime', f'{what}: no instance is alive there')
        return loc, val
    def need_raw(self, st, ty, p, what):
        loc, (live, val) = self.get(st, ty, p, what, True)
        q = None if loc[0] == 'arr' or loc[2] is None else self.getobj(st, loc[1]).pts[loc[2]].ty
        self.require(st, zor(znot(live), znot(self.ctor(ty if q is None else q))), 'lifetime', f'{what}: constructs over a live instance')
        return loc
    # contracts of Instanceable on an opaque type
    def k_size(self, st, ty):
        s = self.S(ty)
        return s
    def k_construct(self, st, ty, p):
        loc = self.need_raw(st, ty, p, 'construct_instance'); self.put(st, loc, ty, 1, uf('dflt', z3.BitVecSort(64), bv(ty, 64)))
    def k_copy(self, st, ty, d, s):
        _, v = self.need_live(st, ty, s, 'copy_instance (source)')
        loc = self.need_raw(st, ty, d, 'copy_instance (target)'); self.put(st, loc, ty, 1, v)
    def k_conv(self, st, ty, d, s, oty):
        _, v = self.need_live(st, oty, s, 'copy_instance_from_type (source)')
        loc = self.need_raw(st, ty, d, 'copy_instance_from_type (target)')
        self.put(st, loc, ty, 1, self.convv(ty, v, oty))
    def convv(self, ty, v, oty):
        if bv(ty, 64).eq(bv(oty, 64)): return v
        return z3.If(bv(ty, 64) == bv(oty, 64), bv(v, 64), uf('conv', z3.BitVecSort(64), bv(ty, 64), bv(v, 64), bv(oty, 64)))
    def k_move(self, st, ty, d, s, init):
        sl, v = self.need_live(st, ty, s, 'move_instance (source)')
        init = self.branch(st, init)
        if init: loc, _ = self.need_live(st, ty, d, 'move_instance (initialised target)')
        else: loc = self.need_raw(st, ty, d, 'move_instance (target)')
        if isinstance(s, Ptr) and isinstance(d, Ptr) and s.obj == d.obj and conc(s.off) is conc(d.off): raise Undecided('move onto itself')
        self.put(st, loc, ty, 1, v)
        sl = self.slot(st, ty, s, 'move_instance (source)')
        self.put(st, sl, ty, 1, z3.If(self.ctor(ty), fresh('moved', 64), bv(v, 64)))
    def k_destroy(self, st, ty, p):
        loc, (live, v) = self.get(st, ty, p, 'destroy_instance')
        self.require(st, zor(live, znot(self.ctor(ty))), 'lifetime', 'destroy_instance: no instance is alive there')
        # a non-constructed instance keeps its bytes
        self.put(st, loc, ty, ite(self.ctor(ty), 0, live, 1), v)
    def k_eq(self, st, ty, a, b):
        _, x = self.need_live(st, ty, a, 'compare_instance'); _, y = self.need_live(st, ty, b, 'compare_instance')
        return self.eqv(ty, x, y)
    def eqv(self, ty, x, y): return uf('eqv', z3.BoolSort(), bv(ty, 64), bv(x, 64), bv(y, 64))
    def k_hash(self, st, ty, a):
        _, x = self.need_live(st, ty, a, 'hash'); return uf('hsh', z3.BitVecSort(64), bv(ty, 64), bv(x, 64))
    def slot_memcpy(self, st, d, s, n):
        do, so = self.access(st, d, 1, 'memcpy to'), self.access(st, s, 1, 'memcpy from')
        pn = self.poly(st, n)
        if pn == {}: return
        for p, o in ((d, do), (s, so)):
            if o.arr is None and not o.pts and not isint(o.size): self.make_arr(st, p.obj, None, None)
        do, so = self.getobj(st, d.obj), self.getobj(st, s.obj)
        if (do.arr is None or so.arr is None) and self.decide(st, bv(n, 64) == 0) == 1: return
        if do.arr is None and so.arr is not None and not isint(do.size): raise Undecided('memcpy to a block of another shape')
        if do.arr is None or so.arr is None:
            # single instances: whole slots
            for k, q in enumerate(so.pts):
                if q.off == self.poly(st, s.off) and self.poly(st, self.S(q.ty)) == pn:
                    self.require(st, znot(self.ctor(q.ty)), 'lifetime', 'memcpy of a constructed instance')
                    loc, _ = self.get(st, q.ty, d, 'memcpy to')
                    self.put(st, loc, q.ty, q.live, q.val); return
            raise Undecided('memcpy of opaque memory')
        ps = [a for _, a in so.arr.parts]
        same = {}
        if len(do.arr.parts) != len(ps): raise Undecided('memcpy between blocks of different types')
        for (t1, a1), (t2, a2) in zip(so.arr.parts, do.arr.parts):
            if a1 == a2: continue
            # equal sizes do not make equal types
            if not self.proved(st, bv(t1, 64) == bv(t2, 64)): raise Undecided('memcpy between blocks of different types')
            same[a2] = a1
        def index(pl):
            cof = {a: {} for a in ps}
            for m, c in pl.items():
                m = tuple(sorted(same.get(a, a) for a in m))
                xs = [a for a in m if a in cof]
                if len(xs) != 1: raise Undecided('memcpy: not a whole number of instances')
                r = list(m); r.remove(xs[0]); cof[xs[0]][tuple(r)] = c
            b = cof[ps[0]]
            if any(cof[a] != b for a in ps): raise Undecided('memcpy: not a whole number of instances')
            return unpoly(b)
        cnt, di, si = index(pn), index(self.poly(st, d.off)), index(self.poly(st, s.off))
        if self.decide(st, bv(cnt, 64) == 0) == 1: return
        for nm, b, o in (('to', di, do), ('from', si, so)):
            lo, hi = bv(b, 64), bv(o.arr.count, 64)
            self.require(st, z3.And(z3.ULE(lo, hi), z3.ULE(bv(cnt, 64), hi - lo)), 'memory-safety', f'memcpy {nm} outside of the reserved memory')
        for ty, _ in so.arr.parts: self.require(st, znot(self.ctor(ty)), 'lifetime', 'memcpy of constructed instances')
        logs = []
        for k in range(len(ps)):
            src = so.arr.log[k]
            f = lambda j, src=src: self.query(st, src, j - bv(di, 64) + bv(si, 64))
            logs.append(do.arr.log[k] + (('fn', di, binop('add', 64, di, cnt), f),))
        o = self.wobj(st, d.obj); o.arr = Arr(do.arr.parts, do.arr.count, tuple(logs))
    def kill_slots(self, st, oid):
        """delete[] of a block: nothing constructed may be alive in it"""
        o = self.getobj(st, oid)
        for q in o.pts:
            self.require(st, zor(znot(q.live), znot(self.ctor(q.ty))), 'lifetime', 'the memory of a live instance is released')
        if o.arr is not None:
            for k, (ty, _) in enumerate(o.arr.parts):
                j = fresh('slot', 64)
                live, _ = self.query(st, o.arr.log[k], j)
                self.require(st, zor(znot(live), znot(self.ctor(ty)), z3.UGE(j, bv(o.arr.count, 64))), 'lifetime', 'the memory of a live instance is released')

    # ------------------------------------------------------------ scalar operations
    def bin(self, st, op, t, a, b, flags=()):
        if t[0] in FLOATS:
            w = FLOATS[t[0]]
            return uf(f'{op}_{t[0]}', z3.BitVecSort(w), bv(a, w), bv(b, w))
        w = t[1]
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub':
                if a.obj == b.obj: return binop('sub', 64, a.off, b.off)
                return fresh('diff', 64)
            if isinstance(a, Ptr) and a.obj is None and isint(a.off): a = a.off
            if isinstance(b, Ptr) and b.obj is None and isint(b.off): b = b.off
            if isinstance(a, Ptr) and op in ('add', 'sub') and not isinstance(b, Ptr): return Ptr(a.obj, binop(op, 64, a.off, b))
            if isinstance(a, Ptr) and op == 'and' and isint(b) and b < 8: return 0 if isint(a.off) and a.off % 8 == 0 else binop('and', 64, a.off, b)
            if isinstance(a, Ptr) or isinstance(b, Ptr): raise Undecided(f'{op} on a pointer')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if op == 'and': return 0
            raise Undecided(f'{op} on a function pointer')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op in ('udiv', 'sdiv') and w == 64 and issym(b):
                # exact division of an offset by an instance size
                q = self.polydiv(st, a, b)
                if q is not None: return q
            if not isint(b) or b == 0: self.require(st, bv(b, w) != 0 if not isint(b) else 0, 'no-undefined-behaviour', 'division by zero')
            if op in ('sdiv', 'srem') and not (isint(a) and isint(b)):
                self.require(st, z3.Not(z3.And(bv(a, w) == (1 << (w - 1)), bv(b, w) == (1 << w) - 1)), 'no-undefined-behaviour', 'overflow in division')
        elif op in ('shl', 'lshr', 'ashr') and not isint(b):
            self.require(st, z3.ULT(bv(b, w), w), 'no-undefined-behaviour', 'shift by too many bits')
        elif op in ('shl', 'lshr', 'ashr') and b >= w: self.require(st, 0, 'no-undefined-behaviour', 'shift by too many bits')
        elif 'nsw' in flags and not (isint(a) and isint(b)):
            x, y = bv(a, w), bv(b, w)
            c = None
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            elif op == 'mul' and w <= 32: c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            if c is not None: self.require(st, c, 'no-undefined-behaviour', f'signed overflow in {op}')
        return binop(op, w, a, b)
    def polydiv(self, st, a, b):
        pa, pb = self.poly(st, a), self.poly(st, b)
        if __import__('os').environ.get('DV_IDX'): print('DIV', a, b, pa, pb)
        if pa == {}: return 0
        # divisor: sum of size atoms, dividend: multiple of it
        ms = list(pb)
        if not all(len(m) == 1 and pb[m] == 1 and ATOMS[m[0]].decl().name() == 'size' for m in ms): return None
        cof = {m[0]: {} for m in ms}
        for m, c in pa.items():
            xs = [x for x in m if x in cof]
            if len(xs) != 1: return None
            r = list(m); r.remove(xs[0]); cof[xs[0]][tuple(r)] = c
        v = list(cof.values())
        if any(x != v[0] for x in v): return None
        return unpoly(v[0])
    def fcmp(self, st, pred, t, a, b):
        if pred == 'true': return 1
        if pred == 'false': return 0
        w = FLOATS[t[0]]
        if isint(a) and isint(b) and w in (32, 64):
            import struct
            f = (lambda x: struct.unpack('<f', struct.pack('<I', x))[0]) if w == 32 else (lambda x: struct.unpack('<d', struct.pack('<Q', x))[0])
            x, y = f(a), f(b); un = x != x or y != y
            r = {'eq': x == y, 'ne': x != y and not un, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'rd': not un, 'no': un}
            if pred in ('ord', 'uno'): return int(un == (pred == 'uno'))
            c = r[pred[1:]]
            return int(c if pred[0] == 'o' else (un or c))
        x, y = bv(a, w), bv(b, w)
        if pred in ('ord', 'uno'):
            u = uf(f'funo_{t[0]}', z3.BoolSort(), x, y); return u if pred == 'uno' else z3.Not(u)
        k = pred[1:]
        if k in ('gt', 'ge'): x, y, k = y, x, {'gt': 'lt', 'ge': 'le'}[k]
        un = uf(f'funo_{t[0]}', z3.BoolSort(), *( (x, y) if x.get_id() < y.get_id() else (y, x)))
        if k in ('eq', 'ne'):
            if x.get_id() > y.get_id(): x, y = y, x
            e = z3.And(z3.Not(un), uf(f'feq_{t[0]}', z3.BoolSort(), x, y))
            if k == 'ne': return z3.Not(e) if pred[0] == 'u' else z3.And(z3.Not(un), z3.Not(e))
            return e if pred[0] == 'o' else z3.Or(un, e)
        c = z3.And(z3.Not(un), uf(f'f{k}_{t[0]}', z3.BoolSort(), x, y))
        return c if pred[0] == 'o' else z3.Or(un, c)
    def icmp(self, st, pred, t, a, b):
        if a is UNDEF or b is UNDEF: return fresh('undef', 1)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return int(same == (pred == 'eq'))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = Ptr(None, a)
            if not isinstance(b, Ptr): b = Ptr(None, b)
            if a.obj == b.obj:
                if a.obj is not None and (issym(a.off) or issym(b.off)):
                    r = self.slot_icmp(st, pred, a, b)
                    if r is not None: return r
                return icmp(pred, 64, a.off, b.off)
            if pred in ('eq', 'ne'):
                return int(pred == 'ne')
            if a.obj is None or b.obj is None:
                return int((a.obj is None) == (pred in ('ult', 'ule')))
            # unrelated objects: an arbitrary but consistent order of the blocks
            lo, hi = sorted((a.obj, b.obj))
            k = st.order.get((lo, hi))
            if k is None: k = st.order[(lo, hi)] = fresh('order', 1)
            less = k if a.obj == lo else z3.Not(k)
            return less if pred in ('ult', 'ule') else z3.Not(less)
        return icmp(pred, 64 if t[0] == 'ptr' else t[1], a, b)
    def slot_icmp(self, st, pred, a, b):
        """comparison of two addresses of the same array of instances: by index (instance sizes are positive and the block does not wrap)"""
        o = self.getobj(st, a.obj)
        if o.arr is None: return None
        ps = [x for _, x in o.arr.parts]
        def index(off):
            cof = {x: {} for x in ps}
            for m, c in self.poly(st, off).items():
                xs = [x for x in m if x in cof]
                if len(xs) != 1: return None
                r = list(m); r.remove(xs[0]); cof[xs[0]][tuple(r)] = c
            if any(v != cof[ps[0]] for v in cof.values()): return None
            return unpoly(cof[ps[0]])
        i, j = index(a.off), index(b.off)
        if __import__('os').environ.get('DV_IDX'): print('IDX', a.off, b.off, self.poly(st, a.off), self.poly(st, b.off), i, j)
        if i is None or j is None: return None
        for k in (i, j):
            if not self.proved(st, z3.ULE(bv(k, 64), bv(o.arr.count, 64))): return None
        return icmp(pred, 64, i, j)
    def cast(self, st, o, ft, x, tt):
        if x is UNDEF: return UNDEF
        if o in ('bitcast', 'addrspacecast'):
            return x
        if o in ('ptrtoint', 'inttoptr'):
            if o == 'inttoptr' and isint(x): return Ptr(None, x)
            if o == 'ptrtoint' and isinstance(x, Ptr) and x.obj is None: return x.off
            return x
        if ft[0] in FLOATS or tt[0] in FLOATS:
            fw = FLOATS.get(ft[0]) or ft[1]; tw = FLOATS.get(tt[0]) or tt[1]
            if fw == 1: x = resize(x, 1, 8); fw = 8
            r = uf(f'{o}_{ft[0]}{fw}_{tt[0]}{tw}', z3.BitVecSort(max(tw, 8)), bv(x, fw))
            return resize(r, 8, 1) if tw == 1 else r
        if isinstance(x, Ptr):
            raise Undecided(f'{o} of a pointer')
        return resize(x, ft[1], tt[1], o == 'sext')

    # ------------------------------------------------------------ running
    def call_fn(self, st, name, args, ret):
        fn = self.m.fns[name]
        self.used.add(name)
        f = Frame(); f.fn = fn; f.blocks = self.m.blocks(fn); f.block = f.blocks['b'][f.blocks['entry']]; f.i = 0; f.env = {}; f.prev = None; f.ret = ret; f.allocas = []; f.loops = {}
        for (t, reg, byval), (at, a, abv) in zip(fn.params, args):
            if byval:
                n = None
                o = self.getobj(st, a.obj); size = o.size if isint(a.off) and a.off == 0 else o.size - a.off
                k = self.new(st, STACK, size, 'byval'); self.memcpy(st, Ptr(k, 0), a, size); f.allocas.append(k); a = Ptr(k, 0)
            f.env[reg] = a
        if len(st.frames) > 400: raise Undecided('call depth')
        st.frames.append(f)
        f.prev = None
        return f
    def pop(self, st):
        f = st.frames.pop()
        for k in f.allocas:
            o = self.wobj(st, k); o.freed = True; o.cells = {}
        return f
    def goto(self, st, f, to):
        f.prev = f.block.name; f.block = f.blocks['b'][to]; f.i = 0
        if f.block.phis:
            vals = []
            for p in f.block.phis:
                v = p['inc'].get(f.prev)
                if v is None: raise Undecided('phi without an incoming value')
                vals.append((p['dst'], self.val(st, f.env, p['ty'], v)))
            f.env.update(vals)
    def run(self, st, depth=0, stop=None):
        """generator of final states; stop(st, f, target) may intercept block transfers: it returns a tag to end the path with"""
        work = [st]
        while work:
            st = work.pop()
            try:
                while True:
                    r = self.step(st, depth, stop, work)
                    if r is not None:
                        yield r, st
                        break
            except Infeasible: continue
    def step(self, st, depth, stop, work):
        if st.pend is not None:
            p, st.pend = st.pend, None
            if isinstance(p, tuple): return self.unwind(st, Throw(*p[1]), depth, stop)
            return self.transfer(st, st.frames[-1], p, depth, stop, work)
        f = st.frames[-1]
        I = f.block.ins[f.i]
        self.ins += 1
        if self.ins > LIMIT_INS: raise Undecided('too many steps')
        if self.deadline and self.ins % 256 == 0 and time.time() > self.deadline: raise Undecided('time budget of the obligation is used up')
        try:
            return self.do(st, f, I, depth, stop, work)
        except Fork as fk:
            alive = []
            for c in fk.conds:
                d = self.decide(st, c)
                if d == 0: continue
                alive.append((c, d))
            if not alive: raise Infeasible()
            if FORKS is not None and len(alive) > 1 and not self.discover:
                k = f.fn.name[1:][-60:] + ' ' + str(f.block.name) + ' ' + I['op'] + ' ' + str(fk.conds[0])[:100].replace(chr(10), ' '); FORKS[k] = FORKS.get(k, 0) + 1
            for c, d in alive[1:]:
                s2 = st.copy()
                for o in s2.objs.values(): pass
                st_detach(st, s2)
                self.assume(s2, c); work.append(s2)
            self.assume(st, alive[0][0])
            return None
        except Throw as t:
            return self.unwind(st, t, depth, stop)
    def resolve(self, st, env, reg, x):
        while type(x) is PtrIte:
            d = self.decide(st, x.c)
            if d is None: raise Fork([conc(x.c), z3.Not(conc(x.c))])
            x = env[reg] = x.a if d else x.b
        return x
    def load_ite(self, st, env, ref, p, ty):
        t = self.m.resolve(ty)
        if t[0] == 'i':
            try: a, b = self.load_t(st, p.a, ty), self.load_t(st, p.b, ty)
            except Failed: a = b = None
            if (isint(a) or issym(a)) and (isint(b) or issym(b)): return ite(p.c, a, b, t[1])
        return self.load_t(st, self.resolve(st, env, ref[1], p), ty)
    def do(self, st, f, I, depth, stop, work):
        op = I['op']; env = f.env
        def V(t, v):
            if v[0] != 'reg': return self.const(st, t, v)
            x = env[v[1]]
            return self.resolve(st, env, v[1], x) if type(x) is PtrIte else x
        if op == 'load':
            p = I['ptr']; p = env[p[1]] if p[0] == 'reg' else self.const(st, PTR, p)
            env[I['dst']] = self.load_ite(st, env, I['ptr'], p, I['ty']) if type(p) is PtrIte else self.load_t(st, p, I['ty'])
        elif op == 'store': self.store_t(st, V(PTR, I['ptr']), I['ty'], V(I['ty'], I['val']))
        elif op == 'getelementptr': env[I['dst']] = self.gep(st, I['bt'], V(PTR, I['base']), [(it, V(it, x)) for it, x in I['idx']])
        elif op == 'bin' and I['o'] == 'and' and I['a'] == ('undef',): env[I['dst']] = binop('and', I['ty'][1], fresh('undef', I['ty'][1]), V(I['ty'], I['b']))      # parts of an aggregate that is put together in a register
        elif op == 'bin': env[I['dst']] = self.bin(st, I['o'], I['ty'], V(I['ty'], I['a']), V(I['ty'], I['b']), I['flags'])
        elif op == 'icmp': env[I['dst']] = self.icmp(st, I['pred'], I['ty'], V(I['ty'], I['a']), V(I['ty'], I['b']))
        elif op == 'fcmp': env[I['dst']] = self.fcmp(st, I['pred'], I['ty'], V(I['ty'], I['a']), V(I['ty'], I['b']))
        elif op == 'fneg':
            w = FLOATS[I['ty'][0]]; env[I['dst']] = binop('xor', w, V(I['ty'], I['a']), 1 << (w - 1))
        elif op == 'cast': env[I['dst']] = self.cast(st, I['o'], I['from'], V(I['from'], I['a']), I['ty'])
        elif op == 'select':
            c = V(('i', 1), I['c']); a, b = V(I['ty'], I['a']), V(I['ty'], I['b'])
            if isint(conc(c)): env[I['dst']] = a if conc(c) else b
            else:
                t = self.m.resolve(I['ty'])
                if t[0] == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not None and b.obj is not None:
                    d = self.decide(st, c); env[I['dst']] = PtrIte(c, a, b) if d is None else a if d else b
                elif t[0] in ('ptr', 'struct'): env[I['dst']] = a if self.branch(st, c) else b
                elif t == ('i', 64) and not (isint(a) and isint(b)):
                    d = self.decide(st, c); env[I['dst']] = ite(c, a, b, 64) if d is None else a if d else b
                else: env[I['dst']] = ite(c, a, b, FLOATS.get(t[0]) or t[1])
        elif op in ('call', 'invoke'): return self.call(st, f, I, depth, stop, work)
        elif op == 'br': return self.transfer(st, f, I['to'], depth, stop, work)
        elif op == 'cbr':
            c = V(('i', 1), I['c'])
            if c is UNDEF: self.require(st, 0, 'no-undefined-behaviour', 'branch on an uninitialised value')
            d = self.decide(st, c)
            if d is None:
                if self.undecided_exit(st, f, I): return self.summarise(st, f, depth, stop, work)
                c = conc(c); raise Fork([c, z3.Not(c)])
            return self.transfer(st, f, I['a'] if d else I['b'], depth, stop, work)
        elif op == 'switch':
            v = V(I['ty'], I['v'])
            if v is UNDEF: self.require(st, 0, 'no-undefined-behaviour', 'switch on an uninitialised value')
            w = I['ty'][1]
            if isint(v):
                to = next((b for c, b in I['cases'] if (c & ((1 << w) - 1)) == v), I['default'])
                return self.transfer(st, f, to, depth, stop, work)
            conds = [v == (c & ((1 << w) - 1)) for c, b in I['cases']]
            rest = z3.And(*[z3.Not(c) for c in conds]) if conds else z3.BoolVal(True)
            tg = {}
            for c, b in list(zip(conds, [b for _, b in I['cases']])) + [(rest, I['default'])]: tg.setdefault(b, []).append(c)
            ok = [(z3.Or(*c) if len(c) > 1 else c[0], b) for b, c in tg.items()]
            ok = [(c, b) for c, b in ok if self.decide(st, c) != 0]
            if not ok: raise Infeasible()
            if len(ok) == 1: return self.transfer(st, f, ok[0][1], depth, stop, work)
            raise Fork([c for c, _ in ok])
        elif op == 'ret':
            v = I['v']
            if v is not None: v = env[v[1]] if v[0] == 'reg' else self.const(st, I['ty'], v)
            return self.ret(st, v, depth, stop, work)
        elif op == 'unreachable': self.require(st, 0, 'no-undefined-behaviour', 'unreachable code is reached')
        elif op == 'extractvalue':
            v = V(I['aty'], I['a'])
            for k in I['idx']: v = v[k]
            env[I['dst']] = v
        elif op == 'insertvalue':
            v = V(I['ty'], I['a']); x = V(I['et'], I['v'])
            if len(I['idx']) != 1: raise Undecided('nested insertvalue')
            if v is UNDEF: v = tuple(UNDEF for _ in self.m.resolve(I['ty'])[1])
            v = list(v); v[I['idx'][0]] = x; env[I['dst']] = tuple(v)
        elif op == 'landingpad':
            env[I['dst']] = st.exc
        elif op == 'resume':
            v = V(I['ty'], I['v']); t = st.thrown
            raise Throw(*t)
        elif op == 'freeze':
            v = V(I['ty'], I['a']); env[I['dst']] = fresh('frozen', I['ty'][1]) if v is UNDEF else v
        elif op == 'atomicrmw':
            p = V(PTR, I['ptr']); old = self.load_t(st, p, I['ty']); v = V(I['ty'], I['v'])
            env[I['dst']] = old
            new = v if I['o'] == 'xchg' else self.bin(st, I['o'], I['ty'], old, v)
            self.store_t(st, p, I['ty'], new)
        elif op == 'cmpxchg':
            p = V(PTR, I['ptr']); old = self.load_t(st, p, I['ty']); c = V(I['ty'], I['cmp']); n = V(I['ty'], I['new'])
            eq = self.branch(st, self.icmp(st, 'eq', I['ty'], old, c))
            if eq: self.store_t(st, p, I['ty'], n)
            env[I['dst']] = (old, eq)
        elif op == 'alloca':
            n = V(('i', 64), I['n'])
            if not isint(n): raise Undecided('variable-length array')
            k = self.new(st, STACK, self.m.size(I['ty']) * n, f.fn.name + I['dst']); f.allocas.append(k); env[I['dst']] = Ptr(k, 0)
        elif op == 'nop': pass
        else: raise Undecided('instruction ' + I.get('text', op))
        f.i += 1
        return None
    def transfer(self, st, f, to, depth, stop, work):
        if stop is not None:
            r = stop(st, f, to)
            if r is not None: return r
        li = self.loops(f.fn)
        # leaving loops
        for h in list(f.loops):
            if to not in li[h]: del f.loops[h]
        if to in li:
            cnt = f.loops[to][1] + 1 if to in f.loops and f.block.name in li[to] else 0
            if cnt > 600: raise Undecided('a loop is unrolled too often')
            snap = st.copy(); st_detach(st, snap)
            f.loops[to] = (snap, cnt, to, [0], f.loops[to][4] if cnt else (snap, [0]))
            first = f.loops[to][4]
            if cnt == 1 and first[1][0] in (0, 'ok') and self.flagloop(f.fn, to):
                # the loop ends when a flag is set
                if first[1][0] == 'ok': raise Infeasible()
                import loops
                n, d = len(work), self.discover
                try: loops.Loop(self, first[0], to, li[to]).invariant(work); first[1][0] = 'ok'
                except Undecided as e:
                    if time.time() > (self.deadline or 1e18): raise
                    if __import__('os').environ.get('DV_INV'): print('NOINV', e, flush=True)
                    del work[n:]; self.discover = d; first[1][0] = 'no'
                if first[1][0] == 'ok': raise Infeasible()
        self.goto(st, f, to)
        return None
    def flagloop(self, fn, h):
        """is a flag, a small loop variable, the only thing that ends the loop?"""
        key = ('flag', fn.name, h)
        if key not in self.loopinfo:
            bl, body = self.m.blocks(fn)['b'], self.loops(fn)[h]
            flags = {p['dst'] for p in bl[h].phis if self.m.resolve(p['ty']) in (('i', 1), ('i', 8))}
            for I in bl[h].ins:
                if I['op'] == 'cast' and I['o'] == 'trunc' and I['a'][0] == 'reg' and I['a'][1] in flags: flags.add(I['dst'])
            throws = lambda b: any(I['op'] in ('call', 'invoke') and '__cxa_allocate_exception' in str(I) for I in bl[b].ins)
            ex = [I for b in body for I in bl[b].ins if I['op'] == 'cbr' and (I['a'] in body) != (I['b'] in body) and not throws(I['b'] if I['a'] in body else I['a'])]
            self.loopinfo[key] = bool(ex) and all(I['c'][0] == 'reg' and I['c'][1] in flags for I in ex)
        return self.loopinfo[key]
    def undecided_exit(self, st, f, I):
        """is this the undecided exit test of an enclosing loop?"""
        li = self.loops(f.fn)
        for h in f.loops:
            body = li[h]
            if f.block.name in body and ((I['a'] in body) != (I['b'] in body)): return True
        return False
    def loops(self, fn):
        """header -> set of blocks of the natural loops"""
        r = self.loopinfo.get(fn.name)
        if r is not None: return r
        b = self.m.blocks(fn); bl, entry = b['b'], b['entry'].name if not isinstance(b['entry'], str) else b['entry']
        # dominators
        order, seen = [], set()
        stack = [(entry, iter(bl[entry].succ))]; seen.add(entry)
        while stack:
            n, it = stack[-1]
            for x in it:
                if x not in seen: seen.add(x); stack.append((x, iter(bl[x].succ))); break
            else: order.append(n); stack.pop()
        order.reverse(); num = {n: i for i, n in enumerate(order)}
        pred = {n: [] for n in order}
        for n in order:
            for s in bl[n].succ: pred[s].append(n)
        idom = {entry: entry}; ch = True
        def inter(a, c):
            while a != c:
                while num[a] > num[c]: a = idom[a]
                while num[c] > num[a]: c = idom[c]
            return a
        while ch:
            ch = False
            for n in order[1:]:
                ps = [p for p in pred[n] if p in idom]
                d = ps[0]
                for p in ps[1:]: d = inter(p, d)
                if idom.get(n) != d: idom[n] = d; ch = True
        def dom(a, n):
            while True:
                if a == n: return True
                if n == entry: return False
                n = idom[n]
        r = {}
        for n in order:
            for s in bl[n].succ:
                if dom(s, n):
                    body = r.setdefault(s, {s}); st = [n]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += pred[x]
        self.loopinfo[fn.name] = r
        return r
    def ret(self, st, v, depth, stop, work):
        f = self.pop(st)
        if len(st.frames) <= depth: st.result = v; return 'ret'
        g = st.frames[-1]
        if f.ret is not None:
            dst, normal = f.ret
            if dst is not None: g.env[dst] = v
            if normal is not None: return self.transfer(st, g, normal, depth, stop, work)
        g.i += 1
        return None
    def unwind(self, st, t, depth, stop):
        first = True
        while True:
            if len(st.frames) <= depth: st.thrown = (t.ty, t.obj); return 'throw'
            f = st.frames[-1]
            I = f.block.ins[f.i]
            if I['op'] == 'invoke' and (not first or True):
                lp = f.blocks['b'][I['unwind']]
                pad = lp.ins[0]
                sel = 0
                for kind, c in pad['clauses']:
                    if kind == 'filter':
                        if c[0] in ('zero', 'agg'): sel = -1
                        raise Undecided('exception specification')
                    ti = c[1] if c[0] == 'glob' else None
                    if ti is None or ti == t.ty or ti in BASES.get(t.ty, []):
                        sel = self.tid(ti); break
                if sel or pad['cleanup']:
                    st.thrown = (t.ty, t.obj); st.exc = (Ptr(t.obj, 0), sel)
                    if stop is not None:
                        r = stop(st, f, I['unwind'])
                        if r is not None: return r
                    li = self.loops(f.fn)
                    for h in list(f.loops):
                        if I['unwind'] not in li[h]: del f.loops[h]
                    self.goto(st, f, I['unwind'])
                    return None
            self.pop(st)
    def tid(self, ti): return self.ti.setdefault(ti, len(self.ti) + 1)
    def throw(self, st, ty):
        k = self.new(st, HEAP, 64, 'exception', alloc='exc'); raise Throw(ty, k)

    # ------------------------------------------------------------ calls
    def call(self, st, f, I, depth, stop, work):
        env = f.env
        def V(t, v):
            if v[0] != 'reg': return self.const(st, t, v)
            x = env[v[1]]
            return self.resolve(st, env, v[1], x) if type(x) is PtrIte else x
        fn = V(PTR, I['fn'])
        dst, normal = I['dst'], I.get('normal')
        if not isinstance(fn, FnPtr):
            if fn is UNDEF or (isinstance(fn, Ptr) and fn.obj is None): self.require(st, 0, 'memory-safety', 'call through a null or uninitialised pointer')
            raise Undecided(f'call through {fn}')
        name = self.m.aliases.get(fn.name, fn.name)
        # a caller is checked against the contract of the callee where the contract file has one
        r = '@__xt_replace_' + name[1:]
        if r in self.m.fns and f.fn.name != r: name = r; self.contracts_used.add(r[14:])
        # ... and a recursive call against the contract of the function itself (induction)
        r = '@__xt_replace_rec_' + name[1:]
        if r in self.m.fns and any(g.fn.name == name for g in st.frames): name = r; self.contracts_used.add(r[18:] + ' (recursive calls)')
        if name.startswith('@llvm.'):
            if name.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.experimental.noalias', '@llvm.assume', '@llvm.stack')):
                f.i += 1; return None
        args = [(t, V(t, v), bvl) for t, v, bvl in I['args'] if t != ('metadata',)]
        h = BUILTIN.get(name)
        if h is None:
            for pre, hh in PREFIX:
                if name.startswith(pre): h = hh; break
        if h is None and name in THROWERS: self.throw(st, THROWERS[name])
        if h is not None:
            v = h(self, st, name, [a for _, a, _ in args], [t for t, _, _ in args])
            if v is STOP: return 'stop'
            if dst is not None: env[dst] = v
            if normal is not None: return self.transfer(st, f, normal, depth, stop, work)
            f.i += 1; return None
        if name not in self.m.fns: raise Undecided('no contract for the external function ' + name)
        self.call_fn(st, name, args, (dst, normal))
        return None
    def cstr(self, st, p):
        o = self.getobj(st, p.obj); off = self.concoff(st, p.off); b = bytearray()
        while True:
            c = self.byte(o, off + len(b))
            if not isint(c): raise Undecided('string with symbolic bytes')
            if c == 0: return b.decode('latin1')
            b.append(c)
    def cases(self, st, I):
        c = conc(self.val(st, st.frames[-1].env, ('i', 1), I['c'])); return [c, z3.Not(c)]
    def summarise(self, st, f, depth, stop, work):
        import loops
        return loops.summarise(self, st, f, depth, stop, work)

class _Stop: pass
STOP = _Stop()

def st_detach(a, b):
    """after a copy neither state owns the shared objects"""
    for o in a.objs.values():
        if o.owner is a or o.owner is b: o.owner = None

def _nd(w):
    def f(x, st, name, a, t):
        v = fresh('nd', w); st.nds = st.nds + ((name, v, w),)
        return v
    return f
def b_assume(x, st, name, a, t):
    c = conc(a[0])
    if isint(c):
        if not c: raise Infeasible()
        return None
    x.assume(st, boolv(c))
    if not x.sat(st): raise Infeasible()
def b_assert(x, st, name, a, t):
    n = x.cstr(st, a[1])
    x.require(st, a[0] if a[0] is not UNDEF else 0, n, 'the stated condition is false')
def b_reach(x, st, name, a, t):
    x.reached.add(x.cstr(st, a[0]))
def b_new(x, st, name, a, t):
    n = a[0]
    n = conc(z3.simplify(n)) if issym(n) else n
    if isint(n) and n > 1 << 40: x.throw(st, '@_ZTISt9bad_alloc')
    k = x.new(st, HEAP, n, 'memory from operator new' + ('[]' if 'Znam' in name else ''), alloc='new[]' if 'Znam' in name else 'new')
    return Ptr(k, 0)
def b_delete(x, st, name, a, t):
    p = a[0]
    if p is UNDEF: x.require(st, 0, 'memory-safety', 'delete of an uninitialised pointer')
    if p.obj is None: return None
    o = x.getobj(st, p.obj)
    if o.kind != HEAP: x.require(st, 0, 'memory-safety', 'delete of memory that is not from new')
    if o.freed: x.require(st, 0, 'memory-safety', 'memory is freed twice')
    off = conc(p.off)
    if not isint(off): off = x.poly(st, off); off = 0 if off == {} else 1
    if off != 0: x.require(st, 0, 'memory-safety', 'delete of a pointer into the middle of a block')
    al = 'new[]' if 'Zda' in name else 'new'
    if o.alloc != al: x.require(st, 0, 'memory-safety', f'{o.alloc} is released by another kind of delete')
    x.kill_slots(st, p.obj)
    o = x.wobj(st, p.obj); o.freed = True; o.cells = {}; o.arr = None; o.pts = ()
def b_memcpy(x, st, name, a, t):
    x.memcpy(st, a[0], a[1], a[2]); return a[0]
def b_memset(x, st, name, a, t):
    x.memset(st, a[0], resize(a[1], t[1][1], 8) if t[1][0] == 'i' else a[1], a[2]); return a[0]
def b_memcmp(x, st, name, a, t):
    n = conc(a[2])
    if not isint(n): raise Undecided('memcmp of symbolic length')
    r, dec = None, []
    for k in range(n):
        p = x.load(st, Ptr(a[0].obj, binop('add', 64, a[0].off, k)), 1); q = x.load(st, Ptr(a[1].obj, binop('add', 64, a[1].off, k)), 1)
        dec.append((p, q))
    r = 0
    for p, q in reversed(dec):
        if isint(p) and isint(q): r = r if p == q else (1 if p > q else 0xffffffff)
        else: r = z3.If(bv(p, 8) == bv(q, 8), bv(r, 32), z3.If(z3.UGT(bv(p, 8), bv(q, 8)), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return r
def b_strlen(x, st, name, a, t): return len(x.cstr(st, a[0]))
def b_strcmp(x, st, name, a, t):
    p, q = x.cstr(st, a[0]), x.cstr(st, a[1])
    return (p > q) - (p < q) & 0xffffffff
def b_throw(x, st, name, a, t):
    raise Throw(a[1].name if isinstance(a[1], FnPtr) else x.getobj(st, a[1].obj).name, a[0].obj)
def b_allocexc(x, st, name, a, t): return Ptr(x.new(st, HEAP, a[0], 'exception', alloc='exc'), 0)
def b_begin(x, st, name, a, t):
    st.caught.append(st.thrown); return a[0]
def b_end(x, st, name, a, t): st.caught.pop()
def b_rethrow(x, st, name, a, t):
    raise Throw(*st.caught[-1])
def b_typeid(x, st, name, a, t):
    p = a[0]; return x.tid(x.getobj(st, p.obj).name)
def b_terminate(x, st, name, a, t): x.require(st, 0, 'no-undefined-behaviour', 'std::terminate is reached')
def b_guard(x, st, name, a, t):
    v = x.load(st, a[0], 1)
    return 0 if isint(v) and v else 1
def b_guardrel(x, st, name, a, t): x.store(st, a[0], 1, 1)
def b_ovf(op):
    def f(x, st, name, a, t):
        w = t[0][1]; r = binop({'u': '', 's': ''}[op[0]] + op[1:], w, a[0], a[1])
        if isint(a[0]) and isint(a[1]):
            if op[0] == 's': A, B = signed(a[0], w), signed(a[1], w)
            else: A, B = a[0], a[1]
            R = {'add': A + B, 'sub': A - B, 'mul': A * B}[op[1:]]
            ok = (-(1 << (w - 1)) <= R < 1 << (w - 1)) if op[0] == 's' else 0 <= R < 1 << w
            return (r, int(not ok))
        p, q = bv(a[0], w), bv(a[1], w); s = op[0] == 's'
        c = {'add': lambda: [z3.BVAddNoOverflow(p, q, s)] + ([z3.BVAddNoUnderflow(p, q)] if s else []), 'sub': lambda: [z3.BVSubNoUnderflow(p, q, s)] + ([z3.BVSubNoOverflow(p, q)] if s else []),
             'mul': lambda: [z3.BVMulNoOverflow(p, q, s)] + ([z3.BVMulNoUnderflow(p, q)] if s else [])}[op[1:]]()
        return (r, z3.Not(z3.And(*c)))
    return f
def b_minmax(x, st, name, a, t):
    w = t[0][1]; k = name.split('.')[1]
    return ite(icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], w, a[0], a[1]), a[0], a[1], w)
def b_abs(x, st, name, a, t):
    w = t[0][1]; return ite(icmp('slt', w, a[0], 0), binop('sub', w, 0, a[0]), a[0], w)
def b_ctlz(x, st, name, a, t):
    if isint(a[0]): return t[0][1] - a[0].bit_length()
    raise Undecided('ctlz')
def b_slots(x, st, name, a, t):
    """fresh block of n live instances of the type with arbitrary values"""
    ty, n = a[0], a[1]
    s = x.S(ty)
    k = x.new(st, HEAP, binop('mul', 64, bv(n, 64) if not isint(n) else n, s), 'block of instances', alloc='new[]')
    nm = f'v{k}'
    if isint(n) and n == 1:
        v = fresh('val', 64); st.nds = st.nds + (('val', v, 64),)
        x.wobj(st, k).arr = Arr(((bv(ty, 64), next(iter(x.poly(st, s)))[0]),), 1, ((('at', 1, 0, 1, v),),))
    else:
        f = lambda j: (1, uf(nm, z3.BitVecSort(64), bv(j, 64)))
        x.wobj(st, k).arr = Arr(((bv(ty, 64), next(iter(x.poly(st, s)))[0]),), n, ((('fn', 0, n, f),),))
    return Ptr(k, 0)
def b_slots2(x, st, name, a, t):
    """fresh block of n live pairs"""
    t1, t2, n = a
    s1, s2 = x.S(t1), x.S(t2)
    k = x.new(st, HEAP, binop('mul', 64, bv(n, 64), s1 + s2), 'block of pairs', alloc='new[]')
    f = lambda nm: (lambda j: (1, uf(nm, z3.BitVecSort(64), bv(j, 64))))
    a1, a2 = next(iter(x.poly(st, s1)))[0], next(iter(x.poly(st, s2)))[0]
    x.layout_atoms[a1], x.layout_atoms[a2] = 0, 1
    x.wobj(st, k).arr = Arr(((bv(t1, 64), a1), (bv(t2, 64), a2)), n, ((('fn', 0, n, f(f'k{k}')),), (('fn', 0, n, f(f'm{k}')),)))
    return Ptr(k, 0)
def b_order(x, st, name, a, t):
    """declares that instances of the first type lie before those of the second in a composite"""
    for k, ty in enumerate(a): x.layout_atoms[next(iter(x.poly(st, x.S(ty))))[0]] = k
def K(fname):
    def f(x, st, name, a, t):
        x.contracts_used.add(name[1:])
        if name == '@__xt_move' or name == '@__xt_k_move': a[3] = resize(a[3], t[3][1], 1)
        return getattr(x, fname)(st, *a)
    return f
def b_live(x, st, name, a, t):
    loc = x.slot(st, a[0], a[1], 'specification')
    if loc[0] == 'pt' and loc[2] is not None:
        q = x.getobj(st, loc[1]).pts[loc[2]]
        return q.live if bv(q.ty, 64).eq(bv(a[0], 64)) else zand(q.live, bv(q.ty, 64) == bv(a[0], 64))
    _, (l, v) = x.get(st, a[0], a[1], 'specification')
    return l
def b_val(x, st, name, a, t):
    _, (l, v) = x.get(st, a[0], a[1], 'specification')
    return fresh('noval', 64) if v is UNDEF else v
def b_vdflt(x, st, name, a, t): return uf('dflt', z3.BitVecSort(64), bv(a[0], 64))
def b_vconv(x, st, name, a, t): return x.convv(a[0], a[1], a[2])
def b_veq(x, st, name, a, t): return x.eqv(*a)
def b_vhash(x, st, name, a, t): return uf('hsh', z3.BitVecSort(64), bv(a[0], 64), bv(a[1], 64))
def b_vctor(x, st, name, a, t): return x.ctor(a[0])
def b_index(x, st, name, a, t):
    add_index(x, st, bv(a[0], 64), True); return None
def b_freed(x, st, name, a, t):
    return int(x.getobj(st, a[0].obj).freed)
def b_uf(x, st, name, a, t):
    return uf('u' + x.cstr(st, a[0]), z3.BitVecSort(64), *[bv(v, 64) for v in a[1:]])
def b_forall_eq(x, st, name, a, t):
    """are the first n instances at p and at q pairwise equal? (values at the time of the call)"""
    ty, p, q, n = a
    if isint(conc(n)) and conc(n) == 0: return 1
    lp, lq = x.slot(st, ty, p, 'specification'), x.slot(st, ty, q, 'specification')
    if lp[0] != 'arr' or lq[0] != 'arr': raise Undecided('__xt_forall_eq on single instances')
    gp, gq = x.getobj(st, lp[1]).arr.log[lp[2]], x.getobj(st, lq[1]).arr.log[lq[2]]
    fn = lambda j: x.eqv(ty, x.query(st, gp, bv(lp[3], 64) + j)[1], x.query(st, gq, bv(lq[3], 64) + j)[1])
    B, wit = fresh('alleq', 1), fresh('wit', 64)
    add_fact(x, st, 0, n, fn, B)
    x.assume(st, z3.Or(B, z3.And(z3.ULT(wit, bv(n, 64)), z3.Not(fn(wit)))))
    add_index(x, st, wit)
    return B
def b_eqhash(x, st, name, a, t):
    """assumed contract of the instances: equal ones have equal hashes"""
    x.eqhash = True
def b_mark(x, st, name, a, t): st.heapmark = x.nobj
def b_noleak(x, st, name, a, t):
    left = [o.name for k, o in st.objs.items() if k > st.heapmark and o.kind == HEAP and not o.freed and o.alloc != 'exc']
    x.require(st, int(not left), 'no-leak', 'memory is never released: ' + ', '.join(left[:3]))

def add_index(x, st, j, pairs=False):
    if pairs and not any(j.eq(q) for q in st.idx2):
        st.idx2 = st.idx2 + (j,)
        for fct in st.facts2:
            for q in st.idx2: inst2(x, st, fct, q, j); inst2(x, st, fct, j, q)
    for i in (j, z3.simplify(j + 1), z3.simplify(j - 1)):
        if any(i.eq(q) for q in st.idx): continue
        st.idx = st.idx + (i,)
        for fct in st.facts: inst(x, st, fct, i)
def add_fact2(x, st, n, fn):
    """for all i < j < n: fn(i, j)"""
    fct = (n, fn); st.facts2 = st.facts2 + (fct,)
    for i in st.idx2:
        for j in st.idx2: inst2(x, st, fct, i, j)
def inst2(x, st, fct, i, j):
    if i.eq(j): return
    n, fn = fct
    r = zand(*[conc(z3.simplify(q)) for q in (z3.ULT(i, j), z3.ULT(j, bv(n, 64)))])
    if isint(r) and not r: return
    x.assume(st, zor(znot(r), fn(i, j)))
def b_sorted(x, st, name, a, t):
    """assumption: the hashes of the n keys at p increase strictly"""
    ty, p, n = a
    l = x.slot(st, ty, p, 'specification')
    if l[0] != 'arr': raise Undecided('__xt_sorted on a single instance')
    lg = x.getobj(st, l[1]).arr.log[l[2]]; base = bv(l[3], 64)
    h = lambda j: uf('hsh', z3.BitVecSort(64), bv(ty, 64), bv(x.query(st, lg, base + j)[1], 64))
    add_fact2(x, st, n, lambda i, j: z3.ULT(h(i), h(j)))
def b_absent(x, st, name, a, t):
    """assumption: none of the n keys at p has the hash h"""
    ty, p, n, h = a
    l = x.slot(st, ty, p, 'specification')
    if l[0] != 'arr': raise Undecided('__xt_absent on a single instance')
    lg = x.getobj(st, l[1]).arr.log[l[2]]; base = bv(l[3], 64)
    add_fact(x, st, 0, n, lambda j: uf('hsh', z3.BitVecSort(64), bv(ty, 64), bv(x.query(st, lg, base + j)[1], 64)) != bv(h, 64))
def b_spare(x, st, name, a, t):
    """assumption: the slots lo <= i < hi at p hold the default value"""
    ty, p, lo, hi = a
    l = x.slot(st, ty, p, 'specification')
    if l[0] != 'arr': raise Undecided('__xt_spare on a single instance')
    lg = x.getobj(st, l[1]).arr.log[l[2]]; base = bv(l[3], 64); d = uf('dflt', z3.BitVecSort(64), bv(ty, 64))
    add_fact(x, st, lo, hi, lambda j: bv(x.query(st, lg, base + j)[1], 64) == d)
def add_fact(x, st, lo, hi, fn, guard=1):
    fct = (guard, lo, hi, fn); st.facts = st.facts + (fct,)
    for j in st.idx: inst(x, st, fct, j)
def inst(x, st, fct, j):
    g, lo, hi, fn = fct
    r = zand(*[conc(z3.simplify(q)) for q in (z3.ULE(bv(lo, 64), j), z3.ULT(j, bv(hi, 64)))])
    if isint(r) and not r: return
    c = zor(znot(g), znot(r), fn(j))
    x.assume(st, c)
    if x.eqhash and issym(c):
        for e in apps(c, 'eqv'):
            ty, p, q = e.children()
            x.assume(st, z3.Implies(e, uf('hsh', z3.BitVecSort(64), ty, p) == uf('hsh', z3.BitVecSort(64), ty, q)))
def apps(t, name):
    r, seen, stack = [], set(), [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() == name: r.append(e)
        stack += e.children()
    return r

BUILTIN = {'@__xt_nondet_u64': _nd(64), '@__xt_nondet_u32': _nd(32), '@__xt_nondet_u16': _nd(16), '@__xt_nondet_u8': _nd(8), '@__xt_nondet_ld': _nd(80), '@__xt_nondet_bool': _nd(1),
    '@__xt_assume': b_assume, '@__xt_assert': b_assert, '@__xt_reach': b_reach,
    '@_Znwm': b_new, '@_Znam': b_new, '@_ZdlPv': b_delete, '@_ZdaPv': b_delete, '@_ZdlPvm': b_delete, '@_ZdaPvm': b_delete,
    '@memcpy': b_memcpy, '@memmove': b_memcpy, '@memset': b_memset, '@memcmp': b_memcmp, '@strlen': b_strlen, '@strcmp': b_strcmp,
    '@__cxa_throw': b_throw, '@__cxa_allocate_exception': b_allocexc, '@__cxa_free_exception': lambda *a: None, '@__cxa_begin_catch': b_begin, '@__cxa_end_catch': b_end, '@__cxa_rethrow': b_rethrow,
    '@llvm.eh.typeid.for': b_typeid, '@llvm.eh.typeid.for.p0': b_typeid, '@_ZSt9terminatev': b_terminate, '@llvm.trap': b_terminate, '@abort': b_terminate, '@__cxa_pure_virtual': b_terminate, '@__clang_call_terminate': b_terminate,
    '@__cxa_guard_acquire': b_guard, '@__cxa_guard_release': b_guardrel, '@__cxa_guard_abort': lambda *a: None, '@__cxa_atexit': lambda *a: 0,
    '@_ZNSt8ios_base4InitC1Ev': lambda *a: None, '@_ZNSt6localeC1Ev': lambda *a: None, '@_ZNSt6localeD1Ev': lambda *a: None, '@_ZNSt12bad_weak_ptrD1Ev': lambda *a: None, '@_ZNSt13runtime_errorC1EPKc': lambda *a: None, '@_ZNSt13runtime_errorC2EPKc': lambda *a: None,
    '@__xt_slots': b_slots, '@__xt_slots2': b_slots2, '@__xt_order': b_order, '@__xt_live': b_live, '@__xt_val': b_val, '@__xt_v_default': b_vdflt, '@__xt_v_conv': b_vconv, '@__xt_v_eq': b_veq, '@__xt_v_hash': b_vhash, '@__xt_v_ctor': b_vctor,
    '@__xt_index': b_index, '@__xt_sorted': b_sorted, '@__xt_absent': b_absent, '@__xt_spare': b_spare, '@__xt_forall_eq': b_forall_eq, '@__xt_eqhash': b_eqhash, '@__xt_freed': b_freed, '@__xt_same_object': lambda x, st, name, a, t: int(a[0].obj == a[1].obj), '@__xt_mark': b_mark, '@__xt_noleak': b_noleak,
    '@__xt_size': K('k_size'), '@__xt_construct': K('k_construct'), '@__xt_copy': K('k_copy'), '@__xt_conv': K('k_conv'), '@__xt_move': K('k_move'), '@__xt_destroy': K('k_destroy'), '@__xt_eq': K('k_eq'), '@__xt_hash': K('k_hash'),
    '@__xt_uf1': b_uf, '@__xt_uf2': b_uf, '@__xt_uf3': b_uf}
for s in 'us':
    for o in ('add', 'sub', 'mul'):
        for w in (8, 16, 32, 64): BUILTIN[f'@llvm.{s}{o}.with.overflow.i{w}'] = b_ovf(s + o)
def b_stream(x, st, name, a, t):
    """text streams: only used for messages; assumed to have no effect on the data"""
    if '3strEv' in name:
        p = a[0]
        x.store(st, p, 8, Ptr(p.obj, binop('add', 64, p.off, 16))); x.store(st, Ptr(p.obj, binop('add', 64, p.off, 8)), 8, 0); x.store(st, Ptr(p.obj, binop('add', 64, p.off, 16)), 1, 0)
        return None
    return a[0] if a else None
PREFIX = [('@_ZNSt7__cxx1119basic_ostringstream', b_stream), ('@_ZNKSt7__cxx1119basic_ostringstream', b_stream), ('@_ZNSt7__cxx1118basic_stringstream', b_stream), ('@_ZNKSt7__cxx1118basic_stringstream', b_stream), ('@_ZStls', b_stream), ('@_ZNSols', b_stream), ('@_ZNSt13runtime_errorC', b_stream), ('@_ZNSt11range_errorC', b_stream), ('@_ZNSt11range_errorD', b_stream), ('@_ZNSt13runtime_errorD', b_stream),
          ('@llvm.memcpy', b_memcpy), ('@llvm.memmove', b_memcpy), ('@llvm.memset', b_memset), ('@llvm.umin', b_minmax), ('@llvm.umax', b_minmax), ('@llvm.smin', b_minmax), ('@llvm.smax', b_minmax),
          ('@llvm.abs', b_abs), ('@llvm.ctlz', b_ctlz), ('@llvm.is.constant', lambda *a: 0), ('@llvm.expect', lambda x, st, n, a, t: a[0]), ('@llvm.objectsize', lambda *a: (1 << 64) - 1)]
