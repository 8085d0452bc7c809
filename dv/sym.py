"""Values, polynomials over 64-bit terms, and the solver interface."""
import time, z3

SLOW = __import__('os').environ.get('DV_SLOW')
class Undecided(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __repr__(self): return f"Ptr({self.obj},{self.off})"
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return f"Fn({self.name})"
class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()
NULL = Ptr(None, 0)

def isint(v): return type(v) is int
def issym(v): return isinstance(v, z3.ExprRef)

def bv(v, w):
    if type(v) is int: return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def boolv(v):
    if type(v) is int: return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef): return v != 0
    return v
def conc(v):
    """concrete value of a term if it is a literal"""
    if type(v) is int: return v
    if isinstance(v, z3.BitVecNumRef): return v.as_long()
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
    return v
def signed(v, w): return v - (1 << w) if v >> (w - 1) else v

def fold(op, w, a, b):
    m = (1 << w) - 1
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & m if b < w else 0
    if op == 'lshr': return a >> b if b < w else 0
    if op == 'ashr': return (signed(a, w) >> min(b, w - 1)) & m
    if op == 'udiv': return a // b if b else m
    if op == 'urem': return a % b if b else a
    sa, sb = signed(a, w), signed(b, w)
    if sb == 0: return None
    q = abs(sa) // abs(sb)
    if (sa < 0) != (sb < 0): q = -q
    if op == 'sdiv': return q & m
    if op == 'srem': return (sa - q * sb) & m

def binop(op, w, a, b):
    if w == 1:
        a, b = conc(a), conc(b)
        if isint(a) and isint(b): return fold(op, 1, a, b)
        if op == 'and':
            if a == 0 if isint(a) else False: return 0
            if isint(b) and b == 0: return 0
            if isint(a): return b
            if isint(b): return a
            return z3.And(boolv(a), boolv(b))
        if op == 'or':
            if isint(a): return 1 if a else b
            if isint(b): return 1 if b else a
            return z3.Or(boolv(a), boolv(b))
        if op in ('xor', 'add', 'sub'):
            if isint(a): return z3.Not(boolv(b)) if a else b
            if isint(b): return z3.Not(boolv(a)) if b else a
            return z3.Xor(boolv(a), boolv(b))
        raise Undecided('i1 ' + op)
    if isint(a) and isint(b):
        r = fold(op, w, a, b)
        if r is not None: return r
    if op in ('add', 'or', 'xor') and isint(a) and a == 0: return b
    if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and isint(b) and b == 0: return a
    if op == 'mul':
        if isint(a): a, b = b, a
        if isint(b) and b == 1: return a
        if isint(b) and b == 0: return 0
    if op == 'and' and ((isint(a) and a == 0) or (isint(b) and b == 0)): return 0
    if op in ('udiv', 'sdiv') and isint(b) and b == 1: return a
    x, y = bv(a, w), bv(b, w)
    return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
            'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
            'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()

def icmp(pred, w, a, b):
    if isint(a) and isint(b):
        if pred[0] == 's': a, b, pred = signed(a, w), signed(b, w), 'u' + pred[1:]
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
    if w == 1:
        x, y = boolv(a), boolv(b)
        if pred == 'eq': return x == y
        if pred == 'ne': return z3.Xor(x, y)
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
            'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()

def resize(v, fw, tw, sgn=False):
    if fw == tw: return v
    if tw == 1:
        if isint(v): return v & 1
        return z3.Extract(0, 0, v) == 1
    if fw == 1:
        if isint(v): return ((1 << tw) - 1 if sgn else 1) if v else 0
        return z3.If(v, z3.BitVecVal(-1 if sgn else 1, tw), z3.BitVecVal(0, tw))
    if isint(v):
        if tw < fw: return v & ((1 << tw) - 1)
        return signed(v, fw) & ((1 << tw) - 1) if sgn else v
    if tw < fw:
        # extract of an extension
        if v.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            x = v.arg(0)
            if x.size() == tw: return x
            if x.size() > tw: return z3.Extract(tw - 1, 0, x)
        return z3.Extract(tw - 1, 0, v)
    return z3.SignExt(tw - fw, v) if sgn else z3.ZeroExt(tw - fw, v)

UF = {}
def uf(name, rng, *args):
    """application of an uninterpreted function; sorts taken from the arguments"""
    key = (name, str(rng), tuple(str(a.sort()) for a in args))
    f = UF.get(key)
    if f is None:
        f = UF[key] = z3.Function(name, *[a.sort() for a in args], rng) if args else z3.Const(name, rng)
    return f(*args) if args else f

_n = [0]
def fresh(name, w):
    _n[0] += 1
    if w == 'bool' or w == 1: return z3.Bool(f"{name}!{_n[0]}")
    return z3.BitVec(f"{name}!{_n[0]}", w)

DUMP = __import__("os").environ.get('DV_DUMP')
class Solver:
    """path-prefix incremental interface to z3"""
    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver(); self.s.set('timeout', 700); self.stack = []; self.timeout = timeout_ms; self.again = 0
        self.queries, self.time, self.unknowns = 0, 0.0, 0
        self.cache = {}
        self.deadline = None
    def sync(self, pc):
        n = 0; m = min(len(pc), len(self.stack))
        while n < m and self.stack[n] is pc[n]: n += 1
        if len(self.stack) > n: self.s.pop(len(self.stack) - n); del self.stack[n:]
        for c in pc[n:]:
            self.s.push(); self.s.add(c); self.stack.append(c)
    def check(self, pc, *conds):
        """sat/unsat of the conjunction; raises Undecided when the solver gives up"""
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget of the obligation is used up')
        cs = []
        for c in conds:
            c = conc(z3.simplify(c))
            if isint(c):
                if not c: return 'unsat'
            else: cs.append(c)
        key = (tuple(id(p) for p in pc), tuple(c.get_id() for c in cs))
        t = time.time(); self.queries += 1
        self.sync(pc)
        if cs:
            self.s.push()
            for c in cs: self.s.add(c)
        r = self.s.check()
        sv = self.s
        if r == z3.unknown:
            # the incremental solver gives up early; the same query from scratch, with preprocessing
            sv = z3.Solver(); sv.set('timeout', self.timeout); sv.add(*pc); sv.add(*cs); self.again += 1
            r = sv.check()
        self.model = sv.model() if r == z3.sat else None
        if cs: self.s.pop()
        self.time += time.time() - t
        if SLOW and time.time() - t > float(SLOW): print('SLOW', round(time.time() - t, 1), r, len(pc), [str(c)[:300] for c in cs], flush=True)
        if DUMP and time.time() - t > 1.5:
            q = z3.Solver(); q.add(*pc); q.add(*cs); open(f'{DUMP}/slow{self.queries}.smt2', 'w').write('(set-logic QF_UFBV)\n' + q.to_smt2())
        if r == z3.unknown:
            self.unknowns += 1
            raise Undecided('solver: ' + sv.reason_unknown())
        return 'sat' if r == z3.sat else 'unsat'

# ------------------------------------------------------------------ polynomials over BV64 atoms, modulo 2^64
M64 = (1 << 64) - 1
ATOMS = {}
def _atom(e):
    e = z3.simplify(e)
    ATOMS[e.get_id()] = e; return e.get_id()
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + k * c) & M64
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); x = (r.get(k, 0) + c * d) & M64
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def pconst(c): c &= M64; return {(): c} if c else {}
_pc = {}
def poly(e, nowrap=None):
    """polynomial of a 64-bit term; nowrap(op, a, b, w): does the w-bit operation not wrap (so an extension distributes)?"""
    if isint(e): return pconst(e)
    key = e.get_id() if nowrap is None else None
    if key is not None and key in _pc: return _pc[key][1]
    k = e.decl().kind()
    if isinstance(e, z3.BitVecNumRef): r = pconst(e.as_long())
    elif k == z3.Z3_OP_BADD:
        r = {}
        for c in e.children(): r = padd(r, poly(c, nowrap))
    elif k == z3.Z3_OP_BSUB: r = padd(poly(e.arg(0), nowrap), poly(e.arg(1), nowrap), -1)
    elif k == z3.Z3_OP_BNEG: r = padd({}, poly(e.arg(0), nowrap), -1)
    elif k == z3.Z3_OP_BMUL:
        r = pconst(1)
        for c in e.children(): r = pmul(r, poly(c, nowrap))
    elif k == z3.Z3_OP_BSHL and isinstance(e.arg(1), z3.BitVecNumRef): r = pmul(poly(e.arg(0), nowrap), pconst(1 << e.arg(1).as_long()))
    elif k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and nowrap is not None:
        x = e.arg(0); kk = x.decl().kind(); w = x.size(); sg = k == z3.Z3_OP_SIGN_EXT
        ext = (lambda t: z3.SignExt(64 - w, t)) if sg else (lambda t: z3.ZeroExt(64 - w, t))
        if kk in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB) and len(x.children()) == 2 and nowrap(kk, x.arg(0), x.arg(1), w, sg):
            a, b = x.arg(0), x.arg(1)
            if isinstance(b, z3.BitVecNumRef): pb = pconst(signed(b.as_long(), w) if sg else b.as_long())
            else: pb = poly(ext(b), nowrap)
            if isinstance(a, z3.BitVecNumRef): pa = pconst(signed(a.as_long(), w) if sg else a.as_long())
            else: pa = poly(ext(a), nowrap)
            r = padd(pa, pb, 1 if kk == z3.Z3_OP_BADD else -1)
        elif kk == z3.Z3_OP_BADD and isinstance(x.arg(1), z3.BitVecNumRef) and nowrap('dec', x.arg(0), x.arg(1), w, sg):
            r = padd(poly(ext(x.arg(0)), nowrap), pconst(signed(x.arg(1).as_long(), w)))
        elif kk == z3.Z3_OP_EXTRACT and x.params()[1] == 0 and x.arg(0).size() == 64 and nowrap('trunc', x.arg(0), None, w, sg):
            r = poly(x.arg(0), nowrap)
        elif sg and nowrap('nonneg', x, None, w, sg): r = poly(z3.ZeroExt(64 - w, x), nowrap)
        else: r = {(_atom(e),): 1}
    else: r = {(_atom(e),): 1}
    if key is not None: _pc[key] = (e, r)
    return r
def unpoly(p):
    t = None
    for m, c in sorted(p.items()):
        x = None
        for a in m: x = ATOMS[a] if x is None else x * ATOMS[a]
        x = z3.BitVecVal(c, 64) if x is None else (x if c == 1 else x * z3.BitVecVal(c, 64))
        t = x if t is None else t + x
    if t is None: return 0
    return conc(t)
