"""Arrays of symbolic size (std::valarray, std::vector) and the assumed contracts of the library operations on them.

An array holds its size, a shape R x C (size == R*C, element (q,r) has flat index q*C+r) and a function giving its elements.  All operations are
element-wise definitions; index arithmetic is decomposed into row and column by polynomial division.
"""
import z3
from .core import *
from .stl import Lib, N, EMPTY, conv_str
from .interp import strip, head, targs, ty, sugar, is_ref, UP_HEADS, Frame, INTS
from .tree import TreeLib, T, NIL, nilq
from .theory import *
from .maps import MapLib, DMap, DCell, DIt, Pairs, KEY
from . import loops

SORT = {'real': z3.RealSort(), 'tree': T, 'name': N, 'int': z3.IntSort()}
def kind_of(t):
    s = strip(t); h = head(t)
    if s in ('double', 'float'): return 'real'
    if h in UP_HEADS: return 'tree'
    if h in ('basic_string', 'string'): return 'name'
    if s in INTS and s != 'bool': return 'int'
    return None
def And(*c):
    out = []
    for x in c:
        if x is True: continue
        if x is False: return False
        if isinstance(x, z3.BoolRef):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
        out.append(x)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)
def Not(c): return (not c) if isinstance(c, bool) else z3.Not(c)
def Or(*c): return Not(And(*[Not(x) for x in c]))
def cmpi(op, a, b):
    """comparison of index terms"""
    a, b = S(a), S(b)
    if isinstance(a, int) and isinstance(b, int): return {'<': a < b, '<=': a <= b, '==': a == b}[op]
    d = poly(a); d = padd(d, pscale(poly(b), -1))
    if set(d) <= {()}:
        v = d.get((), 0)
        return {'<': v < 0, '<=': v <= 0, '==': v == 0}[op]
    return {'<': lambda: a < b, '<=': lambda: a <= b, '==': lambda: a == b}[op]()
def lt(a, b): return cmpi('<', a, b)
def le(a, b): return cmpi('<=', a, b)
def eq(a, b): return cmpi('==', a, b)
def ite(c, a, b):
    if isinstance(c, z3.BoolRef): c = z3.simplify(c)
    if c is True or (not isinstance(c, bool) and z3.is_true(c)): return a()
    if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b()
    x, y = real_(a()), real_(b())
    if x.eq(y): return x
    return z3.If(c, x, y)
def real_(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool): return z3.RealVal(x) if isinstance(x, float) else z3.IntVal(x)
    return x
def unit(R, C, fn):
    """fn read in shape (R, C)"""
    return fn

class Vec_:
    """anything with elements: n, R, C, at(q, r)"""
    pass

class Arr(Vec_):
    def __init__(s, lib, n, kind, fn, shape=None, born=0, container='valarray'):
        s.lib, s.n, s.kind, s.fn, s.born, s.container = lib, n, kind, fn, born, container
        s.R, s.C = shape or lib.shape_of(n)
        s.log = []; s.version = 0; s.frozen = None; s.live = []; s.uniform = False; s.region = None; s.facts = None
        lib.register(s.R, s.C)
    def __repr__(s): return 'Arr<%s>[%s]' % (s.kind, s.n)
    def raw(s, q, r): return s.fn(q, r)
    def at(s, q, r):
        s.sync(); v = s.fn(q, r)
        return v
    def sync(s):
        for e in s.live:
            t = s.lib.tree(e)
            if not t.eq(e.last):
                e.last = t
                s.put(lambda q, r, e=e: And(eq(q, e.q), eq(r, e.r)), lambda q, r, t=t: t)
    def put(s, cond, val):
        s.lib.I.wrote(s)
        old = s.fn
        s.fn = lambda q, r: ite(cond(q, r), lambda: val(q, r), lambda: old(q, r))
        s.log.append((cond, val)); s.version += 1; s.uniform = False
    def write(s, cond, val):
        s.sync()
        if s.kind == 'tree': raise Unsupported('bulk write of expressions')
        s.put(cond, val)
    def reshape(s, R, C):
        """the same elements seen as R x C (only for arrays whose elements do not depend on the index)"""
        if not s.uniform: raise Unsupported('array read with another number of columns')
        s.R, s.C = R, C
    # ---- value semantics
    def copy_value(s, I):
        if s.kind == 'tree': raise Unsupported('copy of an array of expressions')
        a = Arr(s.lib, s.n, s.kind, s.fn, (s.R, s.C), I.ctx.time, s.container); a.uniform = s.uniform
        return a
    def move_value(s, I):
        s.sync()
        a = Arr(s.lib, s.n, s.kind, s.fn, (s.R, s.C), I.ctx.time, s.container); a.uniform = s.uniform
        I.wrote(s); s.n = 0; s.R, s.C = 0, 1; s.live = []; s.version += 1
        return a
    def assign_value(s, I, src, move=False):
        I.wrote(s)
        if isinstance(src, Cell): src = src.v
        if isinstance(src, Vec_):
            if isinstance(src, Arr) and src.kind == 'tree' and not move: raise Unsupported('copy of an array of expressions')
            src.check(I.ctx) if hasattr(src, 'check') else None
            f = src.snapshot()
            s.sync()
            s.n, s.R, s.C = src.n, src.R, src.C; s.live = []
            s.fn = f; s.log.append((lambda q, r: True, f)); s.version += 1; s.uniform = getattr(src, 'uniform', False)
            if move and isinstance(src, Arr): src.n = 0; src.R, src.C = 0, 1; src.live = []; src.version += 1
            return
        if s.kind == 'real' and (I.dom.is_num(src) or isinstance(src, (int, float, z3.ArithRef))):
            v = I.dom.co(src)
            s.put(lambda q, r: True, lambda q, r: v); s.uniform = True
            return
        raise Unsupported('assignment to an array from %r' % (src,))
    def snapshot(s):
        s.sync(); return s.fn
    # ---- operations
    def method(s, I, n, args, e):
        lib = s.lib
        if n in ('size', 'length'): return s.n
        if n == 'empty': return eq(s.n, 0)
        if n in ('begin', 'cbegin', 'data'): return AIt(s, 0)
        if n in ('end', 'cend'): return AIt(s, s.n)
        if n == 'resize':
            if s.kind == 'tree': raise Unsupported('resize of an array of expressions')
            k = I.get(args[0])
            if s.container != 'valarray': raise Unsupported('resize of a vector')
            v = I.get(args[1]) if len(args) > 1 else lib.zero(s.kind)
            I.wrote(s); s.live = []; s.n = k; s.R, s.C = lib.shape_of(k); s.fn = lambda q, r: v
            s.log.append((lambda q, r: True, s.fn)); s.version += 1; s.uniform = True
            return None
        if n in ('at',): return lib.element(s, I.get(args[0]))
        if n in ('front',): return lib.element(s, 0)
        if n in ('back',): return lib.element(s, lib.int_bin('-', s.n, 1, 'int'))
        if n == 'operator[]': return s.op(I, '[]', [s] + list(args), e)
        if n == 'operator=': s.assign_value(I, I.get(args[0]), False); return s
        if n == 'swap':
            o = args[0]; I.wrote(s); I.wrote(o); s.sync(); o.sync()
            for k in ('n', 'R', 'C', 'fn', 'uniform'): a = getattr(s, k); setattr(s, k, getattr(o, k)); setattr(o, k, a)
            s.live = []; o.live = []; s.version += 1; o.version += 1
            s.log.append((lambda q, r: True, s.fn)); o.log.append((lambda q, r: True, o.fn))
            return None
        return lib.vec_method(s, n, args, e)
    def op(s, I, n, args, e): return s.lib.vec_op(n, args, e)

class ElemCell(Cell):
    """reference to an element holding a scalar"""
    __slots__ = ('arr', 'q', 'r')
    def __init__(s, arr, q, r, flat):
        s.arr, s.q, s.r = arr, q, r
        s.born = arr.born; s.frozen = None; s.tag = AIt(arr, flat)
    @property
    def v(s): return s.arr.at(s.q, s.r)
    @v.setter
    def v(s, x):
        if s.arr.kind == 'real': x = s.arr.lib.I.dom.co(x)
        q0, r0 = s.q, s.r
        s.arr.write(lambda q, r: And(eq(q, q0), eq(r, r0)), lambda q, r: x)
class ElemStr(Str):
    def __init__(s, arr, q, r): s.arr, s.q, s.r = arr, q, r; s.born = arr.born; s.frozen = None
    @property
    def v(s): return s.arr.at(s.q, s.r)
    @v.setter
    def v(s, x):
        x = conv_str(x); q0, r0 = s.q, s.r
        s.arr.write(lambda q, r: And(eq(q, q0), eq(r, r0)), lambda q, r: x)
class ElemUP(UP):
    """reference to an element holding an expression"""
    def __init__(s, arr, q, r, flat):
        UP.__init__(s, None, arr.born)
        s.arr, s.q, s.r = arr, q, r; s.tag = AIt(arr, flat)
        s.last = arr.fn(q, r)
        t = s.last
        if not (z3.is_app(t) and t.decl().eq(T.nil)):
            s.set(arr.lib.lazy(t, None, True, arr.region))
class AIt(It):
    def __init__(s, seq, i, rev=False): It.__init__(s, seq, i, rev)

class View(Vec_):
    """a slice or gslice of an array: position (a,b) of VR x VC is element pos(a,b)"""
    def __init__(s, arr, VR, VC, pos, inv, writable):
        s.arr, s.R, s.C, s.pos, s.inv, s.writable = arr, VR, VC, pos, inv, writable
        s.lib = arr.lib; s.kind = arr.kind; s.version = arr.version
        s.n = VR if is_lit(VC) and lit(VC) == 1 else VR * VC
    def check(s, ctx): pass
    def at(s, a, b): return s.arr.at(*s.pos(a, b))
    def snapshot(s):
        f = s.arr.snapshot(); p = s.pos
        return lambda a, b: f(*p(a, b))
    def sources(s): return [(s.arr, s.pos)]
    def method(s, I, n, args, e): return s.lib.vec_method(s, n, args, e)
    def op(s, I, n, args, e): return s.lib.vec_op(n, args, e)
    def copy_value(s, I): return s if s.writable else s
    def move_value(s, I): return s
    def assign_value(s, I, src, move=False): s.lib.view_assign(s, src)

class Expr(Vec_):
    """value of an element-wise expression (evaluated lazily by the library: its sources must not change before it is used)"""
    def __init__(s, lib, n, R, C, fn, srcs, kind='real'):
        s.lib, s.n, s.R, s.C, s.fn, s.kind = lib, n, R, C, fn, kind
        s.srcs = srcs; s.vers = [(a, a.version) for a, _ in srcs]
    def check(s, ctx):
        for a, v in s.vers:
            if a.version != v: raise Unsupported('operand of a lazy array expression changed before its use')
    def at(s, q, r): s.check(None); return s.fn(q, r)
    def snapshot(s): s.check(None); return s.fn
    def sources(s): return s.srcs
    def method(s, I, n, args, e): return s.lib.vec_method(s, n, args, e)
    def op(s, I, n, args, e): return s.lib.vec_op(n, args, e)
    def copy_value(s, I): return s
    def move_value(s, I): return s

class SliceV:
    """std::slice / std::gslice"""
    def __init__(s, start, sizes, strides): s.start, s.sizes, s.strides = start, sizes, strides

UNSIGNED = {'unsigned long', 'size_t', 'std::size_t', 'uint64_t', 'unsigned long long', 'unsigned int', 'unsigned', 'size_type', 'uint32_t'}

class MatLib(MapLib, TreeLib):
    def __init__(self, tu):
        TreeLib.__init__(self, tu)
        self.rule = loops.LoopRule(self)
        self.rec_lemmas = []         # what is known about them: term -> facts
        self.init_maps()
        self.inputs = []             # arrays with facts about every element
    # ---------------------------------------------------------------- shapes and indices
    def register(self, R, C):
        th = self.ctx.st.th
        if th is not None and not is_lit(C): th.shape(R, C)
        if not is_lit(C) and not is_lit(R):
            k = self.ctx.st.facts.setdefault('shapes', [])
            if not any(eq(a, R) is True and eq(b, C) is True for a, b in k): k.append((S(R), S(C)))
    def shape_of(self, n):
        if isinstance(n, int): return n, 1
        ch = n.children() if z3.is_mul(n) else []
        ch2 = [c for c in ch if not (z3.is_int_value(c) and c.as_long() == 1)]
        if len(ch) == 2 and len(ch2) == 2:
            return S(ch[0]), S(ch[1])
        return S(n), 1
    def zero(self, kind): return {'real': z3.RealVal(0), 'tree': NIL, 'name': EMPTY, 'int': z3.IntVal(0)}[kind]
    def vars0(self): pass
    def flat(self, arr, q, r):
        return q if is_lit(arr.C) and lit(arr.C) == 1 else q * arr.C + r
    def split(self, arr, e):
        """(row, column) of flat index e"""
        C = arr.C; ctx = self.ctx
        if is_lit(C) and lit(C) == 1: return S(e), 0
        d = divide(e, C)
        if d is None: raise Unsupported('array index')
        q, r = S(d[0]), S(d[1])
        if isinstance(r, int) and r == 0: return q, r
        if ctx.entails(And(le(0, r), lt(r, C))): return q, r
        for _, b in ctx.st.facts.get('shapes', ()):
            if eq(b, C) is True or not ctx.entails(eq(b, C)): continue
            x = divide(e, b)
            if x is None: continue
            q2, r2 = S(x[0]), S(x[1])
            if ctx.entails(And(le(0, r2), lt(r2, b))): return q2, r2
        if ctx.probe:
            if ctx.entails(eq(r, C)): return S(q + 1), 0
            if ctx.check(And(le(0, r), lt(r, C))) != z3.unsat:
                ctx.assume(And(le(0, r), lt(r, C))); ctx.st.facts['lenient'] = True
                return q, r
        if ctx.entails(And(le(0, r), le(r, C))):
            if ctx.decide(eq(r, C)): return S(q + 1), 0
            return q, r
        if ctx.entails(And(le(-C, r), lt(r, 0))): return S(q - 1), S(r + C)
        if isinstance(e, z3.ArithRef) and ctx.entails(And(e >= 0, e < arr.R * C)):
            return QUO(Z(C), e), REM(Z(C), e)
        raise Unsupported('array index')
    def norm(self, C, q, r):
        """the same flat position with the column inside the row"""
        ctx = self.ctx
        if is_lit(C) and lit(C) == 1: return q, r
        if ctx.entails(And(le(0, r), lt(r, C))): return q, r
        if ctx.entails(And(le(-C, r), lt(r, 0))): return S(q - 1), S(r + C)
        if ctx.entails(And(le(C, r), lt(r, 2 * C))): return S(q + 1), S(r - C)
        return q, r
    def in_bounds(self, arr, q, r, name='in-bounds'):
        self.ctx.oblige(name, And(le(0, q), lt(q, arr.R)))
    def element(self, arr, i):
        q, r = self.split(arr, i)
        self.in_bounds(arr, q, r)
        return self.elem(arr, q, r)
    def about(self, t):
        """assume the lemmas about the terms of a recursion in t"""
        if not self.ctx.recs or not self.rec_lemmas: return
        done = self.ctx.st.facts.setdefault('about', {}); seen = set(); todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_app(x) and x.decl().name() in self.ctx.recs and not has_free_var(x):
                if x.get_id() in done: continue
                done[x.get_id()] = x
                for l in self.rec_lemmas:
                    for f in l(x): self.ctx.assume(f)
            todo += x.children()
    def elem(self, arr, q, r):
        flat = self.flat(arr, q, r)
        if arr.kind == 'name': return ElemStr(arr, q, r)
        if arr.kind == 'tree':
            arr.sync()
            for e in arr.live:
                c = And(eq(e.q, q), eq(e.r, r))
                if c is True or (c is not False and self.ctx.decide(c)): return e
            for a in self.inputs if arr.facts is None else [arr]:
                for c in a.facts(q, r): self.ctx.assume(c)
            self.about(arr.fn(q, r))
            e = ElemUP(arr, q, r, flat); arr.live.append(e)
            return e
        return ElemCell(arr, q, r, flat)
    # ---------------------------------------------------------------- integers
    def nonneg(self, v):
        """v >= 0 from the integer facts of the path"""
        v = S(v)
        if isinstance(v, int): return v >= 0
        p = poly(v)
        if len(p) > 1 or any(len(m) > 1 for m in p):
            ok = True
            for m, c in p.items():
                if c < 0 or not all(self.ctx.entails(ATOMS[i] >= 0) for i in m): ok = False; break
            if ok: return True
        if any(len(m) > 1 for m in p):
            s = z3.Solver(); s.set('timeout', 3000)
            for c in self.ctx.st.asserted:
                if not any(x.sort() != I_ for x in consts(c).values()) and not funs(c) and not z3.is_quantifier(c): s.add(c)
            s.add(v < 0)
            return s.check() == z3.unsat
        return self.ctx.entails(v >= 0)
    def int_cast(self, v, tf, tt):
        if isinstance(v, z3.ArithRef) and tt in UNSIGNED and tf not in UNSIGNED and not self.ctx.mute and not self.nonneg(v): raise Unsupported('conversion of a possibly negative value to unsigned')
        return Lib.int_cast(self, v, tf, tt)
    def int_bin(self, op, x, y, t):
        sym = isinstance(x, z3.ArithRef) or isinstance(y, z3.ArithRef)
        if sym and op == '*':
            if isinstance(x, int) and x in (0, 1): return 0 if x == 0 else y
            if isinstance(y, int) and y in (0, 1): return 0 if y == 0 else x
        if sym and op == '+' and (isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0): return y if isinstance(x, int) and x == 0 else x
        if sym and op in '/%':
            if isinstance(y, int) and y > 0 and self.ctx.entails(x >= 0): return x / y if op == '/' else x % y
            if op == '%' and isinstance(y, z3.ArithRef) and isinstance(x, z3.ArithRef):
                d = divide(x, y)
                if d is not None and self.ctx.entails(And(le(0, d[1]), lt(d[1], y))): self.ctx.oblige('division-by-zero', y != 0); return d[1]
        r = Lib.int_bin(self, op, x, y, t)
        if sym and op == '-' and t in UNSIGNED and not self.ctx.mute and not self.nonneg(r): raise Unsupported('unsigned subtraction may wrap around')
        return r
    def int_cmp(self, op, x, y, t):
        if isinstance(x, z3.ArithRef) or isinstance(y, z3.ArithRef):
            if isinstance(x, bool): x = int(x)
            if isinstance(y, bool): y = int(y)
            if op in ('>', '>='): return self.int_cmp({'>': '<', '>=': '<='}[op], y, x, t)
            if op == '!=': return Not(self.int_cmp('==', x, y, t))
            r = cmpi(op, x, y)
            if isinstance(r, bool): return r
            px, py = poly(x), poly(y)
            if op == '<' and not self.ctx.rawcmp and max([len(m) for m in padd(px, pscale(py, -1))] or [0]) > 1:
                R, C = self.shape_of(y)
                if not (is_lit(C) and lit(C) == 1):
                    # flat index against a size R*C
                    A = Arr(self, y, 'int', None, (R, C))
                    try: q, rr = self.split(A, x)
                    except Unsupported: return r
                    return lt(q, R)
            return r
        return TreeLib.int_cmp(self, op, x, y, t)
    # ---------------------------------------------------------------- construction
    def new_valarray(self, t):
        k = kind_of(t)
        if k is None: raise Unsupported('valarray of ' + t)
        return Arr(self, 0, k, lambda q, r: self.zero(k), (0, 1), self.ctx.time)
    def filled(self, n, kind, v, container='valarray'):
        a = Arr(self, n, kind, lambda q, r: v, None, self.ctx.time, container); a.uniform = True
        return a
    def construct(self, t, ct, args, e):
        h = head(t); I = self.I; s = strip(t)
        if h in ('map', 'unordered_map'):
            a = [I.get(x) for x in args]
            if not a: return self.new_map(t)
            if len(a) == 1 and isinstance(a[0], DMap): return I.move(a[0]) if '&&' in ct else I.copy(a[0])
            if len(a) >= 2 and isinstance(a[0], It) and isinstance(a[1], It): return self.map_range(t, a[0], a[1])
        if h == 'valarray' and args: return self.make_valarray(t, ct, args)
        if h in ('slice', 'gslice'):
            if not args: return SliceV(0, [0], [1])
            a = [I.get(x) for x in args]
            if len(a) == 1: return a[0]
            if h == 'slice': return SliceV(a[0], [a[1]], [a[2]])
            return SliceV(a[0], self.size_list(a[1]), self.size_list(a[2]))
        if h in ('slice_array', 'gslice_array') and len(args) == 1: return I.get(args[0])
        if h == 'vector' and args:
            a0 = I.get(args[0])
            if isinstance(a0, Arr): return I.move(a0) if '&&' in ct else I.copy(a0)
            k = kind_of(targs(s)[0])
            if isinstance(a0, DIt) and len(args) >= 2 and k == 'name': return self.names_of_set(a0, I.get(args[1]))
            if isinstance(a0, z3.ArithRef) and k in ('real', 'name', 'int'):
                v = I.get(args[1]) if len(args) > 1 else self.zero(k)
                if k == 'name' and len(args) > 1: v = conv_str(self.str_val(args[1]))
                if k == 'real': v = I.dom.co(v)
                return self.filled(a0, k, v, 'vector')
        return TreeLib.construct(self, t, ct, args, e)
    def size_list(self, a):
        if isinstance(a, Seq): return [I_get(self.I, x) for x in a.items]
        raise Unsupported('gslice arguments')
    def make_valarray(self, t, ct, args):
        I = self.I; el = targs(strip(t))[0]; k = kind_of(el)
        a = [I.get(x) for x in args]
        if isinstance(a[0], Vec_) and len(a) == 1:
            x = a[0]
            if isinstance(x, Arr): return I.move(x) if '&&' in ct else I.copy(x)
            f = x.snapshot()
            return Arr(self, x.n, k, f, (x.R, x.C), self.ctx.time)
        if isinstance(a[0], Seq) and len(a) == 1:
            items = [I.get(x) for x in a[0].items]
            if k == 'int':
                q = Seq('valarray', el, self.ctx.time); q.items = [Cell(x) for x in items]; return q
            return self.listed(items, k)
        if k == 'tree':
            if len(a) == 1: return self.filled(a[0], k, NIL)
            raise Unsupported('valarray constructor')
        if len(a) == 1: return self.filled(a[0], k, self.zero(k))
        if len(a) == 2 and not isinstance(a[0], It): return self.filled(a[1], k, I.dom.co(a[0]) if k == 'real' else a[0])
        raise Unsupported('valarray constructor ' + ct)
    def listed(self, items, k):
        items = [self.I.dom.co(x) if k == 'real' else x for x in items]
        def fn(q, r):
            v = items[-1] if items else self.zero(k)
            for i in range(len(items) - 2, -1, -1): v = ite(eq(q, i), lambda i=i: items[i], lambda v=v: v)
            return v
        return Arr(self, len(items), k, fn, (len(items), 1), self.ctx.time)
    # ---------------------------------------------------------------- views
    def step(self, arr, st):
        """stride as (rows, columns)"""
        if is_lit(arr.C) and lit(arr.C) == 1:
            return st, 0
        d = divide(st, arr.C)
        if d is None: raise Unsupported('stride')
        return S(d[0]), S(d[1])
    def slice_of(self, base, sl, writable):
        if isinstance(base, View):
            # a slice of a slice
            if len(sl.sizes) != 1 or not (is_lit(base.C) and lit(base.C) == 1): raise Unsupported('slice of a slice')
            st, n, d = sl.start, sl.sizes[0], sl.strides[0]
            if not (is_lit(d) and lit(d) == 1): raise Unsupported('slice of a slice')
            self.ctx.oblige('in-bounds', Or(le(n, 0), And(le(0, st), le(st + n, base.R))))
            def inv(q, r):
                c, a, b = base.inv(q, r)
                return And(c, le(st, a), lt(a, st + n)), S(a - st), b
            return View(base.arr, S(n), 1, lambda a, b: base.pos(S(st + a), b), inv, writable)
        if isinstance(base, Expr):
            if len(sl.sizes) != 1 or not (is_lit(base.C) and lit(base.C) == 1): raise Unsupported('slice of an expression')
            st, n, d = sl.start, sl.sizes[0], sl.strides[0]
            self.ctx.oblige('in-bounds', Or(le(n, 0), And(le(0, st), le(st + n * d if not (is_lit(d) and lit(d) == 1) else st + n, base.R))))
            return Expr(self, n, S(n), 1, lambda a, b: base.at(S(st + a * d), b), base.srcs, base.kind)
        arr = base
        sizes = [S(x) for x in sl.sizes]
        if len(sizes) == 1: sizes = sizes + [1]; strides = list(sl.strides) + [0]
        elif len(sizes) == 2: strides = list(sl.strides)
        else: raise Unsupported('gslice of more than two dimensions')
        if is_lit(sizes[1]) and lit(sizes[1]) == 1: d1 = (0, 0)
        else: d1 = self.step(arr, strides[1])
        d0 = self.step(arr, strides[0])
        empty = Or(le(sizes[0], 0), le(sizes[1], 0))
        if empty is True or (empty is not False and self.ctx.decide(empty)):
            return View(arr, 0, 1, lambda a, b: (a, b), lambda q, r: (False, q, r), writable)
        # non-empty: the first and last element must exist
        C = arr.C
        if is_lit(C) and lit(C) == 1: q0, r0 = S(sl.start), 0
        else:
            d = divide(sl.start, C)
            if d is None: raise Unsupported('start of a slice')
            q0, r0 = self.norm(C, S(d[0]), S(d[1]))
        for x in d0 + d1:
            if x not in (0, 1) if isinstance(x, int) else True: raise Unsupported('stride')
        ql = S(q0 + (sizes[0] - 1) * d0[0] + (sizes[1] - 1) * d1[0]); rl = S(r0 + (sizes[0] - 1) * d0[1] + (sizes[1] - 1) * d1[1])
        inrow = And(le(0, r0), lt(rl, C)) if not (is_lit(C) and lit(C) == 1) else True
        if self.ctx.entails(inrow): pass
        elif self.ctx.probe: self.ctx.assume(inrow); self.ctx.st.facts['lenient'] = True
        else: raise Unsupported('slice beyond a row')
        self.ctx.oblige('in-bounds', And(le(0, q0), lt(ql, arr.R)))
        if d0 == (0, 0) and not (is_lit(sizes[0]) and lit(sizes[0]) == 1): raise Unsupported('stride')
        def pos(a, b): return S(q0 + a * d0[0] + b * d1[0]), S(r0 + a * d0[1] + b * d1[1])
        def inv(q, r):
            if d1 == (0, 0):
                if d0[0] == 1: a = S(q - q0); c = eq(r, S(r0 + a * d0[1]))
                else: a = S(r - r0); c = eq(q, q0)
                return And(le(0, a), lt(a, sizes[0]), c), a, 0
            if d0 == (1, 0) and d1 == (0, 1): a, b = S(q - q0), S(r - r0)
            elif d0 == (0, 1) and d1 == (1, 0): a, b = S(r - r0), S(q - q0)
            else: raise Unsupported('strides of a gslice')
            return And(le(0, a), lt(a, sizes[0]), le(0, b), lt(b, sizes[1])), a, b
        return View(arr, sizes[0], sizes[1], pos, inv, writable)
    def view_assign(self, v, src):
        I = self.I
        src = I.get(src)
        if not v.writable: raise Unsupported('assignment to a temporary')
        if isinstance(src, Vec_):
            self.same_size(v, src)
            self.check_alias(v, src)
            f = self.in_shape(src, v)
            v.arr.write(lambda q, r: v.inv(q, r)[0], lambda q, r: f(*v.inv(q, r)[1:]))
            return
        if isinstance(src, Seq): 
            src = self.make_valarray('valarray<double>', '', [src])
            return self.view_assign(v, src)
        x = I.dom.co(src)
        v.arr.write(lambda q, r: v.inv(q, r)[0], lambda q, r: x)
    def check_alias(self, v, src):
        """reading and writing the same array element by element: every element read is the one being written, or is not written at all"""
        srcs = src.sources() if hasattr(src, 'sources') else [(src, lambda a, b: (a, b))]
        for a, pos in srcs:
            if a is not v.arr: continue
            x, y = self.ctx.fresh(I_, 'a'), self.ctx.fresh(I_, 'b')
            rng = And(le(0, x), lt(x, v.R), le(0, y), lt(y, v.C)) if not (is_lit(v.C) and lit(v.C) == 1) else And(le(0, x), lt(x, v.R))
            if is_lit(v.C) and lit(v.C) == 1: y = 0
            p, w = pos(x, y), v.pos(x, y)
            if self.ctx.entails(z3.Implies(rng, And(eq(p[0], w[0]), eq(p[1], w[1])))): continue
            c, _, _ = v.inv(*p)
            if self.ctx.entails(z3.Implies(rng, Not(c) if not isinstance(c, bool) else z3.BoolVal(not c))): continue
            raise Unsupported('overlapping array assignment')
    def same_size(self, a, b, name='equal-sizes'):
        c1 = And(eq(a.R, b.R), eq(a.C, b.C))
        if c1 is True: return
        c = eq(a.n, b.n)
        if c is True: return
        if c1 is not False and self.ctx.entails(c1): return
        self.ctx.oblige(name, c)
    def in_shape(self, b, a):
        """elements of b indexed in the shape of a"""
        f = b.snapshot()
        if getattr(b, 'uniform', False): return f
        one = lambda x: is_lit(x) and lit(x) == 1
        if one(a.C) and one(b.C): return f
        if eq(a.C, b.C) is True or (not one(a.C) and not one(b.C) and self.ctx.entails(eq(a.C, b.C))): return f
        if one(b.C): return lambda q, r: f(S(q * a.C + r), 0)
        if one(a.C) and isinstance(a, Arr) and a.uniform: pass
        if self.ctx.entails(eq(a.C, b.C)): return f
        raise Unsupported('arrays of different shape')
    def binary(self, n, a, b):
        dom = self.I.dom
        va, vb = isinstance(a, Vec_), isinstance(b, Vec_)
        srcs = [(x if isinstance(x, Arr) else None, lambda p, q: (p, q)) for x in ()]
        for x in (a, b):
            if isinstance(x, Arr): srcs.append((x, lambda p, q: (p, q)))
            elif isinstance(x, Vec_): srcs += x.sources()
        if va and vb:
            self.same_size(a, b)
            m = a
            if is_lit(a.C) and lit(a.C) == 1 and not (is_lit(b.C) and lit(b.C) == 1): m = b
            fa, fb = self.in_shape(a, m), self.in_shape(b, m)
            return Expr(self, m.n, m.R, m.C, lambda q, r: dom.bin(n, fa(q, r), fb(q, r)), srcs)
        if va:
            f = a.snapshot(); x = dom.co(self.I.get(b))
            return Expr(self, a.n, a.R, a.C, lambda q, r: dom.bin(n, f(q, r), x), srcs)
        f = b.snapshot(); x = dom.co(self.I.get(a))
        return Expr(self, b.n, b.R, b.C, lambda q, r: dom.bin(n, x, f(q, r)), srcs)
    def unary(self, f, a):
        g = a.snapshot(); srcs = [(a, lambda p, q: (p, q))] if isinstance(a, Arr) else a.sources()
        return Expr(self, a.n, a.R, a.C, lambda q, r: f(g(q, r)), srcs)
    def vec_op(self, n, args, e):
        I = self.I
        a = I.get(args[0]); b = I.get(args[1]) if len(args) > 1 else None
        if n == '[]':
            if isinstance(b, SliceV): 
                const = ' const' in ty_of_callee(e)
                return self.slice_of(a, b, not const)
            if isinstance(a, Arr): return self.element(a, b)
            if isinstance(a, View):
                q, r = a.pos(b, 0); self.ctx.oblige('in-bounds', And(le(0, b), lt(b, a.n))); return self.elem(a.arr, q, r)
            if isinstance(a, Expr):
                if not (is_lit(a.C) and lit(a.C) == 1): raise Unsupported('element of an expression')
                self.ctx.oblige('in-bounds', And(le(0, b), lt(b, a.n))); return Cell(a.at(b, 0))
        if len(args) == 2 and n in ('+', '-', '*', '/'): return self.binary(n, a, b)
        if len(args) == 1 and n == '-': return self.unary(lambda x: -x, a)
        if len(args) == 1 and n == '+': return a
        if n in ('+=', '-=', '*=', '/='):
            x = self.binary(n[0], a, b)
            if isinstance(a, Arr):
                f = x.snapshot(); a.write(lambda q, r: True, f); return None if False else a
            if isinstance(a, View):
                self.check_alias(a, x) if isinstance(b, Vec_) else None
                f = x.snapshot()
                a.arr.write(lambda q, r: a.inv(q, r)[0], lambda q, r: f(*a.inv(q, r)[1:]))
                return None
        raise Unsupported('array operator ' + n)
    def vec_method(self, a, n, args, e):
        I = self.I
        if n == 'size': return a.n
        if n == 'sum':
            self.ctx.oblige('sum-of-non-empty', self.pos(a))
            f = a.snapshot()
            return self.dom_sum(a.R, a.C, f)
        if n in ('max', 'min'):
            self.ctx.oblige(n + '-of-non-empty', self.pos(a))
            f = a.snapshot()
            return self.extremum(a, f, n)[0]
        if n == 'apply':
            fn = args[0]
            nm = fn.decl.get('name') if isinstance(fn, FnRef) else None
            if nm in ('abs', 'fabs'): return self.materialised(self.unary(lambda x: self.I.dom.call('abs', [x]), a))
            raise Unsupported('valarray::apply')
        if n == 'operator[]': return self.vec_op('[]', [a] + list(args), e)
        if n.startswith('operator ') : return self.materialised(a)
        raise Unsupported('array method ' + n)
    def materialised(self, x):
        return Arr(self, x.n, x.kind, x.snapshot(), (x.R, x.C), self.ctx.time)
    def pos(self, a):
        if is_lit(a.C): return lt(0, a.R)
        return And(lt(0, a.R), lt(0, a.C))
    def dom_sum(self, R, C, f): return mksum2(R, C, f)
    def inside(self, a, q, r):
        if is_lit(a.C) and lit(a.C) == 1: return And(le(0, q), lt(q, a.R))
        return And(le(0, q), lt(q, a.R), le(0, r), lt(r, a.C))
    def extremum(self, a, f, which, first=False):
        """(value, q, r) of the largest / smallest element; it is bounded by every other element"""
        ctx = self.ctx
        one = is_lit(a.C) and lit(a.C) == 1
        q, r = ctx.fresh(I_, 'wq'), (z3.IntVal(0) if one else ctx.fresh(I_, 'wr'))
        ctx.assume(self.inside(a, q, r))
        m = ctx.fresh(R_, which)
        ctx.assume(m == f(q, r))
        ctx.st.facts.setdefault('extrema', []).append((q, r))
        self.univ(lambda x, y: z3.Implies(tob(self.inside(a, x, y)), f(x, y) <= m if which == 'max' else f(x, y) >= m))
        if first: self.univ(lambda x, y: z3.Implies(tob(And(self.inside(a, x, y), Or(lt(x, q), And(eq(x, q), lt(y, r))))), z3.Not(f(x, y) == m)))
        return m, q, r
    def univ(self, f):
        """a fact that holds for all indices: instantiated by inst()"""
        self.ctx.st.facts.setdefault('univ', []).append(f); self.ctx.st.facts['weak'] = True
    def univ_false(self, info, K):
        self.univ(lambda q, r: z3.Not(tob(self.rule.before(info, (q, r), K))))
    recursion_hooks = ()
    def on_recursion(self, rule, info, K, G, v0, step, loc):
        for h in self.recursion_hooks: h(rule, info, K, G, v0, step, loc)
    def inst(self, q, r=0, C=1):
        """what holds for all indices, at position (q, r) (of an array with C columns)"""
        fs = list(self.ctx.st.facts.get('univ', ()))
        for a in self.inputs:
            for c in a.facts(q, r): self.ctx.assume(c)
        at = [(Z(q), Z(r)), (Z(r), Z(q))]
        if not (is_lit(C) and lit(C) == 1): at.append((FLAT(Z(C), Z(q), Z(r)), Z(0)))
        for f in fs:
            for a, b in at: self.ctx.assume(f(a, b))
    def witnesses(self, C=1):
        """positions known to be special: where a loop was left, where an extremum is"""
        w = self.ctx.st.facts.get('witness', []); out = []
        for i, (q, r) in enumerate(w):
            out.append((q, r))
            if not (is_lit(C) and lit(C) == 1) and is_lit(r): out.append((QUO(Z(C), Z(q)), REM(Z(C), Z(q))))
            for a, b in w[:i]:
                if is_lit(r) and is_lit(b): out += [(a, q), (q, a)]
        return out + self.ctx.st.facts.get('extrema', [])
    # ---------------------------------------------------------------- library functions
    def f_abs(self, args, e):
        a = self.I.get(args[0])
        if isinstance(a, Vec_): return self.unary(lambda x: self.I.dom.call('abs', [x]), a)
        return self.I.dom.call('abs', [a])
    def f_max_element(self, args, e):
        a, b = self.I.get(args[0]), self.I.get(args[1])
        if len(args) > 2: raise Unsupported('max_element with a comparator')
        arr = self.whole(a, b)
        if arr is None or arr.kind != 'real': raise Unsupported('max_element')
        if self.ctx.decide(le(arr.n, 0)): return AIt(arr, arr.n)
        _, q, r = self.extremum(arr, arr.snapshot(), 'max', first=True)
        return AIt(arr, self.flat(arr, q, r))
    def whole(self, a, b):
        if isinstance(a, AIt) and isinstance(b, AIt) and a.seq is b.seq and not a.rev and eq(a.i, 0) is True and eq(b.i, a.seq.n) is True: return a.seq
        return None
    def at(self, q, i):
        if isinstance(q, Arr): return self.element(q, i)
        return TreeLib.at(self, q, i)
    def deref(self, p):
        if isinstance(p, DIt): return self.dit_deref(p)
        return TreeLib.deref(self, p)
    def it_eq(self, a, b):
        if isinstance(a, DIt) or isinstance(b, DIt): return self.dit_eq(a, b)
        return TreeLib.it_eq(self, a, b)
    def ptr_add(self, p, n):
        if isinstance(p, DIt):
            if p.key is not None: raise Unsupported('walk from a found entry')
            return DIt(p.seq, S(p.i + n))
        if isinstance(p, AIt): return AIt(p.seq, S(p.i - n) if p.rev else S(p.i + n), p.rev)
        return TreeLib.ptr_add(self, p, n)
    def arr_arg(self, args):
        a, b = self.I.get(args[0]), self.I.get(args[1])
        if isinstance(a, DIt) and isinstance(b, DIt) and a.seq is b.seq and a.key is None and b.key is None and eq(a.i, 0) is True and eq(b.i, a.seq.n) is True: return a.seq
        if isinstance(a, AIt):
            arr = self.whole(a, b)
            if arr is None: raise Unsupported('algorithm over a part of an array')
            return arr
        return None
    def over(self, e, args, arr, body):
        """iterates body(element, k) over the elements of arr; False if it was left early"""
        if isinstance(arr, DMap):
            arr.enum()
            return self.rule.run(('alg', e.get('id') if e else None), list(args), None, lambda K: body(arr.entry(K.flat), K), arr.n, None)
        def step(K): return body(self.elem(arr, K.q, K.r), K)
        return self.rule.run(('alg', e.get('id') if e else None), list(args), None, step, arr.n, (arr.R, arr.C))
    def f_generate(self, args, e):
        I = self.I; arr = self.arr_arg(args)
        if arr is None:
            for x in self.range_items(args[0], args[1]): I.set_value(x, I.call_value(args[2], []), True)
            return None
        f = args[2]
        def body(x, K):
            v = I.call_value(f, [])
            self.store(x, v)
        self.over(e, args, arr, body)
        return None
    def store(self, x, v):
        if isinstance(v, Cell): v = v.v
        self.I.set_value(x, v, True)
    def f_for_each(self, args, e):
        arr = self.arr_arg(args)
        if arr is None: return TreeLib.f_for_each(self, args, e)
        self.over(e, args, arr, lambda x, K: self.I.call_value(args[2], [x]))
        return self.I.get(args[2])
    def f_all_of(self, args, e):
        arr = self.arr_arg(args)
        if arr is None: return TreeLib.f_all_of(self, args, e)
        def body(x, K):
            if not self.ctx.decide(self.I.truth(self.I.call_value(args[2], [x]))): raise BreakEx()
        return self.over(e, args, arr, body)
    def f_any_of(self, args, e):
        arr = self.arr_arg(args)
        if arr is None: return TreeLib.f_any_of(self, args, e)
        def body(x, K):
            if self.ctx.decide(self.I.truth(self.I.call_value(args[2], [x]))): raise BreakEx()
        return not self.over(e, args, arr, body)
    def f_none_of(self, args, e): return not self.f_any_of(args, e)
    def f_equal(self, args, e):
        if len(args) >= 4 and isinstance(self.I.get(args[3]), It):
            x, y = self.arr_arg(args[:2]), self.arr_arg(args[2:4])
            if x is None or y is None: raise Unsupported('std::equal with four iterators')
            if not self.ctx.decide(tob(eq(x.n, y.n))): return False
            args = list(args[:3]) + list(args[4:])
            if len(args) == 3 and isinstance(x, DMap): raise Unsupported('std::equal of maps')
        arr = self.arr_arg(args)
        a, b, c = (self.I.get(x) for x in args[:3])
        if isinstance(a, DIt) and isinstance(b, DIt) and isinstance(c, DIt) and a.i == 0 and b.i is a.seq.n and c.i == 0 and len(args) == 4:
            def body(K):
                if not self.ctx.decide(self.I.truth(self.I.call_value(args[3], [a.seq.entry(K.q), c.seq.entry(K.q)]))): raise BreakEx()
            return self.rule.run(('alg', e.get('id') if e else None), list(args), None, body, a.seq.n, None)
        if arr is None: raise Unsupported('std::equal')
        it = self.I.get(args[2]); fn = None
        if len(args) == 4 and not isinstance(self.I.get(args[3]), It): fn = args[3]
        elif len(args) > 3: raise Unsupported('std::equal with four iterators')
        if not isinstance(it, AIt): raise Unsupported('std::equal')
        def body(x, K):
            y = self.element(it.seq, S(it.i + K.flat))
            r = self.I.call_value(fn, [x, y]) if fn is not None else self.eq(x, y)
            if not self.ctx.decide(self.I.truth(r)): raise BreakEx()
        return self.over(e, args, arr, body)
    def f_copy(self, args, e):
        arr = self.arr_arg(args)
        if arr is None: raise Unsupported('std::copy')
        it = self.I.get(args[2])
        if not isinstance(it, AIt): raise Unsupported('std::copy')
        self.over(e, args, arr, lambda x, K: self.store(self.element(it.seq, S(it.i + K.flat)), self.I.get(x)))
        return AIt(it.seq, S(it.i + arr.n))
    def f_fill(self, args, e):
        arr = self.arr_arg(args)
        if arr is None: raise Unsupported('std::fill')
        v = self.I.get(args[2])
        self.over(e, args, arr, lambda x, K: self.store(x, v))
    def f_transform(self, args, e):
        arr = self.arr_arg(args)
        if arr is None: raise Unsupported('std::transform')
        I = self.I
        its = [I.get(x) for x in args[2:-1]]
        if not all(isinstance(x, AIt) for x in its): raise Unsupported('std::transform')
        def body(x, K):
            ins = [x] + [self.element(i.seq, S(i.i + K.flat)) for i in its[:-1]]
            o = self.element(its[-1].seq, S(its[-1].i + K.flat))
            self.store(o, I.call_value(args[-1], ins))
        self.over(e, args, arr, body)
        return AIt(its[-1].seq, S(its[-1].i + arr.n))
    def f_accumulate(self, args, e):
        arr = self.arr_arg(args)
        if arr is None or arr.kind != 'real' or len(args) != 3: raise Unsupported('std::accumulate')
        return self.I.dom.bin('+', self.I.get(args[2]), self.dom_sum(arr.R, arr.C, arr.snapshot()))
    def f_inner_product(self, args, e):
        arr = self.arr_arg(args)
        it = self.I.get(args[2])
        if arr is None or arr.kind != 'real' or len(args) != 4 or not isinstance(it, AIt) or eq(it.i, 0) is not True: raise Unsupported('std::inner_product')
        x = self.binary('*', arr, it.seq)
        return self.I.dom.bin('+', self.I.get(args[3]), self.dom_sum(x.R, x.C, x.snapshot()))
    def f_max(self, args, e):
        a = self.I.get(args[0]) if args else None
        if isinstance(a, Seq):
            best = None
            for x in a.items:
                if best is None: best = x; continue
                if len(args) > 1: c = self.I.truth(self.I.call_value(args[1], [best, x]))
                else: raise Unsupported('std::max of a list')
                if self.ctx.decide(c): best = x
            return best
        return TreeLib.f_max(self, args, e)
    # ---------------------------------------------------------------- loops of the code itself
    def loop_hook(self, I, s, fr, init, cond, inc, body):
        if init == 'range':
            arr = I.get(cond)
            if isinstance(arr, Obj) and arr.cls != self.NI:
                a, b = (self.own_method(arr, x) for x in ('begin', 'end'))
                if isinstance(a, DIt) and isinstance(b, DIt) and a.seq is b.seq and a.i == 0 and b.i is a.seq.n: arr = a.seq
                elif isinstance(a, AIt) and isinstance(b, AIt) and self.whole(a, b) is not None: arr = a.seq
            if isinstance(arr, DMap):
                arr.enum()
                def step(K):
                    I.bind_loopvar(inc, arr.entry(K.q), fr)
                    try: I.scoped(body, fr)
                    except ContinueEx: pass
                self.rule.run(('for', s.get('id')), [arr], None, step, arr.n, None, fr)
                return True
            if not isinstance(arr, Arr): return False
            if isinstance(arr.n, int) and arr.n <= 8: 
                return False
            def step(K):
                I.bind_loopvar(inc, self.elem(arr, K.q, K.r), fr)
                try: I.scoped(body, fr)
                except ContinueEx: pass
            self.rule.run(('for', s.get('id')), [arr], None, step, arr.n, (arr.R, arr.C), fr)
            return True
        if not self.symbolic_loop(I, fr, cond): return False
        def test(): return I.truth(I.full(cond, fr)) if cond else True
        def step(K):
            try: I.scoped(body, fr)
            except ContinueEx: pass
            if inc: I.full(inc, fr)
        self.rule.run(('for', s.get('id')), [], test, step, None, None, fr)
        return True
    def own_method(self, o, name):
        r = self.I.rec_by_name.get(o.cls)
        for c in (r or {}).get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == name:
                d = self.I.tu.defs.get(c['id'])
                if d is not None: return self.I.get(self.I.call_function(d, o, []))
        return None
    def symbolic_loop(self, I, fr, cond):
        """the condition is not decided by concrete values"""
        if not cond: return True
        if not pure(cond): return False
        v = I.truth(I.full(cond, fr))
        if isinstance(v, bool):
            # while (true) around a body that does not end by itself
            return cond.get('kind') in ('IntegerLiteral', 'CXXBoolLiteralExpr') or (cond.get('kind') == 'ImplicitCastExpr' and cond['inner'][0].get('kind') == 'IntegerLiteral')
        v = z3.simplify(v)
        return not (z3.is_true(v) or z3.is_false(v))
    def elements(self, rng):
        rng = self.I.get(rng)
        if isinstance(rng, Arr):
            if not isinstance(rng.n, int): raise Unsupported('iteration over an array of symbolic size')
            return [self.element(rng, i) for i in range(rng.n)]
        return TreeLib.elements(self, rng)

def pure(e):
    k = e.get('kind')
    if k == 'UnaryOperator' and e.get('opcode') in ('++', '--'): return False
    if k in ('CompoundAssignOperator', 'CXXThrowExpr', 'LambdaExpr') or (k == 'BinaryOperator' and e.get('opcode') == '='): return False
    if k == 'CXXOperatorCallExpr':
        x = e['inner'][0]
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
        if x.get('referencedDecl', {}).get('name') in ('operator++', 'operator--', 'operator=', 'operator+=', 'operator-='): return False
    return all(pure(c) for c in e.get('inner', ()) if isinstance(c, dict) and c.get('kind'))
def tob(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def I_get(I, x): return I.get(x)
def ty_of_callee(e):
    x = e['inner'][0]
    while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and x.get('inner'): x = x['inner'][0]
    if x.get('kind') == 'MemberExpr': return ty(x['inner'][0]) and (' const' if ty(x['inner'][0]).startswith('const ') else '')
    return sugar(x)
