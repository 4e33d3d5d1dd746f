"""std::map<std::string, double / Node> of arbitrary contents, by its meaning: which names are keys, their values, how many there are."""
import z3
from .core import *
from .interp import head, ty, targs, strip
from .stl import N, conv_str
from .tree import T, NIL, WF, nilq
from .theory import *

KEY = z3.Const('key?', N)
def And(*c):
    from .mat import And as A
    return A(*c)
def Or(*c):
    from .mat import Or as O
    return O(*c)
def eq(a, b):
    from .mat import eq as E
    return E(a, b)
def Not(c): return (not c) if isinstance(c, bool) else z3.Not(c)
def Bo(c): return z3.BoolVal(c) if isinstance(c, bool) else c

class Enum:
    """the keys of a map, in its order: O(0), ..., O(n-1); X(k) is the position of key k"""
    def __init__(s, lib, has, n):
        c = lib.ctx.fresh(I_, 'ord').decl().name()
        s.lib, s.has, s.n = lib, has, n
        s.O, s.X = z3.Function('ORD' + c, I_, N), z3.Function('OIDX' + c, N, I_)
        lib.inverses['ORD' + c] = s.X; lib.orders['ORD' + c] = s
    def at(s, i):
        k = s.O(Z(i))
        s.lib.ctx.assume(z3.Implies(z3.And(Z(i) >= 0, Z(i) < Z(s.n)), z3.And(Bo(s.has(k)), s.X(k) == Z(i))))
    def of(s, k): s.lib.ctx.assume(Bo(s.has(k)) == z3.And(s.X(k) >= 0, s.X(k) < Z(s.n), s.O(s.X(k)) == k))

class DMap:
    """has(name), val(name), n entries; order: the enumeration (ORD(i), OIDX(name)) of the current keys"""
    def __init__(s, lib, kind, has=None, val=None, n=0, born=0, container='map'):
        s.lib, s.kind, s.born, s.container = lib, kind, born, container
        s.has = has or (lambda k: False); s.val = val or (lambda k: lib.zero(kind)); s.n = n
        s.log = []; s.frozen = None; s.order = None; s.region = 'dict'; s.facts = None; s.cache = {}
    def __repr__(s): return 'DMap<%s>[%s]' % (s.kind, s.n)
    # ---- the enumeration of the keys
    def enum(s):
        if s.order is None: s.order = Enum(s.lib, s.has, s.n)
        return s.order
    def index_facts(s, i):
        s.enum().at(i)
        if s.facts:
            for c in s.facts(s.order.O(Z(i))): s.lib.ctx.assume(c)
    def name_facts(s, k):
        if s.facts:
            for c in s.facts(k): s.lib.ctx.assume(c)
        if s.order is not None: s.order.of(k)
    # ---- reading and writing
    def known(s, k):
        """value at k, a case distinction decided by the path taken away"""
        return s.lib.decided(s.val(k))
    def cell(s, k):
        if s.kind == 'tree':
            t = s.known(k); s.lib.about_entry(s, k, t)
            u = s.cache.get(t.get_id())
            if u is None:
                u = s.lib.node_up(t, None, False, s.region); s.cache[t.get_id()] = u; u.keep = t
                u.frozen = 'an expression held by a map'
            return u
        return DCell(s, k)
    def entry(s, i):
        s.lib.ctx.oblige('dereference-of-end', z3.And(Z(i) >= 0, Z(i) < Z(s.n)))
        s.index_facts(i); k = s.enum().O(Z(i))
        s.lib.names_known(k)
        return s.pair(k)
    def pair(s, k):
        n = Str(k); n.frozen = 'a key of a map'
        return Pair([n, s.cell(k)])
    def put(s, k, v, overwrite=True):
        s.lib.I.wrote(s); ctx = s.lib.ctx
        k = s.lib.decided(k); s.lib.names_known(k); s.name_facts(k)
        has, val = s.has, s.val; h = has(k)
        there = ctx.entails(Bo(h)); new = not there and ctx.entails(z3.Not(Bo(h)))
        if s.kind == 'tree' and overwrite and s.cache and not new: raise Unsupported('replacement of an expression of a map after a reference to it was taken')
        if not there:
            s.order = None
            s.n = S(s.n + 1) if new else S(s.n + z3.If(Bo(h), 0, 1))
        cond = (lambda x: Bo(x == k)) if overwrite else (lambda x: z3.And(x == k, z3.Not(Bo(has(x)))))
        s.has = lambda x: z3.Or(x == k, Bo(has(x)))
        s.val = lambda x: z3.simplify(z3.If(cond(x), v, val(x)))
        s.log.append((cond, lambda x: v))
    def index(s, k):
        """m[k]"""
        s.lib.names_known(k); s.name_facts(k)
        if not s.lib.ctx.entails(Bo(s.has(k))): s.put(k, s.lib.zero(s.kind), False)
        return DSlot(s, k) if s.kind == 'tree' else s.cell(k)
    def value(s, v):
        I = s.lib.I
        v = I.get(v) if not isinstance(v, UP) else v
        if s.kind == 'real': return I.dom.co(v)
        if s.kind == 'int': return Z(v)
        if isinstance(v, UP):
            u = I.move(v); t = s.lib.tree(u); s.lib.stored.append(u)
            return t
        raise Unsupported('value of a map entry')
    # ---- hooks of the interpreter
    def copy_value(s, I):
        if s.kind == 'tree': raise Unsupported('copy of a map of expressions')
        m = DMap(s.lib, s.kind, s.has, s.val, s.n, I.ctx.time, s.container); m.order = s.order; m.facts = s.facts
        return m
    def move_value(s, I):
        m = DMap(s.lib, s.kind, s.has, s.val, s.n, I.ctx.time, s.container); m.order = s.order; m.facts = s.facts; m.region = s.region
        I.wrote(s); s.clear(); return m
    def clear(s):
        s.has = lambda k: False; s.val = lambda k: s.lib.zero(s.kind); s.n = 0; s.order = None; s.log.append(('clear',)); s.facts = None
    def assign_value(s, I, src, move=False):
        I.wrote(s)
        if not isinstance(src, DMap) or (src.kind == 'tree' and not move): raise Unsupported('assignment to a map')
        s.has, s.val, s.n, s.order, s.facts = src.has, src.val, src.n, src.order, src.facts; s.log.append(('assign',))
        if move: src.clear()
    def key(s, x): return s.lib.decided(conv_str(s.lib.str_val(x)))
    def method(s, I, n, args, e):
        ctx = s.lib.ctx
        if n in ('begin', 'cbegin'): s.enum(); return DIt(s, 0)
        if n in ('end', 'cend'): return DIt(s, s.n)
        if n == 'size': return s.n
        if n == 'empty':
            return s.n == 0 if isinstance(s.n, int) else s.n == 0
        if n == 'clear': I.wrote(s); s.clear(); return None
        if n in ('find', 'count', 'at', 'contains'):
            k = s.key(args[0]); s.lib.names_known(k); s.name_facts(k); h = s.has(k)
            if n == 'contains': return h
            if n == 'count': return z3.If(Bo(h), z3.IntVal(1), z3.IntVal(0))
            if ctx.decide(Bo(h)): return s.cell(k) if n == 'at' else DIt(s, None, k)
            if n == 'at': raise CppThrow(Ext('out_of_range'), 'out_of_range')
            return DIt(s, s.n)
        if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            if n == 'insert' and len(args) == 1 and isinstance(args[0], Tuple): k, v = args[0].items
            elif n in ('emplace', 'try_emplace', 'insert_or_assign') and len(args) == 2: k, v = args
            elif n == 'emplace' and len(args) == 1 and isinstance(args[0], Tuple): k, v = args[0].items
            else: raise Unsupported('map ' + n)
            k = s.key(k)
            if s.kind == 'tree' and n == 'insert_or_assign': raise Unsupported('map ' + n)
            v = s.value(v); h = s.has(k)
            s.put(k, v, n == 'insert_or_assign')
            return Pair([DIt(s, None, k), Cell(Not(h))])
        if n == 'operator[]': return s.index(s.key(args[0]))
        raise Unsupported('map method ' + n)
    def op(s, I, n, args, e):
        if n == '[]': return s.index(s.key(args[1]))
        if n == '=' and args[0] is s: s.assign_value(I, I.get(args[1])); return s
        raise Unsupported('operator %s on a map' % n)

class DCell(Cell):
    """reference to the number held at a key"""
    __slots__ = ('map', 'k')
    def __init__(s, m, k): s.map, s.k = m, k; s.born = m.born; s.frozen = None; s.tag = None
    @property
    def v(s): return s.map.val(s.k)
    @v.setter
    def v(s, x): s.map.put(s.k, s.map.value(x), True)

class DSlot(UP):
    """reference to the expression held at a key"""
    def __init__(s, m, k):
        UP.__init__(s, None, m.born); s.map, s.k = m, k
        t = m.known(k)
        if not t.eq(NIL):
            m.lib.about_entry(m, k, t); s.set(m.lib.lazy(t, None, True, m.region))
        s.frozen = 'an expression held by a map'

class DIt(It):
    """iterator of a map: at position i of the enumeration, or at a key that is present"""
    def __init__(s, seq, i, key=None): It.__init__(s, seq, i, False); s.key = key
    def moved(s, i, *seq):
        if s.key is not None: raise Unsupported('map iterator at a key, as a loop variable')
        return DIt(seq[0] if seq else s.seq, i)

class Pairs:
    """an initializer_list<pair<string, double>> of any length: names f(i), values g(i); FIRST(x) is the first position of x"""
    def __init__(s, lib, n, f, g, first): s.lib, s.n, s.f, s.g, s.first = lib, n, f, g, first; s.born = 0; s.frozen = None
    def method(s, I, n, args, e):
        if n in ('begin', 'cbegin'): return It(s, 0)
        if n in ('end', 'cend'): return It(s, s.n)
        if n == 'size': return s.n
        raise Unsupported('initializer_list ' + n)
    def copy_value(s, I): return s
    def move_value(s, I): return s
    def facts(s, i): return z3.Implies(z3.And(Z(i) >= 0, Z(i) < Z(s.n)), z3.And(s.first(s.f(Z(i))) >= 0, s.first(s.f(Z(i))) <= Z(i), s.f(s.first(s.f(Z(i)))) == s.f(Z(i))))
    def has(s, k): return z3.And(s.first(k) >= 0, s.first(k) < Z(s.n), s.f(s.first(k)) == k)

class MapLib:
    """mixed into MatLib"""
    def up_assign(self, dst, src):
        if not isinstance(dst, DSlot): return super().up_assign(dst, src)
        dst.map.put(dst.k, dst.map.value(src), True)
    def init_maps(self):
        self.orders = {}
        self.inverses = {}        # name of an injective function Int -> Name: its inverse
        self.stored = []; self.named = []
        self.onname = []          # facts about every name looked up
    def new_map(self, t):
        a = targs(strip(t))
        if len(a) < 2 or head(a[0]) not in ('basic_string', 'string'): raise Unsupported('map type ' + t)
        if strip(a[1]) in ('double',): k = 'real'
        elif head(a[1]) in ('unique_ptr', 'Node'): k = 'tree'
        elif strip(a[1]) in ('int', 'size_t', 'unsigned long'): k = 'int'
        else: raise Unsupported('map type ' + t)
        return DMap(self, k, born=self.ctx.time, container=head(t))
    def names_known(self, k):
        for f in self.onname:
            for c in f(k): self.ctx.assume(c)
        if z3.is_app(k) and k.num_args() == 1 and k.decl().name() in self.orders: self.orders[k.decl().name()].at(k.arg(0))
    def decided(self, v):
        while isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            if self.ctx.entails(v.arg(0)): v = v.arg(1)
            elif self.ctx.entails(z3.Not(v.arg(0))): v = v.arg(2)
            else: break
        return v
    def about_entry(self, m, k, t):
        """what is known about the expression t stored at k"""
        ts = []
        def leaves(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: leaves(t.arg(1)); leaves(t.arg(2))
            else: ts.append(t)
        leaves(t)
        for a in self.inputs:
            f = a.fn(z3.IntVal(0), z3.IntVal(0))
            for x in ts:
                if z3.is_app(x) and z3.is_app(f) and x.decl().eq(f.decl()) and x.num_args() == 2:
                    for c in a.facts(x.arg(0), x.arg(1)): self.ctx.assume(c)
        for x in ts:
            if not x.eq(NIL): self.unfold(x)
    def map_range(self, t, a, b):
        """map(first, last)"""
        m = self.new_map(t)
        if isinstance(a.seq, Pairs) and b.seq is a.seq and a.i == 0 and b.i is a.seq.n and m.kind == 'real':
            p = a.seq
            m.has = p.has; m.val = lambda k: p.g(p.first(k))
            c = self.ctx.fresh(I_, 'count'); self.ctx.assume(z3.And(c >= 0, c <= Z(p.n), z3.Implies(Z(p.n) > 0, c > 0)))
            m.n = c; m.facts = lambda k: []
            return m
        if isinstance(a, DIt) and isinstance(b, DIt) and a.seq is b.seq and a.key is None and b.key is None and eq(a.i, 0) is True and eq(b.i, a.seq.n) is True and a.seq.kind == m.kind:
            return a.seq.copy_value(self.I)
        raise Unsupported('map of a range')
    def name_set(self, has, n, hint='names'):
        """a std::set<std::string> with n elements"""
        m = DMap(self, 'int', has, lambda k: z3.IntVal(0), n, self.ctx.time, 'set'); m.enum()
        self.onname.append(lambda k: [Bo(has(k)) == z3.And(m.order.X(k) >= 0, m.order.X(k) < Z(n), m.order.O(m.order.X(k)) == k)] if m.order else [])
        return m
    def names_of_set(self, a, b):
        """vector<string>(first, last) of a whole set of names: its elements, distinct, in its order"""
        from .mat import Arr, eq
        if not (isinstance(b, DIt) and a.seq is b.seq and a.seq.container == 'set' and a.key is None and b.key is None and eq(a.i, 0) is True and eq(b.i, a.seq.n) is True): raise Unsupported('vector of a range')
        o = a.seq.enum(); n = a.seq.n
        r = Arr(self, n, 'name', lambda q, r: o.O(Z(q)), (n, 1), self.ctx.time, 'vector')
        has = a.seq.has
        r.facts = lambda q, r: [z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), z3.And(Bo(has(o.O(Z(q)))), o.X(o.O(Z(q))) == Z(q)))]
        r.idx, r.nm, r.has = o.X, o.O, has
        self.inputs.append(r)
        return r
    def dit_eq(self, a, b):
        if not (isinstance(a, DIt) and isinstance(b, DIt)) or a.seq is not b.seq: raise Unsupported('iterators of different maps')
        if a.key is not None or b.key is not None:
            x, y = (a, b) if a.key is not None else (b, a)
            if y.key is not None: return x.key == y.key
            if y.i is x.seq.n or S(y.i) == S(x.seq.n) is True or self.ctx.entails(Z(y.i) == Z(x.seq.n)): return False
            raise Unsupported('comparison of map iterators')
        from .mat import eq
        return eq(a.i, b.i)
    def dit_deref(self, p):
        if p.key is not None: return p.seq.pair(p.key)
        return p.seq.entry(p.i)
    # ---- the effect of a loop on a map
    def guess_dmap(self, rule, info, p, outs, leak, subst):
        from .loops import linear
        if info.two: return None
        l = info.locs[p]; has0, val0, n0 = info.init[p][1:4]; Hh, Hv, Hn = rule.raw(info, p, l)
        kq = info.kq; parts = []
        for o in outs:
            if p not in o.new: continue
            v, w, old, n = o.new[p]
            if v is None: return None
            w = subst(Bo(w)); v = subst(v)
            if leak(w, (p,)) or leak(v, (p,)): return None
            pc = rule.pc(info, o, lambda e: leak(e, (p,)), subst)
            if pc is None: return None
            parts.append((w, v, old, Bo(pc)))
        if not parts: return None
        key = None
        for w, v, old, pc in parts:
            todo = [w]; ks = []
            while todo:
                x = todo.pop()
                if z3.is_and(x) or z3.is_or(x) or z3.is_not(x): todo += x.children()
                elif z3.is_eq(x) and (x.arg(0).eq(KEY) or x.arg(1).eq(KEY)): ks.append(x.arg(1) if x.arg(0).eq(KEY) else x.arg(0))
            if not ks or any(not k.eq(ks[0]) for k in ks): return None
            if key is None: key = ks[0]
            elif not key.eq(ks[0]): return None
        if not z3.is_app(key) or key.num_args() < 1 or key.decl().name() not in self.inverses: return None
        if any(mentions(c, kq) for c in key.children()[1:]): return None
        X = self.inverses[key.decl().name()](KEY)
        li = linear(key.arg(0), kq)
        if li is None or li[1] not in (1, -1) or mentions(Z(li[0]), kq): return None
        t = S(X - li[0]) if li[1] == 1 else S(li[0] - X)
        hv, vv = z3.substitute(Bo(has0(KEY)), (KEY, z3.Var(0, N))), z3.substitute(val0(KEY), (KEY, z3.Var(0, N)))
        def back(e):
            e = z3.substitute_funs(e, (Hh(KEY).decl(), hv), (Hv(KEY).decl(), vv))
            return z3.simplify(z3.substitute(e, (kq, Z(t))))
        cs = []; tpl = val0(KEY)
        for w, v, old, pc in parts:
            c = back(z3.And(w, pc)); v = back(z3.substitute(v, (old, val0(KEY))))
            cs.append(c); tpl = z3.If(c, v, tpl)
        reg = z3.simplify(z3.Or(*cs))
        ctx = self.ctx
        self.names_known(key)
        rng = [kq >= 0] + ([kq < Z(info.N)] if info.N is not None else [])
        for j, clean, c in info.tests[-3:]:
            if isinstance(c, z3.ExprRef):
                c = subst(c)
                if not leak(c): rng.append(c)
        there = ctx.entails(z3.Implies(z3.And(*rng), Bo(has0(key))))
        def g(K):
            b = Bo(rule.before(info, (t, 0), K))
            at = lambda e, x: z3.simplify(z3.substitute(e, (KEY, x)))
            return (lambda x: at(z3.Or(Bo(has0(KEY)), z3.And(b, reg)), x), lambda x: at(z3.If(b, tpl, val0(KEY)), x), n0 if there else S(n0 + K.flat))
        return g
