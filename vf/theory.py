"""Integer index arithmetic and the defined real functions (finite sums, determinants, ...) used by the matrix contracts.

Terms SUM(n, f), DET(n, M) ... are defined functions over z3 lambdas.  Before a query they are replaced by constants; the only facts the solver gets about
them are instances of valid lemmas (extensionality, unrolling by one, empty sum), produced here for the terms of the query.
QUO(c,k), REM(c,k) and FLAT(c,q,r) relate a flat index k of an array with c columns to row q and column r: k == q*c + r, 0 <= r < c.
"""
import z3
I_ = z3.IntSort(); R_ = z3.RealSort()
A1 = z3.ArraySort(I_, R_); A2 = z3.ArraySort(I_, I_, R_)
SUM = z3.Function('SUM', I_, A1, R_)
SUM2 = z3.Function('SUM2', I_, I_, A2, R_)
DET = z3.Function('DET', I_, A2, R_)
QUO = z3.Function('QUO', I_, I_, I_)
REM = z3.Function('REM', I_, I_, I_)
FLAT = z3.Function('FLAT', I_, I_, I_, I_)
DEFINED = (SUM, SUM2, DET)
THEORY_FNS = frozenset(f.name() for f in (SUM, SUM2, DET, QUO, REM, FLAT))

def Z(x):
    if isinstance(x, bool): x = int(x)
    return z3.IntVal(x) if isinstance(x, int) else x
def is_lit(x): return isinstance(x, int) or z3.is_int_value(x)
def lit(x): return x if isinstance(x, int) else x.as_long()
_S = {}
def S(x):
    if isinstance(x, int): return x
    r = _S.get(x.get_id())
    if r is None:
        y = z3.simplify(x)
        r = _S[x.get_id()] = (x, y.as_long() if z3.is_int_value(y) else y)
    return r[1]

# ---------------------------------------------------------------- polynomials over integer atoms
ATOMS = {}
_P = {}
def poly(e):
    """{monomial (sorted tuple of atom ids): coefficient}; not to be modified"""
    if isinstance(e, int): return {(): e} if e else {}
    r = _P.get(e.get_id())
    if r is None: r = _P[e.get_id()] = (e, poly_(e))
    return r[1]
def poly_(e):
    if z3.is_int_value(e):
        v = e.as_long(); return {(): v} if v else {}
    if z3.is_add(e):
        out = {}
        for c in e.children(): out = padd(out, poly(c))
        return out
    if z3.is_sub(e):
        ch = e.children(); out = poly(ch[0])
        for c in ch[1:]: out = padd(out, pscale(poly(c), -1))
        return out
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS: return pscale(poly(e.arg(0)), -1)
    if z3.is_mul(e):
        out = {(): 1}
        for c in e.children(): out = pmul(out, poly(c))
        return out
    ATOMS[e.get_id()] = e
    return {(e.get_id(),): 1}
def padd(a, b):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c
        if v: out[m] = v
        else: out.pop(m, None)
    return out
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}
def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = out.get(k, 0) + c * d
            if v: out[k] = v
            else: out.pop(k, None)
    return out
def unpoly(p):
    if not p: return 0
    ts = []; const = 0
    for m, c in sorted(p.items()):
        if not m: const = c; continue
        t = ATOMS[m[0]]
        for i in m[1:]: t = t * ATOMS[i]
        ts.append(t if c == 1 else -t if c == -1 else c * t)
    if not ts: return const
    r = ts[0]
    for t in ts[1:]: r = r + t
    return r + const if const else r
def divide(e, C):
    """(q, r) with e == q*C + r as polynomials, r without the leading atom of C; None if C has no atom with coefficient +-1"""
    pc = poly(C); pe = poly(e)
    if not pc: return None
    if set(pc) == {()}:
        c = pc[()]
        if c == 1: return e, 0
        q = {m: v // c for m, v in pe.items() if v % c == 0}
        r = {m: v for m, v in pe.items() if v % c != 0}
        if any(m != () for m in r): return None
        if r: q[()] = pe[()] // c; r = {(): pe[()] % c}
        return unpoly(q), unpoly(r)
    lead = [m[0] for m, v in sorted(pc.items(), reverse=True) if len(m) == 1 and v in (1, -1) and all(m[0] not in n for n in pc if n != m)]
    if not lead: 
        # a product C = a*b: divide exactly
        return None
    a = lead[0]; s = pc[(a,)]
    rest = {m: v for m, v in pc.items() if m != (a,)}       # C = s*a + rest, a = s*(C - rest)
    q, r = {}, {}
    todo = pe
    # write e in powers of a; e = sum a^k e_k; Horner with a = s*C - s*rest
    deg = max([m.count(a) for m in todo] or [0])
    coef = [{} for _ in range(deg + 1)]
    for m, v in todo.items():
        k = m.count(a); n = tuple(x for x in m if x != a)
        coef[k] = padd(coef[k], {n: v})
    # Horner: acc = coef[deg]; acc = acc*a + coef[k], keeping acc = Q*C + Rm with Rm free of a
    Q, Rm = {}, coef[deg]
    for k in range(deg - 1, -1, -1):
        # (Q*C + Rm)*a = Q*a*C + Rm*s*C - Rm*s*rest
        Q = padd(pmul(Q, {(a,): 1}), pscale(Rm, s))
        Rm = padd(pscale(pmul(Rm, rest), -s), coef[k])
    return unpoly(Q), unpoly(Rm)
def linear(e, k):
    """(alpha, beta) with e == alpha + beta*k, beta an integer; None otherwise"""
    p = poly(e); i = k.get_id(); ATOMS[i] = k
    a, b = {}, 0
    for m, c in p.items():
        if i in m:
            if m != (i,): return None
            b = c
        else:
            for x in m:
                if mentions(ATOMS[x], k): return None
            a[m] = c
    return unpoly(a), b
_men = {}
def mentions(e, k):
    """k occurs in e"""
    if not isinstance(e, z3.ExprRef): return False
    key = (e.get_id(), k.get_id())
    seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo += x.children()
    return False
def consts(e, out=None):
    """uninterpreted constants of e"""
    out = {} if out is None else out
    seen = set(); todo = [e] if isinstance(e, z3.ExprRef) else []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
        todo += x.children()
    return out
def funs(e):
    """uninterpreted functions of e (with arguments): ids of declarations"""
    out = {}; seen = set(); todo = [e] if isinstance(e, z3.ExprRef) else []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x.decl()
        todo += x.children()
    return out

_FN = {}
_NONE = frozenset()
def fnames(e):
    """names of the uninterpreted functions (with arguments) of e; remembered"""
    r = _FN.get(e.get_id())
    if r is not None: return r[1]
    st = [e]
    while st:
        x = st[-1]; i = x.get_id()
        if i in _FN: st.pop(); continue
        if z3.is_quantifier(x): ch = [x.body()]
        elif z3.is_app(x): ch = x.children()
        else: ch = []
        miss = [c for c in ch if c.get_id() not in _FN]
        if miss: st += miss; continue
        st.pop()
        ns = [_FN[c.get_id()][1] for c in ch]; ns = [n for n in ns if n]
        r = _NONE if not ns else ns[0] if all(n is ns[0] for n in ns) else frozenset().union(*ns)
        if ch and z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() not in r: r = r | {d.name()}
        _FN[i] = (x, r)
    return _FN[e.get_id()][1]
def is_app_of(e, f): return z3.is_app(e) and e.decl().eq(f)
def has_free_var(e):
    """a de Bruijn variable not bound inside e"""
    memo = {}
    def go(x, depth):
        key = (x.get_id(), depth)
        if key in memo: return memo[key]
        memo[key] = False
        if z3.is_var(x): r = z3.get_var_index(x) >= depth
        elif z3.is_quantifier(x): r = go(x.body(), depth + x.num_vars())
        else: r = any(go(c, depth) for c in x.children())
        memo[key] = r
        return r
    return go(e, 0)

class Theory:
    MAXDEPTH = 3
    def __init__(self):
        self.table = {}      # id of application -> (const, application, depth)
        self.pairs = set()
        self.keep = []
        self.done = set()
        self.n = 0
        self.idx = {}        # id -> QUO/REM/FLAT applications seen
        self.pend = []       # lemmas not yet given to a solver: global list
        self.extra = []      # callables(application, const) -> lemmas for defined functions
        self.prods = {}      # columns c (id) -> list of (R, c) shapes
        self.rules = []
        self.kinds = {}
        self.cache = {}
    def shape(self, R, C):
        if is_lit(C) and lit(C) == 1: return
        C = Z(C); R = Z(R)
        l = self.prods.setdefault(C.get_id(), [])
        if not any(r.eq(R) for r, c in l): l.append((R, C)); self.redo()
    def redo(self):
        for a in list(self.idx.values()): self.index_lemmas(a)
    # -- abstraction of defined functions
    def abstract(self, e, depth=0):
        """e with every closed application of a defined function replaced by its constant (registers lemmas)"""
        if not isinstance(e, z3.ExprRef): return e
        k = (e.get_id(), depth)
        if k in self.cache: return self.cache[k][1]
        ns = fnames(e)
        if not ns or not (ns & THEORY_FNS or (self.kinds and not ns.isdisjoint(self.kinds))): return e
        subs = []; seen = set(); todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_app(x):
                d = x.decl()
                if any(d.eq(f) for f in DEFINED) or d.name() in self.kinds:
                    if not has_free_var(x): subs.append((x, self.const(x, depth))); continue
                if d.eq(QUO) or d.eq(REM) or d.eq(FLAT):
                    if x.get_id() not in self.idx and not has_free_var(x):
                        self.idx[x.get_id()] = x; self.index_lemmas(x)
            todo += x.children()
        r = z3.substitute(e, *subs) if subs else e
        self.cache[k] = (e, r)
        return r
    def const(self, x, depth):
        t = self.table.get(x.get_id())
        if t is not None: return t[0]
        self.n += 1
        c = z3.Const('%s@%d' % (x.decl().name(), self.n), x.sort())
        me = (c, x, depth)
        old = list(self.table.values())
        self.table[x.get_id()] = me
        d = x.decl()
        if d.eq(SUM): self.lemma(z3.Implies(x.arg(0) <= 0, c == 0), depth)
        if d.eq(SUM2): self.lemma(z3.Implies(z3.Or(x.arg(0) <= 0, x.arg(1) <= 0), c == 0), depth)
        for f in self.extra:
            for l in f(x, c): self.lemma(l, depth + 1)
        if depth <= self.MAXDEPTH:
            for o in old:
                if o[2] <= self.MAXDEPTH: self.pair(me, o)
        return c
    def lemma(self, f, depth=0):
        self.pend.append(self.abstract(f, depth + 1)); self.keep.append(f)
    def sk(self, hint='k'):
        self.n += 1
        return z3.Int('%s@%d' % (hint, self.n))
    def pair(self, a, b):
        ca, x, da = a; cb, y, db = b
        dep = max(da, db)
        dx, dy = x.decl(), y.decl()
        if dx.eq(dy):
            if dx.eq(SUM):
                self.sums(a, b, dep)
            elif dx.eq(SUM2):
                q, r = self.sk('q'), self.sk('r')
                self.lemma(z3.Implies(z3.And(x.arg(0) == y.arg(0), x.arg(1) == y.arg(1), z3.Implies(z3.And(0 <= q, q < x.arg(0), 0 <= r, r < x.arg(1)), sel(x.arg(2), q, r) == sel(y.arg(2), q, r))), ca == cb), dep)
            elif dx.eq(DET):
                q, r = self.sk('q'), self.sk('r')
                self.lemma(z3.Implies(z3.And(x.arg(0) == y.arg(0), z3.Implies(z3.And(0 <= q, q < x.arg(0), 0 <= r, r < x.arg(0)), sel(x.arg(1), q, r) == sel(y.arg(1), q, r))), ca == cb), dep)
            else:
                h = self.kinds.get(dx.name())
                if h:
                    for l in h(self, x, ca, y, cb): self.lemma(l, dep)
        elif {dx.name(), dy.name()} == {'SUM', 'SUM2'}:
            if dx.eq(SUM2): ca, x, cb, y = cb, y, ca, x
            # SUM over the flat index equals SUM2
            q, r = self.sk('q'), self.sk('r'); R, C = y.arg(0), y.arg(1)
            self.lemma(z3.Implies(z3.And(x.arg(0) == R * C, z3.Implies(z3.And(0 <= q, q < R, 0 <= r, r < C), sel(x.arg(1), FLAT(C, q, r)) == sel(y.arg(2), q, r))), ca == cb), dep)
            # nested sums
            q = self.sk('q'); f = y.arg(2); rv = z3.Int('rv@')
            inner = SUM(C, z3.Lambda([rv], sel(f, q, rv)))
            if dep < 2: self.lemma(z3.Implies(z3.And(x.arg(0) == R, z3.Implies(z3.And(0 <= q, q < R), sel(x.arg(1), q) == inner)), ca == cb), dep)
    def sums(self, a, b, dep):
        ca, x, _ = a; cb, y, _ = b
        n, f, m, g = x.arg(0), x.arg(1), y.arg(0), y.arg(1)
        k = self.sk()
        same = lambda lim: z3.Implies(z3.And(0 <= k, k < lim), sel(f, k) == sel(g, k))
        self.lemma(z3.Implies(z3.And(n == m, same(n)), ca == cb), dep)
        self.lemma(z3.Implies(z3.And(n == m + 1, m >= 0, same(m)), ca == cb + sel(f, m)), dep)
        self.lemma(z3.Implies(z3.And(m == n + 1, n >= 0, same(n)), cb == ca + sel(g, n)), dep)
        # linearity: a common factor that does not depend on the index is found by the caller
    # -- flat indices
    def index_lemmas(self, x):
        d = x.decl(); c = x.arg(0)
        for R, C in self.prods.get(c.get_id(), ()):
            if (x.get_id(), R.get_id()) in self.done: continue
            self.done.add((x.get_id(), R.get_id()))
            if d.eq(FLAT):
                q, r = x.arg(1), x.arg(2)
                self.lemma(z3.Implies(z3.And(0 <= q, q < R, 0 <= r, r < C), z3.And(0 <= x, x < R * C)), 0)
            else:
                k = x.arg(1)
                self.lemma(z3.Implies(z3.And(0 <= k, k < R * C, R >= 0, C >= 0), z3.And(C >= 1, 0 <= QUO(c, k), QUO(c, k) < R, 0 <= REM(c, k), REM(c, k) < c)), 0)
        if x.get_id() in self.done: return
        self.done.add(x.get_id())
        if d.eq(FLAT):
            q, r = x.arg(1), x.arg(2)
            if not (is_app_of(q, QUO) and is_app_of(r, REM) and q.arg(1).eq(r.arg(1)) and q.arg(0).eq(c)):
                self.lemma(z3.Implies(z3.And(0 <= r, r < c), z3.And(QUO(c, x) == q, REM(c, x) == r)), 0)
            self.lemma(z3.Implies(z3.And(q == 0, r == 0), x == 0), 0)
            if is_lit(q): self.lemma(x == lit(q) * c + r)
        else:
            k = x.arg(1)
            if not is_app_of(k, FLAT): self.lemma(z3.Implies(c >= 1, FLAT(c, QUO(c, k), REM(c, k)) == k), 0)
            d = divide(k, c)
            if d is not None and not (is_lit(d[0]) and lit(d[0]) == 0): self.lemma(z3.Implies(z3.And(0 <= d[1], d[1] < c), z3.And(QUO(c, k) == d[0], REM(c, k) == d[1])))
            else: self.lemma(z3.Implies(z3.And(0 <= k, k < c), z3.And(QUO(c, k) == 0, REM(c, k) == k)))
            self.lemma(z3.Implies(z3.And(k == 0, c >= 1), z3.And(QUO(c, k) == 0, REM(c, k) == 0)), 0)
            for y in list(self.idx.values()):
                if y.decl().eq(QUO) and y.arg(0).eq(c) and not y.arg(1).eq(k):
                    for u, v in ((k, y.arg(1)), (y.arg(1), k)):
                        if z3.is_int_value(z3.simplify(u - v)) and z3.simplify(u - v).as_long() != 1: continue
                        self.lemma(z3.Implies(z3.And(u == v + 1, v >= 0, c >= 1), z3.And(QUO(c, u) == z3.If(REM(c, v) + 1 == c, QUO(c, v) + 1, QUO(c, v)), REM(c, u) == z3.If(REM(c, v) + 1 == c, 0, REM(c, v) + 1))), 0)

def sel(f, *i):
    i = [Z(x) for x in i]
    if z3.is_quantifier(f) and f.is_lambda():
        return z3.substitute_vars(f.body(), *reversed(i))
    return z3.Select(f, *i)
DEPTH = [0]
def lam1(fn):
    DEPTH[0] += 1
    try:
        k = z3.Int('k#%d' % DEPTH[0]); return z3.Lambda([k], real(fn(k)))
    finally: DEPTH[0] -= 1
def lam2(fn):
    DEPTH[0] += 1
    try:
        q, r = z3.Int('q#%d' % DEPTH[0]), z3.Int('r#%d' % DEPTH[0]); return z3.Lambda([q, r], real(fn(q, r)))
    finally: DEPTH[0] -= 1
def real(x):
    if isinstance(x, (int, float)): return z3.RealVal(x)
    return x
def mksum(n, fn): return SUM(Z(n), lam1(fn))
def mksum2(R, C, fn):
    if is_lit(C) and lit(C) == 1: return mksum(R, lambda k: fn(k, Z(0)))
    if is_lit(R) and lit(R) == 1: return mksum(C, lambda k: fn(Z(0), k))
    return SUM2(Z(R), Z(C), lam2(fn))
