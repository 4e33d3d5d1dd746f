"""Diff under contract (C07): the tree Diff returns has the value the rules of calculus give, wherever they apply."""
import z3
from .core import *
from .interp import ty, strip, head
from .extract import params_of, body_of
from .tree import *
from .tspecs import *
from .tasks_tree import Env, NS, tree_contracts

R = z3.RealSort()
DX = z3.Const('DX', N)          # the variable of differentiation
class Calculus:
    """V: value of a tree at the point ENV;  DEF: it is defined there;  D: its derivative by DX according to the rules of calculus;
    OKD: those rules apply at the point;  M: termination measure;  HASMOD / MODVAR: contains % & | (with a non-constant operand)"""
    def __init__(self, ops, dom):
        self.ops, self.dom = ops, dom
        F = z3.Function
        self.ENV = F('ENVq', N, R)
        self.V, self.D = F('Vq', T, R), F('Dq', T, R)
        self.DEF, self.OKD = F('DEFq', T, B), F('OKDq', T, B)
        self.M = F('Mq', T, I_)
        self.INT, self.RECIP = F('INT', R, B), F('RECIP', R, R)       # x is a whole number; 1/x
        self.HASV, self.HASMOD, self.MODVAR = F('HASVq', T, B), F('HASMODq', T, B), F('MODVARq', T, B)
    def unfold(self, t):
        """the definitions that steer the paths; those of V, D, DEF, OKD are added to the obligations that need them"""
        o = self.ops
        k, op, l, r = (proj(x, t) for x in ('ty', 'op', 'l', 'r'))
        M = self.M
        self.ctx.st.facts.setdefault('calculus', []).append(t)
        mod = z3.And(k == o.OP, z3.Or(*[op == o.v[n] for n in ('AND', 'OR', 'MOD')]))
        z = lambda x: z3.If(nilq(x), 0, M(x))
        out = [M(t) == z3.If(z3.And(k == o.OP, op == o.POWER), 3, 1) + z(l) + z(r), z3.Or(nilq(l), M(l) >= 1), z3.Or(nilq(r), M(r) >= 1)]
        H, S, G = self.HASV, self.HASMOD, self.MODVAR
        kid = lambda P: z3.Or(z3.And(z3.Not(nilq(l)), P(l)), z3.And(z3.Not(nilq(r)), P(r)))
        return out + [H(t) == z3.Or(k == o.VAR, kid(H)), S(t) == z3.Or(mod, kid(S)), G(t) == z3.Or(z3.And(mod, H(t)), kid(G))]
    def known(self, e, codes):
        """the value of e on the current path, if the path condition fixes it"""
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        for c, pos in self.ctx.st.log:
            if pos and z3.is_eq(c) and c.arg(0).eq(e) and z3.is_int_value(c.arg(1)): return c.arg(1).as_long()
        if self.ctx.check() == z3.sat:
            v = self.ctx.st.model().eval(e, model_completion=True).as_long()
            if self.ctx.entails(e == v): return v
        return None
    def definitions(self, t):
        """V, D, DEF and OKD at node t"""
        o = self.ops; f = lambda n, *a: self.dom.fun(n, len(a))(*a)
        k, op, l, r, nm, val = (proj(x, t) for x in ('ty', 'op', 'l', 'r', 'nm', 'val'))
        V, D, DEF, OKD = self.V, self.D, self.DEF, self.OKD
        u, v, du, dv = V(l), V(r), D(l), D(r)
        one = z3.RealVal(1); q = self.RECIP
        powl = f('pow', u, v); rn = proj('ty', r) == o.NUM
        isint = self.INT(v)
        ln2, ln10 = f('log', z3.RealVal(2)), f('log', z3.RealVal(10))
        dfun = {  # operator -> (value, defined, rule applies, derivative)
            'POSITIVE': (u, True, True, du), 'NEGATIVE': (-u, True, True, -du),
            'SIN': (f('sin', u), True, True, f('cos', u) * du),
            'COS': (f('cos', u), True, True, -f('sin', u) * du),
            'TAN': (f('tan', u), f('cos', u) != 0, True, q(f('cos', u) * f('cos', u)) * du),
            'ARCSIN': (f('asin', u), z3.And(u >= -1, u <= 1), z3.And(u > -1, u < 1), q(f('sqrt', one - u * u)) * du),
            'ARCCOS': (f('acos', u), z3.And(u >= -1, u <= 1), z3.And(u > -1, u < 1), -q(f('sqrt', one - u * u)) * du),
            'ARCTAN': (f('atan', u), True, True, q(one + u * u) * du),
            'SQRT': (f('sqrt', u), u >= 0, u > 0, q(2 * f('sqrt', u)) * du),
            'LOG': (f('log', u), u > 0, True, q(u) * du),
            'LOG2': (f('log2', u), u > 0, True, q(u * ln2) * du),
            'LOG10': (f('log10', u), u > 0, True, q(u * ln10) * du),
            'EXP': (f('exp', u), True, True, f('exp', u) * du),
            'ADD': (u + v, True, True, du + dv), 'SUB': (u - v, True, True, du - dv),
            'MULTIPLY': (u * v, True, True, du * v + u * dv),
            'DIVIDE': (u * q(v), v != 0, True, (du * v - u * dv) * q(v * v)),
            'POWER': (powl, z3.Or(u > 0, z3.And(isint, z3.Or(u != 0, v >= 0)), z3.And(u == 0, v >= 0)),
                      z3.If(rn, z3.Or(u > 0, z3.And(isint, z3.Or(u != 0, v >= 1))), u > 0),
                      z3.If(rn, v * f('pow', u, v - 1) * du, powl * (dv * f('log', u) + v * (q(u) * du)))),
            'AND': (None, False, False, None), 'OR': (None, False, False, None), 'MOD': (None, False, False, None)}
        assert set(dfun) == set(o.UN) | set(o.BI)
        bo = lambda c: z3.BoolVal(c) if isinstance(c, bool) else c
        kk = self.known(k, None); oo = self.known(op, None) if kk == o.OP else None
        out = []
        def add(c, fs): out.extend(fs if c is None else [z3.Implies(c, x) for x in fs])
        if kk in (None, o.NUM): add(None if kk == o.NUM else k == o.NUM, [V(t) == val, D(t) == 0, DEF(t), OKD(t)])
        if kk in (None, o.VAR): add(None if kk == o.VAR else k == o.VAR, [V(t) == self.ENV(nm), D(t) == z3.If(nm == DX, one, z3.RealVal(0)), DEF(t), OKD(t)])
        if kk not in (None, o.OP): return out
        for n, (val_, de, ok, d) in dfun.items():
            if oo is not None and o.v[n] != oo: continue
            kids = z3.And(DEF(l), OKD(l)) if n in o.UN else z3.And(DEF(l), DEF(r), OKD(l), OKD(r))
            dk = DEF(l) if n in o.UN else z3.And(DEF(l), DEF(r))
            fs = [DEF(t) == z3.And(dk, bo(de)), OKD(t) == z3.And(DEF(t), kids, bo(ok))]
            if val_ is not None: fs += [V(t) == val_, D(t) == d]
            if n in ('LOG2', 'LOG10'): fs += [ln2 > 0, ln10 > 0]
            if n == 'SQRT': fs += [z3.Implies(u > 0, f('sqrt', u) > 0)]
            # lemma quotient (an obligation of its own)
            if n == 'DIVIDE': fs += [ln2 > 0, ln10 > 0, z3.Implies(v != 0, z3.And(q(v) * v == 1, q(v * v) == q(v) * q(v)))]
            # facts about whole numbers (INT(x): x is one) and squares
            if n == 'POWER': fs += [z3.Implies(v == 2, z3.And(isint, powl == u * u)), self.INT(v - 1) == isint, self.INT(v + 1) == isint]
            add(None if oo is not None else z3.And(k == o.OP, op == o.v[n]), fs)
        return out
    def facts(self):
        out = []
        for t in self.ctx.st.facts.get('calculus', ()): out += self.definitions(t)
        return out
    def oblige(self, name, goal):
        """an obligation about values and derivatives"""
        facts = self.facts()
        self.ctx.oblige(name, z3.Implies(z3.And(*facts), goal) if facts else goal)
    def oblige_eq(self, name, ante, x, y):
        """ante -> x == y: the definitions are used as rewrite rules first; the solver decides what remains"""
        facts = self.facts()
        hyp = z3.And(ante, *facts)
        pairs = [(e.arg(0), e.arg(1)) for e in facts if z3.is_eq(e) and z3.is_app(e.arg(0)) and (e.arg(0).decl().eq(self.V) or e.arg(0).decl().eq(self.D))]
        for t, s in self.ctx.st.facts.get('rels', ()):
            if self.ctx.check(hyp, z3.Not(self.OKD(t))) == z3.unsat: pairs.append((self.V(s), self.D(t)))
        d = x - y
        for _ in range(12):
            e = z3.substitute(d, *pairs) if pairs else d
            if e.eq(d): break
            d = e
        d = z3.simplify(d, som=True)
        self.ctx.oblige(name, z3.Implies(hyp, d == 0))
    def rel(self, t, s):
        """s is an admissible derivative of t"""
        return z3.And(z3.Not(nilq(s)), WF(s), z3.Implies(OCC(s), OCC(t)), z3.Implies(self.HASMOD(s), self.HASMOD(t)),
                      z3.Implies(self.OKD(t), z3.And(self.DEF(s), self.V(s) == self.D(t))))

class DiffSpec(Worklist):
    """processing an item replaces the subtree it denotes by a derivative of it"""
    name = 'Diff.loop'
    region = 'own'
    need_parent = True
    def variants(self, items): return [('left', items[0]), ('right', items[0]), ('root', items[0])]
    def begin(self, I, fr, W): self.lib.freeze(fr, 'the rest of the tree', [W])
    def generic(self, I, ex, label):
        g = Worklist.generic(self, I, ex, label)
        if label == 'root': self.ctx.assume(proj('ty', self.t) != self.lib.ops.OP)
        return g
    def flag(self, label, v): return v if label == 'root' else label == 'left'
    def require(self, I, it, g=None):
        lib, ctx = self.lib, self.ctx
        n = lib.elem_node(it); t = lib.tree(n); u = n.owner
        if u is None: ctx.fail(self.name + ':items-stay-in-the-tree')
        p = n.parent if isinstance(n, Lazy) else n.f[lib.m['parent']].v
        ctx.oblige(self.name + ':items-parent-link', lib.same_obj(p, u.host) if p is not None and u.host is not None else p is u.host)
        if u.host is None: ctx.oblige(self.name + ':root-item-is-a-leaf', proj('ty', t) != lib.ops.OP)
        else:
            want = u.host.f[lib.m['l']] is u
            for k, v in lib.leaves(it):
                if k == 'data':
                    v = I.truth(v)
                    ctx.oblige(self.name + ':left-child-flag', (v == want) if isinstance(v, bool) else (v if want else z3.Not(v)))
        ctx.oblige(self.name + ':well-formed-items', z3.And(z3.Not(nilq(t)), WF(t)))
        if g is not None: ctx.oblige(self.name + ':terminates', self.C.M(t) < self.C.M(self.t))
    def apply(self, I, it):
        lib, ctx, C = self.lib, self.ctx, self.C
        n = lib.elem_node(it); u = n.owner; t = lib.tree(n)
        if ctx.choose(2) == 1:
            ctx.assume(C.HASMOD(t))
            if getattr(self, 'phase', '') == 'step':
                ctx.oblige(self.name + ':throws-only-for-mod-and-or', C.HASMOD(self.t)); raise Kill()
            raise CppThrow(Ext('runtime_error'), 'runtime_error')
        s = ctx.fresh(T, 'deriv')
        ctx.assume(C.rel(t, s)); ctx.assume(z3.Not(C.MODVAR(t))); ctx.st.facts.setdefault('rels', []).append((t, s))
        parent = n.parent if isinstance(n, Lazy) else n.f[lib.m['parent']].v
        if isinstance(n, Obj): n.poison = 'a node already differentiated'
        u.frozen = None
        u.set(lib.lazy(s, parent, False, 'own'))
    def run(self, *a):
        self.phase = ''
        Worklist.run(self, *a)
    def exits(self, I, kind, v):
        if kind != 'throw': raise Unsupported('early exit from the differentiation loop')
        self.ctx.oblige(self.name + ':throws-only-for-mod-and-or', self.C.HASMOD(self.t))
    def post(self, I, g):
        lib = self.lib
        s = lib.tree(self.slot)
        diff_ensures(self.ctx, self.C, self.name, self.t, s)
        lib.check_links(self.slot, self.parent, self.name, 'own')

def diff_ensures(ctx, C, name, t, s):
    ctx.oblige(name + ':keeps-an-expression', z3.Not(nilq(s)))
    ctx.oblige(name + ':well-formed', WF(s))
    ctx.oblige(name + ':no-new-variables', z3.Implies(OCC(s), OCC(t)))
    ctx.oblige(name + ':no-new-mod', z3.Implies(C.HASMOD(s), C.HASMOD(t)))
    ctx.oblige(name + ':mod-of-a-variable-throws', z3.Not(C.MODVAR(t)))
    C.oblige(name + ':defined-where-differentiable', z3.Implies(C.OKD(t), C.DEF(s)))
    C.oblige_eq(name + ':is-the-derivative', C.OKD(t), C.V(s), C.D(t))

class OrderLoop:
    """the loop that differentiates i times: after k rounds the tree is a k-fold derivative and the counter has moved k steps"""
    name = 'Diff.order'
    def __init__(self, E, C): self.E, self.C = E, C
    def counters(self, I, fr, nodes):
        found = {}
        def walk(o):
            if not isinstance(o, dict): return
            k = o.get('kind')
            if k in ('LambdaExpr',): return
            if k in ('UnaryOperator', 'CompoundAssignOperator', 'BinaryOperator') and (o.get('opcode') in ('++', '--', '+=', '-=', '=')):
                x = o['inner'][0]
                while x.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): x = x['inner'][0]
                if x.get('kind') == 'DeclRefExpr':
                    i = x['referencedDecl']['id']
                    d = {'++': 1, '--': -1}.get(o['opcode'])
                    if o['opcode'] in ('+=', '-='):
                        try: d = I.const(o['inner'][1], fr) * (1 if o['opcode'] == '+=' else -1)
                        except Exception: d = None
                    found.setdefault(i, []).append(d)
            for c in o.get('inner', ()): walk(c)
        for n in nodes: walk(n)
        out = {}
        for i, ds in found.items():
            c = fr.env.get(i)
            if not isinstance(c, Cell): continue
            if len(ds) != 1 or not isinstance(ds[0], int): raise Unsupported('counter of a loop')
            out[i] = (c, ds[0])
        return out
    def hook(self, I, s, fr, init, cond, inc, body):
        if not isinstance(cond, dict) or init == 'range': return False
        ctx, lib, C = I.ctx, self.E.lib, self.C
        cs = self.counters(I, fr, [cond, inc, body])
        ups = [u for u in lib.reach(fr, UP) if u.host is None and u.p is not None]
        if not cs or len(ups) != 1: return False
        if not any(isinstance(c.v, z3.ArithRef) for c, d in cs.values()) and not any(isinstance(v.v, z3.ArithRef) for v in fr.env.values() if isinstance(v, Cell)): return False
        u = ups[0]
        t0 = lib.tree(u); start = {i: c.v for i, (c, d) in cs.items()}
        do = s['kind'] == 'DoStmt'
        k = ctx.fresh(I_, 'round'); sk = ctx.fresh(T, 'derivk')
        stage = ctx.choose(2)
        inv = [k >= (1 if do and stage == 1 else 0), z3.Not(nilq(sk)), WF(sk), z3.Implies(OCC(sk), OCC(t0)), z3.Implies(C.HASMOD(sk), C.HASMOD(t0)),
               z3.Implies(k == 0, sk == t0), z3.Implies(k == 1, C.rel(t0, sk)), z3.Implies(k >= 1, z3.Not(C.MODVAR(t0)))]
        old = u.p
        def enter(kk):
            for i, (c, d) in cs.items(): c.v = start[i] + d * kk
            if isinstance(old, Obj): old.poison = 'the tree of an earlier round'
            u.set(None); u.set(lib.lazy(sk, None, False, 'own'))
        for c in inv: ctx.assume(c)
        lib.unfold(sk)
        enter(k)
        def test():
            return ctx.decide(I.truth(I.full(cond, fr)))
        try:
            if stage == 0:
                if not do and not test(): raise Kill()
                try: I.scoped(body, fr)
                except ContinueEx: pass
                if inc: I.full(inc, fr)
                if do and not test(): raise Kill()
                s2 = lib.tree(u)
                for i, (c, d) in cs.items():
                    if do or True: ctx.oblige(self.name + ':counter', I.get(c) == start[i] + d * (k + 1))
                diff_ensures(ctx, C, self.name, sk, s2)
                # the invariant for k + 1
                ctx.oblige(self.name + ':mod-of-a-variable-throws', z3.Not(C.MODVAR(t0)))
                lib.check_links(u, None, self.name)
                raise Kill()
            if do: raise Unsupported('do loop over the order')
            if ctx.decide(k >= 1):
                # the test succeeded on the counters of the previous round
                enter(k - 1)
                if not test(): raise Kill()
                enter(k)
            if test(): raise Kill()
            self.E.exit = (k, sk)
            return True
        except (BreakEx, ReturnEx): raise Unsupported('early exit from the loop over the order')
        except CppThrow:
            ctx.oblige(self.name + ':throws-only-for-mod-and-or', C.HASMOD(t0)); raise Kill()

def diff_env(tu, ctx):
    E = Env(tu, ctx, [DiffSpec]); I, lib = E.I, E.lib
    C = Calculus(E.ops, I.dom); E.C = C; C.ctx = ctx
    lib.specs[0].C = C
    lib.unfolders += [C.unfold, u_occ(E.ops)]
    I.contracts.update(tree_contracts(lib))
    def c_simplify(I, this, args, d):
        u = args[0]
        t = lib.tree(u)
        if not lib.up_bool(u): ctx.fail('precondition:Simplify-non-null')
        ctx.oblige('precondition:Simplify-well-formed', WF(t))
        lib.check_links(u, None, 'precondition:Simplify')
        s = ctx.fresh(T, 'simp')
        ctx.assume(z3.And(z3.Not(nilq(s)), WF(s), z3.Implies(OCC(s), OCC(t)), z3.Implies(C.DEF(t), z3.And(C.DEF(s), C.V(s) == C.V(t)))))
        p = lib.canonical(u.p)
        if isinstance(p, Obj): p.poison = 'a simplified tree'
        u.set(lib.lazy(s, None, False, 'own'))
        E.simplified = (t, s)
        return None
    I.contracts[NS + 'Simplify'] = c_simplify
    return E

DERIV = z3.Function('DERIV', I_, T, T, B)      # Diff(t, DX, i) of an rvalue t may return s
def c_diff(E):
    """contract of Diff(Node &&, name, i), established by its own task"""
    lib, C, ctx, I = E.lib, E.C, E.ctx, E.I
    def c(I, this, args, d):
        u, nm, i = args[0], args[1], I.get(args[2])
        if '&&' not in ty(params_of(d)[0]): return I.call_function(d, this, args)
        if not lib.up_bool(u): ctx.fail('precondition:Diff-non-null')
        t = lib.tree(u)
        ctx.oblige('precondition:Diff-order', i > 0 if not isinstance(i, int) else i > 0)
        ctx.oblige('precondition:Diff-well-formed', WF(t))
        ctx.oblige('precondition:Diff-variable', conv_str(lib.str_val(nm)) == DX)
        lib.check_links(u, None, 'precondition:Diff')
        p = lib.canonical(u.p); region = p.region
        if isinstance(p, Obj): p.poison = 'a tree already differentiated'
        u.set(None)
        if ctx.choose(2) == 1:
            ctx.assume(C.HASMOD(t)); raise CppThrow(Ext('runtime_error'), 'runtime_error')
        s = ctx.fresh(T, 'diff')
        ctx.assume(z3.And(DERIV(i, t, s), z3.Not(nilq(s)), WF(s), z3.Implies(OCC(s), OCC(t)), z3.Not(C.MODVAR(t)),
                          z3.Implies(z3.And(i == 1, C.OKD(t)), z3.And(C.DEF(s), C.V(s) == C.D(t)))))
        return lib.node_up(s, None, False, region)
    return c
def t_diff(rv):
    def t(tu, ctx):
        E = diff_env(tu, ctx); I, lib, C = E.I, E.lib, E.C
        ol = OrderLoop(E, C); I.loop_hooks.insert(0, ol.hook)
        f = E.fn('Diff', 3, lambda f: I.qname(f) == NS + 'Diff' and ('&&' in ty(params_of(f)[0])) == rv)
        t_, z, u = E.input('t', 'own' if rv else 'in')
        i = ctx.fresh(I_, 'order')
        ctx.assume_global(i > 0)
        E.exit = None; E.simplified = None
        if not rv: I.contracts[NS + 'Diff'] = c_diff(E)
        try:
            r = I.call_function(f, None, [u, Str(DX), i])
        except CppThrow:
            ctx.oblige('ensures:throws-only-for-mod-and-or', C.HASMOD(t_))
            if not rv: ctx.oblige('ensures:lvalue-unchanged', lib.tree(u) == t_); lib.check_links(u, None, 'ensures:lvalue')
            return
        s = lib.tree(r)
        if E.exit is not None:
            k, sk = E.exit
            ctx.oblige('ensures:differentiates-order-times', k == i)
        ctx.oblige('ensures:keeps-an-expression', z3.Not(nilq(s)))
        ctx.oblige('ensures:well-formed', WF(s))
        lib.check_links(r, None, 'ensures:links')
        ctx.oblige('ensures:no-new-variables', z3.Implies(OCC(s), OCC(t_)))
        ctx.oblige('ensures:mod-of-a-variable-throws', z3.Not(C.MODVAR(t_)))
        C.oblige('ensures:is-the-derivative', z3.Implies(z3.And(i == 1, C.OKD(t_)), z3.And(C.DEF(s), C.V(s) == C.D(t_))))
        if E.exit is not None: ctx.oblige('ensures:is-the-derivative-of-order-i', z3.Implies(C.DEF(sk), z3.And(C.DEF(s), C.V(s) == C.V(sk))))
        if rv: ctx.oblige('ensures:rvalue-consumed', lib.tree(u) == NIL)
        else:
            ctx.oblige('ensures:same-as-the-rvalue-overload', DERIV(i, t_, s))
            lib.check_links(r, None, 'ensures:result', 'fresh')
            ctx.oblige('ensures:lvalue-unchanged', lib.tree(u) == t_); lib.check_links(u, None, 'ensures:lvalue')
    return t

def t_lemma_quotient(tu, ctx):
    """lemma reciprocal: the reciprocal of a square is the square of the reciprocal"""
    b, w, w2 = z3.Reals('b w w2')
    ctx.assume(w * b == 1); ctx.assume(w2 * (b * b) == 1)
    ctx.oblige('lemma:reciprocal', w2 == w * w)
    ctx.oblige('lemma:quotient', z3.Implies(b != 0, (1 / b) * b == 1))
