"""Matrices of expressions and the Jacobian (C17)."""
import z3
from .core import *
from .extract import params_of
from .tree import T, NIL, nilq, mk, proj, isnode, WF
from .tspecs import *
from .tasks_tree import tree_contracts, node_contracts, c_clone, NS, subs_fn
from .tasks_mat import *
from .tasks_mat import task, A_
from .stl import conv_str

DIFFT = z3.Function('DIFFT', T, N, T)
DTHROW = z3.Function('DIFF_throws', T, N, B)

def setup(tu, ctx, occ=False):
    E = MEnv(tu, ctx)
    E.I.contracts.update(tree_contracts(E.lib)); E.I.contracts.update(node_contracts(E.lib))
    E.I.contracts.pop(NS + 'ToString', 0)
    E.I.contracts[NS + 'ToString'] = c_str(E.lib)
    return E
def smat(E, R, C, hint='A', cls='SymMat', region='in'):
    """a matrix of well-formed expressions"""
    f = z3.Function(hint, I_, I_, T)
    a = Arr(E.lib, R * C, 'tree', lambda q, r: f(Z(q), Z(r)), (R, C), 0)
    a.facts = lambda q, r: [WF(f(Z(q), Z(r))), z3.Not(nilq(f(Z(q), Z(r))))]
    a.region = region
    u = UP(None, 0); u.set(a)
    o = Obj(cls, {'rows': Cell(R), 'cols': Cell(C), 'data': u})
    o.spec = f; o.dims = (R, C); E.lib.inputs.append(a)
    return o
def elements(E, m):
    u = m.f['data']
    if isinstance(u, UP):
        if not isinstance(u.p, Arr): raise Unsupported('storage of a SymMat')
        return u.p
    return u
def expect(E, m, R, C, f, name='ensures'):
    ctx = E.ctx
    ctx.oblige(name + ':rows', eq(E.I.get(m.f['rows']), R)); ctx.oblige(name + ':cols', eq(E.I.get(m.f['cols']), C))
    a = elements(E, m); a.sync()
    ctx.oblige(name + ':size', eq(a.n, S(R * C)))
    q, s = E.point(R, C); E.lib.inst(q, s, C)
    ctx.oblige(name + ':elements', elat(E, a, R, C, q, s) == f(q, s))
def elat(E, a, R, C, q, s):
    for x in E.lib.inputs:
        for c in x.facts(q, s): E.ctx.assume(c)
    if eq(a.C, C) is True or E.ctx.entails(eq(a.C, C)): return a.at(q, s)
    return a.at(*E.lib.split(a, S(q * C + s)))
def same(E, m, name='ensures:operand-unchanged'):
    q, r = E.point(*m.dims)
    a = elements(E, m); a.sync()
    E.ctx.oblige(name, z3.And(tob(eq(a.n, S(m.dims[0] * m.dims[1]))), elat(E, a, m.dims[0], m.dims[1], q, r) == m.spec(Z(q), Z(r))))
def node(ops, op, a, b): return mk(ops.OP, ops.v[op], z3.RealVal(0), '', a, b)
def num(ops, v): return mk(ops.NUM, ops.NULL, v, '', NIL, NIL)

@task
def t_clone(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C)
    r = E.run(E.fn('SymMat::Clone'), a, [])
    expect(E, r, R, C, lambda q, s: a.spec(Z(q), Z(s))); same(E, a)
    ctx.oblige('ensures:deep', elements(E, r) is not elements(E, a))
@task
def t_access(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C)
    ctx.oblige('ensures:Rows', eq(E.I.get(E.run(E.fn('SymMat::Rows'), a, [])), R)); ctx.oblige('ensures:Cols', eq(E.I.get(E.run(E.fn('SymMat::Cols'), a, [])), C))
    e = E.I.truth(E.run(E.fn('SymMat::Empty'), a, []))
    ctx.oblige('ensures:Empty', Not(e) if isinstance(e, bool) else z3.Not(e))
    fs = [f for f in tu.funcs.get('Value', ()) if E.I.qname(f) == NS + 'SymMat::Value']
    i, j = E.point(R, C)
    c = E.run(fs[ctx.choose(len(fs))], a, [i, j])
    ctx.oblige('ensures:Value', z3.And(tob(c.arr is elements(E, a)), Z(c.q) == i, Z(c.r) == Z(j)))
    same(E, a)
@task
def t_vaccess(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); a = smat(E, R, 1, cls='SymVec')
    fs = [f for f in tu.funcs.get('operator[]', ()) if E.I.qname(f) == NS + 'SymVec::operator[]']
    i, _ = E.point(R, 1)
    c = E.run(fs[ctx.choose(len(fs))], a, [i])
    ctx.oblige('ensures:element', z3.And(tob(c.arr is elements(E, a)), Z(c.q) == i)); same(E, a)
@task
def t_ctor(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C')
    k = ctx.choose(3)
    if k == 0: m = E.I.construct(E.I.rec_by_name['SymMat'], 'SymMat', 'void (int, int)', [R, C]); expect(E, m, R, C, lambda q, s: NIL)
    elif k == 1: m = E.I.construct(E.I.rec_by_name['SymVec'], 'SymVec', 'void (int)', [R]); expect(E, m, R, 1, lambda q, s: NIL)
    else:
        a = E.mat(R, C, 'A')
        m = E.I.construct(E.I.rec_by_name['SymMat'], 'SymMat', 'void (const Mat &)', [a])
        expect(E, m, R, C, lambda q, s: num(E.ops, a.spec(Z(q), Z(s)))); E.same(a)
@task
def t_sub(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C, 'A')
    b = a if ctx.choose(2) else smat(E, R, C, 'B')
    r = E.run(E.fn('SymMat::operator-'), a, [b])
    expect(E, r, R, C, lambda q, s: node(E.ops, 'SUB', a.spec(Z(q), Z(s)), b.spec(Z(q), Z(s)))); same(E, a); same(E, b)
@task
def t_vsub(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); a = smat(E, R, 1, 'A', 'SymVec')
    b = a if ctx.choose(2) else smat(E, R, 1, 'B', 'SymVec')
    r = E.run(E.fn('SymVec::operator-'), a, [b])
    expect(E, r, R, 1, lambda q, s: node(E.ops, 'SUB', a.spec(Z(q), Z(s)), b.spec(Z(q), Z(s)))); same(E, a); same(E, b)
@task
def t_eq(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C, 'A')
    R2, C2 = E.dim('R2'), E.dim('C2')
    k = ctx.choose(3)
    b = a if k == 0 else smat(E, R, C, 'B') if k == 1 else smat(E, R2, C2, 'B')
    r = E.I.truth(E.run(E.fn('SymMat::operator=='), a, [b]))
    if k == 2:
        if ctx.decide(And(eq(R, R2), eq(C, C2))):
            pass
        else:
            ctx.oblige('ensures:different-shapes-differ', Not(r)); same(E, a); same(E, b); return
    E.all_iff(r, R, C, lambda q, s: a.spec(Z(q), Z(s)) == b.spec(Z(q), Z(s)), 'ensures'); same(E, a); same(E, b)
@task
def t_tovec(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); one = ctx.choose(2); C = 1 if one else E.dim('C'); a = smat(E, R, C)
    try: v = E.run(E.fn('SymMat::ToSymVec'), a, [])
    except CppThrow: ctx.oblige('ensures:throws-only-for-several-columns', Not(eq(C, 1))); same(E, a); return
    ctx.oblige('ensures:throws-for-several-columns', eq(C, 1))
    if one: expect(E, v, R, 1, lambda q, s: a.spec(Z(q), Z(s)))
    same(E, a)
@task
def t_onebyone(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C')
    a = smat(E, R, C)
    v = E.run(E.fn('SymMat::ToSymVecOneByOne'), a, [])
    ctx.oblige('ensures:rows', eq(E.I.get(v.f['rows']), S(R * C))); ctx.oblige('ensures:cols', eq(E.I.get(v.f['cols']), 1))
    q, s = E.point(R, C); E.lib.inst(q, s, C)
    d = elements(E, v)
    x = d.at(q, s) if eq(d.C, C) is True else d.at(*E.lib.split(d, S(q * C + s)))
    ctx.oblige('ensures:elements-in-order', z3.And(tob(eq(d.n, S(R * C))), x == a.spec(Z(q), Z(s)))); same(E, a)
@task
def t_tomat(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C); o = E.ops
    isnum = lambda q, s: proj('ty', a.spec(Z(q), Z(s))) == o.NUM
    try: m = E.run(E.fn('SymMat::ToMat'), a, [])
    except CppThrow:
        w = E.lib.witnesses(C)
        ctx.oblige('ensures:throws-only-if-not-numeric', z3.Or([z3.And(tob(E.lib.inside(FakeShape(R, C), q, r)), z3.Not(isnum(q, r))) for q, r in w]) if w else False)
        same(E, a); return
    q, s = E.point(R, C); E.lib.inst(q, s, C); ctx.oblige('ensures:throws-if-not-numeric', isnum(q, s))
    E.expect(m, R, C, lambda q, s: proj('val', a.spec(Z(q), Z(s)))); same(E, a)
SUBFV = SUBF
def c_subs(E):
    def c(I, this, args, d):
        """Subs(node, table of values): every listed variable replaced (C06); consumes an rvalue"""
        lib = E.lib; u = args[0]
        if not lib.up_bool(u): I.ctx.fail('precondition:Subs-non-null')
        t = lib.tree(u)
        rv = '&&' in ty(params_of(d)[0])
        if args[1] is not E.table: raise Unsupported('another table')
        if rv: u.set(None)
        r = SUBF(t)
        I.ctx.assume(z3.And(WF(r), z3.Not(nilq(r))))
        return lib.node_up(r, None, False, 'fresh')
    return c
def t_subs(which):
    @task
    def t(tu, ctx):
        E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C)
        E.I.contracts[NS + 'Subs'] = c_subs(E)
        E.table = Ext('table')
        r = E.run(E.fn('SymMat::Subs', 1, lambda f: which in ty(params_of(f)[0])), a, [E.table])
        ctx.oblige('ensures:returns-itself', r is a)
        expect(E, a, R, C, lambda q, s: SUBF(a.spec(Z(q), Z(s))))
    return t
@task
def t_calc(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C)
    V = Vals(E.ops); lib = E.lib
    bad = lambda t: z3.Or(V.HASVAR(t), V.BAD(t))
    def c(I, this, args, d):
        """NodeImpl::Calc (C01): becomes its value, or throws and stays as it is"""
        t = lib.tree(this)
        if I.ctx.decide(bad(t)): raise CppThrow(Ext('runtime_error'), 'runtime_error')
        this.f[lib.m['ty']].v = z3.IntVal(E.ops.NUM); this.f[lib.m['op']].v = z3.IntVal(E.ops.NULL); this.f[lib.m['val']].v = V.VAL(t); this.f[lib.m['nm']].v = ''
        for k in 'lr': this.f[lib.m[k]].set(None)
        return this
    E.I.contracts[NS + 'internal::NodeImpl::Calc'] = c
    try: r = E.run(E.fn('SymMat::Calc'), a, [])
    except CppThrow:
        w = lib.witnesses(C)
        ctx.oblige('ensures:throws-only-if-some-element-has-no-value', z3.Or([z3.And(tob(lib.inside(FakeShape(R, C), q, r)), bad(a.spec(Z(q), Z(r)))) for q, r in w]) if w else False); return
    ctx.oblige('ensures:returns-itself', r is a)
    q, s = E.point(R, C); lib.inst(q, s, C); ctx.oblige('ensures:every-element-has-a-value', z3.Not(bad(a.spec(Z(q), Z(s)))))
    expect(E, a, R, C, lambda q, s: num(E.ops, V.VAL(a.spec(Z(q), Z(s)))))
@task
def t_vars(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, C); lib = E.lib
    def c(I, this, args, d):
        s = SetV(I.ctx.time); s.items = [('vars', lib.tree(this))]; return s
    E.I.contracts[NS + 'internal::NodeImpl::GetAllVarNames'] = c
    r = E.run(E.fn('SymMat::GetAllVarNames'), a, [])
    if not isinstance(r, SetV): raise Unsupported('result of GetAllVarNames')
    E.all_iff(z3.Not(member(r)), R, C, lambda q, s: z3.Not(OCC(a.spec(Z(q), Z(s)))), 'ensures:exactly-the-names-that-occur')
    same(E, a)
def c_diff(E):
    def c(I, this, args, d):
        lib = E.lib; u = args[0]
        if not lib.up_bool(u): I.ctx.fail('precondition:Diff-non-null')
        t = lib.tree(u); n = conv_str(lib.str_val(args[1]))
        if len(args) > 2 and not (is_lit(I.get(args[2])) and lit(I.get(args[2])) == 1): raise Unsupported('order of a derivative')
        if I.ctx.decide(DTHROW(t, n)): raise CppThrow(Ext('runtime_error'), 'runtime_error')
        if '&&' in ty(params_of(d)[0]): u.set(None)
        r = DIFFT(t, n); I.ctx.assume(z3.And(WF(r), z3.Not(nilq(r))))
        return lib.node_up(r, None, False, 'fresh')
    return c
@task
def t_jacobian(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = smat(E, R, 1)
    E.I.contracts[NS + 'Diff'] = c_diff(E)
    nm = z3.Function('names', I_, N)
    vs = Arr(E.lib, C, 'name', lambda q, r: nm(Z(q)), (C, 1), 0, 'vector')
    f = E.fn('Jacobian')
    try: r = E.run(f, None, [a, vs])
    except CppThrow:
        w = [(q, s) for q, s in E.lib.witnesses(C)]
        ctx.oblige('ensures:throws-only-if-not-differentiable', z3.Or([z3.And(0 <= Z(q), Z(q) < R, 0 <= Z(s), Z(s) < C, DTHROW(a.spec(Z(q), Z(0)), nm(Z(s)))) for q, s in w]) if w else False); same(E, a); return
    expect(E, r, R, C, lambda q, s: DIFFT(a.spec(Z(q), Z(0)), nm(Z(s)))); same(E, a)

# ---- product: element (i,j) is a left-to-right or any other sum whose value is the sum of the products
def symval(E, t, ok):
    """value of a tree with the structure visible in the term, in real arithmetic"""
    o = E.ops; VAL = E.V.VAL
    if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), symval(E, t.arg(1), ok), symval(E, t.arg(2), ok))
    if is_app_of(t, T.node) and is_lit(t.arg(0)) and is_lit(t.arg(1)):
        k, op = lit(t.arg(0)), lit(t.arg(1))
        if k == o.NUM: return t.arg(2)
        if k == o.OP and op == o.v['ADD']: return symval(E, t.arg(4), ok) + symval(E, t.arg(5), ok)
        if k == o.OP and op == o.v['SUB']: return symval(E, t.arg(4), ok) - symval(E, t.arg(5), ok)
        if k == o.OP and op == o.v['MULTIPLY']: return symval(E, t.arg(4), ok) * symval(E, t.arg(5), ok)
    return VAL(t)
def isnode_(t):
    if z3.is_app_of(t, z3.Z3_OP_ITE): return isnode_(t.arg(1)) and isnode_(t.arg(2))
    return is_app_of(t, T.node)
def sum_lemma(E):
    """a tree built by t(0) = v, t(k+1) = step(k, t(k)) where step adds a summand that does not depend on t(k): its value is the value of v plus the sum of
    the values of the summands (induction on k; base and step are the definition of the value).  Shifted by one as well: sum over n+1 = first + rest (Lean: sum_shift)"""
    def u(t):
        F, ps, v, step, two = E.ctx.recs[t.decl().name()]
        if two: return []
        h = z3.FreshConst(T); k = z3.FreshInt('k')
        st = step(k, h)
        args = [t.arg(i) for i in range(len(ps))]; n = t.arg(len(ps))
        at = lambda e: z3.substitute(e, *zip(ps, args))
        out = []
        if isnode_(v) and isnode_(st): out.append(z3.Implies(n >= 0, z3.Not(nilq(t))))
        x = z3.simplify(symval(E, st, None) - E.V.VAL(h), som=True)
        if not mentions(x, h):
            x = at(x); f = lambda i: z3.substitute(x, (k, Z(i)))
            out.append(z3.Implies(n >= 0, z3.And(E.V.VAL(t) == at(symval(E, v, None)) + mksum(n, f), mksum(n + 1, lambda i: f(i - 1)) == f(-1) + mksum(n, f))))
        return out
    return u
@task
def t_product(tu, ctx):
    E = setup(tu, ctx); lib = E.lib; R, M, C = E.dim('R'), E.dim('M'), E.dim('C'); a = smat(E, R, M, 'A'); 
    b = a if False else smat(E, M, C, 'B')
    V = EnvVals(E.ops, laws=False); lib.unfolders.append(V.unfold); E.V = V
    o = E.ops
    # real arithmetic, and no operation fails
    def plus(t):
        k, op, l, r = proj('ty', t), proj('op', t), proj('l', t), proj('r', t)
        c2, i2 = V.calc2, V.inv2
        x, y = V.VAL(l), V.VAL(r)
        return [c2(o.ADD, x, y) == x + y, c2(o.MULTIPLY, x, y) == x * y, z3.Not(i2(o.ADD, x, y)), z3.Not(i2(o.MULTIPLY, x, y))]
    lib.unfolders.append(plus); lib.rec_lemmas.append(sum_lemma(E))
    E.allok = z3.Function('ROWCOL_OK', I_, I_, B)
    r = E.run(E.fn('SymMat::operator*', None, lambda f: True), a, [b])
    ctx.oblige('ensures:rows', eq(E.I.get(r.f['rows']), R)); ctx.oblige('ensures:cols', eq(E.I.get(r.f['cols']), C))
    q, s = E.point(R, C); lib.inst(q, s, C)
    d = elements(E, r); d.sync(); t = elat(E, d, R, C, q, s)
    val = lambda k: V.VAL(a.spec(Z(q), k)) * V.VAL(b.spec(k, Z(s)))
    lib.about(t)
    ctx.oblige('ensures:elements', V.VAL(t) == mksum(M, val))
    same(E, a); same(E, b)
@task
def t_badproduct(tu, ctx):
    E = setup(tu, ctx); R, M, M2, C = E.dim('R'), E.dim('M'), E.dim('M2'), E.dim('C'); a, b = smat(E, R, M, 'A'), smat(E, M2, C, 'B')
    ctx.assume(z3.Not(eq(M, M2)) if not isinstance(eq(M, M2), bool) else True)
    try: E.run(E.fn('SymMat::operator*'), a, [b])
    except CppThrow as e:
        ctx.oblige('ensures:size-error', E.error_is(e, 'MathError', 'SIZE_NOT_MATCH')); same(E, a); same(E, b); return
    ctx.oblige('ensures:throws-if-shapes-do-not-fit', False)

def c17():
    return {'SymMat::Clone': t_clone, 'SymMat access': t_access, 'SymVec::operator[]': t_vaccess, 'SymMat, SymVec constructors': t_ctor, 'SymMat-SymMat': t_sub, 'SymVec-SymVec': t_vsub, 'SymMat==SymMat': t_eq,
            'ToSymVec': t_tovec, 'ToSymVecOneByOne': t_onebyone, 'ToMat': t_tomat, 'SymMat::Subs(map)': t_subs('map'), 'SymMat::Subs(VarsTable)': t_subs('VarsTable'), 'SymMat::Calc': t_calc,
            'SymMat::GetAllVarNames': t_vars, 'Jacobian': t_jacobian, 'SymMat*SymMat': t_product, 'SymMat*SymMat of other shapes': t_badproduct}
