"""The table of variables (C18) and the overloads of Subs that take numbers, tables and lists (C06)."""
import z3
from .core import *
from .extract import params_of
from .tree import T, NIL, nilq, mk, proj, isnode, WF
from .tspecs import *
from .tasks_tree import *
from .tasks_tree import subs_fn, subs_check, NS
from .tasks_mat import *
from .tasks_mat import task, A_
from .tasks_sym import smat, num
from .tasks_sym import same as same_sym
from .maps import *
from .mat import *

def setup(tu, ctx): return MEnv(tu, ctx)
def names(E, n, hint='name'):
    """a vector of n distinct names; IDX is the inverse"""
    f = z3.Function(hint, I_, N); X = z3.Function(hint + '_index', N, I_)
    a = Arr(E.lib, n, 'name', lambda q, r: f(Z(q)), (n, 1), 0, 'vector')
    a.facts = lambda q, r: [z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), X(f(Z(q))) == Z(q))]
    a.idx = X; a.nm = f
    E.lib.inverses[hint] = X; E.lib.inputs.append(a)
    a.has = lambda k: z3.And(X(k) >= 0, X(k) < Z(n), f(X(k)) == k)
    E.lib.onname.append(lambda k: a.facts(X(k), 0) + (a.facts(k.arg(0), 0) if z3.is_app(k) and k.num_args() == 1 and k.decl().eq(f) else []))
    return a
def dmap(E, n, hint='table', kind='real'):
    """an arbitrary map with n entries"""
    h = z3.Function(hint + '_has', N, B); v = z3.Function(hint + '_at', N, R_ if kind == 'real' else T)
    m = DMap(E.lib, kind, lambda k: h(k), lambda k: v(k), n, 0)
    if kind == 'tree': m.facts = lambda k: [z3.Implies(h(k), z3.And(WF(v(k)), z3.Not(nilq(v(k)))))]
    m.spec = (h, v)
    return m
def table(E, n, hint='t', lazy=False):
    """a VarsTable in a consistent state: n distinct names, the k-th name has the k-th value in both representations"""
    ns = names(E, n, hint + '_name'); val = z3.Function(hint + '_value', I_, R_)
    v = E.vec(n, hint + '_vec'); f = v.spec
    m = DMap(E.lib, 'real', ns.has, lambda k: f(ns.idx(k), Z(0)), n, 0)
    o = Obj('VarsTable', {'vars': ns, 'values': v, 'table': m}); o.ns, o.vals, o.n = ns, f, n
    return o
def consistent(E, o, n, ns, name='ensures'):
    """the invariant of a VarsTable object o with the names ns"""
    ctx = E.ctx; I = E.I
    vs, v, m = o.f['vars'], o.f['values'], o.f['table']
    if not isinstance(vs, Arr) or not isinstance(m, DMap): raise Unsupported('representation of a VarsTable')
    ctx.oblige(name + ':number-of-names', eq(vs.n, n))
    E.shape(v)
    ctx.oblige(name + ':number-of-values', And(eq(E.shape(v)[0], n), eq(E.shape(v)[1], 1), eq(v.f['data'].n, n)))
    ctx.oblige(name + ':number-of-entries', eq(m.n, n))
    q = ctx.fresh(I_, 'q'); ctx.assume(z3.And(q >= 0, q < Z(n)))
    E.lib.inst(q, 0, 1)
    x = E.lib.decided(conv(vs.at(q, 0))); E.lib.names_known(x); m.name_facts(x)
    if ns is not None: ctx.oblige(name + ':names-in-order', x == ns(q))
    ctx.oblige(name + ':every-name-can-be-looked-up', Bo(m.has(x)))
    ctx.oblige(name + ':the-kth-name-has-the-kth-value', E.at(v, q, 0) == m.val(x))
    y = ctx.fresh(N, 'any'); E.lib.names_known(y); m.name_facts(y)
    return q, x, y
def conv(x): return conv_str(x)

@task
def t_ctor_list(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); ns = names(E, n); v0 = ctx.fresh(R_, 'v')
    o = ctor(E, ['vector', 'double'], [ns, v0])
    q, x, y = consistent(E, o, n, ns.nm)
    ctx.oblige('ensures:no-other-names', Bo(o.f['table'].has(y)) == ns.has(y))
    ctx.oblige('ensures:initial-value', o.f['table'].val(x) == v0)
    ctx.oblige('ensures:argument-unchanged', z3.And(tob(eq(ns.n, n)), ns.at(q, 0) == ns.nm(q)))
def ctor(E, heads, args):
    r = E.I.rec_by_name['VarsTable']
    fs = [c for c in r['inner'] if c.get('kind') == 'CXXConstructorDecl' and [head(strip(ty(p))) for p in params_of(c)] == heads]
    if len(fs) != 1: raise Unsupported('constructor of VarsTable')
    return E.I.construct(r, 'VarsTable', fs[0]['type']['qualType'], args)
@task
def t_ctor_map(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); m = dmap(E, n)
    o = ctor(E, ['map'], [m]); h, v = m.spec
    q, x, y = consistent(E, o, n, None)
    ctx.oblige('ensures:no-other-names', z3.And(Bo(o.f['table'].has(y)) == h(y), h(x)))
    ctx.oblige('ensures:values', o.f['table'].val(x) == v(x))
    k = ctx.fresh(N, 'key'); m.name_facts(k); E.lib.names_known(k)
    ctx.assume(h(k)); i = m.order.X(k)
    E.lib.inst(i, 0, 1)
    ctx.oblige('ensures:every-key-is-listed', z3.And(i >= 0, i < n, o.f['vars'].at(i, 0) == k))
    p = ctx.fresh(I_, 'p'); ctx.assume(z3.And(p >= 0, p < n)); m.index_facts(p); m.index_facts(q); E.lib.inst(p, 0, 1)
    ctx.oblige('ensures:names-are-distinct', z3.Implies(o.f['vars'].at(p, 0) == x, p == q))
@task
def t_ctor_pairs(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n')
    f = z3.Function('pair_name', I_, N); g = z3.Function('pair_value', I_, R_); first = z3.Function('pair_first', N, I_)
    p = Pairs(E.lib, n, lambda i: f(Z(i)), lambda i: g(Z(i)), first)
    E.lib.onname.append(lambda k: [p.facts(first(k))])
    o = ctor(E, ['initializer_list'], [p])
    m = o.f['table']
    q, x, y = consistent(E, o, m.n, None)
    ctx.oblige('ensures:no-other-names', Bo(m.has(y)) == p.has(y))
    i = ctx.fresh(I_, 'i'); ctx.assume(z3.And(i >= 0, i < n)); ctx.assume(p.facts(i)); ctx.assume(z3.Implies(f(first(f(i))) == f(i), p.facts(first(f(i)))))
    ctx.oblige('ensures:every-listed-name', Bo(m.has(f(i))))
    ctx.oblige('ensures:first-value-listed', m.val(f(i)) == g(first(f(i))))
@task
def t_setvalues(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); o = table(E, n); w = E.vec(n, 'w')
    E.run(E.fn('VarsTable::SetValues'), o, [w])
    q, x, y = consistent(E, o, n, o.ns.nm)
    ctx.oblige('ensures:same-names', Bo(o.f['table'].has(y)) == o.ns.has(y))
    ctx.oblige('ensures:new-values', z3.And(o.f['table'].val(x) == w.spec(q, Z(0)), E.at(o.f['values'], q, 0) == w.spec(q, Z(0))))
    E.same(w)
def unchanged(E, o, name='ensures:table-unchanged'):
    q, x, y = consistent(E, o, o.n, o.ns.nm, name)
    E.ctx.oblige(name, z3.And(Bo(o.f['table'].has(y)) == o.ns.has(y), E.at(o.f['values'], q, 0) == o.vals(q, Z(0)), o.f['table'].val(x) == o.vals(q, Z(0))))
@task
def t_lookup(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); o = table(E, n); k = ctx.fresh(N, 'k'); s = Str(k)
    which = ctx.choose(2)
    if which == 0:
        r = E.I.truth(E.run(E.fn('VarsTable::Has'), o, [s]))
        ctx.oblige('ensures:Has', Bo(r) == o.ns.has(k)); unchanged(E, o); return
    try: r = E.I.get(E.run(E.fn('VarsTable::operator[]'), o, [s]))
    except CppThrow as e:
        ctx.oblige('ensures:throws-only-for-unknown-names', z3.Not(o.ns.has(k))); ctx.oblige('ensures:throws-out_of_range', E.error_is(e, 'out_of_range')); unchanged(E, o); return
    ctx.oblige('ensures:unknown-names-throw', o.ns.has(k))
    ctx.oblige('ensures:value-of-the-name', r == o.vals(o.ns.idx(k), Z(0))); unchanged(E, o)
@task
def t_views(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); o = table(E, n)
    ctx.oblige('ensures:VarNums', eq(E.I.get(E.run(E.fn('VarsTable::VarNums'), o, [])), n))
    r = E.run(E.fn('VarsTable::Vars'), o, []); ctx.oblige('ensures:Vars', r is o.f['vars'])
    r = E.run(E.fn('VarsTable::Values'), o, []); ctx.oblige('ensures:Values', r is o.f['values'])
    for a, b in (('begin', 'end'), ('cbegin', 'cend')):
        x, y = E.I.get(E.run(E.fn('VarsTable::' + a), o, [])), E.I.get(E.run(E.fn('VarsTable::' + b), o, []))
        ctx.oblige('ensures:iteration-over-the-whole-table', isinstance(x, DIt) and isinstance(y, DIt) and x.seq is o.f['table'] and y.seq is o.f['table'] and eq(x.i, 0) is True and eq(y.i, n) is True)
    unchanged(E, o)
@task
def t_eq(tu, ctx):
    """equal iff the same names and every value within epsilon"""
    E = setup(tu, ctx); n, n2 = E.dim('n'), E.dim('n2'); a = table(E, n, 'a')
    b = a if ctx.choose(2) == 0 else table(E, n2, 'b')
    ma, mb = a.f['table'], b.f['table']
    O1, X1, O2, X2 = ma.enum().O, ma.order.X, mb.enum().O, mb.order.X
    # std::map enumerates its keys in their order: maps with the same keys enumerate them alike
    SK = z3.Function('differing_key', I_, N)
    def facts(i):
        k = SK(i)
        E.lib.names_known(k); ma.name_facts(k); mb.name_facts(k)
        ctx.assume(z3.Implies(z3.Or(Z(ma.n) != Z(mb.n), z3.And(i >= 0, i < Z(ma.n), O1(i) != O2(i))), Bo(ma.has(k)) != Bo(mb.has(k))))
        ma.index_facts(i); mb.index_facts(i)
        for o in (O1, O2): E.lib.names_known(o(i)); ma.name_facts(o(i)); mb.name_facts(o(i))
    r = E.I.truth(E.run(E.fn('VarsTable::operator=='), a, [b]))
    close = lambda k: A_(ma.val(k) - mb.val(k)) <= E.eps
    if ctx.decide(Bo(r)):
        k = ctx.fresh(N, 'k'); E.lib.names_known(k); ma.name_facts(k); mb.name_facts(k)
        for i in (X1(k), X2(k)):
            facts(i); E.lib.inst(i, 0, 1)
        ctx.oblige('ensures:true-only-for-the-same-names', Bo(ma.has(k)) == Bo(mb.has(k)))
        ctx.oblige('ensures:true-only-for-close-values', z3.Implies(Bo(ma.has(k)), close(k)))
    else:
        alts = []
        for i in [z3.IntVal(0)] + [Z(q) for q, _ in E.lib.witnesses(1)]:
            facts(i)
            for k in (SK(i), O1(i)): alts.append(z3.Or(Bo(ma.has(k)) != Bo(mb.has(k)), z3.And(Bo(ma.has(k)), z3.Not(close(k)))))
        ctx.oblige('ensures:false-only-if-they-differ', z3.Or(alts))
    unchanged(E, a); unchanged(E, b)

# ---------------------------------------------------------------- Subs with numbers, tables and lists of expressions
def subs_menv(tu, ctx):
    E = MEnv(tu, ctx); lib = E.lib
    E.I.contracts.update(tree_contracts(lib))
    lib.specs.append(SubsSpec(lib)); lib.unfolders.append(u_subf(E.ops))
    return E
def subs_over(kind, rv):
    def t(tu, ctx):
        E = subs_menv(tu, ctx); lib = E.lib
        t_, z, u = E.input('t', 'own' if rv else 'in')
        n = E.dim('n')
        if kind == 'map':
            m = dmap(E, n); h, v = m.spec; src = [m]
            m.has = lambda k: INDICT(k)
            repl = lambda k: [REPL(k) == num(E.ops, v(k))]
            sel = lambda ts: len(ts) == 1 and head(ts[0]) == 'map' and 'double' in ts[0]
            known = lambda k: m.name_facts(k)
        elif kind == 'table':
            o = table(E, n); src = [o]
            repl = lambda k: [INDICT(k) == o.ns.has(k), z3.Implies(INDICT(k), REPL(k) == num(E.ops, o.vals(o.ns.idx(k), Z(0))))]
            known = lambda k: o.f['table'].name_facts(k)
            sel = lambda ts: len(ts) == 1 and head(ts[0]) == 'VarsTable'
        else:
            ns = names(E, n); w = smat(E, n, 1, 'w', 'SymVec'); src = [ns, w]
            repl = lambda k: [INDICT(k) == ns.has(k), z3.Implies(INDICT(k), REPL(k) == w.spec(ns.idx(k), Z(0)))]
            known = lambda k: None
            sel = lambda ts: len(ts) == 2 and head(ts[0]) == 'vector'
        def on(k):
            known(k)
            cs = repl(k); lib.unfold(REPL(k)); return cs
        lib.onname.append(on)
        r = E.run(subs_fn(E, sel, rv), None, [u] + src)
        subs_check(E, ctx, r, t_, None if rv else u)
        if rv: ctx.oblige('ensures:rvalue-consumed', lib.tree(u) == NIL)
        if kind == 'table': unchanged(E, o)
        if kind == 'lists': same_sym(E, w)
    return t
def subs_tasks():
    return {'Subs(%s, %s)' % ('Node &&' if rv else 'const Node &', {'map': 'map<string, double>', 'table': 'VarsTable', 'lists': 'names, SymVec'}[k]): subs_over(k, rv)
            for k in ('map', 'table', 'lists') for rv in (True, False)}

def c18():
    return {'VarsTable(names, value)': t_ctor_list, 'VarsTable(map)': t_ctor_map, 'VarsTable(pairs)': t_ctor_pairs, 'SetValues': t_setvalues, 'Has, operator[]': t_lookup,
            'VarNums, Vars, Values, begin, end': t_views, 'operator==': t_eq}
