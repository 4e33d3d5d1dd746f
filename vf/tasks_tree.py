"""Verification tasks over expression trees: one per function under contract."""
import z3
from .core import *
from .dom import RealDom
from .interp import Interp, Frame, ty, strip, head, is_ref
from .extract import params_of, body_of
from .tree import *
from .tspecs import *

class Task:
    """A named proof: verifies the body of one function of /repo against its contract."""
    def __init__(self, name, fn, props, funcs=()):
        self.name, self.fn, self.props, self.funcs = name, fn, props, funcs

class Env:
    """One symbolic machine with the tree theory loaded."""
    def __init__(self, tu, ctx, specs=(), unfolders=(), contracts=(), dom=None):
        self.tu, self.ctx = tu, ctx
        self.lib = TreeLib(tu)
        self.I = Interp(tu, ctx, dom or RealDom(), self.lib)
        self.lib.unfolders += [u_size] + list(unfolders)
        self.I.loop_hooks.append(self.lib.worklist_hook)
        self.ops = self.lib.ops
        self.lib.specs = [s(self.lib) for s in specs]
        for n, c in dict(contracts).items(): self.I.contracts[n] = c
        ctx.machine = self.I
    def fn(self, qn, n=None, pick=None):
        """definition of the function with qualified name qn (and n parameters)"""
        name = qn.split('::')[-1]
        c = [f for f in self.tu.funcs.get(name, ()) if self.I.qname(f) == qn or self.I.qname(f).endswith('::' + qn)]
        if n is not None: c = [f for f in c if len(params_of(f)) == n]
        if pick: c = [f for f in c if pick(f)]
        if len(c) != 1: raise Unsupported('function %s: %d definitions' % (qn, len(c)))
        return c[0]
    def input(self, hint='t', region='in', wf=True, parent=None):
        """a well-formed input tree: (term, Lazy, owning unique_ptr)"""
        t = self.lib.fresh_tree(hint, wf)
        u = self.lib.node_up(t, parent, False, region)
        return t, u.p, u
    def node(self, z): return self.lib.resolve(z)

# ---------------------------------------------------------------- contracts used by callers
NS = 'tomsolver::'
def c_clone(lib):
    """Clone: fresh, equal tree; the source is unchanged; requires a non-null source"""
    def c(I, this, args, d):
        u = args[0]
        if isinstance(u, Cell): u = u.v
        if not lib.up_bool(u): I.ctx.fail('precondition:Clone-non-null')
        return lib.node_up(lib.tree(u), None, False, 'fresh')
    return c
def c_equal(lib):
    def c(I, this, args, d):
        a = lib.tree(this)
        u = args[0]
        if not lib.up_bool(u): I.ctx.fail('precondition:Equal-non-null')
        return a == lib.tree(u)
    return c
def c_checkparent(lib):
    """CheckParent: requires a well-formed tree with right links; no effect"""
    def c(I, this, args, d):
        t = lib.tree(this)
        I.ctx.oblige('wellformed-at-CheckParent', WF(t))
        for k in 'lr':
            lib.check_links(this.f[lib.m[k]], this, 'wellformed-at-CheckParent')
        return None
    return c
def c_str(lib):
    def c(I, this, args, d): return Str(I.ctx.fresh(N, 'str'))
    return c
def tree_contracts(lib):
    return {
        NS + 'Clone': c_clone(lib),
        NS + 'internal::CloneNonRecursively': c_clone(lib), NS + 'internal::CloneRecursively': c_clone(lib),
        NS + 'internal::NodeImpl::Equal': c_equal(lib),
        NS + 'internal::NodeImpl::CheckParent': c_checkparent(lib),
        NS + 'internal::NodeImpl::ToString': c_str(lib),
        NS + 'ToString': c_str(lib),
    }
def c_nodeop(lib, op, asg):
    """operators and named functions on expressions (C03): lvalues are copied, rvalues consumed; the operands are non-null"""
    def c(I, this, args, d):
        if this is not None or not 1 <= len(args) <= 2 or not all(isinstance(x, UP) for x in args): return NotImplemented
        o = lib.ops; code = o.v['NEGATIVE' if op == 'SUB' and len(args) == 1 else 'POSITIVE' if op == 'ADD' and len(args) == 1 else op]
        ts = []
        for x in args:
            if not lib.up_bool(x): I.ctx.fail('precondition:operand-non-null')
            ts.append(lib.tree(x))
        for i, (p, x) in enumerate(zip(params_of(d), args)):
            if '&&' in ty(p) or asg and i == 0: x.set(None)
        I.ctx.assume(z3.And([WF(t) for t in ts]))
        t = mk(o.OP, code, z3.RealVal(0), '', ts[0], ts[1] if len(ts) > 1 else NIL)
        lib.unfold(t)
        if asg: args[0].set(lib.lazy(t, None, False, 'fresh')); return args[0]
        return lib.node_up(t, None, False, 'fresh')
    return c
def node_contracts(lib):
    out = {}
    for k, op in OPNAME.items():
        out[NS + 'operator' + k] = c_nodeop(lib, op, False); out[NS + 'operator' + k + '='] = c_nodeop(lib, op, True)
    for k, op in FNNAME.items(): out[NS + k] = c_nodeop(lib, op, False)
    return out
def drop(d, *names):
    return {k: v for k, v in d.items() if k.split('::')[-1] not in names}

# ---------------------------------------------------------------- tasks
def t_equal(tu, ctx):
    E = Env(tu, ctx, [EqualSpec])
    I, lib = E.I, E.lib
    f = E.fn('NodeImpl::Equal')
    if ctx.choose(2):
        ta, za, ua = E.input('a', parent=Poison()); ub, zb, tb = ua, za, ta
    else:
        ta, za, ua = E.input('a', parent=Poison()); tb, zb, ub = E.input('b', parent=Poison())
    r = I.call_function(f, E.node(za), [ub])
    r = I.truth(r)
    r = r if isinstance(r, z3.BoolRef) else z3.BoolVal(bool(r))
    ctx.oblige('ensures:equal-iff-same-structure', r == (ta == tb))
    ctx.oblige('ensures:unchanged', z3.And(lib.tree(ua) == ta, lib.tree(ub) == tb))

def t_clone(fname):
    def t(tu, ctx):
        E = Env(tu, ctx, [CloneSpec])
        E.I.contracts.update(drop(tree_contracts(E.lib), fname, 'Clone') if fname != 'CloneRecursively' else drop(tree_contracts(E.lib), fname))
        I, lib = E.I, E.lib
        if fname == 'Clone': I.contracts.pop(NS + 'internal::CloneNonRecursively', 0)
        f = E.fn(fname, pick=lambda f: I.qname(f) in (NS + fname, NS + 'internal::' + fname))
        up = Poison(); t, z, u = E.input(parent=up)
        r = I.call_function(f, None, [u])
        ctx.oblige('ensures:equal-structure', lib.tree(r) == t)
        ctx.oblige('ensures:source-unchanged', lib.tree(u) == t)
        lib.check_links(r, None, 'ensures:deep', 'fresh')
        lib.check_links(u, up, 'ensures:source')
    return t

def t_checkparent(tu, ctx):
    E = Env(tu, ctx, [CheckParentSpec])
    I, lib = E.I, E.lib
    t, z, u = E.input()
    I.call_function(E.fn('NodeImpl::CheckParent'), E.node(z), [])
    ctx.oblige('ensures:unchanged', lib.tree(u) == t)

def t_vars(tu, ctx):
    E = Env(tu, ctx, [VarsSpec])
    I, lib = E.I, E.lib
    lib.unfolders.append(u_occ(E.ops))
    t, z, u = E.input(parent=Poison())
    r = I.call_function(E.fn('NodeImpl::GetAllVarNames'), E.node(z), [])
    if not isinstance(r, SetV): raise Unsupported('result of GetAllVarNames')
    ctx.oblige('ensures:exactly-the-names-that-occur', member(r) == OCC(t))
    ctx.oblige('ensures:unchanged', lib.tree(u) == t)

def eval_env(tu, ctx):
    E = Env(tu, ctx, [OrderSpec])
    V = Vals(E.ops); E.V = V
    E.lib.unfolders.append(V.unfold)
    f = EvalFold(E.lib); f.V = V
    E.lib.folds = [f]
    E.I.contracts[NS + 'Calc'] = V.calc_contract(E.lib)
    E.I.contracts[NS + 'ToString'] = c_str(E.lib)
    return E
def c_vpa(E):
    V = E.V; lib = E.lib
    def c(I, this, args, d):
        t = lib.tree(this)
        if I.ctx.decide(z3.Or(V.HASVAR(t), V.BAD(t))): raise CppThrow(Ext('runtime_error'), 'runtime_error')
        return V.VAL(t)
    return c
def t_vpa(tu, ctx):
    E = eval_env(tu, ctx); I, lib, V = E.I, E.lib, E.V
    up = Poison(); t, z, u = E.input(parent=up)
    try:
        r = I.call_function(E.fn('NodeImpl::Vpa'), E.node(z), [])
    except CppThrow as e:
        ctx.oblige('ensures:throws-only-for-variables-or-invalid', z3.Or(V.HASVAR(t), V.BAD(t)))
        ctx.oblige('ensures:unchanged-when-throwing', lib.tree(u) == t)
        return
    ctx.oblige('ensures:no-variables', z3.Not(V.HASVAR(t)))
    ctx.oblige('ensures:no-invalid-operation', z3.Not(V.BAD(t)))
    ctx.oblige('ensures:value-is-the-composition', I.dom.co(I.get(r)) == V.VAL(t))
    ctx.oblige('ensures:unchanged', lib.tree(u) == t)
    lib.check_links(u, up, 'ensures:unchanged')
def t_calcnode(tu, ctx):
    E = eval_env(tu, ctx); I, lib, V = E.I, E.lib, E.V
    I.contracts[NS + 'internal::NodeImpl::Vpa'] = c_vpa(E)
    up = None; t, z, u = E.input(region='own', parent=up)   # applied to whole expressions only
    try:
        r = I.call_function(E.fn('NodeImpl::Calc', 0), E.node(z), [])
    except CppThrow:
        ctx.oblige('ensures:throws-only-for-variables-or-invalid', z3.Or(V.HASVAR(t), V.BAD(t)))
        ctx.oblige('ensures:unchanged-when-throwing', lib.tree(u) == t)
        return
    ctx.oblige('ensures:becomes-its-value', lib.tree(u) == mk(E.ops.NUM, E.ops.NULL, V.VAL(t), '', NIL, NIL))
    ctx.oblige('ensures:no-variables', z3.Not(z3.Or(V.HASVAR(t), V.BAD(t))))
    ctx.oblige('ensures:returns-itself', lib.same_obj(r, E.node(z)))
    lib.check_links(u, up, 'ensures:links')
    ctx.oblige('ensures:well-formed', WF(lib.tree(u)))

def t_release(tu, ctx):
    E = Env(tu, ctx, [ReleaseSpec])
    I, lib = E.I, E.lib
    lib.shallow = True
    t, z, u = E.input(region='own')
    o = E.node(z)
    kids = [o.f[lib.m[k]].p for k in 'lr']
    d = [f for f in tu.byid.values() if f['kind'] == 'CXXDestructorDecl' and f.get('name') == '~NodeImpl']
    f = next((tu.defs[x['id']] for x in d if x['id'] in tu.defs and body_of(tu.defs[x['id']])), None)
    if f is None: raise Unsupported('destructor of NodeImpl')
    I.call_function(f, o, [])
    # implicit destruction of the members follows: nothing may be left to them
    for k in 'lr':
        c = lib.canonical(o.f[lib.m[k]].p)
        ctx.oblige('call-depth:members-own-nothing', c is None or (nilq(c.tt) if isinstance(c, Lazy) and c.maybe_nil else False))
    for k in kids:
        k = lib.canonical(k)
        ctx.oblige('ensures:subtrees-freed-iteratively', k.freed if k.freed else nilq(k.tt) if isinstance(k, Lazy) else False)

def ctor(E, cls, pick):
    c = [f for f in E.tu.byid.values() if f['kind'] == 'CXXConstructorDecl' and f.get('name') == cls and not f.get('isImplicit') and pick((f.get('type') or {}).get('qualType', ''))]
    if not c: raise Unsupported('constructor of ' + cls)
    return c[0]['type']['qualType']
def t_copy(how):
    def t(tu, ctx):
        E = Env(tu, ctx); I, lib = E.I, E.lib
        I.contracts.update(tree_contracts(lib))
        t, z, u = E.input(region='in' if 'copy' in how else 'own')
        src = E.node(z)
        rec = I.rec_by_name['NodeImpl']
        ptr = src.f[lib.m['parent']].v
        if how == 'copy-ctor': r = I.construct(rec, 'NodeImpl', ctor(E, 'NodeImpl', lambda q: 'const NodeImpl &' in q), [src])
        elif how == 'move-ctor': r = I.construct(rec, 'NodeImpl', ctor(E, 'NodeImpl', lambda q: 'NodeImpl &&' in q), [src])
        else:
            td, zd, ud = E.input('d', 'own')
            r = E.node(zd)
            old = [r.f[lib.m[k]].p for k in 'lr']
            f = E.fn('NodeImpl::operator=', 1, lambda f: ('&&' in ty(params_of(f)[0])) == ('move' in how))
            x = I.call_function(f, r, [src])
            ctx.oblige('ensures:returns-the-target', lib.same_obj(x, r))
            for k in old:
                k = lib.canonical(k)
                ctx.oblige('ensures:old-children-freed', k.freed if k.freed else nilq(k.tt) if isinstance(k, Lazy) else False)
        if 'move' in how:
            ctx.oblige('ensures:takes-the-whole-tree', lib.tree(r) == t)
            for k in 'lr': ctx.oblige('ensures:source-left-without-operands', lib.tree(src.f[lib.m[k]]) == NIL)
            for k in 'lr': lib.check_links(r.f[lib.m[k]], r, 'ensures:links')
        else:
            ctx.oblige('ensures:equal-structure', lib.tree(r) == t)
            ctx.oblige('ensures:source-unchanged', lib.tree(u) == t)
            for k in 'lr': lib.check_links(r.f[lib.m[k]], r, 'ensures:deep', 'fresh')
            lib.check_links(u, None, 'ensures:source')
    return t

# ---------------------------------------------------------------- construction (C03, C05)
OPNAME = {'+': 'ADD', '-': 'SUB', '*': 'MULTIPLY', '/': 'DIVIDE', '^': 'POWER'}
FNNAME = {'sin': 'SIN', 'cos': 'COS', 'tan': 'TAN', 'asin': 'ARCSIN', 'acos': 'ARCCOS', 'atan': 'ARCTAN', 'sqrt': 'SQRT', 'log': 'LOG', 'log2': 'LOG2', 'log10': 'LOG10', 'exp': 'EXP'}
def inst_table():
    """what every instantiation wrapper of the translation unit computes: name -> (kind, operator, categories)"""
    out = {}; n = 0
    cats = ('&', 'c&', '&&')
    for o in '+-*/^':
        for a in cats:
            for b in cats:
                out['vf_bin%d' % n] = ('bin', OPNAME[o], a, b); n += 1
        for b in cats:
            out['vf_asg%d' % n] = ('asg', OPNAME[o], '&&', b); n += 1
        for k in ('self', 'same', 'lr', 'rl'):
            out['vf_%s%d' % (k, n)] = (k, OPNAME[o]); n += 1
    for o in '+-':
        for a in cats: out['vf_un%d' % n] = ('un', 'POSITIVE' if o == '+' else 'NEGATIVE', a); n += 1
    for f in 'sin cos tan asin acos atan sqrt log log2 log10 exp'.split():
        for a in cats: out['vf_fn_%s_%d' % (f, n)] = ('un', FNNAME[f], a); n += 1
    return out
def t_construct(wrapper, spec):
    def t(tu, ctx):
        E = Env(tu, ctx); I, lib = E.I, E.lib
        I.contracts.update(tree_contracts(lib))
        f = E.fn(wrapper)
        op = E.ops.v[spec[1]]
        def node(a, b): return mk(E.ops.OP, op, z3.RealVal(0), '', a, b)
        def chk_src(u, t, cat, nm):
            if cat == '&&': ctx.oblige('ensures:%s-rvalue-consumed' % nm, lib.tree(u) == NIL)
            else:
                ctx.oblige('ensures:%s-lvalue-unchanged' % nm, lib.tree(u) == t)
                lib.check_links(u, None, 'ensures:%s-lvalue' % nm)
        k = spec[0]
        ta, za, ua = E.input('a', 'A')
        if k == 'un':
            r = I.call_function(f, None, [ua])
            ctx.oblige('ensures:node', lib.tree(r) == node(ta, NIL))
            chk_src(ua, ta, spec[2], 'operand')
            want = [spec[2]]
        elif k in ('bin', 'asg'):
            tb, zb, ub = E.input('b', 'B')
            r = I.call_function(f, None, [ua, ub])
            ctx.oblige('ensures:node', lib.tree(r) == node(ta, tb))
            if k == 'asg': ctx.oblige('ensures:returns-the-target', r is ua)
            else: chk_src(ua, ta, spec[2], 'left')
            chk_src(ub, tb, spec[3], 'right')
            want = [spec[2], spec[3]]
        else:
            r = I.call_function(f, None, [ua])
            ctx.oblige('ensures:node', lib.tree(r) == node(ta, ta))
            if k == 'self': ctx.oblige('ensures:returns-the-target', r is ua)
            elif k == 'same': chk_src(ua, ta, '&', 'operand')
            want = None
        lib.check_links(r, None, 'ensures:links')
        ctx.oblige('ensures:well-formed', WF(lib.tree(r)))
        # sharing: an lvalue operand shares no node with the result
        o = lib.canonical(r.p)
        regs = [region_of(lib, o.f[lib.m[c]]) for c in 'lr']
        if want:
            for c, (w, src) in enumerate(zip(want, 'AB')):
                ctx.oblige('ensures:%s' % ('copies-lvalue' if w != '&&' else 'moves-rvalue'), regs[c] == {'fresh'} if w != '&&' else regs[c] == {src})
        else:
            if k == 'same': ctx.oblige('ensures:copies-lvalue', regs == [{'fresh'}, {'fresh'}])
            ctx.oblige('ensures:no-sharing', len(ids_of(lib, o.f[lib.m['l']]) & ids_of(lib, o.f[lib.m['r']])) == 0 and not (regs[0] == {'A'} and regs[1] == {'A'}))
    return t
def region_of(lib, u):
    p = u.p
    if p is None: return set()
    p = lib.canonical(p)
    if isinstance(p, Lazy): return {p.region}
    r = {p.region or 'fresh'}
    return r.union(*[region_of(lib, p.f[lib.m[c]]) for c in 'lr'])
def ids_of(lib, u):
    p = u.p
    if p is None: return set()
    p = lib.canonical(p)
    if isinstance(p, Lazy): return {id(p)}
    return {id(p)}.union(*[ids_of(lib, p.f[lib.m[c]]) for c in 'lr'])

def t_leafctor(which):
    def t(tu, ctx):
        E = Env(tu, ctx); I, lib, ops = E.I, E.lib, E.ops
        pick = lambda f: I.qname(f) == NS + which or I.qname(f) == NS + 'internal::' + which
        if which == 'Num':
            v = ctx.fresh(R, 'v')
            r = I.call_function(E.fn('Num', 1, pick), None, [v])
            ctx.oblige('ensures:number-node', lib.tree(r) == mk(ops.NUM, ops.NULL, v, '', NIL, NIL))
            ctx.oblige('ensures:well-formed', WF(lib.tree(r)))
        elif which == 'Var':
            legal = ctx.fresh(B, 'legal')
            I.contracts[NS + 'VarNameIsLegal'] = lambda I, this, a, d: legal
            n = ctx.fresh(N, 'name')
            s = Str(n)
            try: r = I.call_function(E.fn('Var', 1, pick), None, [s])
            except CppThrow:
                ctx.oblige('ensures:throws-only-for-illegal-names', z3.Not(legal)); return
            ctx.oblige('ensures:variable-node', lib.tree(r) == mk(ops.VAR, ops.NULL, z3.RealVal(0), n, NIL, NIL))
            ctx.oblige('ensures:legal-name', legal)
        elif which == 'Op':
            o = ctx.fresh(I_, 'op')
            try: r = I.call_function(E.fn('Op', 1, pick), None, [o])
            except CppThrow:
                ctx.oblige('ensures:throws-only-for-null', o == ops.NULL); return
            ctx.oblige('ensures:operator-node', lib.tree(r) == mk(ops.OP, o, z3.RealVal(0), '', NIL, NIL))
        elif which == 'Operator':
            o = ctx.fresh(I_, 'op')
            ctx.assume(z3.Or(ops.un(o), ops.bi(o)))
            ta, za, ua = E.input('a', 'A')
            if ctx.choose(2): tb, ub = NIL, UP(None)
            else: tb, zb, ub = E.input('b', 'B')
            r = I.call_function(E.fn('Operator', 3, pick), None, [o, ua, ub])
            ctx.oblige('ensures:operator-node', lib.tree(r) == mk(ops.OP, o, z3.RealVal(0), '', ta, tb))
        elif which == 'Move':
            ta, za, ua = E.input('a', 'A')
            r = I.call_function(E.fn('Move', 1, pick), None, [ua])
            ctx.oblige('ensures:same-expression', lib.tree(r) == ta)
            ctx.oblige('ensures:source-left-empty', lib.tree(ua) == NIL)
            lib.check_links(r, None, 'ensures:links'); return
        lib.check_links(r, None, 'ensures:links')
    return t
def t_opnum(tu, ctx):
    """GetOperatorNum: the arity table"""
    E = Env(tu, ctx); I, ops = E.I, E.ops
    o = ctx.fresh(I_, 'op')
    ctx.assume(z3.Or(ops.un(o), ops.bi(o)))
    r = I.get(I.call_function(E.fn('GetOperatorNum'), None, [o]))
    ctx.oblige('ensures:arity', z3.If(ops.un(o), 1, 2) == r)

# ---------------------------------------------------------------- substitution (C06)
class DictBase:
    """a symbolic map<string, Node>: INDICT / REPL"""
    def __init__(self, lib): self.lib = lib; self.cache = {}
    def has(self, k): return INDICT(k)
    def val(self, k):
        key = k.get_id()
        if key not in self.cache:
            t = REPL(k)
            self.cache[key] = (k, self.lib.node_up(t, None, False, 'dict'))
        self.lib.ctx.assume(z3.Implies(INDICT(k), z3.And(z3.Not(nilq(REPL(k))), WF(REPL(k)))))
        return self.cache[key][1]
class NumBase:
    """a symbolic map<string, double>"""
    def __init__(self, lib): self.lib = lib
    F = z3.Function('DICTVAL', N, R)
    def has(self, k): return INDICT(k)
    def val(self, k): return Cell(self.F(k))

def subs_env(tu, ctx):
    E = Env(tu, ctx, [SubsSpec]); I, lib = E.I, E.lib
    I.contracts.update(tree_contracts(lib))
    lib.unfolders.append(u_subf(E.ops))
    return E
def subs_fn(E, tail, rv=True):
    """overload of Subs by the type of the later parameters"""
    def pick(f):
        ps = params_of(f)
        return E.I.qname(f) == NS + 'Subs' and ('&&' in ty(ps[0])) == rv and head(ty(ps[0])) in ('unique_ptr', 'Node') and tail([ty(p) for p in ps[1:]])
    return E.fn('Subs', None, pick)
def subs_check(E, ctx, r, t, lv=None, tlv=None):
    lib = E.lib
    lib.unfold(t)
    ctx.oblige('ensures:every-listed-variable-replaced-and-nothing-else', lib.tree(r) == SUBF(t))
    lib.check_links(r, None, 'ensures:links')
    regs = region_of(lib, r)
    ctx.oblige('ensures:replacements-are-copied', 'dict' not in regs and 'in' not in regs)
    if lv is not None:
        ctx.oblige('ensures:lvalue-unchanged', lib.tree(lv) == t)
        lib.check_links(lv, None, 'ensures:lvalue')
def t_subs_map(rv):
    def t(tu, ctx):
        E = subs_env(tu, ctx); I, lib = E.I, E.lib
        f = subs_fn(E, lambda ts: len(ts) == 1 and 'map' == head(ts[0]) and 'double' not in ts[0], rv)
        t_, z, u = E.input('t', 'own' if rv else 'in')
        D = MapV(); D.base = DictBase(lib); D.frozen = 'the dictionary'
        r = I.call_function(f, None, [u, D])
        subs_check(E, ctx, r, t_, None if rv else u)
        if rv: ctx.oblige('ensures:rvalue-consumed', lib.tree(u) == NIL)
    return t
def t_subs_single(rv):
    def t(tu, ctx):
        E = subs_env(tu, ctx); I, lib = E.I, E.lib
        f = subs_fn(E, lambda ts: len(ts) == 2 and head(ts[0]) in ('basic_string', 'string'), rv)
        t_, z, u = E.input('t', 'own' if rv else 'in')
        tn, zn, un = E.input('n', 'dict')
        nm = ctx.fresh(N, 'var')
        y = z3.Const('y', N)
        ctx.assume_global(z3.ForAll([y], INDICT(y) == (y == nm)))
        ctx.assume_global(z3.And(REPL(nm) == tn, WF(tn), z3.Not(nilq(tn))))
        r = I.call_function(f, None, [u, Str(nm), un])
        subs_check(E, ctx, r, t_, None if rv else u)
        ctx.oblige('ensures:replacement-unchanged', lib.tree(un) == tn)
    return t

def t_lemma_subf(tu, ctx):
    """lemma subst-wf: replacing variables by well-formed trees keeps a tree well-formed (induction on the tree)"""
    E = subs_env(tu, ctx)
    t = E.lib.fresh_tree('t')
    E.lib.unfold(t)
    l, r, n = proj('l', t), proj('r', t), proj('nm', t)
    ctx.assume(z3.Implies(INDICT(n), z3.And(z3.Not(nilq(REPL(n))), WF(REPL(n)))))
    s = T.node(proj('ty', t), proj('op', t), proj('val', t), n, SUBF(l), SUBF(r))
    E.lib.unfold(s)
    ctx.assume(SUBF(NIL) == NIL)
    ctx.oblige('lemma:subst-wf', z3.And(WF(SUBF(t)), z3.Not(nilq(SUBF(t)))))

# ---------------------------------------------------------------- Simplify (C08)
def simp_env(tu, ctx):
    E = Env(tu, ctx, [SimplifyOrder]); I, lib = E.I, E.lib
    V = EnvVals(E.ops); E.V = V
    lib.unfolders += [V.unfold, V.folded, u_occ(E.ops)]
    f = SimplifyFold(lib); f.V = V; lib.folds = [f]; E.fold = f
    I.contracts.update(tree_contracts(lib))
    I.contracts[NS + 'Calc'] = V.calc_contract(lib)
    return E
def t_simplify(tu, ctx):
    E = simp_env(tu, ctx); I, lib, V = E.I, E.lib, E.V
    t, z, u = E.input(region='own')
    f = E.fn('Simplify', 1, lambda f: I.qname(f) == NS + 'Simplify')
    I.call_function(f, None, [u])
    s = lib.tree(u)
    ctx.oblige('ensures:keeps-an-expression', z3.Not(nilq(s)))
    ctx.oblige('ensures:value-preserved', z3.Implies(V.OK(t), z3.And(V.OK(s), V.VAL(s) == V.VAL(t))))
    ctx.oblige('ensures:well-formed', WF(s))
    ctx.oblige('ensures:no-new-variables', z3.Implies(OCC(s), OCC(t)))
    ctx.oblige('ensures:folds-numbers', FOLDED(s))
    lib.check_links(u, None, 'ensures:links')
