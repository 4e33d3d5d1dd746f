"""The parser (C09, C10): the token list, the conversion to post order and the tree construction, for token lists of any length.

Ghost state of InOrderToPostOrder.  The specification reads the token list from the left: `pos` tokens are taken, `exp` says whether an operand is
expected next, `J` counts the places where an operand starts although none is expected (two operands side by side).  S mirrors the operator stack (each
binary operator remembers its left operand), V mirrors the operands that the post order list denotes, as parse trees over token positions:

    leaf(i)  un(i, t)  bin(i, a, b)  par(i, t, k)        lo/hi: first token and one past the last;  G: well grouped by precedence and associativity

G is the specification of C10; that a tree with G spans all tokens is what "well-formed" means (C09)."""
import z3
from .core import *
from .dom import RealDom
from .extract import params_of, body_of
from .interp import Interp, Frame, ty, strip, head, targs, is_ref
from .stl import N, EMPTY, conv_str
from .tree import *
from .tspecs import *
from .tasks_tree import Env, NS

I_, B, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
def Z(v): return z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else z3.BoolVal(v) if isinstance(v, bool) else v
def _mk():
    P = z3.Datatype('Parsed'); L = z3.Datatype('Operands'); S = z3.Datatype('OperatorStack')
    P.declare('leaf', ('li', I_)); P.declare('un', ('ui', I_), ('ut', P)); P.declare('bin', ('bi', I_), ('bl', P), ('br', P)); P.declare('par', ('pi', I_), ('pt', P), ('pk', I_))
    P, = z3.CreateDatatypes(P)
    L.declare('nil'); L.declare('cons', ('hd', P), ('tl', L)); L, = z3.CreateDatatypes(L)
    S.declare('nil'); S.declare('frm', ('i', I_), ('left', P), ('rest', S)); S, = z3.CreateDatatypes(S)
    TL = z3.Datatype('Trees'); TL.declare('nil'); TL.declare('cons', ('hd', T), ('tl', TL)); TL, = z3.CreateDatatypes(TL)
    return P, L, S, TL
P, L, ST, TL = _mk()
LO, HI, RK = [z3.Function(n, P, I_) for n in ('lo', 'hi', 'rank')]
G = z3.Function('well_grouped', P, B)
LEN = z3.Function('operands_length', L, I_)
VOF = z3.Function('left_operands', ST, L)
NB = z3.Function('binary_operators', ST, I_)
PC = z3.Function('open_parentheses', ST, I_)
KIND = z3.Function('holds_operators', ST, B)
INVS = z3.Function('stack_invariant', ST, B)
TY = z3.Function('token_type', I_, I_)
OPF = z3.Function('token_operator', I_, I_)
VALF = z3.Function('token_value', I_, R_)
NAMF = z3.Function('token_name', I_, N)
TLEN = z3.Function('trees_length', TL, I_)
INF = 1000

class Bag:
    """a vector that is only filled and handed over (error messages)"""
    def __init__(s): s.frozen = None
    def method(s, I, n, args, e):
        if n in ('emplace_back', 'push_back'):
            if len(args) == 1 and isinstance(args[0], Obj): return None
            if s.cls == 'SingleParseError' and len(args) >= 3: I.ctx.oblige('error-position-not-negative', Z(I.get(args[1])) >= 0); return None     # (line, pos, content, text ...)
            r = I.rec_by_name.get(s.cls); I.lib.construct_by_args(r, s.cls, args); return None
        if n in ('reserve',): return None
        raise Unsupported('list of errors: ' + n)
    def copy_value(s, I): return s
    def move_value(s, I): return s

class ParseLib(TreeLib):
    def __init__(s, tu):
        TreeLib.__init__(s, tu); s.objects = []
        o = s.ops; s.LPAR, s.RPAR = o.v['LEFT_PARENTHESIS'], o.v['RIGHT_PARENTHESIS']
        s.range_rule = None
    def new_seq(s, h, elem):
        k = s.kinds.get((h, head(elem)))
        if k is None: return None
        q = k(); s.objects.append(q); return q
    def construct(s, t, ct, args, e):
        a0 = args[0] if args else None
        if a0 is not None and type(a0) in s.hooks: return a0
        return TreeLib.construct(s, t, ct, args, e)
    # the specification's operator tables
    def isun(s, op): return s.ops.un(op)
    def isbi(s, op): return s.ops.bi(op)
    def prefix(s, op): return Or(s.ops.un(op), op == s.LPAR)
    def rank(s, op):
        o = s.ops; r = z3.IntVal(INF)
        for ns, k in ((('ADD', 'SUB'), 1), (('MULTIPLY', 'DIVIDE'), 2), (('POWER',), 3), (('AND', 'OR'), 4), (('MOD',), 5)):
            r = If(Or(*[op == o.v[n] for n in ns]), z3.IntVal(k), r)
        return r
    def rightassoc(s, op): return op == s.ops.v['POWER']
    def okleft(s, op, r): return If(s.rightassoc(op), r > s.rank(op), r >= s.rank(op))
    def okright(s, op, r): return If(s.rightassoc(op), r >= s.rank(op), r > s.rank(op))
    # tokens
    def token_facts(s, ty_, op, val, nm):
        o = s.ops
        return And(Or(ty_ == o.NUM, ty_ == o.VAR, ty_ == o.OP), Implies(ty_ == o.OP, Or(o.un(op), o.bi(op), op == s.LPAR, op == s.RPAR)), Implies(ty_ != o.OP, op == o.NULL),
                   Implies(ty_ != o.NUM, val == 0), Implies(ty_ != o.VAR, nm == EMPTY))
    def leaf(s, i): return T.node(TY(i), OPF(i), VALF(i), NAMF(i), NIL, NIL)
    def view(s, hint):
        o = Obj('StringView', {'str': Cell(None), 'len': Cell(s.ctx.fresh(I_, hint + '_len'))}); s.ctx.assume(o.f['len'].v >= 0); o.f['str'].v = CPtr(Str('?'), 0)
        return o
    def token(s, i, tree=None, hint='tok'):
        """a Token object holding token i (or a whole tree)"""
        if tree is None:
            s.ctx.assume(s.token_facts(TY(i), OPF(i), VALF(i), NAMF(i))); tree = s.leaf(i)
        u = s.node_up(tree, None, False, 'own'); n = s.materialise(u.p); n.idx = i
        t = Obj('Token', {'node': u, 's': s.view(hint), 'line': Cell(s.ctx.fresh(I_, hint + '_line')), 'pos': Cell(s.ctx.fresh(I_, hint + '_pos')), 'isBaseOperator': Cell(s.ctx.fresh(B, hint + '_base')), 'content': s.view(hint + '_content')})
        s.ctx.assume(t.f['pos'].v >= 0); u.host = t
        return t
    def take(s, args, e):
        """the token handed to a container: (index, tree term)"""
        if len(args) != 1 or not isinstance(args[0], Obj) or args[0].cls != 'Token': raise Unsupported('element of a token container')
        tok = args[0]
        u = tok.f['node']
        if not s.up_bool(u): s.ctx.fail('null-dereference')
        s.ctx.oblige('token-position-not-negative', Z(s.I.get(tok.f['pos'])) >= 0)
        n = s.canonical(u.p)
        if not isinstance(n, Obj): raise Unsupported('token node')
        t = s.tree(u)
        pv = n.f[s.m['parent']].v
        s.ctx.oblige('token-node-has-no-parent', s.same_obj(pv, None) if pv is not None else True)
        u.set(None)      # moved from
        return getattr(n, 'idx', None), t

# ---------------------------------------------------------------- the loop rule
class LoopInv:
    """while (c) body: havoc what the body changes, assume the invariant, execute the body once, prove the invariant again.

    The invariant is the ghost invariant of the task and those of a set of candidate facts that are found to be inductive (a candidate that fails at the
    entry or after the body is removed and the proof starts again)."""
    def __init__(s, env): s.env = env; s.lib, s.ctx = env.lib, env.ctx
    def cells(s, fr):
        out = {}; seen = set()
        def go(name, v):
            if v is None or id(v) in seen: return
            if isinstance(v, (int, float, bool, str, z3.ExprRef)): return
            seen.add(id(v))
            if isinstance(v, Cell): out[name] = v; return
            if isinstance(v, Obj) and v.cls == 'Token': out[name] = v; return
            if isinstance(v, Closure):
                for k, x in v.caps.items(): go(str(k), x)
            elif isinstance(v, Obj) and v.cls not in ('NodeImpl',):
                for k, x in v.f.items(): go(name + '.' + k, x)
            elif isinstance(v, (UP, Seq, SetV, MapV, Tuple)): out[name] = v
        for f in [fr] + [x for x in s.lib.I.frames if x is not fr]:
            for k, v in f.env.items(): go(str(k), v)
        return out
    def snap(s, c):
        if isinstance(c, Cell): return c.v
        if isinstance(c, Obj): return (c.f['node'].p, c.f['pos'].v)
        if isinstance(c, UP): return c.p
        if isinstance(c, Seq): return list(c.items)
        return None
    def same(s, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
        if isinstance(a, CPtr) and isinstance(b, CPtr): return a.base is b.base and (a.off is b.off or Z(a.off).eq(Z(b.off)))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(s.same(x, y) for x, y in zip(a, b))
        return a is b or (type(a) == type(b) and isinstance(a, (int, bool, float)) and a == b)
    def havoc_cell(s, name, c):
        v = c.v if isinstance(c, Cell) else None
        if isinstance(c, Obj):
            n = s.lib.token(s.ctx.fresh(I_, 'token'))
            for k in c.f: 
                c.f[k] = n.f[k]
                if isinstance(c.f[k], UP): c.f[k].host = c
        elif isinstance(v, bool) or isinstance(v, z3.BoolRef): c.v = s.ctx.fresh(B, 'b')
        elif isinstance(v, CPtr): c.v = CPtr(v.base, s.ctx.fresh(I_, 'p'))
        elif isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int()): c.v = s.ctx.fresh(I_, 'i')
        else: raise Unsupported('loop changes %r' % (v,))
    def hook(s, I, node, fr, init, cond, inc, body):
        ctx, env = s.ctx, s.env
        if init == 'range': return env.range_loop(s, I, node, fr, cond, inc, body)
        if cond and node['kind'] != 'DoStmt' and ('symbolic', node['id']) not in ctx.known_sub:
            # a loop over concrete data (a string literal) is executed
            for i in range(300):
                k = len(ctx.st.taken); c = I.truth(I.full(cond, fr))
                if not isinstance(c, (bool, int)) or len(ctx.st.taken) != k or i == 299: ctx.known_sub[('symbolic', node['id'])] = True; raise Restart()
                if not c: return True
                try: I.scoped(body, fr)
                except ContinueEx: pass
                except BreakEx: return True
                if inc: I.full(inc, fr)
        s.run(I, node, fr, lambda: I.truth(I.full(cond, fr)) if cond else True, lambda: I.scoped(body, fr), lambda: I.full(inc, fr) if inc else None, first=node['kind'] == 'DoStmt')
        return True
    def run(s, I, node, fr, cond, body, inc, first=False):
        ctx, env = s.ctx, s.env
        if first: raise Unsupported('do loop')
        K = ctx.known_sub; key = node['id']
        mod = K.setdefault(('mod', key), set()); drop = K.setdefault(('drop', key), set())
        cells = s.cells(fr)
        env.at_head(key)
        def cands():
            out = dict(env.candidates(key, cells)); return {k: v for k, v in out.items() if k not in drop}
        def check(where):
            bad = {k for k, v in cands().items() if not ctx.entails(v)}
            if bad: drop.update(bad); raise Restart()
        check('entry')
        env.invariant('at-loop-entry', True)
        s.current_mod = mod
        for name in sorted(mod):
            if name.startswith('ghost.'): env.havoc(name[6:])
            elif name in cells: s.havoc_cell(name, cells[name])
        env.after_havoc(cells)
        env.invariant('', False)
        cs = cands()
        for v in cs.values(): ctx.assume(v)
        for name in mod:
            # a number or flag that the loop changes and about which nothing is known: what fails from here on may be due to that
            v = cells[name].v if isinstance(cells.get(name), Cell) else None
            if isinstance(v, z3.ExprRef) and (z3.is_int(v) or z3.is_bool(v)) and not any(name in k for k in cs): ctx.st.facts['weak'] = True
        g0 = env.ghost(); c0 = {k: s.snap(v) for k, v in cells.items()}
        if not ctx.decide(cond()): return
        try:
            try: body()
            except ContinueEx: pass
            inc()
        except BreakEx: return
        env.at_head(key)
        new = {k for k, v in cells.items() if not s.same(s.snap(v), c0[k])} | {'ghost.' + k for k, v in env.ghost().items() if not s.same(v, g0[k])}
        if not new <= mod: mod.update(new); raise Restart()
        check('body')
        env.invariant('preserved-by-the-loop', True)
        raise Kill()


class PEnv(Env):
    def __init__(s, tu, ctx):
        s.tu, s.ctx = tu, ctx
        s.lib = ParseLib(tu); s.lib.env = s; s.lib.kinds = {}; s.lib.hooks = set()
        s.I = Interp(tu, ctx, RealDom(), s.lib); s.ops = s.lib.ops
        s.rule = LoopInv(s); s.I.loop_hooks.append(s.rule.hook)
        ctx.machine = s.I
        s.tables = {}
        for n in ('Rank', 'IsLeft2Right', 'GetOperatorNum', 'IsFunction', 'IsUnaryOperator', 'IsBinaryOperator'):
            s.I.contracts[NS + n] = s.table(n)
        s.I.contracts[NS + 'SingleParseError::SingleParseError'] = s.c_error
        s.I.contracts[NS + 'MultiParseError::MultiParseError'] = s.c_error
    def table(s, name):
        """a function of one enumerator: its body is executed for every enumerator"""
        def c(I, this, args, d):
            op = args[0].v if isinstance(args[0], Cell) else args[0]
            if len(args) != 1 or not isinstance(op, z3.ExprRef): return NotImplemented
            op = z3.simplify(op)
            if z3.is_int_value(op): return NotImplemented
            tab = s.ctx.known_sub.setdefault(('table', name), {})
            if not tab:
                for v in sorted(set(s.ops.v.values())):
                    n0 = len(s.ctx.obs); m = s.ctx.mute
                    try: r = I.call_function(d, None, [v])
                    except Kill: r = None
                    bad = [o for o in s.ctx.obs[n0:] if o.status != 'proved']; del s.ctx.obs[n0:]
                    tab[v] = None if bad or r is None else I.get(r)
            ok = [v for v, r in tab.items() if r is not None]
            if len(ok) < len(tab): s.ctx.oblige('precondition:' + name, Or(*[op == v for v in ok]))
            if not ok: raise Unsupported('table of ' + name)
            out = Z(tab[ok[0]])
            for v in ok[1:]: out = If(op == v, Z(tab[v]), out)
            return out
        return c
    def c_error(s, I, this, args, d):
        """the constructors of the parse errors: require a position that is not negative; throw nothing"""
        if this.cls == 'SingleParseError': s.ctx.oblige('error-position-not-negative', Z(I.get(args[1])) >= 0)
        this.f['whatStr'] = Str(s.ctx.fresh(N, 'what'))
        return None
    def at_head(s, key): pass
    def candidates(s, key, cells): return []
    def invariant(s, name, check): pass
    def after_havoc(s, cells): pass
    def ghost(s): return {}
    def havoc(s, name): pass
    def range_loop(s, *a): return False

# ---------------------------------------------------------------- InOrderToPostOrder
class InDeque:
    """the token list: tokens pos .. n-1 are left"""
    def __init__(s, env): s.env = env; s.first = None; s.frozen = None
    def method(s, I, n, args, e):
        E = s.env; ctx = E.ctx
        if n == 'empty': return E.pos == E.n
        if n == 'size': return E.n - E.pos
        if n == 'front':
            ctx.oblige('front-of-a-nonempty-list', E.pos < E.n)
            if s.first is None or not s.first[0].eq(E.pos): s.first = (E.pos, E.lib.token(E.pos))
            return s.first[1]
        if n == 'back':
            ctx.oblige('back-of-a-nonempty-list', E.pos < E.n)
            return E.lib.token(E.n - 1, hint='last')
        if n == 'pop_front':
            ctx.oblige('pop-of-a-nonempty-list', E.pos < E.n)
            E.lost('before the next token')
            ctx.oblige('every-token-is-used', Not(E.pend))
            E.pos = z3.simplify(E.pos + 1); E.pend = z3.BoolVal(True); s.first = None
            return None
        raise Unsupported('token list: ' + n)

class OpStack:
    """the stack of operators waiting for their right operand"""
    def __init__(s, env): s.env = env; s.obj = None; s.done = False; s.frozen = None; env.stack(s)
    def method(s, I, n, args, e):
        E = s.env; ctx = E.ctx
        if n == 'empty':
            s.settle(); return ST.is_nil(E.S)
        if n == 'size':
            s.settle(); r = ctx.fresh(I_, 'size'); ctx.assume(And(r >= 0, (r == 0) == ST.is_nil(E.S))); return r
        if n == 'top':
            s.settle()
            if not ctx.entails(ST.is_frm(E.S)): ctx.oblige('top-of-a-nonempty-stack', ST.is_frm(E.S))
            if s.obj is None or not s.obj[0].eq(E.S): s.obj = (E.S, E.lib.token(z3.simplify(ST.i(E.S)), hint='top'))
            return s.obj[1]
        if n == 'pop':
            if s.done: s.done = False; s.obj = None; return None
            ctx.oblige('pop-of-a-nonempty-stack', ST.is_frm(E.S))
            E.lost('before the next operator')
            i, S = z3.simplify(ST.i(E.S)), z3.simplify(ST.rest(E.S))
            moved = s.obj is not None and s.obj[0].eq(E.S) and s.obj[1].f['node'].p is None
            fr = (i, z3.simplify(ST.left(E.S)))
            E.S = S; E.unfold_stack(S); s.obj = None
            E.infl = fr
            E.close()
            if not moved: E.lost('by dropping it')
            return None
        if n in ('push', 'emplace'):
            s.settle()
            idx, t = E.lib.take(args, e)
            E.consume_operator(idx, t)
            s.obj = None
            return None
        raise Unsupported('operator stack: ' + n)
    def settle(s):
        if s.done: raise Unsupported('the moved-from top of the operator stack is still there')

class PostList:
    """the post order list: V is what it denotes"""
    def __init__(s, env): s.env = env; s.frozen = None; env.post(s)
    def method(s, I, n, args, e):
        E = s.env
        if n in ('emplace_back', 'push_back'):
            idx, t = E.lib.take(args, e); E.emit(idx, t); return None
        if n in ('reserve',): return None
        raise Unsupported('post order list: ' + n)

class IEnv(PEnv):
    def __init__(s, tu, ctx):
        PEnv.__init__(s, tu, ctx)
        s.lib.kinds = {('vector', 'Token'): lambda: PostList(s), ('stack', 'Token'): lambda: OpStack(s)}
        s.lib.hooks = {InDeque, OpStack, PostList}
        s.n = z3.Const('tokens', I_); ctx.assume_global(s.n >= 0)
        s.pos = z3.IntVal(0); s.pend = z3.BoolVal(False); s.exp = z3.BoolVal(True); s.J = z3.IntVal(0)
        s.S = ST.nil; s.V = L.nil; s.infl = None
        s.stk = s.pst = None
        s.deq = InDeque(s); s.heads = {}
        s.unfold_stack(s.S); s.unfold_ops(s.V)
    def stack(s, x):
        if s.stk is not None: raise Unsupported('two operator stacks')
        s.stk = x
    def post(s, x):
        if s.pst is not None: raise Unsupported('two post order lists')
        s.pst = x
    # definitions, unfolded where a term appears
    def unfold_stack(s, S, deep=1):
        S = z3.simplify(S)
        done = s.ctx.st.facts.setdefault('unfolded stacks', {}); k = S.get_id()
        if k not in done:
            done[k] = S
            memo = s.ctx.known_sub.setdefault('stack definitions', {})
            if k not in memo: memo[k] = (S, z3.simplify(s.stack_def(S)), z3.simplify(ST.rest(S)))
            s.ctx.assume(memo[k][1])
        if deep: s.unfold_stack(s.ctx.known_sub['stack definitions'][k][2], deep - 1)
    def stack_def(s, S):
        o = s.lib; c = []
        i, a, r = ST.i(S), ST.left(S), ST.rest(S)
        op = OPF(i); fr = ST.is_frm(S)
        c += [NB(S) >= 0, PC(S) >= 0, Implies(ST.is_nil(S), And(NB(S) == 0, PC(S) == 0, VOF(S) == L.nil, INVS(S), KIND(S))),
              Implies(fr, And(KIND(S) == And(KIND(r), s.opkind(i)), NB(S) == NB(r) + If(o.isbi(op), 1, 0), PC(S) == PC(r) + If(op == o.LPAR, 1, 0), NB(r) >= 0, PC(r) >= 0,
                              VOF(S) == If(o.isbi(op), L.cons(a, VOF(r)), VOF(r)),
                              INVS(S) == And(INVS(r), TY(i) == o.ops.OP, Or(o.isbi(op), o.prefix(op)), o.token_facts(TY(i), op, VALF(i), NAMF(i)),
                                             If(o.isbi(op), And(G(a), LO(a) == s.end(r), HI(a) == i, o.okleft(op, RK(a)), s.okadj(r, op)), i == s.end(r)))))]
        return And(*c)
    def end(s, S): return If(ST.is_nil(S), 0, ST.i(S) + 1)
    def okadj(s, r, op):
        """a binary operator directly above the operator r"""
        q = OPF(ST.i(r)); o = s.lib
        return Implies(ST.is_frm(r), And(Not(o.isun(q)), Implies(o.isbi(q), Or(o.rank(q) < o.rank(op), And(o.rank(q) == o.rank(op), o.rightassoc(op))))))
    def unfold_ops(s, V, deep=2):
        V = z3.simplify(V); done = s.ctx.st.facts.setdefault('unfolded operands', {}); k = V.get_id()
        if k not in done:
            done[k] = V
            s.ctx.assume(z3.simplify(And(LEN(V) >= 0, Implies(L.is_nil(V), LEN(V) == 0), Implies(L.is_cons(V), And(LEN(V) == 1 + LEN(L.tl(V)), LEN(L.tl(V)) >= 0)))))
        if deep: s.unfold_ops(L.tl(V), deep - 1)
    def unfold_tree(s, t):
        o = s.lib; c = s.ctx.assume
        k = t.decl()
        if k.eq(P.leaf):
            i = t.arg(0); c(And(LO(t) == i, HI(t) == i + 1, RK(t) == INF, G(t) == Or(TY(i) == o.ops.NUM, TY(i) == o.ops.VAR)))
        elif k.eq(P.un):
            i, a = t.children(); c(And(LO(t) == i, HI(t) == HI(a), RK(t) == INF, G(t) == And(G(a), LO(a) == i + 1, RK(a) == INF, TY(i) == o.ops.OP, o.isun(OPF(i)))))
        elif k.eq(P.bin):
            i, a, b = t.children(); op = OPF(i)
            c(And(LO(t) == LO(a), HI(t) == HI(b), RK(t) == o.rank(op), G(t) == And(G(a), G(b), HI(a) == i, LO(b) == i + 1, TY(i) == o.ops.OP, o.isbi(op), o.okleft(op, RK(a)), o.okright(op, RK(b)))))
        elif k.eq(P.par):
            i, a, j = t.children()
            c(And(LO(t) == i, HI(t) == j + 1, RK(t) == INF, G(t) == And(G(a), LO(a) == i + 1, HI(a) == j, TY(i) == o.ops.OP, OPF(i) == o.LPAR, TY(j) == o.ops.OP, OPF(j) == o.RPAR)))
    # ghost steps
    def cur(s): return z3.simplify(s.pos - 1)
    def unchanged(s, idx, t): s.ctx.oblige('token-unchanged', t == s.lib.leaf(idx))
    def lost(s, why):
        """an operator that was taken from the stack must have been used"""
        if s.infl is None: return
        op = OPF(s.infl[0])
        if not s.ctx.entails(op == s.lib.LPAR) or s.infl_open: s.ctx.oblige('every-operator-is-used', False, why)
        s.infl = None
    infl_open = False
    def close(s):
        """the popped operator is '(' while ')' is the current token: the parentheses are closed"""
        E = s; i = s.infl[0]; ctx = s.ctx
        s.infl_open = False
        if not ctx.decide(OPF(i) == s.lib.LPAR): return
        if ctx.entails(And(s.pend, TY(s.cur()) == s.ops.OP, OPF(s.cur()) == s.lib.RPAR)):
            ctx.oblige('parentheses-contain-an-operand', Not(s.exp))
            ctx.assume(LEN(s.V) >= 1) if ctx.entails(LEN(s.V) >= 1) else ctx.oblige('parentheses-contain-an-operand', LEN(s.V) >= 1)
            h = z3.simplify(L.hd(s.V)); t = P.par(i, h, s.cur()); s.unfold_tree(t)
            s.V = L.cons(t, z3.simplify(L.tl(s.V))); s.unfold_ops(s.V); s.pend = z3.BoolVal(False)
        else: s.infl_open = True
    def consume_operator(s, idx, t):
        ctx = s.ctx; lib = s.lib
        if idx is None: raise Unsupported('a token of unknown origin is pushed')
        s.lost('before an operator is pushed')
        ctx.oblige('current-token-is-pushed', And(s.pend, idx == s.pos - 1)); s.unchanged(idx, t)
        op = OPF(idx)
        if not ctx.entails(And(TY(idx) == s.ops.OP, Or(lib.isbi(op), lib.prefix(op)))): raise Unsupported('an operand or ) is pushed on the operator stack')
        ctx.oblige('missing-left-operand-is-rejected', Not(And(s.exp, lib.isbi(op))))
        s.J = z3.simplify(If(And(Not(s.exp), lib.prefix(op)), s.J + 1, s.J)); s.exp = z3.BoolVal(True); s.pend = z3.BoolVal(False)
        left = z3.simplify(L.hd(s.V)); S0 = s.S
        s.S = ST.frm(idx, left, S0); s.unfold_stack(s.S)
    def emit(s, idx, t):
        ctx = s.ctx; lib = s.lib
        if idx is None: raise Unsupported('a token of unknown origin is emitted')
        s.unchanged(idx, t)
        if s.infl is not None and (s.infl[0].eq(idx) or ctx.entails(s.infl[0] == idx)):
            s.infl = None; s.step(idx); return
        if s.stk is not None and s.stk.obj is not None and s.stk.obj[0].eq(s.S) and s.stk.obj[1].f['node'].p is None and ctx.entails(ST.i(s.S) == idx):
            s.stk.done = True; s.S = z3.simplify(ST.rest(s.S)); s.unfold_stack(s.S); s.step(idx); return
        if not ctx.entails(And(s.pend, idx == s.pos - 1)): raise Unsupported('a token of unknown origin is emitted')
        if not ctx.entails(Or(TY(idx) == s.ops.NUM, TY(idx) == s.ops.VAR)): raise Unsupported('an operator is emitted directly')
        s.lost('before an operand is emitted')
        s.J = z3.simplify(If(s.exp, s.J, s.J + 1)); s.exp = z3.BoolVal(False); s.pend = z3.BoolVal(False)
        t = P.leaf(idx); s.unfold_tree(t); s.V = L.cons(t, s.V); s.unfold_ops(s.V)
    def step(s, i):
        """operator i is appended to the post order list: it takes its operands from V"""
        ctx = s.ctx; lib = s.lib; op = OPF(i); V = s.V
        ctx.oblige('operator-is-emitted', And(TY(i) == s.ops.OP, Or(lib.isun(op), lib.isbi(op))))
        if ctx.decide(lib.isbi(op)):
            ctx.oblige('operator-has-its-operands', LEN(V) >= 2)
            t = P.bin(i, z3.simplify(L.hd(L.tl(V))), z3.simplify(L.hd(V))); rest = z3.simplify(L.tl(L.tl(V)))
        else:
            ctx.oblige('operator-has-its-operands', LEN(V) >= 1)
            t = P.un(i, z3.simplify(L.hd(V))); rest = z3.simplify(L.tl(V))
        s.unfold_tree(t); s.V = L.cons(t, rest); s.unfold_ops(s.V)
    # the invariant
    def stackp(s):
        if s.infl is None: return s.S
        i, a = s.infl
        f = ST.frm(i, a, s.S)
        return If(s.settled(), s.S, f)
    def settled(s): return And(OPF(s.infl[0]) == s.lib.LPAR, Not(s.pend))
    def pcount(s): return PC(s.S) if s.infl is None else PC(s.S) + If(OPF(s.infl[0]) == s.lib.LPAR, 1, 0)
    def at_head(s, key):
        if s.stk is not None: s.stk.settle()
        if s.infl is not None:
            s.unfold_stack(ST.frm(s.infl[0], s.infl[1], s.S), 0)
            if s.ctx.entails(OPF(s.infl[0]) == s.lib.LPAR) and not s.infl_open and s.heads.get(key) is False: s.infl = None
        h = s.ctx.known_sub.setdefault(('infl', key), s.infl is not None)
        s.heads[key] = h
        if h != (s.infl is not None):
            if s.infl is not None and not h: s.lost('inside a loop')
            else: raise Unsupported('the popped operator differs between iterations')
    def invariant(s, name, check):
        lib = s.lib; V = s.V
        Sp = s.stackp(); c = s.pos - If(s.pend, 1, 0)
        if s.infl is not None: s.unfold_stack(ST.frm(s.infl[0], s.infl[1], s.S), 0)
        t = z3.simplify(L.hd(V))
        top = OPF(ST.i(Sp))
        nb = NB(Sp) if s.infl is None else If(s.settled(), NB(s.S), NB(ST.frm(s.infl[0], s.infl[1], s.S)))
        vof = VOF(Sp) if s.infl is None else If(s.settled(), VOF(s.S), VOF(ST.frm(s.infl[0], s.infl[1], s.S)))
        inv = INVS(Sp) if s.infl is None else If(s.settled(), INVS(s.S), INVS(ST.frm(s.infl[0], s.infl[1], s.S)))
        fs = [('tokens-in-range', And(s.pos >= 0, s.pos <= s.n, Implies(s.pend, s.pos >= 1), s.J >= 0)),
              ('operands-counted', LEN(V) == nb + If(s.exp, 0, 1) + s.J),
              ('operators-counted', Implies(s.J == 0, inv)),
              ('operands-grouped', Implies(s.J == 0, If(s.exp, And(V == vof, s.end(Sp) == c),
                    And(V == L.cons(t, vof), LO(t) == s.end(Sp), HI(t) == c, G(t), Implies(ST.is_frm(Sp), And(Implies(lib.isbi(top), lib.okright(top, RK(t))), Implies(lib.isun(top), RK(t) == INF)))))))]
        # stacked operators are operators in every case
        fs.append(('stack-holds-operators', And(KIND(s.S), *([s.opkind(s.infl[0])] if s.infl is not None else []))))
        for n, f in fs:
            if check: s.ctx.oblige('%s:%s' % (n, name), f)
            else: s.ctx.assume(f)
        s.unfold_ops(V)
    def opkind(s, i): return And(TY(i) == s.ops.OP, Or(s.lib.isbi(OPF(i)), s.lib.prefix(OPF(i))))
    def ghost(s):
        g = dict(pos=s.pos, pend=s.pend, exp=s.exp, J=s.J, S=s.S, V=s.V)
        return {k: z3.simplify(v) for k, v in g.items()}
    def havoc(s, name):
        sort = dict(pos=I_, pend=B, exp=B, J=I_, S=ST, V=L)[name]
        setattr(s, name, s.ctx.fresh(sort, name))
    def after_havoc(s, cells):
        if s.infl is not None and ('ghost.S' in s.mod_names()):
            s.infl = (s.ctx.fresh(I_, 'popped'), s.ctx.fresh(P, 'popped_left')); s.infl_open = False
        if s.stk is not None: s.stk.obj = None; s.stk.done = False
        s.deq.first = None
        s.unfold_stack(s.S); s.unfold_ops(s.V)
        if s.infl is not None: s.unfold_stack(ST.frm(s.infl[0], s.infl[1], s.S), 0)
    def mod_names(s): return s.rule.current_mod
    def candidates(s, key, cells):
        lib = s.lib; out = []
        out.append(('not pend', Not(s.pend))); out.append(('pend', s.pend))
        if s.infl is not None: out.append(('pend until the parenthesis is found', s.pend == (OPF(s.infl[0]) != lib.LPAR)))
        t = L.hd(s.V); q = OPF(s.pos - 1)
        out.append(('the operand before the current operator fits', Implies(And(s.J == 0, Not(s.exp), s.pend, lib.isbi(q)), lib.okleft(q, RK(t)))))
        out.append(('the last operand is complete', Implies(And(s.J == 0, Not(s.exp)), RK(t) == INF)))
        if s.infl is not None: out.append(('the operand in parentheses is complete', Implies(And(s.J == 0, s.settled()), RK(t) == INF)))
        top = OPF(ST.i(s.S))
        for name, c in cells.items():
            v = c.v if isinstance(c, Cell) else None
            if isinstance(c, Obj) and s.infl is not None and c.f['node'].p is not None:
                n = lib.canonical(c.f['node'].p); i = getattr(n, 'idx', None)
                if i is not None: out.append((name + ' is the popped operator', And(i == s.infl[0], lib.tree(c.f['node']) == lib.leaf(i))))
            if isinstance(v, (bool, z3.BoolRef)):
                out += [(name + '==exp', Z(v) == s.exp), (name + '!=exp', Z(v) == Not(s.exp))]
            elif isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int()):
                out += [(name + '==parentheses', Z(v) == s.pcount()), (name + '==parentheses-1', Z(v) == s.pcount() - 1), (name + '==pos', Z(v) == s.pos), (name + '==binary', Z(v) == NB(s.S))]
        return out

PF = 'internal::ParseFunctions::'
def t_iotp(tu, ctx):
    """InOrderToPostOrder: for every token list, a post order list that denotes 1 + J operands (one well-grouped tree over all tokens if J = 0), or a
    SingleParseError, and then the list is malformed"""
    E = IEnv(tu, ctx); lib = E.lib
    f = E.fn('ParseFunctions::InOrderToPostOrder', 1)
    try:
        r = E.I.call_function(f, None, [E.deq])
    except CppThrow as e:
        ctx.oblige('only-parse-errors-are-thrown', E.I.derives(e.tname, 'ParseError'), e.tname)
        q = OPF(E.pos - 1); isop = TY(E.pos - 1) == E.ops.OP
        need = Or(lib.isbi(q), q == lib.RPAR)
        open_ = E.pcount()
        ctx.oblige('only-malformed-input-is-rejected', Or(E.n == 0, And(E.pend, isop, need, E.exp), And(E.pend, isop, q == lib.RPAR, open_ == 0),
            And(Not(E.pend), E.pos == E.n, E.exp), And(E.pos == E.n, Not(E.pend), open_ > 0)))
        raise Kill()
    if not isinstance(r, PostList): raise Unsupported('result of InOrderToPostOrder')
    if E.stk is not None: E.stk.settle()
    E.lost('at the end')
    t = z3.simplify(L.hd(E.V)); E.unfold_stack(E.S); E.unfold_ops(E.V)
    ctx.oblige('all-tokens-are-used', And(E.pos == E.n, Not(E.pend)))
    ctx.oblige('missing-last-operand-is-rejected', Not(E.exp))
    ctx.oblige('unclosed-parenthesis-is-rejected', PC(E.S) == 0)
    ctx.oblige('all-operators-are-used', ST.is_nil(E.S))
    ctx.oblige('operands-of-the-result', LEN(E.V) == 1 + E.J)
    ctx.oblige('one-well-grouped-tree-over-all-tokens', Implies(E.J == 0, And(E.V == L.cons(t, L.nil), G(t), LO(t) == 0, HI(t) == E.n)))


# ---------------------------------------------------------------- BuildExpressionTree
SIM = z3.Function('operands_after', I_, TL)          # the operands that the first k entries of the post order list denote
ALLWF = z3.Function('all_wellformed', TL, B)
class PostVec:
    """the post order list handed in"""
    def __init__(s, env): s.env = env; s.frozen = None
    def method(s, I, n, args, e):
        if n == 'size': return s.env.n
        if n == 'empty': return s.env.n == 0
        raise Unsupported('post order list: ' + n)
class TreeStack:
    """the stack of finished operands; L: their trees, top first"""
    def __init__(s, env): s.env = env; s.obj = None; s.frozen = None; env.add(s)
    def method(s, I, n, args, e):
        E = s.env; ctx = E.ctx; lib = E.lib
        if n == 'empty': return TL.is_nil(E.L)
        if n == 'size': E.unfold(E.L); return TLEN(E.L)
        if n == 'top':
            ctx.oblige('top-of-a-nonempty-stack', TL.is_cons(E.L))
            if s.obj is None or not s.obj[0].eq(E.L):
                t = z3.simplify(TL.hd(E.L)); E.unfold(E.L); ctx.assume(Not(T.is_nil(t))); s.obj = (E.L, lib.token(None, t, 'top'))
            return s.obj[1]
        if n == 'pop':
            ctx.oblige('pop-of-a-nonempty-stack', TL.is_cons(E.L))
            E.L = z3.simplify(TL.tl(E.L)); E.unfold(E.L); s.obj = None; return None
        if n in ('push', 'emplace'):
            if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == 'Token' and args[0].f['node'].p is not None: lib.check_links(args[0].f['node'], None, 'tree')
            if s.obj is not None and s.obj[1].f['node'].p is None: raise Unsupported('the moved-from top of the stack is still there')
            idx, t = lib.take(args, e)
            lib.unfold(t)
            E.L = TL.cons(t, E.L); E.unfold(E.L); s.obj = None; return None
        raise Unsupported('operand stack: ' + n)
class BEnv(PEnv):
    def __init__(s, tu, ctx):
        PEnv.__init__(s, tu, ctx)
        s.lib.unfolders += []
        def bag(): b = Bag(); b.cls = 'SingleParseError'; return b
        s.lib.kinds = {('stack', 'Token'): lambda: TreeStack(s), ('vector', 'SingleParseError'): bag}
        s.lib.hooks = {TreeStack, PostVec, Bag}
        s.n = z3.Const('entries', I_); s.k = z3.IntVal(0); s.L = TL.nil; s.st_ = None
        ctx.assume_global(And(s.n >= 0, SIM(0) == TL.nil, TLEN(SIM(s.n)) >= 1))
        s.unfold(s.L); s.vec = PostVec(s)
    def add(s, x):
        if s.st_ is not None: raise Unsupported('two operand stacks')
        s.st_ = x
    def unfold(s, l, deep=2):
        hd, tl = TL.hd(l), TL.tl(l)
        s.ctx.assume(z3.simplify(And(TLEN(l) >= 0, Implies(TL.is_nil(l), And(TLEN(l) == 0, ALLWF(l))), Implies(TL.is_cons(l), And(TLEN(l) == 1 + TLEN(tl), TLEN(tl) >= 0, ALLWF(l) == And(WF(hd), Not(T.is_nil(hd)), ALLWF(tl)))))))
        if deep: s.unfold(z3.simplify(tl), deep - 1)
    def entry(s, k):
        """entry k of the list: an operand, or an operator whose operands are there (the postcondition of InOrderToPostOrder)"""
        o = s.ops; A = SIM(k); op = OPF(k); s.unfold(A); isop = TY(k) == o.OP
        s.ctx.assume(And(Implies(isop, Or(o.un(op), o.bi(op))), s.lib.token_facts(TY(k), op, VALF(k), NAMF(k)),
            SIM(k + 1) == If(isop, If(o.bi(op), TL.cons(T.node(o.OP, op, 0, EMPTY, TL.hd(TL.tl(A)), TL.hd(A)), TL.tl(TL.tl(A))), TL.cons(T.node(o.OP, op, 0, EMPTY, TL.hd(A), NIL), TL.tl(A))), TL.cons(s.lib.leaf(k), A)),
            Implies(isop, TLEN(A) >= If(o.bi(op), 2, 1))))
        return s.lib.token(k)
    def range_loop(s, rule, I, node, fr, rng, var, body):
        if not isinstance(rng, PostVec): return False
        s.k = z3.IntVal(0); c = Cell(None)
        def once():
            s.tok = s.entry(s.k); I.bind_loopvar(var, s.tok, fr); I.scoped(body, fr)
        def inc(): s.k = z3.simplify(s.k + 1)
        rule.run(I, node, fr, lambda: s.k < s.n, once, inc); return True
    def ghost(s): return dict(k=s.k, L=z3.simplify(s.L))
    def havoc(s, name): setattr(s, name, s.ctx.fresh(dict(k=I_, L=TL)[name], name))
    def after_havoc(s, cells): s.unfold(s.L); s.st_ and setattr(s.st_, 'obj', None)
    def invariant(s, name, check):
        if s.st_ is not None and s.st_.obj is not None and s.st_.obj[0].eq(s.L): raise Unsupported('the top of the operand stack is in use across iterations')
        f = ALLWF(s.L)
        if check: s.ctx.oblige('stack-holds-complete-trees:' + name, f)
        else: s.ctx.assume(f)
    def candidates(s, key, cells): return [('stack is what the list denotes', s.L == SIM(s.k)), ('range', And(s.k >= 0, s.k <= s.n)), ('list read', s.k == s.n)]
def t_build(tu, ctx):
    """BuildExpressionTree: for every list that denotes 1 + J operands, the tree of the only operand, or a MultiParseError if there are more"""
    E = BEnv(tu, ctx); lib = E.lib
    f = E.fn('ParseFunctions::BuildExpressionTree', 1)
    end = SIM(E.n); E.unfold(end)
    try:
        r = E.I.call_function(f, None, [E.vec])
    except CppThrow as e:
        ctx.oblige('only-parse-errors-are-thrown', E.I.derives(e.tname, 'ParseError'), e.tname)
        ctx.oblige('only-malformed-input-is-rejected', TLEN(end) > 1)
        raise Kill()
    ctx.oblige('whole-list-is-read', E.k == E.n)
    if not isinstance(r, UP) or not lib.up_bool(r): ctx.fail('null-result')
    ctx.oblige('one-operand-is-left', TLEN(end) == 1)
    t = lib.tree(r)
    ctx.oblige('the-tree-of-the-operand', t == TL.hd(end))
    ctx.oblige('complete-expression', WF(t))
    lib.check_links(r, None, 'result')

# ---------------------------------------------------------------- ParseToTokens
CH = z3.Function('char', I_, I_)
NAME = z3.Function('text', I_, I_, N)                 # the characters a .. b-1 as a string
SPC = z3.Function('only_whitespace', I_, I_, B)
WORD = z3.Function('word_characters', I_, I_, B)      # every character a .. b-1 belongs to the word that starts at a
STT = z3.Function('stod_throws', I_, I_, B)
STN = z3.Function('stod_length', I_, I_, I_)
STV = z3.Function('stod_value', I_, I_, R_)
SIGNED = lambda v: v - 256 if v >= 128 else v
CHARS = list(range(-128, 128))
DIGITS = frozenset(range(48, 58)); DIGDOT = DIGITS | {46}
LETTERS = frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}
SPACES = frozenset({9, 10, 11, 12, 13, 32}); BASIC = frozenset(map(ord, '()+-*/^&|%'))
FUNCTIONS = dict(sin='SIN', cos='COS', tan='TAN', arcsin='ARCSIN', asin='ARCSIN', arccos='ARCCOS', acos='ARCCOS', arctan='ARCTAN', atan='ARCTAN', sqrt='SQRT', log='LOG', log2='LOG2', log10='LOG10', exp='EXP')
def member(c, st):
    """c is one of the characters"""
    out = []; cs = sorted(st); i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
        out.append(c == cs[i] if i == j else And(c >= cs[i], c <= cs[j])); i = j + 1
    return Or(*out) if out else z3.BoolVal(False)

class Text(Str):
    """the characters of the expression; reading outside is an obligation"""
    def __init__(s, env): Str.__init__(s, None); s.env = env

def is_lref(t): return t.rstrip().endswith('&') and 'const' not in t
def strip_casts(e):
    while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'): e = e['inner'][0]
    return e
class TokLib(ParseLib):
    def rng(s, x):
        """(first, last) position if x is a string or view that is a part of the text"""
        if isinstance(x, Cell): x = x.v
        if isinstance(x, Str) and isinstance(x.v, z3.ExprRef) and x.v.decl().eq(NAME): return x.v.arg(0), x.v.arg(1)
        if isinstance(x, Obj) and x.cls == 'StringView':
            p = x.f['str'].v
            if isinstance(p, CPtr) and isinstance(p.base, Text): return Z(p.off), z3.simplify(Z(p.off) + Z(x.f['len'].v))
        return None
    def char_at(s, p):
        if not isinstance(p.base, Text): return ParseLib.char_at(s, p)
        E = s.env
        s.ctx.oblige('reads-inside-the-text', And(Z(p.off) >= 0, Z(p.off) < E.n))
        off = z3.simplify(Z(p.off)); c = CH(off); s.ctx.assume(And(c >= -128, c <= 127))
        r = Cell(c); r.tag = CPtr(p.base, off); return r
    def str_range(s, a, b):
        if isinstance(a, CPtr) and isinstance(a.base, Text):
            if isinstance(b, CPtr):
                if b.base is not a.base: raise Unsupported('range over two texts')
                hi = Z(b.off)
            else: hi = Z(a.off) + Z(b)
            lo, hi = z3.simplify(Z(a.off)), z3.simplify(hi)
            s.ctx.oblige('reads-inside-the-text', And(0 <= lo, lo <= hi, hi <= s.env.n))
            s.name(lo, hi)
            return Str(NAME(lo, hi))
        return ParseLib.str_range(s, a, b)
    def name(s, lo, hi): s.ctx.assume((NAME(lo, hi) == EMPTY) == (lo == hi))
    def str_method(s, o, n, args, e):
        r = s.rng(o)
        if r is not None:
            lo, hi = r
            if n in ('size', 'length'): return z3.simplify(hi - lo)
            if n == 'empty': return lo == hi
            if n in ('begin', 'cbegin', 'data', 'c_str'): return CPtr(s.env.text, lo)
            if n in ('end', 'cend'): return CPtr(s.env.text, hi)
            if n in ('front', 'back', 'at'):
                k = z3.IntVal(0) if n == 'front' else hi - lo - 1 if n == 'back' else Z(s.I.get(args[0]))
                return s.at_text(lo, hi, k)
        return ParseLib.str_method(s, o, n, args, e)
    def at_text(s, lo, hi, k):
        s.ctx.oblige('reads-inside-the-string', And(k >= 0, k <= hi - lo))
        if not s.ctx.decide(k < hi - lo): return Cell(0)
        return s.char_at(CPtr(s.env.text, z3.simplify(lo + k)))
    def op(s, name, args, e, ftype):
        if name == 'operator[]' and s.rng(args[0]) is not None:
            lo, hi = s.rng(args[0]); return s.at_text(lo, hi, Z(s.I.get(args[1])))
        return ParseLib.op(s, name, args, e, ftype)
    def int_bin(s, op, x, y, t):
        if op in ('^', '&', '|', '<<', '>>') and not (isinstance(x, (int, bool)) and isinstance(y, (int, bool))) and not isinstance(x, z3.BoolRef) and not isinstance(y, z3.BoolRef):
            s.ctx.st.facts['weak'] = True; r = s.ctx.fresh(I_, 'bits')
            if 'unsigned' in t or t in ('size_t', 'std::size_t', 'uint64_t'): s.ctx.assume(And(r >= 0, r < 1 << 64))
            return r
        return ParseLib.int_bin(s, op, x, y, t)
    def char_set(s, f):
        """the characters for which the predicate is true"""
        n0 = len(s.ctx.obs); out = set()
        for c in CHARS:
            r = s.I.truth(s.I.get(s.I.call_value(f, [Cell(c)])))
            if not isinstance(r, bool): raise Unsupported('predicate over characters')
            if r: out.add(c)
        return frozenset(out)
    def all_in(s, st, lo, hi):
        """the characters lo .. hi-1 are all members"""
        env = s.env; lo, hi = z3.simplify(Z(lo)), z3.simplify(Z(hi))
        sets = s.ctx.known_sub.setdefault('charsets', [DIGITS, frozenset(CHARS) - DIGITS, DIGDOT, DIGITS | LETTERS])
        if st not in sets: sets.append(st)
        if sets.index(st) > 3: s.ctx.st.facts['weak'] = True
        fs = [z3.Function('all_in_%d' % i, I_, I_, B) for i in range(len(sets))]
        for i, a in enumerate(sets):
            s.ctx.assume(Implies(hi <= lo, fs[i](lo, hi)))
            s.ctx.assume(Implies(And(lo < hi, fs[i](lo, hi)), And(member(CH(lo), a), member(CH(hi - 1), a))))
            for j, b in enumerate(sets):
                if i != j and a < b: s.ctx.assume(Implies(fs[i](lo, hi), fs[j](lo, hi)))
        return fs[sets.index(st)](lo, hi)
    def text_range(s, args):
        a, b = s.I.get(args[0]), s.I.get(args[1])
        if not (isinstance(a, CPtr) and isinstance(a.base, Text)): return None
        if not (isinstance(b, CPtr) and b.base is a.base): raise Unsupported('range over two texts')
        s.ctx.oblige('reads-inside-the-text', And(0 <= Z(a.off), Z(a.off) <= Z(b.off), Z(b.off) <= s.env.n))
        return a.off, b.off
    def f_all_of(s, args, e):
        r = s.text_range(args)
        return ParseLib.f_all_of(s, args, e) if r is None else s.all_in(s.char_set(args[2]), *r)
    def f_any_of(s, args, e):
        r = s.text_range(args)
        return ParseLib.f_any_of(s, args, e) if r is None else Not(s.all_in(frozenset(CHARS) - s.char_set(args[2]), *r))
    def f_none_of(s, args, e):
        r = s.text_range(args)
        return ParseLib.f_none_of(s, args, e) if r is None else s.all_in(frozenset(CHARS) - s.char_set(args[2]), *r)
    def f_equal(s, args, e):
        v = [s.I.get(a) for a in args]
        if len(v) != 4: raise Unsupported('std::equal')
        def side(a, b):
            if not (isinstance(a, CPtr) and isinstance(b, CPtr) and a.base is b.base): raise Unsupported('std::equal')
            return s.str_range(a, b).v
        x, y = side(v[0], v[1]), side(v[2], v[3])
        return x == y if isinstance(x, str) and isinstance(y, str) else conv_str(x) == conv_str(y)
    def f_stod(s, args, e):
        """std::stod: the value of the longest numeric prefix and its length; throws if there is none or it is out of range"""
        I = s.I; r = s.rng(args[0])
        if r is None or len(args) not in (1, 2): raise Unsupported('std::stod')
        lo, hi = r
        s.ctx.assume(And(STN(lo, hi) >= 0, STN(lo, hi) <= hi - lo, Implies(Not(STT(lo, hi)), STN(lo, hi) >= 1)))
        if s.ctx.decide(STT(lo, hi)): raise CppThrow(None, 'invalid_argument')
        if len(args) == 2:
            x = strip_casts(e['inner'][2])
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                c = I.ev(x['inner'][0], I.frames[-1])
                if not isinstance(c, Cell): raise Unsupported('std::stod')
                I.assign(c, STN(lo, hi))
            elif args[1] is not None: raise Unsupported('std::stod')
        return STV(lo, hi)
    def f_isspace(s, args, e): return member(Z(s.I.get(args[0])), SPACES)
    def f_isdigit(s, args, e): return member(Z(s.I.get(args[0])), DIGITS)
    def f_isalpha(s, args, e): return member(Z(s.I.get(args[0])), LETTERS - {95})
    def f_isalnum(s, args, e): return member(Z(s.I.get(args[0])), (LETTERS | DIGITS) - {95})

class Tables(dict):
    """contracts; a function of characters, booleans and enumerators only is tabulated by executing its body for every value"""
    def __init__(s, env): s.env = env
    def get(s, q, default=None):
        c = dict.get(s, q)
        return c if c is not None else s.env.tabulate if not s.env.busy else default

class TokList:
    """the token list that is built: cnt tokens so far; lty, lop: type and operator of the last one; E.end: where it ends"""
    def __init__(s, env): s.env = env; s.frozen = None; s.obj = None; env.add(s)
    def method(s, I, n, args, e):
        E = s.env; ctx = E.ctx
        if n == 'empty': return E.cnt == 0
        if n == 'size': return E.cnt
        if n in ('emplace_back', 'push_back'):
            if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == 'Token':
                o = args[0]; t = Obj('Token', dict(o.f)); u = o.f['node']; nu = UP(None, ctx.time); E.lib.up_take(nu, u); t.f['node'] = nu
            else: t = E.lib.construct_by_args(I.rec_by_name['Token'], 'Token', args)
            E.append(t); return t if n == 'emplace_back' else None
        if n == 'back':
            ctx.oblige('back-of-a-nonempty-list', E.cnt > 0)
            if s.obj is None: E.last_token()
            return s.obj[0]
        raise Unsupported('token list: ' + n)
    def copy_value(s, I): return s
    def move_value(s, I): return s

class TEnv(PEnv):
    def __init__(s, tu, ctx):
        s.tu, s.ctx = tu, ctx; s.busy = 0
        s.lib = TokLib(tu); s.lib.env = s
        s.I = Interp(tu, ctx, RealDom(), s.lib); s.ops = s.lib.ops
        s.I.contracts = Tables(s)
        s.rule = LoopInv(s); s.I.loop_hooks.append(s.rule.hook); s.I.loop_hooks.insert(0, s.char_loop)
        ctx.machine = s.I
        s.I.contracts[NS + 'SingleParseError::SingleParseError'] = s.c_error
        s.lib.kinds = {('deque', 'Token'): lambda: TokList(s), ('vector', 'Token'): lambda: TokList(s)}
        s.lib.hooks = {TokList}
        s.text = Text(s)
        s.n = z3.Const('length', I_); ctx.assume_global(s.n >= 0)
        s.E = z3.IntVal(0); s.cnt = z3.IntVal(0); s.lty = z3.IntVal(-1); s.lop = s.ops.NULL; s.pend = None; s.lst = None; s.bad = None
        s.codes = {lit: s.ops.v[k] for lit, k in FUNCTIONS.items()}
    def char_loop(s, I, st, fr, kind, *rest):
        """for (char c : part of the text) body, where the body has no side effect: executed for every character; the characters it goes on after are a set"""
        if kind != 'range': return False
        rng, loopvar, body = rest; r = s.lib.rng(I.get(rng))
        if r is None: return False
        lo, hi = r; go = set(); outs = {}
        def snap(): return {k: s.rule.snap(c) for k, c in s.rule.cells(fr).items()}, {k: getattr(s, k) for k in ('E', 'cnt', 'lty', 'lop', 'pend')}, s.lst and s.lst.obj
        before = snap(); env = set(fr.env)
        for c in CHARS:
            x = Cell(c, s.ctx.time); I.bind_loopvar(loopvar, x, fr)
            try: I.scoped(body, fr); go.add(c)
            except ContinueEx: go.add(c)
            except BreakEx: outs.setdefault(('break',), set()).add(c)
            except ReturnEx as e:
                v = I.get(e.v)
                if v is not None and not isinstance(v, (bool, int)): raise Unsupported('loop over characters returns a value')
                outs.setdefault(('return', type(v), v), set()).add(c)
            except CppThrow: raise Unsupported('exception in a loop over characters')
            if x.v != c: raise Unsupported('loop over characters changes the text')
            for k in set(fr.env) - env: del fr.env[k]
            now = snap()
            if now[0].keys() != before[0].keys() or not all(s.rule.same(now[0][k], v) or now[0][k] == v if isinstance(v, (tuple, list)) else s.rule.same(now[0][k], v) for k, v in before[0].items()) or any(now[1][k] is not v for k, v in before[1].items()) or now[2] is not before[2]:
                raise Unsupported('side effect in a loop over characters')
        if not outs: return True
        if s.ctx.decide(s.lib.all_in(frozenset(go), lo, hi)): return True
        if len(outs) != 1: raise Unsupported('loop over characters ends in several ways')
        o, = outs
        if o[0] == 'return': raise ReturnEx(o[2])
        return True
    # functions of finite domain
    def tabulate(s, I, this, args, d):
        ps = params_of(d)
        if this is not None or not ps or body_of(d) is None: return NotImplemented
        ts = [strip(ty(p)) for p in ps]; vs = [a.v if isinstance(a, Cell) else a for a in args]
        if len(vs) != len(ts): return NotImplemented
        if ts == ['tomsolver::internal::StringView'] or ts == ['StringView'] or (len(ts) == 1 and head(ts[0]) == 'StringView'): return s.by_name(I, d, vs[0])
        if strip((d.get('type') or {}).get('qualType', '').split('(')[0]) == 'bool' and all(t.endswith('*') or head(t) in ('basic_string', 'string') and not is_lref(ty(p)) for t, p in zip(ts, ps)): return s.merged(I, d, args)
        dom = []
        for t, v in zip(ts, vs):
            if not isinstance(v, z3.ExprRef): dom.append([v]); continue
            if t == 'char': dom.append(CHARS)
            elif t == 'bool': dom.append([False, True])
            elif s.I.is_enum(t) and head(t) == 'MathOperator': dom.append(sorted(set(s.ops.v.values())))
            else: return NotImplemented
        if not any(isinstance(v, z3.ExprRef) for v in vs) or any(not isinstance(v, (int, bool, z3.ExprRef)) for v in vs): return NotImplemented
        import itertools
        key = ('table', d['id'], tuple('*' if isinstance(v, z3.ExprRef) else v for v in vs))
        tab = s.ctx.known_sub.get(key)
        if tab is None:
            tab = {}
            for x in itertools.product(*dom):
                n0 = len(s.ctx.obs); saved = s.ctx.st; s.ctx.st = type(saved)(s.ctx, (), [], None); s.ctx.st.xid = -1
                try: r = s.I.get(I.call_function(d, None, list(x)))
                except (Kill, CppThrow): r = None
                finally: s.ctx.st = saved
                bad = [o for o in s.ctx.obs[n0:] if o.status != 'proved']; del s.ctx.obs[n0:]
                if r is not None and not isinstance(r, (int, bool)): return NotImplemented
                tab[x] = None if bad else r
            s.ctx.known_sub[key] = tab
        sym = [i for i, v in enumerate(vs) if isinstance(v, z3.ExprRef)]
        def cond(xs):
            """xs: the argument tuples"""
            if len(sym) == 1: return member(vs[sym[0]], {x[sym[0]] for x in xs}) if not isinstance(vs[sym[0]], z3.BoolRef) else Or(*[vs[sym[0]] == x[sym[0]] for x in xs])
            out = []
            for k in {x[sym[-1]] for x in xs}:
                sub = [x for x in xs if x[sym[-1]] == k]
                if len(sym) > 2: raise Unsupported('function of three characters')
                out.append(And(vs[sym[-1]] == k, member(vs[sym[0]], {x[sym[0]] for x in sub}) if not isinstance(vs[sym[0]], z3.BoolRef) else Or(*[vs[sym[0]] == x[sym[0]] for x in sub])))
            return Or(*out)
        groups = {}
        for x, r in tab.items(): groups.setdefault((type(r), r), []).append(x)
        undefined = groups.pop((type(None), None), None)
        if undefined: s.ctx.oblige('precondition:' + d['name'], Not(cond(undefined)))
        if not groups: raise Unsupported('table of ' + d['name'])
        gs = sorted(groups.items(), key=lambda kv: -len(kv[1]))
        out = Z(gs[0][0][1])
        for (_, r), xs in gs[1:]: out = If(cond(xs), Z(r), out)
        return out
    def merged(s, I, d, args):
        """a function from strings to bool: all its paths are explored and joined"""
        ctx = s.ctx; outer = ctx.st
        key = ('merged', d['id'], outer.xid, tuple(outer.taken), outer.h)
        got = ctx.known_sub.get(key)
        if got is None:
            base = list(outer.asserted); res = []
            E0 = {k: getattr(s, k) for k in ('E', 'cnt', 'lty', 'lop', 'pend')}; lst = s.lst and s.lst.obj
            def run():
                st = ctx.st
                for c in base: st.add(c)
                st.facts.update(outer.facts); n = len(st.asserted)
                s.busy += 1
                try: r = I.truth(I.get(I.call_function(d, None, args)))
                except CppThrow: raise Unsupported('exception in ' + d['name'])
                finally: s.busy -= 1
                if any(getattr(s, k) is not v for k, v in E0.items()) or (s.lst and s.lst.obj) is not lst: raise Unsupported('side effect in ' + d['name'])
                dec = [c if k else Not(c) for c, k in st.log]; keys = {c.hash() for c in dec}
                if st.facts.get('weak'): outer.facts['weak'] = True
                res.append((And(*dec), [c for c in st.asserted[n:] if c.hash() not in keys], Z(r)))
            ctx.explore(run)
            got = ctx.known_sub[key] = res
        for dec, facts, r in got:
            for f in facts: ctx.assume(Implies(dec, f))
        return z3.simplify(Or(*[And(dec, r) for dec, facts, r in got]))
    def by_name(s, I, d, v):
        """a function of a name: executed for every function name and once for any other text"""
        r = s.lib.rng(v)
        if r is None: return NotImplemented
        nm = NAME(*r); key = ('names', d['id']); tab = s.ctx.known_sub.get(key)
        if tab is None:
            tab = {}
            for lit in FUNCTIONS:
                n0 = len(s.ctx.obs)
                try: x = I.get(I.call_function(d, None, [Obj('StringView', {'str': Cell(CPtr(Str(lit), 0)), 'len': Cell(len(lit))})]))
                except Kill: x = None
                bad = [o for o in s.ctx.obs[n0:] if o.status != 'proved']; del s.ctx.obs[n0:]
                tab[lit] = None if bad or not isinstance(x, (int, bool)) else x
            s.ctx.known_sub[key] = tab
        if any(x is None for x in tab.values()): return NotImplemented
        s.distinct()
        if s.ctx.decide(Or(*[nm == conv_str(l) for l in FUNCTIONS])):
            ls = list(tab); out = Z(tab[ls[0]])
            for l in ls[1:]: out = If(nm == conv_str(l), Z(tab[l]), out)
            return out
        s.busy += 1
        try: return I.call_function(d, None, [v])
        finally: s.busy -= 1
    def distinct(s):
        s.ctx.assume(z3.Distinct(*[conv_str(l) for l in FUNCTIONS]))
    # the lexical specification
    def bop(s, k): return member(CH(k), BASIC)
    def space(s, k): return member(CH(k), SPACES)
    def expsign(s, a, k):
        """the sign at k belongs to the exponent of the number that starts at a: 1.5e-3"""
        lib = s.lib
        return And(member(CH(k), {43, 45}), k + 1 < s.n, member(CH(k + 1), DIGITS), k - a >= 2, member(CH(k - 1), {101, 69}),
                   Not(lib.all_in(frozenset(CHARS) - DIGITS, a, k - 1)), lib.all_in(DIGDOT, a, k - 1))
    def wordchar(s, a, k): return And(Not(s.space(k)), Or(Not(s.bop(k)), s.expsign(a, k)))
    def unfold(s, a, k):
        a, k = z3.simplify(Z(a)), z3.simplify(Z(k))
        s.ctx.assume(Implies(a <= k, And(WORD(a, k + 1) == And(Implies(a < k, WORD(a, k)), s.wordchar(a, k)), SPC(a, k + 1) == And(Implies(a < k, SPC(a, k)), s.space(k)))))
        s.ctx.assume(And(CH(k) >= -128, CH(k) <= 127, CH(k + 1) >= -128, CH(k + 1) <= 127))
    def spc(s, a, b): return And(a <= b, Implies(a < b, SPC(a, b)))
    def word(s, a, b): return And(a <= b, Implies(a < b, And(WORD(a, b), s.wordchar(a, a))))
    def maximal(s, a, b): return Or(b == s.n, Not(s.wordchar(a, b)))
    def fcode(s, a, b):
        nm = NAME(a, b); out = Z(s.ops.NULL)
        for l, c in s.codes.items(): out = If(nm == conv_str(l), Z(c), out)
        return out
    def isnum(s, a, b): return And(Not(STT(a, b)), STN(a, b) == b - a)
    def legal(s, a, b): return And(a < b, Not(member(CH(a), DIGITS)), s.lib.all_in(DIGITS | LETTERS, a, b))
    # ghost steps
    def add(s, x):
        if s.lst is not None: raise Unsupported('two token lists')
        s.lst = x
    def append(s, t):
        s.seal(); ctx = s.ctx
        r = s.lib.rng(t.f['s'])
        if r is None: raise Unsupported('token of unknown text')
        a, b = r
        ctx.oblige('token-inside-the-text', And(s.E <= a, a < b, b <= s.n))
        ctx.oblige('only-whitespace-between-tokens', s.spc(s.E, a))
        ctx.oblige('token-position', Z(s.I.get(t.f['pos'])) == a)
        isop = s.bop(a); s.distinct()
        ctx.oblige('operator-tokens-are-single-characters', Implies(isop, b == a + 1))
        s.unfold(a, a)
        ctx.oblige('whole-words', Implies(Not(isop), And(s.word(a, b), s.maximal(a, b))))
        unary = Or(s.cnt == 0, And(s.lty == s.ops.OP, s.lop != s.lib.RPAR))
        o = s.ops.v; c = CH(a)
        code = Z(o['MOD'])
        for ch, x in (('(', s.lib.LPAR), (')', s.lib.RPAR), ('+', If(unary, o['POSITIVE'], o['ADD'])), ('-', If(unary, o['NEGATIVE'], o['SUB'])), ('*', o['MULTIPLY']), ('/', o['DIVIDE']), ('^', o['POWER']), ('&', o['AND']), ('|', o['OR'])):
            code = If(c == ord(ch), x, code)
        s.E = b; s.cnt = z3.simplify(s.cnt + 1)
        s.pend = (t, a, b, code); s.lst.obj = (t, None)
    def expected(s, a, b, code):
        o = s.ops; f = s.fcode(a, b)
        lf = lambda ty_, op, v, nm: T.node(ty_, op, v, nm, NIL, NIL)
        return If(s.bop(a), lf(o.OP, code, 0, EMPTY), If(s.isnum(a, b), lf(o.NUM, o.NULL, STV(a, b), EMPTY), If(f != o.NULL, lf(o.OP, f, 0, EMPTY), lf(o.VAR, o.NULL, 0, NAME(a, b)))))
    def seal(s):
        """the last token is complete"""
        ctx = s.ctx
        if s.lst is None or s.lst.obj is None: return
        tok = s.lst.obj[0]; u = tok.f['node']
        if not s.lib.up_bool(u): ctx.fail('token-without-node')
        n = s.lib.canonical(u.p)
        if not isinstance(n, Obj): raise Unsupported('token node')
        t = s.lib.tree(u)
        pv = n.f[s.lib.m['parent']].v
        ctx.oblige('token-node-has-no-parent', s.lib.same_obj(pv, None) if pv is not None else True)
        if s.pend is not None:
            _, a, b, code = s.pend
            ctx.oblige('token-is-what-is-written', t == s.expected(a, b, code))
            ctx.oblige('bad-names-are-rejected', Implies(And(Not(s.bop(a)), Not(s.isnum(a, b)), s.fcode(a, b) == s.ops.NULL), s.legal(a, b)))
            t = z3.simplify(t); s.lib.unfold(t); s.lty, s.lop = z3.simplify(T.ty(t)), z3.simplify(T.op(t)); s.pend = None
        else: ctx.oblige('finished-token-unchanged', t == s.lst.obj[1])
        s.lst.obj = (tok, t)
    def last_token(s):
        t = T.node(s.lty, s.lop, s.ctx.fresh(R_, 'lastvalue'), s.ctx.fresh(N, 'lastname'), NIL, NIL)
        s.ctx.assume(s.lib.token_facts(T.ty(t), T.op(t), T.val(t), T.nm(t)))       # every finished token is one of the expected ones
        tok = s.lib.token(None, t, 'last'); s.lst.obj = (tok, t); return tok
    def badword(s, a, b): return And(0 <= a, a < b, b <= s.n, Not(s.bop(a)), s.word(a, b), s.maximal(a, b), Not(s.isnum(a, b)), s.fcode(a, b) == s.ops.NULL, Not(s.legal(a, b)))
    def c_error(s, I, this, args, d):
        PEnv.c_error(s, I, this, args, d)
        s.distinct()
        c = [s.n == 0]; pos = Z(I.get(args[1]))
        if s.pend is not None:
            s.unfold(s.pend[1], s.pend[1]); c.append(And(s.badword(s.pend[1], s.pend[2]), pos == s.pend[1]))
        s.bad = Or(*c)
        return None
    # loops
    def at_head(s, key): s.seal()
    def invariant(s, name, check):
        f = And(s.cnt >= 0, s.E >= 0, s.E <= s.n, Implies(s.cnt > 0, s.lib.token_facts(s.lty, s.lop, z3.RealVal(0), EMPTY)))
        if check: s.ctx.oblige('tokens-in-range:' + name, f)
        else: s.ctx.assume(f)
    def ghost(s): return {k: z3.simplify(Z(getattr(s, k))) for k in ('E', 'cnt', 'lty', 'lop')}
    def havoc(s, name): setattr(s, name, s.ctx.fresh(I_, name))
    def ptrs(s, cells): return {k: c.v.off for k, c in cells.items() if isinstance(c, Cell) and isinstance(c.v, CPtr) and isinstance(c.v.base, Text)}
    def after_havoc(s, cells):
        if s.lst is not None: s.lst.obj = None
        s.pend = None
        ps = s.ptrs(cells)
        offs = list({z3.simplify(Z(o)).sexpr(): z3.simplify(Z(o)) for o in ps.values()}.values())
        for a in offs + [s.E]:
            for k in offs: s.unfold(a, k)
        for a in offs: s.unfold(a + 1, a + 1)
    def candidates(s, key, cells):
        out = []; ps = {k: Z(v) for k, v in s.ptrs(cells).items()}
        for k, o in ps.items():
            out += [(k + ' in range', And(o >= 0, o <= s.n)), (k + ' after the last token', s.E <= o), ('whitespace up to ' + k, s.spc(s.E, o)), (k + ' at the end', o == s.n)]
            for k2, o2 in ps.items():
                if k2 != k: out += [('%s<=%s' % (k, k2), o <= o2), ('word from %s to %s' % (k, k2), s.word(o, o2)), ('whitespace from %s to %s' % (k, k2), s.spc(o, o2))]
        return out
    def range_loop(s, rule, I, node, fr, rng, var, body):
        """for (char c : text)"""
        if not (isinstance(rng, Obj) and rng.cls == 'StringView'): return False
        p = rng.f['str'].v
        if isinstance(p.base, Text):
            lo, hi = s.lib.rng(rng); s.k = Cell(lo)
            fr.env['range:' + node['id']] = Cell(CPtr(s.text, lo)); c = fr.env['range:' + node['id']]
            def once(): I.bind_loopvar(var, s.lib.char_at(c.v), fr); I.scoped(body, fr)
            def inc(): c.v = CPtr(s.text, z3.simplify(Z(c.v.off) + 1))
            rule.run(I, node, fr, lambda: Z(c.v.off) < hi, once, inc); return True
        for i in range(I.get(rng.f['len'])):
            I.bind_loopvar(var, s.lib.char_at(CPtr(p.base, p.off + i)), fr)
            try: I.scoped(body, fr)
            except ContinueEx: continue
            except BreakEx: break
        return True
    def view(s, lo, hi): return Obj('StringView', {'str': Cell(CPtr(s.text, lo)), 'len': Cell(z3.simplify(hi - lo))})

def t_tokens(tu, ctx):
    """ParseToTokens: for every text, the tokens written in it in order, or a SingleParseError, and then the text is empty or has a bad name"""
    E = TEnv(tu, ctx); lib = E.lib
    f = E.fn('ParseFunctions::ParseToTokens', 1)
    try:
        r = E.I.call_function(f, None, [E.view(z3.IntVal(0), E.n)])
    except CppThrow as e:
        ctx.oblige('only-parse-errors-are-thrown', E.I.derives(e.tname, 'ParseError'), e.tname)
        ctx.oblige('only-malformed-input-is-rejected', E.bad if E.bad is not None else False)
        raise Kill()
    if not isinstance(r, TokList): raise Unsupported('result of ParseToTokens')
    E.seal()
    E.unfold(E.E, E.E)
    ctx.oblige('whole-text-is-read', E.spc(E.E, E.n))

# ---------------------------------------------------------------- Parse
class Product:
    """what one stage hands to the next"""
    def __init__(s, stage): s.stage = stage; s.used = False; s.frozen = None
    def copy_value(s, I): raise Unsupported('copy of the ' + s.stage)
    def move_value(s, I): return s
def t_parse(tu, ctx):
    """Parse: the three stages in order on the whole text; their errors pass, nothing else is thrown"""
    E = TEnv(tu, ctx); lib = E.lib; I = E.I
    lib.hooks = {Product}
    PF_ = NS + PF
    made = []
    def stage(name, inp, out):
        def c(I, this, args, d):
            a = args[0]
            if isinstance(a, Cell): a = a.v
            if inp is None:
                r = lib.rng(a)
                if r is None: raise Unsupported('text handed to ' + name)
                ctx.oblige('whole-text-is-parsed', And(r[0] == 0, r[1] == E.n))
            else:
                if not isinstance(a, Product): raise Unsupported('argument of ' + name)
                ctx.oblige('stages-in-order', a.stage == inp and not a.used, name); a.used = True
            if ctx.decide(z3.Const('throws_' + name, B)): raise CppThrow(None, 'MultiParseError' if out is None else 'SingleParseError')
            if out is not None: return Product(out)
            t = z3.Const('parsed', T); ctx.assume(And(WF(t), Not(T.is_nil(t)))); made.append(t)
            return lib.node_up(t, None, False, 'fresh')
        return c
    I.contracts[PF_ + 'ParseToTokens'] = stage('ParseToTokens', None, 'tokens')
    I.contracts[PF_ + 'InOrderToPostOrder'] = stage('InOrderToPostOrder', 'tokens', 'post order list')
    I.contracts[PF_ + 'BuildExpressionTree'] = stage('BuildExpressionTree', 'post order list', None)
    f = E.fn('Parse', 1)
    try: r = I.call_function(f, None, [E.view(z3.IntVal(0), E.n)])
    except CppThrow as e:
        ctx.oblige('only-parse-errors-are-thrown', I.derives(e.tname, 'ParseError'), e.tname)
        ctx.oblige('only-malformed-input-is-rejected', Or(*[z3.Const('throws_' + n, B) for n in ('ParseToTokens', 'InOrderToPostOrder', 'BuildExpressionTree')]))
        raise Kill()
    ctx.oblige('every-stage-was-passed', len(made) == 1)
    if not isinstance(r, UP) or not lib.up_bool(r): ctx.fail('null-result')
    ctx.oblige('the-parsed-tree-is-returned', lib.tree(r) == made[0])
    lib.check_links(r, None, 'result')

def PARSE(): return {'InOrderToPostOrder': t_iotp, 'BuildExpressionTree': t_build, 'ParseToTokens': t_tokens, 'Parse': t_parse}
