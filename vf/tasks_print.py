"""The printer (C11): what ToString writes for an expression tree of any shape is a printed form of it, and every printed form has a well-grouped
parse with the same value.

Printed forms.  forms(t, c) of a tree t in the place c (operand of which operator, on which side), as token lists:
    number, variable     its text
    unary operator       op ( f )  with f in forms(operand);  + and - also  op f  if the operand is no binary operator
    binary operator      fl op fr  with fl, fr in forms of the operands, if fitting(c, op) (no parentheses are needed here)
    any                  ( f )     with f printed without a place
The code is free to print any of these: parentheses that are not needed are allowed, missing ones are not."""
import z3
from .core import *
from .dom import RealDom
from .extract import params_of, body_of
from .interp import Interp, Frame, ty, strip, head, targs, is_ref
from .stl import N, EMPTY, conv_str
from .tree import *
from .tspecs import *
from .tasks_tree import Env, NS, drop, tree_contracts
from .theory import R_
I_, B = z3.IntSort(), z3.BoolSort()
And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies

OPTXT = z3.Function('operator_text', I_, N)
NUMTXT = z3.Function('number_text', z3.RealSort(), N)
CAT = z3.Function('concat', N, N, N)
SPELL = dict(POSITIVE='+', NEGATIVE='-', SIN='sin', COS='cos', TAN='tan', ARCSIN='asin', ARCCOS='acos', ARCTAN='atan', SQRT='sqrt', LOG='log', LOG2='log2', LOG10='log10',
             EXP='exp', ADD='+', SUB='-', MULTIPLY='*', DIVIDE='/', POWER='^', AND='&', OR='|', MOD='%', LEFT_PARENTHESIS='(', RIGHT_PARENTHESIS=')')
RANKS = ((('ADD', 'SUB'), 1), (('MULTIPLY', 'DIVIDE'), 2), (('POWER',), 3), (('AND', 'OR'), 4), (('MOD',), 5))
INF = 1000
class Table:
    """the operator table of the grammar (the one of C09/C10)"""
    def __init__(s, ops): s.ops = ops
    def rank(s, op):
        r = z3.IntVal(INF)
        for ns, k in RANKS: r = If(Or(*[op == s.ops.v[n] for n in ns]), z3.IntVal(k), r)
        return r
    def one(s, op, *ns): return Or(*[op == s.ops.v[n] for n in ns])
    def okleft(s, op, r): return If(op == s.ops.v['POWER'], r > s.rank(op), r >= s.rank(op))
    def okright(s, op, r): return If(op == s.ops.v['POWER'], r >= s.rank(op), r > s.rank(op))
    def regroup(s, p, op): return Or(And(s.one(p, 'ADD'), s.one(op, 'ADD', 'SUB')), And(s.one(p, 'MULTIPLY'), s.one(op, 'MULTIPLY', 'DIVIDE')))
    def fitting(s, c, op):
        """a binary operator op in the place c = (operator above or None, side) needs no parentheses (below a unary operator they belong to that operator)"""
        p, side = c
        if p is None: return z3.BoolVal(True)
        f = s.okleft(p, s.rank(op)) if side == 'l' else Or(s.okright(p, s.rank(op)), s.regroup(p, op))
        return Or(s.ops.un(p), f)

def lex(txt):
    """the tokens of a literal piece of output"""
    out = []; i = 0; names = sorted({t for t in SPELL.values() if t.isalpha() or t.isalnum()}, key=len, reverse=True)
    while i < len(txt):
        for n in names:
            if txt.startswith(n, i): out.append(('lit', n)); i += len(n); break
        else:
            if txt[i] not in '+-*/^&|%()': return [('text', txt)]
            out.append(('lit', txt[i])); i += 1
    return out

class Close:
    """what a finished descent has left on the stack"""
    def __init__(s, n): s.n = n

class PrLib(TreeLib):
    def __init__(s, tu): TreeLib.__init__(s, tu); s.texts = {}; s.tab = Table(s.ops)
    def str_concat(s, args):
        vs = [s.str_any(x) for x in args]
        if all(isinstance(v, str) for v in vs): return Str(''.join(vs))
        v = conv_str(vs[0])
        for w in vs[1:]: v = CAT(v, conv_str(w))
        return Str(v)
    def stream_str(s, o):
        if all(isinstance(p, str) for p in o.parts): return ''.join(o.parts)
        v = s.ctx.fresh(N, 'printed'); s.texts[v.get_id()] = (v, list(o.parts)); return v
    def place(s, n):
        """(operator above or None, side) of a node"""
        n = s.canonical(n)
        p = n.parent if isinstance(n, Lazy) else n.f[s.m['parent']].v
        if p is None: return (None, '')
        p = s.canonical(p); o = n.owner
        if not isinstance(p, Obj) or o is None: raise Unsupported('node without a place')
        side = 'l' if p.f[s.m['l']] is o else 'r' if p.f[s.m['r']] is o else None
        if side is None: raise Unsupported('node without a place')
        return (p.f[s.m['op']].v, side)
    def pieces(s, x):
        """the tokens (and printed trees) of one piece of output"""
        if isinstance(x, tuple): return [x]
        if isinstance(x, str): return lex(x)
        if x.get_id() in s.texts: return [y for p in s.texts[x.get_id()][1] for y in s.pieces(p)]
        d = x.decl()
        if d.eq(CAT): return s.pieces(x.arg(0)) + s.pieces(x.arg(1))
        if d.eq(OPTXT): return [('op', x.arg(0))]
        if d.eq(NUMTXT): return [('num', x.arg(0))]
        if d.name().startswith('lit_') and d.arity() == 0: return lex(d.name()[4:])
        return [('name', x)]
    # ---- is a list of pieces a printed form?
    def lits(s, op, txt): return Or(*[op == s.ops.v[n] for n, t in SPELL.items() if t == txt and n in s.ops.v])
    def printed(s, name, target, actual):
        """obligation: the pieces are a form of the target items"""
        actual = [y for x in actual for y in s.pieces(x)]
        s.budget = 4000
        alts = s.match(list(target), actual)
        first = None
        for conds in alts:
            if first is None: first = conds
            if all(s.ctx.entails(c) for n, c in conds): first = conds; break
        if first is None: s.ctx.oblige(name + ':prints-the-expression', False, ' '.join(map(s.show, actual))); return
        done = set()
        for n, c in first:
            s.ctx.oblige(name + ':' + n, c); done.add(n)
        if not done: s.ctx.oblige(name + ':prints-the-expression', True)
    def show(s, a): return a[0] if a[0] in ('tree', 'open', 'rp') else str(a[1])
    def isop(s, t): return s.ctx.decide(proj('ty', t) == s.ops.OP)
    def match(s, target, actual):
        """alternatives: lists of (name, condition)"""
        s.budget -= 1
        if s.budget < 0: raise Unsupported('printed form')
        if not target: 
            if not actual: yield []
            return
        if len(target) > len(actual): return         # every item of the target takes at least one piece
        h, a = target[0], actual[0]
        if a[0] == 'open': return
        if h[0] == 'lit':
            if a[0] == 'lit' and a[1] == h[1]: yield from s.match(target[1:], actual[1:])
            elif a[0] == 'rp' and h[1] == ')': yield from s.match(target[1:], actual[1:])
            return
        if h[0] == 'op':
            if a[0] == 'op': c = a[1] == h[1]
            elif a[0] == 'lit' and a[1] not in '()': c = s.lits(h[1], a[1])
            else: return
            for r in s.match(target[1:], actual[1:]): yield [('operator-text', c)] + r
            return
        if h[0] in ('num', 'name'):
            if a[0] == h[0]:
                for r in s.match(target[1:], actual[1:]): yield [(h[0] == 'num' and 'number-text' or 'name-text', a[1] == h[1])] + r
            return
        _, t, c, prot = h
        if a[0] == 'tree':
            if a[2][1] == c[1] or c[1] == '' or prot:
                cs = [('operand-order', a[1] == t)]
                if not prot and c[0] is not None: cs.append(('place', a[2][0] == c[0]) if a[2][0] is not None else ('place', z3.BoolVal(False)))
                if a[1].eq(t) or s.ctx.entails(a[1] == t):
                    for r in s.match(target[1:], actual[1:]): yield cs + r
        if a[0] == 'lit' and a[1] == '(':
            yield from s.match([('tree', t, (None, ''), True), ('lit', ')')] + target[1:], actual[1:])
            if a[0] != 'tree' and s.nonbinary_now(t): return
        if a[0] == 'node':
            if a[1].eq(t) and not s.ctx.entails(proj('ty', t) == s.ops.OP) and s.ctx.entails(proj('ty', t) != s.ops.OP): 
                yield from s.match(target[1:], actual[1:]); return
        s.unfold(t)
        if not s.isop(t):
            if s.ctx.decide(proj('ty', t) == s.ops.NUM): x = ('num', NUMTXT(proj('val', t)).arg(0))
            else: x = ('name', proj('nm', t))
            yield from s.match([x] + target[1:], actual); return
        op = proj('op', t)
        if s.ctx.decide(s.ops.un(op)):
            l = proj('l', t); sub = lambda p: ('tree', l, (None, '') if p else (op, 'l'), p)
            if not s.ctx.decide(s.tab.one(op, 'POSITIVE', 'NEGATIVE')):
                yield from s.match([('op', op), ('lit', '('), sub(True), ('lit', ')')] + target[1:], actual)
            else:
                yield from s.match([('op', op), ('lit', '('), sub(True), ('lit', ')')] + target[1:], actual)
                for r in s.match([('op', op), sub(False)] + target[1:], actual):
                    yield [('operand-of-sign-needs-parentheses', Or(proj('ty', l) != s.ops.OP, s.ops.un(proj('op', l))))] + r
            return
        cs = [] if prot else [('parentheses-where-the-meaning-needs-them', s.tab.fitting(c, op))]
        l, r_ = proj('l', t), proj('r', t)
        for r in s.match([('tree', l, (op, 'l'), False), ('op', op), ('tree', r_, (op, 'r'), False)] + target[1:], s.expand_nodes(actual)): yield cs + r
    def nonbinary_now(s, t): return s.ctx.entails(proj('ty', t) != s.ops.OP)
    def expand_nodes(s, actual): return actual
    def item(s, n):
        """what a node on the stack stands for"""
        n = s.canonical(n)
        if isinstance(n, Obj) and n.f.get(s.m['op']) is not None:
            v = n.f[s.m['op']].v
            if isinstance(v, int) and v == s.ops.v['RIGHT_PARENTHESIS'] or isinstance(v, z3.ExprRef) and z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == s.ops.v['RIGHT_PARENTHESIS']: return [('rp',)]
        t = s.tree(n); s.unfold(t)
        if not s.isop(t): return [('tree', t, s.place(n), False)]
        op = proj('op', t)
        return [('op', op), ('tree', proj('r', t), (op, 'r'), False)]

def generic_node(lib, label, region='in'):
    """a node of any tree in any place"""
    t = lib.fresh_tree('w'); z = lib.lazy(t, None, False, region)
    slot = UP(None); slot.set(z)
    w = Worklist(lib); w.region = region; w.slot = slot
    if label != 'root':
        P = w.opaque_parent(lib.I, z, label); z.parent = P
    n = lib.materialise(z); n.keep = slot
    return t, n, slot

class PrintSpec(Worklist):
    """while (!stack.empty()): what is left to print is what the stack holds, top first"""
    name = 'print.loop'
    def variants(s, items): return [(k, None) for k in ('left', 'right', 'root', 'parenthesis')]
    def stream(s, fr):
        q = s.lib.reach(fr, Stream)
        if len(q) != 1: raise Unsupported('output of the printer')
        return q[0]
    def matches(s, I, fr, W): return len(s.lib.reach(fr, Stream)) == 1
    def begin(s, I, fr, W):
        s.out = s.stream(fr); s.lib.freeze(fr, 'the rest of the tree', [W, s.out]); s.out.parts = []; s.out.frozen = None
    def generic(s, I, ex, label):
        lib = s.lib; m = lib.m
        if label == 'parenthesis':
            n = Obj(lib.NI, {}); o = lib.ops
            for k, v in ((m['ty'], z3.IntVal(o.OP)), (m['op'], z3.IntVal(o.v['RIGHT_PARENTHESIS'])), (m['val'], z3.RealVal(0)), (m['parent'], None)): n.f[k] = Cell(v)
            n.f[m['nm']] = Str('')
            for k in 'lr': n.f[m[k]] = UP(None); n.f[m[k]].host = n
            s.t = None; s.want = [('lit', ')')]
        else:
            s.t, n, slot = generic_node(lib, label)
            lib.unfold(s.t); s.ctx.assume(Not(And(proj('ty', s.t) == lib.ops.OP, lib.ops.un(proj('op', s.t)))))
            s.z = n; s.want = lib.item(n)
        return lib.make_elem(s.W, [n])
    def require(s, I, it, g=None):
        if isinstance(it, Close): return
        lib = s.lib; i = lib.item(lib.elem_node(it))
        if i[0][0] == 'op':
            s.ctx.oblige(s.name + ':stack-holds-operands-and-binary-operators', lib.ops.bi(i[0][1]))
    def apply(s, I, it):
        out = s.stream(s.fr)
        if isinstance(it, Close):
            if not out.parts or out.parts[-1][0] != 'open' or out.parts[-1][1] is not it: s.ctx.fail(s.name + ':output-out-of-order')
            n = it.n; out.parts[-1] = ('tree', s.lib.tree(n), s.lib.place(n), False); return
        for x in s.lib.item(s.lib.elem_node(it)): out.parts.append(x if x[0] != 'rp' else ('lit', ')'))
    def post(s, I, g):
        s.lib.printed(s.name, s.want, s.out.parts)
        if s.t is not None: s.ctx.oblige(s.name + ':unchanged', s.lib.tree(s.z) == s.t)

class Descent:
    """while (cur) { ... cur = operand of cur ... }: each iteration prints cur's tree, as far as it is not left on the stack or in cur"""
    name = 'descent.loop'
    def __init__(s, lib): s.lib = lib
    @property
    def ctx(s): return s.lib.ctx
    def find(s, fr, cond, inc, body):
        ids = []
        def go(o):
            if not isinstance(o, dict): return
            if o.get('kind') == 'BinaryOperator' and o.get('opcode') == '=':
                x = o['inner'][0]
                while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
                if x.get('kind') == 'DeclRefExpr' and 'NodeImpl' in ty(x) and ty(x).rstrip().endswith('*'): ids.append(x['referencedDecl']['id'])
            for c in o.get('inner', ()): go(c)
        for x in (cond, inc, body): go(x)
        ids = list(dict.fromkeys(ids))
        if len(ids) != 1: return None
        c = fr.env.get(ids[0])
        return c if isinstance(c, Cell) and (c.v is None or isinstance(c.v, (Obj, Lazy))) else None
    def hook(s, I, node, fr, init, cond, inc, body):
        if init == 'range' or node['kind'] == 'DoStmt': return False
        lib, ctx = s.lib, s.ctx
        cur = s.find(fr, cond, inc, body)
        if cur is None or cur.v is None: return False
        Ws = lib.reach(fr, Seq); outs = lib.reach(fr, Stream)
        if len(outs) != 1 or len(Ws) != 1: return False
        W, out = Ws[0], outs[0]
        labels = ('left', 'right', 'root')
        brk = ('descent ends by break', node['id'])
        k = ctx.choose(len(labels) + 1)
        if k == len(labels):
            n = lib.canonical(cur.v)
            s.ctx.oblige(s.name + ':node-of-the-tree', lib.same_obj(n, None) is False or Not(lib.same_obj(n, None)))
            c = Close(n); out.parts.append(('open', c)); W.items.append(c)
            cur.v = Poison() if ctx.known_sub.get(brk) else None
            return True
        if lib.once(fr, node, labels[k], [W, out]): raise Kill()
        ctx.forget()
        lib.freeze(fr, 'the rest of the tree', [W, out, cur]); cur.frozen = None
        out.parts = []; out.frozen = None; W.items = [Seg(REST)]; W.frozen = None
        t, n, slot = generic_node(lib, labels[k])
        cur.v = n; want = [('tree', t, lib.place(n), False)]
        done = False
        try:
            if cond and not ctx.decide(I.truth(I.full(cond, fr))): done = True
            else:
                try: I.scoped(body, fr)
                except ContinueEx: pass
                if inc: I.full(inc, fr)
        except BreakEx:
            done = True
            if not ctx.known_sub.get(brk): ctx.known_sub[brk] = True; raise Restart()
        parts = list(out.parts)
        if not done and cur.v is not None and not (isinstance(cur.v, Lazy) and cur.v.mat is None and cur.v.maybe_nil and ctx.decide(nilq(cur.v.tt))):
            x = lib.canonical(cur.v); tx = lib.tree(x)
            ctx.oblige(s.name + ':terminates', SZ(tx) < SZ(t))
            parts.append(('tree', tx, lib.place(x), False))
        its = W.items
        if not its or not isinstance(its[0], Seg): ctx.fail(s.name + ':pops-other-items')
        for it in reversed(its[1:]):
            if isinstance(it, Close): raise Unsupported('nested descent')
            i = lib.item(lib.elem_node(it))
            if i[0][0] == 'op': ctx.oblige(s.name + ':stack-holds-operands-and-binary-operators', lib.ops.bi(i[0][1]))
            parts += [x if x[0] != 'rp' else ('lit', ')') for x in i]
        lib.printed(s.name, want, parts)
        ctx.oblige(s.name + ':unchanged', lib.tree(slot) == t)
        raise Kill()

class PrEnv(Env):
    def __init__(s, tu, ctx):
        s.tu, s.ctx = tu, ctx
        s.lib = PrLib(tu); s.I = Interp(tu, ctx, RealDom(), s.lib); s.ops = s.lib.ops
        s.lib.unfolders += [u_size]
        s.lib.specs = [PrintSpec(s.lib)]
        s.I.loop_hooks += [s.lib.worklist_hook, Descent(s.lib).hook]
        ctx.machine = s.I
        for fs in list(tu.funcs.values()):
            for f in fs:
                ps = params_of(f)
                if len(ps) == 1 and head(ty(ps[0])) == 'MathOperator' and f['kind'] == 'FunctionDecl':
                    rt = f['type']['qualType'].split('(')[0].strip()
                    q = s.I.qname(f)
                    if rt in ('int', 'bool'): s.I.contracts[q] = s.table(f['name'])
                    elif 'string' in rt: s.I.contracts[q] = s.c_optext
        s.I.contracts[NS + 'ToString'] = s.c_tostring
    table = __import__('vf.tasks_parse', fromlist=['PEnv']).PEnv.table
    def c_optext(s, I, this, args, d):
        """MathOperatorToStr (task 'operator texts')"""
        op = I.get(args[0])
        if not isinstance(op, z3.ExprRef): return NotImplemented
        op = z3.simplify(op)
        if z3.is_int_value(op): return NotImplemented
        s.ctx.oblige('precondition:operator-has-a-text', Or(*[op == s.ops.v[n] for n in SPELL if n in s.ops.v]))
        return Str(OPTXT(op))
    def c_tostring(s, I, this, args, d):
        """ToString(double) (assumed): the number's text, one number token with that value, after '-' if it is negative"""
        if len(args) != 1 or 'double' not in ty(params_of(d)[0]): return NotImplemented
        v = I.get(args[0])
        if isinstance(v, (int, float)): v = z3.RealVal(v)
        return Str(NUMTXT(v))

def t_print(tu, ctx):
    """NodeImpl::ToString: a printed form of the tree, for every tree and every place of it"""
    E = PrEnv(tu, ctx); lib = E.lib
    f = E.fn('NodeImpl::ToString', 0)
    k = ctx.choose(3)
    t, n, slot = generic_node(lib, ('root', 'left', 'right')[k])
    c = lib.place(n)
    r = E.I.call_function(f, n, [])
    if isinstance(r, Cell): r = r.v
    if not isinstance(r, Str): raise Unsupported('result of ToString')
    lib.printed('ensures', [('tree', t, c, False)], [r.v])
    ctx.oblige('ensures:unchanged', lib.tree(slot) == t)
    ctx.oblige('ensures:links-unchanged', True)
    lib.check_links(slot, lib.canonical(n.f[lib.m['parent']].v) if n.f[lib.m['parent']].v is not None else None, 'ensures')

def t_stream(tu, ctx):
    """operator<<: writes what ToString returns"""
    E = PrEnv(tu, ctx); lib = E.lib
    f = E.fn('operator<<', 2, pick=lambda f: 'const Node &' == params_of(f)[1]['type']['qualType'] or 'NodeImpl' in params_of(f)[1]['type'].get('desugaredQualType', ''))
    t, z, u = E.input()
    def c(I, this, args, d):
        tt = lib.tree(this); v = ctx.fresh(N, 'text'); lib.texts[v.get_id()] = (v, [('tree', tt, lib.place(this), False)]); return Str(v)
    E.I.contracts[NS + 'internal::NodeImpl::ToString'] = c
    out = Stream()
    E.I.call_function(f, None, [out, u])
    lib.printed('ensures', [('tree', t, (None, ''), False)], out.parts)

def t_optexts(tu, ctx):
    """MathOperatorToStr: for every operator, a text that the lexer reads as this operator"""
    E = PrEnv(tu, ctx)
    f = E.fn('MathOperatorToStr', 1)
    k = [n for n in SPELL if n in E.ops.v]
    i = ctx.choose(len(k)); n = k[i]
    r = E.I.call_function(f, None, [E.ops.v[n]])
    v = E.lib.str_val(r)
    ctx.oblige('text-of-the-operator', isinstance(v, str) and v in spellings(n), n)

def spellings(n):
    from .tasks_parse import FUNCTIONS
    return {t for t, o in FUNCTIONS.items() if o == n} | ({SPELL[n]} if not SPELL[n][0].isalpha() else set())


# ---------------------------------------------------------------- every printed form has a well-grouped parse with the same value
def _mkq():
    Q = z3.Datatype('ParseTree'); O = z3.Datatype('TokenList')
    Q.declare('num', ('v', R_)); Q.declare('var', ('x', N)); Q.declare('un', ('uo', I_), ('u', Q)); Q.declare('bin', ('bo', I_), ('a', Q), ('b', Q)); Q.declare('par', ('p', Q)); Q, = z3.CreateDatatypes(Q)
    O.declare('nil'); O.declare('tnum', ('tv', R_), ('n1', O)); O.declare('tvar', ('tx', N), ('n2', O)); O.declare('top', ('to', I_), ('n3', O)); O.declare('lp', ('n4', O)); O.declare('rp', ('n5', O)); O, = z3.CreateDatatypes(O)
    return Q, O
Q, O = _mkq()
class Meaning:
    """parse trees: G (well grouped), RK (rank), V (value), OK (no invalid operation), Y (the tokens, followed by k), for fixed values of the variables"""
    def __init__(s, ops):
        s.ops, s.tab = ops, Table(ops)
        s.G = z3.Function('grouped', Q, B); s.RK = z3.Function('rank_of', Q, I_); s.V = z3.Function('value_of_parse', Q, R_); s.OK = z3.Function('valid', Q, B); s.Y = z3.Function('tokens', Q, O, O)
        s.ENV = z3.Function('environment', N, R_); s.c1 = z3.Function('unary_value', I_, R_, R_); s.c2 = z3.Function('binary_value', I_, R_, R_, R_)
        s.i1 = z3.Function('unary_invalid', I_, R_, B); s.i2 = z3.Function('binary_invalid', I_, R_, R_, B)
        s.GR = z3.Function('graft', Q, I_, Q, Q)
    def val1(s, op, x): return If(s.tab.one(op, 'NEGATIVE'), -x, If(s.tab.one(op, 'POSITIVE'), x, s.c1(op, x)))
    def bad1(s, op, x): return And(Not(s.tab.one(op, 'NEGATIVE', 'POSITIVE')), s.i1(op, x))
    def val2(s, op, x, y):
        o = s.tab.one
        return If(o(op, 'ADD'), x + y, If(o(op, 'SUB'), x - y, If(o(op, 'MULTIPLY'), x * y, If(o(op, 'DIVIDE'), x / y, s.c2(op, x, y)))))
    def bad2(s, op, x, y):
        o = s.tab.one
        return If(o(op, 'ADD', 'SUB', 'MULTIPLY'), False, If(o(op, 'DIVIDE'), y == 0, s.i2(op, x, y)))
    def at(s, q, *ks):
        """the definitions at the parse tree q (a constructor term)"""
        d = q.decl(); o = s.ops; T_ = s.tab
        if d.eq(Q.num): f = [s.G(q) == (q.arg(0) >= 0), s.RK(q) == INF, s.V(q) == q.arg(0), s.OK(q)] + [s.Y(q, k) == O.tnum(q.arg(0), k) for k in ks]
        elif d.eq(Q.var): f = [s.G(q), s.RK(q) == INF, s.V(q) == s.ENV(q.arg(0)), s.OK(q)] + [s.Y(q, k) == O.tvar(q.arg(0), k) for k in ks]
        elif d.eq(Q.un):
            op, u = q.children(); f = [s.G(q) == And(s.G(u), s.RK(u) == INF, o.un(op)), s.RK(q) == INF, s.V(q) == s.val1(op, s.V(u)), s.OK(q) == And(s.OK(u), Not(s.bad1(op, s.V(u))))] + [s.Y(q, k) == O.top(op, s.Y(u, k)) for k in ks]
        elif d.eq(Q.bin):
            op, a, b = q.children(); f = [s.G(q) == And(s.G(a), s.G(b), o.bi(op), T_.okleft(op, s.RK(a)), T_.okright(op, s.RK(b))), s.RK(q) == T_.rank(op), s.V(q) == s.val2(op, s.V(a), s.V(b)),
                s.OK(q) == And(s.OK(a), s.OK(b), Not(s.bad2(op, s.V(a), s.V(b))))] + [s.Y(q, k) == s.Y(a, O.top(op, s.Y(b, k))) for k in ks]
        else:
            p, = q.children(); f = [s.G(q) == s.G(p), s.RK(q) == INF, s.V(q) == s.V(p), s.OK(q) == s.OK(p)] + [s.Y(q, k) == O.lp(s.Y(p, O.rp(k))) for k in ks]
        return And(*f)
    def regroup_hyp(s, a, op, q): return And(s.tab.one(op, 'ADD', 'MULTIPLY'), s.G(a), s.G(q), s.tab.okleft(op, s.RK(a)), s.RK(q) >= s.tab.rank(op))
    def regroup(s, a, op, q, k):
        g = s.GR(a, op, q)
        return And(s.G(g), s.RK(g) == s.tab.rank(op), s.OK(g) == And(s.OK(a), s.OK(q)), Implies(s.OK(g), s.V(g) == s.val2(op, s.V(a), s.V(q))), s.Y(g, k) == s.Y(a, O.top(op, s.Y(q, k))))

def t_regroup(tu, ctx):
    """a op q, printed without parentheses around q = (l o r) of the same rank, is read as (a op l) o r: same value, well grouped (induction on q)"""
    E = Env(tu, ctx); M = Meaning(E.ops); o = E.ops
    a, op, k = z3.Const('a', Q), z3.Const('op', I_), z3.Const('k', O)
    if ctx.choose(2):
        q = z3.Const('q', Q)
        ctx.assume(Or(Not(Q.is_bin(q)), M.tab.rank(Q.bo(q)) != M.tab.rank(op)))
        for mk_ in (lambda: Q.num(Q.v(q)), lambda: Q.var(Q.x(q)), lambda: Q.un(Q.uo(q), Q.u(q)), lambda: Q.bin(Q.bo(q), Q.a(q), Q.b(q)), lambda: Q.par(Q.p(q))):
            t = mk_(); ctx.assume(Implies(q == t, z3.substitute(M.at(t, k), (t, q))))
        g = Q.bin(op, a, q); ctx.assume(M.GR(a, op, q) == g); ctx.assume(M.at(g, k))
    else:
        l, r, p = z3.Const('l', Q), z3.Const('r', Q), z3.Const('p', I_)
        q = Q.bin(p, l, r); ctx.assume(M.at(q, k)); ctx.assume(M.tab.rank(p) == M.tab.rank(op))
        ctx.assume(Implies(M.regroup_hyp(a, op, l), M.regroup(a, op, l, O.top(p, M.Y(r, k)))))       # induction hypothesis
        g = Q.bin(p, M.GR(a, op, l), r); ctx.assume(M.GR(a, op, q) == g); ctx.assume(M.at(g, k))
    ctx.assume(M.regroup_hyp(a, op, q))
    g = M.GR(a, op, q)
    for n, f in (('well-grouped', M.G(g)), ('rank', M.RK(g) == M.tab.rank(op)), ('same-validity', M.OK(g) == And(M.OK(a), M.OK(q))), ('same-value', Implies(M.OK(g), M.V(g) == M.val2(op, M.V(a), M.V(q)))), ('same-tokens', M.Y(g, k) == M.Y(a, O.top(op, M.Y(q, k))))):
        ctx.oblige('lemma:regroup:' + n, f)

def t_forms(tu, ctx):
    """every printed form of a tree is the token list of a well-grouped parse tree with the value of the tree (induction on the tree; the parse trees of the operands' forms
    are given by the induction hypothesis)"""
    E = Env(tu, ctx); M = Meaning(E.ops); o = E.ops; tab = M.tab
    t = E.lib.fresh_tree('t'); E.lib.unfold(t)
    l, r, op = proj('l', t), proj('r', t), proj('op', t)
    TV, TOK = z3.Function('tree_value', T, R_), z3.Function('tree_valid', T, B)
    isop = proj('ty', t) == o.OP
    ctx.assume(And(Implies(proj('ty', t) == o.NUM, And(TV(t) == proj('val', t), TOK(t))), Implies(proj('ty', t) == o.VAR, And(TV(t) == M.ENV(proj('nm', t)), TOK(t))),
        Implies(And(isop, o.un(op)), And(TV(t) == M.val1(op, TV(l)), TOK(t) == And(TOK(l), Not(M.bad1(op, TV(l)))))),
        Implies(And(isop, o.bi(op)), And(TV(t) == M.val2(op, TV(l), TV(r)), TOK(t) == And(TOK(l), TOK(r), Not(M.bad2(op, TV(l), TV(r))))))))
    k = z3.Const('k', O)
    F = {n: z3.Function('form_of_' + n, O, O) for n in 'lr'}; q = {n: z3.Const('parse_of_' + n, Q) for n in 'lr'}
    binop = lambda x: And(proj('ty', x) == o.OP, o.bi(proj('op', x)))
    def hyp(n, x, c, inner, *ks):
        """the form F[n] of operand x in place c; inner: printed without a place (inside parentheses)"""
        rk = M.RK(q[n])
        ctx.assume(And(M.G(q[n]), M.OK(q[n]) == TOK(x), Implies(TOK(x), M.V(q[n]) == TV(x)), *[F[n](z) == M.Y(q[n], z) for z in ks]))
        ctx.assume(Or(rk == INF, And(binop(x), rk == tab.rank(proj('op', x)), *([] if inner else [tab.fitting(c, proj('op', x))]))))
    def claim(name, form, w, rank):
        ctx.oblige('lemma:forms:%s:same-tokens' % name, form == M.Y(w, k))
        ctx.oblige('lemma:forms:%s:well-grouped' % name, M.G(w)); ctx.oblige('lemma:forms:%s:rank' % name, M.RK(w) == rank)
        ctx.oblige('lemma:forms:%s:same-validity' % name, M.OK(w) == TOK(t)); ctx.oblige('lemma:forms:%s:same-value' % name, Implies(TOK(t), M.V(w) == TV(t)))
    i = ctx.choose(7)
    if i == 0:
        v = proj('val', t); ctx.assume(And(proj('ty', t) == o.NUM, v >= 0)); w = Q.num(v); ctx.assume(M.at(w, k)); claim('number', O.tnum(v, k), w, INF)
    elif i == 1:
        v = proj('val', t); ctx.assume(And(proj('ty', t) == o.NUM, v < 0)); u = Q.num(-v); w = Q.un(z3.IntVal(o.v['NEGATIVE']), u); ctx.assume(M.at(u, k)); ctx.assume(M.at(w, k))
        claim('negative-number', O.top(o.v['NEGATIVE'], O.tnum(-v, k)), w, INF)
    elif i == 2:
        ctx.assume(proj('ty', t) == o.VAR); w = Q.var(proj('nm', t)); ctx.assume(M.at(w, k)); claim('variable', O.tvar(proj('nm', t), k), w, INF)
    elif i == 3:
        ctx.assume(And(isop, o.un(op))); hyp('l', l, (op, 'l'), True, O.rp(k)); u = Q.par(q['l']); w = Q.un(op, u); ctx.assume(M.at(u, k)); ctx.assume(M.at(w, k))
        claim('unary', O.top(op, O.lp(F['l'](O.rp(k)))), w, INF)
    elif i == 4:
        ctx.assume(And(isop, tab.one(op, 'POSITIVE', 'NEGATIVE'), Not(binop(l)))); hyp('l', l, (op, 'l'), False, k); w = Q.un(op, q['l']); ctx.assume(M.at(w, k))
        claim('sign', O.top(op, F['l'](k)), w, INF)
    elif i == 5:
        ctx.assume(And(isop, o.bi(op))); k2 = O.top(op, F['r'](k)); hyp('l', l, (op, 'l'), False, k2); hyp('r', r, (op, 'r'), False, k)
        w = Q.bin(op, q['l'], q['r']); g = M.GR(q['l'], op, q['r'])
        if ctx.decide(tab.okright(op, M.RK(q['r']))): ctx.assume(M.at(w, k))
        else:
            w = g; ctx.oblige('lemma:forms:binary:regroups', M.regroup_hyp(q['l'], op, q['r'])); ctx.assume(M.regroup(q['l'], op, q['r'], k))
        claim('binary', F['l'](k2), w, tab.rank(op))
    else:
        # parentheses around a form that was printed without a place
        u = z3.Const('parse_of_t', Q); form = z3.Function('form_of_t', O, O)
        ctx.assume(And(M.G(u), M.OK(u) == TOK(t), Implies(TOK(t), M.V(u) == TV(t)), form(O.rp(k)) == M.Y(u, O.rp(k)))); w = Q.par(u); ctx.assume(M.at(w, k))
        claim('parentheses', O.lp(form(O.rp(k))), w, INF)

def PRINT(): return {'NodeImpl::ToString': t_print, 'operator<<': t_stream, 'operator texts': t_optexts, 'lemma regroup': t_regroup, 'lemma printed forms': t_forms}
