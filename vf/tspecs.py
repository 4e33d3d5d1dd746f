"""Loop contracts and function contracts over expression trees."""
import z3
from .core import *
from .stl import N, EMPTY, conv_str
from .tree import *

# ---------------------------------------------------------------- specification functions
def u_size(t):
    l, r = proj('l', t), proj('r', t)
    return [SZ(t) == 1 + z3.If(nilq(l), 0, SZ(l)) + z3.If(nilq(r), 0, SZ(r)), z3.Or(nilq(l), SZ(l) >= 1), z3.Or(nilq(r), SZ(r) >= 1)]

OCC = z3.Function('OCC', T, B)          # the fixed but arbitrary name X occurs in the tree
X = z3.Const('X', N)
def u_occ(ops):
    def u(t):
        l, r = proj('l', t), proj('r', t)
        return [OCC(t) == z3.Or(z3.And(proj('ty', t) == ops.VAR, proj('nm', t) == X), z3.And(z3.Not(nilq(l)), OCC(l)), z3.And(z3.Not(nilq(r)), OCC(r)))]
    return u

# ---------------------------------------------------------------- worklist contracts
class EqualSpec(Worklist):
    name = 'Equal.loop'
    def matches(self, I, fr, W):
        return all(sum(1 for k, v in self.lib.leaves(x) if k == 'node') == 2 for x in W.items if not isinstance(x, Seg))
    def begin(self, I, fr, W):
        self.lib.freeze(fr, 'the rest of the trees', [W])
        self.out = []
    def generic(self, I, ex, label):
        lib = self.lib
        self.a, self.b = lib.fresh_tree('wa'), lib.fresh_tree('wb')
        za, zb = lib.lazy(self.a, Poison()), lib.lazy(self.b, Poison())
        ua, ub = UP(None), UP(None); ua.set(za); ub.set(zb); self.keep = (ua, ub)
        lv = lib.leaves(ex)
        if [k for k, v in lv] != ['node', 'node']: raise Unsupported('work item layout')
        return lib.rebuild(ex, iter([lib.materialise(za), lib.materialise(zb)]))
    def pair(self, it):
        ns = [v for k, v in self.lib.leaves(it) if k == 'node']
        if len(ns) != 2: raise Unsupported('work item layout')
        return self.lib.tree(ns[0]), self.lib.tree(ns[1])
    def require(self, I, it, g=None):
        a, b = self.pair(it)
        self.ctx.oblige('Equal.loop:items-non-null', z3.And(z3.Not(nilq(a)), z3.Not(nilq(b))))
        if g is not None:
            self.ctx.oblige('Equal.loop:terminates', SZ(a) < SZ(self.a))
            self.out.append((a, b))
    def apply(self, I, it):
        if getattr(self, 'phase', '') == 'step': return
        a, b = self.pair(it)
        if not self.ctx.decide(a == b): raise ReturnEx(False)
    def run(self, *a):
        self.phase = ''
        Worklist.run(self, *a)
    def post(self, I, g):
        self.ctx.oblige('Equal.loop:structural', z3.And(*[a == b for a, b in self.out]) == (self.a == self.b) if self.out else self.a == self.b)
    def exits(self, I, kind, v):
        if kind != 'return': raise Unsupported('early exit from the comparison loop')
        v = I.get(v)
        self.ctx.oblige('Equal.loop:early-answer', z3.And(z3.Not(v) if isinstance(v, z3.BoolRef) else z3.BoolVal(not v), self.a != self.b))

class CheckParentSpec(Worklist):
    name = 'CheckParent.loop'
    need_parent = True
    def variants(self, items): return [('left', items[0]), ('right', items[0])]
    def begin(self, I, fr, W): self.lib.freeze(fr, 'the rest of the tree', [W])
    def require(self, I, it, g=None):
        n = self.lib.elem_node(it)
        o = n.owner
        self.ctx.oblige('CheckParent.loop:child-links', o is not None and o.host is not None and self.lib.same_obj(self.par(n), o.host))
        if g is not None: self.ctx.oblige('CheckParent.loop:terminates', SZ(self.lib.tree(n)) < SZ(self.t))
    def par(self, n):
        return n.parent if isinstance(n, Lazy) else n.f[self.lib.m['parent']].v
    def apply(self, I, it): pass
    def post(self, I, g): self.ctx.oblige('CheckParent.loop:unchanged', self.lib.tree(self.z) == self.t)

class VarsSpec(Worklist):
    name = 'GetAllVarNames.loop'
    def begin(self, I, fr, W):
        accs = self.lib.reach(fr, SetV)
        self.lib.freeze(fr, 'the rest of the tree', [W] + accs)
        if len(accs) != 1: raise Unsupported('accumulator of the variable names')
        self.acc = accs[0]; self.acc.items = [('rest', z3.Const('rest_has_X', B))]
    def require(self, I, it, g=None):
        if g is not None: self.ctx.oblige(self.name + ':terminates', SZ(self.lib.tree(self.lib.elem_node(it))) < SZ(self.t))
    def apply(self, I, it):
        accs = self.lib.reach(self.fr, SetV)
        if len(accs) != 1: raise Unsupported('accumulator of the variable names')
        accs[0].items.append(('vars', self.lib.tree(self.lib.elem_node(it))))
    def post(self, I, g):
        self.ctx.oblige(self.name + ':adds-exactly-the-names', member(self.acc) == z3.Or(z3.Const('rest_has_X', B), OCC(self.t)))
        self.ctx.oblige(self.name + ':unchanged', self.lib.tree(self.z) == self.t)

def member(s):
    """the arbitrary name X is in set s"""
    out = []
    for e in s.items:
        if e[0] == 'name': out.append(e[1] == X)
        elif e[0] == 'vars': out.append(z3.And(z3.Not(nilq(e[1])), OCC(e[1])))
        elif e[0] == 'rest': out.append(e[1])
    return z3.Or(*out) if out else z3.BoolVal(False)

class OrderSpec(Worklist):
    """collects the nodes: acc becomes post(item) ++ acc (front insertion) or acc ++ rpost(item)"""
    name = 'traversal.loop'
    opsonly = False
    def accs(self, I, fr, W): return [q for q in self.lib.reach(fr, Seq) if q is not W and q.kind not in ('array',)]
    def begin(self, I, fr, W):
        A = [q for q in self.accs(I, fr, W)]
        self.lib.freeze(fr, 'the rest of the tree', [W] + A)
        if len(A) != 1: raise Unsupported('accumulator of a traversal')
        self.acc = A[0]; self.acc.items = [Seg(REST)]
    def require(self, I, it, g=None):
        n = self.lib.elem_node(it); t = self.lib.tree(n)
        if self.opsonly: self.ctx.oblige(self.name + ':operators-only', proj('ty', t) == self.lib.ops.OP)
        if g is not None: self.ctx.oblige(self.name + ':terminates', SZ(t) < SZ(self.t))
        self.item_ok(it, n, g)
    def item_ok(self, it, n, g): pass
    def elem_ok(self, x, o): pass
    def element(self, ex, n):
        """the sequence element for node n"""
        return self.lib.rebuild(ex, iter([n if k == 'node' else self.flag_of(n) for k, v in self.lib.leaves(ex)]))
    def flag_of(self, n):
        p = n.parent if isinstance(n, Lazy) else n.f[self.lib.m['parent']].v
        if p is None: return True
        return n.owner is not None and self.lib.canonical(p).f[self.lib.m['l']] is n.owner
    def modekey(self): return 'mode:' + self.name
    def apply(self, I, it):
        n = self.lib.elem_node(it)
        A = self.accs(I, self.fr, self.W)
        if len(A) != 1: raise Unsupported('accumulator of a traversal')
        q = A[0]
        if getattr(self, 'phase', '') == 'step':
            # which end has the body just used?
            if isinstance(q.items[0], Seg) and q.items[0].kind == REST: mode = 'back'
            else: mode = 'front'
            self.ctx.known_sub[self.modekey()] = mode
        mode = self.ctx.known_sub.get(self.modekey())
        if mode is None: raise Unsupported('traversal order unknown')
        sg = Seg('post' if mode == 'front' else 'rpost', (n, self.lib.tree(n)))
        sg.example = self.ctx.known_sub.get(self.modekey() + ':ex'); sg.spec = self
        if mode == 'front': q.items.insert(0, sg)
        else: q.items.append(sg)
    def run(self, *a):
        self.phase = ''
        Worklist.run(self, *a)
    def post(self, I, g):
        it = self.acc.items
        if isinstance(it[0], Seg) and it[0].kind == REST: mode = 'back'; new = it[1:]
        elif isinstance(it[-1], Seg) and it[-1].kind == REST: mode = 'front'; new = it[:-1]
        else: self.ctx.fail(self.name + ':keeps-earlier-nodes')
        if self.ctx.known_sub.setdefault(self.modekey(), mode) != mode: raise Unsupported('traversal order varies')
        want = ['l', 'r', 'n'] if mode == 'front' else ['n', 'r', 'l']
        got = []
        o = self.lib.canonical(self.z)
        kids = {k: o.f[self.lib.m[k]] for k in 'lr'}
        seen = []
        for x in new:
            if isinstance(x, Seg):
                if x.kind not in ('post', 'rpost'): self.ctx.fail(self.name + ':order')
                n = self.lib.canonical(x.data[0])
                k = [k for k in 'lr' if kids[k].p is not None and self.lib.canonical(kids[k].p) is n]
                got.append(k[0] if k else '?')
            else:
                got.append('n' if self.lib.elem_node(x) is o else '?')
                self.ctx.known_sub[self.modekey() + ':ex'] = x
                self.elem_ok(x, o)
        exp = []
        for k in want:
            if k == 'n': exp.append(k); continue
            tk = proj(k, self.t)
            present = k in got
            skip = nilq(tk)
            if self.opsonly: skip = z3.Or(skip, proj('ty', tk) != self.lib.ops.OP)
            if present: exp.append(k)
            else: self.ctx.oblige(self.name + ':visits-every-node', skip)
        self.ctx.oblige(self.name + ':order', got == exp)
        self.ctx.oblige(self.name + ':unchanged', self.lib.tree(self.z) == self.t)

class ReleaseSpec(Worklist):
    name = 'Release.loop'
    region = 'own'
    def begin(self, I, fr, W): self.lib.freeze(fr, 'the rest of the tree', [W])
    def generic(self, I, ex, label):
        lib = self.lib
        if not isinstance(ex, UP): raise Unsupported('work item layout')
        self.t = lib.fresh_tree('w')
        self.z = lib.lazy(self.t, Poison(), False, 'own')
        u = UP(None); u.set(self.z)
        o = lib.materialise(self.z)
        self.kids = [o.f[lib.m[k]].p for k in 'lr']
        return u
    def require(self, I, it, g=None):
        self.ctx.oblige(self.name + ':items-non-null', isinstance(it, UP) and it.p is not None and (True if not isinstance(it.p, Lazy) or not it.p.maybe_nil else z3.Not(nilq(it.p.tt))))
        if g is not None: self.ctx.oblige(self.name + ':terminates', SZ(self.lib.tree(it)) < SZ(self.t))
    def apply(self, I, it):
        # the effect of processing an item: the whole subtree is freed (by iteration, hence no check of the operands here)
        self.lib.shallow = False
        try: self.lib.up_reset(it)
        finally: self.lib.shallow = True
    def post(self, I, g):
        o = self.lib.canonical(self.z)
        self.ctx.oblige(self.name + ':frees-the-node', o.freed)
        for k in self.kids:
            k = self.lib.canonical(k)
            self.ctx.oblige(self.name + ':frees-the-subtrees', k.freed if not getattr(k, 'maybe_nil', False) else (z3.BoolVal(k.freed) if k.freed else nilq(k.tt)))

class CloneSpec(Worklist):
    name = 'Clone.loop'
    def variants(self, items): return [('left', items[0]), ('right', items[0])]
    def roles(self, it):
        lv = self.lib.leaves(it)
        slots = [v for k, v in lv if k == 'slot']
        if len(slots) != 1: raise Unsupported('work item layout')
        s = slots[0]
        src = [v for k, v in lv if k == 'node' and v is not s.host]
        par = [v for k, v in lv if k == 'node' and v is s.host]
        if len(src) != 1 or len(par) > 1: raise Unsupported('work item layout')
        return lv, s, src[0], par
    def begin(self, I, fr, W): self.lib.freeze(fr, 'the rest of the trees', [W])
    def generic(self, I, ex, label):
        lib = self.lib; m = lib.m
        lv, s, src, par = self.roles(ex)
        self.t = lib.fresh_tree('w')
        self.z = lib.lazy(self.t, Poison(), False, 'in')
        keep = UP(None); keep.set(self.z); self.keepu = keep
        P = Obj(lib.NI, {}); P.region = 'fresh'
        for k in ('ty', 'op', 'val'): P.f[m[k]] = Cell(Poison()); P.f[m[k]].frozen = 'the copied parent'
        P.f[m['nm']] = Str(EMPTY); P.f[m['nm']].frozen = 'the copied parent'
        P.f[m['parent']] = Cell(Poison()); P.f[m['parent']].frozen = 'the copied parent'
        other = UP(None); other.frozen = 'the other child'; other.host = P
        self.slot = UP(None); self.slot.host = P
        P.f[m['l']], P.f[m['r']] = (self.slot, other) if label == 'left' else (other, self.slot)
        self.P = P
        out = []
        for k, v in lv:
            if k == 'slot': out.append(self.slot)
            elif k == 'node': out.append(lib.materialise(self.z) if v is src else P)
            else: raise Unsupported('work item layout')
        return lib.rebuild(ex, iter(out))
    def require(self, I, it, g=None):
        lv, s, src, par = self.roles(it)
        t = self.lib.tree(src)
        self.ctx.oblige(self.name + ':items-non-null', z3.Not(nilq(t)))
        self.ctx.oblige(self.name + ':target-empty', s.p is None and s.host is not None)
        if g is not None: self.ctx.oblige(self.name + ':terminates', SZ(t) < SZ(self.t))
    def apply(self, I, it):
        lv, s, src, par = self.roles(it)
        fz = s.frozen if hasattr(s, 'frozen') else None
        s.set(self.lib.lazy(self.lib.tree(src), s.host, False, 'fresh'))
    def post(self, I, g):
        lib = self.lib
        self.ctx.oblige(self.name + ':copies-the-subtree', lib.tree(self.slot) == self.t)
        lib.check_links(self.slot, self.P, self.name, 'fresh')
        self.ctx.oblige(self.name + ':source-unchanged', lib.tree(self.z) == self.t)

SUBF = z3.Function('SUBF', T, T)
INDICT = z3.Function('INDICT', N, B)
REPL = z3.Function('REPL', N, T)
def u_subf(ops):
    def u(t):
        l, r = proj('l', t), proj('r', t)
        lemma = [z3.Implies(z3.And(z3.Not(nilq(x)), WF(x)), z3.And(WF(SUBF(x)), z3.Not(nilq(SUBF(x))))) for x in (l, r)]   # lemma subst-wf
        return lemma + [SUBF(NIL) == NIL,
                SUBF(t) == z3.If(z3.And(proj('ty', t) == ops.VAR, INDICT(proj('nm', t))), REPL(proj('nm', t)),
                                 T.node(proj('ty', t), proj('op', t), proj('val', t), proj('nm', t), SUBF(l), SUBF(r)))]
    return u
class SubsSpec(Worklist):
    name = 'Subs.loop'
    region = 'own'
    need_parent = True
    def variants(self, items): return [('left', items[0]), ('right', items[0])]
    def isrep(self, t): return z3.And(proj('ty', t) == self.lib.ops.VAR, INDICT(proj('nm', t)))
    def begin(self, I, fr, W):
        self.lib.freeze(fr, 'the rest of the tree', [W])
        self.out = []
    def generic(self, I, ex, label):
        g = Worklist.generic(self, I, ex, label)
        self.ctx.assume(z3.Not(self.isrep(self.t)))
        return g
    def require(self, I, it, g=None):
        n = self.lib.elem_node(it); t = self.lib.tree(n)
        self.ctx.oblige(self.name + ':items-not-replaced', z3.Not(self.isrep(t)))
        self.ctx.oblige(self.name + ':items-owned', n.owner is not None)
        if g is not None:
            self.ctx.oblige(self.name + ':terminates', SZ(t) < SZ(self.t))
            self.ctx.oblige(self.name + ':visits-original-nodes-only', self.is_child(n))
    def is_child(self, n): return True
    def apply(self, I, it):
        lib = self.lib
        n = lib.elem_node(it); u = n.owner
        t = lib.tree(n)
        parent = n.parent if isinstance(n, Lazy) else n.f[lib.m['parent']].v
        if isinstance(n, Obj): n.poison = 'a node already substituted'
        z = lib.lazy(SUBF(t), parent, False, 'own')
        u.frozen = None
        u.set(z)
    def post(self, I, g):
        lib = self.lib
        lib.unfold(self.t)
        self.ctx.oblige(self.name + ':substitutes', lib.tree(self.slot) == SUBF(self.t))
        lib.check_links(self.slot, self.parent, self.name, 'own')

# ---------------------------------------------------------------- fold over a node sequence (second pass of a two-pass traversal)
class Fold:
    """Rule for iterating over the post-order sequence post(t):  by induction on t, where post(t) = post(l) post(r) t."""
    name = 'fold'
    def __init__(self, lib): self.lib = lib
    @property
    def ctx(self): return self.lib.ctx
    def iterate(self, I, fr, items, call):
        """items in iteration order; call(elem) executes the loop body"""
        for x in items:
            if not isinstance(x, Seg): call(x); continue
            if x.kind != 'post': raise Unsupported('sequence is not iterated in post order')
            self.segment(I, fr, x, call)
    def variants(self): return ['node']
    def segment(self, I, fr, sg, call):
        vs = self.variants()
        k = self.ctx.choose(len(vs) + 1)
        if k == len(vs):
            self.apply(I, fr, sg.data[0], sg.data[1]); return
        self.start(fr, vs[k])
        self.step(I, fr, sg, call, vs[k])
        raise Kill()
    def start(self, fr, label):
        if self.lib.once(fr, self.name, label, self.lib.reach(fr, Seq)): raise Kill()
        self.ctx.forget()

class EvalFold(Fold):
    """processing post(t) pushes exactly VAL(t) on the operand stack"""
    name = 'Vpa.fold'
    def stack(self, fr):
        qs = [q for q in self.lib.reach(fr, Seq) if strip(q.elem) == 'double']
        if len(qs) != 1: raise Unsupported('operand stack')
        return qs[0]
    def apply(self, I, fr, n, t):
        # the traversal may also have thrown: HASVAR / INV
        V = self.V
        self.ctx.assume(z3.Not(V.HASVAR(t)))
        self.ctx.assume(z3.Not(V.BAD(t)))
        self.stack(fr).items.append(Cell(V.VAL(t), self.ctx.time))
    def segment(self, I, fr, sg, call):
        vs = self.variants()
        k = self.ctx.choose(len(vs) + 2)
        t = sg.data[1]
        if k == len(vs): return self.apply(I, fr, sg.data[0], t)
        if k == len(vs) + 1:
            # some node of the segment throws (only allowed if there is a variable or an invalid operation, see step)
            self.ctx.assume(z3.Or(self.V.HASVAR(t), self.V.BAD(t)))
            raise CppThrow(Ext('runtime_error'), 'runtime_error')
        self.start(fr, vs[k])
        self.step(I, fr, sg, call, vs[k]); raise Kill()
    def step(self, I, fr, sg, call, label):
        lib = self.lib; ctx = self.ctx; V = self.V
        S = self.stack(fr)
        lib.freeze(fr, 'state outside the evaluation loop', [S])
        t = lib.fresh_tree('e')
        z = lib.lazy(t, Poison()); u = UP(None); u.set(z)
        lib.unfold(t)
        l, r = proj('l', t), proj('r', t)
        before = [Seg(REST)]
        # operands already evaluated (their segments come first)
        if ctx.decide(z3.Not(nilq(l))):
            ctx.assume(z3.And(z3.Not(V.HASVAR(l)), z3.Not(V.BAD(l)))); before.append(Cell(V.VAL(l)))
            lib.unfold(l)
        if ctx.decide(z3.Not(nilq(r))):
            ctx.assume(z3.And(z3.Not(V.HASVAR(r)), z3.Not(V.BAD(r)))); before.append(Cell(V.VAL(r)))
            lib.unfold(r)
        S.items = before
        elem = lib.rebuild(sg.example, iter([lib.materialise(z)]))
        try:
            call(elem)
        except CppThrow as e:
            ctx.oblige(self.name + ':throws-only-for-variables-or-invalid', z3.Or(V.HASVAR(t), V.BAD(t)))
            raise Kill()
        except (BreakEx, ReturnEx): raise Unsupported('early exit from the evaluation loop')
        ctx.oblige(self.name + ':variable-throws', z3.Not(V.HASVAR(t)))
        ctx.oblige(self.name + ':invalid-throws', z3.Not(V.BAD(t)))
        it = S.items
        ctx.oblige(self.name + ':stack-discipline', len(it) == 2 and isinstance(it[0], Seg) and isinstance(it[1], Cell))
        ctx.oblige(self.name + ':value', I.dom.co(it[1].v) == V.VAL(t))
        ctx.oblige(self.name + ':unchanged', lib.tree(z) == t)

class Vals:
    """VAL: composition of operators.  calc1/calc2 are the operator functions, INV their invalidity, both uninterpreted here and
    defined by the contract of Calc."""
    def __init__(self, ops, suffix=''):
        self.ops = ops
        self.VAL = z3.Function('VAL' + suffix, T, R)
        self.HASVAR = z3.Function('HASVAR' + suffix, T, B)
        self.BAD = z3.Function('BAD' + suffix, T, B)
        self.calc1 = z3.Function('calc1' + suffix, I_, R, R)
        self.calc2 = z3.Function('calc2' + suffix, I_, R, R, R)
        self.inv1 = z3.Function('inv1' + suffix, I_, R, B)
        self.inv2 = z3.Function('inv2' + suffix, I_, R, R, B)
    def unfold(self, t):
        o = self.ops
        k = proj('ty', t); op = proj('op', t); l, r = proj('l', t), proj('r', t)
        V = self.VAL
        un = o.un(op)
        return [z3.Implies(k == o.NUM, V(t) == proj('val', t)),
                z3.Implies(z3.And(k == o.OP, un), V(t) == self.calc1(op, V(l))),
                z3.Implies(z3.And(k == o.OP, z3.Not(un)), V(t) == self.calc2(op, V(l), V(r))),
                self.HASVAR(t) == z3.Or(k == o.VAR, z3.And(z3.Not(nilq(l)), self.HASVAR(l)), z3.And(z3.Not(nilq(r)), self.HASVAR(r))),
                self.BAD(t) == z3.Or(z3.And(z3.Not(nilq(l)), self.BAD(l)), z3.And(z3.Not(nilq(r)), self.BAD(r)),
                                     z3.And(k == o.OP, un, self.inv1(op, V(l))), z3.And(k == o.OP, z3.Not(un), self.inv2(op, V(l), V(r))))]
    def calc_contract(self, lib, throwing='choose'):
        """Calc(op, v1, v2) for a table operator: the operator's value, or MathError if (throwing enabled and) it is invalid"""
        def c(I, this, args, d):
            op, a, b = I.get(args[0]), args[1], args[2]
            ctx = I.ctx
            o = self.ops
            if isinstance(op, int): op = z3.IntVal(op)
            ctx.oblige('precondition:Calc-operator', z3.Or(o.un(op), o.bi(op)))
            a = I.dom.co(I.get(a))
            if ctx.decide(o.un(op)):
                v = self.calc1(op, a); inv = self.inv1(op, a)
            else:
                b = I.dom.co(I.get(b))
                v = self.calc2(op, a, b); inv = self.inv2(op, a, b)
            if ctx.decide(inv): raise CppThrow(Ext('MathError'), 'MathError')
            return v
        return c

# ---------------------------------------------------------------- Simplify
FOLDED = z3.Function('FOLDED', T, B)
class EnvVals(Vals):
    """value of a tree under a fixed but arbitrary assignment ENV of the variables; OK: the value is valid"""
    def __init__(self, ops, laws=True):
        Vals.__init__(self, ops, '_e')
        self.ENV = z3.Function('ENV', N, R)
        self.OK = z3.Function('OK', T, B)
        self.laws = laws
    def unfold(self, t):
        o = self.ops
        k = proj('ty', t); op = proj('op', t); l, r = proj('l', t), proj('r', t)
        V = self.VAL; un = o.un(op)
        vl, vr = V(l), V(r)
        out = [z3.Implies(k == o.NUM, z3.And(V(t) == proj('val', t), self.OK(t))),
               z3.Implies(k == o.VAR, z3.And(V(t) == self.ENV(proj('nm', t)), self.OK(t))),
               z3.Implies(z3.And(k == o.OP, un), z3.And(V(t) == self.calc1(op, vl), self.OK(t) == z3.And(self.OK(l), z3.Not(self.inv1(op, vl))))),
               z3.Implies(z3.And(k == o.OP, z3.Not(un)), z3.And(V(t) == self.calc2(op, vl, vr), self.OK(t) == z3.And(self.OK(l), self.OK(r), z3.Not(self.inv2(op, vl, vr)))))]
        if self.laws: out += self.law_instances(vl, vr)
        return out
    def law_instances(self, x, y):
        """identities that hold exactly for finite IEEE doubles (up to the sign of zero)"""
        o = self.ops; c1, c2, i1, i2 = self.calc1, self.calc2, self.inv1, self.inv2
        A, S, M, D, P = o.ADD, o.SUB, o.MULTIPLY, o.DIVIDE, o.POWER
        NEG, POS = o.NEGATIVE, o.POSITIVE
        L = [c1(NEG, x) == -x, c1(POS, x) == x, z3.Not(i1(NEG, x)), z3.Not(i1(POS, x)), c1(NEG, y) == -y, c1(POS, y) == y, z3.Not(i1(NEG, y)), z3.Not(i1(POS, y)),
             c2(A, x, y) == c2(A, y, x), c2(M, x, y) == c2(M, y, x), i2(A, x, y) == i2(A, y, x), i2(M, x, y) == i2(M, y, x),
             c2(S, x, y) == c2(A, x, -y), i2(S, x, y) == i2(A, x, -y),
             z3.Implies(x == 0, z3.And(c2(A, x, y) == y, z3.Not(i2(A, x, y)), c2(S, x, y) == -y, z3.Not(i2(S, x, y)))),
             z3.Implies(y == 0, z3.And(c2(A, x, y) == x, z3.Not(i2(A, x, y)), c2(S, x, y) == x, z3.Not(i2(S, x, y)))),
             z3.Implies(z3.Or(x == 0, y == 0), z3.And(c2(M, x, y) == 0, z3.Not(i2(M, x, y)))),
             z3.Implies(x == 1, z3.And(c2(M, x, y) == y, z3.Not(i2(M, x, y)))),
             z3.Implies(y == 1, z3.And(c2(M, x, y) == x, z3.Not(i2(M, x, y)), c2(D, x, y) == x, z3.Not(i2(D, x, y)), c2(P, x, y) == x, z3.Not(i2(P, x, y)))),
             z3.Implies(x == -1, z3.And(c2(M, x, y) == -y, z3.Not(i2(M, x, y)))),
             z3.Implies(y == -1, z3.And(c2(M, x, y) == -x, z3.Not(i2(M, x, y)), c2(D, x, y) == -x, z3.Not(i2(D, x, y)))),
             z3.Implies(z3.And(x == 0, z3.Not(i2(D, x, y))), z3.And(c2(D, x, y) == 0, y != 0)),
             z3.Implies(y == 0, i2(D, x, y)), z3.Implies(z3.And(x == 0, y != 0), z3.Not(i2(D, x, y))),
             z3.Implies(x == y, z3.And(c2(S, x, y) == 0, z3.Not(i2(S, x, y)))),
             z3.Implies(z3.And(x == y, y != 0), z3.And(c2(D, x, y) == 1, z3.Not(i2(D, x, y)))),
             z3.Implies(y == 0, z3.And(c2(P, x, y) == 1, z3.Not(i2(P, x, y)))),
             z3.Implies(x == 1, z3.And(c2(P, x, y) == 1, z3.Not(i2(P, x, y))))]
        return L
    def calc_contract(self, lib, throwing=None):
        def c(I, this, args, d):
            op, a, b = I.get(args[0]), args[1], args[2]
            ctx = I.ctx; o = self.ops
            if isinstance(op, int): op = z3.IntVal(op)
            ctx.oblige('precondition:Calc-operator', z3.Or(o.un(op), o.bi(op)))
            a = I.dom.co(I.get(a))
            if ctx.decide(o.un(op)): v = self.calc1(op, a); inv = self.inv1(op, a)
            else:
                b = I.dom.co(I.get(b)); v = self.calc2(op, a, b); inv = self.inv2(op, a, b)
            if ctx.decide(inv):
                if ctx.choose(2) == 0: raise CppThrow(Ext('MathError'), 'MathError')
                return ctx.fresh(R, 'invalid')        # throwOnInvalidValue == false
            return v
        return c
    def folded(self, t):
        o = self.ops
        k = proj('ty', t); op = proj('op', t); l, r = proj('l', t), proj('r', t)
        un = o.un(op)
        num = lambda x: proj('ty', x) == o.NUM
        return [FOLDED(t) == z3.And(z3.Or(nilq(l), FOLDED(l)), z3.Or(nilq(r), FOLDED(r)),
                                    z3.Implies(z3.And(k == o.OP, un, num(l)), self.inv1(op, proj('val', l))),
                                    z3.Implies(z3.And(k == o.OP, z3.Not(un), num(l), num(r)), self.inv2(op, proj('val', l), proj('val', r))))]

class SimplifyOrder(OrderSpec):
    name = 'Simplify.traversal'
    opsonly = True
    need_parent = True
    def variants(self, items): return [('left', items[0]), ('right', items[0]), ('root', items[0])]
    def generic(self, I, ex, label):
        self.label = label
        self.exflag = [v for k, v in self.lib.leaves(ex) if k == 'data']
        g = Worklist.generic(self, I, ex, label)
        self.ctx.assume(proj('ty', self.t) == self.lib.ops.OP)
        return g
    def flag(self, label, v):
        return v if label == 'root' else label == 'left'
    def flagcheck(self, x, n, what):
        fl = [v for k, v in self.lib.leaves(x) if k == 'data']
        p = n.parent if isinstance(n, Lazy) else n.f[self.lib.m['parent']].v
        if p is None: return
        for v in fl:
            ok = self.lib.I.truth(v)
            want = self.flag_of(n)
            self.ctx.oblige(self.name + ':' + what, (ok == want) if isinstance(ok, bool) else (ok if want else z3.Not(ok)))
    def item_ok(self, it, n, g): self.flagcheck(it, n, 'left-child-flag')
    def elem_ok(self, x, o): self.flagcheck(x, o, 'left-child-flag')

class SimplifyFold(Fold):
    name = 'Simplify.fold'
    def variants(self): return ['left', 'right']
    def rel(self, t, s):
        """s is an admissible simplification of t"""
        V = self.V
        return z3.And(z3.Not(nilq(s)), WF(s), z3.Implies(V.OK(t), z3.And(V.OK(s), V.VAL(s) == V.VAL(t))), z3.Implies(OCC(s), OCC(t)), FOLDED(s))
    def apply(self, I, fr, n, t):
        lib = self.lib
        s = self.ctx.fresh(T, 'simp')
        self.ctx.assume(self.rel(t, s))
        n = lib.canonical(n); u = n.owner
        parent = n.parent if isinstance(n, Lazy) else n.f[lib.m['parent']].v
        if isinstance(n, Obj): n.poison = 'a node already simplified'
        u.set(lib.lazy(s, parent, False, 'own'))
    def step(self, I, fr, sg, call, label):
        lib = self.lib; ctx = self.ctx; V = self.V
        lib.freeze(fr, 'state outside the simplification loop', [])
        # the node: operator t over original operands l, r, whose slots now hold simplified operands
        t = lib.fresh_tree('w'); lib.unfold(t)
        ctx.assume(proj('ty', t) == lib.ops.OP)
        l, r = proj('l', t), proj('r', t)
        l2 = ctx.fresh(T, 'l2'); lib.unfold(l)
        ctx.assume(self.rel(l, l2))
        two = ctx.decide(z3.Not(nilq(r)))
        if two:
            r2 = ctx.fresh(T, 'r2'); lib.unfold(r); ctx.assume(self.rel(r, r2))
        else: r2 = NIL
        t2 = T.node(proj('ty', t), proj('op', t), proj('val', t), proj('nm', t), l2, r2)
        lib.unfold(t2)
        helper = SimplifyOrder(lib)
        z = lib.lazy(t2, None, False, 'own')
        helper.slot = UP(None); helper.slot.set(z); helper.region = 'own'
        P = helper.opaque_parent(I, z, label); z.parent = P
        n = lib.materialise(z)
        call(sg.spec.element(sg.example, n))
        res = lib.tree(helper.slot)
        ctx.oblige(self.name + ':keeps-the-node', z3.Not(nilq(res)))
        ctx.oblige(self.name + ':value-preserved', z3.Implies(V.OK(t), z3.And(V.OK(res), V.VAL(res) == V.VAL(t))))
        ctx.oblige(self.name + ':well-formed', WF(res))
        ctx.oblige(self.name + ':no-new-variables', z3.Implies(OCC(res), OCC(t)))
        ctx.oblige(self.name + ':folds-numbers', FOLDED(res))
        lib.check_links(helper.slot, P, self.name)
