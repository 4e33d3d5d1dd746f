"""Expression trees: the algebraic sort Tree, the heap representation (Obj / Lazy), and the loop contracts over worklists."""
import re, z3
from .core import *
from .stl import Lib, N, EMPTY, conv_str
from .interp import strip, head, targs, ty, is_ref, UP_HEADS, Frame

R = z3.RealSort(); I_ = z3.IntSort(); B = z3.BoolSort()
def _mk():
    t = z3.Datatype('Tree')
    t.declare('nil')
    t.declare('node', ('ty', I_), ('op', I_), ('val', R), ('nm', N), ('l', t), ('r', t))
    return t.create()
T = _mk()
NIL = T.nil
FIELDS = ('ty', 'op', 'val', 'nm', 'l', 'r')
def isnode(t): return z3.is_app(t) and t.decl().eq(T.node)
def proj(f, t):
    if isnode(t): return t.arg(FIELDS.index(f))
    return getattr(T, f)(t)
def nilq(t):
    if isnode(t): return z3.BoolVal(False)
    return T.is_nil(t)
def mk(ty_, op, val, nm, l, r):
    if isinstance(ty_, int): ty_ = z3.IntVal(ty_)
    if isinstance(op, int): op = z3.IntVal(op)
    return T.node(ty_, op, val, conv_str(nm), l, r)

class Ops:
    """Operator codes of /repo's enums and the specification's operator table."""
    UN = 'POSITIVE NEGATIVE SIN COS TAN ARCSIN ARCCOS ARCTAN SQRT LOG LOG2 LOG10 EXP'.split()
    BI = 'ADD SUB MULTIPLY DIVIDE POWER AND OR MOD'.split()
    def __init__(self, tu):
        self.v = {}; self.NT = {}
        for o in tu.byid.values():
            if o['kind'] == 'EnumDecl' and o.get('name') in ('MathOperator', 'NodeType'):
                for c in o.get('inner', ()):
                    if c.get('kind') == 'EnumConstantDecl' and c['id'] in tu.enumvals:
                        n = c['name']
                        if o['name'] == 'NodeType': self.NT[n] = tu.enumvals[c['id']]
                        else: self.v[n.replace('MATH_', '')] = tu.enumvals[c['id']]
        self.NUM, self.OP, self.VAR = self.NT['NUMBER'], self.NT['OPERATOR'], self.NT['VARIABLE']
        self.NULL = self.v['NULL']
        for n in self.UN + self.BI: self.v[n]
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return self.v[n]
    def un(self, op): return z3.Or(*[op == self.v[n] for n in self.UN])
    def bi(self, op): return z3.Or(*[op == self.v[n] for n in self.BI])
    def name(self, code):
        for n, c in self.v.items():
            if c == code: return n

WF = z3.Function('WF', T, B)
SZ = z3.Function('SZ', T, I_)

class TreeLib(Lib):
    def __init__(self, tu):
        Lib.__init__(self)
        self.ops = Ops(tu)
        self.unfolders = [self.u_wf]
        self.specs = []
        self.folds = []; self.cur_index = None; self.sizes = {}
        self.setup_fields(tu)
        self.canon = True
    # ---------------------------------------------------------------- representation
    def setup_fields(self, tu):
        rec = [r for r in tu.records.values() if r.get('name') == 'NodeImpl'][0]
        fs = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        m = {}
        nodes = []
        for f in fs:
            t = ty(f); h = head(t); s = strip(t)
            if h in UP_HEADS: nodes.append(f['name'])
            elif h in ('basic_string', 'string'): m.setdefault('nm', f['name'])
            elif s == 'double': m.setdefault('val', f['name'])
            elif h == 'MathOperator': m.setdefault('op', f['name'])
            elif h == 'NodeType': m.setdefault('ty', f['name'])
            elif s.endswith('*') and 'NodeImpl' in s: m.setdefault('parent', f['name'])
        if len(nodes) < 2: raise Unsupported('layout of NodeImpl')
        if 'left' in nodes and 'right' in nodes: m['l'], m['r'] = 'left', 'right'
        else: m['l'], m['r'] = nodes[0], nodes[1]
        for k in ('nm', 'val', 'op', 'ty', 'parent'):
            if k not in m: raise Unsupported('layout of NodeImpl')
        self.m = m
        self.extra = [f['name'] for f in fs if f['name'] not in m.values()]
        self.NI = 'NodeImpl'
    def objs(self):
        return self.ctx.st.facts.setdefault('objs', [])
    def on_new(self, obj):
        if obj.cls == 'NodeImpl': self.objs().append(obj)
    def fresh_tree(self, hint='t', wf=True):
        t = self.ctx.fresh(T, hint)
        self.ctx.assume(z3.Not(T.is_nil(t)))
        if wf: self.ctx.assume(WF(t))
        return t
    def lazy(self, t, parent=None, maybe_nil=False, region='in'):
        z = Lazy(t, parent, maybe_nil, region)
        z.mat = None; z.freed = False; z.opaque = None
        return z
    def node_up(self, t, parent=None, maybe_nil=False, region='in'):
        """a unique_ptr owning tree t"""
        u = UP(None, self.ctx.time)
        if isnode(t) or not (z3.is_app(t) and t.decl().eq(T.nil)):
            u.set(self.lazy(t, parent, maybe_nil, region))
        return u
    def resolve(self, o):
        if isinstance(o, Lazy): return self.materialise(o)
        return o
    def canonical(self, o):
        if isinstance(o, Lazy) and o.mat is not None: return o.mat
        return o
    def materialise(self, z):
        if z.mat is not None: return z.mat
        if z.freed: self.ctx.fail('use-after-free')
        if z.opaque: raise Unsupported('access to ' + z.opaque)
        if z.maybe_nil:
            if not self.ctx.entails(z3.Not(nilq(z.tt))):
                if self.ctx.decide(nilq(z.tt)): self.ctx.fail('null-dereference')
            z.maybe_nil = False
        m = self.m; t = z.tt
        self.unfold(t)
        o = Obj(self.NI, {})
        c = lambda v: Cell(v)
        o.f[m['ty']] = c(proj('ty', t)); o.f[m['op']] = c(proj('op', t)); o.f[m['val']] = c(proj('val', t))
        o.f[m['nm']] = Str(proj('nm', t))
        o.f[m['parent']] = c(z.parent)
        for k in 'lr':
            u = self.node_up(proj(k, t), o, True, z.region)
            u.host = o; o.f[m[k]] = u
        for x in self.extra: raise Unsupported('NodeImpl has an extra field ' + x)
        o.region = z.region; o.src = t
        o.snap = None
        z.mat = o
        w = z.owner
        if w is not None: w.set(o)
        self.objs().append(o)
        return o
    def up_bool(self, u):
        p = u.p
        if p is None: return False
        if isinstance(p, Lazy) and p.mat is None and p.maybe_nil:
            if self.ctx.decide(nilq(p.tt)):
                fz = getattr(u, 'frozen', None)
                u.set(None); return False
            p.maybe_nil = False
        return True
    def up_get(self, u):
        if not self.up_bool(u): return None
        return self.canonical(u.p)
    def up_deref(self, u):
        if not self.up_bool(u): self.ctx.fail('null-dereference')
        return self.resolve(u.p)
    def up_take(self, dst, src):
        self.up_check(src)
        self.up_bool(src)
        p = src.p; src.set(None); dst.set(p)
    def up_assign(self, dst, src):
        if dst is src: return
        self.up_check(src); self.up_check(dst)
        self.up_bool(src)
        p = src.p; src.set(None)
        old = dst.p
        dst.set(p)
        if old is not None and old is not p: self.delete(old)
    shallow = False
    def delete(self, o):
        o = self.canonical(o)
        if isinstance(o, Lazy):
            if self.shallow: self.ctx.oblige('call-depth:destroyed-node-has-no-operands', nilq(o.tt) if o.maybe_nil else False)
            o.freed = True; return
        if isinstance(o, Obj):
            if o.freed: self.ctx.fail('double-free')
            if self.shallow and o.cls == self.NI:
                for k in 'lr':
                    c = self.canonical(o.f[self.m[k]].p)
                    self.ctx.oblige('call-depth:destroyed-node-has-no-operands', c is None or (nilq(c.tt) if isinstance(c, Lazy) and c.maybe_nil else False))
            self.I.destroy(o)
    def same_obj(self, x, y):
        if isinstance(x, UP): x = self.up_get(x)
        if isinstance(y, UP): y = self.up_get(y)
        x = self.canonical(x); y = self.canonical(y)
        if x is None and isinstance(y, Lazy) and y.maybe_nil: return nilq(y.tt)
        if y is None and isinstance(x, Lazy) and x.maybe_nil: return nilq(x.tt)
        return x is y
    # ---------------------------------------------------------------- terms and facts
    def unfold(self, t):
        """assume the definitions of the specification functions at t (t is a node)"""
        key = t.get_id()
        done = self.ctx.st.facts.setdefault('unfolded', {})
        if key in done: return
        done[key] = t
        for u in self.unfolders:
            for f in u(t): self.ctx.assume(f)
    def local_wf(self, t):
        o = self.ops
        k = proj('ty', t); op = proj('op', t); l = proj('l', t); r = proj('r', t)
        nm = proj('nm', t); v = proj('val', t)
        nl, nr = nilq(l), nilq(r)
        return z3.And(
            z3.Or(k == o.NUM, k == o.OP, k == o.VAR),
            z3.Implies(k == o.NUM, z3.And(op == o.NULL, nm == EMPTY, nl, nr)),
            z3.Implies(k == o.VAR, z3.And(op == o.NULL, v == 0, nl, nr)),
            z3.Implies(k == o.OP, z3.And(z3.Or(o.un(op), o.bi(op)), nm == EMPTY, v == 0, z3.Not(nl), nr == o.un(op))))
    def u_wf(self, t):
        l = proj('l', t); r = proj('r', t)
        return [z3.Not(nilq(t)) if not isnode(t) else z3.BoolVal(True),
                WF(t) == z3.And(self.local_wf(t), z3.Or(nilq(l), WF(l)), z3.Or(nilq(r), WF(r)))]
    def tree(self, p):
        """the tree term represented by a pointer / unique_ptr"""
        if isinstance(p, Cell): p = p.v
        if isinstance(p, UP): p = p.p
        if p is None: return NIL
        p = self.canonical(p)
        if isinstance(p, Lazy):
            if p.freed: self.ctx.fail('use-after-free')
            return p.tt
        if p.freed: self.ctx.fail('use-after-free')
        m = self.m
        g = lambda k: p.f[m[k]].v
        vals = []
        for k in ('ty', 'op', 'val'):
            v = g(k)
            if v is UNINIT: self.ctx.fail('uninitialised-read')
            if isinstance(v, (bool, int)) and k == 'val': v = z3.RealVal(int(v))
            vals.append(v)
        nm = conv_str(p.f[m['nm']].v)
        l, r = self.tree(p.f[m['l']]), self.tree(p.f[m['r']])
        if p.src is not None:
            s = p.src
            def same(a, b): return isinstance(a, z3.ExprRef) and a.eq(b)
            if same(vals[0], proj('ty', s)) and same(vals[1], proj('op', s)) and same(vals[2], proj('val', s)) and same(nm, proj('nm', s)):
                def kid(x, u, k):
                    if x.eq(proj(k, s)): return True
                    if x.eq(NIL): return self.ctx.entails(nilq(proj(k, s)))
                    return False
                if kid(l, p.f[m['l']], 'l') and kid(r, p.f[m['r']], 'r'): return s
        t = mk(vals[0], vals[1], vals[2], nm, l, r)
        self.unfold(t)
        return t
    def check_links(self, p, parent, name, region=None):
        """obligation: parent links below p are right, every node of the tree is fresh if region == 'fresh'"""
        if isinstance(p, UP): p = p.p
        if p is None: return
        p = self.canonical(p)
        if isinstance(p, Lazy):
            if region == 'fresh' and p.region != 'fresh' and not (p.maybe_nil and self.ctx.entails(nilq(p.tt))):
                self.ctx.oblige(name + ':shares-node', False); return
            ok = self.canonical(p.parent) is parent
            if not ok and p.maybe_nil: ok = nilq(p.tt)
            self.ctx.oblige(name + ':parent-link', ok)
            return
        if region == 'fresh' and p.region is not None and p.region != 'fresh': self.ctx.oblige(name + ':shares-node', False)
        pv = p.f[self.m['parent']].v
        if pv is UNINIT: self.ctx.oblige(name + ':parent-link', False)
        else: self.ctx.oblige(name + ':parent-link', self.same_obj(pv, parent) if pv is not None or parent is not None else True)
        for k in 'lr': self.check_links(p.f[self.m[k]], p, name, region)
    def concrete_kind(self, o):
        return o
    # ---------------------------------------------------------------- sequences of nodes
    def elem_node(self, x):
        if isinstance(x, Cell): x = x.v
        if isinstance(x, RefWrap): x = x.o
        if isinstance(x, (Lazy, Obj)):
            x = self.canonical(x)
            if isinstance(x, Lazy) or x.cls == self.NI: return x
        leaves = self.leaves(x)
        ns = [v for k, v in leaves if k == 'node']
        if len(ns) == 1: return ns[0]
        raise Unsupported('element of a node sequence')
    def leaves(self, x, out=None):
        """node / slot / bool leaves of a work item, in declaration order"""
        if out is None: out = []
        if isinstance(x, Cell): x = x.v
        if isinstance(x, RefWrap): x = x.o
        if isinstance(x, Cell): x = x.v
        if isinstance(x, (Lazy,)) or (isinstance(x, Obj) and x.cls == self.NI): out.append(('node', self.canonical(x)))
        elif isinstance(x, UP): out.append(('slot', x))
        elif isinstance(x, Tuple):
            for y in x.items: self.leaves(y, out)
        elif isinstance(x, Obj):
            for y in x.f.values(): self.leaves(y, out)
        elif x is None: out.append(('null', None))
        else: out.append(('data', x))
        return out
    def rebuild(self, x, it):
        """copy of work item x whose leaves are taken from iterator it"""
        if isinstance(x, Cell):
            if isinstance(x.v, (RefWrap,)): return Cell(self.rebuild(x.v, it))
            return Cell(next(it))
        if isinstance(x, RefWrap): return RefWrap(next(it))
        if isinstance(x, Tuple): return type(x)([self.rebuild(y, it) for y in x.items])
        if isinstance(x, Obj) and x.cls != self.NI:
            o = Obj(x.cls, {}); o.born = self.ctx.time
            for k, v in x.f.items(): o.f[k] = self.rebuild(v, it)
            return o
        return next(it)
    # ---------------------------------------------------------------- freezing
    def freeze(self, fr, why, acc=()):
        seen = set()
        acc = {id(a) for a in acc}
        def go(v):
            if v is None or id(v) in seen or id(v) in acc: return
            if isinstance(v, (int, float, bool, str, z3.ExprRef)): return
            seen.add(id(v))
            if isinstance(v, Cell): v.frozen = v.frozen or why; go(v.v)
            elif isinstance(v, UP):
                v.frozen = why
                go(v.p)
            elif isinstance(v, RefWrap): go(v.o)
            elif isinstance(v, Tuple):
                for x in v.items: go(x)
            elif isinstance(v, Seq):
                v.frozen = why
                for x in v.items: go(x)
            elif isinstance(v, (SetV, MapV, Str, Stream)) or type(v).__name__ == 'DMap': v.frozen = why
            elif isinstance(v, Closure):
                for x in v.caps.values(): go(x)
            elif isinstance(v, Obj):
                for x in v.f.values(): go(x)
        for v in list(fr.env.values()): go(v)
        go(fr.this)
        for o in self.objs():
            if o.freed: continue
            if o.owner is None and o.region is None:
                for x in o.f.values(): go(x)       # a local node object
            elif id(o) not in seen or True:
                o.poison = o.poison or why
                for x in o.f.values(): go(x)
                for k in 'lr':
                    u = o.f.get(self.m[k])
                    if isinstance(u, UP) and isinstance(u.p, Lazy): u.p.opaque = why
        return seen
    def reach(self, fr, cls):
        """all values of Python class cls reachable from the frame"""
        seen = set(); out = []
        def go(v):
            if v is None or id(v) in seen or isinstance(v, (int, float, bool, str, z3.ExprRef)): return
            seen.add(id(v))
            if isinstance(v, cls): out.append(v)
            if isinstance(v, Cell): go(v.v)
            elif isinstance(v, RefWrap): go(v.o)
            elif isinstance(v, Tuple):
                for x in v.items: go(x)
            elif isinstance(v, Closure):
                for x in v.caps.values(): go(x)
            elif isinstance(v, Obj) and v.cls != self.NI:
                for x in v.f.values(): go(x)
        for v in list(fr.env.values()): go(v)
        return out
    def once(self, fr, s, label, skip):
        """True if the same inductive step (same loop, same visible scalar state) has been verified on an earlier path"""
        seen = {id(x) for x in skip}; out = []
        def go(v):
            if v is None or isinstance(v, (int, float, bool, str)): out.append(repr(v)); return
            if isinstance(v, z3.ExprRef): out.append(v.sexpr()); return
            if id(v) in seen: return
            seen.add(id(v))
            if isinstance(v, Cell): go(v.v)
            elif isinstance(v, RefWrap): go(v.o)
            elif isinstance(v, UP): out.append('up0' if v.p is None else 'up1')
            elif isinstance(v, Tuple):
                for x in v.items: go(x)
            elif isinstance(v, Str): go(v.v)
            elif isinstance(v, Closure):
                out.append('fn')
                for x in v.caps.values(): go(x)
            elif isinstance(v, Obj) and v.owner is None and v.region is None:
                for x in v.f.values(): go(x)
            else: out.append(type(v).__name__)
        for v in list(fr.env.values()): go(v)
        key = ('step', s.get('id') if isinstance(s, dict) else s, label, ' '.join(out))
        done = self.ctx.known_sub.setdefault('steps', {})
        me = tuple(self.ctx.st.taken)
        if key in done: return done[key] != me[:len(done[key])]
        done[key] = me
        return False
    # ---------------------------------------------------------------- the worklist rule
    def find_worklist(self, I, fr, cond, body):
        """the container whose emptiness controls the loop"""
        def calls(o, out):
            if isinstance(o, dict):
                if o.get('kind') == 'CXXMemberCallExpr':
                    m = o['inner'][0]
                    if m.get('kind') == 'MemberExpr' and m.get('name') in ('empty', 'size'): out.append(m['inner'][0])
                for c in o.get('inner', ()): calls(c, out)
            return out
        cands = []
        if cond:
            cands = calls(cond, [])
        if not cands and body and (not cond or cond.get('kind') in ('CXXBoolLiteralExpr', 'ImplicitCastExpr', 'IntegerLiteral')):
            st = body.get('inner', [body]) if body.get('kind') == 'CompoundStmt' else [body]
            for x in st[:2]:
                if x.get('kind') == 'IfStmt': cands = calls(x['inner'][0], [])
                if cands: break
        for b in cands:
            x = b
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
            if x.get('kind') != 'DeclRefExpr': continue
            i = x['referencedDecl']['id']
            v = fr.env.get(i)
            if isinstance(v, Seq): return v
        return None
    def worklist_hook(self, I, s, fr, init, cond, inc, body):
        if init == 'range': return self.range_hook(I, s, fr, cond, inc, body)
        r = self.iter_for(I, s, fr, init, cond, inc, body)
        if r: return True
        W = self.find_worklist(I, fr, cond, body)
        if W is None: return False
        if not W.items: return s['kind'] != 'DoStmt'
        if not any(isinstance(x, Seg) for x in W.items) or True:
            for spec in self.specs:
                if spec.matches(I, fr, W):
                    spec.run(I, s, fr, W, cond, inc, body)
                    return True
        return False

    def expand(self, sg):
        if sg.kind == REST: raise Unsupported('access to the unknown part of a container')
        if sg.kind not in ('post', 'rpost') or getattr(sg, 'example', None) is None: raise Unsupported('symbolic sequence segment')
        n = self.resolve(sg.data[0]); t = sg.data[1]
        spec = sg.spec
        kids = []
        for k in 'lr':
            u = n.f[self.m[k]]
            if not self.up_bool(u): continue
            tk = self.tree(u)
            if spec.opsonly and not self.ctx.decide(proj('ty', tk) == self.ops.OP): continue
            y = Seg(sg.kind, (self.canonical(u.p), tk)); y.example = sg.example; y.spec = spec
            kids.append(y)
        me = spec.element(sg.example, n)
        return kids + [me] if sg.kind == 'post' else [me] + kids[::-1]
    def has_segs(self, q): return isinstance(q, Seq) and any(isinstance(x, Seg) for x in q.items)
    def range_hook(self, I, s, fr, rng, loopvar, body):
        if not self.has_segs(rng): return False
        if not self.folds: return False
        def call(x):
            I.bind_loopvar(loopvar, x, fr)
            try: I.scoped(body, fr)
            except ContinueEx: pass
        self.folds[0].iterate(I, fr, self.directed(rng.items, False), call)
        return True
    def directed(self, items, rev):
        if not rev: return list(items)
        out = []
        for x in reversed(items):
            if isinstance(x, Seg) and x.kind in ('post', 'rpost'):
                y = Seg('rpost' if x.kind == 'post' else 'post', x.data); y.example = x.example; y.spec = x.spec; out.append(y)
            else: out.append(x)
        return out
    def f_for_each(self, args, e):
        I = self.I
        a, b = I.get(args[0]), I.get(args[1])
        if isinstance(a, It) and self.has_segs(a.seq) and self.folds and isinstance(b, It) and b.seq is a.seq and a.rev == b.rev:
            n = len(a.seq.items)
            if (a.rev and a.i == n and b.i == 0) or (not a.rev and a.i == 0 and b.i == n):
                fr = self.cur_frame(args[2])
                self.folds[0].iterate(I, fr, self.directed(a.seq.items, a.rev), lambda x: I.call_value(args[2], [x]))
                return args[2]
        return Lib.f_for_each(self, args, e)
    def cur_frame(self, clo):
        fr = Frame(None)
        if isinstance(clo, Cell): clo = clo.v
        if isinstance(clo, Closure): fr.env.update(clo.caps)
        for f in self.I.frames[-1:]: 
            for k, v in f.env.items(): fr.env.setdefault(k, v)
        return fr
    def iter_for(self, I, s, fr, init, cond, inc, body):
        """for (auto it = X.begin(); it != X.end(); ++it) over a symbolic sequence"""
        if s['kind'] != 'ForStmt' or not init or not cond or not inc: return False
        if init.get('kind') != 'DeclStmt': return False
        its = [d for d in init['inner'] if d.get('kind') == 'VarDecl']
        for d in its:
            c = fr.env.get(d['id'])
            v = c.v if isinstance(c, Cell) else None
            if isinstance(v, It) and self.has_segs(v.seq) and self.folds:
                n = len(v.seq.items)
                if v.i != (n if v.rev else 0): return False
                op = cond
                while op.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): op = op['inner'][0]
                txt = I.tu.text(inc)
                if not ('++' in txt) or '!=' not in I.tu.text(cond): return False
                def call(x):
                    q = Seq(v.seq.kind, v.seq.elem); q.items = [x]
                    c.v = It(q, 1 if v.rev else 0, v.rev)
                    try: I.scoped(body, fr)
                    except ContinueEx: pass
                    if not isinstance(c.v, It) or c.v.seq is not q or c.v.i != (1 if v.rev else 0): raise Unsupported('loop body moves the iterator')
                self.folds[0].iterate(I, fr, self.directed(v.seq.items, v.rev), call)
                return True
        return self.index_for(I, s, fr, its, cond, inc, body)
    def index_for(self, I, s, fr, its, cond, inc, body):
        """an index that runs over a whole symbolic sequence: i = 0; i < q.size(); ++i  or  i = q.size() - 1; i > 0 (or >= 0); --i"""
        if not self.folds or len(its) != 1: return False
        c = fr.env.get(its[0]['id'])
        if not isinstance(c, Cell): return False
        v = c.v; saved = v
        down = None
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            for n, q, items in self.sizes.values():
                if z3.simplify(v - n + 1).eq(z3.IntVal(0)) and q.items == items: down = (n, q); break
        def strip_(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): x = x['inner'][0]
            return x
        def isvar(x):
            x = strip_(x); return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == its[0]['id']
        u = strip_(inc); b = strip_(cond)
        if u.get('kind') != 'UnaryOperator' or not isvar(u['inner'][0]) or b.get('kind') != 'BinaryOperator' or not isvar(b['inner'][0]): return False
        other = I.get(I.ev(b['inner'][1], fr))
        if down and u['opcode'] == '--':
            if b['opcode'] in ('>', '!=') and isinstance(other, int) and other >= 0: skip = other + 1
            elif b['opcode'] == '>=' and isinstance(other, int) and other >= 0 and 'unsigned' not in ty(its[0]): skip = other
            else: return False
            q = down[1]
        elif isinstance(v, int) and v >= 0 and u['opcode'] == '++' and b['opcode'] in ('<', '!='):
            q = None
            for n, q_, items in self.sizes.values():
                if isinstance(other, z3.ExprRef) and other.eq(n) and q_.items == items: q = q_
            if q is None: return False
            skip = v
        else: return False
        if not self.has_segs(q): return False
        its_ = list(q.items)
        k = 0
        while k < skip:      # the first elements, which the loop leaves out
            if k >= len(its_): return False
            if isinstance(its_[k], Seg): its_[k:k + 1] = self.expand(its_[k]); continue
            k += 1
        idx = self.ctx.fresh(z3.IntSort(), 'index')
        def call(x):
            old = self.cur_index
            self.cur_index = (q, idx, x); c.v = idx
            try: I.scoped(body, fr)
            except ContinueEx: pass
            finally: self.cur_index = old
            if not (isinstance(c.v, z3.ExprRef) and c.v.eq(idx)): raise Unsupported('loop body changes the index')
        items = its_[skip:]
        self.folds[0].iterate(I, fr, items if not down else self.directed(items, True), call)
        return True
    def at(self, o, i):
        m = self.cur_index
        if m and m[0] is o and isinstance(i, z3.ExprRef) and i.eq(m[1]): return m[2]
        return Lib.at(self, o, i)

class Worklist:
    """Loop contract:  while (!W.empty()) { x = pop(W); ... push successors ... }

    apply(item) is the complete effect of processing an item and everything it spawns; the loop body is verified on a generic
    item against  body; apply(pushed items in pop order)  ==  apply(item),  which is the inductive step (each pushed item is
    smaller in the measure); the statement after the loop is reached with apply() done on the initial items in pop order."""
    name = 'worklist'
    region = 'in'
    def __init__(self, lib): self.lib = lib
    @property
    def ctx(self): return self.lib.ctx
    def matches(self, I, fr, W): return True
    def variants(self, items): return [('node', items[0])]
    def begin(self, I, fr, W): pass
    def exits(self, I, kind, v): raise Unsupported('early exit from a worklist loop')
    def measure(self, t): return SZ(t)
    def post(self, I, g): pass
    def require(self, I, item, g=None): pass
    def apply(self, I, item): raise NotImplementedError
    def init_mode(self, I, fr, W, body): pass
    def run(self, I, s, fr, W, cond, inc, body):
        lib = self.lib; ctx = self.ctx
        kind = W.kind
        lifo = kind in ('stack',)
        items = list(W.items)
        if any(isinstance(x, Seg) for x in items): raise Unsupported('nested use of a worklist')
        if kind in ('vector', 'deque', 'list', 'forward_list'):
            txt = lib.I.tu.text(body)
            # which end is consumed
            if re.search(r'\bpop_back\b', txt): lifo = True
            elif re.search(r'\bpop_front\b', txt) or kind == 'queue': lifo = False
            else: raise Unsupported('worklist discipline')
            front_push = bool(re.search(r'\b(push|emplace)_front\b', txt))
            if kind == 'forward_list' or (front_push and not lifo):
                raise Unsupported('worklist discipline')
        self.items, self.fr, self.W = items, fr, W
        self.init_mode(I, fr, W, body)
        vs = self.variants(items)
        k = ctx.choose(len(vs) + 1)
        if k == len(vs):
            order = list(reversed(items)) if lifo else items
            W.items = []
            self.disjoint(order)
            for it in order: self.require(I, it)
            for it in order: self.apply(I, it)
            return
        # ---- inductive step
        label, ex = vs[k]
        if lib.once(fr, s, label, [W]): raise Kill()
        self.phase = 'step'
        ctx.forget()
        self.begin(I, fr, W)
        self.item_nodes = None
        g = self.generic(I, ex, label)
        W.items = [Seg(REST), g] if lifo else [g, Seg(REST)]
        W.frozen = None
        try:
            if cond and s['kind'] != 'DoStmt':
                c = I.truth(I.full(cond, fr))
                if c is not True: ctx.assume(c)
            try:
                I.scoped(body, fr)
            except ContinueEx: pass
            if inc: I.full(inc, fr)
        except BreakEx:
            self.exits(I, 'break', None); raise Kill()
        except ReturnEx as e:
            self.exits(I, 'return', e.v); raise Kill()
        except CppThrow as e:
            self.exits(I, 'throw', e); raise Kill()
        its = W.items
        if lifo:
            if not its or not (isinstance(its[0], Seg) and its[0].kind == REST): ctx.fail('worklist:pops-other-items')
            pushed = list(reversed(its[1:]))
        else:
            if not its or not (isinstance(its[0], Seg) and its[0].kind == REST): ctx.fail('worklist:item-not-consumed')
            pushed = its[1:]
        if any(x is g for x in pushed): ctx.fail('worklist:item-not-consumed')
        self.disjoint(pushed)
        for p in pushed: self.require(I, p, g)
        for p in pushed: self.apply(I, p)
        self.post(I, g)
        raise Kill()
    def disjoint(self, items):
        """loop contracts that rewrite subtrees: no pending item lies inside another one"""
        if self.region != 'own': return
        ns = []
        for it in items:
            if isinstance(it, UP): continue
            ns += [v for k, v in self.lib.leaves(it) if k == 'node']
        if len({id(n) for n in ns}) != len(ns): raise Unsupported('an item is pending twice')
        ids = {id(n) for n in ns}
        for n in ns:
            seen = 0
            u = n.owner
            while u is not None and u.host is not None:
                h = self.lib.canonical(u.host)
                if id(h) in ids: raise Unsupported('a pending item lies inside another one')
                u = h.owner; seen += 1
                if seen > 1000: raise Unsupported('cyclic ownership')
    # generic item: one node leaf living in a slot of an opaque parent
    need_parent = False
    def generic(self, I, ex, label):
        lib = self.lib; ctx = self.ctx
        leaves = lib.leaves(ex)
        self.t = lib.fresh_tree('w')
        self.parent = None if self.need_parent else Poison()   # the item may be any node: nothing is known about its parent
        z = lib.lazy(self.t, self.parent, False, self.region)
        self.slot = UP(None); self.slot.set(z)
        if self.need_parent and label != 'root':
            self.parent = self.opaque_parent(I, z, label)
            z.parent = self.parent
        self.z = z
        out = []
        nn = 0
        for kind, v in leaves:
            if kind == 'node':
                nn += 1
                if nn > 1: raise Unsupported('work item with several nodes')
                out.append(lib.materialise(z))
            elif kind == 'data' and (isinstance(v, (bool, z3.BoolRef))):
                out.append(self.flag(label, v))
            else: raise Unsupported('work item layout')
        return lib.rebuild(ex, iter(out))
    def flag(self, label, v):
        raise Unsupported('work item layout')
    def opaque_parent(self, I, z, label):
        """a parent whose left or right child is the generic node; nothing else about it is known"""
        lib = self.lib; m = lib.m
        P = Obj(lib.NI, {})
        pt = self.ctx.fresh(T, 'p')
        P.f[m['ty']] = Cell(z3.IntVal(lib.ops.OP)); P.f[m['op']] = Cell(proj('op', pt)); P.f[m['val']] = Cell(z3.RealVal(0)); P.f[m['nm']] = Str('')
        P.f[m['parent']] = Cell(Poison())
        P.region = self.region; P.src = None
        self.ctx.assume(z3.Or(lib.ops.un(proj('op', pt)), lib.ops.bi(proj('op', pt))))
        other = lib.lazy(self.ctx.fresh(T, 'sib'), P, True, self.region)
        other.opaque = 'the sibling of the item'
        uo = UP(None); uo.set(other); uo.host = P; uo.frozen = 'the sibling of the item'
        self.slot.host = P
        if label == 'left':
            P.f[m['l']] = self.slot; P.f[m['r']] = uo
            self.ctx.assume(nilq(other.tt) == lib.ops.un(proj('op', pt)))
        else:
            P.f[m['l']] = uo; P.f[m['r']] = self.slot
            self.ctx.assume(z3.And(lib.ops.bi(proj('op', pt)), z3.Not(nilq(other.tt))))
        for k in ('ty', 'op', 'val', 'nm'): P.f[m[k]].frozen = 'the parent of the item'
        return P
