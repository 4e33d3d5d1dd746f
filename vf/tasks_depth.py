"""C19: the call depth of the operations does not depend on the depth of the expression.

Ghost contract of every function f reachable from the operations:  calls(f) <= rank(f), where rank is a constant.  It is discharged function by
function: every function f may call (its body, the lambdas it creates or hands to an algorithm, the destructors and copy operations it implies) has a
smaller rank.  Destroying a node is the one place where the library calls back (unique_ptr -> ~NodeImpl): the obligations of ~NodeImpl / Release
(tasks_tree.t_release) show that a node whose members are destroyed owns nothing any more, so that call does not nest.
"""
import re
from .core import *
from .extract import body_of, params_of, qualtype
from .interp import head, strip, targs, UP_HEADS

FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
ROOTS = {'Vpa', 'Calc', 'Clone', 'Equal', 'ToString', 'Subs', 'Simplify', 'Diff', 'GetAllVarNames', '~NodeImpl', 'NodeImpl', 'operator=', 'CheckParent', 'operator<<',
         'Move', 'Operator', 'UnaryOperator', 'BinaryOperator', 'CopyOrMoveTo', 'Num', 'Var', 'Op'}

class Graph:
    def __init__(s, tu):
        s.tu = tu
        s.edges = {}       # function id -> set of ids
        s.names = {}
        s.erased = {}      # function id -> lambdas converted to std::function in it
        s.unknown = {}
        s.recs = {r.get('name'): r for r in tu.records.values() if r.get('name')}
        s.dtor = None
        for f in {id(f): f for f in tu.defs.values()}.values():
            if not pattern(f): s.add(f)
    def node(s, i):
        d = s.tu.defs.get(i)
        return d['id'] if d is not None else None
    def add(s, f):
        i = f['id']
        if i in s.edges: return
        e = s.edges[i] = set(); s.names[i] = '::'.join([x for x in f.get('_path') or () if x] + [str(f.get('name'))])
        lambdas = []
        def ref(d):
            n = s.node(d)
            if n is not None: e.add(n)
        def walk(o):
            if not isinstance(o, dict): return
            k = o.get('kind')
            if k == 'DeclRefExpr':
                r = o['referencedDecl']
                if r.get('kind') in FN: ref(r['id'])
            elif k == 'CallExpr' and made(s.tu, o):
                n = made(s.tu, o); r = s.recs.get(n)
                args = o['inner'][1:]
                same = len(args) == 1 and head(qualtype(args[0])) == n
                for c in (r or {}).get('inner', ()):
                    if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit'):
                        ps = params_of(c)
                        if same == (len(ps) == 1 and head(qualtype(ps[0])) == n): ref(c['id'])
            elif k == 'MemberExpr':
                if o.get('referencedMemberDecl'): ref(o['referencedMemberDecl'])
            elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                s.ctor(qualtype(o), (o.get('ctorType') or {}).get('qualType', ''), e)
            elif k == 'CXXDeleteExpr': s.klass(strip(qualtype(o['inner'][0])).rstrip('*'), e, True)
            if k in ('VarDecl', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'):
                s.klass(qualtype(o), e, True)
            elif k == 'LambdaExpr':
                for c in o['inner'][0].get('inner', ()):
                    if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' and body_of(c) is not None: s.lam(c, e, lambdas)
                    if c.get('kind') == 'FunctionTemplateDecl':
                        for m in c.get('inner', ()):
                            if m.get('kind') == 'CXXMethodDecl' and body_of(m) is not None and any(x.get('kind') == 'TemplateArgument' for x in m.get('inner', ())): s.lam(m, e, lambdas)
                for c in o['inner'][1:-1]: walk(c)
                return
            if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
                t = callee_type(o)
                if t == 'function': s.unknown.setdefault(i, []).append('std::function'); 
                elif t == 'pointer': s.unknown.setdefault(i, []).append('function pointer')
            for c in o.get('inner', ()): walk(c)
            for key in ('anyInit',): pass
        for c in f.get('inner', ()):
            if c.get('kind') in ('ParmVarDecl', 'TemplateArgument'): continue
            walk(c)
        # calls through a type-erased function object: any lambda of this function
        s.erased[i] = lambdas
    def lam(s, m, e, lambdas):
        s.add(m); s.names[m['id']] = '(lambda)'; e.add(m['id']); lambdas.append(m['id'])
    def ctor(s, t, ct, e):
        r = s.recs.get(head(t))
        if r is None: return s.klass(t, e)
        norm = lambda x: re.sub(r'\bnoexcept\b|tomsolver::|internal::|\s', '', x)
        for c in r.get('inner', ()):
            if c.get('kind') == 'CXXConstructorDecl' and norm((c.get('type') or {}).get('qualType', '')) == norm(ct):
                n = s.node(c['id'])
                if n is not None: e.add(n); return
        for c in r.get('inner', ()):
            if c.get('kind') == 'FieldDecl': s.klass(qualtype(c), e)       # implicit: memberwise
        for b in r.get('bases', ()): s.ctor(b['type'].get('desugaredQualType') or b['type']['qualType'], ct.replace(head(t), head(b['type']['qualType'])), e)
    def klass(s, t, e, dtor=False):
        """special members of the class types that occur in type t (dtor: only their destructors)"""
        todo = [t]; seen = set()
        while todo:
            x = strip(todo.pop())
            if x.endswith('*') or x in seen: continue
            seen.add(x)
            h = head(x)
            if h in UP_HEADS or h in ('shared_ptr', 'reference_wrapper'): continue          # no object of the class is made or copied; for ~NodeImpl see above
            todo += [y for y in targs(x) if not y.endswith('&')]
            r = s.recs.get(h)
            if r is None:
                continue
            for c in r.get('inner', ()):
                n = s.node(c['id']) if 'id' in c else None
                if n is None or (c['kind'] == 'CXXDestructorDecl' and h == 'NodeImpl'): continue
                if c['kind'] == 'CXXDestructorDecl' or (not dtor and (c['kind'] == 'CXXConstructorDecl' or c.get('name') == 'operator=')): e.add(n)
                if c.get('kind') == 'FieldDecl': todo.append(qualtype(c))
def pattern(o):
    """the uninstantiated pattern of a template: never runs"""
    if not isinstance(o, dict): return False
    t = (o.get('type') or {}).get('qualType', '') if isinstance(o.get('type'), dict) else ''
    if t in ('<dependent type>', '<overloaded function type>') and o.get('kind') not in ('FunctionDecl', 'CXXMethodDecl'): return True
    if o.get('kind') in ('CXXUnresolvedConstructExpr', 'CXXDependentScopeMemberExpr', 'UnresolvedLookupExpr', 'DependentScopeDeclRefExpr', 'PackExpansionExpr'): return True
    if o.get('kind') == 'LambdaExpr': return False
    return any(pattern(c) for c in o.get('inner', ()))
def made(tu, o):
    """class made by a call of make_unique / make_shared"""
    y = (o.get('inner') or [{}])[0]
    while y.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): y = y['inner'][0]
    if (y.get('referencedDecl') or {}).get('name') not in ('make_unique', 'make_shared'): return None
    m = re.search(r'make_(?:unique|shared)\s*<\s*(?:[\w]+::)*(\w+)', tu.text(o))
    return m.group(1) if m else 'NodeImpl'
def callee_type(o):
    inner = o.get('inner') or [{}]
    x = inner[0]
    if o['kind'] == 'CXXOperatorCallExpr':
        y = x
        while y.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): y = y['inner'][0]
        if (y.get('referencedDecl') or {}).get('name') == 'operator()' and len(inner) > 1 and head(qualtype(inner[1])) == 'function': return 'function'
        return None
    if o['kind'] == 'CallExpr':
        y = x
        while y.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): y = y['inner'][0]
        if y.get('kind') == 'DeclRefExpr' and y['referencedDecl'].get('kind') in FN: return None
        return 'pointer'
    return None

def t_depth(tu, ctx):
    class M: executed = set(); used_contracts = set(); trusted = set()
    ctx.machine = M()
    g = Graph(tu)
    roots = [i for i in g.edges if g.names[i].split('::')[-1] in ROOTS]
    # a type-erased call may reach any lambda turned into a function object where the object can come from: the caller itself and every function that can reach it
    reach = set(); todo = list(roots)
    while todo:
        i = todo.pop()
        if i in reach: continue
        reach.add(i); todo += g.edges[i]
    if any(g.unknown.get(i) for i in reach):
        erased = {l for j in reach for l in g.erased[j]}
        for i in reach:
            if g.unknown.get(i): g.edges[i] = g.edges[i] | erased
    # the classes of the library that own themselves through a pointer
    for n, r in g.recs.items():
        if n == 'NodeImpl': continue
        seen = set(); todo = [qualtype(c) for c in r.get('inner', ()) if c.get('kind') == 'FieldDecl']
        while todo:
            x = strip(todo.pop())
            if x.endswith('*') or x in seen: continue
            seen.add(x); todo += targs(x)
            h = head(x)
            if h == n: raise Unsupported('class %s owns objects of its own class' % n)
            if h in g.recs and h != 'NodeImpl': todo += [qualtype(c) for c in g.recs[h].get('inner', ()) if c.get('kind') == 'FieldDecl']
    rank = {}
    bad = []
    def visit(i, stack):
        # iterative post-order; a back edge is a recursive call
        work = [(i, iter(sorted(g.edges[i])))]; on = {i}
        while work:
            n, it = work[-1]
            for m in it:
                if m in rank: continue
                if m in on: bad.append((n, m)); continue
                work.append((m, iter(sorted(g.edges[m])))); on.add(m); break
            else:
                work.pop(); on.discard(n)
                rank[n] = 1 + max([rank.get(m, 0) for m in g.edges[n]] or [0])
    for r in sorted(roots):
        if r not in rank: visit(r, ())
    rec = {}
    for n, m in bad: rec.setdefault(n, []).append(m)
    for i in sorted(rank):
        nm = g.names[i]
        if nm.split('::')[-1].startswith('vf_'): continue
        M.executed.add(nm)
        for m in sorted(g.edges[i]):
            ok = m in rank and rank[m] < rank[i]
            ctx.obs.append(Obligation('call-depth:%s calls %s' % (nm.split('::')[-1], g.names[m].split('::')[-1]), 'proved' if ok and m not in rec.get(i, ()) else 'unknown'))
    ctx.notes.add('largest rank: %d' % max(rank.values()))
    if len(rank) < 40: raise Unsupported('call graph too small')
    if bad: raise Unsupported('recursion: ' + ', '.join('%s -> %s' % (g.names[a].split('::')[-1], g.names[b].split('::')[-1]) for a, b in bad[:6]))
