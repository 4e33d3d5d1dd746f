"""C20: functions declared non-throwing do not let an exception out.

Exception contract of every function f:  throws(f) = the exception types f may let out.  It is checked function by function: a throw expression, a callee
(by its own contract: declared noexcept, or its throws() set) and a library function (assumed contract: the list NOTHROW below, or its own noexcept) are
the only sources; a handler removes the types it catches.  Obligation of a function declared noexcept: throws(f) is empty.
"""
import re
from .core import *
from .extract import body_of, params_of, qualtype
from .interp import head, strip
from . import tasks_depth as td

# assumed: library functions that throw nothing but on exhaustion of memory, for the way their preconditions are met here
NOTHROW = {'distance', 'equal', 'exchange', 'forward', 'generate', 'get', 'make_unique', 'make_shared', 'make_tuple', 'make_pair', 'max', 'max_element', 'min', 'min_element', 'move', 'tie', 'swap', 'to_string',
           'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'length', 'empty', 'data', 'c_str', 'push', 'pop', 'pop_front', 'push_front', 'emplace_front', 'top', 'front', 'back', 'push_back', 'pop_back', 'emplace_back', 'emplace', 'insert', 'clear', 'find', 'count', 'reserve', 'resize', 'erase', 'reset', 'release', 'str', 'sum', 'apply', 'first', 'second',
           'all_of', 'any_of', 'none_of', 'accumulate', 'inner_product', 'transform', 'copy', 'fill', 'fill_n', 'count_if', 'find_if', 'for_each', 'lexicographical_compare', 'iota', 'next', 'prev', 'advance', 'ref', 'cref', 'assign', 'append',
           'snprintf', 'strtod', 'strlen', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'regex_replace', 'regex_match', 'log', 'exp', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'pow', 'abs', 'fabs', 'isfinite', 'isnan', 'isinf', 'floor', 'ceil', 'fmod', 'sinh', 'cosh', 'tanh', 'log10', 'log2', 'setprecision', 'fixed', 'endl', 'flush', 'what', 'infinity', 'quiet_NaN', 'epsilon', 'lowest', 'capacity', 'shrink_to_fit', 'lower_bound', 'upper_bound', 'equal_to', 'set_difference', 'c_begin', '__normal_iterator'}
CTORS_MAY = {'function', 'bad_alloc'}     # constructors of library classes that are not assumed non-throwing
BAD_CTORS = {'basic_regex', 'regex', 'thread', 'basic_ifstream', 'basic_ofstream', 'random_device'}

def is_noexcept(f):
    t = (f.get('type') or {}).get('qualType', '')
    if re.search(r'noexcept\(false\)', t): return False
    if f['kind'] == 'CXXDestructorDecl': return True
    return bool(re.search(r'\)[^()]*\bnoexcept\b', t)) or bool(re.search(r'\bnoexcept\(', t) and re.search(r'noexcept\(true\)', t)) or t.rstrip().endswith('noexcept')

class Throws:
    def __init__(s, tu):
        s.tu = tu; s.g = td.Graph(tu)
        s.bases = {n: [head(b['type'].get('desugaredQualType') or b['type']['qualType']) for b in r.get('bases', ())] for n, r in s.g.recs.items()}
        s.set = {i: {} for i in s.g.edges}      # function -> {type: reason}
        s.used = {}                             # function -> library functions it relies on
        s.calls = {}
        erased = {l for ls in s.g.erased.values() for l in ls}
        for i in s.g.edges:
            if s.g.unknown.get(i): s.g.edges[i] = s.g.edges[i] | erased
        for i in s.g.edges: s.calls[i] = s.body(i)
        ch = True
        while ch:
            ch = False
            for i, (thr, calls) in s.calls.items():
                new = dict(thr)
                for c, hs in calls:
                    if is_noexcept(tu.byid[c]) : continue
                    for t in s.set[c]:
                        if not s.caught(t, hs): new.setdefault(t, 'call of ' + s.g.names[c])
                if set(new) != set(s.set[i]): s.set[i] = new; ch = True
    def anc(s, t):
        out = {t}; todo = [t]
        while todo:
            for b in s.bases.get(todo.pop(), ()):
                if b not in out: out.add(b); todo.append(b)
        if out & {'runtime_error', 'logic_error', 'exception', 'out_of_range', 'invalid_argument', 'domain_error', 'length_error', 'bad_cast', 'regex_error', 'bad_function_call', 'lib'}: out.add('exception')
        return out
    def caught(s, t, handlers):
        a = s.anc(t)
        return any(h == '...' or h in a for h in handlers)
    def body(s, i):
        f = s.tu.byid[i]; thr = {}; calls = []; used = s.used[i] = set()
        reach = set(s.g.edges[i]); seen = set()
        def add(t, hs, why):
            if not s.caught(t, hs): thr.setdefault(t, why)
        def local(d): 
            n = s.g.node(d)
            return n
        def refs(o):
            # functions of the library referenced at exactly this node
            out = []; k = o.get('kind')
            if k == 'DeclRefExpr' and o['referencedDecl'].get('kind') in td.FN: out.append(o['referencedDecl']['id'])
            if k == 'MemberExpr' and o.get('referencedMemberDecl'): out.append(o['referencedMemberDecl'])
            return [n for n in map(local, out) if n is not None]
        def walk(o, hs, lamb):
            if not isinstance(o, dict): return
            k = o.get('kind')
            if k == 'CXXTryStmt':
                inner = o['inner']; types = []
                for h in inner[1:]:
                    v = [c for c in h.get('inner', ()) if c.get('kind') == 'VarDecl']
                    types.append(head(qualtype(v[0])) if v else '...')
                walk(inner[0], hs + types, lamb)
                for h in inner[1:]: walk(h, hs, lamb)
                return
            if k == 'CXXThrowExpr':
                inn = o.get('inner')
                if not inn: add('rethrow', hs, 'throw;')
                else: add(head(qualtype(inn[0])), hs, 'throw ' + head(qualtype(inn[0])))
            if k == 'DeclRefExpr' and o['referencedDecl'].get('kind') in td.FN and local(o['referencedDecl']['id']) is None:
                d = s.tu.byid.get(o['referencedDecl']['id']); n = o['referencedDecl'].get('name') or ''
                ty = (o['referencedDecl'].get('type') or {}).get('qualType', '')
                if d is not None and d.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and (d.get('isImplicit') or d.get('explicitlyDefaulted')): pass
                elif d is not None and d.get('explicitlyDeleted'): pass
                else:
                    used.add(n)
                    if not (n in NOTHROW or n.startswith('operator') or n.startswith('__') or re.search(r'\)[^()]*\bnoexcept\b', ty)): add('lib', hs, 'library function ' + n)
            if k == 'MemberExpr' and o.get('referencedMemberDecl') and local(o['referencedMemberDecl']) is None and s.tu.byid.get(o['referencedMemberDecl']) is None and '(' in ((o.get('type') or {}).get('qualType', '')+'('):
                n = str(o.get('name')); ty = (o.get('type') or {}).get('qualType', '')
                if ty == '<bound member function type>':
                    used.add(head(qualtype(o['inner'][0])) + '::' + n)
                    if not (n in NOTHROW or n.startswith('operator') or n.startswith('~')): add('lib', hs, 'library function %s::%s' % (head(qualtype(o['inner'][0])), n))
            if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and head(qualtype(o)) in BAD_CTORS and len(o.get('inner', ())) > 0 and head(qualtype(o['inner'][0])) != head(qualtype(o)): add('lib', hs, 'constructor of ' + head(qualtype(o)))
            if k == 'CXXDynamicCastExpr' and not qualtype(o).endswith('*'): add('lib', hs, 'dynamic_cast')
            if k in ('CXXOperatorCallExpr', 'CallExpr'):
                t = td.callee_type(o)
                if t: 
                    add('bad_function_call' if t == 'function' else 'pointer', hs, 'call through a ' + t)
            for n in refs(o): calls.append((n, tuple(hs))); seen.add(n)
            # everything else the call graph knows of (constructors, destructors, make_unique)
            if k in ('CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXDeleteExpr', 'VarDecl', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'LambdaExpr'):
                e = set()
                if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): s.g.ctor(qualtype(o), (o.get('ctorType') or {}).get('qualType', ''), e)
                for n in e: calls.append((n, tuple(hs))); seen.add(n)
            if k == 'LambdaExpr':
                for c in o['inner'][1:-1]: walk(c, hs, lamb)
                for c in o['inner'][0].get('inner', ()):
                    ms = [c] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' else [m for m in c.get('inner', ()) if m.get('kind') == 'CXXMethodDecl'] if c.get('kind') == 'FunctionTemplateDecl' else []
                    for m in ms:
                        if m['id'] in s.g.edges: calls.append((m['id'], tuple(hs))); seen.add(m['id'])
                return
            for c in o.get('inner', ()): walk(c, hs, lamb)
        for c in f.get('inner', ()):
            if c.get('kind') in ('ParmVarDecl', 'TemplateArgument'): continue
            walk(c, [], None)
        for n in reach - seen: calls.append((n, ()))     # found by the call graph only: no handler is assumed
        return thr, calls

def t_noexcept(by_execution={}):
    def task(tu, ctx):
        class M: executed = set(); used_contracts = set(); trusted = set()
        ctx.machine = M()
        t = Throws(tu)
        n = 0; open_ = []
        for i in sorted(t.g.edges):
            f = tu.byid[i]; nm = t.g.names[i]
            if nm.split('::')[-1].startswith('vf_'): continue
            M.executed.add(nm)
            if not is_noexcept(f): continue
            n += 1
            M.trusted |= {'nothrow: ' + u for u in t.used[i]}
            for ty, why in sorted(t.set[i].items()):
                if any(f.get('mangledName', '').startswith(x) for x in by_execution): M.used_contracts.add(nm + ' does not throw: ' + by_execution[[x for x in by_execution if f.get('mangledName', '').startswith(x)][0]]); continue
                open_.append('%s may let %s out (%s)' % (nm, ty, why))
            ctx.obs.append(Obligation('nothrow:' + nm, 'proved' if not [o for o in open_ if o.startswith(nm + ' may')] else 'unknown'))
        ctx.notes.add('%d functions declared non-throwing' % n)
        if n < 60: raise Unsupported('too few functions declared non-throwing')
        if open_: raise Unsupported('; '.join(open_)[:1500])
    return task
