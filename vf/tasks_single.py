"""C21: the single header is the library.

Contract: for every function f of the multi-file library, the single-header function of the same name and type returns the same result and has the
same effect as f.  Discharged function by function: the bodies (typed AST, names and overloads resolved, every template instantiation) are compared
after forgetting source positions, node identities and the names of locals and parameters; the callees are assumed to meet the same contract
(partial correctness; the induction is on the length of the execution).  A function whose code differs is not decided here.
"""
import re
from .core import *
from .extract import body_of, params_of

SKIP = {'id', 'loc', 'range', '_file', '_line', '_up', '_path', 'isUsed', 'isReferenced', 'mangledName', 'previousDecl', 'parentDeclContextId', 'inline',
        'typeAliasDeclId', 'referencedMemberDecl', 'foundReferencedDecl', 'isImplicit', 'storageClass', 'path', 'nrvo', 'declId', 'targetLabelDeclId', 'hadMultipleCandidates',
        'closureRecord', 'definitionData', 'tagUsed', 'completeDefinition', 'text'}
FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class Norm:
    def __init__(s, tu): s.tu = tu; s.locals = {}
    def typ(s, t):
        if isinstance(t, dict): t = t.get('desugaredQualType') or t.get('qualType') or ''
        return re.sub(r'\((lambda|anonymous class|unnamed class) at [^)]*\)', '(lambda)', re.sub(r'0x[0-9a-f]+', '', t))
    def qn(s, i, r):
        d = s.tu.byid.get(i)
        if d is None: return r.get('name')
        p = d.get('_path')
        for key in ('parentDeclContextId', '_up'):
            r = s.tu.byid.get(d.get(key))
            if r is not None and r['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and r.get('_path'): p = r['_path']; break
        else:
            q = s.tu.byid.get(d.get('previousDecl'))
            if q is not None and q is not d and d['kind'] != 'FunctionDecl': return s.qn(q['id'], q)
        if p is None and d.get('_up') in s.tu.byid: p = (s.tu.byid[d['_up']].get('name'),)
        return '::'.join([x for x in (p or ()) if x] + [str(d.get('name'))])
    def ref(s, r):
        i = r.get('id')
        if i in s.locals: return ('local', s.locals[i])
        return (r.get('kind'), s.qn(i, r), s.typ(r.get('type') or ''))
    def node(s, o):
        if not isinstance(o, dict) or not o: return None
        k = o.get('kind')
        if k in ('FullComment', 'ParagraphComment', 'TextComment') or (k and k.endswith('Attr')): return ('skip',)
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'LabelDecl') and 'id' in o and o['id'] not in s.locals: s.locals[o['id']] = len(s.locals)
        out = [k]
        for a in sorted(o):
            if a in SKIP or a in ('inner', 'kind'): continue
            v = o[a]
            if a == 'name' and k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'): continue
            if a in ('type', 'argType', 'computeLHSType', 'computeResultType', 'ctorType', 'adjustedTypeArg'): v = s.typ(v)
            elif a in ('referencedDecl', 'anyInit', 'ctor', 'extendingDecl', 'conversionFunc', 'temp'): v = s.ref(v) if isinstance(v, dict) and 'kind' in v else None
            elif a in ('baseInit', 'delegatingInit'): v = s.typ(v)
            elif isinstance(v, str): v = s.typ(v)
            elif isinstance(v, (dict, list)): v = s.node(v) if isinstance(v, dict) else tuple(s.node(x) if isinstance(x, dict) else x for x in v)
            out.append((a, v))
        inner = o.get('inner', ())
        if k == 'FunctionTemplateDecl': inner = [c for c in inner if any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', ()) if isinstance(x, dict))]     # instantiations only
        if k == 'LambdaExpr' and any(c.get('kind') == 'FunctionTemplateDecl' for c in inner[0].get('inner', ())): inner = inner[:-1]     # generic lambda: its instantiations are compared
        if k == 'CallExpr' and inner:
            x = inner[0]
            while x.get('kind') in ('ImplicitCastExpr',): x = x['inner'][0]
            if (x.get('referencedDecl') or {}).get('name') == '__assert_fail': inner = inner[:2]     # file and line of the assertion
        if k == 'SourceLocExpr': return (k,)
        out.append(tuple(x for x in (s.node(c) for c in inner) if x != ('skip',)))
        return tuple(out)

def table(tu):
    """name of a declaration -> normal form, for everything declared in namespace tomsolver"""
    out = {}
    for f in {id(f): f for f in tu.defs.values()}.values():
        if f.get('name', '').startswith('vf_'): continue
        n = Norm(tu)
        tds = tuple(n.typ(c.get('type') or '') for c in f.get('inner', ()) if c.get('kind') == 'TemplateArgument')
        key = n.qn(f['id'], f) + ' : ' + n.typ(f.get('type')) + (' <%s>' % ', '.join(tds) if tds else '')
        up = tu.byid.get(f.get('_up')) or {}
        if (up.get('kind') == 'FunctionTemplateDecl' and not tds) or '<dependent type>' in key: continue      # the pattern; its instantiations are compared
        if '(lambda' in key or any('(anonymous' in str(p) for p in f.get('_path') or ()): continue      # compared inside the function they belong to
        nf = tuple(x for x in (n.node(c) for c in f.get('inner', ()) if c.get('kind') != 'TemplateArgument') if x != ('skip',))
        out.setdefault(key, []).append(nf)
    for r in tu.records.values():
        n = Norm(tu)
        if not r.get('name') or r.get('isImplicit'): continue
        fields = tuple(n.node(c) for c in r.get('inner', ()) if c.get('kind') == 'FieldDecl')
        bases = tuple(n.typ(b['type']) for b in r.get('bases', ()))
        out.setdefault('class ' + '::'.join(r['_path']), []).append((fields, bases))
        for c in r.get('inner', ()):
            if c.get('kind') in FN and not c.get('isImplicit'):
                out.setdefault('member %s::%s : %s' % ('::'.join(r['_path']), c.get('name'), n.typ(c.get('type'))), []).append((c.get('virtual'), c.get('explicitlyDefaulted'), c.get('explicitlyDeleted'), c.get('access')))
    for o in tu.byid.values():
        n = Norm(tu)
        if o['kind'] == 'EnumDecl': out.setdefault('enum ' + str(o.get('name')), []).append(tuple((c.get('name'), tu.enumvals.get(c['id'])) for c in o.get('inner', ()) if c.get('kind') == 'EnumConstantDecl'))
        if o['kind'] in FN:
            for i, p in enumerate(params_of(o)):
                ini = [c for c in p.get('inner', ()) if 'kind' in c]
                if ini: out.setdefault('default argument %d of %s : %s' % (i, n.qn(o['id'], o), n.typ(o.get('type'))), []).append(tuple(n.node(c) for c in ini))
        if o['kind'] == 'VarDecl' and tu.byid.get(o.get('_up'), {}).get('kind') == 'NamespaceDecl':
            out.setdefault('variable ' + n.qn(o['id'], o), []).append((n.typ(o.get('type')), tuple(n.node(c) for c in o.get('inner', ()))))
    return {k: set(v) for k, v in out.items()}

def t_same(tus, ctx):
    class M: executed = set(); used_contracts = set(); trusted = set()
    ctx.machine = M()
    a, b = table(tus['src']), table(tus['single'])
    if len(a) < 100: raise Unsupported('extraction found too little')
    diff = []
    for k in sorted(set(a) | set(b)):
        nm = k.split(' : ')[0]
        if k in a and k in b and a[k] == b[k]:
            ctx.obs.append(Obligation('same-code:' + nm, 'proved')); M.executed.add(nm)
        else:
            if nm.startswith('member ') and k not in a or k not in b:
                pass
            diff.append(nm); ctx.obs.append(Obligation('same-code:' + nm, 'unknown'))
    if diff: raise Unsupported('the editions differ in ' + ', '.join(sorted(set(diff)))[:1500])
