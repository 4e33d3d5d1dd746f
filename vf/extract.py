"""Mechanical extraction of the functions under verification from /repo's current sources.

Clang parses one translation unit that #includes every src/tomsolver/*.cpp (or the single header) and dumps the typed AST
of everything declared in namespace tomsolver (template instantiations and lambdas included).  Nothing is rewritten by
hand: the executor interprets these AST nodes.  Dropped: attributes, comments, source formatting, code excluded by the
preprocessor under the chosen macros (asserts are kept: NDEBUG is not defined).
"""
import json, os, subprocess, glob, hashlib, tempfile

REPO = os.environ.get('VF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'

def unity(kind):
    if kind == 'src':
        files = sorted(glob.glob(REPO + '/src/tomsolver/*.cpp'))
        txt = '#include <tomsolver/tomsolver.h>\n' + ''.join('#include "%s"\n' % f for f in files)
        inc = REPO + '/src'
    else:
        txt = '#include <tomsolver/tomsolver.h>\n'
        inc = REPO + '/single/include'
    # implicit instantiation of the operator templates for all value categories
    ops = {'+': '+=', '-': '-=', '*': '*=', '/': '/=', '^': '^='}
    txt += 'namespace tomsolver { namespace vf_inst {\n'
    n = 0
    for o, oe in ops.items():
        for (a, ea) in (('Node &', 'a'), ('const Node &', 'a'), ('Node &&', 'std::move(a)')):
            for (b, eb) in (('Node &', 'b'), ('const Node &', 'b'), ('Node &&', 'std::move(b)')):
                txt += 'inline Node vf_bin%d(%s a, %s b) { return %s %s %s; }\n' % (n, a, b, ea, o, eb); n += 1
        for (b, eb) in (('Node &', 'b'), ('const Node &', 'b'), ('Node &&', 'std::move(b)')):
            txt += 'inline Node & vf_asg%d(Node & a, %s b) { return a %s %s; }\n' % (n, b, oe, eb); n += 1
        txt += 'inline Node & vf_self%d(Node & a) { return a %s a; }\n' % (n, oe); n += 1
        txt += 'inline Node vf_same%d(Node & a) { return a %s a; }\n' % (n, o); n += 1
        txt += 'inline Node vf_lr%d(Node & a) { return a %s std::move(a); }\n' % (n, o); n += 1
        txt += 'inline Node vf_rl%d(Node & a) { return std::move(a) %s a; }\n' % (n, o); n += 1
    for o in '+-':
        for (a, ea) in (('Node &', 'a'), ('const Node &', 'a'), ('Node &&', 'std::move(a)')):
            txt += 'inline Node vf_un%d(%s a) { return %s%s; }\n' % (n, a, o, ea); n += 1
    for f in 'sin cos tan asin acos atan sqrt log log2 log10 exp'.split():
        for (a, ea) in (('Node &', 'a'), ('const Node &', 'a'), ('Node &&', 'std::move(a)')):
            txt += 'inline Node vf_fn_%s_%d(%s a) { return %s(%s); }\n' % (f, n, a, f, ea); n += 1
    txt += '}}\n'
    return txt, inc

class TU:
    def __init__(self, kind):
        self.kind = kind
        txt, inc = unity(kind)
        d = tempfile.mkdtemp(prefix='vf_')
        try:
            src = os.path.join(d, 'u.cpp')
            open(src, 'w').write(txt)
            cmd = [CLANG, '-std=c++14', '-I', inc, '-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json',
                   '-Xclang', '-ast-dump-filter=tomsolver', src]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise RuntimeError('clang failed on %s:\n%s' % (kind, r.stderr.decode()[:3000]))
            data = r.stdout.decode('utf-8', 'replace')
        finally:
            for f in os.listdir(d): os.unlink(os.path.join(d, f))
            os.rmdir(d)
        dec = json.JSONDecoder()
        i, n = 0, len(data)
        self.roots = []
        while i < n:
            while i < n and data[i] != '{':
                j = data.find('\n', i)
                i = j + 1 if j >= 0 else n
            if i >= n: break
            o, i = dec.raw_decode(data, i)
            self.roots.append(o)
        self.byid = {}
        self.funcs = {}      # qualified name -> list of definitions
        self.records = {}    # id -> record decl
        self.parent = {}
        self.enumvals = {}
        self.srcs = {}
        self.lastfile = None
        for r in self.roots:
            self._file = self._line = None
            self._locs(r)
            self._index(r, ())
        self._link()

    def _locs(self, o):
        # undo clang's delta encoding of source locations (document order)
        if isinstance(o, dict):
            if 'offset' in o:
                if 'file' in o: self._file = o['file']
                if 'line' in o: self._line = o['line']
                o['_file'] = self._file; o['_line'] = self._line
                return
            for v in o.values():
                if isinstance(v, (dict, list)): self._locs(v)
        else:
            for v in o:
                if isinstance(v, (dict, list)): self._locs(v)

    def text(self, o):
        """source text of a node"""
        r = o.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        b = b.get('spellingLoc', b); e = e.get('spellingLoc', e)
        f = b.get('_file')
        if not f or 'offset' not in e: return ''
        if f not in self.srcs:
            try: self.srcs[f] = open(f, 'rb').read()
            except OSError: self.srcs[f] = b''
        return self.srcs[f][b['offset']:e['offset'] + e.get('tokLen', 1)].decode('utf-8', 'replace')

    def _index(self, o, path):
        if not isinstance(o, dict): return
        k = o.get('kind')
        if k and 'id' in o:
            if k.endswith('Decl') or k.endswith('Type'):
                old = self.byid.get(o['id'])
                if old is None or (not old.get('inner') and o.get('inner')):
                    self.byid[o['id']] = o
        p = path
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplateDecl', 'EnumDecl'):
            p = path + (o.get('name', '(anon)'),)
            if k == 'NamespaceDecl' and 'name' not in o:
                p = path + ('(anon)',)
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            o['_path'] = p
            if o.get('inner'): self.records[o['id']] = o
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            o['_path'] = path
        for c in o.get('inner', ()):
            if isinstance(c, dict) and c:
                c.setdefault('_up', o.get('id'))
                self._index(c, p)

    def _link(self):
        # map declaration ids to definitions (same mangled name), and names to definitions
        self.defs = {}
        bymangled = {}
        allf = [o for o in self.byid.values()
                if o['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')]
        for f in allf:
            if body_of(f) is not None:
                bymangled[f.get('mangledName', f['id'])] = f
        for f in allf:
            d = bymangled.get(f.get('mangledName', f['id']))
            if d is not None: self.defs[f['id']] = d
            if f.get('previousDecl') and d is None:
                pass
        for f in bymangled.values():
            self.funcs.setdefault(f.get('name'), []).append(f)
        for o in self.byid.values():
            if o['kind'] == 'EnumDecl':
                v = 0
                for c in o.get('inner', ()):
                    if c.get('kind') == 'EnumConstantDecl':
                        ev = const_value(c)
                        if ev is not None: v = ev
                        self.enumvals[c['id']] = v
                        v += 1

def const_value(c):
    for i in c.get('inner', ()):
        if i.get('kind') == 'ConstantExpr' and 'value' in i: return int(i['value'])
        r = const_value(i)
        if r is not None: return r
    return None

def body_of(f):
    for c in f.get('inner', ()):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
    if f.get('explicitlyDefaulted') == 'default' or f.get('isImplicit'): return None
    return None

def params_of(f):
    return [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

def qualtype(o):
    t = o.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
