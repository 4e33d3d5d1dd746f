"""Executes clang AST nodes of /repo's functions symbolically; callees under contract are replaced by their contract."""
import re, z3
from . import extract
from .extract import body_of, params_of, qualtype
from .core import *

def ty(o):
    t = o.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
def sugar(o):
    return (o.get('type') or {}).get('qualType') or ''

_cv = re.compile(r'\b(const|volatile|struct|class|typename|enum)\b ?')
def strip(t):
    t = _cv.sub('', t).strip()
    while t.endswith('&'): t = t[:-1].strip()
    return t
def head(t):
    t = strip(t)
    depth = 0; out = ''
    for ch in t:
        if ch == '<': depth += 1
        if depth == 0: out += ch
        if ch == '>': depth -= 1
    return out.strip().split('::')[-1].strip()
def targs(t):
    i = t.find('<')
    if i < 0: return []
    depth = 0; cur = ''; out = []
    for ch in t[i:]:
        if ch == '<':
            depth += 1
            if depth == 1: continue
        if ch == '>':
            depth -= 1
            if depth == 0: out.append(cur.strip()); break
        if ch == ',' and depth == 1: out.append(cur.strip()); cur = ''; continue
        cur += ch
    return out
def is_ref(t): return t.rstrip().endswith('&')
def is_ptr(t): return strip(t).endswith('*')
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'char', 'bool', 'size_t',
        'unsigned char', 'unsigned', 'ptrdiff_t', 'difference_type', 'size_type', 'uint64_t', 'signed char', 'unsigned short', 'std::size_t',
        'int64_t', 'int32_t', 'uint32_t', 'std::ptrdiff_t'}
UP_HEADS = {'unique_ptr', 'Node', '__unique_ptr_t', '__single_object', 'SfinaeNode'}
SEQ_HEADS = {'stack', 'queue', 'deque', 'vector', 'list', 'forward_list', 'initializer_list', 'array'}
INLINE_DEPTH = 60

class Frame:
    def __init__(s, fn, this=None):
        s.fn, s.this, s.env, s.temps, s.ext = fn, this, {}, [], None
        s.noexcept = False

class Interp:
    def __init__(self, tu, ctx, dom, lib):
        self.tu, self.ctx, self.dom = tu, ctx, dom
        self.lib = lib
        lib.I = self
        self.contracts = {}
        self.loop_hooks = []
        self.depth = 0
        self.statics = {}
        self.rec_by_name = {}
        for r in tu.records.values():
            n = r.get('name')
            if n: self.rec_by_name.setdefault(n, r)
        self.qn_cache = {}
        self.executed = set()      # functions whose bodies were executed (inlined or verified)
        self.used_contracts = set()
        self.trusted = set()       # library functions given by assumed contracts
        self.fn_stack = []
        self.frames = []
        self.noexcept_ob = 'noexcept'

    # ------------------------------------------------------------ names
    def qname(self, f):
        k = f['id']
        if k in self.qn_cache: return self.qn_cache[k]
        p = f.get('_path') or ()
        if f['kind'] != 'FunctionDecl':
            rec = None
            for key in ('parentDeclContextId', '_up'):
                r = self.tu.byid.get(f.get(key))
                if r is not None and r['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    rec = r; break
            if rec is None and f.get('previousDecl'):
                q = self.tu.byid.get(f['previousDecl'])
                if q: p = q.get('_path') or p
            elif rec is not None:
                p = rec.get('_path') or p
        n = '::'.join([x for x in p if x] + [f.get('name') or '?'])
        self.qn_cache[k] = n
        return n
    def record(self, t):
        h = head(t)
        return self.rec_by_name.get(h)
    def fields_of(self, rec):
        out = []
        for b in rec.get('bases', ()):
            br = self.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if br: out += self.fields_of(br)
        out += [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        return out
    def derives(self, tname, base):
        """class name tname == base or derived from it"""
        if base in ('...',): return True
        if tname == base: return True
        std = {'runtime_error': ['exception'], 'out_of_range': ['logic_error'], 'logic_error': ['exception'], 'invalid_argument': ['logic_error'],
               'bad_function_call': ['exception'], 'length_error': ['logic_error'], 'bad_alloc': ['exception'], 'regex_error': ['runtime_error'], 'system_error': ['runtime_error']}
        if tname in std: return any(self.derives(b, base) for b in std[tname])
        r = self.rec_by_name.get(tname)
        if r:
            for b in r.get('bases', ()):
                if self.derives(head(b['type'].get('desugaredQualType') or b['type']['qualType']), base): return True
        return False

    # ------------------------------------------------------------ defaults
    def new_node(self, fields=None):
        return None
    def default(self, t, value_init=False):
        """default constructed value of type t (class object, or raw scalar)"""
        s = strip(t)
        h = head(t)
        now = self.ctx.time
        if s.endswith('*'): return None if value_init else UNINIT
        if h in UP_HEADS: return UP(None, now)
        if h in SEQ_HEADS:
            a = targs(s)
            if hasattr(self.lib, 'new_seq'):
                q = self.lib.new_seq(h, a[0] if a else '')
                if q is not None: return q
            return Seq(h, a[0] if a else '', now)
        if h in ('basic_string', 'string'): return Str('', now)
        if h in ('set', 'unordered_set'): return SetV(now)
        if h in ('map', 'unordered_map'): return self.lib.new_map(t) if hasattr(self.lib, 'new_map') else MapV(now)
        if h in ('basic_stringstream', 'stringstream', 'ostringstream', 'basic_ostringstream', 'basic_ostream', 'ostream'): return Stream(now)
        if h in ('tuple', 'pair'): return Tuple([self.boxed(self.default(x, True), x) for x in targs(s)])
        if h in ('less', 'less_equal', 'greater', 'greater_equal', 'equal_to', 'not_equal_to'): return Ext(h)
        if h == 'valarray': return self.lib.new_valarray(targs(s)[0])
        if s in INTS or s in ('double', 'float'):
            if not value_init: return UNINIT
            return self.dom.lit(0.0) if s in ('double', 'float') else (False if s == 'bool' else 0)
        r = self.record(t)
        if r is not None:
            return self.construct(r, t, 'void ()', [], value_init=value_init)
        if self.is_enum(t): return 0 if value_init else UNINIT
        raise Unsupported('default value of type ' + t)
    def is_enum(self, t):
        h = head(t)
        return any(o['kind'] == 'EnumDecl' and o.get('name') == h for o in self.tu.byid.values())
    def is_scalar(self, v):
        return v is None or v is UNINIT or isinstance(v, (int, float, bool, z3.ExprRef, CPtr, It)) or isinstance(v, str)
    def boxed(self, v, t=''):
        """storage for a value: scalars/pointers get a Cell"""
        if isinstance(v, Cell): return v
        if is_ptr(t) or self.is_scalar(v): return Cell(v, self.ctx.time)
        return v
    def get(self, x):
        if isinstance(x, Cell):
            if x.v is UNINIT: self.ctx.fail('uninitialised-read')
            if isinstance(x.v, Poison): raise Unsupported('reads state the loop contract does not describe')
            return x.v
        return x

    # ------------------------------------------------------------ object access
    def touch(self, o):
        """o is about to be dereferenced"""
        if o is None: self.ctx.fail('null-dereference')
        if isinstance(o, Obj):
            if o.freed: self.ctx.fail('use-after-free')
            if o.poison: raise Unsupported('access to ' + o.poison)
        return o
    def wrote(self, c):
        fz = getattr(c, 'frozen', None)
        if fz: raise Unsupported('loop body modifies state outside the loop contract (%s)' % fz)
    def assign(self, cell, v):
        if not isinstance(cell, Cell): raise Unsupported('assignment to %r' % (cell,))
        self.wrote(cell)
        cell.v = v
    def destroy(self, o):
        if isinstance(o, UP): self.lib.up_reset(o)
        elif isinstance(o, Obj):
            if o.freed: return
            r = self.rec_by_name.get(o.cls)
            for v in list(o.f.values()):
                if isinstance(v, UP): self.lib.up_reset(v)
                elif isinstance(v, Obj) and getattr(v, 'host', None) is o: self.destroy(v)
            o.freed = True
        elif isinstance(o, Seq):
            for v in o.items: 
                if isinstance(v, (UP, Obj)): self.destroy(v)
        elif isinstance(o, Tuple):
            pass

    # ------------------------------------------------------------ copies
    def copy(self, v):
        now = self.ctx.time
        if isinstance(v, Cell): return Cell(v.v, now)
        if self.is_scalar(v): return v
        if isinstance(v, Str): return Str(v.v, now)
        if isinstance(v, (RefWrap, FnRef, Closure, Ext, It, CPtr)): return v
        if isinstance(v, Tuple): return type(v)([x if getattr(x, '_isref', False) else self.copy(x) for x in v.items])
        if isinstance(v, Seq):
            s = Seq(v.kind, v.elem, now)
            s.items = [x if isinstance(x, Seg) else self.copy(x) for x in v.items]
            return s
        if isinstance(v, SetV):
            s = SetV(now); s.items = list(v.items); return s
        if isinstance(v, MapV):
            s = MapV(now); s.entries = list(v.entries); s.base = v.base; return s
        if isinstance(v, Obj):
            r = self.rec_by_name[v.cls]
            return self.construct(r, v.cls, 'void (const %s &)' % v.cls, [v])
        if hasattr(v, 'copy_value'): return v.copy_value(self)
        raise Unsupported('copy of %r' % (v,))
    def move(self, v):
        now = self.ctx.time
        if isinstance(v, UP):
            u = UP(None, now); self.lib.up_take(u, v); return u
        if isinstance(v, Seq):
            s = Seq(v.kind, v.elem, now); s.items = v.items; self.wrote(v); v.items = []
            return s
        if isinstance(v, Obj):
            r = self.rec_by_name[v.cls]
            return self.construct(r, v.cls, 'void (%s &&)' % v.cls, [v])
        if isinstance(v, Str):
            s = Str(v.v, now); return s
        if isinstance(v, Tuple):
            return type(v)([x if getattr(x, '_isref', False) else self.move(x) for x in v.items])
        if hasattr(v, 'move_value'): return v.move_value(self)
        return self.copy(v)
    def set_value(self, dst, src, move=False):
        """*dst = src for class objects / cells"""
        if isinstance(dst, Cell):
            return self.assign(dst, self.get(src))
        if dst is src: return
        if isinstance(dst, UP):
            if src is None: return self.lib.up_reset(dst)
            return self.lib.up_assign(dst, src)
        if isinstance(dst, Str): self.wrote(dst); dst.v = src.v if isinstance(src, Str) else self.lib.str_val(src) if isinstance(src, CPtr) else src; return
        if isinstance(dst, Seq):
            self.wrote(dst)
            c = self.move(src) if move else self.copy(src)
            dst.items = c.items; return
        if isinstance(dst, SetV): self.wrote(dst); dst.items = list(src.items); return
        if isinstance(dst, MapV): self.wrote(dst); dst.entries = list(src.entries); dst.base = src.base; return
        if isinstance(dst, Tuple):
            for a, b in zip(dst.items, src.items): self.set_value_item(dst, a, b)
            return
        if isinstance(dst, Obj):
            # implicit member-wise assignment
            r = self.rec_by_name[dst.cls]
            for fd in self.fields_of(r):
                n = fd['name']
                if is_ref(ty(fd)): raise Unsupported('assignment of a reference member')
                if dst.f.get(n) is UNINIT or dst.f.get(n) is None or isinstance(dst.f.get(n), Cell):
                    dst.f[n].v = self.get(src.f[n])
                else:
                    self.set_value(dst.f[n], src.f[n], move)
            return
        if hasattr(dst, 'assign_value'): return dst.assign_value(self, src, move)
        raise Unsupported('assignment to %r' % (dst,))
    def set_value_item(self, t, a, b):
        self.set_value(a, b)

    # ------------------------------------------------------------ construction
    def find_ctor(self, rec, ctype):
        c = self.tu.__dict__.setdefault('_ctors', {}); k = (rec.get('name'), ctype)
        if k not in c: c[k] = self.find_ctor_(rec, ctype)
        return c[k]
    def find_ctor_(self, rec, ctype):
        want = re.sub(r'\s+', ' ', ctype)
        cands = []
        for f in self.tu.byid.values():
            if f['kind'] == 'CXXConstructorDecl' and f.get('name') == rec.get('name'):
                up = f.get('parentDeclContextId') or f.get('_up')
                cands.append(f)
        def norm(t): return re.sub(r'\bnoexcept\b', '', re.sub(r'\s+', ' ', t)).replace('tomsolver::', '').replace('internal::', '').strip()
        w = norm(want)
        for f in cands:
            if norm(sugar(f)) == w:
                return self.tu.defs.get(f['id'], f)
        return None
    def construct(self, rec, t, ctype, args, into=None, value_init=False, frame=None):
        now = self.ctx.time
        obj = into if into is not None else Obj(rec['name'], {}, now)
        self.lib.on_new(obj)
        f = self.find_ctor(rec, ctype)
        if f is not None and body_of(f) is not None and not f.get('explicitlyDefaulted') and not f.get('isImplicit'):
            c = self.contracts.get(self.qname(f))
            if c is not None and c(self, obj, args, f) is not NotImplemented:
                self.used_contracts.add(self.qname(f)); return obj
            self.call_function(f, obj, args)
            return obj
        # implicit / defaulted
        if len(args) == 1 and isinstance(args[0], Obj):
            src = args[0]; self.touch(src)
            mv = '&&' in ctype
            for fd in self.fields_of(rec):
                n = fd['name']
                if is_ref(ty(fd)): obj.f[n] = src.f[n]
                else:
                    obj.f[n] = self.move(src.f[n]) if mv else self.copy(src.f[n])
                    self.adopt(obj, n)
            return obj
        if not args:
            for fd in self.fields_of(rec):
                n = fd.get('name')
                init = [c for c in fd.get('inner', ()) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                if init:
                    fr = Frame(None, obj)
                    v = self.rv_init(init[0], ty(fd), fr)
                    obj.f[n] = self.boxed(v, ty(fd))
                else:
                    obj.f[n] = self.boxed(self.default(ty(fd), value_init), ty(fd))
                self.adopt(obj, n)
            return obj
        raise Unsupported('constructor %s of %s' % (ctype, rec['name']))
    def adopt(self, obj, n):
        v = obj.f.get(n)
        if isinstance(v, UP): v.host = obj
    def run_ctor_inits(self, f, obj, frame):
        done = set()
        rec = self.rec_by_name.get(obj.cls)
        for c in f.get('inner', ()):
            if c.get('kind') != 'CXXCtorInitializer': continue
            e = c['inner'][0]
            if 'anyInit' in c:
                fd = c['anyInit']; n = fd.get('name')
                if fd.get('kind') == 'IndirectFieldDecl': raise Unsupported('indirect field')
                full = self.tu.byid.get(fd['id'], fd)
                ft = ty(full) or ty(fd)
                if e.get('kind') == 'CXXDefaultInitExpr':
                    obj.f[n] = self.boxed(self.field_default(obj, rec, n, ft), ft); self.adopt(obj, n); done.add(n); continue
                if is_ref(ft):
                    obj.f[n] = self.ev(e, frame)
                else:
                    obj.f[n] = self.boxed(self.rv_init(e, ft, frame), ft)
                self.adopt(obj, n)
                done.add(n)
            elif 'baseInit' in c or 'delegatingInit' in c:
                bt = (c.get('baseInit') or c.get('delegatingInit'))
                t = bt.get('desugaredQualType') or bt.get('qualType')
                r = self.record(t)
                ee = e
                while ee.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ee = ee['inner'][0]
                if r is None:
                    # library base class (std::runtime_error ...)
                    if ee.get('kind') == 'CXXConstructExpr':
                        obj.f['(base)'] = Ext(head(t), [self.ev(a, frame) for a in ee.get('inner', ())])
                    continue
                if ee.get('kind') == 'CXXConstructExpr':
                    cts = ee.get('ctorType', {}).get('qualType', 'void ()')
                    if any(a.get('kind') == 'CXXDefaultArgExpr' for a in ee.get('inner', ())): args = self.args(ee['inner'], frame, self.find_ctor(r, cts))
                    else: args = [self.ev_arg(a, frame) for a in ee.get('inner', ())]
                    self.construct(r, t, cts, args, into=obj)
                    if 'delegatingInit' in c: done.update(obj.f)
                elif ee.get('kind') == 'CXXInheritedCtorInitExpr':
                    raise Unsupported('inherited constructor')
                else: raise Unsupported('base initialiser ' + ee.get('kind'))
            else:
                raise Unsupported('constructor initialiser')
        if rec is not None:
            for fd in [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']:
                n = fd.get('name')
                if n not in obj.f:
                    if is_ref(ty(fd)): raise Unsupported('uninitialised reference member')
                    obj.f[n] = self.boxed(self.default(ty(fd)), ty(fd)); self.adopt(obj, n)

    def field_default(self, obj, rec, n, ft):
        for fd in self.fields_of(rec):
            if fd.get('name') == n:
                init = [c for c in fd.get('inner', ()) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                if init: return self.rv_init(init[0], ft, Frame(None, obj))
        raise Unsupported('default member initialiser')
    # ------------------------------------------------------------ calls
    def is_noexcept(self, f):
        t = sugar(f)
        if f['kind'] == 'CXXDestructorDecl': return 'noexcept(false)' not in t
        return bool(re.search(r'\)[^()]*\bnoexcept\b(?!\(false\))', t))
    def call_decl(self, decl, this, args, frame=None):
        d = self.tu.defs.get(decl['id'], decl)
        q = self.qname(d)
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, this, args, d)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        if body_of(d) is not None:
            return self.call_function(d, this, args)
        if d.get('isImplicit') or d.get('explicitlyDefaulted'):
            if d.get('name') == 'operator=':
                self.set_value(this, args[0], '&&' in sugar(d)); return this
        raise Unsupported('no definition for ' + q)
    def call_function(self, f, this, args):
        self.depth += 1
        if self.depth > INLINE_DEPTH: raise Unsupported('call depth (recursion not under contract): ' + self.qname(f))
        self.executed.add(self.qname(f))
        fr = Frame(f, this)
        try:
            ps = params_of(f)
            if len(args) < len(ps):
                for p in ps[len(args):]:
                    args = list(args) + [self.default_arg(f, p)]
            locals_ = []
            for p, a in zip(ps, args):
                t = ty(p)
                if is_ref(t):
                    fr.env[p['id']] = a if isinstance(a, (Cell,)) or not self.is_scalar(a) else Cell(a, self.ctx.time)
                else:
                    v = a.v if isinstance(a, Cell) else a
                    b = self.boxed(v, t)
                    fr.env[p['id']] = b; locals_.append(b)
            try:
                self.fn_stack.append(f); self.frames.append(fr)
                if f['kind'] == 'CXXConstructorDecl': self.run_ctor_inits(f, this, fr)
                try:
                    self.stmt(body_of(f), fr)
                    r = None
                except ReturnEx as e:
                    r = e.v
                for b in reversed(locals_):
                    if isinstance(b, (UP, Seq)) or (isinstance(b, Obj) and b is not r): 
                        if b is not r: self.destroy(b)
                if self.is_noexcept(f): self.ctx.obs.append(Obligation(self.noexcept_ob + ':' + self.qname(f), 'proved'))
                return r
            except CppThrow as e:
                for b in reversed(locals_):
                    if isinstance(b, (UP, Seq, Obj)): self.destroy(b)
                if self.is_noexcept(f):
                    self.ctx.fail(self.noexcept_ob + ':' + self.qname(f), str(e))
                raise
            finally:
                self.fn_stack.pop(); self.frames.pop()
        finally:
            self.depth -= 1
    def default_arg(self, f, p):
        """default argument of parameter p: search redeclarations"""
        idx = [x['id'] for x in params_of(f)].index(p['id'])
        if '_mangled' not in self.tu.__dict__:
            m = self.tu._mangled = {}
            for g in self.tu.byid.values(): m.setdefault((g.get('mangledName'), g['kind']), []).append(g)
        for g in self.tu._mangled.get((f.get('mangledName'), f['kind']), ()):
            if True:
                pp = params_of(g)
                if idx < len(pp):
                    ini = [c for c in pp[idx].get('inner', ()) if 'kind' in c]
                    if ini:
                        fr = Frame(None, None)
                        return self.rv_init(ini[0], ty(p), fr)
        raise Unsupported('default argument of ' + self.qname(f))
    def call_closure(self, c, args):
        self.depth += 1
        if self.depth > INLINE_DEPTH: raise Unsupported('call depth')
        try:
            fr = Frame(c.fn, c.caps.get('this'))
            fr.env.update(c.caps)
            if len(args) < len(c.params):
                args = list(args)
                for p in c.params[len(args):]:
                    ini = [x for x in p.get('inner', ()) if 'kind' in x]
                    if not ini: raise Unsupported('missing argument of a lambda')
                    args.append(self.rv_init(ini[0], ty(p), Frame(None)))
            for p, a in zip(c.params, args):
                t = ty(p)
                if is_ref(t) or sugar(p).strip().endswith('&'):
                    fr.env[p['id']] = a if isinstance(a, Cell) or not self.is_scalar(a) else Cell(a, self.ctx.time)
                else:
                    v = a.v if isinstance(a, Cell) else a
                    if isinstance(v, (CPtr, Str)) and head(t) not in ('basic_string', 'string') and self.record(t) is not None:     # implicit conversion
                        v = self.lib.construct_by_args(self.record(t), t, [v])
                    fr.env[p['id']] = self.boxed(v, t)
            r = None
            self.frames.append(fr)
            try:
                try:
                    self.stmt(c.body, fr)
                except ReturnEx as e:
                    r = e.v
            except CppThrow as e:
                if c.fn is not None and self.is_noexcept(c.fn):
                    self.ctx.fail(self.noexcept_ob + ':lambda', str(e))
                raise
            finally: self.frames.pop()
            for p, a in zip(c.params, args):
                b = fr.env.get(p['id'])
                if not is_ref(ty(p)) and isinstance(b, (UP,)) and b is not r: self.destroy(b)
            return r
        finally:
            self.depth -= 1
    def call_value(self, f, args):
        """call something callable passed to an algorithm"""
        if isinstance(f, Cell): f = f.v
        if isinstance(f, Closure): return self.call_closure(f, args)
        if isinstance(f, FnRef):
            if f.decl['id'] in self.tu.byid: return self.call_decl(self.tu.byid[f.decl['id']], None, args)
            return self.lib.free(f.decl.get('name'), args, None)
        if isinstance(f, Ext): return self.lib.call_ext(f, args)
        raise Unsupported('call of %r' % (f,))

    # ------------------------------------------------------------ statements
    def stmt(self, s, fr):
        if not s: return
        k = s['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(s, fr)
        self.full(s, fr)
    def full(self, e, fr):
        """full expression: evaluate, then destroy temporaries"""
        saved = fr.temps; fr.temps = []
        try:
            return self.ev(e, fr)
        finally:
            t = fr.temps; fr.temps = saved
            for x in reversed(t):
                if isinstance(x, (UP, Obj)): self.destroy(x)
    def s_CompoundStmt(self, s, fr):
        self.block(s.get('inner', ()), fr)
    def block(self, stmts, fr):
        saved = getattr(fr, 'locals', None)
        fr.locals = []
        try:
            for x in stmts: self.stmt(x, fr)
        except ReturnEx as e:
            self.end_scope(fr, e.v); raise
        except (BreakEx, ContinueEx, CppThrow):
            self.end_scope(fr); raise
        else:
            self.end_scope(fr)
        finally:
            fr.locals = saved
    def end_scope(self, fr, keep=None):
        for o in reversed(fr.locals or ()):
            if o is not keep: self.destroy(o)
    def s_NullStmt(self, s, fr): pass
    def s_DeclStmt(self, s, fr):
        for d in s.get('inner', ()):
            if d['kind'] == 'VarDecl': self.vardecl(d, fr)
    def vardecl(self, d, fr):
        t = ty(d)
        if d.get('storageClass') == 'static':
            if d['id'] not in self.statics:
                ini = [c for c in d.get('inner', ()) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                self.statics[d['id']] = self.boxed(self.rv_init(ini[0], t, fr) if ini else self.default(t, True), t)
            fr.env[d['id']] = self.statics[d['id']]
            return
        ini = [c for c in d.get('inner', ()) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith(('Attr', 'Decl', 'Comment'))]
        if is_ref(t) or is_ref(sugar(d)):
            v = self.ev_top(ini[0], fr)
            if self.is_scalar(v) and not isinstance(v, Cell): v = Cell(v, self.ctx.time)
            fr.env[d['id']] = v
            return
        if ini:
            v = self.ev_top(ini[0], fr, t)
        else:
            v = self.default(t)
        v = v.v if isinstance(v, Cell) and (is_ptr(t) or self.is_scalar(v.v)) else v
        b = self.boxed(v, t)
        if isinstance(b, Seq) and b.kind in ('initializer_list',): b.kind = head(t) if head(t) in SEQ_HEADS else b.kind
        fr.env[d['id']] = b
        if getattr(fr, 'locals', None) is not None: fr.locals.append(b)
    def ev_top(self, e, fr, t=None):
        saved = fr.temps; fr.temps = []
        try:
            v = self.rv_init(e, t, fr) if t is not None else self.ev(e, fr)
        finally:
            tt = fr.temps; fr.temps = saved
        for x in reversed(tt):
            if isinstance(x, (UP, Obj)) and x is not v: self.destroy(x)
        return v
    def rv_init(self, e, t, fr):
        """initialiser expression for an object of type t"""
        if e.get('kind') == 'InitListExpr' or e.get('kind') == 'ImplicitValueInitExpr':
            return self.init_list(e, t or ty(e), fr)
        v = self.ev(e, fr)
        if isinstance(v, Cell) and e.get('valueCategory') == 'prvalue': v = v.v
        return v
    def s_ReturnStmt(self, s, fr):
        inner = s.get('inner', ())
        if not inner: raise ReturnEx(None)
        e = inner[0]
        saved = fr.temps; fr.temps = []
        try:
            rt = ''
            if e.get('kind') == 'InitListExpr': v = self.init_list(e, ty(e), fr)
            else: v = self.ev(e, fr)
        finally:
            tt = fr.temps; fr.temps = saved
        for x in reversed(tt):
            if isinstance(x, (UP, Obj)) and x is not v: self.destroy(x)
        raise ReturnEx(v)
    def s_IfStmt(self, s, fr):
        inner = list(s['inner'])
        if s.get('hasInit') or s.get('hasVar'):
            saved = getattr(fr, 'locals', None); fr.locals = []
            try:
                while inner and inner[0]['kind'] == 'DeclStmt': self.stmt(inner.pop(0), fr)
                self._if(inner, fr)
            finally:
                fr.locals = saved
            return
        self._if(inner, fr)
    def _if(self, inner, fr):
        c = self.cond(inner[0], fr)
        if c: self.scoped(inner[1], fr)
        elif len(inner) > 2: self.scoped(inner[2], fr)
    def scoped(self, s, fr):
        if s.get('kind') == 'CompoundStmt': self.stmt(s, fr)
        else: self.block([s], fr)
    def cond(self, e, fr):
        v = self.get(self.full(e, fr))
        return self.ctx.decide(self.truth(v))
    def truth(self, v):
        v = self.get(v)
        if isinstance(v, bool): return v
        if isinstance(v, z3.BoolRef): return v
        if v is None: return False
        if isinstance(v, (Obj, CPtr, It, Seq)): return True
        if isinstance(v, int): return v != 0
        if isinstance(v, z3.ArithRef): return v != 0
        if z3.is_bv(v): return v != 0
        if isinstance(v, UP): return self.lib.up_bool(v)
        if isinstance(v, Closure): return True
        return self.dom.truth(v)
    def s_BreakStmt(self, s, fr): raise BreakEx()
    def s_ContinueStmt(self, s, fr): raise ContinueEx()
    MAXIT = 64
    def s_WhileStmt(self, s, fr):
        inner = s['inner']
        if len(inner) == 3: raise Unsupported('while with declaration')
        self.loop(s, fr, None, inner[0], None, inner[1])
    def s_DoStmt(self, s, fr):
        body, cond = s['inner']
        for h in self.loop_hooks:
            if h(self, s, fr, None, cond, None, body): return
        try:
            self.scoped(body, fr)
        except ContinueEx: pass
        except BreakEx: return
        self.loop(s, fr, None, cond, None, body)
    def s_ForStmt(self, s, fr):
        init, var, cond, inc, body = s['inner']
        saved = getattr(fr, 'locals', None); fr.locals = []
        try:
            if init: self.stmt(init, fr)
            if var: raise Unsupported('for condition variable')
            self.loop(s, fr, init or None, cond or None, inc or None, body)
        finally:
            fr.locals = saved
    def loop(self, s, fr, init, cond, inc, body):
        for h in self.loop_hooks:
            if h(self, s, fr, init, cond, inc, body): return
        n = 0
        while True:
            if cond:
                v = self.truth(self.full(cond, fr))
                if not isinstance(v, bool):
                    v = z3.simplify(v)
                    if z3.is_true(v): v = True
                    elif z3.is_false(v): v = False
                    elif self.ctx.entails(v): v = True
                    elif self.ctx.entails(z3.Not(v)): v = False
                    else: raise Unsupported('loop without a contract in %s' % self.where(fr))
                if not v: break
            n += 1
            if n > self.MAXIT: raise Unsupported('loop does not end within %d iterations in %s' % (self.MAXIT, self.where(fr)))
            try:
                self.scoped(body, fr)
            except ContinueEx: pass
            except BreakEx: break
            if inc: self.full(inc, fr)
    def where(self, fr):
        return self.qname(fr.fn) if fr.fn is not None and 'id' in fr.fn else '?'
    def s_CXXForRangeStmt(self, s, fr):
        inner = s['inner']
        rangedecl = inner[1]['inner'][0]
        loopvar = inner[6]['inner'][0]
        body = inner[7]
        ini = [c for c in rangedecl.get('inner', ()) if 'kind' in c]
        rng = self.ev_top(ini[0], fr)
        for h in self.loop_hooks:
            if h(self, s, fr, 'range', rng, loopvar, body): return
        for x in self.lib.elements(rng):
            self.bind_loopvar(loopvar, x, fr)
            try:
                self.scoped(body, fr)
            except ContinueEx: continue
            except BreakEx: break
    def bind_loopvar(self, d, x, fr):
        if is_ref(ty(d)) or is_ref(sugar(d)):
            fr.env[d['id']] = x if isinstance(x, Cell) or not self.is_scalar(x) else Cell(x, self.ctx.time)
        else:
            if isinstance(x, Cell): x = x.v
            fr.env[d['id']] = Cell(x, self.ctx.time) if is_ptr(ty(d)) else self.boxed(self.copy(x), ty(d))
    def s_SwitchStmt(self, s, fr):
        inner = list(s['inner'])
        body = inner[-1]
        v = self.get(self.full(inner[-2], fr))
        stmts = []; labels = []   # labels: (value or None, index)
        def add(x):
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    if len(x['inner']) != 2: raise Unsupported('case range')
                    labels.append((self.const(x['inner'][0], fr), len(stmts)))
                    x = x['inner'][1]
                else:
                    labels.append((None, len(stmts)))
                    x = x['inner'][0]
            stmts.append(x)
        for x in body.get('inner', ()): add(x)
        start = None
        # labels with the same target are decided together
        groups = []
        for val, i in labels:
            if val is None: continue
            if groups and groups[-1][1] == i: groups[-1][0].append(val)
            else: groups.append(([val], i))
        for vals, i in groups:
            cs = [self.int_eq(v, x) for x in vals]
            if any(c is True for c in cs): c = True
            else:
                cs = [c for c in cs if c is not False]
                c = False if not cs else (z3.Or(*cs) if len(cs) > 1 else cs[0])
            if self.ctx.decide(c): start = i; break
        if start is None:
            for val, i in labels:
                if val is None: start = i
        if start is None: return
        try:
            self.block(stmts[start:], fr)
        except BreakEx: pass
    def int_eq(self, a, b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a) == int(b)
        return a == b
    def const(self, e, fr):
        if e.get('kind') == 'ConstantExpr':
            if 'value' in e:
                try: return int(e['value'])
                except ValueError: pass
            return self.const(e['inner'][0], fr)
        return self.get(self.ev(e, fr))
    def s_CXXTryStmt(self, s, fr):
        inner = s['inner']
        try:
            self.stmt(inner[0], fr)
        except CppThrow as e:
            for c in inner[1:]:
                ci = c['inner']
                var = ci[0] if ci and ci[0] and ci[0].get('kind') == 'VarDecl' else None
                if var is None or self.derives(e.tname, head(ty(var))):
                    if var is not None: fr.env[var['id']] = e.obj
                    saved = getattr(fr, 'exc', None); fr.exc = e
                    try: self.stmt(ci[-1], fr)
                    finally: fr.exc = saved
                    return
            raise

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None: raise Unsupported('expression kind ' + e['kind'])
        return m(e, fr)
    def rv(self, e, fr):
        """scalar r-value"""
        return self.get(self.ev(e, fr))
    def ev_arg(self, e, fr):
        return self.ev(e, fr)
    def e_ParenExpr(self, e, fr): return self.ev(e['inner'][0], fr)
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    def e_ConstantExpr(self, e, fr): return self.ev(e['inner'][0], fr)
    def e_ExprWithCleanups(self, e, fr): return self.ev(e['inner'][0], fr)
    def e_CXXBindTemporaryExpr(self, e, fr):
        return self.ev(e['inner'][0], fr)
    def e_MaterializeTemporaryExpr(self, e, fr):
        v = self.rv_init(e['inner'][0], ty(e['inner'][0]), fr)
        if self.is_scalar(v): return Cell(v, self.ctx.time)
        if not e.get('extendingDecl') and isinstance(v, (UP, Obj)): fr.temps.append(v)
        return v
    def e_CXXDefaultArgExpr(self, e, fr):
        c = e.get('inner')
        if c: return self.ev(c[0], fr)
        raise Unsupported('default argument expression')
    def e_CXXDefaultInitExpr(self, e, fr):
        raise Unsupported('default member initialiser')
    def e_IntegerLiteral(self, e, fr): return int(e['value'])
    def e_CharacterLiteral(self, e, fr): return int(e['value'])
    def e_CXXBoolLiteralExpr(self, e, fr): return e['value'] in (True, 'true')
    def e_FloatingLiteral(self, e, fr): return self.dom.lit(e['value'])
    def e_CXXNullPtrLiteralExpr(self, e, fr): return None
    def e_GNUNullExpr(self, e, fr): return None
    def e_StringLiteral(self, e, fr):
        return CPtr(Str(extract_str(e['value'])), 0)
    def e_SourceLocExpr(self, e, fr): return 0
    def e_PredefinedExpr(self, e, fr): return CPtr(Str('fn'), 0)
    def e_CXXThisExpr(self, e, fr): return fr.this
    def e_DeclRefExpr(self, e, fr):
        r = e['referencedDecl']; i = r['id']
        if i in fr.env: return fr.env[i]
        k = r['kind']
        if k == 'EnumConstantDecl':
            if i in self.tu.enumvals: return self.tu.enumvals[i]
            raise Unsupported('enumerator ' + str(r.get('name')))
        if k in ('FunctionDecl', 'CXXMethodDecl', 'FunctionTemplateDecl'): return FnRef(self.tu.byid.get(i, r))
        if k == 'VarDecl':
            if i in self.statics: return self.statics[i]
            d = self.tu.byid.get(i)
            if d is not None and d.get('inner') and (d.get('constexpr') or d.get('storageClass') == 'static' or 'const' in sugar(d)):
                ini = [c for c in d['inner'] if isinstance(c, dict) and c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                if ini:
                    v = self.boxed(self.rv_init(ini[0], ty(d), Frame(None)), ty(d))
                    self.statics[i] = v
                    return v
            x = self.lib.global_var(r.get('name'))
            if x is not None: return x
            x = self.trait(e, fr)
            if x is not None: return x
        raise Unsupported('reference to %s %s' % (k, r.get('name')))
    TRAITS = {'is_lvalue_reference': lambda t: t.endswith('&') and not t.endswith('&&'), 'is_rvalue_reference': lambda t: t.endswith('&&'),
              'is_reference': lambda t: t.endswith('&'), 'is_const': lambda t: t.startswith('const '),
              'is_same': None}
    def template_env(self, f):
        """template parameter name -> argument type, for the function instantiation f"""
        tds = [c for c in f.get('inner', ()) if c.get('kind') == 'TemplateArgument']
        up = self.tu.byid.get(f.get('_up'))
        if not tds or up is None: return {}
        names = [c.get('name') for c in up.get('inner', ()) if c.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl')]
        return {n: ((a.get('type') or {}).get('qualType') or '') for n, a in zip(names, tds)}
    def trait(self, e, fr):
        txt = re.sub(r'\s+', '', self.tu.text(e))
        m = re.match(r'(?:std::)?(\w+)<(.*)>::value$', txt) or re.match(r'(?:std::)?(\w+)_v<(.*)>$', txt)
        if not m or fr.fn is None: return None
        env = {}
        for f in self.fn_stack + [fr.fn]: env.update(self.template_env(f))
        def sub(t):
            mm = re.match(r'^(const)?(\w+)(&&|&)?$', t)
            if not mm: return None
            if mm.group(2) not in env: return None
            a = env[mm.group(2)]; suf = mm.group(3) or ''
            if suf == '&&' and a.endswith('&'): suf = ''
            if suf == '&': a = a.rstrip('&').strip() + ' '
            return (a + suf).strip()
        tr = self.TRAITS.get(m.group(1))
        if tr is None: return None
        a = sub(m.group(2))
        if a is None: return None
        return bool(tr(a))
    def e_ImplicitCastExpr(self, e, fr):
        k = e['castKind']
        if k == 'LValueToRValue':
            v = self.ev(e['inner'][0], fr)
            return self.get(v)
        if k in ('FunctionToPointerDecay', 'NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                 'BuiltinFnToFnPtr', 'BitCast'):
            return self.ev(e['inner'][0], fr)
        if k == 'ArrayToPointerDecay':
            v = self.ev(e['inner'][0], fr)
            if isinstance(v, Seq): return It(v, 0)
            return v
        if k == 'NullToPointer': return None
        if k == 'ToVoid': self.ev(e['inner'][0], fr); return None
        if k == 'IntegralCast':
            v = self.rv(e['inner'][0], fr)
            return self.lib.int_cast(v, strip(ty(e['inner'][0])), strip(ty(e)))
        if k == 'IntegralToBoolean':
            v = self.rv(e['inner'][0], fr)
            t = self.truth(v)
            return t
        if k == 'PointerToBoolean':
            return self.truth(self.rv(e['inner'][0], fr))
        if k == 'FloatingToBoolean':
            v = self.rv(e['inner'][0], fr)
            return self.dom.cmp('!=', v, self.dom.lit(0.0))
        if k == 'IntegralToFloating':
            v = self.rv(e['inner'][0], fr)
            if isinstance(v, bool): v = int(v)
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.dom.from_int(v)
        if k == 'FloatingCast': return self.rv(e['inner'][0], fr)
        if k == 'FloatingToIntegral':
            v = self.rv(e['inner'][0], fr)
            return self.dom.to_int(v, self.ctx, strip(ty(e)))
        raise Unsupported('cast ' + k)
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def e_ConditionalOperator(self, e, fr):
        c, a, b = e['inner']
        if 'noreturn' in str(ty(b)) or is_assert_fail(b):
            v = self.truth(self.rv(c, fr))
            self.ctx.oblige('assert:' + assert_text(b), v, self.where(fr))
            return None
        if self.ctx.decide(self.truth(self.rv(c, fr))): return self.ev(a, fr)
        return self.ev(b, fr)
    def e_CXXThrowExpr(self, e, fr):
        inner = e.get('inner', ())
        if not inner:
            if getattr(fr, 'exc', None) is None: raise Unsupported('rethrow')
            raise fr.exc
        x = inner[0]
        v = self.ev(x, fr)
        raise CppThrow(v, head(ty(x)))
    def e_UnaryOperator(self, e, fr):
        op = e['opcode']; x = e['inner'][0]
        if op == '&':
            v = self.ev(x, fr)
            if isinstance(v, Cell) and isinstance(v.tag, (It, CPtr)): return v.tag
            return v
        if op == '*':
            p = self.get(self.ev(x, fr))
            if p is None: self.ctx.fail('null-dereference')
            return self.lib.deref(p)
        if op in ('__extension__',): return self.ev(x, fr)
        if op == '!':
            v = self.truth(self.rv(x, fr))
            return (not v) if isinstance(v, bool) else z3.Not(v)
        if op in ('++', '--'):
            c = self.ev(x, fr)
            old = self.get(c)
            t = strip(ty(x))
            if isinstance(old, (It, CPtr)): new = self.lib.ptr_add(old, 1 if op == '++' else -1)
            elif t in ('double', 'float'): new = self.dom.bin('+' if op == '++' else '-', old, self.dom.lit(1.0))
            else: new = self.lib.int_bin('+' if op == '++' else '-', old, 1, t)
            self.assign(c, new)
            return old if e.get('isPostfix') else c
        v = self.rv(x, fr)
        if op == '+': return v
        if op == '-':
            if strip(ty(e)) in ('double', 'float'): return self.dom.neg(v)
            return self.lib.int_bin('-', 0, v, strip(ty(e)))
        if op == '~': return self.lib.int_bin('^', v, -1, strip(ty(e)))
        raise Unsupported('unary ' + op)
    def e_BinaryOperator(self, e, fr):
        op = e['opcode']; a, b = e['inner']
        if op == ',':
            self.ev(a, fr); return self.ev(b, fr)
        if op == '=':
            v = self.rv(b, fr)
            c = self.ev(a, fr)
            if not isinstance(c, Cell):
                self.set_value(c, v); return c
            self.assign(c, v); return c
        if op in ('&&', '||'):
            x = self.ctx.decide(self.truth(self.rv(a, fr)))
            if op == '&&' and not x: return False
            if op == '||' and x: return True
            return self.truth(self.rv(b, fr))
        x = self.rv(a, fr); y = self.rv(b, fr)
        ta = strip(ty(a)); tb = strip(ty(b))
        return self.binop(op, x, y, ta, tb, strip(ty(e)))
    def binop(self, op, x, y, ta, tb, tr):
        if ta in ('double', 'float'):
            if op in ('<', '>', '<=', '>=', '==', '!='): return self.dom.cmp(op, x, y)
            return self.dom.bin(op, x, y)
        if isinstance(x, (It, CPtr)) or isinstance(y, (It, CPtr)):
            return self.lib.ptr_bin(op, x, y)
        if ta.endswith('*') or tb.endswith('*') or isinstance(x, (Obj,)) or x is None or isinstance(y, Obj) or y is None:
            if op == '==': return self.lib.same_obj(x, y)
            if op == '!=':
                r = self.lib.same_obj(x, y)
                return (not r) if isinstance(r, bool) else z3.Not(r)
            raise Unsupported('pointer operator ' + op)
        if op in ('<', '>', '<=', '>=', '==', '!='): return self.lib.int_cmp(op, x, y, ta)
        if ta == 'bool' and op in ('&', '|', '^') or (op in ('&', '|', '^') and isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef))):
            return self.lib.bool_bin(op, x, y)
        return self.lib.int_bin(op, x, y, tr)
    def e_CompoundAssignOperator(self, e, fr):
        op = e['opcode'][:-1]; a, b = e['inner']
        y = self.rv(b, fr)
        c = self.ev(a, fr)
        x = self.get(c)
        ta = strip(ty(a))
        ct = strip((e.get('computeResultType') or {}).get('qualType', ta))
        if ta in ('double', 'float'):
            v = self.dom.bin(op, x, y)
        elif isinstance(x, (It, CPtr)):
            v = self.lib.ptr_bin(op, x, y)
        elif ct in ('double', 'float'):
            v = self.dom.to_int(self.dom.bin(op, self.dom.from_int(x), y), self.ctx, ta)
        elif ta == 'bool': 
            v = self.lib.bool_bin(op, x, self.truth(y))
        else: v = self.lib.int_bin(op, x, y, ta)
        self.assign(c, v)
        return c
    def e_ArraySubscriptExpr(self, e, fr):
        a, b = e['inner']
        x = self.rv(a, fr); y = self.rv(b, fr)
        return self.lib.deref(self.lib.ptr_add(x, y))
    def e_MemberExpr(self, e, fr):
        base = e['inner'][0]
        n = e.get('name')
        if e.get('isArrow'):
            o = self.rv(base, fr)
        else:
            o = self.ev(base, fr)
            if isinstance(o, Cell): o = o.v
        if o is None: self.ctx.fail('null-dereference')
        o = self.lib.resolve(o)
        if isinstance(o, Obj):
            self.touch(o)
            if n in o.f: return o.f[n]
            raise Unsupported('member %s of %s' % (n, o.cls))
        if isinstance(o, Tuple) and n in ('first', 'second'): return o.items[0 if n == 'first' else 1]
        return self.lib.member(o, n)
    def e_CXXMemberCallExpr(self, e, fr):
        m = e['inner'][0]
        while m.get('kind') == 'ParenExpr': m = m['inner'][0]
        if m.get('kind') != 'MemberExpr': raise Unsupported('member call through ' + m.get('kind'))
        base = m['inner'][0]
        o = self.rv(base, fr) if m.get('isArrow') else self.ev(base, fr)
        if isinstance(o, Cell): o = o.v
        did = m.get('referencedMemberDecl')
        d = self.tu.byid.get(did)
        args = self.args(e['inner'][1:], fr, d)
        n = m.get('name')
        if o is None: self.ctx.fail('null-dereference')
        o = self.lib.resolve(o)
        if isinstance(o, Closure): return self.call_closure(o, args)
        if d is not None:
            self.touch(o)
            return self.call_decl(d, o, args, fr)
        if isinstance(o, Obj): self.touch(o)
        return self.lib.method(o, n, args, e)
    def args(self, xs, fr, d):
        out = []
        d = self.tu.defs.get(d['id'], d) if d is not None else None
        for i, x in enumerate(xs):
            if x.get('kind') == 'CXXDefaultArgExpr':
                if d is None: continue
                out.append(self.default_arg(d, params_of(d)[i]))
            else:
                out.append(self.rv_init(x, ty(x), fr))
        return out
    def e_CallExpr(self, e, fr):
        c = e['inner'][0]
        x = c
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
        if x.get('kind') == 'DeclRefExpr':
            r = x['referencedDecl']
            d = self.tu.byid.get(r['id'])
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                if r.get('name') == '__assert_fail':
                    self.ctx.fail('assert:' + assert_text(e), self.where(fr))
                args = self.args(e['inner'][1:], fr, d)
                if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl') and (d['id'] in self.tu.defs or self.qname(d) in self.contracts):
                    return self.call_decl(d, None, args, fr)
                return self.lib.free(r.get('name'), args, e, self, [y for y in e['inner'][1:]])
        f = self.ev(c, fr)
        args = self.args(e['inner'][1:], fr, None)
        return self.call_value(f, args)
    def e_CXXOperatorCallExpr(self, e, fr):
        c = e['inner'][0]
        x = c
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
        r = x['referencedDecl']
        name = r.get('name')
        d = self.tu.byid.get(r['id'])
        xs = e['inner'][1:]
        if name == 'operator=':
            # right operand is sequenced first only from C++17 on; clang and gcc evaluate it first for class types as well
            rhs = self.rv_init(xs[1], ty(xs[1]), fr)
            lhs = self.ev(xs[0], fr)
            args = [lhs, rhs]
        else:
            args = self.args(xs, fr, None)
        a0 = args[0]
        if isinstance(a0, Closure) and name == 'operator()': return self.call_closure(a0, args[1:])
        if d is not None and (d['id'] in self.tu.defs or self.qname(d) in self.contracts):
            if r['kind'] == 'CXXMethodDecl':
                if isinstance(a0, Obj): self.touch(a0)
                return self.call_decl(d, a0, args[1:], fr)
            return self.call_decl(d, None, args, fr)
        if isinstance(a0, Obj) and name == 'operator=':
            self.touch(a0); self.touch(args[1]) if isinstance(args[1], Obj) else None
            self.set_value(a0, args[1], '&&' in sugar(r) or '&&' in ty(r)); return a0
        return self.lib.op(name, args, e, ty(r))
    def e_UserDefinedLiteral(self, e, fr): return self.e_CallExpr(e, fr)
    def e_CXXConstructExpr(self, e, fr):
        t = ty(e); inner = e.get('inner', ())
        if e.get('elidable') and len(inner) == 1:
            x = inner[0]
            while x.get('kind') in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr') and x.get('inner'):
                if x['kind'] == 'ImplicitCastExpr' and x.get('castKind') not in ('NoOp',): break
                x = x['inner'][0]
            return self.rv_init(x, t, fr)
        ct = (e.get('ctorType') or {}).get('qualType', 'void ()')
        rec = self.record(t)
        if rec is not None:
            f = self.find_ctor(rec, ct)
            args = self.args(inner, fr, f)
            return self.construct(rec, t, ct, args, value_init=bool(e.get('zeroing')))
        args = self.args([x for x in inner if x.get('kind') != 'CXXDefaultArgExpr'], fr, None)
        return self.lib.construct(t, ct, args, e)
    def e_CXXTemporaryObjectExpr(self, e, fr): return self.e_CXXConstructExpr(e, fr)
    def e_CXXScalarValueInitExpr(self, e, fr): return self.default(ty(e), True)
    def e_ImplicitValueInitExpr(self, e, fr): return self.default(ty(e), True)
    def e_InitListExpr(self, e, fr): return self.init_list(e, ty(e), fr)
    def init_list(self, e, t, fr):
        if e.get('kind') == 'ImplicitValueInitExpr': return self.default(ty(e), True)
        s = strip(t)
        inner = e.get('inner', ())
        if 'array_filler' in e: inner = [x for x in e['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
        rec = self.record(t)
        if rec is not None and not s.endswith(']'):
            obj = Obj(rec['name'], {}, self.ctx.time); self.lib.on_new(obj)
            fds = self.fields_of(rec)
            for fd, x in zip(fds, inner):
                n = fd['name']
                if is_ref(ty(fd)): obj.f[n] = self.ev(x, fr)
                else: obj.f[n] = self.boxed(self.rv_init(x, ty(fd), fr), ty(fd)); self.adopt(obj, n)
            for fd in fds[len(inner):]:
                obj.f[fd['name']] = self.boxed(self.default(ty(fd), True), ty(fd)); self.adopt(obj, fd['name'])
            return obj
        if s.endswith(']'):
            el = s[:s.rfind('[')].strip()
            q = Seq('array', el, self.ctx.time)
            q.items = [self.boxed(self.rv_init(x, el, fr), el) for x in inner]
            m = re.match(r'.*\[(\d+)\]$', s)
            if m:
                while len(q.items) < int(m.group(1)): q.items.append(self.boxed(self.default(el, True), el))
            return q
        if len(inner) == 1 and (s in INTS or s in ('double', 'float') or s.endswith('*') or self.is_enum(t)): return self.rv(inner[0], fr)
        if not inner: return self.default(t, True)
        if len(inner) == 1: return self.rv_init(inner[0], t, fr)
        raise Unsupported('initialiser list for ' + t)
    def e_CXXStdInitializerListExpr(self, e, fr):
        x = e['inner'][0]
        while x.get('kind') in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): x = x['inner'][0]
        q = self.init_list(x, ty(x), fr)
        q.kind = 'initializer_list'
        return q
    def e_CXXNewExpr(self, e, fr):
        t = strip(ty(e))[:-1].strip()
        inner = [x for x in e.get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Cleanups'))]
        if e.get('isArray'): raise Unsupported('new[]')
        return self.rv_init(inner[-1], t, fr) if inner else self.default(t)
    def e_CXXDeleteExpr(self, e, fr):
        o = self.rv(e['inner'][0], fr)
        if o is not None: self.destroy(o)
        return None
    def e_LambdaExpr(self, e, fr):
        inner = e['inner']
        rec = inner[0]; body = inner[-1]
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        caps_ = inner[1:-1]
        op = None
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': op = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for m in c.get('inner', ()):
                    if m.get('kind') == 'CXXMethodDecl' and body_of(m) is not None: op = m   # last: an instantiation
        if op is None: raise Unsupported('lambda without call operator')
        body = body_of(op) or body
        used = {}
        declared = set()
        def walk(o):
            if not isinstance(o, dict): return
            if o.get('kind') == 'DeclRefExpr':
                r = o['referencedDecl']
                if r['kind'] in ('VarDecl', 'ParmVarDecl'): used.setdefault(r['id'], r)
            if o.get('kind') in ('VarDecl', 'ParmVarDecl'): declared.add(o['id'])
            for c in o.get('inner', ()): walk(c)
        walk(body)
        for p in params_of(op): declared.add(p['id'])
        free = {i: r for i, r in used.items() if i not in declared}
        if len(fields) != len(caps_): raise Unsupported('lambda captures')
        env = {}
        if fr.this is not None and any(strip(ty(f)).endswith('*') and x.get('kind') == 'CXXThisExpr' for f, x in zip(fields, caps_)):
            env['this'] = fr.this
        unmatched = []
        for f, x in zip(fields, caps_):
            y = x
            while y.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr') or (y.get('kind') == 'CXXConstructExpr' and len(y.get('inner', ())) == 1 and not is_ref(ty(f))):
                y = y['inner'][0]
            if y.get('kind') == 'CXXThisExpr': env['this'] = fr.this; continue
            if y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['id'] in free and y['referencedDecl']['id'] not in env:
                i = y['referencedDecl']['id']
                if is_ref(ty(f)) or is_ref(sugar(f)): env[i] = self.ev(y, fr)
                else:
                    v = self.rv_init(x, ty(f), fr)
                    env[i] = self.boxed(self.copy(v) if x is y else v, ty(f))
                continue
            unmatched.append((f, x))
        rest = sorted((i for i in free if i not in env and i not in fr.env and i not in self.statics and self.tu.byid.get(i, {}).get('storageClass') != 'static'
                       and not self.is_global(i)), key=lambda i: int(i, 16))
        if rest or unmatched:
            # init-captures: match in declaration order, by type
            pool = list(unmatched)
            for i in rest:
                r = free[i]; t = strip(ty(r))
                for k, (f, x) in enumerate(pool):
                    if strip(ty(f)) == t or strip(sugar(f)) == strip(sugar(r)):
                        if is_ref(ty(f)): env[i] = self.ev(x, fr)
                        else:
                            v = self.rv_init(x, ty(f), fr)
                            if isinstance(v, Cell): v = v.v
                            env[i] = self.boxed(v if x.get('valueCategory') == 'prvalue' else self.copy(v), ty(f))
                        del pool[:k + 1]
                        break
                else: raise Unsupported('lambda init-capture')
        return Closure(rec, body, params_of(op), env, op)
    def is_global(self, i):
        d = self.tu.byid.get(i)
        return d is not None and d.get('_up') in self.tu.byid and self.tu.byid[d['_up']]['kind'] == 'NamespaceDecl'
    def e_UnaryExprOrTypeTraitExpr(self, e, fr):
        t = (e.get('argType') or {}).get('qualType', '')
        if not t and e.get('inner'): t = ty(e['inner'][0])
        m = re.match(r'char ?\[(\d+)\]', t)
        if m: return int(m.group(1))
        raise Unsupported('sizeof ' + t)
    def e_OpaqueValueExpr(self, e, fr): return self.ev(e['inner'][0], fr)
    def e_CXXNoexceptExpr(self, e, fr): return bool(e.get('value'))

def is_assert_fail(b):
    if b.get('kind') != 'CallExpr': return False
    x = b['inner'][0]
    while x.get('kind') == 'ImplicitCastExpr': x = x['inner'][0]
    return x.get('referencedDecl', {}).get('name') == '__assert_fail'
def assert_text(b):
    for c in b.get('inner', ())[1:2]:
        x = c
        while x.get('kind') == 'ImplicitCastExpr': x = x['inner'][0]
        if x.get('kind') == 'StringLiteral': return extract_str(x['value'])[:80]
    return ''
def extract_str(v):
    import ast
    try:
        return ast.literal_eval(re.sub(r'^(u8|L|u|U)', '', v))
    except Exception:
        return v.strip('"')
