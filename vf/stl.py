"""Assumed contracts of the C++ library (containers, smart pointers, algorithms on concrete contents)."""
import re, z3
from .core import *
from .interp import strip, head, targs, is_ref, is_ptr, ty, UP_HEADS, SEQ_HEADS, INTS

N = z3.DeclareSort('Name')
EMPTY = z3.Const('name_empty', N)
STRLEN = z3.Function('string_length', N, z3.IntSort())

def conv_str(v):
    """z3 Name of a python string"""
    if isinstance(v, str): return EMPTY if v == '' else z3.Const('lit_' + v, N)
    return v

class Lib:
    I = None
    def __init__(self): self.globals = {}; self.sizes = {}
    @property
    def ctx(self): return self.I.ctx
    # ---------------------------------------------------------------- hooks
    def on_new(self, obj): pass
    def resolve(self, o):
        if isinstance(o, Lazy): return self.materialise(o)
        if isinstance(o, UP): return o
        return o
    def materialise(self, lazy): raise Unsupported('lazy subtree')
    def expand(self, seg): raise Unsupported('symbolic sequence segment')
    def new_valarray(self, t): raise Unsupported('valarray')
    # ---------------------------------------------------------------- unique_ptr
    def up_bool(self, u):
        return u.p is not None
    def up_check(self, u):
        fz = getattr(u, 'frozen', None)
        if fz: raise Unsupported('loop body modifies ' + fz)
    def up_reset(self, u, p=None):
        self.up_check(u)
        old = u.p
        u.set(p)
        if old is not None: self.free(old)
    def up_take(self, dst, src):
        self.up_check(src)
        p = src.p
        src.set(None)
        dst.set(p)
    def up_assign(self, dst, src):
        if dst is src: return
        self.up_check(src); self.up_check(dst)
        p = src.p; src.set(None)
        old = dst.p
        dst.set(p)
        if old is not None and old is not p: self.delete(old)
    def delete(self, o):
        if isinstance(o, Obj): self.I.destroy(o)
    def up_reset(self, u, p=None):
        self.up_check(u)
        old = u.p
        u.set(p)
        if old is not None: self.delete(old)
    def up_deref(self, u):
        if u.p is None: self.ctx.fail('null-dereference')
        return u.p
    def same_obj(self, x, y):
        if isinstance(x, UP): x = self.up_get(x)
        if isinstance(y, UP): y = self.up_get(y)
        return x is y
    def up_get(self, u): return u.p
    # ---------------------------------------------------------------- ints
    def int_cast(self, v, tf, tt):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, int) and tt in ('unsigned long', 'size_t', 'std::size_t', 'size_type', 'unsigned long long', 'uint64_t') and v < 0: return v % (1 << 64)
        return v
    def int_bin(self, op, x, y, t):
        x = self.int_cast(x, '', ''); y = self.int_cast(y, '', '')
        if z3.is_bv(x) or z3.is_bv(y): return self.bv_bin(op, x, y)
        conc = isinstance(x, int) and isinstance(y, int)
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op in '/%':
            if conc:
                if y == 0: self.ctx.fail('division-by-zero')
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                r = q if op == '/' else x - q * y
            else:
                self.ctx.oblige('division-by-zero', y != 0)
                # C++ truncation
                q = z3.If(x >= 0, x / y, -((-x) / y))
                r = q if op == '/' else x - q * y
        elif op in ('&', '|', '^', '<<', '>>'):
            if not conc: raise Unsupported('bit operation on symbolic integer')
            r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if op == '<<' else 0, '>>': x >> y if op == '>>' else 0}[op]
        else: raise Unsupported('int operator ' + op)
        if isinstance(r, int) and t in ('unsigned long', 'size_t', 'std::size_t', 'uint64_t', 'unsigned long long'): r %= (1 << 64)
        return r
    def bv_bin(self, op, x, y):
        """machine integers (two's complement); signed overflow is an obligation"""
        w = (x if z3.is_bv(x) else y).size()
        x = x if z3.is_bv(x) else z3.BitVecVal(x, w); y = y if z3.is_bv(y) else z3.BitVecVal(y, w)
        if x.size() != y.size(): raise Unsupported('integers of different width')
        ob = self.ctx.oblige
        if op in '&|^': return {'&': x & y, '|': x | y, '^': x ^ y}[op]
        if op in '/%':
            ob('division-by-zero', y != 0)
            ob('signed-overflow', z3.Not(z3.And(x == z3.BitVecVal(1 << (w - 1), w), y == -1)))
            return x / y if op == '/' else z3.SRem(x, y)
        if op == '+': ob('signed-overflow', z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))); return x + y
        if op == '-': ob('signed-overflow', z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))); return x - y
        if op == '*': ob('signed-overflow', z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))); return x * y
        raise Unsupported('bit operation ' + op)
    def int_cmp(self, op, x, y, t):
        if isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef):
            x = x if isinstance(x, z3.BoolRef) else z3.BoolVal(bool(x)); y = y if isinstance(y, z3.BoolRef) else z3.BoolVal(bool(y))
            if op == '==': return x == y
            if op == '!=': return x != y
        if isinstance(x, bool): x = int(x)
        if isinstance(y, bool): y = int(y)
        return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    def bool_bin(self, op, x, y):
        x = self.I.truth(x); y = self.I.truth(y)
        if isinstance(x, bool) and isinstance(y, bool): return {'&': x and y, '|': x or y, '^': x != y}[op]
        x = z3.BoolVal(x) if isinstance(x, bool) else x; y = z3.BoolVal(y) if isinstance(y, bool) else y
        return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
    # ---------------------------------------------------------------- pointers / iterators
    def ptr_add(self, p, n):
        if isinstance(p, CPtr): return CPtr(p.base, p.off + n)
        if isinstance(p, It): return It(p.seq, p.i - n if p.rev else p.i + n, p.rev)
        if isinstance(p, Seq): return It(p, n)
        raise Unsupported('pointer arithmetic')
    def ptr_bin(self, op, x, y):
        if op in ('+', '-') and isinstance(y, (int, z3.ArithRef)): return self.ptr_add(x, y if op == '+' else -y)
        if op == '+' and isinstance(x, (int, z3.ArithRef)): return self.ptr_add(y, x)
        if x is None or y is None:
            if op == '==': return False
            if op == '!=': return True
        a = x.off if isinstance(x, CPtr) else x.i
        b = y.off if isinstance(y, CPtr) else y.i
        bx = x.base if isinstance(x, CPtr) else x.seq
        by = y.base if isinstance(y, CPtr) else y.seq
        if bx is not by: raise Unsupported('pointers into different sequences')
        if op == '-': return a - b if not getattr(x, 'rev', False) else b - a
        if getattr(x, 'rev', False) and op in ('<', '>', '<=', '>='): a, b = b, a
        return self.int_cmp(op, a, b, 'int')
    def deref(self, p):
        if isinstance(p, Obj): return p
        if isinstance(p, Cell): return p
        if isinstance(p, It) and isinstance(p.seq, MapV):
            if getattr(p, 'entry', None) is None: self.ctx.fail('dereference-of-end')
            return p.entry
        if isinstance(p, It): return self.at(p.seq, p.i - 1 if p.rev else p.i)
        if isinstance(p, CPtr): return self.char_at(p)
        if p is None: self.ctx.fail('null-dereference')
        if isinstance(p, UP): return self.up_deref(p)
        return p
    def char_at(self, p):
        if isinstance(p.base, Str) and isinstance(p.base.v, str) and isinstance(p.off, int):
            b = p.base.v.encode('utf-8')
            if p.off < 0 or p.off > len(b): self.ctx.fail('out-of-bounds-read')
            c = 0 if p.off == len(b) else b[p.off]
            if c >= 128: c -= 256
            return Cell(c)
        raise Unsupported('character access')
    def at(self, q, i):
        if isinstance(q, Seq):
            if any(isinstance(x, Seg) for x in q.items): raise Unsupported('indexing a symbolic sequence')
            if not isinstance(i, int): raise Unsupported('symbolic index')
            if i < 0 or i >= len(q.items): self.ctx.fail('out-of-bounds')
            return q.items[i]
        raise Unsupported('indexing %r' % (q,))
    # ---------------------------------------------------------------- Seq
    def make_elem(self, q, args, move=True):
        t = q.elem
        s = strip(t); h = head(t)
        I = self.I
        if is_ptr(t): return Cell(I.get(args[0]), self.ctx.time)
        if h == 'reference_wrapper':
            a = args[0]
            return a if isinstance(a, RefWrap) else RefWrap(a)
        if h in ('tuple', 'pair'):
            if len(args) == 1 and isinstance(args[0], Tuple): return args[0]
            return self.make_tuple(targs(s), args)
        if h in UP_HEADS:
            u = UP(None, self.ctx.time)
            if args and isinstance(args[0], UP): self.up_take(u, args[0])
            elif args and args[0] is not None: u.set(args[0])
            return u
        r = I.record(t)
        if r is not None:
            if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == r['name']:
                return I.move(args[0]) if move else I.copy(args[0])
            return self.construct_by_args(r, t, args)
        if s in INTS or s in ('double', 'float') or I.is_enum(t):
            return Cell(I.get(args[0]) if args else I.default(t, True), self.ctx.time)
        if h in ('basic_string', 'string'):
            return self.construct(t, '', args, None)
        if len(args) == 1:
            return I.copy(args[0])
        raise Unsupported('element of type ' + t)
    def make_tuple(self, tas, args):
        out = []
        for t, a in zip(tas, args):
            if is_ref(t): out.append(a)
            else:
                v = a.v if isinstance(a, Cell) else a
                if not self.I.is_scalar(v):
                    v = self.I.move(v) if isinstance(v, (UP,)) else self.I.copy(v)
                out.append(self.I.boxed(v, t))
        return Tuple(out)
    def construct_by_args(self, r, t, args):
        I = self.I
        cands = []
        for f in I.tu.byid.values():
            if f['kind'] == 'CXXConstructorDecl' and f.get('name') == r['name'] and (f.get('parentDeclContextId') or f.get('_up')) == r['id'] and not f.get('isImplicit'):
                from .extract import params_of
                ps = params_of(f)
                if len(ps) >= len(args) and all(any('kind' in c for c in p.get('inner', ())) for p in ps[len(args):]):
                    cands.append(f)
        cands = [f for f in cands if not (len(args) == 1 and head(ty(params_of(f)[0])) == r['name'] and not (isinstance(args[0], Obj) and args[0].cls == r['name']))]
        if len(cands) > 1:
            c2 = [f for f in cands if all(self.fits(a, ty(p)) for a, p in zip(args, params_of(f)))]
            if len(c2) == 1: cands = c2
            elif len(c2) > 1 and len(args) == 1:   # copy vs move
                mv = [f for f in c2 if '&&' in ty(params_of(f)[0])]
                cands = mv[:1] if mv and getattr(self, 'emplace_rvalue', True) else c2[:1]
        if not cands:
            # aggregate
            raise Unsupported('constructor of ' + r['name'])
        f = cands[0]
        args = [I.copy(a) if isinstance(a, Obj) and not is_ref(ty(p)) and not is_ptr(ty(p)) else a for a, p in zip(args, params_of(f))] + list(args[len(params_of(f)):])     # parameters passed by value
        return I.construct(r, t, (f.get('type') or {}).get('qualType'), list(args))
    def fits(self, a, t):
        a = a.v if isinstance(a, Cell) else a
        h = head(t)
        if isinstance(a, Obj): return h == a.cls
        if isinstance(a, UP): return h in UP_HEADS
        if isinstance(a, Str): return h in ('basic_string', 'string')
        if isinstance(a, CPtr): return is_ptr(t)
        return h not in ('basic_string', 'string', 'vector', 'map', 'valarray') and not (self.I.record(t))
    def method(self, o, n, args, e):
        I = self.I
        if n == 'operator=' and len(args) == 1 and isinstance(o, (UP, Str, Seq, Tuple)):      # in a synthesised assignment operator
            I.set_value(o, I.get(args[0]), isinstance(o, UP)); return o
        if isinstance(o, UP):
            if n == 'get': return self.up_get(o)
            if n == 'operator bool': return self.up_bool(o)
            if n == 'reset': self.up_reset(o, I.get(args[0]) if args else None); return None
            if n == 'release':
                self.up_check(o)
                p = self.up_get(o); o.set(None); return p
            if n == 'swap':
                self.up_check(o); self.up_check(args[0])
                a, b = o.p, args[0].p
                o.set(None); args[0].set(None); o.set(b); args[0].set(a); return None
        if isinstance(o, RefWrap):
            if n == 'get' or n.startswith('operator '): return o.o
        if isinstance(o, Seq): return self.seq_method(o, n, args, e)
        if isinstance(o, SetV): return self.set_method(o, n, args, e)
        if isinstance(o, MapV): return self.map_method(o, n, args, e)
        if isinstance(o, Str): return self.str_method(o, n, args, e)
        if isinstance(o, Stream):
            if n == 'str': return Str(self.stream_str(o))
            return o
        if isinstance(o, Closure) and n == 'operator()': return I.call_closure(o, args)
        if isinstance(o, Ext) and n in ('what',): return CPtr(Str('what'), 0)
        if hasattr(o, 'method'): return o.method(I, n, args, e)
        if n.startswith('operator '): return o    # conversions of wrappers
        raise Unsupported('method %s of %r' % (n, type(o).__name__))
    def stream_str(self, o):
        if all(isinstance(p, str) for p in o.parts): return ''.join(o.parts)
        return self.ctx.fresh(N, 'str')
    def rvalue_arg(self, e, i=0):
        try:
            x = e['inner'][1 + i]
            return x.get('valueCategory') in ('xvalue', 'prvalue')
        except Exception: return True
    def seq_method(self, o, n, args, e):
        I = self.I
        it = o.items
        if n == 'empty':
            if not it: return True
            if any(not isinstance(x, Seg) for x in it): return False
            return self.seg_empty(o)
        if n in ('size', 'length', 'max_size'):
            if any(isinstance(x, Seg) for x in it): return self.seg_size(o)
            return len(it)
        if n in ('top', 'back'):
            x = self.last(o)
            return x
        if n == 'front': return self.first(o)
        if n in ('pop_back',) or (n == 'pop' and o.kind in ('stack', 'vector')):
            I.wrote(o); self.last(o); x = o.items.pop(); o.popped = 'back'; self.drop(x); return None
        if n in ('pop_front',) or (n == 'pop' and o.kind == 'queue'):
            I.wrote(o); self.first(o); x = o.items.pop(0); o.popped = 'front'; self.drop(x); return None
        if n in ('emplace', 'push', 'emplace_back', 'push_back') and o.kind != 'set':
            I.wrote(o)
            x = self.make_elem(o, args, self.rvalue_arg(e) if n in ('push', 'push_back') else True if len(args) != 1 else self.rvalue_arg(e))
            o.items.append(x)
            return x
        if n in ('emplace_front', 'push_front'):
            I.wrote(o)
            x = self.make_elem(o, args, self.rvalue_arg(e)); o.items.insert(0, x); return x
        if n == 'clear':
            I.wrote(o)
            for x in o.items: self.drop(x)
            o.items = []; return None
        if n in ('reserve', 'shrink_to_fit'): return None
        if n in ('begin', 'cbegin', 'data'): return It(o, 0)
        if n in ('end', 'cend'): return It(o, self.seq_len(o))
        if n in ('rbegin', 'crbegin'): return It(o, self.seq_len(o), True)
        if n in ('rend', 'crend'): return It(o, 0, True)
        if n == 'at': return self.at(o, I.get(args[0]))
        if n == 'resize':
            I.wrote(o)
            k = I.get(args[0])
            if not isinstance(k, int): raise Unsupported('symbolic resize')
            while len(o.items) > k: self.drop(o.items.pop())
            while len(o.items) < k: o.items.append(I.boxed(I.default(o.elem, True), o.elem))
            return None
        if n == 'swap':
            o.items, args[0].items = args[0].items, o.items; return None
        if n in ('insert', 'erase'): return self.seq_insert(o, n, args, e)
        raise Unsupported('container method ' + n)
    def seq_insert(self, o, n, args, e): raise Unsupported('container ' + n)
    def seq_len(self, o):
        return len(o.items)
    def drop(self, x):
        if isinstance(x, (UP, Obj)) and not getattr(x, 'keep', False): self.I.destroy(x)
    def seg_empty(self, o): return self.ctx.fresh(z3.BoolSort(), 'empty')
    def seg_size(self, o):
        n = self.ctx.fresh(z3.IntSort(), 'size')
        self.sizes[n.get_id()] = (n, o, list(o.items))
        self.ctx.assume(n >= sum(1 for x in o.items if not isinstance(x, Seg)))
        return n
    def last(self, o):
        while o.items and isinstance(o.items[-1], Seg):
            s = o.items[-1]
            o.items[-1:] = self.expand(s)
        if not o.items: self.ctx.fail('empty-container-access')
        return o.items[-1]
    def first(self, o):
        while o.items and isinstance(o.items[0], Seg):
            s = o.items[0]
            o.items[0:1] = self.expand(s)
        if not o.items: self.ctx.fail('empty-container-access')
        return o.items[0]
    def elements(self, rng):
        if isinstance(rng, Seq):
            if any(isinstance(x, Seg) for x in rng.items): raise Unsupported('iteration over a symbolic sequence without a contract')
            return list(rng.items)
        if isinstance(rng, MapV):
            if rng.base is not None: raise Unsupported('iteration over a symbolic map without a contract')
            return [Pair([Str(k), v]) for k, v in rng.entries]
        if isinstance(rng, Str) and isinstance(rng.v, str): return [Cell(c if c < 128 else c - 256) for c in rng.v.encode()]
        raise Unsupported('iteration over %r' % (type(rng).__name__,))
    # ---------------------------------------------------------------- set / map / string
    def set_method(self, o, n, args, e):
        if n in ('insert', 'emplace'):
            self.I.wrote(o)
            if len(args) == 1 and isinstance(args[0], Str): o.items.append(('name', conv_str(args[0].v))); return None
            if len(args) == 2 and isinstance(args[0], It) and isinstance(args[0].seq, SetV) and args[0].i == 0 and args[1].seq is args[0].seq and args[1].i == -1:
                o.items += args[0].seq.items; return None
        if n in ('begin', 'cbegin'): return It(o, 0)
        if n in ('end', 'cend'): return It(o, -1)
        raise Unsupported('set method ' + n)
    # maps: entries (key, value) added on top of a symbolic base (has(key) -> Bool, val(key) -> value)
    def map_lookup(self, o, k):
        """(condition that k is a key, value) with the newest knowledge; decides key equality with explicit entries"""
        k = conv_str(k)
        for kk, v in o.entries:
            c = conv_str(kk) == k
            if self.ctx.decide(c): return True, v
        if o.base is not None: return o.base.has(k), o.base.val(k)
        return False, None
    def map_method(self, o, n, args, e):
        I = self.I
        if n in ('find', 'count', 'at', 'contains'):
            k = self.str_val(args[0])
            h, v = self.map_lookup(o, k)
            if n == 'contains': return h
            if n == 'count':
                return 1 if h is True else 0 if h is False else z3.If(h, z3.IntVal(1), z3.IntVal(0))
            if self.ctx.decide(h):
                if n == 'at': return v
                it = It(o, ('key', conv_str(k))); it.entry = Pair([Str(k), v]); return it
            if n == 'at': raise CppThrow(Ext('out_of_range'), 'out_of_range')
            return It(o, 'end')
        if n in ('end', 'cend'): return It(o, 'end')
        if n in ('begin', 'cbegin'): return It(o, 'begin')
        if n in ('insert', 'emplace', 'try_emplace'):
            I.wrote(o)
            if n == 'insert':
                p = args[0]
                if not isinstance(p, Tuple): raise Unsupported('map insert')
                k, v = p.items
            else:
                if len(args) != 2: raise Unsupported('map emplace')
                k, v = args
                if isinstance(v, UP): v = I.move(v)
                elif not isinstance(v, Cell) and not I.is_scalar(v): v = I.copy(v)
            self.map_add(o, self.str_val(k), v, False)
            return Pair([It(o, 'some'), Cell(True)])
        if n == 'empty':
            if o.base is None: return not o.entries
            raise Unsupported('emptiness of a symbolic map')
        if n == 'clear':
            I.wrote(o); o.entries = []; o.base = None; return None
        if n == 'size' and o.base is None: return len(o.entries)
        raise Unsupported('map method ' + n)
    def map_add(self, o, k, v, overwrite):
        k = conv_str(k)
        for i, (kk, vv) in enumerate(o.entries):
            if self.ctx.decide(conv_str(kk) == k):
                if overwrite: o.entries[i] = (kk, v)
                return
        if o.base is not None:
            if self.ctx.decide(o.base.has(k)): raise Unsupported('insertion of an existing key')
        o.entries.append((k, self.I.boxed(v)))
    def str_method(self, o, n, args, e):
        v = o.v
        if n in ('c_str', 'data'): return CPtr(o, 0)
        if n == 'empty':
            return v == '' if isinstance(v, str) else conv_str(v) == EMPTY
        if isinstance(v, str):
            if n in ('size', 'length'): return len(v.encode())
            if n in ('begin', 'cbegin'): return CPtr(o, 0)
            if n in ('end', 'cend'): return CPtr(o, len(v.encode()))
            if n == 'clear': self.I.wrote(o); o.v = ''; return None
        if n == 'clear': self.I.wrote(o); o.v = ''; return None
        if n in ('append', 'push_back', 'insert', 'assign'):
            self.I.wrote(o); o.v = self.ctx.fresh(N, 'str'); return o
        if n in ('size', 'length'):
            k = STRLEN(v); self.ctx.assume(z3.And(k >= 0, (k == 0) == (v == EMPTY))); self.ctx.st.facts['weak'] = True
            return k
        raise Unsupported('string method ' + n)
    def str_val(self, x):
        if isinstance(x, Cell): x = x.v
        if isinstance(x, Str): return x.v
        if isinstance(x, CPtr) and isinstance(x.base, Str) and x.off == 0: return x.base.v
        raise Unsupported('string value of %r' % (x,))
    def str_eq(self, a, b):
        a = self.str_val(a); b = self.str_val(b)
        if isinstance(a, str) and isinstance(b, str): return a == b
        return conv_str(a) == conv_str(b)
    # ---------------------------------------------------------------- operators
    def eq(self, a, b):
        I = self.I
        a = I.get(a); b = I.get(b)
        if isinstance(a, Tuple) and isinstance(b, Tuple):
            out = []
            for x, y in zip(a.items, b.items):
                c = self.eq(x, y)
                if c is False: return False
                if c is not True: out.append(c)
            return True if not out else z3.And(*out)
        if isinstance(a, (Str, CPtr)) or isinstance(b, (Str, CPtr)): return self.str_eq(a, b)
        if isinstance(a, (UP, Obj)) or isinstance(b, (UP, Obj)) or a is None or b is None:
            if isinstance(a, UP) and b is None:
                r = self.up_bool(a); return (not r) if isinstance(r, bool) else z3.Not(r)
            if isinstance(b, UP) and a is None:
                r = self.up_bool(b); return (not r) if isinstance(r, bool) else z3.Not(r)
            return self.same_obj(a, b)
        if isinstance(a, It): return self.it_eq(a, b)
        if I.dom.is_num(a) or I.dom.is_num(b): return I.dom.cmp('==', a, b)
        return self.int_cmp('==', a, b, 'int')
    def it_eq(self, a, b):
        if isinstance(a.seq if isinstance(a, It) else None, MapV):
            if a.seq is not b.seq: raise Unsupported('iterators of different maps')
            if a.i == 'end' or b.i == 'end':
                if a.i == 'end' and b.i == 'end': return True
                if isinstance(a.i, tuple) or isinstance(b.i, tuple): return False
            raise Unsupported('comparison of map iterators')
        return self.ptr_bin('==', a, b)
    def op(self, name, args, e, ftype):
        I = self.I
        n = name[len('operator'):].strip()
        a = args[0]
        if isinstance(a, Cell) and not I.is_scalar(a.v): a = a.v
        if n == '=':
            if isinstance(a, Cell):
                I.assign(a, I.get(args[1])); return a
            I.set_value(a, I.get(args[1]), '&&' in ftype)
            return a
        if hasattr(a, 'op') or (len(args) > 1 and hasattr(args[1], 'op')):
            return (a if hasattr(a, 'op') else args[1]).op(I, n, args, e)
        if n == '->':
            a = I.get(a)
            if isinstance(a, UP): return self.up_deref(a)
            if isinstance(a, It): return self.deref(a)
            return a
        if n == '*' and len(args) == 1:
            a = I.get(a)
            if isinstance(a, UP): return self.up_deref(a)
            return self.deref(a)
        if n == 'bool': return self.up_bool(a)
        if n in ('==', '!='):
            r = self.eq(args[0], args[1])
            if n == '==': return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if n == '[]':
            i = I.get(args[1])
            if isinstance(a, Seq): return self.at(a, i)
            if isinstance(a, Str): return self.char_at(CPtr(a, i))
            if isinstance(a, MapV): return self.map_index(a, args[1])
        if n == '<<':
            if isinstance(a, Stream): self.stream_put(a, args[1]); return a
        if n == '+' and len(args) == 2: return self.str_concat(args)
        if n == '+=' and isinstance(a, Str):
            I.wrote(a)
            r = self.str_concat(args); a.v = r.v; return a
        if n in ('++', '--'):
            it = I.get(args[0])
            new = self.ptr_add(it, 1 if n == '++' else -1)
            I.assign(args[0], new)
            return it if len(args) > 1 else args[0]
        if n == '()':
            f = I.get(a)
            return I.call_value(f, args[1:])
        if n in ('<', '>', '<=', '>=') or n == '-':
            x, y = I.get(args[0]), I.get(args[1])
            if isinstance(x, (It, CPtr)): return self.ptr_bin(n, x, y)
        if n == '+=' and isinstance(I.get(args[0]), It):
            I.assign(args[0], self.ptr_add(I.get(args[0]), I.get(args[1]))); return args[0]
        raise Unsupported('operator %s on %s' % (n, type(a).__name__))
    def map_index(self, m, k):
        kk = self.str_val(k)
        h, v = self.map_lookup(m, kk)
        if h is not True and self.ctx.decide(h): return v
        if h is True: return v
        raise Unsupported('map operator[] inserting')
    def str_concat(self, args):
        vs = [self.str_any(x) for x in args]
        if all(isinstance(v, str) for v in vs): return Str(''.join(vs))
        return Str(self.ctx.fresh(N, 'str'))
    def str_any(self, x):
        x = self.I.get(x)
        if isinstance(x, int): return chr(x)
        try: return self.str_val(x)
        except Unsupported: return None
    def stream_put(self, s, x):
        self.I.wrote(s)
        x = self.I.get(x)
        if isinstance(x, (Str, CPtr)):
            try: s.parts.append(self.str_val(x)); return
            except Unsupported: pass
        s.parts.append(('val', x))
    # ---------------------------------------------------------------- construction
    def construct(self, t, ct, args, e):
        I = self.I
        h = head(t); s = strip(t)
        now = self.ctx.time
        a0 = args[0] if args else None
        if isinstance(a0, Cell): a0 = a0.v
        if h in UP_HEADS:
            if not args or a0 is None: return UP(None, now)
            u = UP(None, now)
            if isinstance(a0, UP): self.up_take(u, a0)
            else: u.set(a0)
            return u
        if s.startswith('(lambda') or isinstance(a0, Closure): return a0
        if h == 'reference_wrapper': return a0 if isinstance(a0, RefWrap) else RefWrap(a0)
        if h in ('tuple', 'pair'):
            if len(args) == 1 and isinstance(a0, Tuple): return I.move(a0) if '&&' in ct else I.copy(a0)
            if not args: return I.default(t)
            r = self.make_tuple(targs(s), args)
            return r
        if h in ('basic_string', 'string'):
            if not args: return Str('', now)
            if isinstance(a0, Str): return Str(a0.v, now)
            if isinstance(a0, CPtr):
                if len(args) == 1: return Str(self.str_val(a0), now)
                a1 = I.get(args[1])
                return self.str_range(a0, a1)
            if isinstance(a0, int) and len(args) == 2 and isinstance(I.get(args[1]), int): return Str(chr(I.get(args[1])) * a0, now)
            return Str(self.ctx.fresh(N, 'str'), now)
        if h in SEQ_HEADS:
            if not args: return I.default(t)
            if isinstance(a0, Seq):
                r = I.move(a0) if '&&' in ct else I.copy(a0)
                r.kind = h
                return r
            return self.seq_construct(t, ct, args, e)
        if h in ('set', 'map', 'unordered_map', 'unordered_set'):
            if not args: return I.default(t)
            if isinstance(a0, (SetV, MapV)): return I.copy(a0)
        if h in ('basic_stringstream', 'stringstream', 'ostringstream'): return Stream(now)
        if h == 'function': return a0
        if s in INTS or s in ('double',): return a0 if args else 0
        if isinstance(a0, (It, CPtr)) and len(args) == 1: return a0
        if isinstance(a0, RefWrap): return a0
        r = self.construct_other(t, ct, args, e)
        if r is not None: return r
        return Ext(h, args)
    def construct_other(self, t, ct, args, e): return None
    def seq_construct(self, t, ct, args, e): raise Unsupported('container constructor ' + ct)
    def str_range(self, a, b):
        if isinstance(b, CPtr) and b.base is a.base and isinstance(a.base, Str) and isinstance(a.base.v, str) and isinstance(a.off, int) and isinstance(b.off, int):
            return Str(a.base.v.encode()[a.off:b.off].decode('utf-8', 'replace'))
        if isinstance(b, int) and isinstance(a.base, Str) and isinstance(a.base.v, str) and isinstance(a.off, int):
            return Str(a.base.v.encode()[a.off:a.off + b].decode('utf-8', 'replace'))
        raise Unsupported('string range')
    # ---------------------------------------------------------------- free functions
    def free(self, name, args, e, I=None, xs=None):
        I = self.I
        m = getattr(self, 'f_' + name.replace(' ', '_'), None) if name else None
        if m: return m(args, e)
        if name and name.startswith('operator'): return self.op(name, args, e, '')
        r = I.dom.call(name, [I.get(a) for a in args])
        if r is not None: 
            I.trusted.add('std::' + name)
            return r
        raise Unsupported('library function ' + str(name))
    def f_move(self, args, e):
        if len(args) > 1: raise Unsupported('std::move algorithm')
        return args[0]
    def f_forward(self, args, e): return args[0]
    def f_addressof(self, args, e): 
        x = args[0]
        if isinstance(x, Cell) and isinstance(x.tag, It): return x.tag
        return x
    def f_ref(self, args, e): return RefWrap(args[0])
    f_cref = f_ref
    def f_as_const(self, args, e): return args[0]
    def f_exchange(self, args, e):
        I = self.I
        a, b = args
        if isinstance(a, Cell):
            old = I.get(a); I.assign(a, I.get(b)); return old
        old = I.move(a)
        I.set_value(a, b if not isinstance(b, Cell) else b.v, True)
        return old
    def f_swap(self, args, e):
        I = self.I
        a, b = args
        if isinstance(a, Cell):
            x, y = I.get(a), I.get(b); I.assign(a, y); I.assign(b, x); return None
        t = I.move(a); I.set_value(a, b, True); I.set_value(b, t, True)
        return None
    def f_get(self, args, e):
        t = args[0]
        # index from the called specialisation's type: find via template argument recorded in the expression text
        txt = self.I.tu.text(e)
        m = re.match(r'(?:std\s*::\s*)?get\s*<\s*(\d+)\s*>', txt)
        if not m: raise Unsupported('std::get by type')
        if isinstance(t, Tuple): return t.items[int(m.group(1))]
        if isinstance(t, Seq): return self.at(t, int(m.group(1)))
        raise Unsupported('std::get')
    def f_tie(self, args, e):
        t = Tuple(args); return t
    def f_make_tuple(self, args, e):
        return Tuple([self.I.boxed(self.I.copy(a if not isinstance(a, Cell) else a.v)) for a in args])
    def f_make_pair(self, args, e):
        return Pair([self.I.boxed((self.I.move(a) if isinstance(a, UP) else self.I.copy(a)) if not isinstance(a, Cell) else a.v) for a in args])
    def f_forward_as_tuple(self, args, e): return Tuple(args)
    def f_make_unique(self, args, e):
        I = self.I
        t = ty(e)
        m = re.search(r'make_unique<([\w:]+)', I.tu.text(e)) or re.search(r'unique_ptr<([\w:]+)', t)
        name = (m.group(1) if m else 'NodeImpl').split('::')[-1]
        r = I.rec_by_name.get(name)
        if r is None: raise Unsupported('make_unique<%s>' % name)
        ft = I_ftype(e)
        if len(args) == 1 and isinstance(args[0], Obj):
            mv = '&&' in ft.split('(', 1)[-1] and 'const' not in ft.split('(', 1)[-1]
            # make_unique<T>(T&&) takes the category of the argument expression
            x = e['inner'][1]
            mv = x.get('valueCategory') in ('xvalue', 'prvalue')
            o = I.construct(r, name, 'void (%s &&)' % name if mv else 'void (const %s &)' % name, args)
        elif not args:
            o = I.construct(r, name, 'void ()', [])
        else:
            o = self.construct_by_args(r, name, args)
        u = UP(None, self.ctx.time); u.set(o)
        return u
    def f_begin(self, args, e): return self.method(args[0], 'begin', [], e)
    def f_end(self, args, e): return self.method(args[0], 'end', [], e)
    f_cbegin = f_begin; f_cend = f_end
    def f_rbegin(self, args, e): return self.method(args[0], 'rbegin', [], e)
    def f_rend(self, args, e): return self.method(args[0], 'rend', [], e)
    def f_empty(self, args, e): return self.method(args[0], 'empty', [], e)
    def f_size(self, args, e): return self.method(args[0], 'size', [], e)
    def f_to_string(self, args, e): return Str(self.ctx.fresh(N, 'str'))
    def f_quiet_NaN(self, args, e): return self.I.dom.nan()
    def f_infinity(self, args, e): return self.I.dom.inf()
    def f_distance(self, args, e):
        a, b = self.I.get(args[0]), self.I.get(args[1])
        return self.ptr_bin('-', b, a)
    def f_next(self, args, e): return self.ptr_add(self.I.get(args[0]), self.I.get(args[1]) if len(args) > 1 else 1)
    def f_prev(self, args, e): return self.ptr_add(self.I.get(args[0]), -(self.I.get(args[1]) if len(args) > 1 else 1))
    def range_items(self, a, b):
        I = self.I
        a = I.get(a); b = I.get(b)
        if isinstance(a, It) and isinstance(a.seq, Seq) and isinstance(a.i, int) and isinstance(b.i, int) and b.seq is a.seq:
            if any(isinstance(x, Seg) for x in a.seq.items): raise Unsupported('algorithm over a symbolic sequence')
            return list(reversed(a.seq.items[b.i:a.i])) if a.rev else a.seq.items[a.i:b.i]
        raise Unsupported('algorithm over %r' % (a,))
    def f_for_each(self, args, e):
        for x in self.range_items(args[0], args[1]): self.I.call_value(args[2], [x])
        return self.I.get(args[2])
    def f_all_of(self, args, e):
        for x in self.range_items(args[0], args[1]):
            if not self.ctx.decide(self.I.truth(self.I.call_value(args[2], [x]))): return False
        return True
    def f_any_of(self, args, e):
        for x in self.range_items(args[0], args[1]):
            if self.ctx.decide(self.I.truth(self.I.call_value(args[2], [x]))): return True
        return False
    def f_none_of(self, args, e): return not self.f_any_of(args, e)
    LIMITS = {'int': (-(1 << 31), (1 << 31) - 1), 'long': (-(1 << 63), (1 << 63) - 1), 'unsigned int': (0, (1 << 32) - 1), 'unsigned long': (0, (1 << 64) - 1), 'char': (-128, 127), 'short': (-(1 << 15), (1 << 15) - 1)}
    def limit(self, e, k):
        t = strip(ty(e))
        if t in ('double',): return self.I.dom.lit(1.7976931348623157e308 if k else 2.2250738585072014e-308)
        if t not in self.LIMITS: raise Unsupported('numeric_limits<%s>' % t)
        return self.LIMITS[t][k]
    def f_lowest(self, args, e): return self.I.dom.lit(-1.7976931348623157e308) if strip(ty(e)) == 'double' else self.limit(e, 0)
    def f_max(self, args, e):
        I = self.I
        if not args: return self.limit(e, 1)
        a, b = I.get(args[0]), I.get(args[1])
        if I.dom.is_num(a): c = I.dom.cmp('<', a, b)
        else: c = self.int_cmp('<', a, b, '')
        return args[1] if self.ctx.decide(c) else args[0]
    def f_min(self, args, e):
        I = self.I
        if not args: return self.limit(e, 0)
        a, b = I.get(args[0]), I.get(args[1])
        if I.dom.is_num(a): c = I.dom.cmp('<', b, a)
        else: c = self.int_cmp('<', b, a, '')
        return args[1] if self.ctx.decide(c) else args[0]
    def call_ext(self, f, args):
        I = self.I
        if f.tname in ('less', 'less_equal', 'greater', 'greater_equal', 'equal_to', 'not_equal_to'):
            op = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}[f.tname]
            x, y = I.get(args[0]), I.get(args[1])
            return I.dom.cmp(op, x, y) if I.dom.is_num(x) else self.int_cmp(op, x, y, '')
        raise Unsupported('call of ' + f.tname)
    def member(self, o, n):
        if isinstance(o, It): return self.member(self.deref(o), n)
        if isinstance(o, Tuple): return o.items[0 if n == 'first' else 1]
        raise Unsupported('member %s of %s' % (n, type(o).__name__))
    def global_var(self, name):
        if name in ('cout', 'cerr', 'clog'):
            return self.globals.setdefault(name, Stream())
        return self.globals.get(name)

from .extract import params_of
def I_ftype(e):
    x = e['inner'][0]
    while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
    return (x.get('type') or {}).get('qualType') or ''
