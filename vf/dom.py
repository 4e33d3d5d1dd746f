"""Numeric domains: how C++ doubles are interpreted in a proof."""
import z3
from fractions import Fraction
from .core import *

RNE = None
class RealDom:
    """double as a mathematical real; libm functions are uninterpreted (assumption: machine arithmetic treated as mathematical)."""
    name = 'real'
    sort = z3.RealSort()
    def __init__(self): self.funs = {}; self.nan_used = False
    def lit(self, v):
        if isinstance(v, str): v = float(v)
        f = Fraction(v)
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))
    def is_num(self, v): return isinstance(v, z3.ArithRef) and v.is_real() or isinstance(v, float)
    def nan(self): return z3.Real('nan')
    def inf(self): return z3.Real('inf')
    def bin(self, op, x, y):
        x = self.co(x); y = self.co(y)
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '/': return x / y
        raise Unsupported('double operator ' + op)
    def co(self, x):
        if isinstance(x, bool): x = int(x)
        if isinstance(x, (int, float)): return self.lit(x)
        if isinstance(x, z3.ArithRef) and x.is_int(): return z3.ToReal(x)
        return x
    def cmp(self, op, x, y):
        x = self.co(x); y = self.co(y)
        return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    def neg(self, x): return -self.co(x)
    def from_int(self, v):
        if isinstance(v, int): return z3.RealVal(v)
        if isinstance(v, z3.ArithRef) and v.is_int(): return z3.ToReal(v)
        return v
    def to_int(self, v, ctx, t):
        v = self.co(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    def truth(self, v): return v != 0
    FN1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'log', 'log2', 'log10', 'exp', 'floor', 'ceil', 'round', 'trunc'}
    FN2 = {'pow', 'fmod', 'atan2', 'hypot'}
    def fun(self, n, k):
        f = self.funs.get(n)
        if f is None:
            f = self.funs[n] = z3.Function('fn_' + n, *([z3.RealSort()] * (k + 1)))
        return f
    def call(self, name, args):
        if name in ('abs', 'fabs', '__builtin_fabs') and len(args) == 1:
            x = self.co(args[0])
            return z3.If(x >= 0, x, -x)
        if name in ('isnan', 'isinf'): return False
        if name in ('isfinite', 'isnormal'): return True
        if name in self.FN1 and len(args) == 1: return self.fun(name, 1)(self.co(args[0]))
        if name in self.FN2 and len(args) == 2: return self.fun(name, 2)(self.co(args[0]), self.co(args[1]))
        return None

class FPDom:
    """double as IEEE-754 binary64 (SMT floating point); libm functions are uninterpreted; int results of casts are 32-bit vectors."""
    name = 'fp'
    def __init__(self):
        self.sort = z3.Float64(); self.rm = z3.RNE(); self.funs = {}
    def lit(self, v):
        if isinstance(v, str): v = float(v)
        return z3.FPVal(v, self.sort)
    def is_num(self, v): return isinstance(v, z3.FPRef) or isinstance(v, float)
    def nan(self): return z3.fpNaN(self.sort)
    def inf(self): return z3.fpPlusInfinity(self.sort)
    def co(self, x):
        if isinstance(x, bool): x = int(x)
        if isinstance(x, (int, float)): return self.lit(x)
        return x
    def bin(self, op, x, y):
        x = self.co(x); y = self.co(y)
        if not z3.is_fp_value(x) and not z3.is_fp_value(y): return self.fun('fp' + op, 2)(x, y)     # rounding left uninterpreted
        return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](self.rm, x, y)
    def cmp(self, op, x, y):
        x = self.co(x); y = self.co(y)
        if op == '!=': return z3.Not(z3.fpEQ(x, y))
        return {'<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ, '==': z3.fpEQ}[op](x, y)
    def neg(self, x): return z3.fpNeg(self.co(x))
    def from_int(self, v):
        if isinstance(v, int): return self.lit(float(v))
        if z3.is_bv(v): return z3.fpSignedToFP(self.rm, v, self.sort)
        raise Unsupported('symbolic int to double')
    def to_int(self, v, ctx, t):
        w = {'int': 32, 'long': 64, 'long long': 64, 'int32_t': 32, 'int64_t': 64}.get(t)
        if w is None: raise Unsupported('double to ' + t)
        v = self.co(v)
        lo, hi = self.lit(float(-(1 << (w - 1)))), self.lit(float(1 << (w - 1)))
        rt = z3.fpRoundToIntegral(z3.RTZ(), v)
        ctx.oblige('cast-in-range', z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(rt, lo), z3.fpLT(rt, hi)))
        return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w))
    def truth(self, v): return z3.Not(z3.fpEQ(v, self.lit(0.0)))
    def fun(self, n, k):
        f = self.funs.get(n)
        if f is None: f = self.funs[n] = z3.Function('fn_' + n, *([self.sort] * (k + 1)))
        return f
    def call(self, name, args):
        if name in ('abs', 'fabs', '__builtin_fabs') and len(args) == 1: return z3.fpAbs(self.co(args[0]))
        if name in ('isnan',): return z3.fpIsNaN(args[0])
        if name in ('isinf',): return z3.fpIsInf(args[0])
        if name in ('isfinite',): return z3.Not(z3.Or(z3.fpIsInf(args[0]), z3.fpIsNaN(args[0])))
        if name in ('trunc',): return z3.fpRoundToIntegral(z3.RTZ(), args[0])
        if name in ('floor',): return z3.fpRoundToIntegral(z3.RTN(), args[0])
        if name in ('ceil',): return z3.fpRoundToIntegral(z3.RTP(), args[0])
        if name in RealDom.FN1 and len(args) == 1: return self.fun(name, 1)(self.co(args[0]))
        if name in RealDom.FN2 and len(args) == 2: return self.fun(name, 2)(self.co(args[0]), self.co(args[1]))
        if name == 'epsilon': return self.lit(2.0 ** -52)
        return None
