"""Verification tasks about numbers: Calc over IEEE-754 doubles (C02)."""
import z3
from .core import *
from .dom import FPDom
from .interp import Interp, ty, strip, head
from .extract import params_of, body_of
from .tasks_tree import Env, c_str, NS

def config_obj(E, dom, fixed=()):
    """Config::Get(): one global object, every setting arbitrary"""
    I = E.I; ctx = E.ctx
    rec = I.rec_by_name.get('Config')
    if rec is None: raise Unsupported('Config')
    o = Obj('Config', {}); o.region = 'global'
    for f in I.fields_of(rec):
        t = strip(ty(f)); n = f['name']
        if n in dict(fixed): v = dict(fixed)[n]
        elif t == 'bool': v = ctx.fresh(z3.BoolSort(), n)
        elif t == 'double': v = ctx.fresh(dom.sort, n)
        else: v = ctx.fresh(z3.IntSort(), n)
        o.f[n] = Cell(v); o.f[n].frozen = 'the configuration'
    I.contracts[NS + 'Config::Get'] = lambda I, this, a, d: o
    return o

def spec_calc(ops, dom, op, x, y):
    """the value of an operator application (invalid operations of the integer operators give NaN)"""
    o = ops; F = dom.sort
    un = {'POSITIVE': x, 'NEGATIVE': z3.fpNeg(x)}
    for n, f in dict(SIN='sin', COS='cos', TAN='tan', ARCSIN='asin', ARCCOS='acos', ARCTAN='atan', SQRT='sqrt', LOG='log', LOG2='log2', LOG10='log10', EXP='exp').items():
        un[n] = dom.fun(f, 1)(x)
    rm = z3.RNE()
    lo, hi = z3.FPVal(-2147483648.0, F), z3.FPVal(2147483648.0, F)
    def inr(v):
        r = z3.fpRoundToIntegral(z3.RTZ(), v)
        return z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(r, lo), z3.fpLT(r, hi))
    ix, iy = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(32)), z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(32))
    both = z3.And(inr(x), inr(y)); nan = z3.fpNaN(F)
    fb = lambda b: z3.fpSignedToFP(rm, b, F)
    bi = {'ADD': dom.bin('+', x, y), 'SUB': dom.bin('-', x, y), 'MULTIPLY': dom.bin('*', x, y), 'DIVIDE': dom.bin('/', x, y), 'POWER': dom.fun('pow', 2)(x, y),
          'AND': z3.If(both, fb(ix & iy), nan), 'OR': z3.If(both, fb(ix | iy), nan), 'MOD': z3.If(z3.And(both, iy != 0), z3.If(iy == -1, fb(z3.BitVecVal(0, 32)), fb(z3.SRem(ix, iy))), nan)}
    assert set(un) == set(o.UN) and set(bi) == set(o.BI)
    return dict(un, **bi)

def t_calc(name):
    """Calc(op, v1, v2) for one operator"""
    def t(tu, ctx):
        dom = FPDom(); E = Env(tu, ctx, dom=dom); I = E.I
        cfg = config_obj(E, dom)
        I.contracts[NS + 'ToString'] = c_str(E.lib)
        F = dom.sort
        x, y = ctx.fresh(F, 'v1'), ctx.fresh(F, 'v2')
        e = spec_calc(E.ops, dom, None, x, y)[name]
        thr = cfg.f['throwOnInvalidValue'].v
        bad = z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))
        f = E.fn('Calc', 3, lambda f: I.qname(f) == NS + 'Calc')
        try: r = I.get(I.call_function(f, None, [E.ops.v[name], x, y]))
        except CppThrow as ex:
            ctx.oblige('ensures:throws-only-for-invalid-results', z3.And(thr, bad))
            ctx.oblige('ensures:throws-a-math-error', ex.tname == 'MathError')
            return
        r = dom.co(r)
        ctx.oblige('ensures:invalid-result-never-returned', z3.Implies(thr, z3.Not(bad)))
        ctx.oblige('ensures:value', z3.Or(z3.fpEQ(r, e), z3.And(z3.fpIsNaN(r), z3.fpIsNaN(e))))
    return t
