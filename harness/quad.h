#pragma once
// quad-precision evaluation and forward-mode derivative of a specification tree (oracle)
typedef __float128 Q;
static inline Q qinf() { return (Q)INFINITY; }
static inline bool fin(Q x) { return x - x == 0; }
static inline Q qabs(Q x) { return x < 0 ? -x : x; }
#include <quadmath.h>
struct D { Q v, d; bool ok; };
typedef std::map<str, Q> EnvQ;
static inline Q qop(MO o, Q a, Q b) {
    switch (o) {
    case MO::MATH_SIN: return sinq(a); case MO::MATH_COS: return cosq(a); case MO::MATH_TAN: return tanq(a);
    case MO::MATH_ARCSIN: return asinq(a); case MO::MATH_ARCCOS: return acosq(a); case MO::MATH_ARCTAN: return atanq(a);
    case MO::MATH_SQRT: return sqrtq(a); case MO::MATH_LOG: return logq(a); case MO::MATH_LOG2: return log2q(a); case MO::MATH_LOG10: return log10q(a); case MO::MATH_EXP: return expq(a);
    case MO::MATH_POSITIVE: return a; case MO::MATH_NEGATIVE: return -a;
    case MO::MATH_ADD: return a + b; case MO::MATH_SUB: return a - b; case MO::MATH_MULTIPLY: return a * b; case MO::MATH_DIVIDE: return a / b; case MO::MATH_POWER: return powq(a, b);
    default: { double x = (double)a, y = (double)b; return spec(o, x, y); }
    }
}
// eps != 0: every number and every intermediate result is disturbed relatively by eps (conditioning)
static inline Q evalq(const SP &t, const EnvQ &e, Q eps = 0, unsigned *k = nullptr) {
    if (t->k == 0) return t->v;
    if (t->k == 2) return e.at(t->n);
    Q a = evalq(t->l, e, eps, k), b = t->r ? evalq(t->r, e, eps, k) : 0;
    Q r = qop(t->op, a, b);
    if (eps != 0) { *k = *k * 1664525u + 1013904223u; r *= 1 + ((*k >> 16) & 1 ? eps : -eps) * (Q)(1 + ((*k >> 20) & 7)) / 8; }
    return r;
}
// eps != 0: intermediate results that are not whole numbers are disturbed relatively (conditioning)
static inline D dualq(const SP &t, const str &x, const EnvQ &e, Q eps = 0, unsigned *k = nullptr) {
    if (t->k == 0) return {(Q)t->v, 0, true};
    if (t->k == 2) return {e.at(t->n), t->n == x ? (Q)1 : (Q)0, true};
    D a = dualq(t->l, x, e, eps, k), b{0, 0, true}; if (t->r) b = dualq(t->r, x, e, eps, k);
    D r; r.ok = a.ok && b.ok; r.v = qop(t->op, a.v, b.v); Q u = a.v, du = a.d, v = b.v, dv = b.d;
    switch (t->op) {
    case MO::MATH_SIN: r.d = cosq(u) * du; break; case MO::MATH_COS: r.d = -sinq(u) * du; break; case MO::MATH_TAN: r.d = (1 + r.v * r.v) * du; break;
    case MO::MATH_ARCSIN: r.d = du / sqrtq(1 - u * u); break; case MO::MATH_ARCCOS: r.d = -du / sqrtq(1 - u * u); break; case MO::MATH_ARCTAN: r.d = du / (1 + u * u); break;
    case MO::MATH_SQRT: r.d = du / (2 * r.v); break; case MO::MATH_LOG: r.d = du / u; break; case MO::MATH_LOG2: r.d = du / (u * logq((Q)2)); break; case MO::MATH_LOG10: r.d = du / (u * logq((Q)10)); break; case MO::MATH_EXP: r.d = r.v * du; break;
    case MO::MATH_POSITIVE: r.d = du; break; case MO::MATH_NEGATIVE: r.d = -du; break;
    case MO::MATH_ADD: r.d = du + dv; break; case MO::MATH_SUB: r.d = du - dv; break; case MO::MATH_MULTIPLY: r.d = du * v + u * dv; break; case MO::MATH_DIVIDE: r.d = (du * v - u * dv) / (v * v); break;
    case MO::MATH_POWER:
        if (t->l->k == 0 && t->r->k == 0) r.d = 0;
        else if (t->r->k == 0) r.d = v * powq(u, v - 1) * du;
        else { if (!(u > 0)) r.ok = false; r.d = r.v * (dv * logq(u) + v * du / u); }
        break;
    default: r.ok = false; r.d = 0;
    }
    if (!fin(r.v) || !fin(r.d)) r.ok = false;
    // functions: strictly inside the domain
    switch (t->op) {
    case MO::MATH_LOG: case MO::MATH_LOG2: case MO::MATH_LOG10: case MO::MATH_SQRT: if (!(u > 0)) r.ok = false; break;
    case MO::MATH_ARCSIN: case MO::MATH_ARCCOS: if (!(qabs(u) < 1)) r.ok = false; break; default: break;
    }
    if (eps != 0 && r.v != floorq(r.v)) { *k = *k * 1664525u + 1013904223u; Q f = 1 + ((*k >> 16) & 1 ? eps : -eps) * (Q)(1 + ((*k >> 20) & 7)) / 8; r.v *= f; r.d *= f; }
    return r;
}
static inline str fq(Q v) { char b[80]; quadmath_snprintf(b, sizeof b, "%.25Qg", v); return b; }
