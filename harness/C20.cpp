#include "common.h"
void run(Rng &R, bool) {
    Gen g(R); std::vector<double> odd{NAN, INFINITY, -INFINITY, 0, -0.0, 1e308, -1e308, 5e-324, 1e19, -1e19, 2147483648.0};
    for (long i = 0; !timeUp() && i < 60000; ++i) {
        Config::Get().throwOnInvalidValue = R(3) != 0; g.pvar = R(3) * 0.3;
        SP t = g.any(); std::function<void(SP &)> spoil = [&](SP &s) { if (s->k == 0 && R(3) == 0) s = sNum(odd[R((int)odd.size())]); if (s->k == 1) { s = SP(new S(*s)); spoil(s->l); if (s->r) spoil(s->r); } }; if (R(2)) spoil(t);
        CASE("operations declared noexcept on " + show(t)); Node n = raw(t);
        n->ToString(); n->GetAllVarNames(); n->Equal(n); n->CheckParent(); { std::stringstream ss; ss << n; } Node c = Clone(n); Simplify(c); CHECK(wf(c) == "", wf(c)); CHECK(same(read(n), t), "argument changed");
        { Node a = Subs(n, "x", c), b = Subs(n, std::map<str, double>{{"y", odd[R((int)odd.size())]}}); Node d = a + b * n - Num(odd[R((int)odd.size())]); d /= n; d ^= n; d *= Num(2.0); Node e = -sin(std::move(d)); Simplify(e); NodeImpl x(*n), y(std::move(x)); x = y; y = std::move(x); }
        { str w; SP s0 = read(n); int k = clsOf([&] { n->Vpa(); }, &w); CHECK(k == 0 || k == 1 || k == 3, "Vpa: unexpected exception " + w); CHECK(same(read(n), s0), "Vpa changed the expression"); k = clsOf([&] { n->Calc(); }, &w); if (k) CHECK(same(read(n), s0) && wf(n) == "", "Calc threw and changed the expression"); Node m = raw(t); k = clsOf([&] { Diff(m, "x"); }, &w); CHECK(same(read(m), t) && wf(m) == "", "Diff changed its lvalue argument (threw: " + w + ")"); }
        ToString(odd[R((int)odd.size())]); ToString(g.num());
        if (i % 8 == 0) {
            int r = 1 + R(4), q = 1 + R(4); Mat a(r, q), b(r, q); for (int x = 0; x < r; ++x) for (int y = 0; y < q; ++y) { a.Value(x, y) = R(4) ? g.num() : odd[R((int)odd.size())]; b.Value(x, y) = g.num(); } CASE("matrix operations declared noexcept on " + a.ToString());
            a + b; a - b; a * 2.0; 2.0 * a; -a; a == b; a == 0.0; a * b.Transpose(); EachDivide(a, b); IsZero(a); AllIsLessThan(a, b); a.Norm2(); a.NormInfinity(); a.NormNegInfinity(); a.Min(); a.SwapRow(0, r - 1); a.SwapCol(0, q - 1); GetMaxAbsRowIndex(a, 0, r - 1, R(q)); a += b; Mat s = a; s.Resize(q, r); s.SetValue(1); s.Zero(); if (r == q) { Det(a, r); Det(a, 0); a.PositiveDetermine(); s.Ones(); Mat adj(r, r); Adjoint(a, adj); str w; Mat a0 = a; int k = clsOf([&] { a.Inverse(); }, &w); CHECK(k == 0 || k == 1, w); CHECK(memcmp(&a.data[0], &a0.data[0], r * q * 8) == 0, "Inverse changed its operand"); }
            { Mat A = a; Vec v(r), v0(1); for (int x = 0; x < r; ++x) v[x] = g.num(); Mat A0 = A; v0 = v; str w; int k = clsOf([&] { SolveLinear(A, v); }, &w); CHECK(k == 0 || k == 1, w); CHECK(memcmp(&A.data[0], &A0.data[0], r * q * 8) == 0 && memcmp(&v.data[0], &v0.data[0], r * 8) == 0, "SolveLinear changed its arguments"); }
            { str w; Mat A = a; int k = clsOf([&] { A.ToVec(); }, &w); CHECK((k != 0) == (q != 1), "ToVec"); }
            VarsTable t(std::map<str, double>{{"x", g.num()}, {"y", odd[R((int)odd.size())]}}); t.ToString(); t == t; t.Has("q"); { std::stringstream ss; ss << t; } Vec vv{1, odd[R((int)odd.size())]}; t.SetValues(vv); str w; int k = clsOf([&] { t["nope"]; }, &w); CHECK(k == 4 && t.VarNums() == 2 && !t.Has("nope"), "failed lookup changed the table");
            SP p0 = g.any(), p1 = g.any(); SymMat m(1, 2); m.Value(0, 0) = raw(p0); m.Value(0, 1) = raw(p1); CASE("matrix of expressions " + show(p0) + ", " + show(p1)); m.ToString(); m.GetAllVarNames(); SymMat m2 = m.Clone(); m2.Subs(t); m2.ToSymVecOneByOne(); m - m2; m == m2; { std::stringstream ss; ss << m; }
            clsOf([&] { m * m2; }); clsOf([&] { m.ToMat(); }); clsOf([&] { Jacobian(m, {"x", "y"}); }); clsOf([&] { m.ToSymVec(); }); CHECK(same(read(m.Value(0, 0)), p0) && same(read(m.Value(0, 1)), p1), "an operation that throws changed its const operand");
        }
    }
}
