#include "common.h"
#include "quad.h"
typedef std::vector<std::vector<SP>> SM;
static SymMat mks(const SM &a) { SymMat m((int)a.size(), (int)a[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) (*m.data)[i * a[0].size() + j] = raw(a[i][j]); return m; }
static SM rds(const SymMat &m) { SM r(m.rows, std::vector<SP>(m.cols)); CHECK((long)m.data->size() == (long)m.rows * m.cols, "storage does not match the shape"); for (int i = 0; i < m.rows; ++i) for (int j = 0; j < m.cols; ++j) { const Node &n = (*m.data)[i * m.cols + j]; CHECK(wf(n) == "", wf(n)); r[i][j] = read(n); } return r; }
static bool same(const SM &a, const SM &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) if (!same(a[i][j], b[i][j])) return false; } return true; }
static str show(const SM &a) { str s = "["; for (auto &r : a) { s += "["; for (auto &x : r) s += show(x) + ", "; s += "]"; } return s + "]"; }
static bool disj(const SymMat &a, const SymMat &b) { for (auto &x : *a.data) for (auto &y : *b.data) if (!disjoint(x, y)) return false; return true; }
static SP sub(const SP &t, const Envd &d) { if (!t) return nullptr; if (t->k == 2) { auto i = d.find(t->n); return i == d.end() ? t : sNum(i->second); } if (t->k == 0) return t; return sOp(t->op, sub(t->l, d), sub(t->r, d)); }
#define SAME(got, exp, w) do { SM g_ = rds(got), e_ = (exp); CHECK(same(g_, e_), str(w) + " gives " + show(g_) + ", expected " + show(e_)); } while (0)
void run(Rng &R, bool) {
    Gen g(R); g.names = {"x", "y", "z"};
    auto gen = [&](int r, int c, int d) { SM m(r, std::vector<SP>(c)); for (auto &q : m) for (auto &x : q) x = g.tree(R(d + 1)); return m; };
    for (int it = 0; !timeUp() && it < 30000; ++it) {
        int sz = R(40) ? 4 : 11, r = 1 + R(sz), c = 1 + R(sz), k = 1 + R(sz - 1); SM A = gen(r, c, 3), B = gen(r, c, 2), C = gen(c, k, 2); SymMat a = mks(A), b = mks(B), m = mks(C); CASE("a=" + show(A) + " b=" + show(B) + " c=" + show(C));
        auto keep = [&](const char *w) { CHECK(same(rds(a), A) && same(rds(b), B) && same(rds(m), C), str(w) + " changed an operand"); };
        CHECK(a.Rows() == r && a.Cols() == c, "shape"); CHECK(!a.Empty(), "Empty"); { SymMat x = a.Clone(); SAME(x, A, "Clone"); CHECK(disj(x, a), "Clone shares nodes"); } keep("Clone");
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { const SymMat &ca = a; CHECK(&a.Value(i, j) == &(*a.data)[i * c + j] && &ca.Value(i, j) == &(*a.data)[i * c + j], "Value"); }
        { SM E = A; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) E[i][j] = sOp(MO::MATH_SUB, A[i][j], B[i][j]); SymMat x = a - b; SAME(x, E, "a-b"); CHECK(disj(x, a) && disj(x, b), "a-b shares nodes"); keep("a-b"); }
        { SM E(r, std::vector<SP>(k)); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) for (int q = 0; q < c; ++q) { SP p = sOp(MO::MATH_MULTIPLY, A[i][q], C[q][j]); E[i][j] = q ? sOp(MO::MATH_ADD, E[i][j], p) : p; } SymMat x = a * m; SAME(x, E, "a*c"); CHECK(disj(x, a) && disj(x, m), "a*c shares nodes"); keep("a*c"); }
        if (c != r) { str e; bool ok = false; try { a * b; } catch (const MathError &x) { ok = x.GetErrorType() == ErrorType::SIZE_NOT_MATCH; } CHECK(ok, "product of incompatible shapes"); }
        { CHECK(a == a, "a==a"); SymMat x = a.Clone(); CHECK(a == x, "a==clone"); SM D = A; int i = R(r), j = R(c); D[i][j] = sOp(MO::MATH_EXP, A[i][j]); SymMat y = mks(D); CHECK(!(a == y) && !(y == a), "a==b for different matrices"); CHECK((a == b) == same(A, B), "a==b"); if (r != c || true) CHECK((a == m) == same(A, C), "a==c"); SM L(1, std::vector<SP>()); for (auto &q : A) for (auto &z : q) L[0].push_back(z); SymMat fl = mks(L); CHECK((a == fl) == same(A, L), "comparison ignores the shape"); }
        { std::set<str> e; for (auto &q : A) for (auto &x : q) vars(x, e); CHECK(a.GetAllVarNames() == e, "GetAllVarNames"); keep("GetAllVarNames"); }
        { SymVec v = a.ToSymVecOneByOne(); SM E; for (auto &q : A) for (auto &x : q) E.push_back({x}); SAME(v, E, "ToSymVecOneByOne"); CHECK(disj(v, a), "shares nodes"); str w; if (c == 1) { SymVec u = a.ToSymVec(); SAME(u, A, "ToSymVec"); for (int i = 0; i < r; ++i) CHECK(same(read(u[i]), A[i][0]), "element"); SymVec s = u - u; SM E2; for (auto &q : A) E2.push_back({sOp(MO::MATH_SUB, q[0], q[0])}); SAME(s, E2, "v-v"); } else CHECK(clsOf([&] { a.ToSymVec(); }, &w) == 3, "ToSymVec with several columns"); keep("ToSymVec"); }
        Envd e; for (auto &n : g.names) if (R(4)) e[n] = g.num(); SM E = A; bool bad = false, allnum = true; for (auto &q : E) for (auto &x : q) { x = sub(x, e); Val v = eval(x, {}); if (v.bad || v.var) bad = true; if (x->k) allnum = false; }
        { SymMat x = a.Clone(); SymMat &y = x.Subs(std::map<str, double>(e)); CHECK(&x == &y, "Subs result"); SAME(x, E, "Subs"); if (!e.empty()) { SymMat z = a.Clone(); z.Subs(VarsTable(std::map<str, double>(e))); SAME(z, E, "Subs(VarsTable)"); }
          str w; SymMat q = x.Clone(); int cc = clsOf([&] { q.Calc(); }, &w); CHECK((cc != 0) == bad, "Calc " + w); if (!bad) { SM F = E; for (auto &p : F) for (auto &t : p) t = sNum(eval(t, {}).v); SAME(q, F, "Calc"); Mat num = q.ToMat(); CHECK(num.Rows() == r && num.Cols() == c, "ToMat shape"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) CHECK(same(num.Value(i, j), F[i][j]->v), "ToMat"); SymMat back(num); SAME(back, F, "SymMat(Mat)"); }
          if (!allnum) CHECK(clsOf([&] { x.ToMat(); }, &w) == 3, "ToMat of a matrix that is not numeric"); keep("Subs"); }
        // Jacobian
        { SM EQ(r, std::vector<SP>(1)); g.bitops = false; g.moderate = true; bool many = R(4) == 0; std::vector<str> vs{"z", "x", "w", "y"}; if (many) { for (auto *q : {"a", "b_2", "c", "x10", "a_long_name_of_a_variable"}) vs.push_back(q); g.names = vs; } for (auto &q : EQ) q[0] = g.tree(R(many ? 6 : 4)); g.names = {"x", "y", "z"}; g.bitops = true; g.moderate = false; SymMat q = mks(EQ); std::vector<str> all = vs; vs.resize(1 + R((int)vs.size())); for (size_t i = vs.size(); i > 1; --i) std::swap(vs[i - 1], vs[R((int)i)]); str d; for (auto &v : vs) d += v + ","; CASE("Jacobian " + show(EQ) + " by " + d); SymMat J = Jacobian(q, vs); CHECK(J.Rows() == r && J.Cols() == (int)vs.size(), "shape of the Jacobian"); CHECK(same(rds(q), EQ), "Jacobian changed the equations");
          for (int i = 0; i < r; ++i) for (size_t j = 0; j < vs.size(); ++j) { Node n = raw(EQ[i][0]); Node dd = Diff(n, vs[j]); CHECK(same(read(J.Value(i, j)), read(dd)), "element (" + std::to_string(i) + "," + vs[j] + ") is " + show(read(J.Value(i, j))) + " instead of " + show(read(dd)));
              EnvQ pt; for (auto &v : all) pt[v] = R.u() + 0.5; D o = dualq(EQ[i][0], vs[j], pt); if (!o.ok) continue; SP jd = read(J.Value(i, j)); unsigned s1 = 3; Q v = evalq(jd, pt), v2 = evalq(jd, pt, 1e-13Q, &s1); if (!fin(v) || qabs(v - v2) > 1e-9Q * (1e-3Q + qabs(o.d))) continue; CHECK(qabs(v - o.d) <= 1e-7Q * (1e-6Q + qabs(o.d)), "element is not the derivative"); } }
    }
}
