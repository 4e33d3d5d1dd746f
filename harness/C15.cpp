#include "common.h"
#include "matgen.h"
// exact rank over the rationals for small integers (long long fraction-free elimination in __int128)
typedef __int128 I;
static int rankOf(M A) {
    if (A.empty()) return 0; int r = A.size(), c = A[0].size(), k = 0; std::vector<std::vector<I>> a(r, std::vector<I>(c)); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) a[i][j] = (I)(long long)A[i][j];
    I prev = 1; for (int j = 0; j < c && k < r; ++j) { int p = -1; for (int i = k; i < r; ++i) if (a[i][j] != 0) { p = i; break; } if (p < 0) continue; std::swap(a[p], a[k]); for (int i = k + 1; i < r; ++i) for (int q = c - 1; q >= j; --q) a[i][q] = (a[k][j] * a[i][q] - a[i][j] * a[k][q]) / prev; prev = a[k][j]; ++k; }
    return k;
}
void run(Rng &R, bool) {
    for (int it = 0; !timeUp() && it < 200000; ++it) {
        int sz = R(30) ? 5 : 9, r = 1 + R(sz), c = R(3) ? r : 1 + R(sz + 1), mode = R(3); M A = gen(R, r, c, mode == 1 ? 0 : mode), b = gen(R, r, 1, 0);
        if (R(3) == 0 && r > 1) { int i = R(r), j = R(r), f = R(5) - 2; if (i != j) for (int k = 0; k < c; ++k) A[i][k] = f * A[j][k]; if (R(2) && i != j) b[i][0] = f * b[j][0]; }
        if (R(6) == 0) for (auto &q : A) q[R(c)] = 0;
        if (R(4) == 0) { M x = gen(R, c, 1, 0); b = prod(A, x); }
        bool allow = R(2); Config::Get().allowIndeterminateEquation = allow;
        CASE("SolveLinear A=" + show(A) + " b=" + show(b) + (allow ? " allowIndeterminateEquation" : "")); Mat a = mk(A); Vec v = mkv(b), x(1); str w; ErrorType et{}; 
        int k = clsOf([&] { try { x = SolveLinear(a, v); } catch (const MathError &e) { et = e.GetErrorType(); throw; } }, &w);
        CHECK(same(rd(a), A) && same(rd(v), b), "arguments changed");
        M Ab = A; for (int i = 0; i < r; ++i) Ab[i].push_back(b[i][0]); int ra = rankOf(A), rb = rankOf(Ab);
        auto err = [&](ErrorType t, const char *n) { CHECK(k == 1 && et == t, str("expected ") + n + ", got " + (k == 0 ? "the vector " + show(rd(x)) : w)); };
        auto sol = [&] { CHECK(k == 0, "threw for a solvable system: " + w); M X = rd(x); CHECK((int)X.size() == c && X[0].size() == 1, "shape of the solution"); M P = prod(A, X); for (int i = 0; i < r; ++i) CHECK(std::fabs(P[i][0] - b[i][0]) < 1e-6, "A*x is " + show(P) + " for x=" + show(X)); };
        if (r > c) err(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS, "the over-determined error");
        else if (ra != rb) err(ErrorType::ERROR_SINGULAR_MATRIX, "the singular-matrix error");
        else if (r < c) { if (allow) sol(); else err(ErrorType::ERROR_INDETERMINATE_EQUATION, "the indeterminate error"); }
        else if (ra < c) err(ErrorType::ERROR_INFINITY_SOLUTIONS, "the infinitely-many-solutions error");
        else sol();
    }
}
