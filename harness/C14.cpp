#include <algorithm>
#include "common.h"
#include "matgen.h"
typedef long double LD;
static LD leib(const M &A, int n) {     // exact for small integers: sum over permutations
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; LD s = 0;
    do { LD t = 1; for (int i = 0; i < n; ++i) t *= A[i][p[i]]; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (p[i] > p[j]) t = -t; s += t; } while (std::next_permutation(p.begin(), p.end()));
    return s;
}
#include <algorithm>
void run(Rng &R, bool th) {
    for (int it = 0; !timeUp() && it < 40000; ++it) {
        int n = 1 + R(it % 50 == 0 ? 7 : 5), extra = R(3), mode = R(3); M A = gen(R, n + extra, n + extra, mode == 1 ? 0 : mode); if (R(4) == 0 && n > 1) A[R(n)] = A[R(n)];
        Mat a = mk(A); CASE("Det " + show(A) + " n=" + std::to_string(n)); double d = Det(a, n); LD e = leib(A, n); CHECK(std::fabs(d - (double)e) <= 1e-9 * (1 + std::fabs((double)e)), "determinant " + fmtd(d) + ", expected " + fmtd((double)e)); CHECK(same(rd(a), A), "Det changed its argument");
        M S(A.begin(), A.begin() + n); for (auto &r : S) r.resize(n); Mat s = mk(S); CASE("Inverse " + show(S));
        if (R(2)) { Mat adj(n, n); Adjoint(s, adj); M P = prod(S, rd(adj)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(std::fabs(P[i][j] - (i == j ? (double)e : 0)) < 1e-6 * (1 + std::fabs((double)e)), "adjugate"); }
        if (it % 16 == 0) {      // determinants at, just below and just above the tolerance
            int m = 1 + R(4), q = R(m), v = R(3); double f = Config::Get().epsilon; if (v == 0) f /= 2; if (v == 2) f *= 2; if (R(2)) f = -f;
            M D(m, std::vector<double>(m)); for (int i = 0; i < m; ++i) D[i][i] = i == q ? f : 1; Mat x = mk(D); CASE("Inverse " + show(D)); bool sg = false; Mat y(m, m);
            int cc = clsOf([&] { try { y = x.Inverse(); } catch (const MathError &z) { sg = z.GetErrorType() == ErrorType::ERROR_SINGULAR_MATRIX; throw; } });
            if (v < 2) CHECK(cc == 1 && sg, "no singular-matrix error for a determinant within the tolerance");
            else { CHECK(cc == 0, "Inverse threw for a determinant above the tolerance"); M P = prod(D, rd(y)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) CHECK(std::fabs(P[i][j] - (i == j)) < 1e-9, "product with the inverse is " + show(P)); }
        }
        if (std::fabs((double)e) > 1e-4 && std::fabs((double)e) < Config::Get().epsilon * 2) continue;
        Mat inv(n, n); str w; bool sing = false; int c = clsOf([&] { try { inv = s.Inverse(); } catch (const MathError &x) { sing = x.GetErrorType() == ErrorType::ERROR_SINGULAR_MATRIX; throw; } }, &w);
        CHECK(same(rd(s), S), "Inverse changed its argument");
        if (e == 0) CHECK(c == 1 && sing, "no singular-matrix error for a singular matrix");
        else { CHECK(c == 0, "Inverse threw: " + w); M P = prod(S, rd(inv)), Q = prod(rd(inv), S); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(std::fabs(P[i][j] - (i == j)) < 1e-6 && std::fabs(Q[i][j] - (i == j)) < 1e-6, "product with the inverse is " + show(P)); }
    }
}
