#include "common.h"
void run(Rng &R, bool) {
    Gen g(R);
    for (int i = 0; !timeUp() && i < 40000; ++i) {
        g.pvar = R(3) ? 0.5 : 0.05; g.names = R(2) ? std::vector<str>{"x", "y", "z", "_a1", "abc"} : std::vector<str>{"a", "A", "a1", "a10", "_", "__", "x_y", "b"};
        if (R(30) == 0) { g.names.clear(); int m = 10 + R(200); for (int j = 0; j < m; ++j) g.names.push_back((j & 1 ? "v" : "aVery_long_prefix_for_variable_") + std::to_string(j)); }
        SP t = g.names.size() > 9 ? g.big() : g.any(); CASE("variables of " + show(t)); Node n = raw(t); std::set<str> e; vars(t, e);
        CHECK(n->GetAllVarNames() == e, "names differ"); CHECK(same(read(n), t), "changed");
        int r = 1 + R(R(20) ? 3 : 12), c = 1 + R(R(20) ? 3 : 12); SymMat m(r, c); std::set<str> em;
        str d; for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) { SP q = g.tree(R(3)); d += show(q) + ", "; vars(q, em); m.Value(a, b) = raw(q); }
        CASE("variables of matrix " + d); CHECK(m.GetAllVarNames() == em, "matrix names differ");
    }
}
