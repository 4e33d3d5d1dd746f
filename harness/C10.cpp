#include "common.h"
#include "parse_oracle.h"
static void one(const str &s) {
    CASE("Parse " + quote(s)); ParseOracle o(s); SP e = o.result(); if (!e || o.weird) return;
    Node r; str w; int c = parseExact(s, r, &w); CHECK(c == 0, "rejected well-formed input: " + w);
    CHECK(same(read(r), e), "parsed as " + show(read(r)) + ", expected " + show(e));
}
void run(Rng &R, bool) {
    for (auto n : {"aymgxpjlcugqs", "ildisevoxoreb"}) { one(n); one(str(n) + "+1"); one(str("2*") + n); }     // names that have the hash value of a function name
    Gen g(R); static const char *B[] = {"+", "-", "*", "/", "^", "&", "|", "%"}, *P[] = {"", "-", "+", "sin ", "exp", "--", "-cos ", "sqrt -"};
    for (auto a : B) for (auto p : P) for (auto q : P) { one(str(p) + (*p ? " a" : "a") + a + q + " b"); for (auto b : B) { one(str(p) + " a" + a + q + " b" + b + " c"); one("(" + str(p) + " a" + a + "b)" + b + q + " c"); one("a" + str(a) + "(" + p + " b" + b + q + " c)"); } }
    for (auto a : B) for (auto b : B) for (auto c : B) { one(str("a") + a + "b" + b + "c" + c + "d"); one(str("a") + a + "(b" + b + "c)" + c + "d"); }
    for (auto f : {"sin", "cos", "tan", "asin", "arcsin", "acos", "arccos", "atan", "arctan", "sqrt", "log", "log2", "log10", "exp"}) { one(str(f) + "(x)"); one(str(f) + " x"); one(str(f) + "(x)^2"); one(str(f) + " x^2"); one(str(f) + "(x+1)*y"); one("-" + str(f) + "(x)"); one("a^" + str(f) + "(x)"); }
    // long inputs: flat chains, nested parentheses, prefix operators
    for (int n : {9, 17, 33, 65, 129, 257, 600}) for (int v = 0; v < 6; ++v) {
        str s; static const char *O[] = {"+", "-", "*", "/", "^", "&", "|", "%"};
        if (v < 3) { for (int i = 0; i < n; ++i) { if (i) s += v == 0 ? O[R(4)] : v == 1 ? O[R(8)] : "^"; s += R(2) ? g.names[R((int)g.names.size())] : std::to_string(R(100)); } }
        else if (v == 3) { for (int i = 0; i < n; ++i) { s += "("; if (R(2)) s += "a"; if (s.back() == 'a') s += O[R(8)]; } s += "b"; for (int i = 0; i < n; ++i) { s += ")"; if (R(2)) s += str(O[R(8)]) + "c"; } }
        else if (v == 4) { static const char *P[] = {"-", "+", "sin ", "exp ", "sqrt(", "-("}; int open = 0; for (int i = 0; i < n; ++i) { str p = P[R(6)]; s += p; open += p.back() == '('; } s += "x"; while (open--) s += ")"; }
        else { s = str(n, 'v') + "+" + str(n % 250 + 1, '7') + "*w" + str(n, '_'); }
        one(s);
    }
    for (int i = 0; !timeUp() && i < 400000; ++i) one(gramText(R, g, R(300) ? 1 + R(5) : 9));
}
