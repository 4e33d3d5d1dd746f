#include "common.h"
#include "parse_oracle.h"
static void one(const str &s, int known = -1) {
    CASE("Parse " + quote(s)); Node r; str w; int c = parseExact(s, r, &w);
    CHECK(c == 0 || c == 2, "neither an expression nor a parse error: " + w);
    if (c == 0) CHECK(wf(r) == "", "incomplete expression: " + wf(r));
    if (known >= 0) { CHECK(c == (known ? 0 : 2), known ? "rejected well-formed input: " + w : str("accepted malformed input")); return; }
    ParseOracle o(s); SP e = o.result(); if (o.weird) return;
    if (e) CHECK(c == 0, "rejected well-formed input: " + w); else CHECK(c == 2, "accepted malformed input as " + show(read(r)));
}
void run(Rng &R, bool thorough) {
    Gen g(R);
    // all short token strings
    static const char *A[] = {"x", "1", "(", ")", "-", "*", "sin", "^", " ", "%"};
    one(""); one("aymgxpjlcugqs+1", 1); one("ildisevoxoreb(1", 0);
    // every character behind, inside and in front of a word
    for (int a = 1; a < 256; ++a) { str c(1, (char)a); for (const char *w : {"1", "2.5", "1e5", ".5", "12345678901234567890", "1.5e-3", "x", "ab_1", "sin"}) { str t = w; one(t + c); one(c + t); one("x*(" + t + c + ")+1"); if (t.size() > 1) one(t.substr(0, t.size() / 2) + c + t.substr(t.size() / 2)); } for (int b = 1; b < 256; b += thorough ? 1 : 7) one(c + str(1, (char)b)); }
    int maxn = thorough ? 6 : 5; std::function<void(str, int)> rec = [&](str s, int n) { if (timeUp()) return; if (!s.empty()) one(s); if (n) for (auto a : A) rec(s + a, n - 1); };
    rec("", thorough ? maxn : 4);
    for (int i = 0; !timeUp() && i < 400000; ++i) { switch (R(4)) { case 0: one(randText(R, false)); break; case 1: one(randText(R, true)); break; case 2: one(mutate(R, gramText(R, g, R(5)))); break; default: one(gramText(R, g, R(5))); } }
    // long inputs
    str lp(3000, '('), rp(3000, ')'); one(lp + "x" + rp, 1); one(lp, 0); one(rp, 0); one(lp + "x" + rp + ")", 0); one("(" + lp + "x" + rp, 0); one(str(3000, '-') + "1", 1); { str s = "1"; for (int i = 0; i < 2000; ++i) s += "+1"; one(s); s = "1"; for (int i = 0; i < 200; ++i) s += " 1"; one(s); }
}
