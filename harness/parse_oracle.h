#pragma once
// independent recursive-descent parser: the specification of Parse
struct Tok { int k; str s; double v; MO op; };  // k: 0 number 1 name 2 function 3 symbol
struct ParseOracle {
    std::vector<Tok> T; bool weird = false, bad = false; size_t p = 0;
    static MO fn(const str &s) {
        static const std::map<str, MO> F{{"sin", MO::MATH_SIN}, {"cos", MO::MATH_COS}, {"tan", MO::MATH_TAN}, {"asin", MO::MATH_ARCSIN}, {"arcsin", MO::MATH_ARCSIN}, {"acos", MO::MATH_ARCCOS}, {"arccos", MO::MATH_ARCCOS}, {"atan", MO::MATH_ARCTAN}, {"arctan", MO::MATH_ARCTAN}, {"sqrt", MO::MATH_SQRT}, {"log", MO::MATH_LOG}, {"log2", MO::MATH_LOG2}, {"log10", MO::MATH_LOG10}, {"exp", MO::MATH_EXP}};
        auto i = F.find(s); return i == F.end() ? MO::MATH_NULL : i->second;
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static bool number(const str &s) {
        size_t i = 0, d = 0; while (i < s.size() && dig(s[i])) ++i, ++d;
        if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dig(s[i])) ++i, ++d; }
        if (!d) return false;
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; size_t e = 0; while (i < s.size() && dig(s[i])) ++i, ++e; if (!e) return false; }
        return i == s.size();
    }
    void tok(const str &s) {
        if (s.empty()) return;
        if (number(s)) { double v = strtod(s.c_str(), 0); if (!std::isfinite(v) || (v == 0 ? s.find_first_of("123456789") < s.find_first_of("eE") : std::fabs(v) < 2.3e-308)) weird = true; T.push_back({0, s, v, MO::MATH_NULL}); return; }
        str low; for (char c : s) low += (char)tolower((unsigned char)c);
        if (low.substr(0, 3) == "inf" || low.substr(0, 3) == "nan" || low.substr(0, 2) == "0x" || s.find('\0') != str::npos) weird = true;   // spellings left to strtod
        MO f = fn(s); if (f != MO::MATH_NULL) { T.push_back({2, s, 0, f}); return; }
        if (!(isalpha((unsigned char)s[0]) && (unsigned char)s[0] < 128) && s[0] != '_') bad = true;
        for (char c : s) if (!((unsigned char)c < 128 && (isalnum((unsigned char)c) || c == '_'))) bad = true;
        T.push_back({1, s, 0, MO::MATH_NULL});
    }
    ParseOracle(const str &in) {
        if (in.empty()) { bad = true; return; }
        str cur;
        for (size_t i = 0; i < in.size(); ++i) {
            char c = in[i];
            if ((c == '+' || c == '-') && i + 1 < in.size() && dig(in[i + 1]) && cur.size() >= 2 && (cur.back() == 'e' || cur.back() == 'E')) {
                bool ok = true, d = false; for (size_t j = 0; j + 1 < cur.size(); ++j) { if (dig(cur[j])) d = true; else if (cur[j] != '.') ok = false; }
                if (ok && d) { cur += c; continue; }
            }
            if (strchr("()+-*/^&|%", c) && c) { tok(cur); cur.clear(); T.push_back({3, str(1, c), 0, MO::MATH_NULL}); }
            else if (c == ' ' || (c >= 9 && c <= 13)) { tok(cur); cur.clear(); }
            else cur += c;
        }
        tok(cur);
    }
    bool sym(char c) { return p < T.size() && T[p].k == 3 && T[p].s[0] == c; }
    SP operand() {
        if (p >= T.size()) return nullptr;
        if (T[p].k == 2) { MO f = T[p++].op; SP a = operand(); return a ? sOp(f, a) : nullptr; }
        if (sym('+') || sym('-')) { MO f = sym('+') ? MO::MATH_POSITIVE : MO::MATH_NEGATIVE; ++p; SP a = operand(); return a ? sOp(f, a) : nullptr; }
        if (sym('(')) { ++p; SP a = expr(0); if (!a || !sym(')')) return nullptr; ++p; return a; }
        if (T[p].k == 0) return sNum(T[p++].v);
        if (T[p].k == 1) return sVar(T[p++].s);
        return nullptr;
    }
    // levels: 0 +-, 1 */, 2 ^ (right), 3 &|, 4 %
    MO opAt(int lv) {
        static const char *L[] = {"+-", "*/", "^", "&|", "%"}; static const MO O[][2] = {{MO::MATH_ADD, MO::MATH_SUB}, {MO::MATH_MULTIPLY, MO::MATH_DIVIDE}, {MO::MATH_POWER, MO::MATH_POWER}, {MO::MATH_AND, MO::MATH_OR}, {MO::MATH_MOD, MO::MATH_MOD}};
        for (int i = 0; L[lv][i]; ++i) if (sym(L[lv][i])) return O[lv][i];
        return MO::MATH_NULL;
    }
    SP expr(int lv) {
        if (lv == 5) return operand();
        SP a = expr(lv + 1); if (!a) return nullptr;
        if (lv == 2) { if (opAt(2) == MO::MATH_NULL) return a; ++p; SP b = expr(2); return b ? sOp(MO::MATH_POWER, a, b) : nullptr; }
        for (MO o; (o = opAt(lv)) != MO::MATH_NULL;) { ++p; SP b = expr(lv + 1); if (!b) return nullptr; a = sOp(o, a, b); }
        return a;
    }
    SP result() { if (bad || T.empty()) return nullptr; SP r = expr(0); return p == T.size() ? r : nullptr; }
};
static inline str quote(const str &s) { str o; char b[8]; for (unsigned char c : s) if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; return "\"" + o + "\""; }
static inline str randText(Rng &R, bool wild) {
    static const char *A[] = {"x", "y", "1", "2.5", "3e5", "1e-3", "1.5E+2", ".5", "7.", "(", ")", "(", ")", "+", "-", "*", "/", "^", "&", "|", "%", "sin", "cos", "tan", "asin", "arcsin", "acos", "arccos", "atan", "arctan", "sqrt", "log", "log2", "log10", "exp", " ", "\t", "\n", "_a", "a1", "e", "2e", "1e+", "e-3", "x1e-3", "1..2", "1.2.3", "0x1F", "inf", "nan", "1e400", "1e-400", "sinx", "Sin", ",", "$", "\xc3\xa9", "=", "1a", "123456789012345678901234567890", "-1", "2 3", "()", "1e5", "0", "\v"};
    str s; int n = 1 + R(wild ? 30 : 12);
    for (int i = 0; i < n; ++i) { if (wild && R(6) == 0) s += (char)(1 + R(255)); else s += A[R(sizeof A / sizeof *A)]; if (R(5) == 0) s += ' '; }
    return s;
}
// grammar-directed text of a random expression, with redundant blanks and parentheses
static inline str gramText(Rng &R, Gen &g, int d) {
    auto sp = [&] { return R(4) == 0 ? str(R(2) ? " " : "\t") : str(); };
    if (d <= 0 || R(7) == 0) { if (R(2)) return g.names[R((int)g.names.size())]; static const char *N[] = {"0", "1", "2.5", "3e5", "1e-3", "1.5E+2", ".5", "7.", "10", "123456.789", "1e16", "0.1", "4E-5"}; return N[R(13)]; }
    switch (R(6)) {
    case 0: return "(" + sp() + gramText(R, g, d - 1) + sp() + ")";
    case 1: { static const char *F[] = {"sin", "cos", "tan", "asin", "arcsin", "acos", "arccos", "atan", "arctan", "sqrt", "log", "log2", "log10", "exp"}; str f = F[R(14)]; return R(3) ? f + "(" + gramText(R, g, d - 1) + ")" : f + " " + gramText(R, g, d - 1); }
    case 2: return str(R(3) ? "-" : "+") + sp() + gramText(R, g, d - 1);
    default: { static const char *O[] = {"+", "-", "*", "/", "^", "&", "|", "%"}; return gramText(R, g, d - 1) + sp() + O[R(8)] + sp() + gramText(R, g, d - 1); }
    }
}
static inline str mutate(Rng &R, str s) {
    int k = 1 + R(2);
    while (k--) { if (s.empty()) break; int i = R((int)s.size()); switch (R(4)) { case 0: s.erase(i, 1); break; case 1: s.insert(i, 1, "()+-*/^&|%1x ."[R(14)]); break; case 2: s[i] = "()+-*/^&|%1x e"[R(14)]; break; default: s = s.substr(0, i); } }
    return s;
}
// parses from an exactly sized heap buffer, so that reading outside the input is seen
static inline int parseExact(const str &s, Node &r, str *w) {
    std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); char *q = b.get(); size_t n = s.size();
    return clsOf([&] { r = Parse(tomsolver::internal::StringView(q, n)); }, w);
}
