#include "common.h"
void run(Rng &R, bool) {
    Gen g(R);
    for (int i = 0; !timeUp() && i < 20000; ++i) {
        std::vector<Node> p; str log;
        for (int k = 0; k < 3; ++k) { SP t = R(60) ? g.tree(R(3)) : g.big(140); p.push_back(raw(t)); log += "n" + std::to_string(k) + "=" + show(t) + "; "; }
        auto ok = [&](const str &w) { for (size_t k = 0; k < p.size(); ++k) { str e = wf(p[k]); CHECK(e == "", w + ": n" + std::to_string(k) + ": " + e); } };
        for (int s = 0; s < 6; ++s) {
            int a = R(3), b = R(3), o = R(18); str A = "n" + std::to_string(a), B = "n" + std::to_string(b);
            if (size(read(p[a])) + size(read(p[b])) > 400) break;
            str w;
            switch (o) {
            case 0: w = A + "+=" + B; break; case 1: w = A + "=" + A + "*" + B; break; case 2: w = A + "=" + B + "-move(" + A + ")"; break; case 3: w = A + "=sin(move(" + A + "))"; break;
            case 4: w = "Simplify(" + A + ")"; break; case 5: w = A + "=Diff(move(" + A + "),x)"; break; case 6: w = A + "=Subs(move(" + A + "),x," + B + ")"; break; case 7: w = A + "->Calc()"; break;
            case 8: w = A + "=Clone(" + B + ")"; break; case 9: w = "*" + A + "=*" + B; break; case 10: w = A + "=Parse(print(" + B + "))"; break; case 11: w = A + "=Diff(" + B + ",y)"; break; case 13: w = "*" + A + "=move(*Clone(" + B + "))"; break; case 14: w = A + "=NodeImpl(move(*" + A + "))"; break; case 15: w = A + "=NodeImpl(*" + B + ")"; break; case 16: w = "SymVec{" + A + "," + B + "}"; break; case 17: w = "swap(*" + A + ",*" + B + ")"; break; default: w = A + "=Subs(" + B + ",{y:2})"; }
            log += w + "; "; CASE(log);
            try {
                switch (o) {
                case 0: p[a] += p[b]; break; case 1: p[a] = p[a] * p[b]; break;
                case 2: if (a != b) p[a] = p[b] - std::move(p[a]); break;
                case 3: p[a] = tomsolver::sin(std::move(p[a])); break;
                case 4: Simplify(p[a]); break;
                case 5: { SP t = read(p[a]); Node c = Clone(p[a]); p[a] = Diff(std::move(c), "x"); break; }
                case 6: p[a] = Subs(Clone(p[a]), "x", p[b]); break;
                case 7: p[a]->Calc(); break;
                case 8: p[a] = Clone(p[b]); break;
                case 9: if (a != b) *p[a] = *p[b]; break;
                case 10: { SP t = read(p[b]); bool big = false; std::function<void(SP)> f = [&](SP x) { if (!x) return; if (x->k == 0 && (!std::isfinite(x->v) || (x->v != 0 && (std::fabs(x->v) > 1e15 || std::fabs(x->v) < 1e-15)))) big = true; f(x->l); f(x->r); }; f(t); if (!big) p[a] = Parse(p[b]->ToString()); break; }
                case 11: p[a] = Diff(p[b], "y"); break;
                case 13: { Node c = Clone(p[b]); *p[a] = std::move(*c); str e = wf(c); CHECK(!c->left && !c->right, w + ": the source keeps operands"); break; }
                case 14: { Node c(new NodeImpl(std::move(*p[a]))); p[a] = std::move(c); break; }
                case 15: p[a] = Node(new NodeImpl(*p[b])); break;
                case 16: { SymVec v{Clone(p[a]), Clone(p[b])}; SymMat J = v * SymMat{{Clone(p[b]), Num(2)}}; SymVec u = v - v; J.Subs(std::map<str, double>{{"y", 2}}); SymMat K = J.Clone(); K.Subs(VarsTable{{"x", 1.5}});
                    for (SymMat *m : {(SymMat *)&v, &J, (SymMat *)&u, &K}) for (int i = 0; i < m->Rows(); ++i) for (int j = 0; j < m->Cols(); ++j) { str e = wf(m->Value(i, j)); CHECK(e == "", w + ": " + e); } break; }
                case 17: if (a != b) std::swap(*p[a], *p[b]); break;
                default: p[a] = Subs(p[b], std::map<str, double>{{"y", 2}}); }
            } catch (const std::runtime_error &) {}
            ok(w); p[a]->CheckParent();
        }
    }
}
