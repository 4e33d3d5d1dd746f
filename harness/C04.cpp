#include "common.h"
static SP cp(const SP &t) { return t ? SP(new S{t->k, t->op, t->v, t->n, cp(t->l), cp(t->r)}) : nullptr; }
static void all(const SP &t, std::vector<S *> &o) { if (!t) return; o.push_back(t.get()); all(t->l, o); all(t->r, o); }
static str mutate(Gen &g, SP &t) {
    std::vector<S *> v; all(t, v); S *s = v[g.R((int)v.size())];
    if (s->k == 0) { double n = g.R(2) ? std::nextafter(s->v, 1e308) : s->v + 1; s->v = n; return "value"; }
    if (s->k == 2) { if (g.R(3) == 0) { size_t i = g.R(2) ? s->n.size() - 1 : g.R((int)s->n.size()); s->n[i] = s->n[i] == 'k' ? 'K' : 'k'; return "name"; } if (g.R(2)) s->n += "q"; else s->n[s->n.size() - 1] ^= 1, s->n += "r"; return "name"; }
    switch (g.R(4)) {
    case 0: { MO o; do o = s->r ? BI[g.R(8)] : UN[g.R(13)]; while (o == s->op); s->op = o; return "operator"; }
    case 1: if (s->r) { if (same(s->l, s->r)) { s->r = sOp(MO::MATH_NEGATIVE, s->r); return "operand"; } std::swap(s->l, s->r); return "operand order"; } s->l = sOp(MO::MATH_NEGATIVE, s->l); return "operand";
    case 2: s->l = s->l->k == 1 ? sNum(3) : sOp(MO::MATH_SIN, s->l); return "shape";
    default: if (s->r) { s->r = nullptr; s->op = MO::MATH_SIN; return "arity"; } s->r = sNum(1); s->op = MO::MATH_ADD; return "arity";
    }
}
void run(Rng &R, bool) {
    Gen g(R);
    for (int i = 0; !timeUp() && i < 30000; ++i) {
        SP t = R(80) ? g.tree(R(6)) : g.big(); CASE("clone/equal/move of " + show(t));
        Node n = raw(t);
        { Node c = Clone(n); CHECK(same(read(c), t) && wf(c) == "", "Clone gives " + show(read(c)) + " " + wf(c)); CHECK(same(read(n), t) && wf(n) == "", "Clone changed the source"); CHECK(disjoint(c, n), "Clone shares nodes"); CHECK(c->Equal(n) && n->Equal(c), "Equal(clone) is false"); }
        { Node c = internal::CloneRecursively(n); CHECK(same(read(c), t) && wf(c) == "" && disjoint(c, n), "CloneRecursively"); }
        { Node c = internal::CloneNonRecursively(n); CHECK(same(read(c), t) && wf(c) == "" && disjoint(c, n), "CloneNonRecursively"); }
        { Node c(new NodeImpl(*n)); CHECK(same(read(c), t) && wf(c) == "" && disjoint(c, n) && same(read(n), t), "copy constructor"); }
        { Node c = raw(g.tree(2)); *c = *n; CHECK(same(read(c), t) && disjoint(c, n) && same(read(n), t), "copy assignment"); str e = wf(c); CHECK(e == "", "copy assignment: " + e); }
        { Node m = raw(t); Node c(new NodeImpl(std::move(*m))); CHECK(same(read(c), t) && wf(c) == "", "move constructor"); CHECK(!m->left && !m->right, "moved-from node keeps operands"); }
        { Node m = raw(t), c = raw(g.tree(2)); *c = std::move(*m); CHECK(same(read(c), t) && wf(c) == "", "move assignment"); CHECK(!m->left && !m->right, "moved-from node keeps operands"); }
        CHECK(n->Equal(n), "n.Equal(n)");
        SP t2 = cp(t); str what = mutate(g, t2);
        CASE("Equal of " + show(t) + " and " + show(t2));
        Node n2 = raw(t2); bool e = same(t, t2);
        CHECK(n->Equal(n2) == e && n2->Equal(n) == e, "Equal does not see a different " + what);
        SP t3 = g.tree(R(3)), t4 = g.tree(R(3)); CASE("Equal of " + show(t3) + " and " + show(t4));
        CHECK(raw(t3)->Equal(raw(t4)) == same(t3, t4), "Equal");
        CHECK(same(read(n), t), "Equal changed its operand");
    }
}
