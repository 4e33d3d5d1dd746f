#include "common.h"
static SP A, B;
static void chk(const str &w, const Node &r, const SP &e) { CHECK(same(read(r), e), w + " built " + show(read(r)) + ", expected " + show(e)); CHECK(wf(r) == "", w + ": " + wf(r)); }
static void lv(const str &w, const Node &a, const SP &e, const Node &r) { CHECK(same(read(a), e) && wf(a) == "", w + " changed its lvalue operand"); CHECK(disjoint(a, r), w + " shares nodes with its lvalue operand"); }
static void rv(const str &w, const Node &a) { CHECK(!a, w + " did not consume its rvalue operand"); }
#define BIN(sym, op) { str w = "operator" #sym; SP e = sOp(op, A, B), ea = sOp(op, A, A); \
  { Node a = raw(A), b = raw(B); Node r = a sym b; chk(w, r, e); lv(w, a, A, r); lv(w, b, B, r); } \
  { const Node a = raw(A); const Node b = raw(B); Node r = a sym b; chk(w, r, e); lv(w, a, A, r); lv(w, b, B, r); } \
  { Node a = raw(A), b = raw(B); auto pa = a.get(); Node r = std::move(a) sym b; chk(w, r, e); rv(w, a); lv(w, b, B, r); CHECK(r->left.get() == pa, w + " copied an rvalue"); } \
  { Node a = raw(A), b = raw(B); auto pb = b.get(); Node r = a sym std::move(b); chk(w, r, e); rv(w, b); lv(w, a, A, r); CHECK(r->right.get() == pb, w + " copied an rvalue"); } \
  { Node a = raw(A), b = raw(B); auto pa = a.get(), pb = b.get(); Node r = std::move(a) sym std::move(b); chk(w, r, e); rv(w, a); rv(w, b); CHECK(r->left.get() == pa && r->right.get() == pb, w + " copied an rvalue"); } \
  { Node a = raw(A); Node r = a sym a; chk(w + " (same object)", r, ea); lv(w, a, A, r); } \
  { Node a = raw(A); a = a sym a; chk(w + " (n = n op n)", a, ea); } \
  { Node a = raw(A); Node r = std::move(a) sym a; chk(w + " (move(n) op n)", r, ea); } \
  { Node a = raw(A); Node r = a sym std::move(a); chk(w + " (n op move(n))", r, ea); } \
  { Node a = raw(A), b = raw(B); Node &r = (a sym##= b); CHECK(&r == &a, w); chk(w + "=", a, e); lv(w, b, B, a); } \
  { Node a = raw(A); const Node b = raw(B); a sym##= b; chk(w + "=", a, e); lv(w, b, B, a); } \
  { Node a = raw(A), b = raw(B); a sym##= std::move(b); chk(w + "=", a, e); rv(w, b); } \
  { Node a = raw(A); a sym##= a; chk(w + "= (same object)", a, ea); } }
#define UNA(f, op) { str w = #f; SP e = sOp(op, A); \
  { Node a = raw(A); Node r = f(a); chk(w, r, e); lv(w, a, A, r); } \
  { const Node a = raw(A); Node r = f(a); chk(w, r, e); lv(w, a, A, r); } \
  { Node a = raw(A); auto pa = a.get(); Node r = f(std::move(a)); chk(w, r, e); rv(w, a); CHECK(r->left.get() == pa, w + " copied an rvalue"); } }
void run(Rng &R, bool) {
    Gen g(R);
    for (int i = 0; !timeUp() && i < 3000; ++i) {
        A = R(60) ? g.tree(R(4)) : g.big(); B = R(60) ? g.tree(R(4)) : g.big(140);
        CASE("operators on A = " + show(A) + ", B = " + show(B));
        BIN(+, MO::MATH_ADD) BIN(-, MO::MATH_SUB) BIN(*, MO::MATH_MULTIPLY) BIN(/, MO::MATH_DIVIDE) BIN(^, MO::MATH_POWER)
        UNA(+, MO::MATH_POSITIVE) UNA(-, MO::MATH_NEGATIVE)
        UNA(tomsolver::sin, MO::MATH_SIN) UNA(tomsolver::cos, MO::MATH_COS) UNA(tomsolver::tan, MO::MATH_TAN) UNA(tomsolver::asin, MO::MATH_ARCSIN) UNA(tomsolver::acos, MO::MATH_ARCCOS) UNA(tomsolver::atan, MO::MATH_ARCTAN)
        UNA(tomsolver::sqrt, MO::MATH_SQRT) UNA(tomsolver::log, MO::MATH_LOG) UNA(tomsolver::log2, MO::MATH_LOG2) UNA(tomsolver::log10, MO::MATH_LOG10) UNA(tomsolver::exp, MO::MATH_EXP)
        double v = g.num(); { Node n = Num(v); chk("Num", n, sNum(v)); }
        { Node n = Var("q_1"); chk("Var", n, sVar("q_1")); }
        { Node a = raw(A); auto p = a.get(); Node b = Move(a); CHECK(!a && b.get() == p, "Move"); chk("Move", b, A); }
        { Node a = raw(A), b = raw(B); Node r = internal::Operator(MO::MATH_MOD, std::move(a), std::move(b)); chk("Operator", r, sOp(MO::MATH_MOD, A, B)); }
        { Node a = raw(A); Node r = internal::Operator(MO::MATH_SIN, std::move(a)); chk("Operator", r, sOp(MO::MATH_SIN, A)); }
    }
    for (int k = 0; k < 21; ++k) { MO op = k < 13 ? UN[k] : BI[k - 13]; CASE(str("Op ") + opName(op)); Node n = Op(op); CHECK(n->op == op && n->type == NodeType::OPERATOR && !n->left && !n->right && !n->parent && n->value == 0 && n->varname == "", "Op builds another node"); }
}
