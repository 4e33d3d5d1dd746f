#include "common.h"
#include <pthread.h>
static const size_t STACK = 256 * 1024;
static std::function<void()> job;
static void small(const str &what, std::function<void()> f) {   // runs f with a stack far smaller than the depth of the expression
    CASE(what); job = f; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, STACK); pthread_t t;
    if (pthread_create(&t, &a, [](void *) -> void * { job(); return nullptr; }, nullptr)) FAIL("no thread"); pthread_join(t, nullptr); pthread_attr_destroy(&a); job = nullptr;
}
// deep expression built link by link: shape l (operand on the left), r (on the right), z (alternating), u (unary); small side operand x or 1
static Node chain(int depth, char shape, std::vector<MO> ops, bool numbers, const str &leaf = "x") {
    auto mkLeaf = [&](bool num) { return Node(num ? new NodeImpl(NodeType::NUMBER, MO::MATH_NULL, 1, "") : new NodeImpl(NodeType::VARIABLE, MO::MATH_NULL, 0, leaf)); };
    Node cur = mkLeaf(numbers);
    for (int i = 0; i < depth; ++i) {
        MO o = ops[i % ops.size()]; Node n(new NodeImpl(NodeType::OPERATOR, o, 0, "")); NodeImpl *p = n.get(); p->parent = nullptr;
        bool left = shape == 'l' || (shape == 'z' && (i & 1));
        if (isUn(o)) p->left = std::move(cur); else if (left) { p->left = std::move(cur); p->right = mkLeaf(numbers); } else { p->left = mkLeaf(numbers); p->right = std::move(cur); }
        if (p->left) p->left->parent = p; if (p->right) p->right->parent = p; cur = std::move(n);
    }
    return cur;
}
void run(Rng &R, bool th) {
    int N = th ? 200000 : 20000; Config::Get().throwOnInvalidValue = false;
    struct K { char s; std::vector<MO> ops; const char *n; bool diff; };
    std::vector<K> ks{{'l', {MO::MATH_ADD, MO::MATH_SUB}, "left sums", true}, {'r', {MO::MATH_SUB, MO::MATH_ADD}, "right sums", true}, {'z', {MO::MATH_MULTIPLY, MO::MATH_DIVIDE}, "alternating products", false}, {'u', {MO::MATH_NEGATIVE, MO::MATH_POSITIVE}, "signs", true}, {'u', {MO::MATH_SIN, MO::MATH_ARCTAN}, "functions", false}, {'r', {MO::MATH_POWER}, "powers", false}, {'z', {MO::MATH_ADD, MO::MATH_NEGATIVE, MO::MATH_SUB, MO::MATH_COS}, "mixed", false}, {'l', {MO::MATH_AND, MO::MATH_MOD, MO::MATH_OR}, "bit operators", false}};
    for (auto &k : ks) for (int num = 0; num < 2; ++num) {
        str d = str(k.n) + (num ? " of numbers" : " of variables") + ", depth " + std::to_string(N); Node a = chain(N, k.s, k.ops, num);
        small("Clone " + d, [&] { Node b = Clone(a); small("Equal " + d, [&] { if (!a->Equal(b)) FAIL("clone differs"); }); b.reset(); });
    }
    for (auto &k : ks) for (int num = 0; num < 2; ++num) {
        if (timeUp()) break;
        str d = str(k.n) + (num ? " of numbers" : " of variables") + ", depth " + std::to_string(N); Node a = chain(N, k.s, k.ops, num);
        small("Vpa " + d, [&] { clsOf([&] { a->Vpa(); }); }); small("GetAllVarNames " + d, [&] { if (a->GetAllVarNames().size() != (num ? 0u : 1u)) FAIL("variables"); }); small("CheckParent " + d, [&] { a->CheckParent(); });
        small("ToString " + d, [&] { str s = a->ToString(); if (s.empty()) FAIL("empty"); }); 
        small("copy " + d, [&] { NodeImpl c(*a); NodeImpl m(std::move(c)); NodeImpl q(NodeType::NUMBER, MO::MATH_NULL, 0, ""); q = *a; q = std::move(m); });
        small("Subs " + d, [&] { Node b = Subs(a, "x", Num(2)); Node c = Subs(a, std::map<str, double>{{"y", 1}}); Node e = Subs(std::move(b), "x", Var("z")); });
        small("Simplify " + d, [&] { Node b = Clone(a); Simplify(b); });
        small("Calc " + d, [&] { Node b = Subs(a, "x", Num(1)); clsOf([&] { b->Calc(); }); });
        small("operators " + d, [&] { Node b = a + a; Node c = sin(std::move(b)); c += a; c = -c; });
        if (k.diff) small("Diff " + d, [&] { Node b = Diff(a, "x"); Node c = Diff(std::move(b), "x", 2); });
        small("destroy " + d, [&] { a.reset(); });
    }
    // the same for functions, where the derivative grows quadratically: less deep, smaller stack use still bounded
    int n = 2500; for (auto &k : ks) { if (timeUp() || k.ops[0] == MO::MATH_AND) continue; Node a = chain(n, k.s, k.ops, false); small(str("Diff ") + k.n + ", depth " + std::to_string(n), [&] { Node b = Diff(a, "x"); b.reset(); }); }
}
