#include "common.h"
void run(Rng &R, bool) {
    auto one = [&](double v) { if (!std::isfinite(v)) return; CASE("ToString " + fmtd(v)); str s = ToString(v); char *e; double w = strtod(s.c_str(), &e); CHECK(!s.empty() && !*e, "printed as " + s + ", which is not a number"); CHECK(w == v, "printed as " + s + ", which reads back as " + fmtd(w)); };
    for (int e = -1074; e <= 1023; ++e) for (int k = 0; k < 40; ++k) { double v = std::ldexp(1 + (k < 2 ? k * 2.220446049250313e-16 : R.u()), e); one(v); one(-v); }
    for (int i = -40; i <= 40; ++i) { double p = std::pow(10, i); for (double q : {p, std::nextafter(p, 0.0), std::nextafter(p, INFINITY), 3 * p, p / 3, 123456789 * p}) { one(q); one(-q); } }
    for (int i = 0; i < 100000; ++i) { one(i); one(i / 100.0); one(i * 1e7); }
    one(1.7976931348623157e308); one(5e-324); one(2.2250738585072014e-308); one(0.0); one(-0.0);
    for (long i = 0; !timeUp() && i < 3000000; ++i) { uint64_t b = R.next(); double v; memcpy(&v, &b, 8); one(v); one((R.u() * 2 - 1) * std::pow(10, R(36) - 18)); }
}
