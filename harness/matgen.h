#pragma once
typedef std::vector<std::vector<double>> M;
static inline M rd(const Mat &m) { M r(m.rows, std::vector<double>(m.cols)); CHECK((long)m.data.size() == (long)m.rows * m.cols, "storage does not match the shape"); for (int i = 0; i < m.rows; ++i) for (int j = 0; j < m.cols; ++j) r[i][j] = m.data[i * m.cols + j]; return r; }
static inline Mat mk(const M &v) { int r = v.size(), c = v[0].size(); Mat m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m.data[i * c + j] = v[i][j]; return m; }
static inline Vec mkv(const M &v) { Vec r((int)v.size()); for (size_t i = 0; i < v.size(); ++i) r.data[i] = v[i][0]; return r; }
static inline str show(const M &v) { str s = "["; for (auto &r : v) { s += "["; for (double x : r) s += fmtd(x) + " "; s += "]"; } return s + "]"; }
static inline bool near(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); }
static inline bool same(const M &a, const M &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) if (!near(a[i][j], b[i][j])) return false; } return true; }
static inline M gen(Rng &R, int r, int c, int mode) { M v(r, std::vector<double>(c)); for (auto &q : v) for (double &x : q) x = mode == 0 ? R(7) - 3 : mode == 1 ? R(199) - 99 : mode == 2 ? (R(3) ? 0 : R(9) - 4) : (R.u() * 2 - 1) * (R(2) ? 5 : 500); return v; }
static inline M f2(const M &a, const M &b, const std::function<double(double, double)> &f) { M r = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[i][j] = f(a[i][j], b[i][j]); return r; }
static inline M f1(const M &a, const std::function<double(double)> &f) { M r = a; for (auto &q : r) for (auto &x : q) x = f(x); return r; }
static inline M prod(const M &a, const M &b) { M r(a.size(), std::vector<double>(b[0].size(), 0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b[0].size(); ++j) for (size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j]; return r; }
