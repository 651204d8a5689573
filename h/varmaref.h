// Reference VARMA algebra (long double), written from the definitions.
#pragma once
#include "ldtm.h"
#include "varma.h"
#include "data_split.h"
typedef long double LD;
using ref::M;
using VI = std::vector<Ti>;
struct VSpec {
  int p = 0, d = 0, q = 0, P = 0, D = 0, Q = 0, s = 0, g = 1, k = 0, N = 0;
  std::vector<int> ar, ma; std::vector<LD> dp; int armax = 0, mamax = 0, dd = 0, T = 0, f = 0, ms = 0;
  std::string str() const { return fmt("(%d,%d,%d)(%d,%d,%d)_%d eq=%d exo=%d obs=%d", p, d, q, P, D, Q, s, g, k, N); }
  void make() {
    auto lags = [&](int a, int A) { std::set<int> l; for (int i = 1; i <= a; i++) l.insert(i); for (int i = 1; i <= A; i++) l.insert(i * s); return std::vector<int>(l.begin(), l.end()); };
    ar = lags(p, P); ma = lags(q, Q); armax = ar.empty() ? 0 : ar.back(); mamax = ma.empty() ? 0 : ma.back(); dp = {1};
    auto mul = [&](int lag) { std::vector<LD> n(dp.size() + lag, 0); for (size_t i = 0; i < dp.size(); i++) { n[i] += dp[i]; n[i + lag] -= dp[i]; } dp = n; };
    for (int i = 0; i < d; i++) mul(1);
    for (int i = 0; i < D; i++) mul(s);
    dd = (int)dp.size() - 1; T = N - armax - dd; ms = g * (int)ar.size() + k; f = ms + g * (int)ma.size();
  }
};
inline M diffOf(const VSpec &v, const M &Y) { M o(Y.r, Y.c - v.dd); for (int t = v.dd; t < Y.c; t++) for (int i = 0; i < Y.r; i++) for (int j = 0; j <= v.dd; j++) o(i, t - v.dd) += v.dp[j] * Y(i, t - j); return o; }
// regressors of one period except the moving average part
inline void arexo(const VSpec &v, const M &yd, const M &X, int t, M &row) { int c = 0; for (int l : v.ar) for (int i = 0; i < v.g; i++) row(c++, 0) = yd(i, t - l); for (int i = 0; i < v.k; i++) row(c++, 0) = X(i, t + v.dd); }
struct VFit { M coef, resid, sigma, y; LD logdet = 0, ll = 0; };
// residuals of given coefficients (g x f) with zero pre-sample innovations
inline VFit recursion(const VSpec &v, const M &Y, const M &X, const M &coef, int end) {
  VFit o; o.coef = coef; M yd = diffOf(v, Y); int T = v.T - end; o.resid = M(v.g, T); o.y = M(v.g, T);
  for (int t = 0; t < T; t++) {
    M row(v.f, 1); arexo(v, yd, X, t + v.armax, row); int c = v.ms;
    for (int l : v.ma) { for (int i = 0; i < v.g; i++) row(c + i, 0) = t - l >= 0 ? o.resid(i, t - l) : 0; c += v.g; }
    for (int i = 0; i < v.g; i++) { LD s = 0; for (int j = 0; j < v.f; j++) s += coef(i, j) * row(j, 0); o.y(i, t) = yd(i, t + v.armax); o.resid(i, t) = o.y(i, t) - s; }
  }
  o.sigma = (1.0L / T) * (o.resid * o.resid.t()); LD dt = ref::det(o.sigma); o.logdet = logl(dt); o.ll = -(T * v.g * (logl(2 * M_PIl) + 1) + T * o.logdet) / 2; return o;
}
inline M regressors(const VSpec &v, const M &Y, const M &X, int end, const M *e = nullptr) { // f (or ms) x T
  M yd = diffOf(v, Y); int T = v.T - end; M o(e ? v.f : v.ms, T);
  for (int t = 0; t < T; t++) { M row(v.f, 1); arexo(v, yd, X, t + v.armax, row); int c = v.ms; if (e) for (int l : v.ma) { for (int i = 0; i < v.g; i++) row(c + i, 0) = t - l >= 0 ? (*e)(i, t - l) : 0; c += v.g; } for (int j = 0; j < o.r; j++) o(j, t) = row(j, 0); }
  return o;
}
inline M ylevels(const VSpec &v, const M &Y, int end) { M yd = diffOf(v, Y); return yd.sub(0, v.armax, v.g, v.T - end); }
// closed-form least squares of all equations on the regressors Z (columns are periods)
struct Ls { M B, E, S, ZZi, V; LD cn; bool ok = false; };
inline Ls leastSquares(const M &y, const M &Z) {
  Ls o; M ZZ = Z * Z.t(); if (Z.c <= Z.r || ref::rcond(ZZ) < 1e-7) return o; o.ZZi = ref::inv(ZZ); o.cn = ref::norm1(ZZ) * ref::norm1(o.ZZi); o.B = y * Z.t() * o.ZZi; o.E = y - o.B * Z; o.S = (1.0L / y.c) * (o.E * o.E.t()); o.V = ref::kron(o.ZZi, o.S); o.ok = true; return o;
}
// mean and variance of forecasts of given coefficients; X covers the sample and the horizon. level = last observations of the undifferenced data
inline void forecastRef(const VSpec &v, const M &Y, const M &X, const VFit &e, int end, int h, M &mean, M &var) {
  M yd = diffOf(v, Y); int n = Y.c - end, nd = n - v.dd; M path(v.g, nd + h); for (int t = 0; t < nd; t++) for (int i = 0; i < v.g; i++) path(i, t) = yd(i, t); int T = v.T - end;
  for (int t = nd; t < nd + h; t++) { M row(v.f, 1); arexo(v, path, X, t, row); int c = v.ms; for (int l : v.ma) { int ix = t - v.armax - l; for (int i = 0; i < v.g; i++) row(c + i, 0) = ix >= 0 && ix < T ? e.resid(i, ix) : 0; c += v.g; } for (int i = 0; i < v.g; i++) { LD s = 0; for (int j = 0; j < v.f; j++) s += e.coef(i, j) * row(j, 0); path(i, t) = s; } }
  M lev(v.g, n + h); for (int t = 0; t < n; t++) for (int i = 0; i < v.g; i++) lev(i, t) = Y(i, t);
  for (int t = n; t < n + h; t++) for (int i = 0; i < v.g; i++) { LD s = path(i, t - v.dd); for (int j = 1; j <= v.dd; j++) s -= v.dp[j] * lev(i, t - j); lev(i, t) = s; }
  mean = lev.sub(0, n, v.g, h);
  // psi weights of the level: A(L) d(L) psi(L) = M(L)
  std::vector<M> a(v.armax + 1, M(v.g, v.g)), ad(v.armax + v.dd + 1, M(v.g, v.g)), m(v.mamax + 1, M(v.g, v.g)), psi; a[0] = m[0] = M::eye(v.g);
  for (size_t i = 0; i < v.ar.size(); i++) a[v.ar[i]] = (LD)-1 * e.coef.sub(0, (int)i * v.g, v.g, v.g);
  for (size_t i = 0; i < v.ma.size(); i++) m[v.ma[i]] = e.coef.sub(0, v.ms + (int)i * v.g, v.g, v.g);
  for (int i = 0; i <= v.armax; i++) for (int j = 0; j <= v.dd; j++) ad[i + j] = ad[i + j] + v.dp[j] * a[i];
  var = M(v.g, h); M acc(v.g, v.g);
  for (int s = 0; s < h; s++) { M x = s <= v.mamax ? m[s] : M(v.g, v.g); for (int j = 1; j <= v.armax + v.dd && j <= s; j++) x = x - ad[j] * psi[s - j]; psi.push_back(x); acc = acc + x * e.sigma * x.t(); for (int i = 0; i < v.g; i++) var(i, s) = acc(i, i); }
}
inline VSpec rndSpec(Rng &r, bool allowMa, bool allowExo = true, int maxG = 3) {
  VSpec v; v.g = r.b(0.45) ? 1 : r.i(2, maxG); v.k = allowExo && r.b(0.6) ? r.i(1, 2) : 0; v.s = r.b(0.35) ? (r.b(0.06) ? r.pick({7, 12}) : r.i(2, 4)) : 0; v.d = r.b(0.3) ? r.i(1, 2) : 0; v.p = r.i(0, 2); v.q = allowMa ? r.i(0, 2) : 0;
  if (v.s) { v.P = r.i(0, 1); v.Q = allowMa && r.b(0.4) ? 1 : 0; v.D = r.b(0.3) ? 1 : 0; } if (v.p + v.q + v.P + v.Q == 0) v.p = 1; v.N = r.i(45, 90) + (v.s > 4 ? 4 * v.s : 0) + 10 * v.g * (v.p + v.q + v.P + v.Q); v.make(); return v;
}
// an integrated moving-average process driven by normal noise and the exogenous series
inline void rndSeries(Rng &r, const VSpec &v, int extra, M &Y, M &X) {
  int n = v.N, burn = 10; M e(v.g, n + burn), y(v.g, n + burn); X = M(v.k, n + extra); for (int i = 0; i < v.k; i++) for (int t = 0; t < n + extra; t++) X(i, t) = i == 0 ? 1 : (double)r.n();
  double ph = r.u(-0.4, 0.6), th = r.u(-0.4, 0.5); M A = rnd(r, v.g, v.g, 0.15), C = rnd(r, v.g, v.g, 0.2); for (int i = 0; i < v.g; i++) { A(i, i) += ph; C(i, i) += th; }
  for (int t = 0; t < n + burn; t++) for (int i = 0; i < v.g; i++) { e(i, t) = r.n(); LD s = e(i, t); if (t) for (int j = 0; j < v.g; j++) s += A(i, j) * y(j, t - 1) + C(i, j) * e(j, t - 1); if (t >= burn) for (int j = 0; j < v.k; j++) s += X(j, t - burn) * (0.3 + 0.5 * i); y(i, t) = s; }
  Y = y.sub(0, burn, v.g, n); for (int j = 0; j < v.d; j++) for (int t = 1; t < n; t++) for (int i = 0; i < v.g; i++) Y(i, t) += Y(i, t - 1); for (int j = 0; j < v.D; j++) for (int t = v.s; t < n; t++) for (int i = 0; i < v.g; i++) Y(i, t) += Y(i, t - v.s);
  for (auto &x : Y.d) x = (double)x;
}
