// Monitors of descriptive statistics, filters, ranks, simple regressions, correlations and data splits.
#include "ldtm.h"
#include "statistics.h"
#include "correlation.h"
#include "data_split.h"
typedef long double LD;
using ref::M;
using vm::str;
typedef std::vector<double> VD;
static VD rndV(Rng &r, int n) { VD v(n); double s = r.pick({1.0, 0.01, 30.0}), m = r.pick({0.0, 1.0, -50.0}); bool in = r.b(0.2); for (auto &x : v) x = in ? r.i(-3, 3) : r.n() * s + m; return v; }
static void moments(Rng &r) {
  int n = r.b(0.15) ? r.i(0, 4) : r.b(0.004) ? r.i(46000, 70000) : r.i(2, 60); VD v = rndV(r, n); if (n > 1 && r.b(0.05)) v.assign(n, r.i(-2, 2)); Buf b(v); Matrix<Tv> m(b.p, n, 1); Descriptive d(&m); std::string at = n > 30 ? fmt("n=%d", n) : fmt("n=%d ", n) + str(v); mon().note(at); bool sm = r.b(); LD s = 0, mean, c2 = 0, c3 = 0, c4 = 0, q = 0, mx = 0; for (auto x : v) s += x, q += (LD)x * x, mx = std::max(mx, fabsl(x)); mean = n ? s / n : NANV; for (auto x : v) { LD e = x - mean; c2 += e * e; c3 += e * e * e; c4 += e * e * e * e; }
  double z = (double)(mx * 1e-12L) + 1e-300, z2 = (double)(mx * mx) * 1e-11 * std::max(n, 1) + 1e-300; double mn = n ? *std::min_element(v.begin(), v.end()) : NANV, mxv = n ? *std::max_element(v.begin(), v.end()) : NANV; VEQ(d.Minimum(), mn, "min", 0, 0, at); VEQ(d.Maximum(), mxv, "max", 0, 0, at); VEQ(d.Sum(), (double)s, "sum", 1e-11, z * std::max(n, 1), at); VEQ(d.SumOfSquares(false), (double)q, "sumsq", 1e-10, 1e-300, at); VEQ(d.SumOfSquares(true), n ? (double)c2 : 0, "sumsq.central", 1e-9, z2, at);
  for (bool sp : {sm, !sm}) { auto [a, w] = d.MeanVariance(sp); VEQ(a, (double)mean, "mean", 1e-11, z, at); if (n < 2) VCHECK(std::isnan(w), "variance", "%s variance %g", at.c_str(), w); else VEQ(w, (double)(c2 / (n - (sp ? 1 : 0))), "variance", 1e-9, z2 / n, at + (sp ? " sample" : " population"));
    auto [a2, w2, k, g] = d.MeanVarianceKurtosisSkewness(sp); (void)0; VEQ(a2, (double)mean, "moments.mean", 1e-11, z, at); if (n < 2) { VCHECK(std::isnan(w2), "moments.variance", "%s %g", at.c_str(), w2); continue; } VEQ(w2, (double)(c2 / (n - (sp ? 1 : 0))), "moments.variance", 1e-9, z2 / n, at); LD sd = sqrtl(c2 / n); if (!(c2 > 1e-12L * mx * mx * n)) continue; LD g1 = c3 / n / (sd * sd * sd), g2 = c4 / n / (c2 / n * (c2 / n)) - 3; if (sp) { if (n > 2) g1 = g1 * sqrtl((LD)n * (n - 1)) / (n - 2); if (n > 3) g2 = (n - 1.0L) / ((n - 2.0L) * (n - 3.0L)) * ((n + 1.0L) * g2 + 6); } LD cond = 1 + mx / sd; double tt = (double)(1e-11L * cond * cond * cond * cond);
    double sk = k, ku = g; (void)sk; (void)ku; if (n > 2) VEQ(k, (double)g1, "moments.skewness", 1e-7 + tt, 1e-7 + tt, at + (sp ? " sample" : " population")); else VCHECK(std::isnan(k), "moments.skewness", "%s %g", at.c_str(), k); if (n > 3) VEQ(g, (double)g2, "moments.kurtosis", 1e-7 + tt, 1e-7 + tt, at + (sp ? " sample" : " population")); else VCHECK(std::isnan(g), "moments.kurtosis", "%s %g", at.c_str(), g); }
  if (n) { std::sort(v.begin(), v.end()); Buf sb(v); Matrix<Tv> smx(sb.p, n, 1); Descriptive e(&smx); VEQ(e.MinimumSorted(), mn, "min.sorted", 0, 0, at); VEQ(e.MaximumSorted(), mxv, "max.sorted", 0, 0, at); VEQ(e.QuantileSorted(-0.1), mn, "quantile", 0, 0, at); VEQ(e.QuantileSorted(0), mn, "quantile", 0, 0, at); VEQ(e.QuantileSorted(1), mxv, "quantile", 0, 0, at); VEQ(e.QuantileSorted(1.1), mxv, "quantile", 0, 0, at); double prev = -INFINITY, last = 0; for (int i = 0; i < 6; i++) { double t = last + (1 - last) * r.u(0, 0.4); last = t; LD h = (n + 1 / 3.0L) * t + 1 / 3.0L; int f = (int)floorl(h); LD w = f < 1 ? v[0] : f >= n ? v[n - 1] : v[f - 1] + (h - f) * (LD)(v[f] - v[f - 1]); double g = e.QuantileSorted(t); VEQ(g, (double)w, "quantile", 1e-9, z + 1e-9 * (mxv - mn), at + fmt(" tau %.17g", t)); VCHECK(g >= prev - z, "quantile.monotone", "%s tau %g", at.c_str(), t); prev = g; } mon().count("quantiles", 6); }
  mon().count("moments"); mon().distinct(fmt("m %d %.9g", n, (double)mean));
}
static LD at0(const VD &v, int i) { return v[i]; }
static void filters(Rng &r) {
  int n = r.i(1, 40), k = r.b(0.1) ? n : r.i(1, std::min(n, 9)); VD x = rndV(r, n), c(k); for (auto &q : c) q = r.u(-0.9, 0.9) / (r.b() ? 1 : k); Buf xb(x), cb(c); Matrix<Tv> m(xb.p, n, 1), cm(cb.p, k, 1); Descriptive d(&m); std::string at = fmt("n=%d coefficients ", n) + str(c); mon().note(at); double fl = fillOf(r.i(0, 3)); LD mx = 1e-300L; for (auto v : x) mx = std::max(mx, fabsl(v));
  { Buf o(n, fl); Matrix<Tv> om(o.p, n, 1); d.FilterAr(&cm, &om); std::vector<LD> y(n); LD my = mx; for (int i = 0; i < n; i++) { y[i] = x[i]; if (i >= k) for (int j = 0; j < k; j++) y[i] += c[j] * y[i - j - 1]; my = std::max(my, fabsl(y[i])); } for (int i = 0; i < n; i++) VEQ(o.p[i], (double)y[i], "filter.ar", 1e-9, (double)(1e-11L * my), at + fmt(" at %d", i)); }
  { bool cen = r.b(); Buf o(n, fl); Matrix<Tv> om(o.p, n, 1); d.FilterMa(cm, cen, om); int off = cen ? k / 2 : 0; for (int i = 0; i < n; i++) { bool in = i + off < n && i + off - (k - 1) >= 0; LD s = 0; if (in) for (int j = 0; j < k; j++) s += c[j] * at0(x, i + off - j); VEQ(o.p[i], in ? (double)s : NANV, "filter.ma", 1e-9, (double)(1e-11L * mx), at + fmt(" centered %d at %d", cen, i)); } }
  if (n > 1) { Buf s(n - 1); Matrix<Tv> sm(s.p, n - 1, 1); VCHECK(throws([&] { d.FilterAr(&cm, &sm); }), "filter.size", "short storage%s", ""); VCHECK(throws([&] { d.FilterMa(cm, true, sm); }), "filter.size", "short storage%s", ""); }
  for (size_t i = 0; i < x.size(); i++) VCHECK(xb.p[i] == x[i], "filter.input", "%s", at.c_str());
  if (n > 1) { double o[2]; d.RegressionTrend(o); LD st = 0, sy = 0; for (int i = 0; i < n; i++) st += i + 1, sy += x[i]; st /= n; sy /= n; LD a = 0, b = 0; for (int i = 0; i < n; i++) a += (i + 1 - st) * (i + 1 - st), b += (i + 1 - st) * (x[i] - sy); b /= a; VEQ(o[1], (double)b, "trend.slope", 1e-7, (double)(1e-9L * mx), at); VEQ(o[0], (double)(sy - b * st), "trend.intercept", 1e-7, (double)(1e-9L * mx * 10), at); }
  mon().count("filters"); mon().distinct("f " + at);
}
static void decomposition(Rng &r) {
  int s = r.i(2, 7), n = r.i(3 * s + 2, 8 * s + 10); bool mul = r.b(), res = r.b(0.8), cen = r.b(0.8); VD c; if (r.b(0.7)) { c.assign(s % 2 ? s : s + 1, 1.0 / s); if (s % 2 == 0) c[0] = c[s] = 0.5 / s; } else { int k = r.i(1, s); LD q = 0; for (int i = 0; i < k; i++) { c.push_back(r.u(0.2, 1)); q += c.back(); } for (auto &z : c) z = (double)(z / q); } int k = c.size(); VD x(n), pat(s); for (auto &p : pat) p = r.n(); for (int i = 0; i < n; i++) x[i] = 20 + 0.3 * i + 2 * pat[i % s] + r.n() * 0.5; std::string at = fmt("n=%d seasons %d multiplicative %d centred %d coefficients ", n, s, mul, cen) + str(c); mon().note(at);
  Buf xb(x), cb(c); double fl = fillOf(r.i(0, 3)); Buf tr(n, fl), se(n, fl), re(n, fl), me(s, fl); Matrix<Tv> m(xb.p, n, 1), cm(cb.p, k, 1), t(tr.p, n, 1), ss(se.p, n, 1), rr(re.p, n, 1), mm(me.p, s, 1); Descriptive d(&m); d.SeasonalDecompositionMa(t, ss, rr, mm, &cm, s, mul, res, cen); int off = cen ? k / 2 : 0; std::vector<LD> w(n, NANV), mean(s, 0); std::vector<int> cnt(s, 0); for (int i = 0; i < n; i++) { if (i + off < n && i + off - (k - 1) >= 0) { LD q = 0; for (int j = 0; j < k; j++) q += c[j] * at0(x, i + off - j); w[i] = q; LD e = mul ? x[i] / q : x[i] - q; mean[i % s] += e; cnt[i % s]++; } VEQ(tr.p[i], (double)w[i], "season.trend", 1e-9, 1e-9, at + fmt(" at %d", i)); }
  LD all = 0; for (int j = 0; j < s; j++) { mean[j] /= cnt[j]; all += mean[j]; } all /= s; LD tot = 0; for (int j = 0; j < s; j++) { mean[j] = mul ? mean[j] / all : mean[j] - all; VEQ(me.p[j], (double)mean[j], "season.means", 1e-9, 1e-8, at + fmt(" season %d", j)); tot += me.p[j]; } VEQ((double)(tot / s), mul ? 1 : 0, "season.total", 1e-9, 1e-9, at);
  for (int i = 0; i < n; i++) { VEQ(se.p[i], (double)mean[i % s], "season.seasonal", 1e-9, 1e-8, at + fmt(" at %d", i)); if (res) VEQ(re.p[i], (double)(mul ? x[i] / w[i] / mean[i % s] : x[i] - w[i] - mean[i % s]), "season.residual", 1e-8, 1e-8, at + fmt(" at %d", i)); } mon().count("decompositions"); mon().distinct("s " + at);
}
static void rank(Rng &r) {
  int n = r.i(1, 20), k = r.i(1, 5); M x = r.b() ? rndint(r, n, k, 0, r.i(1, 9)) : rnd(r, n, k); bool asc = r.b(); std::string at = fmt("%dx%d ascending %d", n, k, asc); Rank o(n + (r.b(0.3) ? r.i(0, 3) : 0), k); double fl = fillOf(r.i(0, 3)); Buf st(o.StorageSize, fl), wk(o.WorkSize, fl); MX m(x); o.Calculate(m.m, wk, st, asc); VSAME(m.m, x, 0, "rank.input", "%s", at.c_str()); M w(n, k); for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) { int c = 0; for (int q = 0; q < n; q++) c += asc ? x(q, j) < x(i, j) : x(q, j) > x(i, j); w(i, j) = c; } VSAME(o.Result, w, 0, "rank.value", "%s", at.c_str()); VCHECK(throws([&] { Rank s(n, k - 1 ? k - 1 : k); Buf a(s.StorageSize), b(s.WorkSize); MX big(M(n + 1, k)); s.Calculate(big.m, b, a, asc); }), "rank.size", "%s small object accepted", at.c_str()); mon().count("ranks"); mon().distinct(fmt("r %d %d %d %g", n, k, asc, (double)x(0, 0)));
}
static void regress(Rng &r) {
  int k = r.i(1, 5), n = r.i(k + 1, 25), m = r.i(1, 4); M X = rnd(r, n, k), Y = X * rnd(r, k, m) + rnd(r, n, m); for (auto &v : Y.d) v = (double)v; bool res = r.b(), sig = r.b(), g = r.b(), inv = r.b(); M L = rnd(r, n, n, 0.3), O = L * L.t(); for (int i = 0; i < n; i++) O(i, i) += 1; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) O(i, j) = O(j, i); for (auto &v : O.d) v = (double)v; M P = g ? inv ? O : ref::inv(O) : M(n, n); if (!g) for (int i = 0; i < n; i++) P(i, i) = 1; int e = r.b(0.3) ? r.i(0, 3) : 0; std::string at = fmt("obs=%d eq=%d exo=%d %s residuals %d cross-products %d extra %d", n, m, k, g ? inv ? "GLS with inverse" : "GLS" : "OLS", res, sig, e); mon().note(at);
  if (r.b(0.04)) { M Z = rnd(r, n, k); for (int i = 0; i < n; i++) Z(i, k - 1) = 0; Ols s(n, m, k, res, sig); Buf st(s.StorageSize), wk(s.WorkSize); MX y(Y), z(Z); VCHECK(throws([&] { s.Calculate(y.m, z.m, st, wk); }), "ols.singular", "%s zero column accepted", at.c_str()); MX x2(rnd(r, n + 1, k)); VCHECK(throws([&] { s.Calculate(y.m, x2.m, st, wk); }), "ols.length", "%s different lengths accepted", at.c_str()); return; }
  M A = X.t() * P * X; if (ref::rcond(A) < 1e-8L) throw Skip(); M B = ref::inv(A) * (X.t() * P * Y), E = Y - X * B; MX y(Y), x(X); double fl = fillOf(r.i(0, 3));
  auto check = [&](auto &o) { VSAME(o.Beta, B, 1e-8, "ls.beta", "%s", at.c_str()); if (res || sig) VSAME(o.Resid, E, 1e-8, "ls.resid", "%s", at.c_str()); if (sig) VSAME(o.Sigma, E.t() * E, 1e-8, "ls.cross", "%s", at.c_str()); VSAME(y.m, Y, 0, "ls.input", "%s", at.c_str()); VSAME(x.m, X, 0, "ls.input", "%s", at.c_str()); };
  if (g) { Gls o(n + e, m + (e > 1), k + (e > 2), res, sig, inv); Buf st(o.StorageSize, fl), wk(o.WorkSize, fl); MX om(O); o.Calculate(y.m, x.m, om.m, st, wk); check(o); if (inv) VSAME(om.m, O, 0, "gls.omega", "%s", at.c_str()); VCHECK(throws([&] { Gls s(n - 1, m, k, res, sig, inv); Buf a(s.StorageSize), b(s.WorkSize); MX o2(O); s.Calculate(y.m, x.m, o2.m, a, b); }), "gls.size", "%s small object accepted", at.c_str()); }
  else { Ols o(n + e, m + (e > 1), k + (e > 2), res, sig); Buf st(o.StorageSize, fl), wk(o.WorkSize, fl); o.Calculate(y.m, x.m, st, wk); check(o); VCHECK(throws([&] { Ols s(n - 1, m, k, res, sig); Buf a(s.StorageSize), b(s.WorkSize); s.Calculate(y.m, x.m, a, b); }), "ols.size", "%s small object accepted", at.c_str()); }
  mon().count("regressions"); mon().distinct("o " + at);
}
// ---- correlations
template <bool chk, CorrelationType ty, CorrelationMethod me> static void corOne(Rng &r) {
  int n = r.b(0.05) ? r.i(21, 120) : r.i(2, 20), k = r.b(0.05) ? r.i(7, 12) : r.i(1, 6); const bool cov = ty == CorrelationType::kCovariance, sp = me == CorrelationMethod::kSpearman; M x = r.b(0.4) ? rndint(r, n, k, 0, r.i(2, 8)) : rnd(r, n, k, r.pick({0.1, 1.0, 20.0})); if (k > 1 && r.b(0.3)) { int j = r.i(1, k - 1); double q = r.pick({-1.0, 2.0}); for (int i = 0; i < n; i++) x(i, j) = x(i, 0) * q; } if (chk) for (int q = r.i(0, std::max(1, n * k / 4)); q > 0; q--) x(r.i(0, n - 1), r.i(0, k - 1)) = NANV; bool adj = r.b(), low = r.b(0.7); std::string at = fmt("%dx%d %s %s checked %d adjusted %d", n, k, sp ? "spearman" : "pearson", cov ? "covariance" : "correlation", chk, adj); mon().note(at);
  int e = r.b(0.3) ? r.i(0, 3) : 0; Correlation<chk, ty, me> c(n + e, k + e / 2, true); double fl = fillOf(r.i(0, 3)); Buf st(c.StorageSize, fl), wk(c.WorkSize, fl); MX mx(x); for (int rep = r.b(0.2) ? 2 : 1; rep > 0; rep--) c.Calculate(mx.m, wk, st, adj, low); for (size_t i = 0; i < x.d.size(); i++) VCHECK(mx.m.Data[i] == (double)x.d[i] || std::isnan((double)x.d[i]), "cor.input", "%s", at.c_str()); Matrix<Tv> R = c.Result; VCHECK(R.RowsCount == k && R.ColsCount == k, "cor.size", "%s", at.c_str());
  for (int i = 0; i < k; i++) for (int j = i; j < k; j++) { std::vector<LD> a, b; for (int q = 0; q < n; q++) if (!std::isnan((double)x(q, i)) && !std::isnan((double)x(q, j))) { a.push_back(x(q, i)); b.push_back(x(q, j)); } int N = a.size(); if (sp) { auto rk = [](std::vector<LD> v) { std::vector<LD> o; for (auto p : v) { int z = 0; for (auto q : v) z += q > p; o.push_back(z); } return o; }; a = rk(a); b = rk(b); } LD ma = 0, mb = 0, sa = 0, sb = 0, s = 0; for (int q = 0; q < N; q++) ma += a[q], mb += b[q]; ma /= N; mb /= N; for (int q = 0; q < N; q++) sa += (a[q] - ma) * (a[q] - ma), sb += (b[q] - mb) * (b[q] - mb), s += (a[q] - ma) * (b[q] - mb); double g = R.Get0(i, j); std::string wh = at + fmt(" columns %d, %d with %d observations", i, j, N); if (chk) VEQ(c.ResultCounts.Get0(i, j), (double)N, "cor.counts", 0, 0, wh);
    if (low) VCHECK(R.Get0(j, i) == g || (std::isnan(g) && std::isnan(R.Get0(j, i))), "cor.symmetric", "%s %g %g", wh.c_str(), g, R.Get0(j, i)); if (cov && adj && N < 2) continue; if (N == 0) { if (!(i == j && !cov)) VCHECK(std::isnan(g), "cor.empty", "%s %g", wh.c_str(), g); continue; } if (cov) { if (adj && N < 2) continue; LD tot = sqrtl(sa * sb); VEQ(g, (double)(s / (adj ? N - 1 : N)), "cor.covariance", 1e-9, (double)(1e-10L * tot / N) + 1e-13 * (double)(fabsl(ma * mb)) + 1e-300, wh); } else { bool con = true, con2 = true; for (int q = 1; q < N; q++) con &= a[q] == a[0], con2 &= b[q] == b[0]; if (con || con2) { if (i != j) VCHECK(std::isnan(g) || fabs(g) <= 1 + 1e-9, "cor.constant", "%s %g", wh.c_str(), g); continue; } VCHECK(fabs(g) <= 1 + 1e-9, "cor.range", "%s %.17g", wh.c_str(), g); VEQ(g, (double)(s / sqrtl(sa * sb)), "cor.value", 1e-9, 1e-9, wh); } mon().count(sp ? "spearman" : "pearson"); }
  mon().distinct(fmt("c %d %d %d %d %d %d", n, k, chk, cov, sp, adj));
}
static void cor(Rng &r) {
  constexpr auto C = CorrelationType::kCorrelation, V = CorrelationType::kCovariance; constexpr auto P = CorrelationMethod::kPearson, S = CorrelationMethod::kSpearman; switch (r.i(0, 7)) { case 0: return corOne<false, C, P>(r); case 1: return corOne<false, V, P>(r); case 2: return corOne<true, C, P>(r); case 3: return corOne<true, V, P>(r); case 4: return corOne<false, C, S>(r); case 5: return corOne<false, V, S>(r); case 6: return corOne<true, C, S>(r); default: return corOne<true, V, S>(r); }
}
// ---- splits
static std::vector<int> rowsOf(const Matrix<Tv> &m, int idc, const M &x, const std::string &at) { std::vector<int> o; for (int i = 0; i < m.RowsCount; i++) { int q = (int)m.Get0(i, idc); o.push_back(q); if (q < 0 || q >= x.r) { VCHECK(false, "split.row", "%s row %d holds %d", at.c_str(), i, q); continue; } for (int j = 0; j < x.c; j++) VCHECK(m.Get0(i, j) == (double)x(q, j), "split.row", "%s row %d column %d differs from row %d of data", at.c_str(), i, j, q); } return o; }
static void split(Rng &r) {
  bool dis = r.b(); int n = r.b(0.15) ? r.i(41, 300) : r.i(2, 40), k = r.i(0, 3), nc = r.i(2, 4), c = 2 + k; M x(n, c); for (int i = 0; i < n; i++) { x(i, 0) = r.b(0.6) ? 0 : r.i(0, nc - 1); x(i, 1) = i; for (int j = 2; j < c; j++) x(i, j) = r.n(); } std::vector<int> cnt(nc, 0); for (int i = 0; i < n; i++) cnt[(int)x(i, 0)]++; double ratio = r.b(0.2) ? r.pick({0.5, 0.25, 0.9, 0.1}) : r.u(0.02, 0.98); int fix = r.b(0.4) ? r.i(1, n + 1) : 0; int n0 = fix ? fix : (int)std::round(n * ratio); std::string at = fmt("%s rows=%d classes %d ratio %.6g fixed %d", dis ? "discrete" : "plain", n, nc, ratio, fix); mon().note(at); std::mt19937 eng(r.i(1, 1 << 30)); MX mx(x); bool bad = n0 <= 0 || n0 >= n; int e = r.b(0.3) ? r.i(0, 3) : 0; double fl = fillOf(r.i(0, 3));
  std::vector<int> hits(n, 0); int T = r.b(n > 40 ? 0.06 : 0.02) ? 2000 : r.i(1, 3); std::vector<int> c0;
  auto check = [&](const Matrix<Tv> &a, const Matrix<Tv> &b) { VCHECK(a.RowsCount == n0 && b.RowsCount == n - n0 && a.ColsCount == c && b.ColsCount == c, "split.size", "%s %dx%d and %dx%d", at.c_str(), a.RowsCount, a.ColsCount, b.RowsCount, b.ColsCount); auto p = rowsOf(a, 1, x, at), q = rowsOf(b, 1, x, at); std::vector<int> seen(n, 0); for (int i : p) seen[i]++, hits[i]++; for (int i : q) seen[i]++; for (int i = 0; i < n; i++) VCHECK(seen[i] == 1, "split.partition", "%s row %d appears %d times", at.c_str(), i, seen[i]); c0.assign(nc, 0); for (int i : p) c0[(int)x(i, 0)]++; };
  if (!dis) { DataSplit s(n + e, c); Buf st(s.StorageSize, fl); std::vector<Ti> wi(s.WorkSizeI); if (bad) { VCHECK(throws([&] { s.Calculate(mx.m, st, ratio, fix); }), "split.invalid", "%s accepted", at.c_str()); return; } s.Calculate(mx.m, st, ratio, fix); for (int t = 0; t < T; t++) { s.Shuffle(mx.m, wi.data(), eng); check(s.Sample0, s.Sample1); } }
  else {
    bool empty = false; for (int q : cnt) empty |= q == 0; DataSplitDiscrete s(n + e, c, nc); Buf st(s.StorageSize, fl); std::vector<Ti> wi(s.WorkSizeI); if (empty) { VCHECK(throws([&] { s.Calculate(mx.m, st, ratio, fix); }), "split.empty", "%s with an empty class accepted", at.c_str()); return; } double tr = fix ? (double)fix / n : ratio; std::vector<int> w(nc); int mxc = *std::max_element(cnt.begin(), cnt.end()), big = -1, sum = 0, nb = 0; bool half = false; for (int q = 0; q < nc; q++) { if (cnt[q] == mxc) big = q, nb++; int z = (int)std::round(tr * cnt[q]); half |= fabs(tr * cnt[q] - floor(tr * cnt[q]) - 0.5) < 1e-9; if (z >= cnt[q]) z = cnt[q] - 1; if (z == 0) z = 1; w[q] = z; sum += z; } int rest = n0 - (sum - w[big]); bool fail = bad || rest <= 0 || rest > mxc; if (half) throw Skip();
    bool thrown = throws([&] { s.Calculate(mx.m, st, ratio, fix); s.Shuffle(mx.m, wi.data(), eng); }); VCHECK(thrown == fail, "split.discrete.invalid", "%s classes %s: accepted %d, expected %d", at.c_str(), str(cnt).c_str(), !thrown, !fail); if (thrown) { mon().count("rejected_splits"); return; }
    for (int t = 0; t < T; t++) { s.Shuffle(mx.m, wi.data(), eng); check(s.Sample0, s.Sample1); int diff = 0; for (int q = 0; q < nc; q++) if (c0[q] != w[q]) { diff++; VCHECK(cnt[q] == mxc && c0[q] == rest, "split.share", "%s class %d of %d rows has %d in training, expected %d", at.c_str(), q, cnt[q], c0[q], w[q]); } VCHECK(diff <= 1, "split.share", "%s %d classes differ", at.c_str(), diff); } }
  if (T > 100) { for (int i = 0; i < n; i++) { double p = dis ? (double)c0[(int)x(i, 0)] / cnt[(int)x(i, 0)] : (double)n0 / n; double z = (hits[i] - T * p) / sqrt(T * p * (1 - p) + 1e-9); if (p > 0 && p < 1) VCHECK(fabs(z) < 6, "split.uniform", "%s row %d was in training %d of %d times, expected %g", at.c_str(), i, hits[i], T, p * T); } mon().count("uniformity"); }
  mon().count("splits", T); mon().distinct("x " + at);
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("moments", 3000, 60000, moments); m.section("filters", 2000, 40000, filters); m.section("decomposition", 800, 16000, decomposition); m.section("rank", 1000, 20000, rank); m.section("regression", 2000, 40000, regress); m.section("correlation", 3000, 60000, cor); m.section("split", 3000, 60000, split);
  return m.done();
}
