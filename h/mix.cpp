// Monitors of generalized lambda distributions, mixtures, empirical distributions and histograms.
#include "vmon.h"
#include "distributions.h"
#include "api.h"
#include <boost/math/quadrature/tanh_sinh.hpp>
#include <memory>
using namespace ldt;
using namespace vm;
static const double INF = INFINITY;
typedef std::vector<double> VD;
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
static double shape(Rng &r, double lo) { for (;;) { double v = r.b(0.25) ? 0 : r.b(0.2) ? r.pick({1, 2}) : r.u(lo, 3); if (v == 0 || std::fabs(v) >= 0.1) return v; } }
// quantile of GLD (FKML); q is 1-p (for accuracy)
static double gq(double p, double q, double a, double b, double c, double d) {
  double u = std::isinf(c) ? 0 : c == 0 ? std::log(p) : std::expm1(c * std::log(p)) / c, w = std::isinf(d) ? 0 : d == 0 ? std::log(q) : std::expm1(d * std::log(q)) / d; return a + (u - w) / b;
}
static void gldValues(Rng &r) {
  double a = r.u(-10, 10), b = std::exp(r.u(-2, 2)), c = r.b(0.07) ? INF : shape(r, -2), d = r.b(0.07) && !std::isinf(c) ? INF : shape(r, -2); std::string s = vm::fmt("gld(%.17g,%.17g,%.17g,%.17g)", a, b, c, d);
  for (int i = 0; i < 3; i++) { double p = r.b(0.1) ? r.pick({0.5, 0.25, 0.01}) : r.u(0.001, 0.999), e = gq(p, 1 - p, a, b, c, d), v = DistributionGld::GetQuantile(p, a, b, c, d); VCHECK(std::fabs(v - e) <= 1e-10 * (1 + std::fabs(e)), "gld.quantile", "%s at %.17g: %.17g, not %.17g", s.c_str(), p, v, e);
    double dp = (std::isinf(c) ? 0 : std::pow(p, c - 1)) + (std::isinf(d) ? 0 : std::pow(1 - p, d - 1)), f = DistributionGld::GetDensityQuantile(p, a, b, c, d); VCHECK(std::fabs(f - b / dp) <= 1e-10 * (b / dp), "gld.density", "%s at %.17g: %.17g, not %.17g", s.c_str(), p, f, b / dp);
    if (!std::isinf(c) && !std::isinf(d)) { auto q = DistributionBase::GetDistributionFromType(DistributionType::kGldFkml, a, b, c, d); VCHECK(q->GetQuantile(p) == v && q->GetDensityQuantile(p) == f, "gld.class", "%s at %g", s.c_str(), p); if (i == 0) { VCHECK(q->IsQuantile() && !q->IsDiscrete(), "gld.class", "%s", s.c_str()); double mn = c <= 0 ? -INF : a - 1 / (b * c), mx = d <= 0 ? INF : a + 1 / (b * d); VCHECK(std::isinf(mn) ? q->GetMinimum() == mn : std::fabs(q->GetMinimum() - mn) <= 1e-12 * (1 + std::fabs(mn)), "gld.minimum", "%s: %g", s.c_str(), q->GetMinimum()); VCHECK(std::isinf(mx) ? q->GetMaximum() == mx : std::fabs(q->GetMaximum() - mx) <= 1e-12 * (1 + std::fabs(mx)), "gld.maximum", "%s: %g", s.c_str(), q->GetMaximum()); } }
    mon().distinct(s); mon().count("gld_points"); }
  if (!std::isinf(c) && !std::isinf(d)) { int e = c <= 0 ? (d > 0 ? 1 : 4) : d > 0 ? 3 : 2; VCHECK(DistributionGld::GetGldFklmRegion(c, d) == e, "gld.region", "%s %d", s.c_str(), DistributionGld::GetGldFklmRegion(c, d)); }
}
static boost::math::quadrature::tanh_sinh<double> TS(12);
static double integ(std::function<double(double, double)> f) { auto g = [&](double p, double xc) { double q = p > 0.5 ? std::fabs(xc) : 1 - p, pp = p <= 0.5 ? std::fabs(xc) : p; if (pp <= 0 || q <= 0) return 0.0; return f(pp, q); }; return TS.integrate(g, 0.0, 1.0, 1e-11); }
static void momentsOf(double c, double d, double *m) { // mean, variance, skewness and excess kurtosis when location is zero and scale is one
  double mu = integ([&](double p, double q) { return gq(p, q, 0, 1, c, d); }), k[5]; for (int j = 2; j <= 4; j++) k[j] = integ([&](double p, double q) { return std::pow(gq(p, q, 0, 1, c, d) - mu, j); });
  m[0] = mu; m[1] = k[2]; m[2] = k[3] / std::pow(k[2], 1.5); m[3] = k[4] / (k[2] * k[2]) - 3;
}
static void gldMoments(Rng &r) {
  double a = r.u(-10, 10), b = std::exp(r.u(-2, 2)), c = shape(r, -0.17), d = r.b(0.2) ? c : shape(r, -0.17), m[4]; std::string s = vm::fmt("gld(%.17g,%.17g,%.17g,%.17g)", a, b, c, d); auto q = DistributionBase::GetDistributionFromType(DistributionType::kGldFkml, a, b, c, d); momentsOf(c, d, m);
  auto E = [&](const char *n, double v, double e, double t) { VCHECK(std::fabs(v - e) <= t * (1 + std::fabs(e)), "gld.moment", "%s: %s is %.17g, not %.17g", s.c_str(), n, v, e); }; double sc = std::fabs(m[2]) + std::fabs(m[3]);
  E("mean", q->GetMean(), a + m[0] / b, 1e-8); VCHECK(std::fabs(q->GetVariance() * b * b / m[1] - 1) <= 1e-6, "gld.moment", "%s: variance is %.17g, not %.17g", s.c_str(), q->GetVariance(), m[1] / b / b); E("skewness", q->GetSkewness(), m[2], 2e-6 * (1 + sc)); E("kurtosis", q->GetKurtosis(), m[3], 1e-5 * (1 + sc)); VCHECK(std::fabs(q->GetSandardDeviation() - std::sqrt(q->GetVariance())) <= 1e-12 * q->GetSandardDeviation(), "gld.moment", "%s: sd", s.c_str());
  double v[4], m1 = DistributionGld::GetMk(1, c, d); DistributionGld::GetMs(c, d, v[0], v[1], v[2], v[3]); for (int k = 1; k <= 4; k++) { double e = DistributionGld::GetMk(k, c, d); VCHECK(std::fabs(v[k - 1] - e) <= 1e-10 * (1 + std::fabs(e)), "gld.ms", "%s: moment %d is %.17g and %.17g", s.c_str(), k, v[k - 1], e); } (void)m1;
  for (int k = 0; k < 4; k++) { double lo = -1.0 / (k + 1), c1 = r.b() ? lo - r.u(0.01, 1) : c, d1 = c1 == c ? lo - r.u(0.01, 1) : d; auto z = DistributionBase::GetDistributionFromType(DistributionType::kGldFkml, a, b, c1, d1); double w = k == 0 ? z->GetMean() : k == 1 ? z->GetVariance() : k == 2 ? z->GetSkewness() : z->GetKurtosis(); VCHECK(std::isnan(w), "gld.undefined", "gld(%g,%g): moment %d does not exist but it is %g", c1, d1, k + 1, w); }
  mon().distinct("m" + s); mon().count("gld_moments");
}
static void gldFit(Rng &r) {
  int type = r.pick({0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11}); double mean = r.u(-5, 5), var = std::exp(r.u(-2, 3)), sk = r.b(0.3) ? 0 : r.u(-0.8, 0.8), ku = r.u(-1, 3), lo[2] = {-0.25, -0.25}, up[2] = {INF, INF}; bool sym = type == 1 || type == 3 || type == 5 || type == 7 || type == 10;
  switch (type) { case 2: case 3: up[0] = up[1] = 1; break; case 4: case 5: up[0] = up[1] = 0.5; break; case 6: case 7: lo[0] = lo[1] = 2; break; case 9: case 10: lo[0] = lo[1] = 1; up[0] = up[1] = 2; break; case 11: lo[0] = 1; up[1] = 1; break; }
  double st[2]; for (int i = 0; i < 2; i++) st[i] = r.u(std::max(lo[i], -0.1) + 0.05, std::min(up[i], lo[i] + 2.5) - 0.05); if (sym) st[1] = st[0];
  NelderMead o(2); o.MaxIteration = r.pick({50, 300, 1000}); auto q = DistributionGld::GetFromMoments(mean, var, sk, ku, type, o, st[0], st[1]); double a = std::get<0>(q), b = std::get<1>(q), L[2] = {std::get<2>(q), std::get<3>(q)}, m[4], n[4];
  std::string s = vm::fmt("type %d, moments (%g,%g,%g,%g), start (%.17g,%.17g): gld(%.17g,%.17g,%.17g,%.17g)", type, mean, var, sk, ku, st[0], st[1], a, b, L[0], L[1]);
  VCHECK(b > 0 && std::isfinite(a), "fit", "%s", s.c_str()); if (sym) VCHECK(L[0] == L[1], "fit.symmetric", "%s", s.c_str()); for (int i = 0; i < 2; i++) VCHECK(L[i] >= lo[i] - 1e-6 && L[i] <= up[i] + 1e-6, "fit.restriction", "%s", s.c_str());
  if (std::min(std::fabs(L[0]), std::fabs(L[1])) < 0.05 || std::min(L[0], L[1]) < -0.17 || std::max(L[0], L[1]) > 20) { mon().count("fit_inaccurate"); return; }
  momentsOf(L[0], L[1], m); VCHECK(std::fabs(a + m[0] / b - mean) <= 1e-5 * (1 + std::fabs(mean) + std::sqrt(var)) && std::fabs(m[1] / b / b / var - 1) <= 1e-5, "fit.mean", "%s: mean and variance are %.10g, %.10g", s.c_str(), a + m[0] / b, m[1] / b / b);
  bool inside = true; for (int i = 0; i < 2; i++) inside &= L[i] > lo[i] + 1e-9 && L[i] < up[i] - 1e-9; if (!inside) mon().count("fit_bounded");
  if (inside && st[0] > -0.17 && st[1] > -0.17) { momentsOf(st[0], st[1], n); auto J = [&](double *z) { return (z[2] - sk) * (z[2] - sk) + (z[3] - ku) * (z[3] - ku); }; VCHECK(J(m) <= J(n) * (1 + 1e-4) + 1e-6, "fit.improve", "%s: distance between moments is %g but it is %g at the starting point", s.c_str(), J(m), J(n)); if (J(m) < 1e-4) mon().count("fit_exact"); }
  mon().distinct("f" + s); mon().count("fits");
}
struct Comp { std::vector<std::unique_ptr<DistributionBase>> own; std::vector<DistributionBase *> d; VD w; std::string s; };
static std::unique_ptr<DistributionBase> oneDist(Rng &r, int kind, std::string &s) { // kind 0: normal, 1: continuous, 2: discrete, 3: gld
  DistributionType t; double a = 0, b = 0, c = 0, e = 0;
  if (kind == 0) t = DistributionType::kNormal, a = r.u(-5, 5), b = r.u(0.3, 4);
  else if (kind == 3) t = DistributionType::kGldFkml, a = r.u(-3, 3), b = r.u(0.5, 2), c = r.u(0.1, 1), e = r.u(0.1, 1);
  else if (kind == 1) switch (r.i(0, 6)) { case 0: t = DistributionType::kNormal; a = r.u(-5, 5); b = r.u(0.3, 4); break; case 1: t = DistributionType::kGamma; a = r.u(1.1, 5); b = r.u(0.3, 3); break; case 2: t = DistributionType::kUniformCon; a = r.u(-5, 5); b = a + r.u(0.3, 6); break; case 3: t = DistributionType::kExponential; a = r.u(0.2, 3); break; case 4: t = DistributionType::kChi2; a = r.u(2.1, 12); break; case 5: t = DistributionType::kT; a = r.u(5, 30); break; default: t = DistributionType::kLogNormal; a = r.u(-1, 1); b = r.u(0.1, 0.6); }
  else switch (r.i(0, 4)) { case 0: t = DistributionType::kUniformDis; a = r.i(-12, 6); b = a + r.i(1, 8); break; case 1: t = DistributionType::kPoisson; a = r.u(0.5, 9); break; case 2: t = DistributionType::kGeometric; a = r.u(0.1, 0.9); break; case 3: t = DistributionType::kBernoulli; a = r.u(0.1, 0.9); break; default: t = DistributionType::kBinomial; a = r.u(0.1, 0.9); b = r.i(1, 15); }
  s += vm::fmt(" %c(%.17g,%.17g,%g,%g)", (char)t, a, b, c, e); return DistributionBase::GetDistributionFromType(t, a, b, c, e);
}
static void rndComp(Rng &r, Comp &c, int kind, int max = 5) { int n = max == 5 && r.b(0.05) ? r.i(6, 12) : r.i(1, max); bool unit = r.b(); double t = 0; for (int i = 0; i < n; i++) { c.own.push_back(oneDist(r, kind == 4 ? r.i(1, 2) : kind, c.s)); c.d.push_back(c.own.back().get()); c.w.push_back(r.u(0.05, 2)); t += c.w[i]; } if (unit) for (double &w : c.w) w /= t; for (double w : c.w) c.s += vm::fmt(" w=%g", w); }
static void mixture(Rng &r) {
  int kind = r.pick({0, 1, 1, 2, 2, 4}); Comp c; rndComp(r, c, kind); const char *s = c.s.c_str(); int n = (int)c.d.size(); double W = 0; for (double w : c.w) W += w; DistributionMixture m(c.w, c.d);
  bool alld = true, allc = true; for (auto d : c.d) (d->IsDiscrete() ? allc : alld) = false; VCHECK(m.pType == (alld ? DistributionMixtureType::kDiscrete : allc ? DistributionMixtureType::kContinuous : DistributionMixtureType::kBoth), "mixture.type", "%s", s);
  double mn = INF, mx = -INF; for (auto d : c.d) mn = std::min(mn, d->GetMinimum()), mx = std::max(mx, d->GetMaximum()); VCHECK(m.GetMinimum() == mn && m.GetMaximum() == mx, "mixture.range", "%s: %g %g", s, m.GetMinimum(), m.GetMaximum());
  for (int i = 0; i < 6; i++) { double x = alld ? r.i(-14, 20) : r.u(-10, 12), F = 0, f = 0; for (int j = 0; j < n; j++) F += c.w[j] * c.d[j]->GetCdf(x) / W, f += c.w[j] * c.d[j]->GetPdfOrPmf(x) / W; double v = m.GetCdf(x); VCHECK(std::fabs(v - F) <= 1e-10, "mixture.cdf", "%s at %g: %.17g, not %.17g", s, x, v, F); if (alld || allc) { v = m.GetPdfOrPmf(x); VCHECK(std::fabs(v - f) <= 1e-10 * (1 + f), "mixture.density", "%s at %g: %.17g, not %.17g", s, x, v, f); double l = m.GetPdfOrPmfLog(x); if (f > 1e-200) VCHECK(std::fabs(l - std::log(f)) <= 1e-8 * (1 + std::fabs(l)), "mixture.log", "%s at %g: %g", s, x, l); } else VCHECK(throws([&] { m.GetPdfOrPmf(x); }), "mixture.both", "%s", s); mon().distinct(s); mon().count("mixture_points"); }
  { double R[5] = {1, 0, 0, 0, 0}; for (int j = 0; j < n; j++) { double u = c.d[j]->GetMean(), v = c.d[j]->GetVariance(), s3 = c.d[j]->GetSkewness() * std::pow(v, 1.5), s4 = (c.d[j]->GetKurtosis() + 3) * v * v, w = c.w[j] / W; R[1] += w * u; R[2] += w * (v + u * u); R[3] += w * (s3 + 3 * u * v + u * u * u); R[4] += w * (s4 + 4 * u * s3 + 6 * u * u * v + u * u * u * u); }
    double u = R[1], v = R[2] - u * u, k3 = R[3] - 3 * u * R[2] + 2 * u * u * u, k4 = R[4] - 4 * u * R[3] + 6 * u * u * R[2] - 3 * u * u * u * u, e[4] = {u, v, k3 / std::pow(v, 1.5), k4 / (v * v) - 3}, g[4], h[2]; m.GetMoments(h[0], h[1]); m.GetMoments(g[0], g[1], g[2], g[3]); double cond = 1 + R[4] / (v * v);
    for (int k = 0; k < 4; k++) VCHECK(std::fabs(g[k] - e[k]) <= 1e-11 * cond * (1 + std::fabs(e[k])), "mixture.moments", "%s: moment %d is %.17g, not %.17g", s, k + 1, g[k], e[k]); for (int k = 0; k < 2; k++) VCHECK(h[k] == g[k], "mixture.moments2", "%s: moment %d is %.17g and %.17g", s, k + 1, h[k], g[k]);
    if (kind == 0) { double z[4]; m.GetMomentsNormal(z[0], z[1], z[2], z[3]); for (int k = 0; k < 4; k++) VCHECK(std::fabs(z[k] - e[k]) <= 1e-11 * cond * (1 + std::fabs(e[k])), "mixture.normal", "%s: moment %d is %.17g, not %.17g", s, k + 1, z[k], e[k]); } mon().count("mixture_moments"); }
  if (alld) { double a = r.b(0.3) ? NAN : r.i(-15, 5), b = r.b(0.3) && !std::isinf(mx) ? NAN : (std::isnan(a) ? mn : a) + r.i(0, 15), lo = std::isnan(a) ? mn : std::max(a, mn), hi = std::isnan(b) ? mx : std::min(b, mx); if (lo <= hi) { double x = a, y = b; int k = m.GetPmfSupportSize(x, y); VCHECK(x == lo && y == hi && k == (int)(hi - lo) + 1, "mixture.support", "%s in %g..%g: %d from %g to %g, not %d from %g to %g", s, a, b, k, x, y, (int)(hi - lo) + 1, lo, hi); bool plot = r.b(), lg = r.b(0.3); int len = plot ? 3 * k : k; Buf X(len, NAN), V(len, NAN); m.GetPmfSupport(X.p, V.p, lg, len, plot, a, b); for (int i = 0; i < k; i++) { int j = plot ? 3 * i + 1 : i; double e = lg ? m.GetPdfOrPmfLog(lo + i) : m.GetPdfOrPmf(lo + i); VCHECK(X.p[j] == lo + i && V.p[j] == e, "mixture.support", "%s at %g: %g %g, not %g", s, lo + i, X.p[j], V.p[j], e); if (plot) VCHECK(X.p[j - 1] == lo + i && X.p[j + 1] == lo + i && V.p[j - 1] == 0 && V.p[j + 1] == 0, "mixture.support", "%s plot", s); } mon().count("mixture_supports"); } }
  else { double x[3], v[3]; VCHECK(throws([&] { m.GetPmfSupport(x, v, false, 3, false, 0, 2); }), "mixture.support", "%s: not all discrete", s); }
  if (r.b(0.05)) { auto w = c.w; int k = r.i(0, n - 1); w[k] = r.b() ? 0 : -w[k]; VCHECK(throws([&] { DistributionMixture q(w, c.d); }), "mixture.weights", "weight %g is accepted", w[k]); w = c.w; w.push_back(1); VCHECK(throws([&] { DistributionMixture q(w, c.d); }), "mixture.sizes", "%zu weights, %zu distributions", w.size(), c.d.size()); VD w0; std::vector<DistributionBase *> d0; VCHECK(throws([&] { DistributionMixture q(w0, d0); }), "mixture.empty", "empty%s", ""); }
}
static void mixSample(Rng &r) {
  Comp c; rndComp(r, c, r.pick({1, 2, 4, 3})); const char *s = c.s.c_str(); DistributionMixture m(c.w, c.d); int n = 4000, nd = (int)c.d.size(), seed = r.i(1, 1000000); Buf x(n, NAN), y(n, NAN); m.GetSample(x.p, n, seed); m.GetSample(y.p, n, seed); double W = 0; for (double w : c.w) W += w;
  for (int i = 0; i < n; i++) VCHECK(x.p[i] == y.p[i], "mixture.seed", "%s: %g %g", s, x.p[i], y.p[i]); auto v = x.vec(); std::sort(v.begin(), v.end()); double ks = 0, at = 0; mon().distinct(std::string("s") + s); mon().count("mixture_samples");
  auto cdf = [&](double z) { double f = 0; for (int j = 0; j < nd; j++) { double g; if (c.d[j]->IsQuantile()) { double lo = 0, hi = 1; for (int k = 0; k < 60; k++) { double mid = (lo + hi) / 2; (c.d[j]->GetQuantile(mid) < z ? lo : hi) = mid; } g = lo; } else g = c.d[j]->GetCdf(z); f += c.w[j] / W * g; } return f; };
  for (int i = 0; i < n; i++) { if (i + 1 < n && v[i + 1] == v[i]) continue; if (nd > 0 && c.d[0]->IsQuantile() && i % 20) continue; double e = std::fabs(cdf(v[i]) - (i + 1.0) / n); if (e > ks) ks = e, at = v[i]; }
  VCHECK(ks * std::sqrt((double)n) <= 3.6, "mixture.sample", "%s: distribution of a sample of %d is not as expected: difference is %g at %g", s, n, ks, at);
}
static VD PR() { VD p = {0.0001, 0.001}; for (int i = 1; i <= 99; i++) p.push_back(i / 100.0); p.push_back(0.999); p.push_back(0.9999); return p; }
static VD rndQ(Rng &r, double sc, double sh) { static VD p = PR(); VD q(103); if (r.b(0.6)) { std::string s; std::unique_ptr<DistributionBase> d; d = oneDist(r, r.i(0, 1), s); for (int i = 0; i < 103; i++) q[i] = sh + sc * d->GetQuantile(p[i]); } else { double a = r.u(-4, 4); for (int i = 0; i < 103; i++) q[i] = sh + sc * (a += r.b(0.1) ? r.u(0.5, 2) : r.u(0.001, 0.2)); } return q; }
static double ecdf(const VD &q, double x) { static VD p = PR(); if (x <= q[0]) return std::max(0.0, p[0] + (x - q[0]) * (p[1] - p[0]) / (q[1] - q[0])); if (x >= q[102]) return std::min(1.0, p[102] + (x - q[102]) * (p[102] - p[101]) / (q[102] - q[101])); int i = (int)(std::upper_bound(q.begin(), q.end(), x) - q.begin()) - 1; return p[i] + (p[i + 1] - p[i]) * (x - q[i]) / (q[i + 1] - q[i]); }
static double equant(const VD &q, double t) { static VD p = PR(); if (t <= p[0]) return q[0] + (t - p[0]) * (q[1] - q[0]) / (p[1] - p[0]); if (t >= p[102]) return q[102] + (t - p[102]) * (q[102] - q[101]) / (p[102] - p[101]); int i = (int)(std::upper_bound(p.begin(), p.end(), t) - p.begin()) - 1; return q[i] + (q[i + 1] - q[i]) * (t - p[i]) / (p[i + 1] - p[i]); }
static void empirical(Rng &r) {
  double sc = std::exp(r.u(-8, 8)), sh = r.b() ? 0 : sc * r.u(-5, 5); VD q = rndQ(r, sc, sh); Buf b(q); DistributionEmpirical103 e(b.p); double R = q[102] - q[0]; static VD pr = PR();
  for (int i = 0; i < 8; i++) { double x = r.b(0.3) ? q[r.i(0, 102)] : r.b(0.15) ? (r.b() ? q[0] - R * r.u(0, 1e-4) : q[102] + R * r.u(0, 1e-4)) : q[0] + R * r.u(), c = e.GetCDFApprox(x), f = ecdf(q, x); VCHECK(std::fabs(c - f) <= 1e-9, "empirical.cdf", "at %.17g: %.17g, not %.17g (in %g..%g)", x, c, f, q[0], q[102]); mon().count("empirical_points"); }
  for (int i = 0; i < 8; i++) { double p = r.b(0.5) ? pr[r.i(0, 102)] : r.b(0.2) ? (r.b() ? r.u(1e-6, 0.01) : 1 - r.u(1e-6, 0.01)) : r.u(0.0001, 0.9999), x = e.GetQuantileApprox(p), f = equant(q, p); VCHECK(std::fabs(x - f) <= 1e-9 * R, "empirical.quantile", "at %.17g: %.17g, not %.17g (in %g..%g)", p, x, f, q[0], q[102]); double c = e.GetCDFApprox(x); VCHECK(std::fabs(c - p) <= 1e-7, "empirical.inverse", "quantile at %.17g is %.17g where the distribution function is %.17g", p, x, c); }
  VCHECK(e.GetCDFApprox(INF) == 1 && e.GetCDFApprox(-INF) == 0 && e.GetQuantileApprox(0) == -INF && e.GetQuantileApprox(1) == INF, "empirical.limits", "%s", "infinite points");
}
static void combine(Rng &r) {
  double sc = r.b(0.5) ? 1 : std::exp(r.u(-8, 10)); int n = r.i(1, 5); std::vector<VD> q; std::vector<std::unique_ptr<Buf>> b; std::vector<DistributionEmpirical103> d; bool eq = r.b(0.4), api = r.b(); VD w; double W = 0; for (int i = 0; i < n; i++) { q.push_back(rndQ(r, sc, sc * r.u(-3, 3))); b.push_back(std::make_unique<Buf>(q[i])); d.push_back(DistributionEmpirical103(b[i]->p)); w.push_back(eq ? 1 : r.u(0.05, 1)); W += w[i]; } for (double &v : w) v /= W;
  Buf out(103, NAN), bw(w); if (api) { auto *v = LDT_CombineDistribution103(nullptr, nullptr, nullptr, nullptr); for (int i = 0; i < n; i++) LDT_CombineDistribution103(v, b[i]->p, nullptr, nullptr); LDT_CombineDistribution103(v, nullptr, eq ? nullptr : bw.p, out.p); LDT_CombineDistribution103(v, nullptr, nullptr, nullptr); } else DistributionEmpirical103::Combine(d, eq ? nullptr : bw.p, out.p);
  VD o = out.vec(); static VD pr = PR(); for (int i = 0; i < n; i++) VCHECK(b[i]->vec() == q[i], "combine.input", "distribution %d is changed", i);
  for (int i = 0; i < 103; i++) { VCHECK(std::isfinite(o[i]) && (i == 0 || o[i] >= o[i - 1] - 1e-6 * sc), "combine.order", "quantile %d of %d distributions (scale %g): %g after %g", i, n, sc, o[i], i ? o[i - 1] : 0); double f = 0; for (int j = 0; j < n; j++) f += w[j] * ecdf(q[j], o[i]); VCHECK(std::fabs(f - pr[i]) <= 1e-9, "combine", "combination of %d distributions (scale %g): distribution function at quantile %g (%g) is %g", n, sc, pr[i], o[i], f); }
  mon().distinct(vm::fmt("c %d %g %g", n, sc, o[0])); mon().count("combinations");
}
static void histogram(Rng &r) {
  int n = r.b(0.1) ? 1 : r.i(2, 60); bool grid = r.b(), nan = r.b(0.3); double sc = std::exp(r.u(-5, 8)), sh = r.b() ? 0 : sc * r.u(-4, 4); VD v(n); for (auto &x : v) x = sh + sc * (grid ? r.i(-4, 6) : r.n()); VD full = v; if (nan) for (int i = r.i(1, 5); i > 0; i--) full.insert(full.begin() + r.i(0, (int)full.size()), NAN);
  VD s = v; std::sort(s.begin(), s.end()); Buf data(full); Matrix<Tv> D(data.p, (Ti)full.size(), 1); double mn = NAN, mx = NAN, step = NAN, iqr = r.b() ? 1.5 : r.u(0.3, 4); int bins = 0, mode = r.i(0, 4);
  if (mode == 0) bins = r.i(1, 20); else if (mode == 1) { bins = r.i(1, 20); mn = s[0] - sc * r.u(-1, 2); mx = std::max(mn + sc * 0.1, s.back() + sc * r.u(-1, 2)); } else if (mode == 2) step = sc * r.u(0.2, 2); else if (mode == 3) { mn = s[0] - sc * r.u(0, 2); if (r.b()) mx = s.back() + sc * r.u(0.1, 1), step = sc * r.u(0.2, 2); }
  std::string in = vm::fmt("mode %d, %d obs. in %g..%g%s, min %g, max %g, bins %d, step %g, iqr %g", mode, n, s[0], s.back(), nan ? " (with NaN)" : "", mn, mx, bins, step, iqr); double mn0 = mn, mx0 = mx; int bins0 = bins; Ti size = Histogram::Compute(true, &D, nullptr, nullptr, bins, mn, mx, iqr, nan, step); in += vm::fmt(" -> min %.17g, max %.17g, bins %d", mn, mx, bins);
  VCHECK(size == bins + 1 && bins >= 1 && mn < mx, "histogram.size", "%s: size %d", in.c_str(), size); if (!std::isnan(mn0)) VCHECK(mn == mn0 || mn0 == mx, "histogram.min", "%s", in.c_str()); if (!std::isnan(mx0)) VCHECK(mx == mx0, "histogram.max", "%s", in.c_str()); if (bins0 > 0 && std::isnan(step)) VCHECK(bins == bins0, "histogram.bins", "%s", in.c_str());
  if (bins > 100000) throw Skip(); Buf ax(size, NAN); std::unique_ptr<Ti[]> cn(new Ti[size + 1]); for (int i = 0; i <= size; i++) cn[i] = -7; Matrix<Tv> A(ax.p, size, 1); Matrix<Ti> C(cn.get(), size + 1, 1); Ti L = Histogram::Compute(false, &D, &A, &C, bins, mn, mx, iqr, nan, step); VCHECK(L == n, "histogram.length", "%s: %d", in.c_str(), L);
  double st = std::isnan(step) ? (mx - mn) / bins : step, tol = 1e-9 * (std::fabs(mn) + std::fabs(mx) + st); for (int i = 0; i < size; i++) VCHECK(std::fabs(ax.p[i] - (mn + i * st)) <= tol, "histogram.axis", "%s: point %d is %.17g, not %.17g", in.c_str(), i, ax.p[i], mn + i * st); if (std::isnan(step) || true) VCHECK(ax.p[size - 1] >= mx - (std::isnan(step) ? 0 : tol), "histogram.cover", "%s: last point %.17g", in.c_str(), ax.p[size - 1]);
  std::vector<int> e(size + 1, 0); for (double x : v) { int p = 0; while (p < size && x >= ax.p[p]) p++; if (p == size && x == ax.p[size - 1]) p = size - 1; e[p]++; } int tot = 0; for (int i = 0; i <= size; i++) { tot += cn[i]; VCHECK(cn[i] == e[i], "histogram.count", "%s: count %d is %d, not %d", in.c_str(), i, cn[i], e[i]); } VCHECK(tot == n, "histogram.total", "%s: %d", in.c_str(), tot); mon().distinct(in); mon().count("histograms");
  { int k = r.i(1, 8); VD a(k); for (auto &x : a) x = r.b(0.5) ? s[r.i(0, n - 1)] : sh + sc * r.n(); std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); k = (int)a.size(); Buf b2(full), ab(a); Matrix<Tv> D2(b2.p, (Ti)full.size(), 1), A2(ab.p, k, 1); std::unique_ptr<Ti[]> c2(new Ti[k + 1]); Matrix<Ti> C2(c2.get(), k + 1, 1); VCHECK(Histogram::ComputeV(&D2, &A2, &C2, nan) == n, "histogram.v", "%s", in.c_str()); std::vector<int> e2(k + 1, 0); for (double x : v) { int p = 0; while (p < k && x >= a[p]) p++; if (p == k && x == a[k - 1] && k > 1) p = k - 1; e2[p]++; } if (k > 1) for (int i = 0; i <= k; i++) VCHECK(c2[i] == e2[i], "histogram.v", "%d obs., %d points: count %d is %d, not %d", n, k, i, c2[i], e2[i]); mon().count("variable_histograms"); }
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("gld", 20000, 200000, gldValues);
  m.section("moments", 1500, 15000, gldMoments);
  m.section("fit", 300, 3000, gldFit);
  m.section("mixture", 10000, 100000, mixture);
  m.section("sample", 300, 3000, mixSample);
  m.section("empirical", 10000, 100000, empirical);
  m.section("combine", 400, 4000, combine);
  m.section("histogram", 20000, 200000, histogram);
  return m.done();
}
