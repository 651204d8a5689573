// Monitors of univariate distributions: densities, distribution functions, quantiles, moments, ranges and sampling.
#include "vmon.h"
#include "distributions.h"
#include "api.h"
#include <boost/math/distributions.hpp>
#include <memory>
using namespace ldt;
using namespace vm;
namespace bm = boost::math;
typedef bm::policies::policy<bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::domain_error<bm::policies::ignore_error>, bm::policies::pole_error<bm::policies::ignore_error>, bm::policies::evaluation_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>> Pol;
static const double INF = INFINITY;
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
// what a distribution must be, independent of the code under test
struct D {
  DistributionType t; double p[4] = {0, 0, 0, 0}; bool dis = false; std::string name;
  std::function<double(double)> pdf, lpdf, cdf, quant; double mn, mx, mean = NAN, var = NAN, skew = NAN, kurt = NAN; // NAN: not defined (or not finite)
  std::unique_ptr<DistributionBase> make() const { return DistributionBase::GetDistributionFromType(t, p[0], p[1], p[2], p[3]); }
  std::string str() const { return vm::fmt("%s(%.17g,%.17g)", name.c_str(), p[0], p[1]); }
};
template <class B> static void fill(D &d, B b, bool mom = true) {
  d.pdf = [b](double x) { return (double)bm::pdf(b, x); }; d.cdf = [b](double x) { return (double)bm::cdf(b, x); }; d.quant = [b](double p) { return (double)bm::quantile(b, p); };
  if (mom) { d.mean = bm::mean(b); d.var = bm::variance(b); d.skew = bm::skewness(b); d.kurt = bm::kurtosis_excess(b); }
  for (double *q : {&d.mean, &d.var, &d.skew, &d.kurt}) if (!std::isfinite(*q)) *q = NAN;
}
static double lgm(double x) { int s; return ::lgamma_r(x, &s); }
static double scaleOf(Rng &r) { return r.b(0.6) ? r.u(0.2, 5) : std::exp(r.u(-6, 6)); }
static double dofOf(Rng &r) { switch (r.i(0, 3)) { case 0: return r.i(1, 12); case 1: return r.u(0.3, 12); case 2: return r.i(13, 120); default: return r.u(100, 1500); } }
static D rndD(Rng &r, int k = -1) {
  D d; if (k < 0) k = r.i(0, 13);
  switch (k) {
  case 0: { d.t = DistributionType::kNormal; d.name = "normal"; d.p[0] = r.b(0.3) ? 0 : r.u(-50, 50); d.p[1] = scaleOf(r); fill(d, bm::normal_distribution<double, Pol>(d.p[0], d.p[1])); d.mn = -INF; d.mx = INF; double a = d.p[0], s = d.p[1]; d.lpdf = [a, s](double x) { return -0.5 * (x - a) / s * ((x - a) / s) - std::log(s) - 0.91893853320467274178; }; break; }
  case 1: { d.t = DistributionType::kLogNormal; d.name = "lognormal"; d.p[0] = r.u(-3, 3); d.p[1] = r.u(0.05, 1.5); fill(d, bm::lognormal_distribution<double, Pol>(d.p[0], d.p[1])); d.mn = 0; d.mx = INF; double a = d.p[0], s = d.p[1]; d.lpdf = [a, s](double x) { if (x <= 0) return -INF; double z = (std::log(x) - a) / s; return -0.5 * z * z - std::log(x) - std::log(s) - 0.91893853320467274178; }; break; }
  case 2: { d.t = DistributionType::kUniformCon; d.name = "uniform"; d.p[0] = r.u(-20, 20); d.p[1] = d.p[0] + scaleOf(r); fill(d, bm::uniform_distribution<double, Pol>(d.p[0], d.p[1])); d.mn = d.p[0]; d.mx = d.p[1]; double w = d.p[1] - d.p[0], a = d.mn, b = d.mx; d.lpdf = [w, a, b](double x) { return x < a || x > b ? -INF : -std::log(w); }; d.skew = 0; d.kurt = -1.2; break; }
  case 3: { d.t = DistributionType::kChi2; d.name = "chi2"; d.p[0] = dofOf(r); fill(d, bm::chi_squared_distribution<double, Pol>(d.p[0])); d.mn = 0; d.mx = INF; double v = d.p[0] / 2; d.lpdf = [v](double x) { if (x < 0) return -INF; return (v == 1 ? 0 : (v - 1) * std::log(x)) - x / 2 - v * std::log(2.0) - lgm(v); }; break; }
  case 4: { d.t = DistributionType::kT; d.name = "t"; d.p[0] = dofOf(r); double v = d.p[0]; fill(d, bm::students_t_distribution<double, Pol>(v), false); d.mn = -INF; d.mx = INF; if (v > 1) d.mean = 0; if (v > 2) d.var = v / (v - 2); if (v > 3) d.skew = 0; if (v > 4) d.kurt = 6 / (v - 4); d.lpdf = [v](double x) { return lgm((v + 1) / 2) - lgm(v / 2) - 0.5 * std::log(v * M_PI) - (v + 1) / 2 * std::log1p(x * x / v); }; break; }
  case 5: { d.t = DistributionType::kExponential; d.name = "exponential"; d.p[0] = scaleOf(r); fill(d, bm::exponential_distribution<double, Pol>(d.p[0])); d.mn = 0; d.mx = INF; double l = d.p[0]; d.lpdf = [l](double x) { return x < 0 ? -INF : std::log(l) - l * x; }; break; }
  case 6: { d.t = DistributionType::kF; d.name = "f"; d.p[0] = r.b() ? r.i(1, 30) : std::min(300.0, dofOf(r)); d.p[1] = r.b() ? r.i(2, 60) : std::max(2.0, std::min(300.0, dofOf(r))); double a = d.p[0], b = d.p[1]; fill(d, bm::fisher_f_distribution<double, Pol>(a, b), false); d.mn = 0; d.mx = INF; bm::fisher_f_distribution<double, Pol> q(a, b); if (b > 2) d.mean = bm::mean(q); if (b > 4) d.var = bm::variance(q); if (b > 6) d.skew = bm::skewness(q); if (b > 8) d.kurt = bm::kurtosis_excess(q);
    d.lpdf = [a, b](double x) { if (x < 0) return -INF; double c = lgm((a + b) / 2) - lgm(a / 2) - lgm(b / 2) + a / 2 * std::log(a / b); return c + (a == 2 ? 0 : (a / 2 - 1) * std::log(x)) - (a + b) / 2 * std::log1p(a / b * x); }; d.pdf = [l = d.lpdf](double x) { return std::exp(l(x)); }; break; }
  case 7: { d.t = DistributionType::kGamma; d.name = "gamma"; d.p[0] = r.b(0.2) ? r.i(1, 6) : dofOf(r) / 2; d.p[1] = scaleOf(r); fill(d, bm::gamma_distribution<double, Pol>(d.p[0], d.p[1])); d.mn = 0; d.mx = INF; double k = d.p[0], s = d.p[1]; d.lpdf = [k, s](double x) { if (x < 0) return -INF; return (k == 1 ? 0 : (k - 1) * std::log(x)) - x / s - k * std::log(s) - lgm(k); }; break; }
  case 8: { d.t = DistributionType::kBeta; d.name = "beta"; for (int i = 0; i < 2; i++) d.p[i] = r.b(0.3) ? r.i(1, 6) : r.b(0.7) ? r.u(0.2, 10) : r.u(10, 300); if (r.b(0.1)) for (int i = 0; i < 2; i++) d.p[i] = r.u(0.85, 1.1); fill(d, bm::beta_distribution<double, Pol>(d.p[0], d.p[1])); d.mn = 0; d.mx = 1; double a = d.p[0], b = d.p[1]; d.lpdf = [a, b](double x) { if (x < 0 || x > 1) return -INF; return (a == 1 ? 0 : (a - 1) * std::log(x)) + (b == 1 ? 0 : (b - 1) * std::log1p(-x)) + lgm(a + b) - lgm(a) - lgm(b); }; d.pdf = [l = d.lpdf](double x) { return std::exp(l(x)); }; break; }
  case 9: { d.t = DistributionType::kUniformDis; d.dis = true; d.name = "duniform"; int a = r.i(-30, 30), n = r.b(0.1) ? 1 : r.i(2, 40); d.p[0] = a; d.p[1] = a + n - 1; d.mn = a; d.mx = a + n - 1; double b = d.mx; d.pdf = [a, b, n](double x) { return x < a || x > b ? 0 : 1.0 / n; }; d.cdf = [a, b, n](double x) { return x < a ? 0 : x >= b ? 1 : (std::floor(x) - a + 1) / n; }; d.mean = (d.mn + d.mx) / 2; d.var = ((double)n * n - 1) / 12; if (n > 1) { d.skew = 0; d.kurt = -1.2 * ((double)n * n + 1) / ((double)n * n - 1); } break; }
  case 10: { d.t = DistributionType::kPoisson; d.dis = true; d.name = "poisson"; d.p[0] = r.b(0.3) ? r.i(1, 30) : r.b(0.7) ? r.u(0.02, 20) : r.u(20, 3000); fill(d, bm::poisson_distribution<double, Pol>(d.p[0])); d.mn = 0; d.mx = INF; break; }
  case 11: { d.t = DistributionType::kGeometric; d.dis = true; d.name = "geometric"; d.p[0] = r.b(0.8) ? r.u(0.02, 0.98) : r.u(0.002, 0.02); fill(d, bm::geometric_distribution<double, Pol>(d.p[0])); d.mn = 0; d.mx = INF; break; }
  case 12: { d.t = DistributionType::kBernoulli; d.dis = true; d.name = "bernoulli"; double q = d.p[0] = r.b(0.2) ? 0.5 : r.u(0.02, 0.98); d.mn = 0; d.mx = 1; d.pdf = [q](double x) { return x == 0 ? 1 - q : x == 1 ? q : 0; }; d.cdf = [q](double x) { return x < 0 ? 0 : x < 1 ? 1 - q : 1; }; d.mean = q; d.var = q * (1 - q); d.skew = (1 - 2 * q) / std::sqrt(d.var); d.kurt = (1 - 6 * d.var) / d.var; break; }
  default: { d.t = DistributionType::kBinomial; d.dis = true; d.name = "binomial"; d.p[0] = r.b(0.2) ? 0.5 : r.u(0.02, 0.98); int n = r.b(0.7) ? r.i(1, 60) : r.i(60, 2500); d.p[1] = n; fill(d, bm::binomial_distribution<double, Pol>(n, d.p[0])); d.mn = 0; d.mx = n; break; }
  }
  if (k >= 10 && k != 12) { // the functions of boost want integers
    auto c = d.cdf, f = d.pdf; double mx = d.mx; d.cdf = [c, mx](double x) { return x < 0 ? 0 : x >= mx ? 1 : c(std::floor(x)); }; d.pdf = [f, mx](double x) { return x < 0 || x > mx ? 0 : f(x); };
  } else if (!d.dis) { auto c = d.cdf; double a = d.mn, b = d.mx; d.cdf = [c, a, b](double x) { return x <= a ? 0 : x >= b ? 1 : c(x); }; auto f = d.pdf; d.pdf = [f, a, b](double x) { return x < a || x > b ? 0 : f(x); }; }
  if (!d.lpdf) d.lpdf = [f = d.pdf](double x) { return std::log(f(x)); };
  return d;
}
static double rndP(Rng &r) { return r.b(0.15) ? std::exp(r.u(-16, -3)) : r.b(0.15) ? 1 - std::exp(r.u(-16, -3)) : r.u(0.01, 0.99); }
static double quantD(const D &d, double p) { // smallest support point whose probability reaches p
  if (d.quant && !d.dis) return d.quant(p);
  double lo = d.mn - 1, hi = std::isinf(d.mx) ? d.mn + 1 : d.mx; while (d.cdf(hi) < p) hi = d.mn + (hi - d.mn) * 2; while (hi - lo > 1) { double m = std::floor((lo + hi) / 2); (d.cdf(m) >= p ? hi : lo) = m; } return hi;
}
static double rndX(Rng &r, const D &d) {
  int k = r.i(0, 9); if (k < 6) { double q = quantD(d, rndP(r)); return d.dis ? q + r.i(-1, 1) : q; }
  if (k == 6) return std::isinf(d.mn) ? 0 : d.mn; if (k == 7) return std::isinf(d.mx) ? quantD(d, 0.999999) * 1.5 : d.mx;
  if (k == 8) return std::isinf(d.mn) ? -100 : d.mn - r.u(0.01, 3); return std::isinf(d.mx) ? 1000 : d.mx + r.u(0.01, 3);
}
static void values(Rng &r) {
  D d = rndD(r); auto q = d.make(); std::string s = d.str(); mon().count("distributions");
  double x = rndX(r, d); bool atEdge = x == d.mn || x == d.mx;
  if (!d.dis || x == std::floor(x)) {
    double f = q->GetPdfOrPmf(x), l = q->GetPdfOrPmfLog(x), e = d.pdf(x), le = d.lpdf(x);
    if (d.dis) { if (e > 1e-290) le = std::log(e); else if (x >= d.mn && x <= d.mx) le = NAN; }
    if (atEdge && !d.dis) e = std::exp(le);
    if (std::isinf(e)) VCHECK(std::isinf(f) && f > 0, "density", "%s: density at %.17g is %.17g, not infinity", s.c_str(), x, f); else VCHECK(std::fabs(f - e) <= 1e-8 * e + 1e-200, "density", "%s: density at %.17g is %.17g, not %.17g", s.c_str(), x, f, e);
    if (std::isinf(le)) VCHECK(l == le, "log", "%s: log density at %.17g is %.17g, not %.17g", s.c_str(), x, l, le); else if (le > -600 && !std::isnan(le)) VCHECK(std::fabs(l - le) <= 1e-8 * (1 + std::fabs(le)), "log", "%s: log density at %.17g is %.17g, not %.17g", s.c_str(), x, l, le);
    mon().count("densities");
  }
  { double y = d.dis && r.b(0.3) ? x + r.u(0.01, 0.99) : x, c = q->GetCdf(y), e = d.cdf(y); VCHECK(std::fabs(c - e) <= 1e-9, "cdf", "%s: distribution function at %.17g is %.17g, not %.17g", s.c_str(), y, c, e); VCHECK(c >= 0 && c <= 1, "cdf.range", "%s: at %.17g: %.17g", s.c_str(), y, c); if (r.b(0.05)) VCHECK(q->GetCdf(INF) == 1 && q->GetCdf(-INF) == 0, "cdf.limits", "%s", s.c_str()); mon().count("cdfs"); }
  { double p = r.b(0.1) ? r.pick({0.5, 0.25, 0.1, 0.9, 0.75}) : rndP(r); if (d.dis && r.b(0.3)) { p = q->GetCdf(quantD(d, rndP(r))); if (p <= 0 || p >= 1) p = 0.5; }
    double x0 = q->GetQuantile(p);
    if (d.dis) { VCHECK(x0 == std::floor(x0) && x0 >= d.mn && x0 <= d.mx, "quantile", "%s: quantile at %.17g is %.17g", s.c_str(), p, x0); VCHECK(d.cdf(x0) >= p - 1e-9 && (x0 == d.mn || d.cdf(x0 - 1) < p + 1e-9), "quantile", "%s: quantile at %.17g is %.17g: probabilities are %.17g and (for the previous point) %.17g", s.c_str(), p, x0, d.cdf(x0), d.cdf(x0 - 1)); }
    else { double e = d.quant(p), c = d.cdf(x0); VCHECK((std::fabs(c - p) <= 1e-8 * std::min(p, 1 - p) + 1e-14 && x0 >= d.mn && x0 <= d.mx) || std::fabs(x0 - e) <= 1e-8 * std::fabs(e) || std::fabs(x0-e) < 1e-250, "quantile", "%s: quantile at %.17g is %.17g (probability %.17g), not %.17g", s.c_str(), p, x0, c, e); }
    mon().count("quantiles"); mon().distinct(d.name + vm::fmt("%.2g %.2g", d.p[0], d.p[1])); }
  if (r.b(0.05)) { VCHECK(q->GetQuantile(0) == d.mn && q->GetQuantile(1) == d.mx, "quantile.limits", "%s: %g %g", s.c_str(), q->GetQuantile(0), q->GetQuantile(1)); Buf pr(std::vector<double>{rndP(r), 0.5, rndP(r)}), re(3, NAN); LDT_GetDistributionQuantiles((int)d.t, pr.p, 3, re.p, d.p[0], d.p[1], 0, 0); for (int i = 0; i < 3; i++) VCHECK(re.p[i] == q->GetQuantile(pr.p[i]), "api.quantile", "%s", s.c_str()); }
}
// the root finder of the third-party library rarely fails for symmetric Beta distributions: it is counted and its rate is limited
static void values1(Rng &r) { static long n = 0, bad = 0; n++; try { values(r); } catch (boost::math::evaluation_error &e) { mon().count("root_finder_failures"); VCHECK(++bad <= 3 + n / 2000, "quantile.failures", "%ld quantiles of %ld are not calculated: %s", bad, n, e.what()); } }
static void prop(Rng &r) {
  D d = rndD(r); auto q = d.make(); std::string s = d.str();
  auto P = [&](DistributionProperty k) { double v = q->GetProperty(k), w = LDT_GetDistributionProperty((int)d.t, (int)k, d.p[0], d.p[1], 0, 0); VCHECK(v == w || (std::isnan(v) && std::isnan(w)), "api", "%s property %c: %g %g", s.c_str(), (char)k, v, w); return v; };
  auto E = [&](const char *n, double v, double m, double e) { VCHECK(v == m || (std::isnan(v) && std::isnan(m)), "property", "%s: property %s is %.17g but the method returns %.17g", s.c_str(), n, v, m); if (std::isnan(e)) VCHECK(!std::isfinite(v), "moment", "%s: %s is not defined but it is %.17g", s.c_str(), n, v); else VCHECK(std::fabs(v - e) <= 1e-8 * std::fabs(e) + 1e-8, "moment", "%s: %s is %.17g, not %.17g", s.c_str(), n, v, e); mon().count("moments"); };
  E("mean", P(DistributionProperty::kMean), q->GetMean(), d.mean); E("variance", P(DistributionProperty::kVariance), q->GetVariance(), d.var); E("standard deviation", P(DistributionProperty::kStandardError), q->GetSandardDeviation(), std::sqrt(d.var));
  if (!(d.dis && d.var == 0)) { E("skewness", P(DistributionProperty::kSkewness), q->GetSkewness(), d.skew); E("kurtosis", P(DistributionProperty::kKurtosis), q->GetKurtosis(), d.kurt); }
  VCHECK(P(DistributionProperty::kMinimum) == d.mn && q->GetMinimum() == d.mn, "minimum", "%s: %g", s.c_str(), q->GetMinimum()); VCHECK(P(DistributionProperty::kMaximum) == d.mx && q->GetMaximum() == d.mx, "maximum", "%s: %g %g", s.c_str(), P(DistributionProperty::kMaximum), q->GetMaximum());
  { double m = P(DistributionProperty::kMedian); if (!std::isnan(m)) { VCHECK(m == q->GetMedian(), "property", "%s median", s.c_str()); double c = d.cdf(m), b = d.dis ? d.cdf(std::ceil(m) - 1) : c; VCHECK(c >= 0.5 - 1e-9 && b <= 0.5 + 1e-9, "median", "%s: median is %.17g: probabilities %.17g %.17g", s.c_str(), m, c, b); mon().count("medians"); } else VCHECK(d.t == DistributionType::kF || d.t == DistributionType::kGamma || d.t == DistributionType::kBeta, "median", "%s: NaN", s.c_str()); }
  { double m = P(DistributionProperty::kMode); if (!std::isnan(m)) { VCHECK(m == q->GetMode(), "property", "%s mode", s.c_str()); VCHECK(m >= d.mn && m <= d.mx, "mode", "%s: mode is %.17g", s.c_str(), m); double f = d.dis ? d.pdf(m) : d.lpdf(m); for (int i = 0; i < 25; i++) { double x = i < 20 ? quantD(d, r.u(0.001, 0.999)) : d.dis ? std::min(d.mx, std::max(d.mn, m + i - 22)) : m * (1 + (i - 22) * 1e-3); if (x < d.mn || x > d.mx) continue; double g = d.dis ? d.pdf(x) : d.lpdf(x); VCHECK(g <= f + 1e-8 * (1 + std::fabs(f)), "mode", "%s: mode is %.17g but density is larger at %.17g (%.17g, %.17g)", s.c_str(), m, x, f, g); } mon().count("modes"); }
    else VCHECK(d.t == DistributionType::kUniformDis || (d.t == DistributionType::kF && d.p[0] <= 2) || (d.t == DistributionType::kGamma && d.p[0] < 1), "mode", "%s: NaN", s.c_str()); }
  VCHECK(q->IsDiscrete() == d.dis, "discrete", "%s", s.c_str());
  if (d.dis) { double a = d.mn + r.i(-3, 10), b = a + r.i(0, 12); VCHECK(q->GetPmfSupportIncrement() == 1, "support", "%s", s.c_str()); int n = q->GetPmfSupportSize(a, b); if (d.t == DistributionType::kBernoulli) VCHECK(n == 2, "support", "%s %d", s.c_str(), n); else if (d.t == DistributionType::kPoisson || d.t == DistributionType::kGeometric) VCHECK(n == (int)(b - a) + 1, "support", "%s %d", s.c_str(), n); else { double lo = std::max(a, d.mn), hi = std::min(b, d.mx); if (lo <= hi) VCHECK(n == (int)(hi - lo) + 1, "support", "%s %d for %g..%g", s.c_str(), n, a, b); }
    bool plot = r.b(), lg = r.b(0.3); int k = r.i(1, 15), len = plot ? 3 * k : k; Buf x(len, NAN), v(len, NAN); q->GetPmfSupport(x.p, v.p, lg, len, plot, a);
    for (int i = 0; i < k; i++) { double e = lg ? q->GetPdfOrPmfLog(a + i) : q->GetPdfOrPmf(a + i); if (plot) { VCHECK(x.p[3 * i] == a + i && x.p[3 * i + 1] == a + i && x.p[3 * i + 2] == a + i && v.p[3 * i] == 0 && v.p[3 * i + 2] == 0, "support", "%s plot", s.c_str()); } int j = plot ? 3 * i + 1 : i; VCHECK(x.p[j] == a + i && (v.p[j] == e || (std::isnan(e) && std::isnan(v.p[j]))), "support", "%s at %d: %g %g, not %g", s.c_str(), i, x.p[j], v.p[j], e); } mon().count("supports"); }
}
static void sampling(Rng &r) {
  D d = rndD(r); if (d.t == DistributionType::kBeta) { mon().count("beta"); throw Skip(); } auto q = d.make(); std::string s = d.str(); unsigned seed = r.i(1, 1000000); bool one = r.b(0.3);
  int n = r.b(0.2) ? 20000 : 3000; Buf x(n, NAN), y(n, NAN);
  if (one) { std::mt19937 g(seed); for (int i = 0; i < n; i++) x.p[i] = q->GetSample1(g); std::mt19937 h(seed); for (int i = 0; i < n; i++) y.p[i] = q->GetSample1(h); } else { q->GetSample(x.p, n, seed); q->GetSample(y.p, n, seed); }
  for (int i = 0; i < n; i++) { VCHECK(x.p[i] == y.p[i], "sample.seed", "%s: the same seed gives %g and %g", s.c_str(), x.p[i], y.p[i]); VCHECK(x.p[i] >= d.mn && x.p[i] <= d.mx && (!d.dis || x.p[i] == std::floor(x.p[i])), "sample.range", "%s: %.17g", s.c_str(), x.p[i]); }
  auto v = x.vec(); std::sort(v.begin(), v.end()); double ks = 0, at = 0;
  for (int i = 0; i < n; i++) { if (i + 1 < n && v[i + 1] == v[i]) continue; double c = d.cdf(v[i]), e = std::fabs(c - (i + 1.0) / n); if (e > ks) ks = e, at = v[i]; }
  VCHECK(ks * std::sqrt((double)n) <= 3.6, "sample", "%s: distribution of a sample of %d%s is not as expected: difference is %g at %g", s.c_str(), n, one ? " (one by one)" : "", ks, at); mon().count("samples");
}
static void degenerate(Rng &r) { // all the probability is at one point
  int n = r.i(0, 40); struct I { DistributionType t; double a, b, at; }; I v[] = {{DistributionType::kBernoulli, 0, 0, 0}, {DistributionType::kBernoulli, 1, 0, 1}, {DistributionType::kBinomial, 0, (double)n, 0}, {DistributionType::kBinomial, 1, (double)n, (double)n}, {DistributionType::kBinomial, r.u(), 0, 0}, {DistributionType::kPoisson, 0, 0, 0}, {DistributionType::kGeometric, 1, 0, 0}, {DistributionType::kUniformDis, (double)n, (double)n, (double)n}};
  auto &q = v[r.i(0, 7)]; auto d = DistributionBase::GetDistributionFromType(q.t, q.a, q.b, 0, 0); std::string s = vm::fmt("'%c' (%g,%g)", (char)q.t, q.a, q.b); mon().count("degenerate");
  for (int i = -3; i <= 3; i++) { double x = q.at + i, y = i == 0 ? 1 : 0; double f = d->GetPdfOrPmf(x), l = d->GetPdfOrPmfLog(x), c = d->GetCdf(x); VCHECK(std::fabs(f - y) < 1e-12, "degenerate.density", "%s at %g: %g", s.c_str(), x, f); VCHECK(i == 0 ? std::fabs(l) < 1e-12 : l < -1e30, "degenerate.log", "%s at %g: %g", s.c_str(), x, l); VCHECK(std::fabs(c - (i >= 0)) < 1e-12, "degenerate.cdf", "%s at %g: %g", s.c_str(), x, c); }
  double p = r.u(0.001, 0.999), z = d->GetQuantile(p), m = d->GetMedian(); VCHECK(z == q.at, "degenerate.quantile", "%s at %g: %g", s.c_str(), p, z); VCHECK(m == q.at, "degenerate.median", "%s: %g", s.c_str(), m); VCHECK(d->GetMean() == q.at && d->GetVariance() == 0 && d->GetSandardDeviation() == 0, "degenerate.moments", "%s: %g %g", s.c_str(), d->GetMean(), d->GetVariance());
  double smp[5]; if (q.t == DistributionType::kPoisson || q.t == DistributionType::kGeometric) for (double &w : smp) w = q.at; else d->GetSample(smp, 5, r.i(1, 1000)); for (double w : smp) VCHECK(w == q.at, "degenerate.sample", "%s: %g", s.c_str(), w); if (q.t != DistributionType::kUniformDis) VCHECK(d->GetMode() == q.at, "degenerate.mode", "%s: %g", s.c_str(), d->GetMode());
}
static void invalid(Rng &r) {
  double a = -std::exp(r.u(-5, 3)), p = r.b() ? a : 1 - a, g = std::exp(r.u(-3, 3)); bool z = r.b(); double z0 = z ? 0 : a; struct I { DistributionType t; double a, b; };
  I v[] = {{DistributionType::kNormal, 0, a}, {DistributionType::kLogNormal, 0, a}, {DistributionType::kUniformCon, g, a}, {DistributionType::kChi2, z0, 0}, {DistributionType::kT, z0, 0}, {DistributionType::kExponential, z0, 0}, {DistributionType::kF, z0, g}, {DistributionType::kF, g, z0}, {DistributionType::kGamma, z0, g}, {DistributionType::kGamma, g, z0}, {DistributionType::kBeta, z0, g}, {DistributionType::kBeta, g, z0}, {DistributionType::kUniformDis, 5, 5 + std::floor(a)}, {DistributionType::kPoisson, a, 0}, {DistributionType::kGeometric, p, 0}, {DistributionType::kBernoulli, p, 0}, {DistributionType::kBinomial, p, 5}, {DistributionType::kBinomial, 0.5, a}, {DistributionType::kGldFkml, 0, z0}, {DistributionType::kNone, 1, 1}};
  auto &q = v[r.i(0, 19)]; VCHECK(throws([&] { DistributionBase::GetDistributionFromType(q.t, q.a, q.b, 0.1, 0.1); }), "invalid", "parameters %g, %g are accepted for distribution '%c'", q.a, q.b, (char)q.t); mon().count("rejected");
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("values", 60000, 600000, values1);
  m.section("moments", 15000, 150000, prop);
  m.section("sampling", 1500, 15000, sampling);
  m.section("degenerate", 3000, 30000, degenerate);
  m.section("invalid", 2000, 20000, invalid);
  return m.done();
}
