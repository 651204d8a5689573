// Monitors of principal components: decomposition, selection of components, and models on components.
#include "ldtm.h"
#include "pca.h"
#include "sur.h"
#include "discrete_choice.h"
#include "varma.h"
typedef long double LD;
using ref::M;
using vm::str;
typedef std::vector<double> VD;
static M cols(const M &a, int s, int n) { M o(a.r, n); for (int j = 0; j < n; j++) for (int i = 0; i < a.r; i++) o(i, j) = a(i, s + j); return o; }
struct Ref { M X, F, ev; int k = 0; std::vector<int> removed; VD sd; }; // standardized data, forecasts, variances
static Ref standard(const M &x, const M &f, bool center, bool scale, bool zero) {
  Ref o; std::vector<int> keep; VD mu, sd; for (int j = 0; j < x.c; j++) { LD m = 0, s = 0; for (int i = 0; i < x.r; i++) m += x(i, j); m /= x.r; for (int i = 0; i < x.r; i++) s += (x(i, j) - m) * (x(i, j) - m); s = sqrtl(s / (x.r - 1)); bool con = true; for (int i = 1; i < x.r; i++) con &= x(i, j) == x(0, j); if (con) s = 0; mu.push_back((double)m); sd.push_back((double)s); if (zero && scale && s == 0) o.removed.push_back(j); else keep.push_back(j); }
  o.k = keep.size(); o.X = M(x.r, o.k); o.F = M(f.r, o.k); for (int q = 0; q < o.k; q++) { int j = keep[q]; LD m = 0; for (int i = 0; i < x.r; i++) m += x(i, j); m /= x.r; LD s = sd[j]; auto st = [&](LD v) { if (center) v -= m; if (scale && s > 0) v /= s; return v; }; for (int i = 0; i < x.r; i++) o.X(i, q) = st(x(i, j)); for (int i = 0; i < f.r; i++) o.F(i, q) = st(f(i, j)); } return o;
}
static M rndX(Rng &r, int n, int k, bool con) { int f = r.i(1, k); M x = rnd(r, n, f) * rnd(r, f, k) + rnd(r, n, k, r.pick({0.1, 1.0, 3.0})); for (int j = 0; j < k; j++) { LD s = r.b(0.3) ? r.pick({10.0, 0.1}) : 1, m = r.b() ? r.i(-5, 5) : 0; for (int i = 0; i < n; i++) x(i, j) = (double)(x(i, j) * s + m); if (con && r.b(0.25)) for (int i = 0; i < n; i++) x(i, j) = m; } return x; }
// cumulative ratios and rates without rounding: a cumulative ratio that equals the rate does not exceed it
static void cutoff(Rng &r) {
  int k = r.b(0.1) ? r.i(9, 16) : r.i(1, 8), left = 64; Buf b(k, 0); for (int i = 0; i < k; i++) { int v = i == k - 1 ? left : r.i(0, left); b.p[i] = v / 64.0; left -= v; } std::sort(b.p, b.p + k, std::greater<double>()); PcaAnalysis p(k + 1, k, 0, false, false, false, false); p.Stds2Ratios.SetData(b.p, k, 1);
  for (int c = 1; c < 128; c++) { double rate = c / 128.0, cum = 0; int want = 0; for (int i = 0; i < k && !want; i++) { cum += b.p[i]; if (cum > rate) want = i + 1; } VCHECK(p.GetCutoffColumn(rate) == want, "pca.cutoff.exact", "rate %g of ratios %s: %d components of %d", rate, str(b.vec()).c_str(), p.GetCutoffColumn(rate), want); mon().count("cutoffs_exact"); }
}
static void pca(Rng &r) {
  int n = r.b(0.2) ? r.i(2, 4) : r.b(0.06) ? r.i(21, 80) : r.i(4, 20), k = r.b(0.06) ? r.i(7, 14) : r.i(1, 6), nf = r.b() ? r.i(1, 5) : 0; bool center = r.b(0.8), scale = r.b(0.7), zero = r.b(0.7), pcs = r.b(0.9); M x = rndX(r, n, k, zero && scale && r.b(0.3)), f = rnd(r, nf, k, 2); std::string at = fmt("%dx%d forecasts %d center %d scale %d zero %d components %d", n, k, nf, center, scale, zero, pcs); mon().note(at); Ref w = standard(x, f, center, scale, zero); if (w.k == 0) throw Skip(); bool z = zero && scale;
  int en = r.b(0.3) ? r.i(0, 3) : 0, ek = r.b(0.3) ? r.i(0, 2) : 0; PcaAnalysis p(n + en, k + ek, nf ? nf + en : 0, pcs, zero, center, scale); double fl = fillOf(r.i(0, 3)); Buf st(p.StorageSize, fl), wk(p.WorkSize, fl); MX mx(x), mf(f); if (r.b(0.2)) { M x0 = rndX(r, n, k, zero && scale && r.b()); MX mx0(x0); bool any = false; for (int j = 0; j < k; j++) for (int i = 1; i < n; i++) any |= x0(i, j) != x0(0, j); if (any) { p.Calculate(mx0.m, wk, st, nf ? &mf.m : nullptr); mon().count("used_again"); } }
  for (int rep = r.b(0.2) ? 2 : 1; rep > 0; rep--) p.Calculate(mx.m, wk, st, nf ? &mf.m : nullptr);
  VSAME(mx.m, x, 0, "pca.input", "%s", at.c_str()); if (z) VCHECK(p.DataS.RemovedZeroVar.size() == w.removed.size() && std::equal(w.removed.begin(), w.removed.end(), p.DataS.RemovedZeroVar.begin()), "pca.removed", "%s: %zu constant columns of %zu", at.c_str(), p.DataS.RemovedZeroVar.size(), w.removed.size());
  int mn = std::min(n, w.k); M D = toref(p.Directions); VCHECK(D.r == w.k && D.c == w.k && p.Stds.length() == mn && p.Stds2Ratios.length() == mn, "pca.size", "%s directions %dx%d deviations %d", at.c_str(), D.r, D.c, p.Stds.length()); M I = D * D.t(); for (int i = 0; i < w.k; i++) for (int j = 0; j < w.k; j++) VEQ((double)I(i, j), (double)(i == j), "pca.orthonormal", 0, 1e-9, at + fmt(" directions %d and %d", i, j));
  M C = (LD)(1.0L / (n - 1)) * (w.X.t() * w.X); LD tot = 0; for (int i = 0; i < w.k; i++) tot += C(i, i); if (!(tot > 1e-12L)) throw Skip(); LD sum = 0; for (int i = 0; i < mn; i++) { LD v = p.Stds.Data[i] * (LD)p.Stds.Data[i]; VCHECK(p.Stds.Data[i] >= 0 && (i == 0 || p.Stds.Data[i] <= p.Stds.Data[i - 1] * (1 + 1e-12)), "pca.order", "%s deviation %d is %g", at.c_str(), i, p.Stds.Data[i]); for (int a = 0; a < w.k; a++) { LD q = 0; for (int b = 0; b < w.k; b++) q += C(a, b) * D(i, b); VEQ((double)q, (double)(v * D(i, a)), "pca.eigen", 1e-8, (double)(1e-9L * tot), at + fmt(" direction %d", i)); } VEQ(p.Stds2Ratios.Data[i], (double)(v / tot), "pca.ratio", 1e-8, 1e-9, at); sum += v / tot; } VEQ((double)sum, 1, "pca.total", 1e-9, 1e-9, at);
  if (pcs) VSAME(p.PCs, w.X * D.t(), 1e-8, "pca.components", "%s", at.c_str()); if (nf) VSAME(p.Forecasts, w.F * D.t(), 1e-8, "pca.forecasts", "%s", at.c_str());
  for (int q = 0; q < 3; q++) { double rate = r.b(0.2) ? r.u(0.99, 1) : r.u(0.01, 0.99); LD cum = 0; int want = 0; bool amb = false; for (int i = 0; i < mn; i++) { cum += p.Stds2Ratios.Data[i]; amb |= fabsl(cum - rate) < 1e-12L; if (!want && cum > rate) want = i + 1; } if (amb || !want) continue; VCHECK(p.GetCutoffColumn(rate) == want, "pca.cutoff", "%s rate %g: %d components of %d", at.c_str(), rate, p.GetCutoffColumn(rate), want); mon().count("cutoffs"); }
  VCHECK(p.GetCutoffColumn(std::nextafter(1.0, 0.0)) <= mn, "pca.cutoff.all", "%s: %d components of %d", at.c_str(), p.GetCutoffColumn(std::nextafter(1.0, 0.0)), mn); for (double bad : {0.0, 1.0, -0.1, 1.5}) VCHECK(throws([&] { p.GetCutoffColumn(bad); }), "pca.cutoff.invalid", "%g accepted", bad); mon().count("decompositions"); mon().distinct(fmt("p %d %d %d %d %d", n, k, nf, center * 2 + scale, (int)w.removed.size()));
}
struct Opt { PcaAnalysisOptions o; std::string str() const { return fmt("ignore %d exact %d rate %g max %d", o.IgnoreFirstCount, o.ExactCount, o.CutoffRate, o.CutoffCountMax); } };
static Opt rndOpt(Rng &r, int k, int maxExact) { Opt o; o.o.IgnoreFirstCount = r.i(0, std::min(2, k - 1)); int m = k - o.o.IgnoreFirstCount; if (r.b()) o.o.ExactCount = r.i(1, std::min(m, maxExact)); else { o.o.CutoffRate = r.u(0.3, 0.97); if (r.b(0.4)) o.o.CutoffCountMax = r.i(1, m + 1); } return o; }
// selected components replace the columns after the ignored ones
struct Sel { M X, F; int c; bool amb = false; };
static Sel select(const M &x, const M &f, const Opt &o) {
  int g = o.o.IgnoreFirstCount, k = x.c - g; PcaAnalysis p(x.r, k, f.r, true, true, true, true); Buf st(p.StorageSize), wk(p.WorkSize); M xs = cols(x, g, k), fs = cols(f, g, k); MX mx(xs), mf(fs); p.Calculate(mx.m, wk, st, f.r ? &mf.m : nullptr); int mn = std::min(x.r, k); Sel s; s.c = o.o.ExactCount; if (!s.c) { LD cum = 0; for (int i = 0; i < mn && !s.c; i++) { cum += p.Stds2Ratios.Data[i]; s.amb |= fabsl(cum - o.o.CutoffRate) < 1e-10L; if (cum > o.o.CutoffRate) s.c = i + 1; } s.c = std::min(s.c, (int)o.o.CutoffCountMax); }
  s.X = M(x.r, g + s.c); s.F = M(f.r, f.r ? g + s.c : 0); for (int j = 0; j < g + s.c; j++) { for (int i = 0; i < x.r; i++) s.X(i, j) = j < g ? x(i, j) : (LD)p.PCs.Get0(i, j - g); for (int i = 0; i < f.r; i++) s.F(i, j) = j < g ? f(i, j) : (LD)p.Forecasts.Get0(i, j - g); } return s;
}
static void model(Rng &r) {
  int n = r.i(4, 20), k = r.i(1, 6), nf = r.b() ? r.i(1, 4) : 0; M x = rndX(r, n, k, false), f = rnd(r, nf, k); Opt o = rndOpt(r, k, std::min(n, 6)); std::string at = fmt("%dx%d forecasts %d %s", n, k, nf, o.str().c_str()); mon().note(at); int g = o.o.IgnoreFirstCount; bool bad = r.b(0.1); if (bad) { for (int i = 0; i < n; i++) x(i, g) = 3; }
  if (r.b(0.05)) { PcaAnalysisOptions b; int q = r.i(0, 3); if (q == 0) { b.IgnoreFirstCount = -1; b.ExactCount = 1; } if (q == 1) b.CutoffRate = 1.2; if (q == 2) b.CutoffRate = -0.5; if (q == 3) { b.CutoffRate = 0.5; b.CutoffCountMax = 0; } VCHECK(b.IsEnabled() && throws([&] { b.CheckValidity(); }), "select.validity", "invalid options %d accepted", q); PcaAnalysisOptions d; VCHECK(!d.IsEnabled() && !throws([&] { d.CheckValidity(); }), "select.validity", "disabled options%s", ""); return; }
  o.o.CheckValidity(); PcaAnalysis p(n, k, nf, true, true, true, true); double fl = fillOf(r.i(0, 3)); Buf st(p.StorageSize, fl), wk(p.WorkSize, fl); MX mx(x), mf(f); if (bad) { VCHECK(throws([&] { o.o.CalculateForModel(p, mx.m, wk, st, nf ? &mf.m : nullptr); }), "select.constant", "%s constant accepted", at.c_str()); return; } Sel s = select(x, f, o); if (s.amb) throw Skip(); o.o.CalculateForModel(p, mx.m, wk, st, nf ? &mf.m : nullptr);
  VCHECK(o.o.GetFinalCount(p) == s.c, "select.count", "%s %d of %d", at.c_str(), o.o.GetFinalCount(p), s.c); VSAME(mx.m, s.X, 1e-10, "select.data", "%s", at.c_str()); if (nf) VSAME(mf.m, s.F, 1e-10, "select.forecast", "%s", at.c_str());
  { PcaAnalysisOptions b; b.IgnoreFirstCount = k; b.ExactCount = 1; MX m2(x); VCHECK(throws([&] { b.CalculateForModel(p, m2.m, wk, st); }), "select.ignore", "%s all columns ignored", at.c_str()); } if (g == 0) { PcaAnalysisOptions b; b.IgnoreFirstCount = 0; b.ExactCount = k + r.i(1, 5); MX m2(x); bool rej = throws([&] { b.CalculateForModel(p, m2.m, wk, st); }); VCHECK(rej || m2.m.ColsCount <= k, "select.exact", "%s %d components of %d columns", at.c_str(), m2.m.ColsCount, k); } mon().count("selections"); mon().distinct(fmt("m %d %d %d %s", n, k, nf, o.str().c_str()));
}
static M hcat(const M &a, const M &b) { M o(a.r, a.c + b.c); for (int i = 0; i < a.r; i++) { for (int j = 0; j < a.c; j++) o(i, j) = a(i, j); for (int j = 0; j < b.c; j++) o(i, a.c + j) = b(i, j); } return o; }
static M holes(Rng &r, const M &d, int extra, std::vector<int> &keep) { M o(d.r + extra, d.c); std::set<int> s; while ((int)s.size() < extra) s.insert(r.i(0, o.r - 1)); int q = 0; for (int i = 0; i < o.r; i++) { bool h = s.count(i); for (int j = 0; j < d.c; j++) o(i, j) = h ? (LD)r.u(-3, 3) : d(q, j); if (h) o(i, r.i(0, d.c - 1)) = NANV; else { keep.push_back(i); q++; } } return o; }
static void sur(Rng &r) {
  int n = r.i(14, 30), m = r.i(1, 3), k = r.i(2, 5), nf = r.b(0.7) ? r.i(1, 4) : 0; bool py = m > 1 && r.b(0.4), px = !py || r.b(0.8); M X = rndX(r, n, k, false), F = rnd(r, nf, k, 2), B = rnd(r, k, m), Y = X * B + rnd(r, n, m); for (auto &v : Y.d) v = (double)v; for (auto &v : F.d) v = (double)v; Opt ox = rndOpt(r, k, k), oy = rndOpt(r, m, m); if (!px) ox.o = PcaAnalysisOptions(); if (!py) oy.o = PcaAnalysisOptions();
  std::string at = fmt("obs=%d eq=%d exo=%d new=%d Y: %s X: %s", n, m, k, nf, py ? oy.str().c_str() : "-", px ? ox.str().c_str() : "-"); mon().note(at); bool nan = r.b(0.3); std::vector<int> kp; M data = hcat(Y, X), feed = nan ? holes(r, data, r.i(1, 4), kp) : data; Sel sx, sy; if (px) sx = select(X, F, ox); else sx.X = X, sx.F = F; if (py) sy = select(Y, M(0, m), oy); else sy.X = Y; if (sx.amb || sy.amb) throw Skip(); int m2 = sy.X.c, k2 = sx.X.c; if (ref::rcond(sx.X.t() * sx.X) < 1e-7L) throw Skip(); { M R = sy.X - sx.X * (ref::inv(sx.X.t() * sx.X) * (sx.X.t() * sy.X)); if (ref::rcond(R.t() * R) < 1e-8L) throw Skip(); }
  SurExtended e(feed.r, m, k, false, nan, true, nf, 0, true, py ? &oy.o : nullptr, px ? &ox.o : nullptr); double fl = fillOf(r.i(0, 3)); Buf st(e.StorageSize, fl), wk(e.WorkSize, fl); MX d(feed), f(F); for (int rep = r.b(0.2) ? 2 : 1; rep > 0; rep--) e.Calculate(d.m, m, st, wk, nullptr, 0.05, nf ? &f.m : nullptr, nullptr); VSAME(d.m, feed, 0, "sur.input", "%s data modified", at.c_str());
  Sur s(n, m2, k2, false, true, 0); Buf s1(s.StorageSize), w1(s.WorkSize); MX y(sy.X), x(sx.X); s.Calculate(y.m, x.m, s1, w1, nullptr, 0.05); VSAME(e.Model.beta, toref(s.beta), 1e-8, "sur.beta", "%s", at.c_str()); VSAME(e.Model.yhat, toref(s.yhat), 1e-8, "sur.yhat", "%s", at.c_str()); VSAME(e.Model.resid, toref(s.resid), 1e-8, "sur.resid", "%s", at.c_str()); VSAME(e.Model.e_beta_std, toref(s.e_beta_std), 1e-7, "sur.std", "%s", at.c_str()); VEQ(e.Model.logLikelihood, s.logLikelihood, "sur.ll", 1e-8, 1e-8, at); VEQ(e.Model.Aic, s.Aic, "sur.aic", 1e-8, 1e-8, at); VEQ(e.Model.r2, s.r2, "sur.r2", 1e-8, 1e-8, at);
  if (nf) { SurProjection p(nf, m2, k2, false, true); Buf s2(p.StorageSize), w2(p.WorkSize); MX fx(sx.F); p.Calculate(s, fx.m, s2, w2); VSAME(e.Projections.Means, toref(p.Means), 1e-8, "sur.projection", "%s", at.c_str()); VSAME(e.Projections.Variances, toref(p.Variances), 1e-7, "sur.variance", "%s", at.c_str()); } mon().count("sur_models"); mon().distinct("s " + at);
}
static void dc(Rng &r) {
  int n = r.i(25, 60), k = r.i(3, 5), nf = r.b(0.7) ? r.i(1, 4) : 0; bool w = r.b(0.3), nan = r.b(0.3); M X = rndX(r, n, k, false), F = rnd(r, nf, k), Y(n, 1), W(n, w ? 1 : 0); for (auto &v : F.d) v = (double)v; for (int i = 0; i < n; i++) X(i, 0) = 1; for (int i = 0; i < nf; i++) F(i, 0) = 1; for (int i = 0; i < n; i++) { LD z = 0.4 * X(i, 1) - 0.3 * X(i, 2); Y(i, 0) = (double)z + r.n() * 2 > 0; if (w) W(i, 0) = r.u(0.5, 2); } int ones = 0; for (auto v : Y.d) ones += v == 1; if (ones < 6 || ones > n - 6) throw Skip();
  Opt o = rndOpt(r, k, k); o.o.IgnoreFirstCount = 1; if (o.o.ExactCount) o.o.ExactCount = r.i(1, k - 2); auto dist = r.b() ? DiscreteChoiceDistType::kLogit : DiscreteChoiceDistType::kProbit; std::string at = fmt("obs=%d exo=%d new=%d weighted %d %s", n, k, nf, w, o.str().c_str()); mon().note(at); std::vector<int> kp; M data = hcat(w ? hcat(Y, W) : Y, X), feed = nan ? holes(r, data, r.i(1, 4), kp) : data; Sel s = select(X, F, o); if (s.amb) throw Skip();
  auto mk = [&](PcaAnalysisOptions *p, int rows, int c, bool cn) { return std::make_unique<DiscreteChoiceExtended>(DiscreteChoiceModelType::kBinary, dist, rows, c, w, cn, 2, true, nf, p, nullptr, w); }; auto a = mk(&o.o, feed.r, data.c, nan), b = mk(nullptr, n, (w ? 2 : 1) + s.X.c, false); double fl = fillOf(r.i(0, 3)); Buf sa(a->StorageSize, fl), wa(a->WorkSize, fl), sb(b->StorageSize), wb(b->WorkSize); RocOptions ro; MX da(feed), db(hcat(w ? hcat(Y, W) : Y, s.X)), fa(F), fb(s.F); bool ea = false, eb = false; try { b->Calculate(db.m, sb, wb, true, nf ? &fb.m : nullptr, ro); } catch (LdtException &) { eb = true; } try { a->Calculate(da.m, sa, wa, true, nf ? &fa.m : nullptr, ro); } catch (LdtException &) { ea = true; } VCHECK(ea == eb, "dc.error", "%s %d of %d", at.c_str(), ea, eb); if (eb) return; LD mx = 0; for (int i = 0; i < b->Model->Beta.length(); i++) mx = std::max(mx, fabsl(b->Model->Beta.Data[i])); if (mx > 15) throw Skip();
  VSAME(da.m, feed, 0, "dc.input", "%s data modified", at.c_str()); VSAME(a->Model->Beta, toref(b->Model->Beta), 1e-7, "dc.beta", "%s", at.c_str()); VSAME(a->Model->BetaVar, toref(b->Model->BetaVar), 1e-6, "dc.var", "%s", at.c_str()); VSAME(a->Projections, toref(b->Projections), 1e-7, "dc.projections", "%s", at.c_str()); VEQ(a->Auc, b->Auc, "dc.auc", 1e-7, 1e-7, at); VEQ(a->BrierScore, b->BrierScore, "dc.brier", 1e-7, 1e-7, at); if (nf) VSAME(a->PredProbs, toref(b->PredProbs), 1e-7, "dc.forecast", "%s", at.c_str()); mon().count("dc_models"); mon().distinct("d " + at);
}
static void varma(Rng &r) {
  int n = r.i(30, 50), g = r.i(1, 4), k = r.b(0.7) ? r.i(1, 4) : 0, h = r.b(0.7) ? r.i(1, 4) : 0; bool py = g > 1 && r.b(0.6), px = k > 1 && (!py || r.b(0.6)); if (!py && !px) throw Skip(); M Y(n, g), X = k ? rndX(r, n + h, k, false) : M(n + h, 0); for (int j = 0; j < g; j++) for (int i = 0; i < n; i++) Y(i, j) = (double)((i ? 0.5L * Y(i - 1, j) : 0) + (k ? 0.3L * X(i, j % k) : 0) + r.n() * (1 + j));
  Opt ox = rndOpt(r, std::max(k, 1), 4), oy = rndOpt(r, g, 4); if (!px) ox.o = PcaAnalysisOptions(); if (!py) oy.o = PcaAnalysisOptions(); std::string at = fmt("obs=%d endo=%d exo=%d horizon %d Y: %s X: %s", n, g, k, h, py ? oy.str().c_str() : "-", px ? ox.str().c_str() : "-"); mon().note(at); M Xs = k ? M(n, k) : M(n, 0), Xf(h, k); for (int j = 0; j < k; j++) { for (int i = 0; i < n; i++) Xs(i, j) = X(i, j); for (int i = 0; i < h; i++) Xf(i, j) = X(n + i, j); } Sel sx, sy; if (px) sx = select(Xs, Xf, ox); else sx.X = Xs, sx.F = Xf; if (py) sy = select(Y, M(0, g), oy); else sy.X = Y; if (sx.amb || sy.amb) throw Skip(); int g2 = sy.X.c, k2 = sx.X.c; if ((g2 + k2) * 2 > n / 2) throw Skip(); if (k2 && ref::rcond(sx.X.t() * sx.X) < 1e-7L) throw Skip();
  LimitedMemoryBfgsbOptions op; auto feed = [&](const M &y, const M &x, const M &f) { M o(n + h, y.c + x.c); for (int i = 0; i < n + h; i++) { for (int j = 0; j < y.c; j++) o(i, j) = i < n ? y(i, j) : (LD)NANV; for (int j = 0; j < x.c; j++) o(i, y.c + j) = i < n ? x(i, j) : f(i - n, j); } return o; }; M A = feed(Y, Xs, Xf), Bm = feed(sy.X, sx.X, sx.F);
  VarmaSizes za(n + h, g, k, 1, 0, 0), zb(n + h, g2, k2, 1, 0, 0); VarmaExtended a(za, VarmaRestrictionType::kNone, true, true, true, h, py ? &oy.o : nullptr, px ? &ox.o : nullptr, &op), b(zb, VarmaRestrictionType::kNone, true, true, true, h, nullptr, nullptr, &op); double fl = fillOf(r.i(0, 3)); Buf s1(a.StorageSize, fl), w1(a.WorkSize, fl), s2(b.StorageSize), w2(b.WorkSize); MX ma(A), mb(Bm); b.Calculate(mb.m, s2, w2, false, h, 0); for (int rep = r.b(0.2) ? 2 : 1; rep > 0; rep--) a.Calculate(ma.m, s1, w1, false, h, 0); VSAME(ma.m, A, 0, "varma.input", "%s data modified", at.c_str());
  VSAME(a.Y, toref(b.Y), 1e-9, "varma.y", "%s", at.c_str()); if (k2) VSAME(a.X, toref(b.X), 1e-9, "varma.x", "%s", at.c_str()); VSAME(a.Model.Result.coef, toref(b.Model.Result.coef), 1e-7, "varma.coef", "%s", at.c_str()); VSAME(a.Model.Result.sigma2, toref(b.Model.Result.sigma2), 1e-7, "varma.sigma", "%s", at.c_str()); VEQ(a.Model.Result.Aic, b.Model.Result.Aic, "varma.aic", 1e-8, 1e-8, at); if (h) { VSAME(a.Forecasts.Forecast, toref(b.Forecasts.Forecast), 1e-7, "varma.forecast", "%s", at.c_str()); for (int i = 0; i < g2; i++) for (int j = 0; j < h; j++) VEQ(a.Forecasts.Variance.Get0(i, a.Forecasts.StartIndex + j), b.Forecasts.Variance.Get0(i, b.Forecasts.StartIndex + j), "varma.variance", 1e-7, 1e-8, at); } mon().count("varma_models"); mon().distinct("v " + at);
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("cutoff", 200, 2000, cutoff); m.section("pca", 5000, 50000, pca); m.section("model", 5000, 50000, model); m.section("sur", 1500, 15000, sur); m.section("dc", 800, 8000, dc); m.section("varma", 800, 8000, varma);
  return m.done();
}
