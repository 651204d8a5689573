// Monitors of the scores: ROC/AUC, frequency costs, CRPS, weights.
#include "scoreref.h"
#include "functionx.h"
using ref::M;
static void roc(Rng &r) {
  int n = r.b(0.05) ? r.i(41, 300) : r.i(2, 40), levels = r.b(0.6) ? r.i(1, 6) : 0; bool W = r.b(), C = r.b(0.4); std::vector<double> y, s, w, c; int kinds = r.b(0.8) ? 1 : r.i(2, 3);
  for (int i = 0; i < n; i++) { y.push_back(r.b(0.5) ? 0 : r.i(1, kinds)); s.push_back(levels ? r.i(0, levels) / 8.0 : r.u()); w.push_back(r.b(0.1) ? 0 : r.b() ? r.i(1, 5) : r.u(0.1, 3)); c.push_back(r.u(0.5, 4)); }
  RocOptions o; o.Pessimistic = r.b(0.4); bool part = r.b(0.35); if (part) { o.LowerThreshold = r.b(0.3) ? 0 : r.u(0, 0.6); o.UpperThreshold = r.b(0.3) ? 1 : o.LowerThreshold + r.u(0.05, 0.4); } else if (r.b(0.2)) (r.b() ? o.LowerThreshold : o.UpperThreshold) = 0.5; o.NormalizePoints = r.b();
  M CM(2, 2); CM(0, 0) = r.u(2, 5); CM(1, 0) = r.u(0, 0.3) * (r.b() ? 1 : -1); CM(0, 1) = r.u(0, 1); CM(1, 1) = r.u(1.3, 3); MX cm(CM), cc(n, 1); for (int i = 0; i < n; i++) cc.m.Data[i] = c[i]; bool perObs = C && r.b(0.7); if (C) { o.CostMatrix.SetData(cm.m.Data, 2, 2); if (perObs) o.Costs.SetData(cc.m.Data, n, 1); }
  std::vector<LD> wp(n), wn(n); LD P = 0, N = 0; bool bad = false; for (int i = 0; i < n; i++) { LD ww = W ? (LD)w[i] : 1, x = perObs ? c[i] : 1, b = CM(0, 0) * x - CM(0, 1), cf = -(CM(1, 0) * x - CM(1, 1)); if (C && (b < 0 || cf < 0)) bad = true; wp[i] = C ? ww * b : ww; wn[i] = C ? ww * cf : ww; (y[i] == 0 ? N : P) += y[i] == 0 ? wn[i] : wp[i]; }
  MX Y(n, 1), S(n, 2), WW(n, 1); for (int i = 0; i < n; i++) { Y.m.Data[i] = y[i]; S.m.Data[i] = s[i]; S.m.Data[n + i] = 1 - s[i]; WW.m.Data[i] = w[i]; } std::unique_ptr<RocBase> a; if (W && C) a = std::make_unique<ROC<true, true>>(n); else if (W) a = std::make_unique<ROC<true, false>>(n); else if (C) a = std::make_unique<ROC<false, true>>(n); else a = std::make_unique<ROC<false, false>>(n);
  std::string at = fmt("n=%d levels=%d weights=%d costs=%d/%d pess=%d partial=%d [%g,%g] normalize=%d", n, levels, (int)W, (int)C, (int)perObs, (int)o.Pessimistic, (int)part, o.LowerThreshold, o.UpperThreshold, (int)o.NormalizePoints); mon().note(at);
  if (bad) { VCHECK(throws([&] { a->Calculate(Y.m, S.m, W ? &WW.m : nullptr, o); }), "roc.badcost", "%s negative benefit or cost accepted", at.c_str()); return; }
  int reps = r.i(1, 2); for (int q = 0; q < reps; q++) a->Calculate(Y.m, S.m, W ? &WW.m : nullptr, o);
  if (!(P > 0 && N > 0)) throw Skip(); LD e = part ? refAucPartial(y, s, wp, wn, o.Pessimistic, o.LowerThreshold, o.UpperThreshold) : refAucPairs(y, s, wp, wn, o.Pessimistic); std::string key = fmt("roc%s%s%s%s", W ? ".w" : "", C ? ".cost" : "", o.Pessimistic ? ".pess" : "", part ? ".part" : "");
  VEQ(a->Result, (double)e, key, 1e-9, 1e-10, at + " AUC");
  double px = -1, py = -1; for (auto &p : a->Points) { double x = std::get<0>(p), t = std::get<1>(p); VCHECK(x >= px - 1e-12 && t >= py - 1e-12, "roc.points", "%s the curve goes back: (%g,%g) after (%g,%g)", at.c_str(), x, t, px, py); px = x; py = t; } double ex = o.NormalizePoints || part ? 1 : (double)N, ey = o.NormalizePoints || part ? 1 : (double)P; VCHECK(close(px, ex, 1e-9) && close(py, ey, 1e-9) && std::get<0>(a->Points[0]) == 0 && std::get<1>(a->Points[0]) == 0, "roc.ends", "%s the curve ends at (%g,%g)", at.c_str(), px, py);
  if (!part && !C) { std::vector<double> s2; for (auto x : s) s2.push_back(std::exp(2 * x) - 3); MX S2(n, 2); for (int i = 0; i < n; i++) S2.m.Data[i] = s2[i]; a->Calculate(Y.m, S2.m, W ? &WW.m : nullptr, o); VEQ(a->Result, (double)e, "roc.monotone", 1e-9, 1e-10, at + " AUC after a monotone transformation of the scores"); }
  if (r.b(0.2)) { RocOptions b; b.LowerThreshold = 0.5; b.UpperThreshold = 0.2; VCHECK(throws([&] { ROC<false, false> z(n); z.Calculate(Y.m, S.m, nullptr, b); }), "roc.badbounds", "%s bounds [0.5,0.2] accepted", at.c_str()); }
  if (r.b(0.1)) { MX y0(0, 1), s0(0, 2); VCHECK(throws([&] { ROC<false, false> z(0); RocOptions b; z.Calculate(y0.m, s0.m, nullptr, b); }), "roc.empty", "no observations accepted%s", ""); }
  if (C && r.b(0.2)) { RocOptions b; VCHECK(throws([&] { a->Calculate(Y.m, S.m, W ? &WW.m : nullptr, b); }), "roc.nocost", "%s a missing cost matrix was accepted", at.c_str()); }
  mon().distinct(fmt("roc %d %d %d %d %d %d %d", std::min(n, 20), levels, (int)W, (int)C, (int)perObs, (int)o.Pessimistic, (int)part)); mon().count("auc_values"); mon().sample(at + fmt(" AUC=%.9Lf", e));
}
static void cost(Rng &r) {
  int n = r.b(0.05) ? r.i(31, 200) : r.i(1, 30), J = r.b(0.05) ? r.i(6, 9) : r.i(2, 5), T = r.i(1, 4); bool W = r.b(), full = r.b(0.8); MX Y(n, 1), P(n, J), WW(n, 1); std::vector<double> y; std::vector<LD> w; std::vector<int> valid; bool nan = r.b(0.3);
  std::vector<M> tabs; std::vector<std::unique_ptr<MX>> own; std::vector<Matrix<Tv>> tm; for (int t = 0; t < T; t++) { tabs.push_back(rndCostTable(r, J, full)); own.emplace_back(new MX(tabs.back())); tm.push_back(own.back()->m); }
  for (int i = 0; i < n; i++) { double t = 0; std::vector<double> p; for (int j = 0; j < J; j++) { p.push_back(r.u(0, 1)); t += p.back(); } for (int j = 0; j < J; j++) P.m.Data[j * n + i] = r.b(0.15) ? (double)tabs[0](r.i(0, tabs[0].r - 1), 0) : r.b(0.1) ? r.i(0, 1) : p[j] / t; Y.m.Data[i] = nan && r.b(0.2) ? NANV : r.i(0, J - 1); WW.m.Data[i] = r.b(0.1) ? 0 : r.u(0.2, 4); if (!std::isnan(Y.m.Data[i])) valid.push_back(i); }
  bool uncovered = false; LD tot = 0; for (int i : valid) { y.push_back(Y.m.Data[i]); w.push_back(W ? (LD)WW.m.Data[i] : 1); tot += w.back(); for (auto &t : tabs) if ((double)t(t.r - 1, 0) < P(i, (int)Y.m.Data[i])) uncovered = true; } if (tot == 0) throw Skip();
  std::unique_ptr<FrequencyCostBase> f; if (W) f = std::make_unique<FrequencyCost<true>>(T); else f = std::make_unique<FrequencyCost<false>>(T); Buf st(f->StorageSize, fillOf(r.i(0, 3))); std::string at = fmt("n=%d choices=%d tables=%d weights=%d missing=%zu", n, J, T, (int)W, (size_t)n - valid.size()); mon().note(at);
  if (uncovered) { VCHECK(throws([&] { f->Calculate(tm, Y.m, P.m, W ? &WW.m : nullptr, st); }), "cost.uncovered", "%s a probability above every threshold was accepted", at.c_str()); return; }
  int reps = r.i(1, 2); for (int q = 0; q < reps; q++) f->Calculate(tm, Y.m, P.m, W ? &WW.m : nullptr, st); std::vector<LD> sums(T, 0), counts(T, 0); LD e = refCost(tabs, y, [&](int i, int j) { return P(valid[i], j); }, w, &sums, &counts);
  VEQ(f->AverageRatio, (double)e, "cost.average", 1e-10, 1e-12, at + " average cost ratio"); for (int t = 0; t < T; t++) { VEQ(f->CostSums.Data[t], (double)sums[t], "cost.sum", 1e-10, 1e-12, at); VEQ(f->CostCounts.Data[t], (double)counts[t], "cost.count", 1e-10, 1e-12, at); }
  // table validation
  M t = rndCostTable(r, J, full); int k = r.i(0, 5); bool ok = k == 0 || k == 5; if (k == 1) { M u(1, J + 1); u(0, 0) = 0.5; t = u; } if (k == 2) t(0, 0) = t(1, 0); if (k == 3) t(t.r - 1, 0) = 1.01; if (k == 4) t(0, 0) = -0.01; MX tt(t); VCHECK(throws([&] { FrequencyCost<false>::Check(tt.m, J); }) == !ok, "cost.check", "table validation, case %d", k); VCHECK(throws([&] { FrequencyCost<false>::Check(tt.m, J + 1); }), "cost.check.cols", "a table for %d choices was accepted for %d", J, J + 1);
  mon().distinct(fmt("cost %d %d %d %d %d", std::min(n, 10), J, T, (int)W, (int)nan)); mon().count("cost_tables", T);
}
static LD Phi(LD x) { return 0.5L * erfcl(-x / sqrtl(2.0L)); }
// integral of (F(x) - 1{x >= y})^2 with Simpson on both sides of y
template <class G> static LD crpsInt(G F, LD lo, LD hi, LD y) { auto simp = [&](LD a, LD b, auto f) { if (!(b > a)) return 0.0L; int n = 4000; LD h = (b - a) / n, s = f(a) + f(b); for (int i = 1; i < n; i++) s += f(a + i * h) * (i % 2 ? 4 : 2); return s * h / 3; }; LD m = std::min(std::max(y, lo), hi); LD v = simp(lo, m, [&](LD x) { LD q = F(x); return q * q; }) + simp(m, hi, [&](LD x) { LD q = 1 - F(x); return q * q; }); if (y < lo) v += lo - y; if (y > hi) v += y - hi; return v; }
static void crps(Rng &r) {
  double mu = r.n() * r.pick({1.0, 10.0, 1000.0}), sd = r.pick({0.01, 0.5, 1.0, 3.0, 50.0}) * r.u(0.5, 2), y = mu + sd * r.n() * r.pick({0.1, 1.0, 4.0}); LD e = crpsInt([&](LD x) { return Phi((x - mu) / sd); }, mu - 12 * (LD)sd, mu + 12 * (LD)sd, y);
  VEQ(Scoring::GetScoreCrpsNormal(y, mu, sd), (double)e, "crps.normal", 1e-6, 1e-7 * sd, fmt("CRPS normal y=%g mean=%g sd=%g", y, mu, sd)); VEQ(Scoring::GetScoreCrpsNormal(y, mu, 0), std::fabs(y - mu), "crps.degenerate", 1e-9, 1e-12, "CRPS of a certain forecast");
  double m = r.u(-1, 1), s = r.u(0.1, 0.9), z = std::exp(m + s * r.n() * 1.5); LD e2 = crpsInt([&](LD u) { return u <= 0 ? 0 : Phi((logl(u) - m) / s); }, 0, expl(m + 7 * (LD)s), z); VEQ(Scoring::GetScoreCrpsLogNormal(z, m, s), (double)e2, "crps.lognormal", 1e-3, 1e-4, fmt("CRPS log-normal y=%g %g %g", z, m, s));
  mon().count("crps_values", 3); mon().distinct(fmt("crps %g %d", std::floor(std::log10(sd)), (int)((y - mu) / sd)));
}
static void weights(Rng &r) {
  using G = GoodnessOfFitType; using S = ScoringType;
  auto chk = [&](const char *nm, bool pos, double sc, auto to, auto from) { double a = r.u(0, 1) * sc, b = r.u(0, 1) * sc, mn = r.b() ? 0 : r.u(0, sc); if (std::fabs(a - b) < 1e-6 * sc) return; double wa = to(a, mn), wb = to(b, mn); VCHECK(pos == (wa > wb) == (a > b), std::string("weight.order.") + nm, "%s: metrics %g, %g have weights %g, %g", nm, a, b, wa, wb); VEQ(from(wa, mn), a, std::string("weight.inverse.") + nm, 1e-8, 1e-8 * sc, fmt("%s: metric from weight, minimum %g", nm, mn)); double d = to(a, mn) / to(b, mn), d2 = to(a, mn + 1) / to(b, mn + 1); VEQ(d, d2, std::string("weight.shift.") + nm, 1e-9, 1e-12, fmt("%s: relative weights change with the minimum", nm)); mon().count("weights_checked"); };
  for (auto g : {G::kAic, G::kSic, G::kFrequencyCost, G::kAuc, G::kBrier}) { bool pos = g == G::kAuc; VCHECK(GoodnessOfFit::IsPositiveOriented(g) == pos, "weight.orient", "%s orientation", ToString(g)); chk(ToString(g), pos, g == G::kAic || g == G::kSic ? 50 : 1, [&](double a, double m) { return GoodnessOfFit::ToWeight(g, a, m); }, [&](double a, double m) { return GoodnessOfFit::FromWeight(g, a, m); }); std::string n = ToString(g); VCHECK(FromString_GoodnessOfFitType(n.c_str()) == g, "name", "%s", n.c_str()); for (auto &c : n) c = toupper(c); (void)n; }
  for (auto g : {S::kDirection, S::kSign, S::kMae, S::kMape, S::kRmse, S::kRmspe, S::kCrps, S::kFrequencyCost, S::kAuc, S::kBrier}) { bool pos = g == S::kDirection || g == S::kSign || g == S::kAuc, pc = g == S::kMape || g == S::kRmspe; VCHECK(Scoring::IsPositiveOriented(g) == pos, "weight.orient", "%s orientation", ToString(g)); chk(ToString(g), pos, pc ? 300 : pos || g == S::kFrequencyCost ? 1 : 20, [&](double a, double m) { return Scoring::ToWeight(g, a, m); }, [&](double a, double m) { return Scoring::FromWeight(g, a, m); }); VCHECK(FromString_ScoringType(ToString(g)) == g, "name", "%s", ToString(g)); bool var = !(g == S::kMae || g == S::kMape || g == S::kRmse || g == S::kRmspe); VCHECK(Scoring::RequiresVariance(g) == var, "variance", "%s requires variance", ToString(g)); }
  // percentage and absolute versions: exp(-0.5 (m - min)) and exp(-0.5 (m - min)/100)
  double a = r.u(0, 30); VEQ(GoodnessOfFit::ToWeight(G::kAic, a, 0), std::exp(-0.5 * a), "weight.aic", 1e-12, 0, "AIC weight"); VEQ(Scoring::ToWeight(S::kMape, a * 10, 0), std::exp(-0.05 * a), "weight.mape", 1e-12, 0, "MAPE weight");
}
static void area(Rng &r) {
  int n = r.i(2, 12); std::vector<std::tuple<Tv, Tv>> p; double x = r.n(), base = r.b() ? 0 : r.n(); LD e = 0, ev = 0; for (int i = 0; i < n; i++) { p.push_back({x, r.n() * 3}); x += r.b(0.2) ? 0 : r.u(0, 2); }
  for (int i = 1; i < n; i++) e += ((LD)std::get<0>(p[i]) - std::get<0>(p[i - 1])) * ((LD)std::get<1>(p[i]) + std::get<1>(p[i - 1]) - 2 * base) / 2; (void)ev; AucPoints<false> a(p, base); VEQ(a.Result, (double)e, "area", 1e-10, 1e-11, fmt("area under %d points above %g", n, base)); mon().distinct(fmt("area %d %d", n, base != 0));
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("roc", 40000, 400000, roc); m.section("cost", 20000, 200000, cost); m.section("crps", 300, 3000, crps); m.section("weights", 3000, 30000, weights); m.section("area", 10000, 100000, area);
  return m.done();
}
