// Monitors of the discrete choice models against maximum likelihood in long double.
#include "scoreref.h"
#include "discrete_choice.h"
#include "data_split.h"
using ref::M; using VI = std::vector<Ti>;
using DT = DiscreteChoiceDistType; using MT = DiscreteChoiceModelType;
static LD F(LD x, bool lg) { if (std::isinf((double)x)) return x > 0 ? 1 : 0; return lg ? 1 / (1 + expl(-x)) : 0.5L * erfcl(-x / sqrtl(2.0L)); }
static LD f(LD x, bool lg) { if (std::isinf((double)x)) return 0; if (lg) { LD p = F(x, true), q = F(-x, true); return p * q; } return expl(-x * x / 2) / sqrtl(2 * M_PIl); }
static LD df(LD x, bool lg) { if (std::isinf((double)x)) return 0; if (lg) { LD p = F(x, true), q = F(-x, true); return p * q * (q - p); } return -x * f(x, false); }
static LD Fd(LD u, LD l, bool lg) { return l > 0 ? F(-l, lg) - F(-u, lg) : F(u, lg) - F(l, lg); } // no cancellation in the upper tail
static LD cut(const M &th, int k0, int J, int c) { return c <= -1 ? -INFINITY : c >= J - 1 ? INFINITY : c == 0 ? 0 : th(k0 + c - 1, 0); }
static LD prob(const M &th, const M &X, int i, int k0, int J, int y, bool lg) { LD xb = 0; for (int j = 0; j < k0; j++) xb += X(i, j) * th(j, 0); return Fd(cut(th, k0, J, y) - xb, cut(th, k0, J, y - 1) - xb, lg); }
struct Ml { M th, H, V; LD ll, cn; bool ok = false; };
static LD loglik(const M &th, const std::vector<double> &y, const M &X, const std::vector<LD> &w, int J, bool lg, M *g = nullptr, M *H = nullptr) {
  int k0 = X.c, k = k0 + J - 2; LD ll = 0; if (g) *g = M(k, 1); if (H) *H = M(k, k);
  for (int i = 0; i < X.r; i++) {
    LD xb = 0; for (int j = 0; j < k0; j++) xb += X(i, j) * th(j, 0); int c = (int)y[i]; LD u = cut(th, k0, J, c) - xb, l = cut(th, k0, J, c - 1) - xb, P = Fd(u, l, lg); ll += w[i] * logl(P);
    if (!g) continue; M du(k, 1), dl(k, 1); for (int j = 0; j < k0; j++) { du(j, 0) = -X(i, j); dl(j, 0) = -X(i, j); } if (c >= 1 && c < J - 1) du(k0 + c - 1, 0) = 1; if (c >= 2) dl(k0 + c - 2, 0) = 1;
    LD fu = f(u, lg), fl = f(l, lg), au = df(u, lg), al = df(l, lg); M q(k, 1); for (int j = 0; j < k; j++) { q(j, 0) = (fu * du(j, 0) - fl * dl(j, 0)) / P; (*g)(j, 0) += w[i] * q(j, 0); }
    if (H) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) (*H)(a, b) += w[i] * ((au * du(a, 0) * du(b, 0) - al * dl(a, 0) * dl(b, 0)) / P - q(a, 0) * q(b, 0));
  }
  return ll;
}
static Ml ml(const std::vector<double> &y, const M &X, const std::vector<LD> &w, int J, bool lg) {
  Ml o; int k0 = X.c, k = k0 + J - 2; std::vector<LD> cnt(J, 0); LD tot = 0; for (int i = 0; i < X.r; i++) { cnt[(int)y[i]] += w[i]; tot += w[i]; } for (auto c : cnt) if (c <= 0) return o; if (X.r <= k) return o;
  M A(k0, k0); for (int i = 0; i < X.r; i++) for (int a = 0; a < k0; a++) for (int b = 0; b < k0; b++) A(a, b) += w[i] * X(i, a) * X(i, b); if (ref::rcond(A) < 1e-6) return o;
  o.th = M(k, 1); for (int c = 1; c <= J - 2; c++) o.th(k0 + c - 1, 0) = c; M g, H; LD ll = loglik(o.th, y, X, w, J, lg, &g, &H); LD gn = 1;
  for (int it = 0; it < 200; it++) {
    M d; if (!ref::solve(H, g, d)) return o; LD s = 1; bool adv = false; for (int h = 0; h < 60; h++, s /= 2) { M t = o.th - s * d; bool ord = true; for (int c = 1; c <= J - 2; c++) if (!(cut(t, k0, J, c) > cut(t, k0, J, c - 1))) ord = false; if (!ord) continue; LD v = loglik(t, y, X, w, J, lg); if (v >= ll || (gn < 1e-6L && v > ll - 1e-12L)) { o.th = t; adv = true; break; } }
    if (!adv) break; ll = loglik(o.th, y, X, w, J, lg, &g, &H); gn = g.maxabs(); if (gn < 1e-13L) break; if (!(o.th.maxabs() < 50)) return o;
  }
  if (!(gn < 1e-9L)) return o; for (int i = 0; i < X.r; i++) { LD xb = 0; for (int j = 0; j < k0; j++) xb += X(i, j) * o.th(j, 0); if (fabsl(xb) > (lg ? 12 : 5)) return o; LD p = prob(o.th, X, i, k0, J, (int)y[i], lg); if (p < 1e-6L) return o; }
  M I = (LD)-1 * H; if (ref::rcond(I) < 1e-8) return o; o.H = I; o.V = ref::inv(I); o.cn = ref::norm1(I) * ref::norm1(o.V); o.ll = ll; o.ok = true; return o;
}
struct Gen { std::vector<double> y; M X; std::vector<double> w; };
static Gen gen(Rng &r, int n, int k, int J, bool weight, double strength = 1) {
  Gen g; g.X = rnd(r, n, k); for (int i = 0; i < n; i++) g.X(i, 0) = 1; for (int j = 1; j < k; j++) if (r.b(0.2)) for (int i = 0; i < n; i++) g.X(i, j) = g.X(i, j) > 0 ? 1 : 0; else if (r.b(0.2)) for (int i = 0; i < n; i++) g.X(i, j) = (double)(g.X(i, j) * 4 + 3);
  M b = rnd(r, k, 1, strength); for (int j = 1; j < k; j++) { LD sc = 0; for (int i = 0; i < n; i++) sc = std::max(sc, fabsl(g.X(i, j))); b(j, 0) = b(j, 0) / std::max(sc / 2, (LD)1); } b(0, 0) = (double)(b(0, 0) / 2) + (J - 2) * 0.5;
  for (int i = 0; i < n; i++) { LD xb = 0; for (int j = 0; j < k; j++) xb += g.X(i, j) * b(j, 0); double v = (double)xb + r.n() * 1.3; int c = 0; while (c < J - 1 && v > c * 1.1) c++; g.y.push_back(c); }
  int wt = r.i(0, 2); for (int i = 0; i < n; i++) g.w.push_back(!weight ? 1 : wt == 0 ? r.i(1, 4) : wt == 1 ? r.u(0.2, 3) : r.b(0.1) ? 0 : r.u(0.5, 2)); return g;
}
static std::vector<LD> LDv(const std::vector<double> &v) { return std::vector<LD>(v.begin(), v.end()); }
static M colv(const std::vector<double> &v) { M m((int)v.size(), 1); for (size_t i = 0; i < v.size(); i++) m((int)i, 0) = v[i]; return m; }
static M probs(const Ml &q, const M &X, int J, bool lg) { M o(X.r, J); for (int i = 0; i < X.r; i++) for (int j = 0; j < J; j++) o(i, j) = prob(q.th, X, i, X.c, J, j, lg); return o; }
static void cmpModel(const DiscreteChoiceBase &d, const Ml &q, const std::string &key, const std::string &at, const std::vector<double> &y, const std::vector<LD> &w, int J, bool det) {
  int k = q.th.r, n = y.size(); M se(k, 1), z(k, 1); for (int i = 0; i < k; i++) { se(i, 0) = sqrtl(q.V(i, i)); z(i, 0) = q.th(i, 0) / se(i, 0); }
  VCHECK(d.Beta.RowsCount == k && d.BetaVar.RowsCount == k && d.BetaVar.ColsCount == k, key + ".size", "%s %d coefficients", at.c_str(), d.Beta.RowsCount); if (d.Beta.RowsCount != k) return;
  for (int i = 0; i < k; i++) VCHECK(close(d.Beta.Data[i], (double)q.th(i, 0), 1e-5, (double)se(i, 0) * 1e-4), key + ".beta", "%s coefficient %d got %.10g expected %.10Lg", at.c_str(), i, d.Beta.Data[i], q.th(i, 0));
  VSAME(d.BetaVar, q.V, 1e-3, key + ".var", "%s variance of coefficients", at.c_str());
  VEQ(d.LogL, (double)q.ll, key + ".ll", 1e-8, 1e-6, at + " log-likelihood"); VEQ(d.Aic, (double)(2 * k - 2 * q.ll), key + ".aic", 1e-8, 1e-5, at + " AIC"); VEQ(d.Sic, (double)(logl(n) * k - 2 * q.ll), key + ".sic", 1e-8, 1e-5, at + " SIC");
  VCHECK(d.NumObs == n && d.NumChoices == J && d.NumCutoff == J - 1, key + ".n", "%s obs %d choices %d", at.c_str(), d.NumObs, d.NumChoices);
  std::vector<double> c(J, 0); for (int i = 0; i < n; i++) c[(int)y[i]] += (double)w[i]; VCHECK(close(std::vector<double>(d.Counts.Data, d.Counts.Data + J), c, 1e-12, 1e-12), key + ".counts", "%s class weights", at.c_str());
  if (J == 2) VEQ(d.condition_number, (double)q.cn, key + ".cn", 1e-3, 1e-9, at + " condition number");
  if (det) { VSAME(d.BetaStd, se, 1e-3, key + ".std", "%s standard errors", at.c_str()); for (int i = 0; i < k; i++) { VEQ(d.BetaZ.Data[i], (double)z(i, 0), key + ".z", 1e-3, 1e-3, at + " z"); VEQ(d.BetaProb.Data[i], (double)erfcl(fabsl(z(i, 0)) / sqrtl(2.0L)), key + ".p", 2e-3, 2e-4, at + " p-value"); } }
}
static std::string nm(int J, bool lg) { return fmt("%s-%s", J == 2 ? "binary" : "ordered", lg ? "logit" : "probit"); }
static void mlcase(Rng &r) {
  int J = r.b(0.5) ? 2 : r.b(0.08) ? r.i(6, 8) : r.i(3, 5), k = r.i(1, 4), n = (r.b(0.05) ? r.i(90, 250) : r.i(25, 90)) + 10 * J; bool lg = r.b(), weight = r.b(), det = r.b(0.8), rule = r.b(0.3); Gen g = gen(r, n, k, J, weight); auto w = LDv(g.w); Ml q = ml(g.y, g.X, w, J, lg); if (!q.ok) throw Skip();
  auto d = DiscreteChoiceBase::GetFromType(J == 2 ? MT::kBinary : MT::kOrdered, lg ? DT::kLogit : DT::kProbit, n + r.i(0, 5), k, J, det); d->Optim.TolFunction = 1e-12; if (r.b(0.3)) d->Optim.TolGradient = 1e-9;
  double fl = fillOf(r.i(0, 3)); Buf st(d->StorageSize, fl), wk(d->WorkSize, fl); MX y(colv(g.y)), x(g.X), ww(colv(g.w)); std::string at = fmt("%s n=%d k=%d J=%d weights=%d", nm(J, lg).c_str(), n, k, J, (int)weight); mon().note(at);
  if (r.b(0.3)) { int n2 = n - r.i(0, 10); Gen g2 = gen(r, n2, k, J, false); MX y2(colv(g2.y)), x2(g2.X); try { d->Calculate(y2.m, x2.m, nullptr, st, wk, J); } catch (std::exception &) {} } // reuse
  auto by = y.b.vec(), bx = x.b.vec(), bw = ww.b.vec();
  // the optimizer may report (never hide) that an ordered likelihood is not representable at its start, rarely
  static long tried = 0, failed = 0; tried++; try { d->Calculate(y.m, x.m, weight ? &ww.m : nullptr, st, wk, rule ? -1 : J, true); } catch (LdtException &ex) { if (J == 2 || std::string(ex.what()).find("newton") == std::string::npos) throw; failed++; VCHECK(failed <= 3 + tried / 500, "ml.failures", "%s: estimation of %ld of %ld models failed", at.c_str(), failed, tried); mon().count("optimizer_failures"); throw Skip(); }
  cmpModel(*d, q, "ml." + nm(J, lg), at, g.y, w, J, det);
  VCHECK(close(by, y.b.vec(), 0, 0) && close(bx, x.b.vec(), 0, 0) && close(bw, ww.b.vec(), 0, 0), "ml.input", "%s data modified", at.c_str());
  int m = r.i(1, 6); M NX = rnd(r, m, k); MX nx(NX), res(m, J, 7); Buf pw(m + J - 2, fl); d->GetProbabilities(nx.m, res.m, pw); M P = probs(q, NX, J, lg); for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < J; j++) { VEQ(res(i, j), (double)P(i, j), "ml.prob." + nm(J, lg), 1e-4, 1e-4, at + fmt(" probability of class %d", j)); s += res(i, j); VCHECK(res(i, j) >= -1e-12 && res(i, j) <= 1 + 1e-12, "ml.prob.range", "%s probability %g", at.c_str(), res(i, j)); } VEQ(s, 1.0, "ml.prob.sum", 1e-12, 1e-12, at + " sum of probabilities"); }
  // weights are repetitions: estimating the repeated rows gives the same coefficients and likelihood
  bool integer = weight; for (auto v : g.w) if (v != std::floor(v)) integer = false;
  if (integer && r.b(0.5)) { std::vector<double> y2; std::vector<int> rows; for (int i = 0; i < n; i++) for (int c = 0; c < (int)g.w[i]; c++) { y2.push_back(g.y[i]); rows.push_back(i); } M X2((int)rows.size(), k); for (size_t i = 0; i < rows.size(); i++) for (int j = 0; j < k; j++) X2((int)i, j) = g.X(rows[i], j);
    auto e = DiscreteChoiceBase::GetFromType(J == 2 ? MT::kBinary : MT::kOrdered, lg ? DT::kLogit : DT::kProbit, X2.r, k, J, false); e->Optim.TolFunction = 1e-12; Buf s2(e->StorageSize, fl), w2(e->WorkSize, fl); MX yy(colv(y2)), xx(X2); e->Calculate(yy.m, xx.m, nullptr, s2, w2, J); for (int i = 0; i < q.th.r; i++) VEQ(e->Beta.Data[i], d->Beta.Data[i], "ml.repeat", 1e-5, 1e-5, at + " repeated rows"); VEQ(e->LogL, d->LogL, "ml.repeat.ll", 1e-8, 1e-7, at + " repeated rows"); mon().count("repetition_relations"); }
  // no variance / an empty class / a size mismatch is reported
  if (r.b(0.2)) { auto y3 = g.y; int drop = r.i(0, J - 1); for (auto &v : y3) if (v == drop) v = drop ? drop - 1 : drop + 1; MX yy(colv(y3)); VCHECK(throws([&] { d->Calculate(yy.m, x.m, weight ? &ww.m : nullptr, st, wk, J); }), "ml.empty", "%s an empty class was accepted", at.c_str()); }
  if (r.b(0.1)) { MX ys(colv(std::vector<double>(g.y.begin(), g.y.end() - 1))); VCHECK(throws([&] { d->Calculate(ys.m, x.m, nullptr, st, wk, J); }), "ml.size", "%s different lengths accepted", at.c_str()); }
  mon().distinct(fmt("ml %s %d %d %d %d %d", nm(J, lg).c_str(), n, k, J, (int)weight, (int)det)); mon().count("models_" + nm(J, lg)); mon().sample(at + fmt(" logL=%.6Lf", q.ll));
}
static M completeRows(const M &D) { std::vector<int> keep; for (int i = 0; i < D.r; i++) { bool ok = true; for (int j = 0; j < D.c; j++) if (std::isnan((double)D(i, j))) ok = false; if (ok) keep.push_back(i); } M o((int)keep.size(), D.c); for (size_t i = 0; i < keep.size(); i++) for (int j = 0; j < D.c; j++) o((int)i, j) = D(keep[i], j); return o; }
static M assemble(const Gen &g, bool weight) { int w = weight ? 1 : 0; M D(g.X.r, 1 + w + g.X.c); for (int i = 0; i < D.r; i++) { D(i, 0) = g.y[i]; if (w) D(i, 1) = g.w[i]; for (int j = 0; j < g.X.c; j++) D(i, 1 + w + j) = g.X(i, j); } return D; }
static Gen split(const M &D, bool weight) { Gen g; int w = weight ? 1 : 0; g.X = D.sub(0, 1 + w, D.r, D.c - 1 - w); for (int i = 0; i < D.r; i++) { g.y.push_back((double)D(i, 0)); g.w.push_back(w ? (double)D(i, 1) : 1.0); } return g; }
struct Sc { LD brier, auc, cost; bool amb = false; };
static Sc scores(const Gen &g, const M &P, bool we, const RocOptions &o, const std::vector<M> &tabs, std::vector<LD> *sums = nullptr, std::vector<LD> *counts = nullptr) {
  Sc s; int n = g.y.size(); std::vector<LD> w(n, 1); if (we) w = LDv(g.w); LD b = 0, t = 0; std::vector<double> p0; for (int i = 0; i < n; i++) { LD e = g.y[i] - P(i, 1); b += w[i] * e * e; t += w[i]; p0.push_back((double)P(i, 0)); } s.brier = b / t;
  std::vector<double> so(p0); std::sort(so.begin(), so.end()); for (int i = 1; i < n; i++) { double d = so[i] - so[i - 1]; if (d != 0 && d < 1e-5) s.amb = true; } // order of scores depends on rounding
  for (auto &q : tabs) for (int i = 0; i < n; i++) for (int j = 0; j < q.r - 1; j++) if (fabsl(P(i, (int)g.y[i]) - q(j, 0)) < 1e-5) s.amb = true;
  // equal rows of X give exactly equal scores in the library and in the reference
  bool part = !std::isnan(o.LowerThreshold); s.auc = part ? refAucPartial(g.y, p0, w, w, o.Pessimistic, o.LowerThreshold, o.UpperThreshold) : refAucPairs(g.y, p0, w, w, o.Pessimistic);
  s.cost = tabs.empty() ? NANV : refCost(tabs, g.y, [&](int i, int j) { return (double)P(i, j); }, w, sums, counts); return s;
}
static RocOptions rocopt(Rng &r) { RocOptions o; o.Epsilon = 1e-10; o.Pessimistic = r.b(0.25); if (r.b(0.25)) { o.LowerThreshold = r.pick({0.0, 0.1, 0.3}); o.UpperThreshold = r.pick({0.5, 0.9, 1.0}); } else o.NormalizePoints = r.b(); return o; }
static void punch(Rng &r, M &D) { for (int q = r.i(1, 5); q > 0; q--) D(r.b(0.3) ? (r.b() ? 0 : D.r - 1) : r.i(0, D.r - 1), r.i(0, D.c - 1)) = NANV; }
static void extended(Rng &r) {
  int J = r.b(0.7) ? 2 : r.i(3, 4), k = r.i(1, 3), n = r.i(30, 70) + 15 * J; bool lg = r.b(), weight = r.b(), we = r.b(), nan = r.b(0.6), det = J == 2 && r.b(0.8); Gen g0 = gen(r, n, k, J, weight); if (r.b(0.3)) for (int j = 1; j < k; j++) for (int i = 0; i < n; i++) g0.X(i, j) = roundl(g0.X(i, j)); M D = assemble(g0, weight); if (nan) punch(r, D);
  Gen g = split(completeRows(D), weight); Ml q = ml(g.y, g.X, LDv(g.w), J, lg); if (!q.ok) throw Skip(); int nf = r.b(0.4) ? 0 : r.b(0.3) ? n + r.i(1, 40) : r.i(1, 5); RocOptions o = rocopt(r);
  std::vector<M> tabs; std::vector<Matrix<Tv>> tm; std::vector<std::unique_ptr<MX>> own; if (det && r.b(0.6)) for (int c = r.i(1, 3); c > 0; c--) { tabs.push_back(rndCostTable(r, J)); own.emplace_back(new MX(tabs.back())); tm.push_back(own.back()->m); }
  M P = probs(q, g.X, J, lg); Sc s; if (J == 2) { s = scores(g, P, weight && we, o, tabs); if (det && s.amb) throw Skip(); }
  DiscreteChoiceExtended e(J == 2 ? MT::kBinary : MT::kOrdered, lg ? DT::kLogit : DT::kProbit, n + r.i(0, 4), D.c, weight, nan, J, det, nf, nullptr, tabs.empty() ? nullptr : &tm, we); e.Model->Optim.TolFunction = 1e-13;
  double fl = fillOf(r.i(0, 3)); Buf st(e.StorageSize, fl), wk(e.WorkSize, fl); MX d(D); M NX = rnd(r, nf, k); for (int i = 0; i < nf; i++) NX(i, 0) = 1; MX nx(NX); auto before = d.b.vec(); std::string at = fmt("%s n=%d/%d k=%d weights=%d/%d details=%d forecasts=%d tables=%zu pess=%d partial=%d", nm(J, lg).c_str(), (int)g.y.size(), n, k, (int)weight, (int)we, (int)det, nf, tabs.size(), (int)o.Pessimistic, (int)!std::isnan(o.LowerThreshold)); mon().note(at);
  int reps = r.b(0.2) ? 2 : 1; for (int z = 0; z < reps; z++) e.Calculate(d.m, st, wk, true, nf ? &nx.m : nullptr, o);
  VCHECK(close(before, d.b.vec(), 0, 0), "ext.input", "%s data modified", at.c_str()); cmpModel(*e.Model, q, "ext", at, g.y, LDv(g.w), J, det);
  if (nf) VSAME(e.PredProbs, probs(q, NX, J, lg), 1e-4, "ext.pred", "%s predicted probabilities", at.c_str());
  if (det) { VSAME(e.Projections, P, 1e-4, "ext.projection", "%s projections", at.c_str()); VEQ(e.BrierScore, (double)s.brier, "ext.brier", 1e-4, 1e-5, at + " Brier score"); VEQ(e.Auc, (double)s.auc, "ext.auc", 1e-8, 1e-8, at + " AUC"); if (!tabs.empty()) VEQ(e.CostRatioAvg, (double)s.cost, "ext.cost", 1e-8, 1e-8, at + " cost ratio"); mon().count("insample_scores"); }
  mon().distinct(fmt("ext %s %d %d %d %d %d %zu", nm(J, lg).c_str(), k, (int)weight, (int)nan, (int)det, nf > 0, tabs.size()));
}
struct SimR { int valid = 0, failed = 0; LD brier = 0, auc = 0; std::vector<LD> sums, counts; M freq; bool amb = false; };
static SimR simRef(MX &D, bool weight, bool we, bool lg, double ratio, int fix, int iters, unsigned seed, const RocOptions &o, const std::vector<M> &tabs) {
  SimR s; s.sums.assign(tabs.size(), 0); s.counts.assign(tabs.size(), 0); s.freq = M(10, 2); int n = D.m.RowsCount, c = D.m.ColsCount; DataSplitDiscrete sp(n, c, 2); Buf st(sp.StorageSize); VI wi(sp.WorkSizeI); std::mt19937 eng(seed); try { sp.Calculate(D.m, st, ratio, fix); } catch (std::exception &) { s.amb = true; return s; }
  for (int it = 0; it < iters; it++) { try { sp.Shuffle(D.m, wi.data(), eng); } catch (std::exception &) { s.amb = true; return s; } Gen a = split(toref(sp.Sample0), weight), b = split(toref(sp.Sample1), weight); bool sing = false; for (int j = 0; j < a.X.c; j++) { bool z = true; for (int i = 0; i < a.X.r; i++) z &= a.X(i, j) == 0; sing |= z; } if (sing) { s.failed++; continue; } Ml q = ml(a.y, a.X, LDv(a.w), 2, lg); if (!q.ok) { s.amb = true; return s; } M P = probs(q, b.X, 2, lg); Sc x = scores(b, P, weight && we, o, tabs, &s.sums, &s.counts); if (x.amb || !std::isfinite((double)x.auc)) { s.amb = true; return s; }
    s.valid++; s.brier += x.brier; s.auc += x.auc; for (size_t i = 0; i < b.y.size(); i++) { LD p = P((int)i, (int)b.y[i]) * 10; if (fabsl(p - roundl(p)) < 1e-4) s.amb = true; s.freq(std::min((int)p, 9), (int)b.y[i]) += b.w[i]; } if (s.amb) return s; }
  s.brier /= s.valid; s.auc /= s.valid; return s;
}
static void simulate(Rng &r) {
  int k = r.i(1, 3), n = r.i(50, 110); bool lg = r.b(), weight = r.b(0.4), we = r.b(); Gen g = gen(r, n, k, 2, weight, 0.6); bool rare = r.b(0.25); if (rare) { int i0 = -1, i1 = -1; for (int i = 0; i < n; i++) (g.y[i] == 0 ? i0 : i1) = i; if (i0 >= 0 && i1 >= 0) { double u = r.u(0.5, 1.5); for (int i = 0; i < n; i++) g.X(i, g.X.c - 1) = i == i0 || i == i1 ? u : 0; } } MX D(assemble(g, weight)); double ratio = r.pick({0.5, 0.65, 0.75}); int fix = r.b(0.25) ? (int)(n * ratio) : 0, iters = r.i(1, 4); unsigned seed = r.i(1, 100000); RocOptions o = rocopt(r);
  std::vector<M> tabs; std::vector<Matrix<Tv>> tm; std::vector<std::unique_ptr<MX>> own; if (r.b(0.6)) for (int c = r.i(1, 3); c > 0; c--) { tabs.push_back(rndCostTable(r, 2)); own.emplace_back(new MX(tabs.back())); tm.push_back(own.back()->m); }
  bool brier = r.b(0.6), auc = r.b(0.6), fr = r.b(0.5); if (!brier && !auc && !fr && tabs.empty()) brier = true; SimR s = simRef(D, weight, we, lg, ratio, fix, iters, seed, o, tabs); if (s.amb) throw Skip(); int extra = r.b(0.5) ? 0 : r.i(1, 6); if (fix && fix >= n) throw Skip();
  auto m = DiscreteChoiceSimBase::GetFromType(weight, MT::kBinary, lg ? DT::kLogit : DT::kProbit, n + extra, D.m.ColsCount, 2, ratio, fix, (Ti)tabs.size(), brier, auc, fr, nullptr, we); m->Seed = seed; m->SimulationMax = iters; m->Optim.TolFunction = 1e-13;
  double fl = fillOf(r.i(0, 3)); Buf st(m->StorageSize, fl), wk(m->WorkSize, fl); std::unique_ptr<Ti[]> wi(new Ti[m->WorkSizeI]); bool cancel = false; auto before = D.b.vec(); std::string at = fmt("%s n=%d (declared %d) k=%d weights=%d/%d ratio=%g fix=%d iters=%d tables=%zu brier=%d auc=%d freq=%d", nm(2, lg).c_str(), n, n + extra, k, (int)weight, (int)we, ratio, fix, iters, tabs.size(), (int)brier, (int)auc, (int)fr); mon().note(at);
  std::set<const char *> errs; int reps = r.b(0.3) ? 2 : 1; Ti lim = r.b(0.5) ? INT32_MAX : r.i(0, 3); bool rej = s.failed > lim || s.valid == 0; if (s.failed) mon().count("failed_splits", s.failed); for (int z = 0; z < reps; z++) { bool th = false; std::string ms; try { m->Calculate(D.m, tabs.empty() ? nullptr : &tm, st, wk, wi.get(), cancel, o, true, r.b() ? &errs : nullptr, lim); } catch (std::exception &ex) { th = true; ms = ex.what(); } VCHECK(th == rej, "sim.limit", "%s %d failed splits, %d allowed: rejected=%d %s", at.c_str(), s.failed, lim, (int)th, ms.c_str()); if (th) { mon().count("rejected_simulations"); return; } }
  VCHECK(close(before, D.b.vec(), 0, 0), "sim.input", "%s data modified", at.c_str()); VCHECK(m->ValidSimulationCount == s.valid && m->SimulationCounter == iters, "sim.count", "%s valid %d counter %d", at.c_str(), m->ValidSimulationCount, m->SimulationCounter);
  int n0 = fix ? fix : (int)std::round(n * ratio); VCHECK(m->N1 == n - n0, "sim.n1", "%s test size %d expected %d", at.c_str(), m->N1, n - n0);
  if (brier) VEQ(m->BrierScore, (double)s.brier, "sim.brier", 1e-4, 1e-5, at + " Brier score"); if (auc) VEQ(m->Auc, (double)s.auc, "sim.auc", 1e-8, 1e-8, at + " AUC"); for (size_t q = 0; q < tabs.size(); q++) VEQ(m->CostRatios.Data[q], (double)(s.sums[q] / s.counts[q]), "sim.cost", 1e-8, 1e-8, at + " cost ratio"); if (fr) VSAME(m->FrequencyTable, s.freq, 1e-9, "sim.freq", "%s frequency table", at.c_str());
  mon().distinct(fmt("sim %d %d %d %d %d %zu %d%d%d", (int)lg, k, (int)weight, fix > 0, iters, tabs.size(), (int)brier, (int)auc, (int)fr)); mon().count("simulated_splits", s.valid);
}
static void modelset(Rng &r) {
  int J = r.b(0.75) ? 2 : 3, E = r.i(2, 4), n = r.i(50, 90) + 20 * (J - 2); bool weight = r.b(0.4), nan = r.b(0.5), logit = r.b(0.7), probit = !logit || r.b(0.5); Gen g = gen(r, n, E, J, weight, 0.6); if (J == 2 && r.b(0.25)) { int i0 = -1, i1 = -1; for (int i = 0; i < n; i++) (g.y[i] == 0 ? i0 : i1) = i; if (i0 >= 0 && i1 >= 0) { double u = r.u(0.5, 1.5); for (int i = 0; i < n; i++) g.X(i, g.X.c - 1) = i == i0 || i == i1 ? u : 0; } } M D0 = assemble(g, weight); if (nan) for (int q = r.i(1, 4); q > 0; q--) D0(r.i(0, n - 1), r.i(0, D0.c - 1)) = NANV; MX D(D0);
  SearchData data; data.Data.SetData(D.m.Data, n, D0.c); data.NumEndo = 1; data.NumExo = E; data.HasIntercept = true; data.HasWeight = weight; SearchCombinations co = SearchCombinations(); co.Partitions.push_back({1}); for (int j = 2; j <= E;) { VI p; for (int q = r.b(0.7) ? 1 : 2; q > 0 && j <= E; q--) p.push_back(j++); co.Partitions.push_back(p); } co.NumFixPartitions = r.b(0.8) ? 1 : std::min<int>(2, co.Partitions.size()); for (int s = co.NumFixPartitions; s <= (int)co.Partitions.size(); s++) if (r.b(0.7)) co.Sizes.push_back(s); if (co.Sizes.empty()) co.Sizes.push_back(co.NumFixPartitions); co.NumTargets = 1; co.InnerGroups = {{0}};
  SearchItems it; it.LengthTargets = 1; it.LengthEndogenous = 1; it.LengthExogenous = E; it.KeepAll = true; it.KeepModelEvaluations = true; it.KeepBestCount = r.i(1, 3); if (r.b()) it.Length1 = E + J - 2;
  SearchMetricOptions me; std::vector<GoodnessOfFitType> mi{GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kFrequencyCost}; if (J == 2) { mi.push_back(GoodnessOfFitType::kAuc); mi.push_back(GoodnessOfFitType::kBrier); } r.shuffle(mi); mi.resize(r.i(1, mi.size())); std::vector<ScoringType> mo; if (J == 2 && r.b(0.6)) { mo = {ScoringType::kBrier, ScoringType::kAuc, ScoringType::kFrequencyCost}; r.shuffle(mo); mo.resize(r.i(1, 3)); if (r.b(0.4)) mi.clear(); } me.MetricsIn = mi; me.MetricsOut = mo; me.WeightedEval = r.b(); int seed = r.i(1, 99999); bool neg = r.b(0.7); me.Seed = neg ? -seed : seed; me.SimFixSize = mo.empty() ? 0 : r.i(1, 3); me.TrainRatio = 0.7; if (r.b(0.2)) me.TrainFixSize = (int)(n * 0.6);
  bool cost = std::count(mi.begin(), mi.end(), GoodnessOfFitType::kFrequencyCost) || std::count(mo.begin(), mo.end(), ScoringType::kFrequencyCost); std::vector<M> tabs; std::vector<Matrix<Tv>> tm; std::vector<std::unique_ptr<MX>> own; if (cost) for (int c = r.i(1, 2); c > 0; c--) { tabs.push_back(rndCostTable(r, J)); own.emplace_back(new MX(tabs.back())); tm.push_back(own.back()->m); }
  SearchModelChecks ch; ch.Estimation = !mi.empty() || it.Length1 > 0 || r.b(); int lim = r.i(0, 5); if (lim == 0) ch.MinObsCount = n - r.i(0, 3); if (lim == 1) ch.MinDof = n - r.i(0, 7); if (lim == 2) ch.MaxAic = r.u(40, 200); if (lim == 3) ch.MaxSic = r.u(40, 200); if (lim == 4 && J == 2) ch.MaxConditionNumber = r.u(1, 30); if (me.SimFixSize && r.b(0.3)) ch.MinOutSim = r.i(0, me.SimFixSize); bool cnAll = ch.Estimation; if (lim <= 3 || !mi.empty()) ch.Estimation = true;
  SearchOptions op; op.Parallel = r.b(0.4); op.ReportInterval = 0; Newton nw; nw.TolFunction = 1e-13; RocOptions ro; if (J == 2) ro = rocopt(r);
  std::string at = fmt("J=%d n=%d exo=%d weights=%d/%d logit=%d probit=%d sizes=%zu in=%zu out=%zu check=%d nan=%d seed=%d", J, n, E, (int)weight, (int)me.WeightedEval, (int)logit, (int)probit, co.Sizes.size(), mi.size(), mo.size(), lim, (int)nan, (int)me.Seed); mon().note(at);
  // reference
  int w = weight; long expected = 0, ok = 0; std::map<std::tuple<int, int, std::string>, double> want; std::map<std::pair<int, int>, std::vector<std::tuple<double, double, double>>> coefs; bool amb = false; auto sig = [](VI v) { std::sort(v.begin(), v.end()); return str(std::vector<int>(v.begin(), v.end())); }; auto near = [&](LD a, LD b) { if (fabsl(a - b) < 1e-4L * (1 + fabsl(b))) amb = true; };
  int sc = 0; for (int size : co.Sizes) { sc++; if (size < co.NumFixPartitions) continue; int P = co.Partitions.size(); unsigned sd = neg ? seed : seed + sc;
    for (int mask = 0; mask < (1 << P); mask++) { if (__builtin_popcount(mask) != size) continue; bool fx = true; for (int i = 0; i < co.NumFixPartitions; i++) if (!(mask >> i & 1)) fx = false; if (!fx) continue; std::vector<VI> combos{{}}; for (int i = 0; i < P; i++) if (mask >> i & 1) { std::vector<VI> nx; for (auto &c : combos) for (auto x : co.Partitions[i]) { auto d2 = c; d2.push_back(x); nx.push_back(d2); } combos = nx; }
      for (auto &c : combos) for (int dist = 0; dist < 2; dist++) { if (dist == 0 ? !logit : !probit) continue; expected++; if (amb) continue; bool lg = dist == 0; M A(n, 1 + w + (int)c.size()); for (int i = 0; i < n; i++) { A(i, 0) = D0(i, 0); if (w) A(i, 1) = D0(i, 1); for (size_t j = 0; j < c.size(); j++) A(i, 1 + w + (int)j) = D0(i, c[j] + w); } A = completeRows(A); Gen q = split(A, weight); bool bad = false; Ml f; int kk = c.size() + J - 2;
        if (ch.Estimation) { if (ch.MinObsCount > 0 && A.r < ch.MinObsCount) bad = true; if (ch.MinDof > 0 && A.r - kk < ch.MinDof) bad = true; if (!bad) { f = ml(q.y, q.X, LDv(q.w), J, lg); if (!f.ok) { amb = true; continue; } LD aic = 2 * kk - 2 * f.ll, sic = logl(A.r) * kk - 2 * f.ll; if (std::isfinite(ch.MaxAic)) { near(aic, ch.MaxAic); if (aic > ch.MaxAic) bad = true; } if (std::isfinite(ch.MaxSic)) { near(sic, ch.MaxSic); if (sic > ch.MaxSic) bad = true; } if (cnAll && ch.MaxConditionNumber < 1e10) { near(f.cn, ch.MaxConditionNumber); if (f.cn > ch.MaxConditionNumber) bad = true; } } }
        if (bad) continue; SimR o; if (!mo.empty()) { MX AA(A); o = simRef(AA, weight, me.WeightedEval, lg, me.TrainRatio, me.TrainFixSize, me.SimFixSize, sd, ro, tabs); if (o.amb) { amb = true; continue; } if (o.failed) mon().count("search_failed_splits", o.failed); if (o.valid == 0 || o.failed > me.SimFixSize - ch.MinOutSim) { mon().count("search_rejected_simulations"); continue; } }
        std::map<int, double> vals; if (ch.Estimation) { M Pr = probs(f, q.X, J, lg); Sc s; if (J == 2) { s = scores(q, Pr, weight && me.WeightedEval, ro, tabs); bool order = std::count(mi.begin(), mi.end(), GoodnessOfFitType::kAuc) || std::count(mi.begin(), mi.end(), GoodnessOfFitType::kFrequencyCost); if (order && s.amb) { amb = true; continue; } } else if (!tabs.empty()) { std::vector<LD> ww(q.y.size(), 1); if (weight && me.WeightedEval) ww = LDv(q.w); s.cost = refCost(tabs, q.y, [&](int i, int j) { return (double)Pr(i, j); }, ww); for (auto &t : tabs) for (int i = 0; i < A.r; i++) for (int j = 0; j < t.r - 1; j++) if (fabsl(Pr(i, (int)q.y[i]) - t(j, 0)) < 1e-5) amb = true; }
          for (size_t e = 0; e < mi.size(); e++) vals[e] = (double)(mi[e] == GoodnessOfFitType::kAic ? 2 * kk - 2 * f.ll : mi[e] == GoodnessOfFitType::kSic ? logl(A.r) * kk - 2 * f.ll : mi[e] == GoodnessOfFitType::kAuc ? s.auc : mi[e] == GoodnessOfFitType::kBrier ? s.brier : s.cost); }
        for (size_t e = 0; e < mo.size(); e++) { LD cm = 0; for (size_t t = 0; t < tabs.size(); t++) cm += o.sums[t] / o.counts[t] / tabs.size(); vals[mi.size() + e] = (double)(mo[e] == ScoringType::kBrier ? o.brier : mo[e] == ScoringType::kAuc ? o.auc : cm); }
        ok++; for (auto &v : vals) { want[{v.first, dist, sig(c)}] = v.second; if (it.Length1) for (size_t j = 0; j < c.size(); j++) coefs[{v.first, c[j] - 1}].push_back({v.second, (double)f.th((int)j, 0), (double)f.V((int)j, (int)j)}); } } } }
  if (amb) throw Skip();
  std::unique_ptr<DiscreteChoiceModelsetBase> ms(DiscreteChoiceModelsetBase::GetFromTypes(J == 2, weight, data, co, op, it, me, ch, D.m, tm, logit, probit, nw, ro)); Buf wk(ms->Modelset.WorkSize, fillOf(r.i(0, 3))); std::unique_ptr<Ti[]> wi(new Ti[ms->Modelset.WorkSizeI]); auto before = D.b.vec(); ms->Start(wk, wi.get());
  VCHECK(close(before, D.b.vec(), 0, 0), "set.input", "%s data modified", at.c_str()); SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2; ms->Modelset.CombineInfo(info, l0, l1, l2); std::map<std::tuple<int, int, std::string>, double> got; int nE = mi.size() + mo.size();
  if (!l0.empty()) for (int e = 0; e < nE; e++) { std::vector<std::shared_ptr<EstimationKeep>> v; ms->Modelset.CombineAll(e, 0, 0, l0, v); for (auto &q : v) { VI x; for (auto z : q->Exogenouses) x.push_back(z); VCHECK(got.emplace(std::make_tuple(e, (int)q->Extra.at(0), sig(x)), q->Metric).second, "set.twice", "%s model %s evaluated twice", at.c_str(), sig(x).c_str()); } }
  VCHECK(info.ExpectedCount == expected && info.SearchedCount == expected, "set.count", "%s announced %d, searched %d, the definition gives %ld", at.c_str(), info.ExpectedCount, info.SearchedCount, expected);
  for (auto &x : want) { auto f = got.find(x.first); if (f == got.end()) { mon().viol("set.missing", at + fmt(" metric %d dist %d model %s is missing", std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str())); continue; } int e = std::get<0>(x.first); std::string nmx = e < (int)mi.size() ? ToString(mi[e]) : ToString(mo[e - mi.size()]); VEQ(f->second, x.second, "set.metric." + nmx, 1e-4, 1e-5, at + fmt(" metric %s dist %d model %s", nmx.c_str(), std::get<1>(x.first), std::get<2>(x.first).c_str())); }
  for (auto &x : got) VCHECK(want.count(x.first), "set.extra", "%s metric %d dist %d model %s should not be there", at.c_str(), std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str());
  long fails = 0; std::string msgs; for (auto &x : info.FailsCount) { fails += x.second; msgs += x.first + ";"; } VCHECK(fails == expected - ok, "set.fails", "%s %ld failures reported (%s), %ld models are invalid", at.c_str(), fails, msgs.c_str(), expected - ok);
  if (it.Length1 && !l1.empty()) for (int e = 0; e < nE; e++) for (int j = 0; j < E; j++) { std::vector<std::shared_ptr<EstimationKeep>> b; ms->Modelset.CombineBests(e, 0, j, l1, b); auto c = coefs.find({e, j}); size_t cn = c == coefs.end() ? 0 : c->second.size(); VCHECK(b.size() == std::min<size_t>(cn, it.KeepBestCount), "set.coef.count", "%s metric %d exo %d: %zu best coefficients of %zu", at.c_str(), e, j, b.size(), cn); for (auto &q : b) { bool f = false; for (auto &z : c->second) if (close(std::get<0>(z), q->Metric, 1e-4, 1e-5) && close(std::get<1>(z), q->Mean, 1e-4, 1e-4) && close(std::get<2>(z), q->Variance, 1e-2, 1e-6)) f = true; VCHECK(f, "set.coef", "%s metric %d exo %d: coefficient %.9g (variance %.9g) belongs to no model with metric %.9g", at.c_str(), e, j, q->Mean, q->Variance, q->Metric); } mon().count("coefficients_compared", b.size()); }
  mon().distinct(fmt("set %d %d %d %d %d %zu %zu %d", J, E, (int)weight, (int)logit, (int)probit, mi.size(), mo.size(), lim)); mon().count("models_compared", want.size()); mon().sample(at + fmt(" -> %ld models, %ld valid", expected, ok));
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("ml", 4000, 40000, mlcase); m.section("extended", 3000, 30000, extended); m.section("simulate", 2000, 20000, simulate); m.section("modelset", 1500, 15000, modelset);
  return m.done();
}
