// Monitors of the regression (SUR) models against closed-form least squares in long double.
#include "ldtm.h"
#include "sur.h"
using ref::M; typedef long double LD; using VI = std::vector<Ti>;
struct Fit { M B, S, XtXi, GV, E, YH, SE; LD ll, aic, sic, hqic, r2, cn; };
static LD logdetSS(const M &S) { LD d = ref::det(S); return logl(d); }
static void finish(Fit &f, const M &Y, const M &X, int kq) {
  int N = Y.r, m = Y.c; f.YH = X * f.B; f.E = Y - f.YH; f.S = (LD)(1.0L / N) * (f.E.t() * f.E);
  f.ll = -0.5L * N * (m * logl(2 * M_PIl) + logdetSS(f.S)) - 0.5L * m * N;
  f.aic = 2 * kq - 2 * f.ll; f.sic = logl(N) * kq - 2 * f.ll; f.hqic = 2 * logl(logl(N)) * kq - 2 * f.ll;
  LD sse = 0, sst = 0; for (int j = 0; j < m; j++) { LD mu = 0; for (int i = 0; i < N; i++) mu += Y(i, j); mu /= N; for (int i = 0; i < N; i++) { sst += (Y(i, j) - mu) * (Y(i, j) - mu); sse += f.E(i, j) * f.E(i, j); } }
  f.r2 = 1 - sse / sst;
}
static Fit ols(const M &Y, const M &X) {
  Fit f; M A = X.t() * X; f.XtXi = ref::inv(A); f.cn = ref::norm1(A) * ref::norm1(f.XtXi); f.B = f.XtXi * (X.t() * Y); finish(f, Y, X, X.c * Y.c);
  f.GV = ref::kron(f.S, f.XtXi); f.SE = M(X.c, Y.c); for (int i = 0; i < X.c * Y.c; i++) f.SE.d[i] = sqrtl(f.GV(i, i)); return f;
}
static Fit fgls(const M &Y, const M &X, const M &R) {
  Fit u = ols(Y, X), f; int N = Y.r, m = Y.c; M Si = ref::inv(u.S); M A = R.t() * ref::kron(Si, X.t() * X) * R; M GV = ref::inv(A);
  M y(N * m, 1); y.d = Y.d; M g = GV * (R.t() * (ref::kron(Si, X.t()) * y)); M b = R * g; f.B = M(X.c, m); f.B.d = b.d; finish(f, Y, X, X.c * m); f.GV = GV;
  M V = R * GV * R.t(); f.SE = M(X.c, m); for (int i = 0; i < X.c * m; i++) f.SE.d[i] = sqrtl(V(i, i)); f.cn = NANV; return f;
}
static LD tcdf(LD t, LD df) { return Distribution<DistributionType::kT>((Tv)df).GetCdf((Tv)t); } // checked separately by the distribution monitor
static void gen(Rng &r, int N, int m, int k, M &Y, M &X, double noise = 1) {
  X = rnd(r, N, k, r.pick({1.0, 1.0, 5.0})); if (r.b(0.7)) for (int i = 0; i < N; i++) X(i, 0) = 1;
  M B = rnd(r, k, m, 2); for (auto &b : B.d) if (r.b(0.3)) b = 0;
  M C = rnd(r, m, m); M U = rnd(r, N, m, noise) * C; Y = X * B + U;
}
static bool wellc(const M &X) { return ref::rcond(X.t() * X) > 1e-7; }
static bool okS(const Fit &f) { return ref::rcond(f.S) > 1e-8; }
static void cmpFit(const Sur &s, const Fit &f, const std::string &k, double tol, const std::string &at, bool details, int N, bool un) {
  VSAME(s.beta, f.B, tol, k + ".beta", "%s coefficients", at.c_str()); VSAME(s.resid, f.E, tol, k + ".resid", "%s residuals", at.c_str()); VSAME(s.yhat, f.YH, tol, k + ".yhat", "%s fitted", at.c_str());
  VSAME(s.resid_var, f.S, tol, k + ".sigma", "%s residual covariance", at.c_str()); VSAME(s.gamma_var, f.GV, tol * 10, k + ".gammavar", "%s coefficient covariance", at.c_str());
  VEQ(s.logLikelihood, (double)f.ll, k + ".ll", tol, tol * N, at + " log-likelihood");
  if (details) {
    VSAME(s.e_beta_std, f.SE, tol * 10, k + ".std", "%s standard errors", at.c_str());
    for (size_t i = 0; i < f.B.d.size(); i++) if (f.SE.d[i] > 1e-10L) { double t = (double)(f.B.d[i] / f.SE.d[i]); VEQ(s.e_beta_t.Data[i], t, k + ".t", tol * 100, 1e-8, at + " t"); VEQ(s.e_beta_prob.Data[i], (double)(2 * (1 - tcdf(std::fabs(t), N))), k + ".p", 1e-6, 1e-9, at + " p-value"); }
    VEQ(s.r2, (double)f.r2, k + ".r2", tol, tol, at + " R2");
    if (un) { VEQ(s.Aic, (double)f.aic, k + ".aic", tol, tol * N, at + " AIC"); VEQ(s.Sic, (double)f.sic, k + ".sic", tol, tol * N, at + " SIC"); VEQ(s.Hqic, (double)f.hqic, k + ".hqic", tol, tol * N, at + " HQIC"); }
  }
  if (un) VEQ(s.condition_number, (double)f.cn, k + ".cn", 1e-5, 1e-9, at + " condition number");
}
static void estimate(Rng &r) {
  int m = r.i(1, 4), k = r.i(1, 5), N = r.i(k + m + 2, k + m + 25); M Y, X; gen(r, N, m, k, Y, X); if (!wellc(X)) throw Skip(); Fit f = ols(Y, X); if (!okS(f)) throw Skip();
  bool det = r.b(0.8); int over = r.b(0.5) ? 0 : r.i(1, 5); Sur s(N + over, m, k, false, det);
  double fl = fillOf(r.i(0, 3)); Buf st(s.StorageSize, fl), w(s.WorkSize, fl); MX y(Y), x(X); int reps = r.i(1, 2);
  if (reps == 2) { M Y2, X2; int n2 = r.i(k + m + 2, N); gen(r, n2, m, k, Y2, X2); MX y2(Y2), x2(X2); try { s.Calculate(y2.m, x2.m, st, w); } catch (std::exception &) {} }
  std::string at = fmt("N=%d m=%d k=%d reuse=%d", N, m, k, reps > 1); mon().note(at);
  s.Calculate(y.m, x.m, st, w); cmpFit(s, f, "ols", 1e-7, at, det, N, true);
  VCHECK(close(y.b.vec(), Y.vec(), 0, 0) && close(x.b.vec(), X.vec(), 0, 0), "ols.input", "%s the data was modified", at.c_str());
  if (det && s.f >= 0) VEQ(s.f_prob, 1 - Distribution<DistributionType::kF>(s.f_prob_d1, s.f_prob_d2).GetCdf(s.f), "ols.fprob", 1e-9, 1e-12, at + " F p-value");
  // projections
  int n = r.i(1, 5); bool var = r.b(0.7); M NX = rnd(r, n, k); SurProjection pr(n + r.i(0, 2), m, k, false, var); Buf ps(pr.StorageSize, fl), pw(pr.WorkSize, fl); MX nx(NX); pr.Calculate(s, nx.m, ps, pw);
  VSAME(pr.Means, NX * f.B, 1e-7, "project.mean", "%s projection means", at.c_str());
  if (var) { M V(n, m); for (int i = 0; i < n; i++) { M x1 = NX.sub(i, 0, 1, k); M Z = ref::kron(M::eye(m), x1); M C = Z * f.GV * Z.t() + f.S; for (int j = 0; j < m; j++) V(i, j) = C(j, j); } VSAME(pr.Variances, V, 1e-6, "project.var", "%s projection variances", at.c_str()); }
  // singular data is reported
  if (k >= 2 && r.b(0.3)) { M X3 = X; for (int i = 0; i < N; i++) X3(i, 1) = 0; MX x3(X3); VCHECK(throws([&] { s.Calculate(y.m, x3.m, st, w); }), "ols.singular", "%s singular regressors accepted", at.c_str()); }
  mon().distinct(fmt("ols %d %d %d %d", N, m, k, (int)det)); mon().sample(at + fmt(" ll=%.6Lf", f.ll));
}
static M rndR(Rng &r, int km, int q) { M R(km, q); if (r.b(0.6)) { auto p = r.perm(km); p.resize(q); std::sort(p.begin(), p.end()); for (int j = 0; j < q; j++) R(p[j], j) = 1; } else R = rndint(r, km, q, -1, 1); return R; }
static void restricted(Rng &r) {
  int m = r.i(1, 3), k = r.i(1, 4), N = r.i(k + m + 4, k + m + 20), km = k * m, q = r.i(1, km); M Y, X; gen(r, N, m, k, Y, X); if (!wellc(X)) throw Skip(); Fit u = ols(Y, X); if (!okS(u)) throw Skip();
  M R = rndR(r, km, q); if (ref::rcond(R.t() * R) < 1e-4) throw Skip(); Fit f = fgls(Y, X, R); if (!okS(f)) throw Skip();
  bool det = r.b(0.8); Sur s(N + r.i(0, 3), m, k, true, det); double fl = fillOf(r.i(0, 3)); Buf st(s.StorageSize, fl), w(s.WorkSize, fl); MX y(Y), x(X), RR(R);
  std::string at = fmt("N=%d m=%d k=%d q=%d", N, m, k, q); mon().note(at);
  s.Calculate(y.m, x.m, st, w, &RR.m); cmpFit(s, f, "restricted", 1e-6, at, det, N, false);
  VCHECK(close(y.b.vec(), Y.vec(), 0, 0) && y.m.RowsCount == N && y.m.ColsCount == m, "restricted.input", "data changed");
  int n = r.i(1, 4); bool var = r.b(0.7); M NX = rnd(r, n, k); SurProjection pr(n, m, k, true, var); Buf ps(pr.StorageSize, fl), pw(pr.WorkSize, fl); MX nx(NX); pr.Calculate(s, nx.m, ps, pw);
  VSAME(pr.Means, NX * f.B, 1e-6, "rproject.mean", "%s projection means", at.c_str());
  if (var) { M V(n, m); M G = R * f.GV * R.t(); for (int i = 0; i < n; i++) { M Z = ref::kron(M::eye(m), NX.sub(i, 0, 1, k)); M C = Z * G * Z.t() + f.S; for (int j = 0; j < m; j++) V(i, j) = C(j, j); } VSAME(pr.Variances, V, 1e-5, "rproject.var", "%s projection variances", at.c_str()); }
  mon().distinct(fmt("res %d %d %d %d", N, m, k, q));
}
// significance search, replayed by the definition; a p-value within eps of the threshold makes the case ambiguous
static bool refSig(const M &Y, const M &X, int maxIter, double prob, Fit &f, std::vector<int> &sig, int &iters, bool &none) {
  f = ols(Y, X); int km = X.c * Y.c; none = false; std::vector<char> alive(km, 1); std::vector<double> p(km); int cs = km; sig.clear(); for (int i = 0; i < km; i++) sig.push_back(i);
  auto probs = [&]() { for (int i = 0; i < km; i++) p[i] = f.SE.d[i] > 0 && alive[i] ? (double)(2 * (1 - tcdf(fabsl(f.B.d[i] / f.SE.d[i]), Y.r))) : NANV; }; probs();
  for (iters = 0; iters < maxIter; iters++) {
    std::vector<int> s; for (int i = 0; i < km; i++) { if (!alive[i]) continue; if (std::fabs(p[i] - prob) < 1e-6) return false; if (p[i] <= prob) s.push_back(i); }
    if ((int)s.size() == cs) return true; cs = s.size(); if (s.empty()) { none = true; return true; }
    for (int i = 0; i < km; i++) alive[i] = std::count(s.begin(), s.end(), i) > 0; sig = s;
    M R(km, (int)s.size()); for (size_t j = 0; j < s.size(); j++) R(s[j], (int)j) = 1; 
    // each step starts from the residual covariance of the previous one
    int N = Y.r, m = Y.c; M Si = ref::inv(f.S); M GV = ref::inv(R.t() * ref::kron(Si, X.t() * X) * R); M y(N * m, 1); y.d = Y.d; M b = R * (GV * (R.t() * (ref::kron(Si, X.t()) * y)));
    Fit g; g.B = M(X.c, m); g.B.d = b.d; finish(g, Y, X, km); g.GV = GV; M V = R * GV * R.t(); g.SE = M(X.c, m); for (int i = 0; i < km; i++) g.SE.d[i] = sqrtl(V(i, i)); f = g; if (!okS(f)) return false; probs();
  }
  return true;
}
static void sigsearch(Rng &r) {
  int m = r.i(1, 3), k = r.i(1, 4), N = r.i(k + m + 8, k + m + 30), km = k * m; M Y, X; gen(r, N, m, k, Y, X, r.pick({0.3, 1.0})); if (!wellc(X)) throw Skip();
  int it = r.i(1, 6); double prob = r.pick({0.01, 0.1, 0.5, 0.9999}); Fit f; std::vector<int> sig; int iters; bool none; { Fit u = ols(Y, X); if (!okS(u)) throw Skip(); } if (!refSig(Y, X, it, prob, f, sig, iters, none)) throw Skip();
  Sur s(N, m, k, true, true, it); double fl = fillOf(r.i(0, 3)); Buf st(s.StorageSize, fl), w(s.WorkSize, fl); MX y(Y), x(X), R(km, km, 3); std::string at = fmt("N=%d m=%d k=%d iter=%d prob=%g", N, m, k, it, prob); mon().note(at);
  bool th = throws([&] { s.Calculate(y.m, x.m, st, w, &R.m, prob); });
  VCHECK(th == none, "sig.none", "%s all-insignificant: threw=%d expected %d", at.c_str(), (int)th, (int)none); if (th) return;
  bool firstAll = iters == 0 && (int)sig.size() == km;
  cmpFit(s, f, firstAll ? "sigall" : "sig", 1e-6, at, true, N, false); VCHECK(s.mSigSearchIter == iters, "sig.iter", "%s iterations %d expected %d", at.c_str(), s.mSigSearchIter, iters);
  M G; { M RR(km, (int)sig.size()); for (size_t j = 0; j < sig.size(); j++) RR(sig[j], (int)j) = 1; G = RR * f.GV * RR.t(); VSAME(R.m, RR, 1e-12, firstAll ? "sigall.R" : "sig.R", "%s restriction matrix", at.c_str()); }
  if (s.pR->ColsCount == (Ti)sig.size()) { int n = 2; M NX = rnd(r, n, k); SurProjection pr(n, m, k, true, true); Buf ps(pr.StorageSize, fl), pw(pr.WorkSize, fl); MX nx(NX); pr.Calculate(s, nx.m, ps, pw); VSAME(pr.Means, NX * f.B, 1e-6, "sig.project.mean", "%s", at.c_str());
    M V(n, m); for (int i = 0; i < n; i++) { M Z = ref::kron(M::eye(m), NX.sub(i, 0, 1, k)); M C = Z * G * Z.t() + f.S; for (int j = 0; j < m; j++) V(i, j) = C(j, j); } VSAME(pr.Variances, V, 1e-5, firstAll ? "sigall.project.var" : "sig.project.var", "%s projection variances", at.c_str()); }
  mon().distinct(fmt("sig %d %d %d %d %zu %d", N, m, k, it, sig.size(), iters)); mon().count("significance_searches");
}
static M completeRows(const M &D) { std::vector<int> keep; for (int i = 0; i < D.r; i++) { bool ok = true; for (int j = 0; j < D.c; j++) if (std::isnan((double)D(i, j))) ok = false; if (ok) keep.push_back(i); } M o((int)keep.size(), D.c); for (size_t i = 0; i < keep.size(); i++) for (int j = 0; j < D.c; j++) o((int)i, j) = D(keep[i], j); return o; }
static M hcat(const M &a, const M &b) { M o(a.r, a.c + b.c); for (int i = 0; i < a.r; i++) { for (int j = 0; j < a.c; j++) o(i, j) = a(i, j); for (int j = 0; j < b.c; j++) o(i, a.c + j) = b(i, j); } return o; }
static void extended(Rng &r) {
  int m = r.i(1, 3), k = r.i(1, 4), N = r.i(k + m + 6, k + m + 25); M Y, X; gen(r, N, m, k, Y, X); M D = hcat(Y, X); bool nan = r.b(0.6); if (nan) for (int q = r.i(0, 4); q > 0; q--) D(r.b(0.3) ? (r.b() ? 0 : N - 1) : r.i(0, N - 1), r.i(0, m + k - 1)) = NANV;
  M C = completeRows(D); if (C.r < k + m + 2) throw Skip(); M Yc = C.sub(0, 0, C.r, m), Xc = C.sub(0, m, C.r, k); if (!wellc(Xc)) throw Skip(); Fit f = ols(Yc, Xc); if (!okS(f)) throw Skip();
  int n = r.b(0.5) ? 0 : r.i(1, 4); bool var = r.b(); SurExtended e(N + r.i(0, 3), m, k, false, nan, true, n, 0, var, nullptr, nullptr); double fl = fillOf(r.i(0, 3)); Buf st(e.StorageSize, fl), w(e.WorkSize, fl); MX d(D); M NX = rnd(r, n, k); MX nx(NX);
  SearchModelChecks ch; SearchMetricOptions mo; mo.MetricsIn = {GoodnessOfFitType::kAic}; std::string why; int lim = r.i(0, 7); bool useCh = r.b(0.7);
  auto edge = [&](double v, bool up) { double d2 = r.pick({0.01, 0.5, 3.0}) * (r.b() ? 1 : -1); return v + d2; (void)up; }; bool expectThrow = false;
  ch.Estimation = true;
  if (useCh) switch (lim) {
  case 0: ch.MinObsCount = C.r + r.i(-1, 1); expectThrow = ch.MinObsCount > C.r; break;
  case 1: ch.MinDof = C.r - k + r.i(-1, 1); expectThrow = ch.MinDof > 0 && ch.MinDof > C.r - k; break;
  case 2: ch.MaxAic = edge((double)f.aic, 1); expectThrow = ch.MaxAic < f.aic; break;
  case 3: ch.MaxSic = edge((double)f.sic, 1); expectThrow = ch.MaxSic < f.sic; break;
  case 4: ch.MinR2 = (double)f.r2 + r.pick({-0.1, -0.001, 0.001, 0.1}); expectThrow = ch.MinR2 > f.r2; break;
  case 5: ch.MaxConditionNumber = (double)f.cn * r.pick({0.5, 0.99, 1.01, 2.0}); expectThrow = ch.MaxConditionNumber < f.cn; break;
  default: break; }
  mo.Update(false, false); ch.Update(mo);
  std::string at = fmt("N=%d used=%d m=%d k=%d new=%d nan=%d check=%d", N, C.r, m, k, n, (int)nan, useCh ? lim : -1); mon().note(at);
  bool th = throws([&] { e.Calculate(d.m, m, st, w, nullptr, 0, n ? &nx.m : nullptr, useCh ? &ch : nullptr); });
  VCHECK(th == expectThrow, "ext.check", "%s model check: rejected=%d, should be %d (aic %.6Lf r2 %.6Lf cn %.6Lg)", at.c_str(), (int)th, (int)expectThrow, f.aic, f.r2, f.cn); if (th) { mon().count("models_rejected_by_checks"); return; }
  cmpFit(e.Model, f, "ext", 1e-7, at, true, C.r, true); VSAME(e.Y, Yc, 1e-14, "ext.Y", "%s", at.c_str()); VSAME(e.X, Xc, 1e-14, "ext.X", "%s", at.c_str());
  if (n) { VSAME(e.Projections.Means, NX * f.B, 1e-7, "ext.project", "%s projections", at.c_str()); }
  mon().distinct(fmt("ext %d %d %d %d %d %d", N, m, k, n, (int)nan, useCh ? lim : -1));
}
// ---- out-of-sample simulation
static LD crpsN(LD y, LD mu, LD s) { LD z = (y - mu) / s; LD Ph = 0.5L * erfcl(-z / sqrtl(2)), ph = expl(-z * z / 2) / sqrtl(2 * M_PIl); return s * (z * (2 * Ph - 1) + 2 * ph - 1 / sqrtl(M_PIl)); }
static LD bcinv(LD x, LD l) { if (std::isnan((double)l)) return x; return l == 0 ? expl(x) : powl(x * l + 1, 1 / l); }
struct SimRef { M res; int valid = 0, validCounts = 0; bool ambiguous = false; };
static SimRef simRef(MX &D, int m, int iters, unsigned seed, double ratio, int fix, const std::vector<ScoringType> &mets, double maxCn, const std::vector<double> *lam) {
  int N = D.m.RowsCount, k = D.m.ColsCount - m; SimRef o; o.res = M((int)mets.size(), m); std::mt19937 eng(seed); DataSplit sp(N, m + k); Buf s(sp.StorageSize); std::vector<Ti> wi(sp.WorkSizeI); sp.Calculate(D.m, s, ratio, fix); long cnt = 0; bool needVar = false; for (auto e : mets) if (e == ScoringType::kSign || e == ScoringType::kCrps) needVar = true; (void)needVar;
  for (int it = 0; it < iters; it++) {
    sp.Shuffle(D.m, wi.data(), eng); M A = toref(sp.Sample0), T = toref(sp.Sample1); M Y = A.sub(0, 0, A.r, m), X = A.sub(0, m, A.r, k), Y1 = T.sub(0, 0, T.r, m), X1 = T.sub(0, m, T.r, k);
    double rc = X.r >= X.c ? ref::rcond(X.t() * X) : 0; if (rc < 1e-7) { o.ambiguous = true; return o; } Fit f = ols(Y, X); if (X.r <= X.c + m || ref::rcond(f.S) < 1e-9) { o.ambiguous = true; return o; }
    if (std::fabs((double)f.cn / maxCn - 1) < 1e-6) { o.ambiguous = true; return o; } if (f.cn > maxCn) continue;
    M Mn = X1 * f.B; o.valid++; cnt += T.r;
    for (int j = 0; j < m; j++) for (int i = 0; i < T.r; i++) {
      M Z = ref::kron(M::eye(m), X1.sub(i, 0, 1, k)); M C = Z * f.GV * Z.t() + f.S; LD sd = sqrtl(C(j, j)), y = Y1(i, j), mu = Mn(i, j); if (lam) { y = bcinv(y, (*lam)[j]); mu = bcinv(mu, (*lam)[j]); } LD e = y - mu;
      for (size_t q = 0; q < mets.size(); q++) { LD v = 0; switch (mets[q]) { case ScoringType::kSign: if (fabsl(y * mu) < 1e-12L) o.ambiguous = true; v = y * mu > 0 ? 1 : 0; break; case ScoringType::kMae: v = fabsl(e); break; case ScoringType::kMape: v = 100 * fabsl(e / y); break; case ScoringType::kRmse: v = e * e; break; case ScoringType::kRmspe: v = (e / y) * (e / y); break; default: v = crpsN(y, mu, sd); } o.res((int)q, j) += v; }
    }
  }
  o.validCounts = cnt; for (size_t q = 0; q < mets.size(); q++) for (int j = 0; j < m; j++) { auto &v = o.res((int)q, j); v /= cnt; if (mets[q] == ScoringType::kRmse) v = sqrtl(v); if (mets[q] == ScoringType::kRmspe) v = 100 * sqrtl(v); }
  return o;
}
static std::vector<ScoringType> rndMets(Rng &r) { std::vector<ScoringType> a{ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps}; r.shuffle(a); a.resize(r.i(1, 6)); return a; }
static void simulate(Rng &r) {
  int m = r.i(1, 3), k = r.i(1, 3), N = r.i(20, 45); M Y, X; gen(r, N, m, k, Y, X); for (auto &v : Y.d) v += 3; MX D(hcat(Y, X)); auto mets = rndMets(r); int fix = r.b(0.3) ? r.i(N / 2, N - 3) : 0; double ratio = r.pick({0.5, 0.6, 0.75}); int iters = r.i(1, 6); unsigned seed = r.i(1, 100000); double cn = r.b(0.4) ? r.pick({5.0, 20.0, 100.0}) : INFINITY;
  std::vector<double> lam; bool useL = r.b(0.25); if (useL) { auto it = std::find(mets.begin(), mets.end(), ScoringType::kCrps); if (it != mets.end()) mets.erase(it); if (mets.empty()) mets = {ScoringType::kMae}; for (int j = 0; j < m; j++) lam.push_back(r.pick({0.0, 1.0, NANV})); }
  SimRef o = simRef(D, m, iters, seed, ratio, fix, mets, cn, useL ? &lam : nullptr); if (o.ambiguous) throw Skip(); int maxInv = r.b() ? INT32_MAX : r.i(0, iters);
  SurSimulation s(N + r.i(0, 3), m, k, ratio, fix, mets, false, 0, nullptr, nullptr); double fl = fillOf(r.i(0, 3)); Buf st(s.StorageSize, fl), w(s.WorkSize, fl); bool cancel = false; std::string at = fmt("N=%d m=%d k=%d iters=%d fix=%d ratio=%g cn=%g lambdas=%d", N, m, k, iters, fix, ratio, cn, (int)useL); mon().note(at);
  auto before = D.b.vec(); int reps = r.i(1, 2); bool th = false; for (int q = 0; q < reps; q++) th = throws([&] { s.Calculate(D.m, m, st, w, nullptr, cancel, iters, seed, 0, cn, maxInv, useL ? &lam : nullptr); });
  VCHECK(close(before, D.b.vec(), 0, 0), "sim.input", "%s data modified", at.c_str());
  bool tooFew = iters - o.valid > maxInv; VCHECK(th == tooFew, "sim.minvalid", "%s %d of %d valid, at most %d invalid allowed: rejected=%d", at.c_str(), o.valid, iters, maxInv, (int)th); if (th || o.valid == 0) return;
  VCHECK(s.ValidIters == o.valid && s.ValidCounts == o.validCounts, "sim.counts", "%s valid %d/%d expected %d/%d", at.c_str(), s.ValidIters, s.ValidCounts, o.valid, o.validCounts);
  for (size_t q = 0; q < mets.size(); q++) for (int j = 0; j < m; j++) VEQ(s.Results.Get(q, j), (double)o.res(q, j), fmt("sim.%s", ToString(mets[q])), 1e-6, 1e-8, at + fmt(" %s target %d", ToString(mets[q]), j));
  long inval = 0; for (auto &x : s.Errors) inval += x.second; VCHECK(inval == (long)reps * (iters - o.valid), "sim.errors", "%s %ld errors recorded, %d iterations failed", at.c_str(), inval, iters - o.valid);
  mon().distinct(fmt("sim %d %d %d %d %d %zu", N, m, k, iters, fix, mets.size())); mon().count("simulated_forecasts", o.validCounts);
}
// ---- a whole search against estimating each model directly
static void modelset(Rng &r) {
  int nY = r.i(1, 3), nX = r.i(1, 4), N = r.i(22, 40); M Y, X; gen(r, N, nY, nX, Y, X); for (auto &v : Y.d) v += 2; M D = hcat(Y, X); if (r.b(0.4)) for (int q = r.i(1, 3); q > 0; q--) D(r.i(0, N - 1), r.i(0, nY + nX - 1)) = NANV;
  SearchData data; MX DD(D); data.Data.SetData(DD.m.Data, N, nY + nX); data.NumEndo = nY; data.NumExo = nX; data.HasIntercept = false; data.HasWeight = false; if (r.b(0.2)) for (int j = 0; j < nY; j++) data.Lambdas.push_back(r.pick({0.0, 1.0, NANV}));
  SearchCombinations co = SearchCombinations(); for (int i = 0; i < nX;) { VI p; int s = r.b(0.7) ? 1 : 2; for (int q = 0; q < s && i < nX; q++) p.push_back(nY + i++); co.Partitions.push_back(p); } if (r.b(0.3)) r.shuffle(co.Partitions); co.NumFixPartitions = r.b(0.3) ? 1 : 0; for (int s = 1; s <= (int)co.Partitions.size(); s++) if (r.b(0.7)) co.Sizes.push_back(s); if (co.Sizes.empty()) co.Sizes.push_back(1);
  SearchItems it; it.LengthTargets = r.i(1, nY); it.LengthEndogenous = nY; it.LengthExogenous = nX; it.KeepAll = true; it.KeepModelEvaluations = true; it.KeepBestCount = 2; if (r.b()) it.Length1 = nX; co.NumTargets = it.LengthTargets;
  std::set<VI> groups; for (int q = r.i(1, 3); q > 0; q--) { VI g; for (int j = 0; j < nY; j++) if (r.b()) g.push_back(j); if (g.empty()) g.push_back(r.i(0, nY - 1)); groups.insert(g); } bool any = false; for (auto &g : groups) if (g[0] < it.LengthTargets) any = true; if (!any) groups.insert(VI{0}); co.InnerGroups.assign(groups.begin(), groups.end());
  SearchMetricOptions me; if (r.b(0.8)) me.MetricsIn.push_back(GoodnessOfFitType::kAic); if (r.b()) me.MetricsIn.push_back(GoodnessOfFitType::kSic); if (r.b() || me.MetricsIn.empty()) me.MetricsOut = rndMets(r); if (!data.Lambdas.empty()) { me.MetricsOut.erase(std::remove(me.MetricsOut.begin(), me.MetricsOut.end(), ScoringType::kCrps), me.MetricsOut.end()); if (me.MetricsIn.empty() && me.MetricsOut.empty()) me.MetricsIn.push_back(GoodnessOfFitType::kAic); }
  int seed = r.i(1, 99999); me.Seed = -seed; me.SimFixSize = me.MetricsOut.empty() ? 0 : r.i(1, 4); me.TrainRatio = 0.7;
  SearchModelChecks ch; ch.Estimation = r.b() || it.Length1 > 0; int lim = r.i(0, 6); if (lim == 0) ch.MinObsCount = N - r.i(0, 3); if (lim == 1) ch.MinDof = N - r.i(1, 5); if (lim == 2) ch.MaxAic = r.u(-50, 400); if (lim == 3) ch.MaxSic = r.u(-50, 400); if (lim == 4) ch.MinR2 = r.u(0, 0.9); if (lim == 5) ch.MaxConditionNumber = r.u(1, 30); if (me.SimFixSize && r.b(0.4)) ch.MinOutSim = r.i(0, me.SimFixSize);
  SearchOptions op; op.Parallel = r.b(0.4); op.ReportInterval = 0;
  std::string at = fmt("N=%d endo=%d exo=%d targets=%d sizes=%zu groups=%zu in=%zu out=%zu check=%d", N, nY, nX, it.LengthTargets, co.Sizes.size(), co.InnerGroups.size(), me.MetricsIn.size(), me.MetricsOut.size(), lim); mon().note(at);
  SurModelset ms(data, co, op, it, me, ch, 0, 0); Buf w(ms.Modelset.WorkSize, fillOf(r.i(0, 3))); std::vector<Ti> wi(ms.Modelset.WorkSizeI + 1); ms.Modelset.Start(w, wi.data());
  SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2; ms.Modelset.CombineInfo(info, l0, l1, l2);
  std::map<std::tuple<int, int, std::string>, double> got; std::map<std::tuple<int, int, int, std::string>, std::pair<double, double>> gotC;
  auto sig = [](const VI &a, const VI &b) { return str(std::vector<int>(a.begin(), a.end())) + str(std::vector<int>(b.begin(), b.end())); };
  int nE = me.MetricsIn.size() + me.MetricsOut.size();
  if (!l0.empty()) for (int e = 0; e < nE; e++) for (int t = 0; t < it.LengthTargets; t++) { std::vector<std::shared_ptr<EstimationKeep>> v; ms.Modelset.CombineAll(e, t, 0, l0, v); for (auto &q : v) { auto x = q->Exogenouses; std::sort(x.begin(), x.end()); VCHECK(got.emplace(std::make_tuple(e, t, sig(q->Endogenous, x)), q->Metric).second, "set.twice", "%s model %s evaluated twice", at.c_str(), sig(q->Endogenous, x).c_str()); } }
  // reference: enumerate and estimate
  long expected = 0, ok = 0; std::map<std::tuple<int, int, std::string>, double> want; bool amb = false; std::map<std::tuple<int, int>, std::multimap<double, int>> dummy; std::map<std::tuple<int, int, int>, std::vector<std::tuple<double, double, double>>> coefs;
  for (int size : co.Sizes) { if (size < co.NumFixPartitions) continue; for (auto &g : co.InnerGroups) { if (g[0] >= it.LengthTargets) continue;
    int P = co.Partitions.size(); for (int mask = 0; mask < (1 << P); mask++) { if (__builtin_popcount(mask) != size) continue; bool fx = true; for (int i = 0; i < co.NumFixPartitions; i++) if (!(mask >> i & 1)) fx = false; if (!fx) continue;
      std::vector<VI> combos{{}}; for (int i = 0; i < P; i++) if (mask >> i & 1) { std::vector<VI> nx; for (auto &c : combos) for (auto x : co.Partitions[i]) { auto d2 = c; d2.push_back(x); nx.push_back(d2); } combos = nx; }
      for (auto exo : combos) { expected++; std::sort(exo.begin(), exo.end()); int mm = g.size(), kk = exo.size(); M A(N, mm + kk); for (int i = 0; i < N; i++) { for (int j = 0; j < mm; j++) A(i, j) = D(i, g[j]); for (int j = 0; j < kk; j++) A(i, mm + j) = D(i, exo[j]); }
        A = completeRows(A); if (A.r < mm + kk + 2) { amb = true; continue; } M Ya = A.sub(0, 0, A.r, mm), Xa = A.sub(0, mm, A.r, kk); if (!wellc(Xa)) { amb = true; continue; } Fit f = ols(Ya, Xa); if (!okS(f)) { amb = true; continue; }
        bool bad = false; bool est = ch.Estimation; auto near = [&](LD a, LD b) { if (fabsl(a - b) < 1e-6L * (1 + fabsl(b))) amb = true; };
        if (est) { if (ch.MinObsCount > 0 && A.r < ch.MinObsCount) bad = true; if (ch.MinDof > 0 && A.r - kk < ch.MinDof) bad = true; if (std::isfinite(ch.MaxAic)) { near(f.aic, ch.MaxAic); if (f.aic > ch.MaxAic) bad = true; } if (std::isfinite(ch.MaxSic)) { near(f.sic, ch.MaxSic); if (f.sic > ch.MaxSic) bad = true; } if (std::isfinite(ch.MinR2)) { near(f.r2, ch.MinR2); if (f.r2 < ch.MinR2) bad = true; } if (std::isfinite(ch.MaxConditionNumber) && ch.mCheckCN_all) { near(f.cn, ch.MaxConditionNumber); if (f.cn > ch.MaxConditionNumber) bad = true; } }
        if (bad) continue; SimRef o; MX AA(A); std::vector<double> lam; for (auto j : g) if (!data.Lambdas.empty()) lam.push_back(data.Lambdas[j]);
        if (!me.MetricsOut.empty()) { o = simRef(AA, mm, me.SimFixSize, seed, me.TrainRatio, 0, me.MetricsOut, std::isfinite(ch.MaxConditionNumber) ? ch.MaxConditionNumber : INFINITY, lam.empty() ? nullptr : &lam); if (o.ambiguous) { amb = true; continue; } if (o.valid < ch.MinOutSim) continue; if (o.valid == 0 && me.MetricsIn.empty()) continue; if (o.valid == 0) o.res = M((int)me.MetricsOut.size(), mm, NANV); }
        ok++; for (int t = 0, tp = 0; t < mm; t++) if (g[t] < it.LengthTargets) { (void)tp; for (int e = 0; e < nE; e++) { double v = e < (int)me.MetricsIn.size() ? (double)(me.MetricsIn[e] == GoodnessOfFitType::kAic ? f.aic : f.sic) : (double)o.res(e - me.MetricsIn.size(), t); if (!std::isnan(v)) { want[std::make_tuple(e, g[t], sig(g, exo))] = v; if (it.Length1) for (int q = 0; q < kk; q++) coefs[std::make_tuple(e, g[t], exo[q] - nY)].push_back({v, (double)f.B(q, t), (double)(f.SE(q, t) * f.SE(q, t))}); } } }
      } } } }
  VCHECK(info.ExpectedCount == expected && info.SearchedCount == expected, "set.count", "%s announced %d, searched %d, the definition gives %ld", at.c_str(), info.ExpectedCount, info.SearchedCount, expected);
  if (amb) throw Skip();
  for (auto &x : want) { auto f = got.find(x.first); if (f == got.end()) { mon().viol("set.missing", at + fmt(" metric %d target %d model %s is missing", std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str())); continue; } VEQ(f->second, x.second, "set.metric", 1e-6, 1e-7, at + fmt(" metric %d target %d model %s", std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str())); }
  for (auto &x : got) VCHECK(want.count(x.first), "set.extra", "%s metric %d target %d model %s should not be there (value %g)", at.c_str(), std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str(), x.second);
  long fails = 0; for (auto &x : info.FailsCount) fails += x.second; VCHECK(fails == expected - ok, "set.fails", "%s %ld failures reported, %ld models are invalid", at.c_str(), fails, expected - ok);
  // best coefficient per item carries the mean and variance of the best model
  if (it.Length1 && !l1.empty()) for (int e = 0; e < nE; e++) for (int t = 0; t < it.LengthTargets; t++) for (int j = 0; j < nX; j++) { std::vector<std::shared_ptr<EstimationKeep>> b; ms.Modelset.CombineBests(e, t, j, l1, b); auto c = coefs.find(std::make_tuple(e, t, j)); size_t n = c == coefs.end() ? 0 : c->second.size(); VCHECK(b.size() == std::min<size_t>(n, 2), "set.coef.count", "%s metric %d target %d exo %d: %zu best coefficients of %zu", at.c_str(), e, t, j, b.size(), n); if (!n || b.empty()) continue;
    for (auto &q : b) { bool f = false; for (auto &z : c->second) if (close(std::get<0>(z), q->Metric, 1e-6, 1e-7) && close(std::get<1>(z), q->Mean, 1e-6, 1e-8) && close(std::get<2>(z), q->Variance, 1e-5, 1e-10)) f = true; VCHECK(f, "set.coef", "%s metric %d target %d exo %d: coefficient %.9g (variance %.9g) belongs to no model with metric %.9g", at.c_str(), e, t, j, q->Mean, q->Variance, q->Metric); } mon().count("coefficients_compared", b.size()); }
  mon().distinct(fmt("set %d %d %d %zu %zu %zu %d", nY, nX, it.LengthTargets, co.InnerGroups.size(), me.MetricsIn.size(), me.MetricsOut.size(), lim)); mon().count("models_compared", want.size()); mon().sample(at + fmt(" -> %ld models, %ld valid, all metrics equal direct estimation", expected, ok));
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("estimate", 6000, 60000, estimate); m.section("restricted", 3000, 30000, restricted); m.section("sigsearch", 3000, 30000, sigsearch); m.section("extended", 5000, 50000, extended);
  m.section("simulate", 2500, 25000, simulate); m.section("modelset", 1500, 15000, modelset);
  return m.done();
}
