// Monitors of VARMA models: sizes, differencing, polynomials, estimation, forecasts.
#include "varmaref.h"
static VarmaSizes mk(const VSpec &v) { return VarmaSizes(v.N, v.g, v.k, v.p, v.d, v.q, v.P, v.D, v.Q, v.s, true); }
static bool checkSizes(const VSpec &v, const VarmaSizes &z) {
  std::vector<Ti> ar(v.ar.begin(), v.ar.end()), ma(v.ma.begin(), v.ma.end()), dp; for (auto x : v.dp) dp.push_back((Ti)x); bool ok = z.ArLags == ar && z.MaLags == ma && z.DiffPoly == dp && z.ArLength == (Ti)ar.size() && z.MaLength == (Ti)ma.size() && z.ArMax == v.armax && z.MaMax == v.mamax && z.DiffDegree == v.dd && z.ArMax_d == v.armax + v.dd && z.T == v.T && z.NumParamsEq == v.f && z.NumParams == v.f * v.g && z.MaStart == v.ms && z.HasAr == !ar.empty() && z.HasMa == !ma.empty() && z.HasDiff == (v.dd > 0) && z.HasArExo == (v.ms > 0);
  if (!ok) mon().viol("sizes", v.str() + " AR lags " + vm::str(std::vector<double>(z.ArLags.begin(), z.ArLags.end())) + " MA lags " + vm::str(std::vector<double>(z.MaLags.begin(), z.MaLags.end())) + " differencing " + vm::str(std::vector<double>(z.DiffPoly.begin(), z.DiffPoly.end())) + fmt(" T=%d params=%d", z.T, z.NumParamsEq)); return ok;
}
static void sizes(Rng &r) {
  VSpec v; v.p = r.i(0, 6); v.d = r.i(0, 3); v.q = r.i(0, 5); v.s = r.i(0, 7); v.g = r.i(1, 4); v.k = r.i(0, 3); v.N = r.i(50, 100); if (v.s > 1) { v.P = r.i(0, 3); v.D = r.i(0, 2); v.Q = r.i(0, 3); } bool bad = v.p + v.q + v.P + v.Q == 0;
  if (bad) { VCHECK(throws([&] { mk(v); }), "sizes.zero", "%s accepted", v.str().c_str()); return; } v.make(); auto z = mk(v); if (!checkSizes(v, z)) return; if (r.b(0.3)) { z.Calculate(); checkSizes(v, z); }
  if (r.b(0.1)) { VCHECK(throws([&] { VarmaSizes(50, 1, 0, 1, 0, 0, 1, 0, 0, r.i(0, 1)); }), "sizes.season", "seasonal lags without seasons accepted%s", ""); VCHECK(throws([&] { VarmaSizes(50, 1, 0, 1, -1, 0); }), "sizes.negative", "negative order accepted%s", ""); }
  // differencing and its inverse
  M Y = rnd(r, v.g, v.dd + r.i(1, 30)); MX y(Y), dy(v.g, Y.c - v.dd, fillOf(r.i(0, 3))); Varma::Difference(z.DiffPoly, y.m, dy.m); M D = diffOf(v, Y); VSAME(dy.m, D, 1e-12, "diff", "%s differences", v.str().c_str());
  MX u(v.g, Y.c); for (int t = 0; t < Y.c; t++) for (int i = 0; i < v.g; i++) u.m.Data[t * v.g + i] = t < v.dd ? y(i, t) : dy(i, t - v.dd); Varma::UnDiferences(z.DiffPoly, u.m); VSAME(u.m, Y, 1e-7, "undiff", "%s differences are not inverted", v.str().c_str());
  // lag polynomials
  int h = r.b(0.2) ? 0 : r.i(1, 12); M pi = rnd(r, v.g, v.f, 0.3); MX Pi(pi); VarmaArma a(z, h); Buf st(a.StorageSize, fillOf(r.i(0, 3))), wk(a.WorkSize, fillOf(r.i(0, 3))); int reps = r.b(0.3) ? 2 : 1; for (int c = 0; c < reps; c++) a.Calculate(Pi.m, st, wk);
  std::vector<M> A(v.armax + 1, M(v.g, v.g)), B(v.mamax + 1, M(v.g, v.g)); A[0] = B[0] = M::eye(v.g); for (size_t i = 0; i < v.ar.size(); i++) A[v.ar[i]] = (LD)-1 * pi.sub(0, (int)i * v.g, v.g, v.g); for (size_t i = 0; i < v.ma.size(); i++) B[v.ma[i]] = pi.sub(0, v.ms + (int)i * v.g, v.g, v.g);
  VCHECK((int)a.Ar.Coefficients.size() == v.armax + 1 && (int)a.Ma.Coefficients.size() == v.mamax + 1, "arma.size", "%s degrees %zu %zu", v.str().c_str(), a.Ar.Coefficients.size(), a.Ma.Coefficients.size());
  for (int i = 0; i <= v.armax; i++) VSAME(*a.Ar.Coefficients.at(i), A[i], 1e-12, "arma.ar", "%s AR(%d)", v.str().c_str(), i); for (int i = 0; i <= v.mamax; i++) VSAME(*a.Ma.Coefficients.at(i), B[i], 1e-12, "arma.ma", "%s MA(%d)", v.str().c_str(), i);
  if (h) { std::vector<M> ad(v.armax + v.dd + 1, M(v.g, v.g)), psi; for (int i = 0; i <= v.armax; i++) for (int j = 0; j <= v.dd; j++) ad[i + j] = ad[i + j] + v.dp[j] * A[i];
    for (int s = 0; s < h; s++) { M x = s <= v.mamax ? B[s] : M(v.g, v.g); for (int j = 1; j <= v.armax + v.dd && j <= s; j++) x = x - ad[j] * psi[s - j]; psi.push_back(x); VCHECK((int)a.MaInf.Coefficients.size() >= h, "arma.inf.size", "%s %zu of %d weights", v.str().c_str(), a.MaInf.Coefficients.size(), h); if ((int)a.MaInf.Coefficients.size() < h) return; VSAME(*a.MaInf.Coefficients.at(s), x, 1e-9, "arma.inf", "%s MA representation at %d of %d", v.str().c_str(), s, h); } mon().count("ma_representations"); }
  mon().distinct("sz " + v.str());
}
static void checkForecast(Rng &r, const VSpec &v, const Varma &m, const M &Y, const M &X, MX &y, MX &x, const VFit &e, int end, const std::string &at) {
  int h = r.i(1, 6); if (v.T - end - v.armax - v.dd < 0) return; int hh = h + r.i(0, 2); bool fresh = v.k && r.b(0.3); VarmaForecast f(m.Sizes, hh, true); Buf st(f.StorageSize, fillOf(r.i(0, 3))), wk(f.WorkSize, fillOf(r.i(0, 3))); M FX(v.k, h); if (v.k) FX = X.sub(0, Y.c - end, v.k, h); MX fx(FX);
  f.Calculate(m, v.k ? fresh ? &fx.m : &x.m : nullptr, v.dd ? &y.m : r.b() ? &y.m : nullptr, st, wk, h == hh && r.b() ? -1 : h, fresh); M mean, var; forecastRef(v, Y, X, e, end, h, mean, var); int s = f.StartIndex; VCHECK(s == v.armax + v.dd && f.Forecast.ColsCount == s + h && f.Variance.ColsCount == s + h, "forecast.size", "%s start %d columns %d", at.c_str(), s, f.Forecast.ColsCount); if (f.Forecast.ColsCount != s + h) return;
  VSAME(f.Forecast, [&] { M o(v.g, s + h); for (int t = 0; t < s; t++) for (int i = 0; i < v.g; i++) o(i, t) = Y(i, Y.c - end - s + t); for (int t = 0; t < h; t++) for (int i = 0; i < v.g; i++) o(i, s + t) = mean(i, t); return o; }(), 1e-4, "forecast.mean", "%s end=%d horizon %d forecasts after the last observations", at.c_str(), end, h);
  VSAME(f.Variance, [&] { M o(v.g, s + h); for (int t = 0; t < h; t++) for (int i = 0; i < v.g; i++) o(i, s + t) = var(i, t); return o; }(), 1e-4, "forecast.variance", "%s end=%d horizon %d", at.c_str(), end, h); mon().count("forecasts", v.g * h);
  if (v.k && !fresh) { MX shortX(X.sub(0, 0, v.k, Y.c - end + h - 1)); if (shortX.m.ColsCount < v.T - end + h + v.armax + v.dd) VCHECK(throws([&] { f.Calculate(m, &shortX.m, &y.m, st, wk, h, false); }), "forecast.exo", "%s a too short exogenous sample was accepted", at.c_str()); }
}
static void inference(const Varma &m, const VSpec &v, const M &coef, const M &var, const std::string &at, double tol) { // var is the covariance of vec(coef)
  int T = m.Result.y.ColsCount; auto td = Distribution<DistributionType::kT>((Tv)(T * v.g)); for (int j = 0; j < v.f; j++) for (int i = 0; i < v.g; i++) { double sd = (double)sqrtl(var(j * v.g + i, j * v.g + i)), t = (double)coef(i, j) / sd; if (!(sd > 0) || !std::isfinite(sd)) continue; VEQ(m.Result.coefstd.Get0(i, j), sd, "std", tol, 1e-12, at + fmt(" standard error (%d,%d)", i, j)); VEQ(m.Result.coeft.Get0(i, j), t, "t", tol * 2, 1e-9, at + " t"); double g = m.Result.coeft.Get0(i, j); VEQ(m.Result.coefprob.Get0(i, j), 2 * (1 - td.GetCdf(std::fabs(g))), "p", 1e-8, 1e-10, at + " p-value"); }
}
static void var(Rng &r) {
  VSpec v = rndSpec(r, false); M Y, X; int extra = 8; rndSeries(r, v, extra, Y, X); if (v.armax == 0 && v.k == 0) throw Skip(); int end = r.b(0.6) ? 0 : r.i(1, 8); MX y(Y), x(X); M Z = regressors(v, Y, X, end), yy = ylevels(v, Y, end); Ls l = leastSquares(yy, Z); if (!l.ok) throw Skip(); VFit e = recursion(v, Y, X, l.B, end); int T = v.T - end;
  auto z = mk(v); bool det = r.b(0.8); Varma m(z, false, det, true); double fl = fillOf(r.i(0, 3)); Buf st(m.Result.StorageSize, fl), wk(m.Result.WorkSize, fl); auto b0 = y.b.vec(), b1 = x.b.vec(); std::string at = v.str() + fmt(" end=%d", end); mon().note(at);
  if (r.b(0.3)) { VSpec v2 = v; v2.N -= r.i(0, 9); v2.make(); M Y2, X2; rndSeries(r, v2, extra, Y2, X2); MX y2(Y2), x2(X2); try { m.EstimateMl(y2.m, v.k ? &x2.m : nullptr, wk, st); } catch (std::exception &) {} }
  m.EstimateMl(y.m, v.k ? &x.m : nullptr, wk, st, nullptr, nullptr, end); VCHECK(close(b0, y.b.vec(), 0, 0) && close(b1, x.b.vec(), 0, 0), "input", "%s data modified", at.c_str());
  VSAME(m.Result.gamma, l.B, 1e-7, "var.coef", "%s coefficients", at.c_str()); VSAME(m.Result.resid, l.E, 1e-7, "var.resid", "%s residuals", at.c_str()); VSAME(m.Result.sigma2, l.S, 1e-7, "var.sigma", "%s residual covariance", at.c_str()); VSAME(m.Result.gammavar, l.V, 1e-6, "var.var", "%s coefficient covariance", at.c_str()); VEQ(m.Result.cn, (double)l.cn, "var.cn", 1e-6, 0, at + " condition number");
  if (det) { VSAME(m.Result.coef, l.B, 1e-7, "var.coef", "%s coefficient matrix", at.c_str()); VEQ(m.Result.LogLikelihood, (double)e.ll, "var.ll", 1e-8, 1e-6, at + " log-likelihood"); VEQ(m.Result.Aic, (double)(2 * v.g * v.f - 2 * e.ll), "var.aic", 1e-8, 1e-6, at + " AIC"); VEQ(m.Result.Sic, (double)(logl(T) * v.g * v.f - 2 * e.ll), "var.sic", 1e-8, 1e-6, at + " SIC"); inference(m, v, l.B, l.V, at, 1e-5); }
  if (r.b(0.1)) { double lim = (double)l.cn * r.pick({0.9, 1.1}); VCHECK(throws([&] { m.EstimateMl(y.m, v.k ? &x.m : nullptr, wk, st, nullptr, nullptr, end, false, 2, lim); }) == (lim < l.cn), "var.cncheck", "%s limit %g of %Lg", at.c_str(), lim, l.cn); if (lim < l.cn) return; }
  checkForecast(r, v, m, Y, X, y, x, e, end, at); mon().count("var_models"); mon().distinct(fmt("var %s %d", v.str().c_str(), end)); mon().sample(at + fmt(" ll=%.6Lf", e.ll));
}
// models with a moving average part or restrictions
static void ma(Rng &r) {
  VSpec v = rndSpec(r, true, true, 2); if (v.ma.empty() && r.b(0.7)) { v.q = 1; v.N += 10; v.make(); } if (v.f * v.g > 14) throw Skip(); M Y, X; int extra = 8; rndSeries(r, v, extra, Y, X); int end = r.b(0.6) ? 0 : r.i(1, 6), T = v.T - end; MX y(Y), x(X); auto z = mk(v);
  // restriction: none, the final MA form, a random set of zeros, or any linear restriction (R gamma + r)
  int kind = v.g > 1 && !v.ma.empty() && r.b(0.6) ? 1 : r.b(0.4) || v.ma.empty() ? r.b(0.4) ? 3 : 2 : 0, q = v.g * v.f; M R = M::eye(q), r0(q, 1); bool hr = false; std::unique_ptr<VarmaRestriction> vr; Buf rs(0);
  if (kind == 1) { int n0 = v.g * v.ms; R = M(q, n0 + (int)v.ma.size()); for (int i = 0; i < n0; i++) R(i, i) = 1; for (int l = 0; l < (int)v.ma.size(); l++) for (int i = 0; i < v.g; i++) R((v.ms + l * v.g + i) * v.g + i, n0 + l) = 1; vr.reset(new VarmaRestriction(z, VarmaRestrictionType::kMaFinal)); Buf s(vr->StorageSize); vr->Calculate(s); VSAME(vr->R, R, 0, "restriction.final", "%s final MA form", v.str().c_str()); }
  VI zero; if (kind == 2) { if (q < 2) throw Skip(); for (int i = 0; i < q; i++) if (r.b(0.3) && (int)zero.size() < q - 1) zero.push_back(i); if (zero.empty()) zero.push_back(r.i(0, q - 1)); R = M(q, q - (int)zero.size()); int c = 0; for (int i = 0; i < q; i++) if (!std::count(zero.begin(), zero.end(), i)) R(i, c++) = 1; vr.reset(new VarmaRestriction(z, VarmaRestrictionType::kGeneral, (Ti)zero.size())); Buf s(vr->StorageSize); vr->Calculate(s, &zero); VSAME(vr->R, R, 0, "restriction.general", "%s zero restrictions", v.str().c_str()); }
  if (kind == 3) { if (q < 2) throw Skip(); R = M(q, q - r.i(1, std::min(3, q - 1))); for (int i = 0; i < q; i++) for (int j = 0; j < R.c; j++) R(i, j) = i == j ? r.pick({1.0, 2.0, -1.5}) : r.b(0.3) || i >= R.c ? r.pick({0.0, 1.0, -1.0, 0.5, r.u(-1, 1)}) : 0; if (ref::rcond(R.t() * R) < 1e-4) throw Skip(); hr = r.b(0.6); if (hr) for (int i = 0; i < q; i++) r0(i, 0) = r.b(0.5) ? r.u(-0.2, 0.2) : 0; mon().count(hr ? "affine_restrictions" : "linear_restrictions"); }
  MX RR(R), rr(r0); auto full = [&](const M &gm) { M c = R * gm + r0, o(v.g, v.f); o.d = c.d; return o; };
  LimitedMemoryBfgsbOptions oo; oo.IterationMax = 500; bool det = r.b(0.8), vc = r.b(0.7); Varma m(z, kind != 0, det, vc, &oo); double fl = fillOf(r.i(0, 3)); Buf st(m.Result.StorageSize, fl), wk(m.Result.WorkSize, fl); std::string at = v.str() + fmt(" end=%d restriction=%d", end, kind); mon().note(at); double mult = r.pick({2.0, 4.0}); auto b0 = y.b.vec();
  // start of the optimization: least squares with lagged residuals of the autoregression
  M start(q, 1), sv(q, q); bool inf = false; M yy = ylevels(v, Y, end);
  if (v.ms) { Ls a = leastSquares(yy, regressors(v, Y, X, end)); if (!a.ok) throw Skip(); M Z = regressors(v, Y, X, end, &a.E); if (kind == 0) { Ls b = leastSquares(yy, Z); if (!b.ok) throw Skip(); start = M(q, 1); start.d = b.B.d; sv = b.V; } else { M ZZ = ref::kron(Z * Z.t(), M::eye(v.g)), A = R.t() * ZZ * R; if (ref::rcond(A) < 1e-9) throw Skip(); sv = ref::inv(A); M vy(v.g * T, 1); vy.d = yy.d; if (hr) vy = vy - ref::kron(Z.t(), M::eye(v.g)) * r0; start = sv * (R.t() * (ref::kron(Z, M::eye(v.g)) * vy)); } } else { inf = true; start = M(R.c, 1); }
  try { m.EstimateMl(y.m, v.k ? &x.m : nullptr, wk, st, kind ? &RR.m : nullptr, hr ? &rr.m : nullptr, end, false, mult); } catch (std::exception &ex) { mon().viol("ma.error", at + ": " + ex.what()); return; }
  VCHECK(close(b0, y.b.vec(), 0, 0), "input", "%s data modified", at.c_str()); VCHECK(m.Result.gamma.length() == R.c && m.Result.coef.RowsCount == v.g && m.Result.coef.ColsCount == v.f, "ma.size", "%s %d coefficients", at.c_str(), m.Result.gamma.length());
  M gm(R.c, 1); for (int i = 0; i < R.c; i++) gm(i, 0) = m.Result.gamma.Data[i]; if (!(gm.maxabs() < 1e6)) { mon().count("not_finite"); throw Skip(); } M cf = full(gm); VSAME(m.Result.coef, cf, 1e-12, "ma.coef", "%s coefficient matrix", at.c_str());
  VFit e = recursion(v, Y, X, cf, end); if (!(e.sigma.maxabs() < 1e8)) throw Skip(); VSAME(m.Result.resid, e.resid, 1e-6, "ma.resid", "%s residuals do not follow the reported coefficients", at.c_str()); VSAME(m.Result.sigma2, e.sigma, 1e-6, "ma.sigma", "%s residual covariance", at.c_str());
  bool bound = false; for (int i = 0; i < R.c && !inf; i++) { LD w = mult * sqrtl(sv(i, i)); VCHECK(fabsl(gm(i, 0) - start(i, 0)) <= w * 1.000001L + 1e-9L, "ma.bound", "%s coefficient %d is %Lg, outside %Lg +- %Lg", at.c_str(), i, gm(i, 0), start(i, 0), w); if (fabsl(gm(i, 0) - start(i, 0)) > w * 0.999L) bound = true; }
  if (det) { VEQ(m.Result.LogLikelihood, (double)e.ll, "ma.ll", 1e-7, 1e-5, at + " log-likelihood"); if (!kind) { VEQ(m.Result.Aic, (double)(2 * v.g * v.f - 2 * e.ll), "ma.aic", 1e-7, 1e-5, at + " AIC"); VEQ(m.Result.Sic, (double)(logl(T) * v.g * v.f - 2 * e.ll), "ma.sic", 1e-7, 1e-5, at + " SIC"); } }
  // optimality
  auto obj = [&](const M &x) { return T * recursion(v, Y, X, full(x), end).logdet; }; VCHECK(obj(gm) <= obj(start) + 1e-6L, "ma.worse", "%s objective %Lg at the estimate, %Lg at the start", at.c_str(), obj(gm), obj(start));
  int n = R.c; M g(n, 1), H(n, n); LD f0 = obj(gm); std::vector<LD> hs(n); for (int i = 0; i < n; i++) hs[i] = 1e-4L * std::max(1.0L, fabsl(gm(i, 0))); auto mv = [&](int i, LD a, int j, LD b) { M x = gm; x(i, 0) += a; x(j, 0) += b; return obj(x); };
  for (int i = 0; i < n; i++) { g(i, 0) = (mv(i, hs[i], i, 0) - mv(i, -hs[i], i, 0)) / (2 * hs[i]); for (int j = 0; j <= i; j++) H(i, j) = H(j, i) = i == j ? (mv(i, hs[i], i, 0) - 2 * f0 + mv(i, -hs[i], i, 0)) / (hs[i] * hs[i]) : (mv(i, hs[i], j, hs[j]) - mv(i, hs[i], j, -hs[j]) - mv(i, -hs[i], j, hs[j]) + mv(i, -hs[i], j, -hs[j])) / (4 * hs[i] * hs[j]); }
  std::vector<LD> ev; M V; ref::jacobi(H, ev, V); bool pd = ev.back() > 1e-6L * ev[0] && ev[0] > 0 && ev[0] < 1e7L;
  int task = m.Result.Optim.Task; if (!(task >= 20 && task <= 25)) mon().count("not_converged"); else if (!bound && pd) { M dlt; ref::solve(H, g, dlt); LD gain = (g.t() * dlt)(0, 0) / 2; static long tried, early; tried++; if (task == 22 && gain >= 0.02L) { early++; mon().count("early_stops"); VCHECK(early <= 3 + tried / 50, "ma.early", "%s %ld of %ld estimations stop before the optimum", at.c_str(), early, tried); } else VCHECK(gain < 0.02L, "ma.optimum", "%s the objective can still be improved by %Lg (iterations %d)", at.c_str(), gain, m.Result.Optim.Iteration); mon().count("optima_checked");
    if (vc && gain < 1e-3L && ev.back() > 1e-3L * ev[0] && ref::rcond(e.sigma) < 1e-4) mon().count("illconditioned_sigma"); else if (vc && gain < 1e-3L && ev.back() > 1e-3L * ev[0]) { M W = (LD)2 * ref::inv(H); VSAME(m.Result.gammavar, W, 0.1, "ma.var", "%s covariance of the coefficients", at.c_str()); mon().count("covariances_checked"); if (det) { M C = R * W * R.t(); inference(m, v, cf, C, at, 0.1); } } }
  else mon().count(bound ? "at_bounds" : "flat_optima");
  checkForecast(r, v, m, Y, X, y, x, e, end, at); mon().distinct(fmt("ma %s %d %d", v.str().c_str(), end, kind)); mon().count("ma_models"); mon().sample(at + fmt(" ll=%.6Lf", e.ll));
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("sizes", 6000, 60000, sizes); m.section("var", 3000, 30000, var); m.section("ma", 400, 4000, ma);
  return m.done();
}
