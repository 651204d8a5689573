// Monitors of VARMA: data preparation, out-of-sample simulation and model search.
#include "varmaref.h"
#include "scoreref.h"
#include "searchers.h"
using vm::str;
static VarmaSizes mk(const VSpec &v) { return VarmaSizes(v.N, v.g, v.k, v.p, v.d, v.q, v.P, v.D, v.Q, v.s, true); }
struct Est { // a fresh estimator of the library: its estimates and forecasts are checked by varma.cpp
  VarmaSizes z; VarmaRestriction rs; Varma m; Buf sr, st, wk; bool restricted;
  Est(const VSpec &v, bool ma, LimitedMemoryBfgsbOptions *o) : z(mk(v)), rs(z, ma ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone), m(z, true, true, true, o), sr(rs.StorageSize + 1), st(m.Result.StorageSize), wk(m.Result.WorkSize), restricted(rs.IsRestricted) { if (restricted) rs.Calculate(sr); }
  void run(MX &y, MX *x, int end, bool cur, double mult, double cn) { m.EstimateMl(y.m, x ? &x->m : nullptr, wk, st, restricted ? &rs.R : nullptr, nullptr, end, cur, mult, cn); }
};
static M fromLib(const Matrix<Tv> &a) { return toref(a); }
struct VSim { M agg; int valid = 0, invalid = 0, pairs = 0; bool reject = false, amb = false; std::vector<std::tuple<int, int, int, int, double, double, double, double, double>> det; };
static double boxInv(double y, double l) { if (std::isnan(l)) return y; if (l == 0) return std::exp(y); return std::pow(1 + l * y, 1 / l); }
static VSim simRef(const VSpec &v, const M &Y, const M &X, int count, const std::vector<Ti> &hs, const std::vector<ScoringType> &mt, bool usePrev, double cn, double mult, int maxInv, const std::vector<double> *lam, bool ma, LimitedMemoryBfgsbOptions *o) {
  VSim s; int g = v.g, T = Y.c, hMin = *std::min_element(hs.begin(), hs.end()), hMax = *std::max_element(hs.begin(), hs.end()); s.agg = M((int)mt.size(), g); MX y(Y), x(X); std::unique_ptr<Est> keep; bool success = false;
  for (int se = count; se > 0; se--) {
    if (T - se - 1 < 0) break; int eh = std::min(se, hMax); if (eh < hMin) break; M mean, var;
    try {
      if (!keep || !usePrev) keep.reset(new Est(v, ma, o)); keep->run(y, v.k ? &x : nullptr, se, usePrev && success, mult, cn);
      VFit e; e.coef = fromLib(keep->m.Result.coef); e.resid = fromLib(keep->m.Result.resid); e.sigma = fromLib(keep->m.Result.sigma2); if (v.T - se - v.armax - v.dd < 0) throw 1; forecastRef(v, Y, X, e, se, eh, mean, var);
      if (v.k && X.c < v.T - se + eh + v.armax + v.dd) throw 1;
    } catch (...) { s.invalid++; continue; }
    if (s.invalid > maxInv) { s.reject = true; return s; }
    success = true; s.valid++;
    for (int h : hs) if (h <= eh) { s.pairs++; for (int i = 0; i < g; i++) {
      double last = (double)Y(i, T - se - 1), act = (double)Y(i, T - se - 1 + h), f = (double)mean(i, h - 1), sd = (double)sqrtl(var(i, h - 1)); if (lam) { double l = (*lam)[i]; last = boxInv(last, l); act = boxInv(act, l); f = boxInv(f, l); }
      double er = act - f; for (size_t c = 0; c < mt.size(); c++) { double q = 0; switch (mt[c]) {
        case ScoringType::kDirection: q = (act > last && f > last) || (act < last && f < last) || (act == last && f == last); if (std::isnan(f)) q = NAN; if (std::fabs(f - last) < 1e-7) s.amb = true; break;
        case ScoringType::kSign: q = std::isnan(f) ? NAN : act == 0 || f == 0 ? 0.5 : (act > 0) == (f > 0); if (std::fabs(f) < 1e-7) s.amb = true; break;
        case ScoringType::kMae: q = std::fabs(er); break; case ScoringType::kMape: q = act <= 0 ? NAN : std::fabs(er) / act; break; case ScoringType::kRmse: q = er * er; break; case ScoringType::kRmspe: q = act <= 0 ? NAN : er * er / (act * act); break;
        case ScoringType::kCrps: { double w = er / sd; if (!(sd > 1e-9 * (1 + std::fabs(f)))) s.amb = true; q = sd * (w * std::erf(w / std::sqrt(2.0)) + std::sqrt(2 / M_PI) * std::exp(-w * w / 2) - 1 / std::sqrt(M_PI)); break; } default: break; }
        s.agg((int)c, i) += q; s.det.push_back(std::make_tuple(se, (int)c, h, i, last, act, f, er, sd)); } } }
  }
  if (!s.pairs || s.invalid > maxInv) { s.reject = true; return s; }
  for (size_t c = 0; c < mt.size(); c++) for (int i = 0; i < g; i++) { LD q = s.agg((int)c, i) / s.pairs; if (mt[c] == ScoringType::kRmse || mt[c] == ScoringType::kRmspe) q = sqrtl(q); if (mt[c] == ScoringType::kMape || mt[c] == ScoringType::kRmspe) q *= 100; s.agg((int)c, i) = q; }
  return s;
}
static std::vector<ScoringType> rndMets(Rng &r, bool crps) { std::vector<ScoringType> a{ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe}; if (crps) a.push_back(ScoringType::kCrps); r.shuffle(a); a.resize(r.i(1, (int)a.size())); return a; }
static std::vector<Ti> rndHor(Rng &r, int mx) { std::set<Ti> s; if (r.b(0.7)) s.insert(1); for (int i = r.i(1, 3); i > 0; i--) s.insert(r.i(1, mx)); std::vector<Ti> h(s.begin(), s.end()); if (r.b(0.3)) for (size_t i = h.size() - 1; i > 0; i--) std::swap(h[i], h[r.i(0, (int)i)]); if (!std::is_sorted(h.begin(), h.end())) vm::mon().count("horizons_unsorted"); return h; }
static LimitedMemoryBfgsbOptions opts() { LimitedMemoryBfgsbOptions o; o.IterationMax = 100; return o; }
static void cmpAgg(const Matrix<Tv> &got, const M &want, const std::vector<ScoringType> &mt, const std::string &at, const char *key) {
  for (size_t c = 0; c < mt.size(); c++) for (int i = 0; i < want.c; i++) VEQ(got.Get0((Ti)c, i), (double)want((int)c, i), key, 1e-6, 1e-7, at + fmt(" metric %d variable %d", (int)mt[c], i)); mon().count("scores_compared", want.r * want.c);
}
static VSpec simSpec(Rng &r, bool ma) { VSpec v = rndSpec(r, ma, true, 2); if (ma && v.ma.empty()) { v.q = 1; v.make(); } if (!ma) { v.q = v.Q = 0; if (v.p + v.P == 0) v.p = 1; v.make(); } if (v.g * v.f > 12) throw Skip(); return v; }
static void simulate(Rng &r) {
  bool ma = r.b(0.15); VSpec v = simSpec(r, ma); M Y, X; int extra = r.pick({0, 2, 8}); rndSeries(r, v, extra, Y, X); bool lamb = r.b(0.2); if (lamb || r.b(0.3)) for (auto &q : Y.d) q = (double)(q * 0.1L + 2); if (r.b(0.1)) for (int t = 1; t < Y.c; t++) if (r.b(0.2)) for (int i = 0; i < v.g; i++) Y(i, t) = r.b() ? Y(i, t - 1) : 0;
  auto hs = rndHor(r, r.b(0.06) ? 14 : 5); auto mt = rndMets(r, !lamb); int count = r.b(0.1) ? r.i(1, v.T + 2) : r.i(1, 8); if (r.b(0.1) && !ma) count = std::max(1, v.T - v.f - r.i(-2, 3)); bool prev = r.b(0.4); double mult = r.pick({2.0, 1.0}), cn = r.b(0.3) ? exp(r.u(2, 9)) : INFINITY; int mi = r.b(0.3) && hs[0] == 1 ? r.i(0, count) : 1 << 30;
  std::string at = v.str() + fmt(" simulations=%d horizons=%s metrics=%zu previous=%d max condition %g max invalid %d extra exo %d", count, str(std::vector<int>(hs.begin(), hs.end())).c_str(), mt.size(), prev, cn, mi, extra); mon().note(at);
  auto o = opts(); VarmaSizes z = mk(v); if (count >= v.T) { VCHECK(throws([&] { VarmaSimulation(z, count, hs, mt, &o); }), "sim.count", "%s accepted", at.c_str()); return; }
  std::vector<double> lam; if (lamb) for (int i = 0; i < v.g; i++) lam.push_back(r.pick({0.0, 1.0, 0.5, NANV}));
  VSim want = simRef(v, Y, X, count, hs, mt, prev, cn, mult, mi, lamb ? &lam : nullptr, ma, &o); MX y(Y), x(X); auto b0 = y.b.vec();
  VarmaRestriction rs(z, ma ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone); Buf sr(rs.StorageSize + 1); if (rs.IsRestricted) rs.Calculate(sr);
  VarmaSimulation s(z, count, hs, mt, &o); double fl = fillOf(r.i(0, 3)); Buf st(s.StorageSize, fl), wk(s.WorkSize, fl); bool cancel = false; int reps = r.b(0.15) ? 2 : 1;
  for (int q = 0; q < reps; q++) { bool rej = false; try { s.Calculate(st, wk, y.m, cancel, v.k ? &x.m : nullptr, rs.IsRestricted ? &rs.R : nullptr, nullptr, prev, cn, mult, false, mi, lamb ? &lam : nullptr); } catch (LdtException &) { rej = true; }
    VCHECK(rej == want.reject, "sim.reject", "%s %s (%d valid, %d invalid expected)", at.c_str(), rej ? "rejected" : "accepted", want.valid, want.invalid); if (rej || want.reject) { mon().count("rejected"); return; }
    VCHECK(s.ValidCounts == want.valid, "sim.valid", "%s %d valid simulations of %d", at.c_str(), s.ValidCounts, want.valid); VCHECK(close(b0, y.b.vec(), 0, 0), "sim.input", "%s data modified", at.c_str()); if (!want.amb) cmpAgg(s.ResultAggs, want.agg, mt, at, "sim.score"); }
  mon().count("simulations", want.valid); mon().distinct(fmt("sim %s %d %zu", v.str().c_str(), count, mt.size())); mon().sample(at + fmt(" -> %d valid", want.valid));
}
// data in columns with leading and trailing missing observations and future exogenous values
static void extended(Rng &r) {
  bool ma = r.b(0.15); VSpec v = simSpec(r, ma); int lead = r.b() ? r.i(1, 4) : 0, fut = r.i(0, 6); M Y, X; rndSeries(r, v, fut, Y, X); int n = v.N; M D(lead + n + fut, v.g + v.k, NANV); for (int t = 0; t < n; t++) for (int i = 0; i < v.g; i++) D(lead + t, i) = Y(i, t); for (int t = 0; t < n + fut; t++) for (int i = 0; i < v.k; i++) D(lead + t, v.g + i) = X(i, t);
  // the sample is the common range of all series
  if (v.g + v.k > 1 && r.b(0.3)) { int c = r.i(0, v.g + v.k - 1), a = r.i(0, 3); for (int t = 0; t < a; t++) D(lead + t, c) = NANV; Y = Y.sub(0, a, v.g, n - a); if (v.k) X = X.sub(0, a, v.k, X.c - a); v.N -= a; v.make(); }
  bool rowsAll = r.b(0.8); int hor = r.i(0, 5), end = r.b(0.5) ? 0 : r.i(1, 7); (void)rowsAll; if (v.T - end <= v.f + 3 || v.T - end - v.armax - v.dd < 0) throw Skip(); auto o = opts();
  VSpec vz = v; vz.N = D.r; vz.make(); VarmaSizes z = mk(vz); auto rt = ma ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone; int room = hor + r.i(0, 2); VarmaExtended e(z, rt, true, true, true, room, nullptr, nullptr, &o); double fl = fillOf(r.i(0, 3)); Buf st(e.StorageSize, fl), wk(e.WorkSize, fl); MX d(D); auto b0 = d.b.vec();
  std::string at = v.str() + fmt(" lead=%d future=%d horizon=%d end=%d", lead, fut, hor, end); mon().note(at);
  if (v.k && hor > fut + end) { VCHECK(throws([&] { e.Calculate(d.m, st, wk, false, hor, end); }), "ext.exo", "%s accepted without enough exogenous data", at.c_str()); return; }
  Est f(v, ma, &o); MX y(Y), x(X); bool ok = true; try { f.run(y, v.k ? &x : nullptr, end, false, 2, INFINITY); } catch (std::exception &) { ok = false; } double lim = 0; if (ok && r.b(0.2) && !ma) lim = f.m.Result.cn * r.pick({0.99, 1.01});
  bool ok2 = true; std::string why; int reps = r.b(0.15) ? 2 : 1; for (int q = 0; q < reps; q++) try { e.Calculate(d.m, st, wk, false, hor, end, lim > 0 ? lim : -1, 2); } catch (std::exception &ex) { ok2 = false; why = ex.what(); }
  if (ok && lim > 0) { VCHECK(ok2 == (lim > f.m.Result.cn), "ext.cn", "%s limit %g of condition number %g", at.c_str(), lim, f.m.Result.cn); if (!ok2) return; }
  VCHECK(ok == ok2, "ext.error", "%s %s", at.c_str(), why.c_str()); if (!ok || !ok2) return; VCHECK(close(b0, d.b.vec(), 0, 0), "ext.input", "%s data modified", at.c_str());
  VSAME(e.Y, Y, 0, "ext.data", "%s endogenous data", at.c_str()); VSAME(e.Model.Result.coef, fromLib(f.m.Result.coef), 1e-9, "ext.coef", "%s coefficients", at.c_str()); VSAME(e.Model.Result.sigma2, fromLib(f.m.Result.sigma2), 1e-9, "ext.sigma", "%s residual covariance", at.c_str()); VSAME(e.Model.Result.resid, fromLib(f.m.Result.resid), 1e-9, "ext.resid", "%s residuals", at.c_str()); VEQ(e.Model.Result.LogLikelihood, f.m.Result.LogLikelihood, "ext.ll", 1e-9, 1e-9, at + " log-likelihood");
  if (hor) { VFit b; b.coef = fromLib(f.m.Result.coef); b.resid = fromLib(f.m.Result.resid); b.sigma = fromLib(f.m.Result.sigma2); M mean, var; forecastRef(v, Y, X, b, end, hor, mean, var); int s = e.Forecasts.StartIndex; VCHECK(e.Forecasts.Forecast.ColsCount == s + hor && e.Forecasts.Forecast.RowsCount == v.g, "ext.forecast.size", "%s", at.c_str()); for (int i = 0; i < v.g; i++) for (int h = 0; h < hor; h++) { VEQ(e.Forecasts.Forecast.Get0(i, s + h), (double)mean(i, h), "ext.forecast", 1e-5, 1e-6, at + fmt(" variable %d horizon %d", i, h + 1)); VEQ(e.Forecasts.Variance.Get0(i, s + h), (double)var(i, h), "ext.variance", 1e-5, 1e-7, at + fmt(" variable %d horizon %d", i, h + 1)); } mon().count("extended_forecasts", v.g * hor); }
  // an interior missing observation is reported
  if (r.b(0.1)) { M D2 = D; D2(lead + v.N / 2 + (n - v.N), r.i(0, v.g + v.k - 1)) = NANV; MX d2(D2); VCHECK(throws([&] { e.Calculate(d2.m, st, wk, false, hor, end); }), "ext.missing", "%s a missing observation was accepted", at.c_str()); }
  mon().count("extended_models"); mon().distinct(fmt("ext %s %d %d %d", v.str().c_str(), lead, hor, end));
}
static void simulatee(Rng &r) {
  bool ma = r.b(0.12); VSpec v = simSpec(r, ma); int lead = r.b() ? r.i(1, 4) : 0, fut = r.i(0, 6); M Y, X; rndSeries(r, v, fut, Y, X); if (r.b(0.4)) for (auto &q : Y.d) q = (double)(q * 0.1L + 2); int n = v.N; M D(lead + n + fut, v.g + v.k, NANV); for (int t = 0; t < n; t++) for (int i = 0; i < v.g; i++) D(lead + t, i) = Y(i, t); for (int t = 0; t < n + fut; t++) for (int i = 0; i < v.k; i++) D(lead + t, v.g + i) = X(i, t);
  auto hs = rndHor(r, 5); auto mt = rndMets(r, true); int count = r.i(1, 8); bool prev = r.b(0.3), keep = r.b(0.6), lamb = r.b(0.15); if (lamb) mt.erase(std::remove(mt.begin(), mt.end(), ScoringType::kCrps), mt.end()); if (mt.empty()) mt.push_back(ScoringType::kMae); double cn = r.b(0.3) ? exp(r.u(2, 9)) : 1e12; auto o = opts(); if (v.T - count <= v.f + 3) throw Skip();
  VSpec vz = v; vz.N = D.r; vz.make(); VarmaSizes z = mk(vz); std::vector<double> lam; if (lamb) for (int i = 0; i < v.g; i++) lam.push_back(r.pick({0.0, 1.0, 0.5, NANV}));
  std::string at = v.str() + fmt(" lead=%d simulations=%d horizons=%s metrics=%zu previous=%d max condition %g details=%d", lead, count, str(std::vector<int>(hs.begin(), hs.end())).c_str(), mt.size(), prev, cn, keep); mon().note(at);
  VarmaSimulation s(z, count, hs, mt, &o, true, ma ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone); s.KeepDetails = keep; double fl = fillOf(r.i(0, 3)); Buf st(s.StorageSize, fl), wk(s.WorkSize, fl); MX d(D); auto b0 = d.b.vec();
  s.CalculateE(st, wk, d.m, cn, 2, false, prev, lamb ? &lam : nullptr); VCHECK(close(b0, d.b.vec(), 0, 0), "sime.input", "%s data modified", at.c_str());
  VSim w = simRef(v, Y, X, count, hs, mt, false, ma ? INFINITY : cn, 2, 1 << 30, lamb ? &lam : nullptr, ma, &o); VCHECK(s.ValidCounts == w.valid || ma, "sime.valid", "%s %d valid simulations of %d", at.c_str(), s.ValidCounts, w.valid); long er = 0; for (auto &x : s.Errors) er += x.second; int tried = 0; for (int se = count; se > 0 && std::min(se, (int)*std::max_element(hs.begin(), hs.end())) >= *std::min_element(hs.begin(), hs.end()); se--) tried++; VCHECK(er == tried - s.ValidCounts, "sime.errors", "%s %ld errors, %d of %d valid", at.c_str(), er, s.ValidCounts, tried);
  if (!w.pairs || w.amb || s.ValidCounts != w.valid || (ma && prev)) { mon().count("sime_not_compared"); return; }
  cmpAgg(s.ResultAggs, w.agg, mt, at, "sime.score");
  if (keep) { VCHECK(s.Details.size() == w.det.size(), "sime.details", "%s %zu details of %zu", at.c_str(), s.Details.size(), w.det.size()); std::map<std::tuple<int, int, int, int>, std::array<double, 5>> a; for (auto &x : w.det) a[std::make_tuple(std::get<0>(x), std::get<1>(x), std::get<2>(x), std::get<3>(x))] = {std::get<4>(x), std::get<5>(x), std::get<6>(x), std::get<7>(x), std::get<8>(x)};
    bool var = std::find(mt.begin(), mt.end(), ScoringType::kCrps) != mt.end(); for (auto &x : s.Details) { auto f = a.find(std::make_tuple((int)std::get<0>(x), (int)std::get<1>(x), (int)std::get<2>(x), (int)std::get<3>(x))); if (f == a.end()) { mon().viol("sime.details", at + " unknown detail"); break; } auto &q = f->second; std::string b = at + fmt(" end %d horizon %d variable %d", (int)std::get<0>(x), (int)std::get<2>(x), (int)std::get<3>(x)); VEQ(std::get<4>(x), q[0], "sime.last", 1e-9, 1e-9, b); VEQ(std::get<5>(x), q[1], "sime.actual", 1e-9, 1e-9, b); VEQ(std::get<6>(x), q[2], "sime.forecast", 1e-5, 1e-6, b); VEQ(std::get<7>(x), q[3], "sime.err", 1e-5, 1e-6, b); if (var) VEQ(std::get<8>(x), q[4], "sime.std", 1e-5, 1e-7, b); } mon().count("details_compared", w.det.size()); }
  mon().count("simulations", w.valid); mon().distinct(fmt("sime %s %d %zu", v.str().c_str(), count, mt.size()));
}
static void modelset(Rng &r) {
  int nY = r.i(1, 3), nX = r.b(0.6) ? r.i(1, 3) : 0, n = r.i(30, 50), fut = r.i(2, 5); bool big = r.b(0.25); VSpec g0; g0.g = nY; g0.k = nX; g0.p = 1; g0.N = n; g0.make(); M Y, X; rndSeries(r, g0, fut, Y, X); for (auto &q : Y.d) q = (double)(q * 0.3L + 2); if (nX) for (int t = 0; t < X.c; t++) X(0, t) = (double)r.n();
  // ranges of the series: rows are variables
  M D(nY + nX, n + fut, NANV); std::vector<int> a(nY + nX, 0), b(nY + nX); for (int i = 0; i < nY + nX; i++) { int e = i < nY ? n : n + fut; if (r.b(0.3)) a[i] = r.i(1, 5); if (r.b(i < nY ? 0.3 : 0.1)) e -= r.i(1, 3); b[i] = e - 1; for (int t = a[i]; t < e; t++) D(i, t) = i < nY ? Y(i, t) : X(i - nY, t); }
  SearchData data; MX DT(D.t()); data.Data.SetData(DT.m.Data, n + fut, nY + nX); data.NumEndo = nY; data.NumExo = nX; data.HasIntercept = false; data.HasWeight = false; if (r.b(0.15)) for (int j = 0; j < nY; j++) data.Lambdas.push_back(r.pick({0.0, 1.0, NANV}));
  MX DD(D); DatasetTs<true> ds(D.r, D.c, true, true); ds.Data(DD.m); VCHECK(!ds.HasMissingData, "data", "missing data%s", "");
  SearchCombinations co = SearchCombinations(); for (int i = 0; i < nY;) { VI p; int s = r.b(0.8) ? 1 : 2; for (int q = 0; q < s && i < nY; q++) p.push_back(i++); co.Partitions.push_back(p); } if (r.b(0.3)) r.shuffle(co.Partitions); co.NumFixPartitions = r.b(0.2) ? 1 : 0; for (int s = 1; s <= (int)co.Partitions.size(); s++) if (r.b(0.7)) co.Sizes.push_back(s); if (co.Sizes.empty()) co.Sizes.push_back(1);
  SearchItems it; it.LengthTargets = r.i(1, nY); it.LengthEndogenous = nY; it.LengthExogenous = nX; it.KeepAll = true; it.KeepModelEvaluations = true; it.KeepBestCount = 2; co.NumTargets = it.LengthTargets;
  if (nX) { std::set<VI> gr; for (int q = r.i(1, 2); q > 0; q--) { VI g; for (int j = 0; j < nX; j++) if (r.b()) g.push_back(nY + j); if (g.empty() && r.b(0.5)) g.push_back(nY + r.i(0, nX - 1)); gr.insert(g); } co.InnerGroups.assign(gr.begin(), gr.end()); }
  SearchMetricOptions me; if (r.b(0.8)) me.MetricsIn.push_back(GoodnessOfFitType::kAic); if (r.b()) me.MetricsIn.push_back(GoodnessOfFitType::kSic); if (r.b() || me.MetricsIn.empty()) me.MetricsOut = rndMets(r, data.Lambdas.empty());
  int maxH = r.i(1, 4); me.Seed = 0; me.SimFixSize = me.MetricsOut.empty() ? 0 : r.i(1, 4); me.TrainRatio = 0; if (!me.MetricsOut.empty()) { me.Horizons = rndHor(r, maxH); if (*std::min_element(me.Horizons.begin(), me.Horizons.end()) > me.SimFixSize) me.Horizons.insert(me.Horizons.begin(), 1); }
  SearchModelChecks ch; ch.Estimation = r.b(); ch.Prediction = r.b(); if (ch.Prediction) { ch.Estimation = true; if (r.b(0.7)) it.Length1 = maxH; } int lim = r.i(0, 6); if (lim == 0) ch.MinObsCount = n - r.i(0, 5); if (lim == 1) ch.MinDof = n - r.i(1, 12); if (lim == 2) ch.MaxAic = r.u(-50, 200); if (lim == 3) ch.MaxSic = r.u(-50, 200); if (lim == 4) ch.MaxConditionNumber = exp(r.u(2, 9)); if (lim == 5 && me.SimFixSize) { ch.MinOutSim = r.i(1, me.SimFixSize); ch.MaxConditionNumber = exp(r.u(2, 9)); }
  Buf lo(maxH * it.LengthTargets), up(maxH * it.LengthTargets); bool bounds = ch.Prediction && r.b(0.4); if (bounds) { for (int i = 0; i < maxH * it.LengthTargets; i++) { lo.p[i] = r.b(0.8) ? r.u(-3, 1.5) : NANV; up.p[i] = r.u(2.5, 6); } ch.PredictionLower.SetData(lo, maxH, it.LengthTargets); ch.PredictionUpper.SetData(up, maxH, it.LengthTargets); }
  SearchOptions op; op.Parallel = r.b(0.4); op.ReportInterval = 0; std::vector<Ti> mp{r.i(0, 2), r.b(0.3), r.b(0.15), 0, 0, 0}; int seas = 0; if (r.b(0.25)) { seas = r.i(2, 4); mp[3] = r.i(0, 1); mp[4] = r.b(0.3); mp[5] = r.b(0.1); } if (mp[0] + mp[2] + mp[3] + mp[5] == 0) mp[0] = 1; if (mp[2] + mp[5] && !big) mp[0] = std::min(mp[0], 1); bool prev = r.b(0.3); auto o = opts(); double mult = 2;
  std::string at = fmt("obs=%d endo=%d exo=%d targets=%d sizes=%zu groups=%zu max=(%d,%d,%d)(%d,%d,%d)_%d in=%zu out=%zu check=%d prediction=%d bounds=%d previous=%d", n, nY, nX, it.LengthTargets, co.Sizes.size(), co.InnerGroups.size(), mp[0], mp[1], mp[2], mp[3], mp[4], mp[5], seas, me.MetricsIn.size(), me.MetricsOut.size(), lim, ch.Prediction, bounds, prev); mon().note(at);
  VarmaModelset ms(data, co, op, it, me, ch, ds, mp, seas, prev, &o, mult, maxH); Buf w(ms.Modelset.WorkSize, fillOf(r.i(0, 3))); std::vector<Ti> wi(ms.Modelset.WorkSizeI + 1); ms.Modelset.Start(w, wi.data());
  SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2; ms.Modelset.CombineInfo(info, l0, l1, l2); int nE = me.MetricsIn.size() + me.MetricsOut.size(); typedef std::vector<int> VV;
  auto sig = [](const VI &a, const VI &b, const VI &c) { return str(VV(a.begin(), a.end())) + str(VV(b.begin(), b.end())) + str(VV(c.begin(), c.end())); };
  std::map<std::tuple<int, int, std::string>, double> got, want; std::map<std::tuple<int, int, int>, std::vector<std::array<double, 3>>> fc; std::map<std::tuple<int, int, int, std::string>, std::array<double, 2>> gotF;
  if (!l0.empty()) for (int e = 0; e < nE; e++) for (int t = 0; t < it.LengthTargets; t++) { std::vector<std::shared_ptr<EstimationKeep>> k; ms.Modelset.CombineAll(e, t, 0, l0, k); for (auto &q : k) VCHECK(got.emplace(std::make_tuple(e, t, sig(q->Endogenous, q->Exogenouses, q->Extra)), q->Metric).second, "set.twice", "%s model %s twice", at.c_str(), sig(q->Endogenous, q->Exogenouses, q->Extra).c_str()); }
  long expected = 0, ok = 0; bool amb = false; auto groups = co.InnerGroups; if (groups.empty()) groups.resize(1); int P = co.Partitions.size();
  for (int size : co.Sizes) { if (size < co.NumFixPartitions) continue; for (int mask = 0; mask < (1 << P); mask++) { if (__builtin_popcount(mask) != size) continue; bool fx = true; for (int i = 0; i < co.NumFixPartitions; i++) if (!(mask >> i & 1)) fx = false; if (!fx) continue;
    std::vector<VI> combos{{}}; for (int i = 0; i < P; i++) if (mask >> i & 1) { std::vector<VI> nx; for (auto &c : combos) for (auto x : co.Partitions[i]) { auto d2 = c; d2.push_back(x); nx.push_back(d2); } combos = nx; }
    for (auto endo : combos) { std::sort(endo.begin(), endo.end()); if (endo[0] >= it.LengthTargets) continue; for (auto &exo : groups) for (int p = 0; p <= mp[0]; p++) for (int d = 0; d <= mp[1]; d++) for (int q = 0; q <= mp[2]; q++) for (int PP = 0; PP <= mp[3]; PP++) for (int Dd = 0; Dd <= mp[4]; Dd++) for (int Q = 0; Q <= mp[5]; Q++) {
      if (p + q + PP + Q == 0) continue; expected++; VI ext{p, d, q, PP, Dd, Q}; std::string id = sig(endo, exo, ext); int st = 0, en = n + fut; for (auto j : endo) { st = std::max(st, a[j]); en = std::min(en, b[j]); } for (auto j : exo) { st = std::max(st, a[j]); en = std::min(en, b[j]); }
      VSpec v; v.g = endo.size(); v.k = exo.size(); v.p = p; v.d = d; v.q = q; v.P = PP; v.D = Dd; v.Q = Q; v.s = seas; v.N = en - st + 1; v.make(); M y(v.g, v.N), x(v.k, D.c - st); for (int i = 0; i < v.g; i++) for (int t = 0; t < v.N; t++) y(i, t) = D(endo[i], st + t); for (int i = 0; i < v.k; i++) for (int t = 0; t < x.c; t++) x(i, t) = D(exo[i], st + t);
      bool ma = q + Q > 0; auto near = [&](double u, double z) { if (std::fabs(u - z) < 1e-6 * (1 + std::fabs(z))) amb = true; }; bool est = ch.Estimation; Est e(v, ma, &o); MX my(y), mx(x); M mean, var; double aic = NANV, sic = NANV;
      if (est) { if (ch.MinObsCount > 0 && v.N < ch.MinObsCount) continue; if (ch.MinDof > 0 && v.N - v.f < ch.MinDof) continue; try { e.run(my, v.k ? &mx : nullptr, 0, false, mult, INFINITY); } catch (std::exception &) { continue; } if (ch.mCheckCN_all && std::isfinite(ch.MaxConditionNumber)) { if (!ma) near(e.m.Result.cn, ch.MaxConditionNumber); bool rej = throws([&] { Est e2(v, ma, &o); e2.run(my, v.k ? &mx : nullptr, 0, false, mult, ch.MaxConditionNumber); }); if (rej) continue; }
        aic = e.m.Result.Aic; sic = e.m.Result.Sic; if (std::isfinite(ch.MaxAic)) { near(aic, ch.MaxAic); if (aic > ch.MaxAic) continue; } if (std::isfinite(ch.MaxSic)) { near(sic, ch.MaxSic); if (sic > ch.MaxSic) continue; }
        if (ch.Prediction) { if (v.T - v.armax - v.dd < 0 || (v.k && x.c < v.N + maxH)) continue; VFit b; b.coef = fromLib(e.m.Result.coef); b.resid = fromLib(e.m.Result.resid); b.sigma = fromLib(e.m.Result.sigma2); forecastRef(v, y, x, b, 0, maxH, mean, var); bool bad = false; for (auto z : mean.d) if (std::isnan((double)z)) bad = true; if (bounds) for (int i = 0; i < v.g; i++) if (endo[i] < it.LengthTargets) for (int h = 1; h <= maxH; h++) { double f = (double)mean(i, h - 1), l = lo.p[endo[i] * maxH + h - 1], u = up.p[endo[i] * maxH + h - 1]; near(f, l); near(f, u); if (f < l || f > u) bad = true; } if (bad) continue; } }
      VSim sm; if (!me.MetricsOut.empty()) { if (me.SimFixSize >= v.T) continue; std::vector<double> lam; if (!data.Lambdas.empty()) for (auto j : endo) lam.push_back(data.Lambdas[j]); sm = simRef(v, y, x, me.SimFixSize, me.Horizons, me.MetricsOut, prev, std::isfinite(ch.MaxConditionNumber) ? ch.MaxConditionNumber : INFINITY, mult, me.SimFixSize - ch.MinOutSim, lam.empty() ? nullptr : &lam, ma, &o); if (sm.amb) amb = true; if (sm.reject) continue; }
      ok++; for (int i = 0; i < v.g; i++) if (endo[i] < it.LengthTargets) for (int m = 0; m < nE; m++) { double z = m < (int)me.MetricsIn.size() ? (me.MetricsIn[m] == GoodnessOfFitType::kAic ? aic : sic) : (double)sm.agg(m - (int)me.MetricsIn.size(), i); if (!std::isnan(z)) { want[std::make_tuple(m, endo[i], id)] = z; if (it.Length1) for (int h = 0; h < maxH; h++) fc[std::make_tuple(m, endo[i], h)].push_back({z, (double)mean(i, h), (double)var(i, h)}); } }
    } } } }
  VCHECK(info.ExpectedCount == expected && info.SearchedCount == expected, "set.count", "%s announced %d, searched %d, the definition gives %ld", at.c_str(), info.ExpectedCount, info.SearchedCount, expected); if (amb) throw Skip();
  for (auto &x : want) { auto f = got.find(x.first); std::string b = at + fmt(" metric %d target %d model %s", std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str()); if (f == got.end()) { mon().viol("set.missing", b); continue; } VEQ(f->second, x.second, "set.metric", 1e-6, 1e-7, b); }
  for (auto &x : got) VCHECK(want.count(x.first), "set.extra", "%s metric %d target %d model %s should not be there (value %g)", at.c_str(), std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first).c_str(), x.second);
  long fails = 0; std::string why; for (auto &x : info.FailsCount) { fails += x.second; why += x.first + "; "; } VCHECK(fails == expected - ok, "set.fails", "%s %ld failures reported, %ld models are invalid (%s)", at.c_str(), fails, expected - ok, why.c_str());
  if (it.Length1 && !l1.empty()) for (int e = 0; e < nE; e++) for (int t = 0; t < it.LengthTargets; t++) for (int h = 0; h < maxH; h++) { std::vector<std::shared_ptr<EstimationKeep>> k; ms.Modelset.CombineBests(e, t, h, l1, k); auto &c = fc[std::make_tuple(e, t, h)]; VCHECK(k.size() == std::min<size_t>(c.size(), 2), "set.forecast.count", "%s metric %d target %d horizon %d: %zu forecasts of %zu", at.c_str(), e, t, h + 1, k.size(), c.size()); std::vector<char> used(c.size()); for (auto &q : k) { bool f = false; for (size_t i = 0; i < c.size() && !f; i++) if (!used[i] && close(c[i][0], q->Metric, 1e-6, 1e-7) && close(c[i][1], q->Mean, 1e-5, 1e-6) && close(c[i][2], q->Variance, 1e-5, 1e-7)) used[i] = f = true; VCHECK(f, "set.forecast", "%s metric %d target %d horizon %d: forecast %.9g (variance %.9g) belongs to no model with metric %.9g", at.c_str(), e, t, h + 1, q->Mean, q->Variance, q->Metric); } mon().count("search_forecasts", k.size()); }
  mon().count("models_compared", want.size()); mon().count("models_rejected", expected - ok); mon().distinct(fmt("set %d %d %d %d%d%d%d%d%d %zu %zu %d", nY, nX, it.LengthTargets, mp[0], mp[1], mp[2], mp[3], mp[4], mp[5], me.MetricsIn.size(), me.MetricsOut.size(), lim)); mon().sample(at + fmt(" -> %ld models, %ld valid", expected, ok));
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("extended", 1500, 15000, extended); m.section("simulate", 1000, 10000, simulate); m.section("simulatee", 600, 6000, simulatee); m.section("modelset", 500, 5000, modelset);
  return m.done();
}
