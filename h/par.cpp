// Monitors of the search across threads: data races (thread sanitizer under an OpenMP runtime of our own), equality of
// parallel and sequential results, progress and cancellation while the search runs.
#include "varmaref.h"
#include "scoreref.h"
#include "searchers.h"
#include "sur.h"
#include "discrete_choice.h"
#include "omp_shim.h"
#include <atomic>
#include <thread>
#include <chrono>
#include <dlfcn.h>
#include <csignal>
#include <unistd.h>
#include "plain_report.h"
using vm::str; using ref::M; using VI = std::vector<Ti>;
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, unsigned long) __attribute__((weak));
static std::atomic<bool *> cancelFlag{nullptr};
static std::atomic<long> cancelRaces{0};
static std::string where(void **pc) { // innermost frame inside the library
  if (!__sanitizer_symbolize_pc) return "?"; char b[1024]; std::string first; for (int i = 0; i < 40 && pc[i]; i++) { __sanitizer_symbolize_pc(pc[i], "%f|%s", b, sizeof b); std::string s = b; auto k = s.rfind('|'); std::string f = s.substr(0, k), file = k == std::string::npos ? "" : s.substr(k + 1); f = f.substr(0, f.find('(')); if (auto q = f.rfind(' '); q != std::string::npos) f = f.substr(q + 1); if (first.empty()) first = f; if (file.find("/src/") != std::string::npos || file.find("/include/math") != std::string::npos || file.find("/include/matrix") != std::string::npos) return f; } return first;
}
static void reportRaces(const std::string &at) {
  int n = tsan_reports(); for (int i = 0; i < n; i++) { auto &p = tsan_reps[i]; if (p.addr && p.addr == (void *)cancelFlag.load()) { cancelRaces++; mon().viol("race.RequestCancel", at + " the cancellation flag is written while the searching threads read it"); continue; }
    std::string a = where(p.pc[0]), b = where(p.pc[1]); if (b < a) std::swap(a, b); mon().viol("race." + a, at + fmt(" %s between %s and %s (%s/%s)", p.type, a.c_str(), b.c_str(), p.wr[0] ? "write" : "read", p.wr[1] ? "write" : "read")); }
  tsan_reset();
}
// ---------------------------------------------------------------- problems: built again from the same seed for every run
struct RS : public Searcher {
  uint64_t plan = 0; int failPct = 0; std::vector<bool> pos; int nE = 1, nT = 1, l1 = 0, l2 = 0; using Searcher::Searcher;
  std::string EstimateOne(Tv *work, Ti *workI) override {
    for (Ti i = 0; i < WorkSize; i++) work[i] = (double)(plan % 1000) + i; for (Ti i = 0; i < WorkSizeI; i++) workI[i] = (Ti)i; VI c = CurrentIndices.Vec; std::sort(c.begin(), c.end()); Rng r(hash64(c.data(), c.size() * sizeof(Ti), plan)); shim::point();
    if (r.i(0, 99) < failPct) { switch (r.i(0, 3)) { case 0: return "state A"; case 1: throw std::logic_error("thrown B"); case 2: throw std::string("thrown C"); default: throw 7; } }
    VI endo, exo; for (auto x : c) (x % 2 ? endo : exo).push_back(x); VI ex{(Ti)(plan % 1000000)}; for (int e = 0; e < nE; e++) for (int t = 0; t < nT; t++) { double m = r.b(0.2) ? r.i(0, 2) : r.n(), w = std::exp(-0.5 * m); if (pItems->KeepModelEvaluations) { auto k = std::make_shared<EstimationKeep>(m, w, exo, ex, endo); Push0(k, e, t); } for (int j = 0; j < l1; j++) { auto k = std::make_shared<EstimationKeep>(m, w, exo, ex, endo, r.n(), r.u(0.1, 3)); Push1(k, e, t, j); } for (int j = 0; j < l2; j++) { auto k = std::make_shared<EstimationKeep>(m, w, exo, ex, endo, r.n(), r.u(0.1, 3)); Push2(k, e, t, j); } }
    for (Ti i = 0; i < WorkSize; i++) if (work[i] != (double)(plan % 1000) + i) return "shared work area"; for (Ti i = 0; i < WorkSizeI; i++) if (workI[i] != i) return "shared work area"; return "";
  }
};
struct Prob {
  M D; std::unique_ptr<MX> X, X2; SearchData data; SearchCombinations co = SearchCombinations(); SearchItems it; SearchMetricOptions me; SearchModelChecks ch; SearchOptions op; std::string at; int nv = 0;
  std::vector<std::unique_ptr<RS>> rs; std::vector<Searcher *> se; std::unique_ptr<ModelSet> own; std::unique_ptr<SurModelset> sur; std::unique_ptr<DiscreteChoiceModelsetBase> dc; std::unique_ptr<VarmaModelset> va; std::unique_ptr<DatasetTs<true>> ds;
  std::vector<std::unique_ptr<MX>> tabs; std::vector<Matrix<Tv>> tm; Newton nw; RocOptions ro; std::vector<Ti> mp; LimitedMemoryBfgsbOptions lo; std::unique_ptr<Buf> b1, b2; ModelSet *ms = nullptr; size_t wsz = 0, wisz = 0;
};
static void items(Rng &r, Prob &p) { auto &it = p.it; it.KeepModelEvaluations = it.Length1 + it.Length2 == 0 || r.b(0.8); it.KeepAll = r.b(0.7); it.KeepBestCount = r.i(0, 4); it.KeepInclusionWeights = it.KeepModelEvaluations && r.b(); if (it.Length1 + it.Length2) { it.KeepMixture = r.b(); if (r.b()) it.CdfsAt = {0.0, 1.0}; if (r.b()) it.ExtremeBoundsMultiplier = 2; } if (!it.KeepModelEvaluations) it.KeepAll = r.b(); }
static std::unique_ptr<Prob> build(int kind, uint64_t seed, bool parallel) {
  Rng r(seed); auto P = std::make_unique<Prob>(); auto &p = *P; p.op.Parallel = parallel; p.op.ReportInterval = 0; auto &co = p.co; co.NumFixItems = 0;
  if (kind == 0) {
    int nS = r.i(2, 9), Q = r.i(3, 7); for (int i = 0; i < Q; i++) { VI v; for (int q = r.i(1, 2); q > 0; q--) v.push_back(p.nv++); co.Partitions.push_back(v); } co.NumFixPartitions = 0; p.data.NumEndo = p.nv / 2; p.data.NumExo = p.nv - p.nv / 2; p.data.HasIntercept = p.data.HasWeight = false; p.it.LengthEvals = r.i(1, 2); p.it.LengthTargets = r.i(1, 2); p.it.Length1 = r.i(0, 2); p.it.Length2 = r.i(0, 2); items(r, p); for (int e = 0; e < p.it.LengthEvals; e++) p.me.EvalIsPosOrientation.push_back(r.b());
    int f = r.pick({0, 20, 100}); for (int i = 0; i < nS; i++) { auto s = std::make_unique<RS>(p.data, co, p.op, p.it, p.me, p.ch, r.i(1, std::min(Q, 4)), false); s->plan = r.next(); s->failPct = f; s->pos = p.me.EvalIsPosOrientation; s->nE = p.it.LengthEvals; s->nT = p.it.LengthTargets; s->l1 = p.it.Length1; s->l2 = p.it.Length2; s->WorkSize = r.i(0, 12); s->WorkSizeI = r.i(0, 6); p.se.push_back(s.get()); p.rs.push_back(std::move(s)); }
    p.own = std::make_unique<ModelSet>(p.se, p.data, co, p.op, p.it, p.me, p.ch); p.own->ShuffleSearchers = r.b(); p.ms = p.own.get(); p.at = fmt("user searchers=%d partitions=%d fails=%d%%", nS, Q, f); return P;
  }
  if (kind == 1) {
    int nY = r.i(1, 3), nX = r.i(2, 5), N = r.i(20, 34); p.D = rnd(r, N, nY + nX); for (int i = 0; i < N; i++) for (int j = 0; j < nY; j++) { p.D(i, j) += 2; for (int q = 0; q < nX; q++) p.D(i, j) += p.D(i, nY + q) * (0.3 * ((j + q) % 3)); } if (r.b(0.4)) for (int q = r.i(1, 3); q > 0; q--) p.D(r.i(0, N - 1), r.i(0, nY + nX - 1)) = NANV;
    p.X = std::make_unique<MX>(p.D); p.nv = nY + nX; p.data.Data.SetData(p.X->m.Data, N, nY + nX); p.data.NumEndo = nY; p.data.NumExo = nX; p.data.HasIntercept = p.data.HasWeight = false; if (r.b(0.2)) for (int j = 0; j < nY; j++) p.data.Lambdas.push_back(r.pick({0.0, 1.0, NANV}));
    for (int i = 0; i < nX; i++) co.Partitions.push_back({(Ti)(nY + i)}); co.NumFixPartitions = r.b(0.3); for (int s = 1; s <= nX; s++) co.Sizes.push_back(s); p.it.LengthTargets = r.i(1, nY); p.it.LengthEndogenous = nY; p.it.LengthExogenous = nX; if (r.b()) p.it.Length1 = nX; co.NumTargets = p.it.LengthTargets; items(r, p);
    std::set<VI> g{VI{0}}; for (int q = r.i(0, 3); q > 0; q--) { VI v; for (int j = 0; j < nY; j++) if (r.b()) v.push_back(j); if (!v.empty()) g.insert(v); } co.InnerGroups.assign(g.begin(), g.end());
    if (r.b(0.8)) p.me.MetricsIn.push_back(GoodnessOfFitType::kAic); if (r.b()) p.me.MetricsIn.push_back(GoodnessOfFitType::kSic); if (r.b(0.7) || p.me.MetricsIn.empty()) p.me.MetricsOut = {ScoringType::kMae, ScoringType::kSign}; if (!p.me.MetricsOut.empty() && p.data.Lambdas.empty() && r.b()) p.me.MetricsOut.push_back(ScoringType::kCrps); int sd = r.i(1, 9999); p.me.Seed = r.b() ? sd : -sd; p.me.SimFixSize = p.me.MetricsOut.empty() ? 0 : r.i(1, 4); p.me.TrainRatio = 0.7;
    p.ch.Estimation = r.b() || p.it.Length1 > 0; if (r.b(0.3)) p.ch.MaxConditionNumber = r.u(2, 40); if (r.b(0.2)) p.ch.MinR2 = r.u(0, 0.8); bool sig = p.data.Lambdas.empty() && r.b(0.3);
    p.sur = std::make_unique<SurModelset>(p.data, co, p.op, p.it, p.me, p.ch, sig ? 2 : 0, sig ? 0.2 : 0); p.ms = &p.sur->Modelset; p.at = fmt("sur N=%d endo=%d exo=%d groups=%zu in=%zu out=%zu seed=%d significance=%d", N, nY, nX, co.InnerGroups.size(), p.me.MetricsIn.size(), p.me.MetricsOut.size(), p.me.Seed, sig); return P;
  }
  if (kind == 2) {
    int J = r.b(0.75) ? 2 : 3, E = r.i(2, 4), n = r.i(40, 70) + 20 * (J - 2); bool weight = r.b(0.4), logit = r.b(0.7), probit = !logit || r.b(); int w = weight; M D(n, 1 + w + E); for (int i = 0; i < n; i++) { double v = 0; for (int j = 0; j < E; j++) { double x = j ? r.n() : 1; D(i, 1 + w + j) = x; v += x * (j % 2 ? 0.4 : -0.2); } v += r.n(); D(i, 0) = J == 2 ? v > 0 : v > 0.5 ? 2 : v > -0.5 ? 1 : 0; if (w) D(i, 1) = r.u(0.5, 2); } if (r.b(0.3)) D(r.i(0, n - 1), 1 + w + E - 1) = NANV; p.D = D;
    p.X = std::make_unique<MX>(D); p.nv = 1 + E; p.data.Data.SetData(p.X->m.Data, n, D.c); p.data.NumEndo = 1; p.data.NumExo = E; p.data.HasIntercept = true; p.data.HasWeight = weight; for (int j = 1; j <= E; j++) co.Partitions.push_back({(Ti)j}); co.NumFixPartitions = 1; for (int s = 1; s <= E; s++) co.Sizes.push_back(s); co.NumTargets = 1; co.InnerGroups = {{0}};
    p.it.LengthTargets = 1; p.it.LengthEndogenous = 1; p.it.LengthExogenous = E; if (r.b()) p.it.Length1 = E + J - 2; items(r, p); auto &me = p.me; me.MetricsIn = {GoodnessOfFitType::kAic}; if (r.b()) me.MetricsIn.push_back(GoodnessOfFitType::kFrequencyCost); if (J == 2 && r.b(0.7)) { me.MetricsIn.push_back(GoodnessOfFitType::kAuc); me.MetricsIn.push_back(GoodnessOfFitType::kBrier); } if (J == 2 && r.b(0.7)) { me.MetricsOut = {ScoringType::kBrier, ScoringType::kAuc}; if (r.b()) me.MetricsOut.push_back(ScoringType::kFrequencyCost); if (r.b(0.3)) me.MetricsIn.clear(); }
    me.WeightedEval = r.b(); int sd = r.i(1, 9999); me.Seed = r.b() ? sd : -sd; me.SimFixSize = me.MetricsOut.empty() ? 0 : r.i(1, 3); me.TrainRatio = 0.7; bool cost = std::count(me.MetricsIn.begin(), me.MetricsIn.end(), GoodnessOfFitType::kFrequencyCost) || std::count(me.MetricsOut.begin(), me.MetricsOut.end(), ScoringType::kFrequencyCost); if (cost) for (int c = r.i(1, 2); c > 0; c--) { p.tabs.emplace_back(new MX(rndCostTable(r, J))); p.tm.push_back(p.tabs.back()->m); }
    p.ch.Estimation = !me.MetricsIn.empty() || p.it.Length1 > 0 || r.b(); if (r.b(0.2)) p.ch.MaxConditionNumber = r.u(2, 40); p.nw.TolFunction = 1e-10;
    p.dc.reset(DiscreteChoiceModelsetBase::GetFromTypes(J == 2, weight, p.data, co, p.op, p.it, me, p.ch, p.X->m, p.tm, logit, probit, p.nw, p.ro)); p.ms = &p.dc->Modelset; p.at = fmt("dc J=%d n=%d exo=%d weights=%d logit=%d probit=%d in=%zu out=%zu tables=%zu seed=%d", J, n, E, weight, logit, probit, me.MetricsIn.size(), me.MetricsOut.size(), p.tm.size(), me.Seed); return P;
  }
  int nY = r.i(1, 3), nX = r.b(0.5) ? r.i(1, 2) : 0, n = r.i(24, 34), fut = 3; VSpec g; g.g = nY; g.k = nX; g.p = 1; g.N = n; g.make(); M Y, X; rndSeries(r, g, fut, Y, X); M D(nY + nX, n + fut, NANV); for (int i = 0; i < nY + nX; i++) for (int t = 0; t < (i < nY ? n : n + fut); t++) D(i, t) = i < nY ? (double)(Y(i, t) * 0.3L + 2) : (double)r.n();
  p.D = D; p.X = std::make_unique<MX>(D.t()); p.X2 = std::make_unique<MX>(D); p.nv = nY + nX; p.data.Data.SetData(p.X->m.Data, n + fut, nY + nX); p.data.NumEndo = nY; p.data.NumExo = nX; p.data.HasIntercept = p.data.HasWeight = false; p.ds = std::make_unique<DatasetTs<true>>(D.r, D.c, true, true); p.ds->Data(p.X2->m);
  for (int i = 0; i < nY; i++) co.Partitions.push_back({(Ti)i}); co.NumFixPartitions = 0; for (int s = 1; s <= nY; s++) co.Sizes.push_back(s); p.it.LengthTargets = r.i(1, nY); p.it.LengthEndogenous = nY; p.it.LengthExogenous = nX; co.NumTargets = p.it.LengthTargets; if (nX) { std::set<VI> gr; for (int q = r.i(1, 3); q > 0; q--) { VI v; for (int j = 0; j < nX; j++) if (r.b()) v.push_back(nY + j); gr.insert(v); } co.InnerGroups.assign(gr.begin(), gr.end()); }
  p.me.MetricsIn = {GoodnessOfFitType::kAic}; if (r.b(0.7)) p.me.MetricsOut = {ScoringType::kMae, ScoringType::kRmse}; if (r.b() && !p.me.MetricsOut.empty()) p.me.MetricsOut.push_back(ScoringType::kCrps); p.me.Seed = 0; p.me.SimFixSize = p.me.MetricsOut.empty() ? 0 : r.i(1, 3); p.me.TrainRatio = 0; if (!p.me.MetricsOut.empty()) p.me.Horizons = {1, 2}; int maxH = 2; p.ch.Estimation = true; p.ch.Prediction = r.b(); if (p.ch.Prediction) p.it.Length1 = maxH; items(r, p);
  if (p.ch.Prediction && r.b()) { p.b1 = std::make_unique<Buf>(maxH * p.it.LengthTargets); p.b2 = std::make_unique<Buf>(maxH * p.it.LengthTargets); for (int i = 0; i < maxH * p.it.LengthTargets; i++) { p.b1->p[i] = r.u(-3, 1.5); p.b2->p[i] = r.u(2.5, 6); } p.ch.PredictionLower.SetData(p.b1->p, maxH, p.it.LengthTargets); p.ch.PredictionUpper.SetData(p.b2->p, maxH, p.it.LengthTargets); }
  p.mp = {(Ti)r.i(1, 2), (Ti)r.b(0.3), (Ti)r.b(0.25), 0, 0, 0}; if (r.b(0.2)) { p.mp[3] = 1; } p.lo.Factor = 1e7; p.lo.ProjectedGradientTol = 1e-4; p.lo.IterationMax = 40; bool prev = r.b(0.4);
  p.va = std::make_unique<VarmaModelset>(p.data, co, p.op, p.it, p.me, p.ch, *p.ds, p.mp, p.mp[3] ? 2 : 0, prev, &p.lo, 2, maxH); p.ms = &p.va->Modelset; p.at = fmt("varma n=%d endo=%d exo=%d groups=%zu max=(%d,%d,%d)(%d) out=%zu prediction=%d previous=%d", n, nY, nX, co.InnerGroups.size(), p.mp[0], p.mp[1], p.mp[2], p.mp[3], p.me.MetricsOut.size(), p.ch.Prediction, prev); return P;
}
struct Snap { std::map<std::string, std::vector<double>> v; std::map<std::string, int> fails; long expected = 0, searched = 0; size_t models = 0; };
static std::string sg(const EstimationKeep &k) { auto f = [](const VI &a) { return str(std::vector<int>(a.begin(), a.end())); }; return f(k.Endogenous) + f(k.Exogenouses) + f(k.Extra); }
static Snap snap(Prob &p) {
  Snap s; SearcherModelingInfo info; std::vector<SearcherSummary *> l[3]; p.ms->CombineInfo(info, l[0], l[1], l[2]); s.expected = info.ExpectedCount; s.searched = info.SearchedCount; for (auto &x : info.FailsCount) s.fails[x.first] += x.second; auto &it = p.it; int nE = it.LengthEvals, n3[3] = {it.KeepModelEvaluations ? 1 : 0, it.Length1, it.Length2};
  for (int k = 0; k < 3; k++) for (int e = 0; e < nE; e++) for (int t = 0; t < it.LengthTargets; t++) for (int j = 0; j < n3[k]; j++) { std::string id = fmt("%d/%d/%d/%d", k, e, t, j); auto &L = l[k]; if (L.empty()) continue;
    if (it.KeepAll) { std::vector<std::shared_ptr<EstimationKeep>> a; p.ms->CombineAll(e, t, j, L, a); std::map<std::string, int> dup; for (auto &q : a) { std::string g = sg(*q); g += fmt("#%d", dup[g]++); s.v["all " + id + " " + g] = {q->Metric, q->Weight, q->Mean, q->Variance}; s.models++; } }
    if (it.KeepBestCount) { std::vector<std::shared_ptr<EstimationKeep>> a; p.ms->CombineBests(e, t, j, L, a); int i = 0; for (auto &q : a) { s.v["best " + id + fmt(" %d", i++)] = {q->Metric}; s.models++; } }
    if (k == 0 && it.KeepInclusionWeights) for (int v = 0; v < p.nv; v++) { RunningMoments<1, true, false, Tv> q; p.ms->CombineInclusionWeights(e, t, v, L, q); s.v["inclusion " + id + fmt(" %d", v)] = {q.GetMean(), (double)q.Count}; }
    if (k && it.KeepMixture) { RunningMoments<4, true, true, Tv> q; p.ms->CombineMixture(e, t, j, L, q); s.v["mixture " + id] = {q.GetMean(), q.GetVariance(), q.GetSkewness(), q.GetKurtosis(), q.SumWeights, (double)q.Count}; }
    if (k) for (size_t c = 0; c < it.CdfsAt.size(); c++) { RunningMoments<1, true, true, Tv> q; p.ms->CombineCdfAt(e, t, j, c, L, q); s.v["cdf " + id + fmt(" %zu", c)] = {q.GetMean(), q.SumWeights}; }
    if (k && it.ExtremeBoundsMultiplier > 0) { double lo = 0, hi = 0; p.ms->CombineExtremeBounds(e, t, j, L, lo, hi); s.v["bounds " + id] = {lo, hi}; } }
  return s;
}
static std::string fl(const std::map<std::string, int> &f) { std::string s; for (auto &x : f) s += fmt("%d x %s; ", x.second, x.first.c_str()); return s; }
static void start(Prob &p, int fill) { Buf w(p.ms->WorkSize, fillOf(fill)); std::unique_ptr<Ti[]> wi(new Ti[p.ms->WorkSizeI + 1]); if (p.dc) p.dc->Start(w, wi.get()); else p.ms->Start(w, wi.get()); }
static const char *names[] = {"user", "sur", "dc", "varma"};
static void compare(const Snap &a, const Snap &b, const std::string &at, const std::string &key, bool subset) {
  if (!subset) { VCHECK(a.expected == b.expected && a.searched == b.searched && b.searched == b.expected, key + ".count", "%s announced %ld/%ld, searched %ld/%ld", at.c_str(), a.expected, b.expected, a.searched, b.searched); VCHECK(a.fails == b.fails, key + ".fails", "%s failures %s expected %s", at.c_str(), fl(b.fails).c_str(), fl(a.fails).c_str()); VCHECK(a.v.size() == b.v.size(), key + ".items", "%s %zu results of %zu", at.c_str(), b.v.size(), a.v.size()); }
  for (auto &x : b.v) { if (subset && x.first.compare(0, 4, "all ")) continue; auto f = a.v.find(x.first); if (f == a.v.end()) { mon().viol(key + ".extra", at + " " + x.first + " is not in the sequential result"); continue; } VCHECK(close(f->second, x.second, 1e-8, 1e-12), key + "." + x.first.substr(0, x.first.find(' ')), "%s %s: %s, sequentially %s", at.c_str(), x.first.c_str(), str(x.second).c_str(), str(f->second).c_str()); }
}
// a search that blocks uses no processor time: end it as the CPU limit would
struct Watch { std::atomic<bool> done{false}; std::thread t; Watch() : t([this] { for (int i = 0; i < 600 && !done.load(std::memory_order_relaxed); i++) std::this_thread::sleep_for(std::chrono::milliseconds(i < 20 ? 5 : 100)); if (!done.load(std::memory_order_relaxed)) { signal(SIGPROF, SIG_DFL); kill(getpid(), SIGPROF); } }) {} ~Watch() { done.store(true, std::memory_order_relaxed); t.join(); } };
static std::atomic<long> inlineAt{-1}; static ModelSet *inlineSet = nullptr; static std::atomic<bool *> inlineFlag{nullptr};
static void inlineCancel() { *inlineFlag.load() = true; inlineAt.store(inlineSet->GetNumberOfEstimatedModels()); }
static void run(Rng &r, int kind) {
  Watch watch; uint64_t seed = r.next(); mon().note(names[kind]); shim::threads = 1; shim::perturb = 0; auto s0 = build(kind, seed, false); std::string at0 = s0->at; mon().note(at0); auto before = s0->X ? s0->X->b.vec() : std::vector<double>(); unsigned long pt0 = shim::outside.load(); start(*s0, r.i(0, 3)); long pts = shim::outside.load() - pt0; Snap a = snap(*s0); VCHECK(a.searched == a.expected, "seq.count", "%s searched %ld of %ld", at0.c_str(), a.searched, a.expected); VCHECK(!a.fails.count("shared work area"), "seq.work", "%s", at0.c_str());
  int reps = kind == 3 ? 1 : 2; for (int q = 0; q < reps; q++) {
    auto p = build(kind, seed, true); bool cancel = r.b(0.2), inl = !cancel && pts > 0 && r.b(0.3), poll = cancel || r.b(0.6); shim::threads = r.i(2, 8); shim::perturb = r.pick({0, 5, 50, 400}); shim::reseed(r.next()); shim::resetOrder(); std::string at = at0 + fmt(" threads=%d perturbation=%d polled=%d cancelled=%d", shim::threads, shim::perturb, poll, inl ? 2 : cancel); mon().note(at); cancelFlag.store(&p->op.RequestCancel); if (inl) { inlineAt.store(-1); inlineSet = p->ms; inlineFlag.store(&p->op.RequestCancel); shim::act = inlineCancel; shim::actAt.store(r.i(0, (int)pts)); } int th = shim::threads; int fill = r.i(0, 3);
    std::atomic<bool> done{false}; long polls = 0, atCancel = -1, distinctProgress = 0; bool mono = true; long bad = -1, us = r.pick({0, 200, 2000, 20000}); if (us) us = r.i(0, us);
    if (!poll) start(*p, fill); else {
      std::thread t([&] { start(*p, fill); done.store(true, std::memory_order_relaxed); }); auto t0 = std::chrono::steady_clock::now(); long last = 0;
      while (!done.load(std::memory_order_relaxed)) { long c = p->ms->GetNumberOfEstimatedModels(), e = p->ms->GetExpectedNumberOfModels(); polls++; if (c < last) mono = false; if (c > last) distinctProgress++; if (c > e || e != a.expected) bad = c; last = c; if (cancel && atCancel < 0 && std::chrono::steady_clock::now() - t0 > std::chrono::microseconds(us)) { p->op.RequestCancel = true; std::atomic_thread_fence(std::memory_order_seq_cst); atCancel = p->ms->GetNumberOfEstimatedModels(); } std::this_thread::sleep_for(std::chrono::microseconds(50)); }
      t.join();
    }
    if (inl) { shim::actAt.store(-1); atCancel = inlineAt.load(); if (atCancel >= 0) mon().count("cancelled_inside_a_model"); }
    reportRaces(at); cancelFlag.store(nullptr); Snap b = snap(*p); VCHECK(mono, "progress.monotone", "%s the number of estimated models went down", at.c_str()); VCHECK(bad < 0, "progress.range", "%s %ld models reported as estimated, announced %ld", at.c_str(), bad, a.expected); if (p->X) VCHECK(close(before, p->X->b.vec(), 0, 0), "input", "%s the data is modified", at.c_str());
    if (atCancel < 0) compare(a, b, at, fmt("parallel.%s", names[kind]), false);
    else { compare(a, b, at, fmt("cancel.%s", names[kind]), true); VCHECK(b.searched <= a.expected && b.searched - atCancel <= th, "cancel.late", "%s %ld models were counted when the search was cancelled, %ld at the end", at.c_str(), atCancel, b.searched); int over = 0; for (auto &x : b.fails) { auto f = a.fails.find(x.first); over += std::max(0, x.second - (f == a.fails.end() ? 0 : f->second)); } VCHECK(over <= th, "cancel.fails", "%s failures %s, the complete search has %s", at.c_str(), fl(b.fails).c_str(), fl(a.fails).c_str()); mon().count("cancelled_searches"); if (b.searched < a.expected) mon().count("cancelled_early"); }
    VCHECK(!b.fails.count("shared work area"), "parallel.work", "%s searchers share a work area", at.c_str());
    mon().count("parallel_searches"); mon().count("models_searched", b.searched); mon().count("results_compared", b.v.size()); mon().count("progress_polls", polls); mon().count("progress_changes", distinctProgress); mon().distinct(fmt("order %s %lx", names[kind], shim::orderHash())); mon().count(fmt("parallel_%s", names[kind])); if (q == 0) mon().sample(at + fmt(" -> %ld models, %zu results equal to the sequential search", b.searched, b.v.size()));
  }
  mon().count("perturbations", shim::yields.exchange(0)); mon().count("schedule_points", shim::points.exchange(0)); mon().count("threads_started", shim::threadsRun.exchange(0)); shim::perturb = 0; shim::threads = 1;
}
// the sanitizer and the runtime do see a race and do not see one where there is a lock
static void selftest(Rng &r) {
  static long x; static long y; static std::atomic<long> z; int n = r.i(2, 8); shim::threads = n; x = y = 0; z = 0;
#pragma omp parallel for
  for (int i = 0; i < 64; i++) {
#pragma omp critical
    { x++; }
    z++; }
  VCHECK(tsan_reports() == 0 && x == 64 && z == 64, "self.quiet", "%d reports, %ld %ld", tsan_reports(), x, (long)z); tsan_reset(); std::atomic<int> in{0};
#pragma omp parallel
  { in++; while (in.load(std::memory_order_relaxed) < n) sched_yield(); y++; }
  mon().count("self_tests"); if (tsan_reports() > 0) mon().count("self_races_seen", tsan_reports()); tsan_reset(); shim::threads = 1;
}
int main(int argc, char **argv) {
  Mon m(argc, argv); m.cpu_limit = 400; shim::threads = 1;
  m.section("selftest", 16, 16, selftest); m.section("user", 400, 4000, [](Rng &r) { run(r, 0); }); m.section("sur", 300, 3000, [](Rng &r) { run(r, 1); }); m.section("dc", 300, 3000, [](Rng &r) { run(r, 2); }); m.section("varma", 200, 2000, [](Rng &r) { run(r, 3); });
  return m.done();
}
