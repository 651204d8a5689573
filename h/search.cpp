// Monitors of the model-set engine: which combinations a searcher visits, what it counts, and what the
// combined summaries report, against brute-force enumeration and direct formulas over recorded pushes.
#include "ldtm.h"
#include "searchers.h"
#include "distributions.h"
#include <memory>
#include <atomic>
#include <thread>
#define private public
#define protected public
#undef private
#undef protected
using VI = std::vector<Ti>;
typedef long double LD;

// ---------------------------------------------------------------- the reference enumeration
static void cross(const std::vector<VI> &parts, const VI &sel, size_t k, VI &cur, std::vector<VI> &out) {
  if (k == sel.size()) { out.push_back(cur); return; }
  for (auto x : parts[sel[k]]) { cur.push_back(x); cross(parts, sel, k + 1, cur, out); cur.pop_back(); }
}
static std::vector<VI> refEnum(const std::vector<VI> &parts, int m, int fix, bool needTarget, int nTargets) {
  std::vector<VI> out; int P = parts.size();
  for (int mask = 0; mask < (1 << P); mask++) {
    if (__builtin_popcount(mask) != m) continue;
    bool ok = true; for (int i = 0; i < fix; i++) if (!(mask >> i & 1)) ok = false;
    if (!ok) continue;
    VI sel, cur; for (int i = 0; i < P; i++) if (mask >> i & 1) sel.push_back(i);
    cross(parts, sel, 0, cur, out);
  }
  if (needTarget) { std::vector<VI> o2; for (auto &v : out) { bool t = false; for (auto x : v) if (x < nTargets) t = true; if (t) o2.push_back(v); } out = o2; }
  return out;
}
static std::string vs(const VI &v) { return str(std::vector<int>(v.begin(), v.end())); }
static std::vector<VI> rndParts(Rng &r, int P, int maxItems, int base, bool ordered) {
  std::vector<VI> parts(P); std::vector<int> ids; int tot = 0; std::vector<int> sz(P);
  for (auto &s : sz) { s = r.i(1, maxItems); tot += s; }
  ids = r.perm(tot);
  if (ordered) std::sort(ids.begin(), ids.end());
  int k = 0; for (int i = 0; i < P; i++) { for (int j = 0; j < sz[i]; j++) parts[i].push_back(ids[k++] + base); std::sort(parts[i].begin(), parts[i].end()); }
  return parts;
}

// ---------------------------------------------------------------- a searcher that records what happens
struct Push { int kind, e, t, j; std::shared_ptr<EstimationKeep> k; };
struct RS : public Searcher {
  std::vector<VI> visits; std::vector<Push> pushes; std::map<std::string, int> fails; int okCount = 0;
  uint64_t plan = 0; int nEvals = 1, nTargets = 1, len1 = 0, len2 = 0, wmode = 0; std::vector<bool> pos; int failPct = 0; long cancelAt = -1; std::atomic<int> inside{0}; bool overlap = false;
  std::vector<bool> wide; int nv = 1;
  using Searcher::Searcher;
  std::string EstimateOne(Tv *work, Ti *workI) override {
    if (inside.fetch_add(1) != 0) overlap = true;
    struct G { std::atomic<int> &a; ~G() { a.fetch_sub(1); } } g{inside};
    for (Ti i = 0; i < WorkSize; i++) work[i] = (double)plan + i;      // the whole announced work area is usable
    for (Ti i = 0; i < WorkSizeI; i++) workI[i] = (Ti)i;
    VI c = CurrentIndices.Vec; visits.push_back(c);
    VI sorted = c; std::sort(sorted.begin(), sorted.end());
    Rng r(hash64(sorted.data(), sorted.size() * sizeof(Ti), plan));
    if (cancelAt >= 0 && (long)visits.size() == cancelAt) pOptions->RequestCancel = true;
    for (Ti i = 0; i < WorkSize; i++) if (work[i] != (double)plan + i) { overlap = true; break; }
    if (r.i(0, 99) < failPct) {
      int m = r.i(0, 4);
      switch (m) {
      case 0: fails["state A"]++; return "state A";
      case 1: fails["thrown B"]++; throw std::logic_error("thrown B");
      case 2: fails["thrown C"]++; throw std::string("thrown C");
      case 3: fails["thrown D"]++; throw "thrown D";
      default: fails["unknown error occurred"]++; throw 7;
      }
    }
    okCount++;
    VI endo, exo; for (auto x : sorted) (x < nv / 2 ? endo : exo).push_back(x);
    for (int e = 0; e < nEvals; e++) for (int t = 0; t < nTargets; t++) {
      if (r.b(0.1)) continue;                    // nothing for this evaluation and target
      double metric, weight;
      if (wmode == 0) { metric = r.n() * 3; weight = pos[e] ? std::exp(metric / 4) : std::exp(-0.5 * metric); }
      else if (wmode == 1) { metric = (pos[e] ? r.u() : 500 + 250 * (plan % 5) + 40 * r.n()); weight = pos[e] ? metric : std::exp(-0.5 * metric); }   // large AIC: the weight underflows
      else { metric = r.i(0, 3); weight = pos[e] ? metric + 1 : std::exp(-0.5 * metric); }                                             // ties
      auto k0 = std::make_shared<EstimationKeep>(metric, weight, exo, VI{(Ti)r.i(0, 9)}, endo);
      if (pItems->KeepModelEvaluations) { Push0(k0, e, t); pushes.push_back({0, e, t, 0, k0}); }
      for (int j = 0; j < len1; j++) if (r.b(0.7)) {
        auto k = std::make_shared<EstimationKeep>(metric, weight, exo, VI(), endo, r.n() * 2 - 3, r.b(0.1) ? 0.01 : r.u(0.1, 4));
        Push1(k, e, t, j); pushes.push_back({1, e, t, j, k});
      }
      for (int j = 0; j < len2; j++) if (r.b(0.7)) {
        auto k = std::make_shared<EstimationKeep>(metric, weight, exo, VI(), endo, r.n() * 2, r.u(0.1, 4));
        Push2(k, e, t, j); pushes.push_back({2, e, t, j, k});
      }
    }
    return "";
  }
};

static void enumerate(Rng &r) {
  int P = r.i(1, 6), m = r.i(1, std::min(P, 4)), fix = r.b(0.4) ? 0 : r.i(0, m); bool cfe = r.b(0.4), ordered = r.b(0.5);
  auto parts = rndParts(r, P, r.pick({1, 2, 3, 4}), 0, ordered); int tot = 0; for (auto &p : parts) tot += p.size();
  SearchData data; data.NumEndo = tot; data.NumExo = 0; data.HasIntercept = data.HasWeight = false;
  SearchCombinations co = SearchCombinations(); co.Partitions = parts; co.NumFixPartitions = fix; co.NumFixItems = 0;
  SearchItems it; it.LengthEvals = 1; it.LengthTargets = cfe ? r.i(1, tot) : 1; it.KeepModelEvaluations = true; it.KeepAll = true;
  SearchMetricOptions me; me.EvalIsPosOrientation = {false};
  SearchModelChecks ch; SearchOptions op;
  mon().note(fmt("m=%d fix=%d checkForEmpty=%d targets=%d parts=%s", m, fix, cfe, it.LengthTargets, [&] { std::string s; for (auto &p : parts) s += vs(p); return s; }().c_str()));
  RS s(data, co, op, it, me, ch, m, cfe); s.pos = {false}; s.nv = tot; s.plan = 77; s.failPct = r.pick({0, 0, 30}); s.WorkSize = 3; s.WorkSizeI = 2;
  auto ref = refEnum(parts, m, fix, cfe, it.LengthTargets);
  Buf w(3); std::vector<Ti> wi(2);
  long cnt = s.GetCount();
  VCHECK(cnt == (long)ref.size(), "enum.count", "announced %ld models, the definition gives %zu: %s", cnt, ref.size(), mon().cur ? mon().cur + 128 : "");
  s.Start(w, wi.data());
  std::map<VI, int> got; for (auto v : s.visits) { std::sort(v.begin(), v.end()); got[v]++; }
  std::set<VI> want; for (auto v : ref) { std::sort(v.begin(), v.end()); want.insert(v); }
  for (auto &v : want) VCHECK(got.count(v), "enum.missed", "combination %s is never visited (m=%d fix=%d cfe=%d T=%d)", vs(v).c_str(), m, fix, cfe, it.LengthTargets);
  for (auto &g : got) { VCHECK(g.second == 1, "enum.twice", "combination %s visited %d times", vs(g.first).c_str(), g.second); VCHECK(want.count(g.first), "enum.extra", "combination %s is outside the definition (m=%d fix=%d cfe=%d T=%d)", vs(g.first).c_str(), m, fix, cfe, it.LengthTargets); }
  VCHECK(s.Counter == (Ti)ref.size(), "enum.counter", "searched count %d, visited should be %zu", (int)s.Counter, ref.size());
  std::map<std::string, int> st(s.States.begin(), s.States.end());
  VCHECK(st == s.fails, "enum.states", "reported failures differ from those that happened");
  VCHECK(s.Summaries0[0][0].All.size() == s.pushes.size(), "enum.kept", "kept %zu of %zu", s.Summaries0[0][0].All.size(), s.pushes.size());
  VCHECK(throws([&] { s.CheckStart(); }), "enum.reuse", "a finished searcher accepts another start");
  mon().distinct(fmt("enum %d %d %d %d %zu", P, m, fix, (int)cfe, ref.size())); mon().count("combinations_visited", s.visits.size());
  mon().sample(fmt("parts=%d size=%d fixed=%d checkEmpty=%d -> %zu combinations, each visited once", P, m, fix, (int)cfe, ref.size()));
  // too few partitions is reported
  SearchCombinations co2 = co; co2.NumFixPartitions = 0; RS s2(data, co2, op, it, me, ch, P + 1, false);
  VCHECK(throws([&] { s2.CheckStart(); }), "enum.toofew", "more positions than partitions accepted");
  VCHECK(throws([&] { co2.NumFixPartitions = m + 1; RS s3(data, co2, op, it, me, ch, m, false); }), "enum.fix", "more fixed partitions than positions accepted");
}

// ---------------------------------------------------------------- summaries
static void vsum(const std::string &key, double got, LD want, double tol, const std::string &what) { VEQ(got, (double)want, key, tol, 1e-9, what); }
static bool better(const std::shared_ptr<EstimationKeep> &a, const std::shared_ptr<EstimationKeep> &b, bool pos) { return pos ? a->Metric > b->Metric : a->Metric < b->Metric; }

static void checkCombined(ModelSet &ms, const std::vector<Push> &all, const SearchItems &it, const std::vector<bool> &pos, int nv, long expected, long searched, const std::map<std::string, int> &fails, const std::string &tag) {
  SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2; ms.CombineInfo(info, l0, l1, l2);
  VCHECK(info.ExpectedCount == expected, "sum.expected", "%s expected count %d, should be %ld", tag.c_str(), info.ExpectedCount, expected);
  VCHECK(info.SearchedCount == searched, "sum.searched", "%s searched count %d, should be %ld", tag.c_str(), info.SearchedCount, searched);
  std::map<std::string, int> f(info.FailsCount.begin(), info.FailsCount.end()); VCHECK(f == fails, "sum.fails", "%s failure messages/counts differ", tag.c_str());
  std::vector<SearcherSummary *> *ls[3] = {&l0, &l1, &l2}; int len[3] = {it.KeepModelEvaluations ? 1 : 0, it.Length1, it.Length2};
  for (int kind = 0; kind < 3; kind++) for (int e = 0; e < it.LengthEvals; e++) for (int t = 0; t < it.LengthTargets; t++) for (int j = 0; j < len[kind]; j++) {
    std::vector<std::shared_ptr<EstimationKeep>> mine; for (auto &p : all) if (p.kind == kind && p.e == e && p.t == t && p.j == j) mine.push_back(p.k);
    auto &L = *ls[kind]; std::string at = fmt("%s type %d eval %d target %d item %d (n=%zu)", tag.c_str(), kind, e, t, j, mine.size());
    auto name = [&](const char *s) { return std::string("sum.") + s; };
    if (it.KeepAll && kind == 0) {
      std::vector<std::shared_ptr<EstimationKeep>> r; ms.CombineAll(e, t, j, L, r);
      std::multiset<EstimationKeep *> a, b; for (auto &x : r) a.insert(x.get()); for (auto &x : mine) b.insert(x.get());
      VCHECK(a == b, name("all"), "%s: 'all' holds %zu of %zu", at.c_str(), a.size(), b.size());
    }
    if (it.KeepBestCount > 0) {
      std::vector<std::shared_ptr<EstimationKeep>> r; ms.CombineBests(e, t, j, L, r);
      auto s = mine; std::stable_sort(s.begin(), s.end(), [&](auto &a, auto &b) { return better(a, b, pos[e]); });
      size_t want = std::min<size_t>(s.size(), it.KeepBestCount);
      VCHECK(r.size() == want, name("bests.size"), "%s: %zu bests, should be %zu", at.c_str(), r.size(), want);
      std::set<EstimationKeep *> dup; 
      for (size_t i = 0; i < std::min(r.size(), want); i++) {
        VCHECK(r[i]->Metric == s[i]->Metric, name("bests"), "%s: best %zu has metric %.15g, the %zu-th best has %.15g", at.c_str(), i, r[i]->Metric, i, s[i]->Metric);
        VCHECK(dup.insert(r[i].get()).second, name("bests.dup"), "%s: a model is listed twice", at.c_str());
        VCHECK(std::find(mine.begin(), mine.end(), r[i]) != mine.end(), name("bests.foreign"), "%s: best %zu belongs to another item", at.c_str(), i);
      }
      mon().count("bests_checked");
    }
    if (it.KeepInclusionWeights && kind == 0) for (int v = 0; v < nv; v++) {
      RunningMoments<1, true, false, Tv> r; ms.CombineInclusionWeights(e, t, v, L, r);
      LD sum = 0; long n = 0; for (auto &k : mine) { bool in = std::count(k->Endogenous.begin(), k->Endogenous.end(), v) || std::count(k->Exogenouses.begin(), k->Exogenouses.end(), v); if (in) { sum += k->Weight; n++; } }
      VCHECK(r.Count == n, name("inclusion.count"), "%s var %d: count %d should be %ld", at.c_str(), v, r.Count, n);
      vsum(name("inclusion"), r.GetMean(), n ? sum / n : NANV, 1e-9, at + " inclusion weight");
      mon().count("inclusions_checked");
    }
    if (kind == 0) continue;
    LD sw = 0; for (auto &k : mine) sw += k->Weight;
    double rel = 1e-8;
    for (size_t c = 0; c < it.CdfsAt.size(); c++) {
      RunningMoments<1, true, true, Tv> r; ms.CombineCdfAt(e, t, j, c, L, r);
      LD s = 0; for (auto &k : mine) s += k->Weight * 0.5L * erfcl(-((LD)it.CdfsAt[c] - k->Mean) / sqrtl((LD)k->Variance) / sqrtl(2));
      VCHECK(r.Count == (Ti)mine.size(), name("cdf.count"), "%s: count %d", at.c_str(), r.Count);
      vsum(name("cdf.weights"), r.SumWeights, sw, 1e-8, at + " sum of weights");
      if (sw > 1e-290L) vsum(name("cdf"), r.GetMean(), s / sw, rel, at + " cdf"); else if (sw == 0) VCHECK(std::isnan(r.GetMean()), name("cdf"), "%s: cdf without weight", at.c_str());
      mon().count("cdfs_checked");
    }
    if (it.KeepMixture) {
      RunningMoments<4, true, true, Tv> r; ms.CombineMixture(e, t, j, L, r);
      vsum(name("mixture.weights"), r.SumWeights, sw, 1e-8, at + " mixture weight");
      bool tiny = sw < 1e-280L; // denormal weights lose digits
      if (sw > 0 && !tiny) {
        LD mu = 0, v = 0, s3 = 0, s4 = 0; for (auto &k : mine) mu += (LD)k->Weight * k->Mean; mu /= sw;
        for (auto &k : mine) { LD d = k->Mean - mu, q = k->Variance, w = (LD)k->Weight / sw; v += w * (q + d * d); s3 += w * (3 * q * d + d * d * d); s4 += w * (3 * q * q + 6 * q * d * d + d * d * d * d); }
        vsum(name("mixture.mean"), r.GetMean(), mu, 1e-7, at + " mixture mean"); vsum(name("mixture.var"), r.GetVariance(), v, 1e-7, at + " mixture variance");
        LD scale = 1; 
        if (sw > 1e-280L) { VEQ(r.GetSkewness(), (double)(s3 / powl(v, 1.5L)), name("mixture.skew"), 1e-6, 1e-6, at + " mixture skewness"); VEQ(r.GetKurtosis(), (double)(s4 / (v * v) - 3), name("mixture.kurt"), 1e-6, 1e-6, at + " mixture kurtosis"); }
        (void)scale; mon().count("mixtures_checked");
      }
    }
    if (it.ExtremeBoundsMultiplier > 0 && !mine.empty()) {
      double lo, hi; ms.CombineExtremeBounds(e, t, j, L, lo, hi); LD a = INFINITY, b = -INFINITY;
      for (auto &k : mine) { LD d = it.ExtremeBoundsMultiplier * sqrtl((LD)k->Variance); a = std::min(a, k->Mean - d); b = std::max(b, k->Mean + d); }
      vsum(name("extreme.low"), lo, a, 1e-9, at + " lower extreme bound"); vsum(name("extreme.up"), hi, b, 1e-9, at + " upper extreme bound");
      mon().count("bounds_checked");
    }
  }
}

static void summaries(Rng &r) {
  int nS = r.i(1, 6), P = r.i(2, 5); auto parts = rndParts(r, P, 2, 0, true); int tot = 0; for (auto &p : parts) tot += p.size();
  SearchData data; data.NumEndo = tot / 2; data.NumExo = tot - tot / 2; data.HasIntercept = data.HasWeight = false;
  SearchCombinations co = SearchCombinations(); co.Partitions = parts; co.NumFixPartitions = 0; co.NumFixItems = 0;
  SearchItems it; it.LengthEvals = r.i(1, 3); it.LengthTargets = r.i(1, 2); it.KeepBestCount = r.pick({0, 1, 2, 3, 7, 50}); it.KeepAll = r.b(); it.Length1 = r.i(0, 3); it.Length2 = r.i(0, 2);
  it.KeepModelEvaluations = (it.Length1 + it.Length2 == 0) || r.b(0.8); it.KeepInclusionWeights = it.KeepModelEvaluations && r.b(0.6); it.KeepMixture = r.b();
  if (r.b()) it.CdfsAt = {0, r.n(), -20}; if (r.b(0.6)) it.ExtremeBoundsMultiplier = r.pick({1.0, 1.96, 3.0});
  SearchMetricOptions me; for (int e = 0; e < it.LengthEvals; e++) me.EvalIsPosOrientation.push_back(r.b());
  SearchModelChecks ch; SearchOptions op; op.Parallel = r.b(0.4);
  int wmode = r.pick({0, 0, 0, 1, 2}), failPct = r.pick({0, 20, 100}); if (r.b(0.5)) failPct = 0;
  std::vector<std::unique_ptr<RS>> own; std::vector<Searcher *> se;
  for (int i = 0; i < nS; i++) {
    auto s = std::make_unique<RS>(data, co, op, it, me, ch, r.i(1, std::min(P, 3)), false);
    s->plan = r.next(); s->nEvals = it.LengthEvals; s->nTargets = it.LengthTargets; s->len1 = it.Length1; s->len2 = it.Length2; s->pos = me.EvalIsPosOrientation; s->wmode = wmode; s->nv = tot; s->failPct = failPct;
    s->WorkSize = r.i(0, 20); s->WorkSizeI = r.i(0, 9); se.push_back(s.get()); own.push_back(std::move(s));
  }
  mon().note(fmt("searchers=%d parallel=%d wmode=%d best=%d", nS, op.Parallel, wmode, it.KeepBestCount));
  ModelSet ms(se, data, co, op, it, me, ch); ms.ShuffleSearchers = r.b(0.7);
  Buf w(ms.WorkSize); std::vector<Ti> wi(ms.WorkSizeI + 1);
  bool twiceable = false; (void)twiceable;
  ms.Start(w, wi.data());
  long expected = 0, searched = 0; std::map<std::string, int> fails; std::vector<Push> all;
  for (auto &s : own) { expected += s->GetCount(); searched += s->visits.size(); for (auto &f : s->fails) fails[f.first] += f.second; all.insert(all.end(), s->pushes.begin(), s->pushes.end()); VCHECK(!s->overlap, "sum.overlap", "a searcher ran twice at a time or shared its work area"); }
  VCHECK(searched == expected, "sum.visits", "visited %ld of %ld", searched, expected);
  VCHECK(ms.GetNumberOfEstimatedModels() == searched, "sum.estimated", "estimated models %d, should be %ld", ms.GetNumberOfEstimatedModels(), searched);
  checkCombined(ms, all, it, me.EvalIsPosOrientation, tot, expected, searched, fails, fmt("parallel=%d wmode=%d", (int)op.Parallel, wmode));
  mon().distinct(fmt("sum %d %d %d %d %d %d %d %d %d %d", nS, (int)op.Parallel, wmode, it.KeepBestCount, (int)it.KeepAll, it.Length1, it.Length2, it.LengthEvals, it.LengthTargets, failPct)); mon().count("pushes", all.size());
  mon().sample(fmt("%d searchers parallel=%d: %ld models, %zu pushes, combined results equal brute force", nS, (int)op.Parallel, searched, all.size()));
}

// ---------------------------------------------------------------- regression searcher: index bookkeeping and weights
static bool posIn(GoodnessOfFitType t) { return t == GoodnessOfFitType::kAuc; }
static bool posOut(ScoringType t) { return t == ScoringType::kAuc || t == ScoringType::kSign || t == ScoringType::kDirection; }
static LD wIn(GoodnessOfFitType t, LD m, LD mn) { return t == GoodnessOfFitType::kAuc ? m : t == GoodnessOfFitType::kFrequencyCost ? 1 - m : expl(-0.5L * (m - mn)); }
static LD wOut(ScoringType t, LD m, LD mn) { return posOut(t) ? m : t == ScoringType::kFrequencyCost ? 1 - m : (t == ScoringType::kMape || t == ScoringType::kRmspe) ? expl(-0.5L * (m - mn) / 100) : expl(-0.5L * (m - mn)); }
struct RR : public SearcherReg {
  std::vector<Push> pushes; std::map<std::string, int> fails; std::vector<VI> visits; uint64_t plan = 0; std::set<std::string> bad;
  using SearcherReg::SearcherReg;
  std::string EstimateOneReg(Tv *, Ti *, VMatrix<Tv> &metrics, VMatrix<Tv> &tm, VMatrix<Tv> &tv, VMatrix<Ti> &extra) override {
    VI cur = CurrentIndices.Vec; visits.push_back(cur); int w = pData->HasWeight ? 1 : 0;
    VI endo = IsInnerExogenous ? cur : InnerIndices, exo = IsInnerExogenous ? InnerIndices : cur;
    // the columns of the data set: endogenous, weight, exogenous (shifted by the weight column)
    VI cols = endo; if (w) cols.push_back(pData->NumEndo); for (auto x : exo) cols.push_back(x + w);
    if (cols != ColIndices) bad.insert("columns " + vs(ColIndices) + " should be " + vs(cols));
    VI tg; for (auto x : endo) if (x < pItems->LengthTargets) tg.push_back(x);
    if (tg != TargetsPositions) bad.insert("targets " + vs(TargetsPositions) + " should be " + vs(tg));
    int nm = pMetrics->MetricsIn.size() + pMetrics->MetricsOut.size();
    if (metrics.Mat.RowsCount != nm || metrics.Mat.ColsCount != (Ti)tg.size()) { bad.insert("metric matrix has the wrong size"); return "x"; }
    if (pItems->Length1 > 0 && (tm.Mat.RowsCount != pItems->Length1 || tm.Mat.ColsCount != (Ti)tg.size() || tv.Mat.RowsCount != pItems->Length1)) { bad.insert("type1 matrix has the wrong size"); return "x"; }
    Rng r(hash64(cur.data(), cur.size() * sizeof(Ti), plan));
    int what = r.i(0, 9);
    if (what == 0) { fails["failed"]++; return "failed"; }
    bool allnan = what == 1; VI ex; for (Ti i = 0; i < extra.Mat.RowsCount; i++) { Ti v = r.i(0, 99); extra.Mat.Data[i] = v; ex.push_back(v); }
    for (int i = 0; i < nm; i++) for (int t = 0; t < (int)tg.size(); t++) metrics.Mat.Data[(size_t)t * nm + i] = allnan || r.b(0.15) ? NANV : r.u(0.05, 0.95);
    for (int i = 0; i < pItems->Length1; i++) for (int t = 0; t < (int)tg.size(); t++) if (r.b(0.6)) { tm.Mat.Data[(size_t)t * pItems->Length1 + i] = r.n(); tv.Mat.Data[(size_t)t * pItems->Length1 + i] = r.u(0.1, 2); }
    bool any = false;
    for (int i = 0; i < nm; i++) for (int t = 0; t < (int)tg.size(); t++) {
      double m = metrics.Mat.Data[(size_t)t * nm + i]; if (std::isnan(m)) continue; any = true;
      LD mn = 0, wgt; int nin = pMetrics->MetricsIn.size();
      if (i < nin) { auto g = pMetrics->MetricsIn[i]; auto f = pMetrics->MinMetricIn.find(g); if (f != pMetrics->MinMetricIn.end()) mn = f->second.at(tg[t]); wgt = wIn(g, m, mn); }
      else { auto g = pMetrics->MetricsOut[i - nin]; auto f = pMetrics->MinMetricOut.find(g); if (f != pMetrics->MinMetricOut.end()) mn = f->second.at(tg[t]); wgt = wOut(g, m, mn); }
      if (pItems->KeepModelEvaluations) pushes.push_back({0, i, tg[t], 0, std::make_shared<EstimationKeep>(m, (double)wgt, exo, ex, endo)});
      for (int j = 0; j < pItems->Length1; j++) { double mm = tm.Mat.Data[(size_t)t * pItems->Length1 + j]; if (std::isnan(mm)) continue; pushes.push_back({1, i, tg[t], j, std::make_shared<EstimationKeep>(m, (double)wgt, exo, ex, endo, mm, tv.Mat.Data[(size_t)t * pItems->Length1 + j])}); }
    }
    if (!any) fails["searcher-reg"]++;
    return "";
  }
};
static void regsearch(Rng &r) {
  bool inner = r.b(); int nEndo = r.i(1, 4), nExo = r.i(1, 5); int outer = inner ? nEndo : nExo, base = inner ? 0 : nEndo;
  SearchData data; data.NumEndo = nEndo; data.NumExo = nExo; data.HasIntercept = false; data.HasWeight = r.b(0.3);
  SearchCombinations co = SearchCombinations(); co.NumFixItems = 0; co.NumFixPartitions = 0; { int left = outer; auto ids = r.perm(outer); if (r.b()) std::sort(ids.begin(), ids.end()); int k = 0; while (left > 0) { int s = std::min(left, r.i(1, 2)); VI p; for (int q = 0; q < s; q++) p.push_back(ids[k++] + base); std::sort(p.begin(), p.end()); co.Partitions.push_back(p); left -= s; } }
  int m = r.i(1, std::min<int>(co.Partitions.size(), 3));
  SearchItems it; it.LengthTargets = r.i(1, nEndo); it.KeepAll = true; it.KeepBestCount = r.i(0, 4); it.Length1 = r.b() ? nExo : 0; it.KeepModelEvaluations = it.Length1 == 0 || r.b(0.8); it.KeepInclusionWeights = it.KeepModelEvaluations && r.b(); it.KeepMixture = r.b(); if (r.b()) it.CdfsAt = {0.3}; if (r.b()) it.ExtremeBoundsMultiplier = 2;
  SearchMetricOptions me; auto in = std::vector<GoodnessOfFitType>{GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kAuc, GoodnessOfFitType::kBrier, GoodnessOfFitType::kFrequencyCost};
  auto out = std::vector<ScoringType>{ScoringType::kSign, ScoringType::kDirection, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kAuc, ScoringType::kBrier, ScoringType::kFrequencyCost};
  r.shuffle(in); r.shuffle(out); int ni = r.i(0, 3), no = r.i(0, 3); if (ni + no == 0) ni = 1;
  me.MetricsIn.assign(in.begin(), in.begin() + ni); me.MetricsOut.assign(out.begin(), out.begin() + no); me.SimFixSize = no ? 3 : 0; me.TrainRatio = 0.5; me.Seed = 1;
  if (r.b()) for (auto g : me.MetricsIn) { std::vector<Tv> v; for (int t = 0; t < it.LengthTargets; t++) v.push_back(r.n()); me.MinMetricIn[g] = v; }
  if (r.b()) for (auto g : me.MetricsOut) { std::vector<Tv> v; for (int t = 0; t < it.LengthTargets; t++) v.push_back(r.n()); me.MinMetricOut[g] = v; }
  me.Update(true, false);
  std::vector<bool> pos; for (auto g : me.MetricsIn) pos.push_back(posIn(g)); for (auto g : me.MetricsOut) pos.push_back(posOut(g));
  VCHECK(pos == me.EvalIsPosOrientation, "reg.orientation", "orientation of the metrics");
  for (size_t i = 0; i < in.size(); i++) { auto g = in[i]; VCHECK(me.MetricInIndices.at(g) == (i < (size_t)ni ? (int)i : -1), "reg.index.in", "position of the in-sample metric %d is %d", (int)g, me.MetricInIndices.at(g)); }
  for (size_t i = 0; i < out.size(); i++) { auto g = out[i]; VCHECK(me.MetricOutIndices.at(g) == (i < (size_t)no ? (int)i : -1), "reg.index.out", "position of the out-of-sample metric %d is %d", (int)g, me.MetricOutIndices.at(g)); }
  SearchModelChecks ch; ch.Update(me); it.Update(me, it.LengthTargets, nEndo, nExo);
  VCHECK(it.LengthEvals == ni + no, "reg.evals", "number of evaluations");
  SearchOptions op; op.Parallel = r.b(0.3); op.ReportInterval = 0;
  std::vector<std::unique_ptr<RR>> own; std::vector<Searcher *> se; int nS = r.i(1, 3); long want = 0;
  for (int i = 0; i < nS; i++) {
    VI ig; int no_ = inner ? nExo : nEndo, b2 = inner ? nEndo : 0; for (int q = 0; q < no_; q++) if (r.b()) ig.push_back(q + b2);
    if (!inner) { if (ig.empty() || ig[0] >= it.LengthTargets) ig.insert(ig.begin(), r.i(0, it.LengthTargets - 1)); std::sort(ig.begin(), ig.end()); ig.erase(std::unique(ig.begin(), ig.end()), ig.end()); }
    auto s = std::make_unique<RR>(data, co, op, it, me, ch, m, inner, ig, r.i(0, 4)); s->plan = r.next(); se.push_back(s.get()); own.push_back(std::move(s));
    want += refEnum(co.Partitions, m, 0, inner, it.LengthTargets).size();
  }
  ModelSet ms(se, data, co, op, it, me, ch); ms.ShuffleSearchers = false; Buf w(ms.WorkSize); std::vector<Ti> wi(1); ms.Start(w, wi.data());
  long searched = 0; std::vector<Push> all;
  for (auto &s : own) { searched += s->visits.size(); all.insert(all.end(), s->pushes.begin(), s->pushes.end()); for (auto &b : s->bad) mon().viol("reg.bookkeeping", b);
    std::map<VI, int> c; for (auto v : s->visits) { auto u = v; std::sort(u.begin(), u.end()); c[u]++; } for (auto &x : c) VCHECK(x.second == 1, "reg.twice", "%s visited %d times", vs(x.first).c_str(), x.second); }
  VCHECK(searched == want, "reg.count", "estimated %ld models, the definition gives %ld (inner exogenous %d, targets %d)", searched, want, (int)inner, it.LengthTargets);
  VCHECK(ms.GetExpectedNumberOfModels() == want, "reg.expected", "expected %d models, the definition gives %ld", ms.GetExpectedNumberOfModels(), want);
  // every recorded estimation must be found, with the same content, in 'all' and nothing else
  SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2; ms.CombineInfo(info, l0, l1, l2);
  if (it.KeepModelEvaluations) for (int e = 0; e < ni + no; e++) for (int t = 0; t < it.LengthTargets; t++) {
    std::vector<std::shared_ptr<EstimationKeep>> got; ms.CombineAll(e, t, 0, l0, got);
    auto sig = [](const std::shared_ptr<EstimationKeep> &k) { return fmt("%.10g %.8g %s %s %s", k->Metric, k->Weight, vs(k->Endogenous).c_str(), vs(k->Exogenouses).c_str(), vs(k->Extra).c_str()); };
    std::multiset<std::string> a, b; for (auto &k : got) a.insert(sig(k)); for (auto &p : all) if (p.kind == 0 && p.e == e && p.t == t) b.insert(sig(p.k));
    VCHECK(a == b, "reg.kept", "metric %d target %d: %zu kept, %zu estimated; first kept %s, first estimated %s", e, t, a.size(), b.size(), a.empty() ? "-" : a.begin()->c_str(), b.empty() ? "-" : b.begin()->c_str());
    mon().count("kept_models_compared", a.size());
  }
  it.KeepAll = false; std::map<std::string, int> fl; long nf = 0; for (auto &s : own) for (auto &f : s->fails) nf += f.second;
  long gf = 0; for (auto &f : info.FailsCount) gf += f.second; VCHECK(gf == nf, "reg.fails", "%ld failures reported, %ld happened", gf, nf);
  // summaries from the kept numbers (bests by metric: identities differ because the reference objects are copies)
  for (int kind = 0; kind < 2; kind++) for (int e = 0; e < ni + no; e++) for (int t = 0; t < it.LengthTargets; t++) for (int j = 0; j < (kind ? it.Length1 : it.KeepModelEvaluations ? 1 : 0); j++) {
    std::vector<std::shared_ptr<EstimationKeep>> mine; for (auto &p : all) if (p.kind == kind && p.e == e && p.t == t && p.j == j) mine.push_back(p.k);
    std::string at = fmt("type %d metric %d target %d item %d", kind, e, t, j); auto &L = kind ? l1 : l0;
    if (it.KeepBestCount) { std::vector<std::shared_ptr<EstimationKeep>> g; ms.CombineBests(e, t, j, L, g); std::stable_sort(mine.begin(), mine.end(), [&](auto &a, auto &b) { return better(a, b, pos[e]); });
      size_t n = std::min<size_t>(mine.size(), it.KeepBestCount); VCHECK(g.size() == n, "reg.bests.size", "%s: %zu bests, should be %zu", at.c_str(), g.size(), n);
      for (size_t i = 0; i < std::min(n, g.size()); i++) VCHECK(g[i]->Metric == mine[i]->Metric, "reg.bests", "%s: best %zu metric %.12g, should be %.12g", at.c_str(), i, g[i]->Metric, mine[i]->Metric); }
    if (kind && it.KeepMixture && !mine.empty()) { RunningMoments<4, true, true, Tv> q; ms.CombineMixture(e, t, j, L, q); LD sw = 0, mu = 0; for (auto &k : mine) { sw += k->Weight; mu += (LD)k->Weight * k->Mean; } VEQ(q.SumWeights, (double)sw, "reg.mix.w", 1e-9, 1e-12, at); VEQ(q.GetMean(), (double)(mu / sw), "reg.mix.mean", 1e-8, 1e-10, at); }
    if (kind && it.ExtremeBoundsMultiplier > 0 && !mine.empty()) { double lo, hi; ms.CombineExtremeBounds(e, t, j, L, lo, hi); LD a = INFINITY, b = -INFINITY; for (auto &k : mine) { LD d = 2 * sqrtl((LD)k->Variance); a = std::min(a, k->Mean - d); b = std::max(b, k->Mean + d); } VEQ(lo, (double)a, "reg.extreme.low", 1e-9, 1e-9, at); VEQ(hi, (double)b, "reg.extreme.up", 1e-9, 1e-9, at); }
    if (!kind && it.KeepInclusionWeights) for (int v = 0; v < nEndo + nExo; v++) { RunningMoments<1, true, false, Tv> q; ms.CombineInclusionWeights(e, t, v, L, q); LD s = 0; long n = 0; for (auto &k : mine) if (std::count(k->Endogenous.begin(), k->Endogenous.end(), v) + std::count(k->Exogenouses.begin(), k->Exogenouses.end(), v)) { s += k->Weight; n++; } VCHECK(q.Count == n, "reg.inclusion.count", "%s var %d count %d/%ld", at.c_str(), v, q.Count, n); if (n) VEQ(q.GetMean(), (double)(s / n), "reg.inclusion", 1e-9, 1e-12, at); }
  }
  mon().distinct(fmt("reg %d %d %d %d %d %d %d", (int)inner, nEndo, nExo, m, it.LengthTargets, ni, no)); mon().count("models_estimated", searched);
}

// ---------------------------------------------------------------- cancellation
static void cancelling(Rng &r) {
  int P = r.i(2, 5); auto parts = rndParts(r, P, 2, 0, true); int tot = 0; for (auto &p : parts) tot += p.size();
  SearchData data; data.NumEndo = tot; data.NumExo = 0; data.HasIntercept = data.HasWeight = false;
  SearchCombinations co = SearchCombinations(); co.Partitions = parts; co.NumFixPartitions = 0; co.NumFixItems = 0;
  SearchItems it; it.LengthEvals = 1; it.LengthTargets = 1; it.KeepAll = true; it.KeepBestCount = 3; SearchMetricOptions me; me.EvalIsPosOrientation = {false}; SearchModelChecks ch; SearchOptions op;
  std::vector<std::unique_ptr<RS>> own; std::vector<Searcher *> se; int nS = r.i(1, 4);
  for (int i = 0; i < nS; i++) { auto s = std::make_unique<RS>(data, co, op, it, me, ch, r.i(1, 2), false); s->plan = r.next(); s->pos = {false}; s->nv = tot; se.push_back(s.get()); own.push_back(std::move(s)); }
  int who = r.i(0, nS - 1); own[who]->cancelAt = r.i(0, own[who]->GetCount()); bool before = own[who]->cancelAt == 0; if (before) op.RequestCancel = true;
  ModelSet ms(se, data, co, op, it, me, ch); ms.ShuffleSearchers = false; Buf w(ms.WorkSize); std::vector<Ti> wi(1); ms.Start(w, wi.data());
  for (int i = 0; i < nS; i++) { long n = own[i]->visits.size(), full = own[i]->GetCount(); long want = before ? 0 : i < who ? full : i > who ? 0 : own[i]->cancelAt;
    VCHECK(n == want, "cancel.visits", "searcher %d of %d visited %ld models, cancel was requested at model %ld of searcher %d", i, nS, n, own[who]->cancelAt, who);
    VCHECK(own[i]->Counter == n, "cancel.counter", "counter %d after %ld models", (int)own[i]->Counter, n); VCHECK(own[i]->Summaries0[0][0].All.size() == own[i]->pushes.size(), "cancel.kept", "kept models after a cancel"); }
  mon().distinct(fmt("cancel %d %d %ld", nS, who, own[who]->cancelAt));
}

int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("enumerate", 12000, 120000, enumerate);
  m.section("summaries", 6000, 60000, summaries);
  m.section("regsearch", 6000, 60000, regsearch);
  m.section("cancelling", 3000, 20000, cancelling);
  return m.done();
}
