// Monitors of distances, hierarchical clustering, cutting the dendrogram, and grouping the columns of data.
#include "ldtm.h"
#include "clustering.h"
#include "correlation.h"
typedef long double LD;
using ref::M;
using vm::str;
typedef std::vector<double> VD;
typedef std::vector<std::vector<int>> Groups;
static const DistanceMethod DM[] = {DistanceMethod::kEuclidean, DistanceMethod::kManhattan, DistanceMethod::kMaximum, DistanceMethod::kCorrelation, DistanceMethod::kAbsCorrelation};
static const HClusterLinkage LK[] = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};
// ---- references
static LD corr(const std::vector<LD> &a, const std::vector<LD> &b) {
  size_t n = a.size(); LD ma = 0, mb = 0, sa = 0, sb = 0, s = 0; for (size_t i = 0; i < n; i++) ma += a[i], mb += b[i]; ma /= n; mb /= n; for (size_t i = 0; i < n; i++) sa += (a[i] - ma) * (a[i] - ma), sb += (b[i] - mb) * (b[i] - mb), s += (a[i] - ma) * (b[i] - mb); return s / sqrtl(sa * sb);
}
static std::vector<LD> ranks(const std::vector<LD> &a) { std::vector<LD> o; for (auto x : a) { int c = 0; for (auto y : a) c += y > x; o.push_back(c); } return o; }
static LD distance(const M &x, int i, int j, DistanceMethod d, bool spear) {
  std::vector<LD> a, b; for (int q = 0; q < x.r; q++) if (!std::isnan((double)x(q, i)) && !std::isnan((double)x(q, j))) { a.push_back(x(q, i)); b.push_back(x(q, j)); } LD s = 0; size_t n = a.size();
  switch (d) { case DistanceMethod::kEuclidean: for (size_t q = 0; q < n; q++) s += (a[q] - b[q]) * (a[q] - b[q]); return sqrtl(s); case DistanceMethod::kManhattan: for (size_t q = 0; q < n; q++) s += fabsl(a[q] - b[q]); return s; case DistanceMethod::kMaximum: for (size_t q = 0; q < n; q++) s = std::max(s, fabsl(a[q] - b[q])); return s; default: break; }
  if (spear) a = ranks(a), b = ranks(b); LD c = corr(a, b); if (std::isnan((double)c)) return NANV; return d == DistanceMethod::kCorrelation ? sqrtl(std::max((1 - c) / 2, 0.0L)) : sqrtl(std::max(1 - c * c, 0.0L));
}
static bool isCor(DistanceMethod d) { return d == DistanceMethod::kCorrelation || d == DistanceMethod::kAbsCorrelation; }
// data with ties, duplicated, collinear, constant and incomplete columns
static M rndData(Rng &r, int n, int k, bool nan, bool special) {
  M x = r.b(0.3) ? rndint(r, n, k, 0, 3) : rnd(r, n, k, r.pick({0.1, 1.0, 20.0})); if (special && k > 1) for (int q = r.i(0, 2); q > 0; q--) { int j = r.i(0, k - 1), s = r.i(0, k - 1); double m = r.pick({1.0, 1.0, -1.0, 2.0, 3.7}), c = r.i(-2, 2); if (r.b(0.2)) for (int i = 0; i < n; i++) x(i, j) = c; else for (int i = 0; i < n; i++) x(i, j) = (double)(x(i, s) * m + c); }
  if (nan) for (int q = r.i(1, std::max(1, n * k / 4)); q > 0; q--) x(r.i(0, n - 1), r.i(0, k - 1)) = NANV; if (nan && r.b(0.1)) { int j = r.i(0, k - 1); for (int i = 0; i < n; i++) x(i, j) = NANV; } return x;
}
static bool constPair(const M &x, int i, int j, bool spear) { (void)spear; bool ci = true, cj = true; int f = -1; for (int q = 0; q < x.r; q++) if (!std::isnan((double)x(q, i)) && !std::isnan((double)x(q, j))) { if (f < 0) f = q; ci &= x(q, i) == x(f, i); cj &= x(q, j) == x(f, j); } return f < 0 || ci || cj; }
static void dist(Rng &r) {
  int n = r.i(2, 15), k = r.b(0.1) ? 1 : r.i(2, 9); bool nan = r.b(0.4), chk = nan || r.b(0.4), spear = r.b(); auto d = DM[r.i(0, 4)]; M x = rndData(r, n, k, nan, true); std::string at = fmt("%dx%d method %s%s nan %d checked %d", n, k, ToString(d), isCor(d) ? spear ? " spearman" : " pearson" : "", nan, chk); mon().note(at);
  auto p = DistanceBase::GetFromType(chk, d, spear ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson, n, k); double fl = fillOf(r.i(0, 3)); Buf st(p->StorageSize, fl), wk(p->WorkSize, fl); MX mx(x); for (int rep = r.b(0.2) ? 2 : 1; rep > 0; rep--) p->Calculate(mx.m, st, wk); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) VCHECK(mx(i, j) == (double)x(i, j) || std::isnan(mx(i, j)), "distance.input", "%s data modified", at.c_str()); VCHECK(p->Result.length_array() == k * (k - 1) / 2, "distance.size", "%s", at.c_str());
  for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) {
    double g = p->Result.Get0(i, j); LD w = distance(x, i, j, d, spear); std::string wh = at + fmt(" columns %d, %d", i, j); VCHECK(p->Result.Get0(j, i) == g || std::isnan(g), "distance.symmetric", "%s", wh.c_str());
    if (isCor(d)) { if (constPair(x, i, j, spear)) { VCHECK(std::isnan(g) || (g >= 0 && g <= 1), "distance.constant", "%s %g", wh.c_str(), g); continue; } VCHECK(g >= 0 && g <= 1 + 1e-9, "distance.range", "%s %.17g", wh.c_str(), g); VEQ(g * g, (double)(w * w), "distance.correlation", 1e-9, 1e-9, wh); } else { VCHECK(g >= 0, "distance.range", "%s %g", wh.c_str(), g); VEQ(g, (double)w, "distance.value", 1e-11, 1e-300, wh); }
    mon().count("distances"); }
  mon().distinct("d " + at);
}
// ---- clustering
static LD lw(HClusterLinkage l, int nl, int nr, int nk, LD dl, LD dr, LD lr) {
  switch (l) { case HClusterLinkage::kSingle: return std::min(dl, dr); case HClusterLinkage::kComplete: return std::max(dl, dr); case HClusterLinkage::kAverageU: return (nl * dl + nr * dr) / (nl + nr); case HClusterLinkage::kAverageW: return (dl + dr) / 2; default: return ((nl + nk) * dl + (nr + nk) * dr - nk * lr) / (nl + nr + nk); }
}
// distances with a given structure; ties when discrete
struct D0 { int n; M d; bool ties; std::string name; };
static D0 rndD(Rng &r) {
  D0 o; o.n = r.b(0.1) ? r.i(1, 3) : r.b(0.1) ? r.i(15, 40) : r.i(3, 14); int n = o.n, t = r.i(0, 5); o.d = M(n, n); o.ties = t >= 3; o.name = fmt("n=%d type %d", n, t); M pt = rnd(r, n, r.i(1, 3)); double c = r.pick({1.0, 0.1, 7.3, 1e-3}); if (t == 1) for (int i = 0; i < n; i++) { LD s = r.pick({0.0, 10.0, 100.0}); pt(i, 0) += s; } // separated blocks
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { LD v = 0; if (t <= 1) { for (int q = 0; q < pt.c; q++) v += (pt(i, q) - pt(j, q)) * (pt(i, q) - pt(j, q)); v = sqrtl(v); } else if (t == 2) v = r.u(0.1, 10); else if (t == 3) v = r.i(1, 4) * c; else if (t == 4) v = c; else v = r.b(0.3) ? 0 : r.i(0, 2) * c; if (t == 5 && r.b(0.02)) v = INFINITY; o.d(i, j) = o.d(j, i) = (double)v; }
  return o;
}
struct Node { int l, r, size; LD h; std::set<int> items; };
// replays the merges and checks that each one joins two mutual nearest clusters at the reported height
static bool replay(HClusterBase &c, const D0 &o, HClusterLinkage l, std::vector<Node> &nd, const std::string &at) {
  int n = o.n; VCHECK((int)c.Nodes.size() == 2 * n - 1, "cluster.size", "%s %zu nodes", at.c_str(), c.Nodes.size()); if ((int)c.Nodes.size() != 2 * n - 1) return false; std::vector<std::vector<LD>> d(2 * n, std::vector<LD>(2 * n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d[i][j] = o.d(i, j); LD mx = 1e-300L; for (auto v : o.d.d) if (std::isfinite((double)v)) mx = std::max(mx, fabsl(v)); bool inf = false; for (auto v : o.d.d) inf |= std::isinf((double)v);
  nd.clear(); for (int i = 0; i < n; i++) nd.push_back({-1, -1, 1, 0, {i}}); std::set<int> live; for (int i = 0; i < n; i++) live.insert(i);
  for (int q = n; q < 2 * n - 1; q++) {
    auto &x = *c.Nodes.at(q); int a = x.idLeft, b = x.idRight; bool ok = a != b && live.count(a) && live.count(b) && x.id == q; VCHECK(ok, "cluster.merge", "%s merge %d joins %d and %d, which are not two current clusters", at.c_str(), q - n, a, b); if (!ok) return false; VCHECK(x.nodesWithin == nd[a].size + nd[b].size, "cluster.count", "%s merge %d size %d", at.c_str(), q - n, x.nodesWithin); LD h = d[a][b];
    if (!inf || std::isfinite((double)h)) VEQ(x.leftDistanceRight, (double)h, "cluster.height", 1e-9, (double)(1e-11L * mx), at + fmt(" merge %d of %d and %d", q - n, a, b)); if (!inf) for (int k : live) if (k != a && k != b) VCHECK(d[a][k] >= h - 1e-11L * mx && d[b][k] >= h - 1e-11L * mx, "cluster.nearest", "%s merge %d of %d and %d at %g, %d is nearer (%g, %g)", at.c_str(), q - n, a, b, (double)h, k, (double)d[a][k], (double)d[b][k]);
    for (int k : live) if (k != a && k != b) d[q][k] = d[k][q] = lw(l, nd[a].size, nd[b].size, nd[k].size, d[a][k], d[b][k], h); live.erase(a); live.erase(b); live.insert(q); Node w{a, b, nd[a].size + nd[b].size, h, nd[a].items}; w.items.insert(nd[b].items.begin(), nd[b].items.end()); nd.push_back(w); mon().count("merges"); }
  return true;
}
static std::set<std::set<int>> asSet(const std::vector<std::unique_ptr<std::vector<Ti>>> &m) { std::set<std::set<int>> o; for (auto &g : m) o.insert(std::set<int>(g->begin(), g->end())); return o; }
static std::string show(const std::set<std::set<int>> &s) { std::string o; for (auto &g : s) { o += "{"; for (int i : g) o += fmt("%d ", i); o += "}"; } return o; }
static void cluster(Rng &r) {
  D0 o = rndD(r); int n = o.n; auto l = LK[r.i(0, 4)]; std::string at = o.name + " linkage " + ToString(l); mon().note(at); Buf b((size_t)n * (n - 1) / 2); MatrixSym<false> ms(b.p, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) ms.Set0(i, j, (double)o.d(i, j)); auto c = HClusterBase::GetFromType(l, n);
  if (n > 1 && r.b(0.03)) { b.p[r.i(0, n * (n - 1) / 2 - 1)] = NANV; VCHECK(throws([&] { c->Calculate(ms); }), "cluster.nan", "%s NaN distance accepted", at.c_str()); return; } c->Calculate(ms); std::vector<Node> nd; if (!replay(*c, o, l, nd, at)) return; mon().count("dendrograms"); bool inf = false; for (auto v : o.d.d) inf |= std::isinf((double)v); if (inf) { mon().count("infinite"); return; }
  LD mx = 1e-300L; for (auto v : o.d.d) mx = std::max(mx, fabsl(v)); LD tol = 1e-11L * mx; std::vector<LD> hs; for (int q = n; q < 2 * n - 1; q++) hs.push_back(nd[q].h); std::sort(hs.begin(), hs.end()); for (int q = n; q < 2 * n - 1; q++) for (int s : {nd[q].l, nd[q].r}) if (s >= n) VCHECK(nd[s].h <= nd[q].h + tol, "cluster.monotone", "%s merge %d below its part %d", at.c_str(), q - n, s - n);
  if (!o.ties) { // the same tree as joining the globally nearest pair in each step
    std::vector<std::vector<LD>> d(n, std::vector<LD>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d[i][j] = o.d(i, j); std::vector<std::set<int>> cl; for (int i = 0; i < n; i++) cl.push_back({i}); std::set<int> live; for (int i = 0; i < n; i++) live.insert(i); std::set<std::set<int>> want, got; while (live.size() > 1) { int x = -1, y = -1; for (int i : live) for (int j : live) if (i < j && (x < 0 || d[i][j] < d[x][y])) x = i, y = j; LD h = d[x][y]; for (int k : live) if (k != x && k != y) d[x][k] = d[k][x] = lw(l, cl[x].size(), cl[y].size(), cl[k].size(), d[x][k], d[y][k], h); cl[x].insert(cl[y].begin(), cl[y].end()); want.insert(cl[x]); live.erase(y); } for (int q = n; q < 2 * n - 1; q++) got.insert(nd[q].items); VCHECK(want == got, "cluster.tree", "%s got %s expected %s", at.c_str(), show(got).c_str(), show(want).c_str()); mon().count("trees"); }
  // groups
  for (int rep = 0; rep < 3; rep++) { int k = r.i(1, n); std::vector<std::unique_ptr<std::vector<Ti>>> map; for (int i = 0; i < k; i++) map.push_back(std::make_unique<std::vector<Ti>>()); c->Group(map); std::string wh = at + fmt(" groups %d", k); std::vector<int> seen(n, 0); for (auto &g : map) { VCHECK(!g->empty(), "group.empty", "%s", wh.c_str()); for (int i : *g) if (i >= 0 && i < n) seen[i]++; else VCHECK(false, "group.item", "%s item %d", wh.c_str(), i); VCHECK(std::is_sorted(g->begin(), g->end()), "group.sorted", "%s", wh.c_str()); } for (int i = 0; i < n; i++) VCHECK(seen[i] == 1, "group.partition", "%s item %d in %d groups", wh.c_str(), i, seen[i]); VCHECK((int)map.size() == k, "group.count", "%s %zu", wh.c_str(), map.size());
    auto gs = asSet(map); LD maxIn = 0, minOut = INFINITY; bool tree = true; std::set<std::set<int>> all; for (auto &x : nd) all.insert(x.items); for (auto &g : gs) tree &= all.count(g) > 0; VCHECK(tree, "group.tree", "%s %s is no cut of the tree", wh.c_str(), show(gs).c_str()); for (int q = n; q < 2 * n - 1; q++) { bool in = false; for (auto &g : gs) in |= std::includes(g.begin(), g.end(), nd[q].items.begin(), nd[q].items.end()); if (in) maxIn = std::max(maxIn, nd[q].h); else minOut = std::min(minOut, nd[q].h); } std::set<std::set<int>> last; { std::set<int> root{2 * n - 2}; for (int q = 2 * n - 2; (int)root.size() < k; q--) if (root.erase(q)) { root.insert(nd[q].l); root.insert(nd[q].r); } for (int q : root) last.insert(nd[q].items); } bool high = maxIn <= minOut + tol; VCHECK(high || gs == last, "group.cut", "%s %s keeps a merge at %g and cuts one at %g", wh.c_str(), show(gs).c_str(), (double)maxIn, (double)minOut); VCHECK(high || gs != last, "group.order", "%s %s keeps a merge at %g and cuts one at %g because it was recorded later", wh.c_str(), show(gs).c_str(), (double)maxIn, (double)minOut); mon().count("cuts"); }
  // format of R
  if (n > 1) { Buf hb(n - 1); auto mb = std::make_unique<int[]>(2 * (n - 1)); Matrix<Tv> hm(hb.p, n - 1); Matrix<Ti> mm(mb.get(), n - 1, 2); std::vector<Ti> ord; c->MergeR(mm, hm, ord); std::vector<std::set<int>> it; std::set<int> used; std::set<std::set<int>> got, want; std::multiset<std::pair<std::set<int>, double>> gh, wh; bool ok = true; for (int q = 0; q < n - 1 && ok; q++) { std::set<int> s; for (int t = 0; t < 2; t++) { int v = mm.Get0(q, t); ok &= v != 0 && v >= -n && v <= q && used.insert(v).second; VCHECK(ok, "mergeR.reference", "%s row %d refers to %d", at.c_str(), q + 1, v); if (!ok) break; if (v < 0) s.insert(-v - 1); else s.insert(it[v - 1].begin(), it[v - 1].end()); } if (!ok) break; it.push_back(s); got.insert(s); VCHECK(q == 0 || hb.p[q] >= hb.p[q - 1] - (double)tol, "mergeR.order", "%s height %d", at.c_str(), q); for (int w = n; w < 2 * n - 1; w++) if (nd[w].items == s) { VEQ(hb.p[q], (double)nd[w].h, "mergeR.height", 1e-9, (double)tol, at + fmt(" row %d", q + 1)); } } for (int w = n; w < 2 * n - 1; w++) want.insert(nd[w].items); if (ok) VCHECK(got == want, "mergeR.tree", "%s got %s expected %s", at.c_str(), show(got).c_str(), show(want).c_str()); mon().count("merge_tables"); }
  mon().distinct(at);
}
// ---- grouping the columns of data
static void group(Rng &r) {
  int n = r.i(3, 15), k = r.i(2, 10); bool nan = r.b(0.3), spear = r.b(0.3); auto d = DM[r.i(0, 4)]; auto l = LK[r.i(0, 4)]; if (!isCor(d)) spear = false; auto cm = spear ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson; int er = r.b(0.2) ? r.i(0, 2) : 0; auto g = GroupDataBase::GetFromType(l, d, cm, n + er, k + er); double fl = fillOf(r.i(0, 3)); Buf wk(g->WorkSize, fl); int uses = r.b(0.3) ? 2 : 1;
  for (int u = 0; u < uses; u++) { M x = rndData(r, n, k, nan && r.b(0.7), true); int c = r.i(1, k); auto p = DistanceBase::GetFromType(true, d, cm, n, k); Buf st(p->StorageSize), w2(p->WorkSize); MX mx(x); p->Calculate(mx.m, st, w2); bool anyNan = false; M ds(k, k); VD all; for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) { double v = p->Result.Get0(i, j); if (std::isnan(v)) anyNan = true, v = 0; ds(i, j) = ds(j, i) = v; all.push_back(v); p->Result.Set0(i, j, v); } double th = r.b(0.3) ? 0 : r.b() ? r.u(0, 1) * all[r.i(0, all.size() - 1)] + 1e-9 : all[r.i(0, all.size() - 1)] * 1.0001 + 1e-9; std::string at = fmt("%dx%d %s %s%s nan %d groups %d threshold %g use %d", n, k, ToString(l), ToString(d), spear ? " spearman" : "", nan, c, th, u); mon().note(at);
    auto hc = HClusterBase::GetFromType(l, k); hc->Calculate(p->Result); std::vector<std::unique_ptr<std::vector<Ti>>> map; for (int i = 0; i < c; i++) map.push_back(std::make_unique<std::vector<Ti>>()); hc->Group(map); g->Calculate(mx.m, wk, c, th); VCHECK(g->NaNDistanceFound == anyNan, "data.nan", "%s flag %d expected %d", at.c_str(), g->NaNDistanceFound, anyNan); VCHECK((int)g->Groups.size() == c, "data.count", "%s %zu groups", at.c_str(), g->Groups.size()); std::set<size_t> rem; bool amb = false; for (auto &v : map) { std::vector<Ti> keep; for (size_t j = 0; j < v->size(); j++) { bool del = false; for (size_t i = 0; i < j; i++) { LD q = ds(v->at(i), v->at(j)); amb |= fabsl(q - th) < 1e-12L; del |= th > 0 && q < th; } if (del) rem.insert(v->at(j)); else keep.push_back(v->at(j)); } *v = keep; } if (amb && th > 0) continue;
    for (int i = 0; i < c && i < (int)g->Groups.size(); i++) VCHECK(*g->Groups[i] == *map[i], "data.groups", "%s group %d has %zu columns, expected %zu", at.c_str(), i, g->Groups[i]->size(), map[i]->size()); std::string a, b; for (auto q : g->Removed) a += fmt("%zu ", q); for (auto q : rem) b += fmt("%zu ", q); VCHECK(g->Removed == rem, "data.removed", "%s removed %sexpected %s", at.c_str(), a.c_str(), b.c_str()); std::vector<int> seen(k, 0); for (auto &v : g->Groups) for (int i : *v) seen[i]++; for (auto i : g->Removed) if (i < (size_t)k) seen[i]++; for (int i = 0; i < k; i++) VCHECK(seen[i] == 1, "data.partition", "%s column %d appears %d times", at.c_str(), i, seen[i]); mon().count("groupings"); if (rem.size()) mon().count("groupings_removed"); mon().distinct("g " + at); }
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("distance", 3000, 60000, dist); m.section("cluster", 4000, 80000, cluster); m.section("group", 2500, 50000, group);
  return m.done();
}
