// Monitors of the C interface: results, errors, buffers and ownership.
#include "vmon.h"
#include "api.h"
#include "freqref.h"
typedef std::vector<double> VD;
static std::string err() { char *b = (char *)malloc(2048); memset(b, 'x', 2048); LDT_GetLastError(b); std::string s(b, strnlen(b, 2048)); free(b); return s; }
// the call reported no error
static void ok(const char *what) { auto e = err(); VCHECK(e.empty(), "error.unexpected", "%s: %s", what, e.substr(0, 200).c_str()); }
static void failed(const char *what) { auto e = err(); VCHECK(!e.empty() && e.size() < 2048, "error.missing", "%s reports no error", what); if (e.size() == 2047) mon().count("long_messages"); mon().count("errors"); }
// text and class of a frequency: the caller is told the size it needs
static void str(Rng &r, Frequency *f, const std::string &s, const std::string &c, const char *what) {
  int need = (int)std::max(s.size(), c.size()) + 1, len = r.pick({0, 1, need - 1, r.i(0, need)}), cl = -77;
  auto once = [&](int n, bool both) { char *a = (char *)malloc(n + (n == 0)), *b = (char *)malloc(n + (n == 0)); memset(a, '#', n + (n == 0)); memset(b, '#', n + (n == 0)); int q = n, want = both ? need : (int)s.size() + 1; cl = -77; both ? LDT_FrequencyToString(f, a, b, cl, q) : LDT_FrequencyToString0(f, a, q); ok(what);
    if (n < want) { VCHECK(q == want && a[0] == '#' && b[0] == '#' && cl == -77, "buffer.short", "%s: a buffer of %d is given, %d is required and %d is reported", what, n, want, q); mon().count("short_buffers"); }
    else { std::string x(a, strnlen(a, n)), y(b, strnlen(b, n)); VCHECK(q == n && x == s && (!both || (y == c && cl == (int)f->mClass)), "string", "%s: %s %s class %d length %d, expected %s %s", what, x.c_str(), y.substr(0, 100).c_str(), cl, q, s.c_str(), c.c_str()); mon().count("strings"); }
    free(a); free(b); return q; };
  int g = once(len, true); if (len < need) once(g, true); if (r.b(0.5)) once(need + r.i(0, 5), true); len = r.i(0, (int)s.size()); g = once(len, false); once(g, false);
}
static Frequency *create(const std::string &s, const std::string &c, Frequency &ref) { int k = -77; auto *p = LDT_FrequencyCreate(s.c_str(), c.c_str(), k); ok(c.c_str()); VCHECK(p, "create", "%s %s is not created", c.c_str(), s.c_str()); if (!p) throw Skip(); VCHECK(k == (int)ref.mClass && p->mClass == ref.mClass, "create.class", "%s: class %d instead of %d", c.c_str(), k, (int)ref.mClass); return p; }
static void frequency(Rng &r) {
  Lists L; F o = rndF(r, L); std::string at = o.full + " " + o.at(0); mon().note(at); mon().distinct("api " + at); const char *w = at.c_str();
  auto rs = [&] { return (int)(r.b(0.3) ? r.pick({0L, 1L, -1L, 2L, -2L}) : std::lround(r.u(-1, 1) * o.maxStep * (r.b() ? 1 : 0.05))); };
  int a = rs(), b = rs(); Frequency *f = create(o.at(0), o.full, *o.f), *g = LDT_FrequencyCopy(f); ok(w); VCHECK(g && g != f, "copy", "%s", w); if (!g) throw Skip(); mon().count(o.list ? "lists" : "frequencies");
  str(r, f, o.at(0), o.full, w); bool dropFirst = r.b(0.3); if (dropFirst) { LDT_DisposeFrequency(f); ok(w); f = nullptr; mon().count("copies_alone"); }
  LDT_FrequencyNext(g, a); ok(w); str(r, g, o.at(a), o.full, w); if (f) { str(r, f, o.at(0), o.full, w); int d = LDT_FrequencyMinus(g, f); ok(w); VCHECK(d == a, "minus", "%s: %d instead of %d", w, d, a); LDT_FrequencyNext(f, b); ok(w); str(r, g, o.at(a), o.full, w); d = LDT_FrequencyMinus(g, f); ok(w); VCHECK(d == a - b, "minus", "%s: %d instead of %d", w, d, a - b); }
  { // a frequency of other class
    Lists M; F q = rndF(r, M); if (q.cls != o.cls) { Frequency *h = create(q.at(0), q.full, *q.f); int d = LDT_FrequencyMinus(g, h); VCHECK(d == -1, "minus.mixed", "%s and %s: %d", w, q.full.c_str(), d); failed("difference of different classes"); LDT_DisposeFrequency(h); ok(w); } }
  if (r.b()) std::swap(f, g); LDT_DisposeFrequency(f); ok(w); LDT_DisposeFrequency(g); ok(w); mon().count("disposed");
}
static void errors(Rng &r) {
  int k = 5; std::string junk; int n = r.pick({0, 1, 5, 300, 2030, 2047, 2048, 5000}); for (int i = 0; i < n; i++) junk += (char)r.i('a', 'z'); std::string cls, s; Lists L; F o = rndF(r, L, r.i(0, 3));
  switch (r.i(0, 5)) { case 0: cls = "#" + junk; s = o.at(0); break; case 1: cls = o.full; s = "?" + junk; break; case 2: cls = "q"; s = "2000Q" + r.pick({std::string("x"), std::string("5"), std::string("0"), std::string("-1")}); break; case 3: cls = "Ld:20000101;2000013x" + junk; s = "20000101"; break; case 4: cls = "Ld:20000101;20000102"; s = "2000" + junk.substr(0, 3) + "zz"; break; default: cls = r.pick(std::vector<std::string>{"y0x", "dx", "wx", "da|", "i:sun", "zx", "x3z"}); s = r.pick({std::string("2000"), std::string("20000101")}); }
  if (o.cls[0] == 'c' && cls == o.full) { s = "?"; } auto *f = LDT_FrequencyCreate(s.c_str(), cls.c_str(), k); mon().note(cls.substr(0, 50) + " " + s.substr(0, 50)); VCHECK(!f, "create.invalid", "%s %s is accepted", cls.substr(0, 50).c_str(), s.substr(0, 50).c_str()); if (!f) failed(cls.substr(0, 50).c_str()); else LDT_DisposeFrequency(f);
  LDT_GetLastError_TEST(); VCHECK(err() == "LDT ERROR TEST", "error.test", "%s", err().c_str()); failed("test"); LDT_DisposeFrequency(nullptr); ok("dispose of nothing");
  double v = LDT_GetDistributionProperty(r.pick({0, -1, 1, 2000, (int)'A'}), 'm', 0, 1, 0, 0); VCHECK(std::isnan(v), "distribution.invalid", "%g", v); failed("invalid distribution"); VD pr{0.5}, q{7}; LDT_GetDistributionQuantiles(2000, &pr[0], 1, &q[0], 0, 1, 0, 0); VCHECK(q[0] == 7, "quantile.invalid", "%g", q[0]); failed("invalid distribution");
  v = LDT_GetDistributionProperty((int)DistributionType::kNormal, (int)DistributionProperty::kMean, 0, -1 - r.u(0, 1), 0, 0); VCHECK(std::isnan(v), "distribution.parameters", "%g", v); failed("invalid parameters"); double mu = r.u(-3, 3); v = LDT_GetDistributionProperty((int)DistributionType::kNormal, (int)DistributionProperty::kMean, mu, 1, 0, 0); VCHECK(v == mu, "distribution", "%g", v); ok("normal");
}
static void scores(Rng &r) {
  double y = r.n() * 3, m = r.n(), v = r.b(0.1) ? 1e-6 : std::exp(r.n()), s = std::sqrt(v), z = (y - m) / s; auto Phi = [](double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }; auto phi = [](double x) { return std::exp(-x * x / 2) / std::sqrt(2 * M_PI); };
  double c = LDT_GetScoreCrpsNormal(y, m, v); ok("crps"); VEQ(c, s * (z * (2 * Phi(z) - 1) + 2 * phi(z) - 1 / std::sqrt(M_PI)), "crps.normal", 1e-8, 1e-8 * s, vm::fmt("y %g mean %g variance %g", y, m, v));
  y = std::exp(r.n()); m *= 0.5; v = std::min(v, 2.0); s = std::sqrt(v); z = (std::log(y) - m) / s; double sc = 2 * std::exp(m + v / 2), w = y * (2 * Phi(z) - 1) - sc * (Phi(z - s) + Phi(s / std::sqrt(2.0)) - 1); c = LDT_GetScoreCrpsLogNormal(y, m, v); ok("crps"); VEQ(c, w, "crps.lognormal", 1e-8, 1e-8 * (y + sc), vm::fmt("y %g mean %g variance %g", y, m, v)); mon().count("scores", 2);
}
static void combine(Rng &r) {
  Lists L; F o = rndF(r, L); if (o.list && r.b(0.7)) { o = rndF(r, L, r.i(0, 3)); } std::string at = o.full; bool mixed = r.b(0.05); int lo, n[2], st[2]; int span = o.list ? (int)o.items.size() : 60;
  for (int j = 0; j < 2; j++) { if (o.list) { st[j] = r.i(0, span - 1); n[j] = r.i(1, span - st[j]); } else { st[j] = r.i(-30, 30); n[j] = r.i(1, 12); } }
  VD x[2]; for (int j = 0; j < 2; j++) { double p = r.pick({0.0, 0.3, 0.6}); for (int i = 0; i < n[j]; i++) x[j].push_back(r.b(p) ? NAN : r.b(0.1) ? 0 : r.b(0.3) ? r.i(-3, 3) : r.n()); if (std::all_of(x[j].begin(), x[j].end(), [](double a) { return std::isnan(a); })) x[j][r.i(0, n[j] - 1)] = r.n(); }
  int off = o.list ? o.index : 0; auto mk = [&](int j) { return create(o.at(st[j] - off), o.full, *o.f); }; Frequency *f[2] = {mk(0), mk(1)}; mon().distinct("combine " + at); at += vm::fmt(" %d at %d and %d at %d", n[0], st[0], n[1], st[1]); const char *w = at.c_str(); mon().note(at);
  if (mixed) { Lists M; F q = rndF(r, M); if (q.cls == o.cls) mixed = false; else { LDT_DisposeFrequency(f[1]); f[1] = create(q.at(0), q.full, *q.f); } }
  // reference: trimmed, aligned by date and joined with priority of the second
  int a[2], b[2]; for (int j = 0; j < 2; j++) { a[j] = 0; b[j] = n[j] - 1; while (std::isnan(x[j][a[j]])) a[j]++; while (std::isnan(x[j][b[j]])) b[j]--; } lo = std::min(st[0] + a[0], st[1] + a[1]); int hi = std::max(st[0] + b[0], st[1] + b[1]), N = hi - lo + 1; VD want; double md = 0; for (int t = lo; t <= hi; t++) { double v[2]; for (int j = 0; j < 2; j++) { int i = t - st[j]; v[j] = i >= 0 && i < n[j] ? x[j][i] : NAN; } want.push_back(std::isnan(v[1]) ? v[0] : v[1]); if (!std::isnan(v[0]) && !std::isnan(v[1])) { double d = v[0] == v[1] ? 0 : std::fabs((v[0] - v[1]) / v[0]) * 100; if (d > md) md = d; } }
  Buf d0(x[0]), d1(x[1]); int tries = 0, len = r.pick({0, N - 1, N, N + 3, r.i(0, N)}); double diff = -7; Frequency *h = nullptr; bool done = false;
  for (; !done && tries < 2; tries++) { Buf out(len, 1234.5); int got = len; diff = -7; h = LDT_VariableCombine(d0.p, n[0], f[0], d1.p, n[1], f[1], out.p, got, diff);
    if (mixed) { VCHECK(!h, "combine.mixed", "%s is combined", w); failed("mixed frequencies"); mon().count("mixed"); break; } ok(w);
    if (len < N) { VCHECK(!h && got == N, "combine.short", "%s: length %d is given, %d is required and %d is reported", w, len, N, got); for (int i = 0; i < len; i++) VCHECK(out.p[i] == 1234.5, "combine.short", "%s: the short buffer is changed", w); len = got; mon().count("short_buffers"); if (h) { LDT_DisposeFrequency(h); break; } if (len != N) break; continue; }
    done = true; VCHECK(h && got == N, "combine", "%s: %d observations instead of %d", w, got, N); if (!h || got != N) break; for (int i = 0; i < len; i++) { double e = i < N ? want[i] : 1234.5; VCHECK(out.p[i] == e || (std::isnan(out.p[i]) && std::isnan(e)), "combine.value", "%s: element %d of %d is %g instead of %g", w, i, N, out.p[i], e); }
    VCHECK(diff == md || vm::close(diff, md, 1e-12, 0), "combine.difference", "%s: %g instead of %g", w, diff, md); mon().count("combined"); }
  for (int j = 0; j < 2; j++) { VCHECK(vm::close(j ? d1.vec() : d0.vec(), x[j], 0, 0), "combine.input", "%s: data is changed", w); }
  if (!mixed) { str(r, f[0], o.at(st[0] - off), o.full, w); str(r, f[1], o.at(st[1] - off), o.full, w); }
  std::vector<int> ord{0, 1}; r.shuffle(ord); for (int j : ord) { LDT_DisposeFrequency(f[j]); ok(w); } if (h) { str(r, h, o.at(lo - off), o.full, w); LDT_DisposeFrequency(h); ok(w); }
}
// everything that is created can be disposed: a life cycle that is repeated takes no more memory
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void ownership(Rng &r) {
  if (!__sanitizer_get_current_allocated_bytes) throw Skip(); Lists L; F o = rndF(r, L); std::string s0 = o.at(0), full = o.full, bad = r.b() ? "Ld:20000101;2000013x" : "Ls:a;b", badv = bad[1] == 'd' ? "20000101" : "out_item:zz"; mon().note(full); mon().distinct("own " + full); int what = r.i(0, 4), n = r.i(1, 4), a = r.i(-3, 3);
  std::vector<VD> tab(n, VD(103)); for (auto &t : tab) { for (auto &v : t) v = r.n(); std::sort(t.begin(), t.end()); } VD x{1, NAN, 2}, out(200), out2(103); size_t m = 0;
  auto life = [&] { int k, len = 200; double d; switch (what) {
    case 0: { auto *f = LDT_FrequencyCreate(s0.c_str(), full.c_str(), k), *g = LDT_FrequencyCopy(f), *h = LDT_FrequencyCopy(g); LDT_FrequencyNext(g, a); LDT_FrequencyMinus(g, h); LDT_DisposeFrequency(f); LDT_DisposeFrequency(g); LDT_DisposeFrequency(h); break; }
    case 1: { auto *f = LDT_FrequencyCreate(badv.c_str(), bad.c_str(), k); if (f) LDT_DisposeFrequency(f); break; }
    case 2: { if (o.list && o.items.size() < 3) return; auto *f = LDT_FrequencyCreate((o.list ? o.items[0] : s0).c_str(), full.c_str(), k), *g = LDT_FrequencyCopy(f); auto *h = LDT_VariableCombine(&x[0], 3, f, &x[0], 3, g, &out[0], len, d); LDT_DisposeFrequency(f); LDT_DisposeFrequency(g); LDT_DisposeFrequency(h); break; }
    case 3: { auto *v = LDT_CombineDistribution103(nullptr, nullptr, nullptr, nullptr); for (auto &t : tab) LDT_CombineDistribution103(v, &t[0], nullptr, nullptr); LDT_CombineDistribution103(v, nullptr, nullptr, &out2[0]); LDT_CombineDistribution103(v, nullptr, nullptr, nullptr); break; }
    default: { char c1[4], c2[4]; auto *f = LDT_FrequencyCreate(s0.c_str(), full.c_str(), k); len = 1; LDT_FrequencyToString(f, c1, c2, k, len); len = 1; LDT_FrequencyToString0(f, c1, len); LDT_DisposeFrequency(f); LDT_GetDistributionProperty('n', 'm', a, 1, 0, 0); LDT_GetDistributionProperty(2000, 'm', a, 1, 0, 0); LDT_GetLastError_TEST(); } } };
  for (int i = 0; i < 3; i++) life(); m = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 10; i++) life(); size_t e = __sanitizer_get_current_allocated_bytes(); VCHECK(e == m, "leak", "life cycle %d of %s: %ld bytes are not released", what, full.c_str(), (long)(e - m)); mon().count("life_cycles");
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("frequency", 20000, 200000, frequency); m.section("errors", 20000, 200000, errors); m.section("scores", 20000, 200000, scores); m.section("combine", 30000, 300000, combine); m.section("ownership", 10000, 100000, ownership);
  return m.done();
}
