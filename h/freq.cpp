// Monitors of frequencies and variables: stepping, distances, order, serialization, alignment and conversion.
#include "vmon.h"
#include "frequency.h"
#include "variable.h"
#include <memory>
using namespace ldt;
using namespace vm;
typedef std::vector<double> VD;
typedef std::function<double(const std::vector<double> &)> Agg;
static const double NANV = NAN;
template <class F> static bool throws(F f) { try { f(); } catch (LdtException &) { return true; } return false; }
#include "freqref.h"
static void laws(Rng &r) {
  Lists L; F o = rndF(r, L); std::string at = o.full + " " + o.at(0); mon().note(at); Frequency &f = *o.f; VCHECK(f.ToString() == o.at(0) && f.ToClassString() == o.cls && f.ToClassString(true) == o.full, "string", "%s is %s %s", at.c_str(), f.ToClassString(true).c_str(), f.ToString().c_str()); VCHECK(Frequency::GetClass(o.full) == f.mClass && Frequency::GetClass(o.cls) == f.mClass, "class", "%s class %c", at.c_str(), (char)f.mClass);
  auto rs = [&] { return r.b(0.3) ? r.pick({0L, 1L, -1L, 2L, -2L, 12L, -12L, 24L, -24L}) : (long)std::lround(r.u(-1, 1) * o.maxStep * (r.b() ? 1 : 0.05)); };
  long a = rs(), b = rs(); auto fa = f.Clone(), fb = f.Clone(); fa->Next(a); fb->Next(b); VCHECK(f.ToString() == o.at(0), "clone", "%s changed to %s", at.c_str(), f.ToString().c_str()); VCHECK(fa->ToString() == o.at(a), "next", "%s after %ld steps is %s, expected %s", at.c_str(), a, fa->ToString().c_str(), o.at(a).c_str()); VCHECK(fb->ToString() == o.at(b), "next", "%s after %ld steps is %s, expected %s", at.c_str(), b, fb->ToString().c_str(), o.at(b).c_str());
  VCHECK(fa->Minus(*fb) == a - b && fb->Minus(*fa) == b - a && fa->Minus(f) == a && fa->Minus(*fa) == 0, "minus", "%s: step %ld minus step %ld is %d", at.c_str(), a, b, fa->Minus(*fb)); int s = (a > b) - (a < b); auto sg = [](int v) { return (v > 0) - (v < 0); }; VCHECK(sg(fa->CompareTo(*fb)) == s && sg(fb->CompareTo(*fa)) == -s, "compare", "%s: step %ld against step %ld: %d", at.c_str(), a, b, fa->CompareTo(*fb)); VCHECK(fa->IsNewerThan(*fb) == (s > 0) && fa->IsOlderThan(*fb) == (s < 0) && fa->IsEqualTo(*fb) == (s == 0) && fa->IsEqualOrNewerThan(*fb) == (s >= 0) && fa->IsEqualOrOlderThan(*fb) == (s <= 0), "order", "%s: step %ld against step %ld", at.c_str(), a, b);
  { auto g = fa->Clone(); g->Next(b - a); VCHECK(g->ToString() == o.at(b) && g->CompareTo(*fb) == 0, "next.path", "%s: steps %ld then %ld give %s, expected %s", at.c_str(), a, b - a, g->ToString().c_str(), o.at(b).c_str()); g = f.Clone(); int n = r.i(0, 12), d = r.pick({1, -1}); for (int i = 1; i <= n; i++) { g->Next(d); VCHECK(g->ToString() == o.at((long)i * d), "next.single", "%s: %d steps of %d give %s", at.c_str(), i, d, g->ToString().c_str()); } g->Next(-n * d); VCHECK(g->ToString() == o.at(0), "next.back", "%s: %s", at.c_str(), g->ToString().c_str()); }
  { Lists M; auto p = parse(o, fa->ToString(), M); VCHECK(p->mClass == f.mClass && p->ToString() == fa->ToString() && p->ToClassString(true) == o.full, "parse", "%s %s is parsed as %s %s", o.full.c_str(), fa->ToString().c_str(), p->ToClassString(true).c_str(), p->ToString().c_str()); VCHECK(p->CompareTo(*fa) == 0 && p->Minus(f) == a, "parse.value", "%s %s: %d", o.full.c_str(), fa->ToString().c_str(), p->Minus(f)); p->Next(b - a); VCHECK(p->ToString() == o.at(b), "parse.next", "%s %s: %s after %ld, expected %s", o.full.c_str(), fa->ToString().c_str(), p->ToString().c_str(), b - a, o.at(b).c_str()); }
  { Lists M; F q = rndF(r, M); if (q.cls != o.cls) { VCHECK(throws([&] { f.CompareTo(*q.f); }) && throws([&] { f.Minus(*q.f); }) && throws([&] { Frequency::CheckClassEquality(f, *q.f); }), "mixed", "%s and %s are compared", o.cls.c_str(), q.cls.c_str()); mon().count("mixed"); } else Frequency::CheckClassEquality(f, *q.f); }
  mon().count("frequencies"); mon().distinct(fmt("%s %ld %ld", o.cls.c_str(), std::min(a, 99L), std::min(b, 99L)));
}
static void invalid(Rng &r) {
  std::string j; int n = r.i(0, 9); for (int i = 0; i < n; i++) j += r.pick({'0', '1', '9', 'Q', 'q', 'M', ':', '|', '-', 'a', ' ', ';', 'x', 'z', 'w', 'd', 'i'}); Lists L; F o = rndF(r, L); std::string s = o.f->ToString(); int k = r.i(0, 3); if (k == 0) s = j; if (k == 1 && !s.empty()) s.erase(r.i(0, s.size() - 1)); if (k == 2) s.insert(r.i(0, s.size()), j); std::string c = r.b(0.3) ? j : o.full; if (r.b(0.2) && !c.empty()) c.erase(r.i(0, c.size() - 1)); mon().note(c + " " + s);
  // an arbitrary text is either rejected or gives a frequency that describes itself
  try { FrequencyClass q; auto p = Frequency::Parse(s, c, q); std::string a = p->ToString(), b = p->ToClassString(); mon().count("accepted"); { Lists Z; if (q != FrequencyClass::kListString && q != FrequencyClass::kListDate) try { p->Clone()->Next(r.i(-3, 3)); } catch (std::out_of_range &) { } } VCHECK(p->mClass == q, "invalid.class", "%s %s", c.c_str(), s.c_str()); } catch (LdtException &) { mon().count("rejected"); }
  for (auto q : {std::make_tuple(0, 1), {-1, 1}, {4, 0}, {4, 5}, {4, -1}}) { VCHECK(throws([&] { FrequencyYearBased(2000, std::get<0>(q), std::get<1>(q)); }), "invalid.position", "%d %d", std::get<0>(q), std::get<1>(q)); FrequencyWeekBased w = *FrequencyWeekBased::Daily(bd(rday(r))); VCHECK(throws([&] { FrequencyDayBased(w, std::get<0>(q), std::get<1>(q)); }), "invalid.position", "%d %d", std::get<0>(q), std::get<1>(q)); }
}
static VD rv(Rng &r, int n, double nan) { VD v(n); for (auto &x : v) { x = r.b(nan) ? NANV : r.b(0.1) ? 0 : r.n() * r.pick({1.0, 1e-3, 1e6}); } return v; }
static std::unique_ptr<Variable<Tv>> mkVar(Rng &r, std::unique_ptr<Frequency> f, int n, double nan) { auto v = std::make_unique<Variable<Tv>>(); v->Name = fmt("V%d", r.i(0, 99)); v->Data = rv(r, n, nan); v->StartFrequency = std::move(f); int k = r.i(0, 3); for (int i = 0; i < k; i++) v->Fields[fmt("key%d", i)] = r.b(0.2) ? "" : r.b(0.2) ? "a;b" : fmt("v %d", i); return v; }
static void variable(Rng &r) {
  Lists L; F o = rndF(r, L); int n = r.b(0.1) ? 0 : r.i(1, 12); auto v = mkVar(r, o.f->Clone(), n, r.pick({0.0, 0.3, 0.9})); std::string at = o.full + " " + o.at(0) + " " + vm::str(v->Data); mon().note(at); VD x = v->Data;
  VCHECK(v->GetEndFrequency()->ToString() == o.at(n), "var.end", "%s: %s, expected %s", at.c_str(), v->GetEndFrequency()->ToString().c_str(), o.at(n).c_str());
  { Lists M; Variable<Tv> w; w.Fields["old"] = "1"; w.Data = {1, 2}; Variable<Tv>::Parse(v->ToString(), w, M.s, M.d); VCHECK(w.Name == v->Name && w.Fields == v->Fields, "var.parse", "%s: name %s, %zu fields of %zu", at.c_str(), w.Name.c_str(), w.Fields.size(), v->Fields.size()); VCHECK(w.Data.size() == x.size() && close(w.Data, x, 1e-15, 1e-15), "var.parse.data", "%s: %s", at.c_str(), vm::str(w.Data).c_str()); VCHECK(w.StartFrequency->ToString() == o.at(0) && w.StartFrequency->ToClassString(true) == o.full, "var.parse.frequency", "%s: %s", at.c_str(), w.StartFrequency->ToString().c_str()); VCHECK(v->IsEqualTo(w, 1e-9), "var.equal", "%s parsed variable differs", at.c_str());
    int k = r.i(0, 4); if (k == 0) w.Name += "x"; if (k == 1) w.Data.push_back(1); if (k == 2) w.Fields["new"] = "1"; if (k == 3) w.StartFrequency->Next(1); if (k == 4) { int j = n ? r.i(0, n - 1) : 0; if (!n || std::isnan(x[j])) k = -1; else w.Data[j] += 1e-3; } if (k >= 0) VCHECK(!v->IsEqualTo(w, 1e-9), "var.different", "%s variables that differ in %d are equal", at.c_str(), k); }
  if (n == 0) return; int s = 0, e = n - 1; while (s < n && std::isnan(x[s])) s++; while (e >= 0 && std::isnan(x[e])) e--; bool any = s <= e, miss = false; for (int i = s; i <= e; i++) miss |= std::isnan(x[i]); bool hm; auto g = v->GetRange(hm); VCHECK(any ? g.StartIndex == s && g.EndIndex == e && hm == miss : g.IsNotValid(), "var.range", "%s [%d,%d] %d", at.c_str(), g.StartIndex, g.EndIndex, hm);
  if (r.b()) { g = v->Trim(); if (!any) VCHECK(g.IsNotValid() && v->Data.size() == x.size() && v->StartFrequency->ToString() == o.at(0), "var.trim", "%s: missing variable is changed", at.c_str()); else VCHECK(close(v->Data, VD(x.begin() + s, x.begin() + e + 1), 0, 0) && v->StartFrequency->ToString() == o.at(s), "var.trim", "%s: %s from %s", at.c_str(), vm::str(v->Data).c_str(), v->StartFrequency->ToString().c_str()); }
  else { Ti c = -1; v->Interpolate(c); long filled = 0; for (int i = 0; i < n; i++) { if (!any || i < s || i > e || !std::isnan(x[i])) VCHECK(close(v->Data[i], x[i], 0, 0), "var.interpolate.keep", "%s element %d", at.c_str(), i); else { filled++; int l = i, h = i; while (std::isnan(x[l])) l--; while (std::isnan(x[h])) h++; VEQ(v->Data[i], x[l] + (x[h] - x[l]) * (i - l) / (h - l), "var.interpolate", 1e-10, 1e-10 * (std::fabs(x[l]) + std::fabs(x[h])), at); } } VCHECK(c == filled && v->StartFrequency->ToString() == o.at(0), "var.interpolate.count", "%s %d of %ld", at.c_str(), c, filled); }
  mon().count("variables"); mon().distinct(fmt("v %s %d %d %d", o.cls.c_str(), n, s, e));
}
static void align(Rng &r) {
  Lists L; F o = rndF(r, L); int m = r.i(1, 4); std::vector<std::unique_ptr<Variable<Tv>>> own; std::vector<Variable<Tv> *> vs; std::vector<int> st; int lo = 1 << 30, hi = -(1 << 30); for (int i = 0; i < m; i++) { int s = o.list ? r.i(-o.index, (int)o.items.size() - 1 - o.index) : r.i(-8, 8), n = r.i(i ? 0 : 1, 8); if (o.list && r.b(0.8)) n = std::min(n, (int)o.items.size() - o.index - s); auto f = o.f->Clone(); f->Next(s); own.push_back(mkVar(r, std::move(f), n, 0.2)); own.back()->Name = fmt("N%d", i); vs.push_back(own.back().get()); st.push_back(s); lo = std::min(lo, s); hi = std::max(hi, s + n); }
  std::string at = o.full; for (int i = 0; i < m; i++) at += fmt(" %s+%zu", o.at(st[i]).c_str(), own[i]->Data.size()); mon().note(at); Variables<Tv> V(vs); int n = hi - lo; VCHECK(V.NumObs == n && (int)V.Data.size() == n * m && V.StartFrequency->ToString() == o.at(lo), "align.size", "%s: %d observations from %s, expected %d from %s", at.c_str(), V.NumObs, V.StartFrequency->ToString().c_str(), n, o.at(lo).c_str());
  for (int i = 0; i < m; i++) { VCHECK(V.Names[i] == own[i]->Name, "align.name", "%s", at.c_str()); int s = n, e = -1; bool miss = false; for (int t = 0; t < n; t++) { int q = t + lo - st[i]; double w = q >= 0 && q < (int)own[i]->Data.size() ? own[i]->Data[q] : NANV; VCHECK(close(V.Data[i * n + t], w, 0, 0), "align.data", "%s variable %d observation %d is %g, expected %g", at.c_str(), i, t, V.Data[i * n + t], w); if (!std::isnan(w)) { s = std::min(s, t); e = t; } } for (int t = s; t <= e; t++) miss |= std::isnan(V.Data[i * n + t]); bool hm = false; auto g = V.GetRange(i, hm); VCHECK(e < 0 ? std::get<0>(g) > std::get<1>(g) : std::get<0>(g) == s && std::get<1>(g) == e && hm == miss, "align.range", "%s variable %d [%d,%d] %d", at.c_str(), i, std::get<0>(g), std::get<1>(g), hm); }
  { Lists M; F q = rndF(r, M); if (q.cls != o.cls) { auto z = mkVar(r, q.f->Clone(), 2, 0); vs.push_back(z.get()); VCHECK(throws([&] { Variables<Tv> W(vs); }), "align.mixed", "%s with %s", o.cls.c_str(), q.cls.c_str()); } } mon().count("aligned"); mon().distinct(fmt("a %s %d %d", o.cls.c_str(), m, n));
}
// conversions: every result is the aggregate of exactly the observations of its period
static double agg(const VD &v) { double s = 0; for (auto x : v) if (!std::isnan(x)) s = s * 1.37 + x; return s; } // depends on the order
static VD groupBy(const VD &x, const std::vector<long> &key) { VD o, c; for (size_t i = 0; i < x.size(); i++) { if (i && key[i] != key[i - 1]) { o.push_back(agg(c)); c.clear(); } c.push_back(x[i]); } if (c.size()) o.push_back(agg(c)); return o; }
static void convert(Rng &r) {
  long z = rday(r); int n = r.i(1, r.pick({10, 40, 900})); Agg fn = agg; auto v = mkVar(r, FrequencyWeekBased::Daily(bd(z)), n, r.pick({0.0, 0.2})); VD x = v->Data; Variable<Tv> w; w.Data = {5}; std::string at = fmt("daily from %s, %d observations", iso(z).c_str(), n); mon().note(at); auto res = [&](const VD &want, const std::string &cls, const std::string &start, const char *what) { VCHECK(w.Name == v->Name && w.StartFrequency->ToClassString() == cls && w.StartFrequency->ToString() == start, "convert.start", "%s to %s: %s %s, expected %s %s", at.c_str(), what, w.StartFrequency->ToClassString().c_str(), w.StartFrequency->ToString().c_str(), cls.c_str(), start.c_str()); VCHECK(w.Data.size() == want.size() && close(w.Data, want, 1e-12, 1e-12), "convert.data", "%s to %s: %zu observations of %zu or different values", at.c_str(), what, w.Data.size(), want.size()); VCHECK(close(v->Data, x, 0, 0), "convert.input", "%s modified", at.c_str()); mon().count("conversions"); mon().distinct(fmt("c %s %ld %d", what, z % 50, n)); };
  std::vector<long> key(n); switch (r.i(0, 4)) {
  case 0: { int fd = r.i(0, 6); long s = z; while (wday(s) != fd) s--; for (int i = 0; i < n; i++) key[i] = (z + i - s) / 7; v->ConvertTo_Weekly(w, (DayOfWeek)fd, &fn); res(groupBy(x, key), "w", iso(s), fmt("weekly from %s", DW[fd]).c_str()); break; }
  case 1: { int k = r.i(2, 12); bool fe = r.b(); int off = fe ? (k - n % k) % k : 0; for (int i = 0; i < n; i++) key[i] = (i + off) / k; v->ConvertTo_MultiDaily(w, k, &fn, fe); bool first = off && w.StartFrequency->ToString() == iso(z); res(groupBy(x, key), fmt("d%d", k), first ? iso(z) : iso(z - off), "multi-daily"); VCHECK(!first, "convert.fromend", "%s to multi-daily from the end: the first group has %d of %d days and starts at %s instead of %s", at.c_str(), k - off, k, iso(z).c_str(), iso(z - off).c_str()); break; }
  case 2: { int X = r.b(0.3) ? r.i(1, 60) : r.pick({1, 2, 3, 4, 5, 7, 12, 24, 36, 52, 73, 365}); auto part = [&](long d) { Ymd q = fromDays(d); long doy = d - civil(q.y, 1, 1), len = civil(q.y + 1, 1, 1) - civil(q.y, 1, 1); return std::make_pair(q.y, doy * X / len + 1); }; for (int i = 0; i < n; i++) { auto q = part(z + i); key[i] = q.first * 1000 + q.second; } v->ConvertTo_XxYear(w, X, &fn); auto q = part(z); res(groupBy(x, key), X == 1 ? "y" : X == 4 ? "q" : X == 12 ? "m" : fmt("y%d", X), X == 1 ? fmt("%ld", q.first) : fmt("%ld%s%ld", q.first, X == 4 ? "Q" : X == 12 ? "M" : ":", q.second), fmt("%d times a year", X).c_str()); break; }
  case 3: { int X = r.pick({1, 2, 3, 4, 6, 12, 24}); auto part = [&](long d) { Ymd q = fromDays(d); return std::make_pair(q.y, X == 24 ? 2L * (q.m - 1) + (q.d > 15) + 1 : (long)(q.m - 1) * X / 12 + 1); }; for (int i = 0; i < n; i++) { auto q = part(z + i); key[i] = q.first * 1000 + q.second; } switch (X) { case 1: v->ConvertTo_XxYear_month_based<1>(w, &fn); break; case 2: v->ConvertTo_XxYear_month_based<2>(w, &fn); break; case 3: v->ConvertTo_XxYear_month_based<3>(w, &fn); break; case 4: v->ConvertTo_XxYear_month_based<4>(w, &fn); break; case 6: v->ConvertTo_XxYear_month_based<6>(w, &fn); break; case 12: v->ConvertTo_XxYear_month_based<12>(w, &fn); break; default: v->ConvertTo_XxYear_month_based<24>(w, &fn); } auto q = part(z); res(groupBy(x, key), X == 1 ? "y" : X == 4 ? "q" : X == 12 ? "m" : fmt("y%d", X), X == 1 ? fmt("%ld", q.first) : fmt("%ld%s%ld", q.first, X == 4 ? "Q" : X == 12 ? "M" : ":", q.second), fmt("%d times a year by month", X).c_str()); break; }
  default: { // other frequencies to daily
    Lists L; F o = rndF(r, L, r.b() ? 5 : 2); if (o.cls[0] != 'i' && o.cls != "Ld") { v->StartFrequency = o.f->Clone(); VCHECK(throws([&] { v->ConvertTo_Daily(w, &fn); }), "convert.unsupported", "%s to daily", o.cls.c_str()); if (o.cls != "d") VCHECK(throws([&] { v->ConvertTo_Weekly(w, DayOfWeek::kMon, &fn); }) && throws([&] { v->ConvertTo_XxYear(w, 4, &fn); }) && throws([&] { v->ConvertTo_MultiDaily(w, 4, &fn); }) && throws([&] { v->ConvertTo_XxYear_month_based<4>(w, &fn); }), "convert.unsupported", "%s", o.cls.c_str()); break; }
    int c = o.list ? (int)o.items.size() : r.i(1, 30); v = mkVar(r, o.f->Clone(), c, 0.1); x = v->Data; std::map<long, double> val; long lo = 1L << 40, hi = -(1L << 40);
    // dates of a list keep their observations; days of a restricted week keep their dates and the other days are missing
    for (int i = 0; i < c; i++) { long d; if (o.list) { auto q = L.d[i]; d = civil(q.year(), q.month(), q.day()); if (val.count(d)) throw Skip(); } else d = o.day(i); val[d] = x[i]; lo = std::min(lo, d); hi = std::max(hi, d); } VD want; for (long d = lo; d <= hi; d++) want.push_back(val.count(d) ? val[d] : NANV); at = o.full + " " + o.at(0) + fmt(" %d observations", c); mon().note(at); v->ConvertTo_Daily(w, &fn);
    if (!o.list && !close(w.Data, want, 0, 0)) { auto &W = dynamic_cast<FrequencyWeekBased &>(*o.f); int len = W.mRange.GetLength(); VD blk; for (int i = 0; i < c; i++) { if (i && i % len == 0) for (int q = len; q < 7; q++) blk.push_back(NANV); blk.push_back(x[i]); } bool first = wday(o.day(0)) == (int)W.mRange.mStart; if (!first && close(w.Data, blk, 0, 0)) { VCHECK(false, "convert.midweek", "%s: a week that starts inside its range is converted as if it started at its first day", at.c_str()); break; } }
    v->ConvertTo_Daily(w, &fn); res(want, "d", iso(lo), "daily"); }
  }
  if (r.b(0.05)) VCHECK(throws([&] { mkVar(r, FrequencyWeekBased::Daily(bd(z)), 3, 0)->ConvertTo_Weekly(w, DayOfWeek::kMon, nullptr); }), "convert.function", "no function%s", "");
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("laws", 30000, 300000, laws); m.section("invalid", 20000, 200000, invalid); m.section("variable", 10000, 100000, variable); m.section("align", 10000, 100000, align); m.section("convert", 10000, 100000, convert);
  return m.done();
}
