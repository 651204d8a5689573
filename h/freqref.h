// Random frequencies with an independent description of what they must be after n steps (shared by freq.cpp and api.cpp).
#pragma once
#include "vmon.h"
#include "frequency.h"
#include <memory>
using namespace ldt;
using namespace vm;
// independent calendar
static long civil(long y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
struct Ymd { long y; int m, d; };
static Ymd fromDays(long z) { z += 719468; long era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; int d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; return {yoe + era * 400 + (m <= 2), m, d}; }
static int wday(long z) { return (int)(((z + 4) % 7 + 7) % 7); } // 0 is Sunday
static std::string iso(long z) { Ymd q = fromDays(z); return vm::fmt("%04ld%02d%02d", q.y, q.m, q.d); }
static boost::gregorian::date bd(long z) { Ymd q = fromDays(z); return boost::gregorian::date(q.y, q.m, q.d); }
static long fdiv(long a, long b) { long q = a / b; return q * b > a ? q - 1 : q; }
static const char *DW[] = {"sun", "mon", "tue", "wed", "thu", "fri", "sat"};
static bool inWeek(int w, int s, int e) { return s <= e ? w >= s && w <= e : w >= s || w <= e; }
// a frequency with an independent description of what it must be after n steps
struct F { std::unique_ptr<Frequency> f; std::string cls, full; std::function<std::string(long)> at; long maxStep = 200; bool list = false, date = false; std::vector<std::string> items; int index = 0; std::function<long(long)> day; };
struct Lists { std::vector<std::string> s; std::vector<boost::gregorian::date> d; };
static long rday(Rng &r) { return r.b(0.3) ? civil(r.pick({1900, 2000, 1999, 2004, 2023}), r.pick({1, 2, 12, 3}), r.pick({1, 28, 27})) + r.i(0, 4) : civil(1800 + r.i(0, 400), 1, 1) + r.i(0, 364); }
static void weekBased(Rng &r, F &o, FrequencyWeekBased &w) {
  long z = rday(r); switch (r.i(0, 4)) {
  case 0: w = *FrequencyWeekBased::Daily(bd(z)); o.cls = "d"; o.day = [z](long n) { return z + n; }; break;
  case 1: { int k = r.i(2, 40); w = *FrequencyWeekBased::MultiDaily(bd(z), k); o.cls = vm::fmt("d%d", k); o.day = [z, k](long n) { return z + n * k; }; break; }
  case 2: w = *FrequencyWeekBased::Weekly(bd(z)); o.cls = "w"; o.day = [z](long n) { return z + 7 * n; }; break;
  case 3: { int k = r.i(2, 9); w = *FrequencyWeekBased::MultiWeekly(bd(z), k); o.cls = vm::fmt("w%d", k); o.day = [z, k](long n) { return z + 7 * n * k; }; break; }
  default: { int s = r.i(0, 6), e = r.i(0, 6); bool fw = r.b(); DayOfWeekRange q((DayOfWeek)s, (DayOfWeek)e); w = *FrequencyWeekBased::DailyInWeek(bd(z), q, fw); long z0 = z; int st = 0; while (!inWeek(wday(z0), s, e)) { z0 += fw ? 1 : -1; st += fw ? 1 : -1; } VCHECK(w.mForwardSteps == st, "steps", "%s range %s: moved %d days instead of %d", iso(z).c_str(), q.ToString().c_str(), w.mForwardSteps, st); o.cls = vm::fmt("i:%s-%s", DW[s], DW[e]);
    int len = (e - s + 7) % 7 + 1; VCHECK(q.GetLength() == len, "range.length", "%s %d", q.ToString().c_str(), q.GetLength()); for (int d = 0; d < 7; d++) { VCHECK(q.IsInRange((DayOfWeek)d) == inWeek(d, s, e), "range.in", "%s day %d", q.ToString().c_str(), d); for (int f2 : {0, 1}) { Ti step = 77; bool out = q.IsOutsideRange((DayOfWeek)d, f2, step); VCHECK(out == !inWeek(d, s, e), "range.out", "%s day %d", q.ToString().c_str(), d); if (out) { int want = 0, g = d; while (!inWeek(g, s, e)) { g = (g + (f2 ? 1 : 6)) % 7; want += f2 ? 1 : -1; } VCHECK(step == want, "range.steps", "%s day %d: %d instead of %d", q.ToString().c_str(), d, step, want); } VCHECK(DayOfWeekRange::Distance((DayOfWeek)d, (DayOfWeek)e, f2) == (f2 ? (e - d + 7) % 7 : (d - e + 7) % 7), "range.distance", "%d to %d forward %d: %d", d, e, f2, DayOfWeekRange::Distance((DayOfWeek)d, (DayOfWeek)e, f2)); } }
    { auto p = DayOfWeekRange::Parse(q.ToString()); VCHECK((int)p.mStart == s && (int)p.mEnd == e, "range.parse", "%s", q.ToString().c_str()); }
    o.maxStep = 60; o.day = [z0, s, e](long n) { long z = z0; for (; n > 0; n--) do z++; while (!inWeek(wday(z), s, e)); for (; n < 0; n++) do z--; while (!inWeek(wday(z), s, e)); return z; }; }
  }
  auto dd = o.day; o.at = [dd](long n) { return iso(dd(n)); };
}
static F rndF(Rng &r, Lists &L, int kind = -1) {
  F o; switch (kind < 0 ? r.i(0, 5) : kind) {
  case 0: { int p = r.i(-50, 50); o.f.reset(new FrequencyCrossSection(p)); o.cls = "cs"; o.at = [p](long n) { return vm::fmt("%ld", p + n); }; break; }
  case 1: { int y = r.i(1400, 2400), X = r.pick({1, 4, 12, 2, 3, 6, 24, 7}), Z = r.b(0.4) ? r.i(2, 6) : 1, p = r.i(1, X); o.f.reset(new FrequencyYearBased(y, X, p, Z)); if (r.b() && Z == 1) { if (X == 1) o.f = FrequencyYearBased::Yearly(y); else if (X == 4) o.f = FrequencyYearBased::Quarterly(y, p); else if (X == 12) o.f = FrequencyYearBased::Monthly(y, p); else o.f = FrequencyYearBased::XTimesAYear(y, X, p); } else if (Z > 1 && r.b()) { if (X == 1) o.f = FrequencyYearBased::MultiYearly(y, Z); else o.f = FrequencyYearBased::XTimesZYear(y, X, p, Z); }
    o.cls = Z == 1 ? (X == 1 ? "y" : X == 4 ? "q" : X == 12 ? "m" : vm::fmt("y%d", X)) : (X == 1 ? vm::fmt("z%d", Z) : vm::fmt("x%dz%d", X, Z)); o.at = [=](long n) { long q = p - 1 + n, k = fdiv(q, X), yy = y + k * Z; std::string t = vm::fmt("%ld", yy); return X == 1 ? t : t + (Z == 1 && X == 4 ? "Q" : Z == 1 && X == 12 ? "M" : ":") + vm::fmt("%ld", q - k * X + 1); }; break; }
  case 2: { auto *w = new FrequencyWeekBased(); o.f.reset(w); weekBased(r, o, *w); break; }
  case 3: { FrequencyWeekBased w; weekBased(r, o, w); int X = r.pick({24, 1440, 86400, 2, 3, 8, 1, 100}), p = r.b(0.3) ? r.pick({1, X}) : r.i(1, X); if (r.b()) o.f.reset(new FrequencyDayBased(w, X, p)); else o.f = X == 24 ? FrequencyDayBased::Hourly(w, p) : X == 1440 ? FrequencyDayBased::Minutely(w, p) : X == 86400 ? FrequencyDayBased::Secondly(w, p) : FrequencyDayBased::XTimesADay(w, X, p); o.cls = (X == 24 ? "ho" : X == 1440 ? "mi" : X == 86400 ? "se" : vm::fmt("da%d", X)) + "|" + o.cls; auto dd = o.day; o.maxStep = o.maxStep * X; if (o.maxStep > 2000000) o.maxStep = 2000000; o.at = [=](long n) { long q = p - 1 + n, k = fdiv(q, X); return iso(dd(k)) + vm::fmt(":%ld", q - k * X + 1); }; o.day = nullptr; break; }
  case 4: { o.list = true; int n = r.i(1, 9); L.s.clear(); for (int i = 0; i < n; i++) L.s.push_back(vm::fmt("%c%d", 'A' + r.i(0, 25), i)); o.items = L.s; o.index = r.i(0, n - 1); o.f.reset(new FrequencyList<std::string>(L.s[o.index], &L.s)); o.cls = "Ls"; break; }
  default: { o.list = o.date = true; int n = r.i(1, 9); L.d.clear(); long z = rday(r); std::vector<long> v; for (int i = 0; i < n; i++) { v.push_back(z); z += r.i(1, 9); } if (r.b(0.2)) r.shuffle(v); for (auto a : v) { L.d.push_back(bd(a)); o.items.push_back(iso(a)); } o.index = r.i(0, n - 1); o.f.reset(new FrequencyList<boost::gregorian::date>(L.d[o.index], &L.d)); o.cls = "Ld"; break; }
  }
  if (o.list) { auto it = o.items; int ix = o.index; o.at = [it, ix](long n) { long j = ix + n; return j < 0 ? vm::fmt("out_item:%ld", j) : j >= (long)it.size() ? vm::fmt("out_item:%ld", j - (long)it.size() + 1) : it[j]; }; o.maxStep = 15; o.full = o.cls + ":"; for (size_t i = 0; i < o.items.size(); i++) o.full += (i ? ";" : "") + o.items[i]; } else o.full = o.cls;
  return o;
}
static std::unique_ptr<Frequency> parse(const F &o, const std::string &s, Lists &L) { FrequencyClass c; if (!o.list) return Frequency::Parse(s, o.full, c); if (o.date) { L.d.clear(); return FrequencyList<boost::gregorian::date>::ParseList(s, o.full, c, L.d); } L.s.clear(); return FrequencyList<std::string>::ParseList(s, o.full, c, L.s); }
