// Monitors of arrays, running moments, polynomials, derivatives and optimizers.
#include "ldtm.h"
#include "array.h"
#include "running.h"
#include "polynomial.h"
#include "functionx.h"
#include "optimization.h"
#include "helpers.h"
typedef long double LD;
using ref::M;
typedef std::vector<double> VD;
static VD rv(Rng &r, int n, double nan = 0) { VD v(n); for (auto &x : v) { x = r.b(0.3) ? r.i(-3, 3) : r.n() * r.pick({1.0, 1.0, 100.0}); if (r.b(nan)) x = NANV; } return v; }
struct Mom { LD sw = 0, mean = 0, var = 0, skew = 0, kurt = 0, m2 = 0; long n = 0; };
static Mom moments(const VD &x, const VD *w, bool skip) {
  Mom o; LD s = 0; for (size_t i = 0; i < x.size(); i++) { if (skip && std::isnan(x[i])) continue; LD wi = w ? (*w)[i] : 1; o.sw += wi; s += wi * x[i]; o.n++; } if (o.sw == 0) { o.mean = o.var = o.skew = o.kurt = NANV; return o; }
  o.mean = s / o.sw; LD m3 = 0, m4 = 0; for (size_t i = 0; i < x.size(); i++) { if (skip && std::isnan(x[i])) continue; LD wi = w ? (*w)[i] : 1, d = x[i] - o.mean; o.m2 += wi * d * d; m3 += wi * d * d * d; m4 += wi * d * d * d * d; }
  o.var = o.m2 / o.sw; o.skew = (m3 / o.sw) / powl(o.var, 1.5L); o.kurt = (m4 / o.sw) / (o.var * o.var) - 3; return o;
}
template <bool W, bool S> static void momCase(Rng &r, const VD &x, const VD &w, const std::string &at) {
  typedef Array<Tv> A; Buf b(x), bw(w); int n = x.size(); Mom o = moments(x, W ? &w : nullptr, S); const Tv *pw = W ? bw.p : nullptr; LD sc = 0; for (auto v : x) if (!std::isnan(v)) sc = std::max(sc, fabsl(v)); bool deg = !(o.var > 1e-9L * sc * sc);
  VEQ((A::Mean<W, S>(b, n, pw)), (double)o.mean, "array.mean", 1e-9, (double)(1e-12L * sc), at); VEQ((A::Variance<W, S>(b, n, pw)), (double)o.var, "array.variance", 1e-9, (double)(1e-12L * sc * sc), at); if (!deg || std::isnan((double)o.mean)) { VEQ((A::Skewness<W, S>(b, n, pw)), (double)o.skew, "array.skewness", 1e-6, 1e-7, at); VEQ((A::Kurtosis<W, S>(b, n, pw)), (double)o.kurt, "array.kurtosis", 1e-6, 1e-7, at); }
  // running moments: any split and order of combination gives the moments of all values
  typedef RunningMoments<4, S, W, Tv> R4; int parts = r.i(1, 4); std::vector<R4> p(parts); std::vector<VD> px(parts), pws(parts); for (int i = 0; i < n; i++) { int q = r.i(0, parts - 1); p[q].PushNew(x[i], w[i]); px[q].push_back(x[i]); pws[q].push_back(w[i]); }
  R4 all; RunningMoments<1, S, W, Tv> r1; RunningMoments<2, S, W, Tv> r2; RunningMoments<3, S, W, Tv> r3; if (r.b(0.2)) { all.PushNew(5, 2); all.Reset(); } for (int i = 0; i < n; i++) { r1.PushNew(x[i], w[i]); r2.PushNew(x[i], w[i]); r3.PushNew(x[i], w[i]); }
  auto ord = r.perm(parts); for (int q : ord) { Mom z = moments(px[q], W ? &pws[q] : nullptr, S); LD sc2 = 0; for (auto v : px[q]) if (!std::isnan(v)) sc2 = std::max(sc2, fabsl(v)); if (z.n && z.sw > 0 && z.var > 1e-9L * sc2 * sc2 && r.b(0.3)) { all.Combine((double)z.mean, (double)z.var, (double)z.skew, (double)z.kurt, (double)z.sw, z.n); mon().count("summaries_combined"); } else all.Combine(p[q]); }
  auto cmp = [&](auto &q, int k, const char *nm) { std::string a = at + " " + nm; VCHECK(q.Count == o.n, "running.count", "%s %d of %ld", a.c_str(), q.Count, o.n); VEQ(q.SumWeights, (double)o.sw, "running.weight", 1e-9, 1e-300, a); VEQ(q.GetMean(), (double)o.mean, "running.mean", 1e-9, (double)(1e-11L * sc), a); if (k > 1) VEQ(q.GetVariance(), (double)o.var, "running.variance", 1e-8, (double)(1e-11L * sc * sc), a); else VCHECK(std::isnan(q.GetVariance()), "running.order", "%s variance %g", a.c_str(), q.GetVariance()); if (k > 2 && !deg) VEQ(q.GetSkewness(), (double)o.skew, "running.skewness", 1e-6, 1e-6, a); if (k > 3 && !deg) VEQ(q.GetKurtosis(), (double)o.kurt, "running.kurtosis", 1e-6, 1e-6, a); };
  cmp(all, 4, "combined"); cmp(r1, 1, "mean"); cmp(r2, 2, "variance"); cmp(r3, 3, "skewness"); mon().count("moments_checked", 4);
}
static void array(Rng &r) {
  typedef Array<Tv> A; int n = r.b(0.15) ? r.i(0, 2) : r.b(0.04) ? r.i(15, 150) : r.i(1, 14); VD x = rv(r, n, r.pick({0.0, 0.0, 0.3, 0.8})); if (r.b(0.05)) for (auto &v : x) v = NANV; if (r.b(0.2) && n) { for (int k = r.i(0, n); k > 0; k--) x[k - 1] = NANV; for (int k = r.i(0, n); k > 0; k--) x[n - k] = NANV; } if (r.b(0.05)) for (auto &v : x) v = 2;
  Buf b(x); std::string at = str(x); mon().note(at); int s = 0, e = n - 1; while (s < n && std::isnan(x[s])) s++; while (e >= 0 && std::isnan(x[e])) e--; bool any = s <= e, miss = false; for (int i = s; i <= e; i++) miss |= std::isnan(x[i]); long cnt = 0; for (auto v : x) cnt += !std::isnan(v);
  bool hm = r.b(); auto g = A::GetRange(b, n), g2 = A::GetRange(b, n, hm); for (auto *q : {&g, &g2}) VCHECK(any ? q->StartIndex == s && q->EndIndex == e && !q->IsNotValid() && q->Count() == e - s + 1 : q->IsNotValid(), "range", "%s range [%d,%d]", at.c_str(), q->StartIndex, q->EndIndex); VCHECK(hm == (any && miss), "range.missing", "%s missing %d", at.c_str(), hm);
  { int a = r.i(-3, 5), c = r.i(-3, 5); IndexRange q(a, c); bool inv = a > c || a < 0 || c < 0; VCHECK(q.IsNotValid() == inv && (inv || (q.StartIndex == a && q.EndIndex == c && q.Count() == c - a + 1)), "range.new", "(%d,%d)", a, c); }
  // interpolation: values on the line between the neighbors, others untouched
  Buf c(x); Ti k = -1; auto gr = A::Interpolate(c, n, k); VCHECK(gr.IsNotValid() == !any && (!any || (gr.StartIndex == s && gr.EndIndex == e)), "interpolate.range", "%s", at.c_str()); long filled = 0; for (int i = 0; i < n; i++) { if (i < s || i > e || !std::isnan(x[i])) VCHECK(close(c.p[i], x[i], 0, 0), "interpolate.keep", "%s element %d changed to %g", at.c_str(), i, c.p[i]); else { filled++; int l = i, h = i; while (std::isnan(x[l])) l--; while (std::isnan(x[h])) h++; VEQ(c.p[i], (double)(x[l] + (LD)(x[h] - (LD)x[l]) * (i - l) / (h - l)), "interpolate", 1e-10, 1e-10, at + fmt(" element %d", i)); } } VCHECK(k == filled, "interpolate.count", "%s %d of %ld", at.c_str(), k, filled);
  { int size = r.i(1, 6); bool fe = r.b(); std::vector<VD> p{{1}}; A::PartitionEqual(x, p, size, fe); std::vector<VD> w; if (fe) { for (int i = n; i > 0; i -= size) w.insert(w.begin(), VD(x.begin() + std::max(0, i - size), x.begin() + i)); } else for (int i = 0; i < n; i += size) w.push_back(VD(x.begin() + i, x.begin() + std::min(n, i + size))); bool ok = p.size() == w.size(); for (size_t i = 0; ok && i < p.size(); i++) ok = close(p[i], w[i], 0, 0); VCHECK(ok, "partition", "%s size %d from end %d: %zu partitions of %zu", at.c_str(), size, fe, p.size(), w.size()); }
  if (cnt) { VD z; for (auto v : x) if (!std::isnan(v)) z.push_back(v); double mn = *std::min_element(z.begin(), z.end()), mx = *std::max_element(z.begin(), z.end()), q; Ti ix; A::Min<true>(b, n, q); VEQ(q, mn, "min", 0, 0, at); A::Max<true>(b, n, q); VEQ(q, mx, "max", 0, 0, at); int fi = 0, fa = 0; while (!(x[fi] == mn)) fi++; while (!(x[fa] == mx)) fa++; A::MinIndex<true>(b, n, q, ix); VCHECK(q == mn && ix == fi, "min.index", "%s %g at %d", at.c_str(), q, ix); A::MaxIndex<true>(b, n, q, ix); VCHECK(q == mx && ix == fa, "max.index", "%s %g at %d", at.c_str(), q, ix); if (cnt == n) { A::Min<false>(b, n, q); VEQ(q, mn, "min", 0, 0, at); A::Max<false>(b, n, q); VEQ(q, mx, "max", 0, 0, at); A::MinIndex<false>(b, n, q, ix); VCHECK(q == mn && ix == fi, "min.index", "%s %g at %d", at.c_str(), q, ix); A::MaxIndex<false>(b, n, q, ix); VCHECK(q == mx && ix == fa, "max.index", "%s %g at %d", at.c_str(), q, ix); } }
  { double q; A::First<true>(b, n, q); VEQ(q, any ? x[s] : NANV, "first", 0, 0, at); A::Last<true>(b, n, q); VEQ(q, any ? x[e] : NANV, "last", 0, 0, at); A::First<false>(b, n, q); VEQ(q, n ? x[0] : NANV, "first", 0, 0, at); A::Last<false>(b, n, q); VEQ(q, n ? x[n - 1] : NANV, "last", 0, 0, at); }
  VD w(n); for (auto &v : w) v = r.b(0.15) ? 0 : r.u(0.1, 3); if (r.b(0.05)) for (auto &v : w) v = 0; if (r.b(0.3)) { double ws = r.pick({1e-200, 1e-120, 1e-40, 1e40, 1e120, 1e200}); for (auto &v : w) v *= ws; mon().count("scaled_weights"); } momCase<false, true>(r, x, w, at); momCase<true, true>(r, x, w, at + " weights " + str(w)); if (cnt == n) { momCase<false, false>(r, x, w, at); momCase<true, false>(r, x, w, at + " weights " + str(w)); }
  Mom o = moments(x, nullptr, true); LD sc = 0; for (auto v : x) if (!std::isnan(v)) sc = std::max(sc, fabsl(v)); double q; auto gd = [&](DescriptiveType t) { A::GetDescriptive<true>(b, n, t, q); return q; }; if (cnt) { VEQ(gd(DescriptiveType::kMean), (double)o.mean, "descriptive", 1e-9, (double)(1e-12L * sc), at); VEQ(gd(DescriptiveType::kVariancePop), (double)o.var, "descriptive", 1e-9, (double)(1e-12L * sc * sc), at); VEQ(gd(DescriptiveType::kStdPop), (double)sqrtl(o.var), "descriptive", 1e-9, (double)(1e-7L * sc), at); if (cnt > 1) { LD sv = o.var * cnt / (cnt - 1); VEQ(gd(DescriptiveType::kVariance), (double)sv, "descriptive", 1e-9, (double)(1e-12L * sc * sc), at); VEQ(gd(DescriptiveType::kStd), (double)sqrtl(sv), "descriptive", 1e-9, (double)(1e-7L * sc), at); } VEQ(gd(DescriptiveType::kLast), x[e], "descriptive", 0, 0, at); VEQ(gd(DescriptiveType::kFirst), x[s], "descriptive", 0, 0, at); if (o.var > 1e-9L * sc * sc) { VEQ(gd(DescriptiveType::kSkewnessPop), (double)o.skew, "descriptive", 1e-6, 1e-7, at); VEQ(gd(DescriptiveType::kKurtosisPop), (double)o.kurt, "descriptive", 1e-6, 1e-7, at); } }
  // Box-Cox
  { double l = r.pick({0.0, 1.0, 0.5, -1.0, NANV, 0.3, 0.02, -0.004, r.u(-2.5, 2.5), r.u(-0.1, 0.1)}); VD p(r.i(1, 4)); for (auto &v : p) v = r.u(0.2, 9); Buf y(p); A::BoxCox(y, p.size(), l); for (size_t i = 0; i < p.size(); i++) { VEQ(y.p[i], std::isnan(l) ? p[i] : l == 0 ? std::log(p[i]) : (std::pow(p[i], l) - 1) / l, "boxcox", 1e-10, 1e-10, at); double z = y.p[i]; A::BoxCoxInv0(z, l); VEQ(z, p[i], "boxcox.inverse", 1e-8, 1e-8, fmt("lambda %g", l)); double u = p[i]; A::BoxCox0(u, l); VEQ(u, y.p[i], "boxcox", 1e-12, 1e-12, at); } A::BoxCoxInv(y, p.size(), l); for (size_t i = 0; i < p.size(); i++) VEQ(y.p[i], p[i], "boxcox.inverse", 1e-8, 1e-8, fmt("lambda %g", l)); }
  mon().distinct("a " + at); mon().count("arrays");
}
template <class T> static void poly1(Rng &r) {
  auto rc = [&](int d) { std::vector<T> v(d + 1); for (auto &x : v) x = (T)(r.b(0.3) ? 0 : r.i(-4, 4)); if (v.back() == 0) v.back() = 1; return v; }; auto a = rc(r.i(0, 6)), b = rc(r.i(0, 6)); int tz = r.b(0.3) ? r.i(1, 3) : 0; auto ad = a; ad.resize(a.size() + tz, 0); std::unique_ptr<T[]> pa(new T[ad.size()]), pb(new T[b.size()]); std::copy(ad.begin(), ad.end(), pa.get()); std::copy(b.begin(), b.end(), pb.get()); Matrix<T> ma(pa.get(), ad.size(), 1), mb(pb.get(), b.size(), 1); Polynomial<T> A, B; A.Data(ma); B.Data(mb, r.b());
  VCHECK(A.GetDegree() == (int)a.size() - 1 && B.GetDegree() == (int)b.size() - 1, "poly.degree", "degree %d of %zu coefficients", A.GetDegree(), a.size()); int full = a.size() + b.size() - 1, len = r.b(0.4) ? r.i(1, full + 3) : INT_MAX, n = std::min(full, len);
  std::vector<LD> w(n); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) if ((int)(i + j) < n) w[i + j] += (LD)a[i] * b[j]; PolynomialMultiply<T> m(a.size() - 1, b.size() - 1, len); std::unique_ptr<T[]> st(new T[m.StorageSize]); for (int i = 0; i < m.StorageSize; i++) st[i] = (T)7; for (int rep = r.i(1, 2); rep > 0; rep--) m.Calculate(A, B, st.get(), len); auto same = [&](const Matrix<T> &c, const std::vector<LD> &w) { if (c.length() != (int)w.size()) return false; for (size_t i = 0; i < w.size(); i++) if (c.Data[i] != w[i]) return false; return true; }; VCHECK(same(m.Result.Coefficients, w), "poly.multiply", "degrees %zu %zu length %d", a.size() - 1, b.size() - 1, len);
  int p = r.i(0, 4); int fl = p * (a.size() - 1) + 1, l2 = r.b(0.4) ? r.i(1, fl + 2) : INT_MAX, n2 = std::min(fl, l2); std::vector<LD> q{1}; for (int i = 0; i < p; i++) { std::vector<LD> z(q.size() + a.size() - 1); for (size_t u = 0; u < q.size(); u++) for (size_t v = 0; v < a.size(); v++) z[u + v] += q[u] * a[v]; q = z; } q.resize(n2); PolynomialPower<T> pw(p, a.size() - 1, l2); std::unique_ptr<T[]> s2(new T[pw.StorageSize]), w2(new T[pw.WorkSize]); pw.Calculate(A, p, s2.get(), w2.get(), l2); VCHECK(same(pw.Result.Coefficients, q), "poly.power", "degree %zu power %d length %d", a.size() - 1, p, l2); mon().count("polynomials", 2); mon().distinct(fmt("p %zu %zu %d %d %d", a.size(), b.size(), len, p, l2));
}
static void poly(Rng &r) {
  if (r.b(0.3)) poly1<Ti>(r); else poly1<Tv>(r); // matrix polynomials
  int g = r.i(1, 3), da = r.i(0, 4), db = r.i(0, 4); auto mk = [&](int d, std::vector<M> &o, std::vector<std::unique_ptr<MX>> &k, PolynomialM &p) { std::vector<Matrix<Tv> *> v; for (int i = 0; i <= d; i++) { M x = rnd(r, g, g); if (i == 0) for (int j = 0; j < g; j++) x(j, j) += 3; o.push_back(x); k.emplace_back(new MX(x)); v.push_back(&k.back()->m); } p.Data(v); };
  std::vector<M> a, b; std::vector<std::unique_ptr<MX>> ka, kb; PolynomialM A, B; mk(da, a, ka, A); mk(db, b, kb, B); VCHECK(A.GetDegree() == da && A.GetSize() == g, "mpoly.degree", "%d %d", A.GetDegree(), A.GetSize()); int len = r.b(0.4) ? r.i(1, da + db + 3) : INT_MAX, n = std::min(da + db + 1, len);
  std::vector<M> w(n, M(g, g)); for (int i = 0; i <= da; i++) for (int j = 0; j <= db; j++) if (i + j < n) w[i + j] = w[i + j] + a[i] * b[j]; PolynomialMMultiply m(g, da, db, len); Buf st(m.StorageSize, fillOf(r.i(0, 3))); for (int rep = r.i(1, 2); rep > 0; rep--) m.Calculate(A, B, st, len); VCHECK((int)m.Result.Coefficients.size() == n, "mpoly.size", "%zu of %d", m.Result.Coefficients.size(), n); for (int i = 0; i < n; i++) VSAME(*m.Result.Coefficients[i], w[i], 1e-10, "mpoly.multiply", "size %d degrees %d %d coefficient %d", g, da, db, i);
  { VD s = rv(r, db + 1); s.back() = 2; Buf bs(s); MX ms(db + 1, 1); for (int i = 0; i <= db; i++) ms.m.Data[i] = s[i]; Polynomial<Tv> S; S.Data(ms.m); PolynomialMMultiply m2(g, da, db, len); Buf s2(m2.StorageSize, fillOf(r.i(0, 3))); m2.Calculate(A, S, s2, len); std::vector<M> z(n, M(g, g)); for (int i = 0; i <= da; i++) for (int j = 0; j <= db; j++) if (i + j < n) z[i + j] = z[i + j] + (LD)s[j] * a[i]; for (int i = 0; i < n; i++) VSAME(*m2.Result.Coefficients.at(i), z[i], 1e-9, "mpoly.scalar", "size %d degrees %d %d coefficient %d", g, da, db, i); }
  int L = r.i(1, 9); PolynomialMInvert iv(g, da, L); Buf s3(iv.StorageSize, fillOf(r.i(0, 3))), w3(iv.WorkSize, fillOf(r.i(0, 3))); std::vector<M> z; if (std::fabs((double)ref::det(a[0])) < 0.1) throw Skip(); M i0 = ref::inv(a[0]); iv.Calculate(A, s3, w3, L); for (int s = 0; s < L; s++) { M x(g, g); if (!s) x = i0; else for (int j = 1; j <= std::min(s, da); j++) x = x - i0 * a[j] * z[s - j]; z.push_back(x); VSAME(*iv.Result.Coefficients.at(s), x, 1e-7, "mpoly.invert", "size %d degree %d coefficient %d of %d", g, da, s, L); } mon().count("polynomials", 3); mon().distinct(fmt("m %d %d %d %d %d", g, da, db, len, L));
}
// smooth strictly convex functions with known derivatives
struct Fun { int n; M Q; std::vector<LD> c; LD quart = 0; std::vector<LD> ex; LD val(const LD *x) const { LD s = 0; for (int i = 0; i < n; i++) { LD d = x[i] - c[i]; for (int j = 0; j < n; j++) s += d * Q(i, j) * (x[j] - c[j]) / 2; s += quart * d * d * d * d; s += ex[i] * expl(0.3L * x[i]); } return s; }
  void grad(const LD *x, LD *g) const { for (int i = 0; i < n; i++) { LD s = 0, d = x[i] - c[i]; for (int j = 0; j < n; j++) s += Q(i, j) * (x[j] - c[j]); g[i] = s + 4 * quart * d * d * d + 0.3L * ex[i] * expl(0.3L * x[i]); } }
  M hess(const LD *x) const { M h = Q; for (int i = 0; i < n; i++) { LD d = x[i] - c[i]; h(i, i) += 12 * quart * d * d + 0.09L * ex[i] * expl(0.3L * x[i]); } return h; } };
static Fun rndFun(Rng &r, int n) { Fun f; f.n = n; M a = rnd(r, n, n); f.Q = a * a.t(); for (int i = 0; i < n; i++) f.Q(i, i) += r.u(0.3, 2); for (int i = 0; i < n; i++) { f.c.push_back(r.u(-3, 3)); f.ex.push_back(r.b(0.3) ? r.u(0, 1) : 0); } f.quart = r.b(0.4) ? r.u(0, 0.5) : 0; return f; }
static std::vector<LD> ld(const Matrix<Tv> &x) { return std::vector<LD>(x.Data, x.Data + x.length()); }
static void deriv(Rng &r) {
  int n = r.i(1, 4), mx = n + r.i(0, 2); Fun f = rndFun(r, n); for (auto &e : f.ex) e *= r.pick({1.0, -1.0}); MX x(n, 1); for (int i = 0; i < n; i++) x.m.Data[i] = r.b(0.2) ? 0 : r.u(0.1, 3) * r.pick({1.0, -1.0}); auto x0 = x.b.vec(); int cnt = r.b(0.8) ? 5 : r.i(2, 6); double dt = cnt >= 4 ? 1 : 100; Derivative d(mx, true, true, cnt); Buf s1(d.StorageSize1, fillOf(r.i(0, 3))), s2(d.StorageSize2, fillOf(r.i(0, 3))), w(d.WorkSize, fillOf(r.i(0, 3))); std::function<Tv(const Matrix<Tv> &)> F = [&](const Matrix<Tv> &z) { auto v = ld(z); return (Tv)f.val(v.data()); }; auto X = ld(x.m); LD sc = 1 + fabsl(f.val(X.data())); std::vector<LD> g(n); f.grad(X.data(), g.data()); M H = f.hess(X.data());
  d.CalculateFirst(F, x.m, s1, w); VCHECK(d.Result1.length() == n, "deriv.size", "%d of %d", d.Result1.length(), n); for (int i = 0; i < n; i++) VEQ(d.Result1.Data[i], (double)g[i], "deriv.first", 1e-5 * dt, (double)(1e-6L * dt * sc), fmt("n=%d variable %d", n, i)); d.CalculateSecond(F, x.m, s2, w); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VEQ(d.Result2.Get0(i, j), (double)H(i, j), "deriv.second", 2e-3, (double)(2e-3L * sc), fmt("n=%d element (%d,%d)", n, i, j)); VCHECK(close(x.b.vec(), x0, 0, 0), "deriv.input", "point modified%s", ""); mon().count("derivatives", n + n * n); mon().distinct(fmt("d %d %d %d %d", n, mx, f.quart > 0, (int)(x0[0] * 4)));
}
static void newton(Rng &r) {
  int n = r.i(1, 5), mx = n + r.i(0, 2); Fun f = rndFun(r, n); MX x(n, 1); for (int i = 0; i < n; i++) x.m.Data[i] = r.u(-6, 6); Newton nw(mx); nw.UseLineSearch = r.b(0.7); if (r.b(0.4)) { nw.TolGradient = 1e-8; if (r.b()) nw.TolFunction = 0; } if (r.b(0.15)) nw.IterationMax = r.i(0, 3); auto X = ld(x.m); LD f0 = f.val(X.data()); bool quad = f.quart == 0; for (auto e : f.ex) quad &= e == 0;
  std::function<Tv(const Matrix<Tv> &)> F = [&](const Matrix<Tv> &z) { auto v = ld(z); return (Tv)f.val(v.data()); }; std::function<void(const Matrix<Tv> &, Matrix<Tv> &)> G = [&](const Matrix<Tv> &z, Matrix<Tv> &o) { auto v = ld(z); std::vector<LD> g(n); f.grad(v.data(), g.data()); for (int i = 0; i < n; i++) o.Data[i] = (Tv)g[i]; }, H = [&](const Matrix<Tv> &z, Matrix<Tv> &o) { auto v = ld(z); M h = f.hess(v.data()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o.Set0(i, j, (Tv)h(i, j)); };
  std::string at = fmt("n=%d line search %d max %d tolerances %g %g", n, nw.UseLineSearch, nw.IterationMax, nw.TolFunction, nw.TolGradient); double fl = fillOf(r.i(0, 3)); if (r.b()) { Buf st(nw.StorageSize, fl), wk(nw.WorkSize, fl); nw.Minimize(F, G, H, x.m, st, wk); auto Y = ld(x.m); VCHECK(nw.X == &x.m, "newton.x", "%s", at.c_str()); std::vector<LD> g(n); f.grad(Y.data(), g.data()); for (int i = 0; i < n; i++) VEQ(nw.Gradient.Data[i], (double)g[i], "newton.gradient", 1e-9, 1e-9, at); VCHECK(nw.Iteration <= nw.IterationMax, "newton.iterations", "%s %d", at.c_str(), nw.Iteration); }
  else { Buf sg(n, fl), sh(n * n, fl), wk(3 * n, fl); nw.Minimize2(F, G, H, x.m, sg, sh, wk); auto Y = ld(x.m); std::vector<LD> g(n); f.grad(Y.data(), g.data()); for (int i = 0; i < n; i++) VEQ(sg.p[i], (double)g[i], "newton.gradient", 1e-9, 1e-9, at); }
  auto Y = ld(x.m); LD fv = f.val(Y.data()); VEQ(nw.FunctionValue, (double)fv, "newton.value", 1e-9, 1e-9, at); if (nw.UseLineSearch || quad) VCHECK(fv <= f0 + 1e-9L * (1 + fabsl(f0)), "newton.worse", "%s %Lg > %Lg", at.c_str(), fv, f0); std::vector<LD> g(n); f.grad(Y.data(), g.data()); M H1 = f.hess(Y.data()), gg(n, 1), s; for (int i = 0; i < n; i++) gg(i, 0) = g[i]; ref::solve(H1, gg, s); LD gap = (gg.t() * s)(0, 0) / 2; if (nw.IterationMax > 50 && nw.UseLineSearch) { VCHECK(gap < 1e-5L, "newton.minimum", "%s: the minimum is %Lg lower", at.c_str(), gap); mon().count("minima"); } if (quad && nw.IterationMax >= 1) VCHECK(gap < 1e-8L, "newton.quadratic", "%s: one step must solve a quadratic problem (%Lg)", at.c_str(), gap); mon().distinct(fmt("n %d %d %d %d", n, nw.UseLineSearch, nw.IterationMax, (int)(f0 * 10)));
}
static void lbfgs(Rng &r) {
  int n = r.i(1, 6), mx = n + r.i(0, 2), mc = r.i(3, 8); Fun f = rndFun(r, n); MX x(n, 1), lo(n, 1), up(n, 1); int kind = r.i(0, 3); for (int i = 0; i < n; i++) { x.m.Data[i] = r.u(-6, 6); double a = r.u(-4, 4), b = a + r.u(0, 4); lo.m.Data[i] = r.b(0.2) ? -INFINITY : a; up.m.Data[i] = r.b(0.2) ? INFINITY : b; } bool hl = kind & 1, hu = kind & 2; LimitedMemoryBFGSB o(mx, mc); o.Options.IterationMax = r.b(0.85) ? 1000 : r.i(1, 12); o.Options.Factor = r.pick({1e3, 1e7}); Buf st(o.StorageSize, fillOf(r.i(0, 3))), wk(o.WorkSize, fillOf(r.i(0, 3))); auto X = ld(x.m); for (int i = 0; i < n; i++) { if (hl) X[i] = std::max(X[i], (LD)lo.m.Data[i]); if (hu) X[i] = std::min(X[i], (LD)up.m.Data[i]); } LD f0 = f.val(X.data());
  auto in = [&](LD v, int i) { return !(hl && v < lo.m.Data[i] - 1e-12L) && !(hu && v > up.m.Data[i] + 1e-12L); }; bool outside = false; double out = 0; long evals = 0; std::function<Tv(const Matrix<Tv> &)> F = [&](const Matrix<Tv> &z) { evals++; auto v = ld(z); for (int i = 0; i < n; i++) if (!in(v[i], i)) { outside = true; out = std::max({out, lo.m.Data[i] - (double)v[i], (double)v[i] - up.m.Data[i]}); } return (Tv)f.val(v.data()); }; std::function<void(const Matrix<Tv> &, Matrix<Tv> &)> G = [&](const Matrix<Tv> &z, Matrix<Tv> &o) { auto v = ld(z); std::vector<LD> g(n); f.grad(v.data(), g.data()); for (int i = 0; i < n; i++) o.Data[i] = (Tv)g[i]; };
  std::string at = fmt("n=%d lower %d upper %d corrections %d max %d", n, hl, hu, mc, o.Options.IterationMax); mon().note(at); for (int i = 0; i < n; i++) if (hl && hu && lo.m.Data[i] > up.m.Data[i]) throw Skip(); o.Minimize(F, G, x.m, st, wk, hl ? &lo.m : nullptr, hu ? &up.m : nullptr); auto Y = ld(x.m); VCHECK(!outside, "lbfgs.bounds", "%s the function is evaluated %g outside the bounds", at.c_str(), out); for (int i = 0; i < n; i++) VCHECK(in(Y[i], i) && !std::isnan(Y[i]), "lbfgs.bounds", "%s variable %d is %Lg", at.c_str(), i, Y[i]); VEQ(o.FunctionValue, (double)f.val(Y.data()), "lbfgs.value", 1e-12, 1e-12, at); std::vector<LD> g(n); f.grad(Y.data(), g.data()); for (int i = 0; i < n; i++) VEQ(o.GradientVector.Data[i], (double)g[i], "lbfgs.gradient", 1e-9, 1e-9, at); VCHECK(o.Iteration <= o.Options.IterationMax, "lbfgs.iterations", "%s %d", at.c_str(), o.Iteration);
  bool conv = o.Task >= 20 && o.Task <= 25; if (o.Options.IterationMax >= 1000 && o.Options.Factor > 1e4) { VCHECK(conv || o.Task == 3, "lbfgs.converge", "%s task %d after %d, factor %g", at.c_str(), o.Task, o.Iteration, o.Options.Factor); } VCHECK(f.val(Y.data()) <= f0 + 1e-9L * (1 + fabsl(f0)), "lbfgs.worse", "%s %Lg > %Lg", at.c_str(), f.val(Y.data()), f0); if (o.Options.IterationMax < 1000) mon().count("limited"); if (conv || o.Options.IterationMax >= 1000) { for (int i = 0; i < n; i++) { LD p = g[i]; bool al = hl && Y[i] <= lo.m.Data[i] + 1e-9L, au = hu && Y[i] >= up.m.Data[i] - 1e-9L; if (al && p > 0) p = 0; if (au && p < 0) p = 0; static long tried, early; tried++; if (o.Task == 22 && fabsl(p) >= 1e-3L * (1 + fabsl(f0))) { early++; mon().count("lbfgs_early_stops"); VCHECK(early <= 3 + tried / 2000, "lbfgs.early", "%s %ld of %ld bounded minimizations stop before the minimum", at.c_str(), early, tried); break; } VCHECK(fabsl(p) < 1e-3L * (1 + fabsl(f0)), "lbfgs.minimum", "%s projected gradient %d is %Lg task %d", at.c_str(), i, p, o.Task); } mon().count("minima"); } mon().distinct(fmt("l %d %d %d %d", n, kind, mc, (int)(f0 * 10)));
}
static void nelder(Rng &r) {
  int n = r.i(1, 3), mx = n; Fun f = rndFun(r, n); f.ex.assign(n, 0); f.quart = 0; M d = f.Q; MX x(n, 1), lo(n, 1), up(n, 1); bool hl = r.b(0.4), hu = r.b(0.4); for (int i = 0; i < n; i++) { x.m.Data[i] = r.u(-3, 3); double a = r.u(-4, 2); lo.m.Data[i] = a; up.m.Data[i] = a + r.u(0.5, 5); } int hostile = r.b(0.2) ? r.i(1, 3) : 0; double wall = 0; NelderMead nm(mx); nm.MaxIteration = r.b(0.85) ? 4000 : r.i(0, 20); nm.Tolerance = 1e-10; Buf st(nm.StorageSize, fillOf(r.i(0, 3))), wk(nm.WorkSize, fillOf(r.i(0, 3)));
  auto P = ld(x.m); for (int i = 0; i < n; i++) { if (hl) P[i] = std::max(P[i], (LD)lo.m.Data[i]); if (hu) P[i] = std::min(P[i], (LD)up.m.Data[i]); } wall = (double)std::max(P[0], f.c[0]) + r.u(0.05, 2); LD f0 = f.val(P.data()), best = INFINITY; double pm = r.pick({10.0, 1000.0}); auto pen = [&](const std::vector<LD> &v) { LD s = 0; for (int i = 0; i < n; i++) { if (hl && v[i] < lo.m.Data[i]) s += powl(lo.m.Data[i] - v[i], 2); if (hu && v[i] > up.m.Data[i]) s += powl(v[i] - up.m.Data[i], 2); } return s; };
  std::function<Tv(const Matrix<Tv> &)> F = [&](const Matrix<Tv> &z) -> Tv { auto v = ld(z); if (hostile && v[0] > wall) { if (hostile == 1) throw std::logic_error("infeasible"); return hostile == 2 ? INFINITY : NAN; } LD q = f.val(v.data()), t = q + pm * pen(v); if (t < best) best = t; return (Tv)q; };
  std::string at = fmt("n=%d lower %d upper %d hostile %d max %d penalty %g", n, hl, hu, hostile, nm.MaxIteration, pm); mon().note(at); nm.Minimize(F, x.m, wk, st, hl ? &lo.m : nullptr, hu ? &up.m : nullptr, pm); auto Y = ld(nm.Result); LD got = f.val(Y.data()) + pm * pen(Y); VEQ(nm.Min, (double)got, "nelder.value", 1e-9, 1e-9, at); VCHECK(got <= f0 + 1e-9L * (1 + fabsl(f0)), "nelder.worse", "%s %Lg > %Lg", at.c_str(), got, f0); VCHECK(nm.Iter <= nm.MaxIteration, "nelder.iterations", "%s", at.c_str()); VCHECK(got <= best + 1e-9L * (1 + fabsl(best)), "nelder.best", "%s returns %Lg, the best visited point has %Lg", at.c_str(), got, best);
  if (nm.MaxIteration > 100) VCHECK(nm.Iter == nm.MaxIteration || nm.Diff < nm.Tolerance, "nelder.stop", "%s", at.c_str()); if (nm.MaxIteration > 100 && !hl && !hu && !hostile && nm.Iter < nm.MaxIteration) { M g(n, 1), s; std::vector<LD> gv(n); f.grad(Y.data(), gv.data()); for (int i = 0; i < n; i++) g(i, 0) = gv[i]; ref::solve(f.Q, g, s); LD gap = (g.t() * s)(0, 0) / 2; VCHECK(gap < 1e-4L, "nelder.minimum", "%s the minimum is %Lg lower", at.c_str(), gap); mon().count("minima"); }
  // one dimension
  double c = r.u(-5, 5), x0 = r.u(-5, 5), a = r.b(0.4) ? r.b(0.3) ? 0 : r.u(-4, 0) : NANV, b = r.b(0.4) ? r.b(0.3) ? 0 : r.u(0.5, 4) : NANV; if (a == 0 && b == 0) b = 2; double tol = r.pick({1e-3, 1e-6}), step = r.pick({0.1, 1.0}); bool out = false, inf = r.b(0.3); auto q = [&](double z) { return (z - c) * (z - c) + 0.1 * std::pow(z - c, 4); };
  auto t = NelderMead::Minimize1([&](const Tv &z) -> Tv { if (z < a || z > b) { out = true; if (inf) return NANV; } return q(z); }, x0, step, 5000, tol, a, b); double s = std::get<0>(t), want = c; if (!std::isnan(a)) want = std::max(want, a); if (!std::isnan(b)) want = std::min(want, b); std::string a1 = fmt("center %g start %g bounds [%g,%g] step %g tolerance %g", c, x0, a, b, step, tol);
  VCHECK(!(s < a || s > b), "nelder.one.bound", "%s gives %.12g", a1.c_str(), s); VCHECK(!out, "nelder.one.outside", "%s: the function is evaluated outside its bounds", a1.c_str()); VEQ(s, want, "nelder.one", 0, tol * 1.001, a1); VCHECK(std::get<1>(t) < 5000, "nelder.one.stop", "%s", a1.c_str()); { int lim = r.i(1, 30); auto u = NelderMead::Minimize1([&](const Tv &z) { return q(z); }, x0, step, lim, tol, a, b); double z0 = x0; if (z0 < a) z0 = a; if (z0 > b) z0 = b; VCHECK(std::get<1>(u) <= lim && q(std::get<0>(u)) <= q(z0), "nelder.one.worse", "%s limit %d", a1.c_str(), lim); } mon().count("nelder_one"); mon().distinct(fmt("s %d %d %d %d", n, hl, hu, (int)(f0 * 10)));
}
int main(int argc, char **argv) {
  Mon m(argc, argv);
  m.section("array", 6000, 60000, array); m.section("poly", 5000, 50000, poly); m.section("deriv", 3000, 30000, deriv); m.section("newton", 4000, 40000, newton); m.section("lbfgs", 4000, 40000, lbfgs); m.section("nelder", 3000, 30000, nelder);
  return m.done();
}
