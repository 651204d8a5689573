// glue between the library's matrix type and the reference types
#pragma once
#include "vmon.h"
#include "ref.h"
#include "matrix.h"
#include "matrix_utils.h"
using namespace ldt;
using namespace vm;
#define NANV std::numeric_limits<double>::quiet_NaN()
// matrix with an exact-size heap block
struct MX {
  Buf b; Matrix<Tv> m;
  MX(int r, int c, double fill = 0) : b((size_t)r * c, fill), m(b.p, r, c) {}
  MX(const ref::M &x) : b(x.vec()), m(b.p, x.r, x.c) {}
  ref::M ref() const { return ref::M::fromCol(m.Data, m.RowsCount, m.ColsCount); }
  double operator()(int i, int j) const { return m.Data[(size_t)j * m.RowsCount + i]; }
};
inline ref::M toref(const Matrix<Tv> &m) { return ref::M::fromCol(m.Data, m.RowsCount, m.ColsCount); }
inline ref::M rnd(Rng &r, int n, int k, double scale = 1) { ref::M m(n, k); for (auto &x : m.d) x = (double)(r.n() * scale); return m; }
inline ref::M rndint(Rng &r, int n, int k, int lo = -5, int hi = 5) { ref::M m(n, k); for (auto &x : m.d) x = r.i(lo, hi); return m; }
// element-wise comparison with tolerance relative to the largest element of the expected matrix
inline bool same(const Matrix<Tv> &a, const ref::M &e, double tol, std::string *why = nullptr) {
  if (a.RowsCount != e.r || a.ColsCount != e.c) { if (why) *why = fmt("size %dx%d expected %dx%d", a.RowsCount, a.ColsCount, e.r, e.c); return false; }
  double mx = 0; for (auto x : e.d) if (std::isfinite((double)x)) mx = std::max(mx, std::fabs((double)x));
  for (int j = 0; j < e.c; j++) for (int i = 0; i < e.r; i++) {
    double x = a.Data[(size_t)j * e.r + i], y = (double)e(i, j);
    if (!vm::close(x, y, tol, tol * mx + 1e-300)) { if (why) *why = fmt("(%d,%d) got %.15g expected %.15g", i, j, x, y); return false; }
  }
  return true;
}
#define VSAME(a, e, tol, key, ...) do { std::string _w; if (!same((a), (e), (tol), &_w)) vm::Mon::self()->viol((key), vm::fmt(__VA_ARGS__) + ": " + _w); } while (0)
template <class F> bool throws(F f) { try { f(); } catch (const vm::Skip &) { throw; } catch (...) { return true; } return false; }
