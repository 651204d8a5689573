// Independent reference linear algebra (long double, row access by (i,j)); shares nothing with the library.
#pragma once
#include <cmath>
#include <vector>
#include <stdexcept>
namespace ref {
typedef long double L;
struct M {
  int r = 0, c = 0; std::vector<L> d;
  M() {}
  M(int r_, int c_, L v = 0) : r(r_), c(c_), d((size_t)r_ * c_, v) {}
  L &operator()(int i, int j) { return d[(size_t)j * r + i]; }
  L operator()(int i, int j) const { return d[(size_t)j * r + i]; }
  static M fromCol(const double *p, int r, int c) { M m(r, c); for (size_t k = 0; k < m.d.size(); k++) m.d[k] = p[k]; return m; }
  static M fromCol(const std::vector<double> &p, int r, int c) { return fromCol(p.data(), r, c); }
  static M eye(int n) { M m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
  std::vector<double> vec() const { return std::vector<double>(d.begin(), d.end()); }
  M t() const { M m(c, r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(j, i) = (*this)(i, j); return m; }
  M col(int j) const { M m(r, 1); for (int i = 0; i < r; i++) m(i, 0) = (*this)(i, j); return m; }
  M sub(int i0, int j0, int rr, int cc) const { M m(rr, cc); for (int i = 0; i < rr; i++) for (int j = 0; j < cc; j++) m(i, j) = (*this)(i0 + i, j0 + j); return m; }
  L maxabs() const { L v = 0; for (auto x : d) { L a = fabsl(x); if (!(a <= v)) v = a; } return v; }
  L sum() const { L s = 0; for (auto x : d) s += x; return s; }
};
inline M operator*(const M &a, const M &b) {
  if (a.c != b.r) throw std::logic_error("ref mul");
  M m(a.r, b.c); for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) { L x = b(k, j); for (int i = 0; i < a.r; i++) m(i, j) += a(i, k) * x; } return m;
}
inline M operator*(L s, const M &a) { M m = a; for (auto &x : m.d) x *= s; return m; }
inline M operator+(const M &a, const M &b) { if (a.r != b.r || a.c != b.c) throw std::logic_error("ref add"); M m = a; for (size_t k = 0; k < m.d.size(); k++) m.d[k] += b.d[k]; return m; }
inline M operator-(const M &a, const M &b) { if (a.r != b.r || a.c != b.c) throw std::logic_error("ref sub"); M m = a; for (size_t k = 0; k < m.d.size(); k++) m.d[k] -= b.d[k]; return m; }
inline M kron(const M &a, const M &b) { M m(a.r * b.r, a.c * b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) for (int k = 0; k < b.r; k++) for (int l = 0; l < b.c; l++) m(i * b.r + k, j * b.c + l) = a(i, j) * b(k, l); return m; }
// solve A X = B by Gaussian elimination with partial pivoting; returns false if singular. det gets the determinant
inline bool solve(M A, M B, M &X, L *det = nullptr) {
  int n = A.r; L dt = 1;
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k + 1; i < n; i++) if (fabsl(A(i, k)) > fabsl(A(p, k))) p = i;
    if (A(p, k) == 0) { if (det) *det = 0; return false; }
    if (p != k) { dt = -dt; for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j)); for (int j = 0; j < B.c; j++) std::swap(B(k, j), B(p, j)); }
    dt *= A(k, k);
    for (int i = k + 1; i < n; i++) { L f = A(i, k) / A(k, k); if (f == 0) continue; for (int j = k; j < n; j++) A(i, j) -= f * A(k, j); for (int j = 0; j < B.c; j++) B(i, j) -= f * B(k, j); }
  }
  X = M(n, B.c);
  for (int j = 0; j < B.c; j++) for (int i = n - 1; i >= 0; i--) { L s = B(i, j); for (int k = i + 1; k < n; k++) s -= A(i, k) * X(k, j); X(i, j) = s / A(i, i); }
  if (det) *det = dt; return true;
}
inline M inv(const M &A) { M X; if (!solve(A, M::eye(A.r), X)) throw std::runtime_error("ref inv: singular"); return X; }
inline L det(const M &A) { M X; L d = 0; if (!solve(A, M(A.r, 0), X, &d)) return 0; return d; }
inline L norm1(const M &a) { L v = 0; for (int j = 0; j < a.c; j++) { L s = 0; for (int i = 0; i < a.r; i++) s += fabsl(a(i, j)); if (s > v) v = s; } return v; }
// reciprocal condition (1-norm)
inline double rcond(const M &A) { M X; if (!solve(A, M::eye(A.r), X)) return 0; return (double)(1 / (norm1(A) * norm1(X))); }
// eigenvalues/vectors of a symmetric matrix by Jacobi; values descending
inline void jacobi(M A, std::vector<L> &w, M &V) {
  int n = A.r; V = M::eye(n);
  for (int sweep = 0; sweep < 100; sweep++) {
    L off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += A(i, j) * A(i, j);
    if (off < 1e-38L) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (A(p, q) == 0) continue;
      L th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { L a = A(k, p), b = A(k, q); A(k, p) = c * a - s * b; A(k, q) = s * a + c * b; }
      for (int k = 0; k < n; k++) { L a = A(p, k), b = A(q, k); A(p, k) = c * a - s * b; A(q, k) = s * a + c * b; }
      for (int k = 0; k < n; k++) { L a = V(k, p), b = V(k, q); V(k, p) = c * a - s * b; V(k, q) = s * a + c * b; }
    }
  }
  std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (A(o[j], o[j]) > A(o[i], o[i])) std::swap(o[i], o[j]);
  w.resize(n); M W(n, n); for (int k = 0; k < n; k++) { w[k] = A(o[k], o[k]); for (int i = 0; i < n; i++) W(i, k) = V(i, o[k]); } V = W;
}
} // namespace ref
