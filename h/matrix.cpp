#include "ldtm.h"
static std::string sz(const ref::M &m) { return fmt("%dx%d", m.r, m.c); }
typedef ref::M R;
static R had(const R &a, const R &b, int op) { R m = a; for (size_t k = 0; k < m.d.size(); k++) m.d[k] = op == 0 ? a.d[k] + b.d[k] : op == 1 ? a.d[k] - b.d[k] : op == 2 ? a.d[k] * b.d[k] : (ref::L)((double)a.d[k] / (double)b.d[k]); return m; }
static R sym(Rng &r, int n) { R a = rnd(r, n, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i); return a; }
static R spd(Rng &r, int n) { R a = rnd(r, n, n + 2); R s = a * a.t(); for (auto &x : s.d) x = (double)x; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) s(i, j) = s(j, i); for (int i = 0; i < n; i++) s(i, i) += 0.5; return s; }
static void unchanged(const MX &m, const R &orig, const char *what) { if (!vm::close(m.b.vec(), orig.vec(), 0, 0)) Mon::self()->viol("matrix.input-modified", what); }

static void products(Rng &r) {
  Mon &M = *Mon::self();
  int n = r.i(1, 7), k = r.i(1, 7), m = r.i(1, 7);
  double al = r.pick({1.0, 1.0, -0.5, 2.25, 0.0}), be = r.pick({0.0, 0.0, 1.0, -1.5, 0.5});
  R A = rnd(r, n, k, r.pick({1.0, 1.0, 1e-9, 1e9, 1e-40, 1e40})), B = rnd(r, k, m), C0 = rnd(r, n, m); const double t = 1e-12;
  M.distinct(fmt("prod %d %d %d %g %g", n, k, m, al, be));
  auto fresh = [&](int rr, int cc) { R c = rnd(r, rr, cc); if (be == 0) { double f = fillOf(r.i(0, 3)); for (auto &x : c.d) x = f; } return c; };
  auto acc = [&](const R &prod, const R &c0) { R e = (ref::L)al * prod; if (be != 0) e = e + (ref::L)be * c0; return e; };
  { R c0 = fresh(n, m); MX a(A), b(B), c(c0); a.m.Dot(b.m, c.m, al, be); VSAME(c.m, acc(A * B, c0), t, "matrix.Dot", "Dot %s*%s alpha=%g beta=%g", sz(A).c_str(), sz(B).c_str(), al, be); unchanged(a, A, "Dot"); unchanged(b, B, "Dot"); }
  { R Bt = B.t(), c0 = fresh(n, m); MX a(A), b(Bt), c(c0); a.m.DotTr(b.m, c.m, al, be); VSAME(c.m, acc(A * B, c0), t, "matrix.DotTr", "DotTr"); }
  { R At = A.t(), c0 = fresh(n, m); MX a(At), b(B), c(c0); a.m.TrDot(b.m, c.m, al, be); VSAME(c.m, acc(A * B, c0), t, "matrix.TrDot", "TrDot"); }
  { R At = A.t(), Bt = B.t(), c0 = fresh(n, m); MX a(At), b(Bt), c(c0); a.m.TrDotTr(b.m, c.m, al, be); VSAME(c.m, acc(A * B, c0), t, "matrix.TrDotTr", "TrDotTr"); }
  { R v = rnd(r, k, 1), c0 = fresh(n, 1); MX a(A), b(v), c(c0); a.m.DotVector(b.m, c.m, al, be); VSAME(c.m, acc(A * v, c0), t, "matrix.DotVector", "DotVector"); }
  { R v = rnd(r, n, 1), c0 = fresh(k, 1); MX a(A), b(v), c(c0); a.m.tDotVector(b.m, c.m, al, be); VSAME(c.m, acc(A.t() * v, c0), t, "matrix.tDotVector", "tDotVector"); }
  { R v = rnd(r, k, 1), w = rnd(r, k, 1); MX a(v), b(w); VEQ(a.m.VectorDotVector(b.m), (double)(v.t() * w)(0, 0), "matrix.VectorDotVector", 1e-10, 1e-12, "dot"); }
  { R c0 = fresh(n, n); bool lower = r.b(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) c0(i, j) = c0(j, i); MX a(A), c(c0); a.m.Dot_AAt(c.m, lower, al, be); R e = acc(A * A.t(), c0); if (!lower) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) e(i, j) = c0(i, j); VSAME(c.m, e, t, "matrix.Dot_AAt", "Dot_AAt lower=%d", lower); }
  { R c0 = fresh(k, k); bool lower = r.b(); for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) c0(i, j) = c0(j, i); MX a(A), c(c0); a.m.Dot_AtA(c.m, lower, al, be); R e = acc(A.t() * A, c0); if (!lower) for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) e(i, j) = c0(i, j); VSAME(c.m, e, t, "matrix.Dot_AtA", "Dot_AtA lower=%d", lower); }
  { R A2 = A; for (auto &x : A2.d) if (r.b(0.25)) x = NANV; MX a(A2), c(k, k, 1e300), cn(k, k, 1e300); a.m.Dot_AtA_nan(c.m, cn.m, true); R e(k, k), q(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int l = 0; l < n; l++) { ref::L v = A2(l, i) * A2(l, j); if (!std::isnan((double)v)) { e(i, j) += v; q(i, j) += 1; } } VSAME(c.m, e, t, "matrix.Dot_AtA_nan", "sums"); VSAME(cn.m, q, t, "matrix.Dot_AtA_nan", "counts"); }
  { R S = sym(r, k), c0 = fresh(k, m); MX a(S), b(B), c(c0); a.m.SymDot(b.m, c.m, r.b(), al, be); VSAME(c.m, acc(S * B, c0), t, "matrix.SymDot", "SymDot"); }
  { R S = sym(r, k), c0 = fresh(n, k); MX a(A), b(S), c(c0); a.m.DotSym(b.m, c.m, r.b(), al, be); VSAME(c.m, acc(A * S, c0), t, "matrix.DotSym", "DotSym"); }
  { R d = rnd(r, k, 1), D(k, k); for (int i = 0; i < k; i++) D(i, i) = d(i, 0); MX a(A), b(d), c(n, k, NANV); a.m.DotDiag(b.m, c.m); VSAME(c.m, A * D, t, "matrix.DotDiag", "DotDiag %s", sz(A).c_str()); }
  { R d = rnd(r, k, 1), D(k, k); for (int i = 0; i < k; i++) D(i, i) = d(i, 0); MX a(d), b(B), c(k, m, NANV); a.m.DiagDot(b.m, c.m); VSAME(c.m, D * B, t, "matrix.DiagDot", "DiagDot %s", sz(B).c_str()); }
  { MX a(A), c(k, n, NANV); a.m.Transpose(c.m); VSAME(c.m, A.t(), 0, "matrix.Transpose", "Transpose"); a.m.Transpose(); VSAME(a.m, A.t(), 0, "matrix.Transpose-in", "in-place transpose of %s", sz(A).c_str()); }
  { MX a(A), b(B), c(n * k, k * m, NANV); a.m.Kron(b.m, c.m); VSAME(c.m, ref::kron(A, B), t, "matrix.Kron", "Kron"); }
  { int h = r.i(1, 4); MX a(A), c(n * h, k * h, NANV), d(n * h, k * h, NANV), e(k * h, n * h, NANV); a.m.KronIden(h, c.m); VSAME(c.m, ref::kron(A, R::eye(h)), t, "matrix.KronIden", "KronIden"); a.m.IdenKron(h, d.m); VSAME(d.m, ref::kron(R::eye(h), A), t, "matrix.IdenKron", "IdenKron"); a.m.TrKronIden(h, e.m); VSAME(e.m, ref::kron(A.t(), R::eye(h)), t, "matrix.TrKronIden", "TrKronIden"); }
  // incompatible dimensions are refused, nothing is computed
  { MX a(A), b(rnd(r, k + 1, m)), c(n, m); VCHECK(throws([&] { a.m.Dot(b.m, c.m); }), "matrix.size-check", "Dot accepted %dx%d * %dx%d", n, k, k + 1, m); MX b2(B), c2(n + 1, m); VCHECK(throws([&] { a.m.Dot(b2.m, c2.m); }), "matrix.size-check", "Dot accepted a result of the wrong size"); }
}

static void elementwise(Rng &r) {
  int n = r.i(1, 6), k = r.i(1, 6); R A = rnd(r, n, k), B = rnd(r, n, k); for (auto &x : B.d) if (fabsl(x) < 0.05) x = 1; double b = r.pick({2.0, -0.5, 3.0, 1.0}), t = 1e-13;
  Mon::self()->distinct(fmt("elem %d %d %g", n, k, b));
  const char *nm[] = {"Add", "Subtract", "Multiply", "Divide"};
  for (int op = 0; op < 4; op++) {
    R S(n, k); for (auto &x : S.d) x = b;
    { MX a(A), x(B), c(n, k, NANV); if (op == 0) a.m.Add(x.m, c.m); else if (op == 1) a.m.Subtract(x.m, c.m); else if (op == 2) a.m.Multiply(x.m, c.m); else a.m.Divide(x.m, c.m); VSAME(c.m, had(A, B, op), t, fmt("matrix.elem.%s", nm[op]), "matrix-matrix"); }
    { MX a(A), c(n, k, NANV); if (op == 0) a.m.Add(b, c.m); else if (op == 1) a.m.Subtract(b, c.m); else if (op == 2) a.m.Multiply(b, c.m); else a.m.Divide(b, c.m); VSAME(c.m, had(A, S, op), t, fmt("matrix.elem.%s", nm[op]), "matrix-scalar"); }
    { MX a(A), x(B); if (op == 0) a.m.Add_in(x.m); else if (op == 1) a.m.Subtract_in(x.m); else if (op == 2) a.m.Multiply_in(x.m); else a.m.Divide_in(x.m); VSAME(a.m, had(A, B, op), t, fmt("matrix.elem.%s_in", nm[op]), "in place"); }
    { MX a(A); if (op == 0) a.m.Add_in(b); else if (op == 1) a.m.Subtract_in(b); else if (op == 2) a.m.Multiply_in(b); else a.m.Divide_in(b); VSAME(a.m, had(A, S, op), t, fmt("matrix.elem.%s_in", nm[op]), "in place scalar"); }
  }
  { MX a(A), x(B), c(B); a.m.Multiply(x.m, c.m, 0.5); VSAME(c.m, had(A, B, 2) + (ref::L)0.5 * B, t, "matrix.elem.Multiply-beta", "beta"); }
  { R P = A; for (auto &x : P.d) x = fabsl(x); MX a(P); a.m.Power_in(b); R e = P; for (auto &x : e.d) x = std::pow((double)x, b); VSAME(a.m, e, t, "matrix.elem.Power_in", "power"); }
  { std::function<Tv(Tv)> f = [](Tv x) { return 3 * x - 1; }; std::function<Tv(Tv, Tv)> g = [](Tv x, Tv y) { return x - 2 * y; }; R e = A, e2 = A; for (auto &x : e.d) x = 3 * x - 1; for (size_t q = 0; q < e2.d.size(); q++) e2.d[q] = A.d[q] - 2 * B.d[q];
    MX a(A), c(n, k, NANV), x(B); a.m.Apply(f, c.m); VSAME(c.m, e, t, "matrix.Apply", "Apply"); MX c2(n, k, NANV); a.m.Apply(x.m, g, c2.m); VSAME(c2.m, e2, t, "matrix.Apply", "Apply2");
    MX a2(A), a3(A), a4(A), a5(A); a2.m.Apply_in(f); VSAME(a2.m, e, t, "matrix.Apply", "Apply_in"); a3.m.Apply_in(x.m, g); VSAME(a3.m, e2, t, "matrix.Apply", "Apply_in2");
    int i = r.i(0, n - 1), j = r.i(0, k - 1); R e4 = A, e5 = A; for (int q = 0; q < k; q++) e4(i, q) = 3 * e4(i, q) - 1; for (int q = 0; q < n; q++) e5(q, j) = 3 * e5(q, j) - 1; a4.m.ApplyRow_in(i, f); VSAME(a4.m, e4, t, "matrix.Apply", "ApplyRow"); a5.m.ApplyColumn_in(j, f); VSAME(a5.m, e5, t, "matrix.Apply", "ApplyColumn"); }
}

static void decomp(Rng &r) {
  Mon &M = *Mon::self(); int n = r.i(1, 7), m = r.i(1, 4); double sc = r.pick({1.0, 1.0, 1e-4, 1e4, 1e-9, 1e9, 1e-30, 1e30});
  R A = rnd(r, n, n, sc), P = spd(r, n), B = rnd(r, n, m); P = (ref::L)sc * P; for (auto &x : P.d) x = (double)x; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) P(i, j) = P(j, i);
  M.distinct(fmt("dec %d %d %g", n, m, sc));
  double rc = ref::rcond(A); if (rc < 1e-8) throw Skip();
  double t = 1e-13 / rc;
  { MX a(A), s(n, n, NANV); VCHECK(a.m.Inv(s.m) == 0, "matrix.Inv", "inverse reported failure, rcond=%g", rc); VSAME(s.m, ref::inv(A), t, "matrix.Inv", "inverse n=%d rcond=%g", n, rc); unchanged(a, A, "Inv"); }
  { MX a(A); VEQ(a.m.Det(), (double)ref::det(A), "matrix.Det", t + 1e-12, 0, fmt("det n=%d", n)); }
  { MX a(P); VEQ(a.m.Det_pd0(), (double)ref::det(P), "matrix.Det_pd", 1e-9, 0, fmt("det of positive definite n=%d", n)); }
  { bool up = r.b(); MX a(P), s(n, n, NANV); VCHECK(a.m.Chol(s.m, up) == 0, "matrix.Chol", "Cholesky failed on a positive definite matrix"); R c = s.ref(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((up && i > j) || (!up && i < j)) VCHECK(c(i, j) == 0, "matrix.Chol", "other triangle not zero"); for (int i = 0; i < n; i++) VCHECK(c(i, i) > 0, "matrix.Chol", "diagonal not positive"); R pr = up ? c.t() * c : c * c.t(); MX pm(pr); VSAME(pm.m, P, 1e-11, "matrix.Chol", "factor does not reproduce the matrix, upper=%d", up); }
  { R T = rnd(r, n, n); bool up = r.b(), tr = r.b(), ud = r.b(0.3); for (int i = 0; i < n; i++) T(i, i) = (double)(r.b() ? 1 : -1) * r.u(0.5, 2); R T2 = T; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if ((up && i > j) || (!up && i < j)) T2(i, j) = 0; if (i == j && ud) T2(i, j) = 1; } R X; ref::solve(tr ? T2.t() : T2, B, X); double rc2 = ref::rcond(T2); if (rc2 > 1e-8) { MX a(T), b(B); VCHECK(a.m.SolveTrian(b.m, up, tr, ud) == 0, "matrix.SolveTrian", "failed"); VSAME(b.m, X, 1e-13 / rc2, "matrix.SolveTrian", "up=%d tr=%d unit=%d", up, tr, ud); } }
  { R X; ref::solve(P, B, X); double rc2 = ref::rcond(P); MX a(P), b(B); VCHECK(a.m.SolvePos(b.m, r.b()) == 0, "matrix.SolvePos", "failed"); if (rc2 > 1e-9) VSAME(b.m, X, 1e-13 / rc2, "matrix.SolvePos", "solve"); }
  if (n == 2) { MX a(A); VCHECK(a.m.Inv2x2() == 0, "matrix.Inv2x2", "failed"); VSAME(a.m, ref::inv(A), t, "matrix.Inv2x2", "2x2"); MX z(R(2, 2)); VCHECK(z.m.Inv2x2() != 0, "matrix.singular", "2x2 zero matrix inverted"); }
  { // singular: reported, never silently inverted
    R S = rndint(r, n, n, -3, 3); if (n == 1) S(0, 0) = 0; else for (int i = 0; i < n; i++) S(i, n - 1) = 0; MX a(S), s(n, n, 0); VCHECK(a.m.Inv(s.m) != 0, "matrix.singular", "exactly singular matrix inverted without an error"); }
  { R S = sym(r, n); S(n - 1, n - 1) = -1 - fabsl(S(n - 1, n - 1)); MX a(S), s(n, n, 0); VCHECK(a.m.Chol(s.m, r.b()) != 0, "matrix.notpd", "Cholesky of a matrix with a negative diagonal succeeded"); }
  { R Q = rnd(r, n, m); MX a(Q); double f = 0, o = 0, i1 = 0, mx = 0; for (int j = 0; j < m; j++) { double s = 0; for (int i = 0; i < n; i++) { double x = std::fabs((double)Q(i, j)); f += x * x; s += x; mx = std::max(mx, x); } o = std::max(o, s); } for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < m; j++) s += std::fabs((double)Q(i, j)); i1 = std::max(i1, s); }
    VEQ(a.m.Norm('F'), std::sqrt(f), "matrix.Norm", 1e-12, 0, "F"); VEQ(a.m.Norm('O'), o, "matrix.Norm", 1e-12, 0, "one"); VEQ(a.m.Norm('I'), i1, "matrix.Norm", 1e-12, 0, "inf"); VEQ(a.m.Norm('M'), mx, "matrix.Norm", 1e-12, 0, "max"); }
}

static void svd(Rng &r) {
  int n = r.b(0.06) ? r.i(8, 24) : r.i(1, 7), m = r.b(0.06) ? r.i(8, 24) : r.i(1, 7), mn = std::min(n, m); R A = r.b(0.2) ? rndint(r, n, m, -1, 1) : rnd(r, n, m); char jU = r.pick({'A', 'S', 'N'}), jV = r.pick({'A', 'S', 'N'});
  Mon::self()->distinct(fmt("svd %d %d %c%c", n, m, jU, jV));
  MX a(A); MatrixSvd<Tv> s(n, m, jU, jV); Buf st(s.StorageSize, fillOf(r.i(0, 3))), wk(s.WorkSize, fillOf(r.i(0, 3))); s.Calculate(a.m, st, wk);
  std::vector<ref::L> w; R V; ref::jacobi(n < m ? A * A.t() : A.t() * A, w, V);
  for (int i = 0; i < mn; i++) { VEQ(s.S.Data[i], (double)sqrtl(w[i] > 0 ? w[i] : 0), "matrix.svd.S", 1e-8, 2e-8, fmt("singular value %d", i)); if (i) VCHECK(s.S.Data[i] <= s.S.Data[i - 1], "matrix.svd.S", "not descending"); }
  R U, VT;
  if (jU != 'N') { U = R::fromCol(s.U.Data, n, mn); R g = U.t() * U; MX gm(g); VSAME(gm.m, R::eye(mn), 1e-10, "matrix.svd.U", "U not orthonormal"); }
  if (jV != 'N') { R full = R::fromCol(s.VT.Data, m, m); VT = full.sub(0, 0, mn, m); R g = VT * VT.t(); MX gm(g); VSAME(gm.m, R::eye(mn), 1e-10, "matrix.svd.VT", "VT not orthonormal"); }
  if (jU != 'N' && jV != 'N') { R S(mn, mn); for (int i = 0; i < mn; i++) S(i, i) = s.S.Data[i]; MX p(U * S * VT); VSAME(p.m, A, 1e-9, "matrix.svd.product", "U*S*VT != A"); }
  unchanged(a, A, "svd");
}

static void accesses(Rng &r) {
  Mon &M = *Mon::self(); int n = r.i(1, 6), k = r.i(1, 6); R A = rnd(r, n, k); M.distinct(fmt("acc %d %d", n, k));
  MX a(A); int i = r.i(0, n - 1), j = r.i(0, k - 1); double v = r.n();
  VCHECK(a.m.Get(i, j) == (double)A(i, j) && a.m.Get0(i, j) == (double)A(i, j) && a.m.Get(j * n + i) == (double)A(i, j), "matrix.Get", "Get(%d,%d)", i, j);
  VCHECK(throws([&] { a.m.Get(n, j); }) && throws([&] { a.m.Get(i, k); }) && throws([&] { a.m.Get(-1, j); }) && throws([&] { a.m.Get(i, -1); }) && throws([&] { a.m.Get(n * k); }) && throws([&] { a.m.Get(-1); }), "matrix.bounds", "Get out of range accepted for %dx%d", n, k);
  VCHECK(throws([&] { a.m.Set(n, j, 0); }) && throws([&] { a.m.Set(i, k, 0); }) && throws([&] { a.m.Set(-1, j, 0); }) && throws([&] { a.m.Set(i, -1, 0); }) && throws([&] { a.m.Set(n * k, 0); }) && throws([&] { a.m.Set_Plus(n, j, 1); }) && throws([&] { a.m.Set_Minus(i, k, 1); }), "matrix.bounds", "Set out of range accepted for %dx%d", n, k);
  VCHECK(throws([&] { a.m.SetRow(n, 1.0); }) && throws([&] { a.m.SetColumn(k, 1.0); }) && throws([&] { a.m.SetRow(-1, 1.0); }), "matrix.bounds", "row/column out of range accepted");
  unchanged(a, A, "refused access changed the matrix");
  { MX b(A); R e = A; b.m.Set(i, j, v); e(i, j) = v; b.m.Set_Plus(i, j, 2); e(i, j) = (double)(e(i, j)) + 2; b.m.Set_Minus(i, j, 5); e(i, j) = (double)e(i, j) - 5; VSAME(b.m, e, 0, "matrix.Set", "Set/Plus/Minus"); int ri, ci; b.m.TranslateIndex(j * n + i, ri, ci); VCHECK(ri == i && ci == j, "matrix.TranslateIndex", "index"); }
  VCHECK(a.m.First() == (double)A(0, 0), "matrix.First", "First"); VCHECK(a.m.Last() == (double)A(n - 1, k - 1), "matrix.Last", "Last");
  { R row = rnd(r, 1, k), col = rnd(r, n, 1); MX b(A), x(row), y(col); R e = A; b.m.SetRow(i, x.m); for (int q = 0; q < k; q++) e(i, q) = row(0, q); VSAME(b.m, e, 0, "matrix.SetRow", "SetRow"); b.m.SetColumn(j, y.m); for (int q = 0; q < n; q++) e(q, j) = col(q, 0); VSAME(b.m, e, 0, "matrix.SetColumn", "SetColumn");
    b.m.SetRow(i, 3.5); for (int q = 0; q < k; q++) e(i, q) = 3.5; b.m.SetColumn(j, -2); for (int q = 0; q < n; q++) e(q, j) = -2; b.m.SetRow_plus(i, 1); for (int q = 0; q < k; q++) e(i, q) += 1; b.m.SetRow_minus(i, 4); for (int q = 0; q < k; q++) e(i, q) -= 4; b.m.SetColumn_plus(j, 8); for (int q = 0; q < n; q++) e(q, j) += 8; b.m.SetColumn_minus(j, 2); for (int q = 0; q < n; q++) e(q, j) -= 2; VSAME(b.m, e, 1e-15, "matrix.SetRowColumnValue", "set/plus/minus");
    MX gr(1, k, NANV), gc(n, 1, NANV); b.m.GetRow(i, gr.m); b.m.GetColumn(j, gc.m); R er(1, k), ec(n, 1); for (int q = 0; q < k; q++) er(0, q) = b(i, q); for (int q = 0; q < n; q++) ec(q, 0) = b(q, j); VSAME(gr.m, er, 0, "matrix.GetRow", "GetRow"); VSAME(gc.m, ec, 0, "matrix.GetColumn", "GetColumn"); }
  { // rows/columns taken from another matrix with a different shape
    int n2 = n + r.i(0, 3), k2 = k + r.i(0, 3); R S = rnd(r, n2, k2); MX b(A), s(S); R e = A; int si = r.i(0, n2 - 1); b.m.SetRowFromRow(i, s.m, si); for (int q = 0; q < k; q++) e(i, q) = S(si, q); VSAME(b.m, e, 0, "matrix.SetRowFromRow", "from %dx%d", n2, k2); int sj = r.i(0, k2 - 1); b.m.SetColumnFromColumn(j, s.m, sj); for (int q = 0; q < n; q++) e(q, j) = S(q, sj); VSAME(b.m, e, 0, "matrix.SetColumnFromColumn", "from %dx%d into %dx%d", n2, k2, n, k);
    R S2 = rnd(r, r.i(1, 5), n); MX s2(S2); int q2 = r.i(0, S2.r - 1); b.m.SetColumnFromRow(j, s2.m, q2); for (int q = 0; q < n; q++) e(q, j) = S2(q2, q); VSAME(b.m, e, 0, "matrix.SetColumnFromRow", "into %dx%d", n, k);
    R D = rnd(r, n, n); MX d(D); b.m.SetColumnFromDiag(j, d.m); for (int q = 0; q < n; q++) e(q, j) = D(q, q); VSAME(b.m, e, 0, "matrix.SetColumnFromDiag", "diag"); R D2 = rnd(r, k, k); MX d2(D2); b.m.SetRowFromDiag(i, d2.m); for (int q = 0; q < k; q++) e(i, q) = D2(q, q); VSAME(b.m, e, 0, "matrix.SetRowFromDiag", "diag"); MX gd(n, 1, NANV); d.m.GetDiag(gd.m); R ed(n, 1); for (int q = 0; q < n; q++) ed(q, 0) = D(q, q); VSAME(gd.m, ed, 0, "matrix.GetDiag", "diag"); }
  { // sub-blocks
    int r0 = r.i(0, n - 1), c0 = r.i(0, k - 1), rc = r.i(1, n - r0), cc = r.i(1, k - c0); MX g(rc, cc, NANV); a.m.GetSub(r0, c0, rc, cc, g.m); VSAME(g.m, A.sub(r0, c0, rc, cc), 0, "matrix.GetSub", "block");
    R S = rnd(r, rc + 2, cc + 3); int sr = r.i(0, 2), sc = r.i(0, 3); MX b(A), s(S); b.m.SetSub(r0, c0, s.m, sr, sc, rc, cc); R e = A; for (int p = 0; p < rc; p++) for (int q = 0; q < cc; q++) e(r0 + p, c0 + q) = S(sr + p, sc + q); VSAME(b.m, e, 0, "matrix.SetSub", "block"); R St = S.t(); MX b2(A), s2(St); b2.m.SetSub_t(r0, c0, s2.m, sc, sr, rc, cc); VSAME(b2.m, e, 0, "matrix.SetSub_t", "transposed block");
    VCHECK(throws([&] { b.m.SetSub(r0, c0, s.m, 0, 0, n - r0 + 1, cc); }) && throws([&] { b.m.SetSub(r0, c0, s.m, 0, 0, rc, k - c0 + 1); }) && throws([&] { a.m.GetSub(r0, c0, n - r0 + 1, cc, g.m); }), "matrix.bounds", "out-of-range block accepted");
    std::vector<int> ri, ci; int a1 = r.i(1, n), a2 = r.i(1, k); auto pr = r.perm(n), pc = r.perm(k); ri.assign(pr.begin(), pr.begin() + a1); ci.assign(pc.begin(), pc.begin() + a2); MX g2(a1, a2, NANV); a.m.GetSub(ri, ci, g2.m); R e2(a1, a2); for (int p = 0; p < a1; p++) for (int q = 0; q < a2; q++) e2(p, q) = A(ri[p], ci[q]); VSAME(g2.m, e2, 0, "matrix.GetSub-index", "rows and columns by index");
    MX g3(rc, a2, NANV); a.m.GetSub(r0, rc, ci, true, g3.m); R e3(rc, a2); for (int p = 0; p < rc; p++) for (int q = 0; q < a2; q++) e3(p, q) = A(r0 + p, ci[q]); VSAME(g3.m, e3, 0, "matrix.GetSub-index", "rows range, columns by index"); MX g4(a1, cc, NANV); a.m.GetSub(c0, cc, ri, false, g4.m); R e4(a1, cc); for (int p = 0; p < a1; p++) for (int q = 0; q < cc; q++) e4(p, q) = A(ri[p], c0 + q); VSAME(g4.m, e4, 0, "matrix.GetSub-index", "columns range, rows by index");
    if (a2 < k) { std::vector<int> keep; for (int q = 0; q < k; q++) if (std::find(ci.begin(), ci.end(), q) == ci.end()) keep.push_back(q); MX g5(rc, (int)keep.size(), NANV); a.m.GetSub(r0, rc, ci, true, g5.m, 0, 0, true); R e5(rc, keep.size()); for (int p = 0; p < rc; p++) for (size_t q = 0; q < keep.size(); q++) e5(p, q) = A(r0 + p, keep[q]); VSAME(g5.m, e5, 0, "matrix.GetSub-exclude", "excluding columns"); }
    if (a1 < n) { std::vector<int> keep; for (int q = 0; q < n; q++) if (std::find(ri.begin(), ri.end(), q) == ri.end()) keep.push_back(q); MX g5((int)keep.size(), cc, NANV); a.m.GetSub(c0, cc, ri, false, g5.m, 0, 0, true); R e5(keep.size(), cc); for (size_t p = 0; p < keep.size(); p++) for (int q = 0; q < cc; q++) e5(p, q) = A(keep[p], c0 + q); VSAME(g5.m, e5, 0, "matrix.GetSub-exclude", "excluding rows"); } }
  { int len = r.i(2, 8), s0 = r.i(0, len - 1), ct = r.i(1, len - s0); R V = rnd(r, len, 1), W = rnd(r, len, 1); MX x(V), y(W); int d0 = r.i(0, len - ct); y.m.SetSubVector(d0, x.m, s0, ct); R e = W; for (int p = 0; p < ct; p++) e(d0 + p, 0) = V(s0 + p, 0); VSAME(y.m, e, 0, "matrix.SetSubVector", "vector"); MX z(ct, 1, NANV); x.m.GetSubVector(s0, ct, z.m, 0); VSAME(z.m, V.sub(s0, 0, ct, 1), 0, "matrix.GetSubVector", "vector"); }
  { int cs = r.i(0, k - 1), ln = r.i(1, k - cs); R row = rnd(r, 1, ln); MX b(A), x(row); b.m.SetSubRow(i, cs, x.m, ln); R e = A; for (int q = 0; q < ln; q++) e(i, cs + q) = row(0, q); VSAME(b.m, e, 0, "matrix.SetSubRow", "row part"); }
  { MX c(n, k, NANV), d(n, k, NANV); a.m.CopyTo(c.m); VSAME(c.m, A, 0, "matrix.Copy", "CopyTo"); d.m.CopyFrom(a.m); VSAME(d.m, A, 0, "matrix.Copy", "CopyFrom"); VCHECK(a.m.Equals(c.m), "matrix.Equals", "a copy is not equal"); MX q(A); q.b[r.i(0, n * k - 1)] += 0.3; VCHECK(!a.m.Equals(q.m, 0.0) && !a.m.Equals(q.m, 0.2) && a.m.Equals(q.m, 0.31), "matrix.Equals", "difference of 0.3 misjudged"); q.b[0] = NANV; VCHECK(!a.m.Equals(q.m, 1.0), "matrix.Equals", "NaN equal to a number"); MX q2(1, 1, NANV), q3(1, 1, NANV); VCHECK(!q2.m.Equals(q3.m) && q2.m.Equals(q3.m, 0, true, true), "matrix.Equals", "NaN==NaN option"); }
  { // ordering
    auto pr = r.perm(n), pc = r.perm(k); MX s(n, k, NANV), t(n, k, NANV); a.m.SortRowsBy(s.m, pr); R e(n, k), f(n, k); for (int p = 0; p < n; p++) for (int q = 0; q < k; q++) { e(p, q) = A(pr[p], q); f(p, q) = A(p, pc[q]); } VSAME(s.m, e, 0, "matrix.SortRowsBy", "rows"); a.m.SortColumnsBy(t.m, pc); VSAME(t.m, f, 0, "matrix.SortColumnsBy", "cols"); bool asc = r.b(); MX u(n, k, NANV); a.m.Sort(u.m, asc); R g = A; for (int q = 0; q < k; q++) { std::vector<ref::L> c; for (int p = 0; p < n; p++) c.push_back(A(p, q)); std::sort(c.begin(), c.end()); if (!asc) std::reverse(c.begin(), c.end()); for (int p = 0; p < n; p++) g(p, q) = c[p]; } VSAME(u.m, g, 0, "matrix.Sort", "each column sorted");
    R V = rndint(r, r.i(1, 9), 1, -2, 2); MX v(V); std::vector<int> ix; v.m.SortIndicesVector(ix, asc); std::vector<int> ee(V.r); for (int p = 0; p < V.r; p++) ee[p] = p; std::stable_sort(ee.begin(), ee.end(), [&](int x, int y) { return asc ? V(x, 0) < V(y, 0) : V(x, 0) > V(y, 0); }); VCHECK(ix == ee, "matrix.SortIndices", "got %s expected %s", str(ix).c_str(), str(ee).c_str()); MX w(V.r, 1, NANV); v.m.SortByVector(w.m, ix); R es(V.r, 1); for (int p = 0; p < V.r; p++) es(p, 0) = V(ee[p], 0); VSAME(w.m, es, 0, "matrix.SortByVector", "by vector"); }
  { // fills
    MX f(n, k, NANV); f.m.SetValue(2.5); R e(n, k, 2.5); VSAME(f.m, e, 0, "matrix.SetValue", "value"); f.m.SetSequence(1, 0.5); for (int q = 0; q < n * k; q++) e.d[q] = 1 + 0.5 * q; VSAME(f.m, e, 1e-15, "matrix.SetSequence", "seq"); MX d(n, n, NANV); d.m.SetValueDiag(3, -1); VCHECK(Matrix<Tv>::IsDiagonal(d.m, 3, -1), "matrix.IsDiagonal", "diag"); R ed(n, n, -1); for (int q = 0; q < n; q++) ed(q, q) = 3; VSAME(d.m, ed, 0, "matrix.SetValueDiag", "diag"); d.m.SetValueDiag(7); d.m.SetValueOffDiag(2); for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) ed(p, q) = p == q ? 7 : 2; VSAME(d.m, ed, 0, "matrix.SetValueDiag", "diag/offdiag"); MX g(n, n, NANV); Matrix<Tv>::Diagonal(g.m, 1.5, 0.25); for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) ed(p, q) = p == q ? 1.5 : 0.25; VSAME(g.m, ed, 0, "matrix.Diagonal", "Diagonal"); if (n > 1) { g.b[1] += 0.1; VCHECK(!Matrix<Tv>::IsDiagonal(g.m, 1.5, 0.25), "matrix.IsDiagonal", "off-diagonal change unnoticed"); }
    MX s(n, n, NANV); s.m.SetValue(0); int up = r.i(0, 1); int len = n * (n + 1) / 2; R el = rnd(r, len, 1); MX x(el); Matrix<Tv>::MakeTriangular(s.m, x.m, up, true, true); int c = 0; R es(n, n); for (int p = 0; p < n; p++) for (int q = p; q < n; q++) { es(p, q) = el(c, 0); if (up == 0) es(q, p) = el(c, 0); c++; } VSAME(s.m, es, 0, "matrix.MakeTriangular", "n=%d up=%d", n, up);
    if (n > 1) { MX s2(n, n, 0); R el2 = rnd(r, n * (n - 1) / 2, 1); MX x2(el2); Matrix<Tv>::MakeTriangular(s2.m, x2.m, up, false, true); c = 0; R e2(n, n); for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { e2(p, q) = el2(c, 0); if (up == 0) e2(q, p) = el2(c, 0); c++; } VSAME(s2.m, e2, 0, "matrix.MakeTriangular", "no diagonal n=%d up=%d", n, up); } }
  { MatrixSym<true> s(n); Buf d(s.length_array(), NANV); s.SetData(0.0, d, n); MatrixSym<false> s2(n); Buf d2(s2.length_array(), 0); s2.SetData(d2.p, n); R e(n, n); for (int p = 0; p < n; p++) for (int q = p; q < n; q++) { double x = r.n(); bool sw = r.b(); e(p, q) = e(q, p) = x; s.Set(sw ? q : p, sw ? p : q, x); if (p != q) s2.Set(sw ? q : p, sw ? p : q, x); } for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) { VCHECK(s.Get(p, q) == (double)e(p, q), "matrix.MatrixSym", "with diagonal (%d,%d) n=%d", p, q, n); if (p != q) VCHECK(s2.Get(p, q) == (double)e(p, q), "matrix.MatrixSym", "without diagonal (%d,%d) n=%d", p, q, n); } VCHECK(throws([&] { s.Get(n, 0); }) && throws([&] { s.Set(0, n, 1); }) && throws([&] { s2.Get(0, 0); }), "matrix.bounds", "MatrixSym out of range accepted"); }
  { // restructure keeps data, refuses a different size
    MX b(A); b.m.Restructure(k, n); VCHECK(b.m.RowsCount == k && b.m.ColsCount == n && b.b.vec() == A.vec(), "matrix.Restructure", "data changed"); VCHECK(throws([&] { b.m.Restructure(k + 1, n); }), "matrix.bounds", "Restructure to a different size accepted"); }
  { std::vector<double> cb; for (double *p = a.m.ColBegin(j); p != a.m.ColEnd(j); ++p) cb.push_back(*p); VCHECK(cb == A.col(j).vec(), "matrix.iterators", "column iterator"); std::vector<double> rb; for (auto p = a.m.RowBegin(i); p != a.m.RowEnd(i); ++p) rb.push_back(*p); VCHECK(rb == A.t().col(i).vec(), "matrix.iterators", "row iterator"); }
}

static void stats(Rng &r) {
  int n = r.i(1, 12), k = r.i(1, 5); bool nans = r.b(); bool sample = r.b(); R A = r.b(0.3) ? rndint(r, n, k, -2, 2) : rnd(r, n, k); double off = r.pick({0.0, 0.0, 100.0, -1000.0}); for (auto &x : A.d) x = (double)(x + off); if (nans) for (auto &x : A.d) if (r.b(0.25)) x = NANV;
  Mon::self()->distinct(fmt("stat %d %d %d %d", n, k, nans, sample));
  MX a(A); MX mm(k, 1, 1e300), vv(k, 1, 1e300), m2(k, 1, 1e300), v2(k, 1, 1e300);
  auto isn = [](ref::L x) { return std::isnan((double)x); };
  a.m.ColumnsMeans(mm.m, true); a.m.ColumnsVariances(vv.m, sample, true); a.m.ColumnsMeansVariances(m2.m, v2.m, sample, true);
  std::vector<double> all;
  auto mv = [&](const std::vector<double> &x, double &me, double &va) { ref::L s = 0, q = 0; for (double t : x) s += t; s /= x.size(); for (double t : x) q += (t - s) * (t - s); me = (double)s; va = x.size() < 2 && sample ? NANV : (double)(q / (sample ? x.size() - 1 : x.size())); };
  double tol = 1e-11, at = 1e-11 * (1 + off * off);
  for (int j = 0; j < k; j++) {
    std::vector<double> x; for (int i = 0; i < n; i++) if (!isn(A(i, j))) x.push_back((double)A(i, j));
    all.insert(all.end(), x.begin(), x.end());
    if (x.empty()) continue;
    double me, va; mv(x, me, va); if (n == 1) va = NANV;
    VEQ(mm.b[j], me, "matrix.mean-nan", tol, at, fmt("column mean, %zu of %d present", x.size(), n)); VEQ(m2.b[j], me, "matrix.mean-nan", tol, at, "column mean (2)");
    VEQ(vv.b[j], va, "matrix.variance-nan", 1e-9, at, "column variance"); VEQ(v2.b[j], va, "matrix.variance-nan", 1e-9, at, "column variance (2)");
    double m3; int c3; double v3 = a.m.VarianceColumn(j, m3, c3, sample, true); VEQ(m3, me, "matrix.VarianceColumn", tol, at, "mean"); VEQ(v3, va, "matrix.VarianceColumn", 1e-9, at, "var"); if (n > 1) VCHECK(c3 == (int)x.size(), "matrix.VarianceColumn", "count");
    if ((int)x.size() == n) { double m4; double v4 = Matrix<Tv>(a.m.ColBegin(j), n).Variance(m4, sample, false); VEQ(m4, me, "matrix.mean", tol, at, "mean"); VEQ(v4, va, "matrix.variance", 1e-9, at, "var"); VEQ(Matrix<Tv>(a.m.ColBegin(j), n).Mean(), me, "matrix.mean", tol, at, "mean"); }
    for (int l = 0; l < k; l++) {
      std::vector<double> p, q; for (int i = 0; i < n; i++) if (!isn(A(i, j)) && !isn(A(i, l))) { p.push_back((double)A(i, j)); q.push_back((double)A(i, l)); }
      if (p.size() < 2 || n == 1) continue;
      ref::L mp = 0, mq = 0, c = 0, vp = 0, vq = 0; for (size_t z = 0; z < p.size(); z++) { mp += p[z]; mq += q[z]; } mp /= p.size(); mq /= p.size(); for (size_t z = 0; z < p.size(); z++) { c += (p[z] - mp) * (q[z] - mq); vp += (p[z] - mp) * (p[z] - mp); vq += (q[z] - mq) * (q[z] - mq); }
      double d = sample ? p.size() - 1 : p.size(), ma, mb, va1, vb1; int ct;
      VEQ(a.m.CovarianceColumn(j, l, ma, mb, ct, sample, true), (double)(c / d), "matrix.Covariance", 1e-9, at, "cov"); VEQ(ma, (double)mp, "matrix.Covariance", tol, at, "mean1"); VEQ(mb, (double)mq, "matrix.Covariance", tol, at, "mean2"); VCHECK(ct == (int)p.size(), "matrix.Covariance", "count");
      if (vp > 1e-6 && vq > 1e-6) { VEQ(a.m.CorrelationColumn(j, l, ma, mb, va1, vb1, ct, sample, true), (double)(c / sqrtl(vp * vq)), "matrix.Correlation", 1e-8, 1e-8 * (1 + off * off), "corr"); VEQ(va1, (double)(vp / d), "matrix.Correlation", 1e-9, at, fmt("var1 used %zu of %d", p.size(), n)); VEQ(vb1, (double)(vq / d), "matrix.Correlation", 1e-9, at, "var2"); VCHECK(ct == (int)p.size(), "matrix.Correlation", "count"); if ((int)p.size() == n) VEQ(a.m.CorrelationColumn(j, l, ma, mb, va1, vb1, ct, sample, false), (double)(c / sqrtl(vp * vq)), "matrix.Correlation", 1e-8, 1e-8 * (1 + off * off), "corr no nan"); }
    }
  }
  if (!all.empty() && n * k > 1) { double me, va, m5; mv(all, me, va); VEQ(a.m.Mean(true), me, "matrix.mean-nan", tol, at, "overall mean"); if (all.size() > 1) VEQ(a.m.Variance(m5, sample, true), va, "matrix.variance-nan", 1e-9, at, "overall variance"); }
  if (!nans) {
    double s = 0, mx = -INFINITY, mi = INFINITY; int p1 = 0, p2 = 0; for (int q = 0; q < n * k; q++) { double x = (double)A.d[q]; s += x; if (x > mx) { mx = x; p1 = q; } if (x < mi) { mi = x; p2 = q; } }
    VEQ(a.m.Sum(), (double)A.sum(), "matrix.Sum", 1e-11, 1e-9, "sum"); VCHECK(a.m.Maximum() == mx && a.m.Minimum() == mi, "matrix.minmax", "got %g %g expected %g %g", a.m.Maximum(), a.m.Minimum(), mx, mi);
    int ri, ci; VCHECK(a.m.max(ri, ci) == mx && A(ri, ci) == mx, "matrix.minmax", "max position"); VCHECK(a.m.min(ri, ci) == mi && A(ri, ci) == mi, "matrix.minmax", "min position"); (void)p1; (void)p2;
    int i = r.i(0, n - 1), j = r.i(0, k - 1); auto best = [&](bool row, bool mxm, int &pos) { double b = mxm ? -INFINITY : INFINITY; pos = -1; for (int q = 0; q < (row ? k : n); q++) { double x = (double)(row ? A(i, q) : A(q, j)); if (mxm ? x > b : x < b) { b = x; pos = q; } } return b; };
    int pos, got; double b = best(true, true, pos); VCHECK(a.m.MaximumInRow(i, got) == b && got == pos, "matrix.minmax", "MaximumInRow"); b = best(true, false, pos); VCHECK(a.m.MinimumInRow(i, got) == b && got == pos, "matrix.minmax", "MinimumInRow"); b = best(false, true, pos); VCHECK(a.m.MaximumInColumn(j, got) == b && got == pos, "matrix.minmax", "MaximumInColumn"); b = best(false, false, pos); VCHECK(a.m.MinimumInColumn(j, got) == b && got == pos, "matrix.minmax", "MinimumInColumn");
    std::vector<int> ci2 = r.perm(k); ci2.resize(r.i(1, k)); int q = ci2.size(); MX s1(q, 1, NANV), s2(q, 1, NANV), s3(q, q, NANV); a.m.ColumnsSum(s1.m, ci2); a.m.ColumnsMean(s2.m, ci2); std::vector<int> ci3 = ci2; if (n > 1) a.m.ColumnsVariance(s3.m, ci3, sample); for (int x = 0; x < q; x++) { ref::L t = 0; for (int z = 0; z < n; z++) t += A(z, ci2[x]); VEQ(s1.b[x], (double)t, "matrix.ColumnsSum", 1e-11, 1e-9, "sum"); VEQ(s2.b[x], (double)(t / n), "matrix.ColumnsMean", 1e-11, 1e-9, "mean"); if (n > 1) for (int y = 0; y < q; y++) { ref::L u = 0, c = 0; for (int z = 0; z < n; z++) u += A(z, ci2[y]); for (int z = 0; z < n; z++) c += (A(z, ci2[x]) - t / n) * (A(z, ci2[y]) - u / n); VEQ(s3(x, y), (double)(c / (sample ? n - 1 : n)), "matrix.ColumnsVariance", 1e-9, at, "covariance matrix"); } }
    std::vector<int> ri2 = r.perm(n); ri2.resize(r.i(1, n)); MX s4(ri2.size(), 1, NANV); a.m.RowsSum(s4.m, ri2); for (size_t x = 0; x < ri2.size(); x++) { ref::L t = 0; for (int z = 0; z < k; z++) t += A(ri2[x], z); VEQ(s4.b[x], (double)t, "matrix.RowsSum", 1e-11, 1e-9, "row sum"); }
    if (n == k) { ref::L t = 0; for (int z = 0; z < n; z++) t += A(z, z); VEQ(a.m.Trace(), (double)t, "matrix.Trace", 1e-12, 1e-9, "trace"); }
  }
}

static void missing(Rng &r) {
  Mon &M = *Mon::self(); int n = r.i(1, 9), k = r.i(1, 5); double pn = r.pick({0.0, 0.1, 0.3, 0.6}); bool infs = r.b(0.3); R A = rnd(r, n, k); for (auto &x : A.d) { if (r.b(pn)) x = NANV; else if (infs && r.b(0.1)) x = r.b() ? INFINITY : -INFINITY; }
  auto isn = [](ref::L x) { return std::isnan((double)x); }; auto bad = [&](ref::L x, bool inf) { return isn(x) || (inf && std::isinf((double)x)); };
  int nn = 0; for (auto x : A.d) nn += isn(x); M.distinct(fmt("mis %d %d %d %d", n, k, nn, infs)); MX a(A);
  VCHECK(a.m.HasNaN() == (nn > 0), "matrix.HasNaN", "HasNaN"); VCHECK(a.m.Any(NANV) == (nn > 0) && a.m.All(NANV) == (nn == n * k), "matrix.Any", "Any/All NaN");
  { double v = (double)A.d[r.i(0, n * k - 1)]; if (!std::isnan(v)) { std::vector<int> ix, e; a.m.IndicesOfVector(v, ix); for (int q = 0; q < n * k; q++) if ((double)A.d[q] == v) e.push_back(q); VCHECK(ix == e && a.m.Any(v) && a.m.All(v) == ((int)e.size() == n * k), "matrix.IndicesOf", "value"); } std::vector<int> ix, e; a.m.IndicesOfVector(NANV, ix); for (int q = 0; q < n * k; q++) if (isn(A.d[q])) e.push_back(q); VCHECK(ix == e, "matrix.IndicesOf", "NaN indices"); }
  bool ci = r.b(); std::vector<int> cols = r.perm(k); cols.resize(r.i(1, k));
  { std::vector<int> g, g2, e, e2; a.m.GetAnyNanRow(g, ci); a.m.GetAnyNanRow(g2, ci, &cols); for (int i = 0; i < n; i++) { bool b1 = false, b2 = false; for (int j = 0; j < k; j++) b1 |= bad(A(i, j), ci); for (int j : cols) b2 |= bad(A(i, j), ci); if (!b1) e.push_back(i); if (!b2) e2.push_back(i); } VCHECK(g == e && g2 == e2, "matrix.complete-rows", "complete rows"); }
  bool anyMissing = false; int lo = 0, hi = INT32_MAX; bool allOk = true;
  for (int j = 0; j < k; j++) { int s = 0, e = n - 1; while (s < n && isn(A(s, j))) s++; while (e >= 0 && isn(A(e, j))) e--; bool hm; IndexRange g = a.m.GetRangeColumn(hm, j); if (s <= e) { bool h = false; for (int i = s; i <= e; i++) h |= isn(A(i, j)); VCHECK(g.StartIndex == s && g.EndIndex == e && hm == h, "matrix.GetRangeColumn", "column range got %d-%d expected %d-%d", g.StartIndex, g.EndIndex, s, e); anyMissing |= h; lo = std::max(lo, s); hi = std::min(hi, e); } else { VCHECK(g.IsNotValid(), "matrix.GetRangeColumn", "empty column gives a range"); allOk = false; } }
  for (int i = 0; i < n; i++) { int s = 0, e = k - 1; while (s < k && isn(A(i, s))) s++; while (e >= 0 && isn(A(i, e))) e--; bool hm; IndexRange g = a.m.GetRangeRow(hm, i); if (s <= e) { bool h = false; for (int q = s; q <= e; q++) h |= isn(A(i, q)); VCHECK(g.StartIndex == s && g.EndIndex == e && hm == h, "matrix.GetRangeRow", "row range"); } else VCHECK(g.IsNotValid(), "matrix.GetRangeRow", "empty row gives a range"); }
  if (allOk) { bool h; IndexRange g = a.m.GetRange(h); if (lo <= hi) VCHECK(g.StartIndex == lo && g.EndIndex == hi && h == anyMissing, "matrix.GetRange", "common range got %d-%d expected %d-%d", g.StartIndex, g.EndIndex, lo, hi); else VCHECK(g.IsNotValid(), "matrix.GetRange", "no common range, got %d-%d", g.StartIndex, g.EndIndex); }
  { // interpolation: end points kept, interior filled linearly, nothing else touched
    auto lin = [&](std::vector<ref::L> v, int &cnt) { cnt = 0; int q = v.size(); for (int i = 0; i < q; i++) if (isn(v[i])) { int p = i - 1, z = i; while (z < q && isn(v[z])) z++; if (p < 0 || z >= q) { i = z; continue; } for (int t = i; t < z; t++) { v[t] = v[p] + (v[z] - v[p]) * (ref::L)(t - p) / (ref::L)(z - p); cnt++; } i = z; } return v; };
    if (!infs) { int j = r.i(0, k - 1), c, ec; MX b(A); std::vector<ref::L> v; for (int i = 0; i < n; i++) v.push_back(A(i, j)); auto ev = lin(v, ec); b.m.InterpolateColumn(c, j); R e = A; for (int i = 0; i < n; i++) e(i, j) = ev[i]; VSAME(b.m, e, 1e-12, "matrix.InterpolateColumn", "column"); VCHECK(c == ec, "matrix.InterpolateColumn", "count got %d expected %d", c, ec); int i = r.i(0, n - 1); MX b2(A); v.clear(); for (int q = 0; q < k; q++) v.push_back(A(i, q)); ev = lin(v, ec); b2.m.InterpolateRow(c, i); R e2 = A; for (int q = 0; q < k; q++) e2(i, q) = ev[q]; VSAME(b2.m, e2, 1e-12, "matrix.InterpolateRow", "row"); VCHECK(c == ec, "matrix.InterpolateRow", "count"); } }
  { MX b(A); b.m.RemoveNanVector_in(ci); std::vector<double> e; for (auto x : A.d) if (!bad(x, ci)) e.push_back((double)x); VCHECK(std::vector<double>(b.m.Data, b.m.Data + b.m.length()) == e, "matrix.RemoveNanVector_in", "vector"); MX b2(A); b2.m.RemoveColumnsAnyNan_in(ci); R e2(n, 0); int cc = 0; std::vector<double> ed; for (int j = 0; j < k; j++) { bool h = false; for (int i = 0; i < n; i++) h |= bad(A(i, j), ci); if (!h) { cc++; for (int i = 0; i < n; i++) ed.push_back((double)A(i, j)); } } VCHECK(b2.m.ColsCount == cc && b2.m.RowsCount == n && std::vector<double>(b2.m.Data, b2.m.Data + b2.m.length()) == ed, "matrix.RemoveColumnsAnyNan", "columns");
    MX b3(A); b3.m.RemoveColumnsIn(cols); ed.clear(); for (int j = 0; j < k; j++) if (std::find(cols.begin(), cols.end(), j) == cols.end()) for (int i = 0; i < n; i++) ed.push_back((double)A(i, j)); VCHECK(b3.m.ColsCount == k - (int)cols.size() && vm::close(std::vector<double>(b3.m.Data, b3.m.Data + b3.m.length()), ed, 0, 0), "matrix.RemoveColumnsIn", "columns");
    int good = n * k - nn; Matrix<Tv> nul; VCHECK(Matrix<Tv>::RemoveNanVector(a.m, nul) == good, "matrix.RemoveNanVector", "count"); MX st(good, 1, 0); if (good) { Matrix<Tv>::RemoveNanVector(a.m, st.m); std::vector<double> e3; for (auto x : A.d) if (!isn(x)) e3.push_back((double)x); VCHECK(st.b.vec() == e3, "matrix.RemoveNanVector", "values"); } }
}

static void dataset(Rng &r) {
  Mon &M = *Mon::self(); int n = r.i(1, 9), k = r.i(1, 5); double pn = r.pick({0.0, 0.1, 0.3}); R A = rnd(r, n, k); for (auto &x : A.d) if (r.b(pn)) x = NANV; auto isn = [](ref::L x) { return std::isnan((double)x); };
  bool hn = r.b(0.7), sel = r.b(); if (!hn) for (auto &x : A.d) if (isn(x)) x = 1; std::vector<int> cols = r.perm(k); cols.resize(r.i(1, k)); std::vector<int> all; for (int j = 0; j < k; j++) all.push_back(j); const auto &use = sel ? cols : all; M.distinct(fmt("ds %d %d %d %d %zu", n, k, hn, sel, use.size()));
  { MX a(A); Dataset<Tv> d(n, k, hn, sel); Buf st(d.StorageSize, fillOf(r.i(0, 3))); d.Calculate(a.m, sel ? &cols : nullptr, st); std::vector<int> rows; for (int i = 0; i < n; i++) { bool h = false; for (int j : use) h |= isn(A(i, j)); if (!h) rows.push_back(i); } R e(rows.size(), use.size()); for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < use.size(); j++) e(i, j) = A(rows[i], use[j]); VSAME(d.Result, e, 0, "dataset.complete-rows", "hasNan=%d select=%d", hn, sel); unchanged(a, A, "Dataset changed its input"); }
  // time series: the longest window without leading/trailing missing observations in the used variables
  for (int byRow = 0; byRow < 2; byRow++) {
    R B = byRow ? A.t() : A; // variables are the k dimension
    // the class requires every variable to have data
    for (int j = 0; j < k; j++) { bool any = false; for (int i = 0; i < n; i++) any |= !isn(A(i, j)); if (!any) return; }
    int lo = 0, hi = n - 1; if (hn) { lo = 0; hi = INT32_MAX; for (int j : use) { int s = 0, e = n - 1; while (isn(A(s, j))) s++; while (isn(A(e, j))) e--; lo = std::max(lo, s); hi = std::min(hi, e); } } if (lo > hi) return;
    std::vector<int> mis; for (int j = 0; j < k && hn; j++) { int s = 0, e = n - 1; while (isn(A(s, j))) s++; while (isn(A(e, j))) e--; for (int i = s; i <= e; i++) if (isn(A(i, j))) { mis.push_back(j); break; } }
    MX b(B); R e(byRow ? (int)use.size() : hi - lo + 1, byRow ? hi - lo + 1 : (int)use.size()); for (int i = lo; i <= hi; i++) for (size_t j = 0; j < use.size(); j++) (byRow ? e(j, i - lo) : e(i - lo, j)) = A(i, use[j]);
    auto go = [&](auto &d, bool again) { Buf st(d.StorageSize, fillOf(r.i(0, 3))); d.Data(b.m); d.Update(sel ? &cols : nullptr, st); VSAME(d.Result, e, 0, "dataset.ts", "byRow=%d hasNan=%d select=%d", byRow, hn, sel); if (sel || hn) VCHECK(d.Start == lo && d.End == hi, "dataset.ts-range", "range"); VCHECK(!hn || (d.HasMissingData == !mis.empty()), again ? "dataset.ts-missing-reuse" : "dataset.ts-missing", "HasMissingData"); std::vector<int> g; for (auto &t : d.WithMissingIndexes) g.push_back(std::get<0>(t)); VCHECK(g == mis, again ? "dataset.ts-missing-reuse" : "dataset.ts-missing", "indices of variables with missing data: %s expected %s", str(g).c_str(), str(mis).c_str()); d.Update(sel ? &cols : nullptr, nullptr); VCHECK(d.Result.RowsCount == e.r && d.Result.ColsCount == e.c, "dataset.ts", "size-only update"); };
    if (byRow) { DatasetTs<true> d(k, n, hn, sel); go(d, false); go(d, true); } else { DatasetTs<false> d(n, k, hn, sel); go(d, false); go(d, true); }
  }
}

static void standardized(Rng &r) {
  int n = r.i(2, 9), k = r.i(1, 5); bool rz = r.b(), ce = r.b(0.8), sc = r.b(0.8), sample = r.b(), nan = r.b(0.4); if (!ce && !sc) ce = true; R A = rnd(r, n, k); for (int j = 0; j < k; j++) if (r.b(0.25)) for (int i = 0; i < n; i++) A(i, j) = 2; if (nan) for (auto &x : A.d) if (r.b(0.2)) x = NANV;
  auto isn = [](ref::L x) { return std::isnan((double)x); }; Mon::self()->distinct(fmt("std %d %d %d%d%d%d%d", n, k, rz, ce, sc, sample, nan));
  std::vector<ref::L> me(k), va(k); std::vector<int> cnt(k); for (int j = 0; j < k; j++) { ref::L s = 0, q = 0; int c = 0; for (int i = 0; i < n; i++) if (!isn(A(i, j))) { s += A(i, j); c++; } if (c < 2) throw Skip(); s /= c; for (int i = 0; i < n; i++) if (!isn(A(i, j))) q += (A(i, j) - s) * (A(i, j) - s); me[j] = s; va[j] = q / (sample ? c - 1 : c); cnt[j] = c; }
  bool om = r.b(0.25), ov = r.b(0.25); std::vector<double> dm(k), dv(k); for (int j = 0; j < k; j++) { dm[j] = r.n(); dv[j] = r.b(0.2) ? 0 : r.u(0.5, 2); } Buf bm(dm), bv(dv); Matrix<Tv> mm(bm.p, k, 1), mv(bv.p, k, 1);
  MX a(A); MatrixStandardized<Tv> s(n, k, rz, ce, sc); s.Sample = sample; s.CheckNan = nan; Buf st(s.StorageSize, fillOf(r.i(0, 3))); if (r.b(0.4)) { R Z = rnd(r, n, k); for (int j = 0; j < k; j++) if (r.b(0.3)) for (int i = 0; i < n; i++) Z(i, j) = 5; MX z(Z); s.Calculate(z.m, st, r.b(0.3) ? &mm : nullptr, nullptr); Mon::self()->count("standardized_again"); } s.Calculate(a.m, st, om ? &mm : nullptr, ov ? &mv : nullptr); unchanged(a, A, "MatrixStandardized changed its input");
  std::vector<int> rem; R e(n, k); int c = 0; std::vector<std::vector<ref::L>> colsv;
  for (int j = 0; j < k; j++) { ref::L m = om ? dm[j] : me[j], v = ov ? dv[j] : va[j]; std::vector<ref::L> x(n); for (int i = 0; i < n; i++) { x[i] = A(i, j); if (ce) x[i] -= m; if (sc) x[i] = v == 0 ? (ref::L)NANV : x[i] / sqrtl(v); } if (rz && sc && v == 0) { rem.push_back(j); continue; } colsv.push_back(x); c++; }
  R ee(n, c); for (int j = 0; j < c; j++) for (int i = 0; i < n; i++) ee(i, j) = colsv[j][i]; VSAME(s.Result, ee, 1e-9, "dataset.standardized", "center=%d scale=%d removeZero=%d nan=%d", ce, sc, rz, nan); if (rz && sc) VCHECK(s.RemovedZeroVar == rem, "dataset.standardized-removed", "removed columns");
  if (ce && !om) for (int j = 0; j < k; j++) VEQ(s.ColumnMeans.Data[j], (double)me[j], "dataset.standardized-mean", 1e-10, 1e-12, "mean"); if (sc && !ov) for (int j = 0; j < k; j++) VEQ(s.ColumnVars.Data[j], (double)va[j], "dataset.standardized-var", 1e-9, 1e-12, "variance");
}

// elements, comparisons, searches and texts of matrices of any element type
template <class T> static void valuesOf(Rng &r) {
  bool fl = std::is_floating_point<T>(); int n = r.i(0, 6), k = r.i(0, 6); if (r.b(0.3)) k = 1; size_t N = (size_t)n * k; auto rv = [&]() -> T { if (r.b(0.4)) return (T)r.i(-2, 2); return fl ? (T)r.n() : (T)r.i(-50, 50); }; Mon::self()->distinct(fmt("values %d %dx%d", (int)fl, n, k));
  std::vector<T> v(N); T same = rv(); bool cst = r.b(0.2); for (auto &x : v) x = cst ? same : rv(); double pn = fl && r.b(0.4) ? r.pick({0.1, 0.5, 1.0}) : 0; for (auto &x : v) if (pn && r.b(pn)) x = (T)NAN; T *raw = (T *)malloc(N * sizeof(T) + (N == 0)); for (size_t i = 0; i < N; i++) raw[i] = v[i]; auto eq = [](T a, T b) { return a == b || (a != a && b != b); };
  Matrix<T> m(raw, n, k); const char *ty = fl ? "double" : "int"; VCHECK(m.RowsCount == n && m.ColsCount == k && m.length() == (int)N && m.IsEmpty() == (N == 0) && m.IsVector() == (k == 1), "values.size", "%s %dx%d", ty, n, k); VCHECK(m.begin() == raw && m.end() == raw + N, "values.iterator", "%s %dx%d begin and end", ty, n, k);
  if (N) { int i = r.i(0, n - 1), j = r.i(0, k - 1); int q = 0; for (auto it = m.RowBegin(i); it != m.RowEnd(i); ++it, q++) VCHECK(&*it == raw + i + (size_t)q * n, "values.iterator", "%s row %d element %d", ty, i, q); VCHECK(q == k, "values.iterator", "row %d: %d elements of %d", i, q, k); q = 0; for (auto it = m.RowBegin(i); !(it == m.RowEnd(i)); q++) { T *at = raw + i + (size_t)q * n; auto old = it++; VCHECK(&*old == at && (q == k - 1 || &*it == at + n), "values.iterator", "postfix at %d", q); } VCHECK(m.ColBegin(j) == raw + (size_t)j * n && m.ColEnd(j) == raw + (size_t)(j + 1) * n, "values.iterator", "column %d", j);
    std::vector<T> c(v); Matrix<T> w(&c, n, k); VCHECK(w.RowsCount == n && w.ColsCount == k && w.Data == &c[0], "values.constructor", "vector %dx%d", n, k); if (r.b()) { Matrix<T> z(&c); VCHECK(z.RowsCount == (int)N && z.ColsCount == 1 && z.Data == &c[0], "values.constructor", "vector %zu", N); Matrix<T> u(same, c, n, k); for (auto x : c) VCHECK(eq(x, same), "values.constructor", "fill of vector"); c = v; Matrix<T> u2(same, &c[0], n, k); for (auto x : c) VCHECK(eq(x, same), "values.constructor", "fill"); c = v; }
    // elements of vectors
    auto thr = [](auto f) { try { f(); return false; } catch (std::exception &) { return true; } }; int a = r.i(-2, n + 1); T nv = rv(); if (k == 1) { if (a >= 0 && a < n) { VCHECK(eq(m.GetVector(a), v[a]), "values.vector", "GetVector %d of %d", a, n); w.SetVector(a, nv); for (int z = 0; z < n; z++) VCHECK(eq(c[z], z == a ? nv : v[z]), "values.vector", "SetVector %d changes element %d", a, z); c[a] = v[a]; } else VCHECK(thr([&] { m.GetVector(a); }) && thr([&] { w.SetVector(a, nv); }), "values.bounds", "element %d of vector of %d", a, n); } else VCHECK(thr([&] { m.GetVector(0); }) && thr([&] { w.SetVector(0, nv); }), "values.bounds", "vector of %dx%d", n, k);
    int f = r.i(-3, (int)N + 2); if (f >= 0 && f < (int)N) { VCHECK(eq(m.Get(f), v[f]), "values.get", "Get %d", f); w.Set(f, nv); for (size_t z = 0; z < N; z++) VCHECK(eq(c[z], (int)z == f ? nv : v[z]), "values.set", "Set %d changes %zu", f, z); c[f] = v[f]; } else VCHECK(thr([&] { m.Get(f); }) && thr([&] { w.Set(f, nv); }), "values.bounds", "element %d of %zu", f, N);
    // comparisons
    T e = fl ? (T)r.pick({0.0, 1e-8, 0.5, 3.0}) : (T)r.pick({0, 1, 5}), b = r.b(0.6) ? v[r.i(0, (int)N - 1)] : rv(); bool ne = r.b(), ig = r.b(); auto all = [&](const T *x, int len) { if (b != b && ig) return true; for (int z = 0; z < len; z++) { if (x[z] != x[z] && ig) continue; bool xn = x[z] != x[z], bn = b != b; if (xn || bn) { if (!(xn && bn && ne)) return false; } else if (std::fabs((double)x[z] - (double)b) > (double)e) return false; } return true; };
    VCHECK(m.EqualsValue(b, e, ne, ig) == all(raw, (int)N), "values.equals-value", "%s %dx%d value %g epsilon %g nans %d ignore %d", ty, n, k, (double)b, (double)e, ne, ig); VCHECK(m.EqualsValueColumn(j, b, e, ne, ig) == all(raw + (size_t)j * n, n), "values.equals-value", "%s column %d", ty, j); Mon::self()->count("equal_values");
    size_t z = r.i(0, (int)N - 1); if (r.b(0.5)) { c[z] = r.b(0.3) ? rv() : (T)(c[z] + (fl ? (T)r.pick({0.25, -0.25, 1e-12, 1.0, -4.0}) : (T)r.pick({1, -1, -4}))); } bool want = true; double dl = 0; for (size_t q2 = 0; q2 < N && want; q2++) { bool xn = v[q2] != v[q2], yn = c[q2] != c[q2]; if (xn || yn) { if (!(xn && yn && ne)) { want = false; dl = NAN; } } else { dl = std::fabs((double)c[q2] - (double)v[q2]); if (dl > (double)e) want = false; } } T d = (T)-7; bool got = m.Equals(w, d, e, r.b(), ne); VCHECK(got == want && (want || eq(d, (T)dl)), "values.equals", "%s %dx%d epsilon %g: %d, difference %g instead of %g", ty, n, k, (double)e, got, (double)d, dl); VCHECK(m.Equals(w, e, false, ne) == want && m.Equals(m, e), "values.equals", "%s", ty); Mon::self()->count("equals");
    if (n != k) { Matrix<T> o(&c[0], k, n); VCHECK(!m.Equals(o, e, false) && thr([&] { m.Equals(o, e, true); }), "values.equals", "sizes"); } c = v;
    // searches
    T x = r.b(0.6) ? v[r.i(0, (int)N - 1)] : rv(); std::vector<int> ix, ex; for (size_t q2 = 0; q2 < N; q2++) if (eq(v[q2], x)) ex.push_back((int)q2); m.IndicesOfVector(x, ix); VCHECK(ix == ex && m.Any(x) == !ex.empty() && m.All(x) == (ex.size() == N), "values.search", "%s %dx%d value %g: %zu of %zu", ty, n, k, (double)x, ix.size(), ex.size()); Mon::self()->count("searches");
    // texts
    if (pn == 0) { char cs = r.pick({'\t', ';', ','}), rs = r.pick({'\n', '|'}); int pr = r.i(0, 17); std::string head = fmt("Tw Matrix<Tw> (%d x %d)", n, k), t; for (int q2 = 0; q2 < n; q2++) { if (q2) t += rs; for (int w2 = 0; w2 < k; w2++) { if (w2) t += cs; t += fl ? fmt("%.*f", pr, (double)v[q2 + (size_t)n * w2]) : fmt("%d", (int)v[q2 + (size_t)n * w2]); } } VCHECK(m.ToString(cs, rs, pr) == head + rs + t && m.ToString0(cs, rs, pr) == t, "values.text", "%s %dx%d: %s", ty, n, k, m.ToString0(cs, rs, pr).substr(0, 100).c_str());
      std::string R = m.ToString_R_Matrix(17, r.i(1, 40), "data <- ", r.b()), pre = "data <- matrix(c("; VCHECK(R.compare(0, pre.size(), pre) == 0, "values.text-r", "%s", R.substr(0, 60).c_str()); const char *at = R.c_str() + pre.size(); char *end; for (size_t q2 = 0; q2 < N; q2++) { double val = strtod(at, &end); VCHECK(end != at && std::fabs(val - (double)v[q2]) <= 1e-16 + 1e-15 * std::fabs((double)v[q2]), "values.text-r", "element %zu is %g instead of %g", q2, val, (double)v[q2]); at = end; while (*at == ' ' || *at == '\n') at++; VCHECK(*at == (q2 + 1 < N ? ',' : ')'), "values.text-r", "separator %c", *at); at++; while (*at == '\n' || *at == ' ') at++; } std::string tail = at; VCHECK(tail.find(fmt("nrow=%d, ncol=%d)", n, k)) != std::string::npos && tail[0] == ',', "values.text-r", "%s", tail.c_str()); Mon::self()->count("texts"); }
    // owner of elements
    VMatrix<T> vm0(n, k); VCHECK((int)vm0.Vec.size() == (int)N && vm0.Mat.RowsCount == n && vm0.Mat.ColsCount == k && vm0.Mat.Data == &vm0.Vec[0], "values.owner", "%dx%d", n, k); VMatrix<T> vm1(v, r.b() ? n : -1, k); VCHECK(vm1.Mat.RowsCount == n && vm1.Mat.ColsCount == k && vm1.Mat.Data == &vm1.Vec[0], "values.owner", "%dx%d", n, k); for (size_t q2 = 0; q2 < N; q2++) VCHECK(eq(vm1.Mat.Data[q2], v[q2]), "values.owner", "element %zu", q2); VCHECK(thr([&] { VMatrix<T> b2(v, n + 1, k); }) && (N % (k + 1) == 0 || thr([&] { VMatrix<T> b2(v, -1, k + 1); })), "values.owner", "wrong size of %dx%d is accepted", n, k); vm1.Vec.assign(N, same); vm1.Vec.reserve(N + 100); vm1.Sync(); VCHECK(vm1.Mat.Data == &vm1.Vec[0], "values.owner", "Sync"); }
  else { VCHECK(m.ToString0() == "", "values.text", "empty"); std::vector<T> none; Matrix<T> z(&none); VCHECK(z.RowsCount == 0 && z.length() == 0, "values.constructor", "empty vector"); }
  for (size_t i = 0; i < N; i++) VCHECK(eq(raw[i], v[i]), "values.changed", "%s element %zu is changed", ty, i); free(raw);
}
static void symValues(Rng &r) {
  int n = r.i(1, 7); auto go = [&](auto &m, Buf &b, bool dg) { int N = dg ? n * (n + 1) / 2 : n * (n - 1) / 2; for (int i = 0; i < N; i++) b[i] = r.b(0.3) ? NANV : r.b(0.6) ? r.i(-1, 1) : r.n(); if (r.b(0.2)) { double c = r.b() ? NANV : 3; for (int i = 0; i < N; i++) b[i] = c; } double x = r.b(0.3) || !N ? NANV : r.b() ? b[r.i(0, N - 1)] : 3; auto eq = [](double a, double c) { return a == c || (std::isnan(a) && std::isnan(c)); }; int c = 0; for (int i = 0; i < N; i++) c += eq(b[i], x); VCHECK(m.length_array() == N && m.Any(x) == (c > 0) && m.All(x) == (c == N), "values.symmetric", "%d rows, diagonal %d, value %g: %d of %d", n, dg, x, c, N);
    std::string t = fmt("sym Tw Matrix (%d x %d)", n, n) + "|"; for (int i = 0; i < n; i++) { if (i) t += "|"; for (int j = 0; j < n; j++) { if (j) t += ";"; double v = i == j && !dg ? NANV : m.Get(i, j); t += std::isnan(v) ? "nan" : fmt("%.3f", v); } } std::string g = m.ToString(';', '|', 3); for (size_t q; (q = g.find("-nan")) != std::string::npos;) g.erase(q, 1); VCHECK(g == t, "values.symmetric-text", "%s", g.substr(0, 80).c_str()); Mon::self()->count("symmetric_values"); };
  Buf b1((size_t)n * (n + 1) / 2), b2((size_t)n * (n - 1) / 2); MatrixSym<true, Tv> m1(b1.p, n); go(m1, b1, true); MatrixSym<false, Tv> m2(b2.p, n); go(m2, b2, false);
}
static void triangular(Rng &r) {
  int n = r.i(1, 7), up = r.i(-1, 1); bool dg = r.b(), row = r.b(); int N = dg ? n * (n + 1) / 2 : n * (n - 1) / 2; if (N == 0) return; R e = rnd(r, N, 1), s0 = rnd(r, n, n); MX el(e), st(s0); bool ok = (up >= 0) == row; Mon::self()->distinct(fmt("tri %d %d%d%d", n, up, dg, row)); bool t = false; try { Matrix<Tv>::MakeTriangular(st.m, el.m, up, dg, row); } catch (std::exception &) { t = true; } VCHECK(t != ok, "values.triangular", "up %d diag %d byrow %d", up, dg, row);
  R w = s0; if (ok) { int q = 0; for (int i = 0; i < n; i++) for (int j = i + (dg ? 0 : 1); j < n; j++, q++) { if (up >= 0) w(i, j) = e(q, 0); if (up <= 0) w(j, i) = e(q, 0); } } VSAME(st.m, w, 0, "values.triangular", "%d up %d diag %d byrow %d", n, up, dg, row); unchanged(el, e, "MakeTriangular"); MX bad(N + 1, 1), rect(n, n + 1); t = false; try { Matrix<Tv>::MakeTriangular(st.m, bad.m, up, dg, row); } catch (std::exception &) { t = true; } bool t2 = false; try { Matrix<Tv>::MakeTriangular(rect.m, el.m, up, dg, row); } catch (std::exception &) { t2 = true; } VCHECK(t && t2, "values.triangular", "wrong size is accepted"); Mon::self()->count("triangular");
}
static void fills(Rng &r) {
  int n = r.i(1, 8), k = r.i(1, 8); unsigned sd = r.i(1, 1 << 30); MX a(n, k, NANV), b(n, k, 5), c(n, k); double lo = r.u(-5, 5), hi = lo + r.u(0.1, 4), me = r.u(-5, 5); Matrix<Tv>::FillRandom_uniform(a.m, sd, lo, hi); Matrix<Tv>::FillRandom_uniform(b.m, sd, lo, hi); Matrix<Tv>::FillRandom_uniform(c.m, sd + 1, lo, hi); VCHECK(vm::close(a.b.vec(), b.b.vec(), 0, 0) && !vm::close(a.b.vec(), c.b.vec(), 0, 0), "values.random", "seed"); for (size_t i = 0; i < a.b.n; i++) VCHECK(a.b[i] >= lo && a.b[i] <= hi, "values.random", "%g in %g %g", a.b[i], lo, hi);
  Matrix<Tv>::FillRandom_normal(a.m, sd, me, 1); Matrix<Tv>::FillRandom_normal(b.m, sd, me, 1); Matrix<Tv>::FillRandom_normal(c.m, 0, me, 1); VCHECK(vm::close(a.b.vec(), b.b.vec(), 0, 0) && !vm::close(a.b.vec(), c.b.vec(), 0, 0), "values.random", "seed"); for (size_t i = 0; i < a.b.n; i++) VCHECK(std::fabs(a.b[i] - me) < 9 && std::fabs(c.b[i] - me) < 9, "values.random", "%g mean %g", a.b[i], me);
  int *q = (int *)malloc(sizeof(int) * n * k); Matrix<int> im(q, n, k); int l = r.i(-5, 5), h = l + r.i(0, 6); Matrix<int>::FillRandom_uniform(im, sd, l, h); for (int i = 0; i < n * k; i++) VCHECK(q[i] >= l && q[i] <= h, "values.random", "%d in %d %d", q[i], l, h); free(q); Mon::self()->count("fills");
}
// statistics of columns that are known to have no missing value, of tiny columns, and default selections
static void columns(Rng &r) {
  int n = r.i(0, 6), k = r.i(1, 5); bool sample = r.b(), nan = r.b(); R A = rnd(r, n, k); double off = r.b(0.2) ? 1e3 : 0; for (auto &x : A.d) x = (double)(x + off); MX a(A); int p = r.i(0, k - 1), q = r.i(0, k - 1); Mon::self()->distinct(fmt("columns %d %d %d%d", n, k, sample, nan)); auto mean = [&](int j) { ref::L s = 0; for (int i = 0; i < n; i++) s += A(i, j); return n ? s / n : (ref::L)NAN; }; ref::L mp = mean(p), mq = mean(q), vp = 0, vq = 0, c = 0; for (int i = 0; i < n; i++) { vp += (A(i, p) - mp) * (A(i, p) - mp); vq += (A(i, q) - mq) * (A(i, q) - mq); c += (A(i, p) - mp) * (A(i, q) - mq); } ref::L d = n < 2 ? (ref::L)NAN : sample ? n - 1 : n; double at = 1e-11 * (1 + off * off);
  double m1 = -7, m2 = -7, v1 = -7, v2 = -7; int ct = -7; double v = a.m.VarianceColumn(p, m1, ct, sample, nan); VEQ(v, (double)(vp / d), "columns.variance", 1e-9, at, fmt("%d rows check %d", n, nan)); VEQ(m1, (double)mp, "columns.mean", 1e-12, 1e-12, fmt("%d rows check %d", n, nan)); VCHECK(ct == n, "columns.count", "variance: %d of %d", ct, n);
  ct = -7; v = a.m.CovarianceColumn(p, q, m1, m2, ct, sample, nan); VEQ(v, (double)(c / d), "columns.covariance", 1e-9, at, fmt("%d rows check %d", n, nan)); VEQ(m1, (double)mp, "columns.mean", 1e-12, 1e-12, "covariance 1"); VEQ(m2, (double)mq, "columns.mean", 1e-12, 1e-12, "covariance 2"); VCHECK(ct == n, "columns.count", "covariance: %d of %d", ct, n);
  ct = n; m1 = m2 = -7; v = a.m.CorrelationColumn(p, q, m1, m2, v1, v2, ct, sample, nan); if (n < 2) VCHECK(std::isnan(v) && std::isnan(v1) && std::isnan(v2), "columns.correlation", "%d rows: %g %g %g", n, v, v1, v2); else { VEQ(v, (double)(c / sqrtl(vp * vq)), "columns.correlation", 1e-7, 1e-8 * (1 + off * off), fmt("%d rows check %d", n, nan)); VEQ(v1, (double)(vp / d), "columns.variance", 1e-9, at, "correlation 1"); VEQ(v2, (double)(vq / d), "columns.variance", 1e-9, at, "correlation 2"); } VEQ(m1, (double)mp, "columns.mean", 1e-12, 1e-12, "correlation 1"); VEQ(m2, (double)mq, "columns.mean", 1e-12, 1e-12, "correlation 2"); VCHECK(ct == n, "columns.count", "correlation: %d of %d", ct, n);
  for (int w = 0; w < 2; w++) { bool t = false; int j = r.pick({-1, k, k + 3}); try { w ? a.m.CovarianceColumn(p, j, m1, m2, ct, sample, nan) : a.m.CorrelationColumn(j, q, m1, m2, v1, v2, ct, sample, nan); } catch (std::exception &) { t = true; } VCHECK(t, "columns.bounds", "column %d of %d", j, k); }
  if (n) { std::vector<int> i1, i2, i3, i4; MX s1(n, 1, NANV), s2(k, 1, NANV), s3(k, 1, NANV), s4(k, k, NANV); a.m.RowsSum(s1.m, i1); a.m.ColumnsSum(s2.m, i2); a.m.ColumnsMean(s3.m, i3); for (int i = 0; i < n; i++) { ref::L s = 0; for (int j = 0; j < k; j++) s += A(i, j); VEQ(s1.b[i], (double)s, "columns.default", 1e-12, 1e-12 * (1 + off), "row sum"); } for (int j = 0; j < k; j++) { VEQ(s2.b[j], (double)(mean(j) * n), "columns.default", 1e-12, 1e-11 * (1 + off), "column sum"); VEQ(s3.b[j], (double)mean(j), "columns.default", 1e-12, 1e-12, "column mean"); } if (n > 1) { a.m.ColumnsVariance(s4.m, i4, sample); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { ref::L s = 0; for (int z = 0; z < n; z++) s += (A(z, i) - mean(i)) * (A(z, j) - mean(j)); VEQ(s4(i, j), (double)(s / d), "columns.default", 1e-9, at, "covariance"); } } }
  unchanged(a, A, "column statistics"); Mon::self()->count("columns");
}
// Householder factors: R above the diagonal, reflectors below it
static void qr(Rng &r) {
  int n = r.i(1, 8), k = r.i(1, 8), q = std::min(n, k); R A = rnd(r, n, k); MX a(A); Buf tau(q, fillOf(r.i(0, 3))); int info = a.m.QR0(tau.p); VCHECK(info == 0, "qr", "info %d", info); R Rm(n, k); for (int j = 0; j < k; j++) for (int i = 0; i <= std::min(j, n - 1); i++) Rm(i, j) = a(i, j); for (int h = q - 1; h >= 0; h--) { R v(n, 1); v(h, 0) = 1; for (int i = h + 1; i < n; i++) v(i, 0) = a(i, h); R w = v.t() * Rm; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) Rm(i, j) -= (ref::L)tau[h] * v(i, 0) * w(0, j); } MX b(A); VSAME(b.m, Rm, 1e-11, "qr", "%dx%d", n, k); Mon::self()->count("qr");
  MX c(A), Q(n, n), S(k, k); bool t = false; try { c.m.QR(Q.m, S.m); } catch (std::exception &) { t = true; } VCHECK(t, "qr", "an operation that is not implemented returns%s", "");
}
static void values(Rng &r) { if (r.b()) valuesOf<double>(r); else valuesOf<int>(r); if (r.b(0.3)) symValues(r); if (r.b(0.3)) triangular(r); if (r.b(0.2)) fills(r); }

int main(int c, char **v) {
  Mon m(c, v);
  m.section("products", 4000, 80000, products); m.section("elementwise", 1500, 30000, elementwise); m.section("decomp", 4000, 80000, decomp); m.section("svd", 2000, 40000, svd);
  m.section("access", 4000, 80000, accesses); m.section("stats", 4000, 80000, stats); m.section("missing", 4000, 80000, missing); m.section("dataset", 4000, 80000, dataset); m.section("standardized", 3000, 60000, standardized);
  m.section("values", 8000, 160000, values); m.section("columns", 6000, 120000, columns); m.section("qr", 2000, 40000, qr);
  return m.done();
}
