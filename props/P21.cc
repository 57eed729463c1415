#include "common.h"
typedef std::vector<double> Vec;
static Vec values(Src& s, size_t n, bool ints) { Vec v(n); for (double& x : v) x = ints ? (double)s.i0(-9, 9) : s.rs(-10, 10); return v; }
static const double PAD = 7.125e77;
// storage is of the exact size the routine may touch (address sanitizer), padding cells hold PAD and must keep it
PBT_SUB(normal, 60000, 2000000) {
  int m = (int)s.i(0, 30), nl = (int)s.i(1, 20), n = (int)s.i(1, nl); bool ints = s.b(); Vec a = values(s, (size_t)m * nl, ints), l = values(s, m, ints); for (int i = 0; i < m; i++) for (int j = n; j < nl; j++) a[i * nl + j] = PAD;
  s.note("m %d n %d of %d%s", m, n, nl, ints ? " integers" : ""); if (m && n < nl) s.nontrivial(); s.label(n < nl ? "padded" : "plain"); Vec a0 = a, l0 = l, t((size_t)(n - 1) * nl + n, PAD), u(n, PAD);
  ata(a.data(), t.data(), m, n, nl); atl(u.data(), a.data(), l.data(), m, n, nl); PBT_CHECK(a == a0 && l == l0, "inputs changed");
  for (int i = 0; i < n; i++) { LD w = 0; for (int k = 0; k < m; k++) w += (LD)a[k * nl + i] * l[k]; PBT_CHECK(close(u[i], (double)w, ints ? 0 : 1e-10), "row %d of A'l is %.15g, got %.15g", i, (double)w, u[i]);
    for (int j = 0; j < nl; j++) { size_t at = (size_t)i * nl + j; if (at >= t.size()) break; if (j >= n) { PBT_CHECK(t[at] == PAD, "cell (%d,%d) behind A'A written", i, j); continue; } LD q = 0; for (int k = 0; k < m; k++) q += (LD)a[k * nl + i] * a[k * nl + j]; PBT_CHECK(close(t[at], (double)q, ints ? 0 : 1e-10), "A'A(%d,%d) is %.15g, got %.15g", i, j, (double)q, t[at]); } }
}
PBT_SUB(product, 60000, 2000000) {
  int m = (int)s.i(1, 12), nl = (int)s.i(1, 12), n = (int)s.i(1, nl), k = s.b() ? 1 : (int)s.i(1, 6), ml = m + (int)s.i(0, 6); bool ints = s.b(); Vec b = values(s, (size_t)(m - 1) * nl + n, ints), c = values(s, (size_t)n * k, ints), a((size_t)m * k, PAD);
  for (int i = 0; i < m; i++) for (int j = n; j < nl; j++) if ((size_t)i * nl + j < b.size()) b[i * nl + j] = PAD; Vec b0 = b, c0 = c; s.note("%dx%d of %dx%d times %dx%d", m, n, ml, nl, n, k); if (n < nl || k > 1) s.nontrivial(); s.label(k > 1 ? "matrix" : "vector");
  matmul(a.data(), b.data(), c.data(), m, n, k, ml, nl); PBT_CHECK(b == b0 && c == c0, "inputs changed");
  for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { LD q = 0; for (int x = 0; x < n; x++) q += (LD)b[i * nl + x] * c[x * k + j]; PBT_CHECK(close(a[i * k + j], (double)q, ints ? 0 : 1e-10), "cell (%d,%d) is %.15g, got %.15g", i, j, (double)q, a[i * k + j]); }
}
PBT_SUB(inverse, 60000, 2000000) {
  int nl = (int)s.i(1, 20), n = (int)s.i(1, nl); bool spd = s.b(); Vec a((size_t)(n - 1) * nl + n, PAD); auto at = [&](int i, int j) -> double& { return a[(size_t)i * nl + j]; };
  if (spd) { int m = n + (int)s.i(2, 10); Vec x = values(s, (size_t)m * n, false); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double q = i == j ? .5 : 0; for (int k = 0; k < m; k++) q += x[k * n + i] * x[k * n + j]; at(i, j) = q; } s.label("symmetric"); }
  else { for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) if (j != i) { at(i, j) = s.rs(-5, 5); t += fabs(at(i, j)); } at(i, i) = (t + s.r(.5, 10)) * (s.b() ? 1 : -1); } s.label("dominant"); }
  s.note("%dx%d of %d", n, n, nl); if (n > 1) s.nontrivial(); Vec A = a; matinv(a.data(), n, nl); double ma = 0, mi = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ma = std::max(ma, fabs(A[i * nl + j])); mi = std::max(mi, fabs(a[i * nl + j])); }
  for (int i = 0; i < n; i++) for (int j = 0; j < nl; j++) { if ((size_t)i * nl + j >= a.size()) break; if (j >= n) { PBT_CHECK(a[i * nl + j] == PAD, "cell (%d,%d) behind the matrix written", i, j); continue; } LD q = 0; for (int k = 0; k < n; k++) q += (LD)A[i * nl + k] * a[k * nl + j]; PBT_CHECK(close((double)q, i == j, 1e-11 * n * ma * mi * (1 + ma * mi)), "cell (%d,%d) of A times its inverse is %.12g", i, j, (double)q); }
}
PBT_SUB(vectors, 300000, 10000000) {
  double sc = s.one({1., 1e-6, 1e6, 1e3}); V3 a = v3(s.rs(-10, 10), s.rs(-10, 10), s.rs(-10, 10)) * sc, b = s.chance(1, 8) ? a : v3(s.rs(-10, 10), s.rs(-10, 10), s.rs(-10, 10)) * sc; double f = s.rs(-5, 5); if (s.chance(1, 8)) b[s.draw(2)] = a[s.draw(2)]; s.nontrivial(); s.note("(%.12g,%.12g,%.12g) (%.12g,%.12g,%.12g) %g", a[0], a[1], a[2], b[0], b[1], b[2], f);
  V3 A = a, B = b; double o[3], eps = 1e-14; auto eq = [&](V3 e, const char* what, double tol = 0) { for (int k = 0; k < 3; k++) PBT_CHECK(close(o[k], e[k], tol), "%s is (%.15g,%.15g,%.15g), got (%.15g,%.15g,%.15g)", what, e[0], e[1], e[2], o[0], o[1], o[2]); PBT_CHECK(a == A && b == B, "%s changed its input", what); };
  vec_add(a.data(), b.data(), o); eq(a + b, "sum"); vec_subt(a.data(), b.data(), o); eq(a - b, "difference"); vec_scalar_mul(a.data(), f, o); eq(a * f, "multiple"); vec_copy(o, a.data()); eq(a, "copy"); vec_set(o, b[0], b[1], b[2]); eq(b, "set");
  V3 c = cross(a, b); vec_cross(a.data(), b.data(), o); eq(c, "cross product", eps * len(a) * len(b)); PBT_CHECK(close(vec_dot(a.data(), b.data()), dot(a, b), eps * len(a) * len(b)), "dot product %.15g, got %.15g", dot(a, b), vec_dot(a.data(), b.data()));
  PBT_CHECK(close(vec_norm(a.data()), len(a), 0, eps), "norm %.15g, got %.15g", len(a), vec_norm(a.data())); PBT_CHECK(close(vec_diff_norm(a.data(), b.data()), len(a - b), 0, eps), "distance %.15g, got %.15g", len(a - b), vec_diff_norm(a.data(), b.data()));
  unit_vector(a.data(), o); if (len(a) == 0) { eq(a, "unit vector"); s.label("zero vector"); } else eq(a * (1 / len(a)), "unit vector", 1e-14);
  bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; PBT_CHECK(!!vec_cmp(a.data(), b.data()) == same, "comparison says %d", vec_cmp(a.data(), b.data())); if (same) s.label("equal");
  double tol = s.b() ? sc * s.r(0, 15) : 0, d = std::max(std::max(fabs(a[0] - b[0]), fabs(a[1] - b[1])), fabs(a[2] - b[2])); PBT_CHECK(!!vec_approx_cmp(a.data(), b.data(), tol) == (d <= tol), "largest difference %.15g, tolerance %.15g, comparison says %d", d, tol, vec_approx_cmp(a.data(), b.data(), tol));
  // results over their inputs
  o[0] = a[0]; o[1] = a[1]; o[2] = a[2]; vec_add(o, b.data(), o); eq(a + b, "sum in place"); vec_copy(o, a.data()); vec_add(b.data(), o, o); eq(a + b, "sum in place"); vec_copy(o, a.data()); vec_subt(o, b.data(), o); eq(a - b, "difference in place"); vec_copy(o, b.data()); vec_subt(a.data(), o, o); eq(a - b, "difference in place"); vec_copy(o, a.data()); vec_scalar_mul(o, f, o); eq(a * f, "multiple in place"); vec_copy(o, a.data()); unit_vector(o, o); eq(len(a) == 0 ? a : a * (1 / len(a)), "unit vector in place", 1e-14);
  vec_init(o); PBT_CHECK(is_empty(o[0]) && is_empty(o[1]) && is_empty(o[2]), "initialized vector is not empty");
}
