#include "world.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>

namespace sim {

const char *pk_names[] = {"StieBrockett", "GrassRQ", "EucQuadratic", "SPDKarcherMean", "SFRQLyapunov", "FRankQ2FMatCompletion", "FRankEWeightApprox",
                          "CSFRQPhaseRetrieval", "CFRankQ2FBlindDecon2D", "ProdStieSumBrockett", "CStieBrockett", "SphereSparsestVector", "StieSPCA",
                          "FRankESparseApprox", "Ambient", "SphereTxRQ", "LowRank"};
const char *sv_names[] = {"RSD", "RNewton", "RCG", "RBroydenFamily", "RWRBFGS", "RBFGS", "LRBFGS", "RTRSD", "RTRNewton", "RTRSR1", "LRTRSR1",
                          "RGS", "RBFGSSub", "LRBFGSSub", "ManPG", "AManPG"};

bool same(double a, double b) { return (a != a && b != b) || dbits(a) == dbits(b) || a == b; }

// ------------------------------------------------------------------ small dense helpers (independent of the library)
static void gram_schmidt(double *X, int n, int p, int c) {  // c doubles per entry (1 real, 2 complex), column major
  for (int rep = 0; rep < 2; rep++)
    for (int j = 0; j < p; j++) {
      double *xj = X + (size_t)j * n * c;
      for (int k = 0; k < j; k++) {
        double *xk = X + (size_t)k * n * c;
        double re = 0, im = 0;
        for (int i = 0; i < n; i++) {
          if (c == 1) re += xk[i] * xj[i];
          else { re += xk[2 * i] * xj[2 * i] + xk[2 * i + 1] * xj[2 * i + 1]; im += xk[2 * i] * xj[2 * i + 1] - xk[2 * i + 1] * xj[2 * i]; }
        }
        for (int i = 0; i < n; i++) {
          if (c == 1) xj[i] -= re * xk[i];
          else { double a = xk[2 * i], b = xk[2 * i + 1]; xj[2 * i] -= re * a - im * b; xj[2 * i + 1] -= re * b + im * a; }
        }
      }
      double s = 0;
      for (int i = 0; i < n * c; i++) s += xj[i] * xj[i];
      s = std::sqrt(s);
      for (int i = 0; i < n * c; i++) xj[i] /= s;
    }
}
// eigenvalues of a symmetric matrix by cyclic Jacobi
static std::vector<double> eigs(std::vector<double> A, int n) {
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0, dg = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (i == j ? dg : off) += A[i + j * n] * A[i + j * n];
    if (off <= 1e-30 * dg || off == 0) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      double apq = A[p + q * n];
      if (apq == 0) continue;
      double th = (A[q + q * n] - A[p + p * n]) / (2 * apq);
      double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double a = A[k + p * n], b = A[k + q * n]; A[k + p * n] = c * a - s * b; A[k + q * n] = s * a + c * b; }
      for (int k = 0; k < n; k++) { double a = A[p + k * n], b = A[q + k * n]; A[p + k * n] = c * a - s * b; A[q + k * n] = s * a + c * b; }
    }
  }
  std::vector<double> e(n);
  for (int i = 0; i < n; i++) e[i] = A[i + i * n];
  std::sort(e.begin(), e.end());
  return e;
}
// singular values of an m x n real matrix (through the real embedding for complex input handled by the caller)
static std::vector<double> svals(const double *X, int m, int n) {  // one-sided Jacobi
  std::vector<double> A(X, X + (size_t)m * n);
  if (m < n) {
    std::vector<double> T((size_t)m * n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) T[j + (size_t)i * n] = A[i + (size_t)j * m];
    A.swap(T); std::swap(m, n);
  }
  for (int sweep = 0; sweep < 60; sweep++) {
    bool rot = false;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      double a = 0, b = 0, g = 0;
      for (int i = 0; i < m; i++) { double u = A[i + (size_t)p * m], v = A[i + (size_t)q * m]; a += u * u; b += v * v; g += u * v; }
      if (g == 0 || std::fabs(g) <= 1e-16 * std::sqrt(a * b)) continue;
      rot = true;
      double z = (b - a) / (2 * g), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), s = c * t;
      for (int i = 0; i < m; i++) { double u = A[i + (size_t)p * m], v = A[i + (size_t)q * m]; A[i + (size_t)p * m] = c * u - s * v; A[i + (size_t)q * m] = s * u + c * v; }
    }
    if (!rot) break;
  }
  std::vector<double> s(n);
  for (int j = 0; j < n; j++) { double a = 0; for (int i = 0; i < m; i++) a += A[i + (size_t)j * m] * A[i + (size_t)j * m]; s[j] = std::sqrt(a); }
  std::sort(s.begin(), s.end(), [](double a, double b) { return a > b; });
  return s;
}
static std::vector<double> real_embed(const double *X, int n, int p) {
  std::vector<double> R((size_t)2 * n * 2 * p);
  for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) {
    double re = X[2 * (i + j * n)], im = X[2 * (i + j * n) + 1];
    R[i + (size_t)(2 * j) * 2 * n] = re; R[i + n + (size_t)(2 * j) * 2 * n] = im;
    R[i + (size_t)(2 * j + 1) * 2 * n] = -im; R[i + n + (size_t)(2 * j + 1) * 2 * n] = re;
  }
  return R;
}

static int comp_len(const Comp &c) {
  switch (c.k) {
    case CK_EUC: return c.n * (c.p ? c.p : 1);
    case CK_SPHERE: return c.n;
    case CK_SPD: return c.n * c.n;
    case CK_RANKE: return c.n * c.p;
    case CK_CSTIE: case CK_CFACTOR: return 2 * c.n * c.p;
    default: return c.n * c.p;
  }
}
static double comp_infeas(const Comp &c, const double *X, std::string *why) {
  int L = comp_len(c);
  for (int i = 0; i < L; i++) if (!(X[i] - X[i] == 0)) { if (why) *why = "non-finite entry"; return 1e300; }
  switch (c.k) {
    case CK_EUC: return 0;
    case CK_STIE: case CK_GRASS: case CK_SPHERE: {
      int n = c.n, p = c.k == CK_SPHERE ? 1 : c.p;
      double m = 0;
      for (int i = 0; i < p; i++) for (int j = 0; j <= i; j++) {
        double s = 0;
        for (int k = 0; k < n; k++) s += X[k + i * n] * X[k + j * n];
        m = std::max(m, std::fabs(s - (i == j)));
      }
      if (why) *why = "X'X differs from the identity";
      return m;
    }
    case CK_CSTIE: {
      double m = 0; int n = c.n;
      for (int i = 0; i < c.p; i++) for (int j = 0; j <= i; j++) {
        double re = 0, im = 0;
        for (int k = 0; k < n; k++) {
          double a = X[2 * (k + i * n)], b = X[2 * (k + i * n) + 1], e = X[2 * (k + j * n)], f = X[2 * (k + j * n) + 1];
          re += a * e + b * f; im += a * f - b * e;
        }
        m = std::max(m, std::hypot(re - (i == j), im));
      }
      if (why) *why = "X^H X differs from the identity";
      return m;
    }
    case CK_SPD: {
      int n = c.n; double m = 0, nx = 0;
      std::vector<double> A(X, X + n * n);
      for (int i = 0; i < n * n; i++) nx = std::max(nx, std::fabs(A[i]));
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { m = std::max(m, std::fabs(A[i + j * n] - A[j + i * n])); A[i + j * n] = A[j + i * n] = (A[i + j * n] + A[j + i * n]) / 2; }
      if (why) *why = "not symmetric";
      std::vector<double> e = eigs(A, n);
      if (m / nx > (e[0] > 1e-12 * nx ? 1e-4 : 1e-2)) return m / nx;  // symmetric up to rounding in the ill-conditioned products of the retractions
      if (why) *why = "not positive definite";
      if (!(e[0] > -1e-14 * nx)) return 1e100;
      return m / nx * 1e-5;
    }
    case CK_FACTOR: case CK_CFACTOR: {
      std::vector<double> s;
      if (c.k == CK_FACTOR) s = svals(X, c.n, c.p);
      else { std::vector<double> R = real_embed(X, c.n, c.p); s = svals(&R[0], 2 * c.n, 2 * c.p); }
      if (why) *why = "factor is rank deficient";
      if (!(s.back() > 1e-14 * s[0])) return 1e100;
      return 0;
    }
    case CK_RANKE: {
      std::vector<double> s = svals(X, c.n, c.p);
      if (why) *why = "rank differs from the prescribed rank";
      double v = 0;
      if ((int)s.size() > c.r) v = s[c.r] / s[0];
      if (!(s[c.r - 1] > 1e-14 * s[0])) return 1e100;
      return v;
    }
  }
  return 0;
}
std::vector<double> elem_data(const Element &x) {
  const double *p = x.GetSpace();
  std::vector<double> v;
  if (p) v.assign(p, p + x.Getlength());
  return v;
}
u64 hash_elem(const Element &x) {
  const double *p = x.GetSpace();
  u64 h = 1469598103934665603ull;
  if (!p) return 42;
  integer L = x.Getlength();
  for (integer i = 0; i < L; i++) h = fnv(h, p[i] == 0 ? 0 : p[i] != p[i] ? 0x7ff8ull << 48 : dbits(p[i]));
  return h;
}
double spd_cond(const World &w, const Variable &x) {
  const double *p = x.GetSpace();
  double c = 1;
  for (size_t i = 0; p && i < w.comps.size(); i++) {
    if (w.comps[i].k == CK_SPD) {
      std::vector<double> e = eigs(std::vector<double>(p, p + comp_len(w.comps[i])), w.comps[i].n);
      c = std::max(c, e[0] > 0 ? e.back() / e[0] : 1e300);
    }
    p += comp_len(w.comps[i]);
  }
  return c;
}
static bool near_lower_rank(const World &w, const Variable &x) {
  const double *p = x.GetSpace();
  for (size_t i = 0; p && i < w.comps.size(); i++) {
    const Comp &c = w.comps[i];
    std::vector<double> s;
    int k = 0;
    if (c.k == CK_FACTOR) { s = svals(p, c.n, c.p); k = (int)s.size() - 1; }
    else if (c.k == CK_CFACTOR) { std::vector<double> R = real_embed(p, c.n, c.p); s = svals(&R[0], 2 * c.n, 2 * c.p); k = (int)s.size() - 1; }
    else if (c.k == CK_RANKE) { s = svals(p, c.n, c.p); k = c.r - 1; }
    if (!s.empty() && s[k] < 1e-6 * s[0]) return true;
    p += comp_len(c);
  }
  return false;
}
double infeasibility(const World &w, const Variable &x, std::string *why) {
  const double *p = x.GetSpace();
  int tot = 0;
  for (size_t i = 0; i < w.comps.size(); i++) tot += comp_len(w.comps[i]);
  if (!p) { if (why) *why = "point has no data"; return 1e300; }
  if (tot != x.Getlength() && !w.base) { if (why) *why = "point has the wrong size"; return 1e300; }
  double m = 0;
  if (w.base) {  // unit length and tangent at the root
    if (x.Getlength() != w.mani->GetEMPTYEXTR().Getlength()) { if (why) *why = "point has the wrong size"; return 1e300; }
    const Manifold *b = w.base->mani;
    for (integer i = 0; i < x.Getlength(); i++) if (!(p[i] - p[i] == 0)) { if (why) *why = "entry is not finite"; return 1e300; }
    Vector t(x), pr(w.mani->GetEMPTYEXTR());
    b->Projection(w.base->x0, t, &pr);
    double q = b->Metric(w.base->x0, t, t), dif = 0, big = 1;
    const double *pp = pr.ObtainReadData();
    for (integer i = 0; i < x.Getlength(); i++) { dif = std::max(dif, std::abs(pp[i] - p[i])); big = std::max(big, std::abs(p[i])); }
    m = std::max(std::abs(q - 1), dif / big);
    if (why) { char z[120]; snprintf(z, sizeof z, "|x|^2-1 = %.3g, distance to the tangent space %.3g", q - 1, dif); *why = z; }
    return m;
  }
  for (size_t i = 0; i < w.comps.size(); i++) {
    std::string y;
    double v = comp_infeas(w.comps[i], p, &y);
    if (!(v <= m)) { m = v; if (why) *why = y; }
    p += comp_len(w.comps[i]);
  }
  return m;
}

// ------------------------------------------------------------------ building blocks
static void fillg(Element &v, Rng &r) {
  double *p = v.ObtainWriteEntireData();
  for (integer i = 0; i < v.Getlength(); i++) p[i] = r.gauss();
}
static void sym(Element &v, int n) {
  double *p = v.ObtainWriteEntireData();
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double s = p[i + j * n] + p[j + i * n]; p[i + j * n] = p[j + i * n] = s; }
  for (int i = 0; i < n; i++) p[i + i * n] *= 2;
}
static void herm(Element &v, int n) {
  double *p = v.ObtainWriteEntireData();
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
    double re = p[2 * (i + j * n)] + p[2 * (j + i * n)], im = p[2 * (i + j * n) + 1] - p[2 * (j + i * n) + 1];
    p[2 * (i + j * n)] = p[2 * (j + i * n)] = re; p[2 * (i + j * n) + 1] = im; p[2 * (j + i * n) + 1] = -im;
  }
  for (int i = 0; i < n; i++) { p[2 * (i + i * n)] *= 2; p[2 * (i + i * n) + 1] = 0; }
}
static void fill_comp(const Comp &c, double *X, Rng &r) {
  int L = comp_len(c);
  for (int i = 0; i < L; i++) X[i] = r.gauss();
  if (c.k == CK_STIE || c.k == CK_GRASS) gram_schmidt(X, c.n, c.p, 1);
  else if (c.k == CK_SPHERE) gram_schmidt(X, c.n, 1, 1);
  else if (c.k == CK_CSTIE) gram_schmidt(X, c.n, c.p, 2);
  else if (c.k == CK_SPD) {
    int n = c.n;
    std::vector<double> G(X, X + n * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = i == j ? 0.5 : 0; for (int k = 0; k < n; k++) s += G[i + k * n] * G[j + k * n]; X[i + j * n] = s; }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) X[i + j * n] = X[j + i * n];
  }
}
// A = sum of an orthogonally rotated diagonal with entries in [lo,hi]
static std::vector<double> spd_matrix(int n, Rng &r, double lo, double hi) {
  std::vector<double> O((size_t)n * n), A((size_t)n * n, 0.0), d(n);
  for (size_t i = 0; i < O.size(); i++) O[i] = r.gauss();
  gram_schmidt(&O[0], n, n, 1);
  for (int i = 0; i < n; i++) d[i] = lo + (hi - lo) * r.unit();
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A[i + (size_t)j * n] += d[k] * O[i + (size_t)k * n] * O[j + (size_t)k * n];
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A[j + (size_t)i * n] = A[i + (size_t)j * n];
  return A;
}
static Vector vec_of(const std::vector<double> &v, int r, int c) {
  Vector x(r, c);
  double *p = x.ObtainWriteEntireData();
  for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  return x;
}
static Vector diag1(int p) {
  Vector D(p);
  double *d = D.ObtainWriteEntireData();
  for (int i = 0; i < p; i++) d[i] = i + 1;
  return D;
}

Variable make_x0(const World &w, u64 seed) {
  Rng r(seed * 31 + (w.base ? 1000000009 : 7));
  if (w.pk == PK_WEIGHTAPPROX || w.pk == PK_SPARSEAPPROX) {
    Comp c = w.comps[0];
    Vector U(c.n, c.r), V(c.p, c.r), D(c.r, c.r);
    fillg(U, r); fillg(V, r); fillg(D, r);
    double *u = U.ObtainWriteEntireData(), *v = V.ObtainWriteEntireData(), *d = D.ObtainWriteEntireData();
    gram_schmidt(u, c.n, c.r, 1); gram_schmidt(v, c.p, c.r, 1);
    for (int i = 0; i < c.r; i++) d[i + i * c.r] += d[i + i * c.r] >= 0 ? 1.5 : -1.5;
    Vector x(c.n, c.p);
    double *X = x.ObtainWriteEntireData();
    for (int i = 0; i < c.n; i++) for (int j = 0; j < c.p; j++) {
      double s = 0;
      for (int a = 0; a < c.r; a++) for (int b = 0; b < c.r; b++) s += u[i + a * c.n] * d[a + b * c.r] * v[j + b * c.p];
      X[i + j * c.n] = s;
    }
    x.AddToFields("U", U); x.AddToFields("D", D); x.AddToFields("V", V);
    return x;
  }
  Variable x(w.mani->GetEMPTYEXTR());
  double *p = x.ObtainWriteEntireData();
  if (w.base) {
    for (integer i = 0; i < x.Getlength(); i++) p[i] = r.gauss();
    Vector t(x);
    w.base->mani->Projection(w.base->x0, t, &x);
    double q = std::sqrt(w.base->mani->Metric(w.base->x0, x, x));
    p = x.ObtainWritePartialData();
    for (integer i = 0; i < x.Getlength(); i++) p[i] /= q;
    return x;
  }
  for (size_t i = 0; i < w.comps.size(); i++) {
    fill_comp(w.comps[i], p, r);
    if (w.pk == PK_MATCOMP || (w.pk == PK_LOWRANK && w.comps[i].k == CK_FACTOR && w.comps.size() == 2)) gram_schmidt(p, w.comps[i].n, w.comps[i].p, 1);
    if (w.pk == PK_PHASE) for (int j = 0; j < comp_len(w.comps[i]); j++) p[j] *= 3;
    p += comp_len(w.comps[i]);
  }
  return x;
}
Variable plain_copy(const World &w, const Variable &x) {
  if (w.pk == PK_WEIGHTAPPROX || w.pk == PK_SPARSEAPPROX) {
    Vector y(x.Getrow(), x.Getcol());
    memcpy(y.ObtainWriteEntireData(), x.GetSpace(), sizeof(double) * (size_t)x.Getlength());
    const char *f[] = {"U", "D", "V"};
    for (int i = 0; i < 3; i++)
      if (x.FieldsExist(f[i])) {
        Vector s = x.Field(f[i]), d(s.Getrow(), s.Getcol());
        memcpy(d.ObtainWriteEntireData(), s.GetSpace(), sizeof(double) * (size_t)s.Getlength());
        y.AddToFields(f[i], d);
      }
    return y;
  }
  Variable y(w.mani->GetEMPTYEXTR());
  if (x.GetSpace() && y.Getlength() == x.Getlength()) memcpy(y.ObtainWriteEntireData(), x.GetSpace(), sizeof(double) * (size_t)x.Getlength());
  return y;
}
struct QuietHeap { bool f; QuietHeap() : f(heap.failing) { heap.failing = false; } ~QuietHeap() { heap.failing = f; } };
double true_f(const World &w, const Variable &x) {
  QuietHeap q; LibScope l(false);
  Variable y = plain_copy(w, x);
  return w.prob->f(y) * w.scale;
}
double true_gradnorm(const World &w, const Variable &x) {
  QuietHeap q; LibScope l(false);
  Variable y = plain_copy(w, x);
  bool ng = w.prob->GetNumGradHess();
  w.prob->SetNumGradHess(false);
  w.prob->f(y);
  Vector g = w.mani->GetEMPTY();
  w.prob->Grad(y, &g);
  double v = std::sqrt(w.mani->Metric(y, g, g));
  w.prob->SetNumGradHess(ng);
  return v * w.scale;
}

// ------------------------------------------------------------------ the user problem in plain loops
AmbientProblem::AmbientProblem(const std::vector<Comp> &comps, u64 seed) {
  Rng r(seed + 99);
  NumGradHess = false;
  for (size_t i = 0; i < comps.size(); i++) {
    Term q; q.k = comps[i].k; q.n = comps[i].n; q.p = q.k == CK_SPHERE ? 1 : comps[i].p ? comps[i].p : 1;
    if (q.k == CK_SPD) q.p = q.n;
    q.W = spd_matrix(q.n, r, 0.3, 3.0);
    q.D.assign(q.p, 1.0);
    q.A.assign((size_t)q.n * q.p, 0.0);
    if (q.k == CK_STIE) for (int j = 0; j < q.p; j++) q.D[j] = 1 + j;
    if (q.k == CK_EUC || q.k == CK_SPHERE) for (size_t j = 0; j < q.A.size(); j++) q.A[j] = (q.k == CK_EUC ? 1.0 : 0.3) * r.gauss();
    t.push_back(q);
  }
}
static void inv_spd(const double *X, int n, std::vector<double> &R) {
  std::vector<double> a(X, X + n * n);
  R.assign((size_t)n * n, 0.0);
  for (int i = 0; i < n; i++) R[i + (size_t)i * n] = 1;
  for (int c = 0; c < n; c++) {
    int piv = c;
    for (int i = c + 1; i < n; i++) if (std::fabs(a[i + c * n]) > std::fabs(a[piv + c * n])) piv = i;
    for (int j = 0; j < n; j++) { std::swap(a[c + j * n], a[piv + j * n]); std::swap(R[c + (size_t)j * n], R[piv + (size_t)j * n]); }
    double d = a[c + c * n];
    for (int j = 0; j < n; j++) { a[c + j * n] /= d; R[c + (size_t)j * n] /= d; }
    for (int i = 0; i < n; i++) if (i != c) {
      double f = a[i + c * n];
      for (int j = 0; j < n; j++) { a[i + j * n] -= f * a[c + j * n]; R[i + (size_t)j * n] -= f * R[c + (size_t)j * n]; }
    }
  }
}
static double logdet(const double *X, int n) {
  std::vector<double> L(X, X + n * n);
  double s = 0;
  for (int j = 0; j < n; j++) {
    for (int k = 0; k < j; k++) for (int i = j; i < n; i++) L[i + j * n] -= L[i + k * n] * L[j + k * n];
    double d = L[j + j * n];
    s += std::log(d);
    d = std::sqrt(d);
    for (int i = j; i < n; i++) L[i + j * n] /= d;
  }
  return s;
}
static void sym_times(const std::vector<double> &W, const double *X, int n, int p, std::vector<double> &R) {
  R.assign((size_t)n * p, 0.0);
  for (int j = 0; j < p; j++) for (int k = 0; k < n; k++) { double x = X[k + j * n]; for (int i = 0; i < n; i++) R[i + (size_t)j * n] += W[i + (size_t)k * n] * x; }
}
realdp AmbientProblem::f(const Variable &x) const {
  const double *X = x.ObtainReadData();
  double v = 0;
  std::vector<double> R;
  for (size_t i = 0; i < t.size(); i++) {
    const Term &q = t[i];
    if (q.k == CK_SPD) {
      for (int a = 0; a < q.n * q.n; a++) v += q.W[a] * X[a];
      v -= logdet(X, q.n);
    } else {
      sym_times(q.W, X, q.n, q.p, R);
      for (int j = 0; j < q.p; j++) for (int a = 0; a < q.n; a++) v += 0.5 * q.D[j] * R[a + (size_t)j * q.n] * X[a + j * q.n] + q.A[a + (size_t)j * q.n] * X[a + j * q.n];
    }
    X += q.n * q.p;
  }
  return v;
}
Vector &AmbientProblem::EucGrad(const Variable &x, Vector *result) const {
  const double *X = x.ObtainReadData();
  double *G = result->ObtainWriteEntireData();
  std::vector<double> R;
  for (size_t i = 0; i < t.size(); i++) {
    const Term &q = t[i];
    if (q.k == CK_SPD) {
      inv_spd(X, q.n, R);
      for (int a = 0; a < q.n; a++) for (int b = 0; b < q.n; b++) G[a + b * q.n] = q.W[a + b * q.n] - (R[a + b * q.n] + R[b + a * q.n]) / 2;
    } else {
      sym_times(q.W, X, q.n, q.p, R);
      for (int j = 0; j < q.p; j++) for (int a = 0; a < q.n; a++) G[a + j * q.n] = q.D[j] * R[a + (size_t)j * q.n] + q.A[a + (size_t)j * q.n];
    }
    X += q.n * q.p; G += q.n * q.p;
  }
  return *result;
}
Vector &AmbientProblem::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const {
  const double *X = x.ObtainReadData();
  std::vector<double> Ev = elem_data(etax);
  const double *E = &Ev[0];
  double *G = result->ObtainWriteEntireData();
  std::vector<double> R, T;
  for (size_t i = 0; i < t.size(); i++) {
    const Term &q = t[i];
    if (q.k == CK_SPD) {
      int n = q.n;
      inv_spd(X, n, R);
      T.assign((size_t)n * n, 0.0);
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) T[a + (size_t)b * n] += R[a + (size_t)c * n] * E[c + b * n];
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { double s = 0; for (int c = 0; c < n; c++) s += T[a + (size_t)c * n] * R[c + (size_t)b * n]; G[a + b * n] = s; }
    } else {
      sym_times(q.W, E, q.n, q.p, R);
      for (int j = 0; j < q.p; j++) for (int a = 0; a < q.n; a++) G[a + j * q.n] = q.D[j] * R[a + (size_t)j * q.n];
    }
    X += q.n * q.p; E += q.n * q.p; G += q.n * q.p;
  }
  return *result;
}

LowRankProblem::LowRankProblem(bool c, bool sy, int m_, int n_, int r_, u64 seed) : cplx(c), sym(sy), m(m_), n(n_), r(r_) {
  NumGradHess = false;
  Rng g(seed + 7);
  int k = std::min(r + 1, std::min(m, n));
  M P((size_t)m * k), Q((size_t)n * k);
  for (size_t i = 0; i < P.size(); i++) { double a = g.gauss(), b = g.gauss(); P[i] = C(a, cplx ? b : 0); }
  for (size_t i = 0; i < Q.size(); i++) { double a = g.gauss(), b = g.gauss(); Q[i] = C(a, cplx ? b : 0); }
  A = mul(P, sym ? P : Q, m, k, n, false, true);
}
LowRankProblem::M LowRankProblem::mul(const M &a, const M &b, int rows, int k, int cols, bool ca, bool cb) const {
  M o((size_t)rows * cols, C(0));
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) for (int l = 0; l < k; l++)
    o[i + (size_t)j * rows] += (ca ? std::conj(a[l + (size_t)i * k]) : a[i + (size_t)l * rows]) * (cb ? std::conj(b[j + (size_t)l * cols]) : b[l + (size_t)j * k]);
  return o;
}
void LowRankProblem::load(const Element &x, M &G, M &H) const {
  std::vector<double> d = elem_data(x);
  size_t q = 0;
  G.resize((size_t)m * r); H.resize(sym ? 0 : (size_t)n * r);
  for (int w = 0; w < 2; w++) { M &o = w ? H : G; for (size_t i = 0; i < o.size(); i++) { double re = d[q++], im = cplx ? d[q++] : 0; o[i] = C(re, im); } }
}
void LowRankProblem::store(const M &G, const M &H, Vector *result) const {
  double *d = result->ObtainWriteEntireData();
  for (int w = 0; w < 2; w++) { const M &o = w ? H : G; for (size_t i = 0; i < o.size(); i++) { *d++ = o[i].real(); if (cplx) *d++ = o[i].imag(); } }
}
realdp LowRankProblem::f(const Variable &x) const {
  M G, H; load(x, G, H);
  M R = mul(G, sym ? G : H, m, r, n, false, true);
  double v = 0;
  for (size_t i = 0; i < R.size(); i++) v += std::norm(R[i] - A[i]);
  return v / 2;
}
Vector &LowRankProblem::EucGrad(const Variable &x, Vector *result) const {
  M G, H; load(x, G, H);
  const M &B = sym ? G : H;
  M R = mul(G, B, m, r, n, false, true);
  for (size_t i = 0; i < R.size(); i++) R[i] -= A[i];
  M g = mul(R, B, m, n, r, false, false), h;
  if (sym) for (size_t i = 0; i < g.size(); i++) g[i] *= 2;
  else h = mul(R, G, n, m, r, true, false);
  store(g, h, result);
  return *result;
}
Vector &LowRankProblem::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const {
  M G, H, dG, dH; load(x, G, H); load(etax, dG, dH);
  const M &B = sym ? G : H, &dB = sym ? dG : dH;
  M R = mul(G, B, m, r, n, false, true), dR = mul(dG, B, m, r, n, false, true), d2 = mul(G, dB, m, r, n, false, true);
  for (size_t i = 0; i < R.size(); i++) { R[i] -= A[i]; dR[i] += d2[i]; }
  M g = mul(R, dB, m, n, r, false, false), g2 = mul(dR, B, m, n, r, false, false), h;
  for (size_t i = 0; i < g.size(); i++) g[i] = (sym ? 2.0 : 1.0) * (g[i] + g2[i]);
  if (!sym) { h = mul(R, dG, n, m, r, true, false); M h2 = mul(dR, G, n, m, r, true, false); for (size_t i = 0; i < h.size(); i++) h[i] += h2[i]; }
  store(g, h, result);
  return *result;
}

// ------------------------------------------------------------------ worlds
World::~World() {
  delete prob;
  delete mani;
  delete base;
  for (size_t i = 0; i < parts.size(); i++) delete parts[i];
  for (size_t i = 0; i < sps.size(); i++) delete sps[i];
  for (size_t i = 0; i < raw.size(); i++) delete[] raw[i];
  for (size_t i = 0; i < rawi.size(); i++) delete[] rawi[i];
}
// the parameter set of a manifold is chosen by name (SetParams) instead of by its member function
static bool g_byname = false;
static bool by_name(Manifold *m, int ps) {
  if (!g_byname || ps <= 0) return false;
  PARAMSMAP q; q["ParamSet"] = ps; q["no such option"] = 3;
  m->SetParams(q);
  return true;
}
static void stie_params(Stiefel *m, int ps) {
  if (by_name(m, ps)) return;
  switch (ps) { case 1: m->ChooseParamsSet1(); break; case 2: m->ChooseParamsSet2(); break; case 3: m->ChooseParamsSet3(); break; case 4: m->ChooseParamsSet4(); break; case 5: m->ChooseParamsSet5(); break; default: break; }
}
// the real manifold; remembers the longest step it was asked for (the Cayley retraction loses accuracy with it)
static double g_max_eta = 0;
bool long_cayley_steps() { return g_max_eta > 100; }
class SimStiefel : public Stiefel {
 public:
  SimStiefel(integer n, integer p) : Stiefel(n, p) {}
  virtual Variable &Retraction(const Variable &x, const Vector &etax, Variable *result) const {
    double q = 0;
    const double *e = etax.GetSpace();
    if (e) for (integer i = 0; i < etax.Getlength(); i++) q += e[i] * e[i];
    if (!(std::sqrt(q) <= g_max_eta)) g_max_eta = std::sqrt(q);
    return Stiefel::Retraction(x, etax, result);
  }
};
static void cstie_params(CStiefel *m, int ps) {
  if (by_name(m, ps)) return;
  switch (ps) { case 1: m->ChooseParamsSet1(); break; case 2: m->ChooseParamsSet2(); break; case 3: m->ChooseParamsSet3(); break; case 4: m->ChooseParamsSet4(); break; default: break; }
}
static void sphere_params(Sphere *m, int ps) {
  if (by_name(m, ps)) return;
  switch (ps) { case 1: m->ChooseParamsSet1(); break; case 2: m->ChooseParamsSet2(); break; case 3: m->ChooseParamsSet3(); break; case 4: m->ChooseParamsSet4(); break; default: break; }
}
static void spd_params(SPDManifold *m, int ps) {
  switch (ps) { case 1: m->ChooseParamsSet1(); break; case 2: m->ChooseParamsSet2(); break; case 3: m->ChooseParamsSet3(); break; case 4: m->ChooseParamsSet4(); break; default: break; }
}
template <class T> static void sfrq_params(T *m, int ps) {
  if (by_name(m, ps)) return;
  switch (ps) { case 1: m->ChooseParamsSet1(); break; case 2: m->ChooseParamsSet2(); break; case 3: m->ChooseParamsSet3(); break; case 4: m->ChooseParamsSet4(); break; default: break; }
}
static Manifold *simple_mani(const Comp &c, int ps) {
  switch (c.k) {
    case CK_EUC: return c.p > 1 ? new Euclidean(c.n, c.p) : new Euclidean(c.n);
    case CK_STIE: { Stiefel *m = new Stiefel(c.n, c.p); stie_params(m, ps); return m; }
    case CK_SPHERE: { Sphere *m = new Sphere(c.n); sphere_params(m, ps); return m; }
    case CK_GRASS: return new Grassmann(c.n, c.p);
    case CK_SPD: { SPDManifold *m = new SPDManifold(c.n); spd_params(m, ps); return m; }
  }
  return 0;
}
static int clampi(i64 v, int lo, int hi) { return (int)(v < lo ? lo : v > hi ? hi : v); }

bool spd_exp_world(const Scenario &s, const std::string &pre) {
  if (s.c(pre + "pk") == PK_SPDKARCHER) return s.c(pre + "pset") >= 3;
  if (s.c(pre + "pk") != PK_AMBIENT) return false;
  for (int i = 0; i < 3; i++) { std::string q = pre + "c" + std::string(1, char('0' + i)); if (s.c(q + "k") == CK_SPD && s.c(q + "s") >= 3) return true; }
  return false;
}
World *make_world(const Scenario &s, const std::string &pre) {
  World *w = new World;
  w->pk = clampi(s.c(pre + "pk"), 0, PK_COUNT - 1);
  g_byname = s.c(pre + "byname") != 0;
  u64 inst = (u64)s.c(pre + "inst", 1);
  int ps = (int)s.c(pre + "pset", 0);
  Rng r(inst * 1000003 + 17);
  char d[200];
  w->spd_exp = spd_exp_world(s, pre);
  static const double scales[] = {1, 1e-3, 1e3, 0.03, 30, 1e-6, 1e5, 1e-11};
  w->scale = scales[clampi(s.c(pre + "scale", 0), 0, 7)];
  switch (w->pk) {
    case PK_STIEBROCKETT: {
      int n = clampi(s.c(pre + "n", 5), 2, 12), p = clampi(s.c(pre + "p", 3), 1, n);
      Stiefel *m = ps == 5 ? new SimStiefel(n, p) : new Stiefel(n, p);
      stie_params(m, ps);
      w->mani = m;
      Vector B(n, n); fillg(B, r); sym(B, n);
      w->prob = new StieBrockett(B, diag1(p));
      Comp c = {CK_STIE, n, p, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "Stiefel(%d,%d) set %d", n, p, ps);
      break;
    }
    case PK_CSTIEBROCKETT: {
      int n = clampi(s.c(pre + "n", 4), 2, 8), p = clampi(s.c(pre + "p", 2), 1, n);
      CStiefel *m = new CStiefel(n, p);
      cstie_params(m, ps);
      w->mani = m;
      Vector B(n, n, "complex"); fillg(B, r); herm(B, n);
      Vector D(p, "complex");
      double *dp = D.ObtainWriteEntireData();
      for (int i = 0; i < p; i++) { dp[2 * i] = i + 1; dp[2 * i + 1] = 0; }
      w->prob = new CStieBrockett(B, D);
      Comp c = {CK_CSTIE, n, p, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "CStiefel(%d,%d) set %d", n, p, ps);
      break;
    }
    case PK_GRASSRQ: {
      int n = clampi(s.c(pre + "n", 5), 3, 12), p = clampi(s.c(pre + "p", 2), 1, n - 1);
      w->mani = new Grassmann(n, p);
      Vector B(n, n); fillg(B, r); sym(B, n);
      w->prob = new GrassRQ(B, n, p);
      Comp c = {CK_GRASS, n, p, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "Grassmann(%d,%d)", n, p);
      break;
    }
    case PK_EUCQUAD: {
      int n = clampi(s.c(pre + "n", 10), 1, 40);
      w->mani = new Euclidean(n);
      w->prob = new EucQuadratic(vec_of(spd_matrix(n, r, 0.1, 1.1), n, n));
      Comp c = {CK_EUC, n, 0, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "Euclidean(%d)", n);
      break;
    }
    case PK_SPDKARCHER: {
      int n = clampi(s.c(pre + "n", 3), 2, 5), num = clampi(s.c(pre + "num", 3), 1, 6);
      SPDManifold *m = new SPDManifold(n);
      spd_params(m, ps);
      w->mani = m;
      Vector EE(n, n);
      Vector Ls(1, &EE, num);
      double *L = Ls.ObtainWriteEntireData();
      for (int k = 0; k < num; k++, L += n * n) {  // lower triangular Cholesky-like factors
        for (int i = 0; i < n * n; i++) L[i] = 0;
        for (int j = 0; j < n; j++) { L[j + j * n] = 0.6 + 1.4 * r.unit(); for (int i = j + 1; i < n; i++) L[i + j * n] = 0.7 * r.gauss(); }
      }
      w->prob = new SPDKarcherMean(Ls, n, num);
      Comp c = {CK_SPD, n, 0, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "SPD(%d) set %d", n, ps);
      break;
    }
    case PK_SFRQLYAP: {
      int n = clampi(s.c(pre + "n", 5), 3, 10), p = clampi(s.c(pre + "p", 2), 1, n - 1), pC = 1;
      int nzA = n + 2 * (n - 1);
      double *A = new double[nzA + n];
      integer *ij = new integer[2 * nzA + 2 * n];
      w->raw.push_back(A); w->rawi.push_back(ij);
      integer *ir = ij, *jc = ij + nzA;
      for (int i = 0; i < n; i++) { A[i] = 2; ir[i] = jc[i] = i; }
      for (int i = 0; i < n - 1; i++) { A[n + i] = -1; ir[n + i] = i; jc[n + i] = i + 1; A[2 * n - 1 + i] = -1; ir[2 * n - 1 + i] = i + 1; jc[2 * n - 1 + i] = i; }
      SparseMatrix *sA = new SparseMatrix(n, n, ir, jc, A, nzA);
      double *M = A + nzA; integer *irM = ij + 2 * nzA, *jcM = irM + n;
      for (int i = 0; i < n; i++) { M[i] = 1; irM[i] = jcM[i] = i; }
      SparseMatrix *sM = new SparseMatrix(n, n, irM, jcM, M, n);
      w->sps.push_back(sA); w->sps.push_back(sM);
      Vector C(n, pC); fillg(C, r);
      SymFixedRankQ *m = new SymFixedRankQ(n, p);
      sfrq_params(m, ps);
      if (ps == 5 && !g_byname) m->ChooseParamsSet5();
      if (ps == 6 && !g_byname) m->ChooseParamsSet6();
      w->mani = m;
      w->prob = new SFRQLyapunov(*sA, *sM, C, p);
      Comp c = {CK_FACTOR, n, p, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "SymFixedRankQ(%d,%d) set %d", n, p, ps);
      break;
    }
    case PK_MATCOMP: {
      int m = clampi(s.c(pre + "n", 8), 3, 12), n = clampi(s.c(pre + "m", 7), 3, 12), k = clampi(s.c(pre + "p", 2), 1, 2);
      int dim = (m + n - k) * k, nz = std::min(2 * dim, m * n);
      std::vector<int> idx(m * n);
      for (int i = 0; i < m * n; i++) idx[i] = i;
      for (int i = 0; i < nz; i++) std::swap(idx[i], idx[i + r.below(m * n - i)]);
      integer *ir = new integer[nz], *jc = new integer[nz];
      double *v = new double[nz];
      w->rawi.push_back(ir); w->rawi.push_back(jc); w->raw.push_back(v);
      std::vector<double> G(m * k), H(n * k);
      for (size_t i = 0; i < G.size(); i++) G[i] = r.gauss();
      for (size_t i = 0; i < H.size(); i++) H[i] = r.gauss();
      std::sort(idx.begin(), idx.begin() + nz);
      for (int i = 0; i < nz; i++) { ir[i] = idx[i] / n; jc[i] = idx[i] % n; v[i] = 0; for (int j = 0; j < k; j++) v[i] += G[ir[i] + j * m] * H[jc[i] + j * n]; }
      w->mani = new FixedRankQ2F(m, n, k);
      w->prob = new FRankQ2FMatCompletion(ir, jc, v, nz, m, n, k);
      Comp c = {CK_FACTOR, m, k, 0}, e = {CK_FACTOR, n, k, 0};
      w->comps.push_back(c); w->comps.push_back(e);
      w->product = true;
      snprintf(d, sizeof d, "FixedRankQ2F(%d,%d,%d)", m, n, k);
      break;
    }
    case PK_WEIGHTAPPROX: {
      int m = clampi(s.c(pre + "n", 5), 3, 7), n = clampi(s.c(pre + "m", 4), 3, 7), k = clampi(s.c(pre + "p", 2), 1, std::min(m, n) - 1);
      w->mani = new FixedRankE(m, n, k);
      Vector A(m, n); fillg(A, r);
      w->prob = new FRankEWeightApprox(A, vec_of(spd_matrix(m * n, r, 0.3, 1.1), m * n, m * n), m, n, k);
      Comp c = {CK_RANKE, m, n, k}; w->comps.push_back(c);
      snprintf(d, sizeof d, "FixedRankE(%d,%d,%d)", m, n, k);
      break;
    }
    case PK_SPARSEAPPROX: {
      int m = clampi(s.c(pre + "n", 5), 3, 7), n = clampi(s.c(pre + "m", 5), 3, 7), k = clampi(s.c(pre + "p", 2), 1, std::min(m, n) - 1);
      w->mani = new FixedRankE(m, n, k);
      Vector A(m, n); fillg(A, r);
      w->prob = new FRankESparseApprox(A, 0.1, m, n, k, 1);
      Comp c = {CK_RANKE, m, n, k}; w->comps.push_back(c);
      snprintf(d, sizeof d, "FixedRankE(%d,%d,%d) prox", m, n, k);
      break;
    }
    case PK_PHASE: {
      int n1 = 2, n2 = 2, k = 1, l = clampi(s.c(pre + "l", 2), 2, 6), n = n1 * n2, m = n * l;
      Vector masks(n, l, "complex"); fillg(masks, r);
      Vector xt(n, k, "complex"); fillg(xt, r);
      Vector b(m);
      double *bp = b.ObtainWriteEntireData();
      const double *mp = masks.ObtainReadData(), *xp = xt.ObtainReadData();
      for (int i = 0; i < l; i++) for (int u = 0; u < n1; u++) for (int v = 0; v < n2; v++) {  // |DFT2(mask.*x)/sqrt(n)|^2
        double re = 0, im = 0;
        for (int a = 0; a < n1; a++) for (int c = 0; c < n2; c++) {
          int q = a + c * n1;
          double mr = mp[2 * (q + i * n)], mi = mp[2 * (q + i * n) + 1], xr = xp[2 * q], xi = xp[2 * q + 1];
          double pr = mr * xr - mi * xi, pi = mr * xi + mi * xr, th = -2 * 3.14159265358979323846 * ((double)u * a / n1 + (double)v * c / n2);
          re += pr * std::cos(th) - pi * std::sin(th); im += pr * std::sin(th) + pi * std::cos(th);
        }
        bp[u + v * n1 + i * n] = (re * re + im * im) / n;
      }
      CSymFixedRankQ *mm = new CSymFixedRankQ(n, k);
      sfrq_params(mm, ps);
      w->mani = mm;
      w->prob = new CSFRQPhaseRetrieval(b, masks, 0.0, n1, n2, l, k);
      Comp c = {CK_CFACTOR, n, k, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "CSymFixedRankQ(%d,%d) set %d", n, k, ps);
      break;
    }
    case PK_BLINDDECON: {
      int n1 = s.c(pre + "n") == 4 ? 4 : 2, n2 = 2, k = 1, L = n1 * n2;
      double *B = new double[4 * L * L];
      integer *ij = new integer[2 * L * L];
      w->raw.push_back(B); w->rawi.push_back(ij);
      for (int i = 0; i < 4 * L * L; i++) B[i] = r.gauss();
      for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) { ij[j + i * L] = j; ij[L * L + j + i * L] = i; }
      SparseMatrix *sB = new SparseMatrix(L, L, ij, ij + L * L, (realdpcomplex *)B, L * L);
      SparseMatrix *sC = new SparseMatrix(L, L, ij, ij + L * L, (realdpcomplex *)(B + 2 * L * L), L * L);
      w->sps.push_back(sB); w->sps.push_back(sC);
      Vector y(L, "complex"); fillg(y, r);
      w->mani = new CFixedRankQ2F(L, L, k);
      w->prob = new CFRankQ2FBlindDecon2D(y, *sB, *sC, n1, n2, k, s.c(pre + "pen") ? 0.5 : 0, 1, 1);
      Comp c = {CK_CFACTOR, L, k, 0}; w->comps.push_back(c); w->comps.push_back(c);
      w->product = true;
      snprintf(d, sizeof d, "CFixedRankQ2F(%d,%d,%d)%s", L, L, k, s.c(pre + "pen") ? " penalty" : "");
      break;
    }
    case PK_PRODSTIE: {
      int n = clampi(s.c(pre + "n", 4), 2, 7), p = clampi(s.c(pre + "p", 2), 1, n), m = clampi(s.c(pre + "m", 3), 2, 6), q = clampi(s.c(pre + "q", 2), 1, m);
      Stiefel *m1 = new Stiefel(n, p), *m2 = new Stiefel(m, q);
      stie_params(m1, ps); stie_params(m2, (int)s.c(pre + "pset2", ps));
      w->parts.push_back(m1); w->parts.push_back(m2);
      w->mani = new ProductManifold(2, m1, 2, m2, 1);
      Vector B1(n, n), B2(n, n), B3(m, m);
      fillg(B1, r); fillg(B2, r); fillg(B3, r); sym(B1, n); sym(B2, n); sym(B3, m);
      w->prob = new ProdStieSumBrockett(B1, diag1(p), B2, diag1(p), B3, diag1(q));
      Comp c = {CK_STIE, n, p, 0}, e = {CK_STIE, m, q, 0};
      w->comps.push_back(c); w->comps.push_back(c); w->comps.push_back(e);
      w->product = true;
      snprintf(d, sizeof d, "Stiefel(%d,%d)^2 x Stiefel(%d,%d) set %d/%d", n, p, m, q, ps, (int)s.c(pre + "pset2", ps));
      break;
    }
    case PK_SPARSEST: {
      int n = clampi(s.c(pre + "n", 3), 2, 5), m = clampi(s.c(pre + "m", 10), n + 1, 20);
      Sphere *S = new Sphere(n);
      sphere_params(S, ps);
      w->mani = S;
      Vector Q(m, n); fillg(Q, r);
      w->prob = new SphereSparsestVector(Q);
      Comp c = {CK_SPHERE, n, 0, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "Sphere(%d) set %d l1", n, ps);
      break;
    }
    case PK_SPCA: {
      int n = clampi(s.c(pre + "n", 5), 3, 8), m = clampi(s.c(pre + "m", 4), 3, 8), p = clampi(s.c(pre + "p", 3), 1, n - 1);
      Vector B(m, n); fillg(B, r);
      double *b = B.ObtainWriteEntireData();
      for (int i = 0; i < n; i++) {
        double a = 0; for (int j = 0; j < m; j++) a += b[j + i * m]; a /= m;
        double q = 0; for (int j = 0; j < m; j++) { b[j + i * m] -= a; q += b[j + i * m] * b[j + i * m]; }
        q = std::sqrt(q); for (int j = 0; j < m; j++) b[j + i * m] /= q;
      }
      Stiefel *S = new Stiefel(n, p);
      S->ChooseParamsSet4();
      w->mani = S;
      int lw = clampi(s.c(pre + "lw", 0), 0, 2);
      w->prob = new StieSPCA(B, 1.0, n, m, p, lw == 0 ? 1 : lw == 1 ? p : n * p);
      Comp c = {CK_STIE, n, p, 0}; w->comps.push_back(c);
      snprintf(d, sizeof d, "Stiefel(%d,%d) set 4 l1", n, p);
      break;
    }
    case PK_SPHERETX: {
      World *b = w->base = make_world(s, pre + "b");
      w->mani = new SphereTx(b->mani, &b->x0);
      w->prob = new SphereTxRQ(b->mani, &b->x0, b->prob, s.c(pre + "min", 1) != 0);
      snprintf(d, sizeof d, "the tangent sphere of %.120s", b->desc.c_str());
      break;
    }
    case PK_LOWRANK: {  // kind 0 real and 1 complex pairs of factors, 2 real and 3 complex symmetric factors
      int kind = clampi(s.c(pre + "kind", 0), 0, 3), m = clampi(s.c(pre + "n", 5), 3, 9), n = kind >= 2 ? m : clampi(s.c(pre + "m", 5), 3, 9), k = clampi(s.c(pre + "p", 2), 1, std::min(std::min(m, n) / 2, 3))  /* the retractions need 2 p columns */;
      bool cx = kind & 1;
      Comp c = {cx ? CK_CFACTOR : CK_FACTOR, m, k, 0}, e = {cx ? CK_CFACTOR : CK_FACTOR, n, k, 0};
      w->comps.push_back(c);
      if (kind < 2) { w->comps.push_back(e); w->product = true; }
      if (kind == 0) w->mani = new FixedRankQ2F(m, n, k);
      else if (kind == 1) w->mani = new CFixedRankQ2F(m, n, k);
      else if (kind == 2) { SymFixedRankQ *q = new SymFixedRankQ(m, k); sfrq_params(q, ps); if (ps == 5 && !g_byname) q->ChooseParamsSet5(); if (ps == 6 && !g_byname) q->ChooseParamsSet6(); w->mani = q; }
      else { CSymFixedRankQ *q = new CSymFixedRankQ(m, k); sfrq_params(q, ps); w->mani = q; }
      w->prob = new LowRankProblem(cx, kind >= 2, m, n, k, inst);
      static const char *kn[] = {"FixedRankQ2F", "CFixedRankQ2F", "SymFixedRankQ", "CSymFixedRankQ"};
      snprintf(d, sizeof d, "%s(%d,%d,%d) set %d", kn[kind], m, n, k, ps);
      break;
    }
    default: {  // PK_AMBIENT
      int nt = clampi(s.c(pre + "nt", 1), 1, 3);
      std::vector<Manifold *> ms;
      std::vector<integer> pows(1, 0);
      std::string dd;
      for (int i = 0; i < nt; i++) {
        std::string q = pre + "c" + char('0' + i);
        static const int kinds[] = {CK_EUC, CK_STIE, CK_SPHERE, CK_GRASS, CK_SPD};
        Comp c;
        c.k = kinds[clampi(s.c(q + "k", 0), 0, 4)];
        c.n = clampi(s.c(q + "n", 4), 2, 8);
        if (c.k == CK_SPD) c.n = clampi(c.n, 2, 4);
        c.p = clampi(s.c(q + "p", 1), 1, c.n);
        if (c.k == CK_GRASS) { c.n = std::max(c.n, 3); c.p = clampi(c.p, 1, c.n - 1); }
        if (c.k == CK_SPHERE || c.k == CK_SPD) c.p = 0;
        if (c.k == CK_EUC && c.p == 1) c.p = 0;
        c.r = 0;
        int cps = (int)s.c(q + "s", 0), mult = clampi(s.c(q + "m", 1), 1, 3);
        if (nt == 1 && s.c(pre + "single", 1)) mult = 1;
        ms.push_back(simple_mani(c, cps));
        pows.push_back(pows.back() + mult);
        for (int j = 0; j < mult; j++) w->comps.push_back(c);
        static const char *kn[] = {"Euc", "Stiefel", "Sphere", "Grassmann", "SPD"};
        char b[80]; snprintf(b, sizeof b, "%s%s(%d,%d)s%d^%d", i ? " x " : "", kn[c.k], c.n, c.p, cps, mult);
        dd += b;
      }
      if (nt == 1 && s.c(pre + "single", 1)) w->mani = ms[0];
      else {
        w->parts = ms;
        w->mani = new ProductManifold(&ms[0], (integer)ms.size(), &pows[0]);
        w->product = true;
        if (s.c(pre + "extr")) w->mani->SetIsIntrApproach(false);
      }
      w->prob = new AmbientProblem(w->comps, inst);
      snprintf(d, sizeof d, "%s%s", dd.c_str(), s.c(pre + "extr") ? " extr" : "");
    }
  }
  w->desc = std::string(pk_names[w->pk]) + " on " + d;
  if (s.c(pre + "ext") && !w->base) { w->mani->SetIsIntrApproach(false); w->desc += " extrinsic"; }
  if (s.c(pre + "hhr")) { if (g_byname) { PARAMSMAP q; q["HasHHR"] = 1; w->mani->SetParams(q); } else w->mani->SetHasHHR(true); w->desc += " HHR"; }
  w->prob->SetDomain(w->mani);
  // the flags of the problem are left at the library's defaults
  w->x0 = make_x0(*w, (u64)s.c(pre + "x0", 1));
  return w;
}

// ------------------------------------------------------------------ environment
Env::Env() : w(0), sp(0), on(true), record(false), check_feas(false), feas_tol(1e-7), nall(0), budget(4000000), in_grad(0), in_hess(0), evhash(7),
             max_infeas(0), fired_f(0), fired_throw(0), fired_stall(0), fired_wall(0), last_f(0), quiet_faults(false), tag(false), tag_checks(0), n_f_probe(0), n_h_probe(0) {
  for (int i = 0; i < 128; i++) { n[i] = 0; cost_us[i] = 0; }
}
bool Env::f_fault_active(i64 k, double &val) const {
  for (size_t i = 0; i < faults.size(); i++) {
    const Rec &r = faults[i];
    if (r.k != "fval") continue;
    i64 a = r.at(0), len = r.at(1, 1);
    if (k >= a && (len <= 0 || k < a + len)) {
      switch (r.at(2) % 6) {
        case 0: val = std::numeric_limits<double>::quiet_NaN(); break;
        case 1: val = std::numeric_limits<double>::infinity(); break;
        case 2: val = -std::numeric_limits<double>::infinity(); break;
        case 3: val = 1e300; break;
        case 4: val = 1e6; break;
        default: val = -std::numeric_limits<double>::quiet_NaN(); break;
      }
      return true;
    }
  }
  return false;
}
void Env::event(char ch, const Variable &x, const Element *eta) {
  if (mute) return;
  QuietHeap qh;
  bool oldlib = heap.lib;
  heap.lib = false;
  i64 k = nall++;
  n[(int)ch]++;
  if (--budget < 0) violate("hang", "callback budget exhausted (%lld callbacks)", k);
  u64 h = fnv(hash_elem(x), (unsigned char)ch);
  if (eta) h = fnv(h, hash_elem(*eta));
  evhash = fnv(evhash, h);
  tr(h);
  if (g_verbose) fprintf(stderr, "  ev %lld %c %016llx\n", k, ch, h);
  if (record) { Ev e = {ch, h, 0}; evs.push_back(e); }
  bool probe = (in_grad && ch == 'f') || in_hess;
  if (check_feas && !probe && ch != 'w' && ch != 'j') {
    std::string why;
    double v = infeasibility(*w, x, &why);
    // exp(log-Euclidean/affine step) of a trial point may overflow: the cost is then not finite and the trial is not accepted
    // next to a point of lower rank the equations of the quotient's projection are singular
    if (v < 1e-3 && near_lower_rank(*w, x)) near_boundary = true;
    if ((v == 1e300 || v == 1e100) && (w->spd_exp || near_boundary)) { count("trial_overflow"); overflowed = true; v = 0; }
    if (!(v <= max_infeas)) max_infeas = v;
    if (!(v <= feas_tol) && v < 1e100 && long_cayley_steps()) { count("long_cayley_steps"); v = 0; }
    if (!(v <= feas_tol)) violate("infeasible", "callback %c number %lld received a point off the manifold: %s (%.3g), %s", ch, k, why.c_str(), v, w->desc.c_str());
    if (eta && ch == 'H' && !w->spd_exp) { const double *p = eta->GetSpace(); if (p) for (integer i = 0; i < eta->Getlength(); i++) if (!(p[i] - p[i] == 0)) violate("nonfinite-tangent", "Hessian callback %lld received a non-finite tangent vector", k); }
  }
  advance_us(cost_us[(int)ch]);
  int thr = -1;
  for (size_t i = 0; i < faults.size(); i++) {
    const Rec &r = faults[i];
    if (r.at(0) != k) continue;
    if (r.k == "stall") { advance_us(r.at(1)); fired_stall++; }
    else if (r.k == "wall") { step_wall_us(r.at(1)); fired_wall++; }
    else if (r.k == "throw") { fired_throw++; thr = (int)i; }
  }
  if (hook) hook(*this, ch, x);
  heap.lib = oldlib;
  if (thr >= 0) { SimThrow t = {thr}; throw t; }
}

SimProblem::SimProblem(World *w, Env *e) : in(w->prob), env(e) {
  Domain = w->mani;
  UseGrad = true; UseHess = true; NumGradHess = false;
  e->w = w; e->sp = this;
}
// the data a problem keeps with a point: here the identity of the point itself
static void put_tag(const Variable &x) {
  Vector t(2);
  u64 h = hash_elem(x);
  double *p = t.ObtainWriteEntireData();
  p[0] = (double)(h & 0xffffffffull); p[1] = (double)(h >> 32);
  x.AddToFields("simtag", t);
}
static void check_tag(Env *e, const Variable &x, const char *who) {
  if (!e->tag) return;
  e->tag_checks += !e->mute;
  if (!x.FieldsExist("simtag")) violate("derived-data", "%s was called at a point that has lost the data the problem stored with it in f (callback %lld)", who, e->nall);
  const double *p = x.Field("simtag").ObtainReadData();
  u64 h = hash_elem(x);
  if (p[0] != (double)(h & 0xffffffffull) || p[1] != (double)(h >> 32))
    violate("derived-data", "%s was called at a point carrying the data of another point (callback %lld)", who, e->nall);
}
realdp SimProblem::f(const Variable &x) const {
  i64 k = env->n[(int)'f'];
  env->event('f', x, 0);
  double v = in->f(x);
  if (env->w->scale != 1) v *= env->w->scale;
  if (env->mute) { if (env->tag) put_tag(x); return v; }
  double fv;
  bool faulted = false;
  if (env->in_grad || env->in_hess) env->n_f_probe++;
  if (env->on && k > 0 && !env->quiet_faults && env->f_fault_active(k, fv)) { env->fired_f++; v = fv; faulted = true; }
  env->last_f = v;
  if (env->record) { QuietHeap q; LibScope l(false); env->fat[hash_elem(x)].add(v, faulted); }
  if (env->tag) put_tag(x);
  trd(v);
  if (env->record) env->evs.back().v = v;
  return v;
}
struct Counter { int &c; explicit Counter(int &x) : c(x) { c++; } ~Counter() { c--; } };
Vector &SimProblem::Grad(const Variable &x, Vector *result) const {
  env->event('G', x, 0);
  Counter c(env->in_grad);
  return Problem::Grad(x, result);
}
Vector &SimProblem::HessianEta(const Variable &x, const Vector &etax, Vector *result) const {
  env->event('H', x, &etax);
  Counter c(env->in_hess);
  return Problem::HessianEta(x, etax, result);
}
static Vector &scaled(double c, Vector *v) { if (c != 1) v->ScalarTimesThis(c); return *v; }
Vector &SimProblem::EucGrad(const Variable &x, Vector *result) const {
  env->event('g', x, 0);
  check_tag(env, x, "EucGrad");
  in->EucGrad(x, result);
  return scaled(env->w->scale, result);
}
Vector &SimProblem::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const {
  env->event('h', x, &etax);
  if (env->in_hess) env->n_h_probe++;
  check_tag(env, x, "EucHessianEta");
  in->EucHessianEta(x, etax, result);
  return scaled(env->w->scale, result);
}
Vector &SimProblem::PreConditioner(const Variable &x, const Vector &eta, Vector *result) const {
  env->event('p', x, &eta);
  check_tag(env, x, "PreConditioner");
  return in->PreConditioner(x, eta, result);
}
Vector &SimProblem::ProxW(const Vector &x, const Vector &Weight, Vector *result) const {
  env->event('w', x, 0);
  return in->ProxW(x, Weight, result);
}
Vector &SimProblem::CalJW(const Vector &x, const Vector &eta, const Vector &Weight, Vector *result) const {
  env->event('j', x, &eta);
  return in->CalJW(x, eta, Weight, result);
}
void SimProblem::SetUseGrad(bool b) const { Problem::SetUseGrad(b); in->SetUseGrad(b); }
void SimProblem::SetUseHess(bool b) const { Problem::SetUseHess(b); in->SetUseHess(b); }
void SimProblem::SetNumGradHess(bool b) const { Problem::SetNumGradHess(b); in->SetNumGradHess(b); }

bool stop_tap(const Variable &x, const Vector &funSeries, integer lengthSeries, realdp finalval, realdp initval, const Problem *prob, const Solvers *solver) {
  const SimProblem *sp = dynamic_cast<const SimProblem *>(prob);
  if (!sp) violate("stop-arguments", "StopPtr was called with a problem that is not the user's problem");
  Env &e = *sp->env;
  e.event('s', x, 0);
  QuietHeap q; LibScope l(false);
  Env::Acc a = {0, finalval, initval, hash_elem(x), e.nall, solver->GetIter(), (double)clk.mono_us * 1e-6};
  e.acc.push_back(a);
  if (e.stop) return e.stop(e, x, funSeries, lengthSeries, finalval, initval, solver);
  // the default criterion of the library, driven through the user hook
  return finalval / initval < solver->Tolerance;
}
double ls_input(integer, const Variable &, const Vector &, realdp initialstepsize, realdp, const Problem *, const Solvers *) { return initialstepsize; }

void load_env(Env &e, const Scenario &s, const std::string &pre) {
  e.faults = s.faults;
  if (!pre.empty()) {
    e.faults.clear();
    for (size_t i = 0; i < s.faults.size(); i++)
      if (s.faults[i].k.compare(0, pre.size(), pre) == 0) { Rec r = s.faults[i]; r.k = r.k.substr(pre.size()); e.faults.push_back(r); }
  }
  const char *chs = "fGHghpwjs";
  for (const char *c = chs; *c; c++) e.cost_us[(int)*c] = s.c(pre + "us_" + *c, 0);
}

// ------------------------------------------------------------------ solvers
Solvers *make_solver(int sv, const Problem *prob, const Variable *x0, LinearOPE *h0) {
  switch (sv) {
    case SV_RSD: return new RSD(prob, x0);
    case SV_RNEWTON: return new RNewton(prob, x0);
    case SV_RCG: return new RCG(prob, x0);
    case SV_RBROYDEN: return new RBroydenFamily(prob, x0, h0);
    case SV_RWRBFGS: return new RWRBFGS(prob, x0, h0);
    case SV_RBFGS: return new RBFGS(prob, x0, h0);
    case SV_LRBFGS: return new LRBFGS(prob, x0);
    case SV_RTRSD: return new RTRSD(prob, x0);
    case SV_RTRNEWTON: return new RTRNewton(prob, x0);
    case SV_RTRSR1: return new RTRSR1(prob, x0, h0);
    case SV_LRTRSR1: return new LRTRSR1(prob, x0);
    case SV_RGS: return new RGS(prob, x0);
    case SV_RBFGSSUB: return new RBFGSSub(prob, x0, h0);
    case SV_LRBFGSSUB: return new LRBFGSSub(prob, x0);
    case SV_MANPG: return new ManPG(prob, x0);
    default: return new AManPG(prob, x0);
  }
}
static double pick(i64 i, std::initializer_list<double> v) {
  size_t k = (size_t)(i < 0 ? -i : i) % v.size();
  return *(v.begin() + k);
}
void configure(Solvers *sol, int sv, const Scenario &s, const std::string &pre) {
#define HAS(k) (s.cfg.count(pre + (k)))
#define VAL(k) (s.c(pre + (k)))
  sol->Verbose = (VERBOSEINFO)clampi(s.c(pre + "verb", ITERRESULT), 0, 3);
  sol->Max_Iteration = (integer)s.c(pre + "maxit", 50);
  if (HAS("minit")) sol->Min_Iteration = (integer)VAL("minit");
  if (HAS("tol10")) sol->Tolerance = std::pow(10.0, -(double)VAL("tol10"));
  if (HAS("tb_us")) sol->TimeBound = (double)VAL("tb_us") * 1e-6;
  if (HAS("ogap")) sol->OutputGap = (integer)std::max<i64>(1, VAL("ogap"));
  if (s.c(pre + "tap")) sol->StopPtr = &stop_tap;
  if (SolversSM *m = dynamic_cast<SolversSM *>(sol)) {
    if (HAS("crit")) m->Stop_Criterion = (StopCritSM)clampi(VAL("crit"), 0, 2);
    if (HAS("acc10")) m->Accuracy = VAL("acc10") >= 99 ? 0 : std::pow(10.0, -(double)VAL("acc10"));
  }
  if (SolversNSM *m = dynamic_cast<SolversNSM *>(sol))
    if (HAS("crit")) m->Stop_Criterion = (StopCritNSM)clampi(VAL("crit"), 0, 2);
  if (SolversSMLS *m = dynamic_cast<SolversSMLS *>(sol)) {
    if (HAS("ls")) m->LineSearch_LS = (LSAlgoSM)clampi(VAL("ls"), 0, 4);
    m->LinesearchInput = &ls_input;
    if (HAS("pure")) m->IsPureLSInput = VAL("pure") != 0;
    if (HAS("lsa")) m->LS_alpha = pick(VAL("lsa"), {1e-4, 1e-3, 0.1, 0.3, 0.01});
    if (HAS("lsb")) m->LS_beta = pick(VAL("lsb"), {0.999, 0.9, 0.7, 0.5});
    if (HAS("ist")) m->InitSteptype = (InitStepsizeSetSM)clampi(VAL("ist"), 0, 4);
    if (HAS("istep")) m->Initstepsize = pick(VAL("istep"), {1, 0.1, 10, 0.01, 100});
    if (HAS("npf")) m->Num_pre_funs = clampi(VAL("npf"), 1, 20);
    if (HAS("npb")) m->Num_pre_BB = clampi(VAL("npb"), 0, 8);
    if (HAS("bbr")) m->BBratio = pick(VAL("bbr"), {1, 0, 0.5, -1});
    if (HAS("rat")) { m->LS_ratio1 = pick(VAL("rat"), {0.1, 0.25, 0.5, 0.05}); m->LS_ratio2 = pick(VAL("rat"), {0.9, 0.75, 0.5, 0.95}); }
    if (HAS("maxs")) m->Maxstepsize = pick(VAL("maxs"), {1e10, 1, 5, 100});
    if (HAS("mins")) m->Minstepsize = pick(VAL("mins"), {2.220446049250313e-16, 1e-12, 1e-8});
    if (HAS("fst")) m->Finalstepsize = pick(VAL("fst"), {-1, 1, 0.5});
  }
  if (SolversSMTR *m = dynamic_cast<SolversSMTR *>(sol)) {
    if (HAS("rho")) m->Acceptence_Rho = pick(VAL("rho"), {0.1, 0.01, 0.2});
    if (HAS("stau")) m->Shrinked_tau = pick(VAL("stau"), {0.25, 0.1, 0.5});
    if (HAS("mtau")) m->Magnified_tau = pick(VAL("mtau"), {2, 3, 1.5});
    if (HAS("maxd")) m->maximum_Delta = pick(VAL("maxd"), {1e4, 1, 10});
    if (HAS("idel")) m->initial_Delta = pick(VAL("idel"), {1, 0.1, 0.5, 0.01});
    if (HAS("rand")) m->useRand = VAL("rand") != 0;
    if (HAS("maxin")) m->Max_Inner_Iter = clampi(VAL("maxin"), 1, 1000);
    if (HAS("minin")) m->Min_Inner_Iter = clampi(VAL("minin"), 0, 5);
    if (HAS("theta")) m->theta = pick(VAL("theta"), {1, 0.1, 0.5});
    if (HAS("kappa")) m->kappa = pick(VAL("kappa"), {0.1, 0.01, 0.9, 0.001});
  }
  if (RNewton *m = dynamic_cast<RNewton *>(sol)) {
    if (HAS("rand")) m->useRand = VAL("rand") != 0;
    if (HAS("maxin")) m->Max_Inner_Iter = clampi(VAL("maxin"), 1, 1000);
    if (HAS("minin")) m->Min_Inner_Iter = clampi(VAL("minin"), 0, 5);
    if (HAS("theta")) m->theta = pick(VAL("theta"), {1, 0.1, 0.5});
    if (HAS("kappa")) m->kappa = pick(VAL("kappa"), {0.1, 0.01, 0.9, 0.001});
  }
  if (RCG *m = dynamic_cast<RCG *>(sol)) if (HAS("rcg")) m->RCGmethod = (RCGmethods)clampi(VAL("rcg"), 0, 5);
#define QN(T) if (T *m = dynamic_cast<T *>(sol)) { if (HAS("conv")) m->isconvex = VAL("conv") != 0; if (HAS("nu")) m->nu = pick(VAL("nu"), {1e-4, 1e-6, 1e-2}); if (HAS("mu")) m->mu = pick(VAL("mu"), {1, 2, 0.5}); }
  QN(RBFGS) QN(RWRBFGS) QN(RBroydenFamily) QN(LRBFGS)
  if (LRBFGS *m = dynamic_cast<LRBFGS *>(sol)) { if (HAS("lsy")) m->LengthSY = clampi(VAL("lsy"), 0, 20); if (HAS("lmr")) m->LMrestart = VAL("lmr") != 0; }
  if (LRTRSR1 *m = dynamic_cast<LRTRSR1 *>(sol)) { if (HAS("lsy")) m->LengthSY = clampi(VAL("lsy"), 0, 20); if (HAS("lmr")) m->LMrestart = VAL("lmr") != 0; }
  if (LRBFGSSub *m = dynamic_cast<LRBFGSSub *>(sol)) { if (HAS("lsy")) m->LengthSY = clampi(VAL("lsy"), 0, 20); }
  if (SolversNSMPGLS *m = dynamic_cast<SolversNSMPGLS *>(sol)) {
    if (HAS("var")) m->Variant = (RPGLSVariant)clampi(VAL("var"), 0, 1);
    if (HAS("pgr")) m->LS_ratio = pick(VAL("pgr"), {0.5, 0.3, 0.8});
  }
  if (AManPG *m = dynamic_cast<AManPG *>(sol)) if (HAS("sgap")) m->SGIterGap = clampi(VAL("sgap"), 1, 20);
  (void)sv;
}

SolverRun::SolverRun(const Scenario &s, const std::string &pre, World *shared) : w(0), own_world(false), sp(0), use(0), sol(0), h0_hash(0), sv(0) {
  sv = clampi(s.c(pre + "sv"), 0, SV_COUNT - 1);
  if (shared) w = shared;
  else { LibScope l(true); w = make_world(s, pre); own_world = true; }
  env.w = w;
  load_env(env, s, pre);
  sp = new SimProblem(w, &env);
}
void SolverRun::build(const Scenario &s, const std::string &pre) {
  LibScope l(true);
  if (!use) use = sp;
  if (s.c(pre + "numgh")) use->SetNumGradHess(true);
  LinearOPE *hp = 0;
  if (i64 ih = s.c(pre + "inith")) if (sv_dense(sv)) {
    const Manifold *m = use->GetDomain();
    integer d = (m->GetIsIntrinsic() ? m->GetEMPTYINTR() : m->GetEMPTYEXTR()).Getlength();
    h0 = LinearOPE(d, d);
    if (ih == 3 && m->GetIsIntrinsic()) { Rng r(991 * (u64)s.c(pre + "inst", 1) + 5); h0 = vec_of(spd_matrix(d, r, 0.4, 2.5), d, d); }
    else h0.ScaledIdOPE(ih == 1 ? 0.5 : 3);
    h0_hash = hash_elem(h0);
    hp = &h0;
  }
  sol = make_solver(sv, use, &w->x0, hp);
  configure(sol, sv, s, pre);
}
void SolverRun::go() {
  LibScope l(true);
  sol->Run();
  check_h0();
}
void SolverRun::check_h0() {
  if (h0_hash && hash_elem(h0) != h0_hash) violate("initial-hessian-changed", "%s modified the initial Hessian approximation it was given", sv_names[sv]);
}
void SolverRun::destroy() {
  LibScope l(true);
  delete sol;
  sol = 0;
}
SolverRun::~SolverRun() {
  destroy();
  LibScope l(true);
  delete sp;
  if (own_world) delete w;
}

static std::vector<double> series(const Vector &v, integer len) {
  std::vector<double> r;
  const double *p = v.GetSpace();
  if (p) for (integer i = 0; i < len && i < v.Getlength(); i++) r.push_back(p[i]);
  return r;
}
double solver_gradnorm(Solvers *s, int) {
  if (SolversSM *m = dynamic_cast<SolversSM *>(s)) return m->Getnormgf();
  return dynamic_cast<SolversNSM *>(s)->Getnormnd();
}
double solver_relgrad(Solvers *s, int) {
  if (SolversSM *m = dynamic_cast<SolversSM *>(s)) return m->Getnormgfgf0();
  return dynamic_cast<SolversNSM *>(s)->Getnormndnd0();
}
Outcome outcome(Solvers *s, int sv) {
  LibScope l(false);
  Outcome o;
  o.x = elem_data(s->GetXopt());
  o.f = s->Getfinalfun(); o.com = s->GetComTime();
  o.ng = solver_gradnorm(s, sv); o.nrel = solver_relgrad(s, sv);
  o.iter = s->GetIter(); o.nf = s->Getnf(); o.ng_ = s->Getng(); o.nR = s->GetnR(); o.nV = s->GetnV(); o.nVp = s->GetnVp(); o.nH = s->GetnH();
  o.len = s->Verbose >= ITERRESULT ? s->GetlengthSeries() : 0;
  if (s->Verbose >= ITERRESULT) {
    o.fs = series(s->GetfunSeries(), o.len);
    o.ts = series(s->GettimeSeries(), o.len);
    if (SolversSM *m = dynamic_cast<SolversSM *>(s)) o.gs = series(m->GetgradSeries(), o.len);
    if (SolversNSM *m = dynamic_cast<SolversNSM *>(s)) o.gs = series(m->GetdirSeries(), o.len);
  }
  return o;
}
static u64 hv(u64 h, const std::vector<double> &v) {
  h = fnv(h, v.size());
  for (size_t i = 0; i < v.size(); i++) h = fnv(h, v[i] != v[i] ? 0x7ff8ull : v[i] == 0 ? 0 : dbits(v[i]));
  return h;
}
u64 outcome_hash(const Outcome &o, bool t, bool ser) {
  u64 h = hv(11, o.x);
  std::vector<double> q;
  q.push_back(o.f); q.push_back(o.ng); q.push_back(o.nrel);
  if (t) q.push_back(o.com);
  h = hv(h, q);
  h = fnv(h, (u64)o.iter); h = fnv(h, (u64)o.nf); h = fnv(h, (u64)o.ng_); h = fnv(h, (u64)o.nR); h = fnv(h, (u64)o.nV); h = fnv(h, (u64)o.nVp); h = fnv(h, (u64)o.nH);
  if (ser) { h = fnv(h, (u64)o.len); h = hv(h, o.fs); h = hv(h, o.gs); if (t) h = hv(h, o.ts); }
  return h;
}
static bool veq(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}
std::string outcome_diff(const Outcome &a, const Outcome &b, bool t, bool ser) {
  char m[300] = "";
#define CMPI(f, nm) if (a.f != b.f) { snprintf(m, sizeof m, "%s %ld vs %ld", nm, (long)a.f, (long)b.f); return m; }
#define CMPD(f, nm) if (!same(a.f, b.f)) { snprintf(m, sizeof m, "%s %.17g vs %.17g", nm, a.f, b.f); return m; }
  CMPI(iter, "iterations") CMPI(nf, "nf") CMPI(ng_, "ng") CMPI(nR, "nR") CMPI(nV, "nV") CMPI(nVp, "nVp") CMPI(nH, "nH")
  CMPD(f, "final cost") CMPD(ng, "final gradient norm") CMPD(nrel, "relative gradient norm")
  if (!veq(a.x, b.x)) return "returned point";
  if (t) CMPD(com, "ComTime")
  if (ser) {
    CMPI(len, "lengthSeries")
    if (!veq(a.fs, b.fs)) return "function series";
    if (!veq(a.gs, b.gs)) return "gradient series";
    if (t && !veq(a.ts, b.ts)) return "time series";
  }
  return "";
}
}  // namespace sim
