// P10 (Element part), P11, P12: histories of Element operations against a plain-matrix reference model.
#include "elem.h"
#include <cmath>

namespace sim {

// ------------------------------------------------------------------ reference matrices
Mat mat(int r, int c, int n, bool cx) { Mat m; m.r = r; m.c = c; m.n = n; m.cx = cx; m.v.assign((size_t)(r * c * n), cd(0, 0)); return m; }
Mat read_elem(const Element &e) {
  Mat m = mat(e.Getrow(), e.Getcol(), e.Getnum(), e.Getiscomplex());
  const double *p = e.ObtainReadData();
  if (!p) return m;
  for (size_t i = 0; i < m.v.size(); i++) m.v[i] = m.cx ? cd(p[2 * i], p[2 * i + 1]) : cd(p[i], 0);
  return m;
}
Mat rnd_mat(int r, int c, int n, bool cx, u64 seed) {
  Rng g(seed);
  Mat m = mat(r, c, n, cx);
  for (size_t i = 0; i < m.v.size(); i++) { double a = 2 * g.unit() - 1, b = 2 * g.unit() - 1; m.v[i] = cd(a, cx ? b : 0); }
  return m;
}
void write_raw(double *p, const Mat &m) {
  for (size_t i = 0; i < m.v.size(); i++) if (m.cx) { p[2 * i] = m.v[i].real(); p[2 * i + 1] = m.v[i].imag(); } else p[i] = m.v[i].real();
}
static bool bits(double a, double b) { return dbits(a) == dbits(b) || (a != a && b != b); }
bool same_bits(const Mat &a, const Mat &b) {
  if (a.r != b.r || a.c != b.c || a.n != b.n || a.cx != b.cx) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!bits(a.v[i].real(), b.v[i].real()) || !bits(a.v[i].imag(), b.v[i].imag())) return false;
  return true;
}
bool same_shape(const Mat &a, const Mat &b) { return a.r == b.r && a.c == b.c && a.n == b.n && a.cx == b.cx; }
double maxabs(const Mat &m) { double s = 0; for (size_t i = 0; i < m.v.size(); i++) { double a = std::abs(m.v[i]); if (!(a <= s)) s = a; } return s; }
bool finite(const Mat &m) { for (size_t i = 0; i < m.v.size(); i++) if (!std::isfinite(m.v[i].real()) || !std::isfinite(m.v[i].imag())) return false; return true; }
static bool close(double a, double b, double tol) { return a == b || (a != a && b != b) || std::fabs(a - b) <= tol; }
static bool close(const Mat &a, const Mat &b, double tol) {
  if (!same_shape(a, b)) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!close(a.v[i].real(), b.v[i].real(), tol) || !close(a.v[i].imag(), b.v[i].imag(), tol)) return false;
  return true;
}
Mat mmul(const Mat &a, const Mat &b) {
  Mat m = mat(a.r, b.c, 1, a.cx || b.cx);
  for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { cd s = 0; for (int k = 0; k < a.c; k++) s += a.at(i, k) * b.at(k, j); m.at(i, j) = s; }
  return m;
}
Mat mtran(const Mat &a, char t) {
  if (t == 'N') return a;
  Mat m = mat(a.c, a.r, 1, a.cx);
  for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) m.at(j, i) = t == 'C' ? std::conj(a.at(i, j)) : a.at(i, j);
  return m;
}
Mat mherm(const Mat &a) { return mtran(a, 'C'); }
static Mat mdiag(const Mat &s) { int k = (int)s.v.size(); Mat m = mat(k, k, 1, s.cx); for (int i = 0; i < k; i++) m.at(i, i) = s.v[(size_t)i]; return m; }
static bool is_herm(const Mat &m) {
  if (m.n != 1 || m.r != m.c || m.r == 0) return false;
  for (int i = 0; i < m.r; i++) for (int j = 0; j <= i; j++) if (m.at(i, j) != std::conj(m.at(j, i))) return false;
  return true;
}
std::string show(const Mat &m) {
  char b[100];
  snprintf(b, sizeof b, "%s %dx%dx%d", m.cx ? "complex" : "real", m.r, m.c, m.n);
  std::string s = b;
  for (size_t i = 0; i < m.v.size() && i < 4; i++) { snprintf(b, sizeof b, m.cx ? " %.9g%+.9gi" : " %.9g", m.v[i].real(), m.v[i].imag()); s += b; }
  return s;
}

// ------------------------------------------------------------------ slots
struct PComp { Mat shape; std::map<std::string, Mat> uf; };
struct Slot {
  Element *e;
  Mat m;
  bool val;
  std::map<std::string, Mat> uf;  // user fields
  std::vector<PComp> comps;
  Slot() : e(0), val(false) {}
};
static const char *DERIVED[] = {"_LU", "_P", "_L", "_EigVal", "_EigVec", "_HHR", "_tau", "_Q", "_R", "_U", "_S", "_Vt", "_SchurForm", "_SchurVec"};
static const char *UNAME[] = {"u0", "u1", "u2"};

struct Pool {
  std::vector<Slot> s;
  const char *opname;
  i64 opi;
  bool leak_ok;
  Pool() : s(6), opname("start"), opi(0), leak_ok(false) {}
};
static Pool *P;
#define LIB(...) do { LibScope lib_(true); __VA_ARGS__; } while (0)

static void derived_check(const Element &e, const Mat &m, const char *who) {
  if (e.GetSizeofFields() == 0) return;
  double tol = 1e-7 * (1e-3 + maxabs(m)) * (m.r + m.c + 1);
#define HAS(x) e.FieldsExist(x)
#define F(x) read_elem(e.Field(x))
#define STALE(x) violate("stale-field", "op %lld (%s): %s has the value %s, but its field %s does not belong to that value", P->opi, P->opname, who, show(m).c_str(), x)
  if (!finite(m)) return;
  if (HAS("_LU") && HAS("_P")) {
    Mat LU = F("_LU");
    if (LU.r != m.r || LU.c != m.c || m.r != m.c) STALE("_LU");
    int k = m.r;
    Mat L = mat(k, k, 1, m.cx), U = L;
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { if (i > j) L.at(i, j) = LU.at(i, j); else U.at(i, j) = LU.at(i, j); if (i == j) L.at(i, j) = 1; }
    Mat A = mmul(L, U);
    const integer *p = (const integer *)e.Field("_P").ObtainReadData();
    for (int i = k - 1; i >= 0; i--) { int q = (int)p[i] - 1; if (q < 0 || q >= k) STALE("_P"); if (q != i) for (int j = 0; j < k; j++) std::swap(A.at(i, j), A.at(q, j)); }
    if (!close(A, m, tol)) STALE("_LU");
  }
  if (HAS("_L")) {
    Mat L = F("_L");
    if (L.r != m.r || L.c != m.c) STALE("_L");
    Mat A = mmul(L, mherm(L));
    for (int i = 0; i < m.r; i++) for (int j = 0; j <= i; j++) if (!(std::abs(A.at(i, j) - m.at(i, j)) <= tol)) STALE("_L");
  }
  if (HAS("_EigVal")) {
    Mat S = F("_EigVal");
    if ((int)S.v.size() != m.r || m.r != m.c) STALE("_EigVal");
    if (HAS("_EigVec")) {
      Mat V = F("_EigVec");
      if (V.r != m.r || V.c != m.c) STALE("_EigVec");
      Mat A = mmul(mmul(V, mdiag(S)), mherm(V));
      for (int i = 0; i < m.r; i++) for (int j = 0; j <= i; j++) if (!(std::abs(A.at(i, j) - m.at(i, j)) <= tol)) STALE("_EigVec");
    }
    double t = 0, f = 0, ts = 0, fs = 0;
    for (int i = 0; i < m.r; i++) { t += m.at(i, i).real(); ts += S.v[(size_t)i].real(); fs += std::norm(S.v[(size_t)i]); for (int j = 0; j <= i; j++) f += (i == j ? 1 : 2) * std::norm(m.at(i, j)); }
    if (std::fabs(t - ts) > tol || std::fabs(f - fs) > tol * (1 + maxabs(m))) STALE("_EigVal");
  }
  if (HAS("_HHR") && HAS("_tau")) {
    Mat H = F("_HHR");
    if (H.r != m.r || H.c != m.c) STALE("_HHR");
    int k = std::min(m.r, m.c);
    Mat R = mat(k, m.c, 1, m.cx);
    for (int i = 0; i < k; i++) for (int j = i; j < m.c; j++) R.at(i, j) = H.at(i, j);
    if (!close(mmul(mherm(R), R), mmul(mherm(m), m), tol * (1 + maxabs(m)))) STALE("_HHR");
  }
  if (HAS("_Q") && HAS("_R")) {
    Mat Q = F("_Q"), R = F("_R");
    if (Q.r != m.r || R.c != m.c || Q.c != R.r || !close(mmul(Q, R), m, tol)) STALE("_Q");
    Mat I = mmul(mherm(Q), Q);
    for (int i = 0; i < I.r; i++) I.at(i, i) -= 1;
    if (!(maxabs(I) < 1e-7)) STALE("_Q");
  }
  if (HAS("_U") && HAS("_S") && HAS("_Vt")) {
    Mat U = F("_U"), S = F("_S"), V = F("_Vt");
    if (U.r != m.r || V.c != m.c || U.c != (int)S.v.size() || !close(mmul(mmul(U, mdiag(S)), V), m, tol)) STALE("_U");
  }
  if (HAS("_SchurForm")) {
    Mat T = F("_SchurForm");
    if (T.r != m.r || T.c != m.c) STALE("_SchurForm");
    cd t = 0, ts = 0;
    for (int i = 0; i < m.r; i++) { t += m.at(i, i); ts += T.at(i, i); }
    if (std::abs(t - ts) > tol) STALE("_SchurForm");
    if (HAS("_SchurVec")) { Mat V = F("_SchurVec"); if (V.r != m.r || !close(mmul(mmul(V, T), mherm(V)), m, tol)) STALE("_SchurVec"); }
  }
#undef HAS
#undef F
#undef STALE
}
static void fields_check(const Element &e, const std::map<std::string, Mat> &uf, const Mat &m, bool val, const char *who) {
  int nd = 0;
  for (int i = 0; i < 3; i++) {
    bool want = uf.count(UNAME[i]) > 0, got = e.FieldsExist(UNAME[i]);
    if (want && !got) violate("field-lost", "op %lld (%s): %s lost its field %s", P->opi, P->opname, who, UNAME[i]);
    if (!want && got) violate("stale-field", "op %lld (%s): %s still has the field %s, which does not belong to its value", P->opi, P->opname, who, UNAME[i]);
    if (want) {
      nd++;
      Mat f = read_elem(e.Field(UNAME[i]));
      const Mat &g = uf.find(UNAME[i])->second;
      if (!same_bits(f, g)) violate("field-value", "op %lld (%s): the field %s of %s is %s, it should be %s", P->opi, P->opname, UNAME[i], who, show(f).c_str(), show(g).c_str());
    }
  }
  for (unsigned i = 0; i < sizeof DERIVED / sizeof *DERIVED; i++) nd += e.FieldsExist(DERIVED[i]);
  if (e.GetSizeofFields() != nd) violate("stale-field", "op %lld (%s): %s has %d fields, expected %d", P->opi, P->opname, who, (int)e.GetSizeofFields(), nd);
  if (val) derived_check(e, m, who);
}
static void check_slot(size_t k) {
  Slot &s = P->s[k];
  if (!s.e) return;
  char who[40];
  snprintf(who, sizeof who, "element %zu", k);
  const Element &e = *s.e;
  if (e.Getrow() != s.m.r || e.Getcol() != s.m.c || e.Getnum() != s.m.n || e.Getiscomplex() != s.m.cx || e.Getlength() != (int)s.m.v.size() * (s.m.cx ? 2 : 1))
    violate("shape", "op %lld (%s): element %zu is %s %dx%dx%d (length %d), it should be %s", P->opi, P->opname, k, e.Getiscomplex() ? "complex" : "real", (int)e.Getrow(), (int)e.Getcol(), (int)e.Getnum(), (int)e.Getlength(), show(s.m).c_str());
  if ((e.GetSpace() != 0) != s.val && !s.m.v.empty()) violate("storage", "op %lld (%s): element %zu %s a value", P->opi, P->opname, k, s.val ? "lost" : "gained");
  if (s.val) {
    Mat a = read_elem(e);
    if (!same_bits(a, s.m)) violate("value", "op %lld (%s): element %zu is %s, it should be %s", P->opi, P->opname, k, show(a).c_str(), show(s.m).c_str());
  }
  fields_check(e, s.uf, s.m, s.val, who);
  if ((int)s.comps.size() != e.Getnumofelements()) violate("components", "op %lld (%s): element %zu has %d components, it should have %zu", P->opi, P->opname, k, (int)e.Getnumofelements(), s.comps.size());
  size_t off = 0;
  for (size_t j = 0; j < s.comps.size(); j++) {
    const Element &c = e.GetElement((integer)j);
    const Mat &sh = s.comps[j].shape;
    snprintf(who, sizeof who, "component %zu of element %zu", j, k);
    if (c.Getrow() != sh.r || c.Getcol() != sh.c || c.Getnum() != sh.n || c.Getiscomplex() != sh.cx) violate("components", "op %lld (%s): %s is %s %dx%dx%d, it should be %s", P->opi, P->opname, who, c.Getiscomplex() ? "complex" : "real", (int)c.Getrow(), (int)c.Getcol(), (int)c.Getnum(), show(sh).c_str());
    size_t len = sh.v.size() * (sh.cx ? 2 : 1);
    Mat cm;
    if (s.val) {
      if (c.GetSpace() != e.GetSpace() + off) violate("components", "op %lld (%s): %s is not a window into the product's data", P->opi, P->opname, who);
      cm = read_elem(c);
    }
    fields_check(c, s.comps[j].uf, cm, s.val, who);
    off += len;
  }
}
static void check_all(int except = -1) {
  for (size_t k = 0; k < P->s.size(); k++) if ((int)k != except) check_slot(k);
}
// adopts the current structure of the element
static void adopt_comps(Slot &s) {
  s.comps.clear();
  for (int j = 0; j < s.e->Getnumofelements(); j++) {
    const Element &c = s.e->GetElement(j);
    PComp q;
    q.shape = mat(c.Getrow(), c.Getcol(), c.Getnum(), c.Getiscomplex());
    s.comps.push_back(q);
  }
}
static Slot *pick(i64 start, const std::function<bool(Slot &)> &ok) {
  for (size_t i = 0; i < P->s.size(); i++) { Slot &s = P->s[(size_t)(start + (i64)i) % P->s.size()]; if (s.e && ok(s)) return &s; }
  return 0;
}
static int idx(Slot *s) { return (int)(s - &P->s[0]); }
static Slot &slot_for(i64 d) { Slot &s = P->s[(size_t)d % P->s.size()]; if (!s.e) { LIB(s.e = new Element()); s.m = mat(0, 0, 0, false); s.val = false; s.uf.clear(); s.comps.clear(); } return s; }
static bool plain(Slot &s) { return s.val && s.comps.empty() && !s.m.v.empty(); }
static bool plain2(Slot &s) { return plain(s) && s.m.n == 1; }

// a write through the library: value must be near `want`, user fields are gone
static void wrote(Slot &s, const Mat &want, double tol) {
  Mat a = read_elem(*s.e);
  if (!same_shape(a, want)) violate("shape", "op %lld (%s): the result is %s, it should be %s", P->opi, P->opname, show(a).c_str(), show(want).c_str());
  if (!close(a, want, tol)) violate("value", "op %lld (%s): the result is %s, it should be %s", P->opi, P->opname, show(a).c_str(), show(want).c_str());
  s.m = a;
  s.val = true;
  s.uf.clear();
  for (size_t j = 0; j < s.comps.size(); j++) s.comps[j].uf.clear();
}
template <class Fn> static void result(i64 d, i64 how, const Fn &f, const Mat &want, double tol) {
  Slot &t = slot_for(d);
  if (how % 2) LIB(*t.e = f());
  else LIB(Element *ne = new Element(f()); delete t.e; t.e = ne);
  adopt_comps(t);
  wrote(t, want, tol);
}
template <class G> static Mat map1(const Mat &a, G g) { Mat m = a; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = g(a.v[i]); return m; }
template <class G> static Mat map2(const Mat &a, const Mat &b, G g) { Mat m = a; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = g(a.v[i], b.v[i]); return m; }
template <class G> static Mat raw1(const Mat &a, G g) { Mat m = a; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = cd(g(a.v[i].real()), a.cx ? g(a.v[i].imag()) : 0); return m; }
template <class G> static Mat raw2(const Mat &a, const Mat &b, G g) { Mat m = a; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = cd(g(a.v[i].real(), b.v[i].real()), a.cx ? g(a.v[i].imag(), b.v[i].imag()) : 0); return m; }
static Element make(const Mat &m) { Element e(m.r, m.c, m.n, m.cx); write_raw(e.ObtainWriteEntireData(), m); return e; }
static double coef(Rng &g) { static const double c[] = {1, -1, 2, 0.5, -1.5, 0, 0.25, 3}; return c[g.below(8)]; }
static void set_fields_from(Slot &t, const Slot &f) { t.uf = f.uf; }

// returns false when no operands fit
static bool do_op(const Rec &q) {
  const std::string &k = q.k;
  i64 a = q.at(0), b = q.at(1), d = q.at(2), how = q.at(3);
  u64 seed = (u64)q.at(4);
  Rng g(seed);
  size_t NS = P->s.size();
#define IS(x) (k == (x))
#define NEED(p) if (!(p)) return false
  // ---- construction, copying, destruction
  if (IS("new")) {
    Slot &t = P->s[(size_t)d % NS];
    bool cx = g.chance(1, 3);
    int r = (int)g.range(1, 4), c = g.chance(1, 3) ? 1 : (int)g.range(1, 4), n = g.chance(1, 6) ? 2 : 1;
    if (g.chance(1, 3)) c = r;
    Slot *like = g.chance(1, 2) ? pick(a, [](Slot &s) { return plain(s); }) : 0;
    if (like) { r = like->m.r; c = like->m.c; n = like->m.n; cx = like->m.cx; if (g.chance(1, 3)) std::swap(r, c); }
    Mat m = rnd_mat(r, c, n, cx, seed + 5);
    Element *ne = 0;
    int ctor = (int)g.below(3);
    LIB(ne = ctor == 0 ? new Element(r, c, n, cx) : ctor == 1 || n > 1 ? new Element(r, c, n, cx ? "complex" : "real") : new Element(r, c, cx ? "complex" : "real"));
    LIB(delete t.e);
    t.e = ne; t.m = m; t.val = false; t.uf.clear(); t.comps.clear();
    i64 f = g.below(8);
    if (f == 0) return true;
    if (f <= 4) { LIB(write_raw(t.e->ObtainWriteEntireData(), m)); wrote(t, m, 0); }
    else if (f == 5) { LIB(t.e->SetToZeros()); wrote(t, mat(r, c, n, cx), 0); }
    else if (f == 6 && n == 1) { LIB(t.e->SetToIdentity()); Mat w = mat(r, c, 1, cx); for (int i = 0; i < std::min(r, c); i++) w.at(i, i) = 1; wrote(t, w, 0); }
    else { LIB(t.e->RandGaussian()); wrote(t, read_elem(*t.e), 0); if (!finite(t.m)) violate("value", "RandGaussian gave a value that is not finite"); }
    return true;
  }
  if (IS("newspd")) {  // Hermitian positive definite
    Slot &t = P->s[(size_t)d % NS];
    int r = (int)g.range(1, 4);
    bool cx = g.chance(1, 3);
    Mat x = rnd_mat(r, r, 1, cx, seed + 9), m = mmul(x, mherm(x));
    for (int i = 0; i < r; i++) { m.at(i, i) = m.at(i, i).real() + 0.5; for (int j = 0; j < i; j++) m.at(j, i) = std::conj(m.at(i, j)); }
    Element *ne = 0;
    LIB(ne = new Element(r, r, 1, cx));
    LIB(delete t.e);
    t.e = ne; t.m = m; t.val = false; t.uf.clear(); t.comps.clear();
    LIB(write_raw(t.e->ObtainWriteEntireData(), m));
    wrote(t, m, 0);
    return true;
  }
  if (IS("prod")) {
    Slot &t = P->s[(size_t)d % NS];
    int nt = (int)g.range(1, 3);
    std::vector<Mat> sh;
    std::vector<integer> pow(1, 0);
    for (int i = 0; i < nt; i++) { int r = (int)g.range(1, 3), c = (int)g.range(1, 3); bool cx = g.chance(1, 4); sh.push_back(mat(r, c, 1, cx)); pow.push_back(pow.back() + (integer)g.range(1, 2)); }
    // sometimes the transposed shapes of an existing product
    Slot *like = g.chance(1, 2) ? pick(a, [](Slot &s) { return !s.comps.empty(); }) : 0;
    if (like && g.chance(2, 3)) {
      int flip = (int)g.below(3);
      const integer *pw = like->e->Getpowsinterval();
      int ntt = (int)like->e->Getnumoftypes();
      sh.clear(); pow.assign(1, 0);
      for (int i = 0; i < ntt; i++) { Mat q = like->comps[(size_t)pw[i]].shape; if (flip == 1) std::swap(q.r, q.c); if (flip == 2) q = mat((int)q.v.size() * (q.cx ? 2 : 1), 1, 1, false); sh.push_back(q); pow.push_back(pw[i + 1]); }
      nt = ntt;
    }
    Element *ne = 0;
    {
      std::vector<Element> ty;
      for (int i = 0; i < nt; i++) LIB(ty.push_back(Element(sh[(size_t)i].r, sh[(size_t)i].c, 1, sh[(size_t)i].cx)));
      if (how % 2 && nt == 2) LIB(ne = new Element(2, &ty[0], pow[1], &ty[1], (integer)(pow[2] - pow[1])));
      else LIB(ne = new Element((integer)nt, &ty[0], &pow[0]));
      LIB(ty.clear());
      LIB(std::vector<Element>().swap(ty));
    }
    LIB(delete t.e);
    t.e = ne; t.uf.clear(); t.val = false; t.comps.clear();
    int len = 0;
    for (int i = 0; i < nt; i++) for (integer j = pow[(size_t)i]; j < pow[(size_t)i + 1]; j++) { PComp c; c.shape = sh[(size_t)i]; t.comps.push_back(c); len += (int)c.shape.v.size() * (c.shape.cx ? 2 : 1); }
    t.m = mat(len, 1, 1, false);
    if (g.chance(1, 6)) return true;
    Mat m = rnd_mat(len, 1, 1, false, seed + 3);
    switch (g.below(3)) {
      case 0: LIB(write_raw(t.e->ObtainWriteEntireData(), m)); break;
      case 1: LIB(t.e->SetToZeros()); m = mat(len, 1, 1, false); break;
      default: LIB(t.e->RandGaussian()); m = read_elem(*t.e);
    }
    wrote(t, m, 0);
    return true;
  }
  if (IS("copy")) {
    Slot *f = pick(a, [](Slot &) { return true; });
    NEED(f);
    Slot &t = P->s[(size_t)d % NS];
    Element *ne = 0;
    LIB(ne = new Element(*f->e));
    Slot n = *f;
    LIB(delete t.e);
    t = n; t.e = ne;
    return true;
  }
  if (IS("assign") || IS("copyto") || IS("selfassign")) {
    Slot *f = pick(a, [](Slot &) { return true; });
    NEED(f);
    Slot &t = IS("selfassign") ? *f : slot_for(d);
    if (IS("copyto")) LIB(f->e->CopyTo(*t.e)); else LIB(*t.e = *f->e);
    Element *e = t.e;
    Slot n = *f;
    t = n; t.e = e;
    return true;
  }
  if (IS("del")) {
    Slot &t = P->s[(size_t)d % NS];
    NEED(t.e);
    LIB(delete t.e);
    t = Slot();
    return true;
  }
  if (IS("delete-assign")) {  // Delete() gives the memory back, the element can be assigned again
    Slot *f = pick(a, [](Slot &) { return true; });
    Slot *t = pick(d, [](Slot &s) { return s.comps.empty(); });
    NEED(f && t && f != t);
    LIB(t->e->Delete());
    LIB(*t->e = *f->e);
    Element *e = t->e;
    Slot n = *f;
    *t = n; t->e = e;
    return true;
  }
  if (IS("byvalue")) {  // pass by value, modify the parameter, return it
    Slot *f = pick(a, [](Slot &s) { return s.val && !s.m.v.empty(); });
    NEED(f);
    Mat w = f->m;
    cd old = w.v[0];
    w.v[0] = cd(old.real() + 1, old.imag());
    auto fn = [](Element x) { double *p = x.ObtainWritePartialData(); p[0] += 1; return x; };
    result(d, how, [&] { return fn(*f->e); }, w, 0);
    return true;
  }
  // ---- in-place writes
  if (IS("partial") || IS("entire") || IS("zeros") || IS("gauss") || IS("unif") || IS("scal") || IS("cowwrite") || IS("newmem")) {
    Slot *t = pick(a, [](Slot &s) { return !s.m.v.empty(); });
    NEED(t);
    Mat w = t->m;
    if (IS("partial") || IS("cowwrite")) {
      NEED(t->val);
      size_t i = (size_t)g.below((i64)w.v.size());
      double v = g.unit();
      w.v[i] = cd(v, w.v[i].imag());
      size_t off = w.cx ? 2 * i : i;
      if (IS("partial")) LIB(t->e->ObtainWritePartialData()[off] = v);
      else LIB(t->e->CopyOnWrite(); const_cast<double *>(t->e->GetSpace())[off] = v);
      wrote(*t, w, 0);
    } else if (IS("entire") || IS("newmem")) {
      w = rnd_mat(w.r, w.c, w.n, w.cx, seed + 1);
      if (IS("entire")) LIB(write_raw(t->e->ObtainWriteEntireData(), w));
      else { LIB(t->e->NewMemoryOnWrite()); write_raw(const_cast<double *>(t->e->GetSpace()), w); }
      wrote(*t, w, 0);
    } else if (IS("zeros")) { LIB(t->e->SetToZeros()); wrote(*t, mat(w.r, w.c, w.n, w.cx), 0); }
    else if (IS("gauss") || IS("unif")) {
      if (IS("gauss")) LIB(t->e->RandGaussian(0, 1)); else LIB(t->e->RandUnform(-1, 1));
      w = read_elem(*t->e);
      if (!finite(w) || (IS("unif") && [&] { for (size_t i = 0; i < w.v.size(); i++) if (std::fabs(w.v[i].real()) > 1 || std::fabs(w.v[i].imag()) > 1) return true; return false; }())) violate("value", "op %lld (%s): a random entry is out of range", P->opi, P->opname);
      wrote(*t, w, 0);
    } else {
      NEED(t->val);
      double al = coef(g), ai = coef(g);
      if (w.cx && g.chance(1, 2)) { realdpcomplex z = {al, ai}; LIB(t->e->ScalarTimesThis(z)); wrote(*t, map1(w, [&](cd x) { return x * cd(al, ai); }), 1e-12 * (1 + maxabs(w))); }
      else { LIB(t->e->ScalarTimesThis(al)); wrote(*t, map1(w, [&](cd x) { return x * al; }), 1e-12 * (1 + maxabs(w))); }
    }
    return true;
  }
  if (IS("identity")) {
    Slot *t = pick(a, [](Slot &s) { return s.comps.empty() && s.m.n == 1 && !s.m.v.empty(); });
    NEED(t);
    Mat w = mat(t->m.r, t->m.c, 1, t->m.cx);
    double al = 1;
    if (how % 2 && !w.cx && w.r == w.c) { al = coef(g); LIB(t->e->ScaledIdOPE(al)); } else LIB(t->e->SetToIdentity());
    for (int i = 0; i < std::min(w.r, w.c); i++) w.at(i, i) = al;
    wrote(*t, w, 0);
    return true;
  }
  if (IS("axpy")) {
    Slot *t = pick(a, [](Slot &s) { return s.val && !s.m.v.empty(); });
    NEED(t);
    Slot *x = pick(b, [&](Slot &s) { return s.val && same_shape(s.m, t->m) && s.comps.size() == t->comps.size(); });
    NEED(x);
    double al = coef(g), ai = coef(g);
    Mat w;
    if (t->m.cx && how % 2) { realdpcomplex z = {al, ai}; w = map2(t->m, x->m, [&](cd p, cd r) { return p + cd(al, ai) * r; }); LIB(t->e->AlphaXaddThis(z, *x->e)); }
    else { w = map2(t->m, x->m, [&](cd p, cd r) { return p + al * r; }); LIB(t->e->AlphaXaddThis(al, *x->e)); }
    wrote(*t, w, 1e-12 * (1 + maxabs(t->m) + 4 * maxabs(x->m)));
    return true;
  }
  if (IS("pluseq")) {
    Slot *t = pick(a, [](Slot &s) { return plain(s); });
    NEED(t);
    Slot *x = pick(b, [&](Slot &s) { return plain(s) && same_shape(s.m, t->m); });
    NEED(x);
    double sg = how % 2 ? 1 : -1;
    Mat w = map2(t->m, x->m, [&](cd p, cd r) { return p + sg * r; });
    if (how % 2) LIB(*t->e += *x->e); else LIB(*t->e -= *x->e);
    wrote(*t, w, 1e-12 * (1 + maxabs(w)));
    return true;
  }
  if (IS("gemm")) {
    Slot *A = pick(a, [](Slot &s) { return plain2(s); });
    NEED(A);
    bool cx = A->m.cx;
    char ta = "NTC"[g.below(cx ? 3 : 2)], tb = "NTC"[g.below(cx ? 3 : 2)];
    Mat ma = mtran(A->m, ta);
    Slot *B = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == cx && mtran(s.m, tb).r == ma.c; });
    NEED(B);
    Mat mb = mtran(B->m, tb), ab = mmul(ma, mb);
    Slot *t = pick(d, [&](Slot &s) { return plain2(s) && s.m.cx == cx && s.m.r == ab.r && s.m.c == ab.c; });
    NEED(t);
    double al = coef(g), be = coef(g);
    Mat w = map2(ab, t->m, [&](cd p, cd r) { return al * p + be * r; });
    char sa[2] = {ta, 0}, sb[2] = {tb, 0};
    if (cx && how % 2) { realdpcomplex za = {al, 0}, zb = {be, 0}; LIB(t->e->AlphaABaddBetaThis(za, *A->e, sa, *B->e, sb, zb)); }
    else LIB(t->e->AlphaABaddBetaThis(al, *A->e, sa, *B->e, sb, be));
    if (t == A || t == B) count("alias");
    wrote(*t, w, 1e-11 * (1 + maxabs(ab) + maxabs(w) + maxabs(t->m) + 4 * maxabs(A->m) * maxabs(B->m)));
    return true;
  }
  if (IS("rank1") || IS("getrank1")) {
    Slot *t = pick(a, [](Slot &s) { return plain2(s); });
    NEED(t);
    bool cx = t->m.cx;
    Mat u = rnd_mat(t->m.r, 1, 1, cx, seed + 1), v = rnd_mat(t->m.c, 1, 1, cx, seed + 2);
    Slot *us = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == cx && s.m.c == 1 && s.m.r == t->m.r && &s != t; });
    if (us) u = us->m;
    Element *ue = 0, *ve = 0;
    if (us) ue = us->e; else LIB(ue = new Element(make(u)));
    try { LIB(ve = new Element(make(v))); } catch (...) { if (!us) LIB(delete ue); throw; }
    double al = coef(g);
    Mat w = t->m, wt = t->m;  // the header does not say whether v' conjugates a complex v
    for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) { w.at(i, j) += al * u.v[(size_t)i] * v.v[(size_t)j]; wt.at(i, j) += al * u.v[(size_t)i] * std::conj(v.v[(size_t)j]); }
    double tol = 1e-12 * (1 + maxabs(w) + maxabs(wt) + 4 * maxabs(u) * maxabs(v));
    try {
      if (IS("rank1")) {
        if (cx) { realdpcomplex z = {al, 0}; LIB(t->e->HaddRankone(z, *ue, *ve)); } else LIB(t->e->HaddRankone(al, *ue, *ve));
        wrote(*t, close(read_elem(*t->e), wt, tol) ? wt : w, tol);
      } else if (cx) { realdpcomplex z = {al, 0}; Element r = t->e->GetHaddRankone(z, *ue, *ve); result(d, how, [&] { return r; }, close(read_elem(r), wt, tol) ? wt : w, tol); LIB(r = Element()); }
      else result(d, how, [&] { return t->e->GetHaddRankone(al, *ue, *ve); }, w, tol);
    } catch (...) { if (!us) LIB(delete ue); LIB(delete ve); throw; }
    if (!us) LIB(delete ue);
    LIB(delete ve);
    return true;
  }
  if (IS("diagmul") || IS("getdiagmul")) {
    Slot *t = pick(a, [](Slot &s) { return plain2(s); });
    NEED(t);
    bool left = g.chance(1, 2);
    int len = left ? t->m.r : t->m.c;
    Slot *dg = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == t->m.cx && s.m.r * s.m.c == len && &s != t; });
    NEED(dg);
    Mat w = t->m;
    for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) w.at(i, j) *= dg->m.v[(size_t)(left ? i : j)];
    double tol = 1e-12 * (1 + maxabs(t->m) * maxabs(dg->m));
    if (IS("diagmul")) { LIB(dg->e->DiagTimesM(*t->e, left ? GLOBAL::L : GLOBAL::R)); wrote(*t, w, tol); }
    else result(d, how, [&] { return dg->e->GetDiagTimesM(*t->e, left ? GLOBAL::L : GLOBAL::R); }, w, tol);
    return true;
  }
  if (IS("reshape") || IS("getreshape")) {
    Slot *t = pick(a, [](Slot &s) { return plain(s); });
    NEED(t);
    int len = (int)t->m.v.size(), r, c, n = 1;
    do r = (int)g.range(1, len); while (len % r);
    c = len / r;
    if (c % 2 == 0 && g.chance(1, 5)) { c /= 2; n = 2; }
    Mat w = t->m;
    w.r = r; w.c = c; w.n = n;
    if (IS("reshape")) {
      bool changed = !same_shape(w, t->m);
      LIB(t->e->Reshape(r, c, n));
      t->m = w;
      if (changed) t->uf.clear();
    } else {
      Slot &o = slot_for(d);
      std::map<std::string, Mat> keep = same_shape(w, t->m) ? t->uf : std::map<std::string, Mat>();
      if (how % 2) LIB(*o.e = t->e->GetReshape(r, c, n));
      else LIB(Element *ne = new Element(t->e->GetReshape(r, c, n)); delete o.e; o.e = ne);
      adopt_comps(o);
      wrote(o, w, 0);
      o.uf = keep;
    }
    return true;
  }
  if (IS("conj") || IS("getconj")) {
    Slot *t = pick(a, [](Slot &s) { return plain(s) && s.m.cx; });
    NEED(t);
    Mat w = map1(t->m, [](cd x) { return std::conj(x); });
    if (IS("conj")) { LIB(t->e->Conj()); wrote(*t, w, 0); }
    else result(d, how, [&] { return t->e->GetConj(); }, w, 0);
    return true;
  }
  if (IS("subset") || IS("subget")) {
    Slot *t = pick(a, [](Slot &s) { return plain2(s); });
    NEED(t);
    int r0 = (int)g.below(t->m.r), r1 = (int)g.range(r0, t->m.r - 1), c0 = (int)g.below(t->m.c), c1 = (int)g.range(c0, t->m.c - 1);
    if (IS("subget")) {
      Mat w = mat(r1 - r0 + 1, c1 - c0 + 1, 1, t->m.cx);
      for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) w.at(i - r0, j - c0) = t->m.at(i, j);
      result(d, how, [&] { return t->e->GetSubmatrix(r0, r1, c0, c1); }, w, 0);
      return true;
    }
    Slot *x = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == t->m.cx && s.m.r <= t->m.r && s.m.c <= t->m.c; });
    NEED(x);
    r0 = (int)g.below(t->m.r - x->m.r + 1); c0 = (int)g.below(t->m.c - x->m.c + 1);
    Mat w = t->m;
    for (int i = 0; i < x->m.r; i++) for (int j = 0; j < x->m.c; j++) w.at(i + r0, j + c0) = x->m.at(i, j);
    LIB(t->e->SubmatrixAssignment(r0, r0 + x->m.r - 1, c0, c0 + x->m.c - 1, *x->e));
    wrote(*t, w, 0);
    return true;
  }
  if (IS("transpose") || IS("gettranspose")) {
    Slot *t = pick(a, [](Slot &s) { return plain2(s); });
    NEED(t);
    Mat w = mherm(t->m);
    if (IS("transpose")) { LIB(t->e->Transpose()); wrote(*t, w, 0); }
    else result(d, how, [&] { return t->e->GetTranspose(); }, w, 0);
    return true;
  }
  // ---- components
  if (IS("compread")) {  // a copy of a component is an independent value
    Slot *t = pick(a, [](Slot &s) { return s.val && !s.comps.empty(); });
    NEED(t);
    size_t j = (size_t)g.below((i64)t->comps.size());
    Mat w = read_elem(t->e->GetElement((integer)j));
    std::map<std::string, Mat> uf = t->comps[j].uf;
    Slot &o = slot_for(d);  // may be the product itself
    if (how % 2) LIB(*o.e = t->e->GetElement((integer)j));
    else LIB(Element *ne = new Element(t->e->GetElement((integer)j)); delete o.e; o.e = ne);
    o.comps.clear();
    wrote(o, w, 0);
    o.uf = uf;
    return true;
  }
  if (IS("compwrite")) {  // after CopyOnWrite of the product its components can be written
    Slot *t = pick(a, [](Slot &s) { return s.val && !s.comps.empty(); });
    NEED(t);
    size_t j = (size_t)g.below((i64)t->comps.size()), off = 0;
    for (size_t i = 0; i < j; i++) off += t->comps[i].shape.v.size() * (t->comps[i].shape.cx ? 2 : 1);
    Mat sh = t->comps[j].shape, w = rnd_mat(sh.r, sh.c, 1, sh.cx, seed + 4);
    Slot *x = pick(b, [&](Slot &s) { return plain(s) && same_shape(s.m, sh); });
    std::map<std::string, Mat> uf;
    if (x) { w = x->m; uf = x->uf; }
    Mat want = t->m;
    LIB(t->e->CopyOnWrite());
    t->uf.clear();
    for (size_t i = 0; i < t->comps.size(); i++) t->comps[i].uf.clear();
    if (how % 4 == 0) { std::vector<double> raw(w.v.size() * 2); write_raw(&raw[0], w); LIB(double *p = t->e->GetElement((integer)j).ObtainWritePartialData(); for (size_t i = 0; i < w.v.size() * (w.cx ? 2 : 1); i++) p[i] = raw[i]); uf.clear(); }
    else if (x && how % 4 == 1) { LIB(t->e->GetElement((integer)j) = *x->e); }
    else if (how % 4 == 2) { Mat cur = read_elem(t->e->GetElement((integer)j)); LIB(t->e->GetElement((integer)j).ScalarTimesThis(2)); w = map1(cur, [](cd z) { return 2.0 * z; }); uf.clear(); }
    else { LIB(t->e->GetElement((integer)j) = make(w)); uf.clear(); }
    std::vector<double> raw(w.v.size() * 2);
    write_raw(&raw[0], w);
    for (size_t i = 0; i < w.v.size() * (w.cx ? 2 : 1); i++) want.v[off + i] = cd(raw[i], 0);
    wrote(*t, want, 1e-12 * (1 + maxabs(w)));
    t->comps[j].uf = uf;
    return true;
  }
  // ---- user fields
  if (IS("addfield")) {
    Slot *t = pick(a, [](Slot &) { return true; });
    Slot *x = pick(b, [](Slot &s) { return s.val; });
    NEED(t && x);
    const char *nm = UNAME[g.below(3)];
    Mat fv = x->m;
    if (how % 2) LIB(t->e->AddToFields(nm, const_cast<const Element &>(*x->e))); else LIB(t->e->AddToFields(nm, *x->e));
    t->uf[nm] = fv;
    return true;
  }
  if (IS("compfield")) {
    Slot *t = pick(a, [](Slot &s) { return !s.comps.empty(); });
    Slot *x = pick(b, [](Slot &s) { return s.val; });
    NEED(t && x && t != x);
    size_t j = (size_t)g.below((i64)t->comps.size());
    const char *nm = UNAME[g.below(3)];
    LIB(t->e->GetElement((integer)j).AddToFields(nm, *x->e));
    t->comps[j].uf[nm] = x->m;
    return true;
  }
  if (IS("delfield") || IS("getfield") || IS("fieldwrite") || IS("axpyfield")) {
    Slot *t = pick(a, [](Slot &s) { return !s.uf.empty(); });
    NEED(t);
    std::map<std::string, Mat>::iterator it = t->uf.begin();
    std::advance(it, g.below((i64)t->uf.size()));
    std::string nm = it->first;
    Mat w = it->second;
    if (IS("delfield")) {
      if (g.chance(1, 4)) { LIB(t->e->RemoveAllFromFields()); t->uf.clear(); for (size_t j = 0; j < t->comps.size(); j++) t->comps[j].uf.clear(); }
      else { LIB(t->e->RemoveFromFields(nm)); t->uf.erase(it); }
      return true;
    }
    if (IS("fieldwrite")) {  // changing the field through Field() changes this element's field only
      if (w.v.empty()) return false;
      LIB(double *p = t->e->Field(nm).ObtainWritePartialData(); p[0] = 0.125);
      w.v[0] = cd(0.125, w.v[0].imag());
      it->second = w;
      return true;
    }
    if (IS("axpyfield")) {
      NEED(t->val && same_shape(w, t->m) && !w.v.empty());
      Mat want = map2(t->m, w, [&](cd p, cd r) { return p - 2.0 * r; });
      LIB(t->e->AlphaXaddThis(-2, t->e->Field(nm)));
      wrote(*t, want, 1e-12 * (1 + maxabs(want)));
      return true;
    }
    Slot &o = slot_for(d);
    std::vector<std::string> un;
    std::map<std::string, Mat> inner;  // fields of the field
    for (int i = 0; i < 3; i++) if (t->e->Field(nm).FieldsExist(UNAME[i])) inner[UNAME[i]] = read_elem(t->e->Field(nm).Field(UNAME[i]));
    if (how % 2) LIB(*o.e = t->e->Field(nm));
    else LIB(Element *ne = new Element(t->e->Field(nm)); delete o.e; o.e = ne);
    adopt_comps(o);
    for (size_t j = 0; j < o.comps.size(); j++) for (int i = 0; i < 3; i++) if (o.e->GetElement((integer)j).FieldsExist(UNAME[i])) o.comps[j].uf[UNAME[i]] = read_elem(o.e->GetElement((integer)j).Field(UNAME[i]));
    std::vector<PComp> keep = o.comps;
    wrote(o, w, 0);
    o.comps = keep;
    o.uf = inner;
    return true;
  }
  // ---- values
  if (IS("add") || IS("sub") || IS("had") || IS("haddiv") || IS("max") || IS("min") || IS("cmp")) {
    Slot *x = pick(a, [](Slot &s) { return s.val && !s.m.v.empty(); });
    NEED(x);
    Slot *y = pick(b, [&](Slot &s) { return s.val && same_shape(s.m, x->m) && s.comps.size() == x->comps.size(); });
    NEED(y);
    Element &X = *x->e, &Y = *y->e;
    Mat mx = x->m, my = y->m;
    double sc = 1e-12 * (1 + maxabs(mx) + maxabs(my) + maxabs(mx) * maxabs(my));
    if (IS("add")) result(d, how, [&] { return X + Y; }, map2(mx, my, [](cd p, cd r) { return p + r; }), sc);
    else if (IS("sub")) result(d, how, [&] { return X - Y; }, map2(mx, my, [](cd p, cd r) { return p - r; }), sc);
    else if (IS("had")) result(d, how, [&] { return X.GetHadamardProduct(Y); }, map2(mx, my, [](cd p, cd r) { return p * r; }), sc);
    else if (IS("haddiv")) {
      for (size_t i = 0; i < my.v.size(); i++) if (std::abs(my.v[i]) < 1e-3) return false;
      result(d, how, [&] { return X.GetHadamardDivision(Y); }, map2(mx, my, [](cd p, cd r) { return p / r; }), 1e-9 * (1 + maxabs(mx)));
    } else if (IS("cmp")) {
      switch (g.below(5)) {
        case 0: result(d, how, [&] { return X > Y; }, raw2(mx, my, [](double p, double r) { return (double)(p > r); }), 0); break;
        case 1: result(d, how, [&] { return X >= Y; }, raw2(mx, my, [](double p, double r) { return (double)(p >= r); }), 0); break;
        case 2: result(d, how, [&] { return X < Y; }, raw2(mx, my, [](double p, double r) { return (double)(p < r); }), 0); break;
        case 3: result(d, how, [&] { return X <= Y; }, raw2(mx, my, [](double p, double r) { return (double)(p <= r); }), 0); break;
        default: result(d, how, [&] { return X == Y; }, raw2(mx, my, [](double p, double r) { return (double)(p == r); }), 0);
      }
    } else {
      NEED(!mx.cx);
      if (IS("max")) result(d, how, [&] { return X.GetMax(Y); }, raw2(mx, my, [](double p, double r) { return p > r ? p : r; }), 0);
      else result(d, how, [&] { return X.GetMin(Y); }, raw2(mx, my, [](double p, double r) { return p < r ? p : r; }), 0);
    }
    return true;
  }
  if (IS("scalar")) {
    Slot *x = pick(a, [](Slot &s) { return s.val && !s.m.v.empty(); });
    NEED(x);
    Element &X = *x->e;
    Mat mx = x->m;
    double v = coef(g), vi = coef(g), sc = 1e-12 * (1 + 4 * maxabs(mx));
    realdpcomplex z = {v, vi};
    cd Z(v, vi);
    i64 which = g.below(22);
    if (mx.cx) {
      switch (which % 8) {
        case 7:
          for (size_t i = 0; i < mx.v.size(); i++) if (std::abs(mx.v[i]) < 1e-3) return false;
          result(d, how, [&] { return z / X; }, map1(mx, [&](cd p) { return Z / p; }), 1e-9); break;
        case 0: result(d, how, [&] { return z * X; }, map1(mx, [&](cd p) { return p * Z; }), sc); break;
        case 1: result(d, how, [&] { return X * z; }, map1(mx, [&](cd p) { return p * Z; }), sc); break;
        case 2: result(d, how, [&] { return X + z; }, map1(mx, [&](cd p) { return p + Z; }), sc); break;
        case 3: result(d, how, [&] { return z + X; }, map1(mx, [&](cd p) { return p + Z; }), sc); break;
        case 4: result(d, how, [&] { return X - z; }, map1(mx, [&](cd p) { return p - Z; }), sc); break;
        case 5: result(d, how, [&] { return z - X; }, map1(mx, [&](cd p) { return Z - p; }), sc); break;
        default: if (std::abs(Z) == 0) return false; result(d, how, [&] { return X / z; }, map1(mx, [&](cd p) { return p / Z; }), 1e-11 * (1 + 4 * maxabs(mx)));
      }
      return true;
    }
    switch (which) {
      case 0: result(d, how, [&] { return v * X; }, raw1(mx, [&](double p) { return p * v; }), sc); break;
      case 1: result(d, how, [&] { return X * v; }, raw1(mx, [&](double p) { return p * v; }), sc); break;
      case 2: result(d, how, [&] { return X + v; }, raw1(mx, [&](double p) { return p + v; }), sc); break;
      case 3: result(d, how, [&] { return v + X; }, raw1(mx, [&](double p) { return p + v; }), sc); break;
      case 4: result(d, how, [&] { return X - v; }, raw1(mx, [&](double p) { return p - v; }), sc); break;
      case 5: result(d, how, [&] { return v - X; }, raw1(mx, [&](double p) { return v - p; }), sc); break;
      case 6: if (v == 0) return false; result(d, how, [&] { return X / v; }, raw1(mx, [&](double p) { return p / v; }), sc); break;
      case 7: for (size_t i = 0; i < mx.v.size(); i++) if (std::fabs(mx.v[i].real()) < 1e-3) return false; result(d, how, [&] { return v / X; }, raw1(mx, [&](double p) { return v / p; }), 1e-9); break;
      case 8: result(d, how, [&] { return X.GetMax(v); }, raw1(mx, [&](double p) { return p > v ? p : v; }), 0); break;
      case 9: result(d, how, [&] { return X.GetMin(v); }, raw1(mx, [&](double p) { return p < v ? p : v; }), 0); break;
      case 10: result(d, how, [&] { return X.GetAbs(); }, raw1(mx, [](double p) { return std::fabs(p); }), 0); break;
      case 11: result(d, how, [&] { return X.GetAbs().GetSqrt(); }, raw1(mx, [](double p) { return std::sqrt(std::fabs(p)); }), sc); break;
      case 12: result(d, how, [&] { return X > v; }, raw1(mx, [&](double p) { return (double)(p > v); }), 0); break;
      case 13: result(d, how, [&] { return v > X; }, raw1(mx, [&](double p) { return (double)(v > p); }), 0); break;
      case 14: result(d, how, [&] { return X >= v; }, raw1(mx, [&](double p) { return (double)(p >= v); }), 0); break;
      case 15: result(d, how, [&] { return v >= X; }, raw1(mx, [&](double p) { return (double)(v >= p); }), 0); break;
      case 16: result(d, how, [&] { return X < v; }, raw1(mx, [&](double p) { return (double)(p < v); }), 0); break;
      case 17: result(d, how, [&] { return v < X; }, raw1(mx, [&](double p) { return (double)(v < p); }), 0); break;
      case 18: result(d, how, [&] { return v <= X; }, raw1(mx, [&](double p) { return (double)(v <= p); }), 0); break;
      case 19: result(d, how, [&] { return X == v; }, raw1(mx, [&](double p) { return (double)(p == v); }), 0); break;
      case 20: result(d, how, [&] { return X <= v; }, raw1(mx, [&](double p) { return (double)(p <= v); }), 0); break;
      default: result(d, how, [&] { return v == X; }, raw1(mx, [&](double p) { return (double)(v == p); }), 0);
    }
    return true;
  }
  if (IS("mul")) {
    Slot *x = pick(a, [](Slot &s) { return plain2(s); });
    NEED(x);
    Slot *y = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == x->m.cx && s.m.r == x->m.c; });
    NEED(y);
    result(d, how, [&] { return *x->e * *y->e; }, mmul(x->m, y->m), 1e-12 * (1 + 8 * maxabs(x->m) * maxabs(y->m)));
    return true;
  }
  if (IS("solve")) {  // x % y = x^{-1} y, y / x = y x^{-1}
    Slot *x = pick(a, [](Slot &s) { return plain2(s) && s.m.r == s.m.c; });
    NEED(x);
    Mat mx = x->m;
    for (int i = 0; i < mx.r; i++) { double o = 0; for (int j = 0; j < mx.r; j++) if (j != i) o += std::abs(mx.at(i, j)); if (std::abs(mx.at(i, i)) < 1.05 * o + 0.01) return false; }
    bool left = g.chance(1, 2);
    Slot *y = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == x->m.cx && (left ? s.m.r : s.m.c) == mx.r; });
    NEED(y);
    Mat my = y->m;
    Slot &o = slot_for(d);
    if (left) LIB(*o.e = *x->e % *y->e); else LIB(*o.e = *y->e / *x->e);
    o.comps.clear();
    Mat z = read_elem(*o.e);
    if (z.r != my.r || z.c != my.c || !close(left ? mmul(mx, z) : mmul(z, mx), my, 1e-7 * (1 + maxabs(my)))) violate("value", "op %lld (%s): the solution %s does not solve the system", P->opi, P->opname, show(z).c_str());
    wrote(o, z, 0);
    return true;
  }
  if (IS("print")) {  // the numbers printed are the element's numbers, matrix by matrix and row by row
    Slot *x = pick(a, [&](Slot &) { return true; });
    NEED(x && x->e);
    bool main = how % 4 != 0;
    size_t from = captured().size();
    if (how % 8 == 1) LIB(x->e->PrintSize("x", b % 2)); else LIB(x->e->Print("x", main));
    std::string t = captured().substr(from);
    if (!main || how % 8 == 1 || !x->val) return true;
    std::string want, got;
    char buf[64];
    size_t off = 0;
    std::vector<Mat> parts;
    if (x->comps.empty()) parts.push_back(x->m);
    for (size_t i = 0; i < x->comps.size(); i++) {
      Mat q = x->comps[i].shape; q.v.resize((size_t)(q.r * q.c * q.n));
      for (size_t j = 0; j < q.v.size(); j++) { double re = x->m.v[off++].real(); q.v[j] = cd(re, q.cx ? x->m.v[off++].real() : 0); }
      parts.push_back(q);
    }
    for (size_t i = 0; i < parts.size(); i++) {
      const Mat &q = parts[i];
      for (int n = 0; n < q.n; n++) for (int r = 0; r < q.r; r++) for (int c = 0; c < q.c; c++) {
        cd v = q.v[(size_t)(r + c * q.r + n * q.r * q.c)];
        snprintf(buf, sizeof buf, "%.9e ", v.real()); want += buf;
        if (q.cx) { snprintf(buf, sizeof buf, "%.9e ", v.imag()); want += buf; }
      }
    }
    size_t cnt = 0; bool ok = true; const char *w = want.c_str();
    for (const char *c = t.c_str(); *c;) {
      char *end = 0;
      if ((isdigit((unsigned char)*c) || (*c == '-' && isdigit((unsigned char)c[1]))) && (c == t.c_str() || !isalnum((unsigned char)c[-1]))) {
        double v = strtod(c, &end);
        if (memchr(c, 'e', (size_t)(end - c)) && memchr(c, '.', (size_t)(end - c))) {
          char *we = 0; double u = strtod(w, &we);
          if (we == w || !(std::fabs(u - v) <= 1e-8 * std::fabs(u))) ok = false;
          w = we; cnt++;
        }
        c = end;
      } else c++;
    }
    while (*w == ' ') w++;
    if (cnt && (!ok || *w)) violate("value", "op %lld (print): the printed numbers are not the element's numbers", P->opi);
    if (cnt) mark("printed:%zu:%d", parts.size() > 3 ? 3 : parts.size(), (int)parts[0].n);
    return true;
  }
  if (IS("misc")) {
    i64 which = g.below(10);
    Slot *x = pick(a, [&](Slot &s) { return plain2(s) && (which < 3 || which >= 8 || s.m.cx); });
    NEED(x);
    Element &X = *x->e;
    Mat mx = x->m;
    double sc = 1e-12 * (1 + 8 * maxabs(mx) * maxabs(mx));
    if (which == 0) {
      Mat w = mat(1, mx.c, 1, false);
      for (int j = 0; j < mx.c; j++) { double t = 0; for (int i = 0; i < mx.r; i++) t += std::norm(mx.at(i, j)); w.v[(size_t)j] = t; }
      result(d, how, [&] { return X.GetColNormsSquare(); }, w, sc);
    } else if (which == 1) {
      Slot *y = pick(b, [&](Slot &s) { return plain2(s) && same_shape(s.m, mx); });
      Mat my = y->m, w = mat(1, mx.c, 1, false);
      for (int j = 0; j < mx.c; j++) { double t = 0; for (int i = 0; i < mx.r; i++) t += (std::conj(mx.at(i, j)) * my.at(i, j)).real(); w.v[(size_t)j] = t; }
      result(d, how, [&] { return X.GetColDotProducts(*y->e); }, w, 1e-12 * (1 + 8 * maxabs(mx) * maxabs(my)));
    } else if (which == 2) {
      Slot *y = pick(b, [&](Slot &s) { return s.val && same_shape(s.m, mx); });
      double t = 0, n2 = 0;
      for (size_t i = 0; i < mx.v.size(); i++) { t += (std::conj(mx.v[i]) * y->m.v[i]).real(); n2 += std::norm(mx.v[i]); }
      double got, fn;
      LIB(got = X.DotProduct(*y->e); fn = X.Fnorm());
      if (!close(got, t, 1e-11 * (1 + 16 * maxabs(mx) * maxabs(y->m))) || !close(fn, std::sqrt(n2), 1e-11 * (1 + 4 * maxabs(mx)))) violate("value", "op %lld (misc): DotProduct %.17g (expected %.17g), Fnorm %.17g (expected %.17g)", P->opi, got, t, fn, std::sqrt(n2));
    } else if (which == 3 || which == 4) {
      Mat w = mat(mx.r, mx.c, 1, false);
      for (size_t i = 0; i < w.v.size(); i++) w.v[i] = which == 3 ? mx.v[i].real() : mx.v[i].imag();
      result(d, how, [&] { return which == 3 ? X.GetRealInComplex() : X.GetImagInComplex(); }, w, 0);
    } else if (which == 5) {
      result(d, how, [&] { return X.GetHaarFWT().GetInvHaarFWT(); }, mx, 1e-11 * (1 + maxabs(mx)));
    } else if (which == 6) {
      Mat w = mat(mx.r, mx.c, 1, true);
      for (int p = 0; p < mx.r; p++) for (int q2 = 0; q2 < mx.c; q2++) {
        cd t = 0;
        for (int i = 0; i < mx.r; i++) for (int j = 0; j < mx.c; j++) t += mx.at(i, j) * std::polar(1.0, -2 * M_PI * ((double)p * i / mx.r + (double)q2 * j / mx.c));
        w.at(p, q2) = t;
      }
      result(d, how, [&] { return X.GetFFT2D(FFTW_FORWARD); }, w, 1e-11 * (1 + 16 * maxabs(mx)));
    } else if (which == 7) {
      Mat w = mx;
      for (size_t i = 0; i < w.v.size(); i++) w.v[i] *= (double)(mx.r * mx.c);
      result(d, how, [&] { return X.GetFFT2D(FFTW_FORWARD).GetFFT2D(FFTW_BACKWARD); }, w, 1e-10 * (1 + 16 * maxabs(mx)));
    } else if (which == 9) {  // (I - t v v^H) X or X (I - t v v^H)
      bool left = g.chance(1, 2);
      double t = coef(g);
      Slot *y = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == mx.cx && s.m.c == 1 && s.m.r == (left ? mx.r : mx.c); });
      NEED(y);
      Mat H = mmul(y->m, mherm(y->m));
      for (int i = 0; i < H.r; i++) for (int j = 0; j < H.c; j++) H.at(i, j) = (i == j ? 1.0 : 0.0) - t * H.at(i, j);
      realdpcomplex z = {t, 0};
      double vm = maxabs(y->m);
      result(d, how, [&] { char *sd = left ? GLOBAL::L : GLOBAL::R; return mx.cx ? X.GetHtimesRankone(z, *y->e, sd) : X.GetHtimesRankone(t, *y->e, sd); }, left ? mmul(H, mx) : mmul(mx, H), 1e-11 * (1 + vm * vm) * (1 + 16 * maxabs(mx)));
    } else {
      if (mx.cx) return false;
      Mat w = mx;
      w.cx = true;
      result(d, how, [&] { return X.GetRealToComplex(); }, w, 0);
    }
    return true;
  }
  // ---- decompositions
  if (IS("lu") || IS("chol") || IS("eig") || IS("exp") || IS("log") || IS("hhr") || IS("qr") || IS("svd") || IS("schur") || IS("orth") || IS("syl") || IS("hhrmul") || IS("tri")) {
    P->leak_ok = true;
    bool herm = IS("chol") || IS("eig") || IS("exp") || IS("log") || IS("tri"), sq = IS("lu") || IS("schur") || IS("syl");
    Slot *x = pick(a, [&](Slot &s) { return plain2(s) && (!herm || is_herm(s.m)) && (!sq || s.m.r == s.m.c) && finite(s.m) && (!(IS("qr") || IS("hhr") || IS("hhrmul")) || s.m.r >= s.m.c); });
    NEED(x);
    Element &X = *x->e;
    Mat mx = x->m;
    if (IS("chol") || IS("log") || IS("tri")) {  // positive definite: Gershgorin is too weak, compute a Cholesky
      Mat L = mx;
      for (int j = 0; j < mx.r; j++) {
        double t = L.at(j, j).real();
        for (int q2 = 0; q2 < j; q2++) t -= std::norm(L.at(j, q2));
        if (!(t > 1e-6 * (1 + maxabs(mx)))) return false;
        t = std::sqrt(t);
        L.at(j, j) = t;
        for (int i = j + 1; i < mx.r; i++) { cd v = mx.at(i, j); for (int q2 = 0; q2 < j; q2++) v -= L.at(i, q2) * std::conj(L.at(j, q2)); L.at(i, j) = v / t; }
      }
    }
#define MUST(...) { const char *f_[] = {__VA_ARGS__}; for (unsigned i = 0; i < sizeof f_ / sizeof *f_; i++) if (!X.FieldsExist(f_[i])) violate("field-missing", "op %lld (%s): the decomposition left no field %s", P->opi, P->opname, f_[i]); }
    if (IS("lu")) { LIB(X.LUdecom()); MUST("_LU", "_P"); }
    else if (IS("chol")) { LIB(X.CholDecom()); MUST("_L"); }
    else if (IS("eig")) { bool v = how % 2; char *ul = g.chance(1, 2) ? GLOBAL::L : GLOBAL::U; LIB(X.EigenDecomSym(v ? GLOBAL::V : GLOBAL::N, ul)); MUST("_EigVal"); if (v) MUST("_EigVec"); }
    else if (IS("hhr")) { LIB(X.HHRDecom()); MUST("_HHR", "_tau"); }
    else if (IS("qr")) { LIB(X.QRDecom()); MUST("_Q", "_R"); }
    else if (IS("svd")) { LIB(X.SVDDecom()); MUST("_U", "_S", "_Vt"); }
    else if (IS("schur")) { bool v = how % 2; LIB(X.SchurForm(v ? GLOBAL::V : GLOBAL::N)); MUST("_SchurForm"); if (v) MUST("_SchurVec"); }
    else if (IS("exp") || IS("log")) {
      if (maxabs(mx) > 20) return false;
      Slot &o = slot_for(d);
      Element r0;
      LIB(Element r = IS("exp") ? X.ExpSym() : X.LogSym(); r0 = r);
      Element back;
      LIB(Element t = r0; if (IS("exp")) { double *p = t.ObtainWritePartialData(); (void)p; } back = t);
      // exp and log commute with the matrix and have the right eigenvalues
      Mat R = read_elem(r0);
      Mat S = read_elem(X.Field("_EigVal")), V = read_elem(X.Field("_EigVec"));
      for (size_t i = 0; i < S.v.size(); i++) S.v[i] = IS("exp") ? std::exp(S.v[i].real()) : std::log(S.v[i].real());
      Mat w = mmul(mmul(V, mdiag(S)), mherm(V));
      LIB(*o.e = r0);
      o.comps.clear();
      wrote(o, w, 1e-9 * (1 + maxabs(w)));
      LIB(r0 = Element(); back = Element());
    } else if (IS("orth")) {
      Slot &o = slot_for(d);
      LIB(*o.e = X.GetOrth());
      o.comps.clear();
      Mat z = read_elem(*o.e);
      Mat I = mx.r >= mx.c ? mmul(mherm(z), z) : mmul(z, mherm(z));
      for (int i = 0; i < I.r; i++) I.at(i, i) -= 1;
      if (!(maxabs(I) < 1e-8)) violate("value", "op %lld (orth): the result is not orthonormal", P->opi);
      wrote(o, z, 0);
    } else if (IS("syl")) {
      Slot *y = pick(b, [&](Slot &s) { return plain2(s) && s.m.cx == mx.cx && s.m.r == s.m.c && finite(s.m); });
      NEED(y);
      Mat my = y->m, C = rnd_mat(mx.r, my.r, 1, mx.cx, seed + 8);
      Slot &o = slot_for(d);
      Mat z;
      LIB(Element c = make(C); Element r = c.SYL(*x->e, *y->e); LibScope off(false); z = read_elem(r));
      // solvable when no eigenvalues of A and -B meet: checked through the residual, skipped when nearly singular
      Mat res = map2(mmul(mx, z), mmul(z, my), [](cd p, cd r) { return p + r; });
      if (finite(z) && maxabs(z) < 1e4 && maxabs(mx) < 1e3 && maxabs(my) < 1e3 && !close(res, C, 1e-6)) violate("value", "op %lld (syl): the solution does not satisfy A X + X B = C", P->opi);
      if (finite(z) && maxabs(z) < 1e3) { LIB(*o.e = make(z)); o.comps.clear(); wrote(o, z, 0); }
    } else if (IS("hhrmul")) {  // Q^H A = [R; 0], Q Q^H A = A
      Mat z, y;
      LIB(X.HHRDecom());
      LIB(Element t = X.HHRMtp(X.Field("_HHR"), X.Field("_tau"), mx.cx ? GLOBAL::C : GLOBAL::T, GLOBAL::L); Element u = t.HHRMtp(X.Field("_HHR"), X.Field("_tau"), GLOBAL::N, GLOBAL::L); LibScope off(false); z = read_elem(t); y = read_elem(u));
      double tol = 1e-9 * (1 + maxabs(mx));
      for (int i = 0; i < z.r; i++) for (int j = 0; j < z.c && j < i; j++) if (std::abs(z.at(i, j)) > tol) violate("value", "op %lld (hhrmul): Q^H A is not upper triangular", P->opi);
      if (!close(y, mx, tol)) violate("value", "op %lld (hhrmul): Q Q^H A differs from A", P->opi);
    } else if (IS("tri")) {  // L^{-1} A = L^H
      LIB(X.CholDecom());
      Slot &o = slot_for(d);
      Mat L = read_elem(X.Field("_L"));
      LIB(*o.e = X.TriangleLinSol(X.Field("_L")));
      o.comps.clear();
      wrote(o, mherm(L), 1e-5 * (1 + maxabs(L)));
    }
    derived_check(X, x->m, "the decomposed element");
    return true;
  }
#undef MUST
#undef IS
#undef NEED
  return false;
}

// ------------------------------------------------------------------ generation
static Scenario gen_elem(u64 seed, int tier, int prop) {
  Scenario s; Rng r(seed);
  static const char *w11[] = {"new", "new", "prod", "copy", "copy", "copy", "assign", "assign", "assign", "copyto", "selfassign", "del", "delete-assign", "byvalue", "partial", "partial", "partial", "entire", "zeros", "gauss", "unif", "scal", "cowwrite", "newmem", "identity",
                              "axpy", "axpy", "pluseq", "gemm", "gemm", "rank1", "getrank1", "diagmul", "getdiagmul", "reshape", "getreshape", "conj", "getconj", "subset", "subset", "subget", "transpose", "gettranspose", "compread", "compread", "compwrite", "compwrite", "addfield", "getfield", "axpyfield",
                              "add", "add", "sub", "had", "haddiv", "max", "min", "cmp", "scalar", "scalar", "mul", "mul", "solve", "misc", "misc", "tri", "syl", "orth", "hhrmul"};
  static const char *w12[] = {"new", "newspd", "newspd", "prod", "copy", "copy", "assign", "assign", "copyto", "partial", "entire", "zeros", "gauss", "scal", "cowwrite", "newmem", "identity", "axpy", "gemm", "rank1", "diagmul", "reshape", "getreshape", "conj", "subset", "transpose",
                              "addfield", "addfield", "addfield", "compfield", "delfield", "getfield", "fieldwrite", "fieldwrite", "axpyfield", "compread", "compwrite", "byvalue", "pluseq", "del",
                              "lu", "lu", "chol", "chol", "eig", "eig", "exp", "log", "hhr", "qr", "qr", "svd", "svd", "schur", "schur", "syl", "tri", "solve", "add", "scalar", "print"};
  static const char *w10[] = {"new", "newspd", "prod", "copy", "copy", "assign", "assign", "copyto", "partial", "entire", "zeros", "gauss", "scal", "cowwrite", "newmem", "identity", "axpy", "gemm", "rank1", "diagmul", "reshape", "getreshape", "conj", "subset", "subget", "transpose", "gettranspose",
                              "addfield", "addfield", "delfield", "getfield", "fieldwrite", "compread", "compwrite", "compfield", "byvalue", "add", "sub", "scalar", "mul", "solve", "lu", "chol", "eig", "qr", "svd", "schur", "del", "print"};
  int n = (int)r.range(10, tier > 0 ? 160 : 70);
  for (int i = 0; i < n; i++) {
    std::string k;
    if (i < 4) k = r.chance(1, 4) ? "prod" : prop == 12 && r.chance(1, 2) ? "newspd" : "new";
    else if (prop == 11) k = w11[r.below((i64)(sizeof w11 / sizeof *w11))];
    else if (prop == 12) k = w12[r.below((i64)(sizeof w12 / sizeof *w12))];
    else k = w10[r.below((i64)(sizeof w10 / sizeof *w10))];
    s.ops.push_back(Rec(k, {r.below(6), r.below(6), r.below(6), r.below(8), r.range(1, 1000000)}));
    if (prop == 10 && i >= 3 && r.chance(1, 3)) s.faults.push_back(Rec("alloc", {i, r.chance(1, 2) ? r.range(1, 4) : r.range(1, 14), r.chance(3, 4) ? 1 : 0}));
  }
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  return s;
}
Scenario gen_elem10(u64 seed, int tier) { return gen_elem(seed, tier, 10); }
static Scenario gen_p11(u64 seed, int tier) { return gen_elem(seed, tier, 11); }
static Scenario gen_p12(u64 seed, int tier) { return gen_elem(seed, tier, 12); }

// after a failed allocation the target of the operation may have the old or a new value; it must be whole and usable
static void settle(size_t k) {
  Slot &s = P->s[k];
  if (!s.e) return;
  bool same = true;
  Mat a = read_elem(*s.e);
  if (!same_bits(a, s.m)) same = false;
  int rawlen = (int)a.v.size() * (a.cx ? 2 : 1);
  if (rawlen != s.e->Getlength()) violate("shape", "op %lld (%s): after a failed allocation element %zu has length %d and shape %s", P->opi, P->opname, k, (int)s.e->Getlength(), show(a).c_str());
  if (same && (s.e->GetSpace() != 0) == s.val) {  // old value: its fields are the old ones or fewer
    for (int i = 0; i < 3; i++) if (s.uf.count(UNAME[i]) && !s.e->FieldsExist(UNAME[i])) s.uf.erase(UNAME[i]);
  } else {
    s.uf.clear();
    for (int i = 0; i < 3; i++) if (s.e->FieldsExist(UNAME[i])) s.uf[UNAME[i]] = read_elem(s.e->Field(UNAME[i]));
  }
  for (int i = 0; i < 3; i++) if (s.e->FieldsExist(UNAME[i])) s.uf[UNAME[i]] = read_elem(s.e->Field(UNAME[i]));
  s.m = a;
  s.val = s.e->GetSpace() != 0;
  adopt_comps(s);
  for (size_t j = 0; j < s.comps.size(); j++) for (int i = 0; i < 3; i++) if (s.e->GetElement((integer)j).FieldsExist(UNAME[i])) s.comps[j].uf[UNAME[i]] = read_elem(s.e->GetElement((integer)j).Field(UNAME[i]));
}

void run_elem(const Scenario &s) {
  heap.poison = (int)s.c("poison");
  rnd->state = (u64)s.c("rseed", 1) * 7919; rnd->draws = 0;
  // warm-up: one-time allocations of the C library and FFTW
  LIB(Element z(2, 2, "complex"); z.SetToZeros(); z.GetFFT2D(FFTW_FORWARD); printf("x\n"));
  Pool pool;
  P = &pool;
  i64 live0 = heap.live_blocks, nfail = 0, done = 0, maxshare = 0;
  bool leaky = false;
  for (size_t i = 0; i < s.ops.size(); i++) {
    const Rec &q = s.ops[i];
    pool.opname = q.k.c_str(); pool.opi = (i64)i; pool.leak_ok = false;
    static char ph[80];
    snprintf(ph, sizeof ph, "op %zu %s", i, q.k.c_str());
    phase(ph);
    bool armed = false;
    for (size_t f = 0; f < s.faults.size(); f++)
      if (s.faults[f].k == "alloc" && s.faults[f].at(0) == (i64)i) { heap.failing = true; heap.nlib = 0; heap.fail_at = s.faults[f].at(1); heap.fail_len = s.faults[f].at(2); armed = true; }
    bool ok = false, failed = false;
    i64 failed0 = heap.failed;
    try {
      ok = do_op(q);
    } catch (std::bad_alloc &) {
      failed = true;
    }
    heap.failing = false; heap.lib = false;
    if (armed && heap.failed > failed0) {
      nfail++;
      count("fault:alloc");
      mark("fail:%s", q.k.c_str());
      if (!failed && q.k != "print") /* formatted output functions of the standard library catch exceptions */ violate("bad_alloc-swallowed", "op %zu (%s): allocation %lld failed, but the operation ended normally", i, q.k.c_str(), heap.fail_at);
      if (pool.leak_ok) leaky = true;
      int nchanged = 0;
      std::string which;
      for (size_t k = 0; k < pool.s.size(); k++) {
        Slot &t = pool.s[k];
        if (!t.e) continue;
        Mat now = read_elem(*t.e);
        bool hv = t.e->GetSpace() != 0;
        if (hv != t.val || (hv ? !same_bits(now, t.m) : !same_shape(now, t.m))) { nchanged++; which += " " + std::to_string(k) + (t.val ? "" : " (no value)"); }
      }
      if (nchanged) count("fault:partial-write");
      if (nchanged > 1) violate("alloc-not-atomic", "op %zu (%s): allocation %lld failed and elements%s changed", i, q.k.c_str(), heap.fail_at, which.c_str());
      for (size_t k = 0; k < pool.s.size(); k++) settle(k);
    } else if (failed) violate("exception", "op %zu (%s): bad_alloc although no allocation failed", i, q.k.c_str());
    if (ok) { done++; mark("op:%s", q.k.c_str()); }
    tr(ok); tr(failed);
    check_all();
    // keep numbers moderate
    for (size_t k = 0; k < pool.s.size(); k++) {
      Slot &t = pool.s[k];
      if (!t.e || !t.val) continue;
      if (t.e->GetSharedTimes() && *t.e->GetSharedTimes() > maxshare) maxshare = *t.e->GetSharedTimes();
      if (!finite(t.m) || maxabs(t.m) > 1e3 || (maxabs(t.m) < 1e-6 && maxabs(t.m) > 0)) { Mat m = rnd_mat(t.m.r, t.m.c, t.m.n, t.m.cx, i + 77); LIB(write_raw(t.e->ObtainWriteEntireData(), m)); wrote(t, m, 0); }
      for (size_t j = 0; j < t.m.v.size(); j++) { trd(t.m.v[j].real()); }
    }
  }
  phase("destruction");
  for (size_t k = 0; k < pool.s.size(); k++) {
    LIB(delete pool.s[k].e);
    pool.s[k].e = 0;
    check_all();
  }
  heap_check_all();
  if (!leaky && heap.live_blocks != live0) violate("leak", "%lld blocks are still allocated after the last element was destroyed", heap.live_blocks - live0);
  count("ops", done);
  countmax("sharers", maxshare);
  mark("faults:%lld", nfail > 5 ? 5 : nfail);
}
const Prop prop_p11 = {"P11", "value semantics", gen_p11, run_elem, 60};
const Prop prop_p12 = {"P12", "fields", gen_p12, run_elem, 60};
}  // namespace sim
