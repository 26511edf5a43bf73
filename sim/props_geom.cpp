// P19, P20: histories of manifold and problem operations on a pool of points and tangent vectors. Every operation is
// executed on the pooled objects (whatever they share or have cached) and on fresh objects of a freshly built world.
#include "props.h"
#include <cmath>
#include <new>

namespace sim {
namespace {
enum { G_POINT, G_COPYPOINT, G_REBUILD, G_WRITE, G_RANDVEC, G_COPYVEC, G_SCALE, G_COMB, G_GRAD, G_HESS, G_RETRACT, G_TRANSPORT, G_INVTRANSPORT, G_DIFFRETR, G_COTANGENT,
       G_METRIC, G_COST, G_PROJ, G_INTREXTR, G_DIST, G_BETA, G_TRANH, G_APPLYH, G_FLAT, G_NORMAL, G_FLAGS, G_AMBIENT, G_INVRETR, G_COUNT };
const char *g_names[] = {"point", "copy-point", "rebuild", "write", "random-vector", "copy-vector", "ScalarTimesVector", "VectorLinearCombination", "gradient", "Hessian", "Retraction", "VectorTransport", "InverseVectorTransport", "DiffRetraction", "coTangentVector",
                         "Metric", "cost", "Projection", "ObtainIntr-ObtainExtr", "Dist", "Beta", "TranHInvTran", "LinearOPEEta", "ObtainEtaxFlat", "ObtainNorVerIntr-ObtainNorVerExtr", "flags", "ExtrProjection", "InvRetraction"};
enum { NP = 4, NV = 8, NE = 3 };
typedef std::vector<double> VD;
struct Pt { bool live = false; Variable x; u64 serial = 0; bool f = false, g = false; VD d; int gen = 0; };
struct Vc { bool live = false; Vector v; u64 base = 0; VD d; };
struct Edge { bool live = false; Vector eta; u64 from = 0, to = 0; VD d; };
struct Pool {
  const Scenario *s;
  World *w;
  Pt p[NP]; Vc v[NV]; Edge e[NE];
  u64 serial = 1;
  int gen = 0;
};
Pool *Q;

VD data_of(const Element &e) {
  const double *p = e.GetSpace();
  return p ? VD(p, p + e.Getlength()) : VD();
}
bool eq(const VD &a, const VD &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}
double amax(const VD &a) { double m = 0; for (size_t i = 0; i < a.size(); i++) { double v = std::fabs(a[i]); if (v != v) return v; if (v > m) m = v; } return m; }
bool fin(const VD &a) { for (size_t i = 0; i < a.size(); i++) if (!(a[i] - a[i] == 0)) return false; return true; }
double diff(const VD &a, const VD &b) {
  if (a.size() != b.size()) return 1e300;
  double m = 0;
  for (size_t i = 0; i < a.size(); i++) { double d = a[i] == b[i] ? 0 : std::fabs(a[i] - b[i]); if (d != d) return d; if (d > m) m = d; }
  return m;
}
Vector fresh_vec(const World &w, const VD &d, const Vector *src = 0) {
  Vector u(w.mani->GetEMPTY());
  if ((size_t)u.Getlength() != d.size()) violate("vector-shape", "a tangent vector has %zu numbers, the manifold's vectors have %d (%s)", d.size(), (int)u.Getlength(), w.desc.c_str());
  memcpy(u.ObtainWriteEntireData(), d.data(), sizeof(double) * d.size());
  static const char *f[] = {"dU", "dD", "dV"};  // part of the value of a tangent vector of FixedRankE
  for (int i = 0; i < 3; i++)
    if (src && w.pk != PK_AMBIENT && src->FieldsExist(f[i])) {
      Vector o = src->Field(f[i]), n(o.Getrow(), o.Getcol());
      memcpy(n.ObtainWriteEntireData(), o.GetSpace(), sizeof(double) * (size_t)o.Getlength());
      u.AddToFields(f[i], n);
    }
  return u;
}
struct Quiet { bool f; Quiet() : f(heap.failing) { heap.failing = false; } ~Quiet() { heap.failing = f; } };
// an operation: given world, points and vectors, produces numbers (and possibly a point or a vector)
struct Args { World *w; Variable *x, *y; Vector *a, *b, *eta; const LinearOPE *H; double c1, c2; Variable *outx; Vector *outv; LinearOPE *outH; bool alias; };
typedef VD (*Fn)(Args &);

VD fn_metric(Args &a) { return VD(1, a.w->mani->Metric(*a.x, *a.a, *a.b)); }
VD fn_cost(Args &a) { return VD(1, a.w->prob->f(*a.x)); }
VD fn_grad(Args &a) { a.w->prob->Grad(*a.x, a.outv); return data_of(*a.outv); }
VD fn_hess(Args &a) { a.w->prob->HessianEta(*a.x, *a.a, a.outv); return data_of(*a.outv); }
VD fn_proj(Args &a) { a.w->mani->Projection(*a.x, *a.a, a.outv); return data_of(*a.outv); }
VD fn_comb(Args &a) { a.w->mani->VectorLinearCombination(*a.x, a.c1, *a.a, a.c2, *a.b, a.outv); return data_of(*a.outv); }
VD fn_scale(Args &a) { a.w->mani->ScalarTimesVector(*a.x, a.c1, *a.a, a.outv); return data_of(*a.outv); }
VD fn_retr(Args &a) { a.w->mani->Retraction(*a.x, *a.a, a.outx); return data_of(*a.outx); }
VD fn_vt(Args &a) { a.w->mani->VectorTransport(*a.x, *a.eta, *a.y, *a.a, a.outv); return data_of(*a.outv); }
VD fn_ivt(Args &a) { a.w->mani->InverseVectorTransport(*a.x, *a.eta, *a.y, *a.a, a.outv); return data_of(*a.outv); }
VD fn_dr(Args &a) { a.w->mani->DiffRetraction(*a.x, *a.eta, *a.y, *a.a, a.outv, false); return data_of(*a.outv); }
VD fn_cot(Args &a) { a.w->mani->coTangentVector(*a.x, *a.eta, *a.y, *a.a, a.outv); return data_of(*a.outv); }
VD fn_beta(Args &a) { Vector t(*a.eta); a.w->mani->DiffRetraction(*a.x, *a.eta, *a.y, *a.eta, &t, true); VD r = data_of(t); r.push_back(a.w->mani->Beta(*a.x, *a.eta)); return r; }
VD fn_tranh(Args &a) { a.w->mani->TranHInvTran(*a.x, *a.eta, *a.y, *a.H, a.outH); return data_of(*a.outH); }
VD fn_applyh(Args &a) { a.w->mani->LinearOPEEta(*a.x, *a.H, *a.a, a.outv); return data_of(*a.outv); }
VD fn_flat(Args &a) { a.w->mani->ObtainEtaxFlat(*a.x, *a.a, a.outv); return data_of(*a.outv); }
VD fn_dist(Args &a) { return VD(1, a.w->mani->Dist(*a.x, *a.y)); }
VD fn_ie(Args &a) {
  Vector ex(a.w->mani->GetEMPTYEXTR()), in(a.w->mani->GetEMPTYINTR());
  VD r;
  if (a.w->mani->GetIsIntrinsic()) { a.w->mani->ObtainExtr(*a.x, *a.a, &ex); a.w->mani->ObtainIntr(*a.x, ex, &in); }
  else { a.w->mani->ObtainIntr(*a.x, *a.a, &in); a.w->mani->ObtainExtr(*a.x, in, &ex); }
  r = data_of(ex); VD q = data_of(in); r.insert(r.end(), q.begin(), q.end());
  return r;
}
Vector ambient(const World &w, double seed, integer len) {  // numbers of order one, a function of seed
  Vector z(w.mani->GetEMPTYEXTR());
  if (len >= 0) z = Vector(len);
  double *p = z.ObtainWriteEntireData();
  u64 u; memcpy(&u, &seed, sizeof u);
  Rng r(u);
  for (integer i = 0; i < z.Getlength(); i++) p[i] = r.gauss();
  return z;
}
bool normal_space(const World &w) { return w.pk == PK_STIEBROCKETT || w.pk == PK_CSTIEBROCKETT || w.pk == PK_SPCA || w.pk == PK_WEIGHTAPPROX || w.pk == PK_SPARSEAPPROX; }  // the manifolds with ObtainNorVerIntr and ObtainNorVerExtr
VD fn_normal(Args &a) {
  integer d = a.w->mani->GetExtrDim() - a.w->mani->GetIntrDim();
  Vector c = ambient(*a.w, a.c1, d), ex(a.w->mani->GetEMPTYEXTR()), in(d);
  if (a.c2 > 0) { ex = ambient(*a.w, a.c2, -1); a.w->mani->ObtainNorVerIntr(*a.x, ex, &in); }  // of a vector with a tangential part, before anything is cached for the normal space
  a.w->mani->ObtainNorVerExtr(*a.x, c, &ex); a.w->mani->ObtainNorVerIntr(*a.x, ex, &in);
  VD r = data_of(ex), q = data_of(in); r.insert(r.end(), q.begin(), q.end());
  return r;
}
VD fn_ambient(Args &a) { Vector z = ambient(*a.w, a.c1, -1), pz(a.w->mani->GetEMPTYEXTR()); a.w->mani->ExtrProjection(*a.x, z, &pz); return data_of(pz); }
VD fn_invretr(Args &a) { Vector v(a.w->mani->GetEMPTY()); a.w->mani->InvRetraction(*a.x, *a.y, &v); return data_of(v); }
const Fn g_fn[G_COUNT] = {0, 0, 0, 0, 0, 0, fn_scale, fn_comb, fn_grad, fn_hess, fn_retr, fn_vt, fn_ivt, fn_dr, fn_cot, fn_metric, fn_cost, fn_proj, fn_ie, fn_dist, fn_beta, fn_tranh, fn_applyh, fn_flat, fn_normal, 0, fn_ambient, fn_invretr};

bool unimplemented(size_t from) {
  std::string t = captured().substr(from);
  return t.find("has not been") != std::string::npos || t.find("not implemented") != std::string::npos;
}
// what the arguments and everything else in the pool must still be
void check_pool(const char *what, int exp, int exv) {
  for (int i = 0; i < NP; i++) if (i != exp && Q->p[i].live && !eq(data_of(Q->p[i].x), Q->p[i].d)) violate("point-changed", "%s changed a point it was not to write (%s)", what, Q->w->desc.c_str());
  for (int i = 0; i < NV; i++) if (i != exv && Q->v[i].live && !eq(data_of(Q->v[i].v), Q->v[i].d)) violate("vector-changed", "%s changed a tangent vector it was not to write (%s)", what, Q->w->desc.c_str());
  for (int i = 0; i < NE; i++) if (Q->e[i].live && !eq(data_of(Q->e[i].eta), Q->e[i].d)) violate("vector-changed", "%s changed a step it was not to write (%s)", what, Q->w->desc.c_str());
}
Pt *pt_of(u64 serial) { for (int i = 0; i < NP; i++) if (Q->p[i].live && Q->p[i].serial == serial) return &Q->p[i]; return 0; }
Pt *pick_pt(i64 k) { for (int i = 0; i < NP; i++) { Pt &p = Q->p[(k + i) % NP]; if (p.live) return &p; } return 0; }
Vc *pick_vec(i64 k, u64 base) { for (int i = 0; i < NV; i++) { Vc &v = Q->v[(k + i) % NV]; if (v.live && v.base == base) return &v; } return 0; }
Edge *pick_edge(i64 k) { for (int i = 0; i < NE; i++) { Edge &e = Q->e[(k + i) % NE]; if (e.live && pt_of(e.from) && pt_of(e.to)) return &e; } return 0; }
void drop_serial(u64 serial) {  // the point with this serial is gone or was written
  if (pt_of(serial)) return;
  for (int i = 0; i < NV; i++) if (Q->v[i].base == serial) Q->v[i].live = false;
  for (int i = 0; i < NE; i++) if (Q->e[i].from == serial || Q->e[i].to == serial) Q->e[i].live = false;
}
bool moderate(World *w, const Variable &x, const Vector &v) {  // steps along which the manifold's maps are well conditioned
  Quiet q; LibScope l(false);
  Variable X = plain_copy(*w, x); VD d = data_of(v);
  double n = std::sqrt(w->mani->Metric(X, fresh_vec(*w, d, &v), fresh_vec(*w, d, &v))), e = 0;
  for (size_t i = 0; i < d.size(); i++) e += d[i] * d[i];
  return e <= 400 && n <= (w->desc.find("SPD") != std::string::npos ? 3 : 20);
}
// the documented prerequisites of an operation, on fresh objects: Grad needs f at the point, HessianEta needs f and Grad, transports need the point the step was retracted to
void prepare(int k, Args &a) {
  if (k == G_GRAD || k == G_HESS) a.w->prob->f(*a.x);
  if (k == G_HESS) { Vector g(a.w->mani->GetEMPTY()); a.w->prob->Grad(*a.x, &g); }
}
double tol_of(int k) { return k == G_RETRACT || k == G_COST || k == G_METRIC || k == G_COMB || k == G_SCALE ? 1e-10 : 1e-8; }

bool symfactor(const World &w) { return w.pk == PK_SFRQLYAP || w.pk == PK_PHASE || (w.pk == PK_LOWRANK && w.comps.size() == 1); }
bool locks(int pk) { return pk == PK_STIEBROCKETT || pk == PK_CSTIEBROCKETT || pk == PK_GRASSRQ || pk == PK_SPDKARCHER || pk == PK_SPARSEST || pk == PK_SPCA || pk == PK_PRODSTIE || pk == PK_AMBIENT; }  // manifolds with a Beta of their own
struct Twin { World *w; ~Twin() { delete w; } };
// runs the operation on fresh objects
VD twin_run(int k, const Pt *x, const Pt *y, const Vc *a, const Vc *b, const Edge *e, const LinearOPE *H, double c1, double c2, bool &skip, VD *invariants) {
  Quiet q; LibScope l(false);
  size_t from = captured().size();
  Twin t; { LibScope l(true); t.w = make_world(*Q->s); }
  Variable X = plain_copy(*t.w, x->x), Y(t.w->mani->GetEMPTYEXTR()), outx(t.w->mani->GetEMPTYEXTR());
  Vector A(t.w->mani->GetEMPTY()), B(t.w->mani->GetEMPTY()), E(t.w->mani->GetEMPTY()), outv(t.w->mani->GetEMPTY());
  LinearOPE outH;
  if (a) A = fresh_vec(*t.w, a->d, &a->v);
  if (b) B = fresh_vec(*t.w, b->d, &b->v);
  if (e) { E = fresh_vec(*t.w, e->d, &e->eta); t.w->mani->Retraction(X, E, &Y); }
  else if (y) Y = plain_copy(*t.w, y->x);
  LinearOPE Hc;
  if (H) { Hc = *H; outH = LinearOPE(H->Getrow(), H->Getcol()); }
  Args ar = {t.w, &X, &Y, &A, &B, &E, &Hc, c1, c2, &outx, &outv, &outH, false};
  prepare(k, ar);
  VD r = g_fn[k](ar);
  skip = unimplemented(from);
  if (!skip && invariants) {
    // identities that hold in every state
    Manifold *m = t.w->mani;
    bool isom = m->GetIsIntrinsic();
    for (size_t i = 0; i < t.w->parts.size(); i++) isom = isom && t.w->parts[i]->GetIsIntrinsic();
    if (k == G_TRANSPORT && isom) {
      Vector back(m->GetEMPTY()); m->InverseVectorTransport(X, E, Y, outv, &back);
      if (!unimplemented(from)) {
        if (!(diff(data_of(back), a->d) <= 1e-7 * (1 + amax(a->d)))) violate("transport-inverse", "InverseVectorTransport does not undo VectorTransport: error %.3g for a vector of size %.3g (%s)", diff(data_of(back), a->d), amax(a->d), t.w->desc.c_str());
        double n1 = m->Metric(X, A, A), n2 = m->Metric(Y, outv, outv);
        if (!(std::fabs(n1 - n2) <= 1e-7 * (1 + n1))) violate("transport-isometry", "VectorTransport changed the squared norm %.12g to %.12g (%s)", n1, n2, t.w->desc.c_str());
      }
    }
    if (k == G_INTREXTR) {
      Vector ex(m->GetEMPTYEXTR()), in(m->GetEMPTYINTR());
      size_t ne = (size_t)ex.Getlength();
      VD got(m->GetIsIntrinsic() ? VD(r.begin() + (long)ne, r.end()) : VD(r.begin(), r.begin() + (long)ne));
      if (!(diff(got, a->d) <= 1e-7 * (1 + amax(a->d)))) violate("intrinsic-round-trip", "ObtainIntr and ObtainExtr do not invert each other: error %.3g for a vector of size %.3g (%s)", diff(got, a->d), amax(a->d), t.w->desc.c_str());
    }
    if (k == G_NORMAL) {
      integer d = m->GetExtrDim() - m->GetIntrDim();
      VD c = data_of(ambient(*t.w, c1, d)), N(r.begin(), r.end() - d), back(r.end() - d, r.end());
      double n2 = 0, c2s = 0, cross = 0, tn = 0; VD ta;
      if (m->GetIsIntrinsic()) { Vector R(m->GetEMPTYEXTR()); m->ObtainExtr(X, A, &R); ta = data_of(R); } else ta = a->d;
      for (size_t i = 0; i < N.size(); i++) { n2 += N[i] * N[i]; cross += N[i] * ta[i]; tn += ta[i] * ta[i]; }
      for (integer i = 0; i < d; i++) c2s += c[(size_t)i] * c[(size_t)i];
      if (!(diff(back, c) <= 1e-9 * (1 + amax(c)) && std::fabs(n2 - c2s) <= 1e-9 * (1 + c2s) && std::fabs(cross) <= 1e-9 * std::sqrt(1 + n2) * (1e-12 + std::sqrt(tn))))
        violate("normal-space", "ObtainNorVerExtr and ObtainNorVerIntr: coordinates come back changed by %.3g, squared norm %.12g of coordinates %.12g, product with a tangent vector of norm %.3g: %.3g (%s)", diff(back, c), n2, c2s, std::sqrt(tn), cross, t.w->desc.c_str());
    }
    if (k == G_AMBIENT) {
      Vector pz(m->GetEMPTYEXTR()), ppz(m->GetEMPTYEXTR()); memcpy(pz.ObtainWriteEntireData(), r.data(), sizeof(double) * r.size());
      m->ExtrProjection(X, pz, &ppz);
      if (!(diff(data_of(ppz), r) <= 1e-7 * (1 + amax(r)))) violate("projection", "ExtrProjection moves its own result of size %.3g by %.3g (%s)", amax(r), diff(data_of(ppz), r), t.w->desc.c_str());
    }
    if (k == G_INVRETR && !(diff(r, e->d) <= 1e-6 * (1 + amax(e->d)) * (1 + amax(e->d)))) violate("inverse-retraction", "InvRetraction of the point a step of size %.3g led to differs from the step by %.3g (%s)", amax(e->d), diff(r, e->d), t.w->desc.c_str());
    if (k == G_PROJ && !(diff(r, a->d) <= 1e-7 * (1 + amax(a->d)))) violate("projection", "Projection moves a tangent vector of size %.3g by %.3g (%s)", amax(a->d), diff(r, a->d), t.w->desc.c_str());
    if (k == G_RETRACT) {
      std::string why; double v = infeasibility(*t.w, outx, &why);
      if (!(v <= 1e-9)) violate("infeasible", "Retraction left the manifold: %s (%.3g, %s)", why.c_str(), v, t.w->desc.c_str());
    }
    // --- the identities of differential geometry, in the state reached
    auto step = [&](const Variable &P, double h, const Vector &U, Variable *Z) { Vector S(m->GetEMPTY()); m->ScalarTimesVector(P, h, U, &S); m->Retraction(P, S, Z); };
    auto extr = [&](const Variable &P, const Vector &U) { Vector R(m->GetEMPTYEXTR()); if (m->GetIsIntrinsic()) m->ObtainExtr(P, U, &R); else R = U; return data_of(R); };
    auto norm = [&](const Variable &P, const Vector &U) { return std::sqrt(m->Metric(P, U, U)); };
    if (k == G_METRIC) {
      double ab = r[0], ba = m->Metric(X, B, A), aa = m->Metric(X, A, A), bb = m->Metric(X, B, B);
      Vector C(m->GetEMPTY()); m->VectorLinearCombination(X, c1, A, c2, B, &C);
      double ca = m->Metric(X, C, A), sc = std::sqrt(aa * bb);
      if (!(aa >= 0 && bb >= 0 && std::fabs(ab - ba) <= 1e-9 * (1e-12 + sc) && std::fabs(ab) <= sc * (1 + 1e-9) + 1e-14 && std::fabs(ca - c1 * aa - c2 * ab) <= 1e-8 * (std::fabs(c1) * aa + std::fabs(c2) * sc) + 1e-13))
        violate("metric", "the metric is not an inner product: <a,b>=%.15g <b,a>=%.15g <a,a>=%.15g <b,b>=%.15g <%.3ga%+.3gb,a>=%.15g (%s)", ab, ba, aa, bb, c1, c2, ca, t.w->desc.c_str());
    }
    if (k == G_FLAT && b && isom) {
      double d = 0; VD bd = data_of(B); for (size_t i = 0; i < bd.size(); i++) d += r[i] * bd[i];
      double g = m->Metric(X, A, B);
      if (!(std::fabs(d - g) <= 1e-8 * norm(X, A) * norm(X, B) + 1e-14)) violate("flat", "ObtainEtaxFlat: the product with b is %.12g, the metric %.12g (%s)", d, g, t.w->desc.c_str());
    }
    if (k == G_RETRACT) {
      double na = norm(X, A);
      Vector Zv(m->GetEMPTY()); Variable Z0(m->GetEMPTYEXTR());
      step(X, 0, A, &Z0);
      if (!(diff(data_of(Z0), x->d) <= 1e-9 * (1 + amax(x->d)))) violate("retraction-zero", "the retraction of the zero vector moves the point by %.3g (%s)", diff(data_of(Z0), x->d), t.w->desc.c_str());
      if (na > 1e-8) {
        VD e = extr(X, A);
        double best = 0;
        for (int it = 0; it < 2; it++) {  // a wrong direction stays wrong for smaller steps
          double h = (it ? 1e-5 : 1e-4) / std::max(na, amax(e));
          Variable Zp(m->GetEMPTYEXTR()), Zm(m->GetEMPTYEXTR()); step(X, h, A, &Zp); step(X, -h, A, &Zm);
          VD p = data_of(Zp), q = data_of(Zm);
          for (size_t i = 0; i < p.size(); i++) p[i] = (p[i] - q[i]) / (2 * h);
          { Vector D(m->GetEMPTYEXTR()), PD(m->GetEMPTYEXTR()); memcpy(D.ObtainWriteEntireData(), p.data(), sizeof(double) * p.size()); m->ExtrProjection(X, D, &PD); p = data_of(PD); }  // quotient manifolds: up to a change of the representative
          double er = diff(p, e);
          if (!it || er < best || !(best == best)) best = er;
          if (best <= 1e-6 * amax(e)) break;
        }
        countmax("first_order_e9", (i64)(1e9 * best / amax(e)));
        if (!(best <= 1e-5 * (1 + amax(x->d)) * amax(e))) violate("retraction-first-order", "the retraction moves in a direction that differs by %.3g from the tangent vector of size %.3g (%s)", best, amax(e), t.w->desc.c_str());
      }
    }
    // (C)SymFixedRankQ document their DiffRetraction as that of another retraction
    if ((k == G_DIFFRETR || k == G_BETA) && !symfactor(*t.w) && norm(X, E) > 1e-6) {
      const Vector &V = k == G_BETA ? E : A;
      double na = norm(X, V);
      if (na > 1e-8) {
        Vector got(m->GetEMPTY()); if (k == G_BETA) { m->DiffRetraction(X, E, Y, E, &got, true); } else got = outv;
        VD e = extr(Y, got);
        double best = 0, size = 0;
        for (int it = 0; it < 2; it++) {
          double h = (it ? 1e-5 : 1e-4) / std::max(na, amax(extr(X, V)));
          VD z[2];
          for (int j = 0; j < 2; j++) { Vector S(m->GetEMPTY()); m->ScalarVectorAddVector(X, j ? -h : h, V, E, &S); Variable Z(m->GetEMPTYEXTR()); m->Retraction(X, S, &Z); z[j] = data_of(Z); }
          Vector D(m->GetEMPTYEXTR()), PD(m->GetEMPTYEXTR()); double *dp = D.ObtainWriteEntireData();
          for (size_t i = 0; i < z[0].size(); i++) dp[i] = (z[0][i] - z[1][i]) / (2 * h);
          m->ExtrProjection(Y, D, &PD);
          VD pd = data_of(PD);
          double er = diff(pd, e); size = amax(pd);
          if (!it || er < best || !(best == best)) best = er;
          if (best <= 1e-6 * (1 + size)) break;
        }
        countmax("diffretraction_e9", (i64)(1e9 * best / size));
        if (!(best <= 1e-5 * (1 + size))) violate("differentiated-retraction", "DiffRetraction differs by %.3g from the derivative of the retraction of size %.3g (%s)", best, size, t.w->desc.c_str());
      }
    }
    if (k == G_BETA && m->GetHasHHR() && isom && locks(t.w->pk) && norm(X, E) > 1e-4) {  // the locking condition: the transported step is beta times the differentiated retraction
      Vector TE(m->GetEMPTY()), DE(m->GetEMPTY()); double beta = m->Beta(X, E);
      m->VectorTransport(X, E, Y, E, &TE); m->DiffRetraction(X, E, Y, E, &DE, true); m->ScalarTimesVector(Y, beta, DE, &DE);
      if (!unimplemented(from)) {
        double d = diff(data_of(TE), data_of(DE)), z = amax(data_of(TE));
        countmax("locking_e9", (i64)(1e9 * d / z));
        if (!(d <= 1e-6 * z)) violate("locking-condition", "the transported step differs from beta times the differentiated retraction by %.3g (size %.3g, beta %.6g, %s)", d, z, beta, t.w->desc.c_str());
      }
    }
    if (k == G_COTANGENT && b) {
      Vector DB(m->GetEMPTY()); m->DiffRetraction(X, E, Y, B, &DB, false);
      if (!unimplemented(from)) {
        double p = m->Metric(X, outv, B), q2 = m->Metric(Y, A, DB);
        if (!(std::fabs(p - q2) <= 1e-7 * (norm(X, outv) * norm(X, B) + norm(Y, A) * norm(Y, DB)) + 1e-13)) violate("cotangent", "<coTangentVector(a), b> = %.12g but <a, DiffRetraction(b)> = %.12g (%s)", p, q2, t.w->desc.c_str());
      }
    }
    if (k == G_TRANH && b && isom) {
      Vector back(m->GetEMPTY()), hb(m->GetEMPTY()), th(m->GetEMPTY()), got(m->GetEMPTY());
      m->InverseVectorTransport(X, E, Y, B, &back); m->LinearOPEEta(X, Hc, back, &hb); m->VectorTransport(X, E, Y, hb, &th); m->LinearOPEEta(Y, outH, B, &got);
      if (!unimplemented(from) && !(diff(data_of(th), data_of(got)) <= 1e-7 * (1 + amax(data_of(th))))) violate("operator-transport", "TranHInvTran applied to a vector differs by %.3g from transport, operator and inverse transport (size %.3g, %s)", diff(data_of(th), data_of(got)), amax(data_of(th)), t.w->desc.c_str());
    }
    if (k == G_APPLYH && b && isom) {
      LinearOPE H2(Hc.Getrow(), Hc.Getcol()); Vector got(m->GetEMPTY()), w1(m->GetEMPTY());
      m->HaddScaledRank1OPE(X, Hc, c1, A, B, &H2); m->LinearOPEEta(X, H2, B, &got); m->LinearOPEEta(X, Hc, B, &w1);
      m->ScalarVectorAddVector(X, c1 * m->Metric(X, B, B), A, w1, &w1);
      if (!unimplemented(from) && !(diff(data_of(got), data_of(w1)) <= 1e-8 * (1 + amax(data_of(w1))))) violate("rank-one", "HaddScaledRank1OPE differs by %.3g from H + s a b^flat (size %.3g, %s)", diff(data_of(got), data_of(w1)), amax(data_of(w1)), t.w->desc.c_str());
    }
    int pk = t.w->pk;
    // SPD and the projection retraction of SymFixedRankQ are of second order for the affine invariant and the Euclidean quotient metric (parameter sets 1 and 3, 1 and 4); the others: ambient acceleration of the retraction, Euclidean metric
    i64 ps = Q->s->c("pset");
    bool so = (pk == PK_SPDKARCHER && (ps == 1 || ps == 3)) || ((pk == PK_SFRQLYAP || (pk == PK_LOWRANK && Q->s->c("kind") == 2)) && (ps == 1 || ps == 4) && m->GetIsIntrinsic());
    bool euc = pk == PK_STIEBROCKETT || pk == PK_CSTIEBROCKETT || pk == PK_PRODSTIE || pk == PK_GRASSRQ || pk == PK_EUCQUAD || pk == PK_WEIGHTAPPROX || pk == PK_SPHERETX || (pk == PK_AMBIENT && t.w->desc.find("SPD") == std::string::npos);
    if (k == G_HESS && (so || euc)) {
      double na = norm(X, A);
      if (na > 1e-8) {
        double f0 = t.w->prob->f(X), best = 0, bd = 0, bh = 0, bc = 0, bu = 0;
        for (int it = 0; it < 2; it++) {
          double h = (it ? 2.5e-4 : 1e-3) / std::max(na, amax(extr(X, A))), f2[2];
          Vector AC(m->GetEMPTYEXTR()), PA(m->GetEMPTYEXTR());
          for (int i = 0; i < 2; i++) {
            double hh = i ? h / 2 : h; Variable Zp(m->GetEMPTYEXTR()), Zm(m->GetEMPTYEXTR()); step(X, hh, A, &Zp); step(X, -hh, A, &Zm);
            f2[i] = (t.w->prob->f(Zp) - 2 * f0 + t.w->prob->f(Zm)) / (hh * hh);
            if (!i) { VD p = data_of(Zp), q = data_of(Zm); double *c = AC.ObtainWriteEntireData(); for (size_t j = 0; j < p.size(); j++) c[j] = (p[j] - 2 * x->d[j] + q[j]) / (hh * hh); }
          }
          double d2 = (4 * f2[1] - f2[0]) / 3;
          m->ExtrProjection(X, AC, &PA);
          Vector G(m->GetEMPTY()), PIv(m->GetEMPTY()); t.w->prob->Grad(X, &G);
          if (m->GetIsIntrinsic()) m->ObtainIntr(X, PA, &PIv); else PIv = PA;
          double hess = m->Metric(X, outv, A), cor = so ? 0 : m->Metric(X, G, PIv), sc = std::fabs(hess) + std::fabs(cor) + na * na * (1 + norm(X, G) + std::fabs(f0)), er = std::fabs(d2 - hess - cor) / sc;
          if (!it || er < best || !(best == best)) { best = er; bd = d2; bh = hess; bc = cor; bu = std::fabs(f2[1] - f2[0]) / sc; }  // bu: how far the two differences are from each other
          if (best <= 1e-5) break;
        }
        countmax("hess_e9", (i64)(1e9 * best));
        if (!(best <= (pk == PK_SPDKARCHER ? 1e-2 : 1e-4) + 3 * bu)) violate("hessian-truth", "second derivative of the cost %.10g, Hessian %.10g plus curvature of the retraction %.10g (%s)", bd, bh, bc, t.w->desc.c_str());
      }
    }
    if (k == G_HESS && !Q->s->c("pen") && pk != PK_SPARSEST && pk != PK_SPCA && pk != PK_SPARSEAPPROX) {  // the Euclidean Hessian is the derivative of the Euclidean gradient along the retraction
      VD ea = extr(X, A); double na = amax(ea);
      if (na > 1e-8) {
        Vector EA(m->GetEMPTYEXTR()), EH(m->GetEMPTYEXTR()); memcpy(EA.ObtainWriteEntireData(), ea.data(), sizeof(double) * ea.size());
        if (!m->GetIsIntrinsic()) EA = A; else m->ObtainExtr(X, A, &EA);
        EH = EA; t.w->prob->EucHessianEta(X, EA, &EH);
        VD eh = data_of(EH), est[2], g0; bool ok = true; double gs = 0;
        for (int i = 0; i < 2 && ok; i++) {
          double h = (i ? 5e-4 : 1e-3) / std::max(norm(X, A), na); VD gp[2];
          for (int j = 0; j < 2; j++) {
            Variable Z(m->GetEMPTYEXTR()); Vector g(m->GetEMPTYEXTR());
            if (symfactor(*t.w)) { double *z = Z.ObtainWriteEntireData(); for (size_t l = 0; l < ea.size(); l++) z[l] = x->d[l] + (j ? -h : h) * ea[l]; }  // full rank factors: an open set, and the retraction may move within the fibre
            else step(X, j ? -h : h, A, &Z);
            t.w->prob->f(Z); t.w->prob->EucGrad(Z, &g); gp[j] = data_of(g);
          }
          if (gp[0].size() != eh.size() || gp[1].size() != eh.size()) { ok = false; break; }
          for (size_t j = 0; j < eh.size(); j++) est[i].push_back((gp[0][j] - gp[1][j]) / (2 * h));
          gs = amax(gp[0]);
        }
        if (ok) {
          double er = 0; for (size_t j = 0; j < eh.size(); j++) { double d = std::fabs((4 * est[1][j] - est[0][j]) / 3 - eh[j]); if (!(d <= er)) er = d; }
          countmax("euchess_e9", (i64)(1e9 * er / (amax(eh) + gs * na + 1e-300)));
          if (!(er <= 1e-4 * (amax(eh) + gs * na) + 3 * diff(est[0], est[1]))) violate("euclidean-hessian", "EucHessianEta differs by %.3g from the derivative of EucGrad (size %.3g, gradient %.3g, %s)", er, amax(eh), gs, t.w->desc.c_str());
        }
      }
    }
    if (k == G_HESS && !Q->s->c("pen") && t.w->pk != PK_SPCA && t.w->pk != PK_SPARSEST && t.w->pk != PK_SPARSEAPPROX) {  // the library's numerical action of the Hessian, for users who give the gradient only
      Variable X2 = plain_copy(*t.w, x->x);
      Vector EA(m->GetEMPTYEXTR()), N(m->GetEMPTYEXTR()), U(m->GetEMPTYEXTR()), g(m->GetEMPTY());
      t.w->prob->f(X2); t.w->prob->Grad(X2, &g);
      if (m->GetIsIntrinsic()) m->ObtainExtr(X2, A, &EA); else EA = A;
      t.w->prob->EucHessianEta(X2, EA, &U);
      t.w->prob->Problem::EucHessianEta(X2, EA, &N);
      Vector RU(m->GetEMPTYEXTR()), RN(m->GetEMPTYEXTR()); m->EucHvToHv(X2, EA, U, t.w->prob, &RU); m->EucHvToHv(X2, EA, N, t.w->prob, &RN);
      VD u = data_of(RU), nu = data_of(RN); Vector eg = X2.Field("EGrad");
      double gs = amax(data_of(eg)), na = amax(data_of(EA)), er = diff(u, nu), sc = amax(u) + (1 + gs) * na;
      countmax("numhess_e9", (i64)(1e9 * er / (sc + 1e-300)));
      bool nearsing = t.w->desc.find("SPD") != std::string::npos && (gs > 50 || amax(u) > 1e3 * na);  // the fixed difference is coarse next to a singular matrix
      if (!nearsing && !(er <= 1e-3 * sc)) violate("numerical-hessian", "the numerical action of the Hessian differs by %.3g from the analytic one (size %.3g, gradient %.3g, %s)", er, amax(u), gs, t.w->desc.c_str());
      m->ScalarTimesVector(X2, 0, EA, &EA); t.w->prob->Problem::EucHessianEta(X2, EA, &N);
      VD z = data_of(N); for (size_t i = 0; i < z.size(); i++) if (!(std::fabs(z[i]) <= 1e-12)) violate("numerical-hessian-zero", "the numerical action of the Hessian on the zero vector has the entry %.3g (%s)", z[i], t.w->desc.c_str());
    }
    if (k == G_HESS && b) {
      Vector HB(m->GetEMPTY()); t.w->prob->HessianEta(X, B, &HB);
      double p = m->Metric(X, outv, B), q2 = m->Metric(X, A, HB), n = std::sqrt(m->Metric(X, outv, outv) * m->Metric(X, B, B)) + std::sqrt(m->Metric(X, HB, HB) * m->Metric(X, A, A));
      if (!(std::fabs(p - q2) <= 1e-6 * (1 + n))) violate("hessian-symmetry", "<H a, b> = %.12g but <a, H b> = %.12g (norms %.3g, %s)", p, q2, n, t.w->desc.c_str());
    }
    if (k == G_GRAD && a && t.w->pk != PK_SPCA && t.w->pk != PK_SPARSEST && t.w->pk != PK_SPARSEAPPROX) {
      double na = std::sqrt(m->Metric(X, A, A)), dir = m->Metric(X, outv, A);
      if (na > 1e-8) {
        double est[2];
        for (int i = 0; i < 2; i++) {
          double h = (i ? 5e-5 : 1e-4) / na, fv[2];
          for (int j = 0; j < 2; j++) { Vector S(m->GetEMPTY()); m->ScalarTimesVector(X, j ? -h : h, A, &S); Variable Z(t.w->mani->GetEMPTYEXTR()); m->Retraction(X, S, &Z); fv[j] = t.w->prob->f(Z); }
          est[i] = (fv[0] - fv[1]) / (2 * h);
        }
        double d = (4 * est[1] - est[0]) / 3, ng = std::sqrt(m->Metric(X, outv, outv));
        double f0 = std::fabs(t.w->prob->f(X));
        if (!(std::fabs(d - dir) <= 1e-4 * na * ng + 1e-5 * na * (1 + f0) + 3 * std::fabs(est[1] - est[0]))) violate("gradient-truth", "the cost changes at rate %.10g in a direction in which the gradient says %.10g (gradient norm %.3g, direction %.3g, cost %.3g, %s)", d, dir, ng, na, f0, t.w->desc.c_str());
      }
    }
  }
  return r;
}
void settle_point(int i) { Pt &p = Q->p[i]; p.d = data_of(p.x); }
void new_serial(int i) { u64 old = Q->p[i].serial; Q->p[i].serial = ++Q->serial; drop_serial(old); }

void do_step(const Rec &q, const Rec *fault) {
  int k = (int)(q.at(0) % G_COUNT);
  i64 a1 = q.at(1), a2 = q.at(2), a3 = q.at(3), seed = q.at(4);
  const char *nm = g_names[k];
  phase(nm);
  World *w = Q->w;
  int po = -1, vo = -1;  // slots written
  switch (k) {
    case G_POINT: { po = (int)(a1 % NP); LibScope l(true); Q->p[po].x = make_x0(*w, (u64)seed); Q->p[po].live = true; Q->p[po].f = Q->p[po].g = false; Q->p[po].gen = 0; break; }
    case G_COPYPOINT: {
      Pt *s = pick_pt(a2); po = (int)(a1 % NP);
      if (!s || s == &Q->p[po]) return;
      { LibScope l(true); Q->p[po].x = s->x; }
      u64 old = Q->p[po].serial;
      Q->p[po].live = true; Q->p[po].f = s->f; Q->p[po].g = s->g; Q->p[po].gen = s->gen; Q->p[po].serial = s->serial;  // the same point: its vectors stay valid
      drop_serial(old);
      settle_point(po); check_pool(nm, po, -1);
      tr(k); count("op:copy-point");
      return;
    }
    case G_REBUILD: case G_WRITE: {  // the user writes the same or another feasible point into the element
      Pt *s = pick_pt(a1);
      if (!s) return;
      po = (int)(s - Q->p);
      if (w->pk == PK_WEIGHTAPPROX || w->pk == PK_SPARSEAPPROX) { if (k == G_WRITE) return; LibScope l(true); s->x = plain_copy(*w, s->x); s->f = s->g = false; u64 sr = s->serial; for (int i = 0; i < NE; i++) if (Q->e[i].to == sr) Q->e[i].live = false; break; }
      VD d = s->d;
      if (k == G_WRITE) { LibScope l(false); Quiet z; Variable t = make_x0(*w, (u64)seed); d = data_of(t); }
      { LibScope l(true); double *p = seed & 1 ? s->x.ObtainWriteEntireData() : s->x.ObtainWritePartialData(); memcpy(p, d.data(), sizeof(double) * d.size()); }
      s->f = s->g = false;
      if (k == G_WRITE) s->gen = 0;
      break;
    }
    case G_RANDVEC: {
      Pt *s = pick_pt(a2); vo = (int)(a1 % NV);
      if (!s) return;
      static const double sizes[] = {1, 0.3, 1e-2, 1e-4, 0.7, 1};
      Rng r((u64)seed + 77);
      Vector v(w->mani->GetEMPTY());
      {
        LibScope l(true);
        Vector e(w->mani->GetEMPTYEXTR()), pe(w->mani->GetEMPTYEXTR());
        double *p = e.ObtainWriteEntireData();
        for (integer i = 0; i < e.Getlength(); i++) p[i] = r.gauss();
        w->mani->ExtrProjection(s->x, e, &pe);
        if (w->mani->GetIsIntrinsic()) w->mani->ObtainIntr(s->x, pe, &v); else v = pe;
        double n = std::sqrt(w->mani->Metric(s->x, v, v));
        if (!(n > 1e-12)) return;
        w->mani->ScalarTimesVector(s->x, sizes[a3 % 6] / n, v, &v);
        Q->v[vo].v = v;
      }
      Q->v[vo].live = true; Q->v[vo].base = s->serial;
      break;
    }
    case G_COPYVEC: {
      Vc *s = 0;
      for (int i = 0; i < NV && !s; i++) if (Q->v[(a2 + i) % NV].live) s = &Q->v[(a2 + i) % NV];
      vo = (int)(a1 % NV);
      if (!s || s == &Q->v[vo]) return;
      { LibScope l(true); Q->v[vo].v = s->v; }
      Q->v[vo].live = true; Q->v[vo].base = s->base;
      break;
    }
    case G_FLAGS: {  // settings changed and restored
      w->prob->SetUseHess(false); w->prob->SetUseHess(true);
      w->mani->SetHasHHR(!w->mani->GetHasHHR()); w->mani->SetHasHHR(!w->mani->GetHasHHR());
      break;
    }
    default: {
      Pt *x = pick_pt(a2), *y = 0; Vc *a = 0, *b = 0; Edge *e = 0;
      if (!x) return;
      LinearOPE H; bool useH = false;
      Rng r((u64)seed + 5);
      double c1 = 2 * r.unit() - 1, c2 = 2 * r.unit() - 1;
      bool wantv = false;
      switch (k) {
        case G_METRIC: a = pick_vec(a3, x->serial); b = pick_vec(seed, x->serial); if (!a || !b) return; break;
        case G_COST: case G_AMBIENT: break;
        case G_NORMAL: if (!normal_space(*w)) return; a = pick_vec(a3, x->serial); if (!a) return; break;
        case G_GRAD: if (!x->f) return; a = pick_vec(seed, x->serial); wantv = true; break;
        case G_HESS: a = pick_vec(a3, x->serial); b = pick_vec(seed, x->serial); if (!a || !x->g) return; wantv = true; break;
        case G_PROJ: case G_INTREXTR: a = pick_vec(a3, x->serial); if (!a) return; wantv = k == G_PROJ; break;
        case G_SCALE: a = pick_vec(a3, x->serial); if (!a) return; wantv = true; break;
        case G_COMB: a = pick_vec(a3, x->serial); b = pick_vec(seed, x->serial); if (!a || !b) return; wantv = true; break;
        case G_RETRACT: a = pick_vec(a3, x->serial); if (!a) return; if (x->gen > 6 || !moderate(w, x->x, a->v)) return; break;
        case G_DIST: y = pick_pt(a3); if (!y || y == x) return; break;
        case G_FLAT: case G_APPLYH: a = pick_vec(a3, x->serial); b = pick_vec(seed, x->serial); if (!a) return; wantv = true; break;
        default: {  // along a step
          e = pick_edge(a3);
          if (!e) return;
          x = pt_of(e->from); y = pt_of(e->to);
          if (k == G_INVRETR && w->pk != PK_STIEBROCKETT && w->pk != PK_CSTIEBROCKETT && w->pk != PK_SPCA && w->pk != PK_PRODSTIE && w->pk != PK_EUCQUAD) return;
          a = k == G_BETA || k == G_TRANH || k == G_INVRETR ? 0 : pick_vec(seed, k == G_INVTRANSPORT || k == G_COTANGENT ? y->serial : x->serial);
          if (k != G_BETA && k != G_TRANH && k != G_INVRETR && !a) return;
          wantv = k != G_BETA && k != G_TRANH && k != G_INVRETR;
          if (k == G_COTANGENT) b = pick_vec(seed / 8, x->serial);
          if (k == G_TRANH) b = pick_vec(seed, y->serial);
        }
      }
      if (k == G_TRANH || k == G_APPLYH) {
        integer n = w->mani->GetEMPTY().Getlength();
        if (n > 40) return;
        H = LinearOPE(n, n);
        double *h = H.ObtainWriteEntireData();
        for (integer i = 0; i < n; i++) for (integer j = 0; j <= i; j++) h[i + j * n] = h[j + i * n] = r.gauss();
        useH = true;
      }
      bool skip = false;
      VD inv;
      VD want = twin_run(k, x, y, a, b, e, useH ? &H : 0, c1, c2, skip, &inv);
      if (skip) { mark("unimplemented:%s:%s", nm, w->mani->GetName().c_str()); return; }
      if (!fin(want)) violate("not-finite", "%s of finite arguments is not finite (%s)", nm, w->desc.c_str());
      VD Hd = useH ? data_of(H) : VD();
      Vector outv(w->mani->GetEMPTY()); Variable outx(w->mani->GetEMPTYEXTR()); LinearOPE outH;
      if (useH) outH = LinearOPE(H.Getrow(), H.Getcol());
      VD got;
      Args ar = {w, &x->x, y ? &y->x : 0, a ? &a->v : 0, b ? &b->v : 0, e ? &e->eta : 0, useH ? &H : 0, c1, c2, &outx, &outv, &outH, false};
      // where the result goes: a fresh vector, or (as solvers do) the element that held the argument
      bool alias = (k == G_SCALE || (k == G_COMB && a != b) || k == G_PROJ) && (seed & 2);
      Vc *al = k == G_COMB ? b : a;
      if (alias) { ar.outv = &al->v; vo = (int)(al - Q->v); }
      for (int attempt = 0; ; attempt++) {
        bool failed = false;
        if (fault && attempt == 0) { heap.failing = true; heap.fail_at = fault->at(1); heap.fail_len = fault->at(2); heap.nlib = 0; heap.failed = 0; }
        try { LibScope l(true); got = g_fn[k](ar); } catch (std::bad_alloc &) { failed = true; }
        bool hit = heap.failed > 0;
        if (fault && attempt == 0) { heap.failing = false; count("fault:alloc", heap.failed); }
        if (failed) {
          if (!hit) violate("spurious-bad-alloc", "%s throws std::bad_alloc although no allocation failed (%s)", nm, w->desc.c_str());
          count("failed-ops");
          if (alias) { al->live = false; check_pool(nm, -1, vo); return; }
          check_pool(nm, -1, -1);
          if (useH && !eq(data_of(H), Hd)) violate("operator-changed", "a failing %s changed the operator it was given (%s)", nm, w->desc.c_str());
          continue;
        }
        break;
      }
      if (k == G_NORMAL && (w->pk == PK_WEIGHTAPPROX || w->pk == PK_SPARSEAPPROX)) {  // the basis of the normal space depends on which factorization of U and V is at hand
        size_t d = (size_t)(w->mani->GetExtrDim() - w->mani->GetIntrDim());
        double cross = 0, tn = 0, nn = 0;
        for (size_t i = 0; i + d < got.size(); i++) { cross += got[i] * a->d[i]; tn += a->d[i] * a->d[i]; nn += got[i] * got[i]; }
        if (!(std::fabs(cross) <= 1e-9 * std::sqrt(1 + nn) * (1e-12 + std::sqrt(tn)))) violate("normal-space", "ObtainNorVerExtr: product %.3g with a tangent vector of norm %.3g (%s)", cross, std::sqrt(tn), w->desc.c_str());
        want.erase(want.begin(), want.end() - (long)d); got.erase(got.begin(), got.end() - (long)d);
      }
      double tol = tol_of(k) * (1 + amax(want));
      countmax(("err_e18:" + std::string(nm)).c_str(), (i64)std::min(1e18, 1e18 * diff(got, want) / (1 + amax(want))));
      if (!(diff(got, want) <= tol)) violate("depends-on-history", "%s gives a result that differs by %.3g (size %.3g) from the same operation on fresh copies of the arguments (%s)", nm, diff(got, want), amax(want), w->desc.c_str());
      if (useH && !eq(data_of(H), Hd)) violate("operator-changed", "%s changed the operator it was given (%s)", nm, w->desc.c_str());
      if (k == G_COST) x->f = true;
      if (k == G_GRAD) x->g = true;
      if (k == G_RETRACT) {
        check_pool(nm, -1, -1);
        u64 from = x->serial; int gen = x->gen + 1; VD ed = a->d;
        int ei = (int)(a1 % NE);
        LibScope l(true);
        Q->e[ei].eta = a->v; Q->e[ei].d = ed; Q->e[ei].live = true; Q->e[ei].from = from;
        po = (int)(seed % NP);
        if (&Q->p[po] == x) po = (po + 1) % NP;
        Q->p[po].x = outx; Q->p[po].live = true; Q->p[po].f = Q->p[po].g = false; Q->p[po].gen = gen;
        u64 old = Q->p[po].serial; Q->p[po].serial = ++Q->serial; Q->e[ei].to = Q->p[po].serial;
        drop_serial(old);
        settle_point(po); check_pool(nm, po, -1);
        tr(k); for (size_t i = 0; i < got.size(); i++) trd(got[i]);
        count("op:Retraction");
        return;
      }
      if (wantv && !alias && k != G_FLAT && k != G_APPLYH) {
        vo = (int)(a1 % NV);
        u64 base = k == G_TRANSPORT || k == G_DIFFRETR ? y->serial : x->serial;
        check_pool(nm, -1, -1);
        LibScope l(true);
        Q->v[vo].v = outv; Q->v[vo].live = true; Q->v[vo].base = base;
      }
      if (alias) al->base = x->serial;
      tr(k); for (size_t i = 0; i < got.size(); i++) trd(got[i]);
    }
  }
  check_pool(nm, po, vo);
  if (po >= 0 && k != G_REBUILD) new_serial(po);
  if (po >= 0 && k == G_REBUILD) { u64 sr = Q->p[po].serial; for (int i = 0; i < NE; i++) if (Q->e[i].to == sr) Q->e[i].live = false; }
  if (po >= 0) settle_point(po);
  if (vo >= 0) Q->v[vo].d = data_of(Q->v[vo].v);
  if (vo >= 0 && Q->v[vo].live && !(amax(Q->v[vo].d) < 1e6)) Q->v[vo].live = false;
  tr(k);
  count(("op:" + std::string(nm)).c_str());
}

Scenario gen_geom(u64 seed, int tier, bool prob) {
  Scenario s; Rng r(seed);
  for (int i = 0; i < 50; i++) {
    gen_supported(r, s, "", tier, 0);
    if (s.c("pk") != PK_BLINDDECON || r.chance(1, 4)) break;
    s.cfg.clear();
  }
  s.cfg.erase("sv");
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  if (s.c("pk") != PK_WEIGHTAPPROX && s.c("pk") != PK_SPARSEAPPROX && s.c("pk") != PK_SPHERETX && r.chance(1, 5)) s.cfg["ext"] = 1;
  if (r.chance(1, 4)) s.cfg["hhr"] = 1;
  int n = (int)r.range(8, 30 + 20 * tier);
  s.ops.push_back(Rec("g", {G_POINT, 0, 0, 0, r.range(1, 100000), 1000}));
  s.ops.push_back(Rec("g", {G_RANDVEC, 0, 0, r.below(6), r.range(1, 100000), 1001}));
  static const int wm[] = {G_POINT, G_COPYPOINT, G_REBUILD, G_WRITE, G_RANDVEC, G_RANDVEC, G_RANDVEC, G_COPYVEC, G_SCALE, G_COMB, G_GRAD, G_HESS, G_RETRACT, G_RETRACT, G_RETRACT, G_TRANSPORT, G_TRANSPORT, G_INVTRANSPORT, G_DIFFRETR, G_COTANGENT, G_METRIC, G_COST, G_COST, G_PROJ, G_INTREXTR, G_INTREXTR, G_DIST, G_BETA, G_TRANH, G_APPLYH, G_FLAT, G_NORMAL, G_AMBIENT, G_INVRETR, G_FLAGS};
  static const int wp[] = {G_POINT, G_COPYPOINT, G_COPYPOINT, G_REBUILD, G_WRITE, G_RANDVEC, G_RANDVEC, G_SCALE, G_COMB, G_COST, G_COST, G_COST, G_COST, G_GRAD, G_GRAD, G_GRAD, G_GRAD, G_HESS, G_HESS, G_HESS, G_HESS, G_RETRACT, G_RETRACT, G_TRANSPORT, G_INTREXTR, G_DIST, G_METRIC, G_FLAGS};
  for (int i = 0; i < n; i++) {
    int k = prob ? wp[r.below(sizeof wp / sizeof *wp)] : wm[r.below(sizeof wm / sizeof *wm)];
    s.ops.push_back(Rec("g", {k, r.below(8), r.below(8), r.below(8), r.range(1, 100000), 2 * i}));
    if (k == G_COST && r.chance(1, 2)) { Rec q = s.ops.back(); q.a[0] = G_GRAD; q.a[5]++; s.ops.push_back(q); }
    if (r.chance(1, 6)) s.faults.push_back(Rec("alloc", {s.ops.back().at(5), r.chance(1, 2) ? r.range(1, 6) : r.range(1, 60), r.chance(1, 2) ? 1 : r.below(4)}));
  }
  return s;
}
Scenario gen_p19(u64 seed, int tier) { return gen_geom(seed, tier, false); }
Scenario gen_p20(u64 seed, int tier) { return gen_geom(seed, tier, true); }
void run_geom(const Scenario &s) {
  std_setup(s);
  Pool pool; Q = &pool;
  pool.s = &s;
  { LibScope l(true); pool.w = make_world(s); }
  mark("world:%s", pool.w->desc.c_str());
  for (size_t i = 0; i < s.ops.size(); i++) {
    const Rec *f = 0;
    for (size_t j = 0; j < s.faults.size(); j++) if (s.faults[j].k == "alloc" && s.faults[j].at(0) == s.ops[i].at(5)) f = &s.faults[j];
    do_step(s.ops[i], f);
  }
  phase("teardown");
  for (int i = 0; i < NP; i++) { LibScope l(true); pool.p[i].x = Variable(); }
  for (int i = 0; i < NV; i++) { LibScope l(true); pool.v[i].v = Vector(); }
  for (int i = 0; i < NE; i++) { LibScope l(true); pool.e[i].eta = Vector(); }
  delete pool.w;
  heap_check_all();
}
}  // namespace
const Prop prop_p19 = {"P19", "manifold operations do not depend on history", gen_p19, run_geom, 20};
const Prop prop_p20 = {"P20", "cost and derivatives do not depend on history", gen_p20, run_geom, 20};
}  // namespace sim
