// P14: histories of sparse matrices; P16: random draws, with forced outputs of the generator.
#include "elem.h"
#include <algorithm>
#include <cmath>
#include <climits>
#include <memory>

namespace sim {
#define LIB(...) do { LibScope lib_(true); __VA_ARGS__; } while (0)

// ================================================================= P14
struct Sp {
  SparseMatrix *s;
  Mat d;      // dense model
  Mat a;      // sum of the absolute values (for the tolerance)
  int nz;
  Sp() : s(0), nz(0) {}
};
static void sp_entries(Sp &S, int m, int n, int nz, bool cx, u64 seed, std::vector<integer> &ir, std::vector<integer> &jc, std::vector<double> &v) {
  Rng g(seed);
  S.d = mat(m, n, 1, cx); S.a = mat(m, n, 1, false); S.nz = nz;
  bool dup = g.chance(1, 3);
  int rowlim = g.chance(1, 3) ? std::max(1, m / 2) : m;  // empty rows
  ir.assign((size_t)std::max(nz, 1), 0); jc = ir; v.assign((size_t)(std::max(nz, 1) * (cx ? 2 : 1)), 0.0);
  for (int i = 0; i < nz; i++) {
    int a = (int)g.below(rowlim), b = (int)g.below(n);
    if (dup && i && g.chance(1, 2)) { a = ir[(size_t)i - 1]; b = jc[(size_t)i - 1]; }
    double x = 2 * g.unit() - 1, y = cx ? 2 * g.unit() - 1 : 0;
    ir[(size_t)i] = a; jc[(size_t)i] = b;
    if (cx) { v[(size_t)(2 * i)] = x; v[(size_t)(2 * i) + 1] = y; } else v[(size_t)i] = x;
    S.d.at(a, b) += cd(x, y);
    S.a.at(a, b) += std::abs(x) + std::abs(y);
  }
}
static SparseMatrix *sp_make(int m, int n, bool cx, int nz, std::vector<integer> &ir, std::vector<integer> &jc, std::vector<double> &v) {
  LibScope l(true);
  return cx ? new SparseMatrix(m, n, &ir[0], &jc[0], (realdpcomplex *)&v[0], nz) : new SparseMatrix(m, n, &ir[0], &jc[0], &v[0], nz);
}
static void dense_elem(Element &e, const Mat &m) { write_raw(e.ObtainWriteEntireData(), m); }
static bool near(const Mat &a, const Mat &b, const Mat &scale) {
  if (!same_shape(a, b)) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!(std::abs(a.v[i] - b.v[i]) <= 1e-13 * (1e-2 + scale.v[i].real()))) return false;
  return true;
}
static Mat mabs(const Mat &a) { Mat m = a; m.cx = false; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = std::abs(a.v[i].real()) + std::abs(a.v[i].imag()); return m; }
// S * X (left) or X * S; with a twin of X that must keep its value
static void sp_product(const Sp &S, bool left, int k, u64 seed, const char *who, i64 op) {
  bool cx = S.d.cx;
  Mat x = left ? rnd_mat(S.d.c, k, 1, cx, seed) : rnd_mat(k, S.d.r, 1, cx, seed);
  Mat want = left ? mmul(S.d, x) : mmul(x, S.d), sc = left ? mmul(S.a, mabs(x)) : mmul(mabs(x), S.a);
  Mat got, xa, ya;
  bool failing = heap.failing;
  heap.failing = false;
  Element *X, *Y, *Z;
  { LibScope l(true); X = cx ? new Element(x.r, x.c, "complex") : new Element(x.r, x.c); dense_elem(*X, x); Y = new Element(*X); Z = 0; }
  heap.failing = failing;
  bool bad = false;
  try { LibScope l(true); Element r = left ? *S.s * *X : *X * *S.s; Z = new Element(r); }
  catch (std::bad_alloc &) { bad = true; }
  heap.failing = false;
  if (failing && heap.failed && !bad) violate("swallowed", "op %lld (%s): an allocation failed inside a sparse product and no bad_alloc reached the caller", op, who);
  if (bad && !heap.failed) violate("other-exception", "op %lld (%s): bad_alloc although no allocation failed", op, who);
  xa = read_elem(*X); ya = read_elem(*Y);
  if (Z) got = read_elem(*Z);
  { LibScope l(true); delete X; delete Y; delete Z; }
  if (!same_bits(xa, x) || !same_bits(ya, x)) violate("operand-changed", "op %lld (%s): the dense operand of a sparse product changed", op, who);
  if (!bad && !near(got, want, sc)) violate("wrong-product", "op %lld (%s): %s product of a sparse %dx%d %s matrix with %d entries is %s, expected %s", op, who, left ? "S*X" : "X*S", S.d.r, S.d.c, cx ? "complex" : "real", S.nz, show(got).c_str(), show(want).c_str());
  if (!bad) for (size_t i = 0; i < got.v.size(); i++) trd(got.v[i].real());
  count("products");
}
static void sp_verify(std::vector<Sp> &P, i64 op, const char *who) {
  for (size_t i = 0; i < P.size(); i++) {
    if (!P[i].s) continue;
    if (P[i].s->Getrow() != P[i].d.r || P[i].s->Getcol() != P[i].d.c || P[i].s->Getiscomplex() != P[i].d.cx) violate("wrong-shape", "op %lld (%s): matrix %zu reports another shape", op, who, i);
    for (size_t j = 0; j < i; j++) if (P[j].s && P[j].s->GetSparseM() == P[i].s->GetSparseM()) violate("shared-handle", "op %lld (%s): matrices %zu and %zu have the same handle", op, who, i, j);
    sp_product(P[i], true, P[i].d.c > 1 ? 2 : 1, 77 + i, who, op);
    sp_product(P[i], false, P[i].d.r > 1 ? 2 : 1, 78 + i, who, op);
  }
}
static Scenario gen_p14(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  if (r.chance(1, 4)) { gen_supported(r, s, "", tier, 1, r.chance(1, 2) ? PK_MATCOMP : r.chance(1, 2) ? PK_SFRQLYAP : PK_BLINDDECON); gen_options(r, s, "", 0); s.cfg["maxit"] = 4; s.cfg["solve"] = 1; }
  int n = (int)r.range(4, tier ? 60 : 30);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(20);
    i64 sl = r.below(8);
    if (k < 7) s.ops.push_back(Rec("create", {sl, r.range(1, 6), r.range(1, 6), r.below(13), r.below(2), (i64)(r.next() >> 20)}));
    else if (k < 10) s.ops.push_back(Rec("destroy", {sl}));
    else if (k < 13) s.ops.push_back(Rec("left", {sl, r.range(1, 4), (i64)(r.next() >> 20)}));
    else if (k < 16) s.ops.push_back(Rec("right", {sl, r.range(1, 4), (i64)(r.next() >> 20)}));
    else if (k < 17) s.ops.push_back(Rec("print", {sl, r.below(3)}));
    else if (k < 18) s.ops.push_back(Rec("clear", {r.below(4)}));
    else if (k < 19 || !s.c("solve")) s.ops.push_back(Rec("churn", {r.chance(1, 3) ? r.range(20, 200) : r.range(1, 20), r.range(1, 5), (i64)(r.next() >> 20)}));
    else s.ops.push_back(Rec("solve", {}));
  }
  int nf = r.chance(1, 2) ? 0 : (int)r.range(1, 4);
  for (int i = 0; i < nf; i++) s.faults.push_back(Rec("alloc", {r.below(n), r.range(1, 10), r.chance(2, 3) ? 1 : 0}));
  return s;
}
static void run_p14(const Scenario &s) {
  std_setup(s);
  World *w = 0;
  if (s.c("solve")) LIB(w = make_world(s, ""));
  i64 live0 = heap.live_blocks, bytes0 = heap.live_bytes;
  std::vector<Sp> P(8);
  std::vector<integer> ir, jc;
  std::vector<double> v;
  int alive = 0, peak = w ? (int)w->sps.size() : 0;
  int base = peak;
  i64 nfail = 0;
  for (size_t q = 0; q < s.ops.size(); q++) {
    const Rec &o = s.ops[q];
    i64 at = 0, len = 0;
    for (size_t i = 0; i < s.faults.size(); i++) if (s.faults[i].at(0) == (i64)q) { at = s.faults[i].at(1); len = s.faults[i].at(2); }
    heap.nlib = 0; heap.failed = 0; heap.fail_at = at; heap.fail_len = len;
    Sp &S = P[(size_t)(o.at(0) & 7)];
    phase(o.k.c_str());
    bool destroyed = false;
    if (o.k == "create") {
      if (S.s) { LIB(delete S.s); S.s = 0; alive--; }
      int m = (int)o.at(1, 1), n = (int)o.at(2, 1);
      bool cx = o.at(4) != 0;
      Sp T;
      sp_entries(T, m, n, (int)o.at(3), cx, (u64)o.at(5), ir, jc, v);
      heap.failing = at > 0;
      bool bad = false;
      try { T.s = sp_make(m, n, cx, (int)o.at(3), ir, jc, v); }
      catch (std::bad_alloc &) { bad = true; }
      heap.failing = false;
      if (heap.failed && !bad) violate("swallowed", "op %zu (create): an allocation failed and no bad_alloc left the constructor", q);
      if (!heap.failed && bad) violate("other-exception", "op %zu (create): bad_alloc although no allocation failed", q);
      // the caller's arrays belong to the caller
      std::fill(v.begin(), v.end(), 1e99);
      std::fill(ir.begin(), ir.end(), 1000000); std::fill(jc.begin(), jc.end(), 1000000);
      if (!bad) { S = T; alive++; peak = std::max(peak, base + alive); }
      count("creates");
    } else if (o.k == "destroy") {
      if (S.s) { LIB(delete S.s); S.s = 0; alive--; destroyed = true; }
    } else if (o.k == "clear") {
      for (size_t i = 0; i < P.size(); i++) { size_t j = o.at(0) & 1 ? P.size() - 1 - i : i; if (P[j].s && !((o.at(0) & 2) && j % 2)) { LIB(delete P[j].s); P[j].s = 0; alive--; destroyed = true; } }
    } else if (o.k == "left" || o.k == "right") {
      if (S.s) { heap.failing = at > 0; sp_product(S, o.k == "left", (int)o.at(1, 1), (u64)o.at(2), o.k.c_str(), (i64)q); heap.failing = false; }
    } else if (o.k == "print") {
      if (S.s) { set_stdout((int)o.at(1)); LIB(S.s->Print("S")); fflush(stdout); set_stdout(3); count("fault:stdout"); }
    } else if (o.k == "churn") {
      int depth = (int)o.at(1, 1);
      Rng g((u64)o.at(2));
      std::vector<Sp> T((size_t)depth);
      for (i64 i = 0; i < o.at(0); i++) {
        Sp &U = T[(size_t)(i % depth)];
        if (U.s) { LIB(delete U.s); U.s = 0; alive--; }
        int m = (int)g.range(1, 5), n = (int)g.range(1, 5), nz = (int)g.below(9);
        bool cx = g.chance(1, 2);
        sp_entries(U, m, n, nz, cx, g.next(), ir, jc, v);
        U.s = sp_make(m, n, cx, nz, ir, jc, v);
        alive++; peak = std::max(peak, base + alive);
        if (i % 3 == 0) sp_product(T[(size_t)g.below(std::min<i64>(i + 1, depth))], g.chance(1, 2), 1, g.next(), "churn", (i64)q);
      }
      for (size_t i = 0; i < T.size(); i++) if (T[i].s) { LIB(delete T[i].s); alive--; }
      count("churned", o.at(0));
      destroyed = true;
    } else if (o.k == "solve" && w) {
      SolverRun R(s, "", w);
      R.build(s, "");
      R.go();
      report_env(R.env, R.sv);
      R.destroy();
      peak = std::max(peak, base + alive + 3);
      count("solves");
    }
    if (heap.failed) { count("fault:alloc", heap.failed); nfail++; }
    tr((u64)alive);
    mark("p14:%s:%d%s%s", o.k.c_str(), alive, nfail ? ":failed" : "", destroyed ? ":d" : "");
    phase("verify");
    sp_verify(P, (i64)q, o.k.c_str());
  }
  for (size_t i = 0; i < P.size(); i++) if (P[i].s) { LIB(delete P[i].s); P[i].s = 0; }
  // what is left may be the handle table: one block, with room for the largest number of matrices alive at once
  i64 blocks = heap.live_blocks - live0, bytes = heap.live_bytes - bytes0;
  if (blocks > 1 && g_verbose) heap_dump();
  if (blocks > 1) violate("leak", "%lld blocks are still allocated after all sparse matrices were destroyed", blocks);
  if (bytes > 16 * peak + 64) violate("table-grows", "%lld bytes are still allocated after all sparse matrices were destroyed although at most %d were alive at once", bytes, peak);
  if (w) LIB(delete w);
  heap_check_all();
}
const Prop prop_p14 = {"P14", "sparse matrix handles", gen_p14, run_p14, 60};

// ================================================================= P16
// forced outputs of rand(): absolute draw index since the start of the operation, value code, how many draws in a row
static int forced_value(i64 code) { return code == 0 ? 0 : code == 1 ? RAND_MAX : code == 2 ? RAND_MAX - 1 : code == 3 ? 1 : code == 4 ? RAND_MAX / 2 : RAND_MAX / 4; }
static void force(const Scenario &s, i64 op, bool norepeat) {
  rnd->forced.clear();
  int zeros = 0;
  for (size_t i = 0; i < s.faults.size(); i++) {
    const Rec &f = s.faults[i];
    if (f.k != "force" || f.at(0) != op) continue;
    i64 len = std::min<i64>(std::max<i64>(f.at(3, 1), 1), 8);
    if (f.at(2) == 0 || norepeat) { if (f.at(2) == 0 && zeros++) continue; len = f.at(2) == 1 ? len : 1; }
    for (i64 j = 0; j < len; j++) rnd->forced[rnd->draws + f.at(1) + j] = forced_value(f.at(2));
  }
}
static i64 forced_used(i64 d0, i64 d1) { i64 n = 0; for (std::map<i64, int>::iterator i = rnd->forced.begin(); i != rnd->forced.end(); ++i) n += i->first >= d0 && i->first < d1; return n; }
struct Draws { std::vector<double> v; i64 used; u64 state; int next[3]; };
static Scenario gen_p16(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 100000);
  bool run = r.chance(1, 3);
  gen_supported(r, s, "", tier, run ? 2 : 0, run ? (int)r.pick(std::vector<int>{PK_STIEBROCKETT, PK_EUCQUAD, PK_GRASSRQ, PK_SPARSEST}) : -1, run ? SV_RGS : -1);
  if (run && s.c("pk") == PK_EUCQUAD) s.cfg["n"] = std::max<i64>(s.c("n"), 2);
  gen_options(r, s, "", 1);
  s.cfg["maxit"] = std::min<i64>(s.cfg["maxit"], 8);
  s.cfg["verb"] = 0;
  int n = (int)r.range(2, tier ? 12 : 7);
  for (int i = 0; i < n; i++) {
    i64 k = r.below(run ? 8 : 7);
    s.ops.push_back(Rec("draw", {k, r.chance(1, 6) ? r.range(20, 400) : r.range(1, 20), r.range(-5, 5), r.range(0, 9), r.below(2), r.below(5), r.range(0, 100000)}));
    int nf = r.chance(1, 4) ? 0 : (int)r.range(1, 4);
    for (int j = 0; j < nf; j++) s.faults.push_back(Rec("force", {i, r.chance(1, 2) ? r.below(6) : r.below(60), r.below(6), r.chance(2, 3) ? 1 : r.range(2, 8)}));
  }
  return s;
}
static double g_start[] = {0, -1, 2.5, -1e6, 1e-9, -3};
static void run_p16(const Scenario &s) {
  std_setup(s);
  World *w;
  LIB(w = make_world(s, ""));
  for (size_t q = 0; q < s.ops.size(); q++) {
    const Rec &o = s.ops[q];
    i64 kind = o.at(0), n = std::max<i64>(o.at(1), 1);
    bool complex_ = o.at(4) != 0;
    double mean = (double)o.at(2), var = (double)o.at(3) * 0.5;
    bool reseed = o.at(6) % 3 == 0;
    u64 st0 = rnd->state;
    i64 dr0 = rnd->draws;
    Draws D[2];
    int np = 0;
    phase("draws");
    for (int v = 0; v < 2; v++) {
      rnd->forced.clear();
      rnd->state = st0; rnd->draws = dr0;
      heap.poison = (int)((s.c("poison") + v * o.at(5)) % 5);
      if (reseed) { if (v) rnd->state += 999; LIB(genrandseed((unsigned)o.at(6))); }
      force(s, (i64)q, kind == 4 || kind == 7);
      i64 d0 = rnd->draws;
      std::vector<double> &out = D[v].v;
      double lo = -INFINITY, hi = INFINITY;
      const char *what = "";
      if (kind == 0) { what = "genrandreal"; for (i64 i = 0; i < n; i++) out.push_back(genrandreal()); lo = 0; hi = 1; }
      else if (kind == 1) { what = "genrandnormal"; for (i64 i = 0; i < n; i++) out.push_back(genrandnormal()); }
      else if (kind == 2 || kind == 3 || kind == 5 || kind == 6) {
        // elements, also shared ones: the other sharer keeps its value
        Element *e, *f;
        integer len = (integer)std::min<i64>(n, 40);
        if (kind >= 5) len = 1500;
        { LibScope l(true); e = complex_ && kind < 5 ? new Element(len, (integer)2, "complex") : new Element(len, (integer)2); double *p = e->ObtainWriteEntireData(); for (integer i = 0; i < e->Getlength(); i++) p[i] = i; f = new Element(*e); }
        double a = g_start[llabs(o.at(2)) % 6], b = a + (double)o.at(3) * 0.75;
        if (kind == 2 || kind == 5) { what = "RandUnform"; LIB(e->RandUnform(a, b)); lo = a - 4 * 2.3e-16 * (std::fabs(a) + std::fabs(b)); hi = b + 4 * 2.3e-16 * (std::fabs(a) + std::fabs(b)); if (a == 0 || a == -1 || a == 2.5 || a == -3) { lo = a; hi = b; } }
        else { what = "RandGaussian"; if (var == 0.5 && mean == 0) LIB(e->RandGaussian()); else LIB(e->RandGaussian(mean, var)); }
        const double *p = e->ObtainReadData();
        out.assign(p, p + e->Getlength());
        const double *pf = f->ObtainReadData();
        for (integer i = 0; i < f->Getlength(); i++) if (pf[i] != i) violate("shared-changed", "%s changed another element that shared the buffer", what);
        { LibScope l(true); delete e; delete f; }
        if (kind >= 5) {
          // 3000 draws: mean and variance within 7 standard errors (the generator is the simulator's, so this is deterministic)
          size_t N = out.size();
          double m1 = 0, m2 = 0, em = mean, ev = var;
          for (size_t i = 0; i < N; i++) m1 += out[i] / (double)N;
          for (size_t i = 0; i < N; i++) m2 += (out[i] - m1) * (out[i] - m1) / (double)N;
          if (kind == 5) { em = (a + b) / 2; ev = (b - a) * (b - a) / 12; }
          else if (var == 0.5 && mean == 0) ev = 1;
          double sd = std::sqrt(ev);
          if (std::fabs(m1 - em) > 7 * sd / std::sqrt((double)N) + 1e-9 * (1 + std::fabs(em)) || std::fabs(m2 - ev) > 7 * ev * std::sqrt(2.0 / (double)N) + 1e-9 * (1 + std::fabs(em)))
            violate("distribution", "%s: %zu values have mean %.6g and variance %.6g, asked for mean %.6g and variance %.6g", what, N, m1, m2, em, ev);
          count("distribution_checks");
        }
      } else if (kind == 4) {
        what = "RandominManifold";
        Variable *x;
        { LibScope l(true); x = new Variable(w->mani->RandominManifold()); }
        out = elem_data(*x);
        std::string why;
        bool zero = false;
        for (std::map<i64, int>::iterator it = rnd->forced.begin(); it != rnd->forced.end(); ++it) zero = zero || it->second == 0;
        double vi = infeasibility(*w, *x, &why);
        if (!(vi <= 1e-9) && !(zero && vi == 1e300 && w->pk != PK_AMBIENT)) violate("infeasible", "RandominManifold of %s gives a point off the manifold: %s (%.3g)", w->desc.c_str(), why.c_str(), vi);
        { LibScope l(true); delete x; }
        mark("p16:%s", w->desc.c_str());
        count("random_points");
      } else {
        what = "RGS";
        SolverRun R(s, "", w);
        R.env.check_feas = true; R.env.feas_tol = 1e-9;
        R.build(s, "");
        force(s, (i64)q, true);
        R.go();
        Outcome oc = outcome(R.sol, R.sv);
        out = oc.x; out.push_back(oc.f); out.push_back((double)oc.iter); out.push_back((double)(R.env.evhash >> 12));
        report_env(R.env, R.sv);
        R.destroy();
        count("runs_of_rgs");
      }
      for (size_t i = 0; i < out.size(); i++) {
        if (!std::isfinite(out[i])) violate("nonfinite", "value %zu of %s is not finite (%zu outputs of the generator forced)", i, what, rnd->forced.size());
        if (out[i] < lo || out[i] > hi) violate("out-of-range", "value %zu of %s is %.17g, outside [%.17g, %.17g]", i, what, out[i], lo, hi);
      }
      count("fault:forced-draw", forced_used(d0, rnd->draws));
      count("values", (i64)out.size());
      D[v].used = rnd->draws - d0;
      D[v].state = rnd->state;
      np = (int)out.size();
      mark("p16:%s:%lld:%d", what, (long long)std::min<i64>(forced_used(d0, rnd->draws), 5), reseed);
    }
    if (np && D[0].used == 0) violate("no-draw", "operation %zu produced %d random values without drawing any", q, np);
    if (D[0].used != D[1].used || D[0].v.size() != D[1].v.size()) violate("not-reproducible", "operation %zu (kind %lld) draws %lld values from one state and %lld from the same state", q, kind, D[0].used, D[1].used);
    for (size_t i = 0; i < D[0].v.size(); i++) if (dbits(D[0].v[i]) != dbits(D[1].v[i])) violate("not-reproducible", "operation %zu (kind %lld): value %zu differs between two executions from the same state of the generator: %.17g and %.17g", q, kind, i, D[0].v[i], D[1].v[i]);
    rnd->forced.clear();
    for (size_t i = 0; i < D[0].v.size() && i < 50; i++) trd(D[0].v[i]);
    tr((u64)D[0].used);
  }
  LIB(delete w);
  heap_check_all();
}
const Prop prop_p16 = {"P16", "random values", gen_p16, run_p16, 60};
}  // namespace sim
