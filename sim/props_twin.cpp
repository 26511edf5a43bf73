// Properties decided by comparing runs with each other: P07, P08, P09, P10 (solver part), P15.
#include "props.h"
#include "elem.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <sys/mman.h>
#include <ucontext.h>

namespace sim {

struct RunRes {
  Outcome o;
  u64 ev;
  i64 nall, draws, com_us;
  std::string text;
  RunRes() : ev(0), nall(0), draws(0), com_us(0) {}
};
// everything the library prints except elapsed times
static std::string mask_times(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, 5, "time:") == 0) {
      r += "time:";
      i += 5;
      while (i < s.size() && s[i] != ',' && s[i] != '\n') i++;
    } else r += s[i++];
  }
  return r;
}
static void reset_inputs(const Scenario &s) {
  clk.mono_us = 0; clk.rt_off_us = 0; clk.tick_us = 0;
  heap.poison = (int)s.c("poison");
  rnd->state = (u64)s.c("rseed", 1) * 7919; rnd->draws = 0;
}
static std::string res_diff(const RunRes &a, const RunRes &b, bool with_time, bool series) {
  if (a.ev != b.ev) {
    if (a.nall != b.nall) return "the callback sequence (" + std::to_string(a.nall) + " vs " + std::to_string(b.nall) + " callbacks)";
    return "the callback sequence";
  }
  std::string d = outcome_diff(a.o, b.o, with_time, series);
  if (!d.empty()) return d;
  if (a.draws != b.draws) return "the number of random draws";
  return "";
}
static void mark_run(const World &w, int sv) { mark("%s/%s", pk_names[w.pk], sv_names[sv]); }
typedef std::function<void(SolverRun &)> Tweak;
static RunRes one_run(const Scenario &s, const std::string &pre, World *shared = 0, const Tweak &before = Tweak(), const Tweak &after = Tweak(), bool text = false) {
  RunRes r;
  size_t t0 = text ? captured().size() : 0;
  g_slow_ok = sv_sub((int)s.c(pre + "sv"));  // a subproblem may take 100 x 1000 inner iterations without a callback
  SolverRun R(s, pre, shared);
  if (before) before(R);
  u64 hx = hash_elem(R.w->x0);
  i64 d0 = rnd->draws;
  R.build(s, pre);
  if (after) after(R);
  R.go();
  r.o = outcome(R.sol, R.sv);
  r.ev = R.env.evhash; r.nall = R.env.nall; r.draws = rnd->draws - d0;
  mark_run(*R.w, R.sv);
  report_env(R.env, R.sv);
  if (hash_elem(R.w->x0) != hx) violate("initial-iterate-changed", "%s: the user's initial iterate was modified by the run", sv_names[R.sv]);
  R.destroy();
  if (text) r.text = mask_times(captured().substr(t0));
  return r;
}

// ================================================================= P08
static Scenario gen_p08(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, 0);
  gen_options(r, s, "", 2);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tap"] = r.chance(1, 4);
  s.cfg["numgh"] = r.chance(1, 10);
  if (r.chance(1, 3)) gen_fval_faults(r, s, 3, 40, false, false);
  for (size_t i = 0; i < s.faults.size(); i++) if (s.faults[i].a[2] == 3) s.faults[i].a[2] = 4;
  if (r.chance(1, 2)) { gen_supported(r, s, "b_", tier, 0); gen_options(r, s, "b_", 2); s.cfg["b_tap"] = 1; }
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++)  // poison, stack paint, wall offset, clock tick, callback cost, verbosity, stdout, run before, heap noise
    s.ops.push_back(Rec("var", {r.below(5), r.below(6), r.chance(1, 2) ? 0 : r.range(-100000000, 100000000), r.chance(1, 2) ? 0 : r.range(1, 3000), r.chance(1, 2) ? 0 : r.range(1, 100000),
                                r.chance(1, 2) ? -1 : r.range(0, 3), r.chance(1, 2) ? 0 : r.range(1, 3), s.cfg.count("b_pk") ? r.range(0, 2) : 0, r.below(40)}));
  return s;
}
static void run_p08(const Scenario &s) {
  std_setup(s);
  reset_inputs(s);
  phase("baseline");
  RunRes base = one_run(s, "", 0, Tweak(), Tweak(), true);
  int bverb = (int)s.c("verb", ITERRESULT);
  for (size_t v = 0; v < s.ops.size(); v++) {
    const Rec &q = s.ops[v];
    if (q.k != "var") continue;
    std::unique_ptr<SolverRun> alive;
    if (q.at(7) > 0 && s.cfg.count("b_pk")) {
      phase("another run before");
      reset_inputs(s);
      rnd->state += 17;
      alive.reset(new SolverRun(s, "b_"));
      alive->build(s, "b_");
      alive->go();
      if (q.at(7) == 1) alive.reset();
      count("fault:run-before");
    }
    // fragmented heap
    std::vector<Element *> noise;
    { LibScope l(true); for (i64 i = 0; i < q.at(8); i++) { Element *e = new Element((integer)(1 + i % 7), (integer)(1 + i % 3)); e->ObtainWriteEntireData(); noise.push_back(e); } for (size_t i = 0; i < noise.size(); i += 2) { delete noise[i]; noise[i] = 0; } }
    reset_inputs(s);
    heap.poison = (int)q.at(0);
    clk.mono_us = q.at(2) > 0 ? q.at(2) * 11 : 0;
    clk.rt_off_us = q.at(2) * 1000;
    clk.tick_us = q.at(3);
    int verb = q.at(5) >= 0 ? (int)(q.at(5) % 4) : bverb;
    Scenario t = s;
    t.cfg["verb"] = verb;
    if (q.at(6) > 0) { set_stdout((int)(q.at(6) - 1) % 3); count("fault:stdout"); }
    if (q.at(3) || q.at(2)) count("fault:clock");
    if (q.at(0) != s.c("poison")) count("fault:heap-pattern");
    phase("variant");
    i64 cost = q.at(4);
    int paint = (int)q.at(1);
    RunRes r = one_run(t, "", 0, [&](SolverRun &R) { if (cost) { const char *c = "fGHghpwjs"; for (; *c; c++) R.env.cost_us[(int)*c] += cost * (1 + (*c) % 3); } },
                       [&](SolverRun &) { if (paint < 5) paint_stack(paint); }, q.at(6) == 0);
    if (q.at(6) > 0) set_stdout(3);
    std::string d = res_diff(base, r, false, bverb >= ITERRESULT && verb >= ITERRESULT);
    if (!d.empty()) {
      char why[300];
      snprintf(why, sizeof why, "heap %lld->%lld, stack %lld, clock %lld/%lld/%lld, verbosity %d->%d, stdout %lld, run before %lld, noise %lld", (i64)s.c("poison"), q.at(0), q.at(1), q.at(2), q.at(3), q.at(4), bverb, verb, q.at(6), q.at(7), q.at(8));
      violate("depends-on-environment", "%s on %s: two runs of the same configuration differ in %s (%s)", sv_names[s.c("sv")], pk_names[s.c("pk")], d.c_str(), why);
    }
    if (q.at(6) == 0 && verb == bverb && r.text != base.text) {
      size_t i = 0;
      while (i < r.text.size() && i < base.text.size() && r.text[i] == base.text[i]) i++;
      violate("output-depends-on-environment", "%s on %s: two runs of the same configuration print different text: \"%s\" and \"%s\"", sv_names[s.c("sv")], pk_names[s.c("pk")], base.text.substr(i > 20 ? i - 20 : 0, 60).c_str(), r.text.substr(i > 20 ? i - 20 : 0, 60).c_str());
    }
    count("variants");
    { LibScope l(true); for (size_t i = 0; i < noise.size(); i++) delete noise[i]; }
    alive.reset();
  }
  heap_check_all();
}
const Prop prop_p08 = {"P08", "a run is a function of its inputs", gen_p08, run_p08, 100};

// ================================================================= options of the solvers
#define OPTIONS(X) \
  X(Solvers, Tolerance, Tolerance, 1e-4, 1e-6, 0.01) X(Solvers, TimeBound, TimeBound, 0.05, 1e3, 2.5) X(Solvers, Max_Iteration, Max_Iteration, 7, 20, 4) X(Solvers, Min_Iteration, Min_Iteration, 1, 3, 2) \
  X(Solvers, OutputGap, OutputGap, 1, 3, 7) X(Solvers, Verbose, Verbose, 0, 1, 3) \
  X(SolversSM, Stop_Criterion, Stop_Criterion, 0, 1, 2) X(SolversSM, Accuracy, Accuracy, 0, 0.001, 0.1) \
  X(SolversSMLS, LineSearch_LS, LineSearch_LS, 0, 1, 2) X(SolversSMLS, LS_alpha, LS_alpha, 0.001, 0.25, 1e-5) X(SolversSMLS, LS_beta, LS_beta, 0.9, 0.5, 0.99) X(SolversSMLS, Minstepsize, Minstepsize, 1e-10, 1e-3, 1e-6) \
  X(SolversSMLS, Maxstepsize, Maxstepsize, 10, 0.75, 100) X(SolversSMLS, LS_ratio1, LS_ratio1, 0.2, 0.4, 0.05) X(SolversSMLS, LS_ratio2, LS_ratio2, 0.8, 0.6, 0.95) X(SolversSMLS, Initstepsize, Initstepsize, 0.5, 0.01, 3) \
  X(SolversSMLS, Finalstepsize, Finalstepsize, 1, 0.5, -1) X(SolversSMLS, Num_pre_funs, Num_pre_funs, 2, 5, 1) X(SolversSMLS, InitSteptype, InitSteptype, 0, 2, 4) X(SolversSMLS, IsPureLSInput, IsPureLSInput, 0, 1, 1) \
  X(SolversSMLS, PreFunsAccuracy, PreFunsAccuracy, 1e-3, 1e-8, 1) X(SolversSMLS, Num_pre_BB, Num_pre_BB, 0, 1, 4) X(SolversSMLS, BBratio, BBratio, 0, 0.5, 0.25) \
  X(SolversSMTR, Acceptence_Rho, Acceptence_Rho, 0.2, 0.05, 0.01) X(SolversSMTR, Shrinked_tau, Shrinked_tau, 0.1, 0.5, 0.3) X(SolversSMTR, Magnified_tau, Magnified_tau, 1.5, 3, 2.5) X(SolversSMTR, minimum_Delta, minimum_Delta, 1e-8, 1e-3, 1e-12) \
  X(SolversSMTR, maximum_Delta, maximum_Delta, 10, 1.5, 1000) X(SolversSMTR, useRand, useRand, 1, 0, 1) X(SolversSMTR, Max_Inner_Iter, Max_Inner_Iter, 3, 20, 5) X(SolversSMTR, Min_Inner_Iter, Min_Inner_Iter, 1, 2, 0) \
  X(SolversSMTR, theta, theta, 0.1, 0.5, 2) X(SolversSMTR, kappa, kappa, 0.01, 0.5, 0.9) X(SolversSMTR, initial_Delta, initial_Delta, 0.1, 0.5, 2.5) \
  X(RNewton, useRand, useRand, 1, 0, 1) X(RNewton, Max_Inner_Iter, Max_Inner_Iter, 3, 20, 5) X(RNewton, Min_Inner_Iter, Min_Inner_Iter, 1, 2, 0) X(RNewton, theta, theta, 0.1, 0.5, 2) X(RNewton, kappa, kappa, 0.01, 0.5, 0.9) \
  X(RCG, RCGmethod, RCGmethod, 0, 3, 5) \
  X(RBFGS, isconvex, isconvex, 0, 1, 1) X(RBFGS, nu, nu, 1e-3, 0.5, 1e-5) X(RBFGS, mu, mu, 0.5, 2, 3.5) X(RBroydenFamily, isconvex, isconvex, 0, 1, 1) X(RBroydenFamily, nu, nu, 1e-3, 0.5, 1e-5) X(RBroydenFamily, mu, mu, 0.5, 2, 3.5) \
  X(RWRBFGS, isconvex, isconvex, 0, 1, 1) X(RWRBFGS, nu, nu, 1e-3, 0.5, 1e-5) X(RWRBFGS, mu, mu, 0.5, 2, 3.5) \
  X(LRBFGS, isconvex, isconvex, 0, 1, 1) X(LRBFGS, LengthSY, LengthSY, 1, 0, 3) X(LRBFGS, LMrestart, LMrestart, 0, 1, 0) X(LRBFGS, nu, nu, 1e-3, 0.5, 1e-5) X(LRBFGS, mu, mu, 0.5, 2, 3.5) \
  X(LRTRSR1, LengthSY, LengthSY, 1, 0, 3) X(LRTRSR1, LMrestart, LMrestart, 0, 1, 0) X(LRBFGSSub, LengthSY, LengthSY, 1, 0, 3) \
  X(SolversNSM, Stop_Criterion, Stop_Criterion, 0, 1, 2) X(SolversNSMSub, Diffx, Diffx, 1e-3, 0.1, 1e-5) X(SolversNSMSub, NumExtraGF, NumExtraGF, 1, 3, 8) \
  X(SolversNSMSubLS, Eps, Eps, 0.5, 0.1, 2.5) X(SolversNSMSubLS, Theta_eps, Theta_eps, 0.1, 0.5, 0.9) X(SolversNSMSubLS, Min_Eps, Min_Eps, 1e-3, 1e-2, 1e-5) X(SolversNSMSubLS, Del, Del, 0.5, 0.1, 2.5) X(SolversNSMSubLS, Theta_del, Theta_del, 0.1, 0.5, 0.9) \
  X(SolversNSMSubLS, LS_alpha, LS_alpha, 0.001, 0.25, 1e-5) X(SolversNSMSubLS, LS_beta, LS_beta, 0.9, 0.5, 0.99) X(SolversNSMSubLS, Minstepsize, Minstepsize, 1e-10, 1e-3, 1e-6) X(SolversNSMSubLS, Maxstepsize, Maxstepsize, 10, 0.75, 100) \
  X(SolversNSMSubLS, lambdaLower, lambdaLower, 1e-3, 1e-7, 1e-5) X(SolversNSMSubLS, lambdaUpper, lambdaUpper, 1e3, 10.5, 1e5) \
  X(SolversNSMPGLS, RPGLSVariant, Variant, 0, 1, 1) X(SolversNSMPGLS, LS_ratio, LS_ratio, 0.5, 0.3, 0.75) X(SolversNSMPGLS, LS_alpha, LS_alpha, 1e-3, 0.01, 0.2) X(SolversNSMPGLS, Minstepsize, Minstepsize, 1e-3, 0.25, 1e-8) \
  X(AManPG, SGIterGap, SGIterGap, 1, 3, 8)

struct Option { const char *cls, *name; double v[3]; };
static const Option options[] = {
#define X(C, N, M, a, b, c) {#C, #N, {a, b, c}},
    OPTIONS(X)
#undef X
};
static const int NOPT = sizeof options / sizeof *options;
// value of option i, or NaN when the solver has no such option
static bool opt_get(Solvers *sol, int i, double *v) {
  int k = 0;
#define X(C, N, M, a, b, c) if (k++ == i) { C *m = dynamic_cast<C *>(sol); if (!m) return false; *v = (double)m->M; return true; }
  OPTIONS(X)
#undef X
  return false;
}
static bool opt_set(Solvers *sol, int i, double v) {
  int k = 0;
#define X(C, N, M, a, b, c) if (k++ == i) { C *m = dynamic_cast<C *>(sol); if (!m) return false; m->M = (decltype(m->M))(std::is_same<decltype(m->M), double>::value ? v : 0); if (!std::is_same<decltype(m->M), double>::value) m->M = (decltype(m->M))(long)v; return true; }
  OPTIONS(X)
#undef X
  return false;
}
static bool cls_of(int sv, const std::string &c) {
  if (c == "Solvers") return true;
  if (c == "SolversSM") return sv_smooth(sv);
  if (c == "SolversSMLS") return sv_ls(sv);
  if (c == "SolversSMTR") return sv_tr(sv);
  if (c == "SolversNSM") return !sv_smooth(sv);
  if (c == "SolversNSMSub" || c == "SolversNSMSubLS") return sv_sub(sv);
  if (c == "SolversNSMPGLS") return sv_prox(sv);
  return c == sv_names[sv];
}
// ================================================================= P18
enum { IN_SOLPARAMS, IN_MANIPARAMS, IN_GRADHESS, IN_EIGS, IN_INTREXTR, IN_RETR, IN_DIFFRETR, IN_LOCK, IN_ISO, IN_INVISO, IN_COMPOSE, IN_TRANH, IN_RANK1, IN_PRINT, IN_GETTERS, IN_COUNT };
static const char *in_names[] = {"CheckParams of the solver", "CheckParams of the manifold", "CheckGradHessian", "MinMaxEigValHess", "CheckIntrExtr", "CheckRetraction", "CheckDiffRetraction", "CheckLockingCondition",
                                 "CheckIsometryofVectorTransport", "CheckIsometryofInvVectorTransport", "CheckVecTranComposeInverseVecTran", "CheckTranHInvTran", "CheckHaddScaledRank1OPE", "Print", "the getters"};
static void collect_flags(Manifold *m, std::vector<int> &v);
static std::vector<int> flags_of(const World &w);
static bool finite_elem(const Element &x) { const double *p = x.GetSpace(); if (!p) return false; for (integer i = 0; i < x.Getlength(); i++) if (!(p[i] - p[i] == 0)) return false; return true; }
// one call a user makes to look at the objects; sol may be null (before construction)
static void inspect(SolverRun &R, const Solvers *sol, const Variable &x, int what, i64 arg) {
  const Manifold *m = R.w->mani;
  i64 st = rnd->state, dr = rnd->draws, mono = clk.mono_us;
  u64 hx = hash_elem(x);
  std::vector<int> fl = flags_of(*R.w);
  bool mute = R.env.mute;
  std::vector<double> opts(NOPT, 0.0);
  if (sol) for (int i = 0; i < NOPT; i++) opt_get(const_cast<Solvers *>(sol), i, &opts[i]);
  R.env.mute = true;
  rnd->state = (u64)(arg + 3) * 104729;
  { LibScope l(true);
    switch (what) {
      case IN_SOLPARAMS: if (sol) const_cast<Solvers *>(sol)->CheckParams(); break;
      case IN_MANIPARAMS: m->CheckParams(); break;
      case IN_GRADHESS: R.sp->CheckGradHessian(x); break;
      case IN_EIGS: { Vector e = R.sp->MinMaxEigValHess(x); if (e.Getlength() != 2) violate("inspection-result", "MinMaxEigValHess does not return two values"); break; }
      case IN_INTREXTR: m->CheckIntrExtr(x); break;
      case IN_RETR: m->CheckRetraction(x); break;
      case IN_DIFFRETR: m->CheckDiffRetraction(x, true); break;
      case IN_LOCK: m->CheckLockingCondition(x); break;
      case IN_ISO: m->CheckIsometryofVectorTransport(x); break;
      case IN_INVISO: m->CheckIsometryofInvVectorTransport(x); break;
      case IN_COMPOSE: m->CheckVecTranComposeInverseVecTran(x); break;
      case IN_TRANH: m->CheckTranHInvTran(x); break;
      case IN_RANK1: m->CheckHaddScaledRank1OPE(x); break;
      case IN_PRINT: x.Print("point"); x.PrintSize("point"); std::cout << x << std::endl; { Variable y(x); y.PrintSize("copy"); } break;
      case IN_GETTERS: if (sol) { sol->GetXopt(); sol->Getfinalfun(); if (const SolversSM *q = dynamic_cast<const SolversSM *>(sol)) { q->Getnormgf(); q->Getnormgfgf0(); q->GetgradSeries(); } sol->GetComTime(); sol->GetfunSeries(); sol->GettimeSeries(); sol->Getnf(); sol->Getng(); sol->GetIter(); } break;
    }
  }
  R.env.mute = mute;
  rnd->state = st; rnd->draws = dr; clk.mono_us = mono;
  count("inspections");
  if (hash_elem(x) != hx) violate("point-changed", "%s modified the point it was given (%s)", in_names[what], R.w->desc.c_str());
  if (flags_of(*R.w) != fl) violate("manifold-changed", "%s modified the manifold's settings (%s)", in_names[what], R.w->desc.c_str());
  if (sol) for (int i = 0; i < NOPT; i++) {
    double v = 0;
    if (opt_get(const_cast<Solvers *>(sol), i, &v) && !same(v, opts[i])) violate("option-changed", "%s changed %s::%s of %s from %.17g to %.17g", in_names[what], options[i].cls, options[i].name, sv_names[R.sv], opts[i], v);
  }
  mark("in:%d:%d", what, sol ? R.sv : -1);
}
static Scenario gen_p18(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, 0);
  gen_options(r, s, "", 2);
  s.cfg["maxit"] = std::min<i64>(s.cfg["maxit"], 25);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tap"] = r.chance(2, 3);
  s.cfg["numgh"] = r.chance(1, 12);
  if (r.chance(1, 4)) gen_fval_faults(r, s, 2, 40, true, false);
  for (size_t i = 0; i < s.faults.size(); i++) if (s.faults[i].a[2] == 3) s.faults[i].a[2] = 4;
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; i++)  // when (0 before construction, 1 before the run, 2 in StopPtr, 3 after the run, 4 in a callback), at which iteration/callback, what, argument
    s.ops.push_back(Rec("inspect", {s.c("tap") ? r.range(0, 4) : r.pick(std::vector<int>{0, 1, 3, 4}), r.range(0, 12), r.below(IN_COUNT), r.below(1000)}));
  // options assigned after construction, among them values CheckParams flags as out of range
  if (r.chance(1, 2)) {
    std::vector<int> mine;
    for (int i = 0; i < NOPT; i++) if (strcmp(options[i].name, "Max_Iteration") && strcmp(options[i].name, "TimeBound") && cls_of((int)s.c("sv"), options[i].cls)) mine.push_back(i);
    for (i64 k = r.range(1, 8); k > 0; k--) s.ops.push_back(Rec("opt", {mine[(size_t)r.below((i64)mine.size())], r.below(3)}));
  }
  return s;
}
static void run_p18(const Scenario &s) {
  std_setup(s);
  g_slow_ok = sv_sub((int)s.c("sv"));
  auto set_options = [&](SolverRun &R) {
    LibScope l(false);
    for (size_t q = 0; q < s.ops.size(); q++) if (s.ops[q].k == "opt") {
      int i = (int)(std::llabs(s.ops[q].at(0)) % NOPT);
      double v = options[i].v[std::llabs(s.ops[q].at(1)) % 3];
      if (strcmp(options[i].name, "Max_Iteration") && strcmp(options[i].name, "TimeBound") && opt_set(R.sol, i, v)) count("options_set");
    }
  };
  reset_inputs(s);
  phase("baseline");
  RunRes base = one_run(s, "", 0, Tweak(), set_options);
  reset_inputs(s);
  phase("inspected");
  i64 ncb = 0;
  bool busy = false;
  auto at = [&](SolverRun &R, const Solvers *sol, const Variable &x, int when, i64 k) {
    for (size_t q = 0; q < s.ops.size(); q++) {
      const Rec &o = s.ops[q];
      if (o.k != "inspect" || o.at(0) != when || (k >= 0 && o.at(1) != k)) continue;
      int what = (int)(o.at(2) % IN_COUNT);
      if (when == 4 && what != IN_SOLPARAMS && what != IN_MANIPARAMS && what != IN_GETTERS && what != IN_PRINT) continue;
      if (when == 4 && what == IN_PRINT && !x.GetSpace()) continue;
      if (!finite_elem(x)) continue;
      busy = true;
      inspect(R, sol, x, what, o.at(3));
      busy = false;
    }
  };
  RunRes r;
  {
    SolverRun R(s, "");
    R.env.hook = [&](Env &, char ch, const Variable &x) { if (!busy && ch != 's') at(R, R.sol, x, 4, ncb++); };
    R.env.stop = [&](Env &e, const Variable &x, const Vector &, integer, double fv, double iv, const Solvers *sol) {
      at(R, sol, x, 2, sol->GetIter());
      (void)e;
      return fv / iv < sol->Tolerance;
    };
    at(R, 0, R.w->x0, 0, -1);
    i64 d0 = rnd->draws;
    R.build(s, "");
    set_options(R);
    at(R, R.sol, R.w->x0, 1, -1);
    R.go();
    at(R, R.sol, R.sol->GetXopt(), 3, -1);
    r.o = outcome(R.sol, R.sv);
    int base_verb = R.sol->Verbose;
    r.ev = R.env.evhash; r.nall = R.env.nall; r.draws = rnd->draws - d0;
    mark_run(*R.w, R.sv);
    report_env(R.env, R.sv);
    std::string d = res_diff(base, r, false, base_verb >= ITERRESULT);
    if (!d.empty()) {
      std::string l;
      for (size_t q = 0; q < s.ops.size(); q++) if (s.ops[q].k == "inspect") l += std::string(l.empty() ? "" : ", ") + in_names[s.ops[q].at(2) % IN_COUNT];
      violate("inspection-changes-run", "%s on %s: with calls to %s the run differs in %s", sv_names[R.sv], R.w->desc.c_str(), l.c_str(), d.c_str());
    }
    R.destroy();
  }
  heap_check_all();
}
const Prop prop_p18 = {"P18", "inspection changes nothing", gen_p18, run_p18, 100};

// ================================================================= P07
static const int MAXT = 3;
struct Task {
  int id;
  std::string pre;
  ucontext_t ctx;
  char *stack;
  RandCtl rc;
  RunRes res;
  bool started, done, blocked;  // blocked: waits for a run nested in it
  i64 ev, measured;
};
static Task *g_task[MAXT];
static int g_ntask, g_cur;
static ucontext_t g_main;
static const Scenario *g_sc;
static World *g_shared;
static const size_t STK = (size_t)8 << 20;

static void switch_to(int j) {
  Task *from = g_task[g_cur], *to = g_task[j];
  g_cur = j;
  rnd = &to->rc;
  count("fault:switch");
  swapcontext(&from->ctx, &to->ctx);
}
static void nested_run(int i);
static void task_hook(Env &, char, const Variable &) {
  Task *t = g_task[g_cur];
  i64 k = t->ev++;
  for (size_t q = 0; q < g_sc->ops.size(); q++) {
    const Rec &r = g_sc->ops[q];
    if (r.at(0) != t->id || r.at(1) != k) continue;
    int j = (int)(r.at(2) % g_ntask);
    if (j < 0 || j == g_cur || g_task[j]->done || g_task[j]->blocked) continue;
    if (r.k == "sw") switch_to(j);
    else if (r.k == "nest" && !g_task[j]->started) nested_run(j);
  }
}
static void body(int i) {
  Task *t = g_task[i];
  t->started = true;
  i64 c0 = 0;
  bool finished = false;
  RunRes r = one_run(*g_sc, t->pre, g_shared, [&](SolverRun &R) { R.env.hook = task_hook; (void)R; }, [&](SolverRun &) { c0 = clk.mono_us; finished = true; });
  (void)finished;
  t->measured = clk.mono_us - c0;
  t->res = r;
  t->done = true;
}
static void nested_run(int j) {
  int old = g_cur;
  RandCtl *ro = rnd;
  g_cur = j; rnd = &g_task[j]->rc;
  count("fault:nested-run");
  g_task[old]->blocked = true;
  body(j);
  g_task[old]->blocked = false;
  g_cur = old; rnd = ro;
}
static void entry(int i) {
  try { body(i); } catch (std::exception &e) { violate("exception", "uncaught %s in an interleaved run", e.what()); } catch (...) { violate("exception", "uncaught exception in an interleaved run"); }
  for (int d = 1; d <= g_ntask; d++) {
    int j = (i + d) % g_ntask;
    if (!g_task[j]->done && !g_task[j]->blocked) { g_cur = j; rnd = &g_task[j]->rc; setcontext(&g_task[j]->ctx); }
  }
  setcontext(&g_main);
}
static Scenario gen_p07(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  int nt = (int)r.range(2, MAXT);
  int share = (int)r.below(3);  // 0: own worlds, 1: shared manifold/problem, 2: all solvers built on one Problem first, then run in turn
  s.cfg["tasks"] = nt; s.cfg["share"] = share;
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  gen_supported(r, s, "t0_", tier, 0);
  int pk = (int)s.c("t0_pk");
  for (int i = 0; i < nt; i++) {
    std::string pre = "t" + std::string(1, char('0' + i)) + "_";
    if (i > 0) {
      if (share) {
        std::map<std::string, i64> w0;
        for (std::map<std::string, i64>::iterator it = s.cfg.begin(); it != s.cfg.end(); ++it) if (it->first.compare(0, 3, "t0_") == 0 && it->first != "t0_sv") w0[pre + it->first.substr(3)] = it->second;
        int tries = 0;
        do { for (std::map<std::string, i64>::iterator it = w0.begin(); it != w0.end(); ++it) s.cfg[it->first] = it->second; s.cfg[pre + "sv"] = r.below(SV_COUNT); } while (!supported(s, pre) && ++tries < 300);
        if (tries >= 300) s.cfg[pre + "sv"] = s.cfg["t0_sv"];
      } else gen_supported(r, s, pre, tier, 0);
    }
  }
  (void)pk;
  bool twins = r.chance(2, 3);  // the same class of solver with the same settings, on other data
  std::map<std::string, i64> before = s.cfg;
  bool scales = twins && share == 0 && sv_smooth((int)s.c("t0_sv"));
  if (scales) s.cfg["t0_scale"] = r.below(7);
  for (int i = 0; i < nt; i++) {
    std::string pre = "t" + std::string(1, char('0' + i)) + "_";
    if (twins && i > 0) {
      int sv0 = (int)s.c("t0_sv");
      s.cfg[pre + "sv"] = sv0;
      bool copy = share || r.chance(1, 2) || !supported(s, pre);
      std::map<std::string, i64> o;
      for (std::map<std::string, i64>::iterator it = s.cfg.begin(); it != s.cfg.end(); ++it)
        if (it->first.compare(0, 3, "t0_") == 0 && (copy || before.find(it->first) == before.end())) o[pre + it->first.substr(3)] = it->second;
      if (copy) { for (std::map<std::string, i64>::iterator it = s.cfg.begin(); it != s.cfg.end();) { if (it->first.compare(0, 3, pre) == 0) s.cfg.erase(it++); else ++it; } }
      for (std::map<std::string, i64>::iterator it = o.begin(); it != o.end(); ++it) s.cfg[it->first] = it->second;
      if (!share && copy) s.cfg[pre + "inst"] = r.range(1, 60);
      if (scales) s.cfg[pre + "scale"] = r.below(7);
      if (sv_ls(sv0) && r.chance(2, 3)) s.cfg[pre + "istep"] = r.range(0, 4);
      s.cfg[pre + "maxit"] = r.range(3, 25);
      s.cfg[pre + "minit"] = std::min<i64>(s.c(pre + "minit"), 3);
      s.cfg[pre + "tap"] = r.chance(1, 2);
      if (r.chance(1, 4)) s.faults.push_back(Rec(pre + "fval", {r.range(1, 30), r.range(1, 3), r.pick(std::vector<i64>{0, 1, 2, 4})}));
      continue;
    }
    gen_options(r, s, pre, 2);
    s.cfg[pre + "maxit"] = std::min<i64>(s.cfg[pre + "maxit"], 25);
    s.cfg[pre + "minit"] = std::min<i64>(s.c(pre + "minit"), 3);
    s.cfg[pre + "tap"] = r.chance(1, 2);
    gen_costs(r, s, pre);
    if (r.chance(1, 4)) s.faults.push_back(Rec(pre + "fval", {r.range(1, 30), r.range(1, 3), r.pick(std::vector<i64>{0, 1, 2, 4})}));
  }
  if (share < 2) {
    int n = (int)r.range(3, 40);
    for (int i = 0; i < n; i++) {
      i64 a = r.below(nt), b = (a + r.range(1, nt - 1)) % nt;
      s.ops.push_back(Rec(r.chance(1, 8) ? "nest" : "sw", {a, r.below(r.chance(1, 2) ? 12 : r.chance(1, 2) ? 60 : 300), b}));
    }
  } else {
    for (int i = 0; i < nt; i++) s.ops.push_back(Rec("run", {r.below(nt)}));
  }
  return s;
}
// run i of the tasks, alone, in a world of its own
static void solo(const Scenario &s, int nt, RunRes *out) {
  for (int i = 0; i < nt; i++) {
    reset_inputs(s);
    rnd->state += (u64)i * 1000;
    std::string pre = "t" + std::string(1, char('0' + i)) + "_";
    phase("alone");
    out[i] = one_run(s, pre);
  }
}
static void run_p07(const Scenario &s) {
  std_setup(s);
  g_sc = &s;
  g_ntask = (int)std::max<i64>(1, std::min<i64>(MAXT, s.c("tasks", 2)));
  RunRes alone[MAXT];
  solo(s, g_ntask, alone);
  int share = (int)s.c("share");
  if (share == 2) {
    // one problem object, several solvers built on it before the first runs
    World *w;
    { LibScope l(true); w = make_world(s, "t0_"); }
    std::vector<std::unique_ptr<SolverRun>> R;
    for (int i = 0; i < g_ntask; i++) {
      std::string pre = "t" + std::string(1, char('0' + i)) + "_";
      R.emplace_back(new SolverRun(s, pre, w));
      R[i]->use = R[0]->sp;
      R[0]->sp->env = &R[i]->env;
      R[i]->build(s, pre);
    }
    phase("in turn");
    bool ran[MAXT] = {false, false, false};
    std::vector<int> order;
    for (size_t q = 0; q < s.ops.size(); q++) { int i = (int)(s.ops[q].at(0) % g_ntask); if (i >= 0 && !ran[i]) { ran[i] = true; order.push_back(i); } }
    for (int i = 0; i < g_ntask; i++) if (!ran[i]) order.push_back(i);
    for (size_t q = 0; q < order.size(); q++) {
      int i = order[q];
      reset_inputs(s);
      rnd->state += (u64)i * 1000;
      R[0]->sp->env = &R[i]->env;
      RunRes r;
      R[i]->go();
      r.o = outcome(R[i]->sol, R[i]->sv);
      r.ev = R[i]->env.evhash; r.nall = R[i]->env.nall; r.draws = rnd->draws;
      std::string d = res_diff(alone[i], r, true, true);
      if (!d.empty()) violate("solvers-on-one-problem", "%s on %s, built with %d others on one problem, differs from its run alone in %s", sv_names[R[i]->sv], w->desc.c_str(), g_ntask - 1, d.c_str());
      count("runs_compared");
    }
    for (size_t i = R.size(); i-- > 0;) R[i].reset();
    LibScope l(true);
    delete w;
    return;
  }
  reset_inputs(s);
  g_shared = 0;
  if (share == 1) { LibScope l(true); g_shared = make_world(s, "t0_"); }
  for (int i = 0; i < g_ntask; i++) {
    Task *t = g_task[i] = new Task();
    t->id = i;
    t->pre = "t" + std::string(1, char('0' + i)) + "_";
    t->stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t->stack == MAP_FAILED) discard("no memory for a stack");
    t->rc.state = (u64)s.c("rseed", 1) * 7919 + (u64)i * 1000; t->rc.draws = 0;
    t->started = t->done = t->blocked = false;
    t->ev = 0; t->measured = 0;
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STK;
    t->ctx.uc_link = 0;
    makecontext(&t->ctx, (void (*)())entry, 1, i);
  }
  phase("interleaved");
  g_cur = 0; rnd = &g_task[0]->rc;
  swapcontext(&g_main, &g_task[0]->ctx);
  rnd = &rnd_main;
  for (int i = 0; i < g_ntask; i++) {
    Task *t = g_task[i];
    if (!t->done) violate("lost-run", "run %d never finished", i);
    std::string d = res_diff(alone[i], t->res, false, true);
    if (!d.empty()) violate("interleaving", "%s (run %d of %d, %s) differs from its run alone in %s", sv_names[s.c(t->pre + "sv")], i, g_ntask, share ? "shared manifold and problem" : "own objects", d.c_str());
    count("runs_compared");
  }
  heap_check_all();
}
const Prop prop_p07 = {"P07", "interleaved and nested runs", gen_p07, run_p07, 100};

// ================================================================= P09
static Scenario gen_p09(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, 0);
  gen_options(r, s, "", 2);
  s.cfg["maxit"] = std::min<i64>(s.cfg["maxit"], 30);
  s.cfg["minit"] = std::min<i64>(s.c("minit"), 3);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tap"] = r.chance(1, 2);
  s.cfg["numgh"] = r.chance(1, 4);
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; i++) s.ops.push_back(Rec("throw", {r.chance(1, 3) ? r.range(0, 8) : r.chance(1, 2) ? r.range(0, 60) : r.range(0, 400)}));
  return s;
}
static void collect_flags(Manifold *m, std::vector<int> &v) {
  v.push_back(m->GetIsIntrinsic()); v.push_back(m->GetHasHHR()); v.push_back((int)m->GetExtrDim()); v.push_back((int)m->GetIntrDim());
}
static std::vector<int> flags_of(const World &w) {
  std::vector<int> v;
  collect_flags(w.mani, v);
  for (size_t i = 0; i < w.parts.size(); i++) collect_flags(w.parts[i], v);
  return v;
}
static int problem_flags(const Problem *p) { return p->GetUseGrad() + 2 * p->GetUseHess() + 4 * p->GetNumGradHess(); }
static void run_p09(const Scenario &s) {
  std_setup(s);
  reset_inputs(s);
  phase("baseline");
  RunRes base = one_run(s, "");
  i64 live0 = heap.live_blocks;
  World *w;
  { LibScope l(true); w = make_world(s, ""); }
  u64 hx = hash_elem(w->x0);
  std::vector<int> fl = flags_of(*w);
  for (size_t q = 0; q < s.ops.size(); q++) {
    if (s.ops[q].k != "throw") continue;
    phase("interrupted run");
    reset_inputs(s);
    bool threw = false;
    int id = -1;
    {
      SolverRun R(s, "", w);
      R.env.faults.push_back(Rec("throw", {s.ops[q].at(0)}));
      int want = (int)R.env.faults.size() - 1;
      int pf = -1;
      try { R.build(s, ""); pf = problem_flags(R.sp); R.go(); }
      catch (SimThrow &t) { threw = true; id = t.id; if (id != want) violate("other-exception", "the exception that left Run is not the one the callback threw"); }
      catch (std::exception &e) { violate("other-exception", "the callback threw its own exception, %s left Run", e.what()); }
      catch (...) { violate("other-exception", "the callback threw its own exception, another one left Run"); }
      if (R.env.fired_throw && !threw) violate("swallowed", "%s: the exception thrown by callback %lld did not leave Run", sv_names[R.sv], s.ops[q].at(0));
      if (pf >= 0 && problem_flags(R.sp) != pf) violate("problem-changed", "%s: after an exception from callback %lld the problem has other settings (use of gradient, Hessian, numerical derivatives: %d before, %d after)", sv_names[R.sv], s.ops[q].at(0), pf, problem_flags(R.sp));
      report_env(R.env, R.sv);
      R.destroy();
    }
    if (hash_elem(w->x0) != hx) violate("initial-iterate-changed", "the interrupted run modified the initial iterate");
    if (flags_of(*w) != fl) violate("manifold-changed", "%s: after an exception from callback %lld the manifold has other settings", sv_names[s.c("sv")], s.ops[q].at(0));
    phase("run after the exception");
    reset_inputs(s);
    RunRes r = one_run(s, "", w);
    std::string d = res_diff(base, r, true, true);
    if (!d.empty()) violate("rerun-differs", "%s on %s: after an exception from callback %lld a new run differs in %s", sv_names[s.c("sv")], w->desc.c_str(), s.ops[q].at(0), d.c_str());
    if (threw) count("reruns");
  }
  { LibScope l(true); delete w; }
  if (heap.live_blocks != live0) violate("leak", "%s on %s: %lld blocks are still allocated after everything was destroyed", sv_names[s.c("sv")], pk_names[s.c("pk")], heap.live_blocks - live0);
  heap_check_all();
}
const Prop prop_p09 = {"P09", "callback exceptions", gen_p09, run_p09, 100};

// ================================================================= P10
static Scenario gen_p10(u64 seed, int tier) {
  Rng r(seed);
  if (r.chance(2, 5)) { Scenario e = gen_elem10(seed, tier); e.cfg["elem"] = 1; return e; }
  Scenario s;
  gen_supported(r, s, "", tier, 0);
  gen_options(r, s, "", 2);
  s.cfg["maxit"] = std::min<i64>(s.cfg["maxit"], 12);
  s.cfg["minit"] = std::min<i64>(s.c("minit"), 3);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tap"] = r.chance(1, 3);
  s.cfg["numgh"] = r.chance(1, 6);
  int n = (int)r.range(1, 5);
  // k-th allocation per mille of those of the whole run (or k-th from the start), then all, one or a few fail
  for (int i = 0; i < n; i++) s.ops.push_back(Rec("alloc", {r.chance(1, 4) ? -r.range(1, 200) : r.below(1000), r.chance(1, 2) ? 1 : r.chance(1, 2) ? 0 : r.range(2, 6)}));
  return s;
}
static void run_p10(const Scenario &s) {
  if (s.c("elem")) { run_elem(s); return; }
  std_setup(s);
  reset_inputs(s);
  World *w;
  { LibScope l(true); w = make_world(s, ""); }
  phase("baseline");
  heap.failing = true; heap.nlib = 0; heap.fail_at = 0; heap.fail_len = 1; heap.failed = 0;
  RunRes base = one_run(s, "", w);
  heap.failing = false;
  i64 total = heap.nlib;
  u64 hx = hash_elem(w->x0);
  std::vector<int> fl = flags_of(*w);
  for (size_t q = 0; q < s.ops.size(); q++) {
    if (s.ops[q].k != "alloc") continue;
    i64 a = s.ops[q].at(0);
    i64 at = a < 0 ? -a : 1 + a * total / 1000;
    phase("run with a failing allocation");
    reset_inputs(s);
    bool bad = false;
    heap.failed = 0;
    {
      SolverRun R(s, "", w);
      heap.nlib = 0; heap.fail_at = at; heap.fail_len = s.ops[q].at(1); heap.failing = true;
      try { R.build(s, ""); R.go(); }
      catch (std::bad_alloc &) { bad = true; }
      catch (SimThrow &) { heap.failing = false; violate("other-exception", "a failed allocation left Run as another exception"); }
      heap.failing = false;
      if (heap.failed && !bad) violate("swallowed", "%s on %s: allocation %lld of %lld failed and no bad_alloc left the constructor or Run", sv_names[R.sv], w->desc.c_str(), at, total);
      if (!heap.failed && bad) violate("other-exception", "bad_alloc although no allocation failed");
      report_env(R.env, R.sv);
      mark_run(*w, R.sv);
      R.destroy();
    }
    if (heap.failed) count("fault:alloc", heap.failed);
    if (hash_elem(w->x0) != hx) violate("initial-iterate-changed", "%s on %s: the run ended by a failed allocation modified the initial iterate", sv_names[s.c("sv")], w->desc.c_str());
    if (flags_of(*w) != fl) violate("manifold-changed", "%s on %s: after allocation %lld of %lld failed the manifold has other settings", sv_names[s.c("sv")], w->desc.c_str(), at, total);
    phase("run after the failed allocation");
    reset_inputs(s);
    RunRes r = one_run(s, "", w);
    std::string d = res_diff(base, r, true, true);
    if (!d.empty()) violate("rerun-differs", "%s on %s: after allocation %lld of %lld failed a new run differs in %s", sv_names[s.c("sv")], w->desc.c_str(), at, total, d.c_str());
    if (heap.failed) count("reruns");
  }
  { LibScope l(true); delete w; }
  heap_check_all();
}
const Prop prop_p10 = {"P10", "failing allocations", gen_p10, run_p10, 100};

// ================================================================= P15
static Scenario gen_p15(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, 0);
  s.cfg["maxit"] = r.range(3, sv_sub((int)s.c("sv")) ? 8 : 30);
  s.cfg["verb"] = 2;
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  gen_costs(r, s);
  if (r.chance(1, 4)) gen_fval_faults(r, s, 2, 30, true, false);
  for (size_t i = 0; i < s.faults.size(); i++) if (s.faults[i].a[2] == 3) s.faults[i].a[2] = 4;
  // groups: calls of SetParams with several names; entries: option, value
  int n = (int)(r.chance(1, 2) ? r.range(1, 4) : r.range(5, 40));
  std::vector<int> mine;  // options of this solver and of others (which it has to ignore)
  for (int i = 0; i < NOPT; i++) if (cls_of((int)s.c("sv"), options[i].cls)) mine.push_back(i);
  for (int i = 0; i < n; i++) s.ops.push_back(Rec("set", {r.chance(1, 10) ? r.below(NOPT) : mine[(size_t)r.below((i64)mine.size())], r.below(3), r.chance(1, 3)}));  // third: begins a new SetParams call
  return s;
}
static void run_p15(const Scenario &s) {
  std_setup(s);
  g_slow_ok = sv_sub((int)s.c("sv"));  // their subproblems may take 100 x 1000 inner iterations each without a callback
  RunRes res[2];
  std::vector<double> vals[2];
  std::vector<int> has;
  // names shared by several classes of one solver (Stop_Criterion, ...) set all of them; resolve by name
  for (int v = 0; v < 2; v++) {
    phase(v ? "by members" : "by names");
    reset_inputs(s);
    Scenario t = s;
    t.cfg["byname"] = !v; t.cfg["bbyname"] = !v;  // the manifold's parameter set as well
    res[v] = one_run(t, "", 0, Tweak(), [&](SolverRun &R) {
      LibScope l(false);
      std::vector<double> before(NOPT, 0.0);
      std::vector<char> touched(NOPT, 0);
      for (int i = 0; i < NOPT; i++) opt_get(R.sol, i, &before[i]);
      PARAMSMAP m;
      for (size_t q = 0; q < s.ops.size(); q++) {
        const Rec &r = s.ops[q];
        int i = (int)(std::llabs(r.at(0)) % NOPT), k = (int)(std::llabs(r.at(1)) % 3);
        double cur, val = options[i].v[k];
        if (!opt_get(R.sol, i, &cur)) {  // not an option of this solver: to be ignored
          bool other = false;
          for (int j = 0; j < NOPT; j++) other = other || (!strcmp(options[j].name, options[i].name) && opt_get(R.sol, j, &cur));
          if (v == 0 && !other) { m[options[i].name] = val; count("foreign_names"); }
          continue;
        }
        if (!strcmp(options[i].name, "Verbose") && val < 1) val = 1;
        touched[i] = 1;
        if (v == 0) {
          if (r.at(2) && !m.empty()) { LibScope l2(true); R.sol->SetParams(m); m.clear(); count("setparams"); }
          m[options[i].name] = val;
        } else opt_set(R.sol, i, val);
        mark("opt:%s.%s=%d", options[i].cls, options[i].name, k);
        count("options_set");
      }
      if (v == 0 && !m.empty()) { LibScope l2(true); R.sol->SetParams(m); count("setparams"); }
      vals[v].assign(NOPT, 0.0);
      for (int i = 0; i < NOPT; i++) {
        double x = 0;
        if (!opt_get(R.sol, i, &x)) continue;
        vals[v][i] = x;
        if (!touched[i] && !same(x, before[i])) violate("other-option-changed", "%s: SetParams changed %s::%s from %.17g to %.17g, which was not named", sv_names[R.sv], options[i].cls, options[i].name, before[i], x);
      }
    });
  }
  for (int i = 0; i < NOPT; i++)
    if (!same(vals[0][i], vals[1][i])) violate("option-value", "%s: SetParams sets %s::%s to %.17g, the member was assigned %.17g", sv_names[s.c("sv")], options[i].cls, options[i].name, vals[0][i], vals[1][i]);
  std::string d = res_diff(res[0], res[1], true, true);
  if (!d.empty()) violate("runs-differ", "%s: the run configured by names differs from the run configured by members in %s", sv_names[s.c("sv")], d.c_str());
}
const Prop prop_p15 = {"P15", "options by name", gen_p15, run_p15, 60};

}  // namespace sim
