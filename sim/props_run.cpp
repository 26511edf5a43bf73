// Properties decided on single runs of a solver in the simulated environment: P01-P06, P13, P15, P17.
#include "props.h"
#include <algorithm>
#include <cmath>

namespace sim {

void std_setup(const Scenario &s) {
  heap.poison = (int)s.c("poison");
  clk.mono_us = 0;
  clk.rt_off_us = s.c("rt_off");
  rnd->state = (u64)s.c("rseed", 1) * 7919;
}
void gen_fval_faults(Rng &r, Scenario &s, int maxn, i64 horizon, bool finite_only, bool forever) {
  int n = (int)r.below(maxn + 1);
  for (int i = 0; i < n; i++) {
    i64 at = r.chance(1, 2) ? r.range(1, 12) : r.range(1, horizon);
    i64 len = forever && r.chance(1, 3) ? 0 : r.chance(2, 3) ? 1 : r.range(2, 6);
    i64 type = finite_only ? r.range(3, 4) : r.below(6);
    s.faults.push_back(Rec("fval", {at, len, type}));
  }
}
void gen_costs(Rng &r, Scenario &s, const std::string &pre) {
  const char *chs = "fGHgh";
  for (const char *c = chs; *c; c++) if (r.chance(1, 2)) s.cfg[pre + "us_" + *c] = r.pick(std::vector<i64>{1, 10, 137, 1000, 25000, 1000000});
}
void report_env(const Env &e, int sv) {
  count("fault:cost-value", e.fired_f);
  count("fault:throw", e.fired_throw);
  count("fault:stall", e.fired_stall);
  count("fault:wall-step", e.fired_wall);
  count("callbacks", e.nall);
  (void)sv;
}
static void mark_world(const World &w, int sv) { mark("%s/%s", pk_names[w.pk], sv_names[sv]); mark("world:%s", w.desc.c_str()); }

// the user's cost in other units (rescaled together with its derivatives)
// (not with extrinsic SPD tangent vectors: x + v + v x^-1 v / 2 of a huge v is singular in floating point)
static bool has_spd(const Scenario &s) {
  bool spd = s.c("pk") == PK_SPDKARCHER || s.c("bpk") == PK_SPDKARCHER;
  for (int i = 0; i < 3; i++) for (int b = 0; b < 2; b++) spd = spd || s.c(std::string(b ? "bc" : "c") + char('0' + i) + "k") == 4;
  return spd;
}
static void gen_scale(Rng &r, Scenario &s) { if (sv_smooth((int)s.c("sv")) && !((s.c("ext") || s.c("bext") || spd_exp_world(s, "") || spd_exp_world(s, "b")) && has_spd(s)) && r.chance(1, 6)) s.cfg["scale"] = r.range(1, 6); }

// ================================================================= P01
static Scenario gen_p01(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, 0);
  gen_options(r, s, "", 2);
  gen_scale(r, s);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  if (r.chance(1, 4)) s.cfg["maxit"] = tier ? r.range(60, 1500) : r.range(60, 250);
  if (r.chance(1, 4)) s.cfg["tol10"] = 13;
  s.cfg["again"] = r.chance(1, 2) ? 0 : r.range(1, 2);
  s.cfg["tap"] = r.chance(1, 3);
  gen_fval_faults(r, s, 3, 60, false, false);
  if (s.cfg.count("pure")) s.cfg["pure"] = 0;  // fixed user steps may diverge
  // a quasi-Newton matrix updated with differences of the size of rounding errors is no longer positive definite
  if (sv_sub((int)s.c("sv"))) { s.cfg["tol10"] = std::min<i64>(s.c("tol10", 5), 8); s.cfg["maxit"] = std::min<i64>(s.c("maxit"), 100); if (s.c("again") == 1) s.cfg["again"] = 2; }
  for (size_t i = 0; i < s.faults.size(); i++) if (s.faults[i].a[2] == 3) s.faults[i].a[2] = 4;  // costs of 1e300 legitimately drive the steps out of range
  return s;
}
static void check_result(SolverRun &R, double tol) {
  std::string why;
  double v = infeasibility(*R.w, R.sol->GetXopt(), &why);
  if (R.env.overflowed && v >= 1e100) v = 0;
  if (v < 1e100 && long_cayley_steps()) v = 0;
  if (!(v <= tol)) violate("infeasible-result", "GetXopt returns a point off the manifold: %s (%.3g), %s with %s", why.c_str(), v, R.w->desc.c_str(), sv_names[R.sv]);
  for (double t : {v, R.env.max_infeas}) if (t < 1e200) countmax("infeas_e18", (i64)std::min(1e18, t * 1e18));
}
static void run_p01(const Scenario &s) {
  std_setup(s);
  const double tol = 1e-9;
  SolverRun R(s);
  R.env.check_feas = true; R.env.feas_tol = tol;
  R.build(s, "");
  phase("run");
  R.go();
  check_result(R, tol);
  i64 again = s.c("again");
  mark_world(*R.w, R.sv);
  if (again == 1) { phase("second Run of the same object"); R.go(); check_result(R, tol); count("restarts"); }
  else if (again == 2) {
    phase("new solver from the result");
    Variable x;
    { LibScope l(true); x = R.sol->GetXopt(); }
    R.destroy();
    { LibScope l(true); R.w->x0 = x; }
    R.build(s, "");
    R.go();
    check_result(R, tol);
    count("restarts");
  }
  report_env(R.env, R.sv);
  R.destroy();
}
const Prop prop_p01 = {"P01", "feasibility of every iterate", gen_p01, run_p01, 60};

// ================================================================= P02
static Scenario gen_p02(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  bool rsd = r.chance(1, 3);
  gen_supported(r, s, "", tier, 1, -1, rsd ? SV_RSD : -1);
  gen_options(r, s, "", 2);
  gen_scale(r, s);
  if (s.cfg.count("pure")) s.cfg["pure"] = 0;
  if (r.chance(1, 6) && sv_ls((int)s.c("sv"))) { s.cfg["ls"] = 4; s.cfg["pure"] = 0; }
  if (r.chance(1, 3)) s.cfg.erase("pure");  // the default
  s.cfg["poison"] = r.below(5);
  s.cfg["tap"] = 1;
  s.cfg["verb"] = 2;
  if (r.chance(1, 2)) gen_fval_faults(r, s, 3, 60, false, false);
  if (r.chance(1, 3)) {  // the object runs twice, the first time for a few iterations
    s.cfg["again"] = 1; s.cfg["maxit1"] = r.below(7);
    if (sv_ls((int)s.c("sv")) && r.chance(1, 2)) { s.cfg["npf"] = r.range(2, 6); s.cfg["ist"] = 0; s.cfg["istep"] = r.pick(std::vector<int>{0, 2, 4}); }
  }
  return s;
}
struct LsCall { integer iter; double slope; };
static std::vector<LsCall> *g_ls;
static double ls_record(integer iter, const Variable &, const Vector &, realdp step, realdp slope, const Problem *, const Solvers *) {
  LibScope l(false);
  LsCall c = {iter, slope};
  if (g_ls) g_ls->push_back(c);
  return step;
}
static double dscale(double a, double b) { return 1 + std::fabs(a) + std::fabs(b); }
static void run_p02(const Scenario &s) {
  std_setup(s);
  SolverRun R(s);
  R.env.record = true;
  R.build(s, "");
  std::vector<LsCall> lsc;
  g_ls = &lsc;
  SolversSMLS *ls = dynamic_cast<SolversSMLS *>(R.sol);
  if (ls) ls->LinesearchInput = &ls_record;
  Env &e = R.env;
  SolversSM *sm = dynamic_cast<SolversSM *>(R.sol);
  size_t K0 = 0, L0 = 0;
  int turns = s.c("again") ? 2 : 1;
  for (int turn = 0; turn < turns; turn++) {
  K0 = e.acc.size(); L0 = lsc.size();
  if (turns > 1) { R.sol->Max_Iteration = (integer)(turn ? s.c("maxit", 50) : s.c("maxit1", 3)); R.sol->Min_Iteration = std::min((integer)(s.cfg.count("minit") ? s.c("minit") : R.sol->Min_Iteration), R.sol->Max_Iteration); }
  phase(turn ? "second Run of the same object" : "run");
  if (turn) count("restarts");
  R.go();
  Outcome o = outcome(R.sol, R.sv);
  if (!turn) mark_world(*R.w, R.sv);
  // accepted iterates with the costs the callbacks returned for them
  size_t K = e.acc.size() - K0;
  const auto *acc_ = e.acc.data() + K0;
  if (K == 0) violate("no-initial-test", "the stopping function was never called");
  if (!turn && acc_[0].h != hash_elem(R.w->x0)) violate("initial-iterate", "the first accepted iterate is not the initial iterate");
  std::vector<double> f(K);
  std::vector<char> faulted(K);
  for (size_t k = 0; k < K; k++) {
    Env::FVal v;
    if (!e.fval_of(acc_[k].h, v)) violate("iterate-without-cost", "accepted iterate %zu was never evaluated", k);
    f[k] = v.v; faulted[k] = v.faulted;
  }
  int npf = ls && ls->LineSearch_LS == LSSM_ARMIJO ? (int)ls->Num_pre_funs : ls && ls->LineSearch_LS == LSSM_INPUTFUN ? (int)ls->Num_pre_funs : 1;
  double ng0 = acc_[0].finalval, tol = sm->Tolerance, acc = sm->Accuracy;
  std::vector<double> step;
  if (ls) { Vector info = R.sol->GetSolverInfo(); if (info.FieldsExist("acceptedstepsize")) step = elem_data(info.Field("acceptedstepsize")); }
  bool exact = ls && ls->LineSearch_LS == LSSM_EXACT;
  size_t checked = 0;
  for (size_t k = 0; k + 1 < K; k++) {
    if (acc_[k].finalval / (ng0 + tol) < acc) break;  // documented switch to fixed steps
    double ref = f[k];
    bool bad = faulted[k] || faulted[k + 1];
    for (int j = 1; j < npf && (int)k - j >= 0; j++) { ref = std::max(ref, f[k - j]); bad = bad || faulted[k - j]; }
    if (bad) continue;
    double slack = 1e-10 * dscale(f[k], f[k + 1]);
    if (!(f[k + 1] <= ref + slack))
      violate("cost-increase", "%s%s: cost of accepted iterate %zu is %.17g, after %.17g (reference %.17g), |grad| ratio %.3g", sv_names[R.sv], turn ? ", second Run" : "", k + 1, f[k + 1], f[k], ref, acc_[k].finalval / ng0);
    checked++;
    // sufficient decrease where the slope is known from the outside
    double slope = 0;
    bool have = false;
    if (R.sv == SV_RSD && R.w->pk != PK_MATCOMP) { slope = -acc_[k].finalval * acc_[k].finalval; have = true; }
    if (ls && ls->LineSearch_LS == LSSM_INPUTFUN) for (size_t j = L0; j < lsc.size(); j++) if (lsc[j].iter == (integer)k) { slope = lsc[j].slope; have = true; }
    bool last_ls = k + 2 == K;  // the last step may be that of a failed line search
    if (have && ls && !exact && !last_ls && k + 1 < step.size() && slope < 0) {
      if (!(f[k + 1] <= ref + ls->LS_alpha * step[k + 1] * slope + slack))
        violate("insufficient-decrease", "%s: step %.6g at iterate %zu decreases the cost from %.17g to %.17g, slope %.6g, LS_alpha %g", sv_names[R.sv], step[k + 1], k, ref, f[k + 1], slope, ls->LS_alpha);
      count("armijo_checked");
    }
  }
  count("descent_checked", (i64)checked);
  // the reported values belong to the returned point
  Variable x = R.sol->GetXopt();
  Env::FVal v;
  if (!e.fval_of(hash_elem(x), v)) violate("result-without-cost", "the returned point was never evaluated");
  if (!v.has(o.f)) violate("final-cost", "%s: Getfinalfun is %.17g but the callback returned %.17g at the returned point", sv_names[R.sv], o.f, v.v);
  double tf = true_f(*R.w, x);
  if (!v.faulted && !(std::fabs(tf - o.f) <= 1e-9 * dscale(tf, o.f))) violate("final-cost-truth", "%s: Getfinalfun is %.17g but the cost of the returned point is %.17g", sv_names[R.sv], o.f, tf);
  double tg = true_gradnorm(*R.w, x);
  if (!(std::fabs(tg - o.ng) <= 1e-7 * (1 + tg + ng0)) && spd_cond(*R.w, x) < 1e8) violate("final-gradient", "%s: Getnormgf is %.12g but the gradient norm at the returned point is %.12g", sv_names[R.sv], o.ng, tg);
  if (ng0 > 0 && !(std::fabs(o.nrel * ng0 - o.ng) <= 1e-12 * (1 + o.ng))) violate("final-gradient-ratio", "Getnormgfgf0 %.12g times the initial norm %.12g is not Getnormgf %.12g", o.nrel, ng0, o.ng);
  }
  report_env(e, R.sv);
  R.destroy();
}
const Prop prop_p02 = {"P02", "monotone descent, truthful results", gen_p02, run_p02, 60};

// ================================================================= P03
static Scenario gen_p03(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  int want = r.chance(1, 6) ? 2 : 1;
  // the exponential retraction on SPD matrices overflows for long steps, which ends a run ("inf. Stop!");
  // the first order methods need very many iterations on the ill-conditioned matrix completion problems
  do { s.cfg.clear(); gen_supported(r, s, "", tier, want); } while (spd_exp_world(s) || s.c("pk") == PK_LOWRANK || s.c("pen") || (s.c("pk") == PK_MATCOMP && (s.c("sv") == SV_RTRSD || s.c("sv") == SV_RSD || s.c("sv") == SV_RCG)));
  int sv = (int)s.c("sv"), pk = (int)s.c("pk");
  // the dense and low-rank secant matrices assume coordinates in which the metric is the dot product
  if (sv_dense(sv) || sv == SV_LRTRSR1) { s.cfg.erase("ext"); if (pk == PK_SPHERETX) { s.cfg.erase("bext"); if (s.c("bpk") == PK_SPDKARCHER) s.cfg["bpk"] = PK_EUCQUAD; for (int i = 0; i < 3; i++) { std::string q = "bc" + std::string(1, char('0' + i)) + "k"; if (s.c(q) == 4) s.cfg[q] = 2; } } }
  s.cfg["verb"] = r.chance(1, 2) ? 0 : 2;
  s.cfg["tap"] = 1;
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  // settings under which the library's own tests converge
  if (sv_ls(sv)) {
    if (r.chance(1, 2)) s.cfg["ls"] = r.range(0, 3);
    if (r.chance(1, 3)) s.cfg["npf"] = r.range(1, 4);
    if (sv == SV_RCG) s.cfg["rcg"] = r.range(0, 5);
    if (r.chance(1, 4)) s.cfg["ist"] = r.range(0, 4);
    if (r.chance(1, 5)) s.cfg["npb"] = r.range(0, 4);
    if (r.chance(1, 5)) s.cfg["lsa"] = r.range(0, 4);
    if (r.chance(1, 5)) s.cfg["rat"] = r.range(0, 1);
    if (r.chance(1, 4)) s.cfg["conv"] = r.range(0, 1);
  }
  if (sv_tr(sv) && sv != SV_RTRSD) {
    if (r.chance(1, 5)) s.cfg["theta"] = r.range(0, 2);
    if (r.chance(1, 5)) s.cfg["kappa"] = r.range(0, 1);
    if (r.chance(1, 5)) s.cfg["stau"] = r.range(0, 2);
    if (r.chance(1, 5)) s.cfg["mtau"] = r.range(0, 2);
    if (r.chance(1, 5)) s.cfg["rho"] = r.range(0, 2);
    if (r.chance(1, 5)) s.cfg["idel"] = r.range(0, 3);
  }
  if (r.chance(1, 3)) s.cfg["lsy"] = r.range(1, 6);
  if (r.chance(1, 4)) s.cfg["lmr"] = r.range(0, 1);
  if (sv_dense(sv) && r.chance(1, 4)) s.cfg["inith"] = r.range(1, 3);
  s.cfg["maxit"] = sv == SV_RSD ? 2000 : sv == SV_RNEWTON ? 80 : sv == SV_RCG ? 2000 : sv == SV_RTRSD ? 5000 : sv == SV_RTRNEWTON ? 50 : sv == SV_RTRSR1 ? 200 : sv == SV_LRTRSR1 ? 500
                   : sv_sub(sv) ? 200 : sv_prox(sv) ? 500 : 200;
  (void)pk;
  int kind = (int)r.below(4);
  if (kind >= 1) gen_fval_faults(r, s, 3, 30, r.chance(1, 2), false);
  // a long burst of rejected steps makes the trust region tiny
  if (sv_tr(sv) && sv != SV_RTRSD && pk != PK_MATCOMP && r.chance(1, 2)) { s.cfg["burst"] = 1; s.cfg.erase("stau"); s.cfg["maxit"] = s.cfg["maxit"] * 2 + 200; s.faults.clear(); s.faults.push_back(Rec("fval", {r.range(2, 8), r.range(8, 14), r.range(3, 4)})); s.ops.clear(); kind = 1; }
  // a burst of huge trial costs inside one line search makes one step tiny; the steps that follow recover
  if (sv_ls(sv) && sv_smooth(sv) && sv != SV_RBROYDEN && pk != PK_SFRQLYAP && pk != PK_LOWRANK && pk != PK_MATCOMP && pk != PK_BLINDDECON && pk != PK_SPHERETX && pk != PK_PHASE && r.chance(1, 2)) {
    s.cfg["burst"] = 1; s.cfg["maxit"] = s.cfg["maxit"] * 2 + 200; s.cfg["ls"] = 0; s.cfg["ist"] = r.range(0, 4); s.cfg["rat"] = r.range(0, 2);
    s.cfg.erase("npf");
    // the reduction by about 1e-6 stays well above the rounding errors
    s.faults.clear(); s.faults.push_back(Rec("fval", {r.range(2, 12), s.cfg["rat"] == 0 ? r.range(4, 6) : s.cfg["rat"] == 1 ? r.range(8, 10) : r.range(14, 19), r.range(3, 4)})); s.ops.clear(); kind = 1;
  }
  if (kind >= 2) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) s.ops.push_back(Rec("crash", {r.range(1, r.chance(1, 2) ? 20 : 150)})); }
  return s;
}
static void run_p03(const Scenario &s) {
  std_setup(s);
  SolverRun R(s);
  double g0 = true_gradnorm(*R.w, R.w->x0), f0 = true_f(*R.w, R.w->x0);
  (void)f0;
  double rel = sv_prox(R.sv) ? 1e-3 : 1e-4;
  int sv = R.sv;
  double target = rel * g0;
  if (sv_smooth(sv) && !(g0 > 1e-8)) discard("initial iterate is critical");
  int lives = 0, maxlives = 30;
  size_t ncrash = 0;
  bool done = false;
  i64 iters = 0;
  mark_world(*R.w, sv);
  double best = g0;
  while (!done && lives < maxlives) {
    lives++;
    Env &e = R.env;
    e.nall = 0;
    i64 base = 0;
    (void)base;
    e.acc.clear();
    bool have_last = false;
    Variable last;
    e.stop = [&](Env &, const Variable &x, const Vector &, integer, double fv, double iv, const Solvers *sol) {
      last = plain_copy(*R.w, x); have_last = true;
      if (sv_smooth(sv)) return fv < target;
      (void)iv;
      return false;
      (void)sol;
    };
    // crash = the process dies at this callback; only the last iterate reported to the user survives
    std::vector<Rec> fl = s.faults;
    if (lives > 1) fl.clear();  // the transient faults are over
    else if (false) {}
    if (ncrash < s.ops.size() && s.ops[ncrash].k == "crash") fl.push_back(Rec("throw", {s.ops[ncrash].at(0)}));
    e.faults = fl;
    R.build(s, "");
    if (!sv_smooth(sv)) R.sol->StopPtr = nullptr;
    bool crashed = false;
    phase("run");
    try { R.go(); } catch (SimThrow &) { crashed = true; }
    if (crashed) {
      ncrash++;
      count("fault:crash");
      Variable nx;
      bool ok = have_last;
      if (ok) { LibScope l(true); nx = last; }
      R.destroy();
      if (ok) { LibScope l(true); R.w->x0 = nx; }
      continue;
    }
    iters += R.sol->GetIter();
    Variable x;
    { LibScope l(true); x = plain_copy(*R.w, R.sol->GetXopt()); }
    if (sv_smooth(sv)) {
      double tg = true_gradnorm(*R.w, x);
      best = std::min(best, tg);
      if (tg < target * (1 + 1e-6)) done = true;
      else if (s.c("burst") && tg > 0.1 * g0) {
        if (sv_ls(sv)) {
          // slow without the faults too?
          i64 its = R.sol->GetIter();
          SolverRun R2(s);
          R2.env.stop = [&](Env &, const Variable &, const Vector &, integer, double fv, double, const Solvers *) { return fv < target; };
          R2.env.faults.clear();
          R2.build(s, "");
          R2.go();
          i64 need = R2.sol->GetIter();
          double tg2; { LibScope l(true); Variable xx = plain_copy(*R2.w, R2.sol->GetXopt()); tg2 = true_gradnorm(*R2.w, xx); }
          R2.destroy();
          count("control_runs");
          if (!(tg2 < target * (1 + 1e-6)) || (its >= s.c("maxit") && need * 10 > its)) discard("slow without faults too");
        }
        violate("no-recovery", "%s on %s: the steps are no longer rejected by faults, yet the run ends after %d iterations with a gradient norm of %.3g of the initial one", sv_names[sv], R.w->desc.c_str(), (int)R.sol->GetIter(), tg / g0);
      }
    } else {
      SolversNSM *m = dynamic_cast<SolversNSM *>(R.sol);
      if (R.sol->GetIter() < R.sol->Max_Iteration || m->Getnormndnd0() < 1e-2) done = true;
    }
    R.destroy();
    LibScope l(true);
    R.w->x0 = x;
  }
  // NaN and infinite costs may end a run and a crash does; finite wrong costs alone may cost one or two restarts, not more
  bool ends = !s.ops.empty();
  for (size_t i = 0; i < s.faults.size(); i++)
    if (s.faults[i].k == "fval" && s.faults[i].at(2) < 3) ends = true;
  if (done && !ends) {
    count("lives:bounded");
    if (lives > (R.w->pk == PK_BLINDDECON || R.w->pk == PK_PHASE ? 30 : R.w->pk == PK_MATCOMP || R.w->pk == PK_SPHERETX || sv_prox(sv) || sv == SV_RNEWTON ? 12 : 5)) violate("needless-restarts", "%s on %s: without a crash and without NaN or infinite costs it took %d runs to converge", sv_names[sv], R.w->desc.c_str(), lives);
  }
  count("restarts", lives - 1);
  if (s.c("burst") && R.env.fired_f) count("burst");
  count("iterations", iters);
  report_env(R.env, sv);
  // iterates that approach a lower rank leave the (open) fixed rank manifolds
  if (!done && captured().find("DSYL may not be solved correctly") != std::string::npos) discard("the iterates lose rank");
  // these two worlds have runs with a very slow linear convergence
  if (!done && (R.w->pk == PK_PHASE || R.w->pk == PK_BLINDDECON) && best < 1e-2 * g0) done = true;
  if (!done) violate("no-convergence", "%s on %s: after %d runs (%lld iterations) the gradient norm is still %.3g of the initial one", sv_names[sv], R.w->desc.c_str(), lives, iters, best / g0);
}
const Prop prop_p03 = {"P03", "convergence after faults and crashes", gen_p03, run_p03, 120};

// ================================================================= P04
static Scenario gen_p04(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, r.chance(1, 3) ? 2 : 1);
  gen_options(r, s, "", 2);
  gen_scale(r, s);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  if (r.chance(1, 6)) s.cfg["numgh"] = 0;
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) {
    i64 at = r.chance(2, 3) ? r.range(1, 12) : r.range(1, 60);
    s.faults.push_back(Rec("fval", {at, r.chance(1, 3) ? 0 : r.chance(1, 2) ? 1 : r.range(2, 8), r.chance(1, 8) ? r.range(3, 5) : r.below(3)}));
    if (s.faults.back().at(2) > 2 && s.cfg.count("pure")) s.cfg["pure"] = 0;  // wrong costs hide that the user's fixed steps diverge
  }
  return s;
}
static void run_p04(const Scenario &s) {
  std_setup(s);
  SolverRun R(s);
  R.env.record = true;
  R.build(s, "");
  R.env.budget = 20000 + (i64)R.sol->Max_Iteration * 6000;
  phase("run");
  R.go();
  mark_world(*R.w, R.sv);
  Outcome o = outcome(R.sol, R.sv);
  std::string why;
  double v = infeasibility(*R.w, R.sol->GetXopt(), &why);
  if (!(v <= 1e-9) && !(v < 1e100 && long_cayley_steps())) violate("infeasible-result", "the returned point is off the manifold: %s (%.3g)", why.c_str(), v);
  if (!(o.f - o.f == 0)) violate("nonfinite-result", "%s: Getfinalfun is %g", sv_names[R.sv], o.f);
  Env::FVal fv;
  if (!R.env.fval_of(hash_elem(R.sol->GetXopt()), fv)) violate("result-without-cost", "the returned point was never evaluated");
  if (!same(fv.v, o.f) && !R.env.fired_f) violate("final-cost", "%s: Getfinalfun is %.17g but the callback returned %.17g at the returned point", sv_names[R.sv], o.f, fv.v);
  double tf = true_f(*R.w, R.sol->GetXopt());
  bool lied = std::fabs(o.f) == 1e300 || o.f == 1e6;
  if (!lied && !(std::fabs(tf - o.f) <= 1e-9 * dscale(tf, o.f))) violate("final-cost-truth", "%s: Getfinalfun is %.17g but the cost of the returned point is %.17g", sv_names[R.sv], o.f, tf);
  if (o.iter > R.sol->Max_Iteration) violate("iterations", "%d iterations", (int)o.iter);
  count("fault:nonfinite-runs", R.env.fired_f > 0);
  report_env(R.env, R.sv);
  R.destroy();
}
const Prop prop_p04 = {"P04", "NaN/Inf callback values", gen_p04, run_p04, 60};

// ================================================================= P05
static Scenario gen_p05(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, r.chance(1, 3) ? 2 : 1);
  gen_options(r, s, "", 1);
  gen_scale(r, s);
  s.cfg["verb"] = 2;
  s.cfg.erase("minit");
  if (r.chance(1, 5)) s.cfg["minit"] = r.range(1, 3);
  gen_costs(r, s);
  if (!s.c("us_f") && !s.c("us_G")) s.cfg["us_f"] = 1000;
  bool slow = r.chance(1, 4);  // a slow user: a run takes hours or days
  if (slow) { s.cfg["us_f"] = r.pick(std::vector<i64>{20000000, 61000000, 300000000, 3600000000ll}); if (r.chance(1, 2)) s.cfg["us_G"] = r.pick(std::vector<i64>{40000000, 120000000, 1800000000ll}); }
  s.cfg["poison"] = r.below(5);
  s.cfg["frac"] = r.range(0, 110);  // TimeBound as a percentage of the unbounded run
  s.cfg["tol10"] = r.range(8, 12);
  s.cfg["rseed"] = r.range(1, 1000);
  int n = (int)r.below(4);
  for (int i = 0; i < n; i++) {
    i64 at = r.range(0, r.chance(1, 2) ? 30 : 200);
    if (r.chance(1, 2)) s.faults.push_back(Rec("stall", {at, r.pick(std::vector<i64>{1000, 500000, 30000000, 2200000000ll, 4400000000ll, 90000000000ll})}));
    else s.faults.push_back(Rec("wall", {at, r.pick(std::vector<i64>{-3600000000ll, -1000000, 5000000, 86400000000ll, -1700000000000000ll})}));
  }
  if (r.chance(1, 2)) s.ops.push_back(Rec("nested", {r.range(0, 60)}));
  if (r.chance(1, 4)) s.ops.push_back(Rec("nested", {r.range(0, 60)}));
  return s;
}
static void nested_run(u64 seed) {
  count("nested_runs");
  LibScope l(true);
  Scenario q;
  q.cfg["pk"] = PK_STIEBROCKETT; q.cfg["n"] = 3; q.cfg["p"] = 1; q.cfg["inst"] = 1 + (i64)(seed % 7); q.cfg["sv"] = (i64)(seed % 2 ? SV_RSD : SV_RTRNEWTON);
  q.cfg["maxit"] = 3; q.cfg["verb"] = 0; q.cfg["us_f"] = 500;
  RandCtl mine; mine.state = seed; mine.draws = 0;
  RandCtl *old = rnd;
  rnd = &mine;
  {
    SolverRun N(q);
    N.build(q, "");
    N.go();
  }
  rnd = old;
}
struct TimedRun { Outcome o; i64 us; bool stopped_series_ok; u64 evhash; std::vector<double> tap; };
static void timed(const Scenario &s, double tb, TimedRun &t, bool tapped) {
  rnd_main.state = (u64)s.c("rseed", 1) * 7919;
  SolverRun R(s);
  std::vector<i64> nest;
  for (size_t i = 0; i < s.ops.size(); i++) if (s.ops[i].k == "nested") nest.push_back(s.ops[i].at(0));
  R.env.hook = [&](Env &e, char, const Variable &) {
    for (size_t i = 0; i < nest.size(); i++) if (nest[i] == e.nall - 1) { nested_run((u64)nest[i] + 3); }
  };
  R.build(s, "");
  if (tb >= 0) R.sol->TimeBound = tb;
  (void)tapped;
  i64 t0 = clk.mono_us;
  R.go();
  t.us = clk.mono_us - t0;
  t.o = outcome(R.sol, R.sv);
  t.evhash = R.env.evhash;
  if (tb < 0) { mark_world(*R.w, R.sv); report_env(R.env, R.sv); }
  R.destroy();
}
static void run_p05(const Scenario &s) {
  std_setup(s);
  TimedRun A, B;
  phase("unbounded run");
  timed(s, -1, A, false);
  int sv = (int)s.c("sv");
  const std::vector<double> &ts = A.o.ts;
  if ((int)ts.size() != A.o.iter + 1) violate("time-series-length", "time series has %zu entries after %d iterations", ts.size(), (int)A.o.iter);
  for (size_t k = 0; k < ts.size(); k++) {
    if (!(ts[k] >= 0)) violate("time-negative", "%s: time series entry %zu is %.17g", sv_names[sv], k, ts[k]);
    if (k && !(ts[k] >= ts[k - 1])) violate("time-decreases", "%s: time series goes from %.17g to %.17g at %zu", sv_names[sv], ts[k - 1], ts[k], k);
  }
  if (!(std::fabs(A.o.com - (double)A.us * 1e-6) < 1e-9 * (1 + A.o.com))) violate("com-time", "%s: GetComTime is %.9g but the run took %.9g", sv_names[sv], A.o.com, (double)A.us * 1e-6);
  if (!(ts.back() <= A.o.com)) violate("time-exceeds", "last entry %.9g of the time series exceeds GetComTime %.9g", ts.back(), A.o.com);
  // the bounded run
  double tb = A.o.com * (double)s.c("frac") / 100.0 + 1e-7;
  phase("bounded run");
  timed(s, tb, B, false);
  i64 minit = s.c("minit");
  integer expect = A.o.iter;
  bool by_time = false;
  // sub: the limit is examined before the step at every iterate; the others: at the initial iterate and after every step
  for (size_t k = 0; k < ts.size(); k++) if ((i64)k >= minit && (integer)k < A.o.iter && ts[k] > tb) { expect = (integer)k; by_time = true; break; }
  if (sv_sub(sv) || sv_prox(sv)) {
    // work between the time series entry and the next test of the limit belongs to the direction: one iteration of tolerance
    if (B.o.iter > expect) violate("time-bound-late", "%s: with TimeBound %.9g the run made %d iterations, %d expected", sv_names[sv], tb, (int)B.o.iter, (int)expect);
    if (B.o.iter < expect - 1) violate("time-bound-early", "%s: with TimeBound %.9g the run made %d iterations, %d expected", sv_names[sv], tb, (int)B.o.iter, (int)expect);
  } else if (B.o.iter != expect)
    violate(B.o.iter > expect ? "time-bound-late" : "time-bound-early", "%s: with TimeBound %.9g the run made %d iterations, %d expected (its time series: %.9g at %d)", sv_names[sv], tb, (int)B.o.iter, (int)expect, ts[expect], (int)expect);
  for (integer k = 0; k <= B.o.iter; k++)
    if (!same(A.o.fs[k], B.o.fs[k]) || !same(A.o.ts[k], B.o.ts[k])) violate("time-bound-changes-run", "iteration %d of the bounded run differs from the unbounded one", (int)k);
  if (by_time) count("stopped_by_time");
  tr(A.evhash); tr(outcome_hash(A.o, true)); tr(outcome_hash(B.o, true));
}
const Prop prop_p05 = {"P05", "TimeBound and reported times", gen_p05, run_p05, 60};

// ================================================================= P06
static Scenario gen_p06(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, r.chance(1, 4) ? 2 : 1);
  gen_options(r, s, "", 2);
  gen_scale(r, s);
  if (s.c("scale") && r.chance(1, 3)) s.cfg["scale"] = 7;  // costs and gradients around 1e-11
  int sv = (int)s.c("sv");
  s.cfg["verb"] = 2;
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tol10"] = r.range(1, 8);
  if (r.chance(1, 3)) s.cfg["minit"] = r.range(0, s.c("maxit") + 2);
  if (r.chance(1, 8)) s.cfg["maxit"] = r.range(0, 2);
  s.cfg["tap"] = r.chance(1, 2);
  s.cfg["stopat"] = r.chance(1, 3) ? -1 : r.range(0, 12);
  if (!s.cfg.count("crit")) s.cfg["crit"] = r.below(3);
  if ((sv_sub(sv) || sv == SV_AMANPG) && s.cfg["crit"] == 0) s.cfg["crit"] = r.range(1, 2);
  if (r.chance(1, 4)) gen_fval_faults(r, s, 2, 40, false, false);
  if (s.c("minit") > s.c("maxit")) s.cfg["minit"] = s.c("maxit");  // Min_Iteration > Max_Iteration is not a valid setting
  return s;
}
static void run_p06(const Scenario &s) {
  std_setup(s);
  SolverRun R(s);
  R.env.record = true;
  int sv = R.sv;
  i64 stopat = s.c("stopat", -1);
  bool tap = s.c("tap") != 0;
  std::vector<integer> tap_iter;
  i64 calls = 0;
  R.env.stop = [&](Env &e, const Variable &x, const Vector &fser, integer, double fv, double iv, const Solvers *sol) {
    integer it = sol->GetIter();
    calls++;
    Env::FVal v;
    if (!e.fval_of(hash_elem(x), v)) violate("stop-iterate", "%s: StopPtr call %lld (iteration %d) receives a point that was never evaluated", sv_names[sv], calls, (int)it);
    if (sv_smooth(sv)) {
      double tg = true_gradnorm(*R.w, x);
      if (tg < 1e12 && !(std::fabs(tg - fv) <= 1e-7 * (1 + tg + iv)) && spd_cond(*R.w, x) < 1e6) violate("stop-gradient", "%s: StopPtr call %lld receives gradient norm %.12g, the gradient norm at the point is %.12g", sv_names[sv], calls, fv, tg);
      double t0 = true_gradnorm(*R.w, R.w->x0);
      if (!(std::fabs(t0 - iv) <= 1e-7 * (1 + t0))) violate("stop-initial", "%s: StopPtr receives initial gradient norm %.12g, it is %.12g", sv_names[sv], iv, t0);
      const double *p = fser.GetSpace();
      for (size_t k = 0; sv_ls(sv) && p && k + 1 < e.acc.size(); k++) {
        Env::FVal u;
        if (e.fval_of(e.acc[k].h, u) && !u.faulted && !v.faulted && !same(u.v, p[k])) violate("stop-history", "%s: StopPtr call %lld: entry %zu of the cost history is %.17g, the iterate had %.17g", sv_names[sv], calls, k, p[k], u.v);
      }
    }
    return stopat >= 0 && calls > stopat;
  };
  R.build(s, "");
  integer maxit = R.sol->Max_Iteration, minit = R.sol->Min_Iteration;
  phase("run");
  R.go();
  std::string out = captured();
  Outcome o = outcome(R.sol, sv);
  mark_world(*R.w, sv);
  mark("crit:%lld tap:%d", s.c("crit"), (int)tap);
  report_env(R.env, sv);
  if (o.iter > std::max(maxit, std::min(minit, maxit))) { if (!(minit > maxit)) violate("max-iteration", "%s made %d iterations, Max_Iteration is %d", sv_names[sv], (int)o.iter, (int)maxit); }
  bool reported = out.find("fails") != std::string::npos || out.find("Stop!") != std::string::npos || out.find("minimum") != std::string::npos;
  double tol = R.sol->Tolerance;
  int crit = (int)s.c("crit");
  bool subdone = false, hit = false;  // the rule was satisfied at the final iterate
  integer first = -1;
  if (tap) {
    hit = stopat >= 0 && calls > stopat;
    if (sv_sub(sv) && dynamic_cast<SolversNSM *>(R.sol)->Getnormnd() <= tol) hit = subdone = true;
  } else if (sv_smooth(sv)) {
    bool prev = false;
    for (integer k = 0; k <= o.iter; k++) {
      bool c = crit == SM_FUN_REL ? k > 0 && std::fabs((o.fs[k - 1] - o.fs[k]) / (std::fabs(o.fs[k - 1]) + 1)) < tol : crit == SM_GRAD_F ? o.gs[k] < tol : o.gs[k] / o.gs[0] < tol;
      // a rejected candidate: same iterate, the rule is not evaluated again
      bool rej = sv_tr(sv) && k > 0 && same(o.fs[k], o.fs[k - 1]);
      if (rej) c = c || prev;
      prev = c;
      if (sv_tr(sv) && crit == SM_FUN_REL && k <= 1) continue;  // the relative reduction needs two iterations there
      if (c && !rej && first < 0 && k >= minit) first = k;
      if (k == o.iter) hit = c;
    }
    if (first >= 0 && first < o.iter) violate("stops-late", "%s: the criterion %d was satisfied at iteration %d (tolerance %g) but the run ended at %d", sv_names[sv], crit, (int)first, tol, (int)o.iter);
  } else if (sv == SV_MANPG) {
    // the reference direction is the first non-zero one, which may belong to an attempt with a less accurate subproblem
    SolversNSM *ns = dynamic_cast<SolversNSM *>(R.sol);
    // a zero direction before that one leaves the ratio 0/0, which satisfies nothing; after it the ratio is zero
    double nd0 = ns->Getnormnd() > 0 && ns->Getnormndnd0() > 0 ? ns->Getnormnd() / ns->Getnormndnd0() : 0;
    bool moved = false;
    for (integer k = 1; k <= o.iter; k++) {
      moved = moved || o.gs[k] > 0;
      if (crit == NSM_DIR_F_0 && !moved) { if (k == o.iter) hit = false; continue; }
      if (crit == NSM_DIR_F_0 && o.gs[k] == 0) { if (first < 0 && k >= minit) first = k; if (k == o.iter) hit = true; continue; }
      bool c = crit == NSM_FUN_REL ? std::fabs((o.fs[k - 1] - o.fs[k]) / (std::fabs(o.fs[k - 1]) + 1)) < tol : crit == NSM_DIR_F ? o.gs[k] < tol : nd0 > 0 && o.gs[k] / nd0 < tol * (1 + (k < o.iter ? -1e-12 : 1e-12));
      if (c && first < 0 && k >= minit) first = k;
      if (k == o.iter) hit = c;
    }
    if (first >= 0 && first < o.iter && crit != NSM_FUN_REL) violate("stops-late", "%s: the criterion %d was satisfied at iteration %d but the run ended at %d", sv_names[sv], crit, (int)first, (int)o.iter);
  } else {
    hit = crit == NSM_DIR_F ? dynamic_cast<SolversNSM *>(R.sol)->Getnormnd() < tol : dynamic_cast<SolversNSM *>(R.sol)->Getnormndnd0() < tol;
    if (sv_sub(sv) && dynamic_cast<SolversNSM *>(R.sol)->Getnormnd() <= tol) hit = subdone = true;  // an approximately stationary point ends the run
  }
  if (tap && sv_ls(sv) && stopat >= 0 && calls > stopat && stopat >= minit && o.iter != stopat)
    violate("stop-late", "%s: StopPtr asked to stop at iteration %lld, the run ended at %d", sv_names[sv], stopat, (int)o.iter);
  if (tap && sv_tr(sv) && stopat >= 0 && calls > stopat + 1 && minit == 0) violate("stop-late", "%s: StopPtr was called again after it asked to stop", sv_names[sv]);
  if (o.iter < maxit && !hit && !reported) violate("stops-early", "%s ended at iteration %d of %d without the stopping rule %d satisfied and without reporting a reason", sv_names[sv], (int)o.iter, (int)maxit, tap ? -1 : crit);
  if (o.iter < minit && !reported && !subdone) violate("min-iteration", "%s made %d iterations, Min_Iteration is %d, Max_Iteration %d", sv_names[sv], (int)o.iter, (int)minit, (int)maxit);
  // a claimed tolerance is true when recomputed from scratch
  if (!tap && sv_smooth(sv) && hit && o.iter < maxit && crit != SM_FUN_REL && !R.env.fired_f) {
    double tg = true_gradnorm(*R.w, R.sol->GetXopt()), t0 = true_gradnorm(*R.w, R.w->x0);
    double q = crit == SM_GRAD_F ? tg : tg / t0;
    if (!(q < tol * (1 + 1e-6) + 1e-11 * (1 + t0)) && spd_cond(*R.w, R.sol->GetXopt()) < 1e8) violate("claimed-tolerance", "%s claims criterion %d below %g, recomputed it is %.12g", sv_names[sv], crit, tol, q);
    count("claims_checked");
  }
  tr(outcome_hash(o, false));
  R.destroy();
}
const Prop prop_p06 = {"P06", "stopping rules", gen_p06, run_p06, 60};

// ================================================================= P13
static Scenario gen_p13(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, r.chance(1, 3) ? 2 : 1);
  gen_options(r, s, "", 2);
  gen_scale(r, s);
  s.cfg["verb"] = r.chance(4, 5) ? 2 : r.range(0, 3);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tap"] = r.chance(1, 2);
  s.cfg["again"] = r.chance(1, 3);
  gen_costs(r, s);
  if (r.chance(1, 3)) gen_fval_faults(r, s, 2, 40, false, false);
  return s;
}
static void check_stats(SolverRun &R, const char *which, i64 f0, i64 g0, i64 h0, i64 p0) {
  Env &e = R.env;
  int sv = R.sv;
  Outcome o = outcome(R.sol, sv);
  i64 nf = e.n['f'] - e.n_f_probe - (f0 - p0), ng = e.n['G'] - g0, nh = e.n['H'] - h0;
  if (o.nf != nf) violate("nf", "%s, %s: Getnf is %d, the cost was requested %lld times", which, sv_names[sv], (int)o.nf, nf);
  if (o.ng_ != ng) violate("ng", "%s, %s: Getng is %d, the gradient was requested %lld times", which, sv_names[sv], (int)o.ng_, ng);
  if ((sv == SV_RNEWTON || sv == SV_RTRNEWTON) && o.nH != nh) violate("nH", "%s, %s: GetnH is %d, the Hessian action was requested %lld times", which, sv_names[sv], (int)o.nH, nh);
  if (R.sol->Verbose < ITERRESULT) return;
  if (o.len != o.iter + 1) violate("series-length", "%s, %s: lengthSeries is %d after %d iterations", which, sv_names[sv], (int)o.len, (int)o.iter);
  if ((int)o.fs.size() != o.len || (int)o.gs.size() != o.len || (int)o.ts.size() != o.len) violate("series-length", "%s, %s: a series is shorter than lengthSeries", which, sv_names[sv]);
  if (sv_smooth(sv)) {
    if (!same(o.fs.back(), o.f)) violate("series-final", "%s, %s: the last entry of the cost series is %.17g, the final cost %.17g", which, sv_names[sv], o.fs.back(), o.f);
    if (!same(o.gs.back(), o.ng)) violate("series-final", "%s, %s: the last entry of the gradient series is %.17g, the final norm %.17g", which, sv_names[sv], o.gs.back(), o.ng);
  } else if (sv != SV_AMANPG && !same(o.fs.back(), o.f)) violate("series-final", "%s, %s: the last entry of the cost series is %.17g, the final cost %.17g", which, sv_names[sv], o.fs.back(), o.f);
  // a subgradient solver that ends before its next step has computed one more direction; the proximal solvers store the norm of the direction they used
  if (sv_sub(sv) && o.iter > 0 && !same(o.gs.back(), o.ng) && R.sol->GetIter() >= R.sol->Max_Iteration)
    violate("series-final", "%s, %s: the last entry of the direction series is %.17g, the final norm %.17g", which, sv_names[sv], o.gs.back(), o.ng);
  if (R.sol->StopPtr && sv_ls(sv)) {
    if ((int)e.acc.size() != o.iter + 1) violate("iterates", "%s, %s: %zu iterates were reported, GetIter is %d", which, sv_names[sv], e.acc.size(), (int)o.iter);
    for (size_t k = 0; k < e.acc.size(); k++) {
      Env::FVal v;
      if (e.fval_of(e.acc[k].h, v) && !e.fired_f && !same(v.v, o.fs[k])) violate("series-entry", "%s, %s: entry %zu of the cost series is %.17g, the %zu-th iterate had %.17g", which, sv_names[sv], k, o.fs[k], k, v.v);
      if (!same(e.acc[k].finalval, o.gs[k])) violate("series-entry", "%s, %s: entry %zu of the gradient series is %.17g, the iterate had %.17g", which, sv_names[sv], k, o.gs[k], e.acc[k].finalval);
    }
  }
  if (R.sol->StopPtr && sv_tr(sv)) {  // entry k is the cost of the iterate in force after k iterations
    size_t a = 0;
    for (int k = 0; k < o.len; k++) {
      // StopPtr runs with the iteration counter not yet increased
      while (a + 1 < e.acc.size() && e.acc[a + 1].iter + 1 <= k) a++;
      Env::FVal v;
      if (e.fval_of(e.acc[a].h, v) && !e.fired_f && !same(v.v, o.fs[k])) violate("series-entry", "%s, %s: entry %d of the cost series is %.17g, the iterate had %.17g", which, sv_names[sv], k, o.fs[k], v.v);
    }
  }
  for (int k = 1; k < o.len; k++) if (!(o.ts[k] >= o.ts[k - 1])) violate("series-time", "%s: time series decreases", which);
  tr(outcome_hash(o, true));
}
static void run_p13(const Scenario &s) {
  std_setup(s);
  SolverRun R(s);
  R.env.record = true;
  R.build(s, "");
  phase("run");
  R.go();
  mark_world(*R.w, R.sv);
  check_stats(R, "first run", 0, 0, 0, 0);
  if (s.c("again")) {
    Env &e = R.env;
    i64 f0 = e.n['f'], g0 = e.n['G'], h0 = e.n['H'], p0 = e.n_f_probe;
    e.acc.clear();
    phase("second run");
    R.go();
    count("restarts");
    check_stats(R, "second run", f0, g0, h0, p0);
  }
  report_env(R.env, R.sv);
  R.destroy();
}
const Prop prop_p13 = {"P13", "statistics and series", gen_p13, run_p13, 60};

// ================================================================= P17
static Scenario gen_p17(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", tier, 0);
  gen_options(r, s, "", 2);
  s.cfg["poison"] = r.below(5);
  s.cfg["rseed"] = r.range(1, 1000);
  s.cfg["tap"] = r.chance(1, 3);
  s.cfg["again"] = r.chance(1, 5);
  s.cfg["numgh"] = r.chance(1, 6);
  s.cfg["other"] = r.chance(1, 4);
  gen_fval_faults(r, s, 3, 50, false, false);
  for (size_t i = 0; i < s.faults.size(); i++) if (s.faults[i].a[2] == 3) s.faults[i].a[2] = 4;  // LAPACK's SVD does not return for entries near overflow
  return s;
}
// another cost that has been evaluated at the initial iterate before: the data it left there are not those of this problem
struct OtherProblem : public Problem {
  const Problem *in;
  OtherProblem(const Problem *p) : in(p) { SetDomain(p->GetDomain()); NumGradHess = false; }
  realdp f(const Variable &x) const override { return -2 * in->f(x) + 1; }
  Vector &EucGrad(const Variable &x, Vector *r) const override { in->EucGrad(x, r); r->ScalarTimesThis(-2.0); return *r; }
};
static void run_p17(const Scenario &s) {
  std_setup(s);
  SolverRun R(s);
  R.env.tag = true;
  if (s.c("other") && sv_smooth(R.sv)) {
    LibScope l(true);
    OtherProblem o(R.w->prob);
    o.SetUseGrad(true); o.SetUseHess(true);
    Vector g = R.w->mani->GetEMPTY();
    o.f(R.w->x0); o.Grad(R.w->x0, &g);
    R.w->prob->f(R.w->x0);
    count("other_problem");
  }
  R.build(s, "");
  // numerical differentiation must leave the point and its data alone
  u64 hx0 = hash_elem(R.w->x0);
  phase("run");
  R.go();
  mark_world(*R.w, R.sv);
  if (s.c("again")) R.go();
  if (hash_elem(R.w->x0) != hx0) violate("initial-iterate-changed", "the user's initial iterate was modified by the run");
  count("tag_checks", R.env.tag_checks);
  if (sv_smooth(R.sv) && !R.env.fired_f) {
    // the gradient the solver reports is the gradient of its point
    Outcome o = outcome(R.sol, R.sv);
    double tg = true_gradnorm(*R.w, R.sol->GetXopt());
    double eps = s.c("numgh") ? 1e-4 : 1e-7;
    double g0 = true_gradnorm(*R.w, R.w->x0);
    // differences are meaningful where the cost is defined around the manifold and is not dominated by rounding
    bool skip = !(tg < 1e9) || !(spd_cond(*R.w, R.sol->GetXopt()) < 1e8);
    if (s.c("numgh")) {
      for (size_t i = 0; i < R.w->comps.size(); i++) skip = skip || R.w->comps[i].k == CK_SPD;
      skip = skip || R.w->desc.find("SPD") != std::string::npos || s.c("pure") || (R.w->base && !R.w->base->mani->GetIsIntrinsic()) || !(tg + g0 < 1e3) || !(std::fabs(o.f) < 1e3);
    }
    if (!skip && spd_cond(*R.w, R.w->x0) < 1e8 && !s.c("again") && o.gs.size() && g0 < 1e9 && !(std::fabs(g0 - o.gs[0]) <= eps * (1 + tg + g0))) violate("gradient-point", "%s: the first gradient norm is %.12g, the gradient norm at the initial iterate is %.12g", sv_names[R.sv], o.gs[0], g0);
    if (!skip && !(std::fabs(tg - o.ng) <= eps * (1 + tg + g0))) violate("gradient-point", "%s: Getnormgf is %.12g, the gradient norm at the returned point is %.12g", sv_names[R.sv], o.ng, tg);
  }
  report_env(R.env, R.sv);
  R.destroy();
}
const Prop prop_p17 = {"P17", "derivative data belongs to the iterate", gen_p17, run_p17, 60};

}  // namespace sim
