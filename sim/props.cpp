#include "props.h"
namespace sim {
static Scenario gen_cal(u64 seed, int tier) {
  Scenario s; Rng r(seed);
  gen_supported(r, s, "", 0, (int)(tier / 10));
  gen_options(r, s, "", tier % 10);
  s.cfg["poison"] = r.below(5);
  s.cfg["conv"] = 0;
  return s;
}
static void run_cal(const Scenario &s) {
  heap.poison = (int)s.c("poison");
  SolverRun R(s);
  R.env.check_feas = true; R.env.feas_tol = 1e300;
  R.build(s, "");
  phase("run");
  R.go();
  Outcome o = outcome(R.sol, R.sv);
  mark("pk:%s sv:%s", pk_names[R.w->pk], sv_names[R.sv]);
  double inf = infeasibility(*R.w, R.sol->GetXopt());
  double f0 = true_f(*R.w, R.w->x0);
  char b[400];
  snprintf(b, sizeof b, "%s %s feas %.2g final %.2g it %d f0 %.6g f %.6g ng %.3g nrel %.3g nf %d trueng %.3g nall %lld", R.w->desc.c_str(), sv_names[R.sv], R.env.max_infeas, inf, (int)o.iter, f0, o.f, o.ng, o.nrel, (int)o.nf, sv_smooth(R.sv) ? true_gradnorm(*R.w, R.sol->GetXopt()) : 0.0, R.env.nall);
  R.destroy();
  static char msg[500];
  strcpy(msg, b);
  phase(msg);
  finish_ok();
}
const Prop prop_cal = {"CAL", "calibration", gen_cal, run_cal, 20};
const std::vector<Prop> &all_props() {
  static std::vector<Prop> v;
  if (v.empty()) { const Prop *ps[] = {&prop_cal, &prop_p01, &prop_p02, &prop_p03, &prop_p04, &prop_p05, &prop_p06, &prop_p07, &prop_p08, &prop_p09, &prop_p10, &prop_p11, &prop_p12, &prop_p13, &prop_p14, &prop_p15, &prop_p16, &prop_p17, &prop_p18, &prop_p19, &prop_p20}; for (const Prop *p : ps) v.push_back(*p); }
  return v;
}
}
