#ifndef SIM_PROPS_H
#define SIM_PROPS_H
#include "world.h"
namespace sim {
extern const Prop prop_cal, prop_p01, prop_p02, prop_p03, prop_p04, prop_p05, prop_p06, prop_p07, prop_p08, prop_p09, prop_p10, prop_p11, prop_p12, prop_p13,
    prop_p14, prop_p15, prop_p16, prop_p17, prop_p18, prop_p19, prop_p20;

// helpers shared by the run properties
void gen_fval_faults(Rng &r, Scenario &s, int maxn, i64 horizon, bool finite_only, bool forever);
void gen_costs(Rng &r, Scenario &s, const std::string &pre = "");
void report_env(const Env &e, int sv);
void std_setup(const Scenario &s);
}
#endif
