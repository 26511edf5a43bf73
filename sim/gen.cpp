// Scenario generation shared by the properties.
#include "world.h"
#include <algorithm>
namespace sim {

static bool in(int v, std::initializer_list<int> l) { return std::find(l.begin(), l.end(), v) != l.end(); }

bool supported(const Scenario &s, const std::string &pre) {
  int pk = (int)s.c(pre + "pk"), sv = (int)s.c(pre + "sv");
  if (pk < 0 || pk >= PK_COUNT || sv < 0 || sv >= SV_COUNT) return false;
  if (pk == PK_SPARSEST) return sv_sub(sv);
  if (pk == PK_SPCA || pk == PK_SPARSEAPPROX) return sv_prox(sv);
  if (sv_prox(sv)) return false;
  if (sv_sub(sv)) return in(pk, {PK_STIEBROCKETT, PK_EUCQUAD, PK_GRASSRQ});
  if (pk == PK_WEIGHTAPPROX) return in(sv, {SV_RSD, SV_RNEWTON, SV_RCG, SV_LRBFGS, SV_RTRSD, SV_RTRNEWTON, SV_LRTRSR1}) && s.c(pre + "hhr") == 1;
  if (pk == PK_PHASE && sv == SV_RTRSD) return false;
  if (sv == SV_RWRBFGS && !in(pk, {PK_STIEBROCKETT, PK_GRASSRQ, PK_EUCQUAD, PK_PRODSTIE})) return false;
  return true;
}

void gen_world(Rng &r, Scenario &s, const std::string &pre, int tier, int pk) {
  if (pk < 0) pk = (int)r.below(PK_COUNT);
  s.cfg[pre + "pk"] = pk;
  s.cfg[pre + "inst"] = r.range(1, 60);
  s.cfg[pre + "x0"] = r.range(1, 200);
  int big = tier > 0 && r.chance(1, 4) ? 2 : 0;
#define SET(k, v) s.cfg[pre + (k)] = (v)
  i64 n, p;
  switch (pk) {
    case PK_STIEBROCKETT: n = r.range(2, 7 + big); p = r.range(1, std::min<i64>(n, 4)); SET("n", n); SET("p", p); SET("pset", r.range(1, 5)); break;
    case PK_CSTIEBROCKETT: n = r.range(2, 5); p = r.range(1, std::min<i64>(n, 3)); SET("n", n); SET("p", p); SET("pset", r.range(1, 4)); break;
    case PK_GRASSRQ: n = r.range(3, 7 + big); p = r.range(1, std::min<i64>(n - 1, 3)); SET("n", n); SET("p", p); break;
    case PK_EUCQUAD: SET("n", r.range(1, 12 + 10 * big)); break;
    case PK_SPDKARCHER: SET("n", r.range(2, 4)); SET("num", r.range(1, 5)); SET("pset", r.range(1, 4)); break;
    case PK_SFRQLYAP: n = r.range(3, 7 + big); SET("n", n); SET("p", r.range(1, std::min<i64>(2, n / 2))); SET("pset", r.range(1, 6)); break;
    case PK_MATCOMP: SET("n", r.range(5, 9 + big)); SET("m", r.range(5, 9)); SET("p", r.range(1, 2)); break;
    case PK_WEIGHTAPPROX: SET("n", r.range(3, 5)); SET("m", r.range(3, 5)); SET("p", r.range(1, 2)); SET("hhr", 1); break;
    case PK_SPARSEAPPROX: SET("n", r.range(3, 6)); SET("m", r.range(3, 6)); SET("p", r.range(1, 2)); break;
    case PK_PHASE: SET("l", r.range(4, 6)); SET("pset", r.range(1, 4)); break;
    case PK_LOWRANK: n = r.range(4, 7 + big); SET("kind", r.below(4)); SET("n", n); SET("m", r.range(4, 7)); SET("p", r.range(1, std::min<i64>(3, std::min(n, s.cfg[pre + "kind"] < 2 ? s.cfg[pre + "m"] : n) / 2))); SET("pset", s.cfg[pre + "kind"] == 2 ? r.range(1, 6) : r.range(1, 4)); break;
    case PK_BLINDDECON: if (r.chance(1, 4)) SET("n", 4); if (r.chance(1, 3)) SET("pen", 1); break;
    case PK_PRODSTIE: n = r.range(2, 5); SET("n", n); SET("p", r.range(1, std::min<i64>(n, 3))); n = r.range(2, 5); SET("m", n); SET("q", r.range(1, std::min<i64>(n, 3)));
      SET("pset", r.range(1, 4)); SET("pset2", s.cfg[pre + "pset"]); break;
    case PK_SPARSEST: n = r.range(2, 4); SET("n", n); SET("m", r.range(n + 3, 14)); SET("pset", 1); SET("hhr", 1); break;
    case PK_SPCA: n = r.range(3, 7); SET("n", n); SET("m", r.range(3, 7)); SET("p", r.range(1, std::min<i64>(n - 1, 3))); SET("lw", r.chance(1, 2) ? 0 : r.range(1, 2)); break;
    case PK_SPHERETX: {
      static const int bases[] = {PK_STIEBROCKETT, PK_GRASSRQ, PK_EUCQUAD, PK_SPDKARCHER, PK_AMBIENT, PK_SFRQLYAP};
      int bpk = bases[r.below(6)];
      gen_world(r, s, pre + "b", 0, bpk);
      if (bpk == PK_EUCQUAD) s.cfg[pre + "bn"] = r.range(2, 8);
      // the sphere of a one-dimensional tangent space is two points
      if (bpk == PK_STIEBROCKETT) s.cfg[pre + "bn"] = std::max<i64>(s.cfg[pre + "bn"], 3);
      if (bpk == PK_AMBIENT) s.cfg[pre + "bc0n"] = std::max<i64>(s.cfg[pre + "bc0n"], 3);
      if (r.chance(1, 4)) s.cfg[pre + "bext"] = 1;
      SET("min", r.range(0, 1));
      break;
    }
    default: {
      i64 nt = r.range(1, 3);
      SET("nt", nt);
      SET("single", nt == 1 && r.chance(2, 3));
      for (i64 i = 0; i < nt; i++) {
        std::string q = "c" + std::string(1, char('0' + i));
        i64 k = r.below(5);
        n = r.range(2, nt == 1 ? 6 : 4); p = r.range(1, std::min<i64>(n, 3));
        if (k == 3) { n = std::max<i64>(n, 3); p = std::min<i64>(p, n - 1); }
        if (k == 4) n = std::min<i64>(n, 3);
        SET(q + "k", k); SET(q + "n", n); SET(q + "p", p); SET(q + "m", r.chance(1, 4) ? 2 : 1);
        SET(q + "s", k == 1 ? r.range(1, 4) : k == 2 ? r.range(1, 4) : k == 4 ? r.range(1, 4) : 0);
      }
    }
  }
#undef SET
}
void gen_solver(Rng &r, Scenario &s, const std::string &pre, int sv) { s.cfg[pre + "sv"] = sv < 0 ? r.below(SV_COUNT) : sv; }

// level 0: defaults, 1: the settings users commonly change, 2: any in-range setting
void gen_options(Rng &r, Scenario &s, const std::string &pre, int level) {
  int sv = (int)s.c(pre + "sv");
#define SET(k, v) s.cfg[pre + (k)] = (v)
  SET("maxit", sv_sub(sv) ? r.range(3, 25) : r.range(3, 60));
  SET("tol10", r.range(4, 8));
  SET("verb", r.chance(3, 4) ? 2 : r.range(0, 3));
  if (level == 0) return;
  if (r.chance(1, 4)) SET("minit", r.range(0, std::min<i64>(3, s.c(pre + "maxit"))));
  if (r.chance(1, 3)) SET("crit", r.range(0, 2));
  if (r.chance(1, 4)) SET("ogap", r.range(1, 5));
  if (sv_ls(sv)) {
    if (r.chance(2, 3)) SET("ls", r.range(0, 3));
    if (r.chance(1, 3)) SET("ist", r.range(0, 4));
    if (r.chance(1, 3)) SET("istep", r.range(0, 3));
    if (r.chance(1, 3)) SET("npf", r.range(1, 5));
    if (r.chance(1, 4)) SET("npb", r.range(0, 4));
    if (r.chance(1, 4)) SET("acc10", r.chance(1, 2) ? 99 : r.range(2, 6));
    if (level > 1) {
      if (r.chance(1, 3)) SET("lsa", r.range(0, 4));
      if (r.chance(1, 3)) SET("lsb", r.range(0, 3));
      if (r.chance(1, 4)) SET("bbr", r.range(0, 3));
      if (r.chance(1, 4)) SET("rat", r.range(0, 3));
      if (r.chance(1, 6)) SET("maxs", r.range(0, 3));
      if (r.chance(1, 6)) SET("mins", r.range(0, 2));
      if (r.chance(1, 6)) SET("fst", r.range(0, 2));
      if (r.chance(1, 8)) { SET("ls", 4); if (r.chance(2, 3)) SET("pure", r.range(0, 1)); }
    }
    if (sv == SV_RCG) SET("rcg", r.range(0, 5));
    if (r.chance(1, 3)) SET("conv", r.range(0, 1));
    if (level > 1 && r.chance(1, 4)) { SET("nu", r.range(0, 2)); SET("mu", r.range(0, 2)); }
  }
  if (sv_tr(sv) || sv == SV_RNEWTON) {
    if (r.chance(1, 4)) SET("rand", 1);
    if (r.chance(1, 4)) SET("maxin", r.range(1, 20));
    if (level > 1) {
      if (r.chance(1, 5)) SET("minin", r.range(0, 2));
      if (r.chance(1, 5)) SET("theta", r.range(0, 2));
      if (r.chance(1, 5)) SET("kappa", r.range(0, 3));
      if (r.chance(1, 5)) SET("rho", r.range(0, 2));
      if (r.chance(1, 5)) SET("stau", r.range(0, 2));
      if (r.chance(1, 5)) SET("mtau", r.range(0, 2));
      if (r.chance(1, 5)) SET("maxd", r.range(0, 2));
      if (r.chance(1, 5)) SET("idel", r.range(0, 3));
    }
  }
  if (sv_dense(sv) && r.chance(1, 4)) SET("inith", r.range(1, 3));
  if (r.chance(1, 2)) SET("lsy", r.range(0, 6));
  if (r.chance(1, 4)) SET("lmr", r.range(0, 1));
  if (sv_prox(sv)) { SET("var", r.range(0, 1)); if (r.chance(1, 3)) SET("sgap", r.range(1, 8)); if (level > 1 && r.chance(1, 4)) SET("pgr", r.range(0, 2)); }
#undef SET
}
bool gen_supported(Rng &r, Scenario &s, const std::string &pre, int tier, int want, int force_pk, int force_sv) {
  for (int tries = 0; tries < 400; tries++) {
    Scenario t;
    int pk = force_pk;
    if (pk < 0) {
      // weights: every family gets its share, the product/user problem a larger one
      static const int smooth[] = {PK_STIEBROCKETT, PK_STIEBROCKETT, PK_GRASSRQ, PK_EUCQUAD, PK_SPDKARCHER, PK_SFRQLYAP, PK_MATCOMP, PK_WEIGHTAPPROX, PK_PHASE, PK_BLINDDECON, PK_PRODSTIE, PK_CSTIEBROCKETT, PK_AMBIENT, PK_AMBIENT, PK_AMBIENT, PK_SPHERETX, PK_LOWRANK};
      static const int nons[] = {PK_SPARSEST, PK_SPCA, PK_SPARSEAPPROX};
      bool ns = want == 2 || (want == 0 && r.chance(1, 5));
      pk = ns ? nons[r.below(3)] : smooth[r.below(sizeof smooth / sizeof *smooth)];
    }
    gen_world(r, t, pre, tier, pk);
    gen_solver(r, t, pre, force_sv);
    int sv = (int)t.c(pre + "sv");
    if (want == 1 && !sv_smooth(sv)) continue;
    if (want == 2 && sv_smooth(sv)) continue;
    if (!supported(t, pre)) continue;
    if (sv_smooth(sv) && pk != PK_WEIGHTAPPROX) {  // representation of tangent vectors, locking condition
      if (pk != PK_SPHERETX && r.chance(1, 7)) t.cfg[pre + "ext"] = 1;
      if (r.chance(1, 7)) t.cfg[pre + "hhr"] = 1;
      // secant matrices assume coordinates in which the metric is the dot product
      if (t.c(pre + "ext") && (sv_dense(sv) || sv == SV_LRTRSR1)) {
        bool spd = pk == PK_SPDKARCHER;
        for (int i = 0; i < 3; i++) spd = spd || (pk == PK_AMBIENT && t.c(pre + "c" + std::string(1, char('0' + i)) + "k") == 4);
        if (spd) t.cfg.erase(pre + "ext");
      }
    }
    for (std::map<std::string, i64>::iterator i = t.cfg.begin(); i != t.cfg.end(); ++i) s.cfg[i->first] = i->second;
    return true;
  }
  return false;
}
}  // namespace sim
