// Entry point. Modes:
//   sim run PROP TIER FIRST COUNT STRIDE SECONDS   run scenarios seed=FIRST, FIRST+STRIDE, ...; one report line per scenario
//   sim gen PROP TIER SEED                         print the scenario
//   sim replay FILE [-v]                           run one scenario file
//   sim list
// Report lines: R <seed> <status> <cls> <trace> <hash>\t<counters k=v;...>\t<msg>
#include "core.h"
#include "props.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstdlib>
using namespace sim;

static double real_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static const Prop *find(const std::string &id) {
  const std::vector<Prop> &v = all_props();
  for (size_t i = 0; i < v.size(); i++) if (id == v[i].id) return &v[i];
  fprintf(stderr, "unknown property %s\n", id.c_str());
  exit(2);
}
static void report(u64 seed, const Scenario &s, const Result &r) {
  printf("R %llu %d %s %016llx %016llx\t", seed, r.status, r.cls.c_str(), r.trace, s.hash());
  for (std::map<std::string, i64>::const_iterator i = r.counters.begin(); i != r.counters.end(); ++i) printf("%s=%lld;", i->first.c_str(), i->second);
  printf("\t%s\n", r.msg.c_str());
  fflush(stdout);
}
int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") {
    const std::vector<Prop> &v = all_props();
    for (size_t i = 0; i < v.size(); i++) printf("%s %s\n", v[i].id, v[i].name);
    return 0;
  }
  if (mode == "gen" && argc >= 5) {
    const Prop *p = find(argv[2]);
    Scenario s = p->gen(strtoull(argv[4], 0, 10), atoi(argv[3]));
    s.prop = p->id; s.seed = strtoull(argv[4], 0, 10);
    printf("%s", s.text().c_str());
    return 0;
  }
  if (mode == "run" && argc >= 8) {
    const Prop *p = find(argv[2]);
    int tier = atoi(argv[3]);
    u64 first = strtoull(argv[4], 0, 10), cnt = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10);
    double lim = atof(argv[7]), t0 = real_s();
    for (u64 i = 0; i < cnt && real_s() - t0 < lim; i++) {
      u64 seed = first + i * stride;
      Scenario s = p->gen(seed, tier);
      s.prop = p->id; s.seed = seed;
      report(seed, s, run_forked(*p, s, getenv("SIM_VSEED") && strtoull(getenv("SIM_VSEED"), 0, 10) == seed));
    }
    printf("DONE\n");
    return 0;
  }
  if (mode == "replay" && argc >= 3) {
    std::ifstream f(argv[2]);
    std::stringstream b;
    b << f.rdbuf();
    Scenario s;
    if (!s.parse(b.str())) { fprintf(stderr, "bad scenario file\n"); return 2; }
    const Prop *p = find(s.prop);
    report(s.seed, s, run_forked(*p, s, argc > 3 && !strcmp(argv[3], "-v")));
    return 0;
  }
  if (mode == "serve") {  // reads file names of scenarios on stdin, one report line each (used by the minimiser)
    std::string fn;
    while (std::getline(std::cin, fn)) {
      std::ifstream f(fn.c_str());
      std::stringstream b;
      b << f.rdbuf();
      Scenario s;
      if (!s.parse(b.str())) { printf("R 0 2 discard 0 0\t\tbad file\n"); fflush(stdout); continue; }
      report(s.seed, s, run_forked(*find(s.prop), s));
    }
    return 0;
  }
  fprintf(stderr, "usage: sim run|gen|replay|serve|list\n");
  return 2;
}
