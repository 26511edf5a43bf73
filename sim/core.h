// Simulation core: PRNG, scenarios, seams (heap, clock, rand, stdout), result reporting.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef long long i64;
typedef unsigned long long u64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull) {
    s = next() ^ (seed << 32);  // decorrelate neighbouring seeds
    s = next();
  }
  u64 next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  i64 below(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
  i64 range(i64 a, i64 b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  double gauss();
  template <class T> const T &pick(const std::vector<T> &v) { return v[(size_t)below((i64)v.size())]; }
};

struct Rec {
  std::string k;
  std::vector<i64> a;
  Rec() {}
  Rec(const std::string &kk, std::vector<i64> aa) : k(kk), a(aa) {}
  i64 at(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Scenario {
  std::string prop;
  u64 seed;
  std::map<std::string, i64> cfg;
  std::vector<Rec> ops, faults;
  Scenario() : seed(0) {}
  i64 c(const std::string &k, i64 d = 0) const {
    std::map<std::string, i64>::const_iterator it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
  std::string text() const;
  bool parse(const std::string &t);
  u64 hash() const;
};

// ---------------------------------------------------------------- results
// A scenario runs in a forked child; the child reports through a pipe and exits.
struct Result {
  int status;  // 0 ok, 1 violation, 2 discarded, 3 crash (signal), 4 hang
  std::string cls, msg;
  u64 trace;
  std::map<std::string, i64> counters;
  Result() : status(0), trace(0) {}
};
void violate(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
extern bool g_slow_ok;  // reaching the CPU limit is not a finding of this run
void discard(const char *why) __attribute__((noreturn));
void finish_ok() __attribute__((noreturn));
void count(const char *key, i64 n = 1);        // counters reported upwards
void countmax(const char *key, i64 n);
void mark(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // set-valued coverage mark
void phase(const char *p);                     // for crash messages
extern bool g_verbose;                         // print trace to stderr
void tr(u64 v);                                // extend trace hash
void trd(double v);
void trs(const char *s);
u64 trace_value();
void sim_main_child_setup(int result_fd);

// ---------------------------------------------------------------- heap seam
struct HeapCtl {
  int poison;        // 0: 0x00, 1: 0xFF, 2: 0x7F.., 3: pseudo-random, 4: signalling pattern of doubles
  bool lib;          // allocations belong to the library domain
  bool failing;      // fault injection armed
  i64 fail_at;       // index (1-based) of the library allocation to fail; <=0 none
  i64 fail_len;      // how many consecutive allocations fail (0 => all following)
  i64 nlib;          // library allocations made while armed
  i64 failed;        // failures injected
  i64 live_blocks;   // live library blocks
  i64 live_bytes;
  i64 budget;        // remaining library allocations before "hang"
  u64 total;         // all library allocations
};
extern HeapCtl heap;
struct LibScope {    // allocations inside belong to the library
  bool old;
  explicit LibScope(bool on = true) : old(heap.lib) { heap.lib = on; }
  ~LibScope() { heap.lib = old; }
};
void heap_dump();            // live library blocks, to stderr
void heap_check_all();       // verifies the red zones of every quarantined and live block
void paint_stack(int poison);

// ---------------------------------------------------------------- clock seam
struct ClockCtl {
  i64 mono_us;   // simulated elapsed time
  i64 rt_off_us; // wall clock offset (steps)
  i64 reads;
  i64 tick_us;   // advance per clock read
};
extern ClockCtl clk;
void advance_us(i64 us);
void step_wall_us(i64 us);

// ---------------------------------------------------------------- rand seam
struct RandCtl {
  u64 state;
  i64 draws;
  std::map<i64, int> forced;  // draw index -> forced value
};
extern RandCtl *rnd;         // current stream
extern RandCtl rnd_main;

// ---------------------------------------------------------------- stdout seam
std::string captured();      // what the run has printed so far
void set_stdout(int mode);   // 0 /dev/null, 1 /dev/full, 2 closed, 3 captured again

// ---------------------------------------------------------------- fork execution
struct Prop {
  const char *id;
  const char *name;
  Scenario (*gen)(u64 seed, int tier);
  void (*run)(const Scenario &);
  int cpu_limit_s;
};
Result run_forked(const Prop &p, const Scenario &s, bool verbose = false);
const std::vector<Prop> &all_props();

inline u64 fnv(u64 h, u64 v) {
  h ^= v;
  h *= 0x100000001b3ull;
  return h ^ (h >> 29);
}
inline u64 dbits(double d) {
  u64 u;
  memcpy(&u, &d, 8);
  return u;
}
}  // namespace sim
#endif
