#include "core.h"
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

double Rng::gauss() {
  double u = unit(), v = unit();
  if (u < 1e-300) u = 1e-300;
  return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
}

// ------------------------------------------------------------------ scenario text
std::string Scenario::text() const {
  std::ostringstream o;
  o << "prop " << prop << "\nseed " << seed << "\n";
  for (std::map<std::string, i64>::const_iterator i = cfg.begin(); i != cfg.end(); ++i)
    o << "cfg " << i->first << " " << i->second << "\n";
  for (size_t i = 0; i < ops.size(); i++) {
    o << "op " << ops[i].k;
    for (size_t j = 0; j < ops[i].a.size(); j++) o << " " << ops[i].a[j];
    o << "\n";
  }
  for (size_t i = 0; i < faults.size(); i++) {
    o << "fault " << faults[i].k;
    for (size_t j = 0; j < faults[i].a.size(); j++) o << " " << faults[i].a[j];
    o << "\n";
  }
  return o.str();
}
bool Scenario::parse(const std::string &t) {
  std::istringstream in(t);
  std::string line;
  cfg.clear(); ops.clear(); faults.clear();
  bool ok = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "prop") { l >> prop; ok = true; }
    else if (w == "seed") l >> seed;
    else if (w == "cfg") { std::string k; i64 v; l >> k >> v; cfg[k] = v; }
    else if (w == "op" || w == "fault") {
      Rec r; l >> r.k;
      i64 v;
      while (l >> v) r.a.push_back(v);
      (w == "op" ? ops : faults).push_back(r);
    }
  }
  return ok;
}
u64 Scenario::hash() const {
  std::string t = text();
  u64 h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < t.size(); i++) h = fnv(h, (unsigned char)t[i]);
  return h;
}

// ------------------------------------------------------------------ reporting
bool g_verbose = false;
static int g_fd = -1;
static u64 g_trace = 0xcbf29ce484222325ull;
static const char *g_phase = "start";
static int g_out = -1;
static void capture_stdout() {
  fflush(stdout);
  g_out = memfd_create("out", 0);
  if (g_out < 0) { set_stdout(0); return; }
  int hi = fcntl(g_out, F_DUPFD, 200);
  close(g_out);
  g_out = hi;
  dup2(g_out, 1);
}
std::string captured() {
  std::string s;
  if (g_out < 0) return s;
  fflush(stdout);
  char b[4096];
  off_t off = 0;
  ssize_t n;
  while ((n = pread(g_out, b, sizeof b, off)) > 0) { s.append(b, (size_t)n); off += n; }
  return s;
}
static std::map<std::string, i64> *g_counters = 0;
static bool g_in_core = false;
struct CoreScope { bool o; bool f; CoreScope() : o(heap.lib), f(g_in_core) { heap.lib = false; g_in_core = true; } ~CoreScope() { heap.lib = o; g_in_core = f; } };

void tr(u64 v) { g_trace = fnv(g_trace, v); if (g_verbose) fprintf(stderr, "tr %016llx\n", v); }
void trd(double v) { if (v != v) { tr(0x7ff8dead); return; } g_trace = fnv(g_trace, dbits(v)); if (g_verbose) fprintf(stderr, "trd %.17g\n", v); }
void trs(const char *s) { u64 h = 7; for (const char *p = s; *p; p++) h = fnv(h, (unsigned char)*p); g_trace = fnv(g_trace, h); if (g_verbose) fprintf(stderr, "trs %s\n", s); }
u64 trace_value() { return g_trace; }
void count(const char *key, i64 n) { CoreScope c; if (!g_counters) g_counters = new std::map<std::string, i64>; (*g_counters)[key] += n; }
void countmax(const char *key, i64 n) { CoreScope c; if (!g_counters) g_counters = new std::map<std::string, i64>; i64 &v = (*g_counters)[std::string("max:") + key]; if (n > v) v = n; }
void mark(const char *fmt, ...) {
  CoreScope c;
  char b[200];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!g_counters) g_counters = new std::map<std::string, i64>;
  (*g_counters)[std::string("mark:") + b] = 1;
}
void phase(const char *p) { g_phase = p; if (g_verbose) fprintf(stderr, "phase %s\n", p); }

static void emit(int status, const char *cls, const char *msg) {
  heap.lib = false; heap.failing = false; g_in_core = true;
  fflush(stdout);
  // the library reports combinations it does not implement and carries on with meaningless numbers
  if (status == 1 && captured().find("has not been done") != std::string::npos) { status = 2; cls = "unsupported"; }
  std::ostringstream o;
  o << status << "\n" << cls << "\n";
  std::string m(msg);
  for (size_t i = 0; i < m.size(); i++) if (m[i] == '\n') m[i] = ' ';
  o << m << "\n" << g_trace << "\n";
  count("sim_us", clk.mono_us);
  if (g_counters)
    for (std::map<std::string, i64>::iterator i = g_counters->begin(); i != g_counters->end(); ++i) o << i->first << "\t" << i->second << "\n";
  o << "END\n";
  std::string s = o.str();
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(g_fd, s.data() + off, s.size() - off);
    if (n <= 0) break;
    off += (size_t)n;
  }
  _exit(0);
}
void violate(const char *cls, const char *fmt, ...) {
  heap.failing = false; heap.lib = false;
  char b[2000];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  emit(1, cls, b);
  _exit(1);
}
void discard(const char *why) { emit(2, "discard", why); _exit(1); }
void finish_ok() { emit(0, "ok", g_phase); _exit(1); }

static void on_crash(int sig) {
  // report from the handler: only write() on preformatted text
  static char b[300];
  int n = snprintf(b, sizeof b, "3\ncrash:%s\nsignal %d (%s) in phase %s\n%llu\nEND\n",
                   sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "signal", sig, strsignal(sig), g_phase, 1ull);
  if (::write(g_fd, b, (size_t)n)) {}
  _exit(0);
}
bool g_slow_ok = false;
static void on_hang(int) {
  static char b[300];
  int n = snprintf(b, sizeof b, "%s\nCPU limit reached in phase %s\n%llu\nEND\n", g_slow_ok ? "2\ndiscard" : "4\nhang", g_phase, 1ull);
  if (::write(g_fd, b, (size_t)n)) {}
  _exit(0);
}
void sim_main_child_setup(int fd) {
  g_fd = fd;
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  sa.sa_handler = on_hang;
  sigaction(SIGPROF, &sa, 0);
  sigaction(SIGXCPU, &sa, 0);
}

// ------------------------------------------------------------------ heap
HeapCtl heap = {0, false, false, 0, 1, 0, 0, 0, 0, (i64)1 << 60, 0};

static const u64 MAG_LIVE = 0x51A11FE0C0FFEE01ull, MAG_DEAD = 0xDEADF4EE0BADB10Cull, CAN = 0xA5C3E187965A3C1Eull;
struct Hdr { u64 magic, size, dom, can; Hdr *prev, *next; };
static Hdr live_head = {0, 0, 0, 0, &live_head, &live_head};
static Hdr *quar[8192];
static size_t quar_i = 0;
static u64 quar_bytes[8192];
static u64 quar_total = 0;
static u64 poison_rng = 88172645463325252ull;

static void heap_die(const char *what, u64 size) {
  heap.lib = false; heap.failing = false;
  violate("heap-corruption", "%s (block of %llu bytes) in phase %s", what, size, g_phase);
}
static void fill(unsigned char *p, size_t n, int mode) {
  switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0x7F, n); break;
    case 3:
      for (size_t i = 0; i < n; i++) { poison_rng ^= poison_rng << 13; poison_rng ^= poison_rng >> 7; poison_rng ^= poison_rng << 17; p[i] = (unsigned char)(poison_rng >> 24); }
      break;
    case 4: { double d = 1.0; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &d, 8); memset(p + (n & ~(size_t)7), 1, n & 7); break; }
    default: memset(p, 0xCD, n);
  }
}
static void *sim_alloc(size_t n, bool nothrow) {
  if (heap.lib) {
    heap.total++;
    if (--heap.budget < 0) { heap.budget = (i64)1 << 60; heap.lib = false; heap.failing = false; violate("hang", "allocation budget exhausted in phase %s", g_phase); }
    if (heap.failing) {
      heap.nlib++;
      if (heap.fail_at > 0 && heap.nlib >= heap.fail_at && (heap.fail_len == 0 || heap.nlib < heap.fail_at + heap.fail_len)) {
        heap.failed++;
        if (nothrow) return 0;
        throw std::bad_alloc();
      }
    }
  }
  if (n > (size_t)1 << 33) { if (nothrow) return 0; throw std::bad_alloc(); }
#ifdef SIM_ASAN
  void *raw = malloc(n ? n : 1);
  if (!raw) { if (nothrow) return 0; throw std::bad_alloc(); }
  if (heap.lib) fill((unsigned char *)raw, n, heap.poison);
  return raw;
#endif
  Hdr *h = (Hdr *)malloc(sizeof(Hdr) + n + 8);
  if (!h) { if (nothrow) return 0; throw std::bad_alloc(); }
  h->magic = MAG_LIVE; h->size = n; h->dom = heap.lib ? 1 : 0; h->can = CAN;
  h->prev = &live_head; h->next = live_head.next; live_head.next->prev = h; live_head.next = h;
  unsigned char *p = (unsigned char *)(h + 1);
  if (heap.lib) { heap.live_blocks++; heap.live_bytes += (i64)n; fill(p, n, heap.poison); }
  memcpy(p + n, &CAN, 8);
  return p;
}
static void sim_free(void *v) {
  if (!v) return;
#ifdef SIM_ASAN
  free(v);
  return;
#endif
  Hdr *h = (Hdr *)v - 1;
  if (h->magic == MAG_DEAD) heap_die("double free", h->size);
  if (h->magic != MAG_LIVE || h->can != CAN) heap_die("free of a bad pointer or header overwritten", 0);
  unsigned char *p = (unsigned char *)v;
  if (memcmp(p + h->size, &CAN, 8)) heap_die("write past the end of a block", h->size);
  h->prev->next = h->next; h->next->prev = h->prev;
  h->magic = MAG_DEAD;
  if (h->dom) {
    heap.live_blocks--; heap.live_bytes -= (i64)h->size;
    memset(p, 0xDB, h->size);
    // quarantine
    size_t slot = quar_i++ % 8192;
    if (quar[slot]) {
      Hdr *o = quar[slot];
      unsigned char *q = (unsigned char *)(o + 1);
      for (size_t i = 0; i < o->size; i++) if (q[i] != 0xDB) heap_die("write to freed memory", o->size);
      quar_total -= quar_bytes[slot];
      free(o);
    }
    quar[slot] = h; quar_bytes[slot] = h->size; quar_total += h->size;
    return;
  }
  free(h);
}
void heap_check_all() {
  for (Hdr *h = live_head.next; h != &live_head; h = h->next) {
    if (h->magic != MAG_LIVE || h->can != CAN) heap_die("header of a live block overwritten", 0);
    if (memcmp((unsigned char *)(h + 1) + h->size, &CAN, 8)) heap_die("write past the end of a live block", h->size);
  }
  for (size_t s = 0; s < 8192; s++)
    if (quar[s]) {
      unsigned char *q = (unsigned char *)(quar[s] + 1);
      for (size_t i = 0; i < quar[s]->size; i++) if (q[i] != 0xDB) heap_die("write to freed memory", quar[s]->size);
    }
}
void heap_dump() { for (Hdr *h = live_head.next; h != &live_head; h = h->next) if (h->dom) { fprintf(stderr, "live block of %llu bytes:", h->size); for (u64 i = 0; i < h->size && i < 32; i += 8) fprintf(stderr, " %016llx", *(u64 *)((char *)(h + 1) + i)); fprintf(stderr, "\n"); } }
__attribute__((noinline)) void paint_stack(int mode) {
  volatile unsigned char buf[200000];
  fill((unsigned char *)buf, sizeof buf, mode);
  __asm__ volatile("" : : "r"(buf) : "memory");
}

// ------------------------------------------------------------------ clock
ClockCtl clk = {0, 0, 0, 0};
void advance_us(i64 us) { if (us > 0) clk.mono_us += us; }
void step_wall_us(i64 us) { clk.rt_off_us += us; }
static const i64 RT_BASE = 1700000000ll * 1000000ll, MONO_BASE = 5000ll * 1000000ll;
static i64 read_rt() { clk.reads++; clk.mono_us += clk.tick_us; return RT_BASE + clk.mono_us + clk.rt_off_us; }
static i64 read_mono() { clk.reads++; clk.mono_us += clk.tick_us; return MONO_BASE + clk.mono_us; }

// ------------------------------------------------------------------ rand
RandCtl rnd_main = {1, 0, std::map<i64, int>()};
RandCtl *rnd = &rnd_main;

// ------------------------------------------------------------------ stdout
void set_stdout(int mode) {
  fflush(stdout);
  if (mode == 3) { clearerr(stdout); if (g_out >= 0) dup2(g_out, 1); return; }
  if (mode == 2) { close(1); return; }
  int fd = open(mode == 1 ? "/dev/full" : "/dev/null", O_WRONLY);
  if (fd >= 0 && fd != 1) { dup2(fd, 1); close(fd); }
}

// ------------------------------------------------------------------ forked execution
static i64 real_ms() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ll + t.tv_nsec / 1000000; }

Result run_forked(const Prop &p, const Scenario &s, bool verbose) {
  int fds[2];
  Result r;
  if (pipe(fds)) { perror("pipe"); exit(2); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(fds[0]);
    if (fds[1] < 3) { int nfd = fcntl(fds[1], F_DUPFD, 100); close(fds[1]); fds[1] = nfd; }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = (rlim_t)p.cpu_limit_s + 5; rl.rlim_max = rl.rlim_cur + 2;
    setrlimit(RLIMIT_CPU, &rl);
#ifndef SIM_ASAN
    rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
    g_verbose = verbose;
    sim_main_child_setup(fds[1]);
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = p.cpu_limit_s;
    setitimer(ITIMER_PROF, &it, 0);
    if (verbose && getenv("SIM_SHOW")) dup2(2, 1); else capture_stdout();
    if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); }
    try {
      p.run(s);
      phase("exit");
      finish_ok();
    } catch (std::exception &e) {
      violate("exception", "uncaught %s in phase %s", e.what(), g_phase);
    } catch (...) {
      violate("exception", "uncaught exception in phase %s", g_phase);
    }
    _exit(0);
  }
  close(fds[1]);
  std::string out;
  char buf[65536];
  i64 t0 = real_ms();
  bool killed = false;
  for (;;) {
    struct pollfd pf = {fds[0], POLLIN, 0};
    int pr = poll(&pf, 1, 1000);
    if (pr < 0 && errno == EINTR) continue;
    if (pr == 0) {
      if (real_ms() - t0 > (p.cpu_limit_s + 60) * 4000ll) { kill(pid, SIGKILL); killed = true; }
      continue;
    }
    ssize_t n = read(fds[0], buf, sizeof buf);
    if (n <= 0) break;
    out.append(buf, (size_t)n);
  }
  close(fds[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::istringstream in(out);
  std::string line;
  bool complete = out.size() >= 4 && out.compare(out.size() - 4, 4, "END\n") == 0;
  if (!complete) {
    r.status = killed ? 4 : 3;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU)) r.status = 4;
    r.cls = r.status == 4 ? "hang" : "crash:exit";
    char b[100];
    snprintf(b, sizeof b, "child ended without a report (wait status 0x%x)", st);
    r.msg = b;
    r.trace = 1;
    return r;
  }
  std::getline(in, line); r.status = atoi(line.c_str());
  std::getline(in, r.cls);
  std::getline(in, r.msg);
  std::getline(in, line); r.trace = strtoull(line.c_str(), 0, 10);
  while (std::getline(in, line) && line != "END") {
    size_t t = line.find('\t');
    if (t != std::string::npos) r.counters[line.substr(0, t)] = atoll(line.c_str() + t + 1);
  }
  return r;
}

}  // namespace sim

// ==================================================================== link-level seams
void *operator new(size_t n) { return sim::sim_alloc(n, false); }
void *operator new[](size_t n) { return sim::sim_alloc(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim::sim_alloc(n, true); } catch (...) { return 0; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim::sim_alloc(n, true); } catch (...) { return 0; } }
void operator delete(void *p) noexcept { sim::sim_free(p); }
void operator delete[](void *p) noexcept { sim::sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::sim_free(p); }

extern "C" {
int gettimeofday(struct timeval *tv, void *) noexcept {
  sim::i64 t = sim::read_rt();
  if (tv) { tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; }
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  sim::i64 t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim::read_rt() : sim::read_mono();
  ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
  return 0;
}
time_t time(time_t *t) noexcept { time_t v = sim::read_rt() / 1000000; if (t) *t = v; return v; }
clock_t clock(void) noexcept { return (clock_t)(sim::read_mono()); }
int rand(void) noexcept {
  sim::RandCtl *r = sim::rnd;
  r->state += 0x9E3779B97F4A7C15ull;
  sim::u64 z = r->state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  z ^= z >> 31;
  sim::i64 i = r->draws++;
  if (!r->forced.empty()) {
    std::map<sim::i64, int>::const_iterator it = r->forced.find(i);
    if (it != r->forced.end()) return it->second;
  }
  return (int)(z >> 33);
}
void srand(unsigned s) noexcept { sim::rnd->state = (sim::u64)s * 0x2545F4914F6CDD1Dull + 77; sim::rnd->draws = 0; }
}
