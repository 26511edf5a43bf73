// The simulated world: manifolds, problems, solvers, and the simulated environment (SimProblem).
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include "core.h"
#include <complex>
#include <functional>
#include <memory>

#include "Manifolds/CFixedRankQ2F.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/Element.h"
#include "Manifolds/Euclidean.h"
#include "Manifolds/FixedRankE.h"
#include "Manifolds/FixedRankQ2F.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/MultiManifolds.h"
#include "Manifolds/SPDManifold.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/SphereTx.h"
#include "Manifolds/Stiefel.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Others/SparseMatrix.h"
#include "Others/randgen.h"
#include "Problems/CFRankQ2FBlindDecon2D.h"
#include "Problems/CSFRQPhaseRetrieval.h"
#include "Problems/CStieBrockett.h"
#include "Problems/EucQuadratic.h"
#include "Problems/FRankESparseApprox.h"
#include "Problems/FRankEWeightApprox.h"
#include "Problems/FRankQ2FMatCompletion.h"
#include "Problems/GrassRQ.h"
#include "Problems/Problem.h"
#include "Problems/ProdStieSumBrockett.h"
#include "Problems/SFRQLyapunov.h"
#include "Problems/SPDKarcherMean.h"
#include "Problems/SphereSparsestVector.h"
#include "Problems/SphereTxRQ.h"
#include "Problems/StieBrockett.h"
#include "Problems/StieSPCA.h"
#include "Solvers/AManPG.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/LRTRSR1.h"
#include "Solvers/ManPG.h"
#include "Solvers/RBFGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RCG.h"
#include "Solvers/RGS.h"
#include "Solvers/RNewton.h"
#include "Solvers/RSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/RWRBFGS.h"
#undef max
#undef min
#undef abs

namespace sim {
using namespace ROPTLIB;

enum { PK_STIEBROCKETT, PK_GRASSRQ, PK_EUCQUAD, PK_SPDKARCHER, PK_SFRQLYAP, PK_MATCOMP, PK_WEIGHTAPPROX, PK_PHASE, PK_BLINDDECON,
       PK_PRODSTIE, PK_CSTIEBROCKETT, PK_SPARSEST, PK_SPCA, PK_SPARSEAPPROX, PK_AMBIENT, PK_SPHERETX, PK_LOWRANK, PK_COUNT };
enum { SV_RSD, SV_RNEWTON, SV_RCG, SV_RBROYDEN, SV_RWRBFGS, SV_RBFGS, SV_LRBFGS, SV_RTRSD, SV_RTRNEWTON, SV_RTRSR1, SV_LRTRSR1,
       SV_RGS, SV_RBFGSSUB, SV_LRBFGSSUB, SV_MANPG, SV_AMANPG, SV_COUNT };
extern const char *pk_names[], *sv_names[];
inline bool sv_ls(int s) { return s <= SV_LRBFGS; }
inline bool sv_tr(int s) { return s >= SV_RTRSD && s <= SV_LRTRSR1; }
inline bool sv_smooth(int s) { return s <= SV_LRTRSR1; }
inline bool sv_sub(int s) { return s >= SV_RGS && s <= SV_LRBFGSSUB; }
inline bool sv_prox(int s) { return s >= SV_MANPG; }

enum CompKind { CK_EUC, CK_STIE, CK_SPHERE, CK_GRASS, CK_SPD, CK_FACTOR, CK_RANKE, CK_CSTIE, CK_CFACTOR, CK_COUNT };
struct Comp { int k, n, p, r; };

struct World {
  int pk;
  std::string desc;
  Manifold *mani;
  std::vector<Manifold *> parts;
  Problem *prob;
  std::vector<Comp> comps;  // one per factor of the product (powers expanded)
  std::vector<SparseMatrix *> sps;
  std::vector<double *> raw;
  std::vector<integer *> rawi;
  Variable x0;
  World *base;   // SphereTx: the world whose tangent space at base->x0 is used
  bool product, spd_exp;  // spd_exp: an SPD factor with an exponential retraction
  double scale;  // the simulated problem's cost is this multiple of prob's
  World() : pk(0), mani(0), prob(0), base(0), product(false), spd_exp(false), scale(1) {}
  ~World();
};
bool spd_exp_world(const Scenario &s, const std::string &pre = "");
// builds the world described by the keys with the given prefix
World *make_world(const Scenario &s, const std::string &pre = "");
Variable make_x0(const World &w, u64 seed);
// 0 when feasible; otherwise the size of the violation
double infeasibility(const World &w, const Variable &x, std::string *why = 0);
// the run asked the Cayley retraction for steps so long that the system it solves is ill conditioned
bool long_cayley_steps();
// largest condition number of the positive definite components (1 without any): limits how well gradients can be recomputed
double spd_cond(const World &w, const Variable &x);
// copy without cached fields
Variable plain_copy(const World &w, const Variable &x);
// true cost / gradient norm evaluated from scratch at x (no faults, no events)
double true_f(const World &w, const Variable &x);
double true_gradnorm(const World &w, const Variable &x);
u64 hash_elem(const Element &x);
std::vector<double> elem_data(const Element &x);

struct SimThrow { int id; };  // what the simulated callback throws

struct Ev { char ch; u64 h; double v; };
class SimProblem;
struct Env {
  World *w;
  SimProblem *sp;
  bool on;                     // events recorded / faults active
  bool mute = false;           // calls made by the user's own inspection code: no event, fault or cost
  bool record;                 // keep the event list
  bool overflowed = false, near_boundary = false; bool check_feas;
  double feas_tol;
  i64 n[128];                  // events per channel
  i64 nall;
  i64 budget;
  std::vector<Ev> evs;
  std::vector<Rec> faults;
  i64 cost_us[128];            // simulated duration of each callback kind
  int in_grad, in_hess;
  u64 evhash;
  double max_infeas;
  std::function<void(Env &, char, const Variable &)> hook;
  // accepted iterates seen by StopPtr
  struct Acc { double f, finalval, initval; u64 h; i64 at_ev; integer iter; double t; };
  std::vector<Acc> acc;
  std::function<bool(Env &, const Variable &, const Vector &, integer, double, double, const Solvers *)> stop;
  Vector last_acc;             // last iterate seen by StopPtr (plain copy)
  bool f_fault_active(i64 k, double &val) const;
  i64 fired_f, fired_throw, fired_stall, fired_wall;
  double last_f;
  bool quiet_faults;
  struct FVal {  // v: last value, faulted: some value was injected, all: every value returned there
    double v; bool faulted; std::vector<double> all;
    FVal() : v(0), faulted(false) {}
    void add(double x, bool f) { v = x; faulted = faulted || f; all.push_back(x); }
    bool has(double x) const { for (size_t i = 0; i < all.size(); i++) if (all[i] == x || (all[i] != all[i] && x != x)) return true; return false; }
  };
  std::map<u64, FVal> fat;     // last cost returned for each point (record mode)
  bool fval_of(u64 h, FVal &o) const { std::map<u64, FVal>::const_iterator i = fat.find(h); if (i == fat.end()) return false; o = i->second; return true; }
  bool tag;                    // attach the point's identity to it in f and verify it in the derivative callbacks
  i64 tag_checks, n_f_probe, n_h_probe;
  Env();
  void event(char ch, const Variable &x, const Element *eta);
};

class SimProblem : public Problem {
 public:
  SimProblem(World *w, Env *e);
  virtual ~SimProblem() {}
  virtual realdp f(const Variable &x) const;
  virtual Vector &Grad(const Variable &x, Vector *result) const;
  virtual Vector &HessianEta(const Variable &x, const Vector &etax, Vector *result) const;
  virtual Vector &EucGrad(const Variable &x, Vector *result) const;
  virtual Vector &EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const;
  virtual Vector &PreConditioner(const Variable &x, const Vector &eta, Vector *result) const;
  virtual Vector &ProxW(const Vector &x, const Vector &Weight, Vector *result) const;
  virtual Vector &CalJW(const Vector &x, const Vector &eta, const Vector &Weight, Vector *result) const;
  virtual void SetUseGrad(bool b) const;
  virtual void SetUseHess(bool b) const;
  virtual void SetNumGradHess(bool b) const;
  Problem *in;
  Env *env;
};

// A user-written problem on any product of simple manifolds, in plain loops.
class AmbientProblem : public Problem {
 public:
  struct Term { int k, n, p; std::vector<double> W, D, A; };
  AmbientProblem(const std::vector<Comp> &comps, u64 seed);
  virtual realdp f(const Variable &x) const;
  virtual Vector &EucGrad(const Variable &x, Vector *result) const;
  virtual Vector &EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const;
  std::vector<Term> t;
};

// Distance to a matrix of the product of two factors, |G H^* - A|^2 / 2 (real and complex, any rank), or of one factor, |Y Y^* - A|^2 / 2.
class LowRankProblem : public Problem {
 public:
  typedef std::complex<double> C;
  typedef std::vector<C> M;  // columns
  LowRankProblem(bool complex_, bool sym, int m, int n, int r, u64 seed);
  virtual realdp f(const Variable &x) const;
  virtual Vector &EucGrad(const Variable &x, Vector *result) const;
  virtual Vector &EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const;
  void load(const Element &x, M &G, M &H) const;
  void store(const M &G, const M &H, Vector *result) const;
  M mul(const M &a, const M &b, int n, int k, int m, bool ca, bool cb) const;  // n x m, operands conjugate-transposed when asked for
  bool cplx, sym;
  int m, n, r;
  M A;
};

// true when the combination is one the library supports (and the harness calibrated)
bool supported(const Scenario &s, const std::string &pre = "");
Solvers *make_solver(int sv, const Problem *prob, const Variable *x0, LinearOPE *h0 = 0);
inline bool sv_dense(int s) { return s == SV_RBROYDEN || s == SV_RWRBFGS || s == SV_RBFGS || s == SV_RTRSR1 || s == SV_RBFGSSUB; }
void configure(Solvers *sol, int sv, const Scenario &s, const std::string &pre = "");
bool stop_tap(const Variable &x, const Vector &funSeries, integer lengthSeries, realdp finalval, realdp initval, const Problem *prob, const Solvers *solver);
double ls_input(integer iter, const Variable &x1, const Vector &exeta1, realdp initialstepsize, realdp initialslope, const Problem *prob, const Solvers *solver);

// a complete run
struct SolverRun {
  World *w;
  bool own_world;
  Env env;
  SimProblem *sp;
  SimProblem *use;  // the problem object the solver is built on (sp unless shared)
  Solvers *sol;
  LinearOPE h0;     // the user's initial Hessian approximation
  u64 h0_hash;
  int sv;
  SolverRun(const Scenario &s, const std::string &pre = "", World *shared = 0);
  ~SolverRun();
  void build(const Scenario &s, const std::string &pre);  // constructs and configures the solver
  void go();                                               // Run() in the library heap domain
  void check_h0();                                         // the user's initial Hessian approximation is untouched
  void destroy();
};
void load_env(Env &e, const Scenario &s, const std::string &pre);

struct Outcome {  // everything observable after a run
  std::vector<double> x;
  double f, ng, nrel, com;
  std::vector<double> fs, gs, ts, ds;
  integer iter, nf, ng_, nR, nV, nVp, nH, len;
};
Outcome outcome(Solvers *s, int sv);
u64 outcome_hash(const Outcome &o, bool with_time, bool with_series = true);
std::string outcome_diff(const Outcome &a, const Outcome &b, bool with_time, bool with_series = true);
double solver_gradnorm(Solvers *s, int sv);
double solver_relgrad(Solvers *s, int sv);

// generation helpers
void gen_world(Rng &r, Scenario &s, const std::string &pre, int tier, int force_pk = -1);
void gen_solver(Rng &r, Scenario &s, const std::string &pre, int force_sv = -1);
void gen_options(Rng &r, Scenario &s, const std::string &pre, int level);
bool gen_supported(Rng &r, Scenario &s, const std::string &pre, int tier, int want /*0 any,1 smooth,2 nonsmooth*/, int force_pk = -1, int force_sv = -1);
bool same(double a, double b);
}  // namespace sim
#endif
