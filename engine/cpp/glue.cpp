// One entry point to the C++ classes of /repo, compiled with the same "double" as the sources (see pre.hpp).
#include <dlfcn.h>
#include <cxxabi.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/time.h>

#include "dmp/Dmp.hpp"
#include "dmp/Trajectory.hpp"
#include "dynamicalsystems/DynamicalSystem.hpp"
#include "dynamicalsystems/ExponentialSystem.hpp"
#include "dynamicalsystems/SigmoidSystem.hpp"
#include "dynamicalsystems/SpringDamperSystem.hpp"
#include "dynamicalsystems/TimeSystem.hpp"
#include "eigenutils/eigen_file_io.hpp"
#include "eigenutils/eigen_json.hpp"
#include "functionapproximators/BasisFunction.hpp"
#include "functionapproximators/FunctionApproximator.hpp"
#include "functionapproximators/FunctionApproximatorLWR.hpp"
#include "functionapproximators/FunctionApproximatorRBFN.hpp"
#if __has_include("runSimulationThrowBall.hpp")
#include "runSimulationThrowBall.hpp"
#endif

using namespace DmpBbo;
using namespace Eigen;
using namespace std;

#define NOINS __attribute__((no_instrument_function))
static int n_heap = 0;      // heap allocations in real-time sections
static bool real_time = false;   // between RT_BEGIN and RT_END every allocation counts, by Eigen or not
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __wrap_malloc(size_t n) { if (real_time) n_heap++; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (real_time) n_heap++; return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { if (real_time) n_heap++; return __real_realloc(p, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (real_time) n_heap++; return __real_posix_memalign(p, a, n); }
void* __wrap__Znwm(size_t n) { if (real_time) n_heap++; return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (real_time) n_heap++; return __real__Znam(n); }
}
#define RT_BEGIN { real_time = true; Eigen::internal::set_is_malloc_allowed(false); }
#define RT_END { real_time = false; Eigen::internal::set_is_malloc_allowed(true); }
struct Pause { bool r, e; Pause() : r(real_time), e(Eigen::internal::is_malloc_allowed()) { RT_END } ~Pause() { real_time = r; Eigen::internal::set_is_malloc_allowed(e); } };
static string last_error;
static set<void*> entered;
static volatile long n_callbacks = 0;
static volatile int in_callback = 0;
struct Mark { Mark() { n_callbacks++; in_callback++; } ~Mark() { in_callback--; } };
#define CALL(f, ...) ([&] { Mark m; return CB.f(__VA_ARGS__); }())
static bool ready = false;

void verif_assert(const char* what, const char* file, int line)
{
  if (strstr(what, "heap allocation")) {
    n_heap++;
    return;
  }
  real_time = false;
  ostringstream o;
  o << "assertion failed: " << what << " at " << file << ":" << line;
  throw VerifAssert(o.str());
}

extern "C" {
NOINS void __cyg_profile_func_enter(void* f, void*) { if (ready) { bool r = real_time; real_time = false; entered.insert(f); real_time = r; } }
NOINS void __cyg_profile_func_exit(void*, void*) {}
}

#ifdef VERIF_SYM
#undef double
typedef double RD;
#define double verif::Sym
struct Callbacks {
  int (*cst)(RD);
  int (*fresh)();
  int (*bin)(int, int, int);
  int (*un)(int, int);
  int (*cmp)(int, int, int);
  int (*flr)(int);
  int (*tok)(const char*);
  int (*uf)(const char*, int, const int*);
};
static Callbacks CB;
static vector<RD>& pool() { static vector<RD> p; return p; }
namespace verif {
static int chk(int id) { if (id == -99) throw VerifAbort(); return id; }
static int res(int id) { return id <= -3 ? chk(CALL(cst, pool()[-3 - id])) : id; }
static RD early(int id) { return pool().at(-3 - id); }    // arithmetic of static variables, before the engine is there
static int store(RD c) { pool().push_back(c); return -2 - (int)pool().size(); }
int op_const(RD c)
{
  if (!ready) return store(c);
  return chk(CALL(cst, c));
}
int op_fresh() { return chk(CALL(fresh)); }
int op_bin(int op, int a, int b)
{
  if (!ready) { RD x = early(a), y = early(b); return store(op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : op == '/' ? x / y : std::pow(x, y)); }
  return chk(CALL(bin, op, res(a), res(b)));
}
int op_un(int op, int a)
{
  if (!ready) { RD x = early(a); return store(op == '-' ? -x : op == 'e' ? std::exp(x) : op == 's' ? std::sqrt(x) : op == 'L' ? std::log(x) : std::fabs(x)); }
  return chk(CALL(un, op, res(a)));
}
bool op_cmp(int op, int a, int b) { return chk(CALL(cmp, op, res(a), res(b))) != 0; }
long op_floor(int a) { return chk(CALL(flr, res(a))); }
string op_show(int a) { return "@S:" + to_string(res(a)); }
int op_token(const string& s) { return chk(CALL(tok, s.c_str())); }
}
static double call_uf(const string& n, const vector<double>& x)
{
  Pause p;
  vector<int> a;
  for (auto& v : x) a.push_back(v.get());
  return verif::Sym::of(verif::chk(CALL(uf, n.c_str(), a.size(), a.data())));
}
extern "C" void verif_init(Callbacks* c) { CB = *c; ready = true; }
#else
struct Callbacks { double (*uf)(const char*, int, const double*); };
static Callbacks CB;
static double call_uf(const string& n, const vector<double>& x) { Pause p; return CALL(uf, n.c_str(), x.size(), x.data()); }
extern "C" void verif_init(Callbacks* c) { CB = *c; ready = true; }
#endif

// arbitrary (uninterpreted) function approximators and dynamical systems
class UFA : public FunctionApproximator {
 public:
  string n;
  UFA(string name) : n(name) {}
  void predict(const Ref<const MatrixXd>& in, MatrixXd& out) const {
    out.resize(in.rows(), 1);
    for (int i = 0; i < in.rows(); i++) { vector<double> x; for (int j = 0; j < in.cols(); j++) x.push_back(in(i, j)); out(i, 0) = call_uf(n, x); }
  }
  void predictRealTime(const Ref<const RowVectorXd>& in, VectorXd& out) const {
    Pause p; vector<double> x; for (int j = 0; j < in.size(); j++) x.push_back(in(j)); out(0) = call_uf(n, x);
  }
 private:
  void to_json_helper(nlohmann::json& j) const { j["class"] = "UFA"; }
};
class UDS : public DynamicalSystem {
 public:
  UDS(double tau, VectorXd x0) : DynamicalSystem(1, tau, x0) {}
  void differentialEquation(const Ref<const VectorXd>& x, Ref<VectorXd> xd) const {
    Pause p; vector<double> a; for (int j = 0; j < x.size(); j++) a.push_back(x(j));
    VectorXd r(x.size());
    for (int j = 0; j < x.size(); j++) r(j) = call_uf("rhs" + to_string(j), a);
    xd = r;
  }
  void analyticalSolution(const VectorXd& ts, MatrixXd& xs, MatrixXd& xds) const {}
 private:
  void to_json_helper(nlohmann::json& j) const {}
};

static vector<MatrixXd> OM;
static vector<int> OV;      // 1: a vector
static vector<long> OH;
static string OT;
static vector<MatrixXd> M;
static vector<long> H;
static vector<string> T;
static void out(const MatrixXd& m) { OM.push_back(m); OV.push_back(0); }
static void outv(const VectorXd& v) { OM.push_back(v); OV.push_back(1); }
static void outs(const double& d) { MatrixXd m(1, 1); m(0, 0) = d; OM.push_back(m); OV.push_back(2); }
static void outh(const void* p) { OH.push_back((long)p); }
static VectorXd V(int i) { VectorXd v = VectorXd::Map(M.at(i).data(), M[i].size()); return v; }
static double D(int i) { return M.at(i)(0, 0); }
static DynamicalSystem* S(int i = 0) { return (DynamicalSystem*)H.at(i); }
static Dmp* P(int i = 0) { Dmp* d = dynamic_cast<Dmp*>(S(i)); if (!d) throw runtime_error("not a Dmp"); return d; }
static FunctionApproximator* F(int i = 0) { return (FunctionApproximator*)H.at(i); }
static Trajectory* J(int i = 0) { return (Trajectory*)H.at(i); }
static vector<FunctionApproximator*> FS(int from) { vector<FunctionApproximator*> f; for (unsigned i = from; i < H.size(); i++) f.push_back(F(i)); return f; }
static void outj(const Trajectory& t) { outv(t.ts()); out(t.ys()); out(t.yds()); out(t.ydds()); out(t.misc()); }

static void run(const string& c)
{
  if (c == "exponential") outh(static_cast<DynamicalSystem*>(new ExponentialSystem(D(0), V(1), V(2), D(3))));
  else if (c == "sigmoid") outh(static_cast<DynamicalSystem*>(new SigmoidSystem(D(0), V(1), D(2), D(3))));
  else if (c == "spring") outh(static_cast<DynamicalSystem*>(M.size() > 5 ? new SpringDamperSystem(D(0), V(1), V(2), D(3), D(4), D(5)) :
                    M.size() > 4 ? new SpringDamperSystem(D(0), V(1), V(2), D(3), D(4)) : new SpringDamperSystem(D(0), V(1), V(2), D(3))));
  else if (c == "time") outh(static_cast<DynamicalSystem*>(new TimeSystem(D(0), T.at(0) == "1")));
  else if (c == "uds") outh(static_cast<DynamicalSystem*>(new UDS(D(0), V(1))));
  else if (c == "sys_json") { nlohmann::json j = nlohmann::json::parse(T.at(0)); DynamicalSystem* s = j.get<DynamicalSystem*>(); outh(s); }
  else if (c == "dmp_json") { nlohmann::json j = nlohmann::json::parse(T.at(0)); Dmp* s = j.get<Dmp*>(); outh(static_cast<DynamicalSystem*>(s)); }
  else if (c == "fa_json") { nlohmann::json j = nlohmann::json::parse(T.at(0)); FunctionApproximator* s = j.get<FunctionApproximator*>(); outh(s); }
  else if (c == "sys_to_json") { nlohmann::json j; const DynamicalSystem* s = S(); to_json(j, s); OT = j.dump(); }
  else if (c == "fa_to_json") { nlohmann::json j; const FunctionApproximator* s = F(); to_json(j, s); OT = j.dump(); }
  else if (c == "sys_show") { ostringstream o; o << *S(); OT = o.str(); }
  else if (c == "dims") { DynamicalSystem* s = S(); outs(s->dim()); outs(s->dim_x()); outs(s->dim_y()); }
  else if (c == "tau") outs(S()->tau());
  else if (c == "x_init") { outv(S()->x_init()); VectorXd x(S()->dim()); S()->get_x_init(x); outv(x); }
  else if (c == "y_init") { VectorXd y(S()->dim_y()); S()->get_y_init(y); outv(y); }
  else if (c == "set_tau") S()->set_tau(D(0));
  else if (c == "set_x_init") S()->set_x_init(V(0));
  else if (c == "set_y_init") { VectorXd y = V(0); if (dynamic_cast<Dmp*>(S()) && T.empty()) P()->set_y_init(y); else S()->set_y_init(y); }
  else if (c == "set_y_attr") {
    VectorXd y = V(0);
    if (auto d = dynamic_cast<Dmp*>(S())) d->set_y_attr(y);
    else if (auto d = dynamic_cast<SpringDamperSystem*>(S())) d->set_y_attr(y);
    else if (auto d = dynamic_cast<ExponentialSystem*>(S())) { if (T.size()) d->set_x_attr(y); else d->set_y_attr(y); }
    else throw runtime_error("no attractor");
  }
  else if (c == "set_damping") { if (auto d = dynamic_cast<Dmp*>(S())) d->set_damping_coefficient(D(0)); else dynamic_cast<SpringDamperSystem*>(S())->set_damping_coefficient(D(0)); }
  else if (c == "set_spring") { if (auto d = dynamic_cast<Dmp*>(S())) d->set_spring_constant(D(0)); else dynamic_cast<SpringDamperSystem*>(S())->set_spring_constant(D(0)); }
  else if (c == "set_mass") dynamic_cast<SpringDamperSystem*>(S())->set_mass(D(0));
  else if (c == "spring_params") { auto d = dynamic_cast<SpringDamperSystem*>(S()); outs(d->damping_coefficient()); outs(d->spring_constant()); outs(d->mass()); }
  else if (c == "deq") { VectorXd x = V(0), xd(x.size()); RT_BEGIN S()->differentialEquation(x, xd); RT_END outv(xd); outv(x); }
  else if (c == "start") {
    VectorXd x(S()->dim()), xd(S()->dim());
    if (M.size()) S()->integrateStart(V(0), x, xd); else S()->integrateStart(x, xd);
    outv(x); outv(xd);
  }
  else if (c == "step" || c == "step_inplace") {       // T: "", euler, rk
    VectorXd x = V(1), xu(x.size()), xd(x.size());
    string w = T.size() ? T[0] : "";
    bool in = c == "step_inplace";
    VectorXd& r = in ? x : xu;
    DynamicalSystem* sys = S();
    double dt = D(0);
    int how = w == "euler" ? 0 : w == "rk" ? 1 : 2;
    RT_BEGIN
    if (how == 0) sys->integrateStepEuler(dt, x, r, xd);
    else if (how == 1) sys->integrateStepRungeKutta(dt, x, r, xd);
    else sys->integrateStep(dt, x, r, xd);
    RT_END
    outv(r); outv(xd); outv(x);
  }
  else if (c == "ana") {     // T[0]: transposed
    VectorXd ts = V(0);
    MatrixXd xs, xds;
    if (T.size()) { xs.resize(S()->dim(), ts.size()); xds.resize(S()->dim(), ts.size()); }
    S()->analyticalSolution(ts, xs, xds);
    out(xs); out(xds); outv(ts);
  }
  else if (c == "ana_dmp") {
    MatrixXd xs, xds, f, o; VectorXd ts = V(0);
    P()->analyticalSolution(ts, xs, xds, f, o);
    out(xs); out(xds); out(f); out(o);
    MatrixXd y, yd, ydd;
    P()->statesAsTrajectory(xs, xds, y, yd, ydd);
    out(y); out(yd); out(ydd);
    Trajectory t;
    P()->analyticalSolution(ts, t);
    outj(t);
  }
  else if (c == "pos_vel_acc") { VectorXd y, yd, ydd; P()->stateAsPosVelAcc(V(0), V(1), y, yd, ydd); outv(y); outv(yd); outv(ydd); }
  else if (c == "dmp_y_init") { outv(P()->y_init()); VectorXd y(P()->dim_y()); P()->get_y_init(y); outv(y); outs(P()->dim_dmp()); }
  else if (c == "dmp_type")       // tau y0 g amps | fas | type scaling
    outh(static_cast<DynamicalSystem*>(new Dmp(D(0), V(1), V(2), FS(0), T.at(0), T.at(1), V(3))));
  else if (c == "dmp_type_n") outh(static_cast<DynamicalSystem*>(new Dmp(stoi(T.at(2)), FS(0), T.at(0), T.at(1), V(0))));
  else if (c == "dmp_sub") {      // tau y0 g alpha amps | goal phase gate fas | scaling
    DynamicalSystem* g = S(0);
    outh(static_cast<DynamicalSystem*>(new Dmp(D(0), V(1), V(2), FS(3), D(3), dynamic_cast<ExponentialSystem*>(g), S(1), S(2), T.at(0), V(4))));
  }
  else if (c == "dmp_sub_n") outh(static_cast<DynamicalSystem*>(new Dmp(stoi(T.at(1)), FS(3), D(0), dynamic_cast<ExponentialSystem*>(S(0)), S(1), S(2), T.at(0), V(1))));
  else if (c == "dmp_goal") outh(static_cast<DynamicalSystem*>(new Dmp(D(0), V(1), V(2), D(3), H.size() ? dynamic_cast<ExponentialSystem*>(S(0)) : NULL)));
  else if (c == "ufa") outh(static_cast<FunctionApproximator*>(new UFA(T.at(0))));
  else if (c == "lwr") outh(static_cast<FunctionApproximator*>(T.size() ? new FunctionApproximatorLWR(M.at(0), M.at(1), M.at(2), M.at(3), T[0] == "1") :
                    new FunctionApproximatorLWR(M.at(0), M.at(1), M.at(2), M.at(3))));
  else if (c == "rbfn") outh(static_cast<FunctionApproximator*>(new FunctionApproximatorRBFN(M.at(0), M.at(1), M.at(2))));
  else if (c == "predict") { MatrixXd o; F()->predict(M.at(0), o); out(o); out(M[0]); }
  else if (c == "predict_rt") { VectorXd o(1); RowVectorXd x = M.at(0).row(0); RT_BEGIN F()->predictRealTime(x, o); RT_END outv(o); outv(x.transpose()); }
  else if (c == "gauss") { MatrixXd o; BasisFunction::Gaussian::activations(M.at(0), M.at(1), M.at(2), o, T.at(0) == "1", T.at(1) == "1"); out(o); }
  else if (c == "gauss_full") {      // centers (n x d), covars stacked ((n*d) x d), priors, inputs
    vector<VectorXd> mu; vector<MatrixXd> cv; vector<double> pr; int d = M[0].cols();
    for (int i = 0; i < M[0].rows(); i++) { mu.push_back(M[0].row(i)); cv.push_back(M[1].block(i * d, 0, d, d)); pr.push_back(M[2](i)); }
    MatrixXd o; BasisFunction::Gaussian::activations(mu, cv, pr, M.at(3), o, T.at(0) == "1"); out(o);
  }
  else if (c == "cosine") { MatrixXd o; BasisFunction::Cosine::activations(M.at(0), V(1), M.at(2), o); out(o); }
  else if (c == "traj") outh(M.size() > 4 ? new Trajectory(V(0), M[1], M[2], M[3], M[4]) : new Trajectory(V(0), M[1], M[2], M[3]));
  else if (c == "min_jerk") outh(new Trajectory(Trajectory::generateMinJerkTrajectory(V(0), V(1), V(2))));
  else if (c == "poly") outh(new Trajectory(Trajectory::generatePolynomialTrajectory(V(0), V(1), V(2), V(3), V(4), V(5), V(6))));
  else if (c == "viapoint") outh(new Trajectory(Trajectory::generatePolynomialTrajectoryThroughViapoint(V(0), V(1), V(2), D(3), V(4))));
  else if (c == "traj_get") outj(*J());
  else if (c == "traj_info") { outs(J()->length()); outs(J()->dim()); outs(J()->dim_misc()); outs(J()->duration()); outv(J()->initial_y()); outv(J()->final_y()); }
  else if (c == "traj_range") outv(J()->getRangePerDim());
  else if (c == "traj_append") J(0)->append(*J(1));
  else if (c == "traj_misc") J()->set_misc(M.at(0));
  else if (c == "traj_matrix") { MatrixXd m; J()->asMatrix(m); out(m); }
  else if (c == "traj_save") outs(T.size() > 2 ? J()->saveToFile(T[0], T[1], T[2] == "1") : J()->saveToFile(T[0], T.at(1) == "1"));
  else if (c == "traj_read") outh(new Trajectory(Trajectory::readFromFile(T.at(0), stoi(T.at(1)))));
  else if (c == "save_matrix") outs(T.size() > 2 ? saveMatrix(T[0], T[1], M.at(0), T[2] == "1") : saveMatrix(T[0], M.at(0), T.at(1) == "1"));
  else if (c == "load_matrix") { MatrixXd m; bool ok = loadMatrix(T.at(0), m); outs(ok); out(m); }
  else if (c == "matrix_json") { nlohmann::json j = nlohmann::json::parse(T.at(0)); MatrixXd m = j; out(m); VectorXd v; if (m.cols() <= 1) { v = j.get<VectorXd>(); outv(v); } }
#if __has_include("runSimulationThrowBall.hpp")
  else if (c == "throw_ball") {      // dts | positions velocities accelerations of the hand, one row per step; several simulations
    MatrixXd o; ThrowBallSimulator s;
    for (int i = 0; i < M.at(1).rows(); i++) {
      VectorXd r = M[1].row(i);
      s.integrateStep(M[0](i), r.segment(0, 2), r.segment(2, 2), r.segment(4, 2));
      VectorXd st = s.getState();
      if (!i) o.resize(M[1].rows(), s.getStateSize());
      if (st.size() != o.cols()) throw runtime_error("size of the state");
      o.row(i) = st.transpose();
    }
    out(o);
  }
#endif
  else if (c == "delete_sys") delete S();
  else if (c == "delete_fa") delete F();
  else throw runtime_error("unknown command " + c);
}

static sigjmp_buf jump;
static volatile bool in_call = false;
static void on_signal(int s) { if (in_call) siglongjmp(jump, s); signal(s, SIG_DFL); raise(s); }
// 20 s of processor time in this library without one call of the engine: an endless loop
static long ticks_at = -1;
static int ticks = 0;
static void on_tick(int s)
{
  if (!in_call || in_callback || ticks_at != n_callbacks) { ticks_at = n_callbacks; ticks = 0; return; }
  if (++ticks >= 4) { ticks = 0; siglongjmp(jump, s); }
}

extern "C" {
// 0 ok, 1 error (text), 2 abandoned by the engine
#ifdef VERIF_SYM
typedef int Raw;
#define RAW_IN(x) verif::Sym::of(x)
#define RAW_OUT(x) ((x).id == -1 ? -1 : verif::res((x).get()))
#else
typedef double Raw;
#define RAW_IN(x) (x)
#define RAW_OUT(x) (x)
#endif
int verif_call(const char* cmd, int nh, const long* h, int nt, const char** t, int nm, const int* dims, const Raw* data)
{
  static ostringstream null;
  cout.rdbuf(null.rdbuf());
  cerr.rdbuf(null.rdbuf());
  null.str("");
  OM.clear(); OV.clear(); OH.clear(); OT.clear(); M.clear(); H.clear(); T.clear();
  last_error.clear();
  Eigen::internal::set_is_malloc_allowed(true);
  int r = 0;
  struct sigaction sa, old[4];
  static const int sigs[4] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS};
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  for (int i = 0; i < 4; i++) sigaction(sigs[i], &sa, &old[i]);
  static char alt[65536];
  stack_t st = {alt, 0, sizeof(alt)}, old_st;
  sigaltstack(&st, &old_st);
  struct sigaction tick, old_tick;
  memset(&tick, 0, sizeof(tick));
  tick.sa_handler = on_tick;
  tick.sa_flags = SA_RESTART | SA_NODEFER;
  sigaction(SIGVTALRM, &tick, &old_tick);
  struct itimerval every = {{5, 0}, {5, 0}}, never = {{0, 0}, {0, 0}};
  setitimer(ITIMER_VIRTUAL, &every, NULL);
  in_callback = 0;
  in_call = true;
  if (int sg = sigsetjmp(jump, 1)) {
    last_error = sg == SIGVTALRM ? string("the call does not end") : string("crash: ") + strsignal(sg);
    r = 1;
  } else try {
    for (int i = 0; i < nh; i++) H.push_back(h[i]);
    for (int i = 0; i < nt; i++) T.push_back(t[i]);
    for (int i = 0; i < nm; i++) {
      MatrixXd m(dims[2 * i], dims[2 * i + 1]);
      for (int a = 0; a < m.rows(); a++)
        for (int b = 0; b < m.cols(); b++) m(a, b) = RAW_IN(*data++);
      M.push_back(m);
    }
    run(cmd);
  } catch (VerifAbort&) {
    r = 2;
  } catch (std::exception& e) {
    last_error = e.what();
    r = 1;
  }
  in_call = false;
  setitimer(ITIMER_VIRTUAL, &never, NULL);
  sigaction(SIGVTALRM, &old_tick, NULL);
  sigaltstack(&old_st, NULL);
  real_time = false;
  for (int i = 0; i < 4; i++) sigaction(sigs[i], &old[i], NULL);
  Eigen::internal::set_is_malloc_allowed(true);
  return r;
}
int verif_n_out() { return OM.size(); }
int verif_rows(int i) { return OM[i].rows(); }
int verif_cols(int i) { return OM[i].cols(); }
int verif_kind(int i) { return OV[i]; }
void verif_get(int i, Raw* to)
{
  for (int a = 0; a < OM[i].rows(); a++)
    for (int b = 0; b < OM[i].cols(); b++) *to++ = RAW_OUT(OM[i](a, b));
}
int verif_n_handles() { return OH.size(); }
long verif_handle(int i) { return OH[i]; }
const char* verif_text() { return OT.c_str(); }
const char* verif_error() { return last_error.c_str(); }
int verif_heap() { int n = n_heap; n_heap = 0; return n; }
const char* verif_functions()
{
  static string s;
  s.clear();
  for (void* f : entered) {
    Dl_info d;
    if (dladdr(f, &d) && d.dli_sname) {
      int st;
      char* n = abi::__cxa_demangle(d.dli_sname, 0, 0, &st);
      s += string(st == 0 ? n : d.dli_sname) + "\n";
      free(n);
    }
  }
  return s.c_str();
}
}
