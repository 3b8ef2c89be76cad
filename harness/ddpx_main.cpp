// C13 (malformed input), C15 (non-finite values), C16 (reuse), C17 (isolation) for DDPSolver<SD, UD>.
#if PROP == 16 || PROP == 17
#  define VERIF_DIVERGENCE_IS_VIOLATION
#endif
#if PROP == 16
#  define VERIF_ZERO_INIT
#  define VERIF_INTERPOSE
#elif PROP == 17
#  define VERIF_NO_NAN_INIT
#  define VERIF_INTERPOSE
#endif
#include "ddp_gen.h"
#include "coro.h"
using namespace verif;

struct UserError : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

// One call of solve() with its complete configuration.
struct Act
{
  int N = 3, k0 = 0, max_iter = 12, reg = 1, lim = 0, print = 0;
  int ux = 0, xx = 0;
  double lambda0 = 1e-4, lambda_max = 1e10;
  bool big_alpha = false;
  int fault_kind = -1, fault_nth = 0; // throw or NaN
  bool throws = false;
  double fault_val = std::numeric_limits<double>::quiet_NaN();
  int bad = 0; // malformed: 1 short 2 long 3 empty 4 wrong dimension of the last element
  int alias = 0; // 1: pass the solver's own inputs and state 2: only its own state
};

template<int S, int U>
void applyAct(DdpRun<S, U> & r, const Act & a)
{
  auto & cfg = r.solver->config();
  cfg.horizon_steps = a.N;
  cfg.max_iter = a.max_iter;
  cfg.reg_type = a.reg;
  cfg.initial_lambda = a.lambda0;
  cfg.lambda_max = a.lambda_max;
  cfg.print_level = a.print;
  cfg.alpha_list.resize(a.big_alpha ? 2 : 4);
  if(a.big_alpha)
    cfg.alpha_list << 40.0, 15.0;
  else
    cfg.alpha_list << 1.0, 0.5, 0.1, 0.01;
  r.env->k_start = a.k0;
  r.env->N = a.N;
  for(auto & n : r.env->nth) n = 0;
  LimitSpec l;
  l.kind = a.lim;
  if(a.lim)
    setLimits(r, l);
  else
    cfg.with_input_constraint = false;
  Act b = a;
  if(a.fault_kind >= 0)
    r.env->fault = [b](int kind, int, long nth) -> double
    {
      if(kind == b.fault_kind && nth == b.fault_nth)
      {
        if(b.throws) throw UserError("user callback failed");
        return b.fault_val;
      }
      return 0.0;
    };
  else
    r.env->fault = nullptr;
}
template<int S, int U>
void callArgs(const Model & md, const Act & a, Vec & x, std::vector<Vec> & us)
{
  x.clear();
  for(int i = 0; i < S; i++) x.push_back(a.xx == 0 ? (i == 0 ? 1.0 : -0.5) : (a.xx == 1 ? -2.0 + i : 0.0));
  us.clear();
  for(int k = 0; k < a.N; k++)
  {
    Vec u;
    for(int j = 0; j < md.m[a.k0 + k]; j++) u.push_back(a.ux == 0 ? 0.0 : (a.ux == 1 ? 0.4 - 0.2 * k : 3.0));
    us.push_back(u);
  }
}

struct Result
{
  std::vector<double> dur; // reported computation durations
  int code = 0; // 0: returned false 1: returned true 2: threw
  std::vector<double> obs;
};

template<int S, int U>
Result doCall(DdpRun<S, U> & r, const Act & a, const Vec * xo = nullptr, const std::vector<Vec> * uo = nullptr)
{
  using UV = typename DdpRun<S, U>::UV;
  using XV = typename DdpRun<S, U>::XV;
  Vec x;
  std::vector<Vec> us;
  applyAct(r, a);
  callArgs<S, U>(r.env->g.md, a, x, us);
  if(xo) x = *xo;
  if(uo) us = *uo;
  std::vector<UV> ul = r.inputs(us);
  if(a.bad == 1) ul.pop_back();
  if(a.bad == 2) ul.push_back(ul.empty() ? UV() : ul.back());
  if(a.bad == 3) ul.clear();
  if(a.bad == 4)
  {
    if constexpr(U == Eigen::Dynamic) ul.back() = UV::Constant(ul.back().size() + 1, 0.1);
  }
  XV xe = fromVec<XV>(x);
  std::vector<UV> ul0 = ul;
  XV xe0 = xe;
  Result res;
  try
  {
    if(a.alias && !xo)
      res.code = r.solver->solve(r.env->g.md.t0 + a.k0 * r.env->g.md.dt, r.solver->controlData().x_list[1],
                                 a.alias == 1 ? r.solver->controlData().u_list : ul);
    else
      res.code = r.solver->solve(r.env->g.md.t0 + a.k0 * r.env->g.md.dt, xe, ul);
  }
  catch(const UserError &)
  {
    res.code = 2;
  }
  catch(const std::invalid_argument &)
  {
    res.code = 3;
  }
  catch(const std::runtime_error &)
  {
    res.code = 3;
  }
  if(!(a.alias && !xo))
  {
    if(xe != xe0 || ul.size() != ul0.size()) fail("solve() modified its arguments");
    for(size_t i = 0; i < ul.size(); i++)
      if(ul[i].size() != ul0[i].size() || ul[i] != ul0[i]) fail("solve() modified its arguments");
  }
  if(!r.env->error.empty()) fail(r.env->error);
  res.obs = ddpObs(*r.solver, res.code == 1);
  const auto & cd = r.solver->computationDuration();
  res.dur = {cd.solve, cd.setup, cd.opt, cd.derivative, cd.backward, cd.forward, cd.Q, cd.reg, cd.gain};
  return res;
}

template<int S, int U>
Gen baseGen(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  o.slack_steps = 8;
  Gen g = genProblem(c, o);
  return g;
}

#if PROP == 16
static std::vector<Act> alphabet(bool dyn)
{
  std::vector<Act> A;
  Act a;
  A.push_back(a);
  a = Act(); a.N = 5; A.push_back(a);
  a = Act(); a.N = 1; a.k0 = 2; A.push_back(a);
  a = Act(); a.max_iter = 1; a.ux = 1; A.push_back(a);
  a = Act(); a.lim = 1; a.ux = 2; A.push_back(a);
  a = Act(); a.reg = 2; a.lambda0 = 1.0; a.k0 = 1; A.push_back(a);
  a = Act(); a.fault_kind = 0; a.fault_nth = 4; a.throws = true; A.push_back(a);
  a = Act(); a.fault_kind = 3; a.fault_nth = 2; a.throws = true; a.N = 4; A.push_back(a);
  a = Act(); a.bad = 1; A.push_back(a);
  a = Act(); a.bad = dyn ? 4 : 2; A.push_back(a);
  a = Act(); a.fault_kind = 4; a.fault_nth = 1; A.push_back(a);
  a = Act(); a.fault_kind = 1; a.fault_nth = 4; A.push_back(a);
  a = Act(); a.big_alpha = true; a.lambda_max = 1.0; a.xx = 1; A.push_back(a);
  a = Act(); a.max_iter = 0; a.N = 2; A.push_back(a);
  a = Act(); a.lim = 5; a.N = 4; a.k0 = 1; A.push_back(a);
  a = Act(); a.print = 3; a.xx = 1; A.push_back(a);
  a = Act(); a.alias = 1; A.push_back(a);
  a = Act(); a.alias = 2; a.N = 6; A.push_back(a);
  a = Act(); a.alias = 2; a.N = 2; a.k0 = 3; A.push_back(a);
  return A;
}

template<int S, int U>
void hist(Ctx & c)
{
  static const std::vector<Act> A = alphabet(U == Eigen::Dynamic);
  int len = c.thorough ? 4 : 3;
  std::vector<int> seq;
  for(int i = 0; i < len; i++) seq.push_back(c.free("call", A.size()));
  GenOpt o;
  o.n = S;
  o.mfix = U;
  o.slack_steps = 8;
  Gen g = genProblem(c, o);
  c.claim();
  DdpRun<S, U> r(g);
  bool have = false;
  for(int i = 0; i < len; i++)
  {
    Act a = A[seq[i]];
    if(a.alias && (!have || r.solver->controlData().x_list.size() < 2)) a.alias = 0;
    if(a.alias == 1)
    {
      // warm start with the solver's own data: only where the dimensions fit
      const auto & ul = r.solver->controlData().u_list;
      bool ok = (int)ul.size() == a.N;
      for(int k = 0; ok && k < a.N; k++) ok = ul[k].size() == g.md.m[a.k0 + k];
      if(!ok) a.alias = 0;
    }
    Vec xa;
    std::vector<Vec> ua;
    if(a.alias)
    {
      callArgs<S, U>(g.md, a, xa, ua);
      xa = toVec(r.solver->controlData().x_list[1]);
      if(a.alias == 1)
      {
        ua.clear();
        for(auto & u : r.solver->controlData().u_list) ua.push_back(toVec(u));
      }
    }
    Result res = doCall(r, a);
    DdpRun<S, U> f(g);
    Result want = doCall(f, a, a.alias ? &xa : nullptr, a.alias ? &ua : nullptr);
    if(res.code != want.code)
      fail("call " + std::to_string(i) + " on a reused solver ends with outcome " + std::to_string(res.code)
           + ", on a fresh one with " + std::to_string(want.code));
    std::string why;
    if(res.code < 2)
    {
      if(!sameObs(res.obs, want.obs, why)) fail("call " + std::to_string(i) + " on a reused solver differs from a fresh one: " + why);
      // the clock advances by one tick per reading: the durations reported are those of this call
      for(size_t d = 0; d < res.dur.size(); d++)
        if(std::abs(res.dur[d] - want.dur[d]) > 0.5 * want.dur[d] + 0.13)
          fail("call " + std::to_string(i) + " on a reused solver reports computation duration " + str(res.dur[d])
               + " ms (field " + std::to_string(d) + "), on a fresh one " + str(want.dur[d]));
      have = true;
    }
    c.traces();
    c.trans();
    c.outcome(res.code == 0 ? "false" : (res.code == 1 ? "true" : (res.code == 2 ? "user exception" : "rejected")));
    c.state(hashVec(mix(seq[i], res.code), res.obs));
  }
  c.nontrivialCase();
}
#endif

#if PROP == 13
template<int S, int U>
void bad(Ctx & c)
{
  using UV = typename DdpRun<S, U>::UV;
  using XV = typename DdpRun<S, U>::XV;
  int first = c.free("first", 3); // earlier valid call: none, same horizon, other horizon
  int kind = c.free("bad", 6);
  Act a;
  a.N = c.freeOf<int>("N", {3, 1, 2, 5});
  a.k0 = c.freeOf<int>("k0", {0, 1});
  a.lim = c.freeOf<int>("lim", {0, 1, 6});
  a.max_iter = c.freeOf<int>("max_iter", {5, 0});
  a.ux = c.free("ux", 2);
  int elem = kind >= 4 ? c.free("elem", a.N) : 0;
  Gen g = baseGen<S, U>(c);
  if(kind >= 4 && U != Eigen::Dynamic) throw SkipExecution();
  if(kind == 5 && g.md.m[a.k0 + elem] == 0) throw SkipExecution();
  if(kind == 0 && a.N == 1) throw SkipExecution(); // same as kind 2
  c.claim();
  DdpRun<S, U> r(g);
  std::vector<double> before;
  if(first)
  {
    Act p;
    p.N = first == 1 ? a.N : a.N + 1;
    doCall(r, p);
    before = ddpObs(*r.solver, false);
  }
  applyAct(r, a);
  Vec x;
  std::vector<Vec> us;
  callArgs<S, U>(g.md, a, x, us);
  std::vector<UV> ul = r.inputs(us);
  switch(kind)
  {
    case 0: ul.pop_back(); break;
    case 1: ul.push_back(ul.back()); break;
    case 2: ul.clear(); break;
    case 3:
      for(int i = 0; i < a.N; i++) ul.push_back(ul[i]);
      break;
    case 4:
      if constexpr(U == Eigen::Dynamic) ul[elem] = UV::Constant(g.md.m[a.k0 + elem] + 1, 0.2);
      break;
    case 5:
      if constexpr(U == Eigen::Dynamic) ul[elem] = UV::Constant(g.md.m[a.k0 + elem] - 1, 0.2);
      break;
  }
  bool threw = false;
  try
  {
    r.solver->solve(g.md.t0 + a.k0 * g.md.dt, fromVec<XV>(x), ul);
  }
  catch(const std::logic_error & e)
  {
    if(std::string(e.what()).find("Eigen assertion") != std::string::npos) fail(std::string("malformed initial inputs are not rejected: ") + e.what());
    threw = true;
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  if(!threw) fail("malformed initial inputs are accepted");
  if(!r.env->error.empty()) fail(r.env->error);
  if(first)
  {
    std::string why;
    if(!sameObs(ddpObs(*r.solver, false), before, why)) fail("a rejected call changed the returned control data: " + why);
  }
  // the solver stays usable
  Act v = a;
  Result res = doCall(r, v);
  DdpRun<S, U> f(g);
  Result want = doCall(f, v);
  std::string why;
  if(res.code > 1) fail("valid call after a rejected one is rejected");
  if(res.code != want.code || !sameObs(res.obs, want.obs, why)) fail("valid call after a rejected one differs from a fresh solver: " + why);
  c.traces();
  c.trans(2);
  c.outcome("rejected, kind " + std::to_string(kind));
  c.state(hashVec(kind, res.obs));
  c.nontrivialCase();
}
template<int V>
void boxCtor(Ctx & c)
{
  int d = c.freeOf<int>("dim", {-3, -1, 0, 1, 2, 3, 4, 7});
  bool want = d > 0 && (V == Eigen::Dynamic || d == V), got = true;
  try
  {
    nmpc_ddp::BoxQP<V> q(d);
  }
  catch(const std::exception &)
  {
    got = false;
  }
  if(got != want) fail("BoxQP<" + std::to_string(V) + ">(" + std::to_string(d) + ") is " + (got ? "accepted" : "rejected"));
  bool defok = true;
  try
  {
    nmpc_ddp::BoxQP<V> q;
  }
  catch(const std::exception &)
  {
    defok = false;
  }
  if(defok != (V != Eigen::Dynamic)) fail("default construction of BoxQP is wrong");
  c.outcome(got ? "accepted" : "rejected");
  c.state(mix(V + 9, d + 9));
  c.traces();
  c.trans();
  c.nontrivialCase();
}
template<int V>
struct Plain : public DdpGen<1, V>
{
  using DdpGen<1, V>::DdpGen;
};
// problem that does not override the dimension queries
struct NoOverride : public nmpc_ddp::DDPProblem<1, Eigen::Dynamic>
{
  NoOverride() : DDPProblem<1, Eigen::Dynamic>(0.1) {}
  using V = Eigen::Matrix<double, 1, 1>;
  using UV = Eigen::VectorXd;
  V stateEq(double, const V & x, const UV &) const override { return x; }
  double runningCost(double, const V &, const UV &) const override { return 0; }
  double terminalCost(double, const V &) const override { return 0; }
  void calcStateEqDeriv(double, const V &, const UV &, Eigen::Ref<V>, Eigen::Ref<Eigen::Matrix<double, 1, -1>>) const override {}
  void calcStateEqDeriv(double, const V &, const UV &, Eigen::Ref<V>, Eigen::Ref<Eigen::Matrix<double, 1, -1>>, std::vector<V> &, std::vector<Eigen::MatrixXd> &, std::vector<Eigen::Matrix<double, 1, -1>> &) const override {}
  void calcRunningCostDeriv(double, const V &, const UV &, Eigen::Ref<V>, Eigen::Ref<UV>) const override {}
  void calcRunningCostDeriv(double, const V &, const UV &, Eigen::Ref<V>, Eigen::Ref<UV>, Eigen::Ref<V>, Eigen::Ref<Eigen::MatrixXd>, Eigen::Ref<Eigen::Matrix<double, 1, -1>>) const override {}
  void calcTerminalCostDeriv(double, const V &, Eigen::Ref<V>) const override {}
  void calcTerminalCostDeriv(double, const V &, Eigen::Ref<V>, Eigen::Ref<V>) const override {}
};
static void dimQuery(Ctx & c)
{
  int w = c.free("query", 3);
  bool threw = false;
  int got = -7;
  try
  {
    if(w == 0) got = NoOverride().inputDim();
    if(w == 1) got = NoOverride().inputDim(0.3);
    if(w == 2)
    {
      Gen g;
      auto env = std::make_shared<Env>();
      env->g = g;
      DdpGen<1, 2> p(env);
      const nmpc_ddp::DDPProblem<1, 2> & b = p;
      got = b.inputDim();
      if(got != 2 || b.nmpc_ddp::DDPProblem<1, 2>::inputDim(0.7) != 2 || b.stateDim() != 1) fail("fixed dimension query is wrong");
    }
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  if(threw != (w < 2)) fail("dimension query without the needed time or override is not rejected");
  c.state(w);
  c.traces();
  c.trans();
  c.nontrivialCase();
  c.outcome(threw ? "rejected" : "answered");
}
#endif

#if PROP == 15
template<int S, int U>
void faults(Ctx & c)
{
  Gen g = baseGen<S, U>(c);
  Act a;
  a.lim = c.devOf<int>("lim", {0, 1});
  a.reg = c.devOf<int>("reg", {1, 2});
  a.max_iter = c.devOf<int>("max_iter", {8, 2});
  a.N = g.N;
  a.k0 = g.k0;
  a.lambda0 = c.freeOf<double>("lambda0", {1e-4, 0.0});
  int kind = c.free("kind", 6), val = c.free("value", 3), mode = c.free("mode", c.thorough ? 3 : 2);
  int nth = c.free("nth", c.thorough ? 24 : 14);
  c.claim();
  static const double vals[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
  DdpRun<S, U> r(g);
  applyAct(r, a);
  bool fired = false, fired_init = false;
  long init_calls = kind == 2 ? 1 : g.N; // calls of value callbacks in the initial rollout
  r.env->fault = [&](int k, int, long i) -> double
  {
    if(k != kind) return 0;
    bool hit = mode == 0 ? i == nth : (mode == 1 ? i >= nth : (i >= nth && (i - nth) % 3 == 0));
    if(!hit) return 0;
    fired = true;
    if(kind <= 2 && i < init_calls) fired_init = true;
    return vals[val];
  };
  Vec x;
  std::vector<Vec> us;
  callArgs<S, U>(g.md, a, x, us);
  bool ok = r.solver->solve(g.md.t0 + a.k0 * g.md.dt, fromVec<typename DdpRun<S, U>::XV>(x), r.inputs(us));
  if(!r.env->error.empty()) fail(r.env->error);
  const auto & cd = r.solver->controlData();
  bool fin = true;
  for(auto & v : cd.x_list) fin = fin && v.allFinite();
  for(auto & v : cd.u_list) fin = fin && v.allFinite();
  bool cfin = cd.cost_list.allFinite();
  if(ok && !(fin && cfin)) fail("solve() reports success, but the returned control data is not finite");
  if(!fired_init && !(fin && cfin)) fail("returned control data is not finite although the initial rollout was");
  Gen gg = g;
  gg.x0 = x;
  if(ok)
  {
    // judged against the fault-free problem
    DdpRef ref = refRollout(gg, *r.solver);
    for(size_t i = 0; i < ref.X.size(); i++)
      for(int j = 0; j < S; j++)
        if(!close(cd.x_list[i](j), ref.X[i][j], 1e-7, 1e-7)) fail("solve() reports success on states that are not those of the returned inputs");
    for(size_t i = 0; i < ref.cost.size(); i++)
      if(!close(cd.cost_list(i), ref.cost[i], 1e-7, 1e-7 * (1 + std::abs((double)sumv(ref.cost))))) fail("solve() reports success with costs that are not those of the returned inputs");
  }
  c.outcome(std::string(fired ? "fault hit, " : "no fault, ") + (ok ? "success" : "no success"));
  c.trans(r.env->calls);
  auto u_fault = cd.u_list;
  // fault-free call afterwards
  Result res = doCall(r, a);
  DdpRun<S, U> f(g);
  Result want = doCall(f, a);
  if(ok && fired && g.linear && want.code == 1)
  {
    // linear-quadratic: success means the optimum, fault or not
    const auto & uo = f.solver->controlData().u_list;
    double d = 0, sc = 1;
    for(size_t i = 0; i < uo.size(); i++)
      for(int j = 0; j < uo[i].size(); j++)
      {
        d = std::max(d, std::abs(uo[i](j) - u_fault[i](j)));
        sc = std::max(sc, std::abs(uo[i](j)));
      }
    if(!(d <= 2e-2 * sc)) fail("solve() reports success although its inputs are " + str(d) + " away from the optimum");
    c.outcome("success after a fault is optimal");
  }
  std::string why;
  if(res.code != want.code || !sameObs(res.obs, want.obs, why)) fail("fault-free call after a fault differs from a fresh solver: " + why);
  c.traces();
  c.state(hashVec(mix(kind * 3 + val, ok), res.obs));
  if(fired) c.nontrivialCase();
}
#endif

#if PROP == 17
template<int S, int U>
struct Job
{
  Gen g;
  Act a;
  std::unique_ptr<DdpRun<S, U>> r;
  Result res;
  Job(const Gen & gg, const Act & aa) : g(gg), a(aa), r(new DdpRun<S, U>(gg)) {}
  void run()
  {
    res = doCall(*r, a);
  }
};
static Act actOf(int k)
{
  Act a;
  a.N = 2;
  a.max_iter = 2;
  switch(k)
  {
    case 1: a.lim = 1; a.ux = 2; break;
    case 2: a.N = 3; a.k0 = 1; a.xx = 1; a.reg = 2; a.lambda0 = 1.0; break;
    case 3: a.big_alpha = true; a.lambda_max = 10.0; a.lim = 2; break;
    case 4: a.lim = 5; a.N = 1; a.k0 = 1; a.ux = 1; break;
    case 5: a.fault_kind = 0; a.fault_nth = 3; a.throws = true; break;
  }
  return a;
}
// DEEP: only callback boundaries, with a higher preemption bound
template<int S, int U, int S2, int U2, bool DEEP = false>
void inter(Ctx & c)
{
  int pts = DEEP ? 0 : c.free("points", 3); // 0: callbacks 1: + clock reads 2: + allocations
  int ka = c.free("jobA", 4), kb = c.free("jobB", 6);
  if(pts == 2 && !c.thorough && (ka == 2 || kb == 2 || kb == 5)) throw SkipExecution();
  Gen ga, gb;
  {
    GenOpt o;
    o.n = S;
    o.mfix = U;
    o.slack_steps = 6;
    Ctx z;
    z.begin({});
    ga = genProblem(z, o);
    o.n = S2;
    o.mfix = U2;
    Ctx z2;
    z2.begin({});
    gb = genProblem(z2, o);
    ga.md.nf = 0.3;
    gb.md.nl = 0.4;
    gb.md.dt = 0.35;
  }
  int first = c.free("first", 2);
  AllocCtl::get().yield = false;
  ClockCtl::get().yield = false;
  ClockCtl::get().mode = 0;
  Job<S, U> a0(ga, actOf(ka));
  Job<S2, U2> b0(gb, actOf(kb));
  Job<S, U> a1(ga, actOf(ka));
  Job<S2, U2> b1(gb, actOf(kb));
  static std::map<int, Result> alone; // results without interleaving, computed once per worker
  a0.run();
  b0.run();
  Sched s;
  long steps = 0;
  bool skip = false; // another worker's share: run to the end without further decisions (nothing may be thrown here,
                     // clock readings are noexcept)
  s.choose = [&](int, int) -> int
  {
    steps++;
    if(skip) return 0;
    if(steps == 4)
    {
      try
      {
        c.claim();
      }
      catch(const SkipExecution &)
      {
        skip = true;
        return 0;
      }
    }
    return c.dev("preempt", 2);
  };
  a1.r->env->point = [](int) { Sched::point(); };
  b1.r->env->point = [](int) { Sched::point(); };
  s.add([&]() { a1.run(); });
  s.add([&]() { b1.run(); });
  ClockCtl::get().yield = pts >= 1;
  AllocCtl::get().yield = pts >= 2;
  try
  {
    s.run(first);
  }
  catch(...)
  {
    ClockCtl::get().yield = false;
    AllocCtl::get().yield = false;
    Sched::active() = nullptr;
    throw;
  }
  ClockCtl::get().yield = false;
  AllocCtl::get().yield = false;
  if(skip) throw SkipExecution();
  if(s.points == 0)
  {
    fprintf(stderr, "internal error: no scheduling point was reached\n");
    _exit(2);
  }
  std::string why;
  if(a0.res.code != a1.res.code || !sameObs(a0.res.obs, a1.res.obs, why)) fail("a solve interleaved with another one differs from the solve alone: " + why);
  if(b0.res.code != b1.res.code || !sameObs(b0.res.obs, b1.res.obs, why)) fail("a solve interleaved with another one differs from the solve alone: " + why);
  c.trans(s.switches);
  c.traces(2);
  c.state(mix(hashVec(1, a1.res.obs), hashVec(s.switches, b1.res.obs)));
  c.outcome("switches " + std::to_string(s.switches));
  if(s.switches > 0) c.nontrivialCase();
}
template<int S, int U>
void environment(Ctx & c)
{
  Gen g = baseGen<S, U>(c);
  Act a = actOf(c.free("job", 6));
  a.max_iter = 6;
  int clock = c.free("clock", 5), fill = c.free("fill", 4), print = c.free("print", 4);
  c.claim();
  static const int bytes[] = {0x00, 0xff, 0x5a, 0x3f};
  auto once = [&](int cl, int fi, int pr)
  {
    ClockCtl::get().mode = cl;
    ClockCtl::get().n = 0;
    AllocCtl::get().fill = bytes[fi];
    Act b = a;
    b.print = pr;
    Result res;
    {
      DdpRun<S, U> r(g);
      paintStack(bytes[fi]);
      res = doCall(r, b);
    }
    AllocCtl::get().fill = -1;
    ClockCtl::get().mode = 0;
    return res;
  };
  Result x = once(0, 0, 0), y = once(clock, fill, print);
  std::string why;
  if(x.code != y.code || !sameObs(x.obs, y.obs, why)) fail("result depends on clock, memory contents or print level: " + why);
  c.trans();
  c.traces();
  c.outcome("outcome " + std::to_string(y.code));
  c.state(hashVec(a.N, y.obs));
  c.nontrivialCase();
}
#endif

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#if PROP == 16
  sp.push_back({"histories", hist<SD, UD>, 1, 1});
#elif PROP == 13
  sp.push_back({"malformed", bad<SD, UD>, 1, 2});
#  ifdef BOXCTOR
  sp.push_back({"boxqp_ctor1", boxCtor<1>, 0, 0});
  sp.push_back({"boxqp_ctor3", boxCtor<3>, 0, 0});
  sp.push_back({"boxqp_ctorD", boxCtor<-1>, 0, 0});
  sp.push_back({"dim_query", dimQuery, 0, 0});
#  endif
#elif PROP == 15
  sp.push_back({"faults", faults<SD, UD>, 1, 2});
#elif PROP == 17
  sp.push_back({"environment", environment<SD, UD>, 1, 2});
  sp.push_back({"interleave_same", inter<SD, UD, SD, UD>, 1, 2});
  sp.push_back({"interleave_other", inter<SD, UD, 1, -1>, 1, 2});
  sp.push_back({"interleave_callbacks", inter<SD, UD, SD, UD, true>, 2, 3});
#endif
  return exploreMain(argc, argv, sp);
}
