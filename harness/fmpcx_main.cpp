// C13 (malformed input), C15 (non-finite values), C16 (reuse), C17 (isolation) for FmpcSolver<SD, UD, GD>.
#if PROP == 16 || PROP == 17
#  define VERIF_DIVERGENCE_IS_VIOLATION
#endif
#if PROP == 16
#  define VERIF_ZERO_INIT
#  define VERIF_INTERPOSE
#elif PROP == 17
#  define VERIF_NO_NAN_INIT
#  define VERIF_INTERPOSE
#  include "ddp_gen.h"
#  define calcDuration calcDurationFmpc // both solver headers define this helper
#endif
#include "fmpc_common.h"
#include "coro.h"
using namespace verif;

struct UserError : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

// One call of solve() with its complete configuration.
struct Act
{
  int N = 3, k0 = 0, max_iter = 6, print = 0;
  double thre = 1e-4;
  bool check_nan = true, init = false, update = true, ls = false, msc = false, brk = false;
  int gx = 0, xx = 0, gs = 0;
  int fault_kind = -1, fault_nth = 0;
  bool throws = false;
  double fault_val = std::numeric_limits<double>::quiet_NaN();
  int bad = 0; // 1: short u 2: long x 3: negative slack 4: short nu
  int alias = 0; // 1: pass the solver's own variable and state 2: only its own state
};

template<int S, int U, int G>
void applyAct(FmpcRun<S, U, G> & r, const Act & a)
{
  auto & cfg = r.solver->config();
  cfg.horizon_steps = a.N;
  cfg.max_iter = a.max_iter;
  cfg.kkt_error_thre = a.thre;
  cfg.check_nan = a.check_nan;
  cfg.init_complementary_variable = a.init;
  cfg.update_barrier_eps = a.update;
  cfg.enable_line_search = a.ls;
  cfg.merit_const_scale_from_lagrange_multipliers = a.msc;
  cfg.break_if_llt_fails = a.brk;
  cfg.print_level = a.print;
  r.env->k_start = a.k0;
  r.env->N = a.N;
  for(auto & n : r.env->nth) n = 0;
  Act b = a;
  if(a.fault_kind >= 0)
    r.env->fault = [b](int kind, int, long nth) -> double
    {
      if(kind == b.fault_kind && nth == b.fault_nth)
      {
        if(b.throws) throw UserError("user callback failed");
        return b.fault_val;
      }
      return 0.0;
    };
  else
    r.env->fault = nullptr;
}
static Vec argX(int n, const Act & a)
{
  Vec x;
  for(int i = 0; i < n; i++) x.push_back(a.xx == 0 ? (i == 0 ? 1.0 : -0.5) : (a.xx == 1 ? -2.0 + i : 0.0));
  return x;
}
static Vars argV(const Model & md, const Act & a)
{
  Vars v;
  for(int i = 0; i <= a.N; i++)
  {
    Vec x(md.n), l(md.n);
    for(int j = 0; j < md.n; j++)
    {
      x[j] = a.gx == 0 ? 0.2 * tabv(i + j) : (a.gx == 1 ? 0.0 : 0.5 - 0.3 * i);
      l[j] = a.gx == 0 ? 0.1 * tabv(2 * i + j) : (a.gx == 1 ? 0.0 : 1.0 - 0.5 * i);
    }
    v.x.push_back(x);
    v.lam.push_back(l);
    if(i == a.N) break;
    Vec u, s, nu;
    for(int j = 0; j < md.m[a.k0 + i]; j++) u.push_back(a.gx == 0 ? 0.0 : 0.4 - 0.2 * i);
    for(int j = 0; j < md.p[a.k0 + i]; j++)
    {
      s.push_back(a.gs == 0 ? 0.5 + 0.25 * ((i + j) % 3) : 1.0);
      nu.push_back(a.gs == 0 ? 0.4 + 0.2 * ((i + 2 * j) % 3) : 0.05);
    }
    v.u.push_back(u);
    v.s.push_back(s);
    v.nu.push_back(nu);
  }
  if(a.gx == 3)
  {
    // exactly feasible guess: rollout from the given state, slacks that close the inequalities without error
    v.x[0] = argX(md.n, a);
    for(int i = 0; i < a.N; i++)
    {
      for(auto & d : v.u[i]) d = 0.05;
      v.x[i + 1] = md.f<double>(a.k0 + i, v.x[i], v.u[i]);
      Vec g = md.g<double>(a.k0 + i, v.x[i], v.u[i]);
      for(size_t j = 0; j < g.size(); j++)
        if(g[j] < 0) v.s[i][j] = -g[j];
    }
  }
  return v;
}

struct Result
{
  std::vector<double> dur; // reported computation durations
  int code = 0; // status, 20: user exception 30: rejected
  std::vector<double> obs;
  bool returned() const
  {
    return code < 20;
  }
};

template<int S, int U, int G>
bool sameVariable(const typename FmpcRun<S, U, G>::Variable & a, const typename FmpcRun<S, U, G>::Variable & b)
{
  auto cmp = [](const auto & p, const auto & q)
  {
    if(p.size() != q.size()) return false;
    for(size_t i = 0; i < p.size(); i++)
    {
      if(p[i].size() != q[i].size()) return false;
      for(int j = 0; j < p[i].size(); j++)
        if(!(p[i](j) == q[i](j) || (std::isnan(p[i](j)) && std::isnan(q[i](j))))) return false;
    }
    return true;
  };
  return cmp(a.x_list, b.x_list) && cmp(a.u_list, b.u_list) && cmp(a.lambda_list, b.lambda_list)
         && cmp(a.s_list, b.s_list) && cmp(a.nu_list, b.nu_list) && a.print_level == b.print_level
         && a.horizon_steps == b.horizon_steps;
}

template<int S, int U, int G>
Result doCall(FmpcRun<S, U, G> & r, const Act & a, const Vec * xo = nullptr, const Vars * vo = nullptr)
{
  using R = FmpcRun<S, U, G>;
  using XV = typename R::XV;
  applyAct(r, a);
  const Model & md = r.env->g.md;
  Vec x = argX(S, a);
  Vars v = argV(md, a);
  if(xo) x = *xo;
  if(vo) v = *vo;
  typename R::Variable var = R::toVariable(v);
  if(a.bad == 1) var.u_list.pop_back();
  if(a.bad == 2) var.x_list.push_back(var.x_list.back());
  if(a.bad == 3)
    for(auto & s : var.s_list) s.setConstant(-0.25);
  if(a.bad == 4) var.nu_list.pop_back();
  XV xe = fromVec<XV>(x), xe0 = xe;
  typename R::Variable var0 = var;
  Result res;
  double t = md.t0 + a.k0 * md.dt;
  try
  {
    if(a.alias && !xo)
      res.code = static_cast<int>(
          r.solver->solve(t, r.solver->variable().x_list[1], a.alias == 1 ? r.solver->variable() : var));
    else
      res.code = static_cast<int>(r.solver->solve(t, xe, var));
  }
  catch(const UserError &)
  {
    res.code = 20;
  }
  catch(const std::invalid_argument &)
  {
    res.code = 30;
  }
  catch(const std::runtime_error &)
  {
    res.code = 30;
  }
  if(!(a.alias && !xo))
    if(xe != xe0 || !sameVariable<S, U, G>(var, var0)) fail("solve() modified its arguments");
  if(!r.env->error.empty()) fail(r.env->error);
  res.obs = fmpcObs(*r.solver, res.code);
  const auto & cd = r.solver->computationDuration();
  res.dur = {cd.solve, cd.setup, cd.opt, cd.coeff, cd.backward, cd.forward, cd.update, cd.gain_pre, cd.gain_solve, cd.gain_post, cd.fraction};
  return res;
}

template<int S, int U, int G>
Gen baseGen(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  o.pfix = G;
  o.slack_steps = 8;
  return genProblem(c, o);
}

#if PROP == 16
static std::vector<Act> alphabet()
{
  std::vector<Act> A;
  Act a;
  A.push_back(a);
  a = Act(); a.N = 5; A.push_back(a);
  a = Act(); a.N = 1; a.k0 = 2; a.gs = 1; A.push_back(a);
  a = Act(); a.max_iter = 1; a.gx = 1; A.push_back(a);
  a = Act(); a.init = true; a.gx = 2; A.push_back(a);
  a = Act(); a.init = true; a.update = false; a.k0 = 1; A.push_back(a);
  a = Act(); a.ls = true; a.xx = 1; A.push_back(a);
  a = Act(); a.ls = true; a.msc = true; a.N = 4; a.k0 = 1; A.push_back(a);
  a = Act(); a.fault_kind = 0; a.fault_nth = 4; a.throws = true; A.push_back(a);
  a = Act(); a.fault_kind = 7; a.fault_nth = 1; a.throws = true; a.N = 4; a.init = true; A.push_back(a);
  a = Act(); a.bad = 1; A.push_back(a);
  a = Act(); a.bad = 4; a.init = true; a.N = 2; A.push_back(a);
  a = Act(); a.bad = 3; A.push_back(a);
  a = Act(); a.fault_kind = 4; a.fault_nth = 4; A.push_back(a);
  a = Act(); a.fault_kind = 3; a.fault_nth = 1; a.check_nan = false; a.ls = true; A.push_back(a);
  a = Act(); a.max_iter = 0; a.N = 2; a.print = 3; A.push_back(a);
  a = Act(); a.gx = 3; a.xx = 2; a.ls = true; a.max_iter = 3; A.push_back(a);
  a = Act(); a.alias = 1; a.max_iter = 2; A.push_back(a);
  a = Act(); a.alias = 2; a.N = 6; A.push_back(a);
  a = Act(); a.max_iter = 40; a.thre = 1e-6; a.xx = 2; a.brk = true; A.push_back(a);
  return A;
}

template<int S, int U, int G>
void hist(Ctx & c)
{
  static const std::vector<Act> A = alphabet();
  int len = c.thorough ? 4 : 3;
  std::vector<int> seq;
  for(int i = 0; i < len; i++) seq.push_back(c.free("call", A.size()));
  Gen g = baseGen<S, U, G>(c);
  c.claim();
  FmpcRun<S, U, G> r(g);
  bool have = false;
  for(int i = 0; i < len; i++)
  {
    Act a = A[seq[i]];
    if(a.alias && (!have || r.solver->variable().x_list.size() < 2)) a.alias = 0;
    if(a.alias == 1)
    {
      // warm start with the solver's own data: only where the dimensions fit
      const auto & v = r.solver->variable();
      bool ok = (int)v.u_list.size() == a.N;
      for(int k = 0; ok && k < a.N; k++)
        ok = v.u_list[k].size() == g.md.m[a.k0 + k] && v.s_list[k].size() == g.md.p[a.k0 + k]
             && v.nu_list[k].size() == g.md.p[a.k0 + k];
      if(!ok) a.alias = 0;
    }
    Vec xa;
    Vars va;
    if(a.alias)
    {
      xa = toVec(r.solver->variable().x_list[1]);
      va = a.alias == 1 ? r.vars() : argV(g.md, a);
    }
    Result res = doCall(r, a);
    FmpcRun<S, U, G> f(g);
    Result want = doCall(f, a, a.alias ? &xa : nullptr, a.alias ? &va : nullptr);
    if(res.code != want.code)
      fail("call " + std::to_string(i) + " on a reused solver ends with outcome " + std::to_string(res.code)
           + ", on a fresh one with " + std::to_string(want.code));
    std::string why;
    if(res.returned())
    {
      if(!sameObs(res.obs, want.obs, why)) fail("call " + std::to_string(i) + " on a reused solver differs from a fresh one: " + why);
      // the clock advances by one tick per reading: the durations reported are those of this call
      for(size_t d = 0; d < res.dur.size(); d++)
        if(std::abs(res.dur[d] - want.dur[d]) > 0.5 * want.dur[d] + 0.13)
          fail("call " + std::to_string(i) + " on a reused solver reports computation duration " + str(res.dur[d])
               + " ms (field " + std::to_string(d) + "), on a fresh one " + str(want.dur[d]));
      have = true;
      for(auto & x : r.solver->variable().x_list) have = have && x.allFinite();
    }
    else
      have = false;
    c.traces();
    c.trans();
    c.outcome(res.returned() ? "status " + std::to_string(res.code) : (res.code == 20 ? "user exception" : "rejected"));
    c.state(hashVec(mix(seq[i], res.code), res.obs));
  }
  c.nontrivialCase();
}
#endif

#if PROP == 13
template<int S, int U, int G>
void bad(Ctx & c)
{
  using R = FmpcRun<S, U, G>;
  using XV = typename R::XV;
  int first = c.free("first", 3); // earlier valid call: none, same horizon, other horizon
  int kind = c.free("bad", 7); // 0..3: length, 4: dimension+1, 5: dimension-1, 6: negative entry
  Act a;
  a.N = c.freeOf<int>("N", {3, 1, 2, 5});
  a.k0 = c.devOf<int>("k0", {0, 1});
  a.max_iter = c.devOf<int>("max_iter", {3, 0});
  a.init = c.free("init", 2);
  int opt = c.dev("opt", 4);
  a.ls = opt & 1;
  a.check_nan = !(opt & 1);
  a.update = !(opt & 2);
  if(!a.update && !a.init) throw SkipExecution(); // barrier parameter would carry over
  Gen g = baseGen<S, U, G>(c);
  Vars v = argV(g.md, a);
  std::vector<std::vector<Vec> *> lists = {&v.x, &v.u, &v.lam, &v.s, &v.nu};
  bool content = false; // only the contents of slacks or multipliers are malformed
  if(kind < 4)
  {
    auto & l = *lists[c.free("list", 5)];
    if(kind == 0) l.pop_back();
    if(kind == 1) l.push_back(l.back());
    if(kind == 2)
    {
      if(l.size() == 1) throw SkipExecution();
      l.clear();
    }
    if(kind == 3)
      for(size_t i = 0, n = l.size(); i < n; i++) l.push_back(l[i]);
  }
  else
  {
    int which = kind == 6 ? c.free("list", 2) + 1 : c.free("list", 3);
    int elem = c.free("elem", a.N);
    Vec & e = which == 0 ? v.u[elem] : (which == 1 ? v.s[elem] : v.nu[elem]);
    content = which > 0;
    if(kind == 6)
    {
      if(e.empty()) throw SkipExecution();
      int j = c.free("comp", 2);
      if(j >= (int)e.size()) throw SkipExecution();
      e[j] = c.freeOf<double>("neg", {-0.3, -1e-12, -1e300});
    }
    else
    {
      if((which == 0 ? U : G) != Eigen::Dynamic) throw SkipExecution();
      if(kind == 4)
        e.push_back(0.3);
      else
      {
        if(e.empty()) throw SkipExecution();
        e.pop_back();
      }
    }
  }
  c.claim();
  R r(g);
  if(first)
  {
    Act p;
    p.N = first == 1 ? a.N : a.N + 1;
    doCall(r, p);
  }
  applyAct(r, a);
  bool threw = false;
  int status = -1;
  try
  {
    status = static_cast<int>(r.solver->solve(g.md.t0 + a.k0 * g.md.dt, fromVec<XV>(argX(S, a)), R::toVariable(v)));
  }
  catch(const std::logic_error & e)
  {
    if(std::string(e.what()).find("Eigen assertion") != std::string::npos) fail(std::string("malformed initial variables are not rejected: ") + e.what());
    threw = true;
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  if(!r.env->error.empty()) fail(r.env->error);
  Act val = a;
  R f(g);
  Result want = doCall(f, val);
  std::string why;
  if(!threw)
  {
    if(!(content && a.init)) fail("malformed initial variables are accepted");
    // slacks and multipliers are set by the solver itself: what was passed must not matter
    if(status != want.code || !sameObs(fmpcObs(*r.solver, status), want.obs, why))
      fail("slacks and multipliers that the solver initialises itself still influence the result: " + why);
  }
  // the solver stays usable
  Result res = doCall(r, val);
  if(!res.returned()) fail("valid call after a rejected one is rejected");
  if(res.code != want.code || !sameObs(res.obs, want.obs, why)) fail("valid call after a rejected one differs from a fresh solver: " + why);
  c.traces();
  c.trans(2);
  c.outcome((threw ? "rejected, kind " : "irrelevant, kind ") + std::to_string(kind));
  c.state(hashVec(kind, res.obs));
  c.nontrivialCase();
}
// problem that does not override the dimension queries
template<int U, int G>
struct NoOverride : public FmpcGen<1, U, G>
{
  using FmpcGen<1, U, G>::FmpcGen;
  using B = nmpc_fmpc::FmpcProblem<1, U, G>;
  int inputDim(double t) const override { return B::inputDim(t); }
  int ineqDim(double t) const override { return B::ineqDim(t); }
  int inputDim() const override { return B::inputDim(); }
  int ineqDim() const override { return B::ineqDim(); }
};
template<int U, int G>
int query(int w)
{
  auto env = std::make_shared<Env>();
  NoOverride<U, G> p(env);
  try
  {
    switch(w)
    {
      case 0: return p.inputDim();
      case 1: return p.inputDim(0.3);
      case 2: return p.ineqDim();
      case 3: return p.ineqDim(0.3);
      case 4: return p.stateDim();
    }
  }
  catch(const std::exception &)
  {
  }
  return -99;
}
static void dimQuery(Ctx & c)
{
  int w = c.free("query", 5), type = c.free("type", 4);
  int u = type == 0 ? 2 : (type == 1 ? -1 : (type == 2 ? 3 : -1)), gg = type == 0 ? 3 : (type == 1 ? 2 : -1);
  int got = type == 0 ? query<2, 3>(w) : (type == 1 ? query<-1, 2>(w) : (type == 2 ? query<3, -1>(w) : query<-1, -1>(w)));
  int want = w == 4 ? 1 : (w < 2 ? u : gg);
  if(want == -1) want = -99;
  if(got != want) fail("dimension query answers " + std::to_string(got) + " instead of " + (want == -99 ? "throwing" : std::to_string(want)));
  c.state(w * 4 + type);
  c.traces();
  c.trans();
  c.nontrivialCase();
  c.outcome(want == -99 ? "rejected" : "answered");
}
#endif

#if PROP == 15
template<int S, int U, int G>
void faults(Ctx & c)
{
  Gen g = baseGen<S, U, G>(c);
  Act a;
  a.N = g.N;
  a.k0 = g.k0;
  a.max_iter = c.devOf<int>("max_iter", {30, 3});
  a.thre = c.devOf<double>("thre", {1e-4, 0.3});
  a.init = c.devOf<int>("init", {0, 1});
  a.brk = c.devOf<int>("brk", {0, 1});
  int opt = c.free("opt", 4);
  a.check_nan = !(opt & 1);
  a.ls = opt & 2;
  a.msc = c.devOf<int>("msc", {0, 1});
  int kind = c.free("kind", 8), val = c.free("value", 3), mode = c.free("mode", c.thorough ? 3 : 2);
  int nth = c.free("nth", c.thorough ? 24 : 14);
  if((kind == 1 || kind == 2) && !a.ls) throw SkipExecution(); // costs are only evaluated by the line search
  c.claim();
  static const double vals[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
  FmpcRun<S, U, G> r(g);
  applyAct(r, a);
  bool fired = false, fired_init = false;
  r.env->fault = [&](int k, int, long i) -> double
  {
    if(k != kind) return 0;
    bool hit = mode == 0 ? i == nth : (mode == 1 ? i >= nth : (i >= nth && (i - nth) % 3 == 0));
    if(!hit) return 0;
    fired = true;
    if(a.init && kind == 6 && i < g.N) fired_init = true;
    return vals[val];
  };
  Vec x = argX(S, a);
  Vars v0 = argV(g.md, a);
  int status;
  try
  {
    status = static_cast<int>(r.solver->solve(g.md.t0 + a.k0 * g.md.dt, fromVec<typename FmpcRun<S, U, G>::XV>(x), FmpcRun<S, U, G>::toVariable(v0)));
  }
  catch(const std::runtime_error &)
  {
    status = 30; // non-finite slacks from its own initialisation may be refused
    if(!fired_init) fail("solve() throws because of a non-finite value");
  }
  if(!r.env->error.empty()) fail(r.env->error);
  Vars v = r.vars();
  bool fin = finite(v.flat());
  if(status == 1)
  {
    if(!fin) fail("solve() reports success, but the returned variables are not finite");
    Kkt k = kkt(g, x, toLV(v));
    if(!(k.err <= a.thre * (1 + 1e-6) + 1e-9)) fail("solve() reports success, but the true KKT error is " + str((double)k.err));
  }
  if(a.check_nan && !fired_init && !fin) fail("returned variables are not finite although NaN checking is enabled");
  c.outcome(std::string(fired ? "fault hit, status " : "no fault, status ") + std::to_string(status));
  c.trans(r.env->calls);
  // fault-free call afterwards
  Result res = doCall(r, a);
  FmpcRun<S, U, G> f(g);
  Result want = doCall(f, a);
  std::string why;
  if(res.code != want.code || !sameObs(res.obs, want.obs, why)) fail("fault-free call after a fault differs from a fresh solver: " + why);
  c.traces();
  c.state(hashVec(mix(kind * 3 + val, status), res.obs));
  if(fired) c.nontrivialCase();
}
#endif

#if PROP == 17
template<int S, int U, int G>
struct Job
{
  Act a;
  std::unique_ptr<FmpcRun<S, U, G>> r;
  Result res;
  Job(const Gen & gg, const Act & aa) : a(aa), r(new FmpcRun<S, U, G>(gg)) {}
  void run()
  {
    res = doCall(*r, a);
  }
  Env & env()
  {
    return *r->env;
  }
  bool same(const Job & o, std::string & why) const
  {
    return res.code == o.res.code && sameObs(res.obs, o.res.obs, why);
  }
};
// a DDP solve with the same kind of problem
struct DdpJob
{
  std::unique_ptr<DdpRun<2, -1>> r;
  std::vector<double> obs;
  DdpJob(const Gen & gg, const Act & a) : r(new DdpRun<2, -1>(gg))
  {
    r->env->g.k0 = a.k0;
    r->env->g.N = a.N;
    r->env->k_start = a.k0;
    r->env->N = a.N;
    r->env->g.u0.clear();
    for(int i = 0; i < a.N; i++) r->env->g.u0.push_back(Vec(gg.md.m[a.k0 + i], 0.2));
    auto & cfg = r->solver->config();
    cfg.horizon_steps = a.N;
    cfg.max_iter = 2;
    LimitSpec l;
    l.kind = a.init ? 1 : 0;
    setLimits(*r, l);
  }
  void run()
  {
    bool ok = r->solve();
    if(!r->env->error.empty()) fail(r->env->error);
    obs = ddpObs(*r->solver, ok);
  }
  Env & env()
  {
    return *r->env;
  }
  bool same(const DdpJob & o, std::string & why) const
  {
    return sameObs(obs, o.obs, why);
  }
};
static Act actOf(int k)
{
  Act a;
  a.N = 2;
  a.max_iter = 2;
  a.thre = 1e-9;
  switch(k)
  {
    case 1: a.init = true; a.gx = 2; a.update = false; break;
    case 2: a.ls = true; a.xx = 1; a.N = 1; break;
    case 3: a.N = 3; a.k0 = 1; a.max_iter = 1; a.ls = true; a.msc = true; break;
    case 4: a.fault_kind = 0; a.fault_nth = 3; a.throws = true; break;
    case 5: a.fault_kind = 7; a.fault_nth = 2; a.check_nan = true; break;
  }
  return a;
}
template<class JA, class JB>
void interleave(Ctx & c, const Gen & ga, const Act & xa, const Gen & gb, const Act & xb, int pts, int first)
{
  AllocCtl::get().yield = false;
  ClockCtl::get().yield = false;
  ClockCtl::get().mode = 0;
  JA a0(ga, xa), a1(ga, xa);
  JB b0(gb, xb), b1(gb, xb);
  a0.run();
  b0.run();
  Sched s;
  long steps = 0;
  bool skip = false; // another worker's share: run to the end without further decisions (nothing may be thrown here,
                     // clock readings are noexcept)
  s.choose = [&](int, int) -> int
  {
    steps++;
    if(skip) return 0;
    if(steps == 4)
    {
      try
      {
        c.claim();
      }
      catch(const SkipExecution &)
      {
        skip = true;
        return 0;
      }
    }
    return c.dev("preempt", 2);
  };
  a1.env().point = [](int) { Sched::point(); };
  b1.env().point = [](int) { Sched::point(); };
  s.add([&]() { a1.run(); });
  s.add([&]() { b1.run(); });
  ClockCtl::get().yield = pts >= 1;
  AllocCtl::get().yield = pts >= 2;
  try
  {
    s.run(first);
  }
  catch(...)
  {
    ClockCtl::get().yield = false;
    AllocCtl::get().yield = false;
    Sched::active() = nullptr;
    throw;
  }
  ClockCtl::get().yield = false;
  AllocCtl::get().yield = false;
  if(skip) throw SkipExecution();
  if(s.points == 0)
  {
    fprintf(stderr, "internal error: no scheduling point was reached\n");
    _exit(2);
  }
  std::string why;
  if(!a0.same(a1, why)) fail("a solve interleaved with another one differs from the solve alone: " + why);
  if(!b0.same(b1, why)) fail("a solve interleaved with another one differs from the solve alone: " + why);
  c.trans(s.switches);
  c.traces(2);
  c.state(mix(s.switches, s.points));
  c.outcome("switches " + std::to_string(s.switches));
  if(s.switches > 0) c.nontrivialCase();
}
// DEEP: only callback boundaries, with a higher preemption bound
template<int S, int U, int G, bool DEEP = false>
void inter(Ctx & c)
{
  int other = c.free("other", 2); // second solve: FMPC / DDP
  int pts = DEEP ? 0 : c.free("points", 3); // 0: callbacks 1: + clock reads 2: + allocations
  int ka = c.free("jobA", 4), kb = c.free("jobB", other ? 2 : 6);
  if(pts == 2 && !c.thorough && (ka == 3 || kb == 3 || ka == 0 || kb == 0)) throw SkipExecution();
  int first = c.free("first", 2);
  auto mk = [](int n, int m, int p)
  {
    GenOpt o;
    o.n = n;
    o.mfix = m;
    o.pfix = p;
    o.slack_steps = 6;
    Ctx z;
    z.begin({});
    return genProblem(z, o);
  };
  Gen ga = mk(S, U, G), gb = other ? mk(2, -1, 0) : mk(S, U, G);
  ga.md.nf = 0.3;
  gb.md.nl = 0.4;
  gb.md.dt = 0.35;
  if(other)
    interleave<Job<S, U, G>, DdpJob>(c, ga, actOf(ka), gb, actOf(kb), pts, first);
  else
    interleave<Job<S, U, G>, Job<S, U, G>>(c, ga, actOf(ka), gb, actOf(kb), pts, first);
}
template<int S, int U, int G>
void environment(Ctx & c)
{
  Gen g = baseGen<S, U, G>(c);
  Act a = actOf(c.free("job", 6));
  a.max_iter = 4;
  int clock = c.free("clock", 5), fill = c.free("fill", 4), print = c.free("print", 4);
  c.claim();
  static const int bytes[] = {0x00, 0xff, 0x5a, 0x3f};
  auto once = [&](int cl, int fi, int pr)
  {
    ClockCtl::get().mode = cl;
    ClockCtl::get().n = 0;
    AllocCtl::get().fill = bytes[fi];
    Act b = a;
    b.print = pr;
    Result res;
    {
      FmpcRun<S, U, G> r(g);
      paintStack(bytes[fi]);
      res = doCall(r, b);
    }
    AllocCtl::get().fill = -1;
    ClockCtl::get().mode = 0;
    return res;
  };
  Result x = once(0, 0, 0), y = once(clock, fill, print);
  std::string why;
  if(x.code != y.code || !sameObs(x.obs, y.obs, why)) fail("result depends on clock, memory contents or print level: " + why);
  c.trans();
  c.traces();
  c.outcome("outcome " + std::to_string(y.code));
  c.state(hashVec(a.N, y.obs));
  c.nontrivialCase();
}
#endif

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#if PROP == 16
  sp.push_back({"histories", hist<SD, UD, GD>, 1, 1});
#elif PROP == 13
  sp.push_back({"malformed", bad<SD, UD, GD>, 1, 2});
#  ifdef DIMQ
  sp.push_back({"dim_query", dimQuery, 0, 0});
#  endif
#elif PROP == 15
  sp.push_back({"faults", faults<SD, UD, GD>, 1, 2});
#elif PROP == 17
  sp.push_back({"environment", environment<SD, UD, GD>, 1, 2});
  sp.push_back({"interleave", inter<SD, UD, GD>, 1, 2});
  sp.push_back({"interleave_callbacks", inter<SD, UD, GD, true>, 2, 3});
#endif
  return exploreMain(argc, argv, sp);
}
