// C23: reported computation durations, for DDPSolver<SD, UD> (-DDDP) or FmpcSolver<SD, UD, GD> (-DFMPC).
// The clock is the harness's: it advances only inside chosen user callbacks (exact attribution), or by one tick per
// reading (inclusion relations).
#define VERIF_INTERPOSE
#ifdef DDP
#  include "ddp_gen.h"
#else
#  include "fmpc_common.h"
#endif
#include "coro.h"
using namespace verif;

// One virtual clock: `value` nanoseconds, advanced by `tick` at each reading.
static void clockSet(long value, long tick)
{
  ClockCtl & k = ClockCtl::get();
  k.mode = 10;
  k.value = value;
  k.tick = tick;
}
static const double MS = 1e-6;
static void eq(double got, double want, double total, const char * what)
{
  if(!(std::abs(got - want) <= 1e-6 * (1 + std::abs(total)))) fail(std::string(what) + " is reported as " + str(got) + " ms, " + str(want) + " ms passed");
}
static void le(double a, double b, const char * what)
{
  if(!(a <= b + 1e-6 * (1 + std::abs(b)))) fail(std::string(what) + ": " + str(a) + " ms > " + str(b) + " ms");
}
static void ge0(double a, const char * what)
{
  if(!(a >= 0)) fail(std::string("duration of ") + what + " is " + str(a) + " ms");
}

#ifdef DDP
using R = DdpRun<SD, UD>;
static const int K = 6;
#else
using R = FmpcRun<SD, UD, GD>;
static const int K = 8;
static Vars guess(const Gen & g, int N, int k0, int kind)
{
  Vars v;
  for(int i = 0; i <= N; i++)
  {
    Vec x(g.md.n, kind ? 0.3 : 0.0), l(g.md.n, kind ? 0.2 : 0.0);
    v.x.push_back(x);
    v.lam.push_back(l);
    if(i == N) break;
    v.u.push_back(Vec(g.md.m[k0 + i], 0.1));
    v.s.push_back(Vec(g.md.p[k0 + i], 0.5));
    v.nu.push_back(Vec(g.md.p[k0 + i], 0.3));
  }
  return v;
}
#endif

static void durations(Ctx & c)
{
  GenOpt o;
  o.n = SD;
  o.mfix = UD;
#ifdef FMPC
  o.pfix = GD;
#else
  o.allow_nonconvex = true;
#endif
  o.slack_steps = 6;
  // 0..K-1: only callbacks of one kind take time, K: all kinds, K+1: one tick per clock reading
  int mode = c.free("time", K + 2);
  int prior = c.free("prior", 3); // earlier call: none, longer horizon, failing
  Gen g = genProblem(c, o);
  R r(g);
  auto & cfg = r.solver->config();
  cfg.max_iter = c.freeOf<int>("max_iter", {5, 0, 1, 2});
#ifdef DDP
  LimitSpec lim;
  lim.kind = c.devOf<int>("limits", {0, 2, 7});
  lim.md = &g.md;
  setLimits(r, lim);
  int sp = c.free("special", 4); // 1: no step is accepted 2: indefinite until lambda_max 3: both criteria off
  if(sp == 1)
  {
    cfg.alpha_list.resize(2);
    cfg.alpha_list << 30.0, 12.0;
  }
  if(sp == 2)
  {
    for(auto & m : r.env->g.md.R) m = Mat(m.r, m.c);
    for(auto & m : r.env->g.md.R)
      for(int i = 0; i < m.r; i++) m(i, i) = -50;
    cfg.lambda_max = c.freeOf<double>("lambda_max", {10.0, 1e10});
  }
  if(sp == 3)
  {
    cfg.cost_update_thre = -1;
    cfg.k_rel_norm_thre = 0;
  }
  auto solve = [&](int N, int it)
  {
    std::vector<Vec> u0;
    for(int i = 0; i < N; i++) u0.push_back(Vec(g.md.m[g.k0 + i], 0.1));
    int m = cfg.max_iter, h = cfg.horizon_steps;
    cfg.max_iter = it;
    cfg.horizon_steps = r.env->N = N;
    bool ok = r.solver->solve(g.t(), fromVec<typename R::XV>(g.x0), R::inputs(u0));
    cfg.max_iter = m;
    cfg.horizon_steps = h;
    return ok ? 1 : 0;
  };
#else
  cfg.kkt_error_thre = c.devOf<double>("thre", {1e-4, 1e-12, 10.0});
  cfg.enable_line_search = c.free("ls", 2);
  cfg.init_complementary_variable = c.free("init", 2);
  cfg.check_nan = c.dev("check_nan", 2) == 0;
  int sp = c.free("special", 3); // 1: no backward pass succeeds (NaN) 2: no update succeeds
  if(sp == 1) r.env->fault = [](int kind, int, long) { return kind == 4 ? std::nan("") : 0.0; };
  auto solve = [&](int N, int it)
  {
    Vars v = guess(g, N, g.k0, 1);
    if(sp == 2)
      for(auto & s : v.s)
        for(auto & d : s) d = 0.0;
    int m = cfg.max_iter, h = cfg.horizon_steps;
    cfg.max_iter = it;
    cfg.horizon_steps = r.env->N = N;
    int st = static_cast<int>(r.solver->solve(g.t(), fromVec<typename R::XV>(g.x0), R::toVariable(v)));
    cfg.max_iter = m;
    cfg.horizon_steps = h;
    return st;
  };
#endif
  c.claim();
  double spent[8] = {0}, first_rollout = 0, setup_ineq = 0, total = 0;
  bool deriv_seen = false;
  long ineq_seen = 0;
  r.env->point = [&](int kind)
  {
    if(kind >= 3 && kind <= 5) deriv_seen = true;
    bool setup6 = kind == 6 && ineq_seen++ < g.N;
    if(mode == K + 1 || (mode < K && mode != kind)) return;
    long ns = 1000000L * (kind + 1) + 137000L * (total < 50 ? 1 : 3);
    ClockCtl::get().value += ns;
    double ms = ns * MS;
    spent[kind] += ms;
    total += ms;
    if(kind <= 2 && !deriv_seen) first_rollout += ms;
    if(setup6) setup_ineq += ms;
  };
  long t0 = 1700000000000000000L;
  clockSet(t0, mode == K + 1 ? 1000000 : 0);
  if(prior)
  {
    solve(prior == 1 ? g.N + 2 : g.N, prior == 1 ? 3 : 1);
    for(auto & d : spent) d = 0;
    first_rollout = setup_ineq = total = 0;
    deriv_seen = false;
    ineq_seen = 0;
  }
  long before = ClockCtl::get().value;
  int res = solve(g.N, cfg.max_iter);
  double passed = (ClockCtl::get().value - before) * MS;
  clockSet(t0, 0);
  ClockCtl::get().mode = 0;
  if(!r.env->error.empty()) fail(r.env->error);
  const auto & d = r.solver->computationDuration();
  const auto & tr = r.solver->traceDataList();
  double sb = 0, sf = 0;
  for(auto & t : tr)
  {
    ge0(t.duration_backward, "a backward pass");
    ge0(t.duration_forward, "a forward pass");
    sb += t.duration_backward;
    sf += t.duration_forward;
  }
  ge0(d.setup, "setup");
  ge0(d.opt, "optimisation");
  ge0(d.backward, "backward passes");
  ge0(d.forward, "forward passes");
  le(d.setup + d.opt, d.solve, "setup and optimisation exceed the total duration");
  if(mode <= K) eq(d.setup + d.opt, d.solve, passed, "setup + optimisation");
  eq(sb, d.backward, passed, "sum of the backward passes in the trace");
  eq(sf, d.forward, passed, "sum of the forward passes in the trace");
  le(d.solve, passed, "total duration exceeds the duration of the call");
#ifdef DDP
  double sd_ = 0;
  for(auto & t : tr)
  {
    ge0(t.duration_derivative, "a derivative calculation");
    sd_ += t.duration_derivative;
  }
  eq(sd_, d.derivative, passed, "sum of the derivative calculations in the trace");
  le(d.derivative + d.backward + d.forward, d.opt, "phases exceed the optimisation loop");
  le(d.Q + d.reg + d.gain, d.backward, "parts of the backward pass exceed it");
  for(double v : {d.Q, d.reg, d.gain, d.derivative}) ge0(v, "a part");
  if(mode <= K)
  {
    double deriv = spent[3] + spent[4] + spent[5], roll = spent[0] + spent[1] + spent[2];
    eq(d.solve, passed, passed, "solve");
    eq(d.setup, first_rollout, passed, "setup");
    eq(d.derivative, deriv, passed, "derivative calculation");
    eq(d.forward, roll - first_rollout, passed, "forward pass");
    eq(d.backward, 0, passed, "backward pass");
  }
#else
  double sc = 0, su = 0;
  for(auto & t : tr)
  {
    ge0(t.duration_coeff, "a coefficient calculation");
    ge0(t.duration_update, "an update");
    sc += t.duration_coeff;
    su += t.duration_update;
  }
  eq(sc, d.coeff, passed, "sum of the coefficient calculations in the trace");
  eq(su, d.update, passed, "sum of the updates in the trace");
  le(d.coeff + d.backward + d.forward + d.update, d.opt, "phases exceed the optimisation loop");
  le(d.gain_pre + d.gain_solve + d.gain_post, d.backward, "parts of the backward pass exceed it");
  le(d.fraction, d.update, "fraction-to-boundary rule exceeds the update");
  for(double v : {d.gain_pre, d.gain_solve, d.gain_post, d.fraction, d.coeff, d.update}) ge0(v, "a part");
  if(mode <= K)
  {
    if(!cfg.init_complementary_variable) setup_ineq = 0;
    eq(d.solve, passed, passed, "solve");
    eq(d.setup, setup_ineq, passed, "setup");
    eq(d.backward + d.forward, 0, passed, "backward and forward pass");
    eq(d.coeff + d.update, passed - setup_ineq, passed, "coefficients and update");
    if(!cfg.enable_line_search) eq(d.update, 0, passed, "update");
    le(spent[3] + spent[4] + spent[5] + spent[7], d.coeff, "derivative callbacks are not counted as coefficient calculation");
    le(spent[1] + spent[2], d.update, "cost callbacks of the line search are not counted as update");
    if(mode == 1 || mode == 2) eq(d.update, spent[1] + spent[2], passed, "update");
  }
#endif
  c.trans(tr.size());
  c.traces();
  uint64_t h = mode;
  for(auto & t : tr)
  {
    h = hashDouble(h, t.duration_backward);
    h = hashDouble(h, t.duration_forward);
  }
  h = hashDouble(hashDouble(h, d.solve), d.setup);
  c.state(h);
  c.outcome("outcome " + std::to_string(res) + (mode <= K ? ", time in callbacks" : ", time everywhere"));
  if(passed > 0) c.nontrivialCase();
}

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
  sp.push_back({"durations", durations, 1, 2});
  return exploreMain(argc, argv, sp);
}
