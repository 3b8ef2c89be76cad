// Checks C01, C02, C03, C04 (selected by -DPROP=...) for DDPSolver<SD, UD>.
#include "ddp_gen.h"
#include <fstream>
#include <unistd.h>
using namespace verif;

static std::string scratchFile()
{
  const char * d = getenv("VERIF_SCRATCH");
  return std::string(d ? d : "/tmp") + "/dump." + std::to_string(getpid());
}

// C01 ------------------------------------------------------------------------------------------------------------
template<class R>
void checkRollout(Ctx & c, R & r)
{
  const Gen & g = r.env->g;
  if(!r.env->error.empty()) fail(r.env->error);
  const auto & cd = r.solver->controlData();
  int N = g.N;
  if((int)cd.x_list.size() != N + 1 || (int)cd.u_list.size() != N || cd.cost_list.size() != N + 1)
  {
    fail("control data has wrong lengths: x " + std::to_string(cd.x_list.size()) + ", u "
         + std::to_string(cd.u_list.size()) + ", cost " + std::to_string(cd.cost_list.size()) + " for horizon "
         + std::to_string(N));
  }
  for(int i = 0; i < N; i++)
  {
    if(cd.u_list[i].size() != g.md.m[g.k0 + i]) fail("returned input " + std::to_string(i) + " has wrong dimension");
  }
  for(int j = 0; j < g.md.n; j++)
  {
    if(cd.x_list[0](j) != g.x0[j]) fail("first returned state is not the given current state");
  }
  // stage by stage on the returned data (no error accumulation)
  for(int i = 0; i < N; i++)
  {
    LVec x = toL(cd.x_list[i]), u = toL(cd.u_list[i]);
    LVec nx = g.md.f<long double>(g.k0 + i, x, u);
    long double l = g.md.l<long double>(g.k0 + i, x, u);
    long double sc = 1;
    for(auto v : x) sc = std::max(sc, v * v);
    for(auto v : u) sc = std::max(sc, v * v * v * v);
    for(int j = 0; j < g.md.n; j++)
    {
      if(!close(cd.x_list[i + 1](j), nx[j], 1e-9, 1e-9 * sc))
      {
        fail("returned state " + std::to_string(i + 1) + " is not the successor of state/input " + std::to_string(i)
             + ": " + str(toVec(cd.x_list[i + 1])) + ", state equation gives " + str(double(nx[j])) + " in dimension "
             + std::to_string(j));
      }
    }
    if(!close(cd.cost_list(i), l, 1e-9, 1e-9 * sc))
    {
      fail("returned running cost " + std::to_string(i) + " is " + str(cd.cost_list(i)) + " but the running cost is "
           + str(double(l)));
    }
  }
  LVec x = toL(cd.x_list[N]);
  long double sc = 1;
  for(auto v : x) sc = std::max(sc, v * v * v * v);
  if(!close(cd.cost_list(N), g.md.lf<long double>(g.k0 + N, x), 1e-9, 1e-9 * sc))
  {
    fail("returned terminal cost is " + str(cd.cost_list(N)) + " but the terminal cost is "
         + str(double(g.md.lf<long double>(g.k0 + N, x))));
  }
}

// C02 ------------------------------------------------------------------------------------------------------------
template<class R>
void checkTrace(Ctx & c, R & r, const LimitSpec & lim, bool dump)
{
  const Gen & g = r.env->g;
  const auto & cfg = r.solver->config();
  const auto & tr = r.solver->traceDataList();
  const auto & cd = r.solver->controlData();
  if(tr.empty()) fail("trace is empty");
  if((int)tr.size() > cfg.max_iter + 1) fail("trace has more entries than iterations allowed");
  LVec c0 = initCost(g, lim);
  long double cost0 = sumv(c0), sc = 1;
  for(auto v : c0) sc += std::abs(v);
  if(!close(tr[0].cost, cost0, 1e-9, 1e-9 * sc))
    fail("initial trace cost " + str(tr[0].cost) + " is not the cost of the initial inputs " + str(double(cost0)));
  DdpRef ref = refRollout(g, *r.solver);
  long double cost1 = sumv(ref.cost), sc1 = 1;
  for(auto v : ref.cost) sc1 += std::abs(v);
  double eps = 1e-10 * double(std::max(sc, sc1));
  if(!(cost1 <= cost0 + eps))
    fail("returned inputs cost " + str(double(cost1)) + ", more than the initial inputs " + str(double(cost0)));
  if(!close(tr.back().cost, cost1, 1e-9, 1e-9 * sc1))
    fail("last trace cost " + str(tr.back().cost) + " is not the cost of the returned control data "
         + str(double(cost1)));
  if(!close(cd.cost_list.sum(), cost1, 1e-9, 1e-9 * sc1)) fail("returned costs do not sum to the cost of the inputs");
  for(size_t i = 0; i < tr.size(); i++)
  {
    if(tr[i].iter != (int)i) fail("trace iterations are not numbered consecutively");
    if(i == 0) continue;
    const auto & a = tr[i];
    if(!(a.cost <= tr[i - 1].cost + eps))
      fail("trace cost increases in iteration " + std::to_string(i) + ": " + str(tr[i - 1].cost) + " -> "
           + str(a.cost));
    bool tried = a.alpha != 0;
    if(!tried)
    {
      if(i + 1 != tr.size() && cfg.alpha_list.size() > 0) fail("an iteration without a step is not the last one");
      if(!close(a.cost, tr[i - 1].cost, 1e-12, eps)) fail("cost changed in an iteration without a step");
      continue;
    }
    bool in_list = false;
    for(int j = 0; j < cfg.alpha_list.size(); j++) in_list = in_list || a.alpha == cfg.alpha_list[j];
    if(!in_list) fail("trace step size is not in the list of step sizes");
    // ratio consistency
    if(std::isfinite(a.cost_update_actual) && std::abs(a.cost_update_expected) > 1e-300)
    {
      double want = a.cost_update_expected < 0 ? (a.cost_update_actual >= 0 ? 1 : -1)
                                               : a.cost_update_actual / a.cost_update_expected;
      if(!close(a.cost_update_ratio, want, 1e-9, 1e-12))
        fail("trace ratio " + str(a.cost_update_ratio) + " is not actual/expected " + str(want));
    }
    if(std::abs(a.cost_update_ratio - cfg.cost_update_ratio_thre) > 1e-9)
    {
      bool accepted = a.cost_update_ratio > cfg.cost_update_ratio_thre;
      if(accepted)
      {
        if(!close(tr[i - 1].cost - a.cost, a.cost_update_actual, 1e-6, 10 * eps))
          fail("trace actual cost update " + str(a.cost_update_actual) + " but costs went " + str(tr[i - 1].cost)
               + " -> " + str(a.cost));
      }
      else if(!close(a.cost, tr[i - 1].cost, 1e-12, eps))
      {
        fail("cost changed in an iteration whose ratio is below the acceptance threshold");
      }
      c.outcome(accepted ? "accepted step" : "rejected step");
    }
    c.trans();
  }
  if(dump)
  {
    std::string f = scratchFile();
    std::ofstream(f) << "left over from an earlier dump\n1 2 3\n"; // must be replaced
    r.solver->dumpTraceDataList(f);
    std::ifstream is(f);
    std::string line, w;
    if(!std::getline(is, line)) fail("dump file is empty");
    std::vector<std::string> head;
    std::istringstream hs(line);
    while(hs >> w) head.push_back(w);
    size_t row = 0;
    while(std::getline(is, line))
    {
      if(row >= tr.size()) fail("dump file has more rows than the trace");
      const auto & t = tr[row++];
      std::map<std::string, double> want = {{"iter", t.iter},
                                            {"cost", t.cost},
                                            {"lambda", t.lambda},
                                            {"dlambda", t.dlambda},
                                            {"alpha", t.alpha},
                                            {"k_rel_norm", t.k_rel_norm},
                                            {"cost_update_actual", t.cost_update_actual},
                                            {"cost_update_expected", t.cost_update_expected},
                                            {"cost_update_ratio", t.cost_update_ratio},
                                            {"duration_derivative", t.duration_derivative},
                                            {"duration_backward", t.duration_backward},
                                            {"duration_forward", t.duration_forward}};
      std::istringstream ls(line);
      std::set<std::string> seen;
      for(auto & h : head)
      {
        if(!(ls >> w)) fail("dump row is shorter than its header");
        if(!want.count(h)) continue;
        seen.insert(h);
        double v = atof(w.c_str());
        if(!close(v, want[h], 1e-4, 1e-300)) fail("dump column " + h + " is " + w + " but the trace has " + str(want[h]));
      }
      if(ls >> w) fail("dump row is longer than its header");
      if(seen.size() != want.size()) fail("dump header lacks a trace field");
    }
    if(row != tr.size()) fail("dump file has " + std::to_string(row) + " rows for " + std::to_string(tr.size()) + " trace entries");
    unlink(f.c_str());
  }
}

// C03 ------------------------------------------------------------------------------------------------------------
// Condensed quadratic: J(U) = 1/2 U'HU + g'U + c, via gradients at 0 and unit vectors.
static bool lqOptimum(const Gen & g, LVec & Uopt, long double & minpiv)
{
  int nv = 0;
  for(int i = 0; i < g.N; i++) nv += g.md.m[g.k0 + i];
  auto gradAt = [&](const LVec & z)
  {
    std::vector<LVec> U, X;
    int o = 0;
    for(int i = 0; i < g.N; i++)
    {
      int m = g.md.m[g.k0 + i];
      U.push_back(LVec(z.begin() + o, z.begin() + o + m));
      o += m;
    }
    LVec cost;
    rollout(g.md, g.k0, LVec(g.x0.begin(), g.x0.end()), U, X, cost);
    auto G = gradU(g.md, g.k0, X, U);
    LVec f;
    for(auto & v : G) f.insert(f.end(), v.begin(), v.end());
    return f;
  };
  LVec z(nv, 0), g0 = gradAt(z);
  LMat H(nv, nv);
  for(int j = 0; j < nv; j++)
  {
    z[j] = 1;
    LVec gj = gradAt(z);
    for(int i = 0; i < nv; i++) H(i, j) = gj[i] - g0[i];
    z[j] = 0;
  }
  for(int i = 0; i < nv; i++)
    for(int j = 0; j < i; j++) H(i, j) = H(j, i) = 0.5L * (H(i, j) + H(j, i));
  minpiv = nv ? cholMinPivot(H) : 1;
  if(!(minpiv > 1e-3L)) return false;
  LVec b(nv);
  for(int i = 0; i < nv; i++) b[i] = -g0[i];
  return gauss(H, b, Uopt) > 0;
}

template<int S, int U>
void c01(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  Gen g = genProblem(c, o);
  DdpRun<S, U> r(g);
  ddpConfig(c, r.solver->config(), 1);
  LimitSpec lim;
  lim.kind = c.dev("limits", 8);
  int prior = c.dev("prior", 6);
  c.claim();
  setLimits(r, lim);
  r.prior(prior);
  r.solve();
  checkRollout(c, r);
  c.traces();
  c.trans(r.solver->traceDataList().size());
  c.outcome(std::string(r.result ? "success" : "not successful") + " after "
            + std::to_string(std::min<size_t>(r.solver->traceDataList().size() - 1, 9)) + " iterations");
  c.state(hashVec(S * 8 + U, ddpObs(*r.solver, r.result)));
  if(r.solver->traceDataList().size() > 1) c.nontrivialCase();
}

template<int S, int U>
void c02(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  Gen g = genProblem(c, o);
  DdpRun<S, U> r(g);
  ddpConfig(c, r.solver->config(), 1);
  LimitSpec lim;
  lim.kind = c.dev("limits", 8);
  int prior = c.dev("prior", 6);
  c.claim();
  setLimits(r, lim);
  r.prior(prior);
  r.solve();
  checkTrace(c, r, lim, true);
  c.traces();
  c.state(hashVec(S * 8 + U, ddpObs(*r.solver, r.result)));
  if(r.solver->traceDataList().size() > 1) c.nontrivialCase();
}

template<int S, int U>
void c03lq(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  o.allow_nonlinear = false;
  Gen g = genProblem(c, o);
  DdpRun<S, U> r(g);
  auto & cfg = r.solver->config();
  cfg.reg_type = c.devOf<int>("reg_type", {1, 2});
  cfg.initial_lambda = c.devOf<double>("lambda0", {1e-4, 0.0, 0.1, 1.0});
  cfg.initial_dlambda = c.devOf<double>("dlambda0", {1.0, 0.5, 2.0});
  cfg.lambda_factor = c.devOf<double>("lambda_factor", {1.6, 4.0});
  cfg.print_level = c.devOf<int>("print", {0, 3});
  cfg.k_rel_norm_thre = c.devOf<double>("k_thre", {1e-4, 1e-7});
  cfg.cost_update_thre = c.devOf<double>("cost_thre", {1e-7, 1e-12, 1e-4});
  cfg.lambda_thre = c.devOf<double>("lambda_thre", {1e10, 1e-5});
  int prior = c.dev("prior", 6);
  c.claim();
  LVec Uo;
  long double piv;
  if(!lqOptimum(g, Uo, piv)) return;
  r.prior(prior);
  r.solve();
  std::string cls = r.result ? "success" : "failure";
  // The gradient criterion needs lambda < lambda_thre; with a small lambda_thre a solve that is already at the optimum
  // while lambda is larger cannot decrease the cost any more, so success is owed only where lambda_thre is no obstacle.
  bool owed = cfg.lambda_thre > 1;
  if(!r.result && owed) fail("solve() does not succeed on a strictly convex linear-quadratic problem");
  DdpRef ref = refRollout(g, *r.solver);
  long double dist = 0, sc = 1;
  int q = 0;
  for(auto & u : ref.U)
    for(auto v : u)
    {
      dist = std::max(dist, std::abs(v - Uo[q]));
      sc = std::max(sc, std::abs(Uo[q]));
      q++;
    }
  // termination thresholds bound the remaining distance: relative gain 1e-4 or cost update (1/2 H d^2)
  long double reg = 1 + 20 * cfg.initial_lambda / piv; // the gradient criterion sees the gain shrunk by lambda
  long double tol = reg * std::max<long double>(2e-3L * std::max(cfg.k_rel_norm_thre / 1e-4, 1e-4), 3 * std::sqrt(2 * cfg.cost_update_thre / piv)) * sc;
  if(!(dist <= tol))
    fail("returned inputs differ from the optimal ones by " + str(double(dist)) + " (tolerance " + str(double(tol)) + ")");
  if(cfg.initial_lambda == 0 && cfg.initial_dlambda <= 1.0)
  {
    // without regularisation the first full step is the exact minimiser
    if(r.solver->traceDataList().size() > 3 && q > 0) fail("an unregularised linear-quadratic solve needs more than two iterations");
    if(!(dist <= 1e-7L * sc)) fail("unregularised linear-quadratic optimum is off by " + str(double(dist)));
  }
  c.outcome(cls + " after " + std::to_string(r.solver->traceDataList().size() - 1) + " iterations");
  c.traces();
  c.trans(r.solver->traceDataList().size() - 1);
  c.state(hashVec(S * 8 + U, ddpObs(*r.solver, r.result)));
  if(q > 0) c.nontrivialCase();
}

template<int S, int U>
void c03nl(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  Gen g = genProblem(c, o);
  int extra = c.dev("strong", 4);
  if(extra)
  {
    g.md.nf = extra == 1 ? 0.8 : (extra == 2 ? -0.5 : 0.0);
    g.md.nl = extra == 3 ? 2.0 : g.md.nl;
  }
  else if(g.linear)
  {
    g.md.nf = 0.4;
    g.md.nl = 0.5;
  }
  // large optimal inputs approached by short steps: the gradient criterion is relative to the input
  bool big = c.dev("big", 2);
  if(big)
  {
    g.md.nf = g.md.nl = g.md.nlf = 0;
    for(auto * vs : {&g.md.c, &g.md.q, &g.md.r})
      for(auto & v : *vs)
        for(auto & d : v) d *= 1e5;
    for(auto * v : {&g.md.qf, &g.x0})
      for(auto & d : *v) d *= 1e5;
  }
  DdpRun<S, U> r(g);
  auto & cfg = r.solver->config();
  cfg.max_iter = 60;
  if(big)
  {
    cfg.max_iter = 150;
    cfg.alpha_list.resize(1);
    cfg.alpha_list << 0.3;
  }
  cfg.reg_type = c.devOf<int>("reg_type", {1, 2});
  cfg.initial_lambda = c.devOf<double>("lambda0", {1e-4, 0.0, 1.0, 100.0, 1e6});
  cfg.k_rel_norm_thre = c.devOf<double>("k_thre", {1e-4, 1e-8, 1e-2});
  cfg.cost_update_thre = -1; // criterion disabled: success can only come from the gradient criterion
  int prior = c.dev("prior", 6);
  c.claim();
  r.prior(prior);
  r.solve();
  c.outcome(r.result ? "success" : "no success");
  c.state(hashVec(S * 8 + U, ddpObs(*r.solver, r.result)));
  c.trans(r.solver->traceDataList().size() - 1);
  if(!r.result) return;
  DdpRef ref = refRollout(g, *r.solver);
  auto G = gradU(g.md, g.k0, ref.X, ref.U);
  // |Qu| <= |Quu + lambda| |k|, |k| <= thre (1+|u|); the true gradient adds terms linear in later k
  long double xs = 1, us = 1;
  for(auto & x : ref.X)
    for(auto v : x) xs = std::max(xs, std::abs(v));
  for(auto & u : ref.U)
    for(auto v : u) us = std::max(us, std::abs(v));
  // bound on the curvature met on the horizon, from the problem data
  long double grow = 1, hess = 30;
  for(int i = 0; i < g.N; i++)
  {
    LMat fx, fu;
    g.md.fDeriv<long double>(g.k0 + i, ref.X[i], ref.U[i], fx, fu);
    long double nrm = 0;
    for(auto v : fx.a) nrm += v * v;
    for(auto v : fu.a) nrm += v * v;
    grow *= std::max<long double>(1, nrm);
  }
  hess += 10 * g.md.nl * us * us + 10 * g.md.nlf * xs * xs;
  long double tol = cfg.k_rel_norm_thre * (1 + us) * hess * grow * g.N * 3 + 1e-8L;
  long double mx = 0;
  for(auto & v : G)
    for(auto d : v) mx = std::max(mx, std::abs(d));
  if(!(mx <= tol))
    fail("success reported, but the gradient of the total cost at the returned inputs is " + str(double(mx))
         + " (threshold implies at most " + str(double(tol)) + ")");
  c.traces();
  c.nontrivialCase();
}

// C04 ------------------------------------------------------------------------------------------------------------
template<int S, int U>
void c04(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  LimitSpec lim;
  lim.kind = 1 + c.free("limits", 7);
  Gen g = genProblem(c, o);
  int wide = c.dev("u0out", 3);
  if(wide)
  {
    for(auto & u : g.u0)
      for(size_t j = 0; j < u.size(); j++) u[j] = wide == 1 ? 4.0 : (j % 2 ? 3.0 : -5.0);
  }
  DdpRun<S, U> r(g);
  auto & cfg = r.solver->config();
  ddpConfig(c, cfg, 0);
  int prior = c.dev("prior", 6);
  c.claim();
  setLimits(r, lim);
  r.prior(prior);
  r.solve();
  if(!r.env->error.empty()) fail(r.env->error);
  const auto & ul = r.solver->controlData().u_list;
  if((int)ul.size() != g.N) fail("wrong number of returned inputs");
  bool active = false;
  for(int i = 0; i < g.N; i++)
    for(int j = 0; j < ul[i].size(); j++)
    {
      double a, b;
      lim.get(g.k0 + i, j, a, b);
      if(!(ul[i](j) >= a - 1e-12 && ul[i](j) <= b + 1e-12))
        fail("returned input " + std::to_string(i) + "[" + std::to_string(j) + "] = " + str(ul[i](j))
             + " is outside its limits [" + str(a) + ", " + str(b) + "]");
      active = active || ul[i](j) == a || ul[i](j) == b;
    }
  bool opt = false;
  const auto & tr = r.solver->traceDataList();
  if(r.result && g.linear && cfg.initial_lambda <= 1.0 && cfg.k_rel_norm_thre <= 1e-4 && cfg.cost_update_thre <= 1e-7
     && (cfg.alpha_list.size() > 4 || (tr.back().k_rel_norm < cfg.k_rel_norm_thre && tr[tr.size() - 2].lambda < cfg.lambda_thre)))
  {
    DdpRef ref = refRollout(g, *r.solver);
    auto G = gradU(g.md, g.k0, ref.X, ref.U);
    // strictly convex?
    LVec dummy;
    long double piv;
    if(lqOptimum(g, dummy, piv) && piv > 0.05L)
    {
      opt = true;
      long double grow = 1, us = 1;
      for(auto & v : ref.U)
        for(auto d : v) us = std::max(us, std::abs(d));
      for(int i = 0; i < g.N; i++)
      {
        long double nrm = 0;
        for(auto v : g.md.A[g.k0 + i].a) nrm += v * v;
        for(auto v : g.md.B[g.k0 + i].a) nrm += v * v;
        grow *= std::max<long double>(1, nrm);
      }
      long double tol = std::max(2e-2L, 60 * std::sqrt((long double)cfg.cost_update_thre) ) * us * std::sqrt(grow);
      for(int i = 0; i < g.N; i++)
        for(int j = 0; j < ul[i].size(); j++)
        {
          double a, b;
          lim.get(g.k0 + i, j, a, b);
          long double d = G[i][j];
          // steps shorter than the full one approach a limit only up to the threshold of the gradient criterion
          double near = cfg.alpha_list.size() > 4 ? 1e-7 : 3 * cfg.k_rel_norm_thre * double(1 + us);
          bool lo = ul[i](j) <= a + near, hi = ul[i](j) >= b - near;
          if((!lo && d > tol) || (!hi && d < -tol))
            fail("success reported, but input " + std::to_string(i) + "[" + std::to_string(j) + "] = " + str(ul[i](j))
                 + " in [" + str(a) + ", " + str(b) + "] has cost gradient " + str(double(d)));
        }
      c.traces();
    }
  }
  c.outcome(std::string(r.result ? "success" : "not successful") + (active ? ", limit active" : "")
            + (opt ? ", optimality checked" : ""));
  c.trans(r.solver->traceDataList().size() - 1);
  c.state(hashVec(S * 8 + U, ddpObs(*r.solver, r.result)));
  if(active) c.nontrivialCase();
}

#ifndef QB
#  define QB 3
#endif
int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#if PROP == 1
  sp.push_back({"rollout", c01<SD, UD>, QB, QB + 1});
#elif PROP == 2
  sp.push_back({"trace", c02<SD, UD>, QB, QB + 1});
#elif PROP == 3
  sp.push_back({"lq", c03lq<SD, UD>, QB, QB + 1});
  sp.push_back({"nonlinear", c03nl<SD, UD>, QB, QB + 1});
#elif PROP == 4
  sp.push_back({"limits", c04<SD, UD>, QB, QB + 1});
#endif
  return exploreMain(argc, argv, sp);
}
