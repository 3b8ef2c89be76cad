// The DDP solver under test together with a monitored problem.
#pragma once
#include "problem_common.h"
#include <nmpc_ddp/DDPSolver.h>

namespace verif
{
template<int S, int U>
struct DdpRun
{
  using Solver = nmpc_ddp::DDPSolver<S, U>;
  using Problem = DdpGen<S, U>;
  using UV = typename Problem::UV;
  using XV = typename Problem::XV;
  std::shared_ptr<Env> env;
  std::shared_ptr<Problem> prob;
  std::shared_ptr<Solver> solver;
  bool result = false;

  explicit DdpRun(const Gen & g)
  {
    env = std::make_shared<Env>();
    env->g = g;
    env->k_start = g.k0;
    env->N = g.N;
    prob = std::make_shared<Problem>(env);
    solver = std::make_shared<Solver>(prob);
    solver->config().print_level = 0;
    solver->config().horizon_steps = g.N;
  }
  static std::vector<UV> inputs(const std::vector<Vec> & u)
  {
    std::vector<UV> o;
    for(auto & v : u) o.push_back(fromVec<UV>(v));
    return o;
  }
  // Earlier solve on the same object: 1 longer horizon, 2 one step, 3 other start and guess, 4 same call, 5 other settings
  void prior(int kind)
  {
    if(kind == 0) return;
    const Gen & g = env->g;
    auto saved = solver->config();
    int N = kind == 1 ? g.N + 2 : (kind == 2 ? 1 : g.N);
    int k0 = kind == 3 ? (g.k0 ? 0 : 2) : g.k0;
    Vec x0 = g.x0;
    if(kind != 4)
      for(auto & d : x0) d = 0.4 - 0.7 * d;
    std::vector<Vec> u0;
    for(int i = 0; i < N; i++)
    {
      u0.push_back(Vec(g.md.m[k0 + i], kind == 3 ? 0.7 : 0.1));
      if(kind == 4) u0.back() = g.u0[i];
    }
    auto & cfg = solver->config();
    cfg.horizon_steps = N;
    if(kind == 5)
    {
      cfg.reg_type = 3 - cfg.reg_type;
      cfg.initial_lambda = 7.0;
      cfg.initial_dlambda = 2.5;
      cfg.max_iter = 2;
      cfg.cost_update_thre = -1;
    }
    env->k_start = k0;
    env->N = N;
    solver->solve(g.md.t0 + k0 * g.md.dt, fromVec<XV>(x0), inputs(u0));
    env->k_start = g.k0;
    env->N = g.N;
    solver->config() = saved;
  }
  bool solve()
  {
    const Gen & g = env->g;
    result = solver->solve(g.t(), fromVec<XV>(g.x0), inputs(g.u0));
    return result;
  }
};

// Everything a caller can read after solve(), in comparable form.
template<class Solver>
std::vector<double> ddpObs(const Solver & s, bool result)
{
  std::vector<double> o;
  o.push_back(result);
  const auto & cd = s.controlData();
  for(auto & x : cd.x_list)
    for(int i = 0; i < x.size(); i++) o.push_back(x(i));
  for(auto & u : cd.u_list)
  {
    o.push_back(u.size());
    for(int i = 0; i < u.size(); i++) o.push_back(u(i));
  }
  for(int i = 0; i < cd.cost_list.size(); i++) o.push_back(cd.cost_list(i));
  for(auto & t : s.traceDataList())
  {
    for(double d : {double(t.iter), t.cost, t.lambda, t.dlambda, t.alpha, t.k_rel_norm, t.cost_update_actual,
                    t.cost_update_expected, t.cost_update_ratio})
      o.push_back(d);
  }
  return o;
}
} // namespace verif
