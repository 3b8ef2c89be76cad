// Configuration alphabet of the DDP solver and input-limit functions.
#pragma once
#include "ddp_common.h"

namespace verif
{
struct LimitSpec
{
  int kind = 0; // 0: none
  Model const * md = nullptr;
  // lower/upper limit of input j at absolute step k
  void get(int k, int j, double & lo, double & hi) const
  {
    const double inf = std::numeric_limits<double>::infinity();
    lo = -inf;
    hi = inf;
    switch(kind)
    {
      case 1: // constant, moderately tight
        lo = -0.25;
        hi = 0.3;
        break;
      case 2: // time-varying and input-dependent
        lo = -0.1 - 0.2 * ((k + j) % 3);
        hi = 0.05 + 0.15 * ((k + 2 * j) % 4);
        break;
      case 3: // one-sided
        if(j % 2 == 0)
          lo = 0.1;
        else
          hi = -0.05;
        break;
      case 4: // wide (never active)
        lo = -50;
        hi = 60;
        break;
      case 5: // degenerate on odd steps
        lo = k % 2 ? 0.2 : -0.4;
        hi = k % 2 ? 0.2 : 0.4;
        break;
      case 6: // does not contain zero
        lo = 0.15 + 0.1 * j;
        hi = 0.5 + 0.1 * k;
        break;
      case 7: // very tight
        lo = -0.01;
        hi = 0.01;
        break;
    }
  }
};

template<int S, int U>
void setLimits(DdpRun<S, U> & r, const LimitSpec & spec)
{
  using UV = typename DdpRun<S, U>::UV;
  auto env = r.env;
  r.solver->config().with_input_constraint = spec.kind > 0;
  if(spec.kind == 0) return;
  r.solver->setInputLimitsFunc(
      [env, spec](double t)
      {
        int k = env->step(t, false, "input limits function");
        int m = env->g.md.m[k];
        std::array<UV, 2> o;
        o[0].resize(m);
        o[1].resize(m);
        for(int j = 0; j < m; j++)
        {
          double a, b;
          spec.get(k, j, a, b);
          o[0](j) = a;
          o[1](j) = b;
        }
        return o;
      });
}

template<class Cfg>
void ddpConfig(Ctx & c, Cfg & cfg, int deep)
{
  cfg.max_iter = c.devOf<int>("max_iter", {40, 0, 1, 2, 3, 7});
  cfg.reg_type = c.devOf<int>("reg_type", {1, 2});
  cfg.initial_lambda = c.devOf<double>("lambda0", {1e-4, 0.0, 1.0, 1e3});
  int al = c.dev("alpha", 5);
  auto set = [&](std::initializer_list<double> l)
  {
    cfg.alpha_list.resize(l.size());
    int i = 0;
    for(double d : l) cfg.alpha_list[i++] = d;
  };
  if(al == 1)
    set({1.0});
  else if(al == 2)
    set({8.0, 3.0, 1.0, 0.2});
  else if(al == 3)
    set({0.3, 0.1});
  else if(al == 4)
    set({30.0, 12.0});
  cfg.cost_update_thre = c.devOf<double>("cost_thre", {1e-7, 0.0, 1e-2});
  cfg.cost_update_ratio_thre = c.devOf<double>("ratio_thre", {0.0, 0.3, 0.95});
  cfg.k_rel_norm_thre = c.devOf<double>("k_thre", {1e-4, 1e-9, 0.3});
  if(deep)
  {
    cfg.lambda_thre = c.devOf<double>("lambda_thre", {1e-5, 10.0, 0.0});
    cfg.lambda_max = c.devOf<double>("lambda_max", {1e10, 1e-2, 5.0});
    cfg.print_level = c.devOf<int>("print", {0, 3});
  }
}

struct DdpRef
{
  std::vector<LVec> X, U;
  LVec cost;
};
// Rollout of the returned inputs by the reference, in long double.
template<class Solver>
DdpRef refRollout(const Gen & g, const Solver & s)
{
  DdpRef r;
  for(auto & u : s.controlData().u_list) r.U.push_back(toL(u));
  rollout(g.md, g.k0, LVec(g.x0.begin(), g.x0.end()), r.U, r.X, r.cost);
  return r;
}
inline LVec initCost(const Gen & g, const LimitSpec & lim)
{
  std::vector<LVec> U, X;
  LVec cost;
  for(int i = 0; i < g.N; i++)
  {
    LVec u(g.u0[i].begin(), g.u0[i].end());
    for(size_t j = 0; j < u.size(); j++)
    {
      double a, b;
      lim.get(g.k0 + i, j, a, b);
      u[j] = std::max(std::min(u[j], (long double)b), (long double)a);
    }
    U.push_back(u);
  }
  rollout(g.md, g.k0, LVec(g.x0.begin(), g.x0.end()), U, X, cost);
  return cost;
}
} // namespace verif
