// Check C05: the DDP iteration protocol, on an adversarial scalar environment and on structured problems.
#include "ddp_gen.h"
#include "ddp_ref.h"
using namespace verif;

template<class Solver>
void compare(Ctx & c, const Solver & s, bool result, const RefDdp & ref, double tol)
{
  const auto & tr = s.traceDataList();
  auto lbl = [&](size_t i, const char * w) { return std::string("iteration ") + std::to_string(i) + ": " + w; };
  size_t n = std::min(tr.size(), ref.trace.size());
  for(size_t i = 0; i < n; i++)
  {
    const auto & a = tr[i];
    const auto & b = ref.trace[i];
    auto chk = [&](const char * w, double x, long double y, double ab)
    {
      if(!close(x, y, tol, ab)) fail(lbl(i, w) + " is " + str(x) + ", the protocol gives " + str(double(y)));
    };
    chk("lambda", a.lambda, b.lambda, 1e-12 * double(b.lambda) + 1e-300);
    chk("dlambda", a.dlambda, b.dlambda, 1e-12);
    if(i > 0)
    {
      chk("k_rel_norm", a.k_rel_norm, b.k_rel, 1e-9);
      if(b.tried)
      {
        chk("alpha", a.alpha, b.alpha, 1e-12);
        if(std::isfinite(double(b.act))) chk("actual cost update", a.cost_update_actual, b.act, 1e-8 * double(1 + std::abs(b.cost)));
        chk("expected cost update", a.cost_update_expected, b.exp, 1e-8);
      }
    }
    chk("cost", a.cost, b.cost, 1e-8);
  }
  if(tr.size() != ref.trace.size())
    fail("solve() ran " + std::to_string(tr.size() - 1) + " iterations, the protocol gives "
         + std::to_string(ref.trace.size() - 1));
  if(result != ref.result)
    fail(std::string("solve() returned ") + (result ? "true" : "false") + ", the protocol gives "
         + (ref.result ? "true" : "false"));
  const auto & cd = s.controlData();
  for(size_t i = 0; i < ref.U.size(); i++)
    for(size_t j = 0; j < ref.U[i].size(); j++)
      if(!close(cd.u_list[i](j), ref.U[i][j], tol, 1e-8))
        fail("returned input " + std::to_string(i) + " is " + str(toVec(cd.u_list[i])) + ", the protocol gives "
             + str(double(ref.U[i][j])) + " in dimension " + std::to_string(j));
}

// ---- adversarial scalar environment: every answer of the user problem is a choice -------------------------------
struct Answers
{
  struct Deriv
  {
    double lu, luu, vx, vxx;
  };
  std::vector<std::pair<double, double>> cost; // u -> cost
  std::vector<std::pair<double, Deriv>> deriv; // u -> derivatives
  template<class T>
  static const T * find(const std::vector<std::pair<double, T>> & v, double u)
  {
    for(auto & p : v)
      if(std::abs(p.first - u) <= 1e-9 * (1 + std::abs(u))) return &p.second;
    return nullptr;
  }
};

class ScalarProblem : public nmpc_ddp::DDPProblem<1, 1>
{
public:
  ScalarProblem(std::shared_ptr<Answers> a) : DDPProblem(0.1), a_(a) {}
  StateDimVector stateEq(double, const StateDimVector & x, const InputDimVector & u) const override
  {
    return x + 2 * u;
  }
  double runningCost(double, const StateDimVector &, const InputDimVector & u) const override
  {
    auto * p = Answers::find(a_->cost, u(0));
    return p ? *p : 1e6; // an input the protocol never tries: the trace comparison tells whether it mattered
  }
  double terminalCost(double, const StateDimVector &) const override
  {
    return 0;
  }
  void calcStateEqDeriv(double,
                        const StateDimVector &,
                        const InputDimVector & u,
                        Eigen::Ref<StateStateDimMatrix> fx,
                        Eigen::Ref<StateInputDimMatrix> fu) const override
  {
    cur_ = u(0);
    fx << 1;
    fu << 2;
  }
  void calcStateEqDeriv(double t,
                        const StateDimVector & x,
                        const InputDimVector & u,
                        Eigen::Ref<StateStateDimMatrix> fx,
                        Eigen::Ref<StateInputDimMatrix> fu,
                        std::vector<StateStateDimMatrix> &,
                        std::vector<InputInputDimMatrix> &,
                        std::vector<StateInputDimMatrix> &) const override
  {
    calcStateEqDeriv(t, x, u, fx, fu);
  }
  void calcRunningCostDeriv(double,
                            const StateDimVector &,
                            const InputDimVector & u,
                            Eigen::Ref<StateDimVector> lx,
                            Eigen::Ref<InputDimVector> lu) const override
  {
    auto * d = Answers::find(a_->deriv, u(0));
    lx << 0;
    lu << (d ? d->lu : 0.0);
  }
  void calcRunningCostDeriv(double t,
                            const StateDimVector & x,
                            const InputDimVector & u,
                            Eigen::Ref<StateDimVector> lx,
                            Eigen::Ref<InputDimVector> lu,
                            Eigen::Ref<StateStateDimMatrix> lxx,
                            Eigen::Ref<InputInputDimMatrix> luu,
                            Eigen::Ref<StateInputDimMatrix> lxu) const override
  {
    calcRunningCostDeriv(t, x, u, lx, lu);
    auto * d = Answers::find(a_->deriv, u(0));
    lxx << 0;
    luu << (d ? d->luu : 1.0);
    lxu << 0;
  }
  void calcTerminalCostDeriv(double, const StateDimVector & x, Eigen::Ref<StateDimVector> vx) const override
  {
    auto * d = Answers::find(a_->deriv, (x(0) - x0_) / 2);
    vx << (d ? d->vx : 0.0);
  }
  void calcTerminalCostDeriv(double t,
                             const StateDimVector & x,
                             Eigen::Ref<StateDimVector> vx,
                             Eigen::Ref<StateStateDimMatrix> vxx) const override
  {
    calcTerminalCostDeriv(t, x, vx);
    auto * d = Answers::find(a_->deriv, (x(0) - x0_) / 2);
    vxx << (d ? d->vxx : 0.0);
  }
  double x0_ = 0.5;
  mutable double cur_ = 0;
  std::shared_ptr<Answers> a_;
};

static void scalar(Ctx & c, int iters, bool deep)
{
  auto ans = std::make_shared<Answers>();
  auto prob = std::make_shared<ScalarProblem>(ans);
  nmpc_ddp::DDPSolver<1, 1> solver(prob);
  auto & cfg = solver.config();
  cfg.print_level = c.devOf<int>("print", {0, 3});
  cfg.horizon_steps = 1;
  cfg.max_iter = iters;
  cfg.reg_type = c.devOf<int>("reg_type", {1, 2});
  cfg.initial_lambda = c.devOf<double>("lambda0", {1e-4, 0.0, 5e-7, 3.0});
  cfg.initial_dlambda = c.devOf<double>("dlambda0", {1.0, 0.2, 3.0});
  cfg.lambda_factor = c.devOf<double>("factor", {1.6, 10.0});
  cfg.lambda_min = c.devOf<double>("lambda_min", {1e-6, 7e-5});
  cfg.lambda_max = c.devOf<double>("lambda_max", {1e10, 2e-4, 4.0});
  cfg.lambda_thre = c.devOf<double>("lambda_thre", {1e-5, 0.5});
  cfg.cost_update_ratio_thre = c.devOf<double>("ratio_thre", {0.0, 0.3});
  cfg.cost_update_thre = c.devOf<double>("cost_thre", {1e-7, -1.0, 0.2, 0.25});
  cfg.k_rel_norm_thre = c.devOf<double>("k_thre", {1e-4, 0.2});
  int al = c.dev("alpha", 3);
  std::vector<double> alphas = al == 0 ? std::vector<double>{1.0, 0.25} : (al == 1 ? std::vector<double>{5.0, 0.5} : std::vector<double>{0.7});
  cfg.alpha_list.resize(alphas.size());
  for(size_t i = 0; i < alphas.size(); i++) cfg.alpha_list[i] = alphas[i];
  bool prior = c.dev("prior", 2);
  // input limits around the initial input 0.3: none, wide, near, one-sided, at the initial input, excluding it
  static const double LIM[][2] = {{0, 0}, {-2.0, 2.5}, {0.2, 0.55}, {-HUGE_VAL, 0.7}, {0.3, 1.1}, {-1.0, 0.1}};
  int lk = c.dev("limits", 6);
  if(lk)
  {
    cfg.with_input_constraint = true;
    solver.setInputLimitsFunc(
        [lk](double)
        {
          using V = nmpc_ddp::DDPSolver<1, 1>::InputDimVector;
          V a, b;
          a << LIM[lk][0];
          b << LIM[lk][1];
          return std::array<V, 2>{a, b};
        });
  }
  // coefficients that are powers of two: limits and thresholds can be met exactly
  int dy = c.dev("dyadic", 6);
  if(dy)
  {
    cfg.initial_lambda = std::ldexp(1.0, -10);
    cfg.initial_dlambda = 1.0;
    cfg.lambda_factor = 2.0;
    cfg.lambda_min = std::ldexp(1.0, dy == 3 ? -11 : -20);
    cfg.lambda_max = dy == 1 ? std::ldexp(1.0, -7) : (dy == 2 ? 1.0 : 1e10);
    cfg.lambda_thre = std::ldexp(1.0, dy == 4 ? -10 : (dy == 5 ? -7 : -16));
  }
  if(!deep) c.claim();
  int asked = 0;
  auto pick = [&](const char * nm, int n)
  {
    if(deep && ++asked == 6) c.claim();
    return deep ? c.dev(nm, n) : c.free(nm, n);
  };
  static const Answers::Deriv D[] = {
      {-1.0, 1.0, 0.1, 0.25}, // regular
      {-1.0, -1.0, 0.0, 0.0}, // needs regularisation
      {-1e-6, 1.0, 0.0, 0.1}, // tiny gradient
      {0.5, 1.0, -0.6, -0.3}, // negative value Hessian: type 1 and 2 differ, needs regularisation
      {std::nan(""), 1.0, 0.0, 0.0}, // not a number
      {-2.0, 40.0, 0.3, 0.0}, // stiff
  };
  RefEnv e;
  e.N = 1;
  e.n = 1;
  long double base = 3.0;
  long double cur_cost = base;
  RefDdp ref;
  auto costOf = [&](double u) -> long double
  {
    if(auto * p = Answers::find(ans->cost, u)) return *p;
    double v = base;
    if(!ans->cost.empty())
    {
      int k = pick("cost", 7);
      long double J = cur_cost;
      v = k == 0   ? double(J) - 0.25
          : k == 1 ? double(J) + 0.5
          : k == 2 ? double(J) - 4e-8
          : k == 3 ? std::nan("")
          : k == 4 ? double(J) - 5.0
          : k == 5 ? double(J)
                   : std::numeric_limits<double>::infinity();
    }
    ans->cost.push_back({u, v});
    return v;
  };
  e.f = [](int, const LVec & x, const LVec & u) { return LVec{x[0] + 2 * u[0]}; };
  e.l = [&](int, const LVec &, const LVec & u) { return costOf(double(u[0])); };
  e.lf = [](const LVec &) { return 0.0L; };
  auto derivOf = [&](double u) -> Answers::Deriv
  {
    if(auto * p = Answers::find(ans->deriv, u)) return *p;
    Answers::Deriv d = D[pick("deriv", 6)];
    ans->deriv.push_back({u, d});
    return d;
  };
  e.iterationStart = [&]() { cur_cost = sumv(ref.cost); };
  e.fd = [](int, const LVec &, const LVec &, LMat & fx, LMat & fu)
  {
    fx = LMat(1, 1, 1);
    fu = LMat(1, 1, 2);
  };
  e.ld = [&](int, const LVec &, const LVec & u, LVec & lx, LVec & lu, LMat & lxx, LMat & luu, LMat & lxu)
  {
    auto d = derivOf(double(u[0]));
    lx = {0};
    lu = {d.lu};
    lxx = LMat(1, 1, 0);
    luu = LMat(1, 1, d.luu);
    lxu = LMat(1, 1, 0);
  };
  e.lfd = [&](const LVec & x, LVec & vx, LMat & vxx)
  {
    auto d = derivOf(double((x[0] - 0.5L) / 2));
    vx = {d.vx};
    vxx = LMat(1, 1, d.vxx);
  };
  if(lk)
    e.limits = [&](int, int, long double & a, long double & b)
    {
      a = LIM[lk][0];
      b = LIM[lk][1];
    };
  ref.exact = true;
  ref.run(e, refCfg(cfg), LVec{0.5}, {LVec{0.3}});
  c.claim();
  // two distinct inputs the memo cannot tell apart would make the environment inconsistent
  if(ref.fragile)
  {
    c.outcome("decision at rounding level, not compared");
    return;
  }
  nmpc_ddp::DDPSolver<1, 1>::StateDimVector x0;
  nmpc_ddp::DDPSolver<1, 1>::InputDimVector u0;
  x0 << 0.5;
  u0 << 0.3;
  if(prior)
  {
    nmpc_ddp::DDPSolver<1, 1>::InputDimVector up;
    up << 7.5; // unknown to the answer table: no improvement is found, lambda grows
    solver.solve(0.2, x0, {up});
  }
  bool res = solver.solve(0.2, x0, {u0});
  compare(c, solver, res, ref, 1e-9);
  c.traces();
  c.trans(ref.trace.size() - 1 + ref.backward_failures);
  c.outcome(std::string(res ? "true" : "false") + " after " + std::to_string(ref.trace.size() - 1) + " iterations, "
            + std::to_string(std::min(ref.backward_failures, 9L)) + " backward failures, "
            + std::to_string(ref.rejected) + " rejections");
  uint64_t h = 5;
  for(auto & t : ref.trace)
    for(long double d : {t.cost, t.lambda, t.dlambda, t.alpha}) h = hashDouble(h, double(d));
  c.state(h);
  c.nontrivialCase();
}

// ---- structured problems: the first iterations are exactly the regularised DDP steps ----------------------------
template<int S, int U>
void steps(Ctx & c)
{
  GenOpt o;
  o.n = S;
  o.mfix = U;
  Gen g = genProblem(c, o);
  DdpRun<S, U> r(g);
  auto & cfg = r.solver->config();
  cfg.max_iter = c.devOf<int>("iters", {2, 1, 4});
  cfg.reg_type = c.devOf<int>("reg_type", {1, 2});
  cfg.initial_lambda = c.devOf<double>("lambda0", {1e-4, 0.0, 0.8, 30.0});
  cfg.initial_dlambda = c.devOf<double>("dlambda0", {1.0, 4.0});
  cfg.lambda_factor = c.devOf<double>("factor", {1.6, 3.0});
  double shift = c.devOf<double>("indefinite", {0.0, 2.0, 6.0});
  int al = c.dev("alpha", 4);
  if(al == 3)
  {
    cfg.alpha_list.resize(2);
    cfg.alpha_list << 30.0, 12.0;
  }
  if(al == 1) cfg.alpha_list = Eigen::VectorXd::Constant(1, 0.6);
  if(al == 2)
  {
    cfg.alpha_list.resize(3);
    cfg.alpha_list << 6.0, 1.7, 0.4;
  }
  LimitSpec lim;
  lim.kind = c.dev("limits", 8);
  int prior = c.dev("prior", 6);
  c.claim();
  setLimits(r, lim);
  if(shift > 0)
    for(auto & R : r.env->g.md.R)
      for(int i = 0; i < R.r; i++) R(i, i) -= shift;
  const Gen & gg = r.env->g;
  const Model & md = gg.md;
  RefEnv e;
  e.N = gg.N;
  e.n = S;
  int k0 = gg.k0;
  e.f = [&](int i, const LVec & x, const LVec & u) { return md.f<long double>(k0 + i, x, u); };
  e.l = [&](int i, const LVec & x, const LVec & u) { return md.l<long double>(k0 + i, x, u); };
  e.lf = [&](const LVec & x) { return md.lf<long double>(k0 + gg.N, x); };
  e.fd = [&](int i, const LVec & x, const LVec & u, LMat & a, LMat & b) { md.fDeriv<long double>(k0 + i, x, u, a, b); };
  e.ld = [&](int i, const LVec & x, const LVec & u, LVec & lx, LVec & lu, LMat & lxx, LMat & luu, LMat & lxu)
  { md.lDeriv<long double>(k0 + i, x, u, lx, lu, lxx, luu, lxu); };
  e.lfd = [&](const LVec & x, LVec & vx, LMat & vxx) { md.lfDeriv<long double>(k0 + gg.N, x, vx, vxx); };
  if(lim.kind)
    e.limits = [&](int i, int j, long double & a, long double & b)
    {
      double p, q;
      lim.get(k0 + i, j, p, q);
      a = p;
      b = q;
    };
  RefDdp ref;
  std::vector<LVec> u0;
  for(auto & u : gg.u0) u0.push_back(LVec(u.begin(), u.end()));
  ref.run(e, refCfg(cfg), LVec(gg.x0.begin(), gg.x0.end()), u0);
  if(ref.fragile)
  {
    c.outcome("decision at rounding level, not compared");
    return;
  }
  for(auto & t : ref.trace)
    if(!(std::abs(t.cost) < 1e7L))
    {
      c.outcome("rollout amplifies rounding errors, not compared");
      return;
    }
  r.prior(prior);
  r.solve();
  compare(c, *r.solver, r.result, ref, 1e-6);
  c.traces();
  c.trans(ref.trace.size() - 1 + ref.backward_failures);
  c.outcome(std::string(lim.kind ? "limited, " : "") + (r.result ? "true" : "false") + ", "
            + std::to_string(std::min(ref.backward_failures, 5L)) + " backward failures, "
            + std::to_string(ref.rejected) + " rejections");
  c.state(hashVec(S * 8 + U, ddpObs(*r.solver, r.result)));
  c.nontrivialCase();
}

#ifndef QB
#  define QB 3
#endif
int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#ifdef SCALAR
  sp.push_back({"protocol", [](Ctx & c) { scalar(c, 2, false); }, 1, 2});
  sp.push_back({"protocol_deep", [](Ctx & c) { scalar(c, 8, true); }, 4, 5});
#else
  sp.push_back({"steps", steps<SD, UD>, QB, QB + 1});
#endif
  return exploreMain(argc, argv, sp);
}
