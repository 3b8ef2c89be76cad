// Wraps a verif::Model as the user problem handed to the solvers, with a monitor on every callback.
#pragma once
#include "eigen_setup.h"
#include "gen.h"
#include <nmpc_ddp/DDPProblem.h>

namespace verif
{
template<class E>
Vec toVec(const E & v)
{
  Vec o(v.size());
  for(Eigen::Index i = 0; i < v.size(); i++) o[i] = v(i);
  return o;
}
template<class E>
LVec toL(const E & v)
{
  LVec o(v.size());
  for(Eigen::Index i = 0; i < v.size(); i++) o[i] = v(i);
  return o;
}
template<class E>
E fromVec(const Vec & v)
{
  E o;
  o.resize(v.size());
  for(size_t i = 0; i < v.size(); i++) o(i) = v[i];
  return o;
}
inline bool finite(const Vec & v)
{
  for(double d : v)
    if(!std::isfinite(d)) return false;
  return true;
}
inline std::string str(double d)
{
  char b[40];
  snprintf(b, sizeof(b), "%.12g", d);
  return b;
}
inline std::string str(const Vec & v)
{
  std::string s = "[";
  for(size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + str(v[i]);
  return s + "]";
}
inline bool close(long double a, long double b, long double rel, long double abs_ = 0)
{
  if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if(std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b));
}

// Monitored environment shared by the problem wrappers.
struct Env
{
  Gen g;
  std::string error; // first monitor violation
  bool monitor = true;
  int k_start = 0, N = 0; // horizon currently being solved
  long calls = 0;
  // fault injection: value added to the result of one kind of callback at one call index
  // kind: 0 stateEq 1 runningCost 2 terminalCost 3 stateEqDeriv 4 runningCostDeriv 5 terminalCostDeriv 6 ineq 7 ineqDeriv
  std::function<double(int kind, int k, long nth)> fault; // added to the first output entry (0: none)
  long nth[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  std::function<void(int kind)> point; // scheduling point

  void note(const std::string & s)
  {
    if(error.empty()) error = s;
  }
  double enter(int kind, int k)
  {
    calls++;
    if(point) point(kind);
    long i = nth[kind]++;
    return fault ? fault(kind, k, i) : 0.0;
  }
  int step(double t, bool terminal, const char * what)
  {
    double err = 0;
    int k = g.md.stepOf(t, &err);
    if(!(err <= 1e-9 * (1 + std::abs(t))))
    {
      note(std::string(what) + " was called with a time that is not on the horizon grid: t=" + str(t));
    }
    if(terminal ? k != k_start + N : (k < k_start || k >= k_start + N))
    {
      note(std::string(what) + " was called with time " + str(t) + " (step " + std::to_string(k - k_start)
           + " of a horizon of " + std::to_string(N) + " steps)");
      // evaluated at the time asked for, where the problem data may differ
      k = std::min(std::max(k, 0), g.md.steps - 1);
    }
    return k;
  }
};

template<int S, int U>
class DdpGen : public nmpc_ddp::DDPProblem<S, U>
{
public:
  using Base = nmpc_ddp::DDPProblem<S, U>;
  using XV = typename Base::StateDimVector;
  using UV = typename Base::InputDimVector;
  using XX = typename Base::StateStateDimMatrix;
  using UU = typename Base::InputInputDimMatrix;
  using XU = typename Base::StateInputDimMatrix;

  DdpGen(std::shared_ptr<Env> env) : Base(env->g.md.dt), env_(env) {}
  using Base::inputDim;
  int inputDim(double t) const override
  {
    if constexpr(U != Eigen::Dynamic) return U;
    return md().m[env_->step(t, false, "inputDim")];
  }
  void checkU(int k, const UV & u, const char * what) const
  {
    if(u.size() != md().m[k])
    {
      env_->note(std::string(what) + " was called with an input of dimension " + std::to_string(u.size())
                 + " at a step whose input dimension is " + std::to_string(md().m[k]));
      throw Violation{env_->error};
    }
  }
  XV stateEq(double t, const XV & x, const UV & u) const override
  {
    int k = env_->step(t, false, "stateEq");
    checkU(k, u, "stateEq");
    double f = env_->enter(0, k);
    XV o = fromVec<XV>(md().template f<double>(k, toVec(x), toVec(u)));
    o(0) += f;
    return o;
  }
  double runningCost(double t, const XV & x, const UV & u) const override
  {
    int k = env_->step(t, false, "runningCost");
    checkU(k, u, "runningCost");
    double f = env_->enter(1, k);
    return md().template l<double>(k, toVec(x), toVec(u)) + f;
  }
  double terminalCost(double t, const XV & x) const override
  {
    int k = env_->step(t, true, "terminalCost");
    double f = env_->enter(2, env_->k_start + env_->N);
    return md().template lf<double>(k, toVec(x)) + f;
  }
  void calcStateEqDeriv(double t, const XV & x, const UV & u, Eigen::Ref<XX> fx, Eigen::Ref<XU> fu) const override
  {
    int k = env_->step(t, false, "calcStateEqDeriv");
    checkU(k, u, "calcStateEqDeriv");
    double f = env_->enter(3, k);
    Mat a, b;
    md().template fDeriv<double>(k, toVec(x), toVec(u), a, b);
    put(fx, a, "state_eq_deriv_x");
    put(fu, b, "state_eq_deriv_u");
    fx(0, 0) += f;
  }
  void calcStateEqDeriv(double t,
                        const XV & x,
                        const UV & u,
                        Eigen::Ref<XX> fx,
                        Eigen::Ref<XU> fu,
                        std::vector<XX> &,
                        std::vector<UU> &,
                        std::vector<XU> &) const override
  {
    calcStateEqDeriv(t, x, u, fx, fu);
  }
  void calcRunningCostDeriv(double t, const XV & x, const UV & u, Eigen::Ref<XV> lx, Eigen::Ref<UV> lu) const override
  {
    XX a;
    UU b(u.size(), u.size());
    XU cc(S, u.size());
    calcRunningCostDeriv(t, x, u, lx, lu, a, b, cc);
  }
  void calcRunningCostDeriv(double t,
                            const XV & x,
                            const UV & u,
                            Eigen::Ref<XV> lx,
                            Eigen::Ref<UV> lu,
                            Eigen::Ref<XX> lxx,
                            Eigen::Ref<UU> luu,
                            Eigen::Ref<XU> lxu) const override
  {
    int k = env_->step(t, false, "calcRunningCostDeriv");
    checkU(k, u, "calcRunningCostDeriv");
    double f = env_->enter(4, k);
    Vec vx, vu;
    Mat a, b, cc;
    md().template lDeriv<double>(k, toVec(x), toVec(u), vx, vu, a, b, cc);
    putv(lx, vx, "running_cost_deriv_x");
    putv(lu, vu, "running_cost_deriv_u");
    put(lxx, a, "running_cost_deriv_xx");
    put(luu, b, "running_cost_deriv_uu");
    put(lxu, cc, "running_cost_deriv_xu");
    lx(0) += f;
  }
  void calcTerminalCostDeriv(double t, const XV & x, Eigen::Ref<XV> lx) const override
  {
    XX a;
    calcTerminalCostDeriv(t, x, lx, a);
  }
  void calcTerminalCostDeriv(double t, const XV & x, Eigen::Ref<XV> lx, Eigen::Ref<XX> lxx) const override
  {
    int k = env_->step(t, true, "calcTerminalCostDeriv");
    double f = env_->enter(5, env_->k_start + env_->N);
    Vec v;
    Mat a;
    md().template lfDeriv<double>(k, toVec(x), v, a);
    putv(lx, v, "terminal_cost_deriv_x");
    put(lxx, a, "terminal_cost_deriv_xx");
    lx(0) += f;
  }

  const Model & md() const
  {
    return env_->g.md;
  }
  template<class R>
  void put(R & o, const Mat & m, const char * what) const
  {
    if(o.rows() != m.r || o.cols() != m.c)
    {
      env_->note(std::string(what) + " was passed with wrong dimensions");
      throw Violation{env_->error};
    }
    for(int i = 0; i < m.r; i++)
      for(int j = 0; j < m.c; j++) o(i, j) = m(i, j);
  }
  template<class R>
  void putv(R & o, const Vec & v, const char * what) const
  {
    if(o.size() != static_cast<Eigen::Index>(v.size()))
    {
      env_->note(std::string(what) + " was passed with wrong dimensions");
      throw Violation{env_->error};
    }
    for(size_t i = 0; i < v.size(); i++) o(i) = v[i];
  }
  std::shared_ptr<Env> env_;
};

inline bool sameObs(const std::vector<double> & a, const std::vector<double> & b, std::string & why)
{
  if(a.size() != b.size())
  {
    why = "different amount of observable data: " + std::to_string(a.size()) + " vs " + std::to_string(b.size());
    return false;
  }
  for(size_t i = 0; i < a.size(); i++)
  {
    if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
    {
      why = "observable value " + std::to_string(i) + ": " + str(a[i]) + " vs " + str(b[i]);
      return false;
    }
  }
  return true;
}
inline uint64_t hashVec(uint64_t h, const std::vector<double> & v)
{
  for(double d : v) h = hashDouble(h, d);
  return h;
}
} // namespace verif
