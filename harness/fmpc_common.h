// Wraps a verif::Model as the user problem handed to the FMPC solver, and a dense reference for one interior-point
// iteration.
#pragma once
#include "problem_common.h"
#include <nmpc_fmpc/FmpcSolver.h>

namespace verif
{
template<int S, int U, int G>
class FmpcGen : public nmpc_fmpc::FmpcProblem<S, U, G>
{
public:
  using Base = nmpc_fmpc::FmpcProblem<S, U, G>;
  using XV = typename Base::StateDimVector;
  using UV = typename Base::InputDimVector;
  using GV = typename Base::IneqDimVector;
  using XX = typename Base::StateStateDimMatrix;
  using UU = typename Base::InputInputDimMatrix;
  using XU = typename Base::StateInputDimMatrix;
  using GX = typename Base::IneqStateDimMatrix;
  using GU = typename Base::IneqInputDimMatrix;

  FmpcGen(std::shared_ptr<Env> env) : Base(env->g.md.dt), env_(env), d_(env) {}
  using Base::ineqDim;
  using Base::inputDim;
  int inputDim(double t) const override
  {
    return d_.inputDim(t);
  }
  int ineqDim(double t) const override
  {
    if constexpr(G != Eigen::Dynamic) return G;
    return md().p[env_->step(t, false, "ineqDim")];
  }
  XV stateEq(double t, const XV & x, const UV & u) const override
  {
    return d_.stateEq(t, x, u);
  }
  double runningCost(double t, const XV & x, const UV & u) const override
  {
    return d_.runningCost(t, x, u);
  }
  double terminalCost(double t, const XV & x) const override
  {
    return d_.terminalCost(t, x);
  }
  GV ineqConst(double t, const XV & x, const UV & u) const override
  {
    int k = env_->step(t, false, "ineqConst");
    d_.checkU(k, u, "ineqConst");
    double f = env_->enter(6, k);
    GV o = fromVec<GV>(md().template g<double>(k, toVec(x), toVec(u)));
    if(o.size() > 0) o(0) += f;
    return o;
  }
  void calcStateEqDeriv(double t, const XV & x, const UV & u, Eigen::Ref<XX> fx, Eigen::Ref<XU> fu) const override
  {
    d_.calcStateEqDeriv(t, x, u, fx, fu);
  }
  void calcRunningCostDeriv(double t, const XV & x, const UV & u, Eigen::Ref<XV> lx, Eigen::Ref<UV> lu) const override
  {
    d_.calcRunningCostDeriv(t, x, u, lx, lu);
  }
  void calcRunningCostDeriv(double t,
                            const XV & x,
                            const UV & u,
                            Eigen::Ref<XV> lx,
                            Eigen::Ref<UV> lu,
                            Eigen::Ref<XX> lxx,
                            Eigen::Ref<UU> luu,
                            Eigen::Ref<XU> lxu) const override
  {
    d_.calcRunningCostDeriv(t, x, u, lx, lu, lxx, luu, lxu);
  }
  void calcTerminalCostDeriv(double t, const XV & x, Eigen::Ref<XV> lx) const override
  {
    d_.calcTerminalCostDeriv(t, x, lx);
  }
  void calcTerminalCostDeriv(double t, const XV & x, Eigen::Ref<XV> lx, Eigen::Ref<XX> lxx) const override
  {
    d_.calcTerminalCostDeriv(t, x, lx, lxx);
  }
  void calcIneqConstDeriv(double t, const XV & x, const UV & u, Eigen::Ref<GX> gx, Eigen::Ref<GU> gu) const override
  {
    int k = env_->step(t, false, "calcIneqConstDeriv");
    d_.checkU(k, u, "calcIneqConstDeriv");
    double f = env_->enter(7, k);
    Mat a, b;
    md().template gDeriv<double>(k, toVec(x), toVec(u), a, b);
    d_.put(gx, a, "ineq_const_deriv_x");
    d_.put(gu, b, "ineq_const_deriv_u");
    if(a.r > 0) gx(0, 0) += f;
  }
  const Model & md() const
  {
    return env_->g.md;
  }
  std::shared_ptr<Env> env_;
  DdpGen<S, U> d_;
};

// Plain form of the interior-point variables.
template<class V>
struct VarsT
{
  std::vector<V> x, u, lam, s, nu;
  std::vector<double> flat() const
  {
    std::vector<double> o;
    for(auto * l : {&x, &u, &lam, &s, &nu})
      for(auto & v : *l)
        for(auto d : v) o.push_back(static_cast<double>(d));
    return o;
  }
};
using Vars = VarsT<Vec>;
using LVars = VarsT<LVec>;

inline LVars toLV(const Vars & v)
{
  LVars o;
  auto cv = [](const std::vector<Vec> & a)
  {
    std::vector<LVec> r;
    for(auto & x : a) r.push_back(LVec(x.begin(), x.end()));
    return r;
  };
  o.x = cv(v.x);
  o.u = cv(v.u);
  o.lam = cv(v.lam);
  o.s = cv(v.s);
  o.nu = cv(v.nu);
  return o;
}

template<int S, int U, int G>
struct FmpcRun
{
  using Solver = nmpc_fmpc::FmpcSolver<S, U, G>;
  using Problem = FmpcGen<S, U, G>;
  using Variable = typename Solver::Variable;
  using Status = typename Solver::Status;
  using XV = typename Problem::XV;
  using UV = typename Problem::UV;
  using GV = typename Problem::GV;
  std::shared_ptr<Env> env;
  std::shared_ptr<Problem> prob;
  std::shared_ptr<Solver> solver;
  Status status = Status::Uninitialized;

  explicit FmpcRun(const Gen & g)
  {
    env = std::make_shared<Env>();
    env->g = g;
    env->k_start = g.k0;
    env->N = g.N;
    prob = std::make_shared<Problem>(env);
    solver = std::make_shared<Solver>(prob);
    solver->config().print_level = 0;
    solver->config().horizon_steps = g.N;
  }
  static Variable toVariable(const Vars & v)
  {
    Variable o(static_cast<int>(v.u.size()));
    o.x_list.clear();
    for(auto & x : v.x) o.x_list.push_back(fromVec<XV>(x));
    o.u_list.clear();
    for(auto & x : v.u) o.u_list.push_back(fromVec<UV>(x));
    o.lambda_list.clear();
    for(auto & x : v.lam) o.lambda_list.push_back(fromVec<XV>(x));
    o.s_list.clear();
    for(auto & x : v.s) o.s_list.push_back(fromVec<GV>(x));
    o.nu_list.clear();
    for(auto & x : v.nu) o.nu_list.push_back(fromVec<GV>(x));
    o.print_level = 0;
    return o;
  }
  static Vars fromVariable(const Variable & v)
  {
    Vars o;
    for(auto & x : v.x_list) o.x.push_back(toVec(x));
    for(auto & x : v.u_list) o.u.push_back(toVec(x));
    for(auto & x : v.lambda_list) o.lam.push_back(toVec(x));
    for(auto & x : v.s_list) o.s.push_back(toVec(x));
    for(auto & x : v.nu_list) o.nu.push_back(toVec(x));
    return o;
  }
  Vars vars() const
  {
    return fromVariable(solver->variable());
  }
  // Earlier solve on the same object: 1 longer horizon, 2 one step, 3 other start, 4 line search on, one iteration
  void prior(int kind)
  {
    if(kind == 0) return;
    const Gen & g = env->g;
    auto saved = solver->config();
    int N = kind == 1 ? g.N + 2 : (kind == 2 ? 1 : g.N);
    int k0 = kind == 3 ? (g.k0 ? 0 : 2) : g.k0;
    Vec x0 = g.x0;
    for(auto & d : x0) d = 0.4 - 0.7 * d;
    Vars v;
    for(int i = 0; i <= N; i++)
    {
      v.x.push_back(Vec(g.md.n, 0.1));
      v.lam.push_back(Vec(g.md.n, -0.2));
      if(i == N) break;
      v.u.push_back(Vec(g.md.m[k0 + i], 0.05));
      v.s.push_back(Vec(g.md.p[k0 + i], 0.8));
      v.nu.push_back(Vec(g.md.p[k0 + i], 0.6));
    }
    auto & cfg = solver->config();
    cfg.horizon_steps = N;
    cfg.max_iter = kind == 4 ? 1 : 5;
    cfg.kkt_error_thre = 0;
    cfg.enable_line_search = kind == 4;
    env->k_start = k0;
    env->N = N;
    solver->solve(g.md.t0 + k0 * g.md.dt, fromVec<XV>(x0), toVariable(v));
    env->k_start = g.k0;
    env->N = g.N;
    solver->config() = saved;
  }
  Status solve(const Vars & init)
  {
    const Gen & g = env->g;
    status = solver->solve(g.t(), fromVec<XV>(g.x0), toVariable(init));
    return status;
  }
};

// Initial guess built from the alphabet.
inline Vars genVars(Ctx & c, const Gen & g)
{
  Vars v;
  int tx = c.dev("gx", 3), tl = c.dev("glam", 3), ts = c.dev("gs", 4), tn = c.dev("gnu", 4);
  const Model & md = g.md;
  v.x.push_back(Vec(md.n, 0));
  for(int i = 0; i <= g.N; i++)
  {
    Vec x(md.n), l(md.n);
    for(int j = 0; j < md.n; j++)
    {
      x[j] = tx == 0 ? 0.2 * tabv(i + j) : (tx == 1 ? 0.0 : g.x0[j]);
      l[j] = tl == 0 ? 0.1 * tabv(2 * i + j) : (tl == 1 ? 0.0 : 1.0 - 0.5 * i);
    }
    if(i == 0)
    {
      v.x[0] = x;
    }
    else
    {
      v.x.push_back(x);
    }
    v.lam.push_back(l);
  }
  v.u = g.u0;
  for(int i = 0; i < g.N; i++)
  {
    int p = md.p[g.k0 + i];
    Vec s(p), nu(p);
    for(int j = 0; j < p; j++)
    {
      s[j] = ts == 0 ? 0.5 + 0.25 * ((i + j) % 3) : (ts == 1 ? 1.0 : (ts == 2 ? 0.01 : (j % 2 ? 3.0 : 0.05)));
      nu[j] = tn == 0 ? 0.4 + 0.2 * ((i + 2 * j) % 3) : (tn == 1 ? 1.0 : (tn == 2 ? 0.001 : (i % 2 ? 5.0 : 0.2)));
    }
    v.s.push_back(s);
    v.nu.push_back(nu);
  }
  return v;
}

// KKT residual pieces of the discretised problem, recomputed from the model alone (long double).
struct Kkt
{
  LVec x_init; // x0 - x[0]
  std::vector<LVec> dyn, ineq, Lx, Lu, comp;
  LVec LxN;
  long double err = 0;
};
inline Kkt kkt(const Gen & g, const Vec & x0, const LVars & v)
{
  const Model & md = g.md;
  Kkt o;
  long double e2 = 0;
  long double dt = md.dt;
  o.x_init = LVec(md.n);
  for(int i = 0; i < md.n; i++)
  {
    o.x_init[i] = static_cast<long double>(x0[i]) - v.x[0][i];
    e2 += o.x_init[i] * o.x_init[i];
  }
  for(int i = 0; i < g.N; i++)
  {
    int k = g.k0 + i;
    LMat fx, fu, gx, gu, lxx, luu, lxu;
    LVec lx, lu;
    md.fDeriv<long double>(k, v.x[i], v.u[i], fx, fu);
    md.gDeriv<long double>(k, v.x[i], v.u[i], gx, gu);
    md.lDeriv<long double>(k, v.x[i], v.u[i], lx, lu, lxx, luu, lxu);
    LVec d = md.f<long double>(k, v.x[i], v.u[i]);
    for(int j = 0; j < md.n; j++) d[j] -= v.x[i + 1][j];
    LVec q = md.g<long double>(k, v.x[i], v.u[i]);
    for(int j = 0; j < md.p[k]; j++) q[j] += v.s[i][j];
    LVec a = mulTv(fx, v.lam[i + 1]), b = mulTv(gx, v.nu[i]);
    LVec Lx(md.n), Lu(md.m[k]), cp(md.p[k]);
    for(int j = 0; j < md.n; j++) Lx[j] = -v.lam[i][j] + dt * lx[j] + a[j] + b[j];
    a = mulTv(fu, v.lam[i + 1]);
    b = mulTv(gu, v.nu[i]);
    for(int j = 0; j < md.m[k]; j++) Lu[j] = dt * lu[j] + a[j] + b[j];
    for(int j = 0; j < md.p[k]; j++) cp[j] = v.s[i][j] * v.nu[i][j];
    for(auto * w : {&d, &q, &Lx, &Lu, &cp})
      for(auto z : *w) e2 += z * z;
    o.dyn.push_back(d);
    o.ineq.push_back(q);
    o.Lx.push_back(Lx);
    o.Lu.push_back(Lu);
    o.comp.push_back(cp);
  }
  LMat dummy;
  md.lfDeriv<long double>(g.k0 + g.N, v.x[g.N], o.LxN, dummy);
  for(int j = 0; j < md.n; j++)
  {
    o.LxN[j] -= v.lam[g.N][j];
    e2 += o.LxN[j] * o.LxN[j];
  }
  o.err = std::sqrt(e2);
  return o;
}

// Newton direction of the perturbed KKT system, by dense elimination (long double). Returns a conditioning estimate.
inline long double newtonDir(const Gen & g, const Vec & x0, const LVars & v, long double eps, LVars & d)
{
  const Model & md = g.md;
  Kkt r = kkt(g, x0, v);
  int N = g.N, n = md.n;
  // unknown layout per stage: dx_i, du_i, dlam_i, ds_i, dnu_i ; finally dx_N, dlam_N
  std::vector<int> ox(N + 1), ou(N), ol(N + 1), os(N), on(N);
  int sz = 0;
  for(int i = 0; i <= N; i++)
  {
    ox[i] = sz;
    sz += n;
    ol[i] = sz;
    sz += n;
    if(i < N)
    {
      ou[i] = sz;
      sz += md.m[g.k0 + i];
      os[i] = sz;
      sz += md.p[g.k0 + i];
      on[i] = sz;
      sz += md.p[g.k0 + i];
    }
  }
  LMat K(sz, sz);
  LVec b(sz, 0), sol;
  int row = 0;
  long double dt = md.dt;
  for(int j = 0; j < n; j++, row++)
  {
    K(row, ox[0] + j) = 1;
    b[row] = r.x_init[j];
  }
  for(int i = 0; i < N; i++)
  {
    int k = g.k0 + i, m = md.m[k], p = md.p[k];
    LMat fx, fu, gx, gu, lxx, luu, lxu;
    LVec lx, lu;
    md.fDeriv<long double>(k, v.x[i], v.u[i], fx, fu);
    md.gDeriv<long double>(k, v.x[i], v.u[i], gx, gu);
    md.lDeriv<long double>(k, v.x[i], v.u[i], lx, lu, lxx, luu, lxu);
    for(int j = 0; j < n; j++, row++) // dynamics
    {
      for(int q = 0; q < n; q++) K(row, ox[i] + q) += fx(j, q);
      for(int q = 0; q < m; q++) K(row, ou[i] + q) += fu(j, q);
      K(row, ox[i + 1] + j) += -1;
      b[row] = -r.dyn[i][j];
    }
    for(int j = 0; j < p; j++, row++) // inequality
    {
      for(int q = 0; q < n; q++) K(row, ox[i] + q) += gx(j, q);
      for(int q = 0; q < m; q++) K(row, ou[i] + q) += gu(j, q);
      K(row, os[i] + j) += 1;
      b[row] = -r.ineq[i][j];
    }
    for(int j = 0; j < p; j++, row++) // complementarity
    {
      K(row, os[i] + j) += v.nu[i][j];
      K(row, on[i] + j) += v.s[i][j];
      b[row] = -(v.s[i][j] * v.nu[i][j] - eps);
    }
    for(int j = 0; j < n; j++, row++) // stationarity x (Gauss-Newton Hessian: cost only)
    {
      for(int q = 0; q < n; q++) K(row, ox[i] + q) += dt * lxx(j, q);
      for(int q = 0; q < m; q++) K(row, ou[i] + q) += dt * lxu(j, q);
      K(row, ol[i] + j) += -1;
      for(int q = 0; q < n; q++) K(row, ol[i + 1] + q) += fx(q, j);
      for(int q = 0; q < p; q++) K(row, on[i] + q) += gx(q, j);
      b[row] = -r.Lx[i][j];
    }
    for(int j = 0; j < m; j++, row++) // stationarity u
    {
      for(int q = 0; q < n; q++) K(row, ox[i] + q) += dt * lxu(q, j);
      for(int q = 0; q < m; q++) K(row, ou[i] + q) += dt * luu(j, q);
      for(int q = 0; q < n; q++) K(row, ol[i + 1] + q) += fu(q, j);
      for(int q = 0; q < p; q++) K(row, on[i] + q) += gu(q, j);
      b[row] = -r.Lu[i][j];
    }
  }
  LMat lxxN;
  LVec lxN;
  md.lfDeriv<long double>(g.k0 + N, v.x[N], lxN, lxxN);
  for(int j = 0; j < n; j++, row++)
  {
    for(int q = 0; q < n; q++) K(row, ox[N] + q) += lxxN(j, q);
    K(row, ol[N] + j) += -1;
    b[row] = -r.LxN[j];
  }
  long double cond = gauss(K, b, sol);
  if(cond == 0) return 0;
  d = LVars();
  auto seg = [&](int o, int len) { return LVec(sol.begin() + o, sol.begin() + o + len); };
  for(int i = 0; i <= N; i++)
  {
    d.x.push_back(seg(ox[i], n));
    d.lam.push_back(seg(ol[i], n));
    if(i < N)
    {
      d.u.push_back(seg(ou[i], md.m[g.k0 + i]));
      d.s.push_back(seg(os[i], md.p[g.k0 + i]));
      d.nu.push_back(seg(on[i], md.p[g.k0 + i]));
    }
  }
  return cond;
}
inline long double barrierEps(const LVars & v)
{
  long double s = 0;
  long cnt = 0;
  for(size_t i = 0; i < v.s.size(); i++)
    for(size_t j = 0; j < v.s[i].size(); j++)
    {
      s += v.s[i][j] * v.nu[i][j];
      cnt++;
    }
  if(cnt) s /= cnt;
  s *= 0.5L;
  return std::min(std::max(s, 1e-8L), 1e6L);
}
inline void fraction(const LVars & v, const LVars & d, long double & as, long double & an)
{
  as = an = 1;
  for(size_t i = 0; i < v.s.size(); i++)
    for(size_t j = 0; j < v.s[i].size(); j++)
    {
      if(d.s[i][j] < 0) as = std::min(as, -0.995L * v.s[i][j] / d.s[i][j]);
      if(d.nu[i][j] < 0) an = std::min(an, -0.995L * v.nu[i][j] / d.nu[i][j]);
    }
}
inline LVars stepBy(const LVars & v, const LVars & d, long double as, long double an)
{
  LVars o = v;
  auto ax = [](std::vector<LVec> & a, const std::vector<LVec> & b, long double s)
  {
    for(size_t i = 0; i < a.size(); i++)
      for(size_t j = 0; j < a[i].size(); j++) a[i][j] += s * b[i][j];
  };
  ax(o.x, d.x, as);
  ax(o.u, d.u, as);
  ax(o.s, d.s, as);
  ax(o.lam, d.lam, an);
  ax(o.nu, d.nu, an);
  return o;
}
inline long double maxDiff(const LVars & a, const Vars & b, long double * scale = nullptr)
{
  long double m = 0, sc = 1;
  auto go = [&](const std::vector<LVec> & p, const std::vector<Vec> & q)
  {
    if(p.size() != q.size())
    {
      m = 1e300L;
      return;
    }
    for(size_t i = 0; i < p.size(); i++)
    {
      if(p[i].size() != q[i].size())
      {
        m = 1e300L;
        return;
      }
      for(size_t j = 0; j < p[i].size(); j++)
      {
        long double df = std::abs(p[i][j] - q[i][j]);
        if(!(df <= 1e300L)) df = 1e300L;
        m = std::max(m, df);
        sc = std::max(sc, std::abs(p[i][j]));
      }
    }
  };
  go(a.x, b.x);
  go(a.u, b.u);
  go(a.lam, b.lam);
  go(a.s, b.s);
  go(a.nu, b.nu);
  if(scale) *scale = sc;
  return m;
}
template<class Solver>
std::vector<double> fmpcObs(const Solver & s, int status)
{
  std::vector<double> o;
  o.push_back(status);
  const auto & v = s.variable();
  auto ad = [&](const auto & l)
  {
    o.push_back(l.size());
    for(auto & x : l)
    {
      o.push_back(x.size());
      for(int i = 0; i < x.size(); i++) o.push_back(x(i));
    }
  };
  ad(v.x_list);
  ad(v.u_list);
  ad(v.lambda_list);
  ad(v.s_list);
  ad(v.nu_list);
  for(auto & t : s.traceDataList())
  {
    o.push_back(t.iter);
    o.push_back(t.kkt_error);
  }
  return o;
}
} // namespace verif
