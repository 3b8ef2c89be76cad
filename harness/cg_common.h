// Model of a C/GMRES user problem (plain C++), the monitored problem handed to CgmresSolver, and the reference
// computation of the optimality residual.
#pragma once
#include "eigen_setup.h"
#include "gen.h"
#include <nmpc_cgmres/CgmresSolver.h>
#include <nmpc_cgmres/Gmres.h>

namespace verif
{
using Eigen::MatrixXd;
using Eigen::VectorXd;
inline std::string sd(double d)
{
  char b[40];
  snprintf(b, sizeof(b), "%.12g", d);
  return b;
}
struct CgModel
{
  int n = 2, m = 1;
  Mat A, B, Q, M, R, Qf;
  Vec c0, q, r, qf;
  double ct = 0, nf = 0, bl = 0; // additive time term, sine term, bilinear term of the state equation
  double rt = 0, nlu = 0;        // time-dependent input cost, quartic input cost
  double wt = 0;                 // time-dependent state cost (makes the costate equation explicitly time dependent)
  double pt = 0;                 // time-dependent terminal cost gradient
  bool con = false;              // u = (u, v, mu) with mu (u^2 + v^2 - 1) in the Hamiltonian
  Vec x0, u0;
  bool lq() const
  {
    return nf == 0 && bl == 0 && nlu == 0 && !con;
  }
  template<class T>
  std::vector<T> f(T t, const std::vector<T> & x, const std::vector<T> & u) const
  {
    std::vector<T> o(n, T(0));
    for(int i = 0; i < n; i++)
    {
      o[i] = c0[i] + ct * t * tabv(i) + nf * std::sin(x[i]);
      for(int j = 0; j < n; j++) o[i] += A(i, j) * x[j];
      for(int j = 0; j < m; j++) o[i] += B(i, j) * u[j];
      o[i] += bl * x[(i + 1) % n] * u[0];
    }
    return o;
  }
  template<class T>
  T L(T t, const std::vector<T> & x, const std::vector<T> & u) const
  {
    T s = 0, w = 1 + wt * t;
    for(int i = 0; i < n; i++)
    {
      s += q[i] * x[i];
      for(int j = 0; j < n; j++) s += T(0.5) * w * x[i] * Q(i, j) * x[j];
      for(int j = 0; j < m; j++) s += x[i] * M(i, j) * u[j];
    }
    for(int i = 0; i < m; i++)
    {
      s += (r[i] + rt * t) * u[i] + nlu * T(0.25) * u[i] * u[i] * u[i] * u[i];
      for(int j = 0; j < m; j++) s += T(0.5) * u[i] * R(i, j) * u[j];
    }
    if(con) s += u[2] * (u[0] * u[0] + u[1] * u[1] - 1);
    return s;
  }
  template<class T>
  T phi(T t, const std::vector<T> & x) const
  {
    T s = 0;
    for(int i = 0; i < n; i++)
    {
      s += (qf[i] + pt * t) * x[i];
      for(int j = 0; j < n; j++) s += T(0.5) * x[i] * Qf(i, j) * x[j];
    }
    return s;
  }
  template<class T>
  std::vector<T> phix(T t, const std::vector<T> & x) const
  {
    std::vector<T> o(n, T(0));
    for(int i = 0; i < n; i++)
    {
      o[i] = qf[i] + pt * t;
      for(int j = 0; j < n; j++) o[i] += Qf(i, j) * x[j];
    }
    return o;
  }
  template<class T>
  std::vector<T> Hx(T t, const std::vector<T> & x, const std::vector<T> & u, const std::vector<T> & l) const
  {
    std::vector<T> o(n, T(0));
    T w = 1 + wt * t;
    for(int i = 0; i < n; i++)
    {
      o[i] += q[i];
      for(int j = 0; j < n; j++) o[i] += w * Q(i, j) * x[j] + A(j, i) * l[j];
      for(int j = 0; j < m; j++) o[i] += M(i, j) * u[j];
      o[i] += nf * std::cos(x[i]) * l[i];
      o[(i + 1) % n] += bl * u[0] * l[i];
    }
    return o;
  }
  template<class T>
  std::vector<T> Hu(T t, const std::vector<T> & x, const std::vector<T> & u, const std::vector<T> & l) const
  {
    std::vector<T> o(m, T(0));
    for(int i = 0; i < m; i++)
    {
      o[i] = r[i] + rt * t + nlu * u[i] * u[i] * u[i];
      for(int j = 0; j < m; j++) o[i] += R(i, j) * u[j];
      for(int j = 0; j < n; j++) o[i] += M(j, i) * x[j] + B(j, i) * l[j];
    }
    for(int j = 0; j < n; j++) o[0] += bl * x[(j + 1) % n] * l[j];
    if(con)
    {
      o[0] += 2 * u[2] * u[0];
      o[1] += 2 * u[2] * u[1];
      o[2] += u[0] * u[0] + u[1] * u[1] - 1;
    }
    return o;
  }
};

inline CgModel genCg(Ctx & c, bool lq_only = false)
{
  CgModel md;
  int dims = c.dev("dims", 6);
  static const int dn[] = {2, 1, 2, 3, 1, 2}, dm[] = {1, 1, 2, 2, 2, 3};
  md.n = dn[dims];
  md.m = dm[dims];
  int n = md.n, m = md.m;
  int tA = c.dev("A", 4), tB = c.dev("B", 3), tQ = c.dev("Q", 3), tR = c.dev("R", 3), tM = c.dev("M", 2), tF = c.dev("Qf", 3);
  md.A = Mat(n, n);
  md.B = Mat(n, m);
  md.Q = Mat(n, n);
  md.M = Mat(n, m);
  md.R = Mat(m, m);
  md.Qf = Mat(n, n);
  for(int i = 0; i < n; i++)
  {
    for(int j = 0; j < n; j++)
    {
      md.A(i, j) = tA == 0 ? 0.6 * tabv(3 * i + j) - (i == j ? 0.5 : 0) : (tA == 1 ? 0.0 : (tA == 2 ? double(j == i + 1) : (i == j ? 0.7 : -0.4)));
      md.Q(i, j) = tQ == 0 ? (i == j ? 1.0 + 0.5 * i : 0.3) : (tQ == 1 ? 0.0 : (i == j ? 4.0 : 0.0));
      md.Qf(i, j) = tF == 0 ? (i == j ? 2.0 + i : 0.4) : (tF == 1 ? 0.0 : (i == j ? 6.0 : -0.5));
    }
    for(int j = 0; j < m; j++)
    {
      md.B(i, j) = tB == 0 ? tabv(2 * i + 5 * j + 3) : (tB == 1 ? (i == n - 1 ? 1.0 + j : 0.0) : 0.0);
      md.M(i, j) = tM == 0 ? 0.1 * tabv(i + j) : 0.0;
    }
    md.c0.push_back(0.2 * tabv(i + 5));
    md.q.push_back(0.3 * tabv(i + 2));
    md.qf.push_back(0.2 * tabv(i + 7));
  }
  for(int i = 0; i < m; i++)
  {
    for(int j = 0; j < m; j++)
      md.R(i, j) = tR == 0 ? (i == j ? 1.0 + 0.3 * i : 0.2) : (tR == 1 ? (i == j ? 0.3 : 0.0) : (i == j ? 5.0 : 0.5));
    md.r.push_back(0.25 * tabv(i + 1));
  }
  md.ct = c.devOf<double>("ct", {0.0, 0.4});
  md.rt = c.devOf<double>("rt", {0.0, -0.3});
  md.wt = c.devOf<double>("wt", {0.0, 0.5});
  md.pt = c.devOf<double>("pt", {0.0, 0.3});
  if(!lq_only)
  {
    int nl = c.dev("nonlin", 6);
    md.nf = nl == 1 || nl == 5 ? 0.7 : 0;
    md.bl = nl == 2 || nl == 5 ? 0.4 : 0;
    md.nlu = nl == 3 || nl == 5 ? 0.6 : 0;
    md.con = nl == 4 && m >= 3;
  }
  int tx = c.dev("x0", 3);
  for(int i = 0; i < n; i++) md.x0.push_back(tx == 0 ? 1.0 - 1.4 * i : (tx == 1 ? 0.0 : -2.0 + 0.5 * i));
  int tu = c.dev("u0", 4); // 3: far away, many Newton iterations when the condition is nonlinear
  for(int j = 0; j < m; j++) md.u0.push_back(tu == 0 ? 0.1 + 0.2 * j : (tu == 1 ? 0.0 : (tu == 2 ? 1.5 - 2 * j : 30000.0 * (j % 2 ? -0.7 : 1.0))));
  if(md.con)
  {
    md.u0 = {0.3, 0.95, 0.05};
  }
  return md;
}

struct CgEnv
{
  CgModel md;
  std::string error;
  long calls = 0;
  double t_lo = -1e300, t_hi = 1e300;
  std::function<void()> point; // scheduling point of interleaved executions
  void note(const std::string & s)
  {
    if(error.empty()) error = s;
  }
  void time(double t, const char * what)
  {
    calls++;
    if(point) point();
    if(!(t >= t_lo - 1e-9 && t <= t_hi + 1e-9)) note(std::string(what) + " was called at time " + sd(t) + " outside the horizon");
  }
};

class CgProblem : public nmpc_cgmres::CgmresProblem
{
public:
  using RefC = Eigen::Ref<const VectorXd>;
  using RefM = Eigen::Ref<VectorXd>;
  explicit CgProblem(std::shared_ptr<CgEnv> e) : env(e)
  {
    const CgModel & md = e->md;
    dim_x_ = md.n;
    dim_uc_ = md.m;
    dim_c_ = md.con ? 1 : 0;
    dim_u_ = md.m - dim_c_;
    x_initial_ = toE(md.x0);
    u_initial_ = toE(md.u0);
    state_eq_param_ = VectorXd::Zero(1);
  }
  static VectorXd toE(const Vec & v)
  {
    VectorXd o(v.size());
    for(size_t i = 0; i < v.size(); i++) o(i) = v[i];
    return o;
  }
  template<class E>
  static Vec fromE(const E & v)
  {
    Vec o(v.size());
    for(int i = 0; i < v.size(); i++) o[i] = v(i);
    return o;
  }
  void dim(bool ok, const char * what)
  {
    if(!ok)
    {
      env->note(std::string(what) + " was called with wrong dimensions");
      throw Violation{env->error};
    }
  }
  void stateEquation(double t, const RefC & x, const RefC & u, RefM dotx) override
  {
    const CgModel & md = env->md;
    dim(x.size() == md.n && u.size() == md.m && dotx.size() == md.n, "stateEquation");
    env->time(t, "stateEquation");
    dotx = toE(md.f<double>(t, fromE(x), fromE(u)));
  }
  void costateEquation(double t, const RefC & lmd, const RefC & xu, RefM dotlmd) override
  {
    const CgModel & md = env->md;
    dim(lmd.size() == md.n && xu.size() == md.n + md.m && dotlmd.size() == md.n, "costateEquation");
    env->time(t, "costateEquation");
    dotlmd = -toE(md.Hx<double>(t, fromE(xu.head(md.n)), fromE(xu.tail(md.m)), fromE(lmd)));
  }
  void calcDphiDx(double t, const RefC & x, RefM D) override
  {
    const CgModel & md = env->md;
    dim(x.size() == md.n && D.size() == md.n, "calcDphiDx");
    env->time(t, "calcDphiDx");
    D = toE(md.phix<double>(t, fromE(x)));
  }
  void calcDhDu(double t, const RefC & x, const RefC & u, const RefC & lmd, RefM D) override
  {
    const CgModel & md = env->md;
    dim(x.size() == md.n && u.size() == md.m && lmd.size() == md.n && D.size() == md.m, "calcDhDu");
    env->time(t, "calcDhDu");
    D = toE(md.Hu<double>(t, fromE(x), fromE(u), fromE(lmd)));
  }
  std::shared_ptr<CgEnv> env;
};

struct CgSet
{
  int N = 4;
  double Tf = 1.0, alpha = 0.5;
  int ode = 0; // 0: Euler 1: Runge-Kutta (horizon)
  double dt = 0.01, zeta = 20, h = 0.002;
  int kmax = 3;
};

inline LVec odeStep(int method, const std::function<LVec(long double, const LVec &)> & f, long double t, const LVec & x, long double dt)
{
  auto ax = [&](const LVec & k, long double s)
  {
    LVec o = x;
    for(size_t i = 0; i < x.size(); i++) o[i] += s * k[i];
    return o;
  };
  LVec k1 = f(t, x);
  if(method == 0) return ax(k1, dt);
  LVec k2 = f(t + dt / 2, ax(k1, dt / 2)), k3 = f(t + dt / 2, ax(k2, dt / 2)), k4 = f(t + dt, ax(k3, dt));
  LVec o = x;
  for(size_t i = 0; i < x.size(); i++) o[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  return o;
}

inline long double horizon(const CgSet & s, long double t)
{
  return s.Tf * (1 - std::exp(-(long double)s.alpha * t));
}

// Reference optimality residual: U and result are flat, stage-major.
inline LVec refF(const CgModel & md, const CgSet & s, long double t, const LVec & x, const LVec & U)
{
  long double ds = horizon(s, t) / s.N;
  auto u = [&](int i) { return LVec(U.begin() + i * md.m, U.begin() + (i + 1) * md.m); };
  std::vector<LVec> X(1, x);
  for(int i = 0; i < s.N; i++)
    X.push_back(odeStep(
        s.ode, [&](long double tt, const LVec & xx) { return md.f<long double>(tt, xx, u(i)); }, t + i * ds, X[i], ds));
  LVec lam = md.phix<long double>(t + s.N * ds, X[s.N]);
  LVec F(U.size());
  for(int i = s.N - 1; i >= 0; i--)
  {
    LVec h = md.Hu<long double>(t + i * ds, X[i], u(i), lam);
    for(int j = 0; j < md.m; j++) F[i * md.m + j] = h[j];
    lam = odeStep(
        s.ode,
        [&](long double tt, const LVec & ll)
        {
          LVec o = md.Hx<long double>(tt, X[i], u(i), ll);
          for(auto & v : o) v = -v;
          return o;
        },
        t + (i + 1) * ds, lam, -ds);
  }
  return F;
}
// Discretised horizon cost for the Euler method.
inline long double eulerCost(const CgModel & md, const CgSet & s, long double t, const LVec & x0, const LVec & U)
{
  long double ds = horizon(s, t) / s.N, J = 0;
  LVec x = x0;
  for(int i = 0; i < s.N; i++)
  {
    LVec u(U.begin() + i * md.m, U.begin() + (i + 1) * md.m);
    J += ds * md.L<long double>(t + i * ds, x, u);
    LVec f = md.f<long double>(t + i * ds, x, u);
    for(int j = 0; j < md.n; j++) x[j] += ds * f[j];
  }
  return J + md.phi<long double>(t + s.N * ds, x);
}

inline std::shared_ptr<nmpc_cgmres::OdeSolver> makeOde(int k)
{
  if(k) return std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
  return std::make_shared<nmpc_cgmres::EulerOdeSolver>();
}
struct CgRun
{
  std::shared_ptr<CgEnv> env;
  std::shared_ptr<CgProblem> prob;
  std::shared_ptr<nmpc_cgmres::CgmresSolver> solver;
  CgRun(const CgModel & md, const CgSet & s, int sim_ode = -1)
  {
    env = std::make_shared<CgEnv>();
    env->md = md;
    prob = std::make_shared<CgProblem>(env);
    solver = std::make_shared<nmpc_cgmres::CgmresSolver>(prob, makeOde(s.ode), sim_ode < 0 ? nullptr : makeOde(sim_ode));
    apply(s);
  }
  void apply(const CgSet & s)
  {
    solver->horizon_divide_num_ = s.N;
    solver->steady_horizon_duration_ = s.Tf;
    solver->horizon_increase_ratio_ = s.alpha;
    solver->dt_ = s.dt;
    solver->eq_zeta_ = s.zeta;
    solver->k_max_ = s.kmax;
    solver->finite_diff_delta_ = s.h;
  }
};
inline LVec flat(const MatrixXd & m)
{
  LVec o;
  for(int j = 0; j < m.cols(); j++)
    for(int i = 0; i < m.rows(); i++) o.push_back(m(i, j));
  return o;
}
inline long double lnorm(const LVec & v)
{
  long double s = 0;
  for(auto x : v) s += x * x;
  return std::sqrt(s);
}
} // namespace verif
