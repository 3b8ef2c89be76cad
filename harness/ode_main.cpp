// C19: the ODE integrators against their defining formulas (long double), over sequences of calls on one object.
#include "eigen_setup.h"
#include "explore.h"
#include "model.h"
#include <nmpc_cgmres/OdeSolver.h>
using namespace verif;
using Eigen::MatrixXd;
using Eigen::VectorXd;

static std::string sd(double d)
{
  char b[40];
  snprintf(b, sizeof(b), "%.14g", d);
  return b;
}

template<class T>
static std::vector<T> rhs(int kind, T t, const std::vector<T> & x, const std::vector<T> & u)
{
  int n = x.size(), m = u.size();
  std::vector<T> o(n, T(0));
  for(int i = 0; i < n; i++)
  {
    switch(kind)
    {
      case 0: o[i] = T(1.5) - i; break;
      case 1: o[i] = t * (i + 1); break;
      case 2: o[i] = t * t - T(0.3) * i; break;
      case 3: o[i] = t * t * t + i; break;
      case 4: // linear, coupled, with input
        o[i] = T(-0.5) * x[i] + T(0.8) * x[(i + 1) % n];
        for(int j = 0; j < m; j++) o[i] += u[j] * (1 + T(0.5) * j - T(0.25) * i);
        break;
      case 5: o[i] = std::sin(x[i] + t) + (m ? u[i % m] : T(0)) * x[(i + n - 1) % n]; break;
      case 6: o[i] = x[i] * x[(i + 1) % n] * T(0.3) - T(0.1) * t * x[i]; break;
      case 7: o[i] = m ? u[(i + m - 1) % m] : T(0); break;
      case 8: o[i] = 0; break;
    }
  }
  return o;
}
static const int kKinds = 9;

static LVec refStep(int method, int kind, long double t, const LVec & x, const LVec & u, long double dt)
{
  auto ax = [&](const LVec & k, long double s)
  {
    LVec o = x;
    for(size_t i = 0; i < x.size(); i++) o[i] += s * k[i];
    return o;
  };
  LVec k1 = rhs<long double>(kind, t, x, u);
  if(method == 0) return ax(k1, dt);
  LVec k2 = rhs<long double>(kind, t + dt / 2, ax(k1, dt / 2), u);
  LVec k3 = rhs<long double>(kind, t + dt / 2, ax(k2, dt / 2), u);
  LVec k4 = rhs<long double>(kind, t + dt, ax(k3, dt), u);
  LVec o = x;
  for(size_t i = 0; i < x.size(); i++) o[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  return o;
}

static void oneCall(Ctx & c, nmpc_cgmres::OdeSolver & ode, int method, int kind, int n, int m, double t, double dt, int alias, int xk)
{
  LVec lx(n), lu(m);
  for(int i = 0; i < n; i++) lx[i] = xk == 0 ? 0.6 - 0.5 * i : (xk == 1 ? 0 : -3.0 + 2 * i);
  for(int j = 0; j < m; j++) lu[j] = double(0.4L - 0.7L * j);
  for(auto & v : lx) v = double(v);
  VectorXd x(n), u(m), out(n);
  for(int i = 0; i < n; i++) x(i) = lx[i];
  for(int j = 0; j < m; j++) u(j) = lu[j];
  VectorXd ugiven = u, xgiven = x;
  std::string err;
  auto f = [&](double tt, const Eigen::Ref<const VectorXd> & xx, const Eigen::Ref<const VectorXd> & uu, Eigen::Ref<VectorXd> o)
  {
    if(xx.size() != n || uu.size() != m || o.size() != n)
    {
      err = "right-hand side called with wrong dimensions";
      throw Violation{err};
    }
    for(int j = 0; j < m; j++)
      if(uu(j) != ugiven(j)) err = "right-hand side called with another input than the given one";
    double lo = std::min(t, t + dt), hi = std::max(t, t + dt);
    if(!(tt >= lo - 1e-12 && tt <= hi + 1e-12)) err = "right-hand side called at time " + sd(tt) + " outside the step";
    std::vector<double> a(n), b(m);
    for(int i = 0; i < n; i++) a[i] = xx(i);
    for(int j = 0; j < m; j++) b[j] = uu(j);
    auto r = rhs<double>(kind, tt, a, b);
    for(int i = 0; i < n; i++) o(i) = r[i];
    c.trans();
  };
  nmpc_cgmres::OdeSolver::StateEquation se = f;
  LVec want = refStep(method, kind, t, lx, lu, dt);
  VectorXd got;
  MatrixXd big = MatrixXd::Constant(n, 3, 7.25);
  if(alias == 0)
  {
    ode.solve(se, t, x, u, dt, out);
    got = out;
    if(x != xgiven) fail("the given state was modified");
  }
  else if(alias == 1) // output aliases the state
  {
    ode.solve(se, t, x, u, dt, x);
    got = x;
  }
  else if(alias == 2) // columns of one matrix, as in the C/GMRES horizon
  {
    big.col(0) = x;
    ode.solve(se, t, big.col(0), u, dt, big.col(1));
    got = big.col(1);
    if(big.col(0) != xgiven) fail("the given state was modified");
    for(int i = 0; i < n; i++)
      if(big(i, 2) != 7.25) fail("memory beside the output was modified");
  }
  else // state is the head of a longer vector, output in place
  {
    VectorXd z = VectorXd::Constant(n + 2, -3.5);
    z.head(n) = x;
    ode.solve(se, t, z.head(n), u, dt, z.head(n));
    got = z.head(n);
    if(z(n) != -3.5 || z(n + 1) != -3.5) fail("memory beside the output was modified");
  }
  if(u != ugiven) fail("the given input was modified");
  if(!err.empty()) fail(err);
  for(int i = 0; i < n; i++)
  {
    long double sc = 1 + std::abs(want[i]) + std::abs(lx[i]) + std::abs((long double)dt) * 10;
    if(!(std::abs(got(i) - want[i]) <= 1e-12L * sc))
      fail(std::string(method ? "Runge-Kutta" : "Euler") + " step gives " + sd(got(i)) + " in dimension " + std::to_string(i)
           + ", the method gives " + sd(double(want[i])));
  }
  // order: exact for time polynomials
  if((method == 0 && kind == 0) || (method == 1 && kind <= 3))
  {
    for(int i = 0; i < n; i++)
    {
      long double T0 = t, T1 = (long double)t + dt, d = 0;
      switch(kind)
      {
        case 0: d = (1.5L - i) * dt; break;
        case 1: d = (T1 * T1 - T0 * T0) / 2 * (i + 1); break;
        case 2: d = (T1 * T1 * T1 - T0 * T0 * T0) / 3 - 0.3L * i * dt; break;
        case 3: d = (T1 * T1 * T1 * T1 - T0 * T0 * T0 * T0) / 4 + (long double)i * dt; break;
      }
      if(!(std::abs(got(i) - (lx[i] + d)) <= 1e-11L * (1 + std::abs(lx[i] + d))))
        fail(std::string(method ? "Runge-Kutta" : "Euler") + " step is not exact for a polynomial right-hand side");
    }
    c.outcome("exactness checked");
  }
  uint64_t h = mix(method, kind);
  for(int i = 0; i < n; i++) h = hashDouble(h, got(i));
  c.state(h);
  c.traces();
}

static void calls(Ctx & c)
{
  int method = c.free("method", 2);
  nmpc_cgmres::EulerOdeSolver e;
  nmpc_cgmres::RungeKuttaOdeSolver rk;
  nmpc_cgmres::OdeSolver & ode = method ? static_cast<nmpc_cgmres::OdeSolver &>(rk) : e;
  struct A
  {
    int kind, n, m, alias, xk;
    double t, dt;
  };
  std::vector<A> seq;
  int len = 1 + c.dev("second", 2);
  for(int s = 0; s < len; s++)
  {
    A a;
    if(s == 0)
    {
      a.kind = c.free("rhs", kKinds);
      a.n = 1 + c.free("n", 5);
      a.m = c.free("m", 4);
      a.alias = c.free("alias", 4);
      a.t = c.freeOf<double>("t", {0.0, 1.3, -0.7, 100.0});
      a.dt = c.freeOf<double>("dt", {0.1, -0.1, 0.0, 1.0, 0.001, -2.0});
      a.xk = c.free("x", 3);
    }
    else
    {
      a.kind = c.freeOf<int>("rhs2", {4, 5, 1});
      a.n = 1 + c.free("n2", 3);
      a.m = c.free("m2", 3);
      a.alias = c.free("alias2", 3);
      a.t = c.freeOf<double>("t2", {0.5});
      a.dt = c.freeOf<double>("dt2", {0.1, -0.3});
      a.xk = 0;
    }
    seq.push_back(a);
    if(s == 0 && len > 1 && (a.t != 1.3 || a.xk != 0 || a.alias > 1 || a.kind > 5)) throw SkipExecution();
  }
  c.claim();
  for(auto & a : seq) oneCall(c, ode, method, a.kind, a.n, a.m, a.t, a.dt, a.alias, a.xk);
  if(seq[0].dt != 0) c.nontrivialCase();
}

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
  sp.push_back({"calls", calls, 1, 1});
  return exploreMain(argc, argv, sp);
}
