// C17 for CgmresSolver, Gmres, the ODE solvers and BoxQP: every schedule of two calls, switching at user callbacks and at
// allocations, up to the preemption bound; each call must give what it gives alone. Also memory contents.
#define VERIF_DIVERGENCE_IS_VIOLATION
#define VERIF_INTERPOSE
#include "cg_common.h"
#include "coro.h"
#include "problem_common.h"
#include <nmpc_cgmres/OdeSolver.h>
#include <nmpc_ddp/BoxQP.h>
using namespace verif;
using Obs = std::vector<double>;

template<class E>
static void put(Obs & o, const E & m)
{
  o.push_back(m.rows());
  o.push_back(m.cols());
  for(int j = 0; j < m.cols(); j++)
    for(int i = 0; i < m.rows(); i++) o.push_back(m(i, j));
}
static CgModel cgModel(int kind)
{
  Ctx z;
  z.begin({});
  CgModel md = genCg(z);
  md.ct = kind == 1 ? 0.4 : 0.0;
  md.nf = kind == 1 ? 0.7 : 0.0;
  if(kind == 2)
  {
    md.x0 = {-0.4, 0.9};
    md.bl = 0.4;
  }
  return md;
}
static const int KINDS = 9;
// One complete use of an object of the library. yield: called at each user callback (may be empty).
static Obs job(int kind, const std::function<void()> & yield)
{
  Obs o;
  if(kind <= 2)
  {
    CgModel md = cgModel(kind);
    CgSet s;
    s.N = kind == 1 ? 3 : 2;
    s.ode = kind == 1;
    s.kmax = 2;
    s.dt = kind == 2 ? 0.02 : 0.01;
    s.h = kind == 2 ? 0.004 : 0.002;
    CgRun r(md, s);
    r.env->point = yield;
    r.solver->setup();
    put(o, r.solver->u_list_);
    VectorXd x = r.solver->x_, u = r.solver->u_;
    double t = kind == 0 ? 0.5 : 0.0;
    for(int i = 0; i < (kind == 1 ? 1 : 2); i++)
    {
      VectorXd nx = x * 0.97;
      nx(0) += 0.01;
      r.solver->calcControlInput(t, x, nx, u);
      put(o, u);
      put(o, r.solver->u_list_);
      x = nx;
      t += s.dt;
    }
  }
  else if(kind <= 4)
  {
    int n = kind == 3 ? 3 : 4;
    MatrixXd A(n, n);
    VectorXd b(n), x(n);
    for(int i = 0; i < n; i++)
    {
      for(int j = 0; j < n; j++) A(i, j) = (i == j ? 2.0 : 0.0) + tabv(3 * i + j + kind);
      b(i) = tabv(i + 4);
      x(i) = 0.1 * i;
    }
    nmpc_cgmres::Gmres g;
    g.make_triangular_ = kind == 3;
    nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const VectorXd> & v)
    {
      if(yield) yield();
      VectorXd r = A * v;
      return r;
    };
    g.solve(f, b, x, n);
    put(o, x);
    for(double d : g.err_list_) o.push_back(d);
    for(auto & v : g.basis_) put(o, v);
  }
  else if(kind <= 6)
  {
    int n = kind == 5 ? 3 : 2;
    std::shared_ptr<nmpc_cgmres::OdeSolver> ode = makeOde(kind == 5);
    nmpc_cgmres::OdeSolver::StateEquation f =
        [&](double t, const Eigen::Ref<const VectorXd> & x, const Eigen::Ref<const VectorXd> & u, Eigen::Ref<VectorXd> d)
    {
      if(yield) yield();
      for(int i = 0; i < n; i++) d(i) = std::sin(x((i + 1) % n)) + 0.3 * t + u(0);
    };
    VectorXd x(n), u(1), r(n);
    for(int i = 0; i < n; i++) x(i) = 0.4 * i - 0.3;
    u(0) = 0.2;
    for(int i = 0; i < 3; i++)
    {
      ode->solve(f, 0.1 * i, x, u, 0.1 + 0.02 * kind, r);
      x = r;
      put(o, x);
    }
  }
  else
  {
    int n = kind == 7 ? 3 : 2;
    nmpc_ddp::BoxQP<-1> qp(n);
    MatrixXd H(n, n);
    VectorXd g(n), lo(n), hi(n), x0(n);
    for(int i = 0; i < n; i++)
    {
      for(int j = 0; j < n; j++) H(i, j) = i == j ? 2.0 + i : -0.6;
      g(i) = 2.0 * tabv(i + kind);
      lo(i) = -0.3;
      hi(i) = 0.5 + 0.1 * i;
      x0(i) = 0.1 * i;
    }
    put(o, qp.solve(H, g, lo, hi, x0));
    o.push_back(qp.retval_);
    for(int i : qp.free_idxs_) o.push_back(i);
    for(auto & t : qp.traceDataList())
    {
      o.push_back(t.iter);
      o.push_back(t.obj);
      put(o, t.x);
    }
  }
  return o;
}
static void same(const Obs & a, const Obs & b, const std::string & what)
{
  bool ok = a.size() == b.size();
  for(size_t i = 0; ok && i < a.size(); i++) ok = a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]));
  if(!ok) fail(what);
}

template<bool DEEP>
void inter(Ctx & c)
{
  int pts = DEEP ? 0 : c.free("points", 2); // 0: callbacks 1: + allocations
  int ka = c.free("jobA", KINDS), kb = c.free("jobB", KINDS);
  if(pts == 0 && (ka > 6 || kb > 6)) throw SkipExecution(); // no callback
  if(DEEP && !c.thorough && (ka == 1 || kb == 1) && ka != 5 && kb != 5) throw SkipExecution();
  int first = c.free("first", 2);
  Obs a0 = job(ka, nullptr), b0 = job(kb, nullptr), a1, b1;
  Sched s;
  long steps = 0;
  bool skip = false;
  s.choose = [&](int, int) -> int
  {
    steps++;
    if(skip) return 0;
    if(steps == 3)
    {
      try
      {
        c.claim();
      }
      catch(const SkipExecution &)
      {
        skip = true;
        return 0;
      }
    }
    return c.dev("preempt", 2);
  };
  auto yield = []() { Sched::point(); };
  s.add([&]() { a1 = job(ka, yield); });
  s.add([&]() { b1 = job(kb, yield); });
  AllocCtl::get().yield = pts >= 1;
  try
  {
    s.run(first);
  }
  catch(...)
  {
    AllocCtl::get().yield = false;
    Sched::active() = nullptr;
    throw;
  }
  AllocCtl::get().yield = false;
  if(skip) throw SkipExecution();
  if(s.points == 0)
  {
    fprintf(stderr, "internal error: no scheduling point was reached\n");
    _exit(2);
  }
  same(a0, a1, "use " + std::to_string(ka) + " interleaved with use " + std::to_string(kb) + " differs from the use alone");
  same(b0, b1, "use " + std::to_string(kb) + " interleaved with use " + std::to_string(ka) + " differs from the use alone");
  c.trans(s.switches);
  c.traces(2);
  c.state(mix(hashVec(ka, a1), hashVec(kb * 16 + s.switches, b1)));
  c.outcome("switches " + std::to_string(s.switches));
  if(s.switches > 0) c.nontrivialCase();
}
static void memory(Ctx & c)
{
  int k = c.free("job", KINDS), fill = c.free("fill", 4), before = c.free("before", KINDS + 1);
  c.claim();
  static const int bytes[] = {0x00, 0xff, 0x5a, 0x3f};
  auto once = [&](int f)
  {
    AllocCtl::get().fill = bytes[f];
    paintStack(bytes[f]);
    Obs o = job(k, nullptr);
    AllocCtl::get().fill = -1;
    return o;
  };
  Obs x = once(0);
  if(before < KINDS) job(before, nullptr);
  Obs y = once(fill);
  same(x, y, "result of use " + std::to_string(k) + " depends on memory contents or on an earlier use of another object");
  c.trans();
  c.traces();
  c.outcome("use " + std::to_string(k));
  c.state(hashVec(k, y));
  c.nontrivialCase();
}
int main(int argc, char ** argv)
{
  std::vector<Space> sp;
  sp.push_back({"memory", memory, 0, 0});
  sp.push_back({"interleave", inter<false>, 1, 2});
  sp.push_back({"interleave_callbacks", inter<true>, 2, 3});
  return exploreMain(argc, argv, sp);
}
