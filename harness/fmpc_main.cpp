// Checks C08 to C12 (-DPROP) for FmpcSolver<SD, UD, GD>.
#include "fmpc_common.h"
#include <fstream>
#include <unistd.h>
using namespace verif;
using Run = FmpcRun<SD, UD, GD>;
using Status = Run::Status;

static GenOpt genOpt()
{
  GenOpt o;
  o.n = SD;
  o.mfix = UD;
  o.pfix = GD;
  return o;
}
static const char * statusName(Status s)
{
  switch(s)
  {
    case Status::Uninitialized:
      return "Uninitialized";
    case Status::Succeeded:
      return "Succeeded";
    case Status::ErrorInForward:
      return "ErrorInForward";
    case Status::ErrorInBackward:
      return "ErrorInBackward";
    case Status::ErrorInUpdate:
      return "ErrorInUpdate";
    case Status::MaxIterationReached:
      return "MaxIterationReached";
    default:
      return "IterationContinued";
  }
}
template<class Cfg>
void options(Ctx & c, Cfg & cfg, bool line_search)
{
  cfg.init_complementary_variable = c.dev("init_comp", 2);
  cfg.update_barrier_eps = !c.dev("fixed_barrier", 2);
  cfg.break_if_llt_fails = c.dev("break_llt", 2);
  cfg.check_nan = !c.dev("no_nan_check", 2);
  cfg.print_level = c.devOf<int>("print", {0, 3});
  if(line_search)
  {
    int l = c.dev("line_search", 3);
    cfg.enable_line_search = l > 0;
    cfg.merit_const_scale_from_lagrange_multipliers = l == 2;
  }
}
static void noEnvError(Run & r)
{
  if(!r.env->error.empty()) fail(r.env->error);
}
static void shape(const Gen & g, const Vars & v)
{
  auto len = [&](const std::vector<Vec> & l, size_t n, const char * w)
  {
    if(l.size() != n) fail(std::string("returned ") + w + " sequence has length " + std::to_string(l.size()));
  };
  len(v.x, g.N + 1, "x");
  len(v.lam, g.N + 1, "lambda");
  len(v.u, g.N, "u");
  len(v.s, g.N, "s");
  len(v.nu, g.N, "nu");
  for(int i = 0; i < g.N; i++)
    if((int)v.u[i].size() != g.md.m[g.k0 + i] || (int)v.s[i].size() != g.md.p[g.k0 + i]
       || (int)v.nu[i].size() != g.md.p[g.k0 + i])
      fail("returned variables have wrong dimensions at step " + std::to_string(i));
}
static long double scaleOf(const Vars & v)
{
  long double s = 1;
  for(double d : v.flat()) s = std::max(s, (long double)std::abs(d));
  return s;
}

#if PROP == 8
static void dumpCheck(Run & r)
{
  const auto & tr = r.solver->traceDataList();
  const char * d = getenv("VERIF_SCRATCH");
  std::string f = std::string(d ? d : "/tmp") + "/dump." + std::to_string(getpid());
  std::ofstream(f) << "left over from an earlier dump\n1 2 3\n"; // must be replaced
  r.solver->dumpTraceDataList(f);
  std::ifstream is(f);
  std::string line, w;
  if(!std::getline(is, line)) fail("dump file is empty");
  std::vector<std::string> head;
  std::istringstream hs(line);
  while(hs >> w) head.push_back(w);
  size_t row = 0;
  while(std::getline(is, line))
  {
    if(row >= tr.size()) fail("dump file has more rows than the trace");
    const auto & t = tr[row++];
    std::map<std::string, double> want = {{"iter", t.iter},
                                          {"kkt_error", t.kkt_error},
                                          {"duration_coeff", t.duration_coeff},
                                          {"duration_backward", t.duration_backward},
                                          {"duration_forward", t.duration_forward},
                                          {"duration_update", t.duration_update}};
    std::istringstream ls(line);
    size_t seen = 0;
    for(auto & h : head)
    {
      if(!(ls >> w)) fail("dump row is shorter than its header");
      if(!want.count(h)) continue;
      seen++;
      if(!close(atof(w.c_str()), want[h], 1e-4, 1e-300))
        fail("dump column " + h + " is " + w + " but the trace has " + str(want[h]));
    }
    if(ls >> w) fail("dump row is longer than its header");
    if(seen != want.size()) fail("dump header lacks a trace field");
  }
  if(row != tr.size()) fail("dump file has " + std::to_string(row) + " rows for " + std::to_string(tr.size()) + " trace entries");
  unlink(f.c_str());
}

static void c08(Ctx & c)
{
  Gen g = genProblem(c, genOpt());
  Vars v0 = genVars(c, g);
  Run r(g);
  auto & cfg = r.solver->config();
  cfg.max_iter = c.devOf<int>("max_iter", {30, 0, 1, 2, 5});
  cfg.kkt_error_thre = c.devOf<double>("kkt_thre", {1e-4, 1e-9, 0.3, 50.0});
  options(c, cfg, true);
  int prior = c.dev("prior", 5);
  c.claim();
  r.prior(prior);
  Status st = r.solve(v0);
  noEnvError(r);
  Vars v = r.vars();
  shape(g, v);
  const auto & tr = r.solver->traceDataList();
  long double sc = scaleOf(v);
  for(size_t i = 0; i < tr.size(); i++)
    if(tr[i].iter != (int)i + 1) fail("trace iterations are not numbered 1, 2, ...");
  if((int)tr.size() > cfg.max_iter) fail("more than max_iter iterations");
  if(st == Status::Succeeded)
  {
    Kkt k = kkt(g, g.x0, toLV(v));
    if(!(k.err <= cfg.kkt_error_thre * (1 + 1e-6L) + 1e-12L * sc * sc))
      fail("Succeeded, but the KKT error of the returned variables is " + str(double(k.err)) + " (threshold "
           + str(cfg.kkt_error_thre) + ")");
    if(tr.empty()) fail("Succeeded without an iteration");
    if(!(tr.back().kkt_error <= cfg.kkt_error_thre)) fail("Succeeded, but the traced KKT error is above the threshold");
  }
  if(st == Status::MaxIterationReached && (int)tr.size() != cfg.max_iter)
    fail("MaxIterationReached after " + std::to_string(tr.size()) + " of " + std::to_string(cfg.max_iter) + " iterations");
  if(st == Status::IterationContinued) fail("internal status returned");
  if(cfg.max_iter > 0 && st == Status::Uninitialized) fail("status Uninitialized after iterations");
  for(size_t i = 0; i + 1 < tr.size() || (i < tr.size() && st != Status::Succeeded); i++)
    if(tr[i].kkt_error <= cfg.kkt_error_thre)
      fail("iteration " + std::to_string(i + 1) + " traced a KKT error of " + str(tr[i].kkt_error)
           + " within the threshold, but the solve did not succeed there");
  // every trace entry is the KKT error of the variables its iteration starts from: recomputed from prefix runs
  for(size_t j = 0; j < tr.size() && j < 8; j++)
  {
    Run q(g);
    q.solver->config() = cfg;
    q.solver->config().max_iter = static_cast<int>(j);
    q.solve(v0);
    Vars w = q.vars();
    Kkt k = kkt(g, g.x0, toLV(w));
    long double s2 = scaleOf(w);
    if(!close(tr[j].kkt_error, k.err, 1e-6, 1e-12L * s2 * s2))
      fail("trace of iteration " + std::to_string(j + 1) + " has KKT error " + str(tr[j].kkt_error)
           + ", the variables it starts from have " + str(double(k.err)));
    c.traces();
  }
  dumpCheck(r);
  c.trans(tr.size());
  c.outcome(std::string(statusName(st)) + " after " + std::to_string(std::min<size_t>(tr.size(), 12)));
  c.state(hashVec(SD * 64 + UD * 8 + GD, fmpcObs(*r.solver, int(st))));
  if(tr.size() > 1) c.nontrivialCase();
}
#endif

#if PROP == 9
static void c09(Ctx & c)
{
  Gen g = genProblem(c, genOpt());
  Vars v0 = genVars(c, g);
  Run r(g);
  auto & cfg = r.solver->config();
  int iters = c.devOf<int>("iters", {1, 3, 6});
  cfg.kkt_error_thre = 0;
  options(c, cfg, false);
  int prior = c.dev("prior", 5);
  // 1: the Hessian with respect to the inputs is regular but has a zero diagonal (no Cholesky decomposition exists), because
  // the inputs do not act on the states; 2: same, because the states have no quadratic cost
  int curv = c.dev("curvature", 3);
  c.claim();
  if(curv)
  {
    for(int k = 0; k < g.md.steps; k++)
    {
      Mat & R = g.md.R[k];
      for(int i = 0; i < R.r; i++)
        for(int j = 0; j < R.c; j++)
          R(i, j) = i == j ? (R.r == 1 ? -1.7 : 0.0) : 0.8 + 0.4 * (i + j);
      if(curv == 1)
        g.md.B[k] = Mat(g.md.B[k].r, g.md.B[k].c);
      else
        for(Mat * z : {&g.md.Q[k], &g.md.M[k], &g.md.C[k]}) *z = Mat(z->r, z->c);
      g.md.D[k] = Mat(g.md.D[k].r, g.md.D[k].c);
    }
    if(curv == 2) g.md.Qf = Mat(g.md.Qf.r, g.md.Qf.c);
    g.md.nf = g.md.nl = g.md.nlf = g.md.ng = 0;
    r.env->g = g;
  }
  // sequence of one-iteration calls on fresh solvers, each compared with the reference Newton step
  Vars v = v0;
  long double eps = 1e-4L;
  Run whole(g);
  whole.solver->config() = cfg;
  whole.solver->config().max_iter = iters;
  whole.prior(prior);
  Status wst = whole.solve(v0);
  noEnvError(whole);
  bool stopped = false;
  for(int it = 0; it < iters; it++)
  {
    Run q(g);
    q.solver->config() = cfg;
    if(it > 0) q.solver->config().init_complementary_variable = false;
    // variables the iteration starts from
    q.solver->config().max_iter = 0;
    q.solve(v);
    Vars vs = q.vars();
    q.solver->config().max_iter = 1;
    q.prior(prior);
    Status st = q.solve(v);
    noEnvError(q);
    Vars vn = q.vars();
    shape(g, vn);
    LVars lv = toLV(vs), d;
    if(cfg.update_barrier_eps) eps = barrierEps(lv);
    long double cond = newtonDir(g, g.x0, lv, eps, d);
    if(!(cond > 1e-12L))
    {
      c.outcome("ill-conditioned, not compared");
      stopped = true;
      break;
    }
    if(st == Status::Succeeded && kkt(g, g.x0, lv).err < 1e-12L) break;
    if(curv && cfg.break_if_llt_fails && st == Status::ErrorInBackward)
    {
      c.outcome("stopped at an indefinite Hessian as configured");
      stopped = true;
      break;
    }
    if(st != Status::MaxIterationReached)
      fail(std::string("iteration ended with status ") + statusName(st) + " on a well-conditioned Newton system");
    long double as, an;
    fraction(lv, d, as, an);
    LVars want = stepBy(lv, d, as, an);
    long double sc, df = maxDiff(want, vn, &sc);
    // rounding grows with the size of the direction
    long double dsc = 1;
    for(auto * l : {&d.x, &d.u, &d.lam, &d.s, &d.nu})
      for(auto & e : *l)
        for(auto z : e) dsc = std::max(dsc, std::abs(z));
    if(!(df <= 1e-7L * sc + 1e-9L * dsc))
      fail("iteration " + std::to_string(it + 1) + " deviates from the Newton step by " + str(double(df)) + " (step "
           + str(double(as)) + " / " + str(double(an)) + ")");
    c.trans();
    c.traces();
    v = vn;
  }
  if(!stopped)
  {
    // k iterations in one call = k calls of one iteration
    std::string why;
    if(!sameObs(whole.vars().flat(), v.flat(), why))
    {
      LVars lv = toLV(v);
      long double sc, df = maxDiff(lv, whole.vars(), &sc);
      if(!(df <= 1e-7L * sc)) fail("one call with " + std::to_string(iters) + " iterations differs from single-iteration calls by " + str(double(df)));
    }
    c.outcome(std::string("compared, ") + statusName(wst));
    c.nontrivialCase();
  }
  c.state(hashVec(SD * 64 + UD * 8 + GD, fmpcObs(*whole.solver, int(wst))));
}
#endif

#if PROP == 10
static void positive(const Vars & v, const char * when)
{
  for(auto * l : {&v.s, &v.nu})
    for(auto & e : *l)
      for(double d : e)
        if(!(d > 0 && std::isfinite(d))) fail(std::string("slack or multiplier ") + str(d) + " " + when);
}
static void c10(Ctx & c)
{
  Gen g = genProblem(c, genOpt());
  Vars v0 = genVars(c, g);
  int ext = c.dev("extreme", 5);
  if(ext)
    for(int i = 0; i < g.N; i++)
      for(size_t j = 0; j < v0.s[i].size(); j++)
      {
        if(ext == 1) v0.s[i][j] = 1e-8;
        if(ext == 2) v0.nu[i][j] = 1e4;
        if(ext == 3)
        {
          v0.s[i][j] = (i + j) % 2 ? 1e-6 : 1e3;
          v0.nu[i][j] = (i + j) % 2 ? 1e3 : 1e-6;
        }
        if(ext == 4) v0.nu[i][j] = 1e-9;
      }
  int far = c.dev("far", 3);
  if(far)
    for(auto & x : v0.x)
      for(auto & d : x) d = far == 1 ? 4.0 : -30.0;
  Run r(g);
  auto & cfg = r.solver->config();
  cfg.kkt_error_thre = 0;
  options(c, cfg, true);
  int prior = c.dev("prior", 5);
  c.claim();
  r.prior(prior);
  r.solver->config().max_iter = 0;
  r.solve(v0);
  Vars v = r.vars();
  shape(g, v);
  positive(v, "after initialisation");
  r.solver->config().init_complementary_variable = false;
  int done = 0;
  Status st = Status::Uninitialized;
  for(int it = 0; it < 12; it++)
  {
    r.solver->config().max_iter = 1;
    st = r.solve(v);
    noEnvError(r);
    Vars n = r.vars();
    if(st == Status::MaxIterationReached || st == Status::Succeeded)
    {
      shape(g, n);
      positive(n, ("after iteration " + std::to_string(it + 1)).c_str());
      for(int w = 0; w < 2; w++)
      {
        auto & a = w ? v.nu : v.s;
        auto & b = w ? n.nu : n.s;
        for(size_t i = 0; i < a.size(); i++)
          for(size_t j = 0; j < a[i].size(); j++)
            if(!(b[i][j] >= 0.005 * a[i][j] * (1 - 1e-9) - 1e-15 * std::abs(a[i][j])))
              fail(std::string(w ? "multiplier " : "slack ") + str(a[i][j]) + " shrinks to " + str(b[i][j])
                   + " in one iteration");
      }
      done++;
      c.trans();
    }
    else
    {
      positive(n, "after a failed iteration");
      break;
    }
    v = n;
    if(st == Status::Succeeded) break;
  }
  // the same number of iterations in one call
  Run w(g);
  w.solver->config() = cfg;
  w.solver->config().init_complementary_variable = false;
  w.solver->config().max_iter = 12;
  w.prior(prior);
  st = w.solve(v0);
  positive(w.vars(), "after 12 iterations in one call");
  c.traces();
  c.outcome(std::string(statusName(st)) + " after " + std::to_string(done));
  c.state(hashVec(SD * 64 + UD * 8 + GD, fmpcObs(*w.solver, int(st))));
  bool any = false;
  for(auto & s : v0.s) any = any || !s.empty();
  if(any && done > 0) c.nontrivialCase();
}
#endif

#if PROP == 11
struct Merit
{
  long double obj = 0, con = 0;
};
static Merit merit(const Gen & g, const LVars & v, long double eps)
{
  Merit m;
  const Model & md = g.md;
  for(int j = 0; j < md.n; j++) m.con += std::abs(g.x0[j] - v.x[0][j]);
  for(int i = 0; i < g.N; i++)
  {
    int k = g.k0 + i;
    m.obj += md.dt * md.l<long double>(k, v.x[i], v.u[i]);
    for(auto s : v.s[i]) m.obj -= eps * std::log(s);
    LVec f = md.f<long double>(k, v.x[i], v.u[i]);
    for(int j = 0; j < md.n; j++) m.con += std::abs(f[j] - v.x[i + 1][j]);
    LVec q = md.g<long double>(k, v.x[i], v.u[i]);
    for(size_t j = 0; j < q.size(); j++) m.con += std::abs(q[j] + v.s[i][j]);
  }
  m.obj += md.lf<long double>(g.k0 + g.N, v.x[g.N]);
  return m;
}
// directional derivatives of both parts; `edge` is set when a constraint residual is so small that rounding decides
// which side of the kink the implementation is on (a residual that is exactly zero in the solver's own arithmetic, from
// the very values the callbacks return, is at the kink)
static Merit meritDeriv(const Gen & g, const Vars & w, const LVars & v, const LVars & d, long double eps, bool & edge, bool & zero)
{
  Merit m;
  zero = true;
  const Model & md = g.md;
  auto l1 = [&](long double fv, double fd, long double dv)
  {
    if(fd != 0) zero = false;
    if(std::abs(fv) < 1e-12L)
    {
      if(fd != 0)
        edge = true;
      else
        fv = 0;
    }
    m.con += fv > 0 ? dv : (fv < 0 ? -dv : std::abs(dv));
  };
  for(int j = 0; j < md.n; j++) l1(g.x0[j] - v.x[0][j], g.x0[j] - w.x[0][j], -d.x[0][j]);
  for(int i = 0; i < g.N; i++)
  {
    int k = g.k0 + i;
    LMat fx, fu, gx, gu, lxx, luu, lxu;
    LVec lx, lu;
    md.fDeriv<long double>(k, v.x[i], v.u[i], fx, fu);
    md.gDeriv<long double>(k, v.x[i], v.u[i], gx, gu);
    md.lDeriv<long double>(k, v.x[i], v.u[i], lx, lu, lxx, luu, lxu);
    m.obj += md.dt * (dotv(lx, d.x[i]) + dotv(lu, d.u[i]));
    for(size_t j = 0; j < v.s[i].size(); j++) m.obj -= eps * d.s[i][j] / v.s[i][j];
    LVec f = md.f<long double>(k, v.x[i], v.u[i]), a = mulv(fx, d.x[i]), b = mulv(fu, d.u[i]);
    Vec fw = md.f<double>(k, w.x[i], w.u[i]), qw = md.g<double>(k, w.x[i], w.u[i]);
    for(int j = 0; j < md.n; j++) l1(f[j] - v.x[i + 1][j], fw[j] - w.x[i + 1][j], a[j] + b[j] - d.x[i + 1][j]);
    LVec q = md.g<long double>(k, v.x[i], v.u[i]);
    a = mulv(gx, d.x[i]);
    b = mulv(gu, d.u[i]);
    for(size_t j = 0; j < q.size(); j++) l1(q[j] + v.s[i][j], qw[j] + w.s[i][j], a[j] + b[j] + d.s[i][j]);
  }
  LVec lx;
  LMat lxx;
  md.lfDeriv<long double>(g.k0 + g.N, v.x[g.N], lx, lxx);
  m.obj += dotv(lx, d.x[g.N]);
  return m;
}

static void c11(Ctx & c)
{
  GenOpt o = genOpt();
  Gen g = genProblem(c, o);
  int strong = c.dev("strong", 5); // nonlinear by default: constraint residuals stay away from the kinks
  if(strong == 0)
  {
    g.md.nf = 0.5;
    g.md.nl = 1.0;
  }
  else if(strong < 4)
  {
    g.md.nf = strong == 1 ? 1.5 : (strong == 3 ? -2.0 : g.md.nf);
    g.md.nl = strong == 2 ? 6.0 : g.md.nl;
    g.md.nlf = strong >= 2 ? 4.0 : g.md.nlf;
    if(strong == 3) g.md.ng = g.md.p.empty() ? 0 : 0.8;
  }
  Vars v0 = genVars(c, g);
  int feas = c.dev("feasible", 2); // start on the dynamics: residuals exactly zero
  if(feas)
  {
    v0.x[0] = g.x0;
    for(int i = 0; i < g.N; i++)
    {
      v0.x[i + 1] = g.md.f<double>(g.k0 + i, v0.x[i], v0.u[i]);
      Vec q = g.md.g<double>(g.k0 + i, v0.x[i], v0.u[i]);
      for(size_t j = 0; j < q.size(); j++)
        if(-q[j] > 1e-3) v0.s[i][j] = -q[j];
    }
  }
  Run r(g);
  auto & cfg = r.solver->config();
  cfg.kkt_error_thre = 0;
  cfg.enable_line_search = true;
  cfg.merit_const_scale_from_lagrange_multipliers = c.dev("scale", 2);
  cfg.update_barrier_eps = !c.dev("fixed_barrier", 2);
  cfg.print_level = c.devOf<int>("print", {0, 3});
  int iters = c.devOf<int>("iters", {3, 1});
  int prior = c.dev("prior", 5);
  c.claim();
  cfg.max_iter = 1;
  Vars v = v0;
  std::string cls;
  for(int it = 0; it < iters; it++)
  {
    Run q(g);
    q.solver->config() = cfg;
    q.prior(prior);
    Status st = q.solve(v);
    noEnvError(q);
    if(st != Status::MaxIterationReached)
    {
      cls += statusName(st);
      break;
    }
    Vars vn = q.vars();
    shape(g, vn);
    LVars lv = toLV(v), d;
    long double eps = cfg.update_barrier_eps ? barrierEps(lv) : 1e-4L;
    long double cond = newtonDir(g, g.x0, lv, eps, d);
    if(!(cond > 1e-8L))
    {
      cls += "ill-conditioned";
      break;
    }
    long double big = 0;
    for(auto * w : {&lv, &d})
      for(auto * l : {&w->x, &w->u, &w->lam, &w->s, &w->nu})
        for(auto & e : *l)
          for(auto z : e) big = std::max(big, std::abs(z));
    if(!(big < 1e5L))
    {
      cls += "far away"; // steep nonlinearity far away amplifies rounding errors of the coefficients
      break;
    }
    long double as, an;
    fraction(lv, d, as, an);
    bool fragile = false, zero = false;
    Merit f0 = merit(g, lv, eps), df = meritDeriv(g, v, lv, d, eps, fragile, zero);
    if(zero) f0.con = 0;
    long double mu = 1e-3L;
    if(cfg.merit_const_scale_from_lagrange_multipliers)
    {
      for(auto & l : v.lam)
        for(double z : l) mu = std::max(mu, (long double)std::abs(z));
      for(auto & l : v.nu)
        for(double z : l) mu = std::max(mu, (long double)std::abs(z));
    }
    else if(f0.con > 0)
    {
      if(f0.con < 1e-9L) fragile = true;
      mu = std::max(mu, df.obj / (0.5L * f0.con));
    }
    long double m0 = f0.obj + mu * f0.con, md = df.obj + mu * df.con;
    long double noise = 1e-12L * (std::abs(f0.obj) + mu * f0.con + 1) + 1e-13L * mu;
    long double a = as;
    int j = 0;
    for(;; j++, a *= 0.5L)
    {
      if(a < 1e-10L) break;
      LVars t = stepBy(lv, d, a, 0);
      Merit f = merit(g, t, eps);
      long double gap = (m0 + 1e-3L * a * md) - (f.obj + mu * f.con);
      if(std::abs(gap) < noise * 10) fragile = true;
      if(gap > 0) break;
    }
    if(!fragile)
    {
      LVars want = stepBy(lv, d, a, an);
      long double sc, dd = maxDiff(want, vn, &sc), dsc = 1;
      for(auto * l : {&d.x, &d.u, &d.lam, &d.s, &d.nu})
        for(auto & e : *l)
          for(auto z : e) dsc = std::max(dsc, std::abs(z));
      if(!(dd <= 1e-7L * sc + 1e-9L * dsc))
      {
        // which step was taken?
        long double num = 0, den = 0;
        for(int i = 0; i <= g.N; i++)
          for(int k = 0; k < g.md.n; k++)
          {
            num += (vn.x[i][k] - lv.x[i][k]) * d.x[i][k];
            den += d.x[i][k] * d.x[i][k];
          }
        fail("iteration " + std::to_string(it + 1) + " moved by " + str(double(num / den))
             + " along the Newton direction; the first step that decreases the merit function enough is "
             + str(double(a)) + " (fraction-to-boundary " + str(double(as)) + ", deviation " + str(double(dd)) + ")");
      }
      c.traces();
      c.trans(j + 1);
      cls += " j" + std::to_string(std::min(j, 9));
      c.nontrivialCase();
    }
    else
      cls += " -";
    v = vn;
  }
  c.outcome(cls);
  c.state(hashVec(SD * 64 + UD * 8 + GD, v.flat()));
}

// full grid for the directional derivative of the L1 norm, against one-sided differences
static void c11l1(Ctx & c)
{
  Eigen::Vector2d f, dir;
  Eigen::Matrix2d J;
  static const double F[] = {0.0, 1.5, -0.7}, Jv[] = {0.0, 1.0, -2.0}, Dv[] = {0.0, 0.5, -1.0};
  for(int i = 0; i < 2; i++) f(i) = F[c.free("f", 3)];
  for(int i = 0; i < 4; i++) J(i / 2, i % 2) = Jv[c.free("J", 3)];
  for(int i = 0; i < 2; i++) dir(i) = Dv[c.free("d", 3)];
  c.claim();
  double h = 1.0 / 1024; // small enough not to cross a kink, exactly representable
  Eigen::Vector2d moved = f + h * (J * dir);
  double want = (moved.lpNorm<1>() - f.lpNorm<1>()) / h;
  double got = nmpc_fmpc::l1NormDirectionalDeriv<2, 2>(f, J, dir);
  if(!close(got, want, 1e-12, 1e-12)) fail("directional derivative of the L1 norm is " + str(got) + " instead of " + str(want));
  Eigen::VectorXd fd = f, dd = dir;
  Eigen::MatrixXd Jd = J;
  double got2 = nmpc_fmpc::l1NormDirectionalDeriv<Eigen::Dynamic, Eigen::Dynamic>(fd, Jd, dd);
  if(!close(got2, want, 1e-12, 1e-12)) fail("directional derivative of the L1 norm (dynamic) is " + str(got2) + " instead of " + str(want));
  c.traces(2);
  c.trans();
  c.nontrivialCase();
  c.outcome(f(0) == 0 || f(1) == 0 ? "kink" : "smooth");
}
#endif

#if PROP == 12
static void c12(Ctx & c)
{
  GenOpt o = genOpt();
  o.allow_nonlinear = false;
  Gen g = genProblem(c, o);
  double push = c.devOf<double>("push", {5.0, 1.0, -8.0}); // linear input cost that drives the inputs into constraints
  for(auto & r : g.md.r)
    for(auto & d : r) d *= push;
  Vars v0 = genVars(c, g);
  Run r(g);
  auto & cfg = r.solver->config();
  cfg.max_iter = 200;
  cfg.kkt_error_thre = c.devOf<double>("kkt_thre", {1e-6, 1e-4});
  cfg.init_complementary_variable = c.dev("init_comp", 2);
  cfg.break_if_llt_fails = c.dev("break_llt", 2);
  cfg.check_nan = !c.dev("no_nan_check", 2);
  cfg.print_level = c.devOf<int>("print", {0, 3});
  int prior = c.dev("prior", 5);
  c.claim();
  // strictly convex in the inputs?
  int nv = 0;
  for(int i = 0; i < g.N; i++) nv += g.md.m[g.k0 + i];
  Gen gd = g; // cost of the discretised problem: dt * running cost
  for(int k = 0; k < g.md.steps; k++)
  {
    gd.md.Q[k] = g.md.Q[k].scaled(g.md.dt);
    gd.md.R[k] = g.md.R[k].scaled(g.md.dt);
    gd.md.M[k] = g.md.M[k].scaled(g.md.dt);
    for(auto & z : gd.md.q[k]) z *= g.md.dt;
    for(auto & z : gd.md.r[k]) z *= g.md.dt;
  }
  auto roll = [&](const LVec & z, std::vector<LVec> & U, std::vector<LVec> & X)
  {
    U.clear();
    int q = 0;
    for(int i = 0; i < g.N; i++)
    {
      int m = g.md.m[g.k0 + i];
      U.push_back(LVec(z.begin() + q, z.begin() + q + m));
      q += m;
    }
    LVec cost;
    rollout(gd.md, g.k0, LVec(g.x0.begin(), g.x0.end()), U, X, cost);
    return sumv(cost);
  };
  auto grad = [&](const LVec & z)
  {
    std::vector<LVec> U, X;
    roll(z, U, X);
    LVec f;
    for(auto & e : gradU(gd.md, g.k0, X, U)) f.insert(f.end(), e.begin(), e.end());
    return f;
  };
  LVec z(nv, 0), g0 = grad(z);
  LMat H(nv, nv);
  for(int j = 0; j < nv; j++)
  {
    z[j] = 1;
    LVec gj = grad(z);
    for(int i = 0; i < nv; i++) H(i, j) = gj[i] - g0[i];
    z[j] = 0;
  }
  long double piv = nv ? cholMinPivot(H) : 1;
  if(!(piv > 1e-4L))
  {
    c.outcome("not strictly convex, skipped");
    return;
  }
  // strictly feasible? (constant inputs)
  bool feasible = false;
  for(long double a : {0.0L, 0.4L, -0.4L, 1.0L, -1.0L, 2.0L, -2.0L})
  {
    std::vector<LVec> U, X;
    roll(LVec(nv, a), U, X);
    bool ok = true;
    for(int i = 0; i < g.N; i++)
      for(auto q : g.md.g<long double>(g.k0 + i, X[i], U[i])) ok = ok && q < -0.05L;
    feasible = feasible || ok;
  }
  if(!feasible)
  {
    c.outcome("strict feasibility not shown, skipped");
    return;
  }
  r.prior(prior);
  Status st = r.solve(v0);
  noEnvError(r);
  Vars v = r.vars();
  if(st != Status::Succeeded)
    fail(std::string("status ") + statusName(st) + " on a strictly convex, strictly feasible problem (KKT error "
         + str(double(kkt(g, g.x0, toLV(v)).err)) + " after " + std::to_string(r.solver->traceDataList().size()) + " iterations)");
  shape(g, v);
  // optimum of the condensed problem by enumeration of active sets
  struct Row
  {
    LVec a;
    long double b;
  };
  std::vector<Row> rows;
  auto gAt = [&](const LVec & y)
  {
    std::vector<LVec> U, X;
    roll(y, U, X);
    LVec f;
    for(int i = 0; i < g.N; i++)
      for(auto q : g.md.g<long double>(g.k0 + i, X[i], U[i])) f.push_back(q);
    return f;
  };
  LVec q0 = gAt(z);
  rows.resize(q0.size());
  for(size_t i = 0; i < q0.size(); i++)
  {
    rows[i].a.assign(nv, 0);
    rows[i].b = -q0[i];
  }
  for(int j = 0; j < nv; j++)
  {
    z[j] = 1;
    LVec qj = gAt(z);
    for(size_t i = 0; i < q0.size(); i++) rows[i].a[j] = qj[i] - q0[i];
    z[j] = 0;
  }
  LVec got;
  for(auto & u : v.u)
    for(double d : u) got.push_back(d);
  long double tol = cfg.kkt_error_thre;
  // feasibility of the returned point
  for(int i = 0; i < g.N; i++)
    for(double q : g.md.g<double>(g.k0 + i, v.x[i], v.u[i]))
      if(q > tol * 1.01 + 1e-12) fail("Succeeded, but a constraint is violated by " + str(q));
  std::vector<LVec> U, X;
  roll(got, U, X);
  for(int i = 0; i <= g.N; i++)
    for(int j = 0; j < g.md.n; j++)
      if(!close(v.x[i][j], X[i][j], 0, 200 * tol)) fail("Succeeded, but the returned states are not those of the returned inputs");
  // active-set search guided by the returned multipliers; verified by the KKT conditions of the condensed problem
  bool verified = false;
  LVec best;
  std::vector<int> act;
  {
    int idx = 0;
    for(int i = 0; i < g.N; i++)
      for(size_t j = 0; j < v.s[i].size(); j++, idx++)
        if(v.nu[i][j] > v.s[i][j]) act.push_back(idx);
  }
  for(int attempt = 0; attempt < 40 && !verified; attempt++)
  {
    int na = static_cast<int>(act.size());
    LMat K(nv + na, nv + na);
    LVec b(nv + na), s;
    for(int i = 0; i < nv; i++)
    {
      for(int j = 0; j < nv; j++) K(i, j) = H(i, j);
      b[i] = -g0[i];
    }
    for(int q = 0; q < na; q++)
    {
      for(int j = 0; j < nv; j++) K(nv + q, j) = K(j, nv + q) = rows[act[q]].a[j];
      b[nv + q] = rows[act[q]].b;
    }
    if(gauss(K, b, s) < 1e-14L) break;
    best.assign(s.begin(), s.begin() + nv);
    // drop the most negative multiplier, else add the most violated constraint
    int drop = -1, addc = -1;
    long double worst = -1e-12L;
    for(int q = 0; q < na; q++)
      if(s[nv + q] < worst)
      {
        worst = s[nv + q];
        drop = q;
      }
    if(drop >= 0)
    {
      act.erase(act.begin() + drop);
      continue;
    }
    worst = 1e-12L;
    for(size_t q = 0; q < rows.size(); q++)
    {
      long double val = -rows[q].b;
      for(int j = 0; j < nv; j++) val += rows[q].a[j] * best[j];
      if(val > worst && std::find(act.begin(), act.end(), (int)q) == act.end())
      {
        worst = val;
        addc = static_cast<int>(q);
      }
    }
    if(addc < 0)
      verified = true;
    else
      act.push_back(addc);
  }
  if(verified)
  {
    // strong convexity: J(u) - J* >= piv/2 |u-u*|^2 bounds the distance by sqrt(complementarity) and multipliers
    long double ms = 1;
    for(auto & l : v.lam)
      for(double d : l) ms = std::max(ms, (long double)std::abs(d));
    for(auto & l : v.nu)
      for(double d : l) ms = std::max(ms, (long double)std::abs(d));
    long double dist = 0, lim = 30 * std::sqrt(tol * ms / std::min(piv, 1.0L)) ;
    for(int j = 0; j < nv; j++) dist = std::max(dist, std::abs(best[j] - got[j]));
    if(!(dist <= lim)) fail("Succeeded, but the returned inputs differ from the minimiser by " + str(double(dist)) + " (bound " + str(double(lim)) + ")");
    c.traces();
  }
  c.trans(r.solver->traceDataList().size());
  c.outcome("Succeeded after " + std::to_string(r.solver->traceDataList().size() / 10 * 10) + "+ iterations, "
            + std::to_string(std::min<size_t>(act.size(), 6)) + " active" + (verified ? "" : ", optimum not cross-checked"));
  c.state(hashVec(SD * 64 + UD * 8 + GD, fmpcObs(*r.solver, int(st))));
  c.nontrivialCase();
}
#endif

#ifndef QB
#  define QB 3
#endif
int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#if PROP == 8
  sp.push_back({"kkt", c08, QB, QB + 1});
#elif PROP == 9
  sp.push_back({"newton", c09, QB, QB + 1});
#elif PROP == 10
  sp.push_back({"positivity", c10, QB, QB + 1});
#elif PROP == 11
  sp.push_back({"line_search", c11, QB, QB + 1});
#  ifdef L1GRID
  sp.push_back({"l1_norm", c11l1, 0, 0});
#  endif
#elif PROP == 12
  sp.push_back({"convex", c12, QB, QB + 1});
#endif
  return exploreMain(argc, argv, sp);
}
