// C14: dynamic, time-varying, empty and statically zero dimensions.
//  -DDDP: DDPSolver<2,Dynamic> against DDPSolver<2,m>      (same sizes, or padded)
//  -DFMPC: FmpcSolver<2,Dynamic,Dynamic> against FmpcSolver<2,m,p>
//  -DZERO=0..5: statically zero dimensions against the dynamic solver
#if defined(DDP) || (defined(ZERO) && ZERO == 0)
#  include "ddp_gen.h"
#else
#  include "fmpc_common.h"
#endif
using namespace verif;

// chooses the per-step dimensions: full product over {0,1,2} per step
static std::vector<int> pattern(Ctx & c, const char * name, int N, int hi)
{
  std::vector<int> o;
  for(int i = 0; i < N; i++) o.push_back(c.free(name, hi + 1));
  return o;
}

#if defined(DDP) || (defined(ZERO) && ZERO == 0)
struct Cmp
{
  int max_iter, reg, lim, alpha;
  int prior; // earlier call with other dimensions on the dynamic solver
  double lambda0;
};
static Cmp config(Ctx & c)
{
  Cmp k;
  k.max_iter = c.devOf<int>("max_iter", {2, 1, 3, 40});
  k.reg = c.devOf<int>("reg", {1, 2});
  k.lim = c.devOf<int>("lim", {0, 1, 2, 3, 6});
  k.alpha = c.devOf<int>("alpha", {0, 1});
  k.lambda0 = c.devOf<double>("lambda0", {1e-4, 1.0, 0.0});
  k.prior = c.devOf<int>("prior", {0, 3, 1, 2});
  return k;
}
template<class R>
bool go(R & r, const Cmp & k, bool dynamic)
{
  auto & cfg = r.solver->config();
  cfg.max_iter = k.max_iter;
  cfg.reg_type = k.reg;
  cfg.initial_lambda = k.lambda0;
  if(k.alpha)
  {
    cfg.alpha_list.resize(3);
    cfg.alpha_list << 8.0, 1.0, 0.1;
  }
  LimitSpec l;
  l.kind = k.lim;
  if(k.lim == 0)
    cfg.with_input_constraint = false;
  else
  {
    using UV = typename R::UV;
    auto env = r.env;
    cfg.with_input_constraint = true;
    r.solver->setInputLimitsFunc(
        [env, l](double t)
        {
          int k = env->step(t, false, "input limits function");
          int m = env->g.md.m[k], a = env->g.md.act(k);
          std::array<UV, 2> o;
          o[0].resize(m);
          o[1].resize(m);
          for(int j = 0; j < m; j++)
          {
            double p = -1, q = 1; // padding inputs
            if(j < a) l.get(k, j, p, q);
            o[0](j) = p;
            o[1](j) = q;
          }
          return o;
        });
  }
  if(dynamic) r.prior(k.prior);
  bool ok = r.solve();
  if(!r.env->error.empty()) fail(r.env->error);
  return ok;
}
template<class RA, class RB>
void compare(Ctx & c, const RA & a, const RB & b, const Gen & g, bool oka, bool okb, const Cmp & k)
{
  const auto & ca = a.solver->controlData();
  const auto & cb = b.solver->controlData();
  double tol = k.max_iter > 3 ? 1e-4 : 1e-7;
  if(ca.x_list.size() != cb.x_list.size() || ca.u_list.size() != cb.u_list.size()) fail("different lengths of control data");
  for(size_t i = 0; i < ca.x_list.size(); i++)
    for(int j = 0; j < ca.x_list[i].size(); j++)
      if(!close(ca.x_list[i](j), cb.x_list[i](j), tol, tol))
        fail("state " + std::to_string(i) + " of the solver with dynamic dimensions differs from the equivalent fixed one: " + str(ca.x_list[i](j)) + " vs " + str(cb.x_list[i](j)));
  for(size_t i = 0; i < ca.u_list.size(); i++)
  {
    int m = g.md.m[g.k0 + i];
    if(ca.u_list[i].size() != m) fail("returned input has dimension " + std::to_string(ca.u_list[i].size()) + " instead of " + std::to_string(m));
    for(int j = 0; j < m; j++)
      if(!close(ca.u_list[i](j), cb.u_list[i](j), tol, tol))
        fail("input " + std::to_string(i) + " of the solver with dynamic dimensions differs from the equivalent fixed one: " + str(ca.u_list[i](j)) + " vs " + str(cb.u_list[i](j)));
  }
  if(k.max_iter <= 2)
  {
    if(oka != okb) fail("solvers with dynamic and fixed dimensions disagree on success");
    if(a.solver->traceDataList().size() != b.solver->traceDataList().size()) fail("solvers with dynamic and fixed dimensions take different numbers of iterations");
  }
  c.outcome(oka ? "success" : "no success");
  c.state(hashVec(g.N, ddpObs(*a.solver, oka)));
  c.traces();
  c.trans(a.solver->traceDataList().size());
  c.nontrivialCase();
}
#endif

#ifdef DDP
template<int MF>
void ddpPadded(Ctx & c)
{
  GenOpt o;
  o.n = 2;
  o.nfix = c.free("steps", c.thorough ? 5 : 4) + 1;
  o.mlist = pattern(c, "m", o.nfix, MF);
  Gen g = genProblem(c, o);
  Cmp k = config(c);
  c.claim();
  DdpRun<2, -1> a(g);
  DdpRun<2, MF> b(padGen(g, MF, 0));
  bool oka = go(a, k, true), okb = go(b, k, false);
  compare(c, a, b, g, oka, okb, k);
}
#endif

#if defined(ZERO) && ZERO == 0
static void ddpZero(Ctx & c)
{
  GenOpt o;
  o.n = 2;
  o.mfix = 0;
  Gen g = genProblem(c, o);
  Cmp k = config(c);
  c.claim();
  DdpRun<2, -1> a(g);
  DdpRun<2, 0> b(g);
  bool oka = go(a, k, true), okb = go(b, k, false);
  compare(c, a, b, g, oka, okb, k);
}
#endif

#if defined(FMPC) || (defined(ZERO) && ZERO > 0)
struct Opt
{
  int iters;
  bool init, update, ls, msc, check_nan, brk;
};
template<class R>
void apply(R & r, const Opt & k, double thre)
{
  auto & cfg = r.solver->config();
  cfg.max_iter = k.iters;
  cfg.kkt_error_thre = thre;
  cfg.init_complementary_variable = k.init;
  cfg.update_barrier_eps = k.update;
  cfg.enable_line_search = k.ls;
  cfg.merit_const_scale_from_lagrange_multipliers = k.msc;
  cfg.check_nan = k.check_nan;
  cfg.break_if_llt_fails = k.brk;
}
static Vars padVars(const Vars & v, const Gen & gp)
{
  Vars o = v;
  for(int i = 0; i < gp.N; i++)
  {
    o.u[i].resize(gp.md.m[gp.k0 + i], 0.0);
    o.s[i].resize(gp.md.p[gp.k0 + i], 1.0);
    o.nu[i].resize(gp.md.p[gp.k0 + i], 1e-4);
  }
  return o;
}
static void compareVars(const Gen & g, const Vars & a, const Vars & b, double tol, bool primal_only)
{
  auto one = [&](const std::vector<Vec> & p, const std::vector<Vec> & q, const char * w, std::function<int(int)> dim)
  {
    if(p.size() != q.size()) fail(std::string("different lengths of ") + w);
    for(size_t i = 0; i < p.size(); i++)
    {
      int d = dim(i);
      if((int)p[i].size() != d) fail(std::string(w) + " has dimension " + std::to_string(p[i].size()) + " instead of " + std::to_string(d));
      for(int j = 0; j < d; j++)
        if(!close(p[i][j], q[i][j], tol, tol))
          fail(std::string(w) + "[" + std::to_string(i) + "] of the solver with dynamic dimensions differs from the equivalent fixed one: " + str(p[i][j]) + " vs " + str(q[i][j]));
    }
  };
  auto n = [&](int) { return g.md.n; };
  auto m = [&](int i) { return g.md.m[g.k0 + i]; };
  auto p = [&](int i) { return g.md.p[g.k0 + i]; };
  one(a.x, b.x, "x", n);
  one(a.u, b.u, "u", m);
  if(primal_only) return;
  one(a.lam, b.lam, "lambda", n);
  one(a.s, b.s, "s", p);
  one(a.nu, b.nu, "nu", p);
}
#endif

#ifdef FMPC
// k iterations from the same guess give the same variables as the padded fixed-dimension solver
template<int MF, int PF>
void fmpcPadded(Ctx & c)
{
  GenOpt o;
  o.n = 2;
  o.nfix = c.free("steps", 3) + 1;
  if(o.nfix == 3 && MF + PF > 2 && !c.thorough)
  {
    // every pattern of the two kinds of dimensions, combined step by step
    o.mlist = pattern(c, "m", 3, MF);
    int sh = c.free("p", 3);
    for(int i = 0; i < 3; i++) o.plist.push_back((o.mlist[(i + sh) % 3] + sh + i) % (PF + 1));
  }
  else
  {
    o.mlist = pattern(c, "m", o.nfix, MF);
    o.plist = pattern(c, "p", o.nfix, PF);
  }
  Gen g = genProblem(c, o);
  Opt k;
  k.iters = c.devOf<int>("iters", {2, 1, 4});
  k.init = false;
  k.update = false;
  int ls = c.dev("ls", 3);
  k.ls = ls > 0;
  k.msc = ls == 2;
  k.check_nan = !c.dev("no_nan_check", 2);
  k.brk = c.dev("brk", 2);
  Vars v = genVars(c, g);
  int prior = c.devOf<int>("prior", {0, 3, 1, 2}); // earlier call with other dimensions
  c.claim();
  Gen gp = padGen(g, MF, PF);
  FmpcRun<2, -1, -1> a(g);
  FmpcRun<2, MF, PF> b(gp);
  apply(a, k, -1.0);
  apply(b, k, -1.0);
  a.prior(prior);
  int sa = (int)a.solve(v), sb = (int)b.solve(padVars(v, gp));
  if(!a.env->error.empty()) fail(a.env->error);
  if(sa != sb) fail("status " + std::to_string(sa) + " with dynamic dimensions, " + std::to_string(sb) + " with fixed ones");
  Vars va = a.vars(), vb = b.vars();
  compareVars(g, va, vb, 1e-6, false);
  c.outcome("status " + std::to_string(sa));
  c.state(hashVec(g.N, va.flat()));
  c.traces();
  c.trans(k.iters);
  c.nontrivialCase();
}
// with every option, the dynamic solver reaches the optimum of the padded fixed-dimension solver on convex problems
template<int MF, int PF>
void fmpcOptimum(Ctx & c)
{
  GenOpt o;
  o.n = 2;
  o.allow_nonlinear = false;
  o.nfix = c.free("steps", 2) + 1;
  o.mlist = pattern(c, "m", o.nfix, MF);
  o.plist = pattern(c, "p", o.nfix, PF);
  Gen g = genProblem(c, o);
  // constraints that every state and input can satisfy: only at steps with inputs, or loose
  double far = 0;
  for(double d : g.x0) far = std::max(far, std::abs(d));
  for(int kk = 0; kk < g.md.steps; kk++)
    for(int i = 0; i < g.md.p[kk]; i++) g.md.e[kk][i] += far > 10 ? 4 * far : 6.0;
  int opt = c.free("opt", 16);
  Opt k;
  k.iters = 60;
  k.init = opt & 1;
  k.update = !(opt & 2) || !k.init;
  k.check_nan = !(opt & 4);
  k.brk = opt & 8;
  k.ls = false;
  k.msc = false;
  Vars v = genVars(c, g);
  c.claim();
  Gen gp = padGen(g, MF, PF);
  FmpcRun<2, -1, -1> a(g);
  FmpcRun<2, MF, PF> b(gp);
  double thre = k.update ? 1e-7 : -1.0;
  apply(a, k, thre);
  apply(b, k, thre);
  int sa = (int)a.solve(v), sb = (int)b.solve(padVars(v, gp));
  if(!a.env->error.empty()) fail(a.env->error);
  if(sa != sb) fail("status " + std::to_string(sa) + " with dynamic dimensions, " + std::to_string(sb) + " with fixed ones");
  compareVars(g, a.vars(), b.vars(), 1e-4, true);
  c.outcome("status " + std::to_string(sa));
  c.state(hashVec(g.N, a.vars().flat()));
  c.traces();
  c.trans(a.solver->traceDataList().size());
  c.nontrivialCase();
}
#endif

#if defined(ZERO) && ZERO > 0
template<int U, int G, int MD, int PD>
void fmpcZero(Ctx & c)
{
  GenOpt o;
  o.n = 2;
  if(U == -1) o.mfix = -1; else o.mfix = U;
  if(G == -1) o.pfix = -1; else o.pfix = G;
  Gen g = genProblem(c, o);
  Opt k;
  int opt = c.free("opt", 8);
  k.iters = c.devOf<int>("iters", {2, 1, 30});
  k.init = opt & 1;
  k.update = !(opt & 2);
  k.ls = opt & 4;
  k.msc = c.dev("msc", 2);
  k.check_nan = !c.dev("no_nan_check", 2);
  k.brk = c.dev("brk", 2);
  Vars v = genVars(c, g);
  c.claim();
  FmpcRun<2, -1, -1> a(g);
  FmpcRun<2, U, G> b(g);
  apply(a, k, 1e-6);
  apply(b, k, 1e-6);
  a.solver->config().print_level = b.solver->config().print_level = c.dev("print", 2) ? 3 : 0;
  int sa = (int)a.solve(v), sb = (int)b.solve(v);
  if(!b.env->error.empty()) fail(b.env->error);
  if(sa != sb && k.iters <= 2) fail("status " + std::to_string(sa) + " with dynamic dimensions, " + std::to_string(sb) + " with statically zero ones");
  compareVars(g, a.vars(), b.vars(), k.iters > 2 ? 1e-4 : 1e-6, k.iters > 2);
  c.outcome("status " + std::to_string(sb));
  c.state(hashVec(g.N, b.vars().flat()));
  c.traces();
  c.trans(k.iters);
  c.nontrivialCase();
}
#endif

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#ifdef DDP
  sp.push_back({"pad2", ddpPadded<2>, 2, 2});
  sp.push_back({"pad1", ddpPadded<1>, 2, 3});
#endif
#ifdef FMPC
  sp.push_back({"pad_2_2", fmpcPadded<2, 2>, 1, 2});
  sp.push_back({"pad_1_2", fmpcPadded<1, 2>, 1, 2});
  sp.push_back({"optimum_2_2", fmpcOptimum<2, 2>, 1, 2});
#endif
#ifdef ZERO
#  if ZERO == 0
  sp.push_back({"ddp_2_0", ddpZero, 2, 2});
#  elif ZERO == 1
  sp.push_back({"fmpc_2_0_0", fmpcZero<0, 0, 0, 0>, 2, 3});
  sp.push_back({"fmpc_2_1_0", fmpcZero<1, 0, 0, 0>, 2, 3});
  sp.push_back({"fmpc_2_0_1", fmpcZero<0, 1, 0, 0>, 2, 3});
  sp.push_back({"fmpc_2_D_0", fmpcZero<-1, 0, 0, 0>, 2, 3});
#  endif
#endif
  return exploreMain(argc, argv, sp);
}
