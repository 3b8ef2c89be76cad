// C20, C21, C22 (selected by -DPROP): CgmresSolver.
#include "cg_common.h"
#include <dlfcn.h>
#include <fstream>
#include <sys/stat.h>
using namespace verif;

// --- every file the code under test opens under /tmp lands in a scratch directory of this process -----------------
static std::string g_redirect;
static std::set<std::string> g_opened;
static std::string redirected(const char * p)
{
  if(!g_redirect.empty() && strncmp(p, "/tmp/", 5) == 0 && strncmp(p, g_redirect.c_str(), g_redirect.size()) != 0)
  {
    std::string b(p + 5);
    for(auto & ch : b)
      if(ch == '/') ch = '_';
    g_opened.insert(b);
    return g_redirect + "/" + b;
  }
  return p;
}
extern "C" FILE * fopen(const char * path, const char * mode)
{
  using F = FILE * (*)(const char *, const char *);
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fopen"));
  return real(redirected(path).c_str(), mode);
}
extern "C" FILE * fopen64(const char * path, const char * mode)
{
  using F = FILE * (*)(const char *, const char *);
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fopen64"));
  return real(redirected(path).c_str(), mode);
}

static CgSet genSet(Ctx & c)
{
  CgSet s;
  s.N = c.devOf<int>("N", {4, 1, 2, 3, 7});
  s.Tf = c.devOf<double>("Tf", {1.0, 0.3, 2.0});
  s.alpha = c.devOf<double>("alpha", {0.5, 3.0});
  s.ode = c.devOf<int>("ode", {0, 1});
  return s;
}

// C20 ---------------------------------------------------------------------------------------------------------------
static void c20(Ctx & c)
{
  CgModel md = genCg(c);
  CgSet s = genSet(c);
  double t = c.devOf<double>("t", {1.5, 0.0, 0.2, 10.0});
  int ux = c.dev("U", 4), xx = c.dev("xq", 3), ext = c.dev("list", 2), twice = c.dev("again", 3);
  c.claim();
  CgRun r(md, s);
  r.solver->setup();
  auto mk = [&](int which, MatrixXd & U, VectorXd & x)
  {
    U.resize(md.m, s.N);
    x.resize(md.n);
    for(int i = 0; i < s.N; i++)
      for(int j = 0; j < md.m; j++)
        U(j, i) = which == 0 ? 0.5 * tabv(i + 3 * j) : (which == 1 ? 0.0 : (which == 2 ? 0.7 : (i == s.N - 1 ? 2.0 : -0.3)));
    for(int i = 0; i < md.n; i++) x(i) = xx == 0 ? 0.8 - i : (xx == 1 ? 0.0 : -1.7 + 0.9 * i);
  };
  for(int call = 0; call <= (twice ? 1 : 0); call++)
  {
    if(twice == 2 && call == 1)
    {
      s.N = s.N == 3 ? 5 : 3; // another horizon division on the same object
      r.apply(s);
      r.solver->setup();
    }
    MatrixXd U;
    VectorXd x;
    mk((ux + call) % 4, U, x);
    double tq = call ? t + 0.25 : t;
    if(!ext) r.solver->u_list_ = U;
    MatrixXd stored = r.solver->u_list_, Ugiven = U, out(md.m, s.N);
    double T = double(horizon(s, tq));
    r.env->t_lo = tq;
    r.env->t_hi = tq + T;
    if(ext)
      r.solver->calcDhDuList(tq, x, U, out);
    else
      r.solver->calcDhDuList(tq, x, r.solver->u_list_, out);
    r.env->t_lo = -1e300;
    r.env->t_hi = 1e300;
    if(!r.env->error.empty()) fail(r.env->error);
    if(r.solver->u_list_ != stored) fail("calcDhDuList changed the stored input sequence");
    if(U != Ugiven) fail("calcDhDuList changed the given input sequence");
    LVec lx, lU = flat(U);
    for(int i = 0; i < md.n; i++) lx.push_back(x(i));
    LVec want = refF(md, s, tq, lx, lU), got = flat(out);
    long double sc = 1 + lnorm(want);
    for(size_t i = 0; i < want.size(); i++)
      if(!(std::abs(want[i] - got[i]) <= 1e-9L * sc))
        fail("optimality residual of stage " + std::to_string(i / md.m) + " is " + sd(double(got[i])) + ", reference "
             + sd(double(want[i])));
    // gradient of the discretised cost (Euler; the costate equation is evaluated at the later end of a step, so its
    // explicit time dependence is excluded here)
    long double ds = horizon(s, tq) / s.N;
    if(s.ode == 0 && md.wt == 0)
    {
      long double e = 1e-4L;
      for(size_t i = 0; i < lU.size(); i++)
      {
        LVec a = lU, b = lU;
        a[i] += e;
        b[i] -= e;
        long double g = (eulerCost(md, s, tq, lx, a) - eulerCost(md, s, tq, lx, b)) / (2 * e);
        if(!(std::abs(g - ds * got[i]) <= 1e-6L * (1 + std::abs(g)) * std::max<long double>(ds, 1e-3L)))
          fail("residual times step " + sd(double(ds * got[i])) + " is not the gradient of the horizon cost " + sd(double(g)));
      }
      c.outcome(ds > 0 ? "gradient checked" : "zero horizon");
    }
    c.traces();
    c.trans(s.N);
    uint64_t h = 20;
    for(auto v : got) h = hashDouble(h, v);
    c.state(h);
  }
  if(t > 0) c.nontrivialCase();
}

// C21 ---------------------------------------------------------------------------------------------------------------
// Reference GMRES on the (finite-difference) operator: returns the update of v, and the minimal residual.
static long double refKrylov(const std::function<LVec(const LVec &)> & Am, const LVec & b, LVec & v, int kmax, long double & gap)
{
  int N = b.size();
  LVec r = Am(v);
  for(int i = 0; i < N; i++) r[i] = b[i] - r[i];
  std::vector<LVec> V, W;
  LVec w = r;
  long double r0 = lnorm(r), bn = lnorm(b);
  gap = 1;
  kmax = std::min(kmax, N);
  std::vector<LVec> Vk;
  // normal equations through an orthonormalised image basis with back substitution
  std::vector<LVec> Qi;
  std::vector<LVec> Rc;
  LVec rhs;
  LVec res = r;
  long double ref = r0;
  for(int k = 0; k < kmax; k++)
  {
    if(lnorm(res) <= 1e-10L * bn) break;
    for(int rep = 0; rep < 3; rep++)
      for(auto & q : V)
      {
        long double d = dotv(q, w);
        for(int i = 0; i < N; i++) w[i] -= d * q[i];
      }
    long double nw = lnorm(w);
    if(!(nw > 1e-9L * ref)) { if(nw > 1e-16L * ref) gap = 0; break; }
    gap = std::min(gap, nw / std::max(ref, (long double)1e-300));
    for(auto & z : w) z /= nw;
    V.push_back(w);
    LVec a = Am(w), z = a;
    ref = lnorm(a);
    LVec col(Qi.size(), 0);
    for(int rep = 0; rep < 3; rep++)
      for(size_t j = 0; j < Qi.size(); j++)
      {
        long double d = dotv(Qi[j], z);
        col[j] += d;
        for(int i = 0; i < N; i++) z[i] -= d * Qi[j][i];
      }
    long double nz = lnorm(z);
    gap = std::min(gap, nz / std::max(ref, (long double)1e-300));
    if(!(nz > 1e-12L * ref)) break;
    for(auto & y : z) y /= nz;
    col.push_back(nz);
    Qi.push_back(z);
    Rc.push_back(col);
    long double d = dotv(z, res);
    rhs.push_back(d);
    for(int i = 0; i < N; i++) res[i] -= d * z[i];
    w = a;
  }
  int K = Rc.size();
  LVec y(K, 0);
  for(int i = K - 1; i >= 0; i--)
  {
    long double s = rhs[i];
    for(int j = i + 1; j < K; j++) s -= Rc[j][i] * y[j];
    y[i] = s / Rc[i][i];
  }
  for(int k = 0; k < K; k++)
    for(int i = 0; i < N; i++) v[i] += y[k] * V[k][i];
  return lnorm(res);
}

static void c21(Ctx & c)
{
  CgModel md = genCg(c);
  CgSet s = genSet(c);
  s.dt = c.devOf<double>("dt", {0.01, 0.001, 0.05});
  s.zeta = c.devOf<double>("zeta", {20.0, 5.0, 100.0, 0.0});
  int hk = c.dev("h", 4);
  s.h = hk == 0 ? 0.002 : (hk == 1 ? s.dt : (hk == 2 ? 0.02 : 1e-4));
  int km = c.dev("kmax", 5);
  double t = c.devOf<double>("t", {0.0, 0.7, 5.0});
  int steps = c.devOf<int>("steps", {3, 1, 6});
  int pert = c.dev("pert", 3), nx = c.dev("next", 3);
  c.claim();
  s.kmax = km == 0 ? 3 : (km == 1 ? 1 : (km == 2 ? 2 : (km == 3 ? s.N * md.m : 100)));
  CgRun r(md, s);
  r.solver->setup();
  if(pert)
    for(int i = 0; i < s.N; i++)
      for(int j = 0; j < md.m; j++) r.solver->u_list_(j, i) += pert == 1 ? 0.3 * tabv(i + j) : (i == 0 ? 0.5 : 0.0);
  VectorXd x = r.prob->x_initial_, u(md.m);
  bool full = false;
  for(int k = 0; k < steps; k++)
  {
    LVec U0 = flat(r.solver->u_list_), d0;
    for(int i = 0; i < r.solver->delta_u_vec_.size(); i++) d0.push_back(r.solver->delta_u_vec_(i));
    LVec lx, lnx;
    for(int i = 0; i < md.n; i++) lx.push_back(x(i));
    LVec u0(U0.begin(), U0.begin() + md.m);
    LVec f = md.f<long double>(t, lx, u0);
    VectorXd next(md.n);
    for(int i = 0; i < md.n; i++)
    {
      next(i) = nx == 1 ? x(i) : double(lx[i] + s.dt * f[i] + (nx == 2 ? 0.01 : 0.0));
      lnx.push_back(next(i));
    }
    VectorXd xg = x, ng = next;
    r.solver->calcControlInput(t, x, next, u);
    if(!r.env->error.empty()) fail(r.env->error);
    if(x != xg || next != ng) fail("calcControlInput modified the given states");
    LVec U1 = flat(r.solver->u_list_);
    if(U1.size() != U0.size()) fail("size of the stored input sequence changed");
    for(int j = 0; j < md.m; j++)
      if(u(j) != r.solver->u_list_(j, 0)) fail("returned input is not the first stage of the stored sequence");
    // continuation equation
    long double h = s.h, th = t + h;
    LVec xh(md.n);
    for(int i = 0; i < md.n; i++) xh[i] = (1 - h / s.dt) * lx[i] + h / s.dt * lnx[i];
    LVec F0 = refF(md, s, t, lx, U0), F1 = refF(md, s, th, xh, U0);
    int N = U0.size();
    LVec b(N);
    for(int i = 0; i < N; i++) b[i] = ((1 - (long double)s.zeta * h) * F0[i] - F1[i]) / h;
    auto Am = [&](const LVec & v)
    {
      LVec z = U0;
      for(int i = 0; i < N; i++) z[i] += h * v[i];
      LVec o = refF(md, s, th, xh, z);
      for(int i = 0; i < N; i++) o[i] = (o[i] - F1[i]) / h;
      return o;
    };
    LVec v = d0;
    long double gap, bn = lnorm(b), r0;
    {
      LVec q = Am(d0);
      for(int i = 0; i < N; i++) q[i] = b[i] - q[i];
      r0 = lnorm(q);
    }
    long double best = refKrylov(Am, b, v, s.kmax, gap);
    // update taken by the implementation
    LVec vi(N);
    for(int i = 0; i < N; i++)
    {
      vi[i] = (U1[i] - U0[i]) / s.dt;
      if(!std::isfinite((double)vi[i])) fail("updated inputs are not finite");
    }
    long double noise = 1e-12L / (h * s.dt); // rounding of the finite difference and of U1 - U0
    LVec q = Am(vi);
    for(int i = 0; i < N; i++) q[i] = b[i] - q[i];
    long double rn = lnorm(q), sc = 1 + bn + r0;
    // On problems where the operator is not linear the residual of the combination differs from the combination of
    // the residuals, so optimality is judged through the update itself.
    bool unique = gap > 1e-5L;
    if(md.lq())
    {
      if(!(rn <= best + 1e-8L * sc + noise + 2e-10L * bn))
        fail("residual of the continuation equation is " + sd(double(rn)) + ", the Krylov space contains a point with "
             + sd(double(best)) + " (step " + std::to_string(k) + ")");
      if(!(rn <= r0 + 1e-8L * sc + noise)) fail("residual of the continuation equation grew");
    }
    if(unique)
    {
      long double d = 0, vs = 1;
      for(int i = 0; i < N; i++)
      {
        d = std::max(d, std::abs(vi[i] - v[i]));
        vs = std::max(vs, std::abs(v[i]));
      }
      if(!(d <= 1e-6L * vs + noise * 10 / gap))
        fail("input update differs from dt times the minimal-residual vector by " + sd(double(d)) + " (step "
             + std::to_string(k) + ")");
    }
    c.outcome(unique ? "update compared" : "residual compared");
    if(md.lq() && s.h == s.dt && s.kmax >= N && best <= 1e-9L * sc)
    {
      LVec Fn = refF(md, s, t + s.dt, lnx, U1);
      for(int i = 0; i < N; i++)
        if(!(std::abs(Fn[i] - (1 - (long double)s.zeta * s.dt) * F0[i]) <= 1e-7L * (1 + lnorm(F0) + s.dt * bn)))
          fail("optimality residual does not decay by 1 - zeta dt");
      full = true;
      c.outcome("decay checked");
    }
    c.traces();
    c.trans();
    uint64_t hh = 21;
    for(auto z : U1) hh = hashDouble(hh, z);
    c.state(hh);
    x = next;
    t += s.dt;
  }
  c.nontrivialCase();
  (void)full;
}

// C22 ---------------------------------------------------------------------------------------------------------------
static std::vector<std::vector<double>> readLog(const std::string & name)
{
  std::vector<std::vector<double>> o;
  std::ifstream is(g_redirect + "/" + name);
  if(!is) fail("run() wrote no log file " + name);
  std::string line;
  while(std::getline(is, line))
  {
    std::vector<double> row;
    for(auto & ch : line)
      if(ch == ',') ch = ' ';
    std::istringstream ls(line);
    std::string w;
    while(ls >> w) row.push_back(strtod(w.c_str(), nullptr));
    o.push_back(row);
  }
  return o;
}
static std::vector<double> cgObs(nmpc_cgmres::CgmresSolver & s)
{
  std::vector<double> o;
  auto ad = [&](const MatrixXd & m)
  {
    o.push_back(m.rows());
    o.push_back(m.cols());
    for(int j = 0; j < m.cols(); j++)
      for(int i = 0; i < m.rows(); i++) o.push_back(m(i, j));
  };
  ad(s.x_);
  ad(s.u_);
  ad(s.u_list_);
  ad(s.delta_u_vec_);
  return o;
}
static void sameOr(const std::vector<double> & a, const std::vector<double> & b, const std::string & what)
{
  if(a.size() != b.size()) fail(what + ": sizes differ from those of a fresh solver");
  for(size_t i = 0; i < a.size(); i++)
    if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) fail(what + ": differs from a fresh solver: " + sd(a[i]) + " vs " + sd(b[i]));
}

static void checkSetup(CgRun & r, const CgSet & s)
{
  auto & so = *r.solver;
  const CgModel & md = r.env->md;
  if(!r.env->error.empty()) fail(r.env->error);
  if(so.u_list_.rows() != md.m || so.u_list_.cols() != s.N) fail("setup() gives the input sequence wrong dimensions");
  if(so.delta_u_vec_.size() != md.m * s.N) fail("setup() gives the update vector wrong dimensions");
  for(int i = 0; i < s.N; i++)
    if(so.u_list_.col(i) != so.u_) fail("setup() does not fill the horizon with the initial input");
  for(int i = 0; i < so.delta_u_vec_.size(); i++)
    if(so.delta_u_vec_(i) != 0) fail("setup() does not reset the update vector");
  if(so.x_ != r.prob->x_initial_) fail("setup() does not start at the initial state");
  LVec x(md.x0.begin(), md.x0.end()), u;
  for(int j = 0; j < md.m; j++) u.push_back(so.u_(j));
  LVec hu = md.Hu<long double>(0, x, u, md.phix<long double>(0, x));
  if(md.con)
  {
    // non-convex: owed only when a plain Newton iteration from the same guess converges quickly
    LVec z(md.u0.begin(), md.u0.end()), lam = md.phix<long double>(0, x);
    int it = 0;
    for(; it < 8; it++)
    {
      LVec h0 = md.Hu<long double>(0, x, z, lam), st, b;
      if(lnorm(h0) <= 1e-9L) break;
      LMat J(md.m, md.m);
      for(int j = 0; j < md.m; j++)
      {
        LVec zz = z;
        zz[j] += 1e-6L;
        LVec h1 = md.Hu<long double>(0, x, zz, lam);
        for(int i = 0; i < md.m; i++) J(i, j) = (h1[i] - h0[i]) / 1e-6L;
      }
      for(auto v : h0) b.push_back(-v);
      if(!(gauss(J, b, st) > 1e-3L)) return;
      for(int j = 0; j < md.m; j++) z[j] += st[j];
    }
    if(it >= 8) return;
  }
  if(!(lnorm(hu) <= 1.5e-6L)) fail("initial input does not satisfy the zero-horizon optimality condition: residual " + sd(double(lnorm(hu))));
}

static void c22(Ctx & c)
{
  CgModel md = genCg(c);
  CgSet s = genSet(c);
  s.dt = c.devOf<double>("dt", {0.01, 0.05});
  s.zeta = c.devOf<double>("zeta", {20.0, 5.0});
  s.kmax = c.devOf<int>("kmax", {3, 1, 8});
  s.h = c.devOf<double>("h", {0.002, 0.01});
  int sim = c.devOf<int>("sim", {-1, 1, 0});
  int nst = c.devOf<int>("nst", {5, 0, 1, 12});
  int dump = c.devOf<int>("dump", {1, 2, 5});
  int hist = c.dev("history", 7);
  bool exact_end = c.dev("end", 2) == 1; // the simulation duration is hit exactly (step size without rounding)
  if(exact_end) s.dt = 0.0625;
  c.claim();
  const char * d = getenv("VERIF_SCRATCH");
  g_redirect = std::string(d ? d : "/tmp") + "/tmp." + std::to_string(getpid());
  mkdir(g_redirect.c_str(), 0755);
  CgRun r(md, s, sim);
  auto & so = *r.solver;
  so.sim_duration_ = (nst + (exact_end ? 0.0 : 0.5)) * s.dt;
  so.dump_step_ = dump;
  // earlier use of the same object
  auto control = [&](int k)
  {
    VectorXd x = r.prob->x_initial_, nx = x * 0.99, u(md.m);
    for(int i = 0; i < k; i++) so.calcControlInput(0.4 + i * s.dt, x, nx, u);
  };
  CgSet other = s;
  other.N = s.N + 2;
  switch(hist)
  {
    case 1:
      so.setup();
      break;
    case 2:
      so.setup();
      control(2);
      break;
    case 3:
      so.run();
      break;
    case 4: // another horizon division first
      r.apply(other);
      so.setup();
      control(1);
      r.apply(s);
      break;
    case 5: // another initial state and input first
      r.prob->x_initial_ *= 0.3;
      r.prob->u_initial_ *= 0.9;
      so.run();
      r.prob->x_initial_ = CgProblem::toE(md.x0);
      r.prob->u_initial_ = CgProblem::toE(md.u0);
      break;
    case 6:
      so.run();
      so.setup();
      control(1);
      break;
  }
  so.setup();
  checkSetup(r, s);
  {
    CgRun f(md, s, sim);
    f.solver->setup();
    sameOr(cgObs(so), cgObs(*f.solver), "setup()");
  }
  if(hist == 2) control(1);
  // run
  so.run();
  if(!r.env->error.empty()) fail(r.env->error);
  auto lx = readLog("cgmres_x.dat"), lu = readLog("cgmres_u.dat"), le = readLog("cgmres_err.dat");
  // manual closed loop on a fresh solver
  CgRun f(md, s, sim);
  f.solver->setup();
  int simk = sim < 0 ? s.ode : sim;
  VectorXd x = f.prob->x_initial_, u = f.solver->u_;
  size_t row = 0;
  double t = 0;
  auto near = [&](double a, double b) { return std::abs(a - b) <= 2e-5 * std::max(std::abs(a), std::abs(b)) + 1e-9; };
  for(int k = 0; k <= nst; k++)
  {
    LVec X, Ul;
    for(int i = 0; i < md.n; i++) X.push_back(x(i));
    for(int j = 0; j < md.m; j++) Ul.push_back(u(j));
    LVec N = odeStep(simk, [&](long double tt, const LVec & xx) { return md.f<long double>(tt, xx, Ul); }, t, X, s.dt);
    VectorXd nx(md.n);
    for(int i = 0; i < md.n; i++) nx(i) = double(N[i]);
    long double err = lnorm(refF(md, s, t, X, flat(f.solver->u_list_)));
    f.solver->calcControlInput(t, x, nx, u);
    x = nx;
    if(k % dump == 0)
    {
      if(row >= lx.size() || row >= lu.size() || row >= le.size()) fail("log has too few lines: " + std::to_string(lx.size()));
      auto & a = lx[row];
      auto & b = lu[row];
      auto & e = le[row];
      if((int)a.size() != 1 + md.n || (int)b.size() != 1 + md.m || e.size() != 2) fail("log line has a wrong number of columns");
      if(!near(a[0], t) || !near(b[0], t) || !near(e[0], t)) fail("log line " + std::to_string(row) + " has time " + sd(a[0]) + ", expected " + sd(t));
      for(int i = 0; i < md.n; i++)
        if(!near(a[1 + i], x(i))) fail("logged state " + sd(a[1 + i]) + " at time " + sd(t) + ", simulation gives " + sd(x(i)));
      for(int j = 0; j < md.m; j++)
        if(!near(b[1 + j], u(j))) fail("logged input " + sd(b[1 + j]) + " at time " + sd(t) + ", control gives " + sd(u(j)));
      if(!(std::abs(e[1] - double(err)) <= 2e-5 * double(err) + 1e-9)) fail("logged residual norm " + sd(e[1]) + " at time " + sd(t) + ", residual is " + sd(double(err)));
      row++;
    }
    t += s.dt;
    c.trans();
  }
  if(lx.size() != row || lu.size() != row || le.size() != row)
    fail("log has " + std::to_string(lx.size()) + " lines, expected " + std::to_string(row));
  for(int i = 0; i < md.n; i++)
    if(!(std::abs(so.x_(i) - x(i)) <= 1e-8 * (1 + std::abs(x(i))))) fail("final state of run() is " + sd(so.x_(i)) + ", simulation gives " + sd(x(i)));
  for(int j = 0; j < md.m; j++)
    if(!(std::abs(so.u_(j) - u(j)) <= 1e-7 * (1 + std::abs(u(j))))) fail("final input of run() is " + sd(so.u_(j)) + ", control gives " + sd(u(j)));
  // run() again
  CgRun g2(md, s, sim);
  g2.solver->sim_duration_ = so.sim_duration_;
  g2.solver->dump_step_ = dump;
  g2.solver->run();
  sameOr(cgObs(so), cgObs(*g2.solver), "run()");
  c.traces(row + 1);
  uint64_t h = 22;
  for(double v : cgObs(so)) h = hashDouble(h, v);
  c.state(h);
  c.outcome("history " + std::to_string(hist));
  if(nst > 0) c.nontrivialCase();
}

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#if PROP == 20
  sp.push_back({"residual", c20, 4, 5});
#elif PROP == 21
  sp.push_back({"control", c21, 3, 4});
#elif PROP == 22
  sp.push_back({"setup_run", c22, 3, 4});
#endif
  return exploreMain(argc, argv, sp);
}
