// Checks C06 and C07 for BoxQP<VD> (-DPROP=6|7, -DVD=dimension or -1 for dynamic, -DND=actual dimension).
#include "eigen_setup.h"
#include "problem_common.h"
#include <nmpc_ddp/BoxQP.h>
using namespace verif;

using QP = nmpc_ddp::BoxQP<VD>;
using V = QP::VarDimVector;
using M = QP::VarVarDimMatrix;
static const double inf = std::numeric_limits<double>::infinity();

struct Prob
{
  int n = ND;
  Mat H;
  Vec g, lo, hi, x0;
};

static std::string str(const Prob & p)
{
  return "H=" + verif::str(p.H.a) + " g=" + verif::str(p.g) + " lower=" + verif::str(p.lo) + " upper="
         + verif::str(p.hi) + " x0=" + verif::str(p.x0);
}

// Hessians: definite ones first (index < numDefinite), then singular / indefinite ones
static std::vector<Mat> hessians(int n, int & numDefinite)
{
  std::vector<Mat> o;
  auto diag = [&](std::initializer_list<double> l)
  {
    Mat m(n, n);
    int i = 0;
    for(double d : l)
      if(i < n)
      {
        m(i, i) = d;
        i++;
      }
    return m;
  };
  auto withOff = [&](Mat m, double a, double b, double c)
  {
    double off[3] = {a, b, c};
    for(int i = 0; i < n; i++)
      for(int j = 0; j < i; j++)
      {
        double rho = off[(i + j + n) % 3];
        double v = rho * std::sqrt(std::abs(m(i, i) * m(j, j)));
        m(i, j) = m(j, i) = v;
      }
    return m;
  };
  std::vector<Mat> cand;
  for(auto d : {diag({1, 1, 1, 1}), diag({1, 10, 3, 0.5}), diag({100, 0.05, 2, 1})})
  {
    cand.push_back(d);
    if(n > 1)
    {
      for(auto r : {std::array<double, 3>{0.6, -0.3, 0.2}, std::array<double, 3>{-0.7, 0.5, -0.4},
                    std::array<double, 3>{0.95, 0.9, 0.93}, std::array<double, 3>{-0.95, 0.9, 0.3},
                    std::array<double, 3>{0.4, -0.98, 0.1}})
        cand.push_back(withOff(d, r[0], r[1], r[2]));
    }
  }
  for(auto & m : cand)
    if(cholMinPivot(castM<long double>(m)) > 1e-3L) o.push_back(m);
  numDefinite = static_cast<int>(o.size());
  o.push_back(Mat(n, n)); // zero
  o.push_back(diag({-1, 1, 1, 1}));
  o.push_back(diag({1, 1, -2, 1}));
  o.push_back(diag({-1, -1, -1, -1}));
  if(n > 1)
  {
    o.push_back(withOff(diag({1, 1, 1, 1}), 2, 2, 2));
    o.push_back(withOff(diag({1, 4, 1, 1}), -1.5, 0.2, 0.1));
    o.push_back(withOff(diag({1, 1, 1, 1}), 1, 1, 1)); // singular, semidefinite
  }
  return o;
}

static bool chol(const Prob & p, const std::vector<int> & idx, long double & piv)
{
  LMat h(idx.size(), idx.size());
  for(size_t i = 0; i < idx.size(); i++)
    for(size_t j = 0; j < idx.size(); j++) h(i, j) = p.H(idx[i], idx[j]);
  piv = idx.empty() ? 1 : cholMinPivot(h);
  return piv > 0;
}

static long double objective(const Prob & p, const LVec & x)
{
  long double s = 0;
  for(int i = 0; i < p.n; i++)
  {
    s += p.g[i] * x[i];
    for(int j = 0; j < p.n; j++) s += 0.5L * x[i] * p.H(i, j) * x[j];
  }
  return s;
}

// Minimiser by enumeration of all 3^n active sets.
static bool bruteForce(const Prob & p, LVec & best)
{
  long double bobj = 0;
  bool found = false;
  int tot = 1;
  for(int i = 0; i < p.n; i++) tot *= 3;
  for(int code = 0; code < tot; code++)
  {
    std::vector<int> a(p.n), fr;
    int q = code;
    bool ok = true;
    LVec x(p.n, 0);
    for(int i = 0; i < p.n; i++)
    {
      a[i] = q % 3;
      q /= 3;
      if(a[i] == 0)
        fr.push_back(i);
      else
      {
        double b = a[i] == 1 ? p.lo[i] : p.hi[i];
        if(std::isinf(b)) ok = false;
        x[i] = b;
      }
    }
    if(!ok) continue;
    LMat h(fr.size(), fr.size());
    LVec r(fr.size()), s;
    for(size_t i = 0; i < fr.size(); i++)
    {
      r[i] = -p.g[fr[i]];
      for(int j = 0; j < p.n; j++)
        if(a[j] != 0) r[i] -= p.H(fr[i], j) * x[j];
      for(size_t j = 0; j < fr.size(); j++) h(i, j) = p.H(fr[i], fr[j]);
    }
    if(gauss(h, r, s) == 0) continue;
    for(size_t i = 0; i < fr.size(); i++)
    {
      x[fr[i]] = s[i];
      if(s[i] < p.lo[fr[i]] - 1e-15L || s[i] > p.hi[fr[i]] + 1e-15L) ok = false;
    }
    if(!ok) continue;
    long double ob = objective(p, x);
    if(!found || ob < bobj)
    {
      found = true;
      bobj = ob;
      best = x;
    }
  }
  return found;
}

static V call(QP & qp, const Prob & p)
{
  M H;
  H.resize(p.n, p.n);
  for(int i = 0; i < p.n; i++)
    for(int j = 0; j < p.n; j++) H(i, j) = p.H(i, j);
  return qp.solve(H, fromVec<V>(p.g), fromVec<V>(p.lo), fromVec<V>(p.hi), fromVec<V>(p.x0));
}
static std::shared_ptr<QP> make()
{
  return VD == Eigen::Dynamic ? std::make_shared<QP>(ND) : std::make_shared<QP>();
}

static Vec clampv(const Prob & p, const Vec & x)
{
  Vec o = x;
  for(int i = 0; i < p.n; i++) o[i] = std::max(std::min(o[i], p.hi[i]), p.lo[i]);
  return o;
}

static void genBounds(Ctx & c, Prob & p, bool full)
{
  for(int i = 0; i < p.n; i++)
  {
    std::string s = std::to_string(i);
    static const double G[] = {-2, 0, 0.7, 3, -0.3, 40};
    static const double LO[] = {-0.5, -inf, -3, 0.2, -1, -inf, 0.4, -1e-7};
    static const double HI[] = {0.8, inf, -0.5, 0.6, inf, 0.1, 0.4, 2};
    int b = full ? c.free(("b" + s).c_str(), 8) : c.dev(("b" + s).c_str(), 8);
    p.lo.push_back(LO[b]);
    p.hi.push_back(HI[b]);
    p.g.push_back(G[full ? c.free(("g" + s).c_str(), ND <= 2 ? 6 : 4) : c.dev(("g" + s).c_str(), 6)]);
    int k = full ? c.free(("x" + s).c_str(), ND <= 2 ? 7 : 4) : c.dev(("x" + s).c_str(), 7);
    double x = 0;
    double lo = LO[b], hi = HI[b];
    switch(k)
    {
      case 0:
        x = 0;
        break;
      case 1:
        x = -5;
        break;
      case 2:
        x = std::isinf(lo) ? 0.3 : lo + 1e-17 + std::abs(lo) * 1.2e-16;
        break;
      case 3:
        x = 5;
        break;
      case 4:
        x = std::isinf(hi) ? -0.2 : hi;
        break;
      case 5:
        x = std::isinf(lo) ? 1.5 : lo + 1e-7;
        break;
      case 6:
        x = std::isinf(hi) ? 0.05 : hi - 1e-5;
        break;
    }
    p.x0.push_back(x);
  }
}

static void checkOptimal(const Prob & p, const V & x, int ret, bool defaults)
{
  for(int i = 0; i < p.n; i++)
    if(!(x(i) >= p.lo[i] && x(i) <= p.hi[i]))
      fail("returned point is outside the bounds: " + verif::str(toVec(x)) + " for " + str(p));
  LVec xs = toL(x), c0;
  for(double d : clampv(p, p.x0)) c0.push_back(d);
  long double o = objective(p, xs), oc = objective(p, c0), sc = 1 + std::abs(oc);
  for(int i = 0; i < p.n; i++) sc += std::abs(p.g[i] * c0[i]);
  if(!(o <= oc + 1e-8L * sc))
    fail("returned objective " + verif::str(double(o)) + " is worse than that of the clamped initial guess "
         + verif::str(double(oc)) + " for " + str(p));
  if(!defaults) return;
  if(!(ret == 4 || ret == 5 || ret == 6))
    fail("no convergence reported (status " + std::to_string(ret) + ") for " + str(p));
  LVec best;
  if(!bruteForce(p, best)) throw std::logic_error("reference found no minimiser");
  long double ob = objective(p, best), bs = 1;
  for(auto v : best) bs = std::max(bs, std::abs(v));
  long double tol = 1e-6L * (std::abs(ob) + 1);
  if(!(o <= ob + tol))
    fail("status " + std::to_string(ret) + " at objective " + verif::str(double(o)) + ", but the minimum is "
         + verif::str(double(ob)) + " at " + verif::str(Vec(best.begin(), best.end())) + " (returned "
         + verif::str(toVec(x)) + ") for " + str(p));
  // first-order conditions at the returned point
  for(int i = 0; i < p.n; i++)
  {
    long double gr = p.g[i], gs = std::abs(p.g[i]);
    for(int j = 0; j < p.n; j++)
    {
      gr += p.H(i, j) * xs[j];
      gs += std::abs(p.H(i, j) * xs[j]);
    }
    long double gt = (ret == 4 ? 2e-2L : 1e-6L) * (1 + gs);
    bool atlo = xs[i] <= p.lo[i] + 1e-9L, athi = xs[i] >= p.hi[i] - 1e-9L;
    if((gr > gt && !atlo) || (gr < -gt && !athi))
      fail("status " + std::to_string(ret) + ", but dimension " + std::to_string(i) + " of the returned point "
           + verif::str(toVec(x)) + " can still be improved (gradient " + verif::str(double(gr)) + ") for " + str(p));
  }
}

static void c06(Ctx & c, bool full)
{
  int nd;
  auto hs = hessians(ND, nd);
  Prob p;
  int h = full ? c.free("H", nd) : c.dev("H", nd);
  p.H = hs[h];
  genBounds(c, p, full);
  c.claim();
  auto qp = make();
  V x = call(*qp, p);
  checkOptimal(p, x, qp->retval_, true);
  c.outcome("status " + std::to_string(qp->retval_) + ", " + std::to_string(qp->free_idxs_.size()) + " free");
  c.trans(qp->traceDataList().size() - 1);
  c.traces();
  c.nontrivialCase();
  Vec o = toVec(x);
  o.push_back(qp->retval_);
  c.state(hashVec(ND, o));
}

// Results do not depend on earlier calls on the same object, and the overload without initial guess starts at zero.
static void c06reuse(Ctx & c)
{
  int nd;
  auto hs = hessians(ND, nd);
  auto pick = [&](const char * nm)
  {
    Prob p;
    int k = c.free(nm, 12);
    static const int hi[] = {0, 1, 2, 99, 98, 3, 0, 1, 97, 2, 1, 0};
    p.H = hs[hi[k] < 50 ? std::min(hi[k], nd - 1) : nd + (99 - hi[k]) % (static_cast<int>(hs.size()) - nd)];
    for(int i = 0; i < ND; i++)
    {
      p.g.push_back(k == 6 ? 0.0 : tabv(i + 3 * k) * 3);
      p.lo.push_back(k % 3 == 0 ? -inf : -0.3 - 0.1 * i);
      p.hi.push_back(k % 4 == 1 ? inf : 0.2 + 0.1 * i);
      p.x0.push_back(k % 2 ? 0.15 : 0.0);
    }
    return p;
  };
  Prob a = pick("first"), b = pick("second");
  int third = c.free("third", 2), mi = c.freeOf<int>("max_iter", {500, 1, 2});
  c.claim();
  auto used = make(), fresh = make();
  used->config().max_iter = fresh->config().max_iter = mi;
  call(*used, a);
  if(third) call(*used, b);
  V x1 = call(*used, b), x2 = call(*fresh, b);
  std::string why;
  auto obs = [&](QP & q, const V & x)
  {
    Vec o = toVec(x);
    o.push_back(q.retval_);
    o.push_back(q.free_idxs_.size());
    for(int i : q.free_idxs_) o.push_back(i);
    if(q.retval_ == 5)
    {
      auto m = q.llt_free_->reconstructedMatrix();
      for(int i = 0; i < m.rows(); i++)
        for(int j = 0; j < m.cols(); j++) o.push_back(m(i, j));
    }
    for(auto & t : q.traceDataList())
    {
      o.push_back(t.iter);
      o.push_back(t.obj);
      for(int i = 0; i < t.x.size(); i++) o.push_back(t.x(i));
      o.push_back(t.factorization_num);
      o.push_back(t.step_num);
    }
    return o;
  };
  if(!sameObs(obs(*used, x1), obs(*fresh, x2), why))
    fail("result depends on an earlier call on the same object (" + why + "): first " + str(a) + ", then " + str(b));
  Prob z = b;
  z.x0.assign(ND, 0.0);
  M H;
  H.resize(ND, ND);
  for(int i = 0; i < ND; i++)
    for(int j = 0; j < ND; j++) H(i, j) = b.H(i, j);
  V y1 = used->solve(H, fromVec<V>(b.g), fromVec<V>(b.lo), fromVec<V>(b.hi));
  V y2 = call(*fresh, z);
  if(!sameObs(obs(*used, y1), obs(*fresh, y2), why))
    fail("solve without initial guess differs from a zero initial guess (" + why + ") for " + str(b));
  c.traces(2);
  c.trans(3);
  c.nontrivialCase();
  c.outcome("status " + std::to_string(fresh->retval_));
  c.state(hashVec(ND, obs(*fresh, y2)));
}

static void c07(Ctx & c, bool full)
{
  int nd;
  auto hs = hessians(ND, nd);
  Prob p;
  int h = full ? c.free("H", hs.size()) : c.dev("H", hs.size());
  p.H = hs[h];
  auto qp = make();
  qp->config().max_iter = c.devOf<int>("max_iter", {500, 1, 2, 3});
  qp->config().grad_thre = c.devOf<double>("grad_thre", {1e-8, 1e-2, 10.0});
  qp->config().rel_improve_thre = c.devOf<double>("improve", {1e-8, 0.5, 0.0});
  qp->config().print_level = c.devOf<int>("print", {0, 3});
  qp->config().armijo_param = c.devOf<double>("armijo", {0.1, 0.45, 0.01});
  qp->config().step_factor = c.devOf<double>("step_factor", {0.6, 0.25, 0.9});
  genBounds(c, p, full);
  c.claim();
  V x = call(*qp, p);
  int ret = qp->retval_;
  if(!qp->retstr_.count(ret)) fail("status " + std::to_string(ret) + " has no text, for " + str(p));
  const auto & tr = qp->traceDataList();
  const auto & cfg = qp->config();
  if(tr.empty() || tr[0].iter != 0) fail("trace does not start with iteration 0");
  Vec c0 = clampv(p, p.x0);
  for(int i = 0; i < p.n; i++)
    if(!close(tr[0].x(i), c0[i], 1e-9, 1e-9)) fail("trace does not start at the clamped initial guess, for " + str(p));
  long double oc = objective(p, LVec(c0.begin(), c0.end())), sc = 1 + std::abs(oc);
  for(int i = 0; i < p.n; i++)
  {
    sc += std::abs(p.g[i] * c0[i]);
    for(int j = 0; j < p.n; j++) sc += std::abs(p.H(i, j) * c0[i] * c0[j]);
  }
  if(!close(tr[0].obj, oc, 1e-9, 1e-8 * sc)) fail("initial trace objective is wrong for " + str(p));
  for(size_t i = 1; i < tr.size(); i++)
  {
    if(tr[i].iter != (int)i) fail("trace iterations are not numbered consecutively, for " + str(p));
    if(i + 1 == tr.size()) continue; // the terminating iteration does not record a point
    if(!close(tr[i].obj, objective(p, toL(tr[i].x)), 1e-9, 1e-8 * sc))
      fail("trace objective " + verif::str(tr[i].obj) + " is not that of the recorded point, for " + str(p));
    if(!(tr[i].obj <= tr[i - 1].obj + 1e-8 * double(sc))) fail("trace objective increases, for " + str(p));
  }
  if((int)tr.size() - 1 > cfg.max_iter) fail("more than max_iter iterations, for " + str(p));
  if((ret == 1) != ((int)tr.size() - 1 == cfg.max_iter && ret != 4 && ret != 5 && ret != 6 && ret != -1 && ret != -2))
    fail("status 1 after " + std::to_string(tr.size() - 1) + " iterations, max_iter " + std::to_string(cfg.max_iter)
         + ", for " + str(p));
  if(ret == 0 || ret == 2 || ret == 3) fail("status " + std::to_string(ret) + " reported, for " + str(p));
  for(int i = 0; i < p.n; i++)
    if(!(x(i) >= p.lo[i] && x(i) <= p.hi[i])) fail("returned point is outside the bounds for " + str(p));
  bool definite = h < nd;
  if(definite && ret < 0) fail("status " + std::to_string(ret) + " for a positive definite Hessian: " + str(p));
  // free set at the clamped initial guess
  auto freeAt = [&](const LVec & y, std::set<int> & maybe)
  {
    std::vector<int> fr;
    for(int i = 0; i < p.n; i++)
    {
      long double gr = p.g[i], gs = 1;
      // multiples of 2^-20 below 2^20: double arithmetic is exact in every order, so a zero gradient is exactly zero
      auto dyadic = [](long double v) { return std::abs(v) < 1048576 && v * 1048576 == std::floor(v * 1048576); };
      bool exact = dyadic(p.g[i]);
      for(int j = 0; j < p.n; j++)
      {
        gr += p.H(i, j) * y[j];
        gs += std::abs(p.H(i, j) * y[j]);
        exact = exact && dyadic(p.H(i, j)) && dyadic(y[j]) && dyadic(p.H(i, j) * y[j]);
      }
      exact = exact && (y[i] == p.lo[i] || y[i] == p.hi[i]);
      auto near = [](long double a, double b) { return std::abs(a - b) <= 2e-10L * (1 + std::abs(a)); };
      bool lo = near(y[i], p.lo[i]) && gr > 0, hi = near(y[i], p.hi[i]) && gr < 0;
      if((near(y[i], p.lo[i]) || near(y[i], p.hi[i])) && std::abs(gr) < 1e-8L * gs && !exact) maybe.insert(i);
      if(!lo && !hi) fr.push_back(i);
    }
    return fr;
  };
  std::set<int> maybe;
  auto fr0 = freeAt(LVec(c0.begin(), c0.end()), maybe);
  if(maybe.empty())
  {
    long double piv;
    chol(p, fr0, piv);
    if(fr0.empty() && ret != 6) fail("all dimensions are clamped at the initial guess, but status is " + std::to_string(ret) + ", for " + str(p));
    if(!fr0.empty() && piv < -1e-9L && ret != -1)
      fail("the free block of the Hessian is indefinite, but status is " + std::to_string(ret) + ", for " + str(p));
  }
  if(ret == -1 && definite) fail("status -1 for a positive definite Hessian: " + str(p));
  // the other recorded data of the completed iterations
  size_t completed = ret == 1 ? tr.size() : tr.size() - 1;
  for(size_t i = 1; i < completed; i++)
  {
    const auto & t = tr[i];
    std::string at = " in trace entry " + std::to_string(i) + ", for " + str(p);
    std::set<int> mb;
    LVec y = toL(t.x);
    auto fr = freeAt(y, mb);
    std::set<int> frs(fr.begin(), fr.end());
    bool fuzzy = false;
    for(int j = 0; j < p.n; j++)
    {
      if(!mb.count(j) && bool(t.clamped_flag(j)) == bool(frs.count(j))) fail("wrong clamped flag" + at);
      fuzzy = fuzzy || mb.count(j);
      if(t.clamped_flag(j) && t.search_dir(j) != 0) fail("search direction moves a clamped dimension" + at);
    }
    int want = i == 1 ? 1 : tr[i - 1].factorization_num + ((t.clamped_flag != tr[i - 1].clamped_flag).any() ? 1 : 0);
    if(t.factorization_num != want)
      fail("number of factorizations " + std::to_string(t.factorization_num) + " instead of " + std::to_string(want) + at);
    long double slope = 0, gs = 1, ds = 0;
    for(int j = 0; j < p.n; j++)
    {
      long double gr = p.g[j], nr = p.g[j], ns = 1 + std::abs(p.g[j]);
      for(int k = 0; k < p.n; k++)
      {
        gr += p.H(j, k) * y[k];
        nr += p.H(j, k) * (y[k] + t.search_dir(k));
        ns += std::abs(p.H(j, k)) * (std::abs(y[k]) + std::abs((long double)t.search_dir(k)));
      }
      if(!t.clamped_flag(j) && std::abs(nr) > 1e-7L * ns) fail("search direction is not the Newton direction of the free dimensions" + at);
      slope += gr * t.search_dir(j);
      gs = std::max(gs, std::abs(gr));
      ds = std::max(ds, std::abs((long double)t.search_dir(j)));
    }
    if(fuzzy || !(slope < -1e-6L * gs)) continue;
    // step: the full one exactly if it decreases the objective enough, otherwise a shorter one that does
    LVec nx = i + 1 < completed ? toL(tr[i + 1].x) : toL(x), fullx(p.n);
    for(int j = 0; j < p.n; j++) fullx[j] = std::max((long double)p.lo[j], std::min((long double)p.hi[j], y[j] + t.search_dir(j)));
    long double o0 = objective(p, y), ratio = (objective(p, fullx) - o0) / slope, noise = 1e-6L;
    if(std::abs(ratio - cfg.armijo_param) > noise && (t.step_num == 0) != (ratio > cfg.armijo_param))
      fail("number of line-search steps " + std::to_string(t.step_num) + ", but the full step gives " + verif::str(double(ratio))
           + " of the linear improvement (required " + verif::str(cfg.armijo_param) + ")" + at);
    for(int j = 0; j < p.n; j++)
    {
      if(t.step_num == 0 && std::abs(nx[j] - fullx[j]) > 1e-8L * (1 + std::abs(fullx[j]))) fail("full step is reported, but not taken" + at);
      long double d = t.search_dir(j), st = d != 0 ? (nx[j] - y[j]) / d : 0;
      if(t.step_num == 0 || std::abs(d) < 1e-3L * ds || nx[j] - p.lo[j] < 1e-6L || p.hi[j] - nx[j] < 1e-6L) continue;
      if(!(st > 0 && st < 1)) fail("step " + verif::str(double(st)) + " after " + std::to_string(t.step_num) + " reductions" + at);
      if(st > 1e-6L && (objective(p, nx) - o0) / (st * slope) < cfg.armijo_param - 1e-5L)
        fail("step " + verif::str(double(st)) + " does not give the required improvement" + at);
    }
  }
  if(ret == 4 || ret == 1)
  {
    // the published free set belongs to the last factorised iteration; it must be a valid index set
    int last = -1;
    for(int i : qp->free_idxs_)
    {
      if(i <= last || i >= p.n) fail("free indices are not an ascending index set, for " + str(p));
      last = i;
    }
  }
  if(ret == 5 || ret == 6)
  {
    maybe.clear();
    auto fr = freeAt(toL(x), maybe);
    std::vector<int> a, b;
    for(int i : fr)
      if(!maybe.count(i)) a.push_back(i);
    for(int i : qp->free_idxs_)
      if(!maybe.count(i)) b.push_back(i);
    if(a != b) fail("published free indices are not those of the returned point (status " + std::to_string(ret) + "), for " + str(p));
    if(ret == 6 && !qp->free_idxs_.empty()) fail("status 6 with free dimensions, for " + str(p));
    if(ret == 5)
    {
      long double gn = 0;
      for(int i : qp->free_idxs_)
      {
        long double gr = p.g[i];
        for(int j = 0; j < p.n; j++) gr += p.H(i, j) * x(j);
        gn += gr * gr;
      }
      if(!(std::sqrt(gn) <= cfg.grad_thre * (1 + 1e-6L) + 1e-12L))
        fail("status 5, but the gradient norm on the free dimensions is " + verif::str(double(std::sqrt(gn))) + ", for " + str(p));
    }
    if(!qp->free_idxs_.empty())
    {
      if(!qp->llt_free_) fail("no Cholesky factor published, for " + str(p));
      Eigen::MatrixXd m = qp->llt_free_->reconstructedMatrix();
      if(m.rows() != (int)qp->free_idxs_.size()) fail("published Cholesky factor has the wrong dimension, for " + str(p));
      for(int i = 0; i < m.rows(); i++)
        for(int j = 0; j < m.cols(); j++)
          if(!close(m(i, j), p.H(qp->free_idxs_[i], qp->free_idxs_[j]), 1e-9, 1e-9))
            fail("published Cholesky factor is not that of the free block of the Hessian, for " + str(p));
    }
  }
  c.outcome("status " + std::to_string(ret) + (definite ? ", definite" : ", not definite"));
  c.trans(tr.size() - 1);
  c.traces();
  c.nontrivialCase();
  Vec o = toVec(x);
  o.push_back(ret);
  c.state(hashVec(ND, o));
}

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
#if PROP == 6
#  if ND <= 1 || (ND == 2 && VD == 2)
  sp.push_back({"grid", [](Ctx & c) { c06(c, true); }, 0, 0});
#  else
  sp.push_back({"neighbourhood", [](Ctx & c) { c06(c, false); }, ND > 3 ? 3 : 4, ND > 3 ? 5 : 6});
#  endif
  sp.push_back({"reuse", c06reuse, 0, 0});
#else
#  if ND <= 1
  sp.push_back({"grid", [](Ctx & c) { c07(c, true); }, 4, 4});
#  else
#    if ND == 2 && VD == 2
  sp.push_back({"grid", [](Ctx & c) { c07(c, true); }, 0, 1});
#    endif
  sp.push_back({"neighbourhood", [](Ctx & c) { c07(c, false); }, ND == 2 ? 4 : 3, ND > 3 ? 4 : 5});
#  endif
#endif
  return exploreMain(argc, argv, sp);
}
