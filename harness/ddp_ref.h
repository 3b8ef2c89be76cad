// Reference DDP protocol in long double, written from the algorithm's description (regularised backward pass, line
// search over alpha_list, regularisation schedule, termination), over an abstract environment.
// `fragile` is set as soon as a decision is so close to its threshold that rounding could turn it.
#pragma once
#include "model.h"
#include <functional>

namespace verif
{
struct RefCfg
{
  int max_iter = 500, reg_type = 1;
  double lambda0 = 1e-4, dlambda0 = 1, factor = 1.6, lambda_min = 1e-6, lambda_max = 1e10, k_thre = 1e-4,
         lambda_thre = 1e-5, ratio_thre = 0, cost_thre = 1e-7;
  std::vector<double> alphas;
};
template<class Cfg>
RefCfg refCfg(const Cfg & c)
{
  RefCfg r;
  r.max_iter = c.max_iter;
  r.reg_type = c.reg_type;
  r.lambda0 = c.initial_lambda;
  r.dlambda0 = c.initial_dlambda;
  r.factor = c.lambda_factor;
  r.lambda_min = c.lambda_min;
  r.lambda_max = c.lambda_max;
  r.k_thre = c.k_rel_norm_thre;
  r.lambda_thre = c.lambda_thre;
  r.ratio_thre = c.cost_update_ratio_thre;
  r.cost_thre = c.cost_update_thre;
  for(int i = 0; i < c.alpha_list.size(); i++) r.alphas.push_back(c.alpha_list[i]);
  return r;
}

struct RefTrace
{
  int iter = 0;
  long double cost = 0, lambda = 0, dlambda = 0, alpha = 0, k_rel = 0, act = 0, exp = 0, ratio = 0;
  bool tried = false;
};

// Minimiser of a strictly convex box QP by enumeration of active sets; returns false if degenerate (weakly active).
inline bool boxMin(const LMat & H, const LVec & g, const LVec & lo, const LVec & hi, LVec & best, std::vector<int> & fr)
{
  int n = static_cast<int>(g.size()), tot = 1;
  for(int i = 0; i < n; i++) tot *= 3;
  long double bo = 0;
  bool found = false;
  for(int code = 0; code < tot; code++)
  {
    std::vector<int> a(n), f;
    LVec x(n, 0);
    int q = code;
    bool ok = true;
    for(int i = 0; i < n; i++)
    {
      a[i] = q % 3;
      q /= 3;
      if(a[i] == 0)
        f.push_back(i);
      else
      {
        x[i] = a[i] == 1 ? lo[i] : hi[i];
        if(std::isinf(x[i])) ok = false;
      }
    }
    if(!ok) continue;
    LMat h(f.size(), f.size());
    LVec r(f.size()), s;
    for(size_t i = 0; i < f.size(); i++)
    {
      r[i] = -g[f[i]];
      for(int j = 0; j < n; j++)
        if(a[j]) r[i] -= H(f[i], j) * x[j];
      for(size_t j = 0; j < f.size(); j++) h(i, j) = H(f[i], f[j]);
    }
    if(gauss(h, r, s) == 0) continue;
    for(size_t i = 0; i < f.size(); i++)
    {
      x[f[i]] = s[i];
      if(s[i] < lo[f[i]] || s[i] > hi[f[i]]) ok = false;
    }
    if(!ok) continue;
    long double o = 0;
    for(int i = 0; i < n; i++)
    {
      o += g[i] * x[i];
      for(int j = 0; j < n; j++) o += 0.5L * x[i] * H(i, j) * x[j];
    }
    if(!found || o < bo)
    {
      found = true;
      bo = o;
      best = x;
    }
  }
  if(!found) return false;
  fr.clear();
  for(int i = 0; i < n; i++)
  {
    long double gr = g[i];
    for(int j = 0; j < n; j++) gr += H(i, j) * best[j];
    bool atlo = best[i] - lo[i] < 1e-9L, athi = hi[i] - best[i] < 1e-9L;
    bool clamped = (atlo && gr > 0) || (athi && gr < 0);
    if((atlo || athi) && std::abs(gr) < 1e-6L) return false; // weakly active
    if(!atlo && !athi && (best[i] - lo[i] < 1e-6L || hi[i] - best[i] < 1e-6L)) return false;
    if(!clamped) fr.push_back(i);
  }
  return true;
}

struct RefEnv
{
  int N = 0, n = 0;
  std::function<LVec(int, const LVec &, const LVec &)> f;
  std::function<long double(int, const LVec &, const LVec &)> l;
  std::function<long double(const LVec &)> lf;
  std::function<void(int, const LVec &, const LVec &, LMat &, LMat &)> fd;
  std::function<void(int, const LVec &, const LVec &, LVec &, LVec &, LMat &, LMat &, LMat &)> ld;
  std::function<void(const LVec &, LVec &, LMat &)> lfd;
  std::function<void(int, int, long double &, long double &)> limits; // optional
  std::function<void()> iterationStart; // optional: called before each iteration
};

struct RefDdp
{
  std::vector<LVec> X, U, k;
  std::vector<LMat> K;
  LVec cost;
  std::vector<RefTrace> trace;
  bool result = false, fragile = false;
  bool exact = false; // coefficients are powers of two and costs are exact: equality is not a matter of rounding
  long backward_failures = 0, rejected = 0;

  void near(long double a, long double b, long double scale = 1)
  {
    if(!std::isfinite(a) || !std::isfinite(b)) return;
    if(exact && a == b) return;
    if(std::abs(a - b) <= 1e-7L * std::max(scale, std::max(std::abs(a), std::abs(b)))) fragile = true;
  }

  void run(const RefEnv & e, const RefCfg & c, const LVec & x0, const std::vector<LVec> & u0)
  {
    long double lambda = c.lambda0, dlambda = c.dlambda0;
    auto clampU = [&](int i, LVec & u)
    {
      if(!e.limits) return;
      for(size_t j = 0; j < u.size(); j++)
      {
        long double a, b;
        e.limits(i, j, a, b);
        u[j] = std::max(std::min(u[j], b), a);
      }
    };
    U = u0;
    X.assign(1, x0);
    cost.clear();
    for(int i = 0; i < e.N; i++)
    {
      clampU(i, U[i]);
      cost.push_back(e.l(i, X[i], U[i]));
      X.push_back(e.f(i, X[i], U[i]));
    }
    cost.push_back(e.lf(X[e.N]));
    RefTrace t0;
    t0.cost = sumv(cost);
    t0.lambda = lambda;
    t0.dlambda = dlambda;
    trace.push_back(t0);
    auto up = [&]()
    {
      dlambda = std::max(dlambda * c.factor, (long double)c.factor);
      lambda = std::max(lambda * dlambda, (long double)c.lambda_min);
      near(lambda, c.lambda_max, 0);
      return lambda > c.lambda_max;
    };
    for(int iter = 1; iter <= c.max_iter; iter++)
    {
      if(e.iterationStart) e.iterationStart();
      RefTrace t;
      t.iter = iter;
      int ret = 0;
      struct D
      {
        LMat fx, fu, lxx, luu, lxu;
        LVec lx, lu;
      };
      std::vector<D> d(e.N);
      for(int i = 0; i < e.N; i++)
      {
        e.fd(i, X[i], U[i], d[i].fx, d[i].fu);
        e.ld(i, X[i], U[i], d[i].lx, d[i].lu, d[i].lxx, d[i].luu, d[i].lxu);
      }
      LVec vxN;
      LMat vxxN;
      e.lfd(X[e.N], vxN, vxxN);
      long double dv0 = 0, dv1 = 0;
      bool failed = false;
      for(;;)
      {
        dv0 = dv1 = 0;
        k.assign(e.N, {});
        K.assign(e.N, {});
        LVec vx = vxN;
        LMat vxx = vxxN;
        bool ok = true;
        for(int i = e.N - 1; i >= 0 && ok; i--)
        {
          const D & q = d[i];
          int m = q.fu.c;
          LVec Qu = q.lu, Qx = q.lx, a = mulTv(q.fu, vx), b = mulTv(q.fx, vx);
          for(int j = 0; j < m; j++) Qu[j] += a[j];
          for(int j = 0; j < e.n; j++) Qx[j] += b[j];
          LMat vreg = vxx;
          if(c.reg_type == 2)
            for(int j = 0; j < e.n; j++) vreg(j, j) += lambda;
          LMat fuT = q.fu.tr(), fxT = q.fx.tr();
          LMat Qux = add(q.lxu.tr(), mul(mul(fuT, vxx), q.fx));
          LMat Quu = add(q.luu, mul(mul(fuT, vxx), q.fu));
          LMat Qxx = add(q.lxx, mul(mul(fxT, vxx), q.fx));
          LMat QuxR = add(q.lxu.tr(), mul(mul(fuT, vreg), q.fx));
          LMat QuuF = add(q.luu, mul(mul(fuT, vreg), q.fu));
          if(c.reg_type == 1)
            for(int j = 0; j < m; j++) QuuF(j, j) += lambda;
          LVec kk(m, 0);
          LMat KK(m, e.n);
          std::vector<int> fr;
          for(int j = 0; j < m; j++) fr.push_back(j);
          if(m > 0)
          {
            bool nan = false;
            for(auto v : QuuF.a) nan = nan || !std::isfinite(v);
            for(auto v : Qu) nan = nan || !std::isfinite(v);
            for(auto v : QuxR.a) nan = nan || !std::isfinite(v);
            if(nan)
            {
              ok = false;
              break;
            }
            long double piv = cholMinPivot(QuuF);
            if(std::abs(piv) < 1e-7L) fragile = true;
            if(e.limits)
            {
              // definiteness only matters on the free block: leave undecided cases to other checks
              if(!(piv > 1e-7L))
              {
                fragile = true;
                return;
              }
              LVec lo(m), hi(m);
              for(int j = 0; j < m; j++)
              {
                e.limits(i, j, lo[j], hi[j]);
                lo[j] -= U[i][j];
                hi[j] -= U[i][j];
              }
              if(!boxMin(QuuF, Qu, lo, hi, kk, fr)) fragile = true;
              if(fragile) return;
            }
            else
            {
              if(!(piv > 0))
              {
                ok = false;
                break;
              }
              LVec r(m);
              for(int j = 0; j < m; j++) r[j] = -Qu[j];
              gauss(QuuF, r, kk);
            }
            LMat hf(fr.size(), fr.size());
            for(size_t p = 0; p < fr.size(); p++)
              for(size_t s = 0; s < fr.size(); s++) hf(p, s) = QuuF(fr[p], fr[s]);
            for(int col = 0; col < e.n && !fr.empty(); col++)
            {
              LVec r(fr.size()), s;
              for(size_t p = 0; p < fr.size(); p++) r[p] = -QuxR(fr[p], col);
              gauss(hf, r, s);
              for(size_t p = 0; p < fr.size(); p++) KK(fr[p], col) = s[p];
            }
          }
          LVec quuk = mulv(Quu, kk);
          dv0 += dotv(kk, Qu);
          dv1 += 0.5L * dotv(kk, quuk);
          LVec nv = Qx, p1 = mulTv(KK, quuk), p2 = mulTv(KK, Qu), p3 = mulTv(Qux, kk);
          for(int j = 0; j < e.n; j++) nv[j] += p1[j] + p2[j] + p3[j];
          LMat KT = KK.tr();
          LMat nvv = add(add(Qxx, mul(mul(KT, Quu), KK)), add(mul(KT, Qux), mul(Qux.tr(), KK)));
          LMat nt = nvv.tr();
          for(size_t j = 0; j < nvv.a.size(); j++) nvv.a[j] = 0.5L * (nvv.a[j] + nt.a[j]);
          vx = nv;
          vxx = nvv;
          k[i] = kk;
          K[i] = KK;
        }
        if(ok) break;
        backward_failures++;
        if(up())
        {
          failed = true;
          break;
        }
      }
      if(failed)
      {
        t.cost = sumv(cost);
        t.lambda = lambda;
        t.dlambda = dlambda;
        trace.push_back(t);
        return;
      }
      auto nrm = [](const LVec & v)
      {
        long double s = 0;
        for(auto x : v) s += x * x;
        return std::sqrt(s);
      };
      for(int i = 0; i < e.N; i++) t.k_rel = std::max(t.k_rel, nrm(k[i]) / (nrm(U[i]) + 1));
      near(t.k_rel, c.k_thre, 0);
      if(t.k_rel < c.k_thre) near(lambda, c.lambda_thre, 0);
      if(t.k_rel < c.k_thre && lambda < c.lambda_thre)
      {
        t.cost = sumv(cost);
        t.lambda = lambda;
        t.dlambda = dlambda;
        trace.push_back(t);
        result = true;
        return;
      }
      bool acc = false;
      std::vector<LVec> cX, cU;
      LVec cc;
      for(double al : c.alphas)
      {
        t.alpha = al;
        t.tried = true;
        cX.assign(1, X[0]);
        cU.clear();
        cc.clear();
        for(int i = 0; i < e.N; i++)
        {
          LVec u = U[i], dx(e.n);
          for(int j = 0; j < e.n; j++) dx[j] = cX[i][j] - X[i][j];
          LVec fb = mulv(K[i], dx);
          for(size_t j = 0; j < u.size(); j++) u[j] += al * k[i][j] + fb[j];
          clampU(i, u);
          cU.push_back(u);
          cc.push_back(e.l(i, cX[i], u));
          cX.push_back(e.f(i, cX[i], u));
        }
        cc.push_back(e.lf(cX[e.N]));
        long double sc = 0;
        for(auto v : cc) sc += std::abs(v);
        for(auto v : cost) sc += std::abs(v);
        t.act = sumv(cost) - sumv(cc);
        t.exp = -al * (dv0 + al * dv1);
        t.ratio = t.act / t.exp;
        if(std::abs(t.exp) < 1e-12L) fragile = true;
        bool zero = exact && t.act == 0; // exactly equal costs
        if(!zero && std::isfinite(t.act) && std::abs(t.act - c.ratio_thre * t.exp) < 1e-13L * (1 + sc)) fragile = true;
        if(t.exp < 0)
        {
          t.ratio = t.act >= 0 ? 1 : -1;
          if(!zero && std::abs(t.act) < 1e-13L * (1 + sc)) fragile = true;
        }
        else if(!zero)
          near(t.ratio, c.ratio_thre, 0);
        if(t.ratio > c.ratio_thre)
        {
          acc = true;
          break;
        }
      }
      if(acc)
      {
        X = cX;
        U = cU;
        cost = cc;
        if(std::abs(t.act - c.cost_thre) < 1e-12L && !(exact && t.act == c.cost_thre)) fragile = true;
        near(t.act, c.cost_thre, 0);
        if(t.act < c.cost_thre) ret = 1;
        dlambda = std::min(dlambda / c.factor, 1 / (long double)c.factor);
        near(lambda, c.lambda_min, 0);
        lambda = lambda >= c.lambda_min ? lambda * dlambda : 0;
      }
      else
      {
        rejected++;
        if(up()) ret = -1;
      }
      t.cost = sumv(cost);
      t.lambda = lambda;
      t.dlambda = dlambda;
      trace.push_back(t);
      if(ret)
      {
        result = ret == 1;
        return;
      }
    }
  }
};
} // namespace verif
