// C18: GMRES against exact minimal residuals over Krylov spaces (long double).
#include "eigen_setup.h"
#include "explore.h"
#include "model.h"
#include <cassert>
#include <nmpc_cgmres/Gmres.h>
using namespace verif;

static std::string sd(double d)
{
  char b[40];
  snprintf(b, sizeof(b), "%.12g", d);
  return b;
}
static long double nrm(const LVec & v)
{
  long double s = 0;
  for(auto x : v) s += x * x;
  return std::sqrt(s);
}
// opt[k]: minimum of |b - A x| over x0 + K_k; stops when the Krylov space stops growing. cond[k]: conditioning hint.
static void krylov(const LMat & A, const LVec & b, const LVec & x0, int kmax, std::vector<long double> & opt, bool & exact)
{
  int n = A.r;
  LVec r(n), ax = mulv(A, x0);
  for(int i = 0; i < n; i++) r[i] = b[i] - ax[i];
  opt.assign(1, nrm(r));
  exact = false;
  std::vector<LVec> V, W; // orthonormal Krylov basis, orthonormal basis of A*Krylov
  LVec v = r;
  long double ref = nrm(r);
  LVec res = r;
  for(int k = 0; k < kmax; k++)
  {
    for(int rep = 0; rep < 3; rep++)
      for(auto & q : V)
      {
        long double d = dotv(q, v);
        for(int i = 0; i < n; i++) v[i] -= d * q[i];
      }
    long double nv = nrm(v);
    if(!(nv > 1e-14L * std::max(ref, (long double)1e-300)))
    {
      exact = true;
      return;
    }
    for(auto & x : v) x /= nv;
    V.push_back(v);
    LVec w = mulv(A, v);
    LVec av = w;
    ref = nrm(av);
    for(int rep = 0; rep < 3; rep++)
      for(auto & q : W)
      {
        long double d = dotv(q, w);
        for(int i = 0; i < n; i++) w[i] -= d * q[i];
      }
    long double nw = nrm(w);
    if(nw > 1e-14L * std::max(ref, (long double)1e-300))
    {
      for(auto & x : w) x /= nw;
      long double d = dotv(w, res);
      for(int i = 0; i < n; i++) res[i] -= d * w[i];
      W.push_back(w);
    }
    opt.push_back(nrm(res));
    v = av;
  }
}

struct Case
{
  LMat A;
  LVec b, x0;
};

static void checkCase(Ctx & c, const Case & cs, const std::vector<int> & kmaxs, const std::vector<double> & epss)
{
  int n = cs.A.r;
  LVec sol;
  long double piv = gauss(cs.A, cs.b, sol);
  if(!(piv > 1e-5L))
  {
    c.outcome("singular: skipped");
    return;
  }
  std::vector<long double> opt;
  bool exact;
  krylov(cs.A, cs.b, cs.x0, n, opt, exact);
  Eigen::MatrixXd A(n, n);
  Eigen::VectorXd b(n), x0(n);
  long double an = 0;
  for(int i = 0; i < n; i++)
  {
    for(int j = 0; j < n; j++)
    {
      A(i, j) = cs.A(i, j);
      an += cs.A(i, j) * cs.A(i, j);
    }
    b(i) = cs.b[i];
    x0(i) = cs.x0[i];
  }
  an = std::sqrt(an);
  long double r0 = opt[0], bn = nrm(cs.b);
  long double xs = nrm(sol) + nrm(cs.x0);
  long double tolr = 1e-9L * (r0 + bn + an * xs) / std::min<long double>(1, std::sqrt(piv) * 3) + 1e-13L;
  long double tolx = 1e-8L * (1 + xs) / (piv * 1) + 1e-12L;
  bool hit = false;
  for(int km : kmaxs)
    for(double eps : epss)
      for(int flags = 0; flags < 4; flags++)
        for(int api = 0; api < 2; api++)
        {
          nmpc_cgmres::Gmres gm;
          gm.make_triangular_ = flags & 1;
          gm.apply_reorth_ = flags & 2;
          Eigen::VectorXd x = x0;
          Eigen::MatrixXd Ac = A;
          Eigen::VectorXd bc = b;
          long calls = 0;
          if(api == 0)
            gm.solve(Eigen::Ref<const Eigen::MatrixXd>(Ac), bc, x, km, eps);
          else
            gm.solve(
                [&](const Eigen::Ref<const Eigen::VectorXd> & v) -> Eigen::VectorXd
                {
                  calls++;
                  if(v.size() != n) fail("matrix product requested for a vector of wrong dimension");
                  return A * v;
                },
                bc, x, km, eps);
          std::string id = " (k_max " + std::to_string(km) + ", eps " + sd(eps) + ", triangular " + std::to_string(flags & 1)
                           + ", reorth " + std::to_string(flags >> 1) + (api ? ", function)" : ", matrix)");
          if(Ac != A || bc != b) fail("solve() modified its matrix or vector" + id);
          const auto & e = gm.err_list_;
          int K = std::min(km, n);
          if(e.empty()) fail("error list is empty" + id);
          int it = (int)e.size() - 1;
          if(it > K) fail("more iterations than allowed" + id);
          LVec lx(n);
          for(int i = 0; i < n; i++)
          {
            if(!std::isfinite(x(i))) fail("solution is not finite" + id);
            lx[i] = x(i);
          }
          LVec ax = mulv(cs.A, lx), r(n);
          for(int i = 0; i < n; i++) r[i] = cs.b[i] - ax[i];
          long double rn = nrm(r);
          if(!(std::abs(e[0] - r0) <= tolr)) fail("first error " + sd(e[0]) + " is not the initial residual norm " + sd(double(r0)) + id);
          for(int k = 1; k <= it; k++)
          {
            if(!(e[k] <= e[k - 1] + tolr)) fail("error list increases" + id);
            long double o = k < (int)opt.size() ? opt[k] : opt.back();
            if(!(std::abs(e[k] - o) <= tolr))
              fail("error " + sd(e[k]) + " of iteration " + std::to_string(k) + " is not the minimal residual " + sd(double(o))
                   + " over the Krylov space of that order" + id);
            // iterations must not go on once the tolerance is met
            if(e[k - 1] <= eps * bn - tolr) fail("iteration continues although the tolerance is met" + id);
          }
          if(!(std::abs(rn - e[it]) <= tolr))
            fail("last error " + sd(e[it]) + " is not the residual norm " + sd(double(rn)) + " of the returned point" + id);
          // stopping early needs the tolerance or an exhausted Krylov space
          long double best = K < (int)opt.size() ? opt[K] : opt.back();
          if(it < K && rn > eps * bn + tolr && rn > best + tolr)
            fail("stopped after " + std::to_string(it) + " iterations with residual " + sd(double(rn))
                 + " although the tolerance is not met" + id);
          if(!(rn <= r0 + tolr)) fail("returned point has a larger residual than the initial guess" + id);
          if(eps <= 1e-8 && km >= n)
          {
            long double d = 0;
            for(int i = 0; i < n; i++) d = std::max(d, std::abs(lx[i] - sol[i]));
            if(!(d <= tolx + 10 * eps * bn / (an * piv)))
              fail("solution is off by " + sd(double(d)) + id);
          }
          if(it > 0) hit = true;
          c.trans(it);
          c.traces();
          uint64_t h = mix(flags, it);
          for(int i = 0; i < n; i++) h = hashDouble(h, x(i));
          for(double d : e) h = hashDouble(h, d);
          c.state(h);
          if(api == 0 && flags == 3) c.outcome("iterations " + std::to_string(it) + " of " + std::to_string(K));
        }
  if(hit) c.nontrivialCase();
}

static LVec pick(int which, int n)
{
  LVec v(n, 0);
  for(int i = 0; i < n; i++)
  {
    switch(which)
    {
      case 0: v[i] = i == 0; break;
      case 1: v[i] = 1 + 0.5L * i; break;
      case 2: v[i] = 0; break;
      case 3: v[i] = i == n - 1 ? -2 : 0; break;
      case 4: v[i] = i % 2 ? -1 : 1; break;
      case 5: v[i] = 1e-6L * (i + 1); break;
      case 6: v[i] = 1e5L * (i + 1); break;
    }
  }
  return v;
}

template<int n>
static void grid(Ctx & c)
{
  static const double e2[] = {0, 1, -1, 2, 0.5}, e3[] = {0, 1, -1};
  Case cs;
  cs.A = LMat(n, n);
  int ne = n == 3 ? 3 : 5;
  for(int i = 0; i < n * n; i++)
  {
    int k = c.free("a", ne);
    cs.A.a[i] = n == 3 ? e3[k] : e2[k];
  }
  cs.b = pick(c.free("b", n == 3 ? 3 : 5), n);
  cs.x0 = pick(c.freeOf<int>("x0", {2, 4, 0}), n);
  c.claim();
  std::vector<int> km;
  for(int i = 0; i <= n; i++) km.push_back(i);
  if(n < 3) km.push_back(100);
  std::vector<double> eps = {1e-10};
  if(n < 3 || c.thorough)
  {
    eps.push_back(0.3);
    eps.push_back(0);
  }
  checkCase(c, cs, km, eps);
}

static void structured(Ctx & c)
{
  int n = c.freeOf<int>("n", {3, 4, 5, 6, 12, 24});
  int kind = c.free("kind", 10);
  Case cs;
  cs.A = LMat(n, n);
  static const double t[] = {0.7, -0.4, 0.55, 0.9, -0.65, 0.3, -0.85, 0.45, 0.15, -0.2, 0.6, -0.5};
  for(int i = 0; i < n; i++)
    for(int j = 0; j < n; j++)
    {
      long double v = 0;
      switch(kind)
      {
        case 0: v = i == j; break;                                              // identity
        case 1: v = (j == (i + 1) % n); break;                                  // cyclic shift: stagnates until the end
        case 2: v = i == j ? 1 + i : 0; break;                                  // diagonal
        case 3: v = i == j ? 2 : (j == i + 1 ? 1 : 0); break;                   // Jordan
        case 4: v = i == j ? 2 : (std::abs(i - j) == 1 ? -1 : 0); break;        // Laplacian
        case 5: v = (i == j ? 3.0 : 0) + t[(5 * i + 3 * j + 1) % 12]; break;    // generic asymmetric
        case 6: v = i == j ? (i < n / 2 ? 1 : -1) : 0; break;                   // two eigenvalues
        case 7: v = i == j ? 0 : (i < j ? 1 : -1) * (1 + 0.1 * (i + j)); break; // skew (singular for odd n)
        case 8: v = i == j ? std::pow(10.0L, (int)(-i / 2)) : 0.01 * t[(i + 2 * j) % 12] * (i < j); break; // badly scaled
        case 9: v = 1.0L / (1 + i + j) + (i == j); break;                       // shifted Hilbert
      }
      cs.A(i, j) = v;
    }
  cs.b = pick(c.free("b", 7), n);
  cs.x0 = pick(c.freeOf<int>("x0", {2, 4, 0, 3, 1, 6}), n);
  double sc = c.devOf<double>("scale", {1.0, 1e-4, 1e4, -1.0});
  for(auto & v : cs.A.a) v = double(v * sc);
  c.claim();
  std::vector<int> km;
  if(n <= 6)
    for(int i = 0; i <= n; i++) km.push_back(i);
  else
    km = {1, 2, 7, n / 2, n - 1, n};
  km.push_back(100);
  checkCase(c, cs, km, {1e-10, 0.3, 1e-3, 0.0});
}

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
  sp.push_back({"dim1", grid<1>, 0, 0});
  sp.push_back({"dim2", grid<2>, 0, 0});
  sp.push_back({"dim3", grid<3>, 0, 0});
  sp.push_back({"structured", structured, 1, 1});
  return exploreMain(argc, argv, sp);
}
