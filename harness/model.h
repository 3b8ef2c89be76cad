// Plain-C++ (no Eigen) finite-horizon optimal control model, used both to implement the problem callbacks given to the
// library and to compute the reference answers.
//
//   x[k+1] = A_k x + B_k u + c_k + nf * phi(x, u)
//   l_k    = 1/2 x'Q_k x + x'M_k u + 1/2 u'R_k u + q_k'x + r_k'u + nl * psi(x, u)
//   lf     = 1/2 x'Qf x + qf'x + nlf * psiT(x)
//   g_k    = C_k x + D_k u - e_k + ng * chi(x)          (<= 0)
#pragma once
#include <cmath>
#include <string>
#include <vector>

namespace verif
{
template<class T>
struct Mt
{
  int r = 0, c = 0;
  std::vector<T> a;
  Mt() {}
  Mt(int r_, int c_, T v = T(0)) : r(r_), c(c_), a(static_cast<size_t>(r_) * c_, v) {}
  T & operator()(int i, int j)
  {
    return a[static_cast<size_t>(i) * c + j];
  }
  const T & operator()(int i, int j) const
  {
    return a[static_cast<size_t>(i) * c + j];
  }
  static Mt eye(int n, T s = T(1))
  {
    Mt m(n, n);
    for(int i = 0; i < n; i++)
    {
      m(i, i) = s;
    }
    return m;
  }
  Mt tr() const
  {
    Mt m(c, r);
    for(int i = 0; i < r; i++)
      for(int j = 0; j < c; j++) m(j, i) = (*this)(i, j);
    return m;
  }
  Mt scaled(T s) const
  {
    Mt m = *this;
    for(auto & v : m.a) v *= s;
    return m;
  }
};
using Mat = Mt<double>;
using LMat = Mt<long double>;
using Vec = std::vector<double>;
using LVec = std::vector<long double>;

template<class T, class S>
Mt<T> castM(const Mt<S> & m)
{
  Mt<T> o(m.r, m.c);
  for(size_t i = 0; i < m.a.size(); i++) o.a[i] = m.a[i];
  return o;
}
template<class T>
Mt<T> mul(const Mt<T> & a, const Mt<T> & b)
{
  Mt<T> o(a.r, b.c);
  for(int i = 0; i < a.r; i++)
    for(int k = 0; k < a.c; k++)
      for(int j = 0; j < b.c; j++) o(i, j) += a(i, k) * b(k, j);
  return o;
}
template<class T>
Mt<T> add(const Mt<T> & a, const Mt<T> & b)
{
  Mt<T> o = a;
  for(size_t i = 0; i < o.a.size(); i++) o.a[i] += b.a[i];
  return o;
}
template<class T, class V>
std::vector<T> mulv(const Mt<T> & a, const std::vector<V> & x)
{
  std::vector<T> o(a.r, T(0));
  for(int i = 0; i < a.r; i++)
    for(int j = 0; j < a.c; j++) o[i] += a(i, j) * x[j];
  return o;
}
// a' x
template<class T, class V>
std::vector<T> mulTv(const Mt<T> & a, const std::vector<V> & x)
{
  std::vector<T> o(a.c, T(0));
  for(int i = 0; i < a.r; i++)
    for(int j = 0; j < a.c; j++) o[j] += a(i, j) * x[i];
  return o;
}
template<class T>
T dotv(const std::vector<T> & a, const std::vector<T> & b)
{
  T s = 0;
  for(size_t i = 0; i < a.size(); i++) s += a[i] * b[i];
  return s;
}

// Gaussian elimination with partial pivoting; returns smallest |pivot| / largest |entry| (0 when singular).
template<class T>
T gauss(Mt<T> A, std::vector<T> b, std::vector<T> & x)
{
  int n = A.r;
  T big = 0, small = 1e300;
  for(auto v : A.a) big = std::max(big, std::abs(v));
  if(n == 0)
  {
    x.clear();
    return 1;
  }
  for(int k = 0; k < n; k++)
  {
    int p = k;
    for(int i = k + 1; i < n; i++)
      if(std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
    small = std::min(small, std::abs(A(p, k)));
    if(A(p, k) == 0) return 0;
    if(p != k)
    {
      for(int j = 0; j < n; j++) std::swap(A(k, j), A(p, j));
      std::swap(b[k], b[p]);
    }
    for(int i = k + 1; i < n; i++)
    {
      T f = A(i, k) / A(k, k);
      if(f == 0) continue;
      for(int j = k; j < n; j++) A(i, j) -= f * A(k, j);
      b[i] -= f * b[k];
    }
  }
  x.assign(n, 0);
  for(int i = n - 1; i >= 0; i--)
  {
    T s = b[i];
    for(int j = i + 1; j < n; j++) s -= A(i, j) * x[j];
    x[i] = s / A(i, i);
  }
  return small / big;
}
// Smallest pivot of the Cholesky factorisation (<= 0: not positive definite).
template<class T>
T cholMinPivot(Mt<T> A)
{
  int n = A.r;
  T mn = 1e300;
  for(int k = 0; k < n; k++)
  {
    T d = A(k, k);
    mn = std::min(mn, d);
    if(!(d > 0)) return d;
    for(int i = k + 1; i < n; i++)
    {
      T f = A(i, k) / d;
      for(int j = k; j < n; j++) A(i, j) -= f * A(k, j);
    }
  }
  return mn;
}

struct Model
{
  int n = 1;
  int steps = 0; // number of steps for which data is defined (>= horizon)
  std::vector<int> m, p;
  std::vector<int> mact, pact; // number of inputs / inequalities with nonlinear terms (empty: all)
  int gact(int k) const
  {
    return pact.empty() ? p[k] : pact[k];
  }
  int act(int k) const
  {
    return mact.empty() ? m[k] : mact[k];
  }
  double t0 = 0, dt = 0.1;
  std::vector<Mat> A, B, Q, M, R, C, D;
  std::vector<Vec> c, q, r, e;
  Mat Qf;
  Vec qf;
  Vec tw; // weight of the terminal cost by absolute step at which it is evaluated (empty: 1)
  double termW(int k) const
  {
    return tw.empty() ? 1.0 : tw[std::min(std::max(k, 0), static_cast<int>(tw.size()) - 1)];
  }
  double nf = 0, nl = 0, nlf = 0, ng = 0;

  int stepOf(double t, double * err = nullptr) const
  {
    double kk = (t - t0) / dt;
    long k = std::lround(kk);
    if(err)
    {
      *err = std::abs(t - (t0 + k * dt));
    }
    return static_cast<int>(k);
  }

  template<class T>
  std::vector<T> f(int k, const std::vector<T> & x, const std::vector<T> & u) const
  {
    std::vector<T> o(n, T(0));
    for(int i = 0; i < n; i++)
    {
      o[i] = c[k][i];
      for(int j = 0; j < n; j++) o[i] += A[k](i, j) * x[j];
      for(int j = 0; j < m[k]; j++) o[i] += B[k](i, j) * u[j];
      if(nf != 0)
      {
        o[i] += nf * std::sin(x[i] + T(0.3) * i);
        if(act(k) > 0) o[i] += nf * T(0.3) * x[(i + 1) % n] * u[0];
      }
    }
    return o;
  }
  template<class T>
  void fDeriv(int k, const std::vector<T> & x, const std::vector<T> & u, Mt<T> & fx, Mt<T> & fu) const
  {
    fx = castM<T>(A[k]);
    fu = castM<T>(B[k]);
    if(nf != 0)
    {
      for(int i = 0; i < n; i++)
      {
        fx(i, i) += nf * std::cos(x[i] + T(0.3) * i);
        if(act(k) > 0)
        {
          fx(i, (i + 1) % n) += nf * T(0.3) * u[0];
          fu(i, 0) += nf * T(0.3) * x[(i + 1) % n];
        }
      }
    }
  }
  // psi(x,u) = cos(x0) + u_{m-1}^4 / 4
  template<class T>
  T l(int k, const std::vector<T> & x, const std::vector<T> & u) const
  {
    T s = 0;
    for(int i = 0; i < n; i++)
    {
      s += q[k][i] * x[i];
      for(int j = 0; j < n; j++) s += T(0.5) * x[i] * Q[k](i, j) * x[j];
      for(int j = 0; j < m[k]; j++) s += x[i] * M[k](i, j) * u[j];
    }
    for(int i = 0; i < m[k]; i++)
    {
      s += r[k][i] * u[i];
      for(int j = 0; j < m[k]; j++) s += T(0.5) * u[i] * R[k](i, j) * u[j];
    }
    if(nl != 0)
    {
      s += nl * std::cos(x[0]);
      if(act(k) > 0) s += nl * T(0.25) * std::pow(u[act(k) - 1], 4);
    }
    return s;
  }
  template<class T>
  void lDeriv(int k,
              const std::vector<T> & x,
              const std::vector<T> & u,
              std::vector<T> & lx,
              std::vector<T> & lu,
              Mt<T> & lxx,
              Mt<T> & luu,
              Mt<T> & lxu) const
  {
    int mm = m[k];
    lx.assign(n, T(0));
    lu.assign(mm, T(0));
    lxx = castM<T>(Q[k]);
    luu = castM<T>(R[k]);
    lxu = castM<T>(M[k]);
    for(int i = 0; i < n; i++)
    {
      lx[i] = q[k][i];
      for(int j = 0; j < n; j++) lx[i] += Q[k](i, j) * x[j];
      for(int j = 0; j < mm; j++) lx[i] += M[k](i, j) * u[j];
    }
    for(int i = 0; i < mm; i++)
    {
      lu[i] = r[k][i];
      for(int j = 0; j < n; j++) lu[i] += M[k](j, i) * x[j];
      for(int j = 0; j < mm; j++) lu[i] += R[k](i, j) * u[j];
    }
    if(nl != 0)
    {
      lx[0] += -nl * std::sin(x[0]);
      lxx(0, 0) += -nl * std::cos(x[0]);
      int a = act(k);
      if(a > 0)
      {
        lu[a - 1] += nl * std::pow(u[a - 1], 3);
        luu(a - 1, a - 1) += nl * T(3) * u[a - 1] * u[a - 1];
      }
    }
  }
  template<class T>
  T lf(int k, const std::vector<T> & x) const
  {
    T s = 0;
    for(int i = 0; i < n; i++)
    {
      s += qf[i] * x[i];
      for(int j = 0; j < n; j++) s += T(0.5) * x[i] * Qf(i, j) * x[j];
    }
    if(nlf != 0) s += nlf * T(0.25) * std::pow(x[n - 1], 4);
    return s * T(termW(k));
  }
  template<class T>
  void lfDeriv(int k, const std::vector<T> & x, std::vector<T> & lx, Mt<T> & lxx) const
  {
    lx.assign(n, T(0));
    lxx = castM<T>(Qf);
    for(int i = 0; i < n; i++)
    {
      lx[i] = qf[i];
      for(int j = 0; j < n; j++) lx[i] += Qf(i, j) * x[j];
    }
    if(nlf != 0)
    {
      lx[n - 1] += nlf * std::pow(x[n - 1], 3);
      lxx(n - 1, n - 1) += nlf * T(3) * x[n - 1] * x[n - 1];
    }
    for(auto & v : lx) v *= T(termW(k));
    for(auto & v : lxx.a) v *= T(termW(k));
  }
  template<class T>
  std::vector<T> g(int k, const std::vector<T> & x, const std::vector<T> & u) const
  {
    std::vector<T> o(p[k], T(0));
    for(int i = 0; i < p[k]; i++)
    {
      o[i] = -e[k][i];
      for(int j = 0; j < n; j++) o[i] += C[k](i, j) * x[j];
      for(int j = 0; j < m[k]; j++) o[i] += D[k](i, j) * u[j];
      if(ng != 0 && i < gact(k)) o[i] += ng * x[i % n] * x[i % n];
    }
    return o;
  }
  template<class T>
  void gDeriv(int k, const std::vector<T> & x, const std::vector<T> &, Mt<T> & gx, Mt<T> & gu) const
  {
    gx = castM<T>(C[k]);
    gu = castM<T>(D[k]);
    if(ng != 0)
    {
      for(int i = 0; i < gact(k); i++) gx(i, i % n) += T(2) * ng * x[i % n];
    }
  }
};

// Rollout of inputs U from x0 starting at absolute step k0 (long double).
inline void rollout(const Model & md,
                    int k0,
                    const LVec & x0,
                    const std::vector<LVec> & U,
                    std::vector<LVec> & X,
                    LVec & cost)
{
  int N = static_cast<int>(U.size());
  X.assign(1, x0);
  cost.clear();
  for(int i = 0; i < N; i++)
  {
    cost.push_back(md.l<long double>(k0 + i, X[i], U[i]));
    X.push_back(md.f<long double>(k0 + i, X[i], U[i]));
  }
  cost.push_back(md.lf<long double>(k0 + N, X[N]));
}
inline long double sumv(const LVec & v)
{
  long double s = 0;
  for(auto x : v) s += x;
  return s;
}
// Gradient of the total DDP cost with respect to every input (adjoint, long double).
inline std::vector<LVec> gradU(const Model & md, int k0, const std::vector<LVec> & X, const std::vector<LVec> & U)
{
  int N = static_cast<int>(U.size());
  std::vector<LVec> G(N);
  LVec lam;
  LMat dummy;
  md.lfDeriv<long double>(k0 + N, X[N], lam, dummy);
  for(int i = N - 1; i >= 0; i--)
  {
    LMat fx, fu, lxx, luu, lxu;
    LVec lx, lu;
    md.fDeriv<long double>(k0 + i, X[i], U[i], fx, fu);
    md.lDeriv<long double>(k0 + i, X[i], U[i], lx, lu, lxx, luu, lxu);
    G[i] = mulTv(fu, lam);
    for(size_t j = 0; j < lu.size(); j++) G[i][j] += lu[j];
    LVec nl = mulTv(fx, lam);
    for(size_t j = 0; j < lx.size(); j++) nl[j] += lx[j];
    lam = nl;
  }
  return G;
}
} // namespace verif
