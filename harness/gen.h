// Deviation-bounded generator of optimal control problems. The default problem is rich (coupled, asymmetric,
// time-varying, biased); every deviation replaces one ingredient by a structurally special one.
#pragma once
#include "explore.h"
#include "model.h"

namespace verif
{
struct GenOpt
{
  int n = 2;
  int mfix = 1; // input dimension, or -1: per-step pattern chosen from the alphabet
  int pfix = 0; // inequality dimension, or -1: per-step pattern
  std::vector<int> mlist, plist; // explicit per-step dimensions (repeated), overrides mfix / pfix
  bool allow_nonlinear = true;
  bool allow_nonconvex = false;
  bool allow_zero_R = false;
  int nfix = 0; // horizon length, 0: chosen from the alphabet
  int max_steps = 6; // alphabet of horizon lengths is {3, 1, 2, 5, max_steps}
  int cap = 3; // largest dynamic dimension of a step
  int slack_steps = 3; // extra steps beyond the horizon (for later start times)
};

struct Gen
{
  Model md;
  int N = 3;
  int k0 = 0;
  Vec x0;
  std::vector<Vec> u0;
  bool linear = true;
  bool convex = true;
  double t() const
  {
    return md.t0 + k0 * md.dt;
  }
};

inline double tabv(int i)
{
  static const double v[] = {0.7, -0.4, 0.55, 0.9, -0.65, 0.3, -0.85, 0.45, 0.15, -0.2, 0.6, -0.5};
  return v[((i % 12) + 12) % 12];
}

inline std::vector<int> dimPattern(int which, int steps, int cap)
{
  // patterns of per-step dimensions (time-varying, including empty steps)
  static const std::vector<std::vector<int>> pats = {{1, 2, 0}, {2, 1}, {0, 2, 1}, {1}, {2}, {0}, {2, 0, 0, 1}, {1, 0}, {3, 1, 0, 2}};
  std::vector<int> o;
  for(int i = 0; i < steps; i++)
  {
    const auto & p = pats[which % pats.size()];
    o.push_back(std::min(cap, p[i % p.size()]));
  }
  return o;
}

inline Gen genProblem(Ctx & c, const GenOpt & o)
{
  Gen g;
  Model & md = g.md;
  md.n = o.n;
  g.N = o.nfix ? o.nfix : c.devOf<int>("N", {3, 1, 2, 5, o.max_steps, 11, 24});
  g.k0 = c.devOf<int>("k0", {0, 2});
  md.t0 = c.devOf<double>("t0", {0.0, 1.3, -0.7, 1234.5});
  md.dt = c.devOf<double>("dt", {0.1, 0.5, 1.0});
  md.steps = g.N + o.slack_steps + 2;
  int n = o.n;
  if(!o.mlist.empty())
  {
    for(int k = 0; k < md.steps; k++) md.m.push_back(o.mlist[std::max(0, k - g.k0) % o.mlist.size()]);
  }
  else if(o.mfix >= 0)
  {
    md.m.assign(md.steps, o.mfix);
  }
  else
  {
    md.m = dimPattern(c.dev("mpat", o.cap > 2 ? 9 : 8), md.steps, o.cap);
  }
  if(!o.plist.empty())
  {
    for(int k = 0; k < md.steps; k++) md.p.push_back(o.plist[std::max(0, k - g.k0) % o.plist.size()]);
  }
  else if(o.pfix >= 0)
  {
    md.p.assign(md.steps, o.pfix);
  }
  else
  {
    md.p = dimPattern(c.dev("ppat", o.cap > 2 ? 9 : 8), md.steps, o.cap);
  }
  int tA = c.dev("A", 6), tB = c.dev("B", 4), tc = c.dev("c", 2);
  int tQ = c.dev("Q", 4), tM = c.dev("M", 3), tR = c.dev("R", o.allow_zero_R ? 5 : 4);
  int tq = c.dev("q", 3), tr = c.dev("r", 2), tQf = c.dev("Qf", 4);
  int tv = c.dev("tv", 3);
  for(int k = 0; k < md.steps; k++)
  {
    double w = tv == 0 ? 1.0 + 0.15 * ((k * 2) % 5) : (tv == 1 ? 1.0 : (k % 2 ? 1.6 : 0.5));
    int m = md.m[k], p = md.p[k];
    Mat A(n, n), B(n, m), Q(n, n), M(n, m), R(m, m), C(p, n), D(p, m);
    Vec cc(n), q(n), r(m), e(p);
    for(int i = 0; i < n; i++)
    {
      for(int j = 0; j < n; j++)
      {
        switch(tA)
        {
          case 0: // generic asymmetric
            A(i, j) = (i == j ? 0.8 : 0.0) + 0.3 * tabv(3 * i + j + 1) * w;
            break;
          case 1: // integrator chain
            A(i, j) = (i == j ? 1.0 : (j == i + 1 ? md.dt : 0.0));
            break;
          case 2: // unstable
            A(i, j) = (i == j ? 1.3 : 0.4 * tabv(i + 2 * j));
            break;
          case 3: // zero
            A(i, j) = 0;
            break;
          case 4: // sign flipping / rotation
            A(i, j) = n == 1 ? -0.9 : (i == j ? 0.1 : (i < j ? -0.95 : 0.9));
            break;
          case 5: // identity
            A(i, j) = i == j;
            break;
        }
      }
      cc[i] = tc == 0 ? 0.1 * tabv(i + k) : 0.0;
      for(int j = 0; j < m; j++)
      {
        switch(tB)
        {
          case 0:
            B(i, j) = tabv(2 * i + 5 * j + 3) * w;
            break;
          case 1: // last state only
            B(i, j) = i == n - 1 ? 1.0 + 0.5 * j : 0.0;
            break;
          case 2: // no authority
            B(i, j) = 0;
            break;
          case 3: // redundant inputs
            B(i, j) = 0.8 + 0.2 * i;
            break;
        }
      }
    }
    for(int i = 0; i < n; i++)
    {
      for(int j = 0; j < n; j++)
      {
        double od = 0.3;
        switch(tQ)
        {
          case 0:
            Q(i, j) = (i == j ? 1.0 + 0.5 * i : od) * w;
            break;
          case 1:
            Q(i, j) = 0;
            break;
          case 2:
            Q(i, j) = i == j ? (i == 0 ? 5.0 : 0.1) : 0.0;
            break;
          case 3:
            Q(i, j) = (i == j ? 1.0 : 1.0) * 0.5; // singular
            break;
        }
      }
      q[i] = tq == 0 ? 0.3 * tabv(i + k + 4) : (tq == 1 ? 0.0 : -1.5 + i);
      for(int j = 0; j < m; j++)
      {
        M(i, j) = tM == 0 ? 0.15 * tabv(i + 3 * j + k) : (tM == 1 ? 0.0 : 0.3 * (i == 0 ? 1 : -1));
        if(tQ == 1 || tQ == 3)
        {
          M(i, j) = 0; // keep the stage cost convex
        }
        if(tQ == 2)
        {
          M(i, j) *= 0.1;
        }
      }
    }
    for(int i = 0; i < m; i++)
    {
      for(int j = 0; j < m; j++)
      {
        switch(tR)
        {
          case 0:
            R(i, j) = (i == j ? 1.0 + 0.4 * i : 0.35) * w;
            break;
          case 1:
            R(i, j) = i == j ? 0.4 : 0.0;
            break;
          case 2:
            R(i, j) = i == j ? 8.0 : 0.5;
            break;
          case 3:
            R(i, j) = i == j ? 0.6 + 2 * i : -0.4;
            break;
          case 4:
            R(i, j) = 0;
            break;
        }
      }
      r[i] = tr == 0 ? 0.25 * tabv(i + 2 * k + 1) : 0.0;
    }
    md.A.push_back(A);
    md.B.push_back(B);
    md.c.push_back(cc);
    md.Q.push_back(Q);
    md.M.push_back(M);
    md.R.push_back(R);
    md.q.push_back(q);
    md.r.push_back(r);
    md.C.push_back(C);
    md.D.push_back(D);
    md.e.push_back(e);
  }
  for(int k = 0; k < md.steps; k++) md.tw.push_back(tv == 1 ? 1.0 : 1.0 + 0.35 * ((k * 3) % 4));
  md.Qf = Mat(n, n);
  md.qf.assign(n, 0);
  for(int i = 0; i < n; i++)
  {
    for(int j = 0; j < n; j++)
    {
      md.Qf(i, j) = tQf == 0 ? (i == j ? 2.0 + i : 0.4) : (tQf == 1 ? 0.0 : (tQf == 2 ? (i == j ? 20.0 : 0.0) : (i == j && i == 0 ? 3.0 : 0.0)));
    }
    md.qf[i] = tQf == 0 ? 0.3 * tabv(i) : 0.0;
  }
  // inequality constraints: C x + D u <= e
  bool any_p = false;
  for(int k = 0; k < md.steps; k++) any_p = any_p || md.p[k] > 0;
  if(any_p)
  {
    int tC = c.dev("C", 5), te = c.dev("e", 4);
    for(int k = 0; k < md.steps; k++)
    {
      int m = md.m[k];
      for(int i = 0; i < md.p[k]; i++)
      {
        for(int j = 0; j < n; j++)
        {
          md.C[k](i, j) = (tC == 0) ? 0.3 * tabv(i + 2 * j + k) : (tC == 1 ? 0.0 : (tC == 2 ? ((i + j) % 2 ? 1.0 : -0.5) : (tC == 3 ? 0.2 : 0.0)));
        }
        for(int j = 0; j < m; j++)
        {
          md.D[k](i, j) = (tC == 0) ? (i % 2 == 0 ? 1.0 : -1.0) * (j == 0 ? 1.0 : 0.4)
                                    : (tC == 1 ? (i % 2 == 0 ? 1.0 : -1.0) : (tC == 2 ? 0.0 : (tC == 3 ? (i == j ? 1.0 : 0.0) : 0.0)));
        }
        md.e[k][i] = te == 0 ? 0.6 + 0.1 * ((k + i) % 3) : (te == 1 ? 5.0 : (te == 2 ? 0.15 : (k % 2 ? 2.0 : 0.3)));
        if(tC == 2)
        {
          md.e[k][i] += 2.0; // state constraints: keep the problem feasible for the first state
        }
      }
    }
  }
  int nonlin = o.allow_nonlinear ? c.dev("nonlin", 6) : 0;
  md.nf = (nonlin == 1 || nonlin == 4) ? 0.3 : 0.0;
  md.nl = (nonlin == 2 || nonlin == 4) ? 0.5 : 0.0;
  md.nlf = (nonlin == 3 || nonlin == 4) ? 0.5 : 0.0;
  md.ng = (nonlin == 5 || nonlin == 4) && any_p ? 0.1 : 0.0;
  g.linear = nonlin == 0;
  g.convex = nonlin == 0 || nonlin == 3;
  int tx = c.dev("x0", 5);
  for(int i = 0; i < n; i++)
  {
    g.x0.push_back(tx == 0 ? (i == 0 ? 1.0 : -0.5) : (tx == 1 ? 0.0 : (tx == 2 ? 3.0 - i : (tx == 3 ? -2.0 + 3 * i : 60.0 - 25 * i))));
  }
  int tu = c.dev("u0", 4);
  for(int k = 0; k < g.N; k++)
  {
    Vec u;
    for(int j = 0; j < md.m[g.k0 + k]; j++)
    {
      u.push_back(tu == 0 ? 0.0 : (tu == 1 ? 0.3 : (tu == 3 ? 15.0 - 9 * j : (k % 2 ? -0.8 : 0.9))));
    }
    g.u0.push_back(u);
  }
  return g;
}
// Equivalent problem with fixed dimensions: extra inputs have no effect and cost u^2, extra inequalities are -1 <= 0.
inline Gen padGen(const Gen & g, int m2, int p2)
{
  Gen o = g;
  Model & md = o.md;
  md.mact = g.md.m;
  md.pact = g.md.p;
  auto ext = [](const Mat & a, int r, int c)
  {
    Mat z(r, c);
    for(int i = 0; i < a.r; i++)
      for(int j = 0; j < a.c; j++) z(i, j) = a(i, j);
    return z;
  };
  for(int k = 0; k < md.steps; k++)
  {
    int m = g.md.m[k], n = md.n;
    md.m[k] = m2;
    md.p[k] = p2;
    md.B[k] = ext(md.B[k], n, m2);
    md.M[k] = ext(md.M[k], n, m2);
    md.R[k] = ext(md.R[k], m2, m2);
    for(int i = m; i < m2; i++) md.R[k](i, i) = 2.0;
    md.r[k].resize(m2, 0.0);
    md.C[k] = ext(md.C[k], p2, n);
    md.D[k] = ext(md.D[k], p2, m2);
    md.e[k].resize(p2, 1.0);
  }
  for(int i = 0; i < o.N; i++) o.u0[i].resize(m2, 0.0);
  return o;
}
} // namespace verif
