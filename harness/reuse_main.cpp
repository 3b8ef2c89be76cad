// C16 for BoxQP and Gmres: every call sequence up to a length on one object, compared with a fresh object at each step.
#define VERIF_ZERO_INIT
#include "eigen_setup.h"
#include "problem_common.h"
#include <cassert>
#include <nmpc_cgmres/Gmres.h>
#include <nmpc_ddp/BoxQP.h>
using namespace verif;
static const double inf = std::numeric_limits<double>::infinity();

template<int VD, int N>
struct BoxHist
{
  using QP = nmpc_ddp::BoxQP<VD>;
  using V = typename QP::VarDimVector;
  using M = typename QP::VarVarDimMatrix;
  struct Call
  {
    int h = 0, g = 0, b = 0, x0 = 0, max_iter = 500, print = 0;
  };
  static std::vector<Call> alphabet()
  {
    std::vector<Call> o;
    for(int h = 0; h < 4; h++)
      for(int b = 0; b < 4; b++)
      {
        Call c;
        c.h = h;
        c.b = b;
        c.g = (h + b) % 3;
        c.x0 = (h + 2 * b) % 3;
        o.push_back(c);
      }
    Call c;
    c.max_iter = 1;
    o.push_back(c);
    c = Call();
    c.max_iter = 2;
    c.h = 1;
    c.b = 1;
    c.print = 3;
    o.push_back(c);
    c = Call();
    c.g = 3; // every dimension pushed into its lower bound
    c.b = 1;
    o.push_back(c);
    return o;
  }
  static std::vector<double> call(QP & qp, const Call & k)
  {
    M H(N, N);
    V g(N), lo(N), hi(N), x0(N);
    for(int i = 0; i < N; i++)
    {
      for(int j = 0; j < N; j++)
      {
        H(i, j) = k.h == 0 ? (i == j ? 1.0 + i : 0.3)
                           : (k.h == 1 ? (i == j ? 10.0 / (i + 1) : -0.9) : (k.h == 2 ? (i == j ? (i == 0 ? -1.0 : 1.0) : 0.0) : (i == j ? 0.5 : 0.0)));
      }
      g(i) = k.g == 0 ? 1.0 - 0.8 * i : (k.g == 1 ? -2.0 + 1.5 * i : (k.g == 2 ? 0.0 : 50.0));
      lo(i) = k.b == 0 ? -inf : (k.b == 1 ? -0.3 : (k.b == 2 ? 0.2 + 0.1 * i : -5.0));
      hi(i) = k.b == 0 ? inf : (k.b == 1 ? 0.4 : (k.b == 2 ? 0.2 + 0.3 * i : 0.1));
      x0(i) = k.x0 == 0 ? 0.0 : (k.x0 == 1 ? 3.0 - i : -0.25);
    }
    qp.config().max_iter = k.max_iter;
    qp.config().print_level = k.print;
    M H0 = H;
    V g0 = g, lo0 = lo, hi0 = hi, xi = x0;
    V x = qp.solve(H, g, lo, hi, x0);
    if(H != H0 || g != g0 || lo != lo0 || hi != hi0 || xi != x0) fail("BoxQP::solve() modified its arguments");
    std::vector<double> o;
    for(int i = 0; i < N; i++) o.push_back(x(i));
    o.push_back(qp.retval_);
    o.push_back(qp.free_idxs_.size());
    for(int i : qp.free_idxs_) o.push_back(i);
    if(!qp.free_idxs_.empty() && qp.retval_ >= 0 && qp.llt_free_)
    {
      Eigen::MatrixXd L = qp.llt_free_->matrixL();
      o.push_back(L.rows());
      for(int i = 0; i < L.rows(); i++)
        for(int j = 0; j <= i; j++) o.push_back(L(i, j));
    }
    for(auto & t : qp.traceDataList())
    {
      o.push_back(t.iter);
      for(int i = 0; i < N; i++)
      {
        o.push_back(t.x(i));
        o.push_back(t.search_dir(i));
        o.push_back(t.clamped_flag(i));
      }
      o.push_back(t.obj);
      o.push_back(t.factorization_num);
      o.push_back(t.step_num);
    }
    return o;
  }
  static void run(Ctx & c)
  {
    static const std::vector<Call> A = alphabet();
    int len = c.thorough ? 4 : 3;
    std::vector<int> seq;
    for(int i = 0; i < len; i++) seq.push_back(c.free("call", A.size()));
    c.claim();
    QP qp(N);
    for(int i = 0; i < len; i++)
    {
      auto got = call(qp, A[seq[i]]);
      QP f(N);
      auto want = call(f, A[seq[i]]);
      std::string why;
      if(!sameObs(got, want, why)) fail("call " + std::to_string(i) + " on a reused BoxQP differs from a fresh one: " + why);
      c.trans();
      c.traces();
      c.outcome("status " + std::to_string((int)got[N]));
      c.state(hashVec(seq[i], got));
    }
    c.nontrivialCase();
  }
};

struct GmresHist
{
  struct Call
  {
    int n = 3, a = 0, b = 0, x0 = 0, k_max = 100;
    double eps = 1e-10;
    bool tri = true, reorth = true;
  };
  static std::vector<Call> alphabet()
  {
    std::vector<Call> o;
    for(int n = 1; n <= 4; n++)
      for(int a = 0; a < 3; a++)
      {
        Call c;
        c.n = n;
        c.a = a;
        c.b = (n + a) % 2;
        c.x0 = a % 2;
        c.tri = (n + a) % 2;
        o.push_back(c);
      }
    Call c;
    c.b = 2; // zero right-hand side, solved at once
    o.push_back(c);
    c = Call();
    c.k_max = 1;
    o.push_back(c);
    c = Call();
    c.k_max = 2;
    c.tri = false;
    c.reorth = false;
    o.push_back(c);
    c = Call();
    c.k_max = 0;
    o.push_back(c);
    c = Call();
    c.eps = 0.3;
    o.push_back(c);
    return o;
  }
  static std::vector<double> call(nmpc_cgmres::Gmres & gm, const Call & k)
  {
    Eigen::MatrixXd A(k.n, k.n);
    Eigen::VectorXd b(k.n), x(k.n);
    for(int i = 0; i < k.n; i++)
    {
      for(int j = 0; j < k.n; j++)
        A(i, j) = k.a == 0 ? (i == j ? 2.0 + i : 0.4 * tabv(i + 3 * j)) : (k.a == 1 ? (i == j ? 1.0 : 0.0) : (j == (i + 1) % k.n ? 1.0 : 0.0));
      b(i) = k.b == 0 ? 1.0 - 0.4 * i : (k.b == 1 ? (i == 0 ? 2.0 : 0.0) : 0.0);
      x(i) = k.x0 == 0 ? 0.0 : 0.5 * tabv(i);
    }
    gm.make_triangular_ = k.tri;
    gm.apply_reorth_ = k.reorth;
    Eigen::MatrixXd A0 = A;
    Eigen::VectorXd b0 = b;
    gm.solve(Eigen::Ref<const Eigen::MatrixXd>(A), b, x, k.k_max, k.eps);
    if(A != A0 || b != b0) fail("Gmres::solve() modified its arguments");
    std::vector<double> o;
    for(int i = 0; i < k.n; i++) o.push_back(x(i));
    o.push_back(gm.err_list_.size());
    for(double e : gm.err_list_) o.push_back(e);
    return o;
  }
  static void run(Ctx & c)
  {
    static const std::vector<Call> A = alphabet();
    int len = c.thorough ? 4 : 3;
    std::vector<int> seq;
    for(int i = 0; i < len; i++) seq.push_back(c.free("call", A.size()));
    c.claim();
    nmpc_cgmres::Gmres gm;
    for(int i = 0; i < len; i++)
    {
      auto got = call(gm, A[seq[i]]);
      nmpc_cgmres::Gmres f;
      auto want = call(f, A[seq[i]]);
      std::string why;
      if(!sameObs(got, want, why)) fail("call " + std::to_string(i) + " on a reused Gmres differs from a fresh one: " + why);
      c.trans();
      c.traces();
      c.outcome("n " + std::to_string(A[seq[i]].n));
      c.state(hashVec(seq[i], got));
    }
    c.nontrivialCase();
  }
};

int main(int argc, char ** argv)
{
  std::vector<Space> sp;
  sp.push_back({"boxqp_fixed", BoxHist<3, 3>::run, 0, 0});
  sp.push_back({"boxqp_dynamic", BoxHist<-1, 2>::run, 0, 0});
  sp.push_back({"gmres", GmresHist::run, 0, 0});
  return exploreMain(argc, argv, sp);
}
