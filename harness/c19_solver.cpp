// C19: the solver layer hands problems and answers through unchanged, and reports failures.
#include "../stubs/QProblem.hpp"
#include "models_common.h"
#include "qp.h"
#include <algorithm>
#include <memory>
#include <mpc-walkgen/qpsolver.h>
#include <mpc-walkgen/qpsolverfactory.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> struct Maker;
  template <typename S> using QM = QPMatrices<S>;

  template <typename S> void vectors(Ctx& c, QM<S>& m, int n, int k, bool tight)
  {
    m.p = genVec<S>(c, n, -5, 5);
    m.xl.resize(n);
    m.xu.resize(n);
    m.bl.resize(k);
    m.bu.resize(k);
    const S none = static_cast<S>(10e10);
    auto bounds = [&](S& lo, S& hi)
    {
      lo = -none;
      hi = none;
      switch (c.below(5))
      {
        case 0: break;
        case 1: lo = static_cast<S>(c.real(-3, 3)); break;
        case 2: hi = static_cast<S>(c.real(-3, 3)); break;
        case 3:
          lo = static_cast<S>(c.real(-3, 3));
          hi = lo + static_cast<S>(tight ? c.real(0, 0.5) : c.real(0, 4));
          break;
        default: lo = hi = static_cast<S>(c.real(-1, 1));
      }
    };
    for (int i = 0; i < n; ++i) bounds(m.xl(i), m.xu(i));
    for (int i = 0; i < k; ++i) bounds(m.bl(i), m.bu(i));
  }
  template <typename S> void matrices(Ctx& c, QM<S>& m, int n, int k)
  {
    typename QM<S>::MatrixXrm J(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) J(i, j) = static_cast<S>(c.chance(1, 3) ? c.real(-1, 1) : 0);
    m.Q = J.transpose() * J;
    for (int i = 0; i < n; ++i) m.Q(i, i) += static_cast<S>(c.logReal(0.2, 5));
    m.A.resize(k, n);
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < n; ++j) m.A(i, j) = static_cast<S>(c.flip() ? c.real(-2, 2) : 0);
  }
  template <typename S> qp::Problem problem(const QM<S>& m)
  {
    qp::Problem q;
    q.Q = toMat(m.Q);
    q.p = toVec(m.p);
    q.A = toMat(m.A);
    q.xl = toVec(m.xl);
    q.xu = toVec(m.xu);
    q.bl = toVec(m.bl);
    q.bu = toVec(m.bu);
    return q;
  }
  template <typename M> void sameData(Ctx& c, const std::vector<double>& got, const M& m,
                                      const char* what)
  {
    if (static_cast<int>(got.size()) != m.rows() * m.cols())
      c.fail(std::string(what) + " was handed over with another size");
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j)
        if (got[i * m.cols() + j] != static_cast<double>(m(i, j)))
          c.fail(std::string(what) + "(" + std::to_string(i) + "," + std::to_string(j) +
                 ") was handed over as " + str(got[i * m.cols() + j]) + " instead of " +
                 str(m(i, j)));
  }
  template <typename S> std::string show(const QM<S>& m)
  {
    std::ostringstream o;
    o.precision(9);
    o << "Q\n" << m.Q << "\np " << m.p.transpose() << "\nx in " << m.xl.transpose() << " .. "
      << m.xu.transpose() << "\nA\n" << m.A << "\nin " << m.bl.transpose() << " .. "
      << m.bu.transpose();
    return o.str();
  }
}

TYPED_LAW(any_sequence,
          "one or two solvers (1-8 variables, 0-10 constraints), up to 8 problems each in any "
          "order: same matrices with a warm start, new matrices with a cold start, infeasible "
          "problems, solver failures at any call, with and without a log stream: the problem the "
          "solver sees, the reported outcome and the solution against a direct solution; "
          "non-trivial: a warm start after a failure, or a success with active constraints by "
          "warm start", 3000, 150000)
{
  typedef Scalar S;
  struct One
  {
    int n, k;
    std::unique_ptr<QPSolver<S> > solver;
    QM<S> m;
    bool started, failedBefore;
  };
  std::vector<One> all(c.integer(1, 2));
  for (One& o : all)
  {
    o.n = c.integer(1, 8);
    o.k = c.integer(0, 10);
    o.solver.reset(makeQPSolver<S>(o.n, o.k));
    o.started = o.failedBefore = false;
    c.check(o.solver->getNbVar() == o.n && o.solver->getNbCtr() == o.k,
            "a solver has not the size it was made with");
    c.note("solver of ", o.n, " variables and ", o.k, " constraints");
  }
  const int steps = c.integer(1, 12);
  for (int i = 0; i < steps; ++i)
  {
    One& o = all[c.below(static_cast<int>(all.size()))];
    const bool fresh = !o.started || c.chance(1, 3);
    const bool warm = fresh ? !o.started && c.flip() : c.chance(3, 4);
    // a cold start uses the matrices given, a warm start of a started solver those of before
    if (fresh) matrices(c, o.m, o.n, o.k);
    vectors(c, o.m, o.n, o.k, c.flip());
    const bool force = c.chance(1, 5);
    const bool log = c.flip();
    QM<S> given = o.m;
    if (o.started && warm && c.chance(1, 3))
    {
      // documented: not used by a warm start
      matrices(c, given, o.n, o.k);
      c.label("other matrices at a warm start");
    }
    c.note("step ", i, warm ? " warm" : " cold", force ? " failing" : "", log ? " with a log" : "",
           "\n", show(given));
    SolverLog& sl = solverLog();
    sl = SolverLog();
    sl.record = true;
    sl.forceFailures = force;
    const int limit = c.integer(500, 5000);
    typename QM<S>::VectorX x = VX<S>::Constant(o.n, static_cast<S>(77));
    std::ostringstream os;
    const bool ok = log ? o.solver->solve(given, limit, x, warm, &os)
                        : o.solver->solve(given, limit, x, warm);
    sl.forceFailures = 0;
    c.check(sl.inits + sl.hotstarts == 1, "the solver was called " +
            std::to_string(sl.inits + sl.hotstarts) + " times");
    c.check(sl.lastMaxIterations == limit, "the limit of iterations was not handed over");
    sameData(c, sl.H, o.m.Q, "Q");
    sameData(c, sl.A, o.m.A, "A");
    sameData(c, sl.g, o.m.p, "p");
    sameData(c, sl.lb, o.m.xl, "xl");
    sameData(c, sl.ub, o.m.xu, "xu");
    sameData(c, sl.lbA, o.m.bl, "bl");
    sameData(c, sl.ubA, o.m.bu, "bu");
    const qp::Solution s = qp::solve(problem(o.m), limit);
    const bool expect = s.status == qp::Optimal && !force;
    c.check(x.size() == o.n, "the solution has another size");
    if (ok != expect)
      c.fail(std::string("solve() reports ") + (ok ? "a success" : "a failure") +
             ", but the solver " + (expect ? "succeeded" : "failed"));
    if (ok)
      for (int j = 0; j < o.n; ++j)
        if (!(std::abs(static_cast<R>(x(j)) - s.x(j)) <= 4 * eps<S>() * std::abs(s.x(j)) + 1e-30L))
          c.fail("x[" + std::to_string(j) + "] = " + str(x(j)) + ", expected " + str(s.x(j)));
    c.label(!ok, force ? "forced failure" : "infeasible");
    c.nontrivial(o.started && warm && ok && (o.failedBefore || s.nbActive > 0));
    o.started = true;
    o.failedBefore = !ok;
  }
}

TYPED_LAW(normalisation,
          "random problems with entries over ten orders of magnitude, also exact zeros: the "
          "normalised problem is the same one up to a positive factor of the objective and one of "
          "the constraints, its solution is the same, no entry above the threshold stays under 1; "
          "non-trivial: both factors are not 1", 4000, 200000)
{
  typedef Scalar S;
  const int n = c.integer(1, 6), k = c.integer(0, 6);
  QM<S> m;
  matrices(c, m, n, k);
  vectors(c, m, n, k, false);
  // Q and p by one scale, A and its bounds by another: the problem is the same
  const S fq = static_cast<S>(c.logReal(1e-6, 1e3)), fa = static_cast<S>(c.logReal(1e-4, 1e3));
  m.Q *= fq;
  m.p *= fq;
  m.A *= fa;
  m.bl *= fa;
  m.bu *= fa;
  const S threshold = static_cast<S>(c.pick<double>({1e-4, 1e-10, 1e-6, 1e-2}));
  c.note(show(m), "\nthreshold ", threshold);
  QM<S> w = m;
  w.normalizeMatrices(threshold);
  R factor[2];
  for (int which = 0; which < 2; ++which)
  {
    const Mat a = which ? toMat(m.A) : toMat(m.Q), b = which ? toMat(w.A) : toMat(w.Q);
    R least = 1;
    for (int i = 0; i < a.size(); ++i)
    {
      const R v = std::abs(a(i));
      if (v > threshold && v < least) least = v;
    }
    factor[which] = 1 / least;
    const R f = QM<S>::getNormalizationFactor(which ? m.A : m.Q, threshold);
    const R tol = 16 * eps<S>();
    if (!(std::abs(f - factor[which]) <= tol * factor[which]))
      c.fail(std::string("the factor of ") + (which ? "A" : "Q") + " is " + str(f) +
             ", expected " + str(factor[which]));
    if (a.rows() != b.rows() || a.cols() != b.cols()) c.fail("a size has changed");
    auto scaled = [&](const Mat& x, const Mat& y, const char* what)
    {
      if (x.rows() != y.rows() || x.cols() != y.cols()) c.fail(std::string(what) + ": size");
      for (int i = 0; i < x.size(); ++i)
        if (!(std::abs(y(i) - factor[which] * x(i)) <= tol * std::abs(factor[which] * x(i))))
          c.fail(std::string(what) + ": " + str(x(i)) + " became " + str(y(i)) +
                 ", the factor is " + str(factor[which]));
    };
    scaled(a, b, which ? "A" : "Q");
    if (which)
    {
      scaled(toVec(m.bl), toVec(w.bl), "bl");
      scaled(toVec(m.bu), toVec(w.bu), "bu");
    }
    else scaled(toVec(m.p), toVec(w.p), "p");
    for (int i = 0; i < a.size(); ++i)
      c.check(!(std::abs(a(i)) > threshold) || std::abs(b(i)) >= 1 - tol,
              "an entry above the threshold stays under 1");
  }
  c.check(w.xl == m.xl && w.xu == m.xu, "the bounds on x have changed");
  c.nontrivial(factor[0] != 1 && factor[1] != 1);
}

TYPED_LAW(dimensions,
          "matrices and vectors of random sizes, up to two of them wrong: the dimensions are "
          "consistent exactly when every size is right; non-trivial: one or two sizes are wrong",
          3000, 60000)
{
  typedef Scalar S;
  const int n = c.integer(1, 6), k = c.integer(0, 6);
  int size[10] = {n, n, n, n, n, n, k, k, k, 0};
  const int wrong = c.below(3);
  for (int i = 0; i < wrong; ++i)
  {
    int& s = size[c.below(9)];
    s = std::max(0, s + (c.flip() ? 1 : -1) * c.integer(1, 2));
  }
  QM<S> m;
  m.Q.setZero(size[0], size[1]);
  m.p.setZero(size[2]);
  m.xl.setZero(size[3]);
  m.xu.setZero(size[4]);
  m.A.setZero(size[6], size[5]);
  m.bl.setZero(size[7]);
  m.bu.setZero(size[8]);
  bool right = true;
  for (int i = 0; i < 6; ++i) right = right && size[i] == n;
  for (int i = 6; i < 9; ++i) right = right && size[i] == k;
  c.note(n, " ", k, ": Q ", size[0], "x", size[1], " p ", size[2], " xl ", size[3], " xu ",
         size[4], " A ", size[6], "x", size[5], " bl ", size[7], " bu ", size[8]);
  c.check(m.dimensionsAreConsistent(n, k) == right,
          right ? "right dimensions are called inconsistent" : "wrong dimensions are called consistent");
  c.nontrivial(!right);
}
