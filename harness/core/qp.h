// Dense strictly convex quadratic programming by the dual active-set method of Goldfarb and
// Idnani, written for this harness.  It plays two roles: it answers for qpOASES (which is not
// available here) behind the repository's solver wrapper, and it solves the independently
// formulated problems of the generator properties.  Every answer is checked against the
// optimality conditions before it is used.
//
//   minimise 1/2 x'Qx + p'x   subject to  xl <= x <= xu,  bl <= A x <= bu
#pragma once
#include <Eigen/Core>
#include <cmath>
#include <limits>
#include <vector>

namespace mpcv
{
  namespace qp
  {
    typedef long double R;
    typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> Mat;
    typedef Eigen::Matrix<R, Eigen::Dynamic, 1> Vec;

    struct Problem
    {
      Mat Q; Vec p; Vec xl, xu; Mat A; Vec bl, bu;
    };
    enum Status { Optimal, Infeasible, Trouble };
    struct Solution
    {
      Status status;
      Vec x;
      R objective;
      int nbActive;      // active constraints at the solution
      int iterations;
    };
    const R kInf = 5e10L;   // bounds at least that big are absent

    inline R objective(const Problem& q, const Vec& x)
    { return x.dot(q.Q * x) / 2 + q.p.dot(x); }

    /// Largest violation of a constraint, relative to the size of its terms.
    inline R violation(const Problem& q, const Vec& x)
    {
      R worst = 0;
      for (int i = 0; i < x.size(); ++i)
      {
        R s = 1 + std::abs(x(i));
        if (q.xl(i) > -kInf) worst = std::max(worst, (q.xl(i) - x(i)) / s);
        if (q.xu(i) < kInf) worst = std::max(worst, (x(i) - q.xu(i)) / s);
      }
      for (int i = 0; i < q.A.rows(); ++i)
      {
        R v = q.A.row(i).dot(x);
        R s = q.A.row(i).cwiseAbs().dot(x.cwiseAbs()) + q.A.row(i).norm();
        if (!(s > 0)) s = 1;
        if (q.bl(i) > -kInf) worst = std::max(worst, (q.bl(i) - v) / s);
        if (q.bu(i) < kInf) worst = std::max(worst, (v - q.bu(i)) / s);
      }
      return worst;
    }

    Solution solve(const Problem& q, int maxIterations = 2000);
  }
}
