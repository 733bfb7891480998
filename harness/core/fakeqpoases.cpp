#include "../stubs/QProblem.hpp"
#include "qp.h"

namespace mpcv
{
  SolverLog& solverLog() { static thread_local SolverLog log = SolverLog(); return log; }

  int answerQp(int nV, int nC, const double* H, const double* g, const double* A,
               const double* lb, const double* ub, const double* lbA, const double* ubA,
               int maxIterations, double* x)
  {
    typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RM;
    typedef Eigen::Matrix<double, Eigen::Dynamic, 1> V;
    qp::Problem q;
    q.Q = Eigen::Map<const RM>(H, nV, nV).cast<qp::R>();
    q.p = Eigen::Map<const V>(g, nV).cast<qp::R>();
    q.A = Eigen::Map<const RM>(A, nC, nV).cast<qp::R>();
    q.xl = Eigen::Map<const V>(lb, nV).cast<qp::R>();
    q.xu = Eigen::Map<const V>(ub, nV).cast<qp::R>();
    q.bl = Eigen::Map<const V>(lbA, nC).cast<qp::R>();
    q.bu = Eigen::Map<const V>(ubA, nC).cast<qp::R>();
    qp::Solution s = qp::solve(q, maxIterations);
    for (int i = 0; i < nV; ++i)
    {
      x[i] = static_cast<double>(s.x(i));
      // what is left after a failure is a number, and not a wild one
      if (s.status != qp::Optimal && !(std::abs(x[i]) < 1e6)) x[i] = 0;
    }
    return s.status == qp::Optimal ? 0 : s.status == qp::Infeasible ? 1 : 2;
  }
}
