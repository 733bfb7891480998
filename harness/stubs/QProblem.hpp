// Stand-in for qpOASES's QProblem.hpp: the part of the interface that the repository's
// wrapper uses, answered by harness/core/qp.h.  The single-precision build of qpOASES is a
// separate namespace here, so that both can be linked into one program.
#pragma once
#include <cstddef>
#include <vector>

namespace mpcv
{
  // What the stand-in saw; read by the properties of the solver wrapper.
  struct SolverLog
  {
    int inits, hotstarts, failures, troubles;
    int lastNbVar, lastNbCtr;
    int forceFailures;   // make that many of the next calls report an error
    bool record;         // keep the data of the last call:
    int lastMaxIterations;
    bool lastWasHotstart;
    std::vector<double> H, A, g, lb, ub, lbA, ubA;
    SolverLog() : inits(0), hotstarts(0), failures(0), troubles(0), lastNbVar(0), lastNbCtr(0),
                  forceFailures(0), record(false), lastMaxIterations(0), lastWasHotstart(false) {}
  };
  SolverLog& solverLog();
  // returns 0 (solved), 1 (infeasible) or 2 (numerical trouble, iteration limit)
  int answerQp(int nV, int nC, const double* H, const double* g, const double* A,
               const double* lb, const double* ub, const double* lbA, const double* ubA,
               int maxIterations, double* x);
}

namespace qpOASES
{
#ifdef QPOASES_REAL_IS_FLOAT
  inline namespace single_precision {
  typedef float real_t;
#else
  inline namespace double_precision {
  typedef double real_t;
#endif

  enum PrintLevel { PL_NONE = 0, PL_LOW, PL_MEDIUM, PL_HIGH };
  enum returnValue
  {
    SUCCESSFUL_RETURN = 0,
    RET_MAX_NWSR_REACHED = 64,
    RET_INIT_FAILED = 33,
    RET_INIT_FAILED_INFEASIBILITY = 37,
    RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED = 53,
    RET_HOTSTART_STOPPED_INFEASIBILITY = 61,
    RET_QP_NOT_SOLVED = 55
  };

  enum BooleanType { BT_FALSE = 0, BT_TRUE = 1 };
  enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF,
                     HST_INDEF, HST_UNKNOWN };
  struct Options
  {
    PrintLevel printLevel;
    BooleanType enableRegularisation, enableEqualities;
    int numRegularisationSteps;
    real_t terminationTolerance, boundTolerance;
    Options() { setToDefault(); }
    returnValue setToDefault()
    {
      printLevel = PL_MEDIUM;
      enableRegularisation = enableEqualities = BT_FALSE;
      numRegularisationSteps = 0;
      terminationTolerance = boundTolerance = 0;
      return SUCCESSFUL_RETURN;
    }
    returnValue setToMPC() { return setToDefault(); }
    returnValue setToReliable() { return setToDefault(); }
    returnValue setToFast() { return setToDefault(); }
  };

  class QProblem
  {
  public:
    QProblem(int nV, int nC, HessianType = HST_UNKNOWN)
      : nV_(nV), nC_(nC), initialised_(false), solved_(false), infeasible_(false), value_(0),
        H_(nV * nV, 0.0), A_(nC * nV, 0.0), x_(nV, 0.0) {}
    void setPrintLevel(PrintLevel l) { options_.printLevel = l; }
    PrintLevel getPrintLevel() const { return options_.printLevel; }
    returnValue setOptions(const Options& o) { options_ = o; return SUCCESSFUL_RETURN; }
    Options getOptions() const { return options_; }
    returnValue reset() { initialised_ = solved_ = infeasible_ = false; return SUCCESSFUL_RETURN; }
    int getNV() const { return nV_; }
    int getNC() const { return nC_; }
    BooleanType isInitialised() const { return initialised_ ? BT_TRUE : BT_FALSE; }
    BooleanType isSolved() const { return solved_ ? BT_TRUE : BT_FALSE; }
    BooleanType isInfeasible() const { return infeasible_ ? BT_TRUE : BT_FALSE; }
    BooleanType isUnbounded() const { return BT_FALSE; }
    real_t getObjVal() const { return static_cast<real_t>(value_); }

    returnValue init(const real_t* H, const real_t* g, const real_t* A,
                     const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA,
                     int& nWSR, real_t* = 0)
    {
      H_.assign(H, H + nV_ * nV_);
      A_.assign(A, A + nC_ * nV_);
      initialised_ = true;
      ++mpcv::solverLog().inits;
      mpcv::solverLog().lastWasHotstart = false;
      return run(g, lb, ub, lbA, ubA, nWSR, RET_INIT_FAILED_INFEASIBILITY);
    }

    returnValue hotstart(const real_t* g, const real_t* lb, const real_t* ub,
                         const real_t* lbA, const real_t* ubA, int& nWSR, real_t* = 0)
    {
      if (!initialised_) return RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED;
      ++mpcv::solverLog().hotstarts;
      mpcv::solverLog().lastWasHotstart = true;
      return run(g, lb, ub, lbA, ubA, nWSR, RET_HOTSTART_STOPPED_INFEASIBILITY);
    }

    returnValue getPrimalSolution(real_t* x) const
    {
      for (int i = 0; i < nV_; ++i) x[i] = static_cast<real_t>(x_[i]);
      return SUCCESSFUL_RETURN;
    }

  private:
    returnValue run(const real_t* g, const real_t* lb, const real_t* ub,
                    const real_t* lbA, const real_t* ubA, int& nWSR, returnValue infeasible)
    {
      mpcv::SolverLog& log = mpcv::solverLog();
      log.lastNbVar = nV_;
      log.lastNbCtr = nC_;
      std::vector<double> vg(g, g + nV_), vlb(lb, lb + nV_), vub(ub, ub + nV_),
          vlbA(lbA, lbA + nC_), vubA(ubA, ubA + nC_);
      log.lastMaxIterations = nWSR;
      if (log.record)
      {
        log.H = H_; log.A = A_; log.g = vg; log.lb = vlb; log.ub = vub; log.lbA = vlbA;
        log.ubA = vubA;
      }
      int s = mpcv::answerQp(nV_, nC_, H_.data(), vg.data(), A_.data(), vlb.data(), vub.data(),
                             vlbA.data(), vubA.data(), nWSR, x_.data());
      nWSR = 1;
      solved_ = s == 0 && log.forceFailures == 0;
      infeasible_ = s == 1;
      value_ = 0;
      for (int i = 0; i < nV_; ++i)
      {
        value_ += vg[i] * x_[i];
        for (int j = 0; j < nV_; ++j) value_ += x_[i] * H_[i * nV_ + j] * x_[j] / 2;
      }
      if (log.forceFailures > 0) { --log.forceFailures; ++log.failures; return RET_QP_NOT_SOLVED; }
      if (s == 0) return SUCCESSFUL_RETURN;
      ++log.failures;
      if (s == 1) return infeasible;
      ++log.troubles;
      return RET_MAX_NWSR_REACHED;
    }

    int nV_, nC_;
    bool initialised_, solved_, infeasible_;
    double value_;
    Options options_;
    std::vector<double> H_, A_;
    std::vector<double> x_;
  };
  }
}
