// What a demonstration of the whole generators needs: a solver for the library to use.
// lastQp<double>() is the problem it was last given.
#pragma once
#include <mpc-walkgen/qpsolverfactory.h>
#include <cstdio>
// Dense strictly convex quadratic programming by the dual active-set method of Goldfarb and
// Idnani, written for this harness.  It plays two roles: it answers for qpOASES (which is not
// available here) behind the repository's solver wrapper, and it solves the independently
// formulated problems of the generator properties.  Every answer is checked against the
// optimality conditions before it is used.
//
//   minimise 1/2 x'Qx + p'x   subject to  xl <= x <= xu,  bl <= A x <= bu
#include <Eigen/Core>
#include <cmath>
#include <limits>
#include <vector>

namespace mpcv
{
  namespace qp
  {
    typedef long double R;
    typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> Mat;
    typedef Eigen::Matrix<R, Eigen::Dynamic, 1> Vec;

    struct Problem
    {
      Mat Q; Vec p; Vec xl, xu; Mat A; Vec bl, bu;
    };
    enum Status { Optimal, Infeasible, Trouble };
    struct Solution
    {
      Status status;
      Vec x;
      R objective;
      int nbActive;      // active constraints at the solution
      int iterations;
    };
    const R kInf = 5e10L;   // bounds at least that big are absent

    inline R objective(const Problem& q, const Vec& x)
    { return x.dot(q.Q * x) / 2 + q.p.dot(x); }

    /// Largest violation of a constraint, relative to the size of its terms.
    inline R violation(const Problem& q, const Vec& x)
    {
      R worst = 0;
      for (int i = 0; i < x.size(); ++i)
      {
        R s = 1 + std::abs(x(i));
        if (q.xl(i) > -kInf) worst = std::max(worst, (q.xl(i) - x(i)) / s);
        if (q.xu(i) < kInf) worst = std::max(worst, (x(i) - q.xu(i)) / s);
      }
      for (int i = 0; i < q.A.rows(); ++i)
      {
        R v = q.A.row(i).dot(x);
        R s = q.A.row(i).cwiseAbs().dot(x.cwiseAbs()) + q.A.row(i).norm();
        if (!(s > 0)) s = 1;
        if (q.bl(i) > -kInf) worst = std::max(worst, (q.bl(i) - v) / s);
        if (q.bu(i) < kInf) worst = std::max(worst, (v - q.bu(i)) / s);
      }
      return worst;
    }

    Solution solve(const Problem& q, int maxIterations = 2000);
  }
}
#include <Eigen/Cholesky>
#include <Eigen/QR>

namespace mpcv
{
  namespace qp
  {
    Solution solve(const Problem& q, int maxIterations)
    {
      Solution out;
      out.status = Trouble;
      out.nbActive = 0;
      out.iterations = 0;
      out.objective = 0;
      const int n = static_cast<int>(q.p.size());
      const int m = static_cast<int>(q.A.rows());
      out.x = Vec::Zero(n);
      if (n == 0) { out.status = Optimal; return out; }
      Mat H = (q.Q + q.Q.transpose()) / 2;
      Eigen::LLT<Mat> llt(H);
      R reg = H.diagonal().cwiseAbs().maxCoeff() * 1e-15L;
      if (!(reg > 0)) reg = 1e-12L;
      for (int k = 0; llt.info() != Eigen::Success && k < 14; ++k)
      {
        llt.compute(H + reg * Mat::Identity(n, n));
        reg *= 10;
      }
      if (llt.info() != Eigen::Success) return out;
      // y = L' x, so that the objective becomes 1/2 |y - y0|^2
      auto L = llt.matrixL();
      Vec y = -L.solve(q.p);

      struct Row { Vec c; R d; bool eq; bool dead; };
      std::vector<Row> rows;
      auto add = [&](const Vec& c, R d, bool eq)
      {
        Row r;
        r.c = L.solve(c);
        R nrm = r.c.norm();
        r.eq = eq;
        r.dead = !(nrm > 0);
        if (!r.dead) { r.c /= nrm; r.d = d / nrm; }
        else r.d = d;
        rows.push_back(r);
      };
      auto addTwo = [&](const Vec& c, R lo, R hi)
      {
        if (lo > -kInf && hi < kInf && lo == hi) { add(c, lo, true); return; }
        if (lo > -kInf) add(c, lo, false);
        if (hi < kInf) add(-c, -hi, false);
      };
      for (int i = 0; i < n; ++i)
        if (q.xl(i) > -kInf || q.xu(i) < kInf) addTwo(Vec::Unit(n, i), q.xl(i), q.xu(i));
      for (int i = 0; i < m; ++i)
        if (q.bl(i) > -kInf || q.bu(i) < kInf)
          addTwo(q.A.row(i).transpose(), q.bl(i), q.bu(i));
      for (const Row& r : rows)
        if (r.dead && (r.eq ? std::abs(r.d) > 1e-9L : r.d > 1e-9L))
        { out.status = Infeasible; out.x = llt.matrixU().solve(y); return out; }

      std::vector<int> active;
      std::vector<R> u;
      std::vector<char> isActive(rows.size(), 0), skipped(rows.size(), 0);
      std::size_t nextEq = 0;
      int it = 0;
      for (;;)
      {
        if (++it > maxIterations) { out.iterations = it; return out; }
        // choose the constraint to add: equalities first, then the most violated one
        int p = -1;
        R worst = 0;
        while (nextEq < rows.size())
        {
          if (rows[nextEq].eq && !rows[nextEq].dead && !isActive[nextEq] && !skipped[nextEq])
          { p = static_cast<int>(nextEq); break; }
          ++nextEq;
        }
        const R ynorm = y.norm();
        if (p < 0)
        {
          for (std::size_t i = 0; i < rows.size(); ++i)
          {
            if (rows[i].eq || rows[i].dead || isActive[i]) continue;
            R s = rows[i].c.dot(y) - rows[i].d;
            R tol = 1e-14L * (1e-3L + std::abs(rows[i].d) + ynorm);
            if (s < -tol && s < worst) { worst = s; p = static_cast<int>(i); }
          }
          if (p < 0) break;
        }
        Vec np = rows[p].c;
        R dp = rows[p].d;
        R up = 0;
        bool done = false;
        while (!done)
        {
          if (++it > maxIterations) { out.iterations = it; return out; }
          R s = np.dot(y) - dp;
          if (rows[p].eq && s > 0) { np = -np; dp = -dp; s = -s; rows[p].c = np; rows[p].d = dp; }
          const int k = static_cast<int>(active.size());
          Vec z = np, r;
          if (k > 0)
          {
            Mat N(n, k);
            for (int i = 0; i < k; ++i) N.col(i) = rows[active[i]].c;
            Eigen::HouseholderQR<Mat> qr(N);
            Vec qt = qr.householderQ().transpose() * np;
            r = qr.matrixQR().topLeftCorner(k, k).template triangularView<Eigen::Upper>()
                    .solve(qt.head(k));
            Vec tail = qt;
            tail.head(k).setZero();
            z = qr.householderQ() * tail;
          }
          const R zn = z.squaredNorm();
          const bool dependent = !(zn > 1e-24L) || k >= n;
          R t1 = std::numeric_limits<R>::infinity();
          int drop = -1;
          for (int i = 0; i < k; ++i)
            if (!rows[active[i]].eq && r(i) > 1e-16L)
            {
              R t = u[i] / r(i);
              if (t < t1) { t1 = t; drop = i; }
            }
          R t2 = dependent ? std::numeric_limits<R>::infinity() : -s / zn;
          if (dependent && rows[p].eq && std::abs(s) <= 1e-12L * (1e-3L + std::abs(dp) + ynorm))
          { skipped[p] = 1; break; }
          if (dependent && drop < 0)
          {
            if (std::abs(s) <= 1e-12L * (1e-3L + std::abs(dp) + ynorm))
            { rows[p].dead = true; break; }   // satisfied to rounding, redundant
            out.status = Infeasible;
            out.x = llt.matrixU().solve(y);
            out.iterations = it;
            return out;
          }
          R t = std::min(t1, t2);
          for (int i = 0; i < k; ++i) u[i] -= t * r(i);
          up += t;
          if (!dependent) y += t * z;
          if (t2 <= t1)
          {
            active.push_back(p);
            u.push_back(up);
            isActive[p] = 1;
            done = true;
          }
          else
          {
            isActive[active[drop]] = 0;
            active.erase(active.begin() + drop);
            u.erase(u.begin() + drop);
          }
        }
      }
      out.x = llt.matrixU().solve(y);
      out.iterations = it;
      out.nbActive = static_cast<int>(active.size());
      out.objective = objective(q, out.x);
      // optimality conditions: y - y0 is the combination of the active normals
      Vec grad = y + L.solve(q.p);
      for (std::size_t i = 0; i < active.size(); ++i) grad -= u[i] * rows[active[i]].c;
      R unorm = 0;
      for (R v : u) { unorm += std::abs(v); if (v < 0) {} }
      bool ok = grad.norm() <= 1e-9L * (1 + y.norm() + unorm);
      for (std::size_t i = 0; i < active.size(); ++i)
        if (!rows[active[i]].eq && u[i] < -1e-9L * (1 + unorm)) ok = false;
      for (const Row& r : rows)
        if (!r.dead)
        {
          R s = r.c.dot(y) - r.d;
          R tol = 1e-9L * (1e-3L + std::abs(r.d) + y.norm());
          if (s < -tol || (r.eq && s > tol)) ok = false;
        }
      for (int i = 0; i < n; ++i) if (!std::isfinite(static_cast<double>(out.x(i)))) ok = false;
      out.status = ok ? Optimal : Trouble;
      return out;
    }
  }
}

template <typename S> MPCWalkgen::QPMatrices<S>& lastQp() { static MPCWalkgen::QPMatrices<S> m; return m; }
template <typename S> struct DemoSolver : public MPCWalkgen::QPSolver<S>
{
  int v_, c_;
  DemoSolver(int v, int c) : v_(v), c_(c) {}
  virtual bool solve(const MPCWalkgen::QPMatrices<S>& m, int n,
                     typename MPCWalkgen::QPMatrices<S>::VectorX& sol, bool, std::ostream*)
  {
    lastQp<S>() = m;
    mpcv::qp::Problem q;
    typedef mpcv::qp::R R;
    q.Q = m.Q.template cast<R>(); q.p = m.p.template cast<R>(); q.A = m.A.template cast<R>();
    q.xl = m.xl.template cast<R>(); q.xu = m.xu.template cast<R>();
    q.bl = m.bl.template cast<R>(); q.bu = m.bu.template cast<R>();
    const mpcv::qp::Solution s = mpcv::qp::solve(q, n);
    sol = s.x.template cast<S>();
    return s.status == mpcv::qp::Optimal;
  }
  virtual int getNbVar() const { return v_; }
  virtual int getNbCtr() const { return c_; }
};
namespace MPCWalkgen
{
  template <> QPSolver<double>* makeQPSolver<double>(int v, int c) { return new DemoSolver<double>(v, c); }
  template <> QPSolver<float>* makeQPSolver<float>(int v, int c) { return new DemoSolver<float>(v, c); }
}
