// Independent reference models, in extended precision.
#pragma once
#include <Eigen/Core>
#include <Eigen/StdVector>
#include <string>
#include <vector>
#include "engine.h"
#include "qp.h"

namespace mpcv
{
  typedef long double R;
  typedef qp::Mat Mat;
  typedef qp::Vec Vec;

  /// Position, velocity and acceleration of a point driven by its jerk.
  struct Kin
  {
    R p, v, a;
    Kin() : p(0), v(0), a(0) {}
    Kin(R p_, R v_, R a_) : p(p_), v(v_), a(a_) {}
    template <typename V> static Kin of(const V& s)
    { return Kin(static_cast<R>(s(0)), static_cast<R>(s(1)), static_cast<R>(s(2))); }
    /// Exact motion under a constant jerk during dt.
    Kin after(R jerk, R dt) const
    {
      // integrate the acceleration, then the velocity, by Simpson's rule, which is exact for
      // polynomials of degree up to three
      Kin k;
      k.a = a + jerk * dt;
      const R am = a + jerk * dt / 2;
      k.v = v + dt / 6 * (a + 4 * am + k.a);
      const R h = dt / 2;
      const R aq = a + jerk * h / 2;
      const R vm = v + h / 6 * (a + 4 * aq + am);
      k.p = p + dt / 6 * (v + 4 * vm + k.v);
      return k;
    }
    /// Exact motion under a constant acceleration during dt (the acceleration is the control).
    Kin afterAcc(R acc, R dt) const
    {
      Kin k;
      k.a = acc;
      k.v = v + acc * dt;
      k.p = p + dt / 2 * (v + k.v);
      return k;
    }
  };

  /// The states reached at S, S+T, ... under the given jerks, the first applied during S.
  inline std::vector<Kin> simulate(Kin s, const Vec& jerk, R S, R T)
  {
    std::vector<Kin> out;
    for (int i = 0; i < jerk.size(); ++i)
    {
      s = s.after(jerk(i), i == 0 ? S : T);
      out.push_back(s);
    }
    return out;
  }

  enum Quantity { Pos, Vel, Acc, Cop };
  struct CopParams { R height, gravityXY, gravityZ, ratio; };

  inline R observe(const Kin& k, Quantity q, const CopParams* c = nullptr)
  {
    switch (q)
    {
      case Pos: return k.p;
      case Vel: return k.v;
      case Acc: return k.a;
      default: return c->ratio * (k.p - c->height * (k.a + c->gravityXY) / c->gravityZ);
    }
  }

  /// Y = U x + S s + K, recovered by simulating unit controls and unit states.
  struct RefDynamic { Mat U, S; Vec K; };
  inline RefDynamic refDynamic(Quantity q, int N, R S, R T, const CopParams* c = nullptr)
  {
    RefDynamic d;
    d.U = Mat::Zero(N, N);
    d.S = Mat::Zero(N, 3);
    d.K = Vec::Zero(N);
    std::vector<Kin> z = simulate(Kin(), Vec::Zero(N), S, T);
    for (int i = 0; i < N; ++i) d.K(i) = observe(z[i], q, c);
    for (int j = 0; j < N; ++j)
    {
      std::vector<Kin> s = simulate(Kin(), Vec::Unit(N, j), S, T);
      for (int i = 0; i < N; ++i) d.U(i, j) = observe(s[i], q, c) - d.K(i);
    }
    for (int j = 0; j < 3; ++j)
    {
      Kin u(j == 0, j == 1, j == 2);
      std::vector<Kin> s = simulate(u, Vec::Zero(N), S, T);
      for (int i = 0; i < N; ++i) d.S(i, j) = observe(s[i], q, c) - d.K(i);
    }
    return d;
  }

  template <typename Derived> Vec toVec(const Eigen::MatrixBase<Derived>& v)
  { return v.template cast<R>(); }
  template <typename Derived> Mat toMat(const Eigen::MatrixBase<Derived>& m)
  { return m.template cast<R>(); }

  template <typename Scalar> R eps() { return std::numeric_limits<Scalar>::epsilon(); }

  /// Componentwise |a - b| <= tol * scale
  inline void nearVec(Ctx& c, const Vec& a, const Vec& b, R tol, const std::string& what)
  {
    if (a.size() != b.size())
      c.fail(what + ": size " + std::to_string(a.size()) + ", expected " +
             std::to_string(b.size()));
    for (int i = 0; i < a.size(); ++i)
      if (!(std::abs(a(i) - b(i)) <= tol))
        c.fail(what + " [" + std::to_string(i) + "]: got " + str(a(i)) + ", expected " +
               str(b(i)) + " (tolerance " + str(tol) + ")");
  }
  inline void nearMat(Ctx& c, const Mat& a, const Mat& b, R tol, const std::string& what)
  {
    if (a.rows() != b.rows() || a.cols() != b.cols())
      c.fail(what + ": " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) +
             ", expected " + std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
    for (int i = 0; i < a.rows(); ++i)
      for (int j = 0; j < a.cols(); ++j)
        if (!(std::abs(a(i, j) - b(i, j)) <= tol))
          c.fail(what + " (" + std::to_string(i) + "," + std::to_string(j) + "): got " +
                 str(a(i, j)) + ", expected " + str(b(i, j)) + " (tolerance " + str(tol) + ")");
  }

  inline std::string show(const Vec& v)
  {
    std::string s = "[";
    for (int i = 0; i < v.size(); ++i) s += (i ? ", " : "") + str(v(i));
    return s + "]";
  }

  // ---- points and polygons ---------------------------------------------------
  struct P2 { R x, y; };
  inline R cross(const P2& o, const P2& a, const P2& b)
  { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
  /// Convex hull, counter-clockwise from the lowest, leftmost point, without collinear
  /// vertices (monotone chain).
  std::vector<P2> hull(std::vector<P2> pts);
  /// The largest signed distance to an edge line: <= 0 inside a counter-clockwise polygon.
  R outside(const std::vector<P2>& poly, const P2& q);
}
