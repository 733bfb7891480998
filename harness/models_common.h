// Generators and helpers shared by the properties of the motion models.
#pragma once
#include "engine.h"
#include "ref.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/tools.h>

namespace mpcv
{
  /// a new value of a setting: the fresh one or sometimes one that is hardly different from the old
  template <typename S, typename F> S nudge(Ctx& c, S old, const F& fresh)
  {
    if (old == 0 || !c.chance(1, 6)) return static_cast<S>(fresh());
    return old * (1 + static_cast<S>(c.logReal(1e-6, 1e-2)));
  }
  /// a new gravity: a fresh one or sometimes one of which a single component changes
  template <typename S> Eigen::Matrix<S, 3, 1> nudgeGravity(Ctx& c, const Eigen::Matrix<S, 3, 1>& old,
                                                              const Eigen::Matrix<S, 3, 1>& fresh)
  {
    if (!c.chance(1, 3)) return fresh;
    Eigen::Matrix<S, 3, 1> g = old;
    const int i = c.below(3);
    g(i) = nudge(c, old(i), [&] { return fresh(i); });
    return g;
  }

  template <typename S> using VX = typename MPCWalkgen::Type<S>::VectorX;
  template <typename S> using MX = typename MPCWalkgen::Type<S>::MatrixX;
  template <typename S> using V2 = typename MPCWalkgen::Type<S>::Vector2;
  template <typename S> using V3 = typename MPCWalkgen::Type<S>::Vector3;
  template <typename S> using VV2 = typename MPCWalkgen::Type<S>::vectorOfVector2;
  template <typename S> using VV3 = typename MPCWalkgen::Type<S>::vectorOfVector3;

  /// factors for n values that belong together: now and then all of them are tiny, or some are
  inline std::vector<double> genScales(Ctx& c, int n)
  {
    std::vector<double> s(static_cast<std::size_t>(n), 1.0);
    const int mode = c.below(10);
    if (mode == 8) s.assign(s.size(), std::pow(10.0, -c.integer(1, 7)));
    if (mode == 9)
      for (std::size_t i = 0; i < s.size(); ++i) s[i] = std::pow(10.0, -c.integer(0, 7));
    return s;
  }
  template <typename S> VX<S> genVec(Ctx& c, int n, double lo, double hi)
  {
    VX<S> v(n);
    // only around zero: elsewhere a small factor would leave the range
    std::vector<double> k(static_cast<std::size_t>(n), 1.0);
    if (lo <= 0 && hi >= 0) k = genScales(c, n);
    for (int i = 0; i < n; ++i) v(i) = static_cast<S>(c.real(lo, hi) * k[i]);
    return v;
  }
  /// position, velocity, acceleration
  template <typename S> VX<S> genState(Ctx& c, double p = 5, double v = 3, double a = 5)
  {
    VX<S> s(3);
    const std::vector<double> k = genScales(c, 3);
    s(0) = static_cast<S>(c.real(-p, p) * k[0]);
    s(1) = static_cast<S>(c.real(-v, v) * k[1]);
    s(2) = static_cast<S>(c.real(-a, a) * k[2]);
    return s;
  }

  /// Size of the terms that make up a prediction, for the rounding tolerance.
  inline R predictionScale(Quantity q, const Vec& jerk, const Vec& state, int N, R S, R T,
                           const CopParams* cp = nullptr)
  {
    Kin k(std::abs(state(0)), std::abs(state(1)), std::abs(state(2)));
    std::vector<Kin> s = simulate(k, jerk.cwiseAbs(), S, T);
    R m = 0;
    for (const Kin& x : s)
    {
      R v = q == Pos ? x.p : q == Vel ? x.v : x.a;
      if (q == Cop)
        v = std::abs(cp->ratio) * (x.p + std::abs(cp->height / cp->gravityZ) *
                                             (x.a + std::abs(cp->gravityXY)));
      m = std::max(m, v);
    }
    return m;
  }

  /// Uinv is the inverse of the (lower triangular) U up to rounding and to the documented
  /// cut of its entries below 1e-4.
  template <typename S>
  void checkInverse(Ctx& c, const Mat& U, const Mat& Uinv, const Mat& UTinv,
                    const std::string& what)
  {
    const int N = static_cast<int>(U.rows());
    for (int i = 0; i < N; ++i)
      if (U(i, i) == 0) { c.label("not invertible"); return; }
    c.check(UTinv == Uinv.transpose(), what + ": UTinv is not the transpose of Uinv");
    Mat truth = Mat::Zero(N, N);
    for (int j = 0; j < N; ++j)
      for (int i = j; i < N; ++i)
      {
        R s = i == j ? 1 : 0;
        for (int k = j; k < i; ++k) s -= U(i, k) * truth(k, j);
        truth(i, j) = s / U(i, i);
      }
    const R cond = U.cwiseAbs().rowwise().sum().maxCoeff() *
                   truth.cwiseAbs().rowwise().sum().maxCoeff();
    const R tol = 40 * N * eps<S>() * cond + 1.01e-4L * U.cwiseAbs().rowwise().sum().maxCoeff();
    if (!(40 * N * eps<S>() * cond < 0.1L) || !(tol < 0.3L))
    { c.label("inverse too ill-conditioned to judge"); return; }
    c.label("inverse judged");
    nearMat(c, U * Uinv, Mat::Identity(N, N), tol, what + ": U Uinv");
  }

  /// The linear dynamic predicts what the simulation gives; its transposes agree.
  template <typename S>
  void checkDynamic(Ctx& c, const MPCWalkgen::LinearDynamic<S>& d, Quantity q, int N, R first,
                    R T, const Vec& state, const Vec& jerk, const std::string& what,
                    const CopParams* cp = nullptr, bool inverse = true)
  {
    c.check(d.U.rows() == N && d.U.cols() == N, what + ": U has the wrong size");
    c.check(d.S.rows() == N && d.S.cols() == 3, what + ": S has the wrong size");
    c.check(d.K.size() == N, what + ": K has the wrong size");
    Vec y = toMat(d.U) * jerk + toMat(d.S) * state + toVec(d.K);
    std::vector<Kin> sim = simulate(Kin::of(state), jerk, first, T);
    Vec expect(N);
    for (int i = 0; i < N; ++i) expect(i) = observe(sim[i], q, cp);
    R scale = predictionScale(q, jerk, state, N, first, T, cp);
    nearVec(c, y, expect, 40 * eps<S>() * scale + 1e-30L, what + ": predicted value");
    c.check(toMat(d.UT) == toMat(d.U).transpose(), what + ": UT is not the transpose of U");
    for (int i = 0; i < N; ++i)
      for (int j = i + 1; j < N; ++j)
        c.check(d.U(i, j) == 0, what + ": a prediction depends on a later control");
    if (q != Cop)
      c.check(d.K.isZero(0), what + ": the constant part is not zero");
    if (!inverse) return;
    if (d.Uinv.rows() != N || d.Uinv.cols() != N) c.fail(what + ": Uinv has the wrong size");
    checkInverse<S>(c, toMat(d.U), toMat(d.Uinv), toMat(d.UTinv), what);
  }
}
