// C09: walking objectives' derivatives match the documented costs.
#include "humanoid_common.h"
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  Mat inverseLower(const Mat& U)
  {
    const int N = static_cast<int>(U.rows());
    Mat inv = Mat::Zero(N, N);
    for (int j = 0; j < N; ++j)
      for (int i = j; i < N; ++i)
      {
        R s = i == j ? 1 : 0;
        for (int k = j; k < i; ++k) s -= U(i, k) * inv(k, j);
        inv(i, j) = s / U(i, i);
      }
    return inv;
  }
  R rowSum(const Mat& m) { return m.cwiseAbs().rowwise().sum().maxCoeff(); }

  /// One axis of the cost 1/2 sum w (P(jerk) - ref)^2, where the jerk is the one that puts the
  /// CoP on  local + support foot.  P = 0: jerk, otherwise velocity.
  struct Axis
  {
    Mat J, Jerr;        // derivative of the residual by (local CoPs, steps), and its error
    Vec r, rerr;        // residual and its error
    Vec rabs;
    Mat Jabs;
  };
  Axis axis(bool velocity, const RefDynamic& cop, const RefDynamic& vel, const Mat& F,
            const Vec& x, R support, const Vec& onSupport, const Vec& state, const Vec& ref, R eps)
  {
    const int N = static_cast<int>(cop.U.rows());
    const Mat inv = inverseLower(cop.U);
    const Mat P = velocity ? vel.U : Mat::Identity(N, N);
    // what is known of the inverse kept by the code: rounding, and entries under 1e-4 are cut
    Mat D = Mat::Constant(N, N, 40 * N * eps * rowSum(cop.U) * rowSum(inv) *
                                    inv.cwiseAbs().maxCoeff());
    for (int i = 0; i < N; ++i)
      for (int j = 0; j <= i; ++j)
        if (std::abs(inv(i, j)) < 1.5e-4L) D(i, j) += std::abs(inv(i, j));
    Axis a;
    a.J = P * inv * F;
    a.Jabs = P.cwiseAbs() * inv.cwiseAbs() * F.cwiseAbs();
    a.Jerr = P.cwiseAbs() * D * F.cwiseAbs() + 20 * N * eps * a.Jabs;
    const Vec target = F * x + onSupport * support;
    const Vec drift = cop.S * state + cop.K;
    a.r = P * (inv * (target - drift));
    a.rabs = P.cwiseAbs() * (inv.cwiseAbs() * (F.cwiseAbs() * x.cwiseAbs() +
                                               onSupport * std::abs(support) +
                                               cop.S.cwiseAbs() * state.cwiseAbs() +
                                               cop.K.cwiseAbs()));
    a.rerr = P.cwiseAbs() * D * (F.cwiseAbs() * x.cwiseAbs() + onSupport * std::abs(support) +
                                 cop.S.cwiseAbs() * state.cwiseAbs() + cop.K.cwiseAbs());
    if (velocity)
    {
      a.r += vel.S * state - ref;
      a.rabs += vel.S.cwiseAbs() * state.cwiseAbs() + ref.cwiseAbs();
    }
    a.rerr += 20 * N * eps * a.rabs;
    return a;
  }

  template <typename S>
  void compare(Ctx& c, const VX<S>& g, const MX<S>& H, const Axis* ax, const Vec& W, int N, int M,
               R eps, const std::string& what)
  {
    const int n = 2 * N + 2 * M;
    c.check(g.size() == n && H.rows() == n && H.cols() == n, what + ": wrong size");
    auto at = [&](int o, int i)
    { return i < N ? o * N + i : 2 * N + o * M + i - N; };
    Mat Hr = Mat::Zero(n, n), He = Mat::Zero(n, n);
    Vec gr = Vec::Zero(n), ge = Vec::Zero(n);
    for (int o = 0; o < 2; ++o)
    {
      const Axis& a = ax[o];
      const Mat h = a.J.transpose() * W.asDiagonal() * a.J;
      const Mat wj = W.cwiseAbs().asDiagonal() * (a.Jabs + a.Jerr);
      const Mat hs = (a.Jabs + a.Jerr).transpose() * wj;
      const Mat he = a.Jerr.transpose() * wj + wj.transpose() * a.Jerr + 30 * N * eps * hs;
      const Vec gg = a.J.transpose() * (W.asDiagonal() * a.r);
      // the gradient is put together from a constant part and H x0
      const Vec gerr = a.Jerr.transpose() * (W.cwiseAbs().asDiagonal() * (a.rabs + a.rerr)) +
                       wj.transpose() * a.rerr +
                       60 * N * eps * (wj.transpose() * a.rabs);
      for (int i = 0; i < N + M; ++i)
      {
        gr(at(o, i)) = gg(i); ge(at(o, i)) = gerr(i);
        for (int j = 0; j < N + M; ++j)
        { Hr(at(o, i), at(o, j)) = h(i, j); He(at(o, i), at(o, j)) = he(i, j); }
      }
    }
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        c.near(H(i, j), Hr(i, j), 3 * He(i, j) + 1e-30L,
               what + ": Hessian (" + std::to_string(i) + "," + std::to_string(j) + ")");
    for (int i = 0; i < n; ++i)
      c.near(g(i), gr(i), 3 * ge(i) + 1e-30L, what + ": gradient [" + std::to_string(i) + "]");
  }
}

TYPED_LAW(derivatives_over_walks,
          "random walking histories with random pendulum height, gravity and states, references "
          "and candidate solutions; gradient and Hessian of the three objectives against the "
          "simulated costs at every cycle; non-trivial: at least one previewed step",
          5000, 100000)
{
  Walk<Scalar> w(c);
  const int N = w.sim.N;
  LIPModel<Scalar> lip(N, w.T, true);
  const R h = c.real(0.3, 1.2);
  V3<Scalar> g;
  g << 0, 0, static_cast<Scalar>(9.81);
  if (c.chance(1, 3)) g << static_cast<Scalar>(c.real(-2, 2)), static_cast<Scalar>(c.real(-2, 2)),
                          static_cast<Scalar>(c.real(5, 12));
  lip.setGravity(g);
  lip.setComHeight(static_cast<Scalar>(h));
  HumanoidLipComVelocityTrackingObjective<Scalar> vel(lip, *w.sup);
  HumanoidLipComJerkMinimizationObjective<Scalar> jerk(lip, *w.sup);
  HumanoidCopCenteringObjective<Scalar> centre(lip, *w.sup);
  Vec ref = Vec::Zero(2 * N);
  if (c.chance(3, 4)) w.setMove(true);
  const int cycles = c.integer(1, 40);
  bool steps = false;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    if (c.chance(1, 3))
    {
      VX<Scalar> v = genVec<Scalar>(c, 2 * N, -0.5, 0.5);
      vel.setVelRefInWorldFrame(v);
      ref = toVec(v);
    }
    w.beginCycle();
    if (lip.getFeedbackPeriod() != w.feedback()) lip.setFeedbackPeriod(w.feedback());
    w.plan(c);
    if (c.chance(1, 3))
    {
      const int M = w.sim.M;
      VX<Scalar> sx = genState<Scalar>(c, 1, 1, 2), sy = genState<Scalar>(c, 1, 1, 2);
      lip.setStateX(sx); lip.setStateY(sy);
      const VX<Scalar> x = w.variable;
      const R S = static_cast<R>(w.feedback()) * (w.sim.toNextSample / w.f);
      const R hh = lip.getComHeight();
      const CopParams cp[2] = {{hh, g(0), g(2), 1}, {hh, g(1), g(2), 1}};
      const RefDynamic dv = refDynamic(Vel, N, S, w.T);
      Vec W = Vec::Ones(N);
      const R first = R(w.sim.toNextSample) / w.k;
      W(0) = first; W(N - 1) = 1.05L - first;
      // the weights are judged by C06 up to rounding of the timers; take the code's here
      for (int s = 0; s < N; ++s)
      {
        c.near(w.sup->getSampleWeightMatrix()(s, s), W(s), 2e-5L, "weight");
        W(s) = w.sup->getSampleWeightMatrix()(s, s);
      }
      Mat F = Mat::Zero(N, N + M);
      Vec on = Vec::Zero(N);
      for (int s = 0; s < N; ++s)
      {
        F(s, s) = 1;
        if (w.sim.column[s] < 0) on(s) = 1;
        else F(s, N + w.sim.column[s]) = 1;
      }
      Axis av[2], aj[2];
      const R support[2] = {w.sup->getSupportFootStateX()(0), w.sup->getSupportFootStateY()(0)};
      bool ill = false;
      for (int o = 0; o < 2; ++o)
      {
        const RefDynamic dc = refDynamic(Cop, N, S, w.T, &cp[o]);
        const R cond = rowSum(dc.U) * rowSum(inverseLower(dc.U));
        ill = ill || 40 * N * eps<Scalar>() * cond > 0.1L;
        Vec xo(N + M);
        xo << toVec(x.segment(o * N, N)), toVec(x.segment(2 * N + o * M, M));
        const Vec st = o ? toVec(sy) : toVec(sx);
        av[o] = axis(true, dc, dv, F, xo, support[o], on, st, ref.segment(o * N, N), eps<Scalar>());
        aj[o] = axis(false, dc, dv, F, xo, support[o], on, st, Vec::Zero(N), eps<Scalar>());
      }
      const VX<Scalar> gc = centre.getGradient(x);
      const MX<Scalar> Hc = centre.getHessian();
      for (int a = 0; a < x.size(); ++a)
      {
        c.check(gc(a) == (a < 2 * N ? x(a) : 0), "centring: gradient");
        for (int b = 0; b < x.size(); ++b)
          c.check(Hc(a, b) == (a == b && a < 2 * N ? 1 : 0), "centring: Hessian");
      }
      if (ill) { c.label("too ill-conditioned"); }
      else
      {
        compare<Scalar>(c, vel.getGradient(x), vel.getHessian(), av, W, N, M, eps<Scalar>(),
                        "velocity tracking");
        compare<Scalar>(c, jerk.getGradient(x), jerk.getHessian(), aj, W, N, M, eps<Scalar>(),
                        "jerk minimisation");
        c.label("judged");
        if (M) steps = true;
      }
    }
    w.endCycle();
  }
  c.nontrivial(steps);
}
