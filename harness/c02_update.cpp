// C02: state updates are exact, composable and agree with the predictions.
#include "models_common.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  /// Size of the terms of an update, for the rounding tolerance.
  struct Size
  {
    R p, v, a;
    static Size of(const Kin& k, R jerk, R dt)
    {
      Kin b(std::abs(k.p), std::abs(k.v), std::abs(k.a));
      b = b.after(std::abs(jerk), dt);
      return Size{b.p, b.v, b.a};
    }
  };
  template <typename S, typename V>
  void same(Ctx& c, const V& got, const Kin& want, const Size& s, R k, const std::string& what)
  {
    c.check(got.size() == 3, what + ": the state has the wrong size");
    c.near(got(0), want.p, k * eps<S>() * s.p + 1e-30L, what + ": position");
    c.near(got(1), want.v, k * eps<S>() * s.v + 1e-30L, what + ": velocity");
    c.near(got(2), want.a, k * eps<S>() * s.a + 1e-30L, what + ": acceleration");
  }
  template <typename S> S genPeriod(Ctx& c) { return static_cast<S>(c.logReal(0.001, 2)); }
}

TYPED_LAW(one_update_is_the_exact_motion,
          "a random state, jerk and period on a pendulum, base and one-dimensional model, along a "
          "random axis, with and without a split in two; non-trivial: non-zero jerk and state",
          20000, 400000)
{
  const Scalar dt = genPeriod<Scalar>(c);
  const Scalar jerk = genVec<Scalar>(c, 1, -40, 40)(0);
  const VX<Scalar> s = genState<Scalar>(c), other = genState<Scalar>(c);
  const Kin k = Kin::of(s);
  const Kin after = k.after(jerk, dt);
  const Size size = Size::of(k, jerk, dt);
  c.nontrivial(jerk != 0 && !s.isZero(0));
  c.note("state=", show(toVec(s)), " jerk=", jerk, " period=", dt);

  VX<Scalar> raw = s;
  Tools::ConstantJerkDynamic<Scalar>::updateState(jerk, dt, raw);
  same<Scalar>(c, raw, after, size, 12, "bare update");

  const int axis = c.below(3);
  LIPModel<Scalar> lip(2, 1, true);
  BaseModel<Scalar> base(2, 1, true);
  NoDynamicModel<Scalar> plain(2, 1, true);
  plain.setState(s);
  plain.updateState(jerk, dt);
  same<Scalar>(c, plain.getState(), after, size, 12, "one-dimensional model");
  lip.setStateX(axis == 0 ? s : other);
  lip.setStateY(axis == 1 ? s : other);
  lip.setStateYaw(axis == 2 ? s : other);
  const VX<Scalar> z = lip.getStateZ();
  if (axis == 0) lip.updateStateX(jerk, dt);
  if (axis == 1) lip.updateStateY(jerk, dt);
  if (axis == 2) lip.updateStateYaw(jerk, dt);
  same<Scalar>(c, axis == 0 ? lip.getStateX() : axis == 1 ? lip.getStateY() : lip.getStateYaw(),
               after, size, 12, "pendulum");
  if (axis != 0) c.check(lip.getStateX() == other, "the pendulum's x state changed");
  if (axis != 1) c.check(lip.getStateY() == other, "the pendulum's y state changed");
  if (axis != 2) c.check(lip.getStateYaw() == other, "the pendulum's yaw state changed");
  c.check(lip.getStateZ() == z, "the pendulum's height changed");
  if (axis < 2)
  {
    base.setStateX(axis == 0 ? s : other);
    base.setStateY(axis == 1 ? s : other);
    if (axis == 0) base.updateStateX(jerk, dt);
    else base.updateStateY(jerk, dt);
    same<Scalar>(c, axis == 0 ? base.getStateX() : base.getStateY(), after, size, 12, "base");
    c.check((axis == 0 ? base.getStateY() : base.getStateX()) == other,
            "the base's other axis changed");
  }

  // in two steps
  const Scalar t1 = dt * static_cast<Scalar>(c.integer(1, 9)) / 10;
  const Scalar t2 = dt - t1;
  if (t2 > 0)
  {
    VX<Scalar> two = s;
    Tools::ConstantJerkDynamic<Scalar>::updateState(jerk, t1, two);
    Tools::ConstantJerkDynamic<Scalar>::updateState(jerk, t2, two);
    same<Scalar>(c, two, after, size, 30, "two updates instead of one");
  }
}

TYPED_LAW(update_is_the_first_predicted_sample,
          "a pendulum with several feedback periods per sample, a base and a one-dimensional "
          "model: the state after an update equals the first sample predicted for that jerk; then "
          "the whole horizon is executed and compared sample by sample; non-trivial: several "
          "samples and feedback periods and a non-zero jerk", 3000, 60000)
{
  const int N = c.integer(1, 10), k = c.integer(1, 6);
  const Scalar fb = static_cast<Scalar>(c.logReal(0.005, 0.2));
  const Scalar T = fb * static_cast<Scalar>(k);
  LIPModel<Scalar> lip(N, T, true);
  lip.setFeedbackPeriod(fb);
  BaseModel<Scalar> base(N, T, true);
  NoDynamicModel<Scalar> plain(N, T, true);
  const VX<Scalar> sx = genState<Scalar>(c), sy = genState<Scalar>(c);
  const VX<Scalar> j = genVec<Scalar>(c, N, -30, 30);
  const int i = c.below(k);
  const R S = (i + 1) * static_cast<R>(fb);
  c.nontrivial(N > 1 && k > 1 && !j.isZero(0));
  c.note("N=", N, " T=", T, " feedback=T/", k, " offset=", i, " jerk=", show(toVec(j)));
  lip.setStateX(sx); lip.setStateY(sy);
  base.setStateX(sx); base.setStateY(sy);
  plain.setState(sx);
  const Vec J = toVec(j), X = toVec(sx), Y = toVec(sy);
  const LinearDynamic<Scalar>& p = lip.getComPosLinearDynamic(i);
  const LinearDynamic<Scalar>& v = lip.getComVelLinearDynamic(i);
  const LinearDynamic<Scalar>& a = lip.getComAccLinearDynamic(i);
  Vec px = toMat(p.U) * J + toMat(p.S) * X, vx = toMat(v.U) * J + toMat(v.S) * X,
      ax = toMat(a.U) * J + toMat(a.S) * X;
  Vec py = toMat(p.U) * J + toMat(p.S) * Y;
  Size size = {0, 0, 0};
  size.p = predictionScale(Pos, J, X.cwiseAbs() + Y.cwiseAbs(), N, S, T);
  size.v = predictionScale(Vel, J, X, N, S, T);
  size.a = predictionScale(Acc, J, X, N, S, T);
  for (int n = 0; n < N; ++n)
  {
    lip.updateStateX(j(n), n == 0 ? static_cast<Scalar>(S) : T);
    lip.updateStateY(j(n), n == 0 ? static_cast<Scalar>(S) : T);
    same<Scalar>(c, lip.getStateX(), Kin(px(n), vx(n), ax(n)), size, 60 * N,
                 "pendulum, sample " + std::to_string(n));
    c.near(lip.getStateY()(0), py(n), 60 * N * eps<Scalar>() * size.p + 1e-30L, "pendulum, y");
  }
  Vec bx = toMat(base.getBasePosLinearDynamic().U) * J + toMat(base.getBasePosLinearDynamic().S) * X;
  Vec bv = toMat(base.getBaseVelLinearDynamic().U) * J + toMat(base.getBaseVelLinearDynamic().S) * X;
  Vec ba = toMat(base.getBaseAccLinearDynamic().U) * J + toMat(base.getBaseAccLinearDynamic().S) * X;
  Vec qx = toMat(plain.getPosLinearDynamic().U) * J + toMat(plain.getPosLinearDynamic().S) * X;
  Vec qv = toMat(plain.getVelLinearDynamic().U) * J + toMat(plain.getVelLinearDynamic().S) * X;
  Vec qa = toMat(plain.getAccLinearDynamic().U) * J + toMat(plain.getAccLinearDynamic().S) * X;
  size.p = predictionScale(Pos, J, X.cwiseAbs() + Y.cwiseAbs(), N, T, T);
  size.v = predictionScale(Vel, J, X, N, T, T);
  size.a = predictionScale(Acc, J, X, N, T, T);
  for (int n = 0; n < N; ++n)
  {
    base.updateStateX(j(n), T);
    base.updateStateY(j(n), T);
    plain.updateState(j(n), T);
    same<Scalar>(c, base.getStateX(), Kin(bx(n), bv(n), ba(n)), size, 60 * N, "base");
    same<Scalar>(c, plain.getState(), Kin(qx(n), qv(n), qa(n)), size, 60 * N, "one-dimensional");
  }
}

TYPED_LAW(histories_of_updates,
          "a random history of state assignments and updates along all axes of the three models, "
          "compared after each call with the integrated motion; non-trivial: at least 4 updates",
          3000, 60000)
{
  LIPModel<Scalar> lip(3, static_cast<Scalar>(0.1), true);
  BaseModel<Scalar> base(3, static_cast<Scalar>(0.1), true);
  NoDynamicModel<Scalar> plain(3, static_cast<Scalar>(0.1), true);
  Kin k[6];
  R err[6][3] = {};
  int updates = 0;
  const int n = c.integer(1, 14);
  for (int i = 0; i < n; ++i)
  {
    const int w = c.below(6);
    if (c.chance(1, 4))
    {
      VX<Scalar> s = genState<Scalar>(c);
      k[w] = Kin::of(s);
      err[w][0] = err[w][1] = err[w][2] = 0;
      if (w == 0) lip.setStateX(s);
      if (w == 1) lip.setStateY(s);
      if (w == 2) lip.setStateYaw(s);
      if (w == 3) base.setStateX(s);
      if (w == 4) base.setStateY(s);
      if (w == 5) plain.setState(s);
      c.note("set ", w, " ", show(toVec(s)));
    }
    else
    {
      const Scalar dt = genPeriod<Scalar>(c), jerk = genVec<Scalar>(c, 1, -40, 40)(0);
      ++updates;
      // propagate the rounding done so far along with the motion
      const Size s = Size::of(k[w], jerk, dt);
      const Kin e = Kin(err[w][0], err[w][1], err[w][2]).after(0, dt);
      err[w][0] = e.p + 12 * eps<Scalar>() * s.p;
      err[w][1] = e.v + 12 * eps<Scalar>() * s.v;
      err[w][2] = e.a + 12 * eps<Scalar>() * s.a;
      k[w] = k[w].after(jerk, dt);
      if (w == 0) lip.updateStateX(jerk, dt);
      if (w == 1) lip.updateStateY(jerk, dt);
      if (w == 2) lip.updateStateYaw(jerk, dt);
      if (w == 3) base.updateStateX(jerk, dt);
      if (w == 4) base.updateStateY(jerk, dt);
      if (w == 5) plain.updateState(jerk, dt);
      c.note("update ", w, " jerk=", jerk, " period=", dt);
    }
    const VX<Scalar>* got[6] = {&lip.getStateX(), &lip.getStateY(), &lip.getStateYaw(),
                                &base.getStateX(), &base.getStateY(), &plain.getState()};
    static const char* names[6] = {"pendulum x", "pendulum y", "pendulum yaw", "base x",
                                   "base y", "one-dimensional"};
    for (int m = 0; m < 6; ++m)
    {
      c.near((*got[m])(0), k[m].p, err[m][0] + 1e-30L, std::string(names[m]) + ": position");
      c.near((*got[m])(1), k[m].v, err[m][1] + 1e-30L, std::string(names[m]) + ": velocity");
      c.near((*got[m])(2), k[m].a, err[m][2] + 1e-30L, std::string(names[m]) + ": acceleration");
    }
  }
  c.nontrivial(updates >= 4);
}
