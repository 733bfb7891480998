// C03: a model depends on its current parameters, not on how they were reached.
#include "humanoid_common.h"
#include <memory>
#include <mpc-walkgen/model/humanoid_foot_model.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> V3<S> genGravity(Ctx& c)
  {
    V3<S> g;
    g << static_cast<S>(c.real(-4, 4)), static_cast<S>(c.real(-4, 4)),
        static_cast<S>(c.logReal(1, 20)) * (c.chance(1, 4) ? -1 : 1);
    return g;
  }
  template <typename S> ConvexPolygon<S> smallPolygon(Ctx& c)
  {
    VV2<S> p;
    const int n = c.integer(3, 6);
    for (int i = 0; i < n; ++i)
    {
      V2<S> v;
      v << static_cast<S>(c.below(9) * 0.05L), static_cast<S>(c.below(9) * 0.05L);
      p.push_back(v);
    }
    return ConvexPolygon<S>(p);
  }
  template <typename S> void parts(Ctx& c, const LinearDynamic<S>& a, const LinearDynamic<S>& b,
                                   const std::string& what)
  {
    const R t = 100 * eps<S>();
    nearMat(c, toMat(a.U), toMat(b.U), t * (1 + b.U.cwiseAbs().maxCoeff()), what + ": U");
    nearMat(c, toMat(a.UT), toMat(b.UT), t * (1 + b.UT.cwiseAbs().maxCoeff()), what + ": UT");
    nearMat(c, toMat(a.S), toMat(b.S), t * (1 + b.S.cwiseAbs().maxCoeff()), what + ": S");
    nearVec(c, toVec(a.K), toVec(b.K), t * (1 + b.K.cwiseAbs().maxCoeff()), what + ": K");
  }
}

TYPED_LAW(pendulum_settings,
          "a random history of parameter changes, state changes and recomputations of a pendulum, "
          "then every prediction against step-by-step integration with the final parameters; "
          "non-trivial: at least 3 changes of at least 2 kinds", 4000, 80000)
{
  const bool automatic = c.chance(2, 3);
  struct { int N; Scalar T, fb, h, mass, total; V3<Scalar> g; } p;
  const bool byDefault = automatic && c.flip();
  if (byDefault) { p.N = 1; p.T = 1; }
  else { p.N = c.integer(1, 8); p.T = static_cast<Scalar>(c.logReal(0.02, 1)); }
  p.fb = p.T; p.h = 1; p.mass = 1; p.total = 1; p.g << 0, 0, static_cast<Scalar>(9.81);
  std::unique_ptr<LIPModel<Scalar> > model(byDefault ? new LIPModel<Scalar>()
                                           : new LIPModel<Scalar>(p.N, p.T, automatic));
  LIPModel<Scalar>& m = *model;
  VX<Scalar> sx = VX<Scalar>::Zero(3), sy = sx;
  Scalar z = 1;
  int kinds = 0, seen = 0, k = 1;
  const int n = c.integer(0, 12);
  c.note(automatic ? "automatic" : "manual", " N=", p.N, " T=", p.T);
  for (int i = 0; i < n; ++i)
  {
    const int op = c.below(9);
    if (!(seen & (1 << op))) { seen |= 1 << op; ++kinds; }
    switch (op)
    {
      case 0: p.N = c.integer(1, 8); m.setNbSamples(p.N); c.note("N=", p.N); break;
      case 1: p.T = nudge<Scalar>(c, p.T, [&] { return c.logReal(0.02, 1); }); p.fb = p.T; k = 1;
        m.setSamplingPeriod(p.T); c.note("T=", p.T); break;
      case 2:
        k = c.integer(1, 6);
        // what the model predicts does not depend on whether the cycles fill the sample
        p.fb = c.chance(1, 4) ? p.T / static_cast<Scalar>(k + c.real(0.1, 0.9))
                              : p.T / static_cast<Scalar>(k);
        m.setFeedbackPeriod(p.fb); c.note("feedback=", p.fb); break;
      case 3: p.h = nudge<Scalar>(c, p.h, [&] { return c.real(0.05, 2); }); z = p.h; m.setComHeight(p.h);
        c.note("height=", p.h); break;
      case 4: p.g = nudgeGravity<Scalar>(c, p.g, genGravity<Scalar>(c)); m.setGravity(p.g);
        c.note("gravity=", show(toVec(p.g))); break;
      case 5: p.mass = c.chance(1, 10) ? 0 : std::min(p.total, nudge<Scalar>(c, p.mass, [&]
                                                                 { return p.total * c.real(0.05, 1); }));
        m.setMass(p.mass);
        c.note("mass=", p.mass); break;
      case 6: p.total = nudge<Scalar>(c, p.total, [&] { return p.mass > 0 ? p.mass * c.real(1, 4)
                                                                        : c.logReal(0.1, 60); });
        m.setTotalMass(p.total);
        c.note("total mass=", p.total); break;
      case 7: sx = genState<Scalar>(c); m.setStateX(sx); break;
      default: sy = genState<Scalar>(c); m.setStateY(sy); break;
    }
    if (!automatic && c.chance(1, 4)) m.computeDynamics();
  }
  c.nontrivial(n >= 3 && kinds >= 2);
  c.label(p.fb < p.T, "several feedback periods per sample");
  if (!automatic) m.computeDynamics();
  c.check(m.getNbSamples() == p.N && m.getSamplingPeriod() == p.T &&
          m.getFeedbackPeriod() == p.fb && m.getComHeight() == p.h && m.getGravity() == p.g &&
          m.getMass() == p.mass, "a getter is not up to date");
  c.check(m.getStateX() == sx && m.getStateY() == sy, "changing a parameter changed the state");
  c.check(m.getStateZ()(0) == z, "the height of the state is not the CoM height");
  const R ratio = static_cast<R>(p.mass) / p.total;
  const CopParams cx = {p.h, p.g(0), p.g(2), ratio}, cy = {p.h, p.g(1), p.g(2), ratio};
  const Vec J = toVec(genVec<Scalar>(c, p.N, -20, 20));
  const Vec x = toVec(sx), y = toVec(sy);
  for (int i = 0; i < k; ++i)
  {
    const R S = (i + 1) * static_cast<R>(p.fb);
    checkDynamic<Scalar>(c, m.getComPosLinearDynamic(i), Pos, p.N, S, p.T, x, J, "pos", nullptr, false);
    checkDynamic<Scalar>(c, m.getComVelLinearDynamic(i), Vel, p.N, S, p.T, x, J, "vel", nullptr, false);
    checkDynamic<Scalar>(c, m.getComAccLinearDynamic(i), Acc, p.N, S, p.T, x, J, "acc", nullptr, false);
    checkDynamic<Scalar>(c, m.getCopXLinearDynamic(i), Cop, p.N, S, p.T, x, J, "cop x", &cx);
    checkDynamic<Scalar>(c, m.getCopYLinearDynamic(i), Cop, p.N, S, p.T, y, J, "cop y", &cy);
  }
  if (std::abs(k * static_cast<R>(p.fb) - p.T) < 1e-5L * p.T)
    checkDynamic<Scalar>(c, m.getComVelLinearDynamic(), Vel, p.N, p.T, p.T, x, J, "vel", nullptr, false);
  c.check(m.getComJerkLinearDynamic().U.rows() == p.N, "the jerk prediction has a stale size");

  // every part, against a fresh model
  LIPModel<Scalar> f(p.N, p.T, false);
  if (p.total >= 1) { f.setTotalMass(p.total); f.setMass(p.mass); }
  else { f.setMass(p.mass); f.setTotalMass(p.total); }
  f.setGravity(p.g);
  f.setComHeight(p.h);
  f.setFeedbackPeriod(p.fb);
  f.computeDynamics();
  for (int i = 0; i < k; ++i)
  {
    parts(c, m.getComPosLinearDynamic(i), f.getComPosLinearDynamic(i), "fresh: position");
    parts(c, m.getComVelLinearDynamic(i), f.getComVelLinearDynamic(i), "fresh: velocity");
    parts(c, m.getComAccLinearDynamic(i), f.getComAccLinearDynamic(i), "fresh: acceleration");
    parts(c, m.getCopXLinearDynamic(i), f.getCopXLinearDynamic(i), "fresh: CoP x");
    parts(c, m.getCopYLinearDynamic(i), f.getCopYLinearDynamic(i), "fresh: CoP y");
  }
}

TYPED_LAW(base_settings,
          "a random history of parameter changes of a base, then every prediction against "
          "step-by-step integration with the final parameters; non-trivial: at least 3 changes of "
          "at least 2 kinds", 4000, 80000)
{
  const bool automatic = c.chance(2, 3);
  struct { int N; Scalar T, h, mass, total, v, a, j, tx, ty; V3<Scalar> g; } p;
  const bool byDefault = automatic && c.flip();
  if (byDefault) { p.N = 1; p.T = 1; }
  else { p.N = c.integer(1, 8); p.T = static_cast<Scalar>(c.logReal(0.02, 1)); }
  p.h = 0; p.mass = 0; p.total = 1; p.g << 0, 0, static_cast<Scalar>(9.81);
  p.v = p.a = p.j = 1; p.tx = p.ty = 0;
  // on the heap, whose fresh memory is filled with a pattern
  std::unique_ptr<BaseModel<Scalar> > model(byDefault ? new BaseModel<Scalar>()
                                            : new BaseModel<Scalar>(p.N, p.T, automatic));
  BaseModel<Scalar>& m = *model;
  VX<Scalar> sx = VX<Scalar>::Zero(3), sy = sx;
  int kinds = 0, seen = 0;
  const int n = c.integer(0, 12);
  c.note(automatic ? "automatic" : "manual", " N=", p.N, " T=", p.T);
  for (int i = 0; i < n; ++i)
  {
    const int op = c.below(13);
    if (!(seen & (1 << op))) { seen |= 1 << op; ++kinds; }
    switch (op)
    {
      case 0: p.N = c.integer(1, 8); m.setNbSamples(p.N); c.note("N=", p.N); break;
      case 1: p.T = nudge<Scalar>(c, p.T, [&] { return c.logReal(0.02, 1); }); m.setSamplingPeriod(p.T);
        c.note("T=", p.T); break;
      case 2: p.h = nudge<Scalar>(c, p.h, [&] { return c.real(0, 2); }); m.setComHeight(p.h);
        c.note("height=", p.h); break;
      case 3: p.g = nudgeGravity<Scalar>(c, p.g, genGravity<Scalar>(c)); m.setGravity(p.g);
        c.note("gravity=", show(toVec(p.g))); break;
      case 4: p.mass = std::min(p.total, nudge<Scalar>(c, p.mass, [&]
                                                       { return p.total * c.real(0.05, 1); })); m.setMass(p.mass);
        c.note("mass=", p.mass); break;
      case 5: p.total = nudge<Scalar>(c, p.total, [&]
                                      { return std::max<double>(p.mass, 0.5) * c.real(1, 4); }); m.setTotalMass(p.total);
        c.note("total mass=", p.total); break;
      case 6: sx = genState<Scalar>(c); m.setStateX(sx); break;
      case 7: sy = genState<Scalar>(c); m.setStateY(sy); break;
      case 8: p.v = nudge<Scalar>(c, p.v, [&] { return c.real(0, 9); }); m.setVelocityLimit(p.v); break;
      case 9: p.a = nudge<Scalar>(c, p.a, [&] { return c.real(0, 9); }); m.setAccelerationLimit(p.a); break;
      case 10: p.j = nudge<Scalar>(c, p.j, [&] { return c.real(0, 9); }); m.setJerkLimit(p.j); break;
      case 11: p.tx = nudge<Scalar>(c, p.tx, [&] { return c.real(-1, 1); }); m.setTiltContactPointX(p.tx); break;
      default: p.ty = nudge<Scalar>(c, p.ty, [&] { return c.real(-1, 1); }); m.setTiltContactPointY(p.ty); break;
    }
    if (!automatic && c.chance(1, 4)) m.computeDynamics();
  }
  c.nontrivial(n >= 3 && kinds >= 2);
  if (!automatic) m.computeDynamics();
  c.check(m.getNbSamples() == p.N && m.getSamplingPeriod() == p.T && m.getComHeight() == p.h &&
          m.getMass() == p.mass,
          "a getter is not up to date");
  c.check(m.getVelocityLimit() == p.v && m.getAccelerationLimit() == p.a &&
          m.getJerkLimit() == p.j, "a limit is not up to date");
  c.check(m.getTiltContactPointX() == p.tx && m.getTiltContactPointY() == p.ty,
          "a tilt contact point is not what was set (or zero when it was not)");
  c.check(m.getStateX() == sx && m.getStateY() == sy, "changing a parameter changed the state");
  const R ratio = static_cast<R>(p.mass) / p.total;
  const CopParams cx = {p.h, p.g(0), p.g(2), ratio}, cy = {p.h, p.g(1), p.g(2), ratio};
  const Vec J = toVec(genVec<Scalar>(c, p.N, -20, 20));
  const Vec x = toVec(sx), y = toVec(sy);
  const R T = p.T;
  checkDynamic<Scalar>(c, m.getBasePosLinearDynamic(), Pos, p.N, T, T, x, J, "pos", nullptr, false);
  checkDynamic<Scalar>(c, m.getBaseVelLinearDynamic(), Vel, p.N, T, T, x, J, "vel", nullptr, false);
  checkDynamic<Scalar>(c, m.getBaseAccLinearDynamic(), Acc, p.N, T, T, x, J, "acc", nullptr, false);
  checkDynamic<Scalar>(c, m.getCopXLinearDynamic(), Cop, p.N, T, T, x, J, "cop x", &cx, false);
  checkDynamic<Scalar>(c, m.getCopYLinearDynamic(), Cop, p.N, T, T, y, J, "cop y", &cy, false);

  BaseModel<Scalar> f(p.N, p.T, false);
  f.setGravity(p.g);
  f.setComHeight(p.h);
  f.setTotalMass(p.total);
  if (p.mass > 0) f.setMass(p.mass);
  f.computeDynamics();
  parts(c, m.getBasePosLinearDynamic(), f.getBasePosLinearDynamic(), "fresh: position");
  parts(c, m.getBaseVelLinearDynamic(), f.getBaseVelLinearDynamic(), "fresh: velocity");
  parts(c, m.getBaseAccLinearDynamic(), f.getBaseAccLinearDynamic(), "fresh: acceleration");
  parts(c, m.getCopXLinearDynamic(), f.getCopXLinearDynamic(), "fresh: CoP x");
  parts(c, m.getCopYLinearDynamic(), f.getCopYLinearDynamic(), "fresh: CoP y");
  parts(c, m.getBaseTiltAngleLinearDynamic(), f.getBaseTiltAngleLinearDynamic(), "fresh: tilt");
  parts(c, m.getBaseTiltAngularVelLinearDynamic(), f.getBaseTiltAngularVelLinearDynamic(),
        "fresh: tilt velocity");
  c.check(m.getBaseJerkLinearDynamic().U.rows() == p.N, "the jerk prediction has a stale size");
}

TYPED_LAW(plain_settings,
          "a random history of parameter changes of a one-dimensional model and of a foot model; "
          "non-trivial: at least 3 changes", 4000, 80000)
{
  const bool automatic = c.chance(2, 3);
  const bool byDefault = automatic && c.flip();
  int N = byDefault ? 1 : c.integer(1, 8);
  Scalar T = byDefault ? Scalar(1) : static_cast<Scalar>(c.logReal(0.02, 1));
  std::unique_ptr<NoDynamicModel<Scalar> > model(
      byDefault ? new NoDynamicModel<Scalar>() : new NoDynamicModel<Scalar>(N, T, automatic));
  NoDynamicModel<Scalar>& m = *model;
  Scalar v = 1, a = 1, j = 1;
  VX<Scalar> s = VX<Scalar>::Zero(3);
  const int n = c.integer(0, 10);
  for (int i = 0; i < n; ++i)
  {
    switch (c.below(6))
    {
      case 0: N = c.integer(1, 8); m.setNbSamples(N); c.note("N=", N); break;
      case 1: T = nudge<Scalar>(c, T, [&] { return c.logReal(0.02, 1); }); m.setSamplingPeriod(T);
        c.note("T=", T); break;
      case 2: v = nudge<Scalar>(c, v, [&] { return c.real(0, 9); }); m.setVelocityLimit(v); break;
      case 3: a = nudge<Scalar>(c, a, [&] { return c.real(0, 9); }); m.setAccelerationLimit(a); break;
      case 4: j = nudge<Scalar>(c, j, [&] { return c.real(0, 9); }); m.setJerkLimit(j); break;
      default: s = genState<Scalar>(c); m.setState(s); break;
    }
    if (!automatic && c.chance(1, 4)) m.computeDynamics();
  }
  if (!automatic) m.computeDynamics();
  c.nontrivial(n >= 3);
  c.check(m.getNbSamples() == N && m.getSamplingPeriod() == T && m.getVelocityLimit() == v &&
          m.getAccelerationLimit() == a && m.getJerkLimit() == j && m.getState() == s,
          "a getter is not up to date");
  const Vec J = toVec(genVec<Scalar>(c, N, -20, 20)), x = toVec(s);
  checkDynamic<Scalar>(c, m.getPosLinearDynamic(), Pos, N, T, T, x, J, "pos", nullptr, false);
  checkDynamic<Scalar>(c, m.getVelLinearDynamic(), Vel, N, T, T, x, J, "vel", nullptr, false);
  checkDynamic<Scalar>(c, m.getAccLinearDynamic(), Acc, N, T, T, x, J, "acc", nullptr, false);
  NoDynamicModel<Scalar> f(N, T, true);
  parts(c, m.getPosLinearDynamic(), f.getPosLinearDynamic(), "fresh: position");
  parts(c, m.getVelLinearDynamic(), f.getVelLinearDynamic(), "fresh: velocity");
  parts(c, m.getAccLinearDynamic(), f.getAccLinearDynamic(), "fresh: acceleration");
  c.check(m.getJerkLinearDynamic().U.rows() == N, "the jerk prediction has a stale size");
}

TYPED_LAW(foot_settings,
          "a random history of settings, states and polygons of a foot model: every getter gives "
          "the last value, and a foot that nobody moved stands at every sample of the horizon; "
          "non-trivial: at least 3 changes", 4000, 80000)
{
  const bool byDefault = c.flip();
  int N = byDefault ? 1 : c.integer(1, 12);
  Scalar T = byDefault ? Scalar(1) : static_cast<Scalar>(c.logReal(0.02, 1));
  std::unique_ptr<HumanoidFootModel<Scalar> > model(
      byDefault ? new HumanoidFootModel<Scalar>() : new HumanoidFootModel<Scalar>(N, T));
  HumanoidFootModel<Scalar>& m = *model;
  VX<Scalar> s[4];
  for (int i = 0; i < 4; ++i) s[i] = VX<Scalar>::Zero(3);
  Scalar height = 0;
  ConvexPolygon<Scalar> sole, reach;
  const int n = c.integer(0, 10);
  for (int i = 0; i < n; ++i)
  {
    const Scalar v = static_cast<Scalar>(c.real(-2, 2));
    switch (c.below(12))
    {
      case 0: N = c.integer(1, c.flip() ? 24 : 300); m.setNbSamples(N); c.note("N=", N); break;
      case 1: T = nudge<Scalar>(c, T, [&] { return c.logReal(0.02, 1); }); m.setSamplingPeriod(T); break;
      case 2: s[0] = genState<Scalar>(c); m.setStateX(s[0]); break;
      case 3: s[1] = genState<Scalar>(c); m.setStateY(s[1]); break;
      case 4: s[2] = genState<Scalar>(c); m.setStateZ(s[2]); break;
      case 5: s[3] = genState<Scalar>(c); m.setStateYaw(s[3]); break;
      case 6: height = std::abs(v); m.setMaxHeight(height); c.note("height=", height); break;
      case 7: sole = smallPolygon<Scalar>(c); m.setCopConvexPolygon(sole); break;
      case 8: reach = smallPolygon<Scalar>(c); m.setKinematicConvexPolygon(reach); break;
      case 9: m.setHipYawUpperBound(v); m.setHipYawLowerBound(-v); break;
      case 10: m.setHipYawSpeedUpperBound(v); break;
      default: m.setHipYawAccelerationUpperBound(v); break;
    }
  }
  c.nontrivial(n >= 3);
  c.check(m.getNbSamples() == N && m.getSamplingPeriod() == T && m.getMaxHeight() == height,
          "a getter is not up to date");
  c.check(m.getStateX() == s[0] && m.getStateY() == s[1] && m.getStateZ() == s[2] &&
          m.getStateYaw() == s[3], "a state is not the one that was set");
  c.check(sameVertices(m.getCopConvexPolygon(), sole) &&
          sameVertices(m.getKinematicConvexPolygon(), reach), "a polygon is not the one that was set");
  for (int i = 0; i < N; ++i)
    c.check(m.isInContact(i), "a foot that nobody moved does not touch the ground");
}
