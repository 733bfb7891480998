// C01: predictions over the horizon are the sampled motion under piecewise constant jerk.
#include "models_common.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> CopParams cop(S h, S gxy, S gz, S m, S M)
  {
    CopParams p;
    p.height = h; p.gravityXY = gxy; p.gravityZ = gz;
    p.ratio = static_cast<R>(m) / static_cast<R>(M);
    return p;
  }
  // now and then much longer than anyone's
  int horizon(Ctx& c, int usual, int rare)
  {
    return c.chance(1, 16) ? c.integer(usual + 1, rare) : c.integer(1, usual);
  }
  template <typename S> S genGravityZ(Ctx& c)
  {
    if (c.chance(1, 2)) return static_cast<S>(9.81);
    S g = static_cast<S>(c.logReal(0.5, 30));
    return c.flip() ? -g : g;
  }
}

TYPED_LAW(elementary_dynamics,
          "random horizon (1-24, sometimes up to 100), period, first interval in (0, period], CoM height, gravity, "
          "masses, state and jerks; every elementary dynamic against step-by-step integration; "
          "non-trivial: at least 2 samples and non-zero jerks and state", 2500, 60000)
{
  typedef Tools::ConstantJerkDynamic<Scalar> D;
  const int N = horizon(c, 24, 100);
  const Scalar T = static_cast<Scalar>(c.logReal(0.01, 1.5));
  const int k = c.integer(1, 10);
  const Scalar S = k == 1 ? T : T * static_cast<Scalar>(c.integer(1, k)) / k;
  const Scalar h = static_cast<Scalar>(c.real(0, 2));
  const Scalar gxy = static_cast<Scalar>(c.real(-4, 4));
  const Scalar gz = genGravityZ<Scalar>(c);
  const Scalar M = static_cast<Scalar>(c.logReal(0.5, 80));
  const Scalar m = c.flip() ? M : M * static_cast<Scalar>(c.real(0, 1));
  const Vec state = toVec(genState<Scalar>(c));
  const Vec jerk = toVec(genVec<Scalar>(c, N, -20, 20));
  c.nontrivial(N >= 2 && !jerk.isZero(0) && !state.isZero(0));
  c.label(S < T, "first interval shorter than the period");
  c.label(m < M, "mass below total mass");
  c.label(gxy != 0, "tilted gravity");
  c.note("N=", N, " T=", T, " first=", S, " h=", h, " g_xy=", gxy, " g_z=", gz, " m=", m,
         " M=", M);
  c.note("state=", show(state), " jerk=", show(jerk));

  LinearDynamic<Scalar> d;
  D::computePosDynamic(S, T, N, d);
  checkDynamic<Scalar>(c, d, Pos, N, S, T, state, jerk, "position");
  D::computeVelDynamic(S, T, N, d);
  checkDynamic<Scalar>(c, d, Vel, N, S, T, state, jerk, "velocity");
  D::computeAccDynamic(S, T, N, d);
  checkDynamic<Scalar>(c, d, Acc, N, S, T, state, jerk, "acceleration");
  CopParams cp = cop(h, gxy, gz, m, M);
  D::computeCopDynamic(S, T, N, d, h, gxy, gz, m, M);
  checkDynamic<Scalar>(c, d, Cop, N, S, T, state, jerk, "centre of pressure", &cp, m > 0);

  D::computeJerkDynamic(N, d);
  Vec y = toMat(d.U) * jerk + toMat(d.S) * state + toVec(d.K);
  nearVec(c, y, jerk, 0, "jerk");
  nearVec(c, toMat(d.UT) * jerk, jerk, 0, "jerk, transpose");
  nearVec(c, toMat(d.Uinv) * jerk, jerk, 0, "jerk, inverse");
  nearVec(c, toMat(d.UTinv) * jerk, jerk, 0, "jerk, transposed inverse");
}

TYPED_LAW(acceleration_driven_dynamics,
          "the dynamics whose control is an acceleration (tilt angle) against step-by-step "
          "integration; non-trivial: at least 2 samples and non-zero controls", 1500, 30000)
{
  typedef Tools::ConstantJerkDynamic<Scalar> D;
  const int N = horizon(c, 24, 100);
  const Scalar T = static_cast<Scalar>(c.logReal(0.01, 1.5));
  const int k = c.integer(1, 10);
  const Scalar S = k == 1 ? T : T * static_cast<Scalar>(c.integer(1, k)) / k;
  const Vec st = toVec(genVec<Scalar>(c, 2, -3, 3));
  const Vec acc = toVec(genVec<Scalar>(c, N, -20, 20));
  c.nontrivial(N >= 2 && !acc.isZero(0));
  c.note("N=", N, " T=", T, " first=", S, " state=", show(st), " acc=", show(acc));
  LinearDynamic<Scalar> p, v;
  D::computeOrder2PosDynamic(S, T, N, p);
  D::computeOrder2VelDynamic(S, T, N, v);
  c.check(p.U.rows() == N && p.S.cols() == 2 && v.S.cols() == 2 && v.U.rows() == N, "sizes");
  Vec yp = toMat(p.U) * acc + toMat(p.S) * st + toVec(p.K);
  Vec yv = toMat(v.U) * acc + toMat(v.S) * st + toVec(v.K);
  Kin k1(st(0), st(1), 0), ka(std::abs(st(0)), std::abs(st(1)), 0);
  for (int i = 0; i < N; ++i)
  {
    k1 = k1.afterAcc(acc(i), i == 0 ? S : T);
    ka = ka.afterAcc(std::abs(acc(i)), i == 0 ? S : T);
    c.near(yp(i), k1.p, 40 * eps<Scalar>() * ka.p + 1e-30, "tilt position");
    c.near(yv(i), k1.v, 40 * eps<Scalar>() * ka.v + 1e-30, "tilt velocity");
  }
  const LinearDynamic<Scalar>* both[2] = {&p, &v};
  for (int b = 0; b < 2; ++b)
  {
    c.check(toMat(both[b]->UT) == toMat(both[b]->U).transpose(), "UT is not U transposed");
    checkInverse<Scalar>(c, toMat(both[b]->U), toMat(both[b]->Uinv), toMat(both[b]->UTinv),
                         b ? "tilt velocity" : "tilt position");
  }
}

TYPED_LAW(pendulum_model,
          "a pendulum model with random parameters; every prediction, at every feedback offset "
          "within a sample, along both axes; non-trivial: at least 2 samples and several "
          "feedback periods per sample", 1200, 30000)
{
  const int N = horizon(c, 16, 60);
  const int k = c.integer(1, 8);
  const Scalar fb = static_cast<Scalar>(c.logReal(0.004, 0.2));
  // what the model predicts does not depend on whether the cycles fill the sample
  const bool fills = !c.chance(1, 5);
  const Scalar T = fb * static_cast<Scalar>(fills ? k : k + c.real(0.1, 0.9));
  LIPModel<Scalar> m(N, T, c.flip());
  const bool setters = c.flip();
  const Scalar h = static_cast<Scalar>(c.real(0.1, 1.5));
  V3<Scalar> g;
  g << static_cast<Scalar>(c.real(-4, 4)), static_cast<Scalar>(c.real(-4, 4)),
      genGravityZ<Scalar>(c);
  const Scalar total = static_cast<Scalar>(c.logReal(1, 80));
  const Scalar mass = c.chance(1, 20) ? 0 : total * static_cast<Scalar>(c.real(0.02, 1));
  if (setters)
  {
    m.setComHeight(h);
    m.setGravity(g);
    if (mass <= 1) { m.setMass(mass); m.setTotalMass(total); }
    else { m.setTotalMass(total); m.setMass(mass); }
  }
  m.setFeedbackPeriod(fb);
  m.computeDynamics();
  const R hh = setters ? h : Scalar(1), gx = setters ? g(0) : 0, gy = setters ? g(1) : 0,
          gz = setters ? g(2) : static_cast<Scalar>(9.81),
          ratio = setters ? static_cast<R>(mass) / total : 1;
  const CopParams cx = {hh, gx, gz, ratio}, cy = {hh, gy, gz, ratio};
  const Vec jerk = toVec(genVec<Scalar>(c, N, -20, 20));
  const VX<Scalar> sx = genState<Scalar>(c), sy = genState<Scalar>(c);
  m.setStateX(sx);
  m.setStateY(sy);
  c.nontrivial(N >= 2 && k >= 2 && !jerk.isZero(0));
  c.note("N=", N, " T=", T, " feedback=T/", k, " h=", hh, " g=(", gx, ",", gy, ",", gz,
         ") mass ratio=", ratio);
  c.note("state x=", show(toVec(sx)), " jerk=", show(jerk));
  c.check(m.getNbSamples() == N && m.getSamplingPeriod() == T && m.getFeedbackPeriod() == fb &&
          m.getComHeight() == static_cast<Scalar>(hh), "a getter does not return what was set");
  c.check(m.getStateX() == sx && m.getStateY() == sy, "the state is not what was set");
  c.check(m.getStateZ()(0) == static_cast<Scalar>(hh), "the height state is not the CoM height");
  const Vec x = toVec(sx), y = toVec(sy);
  for (int i = 0; i < k; ++i)
  {
    const R S = static_cast<R>(i + 1) * fb;
    const std::string at = " at feedback offset " + std::to_string(i);
    checkDynamic<Scalar>(c, m.getComPosLinearDynamic(i), Pos, N, S, T, x, jerk, "position" + at);
    checkDynamic<Scalar>(c, m.getComVelLinearDynamic(i), Vel, N, S, T, x, jerk, "velocity" + at);
    checkDynamic<Scalar>(c, m.getComAccLinearDynamic(i), Acc, N, S, T, y, jerk, "accel." + at);
    checkDynamic<Scalar>(c, m.getCopXLinearDynamic(i), Cop, N, S, T, x, jerk, "CoP x" + at, &cx);
    checkDynamic<Scalar>(c, m.getCopYLinearDynamic(i), Cop, N, S, T, y, jerk, "CoP y" + at, &cy);
    nearVec(c, toMat(m.getComJerkLinearDynamic(i).U) * jerk, jerk, 0, "jerk" + at);
  }
  nearVec(c, toMat(m.getComJerkLinearDynamic().U) * jerk, jerk, 0, "jerk");
  if (!fills) return;
  checkDynamic<Scalar>(c, m.getComPosLinearDynamic(), Pos, N, T, T, y, jerk, "position");
  checkDynamic<Scalar>(c, m.getComVelLinearDynamic(), Vel, N, T, T, y, jerk, "velocity");
  checkDynamic<Scalar>(c, m.getComAccLinearDynamic(), Acc, N, T, T, x, jerk, "acceleration");
  checkDynamic<Scalar>(c, m.getCopXLinearDynamic(), Cop, N, T, T, x, jerk, "CoP x", &cx);
  checkDynamic<Scalar>(c, m.getCopYLinearDynamic(), Cop, N, T, T, y, jerk, "CoP y", &cy);
}

TYPED_LAW(base_and_plain_models,
          "a mobile base model and a one-dimensional model with random parameters; every "
          "prediction along both axes; non-trivial: at least 2 samples", 1500, 30000)
{
  const int N = horizon(c, 16, 60);
  const Scalar T = static_cast<Scalar>(c.logReal(0.01, 1));
  BaseModel<Scalar> m(N, T, c.flip());
  const Scalar h = static_cast<Scalar>(c.real(0, 1.5));
  V3<Scalar> g;
  g << static_cast<Scalar>(c.real(-4, 4)), static_cast<Scalar>(c.real(-4, 4)),
      genGravityZ<Scalar>(c);
  const Scalar total = static_cast<Scalar>(c.logReal(1, 80));
  const Scalar mass = total * static_cast<Scalar>(c.real(0.02, 1));
  m.setComHeight(h);
  m.setGravity(g);
  m.setTotalMass(total);
  m.setMass(mass);
  m.computeDynamics();
  const Vec jerk = toVec(genVec<Scalar>(c, N, -20, 20));
  const VX<Scalar> sx = genState<Scalar>(c), sy = genState<Scalar>(c);
  m.setStateX(sx);
  m.setStateY(sy);
  c.nontrivial(N >= 2 && !jerk.isZero(0));
  c.note("N=", N, " T=", T, " h=", h, " g=(", g(0), ",", g(1), ",", g(2), ") mass=", mass,
         " total=", total);
  c.note("state x=", show(toVec(sx)), " jerk=", show(jerk));
  const R ratio = static_cast<R>(mass) / total;
  const CopParams cx = {h, g(0), g(2), ratio}, cy = {h, g(1), g(2), ratio};
  const Vec x = toVec(sx), y = toVec(sy);
  c.check(m.getStateX() == sx && m.getStateY() == sy, "the state is not what was set");
  checkDynamic<Scalar>(c, m.getBasePosLinearDynamic(), Pos, N, T, T, x, jerk, "base position");
  checkDynamic<Scalar>(c, m.getBaseVelLinearDynamic(), Vel, N, T, T, y, jerk, "base velocity");
  checkDynamic<Scalar>(c, m.getBaseAccLinearDynamic(), Acc, N, T, T, x, jerk, "base accel.");
  checkDynamic<Scalar>(c, m.getCopXLinearDynamic(), Cop, N, T, T, x, jerk, "base CoP x", &cx);
  checkDynamic<Scalar>(c, m.getCopYLinearDynamic(), Cop, N, T, T, y, jerk, "base CoP y", &cy);
  nearVec(c, toMat(m.getBaseJerkLinearDynamic().U) * jerk, jerk, 0, "base jerk");

  // the tilt of the base is driven by its angular acceleration
  Kin t(0.1L, -0.2L, 0);
  Vec st(2);
  st << 0.1L, -0.2L;
  Vec ap = toMat(m.getBaseTiltAngleLinearDynamic().U) * jerk +
           toMat(m.getBaseTiltAngleLinearDynamic().S) * st;
  Vec av = toMat(m.getBaseTiltAngularVelLinearDynamic().U) * jerk +
           toMat(m.getBaseTiltAngularVelLinearDynamic().S) * st;
  R sp = 0.1L, sv = 0.2L;
  for (int i = 0; i < N; ++i)
  {
    sp += T * sv + T * T * std::abs(jerk(i));
    sv += T * std::abs(jerk(i));
    t = t.afterAcc(jerk(i), T);
    c.near(ap(i), t.p, 60 * eps<Scalar>() * sp, "tilt angle");
    c.near(av(i), t.v, 60 * eps<Scalar>() * sv, "tilt velocity");
  }

  NoDynamicModel<Scalar> n(N, T, c.flip());
  n.computeDynamics();
  n.setState(sx);
  c.check(n.getState() == sx && n.getNbSamples() == N && n.getSamplingPeriod() == T,
          "a getter of the one-dimensional model does not return what was set");
  checkDynamic<Scalar>(c, n.getPosLinearDynamic(), Pos, N, T, T, x, jerk, "1-D position");
  checkDynamic<Scalar>(c, n.getVelLinearDynamic(), Vel, N, T, T, x, jerk, "1-D velocity");
  checkDynamic<Scalar>(c, n.getAccLinearDynamic(), Acc, N, T, T, x, jerk, "1-D acceleration");
  nearVec(c, toMat(n.getJerkLinearDynamic().U) * jerk, jerk, 0, "1-D jerk");
}
