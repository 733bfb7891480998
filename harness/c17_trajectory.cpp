// C17: the one-dimensional generator: its functions and its plans.
#include "traj_gen.h"
#include "zebulon_common.h"
#include "../stubs/QProblem.hpp"
#include <memory>
#include <mpc-walkgen/function/trajectory_jerk_minimization_objective.h>
#include <mpc-walkgen/function/trajectory_motion_constraint.h>
#include <mpc-walkgen/function/trajectory_position_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_velocity_tracking_objective.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> void configure(Ctx& c, TrajRig<S>& r, int maxN)
  {
    r.samples(c, maxN);
    r.period(c);
    r.weights(c);
    r.constraints(c);
    r.references(c);
    for (int i = 0; i < 3; ++i) r.limits(c, i);
    r.place(c);
  }
}

TYPED_LAW(functions,
          "a one-dimensional model (1-10 samples), functions built before or after the parameters "
          "are final, random states, limits, references and jerks: gradients and Hessians of the "
          "three objectives against the simulated squared errors, rows and bounds of the motion "
          "constraint against the simulated velocity and acceleration; non-trivial: at least 2 "
          "samples and a non-zero reference", 6000, 400000)
{
  typedef Scalar S;
  const int N = c.integer(1, 10);
  const S T = static_cast<S>(c.logReal(0.02, 1));
  const bool late = c.flip();
  NoDynamicModel<S> model(late ? c.integer(1, 10) : N, late ? static_cast<S>(c.logReal(0.02, 1)) : T,
                          true);
  TrajectoryJerkMinimizationObjective<S> jerk(model);
  PositionTrackingObjective<S> pos(model);
  VelocityTrackingObjective<S> vel(model);
  MotionConstraint<S> motion(model);
  if (late)
  {
    if (c.flip()) { model.setNbSamples(N); model.setSamplingPeriod(T); }
    else { model.setSamplingPeriod(T); model.setNbSamples(N); }
    jerk.computeConstantPart();
    pos.computeConstantPart();
    vel.computeConstantPart();
    motion.computeConstantPart();
  }
  const VX<S> st = genState<S>(c);
  model.setState(st);
  const S vm = static_cast<S>(c.real(0, 3)), am = static_cast<S>(c.real(0, 6));
  model.setVelocityLimit(vm);
  model.setAccelerationLimit(am);
  const VX<S> pr = genVec<S>(c, N, -3, 3), vr = genVec<S>(c, N, -2, 2);
  pos.setPosRefInWorldFrame(pr);
  vel.setVelRefInWorldFrame(vr);
  const VX<S> x = genVec<S>(c, N, -20, 20);
  c.note("N=", N, " T=", T, " state ", show(toVec(st)), " limits ", vm, " ", am, " pos ref ",
         show(toVec(pr)), " vel ref ", show(toVec(vr)), " x ", show(toVec(x)));
  const Vec X = toVec(x);
  for (int which = 0; which < 3; ++which)
  {
    Residual r;
    if (which == 0)
    {
      Affine a;
      a.U = Mat::Identity(N, N);
      a.Ua = a.U;
      a.k = Vec::Zero(N);
      a.ka = a.k;
      r.add(0, a, 1);
      compareQuadratic(c, quadratic(std::vector<Residual>(1, r), X, N, N, eps<S>()),
                       toMat(jerk.getGradient(x)), toMat(jerk.getHessian()), "jerk objective");
      continue;
    }
    r.add(0, predict(which == 1 ? Pos : Vel, N, T, toVec(st)), 1);
    r.shift(-toVec(which == 1 ? pr : vr), toVec(which == 1 ? pr : vr).cwiseAbs());
    const Quadratic q = quadratic(std::vector<Residual>(1, r), X, N, N, eps<S>());
    if (which == 1)
      compareQuadratic(c, q, toMat(pos.getGradient(x)), toMat(pos.getHessian()),
                       "position objective");
    else
      compareQuadratic(c, q, toMat(vel.getGradient(x)), toMat(vel.getHessian()),
                       "velocity objective");
  }
  // the rows  inf <= G (y - x) <= sup  are the simulated motion in its limits
  c.check(motion.getNbConstraints() == 2 * N, "number of rows of the motion constraint");
  const Mat G = toMat(motion.getGradient());
  const Vec inf = toVec(motion.getFunctionInf(x)), sup = toVec(motion.getFunctionSup(x));
  if (G.rows() != 2 * N || G.cols() != N || inf.size() != 2 * N || sup.size() != 2 * N)
    c.fail("size of the motion constraint");
  const Vec y = toVec(genVec<S>(c, N, -20, 20));
  const std::vector<Kin> m = simulate(Kin::of(st), y, T, T);
  const Vec d = G * (y - X);
  const Kin sa(std::abs(Kin::of(st).p), std::abs(Kin::of(st).v), std::abs(Kin::of(st).a));
  const std::vector<Kin> ma = simulate(sa, y.cwiseAbs() + X.cwiseAbs(), T, T);
  for (int i = 0; i < 2 * N; ++i)
  {
    const bool v = i < N;
    const R got = v ? m[i].v : m[i - N].a, lim = v ? vm : am;
    const R size = (v ? ma[i].v : ma[i - N].a) + lim;
    const R tol = (40 + 8 * N) * eps<S>() * size + 1e-30L;
    const std::string what = std::string(v ? "velocity" : "acceleration") + " row " +
                             std::to_string(i);
    if (!(std::abs((d(i) - inf(i)) - (got + lim)) <= tol))
      c.fail(what + ": over the lower limit by " + str(d(i) - inf(i)) + ", simulated " +
             str(got + lim));
    if (!(std::abs((sup(i) - d(i)) - (lim - got)) <= tol))
      c.fail(what + ": under the upper limit by " + str(sup(i) - d(i)) + ", simulated " +
             str(lim - got));
  }
  c.label(late, "reconfigured");
  c.nontrivial(N >= 2 && (!pr.isZero(0) || !vr.isZero(0)));
}

LAW(optimal_plan,
    "a double-precision one-dimensional generator (1-10 samples), random weights, limits, "
    "references and states, several cycles with pushes, new references and new limits: at every "
    "cycle the applied jerk against an independently stated and solved problem, and the reported "
    "outcome against its feasibility; non-trivial: two judged cycles with an active constraint",
    15000, 600000)
{
  TrajRig<double> r;
  configure(c, r, 10);
  const int cycles = c.integer(1, 12);
  int judged = 0, active = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i)
      switch (c.below(9))
      {
        case 8: r.velocityReference(c); break;
        case 7: r.positionReference(c); break;
        case 6: r.limits(c, c.below(3)); break;
        case 5: r.place(c); break;
        default: break;
      }
    const double fb = r.T * c.pick<double>({1, 0.1, 0.25, 0.5, 0.33});
    const TrajRig<double>::Outcome o = r.cycle(c, fb);
    if (o == TrajRig<double>::Failed) { r.place(c); continue; }
    if (o == TrajRig<double>::Unjudged) continue;
    ++judged;
    active += r.active > 0;
  }
  c.label(judged >= 2, "two judged cycles");
  c.label(judged == 0, "nothing judged");
  c.nontrivial(judged >= 2 && active >= 1);
}

TYPED_LAW(failure_is_reported,
          "cycles at which the solver fails: the generator reports a failure at exactly these "
          "cycles, and goes on; non-trivial: both outcomes were met", 400, 10000)
{
  TrajRig<Scalar> r;
  configure(c, r, 5);
  const int cycles = c.integer(1, 10);
  int good = 0, bad = 0;
  for (int i = 0; i < cycles; ++i)
  {
    const bool fail = c.chance(1, 3);
    SolverLog& log = solverLog();
    log = SolverLog();
    log.forceFailures = fail;
    const bool ok = r.gen.solve(r.T / 4);
    log.forceFailures = 0;
    c.check(log.inits + log.hotstarts == 1, "the problem was not given to the solver once");
    const bool failed = log.failures > 0;
    c.note("cycle ", i, " the solver ", failed ? "fails" : "succeeds", ", solve() returns ", ok);
    c.check(ok != failed, failed ? "the solver failed, but solve() reports success"
                                 : "the solver succeeded, but solve() reports a failure");
    ++(failed ? bad : good);
    if (!ok) r.place(c);
  }
  c.nontrivial(good && bad);
}
