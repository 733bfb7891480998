// C18: reconfiguring the one-dimensional generator equals starting afresh.
#include "traj_gen.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> void change(Ctx& c, TrajRig<S>& r, int maxN)
  {
    switch (c.below(10))
    {
      case 0: r.samples(c, maxN); break;
      case 1: r.period(c); break;
      case 2: r.weights(c); break;
      case 3: r.constraints(c); break;
      case 4: r.velocityReference(c); break;
      case 5: r.positionReference(c); break;
      case 6: r.limits(c, 0); break;
      case 7: r.limits(c, 1); break;
      case 8: r.limits(c, 2); break;
      default: r.place(c);
    }
  }
  /// A generator that has just been given the current settings of another.
  template <typename S> void copySettings(const TrajRig<S>& r, TrajectoryWalkgen<S>& g)
  {
    g.setNbSamples(r.N);
    g.setSamplingPeriod(r.T);
    g.setWeightings(r.weight);
    g.setConfig(r.config);
    g.setVelLimit(r.vmax);
    g.setAccLimit(r.amax);
    g.setJerkLimit(r.jmax);
    g.setVelRefInWorldFrame(r.velRef.template cast<S>());
    g.setPosRefInWorldFrame(r.posRef.template cast<S>());
    g.setState(r.gen.getState());
  }
}

LAW(any_history,
    "a double-precision one-dimensional generator, from its defaults: any sequence of up to 25 "
    "setters and solves in any order (references renewed after a change of the horizon): every "
    "solve against the independently stated problem of the settings of the moment; non-trivial: "
    "two judged solves with a change between them", 15000, 600000)
{
  TrajRig<double> r;
  if (c.flip())
  {
    r.weights(c);   // strictly convex from the start
  }
  else r.weights(c), r.samples(c, 8), r.period(c);
  const int n = c.integer(2, 25);
  int judged = 0, between = 0, active = 0;
  bool changed = false;
  for (int i = 0; i < n; ++i)
  {
    if (c.chance(1, 3))
    {
      const double fb = r.T * c.pick<double>({1, 0.1, 0.25, 0.5});
      const TrajRig<double>::Outcome o = r.cycle(c, fb);
      if (o == TrajRig<double>::Failed) { r.place(c); continue; }
      if (o != TrajRig<double>::Judged) continue;
      active += r.active > 0;
      if (++judged > 1 && changed) ++between;
      changed = false;
    }
    else { change(c, r, 8); changed = true; }
  }
  c.label(judged >= 2, "two judged solves");
  c.label(active > 0, "an active constraint");
  c.nontrivial(between > 0);
}

TYPED_LAW(same_as_fresh,
          "any sequence of up to 20 setters and solves, then three cycles beside a generator that "
          "was just given the final settings and state: the same outcomes and motions, up to the "
          "rounding of the problem; non-trivial: at least one solve in the history and three "
          "compared cycles", 4000, 150000)
{
  typedef Scalar S;
  TrajRig<S> r;
  r.weights(c);
  const int n = c.integer(1, 20);
  int solves = 0;
  for (int i = 0; i < n; ++i)
  {
    if (c.chance(1, 4))
    {
      if (r.stale) r.references(c);
      if (!r.gen.solve(r.T * static_cast<S>(c.pick<double>({1, 0.1, 0.5})))) r.place(c);
      ++solves;
    }
    else change(c, r, 6);
  }
  if (r.stale) r.references(c);
  r.place(c);
  TrajectoryWalkgen<S> fresh;
  copySettings(r, fresh);
  int compared = 0;
  for (int i = 0; i < 3; ++i)
  {
    fresh.setState(r.gen.getState());
    const Kin s = Kin::of(fresh.getState());
    const qp::Problem q = r.problem(s, 0, nullptr);
    const qp::Solution best = qp::solve(q), tight = qp::solve(r.problem(s, -1e-3L, nullptr)),
                       loose = qp::solve(r.problem(s, 1e-3L, nullptr));
    const S fb = r.T * static_cast<S>(c.pick<double>({1, 0.5, 0.2}));
    const bool a = r.gen.solve(fb), b = fresh.solve(fb);
    c.note("solve: ", a, " fresh ", b, " jerks ", r.gen.getJerk(), " ", fresh.getJerk());
    if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
    {
      c.label("at the edge of feasibility");
      r.place(c);
      if (!a || !b) copySettings(r, fresh);
      continue;
    }
    c.check(a == b, "a generator with a history and a fresh one report different outcomes");
    // how much the first jerk moves under a change of the data by the rounding
    const R size = 1 + best.x.cwiseAbs().maxCoeff();
    const R move = (std::abs(tight.x(0) - best.x(0)) + std::abs(loose.x(0) - best.x(0))) / 1e-3L;
    const R cond = q.Q.norm() / static_cast<R>(r.weight.jerkMinimization);
    const R scale = 10 + std::abs(s.p) + std::abs(s.v) + std::abs(s.a) + size;
    const R tol = 200 * eps<S>() * (cond * size + (1 + move) * scale) +
                  (std::is_same<S, float>::value ? 1e-3L : 1e-6L) * size;
    if (tol > 0.2L * size) { c.label("too ill-conditioned to compare"); continue; }
    const R d = std::abs(static_cast<R>(r.gen.getJerk()) - static_cast<R>(fresh.getJerk()));
    if (!(d <= tol))
      c.fail("a generator with a history applies " + str(r.gen.getJerk()) + ", a fresh one " +
             str(fresh.getJerk()) + " (tolerance " + str(tol) + ")");
    ++compared;
  }
  c.nontrivial(solves > 0 && compared == 3);
}
