// A one-dimensional generator beside the numbers it was given, and its plan from an independently
// stated quadratic program.
#pragma once
#include "../stubs/QProblem.hpp"
#include "models_common.h"
#include "qp.h"
#include <mpc-walkgen/trajectory_walkgen.h>

namespace mpcv
{
  using MPCWalkgen::TrajectoryWalkgen;
  using MPCWalkgen::TrajectoryWalkgenConfig;
  using MPCWalkgen::TrajectoryWalkgenWeighting;

  template <typename S> struct TrajRig
  {
    TrajectoryWalkgen<S> gen;
    int N;
    S T;
    TrajectoryWalkgenWeighting<S> weight;
    TrajectoryWalkgenConfig<S> config;
    bool weighted = false;   // set before
    Vec velRef, posRef;
    S vmax, amax, jmax;
    bool stale;      // the references have the size of a former horizon
    int active;

    TrajRig() : N(1), T(1), vmax(1), amax(1), jmax(1), stale(false), active(0)
    { velRef = posRef = Vec::Zero(1); }

    void samples(Ctx& c, int max)
    {
      N = c.integer(1, max);
      gen.setNbSamples(N);
      c.note("N=", N);
      stale = true;
    }
    void period(Ctx& c)
    {
      T = static_cast<S>(c.logReal(0.05, 0.5));
      gen.setSamplingPeriod(T);
      c.note("T=", T);
    }
    VX<S> refVector(Ctx& c, R lo, R hi)
    {
      if (c.chance(1, 3)) return genVec<S>(c, N, lo, hi);
      return VX<S>::Constant(N, static_cast<S>(c.real(lo, hi)));
    }
    void velocityReference(Ctx& c)
    {
      const VX<S> v = refVector(c, -2, 2);
      gen.setVelRefInWorldFrame(v);
      velRef = toVec(v);
      c.note("velocity reference ", show(velRef));
    }
    void positionReference(Ctx& c)
    {
      const VX<S> v = refVector(c, -3, 3);
      gen.setPosRefInWorldFrame(v);
      posRef = toVec(v);
      c.note("position reference ", show(posRef));
    }
    void references(Ctx& c)
    {
      velocityReference(c);
      positionReference(c);
      stale = false;
    }
    void weights(Ctx& c)
    {
      const TrajectoryWalkgenWeighting<S> old = weight;
      auto w = [&](R lo, R hi) { return static_cast<S>(c.flip() ? 0 : c.chance(1, 5) ?
                                                       c.logReal(1e-6, lo) : c.logReal(lo, hi)); };
      weight.velocityTracking = w(0.01, 10);
      weight.positionTracking = w(0.01, 10);
      weight.jerkMinimization = static_cast<S>(c.logReal(1e-4, 1));
      if (weighted && c.flip())
      {
        // a change of a single weight
        typedef S TrajectoryWalkgenWeighting<S>::*Field;
        typedef TrajectoryWalkgenWeighting<S> G;
        const Field f = c.pick<Field>({&G::velocityTracking, &G::positionTracking,
                                       &G::jerkMinimization});
        const S v = weight.*f;
        weight = old;
        weight.*f = v;
      }
      weighted = true;
      gen.setWeightings(weight);
      c.note("weights: vel ", weight.velocityTracking, " pos ", weight.positionTracking, " jerk ",
             weight.jerkMinimization);
    }
    void constraints(Ctx& c)
    {
      config.withMotionConstraints = c.chance(3, 4);
      gen.setConfig(config);
      c.note("constraints: ", config.withMotionConstraints);
    }
    void limits(Ctx& c, int which)
    {
      switch (which)
      {
        case 0: vmax = static_cast<S>(c.real(0.1, 3)); gen.setVelLimit(vmax); break;
        case 1: amax = static_cast<S>(c.real(0.1, 6)); gen.setAccLimit(amax); break;
        default: jmax = static_cast<S>(c.real(0.5, 60)); gen.setJerkLimit(jmax);
      }
      c.note("limits ", vmax, " ", amax, " ", jmax);
    }
    void place(Ctx& c)
    {
      const R s = c.chance(4, 5) ? 1 : 8;
      VX<S> x(3);
      x << static_cast<S>(c.real(-3, 3)), static_cast<S>(c.real(-0.5, 0.5) * s),
          static_cast<S>(c.real(-0.5, 0.5) * s);
      gen.setState(x);
      c.check(gen.getState() == x, "the state read back is not the state set");
      c.note("state ", show(toVec(x)));
    }

    qp::Problem problem(const Kin& s, R slack, R* constant) const
    {
      qp::Problem q;
      q.Q = static_cast<R>(weight.jerkMinimization) * Mat::Identity(N, N);
      q.p = Vec::Zero(N);
      R k = 0;
      Vec st(3);
      st << s.p, s.v, s.a;
      const RefDynamic pos = refDynamic(Pos, N, T, T), vel = refDynamic(Vel, N, T, T),
                       acc = refDynamic(Acc, N, T, T);
      auto cost = [&](R w, const Mat& J, const Vec& r)
      {
        if (!(w > 0)) return;
        q.Q += w * J.transpose() * J;
        q.p += w * J.transpose() * r;
        k += w * r.dot(r) / 2;
      };
      cost(weight.velocityTracking, vel.U, vel.S * st - velRef);
      cost(weight.positionTracking, pos.U, pos.S * st - posRef);
      const bool m = config.withMotionConstraints;
      q.xl = Vec::Constant(N, m ? -static_cast<R>(jmax) - slack : -1e30L);
      q.xu = Vec::Constant(N, m ? static_cast<R>(jmax) + slack : 1e30L);
      q.A = Mat::Zero(m ? 2 * N : 0, N);
      q.bl = Vec::Zero(m ? 2 * N : 0);
      q.bu = q.bl;
      if (m)
      {
        q.A << vel.U, acc.U;
        const Vec v0 = vel.S * st, a0 = acc.S * st;
        q.bl << Vec::Constant(N, -static_cast<R>(vmax) - slack) - v0,
            Vec::Constant(N, -static_cast<R>(amax) - slack) - a0;
        q.bu << Vec::Constant(N, static_cast<R>(vmax) + slack) - v0,
            Vec::Constant(N, static_cast<R>(amax) + slack) - a0;
      }
      if (constant) *constant = k;
      return q;
    }

    enum Outcome { Judged, Unjudged, Failed };
    Outcome cycle(Ctx& c, S fb)
    {
      if (stale) references(c);
      const Kin s = Kin::of(gen.getState());
      const bool ok = gen.solve(fb);
      const Kin e = Kin::of(gen.getState());
      const R u = gen.getJerk();
      active = 0;
      {
        const Kin x = s.after(u, fb);
        const R size = 1 + std::abs(s.p) + std::abs(s.v) + std::abs(s.a) + std::abs(u);
        const R tol = 40 * eps<S>() * size;
        if (ok && (!(std::abs(e.p - x.p) <= tol) || !(std::abs(e.v - x.v) <= tol) ||
                   !(std::abs(e.a - x.a) <= tol)))
          c.fail("the state did not move under its jerk " + str(u) + ": " + str(e.p) + " " +
                 str(e.v) + " " + str(e.a) + " for " + str(x.p) + " " + str(x.v) + " " + str(x.a));
      }
      if (std::is_same<S, float>::value) return ok ? Unjudged : Failed;
      R scale = 0;
      const qp::Problem q = problem(s, 0, &scale);
      const qp::Solution best = qp::solve(q);
      c.note("solve(", fb, ") = ", ok, ": jerk ", (double)u, "; reference status ", best.status,
             " active ", best.nbActive, " jerk ", (double)best.x(0));
      if (!ok)
      {
        const qp::Solution tight = qp::solve(problem(s, -1e-6L, nullptr));
        c.check(!(tight.status == qp::Optimal && best.status == qp::Optimal),
                "a feasible problem is reported as not solved");
        c.label("no plan");
        return Failed;
      }
      if (best.status != qp::Optimal)
      {
        const qp::Solution loose = qp::solve(problem(s, 1e-5L, nullptr));
        c.check(loose.status != qp::Infeasible, "a problem without solution is reported as solved");
        c.label("reference not solved");
        return Unjudged;
      }
      active = best.nbActive;
      const R d = std::abs(u - best.x(0)) / (1 + best.x.cwiseAbs().maxCoeff());
      if (d <= 1e-6L) return Judged;
      c.label("judged by its cost");
      qp::Problem with = problem(s, 1e-6L, nullptr);
      const R w = 1e-9L * (1 + std::abs(u));
      with.xl(0) = u - w;
      with.xu(0) = u + w;
      const qp::Solution applied = qp::solve(with);
      const qp::Solution tight = qp::solve(problem(s, -1e-6L, nullptr));
      if (tight.status != qp::Optimal) { c.label("no tightened plan"); return Unjudged; }
      c.check(applied.status != qp::Infeasible, "what was applied leaves no feasible plan");
      const R got = qp::objective(q, applied.x), worst = qp::objective(q, tight.x);
      c.check(got <= worst + 1e-7L * scale, "what was applied is not optimal: its best cost is " +
              str(got) + ", but " + str(worst) + " can be reached");
      return Unjudged;
    }
  };
}
