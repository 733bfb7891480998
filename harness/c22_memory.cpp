// C22: no valid call history has undefined behaviour.  These laws make histories that the others
// do not: long horizons, late resizing, objects that outlive what they were given, arguments that
// are an object's own state.  What counts is what a sanitiser or a failed assertion says.
#include "humanoid_gen.h"
#include "traj_gen.h"
#include "zebulon_gen.h"
#include <memory>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  /// a polygon made of anything: 1 to 12 points, equal and aligned ones too
  template <typename S> ConvexPolygon<S> anyPolygon(Ctx& c, R cx, R cy)
  {
    VV2<S> p;
    const int n = c.integer(3, 12);
    for (int i = 0; i < n; ++i)
    {
      V2<S> v;
      v << static_cast<S>(cx + (c.below(9) - 4) * 0.02L), static_cast<S>(cy + (c.below(5) - 2) * 0.02L);
      p.push_back(v);
    }
    return ConvexPolygon<S>(p);
  }
  template <typename S> void touch(Ctx& c, const VX<S>& v)
  {
    S s = 0;
    for (int i = 0; i < v.size(); ++i) s += v(i);
    c.label(s != s, "a state is not a number");   // and a use of every element
  }
  /// an object on a dirty part of the heap, at another place every time
  template <typename T> std::unique_ptr<T> anew(Ctx& c)
  {
    std::vector<std::unique_ptr<char[]> > holes;
    for (int i = c.below(4); i > 0; --i)
    {
      const int n = 64 << c.below(8);
      holes.emplace_back(new char[n]);
      std::fill_n(holes.back().get(), n, static_cast<char>(0xff));
    }
    if (c.flip()) holes.clear();
    return std::unique_ptr<T>(new T());
  }
}

TYPED_LAW(humanoid,
          "humanoid generators with up to 16 samples, walked through commands, resized at any "
          "time, with soles of any points, setters in any state, states passed back into their own "
          "setters, several objects that live and die in turn; non-trivial: a step and a resizing",
          3000, 60000)
{
  typedef Scalar S;
  bool resized = false, stepped = false;
  for (int life = c.integer(1, 2); life > 0; --life)
  {
    std::unique_ptr<Rig<S> > rig(new Rig<S>(c, 16));
    Rig<S>& g = *rig;
    Walk<S>& w = g.w;
    if (c.chance(3, 4)) w.setMove(true);
    const int cycles = c.integer(1, 30);
    for (int i = 0; i < cycles; ++i)
    {
      w.command(c);
      switch (c.below(18))
      {
        case 17: g.weights(c); break;
        case 16: g.reference(c); break;
        case 15: g.config(c); break;
        case 14: g.place(c); break;
        case 13: g.height(c); break;
        case 12: if (w.sim.type == PhaseSim::DS) g.moveFeet(c); break;
        case 11: g.polygons(c); break;
        case 10:
        {
          const int which = c.below(2);
          const ConvexPolygon<S> p = anyPolygon<S>(c, 0, 0);
          if (which) g.gen.setLeftFootCopConvexPolygon(p);
          else g.gen.setRightFootCopConvexPolygon(p);
          c.note("sole of ", p.getNbVertices(), " corners");
          break;
        }
        case 9:
        {
          const int which = c.below(2);
          const ConvexPolygon<S> p = anyPolygon<S>(c, 0.05L, which ? -0.2L : 0.2L);
          if (which) g.gen.setLeftFootKinematicConvexPolygon(p);
          else g.gen.setRightFootKinematicConvexPolygon(p);
          c.note("reach of ", p.getNbVertices(), " corners");
          break;
        }
        case 8:
        {
          const int least = (w.sim.step + w.k - 1) / w.k;
          const int n = c.integer(std::max(2, least), 18);
          g.gen.setNbSamples(n);
          w.sim.N = n;
          w.sup->setNbSamples(n);
          g.goal.ref = Vec::Zero(2 * n);
          g.reference(c);
          w.variable = VX<S>::Zero(2 * n + 2 * w.sim.M);
          c.note("N=", n);
          resized = true;
          break;
        }
        case 7:
          g.gen.setComStateX(g.gen.getComStateX());
          g.gen.setComStateY(g.gen.getComStateX());
          g.gen.setLeftFootStateX(g.gen.getLeftFootStateX());
          break;
        case 6:
          g.gen.setAngularVelRefInWorldFrame(VX<S>::Zero(w.sim.N));
          g.gen.setLeftFootYawUpperBound(static_cast<S>(0.5));
          g.gen.setLeftFootYawLowerBound(static_cast<S>(-0.1));
          g.gen.setRightFootYawUpperBound(static_cast<S>(0.1));
          g.gen.setRightFootYawLowerBound(static_cast<S>(-0.5));
          g.gen.setLeftFootYawSpeedUpperBound(1);
          g.gen.setRightFootYawSpeedUpperBound(1);
          g.gen.setLeftFootYawAccelerationUpperBound(1);
          g.gen.setRightFootYawAccelerationUpperBound(1);
          break;
        default: break;
      }
      const PhaseSim before = w.sim;
      w.sim.beginCycle();
      const bool ok = g.gen.solve(w.feedback());
      c.note("cycle ", i, " phase ", w.sim.type, " remaining ", w.sim.remaining, " solved ", ok);
      w.sim.endCycle(w.f);
      stepped = stepped || w.sim.stepEnded;
      for (const VX<S>* v : {&g.gen.getComStateX(), &g.gen.getComStateY(), &g.gen.getLeftFootStateX(),
                             &g.gen.getRightFootStateX(), &g.gen.getLeftFootStateZ()})
        touch<S>(c, *v);
      if (!ok || std::abs(g.gen.getComStateX()(0)) + std::abs(g.gen.getComStateY()(0)) > 20)
      {
        VX<S> s = VX<S>::Zero(3);
        s(0) = g.gen.getLeftFootStateX()(0); g.gen.setComStateX(s);
        s(0) = g.gen.getLeftFootStateY()(0); g.gen.setComStateY(s);
      }
    }
  }
  c.label(resized, "resized");
  c.label(stepped, "a step");
  c.nontrivial(resized && stepped);
}

TYPED_LAW(mobile_base,
          "generators of the mobile base with up to 16 samples under any sequence of setters and "
          "solves, states passed back into their own setters; non-trivial: two resizings and a "
          "solve", 4000, 80000)
{
  typedef Scalar S;
  const std::unique_ptr<ZebRig<S> > rig = anew<ZebRig<S> >(c);
  ZebRig<S>& r = *rig;
  r.weights(c);
  const int n = c.integer(2, 40);
  int resized = 0, solved = 0;
  for (int i = 0; i < n; ++i)
    switch (c.below(24))
    {
      case 0: r.samples(c, 16); ++resized; break;
      case 1: r.period(c); break;
      case 2: r.gravity(c); break;
      case 3: case 4: r.heights(c, c.below(2)); break;
      case 5: case 6: r.masses(c, c.below(2)); break;
      case 7: r.polygon(c, 0); break;
      case 8: r.polygon(c, 1); break;
      case 9: r.weights(c); break;
      case 10: r.constraints(c); break;
      case 11: r.references(c); break;
      case 12: r.limits(c, c.below(3)); break;
      case 13: r.contact(c); break;
      case 14: r.tiltState(c); break;
      case 15: r.heading(c); break;
      case 16: r.place(c); break;
      case 17:
        r.gen.setComStateX(r.gen.getBaseStateX());
        r.gen.setBaseStateX(r.gen.getBaseStateX());
        r.gen.setBaseStateY(r.gen.getComStateY());
        break;
      case 18:
      {
        const ConvexPolygon<S> p = anyPolygon<S>(c, 0, 0);
        if (p.getNbVertices() < 3) break;   // as its setters ask
        if (c.flip()) r.gen.setBaseCopConvexPolygon(p);
        else r.gen.setBaseComConvexPolygon(p);
        break;
      }
      default:
        if (r.stale) r.references(c);
        c.note("solve ", r.gen.solve(r.p.T * static_cast<S>(c.pick<double>({1, 0.5, 0.1}))));
        ++solved;
        for (const VX<S>* v : {&r.gen.getComStateX(), &r.gen.getComStateY(), &r.gen.getBaseStateX(),
                               &r.gen.getBaseStateY()})
        {
          touch<S>(c, *v);
          if (std::abs((*v)(0)) > 20) { r.place(c); break; }
        }
    }
  c.nontrivial(resized >= 2 && solved);
}

TYPED_LAW(one_dimension,
          "one-dimensional generators with up to 30 samples under any sequence of setters and "
          "solves; non-trivial: two resizings and a solve", 4000, 80000)
{
  typedef Scalar S;
  const std::unique_ptr<TrajRig<S> > rig = anew<TrajRig<S> >(c);
  TrajRig<S>& r = *rig;
  r.weights(c);
  const int n = c.integer(2, 40);
  int resized = 0, solved = 0;
  for (int i = 0; i < n; ++i)
    switch (c.below(12))
    {
      case 0: r.samples(c, 30); ++resized; break;
      case 1: r.period(c); break;
      case 2: r.weights(c); break;
      case 3: r.constraints(c); break;
      case 4: r.references(c); break;
      case 5: r.limits(c, c.below(3)); break;
      case 6: r.place(c); break;
      case 7: r.gen.setState(r.gen.getState()); break;
      default:
        if (r.stale) r.references(c);
        c.note("solve ", r.gen.solve(r.T * static_cast<S>(c.pick<double>({1, 0.5, 0.1}))), " jerk ",
               r.gen.getJerk());
        ++solved;
        touch<S>(c, r.gen.getState());
        if (std::abs(r.gen.getState()(0)) > 20) r.place(c);
    }
  c.nontrivial(resized >= 2 && solved);
}
