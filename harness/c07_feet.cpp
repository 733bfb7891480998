// C07: swing feet land on their target; stance feet never move.
#include "humanoid_common.h"
#include "spline.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> struct Feet
  {
    VX<S> x[2], y[2], z[2];   // left, right
    explicit Feet(const HumanoidFeetSupervisor<S>& s)
      : x{s.getLeftFootStateX(), s.getRightFootStateX()},
        y{s.getLeftFootStateY(), s.getRightFootStateY()},
        z{s.getLeftFootStateZ(), s.getRightFootStateZ()} {}
  };
  template <typename S> bool still(const Feet<S>& a, const Feet<S>& b, int f)
  { return a.x[f] == b.x[f] && a.y[f] == b.y[f] && a.z[f] == b.z[f]; }
}

TYPED_LAW(feet_over_walks,
          "a random walking history of up to 150 cycles with random landing plans that may change "
          "every cycle; the standing feet are unchanged, the swing foot takes the interpolated "
          "path, is at rest on the ground on its target when its step ends; non-trivial: at least "
          "one complete step", 40000, 800000)
{
  Walk<Scalar> w(c);
  if (c.chance(3, 4)) w.setMove(true);
  const int cycles = c.integer(3, 150);
  const bool replan = c.flip(), timings = c.flip();
  int steps = 0;
  VX<Scalar> plan;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c, timings);
    if (c.chance(1, 12))
    {
      const bool left = c.flip();
      const Scalar h = static_cast<Scalar>(c.real(0.01, 0.1));
      if (left) { w.maxL = h; w.sup->setLeftFootMaxHeight(h); }
      else { w.maxR = h; w.sup->setRightFootMaxHeight(h); }
      if (w.sim.remaining > 0) w.midStepChange = true;
      c.note(left ? "left" : "right", " step height ", h);
    }
    w.beginCycle();
    const PhaseSim& r = w.sim;
    if (replan || i == 0 || r.remaining == r.duration || plan.size() != 2 * r.M)
    {
      w.plan(c);
      plan = w.variable.tail(2 * r.M);
    }
    else
      w.variable.tail(2 * r.M) = plan;
    const Feet<Scalar> a(*w.sup);
    const int type = r.type, remaining = r.remaining, duration = r.duration;
    const bool swing = r.swinging();
    w.endCycle();
    const Feet<Scalar> b(*w.sup);
    c.note("cycle ", i, ": ", type == 0 ? "DS" : type == 1 ? "left" : "right", " remaining=",
           remaining, "/", duration, " f=", w.f, " z=", b.z[0](0), " ", b.z[1](0));
    const int fly = type == PhaseSim::Left ? 1 : type == PhaseSim::Right ? 0 : -1;
    for (int f = 0; f < 2; ++f)
      if (f != fly || !swing)
        c.check(still(a, b, f), (f ? std::string("the right") : std::string("the left")) +
                " foot moved while it stands");
    if (!swing) continue;
    // a foot that flies: the interpolated motion to the plan over the time that is left
    const R left = w.time(remaining), now = w.feedback();
    const VX<Scalar> target = w.variable.tail(2 * r.M);
    const R goal[2] = {target(0), target(r.M)};
    const R airHalf = w.time(duration - w.k) / R(2);
    const R height = fly ? w.maxR : w.maxL;
    const VX<Scalar>* from[3] = {&a.x[fly], &a.y[fly], &a.z[fly]};
    const VX<Scalar>* to[3] = {&b.x[fly], &b.y[fly], &b.z[fly]};
    for (int o = 0; o < 3; ++o)
    {
      Kin k = Kin::of(*from[o]);
      if (o < 2) k = Spline(k, Kin(goal[o], 0, 0), left).at(now);
      else
      {
        // up to the step height until the middle of the flight, and down
        R t = now, l = left;
        if (2 * remaining > duration - w.k)
        {
          const R up = left - airHalf;
          const R d = std::min(t, up);
          k = Spline(k, Kin(height, 0, 0), up).at(d);
          t -= d; l = airHalf;
          if (t < 1e-9L) t = 0;
        }
        if (t > 0) k = Spline(k, Kin(), l).at(t);
      }
      const R size = std::abs((*from[o])(0)) + (o < 2 ? std::abs(goal[o]) : height) +
                     left * std::abs((*from[o])(1)) + left * left * std::abs((*from[o])(2));
      const R tol = (1e4L * eps<Scalar>() + 1e-10L) * (size + 0.01L);
      const char* axis = o == 0 ? "x" : o == 1 ? "y" : "z";
      const std::string foot = std::string(fly ? "right" : "left") + " foot " + axis;
      c.near((*to[o])(0), k.p, tol, foot + " position");
      c.near((*to[o])(1), k.v, 10 * tol / now, foot + " velocity");
      c.near((*to[o])(2), k.a, 60 * tol / now / now, foot + " acceleration");
      if (remaining == w.f)
      {
        const R end = o < 2 ? goal[o] : 0;
        c.near((*to[o])(0), end, tol, foot + " position at the end of the step");
        c.near((*to[o])(1), 0, 10 * tol / now, foot + " velocity at the end of the step");
        c.near((*to[o])(2), 0, 60 * tol / now / now, foot + " acceleration at the end of the step");
      }
    }
    if (!w.midStepChange)
    {
      // planning the three pieces anew in every cycle bends the path a little
      c.check(b.z[fly](0) > -0.02L * height - 1e-4L, "the swing foot is below the ground");
      c.check(b.z[fly](0) < 1.02L * height + 1e-4L, "the swing foot is above the step height");
    }
    if (remaining == w.f) { ++steps; c.label("step ended"); }
    c.label(2 * remaining > duration - w.k && 2 * (remaining - w.f) < duration - w.k,
            "top of the step inside a cycle");
  }
  c.nontrivial(steps >= 1);
}
