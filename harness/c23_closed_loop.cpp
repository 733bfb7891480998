// C23: what the generators are for, over long runs: a robot that walks, stays up and goes as fast
// as it is told; a mobile base and an axis that reach their goals within their limits.
#include "humanoid_gen.h"
#include <mpc-walkgen/trajectory_walkgen.h>
#include <mpc-walkgen/zebulon_walkgen.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  const R kG = 9.81L;
  /// how far a point is out of a convex polygon (negative: inside)
  R outside(const std::vector<P2>& h, R x, R y)
  {
    R d = -1e9L;
    for (size_t i = 0; i < h.size(); ++i)
    {
      const P2 &a = h[i], &b = h[(i + 1) % h.size()];
      const R l = std::hypot(b.x - a.x, b.y - a.y);
      d = std::max(d, ((b.y - a.y) * (x - a.x) - (b.x - a.x) * (y - a.y)) / l);
    }
    return d;
  }
  std::vector<P2> box(R cx, R cy, R rx, R ry)
  {
    return hull(std::vector<P2>{{cx - rx, cy - ry}, {cx + rx, cy - ry}, {cx + rx, cy + ry},
                                {cx - rx, cy + ry}});
  }
  std::vector<P2> disc(R r, int n, R turn)
  {
    std::vector<P2> p;
    for (int i = 0; i < n; ++i)
    {
      const R a = 2 * 3.14159265358979323846L * (i + turn) / n;
      p.push_back(P2{r * std::cos(a), r * std::sin(a)});
    }
    return hull(p);
  }
  std::vector<P2> at(std::vector<P2> p, const P2& o)
  {
    for (P2& v : p) { v.x += o.x; v.y += o.y; }
    return p;
  }
  template <typename S> VX<S> state(R p, R v = 0, R a = 0)
  {
    VX<S> x(3);
    x << static_cast<S>(p), static_cast<S>(v), static_cast<S>(a);
    return x;
  }
  template <typename S> ConvexPolygon<S> polygon(const std::vector<P2>& p)
  { return ConvexPolygon<S>(points<S>(p)); }
  R larger(R a, R b) { return std::max(std::abs(a), std::abs(b)); }
}

TYPED_LAW(walk_on_command,
          "a robot of human proportions (body at 0.75-0.9 m, 17-18 samples of 0.1 s, steps of "
          "0.6-0.7 s) walks, stops and changes its speed (up to 0.2 m/s forward, 0.06 m/s "
          "sideways) on command for up to 16 s, now and then pushed: every cycle is solved, it "
          "never falls, its CoP is in the sole on the ground at every sample, feet land within "
          "reach, it reaches the commanded forward speed and comes to rest; non-trivial: three "
          "steps", 250, 6000)
{
  typedef Scalar S;
  const bool exact = sizeof(S) == sizeof(double);
  const int N = c.integer(17, 18), k = c.pick<int>({1, 2, 4, 5});
  const S T = static_cast<S>(0.1);
  const int step = k * c.integer(6, 7), ds = k * c.integer(8, 14);
  PhaseSim sim(N, k);
  sim.step = step;
  sim.ds = sim.duration = sim.remaining = ds;
  const R h = c.real(0.75, 0.9), half = c.real(0.08, 0.1);
  const P2 o = {c.real(-3, 3), c.real(-3, 3)};
  const std::vector<P2> sole = box(0.02L, 0, c.real(0.08, 0.12), c.real(0.04, 0.06));
  const R rx = c.real(0.28, 0.35);
  const std::vector<P2> kinL = box(0, -2 * half - 0.07L, rx, 0.1L),
                        kinR = box(0, 2 * half + 0.07L, rx, 0.1L);
  HumanoidWalkgen<S> g;
  g.setNbSamples(N);
  g.setSamplingPeriod(T);
  g.setStepPeriod(T * step / k);
  g.setInitialDoubleSupportLength(T * ds / k);
  g.setComStateZ(state<S>(h));
  g.setLeftFootStateX(state<S>(o.x));
  g.setRightFootStateX(state<S>(o.x));
  g.setLeftFootStateY(state<S>(o.y + half));
  g.setRightFootStateY(state<S>(o.y - half));
  g.setComStateX(state<S>(o.x + c.real(-0.02, 0.02), c.real(-0.05, 0.05)));
  g.setComStateY(state<S>(o.y + c.real(-0.03, 0.03), c.real(-0.05, 0.05)));
  g.setLeftFootCopConvexPolygon(polygon<S>(sole));
  g.setRightFootCopConvexPolygon(polygon<S>(sole));
  g.setLeftFootKinematicConvexPolygon(polygon<S>(kinL));
  g.setRightFootKinematicConvexPolygon(polygon<S>(kinR));
  g.setLeftFootMaxHeight(static_cast<S>(0.05));
  g.setRightFootMaxHeight(static_cast<S>(0.05));
  HumanoidWalkgenWeighting<S> w;
  w.velocityTracking = 1;
  w.copCentering = static_cast<S>(c.logReal(0.1, 1));
  w.jerkMinimization = static_cast<S>(c.logReal(1e-5, 1e-3));
  g.setWeightings(w);
  HumanoidWalkgenConfig<S> config;
  config.withCopConstraints = config.withFeetConstraints = true;
  g.setConfig(config);
  c.note("N=", N, " ticks/sample=", k, " step=", step, " DS=", ds, " height ", (double)h,
         " stance ", (double)half, " sole ", (double)sole[0].x, " ", (double)sole[0].y, " reach ",
         (double)rx, " weights ", w.copCentering, " ", w.jerkMinimization);
  R vx = 0, vy = 0;
  R farthest = 0;
  int since = 0, rest = 0, steps = 0;
  std::vector<R> marks;   // the body at the end of each step, since the last command
  auto command = [&]()
  {
    vx = sim.move ? c.real(-0.2, 0.2) : 0;
    vy = sim.move ? c.real(-0.06, 0.06) : 0;
    VX<S> v(2 * N);
    v.head(N).setConstant(static_cast<S>(vx));
    v.tail(N).setConstant(static_cast<S>(vy));
    g.setVelRefInWorldFrame(v);
    c.note(sim.move ? "walk " : "stand ", (double)vx, " ", (double)vy);
    since = 0;
    marks.clear();
  };
  command();
  const int f = c.flip() ? 1 : k;
  const S fb = T * static_cast<S>(f) / static_cast<S>(k);
  const R w0 = std::sqrt(h / kG), margin = exact ? 1e-4L : 3e-2L;
  const int cycles = k / f * c.integer(20, 160);
  for (int i = 0; i < cycles; ++i)
  {
    if (sim.remaining % k == 0)
    {
      // it sets off from rest, and the weight needs 0.8 s to come over the first stance foot
      const bool may = sim.move ? sim.type != PhaseSim::DS
                                : sim.type == PhaseSim::DS && sim.remaining >= 8 * k;
      if (may && (i == 0 ? c.chance(4, 5) : c.chance(1, sim.move ? 80 : 15)))
      {
        sim.move = !sim.move;
        g.setMove(sim.move);
        command();
      }
      else if (c.chance(1, 60)) command();
      if (c.chance(1, 60))
      {
        const R px = c.real(-0.02, 0.02), py = c.real(-0.01, 0.01);
        VX<S> s = g.getComStateX();
        s(1) += static_cast<S>(px);
        g.setComStateX(s);
        s = g.getComStateY();
        s(1) += static_cast<S>(py);
        g.setComStateY(s);
        c.note("pushed ", (double)px, " ", (double)py);
        since = 0;
        marks.clear();
        rest = 0;
      }
    }
    sim.beginCycle();
    const P2 l = {g.getLeftFootStateX()(0), g.getLeftFootStateY()(0)};
    const P2 r = {g.getRightFootStateX()(0), g.getRightFootStateY()(0)};
    if (sim.stepEnded)
    {
      ++steps;
      ++since;
      // the foot that came down is now the support, unless the walk ends
      const R dx = l.x - r.x, dy = l.y - r.y;
      const R far = sim.type == PhaseSim::Left ? outside(kinR, dx, dy)
                    : sim.type == PhaseSim::Right ? outside(kinL, -dx, -dy)
                    : std::min(outside(kinR, dx, dy), outside(kinL, -dx, -dy));
      c.check(far < (exact ? 1e-4L : 1e-2L), "a foot landed " + str(far) + " m out of reach");
      marks.push_back(g.getComStateX()(0));
    }
    if (sim.type == PhaseSim::DS && !sim.move) ++rest;
    else rest = 0;
    if (sim.type == PhaseSim::DS) marks.clear();
    c.check(g.solve(fb), "cycle " + str(i) + " is not solved");
    sim.endCycle(f);
    const Kin X = Kin::of(g.getComStateX()), Y = Kin::of(g.getComStateY());
    const P2 cop = {X.p - h / kG * X.a, Y.p - h / kG * Y.a};
    c.note(i, " phase ", sim.type, " remaining ", sim.remaining, " body ", (double)X.p, " ",
           (double)X.v, " ", (double)Y.p, " ", (double)Y.v, " cop ", (double)cop.x, " ",
           (double)cop.y);
    if (sim.remaining % k == 0)
    {
      // a foot lands at the end of its step
      const P2 l1 = {g.getLeftFootStateX()(0), g.getLeftFootStateY()(0)};
      const P2 r1 = {g.getRightFootStateX()(0), g.getRightFootStateY()(0)};
      std::vector<P2> p;
      if (sim.type != PhaseSim::Right || sim.remaining == 0) p = at(sole, l1);
      if (sim.type != PhaseSim::Left || sim.remaining == 0)
        for (const P2& v : at(sole, r1)) p.push_back(v);
      const R out = outside(hull(p), cop.x, cop.y);
      c.check(out < margin, "the CoP is " + str(out) + " m out of the support");
    }
    const R capture =  std::hypot(X.p + w0 * X.v - (l.x + r.x) / 2, Y.p + w0 * Y.v - (l.y + r.y) / 2);
    farthest = std::max(farthest, capture);
    c.check(capture < 0.5L, "it falls: its capture point is " + str(capture) + " m from its feet");
    if (since >= 6 && marks.size() >= 3)
    {
      const R v = (marks.back() - marks[marks.size() - 3]) / (2 * step * 0.1L / k);
      c.label("speed judged");
      c.check(std::abs(v - vx) < 0.04L, "it walks at " + str(v) + " m/s instead of " + str(vx));
    }
    if (rest * f > 50 * k)
    {
      c.label("rest judged");
      c.check(std::hypot(X.v, Y.v) < 0.02L, "it does not come to rest, but moves at " +
              str(std::hypot(X.v, Y.v)) + " m/s");
    }
  }
  c.nontrivial(steps >= 3);
  for (R v : {0.1L, 0.2L, 0.3L, 0.4L}) c.label(farthest > v, "capture point over " + str(v) + " m");
}

LAW(base_reaches_its_goal,
    "a mobile base with a body on it (2 axes, 8-10 samples, usual sizes and weights, every "
    "constraint on) sent from goal to goal: every cycle is solved, velocity, acceleration and jerk "
    "keep to their limits, CoP and CoM to their regions, and base and body come to the goal; "
    "non-trivial: the arrival was judged", 100, 4000)
{
  typedef double S;
  ZebulonWalkgen<S> g;
  const int N = c.integer(8, 10);
  const S T = c.pick<double>({0.2, 0.15});
  const R h = c.real(0.6, 0.9), L = c.real(0.1, 0.2), m = c.real(8, 20), M = c.real(8, 20);
  g.setNbSamples(N);
  g.setSamplingPeriod(T);
  g.setComBodyHeight(static_cast<S>(h));
  g.setComBaseHeight(static_cast<S>(L));
  g.setBodyMass(static_cast<S>(m));
  g.setBaseMass(static_cast<S>(M));
  const R r = c.real(0.1, 0.18);
  const std::vector<P2> copZone = disc(r, 8, c.pick<double>({0.5, 0, 0.2}));
  const std::vector<P2> comZone = disc(1.2L * r, c.integer(5, 8), 0.5L);
  g.setBaseCopConvexPolygon(polygon<S>(copZone));
  g.setBaseComConvexPolygon(polygon<S>(comZone));
  ZebulonWalkgenWeighting<S> w;
  w.positionTracking = c.logReal(2, 10);
  w.velocityTracking = c.logReal(0.1, 0.5);
  w.copCentering = c.logReal(0.1, 3);
  w.comCentering = c.logReal(0.1, 3);
  w.jerkMinimization = c.logReal(1e-5, 1e-3);
  g.setWeightings(w);
  ZebulonWalkgenConfig<S> config;
  config.withCopConstraints = config.withComConstraints = config.withBaseMotionConstraints = true;
  g.setConfig(config);
  const R vm = c.real(0.3, 1.5), am = c.real(0.5, 3), jm = c.real(30, 160);
  g.setBaseVelLimit(static_cast<S>(vm));
  g.setBaseAccLimit(static_cast<S>(am));
  g.setBaseJerkLimit(static_cast<S>(jm));
  g.setVelRefInWorldFrame(VX<S>::Zero(2 * N));
  g.setCopRefInLocalFrame(VX<S>::Zero(2 * N));
  g.setComRefInLocalFrame(VX<S>::Zero(2 * N));
  const P2 o = {c.real(-2, 2), c.real(-2, 2)};
  g.setBaseStateX(state<S>(o.x));
  g.setBaseStateY(state<S>(o.y));
  g.setComStateX(state<S>(o.x));
  g.setComStateY(state<S>(o.y));
  const int parts = c.pick<int>({1, 2, 4});
  const S fb = T / parts;
  c.note("N=", N, " T=", T, " fb=", fb, " heights ", (double)h, " ", (double)L, " masses ",
         (double)m, " ", (double)M, " radius ", (double)r, " weights ", w.positionTracking, " ",
         w.velocityTracking, " ", w.copCentering, " ", w.comCentering, " ", w.jerkMinimization,
         " limits ", (double)vm, " ", (double)am, " ", (double)jm);
  for (int goals = c.integer(1, 2); goals > 0; --goals)
  {
    const P2 t = {o.x + c.real(-2, 2), o.y + c.real(-2, 2)};
    VX<S> p(2 * N);
    p.head(N).setConstant(static_cast<S>(t.x));
    p.tail(N).setConstant(static_cast<S>(t.y));
    g.setPosRefInWorldFrame(p);
    c.note("goal ", (double)t.x, " ", (double)t.y);
    // time to come there at full speed, to speed up and down, and to settle
    const R way = larger(Kin::of(g.getBaseStateX()).p - t.x, Kin::of(g.getBaseStateY()).p - t.y);
    const R enough = way / vm + vm / am + 2 * std::sqrt(way / am) + 12;
    const R time = c.chance(1, 3) ? c.real(0.2, 4) : enough;
    for (R s = 0; s < time; s += fb)
    {
      const Kin bx0 = Kin::of(g.getBaseStateX()), by0 = Kin::of(g.getBaseStateY());
      c.check(g.solve(fb), "a cycle is not solved");
      const Kin bx = Kin::of(g.getBaseStateX()), by = Kin::of(g.getBaseStateY()),
                cx = Kin::of(g.getComStateX()), cy = Kin::of(g.getComStateY());
      const R zx = (m * (cx.p - h / kG * cx.a) + M * (bx.p - L / kG * bx.a)) / (m + M) - bx.p;
      const R zy = (m * (cy.p - h / kG * cy.a) + M * (by.p - L / kG * by.a)) / (m + M) - by.p;
      c.note("base ", (double)bx.p, " ", (double)bx.v, " ", (double)bx.a, " / ", (double)by.p, " ",
             (double)by.v, " ", (double)by.a, " body ", (double)cx.p, " ", (double)cy.p, " cop ",
             (double)zx, " ", (double)zy);
      // What bounds hold at the samples of a plan, at the end of its first period at the soonest;
      // a shorter cycle ends before.
      const R e = 1e-6L, slack = parts == 1 ? e : 0.02L;
      c.check(larger(bx.v, by.v) < vm + (parts == 1 ? e : am * T / 2), "too fast");
      c.check(larger(bx.a, by.a) < am + e, "too great an acceleration");
      c.check(larger(bx.a - bx0.a, by.a - by0.a) / fb < jm * (1 + e), "too great a jerk");
      c.check(outside(copZone, zx, zy) < slack, "the CoP is out of its region");
      c.check(outside(comZone, cx.p - bx.p, cy.p - by.p) < slack, "the body is out of its region");
    }
    if (time == enough)
    {
      const Kin bx = Kin::of(g.getBaseStateX()), by = Kin::of(g.getBaseStateY()),
                cx = Kin::of(g.getComStateX()), cy = Kin::of(g.getComStateY());
      c.check(larger(bx.p - t.x, by.p - t.y) < 0.05L, "the base does not come to its goal, but to " +
              str(bx.p) + " " + str(by.p));
      c.check(larger(cx.p - t.x, cy.p - t.y) < 0.05L, "the body does not come to the goal, but to " +
              str(cx.p) + " " + str(cy.p));
      c.nontrivial();
    }
  }
}

LAW(axis_reaches_its_goal,
    "an axis (10-16 samples, every limit on) sent from goal to goal: every cycle is solved, "
    "velocity, acceleration and jerk keep to their limits, and it comes to the goal; non-trivial: "
    "the arrival was judged", 500, 20000)
{
  typedef double S;
  TrajectoryWalkgen<S> g;
  const int N = c.integer(10, 16);
  const S T = c.pick<double>({0.1, 0.15, 0.2});
  g.setNbSamples(N);
  g.setSamplingPeriod(T);
  TrajectoryWalkgenWeighting<S> w;
  w.positionTracking = c.logReal(1, 10);
  w.velocityTracking = c.logReal(0.1, 1);
  w.jerkMinimization = c.logReal(1e-6, 1e-3);
  g.setWeightings(w);
  TrajectoryWalkgenConfig<S> config;
  config.withMotionConstraints = true;
  g.setConfig(config);
  const R vm = c.real(0.3, 1.5), am = c.real(0.5, 3), jm = c.real(30, 160);
  g.setVelLimit(static_cast<S>(vm));
  g.setAccLimit(static_cast<S>(am));
  g.setJerkLimit(static_cast<S>(jm));
  g.setVelRefInWorldFrame(VX<S>::Zero(N));
  const R o = c.real(-2, 2);
  g.setState(state<S>(o));
  const int parts = c.pick<int>({1, 2, 5});
  const S fb = T / parts;
  c.note("N=", N, " T=", T, " fb=", fb, " weights ", w.positionTracking, " ", w.velocityTracking,
         " ", w.jerkMinimization, " limits ", (double)vm, " ", (double)am, " ", (double)jm);
  for (int goals = c.integer(1, 3); goals > 0; --goals)
  {
    const R t = o + c.real(-2, 2);
    g.setPosRefInWorldFrame(VX<S>::Constant(N, static_cast<S>(t)));
    c.note("goal ", (double)t);
    const R way = std::abs(Kin::of(g.getState()).p - t);
    const R enough = way / vm + vm / am + 2 * std::sqrt(way / am) + 12;
    const R time = c.chance(1, 3) ? c.real(0.2, 4) : enough;
    for (R s = 0; s < time; s += fb)
    {
      const Kin b0 = Kin::of(g.getState());
      c.check(g.solve(fb), "a cycle is not solved");
      const Kin b = Kin::of(g.getState());
      c.note("axis ", (double)b.p, " ", (double)b.v, " ", (double)b.a);
      const R e = 1e-6L;
      c.check(std::abs(b.v) < vm + (parts == 1 ? e : am * T / 2), "too fast");
      c.check(std::abs(b.a) < am + e, "too great an acceleration");
      c.check(std::abs(b.a - b0.a) / fb < jm * (1 + e), "too great a jerk");
    }
    if (time == enough)
    {
      const Kin b = Kin::of(g.getState());
      c.check(std::abs(b.p - t) < 0.05L, "it does not come to its goal, but to " + str(b.p));
      c.nontrivial();
    }
  }
}
