// C20: the generators respect the symmetries of the problem.
#include "humanoid_gen.h"
#include "traj_gen.h"
#include "zebulon_gen.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  typedef double S;

  /// q = scale R p + t in the horizontal plane.
  struct Move
  {
    R r[2][2], scale, t[2];
    bool exact;   // quarter turns and reflections only

    static Move random(Ctx& c, bool anyAngle, bool scaled)
    {
      Move m;
      m.scale = scaled ? c.pick<double>({1, 2, 0.5, 4, 1.5}) : 1;
      m.exact = !anyAngle || c.chance(1, 3);
      const R a = m.exact ? 0 : c.real(0.02, 6.2);
      R co = std::cos(a), si = std::sin(a);
      if (m.exact)
      {
        const int q = c.below(4);
        co = q == 0 ? 1 : q == 2 ? -1 : 0;
        si = q == 1 ? 1 : q == 3 ? -1 : 0;
      }
      const R f = c.flip() ? -1 : 1;   // reflect y first
      m.r[0][0] = co; m.r[0][1] = -si * f;
      m.r[1][0] = si; m.r[1][1] = co * f;
      m.t[0] = c.real(-5, 5);
      m.t[1] = c.real(-5, 5);
      c.note("moved by ", (double)m.t[0], " ", (double)m.t[1], " turned ", (double)a, " [",
             (double)m.r[0][0], " ", (double)m.r[0][1], "; ", (double)m.r[1][0], " ",
             (double)m.r[1][1], "] scaled ", (double)m.scale);
      return m;
    }
    R out(int axis, R x, R y) const { return scale * (r[axis][0] * x + r[axis][1] * y); }
    /// x and y references (N each), as vectors or as points
    Vec refs(const Vec& v, bool points) const
    {
      const int N = static_cast<int>(v.size()) / 2;
      Vec o(2 * N);
      for (int a = 0; a < 2; ++a)
        for (int i = 0; i < N; ++i) o(a * N + i) = out(a, v(i), v(N + i)) + (points ? t[a] : 0);
      return o;
    }
    VX<S> state(int axis, const VX<S>& x, const VX<S>& y) const
    {
      VX<S> o(3);
      for (int i = 0; i < 3; ++i)
        o(i) = static_cast<S>(out(axis, x(i), y(i)) + (i ? 0 : t[axis]));
      return o;
    }
    VV2<S> polygon(const VV2<S>& v) const
    {
      VV2<S> o;
      for (const V2<S>& p : v)
        o.push_back(V2<S>(static_cast<S>(out(0, p(0), p(1))), static_cast<S>(out(1, p(0), p(1)))));
      return o;
    }
  };
  VX<S> of(const Vec& v) { return v.cast<S>(); }

}

LAW(humanoid,
    "walking histories of a double-precision humanoid generator and of one in a moved scene "
    "(translated, turned by any angle, reflected, scaled horizontally) under the same commands: "
    "the same outcomes, and the moved motion; non-trivial: not only moved along, and a step was "
    "made", 9000, 120000)
{
  Rig<S> g(c);
  Walk<S>& w = g.w;
  const Move m = Move::random(c, true, true);
  HumanoidWalkgen<S> b;
  b.setNbSamples(w.sim.N);
  b.setSamplingPeriod(w.T);
  b.setStepPeriod(w.time(w.sim.step));
  b.setInitialDoubleSupportLength(w.time(w.sim.ds));
  auto feet = [&]()
  {
    const VX<S> lx = g.gen.getLeftFootStateX(), ly = g.gen.getLeftFootStateY(),
                rx = g.gen.getRightFootStateX(), ry = g.gen.getRightFootStateY();
    b.setLeftFootStateX(m.state(0, lx, ly));
    b.setLeftFootStateY(m.state(1, lx, ly));
    b.setRightFootStateX(m.state(0, rx, ry));
    b.setRightFootStateY(m.state(1, rx, ry));
    b.setLeftFootStateZ(g.gen.getLeftFootStateZ());
    b.setRightFootStateZ(g.gen.getRightFootStateZ());
  };
  auto body = [&]()
  {
    const VX<S> x = g.gen.getComStateX(), y = g.gen.getComStateY();
    b.setComStateX(m.state(0, x, y));
    b.setComStateY(m.state(1, x, y));
    b.setComStateZ(g.gen.getComStateZ());
  };
  auto soles = [&]()
  {
    b.setLeftFootCopConvexPolygon(ConvexPolygon<S>(m.polygon(w.copL)));
    b.setRightFootCopConvexPolygon(ConvexPolygon<S>(m.polygon(w.copR)));
    b.setLeftFootKinematicConvexPolygon(ConvexPolygon<S>(m.polygon(w.kinL)));
    b.setRightFootKinematicConvexPolygon(ConvexPolygon<S>(m.polygon(w.kinR)));
  };
  auto goals = [&]()
  {
    HumanoidWalkgenWeighting<S> x;
    x.velocityTracking = g.goal.velocity;
    x.copCentering = g.goal.centring;
    x.jerkMinimization = g.goal.jerk;
    b.setWeightings(x);
    HumanoidWalkgenConfig<S> k;
    k.withCopConstraints = g.goal.cop;
    k.withFeetConstraints = g.goal.feet;
    b.setConfig(k);
    b.setVelRefInWorldFrame(of(m.refs(g.goal.ref, false)));
  };
  b.setLeftFootMaxHeight(w.maxL);
  b.setRightFootMaxHeight(w.maxR);
  feet();
  body();
  soles();
  goals();
  if (c.chance(3, 4)) { w.setMove(true); b.setMove(true); }
  const int cycles = c.integer(1, 30);
  bool stepped = false;
  for (int i = 0; i < cycles; ++i)
  {
    const PhaseSim before = w.sim;
    w.command(c);
    if (w.sim.move != before.move) b.setMove(w.sim.move);
    if (w.sim.step != before.step) b.setStepPeriod(w.time(w.sim.step));
    if (w.sim.ds != before.ds) b.setInitialDoubleSupportLength(w.time(w.sim.ds));
    switch (c.below(16))
    {
      case 15: g.weights(c); goals(); break;
      case 14: g.reference(c); goals(); break;
      case 13: if (c.chance(1, 3)) { g.config(c); goals(); } break;
      case 12: if (c.chance(1, 3)) { g.place(c); body(); } break;
      case 11: if (c.chance(1, 2)) { g.height(c); body(); } break;
      case 10: if (w.sim.type == PhaseSim::DS && c.chance(1, 2)) { g.moveFeet(c); feet(); } break;
      case 9: if (c.chance(1, 3)) { g.polygons(c); soles(); } break;
      default: break;
    }
    {
      // both soles where they are: the corners of any joint hull
      VV2<S> both;
      for (const V2<S>& p : w.copL)
        both.push_back(p + V2<S>(g.gen.getLeftFootStateX()(0), g.gen.getLeftFootStateY()(0)));
      for (const V2<S>& p : w.copR)
        both.push_back(p + V2<S>(g.gen.getRightFootStateX()(0), g.gen.getRightFootStateY()(0)));
      bool clear = true;
      for (const VV2<S>* v : {&both, &w.copL, &w.copR, &w.kinL, &w.kinR})
        clear = clear && slanted(*v) && slanted(m.polygon(*v));
      if (!clear)
      { c.label("an almost parallel edge"); break; }
    }
    const Kin cx = Kin::of(g.gen.getComStateX()), cy = Kin::of(g.gen.getComStateY());
    const R h = g.gen.getComStateZ()(0);
    w.beginCycle();
    if (w.sim.type != PhaseSim::DS && w.sim.M > 0 && !w.sim.move)
    {
      // A step that was not planned before is first placed in the middle of the box around the
      // reach, and the soles after a stop are those of the plan before: no turning then.
      if (!m.exact) { c.label("stopping in a turned scene"); break; }
      // the soles once the walk has stopped
      const int N = w.sim.N, M = w.sim.M;
      const P2 o = {w.variable(2 * N), w.variable(2 * N + M)};
      const P2 l = {w.sup->getLeftFootStateX()(0), w.sup->getLeftFootStateY()(0)};
      const P2 r = {w.sup->getRightFootStateX()(0), w.sup->getRightFootStateY()(0)};
      VV2<S> both;
      for (const V2<S>& p : w.copL)
        both.push_back(w.sim.type == PhaseSim::Left ? V2<S>(p(0) + l.x, p(1) + l.y)
                                                    : V2<S>(p(0) + o.x, p(1) + o.y));
      for (const V2<S>& p : w.copR)
        both.push_back(w.sim.type == PhaseSim::Left ? V2<S>(p(0) + o.x, p(1) + o.y)
                                                    : V2<S>(p(0) + r.x, p(1) + r.y));
      if (!slanted(both) || !slanted(m.polygon(both))) { c.label("an almost parallel edge"); break; }
    }
    const qp::Problem q = walkProblem(w, cx, cy, h, g.goal, 0);
    const qp::Solution best = qp::solve(q);
    const bool okA = g.gen.solve(w.feedback()), okB = b.solve(w.feedback());
    c.note("cycle ", i, " phase ", w.sim.type, " remaining ", w.sim.remaining, " solved ", okA, " ",
           okB);
    c.check(okA == okB, "one scene is solved, the moved one is not");
    if (!okA) { c.label("not solved"); break; }
    const HumanoidWalkgen<S>& a = g.gen;
    const VX<S> from[3][3] = {
        {a.getComStateX(), a.getComStateY(), a.getComStateZ()},
        {a.getLeftFootStateX(), a.getLeftFootStateY(), a.getLeftFootStateZ()},
        {a.getRightFootStateX(), a.getRightFootStateY(), a.getRightFootStateZ()}};
    const VX<S> to[3][3] = {
        {b.getComStateX(), b.getComStateY(), b.getComStateZ()},
        {b.getLeftFootStateX(), b.getLeftFootStateY(), b.getLeftFootStateZ()},
        {b.getRightFootStateX(), b.getRightFootStateY(), b.getRightFootStateZ()}};
    const char* const names[3] = {"body", "left foot", "right foot"};
    R scale = 1;
    for (int k = 0; k < 3; ++k)
      for (int d = 0; d < 3; ++d) scale = std::max<R>(scale, from[k][d].cwiseAbs().maxCoeff());
    R sensitive = -1;
    for (int k = 0; k < 3; ++k)
      for (int d = 0; d < 3; ++d)
      {
        const VX<S> e = d == 2 ? from[k][2] : m.state(d, from[k][0], from[k][1]);
        const VX<S>& got = to[k][d];
        for (int o = 0; o < 3; ++o)
        {
          const R tol = 1e-5L * (o ? scale : 1) * std::max<R>(1, m.scale);
          if (std::abs(e(o) - got(o)) <= tol) continue;
          // is it the rounding, through an ill-conditioned problem?
          if (sensitive < 0)
          {
            const qp::Solution &s = best,
                               l = qp::solve(walkProblem(w, cx, cy, h, g.goal, 1e-7L)),
                               t = qp::solve(walkProblem(w, cx, cy, h, g.goal, -1e-7L));
            if (s.status != qp::Optimal || l.status != qp::Optimal || t.status != qp::Optimal)
            { c.label("at the edge of feasibility"); return; }
            sensitive = ((s.x - l.x).cwiseAbs().maxCoeff() + (s.x - t.x).cwiseAbs().maxCoeff()) /
                        (1 + s.x.cwiseAbs().maxCoeff());
          }
          if (sensitive > 1e-5L) { c.label("ill-conditioned"); return; }
          c.fail("cycle " + std::to_string(i) + ", " + names[k] + " axis " + std::to_string(d) +
                 " order " + std::to_string(o) + ": " + str(got(o)) + " in the moved scene, expected " +
                 str(e(o)));
        }
      }
    const R fall = std::max(std::abs(from[0][0](1)), std::abs(from[0][1](1)));
    if (best.status != qp::Optimal) { c.label("reference not solved"); break; }
    w.variable.tail(2 * w.sim.M) = best.x.tail(2 * w.sim.M).cast<S>();
    w.endCycle();
    w.sup->setLeftFootStateX(from[1][0]);
    w.sup->setLeftFootStateY(from[1][1]);
    w.sup->setLeftFootStateZ(from[1][2]);
    w.sup->setRightFootStateX(from[2][0]);
    w.sup->setRightFootStateY(from[2][1]);
    w.sup->setRightFootStateZ(from[2][2]);
    if (!(fall < 4)) { c.label("falling"); break; }
    body();
    stepped = stepped || w.sim.stepEnded;
  }
  c.label(stepped, "a step");
  const bool plain = m.r[0][0] == 1 && m.r[1][1] == 1 && m.scale == 1;
  c.nontrivial(stepped && !plain);
}

LAW(feet_labels,
    "standing double-precision humanoid generators, one with the left and the right foot (place, "
    "sole, reach, height) exchanged: the same outcomes and the same motion of the body; "
    "non-trivial: both soles differ and three cycles were compared", 2000, 60000)
{
  Rig<S> g(c);
  Walk<S>& w = g.w;
  HumanoidWalkgen<S> b;
  b.setNbSamples(w.sim.N);
  b.setSamplingPeriod(w.T);
  b.setStepPeriod(w.time(w.sim.step));
  b.setInitialDoubleSupportLength(w.time(w.sim.ds));
  b.setLeftFootCopConvexPolygon(w.pCopR);
  b.setRightFootCopConvexPolygon(w.pCopL);
  b.setLeftFootKinematicConvexPolygon(w.pKinR);
  b.setRightFootKinematicConvexPolygon(w.pKinL);
  b.setLeftFootMaxHeight(w.maxR);
  b.setRightFootMaxHeight(w.maxL);
  b.setLeftFootStateX(w.sup->getRightFootStateX());
  b.setLeftFootStateY(w.sup->getRightFootStateY());
  b.setLeftFootStateZ(w.sup->getRightFootStateZ());
  b.setRightFootStateX(w.sup->getLeftFootStateX());
  b.setRightFootStateY(w.sup->getLeftFootStateY());
  b.setRightFootStateZ(w.sup->getLeftFootStateZ());
  b.setComStateZ(g.gen.getComStateZ());
  HumanoidWalkgenWeighting<S> x;
  x.velocityTracking = g.goal.velocity;
  x.copCentering = g.goal.centring;
  x.jerkMinimization = g.goal.jerk;
  b.setWeightings(x);
  HumanoidWalkgenConfig<S> k;
  k.withCopConstraints = g.goal.cop;
  k.withFeetConstraints = g.goal.feet;
  b.setConfig(k);
  b.setVelRefInWorldFrame(of(g.goal.ref));
  VV2<S> both;
  for (const V2<S>& p : w.copL)
    both.push_back(p + V2<S>(g.gen.getLeftFootStateX()(0), g.gen.getLeftFootStateY()(0)));
  for (const V2<S>& p : w.copR)
    both.push_back(p + V2<S>(g.gen.getRightFootStateX()(0), g.gen.getRightFootStateY()(0)));
  if (!slanted(both)) { c.label("an almost parallel edge"); return; }
  const int cycles = c.integer(1, 12);
  int compared = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i && c.chance(1, 6)) g.place(c);
    if (i && c.chance(1, 8)) { g.reference(c); b.setVelRefInWorldFrame(of(g.goal.ref)); }
    b.setComStateX(g.gen.getComStateX());
    b.setComStateY(g.gen.getComStateY());
    const Kin cx = Kin::of(g.gen.getComStateX()), cy = Kin::of(g.gen.getComStateY());
    w.beginCycle();
    const qp::Problem q = walkProblem(w, cx, cy, g.gen.getComStateZ()(0), g.goal, 0);
    const bool okA = g.gen.solve(w.feedback()), okB = b.solve(w.feedback());
    c.check(okA == okB, "the outcome depends on which foot is called the left one");
    if (!okA) { c.label("not solved"); break; }
    const VX<S> ax = g.gen.getComStateX(), ay = g.gen.getComStateY(), bx = b.getComStateX(),
                by = b.getComStateY();
    const R size = 1 + ax.cwiseAbs().maxCoeff() + ay.cwiseAbs().maxCoeff();
    const R d = std::max((ax - bx).cwiseAbs().maxCoeff(), (ay - by).cwiseAbs().maxCoeff());
    c.note("cycle ", i, ": ", show(toVec(ax)), show(toVec(ay)), " or ", show(toVec(bx)),
           show(toVec(by)));
    if (!(d <= 1e-5L * size))
    {
      const R h = g.gen.getComStateZ()(0);
      const qp::Solution s = qp::solve(q), l = qp::solve(walkProblem(w, cx, cy, h, g.goal, 1e-7L)),
                         t = qp::solve(walkProblem(w, cx, cy, h, g.goal, -1e-7L));
      if (s.status != qp::Optimal || l.status != qp::Optimal || t.status != qp::Optimal)
      { c.label("at the edge of feasibility"); return; }
      if ((s.x - l.x).cwiseAbs().maxCoeff() + (s.x - t.x).cwiseAbs().maxCoeff() >
          1e-5L * (1 + s.x.cwiseAbs().maxCoeff()))
      { c.label("ill-conditioned"); return; }
      c.fail("the body moves otherwise when the feet exchange their names: by " + str(d));
    }
    for (const VX<S>& v : {b.getLeftFootStateX(), b.getRightFootStateX()})
      c.check(v(1) == 0 && v(2) == 0, "a standing foot moves");
    w.endCycle();
    ++compared;
    if (size > 40) { c.label("falling"); break; }
  }
  c.nontrivial(compared >= 3 && w.copL != w.copR);
}

namespace
{
  /// The current settings and states of a mobile base's generator, moved, into another.
  void moved(const ZebRig<S>& r, const Move& m, ZebulonWalkgen<S>& g)
  {
    auto turn = [&](S x, S y, int a) { return static_cast<S>(m.out(a, x, y)); };
    const S k = static_cast<S>(m.scale);
    g.setNbSamples(r.p.N);
    g.setSamplingPeriod(r.p.T);
    g.setComBodyHeight(r.p.bodyHeight);
    g.setComBaseHeight(r.p.baseHeight);
    g.setBodyMass(r.p.bodyMass);
    g.setBaseMass(r.p.baseMass);
    V3<S> gr;
    gr << turn(r.p.gravity(0), r.p.gravity(1), 0), turn(r.p.gravity(0), r.p.gravity(1), 1),
        r.p.gravity(2);
    g.setGravity(gr);
    g.setBaseCopConvexPolygon(ConvexPolygon<S>(m.polygon(r.cop)));
    g.setBaseComConvexPolygon(ConvexPolygon<S>(m.polygon(r.com)));
    g.setWeightings(r.weight);
    g.setConfig(r.config);
    g.setVelRefInWorldFrame(of(m.refs(r.velRef, false)));
    g.setPosRefInWorldFrame(of(m.refs(r.posRef, true)));
    g.setCopRefInLocalFrame(of(m.refs(r.copRef, false)));
    g.setComRefInLocalFrame(of(m.refs(r.comRef, false)));
    g.setBaseVelLimit(r.vmax * k);
    g.setBaseAccLimit(r.amax * k);
    g.setBaseJerkLimit(r.jmax * k);
    const R sy = std::sin(static_cast<R>(r.yaw(0))), cy = std::cos(static_cast<R>(r.yaw(0)));
    VX<S> yaw = r.yaw;
    yaw(0) = static_cast<S>(std::atan2(m.out(1, cy, sy), m.out(0, cy, sy)));
    g.setBaseStateYaw(yaw);
    // roll goes with x, pitch with y
    VX<S> roll(3), pitch(3);
    for (int i = 0; i < 3; ++i)
    {
      roll(i) = turn(r.p.roll(i), r.p.pitch(i), 0);
      pitch(i) = turn(r.p.roll(i), r.p.pitch(i), 1);
    }
    g.setBaseStateRoll(roll);
    g.setBaseStatePitch(pitch);
    g.setTiltContactPointOnTheGroundInLocalFrameX(turn(r.p.contactX, r.p.contactY, 0));
    g.setTiltContactPointOnTheGroundInLocalFrameY(turn(r.p.contactX, r.p.contactY, 1));
    const VX<S> bx = r.gen.getBaseStateX(), by = r.gen.getBaseStateY(), cx = r.gen.getComStateX(),
                cy2 = r.gen.getComStateY();
    g.setBaseStateX(m.state(0, bx, by));
    g.setBaseStateY(m.state(1, bx, by));
    g.setComStateX(m.state(0, cx, cy2));
    g.setComStateY(m.state(1, cx, cy2));
  }
}

LAW(mobile_base,
    "a double-precision generator of the mobile base and one in a moved scene (translated, "
    "reflected, its axes exchanged or turned by quarters, by any angle when no limit is tied to "
    "the axes, scaled horizontally), several cycles from the same states: the same outcomes, and "
    "the moved jerks up to the rounding of the problem; non-trivial: not only moved along, two "
    "compared cycles, an active constraint", 6000, 150000)
{
  ZebRig<S> r;
  r.samples(c, 4);
  r.period(c);
  for (int i = 0; i < 2; ++i) { r.heights(c, i); r.masses(c, i); }
  r.gravity(c);
  for (int i = 0; i < 2; ++i) r.polygon(c, i);
  r.weights(c);
  r.constraints(c);
  r.references(c);
  r.heading(c);
  r.tiltState(c);
  r.contact(c);
  for (int i = 0; i < 3; ++i) r.limits(c, i);
  r.place(c);
  const Move m = Move::random(c, !r.config.withBaseMotionConstraints, true);
  for (const VV2<S>* v : {&r.cop, &r.com})
    if (!slanted(*v) || !slanted(m.polygon(*v))) { c.label("an almost parallel edge"); return; }
  bool well = true;
  const Tilt t = r.tilt(well);
  if (r.tilting() && !well) { c.label("tilt too ill-conditioned"); return; }
  ZebulonWalkgen<S> b;
  const int cycles = c.integer(1, 6);
  int compared = 0, active = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i)
      switch (c.below(8))
      {
        case 7: r.references(c); break;
        case 6: r.limits(c, c.below(3)); break;
        case 5: r.tiltState(c); break;
        case 4: r.place(c); break;
        default: break;
      }
    moved(r, m, b);
    const Kin s[4] = {Kin::of(r.gen.getComStateX()), Kin::of(r.gen.getComStateY()),
                      Kin::of(r.gen.getBaseStateX()), Kin::of(r.gen.getBaseStateY())};
    const Kin u[4] = {Kin::of(b.getComStateX()), Kin::of(b.getComStateY()),
                      Kin::of(b.getBaseStateX()), Kin::of(b.getBaseStateY())};
    const bool eq = r.config.withTiltMotionConstraints;
    const qp::Problem q = r.problem(s, t, 0, 0, nullptr);
    const qp::Solution best = qp::solve(q), tight = qp::solve(r.problem(s, t, -1e-4L, 0, nullptr)),
                       loose = qp::solve(r.problem(s, t, 1e-4L, eq ? 1e-7L : 0, nullptr));
    const S fb = r.p.T * c.pick<double>({1, 0.5, 0.25});
    const bool okA = r.gen.solve(fb), okB = b.solve(fb);
    c.note("solve: ", okA, " ", okB);
    if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
    { c.label("at the edge of feasibility"); if (!okA || !okB) return; r.place(c); continue; }
    c.check(okA == okB, "one scene is solved, the moved one is not");
    if (!okA) { c.label("not solved"); return; }
    const Kin x[4] = {Kin::of(r.gen.getComStateX()), Kin::of(r.gen.getComStateY()),
                      Kin::of(r.gen.getBaseStateX()), Kin::of(r.gen.getBaseStateY())};
    const Kin y[4] = {Kin::of(b.getComStateX()), Kin::of(b.getComStateY()),
                      Kin::of(b.getBaseStateX()), Kin::of(b.getBaseStateY())};
    const R size = 1 + best.x.cwiseAbs().maxCoeff();
    R move = 0, in = 10;
    for (int j = 0; j < 4; ++j)
    {
      const int k = j * r.p.N;
      move = std::max(move, (std::abs(tight.x(k) - best.x(k)) + std::abs(loose.x(k) - best.x(k))) /
                                1e-4L);
      in += std::abs(s[j].p) + std::abs(s[j].v) + std::abs(s[j].a) + std::abs(m.t[j % 2]);
    }
    const R cond = q.Q.norm() / static_cast<R>(r.weight.jerkMinimization);
    const R tol = (200 * eps<S>() * (cond * size + (1 + move) * (in + size)) + 1e-6L * size) *
                      std::max<R>(1, m.scale) * 4;
    if (tol > 0.01L * size) { c.label("too ill-conditioned to compare"); return; }
    for (int pair = 0; pair < 2; ++pair)
      for (int a = 0; a < 2; ++a)
      {
        const R jx = (x[2 * pair].a - s[2 * pair].a) / fb,
                jy = (x[2 * pair + 1].a - s[2 * pair + 1].a) / fb;
        const R want = m.out(a, jx, jy), got = (y[2 * pair + a].a - u[2 * pair + a].a) / fb;
        if (!(std::abs(want - got) <= tol))
          c.fail(std::string(pair ? "base" : "body") + " axis " + std::to_string(a) + ": jerk " +
                 str(got) + " in the moved scene, expected " + str(want) + " (tolerance " +
                 str(tol) + ")");
      }
    ++compared;
    active += best.nbActive > 0;
    if (size > 1e4L) { c.label("a wild plan"); break; }
  }
  const bool plain = m.r[0][0] == 1 && m.r[1][1] == 1 && m.scale == 1;
  c.label(compared >= 2, "two compared cycles");
  c.nontrivial(compared >= 2 && !plain && active);
}

LAW(one_dimension,
    "a double-precision one-dimensional generator and one whose axis was shifted, reflected, "
    "scaled in length and in time (the weights and limits with it): the same outcomes, and the "
    "moved jerks; non-trivial: two compared cycles with an active constraint", 8000, 300000)
{
  TrajRig<S> r;
  r.samples(c, 8);
  r.period(c);
  r.weights(c);
  r.constraints(c);
  r.references(c);
  for (int i = 0; i < 3; ++i) r.limits(c, i);
  r.place(c);
  const R k = (c.flip() ? -1 : 1) * c.pick<double>({1, 2, 0.5, 3}), shift = c.real(-5, 5);
  const R tau = c.pick<double>({1, 2, 0.5, 1.5});   // a second becomes tau seconds
  c.note("moved by ", (double)shift, " scaled ", (double)k, " time ", (double)tau);
  TrajectoryWalkgen<S> b;
  b.setNbSamples(r.N);
  b.setSamplingPeriod(r.T * tau);
  TrajectoryWalkgenWeighting<S> w = r.weight;
  w.velocityTracking *= tau * tau;
  w.jerkMinimization *= tau * tau * tau * tau * tau * tau;
  b.setWeightings(w);
  b.setConfig(r.config);
  const int cycles = c.integer(1, 8);
  int compared = 0, active = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i)
      switch (c.below(6))
      {
        case 5: r.references(c); break;
        case 4: r.limits(c, c.below(3)); break;
        case 3: r.place(c); break;
        default: break;
      }
    const R a = std::abs(k);
    b.setVelLimit(static_cast<S>(r.vmax * a / tau));
    b.setAccLimit(static_cast<S>(r.amax * a / tau / tau));
    b.setJerkLimit(static_cast<S>(r.jmax * a / tau / tau / tau));
    b.setVelRefInWorldFrame(of(Vec(r.velRef * (k / tau))));
    b.setPosRefInWorldFrame(of(Vec(r.posRef * k + Vec::Constant(r.N, shift))));
    const Kin s = Kin::of(r.gen.getState());
    VX<S> st(3);
    st << static_cast<S>(s.p * k + shift), static_cast<S>(s.v * k / tau),
        static_cast<S>(s.a * k / tau / tau);
    b.setState(st);
    const qp::Problem q = r.problem(s, 0, nullptr);
    const qp::Solution best = qp::solve(q), tight = qp::solve(r.problem(s, -1e-4L, nullptr)),
                       loose = qp::solve(r.problem(s, 1e-4L, nullptr));
    const S fb = r.T * c.pick<double>({1, 0.5, 0.25});
    const bool okA = r.gen.solve(fb), okB = b.solve(fb * tau);
    c.note("solve: ", okA, " ", okB, " jerks ", r.gen.getJerk(), " ", b.getJerk());
    if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
    { c.label("at the edge of feasibility"); if (!okA || !okB) return; r.place(c); continue; }
    c.check(okA == okB, "one is solved, the moved one is not");
    if (!okA) { c.label("not solved"); return; }
    const R size = 1 + best.x.cwiseAbs().maxCoeff();
    const R move = (std::abs(tight.x(0) - best.x(0)) + std::abs(loose.x(0) - best.x(0))) / 1e-4L;
    const R cond = q.Q.norm() / static_cast<R>(r.weight.jerkMinimization);
    const R in = 20 + std::abs(s.p) + std::abs(s.v) + std::abs(s.a) + size;
    const R unit = k / (tau * tau * tau);
    const R tol = 4 * std::abs(unit) *
                  (200 * eps<S>() * (cond * size + (1 + move) * in) + 1e-6L * size) *
                  std::max<R>(1, std::pow(tau, 6));
    const R want = unit * r.gen.getJerk(), got = b.getJerk();
    if (!(std::abs(want - got) <= tol))
      c.fail("jerk " + str(got) + " in the moved scene, expected " + str(want) + " (tolerance " +
             str(tol) + ")");
    ++compared;
    active += best.nbActive > 0;
  }
  c.nontrivial(compared >= 2 && active);
}
