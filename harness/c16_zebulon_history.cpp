// C16: reconfiguring the mobile base's generator equals starting afresh.
#include "zebulon_gen.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> void change(Ctx& c, ZebRig<S>& r, int maxN)
  {
    switch (c.below(22))
    {
      case 0: r.samples(c, maxN); break;
      case 1: r.period(c); break;
      case 2: r.gravity(c); break;
      case 3: r.heights(c, 1); break;
      case 4: r.heights(c, 0); break;
      case 5: r.masses(c, 1); break;
      case 6: r.masses(c, 0); break;
      case 7: r.polygon(c, 0); break;
      case 8: r.polygon(c, 1); break;
      case 9: r.weights(c); break;
      case 10: r.constraints(c); break;
      case 11: r.velocityReference(c); break;
      case 12: r.positionReference(c); break;
      case 13: if (!r.stale) r.copReference(c); break;
      case 14: if (!r.stale) r.comReference(c); break;
      case 15: if (!r.stale) r.worldReferences(c); break;
      case 16: r.limits(c, c.below(3)); break;
      case 17: r.contact(c); break;
      case 18: r.tiltState(c); break;
      case 19: r.heading(c); break;
      default: r.place(c);
    }
  }
  template <typename S> void configure(Ctx& c, ZebRig<S>& r, int maxN)
  {
    r.samples(c, maxN);
    r.period(c);
    r.heights(c, 1);
    r.heights(c, 0);
    r.masses(c, 0);
    r.masses(c, 1);
    r.gravity(c);
    r.polygon(c, 0);
    r.polygon(c, 1);
    r.weights(c);
    r.constraints(c);
    r.references(c);
    r.heading(c);
    r.tiltState(c);
    r.contact(c);
    for (int i = 0; i < 3; ++i) r.limits(c, i);
    r.place(c);
  }
}

LAW(any_history,
    "a double-precision generator of the mobile base, from its defaults or configured: "
    "any sequence of up to 30 setters and solves in any order (references renewed after a change of the horizon): every "
    "solve against the independently stated problem of the settings of the moment; non-trivial: "
    "two judged solves with a change between them", 20000, 600000)
{
  ZebRig<double> r;
  if (c.flip()) configure(c, r, 4);
  else r.weights(c);   // strictly convex from the start
  const int n = c.integer(2, 30);
  int judged = 0, between = 0, active = 0;
  bool changed = false;
  for (int i = 0; i < n; ++i)
  {
    if (c.chance(1, 4))
    {
      const double fb = r.p.T * c.pick<double>({1, 0.1, 0.25, 0.5});
      const ZebRig<double>::Outcome o = r.cycle(c, fb);
      if (o == ZebRig<double>::Failed) { r.place(c); continue; }
      if (o != ZebRig<double>::Judged) continue;
      active += r.active > 0;
      if (++judged > 1 && changed) ++between;
      changed = false;
      if (std::abs(r.gen.getComStateX()(0)) + std::abs(r.gen.getComStateY()(0)) > 20) r.place(c);
    }
    else { change(c, r, 4); changed = true; }
  }
  c.label(judged >= 2, "two judged solves");
  c.label(active > 0, "an active constraint");
  c.nontrivial(between > 0);
}

TYPED_LAW(one_late_change,
          "a fully configured generator that has solved once or twice, one to three late changes "
          "of its settings, then a solve beside a fresh generator given the final settings and "
          "states: the same outcome and motion, up to the rounding of the problem; non-trivial: "
          "a comparison was made", 6000, 200000)
{
  typedef Scalar S;
  ZebRig<S> r;
  configure(c, r, 3);
  const int before = c.integer(1, 2);
  for (int i = 0; i < before; ++i)
  {
    const bool solved = r.gen.solve(r.p.T * static_cast<S>(0.25));
    c.note("solve = ", solved, ": com ", show(toVec(r.gen.getComStateX())), " ",
           show(toVec(r.gen.getComStateY())), " base ", show(toVec(r.gen.getBaseStateX())), " ",
           show(toVec(r.gen.getBaseStateY())));
    if (!solved)
    {
      // a plan left behind by a failure may be large enough to hide a float's rounding
      if (std::is_same<S, float>::value) { c.label("a failure before"); return; }
      r.place(c);
    }
    R far = 0;
    for (const VX<S>& x : {r.gen.getComStateX(), r.gen.getComStateY(), r.gen.getBaseStateX(),
                           r.gen.getBaseStateY()})
      far = std::max(far, static_cast<R>(std::abs(x(2)) / r.p.T));
    // so does the plan of a problem that is feasible by its rounding only, far away
    if (far > (std::is_same<S, float>::value ? 100 : 1e8L))
    { c.label("a wild plan before"); return; }
  }
  const int changes = c.integer(1, 3);
  for (int i = 0; i < changes; ++i) change(c, r, 3);
  if (r.stale) r.references(c);
  r.place(c);

  ZebulonWalkgen<S> f;
  f.setNbSamples(r.p.N);
  f.setSamplingPeriod(r.p.T);
  f.setComBodyHeight(r.p.bodyHeight);
  f.setComBaseHeight(r.p.baseHeight);
  f.setBodyMass(r.p.bodyMass);
  f.setBaseMass(r.p.baseMass);
  f.setGravity(r.p.gravity);
  f.setBaseCopConvexPolygon(ConvexPolygon<S>(r.cop));
  f.setBaseComConvexPolygon(ConvexPolygon<S>(r.com));
  f.setWeightings(r.weight);
  f.setConfig(r.config);
  f.setVelRefInWorldFrame(r.velRef.template cast<S>());
  f.setPosRefInWorldFrame(r.posRef.template cast<S>());
  f.setCopRefInLocalFrame(r.copRef.template cast<S>());
  f.setComRefInLocalFrame(r.comRef.template cast<S>());
  f.setBaseVelLimit(r.vmax);
  f.setBaseAccLimit(r.amax);
  f.setBaseJerkLimit(r.jmax);
  f.setBaseStateYaw(r.yaw);
  f.setBaseStateRoll(r.p.roll);
  f.setBaseStatePitch(r.p.pitch);
  f.setTiltContactPointOnTheGroundInLocalFrameX(r.p.contactX);
  f.setTiltContactPointOnTheGroundInLocalFrameY(r.p.contactY);
  f.setBaseStateX(r.gen.getBaseStateX());
  f.setBaseStateY(r.gen.getBaseStateY());
  f.setComStateX(r.gen.getComStateX());
  f.setComStateY(r.gen.getComStateY());

  Kin s[4] = {Kin::of(r.gen.getComStateX()), Kin::of(r.gen.getComStateY()),
              Kin::of(r.gen.getBaseStateX()), Kin::of(r.gen.getBaseStateY())};
  bool well = true;
  const Tilt t = r.tilt(well);
  if (r.tilting() && !(t.eW < 1e-3L * t.W.norm() && t.eV < 1e-3L * t.V.norm()))
  { c.label("tilt too ill-conditioned"); return; }
  const bool eq = r.config.withTiltMotionConstraints;
  const qp::Problem q = r.problem(s, t, 0, 0, nullptr);
  const qp::Solution best = qp::solve(q), tight = qp::solve(r.problem(s, t, -1e-3L, 0, nullptr)),
                     loose = qp::solve(r.problem(s, t, 1e-3L, eq ? 1e-6L : 0, nullptr));
  const S fb = r.p.T * static_cast<S>(0.5);
  const bool a = r.gen.solve(fb), b = f.solve(fb);
  if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
  { c.label("at the edge of feasibility"); return; }
  c.check(a == b, "a generator with a history and a fresh one report different outcomes");
  if (!a) { c.label("not solved"); return; }
  const Kin x[4] = {Kin::of(r.gen.getComStateX()), Kin::of(r.gen.getComStateY()),
                    Kin::of(r.gen.getBaseStateX()), Kin::of(r.gen.getBaseStateY())};
  const Kin y[4] = {Kin::of(f.getComStateX()), Kin::of(f.getComStateY()),
                    Kin::of(f.getBaseStateX()), Kin::of(f.getBaseStateY())};
  const R size = 1 + best.x.cwiseAbs().maxCoeff();
  R move = 0, in = 10;
  for (int i = 0; i < 4; ++i)
  {
    const int k = i * r.p.N;
    move = std::max(move, (std::abs(tight.x(k) - best.x(k)) + std::abs(loose.x(k) - best.x(k))) /
                              1e-3L);
    in += std::abs(s[i].p) + std::abs(s[i].v) + std::abs(s[i].a);
  }
  const R cond = q.Q.norm() / static_cast<R>(r.weight.jerkMinimization);
  const R tol = 200 * eps<S>() * (cond * size + (1 + move) * (in + size)) +
                (std::is_same<S, float>::value ? 3e-3L : 1e-5L) * size;
  if (tol > 0.2L * size) { c.label("too ill-conditioned to compare"); return; }
  for (int i = 0; i < 4; ++i)
  {
    const R ja = (x[i].a - s[i].a) / fb, jb = (y[i].a - s[i].a) / fb;
    if (!(std::abs(ja - jb) <= tol + 8 * eps<S>() * std::abs(s[i].a) / fb))
      c.fail("a generator with a history applies jerk " + str(ja) + " to " + std::to_string(i) +
             ", a fresh one " + str(jb) + " (tolerance " + str(tol) + ")");
  }
  c.label("compared");
  c.nontrivial();
}
