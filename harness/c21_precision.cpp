// C21: single and double precision agree.
#include "humanoid_gen.h"
#include "traj_gen.h"
#include "zebulon_gen.h"
#include <Eigen/LU>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  typedef float F;
  typedef double D;
  const R kEps = 1.2e-7L;

  VX<D> wide(const VX<F>& v) { return v.cast<D>(); }
  ConvexPolygon<D> wide(const VV2<F>& v)
  {
    VV2<D> o;
    for (const V2<F>& p : v) o.push_back(p.cast<D>());
    return ConvexPolygon<D>(o);
  }
  /// The time a user would write down, not the nearest single-precision number.
  struct Clock
  {
    D T;
    int k;
    explicit Clock(const Walk<F>& w) : T(std::round(w.T * 1000.0) / 1000.0), k(w.k) {}
    D time(int ticks) const { return T * ticks / k; }
  };
  /// The size of a change of the data that rounding to single precision cannot reach.
  const R kClear = 3e-5L;

  bool clearScene(const Walk<F>& w, P2 l, P2 r)
  {
    std::vector<P2> both;
    for (const V2<F>& p : w.copL) both.push_back(P2{p(0) + l.x, p(1) + l.y});
    for (const V2<F>& p : w.copR) both.push_back(P2{p(0) + r.x, p(1) + r.y});
    return slanted(both, kClear);
  }
  P2 placeOf(const VX<F>& x, const VX<F>& y) { return P2{x(0), y(0)}; }

  /// How far the solution may be from the exact one when the problem is rounded to single
  /// precision in the generator's variables, the CoP relative to the feet and the steps.
  Vec rounding(const Walk<F>& w, const qp::Problem& q, R height, R in)
  {
    const PhaseSim& r = w.sim;
    const int N = r.N, M = r.M, n = 2 * N + 2 * M;
    const CopParams cp = {height, 0, 9.81L, 1};
    const Mat U = refDynamic(Cop, N, static_cast<R>(w.T) * r.toNextSample / w.k, w.T, &cp).U;
    Mat G = Mat::Identity(n, n);   // (jerks, steps) -> (CoP, steps)
    for (int o = 0; o < 2; ++o)
    {
      G.block(o * N, o * N, N, N) = U;
      for (int i = 0; i < N; ++i)
        if (r.column[i] >= 0) G(o * N + i, 2 * N + o * M + r.column[i]) = -1;
    }
    const Mat I = G.inverse();
    const Mat a = I.cwiseAbs();
    const Vec z = Vec::Constant(n, in);
    const Vec d = kEps * (a.transpose() * (q.Q.cwiseAbs() * (a * z)));
    const Mat H = I.transpose() * q.Q * I;
    return (I * H.inverse()).cwiseAbs() * d;
  }
}

LAW(one_dimension,
    "a one-dimensional generator in both precisions under the same settings, several cycles from "
    "the same states: the same outcomes, and the same jerks up to the single-precision rounding of "
    "the problem; non-trivial: two compared cycles with an active constraint", 12000, 400000)
{
  TrajRig<F> r;
  r.samples(c, 8);
  r.period(c);
  r.weights(c);
  r.constraints(c);
  r.references(c);
  for (int i = 0; i < 3; ++i) r.limits(c, i);
  r.place(c);
  TrajectoryWalkgen<D> b;
  b.setNbSamples(r.N);
  b.setSamplingPeriod(r.T);
  const int cycles = c.integer(1, 8);
  int compared = 0, active = 0;
  R last = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i)
      switch (c.below(8))
      {
        case 7: r.weights(c); break;
        case 6: r.references(c); break;
        case 5: r.limits(c, c.below(3)); break;
        case 4: r.place(c); break;
        case 3: if (c.flip()) { r.constraints(c); } break;
        default: break;
      }
    TrajectoryWalkgenWeighting<D> w;
    w.velocityTracking = r.weight.velocityTracking;
    w.positionTracking = r.weight.positionTracking;
    w.jerkMinimization = r.weight.jerkMinimization;
    b.setWeightings(w);
    TrajectoryWalkgenConfig<D> k;
    k.withMotionConstraints = r.config.withMotionConstraints;
    b.setConfig(k);
    b.setVelLimit(r.vmax);
    b.setAccLimit(r.amax);
    b.setJerkLimit(r.jmax);
    b.setVelRefInWorldFrame(r.velRef.cast<D>());
    b.setPosRefInWorldFrame(r.posRef.cast<D>());
    b.setState(wide(r.gen.getState()));
    const Kin s = Kin::of(r.gen.getState());
    const qp::Problem q = r.problem(s, 0, nullptr);
    const qp::Solution best = qp::solve(q), tight = qp::solve(r.problem(s, -1e-3L, nullptr)),
                       loose = qp::solve(r.problem(s, 1e-3L, nullptr));
    const F fb = r.T * static_cast<F>(c.pick<double>({1, 0.5, 0.25}));
    const bool okA = r.gen.solve(fb), okB = b.solve(fb);
    c.note("solve: ", okA, " ", okB, " jerks ", r.gen.getJerk(), " ", b.getJerk());
    if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
    { c.label("at the edge of feasibility"); if (!okA || !okB) return; r.place(c); continue; }
    c.check(okA == okB, std::string("solved in ") + (okA ? "single" : "double") + " precision only");
    if (!okA) { c.label("not solved"); return; }
    // a plan is computed as a change of the plan before
    const R now = 1 + best.x.cwiseAbs().maxCoeff(), size = std::max(now, last);
    last = now;
    const R move = (std::abs(tight.x(0) - best.x(0)) + std::abs(loose.x(0) - best.x(0))) / 1e-3L;
    const R cond = q.Q.norm() / static_cast<R>(r.weight.jerkMinimization);
    const R in = 10 + std::abs(s.p) + std::abs(s.v) + std::abs(s.a) + size;
    const R tol = 200 * kEps * (cond * size + (1 + move) * in) + 3e-3L * size;
    if (tol > 0.1L * size) { c.label("too ill-conditioned to compare"); return; }
    c.check(std::abs(r.gen.getJerk() - b.getJerk()) <= tol,
            "jerk " + str(r.gen.getJerk()) + " in single and " + str(b.getJerk()) +
                " in double precision (tolerance " + str(tol) + ")");
    // the motions from the same state
    const VX<D> x = b.getState();
    for (int o = 0; o < 3; ++o)
      c.near(r.gen.getState()(o), x(o), tol * fb + 1e-5L * in, "state " + std::to_string(o));
    ++compared;
    active += best.nbActive > 0;
  }
  c.label(compared >= 2, "two compared cycles");
  c.nontrivial(compared >= 2 && active);
}

LAW(mobile_base,
    "a generator of the mobile base in both precisions under the same settings, several cycles "
    "from the same states: the same outcomes, and the same jerks up to the single-precision "
    "rounding of the problem; non-trivial: two compared cycles", 8000, 250000)
{
  ZebRig<F> r;
  r.samples(c, 3);
  r.period(c);
  for (int i = 0; i < 2; ++i) { r.heights(c, i); r.masses(c, i); }
  r.gravity(c);
  for (int i = 0; i < 2; ++i) r.polygon(c, i);
  r.weights(c);
  r.constraints(c);
  r.references(c);
  r.heading(c);
  r.tiltState(c);
  r.contact(c);
  for (int i = 0; i < 3; ++i) r.limits(c, i);
  r.place(c);
  for (const VV2<F>* v : {&r.cop, &r.com})
    if (!slanted(*v, kClear)) { c.label("an almost parallel edge"); return; }
  ZebulonWalkgen<D> b;
  const int cycles = c.integer(1, 5);
  int compared = 0, active = 0;
  R last = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i)
      switch (c.below(10))
      {
        case 9: r.references(c); break;
        case 8: r.limits(c, c.below(3)); break;
        case 7: r.tiltState(c); break;
        case 6: r.place(c); break;
        case 5: r.masses(c, c.below(2)); break;
        case 4: r.weights(c); break;
        default: break;
      }
    if (!i || c.flip()) b.setNbSamples(r.p.N);
    b.setSamplingPeriod(r.p.T);
    b.setComBodyHeight(r.p.bodyHeight);
    b.setComBaseHeight(r.p.baseHeight);
    b.setBodyMass(r.p.bodyMass);
    b.setBaseMass(r.p.baseMass);
    b.setGravity(V3<D>(r.p.gravity.cast<D>()));
    b.setBaseCopConvexPolygon(wide(r.cop));
    b.setBaseComConvexPolygon(wide(r.com));
    ZebulonWalkgenWeighting<D> w;
    w.velocityTracking = r.weight.velocityTracking;
    w.positionTracking = r.weight.positionTracking;
    w.copCentering = r.weight.copCentering;
    w.comCentering = r.weight.comCentering;
    w.jerkMinimization = r.weight.jerkMinimization;
    w.tiltMinimization = r.weight.tiltMinimization;
    w.tiltVelMinimization = r.weight.tiltVelMinimization;
    b.setWeightings(w);
    ZebulonWalkgenConfig<D> k;
    k.withCopConstraints = r.config.withCopConstraints;
    k.withComConstraints = r.config.withComConstraints;
    k.withBaseMotionConstraints = r.config.withBaseMotionConstraints;
    k.withTiltMotionConstraints = r.config.withTiltMotionConstraints;
    b.setConfig(k);
    b.setVelRefInWorldFrame(r.velRef.cast<D>());
    b.setPosRefInWorldFrame(r.posRef.cast<D>());
    b.setCopRefInLocalFrame(r.copRef.cast<D>());
    b.setComRefInLocalFrame(r.comRef.cast<D>());
    b.setBaseVelLimit(r.vmax);
    b.setBaseAccLimit(r.amax);
    b.setBaseJerkLimit(r.jmax);
    b.setBaseStateYaw(wide(r.yaw));
    b.setBaseStateRoll(wide(r.p.roll));
    b.setBaseStatePitch(wide(r.p.pitch));
    b.setTiltContactPointOnTheGroundInLocalFrameX(r.p.contactX);
    b.setTiltContactPointOnTheGroundInLocalFrameY(r.p.contactY);
    b.setBaseStateX(wide(r.gen.getBaseStateX()));
    b.setBaseStateY(wide(r.gen.getBaseStateY()));
    b.setComStateX(wide(r.gen.getComStateX()));
    b.setComStateY(wide(r.gen.getComStateY()));
    const Kin s[4] = {Kin::of(r.gen.getComStateX()), Kin::of(r.gen.getComStateY()),
                      Kin::of(r.gen.getBaseStateX()), Kin::of(r.gen.getBaseStateY())};
    bool well = true;
    const Tilt t = r.tilt(well);
    if (r.tilting() && !(t.eW < 1e-3L * t.W.norm() && t.eV < 1e-3L * t.V.norm()))
    { c.label("tilt too ill-conditioned"); return; }
    const bool eq = r.config.withTiltMotionConstraints;
    const qp::Problem q = r.problem(s, t, 0, 0, nullptr);
    const qp::Solution best = qp::solve(q), tight = qp::solve(r.problem(s, t, -1e-3L, 0, nullptr)),
                       loose = qp::solve(r.problem(s, t, 1e-3L, eq ? 1e-6L : 0, nullptr));
    const F fb = r.p.T * static_cast<F>(c.pick<double>({1, 0.5, 0.25}));
    const bool okA = r.gen.solve(fb), okB = b.solve(fb);
    c.note("solve: ", okA, " ", okB);
    if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
    { c.label("at the edge of feasibility"); return; }
    c.check(okA == okB, std::string("solved in ") + (okA ? "single" : "double") + " precision only");
    if (!okA) { c.label("not solved"); return; }
    const Kin x[4] = {Kin::of(r.gen.getComStateX()), Kin::of(r.gen.getComStateY()),
                      Kin::of(r.gen.getBaseStateX()), Kin::of(r.gen.getBaseStateY())};
    const Kin y[4] = {Kin::of(b.getComStateX()), Kin::of(b.getComStateY()),
                      Kin::of(b.getBaseStateX()), Kin::of(b.getBaseStateY())};
    // a plan is computed as a change of the plan before
    const R now = 1 + best.x.cwiseAbs().maxCoeff(), size = std::max(now, last);
    last = now;
    R move = 0, in = 10;
    for (int j = 0; j < 4; ++j)
    {
      const int n = j * r.p.N;
      move = std::max(move, (std::abs(tight.x(n) - best.x(n)) + std::abs(loose.x(n) - best.x(n))) /
                                1e-3L);
      in += std::abs(s[j].p) + std::abs(s[j].v) + std::abs(s[j].a);
    }
    const R cond = q.Q.norm() / static_cast<R>(r.weight.jerkMinimization);
    const R tol = 200 * kEps * (cond * size + (1 + move) * (in + size)) + 3e-3L * size;
    if (tol > 0.2L * size) { c.label("too ill-conditioned to compare"); return; }
    for (int j = 0; j < 4; ++j)
    {
      const R jx = (x[j].a - s[j].a) / fb, jy = (y[j].a - s[j].a) / fb;
      if (!(std::abs(jx - jy) <= tol + 8 * kEps * std::abs(s[j].a) / fb))
        c.fail((j < 2 ? std::string("body") : std::string("base")) + " axis " +
               std::to_string(j % 2) + ": jerk " + str(jx) + " in single and " + str(jy) +
               " in double precision (tolerance " + str(tol) + ")");
    }
    ++compared;
    active += best.nbActive > 0;
  }
  c.label(compared >= 2, "two compared cycles");
  c.label(active > 0, "an active constraint");
  c.nontrivial(compared >= 2);
}

LAW(feet,
    "a feet supervisor in both precisions under the same commands and plans for up to 500 cycles "
    "without ever being brought together again: the same phases, previewed steps, supports, "
    "polygons and foot motions; non-trivial: five complete steps", 2500, 100000)
{
  Walk<F> w(c);
  const Clock k(w);
  HumanoidFeetSupervisor<F>& a = *w.sup;
  HumanoidFeetSupervisor<D> b(w.sim.N, k.T);
  b.setInitialDoubleSupportLength(k.time(w.sim.ds));
  b.setStepPeriod(k.time(w.sim.step));
  b.setLeftFootStateX(wide(a.getLeftFootStateX()));
  b.setLeftFootStateY(wide(a.getLeftFootStateY()));
  b.setRightFootStateX(wide(a.getRightFootStateX()));
  b.setRightFootStateY(wide(a.getRightFootStateY()));
  b.setLeftFootStateZ(VX<D>::Zero(3));
  b.setRightFootStateZ(VX<D>::Zero(3));
  b.setLeftFootCopConvexPolygon(wide(w.copL));
  b.setRightFootCopConvexPolygon(wide(w.copR));
  b.setLeftFootKinematicConvexPolygon(wide(w.kinL));
  b.setRightFootKinematicConvexPolygon(wide(w.kinR));
  b.setLeftFootMaxHeight(w.maxL);
  b.setRightFootMaxHeight(w.maxR);
  for (const VV2<F>* v : {&w.copL, &w.copR, &w.kinL, &w.kinR})
    if (!slanted(*v, kClear)) { c.label("an almost parallel edge"); return; }
  VX<D> variable = wide(w.variable);
  if (c.chance(3, 4)) { w.setMove(true); b.setMove(true); }
  const int cycles = c.integer(5, 500);
  int steps = 0;
  const R sizes[2] = {std::abs((R)a.getLeftFootStateX()(0)), std::abs((R)a.getLeftFootStateY()(0))};
  R size = 1 + sizes[0] + sizes[1];
  VX<D> diff[6];   // between the precisions, after the last cycle
  for (VX<D>& d : diff) d = VX<D>::Zero(3);
  for (int i = 0; i < cycles; ++i)
  {
    const PhaseSim before = w.sim;
    w.command(c);
    if (w.sim.move != before.move) b.setMove(w.sim.move);
    if (w.sim.step != before.step) b.setStepPeriod(k.time(w.sim.step));
    if (w.sim.ds != before.ds) b.setInitialDoubleSupportLength(k.time(w.sim.ds));
    if (c.chance(1, 20))
    {
      const F h = static_cast<F>(c.real(0.01, 0.1));
      const bool left = c.flip();
      if (left) { w.maxL = h; a.setLeftFootMaxHeight(h); b.setLeftFootMaxHeight(h); }
      else { w.maxR = h; a.setRightFootMaxHeight(h); b.setRightFootMaxHeight(h); }
      if (w.sim.remaining > 0) w.midStepChange = true;
    }
    const D fb = k.time(w.f);
    w.beginCycle();
    b.updateTimeline(variable, fb);
    const int N = w.sim.N;
    const std::string at = "cycle " + std::to_string(i) + ": ";
    c.note(at, "remaining ", w.sim.remaining, " f=", w.f);
    c.check(a.getNbPreviewedSteps() == b.getNbPreviewedSteps(), at + "previewed steps " +
            std::to_string(a.getNbPreviewedSteps()) + " and " + std::to_string(b.getNbPreviewedSteps()));
    c.check(a.isInDS() == b.isInDS(), at + "another support phase");
    c.check(a.getNbOfCallsBeforeNextSample() == b.getNbOfCallsBeforeNextSample(),
            at + "another number of calls before the next sample");
    c.check(a.getSelectionMatrices().V == b.getSelectionMatrices().V &&
                a.getSelectionMatrices().V0 == b.getSelectionMatrices().V0,
            at + "samples stand on other steps");
    c.near((wide(VX<F>(a.getSampleWeightMatrix().diagonal())) - b.getSampleWeightMatrix().diagonal())
               .cwiseAbs().maxCoeff(), 0, 1e-4, at + "sample weights");
    // the place of the standing feet differs by the rounding only, once they stand
    for (int s = 0; s < 2; ++s)
    {
      const VX<F> f = s ? a.getSupportFootStateY() : a.getSupportFootStateX();
      const VX<D> g = s ? b.getSupportFootStateY() : b.getSupportFootStateX();
      for (int o = 0; o < 3; ++o) c.near(f(o), g(o), 2e-5L * size *
               (o == 0 ? 1 : o == 1 ? 10 / k.time(1) : 60 / k.time(1) / k.time(1)), at + "support foot");
    }
    const P2 l = placeOf(a.getLeftFootStateX(), a.getLeftFootStateY()),
             r = placeOf(a.getRightFootStateX(), a.getRightFootStateY());
    // corners of the soles' hull depend on where the feet will stand: judged while they do
    const bool judge = w.sim.type == PhaseSim::DS && clearScene(w, l, r);
    for (int s = 0; s < N; ++s)
    {
      if (w.sim.phaseOf[s] == PhaseSim::DS && !judge) continue;
      const ConvexPolygon<F>& p = a.getCopConvexPolygon(s);
      const ConvexPolygon<D>& q = b.getCopConvexPolygon(s);
      c.check(p.getNbVertices() == q.getNbVertices(), at + "support of sample " +
              std::to_string(s) + " has " + std::to_string(p.getNbVertices()) + " and " +
              std::to_string(q.getNbVertices()) + " corners");
      for (int j = 0; j < p.getNbVertices(); ++j)
        for (int o = 0; o < 2; ++o)
          c.near(p.getVertices()[j](o), q.getVertices()[j](o), 4e-5L * size,
                 at + "a corner of the support of sample " + std::to_string(s));
    }
    for (int s = 0; s < a.getNbPreviewedSteps(); ++s)
      c.check(a.getKinematicConvexPolygon(s).getNbVertices() ==
                  b.getKinematicConvexPolygon(s).getNbVertices(), at + "another reach");
    w.plan(c);
    variable = wide(w.variable);
    size = std::max<R>(size, 1 + w.variable.cwiseAbs().maxCoeff());
    const bool ends = w.sim.type != PhaseSim::DS && w.sim.remaining == w.f;
    const R left = w.time(w.sim.remaining), tick = w.feedback();
    w.endCycle();
    VX<D> plan = variable.tail(2 * w.sim.M);
    b.updateFeetStates(plan, fb);
    const VX<F> from[6] = {a.getLeftFootStateX(), a.getLeftFootStateY(), a.getLeftFootStateZ(),
                           a.getRightFootStateX(), a.getRightFootStateY(), a.getRightFootStateZ()};
    const VX<D> to[6] = {b.getLeftFootStateX(), b.getLeftFootStateY(), b.getLeftFootStateZ(),
                         b.getRightFootStateX(), b.getRightFootStateY(), b.getRightFootStateZ()};
    for (int f = 0; f < 6; ++f)
    {
      // A plan that changes late in a step gives large accelerations; a landed foot keeps the
      // rounding of its acceleration, which starts the next flight.
      const R u = 2e-5L * (size + left * std::abs(to[f](1)) + left * left * std::abs(to[f](2))) +
                  std::abs(diff[f](0)) + left * std::abs(diff[f](1)) +
                  left * left * std::abs(diff[f](2));
      c.near(from[f](0), to[f](0), ends ? 2e-5L * size + u / 20 : u,
             at + "foot position " + std::to_string(f));
      c.near(from[f](1), to[f](1), u * 10 / tick, at + "foot velocity " + std::to_string(f));
      c.near(from[f](2), to[f](2), u * 60 / tick / tick,
             at + "foot acceleration " + std::to_string(f));
      diff[f] = wide(from[f]) - to[f];
    }
    if (ends) ++steps;
  }
  c.label(steps >= 20, "twenty steps");
  c.nontrivial(steps >= 5);
}

LAW(humanoid,
    "a humanoid generator in both precisions under the same commands, several cycles from the same "
    "states: the same outcomes and supports, and the same motions up to the single-precision "
    "rounding of the problem; non-trivial: a step was made while compared", 6000, 150000)
{
  Rig<F> g(c);
  Walk<F>& w = g.w;
  const Clock k(w);
  HumanoidWalkgen<D> b;
  b.setNbSamples(w.sim.N);
  b.setSamplingPeriod(k.T);
  b.setStepPeriod(k.time(w.sim.step));
  b.setInitialDoubleSupportLength(k.time(w.sim.ds));
  b.setLeftFootMaxHeight(w.maxL);
  b.setRightFootMaxHeight(w.maxR);
  auto soles = [&]()
  {
    b.setLeftFootCopConvexPolygon(wide(w.copL));
    b.setRightFootCopConvexPolygon(wide(w.copR));
    b.setLeftFootKinematicConvexPolygon(wide(w.kinL));
    b.setRightFootKinematicConvexPolygon(wide(w.kinR));
  };
  auto states = [&]()
  {
    const HumanoidWalkgen<F>& a = g.gen;
    b.setLeftFootStateX(wide(a.getLeftFootStateX()));
    b.setLeftFootStateY(wide(a.getLeftFootStateY()));
    b.setLeftFootStateZ(wide(a.getLeftFootStateZ()));
    b.setRightFootStateX(wide(a.getRightFootStateX()));
    b.setRightFootStateY(wide(a.getRightFootStateY()));
    b.setRightFootStateZ(wide(a.getRightFootStateZ()));
    b.setComStateX(wide(a.getComStateX()));
    b.setComStateY(wide(a.getComStateY()));
    b.setComStateZ(wide(a.getComStateZ()));
  };
  auto goals = [&]()
  {
    HumanoidWalkgenWeighting<D> x;
    x.velocityTracking = static_cast<D>(g.goal.velocity);
    x.copCentering = static_cast<D>(g.goal.centring);
    x.jerkMinimization = static_cast<D>(g.goal.jerk);
    b.setWeightings(x);
    HumanoidWalkgenConfig<D> o;
    o.withCopConstraints = g.goal.cop;
    o.withFeetConstraints = g.goal.feet;
    b.setConfig(o);
    b.setVelRefInWorldFrame(g.goal.ref.cast<D>());
  };
  soles();
  goals();
  states();
  if (c.chance(3, 4)) { w.setMove(true); b.setMove(true); }
  const int cycles = c.integer(1, 30);
  bool stepped = false;
  for (int i = 0; i < cycles; ++i)
  {
    const PhaseSim before = w.sim;
    w.command(c);
    if (w.sim.move != before.move) b.setMove(w.sim.move);
    if (w.sim.step != before.step) b.setStepPeriod(k.time(w.sim.step));
    if (w.sim.ds != before.ds) b.setInitialDoubleSupportLength(k.time(w.sim.ds));
    switch (c.below(16))
    {
      case 15: g.weights(c); goals(); break;
      case 14: g.reference(c); goals(); break;
      case 13: if (c.chance(1, 3)) { g.config(c); goals(); } break;
      case 12: if (c.chance(1, 3)) g.place(c); break;
      case 11: if (c.chance(1, 2)) g.height(c); break;
      case 10: if (w.sim.type == PhaseSim::DS && c.chance(1, 2)) g.moveFeet(c); break;
      case 9: if (c.chance(1, 3)) { g.polygons(c); soles(); } break;
      default: break;
    }
    states();
    {
      const HumanoidWalkgen<F>& a = g.gen;
      bool clear = clearScene(w, placeOf(a.getLeftFootStateX(), a.getLeftFootStateY()),
                              placeOf(a.getRightFootStateX(), a.getRightFootStateY()));
      for (const VV2<F>* v : {&w.copL, &w.copR, &w.kinL, &w.kinR})
        clear = clear && slanted(*v, kClear);
      if (!clear) { c.label("an almost parallel edge"); break; }
    }
    const Kin cx = Kin::of(g.gen.getComStateX()), cy = Kin::of(g.gen.getComStateY());
    const R h = g.gen.getComStateZ()(0);
    w.beginCycle();
    if (w.sim.type != PhaseSim::DS && w.sim.M > 0 && !w.sim.move)
    {
      // the soles once the walk has stopped
      const P2 o = {w.variable(2 * w.sim.N), w.variable(2 * w.sim.N + w.sim.M)};
      const P2 l = placeOf(w.sup->getLeftFootStateX(), w.sup->getLeftFootStateY());
      const P2 r = placeOf(w.sup->getRightFootStateX(), w.sup->getRightFootStateY());
      const bool left = w.sim.type == PhaseSim::Left;
      if (!clearScene(w, left ? l : o, left ? o : r)) { c.label("an almost parallel edge"); break; }
    }
    const qp::Problem q = walkProblem(w, cx, cy, h, g.goal, 0);
    const qp::Solution best = qp::solve(q), tight = qp::solve(walkProblem(w, cx, cy, h, g.goal, -1e-4L)),
                       loose = qp::solve(walkProblem(w, cx, cy, h, g.goal, 1e-4L));
    const HumanoidWalkgen<F>& a = g.gen;
    const VX<F> at[6] = {a.getLeftFootStateX(), a.getLeftFootStateY(), a.getLeftFootStateZ(),
                         a.getRightFootStateX(), a.getRightFootStateY(), a.getRightFootStateZ()};
    const F fb = w.feedback();
    const bool okA = g.gen.solve(fb), okB = b.solve(k.time(w.f));
    c.note("cycle ", i, " phase ", w.sim.type, " remaining ", w.sim.remaining, " solved ", okA, " ",
           okB);
    if (best.status != qp::Optimal || tight.status != qp::Optimal || loose.status != qp::Optimal)
    { c.label("at the edge of feasibility"); break; }
    c.check(okA == okB, std::string("solved in ") + (okA ? "single" : "double") + " precision only");
    if (!okA) { c.label("not solved"); break; }
    const int N = w.sim.N, M = w.sim.M;
    const R size = 1 + best.x.head(2 * N).cwiseAbs().maxCoeff();
    R in = 10;
    for (const Kin& s : {cx, cy}) in += std::abs(s.p) + std::abs(s.v) + std::abs(s.a);
    const Vec round = rounding(w, q, h, in + size * w.T * w.T);
    const int index[4] = {0, N, 2 * N, 2 * N + M};
    R tol[4];
    for (int j = 0; j < (M ? 4 : 2); ++j)
    {
      const int n = index[j];
      const R move = (std::abs(tight.x(n) - best.x(n)) + std::abs(loose.x(n) - best.x(n))) / 1e-4L;
      tol[j] = round(n) + 20 * kEps * (1 + move) * in + (j < 2 ? 3e-3L * size : 1e-4L);
      if (tol[j] > (j < 2 ? 0.2L * size : 0.05L)) { c.label("too ill-conditioned to compare"); return; }
    }
    const Kin s[2] = {cx, cy};
    const VX<F> x[2] = {a.getComStateX(), a.getComStateY()};
    const VX<D> y[2] = {b.getComStateX(), b.getComStateY()};
    for (int j = 0; j < 2; ++j)
    {
      const R jx = (x[j](2) - s[j].a) / fb, jy = (y[j](2) - s[j].a) / fb;
      if (!(std::abs(jx - jy) <= tol[j] + 8 * kEps * std::abs(s[j].a) / fb))
        c.fail("body axis " + std::to_string(j) + ": jerk " + str(jx) + " in single and " + str(jy) +
               " in double precision (tolerance " + str(tol[j]) + ")");
    }
    const VX<F> from[6] = {a.getLeftFootStateX(), a.getLeftFootStateY(), a.getLeftFootStateZ(),
                           a.getRightFootStateX(), a.getRightFootStateY(), a.getRightFootStateZ()};
    const VX<D> to[6] = {b.getLeftFootStateX(), b.getLeftFootStateY(), b.getLeftFootStateZ(),
                         b.getRightFootStateX(), b.getRightFootStateY(), b.getRightFootStateZ()};
    const R left = w.time(w.sim.remaining);
    for (int f = 0; f < 6; ++f)
    {
      const R u = 1e-4L * (2 + std::abs(at[f](0)) + left * std::abs(at[f](1)) +
                           left * left * std::abs(at[f](2))) + (M ? tol[2] + tol[3] : 0);
      c.near(from[f](0), to[f](0), u, "foot position " + std::to_string(f));
      c.near(from[f](1), to[f](1), u * 10 / fb, "foot velocity " + std::to_string(f));
      c.near(from[f](2), to[f](2), u * 60 / fb / fb, "foot acceleration " + std::to_string(f));
    }
    w.variable.tail(2 * M) = best.x.tail(2 * M).cast<F>();
    w.endCycle();
    w.sup->setLeftFootStateX(from[0]);
    w.sup->setLeftFootStateY(from[1]);
    w.sup->setLeftFootStateZ(from[2]);
    w.sup->setRightFootStateX(from[3]);
    w.sup->setRightFootStateY(from[4]);
    w.sup->setRightFootStateZ(from[5]);
    stepped = stepped || w.sim.stepEnded;
    if (std::max(std::abs(x[0](1)), std::abs(x[1](1))) > 4) { c.label("falling"); break; }
  }
  c.label(stepped, "a step");
  c.nontrivial(stepped);
}

LAW(polygons,
    "the hull of 1 to 40 points, none almost aligned with or equal to others, in both precisions: "
    "the same corners in the same order, the same edges' normals, and the same side for points "
    "clearly on one side; non-trivial: at least four corners and a point inside", 20000, 600000)
{
  const int n = c.integer(1, 40);
  const R off = c.pick<double>({0, 0, 1, 10}), ext = c.logReal(0.1, 5);
  VV2<F> p;
  for (int i = 0; i < n; ++i)
  {
    V2<F> v;
    if (i && c.chance(1, 12)) v = p[c.below(i)];
    else v << static_cast<F>(off + c.real(-1, 1) * ext), static_cast<F>(c.real(-1, 1) * ext - off);
    p.push_back(v);
  }
  if (!slanted(p, kClear * 10)) { c.label("almost aligned"); return; }
  // an angle that decides is measured from points whose rounding is relative to their size
  for (const V2<F>& a : p) for (const V2<F>& b : p)
  {
    const R d = (a - b).norm();
    if (d > 0 && d < 0.02L * (off + ext)) { c.label("close points"); return; }
  }
  const ConvexPolygon<F> a(p);
  const ConvexPolygon<D> b = wide(p);
  c.check(a.getNbVertices() == b.getNbVertices(), std::to_string(a.getNbVertices()) + " and " +
          std::to_string(b.getNbVertices()) + " corners");
  for (int i = 0; i < a.getNbVertices(); ++i)
    c.check(a.getVertices()[i].cast<D>() == b.getVertices()[i], "another corner " + std::to_string(i));
  c.label(a.getNbVertices() >= 4, "four corners");
  c.nontrivial(a.getNbVertices() >= 4 && a.getNbVertices() < n);
}
