// C25: arguments that make no sense are refused, those at the limit are not.
#include "humanoid_gen.h"
#include "traj_gen.h"
#include "zebulon_gen.h"
#include <functional>
#include <memory>
#include <mpc-walkgen/function/trajectory_jerk_minimization_objective.h>
#include <mpc-walkgen/function/trajectory_motion_constraint.h>
#include <mpc-walkgen/function/trajectory_position_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_base_position_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_com_centering_objective.h>
#include <mpc-walkgen/function/zebulon_com_constraint.h>
#include <mpc-walkgen/function/zebulon_cop_centering_objective.h>
#include <mpc-walkgen/function/zebulon_cop_constraint.h>
#include <mpc-walkgen/function/zebulon_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_tilt_velocity_minimization_objective.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include <mpc-walkgen/qpsolver.h>
#include <mpc-walkgen/qpsolverfactory.h>
#include <mpc-walkgen/tools.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> S nan() { return std::numeric_limits<S>::quiet_NaN(); }

  /// Calls by name: one is drawn and made.
  struct Calls
  {
    std::vector<std::pair<std::string, std::function<void()> > > all;
    void operator()(const std::string& name, std::function<void()> f)
    { all.push_back(std::make_pair(name, f)); }
    const std::pair<std::string, std::function<void()> >& draw(Ctx& c) const
    { return all[c.below(static_cast<int>(all.size()))]; }
  };
  void mustRefuse(Ctx& c, const Calls& calls)
  {
    const auto& k = calls.draw(c);
    c.note("refuses ", k.first, "?");
    const std::string said = assertionIn(k.second);
    c.check(!said.empty(), k.first + " is accepted");
    c.check(said.compare(0, 7, "Eigen: ") != 0,
            k.first + " is only noticed by the matrix library: " + said);
    c.note("  yes: ", said);
  c.label("refused at " + said.substr(0, said.find(": ")));
    c.nontrivial();
  }
  void mustAccept(Ctx& c, const Calls& calls)
  {
    const auto& k = calls.draw(c);
    c.note("accepts ", k.first, "?");
    const std::string said = assertionIn(k.second);
    c.check(said.empty(), k.first + " is refused: " + said);
  }

  /// a vector that is not n numbers
  template <typename S> VX<S> badVec(Ctx& c, int n)
  {
    static const char* const what[] = {"one too few", "one too many", "none", "twice as many"};
    const int k = c.below(7);
    if (k < 4)
    {
      c.note(what[k]);
      return VX<S>::Zero(k == 0 ? n - 1 : k == 1 ? n + 1 : k == 2 ? 0 : 2 * n);
    }
    VX<S> v = genVec<S>(c, n, -1, 1);
    const int at = c.below(n);
    v(at) = nan<S>();
    c.note("element ", at, " of ", n, " is not a number");
    return v;
  }
  template <typename S> VX<S> goodVec(Ctx& c, int n) { return genVec<S>(c, n, -1, 1); }
  int badCount(Ctx& c) { const int n = -c.below(4); c.note(n); return n; }
  template <typename S> S badPositive(Ctx& c)
  {
    const S v = c.below(3) == 0 ? S(0) : c.flip() ? nan<S>() : -static_cast<S>(c.logReal(1e-3, 10));
    c.note(v);
    return v;
  }
  template <typename S> S negative(Ctx& c)
  {
    const S v = c.below(3) == 0 ? nan<S>() : -static_cast<S>(c.logReal(1e-6, 10));
    c.note(v);
    return v;
  }
  template <typename S> S goodPositive(Ctx& c) { return static_cast<S>(c.logReal(0.01, 10)); }
  /// zero is at the limit
  template <typename S> S notNegative(Ctx& c) { return c.flip() ? S(0) : goodPositive<S>(c); }
  template <typename S> V3<S> badGravity(Ctx& c)
  {
    V3<S> g;
    g << static_cast<S>(c.real(-9, 9)), static_cast<S>(c.real(-9, 9)), 0;
    switch (c.below(4))
    {
      case 1: g(2) = static_cast<S>(c.real(-0.9e-4, 0.9e-4)); break;
      case 2: g(2) = nan<S>(); break;
    }
    c.note("gravity ", g.transpose());
    return g;
  }
  /// fewer than three corners
  template <typename S> VV2<S> flat(Ctx& c)
  {
    VV2<S> p;
    const S dx = c.below(3), dy = c.below(3);
    const int n = c.integer(1, 4);
    for (int i = 0; i < n; ++i) { V2<S> v; v << 1 + dx * i, dy * i; p.push_back(v); }
    c.note("hull of ", n, " points in a line");
    return p;
  }
  template <typename S> VV3<S> in3D(const VV2<S>& p)
  {
    VV3<S> v;
    for (const V2<S>& q : p) { V3<S> a; a << q(0), q(1), 0; v.push_back(a); }
    return v;
  }
  template <typename S> VV2<S> triangle()
  {
    VV2<S> p(3);
    p[0] << 0, 0; p[1] << 1, 0; p[2] << 0, 1;
    return p;
  }
  template <typename S> VX<S> badState(Ctx& c) { return badVec<S>(c, 3); }
}

TYPED_LAW(humanoid_generator,
          "a walking generator with some history; then one setting at the limit of what makes "
          "sense (accepted), then one that makes none (refused by an assertion); non-trivial: the "
          "refusal", 6000, 200000)
{
  typedef Scalar S;
  Rig<S> r(c, 5);
  HumanoidWalkgen<S>& g = r.gen;
  const int cycles = c.below(5);
  for (int i = 0; i < cycles; ++i)
  {
    r.w.command(c, false);
    r.w.sim.beginCycle();
    g.solve(r.w.feedback());
    r.w.sim.endCycle(r.w.f);
  }
  const int N = r.w.sim.N;
  const S T = r.w.T;
  typedef HumanoidWalkgen<S> G;
  typedef void (G::*SetVec)(const VX<S>&);
  const std::pair<const char*, SetVec> states[] = {
      {"setLeftFootStateX", &G::setLeftFootStateX}, {"setLeftFootStateY", &G::setLeftFootStateY},
      {"setLeftFootStateZ", &G::setLeftFootStateZ}, {"setRightFootStateX", &G::setRightFootStateX},
      {"setRightFootStateY", &G::setRightFootStateY}, {"setRightFootStateZ", &G::setRightFootStateZ},
      {"setComStateX", &G::setComStateX}, {"setComStateY", &G::setComStateY},
      {"setComStateZ", &G::setComStateZ}};
  auto weights = [&](int which, S v)
  {
    HumanoidWalkgenWeighting<S> w;
    w.velocityTracking = w.copCentering = w.jerkMinimization = 1;
    (which == 0 ? w.velocityTracking : which == 1 ? w.copCentering : w.jerkMinimization) = v;
    g.setWeightings(w);
  };
  Calls good;
  for (int i = 0; i < 3; ++i)
    good("a weight of zero", [&, i] { weights(i, notNegative<S>(c)); });
  good("a velocity reference", [&] { g.setVelRefInWorldFrame(goodVec<S>(c, 2 * N)); });
  good("an angular reference", [&] { g.setAngularVelRefInWorldFrame(goodVec<S>(c, N)); });
  for (const auto& s : states)
    if (std::string(s.first) != "setComStateZ")
      good(s.first, [&] { (g.*s.second)(goodVec<S>(c, 3)); });
  good("setComStateZ", [&] { VX<S> z = VX<S>::Zero(3); z(0) = goodPositive<S>(c); g.setComStateZ(z); });
  if (!cycles) good("a step of one sample", [&] { g.setStepPeriod(T); });
  if (c.flip()) mustAccept(c, good);

  Calls bad;
  bad("setNbSamples", [&] { g.setNbSamples(badCount(c)); });
  bad("setSamplingPeriod", [&] { g.setSamplingPeriod(badPositive<S>(c)); });
  bad("setStepPeriod", [&] { g.setStepPeriod(badPositive<S>(c)); });
  bad("a step shorter than a sample",
      [&] { g.setStepPeriod(T * static_cast<S>(c.real(0.05, 0.9))); });
  bad("setVelRefInWorldFrame", [&] { g.setVelRefInWorldFrame(badVec<S>(c, 2 * N)); });
  bad("setAngularVelRefInWorldFrame", [&] { g.setAngularVelRefInWorldFrame(badVec<S>(c, N)); });
  for (const auto& s : states) bad(s.first, [&] { (g.*s.second)(badState<S>(c)); });
  bad("a body that moves up or down", [&]
      {
        VX<S> z = VX<S>::Zero(3);
        z(0) = goodPositive<S>(c);
        z(1 + c.below(2)) = (c.flip() ? 1 : -1) * goodPositive<S>(c);
        g.setComStateZ(z);
      });
  for (int i = 0; i < 3; ++i) bad("a negative weight", [&, i] { weights(i, negative<S>(c)); });
  bad("solve", [&] { g.solve(badPositive<S>(c)); });
  bad("a feedback period longer than what remains of the sample",
      [&] { g.solve(T * static_cast<S>(c.real(1.05, 3))); });
  bad("a reference of a former horizon", [&]
      {
        g.setNbSamples(N + c.integer(1, 3));
        weights(0, 1);
        g.solve(r.w.feedback());
      });
  mustRefuse(c, bad);
}

TYPED_LAW(base_generator,
          "a generator of the mobile base with some history; then as above; non-trivial: the "
          "refusal", 6000, 200000)
{
  typedef Scalar S;
  ZebRig<S> r;
  r.weights(c);
  if (c.flip()) { r.samples(c, 4); r.period(c); r.gravity(c); r.heights(c, 0); r.heights(c, 1); }
  if (c.flip()) { r.masses(c, 0); r.masses(c, 1); }
  if (c.flip()) { r.polygon(c, 0); r.polygon(c, 1); r.constraints(c); }
  r.references(c);
  r.place(c);
  if (c.flip()) r.gen.solve(r.p.T);
  ZebulonWalkgen<S>& g = r.gen;
  const int N = r.p.N;
  typedef ZebulonWalkgen<S> G;
  typedef void (G::*SetVec)(const VX<S>&);
  typedef void (G::*SetNumber)(S);
  const std::pair<const char*, SetVec> states[] = {
      {"setBaseStateX", &G::setBaseStateX}, {"setBaseStateY", &G::setBaseStateY},
      {"setBaseStateRoll", &G::setBaseStateRoll}, {"setBaseStatePitch", &G::setBaseStatePitch},
      {"setBaseStateYaw", &G::setBaseStateYaw}, {"setComStateX", &G::setComStateX},
      {"setComStateY", &G::setComStateY}};
  const std::pair<const char*, SetVec> references[] = {
      {"setVelRefInWorldFrame", &G::setVelRefInWorldFrame},
      {"setPosRefInWorldFrame", &G::setPosRefInWorldFrame},
      {"setCopRefInLocalFrame", &G::setCopRefInLocalFrame},
      {"setComRefInLocalFrame", &G::setComRefInLocalFrame}};
  const std::pair<const char*, SetNumber> limits[] = {{"setBaseVelLimit", &G::setBaseVelLimit},
                                                      {"setBaseAccLimit", &G::setBaseAccLimit},
                                                      {"setBaseJerkLimit", &G::setBaseJerkLimit}};
  auto weights = [&](int which, S v)
  {
    ZebulonWalkgenWeighting<S> w;
    w.velocityTracking = w.positionTracking = w.copCentering = w.comCentering =
        w.jerkMinimization = w.tiltMinimization = 1;
    S* const all[] = {&w.velocityTracking, &w.positionTracking, &w.copCentering, &w.comCentering,
                      &w.jerkMinimization, &w.tiltMinimization};
    *all[which] = v;
    g.setWeightings(w);
  };
  Calls good;
  for (int i = 0; i < 6; ++i) good("a weight of zero", [&, i] { weights(i, notNegative<S>(c)); });
  for (const auto& s : limits) good(s.first, [&] { (g.*s.second)(notNegative<S>(c)); });
  for (const auto& s : states) good(s.first, [&] { (g.*s.second)(goodVec<S>(c, 3)); });
  for (const auto& s : references) good(s.first, [&] { (g.*s.second)(goodVec<S>(c, 2 * N)); });
  good("a triangle", [&] { g.setBaseCopHull(in3D<S>(triangle<S>())); });
  good("a triangle", [&] { g.setBaseComHull(in3D<S>(triangle<S>())); });
  good("a body at the height of the ground", [&] { g.setComBodyHeight(0); });
  good("a base at the height of the ground", [&] { g.setComBaseHeight(0); });
  good("a gravity that is tilted", [&]
       {
         V3<S> v;
         v << static_cast<S>(c.real(-20, 20)), static_cast<S>(c.real(-20, 20)),
             static_cast<S>(c.flip() ? 2e-4 : 1);
         g.setGravity(v);
       });
  if (c.flip()) mustAccept(c, good);

  Calls bad;
  bad("setNbSamples", [&] { g.setNbSamples(badCount(c)); });
  bad("setSamplingPeriod", [&] { g.setSamplingPeriod(badPositive<S>(c)); });
  bad("setGravity", [&] { g.setGravity(badGravity<S>(c)); });
  bad("setBaseCopConvexPolygon", [&] { g.setBaseCopConvexPolygon(ConvexPolygon<S>(flat<S>(c))); });
  bad("setBaseComConvexPolygon", [&] { g.setBaseComConvexPolygon(ConvexPolygon<S>(flat<S>(c))); });
  bad("setBaseCopHull", [&] { g.setBaseCopHull(in3D<S>(flat<S>(c))); });
  bad("setBaseComHull", [&] { g.setBaseComHull(in3D<S>(flat<S>(c))); });
  bad("setComBodyHeight", [&] { g.setComBodyHeight(nan<S>()); });
  bad("setComBaseHeight", [&] { g.setComBaseHeight(nan<S>()); });
  bad("setBodyMass", [&] { g.setBodyMass(negative<S>(c)); });
  bad("setBaseMass", [&] { g.setBaseMass(negative<S>(c)); });
  for (const auto& s : states) bad(s.first, [&] { (g.*s.second)(badState<S>(c)); });
  for (const auto& s : references) bad(s.first, [&] { (g.*s.second)(badVec<S>(c, 2 * N)); });
  for (int i = 0; i < 4; ++i)
    bad("setComAndCopRefInWorldFrame", [&, i]
        {
          VX<S> v[4];
          for (int k = 0; k < 4; ++k) v[k] = k == i ? badVec<S>(c, 2 * N) : goodVec<S>(c, 2 * N);
          g.setComAndCopRefInWorldFrame(v[0], v[1], v[2], v[3]);
        });
  for (const auto& s : limits) bad(s.first, [&] { (g.*s.second)(negative<S>(c)); });
  bad("setTiltContactPointOnTheGroundInLocalFrameX",
      [&] { g.setTiltContactPointOnTheGroundInLocalFrameX(nan<S>()); });
  bad("setTiltContactPointOnTheGroundInLocalFrameY",
      [&] { g.setTiltContactPointOnTheGroundInLocalFrameY(nan<S>()); });
  for (int i = 0; i < 6; ++i) bad("a negative weight", [&, i] { weights(i, negative<S>(c)); });
  bad("solve", [&] { g.solve(badPositive<S>(c)); });
  bad("references of a former horizon", [&] { g.setNbSamples(N + c.integer(1, 3)); g.solve(r.p.T); });
  mustRefuse(c, bad);
}

TYPED_LAW(line_generator,
          "a one-dimensional generator with some history; then as above; non-trivial: the refusal",
          4000, 100000)
{
  typedef Scalar S;
  TrajRig<S> r;
  r.weights(c);
  if (c.flip()) { r.samples(c, 6); r.period(c); r.constraints(c); }
  r.references(c);
  r.place(c);
  if (c.flip()) r.gen.solve(r.T);
  TrajectoryWalkgen<S>& g = r.gen;
  const int N = r.N;
  auto weights = [&](int which, S v)
  {
    TrajectoryWalkgenWeighting<S> w;
    w.velocityTracking = w.positionTracking = w.jerkMinimization = 1;
    (which == 0 ? w.velocityTracking : which == 1 ? w.positionTracking : w.jerkMinimization) = v;
    g.setWeightings(w);
  };
  Calls good, bad;
  for (int i = 0; i < 3; ++i) good("a weight of zero", [&, i] { weights(i, notNegative<S>(c)); });
  good("setVelLimit", [&] { g.setVelLimit(notNegative<S>(c)); });
  good("setAccLimit", [&] { g.setAccLimit(notNegative<S>(c)); });
  good("setJerkLimit", [&] { g.setJerkLimit(notNegative<S>(c)); });
  good("setState", [&] { g.setState(goodVec<S>(c, 3)); });
  if (c.flip()) mustAccept(c, good);

  bad("setNbSamples", [&] { g.setNbSamples(badCount(c)); });
  bad("setSamplingPeriod", [&] { g.setSamplingPeriod(badPositive<S>(c)); });
  bad("setVelRefInWorldFrame", [&] { g.setVelRefInWorldFrame(badVec<S>(c, N)); });
  bad("setPosRefInWorldFrame", [&] { g.setPosRefInWorldFrame(badVec<S>(c, N)); });
  bad("setVelLimit", [&] { g.setVelLimit(negative<S>(c)); });
  bad("setAccLimit", [&] { g.setAccLimit(negative<S>(c)); });
  bad("setJerkLimit", [&] { g.setJerkLimit(negative<S>(c)); });
  bad("setState", [&] { g.setState(badState<S>(c)); });
  for (int i = 0; i < 3; ++i) bad("a negative weight", [&, i] { weights(i, negative<S>(c)); });
  bad("solve", [&] { g.solve(badPositive<S>(c)); });
  bad("references of a former horizon", [&] { g.setNbSamples(N + c.integer(1, 3)); g.solve(r.T); });
  mustRefuse(c, bad);
}

TYPED_LAW(models,
          "a pendulum, base, axis or foot model, or a feet supervisor, with random parameters, "
          "recomputing by itself or not; then as above; non-trivial: the refusal", 6000, 200000)
{
  typedef Scalar S;
  const int N = c.integer(1, 5);
  const S T = static_cast<S>(c.logReal(0.05, 0.5));
  const bool automatic = c.flip();
  c.note("N=", N, " T=", T, automatic ? " automatic" : "");
  Calls good, bad;
  const int kind = c.below(5);
  LIPModel<S> lip(N, T, automatic);
  BaseModel<S> base(N, T, automatic);
  NoDynamicModel<S> axis(N, T, automatic);
  HumanoidFootModel<S> foot(N, T);
  std::unique_ptr<Walk<S> > walk;
  if (kind == 0)
  {
    c.label("pendulum");
    lip.setTotalMass(8);
    lip.setMass(static_cast<S>(c.integer(1, 8)));
    const int cycles = automatic && c.flip() ? c.integer(1, 4) : 1;
    if (automatic && cycles > 1) lip.setFeedbackPeriod(T / static_cast<S>(cycles));
    if (!automatic) lip.computeDynamics();
    typedef LIPModel<S> M;
    typedef void (M::*SetVec)(const VX<S>&);
    const std::pair<const char*, SetVec> states[] = {{"setStateX", &M::setStateX},
                                                     {"setStateY", &M::setStateY},
                                                     {"setStateYaw", &M::setStateYaw}};
    for (const auto& s : states) good(s.first, [&] { (lip.*s.second)(goodVec<S>(c, 3)); });
    typedef const LinearDynamic<S>& (M::*Predict)(int) const;
    const Predict predictions[] = {&M::getCopXLinearDynamic, &M::getCopYLinearDynamic,
                                   &M::getComPosLinearDynamic, &M::getComVelLinearDynamic,
                                   &M::getComAccLinearDynamic, &M::getComJerkLinearDynamic};
    for (const Predict& get : predictions)
    {
      good("the last cycle of a sample", [&] { c.note((lip.*get)(cycles - 1).U.rows()); });
      bad("a cycle of the next sample",
          [&] { c.note((lip.*get)(cycles + c.below(3)).U.rows()); });
    }
    good("a part that is the whole", [&] { lip.setTotalMass(lip.getMass()); });
    good("a height of zero", [&] { lip.setComHeight(0); });
    good("another gravity", [&]
         { V3<S> g; g << 1, 2, static_cast<S>(c.flip() ? 1.01e-4 : -3); lip.setGravity(g); });
    for (const auto& s : states) bad(s.first, [&] { (lip.*s.second)(badState<S>(c)); });
    bad("setNbSamples", [&] { lip.setNbSamples(badCount(c)); });
    bad("setSamplingPeriod", [&] { lip.setSamplingPeriod(badPositive<S>(c)); });
    bad("setFeedbackPeriod", [&] { lip.setFeedbackPeriod(badPositive<S>(c)); });
    bad("setComHeight", [&] { lip.setComHeight(nan<S>()); });
    bad("setGravity", [&] { lip.setGravity(badGravity<S>(c)); });
    bad("setMass", [&] { lip.setMass(nan<S>()); });
    bad("setTotalMass", [&] { lip.setTotalMass(nan<S>()); });
    bad("a total that is less than a part",
        [&] { lip.setTotalMass(lip.getMass() * static_cast<S>(c.real(0.01, 0.99))); });
    bad("a model without samples", [&] { LIPModel<S> m(badCount(c), T, true); });
    bad("a model without a period", [&] { LIPModel<S> m(N, badPositive<S>(c), true); });
  }
  else if (kind == 1)
  {
    c.label("base");
    base.setTotalMass(8);
    base.setMass(static_cast<S>(c.integer(1, 8)));
    typedef BaseModel<S> M;
    typedef void (M::*SetVec)(const VX<S>&);
    typedef void (M::*SetNumber)(S);
    const std::pair<const char*, SetVec> states[] = {
        {"setStateX", &M::setStateX}, {"setStateY", &M::setStateY}, {"setStateYaw", &M::setStateYaw},
        {"setStateRoll", &M::setStateRoll}, {"setStatePitch", &M::setStatePitch}};
    const std::pair<const char*, SetNumber> limits[] = {{"setVelocityLimit", &M::setVelocityLimit},
                                                        {"setAccelerationLimit", &M::setAccelerationLimit},
                                                        {"setJerkLimit", &M::setJerkLimit}};
    for (const auto& s : states) good(s.first, [&] { (base.*s.second)(goodVec<S>(c, 3)); });
    for (const auto& s : limits) good(s.first, [&] { (base.*s.second)(notNegative<S>(c)); });
    good("a part that is the whole", [&] { base.setTotalMass(base.getMass()); });
    good("a height of zero", [&] { base.setComHeight(0); });
    good("a triangle", [&] { base.setCopSupportConvexPolygon(ConvexPolygon<S>(triangle<S>())); });
    good("a triangle", [&] { base.setComSupportConvexPolygon(ConvexPolygon<S>(triangle<S>())); });
    good("another gravity", [&]
         { V3<S> g; g << 1, 2, static_cast<S>(c.flip() ? 1.01e-4 : -3); base.setGravity(g); });
    for (const auto& s : states) bad(s.first, [&] { (base.*s.second)(badState<S>(c)); });
    for (const auto& s : limits) bad(s.first, [&] { (base.*s.second)(negative<S>(c)); });
    bad("setNbSamples", [&] { base.setNbSamples(badCount(c)); });
    bad("setSamplingPeriod", [&] { base.setSamplingPeriod(badPositive<S>(c)); });
    bad("setComHeight", [&] { base.setComHeight(nan<S>()); });
    bad("setGravity", [&] { base.setGravity(badGravity<S>(c)); });
    bad("setMass", [&] { base.setMass(badPositive<S>(c)); });
    bad("setTotalMass", [&] { base.setTotalMass(badPositive<S>(c)); });
    bad("a total that is less than a part",
        [&] { base.setTotalMass(base.getMass() * static_cast<S>(c.real(0.01, 0.99))); });
    bad("setCopSupportConvexPolygon",
        [&] { base.setCopSupportConvexPolygon(ConvexPolygon<S>(flat<S>(c))); });
    bad("setComSupportConvexPolygon",
        [&] { base.setComSupportConvexPolygon(ConvexPolygon<S>(flat<S>(c))); });
    bad("a model without samples", [&] { BaseModel<S> m(badCount(c), T, true); });
    bad("a model without a period", [&] { BaseModel<S> m(N, badPositive<S>(c), true); });
  }
  else if (kind == 2)
  {
    c.label("axis");
    good("setState", [&] { axis.setState(goodVec<S>(c, 3)); });
    good("setVelocityLimit", [&] { axis.setVelocityLimit(notNegative<S>(c)); });
    good("setAccelerationLimit", [&] { axis.setAccelerationLimit(notNegative<S>(c)); });
    good("setJerkLimit", [&] { axis.setJerkLimit(notNegative<S>(c)); });
    bad("setState", [&] { axis.setState(badState<S>(c)); });
    bad("setVelocityLimit", [&] { axis.setVelocityLimit(negative<S>(c)); });
    bad("setAccelerationLimit", [&] { axis.setAccelerationLimit(negative<S>(c)); });
    bad("setJerkLimit", [&] { axis.setJerkLimit(negative<S>(c)); });
    bad("setNbSamples", [&] { axis.setNbSamples(badCount(c)); });
    bad("setSamplingPeriod", [&] { axis.setSamplingPeriod(badPositive<S>(c)); });
    bad("a model without samples", [&] { NoDynamicModel<S> m(badCount(c), T, true); });
    bad("a model without a period", [&] { NoDynamicModel<S> m(N, badPositive<S>(c), true); });
  }
  else if (kind == 3)
  {
    c.label("foot");
    if (c.flip()) foot.setNbSamples(c.integer(1, 6));
    const int n = foot.getNbSamples();
    good("the last sample", [&] { c.note(foot.isInContact(n - 1)); });
    bad("a sample outside of the horizon",
        [&] { c.note(foot.isInContact(c.flip() ? n + c.below(3) : -1)); });
    bad("setNbSamples", [&] { foot.setNbSamples(badCount(c)); });
    bad("setSamplingPeriod", [&] { foot.setSamplingPeriod(badPositive<S>(c)); });
    bad("a model without samples", [&] { HumanoidFootModel<S> m(badCount(c), T); });
    bad("a model without a period", [&] { HumanoidFootModel<S> m(N, badPositive<S>(c)); });
  }
  else
  {
    c.label("supervisor");
    walk.reset(new Walk<S>(c, 5));
    Walk<S>& w = *walk;
    for (int i = c.below(12); i > 0; --i)
    { w.command(c, false); w.beginCycle(); w.plan(c); w.endCycle(); }
    w.beginCycle();
    HumanoidFeetSupervisor<S>& u = *w.sup;
    typedef HumanoidFeetSupervisor<S> M;
    typedef void (M::*SetVec)(const VX<S>&);
    const std::pair<const char*, SetVec> states[] = {
        {"setLeftFootStateX", &M::setLeftFootStateX}, {"setLeftFootStateY", &M::setLeftFootStateY},
        {"setLeftFootStateZ", &M::setLeftFootStateZ}, {"setRightFootStateX", &M::setRightFootStateX},
        {"setRightFootStateY", &M::setRightFootStateY},
        {"setRightFootStateZ", &M::setRightFootStateZ}};
    for (const auto& s : states) good(s.first, [&] { (u.*s.second)(goodVec<S>(c, 3)); });
    for (const auto& s : states) bad(s.first, [&] { (u.*s.second)(badState<S>(c)); });
    bad("setNbSamples", [&] { u.setNbSamples(badCount(c)); });
    bad("setSamplingPeriod", [&] { u.setSamplingPeriod(badPositive<S>(c)); });
    bad("setStepPeriod", [&] { u.setStepPeriod(badPositive<S>(c)); });
    bad("the reach of a step that is not previewed",
        [&] { c.note(u.getKinematicConvexPolygon(w.sim.M + c.below(2)).getNbVertices()); });
    if (w.sim.type != PhaseSim::DS)
      bad("a step that has ended already", [&]
          {
            const int left = w.sim.step - w.sim.remaining;   // already made
            u.setStepPeriod(w.time(left) * static_cast<S>(c.real(0.1, 0.99)));
          });
    else if (w.sim.ds > w.sim.remaining)
      for (int rep = 0; rep < 4; ++rep)
        bad("a double support that has ended already", [&]
            {
              const int made = w.sim.ds - w.sim.remaining;
              u.setInitialDoubleSupportLength(w.time(made) * static_cast<S>(c.real(0, 0.95)));
            });
    bad("a timeline for too few variables",
        [&] { VX<S> x = VX<S>::Zero(2 * w.sim.N - 1); u.updateTimeline(x, w.feedback()); });
  }
  if (c.flip()) mustAccept(c, good);
  mustRefuse(c, bad);
}

TYPED_LAW(functions,
          "the objectives and constraints of the mobile base and of one axis; references and "
          "unknowns of the right size (accepted) and not (refused); non-trivial: the refusal",
          6000, 200000)
{
  typedef Scalar S;
  const int N = c.integer(1, 5);
  const S T = static_cast<S>(c.logReal(0.05, 0.5));
  c.note("N=", N, " T=", T);
  LIPModel<S> lip(N, T, true);
  BaseModel<S> base(N, T, true);
  NoDynamicModel<S> axis(N, T, true);
  BaseVelocityTrackingObjective<S> vel(base);
  BasePositionTrackingObjective<S> pos(base);
  JerkMinimizationObjective<S> jerk(lip, base);
  ComCenteringObjective<S> com(lip, base);
  CopCenteringObjective<S> cop(lip, base);
  CopConstraint<S> inCop(lip, base);
  ComConstraint<S> inCom(lip, base);
  BaseMotionConstraint<S> motion(base);
  VelocityTrackingObjective<S> avel(axis);
  PositionTrackingObjective<S> apos(axis);
  TrajectoryJerkMinimizationObjective<S> ajerk(axis);
  TiltMinimizationObjective<S> tilt(lip, base);
  TiltVelMinimizationObjective<S> tiltVel(lip, base);
  TiltMotionConstraint<S> inTilt(lip, base);
  MotionConstraint<S> amotion(axis);
  // one size too few, too many, ...
  auto wrong = [&](int n) { return VX<S>(VX<S>::Zero(c.flip() ? n + c.integer(1, 3) : c.below(n))); };
  Calls good, bad;
  good("setVelRefInWorldFrame", [&] { vel.setVelRefInWorldFrame(goodVec<S>(c, 2 * N)); });
  good("setPosRefInWorldFrame", [&] { pos.setPosRefInWorldFrame(goodVec<S>(c, 2 * N)); });
  good("setComRefInLocalFrame", [&] { com.setComRefInLocalFrame(goodVec<S>(c, 2 * N)); });
  good("setCopRefInLocalFrame", [&] { cop.setCopRefInLocalFrame(goodVec<S>(c, 2 * N)); });
  good("axis setVelRefInWorldFrame", [&] { avel.setVelRefInWorldFrame(goodVec<S>(c, N)); });
  good("axis setPosRefInWorldFrame", [&] { apos.setPosRefInWorldFrame(goodVec<S>(c, N)); });
  good("base motion", [&] { motion.getFunctionInf(goodVec<S>(c, 2 * N)); });
  good("axis motion", [&] { amotion.getFunctionInf(goodVec<S>(c, N)); });
  if (c.flip()) mustAccept(c, good);

  bad("setVelRefInWorldFrame", [&] { vel.setVelRefInWorldFrame(badVec<S>(c, 2 * N)); });
  bad("setPosRefInWorldFrame", [&] { pos.setPosRefInWorldFrame(badVec<S>(c, 2 * N)); });
  bad("setComRefInLocalFrame", [&] { com.setComRefInLocalFrame(badVec<S>(c, 2 * N)); });
  bad("setCopRefInLocalFrame", [&] { cop.setCopRefInLocalFrame(badVec<S>(c, 2 * N)); });
  for (int i = 0; i < 4; ++i)
    bad("setCopRefInWorldFrame", [&, i]
        {
          VX<S> v[4];
          for (int k = 0; k < 4; ++k) v[k] = k == i ? badVec<S>(c, 2 * N) : goodVec<S>(c, 2 * N);
          cop.setCopRefInWorldFrame(v[0], v[1], v[2], v[3]);
        });
  bad("axis setVelRefInWorldFrame", [&] { avel.setVelRefInWorldFrame(badVec<S>(c, N)); });
  bad("axis setPosRefInWorldFrame", [&] { apos.setPosRefInWorldFrame(badVec<S>(c, N)); });
  bad("velocity tracking", [&] { vel.getGradient(wrong(2 * N)); });
  bad("position tracking", [&] { pos.getGradient(wrong(2 * N)); });
  bad("jerk minimization", [&] { jerk.getGradient(wrong(4 * N)); });
  bad("com centring", [&] { com.getGradient(wrong(4 * N)); });
  bad("cop centring", [&] { cop.getGradient(wrong(4 * N)); });
  bad("cop constraint", [&] { inCop.getFunction(wrong(4 * N)); });
  bad("com constraint", [&] { inCom.getFunction(wrong(4 * N)); });
  bad("base motion, lower", [&] { motion.getFunctionInf(wrong(2 * N)); });
  bad("base motion, upper", [&] { motion.getFunctionSup(wrong(2 * N)); });
  bad("axis velocity tracking", [&] { avel.getGradient(wrong(N)); });
  bad("axis position tracking", [&] { apos.getGradient(wrong(N)); });
  bad("axis jerk minimization", [&] { ajerk.getGradient(wrong(N)); });
  bad("axis motion, lower", [&] { amotion.getFunctionInf(wrong(N)); });
  bad("axis motion, upper", [&] { amotion.getFunctionSup(wrong(N)); });
  bad("tilt minimization", [&] { tilt.getGradient(wrong(4 * N)); });
  bad("tilt velocity", [&] { tiltVel.getGradient(wrong(4 * N)); });
  bad("tilt constraint", [&] { inTilt.getFunction(wrong(4 * N)); });

  const int more = N + c.integer(1, 3);
  bad("velocity tracking with a former reference",
      [&] { base.setNbSamples(more); vel.getGradient(VX<S>::Zero(2 * more)); });
  bad("position tracking with a former reference",
      [&] { base.setNbSamples(more); pos.getGradient(VX<S>::Zero(2 * more)); });
  bad("axis velocity tracking with a former reference",
      [&] { axis.setNbSamples(more); avel.getGradient(VX<S>::Zero(more)); });
  bad("axis position tracking with a former reference",
      [&] { axis.setNbSamples(more); apos.getGradient(VX<S>::Zero(more)); });

  // two models with other horizons or periods
  auto apart = [&]
  {
    switch (c.below(4))
    {
      case 0: lip.setNbSamples(N + c.integer(1, 3)); break;
      case 1: base.setNbSamples(N + c.integer(1, 3)); break;
      case 2: lip.setSamplingPeriod(T * static_cast<S>(c.real(1.01, 2))); break;
      default: base.setSamplingPeriod(T * static_cast<S>(c.real(1.01, 2)));
    }
  };
  bad("jerk minimization of two horizons", [&] { apart(); JerkMinimizationObjective<S> f(lip, base); });
  bad("com centring of two horizons", [&] { apart(); ComCenteringObjective<S> f(lip, base); });
  bad("cop centring of two horizons", [&] { apart(); CopCenteringObjective<S> f(lip, base); });
  bad("cop constraint of two horizons", [&] { apart(); CopConstraint<S> f(lip, base); });
  bad("com constraint of two horizons", [&] { apart(); ComConstraint<S> f(lip, base); });
  bad("tilt minimization of two horizons", [&] { apart(); TiltMinimizationObjective<S> f(lip, base); });
  bad("tilt velocity of two horizons", [&] { apart(); TiltVelMinimizationObjective<S> f(lip, base); });
  bad("tilt constraint of two horizons", [&] { apart(); TiltMotionConstraint<S> f(lip, base); });
  const VX<S> x = VX<S>::Zero(4 * N);
  bad("jerk minimization, models that went apart", [&] { lip.setNbSamples(N + c.integer(1, 3)); jerk.getGradient(x); });
  bad("com centring, models that went apart", [&] { apart(); com.getGradient(x); });
  bad("cop centring, models that went apart", [&] { apart(); cop.getGradient(x); });
  bad("cop constraint, models that went apart", [&] { apart(); inCop.getFunction(x); });
  bad("com constraint, models that went apart", [&] { apart(); inCom.getFunction(x); });
  bad("tilt minimization, models that went apart", [&] { apart(); tilt.getGradient(x); });
  bad("tilt velocity, models that went apart", [&] { apart(); tiltVel.getGradient(x); });
  bad("tilt constraint, models that went apart", [&] { apart(); inTilt.getFunction(x); });
  bad("jerk minimization, models that went apart", [&] { lip.setNbSamples(N + c.integer(1, 3)); jerk.getHessian(); });
  bad("com centring, models that went apart", [&] { apart(); com.getHessian(); });
  bad("cop centring, models that went apart", [&] { apart(); cop.getHessian(); });
  bad("com constraint, models that went apart", [&] { apart(); inCom.getGradient(); });
  bad("tilt minimization, models that went apart", [&] { apart(); tilt.getHessian(); });
  bad("tilt velocity, models that went apart", [&] { apart(); tiltVel.getHessian(); });
  bad("tilt constraint, models that went apart", [&] { apart(); inTilt.getGradient(); });
  mustRefuse(c, bad);
}

TYPED_LAW(walking_functions,
          "the objectives and constraints of the walk after random commands; unknowns of the right "
          "size (accepted) and not (refused), a pendulum with another horizon; non-trivial: the "
          "refusal", 6000, 100000)
{
  typedef Scalar S;
  Walk<S> w(c, 5);
  for (int i = c.below(12); i > 0; --i)
  { w.command(c, false); w.beginCycle(); w.plan(c); w.endCycle(); }
  w.beginCycle();
  const int N = w.sim.N, n = 2 * (N + w.sim.M);
  LIPModel<S> lip(N, w.T, true), other(N + c.integer(1, 3), w.T, true);
  lip.setFeedbackPeriod(w.feedback());
  HumanoidLipComVelocityTrackingObjective<S> vel(lip, *w.sup);
  HumanoidLipComJerkMinimizationObjective<S> jerk(lip, *w.sup);
  HumanoidCopCenteringObjective<S> centre(lip, *w.sup);
  HumanoidCopConstraint<S> cop(lip, *w.sup);
  HumanoidFootConstraint<S> feet(lip, *w.sup);
  cop.computeConstantPart();
  auto wrong = [&] { return VX<S>(VX<S>::Zero(c.flip() ? n + c.integer(1, 3) : c.below(n))); };
  Calls good, bad;
  good("velocity tracking", [&] { vel.getGradient(VX<S>::Zero(n)); });
  good("jerk minimization", [&] { jerk.getGradient(VX<S>::Zero(n)); });
  good("cop centring", [&] { centre.getGradient(VX<S>::Zero(n)); });
  good("cop constraint", [&] { cop.getFunction(VX<S>::Zero(n)); });
  good("feet constraint", [&] { feet.getFunction(VX<S>::Zero(n)); });
  good("a reference", [&] { vel.setVelRefInWorldFrame(goodVec<S>(c, 2 * N)); });
  if (c.flip()) mustAccept(c, good);
  bad("velocity tracking", [&] { vel.getGradient(wrong()); });
  bad("jerk minimization", [&] { jerk.getGradient(wrong()); });
  bad("cop centring", [&] { centre.getGradient(wrong()); });
  bad("cop constraint", [&] { cop.getFunction(wrong()); });
  bad("cop constraint, upper bounds", [&] { cop.getSupBounds(wrong()); });
  bad("cop constraint, lower bounds", [&] { cop.getInfBounds(wrong()); });
  bad("cop constraint, gradient", [&] { cop.getGradient(static_cast<int>(wrong().rows())); });
  bad("feet constraint", [&] { feet.getFunction(wrong()); });
  bad("feet constraint, upper bounds", [&] { feet.getSupBounds(wrong()); });
  bad("feet constraint, lower bounds", [&] { feet.getInfBounds(wrong()); });
  bad("feet constraint, gradient", [&] { feet.getGradient(static_cast<int>(wrong().rows())); });
  bad("a reference", [&] { vel.setVelRefInWorldFrame(badVec<S>(c, 2 * N)); });
  bad("velocity tracking of two horizons",
      [&] { HumanoidLipComVelocityTrackingObjective<S> f(other, *w.sup); });
  bad("jerk minimization of two horizons",
      [&] { HumanoidLipComJerkMinimizationObjective<S> f(other, *w.sup); });
  bad("cop centring of two horizons", [&]
      {
        HumanoidCopCenteringObjective<S> f(other, *w.sup);
        f.getGradient(VX<S>::Zero(n));
      });
  bad("cop constraint of two horizons", [&] { HumanoidCopConstraint<S> f(other, *w.sup); });
  bad("feet constraint of two horizons", [&]
      {
        HumanoidFootConstraint<S> f(other, *w.sup);
        f.getFunction(VX<S>::Zero(n));
      });
  mustRefuse(c, bad);
}

TYPED_LAW(prediction_and_solver,
          "the prediction of one axis with a period, first period, number of samples, gravity or "
          "mass that makes no sense; a quadratic problem whose parts have other sizes than the "
          "solver; non-trivial: the refusal", 6000, 200000)
{
  typedef Scalar S;
  typedef Tools::ConstantJerkDynamic<S> D;
  const int N = c.integer(1, 5);
  const S T = static_cast<S>(c.logReal(0.05, 0.5)), first = T * static_cast<S>(c.real(0.1, 1));
  LinearDynamic<S> d;
  Calls good, bad;
  typedef void (*Make)(S, S, int, LinearDynamic<S>&);
  const std::pair<const char*, Make> makers[] = {
      {"position", &D::computePosDynamic}, {"velocity", &D::computeVelDynamic},
      {"acceleration", &D::computeAccDynamic}, {"order 2 position", &D::computeOrder2PosDynamic},
      {"order 2 velocity", &D::computeOrder2VelDynamic}};
  for (const auto& m : makers)
  {
    const std::string name = m.first;
    // these two only need a first period that is not zero
    const bool acc = name == "acceleration" || name == "order 2 velocity";
    good(name, [&] { m.second(first, T, N, d); });
    bad(name + " without samples", [&] { m.second(first, T, badCount(c), d); });
    bad(name + " without a period", [&] { m.second(first, badPositive<S>(c), N, d); });
    bad(name + " without a first period",
        [&, acc] { m.second(acc ? (c.flip() ? S(0) : nan<S>()) : badPositive<S>(c), T, N, d); });
  }
  auto cop = [&](S s, S t, int n, S gz, S m, S total)
  { D::computeCopDynamic(s, t, n, d, 1, static_cast<S>(c.real(-3, 3)), gz, m, total); };
  good("cop", [&] { cop(first, T, N, static_cast<S>(9.81), 2, 2); });
  bad("cop without samples", [&] { cop(first, T, badCount(c), 1, 1, 2); });
  bad("cop without a period", [&] { cop(first, badPositive<S>(c), N, 1, 1, 2); });
  bad("cop without a first period", [&] { cop(badPositive<S>(c), T, N, 1, 1, 2); });
  bad("cop without gravity",
      [&] { cop(first, T, N, static_cast<S>(c.real(-0.9e-4, 0.9e-4)), 1, 2); });
  bad("cop of a part that exceeds the whole", [&] { cop(first, T, N, 1, 2, 1); });
  bad("cop of nothing", [&] { cop(first, T, N, 1, 0, static_cast<S>(c.real(0, 0.9e-4))); });
  VX<S> state = VX<S>::Zero(3);
  good("a move", [&] { D::updateState(static_cast<S>(c.real(-5, 5)), T, state); });
  bad("a move for no time", [&] { D::updateState(1, badPositive<S>(c), state); });
  bad("a move with a jerk that is not a number", [&] { D::updateState(nan<S>(), T, state); });

  const int n = c.integer(1, 4), k = c.integer(0, 4);
  std::unique_ptr<QPSolver<S> > solver(makeQPSolver<S>(n, k));
  QPMatrices<S> q;
  q.Q.setIdentity(n, n);
  q.p.setZero(n);
  q.A.setZero(k, n);
  q.xl.setConstant(n, -1);
  q.xu.setConstant(n, 1);
  q.bl.setConstant(k, -1);
  q.bu.setConstant(k, 1);
  VX<S> x = VX<S>::Zero(n);
  good("a problem", [&] { solver->solve(q, 100, x, false); });
  static const char* const parts[] = {"Q", "p", "A", "xl", "xu", "bl", "bu", "rows of Q"};
  for (int i = 0; i < 8; ++i)
    for (int rep = 0; rep < 3; ++rep)
      bad(std::string("a problem with another size of ") + parts[i], [&, i]
          {
            const int n2 = c.flip() ? n + c.integer(1, 3) : c.below(n);
            const int k2 = c.flip() || !k ? k + c.integer(1, 3) : c.below(k);
            switch (i)
            {
              case 0: q.Q.setIdentity(n, n2); break;
              case 1: q.p.setZero(n2); break;
              case 2: if (c.flip()) q.A.setZero(k2, n); else q.A.setZero(k, n2); break;
              case 3: q.xl.setConstant(n2, -1); break;
              case 4: q.xu.setConstant(n2, 1); break;
              case 5: q.bl.setConstant(k2, -1); break;
              case 6: q.bu.setConstant(k2, 1); break;
              default: q.Q.setIdentity(n2, n);
            }
            solver->solve(q, 100, x, c.flip());
          });
  if (n != k && k)
    bad("a problem with A turned", [&] { q.A.setZero(n, k); solver->solve(q, 100, x, c.flip()); });
  if (c.flip()) mustAccept(c, good);
  mustRefuse(c, bad);
}
