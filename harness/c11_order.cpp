// C11: walking generator behaviour is independent of configuration order.
#include "humanoid_gen.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> VX<S> state(R p, R v = 0, R a = 0)
  {
    VX<S> s(3);
    s << static_cast<S>(p), static_cast<S>(v), static_cast<S>(a);
    return s;
  }
  /// Everything that can be configured.
  template <typename S> struct Setup
  {
    int N;
    S T, step, ds;
    ConvexPolygon<S> copL, copR, kinL, kinR;
    S maxL, maxR;
    VX<S> feet[6];   // left x y z, right x y z
    VX<S> com[3];
    HumanoidWalkgenWeighting<S> weights;
    HumanoidWalkgenConfig<S> config;
    VX<S> ref;
    bool move;

    /// anything, for values that are overwritten later
    static Setup random(Ctx& c)
    {
      Setup s;
      s.N = c.integer(1, 8);
      s.T = static_cast<S>(c.pick<double>({0.1, 0.05, 0.2, 0.3}));
      s.step = s.T * static_cast<S>(c.integer(2, 8));
      s.ds = s.T * static_cast<S>(c.integer(1, 5));
      s.copL = ConvexPolygon<S>(genPolygon<S>(c, 0.01L, 0, 0.06L, 0.03L));
      s.copR = ConvexPolygon<S>(genPolygon<S>(c, 0.01L, 0, 0.06L, 0.03L));
      s.kinL = ConvexPolygon<S>(genPolygon<S>(c, 0, -0.25L, 0.2L, 0.05L));
      s.kinR = ConvexPolygon<S>(genPolygon<S>(c, 0, 0.25L, 0.2L, 0.05L));
      s.maxL = static_cast<S>(c.real(0.01, 0.1));
      s.maxR = static_cast<S>(c.real(0.01, 0.1));
      for (int i = 0; i < 6; ++i) s.feet[i] = state<S>(i % 3 == 2 ? 0 : c.real(-1, 1));
      s.com[0] = state<S>(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
      s.com[1] = state<S>(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
      s.com[2] = state<S>(c.real(0.4, 1));
      s.weights.velocityTracking = static_cast<S>(c.logReal(0.1, 10));
      s.weights.copCentering = static_cast<S>(c.logReal(0.1, 10));
      s.weights.jerkMinimization = static_cast<S>(c.logReal(1e-4, 1e-2));
      s.config.withCopConstraints = c.flip();
      s.config.withFeetConstraints = c.flip();
      s.ref = genVec<S>(c, 2 * s.N, -0.5, 0.5);
      s.move = c.flip();
      return s;
    }
    enum { NbSamples, Period, Step, DS, CopL, CopR, KinL, KinR, MaxL, MaxR,
           Feet, Com = Feet + 6, Weights = Com + 3, Config, Ref, Move, Nb };
    void apply(HumanoidWalkgen<S>& g, int what) const
    {
      switch (what)
      {
        case NbSamples: g.setNbSamples(N); break;
        case Period: g.setSamplingPeriod(T); break;
        case Step: g.setStepPeriod(step); break;
        case DS: g.setInitialDoubleSupportLength(ds); break;
        case CopL: g.setLeftFootCopConvexPolygon(copL); break;
        case CopR: g.setRightFootCopConvexPolygon(copR); break;
        case KinL: g.setLeftFootKinematicConvexPolygon(kinL); break;
        case KinR: g.setRightFootKinematicConvexPolygon(kinR); break;
        case MaxL: g.setLeftFootMaxHeight(maxL); break;
        case MaxR: g.setRightFootMaxHeight(maxR); break;
        case Feet: g.setLeftFootStateX(feet[0]); break;
        case Feet + 1: g.setLeftFootStateY(feet[1]); break;
        case Feet + 2: g.setLeftFootStateZ(feet[2]); break;
        case Feet + 3: g.setRightFootStateX(feet[3]); break;
        case Feet + 4: g.setRightFootStateY(feet[4]); break;
        case Feet + 5: g.setRightFootStateZ(feet[5]); break;
        case Com: g.setComStateX(com[0]); break;
        case Com + 1: g.setComStateY(com[1]); break;
        case Com + 2: g.setComStateZ(com[2]); break;
        case Weights: g.setWeightings(weights); break;
        case Config: g.setConfig(config); break;
        case Ref: g.setVelRefInWorldFrame(ref); break;
        case Move: g.setMove(move); break;
      }
    }
  };
  const char* const kNames[] = {
    "nbSamples", "samplingPeriod", "stepPeriod", "doubleSupport", "leftCop", "rightCop",
    "leftReach", "rightReach", "leftHeight", "rightHeight", "leftX", "leftY", "leftZ", "rightX",
    "rightY", "rightZ", "comX", "comY", "comZ", "weightings", "config", "velRef", "move"};

  /// Settings that the motion does not depend on: the yaw of the feet is not planned.
  template <typename S> void unused(Ctx& c, HumanoidWalkgen<S>& g, int N)
  {
    const S v = static_cast<S>(c.real(-1, 1));
    switch (c.below(N > 0 ? 9 : 8))
    {
      case 0: g.setLeftFootYawUpperBound(v); break;
      case 1: g.setLeftFootYawLowerBound(v); break;
      case 2: g.setRightFootYawUpperBound(v); break;
      case 3: g.setRightFootYawLowerBound(v); break;
      case 4: g.setLeftFootYawSpeedUpperBound(v); break;
      case 5: g.setRightFootYawSpeedUpperBound(v); break;
      case 6: g.setLeftFootYawAccelerationUpperBound(v); break;
      case 7: g.setRightFootYawAccelerationUpperBound(v); break;
      default: g.setAngularVelRefInWorldFrame(VX<S>::Constant(N, v)); break;
    }
  }

  template <typename S> VX<S> all(const HumanoidWalkgen<S>& g)
  {
    VX<S> v(27);
    v << g.getComStateX(), g.getComStateY(), g.getComStateZ(), g.getLeftFootStateX(),
         g.getLeftFootStateY(), g.getLeftFootStateZ(), g.getRightFootStateX(),
         g.getRightFootStateY(), g.getRightFootStateZ();
    return v;
  }
}

TYPED_LAW(order_of_configuration,
          "a generator configured once in a fixed order, and one configured in a random order "
          "with overwritten values and, sometimes, cycles of standing in between, then walk under "
          "the same commands and give the same motion; non-trivial: overwritten values and a step",
          6000, 150000)
{
  typedef Setup<Scalar> Set;
  Walk<Scalar> w(c, 8);
  HumanoidWalkgen<Scalar> a, b;
  Set f = Set::random(c);
  f.N = w.sim.N; f.T = w.T; f.step = w.time(w.sim.step); f.ds = w.time(w.sim.ds);
  f.copL = w.pCopL; f.copR = w.pCopR; f.kinL = w.pKinL; f.kinR = w.pKinR;
  f.maxL = w.maxL; f.maxR = w.maxR;
  f.feet[0] = w.sup->getLeftFootStateX(); f.feet[1] = w.sup->getLeftFootStateY();
  f.feet[2] = w.sup->getLeftFootStateZ(); f.feet[3] = w.sup->getRightFootStateX();
  f.feet[4] = w.sup->getRightFootStateY(); f.feet[5] = w.sup->getRightFootStateZ();
  const R mx = (f.feet[0](0) + f.feet[3](0)) / 2, my = (f.feet[1](0) + f.feet[4](0)) / 2;
  f.com[0] = state<Scalar>(mx + c.real(-0.05, 0.05), c.real(-0.1, 0.1), c.real(-0.2, 0.2));
  f.com[1] = state<Scalar>(my + c.real(-0.05, 0.05), c.real(-0.1, 0.1), c.real(-0.2, 0.2));
  f.ref = genVec<Scalar>(c, 2 * f.N, -0.3, 0.3);
  f.move = c.chance(2, 3);
  for (int i = 0; i < Set::Nb; ++i) f.apply(a, i);

  // the other one, in random order
  bool noise = false;
  const bool standFirst = c.chance(1, 3);
  std::vector<int> todo;
  if (standFirst)
  {
    // whole double supports of standing: the timings are already there
    Set s = Set::random(c);
    s.N = c.integer(1, 8);
    s.T = f.T; s.step = f.step; s.ds = f.ds; s.move = false;
    s.ref = genVec<Scalar>(c, 2 * s.N, -0.3, 0.3);
    for (int i = 0; i < Set::Nb; ++i) s.apply(b, i);
    const int n = w.sim.ds / w.f * c.integer(1, 2);
    for (int i = 0; i < n; ++i) b.solve(w.feedback());
    c.note("stood for ", n, " cycles with ", s.N, " samples");
    noise = true;
    for (int i = 0; i < Set::Nb; ++i)
      if (i != Set::Period && i != Set::Step && i != Set::DS) todo.push_back(i);
  }
  else for (int i = 0; i < Set::Nb; ++i) todo.push_back(i);
  std::vector<int> order;
  while (!todo.empty())
  {
    const int k = c.below(static_cast<int>(todo.size()));
    order.push_back(todo[k]);
    todo.erase(todo.begin() + k);
  }
  // references go after the number of samples, steps after the period
  auto after = [&](int second, int first)
  {
    auto i = std::find(order.begin(), order.end(), first);
    auto j = std::find(order.begin(), order.end(), second);
    if (i != order.end() && j != order.end() && i > j) std::iter_swap(i, j);
  };
  after(Set::Ref, Set::NbSamples);
  after(Set::Step, Set::Period);
  std::string said;
  bool sized = standFirst, timed = standFirst;
  Scalar T = standFirst ? f.T : 1;
  (void)T;
  for (size_t i = 0; i < order.size(); ++i)
  {
    while (c.chance(1, 4))
    {
      // a value that is not the final one, for something still to be set
      const int what = order[i + c.below(static_cast<int>(order.size() - i))];
      Set s = Set::random(c);
      if (what == Set::Ref) continue;             // its size depends on the rest
      if (what == Set::Step && !timed) continue;
      if (what == Set::Step && s.step < f.T * 2) s.step = f.T * 2;
      if (what == Set::Period || what == Set::DS) { }
      s.apply(b, what);
      said += std::string(" (") + kNames[what] + ")";
      noise = true;
    }
    if (c.chance(1, 6)) unused(c, b, 0);
    f.apply(b, order[i]);
    said += std::string(" ") + kNames[order[i]];
    sized = sized || order[i] == Set::NbSamples;
    timed = timed || order[i] == Set::Period;
  }
  c.note("order:", said);

  w.sim.move = f.move; w.sup->setMove(f.move);
  const int cycles = c.integer(1, 30);
  bool stepped = false;
  const R tol = eps<Scalar>() < 1e-10L ? 1e-5L : 1e30L;   // single precision: no crash
  for (int i = 0; i < cycles; ++i)
  {
    // commands to both
    const int f0 = w.f;
    w.gen = &a;
    if (c.chance(1, 8)) unused(c, b, f.N);
    const PhaseSim before = w.sim;
    w.command(c, i > 0 || !standFirst);
    if (w.sim.move != before.move) b.setMove(w.sim.move);
    if (w.sim.step != before.step) b.setStepPeriod(w.time(w.sim.step));
    if (w.sim.ds != before.ds) b.setInitialDoubleSupportLength(w.time(w.sim.ds));
    (void)f0;
    w.beginCycle();
    const VX<Scalar> old = all(a);
    const bool okA = a.solve(w.feedback()), okB = b.solve(w.feedback());
    c.check(okA == okB, "one configuration is solved, the other is not");
    const VX<Scalar> va = all(a), vb = all(b);
    R scale = 1;
    for (int k = 0; k < 27; ++k) scale = std::max<R>(scale, std::abs(va(k)));
    const R fall = std::max(std::abs(va(1)), std::abs(va(4)));
    for (int k = 0; k < 27; ++k)
      if (!(std::abs(va(k) - vb(k)) <= tol * (k % 3 == 2 ? scale : k % 3 == 1 ? scale : 1)))
        c.fail("cycle " + std::to_string(i) + ", state " + std::to_string(k) + ": " + str(va(k)) +
               " or " + str(vb(k)));
    if (!(fall < 4)) { c.label("falling"); break; }
    // go on from the same state
    b.setComStateX(a.getComStateX()); b.setComStateY(a.getComStateY());
    w.endCycle();
    stepped = stepped || w.sim.stepEnded;
  }
  c.nontrivial(noise && stepped);
}
