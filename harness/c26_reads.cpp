// C26: reading changes nothing, and what was read stays until something is changed.
#include "actors.h"
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_jerk_minimization_objective.h>
#include <mpc-walkgen/function/trajectory_motion_constraint.h>
#include <mpc-walkgen/function/trajectory_position_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_base_position_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_com_centering_objective.h>
#include <mpc-walkgen/function/zebulon_com_constraint.h>
#include <mpc-walkgen/function/zebulon_cop_centering_objective.h>
#include <mpc-walkgen/function/zebulon_cop_constraint.h>
#include <mpc-walkgen/function/zebulon_jerk_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_tilt_velocity_minimization_objective.h>
#include <functional>

namespace
{
  /// What a reader gives: its address is kept, and its bits as they were.
  template <typename S> struct Read
  {
    std::string name;
    std::function<Bits()> again;   // what the returned reference refers to now
    Bits bits;
  };
  template <typename S> struct Reader
  {
    std::string name;
    std::function<Read<S>()> read;
  };
  template <typename D> Bits bitsOf(const Eigen::MatrixBase<D>& m)
  {
    struct A : Actor { void step(Ctx&) override {} } a;
    a.put(double(m.rows()));
    a.put(double(m.cols()));
    a.putAll(m);
    return a.out;
  }
  template <typename S> Bits bitsOf(const LinearDynamic<S>& d)
  {
    Bits b;
    for (const Bits& x : {bitsOf(d.U), bitsOf(d.UT), bitsOf(d.Uinv), bitsOf(d.UTinv), bitsOf(d.S),
                          bitsOf(d.K)})
      b.insert(b.end(), x.begin(), x.end());
    return b;
  }
  template <typename S> Bits bitsOf(const ConvexPolygon<S>& p)
  {
    Bits b;
    for (const V2<S>& v : p.getVertices())
    {
      const Bits x = bitsOf(v);
      b.insert(b.end(), x.begin(), x.end());
    }
    for (const Bits& x : {bitsOf(p.getGeneralConstraintsMatrixCoefsForX()),
                          bitsOf(p.getGeneralConstraintsMatrixCoefsForY()),
                          bitsOf(p.getGeneralConstraintsConstantPart())})
      b.insert(b.end(), x.begin(), x.end());
    return b;
  }
  Bits bitsOf(int v) { return Bits(1, static_cast<std::uint64_t>(v)); }
  Bits bitsOf(bool v) { return Bits(1, v); }
  Bits bitsOf(double v) { Eigen::Matrix<double, 1, 1> m; m << v; return bitsOf(m); }
  Bits bitsOf(float v) { return bitsOf(static_cast<double>(v)); }

  template <typename S> struct Readers
  {
    std::vector<Reader<S> > all;
    /// f returns a reference: it must go on referring to the same values
    template <typename F> void ref(const std::string& name, F f)
    {
      add(name, f, std::is_reference<decltype(f())>());
    }
    template <typename F> void add(const std::string& name, F f, std::true_type)
    {
      all.push_back({name, [name, f]
                     {
                       const auto* p = &f();
                       return Read<S>{name, [p] { return bitsOf(*p); }, bitsOf(*p)};
                     }});
    }
    template <typename F> void add(const std::string& name, F f, std::false_type) { val(name, f); }
    /// f evaluates at one of several points: its result replaces that of the former point, so
    /// what was returned is only held to when there is one point.
    bool onePoint = false;
    template <typename F> void eval(const std::string& name, F f)
    {
      if (onePoint) ref(name, f);
      else val(name, f);
    }
    /// f returns a value
    template <typename F> void val(const std::string& name, F f)
    {
      all.push_back({name, [name, f]
                     { const Bits b = bitsOf(f()); return Read<S>{name, [b] { return b; }, b}; }});
    }
    /// Reads in any order, each possibly several times; the readers whose results are evaluated
    /// anew at each call (results of other arguments) are not told apart by reference.
    void check(Ctx& c, int most)
    {
      std::map<std::string, Read<S> > first;
      const int n = c.integer(2, most);
      for (int i = 0; i < n; ++i)
      {
        const Reader<S>& r = all[c.below(static_cast<int>(all.size()))];
        const Read<S> now = r.read();
        auto it = first.find(r.name);
        if (it == first.end()) first.insert(std::make_pair(r.name, now));
        else if (it->second.bits != now.bits)
          c.fail(r.name + " reads differently the second time, after reads only");
        else it->second.again = now.again;
        for (const auto& f : first)
          if (f.second.again() != f.second.bits)
            c.fail("what " + f.first + " returned is changed by reading " + r.name);
      }
      c.note(n, " reads of ", first.size(), " readers");
    }
  };

  template <typename S> void addModel(Readers<S>& r, const std::string& n, const LIPModel<S>& m)
  {
    r.ref(n + " cop x", [&m]() -> decltype(auto) { return m.getCopXLinearDynamic(); });
    r.ref(n + " cop y", [&m]() -> decltype(auto) { return m.getCopYLinearDynamic(); });
    r.ref(n + " com position", [&m]() -> decltype(auto) { return m.getComPosLinearDynamic(); });
    r.ref(n + " com velocity", [&m]() -> decltype(auto) { return m.getComVelLinearDynamic(); });
    r.ref(n + " com acceleration", [&m]() -> decltype(auto) { return m.getComAccLinearDynamic(); });
    r.ref(n + " com jerk", [&m]() -> decltype(auto) { return m.getComJerkLinearDynamic(); });
    r.ref(n + " state x", [&m]() -> decltype(auto) { return m.getStateX(); });
    r.ref(n + " state y", [&m]() -> decltype(auto) { return m.getStateY(); });
    r.ref(n + " state z", [&m]() -> decltype(auto) { return m.getStateZ(); });
    r.val(n + " height", [&m] { return m.getComHeight(); });
    r.val(n + " period", [&m] { return m.getSamplingPeriod(); });
  }
}

TYPED_LAW(supervisor,
          "walking histories; at each cycle, before and after the timeline is brought up to date and "
          "the feet move, reads of the supervisor, of the objectives and of the constraints of the "
          "walk, in random order and repeatedly: each reads the same every time, and what was "
          "returned earlier still holds; non-trivial: a step", 6000, 250000)
{
  typedef Scalar S;
  Walk<S> w(c, 5);
  const int N = w.sim.N;
  LIPModel<S> lip(N, w.T, true);
  HumanoidLipComVelocityTrackingObjective<S> vel(lip, *w.sup);
  HumanoidLipComJerkMinimizationObjective<S> jerk(lip, *w.sup);
  HumanoidCopCenteringObjective<S> centre(lip, *w.sup);
  HumanoidCopConstraint<S> cop(lip, *w.sup);
  HumanoidFootConstraint<S> feet(lip, *w.sup);
  if (c.chance(3, 4)) w.setMove(true);
  const HumanoidFeetSupervisor<S>& u = *w.sup;
  Readers<S> of;
  of.ref("support x", [&]() -> decltype(auto) { return u.getSupportFootStateX(); });
  of.ref("support y", [&]() -> decltype(auto) { return u.getSupportFootStateY(); });
  of.ref("left x", [&]() -> decltype(auto) { return u.getLeftFootStateX(); });
  of.ref("left y", [&]() -> decltype(auto) { return u.getLeftFootStateY(); });
  of.ref("left z", [&]() -> decltype(auto) { return u.getLeftFootStateZ(); });
  of.ref("right x", [&]() -> decltype(auto) { return u.getRightFootStateX(); });
  of.ref("right y", [&]() -> decltype(auto) { return u.getRightFootStateY(); });
  of.ref("right z", [&]() -> decltype(auto) { return u.getRightFootStateZ(); });
  of.ref("weights", [&]() -> decltype(auto) { return u.getSampleWeightMatrix(); });
  of.ref("rotation", [&]() -> decltype(auto) { return u.getRotationMatrix(); });
  of.ref("rotation, transposed", [&]() -> decltype(auto) { return u.getRotationMatrixT(); });
  of.ref("feet positions", [&]() -> decltype(auto) { return u.getFeetPosLinearDynamic(); });
  of.val("calls before the next sample", [&] { return u.getNbOfCallsBeforeNextSample(); });
  of.val("previewed steps", [&] { return u.getNbPreviewedSteps(); });
  of.val("double support", [&] { return u.isInDS(); });
  of.val("step period", [&] { return u.getStepPeriod(); });
  of.val("most cop rows", [&] { return w.sup->getMaximumNbOfCopConstraints(); });
  of.val("most reach rows", [&] { return w.sup->getMaximumNbOfKinematicConstraints(); });
  addModel(of, "pendulum", lip);
  const std::size_t stateless = of.all.size();
  bool stepped = false;
  const int cycles = c.integer(1, 25);
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    w.beginCycle();
    if (std::abs(lip.getFeedbackPeriod() - w.feedback()) > S(1e-6)) lip.setFeedbackPeriod(w.feedback());
    lip.setStateX(genState<S>(c));
    lip.setStateY(genState<S>(c));
    of.all.resize(stateless);
    for (int k = 0; k < N; ++k)
      of.ref("cop polygon " + std::to_string(k),
             [&, k]() -> decltype(auto) { return u.getCopConvexPolygon(k); });
    for (int k = 0; k < w.sim.M; ++k)
      of.ref("reach " + std::to_string(k),
             [&, k]() -> decltype(auto) { return u.getKinematicConvexPolygon(k); });
    const int n = 2 * (N + w.sim.M);
    of.onePoint = c.flip();
    for (int k = 0; k < (of.onePoint ? 1 : 2); ++k)
    {
      const VX<S> x = genVec<S>(c, n, -1, 1);
      const std::string at = " at point " + std::to_string(k);
      of.eval("velocity tracking" + at, [&, x]() -> decltype(auto) { return vel.getGradient(x); });
      of.eval("jerk minimization" + at, [&, x]() -> decltype(auto) { return jerk.getGradient(x); });
      of.eval("cop centring" + at, [&, x]() -> decltype(auto) { return centre.getGradient(x); });
      of.eval("cop rows" + at, [&, x]() -> decltype(auto) { return cop.getFunction(x); });
      of.eval("cop upper bounds" + at, [&, x]() -> decltype(auto) { return cop.getSupBounds(x); });
      of.eval("cop lower bounds" + at, [&, x]() -> decltype(auto) { return cop.getInfBounds(x); });
      of.eval("reach rows" + at, [&, x]() -> decltype(auto) { return feet.getFunction(x); });
      of.eval("reach upper bounds" + at, [&, x]() -> decltype(auto) { return feet.getSupBounds(x); });
      of.eval("reach lower bounds" + at, [&, x]() -> decltype(auto) { return feet.getInfBounds(x); });
    }
    of.ref("velocity tracking, hessian", [&]() -> decltype(auto) { return vel.getHessian(); });
    of.ref("jerk minimization, hessian", [&]() -> decltype(auto) { return jerk.getHessian(); });
    of.ref("cop centring, hessian", [&]() -> decltype(auto) { return centre.getHessian(); });
    of.ref("cop rows, gradient", [&]() -> decltype(auto) { return cop.getGradient(n); });
    of.ref("reach rows, gradient", [&]() -> decltype(auto) { return feet.getGradient(n); });
    of.val("number of cop rows", [&] { return cop.getNbConstraints(); });
    of.val("number of reach rows", [&] { return feet.getNbConstraints(); });
    of.check(c, 24);
    stepped = stepped || w.sim.type != PhaseSim::DS;
    w.plan(c);
    w.endCycle();
  }
  c.nontrivial(stepped);
}

TYPED_LAW(functions,
          "the models, objectives and constraints of the mobile base and of one axis with random "
          "parameters, one of them possibly changed in between; reads at two points, in random "
          "order and repeatedly, as above; non-trivial: always", 6000, 250000)
{
  typedef Scalar S;
  const int N = c.integer(1, 5);
  const S T = static_cast<S>(c.logReal(0.05, 0.5));
  LIPModel<S> lip(N, T, true);
  BaseModel<S> base(N, T, true);
  NoDynamicModel<S> axis(N, T, true);
  auto polygon = [&]
  {
    VV2<S> p;
    for (int i = c.integer(3, 6); i > 0; --i)
    {
      V2<S> v;
      v << static_cast<S>(c.below(5) * 0.1L), static_cast<S>(c.below(5) * 0.1L);
      p.push_back(v);
    }
    const ConvexPolygon<S> h(p);
    return h.getNbVertices() >= 3 ? h : ConvexPolygon<S>(VV2<S>{V2<S>(0, 0), V2<S>(1, 0), V2<S>(0, 1)});
  };
  base.setCopSupportConvexPolygon(polygon());
  base.setComSupportConvexPolygon(polygon());
  base.setComHeight(static_cast<S>(c.real(0, 1)));
  BaseVelocityTrackingObjective<S> vel(base);
  BasePositionTrackingObjective<S> pos(base);
  JerkMinimizationObjective<S> jerk(lip, base);
  ComCenteringObjective<S> com(lip, base);
  CopCenteringObjective<S> cop(lip, base);
  CopConstraint<S> inCop(lip, base);
  ComConstraint<S> inCom(lip, base);
  BaseMotionConstraint<S> motion(base);
  TiltMinimizationObjective<S> tilt(lip, base);
  TiltVelMinimizationObjective<S> tiltVel(lip, base);
  TiltMotionConstraint<S> inTilt(lip, base);
  VelocityTrackingObjective<S> avel(axis);
  PositionTrackingObjective<S> apos(axis);
  TrajectoryJerkMinimizationObjective<S> ajerk(axis);
  MotionConstraint<S> amotion(axis);
  vel.setVelRefInWorldFrame(genVec<S>(c, 2 * N, -1, 1));
  pos.setPosRefInWorldFrame(genVec<S>(c, 2 * N, -1, 1));
  com.setComRefInLocalFrame(genVec<S>(c, 2 * N, -1, 1));
  cop.setCopRefInLocalFrame(genVec<S>(c, 2 * N, -1, 1));
  avel.setVelRefInWorldFrame(genVec<S>(c, N, -1, 1));
  apos.setPosRefInWorldFrame(genVec<S>(c, N, -1, 1));
  const int rounds = c.integer(1, 3);
  for (int round = 0; round < rounds; ++round)
  {
    lip.setStateX(genState<S>(c));
    lip.setStateY(genState<S>(c));
    base.setStateX(genState<S>(c));
    base.setStateY(genState<S>(c));
    base.setStateYaw(genState<S>(c));
    axis.setState(genState<S>(c));
    Readers<S> of;
    addModel(of, "body", lip);
    of.ref("base position", [&]() -> decltype(auto) { return base.getBasePosLinearDynamic(); });
    of.ref("base velocity", [&]() -> decltype(auto) { return base.getBaseVelLinearDynamic(); });
    of.ref("base cop x", [&]() -> decltype(auto) { return base.getCopXLinearDynamic(); });
    of.ref("base cop y", [&]() -> decltype(auto) { return base.getCopYLinearDynamic(); });
    of.ref("axis position", [&]() -> decltype(auto) { return axis.getPosLinearDynamic(); });
    of.ref("support of the cop", [&]() -> decltype(auto) { return base.getCopSupportConvexPolygon(); });
    of.ref("support of the com", [&]() -> decltype(auto) { return base.getComSupportConvexPolygon(); });
    of.onePoint = c.flip();
    for (int k = 0; k < (of.onePoint ? 1 : 2); ++k)
    {
      const VX<S> x4 = genVec<S>(c, 4 * N, -1, 1), x2 = genVec<S>(c, 2 * N, -1, 1),
                  x1 = genVec<S>(c, N, -1, 1);
      const std::string at = " at point " + std::to_string(k);
      of.eval("velocity tracking" + at, [&, x2]() -> decltype(auto) { return vel.getGradient(x2); });
      of.eval("position tracking" + at, [&, x2]() -> decltype(auto) { return pos.getGradient(x2); });
      of.eval("jerk" + at, [&, x4]() -> decltype(auto) { return jerk.getGradient(x4); });
      of.eval("com centring" + at, [&, x4]() -> decltype(auto) { return com.getGradient(x4); });
      of.eval("cop centring" + at, [&, x4]() -> decltype(auto) { return cop.getGradient(x4); });
      of.eval("cop rows" + at, [&, x4]() -> decltype(auto) { return inCop.getFunction(x4); });
      of.eval("com rows" + at, [&, x4]() -> decltype(auto) { return inCom.getFunction(x4); });
      of.eval("motion, lower" + at, [&, x2]() -> decltype(auto) { return motion.getFunctionInf(x2); });
      of.eval("motion, upper" + at, [&, x2]() -> decltype(auto) { return motion.getFunctionSup(x2); });
      of.eval("tilt" + at, [&, x4]() -> decltype(auto) { return tilt.getGradient(x4); });
      of.eval("tilt velocity" + at, [&, x4]() -> decltype(auto) { return tiltVel.getGradient(x4); });
      of.eval("tilt rows" + at, [&, x4]() -> decltype(auto) { return inTilt.getFunction(x4); });
      of.eval("axis velocity tracking" + at, [&, x1]() -> decltype(auto) { return avel.getGradient(x1); });
      of.eval("axis position tracking" + at, [&, x1]() -> decltype(auto) { return apos.getGradient(x1); });
      of.eval("axis jerk" + at, [&, x1]() -> decltype(auto) { return ajerk.getGradient(x1); });
      of.eval("axis motion, lower" + at, [&, x1]() -> decltype(auto) { return amotion.getFunctionInf(x1); });
      of.eval("axis motion, upper" + at, [&, x1]() -> decltype(auto) { return amotion.getFunctionSup(x1); });
    }
    of.ref("velocity tracking, hessian", [&]() -> decltype(auto) { return vel.getHessian(); });
    of.ref("position tracking, hessian", [&]() -> decltype(auto) { return pos.getHessian(); });
    of.ref("jerk, hessian", [&]() -> decltype(auto) { return jerk.getHessian(); });
    of.ref("com centring, hessian", [&]() -> decltype(auto) { return com.getHessian(); });
    of.ref("cop centring, hessian", [&]() -> decltype(auto) { return cop.getHessian(); });
    of.ref("cop rows, gradient", [&]() -> decltype(auto) { return inCop.getGradient(); });
    of.ref("com rows, gradient", [&]() -> decltype(auto) { return inCom.getGradient(); });
    of.ref("motion, gradient", [&]() -> decltype(auto) { return motion.getGradient(); });
    of.ref("tilt, hessian", [&]() -> decltype(auto) { return tilt.getHessian(); });
    of.ref("tilt velocity, hessian", [&]() -> decltype(auto) { return tiltVel.getHessian(); });
    of.ref("tilt rows, gradient", [&]() -> decltype(auto) { return inTilt.getGradient(); });
    of.ref("axis motion, gradient", [&]() -> decltype(auto) { return amotion.getGradient(); });
    of.val("number of cop rows", [&] { return inCop.getNbConstraints(); });
    of.val("number of com rows", [&] { return inCom.getNbConstraints(); });
    of.check(c, 60);
  }
  c.nontrivial();
}

LAW(history_with_reads,
    "a run of a generator or of its parts is made, then made again with reads between its steps; "
    "every output is the same to the bit; non-trivial: three steps", 8000, 400000)
{
  const int kind = c.below(8);
  c.label(kNames[kind]);
  const Run a = alone(c, kind, c.integer(1, 15));
  Again b(a);
  int reads = 0;
  while (!b.done())
  {
    b.step();
    for (int i = c.below(8); i > 0; --i) { b.read(c); ++reads; }
  }
  c.note(kNames[kind], " ", a.steps, " steps, ", reads, " reads");
  same(c, a, b.out(), "with reads between the steps");
  c.nontrivial(a.steps >= 3 && reads);
}
