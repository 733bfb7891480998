// C10: the walking generator applies an optimal, feasible plan every cycle.
#include "humanoid_gen.h"
#include "../stubs/QProblem.hpp"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  const R kPolygon = 2e-4L;
}

LAW(optimal_walk,
    "walking histories of a double-precision generator with random timings, polygons, weights, "
    "constraints, references, commands and pushes; at every cycle the applied jerk, the body and "
    "both feet against an independently stated and solved problem; non-trivial: a step was made "
    "and a constraint was active", 5000, 150000)
{
  typedef double S;
  Rig<S> g(c);
  Walk<S>& w = g.w;
  const int N = w.sim.N;
  if (c.chance(3, 4)) w.setMove(true);
  const int cycles = c.integer(1, 40);
  bool stepped = false, active = false;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    switch (c.below(16))
    {
      case 15: g.weights(c); break;
      case 14: g.reference(c); break;
      case 13: if (c.chance(1, 3)) g.config(c); break;
      case 12: if (c.chance(1, 3)) g.place(c); break;
      case 11: if (c.chance(1, 2)) g.height(c); break;
      case 10: if (w.sim.type == PhaseSim::DS && c.chance(1, 2)) g.moveFeet(c); break;
      case 9: if (c.chance(1, 3)) g.polygons(c); break;
      default: break;
    }
    const Kin cx = Kin::of(g.gen.getComStateX()), cy = Kin::of(g.gen.getComStateY());
    const R h = g.gen.getComStateZ()(0);
    w.beginCycle();
    const int M = w.sim.M;
    R scale = 0;
    const qp::Problem q = walkProblem(w, cx, cy, h, g.goal, 0, &scale);
    const qp::Solution best = qp::solve(q);
    if (best.status != qp::Optimal) { c.label("reference not solved"); c.discard(); }
    const bool ok = g.gen.solve(w.feedback());
    const Kin nx = Kin::of(g.gen.getComStateX()), ny = Kin::of(g.gen.getComStateY());
    const R fb = w.feedback();
    const R jx = (nx.a - cx.a) / fb, jy = (ny.a - cy.a) / fb;
    c.note("cycle ", i, " phase ", w.sim.type, " remaining ", w.sim.remaining, " steps ", M,
           " active ", best.nbActive, " jerk ", (double)jx, " ", (double)jy, " expected ",
           (double)best.x(0), " ", (double)best.x(N));
    c.check(ok, "a feasible problem is reported as not solved");
    const Kin ex = cx.after(jx, fb), ey = cy.after(jy, fb);
    c.near(nx.p, ex.p, 1e-11 * (1 + std::abs(ex.p)), "body x");
    c.near(nx.v, ex.v, 1e-11 * (1 + std::abs(ex.a) + std::abs(ex.v)), "body x velocity");
    c.near(ny.p, ey.p, 1e-11 * (1 + std::abs(ey.p)), "body y");
    c.near(ny.v, ey.v, 1e-11 * (1 + std::abs(ey.a) + std::abs(ey.v)), "body y velocity");
    // the landing place that explains the motion of the swing foot
    const bool left = w.sim.type == PhaseSim::Right;
    bool flying = false;
    P2 landing = {0, 0};
    {
      HumanoidFeetSupervisor<S> zero(*w.sup), one(*w.sup);
      zero.updateFeetStates(VX<S>::Zero(2 * M), fb);
      one.updateFeetStates(VX<S>::Ones(2 * M), fb);
      auto target = [&](const VX<S>& z, const VX<S>& u, const VX<S>& got, R& at, const char* what)
      {
        int k = 0;
        const VX<S> slope = u - z;
        slope.cwiseAbs().maxCoeff(&k);
        if (slope(k) != 0) { flying = true; at = (R(got(k)) - z(k)) / slope(k); }
        // rounding of a position becomes one of a velocity and an acceleration
        const R rate[3] = {1, 10 / fb, 60 / (fb * fb)};
        for (int i = 0; i < 3; ++i)
          c.near(got(i), z(i) + at * slope(i), 1e-9 * (1 + std::abs(z(i)) + std::abs(slope(i))) +
                 1e-14L * rate[i] * (1 + std::abs(at)), what);
      };
      R none = 0;
      target(zero.getLeftFootStateX(), one.getLeftFootStateX(), g.gen.getLeftFootStateX(),
             left ? landing.x : none, "left foot x");
      target(zero.getLeftFootStateY(), one.getLeftFootStateY(), g.gen.getLeftFootStateY(),
             left ? landing.y : none, "left foot y");
      target(zero.getRightFootStateX(), one.getRightFootStateX(), g.gen.getRightFootStateX(),
             left ? none : landing.x, "right foot x");
      target(zero.getRightFootStateY(), one.getRightFootStateY(), g.gen.getRightFootStateY(),
             left ? none : landing.y, "right foot y");
      target(zero.getLeftFootStateZ(), one.getLeftFootStateZ(), g.gen.getLeftFootStateZ(), none,
             "left foot z");
      target(zero.getRightFootStateZ(), one.getRightFootStateZ(), g.gen.getRightFootStateZ(), none,
             "right foot z");
    }
    const R s = 1 + best.x.head(2 * N).cwiseAbs().maxCoeff();
    R d = std::max(std::abs(jx - best.x(0)), std::abs(jy - best.x(N))) / s;
    if (flying)
    {
      c.label("foot judged");
      d = std::max(d, std::abs(landing.x - best.x(2 * N)));
      d = std::max(d, std::abs(landing.y - best.x(2 * N + M)));
    }
    if (d > 1e-5L)
    {
      // Not the very plan of the reference: is it as good?  The polygons are known to 0.2 mm.
      R got = 0;
      std::vector<int> fixed = {0, N};
      Vec j(flying ? 4 : 2);
      j.head(2) << jx, jy;
      if (flying)
      {
        fixed.push_back(2 * N); fixed.push_back(2 * N + M);
        j.tail(2) << landing.x, landing.y;
      }
      const qp::Solution tight = qp::solve(walkProblem(w, cx, cy, h, g.goal, -kPolygon));
      const qp::Solution with =
          solveFixed(walkProblem(w, cx, cy, h, g.goal, kPolygon), fixed, j, &got);
      c.label("judged by its cost");
      if (tight.status != qp::Optimal) { c.label("no tightened plan"); break; }
      c.check(with.status != qp::Infeasible, "what was applied leaves no feasible plan");
      const R worst = tight.x.dot(q.Q * tight.x) / 2 + q.p.dot(tight.x);
      c.note("landing ", (double)landing.x, " ", (double)landing.y);
      c.note("cost ", (double)got, ", tightened ", (double)worst, ", best ", (double)best.objective);
      c.check(got <= worst + 1e-7L * scale, "what was applied is not optimal: its best cost is " +
              str(got) + ", but " + str(worst) + " can be reached");
      break;
    }
    w.variable.tail(2 * M) = best.x.tail(2 * M).cast<S>();
    w.endCycle();
    // the reference goes on from what was reached
    w.sup->setLeftFootStateX(g.gen.getLeftFootStateX());
    w.sup->setLeftFootStateY(g.gen.getLeftFootStateY());
    w.sup->setRightFootStateX(g.gen.getRightFootStateX());
    w.sup->setRightFootStateY(g.gen.getRightFootStateY());
    w.sup->setLeftFootStateZ(g.gen.getLeftFootStateZ());
    w.sup->setRightFootStateZ(g.gen.getRightFootStateZ());
    if (std::abs(nx.v) + std::abs(ny.v) > 4 || std::abs(nx.a) + std::abs(ny.a) > 40)
    { c.label("falling"); break; }
    active = active || best.nbActive;
    stepped = stepped || w.sim.stepEnded;
  }
  c.nontrivial(stepped && active);
}

TYPED_LAW(failure_is_reported,
          "walking histories where the solver fails at random cycles: the generator reports a "
          "failure at exactly these cycles; non-trivial: both outcomes were met", 300, 6000)
{
  Rig<Scalar> g(c);
  Walk<Scalar>& w = g.w;
  if (c.flip()) w.setMove(true);
  const int cycles = c.integer(1, 12);
  int good = 0, bad = 0;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    w.beginCycle();
    const bool fail = c.chance(1, 3);
    SolverLog& log = solverLog();
    log = SolverLog();
    log.forceFailures = fail;
    const bool ok = g.gen.solve(w.feedback());
    log.forceFailures = 0;
    c.check(log.inits + log.hotstarts == 1, "the problem was not given to the solver once");
    const bool failed = log.failures > 0;
    c.note("cycle ", i, " the solver ", failed ? "fails" : "succeeds", ", solve() returns ", ok);
    c.check(ok != failed, failed ? "the solver failed, but solve() reports success"
                                 : "the solver succeeded, but solve() reports a failure");
    ++(failed ? bad : good);
    w.endCycle();
  }
  c.nontrivial(good && bad);
}
