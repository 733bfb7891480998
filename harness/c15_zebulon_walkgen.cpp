// C15: the mobile base's generator applies an optimal, feasible plan every cycle.
#include "zebulon_gen.h"
#include "../stubs/QProblem.hpp"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> void configure(Ctx& c, ZebRig<S>& r, int maxN)
  {
    r.samples(c, maxN);
    r.period(c);
    r.heights(c, 1);
    r.heights(c, 0);
    r.masses(c, 0);
    r.masses(c, 1);
    r.gravity(c);
    r.polygon(c, 0);
    r.polygon(c, 1);
    r.weights(c);
    r.constraints(c);
    r.references(c);
    r.heading(c);
    r.tiltState(c);
    r.contact(c);
    for (int i = 0; i < 3; ++i) r.limits(c, i);
    r.place(c);
  }
}

LAW(optimal_base,
    "a double-precision generator of the mobile base (1-7 samples), random masses, heights, "
    "polygons, weights, constraints, limits and references, several cycles with pushes, new "
    "references and new limits: at every cycle the four applied jerks against an independently "
    "stated and solved problem, and the reported outcome against its feasibility; non-trivial: "
    "two judged cycles with an active constraint", 12000, 500000)
{
  typedef double S;
  ZebRig<S> r;
  configure(c, r, c.chance(1, 6) ? 7 : 4);
  const int cycles = c.integer(1, 8);
  int judged = 0, active = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (i)
      switch (c.below(12))
      {
        case 11: r.velocityReference(c); break;
        case 10: r.positionReference(c); break;
        case 9: if (c.flip()) r.worldReferences(c); else { r.copReference(c); r.comReference(c); } break;
        case 8: r.limits(c, c.below(3)); break;
        case 7: r.tiltState(c); break;
        case 6: r.contact(c); break;
        case 5: r.place(c); break;
        case 4: if (c.flip()) r.heading(c); break;
        default: break;
      }
    const S fb = r.p.T * static_cast<S>(c.pick<double>({1, 0.1, 0.25, 0.5}));
    const typename ZebRig<S>::Outcome o = r.cycle(c, fb);
    if (o == ZebRig<S>::Failed) { r.place(c); continue; }
    if (o == ZebRig<S>::Unjudged) continue;
    ++judged;
    active += r.active > 0;
    const Kin k = Kin::of(r.gen.getComStateX());
    if (std::abs(k.a) > 100) { c.label("falling"); break; }
  }
  c.label(judged >= 2, "two judged cycles");
  c.label(judged == 0, "nothing judged");
  c.nontrivial(judged >= 2 && active >= 1);
}

TYPED_LAW(failure_is_reported,
          "cycles at which the solver fails: the generator reports a failure at exactly these "
          "cycles, and goes on; non-trivial: both outcomes were met", 300, 6000)
{
  ZebRig<Scalar> r;
  configure(c, r, 3);
  const int cycles = c.integer(1, 10);
  int good = 0, bad = 0;
  for (int i = 0; i < cycles; ++i)
  {
    const bool fail = c.chance(1, 3);
    SolverLog& log = solverLog();
    log = SolverLog();
    log.forceFailures = fail;
    const bool ok = r.gen.solve(r.p.T / 4);
    log.forceFailures = 0;
    c.check(log.inits + log.hotstarts == 1, "the problem was not given to the solver once");
    const bool failed = log.failures > 0;
    c.note("cycle ", i, " the solver ", failed ? "fails" : "succeeds", ", solve() returns ", ok);
    c.check(ok != failed, failed ? "the solver failed, but solve() reports success"
                                 : "the solver succeeded, but solve() reports a failure");
    ++(failed ? bad : good);
    if (!ok) r.place(c);
  }
  c.nontrivial(good && bad);
}
