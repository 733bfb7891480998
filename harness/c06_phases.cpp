// C06: the previewed walking phases follow the step timing exactly.
#include "humanoid_common.h"

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> void checkPreview(Ctx& c, const Walk<S>& w)
  {
    const PhaseSim& r = w.sim;
    const HumanoidFeetSupervisor<S>& s = *w.sup;
    const int N = r.N, M = r.M;
    c.check(s.isInDS() == (r.type == PhaseSim::DS),
            r.type == PhaseSim::DS ? "not in double support" : "in double support, not in a step");
    c.check(s.getNbPreviewedSteps() == M, "previews " + std::to_string(s.getNbPreviewedSteps()) +
            " steps, expected " + std::to_string(M));
    c.check(s.getNbOfCallsBeforeNextSample() == r.toNextSample / w.f,
            "number of calls before the next sample: " +
            std::to_string(s.getNbOfCallsBeforeNextSample()) + ", expected " +
            std::to_string(r.toNextSample / w.f));
    c.check(s.getNbSamples() == N, "the number of samples changed");
    c.near(s.getStepPeriod(), w.time(r.step), 1e-5, "step period");
    // selection
    const SelectionMatrices<S>& sel = s.getSelectionMatrices();
    c.check(sel.V.rows() == N && sel.V.cols() == M && sel.V0.rows() == N && sel.V0.cols() == 1,
            "a selection matrix has the wrong size");
    c.check(sel.VT == sel.V.transpose(), "VT is not the transpose of V");
    for (int i = 0; i < N; ++i)
    {
      const std::string at = "sample " + std::to_string(i) + ": ";
      c.check(sel.V0(i) == (r.column[i] < 0 ? 1 : 0),
              at + (r.column[i] < 0 ? "is not on the current support"
                                    : "is on the current support"));
      for (int j = 0; j < M; ++j)
        c.check(sel.V(i, j) == (r.column[i] == j ? 1 : 0),
                at + "selection of step " + std::to_string(j) + " is " +
                std::to_string(sel.V(i, j)));
      c.check(sel.V0(i) + (M ? sel.V.row(i).sum() : 0) == 1, at + "is not on exactly one support");
    }
    const LinearDynamic<S>& d = s.getFeetPosLinearDynamic();
    c.check(toMat(d.U) == toMat(sel.V) && toMat(d.UT) == toMat(sel.VT) &&
            toMat(d.S) == toMat(sel.V0), "the feet dynamic is not the selection");
    c.check(d.K.isZero(0), "the feet dynamic has a constant part");
    // weights
    const MX<S>& W = s.getSampleWeightMatrix();
    c.check(W.rows() == N && W.cols() == N, "the weights have the wrong size");
    const R first = R(r.toNextSample) / r.k;
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j)
      {
        const R want = i != j ? 0 : i == N - 1 ? 1.05L - first : i == 0 ? first : 1;
        c.near(W(i, j), want, 2e-5L, "weight of sample " + std::to_string(i));
      }
    // phases behind the support polygons
    for (int i = 0; i < N; ++i)
    {
      const ConvexPolygon<S>& p = s.getCopConvexPolygon(i);
      const bool l = sameVertices(p, w.pCopL), q = sameVertices(p, w.pCopR);
      c.check(l == (r.phaseOf[i] == PhaseSim::Left) && q == (r.phaseOf[i] == PhaseSim::Right),
              "sample " + std::to_string(i) + " has the support polygon of another phase");
    }
    for (int j = 0; j < M; ++j)
      c.check(sameVertices(s.getKinematicConvexPolygon(j),
                           r.stanceOf[j] == PhaseSim::Left ? w.pKinL : w.pKinR),
              "step " + std::to_string(j) + " has the reach polygon of the wrong foot");
    // the support foot
    R x = s.getLeftFootStateX()(0), y = s.getLeftFootStateY()(0);
    if (r.type == PhaseSim::Right) { x = s.getRightFootStateX()(0); y = s.getRightFootStateY()(0); }
    else if (r.type == PhaseSim::DS && !r.move)
    { x = (x + s.getRightFootStateX()(0)) / 2; y = (y + s.getRightFootStateY()(0)) / 2; }
    c.near(s.getSupportFootStateX()(0), x, 10 * eps<S>() * (1 + std::abs(x)), "support foot x");
    c.near(s.getSupportFootStateY()(0), y, 10 * eps<S>() * (1 + std::abs(y)), "support foot y");
    const MX<S>& rot = s.getRotationMatrix();
    c.check(rot.isIdentity(0) && rot.rows() == 2 * N && s.getRotationMatrixT() == rot.transpose(),
            "the feet do not turn, but the rotation is not the identity");
  }

  /// the planned steps survive the move of the window, new ones are within reach
  template <typename S> void checkVariable(Ctx& c, const Walk<S>& w, const VX<S>& before, int oldM)
  {
    const int N = w.sim.N, M = w.sim.M;
    const VX<S>& v = w.variable;
    c.check(v.size() == 2 * N + 2 * M, "the variable has " + std::to_string(v.size()) +
            " rows for " + std::to_string(N) + " samples and " + std::to_string(M) + " steps");
    c.check(v.head(2 * N) == before.head(2 * N), "the CoP part of the variable changed");
    const int shift = w.sim.stepEnded ? 1 : 0;
    for (int j = 0; j < M; ++j)
    {
      R x, y;
      const bool kept = j + shift < oldM;
      if (kept) { x = before(2 * N + j + shift); y = before(2 * N + oldM + j + shift); }
      else
      {
        x = j ? v(2 * N + j - 1) : w.sup->getSupportFootStateX()(0);
        y = j ? v(2 * N + M + j - 1) : w.sup->getSupportFootStateY()(0);
        const VV2<S>& p = w.sim.stanceOf[j] == PhaseSim::Left ? w.kinL : w.kinR;
        R ax = p[0](0), bx = ax, ay = p[0](1), by = ay;
        for (const V2<S>& q : p)
        {
          ax = std::min<R>(ax, q(0)); bx = std::max<R>(bx, q(0));
          ay = std::min<R>(ay, q(1)); by = std::max<R>(by, q(1));
        }
        // only that it is within the reach is promised
        const P2 at = {v(2 * N + j) - x, v(2 * N + M + j) - y};
        const R out = outside(hull(points<S>(p)), at);
        c.check(out <= 1e-4L, "the first guess of new step " + std::to_string(j) + " at " +
                str(at.x) + ", " + str(at.y) + " from the step before is out of reach by " +
                str(out));
        c.label("new step");
        continue;
      }
      c.check(v(2 * N + j) == static_cast<S>(x) && v(2 * N + M + j) == static_cast<S>(y),
              "planned step " + std::to_string(j) + " moved from " + str(x) + ", " + str(y) +
              " to " + str(v(2 * N + j)) + ", " + str(v(2 * N + M + j)));
      c.label("kept step");
    }
  }
}

TYPED_LAW(walking_history,
          "a random history of walk, stop, step period and double support commands over up to 150 "
          "cycles with random timings, horizon and (changing) feedback period; after every cycle "
          "the phase, previewed steps, selection, weights, support and reach polygons, support "
          "foot and planned steps against a simulation in whole ticks; non-trivial: at least two "
          "steps made", 12000, 250000)
{
  Walk<Scalar> w(c);
  if (c.chance(2, 3)) w.setMove(true);
  const int cycles = c.integer(3, 150);
  int steps = 0, oldM = 0;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    const VX<Scalar> before = w.variable;
    w.beginCycle();
    if (w.sim.stepEnded) ++steps;
    c.note("cycle ", i, ": ", w.sim.type == 0 ? "DS" : w.sim.type == 1 ? "left" : "right",
           " remaining=", w.sim.remaining, " f=", w.f, " M=", w.sim.M,
           w.sim.move ? " walking" : " stopping");
    checkPreview(c, w);
    checkVariable(c, w, before, oldM);
    w.plan(c);
    oldM = w.sim.M;
    w.endCycle();
  }
  c.nontrivial(steps >= 2);
  c.label(steps >= 2, "two steps");
  c.label(w.k > 1, "several cycles per sample");
}

TYPED_LAW(long_run,
          "thousands of cycles, most of them without a command (standing or walking for minutes), "
          "with the timings given at the start and changed rarely; judged as above at random "
          "cycles and at the last ones; non-trivial: a hundred steps made, or a thousand cycles "
          "standing before a step", 200, 6000)
{
  Walk<Scalar> w(c, 6);
  w.setMove(c.flip());
  const int cycles = c.integer(1500, 20000);
  int steps = 0, standing = 0, longest = 0, quiet = 0;
  for (int i = 0; i < cycles; ++i)
  {
    if (quiet-- == 0)
    {
      for (int j = 0; j < 4; ++j) w.command(c);
      quiet = c.chance(1, 4) ? c.integer(1, 40) : c.integer(200, 2000);
    }
    const bool judged = i > cycles - 50 || quiet > 1990 || i % 97 == 0 || quiet == 0;
    const VX<Scalar> before = w.variable;
    const int oldM = (static_cast<int>(before.size()) - 2 * w.sim.N) / 2;
    w.beginCycle();
    if (w.sim.stepEnded) ++steps;
    if (w.sim.type == PhaseSim::DS) ++standing;
    else standing = 0;
    longest = std::max(longest, standing);
    if (w.sim.M != w.sup->getNbPreviewedSteps() || w.sup->isInDS() != (w.sim.type == PhaseSim::DS) ||
        judged)
    {
      c.note("cycle ", i, ": ", w.sim.type == 0 ? "DS" : w.sim.type == 1 ? "left" : "right",
             " remaining=", w.sim.remaining, " f=", w.f, " M=", w.sim.M,
             w.sim.move ? " walking" : " stopping");
      checkPreview(c, w);
      checkVariable(c, w, before, oldM);
    }
    if (w.sim.M) w.plan(c);
    w.endCycle();
  }
  c.nontrivial(steps >= 100 || (longest >= 1000 && steps));
  c.label(steps >= 100, "a hundred steps");
  c.label(longest >= 1000, "a thousand cycles standing");
}
