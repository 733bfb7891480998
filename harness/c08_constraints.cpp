// C08: walking constraints hold exactly on the support and reach regions.
#include "humanoid_common.h"
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  const R kMargin = 1e-3L;

  R insideDepth(const std::vector<P2>& h, const P2& q) { return -outside(h, q); }
  P2 centre(const std::vector<P2>& h)
  {
    P2 m = {0, 0};
    for (const P2& p : h) { m.x += p.x / h.size(); m.y += p.y / h.size(); }
    return m;
  }
  /// A point of the polygon, at least the margin away from its border, often close to it.
  P2 genInside(Ctx& c, const std::vector<P2>& h)
  {
    const P2 m = centre(h);
    const int i = c.below(static_cast<int>(h.size()));
    const R t = c.real(0, 1), depth = c.flip() ? c.real(0, 1) : 0;
    const P2& a = h[i];
    const P2& b = h[(i + 1) % h.size()];
    P2 q = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
    q.x += depth * (m.x - q.x); q.y += depth * (m.y - q.y);
    for (int k = 0; k < 200 && insideDepth(h, q) < kMargin; ++k)
    { q.x += (m.x - q.x) / 20; q.y += (m.y - q.y) / 20; }
    return q;
  }
  /// A point beyond one edge by at least the margin.
  P2 genOutside(Ctx& c, const std::vector<P2>& h)
  {
    const int i = c.below(static_cast<int>(h.size()));
    const P2& a = h[i];
    const P2& b = h[(i + 1) % h.size()];
    const R t = c.real(0, 1), l = std::hypot(b.x - a.x, b.y - a.y);
    const R d = c.flip() ? kMargin * 1.5L : kMargin + c.real(0.001, 0.3);
    return P2{a.x + t * (b.x - a.x) + d * (b.y - a.y) / l, a.y + t * (b.y - a.y) - d * (b.x - a.x) / l};
  }

  /// Largest violation of the rows and bounds at x0 + dX, in units of length.
  template <typename S> R worstRow(const MX<S>& A, const VX<S>& f, const VX<S>& lo,
                                   const VX<S>& hi, const Vec& d, int first)
  {
    R worst = -1e30L;
    for (int i = 0; i < A.rows(); ++i)
    {
      R n = 0, v = f(i);
      for (int j = 0; j < A.cols(); ++j)
      {
        v += A(i, j) * d(j);
        n = std::max<R>(n, std::abs(static_cast<R>(A(i, j))));
      }
      worst = std::max(worst, v / n);
    }
    for (int i = 0; i < lo.size(); ++i)
    {
      if (lo(i) > -1e9) worst = std::max<R>(worst, lo(i) - d(first + i));
      if (hi(i) < 1e9) worst = std::max<R>(worst, d(first + i) - hi(i));
    }
    return worst;
  }
}

TYPED_LAW(cop_in_support,
          "random walking histories; at several cycles a CoP trajectory with every sample inside "
          "its support polygon (often close to the border), or exactly one sample outside; the "
          "rows and bounds hold exactly in the first case; non-trivial: a step and both verdicts "
          "were met", 15000, 250000)
{
  Walk<Scalar> w(c);
  const int N = w.sim.N;
  LIPModel<Scalar> lip(N, w.T, true);
  HumanoidCopConstraint<Scalar> ctr(lip, *w.sup);
  if (c.chance(3, 4)) w.setMove(true);
  const int cycles = c.integer(1, 60);
  int ok = 0, bad = 0;
  bool walked = false;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    w.beginCycle();
    if (c.chance(1, 3))
    {
      const VX<Scalar> x0 = w.variable;
      const int n = static_cast<int>(x0.size());
      Vec d = Vec::Zero(n);
      const int out = c.flip() ? c.below(N) : -1;
      for (int s = 0; s < N; ++s)
      {
        const std::vector<P2> h = support(w, s, x0);
        const P2 q = s == out ? genOutside(c, h) : genInside(c, h);
        if (s != out && insideDepth(h, q) < kMargin) c.discard();
        d(s) = q.x - x0(s);
        d(N + s) = q.y - x0(N + s);
      }
      for (int s = 2 * N; s < n; ++s) d(s) = c.real(-0.1, 0.1);
      const VX<Scalar> f = ctr.getFunction(x0);
      const MX<Scalar> A = ctr.getGradient(n);
      const VX<Scalar> hi = ctr.getSupBounds(x0), lo = ctr.getInfBounds(x0);
      c.check(A.rows() == f.size() && ctr.getNbConstraints() == f.size() && A.cols() == n &&
              hi.size() == 2 * N && lo.size() == 2 * N, "a constraint has the wrong size");
      c.check(f.size() <= N * w.sup->getMaximumNbOfCopConstraints(),
              "more constraints than the stated maximum");
      const R worst = worstRow<Scalar>(A, f, lo, hi, d, 0);
      c.note("cycle ", i, " phase ", w.sim.type, " remaining ", w.sim.remaining, " outside: ", out,
             " worst ", static_cast<double>(worst));
      if (out < 0) c.check(worst <= 1e-4L, "every CoP is in its support, but a constraint is "
                                           "violated by " + str(worst));
      else c.check(worst > 1e-5L, "the CoP of sample " + std::to_string(out) +
                                  " is out of its support, but every constraint holds");
      ++(out < 0 ? ok : bad);
    }
    walked = walked || w.sim.type != PhaseSim::DS;
    w.plan(c);
    w.endCycle();
  }
  c.nontrivial(walked && ok && bad);
}

TYPED_LAW(steps_in_reach,
          "random walking histories; at several cycles a plan with every step inside the reach of "
          "the standing foot or step before (often close to the border), or exactly one outside; "
          "the rows and bounds hold exactly in the first case; non-trivial: two previewed steps "
          "and both verdicts were met", 30000, 600000)
{
  Walk<Scalar> w(c, 14);
  const int N = w.sim.N;
  LIPModel<Scalar> lip(N, w.T, true);
  HumanoidFootConstraint<Scalar> ctr(lip, *w.sup);
  w.setMove(!c.chance(1, 6));
  const int cycles = c.integer(1, 60);
  int ok = 0, bad = 0;
  bool two = false;
  for (int i = 0; i < cycles; ++i)
  {
    w.command(c);
    w.beginCycle();
    const int M = w.sim.M;
    if (c.chance(1, 3))
    {
      const VX<Scalar> x0 = w.variable;
      const int n = static_cast<int>(x0.size());
      Vec d = Vec::Zero(n);
      const int out = M && c.flip() ? c.below(M) : -1;
      R x = w.sup->getSupportFootStateX()(0), y = w.sup->getSupportFootStateY()(0);
      for (int s = 0; s < 2 * N; ++s) d(s) = c.real(-0.1, 0.1);
      for (int s = 0; s < M; ++s)
      {
        const bool left = w.sim.stanceOf[s] == PhaseSim::Left;
        const std::vector<P2> h = hull(points<Scalar>(left ? w.kinL : w.kinR));
        const P2 q = s == out ? genOutside(c, h) : genInside(c, h);
        if (s != out && insideDepth(h, q) < kMargin) c.discard();
        x += q.x; y += q.y;
        d(2 * N + s) = x - x0(2 * N + s);
        d(2 * N + M + s) = y - x0(2 * N + M + s);
      }
      const VX<Scalar> f = ctr.getFunction(x0);
      const MX<Scalar> A = ctr.getGradient(n);
      const VX<Scalar> hi = ctr.getSupBounds(x0), lo = ctr.getInfBounds(x0);
      c.check(A.rows() == f.size() && ctr.getNbConstraints() == f.size() && A.cols() == n &&
              hi.size() == 2 * M && lo.size() == 2 * M, "a constraint has the wrong size");
      c.check(f.size() <= M * w.sup->getMaximumNbOfKinematicConstraints(),
              "more constraints than the stated maximum");
      const R worst = worstRow<Scalar>(A, f, lo, hi, d, 2 * N);
      c.note("cycle ", i, " phase ", w.sim.type, " remaining ", w.sim.remaining, " steps ", M,
             " outside: ", out, " worst ", static_cast<double>(worst));
      if (out < 0) c.check(worst <= 1e-4L, "every step is in reach, but a constraint is violated by " +
                           str(worst));
      else c.check(worst > 1e-5L, "step " + std::to_string(out) +
                                  " is out of reach, but every constraint holds");
      ++(out < 0 ? ok : bad);
      two = two || M >= 2;
    }
    w.plan(c);
    w.endCycle();
  }
  c.nontrivial(two && ok && bad);
}
