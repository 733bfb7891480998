// A walking generator beside its reference: the phases and feet of Walk, the pendulum
// integrated exactly, and the plan from an independently stated quadratic program.
#pragma once
#include "humanoid_common.h"

namespace mpcv
{
  using MPCWalkgen::HumanoidWalkgen;
  using MPCWalkgen::HumanoidWalkgenConfig;
  using MPCWalkgen::HumanoidWalkgenWeighting;

  struct WalkGoals
  {
    R velocity, jerk, centring;   // weights
    bool cop, feet;               // constraints
    Vec ref;                      // velocity references, x then y
  };

  /// minimise over the jerks and steps, with optional fixed values for some of the variables
  struct WalkPlan
  {
    qp::Solution s;
    R jx, jy;          // first jerks
    Vec steps;         // x then y
    R scale;           // size of the terms of the objective
    R copMargin;       // unused constraints
  };

  template <typename S>
  qp::Problem walkProblem(const Walk<S>& w, const Kin& cx, const Kin& cy, R height,
                          const WalkGoals& goal, R relax, R* constant = nullptr)
  {
    const PhaseSim& r = w.sim;
    const int N = r.N, M = r.M, n = 2 * N + 2 * M;
    const R S0 = static_cast<R>(w.T) * r.toNextSample / w.k;
    const CopParams cp = {height, 0, 9.81L, 1};
    const RefDynamic dv = refDynamic(Vel, N, S0, w.T), dc = refDynamic(Cop, N, S0, w.T, &cp);
    Vec W = Vec::Ones(N);
    W(0) = R(r.toNextSample) / w.k;
    W(N - 1) = 1.05L - R(r.toNextSample) / w.k;
    qp::Problem q;
    q.Q = Mat::Zero(n, n);
    q.p = Vec::Zero(n);
    q.xl = Vec::Constant(n, -1e30L);
    q.xu = Vec::Constant(n, 1e30L);
    R k = 0;
    const Vec sx(Vec::Map(&cx.p, 1));
    Vec st[2] = {Vec(3), Vec(3)};
    st[0] << cx.p, cx.v, cx.a;
    st[1] << cy.p, cy.v, cy.a;
    const R foot[2] = {w.sup->getSupportFootStateX()(0), w.sup->getSupportFootStateY()(0)};
    Mat F[2];
    Vec f[2];
    for (int o = 0; o < 2; ++o)
    {
      // velocity error = E z + e, jerk = J z, CoP relative to its foot = F z + f
      Mat E = Mat::Zero(N, n), J = Mat::Zero(N, n);
      E.block(0, o * N, N, N) = dv.U;
      Vec e = dv.S * st[o] - goal.ref.segment(o * N, N);
      J.block(0, o * N, N, N) = Mat::Identity(N, N);
      F[o] = Mat::Zero(N, n);
      F[o].block(0, o * N, N, N) = dc.U;
      f[o] = dc.S * st[o] + dc.K;
      for (int i = 0; i < N; ++i)
      {
        if (r.column[i] < 0) f[o](i) -= foot[o];
        else F[o](i, 2 * N + o * M + r.column[i]) -= 1;
      }
      q.Q += goal.velocity * E.transpose() * W.asDiagonal() * E +
             goal.jerk * J.transpose() * W.asDiagonal() * J +
             goal.centring * F[o].transpose() * F[o];
      q.p += goal.velocity * E.transpose() * (W.asDiagonal() * e) +
             goal.centring * F[o].transpose() * f[o];
      k += goal.velocity * e.dot(W.asDiagonal() * e) / 2 + goal.centring * f[o].dot(f[o]) / 2;
    }
    if (constant) *constant = k;
    std::vector<Vec> rows;
    std::vector<R> rhs;
    auto edges = [&](const std::vector<P2>& h, const Vec& ax, const Vec& ay, R bx, R by)
    {
      for (size_t i = 0; i < h.size(); ++i)
      {
        const P2& a = h[i];
        const P2& b = h[(i + 1) % h.size()];
        const R l = std::hypot(b.x - a.x, b.y - a.y), nx = (b.y - a.y) / l, ny = (a.x - b.x) / l;
        rows.push_back(nx * ax + ny * ay);
        rhs.push_back(nx * (a.x - bx) + ny * (a.y - by) + relax);
      }
    };
    if (goal.cop)
      for (int i = 0; i < N; ++i)
        edges(support(w, i, w.variable), F[0].row(i), F[1].row(i), f[0](i), f[1](i));
    if (goal.feet)
      for (int j = 0; j < M; ++j)
      {
        Vec ax = Vec::Zero(n), ay = Vec::Zero(n);
        ax(2 * N + j) = 1; ay(2 * N + M + j) = 1;
        if (j) { ax(2 * N + j - 1) = -1; ay(2 * N + M + j - 1) = -1; }
        const std::vector<P2> h =
            hull(points<S>(r.stanceOf[j] == PhaseSim::Left ? w.kinL : w.kinR));
        edges(h, ax, ay, j ? 0 : -foot[0], j ? 0 : -foot[1]);
      }
    q.A = Mat::Zero(rows.size(), n);
    q.bl = Vec::Constant(rows.size(), -1e30L);
    q.bu = Vec(rows.size());
    for (size_t i = 0; i < rows.size(); ++i) { q.A.row(i) = rows[i].transpose(); q.bu(i) = rhs[i]; }
    return q;
  }

  /// The same problem with some variables fixed.
  inline qp::Solution solveFixed(const qp::Problem& q, const std::vector<int>& fixed,
                                 const Vec& value, R* objective)
  {
    const int n = static_cast<int>(q.p.size());
    std::vector<int> keep;
    std::vector<bool> is(n, false);
    Vec z = Vec::Zero(n);
    for (size_t i = 0; i < fixed.size(); ++i) { is[fixed[i]] = true; z(fixed[i]) = value(i); }
    for (int i = 0; i < n; ++i) if (!is[i]) keep.push_back(i);
    const int m = static_cast<int>(keep.size());
    qp::Problem r;
    r.Q = Mat(m, m); r.p = Vec(m); r.A = Mat(q.A.rows(), m); r.xl = Vec(m); r.xu = Vec(m);
    const Vec g = q.Q * z + q.p;
    const Vec a = q.A * z;
    for (int i = 0; i < m; ++i)
    {
      r.p(i) = g(keep[i]); r.xl(i) = q.xl(keep[i]); r.xu(i) = q.xu(keep[i]);
      for (int j = 0; j < m; ++j) r.Q(i, j) = q.Q(keep[i], keep[j]);
      for (int j = 0; j < q.A.rows(); ++j) r.A(j, i) = q.A(j, keep[i]);
    }
    // rows without free variables become conditions
    r.bl = q.bl - a; r.bu = q.bu - a;
    std::vector<int> rows;
    bool broken = false;
    for (int j = 0; j < r.A.rows(); ++j)
    {
      if (m && r.A.row(j).cwiseAbs().maxCoeff() > 1e-12L * q.A.row(j).cwiseAbs().maxCoeff())
        rows.push_back(j);
      else if (r.bl(j) > 0 || r.bu(j) < 0) broken = true;
    }
    Mat A(rows.size(), m);
    Vec bl(rows.size()), bu(rows.size());
    for (size_t j = 0; j < rows.size(); ++j)
    { A.row(j) = r.A.row(rows[j]); bl(j) = r.bl(rows[j]); bu(j) = r.bu(rows[j]); }
    r.A = A; r.bl = bl; r.bu = bu;
    qp::Solution s;
    if (broken) { s.status = qp::Infeasible; s.x = z; return s; }
    s = qp::solve(r);
    for (int i = 0; i < m; ++i) z(keep[i]) = s.x(i);
    s.x = z;
    if (objective) *objective = z.dot(q.Q * z) / 2 + q.p.dot(z);
    return s;
  }

  /// A generator configured like the reference.
  template <typename S> struct Rig
  {
    Walk<S> w;
    HumanoidWalkgen<S> gen;
    WalkGoals goal;
    bool weighted = false;   // set before

    explicit Rig(Ctx& c, int maxN = 8) : w(c, maxN)
    {
      const int N = w.sim.N;
      gen.setNbSamples(N);
      gen.setSamplingPeriod(w.T);
      gen.setStepPeriod(w.time(w.sim.step));
      gen.setInitialDoubleSupportLength(w.time(w.sim.ds));
      gen.setLeftFootCopConvexPolygon(w.pCopL);
      gen.setRightFootCopConvexPolygon(w.pCopR);
      gen.setLeftFootKinematicConvexPolygon(w.pKinL);
      gen.setRightFootKinematicConvexPolygon(w.pKinR);
      gen.setLeftFootMaxHeight(w.maxL);
      gen.setRightFootMaxHeight(w.maxR);
      setFeet();
      height(c);
      weights(c);
      config(c);
      goal.ref = Vec::Zero(2 * N);
      reference(c);
      place(c);
      w.gen = &gen;
    }
    void setFeet()
    {
      gen.setLeftFootStateX(w.sup->getLeftFootStateX());
      gen.setLeftFootStateY(w.sup->getLeftFootStateY());
      gen.setLeftFootStateZ(w.sup->getLeftFootStateZ());
      gen.setRightFootStateX(w.sup->getRightFootStateX());
      gen.setRightFootStateY(w.sup->getRightFootStateY());
      gen.setRightFootStateZ(w.sup->getRightFootStateZ());
    }
    void height(Ctx& c)
    {
      VX<S> z = VX<S>::Zero(3);
      z(0) = static_cast<S>(c.real(0.4, 1.0));
      gen.setComStateZ(z);
    }
    /// put the standing feet elsewhere
    void moveFeet(Ctx& c)
    {
      VX<S> s = VX<S>::Zero(3);
      const R x = w.sup->getLeftFootStateX()(0), y = w.sup->getLeftFootStateY()(0);
      s(0) = static_cast<S>(x + c.real(-0.1, 0.1)); w.sup->setRightFootStateX(s);
      s(0) = static_cast<S>(y - c.real(0.12, 0.24)); w.sup->setRightFootStateY(s);
      setFeet();
      c.note("feet moved");
    }
    /// give one foot another sole or another reach
    void polygons(Ctx& c)
    {
      switch (c.below(4))
      {
        case 0:
          w.copL = genPolygon<S>(c, c.real(-0.02, 0.04), c.real(0, 0.01), 0.08L, 0.04L);
          w.pCopL = ConvexPolygon<S>(w.copL);
          w.sup->setLeftFootCopConvexPolygon(w.pCopL); gen.setLeftFootCopConvexPolygon(w.pCopL);
          break;
        case 1:
          w.copR = genPolygon<S>(c, c.real(-0.02, 0.04), c.real(-0.01, 0), 0.07L, 0.03L);
          w.pCopR = ConvexPolygon<S>(w.copR);
          w.sup->setRightFootCopConvexPolygon(w.pCopR); gen.setRightFootCopConvexPolygon(w.pCopR);
          break;
        case 2:
          w.kinL = genPolygon<S>(c, c.real(0, 0.1), -0.25L, 0.25L, 0.07L);
          w.pKinL = ConvexPolygon<S>(w.kinL);
          w.sup->setLeftFootKinematicConvexPolygon(w.pKinL);
          gen.setLeftFootKinematicConvexPolygon(w.pKinL);
          break;
        default:
          w.kinR = genPolygon<S>(c, c.real(0, 0.1), 0.25L, 0.25L, 0.07L);
          w.pKinR = ConvexPolygon<S>(w.kinR);
          w.sup->setRightFootKinematicConvexPolygon(w.pKinR);
          gen.setRightFootKinematicConvexPolygon(w.pKinR);
      }
      c.note("polygon changed");
    }
    void weights(Ctx& c)
    {
      HumanoidWalkgenWeighting<S> x;
      x.velocityTracking = static_cast<S>(c.chance(1, 8) ? 0 : c.chance(1, 8) ?
                                          c.logReal(1e-6, 0.01) : c.logReal(0.01, 10));
      x.copCentering = static_cast<S>(c.logReal(0.1, 10));
      x.jerkMinimization = static_cast<S>(x.velocityTracking > 0 && c.chance(1, 8) ? 0
                                                                                 : c.logReal(1e-5, 1e-2));
      if (weighted && c.flip())
      {
        // a change of a single weight
        typedef S HumanoidWalkgenWeighting<S>::*Field;
        typedef HumanoidWalkgenWeighting<S> G;
        const Field f = c.pick<Field>({&G::velocityTracking, &G::copCentering,
                                       &G::jerkMinimization});
        G one;
        one.velocityTracking = static_cast<S>(goal.velocity);
        one.copCentering = static_cast<S>(goal.centring);
        one.jerkMinimization = static_cast<S>(goal.jerk);
        one.*f = x.*f;
        if (one.velocityTracking > 0 || one.jerkMinimization > 0) x = one;
      }
      weighted = true;
      gen.setWeightings(x);
      goal.velocity = x.velocityTracking;
      goal.centring = x.copCentering;
      goal.jerk = x.jerkMinimization;
      c.note("weights: velocity ", x.velocityTracking, " centring ", x.copCentering, " jerk ",
             x.jerkMinimization);
    }
    void config(Ctx& c)
    {
      HumanoidWalkgenConfig<S> x;
      x.withCopConstraints = !c.chance(1, 4);
      x.withFeetConstraints = !c.chance(1, 4);
      gen.setConfig(x);
      goal.cop = x.withCopConstraints;
      goal.feet = x.withFeetConstraints;
      c.note("constraints: cop ", goal.cop, " feet ", goal.feet);
    }
    void reference(Ctx& c)
    {
      const int N = w.sim.N;
      VX<S> v(2 * N);
      if (c.chance(2, 3))
      {
        v.head(N).setConstant(static_cast<S>(c.real(-0.4, 0.4)));
        v.tail(N).setConstant(static_cast<S>(c.real(-0.2, 0.2)));
      }
      else v = genVec<S>(c, 2 * N, -0.5, 0.5);
      gen.setVelRefInWorldFrame(v);
      goal.ref = toVec(v);
    }
    void place(Ctx& c)
    {
      const R x = (w.sup->getLeftFootStateX()(0) + w.sup->getRightFootStateX()(0)) / 2;
      const R y = (w.sup->getLeftFootStateY()(0) + w.sup->getRightFootStateY()(0)) / 2;
      VX<S> s(3);
      s << static_cast<S>(x + c.real(-0.05, 0.05)), static_cast<S>(c.real(-0.2, 0.2)),
           static_cast<S>(c.real(-0.5, 0.5));
      gen.setComStateX(s);
      s << static_cast<S>(y + c.real(-0.05, 0.05)), static_cast<S>(c.real(-0.2, 0.2)),
           static_cast<S>(c.real(-0.5, 0.5));
      gen.setComStateY(s);
    }
  };
}
