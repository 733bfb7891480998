// C12: the mobile base's objectives have the gradient and Hessian of the costs they stand for.
#include "zebulon_common.h"
#include <memory>
#include <mpc-walkgen/function/zebulon_base_position_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_com_centering_objective.h>
#include <mpc-walkgen/function/zebulon_cop_centering_objective.h>
#include <mpc-walkgen/function/zebulon_jerk_minimization_objective.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> struct Objectives
  {
    LIPModel<S> body;
    BaseModel<S> base;
    std::unique_ptr<BaseVelocityTrackingObjective<S> > vel;
    std::unique_ptr<BasePositionTrackingObjective<S> > pos;
    std::unique_ptr<JerkMinimizationObjective<S> > jerk;
    std::unique_ptr<ComCenteringObjective<S> > com;
    std::unique_ptr<CopCenteringObjective<S> > cop;
    explicit Objectives(int N, S T) : body(N, T, true), base(N, T, true) {}
    void make()
    {
      vel.reset(new BaseVelocityTrackingObjective<S>(base));
      pos.reset(new BasePositionTrackingObjective<S>(base));
      jerk.reset(new JerkMinimizationObjective<S>(body, base));
      com.reset(new ComCenteringObjective<S>(body, base));
      cop.reset(new CopCenteringObjective<S>(body, base));
    }
    void recompute()
    {
      vel->computeConstantPart();
      pos->computeConstantPart();
      jerk->computeConstantPart();
      com->computeConstantPart();
      cop->computeConstantPart();
    }
  };
  Vec part(const Vec& v, int o, int N) { return v.segment(o * N, N); }
}

TYPED_LAW(costs,
          "a body on a base (1-8 samples, masses 0.5 g - 60 kg, any tilt of the gravity, a base with "
          "or without mass), objectives built before or after the parameters are final, random "
          "references (local or world frame), states and jerks: gradient and Hessian of the five "
          "objectives against residuals simulated step by step; non-trivial: at least 2 samples "
          "and a non-zero reference", 12000, 800000)
{
  typedef Scalar S;
  const ZebParams<S> p = genZeb<S>(c, 8);
  const bool weighted = c.chance(4, 5);
  c.note(showZeb(p), weighted ? "" : " (massless base)");
  const int N = p.N;
  // the objectives may have seen other parameters before
  const bool late = c.flip();
  std::unique_ptr<Objectives<S> > o;
  if (late)
  {
    const ZebParams<S> q = genZeb<S>(c, 8);
    c.note("before: ", showZeb(q));
    o.reset(new Objectives<S>(q.N, q.T));
    setModel(q, o->body);
    setModel(q, o->base, weighted && c.flip());
    o->make();
    if (c.flip())
    {
      o->com->setComRefInLocalFrame(genVec<S>(c, 2 * q.N, -1, 1));
      if (weighted) o->com->updateGravityShift();
      o->cop->setCopRefInLocalFrame(genVec<S>(c, 2 * q.N, -1, 1));
      o->vel->setVelRefInWorldFrame(genVec<S>(c, 2 * q.N, -1, 1));
      o->pos->setPosRefInWorldFrame(genVec<S>(c, 2 * q.N, -1, 1));
    }
    setModel(p, o->body);
    setModel(p, o->base, weighted);
    o->com->setNbSamples(N);
    o->recompute();
  }
  else
  {
    o.reset(new Objectives<S>(N, p.T));
    if (c.flip())
    {
      setModel(p, o->body);
      setModel(p, o->base, weighted);
      o->make();
    }
    else
    {
      o->make();
      setModel(p, o->body);
      setModel(p, o->base, weighted);
      o->recompute();
    }
  }
  // references
  const VX<S> velRef = genVec<S>(c, 2 * N, -3, 3), posRef = genVec<S>(c, 2 * N, -5, 5);
  const VX<S> comRef = genVec<S>(c, 2 * N, -1, 1);
  o->vel->setVelRefInWorldFrame(velRef);
  o->pos->setPosRefInWorldFrame(posRef);
  const int shiftWhen = c.below(3);   // never, before, after the reference
  if (shiftWhen == 1 && weighted) o->com->updateGravityShift();
  o->com->setComRefInLocalFrame(comRef);
  if (shiftWhen == 2 && weighted) o->com->updateGravityShift();
  const bool shifted = shiftWhen && weighted;
  const bool world = weighted && c.flip();
  Vec copRef, copRefAbs;
  const R gz = p.gravity(2);
  const R m = p.bodyMass, M = p.baseMass, h = p.bodyHeight, b = p.baseHeight;
  if (world)
  {
    const VX<S> cp = genVec<S>(c, 2 * N, -5, 5), ca = genVec<S>(c, 2 * N, -5, 5);
    const VX<S> bp = genVec<S>(c, 2 * N, -5, 5), ba = genVec<S>(c, 2 * N, -5, 5);
    o->cop->setCopRefInWorldFrame(cp, ca, bp, ba);
    copRef = Vec(2 * N);
    copRefAbs = copRef;
    for (int i = 0; i < 2 * N; ++i)
    {
      const R g = p.gravity(i < N ? 0 : 1);
      copRef(i) = (m * (cp(i) - h * (ca(i) + g) / gz) + M * (bp(i) - b * (ba(i) + g) / gz)) /
                      (m + M) - bp(i);
      copRefAbs(i) = std::abs(cp(i)) + std::abs(bp(i)) * 2 +
                     (h + b) * (std::abs(ca(i)) + std::abs(ba(i)) + 2 * std::abs(g)) / gz;
    }
    c.note("cop reference from com ", show(toVec(cp)), " acc ", show(toVec(ca)), " base ",
           show(toVec(bp)), " acc ", show(toVec(ba)));
  }
  else
  {
    const VX<S> r = genVec<S>(c, 2 * N, -1, 1);
    o->cop->setCopRefInLocalFrame(r);
    copRef = toVec(r);
    copRefAbs = copRef.cwiseAbs();
    c.note("cop reference ", show(copRef));
  }
  c.note("vel ref ", show(toVec(velRef)), " pos ref ", show(toVec(posRef)), " com ref ",
         show(toVec(comRef)), shifted ? " shifted" : "");
  c.nontrivial(N >= 2 && !(toVec(velRef).isZero(0) && toVec(comRef).isZero(0)));
  c.label(late, "objectives reused");
  c.label(shifted && (p.gravity(0) != 0 || p.gravity(1) != 0), "shift by a tilted gravity");
  c.label(world, "CoP reference in the world frame");
  c.label(!weighted, "massless base");

  // the costs, simulated
  const R T = p.T;
  std::vector<Residual> rv, rp, rc, rz, rj;
  for (int a = 0; a < 2; ++a)
  {
    const Vec cs = toVec(a ? p.cy : p.cx), bs = toVec(a ? p.by : p.bx);
    const R g = p.gravity(a);
    const CopParams cb = {h, g, gz, m / static_cast<R>(p.totalMass)};
    const CopParams cm = {b, g, gz, M / static_cast<R>(p.totalMass)};
    const Affine basePos = predict(Pos, N, T, bs), baseVel = predict(Vel, N, T, bs);
    Residual s;
    s.add(a, baseVel, 1);
    s.shift(-part(toVec(velRef), a, N), part(toVec(velRef), a, N).cwiseAbs());
    rv.push_back(s);
    s = Residual();
    s.add(a, basePos, 1);
    s.shift(-part(toVec(posRef), a, N), part(toVec(posRef), a, N).cwiseAbs());
    rp.push_back(s);
    s = Residual();
    s.add(a, predict(Pos, N, T, cs), 1);
    s.add(2 + a, basePos, -1);
    s.shift(-part(toVec(comRef), a, N), part(toVec(comRef), a, N).cwiseAbs());
    if (shifted)
    {
      const Vec k = Vec::Constant(N, (m * h + M * b) / (m + M) * g / gz);
      s.shift(-k, k.cwiseAbs());
    }
    rc.push_back(s);
    s = Residual();
    s.add(a, predict(Cop, N, T, cs, &cb), 1);
    if (weighted) s.add(2 + a, predict(Cop, N, T, bs, &cm), 1);
    s.add(2 + a, basePos, -1);
    s.shift(-part(copRef, a, N), part(copRefAbs, a, N));
    rz.push_back(s);
  }
  const R e = eps<S>();
  const int points = c.integer(1, 2);
  for (int k = 0; k < points; ++k)
  {
    const VX<S> x = genVec<S>(c, 4 * N, -20, 20);
    c.note("x ", show(toVec(x)));
    const Vec X = toVec(x);
    const VX<S> xb = x.segment(2 * N, 2 * N);
    compareQuadratic(c, quadratic(rv, toVec(xb), N, 2 * N, e), toMat(o->vel->getGradient(xb)),
                     toMat(o->vel->getHessian()), "base velocity tracking");
    compareQuadratic(c, quadratic(rp, toVec(xb), N, 2 * N, e), toMat(o->pos->getGradient(xb)),
                     toMat(o->pos->getHessian()), "base position tracking");
    compareQuadratic(c, quadratic(rc, X, N, 4 * N, e), toMat(o->com->getGradient(x)),
                     toMat(o->com->getHessian()), "CoM centering");
    compareQuadratic(c, quadratic(rz, X, N, 4 * N, e), toMat(o->cop->getGradient(x)),
                     toMat(o->cop->getHessian()), "CoP centering");
    c.check(toMat(o->jerk->getGradient(x)) == X, "jerk minimization: wrong gradient");
    c.check(toMat(o->jerk->getHessian()) == Mat::Identity(4 * N, 4 * N),
            "jerk minimization: wrong Hessian");
  }
}

TYPED_LAW(centering_at_rest,
          "a body at rest above the point where its weight balances the CoP reference, in any "
          "tilt of the gravity: both centering objectives are at their minimum with no jerk; "
          "non-trivial: tilted gravity", 4000, 300000)
{
  typedef Scalar S;
  ZebParams<S> p = genZeb<S>(c, 6);
  const int N = p.N;
  const R m = p.bodyMass, M = p.baseMass, h = p.bodyHeight, b = p.baseHeight, gz = p.gravity(2);
  for (int a = 0; a < 2; ++a)
  {
    VX<S>& cs = a ? p.cy : p.cx;
    VX<S>& bs = a ? p.by : p.bx;
    const S at = bs(0);
    bs.setZero();
    bs(0) = at;
    const S off = static_cast<S>(c.real(-0.5, 0.5));
    cs.setZero();
    cs(0) = static_cast<S>(at + off);
  }
  c.note(showZeb(p));
  c.nontrivial(p.gravity(0) != 0 || p.gravity(1) != 0);
  Objectives<S> o(N, p.T);
  setModel(p, o.body);
  setModel(p, o.base);
  o.make();
  VX<S> cp(2 * N), bp(2 * N), zero = VX<S>::Zero(2 * N), com(2 * N);
  R size = 0, far = 0;
  for (int i = 0; i < 2 * N; ++i)
  {
    const int a = i < N ? 0 : 1;
    cp(i) = (a ? p.cy : p.cx)(0);
    bp(i) = (a ? p.by : p.bx)(0);
    const R shift = (m * h + M * b) / (m + M) * p.gravity(a) / gz;
    com(i) = static_cast<S>(cp(i) - bp(i) - shift);
    size = std::max<R>(size, std::abs(shift) + std::abs(cp(i)) + std::abs(bp(i)) + 1);
  }
  o.cop->setCopRefInWorldFrame(cp, zero, bp, zero);
  o.com->setComRefInLocalFrame(com);
  o.com->updateGravityShift();
  const VX<S> x = VX<S>::Zero(4 * N);
  const R T = p.T;
  far = N * (std::pow(N * T, 3) + (h + b + 1) / gz * N * T + 1);
  const R tol = 100 * eps<S>() * size * far;
  const Mat g1 = toMat(o.cop->getGradient(x)), g2 = toMat(o.com->getGradient(x));
  nearMat(c, g1, Mat::Zero(4 * N, 1), tol, "CoP centering at rest: gradient");
  nearMat(c, g2, Mat::Zero(4 * N, 1), tol, "CoM centering at rest: gradient");
}
