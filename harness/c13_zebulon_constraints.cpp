// C13: the mobile base's constraints hold exactly on the regions and limits they stand for.
#include "humanoid_common.h"
#include "zebulon_common.h"
#include <mpc-walkgen/function/zebulon_base_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_com_constraint.h>
#include <mpc-walkgen/function/zebulon_cop_constraint.h>
#include <mpc-walkgen/function/zebulon_tilt_motion_constraint.h>
#include <memory>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  /// a . x >= b, with the size of the terms behind each number
  struct Half
  {
    Vec a, aa;
    R b, ba;
    std::string what;
  };
  /// The rows of  G (y - x) >= f  (lower) or <= f (upper), as half-spaces of y.
  template <typename S>
  void rows(const MX<S>& G, const VX<S>& f, const VX<S>& x, bool lower, std::vector<Half>& out)
  {
    const Mat g = toMat(G);
    const Vec X = toVec(x);
    for (int i = 0; i < g.rows(); ++i)
    {
      Half h;
      const R s = lower ? 1 : -1;
      h.a = s * g.row(i).transpose();
      h.b = s * (static_cast<R>(f(i)) + g.row(i).dot(X));
      h.ba = g.row(i).cwiseAbs().dot(X.cwiseAbs()) + std::abs(static_cast<R>(f(i)));
      h.what = (lower ? "row " : "upper row ") + std::to_string(i);
      out.push_back(h);
    }
  }
  /// The same half-space up to a positive factor
  bool same(const Half& code, const Half& ref, const Vec& xabs, R eps)
  {
    const R n = ref.a.squaredNorm();
    if (n == 0) return false;
    const R s = code.a.dot(ref.a) / n;
    if (!(s > 0)) return false;
    const R factor = 1 + ref.aa.norm() / std::sqrt(n);   // what the terms' rounding does to s
    for (int i = 0; i < ref.a.size(); ++i)
      if (!(std::abs(code.a(i) - s * ref.a(i)) <=
            eps * s * (ref.aa(i) + factor * std::abs(ref.a(i)))))
        return false;
    return std::abs(code.b - s * ref.b) <=
           eps * (s * (ref.ba + ref.aa.dot(xabs) + factor * std::abs(ref.b)) + code.ba);
  }
  /// Every row is one of the expected half-spaces and every expected one has a row.
  void matchRows(Ctx& c, const std::vector<Half>& code, const std::vector<Half>& ref,
                 const Vec& xabs, R eps, const std::string& what)
  {
    std::vector<char> hit(ref.size(), 0);
    for (const Half& h : code)
    {
      bool found = false;
      for (std::size_t j = 0; j < ref.size(); ++j)
        if (same(h, ref[j], xabs, eps)) { hit[j] = 1; found = true; }
      if (!found)
      {
        std::string msg = what + ": " + h.what + " stands for no limit: " + show(h.a) +
                          " y >= " + str(h.b) + "; the limits are";
        for (const Half& r : ref) msg += "\n  " + r.what + ": " + show(r.a) + " y >= " + str(r.b);
        c.fail(msg);
      }
    }
    for (std::size_t j = 0; j < ref.size(); ++j)
      if (!hit[j]) c.fail(what + ": no row for " + ref[j].what);
  }
  /// The point  sum of predictions (cop or com) - base position  in the polygon at all samples.
  void region(const std::vector<P2>& poly, const Residual axes[2], int N, std::vector<Half>& out)
  {
    const int n = static_cast<int>(poly.size());
    for (int e = 0; e < n; ++e)
    {
      const P2 &p = poly[e], &q = poly[(e + 1) % n];
      // inside: (q - p) x (z - p) >= 0
      const R ny = q.x - p.x, nx = -(q.y - p.y);
      for (int k = 0; k < N; ++k)
      {
        Half h;
        h.a = Vec::Zero(4 * N);
        h.aa = h.a;
        h.b = nx * p.x + ny * p.y;
        h.ba = std::abs(nx * p.x) + std::abs(ny * p.y);
        for (int a = 0; a < 2; ++a)
        {
          const R m = a ? ny : nx;
          for (const auto& j : axes[a].J)
          {
            h.a.segment(j.first * N, N) += m * j.second.first.row(k).transpose();
            h.aa.segment(j.first * N, N) += std::abs(m) * j.second.second.row(k).transpose();
          }
          h.b -= m * axes[a].r0(k);
          h.ba += std::abs(m) * axes[a].ra(k);
        }
        h.what = "edge " + std::to_string(e) + " at sample " + std::to_string(k);
        out.push_back(h);
      }
    }
  }
  template <typename S> struct Constraints
  {
    LIPModel<S> body;
    BaseModel<S> base;
    std::unique_ptr<CopConstraint<S> > cop;
    std::unique_ptr<ComConstraint<S> > com;
    std::unique_ptr<BaseMotionConstraint<S> > motion;
    std::unique_ptr<TiltMotionConstraint<S> > tilt;
    Constraints(int N, S T) : body(N, T, true), base(N, T, true) {}
    void make()
    {
      cop.reset(new CopConstraint<S>(body, base));
      com.reset(new ComConstraint<S>(body, base));
      motion.reset(new BaseMotionConstraint<S>(base));
      tilt.reset(new TiltMotionConstraint<S>(body, base));
    }
    void recompute()
    {
      cop->computeConstantPart();
      com->computeConstantPart();
      motion->computeConstantPart();
      tilt->computeConstantPart();
    }
  };
  template <typename S> VV2<S> genSupport(Ctx& c)
  {
    return genPolygon<S>(c, c.real(-0.1, 0.1), c.real(-0.1, 0.1), 0.05L + c.real(0, 0.3),
                         0.05L + c.real(0, 0.3));
  }
  template <typename S> std::string showPoints(const VV2<S>& v)
  {
    std::string s;
    for (const V2<S>& p : v) s += "(" + str(p(0)) + "," + str(p(1)) + ") ";
    return s;
  }
}

TYPED_LAW(regions_and_limits,
          "a body on a base (1-5 samples), two support polygons, motion limits and a heading, "
          "constraints built before or after the parameters are final: at random jerks, the rows "
          "of the four constraints and the half-spaces of the simulated CoP, CoM, velocity and "
          "acceleration are the same up to order and scale; non-trivial: a polygon that is not "
          "symmetric about the base and at least 2 samples", 3000, 150000)
{
  typedef Scalar S;
  const ZebParams<S> p = genZeb<S>(c, 5);
  const int N = p.N;
  const bool weighted = c.chance(4, 5);
  const VV2<S> pc = genSupport<S>(c), pm = genSupport<S>(c);
  const S yaw = static_cast<S>(c.real(-3.5, 3.5));
  const S vmax = static_cast<S>(c.real(0, 5)), amax = static_cast<S>(c.real(0, 10));
  c.note(showZeb(p), weighted ? "" : " (massless base)", "\ncop ", showPoints<S>(pc), " com ",
         showPoints<S>(pm), " yaw ", yaw, " vmax ", vmax, " amax ", amax);
  std::unique_ptr<Constraints<S> > o;
  const bool late = c.flip();
  VX<S> syaw(3);
  syaw << yaw, static_cast<S>(c.real(-1, 1)), 0;
  if (late)
  {
    const ZebParams<S> q = genZeb<S>(c, 5);
    c.note("before: ", showZeb(q));
    o.reset(new Constraints<S>(q.N, q.T));
    setModel(q, o->body);
    setModel(q, o->base, weighted && c.flip());
    o->base.setCopSupportConvexPolygon(ConvexPolygon<S>(genSupport<S>(c)));
    o->base.setComSupportConvexPolygon(ConvexPolygon<S>(genSupport<S>(c)));
    o->make();
  }
  else
  {
    o.reset(new Constraints<S>(N, p.T));
  }
  setModel(p, o->body);
  setModel(p, o->base, weighted);
  o->base.setCopSupportConvexPolygon(ConvexPolygon<S>(pc));
  o->base.setComSupportConvexPolygon(ConvexPolygon<S>(pm));
  o->base.setStateYaw(syaw);
  o->base.setVelocityLimit(vmax);
  o->base.setAccelerationLimit(amax);
  if (late) o->recompute();
  else o->make();

  const std::vector<P2> hc = hull(points<S>(pc)), hm = hull(points<S>(pm));
  R mx = 0, my = 0;
  for (const P2& v : hc) { mx += v.x; my += v.y; }
  c.nontrivial(N >= 2 && (std::abs(mx) > 0.01L || std::abs(my) > 0.01L || hc.size() % 2));
  c.label(late, "constraints reused");
  c.label(!weighted, "massless base");

  const R T = p.T, gz = p.gravity(2);
  Residual cop[2], com[2];
  Affine vel[2], acc[2], comVel[2];
  for (int a = 0; a < 2; ++a)
  {
    const Vec cs = toVec(a ? p.cy : p.cx), bs = toVec(a ? p.by : p.bx);
    const CopParams cb = {p.bodyHeight, p.gravity(a), gz, p.bodyMass / static_cast<R>(p.totalMass)};
    const CopParams cm = {p.baseHeight, p.gravity(a), gz, p.baseMass / static_cast<R>(p.totalMass)};
    const Affine basePos = predict(Pos, N, T, bs);
    cop[a].add(a, predict(Cop, N, T, cs, &cb), 1);
    if (weighted) cop[a].add(2 + a, predict(Cop, N, T, bs, &cm), 1);
    cop[a].add(2 + a, basePos, -1);
    com[a].add(a, predict(Pos, N, T, cs), 1);
    com[a].add(2 + a, basePos, -1);
    vel[a] = predict(Vel, N, T, bs);
    acc[a] = predict(Acc, N, T, bs);
    comVel[a] = predict(Vel, N, T, cs);
  }
  const VX<S> x = genVec<S>(c, 4 * N, -20, 20);
  c.note("x ", show(toVec(x)));
  const Vec xabs = toVec(x).cwiseAbs();
  const R e = (60 + 10 * N) * eps<S>();
  {
    c.check(o->cop->getNbConstraints() == o->cop->getGradient().rows() &&
            o->cop->getFunction(x).size() == o->cop->getGradient().rows() &&
            o->cop->getGradient().cols() == 4 * N, "CoP constraint: sizes");
    std::vector<Half> code, ref;
    rows<S>(o->cop->getGradient(), o->cop->getFunction(x), x, true, code);
    region(hc, cop, N, ref);
    matchRows(c, code, ref, xabs, e, "CoP constraint");
  }
  {
    c.check(o->com->getNbConstraints() == o->com->getGradient().rows() &&
            o->com->getFunction(x).size() == o->com->getGradient().rows() &&
            o->com->getGradient().cols() == 4 * N, "CoM constraint: sizes");
    std::vector<Half> code, ref;
    rows<S>(o->com->getGradient(), o->com->getFunction(x), x, true, code);
    region(hm, com, N, ref);
    matchRows(c, code, ref, xabs, e, "CoM constraint");
  }
  {
    const VX<S> xb = x.segment(2 * N, 2 * N);
    c.check(o->motion->getNbConstraints() == o->motion->getGradient().rows() &&
            o->motion->getGradient().cols() == 2 * N &&
            o->motion->getFunctionInf(xb).size() == o->motion->getNbConstraints() &&
            o->motion->getFunctionSup(xb).size() == o->motion->getNbConstraints(),
            "base motion constraint: sizes");
    std::vector<Half> code, ref;
    rows<S>(o->motion->getGradient(), o->motion->getFunctionInf(xb), xb, true, code);
    rows<S>(o->motion->getGradient(), o->motion->getFunctionSup(xb), xb, false, code);
    for (int a = 0; a < 2; ++a)
      for (int q = 0; q < 2; ++q)
        for (int k = 0; k < N; ++k)
          for (int up = 0; up < 2; ++up)
          {
            const Affine& f = q ? acc[a] : vel[a];
            const R limit = q ? amax : vmax, s = up ? -1 : 1;
            Half h;
            h.a = Vec::Zero(2 * N);
            h.a.segment(a * N, N) = s * f.U.row(k).transpose();
            h.aa = h.a.cwiseAbs();
            h.b = -limit - s * f.k(k);
            h.ba = limit + f.ka(k);
            h.what = std::string(q ? "acceleration" : "velocity") + (a ? " y" : " x") +
                     (up ? " upper" : " lower") + " limit at sample " + std::to_string(k);
            ref.push_back(h);
          }
    matchRows(c, code, ref, toVec(xb).cwiseAbs(), e, "base motion constraint");
  }
  {
    c.check(o->tilt->getNbConstraints() == o->tilt->getGradient().rows() &&
            o->tilt->getGradient().cols() == 4 * N &&
            o->tilt->getFunction(x).size() == o->tilt->getNbConstraints(),
            "tilt motion constraint: sizes");
    std::vector<Half> code, ref;
    rows<S>(o->tilt->getGradient(), o->tilt->getFunction(x), x, true, code);
    rows<S>(o->tilt->getGradient(), o->tilt->getFunction(x), x, false, code);
    const R sn = std::sin(static_cast<R>(yaw)), cs = std::cos(static_cast<R>(yaw));
    for (int b = 0; b < 2; ++b)
      for (int k = 0; k < N; ++k)
        for (int up = 0; up < 2; ++up)
        {
          const Affine &fx = b ? vel[0] : comVel[0], &fy = b ? vel[1] : comVel[1];
          const R s = up ? -1 : 1;
          Half h;
          h.a = Vec::Zero(4 * N);
          h.a.segment(2 * b * N, N) = s * sn * fx.U.row(k).transpose();
          h.a.segment((2 * b + 1) * N, N) = -s * cs * fy.U.row(k).transpose();
          h.aa = Vec::Zero(4 * N);
          h.aa.segment(2 * b * N, N) = fx.U.row(k).cwiseAbs().transpose();
          h.aa.segment((2 * b + 1) * N, N) = fy.U.row(k).cwiseAbs().transpose();
          h.b = -s * (sn * fx.k(k) - cs * fy.k(k));
          h.ba = fx.ka(k) + fy.ka(k);
          h.what = std::string(b ? "base" : "body") + " sideways velocity at sample " +
                   std::to_string(k);
          ref.push_back(h);
        }
    matchRows(c, code, ref, xabs, e, "tilt motion constraint");
  }
}

TYPED_LAW(limits_move_with_the_state,
          "the rows' values follow the current state, heading kept, without recomputing anything: "
          "two states of the same models give the rows of each; non-trivial: at least 2 samples",
          1000, 40000)
{
  typedef Scalar S;
  ZebParams<S> p = genZeb<S>(c, 5);
  const int N = p.N;
  const VV2<S> pc = genSupport<S>(c);
  Constraints<S> o(N, p.T);
  setModel(p, o.body);
  setModel(p, o.base);
  o.base.setCopSupportConvexPolygon(ConvexPolygon<S>(pc));
  o.base.setComSupportConvexPolygon(ConvexPolygon<S>(pc));
  o.make();
  VX<S> x = genVec<S>(c, 4 * N, -20, 20);
  VX<S> xb = x.segment(2 * N, 2 * N);
  c.note(showZeb(p), " x ", show(toVec(x)));
  c.nontrivial(N >= 2);
  o.cop->getFunction(x); o.com->getFunction(x); o.tilt->getFunction(x);
  o.motion->getFunctionInf(xb); o.motion->getFunctionSup(xb);
  const ZebParams<S> q = genZeb<S>(c, 5);
  p.cx = q.cx; p.cy = q.cy; p.bx = q.bx; p.by = q.by;
  o.body.setStateX(p.cx); o.body.setStateY(p.cy);
  o.base.setStateX(p.bx); o.base.setStateY(p.by);
  o.base.setVelocityLimit(static_cast<S>(2));
  x = genVec<S>(c, 4 * N, -20, 20);
  xb = x.segment(2 * N, 2 * N);
  Constraints<S> f(N, p.T);
  setModel(p, f.body);
  setModel(p, f.base);
  f.base.setCopSupportConvexPolygon(ConvexPolygon<S>(pc));
  f.base.setComSupportConvexPolygon(ConvexPolygon<S>(pc));
  f.base.setVelocityLimit(static_cast<S>(2));
  f.make();
  auto near = [&](const VX<S>& a, const VX<S>& b, const std::string& what)
  { nearVec(c, toVec(a), toVec(b), 100 * eps<S>() * (1 + b.cwiseAbs().maxCoeff()), what); };
  near(o.cop->getFunction(x), f.cop->getFunction(x), "CoP constraint");
  near(o.com->getFunction(x), f.com->getFunction(x), "CoM constraint");
  near(o.tilt->getFunction(x), f.tilt->getFunction(x), "tilt motion constraint");
  near(o.motion->getFunctionInf(xb), f.motion->getFunctionInf(xb), "base motion, lower");
  near(o.motion->getFunctionSup(xb), f.motion->getFunctionSup(xb), "base motion, upper");
}
