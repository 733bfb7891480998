// A mobile base generator beside the numbers it was given, and its plan from an independently
// stated quadratic program.
#pragma once
#include "humanoid_common.h"
#include "tilt.h"
#include <mpc-walkgen/zebulon_walkgen.h>

namespace mpcv
{
  using MPCWalkgen::ZebulonWalkgen;
  using MPCWalkgen::ZebulonWalkgenConfig;
  using MPCWalkgen::ZebulonWalkgenWeighting;

  template <typename S> struct ZebRig
  {
    ZebulonWalkgen<S> gen;
    ZebParams<S> p;                 // the current settings; the states are read back
    VX<S> yaw;
    ZebulonWalkgenWeighting<S> weight;
    ZebulonWalkgenConfig<S> config;
    bool weighted = false, configured = false;   // set before
    VV2<S> cop, com;                // empty: never set
    Vec velRef, posRef, copRef, comRef;
    bool copRefWorld;
    VX<S> wcp, wca, wbp, wba;       // the references the local ones were made from
    S vmax, amax, jmax;
    bool stale;                     // the references have the size of a former horizon

    ZebRig() : copRefWorld(false), vmax(1), amax(1), jmax(1), stale(true)
    {
      p.N = 1; p.T = 1; p.bodyHeight = 1; p.baseHeight = 0; p.bodyMass = 1; p.baseMass = 0;
      p.totalMass = 1;
      p.gravity << 0, 0, static_cast<S>(9.81);
      p.roll = VX<S>::Zero(3); p.pitch = p.roll; yaw = p.roll;
      p.contactX = p.contactY = 0;
      stale = false;
      velRef = posRef = copRef = comRef = Vec::Zero(2);
    }
    void samples(Ctx& c, int max)
    {
      p.N = c.integer(1, max);
      gen.setNbSamples(p.N);
      c.note("N=", p.N);
      stale = true;
    }
    void period(Ctx& c)
    {
      p.T = nudge<S>(c, p.T, [&] { return c.logReal(0.05, 0.4); });
      gen.setSamplingPeriod(p.T);
      c.note("T=", p.T);
    }
    void gravity(Ctx& c)
    {
      p.gravity = nudgeGravity<S>(c, p.gravity, genGravityOf<S>(c));
      gen.setGravity(p.gravity);
      c.note("gravity ", show(toVec(p.gravity)));
    }
    void heights(Ctx& c, int which)
    {
      if (which)
      {
        p.bodyHeight = nudge<S>(c, p.bodyHeight, [&] { return c.real(0.2, 1.2); });
        gen.setComBodyHeight(p.bodyHeight);
        c.note("body height ", p.bodyHeight);
      }
      else
      {
        p.baseHeight = nudge<S>(c, p.baseHeight, [&] { return c.real(0.02, 0.4); });
        gen.setComBaseHeight(p.baseHeight);
        c.note("base height ", p.baseHeight);
      }
    }
    void masses(Ctx& c, int which)
    {
      S& m = which ? p.bodyMass : p.baseMass;
      m = nudge<S>(c, m, [&] { return genMass(c); });
      c.note(which ? "body mass " : "base mass ", m);
      if (which) gen.setBodyMass(m);
      else gen.setBaseMass(m);
      p.totalMass = p.bodyMass + p.baseMass;
    }
    void polygon(Ctx& c, int which)
    {
      VV2<S>& v = which ? com : cop;
      v = genPolygon<S>(c, c.real(-0.05, 0.05), c.real(-0.05, 0.05), 0.08L + c.real(0, 0.2),
                        0.08L + c.real(0, 0.2));
      std::string s;
      for (const V2<S>& q : v) s += "(" + str(q(0)) + "," + str(q(1)) + ") ";
      c.note(which ? "com" : "cop", " polygon ", s);
      if (c.flip())
      {
        VV3<S> h(v.size());
        for (size_t i = 0; i < v.size(); ++i)
          h[i] << v[i](0), v[i](1), static_cast<S>(c.real(-1, 1));
        if (which) gen.setBaseComHull(h);
        else gen.setBaseCopHull(h);
      }
      else
      {
        const MPCWalkgen::ConvexPolygon<S> h(v);
        if (which) gen.setBaseComConvexPolygon(h);
        else gen.setBaseCopConvexPolygon(h);
      }
    }
    VX<S> refVector(Ctx& c, R lo, R hi)
    {
      if (c.chance(1, 3)) return genVec<S>(c, 2 * p.N, lo, hi);
      VX<S> v(2 * p.N);
      v.head(p.N).setConstant(static_cast<S>(c.real(lo, hi)));
      v.tail(p.N).setConstant(static_cast<S>(c.real(lo, hi)));
      return v;
    }
    void velocityReference(Ctx& c)
    {
      const VX<S> v = refVector(c, -1, 1);
      gen.setVelRefInWorldFrame(v);
      velRef = toVec(v);
      c.note("velocity reference ", show(velRef));
    }
    void positionReference(Ctx& c)
    {
      const VX<S> v = refVector(c, -2, 2);
      gen.setPosRefInWorldFrame(v);
      posRef = toVec(v);
      c.note("position reference ", show(posRef));
    }
    void copReference(Ctx& c)
    {
      const VX<S> v = refVector(c, -0.05, 0.05);
      gen.setCopRefInLocalFrame(v);
      copRef = toVec(v);
      c.note("cop reference ", show(copRef));
    }
    void comReference(Ctx& c)
    {
      const VX<S> v = refVector(c, -0.05, 0.05);
      gen.setComRefInLocalFrame(v);
      comRef = toVec(v);
      c.note("com reference ", show(comRef));
    }
    void worldReferences(Ctx& c)
    {
      const VX<S> cp = refVector(c, -1, 1), ca = refVector(c, -1, 1);
      const VX<S> bp = refVector(c, -1, 1), ba = refVector(c, -1, 1);
      gen.setComAndCopRefInWorldFrame(cp, ca, bp, ba);
      comRef = toVec(cp) - toVec(bp);
      copRef = Vec(2 * p.N);
      const R m = p.bodyMass, M = p.baseMass, gz = p.gravity(2);
      for (int i = 0; i < 2 * p.N; ++i)
      {
        const R g = p.gravity(i < p.N ? 0 : 1);
        copRef(i) = (m * (cp(i) - p.bodyHeight * (ca(i) + g) / gz) +
                     M * (bp(i) - p.baseHeight * (ba(i) + g) / gz)) / (m + M) - bp(i);
      }
      c.note("world references: com ", show(toVec(cp)), " acc ", show(toVec(ca)), " base ",
             show(toVec(bp)), " acc ", show(toVec(ba)));
    }
    void references(Ctx& c)
    {
      velocityReference(c);
      positionReference(c);
      if (c.flip()) worldReferences(c);
      else { copReference(c); comReference(c); }
      stale = false;
    }
    void weights(Ctx& c)
    {
      const ZebulonWalkgenWeighting<S> old = weight;
      // a weight is only switched off by zero
      auto w = [&](R lo, R hi) { return static_cast<S>(c.flip() ? 0 : c.chance(1, 5) ?
                                                       c.logReal(1e-6, lo) : c.logReal(lo, hi)); };
      weight.velocityTracking = w(0.01, 10);
      weight.positionTracking = w(0.01, 10);
      weight.copCentering = w(0.01, 10);
      weight.comCentering = w(0.01, 10);
      weight.jerkMinimization = static_cast<S>(c.logReal(1e-5, 1e-2));
      weight.tiltMinimization = w(0.01, 10);
      weight.tiltVelMinimization = w(0.01, 10);
      if (weighted && c.flip())
      {
        // a change of a single weight
        typedef S ZebulonWalkgenWeighting<S>::*Field;
        typedef ZebulonWalkgenWeighting<S> G;
        const Field f = c.pick<Field>({&G::tiltVelMinimization, &G::tiltMinimization,
                                       &G::velocityTracking, &G::positionTracking,
                                       &G::copCentering, &G::comCentering, &G::jerkMinimization});
        const S v = weight.*f;
        weight = old;
        weight.*f = v;
      }
      weighted = true;
      gen.setWeightings(weight);
      c.note("weights: vel ", weight.velocityTracking, " pos ", weight.positionTracking, " cop ",
             weight.copCentering, " com ", weight.comCentering, " jerk ",
             weight.jerkMinimization, " tilt ", weight.tiltMinimization, " tilt vel ",
             weight.tiltVelMinimization);
    }
    void constraints(Ctx& c)
    {
      if (configured && c.flip())
      {
        // a change of a single switch
        typedef bool ZebulonWalkgenConfig<S>::*Switch;
        typedef ZebulonWalkgenConfig<S> G;
        const Switch f = c.pick<Switch>({&G::withCopConstraints, &G::withComConstraints,
                                         &G::withBaseMotionConstraints,
                                         &G::withTiltMotionConstraints});
        config.*f = !(config.*f);
      }
      else
      {
        config.withCopConstraints = c.flip();
        config.withComConstraints = c.flip();
        config.withBaseMotionConstraints = c.flip();
        config.withTiltMotionConstraints = c.chance(1, 4);
      }
      configured = true;
      gen.setConfig(config);
      c.note("constraints: cop ", config.withCopConstraints, " com ", config.withComConstraints,
             " motion ", config.withBaseMotionConstraints, " tilt ",
             config.withTiltMotionConstraints);
    }
    void limits(Ctx& c, int which)
    {
      switch (which)
      {
        case 0: vmax = static_cast<S>(c.real(0.2, 3)); gen.setBaseVelLimit(vmax); break;
        case 1: amax = static_cast<S>(c.real(0.3, 6)); gen.setBaseAccLimit(amax); break;
        default: jmax = static_cast<S>(c.real(1, 60)); gen.setBaseJerkLimit(jmax);
      }
      c.note("limits ", vmax, " ", amax, " ", jmax);
    }
    void contact(Ctx& c)
    {
      if (c.flip())
      {
        p.contactX = static_cast<S>(c.real(-0.3, 0.3));
        gen.setTiltContactPointOnTheGroundInLocalFrameX(p.contactX);
      }
      else
      {
        p.contactY = static_cast<S>(c.real(-0.3, 0.3));
        gen.setTiltContactPointOnTheGroundInLocalFrameY(p.contactY);
      }
      c.note("contact ", p.contactX, " ", p.contactY);
    }
    void tiltState(Ctx& c)
    {
      p.roll = genState<S>(c, 0.1, 0.3, 0.5);
      p.pitch = genState<S>(c, 0.1, 0.3, 0.5);
      gen.setBaseStateRoll(p.roll);
      gen.setBaseStatePitch(p.pitch);
      c.note("roll ", show(toVec(p.roll)), " pitch ", show(toVec(p.pitch)));
    }
    void heading(Ctx& c)
    {
      yaw = genState<S>(c, 3.5, 1, 1);
      gen.setBaseStateYaw(yaw);
      c.note("yaw ", show(toVec(yaw)));
    }
    /// put the base somewhere, moving slowly along its heading, and the body above it
    void place(Ctx& c)
    {
      const bool near = c.chance(4, 5);
      const R s = near ? 1 : 6;
      const R v = c.real(-0.1, 0.1) * s, a = c.real(-0.2, 0.2) * s;
      const R cs = std::cos(static_cast<R>(yaw(0))), sn = std::sin(static_cast<R>(yaw(0)));
      VX<S> x(3), y(3);
      x << static_cast<S>(c.real(-1, 1)), static_cast<S>(v * cs), static_cast<S>(a * cs);
      y << static_cast<S>(c.real(-1, 1)), static_cast<S>(v * sn), static_cast<S>(a * sn);
      gen.setBaseStateX(x);
      gen.setBaseStateY(y);
      const R w = c.real(-0.1, 0.1) * s, b = c.real(-0.2, 0.2) * s;
      VX<S> u(3), t(3);
      u << static_cast<S>(x(0) + c.real(-0.04, 0.04) * s), static_cast<S>(w * cs),
           static_cast<S>(b * cs);
      t << static_cast<S>(y(0) + c.real(-0.04, 0.04) * s), static_cast<S>(w * sn),
           static_cast<S>(b * sn);
      gen.setComStateX(u);
      gen.setComStateY(t);
      c.note("base ", show(toVec(x)), show(toVec(y)), " body ", show(toVec(u)), show(toVec(t)));
    }
    bool tilting() const { return weight.tiltMinimization > 0 || weight.tiltVelMinimization > 0; }
    Tilt tilt(bool& judged) const
    {
      const R A1 = 9.81L * (static_cast<R>(p.bodyMass) * p.bodyHeight +
                            static_cast<R>(p.baseMass) * p.baseHeight);
      const R A6 = static_cast<R>(p.bodyMass) * p.bodyHeight * p.bodyHeight +
                   static_cast<R>(p.baseMass) * p.baseHeight * p.baseHeight;
      const Tilt t = tiltDynamic(p.N, p.T, A1, A6, eps<S>());
      judged = t.eW < 1e-7L * t.W.norm() && t.eV < 1e-7L * t.V.norm();
      return t;
    }
    /// the problem of the current settings and states; slack > 0 loosens the limits
    qp::Problem problem(const Kin s[4], const Tilt& t, R slack, R equalSlack, R* constant) const
    {
      const int N = p.N, n = 4 * N;
      const R T = p.T, gz = p.gravity(2);
      const R m = p.bodyMass, M = p.baseMass, h = p.bodyHeight, L = p.baseHeight;
      const R total = m + M;
      qp::Problem q;
      q.Q = Mat::Zero(n, n);
      q.p = Vec::Zero(n);
      q.xl = Vec::Constant(n, -1e30L);
      q.xu = Vec::Constant(n, 1e30L);
      R k = 0;
      auto cost = [&](R w, const Mat& J, const Vec& r)
      {
        if (!(w > 0)) return;
        q.Q += w * J.transpose() * J;
        q.p += w * J.transpose() * r;
        k += w * r.dot(r) / 2;
      };
      struct Limit { Vec a; R lo, hi; };
      std::vector<Limit> limit;
      Mat local[2][2];   // cop, com relative to the base
      Vec local0[2][2];
      for (int a = 0; a < 2; ++a)
      {
        const Kin &cs = s[a], &bs = s[2 + a];
        Vec cv(3), bv(3);
        cv << cs.p, cs.v, cs.a;
        bv << bs.p, bs.v, bs.a;
        auto on = [&](Quantity o, int block, const Vec& st, Mat& J, Vec& r, const CopParams* cp)
        {
          const RefDynamic d = refDynamic(o, N, T, T, cp);
          J = Mat::Zero(N, n);
          J.block(0, block * N, N, N) = d.U;
          r = d.S * st + d.K;
        };
        const CopParams c1 = {h, p.gravity(a), gz, m / total}, c2 = {L, p.gravity(a), gz, M / total};
        Mat bp, bvl, ba, cp, cv_, z1, z2;
        Vec bp0, bv0, ba0, cp0, cv0, z10, z20;
        on(Pos, 2 + a, bv, bp, bp0, nullptr);
        on(Vel, 2 + a, bv, bvl, bv0, nullptr);
        on(Acc, 2 + a, bv, ba, ba0, nullptr);
        on(Pos, a, cv, cp, cp0, nullptr);
        on(Vel, a, cv, cv_, cv0, nullptr);
        on(Cop, a, cv, z1, z10, &c1);
        on(Cop, 2 + a, bv, z2, z20, &c2);
        if (!(M > 1e-4L)) { z2.setZero(); z20.setZero(); }
        local[0][a] = z1 + z2 - bp;
        local0[0][a] = z10 + z20 - bp0;
        local[1][a] = cp - bp;
        local0[1][a] = cp0 - bp0;
        cost(weight.velocityTracking, bvl, bv0 - velRef.segment(a * N, N));
        cost(weight.positionTracking, bp, bp0 - posRef.segment(a * N, N));
        cost(weight.copCentering, local[0][a], local0[0][a] - copRef.segment(a * N, N));
        const R shift = (m * h + M * L) / total * p.gravity(a) / gz;
        cost(weight.comCentering, local[1][a],
             local0[1][a] - comRef.segment(a * N, N) - Vec::Constant(N, shift));
        Mat J = Mat::Zero(2 * N, n);
        J.block(0, a * N, N, N) = Mat::Identity(N, N);
        J.block(N, (2 + a) * N, N, N) = Mat::Identity(N, N);
        cost(weight.jerkMinimization, J, Vec::Zero(2 * N));
        for (int rate = 0; rate < 2; ++rate)
        {
          const R w = rate ? weight.tiltVelMinimization : weight.tiltMinimization;
          if (!(w > 0)) continue;
          const TiltRow r = tiltRow(t, rate, N, T, m, M, h, L, a ? p.contactY : p.contactX, cv, bv,
                                    toVec(a ? p.pitch : p.roll).head(2), eps<S>());
          J = Mat::Zero(N, n);
          J.block(0, a * N, N, N) = r.Jc;
          J.block(0, (2 + a) * N, N, N) = r.Jd;
          cost(w, J, r.r0);
        }
        if (config.withBaseMotionConstraints)
          for (int i = 0; i < N; ++i)
          {
            limit.push_back({bvl.row(i).transpose(), -vmax - slack - bv0(i), vmax + slack - bv0(i)});
            limit.push_back({ba.row(i).transpose(), -amax - slack - ba0(i), amax + slack - ba0(i)});
            q.xl((2 + a) * N + i) = -jmax - slack;
            q.xu((2 + a) * N + i) = jmax + slack;
          }
        if (config.withTiltMotionConstraints)
        {
          const R sn = std::sin(static_cast<R>(yaw(0))), co = std::cos(static_cast<R>(yaw(0)));
          if (a == 0)
            for (int i = 0; i < N; ++i)
            {
              limit.push_back({sn * cv_.row(i).transpose(), -sn * cv0(i), 0});
              limit.push_back({sn * bvl.row(i).transpose(), -sn * bv0(i), 0});
            }
          else
          {
            // the last 2 N limits but those of the base's motion on y
            const int first = static_cast<int>(limit.size()) -
                              (config.withBaseMotionConstraints ? 2 * N : 0) - 2 * N;
            for (int i = 0; i < N; ++i)
            {
              Limit &l = limit[first + 2 * i], &b = limit[first + 2 * i + 1];
              l.a -= co * cv_.row(i).transpose();
              l.lo += co * cv0(i);
              l.hi = l.lo + equalSlack;
              l.lo -= equalSlack;
              b.a -= co * bvl.row(i).transpose();
              b.lo += co * bv0(i);
              b.hi = b.lo + equalSlack;
              b.lo -= equalSlack;
            }
          }
        }
      }
      for (int which = 0; which < 2; ++which)
      {
        if (!(which ? config.withComConstraints : config.withCopConstraints)) continue;
        const VV2<S>& v = which ? com : cop;
        if (v.empty()) continue;
        const std::vector<P2> poly = hull(points<S>(v));
        for (size_t e = 0; e < poly.size(); ++e)
        {
          const P2 &u = poly[e], &w = poly[(e + 1) % poly.size()];
          const R l = std::hypot(w.x - u.x, w.y - u.y), nx = (w.y - u.y) / l, ny = (u.x - w.x) / l;
          for (int i = 0; i < N; ++i)
            limit.push_back({(nx * local[which][0].row(i) + ny * local[which][1].row(i)).transpose(),
                             -1e30L, nx * (u.x - local0[which][0](i)) +
                                         ny * (u.y - local0[which][1](i)) + slack});
        }
      }
      q.A = Mat(limit.size(), n);
      q.bl = Vec(limit.size());
      q.bu = Vec(limit.size());
      for (size_t i = 0; i < limit.size(); ++i)
      {
        q.A.row(i) = limit[i].a.transpose();
        q.bl(i) = limit[i].lo;
        q.bu(i) = limit[i].hi;
      }
      if (constant) *constant = k;
      return q;
    }

    enum Outcome { Judged, Unjudged, Failed };
    Outcome cycle(Ctx& c, S fb)
    {
      if (stale) references(c);
      Kin s[4] = {Kin::of(gen.getComStateX()), Kin::of(gen.getComStateY()),
                  Kin::of(gen.getBaseStateX()), Kin::of(gen.getBaseStateY())};
      const bool ok = gen.solve(fb);
      const Kin e[4] = {Kin::of(gen.getComStateX()), Kin::of(gen.getComStateY()),
                        Kin::of(gen.getBaseStateX()), Kin::of(gen.getBaseStateY())};
      if (std::is_same<S, float>::value) return ok ? Unjudged : Failed;
      bool judged = true;
      const Tilt t = tilt(judged);
      if (tilting() && !judged)
      {
        last = 1e30L;   // not known
        c.label("tilt too ill-conditioned");
        return ok ? Unjudged : Failed;
      }
      R scale = 0;
      const qp::Problem q = problem(s, t, 0, 0, &scale);
      const qp::Solution best = qp::solve(q);
      R jerk[4];
      for (int i = 0; i < 4; ++i) jerk[i] = (e[i].a - s[i].a) / fb;
      c.note("solve(", fb, ") = ", ok, ": jerks ", (double)jerk[0], " ", (double)jerk[1], " ",
             (double)jerk[2], " ", (double)jerk[3], "; reference status ", best.status, " active ",
             best.nbActive, " jerks ", (double)best.x(0), " ", (double)best.x(p.N), " ",
             (double)best.x(2 * p.N), " ", (double)best.x(3 * p.N));
      const R width = best.x.cwiseAbs().maxCoeff(), before = last;
      last = width;
      if (std::max(width, before) > 1e5L)
      {
        // the numbers of the code are relative to the plan before: nothing is left to compare
        c.label("a wild plan");
        return ok ? Unjudged : Failed;
      }
      if (!ok)
      {
        const qp::Solution tight = qp::solve(problem(s, t, -1e-6L, 0, nullptr));
        if (tight.status == qp::Optimal && best.status == qp::Optimal)
        {
          c.fail("a feasible problem is reported as not solved");
        }
        c.label("no plan");
        return Failed;
      }
      if (best.status != qp::Optimal)
      {
        const qp::Solution loose = qp::solve(problem(s, t, 1e-5L, 1e-5L, nullptr));
        c.check(loose.status != qp::Infeasible, "a problem without solution is reported as solved");
        c.label("reference not solved");
        return Unjudged;
      }
      for (int i = 0; i < 4; ++i)
      {
        const Kin x = s[i].after(jerk[i], fb);
        const R tol = 1e-11L * (1 + std::abs(x.p) + std::abs(x.v) + std::abs(x.a));
        if (!(std::abs(e[i].p - x.p) <= tol) || !(std::abs(e[i].v - x.v) <= tol))
          c.fail("state " + std::to_string(i) + " did not move under its jerk: position " +
                 str(e[i].p) + " for " + str(x.p) + ", velocity " + str(e[i].v) + " for " + str(x.v));
      }
      const R size = 1 + best.x.cwiseAbs().maxCoeff();
      R d = 0;
      for (int i = 0; i < 4; ++i)
        d = std::max(d, std::abs(jerk[i] - best.x(i * p.N)) / size);
      active = best.nbActive;
      if (!(d <= 1e-5L))
      {
        // not the very plan of the reference: is it as good?
        c.label("judged by its cost");
        R got = 0;
        Vec j(4);
        j << jerk[0], jerk[1], jerk[2], jerk[3];
        const qp::Solution with = solveWith(problem(s, t, 1e-6L, 1e-6L, nullptr), j, &got);
        const qp::Solution tight = qp::solve(problem(s, t, -1e-6L, 0, nullptr));
        if (tight.status != qp::Optimal) { c.label("no tightened plan"); return Unjudged; }
        c.check(with.status != qp::Infeasible, "what was applied leaves no feasible plan");
        const R worst = tight.x.dot(q.Q * tight.x) / 2 + q.p.dot(tight.x);
        c.note("cost ", (double)got, ", tightened ", (double)worst, ", best ",
               (double)best.objective);
        c.check(got <= worst + 1e-7L * scale, "what was applied is not optimal: its best cost is " +
                str(got) + ", but " + str(worst) + " can be reached");
        return Unjudged;
      }
      return Judged;
    }
    int active = 0;
    R last = 0;    // size of the plan before
    qp::Solution solveWith(const qp::Problem& q, const Vec& j, R* cost) const
    {
      std::vector<int> fixed;
      for (int i = 0; i < 4; ++i) fixed.push_back(i * p.N);
      return solveFixedVars(q, fixed, j, cost);
    }
    static qp::Solution solveFixedVars(qp::Problem q, const std::vector<int>& fixed, const Vec& v,
                                       R* cost);
  };

  /// The same problem with some variables held within 1e-9 of given values.
  template <typename S>
  qp::Solution ZebRig<S>::solveFixedVars(qp::Problem q, const std::vector<int>& fixed,
                                         const Vec& v, R* cost)
  {
    for (size_t i = 0; i < fixed.size(); ++i)
    {
      const R e = 1e-9L * (1 + std::abs(v(i)));
      q.xl(fixed[i]) = v(i) - e;
      q.xu(fixed[i]) = v(i) + e;
    }
    qp::Solution s = qp::solve(q);
    *cost = s.x.dot(q.Q * s.x) / 2 + q.p.dot(s.x);
    return s;
  }
}
