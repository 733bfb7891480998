// Runs of the generators and their parts that keep every bit that comes out, and can be made again.
#pragma once
#include "humanoid_gen.h"
#include "traj_gen.h"
#include "zebulon_gen.h"
#include <cstring>
#include <memory>
#include <mpc-walkgen/interpolator.h>

namespace
{
  using namespace mpcv;
  using namespace MPCWalkgen;
  typedef std::vector<std::uint64_t> Bits;

  /// Something that runs step by step, makes its choices through the Ctx it is given, and keeps
  /// every bit that comes out.
  struct Actor
  {
    Bits out;
    virtual ~Actor() {}
    virtual void step(Ctx& c) = 0;
    /// reads something and forgets it
    virtual void read(Ctx&) {}
    template <typename S> void put(S v)
    {
      std::uint64_t b = 0;
      if (v != v) b = ~b;   // any NaN
      else std::memcpy(&b, &v, sizeof v);
      out.push_back(b);
    }
    template <typename D> void putAll(const Eigen::MatrixBase<D>& m)
    {
      for (int j = 0; j < m.cols(); ++j)
        for (int i = 0; i < m.rows(); ++i) put(m(i, j));
    }
    template <typename S> void putDynamic(const LinearDynamic<S>& d)
    {
      putAll(d.U); putAll(d.UT); putAll(d.Uinv); putAll(d.UTinv); putAll(d.S); putAll(d.K);
    }
  };

  template <typename S> void readGenerator(Ctx& c, const HumanoidWalkgen<S>& g)
  {
    typedef HumanoidWalkgen<S> G;
    typedef const VX<S>& (G::*Get)() const;
    static const Get all[] = {&G::getComStateX, &G::getComStateY, &G::getComStateZ,
                              &G::getLeftFootStateX, &G::getLeftFootStateY, &G::getLeftFootStateZ,
                              &G::getRightFootStateX, &G::getRightFootStateY,
                              &G::getRightFootStateZ};
    volatile S v = (g.*all[c.below(9)])()(c.below(3));
    (void)v;
  }
  template <typename S> void readWalk(Ctx& c, const Walk<S>& w)
  {
    const HumanoidFeetSupervisor<S>& u = *w.sup;
    volatile S v = 0;
    switch (c.below(8))
    {
      case 0: v = u.getSupportFootStateX()(0); break;
      case 1: v = u.getSupportFootStateY()(0); break;
      case 2: v = u.getNbOfCallsBeforeNextSample(); break;
      case 3: v = u.getRotationMatrix().sum() + u.getRotationMatrixT().sum(); break;
      case 4: v = w.sup->getMaximumNbOfCopConstraints(); break;
      case 5: v = w.sup->getMaximumNbOfKinematicConstraints(); break;
      case 6: v = u.isInDS(); break;
      default: v = u.getFeetPosLinearDynamic().U.sum();
    }
    (void)v;
  }

  template <typename S> struct Humanoid : Actor
  {
    Rig<S> g;
    explicit Humanoid(Ctx& c) : g(c, 6) { if (c.chance(3, 4)) g.w.setMove(true); }
    void step(Ctx& c) override
    {
      Walk<S>& w = g.w;
      w.command(c);
      switch (c.below(12))
      {
        case 11: g.weights(c); break;
        case 10: g.reference(c); break;
        case 9: g.config(c); break;
        case 8: g.place(c); break;
        case 7: g.height(c); break;
        case 6: if (w.sim.type == PhaseSim::DS) g.moveFeet(c); break;
        case 5: g.polygons(c); break;
        default: break;
      }
      w.sim.beginCycle();
      put(S(g.gen.solve(w.feedback())));
      w.sim.endCycle(w.f);
      for (const VX<S>* v : {&g.gen.getComStateX(), &g.gen.getComStateY(), &g.gen.getComStateZ(),
                             &g.gen.getLeftFootStateX(), &g.gen.getLeftFootStateY(),
                             &g.gen.getLeftFootStateZ(), &g.gen.getRightFootStateX(),
                             &g.gen.getRightFootStateY(), &g.gen.getRightFootStateZ()})
        putAll(*v);
      if (!(std::abs(g.gen.getComStateX()(0)) + std::abs(g.gen.getComStateY()(0)) < 20)) g.place(c);
    }
    void read(Ctx& c) override { readGenerator(c, g.gen); readWalk(c, g.w); }
  };

  template <typename S> struct Base : Actor
  {
    ZebRig<S> r;
    explicit Base(Ctx& c) { r.weights(c); if (c.flip()) { r.samples(c, 5); r.references(c); } }
    void step(Ctx& c) override
    {
      switch (c.below(22))
      {
        case 0: r.samples(c, 5); break;
        case 1: r.period(c); break;
        case 2: r.gravity(c); break;
        case 3: r.heights(c, 1); break;
        case 4: r.heights(c, 0); break;
        case 5: r.masses(c, 1); break;
        case 6: r.masses(c, 0); break;
        case 7: r.polygon(c, 0); break;
        case 8: r.polygon(c, 1); break;
        case 9: r.weights(c); break;
        case 10: r.constraints(c); break;
        case 11: r.references(c); break;
        case 12: if (!r.stale) r.worldReferences(c); break;
        case 13: r.limits(c, c.below(3)); break;
        case 14: r.contact(c); break;
        case 15: r.tiltState(c); break;
        case 16: r.heading(c); break;
        case 17: r.place(c); break;
        default: break;
      }
      if (c.chance(1, 3)) return;
      if (r.stale) r.references(c);
      put(S(r.gen.solve(r.p.T * static_cast<S>(c.pick<double>({1, 0.5, 0.1})))));
      for (const VX<S>* v : {&r.gen.getComStateX(), &r.gen.getComStateY(), &r.gen.getBaseStateX(),
                             &r.gen.getBaseStateY()})
        putAll(*v);
      if (!(std::abs(r.gen.getComStateX()(0)) + std::abs(r.gen.getBaseStateX()(0)) +
            std::abs(r.gen.getComStateY()(0)) + std::abs(r.gen.getBaseStateY()(0)) < 20)) r.place(c);
    }
    void read(Ctx& c) override
    {
      typedef ZebulonWalkgen<S> G;
      typedef const VX<S>& (G::*Get)() const;
      static const Get all[] = {&G::getComStateX, &G::getComStateY, &G::getBaseStateX,
                                &G::getBaseStateY};
      volatile S v = (r.gen.*all[c.below(4)])()(c.below(3));
      (void)v;
    }
  };

  template <typename S> struct Line : Actor
  {
    TrajRig<S> r;
    explicit Line(Ctx& c) { r.weights(c); if (c.flip()) { r.samples(c, 8); r.references(c); } }
    void step(Ctx& c) override
    {
      switch (c.below(14))
      {
        case 0: r.samples(c, 8); break;
        case 1: r.period(c); break;
        case 2: r.weights(c); break;
        case 3: r.constraints(c); break;
        case 4: r.references(c); break;
        case 5: r.limits(c, c.below(3)); break;
        case 6: r.place(c); break;
        default: break;
      }
      if (c.chance(1, 3)) return;
      if (r.stale) r.references(c);
      put(S(r.gen.solve(r.T * static_cast<S>(c.pick<double>({1, 0.5, 0.1})))));
      put(r.gen.getJerk());
      putAll(r.gen.getState());
      if (!(std::abs(r.gen.getState()(0)) < 20)) r.place(c);
    }
    void read(Ctx& c) override
    {
      volatile S v = c.flip() ? r.gen.getJerk() : r.gen.getState()(c.below(3));
      (void)v;
    }
  };

  /// The parts the generators are made of, used on their own.
  template <typename S> struct Parts : Actor
  {
    Walk<S> w;
    LIPModel<S> lip;
    BaseModel<S> base;
    Interpolator<S> spline;
    void read(Ctx& c) override
    {
      readWalk(c, w);
      volatile S v = lip.getCopXLinearDynamic().U.sum() + base.getBasePosLinearDynamic().U.sum();
      // the polygons of the last cycle
      if (w.sim.phaseOf.size())
        v += w.sup->getCopConvexPolygon(c.below(w.sim.N)).getNbVertices();
      (void)v;
    }
    explicit Parts(Ctx& c) : w(c, 6), lip(c.integer(1, 5), static_cast<S>(0.1), true)
    { w.setMove(true); }
    void step(Ctx& c) override
    {
      switch (c.below(6))
      {
        case 0:
        {
          lip.setNbSamples(c.integer(1, 6));
          lip.setSamplingPeriod(static_cast<S>(c.logReal(0.05, 0.5)));
          lip.setFeedbackPeriod(lip.getSamplingPeriod() / c.integer(1, 4));
          lip.setComHeight(static_cast<S>(c.real(0.3, 1.2)));
          putDynamic(lip.getCopXLinearDynamic());
          putDynamic(lip.getComVelLinearDynamic());
          putDynamic(lip.getComPosLinearDynamic());
          const VX<S> s = genState<S>(c);
          lip.setStateX(s);
          lip.updateStateX(static_cast<S>(c.real(-3, 3)), lip.getFeedbackPeriod());
          putAll(lip.getStateX());
          break;
        }
        case 1:
        {
          base.setNbSamples(c.integer(1, 6));
          base.setSamplingPeriod(static_cast<S>(c.logReal(0.05, 0.5)));
          putDynamic(base.getBasePosLinearDynamic());
          putDynamic(base.getBaseVelLinearDynamic());
          break;
        }
        case 2:
        {
          VV2<S> p;
          for (int i = c.integer(3, 9); i > 0; --i)
          {
            V2<S> v;
            v << static_cast<S>(c.below(9) * 0.05L), static_cast<S>(c.below(9) * 0.05L);
            p.push_back(v);
          }
          const ConvexPolygon<S> h(p);
          for (int i = 0; i < h.getNbVertices(); ++i) putAll(h.getVertices()[i]);
          putAll(h.getGeneralConstraintsMatrixCoefsForX());
          putAll(h.getGeneralConstraintsMatrixCoefsForY());
          putAll(h.getGeneralConstraintsConstantPart());
          put(h.getXSupBound()); put(h.getYInfBound());
          break;
        }
        case 3:
        {
          const S T = static_cast<S>(c.logReal(0.05, 2));
          V3<S> a, b;
          a << static_cast<S>(c.real(-1, 1)), static_cast<S>(c.real(-1, 1)), 0;
          b << static_cast<S>(c.real(-1, 1)), static_cast<S>(c.real(-1, 1)), 0;
          VX<S> f = VX<S>::Zero(12);
          spline.computePolynomialNormalisedFactors(f, a, b, T);
          putAll(f);
          typename Type<S>::Vector4 s;
          spline.selectFactors(s, f, static_cast<S>(c.real(0, 1)) * T, T);
          putAll(s);
          break;
        }
        default: break;
      }
      w.command(c);
      w.beginCycle();
      putAll(w.sup->getRotationMatrix());
      putAll(w.sup->getFeetPosLinearDynamic().U);
      putAll(w.sup->getFeetPosLinearDynamic().K);
      put(S(w.sup->getNbPreviewedSteps()));
      for (int i = 0; i < w.sim.N; ++i)
        for (const V2<S>& v : w.sup->getCopConvexPolygon(i).getVertices()) putAll(v);
      const int M = w.sim.M;
      w.variable = VX<S>::Zero(2 * w.sim.N + 2 * M);
      w.plan(c);
      w.endCycle();
      for (const VX<S>* v : {&w.sup->getLeftFootStateX(), &w.sup->getRightFootStateY(),
                             &w.sup->getLeftFootStateZ(), &w.sup->getRightFootStateZ()})
        putAll(*v);
    }
  };

  std::unique_ptr<Actor> make(Ctx& c, int kind)
  {
    switch (kind)
    {
      case 0: return std::unique_ptr<Actor>(new Line<double>(c));
      case 1: return std::unique_ptr<Actor>(new Line<float>(c));
      case 2: return std::unique_ptr<Actor>(new Parts<double>(c));
      case 3: return std::unique_ptr<Actor>(new Parts<float>(c));
      case 4: return std::unique_ptr<Actor>(new Humanoid<double>(c));
      case 5: return std::unique_ptr<Actor>(new Humanoid<float>(c));
      case 6: return std::unique_ptr<Actor>(new Base<double>(c));
      default: return std::unique_ptr<Actor>(new Base<float>(c));
    }
  }
  const char* const kNames[] = {"line.double", "line.float", "parts.double", "parts.float",
                                "humanoid.double", "humanoid.float", "base.double", "base.float"};

  /// A run that was made on its own: its choices, step by step, and what came out.
  struct Run
  {
    int kind, steps;
    std::vector<std::uint64_t> choices;
    Bits out;
  };
  Run alone(Ctx& c, int kind, int steps)
  {
    Run r;
    r.kind = kind;
    r.steps = steps;
    const std::size_t from = c.drawn().size();
    std::unique_ptr<Actor> a = make(c, kind);
    for (int i = 0; i < steps; ++i) a->step(c);
    r.choices.assign(c.drawn().begin() + from, c.drawn().end());
    r.out = a->out;
    return r;
  }
  /// The same run once more.
  class Again
  {
  public:
    explicit Again(const Run& r) : run_(r), gen_(&run_.choices, false), ctx_(gen_, false, known_), left_(r.steps)
    { }
    bool done() const { return actor_ && !left_; }
    void step()
    {
      if (!actor_) { actor_ = make(ctx_, run_.kind); return; }
      actor_->step(ctx_);
      --left_;
    }
    void read(Ctx& c) { actor_->read(c); }
    void end() { actor_.reset(); }
    Bits out() const { return actor_->out; }
  private:
    const Run& run_;
    std::map<std::string, std::string> known_;
    Gen gen_;
    Ctx ctx_;
    int left_;
    std::unique_ptr<Actor> actor_;
  };
  void same(Ctx& c, const Run& r, const Bits& out, const std::string& when)
  {
    const std::size_t n = std::min(out.size(), r.out.size());
    for (std::size_t i = 0; i < n; ++i)
      if (out[i] != r.out[i])
        c.fail(std::string(kNames[r.kind]) + ": output " + std::to_string(i) + " of " +
               std::to_string(n) + " differs " + when);
    c.check(out.size() == r.out.size(),
            std::string(kNames[r.kind]) + ": another number of outputs " + when);
  }
}
