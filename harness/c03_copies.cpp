// C03: copies of models, polygons and feet supervisors are independent of their originals.
#include "humanoid_common.h"
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <memory>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  /// a polygon made of anything: 1 to 12 points, equal and aligned ones too
  template <typename S> ConvexPolygon<S> anyPolygon(Ctx& c, R cx, R cy)
  {
    VV2<S> p;
    const int n = c.integer(3, 12);
    for (int i = 0; i < n; ++i)
    {
      V2<S> v;
      v << static_cast<S>(cx + (c.below(9) - 4) * 0.02L), static_cast<S>(cy + (c.below(5) - 2) * 0.02L);
      p.push_back(v);
    }
    return ConvexPolygon<S>(p);
  }
  template <typename S> void touch(Ctx& c, const VX<S>& v)
  {
    S s = 0;
    for (int i = 0; i < v.size(); ++i) s += v(i);
    c.label(s != s, "a state is not a number");   // and a use of every element
  }
}

TYPED_LAW(copies,
          "models, polygons and feet supervisors copied, assigned (to themselves too), and used "
          "after the original is gone: they are as before; non-trivial: an original destroyed "
          "before its copy is used", 4000, 80000)
{
  typedef Scalar S;
  auto same = [&](const LinearDynamic<S>& a, const LinearDynamic<S>& b)
  {
    c.check(a.U == b.U && a.UT == b.UT && a.S == b.S && a.K == b.K, "a copy differs");
  };
  const int N = c.integer(1, 12);
  const S T = static_cast<S>(c.logReal(0.02, 0.5));
  const bool drop = c.flip();
  switch (c.below(5))
  {
    case 0:
    {
      std::unique_ptr<LIPModel<S> > a(new LIPModel<S>(N, T, true));
      a->setComHeight(static_cast<S>(c.real(0.2, 1)));
      LIPModel<S> b(*a), d;
      d = *a;
      *a = *a;
      a->setNbSamples(c.integer(1, 12));
      if (drop) a.reset();
      same(b.getCopXLinearDynamic(), d.getCopXLinearDynamic());
      same(b.getComPosLinearDynamic(), d.getComPosLinearDynamic());
      b.updateStateX(1, T); d.updateStateX(1, T);
      c.check(b.getStateX() == d.getStateX(), "a copy moves otherwise");
      d.setNbSamples(c.integer(1, 20));
      touch<S>(c, d.getCopYLinearDynamic().K);
      c.check(b.getNbSamples() == N, "a copy changes with its original");
      break;
    }
    case 1:
    {
      std::unique_ptr<BaseModel<S> > a(new BaseModel<S>(N, T, true));
      const ConvexPolygon<S> p = anyPolygon<S>(c, 0, 0);
      if (p.getNbVertices() >= 3) a->setCopSupportConvexPolygon(p);
      BaseModel<S> b(*a), d;
      d = *a;
      *a = *a;
      a->setNbSamples(c.integer(1, 12));
      if (drop) a.reset();
      same(b.getBasePosLinearDynamic(), d.getBasePosLinearDynamic());
      same(b.getCopXLinearDynamic(), d.getCopXLinearDynamic());
      c.check(sameVertices(b.getCopSupportConvexPolygon(), d.getCopSupportConvexPolygon()),
              "a copy's polygon differs");
      c.check(b.getNbSamples() == N, "a copy changes with its original");
      break;
    }
    case 2:
    {
      std::unique_ptr<NoDynamicModel<S> > a(new NoDynamicModel<S>(N, T, true));
      NoDynamicModel<S> b(*a), d;
      d = *a;
      *a = *a;
      a->setNbSamples(c.integer(1, 12));
      if (drop) a.reset();
      same(b.getPosLinearDynamic(), d.getPosLinearDynamic());
      c.check(b.getNbSamples() == N, "a copy changes with its original");
      break;
    }
    case 3:
    {
      Walk<S> w(c);
      w.setMove(c.flip());
      const int n = c.integer(0, 12);
      for (int i = 0; i < n; ++i) { w.command(c); w.beginCycle(); w.plan(c); w.endCycle(); }
      std::unique_ptr<HumanoidFeetSupervisor<S> > a = std::move(w.sup);
      HumanoidFeetSupervisor<S> b(*a), d(1, 1);
      d = *a;
      *a = *a;
      VX<S> va = w.variable;
      if (drop) a.reset();
      // the copies go on alike
      for (int i = 0; i < 6; ++i)
      {
        w.sim.beginCycle();
        VX<S> x = w.variable, y = w.variable;
        b.updateTimeline(x, w.feedback());
        d.updateTimeline(y, w.feedback());
        c.check(b.getNbPreviewedSteps() == d.getNbPreviewedSteps() && x == y, "copies disagree");
        for (int k = 0; k < b.getNbSamples(); ++k)
          c.check(sameVertices(b.getCopConvexPolygon(k), d.getCopConvexPolygon(k)),
                  "copies disagree on a support");
        w.variable = x;
        w.variable.tail(2 * b.getNbPreviewedSteps()).setConstant(static_cast<S>(0.1));
        VX<S> steps = w.variable.tail(2 * b.getNbPreviewedSteps());
        b.updateFeetStates(steps, w.feedback());
        d.updateFeetStates(steps, w.feedback());
        c.check(b.getLeftFootStateX() == d.getLeftFootStateX() &&
                    b.getRightFootStateZ() == d.getRightFootStateZ(), "copies move otherwise");
        w.sim.endCycle(w.f);
      }
      break;
    }
    default:
    {
      std::unique_ptr<ConvexPolygon<S> > a(new ConvexPolygon<S>(anyPolygon<S>(c, 0, 0)));
      ConvexPolygon<S> b(*a), d;
      d = *a;
      *a = *a;
      *a = anyPolygon<S>(c, 1, 1);
      if (drop) a.reset();
      c.check(sameVertices(b, d), "copies disagree");
      c.check(b.getNbGeneralConstraints() == d.getNbGeneralConstraints() &&
                  b.getXSupBound() == d.getXSupBound(), "copies disagree on a constraint");
      touch<S>(c, b.getGeneralConstraintsConstantPart());
    }
  }
  c.nontrivial(drop);
}
