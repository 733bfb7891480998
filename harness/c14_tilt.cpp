// C14: the tilt objectives follow the documented balance of the tilt.
#include "tilt.h"
#include <memory>
#include <mpc-walkgen/function/zebulon_tilt_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_velocity_minimization_objective.h>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename O, typename S>
  bool compareTilt(Ctx& c, O& obj, bool rate, const Tilt& t, const ZebParams<S>& p, const VX<S>& x,
                   const std::string& what)
  {
    const int N = p.N;
    const R e = eps<S>();
    const Mat g = toMat(obj.getGradient(x)), H = toMat(obj.getHessian());
    c.check(g.rows() == 4 * N && g.cols() == 1 && H.rows() == 4 * N && H.cols() == 4 * N,
            what + ": wrong size");
    const Vec X = toVec(x);
    bool tight = true;
    for (int a = 0; a < 2; ++a)
    {
      const Vec cs = toVec(a ? p.cy : p.cx), ds = toVec(a ? p.by : p.bx);
      const Vec ts = toVec(a ? p.pitch : p.roll).head(2);
      const TiltRow r = tiltRow(t, rate, N, p.T, p.bodyMass, p.baseMass, p.bodyHeight,
                                p.baseHeight, a ? p.contactY : p.contactX, cs, ds, ts, e);
      const Vec xc = X.segment(a * N, N), xd = X.segment((2 + a) * N, N);
      const Vec v = r.Jc * xc + r.Jd * xd + r.r0;
      const Vec ve = r.Jce * xc.cwiseAbs() + r.Jde * xd.cwiseAbs() + r.r0e;
      const Mat* J[2] = {&r.Jc, &r.Jd};
      const Mat* E[2] = {&r.Jce, &r.Jde};
      for (int i = 0; i < 2; ++i)
      {
        const int bi = (2 * i + a) * N;
        const Mat JT = J[i]->transpose(), JaT = JT.cwiseAbs(), ET = E[i]->transpose();
        const Vec gr = JT * v;
        const Vec ge = ET * (v.cwiseAbs() + ve) + JaT * (ve + 20 * N * e * v.cwiseAbs());
        for (int k = 0; k < N; ++k)
        {
          if (!(std::abs(g(bi + k, 0) - gr(k)) <= ge(k) + 1e-30L))
            c.fail(what + ": gradient[" + std::to_string(bi + k) + "]: got " + str(g(bi + k, 0)) +
                   ", expected " + str(gr(k)) + " (tolerance " + str(ge(k)) + ")");
          if (ge(k) > 0.05L * gr.cwiseAbs().maxCoeff()) tight = false;
        }
        for (int j = 0; j < 4; ++j)
        {
          if (j % 2 != a)
          {
            nearMat(c, H.block(bi, j * N, N, N), Mat::Zero(N, N), 0, what + ": Hessian across axes");
            continue;
          }
          const Mat Hr = JT * *J[j / 2];
          const Mat He = ET * (J[j / 2]->cwiseAbs() + *E[j / 2]) + JaT * *E[j / 2] +
                         20 * N * e * JaT * J[j / 2]->cwiseAbs();
          for (int k = 0; k < N; ++k)
            for (int l = 0; l < N; ++l)
              if (!(std::abs(H(bi + k, j * N + l) - Hr(k, l)) <= He(k, l) + 1e-30L))
                c.fail(what + ": Hessian(" + std::to_string(bi + k) + "," +
                       std::to_string(j * N + l) + "): got " + str(H(bi + k, j * N + l)) +
                       ", expected " + str(Hr(k, l)) + " (tolerance " + str(He(k, l)) + ")");
        }
      }
    }
    return tight;
  }
}

TYPED_LAW(tilt_balance,
          "a body on a base (1-6 samples), tilt states and contact points, objectives built "
          "before or after the parameters are final, the contact point moved afterwards in some "
          "cases: gradient and Hessian of both tilt objectives against the balance solved sample "
          "after sample; non-trivial: at least 2 samples, judged (well conditioned)",
          5000, 200000)
{
  typedef Scalar S;
  ZebParams<S> p = genZeb<S>(c, 6, 0.02, 0.8);
  // the tilt model has a vertical gravity of the usual size
  const int N = p.N;
  c.note(showZeb(p));
  const bool late = c.flip();
  std::unique_ptr<LIPModel<S> > body(new LIPModel<S>(N, p.T, true));
  std::unique_ptr<BaseModel<S> > base(new BaseModel<S>(N, p.T, true));
  std::unique_ptr<TiltMinimizationObjective<S> > angle;
  std::unique_ptr<TiltVelMinimizationObjective<S> > rate;
  auto make = [&]()
  {
    angle.reset(new TiltMinimizationObjective<S>(*body, *base));
    rate.reset(new TiltVelMinimizationObjective<S>(*body, *base));
  };
  if (late)
  {
    const ZebParams<S> q = genZeb<S>(c, 6, 0.02, 0.8);
    c.note("before: ", showZeb(q));
    setModel(q, *body);
    setModel(q, *base);
    make();
  }
  setModel(p, *body);
  setModel(p, *base);
  if (late)
  {
    angle->computeConstantPart();
    rate->computeConstantPart();
  }
  else make();
  if (c.chance(1, 3))
  {
    p.contactX = static_cast<S>(c.real(-0.4, 0.4));
    p.contactY = static_cast<S>(c.real(-0.4, 0.4));
    base->setTiltContactPointX(p.contactX);
    base->setTiltContactPointY(p.contactY);
    angle->updateTiltContactPoint();
    rate->updateTiltContactPoint();
    c.note("contact moved to ", p.contactX, " ", p.contactY);
    c.label("contact point moved");
  }
  const R A1 = 9.81L * (static_cast<R>(p.bodyMass) * p.bodyHeight +
                        static_cast<R>(p.baseMass) * p.baseHeight);
  const R A6 = static_cast<R>(p.bodyMass) * p.bodyHeight * p.bodyHeight +
               static_cast<R>(p.baseMass) * p.baseHeight * p.baseHeight;
  const Tilt t = tiltDynamic(N, p.T, A1, A6, eps<S>());
  const VX<S> x = genVec<S>(c, 4 * N, -20, 20);
  c.note("x ", show(toVec(x)));
  if (!t.judged) { c.label("too ill-conditioned to judge"); return; }
  c.nontrivial(N >= 2);
  c.label(N >= 2, "judged, 2 samples or more");
  c.label(N >= 4, "judged, 4 samples or more");
  const bool a = compareTilt(c, *angle, false, t, p, x, "tilt minimization");
  const bool b = compareTilt(c, *rate, true, t, p, x, "tilt velocity minimization");
  c.label(a && b && N >= 2, "tight");
}
