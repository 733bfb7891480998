// C05: interpolated trajectories meet both ends and are smooth.
#include "spline.h"
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include <memory>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  template <typename S> V3<S> genEnd(Ctx& c)
  {
    V3<S> s;
    s << static_cast<S>(c.real(-2, 2)), static_cast<S>(c.real(-3, 3)), static_cast<S>(c.real(-6, 6));
    return s;
  }
  template <typename V, typename W> R sizeOf(const V& a, const W& b, R T)
  {
    return std::abs(a(0)) + std::abs(b(0)) + T * (std::abs(a(1)) + std::abs(b(1))) +
           T * T * (std::abs(a(2)) + std::abs(b(2)));
  }
}

TYPED_LAW(spline_meets_its_conditions,
          "random states at both ends, a random duration and times in all three pieces, at both "
          "ends and around the junctions, against the motion under three constant jerks; "
          "non-trivial: the ends differ", 12000, 300000)
{
  const Scalar T = static_cast<Scalar>(c.logReal(0.02, 5));
  const V3<Scalar> a = genEnd<Scalar>(c), b = genEnd<Scalar>(c);
  c.nontrivial(a != b);
  c.note("duration ", T, " from ", show(toVec(a)), " to ", show(toVec(b)));
  std::unique_ptr<Interpolator<Scalar> > in(new Interpolator<Scalar>());
  VX<Scalar> f = VX<Scalar>::Zero(12);
  in->computePolynomialNormalisedFactors(f, a, b, T);
  c.check(f.size() == 12, "the spline has not 12 factors");
  const Spline ref(Kin::of(a), Kin::of(b), T);
  const R tol = 300 * eps<Scalar>() * sizeOf(a, b, static_cast<R>(T)) + 1e-30L;
  for (int k = 0; k < 10; ++k)
  {
    R x;
    switch (c.below(5))
    {
      case 0: x = c.flip() ? 1 : 0; break;
      case 1: x = (1 + c.below(2)) / R(3) + c.real(-0.01, 0.01); break;
      case 2: x = (1 + c.below(2)) / R(3); break;
      default: x = c.real(0, 1);
    }
    const Scalar t = static_cast<Scalar>(x * T);
    typename Type<Scalar>::Vector4 s;
    in->selectFactors(s, f, t, T);
    const R u = static_cast<R>(t) / T;
    const R p = ((s(0) * u + s(1)) * u + s(2)) * u + s(3);
    const R v = (3 * static_cast<R>(s(0)) * u + 2 * static_cast<R>(s(1))) * u + s(2);
    const R w = 6 * static_cast<R>(s(0)) * u + 2 * static_cast<R>(s(1));
    const Kin want = ref.at(t);
    const std::string at = " at " + str(u) + " of the duration";
    c.near(p, want.p, tol, "position" + at);
    c.near(v / T, want.v, 6 * tol / T, "velocity" + at);
    c.near(w / T / T, want.a, 30 * tol / T / T, "acceleration" + at);
    // the evaluation helpers
    const Scalar ut = t / T;
    c.near(Tools::polynomValue(s, ut), p, tol, "evaluated position" + at);
    c.near(Tools::dPolynomValue(s, ut), v, 6 * tol, "evaluated velocity" + at);
    c.near(Tools::ddPolynomValue(s, ut), w, 30 * tol, "evaluated acceleration" + at);
  }
  // each piece meets the next, whichever is selected
  for (int piece = 0; piece < 3; ++piece)
  {
    const int o = 4 * piece;
    const R u0 = piece / R(3), u1 = (piece + 1) / R(3);
    for (int e = 0; e < 2; ++e)
    {
      const R u = e ? u1 : u0;
      const Kin want = ref.at(u * T);
      c.near(((f(o) * u + f(o + 1)) * u + f(o + 2)) * u + f(o + 3), want.p, tol,
             "position of piece " + std::to_string(piece) + " at its end");
      c.near((3 * f(o) * u + 2 * f(o + 1)) * u + f(o + 2), want.v * T, 6 * tol,
             "velocity of piece " + std::to_string(piece) + " at its end");
    }
  }
}

TYPED_LAW(foot_follows_the_spline,
          "a foot moved along the three axes by a random history of updates towards changing "
          "targets over the remaining time, each compared with the spline from its state before; "
          "non-trivial: at least 3 updates and one to the very end", 5000, 120000)
{
  std::unique_ptr<HumanoidFootModel<Scalar> > m(
      c.flip() ? new HumanoidFootModel<Scalar>()
               : new HumanoidFootModel<Scalar>(c.integer(1, 5), static_cast<Scalar>(0.1)));
  Kin k[3];
  {
    V3<Scalar> s[3];
    for (int a = 0; a < 3; ++a) { s[a] = genEnd<Scalar>(c); k[a] = Kin::of(s[a]); }
    m->setStateX(s[0]); m->setStateY(s[1]); m->setStateZ(s[2]);
  }
  const VX<Scalar> yaw = m->getStateYaw();
  const int n = c.integer(1, 10);
  bool toTheEnd = false;
  for (int i = 0; i < n; ++i)
  {
    const int a = c.below(3);
    const V3<Scalar> target = genEnd<Scalar>(c);
    const Scalar T = static_cast<Scalar>(c.logReal(0.02, 2));
    const int parts = c.integer(1, 8), part = c.integer(1, parts);
    const Scalar t = part == parts ? T : T * static_cast<Scalar>(part) / static_cast<Scalar>(parts);
    toTheEnd = toTheEnd || t == T;
    const VX<Scalar> before[3] = {m->getStateX(), m->getStateY(), m->getStateZ()};
    if (a == 0) m->updateStateX(target, T, t);
    if (a == 1) m->updateStateY(target, T, t);
    if (a == 2) m->updateStateZ(target, T, t);
    const VX<Scalar> after[3] = {m->getStateX(), m->getStateY(), m->getStateZ()};
    c.note("axis ", a, " to ", show(toVec(target)), " in ", T, ", at ", t, ": ",
           show(toVec(after[a])));
    for (int o = 0; o < 3; ++o)
      if (o != a) c.check(after[o] == before[o], "an update moved another axis");
    const Kin want = Spline(Kin::of(before[a]), Kin::of(target), T).at(t);
    const R tol = 400 * eps<Scalar>() * sizeOf(before[a], target, static_cast<R>(T)) + 1e-30L;
    c.near(after[a](0), want.p, tol, "position");
    c.near(after[a](1), want.v, 6 * tol / T, "velocity");
    c.near(after[a](2), want.a, 30 * tol / T / T, "acceleration");
  }
  c.check(m->getStateYaw() == yaw, "an update turned the foot");
  c.nontrivial(n >= 3 && toTheEnd);
}
