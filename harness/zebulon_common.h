// A body (pendulum) on a mobile base: generators and reference costs shared by C12-C16.
#pragma once
#include "models_common.h"

namespace mpcv
{
  /// The numbers a pair of models is set up with.
  template <typename S> struct ZebParams
  {
    int N;
    S T, bodyHeight, baseHeight, bodyMass, baseMass, totalMass;
    V3<S> gravity;
    VX<S> cx, cy, bx, by, roll, pitch;
    S contactX, contactY;
  };
  template <typename S> V3<S> genGravityOf(Ctx& c)
  {
    V3<S> g;
    g << 0, 0, static_cast<S>(9.81);
    if (c.chance(1, 3))
      g << static_cast<S>(c.real(-4, 4)), static_cast<S>(c.real(-4, 4)),
          static_cast<S>(c.logReal(1, 20));
    return g;
  }
  /// a mass, sometimes of a few grams: only a mass of zero is no mass
  inline R genMass(Ctx& c)
  {
    return c.chance(1, 6) ? c.logReal(0.0005, 0.5) : c.logReal(0.5, 60);
  }
  template <typename S> ZebParams<S> genZeb(Ctx& c, int maxN, double minT = 0.02, double maxT = 1)
  {
    ZebParams<S> p;
    p.N = c.integer(1, maxN);
    p.T = static_cast<S>(c.logReal(minT, maxT));
    p.bodyHeight = static_cast<S>(c.real(0.1, 1.5));
    p.baseHeight = static_cast<S>(c.real(0.01, 0.6));
    p.bodyMass = static_cast<S>(genMass(c));
    p.baseMass = static_cast<S>(genMass(c));
    p.totalMass = p.bodyMass + p.baseMass;
    p.gravity = genGravityOf<S>(c);
    p.cx = genState<S>(c);
    p.cy = genState<S>(c);
    p.bx = genState<S>(c);
    p.by = genState<S>(c);
    p.roll = genState<S>(c, 0.3, 1, 2);
    p.pitch = genState<S>(c, 0.3, 1, 2);
    p.contactX = static_cast<S>(c.real(-0.4, 0.4));
    p.contactY = static_cast<S>(c.real(-0.4, 0.4));
    return p;
  }
  template <typename S>
  void setModel(const ZebParams<S>& p, MPCWalkgen::LIPModel<S>& m)
  {
    m.setNbSamples(p.N);
    m.setSamplingPeriod(p.T);
    m.setComHeight(p.bodyHeight);
    m.setTotalMass(10 * (p.totalMass + m.getMass()));   // never under the mass of a part
    m.setMass(p.bodyMass);
    m.setTotalMass(p.totalMass);
    m.setGravity(p.gravity);
    m.setStateX(p.cx);
    m.setStateY(p.cy);
  }
  template <typename S>
  void setModel(const ZebParams<S>& p, MPCWalkgen::BaseModel<S>& m, bool weighted = true)
  {
    m.setNbSamples(p.N);
    m.setSamplingPeriod(p.T);
    m.setComHeight(p.baseHeight);
    if (weighted)
    {
      m.setTotalMass(10 * (p.totalMass + m.getMass()));
      m.setMass(p.baseMass);
      m.setTotalMass(p.totalMass);
    }
    m.setGravity(p.gravity);
    m.setStateX(p.bx);
    m.setStateY(p.by);
    m.setStateRoll(p.roll);
    m.setStatePitch(p.pitch);
    m.setTiltContactPointX(p.contactX);
    m.setTiltContactPointY(p.contactY);
  }
  template <typename S> std::string showZeb(const ZebParams<S>& p)
  {
    std::ostringstream o;
    o.precision(17);
    o << "N=" << p.N << " T=" << p.T << " body h=" << p.bodyHeight << " m=" << p.bodyMass
      << " base h=" << p.baseHeight << " m=" << p.baseMass << " total=" << p.totalMass
      << " g=" << show(toVec(p.gravity)) << "\n com " << show(toVec(p.cx)) << show(toVec(p.cy))
      << "\n base " << show(toVec(p.bx)) << show(toVec(p.by)) << " roll " << show(toVec(p.roll))
      << " pitch " << show(toVec(p.pitch)) << " contact " << p.contactX << " " << p.contactY;
    return o.str();
  }

  /// An affine prediction with the size of the terms it is computed from.
  struct Affine
  {
    Mat U, Ua;
    Vec k, ka;
    static Affine of(const RefDynamic& d, const Vec& state)
    {
      Affine a;
      a.U = d.U;
      a.Ua = d.U.cwiseAbs();
      a.k = d.S * state + d.K;
      a.ka = d.S.cwiseAbs() * state.cwiseAbs() + d.K.cwiseAbs();
      return a;
    }
  };
  inline Affine predict(Quantity q, int N, R T, const Vec& state, const CopParams* cp = nullptr)
  {
    Affine a = Affine::of(refDynamic(q, N, T, T, cp), state);
    if (q == Cop)
    {
      // position and acceleration parts cancel
      CopParams n = *cp;
      n.height = -std::abs(n.height);
      n.gravityZ = std::abs(n.gravityZ);
      n.gravityXY = std::abs(n.gravityXY);
      const Affine b = Affine::of(refDynamic(q, N, T, T, &n), state.cwiseAbs());
      a.Ua = b.Ua;
      a.ka = b.ka;
    }
    return a;
  }

  /// The residual of one axis of a cost: r = sum of J_v x_v + r0, over blocks v of N unknowns.
  struct Residual
  {
    std::map<int, std::pair<Mat, Mat> > J;   // block -> derivative and the size of its terms
    Vec r0, ra;
    void add(int block, const Affine& a, R sign)
    {
      if (!J.count(block))
        J[block] = std::make_pair(Mat(Mat::Zero(a.U.rows(), a.U.cols())),
                                  Mat(Mat::Zero(a.U.rows(), a.U.cols())));
      J[block].first += sign * a.U;
      J[block].second += a.Ua;
      shift(sign * a.k, a.ka);
    }
    void shift(const Vec& k, const Vec& ka)
    {
      if (!r0.size()) { r0 = Vec::Zero(k.size()); ra = r0; }
      r0 += k;
      ra += ka;
    }
  };
  /// Gradient and Hessian of 1/2 sum of squared residuals, with componentwise error bounds.
  struct Quadratic { Mat H, He; Vec g, ge; };
  inline Quadratic quadratic(const std::vector<Residual>& rs, const Vec& x, int N, int n, R eps)
  {
    Quadratic q;
    q.H = Mat::Zero(n, n);
    q.He = Mat::Zero(n, n);
    q.g = Vec::Zero(n);
    q.ge = Vec::Zero(n);
    for (const Residual& s : rs)
    {
      Vec r = s.r0, ra = s.ra;
      for (const auto& j : s.J)
      {
        r += j.second.first * x.segment(j.first * N, N);
        ra += j.second.second * x.segment(j.first * N, N).cwiseAbs();
      }
      for (const auto& a : s.J)
      {
        q.g.segment(a.first * N, N) += a.second.first.transpose() * r;
        q.ge.segment(a.first * N, N) += a.second.second.transpose() * ra;
        for (const auto& b : s.J)
        {
          q.H.block(a.first * N, b.first * N, N, N) +=
              a.second.first.transpose() * b.second.first;
          q.He.block(a.first * N, b.first * N, N, N) +=
              a.second.second.transpose() * b.second.second;
        }
      }
    }
    q.He *= (40 + 8 * N) * eps;
    q.ge *= (40 + 8 * N) * eps;
    return q;
  }
  inline void compareQuadratic(Ctx& c, const Quadratic& q, const Mat& g, const Mat& H,
                               const std::string& what)
  {
    const int n = static_cast<int>(q.g.size());
    if (g.rows() != n || g.cols() != 1 || H.rows() != n || H.cols() != n)
      c.fail(what + ": wrong size");
    for (int i = 0; i < n; ++i)
    {
      if (!(std::abs(g(i, 0) - q.g(i)) <= q.ge(i) + 1e-30L))
        c.fail(what + ": gradient[" + std::to_string(i) + "]: got " + str(g(i, 0)) +
               ", expected " + str(q.g(i)) + " (tolerance " + str(q.ge(i)) + ")");
      for (int j = 0; j < n; ++j)
        if (!(std::abs(H(i, j) - q.H(i, j)) <= q.He(i, j) + 1e-30L))
          c.fail(what + ": Hessian(" + std::to_string(i) + "," + std::to_string(j) + "): got " +
                 str(H(i, j)) + ", expected " + str(q.H(i, j)) + " (tolerance " +
                 str(q.He(i, j)) + ")");
    }
  }
}
