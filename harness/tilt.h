// The documented balance of the tilt of the mobile base, solved sample after sample.
//
//   g (m h + M L) psi + m g (c - d) = M L d'' + m h c'' + (m h h + M L L) psi''
//
// with the tilt angle measured the way the code does, positive towards -c, and the weight of
// the base at the distance of the contact point:
//   A1 psi_k - A6 psi''_k = m g (c_k - d_k) - M g contact - m h c''_k - M L d''_k
#pragma once
#include "zebulon_common.h"

namespace mpcv
{
  struct Tilt
  {
    Mat W, V;      // angle and angular velocity by the right hand side F
    Mat SW, SV;    // by the state (angle, velocity)
    R eW, eV;      // error bounds on the entries (rounding of the code under test)
    bool judged;
  };
  inline Tilt tiltDynamic(int N, R T, R A1, R A6, R eps)
  {
    auto run = [&](const Vec& F, R p, R v, Vec& angle, Vec& rate)
    {
      Kin k(p, v, 0);
      angle = Vec(N);
      rate = Vec(N);
      for (int i = 0; i < N; ++i)
      {
        // A1 (p + v T + a T^2 / 2) - A6 a = F
        const R a = (F(i) - A1 * (k.p + k.v * T)) / (A1 * T * T / 2 - A6);
        k = k.afterAcc(a, T);
        angle(i) = k.p;
        rate(i) = k.v;
      }
    };
    Tilt t;
    t.W = Mat::Zero(N, N);
    t.V = t.W;
    t.SW = Mat::Zero(N, 2);
    t.SV = t.SW;
    Vec a, r;
    for (int j = 0; j < N; ++j)
    {
      run(Vec::Unit(N, j), 0, 0, a, r);
      t.W.col(j) = a;
      t.V.col(j) = r;
    }
    for (int j = 0; j < 2; ++j)
    {
      run(Vec::Zero(N), j == 0, j == 1, a, r);
      t.SW.col(j) = a;
      t.SV.col(j) = r;
    }
    // sizes of the matrices the code goes through
    Mat TA = Mat::Zero(N, N), TV = TA;
    for (int j = 0; j < N; ++j)
    {
      Kin k;
      for (int i = 0; i < N; ++i)
      {
        k = k.afterAcc(i == j, T);
        TA(i, j) = k.p;
        TV(i, j) = k.v;
      }
    }
    Mat TAinv = Mat::Zero(N, N);
    for (int j = 0; j < N; ++j)
      for (int i = j; i < N; ++i)
      {
        R s = i == j;
        for (int q = j; q < i; ++q) s -= TA(i, q) * TAinv(q, j);
        TAinv(i, j) = s / TA(i, i);
      }
    const R nA = TA.norm(), nAi = TAinv.norm(), nV = TV.norm(), nVi = 2 * std::sqrt(R(N)) / T;
    const R u = A1 * std::sqrt(R(N)) + A6 * nAi * nAi * nA;
    t.eW = 20 * N * eps * t.W.norm() * t.W.norm() * u;
    const R uv = nA * nVi * (A1 + A6 * nAi * nAi * nA);
    t.eV = 20 * N * eps * t.V.norm() * t.V.norm() * uv;
    (void)nV;
    t.judged = t.eW < 1e-2L * t.W.norm() && t.eV < 1e-2L * t.V.norm();
    return t;
  }
  /// The prediction of the tilt (rate = false: angle) as a residual on body and base jerks.
  struct TiltRow { Mat Jc, Jd, Jce, Jde; Vec r0, r0e, r0a; };
  inline TiltRow tiltRow(const Tilt& t, bool rate, int N, R T, R m, R M, R h, R L, R contact,
                         const Vec& cs, const Vec& ds, const Vec& tilt, R eps)
  {
    const R g = 9.81L;
    const Affine cp = predict(Pos, N, T, cs), ca = predict(Acc, N, T, cs);
    const Affine dp = predict(Pos, N, T, ds), da = predict(Acc, N, T, ds);
    const Mat& W = rate ? t.V : t.W;
    const Mat Wa = W.cwiseAbs();
    const Mat We = Mat::Constant(N, N, rate ? t.eV : t.eW) + 20 * N * eps * Wa;
    const Mat Fc = m * g * cp.U - m * h * ca.U, Fd = -m * g * dp.U - M * L * da.U;
    const Mat Fca = m * g * cp.Ua + m * h * ca.Ua, Fda = m * g * dp.Ua + M * L * da.Ua;
    TiltRow r;
    r.Jc = W * Fc;
    r.Jd = W * Fd;
    r.Jce = We * Fca;
    r.Jde = We * Fda;
    const Vec f = m * g * (cp.k - dp.k) - m * h * ca.k - M * L * da.k -
                  Vec::Constant(N, M * g * contact);
    const Vec fa = m * g * (cp.ka + dp.ka) + m * h * ca.ka + M * L * da.ka +
                   Vec::Constant(N, std::abs(M * g * contact));
    const Mat& S = rate ? t.SV : t.SW;
    // the state goes through the same inverse, with the accelerations that keep the angle
    const R A6 = m * h * h + M * L * L;
    const Vec fs = Vec::Constant(N, A6 * 8 / (T * T) * N * (std::abs(tilt(0)) +
                                                            N * T * std::abs(tilt(1))));
    const Vec rs = Vec::Constant(N, rate ? 8 * N / T * (std::abs(tilt(0)) + N * T * std::abs(tilt(1)))
                                         : 0);
    r.r0 = W * f + S * tilt;
    r.r0a = Wa * fa + S.cwiseAbs() * tilt.cwiseAbs();
    r.r0e = We * (fa + fs) + 20 * N * eps * (r.r0a + rs);
    return r;
  }
}
