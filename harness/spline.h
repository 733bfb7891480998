// The motion that the interpolation is defined to be.
#pragma once
#include "models_common.h"

namespace mpcv
{
  /// A piecewise cubic with continuous acceleration is the motion under three constant jerks,
  /// each during a third of the time: solve for the jerks that lead to the end state.
  struct Spline
  {
    Kin start;
    R j[3], T;
    Spline(const Kin& a, const Kin& b, R T_) : start(a), T(T_)
    {
      const R h = T / 3;
      auto end = [&](const Kin& s, const R* jj)
      { Kin k = s; for (int i = 0; i < 3; ++i) k = k.after(jj[i], h); return k; };
      const R zero[3] = {0, 0, 0};
      const Kin f = end(a, zero);
      R M[3][4];
      for (int i = 0; i < 3; ++i)
      {
        R u[3] = {R(i == 0), R(i == 1), R(i == 2)};
        const Kin k = end(Kin(), u);
        M[0][i] = k.p; M[1][i] = k.v; M[2][i] = k.a;
      }
      M[0][3] = b.p - f.p; M[1][3] = b.v - f.v; M[2][3] = b.a - f.a;
      for (int i = 0; i < 3; ++i)
      {
        int piv = i;
        for (int r = i; r < 3; ++r) if (std::abs(M[r][i]) > std::abs(M[piv][i])) piv = r;
        for (int q = 0; q < 4; ++q) std::swap(M[i][q], M[piv][q]);
        for (int r = 0; r < 3; ++r)
          if (r != i)
          {
            const R f2 = M[r][i] / M[i][i];
            for (int q = i; q < 4; ++q) M[r][q] -= f2 * M[i][q];
          }
      }
      for (int i = 0; i < 3; ++i) j[i] = M[i][3] / M[i][i];
    }
    Kin at(R t) const
    {
      Kin k = start;
      const R h = T / 3;
      for (int i = 0; i < 3; ++i)
      {
        const R d = i < 2 ? std::min(t, h) : t;
        if (d <= 0) break;
        k = k.after(j[i], d);
        t -= d;
      }
      return k;
    }
  };
}
