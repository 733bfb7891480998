#include "ref.h"
#include <algorithm>

namespace mpcv
{
  std::vector<P2> hull(std::vector<P2> pts)
  {
    std::sort(pts.begin(), pts.end(), [](const P2& a, const P2& b)
              { return a.y < b.y || (a.y == b.y && a.x < b.x); });
    pts.erase(std::unique(pts.begin(), pts.end(), [](const P2& a, const P2& b)
                          { return a.x == b.x && a.y == b.y; }), pts.end());
    const int n = static_cast<int>(pts.size());
    if (n < 3) return pts;
    std::vector<P2> h;
    // sorted by (y, x): going up along the right-hand side first gives the
    // counter-clockwise order from the lowest, leftmost point
    for (int i = 0; i < n; ++i)
    {
      while (h.size() >= 2 && cross(h[h.size() - 2], h.back(), pts[i]) <= 0) h.pop_back();
      h.push_back(pts[i]);
    }
    const std::size_t lower = h.size() + 1;
    for (int i = n - 2; i >= 0; --i)
    {
      while (h.size() >= lower && cross(h[h.size() - 2], h.back(), pts[i]) <= 0) h.pop_back();
      h.push_back(pts[i]);
    }
    h.pop_back();
    return h;
  }

  R outside(const std::vector<P2>& poly, const P2& q)
  {
    R worst = -std::numeric_limits<R>::infinity();
    const int n = static_cast<int>(poly.size());
    for (int i = 0; i < n; ++i)
    {
      const P2& a = poly[i];
      const P2& b = poly[(i + 1) % n];
      R len = std::hypot(b.x - a.x, b.y - a.y);
      if (!(len > 0)) continue;
      worst = std::max(worst, -cross(a, b, q) / len);
    }
    return worst;
  }
}
