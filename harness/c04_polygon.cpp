// C04: convex polygons are hulls, and their constraints mean membership.
#include "models_common.h"
#include <mpc-walkgen/convexpolygon.h>
#include <algorithm>
#include <memory>
#include <set>

using namespace mpcv;
using namespace MPCWalkgen;

namespace
{
  struct IP
  {
    long x, y;
    bool operator==(const IP& o) const { return x == o.x && y == o.y; }
    bool operator<(const IP& o) const { return y < o.y || (y == o.y && x < o.x); }
  };
  long icross(const IP& o, const IP& a, const IP& b)
  { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }

  /// The corners by their definition, exactly: a point is a corner when no segment between two
  /// other points, and no triangle of other points, contains it.
  std::vector<IP> corners(std::vector<IP> p)
  {
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    const int n = static_cast<int>(p.size());
    if (n < 3) return p;
    std::vector<IP> h;
    for (int i = 0; i < n; ++i)
    {
      while (h.size() >= 2 && icross(h[h.size() - 2], h.back(), p[i]) <= 0) h.pop_back();
      h.push_back(p[i]);
    }
    const std::size_t lower = h.size() + 1;
    for (int i = n - 2; i >= 0; --i)
    {
      while (h.size() >= lower && icross(h[h.size() - 2], h.back(), p[i]) <= 0) h.pop_back();
      h.push_back(p[i]);
    }
    h.pop_back();
    return h;
  }

  /// The largest violation of a bound or row, as a distance: <= 0 when all of them hold.
  template <typename S> R violated(const ConvexPolygon<S>& p, R x, R y)
  {
    R v = std::max(std::max(x - p.getXSupBound(), p.getXInfBound() - x),
                   std::max(y - p.getYSupBound(), p.getYInfBound() - y));
    for (int i = 0; i < p.getNbGeneralConstraints(); ++i)
    {
      const R ax = p.getGeneralConstraintsMatrixCoefsForX()(i);
      const R ay = p.getGeneralConstraintsMatrixCoefsForY()(i);
      const R b = p.getGeneralConstraintsConstantPart()(i);
      v = std::max(v, (ax * x + ay * y + b) / std::hypot(ax, ay));
    }
    return v;
  }

  template <typename S> std::vector<P2> asP2(const VV2<S>& v)
  {
    std::vector<P2> o;
    for (const auto& p : v) o.push_back(P2{p(0), p(1)});
    return o;
  }
  std::string show(const std::vector<P2>& v)
  {
    std::string s;
    for (const P2& p : v) s += "(" + str(p.x) + "," + str(p.y) + ") ";
    return s;
  }
  template <typename S> void sizes(Ctx& c, const ConvexPolygon<S>& p)
  {
    c.check(p.getGeneralConstraintsMatrixCoefsForX().size() == p.getNbGeneralConstraints() &&
            p.getGeneralConstraintsMatrixCoefsForY().size() == p.getNbGeneralConstraints(),
            "the general constraints have parts of different sizes");
    c.check(p.getNbVertices() == static_cast<int>(p.getVertices().size()), "number of vertices");
  }
}

TYPED_LAW(hull_of_grid_points,
          "1-14 points on a grid of 2 mm to 0.5 m, shifted, with duplicates and collinear points "
          "in any order; the vertices against the exact integer hull, the constraints against "
          "exact membership of points on a finer grid; non-trivial: at least 3 corners and a "
          "point that is not one", 12000, 300000)
{
  const int n = c.integer(1, 14);
  const int span = c.integer(1, 12);
  const int shape = c.below(10);
  std::vector<IP> ip;
  for (int i = 0; i < n; ++i)
  {
    IP p;
    if (!ip.empty() && c.chance(1, 6)) p = ip[c.below(static_cast<int>(ip.size()))];
    else if (ip.size() >= 2 && c.chance(1, 5))
    {
      // on the line through two earlier points
      const IP a = ip[c.below(static_cast<int>(ip.size()))];
      const IP b = ip[c.below(static_cast<int>(ip.size()))];
      p = c.flip() ? IP{2 * b.x - a.x, 2 * b.y - a.y} : IP{(a.x + b.x) / 2, (a.y + b.y) / 2};
      if (std::labs(p.x) > 24 || std::labs(p.y) > 24) p = a;
    }
    else p = IP{c.below(2 * span + 1) - span, shape == 1 ? 0 : c.below(2 * span + 1) - span};
    if (shape == 2) p.x = 3;
    ip.push_back(p);
  }
  const bool isFloat = std::is_same<Scalar, float>::value;
  const R step = c.pick<R>(isFloat ? std::vector<R>{0.01L, 0.05L, 0.5L, 0.125L}
                                   : std::vector<R>{0.002L, 0.01L, 0.05L, 0.5L, 0.125L});
  // far from the origin the documented merging of points closer than 1e-4 (relative) is larger
  const R reach = std::min<R>(isFloat ? 1 : 5, step * 400);
  const R ox = c.real(-1, 1) * reach, oy = c.real(-1, 1) * reach;
  VV2<Scalar> pts;
  for (const IP& p : ip)
    pts.push_back(V2<Scalar>(static_cast<Scalar>(ox + step * p.x),
                             static_cast<Scalar>(oy + step * p.y)));
  const std::vector<IP> want = corners(ip);
  c.nontrivial(want.size() >= 3 && static_cast<int>(want.size()) < n);
  c.label(want.size() == 1, "one point");
  c.label(want.size() == 2, "a segment");
  c.label(static_cast<int>(want.size()) == n && n > 2, "every point is a corner");
  std::string text;
  for (const IP& p : ip) text += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ") ";
  c.note("grid ", step, " origin (", ox, ",", oy, ") points ", text);
  const VV2<Scalar> copy = pts;
  std::unique_ptr<ConvexPolygon<Scalar> > poly(new ConvexPolygon<Scalar>(pts));
  c.check(pts == copy, "the given points were changed");
  sizes(c, *poly);
  const VV2<Scalar>& got = poly->getVertices();
  c.note("vertices ", show(asP2<Scalar>(got)));
  if (got.size() != want.size())
    c.fail("the hull has " + std::to_string(got.size()) + " vertices, expected " +
           std::to_string(want.size()));
  // the same corners in the same cyclic order, each one of the given points
  std::vector<IP> gotI;
  for (const auto& v : got)
  {
    const R gx = (static_cast<R>(v(0)) - ox) / step, gy = (static_cast<R>(v(1)) - oy) / step;
    gotI.push_back(IP{std::lround(gx), std::lround(gy)});
    c.check(std::find(pts.begin(), pts.end(), v) != pts.end(), "a vertex is not a given point");
  }
  if (!want.empty())
  {
    auto first = std::find(gotI.begin(), gotI.end(), want[0]);
    c.check(first != gotI.end(), "a corner of the hull is missing");
    std::rotate(gotI.begin(), first, gotI.end());
  }
  for (std::size_t i = 0; i < want.size(); ++i)
    c.check(gotI[i] == want[i], "the vertices are not the corners in counter-clockwise order");
  const VV2<Scalar> again = ConvexPolygon<Scalar>::extractVertices(pts);
  c.check(again == got, "the extracted vertices differ from those of the polygon");
  if (want.size() < 3) return;

  // membership of points on a finer grid
  const R tol = 200 * eps<Scalar>() * (std::abs(ox) + std::abs(oy) + 60 * step);
  for (int k = 0; k < 24; ++k)
  {
    IP q;
    if (c.flip())
    {
      // near a corner or the middle of an edge
      const std::size_t i = c.below(static_cast<int>(want.size()));
      const IP a = want[i], b = want[(i + 1) % want.size()];
      q = c.flip() ? IP{4 * a.x, 4 * a.y} : IP{2 * (a.x + b.x), 2 * (a.y + b.y)};
      q.x += c.below(5) - 2;
      q.y += c.below(5) - 2;
    }
    else q = IP{c.below(9 * span + 5) - 4 * span - 2, c.below(9 * span + 5) - 4 * span - 2};
    bool in = true, edge = false;
    for (std::size_t i = 0; i < want.size(); ++i)
    {
      const IP a = {4 * want[i].x, 4 * want[i].y};
      const IP b = {4 * want[(i + 1) % want.size()].x, 4 * want[(i + 1) % want.size()].y};
      const long s = icross(a, b, q);
      if (s < 0) in = false;
      if (s == 0) edge = true;
    }
    const R v = violated(*poly, ox + step * q.x / 4, oy + step * q.y / 4);
    const std::string at = " (" + std::to_string(q.x) + "/4," + std::to_string(q.y) + "/4)";
    if (in && !(v <= tol)) c.fail("the constraints reject a point of the hull" + at);
    // an outside point on the finer grid is clearly outside: at least step/4/(edge length)
    if (!in && !(v > tol)) c.fail("the constraints accept a point outside the hull" + at);
    if (in && !edge && !(v < 0)) c.fail("the constraints are tight at an inner point" + at);
    c.label(in && edge, "point on an edge");
    c.label(in && !edge, "inner point");
    c.label(!in, "outer point");
  }
}

TYPED_LAW(hull_of_any_points,
          "0-12 arbitrary points, some of them nearly equal, nearly collinear or far away: "
          "construction succeeds, every vertex is a given point, every given point is in the "
          "polygon, and the constraints agree with the vertices; non-trivial: at least 4 points",
          12000, 300000)
{
  const int n = c.integer(0, 12);
  const R far = c.chance(1, 5) ? 50 : 0;
  const R size = c.logReal(0.02, 4);
  VV2<Scalar> pts;
  for (int i = 0; i < n; ++i)
  {
    R x, y;
    if (pts.size() >= 1 && c.chance(1, 5))
    {
      const V2<Scalar>& a = pts[c.below(static_cast<int>(pts.size()))];
      const R d = c.pick<R>({0, 1e-9L, 1e-6L, 5e-5L, 2e-4L, 1e-3L});
      x = a(0) + d * (c.below(3) - 1);
      y = a(1) + d * (c.below(3) - 1);
    }
    else if (pts.size() >= 2 && c.chance(1, 4))
    {
      const V2<Scalar>& a = pts[c.below(static_cast<int>(pts.size()))];
      const V2<Scalar>& b = pts[c.below(static_cast<int>(pts.size()))];
      const R t = c.real(-1, 2), d = c.pick<R>({0, 1e-9L, 1e-6L, 5e-5L, 2e-4L, 1e-3L});
      x = a(0) + t * (b(0) - a(0)) + d * (c.below(3) - 1);
      y = a(1) + t * (b(1) - a(1)) + d * (c.below(3) - 1);
    }
    else
    {
      x = far + c.real(-1, 1) * size;
      y = c.real(-1, 1) * size - far;
    }
    pts.push_back(V2<Scalar>(static_cast<Scalar>(x), static_cast<Scalar>(y)));
  }
  c.nontrivial(n >= 4);
  c.note("points ", show(asP2<Scalar>(pts)));
  std::unique_ptr<ConvexPolygon<Scalar> > poly(new ConvexPolygon<Scalar>(pts));
  sizes(c, *poly);
  const VV2<Scalar>& got = poly->getVertices();
  const std::vector<P2> g = asP2<Scalar>(got);
  c.note("vertices ", show(g));
  c.check(got.size() <= pts.size() && got.empty() == pts.empty(), "number of vertices");
  for (const auto& v : got)
    c.check(std::find(pts.begin(), pts.end(), v) != pts.end(), "a vertex is not a given point");
  if (n == 0)
  {
    c.check(violated(*poly, 1e6L, -1e6L) <= 0, "the empty polygon constrains something");
    return;
  }
  // every given point is in the region of the vertices, up to the merging tolerance
  // directions closer than 1e-4 and points closer than 1e-4 (relative to their distance to the
  // origin) may be merged
  R extent = 0, dist = 0;
  for (const auto& p : pts)
  {
    dist = std::max<R>(dist, p.norm());
    for (const auto& q : pts) extent = std::max<R>(extent, (p - q).norm());
  }
  const R tol = 1e-3L * (extent + dist) + 5e-4L;
  const std::vector<P2> h = hull(asP2<Scalar>(pts));
  if (g.size() >= 3)
    for (const auto& p : pts)
    {
      const R d = outside(hull(g), P2{p(0), p(1)});
      if (d > tol) c.fail("a given point is " + str(d) + " outside the polygon's vertices");
    }
  for (std::size_t i = 0; i < g.size() && g.size() >= 3; ++i)
  {
    const P2 a = g[i], b = g[(i + 1) % g.size()], d = g[(i + 2) % g.size()];
    if (cross(a, b, d) / std::hypot(b.x - a.x, b.y - a.y) < -tol)
      c.fail("the vertices turn clockwise");
  }
  R width = std::numeric_limits<R>::infinity();
  for (std::size_t i = 0; i < h.size(); ++i)
  {
    const P2 a = h[i], b = h[(i + 1) % h.size()];
    const R len = std::hypot(b.x - a.x, b.y - a.y);
    R w = 0;
    for (const P2& p : h) w = std::max(w, len > 0 ? cross(a, b, p) / len : 0);
    width = std::min(width, w);
  }
  if (h.size() < 3 || width < 4 * tol) { c.label("too flat to judge its constraints"); return; }
  c.label("judged");
  // the widest extent bounds how a corner can move: compare regions along random directions
  for (int k = 0; k < 16; ++k)
  {
    const P2 a = h[c.below(static_cast<int>(h.size()))], b = h[c.below(static_cast<int>(h.size()))];
    const R t = c.real(-0.5, 1.5);
    P2 q = {a.x + t * (b.x - a.x) + c.real(-0.2, 0.2) * extent,
            a.y + t * (b.y - a.y) + c.real(-0.2, 0.2) * extent};
    const R d = outside(h, q), v = violated(*poly, q.x, q.y);
    const std::string at = " (" + str(q.x) + "," + str(q.y) + ")";
    if (d < -tol && !(v <= 0)) c.fail("the constraints reject a point of the hull" + at);
    if (d > tol && !(v > 0)) c.fail("the constraints accept a point outside the hull" + at);
    c.label(d < -tol, "inner point");
    c.label(d > tol, "outer point");
  }
}

TYPED_LAW(angle_between_vectors,
          "two random vectors: the signed angle, also when parallel, opposite or null; "
          "non-trivial: neither is null", 8000, 100000)
{
  const R pi = std::acos(R(-1));
  V2<Scalar> a(static_cast<Scalar>(c.real(-3, 3)), static_cast<Scalar>(c.real(-3, 3))), b;
  const int k = c.below(4);
  if (k == 0) b = V2<Scalar>(static_cast<Scalar>(c.real(-3, 3)), static_cast<Scalar>(c.real(-3, 3)));
  else
  {
    const Scalar s = static_cast<Scalar>(c.logReal(0.01, 10));
    b = k == 1 ? V2<Scalar>(a * s) : k == 2 ? V2<Scalar>(-a * s) : V2<Scalar>(-a(1) * s, a(0) * s);
  }
  c.note("a=(", a(0), ",", a(1), ") b=(", b(0), ",", b(1), ")");
  const R got = ConvexPolygon<Scalar>::angleBetweenVecs(a, b);
  if (a.norm() < 1e-3 || b.norm() < 1e-3)
  {
    if (a.isZero(0) || b.isZero(0)) c.check(got == 0, "the angle with a null vector is not 0");
    else c.label("tiny");
    return;
  }
  c.nontrivial();
  const R x = static_cast<R>(a(0)) * b(0) + static_cast<R>(a(1)) * b(1);
  const R y = static_cast<R>(a(0)) * b(1) - static_cast<R>(a(1)) * b(0);
  const R want = std::atan2(y, x);
  R diff = std::abs(got - want);
  // opposite vectors: either sign
  diff = std::min(diff, std::abs(diff - 2 * pi));
  const R tol = 2e-3L;   // vectors within 1e-4 of each other count as equal
  if (!(diff <= tol)) c.fail("the angle is " + str(got) + ", expected " + str(want));
}
