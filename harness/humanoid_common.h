// Reference for the walking phases, and random walking histories.
#pragma once
#include "models_common.h"
#include <mpc-walkgen/humanoid_feet_supervisor.h>
#include <mpc-walkgen/humanoid_walkgen.h>
#include <memory>

namespace mpcv
{
  using MPCWalkgen::ConvexPolygon;
  using MPCWalkgen::HumanoidFeetSupervisor;

  /// The support phases, simulated in whole ticks of time.
  struct PhaseSim
  {
    enum Type { DS = 0, Left = 1, Right = 2 };   // the support foot
    int N, k;            // samples, ticks per sample
    int step, ds;        // configured durations
    bool move;
    int type, duration, remaining, next;
    // what is previewed, from the last cycle
    int toNextSample, M;
    std::vector<int> phaseOf;   // of each sample: type of its phase
    std::vector<int> column;    // of each sample: previewed step it stands on, -1: the current
    std::vector<int> stanceOf;  // of each previewed step: the foot that stands while it is made
    bool stepEnded;             // the last cycle entered a new phase after a step

    PhaseSim(int N_, int k_) : N(N_), k(k_), step(2 * k_), ds(2 * k_), move(false), type(DS),
                               duration(2 * k_), remaining(2 * k_), next(DS), toNextSample(0),
                               M(0), stepEnded(false) {}
    int follow(int t) const
    { return t == DS ? (move ? Left : DS) : !move ? DS : t == Left ? Right : Left; }
    int length(int t) const { return t == DS ? ds : step; }
    void beginCycle()
    {
      stepEnded = false;
      if (remaining == 0)
      {
        stepEnded = type != DS;
        // a phase is decided when it comes into the horizon
        type = next < 0 ? follow(type) : next;
        duration = remaining = length(type);
      }
      next = remaining <= N * k ? follow(type) : -1;
      toNextSample = (remaining - 1) % k + 1;
      const int last = toNextSample + (N - 1) * k;
      phaseOf.clear(); column.clear(); stanceOf.clear();
      M = 0;
      int t = type, end = remaining, index = 0;
      for (int i = 0; i < N; ++i)
      {
        const int time = toNextSample + i * k;
        while (end <= time)
        {
          if (t != DS) { stanceOf.push_back(t); ++M; }
          t = follow(t);
          end += length(t);
          ++index;
        }
        phaseOf.push_back(t);
        int col;
        if (type == DS) col = move && index > 1 ? index - 2 : -1;
        else col = index == 0 ? -1 : move ? index - 1 : 0;
        column.push_back(col);
      }
      (void)last;
    }
    void endCycle(int f) { remaining -= f; }
    bool swinging() const { return type != DS && duration - remaining >= k; }
  };

  template <typename S> VV2<S> points(const std::vector<P2>& p)
  {
    VV2<S> v;
    for (const P2& q : p)
    { V2<S> a; a << static_cast<S>(q.x), static_cast<S>(q.y); v.push_back(a); }
    return v;
  }
  template <typename S> std::vector<P2> points(const VV2<S>& p)
  {
    std::vector<P2> v;
    for (const V2<S>& q : p) v.push_back(P2{q(0), q(1)});
    return v;
  }
  template <typename S> bool sameVertices(const ConvexPolygon<S>& a, const ConvexPolygon<S>& b)
  {
    if (a.getNbVertices() != b.getNbVertices()) return false;
    for (int i = 0; i < a.getNbVertices(); ++i)
      if (a.getVertices()[i] != b.getVertices()[i]) return false;
    return true;
  }
  /// A convex polygon around (cx, cy) with clearly separated corners: a box, a triangle, or
  /// corners on an ellipse.
  template <typename S> VV2<S> genPolygon(Ctx& c, R cx, R cy, R rx, R ry)
  {
    std::vector<P2> p;
    const int kind = c.below(4);
    if (kind == 0)
    {
      p = {{cx - rx, cy - ry}, {cx + rx, cy - ry}, {cx + rx, cy + ry}, {cx - rx, cy + ry}};
    }
    else if (kind == 1)
    {
      p = {{cx - rx, cy - ry}, {cx + rx, cy - ry / 2}, {cx - rx / 3, cy + ry}};
    }
    else if (kind == 2)   // a box with cut corners: bounds and general rows together
    {
      p = {{cx - rx, cy - ry / 2}, {cx - rx / 2, cy - ry}, {cx + rx, cy - ry},
           {cx + rx, cy + ry / 3}, {cx + rx / 3, cy + ry}, {cx - rx, cy + ry}};
    }
    else
    {
      const int n = c.integer(3, 7);
      const R turn = c.real(0, 1);
      for (int i = 0; i < n; ++i)
      {
        const R a = 2 * 3.14159265358979323846L * (i + turn) / n;
        p.push_back(P2{cx + rx * std::cos(a), cy + ry * std::sin(a)});
      }
    }
    return points<S>(p);
  }

  /// The hull is known up to 1e-4 (rad for aligned points, m for edges parallel to an axis and
  /// for copies): scenes with such an almost aligned, parallel or equal pair are not compared,
  /// exactly aligned, parallel or equal ones are.
  inline bool slanted(const std::vector<P2>& p, R exact = 1e-10L)
  {
    auto almost = [exact](R v) { return v > exact && v < 4e-4L; };
    const std::vector<P2> h = hull(p);
    for (size_t i = 0; i < h.size(); ++i)
    {
      const P2 &a = h[i], &b = h[(i + 1) % h.size()];
      const R dx = b.x - a.x, dy = b.y - a.y, l = std::hypot(dx, dy);
      if (almost(std::abs(dx)) || almost(std::abs(dy)) || almost(l)) return false;
      for (const P2& q : p)
      {
        const R ex = q.x - a.x, ey = q.y - a.y, k = std::hypot(ex, ey);
        if (almost(k)) return false;
        if (dx * ex + dy * ey > 0 && almost(std::abs(dx * ey - dy * ex) / (l * k))) return false;
      }
    }
    return true;
  }
  inline bool slanted(const VV2<double>& v, R exact = 1e-10L)
  { return v.empty() || slanted(points<double>(v), exact); }
  inline bool slanted(const VV2<float>& v, R exact = 1e-10L)
  { return v.empty() || slanted(points<float>(v), exact); }

  /// A feet supervisor with its reference, moved through a history together.
  template <typename S> struct Walk
  {
    int k, f;          // ticks per sample, ticks per cycle
    S T, tick;
    std::unique_ptr<HumanoidFeetSupervisor<S> > sup;
    PhaseSim sim;
    VX<S> variable;
    VV2<S> copL, copR, kinL, kinR;
    ConvexPolygon<S> pCopL, pCopR, pKinL, pKinR;
    S maxL, maxR;
    MPCWalkgen::HumanoidWalkgen<S>* gen;   // a generator that gets the same commands, or null
    bool midStepChange;   // the step period or height changed during the current step

    Walk(Ctx& c, int maxN = 10)
      : k(c.chance(1, 6) ? c.pick<int>({10, 20, 40}) : c.pick<int>({1, 2, 4, 5, 3, 6})),
        f(k < 10 ? 1 : k / c.pick<int>({10, 5, 2, 1})),
        T(static_cast<S>(c.pick<double>({0.1, 0.05, 0.125, 0.2, 0.08}))),
        tick(T / static_cast<S>(k)), sim(2, k), gen(nullptr), midStepChange(false)
    {
      const int N = c.integer(1, maxN);
      sim = PhaseSim(N, k);
      if (c.chance(1, 4))
      {
        // the default constructor has one sample of one second
        sup.reset(new HumanoidFeetSupervisor<S>());
        sim.step = sim.ds = sim.duration = sim.remaining = 2 * k;
        // its periods are then given explicitly below; reach them from 2 seconds
        sup->setNbSamples(N);
        sup->setSamplingPeriod(T);
        sup->setStepPeriod(2 * T);
        sup->setInitialDoubleSupportLength(2 * T);
      }
      else
        sup.reset(new HumanoidFeetSupervisor<S>(N, T));
      variable.setZero(2 * N);
      for (int i = 0; i < 2 * N; ++i) variable(i) = static_cast<S>(c.real(-0.05, 0.05));
      const R w = c.real(0.06, 0.12);
      VX<S> s = VX<S>::Zero(3);
      const R ox = c.real(-2, 2), oy = c.real(-2, 2);
      s(0) = static_cast<S>(ox + c.real(-0.1, 0.1)); sup->setLeftFootStateX(s);
      s(0) = static_cast<S>(oy + w); sup->setLeftFootStateY(s);
      s(0) = static_cast<S>(ox + c.real(-0.1, 0.1)); sup->setRightFootStateX(s);
      s(0) = static_cast<S>(oy - w); sup->setRightFootStateY(s);
      s(0) = 0; sup->setLeftFootStateZ(s); sup->setRightFootStateZ(s);
      copL = genPolygon<S>(c, c.real(-0.02, 0.04), c.real(0, 0.01), 0.08L, 0.04L);
      copR = genPolygon<S>(c, c.real(-0.02, 0.04), c.real(-0.01, 0), 0.07L, 0.03L);
      // while the left foot stands the right one lands on its right
      kinL = genPolygon<S>(c, c.real(0, 0.1), -2 * w - 0.08L, 0.25L, 0.07L);
      kinR = genPolygon<S>(c, c.real(0, 0.1), 2 * w + 0.08L, 0.25L, 0.07L);
      pCopL = ConvexPolygon<S>(copL); pCopR = ConvexPolygon<S>(copR);
      pKinL = ConvexPolygon<S>(kinL); pKinR = ConvexPolygon<S>(kinR);
      sup->setLeftFootCopConvexPolygon(pCopL);
      sup->setRightFootCopConvexPolygon(pCopR);
      sup->setLeftFootKinematicConvexPolygon(pKinL);
      sup->setRightFootKinematicConvexPolygon(pKinR);
      maxL = static_cast<S>(c.real(0.01, 0.1));
      maxR = static_cast<S>(c.real(0.01, 0.1));
      // a foot whose height nobody sets stays on the ground
      if (!(maxL > S(0.0101))) { maxL = 0; c.label("step height not set"); }
      else sup->setLeftFootMaxHeight(maxL);
      if (!(maxR > S(0.0101))) maxR = 0;
      else sup->setRightFootMaxHeight(maxR);
      setDS(k * c.integer(1, 3));
      // the horizon covers at least a whole step
      setStep(k * c.integer(2, std::max(2, std::min(8, N))));
      // before the first cycle the feedback period is the sampling period
      c.check(sup->getNbOfCallsBeforeNextSample() == 1, "before the first cycle there are " +
              std::to_string(sup->getNbOfCallsBeforeNextSample()) + " calls before the next sample");
      c.note("N=", N, " T=", T, " ticks/sample=", k, " step=", sim.step, " DS=", sim.ds);
    }
    bool covers(int step) const { return step <= sim.N * k || step <= 2 * k; }
    S time(int ticks) const { return T * static_cast<S>(ticks) / static_cast<S>(k); }
    bool setStep(int ticks)
    {
      if (sim.type != PhaseSim::DS)
      {
        if (sim.remaining + ticks - sim.step <= 0) return false;
        sim.remaining += ticks - sim.step;
        sim.duration += ticks - sim.step;
        midStepChange = true;
      }
      sim.step = ticks;
      sup->setStepPeriod(time(ticks));
      if (gen) gen->setStepPeriod(time(ticks));
      return true;
    }
    bool setDS(int ticks)
    {
      if (sim.type == PhaseSim::DS)
      {
        // it may end now, but not in the past
        if (sim.remaining + ticks - sim.ds < 0) return false;
        sim.remaining += ticks - sim.ds;
        sim.duration += ticks - sim.ds;
      }
      sim.ds = ticks;
      sup->setInitialDoubleSupportLength(time(ticks));
      if (gen) gen->setInitialDoubleSupportLength(time(ticks));
      return true;
    }
    void setMove(bool m) { sim.move = m; sup->setMove(m); if (gen) gen->setMove(m); }
    /// a random command, most often none
    void command(Ctx& c, bool timings = true)
    {
      if (sim.remaining % k == 0 && c.chance(1, 6))
      {
        std::vector<int> d;
        for (int i = 1; i <= k; ++i) if (k % i == 0) d.push_back(i);
        f = c.pick(d);
      }
      switch (c.below(12))
      {
        case 11: case 10:
          setMove(!sim.move); c.note(sim.move ? "walk" : "stop", " remaining=", sim.remaining);
          break;
        case 9:
          if (!timings) break;
          { const int t = k * c.integer(2, 8);
            if (covers(t) && setStep(t)) c.note("step=", t, " remaining=", sim.remaining); }
          break;
        case 8:
          if (!timings) break;
          { const int t = k * c.integer(1, 4);
            if (setDS(t)) c.note("DS=", t, " remaining=", sim.remaining); }
          break;
        default: break;
      }
    }
    S feedback() const { return time(f); }
    void beginCycle()
    {
      if (sim.remaining == 0) midStepChange = false;
      sim.beginCycle();
      sup->updateTimeline(variable, feedback());
    }
    void endCycle()
    {
      VX<S> steps = variable.tail(2 * sim.M);
      sup->updateFeetStates(steps, feedback());
      sim.endCycle(f);
    }
    /// plan anything within reach
    void plan(Ctx& c)
    {
      const int N = sim.N, M = sim.M;
      R x = sup->getSupportFootStateX()(0), y = sup->getSupportFootStateY()(0);
      for (int j = 0; j < M; ++j)
      {
        const bool left = sim.stanceOf[j] == PhaseSim::Left;
        const VV2<S>& p = left ? kinL : kinR;
        R mx = 0, my = 0;
        for (const V2<S>& q : p) { mx += q(0) / R(p.size()); my += q(1) / R(p.size()); }
        x += mx + c.real(-0.05, 0.05); y += my + c.real(-0.03, 0.03);
        variable(2 * N + j) = static_cast<S>(x);
        variable(2 * N + M + j) = static_cast<S>(y);
      }
      for (int i = 0; i < 2 * N; ++i) variable(i) = static_cast<S>(c.real(-0.1, 0.1));
    }
  };

  /// The support polygon of a sample, around the point its CoP is relative to.
  template <typename S> std::vector<P2> support(const Walk<S>& w, int i, const VX<S>& x0)
  {
    const PhaseSim& r = w.sim;
    if (r.phaseOf[i] == PhaseSim::Left) return hull(points<S>(w.copL));
    if (r.phaseOf[i] == PhaseSim::Right) return hull(points<S>(w.copR));
    P2 l = {w.sup->getLeftFootStateX()(0), w.sup->getLeftFootStateY()(0)};
    P2 q = {w.sup->getRightFootStateX()(0), w.sup->getRightFootStateY()(0)};
    P2 o;
    if (r.type == PhaseSim::DS) o = r.move ? l : P2{(l.x + q.x) / 2, (l.y + q.y) / 2};
    else
    {
      // both feet after the step that ends the walk
      o = P2{x0(2 * r.N), x0(2 * r.N + r.M)};
      (r.type == PhaseSim::Left ? q : l) = o;
    }
    std::vector<P2> p;
    for (const V2<S>& v : w.copL) p.push_back(P2{v(0) + l.x - o.x, v(1) + l.y - o.y});
    for (const V2<S>& v : w.copR) p.push_back(P2{v(0) + q.x - o.x, v(1) + q.y - o.y});
    return hull(p);
  }
}
