// A small property-based testing engine.
//
// A case is a sequence of choices (unsigned integers).  A generator draws every random
// decision through Gen::draw(), so a case can be replayed from its choices alone and shrunk
// by editing the sequence (deleting, zeroing and lowering choices).  The random source of case
// number i of a law is seeded from (VERIF_SEED, law name, i): a run is a pure function of the
// code under test and the seed.  Cases run in forked workers, so that a crash, a hang or an
// abort in the code under test is a failure of one case and not of the engine.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace mpcv
{
  /// The case is outside the domain of the law: counted, not judged.
  struct Discard {};
  /// An enumerated defect of the code under test that is listed in known_findings.json.
  struct KnownFinding { std::string tag; };
  struct Failure : std::runtime_error
  {
    explicit Failure(const std::string& m) : std::runtime_error(m) {}
  };
  /// A failed assert() of the code under test (see stubs/assert.h).
  struct AssertionFailure : std::runtime_error
  {
    explicit AssertionFailure(const std::string& m) : std::runtime_error(m) {}
  };

  class Gen
  {
  public:
    explicit Gen(std::uint64_t seed) : state_(seed), replay_(nullptr), own_(true) {}
    /// own: the choices of the case itself, not of a part of it that is played again
    explicit Gen(const std::vector<std::uint64_t>* replay, bool own = true)
      : state_(0), replay_(replay), own_(own) {}

    /// A choice in [0, n), n >= 1.  0 is the simplest one.
    std::uint64_t draw(std::uint64_t n);

    const std::vector<std::uint64_t>& used() const { return used_; }

  private:
    std::uint64_t next();
    std::uint64_t state_;
    const std::vector<std::uint64_t>* replay_;
    bool own_;
    std::vector<std::uint64_t> used_;
  };

  class Ctx
  {
  public:
    Ctx(Gen& gen, bool verbose, const std::map<std::string, std::string>& known)
      : gen_(gen), verbose_(verbose), nontrivial_(false), traced_(0), known_(known) {}

    // ---- generators ---------------------------------------------------------
    int below(int n) { return static_cast<int>(gen_.draw(static_cast<std::uint64_t>(n))); }
    bool flip() { return gen_.draw(2) == 1; }
    /// true with probability k/n
    bool chance(int k, int n) { return below(n) >= n - k; }
    /// integer in [lo, hi], with some extra weight on both ends
    int integer(int lo, int hi);
    /// a real number in [lo, hi]: zero or lo, a coarse grid point, or anything
    double real(double lo, double hi);
    /// a positive real spread evenly over orders of magnitude
    double logReal(double lo, double hi);
    template <typename T> T pick(const std::vector<T>& v)
    { return v[static_cast<std::size_t>(gen_.draw(v.size()))]; }

    /// What has been drawn so far; a part of it can be played again to the same code.
    const std::vector<std::uint64_t>& drawn() const { return gen_.used(); }

    // ---- bookkeeping --------------------------------------------------------
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    void label(const std::string& l) { labels_[l] = 1; }
    void label(bool b, const std::string& l) { if (b) labels_[l] = 1; }
    bool verbose() const { return verbose_; }
    template <typename... A> void note(const A&... a)
    {
      if (!verbose_) return;
      int dummy[] = {0, (put(a), 0)...};
      (void)dummy;
      notes_ << "\n";
      if (std::getenv("MPCV_TRACE"))   // as it goes, for cases that crash
      {
        const std::string all = notes_.str();
        std::fputs(all.substr(traced_).c_str(), stderr);
        traced_ = all.size();
      }
    }
    std::string notes() const { return notes_.str(); }
    bool isNontrivial() const { return nontrivial_; }
    const std::map<std::string, int>& labels() const { return labels_; }
    const std::map<std::string, int>& knownHits() const { return knownHits_; }

    // ---- verdicts -----------------------------------------------------------
    [[noreturn]] void fail(const std::string& why) { throw Failure(why); }
    void check(bool ok, const std::string& why) { if (!ok) fail(why); }
    /// |a - b| <= tol, and both finite
    void near(double a, double b, double tol, const std::string& what);
    /// The behaviour exactly matches a listed defect: counted when it is listed, a failure
    /// otherwise.
    void known(const std::string& tag, const std::string& why);
    [[noreturn]] void discard() { throw Discard(); }

  private:
    template <typename A> void put(const A& a) { notes_ << a; }
    Gen& gen_;
    bool verbose_;
    bool nontrivial_;
    std::size_t traced_;
    std::map<std::string, int> labels_;
    std::map<std::string, int> knownHits_;
    std::ostringstream notes_;
    const std::map<std::string, std::string>& known_;
  };

  struct Law
  {
    std::string name;
    std::string rule;   // how its cases are made and which are non-trivial
    int quick;          // number of cases, quick tier
    int thorough;       // number of cases, thorough tier
    std::function<void(Ctx&)> run;
  };

  std::vector<Law>& laws();

  struct RegisterLaw
  {
    RegisterLaw(const char* name, const char* rule, int quick, int thorough,
                std::function<void(Ctx&)> f)
    { laws().push_back(Law{name, rule, quick, thorough, f}); }
  };

  /// Run a piece of code of the harness itself during which a failed assertion or exception
  /// has the given meaning.
  template <typename F> std::string assertionIn(F f)
  {
    try { f(); }
    catch (const AssertionFailure& e) { return e.what(); }
    return std::string();
  }

  std::string str(double v);
}

#define MPCV_CAT2(a, b) a##b
#define MPCV_CAT(a, b) MPCV_CAT2(a, b)

#ifndef MPCV_PREFIX
#define MPCV_PREFIX ""
#endif

/// LAW(fn, "rule", quick, thorough) { body with Ctx& c }
#define LAW(fn, rule, quick, thorough)                                                   \
  static void fn(::mpcv::Ctx& c);                                                        \
  static ::mpcv::RegisterLaw MPCV_CAT(reg_, fn)(MPCV_PREFIX #fn, rule, quick, thorough, fn);         \
  static void fn(::mpcv::Ctx& c)

/// TYPED_LAW(fn, "rule", quick, thorough) { body with Ctx& c and type Scalar },
/// registered for double and for float (the float instance gets as many cases).
#define TYPED_LAW(fn, rule, quick, thorough)                                             \
  template <typename Scalar> static void fn(::mpcv::Ctx& c);                             \
  static ::mpcv::RegisterLaw MPCV_CAT(regd_, fn)(MPCV_PREFIX #fn ".double", rule, quick, thorough,   \
                                                 fn<double>);                            \
  static ::mpcv::RegisterLaw MPCV_CAT(regf_, fn)(MPCV_PREFIX #fn ".float", rule, quick, thorough,    \
                                                 fn<float>);                             \
  template <typename Scalar> static void fn(::mpcv::Ctx& c)
