// C24: objects are independent and runs are repeatable.
#include "actors.h"
#include <atomic>
#include <exception>
#include <thread>

// The failed solves of two threads may both write their diagnostics to the standard error stream
// of the process, whose formatting state is shared by its nature.
extern "C" const char* __tsan_default_suppressions()
{
  return "race:Eigen::internal::print_matrix\nrace:std::ios_base::\nrace:std::basic_ios\n"
         "race:std::basic_ostream\n";
}

namespace
{
  /// two runs, most often of the same class
  void pair(Ctx& c, int most, Run& a, Run& b)
  {
    const int kind = c.below(8), other = c.chance(3, 4) ? (c.flip() ? kind : kind ^ 1) : c.below(8);
    c.label(kNames[kind]);
    c.label(kind == other, "one class");
    a = alone(c, kind, c.integer(1, most));
    b = alone(c, other, c.integer(1, most));
    c.note(kNames[kind], " ", a.steps, " steps, ", kNames[other], " ", b.steps, " steps");
  }
}

LAW(interleaved,
    "a run of a generator or of its parts is made alone, so is another; then both are made again, "
    "step by step in a random order, one of them possibly before the other or ending before it: "
    "every output of both is the same to the bit; non-trivial: the steps of both alternate", 12000,
    600000)
{
  Run a, b;
  pair(c, 12, a, b);
  std::unique_ptr<Again> x(new Again(a)), y(new Again(b));
  int turns = 0;
  bool last = false, first = true;
  while (!x->done() || !y->done())
  {
    const bool second = x->done() ? true : y->done() ? false : c.flip();
    if (!first && second != last) ++turns;
    first = false;
    last = second;
    (second ? y : x)->step();
    if (x->done() && c.flip())
    {
      // the first one's objects are gone before the second ends
      same(c, a, x->out(), "beside another run");
      if (!y->done()) { x->end(); c.label("outlived"); while (!y->done()) y->step(); }
      same(c, b, y->out(), "after another run's objects are gone");
      c.nontrivial(turns >= 2);
      return;
    }
  }
  same(c, a, x->out(), "beside another run");
  same(c, b, y->out(), "beside another run");
  c.nontrivial(turns >= 2);
}

LAW(in_two_threads,
    "the same, each run in a thread of its own; under ThreadSanitizer any unsynchronised access of "
    "both to the same memory is a failure; non-trivial: both runs use the same class", 6000, 200000)
{
  Run a, b;
  pair(c, 10, a, b);
  c.nontrivial(a.kind == b.kind || (a.kind ^ 1) == b.kind);
  for (int round = 0; round < 2; ++round)
  {
    Bits out[2];
    std::string error[2];
    std::atomic<int> ready(0);
    auto body = [&](int i, const Run& r)
    {
      try
      {
        ++ready;
        while (ready < 2) {}
        Again g(r);
        while (!g.done()) g.step();
        out[i] = g.out();
      }
      catch (const std::exception& e) { error[i] = e.what(); }
      catch (...) { error[i] = "a run cannot be repeated"; }
    };
    std::thread s([&] { body(0, a); }), t([&] { body(1, b); });
    s.join();
    t.join();
    for (int i = 0; i < 2; ++i)
      if (!error[i].empty()) c.fail("in a thread of its own: " + error[i]);
    same(c, a, out[0], "beside a run in another thread");
    same(c, b, out[1], "beside a run in another thread");
  }
}
