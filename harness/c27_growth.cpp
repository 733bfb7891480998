// C27: what is used is given back, and running on does not use more and more memory.
#include "actors.h"
#include <cerrno>
#include <cstring>

// Every block that is allocated while counting is on is kept in a table until it is freed.
extern "C"
{
  void* __libc_malloc(std::size_t);
  void __libc_free(void*);
  void* __libc_calloc(std::size_t, std::size_t);
  void* __libc_realloc(void*, std::size_t);
  void* __libc_memalign(std::size_t, std::size_t);
}
namespace
{
  const std::size_t kSlots = std::size_t(1) << 20;
  struct Slot { std::uintptr_t at; std::size_t bytes; };
  Slot table[kSlots];
  bool counting = false;
  std::size_t live = 0, blocks = 0;

  std::size_t slotOf(std::uintptr_t p)
  {
    std::size_t i = (p >> 4) * 0x9E3779B97F4A7C15ull >> 44;
    while (table[i].at && table[i].at != p) i = (i + 1) % kSlots;
    return i;
  }
  void* took(void* p, std::size_t n)
  {
    if (!counting || !p) return p;
    if (blocks > kSlots / 2) std::abort();
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    Slot& s = table[slotOf(a)];
    s.at = a;
    s.bytes = n;
    live += n;
    ++blocks;
    return p;
  }
  void gave(void* p)
  {
    if (!p || !blocks) return;
    std::size_t i = slotOf(reinterpret_cast<std::uintptr_t>(p));
    if (!table[i].at) return;
    live -= table[i].bytes;
    --blocks;
    // close the gap
    for (std::size_t j = i;;)
    {
      table[i].at = 0;
      for (;;)
      {
        j = (j + 1) % kSlots;
        if (!table[j].at) return;
        const std::size_t home = (table[j].at >> 4) * 0x9E3779B97F4A7C15ull >> 44;
        if (i <= j ? (home <= i || home > j) : (home <= i && home > j)) break;
      }
      table[i] = table[j];
      i = j;
    }
  }
  struct Counting
  {
    Counting() { counting = true; }
    ~Counting() { counting = false; }
  };
  std::size_t bytesFor(std::size_t n) { return n ? n : 1; }
}
extern "C"
{
  void* malloc(std::size_t n) { return took(__libc_malloc(n), bytesFor(n)); }
  void free(void* p) { gave(p); __libc_free(p); }
  void* calloc(std::size_t n, std::size_t m) { return took(__libc_calloc(n, m), bytesFor(n * m)); }
  void* realloc(void* p, std::size_t n)
  {
    gave(p);
    return took(__libc_realloc(p, n), bytesFor(n));
  }
  void* memalign(std::size_t a, std::size_t n) { return took(__libc_memalign(a, n), bytesFor(n)); }
  void* aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
  int posix_memalign(void** p, std::size_t a, std::size_t n)
  {
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
  }
}

namespace
{
  /// Plays rounds of the same choices on one actor; the memory in use after each.
  std::vector<std::size_t> play(Actor& a, const std::vector<std::uint64_t>& choices, int steps,
                                int rounds)
  {
    static const std::map<std::string, std::string> none;
    std::vector<std::size_t> after;
    after.reserve(rounds);
    for (int r = 0; r < rounds; ++r)
    {
      {
        Counting on;
        Gen gen(&choices, false);
        Ctx ctx(gen, false, none);
        for (int i = 0; i < steps; ++i)
        {
          a.step(ctx);
          a.read(ctx);
        }
        Bits().swap(a.out);
      }
      after.push_back(live);
    }
    return after;
  }
  /// The least in use in the last quarter is more than the most in use in the first third.
  bool grows(const std::vector<std::size_t>& v)
  {
    const std::size_t n = v.size();
    return *std::min_element(v.end() - n / 4, v.end()) > *std::max_element(v.begin(), v.begin() + n / 3);
  }

  void growth(Ctx& c, int kind)
  {
    c.label(kNames[kind]);
    std::unique_ptr<Actor> a;
    const int steps = c.integer(1, 12);
    std::vector<std::uint64_t> choices;
    {
      Counting on;
      a = make(c, kind);
    }
    const std::size_t from = c.drawn().size();
    for (int i = 0; i < steps; ++i)
    {
      a->step(c);
      a->read(c);
    }
    choices.assign(c.drawn().begin() + from, c.drawn().end());
    std::vector<std::size_t> use;
    // the rounds differ in where they begin, and something may be made when it is first needed:
    // only what goes on and on counts
    int rounds = 24;
    for (; rounds <= 384; rounds *= 4)
    {
      use = play(*a, choices, steps, rounds);
      if (!grows(use)) break;
      c.label(rounds == 24 ? "grew at first" : rounds == 96 ? "grew again" : "grows");
    }
    if (rounds > 384)
      c.fail(std::string(kNames[kind]) + ": " + std::to_string(use.front()) +
             " bytes in use after " + std::to_string(24 + 96) + " rounds of the same " +
             std::to_string(steps) + " steps, " + std::to_string(use.back()) + " after " +
             std::to_string(384) + " more");
    c.note(kNames[kind], ": ", steps, " steps, ", use.front(), " bytes in use, later ", use.back());
    c.nontrivial(steps >= 2);
  }
}

LAW(released,
    "a run of a generator (any of the three, both precisions) or of its parts is made, then made "
    "again four times from its first object to the end of its last: after each the same memory is "
    "in use as after the first; non-trivial: three steps", 4000, 200000)
{
  const int kind = c.below(8);
  c.label(kNames[kind]);
  const Run r = alone(c, kind, c.integer(1, 12));
  std::size_t use[4];
  std::size_t most = 0;
  for (std::size_t& u : use)
  {
    {
      Counting on;
      Again b(r);
      while (!b.done()) b.step();
      most = std::max(most, live);
    }
    u = live;
  }
  c.note(kNames[kind], ": ", most, " bytes in use at the end of the run, left over ", use[0], " ",
         use[1], " ", use[2], " ", use[3]);
  c.check(!(use[0] < use[1] && use[1] < use[2] && use[2] < use[3]),
          std::string(kNames[kind]) + ": every run leaves " + std::to_string(use[3] - use[2]) +
          " bytes behind");
  c.nontrivial(r.steps >= 3);
}

LAW(generators_do_not_grow,
    "a generator is made and up to 12 steps (settings, commands, solves, reads) are drawn; these "
    "are then made 24 times over: the least memory in use in the last quarter of the rounds is not "
    "more than the most in the first third; otherwise 96 and then 384 rounds more, all of which have "
    "to grow for a failure; non-trivial: two steps", 4000, 100000)
{
  static const int kinds[] = {0, 1, 4, 5, 6, 7};
  growth(c, kinds[c.below(6)]);
}

LAW(parts_do_not_grow,
    "the same for the models, the feet supervisor, polygons and splines on their own", 3000, 150000)
{
  growth(c, 2 + c.below(2));
}
