#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mpcv
{
  namespace
  {
    const int kWorkers = 8;
    const int kCaseCpuSeconds = 20;    // a case normally takes milliseconds
    const std::size_t kMsgSize = 1 << 16;
    const std::size_t kMaxChoices = 1 << 16;

    std::uint64_t mix(std::uint64_t z)
    {
      z += 0x9E3779B97F4A7C15ull;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }
    std::uint64_t hashStr(const std::string& s)
    {
      std::uint64_t h = 1469598103934665603ull;
      for (char ch : s) { h ^= static_cast<unsigned char>(ch); h *= 1099511628211ull; }
      return h;
    }
    double now()
    {
      return std::chrono::duration<double>(
          std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    std::string jsonEscape(const std::string& s)
    {
      std::string o;
      for (char ch : s)
      {
        switch (ch)
        {
          case '"': o += "\\\""; break;
          case '\\': o += "\\\\"; break;
          case '\n': o += "\\n"; break;
          case '\t': o += "\\t"; break;
          default:
            if (static_cast<unsigned char>(ch) < 0x20) o += ' ';
            else o += ch;
        }
      }
      return o;
    }

    enum Status { kPass = 0, kFail = 1, kDiscard = 2, kCrash = 3 };
    struct CaseResult
    {
      Status status = kPass;
      std::string message, notes;
      bool nontrivial = false;
      std::vector<std::uint64_t> choices;
      std::map<std::string, int> labels, knownHits;
    };

    void setCaseTimer(int seconds)
    {
      itimerval t;
      std::memset(&t, 0, sizeof t);
      t.it_value.tv_sec = seconds;
      setitimer(ITIMER_PROF, &t, nullptr);
    }

    // --crashes-only 1: only crashes, sanitiser reports, failed assertions and exceptions count
    bool g_crashesOnly = false;

    CaseResult runCase(const Law& law, Gen& gen, bool verbose,
                       const std::map<std::string, std::string>& known)
    {
      CaseResult r;
      Ctx c(gen, verbose, known);
      try { law.run(c); }
      catch (const Discard&) { r.status = kDiscard; }
      catch (const Failure& e)
      {
        // what a law says about values is judged where the law belongs
        if (!g_crashesOnly) { r.status = kFail; r.message = e.what(); }
      }
      catch (const AssertionFailure& e)
      { r.status = kFail; r.message = std::string("assertion failed: ") + e.what(); }
      catch (const std::exception& e)
      { r.status = kFail; r.message = std::string("exception: ") + e.what(); }
      r.notes = c.notes();
      r.nontrivial = c.isNontrivial();
      r.choices = gen.used();
      r.labels = c.labels();
      r.knownHits = c.knownHits();
      return r;
    }

    struct Shared
    {
      volatile long current;        // index of the case being run
      volatile int status;
      volatile std::uint64_t nbChoices;
      char message[kMsgSize];
      char notes[kMsgSize];
      std::uint64_t choices[kMaxChoices];
    };
    Shared* newShared()
    {
      void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
      return static_cast<Shared*>(p);
    }
    // set while a case runs in an isolated child, so that a crash leaves its choices behind
    Shared* g_live = nullptr;
    // Seeds of cases to run before an isolated case, in the same process: empty unless a failure
    // depends on state that the code under test keeps between its objects.
    std::vector<std::uint64_t> g_prefix;

    void childLimits()
    {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
      rlimit rl;
      rl.rlim_cur = rl.rlim_max = 6ull << 30;
      setrlimit(RLIMIT_AS, &rl);
#endif
      rlimit core;
      core.rlim_cur = core.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &core);
    }

    std::string signalText(int st)
    {
      std::ostringstream o;
      if (WIFSIGNALED(st))
      {
        int s = WTERMSIG(st);
        if (s == SIGPROF) o << "the case does not end (" << kCaseCpuSeconds << " s of CPU time)";
        else o << "the case is ended by signal " << s << " (" << strsignal(s) << ")";
      }
      else if (WIFEXITED(st)) o << "the case ends the process with status " << WEXITSTATUS(st);
      return o.str();
    }

    /// One case in a child process of its own.
    CaseResult isolated(const Law& law, const std::vector<std::uint64_t>* replay,
                        std::uint64_t seed, bool verbose,
                        const std::map<std::string, std::string>& known, Shared* shm)
    {
      shm->status = kCrash;
      shm->nbChoices = 0;
      shm->message[0] = shm->notes[0] = 0;
      std::fflush(stdout);
      std::fflush(stderr);
      static FILE* err = std::tmpfile();
      if (!err) { std::perror("tmpfile"); std::exit(2); }
      if (ftruncate(fileno(err), 0) != 0 || lseek(fileno(err), 0, SEEK_SET) != 0)
      { std::perror("ftruncate"); std::exit(2); }
      pid_t pid = fork();
      if (pid < 0) { std::perror("fork"); std::exit(2); }
      if (pid == 0)
      {
        childLimits();
        if (!std::getenv("MPCV_TRACE")) dup2(fileno(err), 2);
        for (std::uint64_t before : g_prefix)
        {
          setCaseTimer(kCaseCpuSeconds);
          Gen g(before);
          runCase(law, g, false, known);
        }
        g_live = shm;
        setCaseTimer(kCaseCpuSeconds);
        Gen gen = replay ? Gen(replay) : Gen(seed);
        CaseResult r = runCase(law, gen, verbose, known);
        shm->nbChoices = std::min(r.choices.size(), kMaxChoices);
        std::copy(r.choices.begin(), r.choices.begin() + shm->nbChoices, shm->choices);
        std::snprintf(shm->message, kMsgSize, "%s", r.message.c_str());
        std::snprintf(shm->notes, kMsgSize, "%s", r.notes.c_str());
        shm->status = r.status;
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      CaseResult r;
      r.status = static_cast<Status>(shm->status);
      r.message = shm->message;
      r.notes = shm->notes;
      if (shm->status == kCrash)
      {
        r.message = signalText(st);
        // the first telling line of what it said
        char text[8192];
        const ssize_t len = pread(fileno(err), text, sizeof text - 1, 0);
        text[std::max<ssize_t>(len, 0)] = 0;
        std::string said;
        std::istringstream in(text);
        for (std::string line; said.empty() && std::getline(in, line);)
          if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
              line.find("ssertion") != std::string::npos) said = line;
        if (!said.empty()) r.message += ": " + said;
      }
      r.choices.assign(shm->choices, shm->choices + shm->nbChoices);
      return r;
    }

    bool bad(const CaseResult& r) { return r.status == kFail || r.status == kCrash; }

    struct LawReport
    {
      std::string name, rule;
      long evaluations = 0, discarded = 0, nontrivial = 0, distinctNontrivial = 0;
      bool budgetHit = false;
      double seconds = 0;
      std::map<std::string, long> labels, knownHits;
      std::vector<std::string> samples;
      bool violated = false;
      std::string message, notes, replayPath;
    };

    std::vector<std::uint64_t> shrink(const Law& law, CaseResult first,
                                      const std::map<std::string, std::string>& known,
                                      Shared* shm, double budget)
    {
      std::vector<std::uint64_t> best = first.choices;
      const double end = now() + budget;
      int runs = 0;
      auto attempt = [&](const std::vector<std::uint64_t>& cand) -> bool
      {
        if (now() > end || runs > 4000) return false;
        ++runs;
        CaseResult r = isolated(law, &cand, 0, false, known, shm);
        if (!bad(r)) return false;
        std::vector<std::uint64_t> used = r.status == kCrash ? cand : r.choices;
        if (used.size() > best.size()) return false;
        if (used.size() == best.size() && !(used < best)) return false;
        best = used;
        return true;
      };
      bool progress = true;
      while (progress && now() < end)
      {
        progress = false;
        for (std::size_t block = std::max<std::size_t>(best.size() / 2, 1); block >= 1; block /= 2)
        {
          for (std::size_t i = 0; i + block <= best.size() && now() < end;)
          {
            std::vector<std::uint64_t> cand(best);
            cand.erase(cand.begin() + i, cand.begin() + i + block);
            if (attempt(cand)) progress = true; else i += block;
          }
          if (block == 1) break;
        }
        for (std::size_t block = 8; block >= 1; block /= 2)
        {
          for (std::size_t i = 0; i + block <= best.size() && now() < end; i += block)
          {
            std::vector<std::uint64_t> cand(best);
            bool zero = true;
            for (std::size_t k = i; k < i + block; ++k) { zero = zero && cand[k] == 0; cand[k] = 0; }
            if (!zero && attempt(cand)) progress = true;
          }
          if (block == 1) break;
        }
        for (std::size_t i = 0; i < best.size() && now() < end; ++i)
        {
          std::uint64_t lo = 0;
          while (i < best.size() && best[i] > lo && now() < end)
          {
            std::vector<std::uint64_t> cand(best);
            std::uint64_t mid = lo + (best[i] - lo) / 2;
            cand[i] = mid;
            if (attempt(cand)) progress = true; else lo = mid + 1;
            if (now() > end) break;
          }
        }
      }
      return best;
    }

    void saveReplay(const std::string& path, const std::string& property, const Law& law,
                    const CaseResult& r, const std::vector<std::uint64_t>& choices)
    {
      std::ofstream f(path.c_str());
      f << "mpcv-replay 1\nproperty " << property << "\nlaw " << law.name << "\n";
      for (std::uint64_t b : g_prefix) f << "before " << b << "\n";
      f << "choices " << choices.size();
      for (std::uint64_t v : choices) f << " " << v;
      f << "\n\n# " << r.message << "\n#\n# the case:\n";
      std::istringstream in(r.notes);
      std::string line;
      while (std::getline(in, line)) f << "#   " << line << "\n";
    }

    /// Run cases [from, n) of a law; returns the case to go on from (n when done).
    long runCases(const Law& law, const std::string& property, std::uint64_t seed, long from,
                  int n, double start, double budget, double shrinkBudget,
                  const std::map<std::string, std::string>& known,
                  const std::string& replayDir, LawReport& rep,
                  std::unordered_set<std::uint64_t>& distinct)
    {
      const std::uint64_t base = mix(seed * 0x9E3779B97F4A7C15ull ^ hashStr(law.name));
      const int W = std::min(kWorkers, std::max(1, n));

      long* minFail = static_cast<long*>(mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE,
                                              MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      *minFail = n;
      std::vector<Shared*> shm;
      std::vector<FILE*> out;
      std::vector<pid_t> pid(W);
      std::fflush(stdout);
      std::fflush(stderr);
      for (int w = 0; w < W; ++w)
      {
        shm.push_back(newShared());
        shm[w]->current = -1;
        out.push_back(std::tmpfile());
        if (!out[w]) { std::perror("tmpfile"); std::exit(2); }
        pid[w] = fork();
        if (pid[w] < 0) { std::perror("fork"); std::exit(2); }
        if (pid[w] != 0) continue;
        // ---- worker -----------------------------------------------------------
        childLimits();
        if (!std::freopen("/dev/null", "w", stderr)) _exit(3);
        LawReport loc;
        std::vector<std::uint64_t> hashes;
        for (long i = from + w; i < n; i += W)
        {
          if (i >= __atomic_load_n(minFail, __ATOMIC_SEQ_CST)) break;
          if (now() - start > budget) { loc.budgetHit = true; break; }
          shm[w]->current = i;
          setCaseTimer(kCaseCpuSeconds);
          Gen gen(mix(base + static_cast<std::uint64_t>(i)));
          const bool sample = loc.samples.size() < 1 && i > n / 3;
          CaseResult r = runCase(law, gen, sample, known);
          ++loc.evaluations;
          if (r.status == kDiscard) ++loc.discarded;
          for (auto& kv : r.knownHits) loc.knownHits[kv.first] += kv.second;
          for (auto& kv : r.labels) loc.labels[kv.first] += 1;
          if (r.nontrivial && r.status != kDiscard)
          {
            ++loc.nontrivial;
            std::uint64_t h = 1469598103934665603ull;
            for (std::uint64_t v : r.choices) h = mix(h ^ v);
            hashes.push_back(h);
            if (sample && !r.notes.empty()) loc.samples.push_back(r.notes);
          }
          if (r.status == kFail)
          {
            long cur = __atomic_load_n(minFail, __ATOMIC_SEQ_CST);
            while (i < cur && !__atomic_compare_exchange_n(minFail, &cur, i, false,
                                                           __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
            break;
          }
        }
        setCaseTimer(0);
        FILE* f = out[w];
        std::fprintf(f, "E %ld %ld %ld %d\n", loc.evaluations, loc.discarded, loc.nontrivial,
                     loc.budgetHit ? 1 : 0);
        for (std::uint64_t h : hashes) std::fprintf(f, "H %llx\n", (unsigned long long)h);
        for (auto& kv : loc.labels) std::fprintf(f, "L %ld %s\n", kv.second, kv.first.c_str());
        for (auto& kv : loc.knownHits) std::fprintf(f, "K %ld %s\n", kv.second, kv.first.c_str());
        for (auto& s : loc.samples) std::fprintf(f, "S %zu\n%s\n", s.size(), s.c_str());
        std::fflush(f);
        _exit(0);
      }
      long crashAt = n;
      for (int w = 0; w < W; ++w)
      {
        int st = 0;
        waitpid(pid[w], &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
          crashAt = std::min(crashAt, static_cast<long>(shm[w]->current));
          rep.evaluations += 1 + std::max(0L, shm[w]->current - from) / W;
        }
      }
      for (int w = 0; w < W; ++w)
      {
        std::rewind(out[w]);
        char line[1024];
        while (std::fgets(line, sizeof line, out[w]))
        {
          if (line[0] == 'E')
          {
            long a, b, d; int h;
            if (std::sscanf(line, "E %ld %ld %ld %d", &a, &b, &d, &h) == 4)
            { rep.evaluations += a; rep.discarded += b; rep.nontrivial += d; rep.budgetHit |= h; }
          }
          else if (line[0] == 'H')
          {
            unsigned long long h;
            if (std::sscanf(line, "H %llx", &h) == 1) distinct.insert(h);
          }
          else if (line[0] == 'L' || line[0] == 'K')
          {
            long k; int pos = 0;
            if (std::sscanf(line + 1, " %ld %n", &k, &pos) >= 1)
            {
              std::string name(line + 1 + pos);
              while (!name.empty() && name.back() == '\n') name.pop_back();
              (line[0] == 'L' ? rep.labels : rep.knownHits)[name] += k;
            }
          }
          else if (line[0] == 'S')
          {
            std::size_t len = 0;
            if (std::sscanf(line, "S %zu", &len) == 1)
            {
              std::string s(len, ' ');
              if (std::fread(&s[0], 1, len, out[w]) == len && rep.samples.size() < 2)
                rep.samples.push_back(s);
            }
          }
        }
        std::fclose(out[w]);
      }
      const long failAt = std::min(crashAt, *minFail);
      if (failAt < n)
      {
        // minimise, then replay three times before calling it a violation
        Shared* s = shm[0];
        const std::uint64_t caseSeed = mix(base + static_cast<std::uint64_t>(failAt));
        CaseResult first = isolated(law, nullptr, caseSeed, false, known, s);
        if (first.status == kCrash)
        {
          // the choices of a crashed case are not known: draw a long replay of the same source
          Gen g(caseSeed);
          first.choices.clear();
          if (s->nbChoices > 0)
            first.choices.assign(s->choices, s->choices + s->nbChoices);
        }
        bool confirmed = bad(first);
        // A failure that does not show in a fresh process may need what the cases before it left
        // behind in the same process.
        for (long k = 1; !confirmed && k <= 512 && failAt - k * W >= from; k *= 2)
        {
          g_prefix.clear();
          for (long i = failAt - k * W; i < failAt; i += W)
            g_prefix.push_back(mix(base + static_cast<std::uint64_t>(i)));
          first = isolated(law, nullptr, caseSeed, false, known, s);
          confirmed = bad(first) && first.status != kCrash;
        }
        for (std::size_t i = 0; confirmed && i < g_prefix.size() && g_prefix.size() <= 64;)
        {
          const std::vector<std::uint64_t> all = g_prefix;
          g_prefix.erase(g_prefix.begin() + i);
          CaseResult r = isolated(law, nullptr, caseSeed, false, known, s);
          if (bad(r) && r.status != kCrash) first = r;
          else { g_prefix = all; ++i; }
        }
        if (confirmed)
        {
          std::vector<std::uint64_t> best = shrink(law, first, known, s, shrinkBudget);
          CaseResult last;
          int ok = 0;
          for (int k = 0; k < 3; ++k)
          {
            last = isolated(law, &best, 0, true, known, s);
            if (bad(last)) ++ok;
          }
          confirmed = ok == 3;
          if (confirmed)
          {
            rep.violated = true;
            rep.message = last.message;
            rep.notes = last.notes;
            rep.replayPath = replayDir + "/" + property + "-" + law.name + ".replay";
            saveReplay(rep.replayPath, property, law, last, best);
          }
        }
        if (!confirmed)
          std::printf("NOTE: case %ld of %s failed once and did not fail again: ignored\n",
                      failAt, law.name.c_str());
        g_prefix.clear();
      }
      for (Shared* s : shm) munmap(s, sizeof(Shared));
      munmap(minFail, sizeof(long));
      return failAt < n ? failAt + 1 : n;
    }

    LawReport runLaw(const Law& law, const std::string& property, std::uint64_t seed, int n,
                     double budget, double shrinkBudget,
                     const std::map<std::string, std::string>& known,
                     const std::string& replayDir)
    {
      LawReport rep;
      rep.name = law.name;
      rep.rule = law.rule;
      const double start = now();
      std::unordered_set<std::uint64_t> distinct;
      long from = 0;
      for (int attempt = 0; attempt < 6 && from < n && !rep.violated && !rep.budgetHit; ++attempt)
        from = runCases(law, property, seed, from, n, start, budget, shrinkBudget, known,
                        replayDir, rep, distinct);
      rep.distinctNontrivial = static_cast<long>(distinct.size());
      rep.seconds = now() - start;
      return rep;
    }
  }

  std::uint64_t Gen::next() { state_ += 0x9E3779B97F4A7C15ull; return mix(state_); }

  std::uint64_t Gen::draw(std::uint64_t n)
  {
    std::uint64_t v;
    if (n < 1) n = 1;
    if (replay_)
      v = used_.size() < replay_->size() ? (*replay_)[used_.size()] % n : 0;
    else
      v = next() % n;
    used_.push_back(v);
    if (own_ && g_live && used_.size() <= kMaxChoices)
    {
      // leave a trace behind in case this case crashes the process
      g_live->choices[used_.size() - 1] = v;
      g_live->nbChoices = used_.size();
    }
    return v;
  }

  int Ctx::integer(int lo, int hi)
  {
    if (hi <= lo) return lo;
    switch (below(8))
    {
      case 6: return lo;
      case 7: return hi;
      default: return lo + below(hi - lo + 1);
    }
  }

  double Ctx::real(double lo, double hi)
  {
    switch (below(5))
    {
      case 0: return lo <= 0 && 0 <= hi ? 0.0 : lo;
      case 1: return lo + (hi - lo) * below(9) / 8.0;
      default: return lo + (hi - lo) * static_cast<double>(gen_.draw(1u << 20)) / (1u << 20);
    }
  }

  double Ctx::logReal(double lo, double hi)
  {
    return lo * std::exp(std::log(hi / lo) * static_cast<double>(gen_.draw(4097)) / 4096.0);
  }

  std::string str(double v)
  {
    char b[64];
    std::snprintf(b, sizeof b, "%.9g", v);
    return b;
  }

  void Ctx::near(double a, double b, double tol, const std::string& what)
  {
    if (!(std::abs(a - b) <= tol))
      fail(what + ": got " + str(a) + ", expected " + str(b) + " (tolerance " + str(tol) + ")");
  }

  void Ctx::known(const std::string& tag, const std::string& why)
  {
    if (known_.count(tag)) { knownHits_[tag] += 1; return; }
    fail(why);
  }

  std::vector<Law>& laws() { static std::vector<Law> l; return l; }

  void assertionFailed(const char* expr, const char* file, int line)
  {
    const char* base = std::strrchr(file, '/');
    std::ostringstream o;
    // an assertion of the matrix library is not one of the code under test
    if (std::strstr(file, "/Eigen/src/") != nullptr) o << "Eigen: ";
    o << (base ? base + 1 : file) << ":" << line << ": " << expr;
    throw AssertionFailure(o.str());
  }
}

// usage: <binary> PROPERTY --tier quick|thorough --seed N --replays DIR --report FILE
//                 [--known tag=text]... [--replay FILE] [--law NAME] [--scale X] [--crashes-only 1]
int main(int argc, char** argv)
{
  using namespace mpcv;
  if (argc < 2) return 2;
  std::string property = argv[1], tier = "quick", replays = ".", report, replay, only;
  std::uint64_t seed = 1;
  double scale = 1;
  std::map<std::string, std::string> known;
  for (int i = 2; i + 1 < argc; i += 2)
  {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--tier") tier = v;
    else if (k == "--seed") seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--replays") replays = v;
    else if (k == "--report") report = v;
    else if (k == "--replay") replay = v;
    else if (k == "--law") only = v;
    else if (k == "--crashes-only") g_crashesOnly = v == "1";
    else if (k == "--scale") scale = std::atof(v.c_str());
    else if (k == "--known")
    {
      std::size_t e = v.find('=');
      known[v.substr(0, e)] = e == std::string::npos ? "" : v.substr(e + 1);
    }
    else { std::cerr << "unknown option " << k << "\n"; return 2; }
  }
  signal(SIGPROF, SIG_DFL);
#if !defined(__SANITIZE_ADDRESS__)
  // fresh memory is all ones (NaN, -1): reading it shows (run.py also turns the thread cache off)
  mallopt(M_PERTURB, 0x100);
#endif

  if (!replay.empty())
  {
    std::ifstream f(replay.c_str());
    std::string w, lawName;
    std::vector<std::uint64_t> choices;
    while (f >> w)
    {
      if (w == "law") f >> lawName;
      else if (w == "before") { std::uint64_t b; f >> b; g_prefix.push_back(b); }
      else if (w == "choices")
      {
        std::size_t n; f >> n;
        choices.resize(n);
        for (auto& v : choices) f >> v;
        break;
      }
    }
    for (const Law& l : laws())
      if (l.name == lawName)
      {
        Shared* s = newShared();
        CaseResult r = isolated(l, &choices, 0, true, known, s);
        std::cout << r.notes << "\n";
        if (bad(r))
        {
          std::cout << r.message << "\nVIOLATION property=" << property << " replay=" << replay
                    << std::endl;
          return 1;
        }
        std::cout << "the replayed case " << (r.status == kPass ? "passes" : "is discarded")
                  << std::endl;
        return 0;
      }
    std::cerr << "no law '" << lawName << "' in this check\n";
    return 2;
  }

  int rc = 0;
  std::vector<LawReport> reports;
  double spent = 0;
  const double total = tier == "quick" ? 420 : 3000;
  for (const Law& l : laws())
  {
    if (!only.empty() && l.name.find(only) == std::string::npos) continue;
    int n = std::max(1, static_cast<int>(scale * (tier == "quick" ? l.quick : l.thorough)));
    if (l.quick == 1) n = 1;
    LawReport r = runLaw(l, property, seed, n, std::max(10.0, total - spent),
                         rc ? 8 : 40, known, replays);
    spent += r.seconds;
    std::printf("%-58s %8ld cases, %ld distinct non-trivial, %ld discarded, %.1f s%s\n",
                r.name.c_str(), r.evaluations, r.distinctNontrivial, r.discarded, r.seconds,
                r.budgetHit ? " (time budget reached)" : "");
    if (std::getenv("MPCV_LABELS"))
      for (auto& kv : r.labels)
        std::printf("      %6.2f%% %s\n", 100.0 * kv.second / std::max(1L, r.evaluations),
                    kv.first.c_str());
    if (r.violated)
    {
      rc = 1;
      std::printf("  %s\n", r.message.c_str());
      std::istringstream in(r.notes);
      std::string line;
      while (std::getline(in, line)) std::printf("    %s\n", line.c_str());
      std::printf("VIOLATION property=%s replay=%s\n", property.c_str(), r.replayPath.c_str());
    }
    std::fflush(stdout);
    reports.push_back(r);
  }
  if (!report.empty())
  {
    std::ofstream f(report.c_str());
    f << "{\"laws\": [";
    for (std::size_t i = 0; i < reports.size(); ++i)
    {
      const LawReport& r = reports[i];
      f << (i ? ",\n" : "\n") << "{\"name\": \"" << jsonEscape(r.name) << "\", \"rule\": \""
        << jsonEscape(r.rule) << "\", \"evaluations\": " << r.evaluations << ", \"discarded\": "
        << r.discarded << ", \"nontrivial\": " << r.nontrivial << ", \"distinct_nontrivial\": "
        << r.distinctNontrivial << ", \"budget_hit\": " << (r.budgetHit ? "true" : "false")
        << ", \"seconds\": " << r.seconds << ", \"violated\": "
        << (r.violated ? "true" : "false") << ", \"message\": \"" << jsonEscape(r.message)
        << "\", \"labels\": {";
      bool firstItem = true;
      for (auto& kv : r.labels)
      { f << (firstItem ? "" : ", ") << "\"" << jsonEscape(kv.first) << "\": " << kv.second; firstItem = false; }
      f << "}, \"known\": {";
      firstItem = true;
      for (auto& kv : r.knownHits)
      { f << (firstItem ? "" : ", ") << "\"" << jsonEscape(kv.first) << "\": " << kv.second; firstItem = false; }
      f << "}, \"samples\": [";
      for (std::size_t k = 0; k < r.samples.size(); ++k)
        f << (k ? ", " : "") << "\"" << jsonEscape(r.samples[k]) << "\"";
      f << "]}";
    }
    f << "\n]}\n";
  }
  return rc;
}
