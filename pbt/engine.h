// Property-based testing engine: choice-sequence generation (every random decision is a recorded choice),
// worker processes that survive crashes of the code under test, generic shrinking on the choice sequence,
// replay files, and measured evidence counters.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <initializer_list>

namespace pbt {

// ---------------------------------------------------------------- random source
inline uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0xA5A5A5A5DEADBEEFull)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
};

constexpr size_t kMaxChoices = 1u << 17;

// The record of the case being run. It lives in memory shared with the parent, so that it survives a crash.
struct Record {
  uint64_t n;
  uint64_t choice[kMaxChoices];
};

struct OutOfChoices {};

// A stream of choices; draw(n) is uniform over [0,n) when generating and reads the recorded choice when replaying.
struct Src {
  enum Mode { Random, Replay } mode;
  Rng rng;
  uint64_t const* in = nullptr;
  uint64_t in_n = 0, pos = 0;
  Record* rec;
  int bulk = 0;            // >0: bulk filling from a derived generator, choices are not recorded
  Rng bulk_rng{0};
  uint64_t budget = 4096;  // leaf elements this case may still contain (divided between nested containers)
  bool big = false;        // one container of this case is to have more than 65536 elements

  Src(uint64_t seed, Record* r) : mode(Random), rng(seed), rec(r) { rec->n = 0; }
  Src(uint64_t const* c, uint64_t n, Record* r) : mode(Replay), rng(0), in(c), in_n(n), rec(r) { rec->n = 0; }
  Src(Src const&) = delete;

  // uniform in [0,n); n==0 means all of uint64
  uint64_t draw(uint64_t n) {
    if (n == 1) return 0;
    if (bulk) { uint64_t v = bulk_rng.next(); return n ? v % n : v; }
    uint64_t v;
    if (mode == Random) v = rng.next();
    else v = pos < in_n ? in[pos++] : 0;
    if (n) v %= n;
    if (rec->n < kMaxChoices) rec->choice[rec->n++] = v;
    else if (mode == Random) { bulk_rng = Rng(v); bulk = 1 << 20; }   // too many choices: continue in bulk mode
    return v;
  }
  // a choice made by the schedule when generating
  uint64_t given(uint64_t v) {
    if (mode == Replay) v = pos < in_n ? in[pos++] : 0;
    if (rec->n < kMaxChoices) rec->choice[rec->n++] = v;
    return v;
  }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // choice 0 -> false
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
  template <typename T> T const& pick(std::vector<T> const& v) { return v[draw(v.size())]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
};

// ---------------------------------------------------------------- failures, labels
struct Failure { std::string msg; };

std::string strf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

#define PBT_FAIL(...) do { throw ::pbt::Failure{::pbt::strf(__VA_ARGS__)}; } while (0)
#define PBT_CHECK(cond, ...) do { if (!(cond)) PBT_FAIL(__VA_ARGS__); } while (0)

struct Ctx {
  bool nontrivial_ = false;
  uint64_t extra_hash = 0;
  std::string sample;
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(std::string const& l, uint64_t n = 1);
  void note(std::string const& s) { if (sample.size() < 600) { sample += s; } }
  bool replaying = false;
};

using UnitFn = std::function<void(Src&, Ctx&)>;
struct Unit {
  std::string name;
  unsigned weight;         // cases of this unit per round
  UnitFn fn;
};
std::vector<Unit>& units();
inline void addUnit(std::string name, UnitFn fn, unsigned weight = 1) { units().push_back({std::move(name), weight, std::move(fn)}); }

// Registered by each property's file: adds the units.
void registerUnits();
int runMain(int argc, char** argv, bool leakcheck);

// ---------------------------------------------------------------- live allocations (from the sanitizer's hooks)
struct AllocWatch {           // counts allocations made and not yet freed inside a window
  static long live();
  static uint64_t totalBytesLive();
};

// dictionary of integer and string constants found in the code under test
std::vector<uint64_t> const& dictInts();
std::vector<std::string> const& dictStrs();
std::string const& scratchDir();
bool thorough();
uint64_t verifSeed();
char** mainArgv();
// Re-executed copies of the program: `prog ... --child FILE` runs childMain(FILE) instead of the cases.
extern int (*childMain)(std::string const& file);
Record* childRecord();
std::vector<std::string> childArgs();      // the arguments that make a child generate the same values

std::string clip(std::string const& s, size_t n = 300);
std::string firstDiff(std::string const& a, std::string const& b);

}  // namespace pbt
