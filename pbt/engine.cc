#include "engine.h"
#include <cstdarg>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <chrono>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <atomic>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>

namespace pbt {

std::string strf(char const* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

std::string clip(std::string const& s, size_t n) {
  std::string r;
  for (char c : s.substr(0, n)) {
    if (c >= 32 && c < 127) r += c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; }
  }
  if (s.size() > n) r += strf("...(%zu chars)", s.size());
  return r;
}

std::string firstDiff(std::string const& a, std::string const& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t st = i > 60 ? i - 60 : 0;
  return "first difference at " + std::to_string(i) + ": expected ..." + clip(a.substr(st, 200), 200) +
         " got ..." + clip(b.substr(st, 200), 200);
}

std::vector<Unit>& units() { static std::vector<Unit> u; return u; }

// ---------------------------------------------------------------- allocation watch
static std::atomic<long> g_live{0};
#if defined(PBT_ASAN)
static void onMalloc(const volatile void*, size_t) { g_live.fetch_add(1, std::memory_order_relaxed); }
static void onFree(const volatile void* p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); }
#endif
long AllocWatch::live() { return g_live.load(); }
uint64_t AllocWatch::totalBytesLive() {
#if defined(PBT_ASAN)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// ---------------------------------------------------------------- dictionary
static std::vector<uint64_t> g_ints;
static std::vector<std::string> g_strs;
static std::string g_scratch = "/tmp";
static bool g_thorough = false;
static uint64_t g_seed = 1;
static char** g_argv = nullptr;
std::vector<uint64_t> const& dictInts() { return g_ints; }
std::vector<std::string> const& dictStrs() { return g_strs; }
std::string const& scratchDir() { return g_scratch; }
bool thorough() { return g_thorough; }
uint64_t verifSeed() { return g_seed; }
char** mainArgv() { return g_argv; }

static void loadDict(char const* path) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.size() > 2 && line[0] == 'i') g_ints.push_back(strtoull(line.c_str() + 2, nullptr, 10));
    else if (line.size() > 2 && line[0] == 's') {
      std::string s;
      for (size_t i = 2; i + 1 < line.size(); i += 2) s += (char)strtoul(line.substr(i, 2).c_str(), nullptr, 16);
      g_strs.push_back(s);
    }
  }
}

// ---------------------------------------------------------------- labels
static std::map<std::string, uint64_t> g_labels;
static bool g_quiet = false;
void Ctx::label(std::string const& l, uint64_t n) { if (!g_quiet) g_labels[l] += n; }

// ---------------------------------------------------------------- shared state between parent and worker
struct Shared {
  volatile uint64_t caseIdx;      // index of the case now running
  volatile uint64_t done;         // cases finished
  volatile int failed;            // failure reported through an exception
  char msg[8192];
  Record rec;
};
static Shared* g_sh = nullptr;

static std::vector<unsigned> schedule() {   // one round: each unit `weight` times, interleaved
  std::vector<unsigned> s;
  unsigned maxw = 1;
  for (auto& u : units()) maxw = std::max(maxw, u.weight);
  for (unsigned r = 0; r < maxw; r++)
    for (unsigned i = 0; i < units().size(); i++)
      if (r < units()[i].weight) s.push_back(i);
  return s;
}

static std::string describeException() {
  int st; std::type_info* t = abi::__cxa_current_exception_type();
  std::string n = "unknown";
  if (t) { char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st); n = d ? d : t->name(); free(d); }
  return n;
}

static bool g_leakcheck = false;

// Runs one case; returns an empty string when the property held.
// One case in `kBigEvery` of each unit contains a container of more than 65536 elements (where the unit generates values).
constexpr uint64_t kBigEvery = 120;
static uint64_t g_giveBig = 0;
static std::string runOnce(Unit& u, Src& s, Ctx& c) {
  if (s.given(g_giveBig)) { s.big = true; s.budget = (1u << 17) + 64; }
  try {
    u.fn(s, c);
  } catch (Failure const& f) {
    return f.msg.empty() ? "failed" : f.msg;
  } catch (std::exception const& e) {
    return "unexpected exception " + describeException() + ": " + e.what();
  } catch (...) {
    return "unexpected exception " + describeException();
  }
  return "";
}

static std::string runCase(Unit& u, Src& s, Ctx& c) {
  std::string r = runOnce(u, s, c);
  if (!g_leakcheck || !r.empty()) return r;
  // allocation balance: a case must release everything; one-time initialisation is excluded by repeating the case
  std::vector<uint64_t> choices(s.rec->choice, s.rec->choice + s.rec->n);
  if (s.rec->n >= kMaxChoices) return r;
  long delta[3];
  for (int k = 0; k < 3; k++) {
    long before = AllocWatch::live();
    g_quiet = true;
    {
      Src s2(choices.data(), choices.size(), s.rec);
      Ctx c2;
      std::string r2 = runOnce(u, s2, c2);
      if (!r2.empty()) { g_quiet = false; return "on repetition of the same case: " + r2; }
    }
    g_quiet = false;
    delta[k] = AllocWatch::live() - before;
    if (k == 0 && delta[0] == 0) return r;
  }
  if (delta[1] > 0 && delta[2] > 0)
    return strf("leak: each execution of this case leaves %ld heap allocations behind", delta[2]);
  return r;
}

static uint64_t hashRec(std::string const& unit, Record const& r, uint64_t extra) {
  uint64_t h = 1469598103934665603ull ^ extra;
  for (char c : unit) h = (h ^ (unsigned char)c) * 1099511628211ull;
  for (uint64_t i = 0; i < r.n; i++) h = mix64(h ^ r.choice[i]);
  return h;
}

static std::string jsonEsc(std::string const& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
    else r += (char)c;
  }
  return r + "\"";
}

struct CaseRec { std::string unit; std::vector<uint64_t> choices; };

struct Options {
  uint64_t seed = 1, from = 0, cases = 1000, stride = 1;
  std::string stats, replayOut, replayIn, dict, errlog;
  std::string only;
  double maxSeconds = 1e9;
};
static Options g_o;

static void limitCpu() {
  struct itimerval tv{};
  tv.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

static Unit* findUnit(std::string const& n) {
  for (auto& u : units()) if (u.name == n) return &u;
  return nullptr;
}

// Runs a list of cases in a forked child; returns "" when all held, else the failure message.
static std::string runForked(std::vector<CaseRec> const& cs, bool* crashed = nullptr) {
  g_sh->failed = 0;
  g_sh->msg[0] = 0;
  if (crashed) *crashed = false;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    for (auto& cr : cs) {
      Unit* u = findUnit(cr.unit);
      if (!u) { snprintf(g_sh->msg, sizeof g_sh->msg, "no such unit %s", cr.unit.c_str()); _exit(3); }
      limitCpu();
      Src s(cr.choices.data(), cr.choices.size(), &g_sh->rec);
      Ctx c; c.replaying = true;
      std::string r = runCase(*u, s, c);
      if (!r.empty()) {
        snprintf(g_sh->msg, sizeof g_sh->msg, "%s", r.c_str());
        g_sh->failed = 1;
        _exit(1);
      }
    }
    _exit(0);
  }
  int st = 0;
  // A child that blocks without using CPU time is ended after two minutes.
  for (int t = 0;; t++) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (t > 120 * 1000) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(t < 200 ? 200 : 1000);
  }
  kill(-pid, SIGKILL);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (g_sh->failed) return g_sh->msg;
  if (crashed) *crashed = true;
  if (WIFSIGNALED(st)) return strf("process ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  return strf("process ended with status %d (sanitizer report or abort)", WEXITSTATUS(st));
}

static void chooseBig(uint64_t idx, std::vector<unsigned> const& sched, Unit const& u) {
  g_giveBig = (idx / sched.size() + std::hash<std::string>{}(u.name)) % kBigEvery == kBigEvery - 1;
}

static CaseRec capture(uint64_t idx, std::vector<unsigned> const& sched) {
  // Re-generate the choices of case idx in a child (it may crash); they are recorded in shared memory as drawn.
  Unit& u = units()[sched[idx % sched.size()]];
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    limitCpu();
    chooseBig(idx, sched, u);
    Src s(mix64(g_o.seed) ^ mix64(idx * 2654435761ull + 17), &g_sh->rec);
    Ctx c;
    g_leakcheck = false;
    runCase(u, s, c);
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  return {u.name, std::vector<uint64_t>(g_sh->rec.choice, g_sh->rec.choice + g_sh->rec.n)};
}

static void writeReplay(std::string const& path, std::vector<CaseRec> const& cs, std::string const& msg, std::string const& log) {
  std::ofstream f(path);
  f << "{\"message\": " << jsonEsc(msg) << ",\n \"cases\": [";
  for (size_t i = 0; i < cs.size(); i++) {
    f << (i ? ",\n  " : "\n  ") << "{\"unit\": " << jsonEsc(cs[i].unit) << ", \"choices\": [";
    for (size_t k = 0; k < cs[i].choices.size(); k++) f << (k ? "," : "") << cs[i].choices[k];
    f << "]}";
  }
  f << "],\n \"log\": " << jsonEsc(log) << "}\n";
}

// Minimal reader for the files written above.
static std::vector<CaseRec> readReplay(std::string const& path) {
  std::ifstream f(path);
  std::stringstream ss; ss << f.rdbuf();
  std::string t = ss.str();
  std::vector<CaseRec> out;
  size_t p = t.find("\"cases\"");
  while (p != std::string::npos && (p = t.find("\"unit\":", p)) != std::string::npos) {
    size_t a = t.find('"', p + 7), b = a + 1;
    std::string name;
    while (b < t.size() && t[b] != '"') { if (t[b] == '\\') b++; name += t[b++]; }
    size_t c = t.find('[', b), d = t.find(']', c);
    CaseRec r{name, {}};
    char const* q = t.c_str() + c + 1;
    while (q < t.c_str() + d) {
      char* e; uint64_t v = strtoull(q, &e, 10);
      if (e == q) { q++; continue; }
      r.choices.push_back(v); q = e;
    }
    out.push_back(r);
    p = d;
  }
  return out;
}

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// Shrinks the last case of cs (earlier ones are only context needed to reproduce).
static void shrink(std::vector<CaseRec>& cs, std::string& msg, double seconds) {
  double end = now() + seconds;
  auto fails = [&](std::vector<CaseRec> const& c) {
    if (now() > end) return false;
    std::string m = runForked(c);
    if (m.empty() || m.rfind("no such unit", 0) == 0) return false;
    msg = m;
    return true;
  };
  // drop context cases
  for (size_t chunk = cs.size() / 2; chunk >= 1 && cs.size() > 1; chunk /= 2)
    for (size_t i = 0; i + chunk < cs.size();) {
      auto c = cs; c.erase(c.begin() + i, c.begin() + i + chunk);
      if (fails(c)) cs = c; else i += chunk;
      if (now() > end) return;
    }
  // the binary recorded choices may be longer than what is consumed; cut the tail first
  for (size_t ci = cs.size(); ci-- > 0;) {
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      auto& ch = cs[ci].choices;
      // tail cut
      for (size_t keep = 0; keep < ch.size(); keep = keep * 2 + 1) {
        auto c = cs; c[ci].choices.resize(keep);
        if (fails(c)) { cs = c; progress = true; break; }
        if (now() > end) return;
      }
      // chunk deletion
      for (size_t chunk = std::max<size_t>(1, cs[ci].choices.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i + chunk <= cs[ci].choices.size();) {
          auto c = cs; auto& x = c[ci].choices; x.erase(x.begin() + i, x.begin() + i + chunk);
          if (fails(c)) { cs = c; progress = true; } else i += chunk;
          if (now() > end) return;
        }
        if (chunk == 1) break;
      }
      // zero chunks, then minimise single values
      for (size_t chunk = std::max<size_t>(1, cs[ci].choices.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i + chunk <= cs[ci].choices.size(); i += chunk) {
          auto c = cs; bool any = false;
          for (size_t k = i; k < i + chunk; k++) { any |= c[ci].choices[k] != 0; c[ci].choices[k] = 0; }
          if (any && fails(c)) { cs = c; progress = true; }
          if (now() > end) return;
        }
        if (chunk == 1) break;
      }
      for (size_t i = 0; i < cs[ci].choices.size(); i++) {
        uint64_t lo = 0, hi = cs[ci].choices[i];
        int steps = 0;
        while (lo < hi && steps++ < 12) {
          uint64_t mid = lo + (hi - lo) / 2;
          auto c = cs; c[ci].choices[i] = mid;
          if (fails(c)) { cs = c; hi = mid; progress = true; } else lo = mid + 1;
          if (now() > end) return;
        }
      }
    }
  }
}

static std::string tailOf(std::string const& path, size_t n = 6000) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss; ss << f.rdbuf();
  std::string s = ss.str();
  return s.size() > n ? s.substr(0, n) : s;
}

static int handleFailure(uint64_t idx, std::string firstMsg, std::vector<unsigned> const& sched) {
  // Reproduce alone; if that does not fail, with growing context of the cases this worker ran before.
  std::vector<CaseRec> cs;
  std::string msg;
  bool reproduced = false;
  for (uint64_t ctxn = 0;; ctxn = ctxn ? ctxn * 4 : 1) {
    cs.clear();
    uint64_t back = std::min<uint64_t>(ctxn, (idx - g_o.from) / g_o.stride);
    if (back > 4096) back = 4096;
    for (uint64_t k = back + 1; k-- > 0;) cs.push_back(capture(idx - k * g_o.stride, sched));
    msg = runForked(cs);
    if (!msg.empty()) { reproduced = true; break; }
    if (ctxn >= 4096 || back == (idx - g_o.from) / g_o.stride) break;
  }
  if (!reproduced) {
    fprintf(stdout, "NOTE: case %llu failed once (%s) but could not be reproduced\n", (unsigned long long)idx, firstMsg.c_str());
    return 5;
  }
  std::string orig = msg;
  bool hang = msg.find("signal 27") != std::string::npos || msg.find("signal 9") != std::string::npos;
  if (!hang) shrink(cs, msg, 40);
  // confirm three times
  int ok = 0;
  for (int k = 0; k < (hang ? 1 : 3); k++) { std::string m = runForked(cs); if (!m.empty()) { ok++; msg = m; } }
  if (ok == 0) return 5;
  std::string log;
  {
    // one more run with stderr captured
    std::string lp = g_o.replayOut + ".log";
    int save = dup(2), fd = open(lp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    runForked(cs);
    fflush(stderr);
    dup2(save, 2); close(save); close(fd);
    log = tailOf(lp);
    unlink(lp.c_str());
  }
  writeReplay(g_o.replayOut, cs, msg, log);
  printf("FAILURE unit=%s cases=%zu choices=%zu message=%s\n", cs.back().unit.c_str(), cs.size(), cs.back().choices.size(), clip(msg, 1500).c_str());
  fflush(stdout);
  return 1;
}

static int workerMain(std::vector<unsigned> const& sched, uint64_t start) {
  std::unordered_set<uint64_t> nontrivial;
  std::map<std::string, std::pair<uint64_t, uint64_t>> perUnit;
  std::vector<std::pair<std::string, std::string>> samples;
  uint64_t evals = 0, nt = 0;
  double t0 = now();
  bool truncated = false;
  for (uint64_t i = start; i < g_o.cases; i += g_o.stride) {
    if (now() - t0 > g_o.maxSeconds) { truncated = true; break; }
    Unit& u = units()[sched[i % sched.size()]];
    g_sh->caseIdx = i;
    limitCpu();
    chooseBig(i, sched, u);
    Src s(mix64(g_o.seed) ^ mix64(i * 2654435761ull + 17), &g_sh->rec);
    Ctx c;
    std::string r = runCase(u, s, c);
    if (!r.empty()) {
      snprintf(g_sh->msg, sizeof g_sh->msg, "%s", r.c_str());
      g_sh->failed = 1;
      _exit(1);
    }
    evals++;
    auto& pu = perUnit[u.name];
    pu.first++;
    if (c.nontrivial_) {
      nt++;
      uint64_t h = hashRec(u.name, g_sh->rec, c.extra_hash);
      if (nontrivial.insert(h).second) {
        pu.second++;
        if (!c.sample.empty() && (samples.size() < 12 || mix64(h) % 97 == 0)) {
          if (samples.size() >= 24) samples[mix64(h + 1) % samples.size()] = {u.name, c.sample};
          else samples.push_back({u.name, c.sample});
        }
      }
    }
    g_sh->done = evals;
  }
  std::ofstream f(g_o.stats);
  f << "{\"evaluations\": " << evals << ", \"nontrivial\": " << nt << ", \"truncated\": " << (truncated ? "true" : "false");
  f << ", \"units\": {";
  bool first = true;
  for (auto& p : perUnit) { f << (first ? "" : ", ") << jsonEsc(p.first) << ": [" << p.second.first << "," << p.second.second << "]"; first = false; }
  f << "}, \"labels\": {"; first = true;
  for (auto& p : g_labels) { f << (first ? "" : ", ") << jsonEsc(p.first) << ": " << p.second; first = false; }
  f << "}, \"samples\": ["; first = true;
  for (auto& p : samples) { f << (first ? "" : ", ") << "{\"unit\": " << jsonEsc(p.first) << ", \"case\": " << jsonEsc(clip(p.second, 400)) << "}"; first = false; }
  f << "], \"hashes\": ["; first = true;
  for (auto h : nontrivial) { f << (first ? "" : ",") << h; first = false; }
  f << "]}\n";
  f.close();
  if (!f) return 3;
  return 0;
}

int (*childMain)(std::string const&) = nullptr;
Record* childRecord() { static Record* r = new Record; return r; }
std::vector<std::string> childArgs() {
  std::vector<std::string> v{"/proc/self/exe", "--seed", std::to_string(g_o.seed), "--dict", g_o.dict, "--scratch", g_scratch};
  if (g_thorough) v.push_back("--thorough");
  return v;
}

int runMain(int argc, char** argv, bool leakcheck) {
  std::string child;
  g_argv = argv;
  g_leakcheck = leakcheck;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> char const* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") g_o.seed = strtoull(val(), nullptr, 10);
    else if (a == "--from") g_o.from = strtoull(val(), nullptr, 10);
    else if (a == "--rounds") g_o.cases = strtoull(val(), nullptr, 10);   // rounds over all units
    else if (a == "--stride") g_o.stride = strtoull(val(), nullptr, 10);
    else if (a == "--stats") g_o.stats = val();
    else if (a == "--replay-out") g_o.replayOut = val();
    else if (a == "--replay") g_o.replayIn = val();
    else if (a == "--dict") g_o.dict = val();
    else if (a == "--scratch") g_scratch = val();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--child") child = val();
    else if (a == "--only") g_o.only = val();
    else if (a == "--max-seconds") g_o.maxSeconds = atof(val());
    else if (a == "--list") { registerUnits(); for (auto& u : units()) printf("%s\n", u.name.c_str()); return 0; }
  }
  g_seed = g_o.seed;
  if (!g_o.dict.empty()) loadDict(g_o.dict.c_str());
  if (!child.empty()) return childMain(child);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#if defined(PBT_ASAN)
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  signal(SIGPIPE, SIG_IGN);
  registerUnits();
  if (!g_o.only.empty()) {
    auto& us = units();
    us.erase(std::remove_if(us.begin(), us.end(), [](Unit const& u) { return u.name.find(g_o.only) == std::string::npos; }), us.end());
  }
  if (units().empty()) { fprintf(stderr, "no units\n"); return 3; }
  auto sched = schedule();
  if (!g_o.replayIn.empty()) {
    auto cs = readReplay(g_o.replayIn);
    if (cs.empty()) { fprintf(stderr, "bad replay file\n"); return 3; }
    std::string m = runForked(cs);
    if (m.empty()) { printf("REPLAY: the property held\n"); return 0; }
    if (m.rfind("no such unit", 0) == 0) { printf("REPLAY: %s\n", m.c_str()); return 3; }
    printf("REPLAY: FAILURE unit=%s message=%s\n", cs.back().unit.c_str(), clip(m, 3000).c_str());
    return 1;
  }
  g_o.cases *= sched.size();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (!g_o.replayOut.empty()) {   // keep the worker's stderr (sanitizer reports) out of the way; reproduced later
      std::string lp = g_o.replayOut + ".stderr";
      int fd = open(lp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2); close(fd);
    }
    int rc = workerMain(sched, g_o.from);
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0;
  // Watchdog for a worker that blocks without using CPU: no progress for 150 s of wall time.
  double last = now(); uint64_t lastDone = 0, lastIdx = ~0ull;
  bool blocked = false;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (g_sh->done != lastDone || g_sh->caseIdx != lastIdx) { last = now(); lastDone = g_sh->done; lastIdx = g_sh->caseIdx; }
    if (now() - last > 150) { blocked = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(5000);
  }
  kill(-pid, SIGKILL);
  std::string lp = g_o.replayOut + ".stderr";
  if (!blocked && WIFEXITED(st) && WEXITSTATUS(st) == 0) { unlink(lp.c_str()); return 0; }
  std::string first = g_sh->failed ? std::string(g_sh->msg)
                      : WIFSIGNALED(st) ? strf("signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
  fprintf(stderr, "worker: case %llu: %s\n", (unsigned long long)g_sh->caseIdx, clip(first, 1000).c_str());
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
  uint64_t idx = g_sh->caseIdx;
  int rc = handleFailure(idx, first, sched);
  if (rc == 5) {
    fprintf(stderr, "%s\n", tailOf(lp).c_str());
  }
  unlink(lp.c_str());
  return rc;
}

}  // namespace pbt
