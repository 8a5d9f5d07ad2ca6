// C24: mistakes with polymorphic classes are stopped, correct use never is. Every operation runs in a process of its own.
#include "../pbt/engine.h"
#include "../pbt/values.h"
#include <checkpoint/checkpoint.h>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

namespace c24 {
inline std::string slurp(std::string const& f) { std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
inline void spit(std::string const& f, std::string const& d) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(d.data(), (std::streamsize)d.size()); }
enum Style { Undeclared, Macro, Crtp };
constexpr char const* kStyle[] = {"undeclared", "macro", "crtp"};

#define LAYER_BODY(PARENT)                                                                        \
  int x = 1; std::string s;                                                                        \
  template <typename S> void serialize(S& z) { z | x | s; }                                        \
  void put(std::string& o) const override { PARENT::put(o); o += strf("/%d,%s", x, s.c_str()); }   \
  void fill(Src& r) override { PARENT::fill(r); x = int(r.draw(1000)); s = std::string(r.draw(20), 'l'); }

struct RootM {
  checkpoint_virtual_serialize_root()
  int x = 0;
  virtual ~RootM() = default;
  template <typename S> void serialize(S& z) { z | x; }
  virtual void put(std::string& o) const { o += strf("%d", x); }
  virtual void fill(Src& r) { x = int(r.draw(1000)); }
};
struct RootC : checkpoint::SerializableBase<RootC> {
  int x = 0;
  template <typename S> void serialize(S& z) { z | x; }
  virtual void put(std::string& o) const { o += strf("%d", x); }
  virtual void fill(Src& r) { x = int(r.draw(1000)); }
};
template <typename P, int Style> struct Layer;
template <typename P> struct Layer<P, Undeclared> : P { LAYER_BODY(P) };
template <typename P> struct Layer<P, Macro> : P { checkpoint_virtual_serialize_derived_from(P) LAYER_BODY(P) };
template <typename P> struct Layer<P, Crtp> : checkpoint::SerializableDerived<Layer<P, Crtp>, P> { LAYER_BODY(P) };

// classes that offer no way of being created
template <typename R> struct NoWay : R {
  checkpoint_virtual_serialize_derived_from(R)
  explicit NoWay(int v) : x(v) {}
  int x;
  template <typename S> void serialize(S& z) { z | x; }
  void put(std::string& o) const override { R::put(o); o += strf("/%d", x); }
};

template <typename R> struct Entry { std::vector<int> path; std::unique_ptr<R> (*make)(); };
template <typename R> std::vector<Entry<R>>& table() { static std::vector<Entry<R>> t; return t; }
template <typename R, typename T> std::unique_ptr<R> mk() { return std::make_unique<T>(); }
template <typename R, typename T, int Depth> void enter(std::vector<int> path) {
  table<R>().push_back({path, &mk<R, T>});
  if constexpr (Depth > 0) {
    auto with = [&](int s) { auto p = path; p.push_back(s); return p; };
    enter<R, Layer<T, Undeclared>, Depth - 1>(with(Undeclared));
    enter<R, Layer<T, Macro>, Depth - 1>(with(Macro));
    enter<R, Layer<T, Crtp>, Depth - 1>(with(Crtp));
  }
}
inline std::string name(std::vector<int> const& p) { std::string o = "root"; for (int s : p) o += std::string("<-") + kStyle[s]; return o; }
// the class that acts for an object (its own, or the nearest declared one above) names a parent that has no declaration
inline bool broken(std::vector<int> const& p) {
  int e = int(p.size());
  while (e > 0 && p[size_t(e - 1)] == Undeclared) e--;
  for (int i = e; i > 1; i--) if (p[size_t(i - 1)] != Undeclared && p[size_t(i - 2)] == Undeclared) return true;
  return false;
}
inline bool allDeclared(std::vector<int> const& p) { for (int s : p) if (s == Undeclared) return false; return true; }

struct Outcome { bool stopped = false, threw = false; int code = 0, sig = 0; std::string err; };
template <typename F> Outcome inChild(F f) {
  std::string file = scratchDir() + "/c24.err";
  fflush(nullptr);
  pid_t pid = fork();
  PBT_CHECK(pid >= 0, "fork");
  if (pid == 0) {
    rlimit no{0, 0}; setrlimit(RLIMIT_CORE, &no);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL);
    int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    int rc = 3;
    try { rc = f() ? 0 : 1; } catch (std::exception const&) { rc = 2; } catch (...) { rc = 4; }
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0; waitpid(pid, &st, 0);
  Outcome o;
  o.err = slurp(file); remove(file.c_str());
  o.stopped = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && !o.err.empty();
  o.threw = WIFEXITED(st) && WEXITSTATUS(st) == 2;
  o.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  return o;
}
inline void judge(Outcome const& o, bool stop, std::string const& what) {
  if (stop) PBT_CHECK(o.stopped || o.threw, "%s was not stopped (%s)", what.c_str(), o.sig ? strf("signal %d", o.sig).c_str() : o.code == 0 ? "it came out complete" : o.code == 1 ? "it returned normally with something else" : strf("exit %d", o.code).c_str());
  else PBT_CHECK(o.code == 0, "%s %s: %s", what.c_str(), o.code == 1 ? "gave another value" : "was stopped", o.err.substr(0, 400).c_str());
}

template <typename R> std::string text(std::unique_ptr<R> const& p) { std::string o; if (!p) return "null"; o = typeid(*p).name(); p->put(o); return o; }
template <typename R> struct RawHolder {          // documented helper for raw pointers
  R* p = nullptr; int after = 5;
  template <typename S> void serialize(S& s) { bool null = p == nullptr; s | null; if (null) { if (s.isUnpacking()) { p = nullptr; } } else { checkpoint::reconstructPointedToObjectIfNeeded(s, p); s | *p; } s | after; }
};

enum Medium { Mem, Stream, File };
template <typename T> void restoreIn(T& target, std::string& bytes, int medium) {
  if (medium == Mem) checkpoint::deserializeInPlace<T>(&bytes[0], &target);
  else if (medium == Stream) { std::istringstream is(bytes); checkpoint::deserializeInPlaceFromStream<T>(static_cast<std::istream&>(is), &target); }
  else { std::string f = scratchDir() + "/c24.f"; spit(f, bytes); checkpoint::deserializeInPlaceFromFile<T>(f, &target); }
}
template <typename T> std::string pack(T& t) { auto r = checkpoint::serialize<T>(t); return std::string(r->getBuffer(), r->getSize()); }

template <typename R> void declarations(Src& s, Ctx& c) {
  auto& t = table<R>();
  auto const& e = t[s.draw(t.size())];
  auto p = e.make(); p->fill(s);
  bool stop = broken(e.path), whole = allDeclared(e.path);
  int op = int(s.draw(8));
  static char const* const ops[] = {"sizing", "serializing", "footprinting", "writing to a stream", "writing to a file", "serializing by reference", "serializing in a vector", "copying through a checkpoint"};
  std::string what = strf("%s an object of %s", ops[op], name(e.path).c_str());
  c.note(what); c.nontrivial(e.path.size() > 1); c.label(stop ? "undeclared parent" : whole ? "all declared" : "undeclared leaf"); c.label(ops[op]);
  std::string want = text(p);
  Outcome o = inChild([&] {
    switch (op) {
    case 0: return checkpoint::getSize(p) > 0;
    case 1: return checkpoint::serialize(p) != nullptr;
    case 2: return checkpoint::getMemoryFootprint(p) > 0;
    case 3: { std::ostringstream os; checkpoint::serializeToStream(p, static_cast<std::ostream&>(os)); return os.good(); }
    case 4: checkpoint::serializeToFile(p, scratchDir() + "/c24.f"); return true;
    case 5: return checkpoint::serialize<R>(*p) != nullptr;
    case 6: { std::vector<std::unique_ptr<R>> v; v.push_back(std::make_unique<R>()); v.push_back(std::move(p)); v.push_back(nullptr); return checkpoint::serialize(v) != nullptr; }
    default: { std::string b = pack(p); auto q = checkpoint::deserialize<std::unique_ptr<R>>(&b[0]); return !whole || text(*q) == want; }
    }
  });
  judge(o, stop, what);
}
template <typename R> void targets(Src& s, Ctx& c) {
  std::vector<size_t> good;
  auto& t = table<R>();
  for (size_t i = 0; i < t.size(); i++) if (allDeclared(t[i].path)) good.push_back(i);
  size_t a = good[s.draw(good.size())], b = s.draw(3) ? good[s.draw(good.size())] : a;
  bool null = s.chance(1, 6);
  auto p = t[a].make(), q = t[b].make(); p->fill(s); q->fill(s);
  if (null) q.reset();
  int med = int(s.draw(3)), hold = int(s.draw(4));
  bool stop = !null && a != b;
  static char const* const holds[] = {"unique_ptr", "vector", "raw pointer", "member"};
  std::string what = strf("restoring %s in place over %s (%s, %s)", name(t[a].path).c_str(), null ? "null" : name(t[b].path).c_str(), holds[hold], med == Mem ? "buffer" : med == Stream ? "stream" : "file");
  c.note(what); c.nontrivial(); c.label(stop ? "another dynamic type" : null ? "null target" : "same dynamic type"); c.label(holds[hold]);
  std::string want = text(p);
  Outcome o = inChild([&] {
    switch (hold) {
    case 0: { std::string b = pack(p); restoreIn(q, b, med); return text(q) == want; }
    case 1: {
      std::vector<std::unique_ptr<R>> v, w; v.push_back(nullptr); v.push_back(std::move(p)); w.push_back(nullptr); w.push_back(std::move(q));
      std::string b = pack(v); restoreIn(w, b, med); return text(w[1]) == want;
    }
    case 2: {
      RawHolder<R> v, w; v.p = p.release(); w.p = q.release();
      std::string b = pack(v); restoreIn(w, b, med); q.reset(w.p); return text(q) == want && w.after == 5;
    }
    default: {
      std::pair<int, std::unique_ptr<R>> v{3, std::move(p)}, w{4, std::move(q)};
      std::string b = pack(v); restoreIn(w, b, med); return text(w.second) == want && w.first == 3;
    }
    }
  });
  judge(o, stop, what);
}
template <typename R> void noWay(Src& s, Ctx& c) {
  bool bad = s.draw(3) != 0;
  std::vector<std::unique_ptr<R>> v;
  size_t n = s.draw(3);
  auto& t = table<R>();
  auto some = [&] { for (;;) { auto const& e = t[s.draw(t.size())]; if (allDeclared(e.path)) return e.make(); } };
  for (size_t i = 0; i < n; i++) v.push_back(some());
  if (bad) v.push_back(std::make_unique<NoWay<R>>(int(s.draw(50))));
  v.push_back(s.draw(2) ? some() : nullptr);
  for (auto& p : v) if (p) p->fill(s);
  std::string want; for (auto& p : v) want += text(p) + ";";
  std::string what = strf("restoring %zu objects%s", v.size(), bad ? ", one of a class that cannot be created" : "");
  c.note(what); c.nontrivial(); c.label(bad ? "cannot be created" : "can be created");
  // writing is always possible
  Outcome w = inChild([&] { return !pack(v).empty() && checkpoint::getMemoryFootprint(v) > 0; });
  judge(w, false, "writing, before " + what);
  int med = int(s.draw(2));
  Outcome o = inChild([&] {
    std::string b = pack(v);
    std::vector<std::unique_ptr<R>> u;
    if (med == 0) u = std::move(*checkpoint::deserialize<std::vector<std::unique_ptr<R>>>(&b[0])); else restoreIn(u, b, 1 + int(n % 2));
    std::string g; for (auto& p : u) g += text(p) + ";";
    return g == want;
  });
  judge(o, bad, what);
}
}  // namespace c24

namespace pbt {
void registerUnits() {
  using namespace c24;
  enter<RootM, RootM, 4>({});
  enter<RootC, RootC, 3>({});
  addUnit("declarations, macro root", declarations<RootM>, 8);
  addUnit("declarations, CRTP root", declarations<RootC>, 4);
  addUnit("in-place targets, macro root", targets<RootM>, 4);
  addUnit("in-place targets, CRTP root", targets<RootC>, 4);
  addUnit("classes that cannot be created, macro root", noWay<RootM>, 1);
  addUnit("classes that cannot be created, CRTP root", noWay<RootC>, 1);
}
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
