// C15: a checkpoint written by one run of the program is restored by any other run, whatever either did before.
// The program re-executes itself: two writers and a reader, each with its own history and order of items.
#include "../pbt/ops.h"
#include <fcntl.h>
#include <clocale>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pbt;
extern char** environ;

struct Item { size_t type; uint64_t seed; uint64_t medium; std::string file; };
struct Plan { char role = 'W'; uint64_t history = 0; unsigned steps = 0; std::vector<Item> items; };

static void save(Plan const& p, std::string const& f) {
  std::ofstream o(f);
  o << p.role << ' ' << p.history << ' ' << p.steps << ' ' << p.items.size() << '\n';
  for (auto& i : p.items) o << i.type << ' ' << i.seed << ' ' << i.medium << ' ' << i.file << '\n';
}
static Plan load(std::string const& f) {
  std::ifstream i(f); Plan p; size_t n = 0;
  i >> p.role >> p.history >> p.steps >> n;
  for (size_t k = 0; k < n; k++) { Item it; i >> it.type >> it.seed >> it.medium >> it.file; p.items.push_back(it); }
  if (!i) { fprintf(stderr, "bad plan\n"); _exit(9); }
  return p;
}
static Obj valueOf(Item const& it) {
  Src s(it.seed, childRecord()); s.budget = 256;
  return genObj(ops()[it.type], s);
}

// Something the process does before and between: uses of arbitrary types, failed operations, changes of its surroundings.
static void historyStep(Src& s) {
  s.budget = 64;
  auto& o = ops()[s.draw(ops().size())];
  uint64_t k = s.draw(10);
  auto work = [&] {
    Obj v = genObj(o, s);
    switch (k) {
    case 0: o.getSize(v.p); break;
    case 1: o.ser(v.p, nullptr); break;
    case 2: { Bytes b(serBytes(o, v.p)); Obj w(o, o.des(b.p)); break; }
    case 3: o.footprint(v.p, 0); break;
    case 4: { TmpFile f("hist"); o.toFile(v.p, f.path); Obj w(o, o.fromFile(f.path)); break; }
    case 5: { std::stringstream ss; o.toStream(v.p, kBase, ss); Obj w(o, o.fromStream(kBase, ss)); break; }
    case 6: {   // read as another type: rejected
      auto& w = ops()[s.draw(ops().size())];
      if (*w.ti == *o.ti) break;
      Bytes b(serBytes(o, v.p));
      try { Obj x(w, w.des(b.p)); } catch (std::exception const&) {}
      break;
    }
    case 7: try { Obj x(o, o.fromFile(scratchDir() + "/does-not-exist")); } catch (std::exception const&) {} break;
    default: { o.ser(v.p, nullptr); o.getSize(v.p); break; }
    }
  };
  if (s.draw(5) == 4) { std::thread t(work); t.join(); }
  else work();
  switch (s.draw(8)) {
  case 5: { static std::vector<std::unique_ptr<char[]>> hold; for (uint64_t i = s.draw(6) + 1; i--;) hold.emplace_back(new char[1 + s.draw(5000)]); break; }
  case 6: if (chdir(s.draw(2) ? "/" : scratchDir().c_str())) {} break;
  case 7: umask(s.draw(2) ? 022 : 077); setlocale(LC_ALL, s.draw(2) ? "C.UTF-8" : "C"); break;
  }
}

static int child(std::string const& file) {
  Plan p = load(file);
  std::string problem;
  auto hs = std::make_unique<Record>();
  Src h(p.history, hs.get());
  for (unsigned k = 0; k < p.steps; k++) historyStep(h);
  try {
    for (auto& it : p.items) {
      auto& o = ops()[it.type];
      if (h.draw(4) == 3) historyStep(h);
      Obj want = valueOf(it);
      if (p.role == 'W') {
        switch (it.medium) {
        case 0: o.toFile(want.p, it.file); break;
        case 1: { std::ofstream f(it.file, std::ios::binary | std::ios::trunc); o.toStream(want.p, kBase, f); break; }
        default: spit(it.file, serBytes(o, want.p));
        }
        continue;
      }
      Obj got;
      switch (it.medium) {
      case 0: got = Obj(o, o.fromFile(it.file)); break;
      case 1: { std::ifstream f(it.file, std::ios::binary); got = Obj(o, o.fromStream(kBase, f)); break; }
      case 2: { Bytes b(slurp(it.file)); got = Obj(o, o.des(b.p)); break; }
      default: { Src s(it.seed + 1, childRecord()); s.budget = 64; got = Obj(o, o.prior(s, want.p)); o.fromFileIn(it.file, got.p); }
      }
      std::string a = want.rep(), b = got.rep();
      if (a != b) { problem = strf("value of %s read by another process: %s", o.name, firstDiff(a, b).c_str()); break; }
    }
  } catch (std::exception const& e) { problem = strf("process %c threw: %s", p.role, e.what()); }
  catch (Failure const& f) { problem = f.msg; }
  std::ofstream o(file + ".out"); o << "done\n" << problem;
  return 0;
}

static pid_t spawn(std::string const& plan) {
  auto args = childArgs(); args.push_back("--child"); args.push_back(plan);
  std::vector<char*> av; for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  pid_t pid = 0;
  int rc = posix_spawn(&pid, "/proc/self/exe", nullptr, nullptr, av.data(), environ);
  PBT_CHECK(rc == 0, "cannot start a child: %d", rc);
  return pid;
}
static void finish(pid_t pid, std::string const& plan, char const* who) {
  int st = 0; waitpid(pid, &st, 0);
  std::string out = slurp(plan + ".out");
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s ended with status %x", who, st);
  PBT_CHECK(out.rfind("done\n", 0) == 0, "%s did not finish", who);
  PBT_CHECK(out.size() == 5, "%s: %s", who, out.c_str() + 5);
}
static void history(Src& s, Ctx& c) {
  size_t n = 1 + s.draw(thorough() ? 16 : 10);
  std::string base = tmpFile("c15");
  Plan w1, w2, r; r.role = 'R';
  std::vector<size_t> types;
  for (size_t i = 0; i < n; i++) {
    Item it{s.draw(ops().size()), s.draw(1u << 30), 0, ""};
    types.push_back(it.type);
    it.medium = s.draw(3); it.file = base + ".a" + std::to_string(i); w1.items.push_back(it);
    it.medium = s.draw(3); it.file = base + ".b" + std::to_string(i); w2.items.push_back(it);
    it.medium = s.draw(4); it.file = base + (s.draw(2) ? ".a" : ".b") + std::to_string(i); r.items.push_back(it);
  }
  for (Plan* p : {&w1, &w2, &r}) {
    p->history = s.draw(1u << 30); p->steps = unsigned(s.draw(6)) * unsigned(s.draw(4));
    if (p != &w1) for (size_t i = n; i-- > 1;) std::swap(p->items[i], p->items[s.draw(i + 1)]);
  }
  struct Clean { std::string base; size_t n; ~Clean() {
    for (char const* k : {".a", ".b"}) for (size_t i = 0; i < n; i++) remove((base + k + std::to_string(i)).c_str());
    for (char const* k : {".w1", ".w2", ".r"}) for (char const* e : {"", ".out"}) remove((base + k + e).c_str());
  } } clean{base, n};
  save(w1, base + ".w1"); save(w2, base + ".w2"); save(r, base + ".r");
  pid_t p1 = spawn(base + ".w1"), p2 = spawn(base + ".w2");
  std::string e1;
  try { finish(p1, base + ".w1", "the first writer"); } catch (Failure const& f) { e1 = f.msg; }
  finish(p2, base + ".w2", "the second writer");
  PBT_CHECK(e1.empty(), "%s", e1.c_str());
  for (size_t i = 0; i < n; i++) {
    auto& o = ops()[types[i]];
    c.note(std::string(o.name) + " ");
    std::string a = slurp(base + ".a" + std::to_string(i)), b = slurp(base + ".b" + std::to_string(i));
    PBT_CHECK(a.size() == b.size(), "%s: two processes wrote %zu and %zu bytes for equal values", o.name, a.size(), b.size());
    if (!paddedName(o.name)) PBT_CHECK(a == b, "%s: two processes wrote different bytes for equal values: %s", o.name, firstDiff(a, b).c_str());
  }
  finish(spawn(base + ".r"), base + ".r", "the reader");
  c.nontrivial(n >= 2 && (w1.steps || w2.steps || r.steps));
  c.label("items", n);
  c.label("history steps", w1.steps + w2.steps + r.steps);
}
namespace pbt {
void registerUnits() { addUnit("history", history); }
}
int main(int argc, char** argv) { childMain = child; return runMain(argc, argv, false); }
