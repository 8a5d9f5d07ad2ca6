// C19: threads working on objects of their own obtain what they would obtain alone.
// Every case runs twice in fresh processes: the scripts one after the other, then concurrently.
#include "../pbt/ops.h"
#include <atomic>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pbt;

// Objects that can only be footprinted, made by each thread for itself.
struct Opaque { double d = 1; std::string s = "not serializable"; };
static size_t footOnly(size_t off) {
  size_t k = off % 5;
  std::vector<Opaque> v(k);
  std::shared_ptr<std::string> sp = k ? std::make_shared<std::string>(k, 'x') : nullptr;
  std::unique_ptr<int> owner(new int(1)); int* raw = owner.get();
  std::atomic<int> at{1}; std::function<void(int)> fn;
  Opaque one;
  using checkpoint::getMemoryFootprint;
  return getMemoryFootprint(v, off) * 31 + getMemoryFootprint(sp) * 37 + getMemoryFootprint(raw) * 41 + getMemoryFootprint(at) * 43 + getMemoryFootprint(fn) * 47 + getMemoryFootprint(one);
}

struct Step { unsigned kind; size_t off; size_t other; };
struct Script {
  TypeOps const* o; Obj v, prior; std::vector<Step> steps; std::vector<std::string> results;
};

static std::string hexOf(std::string const& b) { uint64_t h = hashBytes(b.data(), b.size()); std::string r = std::to_string(b.size()) + ":"; putHex(r, &h, 8); return r; }
// Padding bytes of byte-copied types differ between processes: only the size is compared then.
static void runScript(Script& sc, std::string const& file) {
  auto& o = *sc.o;
  bool pad = paddedName(o.name);
  auto hex = [&](std::string const& b) { return pad ? std::to_string(b.size()) : hexOf(b); };
  std::string bytes = serBytes(o, sc.v.p);
  sc.results.push_back("first " + hex(bytes));
  for (auto& st : sc.steps) {
    std::string r;
    try {
      switch (st.kind) {
      case 0: r = "size " + std::to_string(o.getSize(sc.v.p)); break;
      case 1: r = "ser " + hex(serBytes(o, sc.v.p)); break;
      case 2: { Bytes b(bytes); Obj w(o, o.des(b.p)); r = "des " + w.rep(); break; }
      case 3: r = "foot " + std::to_string(o.footprint(sc.v.p, st.off)); break;
      case 4: { Bytes b(bytes); if (sc.prior.p) { o.desIn(b.p, sc.prior.p); r = "in " + sc.prior.rep(); sc.prior = Obj(); } break; }
      case 5: o.toFile(sc.v.p, file); r = "file " + hex(slurp(file)); break;
      case 6: { spit(file, bytes); Obj w(o, o.fromFile(file)); r = "fromfile " + w.rep(); break; }
      case 7: { std::stringstream ss; o.toStream(sc.v.p, kBase, ss); r = "stream " + hex(ss.str()); Obj w(o, o.fromStream(kBase, ss)); r += w.rep(); break; }
      case 8: {   // refused: the error names the types
        auto& w = ops()[st.other];
        if (*w.ti == *o.ti) break;
        Bytes b(bytes);
        try { Obj x(w, w.des(b.p)); r = "accepted as " + std::string(w.name); }
        catch (std::runtime_error const& e) { r = std::string("error ") + e.what(); }
        break;
      }
      case 9: {
        void* mem = aligned_alloc(std::max<size_t>(o.align, 16), (o.size + 64) / 64 * 64);
        Bytes b(bytes);
        void* p = o.desObj(b.p, static_cast<char*>(mem));
        std::string t; o.put(t, p); r = "obj " + t;
        o.destroy(p); free(mem);
        break;
      }
      case 10: { auto ret = o.ser(sc.v.p, nullptr); Obj w(o, o.desRet(std::move(ret))); r = "ret " + w.rep(); break; }
      case 12: r = "footprint only " + std::to_string(footOnly(st.off)); break;
      default: try { Obj w(o, o.fromFile(file + ".none")); r = "read a missing file"; } catch (std::exception const& e) { r = "missing"; } break;
      }
    } catch (std::exception const& e) { r = std::string("threw ") + e.what(); }
    sc.results.push_back(r.size() > 400 ? hexOf(r) : r);
  }
  sc.results.push_back("rep " + hexOf(sc.v.rep()));
}

struct SharedOut { volatile uint64_t n; volatile int done; char text[1 << 22]; };
static SharedOut* shared() {
  static SharedOut* p = static_cast<SharedOut*>(mmap(nullptr, sizeof(SharedOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return p;
}

// Generates the scripts and runs them in a new process; returns all results as text.
static std::string execute(uint64_t seed, size_t threads, size_t steps, bool sameType, std::vector<size_t> const& types, bool concurrent, std::string const& base) {
  auto sh = shared(); sh->n = 0; sh->done = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int rc = 0;
    {
    std::vector<Script> sc(threads);
    for (size_t t = 0; t < threads; t++) {
      Src s(seed + 977 * t, childRecord()); s.budget = thorough() ? 600 : 250;
      auto& o = ops()[types[sameType ? 0 : t]];
      sc[t].o = &o;
      sc[t].v = genObj(o, s);
      s.budget = 60;
      sc[t].prior = Obj(o, o.prior(s, sc[t].v.p));
      for (size_t k = 0; k < steps; k++) sc[t].steps.push_back({unsigned(s.draw(13)), size_t(s.draw(5)), size_t(s.draw(ops().size()))});
    }
    std::atomic<size_t> ready{0}; std::atomic<bool> go{false};
    auto body = [&](size_t t) {
      if (concurrent) { ready++; while (!go.load()) {} }
      runScript(sc[t], base + "." + std::to_string(t));
    };
    if (concurrent) {
      std::vector<std::thread> th;
      for (size_t t = 0; t < threads; t++) th.emplace_back(body, t);
      while (ready.load() < threads) std::this_thread::yield();
      go = true;
      for (auto& x : th) x.join();
    } else for (size_t t = 0; t < threads; t++) body(t);
    std::string out;
    for (size_t t = 0; t < threads; t++) for (size_t k = 0; k < sc[t].results.size(); k++) out += "thread " + std::to_string(t) + " (" + sc[t].o->name + ") step " + std::to_string(k) + " " + sc[t].results[k] + "\n";
    if (out.size() > sizeof sh->text) out.resize(sizeof sh->text);
    memcpy(sh->text, out.data(), out.size()); sh->n = out.size(); sh->done = 1;
    }
    fflush(nullptr);
    _exit(rc);
  }
  PBT_CHECK(pid > 0, "fork failed");
  int st = 0; waitpid(pid, &st, 0);
  for (size_t t = 0; t < threads; t++) remove((base + "." + std::to_string(t)).c_str());
  std::string names; for (size_t t = 0; t < (sameType ? 1 : threads); t++) names += std::string(" ") + ops()[types[t]].name;
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done, "%s run of%s ended with status %x (sanitizer report, abort or crash)", concurrent ? "concurrent" : "sequential", names.c_str(), st);
  return std::string(sh->text, sh->n);
}

static void concurrentCase(Src& s, Ctx& c) {
  size_t threads = 2 + s.draw(7), steps = 1 + s.draw(thorough() ? 12 : 6);
  bool same = s.draw(2) == 0;
  std::vector<size_t> types;
  for (size_t t = 0; t < threads; t++) types.push_back(s.draw(ops().size()));
  uint64_t seed = s.draw(1u << 30);
  std::string base = tmpFile("c19");
  std::string alone = execute(seed, threads, steps, same, types, false, base);
  for (int k = 0; k < (thorough() ? 3 : 1); k++) {
    std::string together = execute(seed, threads, steps, same, types, true, base);
    if (alone != together) {
      std::istringstream a(alone), b(together); std::string la, lb;
      while (std::getline(a, la) && std::getline(b, lb)) if (la != lb) PBT_FAIL("a thread working on its own objects got another result than alone\n  alone    %s\n  together %s", clip(la, 500).c_str(), clip(lb, 500).c_str());
      PBT_FAIL("results of threads differ in number");
    }
  }
  c.nontrivial(steps >= 2);
  c.note(strf("%zu threads, %zu operations each,%s types:", threads, steps, same ? " same" : " own"));
  for (size_t t = 0; t < (same ? 1 : threads); t++) c.note(std::string(" ") + ops()[types[t]].name);
  c.label("threads", threads); c.label("operations", threads * steps);
}
namespace pbt {
void registerUnits() { addUnit("concurrent", concurrentCase); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
