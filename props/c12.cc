// C12 (PROP=12): file I/O failures are reported and release resources. C20 (PROP=20): a finished file checkpoint has been flushed and closed.
#include "../pbt/ops.h"
#include "sysfault.h"
#include <fcntl.h>
#include <signal.h>
#include <sched.h>
#include <sys/mount.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace sysf;

static std::vector<int> const& errnosOf(std::string const& k) {
  static std::map<std::string, std::vector<int>> m{
    {"open", {EACCES, EMFILE, ENOSPC, EINTR, EIO}}, {"stat", {EIO, EOVERFLOW}}, {"lseek", {EIO}},
    {"fallocate", {ENOSPC, EOPNOTSUPP, ENOSYS, EDQUOT, EINTR}}, {"ftruncate", {EIO, EFBIG, EPERM}},
    {"sync", {EIO, ENOSPC, EDQUOT, EINVAL}}, {"mmap", {ENOMEM, EACCES, ENODEV}}, {"msync", {EIO, ENOMEM, EBUSY}},
    {"munmap", {EINVAL, ENOMEM}}, {"close", {EIO, EINTR, ENOSPC, EDQUOT}}, {"write", {EIO, ENOSPC}}, {"read", {EIO}}, {"rename", {EIO}}};
  return m[k];
}

enum Op { kWrite, kRead, kReadIn };
struct Case {
  TypeOps const& o; Src& s; Obj const& v; std::string const& rep; std::string const& bytes; std::string path; Op op;
  std::string old;          // contents of the file before (writing)
  bool noStdin = false;
};
struct Outcome { bool threw = false; std::string what; std::string bad; };

// A process without a standard input: the next file opened gets descriptor 0.
struct NoStdin {
  int save = -1;
  explicit NoStdin(bool on) { if (on && (save = fcntl(0, F_DUPFD, 200)) >= 0) close(0); }
  ~NoStdin() { if (save >= 0) { dup2(save, 0); close(save); } }
};

static Outcome attempt(Case const& k, Watch& w, uint64_t priorSeed) {
  Outcome r;
  NoStdin without(k.noStdin);
  auto before = openFds();
  Obj got;
  if (k.op == kReadIn) { static Record rec; Src s2(priorSeed, &rec); s2.budget = 20; got = Obj(k.o, k.o.prior(s2, k.v.p)); }
  w.arm();
  try {
    if (k.op == kWrite) k.o.toFile(k.v.p, k.path);
    else if (k.op == kRead) got = Obj(k.o, k.o.fromFile(k.path));
    else k.o.fromFileIn(k.path, got.p);
    w.disarm();
  } catch (std::runtime_error const& e) { w.disarm(); r.threw = true; r.what = e.what(); }
  catch (std::exception const& e) { w.disarm(); r.bad = std::string("exception that is not a runtime error: ") + typeid(e).name() + " " + e.what(); return r; }
  catch (...) { w.disarm(); r.bad = "exception that is not a runtime error"; return r; }
  auto after = openFds();
  if (after != before) { r.bad = strf("%zu descriptors open before, %zu after", before.size(), after.size()); return r; }
  if (mappedAnywhere(k.path)) { r.bad = "the file is still mapped"; return r; }
  if (!w.misuse.empty()) { r.bad = w.misuse; return r; }
  if (r.threw) return r;
  if (k.op == kWrite) {
    std::string f = slurp(k.path);
    if (f != k.bytes) { r.bad = "returned normally, but the file is not the checkpoint: " + firstDiff(k.bytes, f); return r; }
  } else {
    std::string g = got.rep();
    if (g != k.rep) r.bad = "returned normally, but the value differs: " + firstDiff(k.rep, g);
  }
  return r;
}

static void prepare(Case const& k) {
  remove(k.path.c_str());
  if (k.op == kWrite) { if (!k.old.empty()) spit(k.path, k.old); } else spit(k.path, k.bytes);
}
static char const* opName(Op o) { return o == kWrite ? "writing" : o == kRead ? "reading" : "reading in place"; }
static void judge(Case const& k, Outcome const& r, Watch const& w, bool mustSucceed) {
  PBT_CHECK(r.bad.empty(), "%s %s: %s [calls: %s]", opName(k.op), k.o.name, r.bad.c_str(), w.text().c_str());
  PBT_CHECK(!mustSucceed || !r.threw, "%s %s failed although nothing failed: %s [calls: %s]", opName(k.op), k.o.name, r.what.c_str(), w.text().c_str());
}
static void flushed(Case const& k, Watch const& w) {
  auto d = durableOf(w, k.path);
  PBT_CHECK(d, "%s %s returned without ever flushing the file [calls: %s]", opName(k.op), k.o.name, w.text().c_str());
  PBT_CHECK(*d == k.bytes, "%s %s returned, but what was flushed to the file is not the checkpoint (%zu of %zu bytes): %s [calls: %s]", opName(k.op), k.o.name, d->size(), k.bytes.size(),
            firstDiff(k.bytes, *d).c_str(), w.text().c_str());
}

static void faulted(Case const& k, Ctx& c, std::vector<Fault> const& fs, uint64_t ps) {
  prepare(k);
  Watch w; w.faults = fs;
  Outcome r = attempt(k, w, ps);
  judge(k, r, w, false);
  size_t hit = 0; bool mustReport = false, unsupportedOnly = true; std::string which;
  for (size_t i = 0; i < w.calls.size(); i++) {
    auto& x = w.calls[i];
    if (!x.faulted) continue;
    hit++;
    c.label(x.name + " fails");
    bool repeated = false;
    for (size_t j = i + 1; j < w.calls.size(); j++) repeated |= w.calls[j].name == x.name && !w.calls[j].faulted && w.calls[j].ret != -1;
    bool lost = x.err == EIO || x.err == ENOSPC || x.err == EDQUOT;
    // what must not be swallowed even though the bytes happen to be there: lost data, missing space
    if (k.op == kWrite && ((x.name == "sync" || x.name == "msync" || x.name == "close" || x.name == "write") ? lost : x.name == "fallocate" && (x.err == ENOSPC || x.err == EDQUOT)) && !(repeated && !lost))
      { mustReport = true; which = x.name + " failing with " + errName(x.err); }
    if (x.name != "fallocate" || (x.err != EOPNOTSUPP && x.err != ENOSYS)) unsupportedOnly = false;
  }
  if (!hit) return;
  if (!r.threw) c.label("fault tolerated"); else c.label("fault reported");
  PBT_CHECK(r.threw || !mustReport, "%s %s: %s was not reported [calls: %s]", opName(k.op), k.o.name, which.c_str(), w.text().c_str());
  PBT_CHECK(!(r.threw && unsupportedOnly), "%s %s failed only because preallocation is not supported: %s [calls: %s]", opName(k.op), k.o.name, r.what.c_str(), w.text().c_str());
  if (!r.threw && k.op == kWrite) flushed(k, w);
  // without the fault it works
  if (k.op != kWrite) prepare(k);
  Watch w2;
  Outcome r2 = attempt(k, w2, ps);
  judge(k, r2, w2, true);
}

static std::string oldContents(Src& s, size_t n) {
  switch (s.draw(4)) {
  case 0: case 1: return "";
  case 2: return std::string(1 + s.draw(2 * n + 10), 'O');
  default: return std::string(s.pick({4096ull, 4097ull, 20000ull}), 'o');
  }
}

#if PROP == 12
static void one(TypeOps const& o, Src& s, Ctx& c) {
  s.budget = 1 + s.draw(60);
  Obj v = genObj(o, s);
  std::string rep = v.rep(), bytes = serBytes(o, v.p);
  TmpFile f("c12");
  Case k{o, s, v, rep, bytes, f.path, Op(s.draw(3)), ""};
  k.old = oldContents(s, bytes.size());
  uint64_t ps = s.draw(1000);
  if ((k.noStdin = s.chance(1, 6))) c.label("no standard input");
  prepare(k);
  Watch w;
  Outcome r = attempt(k, w, ps);
  judge(k, r, w, true);
  size_t n = w.calls.size();
  std::vector<std::string> names;
  for (auto& x : w.calls) names.push_back(x.name);
  c.nontrivial(n > 0); c.note(std::string(opName(k.op)) + " " + clip(rep, 120) + " calls: " + w.text());
  // every single call fails, with every errno of its class (each is one fault plan)
  if (thorough() || s.draw(3) == 0) {
    for (size_t i = 0; i < n; i++) for (int e : errnosOf(names[i])) { faulted(k, c, {{int(i), "", e, 1}}, ps); c.label("fault plans"); }
    c.label("all single faults");
  } else {
    for (size_t i = 0; i < n; i++) { auto& es = errnosOf(names[i]); if (es.empty()) continue; faulted(k, c, {{int(i), "", es[s.draw(es.size())], 1}}, ps); c.label("fault plans"); }
  }
  // a kind of call that never works
  if (n) { auto& nm = names[s.draw(n)]; auto& es = errnosOf(nm); if (!es.empty()) { faulted(k, c, {{-1, nm, es[s.draw(es.size())], 1000}}, ps); c.label("fault plans"); } }
  // no preallocation, and one other call fails
  if (k.op == kWrite && n > 1) {
    size_t j = s.draw(n); auto& es = errnosOf(names[j]);
    if (!es.empty() && names[j] != "fallocate") { faulted(k, c, {{-1, "fallocate", EOPNOTSUPP, 1000}, {int(j), "", es[s.draw(es.size())], 1}}, ps); c.label("fault plans"); }
  }
  // two faults, the second one often during the cleanup after the first
  for (int t = 0; n && t < 4; t++) {
    size_t i = s.draw(n); auto& ei = errnosOf(names[i]);
    if (ei.empty()) continue;
    int j = int(i + 1 + s.draw(3));
    std::vector<Fault> fs{{int(i), "", ei[s.draw(ei.size())], 1}};
    if (s.draw(2)) fs.push_back({j, "", EIO, 1}); else fs.push_back({-1, s.draw(2) ? "close" : "munmap", EIO, 1000});
    faulted(k, c, fs, ps); c.label("fault plans");
  }
}

// Failures of the real system, without injection.
static void real(TypeOps const& o, Src& s, Ctx& c) {
  s.budget = 1 + s.draw(60);
  Obj v = genObj(o, s);
  std::string rep = v.rep(), bytes = serBytes(o, v.p);
  TmpFile f("c12r");
  uint64_t kind = s.draw(12), ps = s.draw(1000);
  Case k{o, s, v, rep, bytes, f.path, Op(s.draw(3)), ""};
  prepare(k);
  Case bad = k; bad.path = f.path;
  struct rlimit save{}, lim{};
  bool must = true;
  char const* name = "";
  switch (kind) {
  case 0: name = "missing directory"; bad.path = f.path + ".d/x"; break;
  case 1: name = "directory"; bad.path = scratchDir(); break;
  case 2: name = "empty name"; bad.path = ""; break;
  case 3: name = "name too long"; bad.path = scratchDir() + "/" + std::string(300, 'x'); break;
  case 4: name = "path through a file"; spit(f.path, "x"); bad.path = f.path + "/x"; break;
  case 5: name = "empty file"; if (bad.op == kWrite) { must = false; } spit(f.path, ""); break;
  case 6: name = "symbolic link to itself"; remove(f.path.c_str()); if (symlink(f.path.c_str(), f.path.c_str())) return; break;
  case 7: name = "device without contents"; bad.path = bad.op == kWrite ? "/dev/full" : "/dev/null"; break;
  case 8: {
    name = "descriptor limit"; getrlimit(RLIMIT_NOFILE, &save); lim = save;
    lim.rlim_cur = rlim_t(openFds().back() + 1);
    int fd; std::vector<int> fill;
    setrlimit(RLIMIT_NOFILE, &lim);
    while ((fd = dup(2)) >= 0) fill.push_back(fd);
    Outcome r;
    bool threw = false; std::string odd;
    try { if (bad.op == kWrite) o.toFile(v.p, bad.path); else Obj g(o, o.fromFile(bad.path)); } catch (std::runtime_error const&) { threw = true; } catch (...) { odd = "another exception"; }
    for (int x : fill) close(x);
    setrlimit(RLIMIT_NOFILE, &save);
    PBT_CHECK(threw && odd.empty(), "%s %s with no descriptor left did not fail with a runtime error", opName(bad.op), o.name);
    must = false;
    break;
  }
  case 9: case 10: {
    if (bad.op != kWrite) { name = "file of another size limit"; must = false; break; }
    name = "file size limit"; signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &save); lim = save; lim.rlim_cur = rlim_t(s.draw(bytes.size()));
    remove(f.path.c_str());
    setrlimit(RLIMIT_FSIZE, &lim);
    Watch w; Outcome r = attempt(bad, w, ps);
    setrlimit(RLIMIT_FSIZE, &save);
    judge(bad, r, w, false);
    PBT_CHECK(r.threw, "%s %s over the file size limit did not fail [calls: %s]", opName(bad.op), o.name, w.text().c_str());
    must = false;
    break;
  }
  default: {   // a full filesystem of its own, when the sandbox allows one
    name = "full filesystem";
#ifndef checkpoint_has_fallocate
    return;          // nothing reserves the blocks: the kernel notices when a page is written
#endif
    std::string dir = f.path + ".mnt";
    mkdir(dir.c_str(), 0700);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      auto put = [](char const* f, char const* d) { int fd = open(f, O_WRONLY); if (fd < 0) return false; bool ok = write(fd, d, strlen(d)) == ssize_t(strlen(d)); close(fd); return ok; };
      std::string um = "0 " + std::to_string(getuid()) + " 1", gm = "0 " + std::to_string(getgid()) + " 1";
      if (unshare(CLONE_NEWUSER | CLONE_NEWNS) || !put("/proc/self/setgroups", "deny") || !put("/proc/self/uid_map", um.c_str()) || !put("/proc/self/gid_map", gm.c_str()) || mount("tmpfs", dir.c_str(), "tmpfs", 0, "size=64k")) _exit(9);
      int rc = 0;
      try {
        { int fd = open((dir + "/probe").c_str(), O_CREAT | O_WRONLY, 0600); if (fd < 0) _exit(9); close(fd); remove((dir + "/probe").c_str()); }
        std::string big(size_t(1) << 20, 'b');
        TypeOps const* so = nullptr;
        for (auto& t : ops()) if (*t.ti == typeid(std::string)) so = &t;
        if (!so) _exit(9);
        for (int t = 0; t < 2 && !rc; t++) { try { so->toFile(&big, dir + "/x"); rc = 2; } catch (std::runtime_error const&) {} catch (...) { rc = 3; } }
        remove((dir + "/x").c_str());
        std::string small(size_t(1 + ps), 's');
        if (!rc) { so->toFile(&small, dir + "/y"); void* p = so->fromFile(dir + "/y"); if (*static_cast<std::string*>(p) != small) rc = 4; so->del(p); }
      } catch (std::exception const& e) { fprintf(stderr, "full filesystem: %s\n", e.what()); rc = 5; }
      _exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0);
    rmdir(dir.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { c.label("full filesystem: not possible here"); return; }
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "writing to a full filesystem: %s",
              WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : WEXITSTATUS(st) == 2 ? "no error reported" : WEXITSTATUS(st) == 3 ? "not a runtime error" : "does not work again afterwards");
    must = false;
  }
  }
  c.label(name); c.nontrivial(); c.note(std::string(name) + ", " + opName(bad.op) + " " + clip(rep, 100));
  if (must) {
    auto lookup = bad;
    Watch w; Outcome r = attempt(lookup, w, ps);
    PBT_CHECK(r.bad.empty(), "%s %s (%s): %s", opName(bad.op), o.name, name, r.bad.c_str());
    PBT_CHECK(r.threw, "%s %s: no error for: %s", opName(bad.op), o.name, name);
  }
  if (kind == 6) remove(f.path.c_str());
  prepare(k);
  Watch w2; Outcome r2 = attempt(k, w2, ps);
  judge(k, r2, w2, true);
}
#else
static void one(TypeOps const& o, Src& s, Ctx& c) {
  TmpFile f("c20");
  size_t n = 1 + s.draw(3);
  for (size_t t = 0; t < n; t++) {
    s.budget = 1 + s.draw(4000);
    Obj v = genObj(o, s);
    if (*o.ti == typeid(std::string) && s.draw(2)) {      // a file that ends exactly at, or around, a page boundary
      std::string e; size_t over = o.getSize(&e);
      size_t pages = 1 + s.draw(20); if (s.chance(1, 8)) pages = s.pick({64ull, 128ull, 256ull, 512ull, 1024ull});
      size_t total = pages * 4096 + s.draw(5) - 2;
      uint64_t seed = s.draw(256);
      std::string big(total - over, '\0'); for (size_t i = 0; i < big.size(); i++) big[i] = char(i * 131 + seed + i / 4096);
      *static_cast<std::string*>(v.p) = big;
      c.label("page boundary");
    }
    std::string rep = v.rep(), bytes = serBytes(o, v.p);
    Case k{o, s, v, rep, bytes, f.path, kWrite, ""};
    if (t == 0) { k.old = oldContents(s, bytes.size()); prepare(k); }
    uint64_t ps = s.draw(1000);
    if ((k.noStdin = s.chance(1, 6))) c.label("no standard input");
    c.nontrivial(nontrivialValue(rep)); c.note(strf("%zu bytes; ", bytes.size()));
    if (s.chance(1, 12)) {
      // the process dies right after the call returned
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) { try { o.toFile(v.p, f.path); } catch (...) { _exit(1); } kill(getpid(), SIGKILL); }
      int st = 0; waitpid(pid, &st, 0);
      PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "writing %s in a child failed", o.name);
      PBT_EQ(o, slurp(f.path), bytes, "file left by a process that died");
      c.label("process died");
    }
    Watch w; Outcome r = attempt(k, w, ps);
    judge(k, r, w, true);
    flushed(k, w);
    for (auto op : {kRead, kReadIn}) {
      Case q = k; q.op = op;
      Watch wr; Outcome rr = attempt(q, wr, ps);
      judge(q, rr, wr, true);
      PBT_CHECK(!wr.writing, "%s %s opened the file for writing", opName(op), o.name);
    }
    // a call that flushes fails: the write may not be reported as finished
    size_t i = w.calls.size();
    for (size_t x = 0; x < w.calls.size(); x++) if ((w.calls[x].name == "sync" || w.calls[x].name == "msync") && s.draw(2)) { i = x; break; }
    if (i < w.calls.size()) {
      auto& es = errnosOf(w.calls[i].name);
      Watch wf; wf.faults = {{int(i), "", es[s.draw(es.size())], 1}};
      Outcome rf = attempt(k, wf, ps);
      judge(k, rf, wf, false);
      if (!rf.threw) flushed(k, wf);
      c.label("flush fails");
      Watch wg; Outcome rg = attempt(k, wg, ps);
      judge(k, rg, wg, true); flushed(k, wg);
    }
  }
}
#endif

namespace pbt {
void registerUnits() {
  for (auto& o : ops()) {
    addUnit(o.name, [&o](Src& s, Ctx& c) { one(o, s, c); });
#if PROP == 12
    if (*o.ti == typeid(std::string) || *o.ti == typeid(int) || *o.ti == typeid(std::vector<int>)) addUnit(std::string("real failures: ") + o.name, [&o](Src& s, Ctx& c) { real(o, s, c); }, 6);
#else
    if (*o.ti == typeid(std::string)) addUnit(std::string("page boundaries: ") + o.name, [&o](Src& s, Ctx& c) { one(o, s, c); }, 12);
#endif
  }
}
}
int main(int argc, char** argv) { return runMain(argc, argv, PROP == 12); }
