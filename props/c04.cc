// C04: file checkpoints restore exactly and fully replace older contents.
#include "../pbt/ops.h"
#include <sys/stat.h>
#include <sys/fsuid.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;

static std::string odd(Src& s) {
  switch (s.draw(5)) { case 0: return ""; case 1: return " with space"; case 2: return ".d\xc3\xa9j\xc3\xa0"; case 3: return std::string(100, 'n'); default: return ".%d%s"; }
}

// Makes this thread another user as far as access to files is concerned (when it runs as root and that user could read the file).
struct Reader {
  bool on;
  explicit Reader(std::string const& path) : on(geteuid() == 0) {
    if (!on) return;
    setfsuid(65534);
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) { leave(); on = false; } else close(fd);
  }
  ~Reader() { if (on) leave(); }
  static void leave() { setfsuid(0); prctl(PR_SET_DUMPABLE, 1); }     // (the leak checker needs a dumpable process)
};

static void file(TypeOps const& o, Src& s, Ctx& c) {
  std::string path = tmpFile("c04") + odd(s), link;
  struct Rm { std::string p, l; ~Rm() { remove(p.c_str()); if (!l.empty()) remove(l.c_str()); } } rm{path, ""};
  remove(path.c_str());
  switch (s.draw(8)) {
  case 6: rm.l = path + ".l"; remove(rm.l.c_str()); PBT_CHECK(symlink(path.c_str(), rm.l.c_str()) == 0, "symlink"); path = rm.l; c.label("through a symbolic link"); break;
  case 7: PBT_CHECK(chdir(scratchDir().c_str()) == 0, "chdir"); path = (s.draw(2) ? "./" : "") + path.substr(scratchDir().size() + 1); c.label("relative path"); break;
  }
  std::string old;
  if (s.draw(3)) {                                     // whatever was in the file before
    size_t n = s.pick({1ull, 4095ull, 4096ull, 4097ull, 100000ull, 1ull << 20});
    if (s.draw(2)) n = 1 + s.draw(600);
    old.assign(n, 'O'); for (size_t i = 0; i < n; i += 7) old[i] = (char)(i * 31);
    spit(path, old);
    c.label("file existed before");
  }
  size_t rounds = 1 + s.draw(3);
  std::string prev = old;
  for (size_t k = 0; k < rounds; k++) {
    Split sp(s, rounds);
    Obj v = genObj(o, s);
    std::string want = v.rep();
    c.nontrivial(nontrivialValue(want)); c.note(clip(want, 120));
    o.toFile(v.p, path);
    std::string bytes = serBytes(o, v.p), got = slurp(path);
    PBT_CHECK(got.size() == bytes.size(), "%s: file holds %zu bytes, the checkpoint has %zu (file held %zu before)", o.name, got.size(), bytes.size(), prev.size());
    PBT_EQ(o, got, bytes, "bytes in the file");
    if (prev.size() > got.size()) c.label("shorter than the old contents"); else if (!prev.empty()) c.label("not shorter than the old contents");
    for (int t = 0; t < 2; t++) {
      if (s.draw(2)) {
        Obj r(o, o.fromFile(path));
        PBT_EQ(o, r.rep(), want, "value read from the file");
      } else {
        Obj r(o, o.prior(s, v.p));
        o.fromFileIn(path, r.p);
        PBT_EQ(o, r.rep(), want, "value read in place from the file");
      }
      std::string after = slurp(path);
      PBT_CHECK(after == got, "reading changed the file (%s)", o.name);
    }
    if (s.chance(1, 4)) {                                // a reader may read the file and nothing else
      chmod(path.c_str(), 0444);
      Obj r;
      { Reader u(path); if (u.on) c.label("read as a user who may not write the file"); r = Obj(o, o.fromFile(path)); }
      chmod(path.c_str(), 0600);
      PBT_EQ(o, r.rep(), want, "value read from a read-only file");
    }
    PBT_EQ(o, v.rep(), want, "source after writing the file");
    prev = got;
  }
}

namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { file(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
