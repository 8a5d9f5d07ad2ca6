// C18: truncated checkpoints are rejected with a runtime error, on streams and files, new or in place.
#include "../pbt/ops.h"
using namespace pbt;

// Hands out its data in pieces, cannot seek, and then ends, by saying so or with an exception (a broken connection).
struct PieceBuf : std::streambuf {
  std::string data; size_t pos = 0, piece; bool breaks; char buf[64];
  PieceBuf(std::string d, size_t k, bool b) : data(std::move(d)), piece(k), breaks(b) {}
  int_type underflow() override {
    if (pos >= data.size()) { if (breaks) throw std::logic_error("connection lost"); return traits_type::eof(); }
    size_t n = std::min({piece, data.size() - pos, sizeof buf});
    memcpy(buf, data.data() + pos, n); pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
  }
};

// The stream `part`, in one of the forms in which it may reach the library.
struct CutStream {
  std::unique_ptr<std::streambuf> sb; std::unique_ptr<std::ios> st;
  int kind = kBase; char const* what = "string stream";
  CutStream(TypeOps const& o, std::string const& part, std::string const& path, Src& s) {
    switch (s.draw(6)) {
    case 0: case 1: st = std::make_unique<std::istringstream>(part); if (o.allStreams && s.draw(2)) kind = kSplitString; break;
    case 2: spit(path, part); st = std::make_unique<std::ifstream>(path, std::ios::binary); if (o.allStreams && s.draw(2)) kind = kFile; what = "file stream"; break;
    case 3: st = std::make_unique<std::stringstream>(part); if (o.allStreams && s.draw(2)) kind = kStringStream; break;
    case 4: sb = std::make_unique<PieceBuf>(part, 1 + s.draw(40), false); st = std::make_unique<std::istream>(sb.get()); what = "unseekable stream"; break;
    default: sb = std::make_unique<PieceBuf>(part, 1 + s.draw(40), true); st = std::make_unique<std::istream>(sb.get()); what = "stream whose source throws"; break;
    }
    if (s.chance(1, 6)) { st->exceptions(s.draw(2) ? std::ios::failbit : std::ios::failbit | std::ios::eofbit); what = "stream with exceptions enabled"; }
  }
};

static void truncated(TypeOps const& o, Src& s, Ctx& c) {
  uint64_t kb = s.budget; if (s.draw(3)) s.budget = 1 + s.draw(30);
  Obj v = genObj(o, s);
  s.budget = kb;
  std::string want = v.rep(), bytes = serBytes(o, v.p);
  size_t n = bytes.size();
  bool poly = std::string(o.name).find("poly::") != std::string::npos;
  std::vector<size_t> cuts;
  size_t many = thorough() ? 24 : 6;
  if (n <= many) for (size_t i = 0; i < n; i++) cuts.push_back(i);
  else for (size_t i = 0; i < many; i++) {
    size_t cut;
    switch (s.draw(5)) {
    case 0: cut = n - 1 - s.draw(std::min<size_t>(n, 16)); break;
    case 1: cut = s.draw(std::min<size_t>(n, 32)); break;
    case 2: cut = n > 4096 ? 4096 * (1 + s.draw((n - 1) / 4096)) : s.draw(n); break;   // page boundaries: mapped files
    default: cut = s.draw(n);
    }
    cuts.push_back(std::min(cut, n - 1));
  }
  TmpFile f("c18");
  c.note(clip(want, 150) + " of " + std::to_string(n) + " bytes cut at");
  for (size_t cut : cuts) {
    c.note(" " + std::to_string(cut));
    std::string part = bytes.substr(0, cut);
    uint64_t how = s.draw(4);
    Obj target;
    if (how >= 2) { uint64_t k2 = s.budget; s.budget = 8; target = Obj(o, o.prior(s, v.p)); s.budget = k2; }
    bool threw = false;
    static char const* hows[] = {"a new object from a stream", "a new object from a file", "in place from a stream", "in place from a file"};
    try {
      switch (how) {
      case 0: { CutStream is(o, part, f.path, s); c.label(is.what); Obj r(o, o.fromStream(is.kind, *is.st)); break; }
      case 1: { spit(f.path, part); Obj r(o, o.fromFile(f.path)); break; }
      case 2: { CutStream is(o, part, f.path, s); c.label(is.what); o.fromStreamIn(is.kind, *is.st, target.p); break; }
      default: spit(f.path, part); o.fromFileIn(f.path, target.p);
      }
    } catch (std::runtime_error const&) {
      threw = true;
    }
    PBT_CHECK(threw, "%s: a checkpoint of %zu bytes cut at byte %zu was accepted as %s", o.name, n, cut, hows[how]);
    c.label(hows[how]);
    c.nontrivial(cut > 12);
    if (target.p) {
      if (s.draw(2) && !poly) {                 // restored again from an intact checkpoint
        if (s.draw(2)) { Bytes b(bytes); o.desIn(b.p, target.p); }
        else if (s.draw(2)) { std::istringstream is(bytes); o.fromStreamIn(kBase, is, target.p); }
        else { spit(f.path, bytes); o.fromFileIn(f.path, target.p); }
        PBT_EQ(o, target.rep(), want, "value restored in place after a failed restore");
        c.label("restored again after the failure");
      }
    }                                            // otherwise it must still be destroyable
  }
  // the intact checkpoint is still accepted
  if (s.draw(2)) { std::istringstream is(bytes); Obj r(o, o.fromStream(kBase, is)); PBT_EQ(o, r.rep(), want, "value restored from the intact stream"); }
  else { spit(f.path, bytes); Obj r(o, o.fromFile(f.path)); PBT_EQ(o, r.rep(), want, "value restored from the intact file"); }
}

namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { truncated(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
