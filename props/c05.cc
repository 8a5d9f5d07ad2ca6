// C05: stream checkpoints concatenate and consume exactly their own bytes, on any standard stream class.
#include "../pbt/ops.h"
using namespace pbt;

// A stream buffer handing out its data in small pieces and not seekable: istream/ostream over something like a socket.
struct ChunkBuf : std::streambuf {
  std::string data; size_t pos = 0, chunk; char piece[64];
  explicit ChunkBuf(size_t k) : chunk(k) {}
  int_type underflow() override {
    if (pos >= data.size()) return traits_type::eof();
    size_t n = std::min({chunk, data.size() - pos, sizeof piece});
    memcpy(piece, data.data() + pos, n); pos += n;
    setg(piece, piece, piece + n);
    return traits_type::to_int_type(piece[0]);
  }
  int_type overflow(int_type ch) override { if (ch != traits_type::eof()) data.push_back((char)ch); return 0; }
  size_t consumed() const { return pos - (egptr() - gptr()); }
};

struct Item { TypeOps const* o; Obj v; std::string rep, bytes, gap; };

static void sequence(std::vector<TypeOps const*> const& pool, TypeOps const& mainType, int kind, Src& s, Ctx& c) {
  size_t n = 1 + s.draw(5);
  std::vector<Item> items;
  std::string pre = std::string(s.draw(20), '#');
  for (size_t k = 0; k < n; k++) {
    Item it;
    it.o = (k == 0 || s.draw(2) == 0) ? &mainType : pool[s.draw(pool.size())];
    if (kind != kBase && !it.o->allStreams) it.o = &mainType;
    Split sp(s, n);
    it.v = genObj(*it.o, s);
    it.rep = it.v.rep();
    c.nontrivial(nontrivialValue(it.rep)); c.note(clip(it.rep, 100) + " ");
    it.bytes = serBytes(*it.o, it.v.p);
    it.gap = std::string(s.draw(4) ? 0 : s.draw(9), '!');
    items.push_back(std::move(it));
  }
  std::string post = s.draw(2) ? std::string(1 + s.draw(30), '$') : "";
  std::string expect = pre;
  // The stream may already hold something, and stand anywhere in it
  std::string base;
  size_t start = 0;
  if (s.chance(1, 3)) {
    size_t total = pre.size() + post.size();
    for (auto& it : items) total += it.bytes.size() + it.gap.size();
    base = std::string(1 + s.draw(2 * std::min<size_t>(total, 4000) + 20), '~');
    start = s.draw(4) ? s.draw(base.size() + 1) : 0;
  }
  TmpFile tf("c05");
  std::unique_ptr<std::ios> out; std::unique_ptr<ChunkBuf> cb;
  int backing = kind == kBase ? (int)s.draw(3) : kind;     // what is behind a plain ostream
  std::ostringstream* oss = nullptr; std::stringstream* ss = nullptr;
  if (kind == kBase && backing == 0) { cb = std::make_unique<ChunkBuf>(1 + s.draw(50)); out = std::make_unique<std::ostream>(cb.get()); c.label("unseekable chunked stream"); }
  else if (backing == kSplitString) { auto p = std::make_unique<std::ostringstream>(base); oss = p.get(); out = std::move(p); }
  else if (backing == kFile) { spit(tf.path, base); auto p = std::make_unique<std::ofstream>(tf.path, std::ios::binary | std::ios::in | std::ios::out); out = std::move(p); }
  else { auto p = std::make_unique<std::stringstream>(base); ss = p.get(); out = std::move(p); }
  std::ostream& os = dynamic_cast<std::ostream&>(*out);
  if (cb) { base.clear(); start = 0; }
  if (!base.empty()) { os.seekp((std::streamoff)start); c.label("written in the middle of a stream"); }
  os << pre;
  bool fmt = s.chance(1, 4);                               // formatting does not apply to the bytes of a checkpoint
  if (fmt) { os.setf(std::ios::hex | std::ios::showbase | std::ios::left | std::ios::boolalpha | std::ios::unitbuf); c.label("stream with formatting flags"); }
  if (s.chance(1, 4)) os.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
  for (auto& it : items) {
    if (fmt) { os.width(10000); os.fill('.'); }
    std::streamoff before = os.tellp();
    it.o->toStream(it.v.p, kind, *out);
    PBT_CHECK(os.good(), "stream not good after writing %s", it.o->name);
    std::streamoff after = os.tellp();
    if (before >= 0) PBT_CHECK(size_t(after - before) == it.bytes.size(), "writing %s moved the stream by %ld instead of %zu", it.o->name, long(after - before), it.bytes.size());
    expect += it.bytes;
    os.width(0);
    os << it.gap; expect += it.gap;
  }
  os << post; expect += post;
  os.flush();
  std::string written = expect;
  expect = base.substr(0, start) + written + (base.size() > start + written.size() ? base.substr(start + written.size()) : "");
  std::string rest = expect.substr(start + written.size());
  std::string all = cb ? cb->data : oss ? oss->str() : ss ? ss->str() : slurp(tf.path);
  PBT_CHECK(all == expect, "stream contents after writing a sequence starting with %s: %s", mainType.name, firstDiff(expect, all).c_str());
  // read back
  std::unique_ptr<std::ios> in;
  if (cb) in = std::make_unique<std::istream>(cb.get());
  else if (oss) in = std::make_unique<std::istringstream>(all);
  else if (ss) in = std::move(out);
  else { out.reset(); in = std::make_unique<std::ifstream>(tf.path, std::ios::binary); }
  std::istream& is = dynamic_cast<std::istream&>(*in);
  if (fmt) { is.setf(std::ios::skipws | std::ios::oct, std::ios::basefield); is.width(3); }
  if (s.chance(1, 4)) { is.exceptions(s.draw(2) ? std::ios::badbit : std::ios::badbit | std::ios::failbit | std::ios::eofbit); c.label("stream with exceptions enabled"); }
  auto skip = [&](std::string const& e) {
    std::string g(e.size(), 0);
    is.read(&g[0], (std::streamsize)g.size());
    PBT_CHECK(is.good() && g == e, "foreign bytes after an object were consumed or lost (sequence starting with %s): %s", mainType.name, firstDiff(e, g).c_str());
  };
  if (start) is.seekg((std::streamoff)start);
  skip(pre);
  size_t at = start + pre.size();
  for (auto& it : items) {
    bool inplace = s.draw(3) == 0;
    Obj r;
    if (inplace) { r = Obj(*it.o, it.o->prior(s, it.v.p)); it.o->fromStreamIn(kind, *in, r.p); }
    else r = Obj(*it.o, it.o->fromStream(kind, *in));
    PBT_CHECK(is.good(), "stream not good after reading %s", it.o->name);
    PBT_EQ(*it.o, r.rep(), it.rep, "value read from the stream");
    at += it.bytes.size();
    size_t now = cb ? cb->consumed() : (size_t)is.tellg();
    PBT_CHECK(now == at, "reading %s consumed %zu bytes instead of %zu", it.o->name, now - (at - it.bytes.size()), it.bytes.size());
    skip(it.gap); at += it.gap.size();
  }
  skip(post);
  skip(rest);
  is.exceptions(std::ios::goodbit);
  PBT_CHECK(is.peek() == std::char_traits<char>::eof(), "bytes left over in the stream");
  if (n > 1) c.label("several objects");
}

// Takes a number of bytes and no more, like a full disk or a closed connection.
struct FullBuf : std::streambuf {
  std::string data; size_t room;
  explicit FullBuf(size_t n) : room(n) {}
  int_type overflow(int_type ch) override { if (ch == traits_type::eof()) return 0; if (data.size() == room) return traits_type::eof(); data.push_back((char)ch); return ch; }
  std::streamsize xsputn(char const* p, std::streamsize n) override { n = std::min<std::streamsize>(n, std::streamsize(room - data.size())); data.append(p, size_t(n)); return n; }
};

// A write that the stream cannot take in full is not lost silently: the stream says so, as for any other output.
static void fullStream(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  std::string want = v.rep(), bytes = serBytes(o, v.p);
  c.nontrivial(nontrivialValue(want)); c.note(clip(want, 100));
  std::string pre(s.draw(20), '#');
  size_t fits = s.draw(3) == 0 ? bytes.size() : s.draw(2) ? bytes.size() - 1 - s.draw(std::min<size_t>(bytes.size(), 12)) : s.draw(bytes.size());
  FullBuf b(pre.size() + fits);
  std::ostream os(&b);
  os << pre;
  bool exc = s.chance(1, 3), threw = false;
  if (exc) os.exceptions(std::ios::badbit);
  try { o.toStream(v.p, kBase, os); } catch (std::exception const&) { threw = true; }
  if (fits == bytes.size()) PBT_CHECK(!threw && os.good(), "writing %s to a stream with just enough room failed", o.name);
  else PBT_CHECK(threw || !os.good(), "writing %zu bytes of %s to a stream with room for %zu was reported neither by an exception nor by the stream's state", bytes.size(), o.name, fits);
  PBT_CHECK(b.data.compare(0, pre.size(), pre) == 0, "bytes in front of the checkpoint were changed (%s)", o.name);
  if (fits == bytes.size()) PBT_CHECK(b.data == pre + bytes, "bytes on the stream (%s)", o.name);
  PBT_EQ(o, v.rep(), want, "source after a write that did not fit");
  c.label(fits == bytes.size() ? "just enough room" : "stream too full");
}

namespace pbt {
void registerUnits() {
  static std::vector<TypeOps const*> pool, every;
  for (auto& o : ops()) { pool.push_back(&o); if (o.allStreams) every.push_back(&o); }
  for (auto& o : ops()) {
    addUnit(o.name, [&o](Src& s, Ctx& c) { if (s.chance(1, 6)) fullStream(o, s, c); else sequence(pool, o, kBase, s, c); });
    if (o.allStreams)
      for (int k = 1; k < kStreamKinds; k++) {
        static char const* kn[] = {"", " stringstream", " ostringstream/istringstream", " ofstream/ifstream"};
        addUnit(std::string(o.name) + kn[k], [&o, k](Src& s, Ctx& c) { sequence(every, o, k, s, c); });
      }
  }
}
}
int main(int argc, char** argv) { return runMain(argc, argv, false); }
