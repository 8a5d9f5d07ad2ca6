// Objects whose runs of bytes exceed what 31 and 32 bits count. Each case takes up to 14 GB, so these units run alone, a few times.
#pragma once
#include "../pbt/engine.h"
#include <checkpoint/checkpoint.h>
#include <algorithm>
#include <cstdint>
#include <istream>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace huge {
using namespace pbt;

inline bool enoughMemory(uint64_t need) {
  uint64_t avail = 0;
  if (FILE* f = fopen("/proc/meminfo", "r")) {
    char l[200]; unsigned long long kb;
    while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu kB", &kb) == 1) avail = kb * 1024ull;
    fclose(f);
  }
  return avail > need + (2ull << 30);
}

// The plan of a value: everything constant except some marked places, and small values around it.
struct Plan { uint64_t bytes; std::vector<uint64_t> marks; char fill; int before, after; };
inline Plan plan(Src& s) {
  Plan p;
  uint64_t base = s.draw(4) == 3 ? 1ull << 31 : 1ull << 32;
  p.bytes = base + (s.draw(4) ? 8 + s.draw(5000) : s.draw(2) ? 1 : 0);
  p.fill = char(1 + s.draw(100)); p.before = int(s.draw(1000)); p.after = int(s.draw(1000));
  p.marks = {0, p.bytes - 1, p.bytes / 2, base - 1, (1ull << 31) - 1, 1ull << 31, 4095, 4096};
  for (int i = 0; i < 40; i++) p.marks.push_back(s.draw(p.bytes));
  return p;
}
inline char markAt(uint64_t at) { return char(128 + at % 121); }

template <typename T> struct Val { int before; T big; int after; };
struct Str { using T = std::string; static constexpr char const* name = "string"; };
struct Vec8 { using T = std::vector<unsigned char>; static constexpr char const* name = "vector<unsigned char>"; };
struct Vec32 { using T = std::vector<int>; static constexpr char const* name = "vector<int>"; };
struct Vec64 { using T = std::vector<double>; static constexpr char const* name = "vector<double>"; };

template <typename K> using Full = std::pair<int, std::pair<typename K::T, int>>;
template <typename K> Full<K> make(Plan const& p) {
  using E = typename K::T::value_type;
  Full<K> v;
  v.first = p.before; v.second.second = p.after;
  uint64_t n = (p.bytes + sizeof(E) - 1) / sizeof(E);
  v.second.first.reserve(n);
  E e; memset(&e, p.fill, sizeof e);
  v.second.first.assign(n, e);
  auto b = reinterpret_cast<char*>(v.second.first.data());
  for (uint64_t m : p.marks) if (m < p.bytes) b[m] = markAt(m);
  return v;
}
// The bytes are those of the plan: the marks, and between them the fill.
inline void sameBytes(char const* b, uint64_t n, Plan const& p, char const* what) {
  std::vector<uint64_t> ms;
  for (uint64_t m : p.marks) if (m < p.bytes) ms.push_back(m);
  std::sort(ms.begin(), ms.end());
  ms.erase(std::unique(ms.begin(), ms.end()), ms.end());
  uint64_t at = 0;
  ms.push_back(n);
  for (uint64_t m : ms) {
    if (m > at) {       // [at, m) all fill
      uint64_t len = m - at;
      PBT_CHECK(b[at] == p.fill && memcmp(b + at, b + at + 1, len - 1) == 0, "%s: wrong byte between %llu and %llu of %llu", what, (unsigned long long)at, (unsigned long long)m, (unsigned long long)n);
    }
    if (m < n) PBT_CHECK(b[m] == markAt(m), "%s: wrong byte at %llu of %llu", what, (unsigned long long)m, (unsigned long long)n);
    at = m + 1;
  }
}
template <typename K> void same(Full<K> const& v, Plan const& p, char const* what) {
  using E = typename K::T::value_type;
  uint64_t n = (p.bytes + sizeof(E) - 1) / sizeof(E);
  PBT_CHECK(v.second.first.size() == n, "%s of %s: %zu elements instead of %llu", what, K::name, v.second.first.size(), (unsigned long long)n);
  PBT_CHECK(v.first == p.before && v.second.second == p.after, "%s of %s: the values around it are %d, %d instead of %d, %d", what, K::name, v.first, v.second.second, p.before, p.after);
  sameBytes(reinterpret_cast<char const*>(v.second.first.data()), n * sizeof(E), p, what);
}

// A stream that keeps only the ends of what is written and knows the middle from the plan.
struct PatternBuf : std::streambuf {
  uint64_t written = 0, pos = 0; std::string head, tail; uint64_t runAt = 0; Plan const& p; uint64_t runLen = 0;
  explicit PatternBuf(Plan const& q) : p(q) {}
  std::streamsize xsputn(char const* d, std::streamsize n) override {
    if (uint64_t(n) > (1u << 20)) {
      sameBytes(d, uint64_t(n), p, "bytes given to the stream");
      runAt = written; runLen = uint64_t(n);
    } else (runLen ? tail : head).append(d, size_t(n));
    written += uint64_t(n);
    return n;
  }
  int_type overflow(int_type c) override { char ch = char(c); xsputn(&ch, 1); return 0; }
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    uint64_t left = uint64_t(n);
    while (left && pos < written) {
      if (pos < runAt || !runLen) { if (pos >= head.size()) break; *d++ = head[pos++]; left--; }
      else if (pos < runAt + runLen) {
        uint64_t k = std::min(left, runAt + runLen - pos), off = pos - runAt;
        memset(d, p.fill, k);
        for (uint64_t m : p.marks) if (m < p.bytes && m >= off && m < off + k) d[m - off] = markAt(m);
        d += k; pos += k; left -= k;
      } else { if (pos - runAt - runLen >= tail.size()) break; *d++ = tail[pos - runAt - runLen]; pos++; left--; }
    }
    return n - std::streamsize(left);
  }
  char one;
  int_type underflow() override { return traits_type::eof(); }
  int_type uflow() override { return xsgetn(&one, 1) == 1 ? traits_type::to_int_type(one) : traits_type::eof(); }
};

template <typename K> void buffer(Src& s, Ctx& c) {
  Plan p = plan(s);
  if (!enoughMemory(2 * p.bytes + (p.bytes >> 2))) { c.label("huge: skipped for lack of memory"); return; }
  c.nontrivial(); c.note(strf("%s of %llu bytes", K::name, (unsigned long long)p.bytes)); c.label("objects of more than 2 GB");
  checkpoint::SerializedReturnType r{nullptr};
  { auto v = make<K>(p); r = checkpoint::serialize(v); }
  PBT_CHECK(r->getSize() > p.bytes, "%s of %llu bytes: serialized to %zu bytes", K::name, (unsigned long long)p.bytes, r->getSize());
  auto w = checkpoint::deserialize<Full<K>>(r->getBuffer());
  r.reset();
  same<K>(*w, p, "huge value restored");
}
template <typename K> void stream(Src& s, Ctx& c) {
  Plan p = plan(s);
  if (!enoughMemory(p.bytes + (p.bytes >> 2))) { c.label("huge: skipped for lack of memory"); return; }
  c.nontrivial(); c.note(strf("%s of %llu bytes", K::name, (unsigned long long)p.bytes)); c.label("objects of more than 2 GB");
  PatternBuf b(p);
  uint64_t size = 0;
  {
    auto v = make<K>(p);
    size = checkpoint::getSize(v);
    std::ostream os(&b);
    checkpoint::serializeToStream(v, os);
    PBT_CHECK(os.good(), "huge %s: the stream is not good after writing", K::name);
    PBT_CHECK(b.written == size && size > p.bytes, "huge %s of %llu bytes: size query %llu, stream received %llu", K::name, (unsigned long long)p.bytes, (unsigned long long)size, (unsigned long long)b.written);
    os.write("after", 5);
  }
  std::istream is(&b);
  auto w = checkpoint::deserializeFromStream<Full<K>>(is);
  same<K>(*w, p, "huge value read from a stream");
  PBT_CHECK(b.pos == size, "reading a huge %s consumed %llu of %llu bytes", K::name, (unsigned long long)b.pos, (unsigned long long)size);
  char t[5]; is.read(t, 5);
  PBT_CHECK(is.good() && memcmp(t, "after", 5) == 0, "foreign bytes behind a huge %s are lost", K::name);
}
template <typename K> void file(Src& s, Ctx& c) {
  Plan p = plan(s);
  struct statvfs fs;
  if (!enoughMemory(p.bytes + (p.bytes >> 2)) || statvfs(scratchDir().c_str(), &fs) || uint64_t(fs.f_bavail) * fs.f_frsize < 2 * p.bytes) { c.label("huge: skipped for lack of memory or disk"); return; }
  c.nontrivial(); c.note(strf("%s of %llu bytes", K::name, (unsigned long long)p.bytes)); c.label("objects of more than 2 GB");
  std::string path = scratchDir() + "/huge.ckpt";
  struct Rm { std::string p; ~Rm() { remove(p.c_str()); } } rm{path};
  uint64_t size = 0;
  { auto v = make<K>(p); size = checkpoint::getSize(v); checkpoint::serializeToFile(v, path); }
  struct stat st;
  PBT_CHECK(stat(path.c_str(), &st) == 0 && uint64_t(st.st_size) == size, "huge %s: the file has %llu bytes, the checkpoint %llu", K::name, (unsigned long long)st.st_size, (unsigned long long)size);
  if (s.draw(2)) { auto w = checkpoint::deserializeFromFile<Full<K>>(path); same<K>(*w, p, "huge value read from a file"); }
  else { Full<K> w; w.first = 1; w.second.first.resize(3); checkpoint::deserializeInPlaceFromFile(path, &w); same<K>(w, p, "huge value read in place from a file"); }
}
}  // namespace huge
#define HUGE_UNIT(F) [](Src& s, Ctx& c) { switch (s.draw(4)) { case 0: huge::F<huge::Str>(s, c); break; case 1: huge::F<huge::Vec8>(s, c); break; case 2: huge::F<huge::Vec32>(s, c); break; default: huge::F<huge::Vec64>(s, c); } }
