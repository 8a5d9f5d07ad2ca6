// Unpacking a different sequence of fields than was packed (needs SERIALIZATION_ERROR_CHECKING), shared by C09 and C10.
#pragma once
#include "../pbt/ops.h"
#include "../pbt/script.h"

namespace pbt {
using checkpoint::dispatch::serialization_error;

// Restores `bytes` as T through medium m (0 new from memory, 1 in place, 2 caller's storage, 3 stream, 4 file). Returns what happened:
// "" restored, "serialization_error", or the name of another exception.
template <typename T> std::string restore(std::string const& bytes, uint64_t m, size_t slack) {
  try {
    switch (m) {
    case 0: { Bytes b(bytes + std::string(slack, '\0')); auto u = checkpoint::deserialize<T>(b.p); break; }
    case 1: { Bytes b(bytes + std::string(slack, '\0')); T t; checkpoint::deserializeInPlace<T>(b.p, &t); break; }
    case 2: {
      Bytes b(bytes + std::string(slack, '\0'));
      struct Mem { char* p = (char*)malloc(sizeof(T)); ~Mem() { free(p); } } mem;
      T* t = checkpoint::deserialize<T>(b.p, mem.p);
      t->~T();
      break;
    }
    case 3: { std::istringstream is(bytes + std::string(slack, '\0')); auto u = checkpoint::deserializeFromStream<T>(is); break; }
    default: { TmpFile f("scr"); spit(f.path, bytes + std::string(slack, '\0')); auto u = checkpoint::deserializeFromFile<T>(f.path); }
    }
  } catch (serialization_error const& e) {
    return "serialization_error";
  } catch (std::exception const& e) {
    return std::string("another exception: ") + e.what();
  }
  return "";
}

inline void scriptUnpack(Src& s, Ctx& c, bool typeOnly) {
  using namespace script;
  ProgP p = genProg(s, 4), q = clone(*p);
  std::string what = "nothing";
  int depth = -1;
  bool consistent = s.draw(4) == 0;
  if (!consistent) {
    for (int k = 0; k < 8 && (depth < 0 || types(*p) == types(*q)); k++) { q = clone(*p); depth = mutate(s, q, what); if (typeOnly && what != "a field of another type") depth = -1; }
    if (depth < 0 || types(*p) == types(*q)) consistent = true, q = p;
  }
  g_plan = {p.get(), p.get(), q.get(), p.get()};
  Node n;
  auto r = checkpoint::serialize<Node>(n);
  std::string bytes(r->getBuffer(), r->getSize());
  c.note(show(*p) + " read as " + show(*q));
  c.nontrivial(p->ops.size() >= 2);
  c.label(consistent ? "consistent" : what + " at depth " + std::to_string(depth));
  uint64_t m = s.draw(5);
  g_mismatch = false;
  std::string got = restore<Node>(bytes, m, consistent ? 0 : 8192);
  if (consistent) {
    PBT_CHECK(got.empty(), "a consistent class was refused (%s): %s", got.c_str(), show(*p).c_str());
    PBT_CHECK(!g_mismatch, "a consistent class read other values than were written: %s", show(*p).c_str());
  } else {
    bool ok = got == "serialization_error";
    PBT_CHECK(ok, "%s: %s read as %s was not rejected with a serialization error but: %s", what.c_str(), show(*p).c_str(), show(*q).c_str(), got.empty() ? "accepted" : got.c_str());
  }
}
}  // namespace pbt
