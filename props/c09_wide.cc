// C09: one checkpoint read as each of several hundred other types (their indices span more than one byte, and four types each have the same name).
#include "c09_wide.h"
#include "../pbt/engine.h"
#include "../pbt/values.h"
#include <checkpoint/checkpoint.h>
using namespace pbt;
namespace wide9 {
static void test(Src& s, Ctx& c) {
  static Des d[kPer * kParts];
  static Ser w[kPer * kParts];
  static bool once = [] { fill0(d); fill1(d); fill2(d); fill3(d); wr0(w); wr1(w); wr2(w); wr3(w); return true; }();
  (void)once;
  int k = int(s.draw(kPer * kParts / 10)) * 10, v = int(s.draw(100));
  std::string bytes;
  w[k](v, [](char const* p, unsigned long n, void* x) { static_cast<std::string*>(x)->assign(p, n); }, &bytes);
  int from = int(s.draw(kPer * kParts)), n = s.draw(4) ? 20 : kPer * kParts;
  c.note(strf("type %d as %d types from type %d on", k, n, from));
  for (int i = 0; i < n; i++) {
    int q = (from + i) % (kPer * kParts);
    std::string b = bytes, got;
    int r = 0;
    try { r = d[q](&b[0]); got = "accepted"; }
    catch (checkpoint::dispatch::serialization_error const&) { got = "serialization_error"; }
    catch (std::exception const& e) { got = std::string("another exception: ") + e.what(); }
    if (q == k) PBT_CHECK(got == "accepted" && r == v, "type %d read as its own type: %s, value %d instead of %d", k, got.c_str(), r, v);
    else PBT_CHECK(got == "serialization_error", "a checkpoint of type %d read as type %d was not rejected with a serialization error but: %s", k, q, got.c_str());
    c.nontrivial();
  }
}
void units() { addUnit("family of 320 types", test, 2); }
}
