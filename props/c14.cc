// C14: user-defined traversers see every leaf exactly once, in order, with its place and extent; user-defined dispatchers
// intercept exactly the types they choose.
#include "../pbt/ops.h"
using namespace pbt;

static std::string show(TravEv const& e) {
  return strf("%c %s addr=%p size=%zu num=%zu %c val=%016llx", e.kind, e.ti ? e.ti->name() : "", e.addr, e.size, e.num, e.flavour, (unsigned long long)e.val);
}
static void compare(TypeOps const& o, char const* what, TravLog const& want, TravLog const& got, bool typed) {
  size_t i = 0, n = 0;
  for (auto const& w : want.ev) {
    if (!typed && w.kind != 'B') continue;
    n++;
    if (i >= got.ev.size()) PBT_FAIL("%s of %s: event %zu is missing: %s", what, o.name, n - 1, show(w).c_str());
    auto const& g = got.ev[i];
    bool ok = g.kind == w.kind && (!w.addr || w.addr == g.addr) && (w.anyVal || w.val == g.val) && w.size == g.size && w.num == g.num;
    if (typed && ok) ok = *w.ti == *g.ti && (w.kind == 'B' || w.flavour == g.flavour);
    PBT_CHECK(ok, "%s of %s: event %zu differs\n  expected %s\n  got      %s", what, o.name, i, show(w).c_str(), show(g).c_str());
    i++;
  }
  PBT_CHECK(i == got.ev.size(), "%s of %s: unexpected event %zu of %zu: %s", what, o.name, i, got.ev.size(), show(got.ev[i]).c_str());
}

static void travCase(TypeOps const& o, Src& s, Ctx& c) {
  Obj v = genObj(o, s);
  g_rawOrder = true;                    // order included: traversals must not even reorder
  struct Back { ~Back() { g_rawOrder = false; } } back;
  std::string rep = v.rep();
  c.note(clip(rep, 200));
  TravLog model; o.travModel(v.p, model, nullptr);
  size_t runs = 0; std::vector<std::type_info const*> kinds; std::set<std::type_index> seen;
  for (auto& e : model.ev) {
    if (e.kind == 'B') runs++;
    else if (seen.insert(*e.ti).second && *e.ti != typeid(zoo::Split2)) kinds.push_back(e.ti);
  }
  c.nontrivial(model.ev.size() >= 3);
  { TravLog l; o.travPlain(v.p, 0, &l, nullptr, nullptr); compare(o, "traversal", model, l, false); }
  { TravLog l; o.travTyped(v.p, l, nullptr); compare(o, "typed traversal", model, l, true); }
  // interceptions: each type alone now and then, otherwise random subsets
  for (int k = 0; k < 3; k++) {
    TravCut cut;
    if (kinds.empty()) break;
    if (k == 0) cut.insert(*kinds[s.draw(kinds.size())]);
    else for (auto t : kinds) if (s.draw(3) == 2) cut.insert(*t);
    if (s.draw(2)) cut.insert(typeid(std::vector<std::string>));
    if (cut.empty()) continue;
    TravLog want, got; o.travModel(v.p, want, &cut);
    (s.draw(2) ? o.travTypedRef : o.travTyped)(v.p, got, &cut);
    std::string names; for (auto& t : cut) names += std::string(" ") + t.name();
    compare(o, ("traversal intercepting" + names).c_str(), want, got, true);
    c.label("interceptions", 1);
  }
  // the standard passes re-made as user traversers
  std::string bytes; size_t sum = 0;
  o.travPlain(v.p, int(checkpoint::eSerializationMode::Sizing), nullptr, nullptr, &sum);
  PBT_CHECK(sum == o.getSize(v.p), "user sizer of %s found %zu bytes, the library %zu", o.name, sum, o.getSize(v.p));
  o.travPlain(v.p, int(checkpoint::eSerializationMode::Packing), nullptr, &bytes, nullptr);
  PBT_EQ(o, bytes, serBytes(o, v.p), "bytes gathered by a user packer");
  PBT_EQ(o, v.rep(), rep, "object after traversals");
  c.label("runs", runs);
}
namespace pbt {
void registerUnits() { for (auto& o : ops()) addUnit(o.name, [&o](Src& s, Ctx& c) { travCase(o, s, c); }); }
}
int main(int argc, char** argv) { return runMain(argc, argv, true); }
