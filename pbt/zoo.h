// User classes exercising every documented way of making a class serializable and constructible.
#pragma once
#include "values.h"
#include <checkpoint/checkpoint.h>

namespace zoo {
using pbt::Src;

// ------------------------------------------------------------ member serialize
struct In {                                   // intrusive, default constructible
  int a = 7; double b = 1.5; std::string c = "init"; std::vector<int> d{1, 2, 3};
  template <typename S> void serialize(S& s) { s | a | b | c | d; }
  static In pbt_gen(Src& s) { In r; r.a = pbt::gen<int>(s); r.b = pbt::gen<double>(s); r.c = pbt::gen<std::string>(s); r.d = pbt::gen<std::vector<int>>(s); return r; }
  void pbt_put(std::string& o) const { o += "In{"; pbt::put(o, a); o += ','; pbt::put(o, b); o += ','; pbt::put(o, c); o += ','; pbt::put(o, d); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(a) + pbt::foot(b) + pbt::foot(c) + pbt::foot(d); }
};

struct Small {                                // small intrusive, ordered and hashable: usable as a key
  int16_t x = -1; uint8_t y = 9;
  template <typename S> void serialize(S& s) { s | x; s | y; }
  static Small pbt_gen(Src& s) { Small r; r.x = pbt::gen<int16_t>(s); r.y = pbt::gen<uint8_t>(s); return r; }
  void pbt_put(std::string& o) const { o += "Sm{"; pbt::put(o, x); o += ','; pbt::put(o, y); o += '}'; }
  size_t pbt_foot() const { return 3; }
  bool operator<(Small const& r) const { return x != r.x ? x < r.x : y < r.y; }
  bool operator==(Small const& r) const { return x == r.x && y == r.y; }
};

// ------------------------------------------------------------ free serialize found by ADL
struct Non {
  long p = 11; std::list<std::string> q; std::map<int, std::string> m;
  static Non pbt_gen(Src& s) { Non r; r.p = pbt::gen<long>(s); pbt::Split sp(s, 2); r.q = pbt::gen<std::list<std::string>>(s); sp.reset(); r.m = pbt::gen<std::map<int, std::string>>(s); return r; }
  void pbt_put(std::string& o) const { o += "Non{"; pbt::put(o, p); o += ','; pbt::put(o, q); o += ','; pbt::put(o, m); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(p) + pbt::foot(q) + pbt::foot(m); }
};
template <typename S> void serialize(S& s, Non& n) { s | n.p; s | n.q; s | n.m; }

// ------------------------------------------------------------ byte-copyable declarations of each kind
#define ZOO_BYTES_BODY(N)                                                                          \
  int32_t i = 5; char c = 'z'; double d = 0.5;                                                      \
  static N pbt_gen(Src& s) { N r; r.i = pbt::gen<int32_t>(s); r.c = pbt::gen<char>(s); r.d = pbt::gen<double>(s); return r; } \
  void pbt_put(std::string& o) const { o += #N "{"; pbt::put(o, i); o += ','; pbt::put(o, c); o += ','; pbt::put(o, d); o += '}'; } \
  size_t pbt_foot() const { return sizeof(N); }
struct ByBase : checkpoint::SerdesByteCopy { ZOO_BYTES_BODY(ByBase) };       // inherits the marker
struct ByUsing { using isByteCopyable = std::true_type; ZOO_BYTES_BODY(ByUsing) };   // typedef
struct ByNon { ZOO_BYTES_BODY(ByNon) };                                     // ByteCopyNonIntrusive specialization
struct ByMacro { ZOO_BYTES_BODY(ByMacro) };                                 // CHECKPOINT_BYTES
struct alignas(64) ByAligned { using isByteCopyable = std::true_type; ZOO_BYTES_BODY(ByAligned) };
struct ByTrait { ZOO_BYTES_BODY(ByTrait) };                                 // isByteCopyable specialization
struct ByFalse {                                                            // explicitly not byte-copyable
  using isByteCopyable = std::false_type;
  std::string t = "f";
  template <typename S> void serialize(S& s) { s | t; }
  static ByFalse pbt_gen(Src& s) { ByFalse r; r.t = pbt::gen<std::string>(s); return r; }
  void pbt_put(std::string& o) const { o += "BF{"; pbt::put(o, t); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(t); }
};
// A byte-copyable class of an odd size.
struct Odd3 {
  using isByteCopyable = std::true_type;
  unsigned char b[3] = {1, 2, 3};
  static Odd3 pbt_gen(Src& s) { Odd3 r; for (auto& x : r.b) x = pbt::gen<unsigned char>(s); return r; }
  void pbt_put(std::string& o) const { o += "O3"; pbt::putHex(o, b, 3); }
  size_t pbt_foot() const { return 3; }
};
// A large byte-copyable block, bigger than a page.
struct Block {
  using isByteCopyable = std::true_type;
  unsigned char b[5000];
  Block() { memset(b, 0x5a, sizeof b); }
  static Block pbt_gen(Src& s) { Block r; uint64_t seed = s.draw(1u << 20); pbt::Rng g(seed); for (auto& x : r.b) x = (unsigned char)g.next(); return r; }
  void pbt_put(std::string& o) const { uint64_t h = pbt::hashBytes(b, sizeof b); o += "Blk"; pbt::putHex(o, &h, 8); }
  size_t pbt_foot() const { return sizeof(Block); }
};
struct Empty {                                 // no members at all
  template <typename S> void serialize(S&) {}
  static Empty pbt_gen(Src&) { return {}; }
  void pbt_put(std::string& o) const { o += "E"; }
  size_t pbt_foot() const { return 0; }
};

// ------------------------------------------------------------ construction strategies
struct Tagged {                                // tagged constructor, no default constructor
  int v; std::string w;
  Tagged(int a, std::string b) : v(a), w(std::move(b)) {}
  explicit Tagged(checkpoint::SERIALIZE_CONSTRUCT_TAG) : v(-1), w("tag") {}
  template <typename S> void serialize(S& s) { s | v | w; }
  static Tagged pbt_gen(Src& s) { int a = pbt::gen<int>(s); return Tagged(a, pbt::gen<std::string>(s)); }
  void pbt_put(std::string& o) const { o += "Tg{"; pbt::put(o, v); o += ','; pbt::put(o, w); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v) + pbt::foot(w); }
};
struct Recon {                                 // static reconstruct, no default constructor
  int v; std::vector<double> w;
  Recon(int a, std::vector<double> b) : v(a), w(std::move(b)) {}
  static Recon& reconstruct(void* buf) { return *new (buf) Recon(-3, {9.0}); }
  template <typename S> void serialize(S& s) { s | v | w; }
  static Recon pbt_gen(Src& s) { int a = pbt::gen<int>(s); return Recon(a, pbt::gen<std::vector<double>>(s)); }
  void pbt_put(std::string& o) const { o += "Rc{"; pbt::put(o, v); o += ','; pbt::put(o, w); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v) + pbt::foot(w); }
};
struct ReconFree {                             // free reconstruct found by ADL
  int v; std::string w;
  ReconFree(int a, std::string b) : v(a), w(std::move(b)) {}
  static ReconFree pbt_gen(Src& s) { int a = pbt::gen<int>(s); return ReconFree(a, pbt::gen<std::string>(s)); }
  void pbt_put(std::string& o) const { o += "Rf{"; pbt::put(o, v); o += ','; pbt::put(o, w); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v) + pbt::foot(w); }
};
inline void reconstruct(ReconFree*& t, void* buf) { t = new (buf) ReconFree(-4, "free"); }
template <typename S> void serialize(S& s, ReconFree& r) { s | r.v | r.w; }
struct ReconSpec {                             // CheckpointReconstructor specialization
  int v; std::string w;
  ReconSpec(int a, std::string b) : v(a), w(std::move(b)) {}
  template <typename S> void serialize(S& s) { s | v | w; }
  static ReconSpec pbt_gen(Src& s) { int a = pbt::gen<int>(s); return ReconSpec(a, pbt::gen<std::string>(s)); }
  void pbt_put(std::string& o) const { o += "Rs{"; pbt::put(o, v); o += ','; pbt::put(o, w); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v) + pbt::foot(w); }
};

// ------------------------------------------------------------ ownership shapes
struct MoveOnly {                              // movable, not copyable
  std::unique_ptr<int> v; int w = 0;
  MoveOnly() = default;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
  template <typename S> void serialize(S& s) { s | v | w; }
  static MoveOnly pbt_gen(Src& s) { MoveOnly r; r.v = pbt::gen<std::unique_ptr<int>>(s); r.w = pbt::gen<int>(s); return r; }
  void pbt_put(std::string& o) const { o += "Mo{"; pbt::put(o, v); o += ','; pbt::put(o, w); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v) + pbt::foot(w); }
};
struct MoveOnlyTagged {                        // movable, not copyable, no default constructor
  std::string v;
  explicit MoveOnlyTagged(std::string a) : v(std::move(a)) {}
  explicit MoveOnlyTagged(checkpoint::SERIALIZE_CONSTRUCT_TAG) : v("mot") {}
  MoveOnlyTagged(MoveOnlyTagged&&) = default;
  MoveOnlyTagged& operator=(MoveOnlyTagged&&) = default;
  template <typename S> void serialize(S& s) { s | v; }
  static MoveOnlyTagged pbt_gen(Src& s) { return MoveOnlyTagged(pbt::gen<std::string>(s)); }
  void pbt_put(std::string& o) const { o += "Mt{"; pbt::put(o, v); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v); }
};
struct Pinned {                                // neither copyable nor movable
  int v = 1; std::string w;
  Pinned() = default;
  Pinned(int a, std::string b) : v(a), w(std::move(b)) {}
  Pinned(Pinned const&) = delete;
  template <typename S> void serialize(S& s) { s | v | w; }
  static Pinned pbt_gen(Src& s) { int a = pbt::gen<int>(s); return Pinned(a, pbt::gen<std::string>(s)); }
  void pbt_put(std::string& o) const { o += "Pi{"; pbt::put(o, v); o += ','; pbt::put(o, w); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(v) + pbt::foot(w); }
};
struct Handle {                                // copies share state; the state itself is what is serialized
  std::shared_ptr<std::string> p = std::make_shared<std::string>("fresh");
  template <typename S> void serialize(S& s) { s | *p; }
  static Handle pbt_gen(Src& s) { Handle h; *h.p = pbt::gen<std::string>(s); return h; }
  void pbt_put(std::string& o) const { o += "Hd{"; pbt::put(o, *p); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(*p); }
};
struct HandleTagged {                          // handle without default constructor
  std::shared_ptr<std::string> p;
  explicit HandleTagged(std::string v) : p(std::make_shared<std::string>(std::move(v))) {}
  explicit HandleTagged(checkpoint::SERIALIZE_CONSTRUCT_TAG) : p(std::make_shared<std::string>("tagged")) {}
  template <typename S> void serialize(S& s) { s | *p; }
  static HandleTagged pbt_gen(Src& s) { return HandleTagged(pbt::gen<std::string>(s)); }
  void pbt_put(std::string& o) const { o += "Ht{"; pbt::put(o, *p); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(*p); }
};
struct DynArr {                                // owns a raw array, uses the documented array helper
  std::size_t n = 0; std::string* p = nullptr;
  DynArr() = default;
  DynArr(DynArr&& o) noexcept : n(o.n), p(o.p) { o.n = 0; o.p = nullptr; }
  DynArr& operator=(DynArr&& o) noexcept { std::swap(n, o.n); std::swap(p, o.p); return *this; }
  ~DynArr() { delete[] p; }
  template <typename S> void serialize(S& s) {
    s | n;
    if (s.isUnpacking()) { delete[] p; p = n ? new std::string[n] : nullptr; }
    checkpoint::dispatch::serializeArray(s, p, n);
  }
  static DynArr pbt_gen(Src& s) { DynArr r; r.n = pbt::genLen(s, s.budget); pbt::Split sp(s, r.n); pbt::Bulk b(s, r.n); r.p = r.n ? new std::string[r.n] : nullptr; for (size_t i = 0; i < r.n; i++) r.p[i] = pbt::gen<std::string>(s); return r; }
  void pbt_put(std::string& o) const { o += "Da" + std::to_string(n) + "["; for (size_t i = 0; i < n; i++) { pbt::put(o, p[i]); o += ','; } o += ']'; }
  size_t pbt_foot() const { size_t f = sizeof n; for (size_t i = 0; i < n; i++) f += pbt::foot(p[i]); return f; }
};
struct IntArr {                                // raw array of arithmetic elements
  std::size_t n = 0; std::unique_ptr<int64_t[]> p;
  template <typename S> void serialize(S& s) {
    s | n;
    if (s.isUnpacking()) p.reset(n ? new int64_t[n] : nullptr);
    checkpoint::dispatch::serializeArray(s, p.get(), n);
  }
  static IntArr pbt_gen(Src& s) { IntArr r; r.n = pbt::genLen(s, s.budget * 4); pbt::Bulk b(s, r.n); if (r.n) r.p.reset(new int64_t[r.n]); for (size_t i = 0; i < r.n; i++) r.p[i] = pbt::gen<int64_t>(s); return r; }
  void pbt_put(std::string& o) const { o += "Ia" + std::to_string(n) + "["; uint64_t h = pbt::hashBytes(p.get(), n * 8); pbt::putHex(o, &h, 8); o += ']'; }
  size_t pbt_foot() const { return sizeof n + 8 * n; }
};
struct Ptrs {                                  // raw and shared pointers through the documented reconstruct helper
  In* r = nullptr; std::shared_ptr<Tagged> h; std::unique_ptr<std::vector<std::string>> u;
  Ptrs() = default;
  Ptrs(Ptrs&& o) noexcept : r(o.r), h(std::move(o.h)), u(std::move(o.u)) { o.r = nullptr; }
  Ptrs& operator=(Ptrs&& o) noexcept { std::swap(r, o.r); h = std::move(o.h); u = std::move(o.u); return *this; }
  ~Ptrs() { delete r; }
  template <typename S> void serialize(S& s) {
    bool nr = r == nullptr, nh = h == nullptr;
    s | nr | nh;
    if (s.isUnpacking()) { delete r; r = nullptr; h = nullptr; }
    if (!nr) { In* t = r; checkpoint::reconstructPointedToObjectIfNeeded(s, t); if (r != t) r = t; s | *r; }
    if (!nh) {
      Tagged* t = h.get();
      checkpoint::reconstructPointedToObjectIfNeeded(s, t);
      if (s.isUnpacking()) h = std::shared_ptr<Tagged>(t);
      s | *h;
    }
    s | u;
  }
  static Ptrs pbt_gen(Src& s) { Ptrs p; pbt::Split sp(s, 3); if (s.draw(3)) p.r = new In(pbt::gen<In>(s)); if (s.draw(3)) p.h = std::make_shared<Tagged>(pbt::gen<Tagged>(s)); p.u = pbt::gen<std::unique_ptr<std::vector<std::string>>>(s); return p; }
  void pbt_put(std::string& o) const { o += "Pt{"; if (r) pbt::put(o, *r); else o += '-'; o += ','; pbt::put(o, h); o += ','; pbt::put(o, u); o += '}'; }
  size_t pbt_foot() const { return 2 + (r ? pbt::foot(*r) : 0) + (h ? pbt::foot(*h) : 0) + pbt::foot(u); }
};
struct Tree {                                  // recursive through unique_ptr and vector
  int v = 0; std::unique_ptr<Tree> l; std::vector<Tree> kids;
  template <typename S> void serialize(S& s) { s | v | l | kids; }
  static Tree pbt_gen(Src& s) { uint64_t b = std::min<uint64_t>(s.budget, 60), old = s.budget; Tree t = mk(s, b, 0); s.budget = old; return t; }
  static Tree mk(Src& s, uint64_t& left, int depth) {
    Tree t; t.v = int(s.draw(1000)); if (left) left--;
    if (left && depth < 12 && s.draw(2)) t.l = std::make_unique<Tree>(mk(s, left, depth + 1));
    uint64_t k = left && depth < 12 ? s.draw(4) : 0;
    for (uint64_t i = 0; i < k && left; i++) t.kids.push_back(mk(s, left, depth + 1));
    return t;
  }
  void pbt_put(std::string& o) const { o += "Tr{"; pbt::put(o, v); o += ','; if (l) l->pbt_put(o); else o += '-'; o += '['; for (auto& k : kids) { k.pbt_put(o); o += ','; } o += "]}"; }
  size_t pbt_foot() const { size_t f = sizeof v + sizeof l + (l ? l->pbt_foot() : 0) + sizeof kids; for (auto& k : kids) f += k.pbt_foot(); return f + sizeof(Tree) * (kids.capacity() - kids.size()); }
};
struct Chain {                                 // singly linked list, long recursion
  int v = 0; std::unique_ptr<Chain> next;
  template <typename S> void serialize(S& s) { s | v | next; }
  static Chain pbt_gen(Src& s) { size_t n = std::min<size_t>(pbt::genLen(s, 300), 300); pbt::Bulk b(s, n); Chain head; head.v = pbt::gen<int>(s); Chain* c = &head; for (size_t i = 0; i < n; i++) { c->next = std::make_unique<Chain>(); c = c->next.get(); c->v = pbt::gen<int>(s); } return head; }
  void pbt_put(std::string& o) const { o += "Ch["; for (Chain const* c = this; c; c = c->next.get()) { pbt::put(o, c->v); o += ','; } o += ']'; }
  size_t pbt_foot() const { size_t f = 0; for (Chain const* c = this; c; c = c->next.get()) f += sizeof v + sizeof next; return f; }
};
struct Prefilled {                             // default constructor fills its containers
  std::map<int, int> m{{100, 1}, {200, 2}}; std::set<std::string> st{"pre"}; std::queue<int> q; std::vector<int> v{7, 7}; std::list<int> l{5};
  std::unordered_map<int, std::string> um{{-5, "pre"}}; std::multiset<int> ms{3, 3}; std::deque<std::string> dq{"x"}; std::optional<std::string> o{"pre"}; std::string str = "prefilled";
  Prefilled() { q.push(42); }
  template <typename S> void serialize(S& s) { s | m | st | q | v | l | um | ms | dq | o | str; }
  static Prefilled pbt_gen(Src& s) {
    Prefilled r; pbt::Split sp(s, 10);
#define F(x) sp.reset(); r.x = pbt::gen<decltype(r.x)>(s);
    F(m) F(st) F(q) F(v) F(l) F(um) F(ms) F(dq) F(o) F(str)
#undef F
    return r;
  }
  void pbt_put(std::string& out) const {
    out += "Pf{";
#define F(x) pbt::put(out, x); out += ';';
    F(m) F(st) F(q) F(v) F(l) F(um) F(ms) F(dq) F(o) F(str)
#undef F
    out += '}';
  }
  size_t pbt_foot() const {
    size_t f = 0;
#define F(x) f += pbt::foot(x);
    F(m) F(st) F(q) F(v) F(l) F(um) F(ms) F(dq) F(o) F(str)
#undef F
    return f;
  }
};
// split style: serializeParent / serializeThis next to serialize
struct SplitBase {
  int pb = 1;
  template <typename S> void serialize(S& s) { s | pb; }
};
struct Split2 : SplitBase {
  int own = 2; std::string t; int viaSerialize = 3;
  template <typename S> void serialize(S& s) { s | viaSerialize; }
  template <typename S> void serializeParent(S& s) { SplitBase::serialize(s); }
  template <typename S> void serializeThis(S& s) { s | own | t; }
  static Split2 pbt_gen(Src& s) { Split2 r; r.pb = pbt::gen<int>(s); r.own = pbt::gen<int>(s); r.t = pbt::gen<std::string>(s); r.viaSerialize = pbt::gen<int>(s); return r; }
  void pbt_put(std::string& o) const { o += "Sp{"; pbt::put(o, pb); o += ','; pbt::put(o, own); o += ','; pbt::put(o, t); o += ','; pbt::put(o, viaSerialize); o += '}'; }
  size_t pbt_foot() const { return 12 + pbt::foot(t); }
};
// conditional fields
struct Cond {
  uint8_t kind = 0; int64_t i = 0; std::string s_; std::vector<float> f;
  template <typename S> void serialize(S& s) { s | kind; if (kind % 3 == 0) s | i; else if (kind % 3 == 1) s | s_; else s | f; }
  static Cond pbt_gen(Src& s) { Cond c; c.kind = pbt::gen<uint8_t>(s); if (c.kind % 3 == 0) c.i = pbt::gen<int64_t>(s); else if (c.kind % 3 == 1) c.s_ = pbt::gen<std::string>(s); else c.f = pbt::gen<std::vector<float>>(s); return c; }
  void pbt_put(std::string& o) const { o += "Cd{"; pbt::put(o, kind); o += ','; if (kind % 3 == 0) pbt::put(o, i); else if (kind % 3 == 1) pbt::put(o, s_); else pbt::put(o, f); o += '}'; }
  size_t pbt_foot() const { return 1 + (kind % 3 == 0 ? 8 : kind % 3 == 1 ? pbt::foot(s_) : pbt::foot(f)); }
};
template <typename T> struct Wrap {            // user template, member order differs from serialize order
  char pad = 'w'; T t{}; int after = 3;
  template <typename S> void serialize(S& s) { s | after | t | pad; }
  static Wrap pbt_gen(Src& s) { Wrap w; w.pad = pbt::gen<char>(s); w.t = pbt::gen<T>(s); w.after = pbt::gen<int>(s); return w; }
  void pbt_put(std::string& o) const { o += "W{"; pbt::put(o, pad); o += ','; pbt::put(o, t); o += ','; pbt::put(o, after); o += '}'; }
  size_t pbt_foot() const { return 5 + pbt::foot(t); }
};
template <typename T> struct WrapNon {         // user template with a free serialize
  T t{}; T u{};
  static WrapNon pbt_gen(Src& s) { pbt::Split sp(s, 2); WrapNon w; w.t = pbt::gen<T>(s); sp.reset(); w.u = pbt::gen<T>(s); return w; }
  void pbt_put(std::string& o) const { o += "N{"; pbt::put(o, t); o += ','; pbt::put(o, u); o += '}'; }
  size_t pbt_foot() const { return pbt::foot(t) + pbt::foot(u); }
};
template <typename S, typename T> void serialize(S& s, WrapNon<T>& w) { s | w.t; s | w.u; }

// plain inheritance: the derived class serializes its base explicitly
struct Der : In {
  std::set<int> extra;
  template <typename S> void serialize(S& s) { In::serialize(s); s | extra; }
  static Der pbt_gen(Src& s) { Der r; static_cast<In&>(r) = pbt::gen<In>(s); r.extra = pbt::gen<std::set<int>>(s); return r; }
  void pbt_put(std::string& o) const { o += "Der{"; In::pbt_put(o); pbt::put(o, extra); o += '}'; }
  size_t pbt_foot() const { return In::pbt_foot() + pbt::foot(extra); }
};

// ------------------------------------------------------------ enums, comparators, hashers, allocators, deleters
enum E8 : int8_t { e8a = -3, e8b = 100 };
enum class E16 : uint16_t { a, b = 65535 };
enum class E64 : int64_t { lo = INT64_MIN, hi = INT64_MAX };
enum class EU64 : uint64_t { big = UINT64_MAX };
enum class EB : bool { no, yes };
enum Plain { p0, p1, p2 = 1 << 30 };
}  // namespace zoo
namespace pbt {
// an unscoped enum without fixed underlying type only holds values in its range
template <> struct Gn<zoo::Plain> { static zoo::Plain gen(Src& s) { return static_cast<zoo::Plain>(s.draw(1u << 31)); } };
}
namespace zoo {

struct Greater { bool operator()(int a, int b) const { return a > b; } };
struct ByLen { bool operator()(std::string const& a, std::string const& b) const { return a.size() != b.size() ? a.size() < b.size() : a < b; } };
struct BadHash { size_t operator()(int v) const { return size_t(v) & 1; } };      // many collisions
struct StrHash { size_t operator()(std::string const& s) const { return s.size(); } };
struct SmallHash { size_t operator()(Small const& s) const { return size_t(s.x) * 31 + s.y; } };
struct ModEq { bool operator()(int a, int b) const { return a == b; } };
template <typename T> struct CountingAlloc {
  using value_type = T;
  CountingAlloc() = default;
  template <typename U> CountingAlloc(CountingAlloc<U> const&) {}
  T* allocate(size_t n) { return std::allocator<T>{}.allocate(n); }
  void deallocate(T* p, size_t n) { std::allocator<T>{}.deallocate(p, n); }
  template <typename U> bool operator==(CountingAlloc<U> const&) const { return true; }
  template <typename U> bool operator!=(CountingAlloc<U> const&) const { return false; }
};
template <typename T> struct Del { void operator()(T* p) const { delete p; } };

}  // namespace zoo

CHECKPOINT_BYTES(zoo::ByMacro)
namespace pbt {
template <> struct IsBytes<zoo::ByMacro> : std::true_type {};
template <> struct IsBytes<zoo::ByNon> : std::true_type {};
template <> struct IsBytes<zoo::ByTrait> : std::true_type {};
}
namespace checkpoint {
template <> struct ByteCopyNonIntrusive<zoo::ByNon> { using isByteCopyable = std::true_type; };
template <> struct isByteCopyable<zoo::ByTrait> : std::true_type {};
template <> struct CheckpointReconstructor<zoo::ReconSpec> {
  static void reconstruct(zoo::ReconSpec*& t, void* buf) { t = new (buf) zoo::ReconSpec(-5, "spec"); }
};
}
