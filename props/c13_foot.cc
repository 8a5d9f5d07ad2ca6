// Types that can only be footprinted: non-serializable classes, atomics, functions, threads, pointers, and containers and classes of them.
#include "../pbt/zoo.h"
#include <checkpoint/checkpoint.h>
#include <atomic>
#include <functional>
#include <thread>
#include <cstdio>
using namespace pbt;
std::vector<Unit>& footUnits();

namespace fo {
using namespace std;
using namespace zoo;
struct NoSer { double d = 1; string s = "not serializable"; vector<int> v{1, 2, 3}; };                // counted as its own size
struct NoSerPriv { NoSerPriv() = default; NoSerPriv(NoSerPriv&&) = default; private: unique_ptr<int> p; long x[5] = {}; };
struct Virt { virtual ~Virt() = default; int a = 0; };                                                  // virtual, nothing declared
union Un { int i; double d; char c[24]; };
struct Adds {                                                                                         // reports storage of its own
  double d = 0; size_t extra = 0;
  template <typename S> void serialize(S& s) { s | d; s.addBytes(extra); }
};
struct FootOnly {                                                                                     // serialize only for footprinting
  shared_ptr<string> sp; int* raw = nullptr; function<void(int)> fn; NoSer n; vector<shared_ptr<In>> vs; FILE* f = nullptr; void* opaque = nullptr;
  FootOnly() = default;
  FootOnly(FootOnly&& o) noexcept : sp(std::move(o.sp)), raw(o.raw), fn(std::move(o.fn)), n(std::move(o.n)), vs(std::move(o.vs)), f(o.f), opaque(o.opaque) { o.raw = nullptr; }
  ~FootOnly() { delete raw; }
  template <typename S, typename = enable_if_t<checkpoint::is_footprinter_v<S>>> void serialize(S& s) { s | sp; s | raw; s | fn; s | n; s | vs; s | f; s | opaque; }
};
struct Mixed {                                                                                        // serializable as usual, with extra members when footprinting
  int a = 0; vector<string> b; NoSer hidden; int* cache = nullptr;
  Mixed() = default;
  Mixed(Mixed&& o) noexcept : a(o.a), b(std::move(o.b)), hidden(std::move(o.hidden)), cache(o.cache) { o.cache = nullptr; }
  ~Mixed() { delete cache; }
  template <typename S> void serialize(S& s) {
    s | a | b;
    if constexpr (checkpoint::is_footprinter_v<S>) { s | hidden; s | cache; s.countBytes(hidden.d); }
  }
};
// pointers that own what they point to, so that cases clean up
template <typename T> struct Raw { T* p = nullptr; Raw() = default; Raw(Raw&& o) noexcept : p(o.p) { o.p = nullptr; } ~Raw() { delete p; } };
}
struct ompi_communicator_t { int x[100]; };
namespace pbt {
#define SIZEOF(T, GEN)                                                                              \
  template <> struct Gn<T> { static T gen(Src& s) { (void)s; GEN } };                               \
  template <> struct Ft<T> { static size_t foot(T const&) { return sizeof(T); } };
SIZEOF(fo::NoSer, fo::NoSer n; n.v.resize(s.draw(20)); n.s.assign(s.draw(50), 'x'); return n;)
SIZEOF(fo::NoSerPriv, return fo::NoSerPriv();)
SIZEOF(fo::Virt, return fo::Virt();)
SIZEOF(fo::Un, fo::Un u; u.d = 0; return u;)
using Fn = std::function<void(int)>;
SIZEOF(Fn, if (s.draw(3) == 0) return Fn(); std::string big(s.draw(100), 'c'); return Fn([big](int) { (void)big; });)
template <typename T> struct Ft<std::atomic<T>> { static size_t foot(std::atomic<T> const&) { return sizeof(std::atomic<T>); } };
template <> struct Ft<std::thread> { static size_t foot(std::thread const&) { return sizeof(std::thread); } };
template <> struct Gn<fo::Adds> { static fo::Adds gen(Src& s) { fo::Adds a; a.extra = s.draw(1u << 20); return a; } };
template <> struct Ft<fo::Adds> { static size_t foot(fo::Adds const& a) { return 8 + a.extra; } };
template <typename T> struct PFt { static size_t foot(T* p) { return sizeof p + (p ? pbt::foot(*p) : 0); } };
template <> struct Gn<fo::FootOnly> {
  static fo::FootOnly gen(Src& s) {
    fo::FootOnly f; Split sp(s, 4);
    f.sp = pbt::gen<std::shared_ptr<std::string>>(s); if (s.draw(2)) f.raw = new int(3); f.fn = pbt::gen<Fn>(s); f.n = pbt::gen<fo::NoSer>(s);
    f.vs = pbt::gen<std::vector<std::shared_ptr<fo::In>>>(s); if (s.draw(2)) f.f = stdout; if (s.draw(2)) f.opaque = &s;
    return f;
  }
};
template <> struct Ft<fo::FootOnly> {
  static size_t foot(fo::FootOnly const& f) { return pbt::foot(f.sp) + PFt<int>::foot(f.raw) + sizeof f.fn + sizeof f.n + pbt::foot(f.vs) + 2 * sizeof(void*); }
};
template <> struct Gn<fo::Mixed> { static fo::Mixed gen(Src& s) { fo::Mixed m; m.b = pbt::gen<std::vector<std::string>>(s); m.hidden = pbt::gen<fo::NoSer>(s); if (s.draw(2)) m.cache = new int(1); return m; } };
template <> struct Ft<fo::Mixed> { static size_t foot(fo::Mixed const& m) { return 4 + pbt::foot(m.b) + sizeof m.hidden + PFt<int>::foot(m.cache) + 8; } };
}

// What is printed of a value here is its model footprint and size only (these types cannot be compared).
template <typename T> static void judge(char const* name, T& t, Src& s, Ctx& c) {
  size_t model = Ft<T>::foot(t), want = std::max(model, sizeof(T));
  std::string raw(reinterpret_cast<char const*>(&t), sizeof t);
  c.nontrivial(model != 0); c.note(strf("%s: %zu bytes", name, want));
  size_t got = checkpoint::getMemoryFootprint(t);
  PBT_CHECK(got == want, "footprint of %s is %zu, expected %zu", name, got, want);
  size_t off = s.draw(1u << 16);
  got = checkpoint::getMemoryFootprint(t, off);
  PBT_CHECK(got == want + off, "footprint of %s with offset %zu is %zu, expected %zu", name, off, got, want + off);
  PBT_CHECK(raw == std::string(reinterpret_cast<char const*>(&t), sizeof t), "computing the footprint of %s changed the object", name);
  PBT_CHECK(Ft<T>::foot(t) == model, "computing the footprint of %s changed what it holds", name);
}
template <typename T> static void reg(char const* name) {
  footUnits().push_back({std::string("footprint only: ") + name, 1, [name](Src& s, Ctx& c) { T t = Gn<T>::gen(s); judge<T>(name, t, s, c); }});
}
template <typename T> static void regRaw(char const* name) {      // a raw pointer: its size and what it points to
  footUnits().push_back({std::string("footprint only: ") + name, 1, [name](Src& s, Ctx& c) {
    fo::Raw<T> r; if (s.draw(4)) r.p = new T(Gn<T>::gen(s));
    T* p = r.p;
    size_t want = PFt<T>::foot(p), got = checkpoint::getMemoryFootprint(p);
    c.nontrivial(p != nullptr); c.note(strf("%s: %zu bytes", name, want));
    PBT_CHECK(got == want, "footprint of %s is %zu, expected %zu", name, got, want);
    PBT_CHECK(p == r.p, "the pointer changed");
    std::vector<T*> vp; size_t n = s.draw(6), slack = s.draw(9), w = 0;
    vp.reserve(n + slack);
    for (size_t i = 0; i < n; i++) { vp.push_back(s.draw(3) ? p : nullptr); w += PFt<T>::foot(vp.back()); }
    w += sizeof vp + sizeof(T*) * (vp.capacity() - n);
    got = checkpoint::getMemoryFootprint(vp);
    PBT_CHECK(got == w, "footprint of a vector of %s is %zu, expected %zu", name, got, w);
  }});
}
template <typename P> static void regOpaque(char const* name) {  // pointers that are not followed
  footUnits().push_back({std::string("footprint only: ") + name, 1, [name](Src& s, Ctx& c) {
    alignas(64) static char blob[4096];
    P p = s.draw(3) ? reinterpret_cast<P>(blob + s.draw(64)) : nullptr;
    c.nontrivial(p != nullptr); c.note(name);
    size_t off = s.draw(100), got = checkpoint::getMemoryFootprint(p, off);
    PBT_CHECK(got == sizeof p + off, "footprint of %s is %zu, expected %zu", name, got, sizeof p + off);
    std::vector<P> v(s.draw(9), p);
    got = checkpoint::getMemoryFootprint(v);
    PBT_CHECK(got == sizeof v + sizeof p * v.capacity(), "footprint of a vector of %s is %zu, expected %zu", name, got, sizeof v + sizeof p * v.capacity());
  }});
}
namespace fo {
static int all = [] {
#define R(...) reg<__VA_ARGS__>(#__VA_ARGS__);
  R(NoSer) R(NoSerPriv) R(Virt) R(Un) R(Adds) R(FootOnly) R(Mixed) R(pbt::Fn)
  R(vector<NoSer>) R(list<NoSer>) R(deque<NoSerPriv>) R(array<NoSer, 3>) R(pair<int, NoSer>) R(tuple<NoSer, string, NoSerPriv>) R(optional<NoSer>) R(unique_ptr<NoSer>) R(vector<vector<NoSer>>)
  R(map<int, NoSer>) R(unordered_map<string, NoSer>) R(multimap<string, NoSer>) R(variant<int, NoSer>) R(queue<NoSer>) R(stack<NoSer>)
  R(shared_ptr<int>) R(shared_ptr<string>) R(shared_ptr<vector<string>>) R(shared_ptr<In>) R(shared_ptr<NoSer>) R(shared_ptr<shared_ptr<string>>) R(vector<shared_ptr<string>>) R(map<int, shared_ptr<In>>)
  R(optional<shared_ptr<In>>) R(array<shared_ptr<In>, 2>) R(tuple<shared_ptr<string>, int>) R(pair<shared_ptr<In>, string>) R(list<shared_ptr<vector<int>>>) R(unique_ptr<shared_ptr<string>>) R(deque<shared_ptr<int>>)
  R(priority_queue<int>) R(priority_queue<string>) R(priority_queue<double>) R(stack<int>) R(stack<string>) R(stack<vector<int>>) R(queue<vector<string>>) R(vector<stack<int>>) R(map<int, priority_queue<int>>)
  R(vector<FootOnly>) R(list<FootOnly>) R(unique_ptr<FootOnly>) R(shared_ptr<FootOnly>) R(vector<Mixed>) R(unique_ptr<Mixed>) R(vector<Adds>) R(tuple<Adds, Adds>) R(vector<pbt::Fn>) R(list<pbt::Fn>)
#define W(...) regRaw<__VA_ARGS__>(#__VA_ARGS__ "*");
  W(int) W(double) W(string) W(vector<string>) W(In) W(NoSer) W(map<int, string>) W(Mixed) W(Adds) W(shared_ptr<string>)
#define O(...) regOpaque<__VA_ARGS__>(#__VA_ARGS__);
  O(void*) O(FILE*) O(ompi_communicator_t*) O(ompi_group_t*) O(ompi_request_t*) O(ompi_win_t*)
  footUnits().push_back({"footprint only: atomic", 1, [](Src& s, Ctx& c) {
    atomic<int> a{int(s.draw(100))}; atomic<bool> b{true}; atomic<uint64_t> d{s.draw(0)}; atomic<char> e{'x'};
    judge("atomic<int>", a, s, c); judge("atomic<bool>", b, s, c); judge("atomic<uint64_t>", d, s, c); judge("atomic<char>", e, s, c);
    PBT_CHECK(b.load(), "the atomic changed");
    list<atomic<int>> l; size_t n = s.draw(20); for (size_t i = 0; i < n; i++) l.emplace_back(int(i));
    judge("list<atomic<int>>", l, s, c);
  }});
  footUnits().push_back({"footprint only: thread", 1, [](Src& s, Ctx& c) {
    thread t; if (s.chance(1, 10)) t = thread([] {});
    struct J { thread& t; ~J() { if (t.joinable()) t.join(); } } j{t};
    judge("thread", t, s, c);
    vector<thread> v(s.draw(5)); judge("vector<thread>", v, s, c);
  }});
  return 0;
}();
}
