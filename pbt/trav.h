// C14: user-defined traversers and dispatchers, and an independent model of what they must see.
// Included by ops.h (with OPS_TRAV) after the value types and, where present, the polymorphic hierarchies.
#pragma once
#include "polybase.h"
#include <checkpoint/checkpoint.h>
#include <typeindex>

namespace pbt {

struct TravEv {
  char kind;                    // 'B' a run of byte-copyable leaves, 'D' an object handed to the dispatcher, 'X' one that it intercepts
  void const* addr = nullptr;   // real address, null when the element is a temporary or a copy
  size_t size = 0, num = 0;
  std::type_info const* ti = nullptr;
  char flavour = '?';           // of a dispatched object: 'i' member serialize, 'n' free serialize
  bool anyVal = false;
  uint64_t val = 0;
};
using TravCut = std::set<std::type_index>;
struct TravLog {
  std::vector<TravEv> ev;
  char const* top = nullptr;    // frame address when the traversal began: anything between here and the current frame is a temporary
};

// ---------------------------------------------------------------- the model: recursion rules written down independently
struct TravModel;
template <typename T, typename = void> struct Mdl;
template <typename T> struct MdlBytes : IsBytes<T> {};
template <> struct MdlBytes<zoo::ByMacro>;
template <typename T> struct IsLayer : std::false_type {};       // class of a registered hierarchy
template <typename T> struct NoDispatch : std::bool_constant<std::is_enum<T>::value> {};

struct TravModel {
  TravLog& log; TravCut const* cut; int any = 0;
  TravModel(TravLog& l, TravCut const* c) : log(l), cut(c) {}
  bool isPacking() const { return false; }
  bool isUnpacking() const { return false; }
  bool isSizing() const { return false; }
  bool isFootprinting() const { return false; }
  template <typename T> void countBytes(T const&) {}
  void addBytes(size_t) {}

  template <typename T> void run(T const* p, size_t n, bool temp = false, bool anyVal = false) {
    TravEv e; e.kind = 'B'; e.size = sizeof(T); e.num = n; e.ti = &typeid(T);
    auto c = reinterpret_cast<char const*>(p);
    bool stack = c >= static_cast<char*>(__builtin_frame_address(0)) && c < log.top;
    e.addr = temp || any || stack ? nullptr : p;
    e.anyVal = anyVal || (!e.addr && !std::is_integral<T>::value && !std::is_same<T, double>::value && !std::is_same<T, float>::value);
    if (!e.anyVal) e.val = hashBytes(p, sizeof(T) * n);
    log.ev.push_back(e);
  }
  template <typename T> void temp(T v, bool anyVal = false) { run(&v, 1, true, anyVal); }
  template <typename T> using memser_t = decltype(std::declval<T&>().serialize(std::declval<TravModel&>()));
  template <typename T, typename = void> struct HasMember : std::false_type {};
  template <typename T> struct HasMember<T, std::void_t<memser_t<T>>> : std::true_type {};

  // hands one object of static type T to the dispatcher; false: intercepted
  template <typename T> bool enter(T const& t) {
    TravEv e; e.kind = 'D'; e.ti = &typeid(T); e.flavour = HasMember<T>::value ? 'i' : 'n';
    auto c = reinterpret_cast<char const*>(&t);
    bool stack = c >= static_cast<char*>(__builtin_frame_address(0)) && c < log.top;
    e.addr = any || stack ? nullptr : &t;
    log.ev.push_back(e);
    if (cut && cut->count(typeid(T))) { log.ev.back().kind = 'X'; return false; }
    return true;
  }
  template <typename T> void body(T& t) {     // what serializing one object of static type T visits, without dispatching it again
    if constexpr (HasMember<T>::value) t.serialize(*this);
    else serialize(*this, t);
  }
  template <typename T> void visit(T& t) {
    if constexpr (MdlBytes<T>::value) run(&t, 1);
    else if constexpr (NoDispatch<T>::value) Mdl<T>::go(*this, t);
    else if constexpr (IsLayer<T>::value) Mdl<T>::go(*this, t);
    else if (enter(t)) Mdl<T>::go(*this, t);
  }
  template <typename T> TravModel& operator|(T& t) { visit(const_cast<std::remove_const_t<T>&>(t)); return *this; }
  template <typename T> void arr(T* p, size_t n) { if (n) { if constexpr (MdlBytes<T>::value) run(p, n); else for (size_t i = 0; i < n; i++) visit(p[i]); } }
  template <typename C> void elems(C& c) { for (auto& e : c) *this | e; }
};
template <typename T, typename> struct Mdl { static void go(TravModel& m, T& t) { m.body(t); } };
template <typename T> struct Mdl<T, std::enable_if_t<std::is_enum<T>::value>> { static void go(TravModel& m, T& t) { m.temp(static_cast<std::underlying_type_t<T>>(t)); } };
template <typename R, typename P> struct Mdl<std::chrono::duration<R, P>> { static void go(TravModel& m, std::chrono::duration<R, P>& t) { m.temp(t.count()); } };
template <> struct Mdl<std::string> { static void go(TravModel& m, std::string& t) { m.temp(t.size()); if (t.size()) m.run(t.data(), t.size()); } };
template <typename T, typename A> struct Mdl<std::vector<T, A>> {
  static void go(TravModel& m, std::vector<T, A>& v) {
    m.temp(v.capacity(), m.any > 0);   // a copied vector has a capacity of its own
    m.temp(v.size());
    if constexpr (std::is_same<T, bool>::value) for (bool b : v) m.temp(b);
    else m.arr(v.data(), v.size());
  }
};
template <typename T, size_t N> struct Mdl<std::array<T, N>> { static void go(TravModel& m, std::array<T, N>& v) { m.arr(v.data(), N); } };
#define PBT_MDL_SIZED(PARAMS, ...) template <PARAMS> struct Mdl<__VA_ARGS__> { static void go(TravModel& m, __VA_ARGS__& v) { m.temp(v.size()); m.elems(v); } };
PBT_MDL_SIZED(typename T, std::list<T>)
PBT_MDL_SIZED(typename T, std::deque<T>)
PBT_MDL_SIZED(typename K PBT_COMMA typename V PBT_COMMA typename C, std::map<K, V, C>)
PBT_MDL_SIZED(typename K PBT_COMMA typename V PBT_COMMA typename C, std::multimap<K, V, C>)
PBT_MDL_SIZED(typename K PBT_COMMA typename C, std::set<K, C>)
PBT_MDL_SIZED(typename K PBT_COMMA typename C, std::multiset<K, C>)
PBT_MDL_SIZED(typename K PBT_COMMA typename V PBT_COMMA typename H PBT_COMMA typename E, std::unordered_map<K, V, H, E>)
PBT_MDL_SIZED(typename K PBT_COMMA typename V PBT_COMMA typename H PBT_COMMA typename E, std::unordered_multimap<K, V, H, E>)
PBT_MDL_SIZED(typename K PBT_COMMA typename H PBT_COMMA typename E, std::unordered_set<K, H, E>)
PBT_MDL_SIZED(typename K PBT_COMMA typename H PBT_COMMA typename E, std::unordered_multiset<K, H, E>)
template <typename T> struct Mdl<std::queue<T>> {
  static void go(TravModel& m, std::queue<T>& q) { m.temp(q.size()); m.any++; for (auto& e : QPeek<std::queue<T>>::get(q)) m | e; m.any--; }
};
template <typename A, typename B> struct Mdl<std::pair<A, B>> { static void go(TravModel& m, std::pair<A, B>& p) { m | p.first; m | p.second; } };
template <typename... Ts> struct Mdl<std::tuple<Ts...>> { static void go(TravModel& m, std::tuple<Ts...>& t) { std::apply([&](auto&... e) { (void(m | e), ...); }, t); } };
template <typename T> struct Mdl<std::optional<T>> { static void go(TravModel& m, std::optional<T>& v) { m.temp(v.has_value()); if (v) m | *v; } };
template <typename... Ts> struct Mdl<std::variant<Ts...>> { static void go(TravModel& m, std::variant<Ts...>& v) { m.temp(v.index()); std::visit([&](auto& e) { m | e; }, v); } };
template <typename T, typename D> struct Mdl<std::unique_ptr<T, D>> {
  static void go(TravModel& m, std::unique_ptr<T, D>& p) {
    m.temp(p == nullptr);
    if (!p) return;
    if constexpr (IsLayer<T>::value) m.temp(checkpoint::dispatch::vrt::TypeIdx(0), true);
    m | *p;
  }
};
template <> struct Mdl<zoo::ByMacro> { static void go(TravModel& m, zoo::ByMacro& t) { m.run(&t, 1); } };   // CHECKPOINT_BYTES provides a serialize function
template <> struct MdlBytes<zoo::ByMacro> : std::false_type {};
template <> struct Mdl<zoo::DynArr> { static void go(TravModel& m, zoo::DynArr& a) { m | a.n; m.arr(a.p, a.n); } };
template <> struct Mdl<zoo::IntArr> { static void go(TravModel& m, zoo::IntArr& a) { m | a.n; m.arr(a.p.get(), a.n); } };
template <> struct Mdl<zoo::Split2> { static void go(TravModel& m, zoo::Split2& a) { m | a.viaSerialize | a.pb | a.own | a.t; } };

// polymorphic classes: every layer of the dynamic type, base first
template <typename C, typename R> void mdlLayer(TravModel& m, R& r) { if (auto p = dynamic_cast<C*>(&r)) if (m.enter(*p)) m.body(*p); }
template <typename... C> struct Layers {
  template <typename R> static void go(TravModel& m, R& r) { (mdlLayer<C>(m, r), ...); }
  template <typename Trav> static void inst() { (checkpoint::instantiateObjSerializer<C, Trav>(), ...); }
};
#define PBT_LAYERED(LIST, T) template <> struct IsLayer<T> : std::true_type {}; template <> struct Mdl<T> { static void go(TravModel& m, T& t) { LIST::go(m, t); } };
#ifdef POLY_M_CLASSES
using LM = Layers<poly::M0, poly::M1, poly::M1b, poly::M2, poly::M2b, poly::M3, poly::M4>;
PBT_LAYERED(LM, poly::M0) PBT_LAYERED(LM, poly::M1) PBT_LAYERED(LM, poly::M2) PBT_LAYERED(LM, poly::M3) PBT_LAYERED(LM, poly::M4) PBT_LAYERED(LM, poly::M1b) PBT_LAYERED(LM, poly::M2b)
#ifndef POLY_NO_A
using LA = Layers<poly::A0, poly::A1, poly::A2>;
PBT_LAYERED(LA, poly::A0) PBT_LAYERED(LA, poly::A1) PBT_LAYERED(LA, poly::A2)
#endif
#endif
#ifdef POLY_C_CLASSES
using LC = Layers<poly::C0, poly::C1, poly::C1b, poly::C2, poly::C3>;
PBT_LAYERED(LC, poly::C0) PBT_LAYERED(LC, poly::C1) PBT_LAYERED(LC, poly::C1b) PBT_LAYERED(LC, poly::C2) PBT_LAYERED(LC, poly::C3)
#endif
#ifdef POLY_N_CLASSES
using LN = Layers<poly::N0, poly::N1, poly::N1b, poly::N2>;
PBT_LAYERED(LN, poly::N0) PBT_LAYERED(LN, poly::N1) PBT_LAYERED(LN, poly::N1b) PBT_LAYERED(LN, poly::N2)
#endif
template <typename Trav> static void instantiateTrav() {   // differs between the parts
#ifdef POLY_M_CLASSES
  LM::inst<Trav>();
#ifndef POLY_NO_A
  LA::inst<Trav>();
#endif
#endif
#ifdef POLY_C_CLASSES
  LC::inst<Trav>();
#endif
#ifdef POLY_N_CLASSES
  LN::inst<Trav>();
#endif
}

// ---------------------------------------------------------------- the traversers handed to the library
// Untyped, with the standard dispatcher; any mode.
struct PlainTrav : checkpoint::BaseSerializer {
  TravLog* log; std::string* bytes; size_t* sum;
  PlainTrav(checkpoint::eSerializationMode m, TravLog* l, std::string* b, size_t* n) : checkpoint::BaseSerializer(m), log(l), bytes(b), sum(n) {}
  void contiguousBytes(void* p, size_t size, size_t num) {
    if (log) { TravEv e; e.kind = 'B'; e.addr = p; e.size = size; e.num = num; e.val = hashBytes(p, size * num); log->ev.push_back(e); }
    if (bytes) bytes->append(static_cast<char*>(p), size * num);
    if (sum) *sum += size * num;
  }
};
// Typed, with a dispatcher of its own that intercepts a set of types.
template <typename S, typename T> struct CutDispatcher {
  static bool enter(S& s, T& t, char flavour) {
    TravEv e; e.kind = 'D'; e.addr = &t; e.ti = &typeid(T); e.flavour = flavour;
    if (s.cut && s.cut->count(typeid(T))) e.kind = 'X';
    s.log->ev.push_back(e);
    return e.kind == 'D';
  }
  static void serializeIntrusive(S& s, T& t) { if (enter(s, t, 'i')) t.serialize(s); }
  static void serializeNonIntrusive(S& s, T& t) { if (enter(s, t, 'n')) serialize(s, t); }
};
struct TypedTrav : checkpoint::BaseSerializer {
  template <typename S, typename T> using DispatcherType = CutDispatcher<S, T>;
  TravLog* log; TravCut const* cut;
  TypedTrav(TravLog* l, TravCut const* c) : checkpoint::BaseSerializer(checkpoint::eSerializationMode::None), log(l), cut(c) {}
  template <typename S, typename T> void contiguousTyped(S& s, T* p, size_t num) {
    if (static_cast<void*>(&s) != static_cast<void*>(this)) PBT_FAIL("contiguousTyped was called with another traverser");
    TravEv e; e.kind = 'B'; e.addr = p; e.size = sizeof(T); e.num = num; e.ti = &typeid(T); e.val = hashBytes(p, sizeof(T) * num);
    log->ev.push_back(e);
  }
  void contiguousBytes(void*, size_t, size_t) { PBT_FAIL("contiguousBytes was called although the traverser overrides contiguousTyped"); }
};

namespace {
template <typename T> struct TravOps {
  static void model(void* p, TravLog& l, TravCut const* cut) { l.top = static_cast<char*>(__builtin_frame_address(0)); TravModel m(l, cut); m | *static_cast<T*>(p); }
  static void typed(void* p, TravLog& l, TravCut const* cut) { instantiateTrav<TypedTrav>(); checkpoint::dispatch::Traverse::with<T, TypedTrav>(*static_cast<T*>(p), &l, cut); }
  // an existing traverser, used on the object directly
  static void typedRef(void* p, TravLog& l, TravCut const* cut) { instantiateTrav<TypedTrav>(); TypedTrav t(&l, cut); checkpoint::dispatch::Traverse::with(*static_cast<T*>(p), t); }
  static void plain(void* p, int mode, TravLog* l, std::string* b, size_t* n) {
    instantiateTrav<PlainTrav>();
    checkpoint::dispatch::Traverse::with<T, PlainTrav>(*static_cast<T*>(p), static_cast<checkpoint::eSerializationMode>(mode), l, b, n);
  }
};
}  // namespace
}  // namespace pbt
