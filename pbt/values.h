// Generators (Gn), canonical representations (Rp) and footprint models (Ft) for the value types the library supports.
// Everything here is independent of the library: it is the oracle side.
#pragma once
#include "engine.h"
#include <array>
#include <chrono>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <algorithm>
#include <atomic>

namespace pbt {

template <typename T, typename = void> struct Gn;   // static T gen(Src&)
template <typename T, typename = void> struct Rp;   // static void put(std::string&, T const&): canonical text of the value
template <typename T, typename = void> struct Ft;   // static size_t foot(T const&): documented footprint, has = exact model known
template <typename T, typename = void> struct Nm;   // static std::string name()

template <typename T> T gen(Src& s) { return Gn<T>::gen(s); }
template <typename T> void put(std::string& o, T const& t) { Rp<T>::put(o, t); }
template <typename T> std::string repr(T const& t) { std::string o; Rp<T>::put(o, t); return o; }
template <typename T> size_t foot(T const& t) { return Ft<T>::foot(t); }

inline void putHex(std::string& o, void const* p, size_t n) {
  static char const* d = "0123456789abcdef";
  auto b = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; i++) { o += d[b[i] >> 4]; o += d[b[i] & 15]; }
}
inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto b = static_cast<unsigned char const*>(p);
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, b + i, 8); h = mix64(h ^ w); }
  for (; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

// Divides the leaf budget between `parts` children for the lifetime of the object.
struct Split {
  Src& s; uint64_t saved; uint64_t share;
  Split(Src& src, uint64_t parts) : s(src), saved(src.budget), share(std::max<uint64_t>(1, src.budget / std::max<uint64_t>(1, parts))) { s.budget = share; }
  ~Split() { s.budget = saved; }
  void reset() { s.budget = share; }
};

// Long runs of elements are filled from a generator derived from one recorded choice, to keep cases short.
struct Bulk {
  Src& s; bool on;
  Bulk(Src& src, size_t n) : s(src), on(n > 24 && !src.bulk) { if (on) { uint64_t v = s.draw(1u << 30); s.bulk_rng = Rng(v); s.bulk = 1; } }
  ~Bulk() { if (on) s.bulk = 0; }
};

inline std::vector<uint64_t> const& boundarySizes() {
  static std::vector<uint64_t> v{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 199, 200, 255, 256, 257, 511, 512, 513,
    999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769,
    65535, 65536, 65537, 100000, 131071, 131072, 131073, 262144, 262145, 524288, 1000000, 1048575, 1048576, 1048577};
  return v;
}

// Container length; `cap` bounds it (leaf budget). Small lengths dominate, boundary lengths and constants of the code occur regularly.
inline size_t genLen(Src& s, uint64_t cap) {
  if (s.big && cap >= 65537 && s.draw(4)) {
    s.big = false;
    uint64_t n = s.pick<uint64_t>({65537, 65536, 65535, 66000, 70000, 100000, 131072, 131073, 262145, 500000});
    return n <= cap ? n : 65535 + s.draw(4);
  }
  uint64_t k = s.draw(100);
  uint64_t n;
  if (k < 10) n = 0;
  else if (k < 62) n = s.draw(5);
  else if (k < 78) n = s.draw(21);
  else if (k < 92) n = boundarySizes()[s.draw(boundarySizes().size())];
  else if (k < 96 && !dictInts().empty()) {
    n = dictInts()[s.draw(dictInts().size())] + s.draw(3) - 1;
  } else n = s.draw(600);
  if (n > cap) n = s.draw(std::min<uint64_t>(cap, 9) + 1);
  return n;
}

// ---------------------------------------------------------------- arithmetic
template <typename T> uint64_t genBits(Src& s) {
  constexpr unsigned bits = sizeof(T) >= 8 ? 64 : sizeof(T) * 8;
  uint64_t k = s.draw(8);
  if (k <= 2) return s.draw(12);
  if (k == 3) {
    uint64_t b = s.draw(bits);
    uint64_t v = 1ull << b;
    switch (s.draw(3)) { case 0: return v; case 1: return v - 1; default: return ~v; }
  }
  if (k == 4) return ~s.draw(4);     // -1, -2, ...
  if (k == 5 && !dictInts().empty()) return dictInts()[s.draw(dictInts().size())] + s.draw(3) - 1;
  if (k == 6) return s.draw(1u << 16);
  return s.draw(0);
}

template <typename T>
struct Gn<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static T gen(Src& s) { return static_cast<T>(genBits<T>(s)); }
};
template <> struct Gn<bool> { static bool gen(Src& s) { return s.draw(2) == 1; } };
template <typename T>
struct Gn<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static T gen(Src& s) {
    switch (s.draw(9)) {
    case 0: return T(0);
    case 1: return T(int64_t(s.draw(200)) - 100) / 4;
    case 2: return -T(0);
    case 3: return s.draw(2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    case 4: return s.draw(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::denorm_min();
    case 5: case 6: {
      if constexpr (sizeof(T) <= 8) {     // any bit pattern, NaN payloads included
        uint64_t b = s.draw(0); T t; memcpy(&t, &b, sizeof t); return t;
      } else return T(s.draw(0)) / 3;
    }
    case 7: {
      if constexpr (sizeof(T) == 8) {     // NaN with payload, quiet and signalling
        uint64_t b = (s.draw(2) << 63) | 0x7ff0000000000000ull | (1 + s.draw((1ull << 52) - 1)); T t; memcpy(&t, &b, 8); return t;
      } else if constexpr (sizeof(T) == 4) {
        uint32_t b = uint32_t((s.draw(2) << 31) | 0x7f800000u | (1 + s.draw((1u << 23) - 1))); T t; memcpy(&t, &b, 4); return t;
      } else return std::numeric_limits<T>::quiet_NaN();
    }
    default: return T(std::ldexp(double(s.draw(1u << 30)), int(s.draw(200)) - 100));
    }
  }
};
template <typename T>
struct Rp<T, std::enable_if_t<std::is_arithmetic<T>::value>> {
  static void put(std::string& o, T const& t) {
    if constexpr (std::is_same<T, bool>::value) o += t ? '1' : '0';
    else if constexpr (std::is_integral<T>::value) o += std::to_string(static_cast<long long>(t));
    else if constexpr (sizeof(T) > 8) { o += 'x'; putHex(o, &t, 10); }
    else { o += 'x'; putHex(o, &t, sizeof t); }
  }
};
template <typename T>
struct Ft<T, std::enable_if_t<std::is_arithmetic<T>::value>> { static size_t foot(T const&) { return sizeof(T); } };

// ---------------------------------------------------------------- user classes: member functions gen / put / foot
template <typename T> using has_gen_t = decltype(T::pbt_gen(std::declval<Src&>()));
template <typename T, typename = void> struct HasGen : std::false_type {};
template <typename T> struct HasGen<T, std::void_t<has_gen_t<T>>> : std::true_type {};
template <typename T> using has_put_t = decltype(std::declval<T const&>().pbt_put(std::declval<std::string&>()));
template <typename T, typename = void> struct HasPut : std::false_type {};
template <typename T> struct HasPut<T, std::void_t<has_put_t<T>>> : std::true_type {};
template <typename T> using has_foot_t = decltype(std::declval<T const&>().pbt_foot());
template <typename T, typename = void> struct HasFoot : std::false_type {};
template <typename T> struct HasFoot<T, std::void_t<has_foot_t<T>>> : std::true_type {};

template <typename T> struct Gn<T, std::enable_if_t<std::is_class<T>::value && HasGen<T>::value>> { static T gen(Src& s) { return T::pbt_gen(s); } };
template <typename T> struct Rp<T, std::enable_if_t<std::is_class<T>::value && HasPut<T>::value>> { static void put(std::string& o, T const& t) { t.pbt_put(o); } };
template <typename T> struct Ft<T, std::enable_if_t<std::is_class<T>::value && HasFoot<T>::value>> { static size_t foot(T const& t) { return t.pbt_foot(); } };

// ---------------------------------------------------------------- enums: any value of the underlying type
template <typename T> struct Gn<T, std::enable_if_t<std::is_enum<T>::value>> {
  static T gen(Src& s) { return static_cast<T>(Gn<std::underlying_type_t<T>>::gen(s)); }
};
template <typename T> struct Rp<T, std::enable_if_t<std::is_enum<T>::value>> {
  static void put(std::string& o, T const& t) { o += 'e'; Rp<std::underlying_type_t<T>>::put(o, static_cast<std::underlying_type_t<T>>(t)); }
};
template <typename T> struct Ft<T, std::enable_if_t<std::is_enum<T>::value>> { static size_t foot(T const&) { return sizeof(T); } };

// ---------------------------------------------------------------- durations
template <typename R, typename P> struct Gn<std::chrono::duration<R, P>> { static std::chrono::duration<R, P> gen(Src& s) { return std::chrono::duration<R, P>(Gn<R>::gen(s)); } };
template <typename R, typename P> struct Rp<std::chrono::duration<R, P>> { static void put(std::string& o, std::chrono::duration<R, P> const& d) { o += 'D'; pbt::put(o, d.count()); } };
template <typename R, typename P> struct Ft<std::chrono::duration<R, P>> { static size_t foot(std::chrono::duration<R, P> const&) { return sizeof(R); } };

// ---------------------------------------------------------------- strings
template <> struct Gn<std::string> {
  static std::string gen(Src& s) {
    if (!dictStrs().empty() && s.draw(24) == 23) return dictStrs()[s.draw(dictStrs().size())];
    size_t n = genLen(s, s.budget * 4);
    std::string r;
    r.resize(n);
    Bulk b(s, n);
    unsigned style = unsigned(s.draw(3));
    for (size_t i = 0; i < n; i++)
      r[i] = style == 0 ? char('a' + s.draw(26)) : style == 1 ? char(s.draw(256)) : char(s.draw(2) ? 0 : 'A' + s.draw(4));
    if (s.draw(4) == 3) r.reserve(n + s.draw(200));      // slack capacity
    return r;
  }
};
template <> struct Rp<std::string> {
  static void put(std::string& o, std::string const& t) {
    o += 's'; o += std::to_string(t.size()); o += ':';
    if (t.size() <= 96) o.append(t);
    else { uint64_t h = hashBytes(t.data(), t.size()); o.append(t, 0, 24); o += '#'; putHex(o, &h, 8); }
  }
};
template <> struct Ft<std::string> { static size_t foot(std::string const& t) { return sizeof(std::string) + t.capacity(); } };

// ---------------------------------------------------------------- containers
template <typename C> void putSeq(std::string& o, char tag, C const& c) {
  o += tag; o += std::to_string(c.size()); o += '[';
  for (auto const& e : c) { pbt::put(o, static_cast<typename C::value_type const&>(e)); o += ','; }
  o += ']';
}
inline bool g_rawOrder = false;    // print unordered containers in iteration order (to see whether an object was touched at all)
// Every element can be found under its key.
template <typename C> auto const& keyOf(C const&, typename C::value_type const& e) { if constexpr (std::is_same<typename C::value_type, typename C::key_type>::value) return e; else return e.first; }
template <typename C> void putFound(std::string& o, C const& c) {
  size_t lost = 0;
  for (auto const& e : c) if (c.find(keyOf(c, e)) == c.end()) lost++;
  if (lost) o += "!lost" + std::to_string(lost);
}
template <typename C> void putAssoc(std::string& o, char tag, C const& c) { putSeq(o, tag, c); putFound(o, c); }
template <typename C> void putUnordered(std::string& o, char tag, C const& c) {
  std::vector<std::string> v;
  v.reserve(c.size());
  for (auto const& e : c) v.push_back(repr(e));
  if (!g_rawOrder) std::sort(v.begin(), v.end());
  o += tag; o += std::to_string(v.size()); o += '{';
  for (auto& e : v) { o += e; o += ','; }
  o += '}';
  putFound(o, c);
}

template <typename T, typename A> struct Gn<std::vector<T, A>> {
  static std::vector<T, A> gen(Src& s) {
    std::vector<T, A> v;
    size_t n = genLen(s, s.budget * (std::is_arithmetic<T>::value ? 4 : 1));
    Split sp(s, n);
    Bulk b(s, n);
    if (s.draw(4) == 3) v.reserve(n + s.draw(70));
    for (size_t i = 0; i < n; i++) { sp.reset(); v.push_back(Gn<T>::gen(s)); }
    return v;
  }
};
template <typename T, typename A> struct Rp<std::vector<T, A>> {
  static void put(std::string& o, std::vector<T, A> const& v) {
    if constexpr (std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && sizeof(T) <= 8) {
      if (v.size() > 64) {
        uint64_t h = hashBytes(v.data(), v.size() * sizeof(T));
        o += 'v'; o += std::to_string(v.size()); o += '#'; putHex(o, &h, 8);
        return;
      }
    }
    o += 'v'; o += std::to_string(v.size()); o += '[';
    for (size_t i = 0; i < v.size(); i++) { pbt::put(o, static_cast<T const&>(v[i])); o += ','; }
    o += ']';
  }
};
template <typename T, typename A> struct Ft<std::vector<T, A>> {
  static size_t foot(std::vector<T, A> const& v) {
    size_t f = sizeof v;
    if constexpr (std::is_same<T, bool>::value) return f;
    else {
      for (auto const& e : v) f += pbt::foot(e);
      return f + sizeof(T) * (v.capacity() - v.size());
    }
  }
};

#define PBT_SEQ(C, TAG)                                                                             \
  template <typename T> struct Gn<C<T>> {                                                           \
    static C<T> gen(Src& s) {                                                                       \
      C<T> v; size_t n = genLen(s, s.budget); Split sp(s, n); Bulk b(s, n);                         \
      for (size_t i = 0; i < n; i++) { sp.reset(); v.push_back(Gn<T>::gen(s)); }                    \
      return v;                                                                                     \
    }                                                                                               \
  };                                                                                                \
  template <typename T> struct Rp<C<T>> { static void put(std::string& o, C<T> const& v) { putSeq(o, TAG, v); } }; \
  template <typename T> struct Ft<C<T>> {                                                           \
    static size_t foot(C<T> const& v) { size_t f = sizeof v; for (auto const& e : v) f += pbt::foot(e); return f; } \
  };
PBT_SEQ(std::list, 'l')
PBT_SEQ(std::deque, 'd')

template <typename T, size_t N> struct Gn<std::array<T, N>> {
  template <size_t... I> static std::array<T, N> mk(Src& s, std::index_sequence<I...>) { (void)s; return std::array<T, N>{((void)I, Gn<T>::gen(s))...}; }
  static std::array<T, N> gen(Src& s) { Split sp(s, N); return mk(s, std::make_index_sequence<N>{}); }
};
template <typename T, size_t N> struct Rp<std::array<T, N>> { static void put(std::string& o, std::array<T, N> const& v) { putSeq(o, 'a', v); } };
template <typename T, size_t N> struct Ft<std::array<T, N>> { static size_t foot(std::array<T, N> const& v) { size_t f = 0; for (auto const& e : v) f += pbt::foot(e); return f; } };

template <typename A, typename B> struct Gn<std::pair<A, B>> {
  static std::pair<A, B> gen(Src& s) {
    Split sp(s, 2);
    auto a = Gn<std::remove_const_t<A>>::gen(s);
    return std::pair<A, B>(std::move(a), Gn<std::remove_const_t<B>>::gen(s));
  }
};
template <typename A, typename B> struct Rp<std::pair<A, B>> {
  static void put(std::string& o, std::pair<A, B> const& p) { o += 'P'; o += '('; pbt::put<std::remove_const_t<A>>(o, p.first); o += ';'; pbt::put<std::remove_const_t<B>>(o, p.second); o += ')'; }
};
template <typename A, typename B> struct Ft<std::pair<A, B>> {
  static size_t foot(std::pair<A, B> const& p) { return sizeof p + pbt::foot<std::remove_const_t<A>>(p.first) + pbt::foot<std::remove_const_t<B>>(p.second); }
};

template <typename... Ts> struct Gn<std::tuple<Ts...>> {
  static std::tuple<Ts...> gen(Src& s) { Split sp(s, sizeof...(Ts)); (void)s; return std::tuple<Ts...>{Gn<Ts>::gen(s)...}; }
};
template <typename... Ts> struct Rp<std::tuple<Ts...>> {
  static void put(std::string& o, std::tuple<Ts...> const& t) {
    o += 'T'; o += '(';
    std::apply([&](auto const&... e) { ((pbt::put(o, e), o += ';'), ...); }, t);
    o += ')';
  }
};
template <typename... Ts> struct Ft<std::tuple<Ts...>> {
  static size_t foot(std::tuple<Ts...> const& t) { return std::apply([&](auto const&... e) { return (size_t(0) + ... + pbt::foot(e)); }, t); }
};

template <typename M, typename = void> struct OwnHash : std::false_type {};      // such hash functions collide a lot
template <typename M> struct OwnHash<M, std::void_t<typename M::hasher>> : std::bool_constant<!std::is_same<typename M::hasher, std::hash<typename M::key_type>>::value> {};
#define PBT_ASSOC(C, TAG, PUT, PARAMS, ...)                                                         \
  template <PARAMS> struct Gn<C<__VA_ARGS__>> {                                                     \
    using M = C<__VA_ARGS__>;                                                                       \
    static M gen(Src& s) {                                                                          \
      M v; size_t n = genLen(s, std::min<uint64_t>(s.budget, OwnHash<M>::value ? 3000 : 70000)); Split sp(s, n); Bulk b(s, n); \
      bool dup = s.draw(3) == 2;                                                                    \
      for (size_t i = 0; i < n; i++) {                                                              \
        sp.reset();                                                                                 \
        if (dup && i % 3 == 2 && !v.empty()) v.insert(Dup<M>::make(*v.begin(), s)); else v.insert(Mk<M>::make(s)); \
      }                                                                                             \
      return v;                                                                                     \
    }                                                                                               \
  };                                                                                                \
  template <PARAMS> struct Rp<C<__VA_ARGS__>> { static void put(std::string& o, C<__VA_ARGS__> const& v) { PUT(o, TAG, v); } }; \
  template <PARAMS> struct Ft<C<__VA_ARGS__>> {                                                     \
    static size_t foot(C<__VA_ARGS__> const& v) { size_t f = sizeof v; for (auto const& e : v) f += pbt::foot(e); return f; } \
  };

template <typename M, typename = void> struct Mk {   // a fresh element of a set
  static typename M::value_type make(Src& s) { return Gn<typename M::value_type>::gen(s); }
};
template <typename M> struct Mk<M, std::void_t<typename M::mapped_type>> {
  static typename M::value_type make(Src& s) { auto k = Gn<typename M::key_type>::gen(s); return typename M::value_type(std::move(k), Gn<typename M::mapped_type>::gen(s)); }
};
template <typename M, typename = void> struct Dup {   // an element equivalent to an existing one (multi containers keep both)
  static typename M::value_type make(typename M::value_type const& e, Src&) { return e; }
};
template <typename M> struct Dup<M, std::void_t<typename M::mapped_type>> {
  static typename M::value_type make(typename M::value_type const& e, Src& s) { return typename M::value_type(e.first, Gn<typename M::mapped_type>::gen(s)); }
};
#define PBT_COMMA ,
PBT_ASSOC(std::map, 'm', putAssoc, typename K PBT_COMMA typename V PBT_COMMA typename C, K, V, C)
PBT_ASSOC(std::multimap, 'M', putAssoc, typename K PBT_COMMA typename V PBT_COMMA typename C, K, V, C)
PBT_ASSOC(std::set, 'S', putAssoc, typename K PBT_COMMA typename C, K, C)
PBT_ASSOC(std::multiset, 'Z', putAssoc, typename K PBT_COMMA typename C, K, C)
PBT_ASSOC(std::unordered_map, 'u', putUnordered, typename K PBT_COMMA typename V PBT_COMMA typename H PBT_COMMA typename E, K, V, H, E)
PBT_ASSOC(std::unordered_multimap, 'U', putUnordered, typename K PBT_COMMA typename V PBT_COMMA typename H PBT_COMMA typename E, K, V, H, E)
PBT_ASSOC(std::unordered_set, 'h', putUnordered, typename K PBT_COMMA typename H PBT_COMMA typename E, K, H, E)
PBT_ASSOC(std::unordered_multiset, 'H', putUnordered, typename K PBT_COMMA typename H PBT_COMMA typename E, K, H, E)

// The underlying sequence of a queue is read through the protected member c.
template <typename Q> struct QPeek : Q { static typename Q::container_type const& get(Q const& q) { return q.*(&QPeek::c); } };
template <typename T> struct Gn<std::queue<T>> {
  static std::queue<T> gen(Src& s) {
    std::queue<T> q; size_t n = genLen(s, s.budget); size_t drop = s.draw(4); Split sp(s, n); Bulk b(s, n);
    for (size_t i = 0; i < n + drop; i++) { sp.reset(); q.push(Gn<T>::gen(s)); }
    for (size_t i = 0; i < drop; i++) q.pop();
    return q;
  }
};
template <typename T> struct Rp<std::queue<T>> { static void put(std::string& o, std::queue<T> const& q) { putSeq(o, 'q', QPeek<std::queue<T>>::get(q)); } };
template <typename T> struct Ft<std::queue<T>> { static size_t foot(std::queue<T> const& q) { return sizeof q + q.size() * sizeof(T); } };

template <typename T> struct Gn<std::priority_queue<T>> {
  static std::priority_queue<T> gen(Src& s) { std::priority_queue<T> q; size_t n = genLen(s, s.budget); Split sp(s, n); Bulk b(s, n); for (size_t i = 0; i < n; i++) { sp.reset(); q.push(Gn<T>::gen(s)); } return q; }
};
template <typename T> struct Rp<std::priority_queue<T>> { static void put(std::string& o, std::priority_queue<T> const& q) { putSeq(o, 'y', QPeek<std::priority_queue<T>>::get(q)); } };
template <typename T> struct Ft<std::priority_queue<T>> { static size_t foot(std::priority_queue<T> const& q) { return sizeof q + q.size() * sizeof(T); } };
template <typename T> struct Gn<std::stack<T>> {
  static std::stack<T> gen(Src& s) { std::stack<T> q; size_t n = genLen(s, s.budget); Split sp(s, n); Bulk b(s, n); for (size_t i = 0; i < n; i++) { sp.reset(); q.push(Gn<T>::gen(s)); } return q; }
};
template <typename T> struct Rp<std::stack<T>> { static void put(std::string& o, std::stack<T> const& q) { putSeq(o, 'k', QPeek<std::stack<T>>::get(q)); } };
template <typename T> struct Ft<std::stack<T>> { static size_t foot(std::stack<T> const& q) { return sizeof q + q.size() * sizeof(T); } };

// ---------------------------------------------------------------- optional, variant, pointers
template <typename T> struct Gn<std::optional<T>> {
  static std::optional<T> gen(Src& s) { if (s.draw(4) == 0) return std::nullopt; return std::optional<T>(Gn<T>::gen(s)); }
};
template <typename T> struct Rp<std::optional<T>> { static void put(std::string& o, std::optional<T> const& v) { if (v) { o += "o("; pbt::put(o, *v); o += ')'; } else o += "o-"; } };
template <typename T> struct Ft<std::optional<T>> { static size_t foot(std::optional<T> const& v) { return sizeof v + (v ? sizeof(T) : 0); } };

template <typename... Ts> struct Gn<std::variant<Ts...>> {
  using V = std::variant<Ts...>;
  template <size_t I> static V mk(Src& s, size_t k) {
    if constexpr (I + 1 == sizeof...(Ts)) { (void)k; return V(std::in_place_index<I>, Gn<std::variant_alternative_t<I, V>>::gen(s)); }
    else { if (k == I) return V(std::in_place_index<I>, Gn<std::variant_alternative_t<I, V>>::gen(s)); return mk<I + 1>(s, k); }
  }
  static V gen(Src& s) { return mk<0>(s, s.draw(sizeof...(Ts))); }
};
template <typename... Ts> struct Rp<std::variant<Ts...>> {
  static void put(std::string& o, std::variant<Ts...> const& v) { o += 'V'; o += std::to_string(v.index()); o += '('; std::visit([&](auto const& e) { pbt::put(o, e); }, v); o += ')'; }
};

// declared (or built in) byte-copyable types; further ones are specialised next to their declaration
template <typename T, typename = void> struct IsBytes : std::bool_constant<std::is_arithmetic<T>::value> {};
template <typename T> struct IsBytes<T, std::void_t<typename T::isByteCopyable>> : T::isByteCopyable {};
template <typename... Ts> struct IsBytes<std::variant<Ts...>> : std::bool_constant<(IsBytes<Ts>::value && ...)> {};
template <typename... Ts> struct Ft<std::variant<Ts...>> {     // the index and what the alternative holds
  static size_t foot(std::variant<Ts...> const& v) {
    if constexpr ((IsBytes<Ts>::value && ...)) return sizeof v;
    else return sizeof(size_t) + std::visit([](auto const& e) { return pbt::foot(e); }, v);
  }
};

template <typename T> struct IsPoly : std::false_type {};   // specialised for registered hierarchies
template <typename T, typename D> struct Gn<std::unique_ptr<T, D>, std::enable_if_t<!IsPoly<T>::value>> {
  static std::unique_ptr<T, D> gen(Src& s) {
    if (s.budget == 0 || s.draw(4) == 0) return std::unique_ptr<T, D>();
    uint64_t b = s.budget; s.budget = b > 1 ? b - 1 : 0;
    auto r = std::unique_ptr<T, D>(new T(Gn<T>::gen(s)));
    s.budget = b;
    return r;
  }
};
template <typename T, typename D> struct Rp<std::unique_ptr<T, D>> {
  static void put(std::string& o, std::unique_ptr<T, D> const& p) { if (p) { o += "p("; pbt::put(o, *p); o += ')'; } else o += "p-"; }
};
template <typename T, typename D> struct Ft<std::unique_ptr<T, D>> { static size_t foot(std::unique_ptr<T, D> const& p) { return sizeof p + (p ? pbt::foot(*p) : 0); } };

template <typename T> struct Gn<std::shared_ptr<T>> {
  static std::shared_ptr<T> gen(Src& s) { if (s.draw(4) == 0) return nullptr; return std::make_shared<T>(Gn<T>::gen(s)); }
};
template <typename T> struct Rp<std::shared_ptr<T>> { static void put(std::string& o, std::shared_ptr<T> const& p) { if (p) { o += "h("; pbt::put(o, *p); o += ')'; } else o += "h-"; } };
template <typename T> struct Ft<std::shared_ptr<T>> { static size_t foot(std::shared_ptr<T> const& p) { return sizeof p + (p ? pbt::foot(*p) : 0); } };

// capacity promise: every vector in the restored value has at least the capacity of the original's
template <typename T, typename = void> struct Cap { static bool ok(T const&, T const&) { return true; } };
template <typename C> bool capElems(C const& a, C const& b) {
  auto i = a.begin(); auto j = b.begin();
  for (; i != a.end() && j != b.end(); ++i, ++j) if (!Cap<typename C::value_type>::ok(*i, *j)) return false;
  return true;
}
template <typename T, typename A> struct Cap<std::vector<T, A>> {
  static bool ok(std::vector<T, A> const& a, std::vector<T, A> const& b) {
    if (b.capacity() < a.capacity() || b.capacity() < b.size()) return false;
    if constexpr (std::is_same<T, bool>::value) return true; else return capElems(a, b);
  }
};
template <typename T> struct Cap<std::list<T>> { static bool ok(std::list<T> const& a, std::list<T> const& b) { return capElems(a, b); } };
template <typename T> struct Cap<std::deque<T>> { static bool ok(std::deque<T> const& a, std::deque<T> const& b) { return capElems(a, b); } };
template <typename T, size_t N> struct Cap<std::array<T, N>> { static bool ok(std::array<T, N> const& a, std::array<T, N> const& b) { return capElems(a, b); } };
template <typename T, typename D> struct Cap<std::unique_ptr<T, D>> { static bool ok(std::unique_ptr<T, D> const& a, std::unique_ptr<T, D> const& b) { return !a || !b || Cap<T>::ok(*a, *b); } };

}  // namespace pbt
