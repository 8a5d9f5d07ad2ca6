// Type-erased access to the library for every type of the list: the properties are written once over this interface.
#pragma once
#include "polybase.h"
#include <checkpoint/checkpoint.h>
#include <fstream>
#include <sstream>
#include <typeinfo>
#include <typeindex>
#ifdef OPS_TRAV
#include "trav.h"
#endif

namespace pbt {

enum StreamKind { kBase, kStringStream, kSplitString, kFile, kStreamKinds };

struct TypeOps {
  char const* name;
  std::type_info const* ti;
  size_t size, align;
  bool allStreams;              // instantiated for every standard stream class
  bool padded;                  // bytes may contain padding (long double, byte-copied classes with holes)
  // object handling (T* erased)
  void* (*gen)(Src&);
  void* (*prior)(Src&, void const* like);   // a value another object may hold before being restored in place from `like`
  void (*remake)(void*, Src&);              // the object gets another value, at the same address
  void (*del)(void*);
  void (*destroy)(void*);                   // destructor only
  void (*put)(std::string&, void const*);
  bool (*capOK)(void const* original, void const* restored);
  // library
  size_t (*getSize)(void*);
  checkpoint::SerializedReturnType (*ser)(void*, checkpoint::BufferCallbackType);
  void* (*des)(char*);
  void* (*desRet)(checkpoint::SerializedReturnType&&);
  void* (*desObj)(char*, char*);
  void (*desIn)(char*, void*);
  size_t (*footprint)(void*, size_t);
  size_t (*footModel)(void const*);         // documented footprint (sum over members, before the lower bound of the top level)
  void (*toFile)(void*, std::string const&);
  void* (*fromFile)(std::string const&);
  void (*fromFileIn)(std::string const&, void*);
  void (*toStream)(void*, int kind, std::ios&);
  void* (*fromStream)(int kind, std::ios&);
  void (*fromStreamIn)(int kind, std::ios&, void*);
  // user-defined traversers (trav.h)
  void (*travModel)(void*, struct TravLog&, std::set<std::type_index> const* cut);
  void (*travTyped)(void*, struct TravLog&, std::set<std::type_index> const* cut);
  void (*travTypedRef)(void*, struct TravLog&, std::set<std::type_index> const* cut);
  void (*travPlain)(void*, int mode, struct TravLog*, std::string* bytes, size_t* sum);
};

std::vector<TypeOps>& ops();

template <typename T> struct Padded : std::false_type {};

template <typename T> void putT(std::string& o, void const* p) { Rp<T>::put(o, *static_cast<T const*>(p)); }

template <typename T, bool AllStreams> TypeOps makeOps(char const* name) {
  TypeOps o{};
  o.name = name; o.size = sizeof(T); o.align = alignof(T); o.ti = &typeid(T);
  o.allStreams = AllStreams; o.padded = Padded<T>::value;
  o.gen = [](Src& s) -> void* { return new T(Gn<T>::gen(s)); };
  o.remake = [](void* p, Src& s) { static_cast<T*>(p)->~T(); new (p) T(Gn<T>::gen(s)); };
  o.del = [](void* p) { delete static_cast<T*>(p); };
  o.destroy = [](void* p) { static_cast<T*>(p)->~T(); };
  o.put = putT<T>;
  o.capOK = [](void const* a, void const* b) { return Cap<T>::ok(*static_cast<T const*>(a), *static_cast<T const*>(b)); };
  o.getSize = [](void* p) { return checkpoint::getSize<T>(*static_cast<T*>(p)); };
  o.ser = [](void* p, checkpoint::BufferCallbackType fn) { return checkpoint::serialize<T>(*static_cast<T*>(p), fn); };
  o.des = [](char* b) -> void* { return checkpoint::deserialize<T>(b).release(); };
#ifdef OPS_IN
  o.prior = [](Src& s, void const* like) -> void* { return new T(Prior<T>::make(s, *static_cast<T const*>(like))); };
  o.desIn = [](char* b, void* t) { checkpoint::deserializeInPlace<T>(b, static_cast<T*>(t)); };
#endif
#ifdef OPS_OBJ
  o.desRet = [](checkpoint::SerializedReturnType&& r) -> void* { return checkpoint::deserialize<T>(std::move(r)).release(); };
  o.desObj = [](char* b, char* mem) -> void* { return checkpoint::deserialize<T>(b, mem); };
#endif
#ifdef OPS_FOOT
  o.footprint = [](void* p, size_t off) { return checkpoint::getMemoryFootprint<T>(*static_cast<T*>(p), off); };
#endif
#ifdef OPS_MODEL
  o.footModel = [](void const* p) { return Ft<T>::foot(*static_cast<T const*>(p)); };
#endif
#ifdef OPS_TRAV
  o.travModel = TravOps<T>::model; o.travTyped = TravOps<T>::typed; o.travTypedRef = TravOps<T>::typedRef; o.travPlain = TravOps<T>::plain;
#endif
#ifdef OPS_FILE
  o.toFile = [](void* p, std::string const& f) { checkpoint::serializeToFile<T>(*static_cast<T*>(p), f); };
  o.fromFile = [](std::string const& f) -> void* { return checkpoint::deserializeFromFile<T>(f).release(); };
#ifdef OPS_IN
  o.fromFileIn = [](std::string const& f, void* t) { checkpoint::deserializeInPlaceFromFile<T>(f, static_cast<T*>(t)); };
#endif
#endif
#ifdef OPS_STREAM
  if constexpr (AllStreams) {
    o.toStream = [](void* p, int kind, std::ios& st) {
      T& t = *static_cast<T*>(p);
      switch (kind) {
      case kBase: checkpoint::serializeToStream<T>(t, dynamic_cast<std::ostream&>(st)); break;
      case kStringStream: checkpoint::serializeToStream<T>(t, dynamic_cast<std::stringstream&>(st)); break;
      case kSplitString: checkpoint::serializeToStream<T>(t, dynamic_cast<std::ostringstream&>(st)); break;
      default: checkpoint::serializeToStream<T>(t, dynamic_cast<std::ofstream&>(st)); break;
      }
    };
    o.fromStream = [](int kind, std::ios& st) -> void* {
      switch (kind) {
      case kBase: return checkpoint::deserializeFromStream<T>(dynamic_cast<std::istream&>(st)).release();
      case kStringStream: return checkpoint::deserializeFromStream<T>(dynamic_cast<std::stringstream&>(st)).release();
      case kSplitString: return checkpoint::deserializeFromStream<T>(dynamic_cast<std::istringstream&>(st)).release();
      default: return checkpoint::deserializeFromStream<T>(dynamic_cast<std::ifstream&>(st)).release();
      }
    };
    o.fromStreamIn = [](int kind, std::ios& st, void* p) {
      T* t = static_cast<T*>(p);
      switch (kind) {
      case kBase: checkpoint::deserializeInPlaceFromStream<T>(dynamic_cast<std::istream&>(st), t); break;
      case kStringStream: checkpoint::deserializeInPlaceFromStream<T>(dynamic_cast<std::stringstream&>(st), t); break;
      case kSplitString: checkpoint::deserializeInPlaceFromStream<T>(dynamic_cast<std::istringstream&>(st), t); break;
      default: checkpoint::deserializeInPlaceFromStream<T>(dynamic_cast<std::ifstream&>(st), t); break;
      }
    };
  } else {
    o.toStream = [](void* p, int, std::ios& st) { checkpoint::serializeToStream<T>(*static_cast<T*>(p), dynamic_cast<std::ostream&>(st)); };
    o.fromStream = [](int, std::ios& st) -> void* { return checkpoint::deserializeFromStream<T>(dynamic_cast<std::istream&>(st)).release(); };
#ifdef OPS_IN
    o.fromStreamIn = [](int, std::ios& st, void* p) { checkpoint::deserializeInPlaceFromStream<T>(dynamic_cast<std::istream&>(st), static_cast<T*>(p)); };
#endif
  }
#endif
  return o;
}

// An object of one of the types, owned by the harness.
struct Obj {
  TypeOps const* o = nullptr; void* p = nullptr;
  Obj() = default;
  Obj(TypeOps const& t, void* q) : o(&t), p(q) {}
  Obj(Obj const&) = delete;
  Obj(Obj&& r) noexcept : o(r.o), p(r.p) { r.p = nullptr; }
  Obj& operator=(Obj&& r) noexcept { std::swap(o, r.o); std::swap(p, r.p); return *this; }
  ~Obj() { if (p) o->del(p); }
  std::string rep() const { std::string r; o->put(r, p); return r; }
};
inline Obj genObj(TypeOps const& t, Src& s) { return Obj(t, t.gen(s)); }

// The rule by which a value counts as a non-trivial case for the round-trip style properties: some dynamic state was exercised.
inline bool nontrivialValue(std::string const& rep) { return rep.size() >= 6; }

// Serialized bytes copied into an exactly sized heap block (so that any read outside it is caught by the sanitizer).
struct Bytes {
  char* p; size_t n;
  Bytes(char const* q, size_t k) : p(static_cast<char*>(malloc(k ? k : 1))), n(k) { memcpy(p, q, k); }
  explicit Bytes(std::string const& s) : Bytes(s.data(), s.size()) {}
  Bytes(Bytes const&) = delete;
  ~Bytes() { free(p); }
  std::string str() const { return std::string(p, n); }
};
inline std::string serBytes(TypeOps const& t, void* p) { auto r = t.ser(p, nullptr); return std::string(r->getBuffer(), r->getSize()); }

#define PBT_EQ(o, got, want, what)                                                                  \
  do { std::string g_ = (got); std::string const& w_ = (want); PBT_CHECK(g_ == w_, "%s of %s: %s", what, (o).name, ::pbt::firstDiff(w_, g_).c_str()); } while (0)

inline std::string slurp(std::string const& f) { std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
inline void spit(std::string const& f, std::string const& d) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(d.data(), (std::streamsize)d.size()); }
// Types that are byte-copied with padding inside: the padding bytes are whatever memory held.
inline bool paddedName(std::string n) {
  if (n.find("long double") != std::string::npos || n.find("variant<") != std::string::npos) return true;
  for (size_t i = n.find("By"); i != std::string::npos; i = n.find("By", i + 1)) if (n.compare(i, 7, "ByFalse") && n.compare(i, 5, "ByLen")) return true;
  return false;
}
std::string tmpFile(char const* tag);    // a fresh path inside the scratch directory
struct TmpFile { std::string path; explicit TmpFile(char const* tag) : path(tmpFile(tag)) {} ~TmpFile() { remove(path.c_str()); } };

}  // namespace pbt
