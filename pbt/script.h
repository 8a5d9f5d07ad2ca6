// A class whose serialize function is driven by a program: used to state what happens when the writing, sizing and
// reading sides disagree about the fields.
#pragma once
#include "values.h"
#include <checkpoint/checkpoint.h>

namespace script {
using pbt::Src;

enum Kind { kU8, kI32, kU32, kF32, kI64, kF64, kBool, kStr, kVecI, kVecF, kVecS, kMap, kSet, kOpt, kPtr, kPair, kEnumA, kEnumB, kList, kArrI, kArrF, kNode, kVecNode, kPtrNode, kOptNode, kMapNode, kKinds };
enum class EA : int { a = 5 }; enum class EB : int { b = 6 };

struct Prog;
struct Op { int kind; unsigned n; std::shared_ptr<Prog> sub; };
struct Prog { std::vector<Op> ops; };
using ProgP = std::shared_ptr<Prog>;

// the program to follow in each mode
struct Plan { Prog const* sizing = nullptr; Prog const* packing = nullptr; Prog const* unpacking = nullptr; Prog const* footprint = nullptr; };
inline thread_local Plan g_plan;
inline thread_local bool g_mismatch = false;     // a value read differs from what the program says was written

struct Node {
  template <typename S> void serialize(S& s);
};

template <typename S, typename T> void fld(S& s, T const& v) {
  T t = s.isUnpacking() ? T() : v;
  s | t;
  if (s.isUnpacking() && pbt::repr(t) != pbt::repr(v)) g_mismatch = true;
}
template <typename S> Prog const*& slot(S& s) {
  return s.isSizing() ? g_plan.sizing : s.isPacking() ? g_plan.packing : s.isUnpacking() ? g_plan.unpacking : g_plan.footprint;
}
template <typename S> void Node::serialize(S& s) {
  Prog const*& cur = slot(s);
  Prog const* p = cur;
  struct Back { Prog const*& c; Prog const* p; ~Back() { c = p; } } back{cur, p};
  for (auto const& o : p->ops) {
    unsigned n = o.n;
    switch (o.kind) {
    case kU8: fld(s, uint8_t(n)); break;
    case kI32: fld(s, int(n * 3)); break;
    case kU32: fld(s, unsigned(n * 3)); break;
    case kF32: fld(s, float(n)); break;
    case kI64: fld(s, int64_t(n) << 33); break;
    case kF64: fld(s, double(n) / 3); break;
    case kBool: fld(s, bool(n & 1)); break;
    case kStr: fld(s, std::string(n, 's')); break;
    case kVecI: fld(s, std::vector<int>(n, 7)); break;
    case kVecF: fld(s, std::vector<float>(n, 7)); break;
    case kVecS: fld(s, std::vector<std::string>(n, "x")); break;
    case kMap: { std::map<int, std::string> m; for (unsigned i = 0; i < n; i++) m[i] = "v"; fld(s, m); break; }
    case kSet: { std::set<int> m; for (unsigned i = 0; i < n; i++) m.insert(i); fld(s, m); break; }
    case kOpt: fld(s, n & 1 ? std::optional<int>(n) : std::nullopt); break;
    case kPtr: { std::unique_ptr<int> t; if (!s.isUnpacking() && (n & 1)) t = std::make_unique<int>(n); s | t; if (s.isUnpacking() && (t ? !(n & 1) || *t != int(n) : (n & 1))) g_mismatch = true; break; }
    case kPair: fld(s, std::make_pair(int(n), std::string("p"))); break;
    case kEnumA: fld(s, EA(n)); break;
    case kEnumB: fld(s, EB(n)); break;
    case kList: fld(s, std::list<int>(n, 4)); break;
    case kArrI: { std::vector<int> a(n + 1, s.isUnpacking() ? 0 : 9); checkpoint::dispatch::serializeArray(s, a.data(), a.size()); if (s.isUnpacking()) for (int x : a) if (x != 9) g_mismatch = true; break; }
    case kArrF: { std::vector<float> a(n + 1, s.isUnpacking() ? 0.f : 9.f); checkpoint::dispatch::serializeArray(s, a.data(), a.size()); if (s.isUnpacking()) for (float x : a) if (x != 9.f) g_mismatch = true; break; }
    case kNode: { Node c; cur = o.sub.get(); s | c; cur = p; break; }
    case kVecNode: { std::vector<Node> c(s.isUnpacking() ? 0 : n); cur = o.sub.get(); s | c; cur = p; if (c.size() != n) g_mismatch = true; break; }
    case kPtrNode: { std::unique_ptr<Node> c; if (!s.isUnpacking()) c = std::make_unique<Node>(); cur = o.sub.get(); s | c; cur = p; break; }
    case kOptNode: { std::optional<Node> c; if (!s.isUnpacking()) c.emplace(); cur = o.sub.get(); s | c; cur = p; break; }
    default: { std::map<int, Node> c; if (!s.isUnpacking()) for (unsigned i = 0; i < n; i++) c[i]; cur = o.sub.get(); s | c; cur = p; break; }
    }
  }
}

inline Op genOp(Src& s, int depth);
inline ProgP genProg(Src& s, int depth) {
  auto p = std::make_shared<Prog>();
  size_t n = s.draw(5);
  for (size_t i = 0; i < n; i++) p->ops.push_back(genOp(s, depth));
  return p;
}
inline Op genOp(Src& s, int depth) {
  Op o{int(s.draw(depth > 0 ? kKinds : kNode)), unsigned(s.draw(4)), nullptr};
  if (s.draw(12) == 11) o.n = unsigned(s.draw(300));
  if (o.kind == kVecNode || o.kind == kMapNode) o.n = 1 + o.n % 4;       // so that the sub-program is really followed
  if (o.kind >= kNode) o.sub = genProg(s, depth - 1);
  return o;
}
inline ProgP clone(Prog const& p) {
  auto q = std::make_shared<Prog>();
  for (auto& o : p.ops) q->ops.push_back({o.kind, o.n, o.sub ? clone(*o.sub) : nullptr});
  return q;
}
inline void show(std::string& o, Prog const& p) {
  static char const* nm[] = {"u8", "i32", "u32", "f32", "i64", "f64", "bool", "str", "vi", "vf", "vs", "map", "set", "opt", "ptr", "pair", "ea", "eb", "list", "arr", "arrf", "node", "vnode", "pnode", "onode", "mnode"};
  o += '{';
  for (auto& x : p.ops) { o += nm[x.kind]; o += std::to_string(x.n); if (x.sub) show(o, *x.sub); o += ' '; }
  o += '}';
}
inline std::string show(Prog const& p) { std::string o; show(o, p); return o; }

// All programs of the tree, with their depth.
inline void collect(ProgP const& p, int d, std::vector<std::pair<ProgP, int>>& out) { out.push_back({p, d}); for (auto& o : p->ops) if (o.sub) collect(o.sub, d + 1, out); }

// Changes the sequence of fields somewhere in the tree; what: 0 other type, 1 one more, 2 one less, 3 order of two.
// Returns the depth changed, or -1 when nothing could be changed.
inline int mutate(Src& s, ProgP const& root, std::string& what) {
  std::vector<std::pair<ProgP, int>> all;
  collect(root, 0, all);
  auto [p, d] = all[s.draw(all.size())];
  size_t n = p->ops.size();
  uint64_t k = n == 0 ? 1 : s.draw(n >= 2 ? 4 : 3);
  std::vector<size_t> arrays;
  for (size_t i = 0; i < n; i++) if (p->ops[i].kind == kArrI || p->ops[i].kind == kArrF) arrays.push_back(i);
  if (!arrays.empty() && s.draw(3) == 2) {
    auto& o = p->ops[arrays[s.draw(arrays.size())]];
    if (s.draw(2)) { o.kind = o.kind == kArrI ? kArrF : kArrI; what = "a field of another type"; }   // same length and size
    else { o.n = (o.n + 1 + unsigned(s.draw(3))) % 6; what = "an array of another length"; }
  } else if (k == 0) {
    auto& o = p->ops[s.draw(n)];
    int old = o.kind;
    Op q = genOp(s, 0);
    if (q.kind == old) q.kind = (old + 1) % kNode;
    what = "a field of another type";
    o = q;
  } else if (k == 1) { p->ops.insert(p->ops.begin() + s.draw(n + 1), genOp(s, 0)); what = "one more field"; }
  else if (k == 2) { p->ops.erase(p->ops.begin() + s.draw(n)); what = "one field less"; }
  else {
    size_t i = s.draw(n - 1);
    if (p->ops[i].kind == p->ops[i + 1].kind) return -1;
    std::swap(p->ops[i], p->ops[i + 1]); what = "two fields swapped";
  }
  return d;
}
// The sequence of field types as the library distinguishes them.
inline std::string types(Prog const& p) {
  std::string o = "{";
  for (auto& x : p.ops) {
    if (x.kind == kI32 || x.kind == kArrI) o += "int:" + std::to_string(x.kind == kArrI ? x.n : 0);
    else if (x.kind == kF32 || x.kind == kArrF) o += "float:" + std::to_string(x.kind == kArrF ? x.n : 0);
    else o += std::to_string(x.kind);
    if (x.kind == kVecNode || x.kind == kMapNode) o += "*" + std::to_string(x.n);
    if (x.sub) o += types(*x.sub);
    o += ' ';
  }
  return o + "}";
}
inline bool hasArr(Prog const& p) { for (auto& x : p.ops) if (x.kind == kArrI || (x.sub && hasArr(*x.sub))) return true; return false; }
}  // namespace script
