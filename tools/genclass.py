#!/usr/bin/env python3
"""Random user classes for C08 and C22 (a function of the seed): every combination of construction facilities, serialization
facility and copyability, each class in a drawn set of positions. Each generated unit tests one (class, position)."""
import argparse, os, random

CONS = ["default", "tag", "recon", "reconfree", "reconspec"]
SER = ["member", "free", "split", "using", "trait", "nonint", "basemark", "macro", "inherited", "hides", "falsemark", "both"]
BYTES = {"using", "trait", "nonint", "basemark", "macro", "both"}
ORD = "bool operator<(%s const& r) const { return key() < r.key(); } bool operator==(%s const& r) const { return key() == r.key(); }"

# position -> (holder type, how to add one element made from value v, statement visiting each element as X(e), requirements, footprint descends)
POS = {
    "top": None,
    "unique_ptr": ("std::unique_ptr<T>", "h.reset(new T(I, v))", "if (h) X(*h)", "1", ""),
    "tuple": ("std::tuple<int, T>", None, "X(std::get<1>(h))", "t", "m"),
    "tuple2": ("std::tuple<T, std::string, T>", None, "X(std::get<0>(h)); X(std::get<2>(h))", "t2", "m"),
    "optional": ("std::optional<T>", "h.emplace(I, v)", "if (h) X(*h)", "1", "mo"),
    "variant": ("std::variant<int, T>", "h.template emplace<1>(I, v)", "if (h.index()) X(std::get<1>(h))", "1", "mo"),
    "vector": ("std::vector<T>", "h.emplace_back(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "list": ("std::list<T>", "h.emplace_back(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "deque": ("std::deque<T>", "h.emplace_back(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "queue": ("std::queue<T>", "h.emplace(I, v)", "for (auto& e : pbt::QPeek<std::queue<T>>::get(h)) X(e)", "n", "mco"),
    "set": ("std::set<T>", "h.emplace(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "multiset": ("std::multiset<T>", "h.emplace(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "unordered_set": ("std::unordered_set<T, c08::Hash>", "h.emplace(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "unordered_multiset": ("std::unordered_multiset<T, c08::Hash>", "h.emplace(I, v)", "for (auto& e : h) X(e)", "n", "m"),
    "vector of optional": ("std::vector<std::optional<T>>", "h.emplace_back(std::in_place, I, v)", "for (auto& e : h) if (e) X(*e)", "n", "mo"),
    "vector of unique_ptr": ("std::vector<std::unique_ptr<T>>", "h.emplace_back(new T(I, v))", "for (auto& e : h) if (e) X(*e)", "n", ""),
    "unique_ptr of vector": ("std::unique_ptr<std::vector<T>>", "if (!h) h.reset(new std::vector<T>); h->emplace_back(I, v)", "if (h) for (auto& e : *h) X(e)", "n", "m"),
    "list of tuple": ("std::list<std::tuple<T, int>>", "h.emplace_back(T(I, v), 3)", "for (auto& e : h) X(std::get<0>(e))", "n", "m"),
    "vector of vector": ("std::vector<std::vector<T>>", "if (h.empty() || v % 3 == 0) h.emplace_back(); h.back().emplace_back(I, v)", "for (auto& q : h) for (auto& e : q) X(e)", "n", "m"),
    "map of vector": ("std::map<int, std::vector<T>>", "h[v % 4].emplace_back(I, v)", "for (auto& q : h) for (auto& e : q.second) X(e)", "n", "m"),
    "map of unique_ptr": ("std::map<int, std::unique_ptr<T>>", "h[v].reset(new T(I, v))", "for (auto& q : h) if (q.second) X(*q.second)", "n", ""),
    "pair with list": ("std::pair<std::list<T>, int>", "h.first.emplace_back(I, v)", "for (auto& e : h.first) X(e)", "n", "m"),
    "array of optional": ("std::array<std::optional<T>, 3>", "h[c08::uv(v) % 3].emplace(I, v)", "for (auto& e : h) if (e) X(*e)", "n", "mo"),
    "raw pointer": ("c08::RawHolder<T>", "h.add(new T(I, v))", "for (auto* e : h.p) if (e) X(*e)", "n", ""),
    "shared pointer": ("c08::SharedHolder<T>", "h.add(new T(I, v))", "for (auto& e : h.p) if (e) X(*e)", "n", ""),
    "array helper": ("c08::ArrHolder<T>", "h.add(new T(I, v))", "for (int i = 0; i < h.n; i++) X(h.a[i])", "n", "dm"),
    "base pointers": ("std::vector<std::unique_ptr<c08::PolyRoot>>", "h.emplace_back(new T(I, v))", "for (auto& e : h) X(static_cast<T&>(*e))", "n", "p"),
    "base pointer": ("std::unique_ptr<c08::PolyRoot>", "h.reset(new T(I, v))", "if (h) X(static_cast<T&>(*h))", "1", "p"),
    "raw base pointer": ("c08::RawHolder<c08::PolyRoot>", "h.add(new T(I, v))", "for (auto* e : h.p) if (e) X(static_cast<T&>(*e))", "n", "p"),
}


def klass(r, n, tpl, ser):
    ns, T = "k%d" % n, "K"
    cons = set()
    while not cons:
        cons = {c for c in ("default", "tag") if r.random() < 0.5}
        if r.random() < 0.6:
            cons.add(r.choice(CONS[2:]))
    copy = r.choice(["copy", "copy", "move", "pin"])
    poly = ser in ("member", "free") and r.random() < 0.3
    if tpl and ("reconfree" in cons or "reconspec" in cons or ser in ("trait", "nonint", "macro")):
        tpl = False
    if ser == "inherited" and poly:
        poly = False
    byt = ser in BYTES
    root = "c08::PolyRootF" if ser == "free" else "c08::PolyRoot"
    if ser == "macro" and copy == "pin":
        copy = "move"
    exp = "T" if "tag" in cons else "R" if cons & {"recon", "reconfree", "reconspec"} else "D"
    w = []
    a = w.append
    a("namespace %s {" % ns)
    nm = "KT" if tpl else "K"
    base = []
    if ser == "inherited":
        a("struct Base { int val = 0; template <typename S> void serialize(S& s) { c08::call(s, %d, 'S'); s | val; } };" % n)
        base.append("Base")
    if ser == "hides":
        a("struct Base { int other = 0; template <typename S> void serialize(S& s) { c08::call(s, %d, 'X'); s | other; } };" % n)
        base.append("Base")
    if ser == "basemark":
        base.append("checkpoint::SerdesByteCopy")
    if poly:
        base.append(root)
    if tpl:
        a("template <typename P>")
    a("struct %s%s {" % (nm, " : " + ", ".join(base) if base else ""))
    if poly:
        a("  checkpoint_virtual_serialize_derived_from(%s)" % root)
    if ser in ("using", "both"):
        a("  using isByteCopyable = std::true_type;")
    if ser == "falsemark":
        a("  using isByteCopyable = std::false_type;")
    if byt:
        a("  unsigned char raw[12];")
        a("  int key() const { int k; memcpy(&k, raw, 4); return k; }")
        ini = ""
        a("  void set(int v) { c08::pattern(raw, v); }")
        clr = "memset(raw, 0, sizeof raw); "
        own = ""
    else:
        if ser != "inherited":
            a("  int val = 0;")
        a("  char how = '?'; std::shared_ptr<int> own = std::make_shared<int>(0);")
        a("  int key() const { return this->val; }\n  void set(int v) { this->val = v; }")
        clr = ""
    how = (lambda c: "") if byt else (lambda c: " how = '%s';" % c)
    a("  %s(c08::Init, int v) {%s set(v); }" % (nm, how("I")))
    if "default" in cons:
        a("  %s() { %sc08::made(%d, 'D');%s }" % (nm, clr, n, how("D")))
    if "tag" in cons:
        a("  explicit %s(checkpoint::SERIALIZE_CONSTRUCT_TAG) { %sc08::made(%d, 'T');%s }" % (nm, clr, n, how("T")))
    if cons & {"recon", "reconfree", "reconspec"}:
        a("  explicit %s(c08::Rec) { %sc08::made(%d, 'R');%s }" % (nm, clr, n, how("R")))
    if "recon" in cons:
        a("  static %s& reconstruct(void* b) { return *new (b) %s(c08::Rec{}); }" % (nm, nm))
    if copy == "copy":
        a("  %s(%s const&) = default; %s& operator=(%s const&) = default;" % (nm, nm, nm, nm))
        a("  %s(%s&&) = default; %s& operator=(%s&&) = default;" % (nm, nm, nm, nm))
    elif copy == "move":
        a("  %s(%s const&) = delete; %s& operator=(%s const&) = delete;" % (nm, nm, nm, nm))
        a("  %s(%s&&) = default; %s& operator=(%s&&) = default;" % (nm, nm, nm, nm))
    else:
        a("  %s(%s const&) = delete; %s(%s&&) = delete; %s& operator=(%s const&) = delete;" % (nm, nm, nm, nm, nm, nm))
    if ser in ("member", "hides", "falsemark", "split"):
        a("  template <typename S> void serialize(S& s) { c08::call(s, %d, 'S'); s | this->val; }" % n)
    if ser == "both":
        a("  template <typename S> void serialize(S& s) { c08::call(s, %d, 'X'); s | this->raw[0]; }" % n)
    if ser == "split":
        a("  template <typename S> void serializeParent(S& s) { c08::call(s, %d, 'P'); }" % n)
        a("  template <typename S> void serializeThis(S& s) { c08::call(s, %d, 'H'); }" % n)
    a("  " + ORD % (nm, nm))
    a("};")
    if ser == "free":
        if tpl:
            a("template <typename S, typename P> void serialize(S& s, KT<P>& k) { c08::call(s, %d, 'N'); s | k.val; }" % n)
        else:
            a("template <typename S> void serialize(S& s, K& k) { c08::call(s, %d, 'N'); s | k.val; }" % n)
    if "reconfree" in cons:
        a("inline void reconstruct(K*& k, void* b) { k = new (b) K(c08::Rec{}); }")
    if tpl:
        a("using K = KT<%s>;" % r.choice(["int", "std::string", "std::vector<int>"]))
    a("}  // namespace")
    if ser == "macro":
        a("CHECKPOINT_BYTES(%s::K)" % ns)
    ck = []
    if ser == "trait":
        ck.append("template <> struct isByteCopyable<%s::K> : std::true_type {};" % ns)
    if ser == "nonint":
        ck.append("template <> struct ByteCopyNonIntrusive<%s::K> { using isByteCopyable = std::true_type; };" % ns)
    if "reconspec" in cons:
        ck.append("template <> struct CheckpointReconstructor<%s::K> { static void reconstruct(%s::K*& k, void* b) { k = new (b) %s::K(c08::Rec{}); } };" % (ns, ns, ns))
    if ck:
        a("namespace checkpoint { " + " ".join(ck) + " }")
    seq = {"member": "S", "free": "N", "split": "SPH", "inherited": "S", "hides": "S", "falsemark": "S"}.get(ser, "")
    desc = "%s, %s%s%s%s" % ("+".join(sorted(cons)), ser, ", " + copy, ", template" if tpl else "", ", polymorphic" if poly else "")
    traits = dict(serialize_function=ser not in ("using", "trait", "nonint", "basemark"), bytecopyable=byt and ser != "macro", default=("default" in cons), tagged="tag" in cons,
                  recon=bool(cons & {"recon", "reconfree", "reconspec"}))
    a("template <typename... S> static c08::Traits traits%d() { using Q = checkpoint::SerializableTraits<%s::K, S...>; return {Q::has_serialize_function, Q::is_bytecopyable, Q::is_default_constructible, Q::is_tagged_constructible, Q::is_reconstructible, Q::is_constructible, Q::is_serializable, Q::is_traversable}; }" % (n, ns))
    b = lambda x: "true" if x else "false"
    sf = traits["serialize_function"]
    a("static c08::Traits want%d() { return {%s, %s, %s, %s, %s, true, %s, true}; }" % (n, b(sf), b(traits["bytecopyable"]), b(traits["default"]), b(traits["tagged"]), b(traits["recon"]), b(sf)))
    ok = []
    for p, d in POS.items():
        f = d[4] if d else ""
        if "p" in f and not poly:
            continue
        if "m" in f and copy == "pin":
            continue
        if "c" in f and copy != "copy":
            continue
        if "d" in f and "default" not in cons:
            continue
        ok.append(p)
    pick = r.sample(ok, min(len(ok), 5))
    if poly and "base pointers" not in pick:
        pick[0] = "base pointers"
    units = []
    for p in pick:
        if p == "top":
            H, add, vis, card, f = "%s::K" % ns, None, "X(h)", "0", ""
        else:
            H, add, vis, card, f = POS[p]
            H = H.replace("c08::PolyRoot", root)
        tag = "%s_%s" % (ns, "".join(ch if ch.isalnum() else "_" for ch in p))
        a("namespace %s { struct P_%s {" % (ns, tag))
        a("  using T = K; using H = %s; static constexpr c08::Init I{};" % H)
        a("  static constexpr char expected = '%s'; static constexpr char const* seq = \"%s\"; static constexpr int cls = %d;" % (exp, seq, n))
        a("  static constexpr bool bytes = %s, footAll = %s, virt = %s, inPlace = %s;" % (b(byt), b("o" not in f), b(poly), b(p in ("vector", "list", "deque", "set", "unique_ptr", "optional", "vector of vector", "map of vector", "unordered_set", "queue", "variant"))))
        if card == "0":
            a("  static std::unique_ptr<H> make(std::vector<int> const& vs) { return std::make_unique<T>(I, vs.empty() ? 5 : vs[0]); }")
        elif card in ("t", "t2"):
            a("  static std::unique_ptr<H> make(std::vector<int> const& vs) { int v = vs.empty() ? 5 : vs[0]; return std::make_unique<H>(%s); }" % ("3, T(I, v)" if card == "t" else 'T(I, v), "mid", T(I, v + 1)'))
        else:
            a("  static std::unique_ptr<H> make(std::vector<int> const& vs) { auto u = std::make_unique<H>(); H& h = *u; for (int v : vs) { %s;%s } return u; }" % (add, " break;" if card == "1" else ""))
        a("  template <typename F> static void each(H& h, F&& X) { %s; }" % vis)
        a("}; }")
        units.append('c08::unit<%s::P_%s>("class %d (%s) in position: %s");' % (ns, tag, n, desc, p))
    for q in ("", "checkpoint::Sizer", "checkpoint::Packer", "checkpoint::Unpacker", "checkpoint::Footprinter", "checkpoint::StreamPacker<std::ostream>", "checkpoint::StreamUnpacker<std::istream>"):
        units.append('c08::traits("traits of class %d (%s)%s", traits%d<%s>(), want%d());' % (n, desc, " for " + q if q else "", n, q, n))
    return "\n".join(w), units


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--seed")
    a.add_argument("--tier")
    a.add_argument("--out")
    a = a.parse_args()
    per = 5 if a.tier == "quick" else 9
    plan = random.Random("%s/%s/plan" % (a.seed, a.tier))
    sers = []                      # every serialization facility in every run
    while len(sers) < 4 * per:
        sers += plan.sample(SER, len(SER))
    for k in range(4):
        r = random.Random("%s/%s/%d/class" % (a.seed, a.tier, k))
        out, units = ['#include "c08_common.h"'], []
        for i in range(per):
            c, u = klass(r, 10 * k + i, r.random() < 0.25, sers[4 * i + k])
            out.append(c)
            units += u
        out.append("static int reg = [] {\n  " + "\n  ".join(units) + "\n  return 0;\n}();\nextern \"C\" int c08_%d() { return reg; }" % k)
        open(os.path.join(a.out, "class%d.cc" % k), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
