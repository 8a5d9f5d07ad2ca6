#!/usr/bin/env python3
"""Random registered class hierarchies for C07 (a function of the seed): one translation unit per hierarchy.

Every class logs each call of its serialize function; expect() gives the order of visits the documentation promises."""
import argparse, os, random

FIELDS = [("int", "0"), ("std::string", '"d"'), ("std::vector<int>", "{1, 2}"), ("double", "0"), ("uint8_t", "7"), ("std::map<int, std::string>", ""), ("std::optional<std::string>", ""),
          ("std::vector<bool>", ""), ("int64_t", "-1"), ("std::set<std::string>", "")]
HOLD = ["one", "mid", "raw", "rawmid", "sh", "v", "l", "dq", "m", "um", "t", "pr", "opt", "vals", "lvals", "arr", "mvals", "mapval", "oval", "uv", "var"]
EXACT = ["pv", "rawv", "shv", "vpv"]        # pointers to a concrete class, final ones included


def hierarchy(r, k, style, size):
    ns = "h%d" % k
    out = []
    w = out.append
    w('#include "c07_common.h"\nnamespace %s {\nusing pbt::Src;' % ns)
    # parents: chain-biased random tree
    parent = [None] + [r.choice([i - 1, i - 1, r.randrange(i)]) for i in range(1, size)]
    children = {i: [j for j in range(size) if parent[j] == i] for i in range(size)}
    name = ["L%d" % i for i in range(size)]
    tmpl = {i for i in range(1, size) if not children[i] and r.random() < 0.4 and style != "free"}
    def t(i):
        return name[i] + ("<int>" if i in tmpl else "")
    leaves = [i for i in range(1, size) if not children[i]]
    final = {i for i in leaves if r.random() < 0.5} or {r.choice(leaves)}
    root_abs = style != "crtp" and r.random() < 0.4
    abstract = {0} if root_abs else set()
    for i in range(1, size):
        if children[i] and r.random() < 0.25 and i not in tmpl:
            abstract.add(i)
    ctor = {}
    for i in range(size):
        ctor[i] = "default" if i in abstract else r.choice(["default", "default", "tag", "recon", "both"])
    w("struct L0;\nstd::unique_ptr<L0> any(Src&, int depth);")
    decl = []
    for i in range(size):
        n, p = name[i], (t(parent[i]) if i else None)
        fs = []
        for q in range(r.choice([0, 1, 1, 2, 3])):
            ty, init = r.choice(FIELDS)
            fs.append((ty, "f%d_%d" % (i, q), init, "data"))
        if r.random() < 0.35:
            fs.append(("std::unique_ptr<L0>", "kid%d" % i, "", "kid"))
        if r.random() < 0.2:
            fs.append(("std::vector<std::unique_ptr<L0>>", "kids%d" % i, "", "kids"))
        r.shuffle(fs)
        if i in tmpl:
            w("template <typename P>")
            fs.append(("P", "tp%d" % i, "3", "data"))
        if style == "crtp":
            self_t = n + ("<P>" if i in tmpl else "")
            w("struct %s%s : %s {" % (n, " final" if i in final else "", "checkpoint::SerializableBase<L0>" if i == 0 else "checkpoint::SerializableDerived<%s, %s>" % (self_t, p)))
        else:
            w("struct %s%s%s {" % (n, " final" if i in final else "", " : " + p if i else ""))
            w("  checkpoint_virtual_serialize_root()" if i == 0 else "  checkpoint_virtual_serialize_derived_from(%s)" % p)
        for ty, f, init, kind in fs:
            w("  %s %s%s;" % (ty, f, "{%s}" % init.strip("{}") if init else ""))
        # constructors: every class has C(Init) used by this program, and the ways the library may construct it
        base = "" if i == 0 or style == "crtp" else " : %s(c07::Init{})" % p
        if style == "crtp" and i:
            base = " : checkpoint::SerializableDerived<%s, %s>(c07::Init{})" % (self_t, p)
        w("  explicit %s(c07::Init)%s {}" % (n, base))
        if ctor[i] in ("default",):
            w("  %s()%s {}" % (n, base))
        if ctor[i] in ("tag", "both"):
            w("  explicit %s(checkpoint::SERIALIZE_CONSTRUCT_TAG)%s {}" % (n, base))
        if ctor[i] == "recon":
            w("  static %s& reconstruct(void* buf) { return *new (buf) %s(c07::Init{}); }" % (n, n))
        if ctor[i] == "both":
            w("  %s()%s {}" % (n, base))
        if i == 0:
            w("  virtual ~L0() = default;\n  L0(L0&&) = default; L0& operator=(L0&&) = default;")
        body = "c07::log(s, %d);%s" % (100 * k + i, "".join(" s | %s;" % f for _, f, _, _ in fs))
        if style != "free":
            w("  template <typename S> void serialize(S& s) { %s }" % body)
        v, o = ("virtual ", "") if i == 0 else ("", " override")
        up = "%s::" % (p if i else "")
        w("  %svoid fill(Src& s, int d)%s { %s" % (v, o, up + "fill(s, d); " if i else "") +
          " ".join({"data": "%s = pbt::gen<%s>(s);" % (f, ty), "kid": "%s = any(s, d - 1);" % f,
                    "kids": "for (size_t n = d > 0 ? s.draw(3) : 0; n > 0; n--) %s.push_back(any(s, d - 1));" % f}[kind] for ty, f, _, kind in fs) + " }")
        put = " ".join({"data": "pbt::put(o, %s); o += ',';" % f, "kid": "c07::outp(o, %s);" % f, "kids": "for (auto& x : %s) c07::outp(o, x); o += ';';" % f}[kind] for _, f, _, kind in fs)
        w("  %svoid out(std::string& o) const%s { %s o += \"%s(\"; %s o += ')'; }" % (v, o, (up + "out(o);") if i else "o += nm(); o += ':';", n, put))
        exp = " ".join({"data": "", "kid": "c07::expp(e, %s);" % f, "kids": "for (auto& x : %s) c07::expp(e, x);" % f}[kind] for _, f, _, kind in fs)
        w("  %svoid expect(std::vector<int>& e) const%s { %s e.push_back(%d); %s }" % (v, o, up + "expect(e);" if i else "", 100 * k + i, exp))
        if i in abstract:
            w("  virtual char const* nm() const%s = 0;" % ("" if i == 0 else " override"))
        else:
            w("  %schar const* nm() const%s { return \"%s\"; }" % (v, o, t(i)))
        w("};")
        if style == "free":
            w("template <typename S> void serialize(S& s, %s& x) { c07::log(s, %d);%s }" % (n, 100 * k + i, "".join(" s | x.%s;" % f for _, f, _, _ in fs)))
    conc = [i for i in range(size) if i not in abstract]
    extra = []
    for i in tmpl:
        extra.append(name[i] + "<std::string>")
    ctypes = [t(i) for i in conc]
    # a second instantiation of templates whose parameter can also be a string
    w("inline std::unique_ptr<L0> any(Src& s, int d) {\n  if (d < 0 || s.draw(6) == 0) return nullptr;\n  std::unique_ptr<L0> r;\n  switch (s.draw(%d)) {" % len(ctypes))
    for q, ty in enumerate(ctypes):
        w("  case %d: r = std::make_unique<%s>(c07::Init{}); break;" % (q, ty))
    w("  }\n  r->fill(s, d);\n  return r;\n}")
    mids = [i for i in range(1, size) if children[i]] or [0]
    mid = r.choice(mids)
    below = [i for i in conc if i == mid or any(x == mid for x in anc(parent, i))]
    if not below:
        mid, below = 0, conc
    w("inline std::unique_ptr<%s> anyMid(Src& s, int d) {\n  if (s.draw(6) == 0) return nullptr;\n  std::unique_ptr<%s> r;\n  switch (s.draw(%d)) {" % (t(mid), t(mid), len(below)))
    for q, i in enumerate(below):
        w("  case %d: r = std::make_unique<%s>(c07::Init{}); break;" % (q, t(i)))
    w("  }\n  r->fill(s, d);\n  return r;\n}")
    # by value in containers: copyable when no unique_ptr member anywhere up; use vector/list which only move; default constructible for arrays and mapped values
    val = r.choice(conc) if r.random() < 0.4 else r.choice(sorted(final))
    dval = r.choice([i for i in conc if ctor[i] in ("default", "both")] or [None])
    hold = r.sample(HOLD, 8) + r.sample(EXACT, 1)
    r.shuffle(hold)
    if dval is None:
        hold = [h for h in hold if h not in ("arr", "mapval")]
    M, V = t(mid), t(val)
    D = t(dval) if dval is not None else None
    decl = {"one": "std::unique_ptr<L0> one;", "mid": "std::unique_ptr<%s> mid;" % M, "raw": "L0* raw = nullptr;", "rawmid": "%s* rawmid = nullptr;" % M, "sh": "std::shared_ptr<L0> sh;",
            "v": "std::vector<std::unique_ptr<L0>> v;", "l": "std::list<std::unique_ptr<%s>> l;" % M, "dq": "std::deque<std::unique_ptr<L0>> dq;", "m": "std::map<int, std::unique_ptr<L0>> m;",
            "um": "std::unordered_map<std::string, std::unique_ptr<%s>> um;" % M, "t": "std::tuple<int, std::unique_ptr<L0>> t;", "pr": "std::pair<std::unique_ptr<L0>, std::unique_ptr<%s>> pr;" % M,
            "opt": "std::optional<std::unique_ptr<L0>> opt;", "vals": "std::vector<%s> vals;" % V, "lvals": "std::list<%s> lvals;" % V, "arr": "%s arr[3];" % D, "mvals": "std::deque<%s> mvals;" % V,
            "mapval": "std::map<std::string, %s> mapval;" % D, "oval": "std::optional<%s> oval;" % V, "uv": "std::unique_ptr<std::vector<%s>> uv;" % V, "var": "std::variant<int, std::unique_ptr<L0>> var;",
            "pv": "std::unique_ptr<%s> pv;" % V, "rawv": "%s* rawv = nullptr;" % V, "shv": "std::shared_ptr<%s> shv;" % V, "vpv": "std::vector<std::unique_ptr<%s>> vpv;" % V}
    ser = {h: "s | %s;" % h for h in decl}
    ser["raw"] = "c07::raw(s, raw);"
    ser["rawmid"] = "c07::raw(s, rawmid);"
    ser["rawv"] = "c07::raw(s, rawv);"
    ser["shv"] = "c07::shared(s, shv);"
    ser["sh"] = "c07::shared(s, sh);"
    ser["arr"] = "checkpoint::dispatch::serializeArray(s, arr, 3);"
    N = "for (size_t n = s.draw(5); n > 0; n--) "
    gen = {"one": "b.one = any(s, 2);", "mid": "b.mid = anyMid(s, 2);", "raw": "b.raw = any(s, 2).release();", "rawmid": "b.rawmid = anyMid(s, 2).release();", "sh": "b.sh = any(s, 2);",
           "v": N + "b.v.push_back(any(s, 1));", "l": N + "b.l.push_back(anyMid(s, 1));", "dq": N + "b.dq.push_back(any(s, 1));", "m": N + "b.m[pbt::gen<int>(s)] = any(s, 1);",
           "um": N + "b.um[pbt::gen<std::string>(s)] = anyMid(s, 1);", "t": "std::get<0>(b.t) = pbt::gen<int>(s); std::get<1>(b.t) = any(s, 1);",
           "pr": "b.pr.first = any(s, 1); b.pr.second = anyMid(s, 1);", "opt": "if (s.draw(2)) b.opt.emplace(any(s, 1));",
           "vals": N + "{ b.vals.emplace_back(c07::Init{}); b.vals.back().fill(s, 0); }", "lvals": N + "{ b.lvals.emplace_back(c07::Init{}); b.lvals.back().fill(s, 0); }",
           "mvals": N + "{ b.mvals.emplace_back(c07::Init{}); b.mvals.back().fill(s, 1); }", "arr": "for (auto& x : b.arr) x.fill(s, 0);",
           "mapval": N + "b.mapval[pbt::gen<std::string>(s)].fill(s, 0);", "oval": "if (s.draw(2)) { b.oval.emplace(c07::Init{}); b.oval->fill(s, 1); }",
           "uv": "if (s.draw(3)) { b.uv = std::make_unique<std::vector<%s>>(); %s{ b.uv->emplace_back(c07::Init{}); b.uv->back().fill(s, 0); } }" % (V, N),
           "var": "if (s.draw(2)) b.var = any(s, 1); else b.var = pbt::gen<int>(s);"}
    mkv = "{ b.%%s = %s(new %s(c07::Init{})); b.%%s->fill(s, 1); }" % ("%s", V)
    gen["pv"] = "if (s.draw(3)) " + mkv % ("pv", "std::unique_ptr<%s>" % V, "pv")
    gen["rawv"] = "if (s.draw(3)) " + mkv % ("rawv", "", "rawv")
    gen["shv"] = "if (s.draw(3)) " + mkv % ("shv", "std::shared_ptr<%s>" % V, "shv")
    gen["vpv"] = N + "{ b.vpv.emplace_back(new %s(c07::Init{})); b.vpv.back()->fill(s, 1); }" % V
    seq = lambda h, e, f: "for (auto& x : %s) c07::%s(%s, %s);" % (h, f, "Q", e)
    vis = {"one": "c07::F(Q, one);", "mid": "c07::F(Q, mid);", "raw": "c07::F(Q, raw);", "rawmid": "c07::F(Q, rawmid);", "sh": "c07::F(Q, sh);", "v": seq("v", "x", "F"), "l": seq("l", "x", "F"),
           "dq": seq("dq", "x", "F"), "m": "for (auto& x : m) { c07::key(Q, x.first); c07::F(Q, x.second); }", "um": "UM",
           "t": "c07::key(Q, std::get<0>(t)); c07::F(Q, std::get<1>(t));", "pr": "c07::F(Q, pr.first); c07::F(Q, pr.second);", "opt": "c07::key(Q, opt.has_value()); if (opt) c07::F(Q, *opt);",
           "vals": "c07::key(Q, vals.size()); " + seq("vals", "&x", "F"), "lvals": seq("lvals", "&x", "F"), "mvals": seq("mvals", "&x", "F"), "arr": seq("arr", "&x", "F"),
           "mapval": "for (auto& x : mapval) { c07::key(Q, x.first); c07::F(Q, &x.second); }", "oval": "c07::key(Q, oval.has_value()); if (oval) c07::F(Q, &*oval);",
           "uv": "c07::key(Q, uv != nullptr); if (uv) for (auto& x : *uv) c07::F(Q, &x);", "var": "c07::key(Q, var.index()); if (var.index()) c07::F(Q, std::get<1>(var)); else c07::key(Q, std::get<0>(var));",
           "pv": "c07::F(Q, pv);", "rawv": "c07::F(Q, rawv);", "shv": "c07::F(Q, shv);", "vpv": seq("vpv", "x", "F")}
    w("struct Bag {")
    w("  static constexpr bool footAll = %s;      // an optional's footprint does not descend into its value" % ("false" if {"opt", "oval"} & set(hold) else "true"))
    for h in hold:
        w("  " + decl[h])
    dele = " ".join("delete %s;" % h for h in hold if h in ("raw", "rawmid", "rawv"))
    w("  Bag() = default; Bag(Bag const&) = delete;\n  ~Bag() { %s }" % dele)
    w("  template <typename S> void serialize(S& s) { %s }" % " ".join(ser[h] for h in hold))
    w("  static void fillBag(Bag& b, Src& s) { %s }" % " ".join(gen[h] for h in hold))
    um = {"out": "{ std::vector<std::string> w; for (auto& x : um) { std::string q; c07::key(q, x.first); c07::outp(q, x.second); w.push_back(q); } std::sort(w.begin(), w.end()); for (auto& q : w) o += q; }",
          "exp": "for (auto& x : um) c07::expp(e, x.second);"}
    w("  void pbt_put(std::string& o) const { %s }" % " ".join((um["out"] if h == "um" else vis[h].replace("F(", "outp(").replace("Q", "o")) + " o += '%s';" % "|" for h in hold))
    w("  void expect(std::vector<int>& e) const { %s }" % " ".join(um["exp"] if h == "um" else vis[h].replace("F(", "expp(").replace("Q", "e") for h in hold))
    w("};")
    w("inline void mk(Bag& b, Src& s) { Bag::fillBag(b, s); }")
    w("inline void mk(std::unique_ptr<L0>& b, Src& s) { b = any(s, 3); }")
    w("inline void mk(std::vector<std::unique_ptr<%s>>& b, Src& s) { for (size_t n = s.draw(9); n > 0; n--) b.push_back(anyMid(s, 2)); }" % M)
    w("}  // namespace\n")
    w("static int reg = [] {")
    w('  c07::unit<%s::Bag>("bag %d (%s)", 4, [](auto& b, auto& s) { %s::mk(b, s); });' % (ns, k, style, ns))
    w('  c07::unit<std::unique_ptr<%s::L0>>("pointer %d (%s)", 2, [](auto& b, auto& s) { %s::mk(b, s); });' % (ns, k, style, ns))
    if mid:
        w('  c07::unit<std::vector<std::unique_ptr<%s::%s>>>("vector of intermediate pointers %d (%s)", 2, [](auto& b, auto& s) { %s::mk(b, s); });' % (ns, M, k, style, ns))
    for i in r.sample(conc, min(2, len(conc))):
        w('  c07::unitValue<%s::%s>("by value %s of %d (%s)");' % (ns, t(i), t(i), k, style))
    w("  return 0;\n}();\nextern \"C\" int c07_h%d() { return reg; }" % k)
    return "\n".join(out) + "\n"


def anc(parent, i):
    while parent[i] is not None:
        i = parent[i]
        yield i


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--seed")
    a.add_argument("--tier")
    a.add_argument("--out")
    a = a.parse_args()
    n = 3
    for k in range(n):
        r = random.Random("%s/%s/%d" % (a.seed, a.tier, k))
        style = ["macro", "crtp", "free"][k % 3]
        size = r.choice([4, 5, 6, 7]) if a.tier == "quick" else r.choice([5, 7, 9, 11])
        with open(os.path.join(a.out, "poly%d.cc" % k), "w") as f:
            f.write(hierarchy(r, k, style, size))


if __name__ == "__main__":
    main()
