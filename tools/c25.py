"""C25: generated programs; what cannot be checkpointed must be refused by the compiler, everything else accepted."""
import concurrent.futures as cf, hashlib, json, os, random, subprocess, sys, time

INCLUDES = "array any atomic chrono condition_variable deque exception filesystem forward_list functional future list map memory mutex optional queue set sstream stack string string_view thread tuple unordered_map unordered_set variant vector"

PRELUDE = """
namespace lib { struct Foreign { int x = 0; }; }
namespace elsewhere { template <typename S> void serialize(S& s, lib::Foreign& f) { s | f.x; } }
struct NoSer { int x = 0; };
struct NoSerPtr { int* p = nullptr; };
struct NoSerVirtual { virtual ~NoSerVirtual() = default; int x = 0; };
struct NoSerString { std::string s; };
struct OnlyFoot { int x = 0; template <typename S, typename = std::enable_if_t<checkpoint::is_footprinter_v<S>>> void serialize(S& s) { s | x; } };
struct OnlyThis { int x = 0; template <typename S> void serializeThis(S& s) { s | x; } };
struct OnlyParent { int x = 0; template <typename S> void serializeParent(S& s) { s | x; } };
struct Misspelt { int x = 0; template <typename S> void serialise(S& s) { s | x; } };
struct MoreArgs { int x = 0; template <typename S> void serialize(S& s, int) { s | x; } };
struct NotByte { using isByteCopyable = std::false_type; int x = 0; };
class Private { int x = 0; template <typename S> void serialize(S& s) { s | x; } };
struct Deleted { int x = 0; template <typename S> void serialize(S& s) = delete; };
union Union { int a; float b; };
struct NoCons { int x; explicit NoCons(int v) : x(v) {} template <typename S> void serialize(S& s) { s | x; } };
struct NoConsRef { int& x; NoConsRef(int& v) : x(v) {} template <typename S> void serialize(S& s) { s | x; } };
struct NoConsPriv { int x; template <typename S> void serialize(S& s) { s | x; } static NoConsPriv make() { return {}; } private: NoConsPriv() = default; };
struct NoConsWrongReturn { int x; explicit NoConsWrongReturn(int v) : x(v) {} static int reconstruct(void* b) { return 0; } template <typename S> void serialize(S& s) { s | x; } };
struct Good { int x = 0; std::string s; template <typename S> void serialize(S& z) { z | x | s; } };
struct GoodByte { using isByteCopyable = std::true_type; int x = 0; int y = 0; };
struct GoodFree { int x = 0; template <typename S> friend void serialize(S& s, GoodFree& g) { s | g.x; } };
struct GoodTag { int x; explicit GoodTag(checkpoint::SERIALIZE_CONSTRUCT_TAG) : x(0) {} template <typename S> void serialize(S& s) { s | x; } };
struct GoodRec { int x; explicit GoodRec(int v) : x(v) {} static GoodRec& reconstruct(void* b) { return *new (b) GoodRec(1); } template <typename S> void serialize(S& s) { s | x; } };
struct GoodRoot { checkpoint_virtual_serialize_root() int x = 0; virtual ~GoodRoot() = default; template <typename S> void serialize(S& s) { s | x; } };
enum Plain { A, B };
enum class Scoped : short { C, D };
"""
# spelling: movable and default-constructible (so that it may stand in optional and variant for a footprint), footprint claimed
NOSER = {
    "NoSer": 1, "NoSerPtr": 1, "NoSerVirtual": 1, "NoSerString": 1, "OnlyFoot": 1, "OnlyThis": 1, "OnlyParent": 1, "Misspelt": 1, "MoreArgs": 1, "NotByte": 1, "Private": 1, "Union": 1, "lib::Foreign": 1,
    "Deleted": None, "int*": 1, "char const*": 1, "Good*": 1, "void*": 1, "double**": 1, "std::shared_ptr<int>": 1, "std::shared_ptr<Good>": 1, "std::shared_ptr<GoodRoot>": 1, "std::weak_ptr<int>": 1,
    "std::atomic<int>": 0, "std::atomic<long>": 0, "std::thread": 0, "std::function<void()>": 1, "std::function<int(std::string)>": 1, "std::stack<int>": 1, "std::stack<std::string>": 1, "std::priority_queue<int>": 1,
    "std::any": 1, "std::string_view": 1, "std::mutex": 0, "std::exception_ptr": 1, "std::unique_ptr<NoSer>": 1, "std::unique_ptr<int*>": 1, "std::unique_ptr<NoSerVirtual>": 1, "Fn": 1, "Mem": 1, "std::future<int>": 1,
    "std::vector<int>::iterator": 1, "std::condition_variable": 0,
}
NOCONS = ["NoCons", "NoConsRef", "NoConsPriv", "NoConsWrongReturn"]
GOOD = ["int", "char", "double", "bool", "std::string", "Good", "GoodByte", "GoodFree", "GoodTag", "GoodRec", "Plain", "Scoped", "std::vector<bool>", "std::chrono::seconds", "std::set<int>",
        "std::unordered_set<std::string>", "std::multimap<int,char>", "unsigned long long"]
PLAIN_GOOD = ["int", "char", "double", "std::string", "Good", "GoodByte", "Plain", "Scoped", "std::vector<bool>"]   # default-constructible and movable
TYPEDEFS = "using Fn = int (*)(int); using Mem = int Good::*;\n"

# kind -> (number of children, builds the library creates the element itself)
KINDS = {"vector": 1, "list": 1, "deque": 1, "queue": 1, "array": 1, "optional": 1, "unique_ptr": 1, "map": 1, "unordered_map": 1, "multimap": 1, "pair": 2, "tuple": 3, "variant": 2,
         "member": 2, "carray": 2, "derived": 2, "template": 1, "free": 2, "polymorphic": 2, "sub": 2, "pointee": 1}
CREATES = {"vector", "list", "deque", "queue", "map", "unordered_map", "multimap", "unique_ptr", "optional", "variant"}
EMBEDS = {"pair", "tuple", "array", "member", "carray", "derived", "template", "free", "sub"}
NEED_MOVE = {"optional", "variant", "queue", "vector", "deque", "list", "map", "unordered_map", "multimap"}

OPS = {
    "getSize": "(void)checkpoint::getSize(*p);",
    "serialize": "auto r = checkpoint::serialize(*p);",
    "serialize to a callback": "auto r = checkpoint::serialize(*p, [&](std::size_t) { return b; });",
    "serializeToFile": "checkpoint::serializeToFile(*p, std::string(b));",
    "serializeToStream": "std::ostringstream os; checkpoint::serializeToStream(*p, os);",
    "deserialize": "auto o = checkpoint::deserialize<T>(b);",
    "deserialize to a place": "auto o = checkpoint::deserialize<T>(b, b);",
    "deserializeFromFile": "auto o = checkpoint::deserializeFromFile<T>(std::string(b));",
    "deserializeFromStream": "std::istringstream is; auto o = checkpoint::deserializeFromStream<T>(is);",
    "deserializeInPlace": "checkpoint::deserializeInPlace<T>(b, p);",
    "deserializeInPlaceFromFile": "checkpoint::deserializeInPlaceFromFile<T>(std::string(b), p);",
    "deserializeInPlaceFromStream": "std::istringstream is; checkpoint::deserializeInPlaceFromStream<T>(is, p);",
}
NEW = ["deserialize", "deserialize to a place", "deserializeFromFile", "deserializeFromStream"]
INPLACE = ["deserializeInPlace", "deserializeInPlaceFromFile", "deserializeInPlaceFromStream"]
FOOT = "(void)checkpoint::getMemoryFootprint(*p);"
# a constant object can be observed
CONST = ["T const& q = *p; " + s.replace("*p", "q") for k, s in OPS.items() if not k.startswith("deserialize")] + ["T const& q = *p; " + FOOT.replace("*p", "q")]


class Writer:
    def __init__(self):
        self.n, self.out = 0, []

    def name(self):
        self.n += 1
        return "K%d" % self.n

    def type(self, t):
        k, ch = t
        if not ch:
            return k
        s = [self.type(c) for c in ch]
        if k in ("vector", "list", "deque", "queue", "optional", "unique_ptr"):
            return "std::%s<%s>" % (k, s[0])
        if k == "array":
            return "std::array<%s,3>" % s[0]
        if k in ("map", "unordered_map", "multimap"):
            return "std::%s<int,%s>" % (k, s[0])
        if k == "pair":
            return "std::pair<%s,%s>" % tuple(s)
        if k == "tuple":
            return "std::tuple<%s>" % ",".join(s)
        if k == "variant":
            return "std::variant<%s>" % ",".join(s)
        n = self.name()
        al = ["using %s_%d = %s;" % (n, i, x) for i, x in enumerate(s)]
        body = {
            "member": "struct {n} {{ {n}_0 a; int m = 0; {n}_1 b; template <typename S> void serialize(S& s) {{ s | a | m; s | b; }} }};",
            "carray": "struct {n} {{ {n}_0 a[2]; {n}_1 b; template <typename S> void serialize(S& s) {{ checkpoint::dispatch::serializeArray(s, a, 2); s | b; }} }};",
            "free": "struct {n} {{ {n}_0 a; {n}_1 b; }}; template <typename S> void serialize(S& s, {n}& k) {{ s | k.a; s | k.b; }}",
            "derived": "struct {n}B {{ {n}_0 a; template <typename S> void serialize(S& s) {{ s | a; }} }}; struct {n} : {n}B {{ {n}_1 b; template <typename S> void serialize(S& s) {{ {n}B::serialize(s); s | b; }} }};",
            "sub": "struct {n} {{ struct I {{ {n}_0 a; template <typename S> void serialize(S& s) {{ s | a; }} }} i; {n}_1 b; template <typename S> void serialize(S& s) {{ s | i; s | b; }} }};",
            "template": "template <typename V> struct {n}T {{ V a; template <typename S> void serialize(S& s) {{ s | a; }} }}; using {n} = {n}T<{n}_0>;",
            "pointee": "struct {n} {{ {n}_0* a = nullptr; template <typename S> void serialize(S& s) {{ checkpoint::reconstructPointedToObjectIfNeeded(s, a); s | *a; }} }};",
            "polymorphic": "struct {n}B {{ checkpoint_virtual_serialize_root() {n}_0 a; virtual ~{n}B() = default; template <typename S> void serialize(S& s) {{ s | a; }} }}; "
                           "struct {n} : {n}B {{ checkpoint_virtual_serialize_derived_from({n}B) {n}_1 b; template <typename S> void serialize(S& s) {{ s | b; }} }};",
        }[k].format(n=n)
        self.out += al + [body]
        return "std::unique_ptr<%sB>" % n if k == "polymorphic" and self.n % 2 else "std::unique_ptr<%s>" % n if k == "polymorphic" else n


def source(t, stmts):
    w = Writer()
    ty = w.type(t)
    return PRELUDE + TYPEDEFS + "\n".join(w.out) + "\nusing T = %s;\n" % ty + "\n".join("void f%d(T* p, char* b) { %s }" % (i, s) for i, s in enumerate(stmts)) + "\n"


def text(t):
    k, ch = t
    return k if not ch else k + "<" + ", ".join(text(c) for c in ch) + ">"


def path(t):
    """kinds on the way to the marked leaf, or None"""
    k, ch = t
    if not ch:
        return [] if k.startswith("@") else None
    for c in ch:
        p = path(c)
        if p is not None:
            return [k] + p
    return None


def put(t, leaf):
    k, ch = t
    return (leaf, []) if k.startswith("@") else (k, [put(c, leaf) for c in ch])


def grow(r, depth, plain=False):
    if depth <= 0 or r.random() < 0.5:
        return (r.choice(PLAIN_GOOD if plain else GOOD), [])
    # below optional and variant a value must be default-constructible and movable
    k = r.choice(["vector", "list", "deque", "map", "member", "pair", "tuple", "optional", "variant", "free"])
    return (k, [grow(r, depth - 1, plain or k not in ("vector", "list", "deque", "map")) for _ in range(KINDS[k])])


def tree(r, depth):
    t = ("@", [])
    # 0: copyable; 1: a unique_ptr; 2: an object with a move-only part, which the standard containers cannot always hold
    state = 0
    for _ in range(r.randint(0, depth)):
        ks = list(KINDS)
        if state:
            ks.remove("queue")
        if state == 2:
            ks = [k for k in ks if k == "unique_ptr" or k not in NEED_MOVE]
        k = r.choice(ks)
        state = 1 if k in ("unique_ptr", "polymorphic") else 2 if state else 0
        ch = [t] + [grow(r, 1, True) for _ in range(KINDS[k] - 1)]
        if k not in ("variant",):
            r.shuffle(ch)
        elif len(ch) > 1:
            ch.reverse() if r.random() < 0.5 else None
        t = (k, ch)
    return t


def shrinks(t):
    k, ch = t
    for c in ch:
        if path(c) is not None:
            yield c
    for i, c in enumerate(ch):
        if path(c) is not None:
            for s in shrinks(c):
                yield (k, ch[:i] + [s] + ch[i + 1:])
        elif c != ("int", []):
            yield (k, ch[:i] + [("int", [])] + ch[i + 1:])


class Compiler:
    def __init__(self, b, work):
        from check import CXX, Fail, sh
        self.b, self.work, self.CXX, self.sh, self.Fail = b, work, CXX, sh, Fail
        h = os.path.join(work, "all.h")
        with open(h, "w") as f:
            f.write("#include <checkpoint/checkpoint.h>\n" + "".join("#include <%s>\n" % i for i in INCLUDES.split()))
        self.fl = {}
        for c in ("chk", "nochk"):
            f = ["-std=c++17", "-w"] + (["-DSERIALIZATION_ERROR_CHECKING"] if c == "chk" else []) + b.inc(c)
            pch = os.path.join(work, c + ".pch")
            rc, _, err = sh([CXX] + f + ["-x", "c++-header", h, "-o", pch], timeout=300)
            if rc:
                raise Fail("the code under test does not compile: " + err[:2000])
            self.fl[c] = f + ["-include-pch", pch]
        rc, err = self.run("chk", source(("int", []), OPS.values()))
        if rc:
            raise Fail("the code under test does not compile: " + err[:2000])

    def run(self, c, src):
        p = subprocess.run([self.CXX] + self.fl[c] + ["-fsyntax-only", "-ferror-limit=1", "-x", "c++", "-"], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
        if p.returncode not in (0, 1) or p.returncode == 1 and "error:" not in p.stderr:
            raise self.Fail("compiler ended with %d: %s" % (p.returncode, p.stderr[-800:]))
        return p.returncode, p.stderr


def foot_claimed(p, plain):
    # the pointee of the helper and the layers of a polymorphic class instantiate every serializer
    if plain is None or "polymorphic" in p:
        return False
    return bool(plain) or not NEED_MOVE & set(p)


def queries(r, leafkind, leaf, t):
    """(wanted outcome, what, tree, statements)"""
    p = path(t)
    good = r.choice(PLAIN_GOOD)
    q = [("accept", "every operation", put(t, good), list(OPS.values()) + [FOOT] + CONST)]
    bad = put(t, leaf)
    if leafkind == "noser":
        for o in r.sample(list(OPS), 2):
            q.append(("reject", o, bad, [OPS[o]]))
        if foot_claimed(p, NOSER[leaf]):
            q.append(("accept", "getMemoryFootprint", bad, [FOOT]))
    else:
        # classes that cannot be created: polymorphic ones are refused when run (C24)
        if "polymorphic" not in p:
            o = r.choice(NEW)
            # a raw pointer may stay null until the object is restored, so only what holds the object itself cannot be created
            q.append(("reject", o, bad, [OPS[o]]))
            if (CREATES | {"pointee"}) & set(p):
                o = r.choice(INPLACE)
                q.append(("reject", o, bad, [OPS[o]]))
    return q


def holds(comp, c, want, t, st):
    rc, err = comp.run(c, source(t, st))
    return (rc == 0) == (want == "accept"), err


def message(c, want, what, t, err):
    if want == "accept":
        l = [x for x in err.split("\n") if "error:" in x]
        return "%s on a supported value of %s no longer compiles: %s" % (what, text(t), (l or [""])[0][:400])
    return "%s on %s compiles, although a part of it cannot be checkpointed" % (what, text(t))


def check(pid, cfg, a, work):
    from check import Build, BUDGET, T0, VERIF, log, save_replay, violation
    comp = Compiler(Build(cfg, a.tier, a.seed, work), work)
    q = cfg["quick"] if a.tier == "quick" else cfg["thorough"]
    stop = min(time.time() + q["seconds"], T0 + BUDGET - 60)
    depth = 3 if a.tier == "quick" else 5
    done = []

    def one(i):
        if time.time() > stop:
            return None
        r = random.Random("%s/%d" % (a.seed, i))
        kind = "nocons" if r.random() < 0.2 else "noser"
        names = NOCONS if kind == "nocons" else list(NOSER)
        leaf = names[i % len(names)] if r.random() < 0.5 else r.choice(names)
        t = tree(r, depth)
        c = "chk" if r.random() < 0.5 else "nochk"
        out = []
        for want, what, ty, st in queries(r, kind, leaf, t):
            ok, err = holds(comp, c, want, ty, st)
            out.append((want, what, ty, st, ok, err))
        return i, kind, leaf, t, c, out

    with cf.ThreadPoolExecutor(8) as ex:
        for x in ex.map(one, range(q["rounds"])):
            if x:
                done.append(x)
    found, ev, labels, seen, samples = [], 0, {}, set(), []
    for i, kind, leaf, t, c, out in done:
        rej = acc = 0
        for want, what, ty, st, ok, err in out:
            ev += 1
            labels[want + ": " + what] = labels.get(want + ": " + what, 0) + 1
            rej += want == "reject" and ok
            acc += want == "accept" and ok
            if not ok and len(found) < 3 and text(ty) not in [f[0] for f in found]:
                # smaller trees that still fail
                mark, best = None, t
                sub = leaf if want == "reject" or what == "getMemoryFootprint" else None
                if sub is None:
                    cur = ty
                    best = ("x", [])
                else:
                    again = True
                    while again:
                        again = False
                        for s in shrinks(best):
                            if kind == "nocons" and what in INPLACE and not (CREATES | {"pointee"}) & set(path(s)):
                                continue
                            if not holds(comp, c, want, put(s, leaf), st)[0]:
                                best, again = s, True
                                break
                    cur = put(best, leaf)
                err2 = holds(comp, c, want, cur, st)[1]
                found.append((text(ty), c, want, what, cur, st, err2))
        for k in path(t):
            labels["inside " + k] = labels.get("inside " + k, 0) + 1
        labels["leaf " + leaf] = labels.get("leaf " + leaf, 0) + 1
        if rej and acc:
            seen.add((c, leaf, text(t), tuple(o[1] for o in out)))
            if len(samples) < 400:
                samples.append("%s: %s with %s: %s" % (c, text(t), leaf, "; ".join("%s %sed" % (o[1], o[0]) for o in out)))
    samples.sort(key=lambda s: hashlib.sha1(s.encode()).hexdigest())
    wall = time.time() - T0
    e = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
         "coverage": {"evaluations": ev, "distinct_nontrivial": len(seen), "rule": cfg["rule"], "samples": samples[:16], "compositions": len(done),
                      "mode": "fixed number of cases" if len(done) == q["rounds"] else "stopped by the time limit", "labels": dict(sorted(labels.items()))},
         "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(found)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)
    log("programs", ev, "compositions", len(done), "distinct non-trivial", len(seen))
    for _, c, want, what, ty, st, err in found:
        m = message(c, want, what, ty, err)
        p = save_replay(pid, c, {"kind": "program", "want": want, "message": m, "source": source(ty, st), "cases": [m]}, {"seed": a.seed, "tier": a.tier})
        violation(pid, c, p, m)
    if found:
        return 1
    print("%s: held on %d generated programs (%d distinct non-trivial compositions) in %.0f s" % (pid, ev, len(seen), wall))
    return 0


def replay(pid, cfg, a, rep, work):
    from check import Build, violation
    comp = Compiler(Build(cfg, a.tier, a.seed, work), work)
    rc, err = comp.run(rep["config"], rep["source"])
    if (rc == 0) != (rep["want"] == "accept"):
        violation(pid, rep["config"], a.replay, rep["message"])
        return 1
    print("REPLAY: the property held")
    return 0
