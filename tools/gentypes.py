#!/usr/bin/env python3
"""Random compositions of supported types, as additional parts of the type list (a function of the seed)."""
import random, sys

KEYS = ["int", "uint8_t", "int64_t", "string", "Small", "zoo::E8", "char", "zoo::E64"]
KEY_COMP = ["pair<int, string>", "tuple<int, uint8_t>", "vector<int>", "string"]
LEAF = ["int", "uint8_t", "double", "float", "bool", "int64_t", "char32_t", "zoo::E8", "zoo::E64", "string", "string", "Ms", "Small", "Odd3", "zoo::Empty"]
CLASSES = ["In", "Non", "ByUsing", "ByNon", "ByFalse", "Handle", "MoveOnly", "Cond", "Split2", "Tree", "DynArr", "IntArr", "Prefilled", "Der"]
NODEF = ["Tagged", "Recon", "ReconFree", "ReconSpec", "HandleTagged", "MoveOnlyTagged"]
NOCOPY = {"MoveOnly", "MoveOnlyTagged", "DynArr", "IntArr", "Tree"}


class T:
    def __init__(self, s, defc=True, copy=True, move=True):
        self.s, self.defc, self.copy = s, defc, copy


def leaf(r):
    k = r.random()
    if k < 0.55:
        return T(r.choice(LEAF))
    if k < 0.8:
        c = r.choice(CLASSES)
        return T(c, True, c not in NOCOPY)
    c = r.choice(NODEF)
    return T(c, False, c not in NOCOPY)


def gen(r, d):
    """A random movable type of nesting depth at most d."""
    if d == 0:
        return leaf(r)
    k = r.randrange(16)
    sub = lambda: gen(r, d - 1)

    def subdef():
        """Members of pairs, elements of arrays and mapped values must be default constructible (documented limits)."""
        for _ in range(40):
            e = sub()
            if e.defc:
                return e
        return T(r.choice(LEAF))

    if k <= 2:
        e = sub()
        return T(f"vector<{e.s}>", True, e.copy)
    if k == 3:
        e = sub()
        return T(f"list<{e.s}>", True, e.copy)
    if k == 4:
        e = sub()
        return T(f"deque<{e.s}>", True, e.copy)
    if k == 5:
        for _ in range(9):
            e = sub()
            if e.copy:
                return T(f"queue<{e.s}>", True, True)
        return leaf(r)
    if k == 6:
        e = sub()
        return T(f"optional<{e.s}>", True, e.copy)
    if k == 7:
        e = sub()
        return T(f"unique_ptr<{e.s}>", True, False)
    if k == 8:
        n = r.choice([1, 2, 3, 7])
        e = subdef()
        return T(f"array<{e.s}, {n}>", True, e.copy)
    if k == 9:
        es = [sub() for _ in range(r.choice([1, 2, 3, 4]))]
        return T("tuple<%s>" % ", ".join(e.s for e in es), all(e.defc for e in es), all(e.copy for e in es))
    if k == 10:
        a, b = subdef(), subdef()
        return T(f"pair<{a.s}, {b.s}>", True, a.copy and b.copy)
    if k == 11:
        names, es = set(), []
        for _ in range(r.choice([2, 3, 4])):
            e = sub()
            if e.s not in names:
                names.add(e.s)
                es.append(e)
        if not any(e.defc for e in es):
            es.append(T("int"))
        while not es[0].defc:
            es.append(es.pop(0))
        return T("variant<%s>" % ", ".join(e.s for e in es), True, all(e.copy for e in es))
    if k in (12, 13):
        e = subdef()
        key = r.choice(KEYS + KEY_COMP)
        if k == 12 or key in ("Small",) or "<" in key or key.startswith("zoo"):
            return T(f"{r.choice(['map', 'multimap'])}<{key}, {e.s}>", True, e.copy)
        return T(f"{r.choice(['unordered_map', 'unordered_multimap'])}<{key}, {e.s}>", True, e.copy)
    if k == 14:
        key = r.choice(KEYS + KEY_COMP)
        if r.random() < 0.5 or key in ("Small",) or "<" in key or key.startswith("zoo"):
            return T(f"{r.choice(['set', 'multiset'])}<{key}>")
        return T(f"{r.choice(['unordered_set', 'unordered_multiset'])}<{key}>")
    e = subdef()
    return T(f"{r.choice(['Wrap', 'WrapNon'])}<{e.s}>", True, e.copy)


def make(seed, parts, per):
    r = random.Random(seed)
    out, seen = [], set()
    for p in range(parts):
        xs = []
        while len(xs) < per:
            t = gen(r, r.choice([1, 2, 2, 3, 3, 4]))
            if t.s in seen or len(t.s) > 260 or t.s in LEAF + CLASSES + NODEF:
                continue
            seen.add(t.s)
            xs.append(("Y" if r.random() < 0.1 else "X", t.s))
        body = " ".join(f"{m}({s.replace(',', ' PBT_COMMA')})" for m, s in xs)
        out.append(f"#define TYPES_{100 + p}(X) {body}")
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    sys.stdout.write(make(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])))
