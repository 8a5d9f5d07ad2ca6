#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, runs it over generated cases, writes the evidence file.

check.py <ID> [--tier quick|thorough]       exit 0: held on everything explored; 1: VIOLATION line printed
check.py <ID> --replay <file>               re-executes a saved counterexample (exit 1 when it still fails)
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gentypes
from propcfg import PROPS

CXX = "clang++"
ASAN = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3072:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:alloc_dealloc_mismatch=1:quarantine_size_mb=64"
UBSAN = "halt_on_error=1:exitcode=77:print_stacktrace=1"
TSAN = "halt_on_error=1:exitcode=77:die_after_fork=0:report_bugs=1:history_size=4:second_deadlock_stack=1"
ENV = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN, LC_ALL="C")
CRASH = (77, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)
T0 = time.time()
BUDGET = 840.0


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else "", "timeout"


def strip_comments(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)


def harvest(path):
    """Integer and string constants of the code under test: special values a generator should try."""
    ints, strs = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src", "checkpoint")):
        for f in fs:
            if not f.endswith((".h", ".cc", ".hpp")):
                continue
            t = strip_comments(open(os.path.join(d, f), errors="replace").read())
            t = "\n".join(l for l in t.split("\n") if not l.lstrip().startswith("#include"))
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)([uUlLzZ]*)(?![\w.])", t):
                try:
                    v = int(m.group(1).replace("'", ""), 0)
                except ValueError:
                    continue
                if 2 < v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r"(?<![\w.])(\d+)\s*<<\s*(\d+)", t):
                v = int(m.group(1)) << int(m.group(2))
                if 2 < v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                s = m.group(1).encode().decode("unicode_escape", errors="replace")
                if 0 < len(s) < 40:
                    strs.add(s)
    with open(path, "w") as o:
        for v in sorted(ints):
            o.write("i %d\n" % v)
        for s in sorted(strs):
            o.write("s " + s.encode("utf8", "replace").hex() + "\n")
    return len(ints), len(strs)


class Fail(Exception):
    pass


class Build:
    def __init__(self, cfg, tier, seed, work):
        self.cfg, self.tier, self.seed, self.work = cfg, tier, seed, work
        self.dropped = []          # types that do not compile
        self.bins = {}
        self.heavy = {}
        # what the build system finds on Linux, and on a system that has neither call
        for d, t in (("gen", "#define checkpoint_has_fallocate\n#define checkpoint_has_mmap64\n"), ("gen-plain", "")):
            os.makedirs(os.path.join(work, d, "checkpoint"), exist_ok=True)
            with open(os.path.join(work, d, "checkpoint", "cmake_config.h"), "w") as f:
                f.write("#pragma once\n" + t)

    def inc(self, c):
        return ["-I" + os.path.join(self.work, "gen-plain" if c == "plain" else "gen"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "pbt"), "-I" + os.path.join(VERIF, "props"),
                "-I" + os.path.join(self.work, c)]

    def flags(self, c, ub=True):
        if c == "tsan":            # data races instead of memory errors; error checking on
            return ["-std=c++17", "-O1", "-g1", "-w", "-pthread", "-fsanitize=thread", "-DPBT_TSAN", "-DSERIALIZATION_ERROR_CHECKING"] + self.cfg.get("flags", []) + self.inc(c)
        san = "address,undefined" if ub else "address"
        fl = ["-std=c++17", "-O0", "-g1", "-w", "-pthread", "-fsanitize=" + san, "-DPBT_ASAN"]
        if ub:
            fl += ["-fno-sanitize=vptr,function,nonnull-attribute,returns-nonnull-attribute", "-fno-sanitize-recover=all"]
        if c in ("chk", "plain"):
            fl += ["-DSERIALIZATION_ERROR_CHECKING"]
        return fl + self.cfg.get("flags", []) + self.inc(c)

    def lib_sources(self):
        out = []
        for d, _, fs in os.walk(os.path.join(REPO, "src", "checkpoint")):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cc")]
        return sorted(out)

    def jobs(self):
        js = []
        cfgs = self.cfg.get("configs", ["chk", "nochk"])
        o = lambda n: os.path.join(self.work, n)
        js.append(("common", o("engine.o"), [CXX] + self.flags("nochk", False) + ["-O1", "-c", os.path.join(VERIF, "pbt/engine.cc"), "-o", o("engine.o")]))
        if "tsan" in cfgs:
            js.append(("tsan", o("tsan/engine.o"), [CXX] + self.flags("tsan") + ["-c", os.path.join(VERIF, "pbt/engine.cc"), "-o", o("tsan/engine.o")]))
        for c in cfgs:
            os.makedirs(o(c), exist_ok=True)
            if self.cfg.get("ops"):
                defs = ["-DOPS_" + x for x in self.cfg["ops"]]
                js.append((c, o(c + "/ops.o"), [CXX] + self.flags(c, False) + defs + ["-c", os.path.join(VERIF, "pbt/ops.cc"), "-o", o(c + "/ops.o")]))
                parts = list(self.cfg.get("parts", range(13)))
                nr = self.cfg.get("rand", 2) * (3 if self.tier == "thorough" else 1)
                if c in self.cfg.get("parts_in", {}) and self.tier == "quick":
                    parts, nr = self.cfg["parts_in"][c], 1
                elif c == "nochk" and self.tier == "quick" and len(cfgs) > 1 and "parts" not in self.cfg:
                    # the second configuration differs in a few lines of the library: a part of the type list is enough on every change
                    parts, nr = [0, 3, 4, 6, 8, 11], 1
                with open(o(c + "/types_rand.h"), "w") as f:
                    f.write(gentypes.make("%s/%s/%s" % (self.seed, c, self.tier), nr, 8))
                for k in sorted(parts, key=lambda k: -k) + [100 + i for i in range(nr)]:
                    obj = o("%s/part%d.o" % (c, k))
                    js.append((c, obj, [CXX] + self.flags(c, c == "chk" and k not in (10, 11, 12)) + defs + ["-DPART=%d" % k, "-c", os.path.join(VERIF, "pbt/part.cc"), "-o", obj]))
            else:
                defs = []
            # sources whose many instantiations are compiled without sanitizers, in one configuration, and linked last
            wide = [] if c != cfgs[0] and self.tier == "quick" else self.cfg.get("wide", [])
            for s in wide + self.cfg["src"]:
                more, plain = [], s in wide
                n = ("z_" if plain else "") + os.path.basename(s)
                obj = o(c + "/" + n + ".o")
                if "#" in s:
                    s, k = s.split("#")
                    more = ["-DPART_NO=" + k]
                src = s if os.path.isabs(s) else os.path.join(VERIF, s)
                if s.startswith("gen:"):
                    src = os.path.join(self.work, c, s[4:])
                fl = self.flags(c, self.cfg.get("ub", True))
                if plain and more:
                    fl = [f for f in fl if not f.startswith(("-fsanitize", "-fno-sanitize", "-g1"))]
                js.append((c, obj, [CXX] + fl + defs + more + ["-c", src, "-o", obj]))
            if self.cfg.get("heavy") and (c == cfgs[0] or self.tier == "thorough"):
                # units for gigabytes of data: a program of its own, without sanitizers
                exe = o(c + "/heavy")
                js.append(("heavy", exe, [CXX] + [f for f in self.flags(c) if not f.startswith(("-fsanitize", "-fno-sanitize", "-O0", "-DPBT_ASAN"))] +
                           ["-O1", os.path.join(VERIF, self.cfg["heavy"]["src"]), os.path.join(VERIF, "pbt/engine.cc")] + self.lib_sources() + ["-o", exe]))
                self.heavy[c] = exe
            for s in self.lib_sources():
                obj = o(c + "/lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
                js.append((c, obj, [CXX] + self.flags(c) + ["-c", s, "-o", obj]))
        return js

    def run(self):
        cfgs = self.cfg.get("configs", ["chk", "nochk"])
        for c in cfgs:
            os.makedirs(os.path.join(self.work, c), exist_ok=True)
            if self.cfg.get("generate"):
                rc, out, err = sh([sys.executable, os.path.join(VERIF, self.cfg["generate"]), "--seed", "%s/%s" % (self.seed, c), "--tier", self.tier,
                                   "--out", os.path.join(self.work, c)])
                if rc:
                    raise Fail("generator failed: " + err)
        js = self.jobs()
        bad = []
        # the biggest translation units first
        def order(j):
            m = re.search(r"part(\d+)\.o", j[1])
            k = int(m.group(1)) if m else -1
            return {12: 0, 10: 1, 11: 2}.get(k, 0 if "_part.cc#" in j[1] or "_wide.cc#" in j[1] else 3 if k >= 100 else 4 if k >= 0 else 5 if "/lib_" in j[1] else 3)
        js.sort(key=order)
        objs = {c: [] for c in cfgs}
        with cf.ThreadPoolExecutor(8) as ex:
            for (c, obj, cmd), (rc, out, err) in zip(js, ex.map(lambda j: sh(j[2], timeout=600), js)):
                if rc:
                    bad.append((c, obj, cmd, err))
                elif c == "heavy":
                    pass
                elif c == "common":
                    for k in cfgs:
                        if k != "tsan":
                            objs[k].append(obj)
                else:
                    objs[c].append(obj)
        if bad:
            self.diagnose(bad, objs)
        for c in cfgs:
            exe = os.path.join(self.work, c, "prop")
            rc, out, err = sh([CXX, "-fsanitize=thread" if c == "tsan" else "-fsanitize=address,undefined", "-pthread"] + sorted(objs[c]) + self.cfg.get("link", []) + ["-o", exe], timeout=300)
            if rc:
                raise Fail("link failed: " + err[-3000:])
            self.bins[c] = exe
        if "tsan" in self.bins and len(self.bins) > 1:
            rc, out, err = sh([self.bins["tsan"], "--list"], env=ENV, timeout=60)
            if rc:     # ThreadSanitizer cannot set up its shadow memory here
                log("ThreadSanitizer does not run in this environment:", err[:300])
                self.dropped_cfg = "tsan: " + err[:200]
                del self.bins["tsan"]

    def diagnose(self, bad, objs):
        """A unit does not compile. Either the tree does not compile at all (no verdict), or a supported construct is broken."""
        t = os.path.join(self.work, "trivial.cc")
        with open(t, "w") as f:
            f.write("#include <checkpoint/checkpoint.h>\n#include <vector>\nint main() { std::vector<int> v{1}; auto r = checkpoint::serialize(v); return int(checkpoint::deserialize<std::vector<int>>(r->getBuffer())->size()) - 1; }\n")
        rc, _, err = sh([CXX] + self.flags("nochk") + ["-c", t, "-o", t + ".o"])
        if rc:
            raise Fail("the code under test does not compile: " + err[:2000])
        for c, obj, cmd, err in bad:
            m = re.search(r"part(\d+)\.o$", obj)
            if not m:
                raise Broken("a program using the documented interface no longer compiles (%s): %s" % (os.path.basename(obj), first_error(err)), err)
            k = int(m.group(1))
            hdr = os.path.join(self.work, c, "types_rand.h") if k >= 100 else os.path.join(VERIF, "pbt/types.h")
            txt = re.sub(r"\\\n", " ", open(hdr).read())
            line = re.search(r"#define TYPES_%d\(X\)(.*)" % k, txt).group(1)
            xs = re.findall(r"\b([XY])\(((?:[^()]|\([^()]*\))*)\)", line)
            pieces = []
            def one(ix):
                i, (y, ty) = ix
                ob = obj.replace(".o", "_%d.o" % i)
                cc = [a if a != obj else ob for a in cmd] + ["-DONLY_TYPE=" + ty.replace("PBT_COMMA", ",")]
                return ty, ob, sh(cc, timeout=600)
            with cf.ThreadPoolExecutor(8) as ex:
                for ty, ob, (rc, _, e) in ex.map(one, enumerate(xs)):
                    if rc:
                        self.dropped.append((c, ty.replace(" PBT_COMMA", ","), e))
                    else:
                        objs[c].append(ob)


class Broken(Exception):
    def __init__(self, msg, detail):
        super().__init__(msg)
        self.detail = detail


def first_error(e):
    for l in e.split("\n"):
        if "error:" in l:
            return l.strip()[:400]
    return e[-400:]


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) unit=(.*?) match=(.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def violation(pid, cfgname, replay, msg):
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    print("  configuration %s: %s" % (cfgname, msg[:2500]))
    sys.stdout.flush()


def save_replay(pid, c, d, bin_info):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    d = dict(d, property=pid, config=c, **bin_info)
    h = hashlib.sha1(json.dumps(d.get("cases", d.get("message", ""))).encode()).hexdigest()[:10]
    p = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, c, h))
    with open(p, "w") as f:
        json.dump(d, f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    a = ap.parse_args()
    pid = a.id
    cfg = PROPS[pid]
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, a.tier = rep.get("seed", a.seed), rep.get("tier", a.tier)
    work = a.keep or tempfile.mkdtemp(prefix="pbt-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(work, exist_ok=True)
    os.chmod(work, 0o711)      # C04 reads files as another user
    rc = 2
    try:
        if cfg.get("driver"):      # programs are generated and judged by a driver of its own
            sys.modules["check"] = sys.modules["__main__"]
            d = __import__(cfg["driver"])
            rc = d.replay(pid, cfg, a, rep, work) if rep else d.check(pid, cfg, a, work)
        else:
            rc = replay(pid, cfg, a, rep, work) if rep else check(pid, cfg, a, work)
    except Fail as e:
        log("cannot decide:", e)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def replay(pid, cfg, a, rep, work):
    if rep.get("kind") == "compile":
        print("replay: compile error recorded; rebuilding")
    cfg = dict(cfg)
    heavy = False
    if rep.get("config"):
        heavy = rep["config"].endswith("+heavy")
        cfg["configs"] = [rep["config"].split("+")[0]]
    b = Build(cfg, a.tier, a.seed, work)
    try:
        b.run()
    except Broken as e:
        violation(pid, rep.get("config", "?"), a.replay, str(e))
        return 1
    if rep.get("kind") == "compile":
        bad = [d for d in b.dropped if d[1] == rep["type"]]
        if bad:
            violation(pid, rep["config"], a.replay, first_error(bad[0][2]))
            return 1
        print("REPLAY: the property held")
        return 0
    dic = os.path.join(work, "dict")
    if "dict" in rep:
        open(dic, "w").write(rep["dict"])
    else:
        harvest(dic)
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch, exist_ok=True)
    for c, exe in (b.heavy if heavy else b.bins).items():
        args = [exe, "--replay", a.replay, "--dict", dic, "--scratch", scratch, "--seed", str(a.seed)] + (["--thorough"] if a.tier == "thorough" else [])
        n = 1
        if rep.get("kind") == "shard":
            args = [exe] + rep["args"] + ["--dict", dic, "--scratch", scratch, "--stats", os.path.join(work, "s"), "--replay-out", os.path.join(work, "r")]
            n = 3
        for _ in range(n):
            rc, out, err = sh(args, env=ENV, timeout=BUDGET)
            if rc in (1, 5) or rep.get("kind") == "shard" and rc in CRASH:
                sys.stdout.write(out)
                violation(pid, c, a.replay, rep.get("message", ""))
                return 1
        if rc:
            raise Fail("replay: %s %s" % (out, err))
    print("REPLAY: the property held")
    return 0


def check(pid, cfg, a, work):
    b = Build(cfg, a.tier, a.seed, work)
    info = {"seed": a.seed, "tier": a.tier}
    try:
        b.run()
    except Broken as e:
        p = save_replay(pid, "build", {"kind": "build", "message": str(e), "log": e.detail[-6000:]}, info)
        violation(pid, "build", p, str(e))
        return 1
    tb = time.time() - T0
    log("built", {c: 1 for c in b.bins}, "dropped", [d[1] for d in b.dropped])
    if b.dropped and (cfg.get("compile_is_violation") or not any(True for _ in b.bins)):
        c, ty, e = b.dropped[0]
        p = save_replay(pid, c, {"kind": "compile", "type": ty, "message": "supported type %s no longer compiles: %s" % (ty, first_error(e)), "log": e[-6000:]}, info)
        violation(pid, c, p, "supported type %s no longer compiles: %s" % (ty, first_error(e)))
        return 1
    dic = os.path.join(work, "dict")
    nd = harvest(dic)
    q = cfg["quick"] if a.tier == "quick" else cfg["thorough"]
    rounds, per = q["rounds"], cfg.get("shards", 4)
    kf = known(pid)
    jobs = []
    for c, exe in b.bins.items():
        ns = per if len(b.bins) > 1 else 2 * per
        for k in range(ns):
            jobs.append((c, exe, k, ns))

    def shard(j, attempt=0):
        c, exe, k, ns = j
        tag = "%s-%d" % (c, k)
        scratch = os.path.join(work, "scratch-" + tag)
        os.makedirs(scratch, exist_ok=True)
        ro = os.path.join(work, "replay-%s-%d" % (tag, attempt))
        st = os.path.join(work, "stats-" + tag)
        nr = cfg["heavy"][a.tier] if c.endswith("+heavy") else rounds
        argl = ["--seed", str(a.seed * 16 + sorted(b.bins).index(c.split("+")[0])), "--from", str(k), "--stride", str(ns), "--rounds", str(nr)] + (["--thorough"] if a.tier == "thorough" else [])
        left = BUDGET - (time.time() - T0)
        argl += ["--max-seconds", "%d" % max(20, min(q.get("seconds", 600), left - 120 - (60 if cfg.get("heavy") and not c.endswith("+heavy") else 0)))]
        rc, out, err = sh([exe] + argl + ["--dict", dic, "--scratch", scratch, "--stats", st, "--replay-out", ro], env=ENV, timeout=max(60, left - 10))
        return rc, out, err, ro, st, argl

    found, total = [], {"evaluations": 0, "nontrivial": 0}
    hashes, samples, unitc, labels, trunc, notes = set(), [], {}, {}, False, []
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(shard, jobs))
    hv = cfg.get("heavy")
    for c, exe in b.heavy.items():        # one after the other: each takes most of the memory
        j = (c + "+heavy", exe, 0, 1)
        jobs.append(j)
        res.append(shard(j))
    for j, (rc, out, err, ro, st, argl) in zip(jobs, res):
        c = j[0]
        tries = 0
        while rc in (5, 3) or rc not in (0, 1):
            tries += 1
            if tries > 2:
                break
            log("shard", c, j[2], "ended with", rc, out[-300:], err[-1200:], "- repeating it")
            rc2, out, err, ro, st, argl = shard(j, tries)
            if rc2 == 5 and rc == 5 and tries == 2:
                # fails every time it runs, but never in isolation
                d = {"kind": "shard", "args": argl, "message": "fails in each of three runs of the same shard, not in isolation: " + err[-1500:], "log": err[-6000:]}
                found.append((c, save_replay(pid, c, d, dict(info, dict=open(dic).read())), d["message"]))
                rc = 0
                break
            if rc in CRASH and rc2 in CRASH and tries == 2:
                # the program does not get as far as running cases
                d = {"kind": "shard", "args": argl, "message": "a program using the library ends before its first case (status %d), three times: %s" % (rc2, err[-1500:]), "log": err[-6000:]}
                found.append((c, save_replay(pid, c, d, dict(info, dict=open(dic).read())), d["message"]))
                rc = 0
                break
            rc = rc2
        if rc == 1:
            d = json.load(open(ro))
            msg = d["message"]
            unit = d["cases"][-1]["unit"]
            hit = [k for k in kf if k[0] == unit and k[1] in msg]
            if hit:
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, unit, msg[:300]))
            else:
                found.append((c, save_replay(pid, c, d, dict(info, dict=open(dic).read())), "unit %s: %s" % (unit, msg)))
        elif rc not in (0,):
            if rc == 5:
                notes.append("a shard reported a failure that did not come back when repeated: " + out[-300:])
            else:
                raise Fail("shard %s of %s ended with %s: %s %s" % (j[2], c, rc, out[-500:], err[-2000:]))
        if os.path.exists(st):
            s = json.load(open(st))
            total["evaluations"] += s["evaluations"]
            total["nontrivial"] += s["nontrivial"]
            trunc |= s["truncated"]
            hashes.update((c, h) for h in s["hashes"])
            for x in s["samples"]:
                samples.append({"config": c, **x})
            for u, (n, m) in s["units"].items():
                e = unitc.setdefault(u, [0, 0])
                e[0] += n
                e[1] += m
            for l, n in s["labels"].items():
                labels[l] = labels.get(l, 0) + n
    wall = time.time() - T0
    samples.sort(key=lambda x: hashlib.sha1(json.dumps(x).encode()).hexdigest())
    cov = {
        "evaluations": total["evaluations"], "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
        "samples": [json.dumps(x)[:600] for x in samples[:16]],
        "mode": "stopped by the time limit" if trunc else "fixed number of cases",
        "configurations": sorted(b.bins), "units": len(unitc),
        "cases_per_unit": {u: v[0] for u, v in sorted(unitc.items())},
        "distinct_nontrivial_per_unit": {u: v[1] for u, v in sorted(unitc.items())}, "labels": dict(sorted(labels.items())),
        "dictionary_integers": nd[0], "dictionary_strings": nd[1], "build_seconds": round(tb, 1),
    }
    if b.dropped:
        cov["types_not_compiling"] = [d[1] for d in b.dropped]
    if getattr(b, "dropped_cfg", None):
        notes.append(b.dropped_cfg)
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(found)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("cases", total["evaluations"], "non-trivial", total["nontrivial"], "distinct", len(hashes), "truncated" if trunc else "")
    if found:
        for c, p, m in found[:3]:
            violation(pid, c, p, m)
        return 1
    print("%s: held on %d generated cases (%d distinct non-trivial) in %.0f s" % (pid, total["evaluations"], len(hashes), wall))
    return 0


if __name__ == "__main__":
    main()
