#!/usr/bin/env python3
"""Builds the drivers of one property from /repo's working tree, runs them under their sanitizers and
monitors, and turns what the monitors observed into a verdict and an evidence file.

  run_check.py C08                 run the check ( VERIF_TIER, VERIF_SEED from the environment )
  run_check.py C08 --replay FILE   run the one recorded case again
  run_check.py --build             build every driver of the quick tier
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from targets import CHECKS, Target  # noqa: E402

BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SAN_CLANG = ["-fsanitize=address,undefined", "-fno-sanitize=null,pointer-overflow,object-size", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
SAN_GCC = ["-fsanitize=address,undefined", "-fno-sanitize=null,pointer-overflow,object-size", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
PROFILES = {
    "asan":   (["clang++", "-O0", "-g1"] + SAN_CLANG),
    "asanO1": (["clang++", "-O1", "-g1"] + SAN_CLANG),
    "asanO2": (["clang++", "-O2", "-g1", "-DNDEBUG"] + SAN_CLANG),
    "gcc":    (["g++", "-O1", "-g1"] + SAN_GCC),
    "tsan":   (["clang++", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    "msan":   (["clang++", "-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer"]),
    "plain":  (["clang++", "-O0", "-g1", "-rdynamic"]),
    "plainO2": (["clang++", "-O2", "-g1", "-rdynamic"]),
    "plaingcc": (["g++", "-O2", "-g1", "-rdynamic"]),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=64:malloc_context_size=12:detect_odr_violation=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
           MSAN_OPTIONS="exitcode=66")
CONFIG_H = """#pragma once
#define LVARRAY_VERSION_MAJOR 0
#define LVARRAY_VERSION_MINOR 2
#define LVARRAY_VERSION_PATCHLEVEL 1
%s
"""
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "shim"), os.path.join(HERE, "harness")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class Builder:
    def __init__(self):
        self.dir = os.path.join(BUILD, tree_hash())
        os.makedirs(self.dir, exist_ok=True)
        for d in os.listdir(BUILD):  # forget older trees
            p = os.path.join(BUILD, d)
            if p != self.dir and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 7200:
                shutil.rmtree(p, ignore_errors=True)
        for name, text in (("cfg_bounds", "#define LVARRAY_BOUNDS_CHECK"), ("cfg_plain", "")):
            d = os.path.join(self.dir, name)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "LvArrayConfig.hpp.tmp%d" % os.getpid()), "w") as f:
                f.write(CONFIG_H % text)
            os.replace(f.name, os.path.join(d, "LvArrayConfig.hpp"))

    def flags(self, t):
        cfg = "cfg_bounds" if t.bounds else "cfg_plain"
        # Cheap function pointers: the drivers are large and only assertions about behaviour matter.
        return PROFILES[t.profile] + ["-std=" + t.std, "-w", "-I" + os.path.join(self.dir, cfg), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "shim"),
                                      "-I" + os.path.join(HERE, "harness")] + list(t.defs)

    def run(self, cmd, out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return r.stdout[-6000:]
        os.replace(tmp, out)
        return None

    def obj(self, t, src, tag):
        key = hashlib.sha256(repr((self.flags(t), src)).encode()).hexdigest()[:12]
        return os.path.join(self.dir, "%s-%s.o" % (tag, key))

    def exe(self, t):
        key = hashlib.sha256(repr((self.flags(t), t.src, t.libs, t.more)).encode()).hexdigest()[:12]
        return os.path.join(self.dir, "%s-%s" % (os.path.splitext(t.src)[0], key))

    def sources(self, t):
        """The sources of the library that a driver links."""
        files = [os.path.join(REPO, "src", f) for f in ("system.cpp", "umpireInterface.cpp")] + sorted(f for g in t.more for f in glob.glob(os.path.join(REPO, g)))
        return [(f, os.path.splitext(os.path.basename(f))[0]) for f in files]

    def build(self, targets):
        objs, exes = {}, {}
        for t in targets:
            for src, tag in self.sources(t):
                o = self.obj(t, src, tag)
                if not os.path.exists(o):
                    objs[o] = self.flags(t) + ["-c", src]
            src = os.path.join(HERE, "harness", t.src)
            o = self.obj(t, src, os.path.splitext(t.src)[0])
            e = self.exe(t)
            if not os.path.exists(e):
                if not os.path.exists(o):
                    objs[o] = self.flags(t) + ["-c", src]
                exes[e] = self.flags(t) + [o] + [self.obj(t, s, tag) for s, tag in self.sources(t)] + ["-lpthread", "-ldl"] + list(t.libs)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # the big translation units first
            order = sorted(objs, key=lambda o: not os.path.basename(o).startswith("d_"))
            for o, err in zip(order, ex.map(lambda o: self.run(objs[o], o), order)):
                if err:
                    raise RuntimeError("building %s failed:\n%s" % (o, err))
            for e, err in zip(list(exes), ex.map(lambda e: self.run(exes[e], e), list(exes))):
                if err:
                    raise RuntimeError("linking %s failed:\n%s" % (e, err))


def crash_key(rc, err):
    m = re.search(r"ERROR: (?:AddressSanitizer|ThreadSanitizer|MemorySanitizer|LeakSanitizer): ([A-Za-z-]+)", err)
    if m:
        return "crash:asan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m:
        return "crash:tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"WARNING: MemorySanitizer: ([a-z-]+)", err)
    if m:
        return "crash:msan:" + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,70})", err)
    if m:
        return "crash:ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).strip()
    if "LVARRAY-ERROR outside of a case" in err:
        return "crash:error-outside-case"
    if rc == 97 or "HARNESS-HANG" in err:
        return "hang"
    if rc < 0:
        try:
            return "crash:" + signal.Signals(-rc).name
        except ValueError:
            return "crash:signal%d" % -rc
    return "crash:exit%d" % rc


def crash_msg(err):
    lines = err.splitlines()
    for i, l in enumerate(lines):
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "WARNING: MemorySanitizer" in l:
            keep = [l] + [x for x in lines[i + 1:i + 40] if re.match(r"\s+#\d+ ", x)][:14]
            return "\n".join(keep)[:3000]
    return "\n".join(lines[-25:])[:3000]


class Shard:
    """One process working through every stride-th case of a target, restarted behind a crash."""
    def __init__(self, prop, exe, t, count, seed, start, stride, tier, tmp, name):
        self.__dict__.update(locals())
        self.summaries, self.violations, self.notes = [], [], []

    def once(self, args, limit):
        out = os.path.join(self.tmp, self.name + ".out")
        err = os.path.join(self.tmp, self.name + ".err")
        for p in (out, err):
            if os.path.exists(p):
                os.remove(p)
        with open(err, "wb") as fe:
            p = subprocess.Popen([self.exe, "--seed", str(self.seed), "--out", out] + (["--thorough"] if self.tier == "thorough" else []) + args,
                                 stdout=subprocess.DEVNULL, stderr=fe, env=ENV, cwd=self.tmp, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
        recs = []
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        pass
        with open(err, errors="replace") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200000))
            text = f.read()
        return rc, recs, text

    def run(self):
        start = self.start
        crashes = 0
        while start < self.count:
            status = os.path.join(self.tmp, self.name + ".status")
            if os.path.exists(status):
                os.remove(status)
            rc, recs, err = self.once(["--count", str(self.count), "--start", str(start), "--stride", str(self.stride), "--filter", self.t.filter, "--status", status,
                                       "--hang", str(self.t.hang)], self.t.limit if self.tier == "quick" else self.t.limit * 6)
            done = [r for r in recs if r["type"] == "summary"]
            self.violations += [dict(r, exe=self.t.key()) for r in recs if r["type"] == "violation"]
            self.summaries += done
            if done:
                break
            try:
                with open(status) as f:
                    idx, cseed, cname = f.read().split()[:3]
            except (OSError, ValueError):
                # The process broke down so badly that it does not say where: believed if it does so again.
                bad = lambda rc, err: rc is not None and (rc < 0 and rc != -signal.SIGKILL or "ERROR: AddressSanitizer" in err or "runtime error:" in err)
                if bad(rc, err):
                    rc2, recs2, err2 = self.once(["--count", str(self.count), "--start", str(start), "--stride", str(self.stride), "--filter", self.t.filter, "--hang", str(self.t.hang)], self.t.limit)
                    if bad(rc2, err2):
                        self.violations.append({"type": "violation", "case": "(unknown)", "seed": self.seed, "key": crash_key(rc2, err2), "msg": crash_msg(err2), "trace": [], "exe": self.t.key(),
                                                "reproduced_alone": True, "args": ["--count", str(self.count), "--start", str(start), "--stride", str(self.stride), "--filter", self.t.filter, "--seed", str(self.seed)]})
                        break
                raise RuntimeError("%s gave no result (rc %s): %s" % (self.t.key(), rc, err[-2000:]))
            if rc is None:
                self.notes.append("shard %s stopped at its time limit at case %s" % (self.name, idx))
                break
            # A crash or a hang: run that one case by itself to confirm it.
            key, msg = crash_key(rc, err), crash_msg(err)
            rc2, recs2, err2 = self.once(["--case", cname, "--case-seed", cseed, "--start", idx, "--hang", str(self.t.hang * 2)], self.t.hang * 2 + 60)
            again = rc2 is not None and not any(r["type"] == "summary" for r in recs2)
            if key in ("hang", "crash:SIGKILL") and not again:  # too slow, or out of memory
                self.notes.append("case %s seed %s: %s once, passed when run alone" % (cname, cseed, key))
            else:
                if again:
                    key, msg = crash_key(rc2, err2), crash_msg(err2)
                self.violations.append({"type": "violation", "case": cname, "seed": int(cseed), "key": key, "msg": msg, "trace": [], "exe": self.t.key(),
                                        "reproduced_alone": again})
                crashes += 4 if key == "hang" else 1  # hangs cost time: one that is confirmed is enough
            if crashes >= 4:
                break
            start = int(idx) + self.stride
        return self


def load_known():
    known, fixed = [], []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) case=(\S+) key=(\S+) (.*)", line)
                if m:
                    known.append({"property": m.group(1), "case": m.group(2), "key": m.group(3), "what": m.group(4)})
                elif line.startswith("fixed:"):
                    fixed.append(line)
    return known, fixed


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    args = sys.argv[1:]
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if args and args[0] == "--build":
        ts = {}
        for c in CHECKS.values():
            for t in c["targets"]:
                if t.quick > 0:
                    ts[t.key()] = t
        b = Builder(); b.build(list(ts.values()))
        log("built", len(ts), "drivers")
        return 0
    prop = args[0]
    check = CHECKS[prop]
    builder = Builder()
    if len(args) > 2 and args[1] == "--replay":
        with open(args[2]) as f:
            rec = json.load(f)
        t = [t for t in check["targets"] if t.key() == rec["exe"]][0]
        builder.build([t])
        r = subprocess.run([builder.exe(t)] + (rec.get("args") or ["--case", rec["case"], "--case-seed", str(rec["seed"])]) + ["--out", "/dev/stdout"] + (["--thorough"] if rec.get("tier") == "thorough" else []), env=ENV)
        return 0 if r.returncode == 0 else 1
    targets = [t for t in check["targets"] if (t.quick if tier == "quick" else t.thorough) > 0]
    builder.build(targets)
    tbuild = time.time() - T0
    log("built", len(targets), "drivers")
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        shards = []
        total = sum((t.quick if tier == "quick" else t.thorough) * t.cost for t in targets)
        for t in targets:
            n = t.quick if tier == "quick" else t.thorough
            k = max(1, min(JOBS, round(2 * JOBS * n * t.cost / total))) if not t.solo else 1
            k = min(k, n)
            for s in range(k):
                shards.append(Shard(prop, builder.exe(t), t, n, seed, s, k, tier, tmp, "%s-%d" % (hashlib.sha256((t.key() + t.filter).encode()).hexdigest()[:10], s)))
        with cf.ThreadPoolExecutor(JOBS if not any(t.threads > 1 for t in targets) else max(1, JOBS // 2)) as ex:
            list(ex.map(lambda s: s.run(), shards))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # ------------------------------------------------------------------------------ verdict
    known, _ = load_known()
    known = [k for k in known if k["property"] == prop]
    hit, fresh, notes = {}, [], []
    evaluations = ops = oracle = 0
    events, per_case, hashes, samples, per_exe = {}, {}, set(), [], {}
    for s in shards:
        notes += s.notes
        for v in s.violations:
            k = [i for i, k in enumerate(known) if re.fullmatch(k["case"], v["case"]) and re.fullmatch(k["key"], v["key"])]
            if k:
                hit[k[0]] = v
            else:
                fresh.append(v)
        for m in s.summaries:
            evaluations += m["evaluations"]; ops += m["ops"]; oracle += m["checks"]
            for a, n in m["events"].items():
                events[a] = events.get(a, 0) + n
            for a, n in m["cases"].items():
                per_case[a] = per_case.get(a, 0) + n
            pe = per_exe.setdefault(s.t.key(), {"evaluations": 0, "operations": 0, "oracle_comparisons": 0})
            pe["evaluations"] += m["evaluations"]; pe["operations"] += m["ops"]; pe["oracle_comparisons"] += m["checks"]
            hashes.update(h + s.t.src for h in m["hashes"])
            if m["sample"] and len(samples) < 6 and m["sample"]["case"] not in [x["case"] for x in samples]:
                samples.append(m["sample"])
    if evaluations == 0 and not fresh:
        raise RuntimeError("no case was evaluated: " + "; ".join(notes))
    os.makedirs(EVID, exist_ok=True)
    replay = None
    if fresh:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        fresh.sort(key=lambda v: len(v.get("trace", [])) or 999)
        replay = os.path.join("evidence", "replay", "%s.json" % prop)
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump(dict(fresh[0], property=prop, tier=tier, how="python3 run_check.py %s --replay %s" % (prop, replay), others=fresh[1:20]), f, indent=1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": check["rule"],
            "samples": samples or [{"note": "no sample: every case failed"}],
            "operations_on_the_code": ops,
            "oracle_comparisons": oracle,
            "observed_events": events,
            "per_driver": per_exe,
            "cases_run": per_case,
        },
        "assumptions": check["assumptions"],
        "wall_s": round(time.time() - T0, 2),
        "build_s": round(tbuild, 2),
        "violations": len(fresh),
        "known_findings_seen": [known[i]["what"] for i in hit],
        "notes": notes,
    }
    tmpf = os.path.join(EVID, prop + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(EVID, prop + ".json"))
    for i in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    if fresh:
        for v in fresh[:6]:
            log("violation", v["exe"], v["case"], v["seed"], v["key"], v["msg"][:1500], "| history:", "; ".join(v.get("trace", [])[-12:]))
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1
    print("%s: held on %d cases (%d distinct non-trivial), %d operations, %d oracle comparisons, %.1f s" % (prop, evaluations, len(hashes), ops, oracle, time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # no verdict
        print("CHECK-ERROR:", e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
