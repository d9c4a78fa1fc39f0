#!/usr/bin/env python3
"""Runs one property check:  run.py <PROPERTY> quick|thorough
   Replays a failure:        run.py <PROPERTY> replay <file>

Compiles the harnesses of the property against /repo's current headers, generates cases,
shrinks failures, writes /verif/evidence/<id>.json.  Exit 0: held on everything explored;
exit 1 with a VIOLATION line otherwise."""
import concurrent.futures as cf
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
sys.path.insert(0, os.path.join(VERIF, "checks"))
from table import CHECKS  # noqa: E402

# address + the part of undefined that is cheap to compile; alignment and bitwise relocation are
# checked by the element types themselves.  Passing null with length 0 to memcpy and friends is not
# a behavioural difference any property here talks about, so those checks stay off.
SAN = ["-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bounds,bool,enum,return,unreachable",
       "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
BASE = ["-g1", "-w", "-DPBT_HARNESS=1", "-I" + os.path.join(VERIF, "engine"), "-I" + INC, "-pthread"]


def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -999, out or ""


class Harness:
    def __init__(self, spec, bdir):
        self.name = spec["name"]
        self.srcs = [os.path.join(VERIF, "checks", x) for x in spec["src"]]
        self.std = spec.get("std", "c++17")
        self.flags = spec.get("flags", [])
        self.opt = spec.get("opt", "-O0")
        self.san = spec.get("san", "asan")
        self.scale = spec.get("scale", 1.0)
        self.fuzz = spec.get("fuzz", True)
        self.link = spec.get("link", [])
        self.optional = spec.get("optional", False)
        self.cxx = spec.get("cxx", "g++")
        self.bdir = bdir
        self.bin = os.path.join(bdir, self.name)
        self.fuzzbin = self.bin + ".fuzz"

    def sanflags(self):
        return {"asan": SAN, "tsan": TSAN, "none": []}[self.san]

    def jobs(self):
        """compile jobs: (object, command)"""
        out = []
        for i, s in enumerate(self.srcs):
            o = "%s.%d.o" % (self.bin, i)
            out.append((o, [self.cxx, "-std=" + self.std, self.opt] + BASE + self.sanflags() + self.flags + ["-c", s, "-o", o]))
        return out


def driver_job(bdir, san):
    o = os.path.join(bdir, "driver.%s.o" % san)
    d = {"asan": ["-DPBT_ASAN=1"], "tsan": TSAN, "none": []}[san]
    return o, ["g++", "-std=c++17", "-O1", "-w", "-pthread"] + d + ["-c", os.path.join(VERIF, "engine", "driver.cpp"), "-o", o]


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    outdir = os.path.join(VERIF, ".out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix="build-%s-" % prop, dir=outdir)
    try:
        return run(prop, mode, spec, seed, t0, bdir, outdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def violation(prop, outdir, data):
    body = json.dumps(data, indent=1)
    path = os.path.join(outdir, "replay-%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body)
    print("--- %s: %s" % (prop, data.get("message", "")[:1500]))
    if data.get("trace"):
        print("--- minimal case (%s / %s):\n%s" % (data.get("harness"), data.get("target"), data["trace"][:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return path


def evidence(prop, tier, seed, t0, cov, violations, spec):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def build(harnesses, bdir):
    """returns (None | (harness name, command, compiler output))"""
    jobs, owner = [], {}
    for san in sorted({h.san for h in harnesses}):
        jobs.append(driver_job(bdir, san))
    for h in harnesses:
        for j in h.jobs():
            jobs.append(j)
            owner[j[0]] = h
    def one(j):
        rc, out = sh(j[1], timeout=400)
        if rc != 0:
            rc, out = sh(j[1], timeout=400)
        return rc, out
    # longest first is unknown; the pool keeps all cores busy
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, jobs))
    for (o, cmd), (rc, out) in zip(jobs, res):
        if rc != 0:
            h = owner.get(o)
            if h is None:
                print("cannot compile the engine (toolchain problem):\n" + out[-3000:])
                sys.exit(3)
            return h, cmd, out
    def link(h):
        objs = [j[0] for j in h.jobs()] + [driver_job(bdir, h.san)[0]]
        return sh(["g++", "-std=" + h.std, "-pthread"] + h.sanflags() + objs + ["-o", h.bin] + h.link, timeout=300)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(link, harnesses))
    for h, (rc, out) in zip(harnesses, res):
        if rc != 0:
            return h, ["link", h.name], out
    return None


def fuzz_leg(prop, harnesses, seed, budget, bdir, ignore_compile=True):
    """coverage-guided leg (thorough): the same targets under libFuzzer. Returns (failure|None, stats)"""
    stats = {"executions": 0, "targets": 0, "skipped": []}
    built = []
    def b(h):
        cmd = ["clang++", "-std=" + h.std, "-DPBT_LIBFUZZER", "-O1"] + BASE + ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
               "-fno-sanitize=pointer-overflow,nonnull-attribute,returns-nonnull-attribute,vptr,function,nullability"] + h.flags + \
              [os.path.join(VERIF, "engine", "driver.cpp")] + h.srcs + ["-o", h.fuzzbin] + h.link
        return sh(cmd, timeout=400)
    hs = [h for h in harnesses if h.fuzz and h.san == "asan"]
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for h, (rc, out) in zip(hs, ex.map(b, hs)):
            if rc == 0:
                built.append(h)
            else:
                stats["skipped"].append("%s: does not build with clang/libFuzzer" % h.name)
    work = []
    for h in built:
        rc, out = sh([h.bin, "list"])
        for line in out.splitlines():
            n, q, fl = line.split()
            if int(fl) & 2:
                continue
            work.append((h, n))
    if not work:
        return None, stats
    par = os.cpu_count() or 4
    rounds = (len(work) + par - 1) // par
    each = max(8, int(budget / rounds))
    found = []
    def f(w):
        h, n = w
        if found:
            return None
        d = tempfile.mkdtemp(prefix="fz-", dir=bdir)
        corpus = os.path.join(d, "c")
        os.mkdir(corpus)
        env = dict(os.environ, PBT_FUZZ_TARGET=n,
                   ASAN_OPTIONS="detect_leaks=0:symbolize=0:allocator_may_return_null=0:max_allocation_size_mb=512:quarantine_size_mb=32")
        rc, out = sh([h.fuzzbin, corpus, "-max_total_time=%d" % each, "-seed=%d" % (seed or 1), "-max_len=2048", "-len_control=20",
                      "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + d + "/art-", "-print_final_stats=1", "-verbosity=1"],
                     timeout=each + 200, env=env, cwd=d)
        ex = 0
        for line in out.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                ex = int(line.split(":")[-1])
        arts = [x for x in os.listdir(d) if x.startswith("art-") and not x.startswith(("art-oom", "art-slow"))]
        if arts:
            res = os.path.join(d, "res.json")
            rc, o2 = sh([h.bin, "bytes=" + os.path.join(d, arts[0]), "target=" + n, "out=" + res], timeout=300)
            if rc == 1 and os.path.exists(res):
                r = json.load(open(res))
                ok = all(sh([h.bin, "replay", "target=" + n, "choices=" + ",".join(map(str, r["choices"]))], timeout=120)[0] == 1 for _ in range(3))
                if ok:
                    r["harness"] = h.name
                    r["found_by"] = "libFuzzer"
                    found.append(r)
        return ex
    with cf.ThreadPoolExecutor(max_workers=par) as exr:
        for w, ex in zip(work, exr.map(f, work)):
            if ex is not None:
                stats["executions"] += ex
                stats["targets"] += 1
    return (found[0] if found else None), stats


def run_script(prop, mode, spec, seed, t0, bdir, outdir):
    """a property whose cases are not function calls but whole programs"""
    import importlib
    mod = importlib.import_module(spec["script"])
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "labels": {}, "targets": {}}
    if mode == "replay":
        path = sys.argv[3]
        f = mod.main(prop, mode, spec, seed, bdir, INC, json.load(open(path)), None, cov)
        if f:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if f else 0
    f = mod.main(prop, mode, spec, seed, bdir, INC, None, None, cov)
    if f:
        violation(prop, outdir, f)
    evidence(prop, mode, seed, t0, cov, 1 if f else 0, spec)
    print("%s %s: %s evaluations, %s distinct non-trivial, %d violation(s), %.1fs" % (prop, mode, cov["evaluations"], cov["distinct_nontrivial"], 1 if f else 0, time.time() - t0))
    return 1 if f else 0


def run(prop, mode, spec, seed, t0, bdir, outdir):
    if "script" in spec:
        return run_script(prop, mode, spec, seed, t0, bdir, outdir)
    harnesses = [Harness(x, bdir) for x in spec["harnesses"]]
    if mode == "replay":
        return replay(prop, harnesses, bdir, sys.argv[3])
    tier = mode
    thorough = tier == "thorough"
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "nontrivial": 0,
           "labels": {}, "targets": {}, "compile_s": 0.0}
    nviol = 0
    err = build(harnesses, bdir)
    cov["compile_s"] = round(time.time() - t0, 2)
    if err:
        h, cmd, out = err
        lines = [l for l in out.splitlines() if "error" in l][:8]
        violation(prop, outdir, {"property": prop, "harness": h.name, "kind": "compile",
                                 "message": "code using the documented interface no longer compiles: " + " / ".join(lines)[:1500],
                                 "command": " ".join(cmd), "output": out[-6000:]})
        evidence(prop, tier, seed, t0, dict(cov, samples=["harness %s failed to compile" % h.name]), 1, spec)
        return 1
    total_wall = 420.0 if thorough else 240.0
    tgen = time.time()
    failure = None
    for i, h in enumerate(harnesses):
        left = total_wall - (time.time() - tgen)
        wall = max(8.0, left / (len(harnesses) - i) * (1.5 if i + 1 < len(harnesses) else 1.0))
        res = os.path.join(bdir, h.name + ".json")
        scale = h.scale * (spec.get("thorough_scale", 25.0) if thorough else 1.0)
        env = dict(os.environ)
        env.pop("ASAN_OPTIONS", None)
        env.pop("UBSAN_OPTIONS", None)
        if h.san == "tsan":
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=0:symbolize=1"
        rc, out = sh([h.bin, "seed=%d" % seed, "scale=%f" % scale, "wall=%f" % wall, "out=" + res], timeout=wall + 420, env=env)
        if rc != 0 or not os.path.exists(res):
            print("driver of harness %s ended with %s\n%s" % (h.name, rc, out[-3000:]))
            # the driver process never runs code under test itself
            continue
        r = json.load(open(res))
        cov["evaluations"] += r["evaluations"]
        cov["nontrivial"] += r["nontrivial"]
        cov["distinct_nontrivial"] += r["distinct_nontrivial"]
        for k, v in r["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        for t in r["targets"]:
            cov["targets"]["%s/%s" % (h.name, t["name"])] = {"cases": t["cases"], "nontrivial": t["nontrivial"], "wall_s": round(t["wall_s"], 2)}
        cov["samples"] += r["samples"][:4]
        if r.get("truncated"):
            cov["truncated_by_wall_budget"] = True
        f = r["failure"]
        if f:
            if f["reproduced"] >= 2 or (f["reproduced"] >= 1 and "deadlock" in f["message"]):
                f.update({"property": prop, "harness": h.name, "kind": "case", "seed": seed, "tier": tier})
                failure = f
                break
            print("note: %s/%s case %s failed once and did not reproduce (%s): not reported" % (h.name, f["target"], f["case"], f["message"][:300]))
            cov.setdefault("unreproduced", []).append("%s/%s: %s" % (h.name, f["target"], f["message"][:200]))
    if not failure and thorough and spec.get("fuzz", True):
        f, st = fuzz_leg(prop, harnesses, seed, spec.get("fuzz_budget", 160), bdir)
        cov["coverage_guided"] = st
        cov["evaluations"] += st["executions"]
        if f:
            f.update({"property": prop, "kind": "case", "seed": seed, "tier": tier})
            failure = f
    if failure:
        nviol = 1
        violation(prop, outdir, failure)
        if not cov["samples"]:
            cov["samples"] = [failure.get("trace") or failure["message"]]
    if not cov["samples"]:
        cov["samples"] = ["(no non-trivial case sampled)"]
    evidence(prop, tier, seed, t0, cov, nviol, spec)
    print("%s %s: %s evaluations, %s distinct non-trivial, %d violation(s), %.1fs" % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], nviol, time.time() - t0))
    return 1 if nviol else 0


def replay(prop, harnesses, bdir, path):
    d = json.load(open(path))
    hs = [h for h in harnesses if h.name == d["harness"]]
    err = build(hs, bdir)
    if err:
        print(err[2][-4000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if d.get("kind") == "compile":
        print("compiles now")
        return 0
    h = hs[0]
    if d.get("sequence"):
        rc, out = sh([h.bin, "sequence=" + ",".join(map(str, d["sequence"])), "target=" + d["target"]])
    else:
        rc, out = sh([h.bin, "replay", "target=" + d["target"], "choices=" + ",".join(map(str, d["choices"]))])
    print(out)
    if rc != 0:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if rc else 0


if __name__ == "__main__":
    sys.exit(main())
