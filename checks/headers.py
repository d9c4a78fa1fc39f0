"""P31: generated programs out of the headers.

A case is a program: a compiler, a standard, macros, an optimization level and 1-3 translation units, each a list of includes
(any order, repeated) followed by functions from snippets.py whose headers are among the includes.  It must compile, link and give the
expected results.  Half of the programs see a folder in which there is nothing but the headers they name (a library is documented to be
one file which can be copied).  A grid (every header alone, copied, and twice, in every standard it supports, with both compilers) and programs of two units with
everything are always checked as well.  Failures are shrunk by removing units, includes, functions and macros."""
import concurrent.futures as cf
import hashlib, json, os, random, subprocess, tempfile, time, shutil
from snippets import M, S, C

STDS = [11, 14, 17, 20]
CCS = ["g++", "clang++"]
MACROS = ["NDEBUG", "ITLIB_SPAN_NO_DEBUG_BOUNDS_CHECK", "ITLIB_STRIDE_SPAN_NO_DEBUG_BOUNDS_CHECK", "ITLIB_POLY_SPAN_NO_DEBUG_BOUNDS_CHECK",
          "ITLIB_MEMORY_VIEW_NO_DEBUG_BOUNDS_CHECK", "ITLIB_SMALL_VECTOR_NO_DEBUG_BOUNDS_CHECK", "ITLIB_STATIC_VECTOR_NO_DEBUG_BOUNDS_CHECK",
          "ITLIB_SMALL_VECTOR_ERROR_HANDLING=0", "ITLIB_SMALL_VECTOR_ERROR_HANDLING=1", "ITLIB_SMALL_VECTOR_ERROR_HANDLING=2",
          "ITLIB_SMALL_VECTOR_ERROR_HANDLING=3", "ITLIB_STATIC_VECTOR_ERROR_HANDLING=0", "ITLIB_STATIC_VECTOR_ERROR_HANDLING=1",
          "ITLIB_STATIC_VECTOR_ERROR_HANDLING=2", "ITLIB_STATIC_VECTOR_ERROR_HANDLING=3", "ITLIB_FLAT_MAP_NO_THROW", "ITLIB_RSTREAM_OVERLOAD_RSHIFT=1", "_GLIBCXX_ASSERTIONS"]


def snippets():
    """id -> (headers, std, expected, body)"""
    out = {}
    for h, l in S.items():
        for i, e in enumerate(l):
            out["%s/%d" % (h, i)] = ([h], e[0], e[1], e[2], e[3] if len(e) > 3 else None)
    for i, (hs, std, exp, body) in enumerate(C):
        out["+%s/%d" % ("+".join(hs), i)] = (hs, std, exp, body, None)
    return out


SN = snippets()


def render_tu(tu, n):
    src = "".join("#include <itlib/%s.hpp>\n" % h for h in tu["inc"])
    fns = ""
    calls = ""
    for k, sid in enumerate(tu["fn"]):
        body = SN[sid][3]
        while body.startswith("#"):
            x, body = body[1:].split(";", 1)
            src += "#include <%s>\n" % x
        fns += "static int f%d() { %s }\n" % (k, body)
        calls += "    out[%d] = f%d();\n" % (k, k)
    src += fns
    src += "void tu%d(int* out) {\n    (void)out;\n%s}\n" % (n, calls)
    return src


def render(p):
    srcs = [render_tu(t, i) for i, t in enumerate(p["tus"])]
    m = "#include <stdio.h>\n"
    for i in range(len(srcs)):
        m += "void tu%d(int*);\n" % i
    m += "int main() {\n    int o[200];\n"
    for i, t in enumerate(p["tus"]):
        m += "    tu%d(o);\n" % i
        for k in range(len(t["fn"])):
            m += "    printf(\"%%d\\n\", o[%d]);\n" % k
    m += "}\n"
    srcs[0] += m
    return srcs


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, "timeout"


def flags(p, inc):
    return ["-std=c++%d" % p["std"], "-O%d" % p["opt"], "-w", "-pthread", "-I" + inc] + ["-D" + m for m in p["macros"]]


def once(p, inc, bdir):
    """None or (kind, text)"""
    d = tempfile.mkdtemp(prefix="p-", dir=bdir)
    try:
        if p.get("copied"):  # somewhere where there is nothing but what the program names
            os.makedirs(os.path.join(d, "only", "itlib"))
            for h in sorted({h for t in p["tus"] for h in t["inc"]}):
                shutil.copy(os.path.join(inc, "itlib", h + ".hpp"), os.path.join(d, "only", "itlib"))
            inc = os.path.join(d, "only")
        objs = []
        for i, s in enumerate(render(p)):
            f = os.path.join(d, "tu%d.cpp" % i)
            with open(f, "w") as o:
                o.write(s)
            if p.get("syntax"):
                rc, out = sh([p["cc"]] + flags(p, inc) + ["-fsyntax-only", f], 300)
                if rc:
                    return "does not compile", out
                continue
            rc, out = sh([p["cc"]] + flags(p, inc) + ["-c", f, "-o", f + ".o"], 300)
            if rc:
                return "does not compile", out
            objs.append(f + ".o")
        if p.get("syntax"):
            return None
        rc, out = sh([p["cc"], "-pthread"] + objs + ["-o", os.path.join(d, "prog")], 300)
        if rc:
            return "does not link", out
        rc, out = sh([os.path.join(d, "prog")], 60)
        exp = [SN[f][2] for t in p["tus"] for f in t["fn"]]
        ids = [f for t in p["tus"] for f in t["fn"]]
        if rc:
            return "crashes", "exit %s\n%s" % (rc, out)
        got = [int(x) for x in out.split()]
        if got != exp:
            return "gives other results", "\n".join("%s: %s instead of %s" % (i, g, e) for i, g, e in zip(ids, got, exp) if g != e)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fails(p, inc, bdir):
    r = once(p, inc, bdir)
    if r:
        r2 = once(p, inc, bdir)  # a toolchain hiccup is not a violation
        return r2
    return None


def headers(inc):
    return sorted(x[:-4] for x in os.listdir(os.path.join(inc, "itlib")) if x.endswith(".hpp"))


def ok_std(h, std):
    if h in S:
        return std >= M.get(h, 11)
    return std >= 20  # a header added later: its first standard is not known here


def gen(rng, hs):
    std = rng.choice(STDS)
    av = [h for h in hs if ok_std(h, std)]
    p = {"cc": rng.choice(CCS), "std": std, "opt": rng.choice([0, 0, 0, 1, 2]), "macros": [], "tus": [], "copied": rng.random() < 0.5}
    if rng.random() < 0.5:
        ms = rng.sample(MACROS, rng.randint(1, 4))
        seen = set()
        p["macros"] = [m for m in ms if not (m.split("=")[0] in seen or seen.add(m.split("=")[0]))]
    usable = [s for s in SN if SN[s][1] <= std and all(h in av for h in SN[s][0]) and SN[s][4] not in p["macros"]]
    for _ in range(rng.choice([1, 2, 2, 2, 3])):
        mode = rng.random()
        inc = []
        if mode < 0.25 and any(s.startswith("+") for s in usable):  # exactly what a combination needs
            s = rng.choice([s for s in usable if s.startswith("+")])
            inc = list(SN[s][0])
        elif mode < 0.9:
            inc = rng.sample(av, min(len(av), rng.choice([1, 2, 3, 4, 6, 9])))
        else:
            inc = list(av)
        rng.shuffle(inc)
        for _ in range(rng.choice([0, 0, 1, 3])):
            inc.insert(rng.randint(0, len(inc)), rng.choice(inc))
        can = [s for s in usable if all(h in inc for h in SN[s][0])]
        rng.shuffle(can)
        p["tus"].append({"inc": inc, "fn": can[:rng.choice([2, 5, 10])]})
    return p


def grid(hs):
    out = []
    for h in hs:
        for std in STDS:
            if not ok_std(h, std):
                continue
            fn = [s for s in SN if SN[s][0] == [h] and SN[s][1] <= std]
            for cc in CCS:
                for inc in ([h], [h, h]):
                    if len(inc) == 2 and std not in (11, 20) and ok_std(h, 11):
                        continue
                    # alone: with its functions, so that what the templates need is there too
                    out.append({"cc": cc, "std": std, "opt": 0, "macros": [], "syntax": len(inc) == 2 or std in (14, 17), "copied": len(inc) == 1, "tus": [{"inc": inc, "fn": fn}]})
        for m in MACROS:
            std = M.get(h, 11) if h in S else 20
            fn = [s for s in SN if SN[s][0] == [h] and SN[s][1] <= std and SN[s][4] != m]
            out.append({"cc": CCS[len(out) // 3 % 2], "std": std, "opt": 0, "macros": [m], "syntax": True, "tus": [{"inc": [h], "fn": fn}]})
    for std in STDS:  # everything, in two units and opposite orders
        av = [h for h in hs if ok_std(h, std)]
        fn = [s for s in SN if SN[s][1] <= std and all(h in av for h in SN[s][0])]
        for cc in CCS:
            out.append({"cc": cc, "std": std, "opt": 0, "macros": [], "tus": [{"inc": av, "fn": fn}, {"inc": av[::-1], "fn": fn}]})
            if std in (11, 20):
                for m in MACROS[:1]:
                    out.append({"cc": cc, "std": std, "opt": 2, "macros": [m], "tus": [{"inc": av, "fn": fn}, {"inc": av[::-1], "fn": fn}]})
    return out


def pairs(hs):
    """every ordered pair, thorough only"""
    out = []
    for a in hs:
        for b in hs:
            if a != b:
                std = max(M.get(a, 11), M.get(b, 11)) if a in S and b in S else 20
                fn = [s for s in SN if SN[s][1] <= std and all(h in (a, b) for h in SN[s][0])]
                out.append({"cc": CCS[(len(out) // 7) % 2], "std": std, "opt": 0, "macros": [], "syntax": True, "tus": [{"inc": [a, b], "fn": fn}]})
    return out


def nontrivial(p):
    """more than one header or unit, or functions which use the header"""
    return len({h for t in p["tus"] for h in t["inc"]}) > 1 or len(p["tus"]) > 1 or any(t["fn"] for t in p["tus"])


def shrink(p, inc, bdir, budget):
    t0 = time.time()
    best = json.loads(json.dumps(p))
    progress = True

    def attempt(q):
        nonlocal best
        if time.time() - t0 > budget or not q["tus"]:
            return False
        if once(q, inc, bdir):
            best = q
            return True
        return False

    def cp():
        return json.loads(json.dumps(best))
    while progress and time.time() - t0 < budget:
        progress = False
        i = 0
        while i < len(best["tus"]) and len(best["tus"]) > 1:
            q = cp()
            del q["tus"][i]
            if attempt(q):
                progress = True
            else:
                i += 1
        for key in ("fn", "inc"):
            for t in range(len(best["tus"])):
                n = len(best["tus"][t][key])
                chunk = max(1, n // 2)
                while chunk >= 1:
                    i = 0
                    while i < len(best["tus"][t][key]):
                        q = cp()
                        cut = q["tus"][t][key][i:i + chunk]
                        del q["tus"][t][key][i:i + chunk]
                        left = q["tus"][t]["inc"]
                        # functions which lost their headers go too
                        q["tus"][t]["fn"] = [f for f in q["tus"][t]["fn"] if all(h in left for h in SN[f][0])]
                        if cut and attempt(q):
                            progress = True
                        else:
                            i += chunk
                    chunk //= 2
        for m in list(best["macros"]):
            q = cp()
            q["macros"].remove(m)
            progress = attempt(q) or progress
        if best.get("copied"):
            q = cp()
            q["copied"] = False
            progress = attempt(q) or progress
        if best["opt"]:
            q = cp()
            q["opt"] = 0
            progress = attempt(q) or progress
    return best


def brief(p):
    return "%s -std=c++%d -O%d %s %s| %s" % (p["cc"], p["std"], p["opt"], " ".join("-D" + m for m in p["macros"]), "(only these headers) " if p.get("copied") else "",
                                          " || ".join("includes %s; calls %s" % (" ".join(t["inc"]), " ".join(t["fn"])) for t in p["tus"]))


def main(prop, mode, spec, seed, bdir, inc, arg, report, cov):
    """returns failure dict or None; for replay, arg is the replay data"""
    if mode == "replay":
        r = once(arg["program"], inc, bdir)
        if r:
            print("%s\n%s" % (r[0], r[1][:3000]))
        return {"x": 1} if r else None
    thorough = mode == "thorough"
    hs = headers(inc)
    rng = random.Random(seed * 1000003 + 31)
    work = [("grid", p) for p in grid(hs)]
    if thorough:
        work += [("pairs", p) for p in pairs(hs)]
    work += [("random", gen(rng, hs)) for _ in range(1500 if thorough else 70)]
    # cheap and most likely to tell first
    deadline = time.time() + (600 if thorough else 240)
    counts, seen, samples = {}, set(), []
    fail = None

    def do(w):
        if fail or time.time() > deadline:
            return None, True
        return fails(w[1], inc, bdir), False
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for (kind, p), (r, skipped) in zip(work, ex.map(do, work)):
            if skipped:
                cov["truncated_by_wall_budget"] = True
                continue
            c = counts.setdefault(kind, {"cases": 0, "nontrivial": 0})
            c["cases"] += 1
            if nontrivial(p):
                c["nontrivial"] += 1
                k = hashlib.sha1(json.dumps(p, sort_keys=True).encode()).hexdigest()
                if k not in seen:
                    seen.add(k)
                    if kind == "random" and len(samples) < 8:
                        samples.append(brief(p))
            if r and not fail:
                fail = (p, r)
    cov["targets"] = counts
    cov["evaluations"] = sum(c["cases"] for c in counts.values())
    cov["nontrivial"] = sum(c["nontrivial"] for c in counts.values())
    cov["distinct_nontrivial"] = len(seen)
    cov["samples"] = samples or ([brief(fail[0])] if fail else [])
    cov["labels"] = {"headers": len(hs), "functions": len(SN)}
    if not fail:
        return None
    p = shrink(fail[0], inc, bdir, 150)
    r = once(p, inc, bdir) or fail[1]
    errs = [l for l in r[1].splitlines() if "error" in l or "undefined" in l or "multiple" in l or "instead" in l][:6]
    return {"property": prop, "harness": "headers", "kind": "program", "target": "program", "seed": seed, "tier": mode,
            "message": "program %s: %s" % (r[0], " / ".join(errs)[:1500]), "trace": brief(p), "program": p, "sources": render(p), "output": r[1][-4000:]}
