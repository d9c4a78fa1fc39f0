#!/usr/bin/env python3
"""Mutation campaign over /repo/include/itlib (a development aid; no check uses it).

  mutate.py enum OUT.json                      every mutant: header, line, old line, new line
  mutate.py tests OUT.json RES.json [N]        keep those which pass the repository's stable tests
  mutate.py checks RES.json FIN.json SECONDS   run the checks (from a copy of /verif) on the survivors

Works on copies under /tmp only."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time

INC = "/repo/include/itlib"
B = "/repo/_build"
PRIMARY = {
    "small_vector": ["P01", "P02", "P34", "P32"], "static_vector": ["P03", "P04", "P34", "P32"], "pod_vector": ["P05", "P06", "P34"],
    "flat_map": ["P07", "P34", "P32"], "flat_set": ["P08", "P34"], "dynamic_bitset": ["P09", "P34"], "expected": ["P10", "P34", "P32"],
    "any": ["P11", "P34"], "span": ["P12", "P32"], "memory_view": ["P12", "P32"], "stride_span": ["P13", "P32"], "poly_span": ["P14", "P32"],
    "mem_streambuf": ["P15", "P16", "P34"], "rstream": ["P17"], "time_t": ["P18", "P33"], "ufunction": ["P19"], "sentry": ["P20"],
    "generator": ["P21", "P32"], "atomic_shared_ptr_storage": ["P22"], "mutex": ["P23"], "data_mutex": ["P24"],
    "shared_from": ["P25"], "make_ptr": ["P25", "P34"], "qalgorithm": ["P26"], "strutil": ["P27"], "pmr_allocator": ["P28"],
    "utility": ["P29"], "type_traits": ["P29"], "atomic": ["P29"], "throw_ex": ["P29"], "transparent_umap": ["P30", "P34"], "tep_vector": ["P01", "P31"],
}


def mutate_line(l):
    """variants of a source line"""
    out = []
    code = re.sub(r'//.*', '', l)
    if not code.strip() or code.strip().startswith(("#", "static_assert", "template", "using ", "friend", "namespace", "class ", "struct ", "public:", "private:", "typedef", "typename", "assert", "*", "/*")):
        return out
    masked = re.sub(r'"[^"]*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', code)

    def sub(pat, rep):
        for m in re.finditer(pat, masked):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            out.append(code[:m.start()] + r + code[m.end():])
    istempl = "<" in masked and re.search(r'\w<|operator', masked)
    for a, bs in (("<=", ("<",)), (">=", (">",)), ("==", ("!=", )), ("!=", ("==",))):
        for b in bs:
            sub(r'(?<![<>=!])' + re.escape(a) + r'(?!=)', b)
    sub(r'(?<=\s)<(?=\s)', "<="); sub(r'(?<=\s)>(?=\s)', ">=")
    sub(r'(?<=\s)<(?=\s)', ">"); sub(r'(?<=\s)>(?=\s)', "<")
    sub(r'&&(?=\s[\w!(])', "||"); sub(r'\|\|', "&&")
    sub(r'(?<=[\w)\]] )\+(?= ?[\w(])', "-"); sub(r'(?<=[\w)\]] )-(?= ?[\w(])', "+")
    sub(r'(?<=\s)\+ 1\b', ""); sub(r'(?<=\s)- 1\b', "")
    sub(r'\+\+', "--"); sub(r'--', "++")
    sub(r'\+=', "-="); sub(r'-=', "+="); sub(r'\+=|-=', "=")
    sub(r'(?<=\s)\*(?=\s)', "/"); sub(r'(?<=\s)/(?=\s)', "*"); sub(r'(?<=\s)%(?=\s)', "/")
    sub(r'<<(?= )', ">>"); sub(r'>>(?= )', "<<"); sub(r'&=', "|="); sub(r'\|=', "="); sub(r'\|=', "&="); sub(r'\^=', "|=")
    sub(r'(?<![\w.>])0(?![\w.x])', "1"); sub(r'(?<![\w.])1(?![\w.])', "0"); sub(r'(?<![\w.])1(?![\w.])', "2")
    sub(r'\btrue\b', "false"); sub(r'\bfalse\b', "true")
    sub(r'!(?=[\w(])', "")
    sub(r'std::move\(', "("); sub(r'std::forward<[^<>]*>\(', "("); sub(r'std::forward<(?:[^<>]|<[^<>]*>)*>\(', "std::move(")
    sub(r'\bif \((.*)\)\s*(\{|[\w*:].*;)?\s*$', lambda m: m.group().replace("(" + m.group(1) + ")", "(false)", 1))
    sub(r'\bif \((.*)\)\s*(\{|[\w*:].*;)?\s*$', lambda m: m.group().replace("(" + m.group(1) + ")", "(true)", 1))
    sub(r'\bbegin\(\)', "end()"); sub(r'\bend\(\)', "begin()"); sub(r'\bsize\(\)', "capacity()"); sub(r'm_size\b(?= )', "m_size + 1")
    sub(r'\bm_begin\b', "m_end"); sub(r'\bm_end\b', "m_begin")
    sub(r'\bfirst\b', "second"); sub(r'\bmin\(', "max("); sub(r'\bmax\(', "min("); sub(r'lower_bound', "upper_bound"); sub(r'upper_bound', "lower_bound")
    sub(r'\bother\.', ""); sub(r'\bconst_(cast)', r'\1x') if False else None
    sub(r'sizeof\((T|U|char_type|value_type)\)', "1"); sub(r'\bnullptr\b(?=;)', "reinterpret_cast<decltype(nullptr)>(0)") if False else None
    sub(r'\bexplicit ', ""); sub(r'\bnoexcept\b(?! *\()', ""); sub(r' noexcept\(.*\)', "")
    sub(r'\bconst (?=\w+&)', "") if False else None
    sub(r'static_cast<(?:size_t|size_type|ptrdiff_t|difference_type|off_type|std::streamsize|std::streamoff)>', "int"); sub(r'\b(size_t|size_type|ptrdiff_t) (?=\w+ =)', "unsigned "); sub(r'\b(std::streamsize|off_type|std::streamoff) (?=\w+ =)', "int ")
    sub(r'memmove', "memcpy"); sub(r'\bunlock\(\)', "lock()") if False else None
    sub(r'\? (.*) : (.*);', r'? \2 : \1;')
    sub(r'memory_order_(acquire|release|acq_rel|seq_cst)', "memory_order_relaxed")
    s = code.strip()
    if s.endswith(";") and not re.match(r'(return|using|static |constexpr|const |auto |[\w:<>,&* ]+ \w+( = .*)?;$|break|continue|throw|goto|virtual|friend|\}|[\w:]+\(const|.*= default|.*= delete|~?\w+\(\))', s) or re.match(r'(\+\+|--)\w+;|\w+(\.|->)\w+\(.*\);|\w+\(.*\);|this->', s):
        if s.count("(") == s.count(")"):
            out.append(code[:len(code) - len(code.lstrip())] + ";")
    if re.match(r'return .*;', s) and not re.search(r'operator', s):
        if re.match(r'return [\w.\->()]+;$', s):
            out.append(code.replace("return ", "return 1 + ", 1)) if re.search(r'size|pos|count|index', s) else None
    seen, res = set([code.strip()]), []
    for o in out:
        if o is not None and o.strip() not in seen:
            seen.add(o.strip()); res.append(o.rstrip())
    return res


def enum():
    ms = []
    for h in sorted(os.listdir(INC)):
        lines = open(os.path.join(INC, h)).read().split("\n")
        skip = 0
        depth = []
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#if"):
                depth.append(bool(re.search(r'_MSC_VER|_WIN32|_WIN|EMSCRIPTEN|__clang__', s)) and not re.search(r'!\s*defined|ifndef', s))
            elif s.startswith(("#else", "#elif")) and depth:
                depth[-1] = False
            elif s.startswith("#endif") and depth:
                depth.pop()
            if any(depth):
                continue
            for m in mutate_line(l):
                ms.append({"h": h, "line": i, "old": l, "new": m})
    return ms


def tree(m, d):
    shutil.copytree("/repo/include", d + "/include")
    p = d + "/include/itlib/" + m["h"]
    lines = open(p).read().split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))


def sh(c, t):
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return -9, o


def deps():
    left = {"t-expected-11", "t-generator-20", "t-pmr_allocator-17", "t-pmr_allocator-20", "t-small_vector-11"}
    d = {}
    for t in sorted(os.listdir("/repo/test")):
        m = re.match(r'(t-.*-(\d\d))\.cpp$', t)
        if m and m.group(1) not in left:
            rc, o = sh("g++ -std=c++%s -DDOCTEST_CONFIG_USE_STD_HEADERS -I/repo/include -MM /repo/test/%s" % (m.group(2), t), 60)
            d[t] = (m.group(2), set(re.findall(r'itlib/(\w+\.hpp)', o)))
    return d


def tests(ms, n):
    D = deps()

    def one(m):
        d = tempfile.mkdtemp(prefix="m-", dir="/tmp/mut")
        try:
            tree(m, d)
            used = [(t, s) for t, (s, hs) in D.items() if m["h"] in hs]
            if not used:
                std = 20 if m["h"] in ("generator.hpp", "transparent_umap.hpp") else 17
                rc, o = sh("echo '#include <itlib/%s>' | g++ -std=c++%d -I%s/include -x c++ -fsyntax-only -" % (m["h"], std, d), 60)
                return "compile" if rc else "survived"
            for t, s in sorted(used, key=lambda x: m["h"][:-4] not in x[0]):
                rc, o = sh("g++ -std=c++%s -w -Wno-psabi -DDOCTEST_CONFIG_USE_STD_HEADERS -I%s/include /repo/test/%s -o %s/t %s/libdoctest-%s.a -pthread" % (s, d, t, d, B, s), 120)
                if rc:
                    return "compile"
                rc, o = sh("timeout 20 %s/t" % d, 30)
                if rc:
                    return "tests"
            return "survived"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    random.seed(5)
    random.shuffle(ms)
    ms = ms[:n]
    c = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for i, (m, r) in enumerate(zip(ms, ex.map(one, ms))):
            m["tests"] = r
            c[r] = c.get(r, 0) + 1
            if i % 200 == 0:
                print(i, len(ms), c, flush=True)
    print(c)
    return [m for m in ms if m["tests"] == "survived"]


def checks(ms, out, secs, par=4):
    vm = "/tmp/vm/verif"
    shutil.rmtree(vm, ignore_errors=True)
    shutil.copytree("/verif", vm, ignore=shutil.ignore_patterns(".git", ".out", "seeded", "evidence"))
    t0 = time.time()

    def one(m):
        if time.time() - t0 > secs:
            return None
        d = tempfile.mkdtemp(prefix="m-", dir="/tmp/mut")
        try:
            tree(m, d)
            res = []
            for p in PRIMARY[m["h"][:-4]]:
                rc, o = sh("cd %s && VERIF_REPO=%s VERIF_SEED=1 timeout 600 python3 run.py %s quick" % (vm, d, p), 620)
                if rc == 1:
                    return "caught " + p
                res.append("%s:%s" % (p, rc))
            return "MISSED " + " ".join(res)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    c = {}
    with cf.ThreadPoolExecutor(par) as ex:
        for i, (m, r) in enumerate(zip(ms, ex.map(one, ms))):
            if r is None:
                continue
            m["checks"] = r
            c[r.split()[0]] = c.get(r.split()[0], 0) + 1
            if r.startswith("MISSED"):
                print("%s:%d  %s\n    %s\n -> %s" % (m["h"], m["line"] + 1, r, m["old"].strip(), m["new"].strip()), flush=True)
            if i % 20 == 0:
                print("#", i, len(ms), c, round(time.time() - t0), flush=True)
                json.dump(ms, open(out, "w"))
    print(c)
    json.dump(ms, open(out, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "enum":
        ms = enum()
        json.dump(ms, open(sys.argv[2], "w"))
        c = {}
        for m in ms:
            c[m["h"]] = c.get(m["h"], 0) + 1
        print(len(ms), c)
    elif sys.argv[1] == "tests":
        ms = json.load(open(sys.argv[2]))
        json.dump(tests(ms, int(sys.argv[4]) if len(sys.argv) > 4 else len(ms)), open(sys.argv[3], "w"))
    else:
        checks(json.load(open(sys.argv[2])), sys.argv[3], float(sys.argv[4]))
