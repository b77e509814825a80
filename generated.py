"""C18, C20: the generator of the current tree, and what it emits, compiled and run."""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, subprocess

from common import Broken, env

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class Stuck(Exception):
    pass


def call(c, cmd, timeout, cwd, extra=None, fsize=None):
    e = env()
    e.update(extra or {})
    limit = (lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))) if fsize else None
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", cwd=cwd, env=e, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise Stuck()


def one(what, **kw):
    return {"nfail": 1, "failures": [dict(kw, what=what)], "evaluations": 0, "suites": {}, "info": {}}


def build_gen(c, files, at, pkg, out):
    """Builds a program inside the generator's own module (internal/gen), leaving its go.mod alone."""
    mod = os.path.join(REPO, "internal/gen")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(mod, f), os.path.join(c.tmp, "gen." + f[3:]))
    ov = c.overlay(mod, "gen", files, at)
    p = call(c, ["go", "build", "-modfile", os.path.join(c.tmp, "gen.mod"), "-overlay", ov, "-o", out, pkg], 600, mod)
    if p.returncode != 0:
        raise Broken("the generator does not build:\n" + p.stdout[-3000:])


def together(c, *files):
    """The files in one directory, as go run wants them."""
    d = os.path.join(c.tmp, "src-" + files[0].split("/")[0])
    os.makedirs(d, exist_ok=True)
    return [shutil.copy(os.path.join(HERE, "gendrv", f), os.path.join(d, os.path.basename(f))) for f in files]


def tries(c, replay=None):
    maker = os.path.join(c.tmp, "maker")
    build_gen(c, [os.path.join(HERE, "gendrv/tries/main.go"), os.path.join(HERE, "gendrv/lits/lits.go")], "zzverif/tries", "./zzverif/tries", maker)
    scr = os.path.join(c.tmp, "scratch")
    os.mkdir(scr)

    def current(what, i=None):
        cases = json.load(open(os.path.join(scr, "cases.json")))
        k = cases[int(open(os.path.join(scr, "current")).read()) if i is None else i]
        return one(what, suite="generation", config="%s, %d insertions" % (k["Family"], len(k["Ins"] or [])), text_hex="", extra=k if len(k["Ins"] or []) < 20000 else None)

    try:
        p = call(c, [maker, "-dir", scr, "-seed", str(c.seed), "-tier", c.tier, "-tables", c.tables, "-data", os.path.join(HERE, "spec/data")]
                 + (["-replay", replay] if replay else []), 300, scr)
    except Stuck:
        return current("the generator does not finish")
    if p.returncode != 0:
        if "maker:" in p.stdout or not os.path.exists(os.path.join(scr, "current")):
            raise Broken("maker failed:\n" + p.stdout[-3000:])
        return current("the generator exits: " + p.stdout[-500:])
    shutil.copy(os.path.join(HERE, "gendrv/lookups/main.go"), os.path.join(scr, "main.go"))
    look = os.path.join(c.tmp, "lookups")
    p = call(c, ["go", "build", "-o", look, "."], 600, scr)
    if p.returncode != 0:
        m = re.search(r"p\d+/t(\d+)\.go:.*", p.stdout) or re.search(r"p\d+/all\.go:.*undefined: (?:new)?[tT](\d+)Trie\b", p.stdout)
        if not m:
            raise Broken("emitted code does not build:\n" + p.stdout[-3000:])
        return current("the emitted code does not compile: " + m.group(0)[:300], int(m.group(1)))
    out = os.path.join(c.tmp, "result-tries.json")
    try:
        p = call(c, [look, "-seed", str(c.seed), "-tier", c.tier, "-tables", c.tables, "-out", out] + ([] if replay else ["-trace", c.traces]), 600, scr)
    except Stuck:
        return one("lookups in the emitted code do not finish", text_hex="")
    if p.returncode != 0:
        raise Broken("lookups failed:\n" + p.stdout[-3000:])
    shutil.rmtree(scr, ignore_errors=True)
    return json.load(open(out))


def glue(scr, ds):
    """Exports what the generator wrote in dataset ds; returns the import lines and table entries."""
    s = json.load(open(os.path.join(scr, ds, "set.json")))
    own = {}
    for l in s["Lines"]:
        own.setdefault(l["F"], set()).add(l["P"])
    pict = {"Extended_Pictographic"} & own["Emoji"]
    incb = {p for p in own["InCB"] if p in ("InCB_Consonant", "InCB_Linker", "InCB_Extend")}
    names = {"words": own.get("Word", set()) | pict | {"BleveIdeographic"}, "phrases": own.get("Word", set()) | pict,
             "graphemes": own.get("Grapheme", set()) | pict | incb, "sentences": own.get("Sentence", set())}
    imports, entries, tests = [], [], []
    for p, ns in names.items():
        with open(os.path.join(scr, ds, p, "zz_export.go"), "w") as f:
            f.write("package %s\n\nfunc Lookup(b []byte) (uint64, int) { v, n := lookup(b); return uint64(v), n }\n"
                    "func LookupString(s string) (uint64, int) { v, n := lookup(s); return uint64(v), n }\n"
                    "var Consts = map[string]uint64{\n%s}\n" % (p, "".join('"%s": uint64(_%s),\n' % (n, n.replace("_", "")) for n in sorted(ns))))
        imports.append('import %s%s "scratch/%s/%s"\n' % (ds, p, ds, p))
        entries.append('"%s": {%s%s.Lookup, %s%s.LookupString, %s%s.Consts},' % (p, ds, p, ds, p, ds, p))
        t = os.path.join(scr, ds, p, "unicode_test.go")
        if p != "phrases":
            d = os.path.join(scr, ds, "tests" + p)
            os.mkdir(d)
            src = re.sub(r"(?m)^package \w+", "package tests" + p, open(t).read(), count=1)
            open(os.path.join(d, "tests.go"), "w").write(src)
            open(os.path.join(d, "zz_export.go"), "w").write(
                "package tests%s\n\ntype T struct {\n\tInput []byte\n\tExpected [][]byte\n}\n\nfunc All() (out []T) {\n\tfor _, t := range unicodeTests {\n\t\tout = append(out, T{t.input, t.expected})\n\t}\n\treturn\n}\n" % p)
            imports.append('import %stests%s "scratch/%s/tests%s"\n' % (ds, p, ds, p))
            tests.append('"%s": func() (out []gotTest) { for _, t := range %stests%s.All() { out = append(out, gotTest{t.Input, t.Expected}) }; return }(),' % (p, ds, p))
        if os.path.exists(t):
            os.remove(t)
    return imports, '"%s": {%s},\n' % (ds, " ".join(entries)), '"%s": {%s},\n' % (ds, " ".join(tests))


def generator(c, replay=None):
    if replay:
        f = json.load(open(replay))
        c.seed, c.tier = f["extra"]["seed"], f["extra"]["tier"]
    gen = os.path.join(c.tmp, "generator")
    build_gen(c, [os.path.join(HERE, "gendrv/hook/zz_verif_ucd.go")], "", ".", gen)
    scr = os.path.join(c.tmp, "scratch")
    os.mkdir(scr)
    p = call(c, ["go", "run", *together(c, "datasets/main.go", "lits/lits.go"), "-dir", scr, "-seed", str(c.seed), "-data", os.path.join(HERE, "spec/data"),
                 "-n", "300" if c.tier == "thorough" else "40"], 300, scr)
    if p.returncode != 0:
        raise Broken("datasets: " + p.stdout[-2000:])
    extra = {"seed": c.seed, "tier": c.tier}
    imports, entries, tests, fails = [], [], [], []
    def work(ds):
        cwd = os.path.join(scr, ds, "internal/gen")
        try:
            return ds, call(c, [gen], 300, cwd, {"VERIF_UCD": os.path.join(scr, ds, "ucd")})
        except Stuck:
            return ds, None
    dss = sorted(d for d in os.listdir(scr) if d.startswith("ds"))
    with cf.ThreadPoolExecutor(8) as ex:
        for ds, p in ex.map(work, dss):
            missing = [x for x in ("words/trie.go", "phrases/trie.go", "graphemes/trie.go", "sentences/trie.go", "words/unicode_test.go", "graphemes/unicode_test.go", "sentences/unicode_test.go")
                       if not os.path.exists(os.path.join(scr, ds, x))]
            if p is None or p.returncode != 0 or missing:
                out = "" if p is None else p.stdout[-700:]
                if "no such host" in out or "dial tcp" in out:
                    raise Broken("the generator does not use the default HTTP transport:\n" + out)
                what = "the generator does not finish" if p is None else "the generator fails" if p.returncode else "the generator does not write " + ", ".join(missing)
                fails.append({"what": what, "suite": "generation", "config": ds, "text_hex": "", "extra": dict(extra, dataset=ds, output=out)})
                continue
            i, e, t = glue(scr, ds)
            imports += i
            entries.append(e)
            tests.append(t)
    if fails:
        return {"nfail": len(fails), "failures": fails, "evaluations": len(dss), "suites": {}, "info": {}}
    open(os.path.join(scr, "all.go"), "w").write("package main\n\n" + "".join(imports) + "\nvar packages = map[string]map[string]*pkg{\n" + "".join(entries)
                                                 + "}\nvar tests = map[string]map[string][]gotTest{\n" + "".join(tests) + "}\n")
    open(os.path.join(scr, "go.mod"), "w").write("module scratch\n\ngo 1.18\n")
    shutil.copy(os.path.join(HERE, "gendrv/properties/main.go"), os.path.join(scr, "main.go"))
    look = os.path.join(c.tmp, "properties")
    p = call(c, ["go", "build", "-o", look, "."], 600, scr)
    if p.returncode != 0:
        m = re.search(r"(ds\d+)/(?:words|phrases|graphemes|sentences|tests\w+)/\w+\.go:.*", p.stdout)
        if not m:
            raise Broken("generated code does not build:\n" + p.stdout[-3000:])
        return one("the generated code does not compile: " + m.group(0)[:300], config=m.group(1), text_hex="", extra=dict(extra, dataset=m.group(1)))
    out = os.path.join(c.tmp, "result-generator.json")
    try:
        p = call(c, [look, "-seed", str(c.seed), "-tier", c.tier, "-out", out] + ([] if replay else ["-trace", c.traces]), 600, scr)
    except Stuck:
        return one("lookups in the generated code do not finish", text_hex="", extra=extra)
    if p.returncode != 0:
        raise Broken("properties failed:\n" + p.stdout[-3000:])
    shutil.rmtree(scr, ignore_errors=True)
    return json.load(open(out))


# ---------------------------------------------------------------- C22: runs that fail

FILES = ["words/trie.go", "words/unicode_test.go", "phrases/trie.go", "graphemes/trie.go", "graphemes/unicode_test.go", "sentences/trie.go", "sentences/unicode_test.go"]
NEEDS = {"words/trie.go": ["emoji-data.txt", "WordBreakProperty.txt"], "phrases/trie.go": ["emoji-data.txt", "WordBreakProperty.txt"],
         "graphemes/trie.go": ["emoji-data.txt", "DerivedCoreProperties.txt", "GraphemeBreakProperty.txt"], "sentences/trie.go": ["SentenceBreakProperty.txt"],
         "words/unicode_test.go": ["WordBreakTest.txt"], "graphemes/unicode_test.go": ["GraphemeBreakTest.txt"], "sentences/unicode_test.go": ["SentenceBreakTest.txt"]}
# the steps of GeneratorRunMC: which source is fetched (for which time), what is written
STEPS = [("emoji-data.txt", 1, None), ("DerivedCoreProperties.txt", 1, None), ("WordBreakProperty.txt", 1, 0), ("WordBreakTest.txt", 1, 1), ("WordBreakProperty.txt", 2, 2),
         ("GraphemeBreakProperty.txt", 1, 3), ("GraphemeBreakTest.txt", 1, 4), ("SentenceBreakProperty.txt", 1, 5), ("SentenceBreakTest.txt", 1, 6)]
PAGES = ["", "# not available\n", "<!DOCTYPE html>\n<html><head><title>Sorry</title></head>\n<body>; # 0041 ; ALetter</body></html>\n", "\n", "# gone\n\n# EOF\n"]
BAD_POINTS = ["ZZZZ", "0041..ZZZZ", "004G", "0041..", "..0041", "U+0041", "0041-005A", "0041 005A", "", "110000000", "0041..FFFFFFFFF", "hello", "<control>"]


def faults_for(r, ucd, step, kind):
    """One way for fetch number step to go wrong."""
    f, occ, _ = STEPS[step]
    text = open(os.path.join(ucd, f), encoding="utf-8").read()
    x = {"File": f, "From": occ, "To": occ if r.random() < 0.3 else 99, "Read": r.choice([0, 0, 1, 7, 100, 4096])}
    lines = text.splitlines(True)
    cut = len("".join(lines[:r.randrange(len(lines))]).encode()) if r.random() < 0.6 else r.randrange(len(text.encode()))
    if kind == "refuse":
        return dict(x, Kind="refuse")
    if kind == "status":
        body = r.choice(PAGES + [text, text[:r.randrange(len(text))], "".join(lines[:r.randrange(len(lines))])])
        return dict(x, Kind="status", Status=r.choice([404, 404, 403, 500, 502, 503, 429, 410, 401]), Body=body)
    if kind == "cut":
        return dict(x, Kind="cut", At=cut)
    # garble: one line's code points, or a whole line, make no sense
    i = r.choice([k for k, l in enumerate(lines) if l[0] not in "#\n" and ("Test" in f or "Extended_Pictographic" in l or "InCB" in l or f not in ("emoji-data.txt", "DerivedCoreProperties.txt"))])
    if "Test" in f:
        marks = [m.span() for m in re.finditer(r"[0-9A-F]{4,6}(?= )", lines[i].split("#")[0])]
        a, b = r.choice(marks)
        lines[i] = lines[i][:a] + r.choice(["ZZZZ", "00G1", "0x41", "123456789A", "-041", "U+0041"]) + lines[i][b:]
    else:
        lines[i] = r.choice(BAD_POINTS) + " " + lines[i][lines[i].index(";"):]
    return dict(x, Kind="replace", Body="".join(lines))


def run_faulty(c, gen, scr, ds, name, faults, disk, ref):
    """Runs the generator in a fresh directory; returns the trace events and a complaint, if any."""
    d = os.path.join(scr, name)
    os.makedirs(os.path.join(d, "internal/gen"))
    old = {}
    for k, f in enumerate(FILES):
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        old[f] = ("// as it was\n" * (1 if (k + len(name)) % 2 else 20000)).encode()
        open(os.path.join(d, f), "wb").write(old[f])
    fsize = None
    log = os.path.join(d, "fetches")
    if disk and disk[0] == "dir":
        os.remove(os.path.join(d, FILES[disk[1]]))
        os.mkdir(os.path.join(d, FILES[disk[1]]))
    elif disk and disk[0] == "gone":
        shutil.rmtree(os.path.dirname(os.path.join(d, FILES[disk[1]])))
    elif disk:
        fsize = disk[1]
    try:
        p = call(c, [gen], 120, os.path.join(d, "internal/gen"), {"VERIF_UCD": os.path.join(scr, ds, "ucd"), "VERIF_FAULTS": json.dumps(faults), "VERIF_FETCHLOG": log}, fsize)
    except Stuck:
        return [], "the generator does not finish"
    if "dial tcp" in p.stdout or "no such host" in p.stdout:
        raise Broken("the generator does not use the default HTTP transport:\n" + p.stdout[-700:])
    ev = [{"e": "start", "ds": ds, "faults": [{k: v for k, v in f.items() if k != "Body"} for f in faults]}]
    got, bad = set(), False
    for l in open(log).read().split("\n"):
        if l:
            s, good = l.split(" ")
            ev.append({"e": "fetch", "s": s, "good": int(good)})
            if good == "1":
                got.add(s)
            else:
                bad = True
    state = {}
    for f in FILES:
        path = os.path.join(d, f)
        b = open(path, "rb").read() if os.path.isfile(path) else None
        state[f] = "new" if b == ref[f] else "old" if b == old[f] or b is None and disk else "part"
    if disk:
        ev.append({"e": "disk"})
    rc = 0 if p.returncode == 0 else 1
    ev.append({"e": "exit", "rc": rc, "state": [{"f": f, "s": state[f]} for f in FILES]})
    shutil.rmtree(d)
    say = None
    wrong = [f for f in FILES if state[f] == "part" and not disk]
    notnew = [f for f in FILES if state[f] != "new"]
    early = [f for f in FILES if state[f] == "new" and not set(NEEDS[f]) <= got]
    if rc == 0 and notnew:
        say = "the generator exits 0, but %s %s" % (", ".join(notnew), "are not what the data files say" if bad else "have not been written right")
    elif wrong:
        say = "the generator fails, and %s hold neither what they held nor what the data files say" % ", ".join(wrong)
    elif rc and not bad and not disk:
        say = "the generator fails, although nothing went wrong: " + p.stdout[-300:]
    elif early:
        say = "%s written without its sources" % early
    return ev, say


def failures(c, replay=None):
    if replay:
        f = json.load(open(replay))
        c.seed, c.tier = f["extra"]["seed"], f["extra"]["tier"]
    gen = os.path.join(c.tmp, "generator")
    build_gen(c, [os.path.join(HERE, "gendrv/hook/zz_verif_ucd.go")], "", ".", gen)
    scr = os.path.join(c.tmp, "scratch")
    os.mkdir(scr)
    thorough = c.tier == "thorough"
    nds = 6 if thorough else 3
    p = call(c, ["go", "run", *together(c, "datasets/main.go", "lits/lits.go"), "-dir", scr, "-seed", str(c.seed), "-data", os.path.join(HERE, "spec/data"), "-n", str(nds)], 300, scr)
    if p.returncode != 0:
        raise Broken("datasets: " + p.stdout[-2000:])
    dss = ["ds%d" % i for i in range(1, nds)]
    r = random.Random(c.seed * 7919 + 3)
    # what each data set gives when nothing goes wrong (C20 judges it), the same every time
    refs = {}
    extra = {"seed": c.seed, "tier": c.tier}
    with cf.ThreadPoolExecutor(8) as ex:
        def reference(a):
            ds, k = a
            d = os.path.join(scr, "ref-%s-%d" % (ds, k))
            for f in FILES:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            os.makedirs(os.path.join(d, "internal/gen"))
            p = call(c, [gen], 300, os.path.join(d, "internal/gen"), {"VERIF_UCD": os.path.join(scr, ds, "ucd")})
            if "dial tcp" in p.stdout or "no such host" in p.stdout:
                raise Broken("the generator does not use the default HTTP transport:\n" + p.stdout[-700:])
            if p.returncode != 0:
                return ds, k, None, p.stdout[-500:]
            return ds, k, {f: open(os.path.join(d, f), "rb").read() if os.path.exists(os.path.join(d, f)) else None for f in FILES}, ""
        for ds, k, files, out in ex.map(reference, [(ds, k) for ds in dss for k in range(4)]):
            if files is None or None in files.values():
                return one("the generator fails although nothing went wrong: " + out, suite="runs without faults", config=ds, text_hex="", extra=extra)
            if ds in refs and refs[ds] != files:
                return one("two runs on the same data files write different files: " + ", ".join(f for f in FILES if files[f] != refs[ds][f]), suite="runs without faults", config=ds, text_hex="", extra=extra)
            refs[ds] = files
    plans = [json.loads(x) for x in sorted({json.loads(l)[2:] for l in open(os.path.join(c.tables, "GeneratorRunPlans.out")).read().splitlines() if l.startswith('"T ')})]
    jobs = []
    def job(faults, disk, what):
        jobs.append((dss[len(jobs) % len(dss)], "run%d" % len(jobs), faults, disk, what))
    for plan in plans:
        times = 1 if not plan else (40 if thorough else 7)
        for _ in range(times):
            ds = os.path.join(scr, dss[len(jobs) % len(dss)], "ucd")
            faults, disk = [], None
            for x in plan:
                if x["k"] == "disk":
                    disk = (r.choice(["dir", "gone"]), STEPS[x["n"] - 1][2])
                else:
                    faults.append(faults_for(r, ds, x["n"] - 1, x["k"]))
            job(faults, disk, "+".join("%s at fetch %d" % (x["k"], x["n"]) for x in plan) or "no fault")
    # the usual error pages at every fetch
    for n in range(len(STEPS)):
        for k, body in enumerate(PAGES):
            for status in [404, 503] if thorough else [[404, 500, 503][(n + k) % 3]]:
                job([{"File": STEPS[n][0], "From": STEPS[n][1], "To": 99, "Kind": "status", "Status": status, "Body": body}], None, "error page at fetch %d" % (n + 1))
    for _ in range(150 if thorough else 24):
        ds = os.path.join(scr, dss[len(jobs) % len(dss)], "ucd")
        job([faults_for(r, ds, n, r.choice(["refuse", "status", "cut", "garble"])) for n in sorted(r.sample(range(9), r.randint(2, 3)))], None, "several faults")
        ref = refs[dss[len(jobs) % len(dss)]]
        big = max(len(b) for b in ref.values())
        limit = r.randrange(1024, big)
        job([], ("full", limit), "files limited to %d bytes" % limit)
        f = r.choice(STEPS)[0]
        job([{"File": f, "From": 1, "To": 99, "Kind": "slow", "Read": r.choice([1, 3, 50, 1000])}], None, "slow source")
    fails, trace = [], []
    counts = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for (ds, name, faults, disk, what), (ev, say) in zip(jobs, ex.map(lambda j: run_faulty(c, gen, scr, j[0], j[1], j[2], j[3], refs[j[0]]), jobs)):
            counts[what.split(" at ")[0].split(" to ")[0]] = counts.get(what.split(" at ")[0].split(" to ")[0], 0) + 1
            trace += ev
            if say:
                fails.append({"what": say, "suite": what, "config": ds, "text_hex": "", "extra": dict(extra, dataset=ds, faults=[dict(f, Body=f.get("Body", "")[:300]) for f in faults], disk=disk)})
    if not replay:
        with open(os.path.join(c.traces, "GeneratorRunTrace-all.ndjson"), "w") as f:
            f.writelines(json.dumps(e, separators=(",", ":")) + "\n" for e in trace)
    shutil.rmtree(scr, ignore_errors=True)
    return {"nfail": len(fails), "failures": fails[:40], "evaluations": len(jobs), "suites": counts, "info": {"data sets": len(dss)}}
