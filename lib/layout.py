"""C16: which files the plugin writes, against the real generators of each language."""
import itertools, os, re
from concurrent.futures import ThreadPoolExecutor
import genrun

RULE = "[(validate.rules).int32 = {gt: 0}]"
# name -> (imports validate.proto, body, top-level messages)
BODIES = {
    "rules": (True, "message A%d { int32 a = 1 " + RULE + "; message In { int32 b = 1 " + RULE + "; } }\n", ["A"]),
    "two": (True, "message A%d { int32 a = 1 " + RULE + "; }\nmessage B%d { A%d x = 1; }\nenum E%d { E%d_Z = 0; }\n", ["A", "B"]),
    "norules": (False, "message A%d { int32 a = 1; }\n", ["A"]),
    "unused": (True, "message A%d { int32 a = 1; }\n", ["A"]),
    "empty": (False, "", []),
    "enum": (True, "enum E%d { E%d_Z = 0; }\n", []),
    "service": (True, "service S%d {}\n", []),
    "ignored": (True, "message A%d { option (validate.ignored) = true; int32 a = 1 " + RULE + "; }\nmessage B%d { option (validate.disabled) = true; int32 a = 1 " + RULE + "; }\n", ["A", "B"]),
}

# options that say something about other languages
GO_BODIES = dict(BODIES, **{
    "java options": (True, "option java_multiple_files = true;\noption java_package = \"com.ex.j%d\";\noption java_outer_classname = \"O%d\";\nmessage A%d { int32 a = 1 " + RULE + "; }\nmessage B%d { int32 a = 1; }\n", ["A", "B"]),
    "java options, empty": (False, "option java_multiple_files = true;\n", []),
    "other options": (True, "option optimize_for = LITE_RUNTIME;\noption cc_generic_services = true;\noption cc_enable_arenas = true;\noption deprecated = true;\noption objc_class_prefix = \"P\";\nmessage A%d { int32 a = 1 " + RULE + "; }\n", ["A"]),
})


def body(kind, i):
    t = GO_BODIES[kind][1]
    return t.replace("%d", str(i))


def go_part(r, deep):
    texts, files = {}, []
    gps = ["example.com/m/gp%d", "example.com/m/gp%d;nm", "example.com/m/example.com/m/x%d", "example.com/other/y%d", "example.com/m", "example.com/mm/x%d", "m/example.com%d", None]
    dirs = ["", "d/", "d/e/", "example.com/m/d/", "d-x/"]
    bases = ["p%d", "p.q%d", "p-q_%d"]
    i = 0
    for gp in gps:
        for d in dirs:
            for b in bases:
                for k in GO_BODIES:
                    if not deep and b != "p%d" and (k not in ("rules", "empty") or d == "d/"):
                        continue
                    i += 1
                    f = "g%d/" % i + d + b.replace("%d", str(i)) + ".proto" if d != "" else b.replace("%d", str(i)) + ".proto"
                    g = gp and gp.replace("%d", str(i))
                    t = 'syntax = "proto3";\npackage pk%d;\n' % i + ('option go_package = "%s";\n' % g if g else "")
                    if GO_BODIES[k][0]:
                        t += 'import "validate/validate.proto";\n'
                    texts[f] = t + body(k, i)
                    files.append((f, g, d + b + "|" + k + "|" + str(gp)))
    # imports between files: a user of each of some files
    users = []
    for j, (f, g, c) in enumerate([x for x in files if x[2].startswith("d/p%d|rules")]):
        u = "users/u%d.proto" % j
        n = re.search(r"message (A\d+)", texts[f]).group(1)
        pk = re.search(r"package (\w+)", texts[f]).group(1)
        texts[u] = 'syntax = "proto3";\npackage us%d;\noption go_package = "example.com/m/us%d";\nimport "validate/validate.proto";\nimport "%s";\nmessage U { %s.%s x = 1 [(validate.rules).message.required = true]; }\n' % (j, j, f, pk, n)
        users.append((u, f, g))
    ds = genrun.descriptors(r, texts)
    gen_go = r.path("bin", "protoc-gen-go")
    jobs, meta = [], []

    def job(fs, params, what):
        # a file without go_package needs a mapping
        ps = list(params)
        jobs.append({"files": fs, "param": ",".join(["lang=go"] + ps)})
        jobs.append({"files": fs, "param": ",".join(ps), "plugin": gen_go})
        jobs.append({"files": fs, "param": ",".join(ps + ["lang=go"])})
        meta.append((fs, ps, what))
    for f, g, c in files:
        for paths in ([], ["paths=import"], ["paths=source_relative"]):
            for mod in ([], ["module=example.com/m"], ["module=example.com"], ["module=m"]):
                for m in ([], ["M%s=example.com/m/mapped" % f], ["M%s=example.com/m/mapped;nm" % f]):
                    job([f], paths + mod + m, "%s|%s" % (c, ",".join(paths + mod + [x.replace(f, "SELF") for x in m])))
    for u, f, g in users:
        for paths in ([], ["paths=source_relative"]):
            for mod in ([], ["module=example.com/m"]):
                for m in ([], ["M%s=example.com/m/mapped" % f]):
                    for fs in ([u], [u, f], [f, u]):
                        job(fs, paths + mod + m, "user of %s|%d files|%s" % (g, len(fs), ",".join(paths + mod + [x.replace(f, "IMPORTED") for x in m])))
    ok = [f for f, g, c in files if g and g.startswith("example.com/m/")]
    for k in (2, 3):
        for fs in list(itertools.permutations(ok[:: max(1, len(ok) // 7)], k)):
            for ps in ([], ["paths=source_relative"], ["module=example.com/m"]):
                job(list(fs), ps, "%d files|%s|%s" % (k, ",".join(ps), ",".join(fs)))
    res = genrun.run_jobs(r, ds, jobs)
    if res is None:
        return None
    n = skipped = 0
    outs = set()
    for (fs, ps, what), a, o, b in zip(meta, res[::3], res[1::3], res[2::3]):
        if o["exit"]:
            skipped += 1
            continue
        want = sorted(re.sub(r"\.pb\.go$", ".pb.validate.go", x["Name"]) for x in o["files"] or [])
        for x in (a, b):
            n += 1
            got = sorted(y["Name"] for y in x["files"] or []) if not x["exit"] else ["exit %d: %s" % (x["exit"], x["err"][-300:])]
            outs.add((what, tuple(want)))
            if got != want:
                r.violation("go|" + re.sub(r"\d+", "N", "%s|want %s|got %s" % (what, want, got)), lang="go", files=fs, params=ps, want=want, got=got)
    return n, skipped, outs, len(jobs), texts


def langs_part(r):
    """Missing and unknown lang values."""
    texts = {"l1.proto": 'syntax = "proto3";\npackage l1;\noption go_package = "x/l1";\nimport "validate/validate.proto";\nmessage A { int32 a = 1 %s; }\n' % RULE,
             "l2.proto": 'syntax = "proto3";\npackage l2;\noption go_package = "x/l2";\nmessage A { int32 a = 1; }\n'}
    ds = genrun.descriptors(r, texts)
    bad = ["", "lang=", "lang=python", "lang=GO", "lang=c++", "lang=h", "lang=gogo", "lang=golang", "lang=go2", "lang", "module=x", "paths=source_relative", "Lang=go", "lang=ja"]
    jobs, meta = [], []
    for b in bad:
        for extra in ([], ["paths=source_relative"], ["module=x"]):
            for fs in (["l1.proto"], ["l2.proto"], ["l1.proto", "l2.proto"]):
                jobs.append({"files": fs, "param": ",".join([x for x in [b] if x] + extra)})
                meta.append((b, extra, fs))
    res = genrun.run_jobs(r, ds, jobs)
    if res is None:
        return None
    for (b, extra, fs), x in zip(meta, res):
        if not x["exit"] or x["files"]:
            r.violation("lang|%r|%s|%s" % (b, extra, fs), params=jobs[meta.index((b, extra, fs))]["param"], files=fs, exit=x["exit"], wrote=[f["Name"] for f in x["files"] or []])
    return len(jobs)


def tree(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)


def other_part(r, deep):
    """C++ and Java, against protoc's own generators."""
    texts, meta = {}, []
    i = 0
    names = ["foo", "foo_bar", "foo-bar", "fooBar", "Foo", "FOO", "foo1bar", "foo1", "foo.bar", "foo__bar", "foo_1a", "fOO", "fooB1c", "FOOBar", "f", "FB", "foo_", "a_b_c", "foo2_bar", "x9y_z", "HTTPServer", "my_HTTP_api"]
    pkgs = [None, "pk%d", "pk%d.a.b"]
    jpk = [None, "com.ex.j%d", ""]
    for d in ("", "d/", "d/e.f/"):
        for nm in names:
            for pk in pkgs:
                for jp in jpk:
                    for outer in (None, "Outr"):
                        for multi in (None, True, False):
                            for k in BODIES:
                                # every name with every option, but not the full product of the rest
                                few = nm == "foo" and d != "d/e.f/"
                                if not few and not (k == "rules" and (pk == "pk%d" or deep)):
                                    continue
                                if few and k not in ("rules", "two") and outer and not deep:
                                    continue
                                i += 1
                                texts_add(texts, meta, i, d, nm, pk, jp, outer, multi, k, BODIES[k][0], body(k, i), [x + str(i) for x in BODIES[k][2]])
    # class names that collide with the outer class, and odd message names
    for what, b, tops in [
            ("message", "message %s { int32 a = 1 R; }", ["%s"]),
            ("enum", "message Q { int32 a = 1 R; } enum %s { %s_Z = 0; }", ["Q"]),
            ("service", "message Q { int32 a = 1 R; } service %s {}", ["Q"]),
            ("nested", "message Q { message %s { int32 a = 1 R; } }", ["Q"]),
            ("nested2", "message Q { message P { message %s { int32 a = 1 R; } } }", ["Q"]),
            ("nestedenum", "message Q { int32 a = 1 R; enum %s { %s_Z = 0; } }", ["Q"]),
            ("other case", "message %s_ { int32 a = 1 R; }", ["%s_"])]:
        for multi in (None, True):
            for outer in (None, "Outr"):
                for nm, cls in (("foo_bar", "FooBar"), ("foo", "Foo"), ("my_HTTP", "MyHTTP")):
                    i += 1
                    texts_add(texts, meta, i, "", nm, "pk%d", None, outer, multi, "collides-" + what, True, b.replace("%s", cls).replace("R;", RULE + ";"), [t.replace("%s", cls) for t in tops])
    for m in ["foo", "fooBar", "FOO", "FOOBar", "HTTPServer", "Foo_Bar", "foo_bar", "Foo1bar", "F", "FB", "Foo1_2", "_Foo", "Foo__Bar", "A1b2", "X_", "ABCDef", "Foo1B", "aB"]:
        for multi in (None, True):
            i += 1
            texts_add(texts, meta, i, "", "nm", "pk%d", None, None, multi, "message-name-" + m, True, "message %s { int32 a = 1 %s; }" % (m, RULE), [m])
    ds = genrun.descriptors(r, texts)
    jobs = []
    for f, what, tops, imp, multi in meta:
        jobs.append({"files": [f], "param": "lang=java"})
        jobs.append({"files": [f], "param": "lang=cc"})
    # several targets in one run
    plain = [m for m in meta if "|rules" in m[1]][:: max(1, len(meta) // 40)][:12]
    groups = [list(p) for p in itertools.combinations(plain, 2)] + [list(p) for p in itertools.permutations(plain[:4], 3)]
    for g in groups:
        jobs.append({"files": [x[0] for x in g], "param": "lang=java"})
        jobs.append({"files": [x[0] for x in g], "param": "lang=cc"})
    res = genrun.run_jobs(r, ds, jobs)
    if res is None:
        return None

    # Outer class and directory of each file, from protoc itself. Files whose
    # outputs collide cannot share a directory, so one run per file.
    def oracle(j):
        f = meta[j][0]
        d = r.path("jo", str(j), "x")[:-2]
        os.makedirs(d, exist_ok=True)
        rc, o, e = r.sh(["protoc", "--descriptor_set_in=" + ds, "--java_out=" + d, "--cpp_out=" + d, f])
        if rc:
            return None
        t = tree(d)
        return [x for x in t if x.endswith(".java")], [x for x in t if not x.endswith(".java")]
    with ThreadPoolExecutor(8) as ex:
        orc = list(ex.map(oracle, range(len(meta))))
    want = {}
    skipped = 0
    for (f, what, tops, imp, multi), o in zip(meta, orc):
        if o is None:
            skipped += 1
            continue
        java, cpp = o
        d = os.path.dirname(java[0]) if java else ""
        if not imp:
            w = []
        elif multi:
            w = [os.path.join(d, t + ".java") for t in tops]
            assert all(x in java for x in w), (f, w, java)
        else:
            w = java
            assert len(java) == 1, java
        want[f] = ([x[:-5] + "Validator.java" for x in w], [re.sub(r"\.pb\.(h|cc)$", r".pb.validate.\1", x) for x in cpp])
    n = 0
    outs = set()

    def judge(what, lang, fs, x):
        nonlocal n
        if any(f not in want for f in fs):
            return
        n += 1
        w = sorted(y for f in fs for y in want[f][0 if lang == "java" else 1])
        got = sorted(y["Name"] for y in x["files"] or []) if not x["exit"] else ["exit %d: %s" % (x["exit"], x["err"][-300:])]
        outs.add((what, tuple(w)))
        if got != w:
            r.violation("%s|" % lang + re.sub(r"\b(pk|j|f|n)\d+\b", r"\1N", "%s|want %s|got %s" % (what, w, got)), lang=lang, files=fs, want=w, got=got, schema=[texts[f] for f in fs][:2])
    for j, (f, what, tops, imp, multi) in enumerate(meta):
        judge(what, "java", [f], res[2 * j])
        judge(what, "cc", [f], res[2 * j + 1])
    for j, g in enumerate(groups):
        judge("several files", "java", [x[0] for x in g], res[2 * len(meta) + 2 * j])
        judge("several files", "cc", [x[0] for x in g], res[2 * len(meta) + 2 * j + 1])
    return n, skipped, outs, len(jobs)


def texts_add(texts, meta, i, d, nm, pk, jp, outer, multi, kind, imp, b, tops):
    f = "n%d/" % i + d + nm + ".proto"
    t = 'syntax = "proto3";\n' + ("package %s;\n" % pk.replace("%d", str(i)) if pk else "") + 'option go_package = "x/n%d";\n' % i
    if jp is not None:
        t += 'option java_package = "%s";\n' % jp.replace("%d", str(i))
    if outer:
        t += 'option java_outer_classname = "%s%d";\n' % (outer, i)
    if multi is not None:
        t += "option java_multiple_files = %s;\n" % str(multi).lower()
    if imp:
        t += 'import "validate/validate.proto";\n'
    texts[f] = t + b
    meta.append((f, "%s%s|package=%s|java_package=%s|outer=%s|multiple=%s|%s" % (d, nm, pk, jp, outer, multi, kind), tops, imp, multi))


def c16(r):
    r.plugin()
    g = go_part(r, r.deep)
    l = langs_part(r)
    o = other_part(r, r.deep)
    if None in (g, l, o):
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "timed out", "samples": ["timed out"], "exhaustive": False}
    return {"evaluations": g[0] + o[0] + l, "distinct_nontrivial": len(g[2]) + len(o[2]), "rule": "a case is one run of the plugin on one set of files with one set of options; distinct: (options and file shapes, expected file set)",
            "samples": ["%s -> %s" % x for x in sorted(g[2])[:: max(1, len(g[2]) // 4)]] + ["%s -> %s" % x for x in sorted(o[2])[:: max(1, len(o[2]) // 4)]],
            "go_runs": g[0], "go_refused_by_protoc_gen_go": g[1], "cc_java_runs": o[0], "refused_by_protoc": o[1], "lang_runs": l, "plugin_runs": g[3] + o[3] + l, "exhaustive": True}
