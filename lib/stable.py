"""C17: a file's output depends on nothing but the file, its imports and the parameters."""
import itertools, os, shutil
import genrun, mc
import schemas as S

COMMON = 'syntax = "proto3";\npackage %s;\noption go_package = "%s";\nimport "validate/validate.proto";\n'


def texts():
    t = {}
    R = "(validate.rules)"
    t["a.proto"] = COMMON % ("pa", "ex.com/pa") + 'import "dir/c.proto";\nimport "google/protobuf/any.proto";\nimport "google/protobuf/duration.proto";\nimport "google/protobuf/wrappers.proto";\n' + """
message A1 {
  string h = 1 [%(R)s.string = {well_known_regex: HTTP_HEADER_NAME, strict: false}];
  string k = 2 [%(R)s.string = {well_known_regex: HTTP_HEADER_VALUE}];
  string p = 3 [%(R)s.string.pattern = "^[a-z]+$"];
  pc.sub.C1 c = 4 [%(R)s.message.required = true];
  pc.sub.E e = 5 [%(R)s.enum.defined_only = true];
  pd.E2 e2 = 6 [%(R)s.enum.defined_only = true];
  repeated string l = 7 [%(R)s.repeated = {unique: true, items: {string: {well_known_regex: HTTP_HEADER_NAME, min_len: 2}}}];
  map<string, int32> m = 8 [%(R)s.map = {min_pairs: 1, keys: {string: {pattern: "x"}}, values: {int32: {in: [3, 1, 2]}}}];
  google.protobuf.Any any = 9 [%(R)s.any = {in: ["b", "a", "c"]}];
  google.protobuf.Duration d = 10 [%(R)s.duration = {in: [{seconds: 1}, {nanos: 2}]}];
  google.protobuf.StringValue w = 11 [%(R)s.string = {in: ["b", "a"], min_len: 1}];
  oneof o { option (validate.required) = true; int32 o1 = 12 [%(R)s.int32 = {gt: 1}]; pc.sub.C1 o2 = 13; }
  string em = 14 [%(R)s.string.email = true];
  message In { string u = 1 [%(R)s.string.uuid = true]; }
}
message A2 { option (validate.ignored) = true; A1 a = 1; }
message A3 { option (validate.disabled) = true; A1 a = 1 [%(R)s.message.required = true]; }
""" % {"R": R}
    t["a.proto"] = t["a.proto"].replace('import "dir/c.proto";\n', 'import "dir/c.proto";\nimport "d.proto";\n')
    t["b.proto"] = COMMON % ("pa", "ex.com/pa") + 'import "a.proto";\n' + """
message B1 { string h = 1 [%(R)s.string = {well_known_regex: HTTP_HEADER_NAME}]; string u = 2 [%(R)s.string.uuid = true]; string ho = 3 [%(R)s.string.hostname = true]; A1 a = 4; string ad = 5 [%(R)s.string.address = true]; string p = 6 [%(R)s.string = {pattern: "^b$", max_len: 9}]; }
""" % {"R": R}
    t["dir/c.proto"] = COMMON % ("pc.sub", "ex.com/c/pa") + """
enum E { Z = 0; O = 1; }
message C1 { string h = 1 [%(R)s.string = {well_known_regex: HTTP_HEADER_VALUE, strict: false}]; E e = 2 [%(R)s.enum = {defined_only: true, in: [0, 1]}]; C1 c = 3; }
""" % {"R": R}
    t["d.proto"] = COMMON % ("pd", "ex.com/d/pa") + """
option java_multiple_files = true;
option java_package = "com.ex.d";
enum E2 { Z2 = 0; O2 = 2; }
message D1 { uint64 n = 1 [%(R)s.uint64 = {not_in: [5, 4], lte: 9}]; message D2 { bytes b = 1 [%(R)s.bytes = {in: ["y", "x"]}]; } }
message D3 { repeated D1.D2 l = 1 [%(R)s.repeated = {min_items: 1, items: {message: {required: true}}}]; }
""" % {"R": R}
    t["e.proto"] = COMMON.replace('import "validate/validate.proto";\n', "") % ("pa", "ex.com/pa") + 'import "b.proto";\nmessage N1 { B1 b = 1; repeated B1 c = 2; }\nmessage N2 { string s = 1; }\n'
    t["f.proto"] = COMMON % ("", "ex.com/f/pa") + """
message F1 { string em = 1 [%(R)s.string = {email: true, ignore_empty: true}]; string h = 2 [%(R)s.string = {well_known_regex: HTTP_HEADER_NAME, strict: false}]; float x = 3 [%(R)s.float = {in: [1, 2]}]; }
""" % {"R": R}
    t["f.proto"] = t["f.proto"].replace("package ;\n", "package pa.f;\n")
    # messages, fields, enums and oneofs of the same names in other packages, under other rules
    same = {
        "s1.proto": ("q.one", "ex.com/q/one", "string em = 1 [%(R)s.string.email = true]; In v = 2; oneof o { string p = 3 [%(R)s.string.pattern = \"^a\"]; int32 x = 4 [%(R)s.int32 = {in: [1, 2]}]; }", "string u = 1 [%(R)s.string.uuid = true];", "Z1 = 0; O1 = 1;"),
        "s2.proto": ("q.two", "ex.com/q/two", "string em = 1 [%(R)s.string.hostname = true]; In v = 2 [%(R)s.message.skip = true]; oneof o { option (validate.required) = true; string p = 3 [%(R)s.string.pattern = \"^b\"]; int32 x = 4 [%(R)s.int32 = {in: [3]}]; }", "string u = 1 [%(R)s.string.email = true];", "Z2 = 0; O2 = 2;"),
        "s3.proto": ("q.three", "ex.com/q/three", "string em = 1; In v = 2; oneof o { string p = 3 [%(R)s.string.well_known_regex = HTTP_HEADER_NAME]; int32 x = 4 [%(R)s.int32 = {not_in: [1]}]; } q.one.Same other = 5;", "string u = 1;", "Z3 = 0; O3 = 3;"),
        "s4.proto": ("q.four", "ex.com/q/four", "option (validate.ignored) = true; string em = 1 [%(R)s.string.address = true]; In v = 2; oneof o { string p = 3; int32 x = 4; }", "option (validate.disabled) = true; string u = 1 [%(R)s.string.uuid = true];", "Z4 = 0; O4 = 4;"),
        "s5.proto": ("q.five", "ex.com/q/five", "repeated string em = 1 [%(R)s.repeated.items.string.email = true]; map<string, string> v = 2 [%(R)s.map = {keys: {string: {hostname: true}}, values: {string: {uuid: true}}}]; google.protobuf.StringValue o = 3 [%(R)s.string.pattern = \"^c\"]; In p = 4;", "bytes u = 1 [%(R)s.bytes.in = \"q\"];", "Z5 = 0; O5 = 5;"),
    }
    for f, (pkg, gp, body, inner, enum) in same.items():
        imp = 'import "s1.proto";\n' if "q.one.Same" in body else 'import "google/protobuf/wrappers.proto";\n' if "StringValue" in body else ""
        t[f] = COMMON % (pkg, gp) + imp + ("message Same { message In { %s } %s }\nmessage Use { Same s = 1; repeated Same.In l = 2; E e = 3 [%%(R)s.enum.defined_only = true]; }\nenum E { %s }\n" % (inner, body, enum)) % {"R": R}
    return t


def orders_plugin(r):
    """The plugin with every range over a map in an order we choose, or None."""
    rc, o, e = r.sh(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/lyft/protoc-gen-star"], cwd=mc.REPO, env=r.env("readonly"))
    if rc or not o.strip():
        return None, "no protoc-gen-star: " + e[-300:]
    pgs = r.path("pgs")
    shutil.copytree(o.strip(), pgs)
    r.sh(["chmod", "-R", "u+w", pgs])
    mod = r.write("mo/go.mod", open(os.path.join(mc.REPO, "go.mod")).read() + "\nreplace github.com/lyft/protoc-gen-star => %s\n" % pgs)
    shutil.copy(os.path.join(mc.REPO, "go.sum"), r.path("mo", "go.sum"))
    env = r.env(GOFLAGS="-mod=mod -modfile=" + mod)
    tool = r.path("bin", "mapord")
    rc, o, e = r.sh(["go", "build", "-o", tool, "./mapord"], cwd=r.workspace())
    if rc:
        raise SystemExit("our tool does not build: " + e[-1500:])
    rc, o, e = r.sh([tool, mc.REPO, r.path("mo")], cwd=mc.REPO, env=env)
    if rc:
        return None, e[-600:]
    out = r.path("bin", "pgv-orders")
    rc, o2, e = r.sh(["go", "build", "-overlay", r.path("mo", "overlay.json"), "-o", out, "."], cwd=mc.REPO, env=env)
    return (out, o.strip()) if rc == 0 else (None, e[-600:])


def c17(r):
    r.plugin()
    t = texts()
    families = [["a.proto", "b.proto", "dir/c.proto", "d.proto", "e.proto", "f.proto"], ["s1.proto", "s2.proto", "s3.proto", "s4.proto", "s5.proto"]]
    ds = genrun.descriptors(r, t)
    instr, note = orders_plugin(r)
    langs = ["lang=go", "lang=cc", "lang=java", "lang=go,paths=source_relative", "lang=go,module=ex.com", "lang=go,Mdir/c.proto=ex.com/other/name"]
    jobs, meta = [], []

    def job(fs, p, what, **kw):
        jobs.append(dict({"files": list(fs), "param": p}, **kw))
        meta.append((p, list(fs), what))
    # the variants of Go differ in paths and import names only: in quick runs, pairs for them
    depth = lambda p, files: range(1, (len(files) if r.deep or "," not in p else 2) + 1)
    # what each file's output is when it is the only one requested
    for files in families:
        for p in langs:
            for f in files:
                job([f], p, "alone", keep=True)
        for p in langs:
            for k in depth(p, files):
                for fs in itertools.combinations(files, k):
                    perms = list(itertools.permutations(fs))
                    for o in perms:
                        job(o, p, "subset and order")
                    for rep in range(16 if r.deep else 4):
                        job(fs, p, "repeated")
        if instr:
            # every order of the ranges over maps (targets, packages and the like)
            for p in langs:
                for k in depth(p, files):
                    n = 1
                    for i in range(2, k + 1):
                        n *= i
                    sets = list(itertools.combinations(files, k))
                    for fs in sets:
                        for o in range(max(n, 24)):
                            job(fs, p, "map order %d" % o, plugin=instr, order=o)
    res = genrun.run_jobs(r, ds, jobs)
    if res is None:
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "timed out", "samples": ["timed out"], "exhaustive": False}
    want = {}
    owner = {}
    for (p, fs, what), x in zip(meta, res):
        if what != "alone":
            continue
        if x["exit"]:
            raise mc.Broken("the plugin rejects or crashes on a valid schema: %s %s" % (fs, p), x["err"])
        for f in x["files"] or []:
            k = (p, f["Name"])
            want.setdefault((p, fs[0]), []).append((f["Name"], f["Sha"]))
            if k in owner:
                r.violation("overwrites|%s|%s|%s" % (p, f["Name"], fs), params=p, file=f["Name"], of=[owner[k], fs[0]])
            owner[k] = fs[0]
    n = 0
    bad = {}
    for (p, fs, what), x in zip(meta, res):
        n += 1
        w = sorted(y for f in fs for y in want.get((p, f), []))
        got = sorted((f["Name"], f["Sha"]) for f in x["files"] or []) if not x["exit"] else [("exit %d" % x["exit"], x["err"][-500:])]
        if got != w:
            names = sorted(set(got) ^ set(w))
            k = (p, tuple(sorted({a for a, _ in names})), what.split(" ")[0])
            bad.setdefault(k, []).append((fs, what, names))
    for k, v in sorted(bad.items()):
        fs, what, names = min(v, key=lambda x: len(x[0]))
        r.violation("differs|%s|%s|%s" % (k[0], k[2], ",".join(k[1])), params=k[0], files=fs, run=what, differing=names, runs=len(v))
    return {"evaluations": n, "distinct_nontrivial": len(owner), "rule": "a case is one run of the plugin on a list of files; distinct non-trivial: output files, each compared over all runs that must produce it",
            "samples": ["%s: %s -> %s" % (p, f, [a for a, _ in v]) for (p, f), v in sorted(want.items())][:6], "states": n, "transitions": n,
            "map_orders": "every range over a map in the plugin and protoc-gen-star (sites, not instrumented: %s) in every order of up to 6 keys" % note if instr else "not explored: " + note,
            "runs_with_chosen_map_order": sum(1 for m in meta if m[2].startswith("map")), "exhaustive": bool(instr)}
