"""Generated Java validators and the Java runtime of /repo, compiled with stand-ins
for the two libraries that are not here."""
import glob, os
from concurrent.futures import ThreadPoolExecutor
import mc


def jars():
    j = sorted(glob.glob("/opt/veriftools/apalache-*/lib/apalache.jar"))
    if not j:
        raise SystemExit("no protobuf for Java here")
    return j[-1]


def sources(*dirs):
    return sorted(f for d in dirs for f in glob.glob(os.path.join(d, "**", "*.java"), recursive=True))


ASM = [x for k in ("", ".commons") for x in ("--add-exports", "java.base/jdk.internal.org.objectweb.asm%s=ALL-UNNAMED" % k)]


def javac(r, srcs, out, cp, what, ours=False):
    os.makedirs(out, exist_ok=True)
    lst = r.write("jl/%s.txt" % os.path.basename(what), "\n".join(srcs))
    rc, o, e = r.sh(["javac", "-J-Xss16m", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-nowarn", "-proc:none", "-Xmaxerrs", "5000", "-g:none", "-encoding", "UTF-8", "-d", out, "-cp", cp] + (ASM if ours else []) + ["@" + lst])
    if rc and "TIMEOUT" in e:
        return False
    if rc:
        if ours:
            raise SystemExit("%s does not compile: %s" % (what, e[-3000:]))
        errs = [l for l in e.splitlines() if ": error:" in l]
        raise mc.Broken("%s does not compile" % what, "\n".join(errs[:20]) + "\n" + e[-1500:])
    return True


def runtime(r, grpc=False, drivers=("Cases.java",)):
    """The runtime of /repo, our stand-ins and drivers; returns a class path."""
    J = os.path.join(mc.VERIF, "java")
    base = r.path("jclass", "base")
    r.sh(["protoc", "-I", mc.REPO, "--java_out=" + r.path("jgen", "base", "x")[:-2], "validate/validate.proto"])
    src = sources(os.path.join(J, "shims"), os.path.join(mc.REPO, "java/pgv-java-stub/src/main/java"), r.path("jgen", "base"))
    if grpc:
        src += sources(os.path.join(mc.REPO, "java/pgv-java-grpc/src/main/java"))
    javac(r, src, base, jars(), "the Java runtime")
    cp = base + ":" + jars()
    drv = r.path("jclass", "drivers")
    javac(r, [os.path.join(J, "pgvmc", d) for d in drivers], drv, cp, "the Java driver", ours=True)
    return drv + ":" + cp


def generate(r, files):
    r.plugin()
    r.protos(files)
    dirs = {}

    def one(f):
        d = r.path("jgen", f.pkg, "x")[:-2]
        os.makedirs(d, exist_ok=True)
        rc, o, e = r.protoc(["--java_out=" + d, f.path])
        if rc:
            raise SystemExit("protoc --java_out failed on our schema: " + e[-1500:])
        rc, o, e = r.protoc(["--plugin=protoc-gen-validate=" + r._plugin, "--validate_out=lang=java:" + d, f.path])
        if rc:
            raise mc.Broken("the plugin rejects or crashes on a valid schema for Java: " + f.path, e[-3000:])
        dirs[f.pkg] = d
    with ThreadPoolExecutor(mc.JOBS) as ex:
        list(ex.map(one, files))
    return dirs


def compile_all(r, files, dirs, cp):
    """In as many groups as there are cores."""
    size = {f.pkg: sum(os.path.getsize(s) for s in sources(dirs[f.pkg])) for f in files}
    groups = [[] for _ in range(mc.JOBS)]
    load = [0] * mc.JOBS
    for f in sorted(files, key=lambda f: -size[f.pkg]):
        i = load.index(min(load))
        groups[i].append(f)
        load[i] += size[f.pkg]
    groups = [g for g in groups if g]
    out = r.path("jclass", "gen")

    def one(i):
        return javac(r, [s for f in groups[i] for s in sources(dirs[f.pkg])], out, cp, "the generated Java code (group %d: %s)" % (i, ", ".join(f.pkg for f in groups[i])))
    with ThreadPoolExecutor(mc.JOBS) as ex:
        ok = list(ex.map(one, range(len(groups))))
    return out if all(ok) else None


def c20(r, files, rule, texts=None, says=None, hist=False, cap="700"):
    b = r.go_harness(files)
    cases, res = r.path("cases.txt"), r.path("cases.out")
    rep, log = r.go_run(b, "dump", PGVMC_CASES=cases, PGVMC_FULLMATCH="1", PGVMC_JAVA="1", PGVMC_MAX="4000" if r.deep else cap, **({"PGVMC_TEXTS": texts} if texts else {}))
    if rep is None:
        raise SystemExit("writing the cases failed: " + log[-2000:])
    cp = runtime(r)
    dirs = generate(r, files)
    out = compile_all(r, files, dirs, cp)
    none = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
    if out is None:
        return none
    rc, o, e = r.sh(["java", "-Xss8m", "-Xmx6g", "-XX:+UseParallelGC", "-cp", out + ":" + cp, "pgvmc.Cases", cases, res, "10"] + ([says or ""] if says or hist else []) + (["hist"] if hist else []))
    if rc:
        if "TIMEOUT" in e:
            return none
        raise mc.Broken("the Java validators crash", (o + e)[-3000:])
    tot, hs = [0] * 7, [0, 0]
    text = {k: v for f in files for k, v in f.rules.items()}
    for i in range(8):
        for l in open(res + ".%d" % i, encoding="utf-8", errors="replace"):
            p = l.rstrip("\n").split("\t")
            if p[0] == "HBAD":
                r.violation("history|java|%s" % p[1], lang="java", type=p[1], what=p[2])
            elif l.startswith("HIST"):
                hs = [a + int(x) for a, x in zip(hs, l.split()[1:])]
            elif p[0] == "BAD":
                what = "got %s want %s" % (p[3], p[4]) if ".jundef." in p[1] else p[2]
                r.violation("%s|%s|%s" % (p[1].split(".")[1].rstrip("0123456789"), p[1], what), type=p[1], rules=text.get(p[1], ""), wire_hex=p[2], got=p[3], want=p[4], error=p[5] if len(p) > 5 else "")
            elif l.startswith("MISSING"):
                raise SystemExit(l)
            elif l.startswith("DONE"):
                tot = [a + int(x) for a, x in zip(tot, l.split()[1:])]
    return {"evaluations": tot[1] - tot[6], "distinct_nontrivial": rep["outcomes"], "rule": rule, "samples": (rep["samples"] or [])[:6], "message_types": tot[0], "not_representable": tot[2],
            "answered_valid": tot[3], "answered_invalid": tot[4], "threw_unimplemented": tot[5], "run_but_not_judged": tot[6], "types_capped": rep["capped"], "exhaustive": rep["capped"] == 0,
            **({"histories": hs[0], "calls": hs[1]} if hist else {})}


def histories(r, ccfiles, jfiles, rule):
    import shutil
    import checks
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": [], "exhaustive": True, "histories": 0, "message_types": 0}
    for lang, files, run in (("cc", ccfiles, checks.cc_run), ("java", [f for f in jfiles if not f.pkg.startswith("jundef")], c20)):
        shutil.rmtree(os.path.join(r.workspace(), "gen"), ignore_errors=True)
        n0 = len(r.violations)
        c = run(r, files, rule, hist=True, cap="150")
        if c["samples"] == ["timed out"]:
            return c
        # the verdicts themselves are C11's and C20's
        r.violations[n0:] = [v for v in r.violations[n0:] if v[0].startswith("history|") or "a second call" in str(v[1].get("error")) or "not the same any more" in str(v[1].get("error"))]
        cov[lang] = {k: v for k, v in c.items() if isinstance(v, int)}
        cov["evaluations"] += c["calls"]
        for k in ("distinct_nontrivial", "histories", "message_types"):
            cov[k] += c[k]
        cov["samples"] += c["samples"][:4]
    return cov


IX = {
    "ix": ("", """
message Top { int32 v = 1 [(validate.rules).int32.gt = 0];
  message Nested { int32 v = 1 [(validate.rules).int32.gt = 10]; message Deep { int32 v = 1 [(validate.rules).int32.gt = 100]; } }
}
message Other { int32 v = 1 [(validate.rules).int32.lt = 10]; message Nested { int32 v = 1 [(validate.rules).int32.lt = 0]; } }
message Off { option (validate.disabled) = true; int32 v = 1 [(validate.rules).int32.gt = 1000]; }
message Ign { option (validate.ignored) = true; int32 v = 1 [(validate.rules).int32.gt = 1000]; message Inner { int32 v = 1 [(validate.rules).int32.lt = 100]; } }
message Plain { int32 v = 1; }
message Emb { int32 v = 1; Top m1 = 2; pgvmc.iz.Top m2 = 3; Other.Nested m3 = 4; }
"""),
    "iy": ("option java_multiple_files = true;", """
message Top { int32 v = 1 [(validate.rules).int32.lt = 100];
  message Nested { int32 v = 1 [(validate.rules).int32.const = 5]; message Deep { int32 v = 1 [(validate.rules).int32.const = 50]; } }
}
message Other { int32 v = 1 [(validate.rules).int32 = {in: [5, 50]}]; message Nested { int32 v = 1 [(validate.rules).int32 = {in: [-1, 500]}]; } }
message Ign { option (validate.ignored) = true; int32 v = 1 [(validate.rules).int32.gt = 1000]; message Inner { int32 v = 1 [(validate.rules).int32 = {in: [5, 500]}]; } }
"""),
    "iz": ("", "message Top { int32 v = 1 [(validate.rules).int32.gt = 1000]; message Nested { int32 v = 1 [(validate.rules).int32.gt = 1000]; } }\n"),
    "iw": ("option java_outer_classname = \"Odd\";", "message Top { int32 v = 1 [(validate.rules).int32.const = 50]; }\nmessage Nested { int32 v = 1 [(validate.rules).int32 = {not_in: [5]}]; }\n"),
}


def c21(r):
    cp, gen = ix_code(r, drivers=("Sched.java", "SMap.java", "RMap.java", "Instr.java", "Index.java", "IndexConc.java"))
    rule = "every history of lookups, registrations and validations up to the depth over %s, checked against a model; every schedule of two and three threads with up to %d preemptions" % ("18 configurations", 3 if r.deep else 2)
    J = ["java", "-Xss8m", "-Xmx6g", "-cp", cp]
    rc, o, e = r.sh(J + ["pgvmc.Index", "seq", gen + "/", "3000000" if r.deep else "60000"])
    if rc:
        if "TIMEOUT" in e:
            return {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
        raise mc.Broken("looking validators up crashes", (o + e)[-3000:])
    depths, seqs, checks = {}, 0, 0

    def bad(l):
        _, cfg, what = l.split("\t", 2)
        r.violation("%s|%s" % (cfg, what[:200]), configuration=cfg, what=what)
    for l in o.splitlines():
        if l.startswith("BAD\t"):
            bad(l)
        elif l.startswith("DEPTH"):
            _, c, n, dd = l.split()
            depths["%s (%s operations)" % (c, n)] = int(dd)
        elif l.startswith("DONE"):
            seqs, checks = map(int, l.split()[1:])
    secs = int(min(r.left() - 60, 4000 if r.deep else 150))
    rc, o, e = r.sh(J[:1] + ASM + J[1:]
                    + ["pgvmc.IndexConc", "conc", gen + "/", str(secs), "3" if r.deep else "2", "3" if r.deep else "2"])
    n = done = of = 0
    note = "complete"
    for l in o.splitlines():
        if l.startswith("BAD\t"):
            bad(l)
        elif l.startswith("CONC"):
            n, done, of = map(int, l.split()[1:])
    if of == 0 or done < of:
        note = "stopped early" if of else "the scheduler could not run this code: " + e[-300:]
    return {"evaluations": seqs + n, "distinct_nontrivial": seqs, "rule": rule, "samples": ["%s: depth %d" % x for x in sorted(depths.items())][:8], "histories": seqs, "verdicts_compared": checks,
            "states": seqs, "transitions": checks, "schedules": n, "thread_programs": done, "thread_programs_of": of, "threads_note": note, "traces_validated_against_impl": seqs + n, "exhaustive": done == of and of > 0}


def ix_code(r, grpc=False, drivers=()):
    """The small schema of the index and gRPC checks, compiled; returns the class path and the folder of the generated classes."""
    r.plugin()
    d = r.path("jgen", "ix", "x")[:-2]
    os.makedirs(d, exist_ok=True)
    for k, (opt, body) in IX.items():
        imp = "import \"iz/iz.proto\";\n" if k == "ix" else ""
        r.write("proto/%s/%s.proto" % (k, k), "syntax = \"proto3\";\npackage pgvmc.%s;\nimport \"validate/validate.proto\";\n%soption java_package = \"pgvmc.j.%s\";\n%s\n%s" % (k, imp, k, opt, body))
    for k in IX:
        rc, o, e = r.protoc(["--java_out=" + d, "%s/%s.proto" % (k, k)])
        if rc:
            raise SystemExit("protoc --java_out failed on our schema: " + e[-1500:])
        if k == "iz":
            continue
        rc, o, e = r.protoc(["--plugin=protoc-gen-validate=" + r._plugin, "--validate_out=lang=java:" + d, "%s/%s.proto" % (k, k)])
        if rc:
            raise mc.Broken("the plugin rejects or crashes on a valid schema for Java: " + k, e[-3000:])
    cp = runtime(r, grpc=grpc, drivers=drivers)
    gen = r.path("jclass", "gen")
    javac(r, sources(d), gen, cp, "the generated Java code")
    return gen + ":" + cp, gen


def c22(r):
    cp, gen = ix_code(r, grpc=True, drivers=("Grpc.java",))
    depth = 6 if r.deep else 5
    rule = "every sequence of up to %d events over two calls and %d over one, of a server or client, raw and under stub services of the four kinds, with valid and invalid messages of two classes" % (depth, depth + 1)
    rc, o, e = r.sh(["java", "-Xmx6g", "-cp", cp, "pgvmc.Grpc", str(depth)])
    n = ev = 0
    for l in o.splitlines():
        if l.startswith("BAD\t"):
            _, fam, what = l.split("\t", 2)
            r.violation("%s|%s" % (fam, what[:200]), family=fam, what=what)
        elif l.startswith("DONE"):
            n, ev = map(int, l.split()[1:])
    if rc:
        if "TIMEOUT" in e:
            return {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
        raise mc.Broken("the interceptors crash", (o + e)[-3000:])
    return {"evaluations": n, "distinct_nontrivial": n, "rule": rule, "samples": ["server: m0 m2 half cancel", "client: m2 m0 half", "unary stub: m2 half complete"], "states": n, "transitions": ev,
            "traces_validated_against_impl": n, "exhaustive": n > 0}
