"""C27: every schedule of two validations in C++ (cc/conc.cc)."""
import glob, os
from concurrent.futures import ThreadPoolExecutor
import mc
from mc import Broken, VERIF, REPO

WRAP = ("pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")


def cc(r, files, cap):
    b = r.go_harness(files)
    cases, res = r.path("cases.txt"), r.path("conc.out")
    rep, log = r.go_run(b, "dump", PGVMC_CASES=cases, PGVMC_FULLMATCH="1", PGVMC_CC="1", PGVMC_MAX=cap)
    if rep is None:
        raise SystemExit("writing the cases failed: " + log[-2000:])
    types = [l[2:].strip() for l in open(cases) if l.startswith("T ")]
    gen = mc.cc_gen(r, files)
    here = os.path.join(VERIF, "cc")
    inc = ["-std=c++14", "-w", "-c", "-I", gen, "-I", REPO, "-I", here]
    plain = ["g++", "-O0"] + inc
    watched = ["clang++", "-O0", "-g1", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard", "-fsanitize-coverage-ignorelist=" + os.path.join(here, "points.ignore")] + inc
    jobs = [(plain, os.path.join(here, "conc.cc"), False), (plain, os.path.join(gen, "validate/validate.pb.cc"), False)]
    for f in files:
        base = os.path.join(gen, f.path[:-6])
        reg = "#include \"conc.h\"\n#include \"%s.pb.validate.h\"\n" % f.path[:-6]
        for i, t in enumerate(t for t in types if t.split(".")[1] == f.pkg):
            reg += "static Con<%s> r%d(\"%s\");\n" % (mc.cc_class(t), i, t)
        jobs += [(plain, base + ".pb.cc", False), (watched, base + ".pb.validate.cc", True), (plain, r.write("ccgen/%s.reg.cc" % f.pkg, reg), True)]

    def comp(j):
        flags, src, own = j
        o_ = r.path("obj", src.replace("/", "_") + ".o")
        return (src, own) + r.sh(flags + [src, "-o", o_]) + (o_,)
    with ThreadPoolExecutor(mc.JOBS) as ex:
        objs = list(ex.map(comp, sorted(jobs, key=lambda j: j[0] is plain)))
    for src, own, rc, o, e, _ in objs:
        if rc and "TIMEOUT" in e:
            return None
        if rc:
            if own:
                raise Broken("generated C++ code does not compile: " + os.path.basename(src), e[-4000:])
            raise SystemExit("C++ compilation failed: " + src + "\n" + e[-3000:])
    b = r.path("bin", "conc")
    # what is instrumented comes first: of an inline function the first is linked
    rc, o, e = r.sh(["clang++", "-fsanitize=thread", "-o", b] + ["-Wl,--wrap=" + w for w in WRAP] + [x[5] for x in sorted(objs, key=lambda x: not x[0].endswith("validate.cc"))] + ["-lprotobuf", "-lre2", "-lpthread"])
    if rc:
        raise Broken("generated C++ code does not link", e[-3000:])
    log = r.path("race")
    # a table of the C++ library itself, filled in on demand with what is there anyway
    quiet = r.write("race.quiet", "race:std::ctype<\n")
    rc, o, e = r.sh([b, cases, res] + (["60000", "1"] if r.deep else ["400", "6"]), env=dict(os.environ, TSAN_OPTIONS="exitcode=0:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0:die_after_fork=0:suppressions=%s:log_path=%s" % (quiet, log)))
    if rc and "TIMEOUT" not in e:
        raise SystemExit("the explorer of schedules failed: " + (o + e)[-3000:])
    said = "".join(open(p, errors="replace").read()[:6000] for p in sorted(glob.glob(log + ".*"))[:3])
    tot, types_run, values = [0] * 5, 0, 0
    for i in range(8):
        for l in open(res + ".%d" % i):
            p = l.rstrip("\n").split("\t")
            if p[0] == "BAD":
                r.violation("%s|%s|%s" % (p[2], p[1].split(".")[1].rstrip("0123456789"), p[1]), type=p[1], what=p[3], **({"race": said} if p[2] == "race" else {}))
            elif l.startswith("MISSING"):
                raise SystemExit(l)
            elif l.startswith("COUNT"):
                tot = [a + int(x) for a, x in zip(tot, l.split()[1:])]
            elif l.startswith("DONE"):
                types_run += int(l.split()[1])
                values += int(l.split()[2])
    return {"schedules": tot[0], "points": tot[1], "pairs_with_two_preemptions": tot[2], "let_go": tot[3], "of_a_new_process": tot[4], "message_types": types_run, "values": values, "outcomes": rep["outcomes"], "samples": (rep["samples"] or [])[:4], "finished": not rc}


def java(r, files, cap):
    import java as J
    b = r.go_harness(files)
    cases, res = r.path("cases.txt"), r.path("conc.out")
    rep, log = r.go_run(b, "dump", PGVMC_CASES=cases, PGVMC_FULLMATCH="1", PGVMC_JAVA="1", PGVMC_MAX=cap)
    if rep is None:
        raise SystemExit("writing the cases failed: " + log[-2000:])
    cp = J.runtime(r, drivers=("Sched.java", "SMap.java", "RMap.java", "Instr.java", "Cases.java", "ConcSide.java", "ConcRun.java", "Conc.java"))
    out = J.compile_all(r, files, J.generate(r, files), cp)
    if out is None:
        return None
    rc, o, e = r.sh(["java", "-Xss8m", "-Xmx8g", "-XX:+UseParallelGC"] + J.ASM + ["-cp", out + ":" + cp, "pgvmc.Conc", cases, res] + (["3", "60"] if r.deep else ["2", "40"]))
    if rc:
        if "TIMEOUT" in e:
            return None
        raise Broken("the Java validators crash", (o + e)[-3000:])
    tot = [0] * 5
    for l in open(res, encoding="utf-8", errors="replace"):
        p = l.rstrip("\n").split("\t")
        if p[0] == "BAD":
            r.violation("java|%s|%s" % (p[1].split(".")[1].rstrip("0123456789"), p[1]), lang="java", type=p[1], what=p[2])
        elif l.startswith("DONE"):
            tot = [a + int(x) for a, x in zip(tot, l.split()[1:])]
    return {"schedules": tot[1], "points": tot[2], "message_types": tot[0], "values": tot[3], "pairs_with_more_preemptions": tot[4], "outcomes": rep["outcomes"], "samples": (rep["samples"] or [])[:4], "finished": True}
