"""The checks, one per property."""
import combos as K
import schemas as S
import sizes as Z

CHECKS = {}


def check(pid, level):
    def deco(fn):
        CHECKS[pid] = (fn, level)
        return fn
    return deco


VERDICT_RULE = ("a case is one (message type, value) pair: every rule set of the bounded rule universe x every boundary value of the field type and of the rule's constants "
                "(all combinations up to the cap for messages with several fields); non-trivial and distinct: distinct (type, set of violated rules) outcomes by the reference model")


def go_report(r, rep, log, rule, extra=None):
    import mc
    if rep is None:
        if "TIMEOUT" in log:
            return {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
        raise mc.Broken("the exploration of generated code crashed", log)
    for v in rep["violations"] or []:
        r.violation("%s|%s|%s|%s" % (v["kind"], v["rules"], v["value"], v["got"]), **v)
    cov = {"evaluations": rep["calls"], "distinct_nontrivial": rep["outcomes"], "rule": rule, "samples": (rep["samples"] or ["none"])[:8],
           "message_types": rep["types"], "values": rep["values"], "values_invalid": rep["invalid"], "types_capped": rep["capped"], "types_skipped_on_deadline": rep["skipped"],
           "exhaustive": rep["capped"] == 0 and rep["skipped"] == 0}
    for k, v in (rep.get("extra") or {}).items():
        cov[k] = v
    cov.update(extra or {})
    return cov


def verdict(pid, files):
    @check(pid, "exploration")
    def fn(r):
        b = r.go_harness(files(r))
        rep, log = r.go_run(b, "verdict")
        return go_report(r, rep, log, VERDICT_RULE)


def num_files(r):
    n, k = S.num(), K.nums()
    return [x for t in S.NUM_TYPES for x in S.pack("num_" + t, K.more(n[t], k[t]), 90)] + S.pack("big", Z.numbers(), 90)


verdict("C01", num_files)
verdict("C02", lambda r: S.pack("str", K.more(S.strings(), K.strings(), K.triples()), 70) + S.pack("bigs", Z.strings()))
verdict("C03", lambda r: S.pack("fmt", K.more(S.formats(), K.formats()), 30))
verdict("C04", lambda r: S.pack("bbe", K.more(S.bytes_bool_enum(), K.bytess(True)), 60) + S.pack("bigb", Z.bytess()))
verdict("C05", lambda r: S.pack("rep", K.more(S.repeated(), K.in_lists()), 70) + S.pack("map", K.more(S.maps(), K.in_maps()), 70) + S.pack("big", Z.lists() + Z.maps() + Z.sparse(), 20))
verdict("C06", lambda r: S.pack("nest", K.more(S.nested(), K.in_oneofs()), 45) + S.pack("mix", S.mixed()) + S.pack("big", Z.chains() + Z.wide()) + S.pack("old", S.legacy()))
verdict("C07", lambda r: S.pack("wrap", K.more(S.wrappers(), K.anys(), K.in_wrappers()), 60))
verdict("C08", lambda r: S.pack("dur", K.more(S.durations(), S.timestamps(), K.times())))


def wide(r):
    """Every kind of rule once or a few times, and the mixed messages."""
    n = S.num(["int32", "uint64", "float", "double", "sfixed64"])
    fs = [S.pack("num_" + t, n[t], 200)[0] for t in n]
    return (fs + S.pack("str", S.strings(), 70) + S.pack("fmt", S.formats(), 30) + S.pack("bbe", S.bytes_bool_enum(), 60) + S.pack("rep", S.repeated(), 70) + S.pack("map", S.maps(), 70)
            + S.pack("nest", S.nested(), 45) + S.pack("mix", S.mixed()) + S.pack("wrap", S.wrappers(), 40) + S.pack("dur", S.durations()) + S.pack("ts", S.timestamps()))


def big_few():
    return S.pack("big", Z.chains() + Z.wide() + Z.lists()[::6] + Z.maps()[::5] + Z.strings()[::6])


def go_mode(pid, mode, rule):
    @check(pid, "exploration")
    def fn(r):
        b = r.go_harness(wide(r) + big_few())
        rep, log = r.go_run(b, mode)
        return go_report(r, rep, log, rule)


go_mode("C09", "all", "a case is one call of Validate or ValidateAll on one enumerated (type, value) pair; its error tree is compared with the reference model's violations (count, reasons and nesting per field, order of fields, multi-error text, membership of the single error); distinct: distinct (type, violation tree shape)")
go_mode("C10", "detail", "a case is one call of Validate or ValidateAll on one enumerated invalid (type, value) pair; every reported violation must equal one the reference model expects in field, index, reason, key flag, cause, error name and text; distinct: distinct (type, field, reason) reported")
go_mode("C19", "degen", "a case is one call of Validate or ValidateAll on a degenerate value: nil, empty, unknown fields, nil list/map elements and oneof messages, NaN, infinities, invalid UTF-8, unknown enums, malformed and extreme Duration/Timestamp, alone and combined; distinct: distinct (type, value class, outcome)")


@check("C18", "model_checking")
def c18(r):
    import glob, json, os, mc
    from concurrent.futures import ThreadPoolExecutor
    files = wide(r)
    rule = "histories: every sequence of Validate/ValidateAll/rewrite operations on two live messages; schedules: every interleaving of two calls at statement granularity up to the preemption bound"
    b = r.go_harness(files)
    rep, log = r.go_run(b, "history", PGVMC_DEPTH=4 if r.deep else 3)
    cov = go_report(r, rep, log, rule)
    out = {"states": cov["evaluations"] and rep["invalid"], "histories": rep["values"], "history_calls": rep["calls"], "history_depth": 4 if r.deep else 3, "message_types": rep["types"],
           "samples": rep["samples"][:4], "exhaustive": rep["skipped"] == 0}
    if rep.get("extra"):
        out.update(rep["extra"])
    # instrumented code under the scheduler
    gen = glob.glob(os.path.join(r.workspace(), "gen", "*", "*.pb.validate.go"))
    rc, o, e = r.sh(["go", "run", "./instr"] + gen, cwd=r.workspace())
    if rc:
        raise SystemExit("instrumentation failed: " + e[-2000:])
    out["scheduling_points"] = int(o.strip())
    b2 = r.path("bin", "sched.test")
    rc, o, e = r.sh(["go", "test", "-c", "-vet=off", "-o", b2, "./harness"], cwd=r.workspace())
    if rc:
        raise SystemExit("instrumented code does not build: " + (o + e)[-2000:])
    bound = 3 if r.deep else 2

    def shard(i):
        rep = r.path("sched-%d.json" % i)
        d = min(r.left() - 60, 240 if not r.deep else 7200)
        rc, o, e = r.sh([b2, "-test.run", "TestMC", "-test.timeout", "0"], cwd=r.workspace(), env=r.env(PGVMC_MODE="history", PGVMC_PART="schedule", PGVMC_OUT=rep, PGVMC_SHARD=str(i), PGVMC_SHARDS="8",
                        PGVMC_BOUND=str(bound), PGVMC_MAXRUNS="%d" % (200000 if r.deep else 1500), PGVMC_DEADLINE="%d" % max(5, d)))
        if rc or not os.path.exists(rep):
            return None, o + e
        return json.load(open(rep)), ""
    with ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(shard, range(8)))
    out["schedules"] = out["transitions"] = 0
    out["preemption_bound"] = bound
    out["preemption_bound_always_complete"] = 1
    out["schedule_pairs_capped"] = 0
    for rep2, log in reps:
        if rep2 is None:
            if "TIMEOUT" in log:
                out["exhaustive"] = False
                continue
            raise mc.Broken("exploring schedules crashed", log[-3000:])
        for v in rep2["violations"] or []:
            r.violation("%s|%s|%s" % (v["kind"], v["rules"], v["value"]), **v)
        out["schedules"] += rep2["values"]
        out["transitions"] += rep2["calls"]
        out["schedule_pairs_capped"] += rep2["capped"]
        out["samples"] += (rep2["samples"] or [])[:1]
        if rep2["capped"] or rep2["skipped"]:
            out["exhaustive"] = False
    out["traces_validated_against_impl"] = out["schedules"] + out["histories"]
    # the race detector, on its own, free running
    sub = [f for f in files if f.pkg.startswith(("mix", "rep0", "map0", "fmt0", "wrap0", "nest0"))]
    r2 = r.path("race")
    import shutil
    shutil.rmtree(os.path.join(r.workspace(), "gen"))
    b3 = r.go_harness(sub, "race.test", race=True)
    rc, o, e = r.sh([b3, "-test.run", "TestMC", "-test.timeout", "0"], cwd=r.workspace(), env=r.env(PGVMC_MODE="history", PGVMC_PART="race", PGVMC_OUT=r.path("race.json"), GORACE="halt_on_error=0 exitcode=66"))
    if "DATA RACE" in o + e:
        t = o + e
        i = t.index("WARNING: DATA RACE")
        r.violation("race", detail=t[i:i + 3000])
    elif rc and "TIMEOUT" not in e:
        raise mc.Broken("concurrent validation crashed", (o + e)[-3000:])
    else:
        out["race_detector_calls"] = json.load(open(r.path("race.json")))["calls"] if os.path.exists(r.path("race.json")) else 0
    return out


@check("C13", "exploration")
def c13(r):
    """Every bounded input to the real C++ predicates, under sanitizers."""
    import os, mc
    src = os.path.join(mc.VERIF, "cc", "predicates.cc")
    b = r.path("bin", "predicates")
    rc, o, e = r.sh(["g++", "-std=c++14", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", mc.REPO, src, "-o", b, "-lprotobuf", "-lpthread"])
    if rc:
        raise SystemExit("the predicate explorer does not build: " + e[-3000:])
    rc, o, e = r.sh([b] + (["deep"] if r.deep else []), env=r.env(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0"))
    counts, samples = {}, []
    done = None
    for l in o.splitlines():
        p = l.split()
        if not p:
            continue
        if p[0] == "BAD":
            r.violation("%s|%s" % (p[1], p[2]), predicate=p[1], input_hex=p[2], got=p[3], want=" ".join(p[4:]))
        elif p[0] == "COUNT":
            counts[l.split("|")[0][6:] + "|" + l.split("|")[1].split()[0]] = int(l.split("|")[1].split()[1])
            samples.append(l[6:160])
        elif p[0] == "DONE":
            done = int(p[1])
    if "Sanitizer" in e or "runtime error" in e:
        r.violation("sanitizer", detail=e[:4000])
    elif done is None and "TIMEOUT" not in e:
        raise mc.Broken("the C++ predicates crash", (o + e)[-3000:])
    return {"evaluations": done or 0, "distinct_nontrivial": sum(v for k, v in counts.items() if k.endswith("|true")), "rule": "a case is one input to one predicate; non-trivial: the reference answer is true (for counts: more than one code point)",
            "samples": samples[:8], "per_predicate": counts, "exhaustive": done is not None}


def cc_pick(r):
    """The part of the universe C++ implements, one message type per rule set."""
    n = S.num()
    fs = []
    num = [m for t in S.NUM_TYPES for m in n[t]]
    fs += S.pack("cnum", num, 60)
    fs += S.pack("cstr", S.strings(), 60)
    fs += S.pack("cfmt", S.formats(), 40)
    fs += S.pack("cbbe", S.bytes_bool_enum(), 60)
    fs += S.pack("crep", S.repeated(), 60)
    fs += S.pack("cmap", S.maps(), 60)
    fs += S.pack("cnest", S.nested(), 40)
    fs += S.pack("cwrap", S.wrappers(), 60)
    fs += S.pack("cdur", S.durations(), 60)
    fs += S.pack("cts", S.timestamps(), 60)
    fs += S.pack("cmix", S.mixed())
    fs += S.pack("cmore", K.cc_rest(), 60)
    fs += S.pack("cbig", Z.all(), 40)
    if r.deep:
        fs += S.pack("call", K.more(K.triples(), K.all_positions()), 60)
    return fs


def cc_run(r, files, rule, judge="10", texts=None, says=None, hist=False, cap="700"):
    import mc
    b = r.go_harness(files)
    cases, res = r.path("cases.txt"), r.path("cases.out")
    rep, log = r.go_run(b, "dump", PGVMC_CASES=cases, PGVMC_FULLMATCH="1", PGVMC_CC="1", PGVMC_MAX="4000" if r.deep else cap, **({"PGVMC_TEXTS": texts} if texts else {}))
    if rep is None:
        raise SystemExit("writing the cases failed: " + log[-2000:])
    types = [l[2:].strip() for l in open(cases) if l.startswith("T ")]
    if mc.cc_cases(r, files, cases, res, types, judge, says, hist) is None:
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
    tot = [0] * 7
    hs = [0, 0]
    for i in range(8):
        for l in open(res + ".%d" % i):
            p = l.rstrip("\n").split("\t")
            if p[0] == "HBAD":
                r.violation("history|%s|%s" % (p[1].split(".")[1].rstrip("0123456789"), p[1]), type=p[1], what=p[2])
            elif l.startswith("HIST"):
                hs = [a + int(x) for a, x in zip(hs, l.split()[1:])]
            if p[0] == "BAD":
                r.violation("%s|%s|%s" % (p[1].split(".")[1].rstrip("0123456789"), p[1], p[2]), type=p[1], wire_hex=p[2], got=p[3], want=p[4], error=p[5] if len(p) > 5 else "")
            elif l.startswith("MISSING"):
                raise SystemExit(l)
            elif l.startswith("DONE"):
                tot = [a + int(x) for a, x in zip(tot, l.split()[1:])]
    return {"evaluations": tot[1] - tot[6], "distinct_nontrivial": rep["outcomes"], "rule": rule, "samples": (rep["samples"] or [])[:6], "message_types": tot[0], "not_representable": tot[2],
            "answered_valid": tot[3], "answered_invalid": tot[4], "threw_unimplemented": tot[5], "run_but_not_judged": tot[6], "types_capped": rep["capped"], "exhaustive": rep["capped"] == 0,
            **({"histories": hs[0], "calls": hs[1]} if hist else {})}


@check("C11", "exploration")
def c11(r):
    return cc_run(r, cc_pick(r), VERDICT_RULE)


@check("C12", "exploration")
def c12(r):
    return cc_run(r, S.pack("cuni", K.more(S.unimplemented(), K.cc_unimplemented()), 60), "a case is one message value of one type; non-trivial: distinct outcomes (valid, or the set of rules it violates or reaches)", "10TNM")


@check("C14", "exploration")
def c14(r):
    """Every contradiction at every position must be refused, its neighbours accepted."""
    import gencases as G, genrun, mc, re
    head = lambda p: genrun.HEAD % (p, "x/" + p) + G.PRE
    cases = G.cases(r.deep)
    good = [c for c in cases if c[2]]
    bad = [c for c in cases if not c[2]]
    texts, jobs, meta = {}, [], []

    def job(files, param, m):
        jobs.append({"files": files, "param": param})
        meta.append(m)
    for i, c in enumerate(bad):
        p = "b%d.proto" % i
        texts[p] = head("b%d" % i) + "message M { %s }\n" % c[1]
        for l in ("go", "cc", "java") if c[3] else ("go",):
            job([p], "lang=" + l, ("bad", l, c))
    per = 80
    for i in range(0, len(good), per):
        p = "g%d.proto" % (i // per)
        texts[p] = head("g%d" % (i // per)) + "".join("message M%d { %s }\n" % (k, c[1]) for k, c in enumerate(good[i:i + per]))
        job([p], "lang=go", ("good", "go", good[i:i + per]))
    # several files: every order, every place of the bad one, repeated because
    # the generator walks its targets in no fixed order
    few = [c for c in bad if c[3] and not c[0].endswith(("-oneof", "-second"))][:: max(1, len(bad) // (400 if r.deep else 60))]
    texts["ok1.proto"] = head("ok1") + "message M { int32 n = 1 [(validate.rules).int32 = {gt: 1}]; }\n"
    texts["ok2.proto"] = head("ok2") + "message M { string s = 1 [(validate.rules).string = {well_known_regex: HTTP_HEADER_NAME}]; }\n"
    for i, c in enumerate(few):
        p = "m%d.proto" % i
        texts[p] = head("m%d" % i) + "message First { int32 n = 1; }\nmessage M { %s }\nmessage Last { Sub s = 1; }\n" % c[1]
        q = "u%d.proto" % i
        texts[q] = head("u%d" % i) + 'import "%s";\nmessage User { m%d.Last l = 1; }\n' % (p, i)
        import itertools
        for n in (1, 2, 3):
            for fs in itertools.permutations(["ok1.proto", "ok2.proto", p], n):
                if p in fs:
                    for rep in range(2):
                        for l in ("go", "cc", "java"):
                            job(list(fs), "lang=" + l, ("bad", l, (c[0] + "-file%d" % n, c[1], False, True)))
        for l in ("go", "cc", "java"):
            job([q], "lang=" + l, ("user", l, (c[0] + "-imported", c[1], True, True)))
            job([p, q], "lang=" + l, ("bad", l, (c[0] + "-with-user", c[1], False, True)))
    ds = genrun.descriptors(r, texts)
    res = genrun.run_jobs(r, ds, jobs)
    if res is None:
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "timed out", "samples": ["timed out"], "exhaustive": False}
    again = []
    n_acc = 0
    for m, x in zip(meta, res):
        kind, lang, c = m
        if kind == "bad":
            if x["exit"] == 0 or x["files"]:
                r.violation("accepted|%s|%s|%s" % (lang, c[0], c[1]), lang=lang, position=c[0], schema=c[1], what="accepted" if x["exit"] == 0 else "wrote files although it failed")
        elif kind == "user":
            if x["exit"]:
                r.violation("rejected|%s|%s|%s" % (lang, c[0], c[1]), lang=lang, position=c[0], schema="a file that imports one with: " + c[1], error=x["err"])
        elif x["exit"]:
            again += c
        else:
            n_acc += len(c)
    if again:
        t2, j2 = {}, []
        for i, c in enumerate(again):
            t2["a%d.proto" % i] = head("a%d" % i) + "message M { %s }\n" % c[1]
            j2.append({"files": ["a%d.proto" % i], "param": "lang=go"})
        for c, x in zip(again, genrun.run_jobs(r, genrun.descriptors(r, t2), j2) or []):
            if x["exit"]:
                r.violation("rejected|go|%s|%s" % (c[0], c[1]), lang="go", position=c[0], schema=c[1], error=x["err"])
            else:
                n_acc += 1
    return {"evaluations": len(jobs) + len(again), "distinct_nontrivial": len(bad), "rule": "a case is one schema (a set of rules at one position, or a set of files); non-trivial and distinct: schemas that must be refused",
            "samples": ["refused %s: %s" % (c[0], c[1][:150]) for c in bad[:: max(1, len(bad) // 6)]] + ["accepted %s: %s" % (c[0], c[1][:150]) for c in good[:: max(1, len(good) // 3)]],
            "schemas_to_refuse": len(bad), "schemas_to_accept": len(good), "accepted": n_acc, "plugin_runs": len(jobs), "exhaustive": True}


@check("C16", "exploration")
def c16(r):
    import layout
    return layout.c16(r)


@check("C17", "exploration")
def c17(r):
    import stable
    return stable.c17(r)


@check("C15", "exploration")
def c15(r):
    import compiles
    return compiles.c15(r)


def java_pick(r):
    """One file per family, numbers of four types, pairs and positions as for C++."""
    n = S.num(S.NUM_TYPES if r.deep else ["int32", "uint32", "uint64", "float", "double", "sfixed64"])
    fs = S.pack("jnum", [m for t in n for m in n[t]], 60)
    for k, ms in (("jstr", S.strings()), ("jfmt", S.formats()), ("jbbe", S.bytes_bool_enum()), ("jrep", S.repeated()), ("jmap", S.maps()), ("jnest", S.nested()), ("jwrap", S.wrappers()),
                  ("jts", S.durations() + S.timestamps()), ("jmore", K.java_pairs())):
        fs += S.pack(k, ms, 60)
    fs += S.pack("jmix", S.mixed())
    fs += S.pack("jbig", Z.all(True), 60)
    fs.append(S.File("jundef", [S.Msg(b, S.ENUMS) for b in (
        "EPlain val = 1 [(validate.rules).enum = {const: 7}];", "EPlain val = 1 [(validate.rules).enum = {in: [7]}];", "EPlain val = 1 [(validate.rules).enum = {not_in: [7]}];",
        "repeated EPlain val = 1 [(validate.rules).repeated = {unique: true}];")]))
    if r.deep:
        fs += S.pack("jall", K.more(K.strings(), K.triples(), K.all_positions()), 60)
    return fs


@check("C20", "exploration")
def c20(r):
    import java
    return java.c20(r, java_pick(r), VERDICT_RULE)


@check("C21", "exploration")
def c21(r):
    import java
    return java.c21(r)


@check("C22", "exploration")
def c22(r):
    import java
    return java.c22(r)


@check("C23", "exploration")
def c23(r):
    import python
    return python.c23(r, java_pick(r) + S.pack("jpy", S.python_names(), 60), VERDICT_RULE)


@check("C24", "exploration")
def c24(r):
    """Fields declared optional, in every language."""
    import os, shutil
    import java, python

    def fresh():
        shutil.rmtree(os.path.join(r.workspace(), "gen"), ignore_errors=True)
    ms = S.optionals()
    by = {}
    for m in ms:
        k = m.body.split("=")[0] if "mixed" not in m.tags and "nested" not in m.tags else None
        by.setdefault(k, []).append(m)
    few = [m for k, v in by.items() for m in (v if k is None or r.deep else v[:: max(1, len(v) // 12)])]
    cov = go_report(r, *r.go_run(r.go_harness(S.pack("opt", ms, 70)), "verdict"), rule=VERDICT_RULE)
    for lang, fn in (("cc", lambda fs: cc_run(r, fs, VERDICT_RULE)), ("java", lambda fs: java.c20(r, fs, VERDICT_RULE)), ("python", lambda fs: python.c23(r, fs, VERDICT_RULE))):
        fresh()
        c = fn(S.pack("o" + lang, few, 60))
        cov[lang] = {k: v for k, v in c.items() if isinstance(v, int)}
        cov["evaluations"] += c["evaluations"]
        cov["exhaustive"] = cov["exhaustive"] and c["exhaustive"]
    return cov


@check("C25", "exploration")
def c25(r):
    import says
    return says.c25(r, "a case is one rejection: one invalid message and what the validator says about it; distinct: distinct (type, text)")


@check("C26", "exploration")
def c26(r):
    """Every short history of calls on the C++ and the Java validators."""
    import java
    few = (lambda fs: fs) if r.deep else (lambda fs: fs[::2])
    return java.histories(r, few(cc_pick(r)), few(java_pick(r)), "a history is a sequence of calls on the values of one type; distinct: distinct outcomes (valid, or the rules violated) of the values the histories are made of")


def conc_pick(r):
    """Every so many of each family of C++."""
    n = S.num()
    fs = []
    for k, ms, q in (("cnum", [m for t in S.NUM_TYPES for m in n[t]], 30), ("cstr", S.strings(), 10), ("cfmt", S.formats(), 2), ("cbbe", S.bytes_bool_enum(), 7), ("crep", S.repeated(), 8), ("cmap", S.maps(), 8),
                     ("cnest", S.nested(), 3), ("cwrap", S.wrappers(), 10), ("cdur", S.durations(), 5), ("cts", S.timestamps(), 5), ("cmore", K.cc_rest(), 40), ("cbig", Z.all(), 8)):
        fs += S.pack(k, ms[::1 if r.deep else q], 40)
    return fs + S.pack("cmix", S.mixed())


@check("C27", "exploration")
def c27(r):
    """Every schedule of two validations at the same time, C++ and Java."""
    import conc, os, shutil
    rule = "a case is one schedule of two calls on two values of one type; distinct: distinct outcomes (valid, or the rules violated) of the values"
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": [], "exhaustive": True, "transitions": 0}
    fam = {}
    for f in java_pick(r):
        fam.setdefault(f.pkg.rstrip("0123456789"), []).append(f)
    fam.pop("jundef")
    if not r.deep:
        fam.pop("jbig")
    js = [f for k, v in fam.items() for f in (v if r.deep else v[1:2] + v[4::8] if k == "jmore" else v[::4] if k != "jts" else v)]
    for lang, run, fs in (("cc", conc.cc, conc_pick(r)), ("java", conc.java, js)):
        shutil.rmtree(os.path.join(r.workspace(), "gen"), ignore_errors=True)
        import time
        t = time.time()
        c = run(r, fs, "60")
        if c is None:
            return {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
        cov[lang] = dict({k: v for k, v in c.items() if isinstance(v, int)}, seconds=round(time.time() - t))
        cov["evaluations"] += c["schedules"]
        cov["transitions"] += c["points"]
        cov["distinct_nontrivial"] += c["outcomes"]
        cov["samples"] += c["samples"]
        cov["exhaustive"] = cov["exhaustive"] and c["finished"]
    return cov
