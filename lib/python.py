"""C23: the Python validators (python/protoc_gen_validate/validator.py), run on
stand-ins for jinja2, google.protobuf and validate_email (../py)."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
import mc


def c23(r, files, rule):
    b = r.go_harness(files)
    cases, res = r.path("cases.txt"), r.path("cases.out")
    rep, log = r.go_run(b, "dump", PGVMC_CASES=cases, PGVMC_PY="1", PGVMC_MAX="4000" if r.deep else "500")
    if rep is None:
        raise SystemExit("writing the cases failed: " + log[-2000:])
    ds = r.path("desc.bin")
    rc, o, e = r.protoc(["--include_imports", "--descriptor_set_out=" + ds] + [f.path for f in files])
    if rc:
        raise SystemExit("protoc failed on our schema: " + e[-1500:])

    def one(i):
        return r.sh([sys.executable, "-B", os.path.join(mc.VERIF, "py", "cases.py"), mc.REPO, ds, cases, res + ".%d" % i, "10", str(i), "8"], env=r.env(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(one, range(8)))
    none = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": ["timed out"], "exhaustive": False}
    for rc, o, e in runs:
        if "TIMEOUT" in e:
            return none
        if rc:
            raise mc.Broken("the Python validator cannot be loaded or crashes", (o + e)[-3000:])
    tot = [0] * 7
    text = {k: v for f in files for k, v in f.rules.items()}
    for i in range(8):
        for l in open(res + ".%d" % i, encoding="utf-8", errors="replace"):
            p = l.rstrip("\n").split("\t")
            if p[0] == "BAD":
                r.violation("%s|%s|%s" % (p[1].split(".")[1].rstrip("0123456789"), p[1], p[2]), type=p[1], rules=text.get(p[1], ""), wire_hex=p[2], got=p[3], want=p[4], error=p[5] if len(p) > 5 else "")
            elif l.startswith("MISSING"):
                raise SystemExit(l)
            elif l.startswith("DONE"):
                tot = [a + int(x) for a, x in zip(tot, l.split()[1:])]
    return {"evaluations": tot[1] - tot[6], "distinct_nontrivial": rep["outcomes"], "rule": rule, "samples": (rep["samples"] or [])[:6], "message_types": tot[0], "not_representable": tot[2],
            "answered_valid": tot[3], "answered_invalid": tot[4], "other_outcome": tot[5], "run_but_not_judged": tot[6], "types_capped": rep["capped"], "exhaustive": rep["capped"] == 0}
