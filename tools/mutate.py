#!/usr/bin/env python3
"""mutate.py PER_FILE OUT [FILE_SUBSTRING...]: small mechanical changes to the
code under test, spread evenly over each file, and which checks notice them."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![=\-<])(?=\s)", "<="), (r"(?<=\s)>(?!=)", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\beq\b", "ne"), (r"\bne\b", "eq"),
       (r"\bor\b(?= )", "and"), (r"\band\b(?= )", "or"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"Lte\b", "Lt"), (r"\.Lt\b", ".Lte"), (r"Gte\b", "Gt"), (r"GetGt\b", "GetGte"), (r"Min(?=[A-Z])", "Max"), (r"Max(?=[A-Z])", "Min"),
       (r"\bKey\b", "Elem"), (r"GetIn\b", "GetNotIn"), (r"GetNotIn\b", "GetIn"), (r"\bnot\b ", ""), (r"!(?=[a-z(])", ""), (r"\b(\d+)\b", None), (r"^(\s*)(return [^{]*|continue;?|break;?|errors = append\(.*\))$", r"\1")]
SKIP = re.compile(r"^\s*(//|\*|/\*|import|package|\"|$|const \w+Tpl|#include|\{\{-? ?/\*)")
MAP = [("templates/goshared/(const|ltgt|in|num)", "C01 C04 C02 C09"), ("templates/goshared/(duration|timestamp)|templates/go/(duration|timestamp)", "C08 C10 C15"), ("templates/goshared/bytes", "C04 C09"),
       ("templates/goshared/string", "C02 C03 C09"), ("templates/goshared/known", "C03 C10"), ("templates/goshared/(rep|map)", "C05 C10 C09"), ("templates/goshared/(any|wrapper)", "C07 C06 C10"),
       ("templates/goshared/enum", "C04 C05"), ("templates/goshared/msg|templates/go/(message|required)", "C06 C09 C10 C18 C19"), ("templates/goshared/register|templates/go/", "C01 C02 C05 C08 C15 C10 C17"),
       ("templates/cc/", "C12 C11 C15 C16"), ("templates/java/", "C20 C15 C16"), ("validate/validate.h", "C13 C11"), ("Index", "C21"), ("grpc", "C22"), ("java/", "C20 C21"), ("module/", "C14 C16 C17"),
       ("templates/shared/", "C06 C05 C14 C16 C03 C11 C20"), ("main.go|templates/pkg", "C16 C14"), (".", "C14 C16")]


def mutants(path):
    lines = open(os.path.join("/repo", path)).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if SKIP.match(l):
            continue
        for pat, to in OPS:
            for m in re.finditer(pat, l):
                rep = str(int(m.group(1)) + 1) if to is None else m.expand(to)
                n = l[:m.start()] + rep + l[m.end():]
                if n != l:
                    out.append((i, n, l))
    return lines, out


def one(job):
    path, i, new, old = job
    name = hashlib.md5(repr(job).encode()).hexdigest()[:8]
    w = "/tmp/mut/" + name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        s = open(os.path.join(w, path)).read().split("\n")
        assert s[i] == old
        s[i] = new
        open(os.path.join(w, path), "w").write("\n".join(s))
        env = dict(os.environ, GOFLAGS="-mod=readonly", GOTOOLCHAIN="local", GOPROXY="off", GOCACHE="/verif/.cache/go", CGO_ENABLED="0")
        if path.endswith(".go") and subprocess.run(["go", "build", "-o", "/dev/null", "."], cwd=w, env=env, capture_output=True).returncode:
            return
        checks = next(c for p, c in MAP if re.search(p, path)).split()
        t, res = time.time(), "SURVIVED"
        for c in checks:
            p = subprocess.run(["python3", "/verif/run.py", c, "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, PGV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
            if p.returncode == 1 and "VIOLATION property=%s " % c in p.stdout:
                res = "caught " + c
                break
            if p.returncode:
                res = "ERROR " + c + " " + (p.stdout + p.stderr)[-300:].replace("\n", " ")
                break
        with open(OUT, "a") as f:
            f.write("%s\t%s:%d\t%.0fs\n\t- %s\n\t+ %s\n" % (res, path, i + 1, time.time() - t, old.strip(), new.strip()))
    finally:
        shutil.rmtree(w, ignore_errors=True)


PER, OUT = int(sys.argv[1]), sys.argv[2]
fs = subprocess.run(["git", "-C", "/repo", "ls-files"], capture_output=True, text=True).stdout.split()
fs = [f for f in fs if re.match(r"(templates|module|java/pgv-java-(stub|grpc)/src/main|main\.go|validate/validate\.h)", f) and f.endswith((".go", ".h", ".java")) and not f.endswith("_test.go")]
fs = [f for f in fs if not sys.argv[3:] or any(x in f for x in sys.argv[3:])]
off = int(os.environ.get("OFFSET", "0"))
jobs = []
for f in fs:
    _, ms = mutants(f)
    n = min(PER, max(2, len(ms) // 6))
    for k in range(min(n, len(ms))):
        i, new, old = ms[(k * len(ms) // n + off) % len(ms)]
        jobs.append((f, i, new, old))
print(len(jobs), "mutants")
with ThreadPoolExecutor(int(os.environ.get("WORKERS", "2"))) as ex:
    list(ex.map(one, jobs))
