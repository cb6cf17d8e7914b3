#!/usr/bin/env python3
"""plant.py FILE: authors planted bugs. FILE defines seeds with seed(...)."""
import json, os, shutil, subprocess, sys
S = "/verif/seeded"; KIT = "/verif/tools/kit.sh"
def seed(id, prop, needs, breaks, edits, demo, **files):
    """edits: [(file, old, new[, count])] against /repo's HEAD; demo: what
    demo.sh does after the kit; files: name -> content (x_proto -> x.proto)."""
    if ONLY and id not in ONLY: return
    w = "/tmp/plant-wt"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"], check=True)
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(w, f); s = open(p).read()
            n = e[3] if len(e) > 3 else 1
            assert s.count(old) >= 1, (id, f, old)
            assert n == -1 or s.count(old) == 1 or len(e) > 3, (id, f, old, s.count(old))
            if n == -1: s = s.replace(old, new)
            elif len(e) > 3: # n-th occurrence, 1-based
                i = -1
                for _ in range(n): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            else: s = s.replace(old, new)
            open(p, "w").write(s)
        d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        assert d, id
        added = subprocess.run(["git", "-C", "/repo", "diff", "-U0", "121b545", "HEAD"], capture_output=True, text=True).stdout
        mine = {l[1:].strip() for l in added.splitlines() if l.startswith("+") and len(l.strip()) > 4}
        for l in d.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() in mine: print(id, "CHANGES A LINE OF MINE:", l)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    o = os.path.join(S, id)
    shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    open(o + "/patch.diff", "w").write(d)
    shutil.copy(KIT, o + "/kit.sh")
    open(o + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n' + demo.strip() + "\n")
    os.chmod(o + "/demo.sh", 0o755)
    for k, v in files.items(): open(o + "/" + k.replace("__", "/").replace("_proto", ".proto").replace("_go", ".go").replace("_cc", ".cc").replace("_py", ".py").replace("_java", ".java"), "w").write(v)
    if "py_demo" in demo: shutil.copytree("/verif/py", o + "/py", ignore=shutil.ignore_patterns("__pycache__", "cases.py"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print(id, "written")
P3 = 'syntax = "proto3";\npackage x;\noption go_package = "demo/x";\nimport "validate/validate.proto";\n'
def gomain(body, imports=""):
    return 'package main\nimport (\n\t"fmt"\n\t"os"\n\t"demo/x"\n%s)\nvar _ = fmt.Sprint\nvar _ x.M\nfunc want(ok bool, err error, what string) {\n\tif ok != (err == nil) { fmt.Println("WRONG:", what, "got", err); os.Exit(1) }\n}\nfunc check(ok bool, what string) {\n\tif !ok { fmt.Println("WRONG:", what); os.Exit(1) }\n}\nfunc main() {\n%s\n}\n' % (imports, body)
def ccmain(body, inc=""):
    return '#include <iostream>\n#include "x.pb.h"\n#include "x.pb.validate.h"\n%s\nstatic void want(bool ok, const x::M& m, const char* what) {\n  pgv::ValidationMsg e;\n  if (Validate(m, &e) != ok) { std::cout << "WRONG: " << what << ": " << e << "\\n"; exit(1); }\n}\nstatic void throws(const x::M& m, const char* what) {\n  pgv::ValidationMsg e;\n  try { Validate(m, &e); } catch (pgv::UnimplementedException&) { return; }\n  std::cout << "WRONG: " << what << " did not throw\\n"; exit(1);\n}\nint main() {\n%s\n  return 0;\n}\n' % (inc, body)
J3 = P3 + 'option java_package = "x";\noption java_multiple_files = true;\n'
def jmain(body, members="", imports=""):
    return 'import io.envoyproxy.pgv.*;\nimport x.*;\n%s\npublic class Main {\n%s\n    static void check(boolean ok, String what) { if (!ok) { System.out.println("WRONG: " + what); System.exit(1); } }\n    static ValidatorIndex index = new ReflectiveValidatorIndex();\n    static boolean ok(Object m) { try { index.validatorFor(m).assertValid(m); return true; } catch (ValidationException e) { return false; } }\n    public static void main(String[] a) throws Exception {\n%s\n    }\n}\n' % (imports, members, body)
def pmain(body):
    return """import importlib.util, subprocess, sys
repo, desc, here = sys.argv[1:4]
import pgvrt
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("validator", repo + "/python/protoc_gen_validate/validator.py")
V = importlib.util.module_from_spec(spec)
sys.modules["validator"] = V
spec.loader.exec_module(V)
pool = pgvrt.Pool(open(desc, "rb").read())


def want(ok, text, name="x.M"):
    wire = subprocess.run(["protoc", "-I", here, "-I", repo, "--encode=" + name] + sys.argv[4:], input=text.encode(), capture_output=True, check=True).stdout
    m = pgvrt.Message(pool.messages[name])
    m.ParseFromString(wire)
    try:
        V.validate(m)
        got = True
    except V.ValidationFailed:
        got = False
    if got != ok:
        print("WRONG:", name, text, "got", got)
        sys.exit(1)


""" + body.strip() + "\n"
ONLY = set(sys.argv[2:])
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
