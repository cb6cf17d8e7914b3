"""Shared machinery: building the plugin from /repo's working tree, generating
and compiling, reporting."""
import atexit, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PGV_REPO", "/repo")
T0 = time.time()
JOBS = 8


class Broken(Exception):
    """The code under test fails to do its part (reported as a violation)."""

    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what, self.detail = what, detail


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.deep = tier == "thorough"
        self.budget = 780 if not self.deep else 6 * 3600
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        atexit.register(self.clean)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.violations = []       # (signature, dict)
        self.coverage = {}
        self.assumptions = []
        self._plugin = None

    def clean(self):
        if not os.environ.get("PGVMC_KEEP"):
            subprocess.call(["chmod", "-R", "u+w", self.work], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.work, ignore_errors=True)

    # ---- environment -------------------------------------------------
    def env(self, mod="mod", **kw):
        e = dict(os.environ)
        e.pop("GOWORK", None)
        e.pop("DEBUG_PGV", None)
        e.update(HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=" + mod,
                 GOMODCACHE="/root/go/pkg/mod", GOPATH="/root/go", GOCACHE=self.gocache(), GOBIN=os.path.join(self.work, "gobin"), CGO_ENABLED="0", GOWORK="off")
        e.update(kw)
        return e

    def gocache(self):
        """A Go build cache of our own, warmed from the build's when there is one."""
        d = os.path.join(VERIF, ".cache", "go")
        if not os.path.isdir(d):
            tmp = d + ".%d" % os.getpid()
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if os.path.isdir("/opt/vp/gocache"):
                subprocess.call(["cp", "-a", "/opt/vp/gocache", tmp])
            os.makedirs(tmp, exist_ok=True)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return d

    def sh(self, cmd, cwd=None, env=None, timeout=None, input=None, text=True):
        left = self.left()
        p = subprocess.Popen(cmd, cwd=cwd, env=env or self.env(), stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=text, errors="replace" if text else None, start_new_session=True)
        try:
            o, e = p.communicate(input, timeout=min(timeout or left, left))
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
            return -9, o, (e or ("" if text else b"")) + (" TIMEOUT" if text else b" TIMEOUT")

    def left(self):
        return max(5, self.budget - (time.time() - T0))

    def path(self, *p):
        d = os.path.join(self.work, *p)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        return d

    def write(self, rel, text):
        p = self.path(rel)
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)
        return p

    # ---- building ----------------------------------------------------
    def plugin(self):
        if self._plugin is None:
            b = self.path("bin", "protoc-gen-validate")
            rc, o, e = self.sh(["go", "build", "-o", b, "."], cwd=REPO, env=self.env("readonly"))
            if rc:
                raise SystemExit("the plugin does not build: " + e[-2000:])
            g = self.path("bin", "protoc-gen-go")
            rc, o, e = self.sh(["go", "build", "-o", g, "google.golang.org/protobuf/cmd/protoc-gen-go"], cwd=REPO, env=self.env("readonly"))
            if rc:
                raise SystemExit("protoc-gen-go does not build: " + e[-2000:])
            self._plugin = b
        return self._plugin

    def protoc(self, args, cwd=None, timeout=300):
        return self.sh(["protoc", "-I", self.path("proto"), "-I", REPO] + args, cwd=cwd, timeout=timeout)

    def protos(self, files):
        for f in files:
            self.write("proto/" + f.path, f.text)

    def gen_go(self, files):
        """Generates protobuf-go and validator code into the Go workspace."""
        self.plugin()
        ws = self.workspace()
        self.protos(files)

        def one(f):
            rc, o, e = self.protoc(["--plugin=protoc-gen-go=" + self.path("bin", "protoc-gen-go"), "--go_out=module=pgvmc:" + ws, f.path])
            if rc:
                raise SystemExit("protoc-gen-go failed on our schema: " + e[-2000:])
            rc, o, e = self.protoc(["--plugin=protoc-gen-validate=" + self._plugin, "--validate_out=lang=go,module=pgvmc:" + ws, f.path])
            if rc:
                raise Broken("the plugin rejects or crashes on a valid schema " + f.path, e[-3000:])
            for g in glob.glob(os.path.join(ws, "gen", f.pkg, "*.pb.validate.go")) if "message Old" in f.text else ():
                t = open(g).read()
                open(g, "w").write(re.sub(r"(func \(m \*Old\w+\)) ValidateAll\(\)", r"\1 validateAllOld()", t))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, files))

    def workspace(self):
        ws = self.path("go")
        if not os.path.isdir(ws):
            shutil.copytree(os.path.join(VERIF, "go"), ws)
            gm = os.path.join(ws, "go.mod")
            s = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(s)
        return ws

    def go_harness(self, files, name="harness.test", race=False):
        """Compiles the harness with the generated packages linked in."""
        ws = self.workspace()
        self.gen_go(files)
        with open(os.path.join(ws, "harness", "imports_test.go"), "w") as f:
            f.write("package harness\n\nimport (\n" + "".join('\t_ "pgvmc/gen/%s"\n' % x.pkg for x in files) + ")\n")
        out = self.path("bin", name)
        env = self.env()
        cmd = ["go", "test", "-c", "-vet=off", "-o", out]
        if race:
            env["CGO_ENABLED"] = "1"
            cmd.append("-race")
        rc, o, e = self.sh(cmd + ["./harness"], cwd=ws, env=env)
        if rc:
            rc2, o2, e2 = self.sh(["go", "build", "./ref", "./vals", "google.golang.org/protobuf/proto"], cwd=ws)
            if rc2:
                raise SystemExit("our harness does not build: " + e2[-2000:])
            raise Broken("generated Go code does not compile", (o + e)[-4000:])
        return out

    def go_run(self, binary, mode, **kw):
        rep = self.path("report-%s.json" % mode)
        d = self.budget - (time.time() - T0) - 30
        env = self.env(PGVMC_MODE=mode, PGVMC_OUT=rep, PGVMC_DEADLINE="%d" % max(5, d), PGVMC_DEEP="1" if self.deep else "0", GODEBUG="")
        env.update({k: str(v) for k, v in kw.items()})
        rc, o, e = self.sh([binary, "-test.run", "TestMC", "-test.timeout", "0"], cwd=self.path("go"), env=env)
        if rc and "TIMEOUT" in e:
            return None, o + e
        if rc or not os.path.exists(rep):
            return None, (o + e)[-6000:] or "exit %d" % rc
        return json.load(open(rep)), o + e

    # ---- verdict -----------------------------------------------------
    def violation(self, sig, **detail):
        self.violations.append((sig, detail))

    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith("fixed:"):
                    k = json.loads(l)
                    if k["property"] == self.pid:
                        out[k["signature"]] = k
        return out

    def finish(self, level, coverage, replay_cmd=None):
        known = self.known()
        fresh, seen = [], set()
        for sig, d in self.violations:
            if sig in known:
                seen.add(sig)
            else:
                fresh.append((sig, d))
        for sig in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[sig]["what"]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(fresh)}
        if seen:
            ev["coverage"]["known_findings_seen"] = len(seen)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not fresh:
            print("%s: held on everything explored (%s)" % (self.pid, ", ".join("%s=%s" % (k, v) for k, v in coverage.items() if isinstance(v, (int, bool)))))
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(repr(fresh[0]).encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "rerun": "cd /verif && ./run.py %s %s" % (self.pid, self.tier), "violations": [dict(signature=s, **x) for s, x in fresh[:5000]]}, f, indent=1)
        for s, x in fresh[:5]:
            print("  " + s + " " + json.dumps(x)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1


def main(checks):
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    r = Run(pid, tier)
    fn, level = checks[pid]
    try:
        cov = fn(r)
    except Broken as b:
        r.violation("broken|" + b.what, detail=b.detail)
        cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped: " + b.what, "samples": [b.detail[:500]], "exhaustive": False,
               "states": 1, "transitions": 1, "traces_validated_against_impl": 0}
    sys.stdout.flush()
    return r.finish(level, cov)


def cc_class(full):
    """C++ class of a generated type pgvmc.<pkg>.Outer.Inner"""
    p = full.split(".")
    return "::pgvmc::%s::%s" % (p[1], "_".join(p[2:]))


def cc_gen(r, files):
    """Writes the C++ of files."""
    r.plugin()
    gen = r.path("ccgen", "x")[:-2]
    r.protos(files)
    for f in files:
        rc, o, e = r.protoc(["--cpp_out=" + gen, f.path])
        if rc:
            raise SystemExit("protoc --cpp_out failed on our schema: " + e[-1500:])
        rc, o, e = r.protoc(["--plugin=protoc-gen-validate=" + r._plugin, "--validate_out=lang=cc:" + gen, f.path])
        if rc:
            raise Broken("the plugin rejects or crashes on a valid schema for C++: " + f.path, e[-3000:])
    rc, o, e = r.protoc(["--cpp_out=" + gen, "validate/validate.proto"])
    if rc:
        raise SystemExit("protoc --cpp_out failed on validate.proto")
    return gen


def cc_cases(r, files, cases, out, types, judge="10", says=None, hist=False):
    """Compiles the generated C++ of files with the case runner and runs it."""
    gen = cc_gen(r, files)
    inc = ["-I", gen, "-I", REPO, "-I", os.path.join(VERIF, "cc")]
    flags = ["g++", "-std=c++14", "-O0", "-w", "-c"] + inc
    jobs = [(os.path.join(VERIF, "cc", "cases.cc"), None), (os.path.join(gen, "validate/validate.pb.cc"), None)]
    for f in files:
        base = os.path.join(gen, f.path[:-6])
        reg = "#include \"cases.h\"\n#include \"%s.pb.validate.h\"\n" % f.path[:-6]
        for i, t in enumerate(t for t in types if t.split(".")[1] == f.pkg):
            reg += "static Reg<%s> r%d(\"%s\");\n" % (cc_class(t), i, t)
        p = r.write("ccgen/%s.reg.cc" % f.pkg, reg)
        jobs += [(base + ".pb.cc", f), (base + ".pb.validate.cc", f), (p, f)]

    def comp(j):
        src, f = j
        o_ = r.path("obj", src.replace("/", "_") + ".o")
        rc, o, e = r.sh(flags + [src, "-o", o_])
        return src, f, rc, e, o_
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(comp, jobs))
    for src, f, rc, e, o_ in res:
        if rc and "TIMEOUT" not in e:
            if f is not None and src.endswith("validate.cc") or src.endswith(".reg.cc"):
                raise Broken("generated C++ code does not compile: " + os.path.basename(src), e[-4000:])
            raise SystemExit("C++ compilation failed: " + src + "\n" + e[-3000:])
        if rc:
            return None
    b = r.path("bin", "cases")
    rc, o, e = r.sh(["g++", "-o", b] + [x[4] for x in res] + ["-lprotobuf", "-lre2", "-lpthread"])
    if rc:
        raise Broken("generated C++ code does not link", e[-3000:])
    rc, o, e = r.sh([b, cases, out, judge] + ([says or ""] if says or hist else []) + (["hist"] if hist else []))
    if rc and "TIMEOUT" not in e:
        raise Broken("generated C++ validators crash", (o + e)[-3000:])
    return b
