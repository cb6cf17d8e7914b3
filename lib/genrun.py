"""Running the plugin on enumerated schemas."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import mc

HEAD = """syntax = "proto3";
package %s;
option go_package = "%s";
import "validate/validate.proto";
import "google/protobuf/any.proto";
import "google/protobuf/duration.proto";
import "google/protobuf/empty.proto";
import "google/protobuf/struct.proto";
import "google/protobuf/timestamp.proto";
import "google/protobuf/wrappers.proto";
"""


def descriptors(r, texts):
    """texts: {path: text}. Returns the path of one descriptor set of all."""
    for p, t in texts.items():
        r.write("gproto/" + p, t)
    names = sorted(texts)
    n = max(1, min(500, (len(names) + 7) // 8))
    chunks = [names[i:i + n] for i in range(0, len(names), n)]

    def one(i):
        o_ = r.path("ds", "%d.ds" % i)
        rc, o, e = r.sh(["protoc", "-I", r.path("gproto"), "-I", mc.REPO, "--include_imports", "-o", o_] + chunks[i])
        if rc:
            raise SystemExit("protoc rejects one of our schemas: " + "\n".join(l for l in e.splitlines() if "is unused" not in l)[-1500:])
        return o_
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(one, range(len(chunks))))
    all_ = r.path("all-%d.ds" % len(os.listdir(r.path("ds", "x")[:-2])))
    with open(all_, "wb") as f:
        for p in parts:
            f.write(open(p, "rb").read())
    return all_


def genmc(r):
    b = r.path("bin", "genmc")
    if not os.path.exists(b):
        rc, o, e = r.sh(["go", "build", "-o", b, "./genmc"], cwd=r.workspace())
        if rc:
            raise SystemExit("our driver does not build: " + e[-2000:])
    return b


_n = [0]


def run_jobs(r, ds, jobs):
    """jobs: [{files, param, keep}] -> results, in order."""
    _n[0] += 1
    j, o_ = r.path("jobs%d.json" % _n[0]), r.path("jobs%d.out" % _n[0])
    json.dump(jobs, open(j, "w"))
    rc, o, e = r.sh([genmc(r), r.plugin(), ds, j, o_])
    if rc and "TIMEOUT" in e:
        return None
    if rc:
        raise SystemExit("our driver failed: " + e[-2000:])
    return json.load(open(o_))
