"""Runs the case file written by the Go side against validator.py."""
import importlib.util
import os
import sys
import time

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.setrecursionlimit(10000)
import pgvrt  # noqa: E402


def load(repo):
    spec = importlib.util.spec_from_file_location("validator", os.path.join(repo, "python/protoc_gen_validate/validator.py"))
    v = importlib.util.module_from_spec(spec)
    sys.modules["validator"] = v
    sys.dont_write_bytecode = True
    spec.loader.exec_module(v)
    return v


def main():
    repo, descs, cases, out, judge, shard, shards = sys.argv[1:8]
    shard, shards = int(shard), int(shards)
    V = load(repo)
    class Clock:  # the Go side's: a clock that stands still
        now = 946684800

        def __getattr__(self, n):
            return getattr(time, n)

        def time(self):
            return float(self.now)

        def time_ns(self):
            return self.now * 10**9
    if hasattr(V, "time"):
        V.time = Clock()
    pool = pgvrt.Pool(open(descs, "rb").read())

    def verdict(m):
        try:
            r = V.validate(m)
        except V.ValidationFailed as e:
            return "0", str(e)
        except RecursionError:
            return "X", "RecursionError"
        except BaseException as e:
            return "X", "%s: %s" % (type(e).__name__, e)
        return ("1", "") if r is None else ("X", "returned %r" % (r,))
    at = n = types = skipped = unjudged = bad = 0
    got_ = {}
    d, name = None, ""
    first, new = [], 0

    def afresh():
        # the same answers of a validator that is generated again
        nonlocal bad
        clear = getattr(getattr(V, "_validate_inner", None), "cache_clear", None)
        if clear and first:
            clear()
            for name, m, hx, got, err in first:
                if verdict(m) != (got, err):
                    bad += 1
                    w.write("BAD\t%s\t%s\t%s\t%s\t%s\n" % (name, hx, "?", got, "a validator that is generated again answers differently"))
        first.clear()
    with open(out, "w", encoding="utf-8", errors="replace") as w:
        for line in open(cases, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("T "):
                name, d = line[2:], None
                at += 1
                if at % shards == shard:
                    d = pool.messages.get(name)
                    if d is None:
                        w.write("MISSING %s\n" % name)
                        continue
                    types += 1
                    new = 4
                    V.printer = ""
                continue
            if d is None:
                continue
            p = line.split(" ", 3)
            m = pgvrt.Message(d)
            try:
                m.ParseFromString(bytes.fromhex(p[1]))
            except pgvrt.DecodeError:
                skipped += 1
                continue
            n += 1
            got, err = verdict(m)
            got_[got] = got_.get(got, 0) + 1
            if new:
                new -= 1
                first.append((name, m, p[1], got, err))
            if p[2] not in judge:
                unjudged += 1
                continue
            ok = got == p[2]
            if ok:
                again = verdict(m)
                if again != (got, err):
                    ok, err = False, "a second call answers differently: %s %s" % again
            if not ok:
                bad += 1
                if bad <= 20000:
                    w.write("BAD\t%s\t%s\t%s\t%s\t%s\n" % (name, p[1], got, p[2], err.replace("\n", " ").replace("\t", " ")[:300]))
        afresh()
        w.write("DONE %d %d %d %d %d %d %d\n" % (types, n, skipped, got_.get("1", 0), got_.get("0", 0), got_.get("X", 0), unjudged))


main()
