"""C25: what the C++ and the Java validators say about a rejected message."""
import json, os, re
import checks, java, mc

# Words that differ between the languages for the same thing.
DROP = set("substring value length must be have a an or valid inclusive ip address host hostname".split())


ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}


def plain(text):
    """Without the escapes of either language, as bytes spelt out."""
    t = text.encode("utf-8", "surrogateescape").decode("latin-1")
    t = re.sub(r"\\(?:x([0-9a-fA-F]{2})|([0-7]{3})|(.))", lambda m: chr(int(m.group(1), 16)) if m.group(1) else chr(int(m.group(2), 8) % 256) if m.group(2) else ESC.get(m.group(3), m.group(3)), t)
    return t


def word(w):
    """A word of a reason, numbers and constants in one form."""
    m = re.match(r"^([(\[]*)(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)f?([,)\].]*)$", w)
    if m:
        return m.group(1) + repr(float(m.group(2))) + m.group(3).replace(",", "").replace(".", "")
    w = re.sub(r"std::numeric_limits<\w+>::", "", w.strip(",.")).replace("infinity()", "inf").replace("quiet_nan()", "nan").replace("+inf", "inf")
    return {"characters": "runes"}.get(w, w)


def bag(text):
    """The words of an error text that matter, level by level."""
    out = []
    for seg in text.split(" | caused by "):
        head, sep, reason = seg.partition(": ")
        m = re.search(r"must equal \[([\d ]*)\]$", reason)
        if m:                                     # bytes, as Go prints them
            reason = "equal " + bytes(int(x) for x in m.group(1).split()).decode("latin-1")
        else:
            reason = plain(reason)
        head = re.sub(r"\[(true|false)\]$", lambda k: "[%d]" % (k.group(1) == "true"), head)
        out.append((head, tuple(sorted(w for w in map(word, reason.lower().replace('"', " ").split()) if w and w not in DROP))))
    return tuple(out)


def says_it(cand, got):
    """Whether the text got says what cand says."""
    a, b = bag(cand), bag(got)
    if len(a) != len(b):
        return False
    for (h, x), (k, y) in zip(a, b):
        if h != k:
            # an oneof without a member
            m = re.match(r"^invalid \w+\.(\w+)$", h)
            if not (m and k == "field" and re.match(r'^field: "%s", reason: is required$' % m.group(1), got.split(" | caused by ")[-1].replace("_", ""), re.I)):
                return False
        elif "..." in cand.split(" | caused by ")[-1][-4:]:
            if not set(x) - {"..."} <= set(y):
                return False
        elif x != y:
            return False
    return True


def numbers(text):
    return {float(x) for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?![\w])", text)}


def near(a, b):
    return a == b or a != a and b != b or abs(a - b) <= 1e-6 * abs(a) + 1e-40 or (b < 0 and a in (b + 2.0 ** 32, b + 2.0 ** 64))


SPAN = re.compile(r"\b(in|out)(?:side)?\b(?: the)? range ([\[(]).*([\])])$")


def lines(path):
    for i in range(8):
        with open(path + ".%d" % i) as f:
            for l in f:
                yield l.rstrip("\n").split("\t")


def unhex(h):
    return bytes.fromhex(h).decode("utf-8", "surrogateescape")


def load(path):
    want = {}
    for l in open(path):
        d = json.loads(l)
        want[d["t"], d["h"]] = d
    return want


def bare(text):
    return re.sub(r'["\\]', "", text)


def judge_cc(r, want, says, rules):
    n = 0
    memo = {}
    shapes = set()
    for name, hx, err in lines(says):
        n += 1
        err = unhex(err)
        w = want[name, hx]
        key = (err, *w["c"])
        if key not in memo:
            memo[key] = any(says_it(c, err) or "\0" in c and says_it(c.split("\0")[0], err) or bare(c) == bare(err) for c in w["c"])
        ok = memo[key]
        shapes.add((name, err))
        if not ok:
            r.violation("cc|%s|%s" % (rules.get(name, name), hx), lang="cc", type=name, rules=rules.get(name, ""), wire_hex=hx, says=err, want_one_of=w["c"][:4])
    return n, shapes


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def judge_java(r, want, says, rules):
    n = 0
    shapes = set()
    for p in lines(says):
        name, hx = p[:2]
        field, msg, reason, value = map(unhex, p[2:])
        n += 1
        w = want[name, hx]
        f = field[1:] if field.startswith(".") else field
        shapes.add((name, f, reason))
        bad = None
        if f not in [x[0] for x in w["f"]]:
            bad = "names %s" % field
        elif msg != "%s: %s - Got %s" % (field, reason, value):
            bad = "the message is not made of field, reason and value"
        else:
            got = numbers(reason)
            ok = False
            for fq, go in w["f"]:
                if fq != f:
                    continue
                if re.match(r"must equal (?!NaN|-?Infinity)[A-Za-z_]", reason) or re.search(r" UTC|\d(s|h|m|ms|ns|µs)\b", go):
                    need = set()
                else:
                    need = numbers(go) if re.search(r"range|less than|greater than|at least|at most|between|exactly|no more|value length must be|value must equal -?[\d.e+]+$", go) else set()
                # bounds that Java tells one by one
                a, b = SPAN.search(go), SPAN.search(reason)
                if a and b and a.groups() != b.groups():
                    continue
                ok = ok or ((all if "range" in go else any)([any(near(a, b) for b in got) for a in need] or [True]))
            if not ok:
                bad = "the reason lacks the constants of the rule"
            v = w.get("v")
            if bad is None and v is not None and f.count(".") == name.count(".") + 1 and not reason.startswith("is required"):
                a, b = number(v), number(value)
                same = value == v if a is None or b is None else near(a, b)
                if not same:
                    bad = "the value is not the one found"
        if bad:
            r.violation("java|%s|%s|%s" % (bad, rules.get(name, name), hx), lang="java", what=bad, type=name, rules=rules.get(name, ""), wire_hex=hx, field=field, reason=reason, value=value, message=msg, want_one_of=w["f"][:4], want_value=w.get("v"))
    return n, shapes


def c25(r, rule):
    import shutil
    total, shapes, exh, per = 0, set(), True, {}
    for lang, pick, run, judge in (("cc", checks.cc_pick, checks.cc_run, judge_cc), ("java", checks.java_pick, java.c20, judge_java)):
        shutil.rmtree(os.path.join(r.workspace(), "gen"), ignore_errors=True)
        texts, says = r.path(lang + "-texts.json"), r.path(lang + "-says")
        files = [f for f in pick(r) if not f.pkg.startswith("jundef")]
        if not r.deep:                # pairs of rules say what the rules say
            files = [f for i, f in enumerate(files) if i % {"more": 4, "num": 3}.get(f.pkg[1:].rstrip("0123456789"), 1) == 0]
        rules = {k: v for f in files for k, v in f.rules.items()}
        n0 = len(r.violations)
        cov = run(r, files, rule, texts=texts, says=says, cap="300")
        if cov["samples"] == ["timed out"]:
            return cov
        # the verdicts themselves are C11's and C20's
        r.violations[n0:] = [v for v in r.violations[n0:] if v[1].get("got") == "X"]
        n, sh = judge(r, load(texts), says, rules)
        per[lang] = n
        total += n
        shapes |= {(lang,) + x for x in sh}
        exh = exh and cov["exhaustive"]
    return {"evaluations": total, "distinct_nontrivial": len(shapes), "rule": rule, "samples": [str(x)[:300] for x in sorted(shapes)[:: max(1, len(shapes) // 8)]], "rejections_per_language": per, "exhaustive": exh}
