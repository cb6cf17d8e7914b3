"""Schemas for the generator's rule checker, with what it has to say to them.

A case is (field type, rule kind, rule text, ok). ok comes from the rules of
the documentation, written down here a second time."""
import itertools
import schemas as S

PRE = """
enum E { E_ZERO = 0; E_ONE = 1; E_TWO = 2; }
message Sub { int32 n = 1; }
"""
WRAP_OF = {t: "google.protobuf." + w for w, t in S.WRAPPERS.items()}


def num_cases(t, full=True):
    """Every combination of rules, bounds in every relation."""
    out = []
    for c, inn, nin in itertools.product((0, 1), repeat=3):
        for lo in ((), ("gt",), ("gte",), ("gt", "gte")):
            for hi in ((), ("lt",), ("lte",), ("lt", "lte")):
                rels = (1, 2, 3) if lo and hi else (3,)
                for h in rels:
                    r = []
                    if c:
                        r.append("const: 5")
                    r += ["%s: 2" % x for x in lo] + ["%s: %d" % (x, h) for x in hi]
                    if inn:
                        r.append("in: [1, 4]")
                    if nin:
                        r.append("not_in: [2]")
                    ok = not ((inn and nin) or (c and (inn or nin or lo or hi)) or (inn and (lo or hi)) or len(lo) == 2 or len(hi) == 2 or (lo and hi and h == 2))
                    out.append((t, t, ", ".join(r), ok))
                    if not full and len(r) > 3:
                        out.pop()
    return out


NUM_SHORT = [("const: 5, gt: 1", False), ("const: 5, in: [1]", False), ("const: 5, not_in: [1]", False), ("in: [1], not_in: [2]", False), ("in: [1], gt: 1", False), ("in: [1], lte: 1", False),
             ("lt: 1, lte: 2", False), ("gt: 1, gte: 2", False), ("lt: 2, gt: 2", False), ("lt: 2, gte: 2", False), ("lte: 2, gt: 2", False), ("lte: 2, gte: 2", False),
             ("lt: 5, gt: 2", True), ("lt: 2, gt: 5", True), ("lte: 2, gte: 5", True), ("lt: 2, gt: 5, not_in: [7]", True), ("const: 0", True), ("in: [1, 2]", True), ("not_in: [1]", True), ("ignore_empty: true, gt: 3", True)]


def string_cases():
    out = []

    def opt(name, vals):
        return [None] + ["%s: %d" % (name, v) for v in vals]
    dims = [opt("len", [2]), opt("min_len", [1, 3]), opt("max_len", [2]), opt("len_bytes", [4]), opt("min_bytes", [1, 5]), opt("max_bytes", [1, 4])]
    for c in itertools.product(*dims):
        v = dict((n, int(x.split(": ")[1])) for n, x in zip(("len", "min", "max", "blen", "bmin", "bmax"), c) if x)
        ok = not ("len" in v and ("min" in v or "max" in v) or "blen" in v and ("bmin" in v or "bmax" in v) or v.get("min", 0) > v.get("max", 99) or v.get("bmin", 0) > v.get("bmax", 99)
                  or "max" in v and "bmax" in v and v["max"] > v["bmax"])
        out.append(("string", "string", ", ".join(x for x in c if x), ok))
    pats = [None, 'pattern: "^a+$"', 'pattern: "("', 'pattern: "a{2,1}"', 'pattern: ""', r'pattern: "(?<n>a)\\1"']
    for i, n, p, w in itertools.product((None, 'in: ["a"]'), (None, 'not_in: ["b"]'), pats, (None, "well_known_regex: HTTP_HEADER_NAME", "well_known_regex: HTTP_HEADER_VALUE, strict: false", "well_known_regex: UNKNOWN")):
        known = w and "UNKNOWN" not in w
        if i and known:
            continue                       # the documentation is silent
        bad = p and ('"("' in p or "{2,1}" in p or "\\\\1" in p)
        ok = not (i and n or i and p or p and known or bad)
        out.append(("string", "string", ", ".join(x for x in (i, n, p, w) if x), ok))
    for a in ("prefix", "suffix", "contains"):
        for s, runes, byts in (("ab", 2, 2), ("abc", 3, 3), ("éé", 2, 4), ("€", 1, 3), ("ééé", 3, 6)):
            for m, l in (("max_len", runes), ("max_bytes", byts)):
                for k in (-1, 0, 1):
                    if l + k >= 0:
                        out.append(("string", "string", '%s: "%s", %s: %d' % (a, s, m, l + k), k >= 0))
            out.append(("string", "string", '%s: "%s", max_len: %d, max_bytes: %d' % (a, s, runes, byts), True))
            out.append(("string", "string", '%s: "%s", max_len: %d, max_bytes: %d' % (a, s, runes - 1, byts), False))
            if byts > runes:
                out.append(("string", "string", '%s: "%s", max_len: %d, max_bytes: %d' % (a, s, runes, byts - 1), False))
            out.append(("string", "string", '%s: "%s", min_len: 9' % (a, s), True))
    out += [("string", "string", x, True) for x in ('not_contains: "abc", max_len: 2', 'const: "abc"', 'const: "a", min_len: 1, prefix: "a"', "email: true", "uuid: true, len: 36", "ip: true, min_len: 4", 'prefix: "a", suffix: "b", contains: "c", not_contains: "d"',
                                                    "max_len: 4, max_bytes: 4", "min_len: 3, max_len: 3", "min_bytes: 3, max_bytes: 3", "len: 0", "len: 3, len_bytes: 4", "len: 3, max_bytes: 2", "max_len: 0", "ignore_empty: true")]
    return out


STR_SHORT = [("len: 2, min_len: 1", False), ("len: 2, max_len: 3", False), ("len_bytes: 2, min_bytes: 1", False), ("len_bytes: 2, max_bytes: 3", False), ("min_len: 3, max_len: 2", False), ("min_bytes: 3, max_bytes: 2", False),
             ('in: ["a"], not_in: ["b"]', False), ('pattern: "("', False), ('pattern: "a", in: ["a"]', False), ('pattern: "a", well_known_regex: HTTP_HEADER_NAME', False), ('prefix: "abc", max_len: 2', False), ('suffix: "abc", max_bytes: 2', False),
             ('contains: "abc", max_len: 2', False), ("max_len: 5, max_bytes: 4", False), ("min_len: 2, max_len: 2", True), ('pattern: "a"', True), ('in: ["a"]', True), ("len: 2", True), ("well_known_regex: HTTP_HEADER_NAME", True)]


def bytes_cases():
    out = []
    for l, a, b in itertools.product((None, "len: 2"), (None, "min_len: 1", "min_len: 3"), (None, "max_len: 2")):
        ok = not (l and (a or b) or a == "min_len: 3" and b)
        out.append(("bytes", "bytes", ", ".join(x for x in (l, a, b) if x), ok))
    for i, n, p in itertools.product((None, r'in: ["\xff"]'), (None, 'not_in: ["b"]'), (None, 'pattern: "^a+$"', 'pattern: "("', 'pattern: "[b-a]"')):
        ok = not (i and n or i and p or p and ('"("' in p or "b-a" in p))
        out.append(("bytes", "bytes", ", ".join(x for x in (i, n, p) if x), ok))
    for a in ("prefix", "suffix", "contains"):
        for s, l in (("ab", 2), (r"\xff\x00", 2), (r"\xc3\xa9", 2), ("a", 1)):
            for k in (-1, 0, 1):
                out.append(("bytes", "bytes", '%s: "%s", max_len: %d' % (a, s, l + k), k >= 0))
    out += [("bytes", "bytes", x, True) for x in ("ip: true", "ipv4: true, len: 4", r'const: "\x00"', r'const: ""', "ignore_empty: true", "min_len: 2, max_len: 2")]
    return out


BYTES_SHORT = [("len: 2, min_len: 1", False), ("len: 2, max_len: 3", False), ("min_len: 3, max_len: 2", False), (r'in: ["a"], not_in: ["b"]', False), ('pattern: "("', False), ('pattern: "a", in: ["a"]', False), ('prefix: "abc", max_len: 2', False),
               ("min_len: 2, max_len: 2", True), ('prefix: "ab", max_len: 2', True)]


def enum_cases():
    out = []
    for c, d, i, n in itertools.product((None, "const: 1"), (None, "defined_only: true", "defined_only: false"), (None, "in: [0]", "in: [1, 2]", "in: [2, 3]", "in: [-1]"), (None, "not_in: [1]", "not_in: [9]")):
        ok = not (i and n or d == "defined_only: true" and i in ("in: [2, 3]", "in: [-1]"))
        out.append(("E", "enum", ", ".join(x for x in (c, d, i, n) if x), ok))
    return out


ENUM_SHORT = [("in: [0], not_in: [1]", False), ("defined_only: true, in: [9]", False), ("defined_only: true, in: [1]", True), ("in: [9]", True), ("defined_only: true", True)]


def repeated_cases():
    out = []
    for a, b in itertools.product((None, 0, 1, 2), (None, 0, 1, 2)):
        ok = a is None or b is None or a <= b
        r = ", ".join(x for x in (a is not None and "min_items: %d" % a, b is not None and "max_items: %d" % b) if x)
        out.append(("repeated int32", "repeated", r, ok))
        out.append(("repeated Sub", "repeated", r, ok))
    for t in S.SCALARS + ["E"]:
        out.append(("repeated " + t, "repeated", "unique: true", True))
    for t in ["Sub", "google.protobuf.Duration", "google.protobuf.StringValue", "google.protobuf.Any"]:
        out.append(("repeated " + t, "repeated", "unique: true", False))
        out.append(("repeated " + t, "repeated", "unique: false", True))
        out.append(("repeated " + t, "repeated", "unique: true, min_items: 1", False))
    return out


def map_cases():
    out = []
    for a, b in itertools.product((None, 0, 1, 2), (None, 0, 1, 2)):
        ok = a is None or b is None or a <= b
        r = ", ".join(x for x in (a is not None and "min_pairs: %d" % a, b is not None and "max_pairs: %d" % b) if x)
        out.append(("map<string, int32>", "map", r, ok))
        out.append(("map<int64, Sub>", "map", r, ok))
    for t in S.SCALARS + ["E"]:
        out.append(("map<string, %s>" % t, "map", "no_sparse: true", False))
        out.append(("map<string, %s>" % t, "map", "no_sparse: false", True))
    for t in ["Sub", "google.protobuf.Duration"]:
        out.append(("map<string, %s>" % t, "map", "no_sparse: true", True))
    return out


def dur_cases():
    D = "google.protobuf.Duration"
    V = {1: "{seconds: 1}", 2: "{seconds: 1, nanos: 5}", 3: "{seconds: 2}", 5: "{seconds: 5}"}
    out = []
    for _, _, r, ok in num_cases("x"):
        for k in ("const", "lt", "lte", "gt", "gte"):
            for v, w in V.items():
                r = r.replace("%s: %d" % (k, v), "%s: %s" % (k, w)) if not r.startswith("%s: {" % k) else r
        r = r.replace("not_in: [2]", "not_in: [{seconds: 2}]").replace("in: [1, 4]", "in: [{seconds: 1}, {nanos: 4}]")
        out.append((D, "duration", r, ok))
    for c in ("const", "lt", "lte", "gt", "gte"):
        for bad in ("{nanos: 1000000000}", "{nanos: -1000000000}", "{seconds: 1, nanos: -1}", "{seconds: -1, nanos: 1}", "{seconds: 315576000001}", "{seconds: -315576000001}"):
            out.append((D, "duration", "%s: %s" % (c, bad), False))
        for good in ("{nanos: 999999999}", "{nanos: -999999999}", "{seconds: -1, nanos: -1}", "{seconds: 315576000000}", "{seconds: -315576000000}", "{}"):
            out.append((D, "duration", "%s: %s" % (c, good), True))
    for c in ("in", "not_in"):
        for bad in ("{nanos: 1000000000}", "{seconds: 1, nanos: -1}", "{seconds: 315576000001}"):
            out.append((D, "duration", "%s: [{seconds: 1}, %s]" % (c, bad), False))
    out += [(D, "duration", x, True) for x in ("required: true", "required: true, const: {seconds: 1}", "required: true, in: [{}]")]
    return out


DUR_SHORT = [("const: {}, lt: {seconds: 1}", False), ("in: [{}], not_in: [{seconds: 1}]", False), ("lt: {seconds: 1}, lte: {seconds: 2}", False), ("gt: {nanos: 2}, lt: {nanos: 2}", False), ("gte: {nanos: 2}, lte: {nanos: 2}", False), ("const: {seconds: 1, nanos: -1}", False),
             ("in: [{nanos: 1000000000}]", False), ("gt: {nanos: 2}, lt: {nanos: 3}", True), ("lt: {nanos: 2}, gt: {nanos: 3}", True), ("in: [{}]", True)]


def ts_cases():
    T = "google.protobuf.Timestamp"
    V = {1: "{seconds: 1}", 2: "{seconds: 1, nanos: 5}", 3: "{seconds: 2}", 5: "{seconds: 5}"}
    out = []
    for _, _, r, ok in num_cases("x"):
        if "in:" in r:
            continue
        for k in ("const", "lt", "lte", "gt", "gte"):
            for v, w in V.items():
                r = r.replace("%s: %d" % (k, v), "%s: %s" % (k, w)) if not r.startswith("%s: {" % k) else r
        out.append((T, "timestamp", r, ok))
    for c in ("const", "lt", "lte", "gt", "gte"):
        for bad in ("{nanos: 1000000000}", "{nanos: -1}", "{seconds: 5, nanos: -1}", "{seconds: 253402300800}", "{seconds: -62135596801}"):
            out.append((T, "timestamp", "%s: %s" % (c, bad), False))
        for good in ("{nanos: 999999999}", "{seconds: -1, nanos: 1}", "{seconds: 253402300799}", "{seconds: -62135596800}", "{}"):
            out.append((T, "timestamp", "%s: %s" % (c, good), True))
    for ln, gn, w, ab in itertools.product((0, 1), (0, 1), (None, "{seconds: 1}", "{}", "{seconds: -1}", "{nanos: -1}", "{nanos: 1}", "{seconds: 1, nanos: -1}"), (None, "lt", "lte", "gt", "gte")):
        ok = not (ln and gn or ab and (ln or gn or w) or w in ("{}", "{seconds: -1}", "{nanos: -1}", "{seconds: 1, nanos: -1}"))
        r = ", ".join(x for x in (ln and "lt_now: true", gn and "gt_now: true", w and "within: " + w, ab and "%s: {seconds: 9}" % ab) if x)
        out.append((T, "timestamp", r, ok))
    return out


TS_SHORT = [("const: {}, lt: {seconds: 1}", False), ("lt: {seconds: 1}, lte: {seconds: 2}", False), ("gt: {nanos: 2}, lt: {nanos: 2}", False), ("lt_now: true, gt_now: true", False), ("lt_now: true, gt: {seconds: 1}", False), ("within: {seconds: 1}, lte: {seconds: 3}", False), ("within: {}", False),
            ("within: {seconds: -1}", False), ("const: {nanos: -1}", False), ("within: {seconds: 1}, lt_now: true", True), ("gt: {nanos: 3}, lt: {nanos: 2}", True)]


def any_cases():
    A = "google.protobuf.Any"
    return [(A, "any", 'in: ["a"], not_in: ["b"]', False), (A, "any", 'in: ["a"]', True), (A, "any", 'not_in: ["a"]', True), (A, "any", 'required: true, in: ["a"]', True), (A, "any", 'required: true, in: ["a"], not_in: ["a"]', False)]


ANY_SHORT = [('in: ["a"], not_in: ["b"]', False), ('in: ["a"]', True)]

SHORT = {t: ([t], t, NUM_SHORT) for t in S.NUM_TYPES}
SHORT.update(string=(["string"], "string", STR_SHORT), bytes=(["bytes"], "bytes", BYTES_SHORT), E=(["E"], "enum", ENUM_SHORT))
SHORT["google.protobuf.Duration"] = (None, "duration", DUR_SHORT)
SHORT["google.protobuf.Timestamp"] = (None, "timestamp", TS_SHORT)
SHORT["google.protobuf.Any"] = (None, "any", ANY_SHORT)


def plain(t, k, r):
    return "%s val = 1 [(validate.rules).%s = {%s}];" % (t, k, r)


def positions(t, k, r, where):
    """Bodies holding rule {r} of kind k for type t in every position."""
    R = "%s: {%s}" % (k, r)
    if not t.startswith(("repeated", "map")):
        yield "oneof", "oneof o { int32 x = 2; %s val = 1 [(validate.rules).%s = {%s}]; }" % (t, k, r)
        yield "required-oneof", "oneof o { option (validate.required) = true; %s val = 1 [(validate.rules).%s = {%s}]; }" % (t, k, r)
        yield "optional", "int32 x = 2; optional %s val = 1 [(validate.rules).%s = {%s}];" % (t, k, r)
    yield "second", "string first = 1 [(validate.rules).string = {min_len: 1}]; %s val = 2 [(validate.rules).%s = {%s}]; int32 last = 3 [(validate.rules).int32 = {gt: 1}];" % (t, k, r)
    yield "nested", "message In { %s val = 1 [(validate.rules).%s = {%s}]; } In i = 1;" % (t, k, r)
    yield "nested-unused", "message A { message B { message C { %s val = 1 [(validate.rules).%s = {%s}]; } } }" % (t, k, r)
    yield "nested-in-disabled", "message Off { option (validate.disabled) = true; message In { %s val = 1 [(validate.rules).%s = {%s}]; } }" % (t, k, r)
    yield "in-ignored", "message Off { option (validate.ignored) = true; %s val = 1 [(validate.rules).%s = {%s}]; }" % (t, k, r)
    if not t.startswith(("repeated", "map")):
        yield "items", "repeated %s val = 1 [(validate.rules).repeated = {items: {%s}}];" % (t, R)
        yield "items-and-own", "repeated %s val = 1 [(validate.rules).repeated = {min_items: 1, max_items: 3, ignore_empty: true, items: {%s}}];" % (t, R)
        yield "values", "map<string, %s> val = 1 [(validate.rules).map = {values: {%s}}];" % (t, R)
        yield "values-beside-keys", "map<int32, %s> val = 1 [(validate.rules).map = {min_pairs: 1, keys: {int32: {gt: 0}}, values: {%s}}];" % (t, R)
    if t in S.KEY_TYPES:
        yield "keys", "map<%s, bool> val = 1 [(validate.rules).map = {keys: {%s}}];" % (t, R)
        yield "keys-beside-values", "map<%s, int32> val = 1 [(validate.rules).map = {keys: {%s}, values: {int32: {gt: 0}}}];" % (t, R)
    if t in WRAP_OF and k == t:
        W = WRAP_OF[t]
        yield "wrapper", "%s val = 1 [(validate.rules).%s = {%s}];" % (W, k, r)
        yield "wrapper-required", "%s val = 1 [(validate.rules) = {message: {required: true}, %s}];" % (W, R)
        yield "wrapper-oneof", "oneof o { %s val = 1 [(validate.rules).%s = {%s}]; int32 x = 2; }" % (W, k, r)
        yield "wrapper-items", "repeated %s val = 1 [(validate.rules).repeated = {items: {%s}}];" % (W, R)
        yield "wrapper-values", "map<int32, %s> val = 1 [(validate.rules).map = {values: {%s}}];" % (W, R)


KINDS = S.NUM_TYPES + ["bool", "string", "bytes", "enum", "repeated", "map", "any", "duration", "timestamp", "message"]
KIND_RULE = {"bool": "const: true", "string": "min_len: 1", "bytes": "min_len: 1", "enum": "defined_only: true", "repeated": "min_items: 1", "map": "min_pairs: 1", "any": "required: true", "duration": "gt: {}", "timestamp": "gt: {}", "message": "required: true"}
for _t in S.NUM_TYPES:
    KIND_RULE[_t] = "gt: 1"
FIELD_TYPES = S.SCALARS + ["E", "Sub"] + sorted(WRAP_OF.values()) + ["google.protobuf.Any", "google.protobuf.Duration", "google.protobuf.Timestamp", "google.protobuf.Empty", "google.protobuf.Struct"]
WELL = {"google.protobuf.Any": "any", "google.protobuf.Duration": "duration", "google.protobuf.Timestamp": "timestamp"}


def fits(kind, t):
    """Whether rules of a kind may stand on a singular type."""
    if t in S.SCALARS:
        return kind == t
    if t == "E":
        return kind == "enum"
    if t in WELL:
        return kind == WELL[t]
    for s, w in WRAP_OF.items():
        if t == w:
            return kind in (s, "message")
    return kind == "message"


def type_cases():
    """(class, body, ok): every kind of rule on every type at every position."""
    for k in KINDS:
        for t in FIELD_TYPES:
            r, ok = KIND_RULE[k], fits(k, t)
            yield "type", plain(t, k, r), ok
            yield "type", "oneof o { int32 x = 2; %s val = 1 [(validate.rules).%s = {%s}]; }" % (t, k, r), ok
            yield "type", "repeated %s val = 1 [(validate.rules).repeated = {items: {%s: {%s}}}];" % (t, k, r), ok
            yield "type", "map<string, %s> val = 1 [(validate.rules).map = {values: {%s: {%s}}}];" % (t, k, r), ok
            yield "type", "repeated %s val = 1 [(validate.rules).%s = {%s}];" % (t, k, r), k == "repeated"
            yield "type", "map<string, %s> val = 1 [(validate.rules).%s = {%s}];" % (t, k, r), k == "map"
            if t in S.KEY_TYPES:
                yield "type", "map<%s, int32> val = 1 [(validate.rules).map = {keys: {%s: {%s}}}];" % (t, k, r), ok
        # items and values are not lists or maps themselves
    for t in S.SCALARS[:4]:
        yield "type", "repeated %s val = 1 [(validate.rules).repeated = {items: {repeated: {min_items: 1}}}];" % t, False
        yield "type", "map<string, %s> val = 1 [(validate.rules).map = {values: {map: {min_pairs: 1}}}];" % t, False


def message_cases():
    for t in ("Sub", "google.protobuf.Empty", "google.protobuf.Struct"):
        for r in ("required: true", "skip: true", "skip: true, required: true", "required: false", "skip: false"):
            yield "message", "%s val = 1 [(validate.rules).message = {%s}];" % (t, r), True
            yield "message", "repeated %s val = 1 [(validate.rules).repeated = {items: {message: {%s}}}];" % (t, r), True
            yield "message", "map<string, %s> val = 1 [(validate.rules).map = {values: {message: {%s}}}];" % (t, r), True
    for s, w in WRAP_OF.items():
        R = "%s: {%s}" % (s, KIND_RULE[s])
        for m, ok in (("required: true", True), ("skip: true", False), ("skip: true, required: true", False), ("skip: false", True)):
            yield "message", "%s val = 1 [(validate.rules) = {message: {%s}, %s}];" % (w, m, R), ok
            yield "message", "oneof o { %s val = 1 [(validate.rules) = {message: {%s}, %s}]; }" % (w, m, R), ok
            yield "message", "repeated %s val = 1 [(validate.rules).repeated = {items: {message: {%s}, %s}}];" % (w, m, R), ok
            yield "message", "map<int32, %s> val = 1 [(validate.rules).map = {values: {message: {%s}, %s}}];" % (w, m, R), ok
    for t in ("int32", "string", "E", "google.protobuf.Any"):
        yield "message", "%s val = 1 [(validate.rules) = {message: {skip: true}}];" % t, False
    for r in ("skip: true", "required: true"):
        yield "message", "map<string, Sub> val = 1 [(validate.rules).message = {%s}];" % r, False
        yield "message", "repeated Sub val = 1 [(validate.rules).message = {%s}];" % r, False


def cases(deep):
    """All (class, body, ok, all_languages)."""
    seen = {}

    def put(c, b, ok, langs=False):
        if b in seen:
            assert seen[b][2] == ok, b
            seen[b] = (c, b, ok, langs or seen[b][3])
        else:
            seen[b] = (c, b, ok, langs)
    for t in S.NUM_TYPES:
        for t_, k, r, ok in num_cases(t):
            put("num", plain(t_, k, r), ok, t in ("sint64", "double"))
            if deep or t in ("int32", "float"):
                for p, b in positions(t_, k, r, None):
                    put("num-" + p, b, ok)
    for fn in (string_cases, bytes_cases, enum_cases, repeated_cases, map_cases, dur_cases, ts_cases, any_cases):
        for t, k, r, ok in fn():
            put(k, plain(t, k, r), ok, True)
            if deep or fn in (enum_cases, repeated_cases, map_cases, any_cases, bytes_cases):
                for p, b in positions(t, k, r, None):
                    put(k + "-" + p, b, ok)
    for t, (_, k, rules) in SHORT.items():
        for r, ok in rules:
            for p, b in positions(t, k, r, None):
                put(k + "-" + p, b, ok, True)
    for c, b, ok in list(type_cases()) + list(message_cases()):
        put(c, b, ok, c == "message")
    # nothing inside a disabled message is looked at
    for t, (_, k, rules) in SHORT.items():
        for r, ok in rules:
            put("disabled", "message Off { option (validate.disabled) = true; %s }" % plain(t, k, r), True, True)
            put("enabled", "message On { option (validate.disabled) = false; %s }" % plain(t, k, r), ok, True)
    return list(seen.values())
