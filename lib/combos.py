"""Rule pairs, and every rule at every position: what one rule does must not
depend on which others are there, or on where it stands."""
import itertools
import schemas as S

# (rule, text) for every rule of a kind
STRING = [("const", '"ab"'), ("len", "2"), ("min_len", "2"), ("max_len", "3"), ("len_bytes", "2"), ("min_bytes", "2"), ("max_bytes", "5"), ("pattern", '"^[ab:.@/]+$"'), ("prefix", '"a"'), ("suffix", '"b"'),
          ("contains", '"b"'), ("not_contains", '"x"'), ("in", '["ab", "b"]'), ("not_in", '["ab", "b"]'), ("email", "true"), ("hostname", "true"), ("ip", "true"), ("ipv4", "true"), ("ipv6", "true"), ("uri", "true"),
          ("uri_ref", "true"), ("address", "true"), ("uuid", "true"), ("well_known_regex", "HTTP_HEADER_NAME"), ("well_known_regex", "HTTP_HEADER_VALUE"), ("strict", "false"), ("strict", "true"), ("ignore_empty", "true")]
WELL = {"email", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "address", "uuid", "well_known_regex"}
BYTES = [("const", r'"a\xff"'), ("len", "2"), ("min_len", "2"), ("max_len", "3"), ("pattern", '"^[ab]+$"'), ("prefix", r'"a"'), ("suffix", r'"\xff"'), ("contains", r'"\x00"'), ("in", r'["a\xff", "b"]'), ("not_in", r'["a\xff", "b"]'),
         ("ip", "true"), ("ipv4", "true"), ("ipv6", "true"), ("ignore_empty", "true")]
DURATION = [("required", "true"), ("const", "{seconds: 3}"), ("lt", "{seconds: 5}"), ("lte", "{seconds: 5}"), ("gt", "{seconds: 1}"), ("gte", "{seconds: 1}"), ("gt", "{seconds: 9}"), ("gte", "{seconds: 9}"), ("in", "[{seconds: 3}, {seconds: 9}]"), ("not_in", "[{seconds: 3}, {seconds: 9}]")]
TIMESTAMP = [("required", "true"), ("const", "{seconds: 3}"), ("lt", "{seconds: 5}"), ("lte", "{seconds: 5}"), ("gt", "{seconds: 1}"), ("gte", "{seconds: 1}"), ("gt", "{seconds: 9}"), ("gte", "{seconds: 9}")]
NOW = [("lt_now", "true"), ("gt_now", "true"), ("within", "{seconds: 3600}")]
ANY = [("required", "true"), ("in", '["a", "b"]'), ("not_in", '["a", "b"]')]
ENUM = [("const", "1"), ("defined_only", "true"), ("in", "[0, 1]"), ("not_in", "[0, 7]")]


def numeric(t):
    # 5 to 1 inside, 5 to 9 outside
    return [("const", "5"), ("lt", "5"), ("lte", "5"), ("gt", "1"), ("gte", "1"), ("gt", "9"), ("gte", "9"), ("in", "[0, 5]"), ("not_in", "[2, 5, 9]"), ("ignore_empty", "true")]


RANGE = {"lt", "lte", "gt", "gte"}


def fits(kind, rules):
    """Whether the documentation lets the rules stand side by side."""
    n = [r for r, _ in rules]
    s = set(n)
    if len(s) != len(n) or {"in", "not_in"} <= s:
        return False
    if len(s & WELL) > 1:
        return False
    if kind == "string":
        if "strict" in s and "well_known_regex" not in s:
            return False
        if "len_bytes" in s and s & {"min_bytes", "max_bytes"}:
            return False
        if "well_known_regex" in s and s & {"pattern", "in"}:
            return False
    if kind in ("string", "bytes"):
        return not ("len" in s and s & {"min_len", "max_len"}) and not {"pattern", "in"} <= s
    if kind == "enum":
        return True
    if {"lt", "lte"} <= s or {"gt", "gte"} <= s:
        return False
    if "const" in s and s & (RANGE | {"in", "not_in"}):
        return False
    return not ("in" in s and s & RANGE)


def sets(kind, atoms, most=2, extra=()):
    """Rule texts of all compatible sets of up to most rules, and of pairs with each of extra."""
    out = []
    for k in range(1, most + 1):
        for c in itertools.combinations(atoms, k):
            if fits(kind, c):
                out.append(c)
                for x in extra:
                    if k == most and x not in c and fits(kind, c + (x,)):
                        out.append(c + (x,))
    return [", ".join("%s: %s" % a for a in c) for c in out]


IE = (("ignore_empty", "true"),)
REQ = (("required", "true"),)


def num_sets(t):
    return sets("num", numeric(t), 3, IE)


def nums(types=S.NUM_TYPES):
    return {t: [S.f(t, r, tags={"num"}) for r in num_sets(t)] for t in types}


def strings():
    return [S.f("string", r, tags={"str"}) for r in sets("string", STRING, 2, IE)]


def formats():
    return [m for m in strings() if any(" %s: true" % w in m.body or "{%s: true" % w in m.body for w in WELL) or "well_known_regex" in m.body]


def more(*lists):
    """The lists as one, each message once."""
    seen, out = set(), []
    for l in lists:
        for m in l:
            k = (m.body, m.pre, m.opts)
            if k not in seen:
                seen.add(k)
                out.append(m)
    return out


def triples():
    """Sets of three string rules; for the deep runs."""
    return [S.f("string", r, tags={"str"}) for r in sets("string", STRING[:23], 3)]


def bytess(deep=False):
    out = [S.f("bytes", r, tags={"bytes"}) for r in sets("bytes", BYTES, 3 if deep else 2, IE)]
    out += [S.f("EPlain", r, "enum", tags={"enum"}) for r in sets("enum", ENUM, 3)]
    for m in out:
        m.pre = S.ENUMS
    return out


def times():
    out = [S.f("google.protobuf.Duration", r, "duration", tags={"dur"}) for r in sets("dur", DURATION, 3, REQ)]
    out += [S.f("google.protobuf.Timestamp", r, "timestamp", tags={"ts"}) for r in sets("ts", TIMESTAMP, 3, REQ)]
    now = [", ".join("%s: %s" % a for a in c) for k in (1, 2, 3) for c in itertools.combinations(NOW + [("required", "true")], k) if not {"lt_now", "gt_now"} <= {a for a, _ in c}]
    out += [S.f("google.protobuf.Timestamp", r, "timestamp", tags={"ts", "now"}) for r in now]
    return out


def anys():
    return [S.f("google.protobuf.Any", r, "any", tags={"wrap", "any"}) for r in sets("any", ANY, 2)]


def kinds():
    """(type, rule kind, rule sets) of everything that can be an element."""
    out = [(t, t, [x for x in num_sets(t) if x.count(":") < 4]) for t in S.NUM_TYPES]
    out.append(("bool", "bool", ["const: true", "const: false"]))
    out.append(("string", "string", ["%s: %s" % a for a in STRING if a[0] != "strict"] + ["well_known_regex: HTTP_HEADER_NAME, strict: false", "min_len: 2, max_len: 3", "min_len: 2, max_len: 2", "min_bytes: 2, max_bytes: 4", "min_bytes: 2, max_bytes: 2", "min_len: 2, ignore_empty: true", 'in: ["ab", "b"], ignore_empty: true',
                "uuid: true, ignore_empty: true", "hostname: true, max_len: 3"]))
    out.append(("bytes", "bytes", ["%s: %s" % a for a in BYTES] + ["min_len: 2, max_len: 3", "min_len: 2, max_len: 2", "min_len: 2, ignore_empty: true"]))
    out.append(("EPlain", "enum", ["%s: %s" % a for a in ENUM] + ["defined_only: true, not_in: [0]"]))
    out.append(("EHolder.ENested", "enum", ["defined_only: true", "in: [1, 2]"]))
    out.append(("google.protobuf.NullValue", "enum", ["defined_only: true", "const: 0"]))
    out.append(("google.protobuf.Duration", "duration", sets("dur", DURATION, 2)))
    out.append(("google.protobuf.Timestamp", "timestamp", sets("ts", TIMESTAMP, 2) + ["lt_now: true", "gt_now: true", "within: {seconds: 3600}", "lt_now: true, within: {seconds: 3600}"]))
    out.append(("google.protobuf.Any", "any", sets("any", ANY, 2)))
    return out


LIGHT = {"int32", "double", "bool", "string", "bytes", "EPlain", "google.protobuf.Duration", "google.protobuf.Timestamp", "google.protobuf.Any"}


def light(t, rs):
    """The part of kinds() the costly checks use: one type per rule kind, no pairs of numeric rules."""
    if t not in LIGHT:
        return []
    return [x for x in rs if x.count(":") - x.count("{") < 2 or t in ("string", "bytes", "EPlain")]


def cc_light():
    """Positions for C++: every rule once as a list element, a map key and value, in a oneof, and in a wrapper."""
    out = []
    P = S.ENUMS + S.SUB
    for t, k, rs in kinds():
        for i, r in enumerate(light(t, rs)):
            out.append(S.Msg("repeated %s val = 1 [(validate.rules).repeated = {items: {%s: {%s}}}];" % (t, k, r), pre=P, tags=tag(k)))
            out.append(S.Msg("map<int32, %s> val = 1 [(validate.rules).map = {values: {%s: {%s}}}];" % (t, k, r), pre=P, tags=tag(k)))
            if t in S.KEY_TYPES:
                out.append(S.Msg("map<%s, int32> val = 1 [(validate.rules).map = {keys: {%s: {%s}}}];" % (t, k, r), pre=P))
            req = "option (validate.required) = true; " if i % 2 else ""
            out.append(S.Msg("oneof o { %s%s val = 1 [(validate.rules).%s = {%s}]; %s other = 2; }" % (req, t, k, r, t), pre=P, tags=tag(k)))
            w = {"int32": "Int32Value", "string": "StringValue", "bytes": "BytesValue", "bool": "BoolValue", "double": "DoubleValue"}.get(t)
            if w:
                out.append(S.Msg("google.protobuf.%s val = 1 [(validate.rules).%s = {%s}];" % (w, k, r), pre=P))
                out.append(S.Msg("%s google.protobuf.%s val = 1 [(validate.rules).repeated = {items: {%s: {%s}}}];" % ("repeated", w, k, r), pre=P))
    return out


UNIMPL = ("email: true", "uri: true", "uri_ref: true")


def cc_unimplemented():
    """Every pair of a rule C++ does not implement and another rule, and every one at every position."""
    un = lambda m: any(u in m.body for u in UNIMPL) or ".bytes" in m.body and any(u in m.body for u in ("ip: true", "ipv4: true", "ipv6: true")) or ".timestamp" in m.body
    out = [m for m in strings() + bytess() + times() if un(m)]
    for m in out:
        m.pre = S.ENUMS + S.SUB
    return out + [m for m in cc_light() if un(m) or ("bytes: {" in m.body and "ip" in m.body) or "timestamp: {" in m.body or "BytesValue" in m.body and "ip" in m.body]


def cc_rest():
    """The other pairs, and rules at every position, for C++."""
    bodies = {m.body for m in cc_unimplemented()}
    n = nums(["int32", "uint64", "double"])
    out = [m for t in n for m in n[t]] + strings() + bytess() + times()
    for m in out:
        m.pre = S.ENUMS + S.SUB
    return [m for m in out + cc_light() if m.body not in bodies]


def java_pairs():
    """Pairs of rules (without ignore_empty as a third), and every rule at every position."""
    n = [S.f("uint32", r) for r in sets("num", numeric("uint32"), 2)]
    out = n + [S.f("string", r) for r in sets("string", STRING, 2)] + [S.f("bytes", r) for r in sets("bytes", BYTES, 2)] + times()
    for m in out:
        m.pre = S.ENUMS + S.SUB
    return out + cc_light()


def tag(k):
    return {"duration": {"dur"}, "timestamp": {"ts"}, "any": {"any"}}.get(k, set())


def in_lists():
    out = []
    for t, k, rs in kinds():
        for r in rs:
            out.append(S.f("repeated " + t, "items: {%s: {%s}}" % (k, r), "repeated", tags={"rep"} | tag(k)))
        if "Value" not in t and not t.startswith("google"):
            out.append(S.f("repeated " + t, "unique: true, max_items: 2, items: {%s: {%s}}" % (k, rs[0]), "repeated", tags={"rep"}))
    for c in sets("rep", [("min_items", "1"), ("max_items", "2"), ("unique", "true"), ("items", "{string: {min_len: 1}}"), ("ignore_empty", "true")], 5):
        out.append(S.f("repeated string", c, "repeated", tags={"rep"}))
    for c in sets("rep", [("min_items", "2"), ("max_items", "2"), ("unique", "true"), ("items", "{int32: {gt: 0}}"), ("ignore_empty", "true")], 5):
        out.append(S.f("repeated int32", c, "repeated", tags={"rep"}))
    for c in sets("rep", [("min_items", "1"), ("max_items", "2"), ("items", "{message: {required: true}}"), ("ignore_empty", "true")], 4):
        out.append(S.f("repeated Sub", c, "repeated", tags={"rep"}))
    for m in out:
        m.pre = S.ENUMS + S.SUB
    return out


def in_maps():
    out = []
    for t, k, rs in kinds():
        for r in rs:
            out.append(S.f("map<string, %s>" % t, "values: {%s: {%s}}" % (k, r), "map", tags={"map"} | tag(k)))
            if t in S.KEY_TYPES:
                out.append(S.f("map<%s, bool>" % t, "keys: {%s: {%s}}" % (k, r), "map", tags={"map"}))
        out.append(S.f("map<int32, %s>" % t, "keys: {int32: {gt: 0}}, values: {%s: {%s}}" % (k, rs[0]), "map", tags={"map"} | tag(k)))
    for c in sets("map", [("min_pairs", "1"), ("max_pairs", "2"), ("keys", "{string: {min_len: 1}}"), ("values", "{int32: {gt: 0}}"), ("ignore_empty", "true")], 5):
        out.append(S.f("map<string, int32>", c, "map", tags={"map"}))
    for c in sets("map", [("min_pairs", "1"), ("max_pairs", "2"), ("no_sparse", "true"), ("keys", "{int32: {gt: 0}}"), ("values", "{message: {required: true}}"), ("ignore_empty", "true")], 6):
        out.append(S.f("map<int32, Sub>", c, "map", tags={"map", "nosparse"} if "no_sparse" in c else {"map"}))
    for m in out:
        m.pre = S.ENUMS + S.SUB
    return out


def in_oneofs():
    out = []
    for t, k, rs in kinds():
        for i, r in enumerate(rs):
            req = "option (validate.required) = true; " if i % 2 else ""
            out.append(S.Msg("oneof o { %s%s val = 1 [(validate.rules).%s = {%s}]; %s other = 2; }" % (req, t, k, r, t), pre=S.ENUMS + S.SUB, tags={"nested"} | tag(k)))
    return out


def in_wrappers():
    out = []
    for w, t in S.WRAPPERS.items():
        W = "google.protobuf." + w
        rs = [r for k, _, x in kinds() if k == t for r in x]
        for i, r in enumerate(rs):
            out.append(S.f(W, r, t, tags={"wrap"}))
            out.append(S.Msg("%s val = 1 [(validate.rules) = {message: {required: true}, %s: {%s}}];" % (W, t, r), tags={"wrap"}))
            out.append(S.f("repeated " + W, "items: {%s: {%s}}" % (t, r), "repeated", tags={"wrap", "wrapelem"}))
            out.append(S.f("map<string, %s>" % W, "values: {%s: {%s}}" % (t, r), "map", tags={"wrap", "wrapelem"}))
            req = "option (validate.required) = true; " if i % 2 else ""
            out.append(S.Msg("oneof o { %s%s val = 1 [(validate.rules).%s = {%s}]; int32 x = 2; }" % (req, W, t, r), tags={"wrap"}))
        out.append(S.f("repeated " + W, "items: {message: {required: true}, %s: {%s}}" % (t, rs[0]), "repeated", tags={"wrap", "wrapelem"}))
        out.append(S.f("map<int32, %s>" % W, "values: {message: {required: true}, %s: {%s}}, keys: {int32: {gt: 0}}" % (t, rs[0]), "map", tags={"wrap", "wrapelem"}))
        out.append(S.Msg("oneof o { %s val = 1 [(validate.rules) = {message: {required: true}, %s: {%s}}]; int32 x = 2; }" % (W, t, rs[0]), tags={"wrap"}))
    return out


def all_positions():
    return in_lists() + in_maps() + in_oneofs() + in_wrappers()
