"""The bounded universe of rule sets: every function returns a list of Msg
(one message type each); files() packs them into .proto files."""

NUM_TYPES = ["float", "double", "int32", "int64", "uint32", "uint64", "sint32",
             "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"]
NUM_RULE = {"float": "float", "double": "double"}
WRAPPERS = {"DoubleValue": "double", "FloatValue": "float", "Int64Value": "int64",
            "UInt64Value": "uint64", "Int32Value": "int32", "UInt32Value": "uint32",
            "BoolValue": "bool", "StringValue": "string", "BytesValue": "bytes"}


class Msg:
    """body: the fields; pre: declarations at file level it needs; opts: message options."""

    def __init__(self, body, pre="", opts="", tags=()):
        self.body, self.pre, self.opts, self.tags = body, pre, opts, set(tags)


def f(typ, rule, kind=None, tags=(), name="val"):
    """A message with one field of the type under the rule text."""
    k = kind or typ
    r = " [(validate.rules).%s = {%s}]" % (k, rule) if rule is not None else ""
    return Msg("%s %s = 1%s;" % (typ, name, r), tags=tags)


def limits(t):
    if t.startswith("u") or t.startswith("fixed"):
        return 0, 2 ** 32 - 1 if t.endswith("32") else 2 ** 64 - 1
    if t in ("float", "double"):
        return None, None
    b = 31 if t.endswith("32") else 63
    return -2 ** b, 2 ** b - 1


def num_rules(t):
    """Rule texts of numeric type t; (text, tags)."""
    out = []
    lo_, hi_ = limits(t)
    fl = lo_ is None
    signed = fl or lo_ < 0
    his, los = (None, "lt", "lte"), (None, "gt", "gte")
    ranges = []
    for h in his:
        for l in los:
            if h and l:
                ranges.append("%s: 5, %s: 0" % (h, l))
                ranges.append("%s: 0, %s: 5" % (h, l))
            elif h or l:
                ranges.append("%s: 5" % (h or l))
    out += ranges
    out += ["lt: 1", "lte: 0", "gt: 0", "gte: 1"]
    # adjacent bounds: nothing strictly between, or only between
    out += ["gt: 5, lt: 6", "gte: 5, lt: 6", "gt: 5, lte: 6", "lt: 5, gt: 6", "lte: 5, gte: 6"]
    if signed:
        out += ["gt: -3, lt: 2", "gte: -3, lte: -1", "lt: -3, gt: 2", "lte: -1", "gte: -1", "const: -1", "in: [-1, 1]", "not_in: [-1]"]
    if not fl:
        out += ["lt: %d" % hi_, "gte: %d" % hi_, "gt: %d" % lo_, "lte: %d" % lo_, "gte: %d, lte: %d" % (lo_, hi_),
                "gt: %d, lt: %d" % (lo_, hi_), "lte: %d, gte: %d" % (lo_, hi_), "lt: %d, gt: %d" % (lo_, hi_),
                "const: %d" % hi_, "const: %d" % lo_, "in: [%d, %d]" % (lo_, hi_), "not_in: [%d, %d]" % (lo_, hi_),
                "lt: %d, gte: %d" % (lo_ + 1, hi_ - 1)]
        if t.endswith("64"):
            # next to 2^53: where doubles lose integers
            k = 2 ** 53
            out += ["lt: %d" % (k + 1), "const: %d" % (k + 1), "in: [%d]" % (k + 1)]
            out += ["gt: %d" % (2 ** 31), "lt: %d" % (2 ** 32)]
    else:
        out += ["lt: 0.5", "gte: 0.1", "gt: 0.1, lt: 0.7", "lt: 0.1, gt: 0.7", "lte: 0.1, gte: 0.7", "const: 0.1", "in: [0.1, 0.25]", "not_in: [0.1]",
                "gt: 1e10", "lte: -1e10", "const: 1.5e20" if t == "double" else "const: 1.5e10", "gte: 123456.789",
                "lt: inf", "gt: -inf", "gt: -inf, lt: inf", "lte: inf", "gte: -inf", "const: inf", "const: -inf", "in: [inf, -inf]", "not_in: [inf, -inf, 1]",
                "gte: inf", "in: [-0.0]", "in: [0, -0.0]", "const: -0.0", "not_in: [-0.0]", "gt: -0.0"]
    out += ["in: [5, 5]", "not_in: [0, 5, 0]"]
    out += ["const: 0", "const: 5", "in: [0]", "in: [0, 5]", "in: [5, 1, 7]", "not_in: [0]", "not_in: [0, 5]",
            "not_in: [5, 1, 7]", "gt: 0, lt: 5, not_in: [2]", "lte: 0, gte: 5, not_in: [0, 7]", "gte: 1, not_in: [1]",
            "lt: 5, not_in: [0]"]
    ie = ["const: 5", "gt: 5", "lt: 0" if signed else "gte: 2", "gt: 0, lt: 5", "lte: 5, gte: 1", "lt: 0, gt: 5" if signed else "lt: 5, gt: 1",
          "in: [5, 7]", "not_in: [0, 5]", "gte: 1, not_in: [0, 2]"]
    out += [r + ", ignore_empty: true" for r in ie]
    out += ["gt: 5, ignore_empty: false", "ignore_empty: true"]
    return out


def num(types=NUM_TYPES):
    return {t: [f(t, r, tags={"num"}) for r in num_rules(t)] for t in types}


STR_LEN = ["len: 0", "len: 2", "min_len: 0", "min_len: 2", "max_len: 0", "max_len: 2", "min_len: 1, max_len: 2",
           "min_len: 2, max_len: 2", "min_len: 0, max_len: 1", "min_len: 3, max_len: 5"]
STR_BYTES = ["len_bytes: 0", "len_bytes: 4", "min_bytes: 0", "min_bytes: 4", "max_bytes: 0", "max_bytes: 4", "min_bytes: 2, max_bytes: 4",
             "min_bytes: 4, max_bytes: 4", "min_bytes: 1, max_bytes: 6", "min_bytes: 0, max_bytes: 3"]
AFF = ['prefix: "ab"', 'prefix: "é"', 'suffix: "ba"', 'suffix: "€"', 'contains: "aa"', 'contains: "é"', 'not_contains: "ab"', 'not_contains: "é"',
       'prefix: ""', 'not_contains: ""']
STR_OTHER = ['const: "a"', 'const: "é"', 'const: ""', 'const: "Foo Bar"', 'in: ["a", "bé"]', 'in: ["", "ab"]', 'not_in: ["a", "bé"]', 'not_in: ["", "ab"]',
             'in: ["a"]', 'not_in: ["a"]', r'const: "a\"b\\c"', r'in: ["a\"b", "\\", "\n", "\t"]', r'const: "100%"', r'prefix: "%d"', r'contains: "\""',
             r'const: "`"', r'in: ["`", "$"]', r'const: "\u0001"' if False else r'const: "\x01"', 'const: "\U0001F600"'.encode().decode(),
             'in: ["a", "b", "a"]', 'not_in: ["a", "a"]',
             r'const: "\x01a"', r'const: "\xc2\x80"', r'in: ["a\x00b", "\x7f1"]', r'prefix: "\x00"', r'suffix: "a\x00"', r'contains: "\x00"', r'not_contains: "\x00"', r'const: "a\x00"', r'const: "\?\?="',
             ]
STR_PAT = [r'pattern: "^[a-b]+$"', r'pattern: "b1?"', r'pattern: "(?i)^aB$"', r'pattern: "^(a|b){2}$"', r'pattern: "\\d"', r'pattern: "^\\S*$"', r'pattern: "^a`b$"', r'pattern: "^[^\n]a$"',
           r'pattern: "^é.$"', r'pattern: ""', r'pattern: "a$"', r'pattern: "^a"', r'pattern: "(?s)^a.$"', r'pattern: "^a|b$"']


def string_rules():
    out = []
    out += STR_LEN + STR_BYTES
    for l in STR_LEN:
        for b in STR_BYTES:
            ml = [x for x in l.split(", ") if x.startswith("max_len")]
            mb = [x for x in b.split(", ") if x.startswith("max_bytes")]
            if ml and mb and int(ml[0].split(": ")[1]) > int(mb[0].split(": ")[1]):
                continue
            out.append(l + ", " + b)
    out += AFF + STR_OTHER + STR_PAT
    # affix pairs and all together, with a length
    for i in range(0, 8, 2):
        for j in range(i + 2, 8, 2):
            out.append(AFF[i] + ", " + AFF[j])
            out.append(AFF[i + 1] + ", " + AFF[j + 1])
    out.append('prefix: "ab", suffix: "ba", contains: "x", not_contains: "qq"')
    out.append('prefix: "ab", suffix: "ba", max_len: 3')
    out.append('prefix: "é", suffix: "é", min_len: 2, max_bytes: 4')
    out.append('prefix: "a", suffix: "aa"')
    out.append('contains: "a", not_in: ["a", "aa"]')
    out.append('in: ["a", "ab", "abc"], min_len: 2')
    out.append('in: ["a", "é"], max_bytes: 1')
    out.append('const: "ab", min_len: 1')
    out.append('pattern: "^a+$", min_len: 2, max_len: 3')
    out.append('pattern: "^a+$", prefix: "aa", not_contains: "aaaa"')
    out.append('pattern: "a", not_in: ["a", "ba"]')
    # ignore_empty
    for r in ['len: 2', 'min_len: 2', 'min_len: 1, max_len: 2', 'min_bytes: 4', 'len_bytes: 4', 'prefix: "ab"', 'suffix: "ba"', 'contains: "aa"', 'not_contains: ""',
              'const: "a"', 'in: ["a", "ab"]', 'not_in: ["", "a"]', 'pattern: "^[a-b]+$"', 'min_len: 2, prefix: "a", not_in: ["ab"]']:
        out.append(r + ", ignore_empty: true")
    out.append("ignore_empty: true")
    out.append("min_len: 2, ignore_empty: false")
    return out


def strings():
    return [f("string", r, tags={"str"}) for r in string_rules()]


def formats():
    out = []
    wk = ["hostname", "address", "ip", "ipv4", "ipv6", "uri", "uri_ref", "uuid", "email"]
    for w in wk:
        out.append(f("string", w + ": true", tags={"fmt", w}))
        out.append(f("string", w + ": true, ignore_empty: true", tags={"fmt", w}))
        out.append(f("string", w + ": false", tags={"fmt", w}))
        out.append(f("string", w + ": true, max_len: 7", tags={"fmt", w}) if w != "uuid" else
                   f("string", w + ': true, prefix: "123e"', tags={"fmt", w}))
    for h in ("HTTP_HEADER_NAME", "HTTP_HEADER_VALUE"):
        for s in ("", ", strict: true", ", strict: false"):
            out.append(f("string", "well_known_regex: %s%s" % (h, s), tags={"fmt", "hdr"}))
        out.append(f("string", "well_known_regex: %s, ignore_empty: true" % h, tags={"fmt", "hdr"}))
        out.append(f("string", "well_known_regex: %s, strict: false, min_len: 2" % h, tags={"fmt", "hdr"}))
    out.append(f("string", "well_known_regex: UNKNOWN", tags={"fmt", "hdr"}))
    # formats side by side in one message do not influence one another
    return out


def bytes_rules():
    out = []
    lens = ["len: 0", "len: 2", "len: 16", "min_len: 0", "min_len: 2", "max_len: 0", "max_len: 2", "min_len: 1, max_len: 2", "min_len: 2, max_len: 2", "min_len: 0, max_len: 1", "min_len: 3, max_len: 5"]
    aff = [r'prefix: "\x00"', r'prefix: "\x01\xff"', r'suffix: "a\x00"', r'suffix: "\xff"', r'contains: "\x00\x00"', r'contains: "\x80"', r'prefix: "ab"', r'suffix: "ba"', r'contains: "aa"']
    oth = [r'const: "\x00"', r'const: ""', r'const: "\x01a"', r'in: ["\x01a", "\xffb"]', r'const: "a\xff"', r'const: "abc"', r'in: ["\x00", "a"]', r'in: ["a\x00", "\xff\xff"]', r'not_in: ["\x00", "a"]', r'in: [""]', r'not_in: [""]', r'not_in: ["", "\xff"]']
    pat = [r'pattern: "^[a-b]+$"', r'pattern: "b1?"', r'pattern: "^[\\x00-\\x7F]+$"', r'pattern: "\\d"']
    ips = ["ip: true", "ipv4: true", "ipv6: true", "ip: false", "ipv4: false"]
    out += lens + aff + oth + pat + ips
    for l in lens[3:8]:
        out.append(l + ", " + r'not_in: ["\x00", "a"]')
    for i, a in enumerate(aff):
        if "max_len: 0" not in a:
            out.append("max_len: 3, " + a)
    out += [aff[0] + ", " + aff[3], aff[6] + ", " + aff[7] + ", " + aff[8], r'prefix: "a", suffix: "aa"', r'in: ["a", "ab"], min_len: 2', r'const: "ab", max_len: 1', r'pattern: "a", min_len: 2', r'ip: true, prefix: "\x07"', 'ipv4: true, min_len: 3']
    for r in ["len: 2", "min_len: 2", 'prefix: "ab"', 'suffix: "ba"', 'contains: "aa"', r'const: "\x00"', r'in: ["\x00", "a"]', r'not_in: ["", "a"]', 'pattern: "^[a-b]+$"', "ip: true", "ipv4: true", "ipv6: true", "min_len: 1, max_len: 2"]:
        out.append(r + ", ignore_empty: true")
    out += ["ignore_empty: true", "min_len: 2, ignore_empty: false"]
    return out


ENUMS = """
enum EPlain { EPLAIN_ZERO = 0; EPLAIN_ONE = 1; EPLAIN_FIVE = 5; EPLAIN_NEG = -2; }
enum EAlias { option allow_alias = true; EALIAS_A = 0; EALIAS_B = 1; EALIAS_C = 1; EALIAS_D = 2; }
enum ESparse { ESPARSE_ZERO = 0; ESPARSE_MAX = 2147483647; ESPARSE_MIN = -2147483648; ESPARSE_TEN = 10; }
message EHolder { enum ENested { ZERO = 0; ONE = 1; TWO = 2; } }
"""


def bytes_bool_enum():
    out = [f("bytes", r, tags={"bytes"}) for r in bytes_rules()]
    out += [f("bool", r, tags={"bool"}) for r in ("const: true", "const: false", "")]
    rules = ["const: 0", "const: 1", "const: -2", "const: 7", "defined_only: true", "defined_only: false", "in: [0, 1]", "in: [5]", "in: [1, 7]", "not_in: [0]", "not_in: [1, 7]",
             "defined_only: true, not_in: [0]", "defined_only: true, not_in: [1, 7]", "defined_only: true, const: 1", "const: 7, defined_only: true", "const: 1, in: [0, 1]", "const: 1, not_in: [1]", "not_in: [-2147483648, 2147483647]"]
    for e in ("EPlain", "EAlias", "ESparse", "EHolder.ENested"):
        for r in rules:
            out.append(f(e, r, "enum", tags={"enum"}))
    for e, r in (("EPlain", "defined_only: true, in: [0, -2]"), ("EAlias", "defined_only: true, in: [1]"), ("EHolder.ENested", "defined_only: true, in: [0, 2]"), ("ESparse", "defined_only: true, in: [2147483647, -2147483648]")):
        out.append(f(e, r, "enum", tags={"enum"}))
    for m in out:
        m.pre = ENUMS
    # external enums
    for e in ("google.protobuf.NullValue", "google.protobuf.Field.Kind"):
        for r in ("defined_only: true", "in: [0]", "not_in: [0, 1]", "const: 0"):
            m = f(e, r, "enum", tags={"enum", "ext"})
            m.pre = ENUMS
            out.append(m)
    return out


SUB = """
message Sub { int32 n = 1 [(validate.rules).int32 = {gt: 0}]; }
message SubDisabled { option (validate.disabled) = true; int32 n = 1 [(validate.rules).int32 = {gt: 0}]; }
message SubIgnored { option (validate.ignored) = true; int32 n = 1 [(validate.rules).int32 = {gt: 0}]; }
message SubPlain { int32 n = 1; }
message SubReq { Sub s = 1 [(validate.rules).message.required = true]; }
message Rec { int32 n = 1 [(validate.rules).int32 = {lt: 5}]; Rec next = 2; repeated Rec many = 3; map<string, Rec> by = 4; oneof o { Rec alt = 5; string s = 6 [(validate.rules).string = {min_len: 1}]; } }
"""

SCALARS = NUM_TYPES + ["bool", "string", "bytes"]
ITEM_RULES = {
    "bool": ["const: true"],
    "string": ["min_len: 1", 'const: "a"', 'pattern: "^a+$"', 'in: ["a", "b"]', 'not_in: ["a"]', "hostname: true", "uuid: true", "ipv4: true", "email: true", "uri: true", 'prefix: "a"', "len: 2, ignore_empty: true", "well_known_regex: HTTP_HEADER_NAME"],
    "bytes": ["min_len: 1", r'const: "a\xff"', 'prefix: "a"', "len: 2", "ip: true", "min_len: 2, ignore_empty: true"],
}
for _t in NUM_TYPES:
    ITEM_RULES[_t] = ["gt: 0", "gte: 1, lt: 5", "lt: 1, gt: 5", "const: 5", "gt: 5, ignore_empty: true"]
ITEM_RULES["EPlain"] = ["defined_only: true", "const: 1", "in: [0, 1]", "not_in: [1]"]
ITEM_IN = {t: ["in: [0, 5]", "not_in: [5]"] for t in NUM_TYPES}
ITEM_IN["bytes"] = [r'in: ["a", "\xff"]', r'not_in: ["a"]']


def rkind(t):
    return "enum" if t.startswith("E") else t


KEY_TYPES = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"]

# What the pinned generator cannot compile (or even generate) at some position
# is a matter of C15; verdict checks stay off it unless it has been repaired.
ITEMS_IN_OK = True
MAP_IN_OK = True


def repeated():
    out = []
    sizes = ["min_items: 0", "min_items: 1", "min_items: 2", "max_items: 0", "max_items: 1", "max_items: 2", "min_items: 1, max_items: 2", "min_items: 2, max_items: 2", "min_items: 0, max_items: 1", "min_items: 0, max_items: 0"]
    for t in ("int32", "string", "Sub", "EPlain"):
        for s in sizes:
            out.append(f("repeated " + t, s, "repeated", tags={"rep"}))
            out.append(f("repeated " + t, s + ", ignore_empty: true", "repeated", tags={"rep"}))
    for t in SCALARS + ["EPlain"]:
        out.append(f("repeated " + t, "unique: true", "repeated", tags={"rep"}))
        out.append(f("repeated " + t, "unique: true, min_items: 2, max_items: 2", "repeated", tags={"rep"}))
        for r in ITEM_RULES[t] + (ITEM_IN.get(t, []) if ITEMS_IN_OK else []):
            out.append(f("repeated " + t, "items: {%s: {%s}}" % (rkind(t), r), "repeated", tags={"rep"}))
        r = ITEM_RULES[t][0]
        out.append(f("repeated " + t, "min_items: 1, unique: true, items: {%s: {%s}}" % (rkind(t), r), "repeated", tags={"rep"}))
        out.append(f("repeated " + t, "min_items: 2, ignore_empty: true, items: {%s: {%s}}" % (rkind(t), r), "repeated", tags={"rep"}))
    for t in ("Sub", "SubDisabled", "SubIgnored", "SubPlain", "SubReq"):
        out.append(f("repeated " + t, None, tags={"rep"}))
        for r in ("items: {message: {required: true}}", "items: {message: {skip: true}}", "min_items: 1", "items: {message: {skip: true, required: true}}"):
            out.append(f("repeated " + t, r, "repeated", tags={"rep"}))
    for r in ("in: [{seconds: 1}, {nanos: 5}]", "not_in: [{seconds: 1}]", "in: [{seconds: 1}, {seconds: 1}]"):
        out.append(f("repeated google.protobuf.Duration", "items: {duration: {%s}}" % r, "repeated", tags={"rep", "dur"}))
    for r in ('in: ["a", "b"]', 'not_in: ["a"]', 'in: ["a"], required: true'):
        out.append(f("repeated google.protobuf.Any", "items: {any: {%s}}" % r, "repeated", tags={"rep", "any"}))
    for w, t, r in (("StringValue", "string", 'in: ["a", ""]'), ("StringValue", "string", 'pattern: "^a"'), ("BytesValue", "bytes", 'not_in: ["a"]'), ("Int32Value", "int32", "in: [0, 5]"), ("DoubleValue", "double", "not_in: [0]"), ("BoolValue", "bool", "const: true")):
        out.append(f("repeated google.protobuf." + w, "items: {%s: {%s}}" % (t, r), "repeated", tags={"rep", "wrap"}))
    out.append(f("repeated google.protobuf.Duration", "items: {duration: {gt: {seconds: 1}}}", "repeated", tags={"rep", "dur"}))
    out.append(f("repeated google.protobuf.Duration", "items: {duration: {required: true}}", "repeated", tags={"rep", "dur"}))
    out.append(f("repeated google.protobuf.Timestamp", "items: {timestamp: {gt: {seconds: 1}}}", "repeated", tags={"rep", "ts"}))
    out.append(f("repeated google.protobuf.Any", "items: {any: {required: true}}", "repeated", tags={"rep", "any"}))
    for m in out:
        m.pre = ENUMS + SUB
    return out


def maps():
    out = []
    sizes = ["min_pairs: 0", "min_pairs: 1", "min_pairs: 2", "max_pairs: 0", "max_pairs: 1", "max_pairs: 2", "min_pairs: 1, max_pairs: 2", "min_pairs: 2, max_pairs: 2", "min_pairs: 0, max_pairs: 1"]
    for s in sizes:
        out.append(f("map<string, int32>", s, "map", tags={"map"}))
        out.append(f("map<int32, Sub>", s + ", ignore_empty: true", "map", tags={"map"}))
    for k in KEY_TYPES:
        for r in ITEM_RULES[k]:
            if k == "string" and ("in:" in r) and not MAP_IN_OK:
                continue
            out.append(f("map<%s, bool>" % k, "keys: {%s: {%s}}" % (k, r), "map", tags={"map"}))
        if MAP_IN_OK:
            for r in ITEM_IN.get(k, []):
                out.append(f("map<%s, bool>" % k, "keys: {%s: {%s}}" % (k, r), "map", tags={"map"}))
    for v in SCALARS + ["EPlain"]:
        for r in ITEM_RULES[v]:
            if "in:" in r and not MAP_IN_OK:
                continue
            out.append(f("map<string, %s>" % v, "values: {%s: {%s}}" % (rkind(v), r), "map", tags={"map"}))
        if MAP_IN_OK:
            for r in ITEM_IN.get(v, []):
                out.append(f("map<string, %s>" % v, "values: {%s: {%s}}" % (rkind(v), r), "map", tags={"map"}))
    out.append(f("map<string, string>", "keys: {string: {min_len: 1}}, values: {string: {max_len: 1}}", "map", tags={"map"}))
    for k, v in (('pattern: "^a"', 'pattern: "b$"'), ('in: ["a", "b"]', 'in: ["b", "c"]'), ('not_in: ["a", "b"]', 'not_in: ["b", "c"]'), ('pattern: "^a"', 'in: ["a"]'), ('in: ["a"]', 'not_in: ["a"]')):
        out.append(f("map<string, string>", "keys: {string: {%s}}, values: {string: {%s}}" % (k, v), "map", tags={"map"}))
    out.append(f("map<int32, EPlain>", "keys: {int32: {in: [0, 5]}}, values: {enum: {in: [0, 1]}}", "map", tags={"map"}))
    out.append(f("map<uint64, bytes>", "keys: {uint64: {not_in: [0]}}, values: {bytes: {in: [\"a\"]}}", "map", tags={"map"}))
    for r in ("in: [{seconds: 1}, {nanos: 5}]", "not_in: [{seconds: 1}]"):
        out.append(f("map<int32, google.protobuf.Duration>", "values: {duration: {%s}}" % r, "map", tags={"map", "dur"}))
    for r in ('in: ["a", "b"]', 'not_in: ["a"]'):
        out.append(f("map<int32, google.protobuf.Any>", "values: {any: {%s}}" % r, "map", tags={"map", "any"}))
    for w, t, r in (("StringValue", "string", 'in: ["a", ""]'), ("Int64Value", "int64", "not_in: [0, 5]"), ("FloatValue", "float", "in: [0]")):
        out.append(f("map<string, google.protobuf.%s>" % w, "values: {%s: {%s}}" % (t, r), "map", tags={"map", "wrap"}))
    out.append(f("map<sint32, string>", "keys: {sint32: {lt: 5}}, values: {string: {min_bytes: 2}}, min_pairs: 1, max_pairs: 2", "map", tags={"map"}))
    out.append(f("map<int64, int64>", "keys: {int64: {gt: 0}}, values: {int64: {gt: 0}}, ignore_empty: true, min_pairs: 1", "map", tags={"map"}))
    for t in ("Sub", "SubDisabled", "SubIgnored", "SubPlain", "SubReq"):
        out.append(f("map<string, %s>" % t, None, tags={"map"}))
        for r in ("no_sparse: true", "no_sparse: false", "values: {message: {required: true}}", "values: {message: {skip: true}}", "no_sparse: true, values: {message: {skip: true}}", "keys: {string: {min_len: 1}}", "no_sparse: true, ignore_empty: true, min_pairs: 2"):
            out.append(f("map<string, %s>" % t, r, "map", tags={"map", "nosparse"} if "no_sparse: true" in r else {"map"}))
    out.append(f("map<int32, google.protobuf.Duration>", "values: {duration: {gt: {seconds: 1}}}", "map", tags={"map", "dur"}))
    out.append(f("map<int32, google.protobuf.Duration>", "values: {duration: {required: true}}", "map", tags={"map", "dur"}))
    out.append(f("map<int32, google.protobuf.Any>", "values: {any: {required: true}}", "map", tags={"map", "any"}))
    for m in out:
        m.pre = ENUMS + SUB
    return out


def nested():
    out = []
    B = []
    for t in ("Sub", "SubDisabled", "SubIgnored", "SubPlain", "SubReq", "Rec", "google.protobuf.Struct" if False else "google.protobuf.Empty"):
        B.append("%s val = 1;" % t)
        for r in ("required: true", "required: false", "skip: true", "skip: false", "skip: true, required: true"):
            B.append("%s val = 1 [(validate.rules).message = {%s}];" % (t, r))
        B.append("repeated %s val = 1;" % t)
        B.append("map<int32, %s> val = 1;" % t)
        for req in ("", "option (validate.required) = true; "):
            B.append("oneof o { %s%s val = 1; int32 x = 2 [(validate.rules).int32 = {gt: 5}]; }" % (req, t))
            B.append("oneof o { %s%s val = 1 [(validate.rules).message = {required: true}]; string x = 2 [(validate.rules).string = {min_len: 1}]; }" % (req, t))
            B.append("oneof o { %s%s val = 1 [(validate.rules).message = {skip: true}]; %s w = 3; }" % (req, t, t))
    # members of every kind, required and not
    for req in ("", "option (validate.required) = true; "):
        B.append("oneof o { %sint32 a = 1 [(validate.rules).int32 = {const: 0}]; string b = 2 [(validate.rules).string = {const: \"\"}]; bytes c = 3 [(validate.rules).bytes = {min_len: 1}]; bool d = 4 [(validate.rules).bool = {const: true}]; EPlain e = 5 [(validate.rules).enum = {defined_only: true}]; double f = 6 [(validate.rules).double = {gt: 0}]; }" % req)
        B.append("oneof o { %sgoogle.protobuf.Duration a = 1 [(validate.rules).duration = {required: true, gt: {}}]; google.protobuf.Timestamp b = 2 [(validate.rules).timestamp = {required: true}]; google.protobuf.Any c = 3 [(validate.rules).any = {required: true, in: [\"a\"]}]; google.protobuf.StringValue d = 4 [(validate.rules).string = {min_len: 2}]; }" % req)
        B.append("oneof o { %sint32 a = 1 [(validate.rules).int32 = {gt: 5, ignore_empty: true}]; int32 plain = 2; } oneof p { Sub s = 3; int32 t = 4 [(validate.rules).int32 = {lt: 0}]; }" % req)
        B.append("int32 before = 5 [(validate.rules).int32 = {gt: 1}]; oneof o { %sint32 a = 1; Sub b = 2; } int32 after = 6 [(validate.rules).int32 = {gt: 1}]; oneof q { option (validate.required) = true; int32 c = 3; int32 d = 4; }" % req)
    # several nested fields, depth 3, nested types
    B.append("Sub a = 1; SubReq b = 2; repeated Sub c = 3; int32 n = 4 [(validate.rules).int32 = {gt: 0}];")
    B.append("message In { message Deep { Sub s = 1; string t = 2 [(validate.rules).string = {max_len: 1}]; } Deep d = 1; } In i = 1; In.Deep j = 2 [(validate.rules).message.required = true];")
    B.append("message Dis { option (validate.disabled) = true; In x = 1 [(validate.rules).message.required = true]; message In { Sub s = 1; int32 k = 2 [(validate.rules).int32 = {gt: 0}]; } } Dis a = 1; Dis.In b = 2;")
    B.append("message Ign { option (validate.ignored) = true; message In { int32 k = 2 [(validate.rules).int32 = {gt: 0}]; } In x = 1; } Ign a = 1; Ign.In b = 2; repeated Ign c = 3;")
    B.append("google.protobuf.Struct s = 1; google.protobuf.FieldMask m = 2 [(validate.rules).message.required = true];")
    B.append("google.protobuf.StringValue s = 1; google.protobuf.Duration d = 2; google.protobuf.Timestamp t = 3; google.protobuf.Any a = 4;")
    B.append("google.protobuf.StringValue s = 1 [(validate.rules).message.required = true]; google.protobuf.BoolValue b = 2 [(validate.rules).message.required = true];")
    B.append("repeated google.protobuf.StringValue s = 1; map<string, google.protobuf.Int32Value> m = 2; repeated google.protobuf.Any a = 3;")
    for b in B:
        out.append(Msg(b, pre=ENUMS + SUB, tags={"nested"}))
    for o, b in (("disabled", "int32 n = 1 [(validate.rules).int32 = {gt: 0}]; Sub s = 2 [(validate.rules).message.required = true]; oneof o { option (validate.required) = true; int32 a = 3; }"),
                 ("disabled", "int32 n = 1; repeated Sub s = 2;"), ("disabled", ""),
                 ("none", ""), ("none", "int32 n = 1; string s = 2;")):
        out.append(Msg(b, pre=ENUMS + SUB, opts="option (validate.disabled) = true;" if o == "disabled" else "", tags={"nested"}))
    out.append(Msg("int32 n = 1 [(validate.rules).int32 = {gt: 0}]; Sub s = 2;", pre=ENUMS + SUB, opts="option (validate.disabled) = false;", tags={"nested"}))
    out.append(Msg("int32 n = 1 [(validate.rules).int32 = {gt: 0}]; Sub s = 2;", pre=ENUMS + SUB, opts="option (validate.ignored) = false;", tags={"nested"}))
    return out


WRAP_RULES = {t: ["const: 5", "const: 0", "gt: 0", "gte: 1, lt: 5", "lt: 0, gt: 5" if not t.startswith("u") else "lt: 2, gt: 5", "in: [0, 5]", "not_in: [0]", "gt: 5, ignore_empty: true", "ignore_empty: true"] for t in ("double", "float", "int64", "uint64", "int32", "uint32")}
WRAP_RULES["bool"] = ["const: true", "const: false"]
WRAP_RULES["string"] = ['const: ""', 'const: "a"', "min_len: 1", "max_bytes: 2", 'in: ["", "a"]', 'not_in: [""]', 'pattern: "^a*$"', 'prefix: "a"', "uuid: true", "hostname: true", "min_len: 2, ignore_empty: true", "email: true"]
WRAP_RULES["bytes"] = ["min_len: 1", "len: 2", r'const: "\xff"', r'in: ["", "a"]', r'not_in: [""]', 'prefix: "a"', "ip: true", "min_len: 2, ignore_empty: true"]


def wrappers():
    out = []
    for w, t in WRAPPERS.items():
        W = "google.protobuf." + w
        out.append(Msg("%s val = 1;" % W, tags={"wrap"}))
        out.append(Msg("%s val = 1 [(validate.rules).message.required = true];" % W, tags={"wrap"}))
        for r in WRAP_RULES[t]:
            out.append(f(W, r, t, tags={"wrap"}))
        for r in WRAP_RULES[t][:3]:
            out.append(Msg("%s val = 1 [(validate.rules) = {message: {required: true}, %s: {%s}}];" % (W, t, r), tags={"wrap"}))
        out.append(Msg("oneof o { option (validate.required) = true; %s val = 1 [(validate.rules).%s = {%s}]; int32 x = 2; }" % (W, t, WRAP_RULES[t][0]), tags={"wrap"}))
    for w, t in WRAPPERS.items():
        W = "google.protobuf." + w
        for r in [r for r in WRAP_RULES[t] if "in:" not in r]:
            out.append(f("repeated " + W, "items: {%s: {%s}}" % (t, r), "repeated", tags={"wrap", "wrapelem"}))
            out.append(f("map<string, %s>" % W, "values: {%s: {%s}}" % (t, r), "map", tags={"wrap", "wrapelem"}))
        out.append(f("repeated " + W, "items: {message: {required: true}, %s: {%s}}" % (t, WRAP_RULES[t][0]), "repeated", tags={"wrap", "wrapelem"}))
        out.append(f("map<int32, %s>" % W, "values: {message: {required: true}, %s: {%s}}, keys: {int32: {gt: 0}}" % (t, WRAP_RULES[t][0]), "map", tags={"wrap", "wrapelem"}))
    for r in ("email: true", "hostname: true", "uuid: true"):
        out.append(f("repeated google.protobuf.StringValue", "items: {string: {%s}}" % r, "repeated", tags={"wrap", "wrapelem", "fmt"}))
        out.append(f("map<string, google.protobuf.StringValue>", "values: {string: {%s}}" % r, "map", tags={"wrap", "wrapelem", "fmt"}))
    A = "google.protobuf.Any"
    out.append(Msg("%s val = 1;" % A, tags={"wrap", "any"}))
    for r in ("required: true", "required: false", 'in: ["type.googleapis.com/google.protobuf.Duration", "x"]', 'in: [""]', 'not_in: ["type.googleapis.com/google.protobuf.Duration"]', 'not_in: ["", "x"]',
              'required: true, in: ["x"]', 'required: true, not_in: ["x", "y"]', 'in: ["x"]'):
        out.append(f(A, r, "any", tags={"wrap", "any"}))
    # two lists in one message must not mix
    out.append(Msg('%s a = 1 [(validate.rules).any = {in: ["x"]}]; %s b = 2 [(validate.rules).any = {not_in: ["x"]}]; google.protobuf.Int32Value c = 3 [(validate.rules).int32 = {in: [1]}]; google.protobuf.Int32Value d = 4 [(validate.rules).int32 = {in: [2]}];' % (A, A), tags={"wrap", "any"}))
    return out


def dur(s):
    """text of a Duration/Timestamp literal: seconds[.nanos]"""
    return s


def durations():
    out = []
    D = "google.protobuf.Duration"
    r = ["required: true", "required: false", "const: {seconds: 1}", "const: {}", "const: {seconds: -1, nanos: -5}", "const: {nanos: 1}", "const: {seconds: 90061, nanos: 1}"]
    for c in ("lt", "lte", "gt", "gte"):
        r += ["%s: {seconds: 1}" % c, "%s: {}" % c, "%s: {nanos: 1000}" % c, "%s: {seconds: -2, nanos: -1}" % c]
    for h in ("lt", "lte"):
        for l in ("gt", "gte"):
            r += ["%s: {seconds: 2}, %s: {seconds: 1}" % (h, l), "%s: {seconds: 1}, %s: {seconds: 2}" % (h, l), "%s: {seconds: 1, nanos: 2}, %s: {seconds: 1, nanos: 1}" % (h, l),
                  "%s: {seconds: 5}, %s: {seconds: -5}, required: true" % (h, l), "%s: {nanos: 1}, %s: {seconds: 3}, not_in: [{seconds: 4}]" % (h, l)]
    r += ["in: [{seconds: 1}, {nanos: 1000}]", "in: [{}]", "not_in: [{seconds: 1}]", "not_in: [{}, {seconds: -1}]", "required: true, in: [{seconds: 1, nanos: 5}]", "required: true, not_in: [{}]", "gt: {}, not_in: [{seconds: 1}]", "required: true, const: {seconds: 3}"]
    out += [f(D, x, "duration", tags={"dur"}) for x in r]
    return out


def timestamps():
    out = []
    T = "google.protobuf.Timestamp"
    r = ["required: true", "required: false", "const: {seconds: 1}", "const: {}", "const: {seconds: -1, nanos: 5}", "const: {seconds: 1257894000, nanos: 999999999}"]
    for c in ("lt", "lte", "gt", "gte"):
        r += ["%s: {seconds: 1}" % c, "%s: {}" % c, "%s: {nanos: 1000}" % c, "%s: {seconds: -62135596800}" % c, "%s: {seconds: -5, nanos: 3}" % c]
    for h in ("lt", "lte"):
        for l in ("gt", "gte"):
            r += ["%s: {seconds: 2}, %s: {seconds: 1}" % (h, l), "%s: {seconds: 1}, %s: {seconds: 2}" % (h, l), "%s: {seconds: 1, nanos: 2}, %s: {seconds: 1, nanos: 1}" % (h, l),
                  "%s: {seconds: 5}, %s: {seconds: -5}, required: true" % (h, l)]
    now = ["lt_now: true", "gt_now: true", "required: true, lt_now: true", "required: true, gt_now: true"]
    for w in ("{seconds: 1}", "{nanos: 1}", "{seconds: 3600}", "{seconds: 86400, nanos: 7}"):
        now += ["within: " + w, "lt_now: true, within: " + w, "gt_now: true, within: " + w, "required: true, within: " + w]
    now += ["const: {seconds: 946684801}, lt_now: true", "const: {seconds: 946684801}, within: {seconds: 5}"]
    out += [f(T, x, "timestamp", tags={"ts"}) for x in r]
    out += [f(T, x, "timestamp", tags={"ts", "now"}) for x in now]
    return out


def mixed():
    """Messages with several violable fields: order, nesting, aggregation."""
    B = [
        "int32 a = 1 [(validate.rules).int32 = {gt: 0, not_in: [-5]}]; string b = 2 [(validate.rules).string = {min_len: 2, prefix: \"a\"}]; Sub c = 3 [(validate.rules).message.required = true];",
        "Sub a = 1; Sub b = 2; repeated Sub c = 3 [(validate.rules).repeated = {min_items: 1}];",
        "repeated int32 a = 1 [(validate.rules).repeated = {min_items: 2, unique: true, items: {int32: {gt: 0}}}]; string z = 2 [(validate.rules).string = {len: 1}];",
        "map<string, int32> a = 1 [(validate.rules).map = {min_pairs: 1, keys: {string: {min_len: 1}}, values: {int32: {gt: 0}}}]; bool b = 2 [(validate.rules).bool = {const: true}];",
        "map<string, Sub> a = 1 [(validate.rules).map = {no_sparse: true, keys: {string: {min_len: 1}}, values: {message: {required: true}}}]; Sub b = 2;",
        "oneof o { option (validate.required) = true; Sub a = 1; int32 b = 2 [(validate.rules).int32 = {gt: 0}]; } string s = 3 [(validate.rules).string = {len: 1, suffix: \"a\"}]; oneof p { option (validate.required) = true; string c = 4 [(validate.rules).string = {email: true}]; }",
        "google.protobuf.Duration d = 1 [(validate.rules).duration = {required: true, gt: {}, not_in: [{seconds: 1}]}]; google.protobuf.Timestamp t = 2 [(validate.rules).timestamp = {required: true, gt: {}}]; google.protobuf.Any y = 3 [(validate.rules).any = {required: true, in: [\"a\"]}]; google.protobuf.Int32Value w = 4 [(validate.rules) = {message: {required: true}, int32: {gt: 0}}];",
        "string a = 1 [(validate.rules).string = {uuid: true}]; string b = 2 [(validate.rules).string = {hostname: true}]; string c = 3 [(validate.rules).string = {uri: true, min_len: 3}]; string d = 4 [(validate.rules).string = {address: true}];",
        "string a = 1 [(validate.rules).string = {min_len: 3, max_bytes: 4, prefix: \"a\", suffix: \"b\", contains: \"c\", not_contains: \"d\", pattern: \"^[abc]+$\", not_in: [\"d\"]}]; bytes b = 2 [(validate.rules).bytes = {min_len: 3, prefix: \"a\", suffix: \"b\", contains: \"c\", pattern: \"^[abc]+$\", not_in: [\"d\"]}];",
        "EPlain e = 1 [(validate.rules).enum = {defined_only: true, not_in: [0, 9]}]; Rec r = 2 [(validate.rules).message.required = true];",
        "Rec r = 1; repeated Rec rs = 2; map<int32, Rec> m = 3;",
        "bytes a = 1 [(validate.rules).bytes = {len: 4, prefix: \"a\", not_in: [\"\"]}]; bytes b = 2 [(validate.rules).bytes = {ip: true, ignore_empty: true}]; double d = 3 [(validate.rules).double = {lt: 0, gt: 5, not_in: [7]}]; float f = 4 [(validate.rules).float = {gte: 0, lte: 1}];",
        "message Inner { Sub s = 1 [(validate.rules).message.required = true]; string t = 2 [(validate.rules).string = {len: 1}]; repeated Sub u = 3; } Inner x = 1 [(validate.rules).message.required = true]; repeated Inner y = 2 [(validate.rules).repeated = {max_items: 1}];",
        "string snake_case_name = 1 [(validate.rules).string = {len: 1}]; string camelName = 2 [(validate.rules).string = {len: 1}]; string UPPER = 3 [(validate.rules).string = {len: 1}]; string _lead = 4 [(validate.rules).string = {len: 1}]; string with_1_digit2x = 5 [(validate.rules).string = {len: 1}]; oneof my_one_of { option (validate.required) = true; int32 member_a = 6 [(validate.rules).int32 = {gt: 0}]; }",
        "Sub skipme = 1 [(validate.rules).message.skip = true]; SubDisabled d = 2; SubIgnored i = 3; Sub v = 4;",
        "repeated string a = 1 [(validate.rules).repeated = {items: {string: {min_len: 1, pattern: \"^a\"}}}]; repeated string b = 2 [(validate.rules).repeated = {unique: true}]; map<sint64, bytes> c = 3 [(validate.rules).map = {keys: {sint64: {gt: -5}}, values: {bytes: {max_len: 1}}}];",
    ]
    return [Msg(b, pre=ENUMS + SUB, tags={"mixed"}) for b in B]


HEADER = """syntax = "proto3";
package pgvmc.%s;
option go_package = "pgvmc/gen/%s";
option java_package = "pgvmc.j.%s";
option java_multiple_files = true;
option optimize_for = CODE_SIZE;
%simport "validate/validate.proto";
%s
"""

IMPORTS = [("google.protobuf.Duration", "duration"), ("google.protobuf.Timestamp", "timestamp"), ("google.protobuf.Any", "any"), ("google.protobuf.Struct", "struct"),
           ("google.protobuf.NullValue", "struct"), ("google.protobuf.FieldMask", "field_mask"), ("google.protobuf.Empty", "empty"), ("google.protobuf.Field.Kind", "type")] + \
          [("google.protobuf." + w, "wrappers") for w in WRAPPERS]


class File:
    def __init__(self, pkg, msgs):
        self.pkg, self.path = pkg, "pgvmc/%s.proto" % pkg
        self.rules = {}
        pre = msgs[0].pre
        assert all(m.pre == pre for m in msgs)
        out = []
        for i, m in enumerate(msgs):
            name = "M%d" % i
            out.append("message %s { %s %s }" % (name, m.opts, m.body))
            self.rules["pgvmc.%s.%s" % (pkg, name)] = m.body
        body = "\n".join(out)
        imps = sorted({f for n, f in IMPORTS if n in body or n in pre})
        self.text = HEADER % (pkg, pkg, pkg, "".join('import "google/protobuf/%s.proto";\n' % i for i in imps), pre) + body + "\n"


def pack(prefix, msgs, per=120):
    """Files of at most per messages with equal preambles."""
    groups, out = {}, []
    for m in msgs:
        groups.setdefault(m.pre, []).append(m)
    n = 0
    for ms in groups.values():
        for i in range(0, len(ms), per):
            out.append(File("%s%d" % (prefix, n), ms[i:i + per]))
            n += 1
    return out


def unimplemented():
    """Rules C++ does not implement, at every position and behind every kind of guard."""
    out = []
    P = "message Inner { string s = 1 [(validate.rules).string = {email: true}]; int32 k = 2; }\n" \
        "message InnerOff { option (validate.disabled) = true; string s = 1 [(validate.rules).string = {email: true}]; Inner deep = 2; }\n" \
        "message InnerIgn { option (validate.ignored) = true; string s = 1 [(validate.rules).string = {uri: true}]; }\n" \
        "message InnerTs { google.protobuf.Timestamp t = 1 [(validate.rules).timestamp = {gt: {seconds: 1}}]; }\n"
    SR = ["email: true", "uri: true", "uri_ref: true"]
    BR = ["ip: true", "ipv4: true", "ipv6: true"]
    T = "google.protobuf.Timestamp"
    TR = ["const: {seconds: 1}", "lt: {seconds: 5}", "lte: {seconds: 5}", "gt: {seconds: 1}", "gte: {seconds: 1}", "lt: {seconds: 5}, gt: {seconds: 1}", "lte: {seconds: 5}, gte: {seconds: 1}", "lte: {seconds: 1}, gt: {seconds: 5}",
          "lt_now: true", "gt_now: true", "within: {seconds: 5}", "lt_now: true, within: {seconds: 5}", "gt_now: true, within: {seconds: 5}"]

    def add(b):
        out.append(Msg(b, pre=ENUMS + SUB + P, tags={"unimpl"}))
    for t, k, rs, more in (("string", "string", SR, ["min_len: 2", "max_len: 1", "ignore_empty: true", "ignore_empty: true, min_len: 2", 'not_in: ["a"]', 'prefix: "a"', 'const: "a@b.c"', 'contains: "@"', "max_bytes: 2"]),
                           ("bytes", "bytes", BR, ["min_len: 4", "max_len: 4", "ignore_empty: true", "ignore_empty: true, len: 4", r'not_in: ["a"]', r'prefix: "\x7f"'])):
        for r in rs:
            R = "%s: {%s}" % (k, r)
            add("%s val = 1 [(validate.rules).%s];" % (t, R.replace(": {", " = {", 1)))
            add("%s val = 1 [(validate.rules).%s = {%s}];" % (t, k, r.replace("true", "false")))
            for m in more:
                add("%s val = 1 [(validate.rules).%s = {%s, %s}];" % (t, k, r, m))
            for req in ("", "option (validate.required) = true; "):
                add("oneof o { %s%s val = 1 [(validate.rules).%s = {%s}]; int32 x = 2 [(validate.rules).int32 = {gt: 0}]; }" % (req, t, k, r))
                add("oneof o { %sint32 x = 2; Sub s = 3; %s val = 1 [(validate.rules).%s = {%s, ignore_empty: true}]; }" % (req, t, k, r))
            add("repeated %s val = 1 [(validate.rules).repeated = {items: {%s}}];" % (t, R))
            add("repeated %s val = 1 [(validate.rules).repeated = {min_items: 2, ignore_empty: true, items: {%s}}];" % (t, R))
            add("repeated %s val = 1 [(validate.rules).repeated = {unique: true, items: {%s: {%s, ignore_empty: true}}}];" % (t, k, r))
            add("map<int32, %s> val = 1 [(validate.rules).map = {values: {%s}}];" % (t, R))
            add("map<int32, %s> val = 1 [(validate.rules).map = {keys: {int32: {gt: 0}}, values: {%s: {%s, ignore_empty: true}}}];" % (t, k, r))
            if t == "string":
                add("map<string, int32> val = 1 [(validate.rules).map = {keys: {%s}}];" % R)
                add("map<string, int32> val = 1 [(validate.rules).map = {min_pairs: 1, ignore_empty: true, keys: {%s}, values: {int32: {gt: 0}}}];" % R)
            W = "google.protobuf.%sValue" % t.capitalize()
            add("%s val = 1 [(validate.rules).%s = {%s}];" % (W, k, r))
            add("%s val = 1 [(validate.rules).%s = {%s, ignore_empty: true}];" % (W, k, r))
            add("%s val = 1 [(validate.rules) = {message: {required: true}, %s}];" % (W, R))
            add("oneof o { %s val = 1 [(validate.rules).%s = {%s}]; int32 x = 2; }" % (W, k, r))
            add("repeated %s val = 1 [(validate.rules).repeated = {items: {%s}}];" % (W, R))
            add("map<int32, %s> val = 1 [(validate.rules).map = {values: {%s}}];" % (W, R))
            add("int32 a = 1 [(validate.rules).int32 = {gt: 0}]; %s val = 2 [(validate.rules).%s = {%s}]; int32 b = 3 [(validate.rules).int32 = {lt: 5}];" % (t, k, r))
    for r in TR:
        add("%s val = 1 [(validate.rules).timestamp = {%s}];" % (T, r))
        add("%s val = 1 [(validate.rules).timestamp = {required: true, %s}];" % (T, r))
        add("oneof o { %s val = 1 [(validate.rules).timestamp = {%s}]; int32 x = 2 [(validate.rules).int32 = {gt: 0}]; }" % (T, r))
        add("repeated %s val = 1 [(validate.rules).repeated = {items: {timestamp: {%s}}}];" % (T, r))
        add("map<int32, %s> val = 1 [(validate.rules).map = {values: {timestamp: {%s}}}];" % (T, r))
        add("int32 a = 1 [(validate.rules).int32 = {gt: 0}]; %s val = 2 [(validate.rules).timestamp = {%s}];" % (T, r))
    add("%s val = 1 [(validate.rules).timestamp = {required: true}];" % T)
    add("%s val = 1;" % T)
    for v in ("Sub", "SubPlain", "Inner"):
        for r in ("no_sparse: true", "no_sparse: false", "no_sparse: true, min_pairs: 2", "no_sparse: true, ignore_empty: true", "no_sparse: true, values: {message: {skip: true}}", "no_sparse: true, keys: {string: {min_len: 1}}", "no_sparse: true, values: {message: {required: true}}"):
            add("map<string, %s> val = 1 [(validate.rules).map = {%s}];" % (v, r))
        add("int32 a = 1 [(validate.rules).int32 = {gt: 0}]; map<string, %s> val = 2 [(validate.rules).map = {no_sparse: true}];" % v)
    # behind messages
    for i in ("Inner", "InnerOff", "InnerIgn", "InnerTs"):
        add("%s val = 1;" % i)
        add("%s val = 1 [(validate.rules).message = {skip: true}];" % i)
        add("%s val = 1 [(validate.rules).message = {required: true}];" % i)
        add("%s val = 1 [(validate.rules).message = {skip: true, required: true}];" % i)
        add("repeated %s val = 1;" % i)
        add("repeated %s val = 1 [(validate.rules).repeated = {items: {message: {skip: true}}}];" % i)
        add("map<int32, %s> val = 1;" % i)
        add("map<int32, %s> val = 1 [(validate.rules).map = {values: {message: {skip: true}}}];" % i)
        add("oneof o { %s val = 1; int32 x = 2; }" % i)
        add("oneof o { %s val = 1 [(validate.rules).message = {skip: true}]; %s w = 2; }" % (i, i))
        add("message Mid { %s d = 1; } Mid val = 1; repeated Mid more = 2;" % i)
        add("message Mid { %s d = 1 [(validate.rules).message = {skip: true}]; } Mid val = 1; Mid w = 2;" % i)
        add("Sub first = 1; %s val = 2; Sub last = 3;" % i)
    out.append(Msg("string s = 1 [(validate.rules).string = {email: true}]; google.protobuf.Timestamp t = 2 [(validate.rules).timestamp = {lt_now: true}];", pre=ENUMS + SUB + P, opts="option (validate.disabled) = true;", tags={"unimpl"}))
    out.append(Msg("google.protobuf.StringValue a = 1 [(validate.rules).string = {email: true}]; bytes b = 2 [(validate.rules).bytes = {ip: true, ignore_empty: true}]; oneof o { string c = 3 [(validate.rules).string = {uri: true}]; int32 d = 4; }", pre=ENUMS + SUB + P, tags={"unimpl"}))
    return out


def python_names():
    """Fields whose names are words of Python, in every position."""
    out = []
    K = ["from", "class", "in", "None", "lambda", "is"]
    pos = ["int32 %s = 1 [(validate.rules).int32 = {gt: 0}];", "string %s = 1 [(validate.rules).string = {min_len: 1, ignore_empty: true, not_in: [\"a.b\"]}];",
           "bytes %s = 1 [(validate.rules).bytes = {len: 2}];", "EPlain %s = 1 [(validate.rules).enum = {defined_only: true}];", "bool %s = 1 [(validate.rules).bool = {const: true}];",
           "Sub %s = 1;", "Sub %s = 1 [(validate.rules).message = {required: true}];", "repeated Sub %s = 1;", "map<string, Sub> %s = 1;",
           "repeated int32 %s = 1 [(validate.rules).repeated = {min_items: 1, unique: true, items: {int32: {gt: 0}}}];",
           "map<string, int32> %s = 1 [(validate.rules).map = {min_pairs: 1, keys: {string: {min_len: 1}}, values: {int32: {gt: 0}}}];",
           "google.protobuf.StringValue %s = 1 [(validate.rules).string = {min_len: 1}];", "google.protobuf.Int64Value %s = 1 [(validate.rules) = {message: {required: true}, int64: {gt: 0}}];",
           "google.protobuf.Duration %s = 1 [(validate.rules).duration = {required: true, gt: {seconds: 1}}];", "google.protobuf.Timestamp %s = 1 [(validate.rules).timestamp = {required: true, lt_now: true}];",
           "google.protobuf.Any %s = 1 [(validate.rules).any = {required: true, in: [\"a.b\"]}];",
           "oneof o { option (validate.required) = true; int32 %s = 1 [(validate.rules).int32 = {gt: 0}]; Sub s = 2; }", "oneof o { option (validate.required) = true; Sub %s = 1; int32 s = 2; }"]
    for i, p in enumerate(pos):
        for k in (K[i % len(K)], K[(i + 2) % len(K)], "p", "item", "key", "present", "val_", "re", "o"):
            if k == "o" and "oneof" in p:
                continue
            out.append(Msg(p % k, pre=ENUMS + SUB))
    return out


OLD = "message OldSub { int32 n = 1 [(validate.rules).int32 = {gt: 0}]; string s = 2 [(validate.rules).string = {max_len: 1}]; }\nmessage OldOver { OldSub o = 1; Sub s = 2; repeated OldSub r = 3; }\n"


def legacy():
    """Embedded messages of an older plugin: Validate and no ValidateAll (mc.gen_go takes it away)."""
    B = []
    for t in ("OldSub", "OldOver"):
        B += ["%s val = 1;" % t, "%s val = 1 [(validate.rules).message = {required: true}];" % t, "%s val = 1 [(validate.rules).message = {skip: true}];" % t, "repeated %s val = 1;" % t,
              "map<int32, %s> val = 1;" % t, "oneof o { %s val = 1; int32 x = 2 [(validate.rules).int32 = {gt: 5}]; }" % t, "%s a = 1; Sub b = 2; %s c = 3; int32 d = 4 [(validate.rules).int32 = {gt: 5}];" % (t, t),
              "repeated %s val = 1 [(validate.rules).repeated = {min_items: 1, items: {message: {skip: true}}}];" % t, "message In { %s val = 1; } In i = 1; repeated In j = 2;" % t]
    return [Msg(b, pre=ENUMS + SUB + OLD, tags={"nested"}) for b in B]


def _opt_body(body, every=1):
    """The body with its singular fields (outside oneofs) declared optional."""
    import re
    out, i, n, depth, skip = "", 0, 0, 0, []
    for m in re.finditer(r'"(?:[^"\\]|\\.)*"|\boneof\s+\w+\s*\{|\{|\}|(?<![\w.])(?!option\b|repeated\b|optional\b|message\b|enum\b)[A-Za-z_][\w.]*\s+[A-Za-z_]\w*\s*=\s*\d+|[^"{}\w]|\w+', body):
        t = m.group(0)
        if t.startswith("oneof") and t.endswith("{"):
            depth += 1
            skip.append(depth)
        elif t == "{":
            depth += 1
        elif t == "}":
            if skip and skip[-1] == depth:
                skip.pop()
            depth -= 1
        elif re.match(r"[A-Za-z_][\w.]*\s+\w+\s*=\s*\d+$", t) and not skip and not out.rstrip().endswith("repeated"):
            n += 1
            if n % every == 0:
                t = "optional " + t
        out += t
    return out


def optionals():
    """Fields declared optional: validated when they are set, and then to their zero value, too."""
    out = []

    def take(ms, every=1):
        for m in ms:
            b = _opt_body(m.body, every)
            if b != m.body:
                out.append(Msg(b, pre=ENUMS + SUB, opts=m.opts, tags=m.tags | {"optional"}))
    n = num()
    for t in NUM_TYPES:
        take(n[t])
    take(strings())
    take([m for m in formats() if "false" not in m.body])
    take([m for m in bytes_bool_enum() if m.pre == ENUMS])
    take([m for m in nested() if m.pre == ENUMS + SUB])
    take(wrappers() + durations() + timestamps())
    take(mixed())
    take(mixed(), 2)
    for b in ("optional int32 a = 1; optional string b = 2; optional bytes c = 3; optional Sub d = 4; optional EPlain e = 5; optional double f = 6; optional google.protobuf.Int32Value g = 7; optional bool h = 8;",
              "optional int32 snake_case_name = 1 [(validate.rules).int32 = {gt: 0}]; optional string camelName = 2 [(validate.rules).string = {len: 1}]; optional bytes UPPER = 3 [(validate.rules).bytes = {len: 1}]; optional Sub with_1_digit2x = 4; optional bool x1y = 5 [(validate.rules).bool = {const: true}];",
              "optional int32 val = 1 [(validate.rules).int32 = {gt: 0}]; oneof o { option (validate.required) = true; int32 a = 2 [(validate.rules).int32 = {gt: 0}]; Sub b = 3; } optional Sub c = 4 [(validate.rules).message = {required: true}];",
              "oneof o { int32 a = 1 [(validate.rules).int32 = {gt: 0}]; } optional int32 b = 2 [(validate.rules).int32 = {gt: 0}]; oneof p { option (validate.required) = true; Sub c = 3; }",
              "oneof _val { option (validate.required) = true; int32 a = 1 [(validate.rules).int32 = {gt: 0}]; } optional int32 b = 2 [(validate.rules).int32 = {gt: 0}];",
              "oneof o { option (validate.required) = true; int32 only = 1 [(validate.rules).int32 = {gt: 0}]; }",
              "optional int32 a = 1 [(validate.rules).int32 = {gt: 0, ignore_empty: true}]; int32 b = 2 [(validate.rules).int32 = {gt: 0, ignore_empty: true}]; optional int32 c = 3 [(validate.rules).int32 = {gt: 0}]; int32 d = 4 [(validate.rules).int32 = {gt: 0}];",
              "message In { optional int32 a = 1 [(validate.rules).int32 = {gt: 0}]; optional In in = 2; } optional In x = 1; repeated In y = 2; map<string, In> z = 3; oneof o { In w = 4; }"):
        out.append(Msg(b, pre=ENUMS + SUB, tags={"optional", "mixed"}))
    for o in ("option (validate.disabled) = true;", "option (validate.ignored) = true;"):
        out.append(Msg("optional int32 a = 1 [(validate.rules).int32 = {gt: 0}]; optional Sub b = 2 [(validate.rules).message = {required: true}]; oneof o { int32 c = 3 [(validate.rules).int32 = {gt: 0}]; }", pre=ENUMS + SUB, opts=o, tags={"optional"}))
    return out
