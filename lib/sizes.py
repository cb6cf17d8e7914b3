"""Large values: fields called "big" get values of many sizes (go/vals/big.go)."""
import schemas as S

PRE = S.ENUMS + S.SUB


def m(*fields):
    return S.Msg(" ".join(fields), pre=PRE, tags={"big"})


def f(t, rule, kind):
    return m("%s big = 1%s;" % (t, " [(validate.rules).%s = {%s}]" % (kind, rule) if rule is not None else ""))


def lists():
    out = []
    for t, item in (("int32", "int32: {gt: 0}"), ("uint64", "uint64: {not_in: [0]}"), ("string", "string: {min_len: 1}"), ("string", 'string: {pattern: "^a"}'), ("bytes", "bytes: {min_len: 1}"), ("double", "double: {gte: 0}"),
                    ("EPlain", "enum: {not_in: [-2]}"), ("Sub", "message: {required: true}"), ("Sub", None)):
        out.append(f("repeated " + t, "items: {%s}" % item if item else None, "repeated"))
        if item:
            out.append(f("repeated " + t, "min_items: 2, max_items: 16, items: {%s}" % item, "repeated"))
    for t in S.NUM_TYPES + ["string", "bytes"]:
        out.append(f("repeated " + t, "unique: true", "repeated"))
    out.append(f("repeated int32", "unique: true, max_items: 100, items: {int32: {gt: 0}}", "repeated"))
    for t in ("int32", "Sub", "string"):
        for r in ("min_items: 10", "max_items: 10", "min_items: 100, max_items: 128", "min_items: 256, max_items: 256", "max_items: 1000", "min_items: 1000", "min_items: 17, ignore_empty: true"):
            out.append(f("repeated " + t, r, "repeated"))
    out.append(f("repeated google.protobuf.Int32Value", "items: {int32: {lt: 1000}}", "repeated"))
    out.append(f("repeated google.protobuf.Duration", "items: {duration: {lt: {seconds: 1000}}}", "repeated"))
    return out


def maps():
    out = []
    for k in S.KEY_TYPES:
        if k != "bool":
            out.append(f("map<%s, int32>" % k, "keys: {%s: {%s}}, values: {int32: {gt: 0}}" % (k, "not_in: [0]" if k != "string" else "min_len: 1"), "map"))
    out.append(f("map<string, Sub>", None, "map"))
    out.append(f("map<string, Sub>", "values: {message: {required: true}}", "map"))
    out.append(f("map<int32, string>", 'values: {string: {prefix: "a"}}', "map"))
    for v in ("int32", "Sub"):
        for r in ("min_pairs: 10", "max_pairs: 10", "min_pairs: 100, max_pairs: 128", "min_pairs: 256, max_pairs: 256", "max_pairs: 1000", "min_pairs: 1000", "min_pairs: 17, ignore_empty: true"):
            out.append(f("map<int32, %s>" % v, r, "map"))
    return out


def sparse():
    return [f("map<int32, Sub>", "no_sparse: true", "map")]


def strings():
    out = []
    for r in (None, "len: 10", "min_len: 10", "max_len: 10", "len: 64", "min_len: 100, max_len: 128", "max_len: 255", "len: 256", "min_len: 1000", "max_len: 65536", "len_bytes: 10", "min_bytes: 64", "max_bytes: 64", "min_bytes: 100, max_bytes: 128", "len_bytes: 256", "max_bytes: 1000",
              "min_len: 10, max_bytes: 20", "max_len: 10, min_bytes: 20", "max_len: 63, max_bytes: 255", "len: 1", "max_len: 1",
              'prefix: "abab"', 'suffix: "abab"', 'contains: "abab"', 'not_contains: "abab"', 'contains: "aab"', 'not_contains: "aab"', 'contains: "€é"', 'not_contains: "😀b"', 'suffix: "é€"', 'prefix: "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"', 'suffix: "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbba"', 'contains: "a\\x00b"', 'const: "%s"' % ("abc" * 30),
              "in: [%s]" % ", ".join('"k%d"' % i for i in range(40)), "not_in: [%s]" % ", ".join('"k%d"' % i for i in range(40)), 'in: ["zz", "a", "mm", "b"]',
              "ignore_empty: true, min_len: 10", "in: [%s]" % ", ".join('"%s"' % c for c in ("\u0080", "\uffff", "\U00010000", "\U0010ffff", "\ufeff", "\u07ff", "\u0800"))):
        out.append(f("string", r, "string"))
    return out


def bytess():
    out = []
    for r in ("len: 10", "min_len: 64", "max_len: 64", "min_len: 100, max_len: 128", "len: 256", "max_len: 1000", r'prefix: "abab"', r'suffix: "\x00\x00\x00"', r'contains: "\x00\x00\x01"', r'contains: "aab"', r'prefix: "\xff\xfe\xfd"', r'suffix: "\x80\xff"',
              "in: [%s]" % ", ".join('"\\x%02x"' % i for i in range(0, 256, 3)), "not_in: [%s]" % ", ".join('"\\x%02x"' % i for i in range(0, 256, 3)), r'pattern: "^[a-z]+$"'):
        out.append(f("bytes", r, "bytes"))
    return out


def numbers():
    """Long lists of constants, in no order."""
    out = []
    for t in S.NUM_TYPES:
        ks = [(i * 37) % 101 for i in range(40)]
        for r in ("in", "not_in"):
            out.append(S.f(t, "%s: [%s]" % (r, ", ".join(map(str, ks)))))
        out.append(S.f(t, "in: [3, 1, 2]"))
        out.append(S.f(t, "gt: 1000000, lt: 1000010"))
        out.append(S.f(t, "gte: 16777216, lte: 16777300"))
    for r in ("in", "not_in"):
        out.append(S.f("EPlain", "%s: [5, 0, -2]" % r, "enum"))
    for x in out:
        x.pre = PRE
    return out


def chains():
    return [m("Rec big = 1;"), m("Rec big = 1 [(validate.rules).message = {required: true}];"), m("oneof o { Rec big = 1; int32 x = 2; }")]


def wide():
    """Messages with many fields under rules, of which any one or two are violated."""
    out = []
    for n in (12, 33, 70):
        out.append(m(*["int32 f%d = %d [(validate.rules).int32 = {lt: 5}];" % (i, i) for i in range(1, n + 1)]))
    out.append(m(*["Sub f%d = %d%s;" % (i, i, " [(validate.rules).message.required = true]" if i % 3 == 0 else "") for i in range(1, 20)]))
    out.append(m(*["string f%d = %d [(validate.rules).string = {max_len: 1}];" % (i * 7, i * 7) for i in range(1, 20)]))
    out.append(m("oneof o { option (validate.required) = true; %s }" % " ".join("int32 f%d = %d [(validate.rules).int32 = {gt: %d}];" % (i, i, i) for i in range(1, 20))))
    out.append(m(*["oneof o%d { option (validate.required) = true; int32 f%d = %d; int32 g%d = %d [(validate.rules).int32 = {gt: 0}]; }" % (i, i, i, i, i + 100) for i in range(1, 14)]))
    return out


def all(nosparse=False):
    return lists() + maps() + strings() + bytess() + numbers() + chains() + wide() + (sparse() if nosparse else [])
