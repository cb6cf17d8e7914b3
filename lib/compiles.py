"""C15: what the plugin accepts compiles, in Go and in C++."""
import hashlib, os, re
from concurrent.futures import ThreadPoolExecutor
import gencases, genrun, mc
import schemas as S

R = "(validate.rules)"
PRE = """
enum E { E_ZERO = 0; E_ONE = 1; E_TWO = 2; }
message Sub { int32 n = 1 [(validate.rules).int32 = {gt: 1}]; }
"""

GO_KW = "break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type continue for import return var".split()
GO_ID = "string int32 int error nil true len append bool byte make panic any bytes errors fmt math net mail url regexp strings time utf8 anypb init main".split()
LOCALS = "m err errors all v i l idx item key val dur ts a wrapper inner_err ok lt lte gt gte now within local host addr uri ip uuid email exists kv size length prefix suffix wrapped msg output p hash cmp value hash_fn field reason cause e parts part".split()
CC_KW = ("class namespace template delete new operator private this union and or not xor inline register typename double float long short signed unsigned void volatile mutable friend explicit extern "
         "export auto char virtual while do static sizeof throw try catch using nullptr alignas decltype noexcept thread_local constexpr static_assert enum protected public int bitand compl not_eq and_eq char16_t wchar_t typeid asm").split()
METHODS = "reset string_ proto_message descriptor clear swap merge_from copy_from is_initialized byte_size get_cached_size default_instance type_name get_type_name unknown_fields field_descriptor validator validation_msg marshal unmarshal check_valid as_duration get_foo set_foo has_foo clear_foo mutable_foo error_name".split()
SHAPES = "camelCase UPPER Mixed_Case a1 a_1 a_1b a__b _a a_ x_y_z fooBARbaz a1b2 A aB Ab x9_y _ab_ __x k_field s_SNAKE".split()
FIELD_NAMES = list(dict.fromkeys(GO_KW + GO_ID + LOCALS + CC_KW + METHODS + SHAPES))
# names no generator of protobuf code itself can cope with are found out by
# compiling the protobuf code alone, and not judged


def field_kinds(n):
    """One field called n under rules that make the generator introduce names."""
    o = lambda t, k, r: "%s %s = 1 [%s.%s = {%s}];" % (t, n, R, k, r)
    return {
        "string": o("string", "string", 'in: ["a"], min_len: 1, max_len: 9, min_bytes: 1, max_bytes: 9, prefix: "a", suffix: "a", contains: "a", not_contains: "b", ignore_empty: true'),
        "pattern": o("string", "string", 'pattern: "^a", len: 3'),
        "number": o("int32", "int32", "gt: 1, lt: 9, not_in: [3]"),
        "bytes": o("bytes", "bytes", 'in: ["a"], prefix: "a", min_len: 1, max_len: 2'),
        "format": o("string", "string", "email: true") + " string %s_h = 2 [%s.string.hostname = true]; string %s_u = 3 [%s.string.uuid = true]; string %s_a = 4 [%s.string.address = true]; string %s_r = 5 [%s.string.uri = true];" % (n, R, n, R, n, R, n, R),
        "enum": o("E", "enum", "defined_only: true, in: [0, 1]"),
        "repeated": o("repeated string", "repeated", 'unique: true, min_items: 1, max_items: 4, items: {string: {in: ["a"]}}'),
        "map": o("map<string, string>", "map", 'min_pairs: 1, max_pairs: 4, keys: {string: {pattern: "a"}}, values: {string: {pattern: "b", min_len: 2, max_len: 3}}'),
        "message": o("Sub", "message", "required: true") + " repeated Sub %s_l = 2; map<int32, Sub> %s_m = 3;" % (n, n),
        "any": o("google.protobuf.Any", "any", 'required: true, in: ["a"]'),
        "duration": o("google.protobuf.Duration", "duration", "required: true, gt: {seconds: 1}, lt: {seconds: 5}, not_in: [{seconds: 3}]"),
        "timestamp": o("google.protobuf.Timestamp", "timestamp", "required: true, lt_now: true, within: {seconds: 5}"),
        "wrapper": o("google.protobuf.StringValue", "string", 'in: ["a"], min_len: 1'),
        "oneof": "oneof o { option (validate.required) = true; %s string %s_x = 2 [%s.string = {pattern: \"a\"}]; }" % (o("int32", "int32", "in: [1, 2]"), n, R),
        "optional": "optional " + o("int32", "int32", "not_in: [1, 2], gte: 1") + ' optional string %s_s = 2 [%s.string = {pattern: "a", not_in: ["b"]}]; optional Sub %s_m = 3 [%s.message.required = true]; optional bytes %s_b = 4 [%s.bytes.len = 2]; optional google.protobuf.Duration %s_d = 5 [%s.duration = {required: true, gt: {seconds: 1}}];' % (n, R, n, R, n, R, n, R),
        "optionalmsg": "optional " + o("Sub", "message", "required: true"),
        "oneofmsg": "oneof %s { option (validate.required) = true; Sub subzz = 1 [%s.message.required = true]; E ezz = 2 [%s.enum.defined_only = true]; }" % (n, R, R),
    }


class Case:
    def __init__(self, cls, files, targets=None, langs=("go", "cc")):
        self.cls, self.files, self.targets, self.langs = cls, files, targets or sorted(files), langs

    def sig(self):
        return self.cls


def message_cases(deep):
    """(class, body of a message): packed into files."""
    out = []
    for n in FIELD_NAMES:
        for k, b in field_kinds(n).items():
            out.append(("field %s as %s" % (n, k), b))
    for c, b, ok, all_langs in gencases.cases(deep):
        if ok:
            out.append(("rule %s|%s" % (c, b), b))
    # well-known helpers at every position, alone and in pairs
    wk = ["email: true", "hostname: true", "address: true", "uuid: true", "ip: true", "uri: true", "uri_ref: true", "ipv4: true", "ipv6: true", "well_known_regex: HTTP_HEADER_NAME"]
    pos = {"plain": "string f%d = %d [(validate.rules).string = {R}];", "wrapper": "google.protobuf.StringValue f%d = %d [(validate.rules).string = {R}];",
           "item": "repeated string f%d = %d [(validate.rules).repeated = {items: {string: {R}}}];", "key": "map<string, int32> f%d = %d [(validate.rules).map = {keys: {string: {R}}}];",
           "value": "map<int32, string> f%d = %d [(validate.rules).map = {values: {string: {R}}}];", "wrapper item": "repeated google.protobuf.StringValue f%d = %d [(validate.rules).repeated = {items: {string: {R}}}];",
           "wrapper value": "map<int32, google.protobuf.StringValue> f%d = %d [(validate.rules).map = {values: {string: {R}}}];",
           "oneof": "oneof o%d { string f%d = %d [(validate.rules).string = {R}]; }"}

    def at(p, i, r):
        t = pos[p]
        return (t % ((i,) * t.count("%d"))).replace("{R}", "{%s}" % r)
    for p in pos:
        for r in wk:
            b = at(p, 1, r)
            out.append(("known %s at %s" % (r, p), b))
            out.append(("known %s at %s in nested" % (r, p), "message In { %s } In i = 1;" % b))
            out.append(("known %s at %s in disabled" % (r, p), "message In { option (validate.disabled) = true; %s } In i = 1;" % b))
            out.append(("known %s at %s in ignored" % (r, p), "message In { option (validate.ignored) = true; %s } In i = 1;" % b))
        for r in wk[:4]:
            for q in pos:
                for s in wk[:4]:
                    out.append(("known %s at %s, %s at %s" % (r, p, s, q), at(p, 1, r) + " " + at(q, 2, s)))
    # constants
    strs = [r'\"', r"\\", "`", "%d", "%", "*/", "//", r"\n", r"\x00", r"\x7f", "é", "€", r"\xf0\x9f\x98\x80", r"\?\?/", "${x}", "{{.}}", "</a>", r"\t", "'", r"a\x00b", r"\r\n", r"\xc2\x85", r"\xe2\x80\xa8", r"\xef\xbb\xbf"]
    for s in strs:
        for k in ("const", "prefix", "suffix", "contains", "not_contains"):
            out.append(("string %s %s" % (k, s), 'string val = 1 [%s.string.%s = "%s"]; bytes b = 2;' % (R, k, s)))
            if k != "not_contains":
                out.append(("bytes %s %s" % (k, s), 'bytes val = 1 [%s.bytes.%s = "%s"];' % (R, k, s)))
        out.append(("string in " + s, 'string val = 1 [%s.string = {in: ["%s", "x"]}]; repeated string w = 2 [%s.repeated = {items: {string: {not_in: ["%s"]}}}];' % (R, s, R, s)))
        out.append(("bytes in " + s, 'bytes val = 1 [%s.bytes = {in: ["%s", "x"]}];' % (R, s)))
        out.append(("any in " + s, 'google.protobuf.Any val = 1 [%s.any = {in: ["%s", "x"]}];' % (R, s)))
        q = {r"\\": r"\\\\", "*/": r"\\*/", r"\?\?/": r"a\?\?/", "${x}": r"\\$\\{x}", "{{.}}": r"\\{\\{.}}"}.get(s, s)
        out.append(("pattern " + s, 'string val = 1 [%s.string.pattern = "%s"]; map<string, string> w = 2 [%s.map = {keys: {string: {pattern: "%s"}}, values: {string: {pattern: "%s"}}}];' % (R, q, R, q, q)))
        if "x7f" not in s and "xc2" not in s:
            out.append(("bytes pattern " + s, 'bytes val = 1 [%s.bytes.pattern = "%s"];' % (R, q)))
    for t, vs in {"double": ["inf", "-inf", "nan", "1e308", "1e-320", "-0.0", "0.1"], "float": ["inf", "-inf", "nan", "3e38", "1e-40", "-0.0", "0.1"], "int32": ["2147483647", "-2147483648"], "int64": ["9223372036854775807", "-9223372036854775808"],
                  "uint32": ["4294967295"], "uint64": ["18446744073709551615", "9223372036854775808"], "sfixed64": ["-9223372036854775808"], "fixed64": ["18446744073709551615"]}.items():
        for v in vs:
            for k in ("const", "lt", "lte", "gt", "gte"):
                out.append(("%s %s %s" % (t, k, v), "%s val = 1 [%s.%s = {%s: %s}];" % (t, R, t, k, v)))
            for k in ("in", "not_in"):
                out.append(("%s %s %s" % (t, k, v), "%s val = 1 [%s.%s = {%s: [%s, 1]}]; repeated %s w = 2 [%s.repeated = {items: {%s: {%s: [%s, %s]}}}];" % (t, R, t, k, v, t, R, t, k, v, v)))
    for d in ("{seconds: 315576000000}", "{seconds: -315576000000}", "{seconds: 9223372036}", "{seconds: 9223372037}", "{nanos: 999999999}", "{seconds: -1, nanos: -5}", "{seconds: 1, nanos: 999999999}", "{}"):
        for k in ("const", "lt", "lte", "gt", "gte"):
            out.append(("duration %s %s" % (k, d), "google.protobuf.Duration val = 1 [%s.duration.%s = %s];" % (R, k, d)))
        out.append(("duration in " + d, "google.protobuf.Duration val = 1 [%s.duration = {in: [%s, {nanos: 7}]}];" % (R, d)))
    for d in ("{seconds: 253402300799, nanos: 999999999}", "{seconds: -62135596800}", "{seconds: -1, nanos: 5}", "{}"):
        for k in ("const", "lt", "lte", "gt", "gte"):
            out.append(("timestamp %s %s" % (k, d), "google.protobuf.Timestamp val = 1 [%s.timestamp.%s = %s];" % (R, k, d)))
    for d in ("{seconds: 315576000000}", "{nanos: 1}", "{seconds: 9223372036}", "{seconds: 9223372037}"):
        for k in ("", "lt_now: true, ", "gt_now: true, "):
            out.append(("timestamp %swithin %s" % (k, d), "google.protobuf.Timestamp val = 1 [%s.timestamp = {%swithin: %s}];" % (R, k, d)))
    for k in ("const", "in", "not_in"):
        for n in ("0", "1", "7", "-1", "2147483647", "-2147483648"):
            v = n if k == "const" else "[%s, 2, %s]" % (n, n)
            out.append(("enum %s %s" % (k, n), "E val = 1 [%s.enum = {%s: %s}]; repeated E w = 2 [%s.repeated = {items: {enum: {%s: %s}}}]; map<int32, E> x = 3 [%s.map = {values: {enum: {%s: %s}}}];" % (R, k, v, R, k, v, R, k, v)))
    # message options combined with everything inside
    every = " ".join(re.sub(r"= 1\b", "= %d" % (10 * i + 1), re.sub(r"= ([2-9])( \[|;)", lambda m: "= %d%s" % (10 * i + int(m.group(1)), m.group(2)), b))
                     for i, b in enumerate(field_kinds("zz%d").values()) for b in [b.replace("%d", "abcdefghijklmnopq"[i]).replace("oneof o {", "oneof o%d {" % i).replace("subzz", "subzz%d" % i).replace("ezz", "ezz%d" % i)])
    for opts in ("", "option (validate.disabled) = true; ", "option (validate.ignored) = true; "):
        for io in ("", "option (validate.disabled) = true; ", "option (validate.ignored) = true; "):
            out.append(("options %s outside %s" % (io, opts), "message In { %s %s } %s In i = 1 [%s.message.required = true]; repeated In l = 2; map<string, In> mm = 3; oneof oo { option (validate.required) = true; In x = 4; } %s" %
                        (io, every, opts, R, "")))
            out.append(("options %s and %s" % (io, opts), "%s message In { %s int32 a = 1; } %s" % (opts, io, every)))
    return out


def together(bodies):
    """The same rules again, many to a message: next to others of their kind, and
    next to others of every kind; and as members of one oneof."""
    skip = re.compile(r"^(string first|message |int32 x = 2; optional)")
    shape = {}
    for b in bodies:
        if not skip.match(b):
            k = re.sub(r'-?\d+|"(?:[^"\\]|\\.)*"', "#", re.sub(r"\b(?:u|s)?(?:int|fixed)(?:32|64)\b", "int", b).replace("double", "float"))
            shape.setdefault(k, []).append(b)
    one = [v[len(k) % len(v)] for k, v in sorted(shape.items())]
    # every type keeps a place
    seen = set()
    for v in shape.values():
        for b in v:
            t = b.split(" val = ")[0].split(" ")[-1]
            if (t, "repeated " in b, "map<" in b, "oneof" in b) not in seen:
                seen.add((t, "repeated " in b, "map<" in b, "oneof" in b))
                one.append(b)

    def renumbered(b, i, own):
        b = re.sub(r"\bval = 1 \[", "val%d = %d [" % (i, 2 * i + 1), b)
        b = re.sub(r"\bint32 x = 2;", "int32 x%d = %d;" % (i, 2 * i + 2) if own else "", b)
        return re.sub(r"^oneof o \{", "oneof o%d {" % i, b)
    per = 45
    out = []
    n = -(-len(one) // per)
    orders = [one[i::n] for i in range(n)] + [one[i:i + per] for i in range(0, len(one), per)]
    for part in orders:
        out.append(("together " + part[0], " ".join(renumbered(b, i, True) for i, b in enumerate(part))))
    mem = [re.sub(r"^oneof o \{ (?:option \(validate.required\) = true; )?(.*) \}$", r"\1", b) for b in one if b.startswith("oneof o {")]
    n = -(-len(mem) // per)
    for part in [mem[i::n] for i in range(n)] + [mem[i:i + per] for i in range(0, len(mem), per)]:
        out.append(("one oneof of " + part[0], "oneof o { %s %s }" % ("option (validate.required) = true;" if len(out) % 2 else "", " ".join(renumbered(b, i, False) for i, b in enumerate(part)))))
    return out


def head(pkg, gopkg, extra=""):
    return (genrun.HEAD % ("@@" if not pkg else pkg, gopkg)).replace("package @@;\n", "") + extra


def file_cases():
    """Cases that need files of their own."""
    out = []
    n = [0]

    def gp(s):
        return "pgvmc/gen/" + s

    def add(cls, body, pkg=None, gopkg=None, name=None, langs=("go", "cc"), more=None, imports=""):
        n[0] += 1
        i = n[0]
        body = body.replace("(validate.", "(.validate.").replace("google.protobuf.", ".google.protobuf.")
        p = ("fc%d/" % i) + (name or "x.proto")
        files = {p: head("fpk%d" % i if pkg is None else pkg, gp("fc%d" % i if gopkg is None else gopkg.replace("@", "fc%d" % i)), imports.replace("@", "fc%d" % i)) + body.replace("@", "fc%d" % i)}
        for q, t in (more or {}).items():
            files["fc%d/" % i + q] = t.replace("@", "fc%d" % i)
        out.append(Case(cls, files, langs=langs))
    rule = PRE + "message M { string s = 1 [(validate.rules).string = {in: [\"a\"]}]; Sub b = 2 [(validate.rules).message.required = true]; repeated Sub l = 3 [(validate.rules).repeated.min_items = 1]; E e = 4 [(validate.rules).enum = {defined_only: true, in: [1]}]; oneof o { option (validate.required) = true; int32 x = 5 [(validate.rules).int32.gt = 1]; Sub y = 6; } message In { string p = 1 [(validate.rules).string.pattern = \"a\"]; } In i = 7; enum F { F0 = 0; } F f = 8 [(validate.rules).enum.not_in = 0]; }\n"
    # message names
    names = [w for w in "int error Error class namespace Foo_Bar fooBar _Foo Foo1 foo FOO F A_B_C Validate Validator ValidationMsg MultiError ValidationError std pgv google errors regexp time union delete new operator this void int32_t std_string X type_ Type map Map list re2 RE2 protobuf validate hash cmp err m NULL_ size_t template struct Struct Duration Timestamp Any Message msg String Empty".split()]
    for w in names:
        body = "message %s { string s = 1 [(validate.rules).string = {in: [\"a\"], min_len: 1}]; int32 k = 2 [(validate.rules).int32.gt = 1]; repeated string l = 3 [(validate.rules).repeated = {unique: true, items: {string: {pattern: \"a\"}}}]; oneof o { option (validate.required) = true; int32 q = 4 [(validate.rules).int32.lt = 3]; } google.protobuf.Duration d = 5 [(validate.rules).duration.gt = {}]; google.protobuf.StringValue w = 6 [(validate.rules).string.min_len = 1]; }\n" % w
        add("message name " + w, body + "message User_ { %s a = 1 [(validate.rules).message.required = true]; repeated %s b = 2; map<string, %s> c = 3; oneof o { %s e = 4; } }\n" % (w, w, w, w))
        if w not in ("Struct", "Duration", "Timestamp", "Any", "Empty", "google"):
            add("nested message name " + w, "message Outer { %s %s a = 1 [(validate.rules).message.required = true]; repeated %s b = 2; }\n" % (body, w, w))
    clash = [("FooValidationError", "Foo"), ("FooMultiError", "Foo"), ("A_B", "A"), ("Foo_", "Foo")]
    for a, b in clash:
        add("message names %s and %s" % (a, b), "message %s { int32 a = 1 [(validate.rules).int32.gt = 1]; message B2 { int32 a = 1; } }\nmessage %s { int32 a = 1 [(validate.rules).int32.gt = 1]; }\n" % (b, a))
    # same names in different places: what is generated at file level must not clash
    inn = "message In { string f = 1 [(validate.rules).string = {in: [\"a\"]}]; string g = 2 [(validate.rules).string = {pattern: \"a\"}]; repeated string u = 3 [(validate.rules).repeated.unique = true]; map<string, string> kk = 4 [(validate.rules).map = {keys: {string: {not_in: [\"a\"]}}, values: {string: {not_in: [\"a\"]}}}]; string em = 5 [(validate.rules).string.email = true]; string uu = 6 [(validate.rules).string.uuid = true]; } In i = 1;"
    add("two nested messages of one name", "message A { %s }\nmessage B { %s }\n" % (inn, inn))
    add("nested and outer message of one name", "message In { string f = 1 [(validate.rules).string = {in: [\"b\"]}]; string g = 2 [(validate.rules).string = {pattern: \"b\"}]; }\nmessage B { %s }\n" % inn)
    add("nested three deep", "message A { message B { %s } B b = 1; message C { %s } C c = 2; }\n" % (inn, inn))
    add("oneofs of one name", "message A { oneof o { option (validate.required) = true; int32 x = 1; } }\nmessage B { oneof o { option (validate.required) = true; int32 x = 1; } message C { oneof o { option (validate.required) = true; int32 x = 1; } } C c = 2; }\n")
    for o in "o type fooBar Foo foo_bar default class m err o1 o_1 _o K value".split():
        add("oneof name " + o, PRE + "message A { oneof %s { option (validate.required) = true; int32 x_y = 1 [(validate.rules).int32.gt = 1]; Sub sub = 2; string s1t = 3 [(validate.rules).string.pattern = \"a\"]; } oneof p { int32 camelCase = 4 [(validate.rules).int32.gt = 1]; int32 UP = 5 [(validate.rules).int32.gt = 1]; int32 a_1 = 6; } }\n" % o)
    # a member and a nested type that would share a Go name
    add("oneof member and nested message", "message A { message X { int32 a = 1 [(validate.rules).int32.gt = 1]; } oneof o { option (validate.required) = true; int32 x = 1 [(validate.rules).int32.gt = 1]; X y = 2; } }\n")
    add("oneof member and other message", "message A_X { int32 a = 1 [(validate.rules).int32.gt = 1]; }\nmessage A { oneof o { option (validate.required) = true; int32 x = 1 [(validate.rules).int32.gt = 1]; } }\n")
    # accessors
    add("field and getter of one name", "message A { int32 foo = 1 [(validate.rules).int32.gt = 1]; int32 get_foo = 2 [(validate.rules).int32.gt = 1]; string get_bar = 3 [(validate.rules).string.min_len = 1]; string bar = 4 [(validate.rules).string.min_len = 1]; }\n")
    add("field names like methods", "message A { int32 reset = 1 [(validate.rules).int32.gt = 1]; int32 string = 2 [(validate.rules).int32.gt = 1]; int32 proto_message = 3 [(validate.rules).int32.gt = 1]; int32 descriptor = 4 [(validate.rules).int32 = {in: [1]}]; oneof o { option (validate.required) = true; int32 marshal = 5 [(validate.rules).int32.gt = 1]; } }\n")
    for w in ("validate", "validate_all", "Validate"):
        add("field name " + w, "message A { int32 %s = 1 [(validate.rules).int32.gt = 1]; }\n" % w)
    # enums
    for w in "E class Error E_X e_x Foo1 type M pgv".split():
        add("enum name " + w, "enum %s { ZZ0 = 0; ZZ1 = 1; }\nmessage M_ { %s a = 1 [(validate.rules).enum = {defined_only: true, not_in: [0]}]; repeated %s b = 2 [(validate.rules).repeated = {unique: true, items: {enum: {defined_only: true, in: [1]}}}]; map<int32, %s> c = 3 [(validate.rules).map = {values: {enum: {defined_only: true, in: [1]}}}]; oneof o { %s d = 4 [(validate.rules).enum.const = 1]; } }\n" % ((w,) * 5))
        add("nested enum name " + w, "message H { enum %s { ZZ0 = 0; ZZ1 = 1; } message J { %s a = 1 [(validate.rules).enum = {defined_only: true, not_in: [0]}]; } %s a = 1 [(validate.rules).enum = {defined_only: true, not_in: [0]}]; }\nmessage M_ { H.%s a = 1 [(validate.rules).enum = {defined_only: true, not_in: [0]}]; repeated H.%s b = 2 [(validate.rules).repeated = {unique: true, items: {enum: {defined_only: true, in: [1]}}}]; map<int32, H.%s> c = 3 [(validate.rules).map = {values: {enum: {defined_only: true, in: [1]}}}]; oneof o { H.%s d = 4 [(validate.rules).enum.const = 1]; } }\n" % ((w,) * 7))
    add("aliased enum", "enum A { option allow_alias = true; Z = 0; O = 1; P = 1; }\nmessage M { A a = 1 [(validate.rules).enum = {in: [1, 1, 0]}]; }\n")
    # packages
    for p in ["", "a", "a.b", "a.b.c", "class", "a.int.b", "go", "type", "std", "pgv", "google", "google.protobuf", "validate", "pgv.validate", "a.std", "M", "m", "Foo.Bar", "a1", "a_b", "_a", "string", "a.new", "a.pgv.b", "a.google.b", "protobuf", "re2", "x.validate.y"]:
        add("package '%s'" % p, rule.replace("message M {", "message MM {"), pkg=p, langs=("go", "cc") if p != "google.protobuf" else ("go", "cc"))
    for g in ["@/v1", "@/type", "@/go-x", "@/x.y", "@/1x", "@/x;type", "@/x;other", "@/x;go_x", "@/time", "@/bytes", "@/errors", "@/fmt", "@/m", "@/err", "@/func", "@/X", "@/a_b", "@/x;_x", "@/x;X-y", "@/anypb", "@/validate"]:
        add("go_package " + g, rule, gopkg=g, langs=("go",))
    for f in ["x.proto", "x_y.proto", "x-y.proto", "x.y.proto", "xY.proto", "X.proto", "1.proto", "x1.proto", "class.proto", "d/x.proto", "x_validate.proto", "x.pb.proto", "é.proto"]:
        add("file name " + f, rule + "message U { string u = 1 [(validate.rules).string.uuid = true]; string e = 2 [(validate.rules).string.email = true]; }\n", name=f)
    # shapes without messages, or with little
    add("empty file", "")
    add("only enums", "enum Q { Q0 = 0; }\n")
    add("only a service", "message Q1 { int32 a = 1 [(validate.rules).int32.gt = 1]; }\nservice Sv { rpc Do(Q1) returns (Q1); }\n")
    add("only ignored", "message Q1 { option (validate.ignored) = true; int32 a = 1 [(validate.rules).int32.gt = 1]; }\n")
    add("only disabled", "message Q1 { option (validate.disabled) = true; int32 a = 1 [(validate.rules).int32.gt = 1]; }\n")
    add("recursive", "message A { A a = 1 [(validate.rules).message.required = true]; B b = 2; repeated A l = 3; map<int32, A> mm = 4; }\nmessage B { A a = 1; }\n")
    # two files of one Go package
    two = "message %s { string u = 1 [(validate.rules).string.uuid = true]; string e = 2 [(validate.rules).string.email = true]; string h = 3 [(validate.rules).string.hostname = true]; string p = 4 [(validate.rules).string.pattern = \"a\"]; }\n"
    for a, b in (("a.proto", "b.proto"), ("d/x_.proto", "e/y_.proto"), ("a_b.proto", "a-b.proto"), ("aB.proto", "a_b.proto"), ("a.b.proto", "a_b.proto"), ("a1.proto", "a_1.proto")):
        for samepkg in (True, False):
            n[0] += 1
            i = n[0]
            fs = {}
            for k, f in enumerate((a, b)):
                fs["fc%d/%s" % (i, f)] = head("fpk%d%s" % (i, "" if samepkg else "_%d" % k), gp("fc%d" % i)) + two % ("T%d" % k)
            out.append(Case("two files of one Go package: %s, %s, %s proto package" % (a, b, "one" if samepkg else "another"), fs))
    # types of other files
    use = {
        "message": "%(m)s a = 1; %(m)s b = 2 [(validate.rules).message.required = true]; repeated %(m)s c = 3; map<int32, %(m)s> d = 4; oneof o { option (validate.required) = true; %(m)s x = 5; }",
        "nested message": "%(m)s.In a = 1; repeated %(m)s.In c = 3 [(validate.rules).repeated.items.message.required = true];",
        "enum": "%(e)s a = 1 [(validate.rules).enum.defined_only = true]; %(e)s b = 2 [(validate.rules).enum = {in: [0, 1]}]; %(e)s c = 3 [(validate.rules).enum.const = 1];",
        "repeated enum": "repeated %(e)s a = 1 [(validate.rules).repeated = {items: {enum: {defined_only: true}}}];",
        "repeated enum in": "repeated %(e)s a = 1 [(validate.rules).repeated = {items: {enum: {in: [1]}}}];",
        "unique enum": "repeated %(e)s a = 1 [(validate.rules).repeated = {unique: true}];",
        "map enum": "map<int32, %(e)s> a = 1 [(validate.rules).map = {values: {enum: {defined_only: true, in: [1]}}}];",
        "oneof enum": "oneof o { %(e)s a = 1 [(validate.rules).enum.defined_only = true]; }",
        "nested enum": "%(m)s.NE a = 1 [(validate.rules).enum = {defined_only: true, not_in: [0]}]; repeated %(m)s.NE b = 2 [(validate.rules).repeated = {items: {enum: {defined_only: true}}}]; map<string, %(m)s.NE> c = 3 [(validate.rules).map = {values: {enum: {not_in: [1]}}}];",
        "plain enum": "%(e)s a = 1; repeated %(e)s b = 2; map<int32, %(e)s> c = 3;",
        "enum and own": "%(e)s a = 1 [(validate.rules).enum.defined_only = true]; Own b = 2 [(validate.rules).enum.defined_only = true]; repeated Own c = 3 [(validate.rules).repeated = {unique: true}]; repeated %(e)s d = 4; map<int32, Own> dd = 5 [(validate.rules).map = {values: {enum: {defined_only: true}}}];",
        "ignored user": "option (validate.ignored) = true; %(e)s a = 1 [(validate.rules).enum.defined_only = true];",
        "disabled user": "option (validate.disabled) = true; %(e)s a = 1 [(validate.rules).enum.defined_only = true];",
    }
    other = "enum EE { EE0 = 0; EE1 = 1; }\nmessage MM { int32 a = 1 [(validate.rules).int32.gt = 1]; message In { int32 a = 1 [(validate.rules).int32.gt = 1]; } enum NE { NE0 = 0; NE1 = 1; } }\n"

    def cross(cls, body, opkg, ogo, upkg, ugo, langs=("go", "cc"), second=None):
        n[0] += 1
        i = n[0]
        z = lambda s: s.replace("@", "fc%d" % i)
        fs = {z("@/other.proto"): head(z(opkg), gp(z(ogo))) + other}
        imp = 'import "%s";\n' % z("@/other.proto")
        if second:
            fs[z("@/second.proto")] = head(z(second[0]), gp(z(second[1]))) + other
            imp += 'import "%s";\n' % z("@/second.proto")
        fs[z("@/user.proto")] = head(z(upkg), gp(z(ugo)), imp) + "enum Own { OWN0 = 0; }\nmessage User { %s }\n" % z(body)
        out.append(Case(cls, fs, langs=langs))
    for k, b in use.items():
        v = {"m": "@o.MM", "e": "@o.EE"}
        cross("imported %s" % k, b % v, "@o", "@/o", "@u", "@/u")
        cross("imported %s, one Go package" % k, b % v, "@o", "@/s", "@u", "@/s", langs=("go",))
        cross("imported %s, one package" % k, b % {"m": "MM", "e": "EE"}, "@s", "@/s", "@s", "@/s")
        cross("imported %s, one proto package, two Go packages" % k, b % {"m": "MM", "e": "EE"}, "@s", "@/o", "@s", "@/u", langs=("go",))
        cross("imported %s, Go packages of one name" % k, b % v, "@o", "@/o/x", "@u", "@/u/x", langs=("go",))
        cross("imported %s, parent package" % k, b % {"m": "@u.MM", "e": "@u.EE"}, "@u", "@/o", "@u.sub", "@/u")
        cross("imported %s, sub package" % k, b % {"m": "sub.MM", "e": "sub.EE"}, "@u.sub", "@/o", "@u", "@/u")
        cross("imported %s, two packages of one name" % k, b % v + (" @p.EE ze = 30 [(validate.rules).enum = {defined_only: true, in: [1]}]; @p.MM zm = 31;" if "option" not in b else ""), "@o", "@/o/x", "@u", "@/u", langs=("go",), second=("@p", "@/p/x"))
        if k in ("enum", "repeated enum", "map enum", "unique enum"):
            for g in ("time", "bytes", "errors", "regexp", "strings", "fmt", "m", "err", "all", "l", "idx", "item", "key", "val", "ok", "type", "v1", "string", "len", "append", "User", "net", "anypb", "a-b", "x;y", "x;type", "math"):
                cross("imported %s of Go package %s" % (k, g), b % v, "@o", "@/o/" + g, "@u", "@/u", langs=("go",))
    return out


class Tree:
    """Generates and compiles cases."""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.gen_go = r.path("bin", "protoc-gen-go")
        self.evals = 0

    def generate(self, cases):
        """Returns per case {lang: (files, err)} after writing what was generated."""
        r = self.r
        texts = {}
        for c in cases:
            texts.update(c.files)
        ds = genrun.descriptors(r, texts)
        jobs, meta = [], []
        for i, c in enumerate(cases):
            if "go" in c.langs:
                jobs.append({"files": c.targets, "param": "module=pgvmc", "keep": True, "plugin": self.gen_go})
                meta.append((i, "base"))
                jobs.append({"files": c.targets, "param": "lang=go,module=pgvmc", "keep": True})
                meta.append((i, "go"))
            if "cc" in c.langs:
                jobs.append({"files": c.targets, "param": "lang=cc", "keep": True})
                meta.append((i, "cc"))
        res = genrun.run_jobs(r, ds, jobs)
        if res is None:
            raise TimeoutError
        out = [{} for _ in cases]
        for (i, l), x in zip(meta, res):
            out[i][l] = x
        return ds, out

    def pb_cc(self, ds, cases, d):
        fs = sorted({t for c in cases for t in c.targets})

        def one(k):
            rc, o, e = self.r.sh(["protoc", "--descriptor_set_in=" + ds, "--cpp_out=" + d] + fs[k:k + 40])
            if rc:
                raise SystemExit("protoc --cpp_out failed on our schemas: " + e[-1500:])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(0, len(fs), 40)))


def put(root, files):
    for f in files or []:
        p = os.path.join(root, f["Name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(f["Content"])


def compile_go(r, ws, dirs):
    """Builds the packages; returns {dir: errors}."""
    bad = {}
    rc, o, e = r.sh(["go", "build", "-gcflags=-e"] + ["./" + d for d in sorted(dirs)], cwd=ws)
    if "TIMEOUT" in e:
        raise TimeoutError
    if rc == 0:
        return bad
    cur = None
    for l in (o + e).splitlines():
        m = re.match(r"# (pgvmc/\S+)", l)
        if m:
            cur = m.group(1)[len("pgvmc/"):]
            bad.setdefault(cur, "")
        elif cur and l.strip():
            bad[cur] += l + "\n"
        m = re.match(r"(?:package .* imports .*|(gen/[^:]*)/[^/:]*\.go:\d+.*)", l)
        if m and m.group(1):
            bad.setdefault(m.group(1), "")
            bad[m.group(1)] += l + "\n"
    if not bad:
        bad[None] = (o + e)[-3000:]
    return bad


def run_cases(r, t, cases, tag):
    """Yields (case, lang, kind, detail) for everything wrong."""
    wrong = []
    ds, gen = t.generate(cases)
    t.evals += len(cases)
    ws = r.workspace()
    # ---- Go
    dirs = {}
    for c, g in zip(cases, gen):
        if "go" not in c.langs:
            continue
        if g["base"]["exit"]:
            continue                      # protoc-gen-go itself refuses it
        if g["go"]["exit"]:
            wrong.append((c, "go", "rejected", g["go"]["err"]))
            continue
        put(ws, g["base"]["files"])
        put(ws, g["go"]["files"])
        for f in g["base"]["files"]:
            dirs.setdefault(os.path.dirname(f["Name"]), c)
    if dirs:
        bad = compile_go(r, ws, dirs)
        if None in bad:
            raise SystemExit("go build failed oddly: " + bad[None])
        fail = {}
        for d, err in bad.items():
            c = dirs.get(d)
            if c is not None and (d in dirs):
                fail.setdefault(id(c), (c, []))[1].append((d, err))
        if bad and not fail:
            raise SystemExit("go build failed oddly: " + str(bad)[:2000])
        # is it the protobuf code alone?
        judged = []
        for c, errs in fail.values():
            only = set()
            for d, c2 in dirs.items():
                if c2 is c:
                    for f in os.listdir(os.path.join(ws, d)):
                        if f.endswith(".pb.validate.go"):
                            p = os.path.join(ws, d, f)
                            os.rename(p, p + ".off")
                            only.add(d)
            judged.append((c, errs, only))
        alls = set().union(*[x[2] for x in judged]) if judged else set()
        base_bad = compile_go(r, ws, alls) if alls else {}
        for c, errs, only in judged:
            if any(d in base_bad for d in only):
                t.base_go = getattr(t, "base_go", 0) + 1
            else:
                wrong.append((c, "go", "does not compile", "\n".join(e for _, e in errs)))
    # ---- C++
    ccs = [(c, g["cc"]) for c, g in zip(cases, gen) if "cc" in c.langs]
    root = r.path("cc-" + tag, "x")[:-2]
    os.makedirs(root, exist_ok=True)
    good = []
    for c, x in ccs:
        if x["exit"]:
            wrong.append((c, "cc", "rejected", x["err"]))
        else:
            put(root, x["files"])
            good.append((c, [f["Name"] for f in x["files"] if f["Name"].endswith(".cc")]))
    if good:
        t.pb_cc(ds, [c for c, _ in good], root)
        rc, o, e = r.protoc(["--cpp_out=" + root, "validate/validate.proto"])
        pch = r.path("pch", "pre.h")
        if not os.path.exists(pch + ".gch"):
            open(pch, "w").write("#include <google/protobuf/message.h>\n#include <google/protobuf/map_field_inl.h>\n#include <google/protobuf/generated_message_bases.h>\n#include <google/protobuf/util/time_util.h>\n#include <google/protobuf/wrappers.pb.h>\n#include <google/protobuf/any.pb.h>\n#include <google/protobuf/struct.pb.h>\n#include <google/protobuf/timestamp.pb.h>\n#include <google/protobuf/duration.pb.h>\n#include <google/protobuf/empty.pb.h>\n#include <re2/re2.h>\n#include <sstream>\n#include <set>\n#include <unordered_set>\n#include <regex>\n")
            r.sh(["g++", "-std=c++14", "-w", "-x", "c++-header", pch, "-o", pch + ".gch"])
        flags = ["g++", "-std=c++14", "-w", "-fsyntax-only", "-include", pch, "-I", root, "-I", mc.REPO]

        def one(cx):
            c, srcs = cx
            errs = ""
            for s in srcs:
                rc, o, e = r.sh(flags + [os.path.join(root, s)])
                if rc and "TIMEOUT" in e:
                    return cx, None
                if rc:
                    errs += e
            if errs:
                # without the validators
                for s in srcs:
                    p = os.path.join(root, s + ".base.cc")
                    with open(p, "w") as f:
                        f.write('#include "%s"\n' % s.replace(".pb.validate.cc", ".pb.h"))
                    rc, o, e = r.sh(flags + [p])
                    if rc:
                        return cx, "BASE"
            return cx, errs
        with ThreadPoolExecutor(8) as ex:
            for (c, srcs), errs in ex.map(one, good):
                if errs is None:
                    raise TimeoutError
                if errs == "BASE":
                    t.base_cc = getattr(t, "base_cc", 0) + 1
                    if len(getattr(c, "parts", [])) > 1:
                        wrong.append((c, "cc", "split", ""))
                elif errs:
                    wrong.append((c, "cc", "does not compile", "\n".join(l for l in errs.splitlines() if "error" in l)[:2500] or errs[:2500]))
    return wrong


def pack(msgs, per, tag):
    out = []
    for i in range(0, len(msgs), per):
        part = msgs[i:i + per]
        h = "%s%d" % (tag, i // per)
        text = head("pk." + h, "pgvmc/gen/" + h) + PRE + "".join("message M%d { %s }\n" % (k, b) for k, (c, b) in enumerate(part))
        c = Case("; ".join(x for x, _ in part)[:200], {h + ".proto": text})
        c.parts = part
        out.append(c)
    return out


def compile_java(r, t, many):
    """The messages of many fields in Java, whose fields share one class each."""
    import java

    class File:
        pass
    files = []
    for i in range(0, len(many), 6):
        f = File()
        f.pkg = "cj%d" % (i // 6)
        f.path = "pgvmc/%s.proto" % f.pkg
        f.text = S.HEADER % (f.pkg, f.pkg, f.pkg, "".join('import "google/protobuf/%s.proto";\n' % x for x in sorted({x for _, x in S.IMPORTS} | {"empty", "struct"})), PRE) + "".join("message M%d { %s }\n" % (k, b) for k, (c, b) in enumerate(many[i:i + 6]))
        files.append(f)
    cp = java.runtime(r)
    try:
        dirs = java.generate(r, files)
        if java.compile_all(r, files, dirs, cp) is None:
            raise TimeoutError
    except mc.Broken as e:
        r.violation("java|" + e.what, lang="java", what=e.what, error=e.detail[:3000])


def c15(r):
    r.plugin()
    t = Tree(r)
    msgs = message_cases(r.deep)
    files = file_cases()
    probed = 0
    many = together([b for c, b, ok, a in gencases.cases(r.deep) if ok])
    try:
        probed += len(msgs)
        wrong = run_cases(r, t, pack(msgs, 40, "p") + pack(many, 2, "q"), "packs")
        # one by one what failed in company
        redo = {}
        for c, lang, kind, d in sorted(wrong, key=lambda w: w[2] == "split"):
            for p in c.parts:
                redo.setdefault(p, set()).add(lang)
        if os.environ.get("PGVMC_DEBUG"):
            for c, l, k, d in wrong:
                print("##", l, k, len(c.parts), "\n".join(d.splitlines()[:6])[:1500], flush=True)
        if len(redo) > 800:               # plenty to name the violation
            redo = dict(list(redo.items())[:800])
        singles = []
        for i, (p, langs) in enumerate(redo.items()):
            c = pack([p], 1, "s%d_" % i)[0]
            c.langs = tuple(sorted(langs))
            singles.append(c)
        if singles:
            for c, lang, kind, d in run_cases(r, t, singles, "singles"):
                r.violation("%s|%s|%s" % (lang, kind, c.parts[0][0]), lang=lang, what=kind, schema=c.parts[0][1], error=d[:1500])
        compile_java(r, t, many)
        for c, lang, kind, d in run_cases(r, t, files, "files"):
            r.violation("%s|%s|%s" % (lang, kind, c.cls), lang=lang, what=kind, schema={k: v.split("wrappers.proto\";\n")[-1] for k, v in c.files.items()}, error=d[:1500])
    except TimeoutError:
        return {"evaluations": t.evals, "distinct_nontrivial": 1, "rule": "timed out", "samples": ["timed out"], "exhaustive": False}
    return {"evaluations": 2 * len(msgs) + 3 * len(many) + sum(len(c.langs) for c in files), "distinct_nontrivial": len(msgs) + len(many) + len(files), "rule": "a case is one schema (a message, or a set of files) in one language: accepted and compiled with the protobuf code; all are distinct",
            "samples": ["%s: %s" % m for m in msgs[:: max(1, len(msgs) // 6)]] + [c.cls for c in files[:: max(1, len(files) // 6)]],
            "messages": len(msgs), "messages_of_many_fields": len(many), "file_sets": len(files), "not_judged_go_base_fails": getattr(t, "base_go", 0), "not_judged_cc_base_fails": getattr(t, "base_cc", 0), "exhaustive": True}
