#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property statements)."""
import json, os
import glob
P = []
def expand(f):
    f = f.replace("pgv/", "pgv/")
    if not f.endswith("/"): return [f]
    return [os.path.relpath(x, "/repo") for x in sorted(glob.glob("/repo/" + f + "*.go") + glob.glob("/repo/" + f + "*.java"))]
def p(id, title, statement, over, quant, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": "what the property depends on between calls"}]
    a["files"] = sorted({g for f in files for g in expand(f)})
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

SH = "templates/goshared/"
p("C01", "Go: numeric rules decide exactly the documented sets",
  "For every one of the twelve numeric field types and every accepted combination of const, lt/lte/gt/gte (including an upper bound below the lower bound, which means outside the interval), in, not_in and ignore_empty, the generated Go Validate and ValidateAll return nil for a value exactly when the value satisfies every rule. ignore_empty exempts exactly the value zero, and the verdict is exact at the type's extremes and next to every bound.",
  ["programs", "inputs"], "every rule combination over a small set of bounds x every boundary value of the type",
  "the existing cases sample a few values per rule on a few types; swapped comparators, wrong bound literals, wrong interval orientation on an unsampled type or value pass them",
  [SH+"ltgt.go", SH+"num.go", SH+"const.go", SH+"in.go", SH+"register.go", SH+"msg.go"],
  [("range templates", SH+"ltgt.go"), ("literal rendering", SH+"register.go lit"), ("in/not_in lookup tables", SH+"msg.go")],
  "return values of generated Validate()/ValidateAll()")
p("C02", "Go: string length, affix, set and pattern rules",
  "For every accepted combination of const, len/min_len/max_len (counted in Unicode code points), len_bytes/min_bytes/max_bytes (counted in UTF-8 bytes), prefix, suffix, contains, not_contains, in, not_in, pattern and ignore_empty, the generated Go validators accept a string exactly when it satisfies all of them. ignore_empty exempts exactly the empty string.",
  ["programs", "inputs"], "every rule combination over small constants x every string up to a length over an alphabet of 1-, 2-, 3- and 4-byte characters, plus near misses of the constants",
  "the existing cases try two or three ASCII strings per rule, one rule at a time",
  [SH+"string.go", SH+"const.go", SH+"in.go", SH+"register.go", SH+"msg.go"],
  [("string template", SH+"string.go"), ("literal quoting", SH+"register.go lit"), ("pattern variable", SH+"msg.go")],
  "return values of generated Validate()/ValidateAll()")
p("C03", "Go: well-known string formats",
  "A string field ruled email, hostname, address, ip, ipv4, ipv6, uri, uri_ref, uuid or by a well-known HTTP header regex (strict or not) is accepted by the generated Go validators exactly when it is in the documented language of that format: RFC 1034 host names (at most 253 bytes, labels of 1-63 ASCII alphanumerics or inner hyphens, an optional trailing dot), RFC 5322 addresses whose local part has at most 64 bytes, total at most 254 and whose domain is a host name, RFC 7230 header names and values, 8-4-4-4-12 hex UUIDs. Formats do not influence one another.",
  ["inputs"], "every string up to a small length over each format's critical alphabet, every single edit of valid specimens, and all length boundaries",
  "the existing cases check a handful of strings per format",
  [SH+"string.go", SH+"known.go", "module/checker.go", "templates/shared/well_known.go"],
  [("hostname/email/uuid helpers", SH+"known.go"), ("header regexes", "module/checker.go checkWellKnownRegex"), ("which helpers are emitted", "templates/shared/well_known.go")],
  "return values of generated Validate()/ValidateAll()")
p("C04", "Go: bytes, bool and enum rules",
  "For every accepted combination of bytes rules (const, len/min_len/max_len, prefix, suffix, contains, in, not_in, pattern, ip/ipv4/ipv6 where ipv4 needs 4 bytes and ip 4 or 16, ignore_empty), bool const, and enum rules (const, in, not_in, defined_only, with aliases, negative and external enums), the generated Go validators accept a value exactly when it satisfies all of them.",
  ["programs", "inputs"], "every rule combination over small constants x every byte string up to a length over a critical alphabet, both booleans, every declared and several undeclared enum numbers",
  "the existing cases sample a few values",
  [SH+"bytes.go", SH+"enum.go", SH+"const.go", SH+"in.go", SH+"register.go"],
  [("bytes template", SH+"bytes.go"), ("enum template", SH+"enum.go")],
  "return values of generated Validate()/ValidateAll()")
p("C05", "Go: repeated and map rules",
  "For every accepted combination of min_items/max_items/unique/items/ignore_empty and of min_pairs/max_pairs/no_sparse/keys/values/ignore_empty, the generated Go validators accept a list or map exactly when its size is in bounds, its elements are pairwise distinct if unique, and every item, key and value satisfies its own rules (for every scalar type the rules can be put on, and recursively for messages). ignore_empty exempts exactly the empty list or map.",
  ["programs", "inputs"], "every rule combination over small sizes x every list up to length 3 and every map up to 3 entries over a small element alphabet, including nil elements",
  "the existing cases try a few lists; duplicates at other positions, the last element, unsampled element types are not covered",
  [SH+"repeated.go", SH+"map.go", SH+"msg.go", "templates/shared/context.go"],
  [("repeated template", SH+"repeated.go"), ("map template", SH+"map.go"), ("element rule contexts", "templates/shared/context.go Elem/Key"), ("element lookup tables", SH+"msg.go")],
  "return values of generated Validate()/ValidateAll()")
p("C06", "Go: nested messages, presence, oneofs and opt-outs",
  "A message is valid exactly when its own field rules hold and every set message reachable from it through fields, list elements, map values and the set member of a oneof is valid, at any depth and through recursive types; message.required rejects an unset message, a required oneof rejects no member set, and rules of oneof members apply only to the set member. message.skip cuts the recursion at that field only, a disabled message is always valid, and an ignored message has no validator and counts as valid wherever it is embedded.",
  ["programs", "inputs"], "every combination of presence, validity and opt-out over message graphs up to depth 3",
  "the existing cases have one or two shapes each; combinations of required, skip, disabled and oneof membership are not sampled",
  ["templates/go/message.go", "templates/go/required.go", SH+"msg.go", "templates/shared/context.go", "templates/shared/disabled.go"],
  [("recursion", "templates/go/message.go"), ("oneof switch", SH+"msg.go"), ("disabled/ignored", "templates/shared/disabled.go")],
  "return values of generated Validate()/ValidateAll()")
p("C07", "Go: wrapper types and Any",
  "A scalar rule on a google.protobuf wrapper field applies to the wrapped value exactly when the wrapper is set (an unset wrapper is valid unless message.required is given, a set wrapper holding zero is judged as zero), for all nine wrapper types; Any in/not_in decide on the exact type URL of a set Any and required rejects an unset one.",
  ["programs", "inputs"], "nine wrapper types x rule sets x {unset, every boundary value}; Any rule sets x {unset, every near miss of the URLs}",
  "the existing cases sample four wrapper types with a few values",
  [SH+"wrapper.go", SH+"any.go", "templates/shared/context.go", SH+"register.go"],
  [("unwrap", "templates/shared/context.go Unwrap"), ("wrapper template", SH+"wrapper.go")],
  "return values of generated Validate()/ValidateAll()")
p("C08", "Go: Duration and Timestamp rules",
  "For every accepted combination of required, const, lt/lte/gt/gte (either orientation), in/not_in on durations and of required, const, lt/lte/gt/gte, lt_now, gt_now, within on timestamps, the generated Go validators accept a value exactly when it is unset and not required, or is a well-formed value satisfying every rule to nanosecond precision; malformed values are rejected whenever a comparison rule is present. The now-relative rules are judged against the clock at the moment of the call, lt_now/gt_now are strict, and their within window is inclusive while a bare within window is exclusive.",
  ["programs", "inputs"], "every rule combination over small bounds x every boundary instant (bound, now, now +/- within, each +/- 1 ns), with negative, fractional and malformed values, under a controlled clock",
  "tests cannot hold the clock still, so they can only use values hours away from now",
  [SH+"duration.go", SH+"timestamp.go", "templates/go/duration.go", "templates/go/timestamp.go"],
  [("duration compare", SH+"duration.go"), ("timestamp compare", SH+"timestamp.go"), ("literals", SH+"register.go durLit tsLit")],
  "return values of generated Validate()/ValidateAll()", state="the clock")
p("C09", "Go: ValidateAll reports every violation, Validate the first",
  "ValidateAll returns nil exactly when Validate does; otherwise it returns the complete multiset of violations of the message (one per violated rule per field, item, key or value, with those of an embedded message nested in the cause of one violation on the field that holds it) as a multi-error whose AllErrors lists them, and Validate returns the first of them in field order. Nothing is reported twice, nothing is dropped because something else failed, and the multi-error's text joins the individual texts.",
  ["inputs", "programs"], "every assignment of valid/invalid values over multi-field, multi-rule, repeated, map, oneof and nested messages",
  "the harness compares only the first errors of both methods on messages with mostly one rule",
  [SH+"msg.go", "templates/go/message.go", SH+"string.go", SH+"repeated.go", SH+"map.go"],
  [("error accumulation", SH+"msg.go"), ("nested ValidateAll", "templates/go/message.go")],
  "errors returned by ValidateAll()/AllErrors()/Validate()")
p("C10", "Go: violations name the field, index, rule, cause and message",
  "Every violation returned by generated Go code carries the name of the violated field (with the list index or map key of the violated element in brackets), a reason that states the violated rule with its actual constants, a cause exactly when an embedded message or a sub-check failed, Key() true exactly when a map key itself violated a key rule, and ErrorName naming the message's error type; Error() renders all of these in one line.",
  ["inputs", "programs"], "every violation produced by every rule kind at every position (plain, item, key, value, oneof, wrapped, nested)",
  "no test looks at anything but whether the error is nil and its full text is non-empty",
  [SH+"register.go", SH+"msg.go", "templates/shared/context.go"],
  [("error construction", SH+"register.go errIdxCause"), ("error type", SH+"msg.go")],
  "Field(), Reason(), Cause(), Key(), ErrorName(), Error() of returned errors")
p("C11", "C++: implemented rules decide exactly the documented sets",
  "For every rule documented as implemented in C++ (numeric, string, bytes, bool, enum, repeated including items, map keys and values, message required/skip, oneof, wrapper, Any, Duration, disabled, ignored), generated C++ Validate returns true for a message exactly when it satisfies every rule, and on false writes a non-empty error naming the message's field. This includes values with multi-byte characters and embedded NUL bytes.",
  ["programs", "inputs"], "every rule combination of a bounded universe x its boundary values, the same universe and reference as for Go",
  "the harness samples a few values and a C++ test counts as passed whenever the rule is unimplemented",
  ["templates/cc/", "validate/validate.h"],
  [("C++ templates", "templates/cc/*.go"), ("C++ literals", "templates/cc/register.go lit"), ("validator registry", "validate/validate.h Validator")],
  "return value and message of generated Validate()")
p("C12", "C++: unimplemented rules throw, never accept silently",
  "When a set field carries a rule documented as not implemented in C++ (email, uri, uri_ref, bytes ip/ipv4/ipv6, no_sparse, Timestamp comparisons), generated C++ validation of any message that reaches the rule throws the unimplemented exception; it never reports the message valid. A rule not reached (unset oneof member, empty field under ignore_empty, unset wrapper, skipped or disabled message) has no effect.",
  ["programs", "inputs"], "every unimplemented rule at every position x representative values",
  "the harness treats an unimplemented result as success whatever the value",
  ["templates/cc/string.go", "templates/cc/bytes.go", "templates/cc/timestamp.go", "templates/cc/map.go", "validate/validate.h"],
  [("failUnimplemented", "templates/cc/register.go")],
  "exception or return value of generated Validate()")
p("C13", "C++: runtime string predicates are exact",
  "The C++ runtime's predicates (prefix, suffix, contains, code point count, IPv4, IPv6, any IP, host name) return exactly the documented answer for every byte string: affix tests never read past the end, an embedded NUL byte is an ordinary character, and counts agree with the number of code points of well-formed UTF-8.",
  ["inputs"], "every string (pair) up to a length over critical alphabets, all label and total length boundaries",
  "the harness reaches the predicates with a dozen strings",
  ["validate/validate.h"],
  [("IsPrefix..Utf8Len", "validate/validate.h")],
  "return values of the predicates")
p("C14", "Generator: contradictory or ill-typed rules are rejected",
  "Running the plugin on a schema with contradictory rules (const or in combined with bounds, in with not_in, lt with lte, gt with gte, equal bounds, min above max, len with min/max, affix longer than the maximum, max_len above max_bytes, pattern with in or with a well-known regex, uncompilable pattern, undefined enum values under defined_only, absolute with now-relative time bounds, non-positive within, invalid times), with rules on a field of another type, or with unique/no_sparse/skip/message where they do not apply, fails and writes no validator; this holds for plain fields, items, keys, values, wrapped values and nested messages of every target file. Rules inside a disabled message are not checked.",
  ["programs"], "every pair and selected triples of rules of each rule type over small constants x every field type and position",
  "no test runs the generator on a schema it must reject",
  ["module/checker.go", "module/validate.go"],
  [("rule checks", "module/checker.go"), ("recursion into items, keys, values", "module/checker.go CheckRepeated/CheckMap")],
  "the plugin's response: error or files")
p("C15", "Generator: accepted rules generate code that compiles",
  "The plugin accepts every schema whose rules are not contradictory, and for every schema it accepts the Go and C++ code it generates compiles together with the protobuf-generated code, whatever the names of fields, messages, oneofs, enums and packages, the position of the rule (plain, item, key, value, oneof member, wrapper, nested message) and the constants in it.",
  ["programs"], "every rule kind at every position, plus name and constant alphabets that collide with identifiers the generator introduces",
  "each test schema puts each rule at one or two positions, with plain names",
  [SH, "templates/cc/", "templates/shared/", "module/checker.go"],
  [("lookup/pattern variables", SH+"msg.go"), ("well-known helpers", "templates/shared/well_known.go"), ("identifier mapping", SH+"register.go")],
  "exit status of the plugin and of the compilers")
p("C16", "Generator: which files are written, and where",
  "For each target file and language the plugin writes exactly the documented files at the path the protobuf plugin of that language uses for its own output: one Go file per proto file honouring go_package, M mappings, paths=source_relative and the module prefix; a C++ header and source next to the proto path; for Java one validator class per file, or one per top-level message under java_multiple_files, in the java_package directory under the outer class name. Files not requested produce no output, and a missing or unknown lang parameter is an error.",
  ["configurations", "programs"], "every combination of path options x package/go_package/java_package/java_outer_classname/java_multiple_files shapes x message-less files",
  "the build uses one fixed option set per language",
  ["module/validate.go", "templates/pkg.go", "templates/cc/register.go", "templates/java/register.go"],
  [("output paths", "module/validate.go Execute"), ("Java paths", "templates/java/register.go"), ("C++ paths", "templates/cc/register.go CcFilePath")],
  "file names in the plugin's response")
p("C17", "Generator: output is deterministic and per-file independent",
  "For each language, the content generated for a proto file is a function of that file, its imports and the parameters alone: repeating the run, requesting the files in another order, requesting any superset or subset of files that contains it, or having other files with validation rules in the same run leaves it byte-identical. No run of the generator alters the verdict of another file's rules.",
  ["programs", "configurations", "histories"], "every subset and order of a set of interdependent files, each repeated",
  "the build requests one fixed set once",
  ["module/validate.go", "module/checker.go", "templates/shared/context.go", SH+"register.go"],
  [("target iteration", "module/validate.go Execute"), ("rule mutation by the checker", "module/checker.go checkWellKnownRegex")],
  "content of the plugin's response", state="rules cached on shared descriptors")
p("C18", "Go: validating is pure, repeatable and re-entrant",
  "Calling generated Go Validate or ValidateAll does not modify the message, and the result depends only on the current contents of the message (and the clock where a now-relative rule asks for it): any sequence of calls on any messages, interleaved with mutations, and any interleaving of concurrent calls on shared messages yields for each call what a single call in a fresh process yields. No data race occurs between concurrent validations of one message.",
  ["histories", "schedules"], "every sequence of validate/validateAll/mutate operations up to a depth over a pool of messages; every pairing of concurrent calls",
  "tests validate each message once in a fresh process",
  [SH+"msg.go", SH+"repeated.go", SH+"known.go"],
  [("package-level lookup tables and patterns", SH+"msg.go"), ("uniqueness set", SH+"repeated.go")],
  "results and message contents across call sequences", state="package-level lookup tables, patterns; message fields")
p("C19", "Go: validators are total on nil, unset and unknown input",
  "Generated Go Validate and ValidateAll never panic: not on a nil message, a message with every field unset, nil list elements or map values, a oneof wrapper holding a nil message, unknown enum numbers, invalid UTF-8, NaN and infinities, malformed or extreme Duration and Timestamp values, or fields with unknown data. On a nil message both return nil.",
  ["inputs"], "every field position x every degenerate value, alone and in pairs",
  "the harness unmarshals wire bytes, which can never produce nil elements or typed nils",
  [SH, "templates/go/"],
  [("nil receiver guard", SH+"msg.go"), ("presence guards", "templates/go/*.go, "+SH+"wrapper.go any.go")],
  "absence of panics; return values")
p("C20", "Java: generated validators decide exactly the documented sets",
  "For the rules documented as implemented in Java (numeric, string lengths, affixes, sets, uuid, bytes, bool, enum, repeated, map keys and values, message required/skip, oneof, wrapper, Any, Duration, Timestamp, disabled, ignored), the generated Java validator of a message throws the validation exception exactly when the message violates a rule, naming the violated field.",
  ["programs", "inputs"], "every rule combination of a bounded universe x its boundary values, the same universe and reference as for Go",
  "the stable tests do not run any generated Java",
  ["templates/java/", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/"],
  [("Java templates", "templates/java/*.go"), ("Java runtime", "java/pgv-java-stub/.../*Validation.java")],
  "exception or normal return of assertValid")
p("C21", "Java: validator indexes resolve and cache correctly",
  "A validator index returns, for any history of lookups and registrations from any number of threads, a validator that applies the rules registered for (or generated for) exactly the requested class, including nested message classes; for a class without a validator the verdict is that of the fallback index, and without a fallback every message is valid. A lookup never caches a wrong answer: adding a validator later takes effect, and repeated lookups agree.",
  ["histories", "schedules"], "every sequence of lookup/add/validate operations up to a depth over classes with and without validators and over fallback configurations",
  "the unit tests use each index once with one class",
  ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ValidatorIndex.java"],
  [("reflective lookup and cache", "ReflectiveValidatorIndex.validatorFor"), ("explicit registration", "ExplicitValidatorIndex")],
  "verdict of validatorFor(class).assertValid(message)", state="class to validator caches")
p("C22", "Java gRPC: no invalid message gets through, and the call ends once",
  "With the server interceptor installed, for every sequence of call events an invalid request is never delivered to the service, the call is closed exactly once with INVALID_ARGUMENT carrying the field violation, and after that neither messages nor half-close reach the service while cancellation and completion still do; valid messages pass unchanged and in order. With the client interceptor, an invalid request makes sendMessage throw INVALID_ARGUMENT and is never sent, and valid requests pass unchanged.",
  ["histories"], "every sequence of listener or call events up to a depth, with valid and invalid messages in every position",
  "the unit tests send one message on unary calls",
  ["java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/"],
  [("server listener", "ValidatingServerInterceptor"), ("client call", "ValidatingClientInterceptor"), ("status mapping", "ValidationExceptions")],
  "calls observed by the wrapped handler, call and channel", state="aborted flag of a call")
p("C23", "Python: implemented rules decide exactly the documented sets",
  "For the rules documented as implemented in Python, validating a message raises the validation error exactly when the message violates a rule; repeated validations, in any order of message types, agree.",
  ["programs", "inputs", "histories"], "every rule combination of a bounded universe x its boundary values",
  "the stable tests never run the Python validator",
  ["python/protoc_gen_validate/validator.py"],
  [("code generation from descriptors", "python/protoc_gen_validate/validator.py"), ("generated-function cache", "validator.py validate")],
  "exception or normal return of the validate function", state="cache of generated validators")
p("C24", "Fields declared optional keep their rules, in every language",
  "A proto3 field declared optional is held to its rules exactly when it is set, to its default value or any other, and to none while unset, whatever the type of the field and whatever stands beside it; the plugin accepts such files and what it generates compiles. This holds in Go (Validate and ValidateAll), C++, Java and Python.",
  ["programs", "inputs"], "every rule of a bounded universe on optional fields x presence x boundary values, alone, beside other fields and in nested messages, in four languages",
  "the test schemas have no optional field, and presence with a default value is what a sampled test misses",
  ["templates/shared/disabled.go", "templates/goshared/msg.go", "templates/cc/msg.go", "templates/java/msg.go", "python/protoc_gen_validate/validator.py"],
  [("oneofs and their made-up kin", "templates/shared/disabled.go"), ("presence in C++", "templates/cc/register.go hasAccessor"), ("presence in Java", "templates/java/register.go hasAccessor")],
  "verdicts of the validators of the four languages")
p("C25", "C++ and Java: a rejection says what is wrong and where",
  "When a C++ validator rejects a message, the error text names the message type, the field, the index or key and whether the key is meant, states the violated rule with its constants, and holds the same for the cause inside a nested message. When a Java validator does, the exception names a field that is violated, its reason states the violated rule with its constants (ranges with the right brackets), its value is the value found, and its message is made of the three.",
  ["programs", "inputs"], "every rejected message of the rule universe of C11 and C20",
  "the stable tests compare verdicts only; no test looks at these texts",
  ["templates/cc/", "templates/java/", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/"],
  [("C++ error texts", "templates/cc/register.go errIdxCause"), ("Java reasons", "java/pgv-java-stub/.../*Validation.java"), ("exception", "ValidationException.java")],
  "the text a C++ Validate writes; field, reason, value and message of the Java exception")
p("C26", "C++ and Java: validating is pure and repeatable",
  "What a C++ or Java validator answers about a message, and what it says about it, depends on the value of the message alone: not on what was validated before by the same or another validator object, not on whether the message was parsed, rewritten, assigned or kept, nor on what the error string held before. Validating changes no message.",
  ["programs", "histories"], "every sequence of validations of representative values, over fresh, rewritten, assigned and kept messages",
  "state kept between calls shows only in a particular order of values",
  ["templates/cc/", "templates/java/", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/", "validate/validate.h"],
  [("C++ statics", "templates/cc/msg.go lookups"), ("Java validator fields", "templates/java/*.go constants"), ("runtime helpers", "java/pgv-java-stub/.../*Validation.java")],
  "verdict, text and the message after each call", state="statics and fields of validators")
p("C27", "C++ and Java: validations at the same time do not disturb each other",
  "Two validations made at the same time, of the same message or of two, with one Java validator or with C++ Validate functions, each give the answer and the text they give alone, under every interleaving. C++ Validate makes no access to memory that another validation may write without the two being ordered (no data race), from the first call of the process on.",
  ["programs", "schedules"], "every pair of calls on representative values of a type and every interleaving of them",
  "tests validate in one thread; what two calls share shows only in one interleaving of many",
  ["templates/cc/", "templates/java/", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/", "validate/validate.h"],
  [("C++ registry and statics", "validate/validate.h CheckMessage, validators"), ("Java runtime helpers", "java/pgv-java-stub/.../*Validation.java"), ("generated validators", "templates/cc/msg.go, templates/java/msg.go")],
  "verdict and text of both calls, and accesses to shared memory", state="statics of C++ and Java, fields of validators")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = x["statement"].count(". ") + 1
    if n > 3: print("sentences?", x["id"], n)
print(len(P))
