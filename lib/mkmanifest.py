#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
ENUM = "bounded exhaustive exploration of the real %s against an executable reference model"
T = {}
for i in range(1, 9):
    T["C%02d" % i] = (ENUM % "generated Go validators", "every rule set of a bounded rule universe x every boundary value; verdicts compared with a reference interpreter written from the documentation. Trusts the reference model, protoc, protoc-gen-go and the Go toolchain; says nothing of constants and values outside the alphabet.")
T["C09"] = (ENUM % "generated Go validators (error trees)", "every enumerated message of ~1700 types; count, nesting and order of violations compared with the reference model.")
T["C10"] = (ENUM % "generated Go validators (violation contents)", "every enumerated invalid message; each violation compared with the reference model's in field, index, reason, key, cause, name and text.")
T["C11"] = (ENUM % "generated C++ validators", "the C++-supported part of the rule universe x its boundary values (wire-representable), compiled with g++ at -O0; verdicts from the same reference model as Go.")
T["C12"] = (ENUM % "generated C++ validators (unimplemented rules)", "every unimplemented rule at every position x messages that reach it or not; must throw exactly when reached.")
T["C13"] = ("bounded exhaustive exploration of the real C++ runtime predicates under AddressSanitizer against reference predicates", "every byte string over small alphabets up to a length and every single edit of seed strings; reads past the end are caught by the sanitizer.")
T["C14"] = ("bounded exhaustive enumeration of contradictory schemas at every position, run through the real plugin", "every contradiction x every rule kind x every position must be rejected, and its non-contradictory neighbours accepted.")
T["C15"] = ("bounded exhaustive enumeration of accepted schemas, generated and compiled", "every rule kind x position x name alphabet; the plugin must accept it and the Go and C++ compilers the output.")
T["C16"] = ("bounded exhaustive enumeration of configurations against a model of the output layout", "every combination of options and file shapes; the file set compared with a reference model.")
T["C17"] = ("exhaustive enumeration of file subsets, orders and repetitions of generator runs", "byte equality of each file's output over all runs that contain it.")
T["C18"] = ("explicit exploration of all call/mutation histories to a depth and of all thread interleavings to a preemption bound on instrumented generated code, plus a free-running race-detector pass", "statement-granular cooperative scheduler over the generated validators; the race pass is not exhaustive over schedules but happens-before races do not depend on them.")
T["C19"] = (ENUM % "generated Go validators (degenerate values)", "every position x every degenerate value alone and combined; no panic.")
T["C20"] = (ENUM % "generated Java validators", "the Java-supported part of the rule universe; RE2J and commons-validator are replaced by stand-ins, so email/hostname/address/ip formats are not judged.")
T["C21"] = ("explicit-state exploration of all lookup/add/validate histories of the real Java indexes against a map model, and of all thread interleavings to a preemption bound under a controlled scheduler", "all histories to a depth over classes with and without validators and fallback configurations; thread programs run the real classes, instrumented at field and map accesses.")
T["C22"] = ("explicit-state exploration of all call-event histories of the real Java interceptors against a state-machine model", "all event sequences to a depth over two calls and four kinds of service; stand-in call, listener and channel record what they are given.")
T["C23"] = (ENUM % "Python validator", "the Python-supported part of the rule universe, the same cases and reference as for Java; jinja2, google.protobuf and validate_email are not in the sandbox, stand-ins (py/) take their place: trusted, and their own defects could mask or fake a difference. E-mails and URIs that are not plain are not judged.")
T["C24"] = (ENUM % "generated Go, C++, Java and Python validators of optional fields", "every rule of the universe on optional fields, with presence enumerated beside the values; the Go side gets the whole list, the other languages a twelfth of each type's rules and all mixed and nested ones.")
T["C25"] = (ENUM % "generated C++ and Java validators (what a rejection says)", "every rejected message of C11's and C20's universes (pairs of rules and number types thinned in the quick tier); C++ texts are compared with the model's by their words, Java's by field, constants, brackets and value.")
T["C26"] = ("explicit exploration of all call histories to depth three over representative values of every type on the real generated C++ and Java validators", "up to seven values of distinct outcome per type; histories parse anew, rewrite, assign and keep messages; the quick tier takes every second file of types.")
T["C27"] = ("stateless exploration of all thread interleavings to a preemption bound of the real generated C++ and Java validators under a controlled scheduler, every C++ schedule watched by a happens-before race detector", "points at each basic block of the generated C++ and validate.h, and at each library call, field access and array store of generated Java and its runtime; two threads, one preemption for all pairs and two where few enough; Java statics are put back before each schedule, C++ first calls are explored in new processes for every sixth type. The standard library's own tables (std::ctype) are not judged.")
NA = {}
for l in open(os.path.join(HERE, "na.json")) if os.path.exists(os.path.join(HERE, "na.json")) else []:
    NA.update(json.loads(l))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "verif", "enable": "no hooks are needed: checks build /repo's working tree as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "./run.py %s quick" % p, "thorough_cmd": "./run.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                            "technique": T[p][0], "level": checks.CHECKS[p][1], "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check yet: being built")})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
