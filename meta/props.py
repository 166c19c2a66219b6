#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, F, T, B = "wayfinder/src/gen/gen.rs", "wayfinder/src/gen/flat.rs", "wayfinder/src/gen/trie.rs", "wayfinder/src/build/mod.rs"
PM, PE, CM, MA = "wayfinder/src/parse/mod.rs", "wayfinder/src/parse/errors.rs", "wayfinder/src/core/mod.rs", "wayfinder/src/core/macros.rs"
CMD = "wayfinder-cmd/src/main.rs"
GOLD = "The tests compare the generated text with stored text for three small configurations and compile those; they ask no compiled router any request, so nothing is known of other configurations or of any path."
ROUND = "The parser's tests read a handful of fixed snippets, mostly well formed, at a few levels."
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration"):
    if len(title) > 80: print("LONG", len(title), title)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
        _m=dict(technique=technique, note=note, level=level)))

REF = "runtime oracle: generated routers are compiled and driven, each answer compared online with a reference model"
RN = "Held on the configurations and requests this run compiled and asked (counts in the evidence). Trusts rustc, the standard library's parsing and printing of parameter types, and the monitor's own reading of a configuration (spec.rs)."
MATCH = [("matcher generation from the trie of paths", G+" codegen_trie, write_methods, write_dynamic"), ("flattening of nested routes to paths", F+" FlattenedRoutes"), ("trie", T+" Trie::add")]

p("C01", "A request reaches the handler configured for its method and path, no other",
  "For every route configuration, a request whose method and path are those of a configured resource is answered with that resource's handler. A path is a resource's when it has the same number of segments, each literal segment is equal byte for byte, and each parameter segment stands for one whole segment that is a value of the parameter's type; nothing else ever reaches that handler.",
  ["programs", "inputs"], "every route configuration (any nesting, literals sharing prefixes in any way, parameters at any position, any mix of methods) and every request path and method",
  GOLD, [F, T, G], MATCH, ["the value returned by the generated match_route"], REF, RN)
p("C02", "Wrong method gives NotAllowed, unknown path gives NotFound, never swapped",
  "A request for a path that has resources, with a method none of them is configured for, is answered NotAllowed. A request for a path that has no resource (unknown, shorter, longer, or only an intermediate level) is answered NotFound, whatever its method; methods are compared exactly.",
  ["programs", "inputs"], "every route configuration, every path near or far from its paths, every method text",
  GOLD, [G, F, T], MATCH, ["the value returned by the generated match_route"], REF, RN)
p("C03", "Captured parameters are the segment's text in the declared type, by name",
  "When a request reaches a handler, each path parameter field of that handler holds the value obtained by parsing exactly the bytes of the segment at that parameter's position with the declared type's own parser, and each field is the one with the configured name. No segment's text is cut, shifted, joined with a neighbour or given to another parameter, at any depth and next to any siblings.",
  ["programs", "inputs"], "every configuration with any number of parameters of any parseable types and every value text, including non-ASCII and very long text",
  GOLD, [G, F], MATCH + [("capture of a segment", G+" write_dynamic")], ["fields of the handler struct returned by match_route"], REF, RN)
p("C04", "Text outside a parameter's type gives an error naming that parameter",
  "When the segment at a parameter's position is not a value of its declared type, the request is answered with an error, never with a handler, NotFound or a panic. The error names that parameter, and its display and debug texts carry the parser's own error; of several bad segments the leftmost is reported.",
  ["programs", "inputs"], "every configuration with typed parameters and every segment text outside the type",
  GOLD, [G], [("parse failures", G+" write_dynamic, Error in codegen")], ["the Err returned by match_route, its Display and Debug"], REF, RN)
p("C05", "A leading slash and one trailing slash never change the answer",
  "A request path with or without its leading slash, and with or without one trailing slash, is answered in the same way: same handler, same parameters, same error, same NotFound or NotAllowed. This holds for the root as for every other path.",
  ["programs", "inputs"], "every configuration and every path without empty segments, in its four slash variants, for every method",
  GOLD, [G], [("slash handling in the matcher", G+" codegen_trie, codegen")], ["match_route on the variants of a path"], "runtime oracle: metamorphic comparison of compiled routers' answers to slash variants", RN)
p("C06", "A literal segment wins over a parameter; everything else goes to the parameter",
  "Where a position has both literal segments and a parameter, a segment equal to one of the literals is answered by that literal's routes, and every other segment, however similar (a prefix of a literal, an extension of it, differing in the last byte), is answered by the parameter's routes. The choice depends on the whole segment only and is not revised by what follows.",
  ["programs", "inputs"], "every configuration with any set of literals beside a parameter (sharing prefixes in any way) and every segment near one of them",
  GOLD + " One stored configuration has this shape, and its generated text is in fact wrong (finding K1).", [G, T], MATCH + [("literals beside a parameter", G+" codegen_trie, collect_literals")], ["the value returned by match_route"],
  REF, RN + " Findings K1 and K2 (known-findings.txt) are reported and passed over only where the answer is exactly the recorded defect's.")
p("C07", "The generated matcher answers every byte string: no panic, no hang",
  "For every configuration, the generated matcher returns an answer for every path and method given as arbitrary bytes: it does not panic, overflow, read out of bounds, abort or loop. This includes empty, truncated, repeated-slash, very long and non-UTF-8 input.",
  ["programs", "inputs"], "every configuration and every byte string as path and as method",
  GOLD, [G], [("bounds checks before every slice and comparison", G+" codegen_trie")], ["the generated match_route under overflow checks, debug assertions, CPU and memory limits"],
  "runtime monitoring: compiled routers under overflow checks, debug assertions and resource limits, hostile bytes", RN + " The generated code and the library contain no unsafe code, so memory sanitizers have nothing to add. Finding K3 is reported and passed over.")
p("C08", "to_path gives a handler's own path, and matching it gives the same request back",
  "A handler's path text is its configured path with each parameter replaced by its printed value, starting with a slash, with no query part; the handler struct and every Route enum around it give the same text. Matching that text with the handler's method gives back a request equal in handler and path parameters, as long as the printed values are single segments.",
  ["programs", "inputs"], "every configuration, every handler and every parameter value, whether reached by matching or built by hand",
  GOLD, [G], [("to_path of structs and Route enums", G+" codegen_module")], ["to_path of structs and Route enums, then match_route"], REF, RN)
p("C09", "A redirect answers with its target's request, carrying the parameters over",
  "A request for a redirect's method and path is answered as a redirect to the configured target handler, with every path parameter carried over by name whatever its position in the redirect's path, and its query parameters empty. Following it (its path text) leads to the target's own path with those values; ordinary routes are never answered as redirects, nor redirects as ordinary routes.",
  ["programs", "inputs"], "every configuration with redirects before or after, above or below their target, and every request for them",
  GOLD, [G, F], [("redirect arms", G+" write_methods"), ("redirects take no struct of their own", F+" FlattenedModules")], ["Match::Redirect values and their to_path"], REF, RN)
p("C10", "Generated code always compiles and exposes exactly the promised API",
  "For every valid configuration, whatever its parameters and modules are named (Rust keywords and capitalized names included; as long as no handler or module takes a name the generated code itself defines or uses, such as Route, Error, String, Result or std), the generated module compiles, and contains for every handler one public struct with one public field per path parameter (its declared type) and per applicable query parameter (Option of it), nested in public modules named after the handler's modules, with one Route enum per level that has exactly one variant per handler and submodule. The root has the matcher, Match and Error types as documented, comparable, printable and usable across threads as the derived traits promise.",
  ["programs"], "every configuration: any names, module depth, types, queries, redirects and headers",
  GOLD, [G, F], [("module, struct and enum emission", G+" codegen_module, codegen"), ("name cases", G+" to_caps_case, to_snake_case")], ["rustc on the generated module with an application that names everything exhaustively"],
  "runtime oracle: generated code compiled with an exhaustive API-conformance application and run", RN)
p("C11", "Query parameters: a handler has its own and its ancestors', absent on a match",
  "Every handler carries an optional field for each query parameter declared on it, and for each one declared on a route block that encloses it, including the root, and for no other; parameters of siblings and of resources above it do not leak. A match leaves them all empty, and values given to them by a caller are held unchanged and do not affect the handler's path.",
  ["programs", "inputs"], "every placement of query parameters in nested blocks and resources, with any types",
  GOLD, [F, G], [("inheritance of query parameters", F+" FlattenedModules::flatten, FlattenedRoutes::flatten"), ("None on match", G+" write_methods")], ["struct fields after a match and when built by hand"], REF, RN)
TX = "Held on the texts this run generated (counts in the evidence). Trusts the monitor's own printer and tokenizer of the route language (cfg.rs, text.rs)."
p("C12", "Printing a configuration and reading it back gives the same configuration",
  "Every configuration that can be written in the route language, when printed as a route file, is read back without error, completely, and equal to the original: headers, order, nesting, methods, redirects, module paths, parameters and query parameters. The same holds for its parts (a resource, a block of routes, a nested route) at every indentation level.",
  ["inputs"], "every configuration over the language's identifiers, of any width and depth", ROUND + " Printing is tested on single examples, never against reading.",
  [CM, PM], [("printer", CM+" stringify of each type"), ("parser", PM+" route_config and its parts")], ["stringify output, parse::route_config result"], "runtime oracle: round-trip monitor over generated configurations", TX)
p("C13", "A valid route file is read as exactly what it says",
  "Every route file within the documented syntax is accepted completely, and the configuration read has exactly the headers, resources, redirects, parameters and nesting written, in the order written. Blank lines, LF or CRLF line ends, the case of method names and spaces inside brackets and braces make no difference.",
  ["inputs"], "every route file in the language, in every layout the language permits", ROUND, [PM], [("grammar", PM)], ["result of parse::route_config"], "runtime oracle: files written by an independent printer, result compared with what was written", TX)
p("C14", "A malformed route file is refused, never silently misread or partly read",
  "A text that is not a valid route file (wrong indentation, missing pieces, unclosed brackets, unknown verbs, stray text, truncation) is refused as a whole. Whenever a text is accepted, everything written in it is in the configuration, in order and at the level of its indentation, and nothing else is.",
  ["inputs"], "every text, in particular every small damage to a valid file", ROUND, [PM], [("all input must be consumed", PM+" route_config (eof!)"), ("indentation", PM+" indent macros")], ["result of parse::route_config"], "runtime oracle: damaged files, accepted ones re-tokenised and every token accounted for", TX)
p("C15", "Reading any text ends without panic, and error reports tell the truth about it",
  "Reading any text, and showing the errors found in it, ends without panic or hang. Every report quotes a line of the text exactly as it stands, under its own number, with the marker inside that line; a refused file gets at least one report, and for a file with a single fault no report points past the fault, and a foreign line after a complete resource line, or a fault that follows a complete item on its own and every enclosing level, is itself quoted.",
  ["inputs"], "every text, including huge, deeply nested, non-ASCII and unterminated ones", ROUND + " Error display is tested on a few fixed inputs.", [PE, PM], [("position to line", PE+" show_error, what_line"), ("error positions", PE+" show_errors")], ["text written by parse::errors::show_errors"], "runtime monitoring: report text parsed and checked against the input, CPU watchdog, crash supervisor", TX)
p("C16", "Same input, same output: code and reports are identical in every run and thread",
  "Generating code for a configuration gives byte-identical output every time: again in the same process, from a copy, from many threads at once, and in other processes. The same holds for reading a route file and for the error report of a faulty one, whatever was read before or is being read concurrently; a generated matcher used from many threads answers as it does from one.",
  ["programs", "inputs", "schedules", "histories"], "every configuration and text, any number of runs, threads and preceding or concurrent calls", "Each stored configuration is generated once per test run in one thread; hash seeds, threads and the process-wide error message table are not varied.",
  [G, F, PE], [("ordered emission from hash maps", F+" Module::finalize"), ("process-wide message table", PE+" def_error, get_error")], ["codegen output, show_errors output, match_route answers"], "runtime monitoring: repeated, multi-threaded and multi-process executions, logs compared", "Held on the repetitions, threads and processes of this run; thread interleavings are sampled by stress, not enumerated. The library has no unsafe code: data races are excluded by the compiler, so races of interest are logical (the shared message table).")
p("C17", "Mounting puts all of a configuration's routes under the mount point, no others",
  "Mounting one configuration into another at a path segment gives a configuration in which every route of the mounted one, with its parameters, query parameters and redirects, exists under that segment, every route of the base is unchanged, and nothing else exists. Headers of both are kept, in order, each once; mounts can be nested and repeated.",
  ["programs", "inputs", "histories"], "every pair of configurations, every mount point, every sequence of mounts", "One doc example mounts one tiny configuration.", [CM], [("mount", CM+" RouteConfig::mount")], ["the configuration after mount, and the router generated from it"], REF, RN)
p("C18", "Configurations written with the macros equal the same ones in a route file",
  "A resource, parameter or header written with the macros is equal to the one read from the corresponding route file text, for every method, module path, redirect and list of query parameters, and a router generated from either is identical.",
  ["programs"], "every resource, parameter and configuration that can be written both ways", "The macros' doc examples use one fixed resource per method.", [MA, CM], [("macros", MA), ("splitting modules from the name", CM+" Resource::make")], ["values made by macro-using programs compiled against the library"], "runtime oracle: generated macro-using programs compiled and run, values compared with the reference", RN)
p("C19", "A build writes exactly the router or fails loudly; bad input keeps old output",
  "A build that ends successfully has written exactly the code generated for its input to the chosen output, replacing all of what was there, and when run by a build script from a file announces that file, resolved against the manifest directory, once. A build that cannot do so (missing, unreadable or invalid input, missing settings, output that cannot be created or completely written) ends with a failure exit status and a message; an input that is invalid, or contradicts itself so that no code is generated, leaves an existing output file as it was.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "every configuration, every combination of settings, every failing step and every byte count after which writing fails", "The tests never run the builder with faults; the example crates' build scripts exercise only success.", [B, G], [("builder", B+" Builder::build"), ("error propagation of every write", G)], ["exit status, stdout, stderr and output file of a builder process; result of codegen with failing writers"], "runtime monitoring with fault injection: builder processes under failing inputs, outputs and size limits; writers failing at every byte", "Faults enumerated: each listed scenario per configuration, and each write call of the in-process writer. A kill at an arbitrary instant is not claimed: the builder makes no promise there.", "fault_enumeration")
p("C20", "Contradictory configurations are refused, never resolved silently",
  "A configuration that says two different things about the same request (two resources for one method and path, a path segment listed twice on one level, two different parameters at one position), defines the same handler twice, uses one parameter name twice for one handler, or has a redirect whose target does not exist or needs a parameter the redirect does not have, never yields a usable router: generation fails or the generated code does not compile. No such conflict is resolved by silently dropping or preferring one side.",
  ["programs"], "every configuration with one conflict injected at any place", "No test gives a conflicting configuration except one duplicate in the trie's unit test.", [F, T, G], [("unique paths", T+" Trie::add"), ("unique handlers and methods", F), ("redirect arms are compiled against the target", G+" write_methods")], ["codegen result, then rustc on what was generated"], "runtime oracle: conflicts injected into valid configurations; generation must fail or rustc refuse", RN)
p("C21", "Header lines reach the generated code verbatim, in order, in every module",
  "Every header line of a configuration appears in the generated code unchanged and in the given order, at the root and in every module generated for handlers, so that names they bring in can be used by parameter types everywhere. Comment lines and items spanning several lines work as well.",
  ["programs"], "every list of header lines that is valid Rust", "The stored configurations have a single use line.", [G, CM, PM], [("headers", G+" codegen, codegen_module")], ["constants declared in headers, read back from every generated module"], REF, RN)
p("C22", "Generated documentation describes exactly the generated routes",
  "The routes shown in the generated module's documentation are exactly those of the configuration the router was generated from, in order, with all their parameters. Every handler struct's documentation names the method and path template it is served at, and these together are exactly the non-redirect routes.",
  ["programs"], "every configuration", GOLD, [G, CM], [("doc block", G+" codegen"), ("per-handler docs", G+" codegen_module")], ["doc comments of the generated code, read by the monitor's own reader"], "runtime oracle: documentation of generated code read back by an independent reader", TX)
p("C23", "The order of siblings in a configuration does not change any answer",
  "Two configurations that differ only in the order in which routes, parameters and resources are listed among their siblings generate routers that give the same answer to every request.",
  ["programs", "inputs"], "every configuration, every reordering of siblings at any levels, every request", GOLD, [F, T, G], MATCH, ["match_route of both routers"], "runtime oracle: metamorphic comparison of two compiled routers on the same requests", RN)
p("C24", "The command line tool prints exactly the library's code, or fails and says why",
  "Given a valid route file, whatever its name, the command line tool prints exactly the code the library generates for it, nothing more or less, and succeeds; given a missing, unreadable or invalid file, or one that contradicts itself so that the library generates no code, or when its output cannot be written, it fails with a nonzero status and a message and prints no code.",
  ["inputs", "fault_sequences"], "every route file, valid or not, and every failing input or output", "No test runs the tool.", [CMD, B], [("tool", CMD+" main"), ("builder", B)], ["exit status, stdout and stderr of the tool's process"], "runtime monitoring: tool processes on generated and damaged files and failing outputs", TX)

p("C25", "Cost stays proportionate: no configuration, text or request blows it up",
  "Reading a text, showing its errors, printing a configuration and generating code end with work and memory that grow by a small power of the input: twice as many siblings, header lines or bytes cost about twice as much and give about twice as much code, twice as many nested levels at most about eight times as much work and four times as much code. Generated code is never multiplied by the number of ways through a configuration. A generated matcher answers in time proportional to the length of the path. Paths of many thousand bytes need no more stack than a build script has.",
  ["inputs", "programs"], "every family of configurations, valid or damaged texts and requests that grow in width, depth or length", "The tests use three small configurations and measure nothing.", [PM, PE, G, F, T, CM], [("parser alternatives, each tried once", PM), ("one subtree, one place in the code", G+" codegen_trie"), ("trie insertion", T+" Trie::add"), ("printer", CM+" stringify")], ["allocations, bytes, output length and CPU time of each step at doubling sizes; CPU time of match_route"], "runtime monitoring: counting allocator and CPU clock on families of doubling size, growth compared with a bound", "Held on the families and sizes measured (counts in the evidence); bounds are on growth between doublings, generous by a factor of about two, so that constants may change.")

CLAIMED = None  # all
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            y = {k: v for k, v in x.items() if not k.startswith("_")}
            f.write(json.dumps(y, ensure_ascii=False) + "\n")
    have = sys.argv[1:] or [x["id"] for x in P]
    m = dict(version=1, setup_cmd="bash check.sh setup", checks=[], not_applicable=[],
        notes="No hooks were needed: every property is observed at public interfaces. Repairs of genuine defects are the fix: commits listed in known-findings.txt.")
    for x in P:
        if x["id"] in have:
            m["checks"].append(dict(property=x["id"], quick_cmd="bash check.sh "+x["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh "+x["id"],
                evidence_file="evidence/%s.json" % x["id"], technique=x["_m"]["technique"], level=x["_m"]["level"], level_note=x["_m"]["note"]))
        else:
            m["not_applicable"].append(dict(property=x["id"], reason="check still being built"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
