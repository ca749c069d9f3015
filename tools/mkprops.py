import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,**({"state":state} if state else {}),hook_needed=None)))
H="cmd/tsgolint/headless.go"; L="internal/linter/linter.go"; M="cmd/tsgolint/main.go"
p("C01","The output stream is always a sequence of complete, well-formed frames",
 "Whatever the payload, files, diagnostics and reader speed, everything a headless run writes to standard output is a gap-free sequence of frames (little-endian length, type byte, JSON body of the documented shape for that type). A successful run exits 0 with no error frame, a failed run exits non-zero with exactly one error frame after which nothing follows, and no diagnostic the linter produced is dropped or cut short because of its text, size or number.",
 ["inputs","schedules","fault_sequences"],"all payloads, source texts (including control characters, invalid UTF-8 and megabyte-sized messages), diagnostic counts around the buffer and channel sizes, and consumer reading patterns.",
 "The e2e snapshots decode a handful of small outputs read at full speed; nothing exercises buffer boundaries, back-pressure, unusual bytes or failures in the middle of a run.",
 [H],[("writer goroutine draining the diagnostics channel into one buffered writer",H),("length-prefixed frame writer",H)],["stdout of `tsgolint headless`","exit status"])
p("C02","Results do not depend on parallelism, file order or batching",
 "For a fixed set of files, rules and options, the multiset of diagnostics (with ranges, fixes and suggestions) is the same for every thread count, every order of files and config groups in the payload, every repetition, and equals the union of the results of linting each file in its own run. Each listed file is linted exactly once: none is skipped and none reported twice.",
 ["schedules","inputs"],"thread counts, goroutine schedules, permutations and partitions of the file list, repeated runs.",
 "Unit tests lint one file at a time in a single program; the e2e tests sort the output of one run on one machine, so a lost, duplicated or schedule-dependent diagnostic goes unnoticed.",
 [L,H],[("queue of source files shared by one worker per type checker",L),("listeners and context reset between files",L)],["stdout of `tsgolint headless`"])
p("C03","Every file gets exactly its own rules and options, and nothing else",
 "Each file is checked with exactly the rules and options its config group lists: every rule diagnostic names a listed file and a rule configured for that file, running a set of rules yields the union of running each rule alone, and options given to one group or rule never influence another. Files that are only imported, and rules that are not configured, contribute nothing.",
 ["inputs","configurations","schedules"],"assignments of rule subsets and option values to files processed concurrently in one run.",
 "Rule tests run one rule on one file; no test runs many rules with different options over many files in one process.",
 [H,L,"internal/rule/rule.go"],[("per-file rule lookup",H),("diagnostics tagged with the rule whose listener runs",L)],["stdout of `tsgolint headless`"])
p("C04","Payload versions are equivalent where they overlap; bad payloads are refused",
 "A version-1 payload produces exactly the diagnostics of the version-2 payload that says the same thing, and member order, extra whitespace and unknown members in the JSON change nothing. Input that is not a valid payload (malformed or truncated JSON, wrong member types, unsupported version, version 1 without files) is refused before any linting: one error frame, non-zero exit, no diagnostics.",
 ["inputs"],"all payload texts, including every truncation of a valid one.",
 "There is no payload test at all outside the e2e run, which only sends well-formed version-2 payloads.",
 ["cmd/tsgolint/payload.go",H],[("version probe followed by strict decode",  "cmd/tsgolint/payload.go"),("V1 to V2 conversion","cmd/tsgolint/payload.go")],["stdout and exit status of `tsgolint headless`"])
p("C05","Linting with source overrides equals linting the same text from disk",
 "Running with in-memory source overrides gives the same diagnostics, fixes and type errors as running on a copy of the tree where those texts were saved, whether the overridden file is linted itself or reached by import, re-export, reference or configuration; files without an override are read from disk. No run, with or without overrides and fixes, creates, changes or removes anything in the linted tree.",
 ["inputs","configurations","histories"],"override sets over files of multi-file projects, including empty texts, new text that adds or removes imports, and configuration files.",
 "Two unit tests look up a path in a two-entry overlay; equivalence of whole runs over dependent files is never compared.",
 ["cmd/tsgolint/overlayfs.go",H,"internal/utils/host.go"],[("file-system overlay in front of the OS","cmd/tsgolint/overlayfs.go")],["stdout of `tsgolint headless`","directory tree before and after"])
p("C06","Each file is assigned to the TypeScript project an editor would use",
 "A file is linted under the nearest enclosing tsconfig.json that includes it, otherwise under a project reachable from that config through references, otherwise under the closest ancestor config (or its references) that includes it, honouring include, exclude, files, extends and references; otherwise under default options. The choice does not depend on which other files are linted in the same run, and reference cycles are handled.",
 ["configurations","inputs","schedules"],"directory trees of config files with include patterns, references, cycles, overlaps and inheritance, and any subset of files linted together.",
 "The resolver tests cover a few fixed layouts one file at a time; concurrent resolution over shared state and generated layouts are not covered.",
 ["internal/utils/find_tsconfig.go","internal/utils/bfs.go",H],[("breadth-first search over references with ancestor fallback","internal/utils/find_tsconfig.go"),("parallel resolution","internal/utils/find_tsconfig.go")],["type errors that carry a marker of the config in force","debug log of assignments"])
p("C07","A broken tsconfig is reported and harms no other project",
 "When the config that governs some files is invalid (syntax, unknown or bad options, missing base, no inputs), the run reports it as a configuration problem attached to the config file, lints none of the files that depend on it, and still produces for every other project exactly what it produces without the broken one. With the documented environment switch these reports are dropped and the files are linted with whatever remains of the configuration; a file that its own program leaves out is linted with default options.",
 ["configurations","fault_sequences"],"kinds and combinations of configuration faults across several projects of one run.",
 "The e2e suite has three fixed invalid configs, never mixed with healthy projects in one run.",
 ["internal/utils/create_program.go",L],[("early return with internal diagnostics","internal/utils/create_program.go"),("continue with next program",L)],["stdout of `tsgolint headless`"])
p("C08","Reported TypeScript errors are exactly the compiler's",
 "With syntactic or semantic reporting enabled, the run reports for every listed file exactly the syntactic or semantic errors the TypeScript compiler reports for that file under the same configuration (code, message, range, each once), and none for other files. With reporting disabled it reports none, and neither setting changes any rule's diagnostics.",
 ["programs","configurations"],"arbitrary TypeScript programs, both switches independently, subsets of the files of a project.",
 "Two small fixtures with a few errors are snapshotted; no comparison with the compiler is made.",
 [L,"internal/utils/diagnostic_helpers.go"],[("collection, filtering, deduplication of program diagnostics",L)],["stdout of `tsgolint headless`","the compiler's own diagnostics for the same files"])
p("C09","Every reported range and edit lies inside its file",
 "Every range in the output (diagnostic, label, fix, suggestion) satisfies 0 <= start <= end <= length of that file's UTF-8 text, starts and ends on character boundaries, and the edits of one fix or suggestion are pairwise disjoint; each diagnostic has a non-empty rule name, message id and description. This holds for every source text, including multi-byte, CRLF, BOM, empty and syntactically broken files.",
 ["inputs","programs"],"arbitrary source text.",
 "Rule tests compare line and column of hand-written ASCII snippets only.",
 [L,"internal/utils/utils.go","internal/rule/rule.go","internal/rules"],[("token-trimmed node ranges","internal/utils/utils.go"),("fix constructors","internal/rule/rule.go")],["stdout of `tsgolint headless -fix -fix-suggestions`"])
p("C10","Fix flags only add fixes",
 "Without the fix flag no diagnostic carries fixes and without the suggestion flag none carries suggestions; turning either on adds that part and changes nothing else: same diagnostics, same ranges, same messages, and the fixes are the same whether or not suggestions are requested and vice versa.",
 ["inputs","configurations"],"all programs and all four flag combinations.",
 "Rule tests always run with fixes enabled.",
 [L,H],[("lazy construction of fixes gated by the run's fix state",L)],["stdout of `tsgolint headless` under the four flag combinations"])
p("C11","Fixes and suggestions produce valid code and settle",
 "Applying the fix of any diagnostic, or any one suggestion, to a program that parses yields a program that still parses, and the edited program equals, up to layout and redundant parentheses, the edit the reference implementation of that rule makes to the same code. Applying all non-conflicting fixes repeatedly reaches, within a bounded number of passes, a program that none of the rules wants to fix any more.",
 ["programs"],"programs over all rules with fixes, including parenthesised, commented, asynchronous and multi-line variants.",
 "Rule tests pin the output of hand-picked snippets, and are not part of the tests that pass reliably here.",
 ["internal/rules","internal/rule/rule.go","internal/utils/string_literal.go","internal/linter/source_code_fixer.go"],[("per-rule fix construction","internal/rules"),("text edit application","internal/linter/source_code_fixer.go")],["stdout of `tsgolint headless -fix -fix-suggestions`","text after applying the edits"])
p("C12","Applying a set of fixes is exact",
 "Applying the fixes of a list of diagnostics yields exactly the original text with a conflict-free selection of whole fixes carried out: a diagnostic is either applied completely or returned as not applied, text outside applied edits is preserved byte for byte, earlier fixes take precedence over later overlapping ones, and the result says whether anything was applied. Diagnostics without a fix are always returned as not applied.",
 ["inputs"],"all texts and all lists of diagnostics with arbitrarily ordered, adjacent, overlapping, empty and insert-only edits.",
 "It is only exercised through rule tests with one or two simple edits.",
 ["internal/linter/source_code_fixer.go"],[("sort, then greedy non-overlapping application","internal/linter/source_code_fixer.go")],["return values of the fix application function"])
p("C13","No program makes the linter crash, hang or lose its output",
 "For every set of readable source files, valid or not, and every subset of rules with default or valid options, a run terminates normally with exit status 0 within a bounded amount of work, and a file that cannot be parsed never prevents the results for the other files.",
 ["programs","inputs"],"arbitrary source texts: compiler conformance programs, truncated and mutated programs, deep nesting, recursive types, all rules at once.",
 "Rule tests use small, valid snippets written for the one rule under test.",
 ["internal/rules",L,"internal/utils/ts_eslint.go","internal/utils/ts_api_utils.go"],[("nil and kind guards in rules","internal/rules"),("AST traversal",L)],["exit status, stderr and stdout of `tsgolint headless`"])
p("C14","Concurrent linting is free of data races",
 "While many projects and files are linted in parallel with all rules, fixes, timings, overrides and type-error reporting, no two goroutines access the same memory without synchronisation when one of them writes.",
 ["schedules"],"goroutine schedules of parallel project resolution, program creation, checking, linting, timing merge and output.",
 "The tests are not run with the race detector and lint single files.",
 [L,H,"internal/utils/find_tsconfig.go","internal/linter/timing.go"],[("channels and per-worker state",L),("mutex-protected timing store","internal/linter/timing.go")],["race detector reports of the instrumented binary"])
FAM={
"C15":("promise and async","await-thenable, no-confusing-void-expression, no-floating-promises, no-meaningless-void-operator, no-misused-promises, prefer-promise-reject-errors, promise-function-async, require-await, return-await, strict-void-return, use-unknown-in-catch-callback-variable"),
"C16":("type-safety","no-array-delete, no-base-to-string, no-deprecated, no-for-in-array, no-implied-eval, no-misused-spread, no-mixed-enums, no-unsafe-argument, no-unsafe-assignment, no-unsafe-call, no-unsafe-enum-comparison, no-unsafe-member-access, no-unsafe-return, no-unsafe-type-assertion, no-unsafe-unary-minus, only-throw-error, require-array-sort-compare, restrict-plus-operands, restrict-template-expressions, unbound-method"),
"C17":("redundancy","no-duplicate-type-constituents, no-redundant-type-constituents, no-unnecessary-boolean-literal-compare, no-unnecessary-condition, no-unnecessary-qualifier, no-unnecessary-template-expression, no-unnecessary-type-arguments, no-unnecessary-type-assertion, no-unnecessary-type-conversion, no-unnecessary-type-parameters, no-useless-default-assignment, strict-boolean-expressions, switch-exhaustiveness-check"),
"C18":("style and preference","consistent-return, consistent-type-exports, dot-notation, non-nullable-type-assertion-style, prefer-find, prefer-includes, prefer-nullish-coalescing, prefer-optional-chain, prefer-readonly, prefer-readonly-parameter-types, prefer-reduce-type-parameter, prefer-regexp-exec, prefer-return-this-type, prefer-string-starts-ends-with, related-getter-setter-pairs"),
}
for k,(n,rules) in FAM.items():
    p(k,"The %s rules decide as the reference rules do"%n,
     "On every program and option value, the %s rules (%s) report the same problems as the typescript-eslint rules of the same name: the same message ids the same number of times at the corresponding places, nothing on code the reference accepts, apart from documented deliberate differences and those recorded where the compilers (5.9 against 7.0) disagree about a type."%(n,rules),
     ["programs","configurations"],"TypeScript programs and option values; verdicts of all rules of the family on every program, not only on programs written for that rule.",
     "Each rule's tests cover its own hand-picked snippets with hand-written expectations, do not run in the reliable test set, and never run a rule on another rule's programs.",
     ["internal/rules/"+r.strip().replace("-","_") for r in rules.split(",")]+["internal/utils/ts_eslint.go","internal/utils/ts_api_utils.go","internal/utils/builtin_symbol_likes.go"],
     [("rule listeners over the checker's types","internal/rules"),("shared type helpers","internal/utils")],["stdout of `tsgolint headless`","verdicts of the reference implementation on the same program"])
p("C19","Options default as their schema says",
 "For every rule, leaving options out, giving an empty object, or spelling out the documented default values gives identical results; a partial object behaves as if the missing members had their defaults, at every nesting level, and members are independent of the order they are written in. Boolean-or-object options accept both forms.",
 ["configurations"],"all option members of all rules, alone and in combination, on programs sensitive to them.",
 "Rule tests pass hand-picked options, mostly as Go values that bypass the JSON the editor integration sends.",
 ["internal/utils/utils.go","internal/rules"],[("defaulting JSON decoders generated from the schemas","internal/rules/*/options.go"),("uniform option decoding","internal/utils/utils.go")],["stdout of `tsgolint headless`"])
p("C20","Timing reports are complete and do not disturb linting",
 "With timings requested, the run emits exactly one timing frame, after every diagnostic, with each rule that ran listed exactly once (slowest first) and call counts that are the same for every thread count, additive over files and independent of which other rules run. Requesting timings changes nothing else in the output.",
 ["schedules","inputs"],"files, rules and thread counts.",
 "One unit test checks a single rule on one file.",
 ["internal/linter/timing.go",L,H],[("per-worker statistics merged under a mutex","internal/linter/timing.go")],["stdout of `tsgolint headless -debug timings`"])
p("C21","The command line reports every problem and a matching summary",
 "Run from the command line on a project, the tool prints each problem the same rules find in the project's own files exactly once, with the right rule, path, line and column and the offending source text, and its summary counts equal the printed problems, the linted files and the rules; files in node_modules and outside the project directory are not linted. It terminates normally on every project that loads.",
 ["inputs","programs"],"projects, source texts (line ending styles, tabs, multi-byte text, problems at the first and last line, very long ranges) and thread counts.",
 "There is no test of the command line's output.",
 [M],[("diagnostic printer with a code box",M),("summary line",M)],["stdout and exit status of `tsgolint`"])
p("C22","Rules see every syntax node exactly once, in order",
 "While a file is linted, a rule listening to a node kind is told of each node of that kind exactly once, in source order, with the exit notification after all of the node's descendants; destructuring targets and ordinary literals are distinguished by the pattern and not-pattern notifications exactly as the grammar defines assignment and binding targets, to any nesting depth. Listeners of one file are never called for another.",
 ["programs"],"arbitrary syntax trees, in particular nested assignment patterns with defaults, spreads, computed keys and parentheses.",
 "Only observable through individual rules today, whose tests rely on a few shapes.",
 [L,"internal/rule/rule.go"],[("mutually recursive pattern and child visitors",L),("listener kind arithmetic","internal/rule/rule.go")],["event log of a rule that listens to every kind"])
p("C23","Quoted string literals denote exactly the original string",
 "Whenever a fix or suggestion writes a string as a quoted literal, the literal is one line, parses as a single string literal, and evaluates to exactly the original string.",
 ["inputs"],"all strings: quotes, backslashes, control characters, line separators, astral characters.",
 "There is no test of the quoting itself.",
 ["internal/utils/string_literal.go","internal/rules/prefer_includes","internal/rules/prefer_string_starts_ends_with","internal/rules/dot_notation"],[("escape table","internal/utils/string_literal.go")],["return value of the quoting function; fix texts"])
p("C24","The committed compiler bindings match the pinned compiler",
 "Every committed binding file of the compiler shim is exactly what the generator produces from the pinned, patched compiler sources and the committed shim descriptions, so each exposed function, field accessor and type refers to the compiler entity of the same name with the same signature and layout.",
 ["programs"],"all exposed functions, methods, fields, types and constants.",
 "Nothing compares the committed bindings with the generator's output; unsafe field access with a wrong layout compiles.",
 ["shim","tools/gen_shims/main.go"],[("generator with linkname and unsafe accessors","tools/gen_shims/main.go")],["generator output compared with the tree"])
p("C25","Allow-lists match types by origin exactly as specified",
 "A type or value allow-list entry (a name, or a source of file, library or package with one or more names and an optional path or package) matches a symbol if and only if it has one of the names and is declared in that source, for classes, interfaces, aliases, enums, globals, re-exports and packages found through node_modules or ambient modules. Every rule with such an option treats the same entry the same way.",
 ["inputs","configurations"],"specifier shapes times declaration sites times consuming rules.",
 "A few specifiers are tested per rule; the origin analysis as a whole is not.",
 ["internal/utils/type_matches_specifier.go"],[("declaration-file and package analysis","internal/utils/type_matches_specifier.go")],["stdout of `tsgolint headless`","verdicts of the reference implementation"])
p("C26","The npm launcher is transparent",
 "The npm entry point runs the binary of the matching platform package with the same arguments, standard streams, environment and working directory, and ends with the same exit status; if the binary cannot be found or is killed, it fails with a non-zero status.",
 ["inputs","fault_sequences"],"argument lists, stream contents and sizes, exit statuses, signals, missing packages.",
 "There is no test of the launcher.",
 ["npm/core/bin/tsgolint.js"],[("synchronous child process with inherited streams","npm/core/bin/tsgolint.js")],["argv, stdin, stdout, exit status seen by a recording stand-in binary"])
p("C27","Verdicts move with the code",
 "Inserting or removing comments, blank lines, a byte-order mark or unrelated declarations before or after a program, or converting its line endings, shifts every diagnostic, label and edit by the corresponding number of UTF-8 bytes (a leading byte-order mark counts for nothing) and changes nothing else. Appending an unrelated file to the project does not change another file's result.",
 ["programs","inputs"],"layout-preserving edits of arbitrary programs, with multi-byte characters.",
 "Tests fix one layout per snippet.",
 [L,"internal/utils/utils.go","internal/rules"],[("ranges derived from node positions","internal/utils/utils.go")],["stdout of `tsgolint headless -fix -fix-suggestions`"])
p("C28","In-memory file layers answer like a real file system",
 "A file-system layer with in-memory files returns the in-memory content and existence for exactly those paths and forwards every other query, argument and answer unchanged to the layer below, never writing in-memory content through. The same holds for the layer used for a missing project file, whose directory listings and existence answers also include the in-memory files.",
 ["inputs","histories"],"paths (prefixes, siblings, trailing separators, case variants), sequences of reads, queries and writes, layered arbitrarily.",
 "Two tests look up two or three paths for existence and content; directory queries, writes, metadata and forwarding are not covered.",
 ["cmd/tsgolint/overlayfs.go","internal/utils/overlay_vfs.go"],[("map lookup before delegation","cmd/tsgolint/overlayfs.go"),("directory synthesis","internal/utils/overlay_vfs.go")],["return values of the layer and calls seen by a recording lower layer"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), max(len(x['title']) for x in P))
