"""Writes MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": ("runtime monitor: strict frame parser over hostile payloads, texts, reader speeds and failures", "exploration",
         "held on the runs explored; the parser is independent of the writer"),
 "C02": ("metamorphic runtime monitor: result multisets across thread counts, orders, splits and repetitions", "exploration",
         "held on the runs explored; trusts that the reference run (one thread) of the same binary is what the others must equal"),
 "C03": ("metamorphic runtime monitor: mixed runs against the union of one-rule runs", "exploration",
         "held on the runs explored, apart from the listed order-dependent programs; of two groups naming a file the later decides"),
 "C04": ("runtime monitor: differential V1/V2 runs, generated invalid payloads and every truncation against an independent validity model", "exploration",
         "held on the payloads explored; the validity model follows the documented payload shape"),
 "C05": ("metamorphic runtime monitor: override runs against disk runs, with a digest of the tree before and after", "exploration",
         "held on the runs explored; one listed finding (byte-order mark of an override counts)"),
 "C06": ("runtime monitor: the project of every file of generated config trees read off a marker type, against an independent model of inclusion and search", "exploration",
         "held on the trees explored; the model of include, exclude, files, extends and references is an independent implementation"),
 "C07": ("runtime monitor: generated broken configurations next to whole projects, against the compiler's own configuration errors and a run without them", "exploration",
         "held on the configurations explored; the pinned compiler decides what is wrong with one"),
 "C08": ("runtime monitor: errors reported under each setting compared with those of the pinned compiler called on its own", "exploration",
         "held on the programs explored; the reference shares the compiler's code, not tsgolint's"),
 "C09": ("runtime monitor: online range checker over every reported range of hostile and corpus programs", "exploration",
         "held on all ranges observed"),
 "C10": ("metamorphic runtime monitor: the four flag combinations compared", "exploration",
         "held on the runs explored"),
 "C11": ("runtime monitor: every edit applied and parsed by an independent parser, compared with the reference implementation's edits, and iterated to a fixed point", "exploration",
         "held on the edits observed apart from the listed findings; edits are compared up to layout and redundant parentheses"),
 "C12": ("runtime monitor: in-package harness with an independent conservation and precedence oracle over random edit lists", "exploration",
         "held on the edit lists explored"),
 "C13": ("runtime monitor: corpus programs, token-level and byte-level mutations and deep or cyclic programs run to the end with a known file next to them, under a processor-time limit", "exploration",
         "held on the programs run, apart from one listed crash in the compiler"),
 "C14": ("sanitizer: the executable built with Go's race detector under stress workloads", "exploration",
         "no race among the accesses that the instrumented runs executed"),
 "C15": ("runtime monitor: verdicts compared with recorded verdicts of the reference implementation", "exploration",
         "held on the programs compared; typescript-eslint on TypeScript 5.9 is trusted, and recorded differences between the compilers are not judged"),
 "C16": ("runtime monitor: verdicts compared with recorded verdicts of the reference implementation", "exploration",
         "held on the programs compared; typescript-eslint on TypeScript 5.9 is trusted, and recorded differences between the compilers are not judged"),
 "C17": ("runtime monitor: verdicts compared with recorded verdicts of the reference implementation", "exploration",
         "held on the programs compared; typescript-eslint on TypeScript 5.9 is trusted, and recorded differences between the compilers are not judged"),
 "C18": ("runtime monitor: verdicts compared with recorded verdicts of the reference implementation", "exploration",
         "held on the programs compared; typescript-eslint on TypeScript 5.9 is trusted, and recorded differences between the compilers are not judged"),
 "C19": ("metamorphic runtime monitor: runs under options that mean the same compared, with a measure of which members matter", "exploration",
         "held on the spellings explored; the copy of the schemas is taken as the documentation"),
 "C20": ("runtime monitor: timing frames and tables against an independent count of listener calls, and runs with and without timing compared", "exploration",
         "held on the runs explored"),
 "C21": ("runtime monitor: command-line output parsed and compared with the headless results for the same project", "exploration",
         "held on the projects explored"),
 "C22": ("runtime monitor: event log of a rule that listens to every kind, checked offline against an independent tree walk", "exploration",
         "held on the programs walked; the walk trusts the compiler's child enumeration"),
 "C23": ("runtime monitor: quoting functions and fix texts evaluated by an independent JavaScript engine", "exploration",
         "held on the strings explored"),
 "C24": ("runtime monitor: every binding compared at run time with the compiler's own by reflection, and the generator re-run", "exploration",
         "held on all bindings of the tree; a linked function is compared by its entry point"),
 "C25": ("runtime monitor: verdicts of all rules with allow-lists on types of known origin against an independent model of matching", "exploration",
         "held on the origins and entries explored; a value entry goes by its name, as the reference documents"),
 "C26": ("runtime monitor: the launcher run with a recording stand-in for the executable", "exploration",
         "held on the invocations explored"),
 "C27": ("metamorphic runtime monitor: layout edits against the position map they define", "exploration",
         "held on the edits explored"),
 "C28": ("runtime monitor: model-based differential harness with a recording lower layer", "exploration",
         "held on the operation sequences explored"),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
