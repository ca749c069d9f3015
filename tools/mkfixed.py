"""Appends the `fixed` entries (the repairs committed in /repo) to known-findings.jsonl, once."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = """b740aa1 C09 a range around a missing node (zero width) was moved past the node by skipping trivia, so start > end or past the end of the file
0401c44 C13 prefer-readonly crashed on a destructured parameter property
15f074f C13 no-mixed-enums crashed on an enum merged with a namespace
4f2f4eb C13 no-deprecated looped for ever on an alias that refers to itself
b4eb0bc C13 no-duplicate-type-constituents crashed on template literal types
123463b C13 no-unnecessary-type-parameters recursed without bound on circular instantiations
82c187b C13 await-thenable crashed on iterables that are not type references
8954412 C13 use-unknown-in-catch-callback-variable crashed on an empty rest tuple
efdf4f4 C13 no-unnecessary-template-expression crashed on unterminated literals
a0cd6f2 C13 no-unnecessary-qualifier recursed without bound on a circular alias
2c263b0 C01 diagnostics frames could follow, split or be lost after the error frame
ff4feaa C01 a diagnostic whose text is not valid UTF-8 was dropped
3bc5c7d C01 a file that no program contains ended the run in a panic without an error frame
b2f95c8 C01 an unknown rule name ended the run in a panic without an error frame
00cf66a C13 unbound-method crashed on an untyped `this` parameter
0542829 C23 prefer-includes wrote control characters and quotes unescaped into its literal
b226585 C11 non-nullable-type-assertion-style removed part of a parenthesised or commented assertion
1794500 C11 prefer-find rewrote an optional chain into code with another result
8750fc3 C11 prefer-regexp-exec wrote slashes and line breaks unescaped into a regular expression literal
f172f0e C23 prefer-string-starts-ends-with wrote literals that did not denote the original string
59846aa C09 a compiler diagnostic on a missing node had start > end
a2e4863 C09 an interpolation of an unterminated template was reported past the end of the file
f93fa3a C09 no-unsafe-type-assertion reported a JSDoc cast at a range with start > end
465a3e6 C11 a non-null assertion was suggested for a JSDoc cast (invalid in JavaScript)
8bbb30f C11 no-unnecessary-type-assertion removed the wrong comment for a JSDoc cast
5a98778 C09 dot-notation built a fix past the end of the file when `]` is missing
5151f83 C09 the head of a function without parameter list ended inside a multi-byte character
a417209 C27 the labels of no-unnecessary-condition started at the comments before the operand
6336c83 C27 the label of no-unnecessary-type-assertion started at the comments before the expression
214caa6 C27 suggestions of prefer-nullish-coalescing repeated the comments before the operand
89ee4fb C27 fixes of no-unnecessary-boolean-literal-compare repeated the comments before the operand
74fc105 C12 edits at the same place were applied in an arbitrary order
f2a40b3 C11 switch-exhaustiveness-check cut long case expressions short in its suggestion
625858a C22 keys, defaulted elements and for-of heads of destructuring assignments were not visited
208d518 C27 the repair 89ee4fb took the wrong operand when comments precede it
9574dbc C21 the command line crashed on or misplaced lines ended by U+2028, CR or holding multi-byte text
657dab1 C07 a file that its program leaves out failed the whole run
6508410 C07 a tsconfig that extends itself made the run hang for ever
34a8586 C18 prefer-readonly-parameter-types did not check setter parameters
8aed888 C18 prefer-nullish-coalescing did not treat void as nullable
659c14e C18 prefer-readonly-parameter-types took properties of mapped types for readonly
a7e34a5 C14 a patch of the compiler's project service read a cached file's state without its lock
a33c7b9 C25 the allow list of no-deprecated never matched a type by its own name or package
89c9059 C25 files of a directory whose name starts with the working directory's counted as files of the project
0419470 C16 unsafe member accesses in what a class extends were not reported"""
p = V + "/known-findings.jsonl"
L = [l for l in open(p).read().split("\n") if l and '"status": "fixed"' not in l]
for l in PROP.split("\n"):
    c, prop, what = l.split(" ", 2)
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip()
    assert len(full) == 40, c
    L.append(json.dumps({"status": "fixed", "entry": "fixed: property=%s %s %s" % (prop, full[:12], what), "property": prop, "commit": full, "what": what}))
open(p, "w").write("\n".join(L) + "\n")
