"""C16: the type-safety rules decide as the reference rules do."""
import verdicts

RULES = """no-array-delete no-base-to-string no-deprecated no-for-in-array no-implied-eval no-misused-spread no-mixed-enums no-unsafe-argument no-unsafe-assignment no-unsafe-call no-unsafe-enum-comparison no-unsafe-member-access no-unsafe-return no-unsafe-type-assertion no-unsafe-unary-minus only-throw-error require-array-sort-compare restrict-plus-operands restrict-template-expressions unbound-method""".split()


def run(c):
    verdicts.run(c, RULES)
