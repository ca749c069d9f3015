"""C17: the redundancy rules decide as the reference rules do."""
import verdicts

RULES = """no-duplicate-type-constituents no-redundant-type-constituents no-unnecessary-boolean-literal-compare no-unnecessary-condition no-unnecessary-qualifier no-unnecessary-template-expression no-unnecessary-type-arguments no-unnecessary-type-assertion no-unnecessary-type-conversion no-unnecessary-type-parameters no-useless-default-assignment strict-boolean-expressions switch-exhaustiveness-check""".split()


def run(c):
    verdicts.run(c, RULES)
