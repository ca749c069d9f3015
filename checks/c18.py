"""C18: the style and preference rules decide as the reference rules do."""
import verdicts

RULES = """consistent-return consistent-type-exports dot-notation non-nullable-type-assertion-style prefer-find prefer-includes prefer-nullish-coalescing prefer-optional-chain prefer-readonly prefer-readonly-parameter-types prefer-reduce-type-parameter prefer-regexp-exec prefer-return-this-type prefer-string-starts-ends-with related-getter-setter-pairs""".split()


def run(c):
    verdicts.run(c, RULES)
