"""C15: the promise and async rules decide as the reference rules do."""
import verdicts

RULES = """await-thenable no-confusing-void-expression no-floating-promises no-meaningless-void-operator no-misused-promises prefer-promise-reject-errors promise-function-async require-await return-await strict-void-return use-unknown-in-catch-callback-variable""".split()


def run(c):
    verdicts.run(c, RULES)
