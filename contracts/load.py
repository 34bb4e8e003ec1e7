from . import declare, define, dispatch, element, entry, errors, fields, native, serializers

GENERAL = [
    'VC generator pyvc (this repository: symbolic execution of the Python AST, heap as component arrays) and the solvers z3 and cvc5 are trusted',
    'Python semantics of the supported subset as encoded in pyvc: integers are mathematical (as in CPython), attribute access '
    'follows the typed view declared in contracts/, no monkey patching, no concurrent mutation during a call',
    'annotations of parameters are preconditions: callers pass values of the declared kinds',
    'termination and stack/heap exhaustion are not verified',
]


def load(R):
    for m in (element, serializers, errors, define, dispatch, declare, entry, native, fields):
        m.register(R)
    return R


def trusted(R, prop):
    used = [k for k, c in R.contracts.items() if c.trusted]
    ims = sorted(R.imeths)
    return ['pyvc VC generator', 'z3', 'cvc5', 'CPython ast'] + [f'assumed contract: {k}' for k in sorted(used)] + \
        [f'abstract operation assumed at call sites: {k}' for k in ims]


def assumptions(R, prop):
    return GENERAL + list(R.assumptions)
