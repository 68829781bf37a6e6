BASE = [
 'the pyvc symbolic interpreter gives CPython semantics to the statements and expressions it accepts (anything else is left undischarged)',
 'models of Python builtins and of struct, binascii, hashlib, hmac, base64, os.urandom, time, random (pyvc/models.py) are assumed contracts on dependencies',
 'hash functions are uninterpreted functions of their input with fixed output length',
 'Python integers are mathematical integers (exact: they are unbounded in Python)',
 'a generator is run to its end before its first value is used (the interleaving with its consumer is not modelled)',
 'z3 is trusted for unsat answers; termination is only proved where a loop declares a variant',
]
PROP = {}
