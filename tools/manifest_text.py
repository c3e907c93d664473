"""Texts of MANIFEST.json that differ from the default ones."""
_END = (" Complete within the enumerated space; beyond it only by the regularity of limb-wise code. Trusted: the model, the "
        "compiler, raw limb access.")
TECH = {
    "P04": "bounded exhaustive enumeration of dividend and divisor digits on the real code, quotient and remainder checked by "
           "their defining equation",
    "P13": "exhaustive enumeration of strings (all short ones, all lengths, numerals around every bound) on the real code "
           "against a reference grammar and evaluator",
    "P14": "exhaustive enumeration of values, radices and format specifications on the real code against a reference printer",
    "P21": "explicit-state exploration of all operation histories up to a bounded depth, the real code and the model stepped in "
           "lockstep and compared after every transition",
    "P22": "exhaustive enumeration of one operation table in every build configuration, natively and on interpreted big-endian "
           "and 32-bit targets, with all recordings compared",
    "P23": "exhaustive enumeration of all cases within the preconditions against a reference model, and execution of the "
           "enumerated operation table under a dynamic undefined-behaviour detector",
    "P24": "bounded exhaustive enumeration of limb arrays of every count from one to five against a reference model",
}
NOTE = {
    "P21": "Every history of the stated depth over the stated transitions is executed on the real code and on the model, from every "
           "seed; states are compared after each step. Deeper histories are covered only in so far as their states repeat." + _END,
    "P22": "Every case of a common operation table is executed in each configuration and the results are compared through a hash per "
           "operation; a difference is narrowed to a concrete case. Big-endian and 32-bit targets run on a smaller space because "
           "they are interpreted. Says nothing about whether the common result is right; the other properties do.",
    "P23": "Results are compared with the model on every case inside the preconditions, natively. Undefined behaviour is looked for "
           "by executing concrete cases in an interpreter (no symbolic reasoning) on a smaller space; inline assembly cannot be "
           "interpreted and is only run natively." ,
    "P24": "Every case is executed on the exported routines in every build configuration. Limb counts above five are covered through "
           "the integer types in the other properties." + _END,
}
