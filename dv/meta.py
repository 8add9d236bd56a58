"""Levels and assumptions per property (for evidence files)."""
import json
import os

TRUSTED = [
    "dv symbolic executor and its models of Python/numpy primitives (cross-checked on every run: each contract is also executed against the real code with real numpy)",
    "z3 5.3 / cvc5 / dv.poly rational normal form",
    "CPython compile/exec of the unmodified source text read from /repo",
]

COMMON = [
    "machine floats are treated as exact reals extended with NaN and infinities; rounding is not modelled",
    "machine integers are treated as mathematical integers",
]

EXTRA = {}


def level(p):
    """As claimed in MANIFEST.json."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
    for c in json.load(open(path))["checks"]:
        if c["property_id" if "property_id" in c else "property"] == p:
            return c["level"]
    return "exploration"


def assumptions(p):
    return COMMON + EXTRA.get(p, [])
