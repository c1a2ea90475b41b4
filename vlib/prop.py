"""Small vocabulary shared by the checks."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Inconclusive(Exception):
    """The oracle cannot decide this case (counted, never an alarm)."""


class Test:
    """One executable statement of (part of) a property.

    strategy(tier) -> hypothesis strategy of JSON cases
    run(case)      -> dict(nt=bool, labels=[...]) or raises Violation
    quick/thorough -> cases per shard
    """
    __test__ = False

    def __init__(self, name, strategy, run, quick, thorough, rule, variant="rel", minimise=None, shards=8,
                 fixed=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.variant, self.minimise, self.shards = variant, minimise, shards
        self.fixed = fixed or []        # cases always tried first (regressions, enumerations)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
