"""Checks of maps and object generation shared by several monitors."""
from collections import Counter

from . import base  # noqa: F401
from . import oracles, ruleforms
from .runner import Violation, clip
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    NonBijectiveRule,
    ReverseRule,
    Rule,
)


def map_supported(rule):
    """
    The forms for which mapping objects makes sense: plain, equivalence, reverse of a rule with
    a single non empty child, and paths of these.
    """
    if isinstance(rule, EquivalencePathRule):
        return all(map_supported(r) for r in rule.rules)
    if isinstance(rule, EquivalenceRule):
        return map_supported(rule.original_rule)
    if isinstance(rule, ReverseRule):
        return sum(not c.is_empty() for c in rule.original_rule.children) == 1
    return isinstance(rule, Rule)


def needs_complement(rule):
    """Whether generating needs a complement or a quotient, which the library refuses."""
    if isinstance(rule, EquivalencePathRule):
        return False
    if isinstance(rule, EquivalenceRule):
        return needs_complement(rule.original_rule)
    return isinstance(rule, ReverseRule)


def object_set(c, n, cache):
    if (c, n) not in cache:
        cache[(c, n)] = frozenset(c.objects_of_size(n))
    return cache[(c, n)]


def check_maps(name, rule, n, obs, cache, limit=60):
    """Every object is mapped to parts in the children, and back."""
    kids = rule.children
    union = not ruleforms.is_product(rule)
    todo = sorted(object_set(rule.comb_class, n, cache), key=repr)[:limit]
    for obj in todo:
        parts = rule.forward_map(obj)
        if not isinstance(parts, tuple) or len(parts) != len(kids):
            raise Violation(f"{name}: forward map of {obj!r} gives {parts!r} for "
                            f"{len(kids)} children {kids!r}")
        if all(p is None for p in parts):
            raise Violation(f"{name}: forward map of {obj!r} gives no part at all")
        total = 0
        for part, child in zip(parts, kids):
            if part is None:
                if not union:
                    raise Violation(f"{name}: no part of {obj!r} for the factor {child!r}")
                continue
            size = part.size()
            total += size
            if part not in object_set(child, size, cache):
                raise Violation(f"{name}: {obj!r} of {rule.comb_class!r} is mapped to "
                                f"{part!r} which is not in the child {child!r}")
        if not union and total != n:
            raise Violation(f"{name}: sizes of the parts {parts!r} of {obj!r}")
        back = list(rule.backward_map(parts))
        if isinstance(rule, NonBijectiveRule):
            same = {rule.forward_map(o) == parts for o in back}
            if back.count(obj) == 1 and len(set(back)) == len(back) and same == {True}:
                back = [obj]
        got, idx = rule.indexed_forward_map(obj)
        if got != parts or rule.indexed_backward_map(parts, idx) != obj:
            raise Violation(f"{name}: indexed map of {obj!r} gives {got!r}, {idx} instead of "
                            f"{parts!r}, or is not undone")
        if back != [obj]:
            raise Violation(f"{name}: {obj!r} of {rule.comb_class!r} is mapped to {parts!r} "
                            f"and back to {back!r}")
        obs.count("objects_mapped_and_back")
    return len(todo)


def as_counts(objects):
    """{params: Counter of objects} without the empty ones."""
    return {p: Counter(objs) for p, objs in objects.items() if len(objs)}


def compare_objects(got, comb_class, n, what):
    want = {p: Counter(o) for p, o in oracles.true_objects(comb_class, n).items()}
    got = as_counts(got)
    if got != want:
        missing = {p: list((c - got.get(p, Counter())).elements()) for p, c in want.items()}
        extra = {p: list((c - want.get(p, Counter())).elements()) for p, c in got.items()}
        raise Violation(
            f"{what}: objects of size {n} of {comb_class!r}: missing "
            f"{clip({p: o for p, o in missing.items() if o})}, extra or repeated "
            f"{clip({p: o for p, o in extra.items() if o})}")
    return sum(len(c) for c in want.values())
