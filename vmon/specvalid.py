"""Judges a specification: closed, one rule per class, genuine and productive (C02)."""
from . import oracles, packwork
from .runner import Violation, check, clip
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import (
    CartesianProductStrategy,
    DisjointUnionStrategy,
    EmptyStrategy,
)


def true_shifts(rule):
    """The shifts of a plain rule, worked out from the minimum sizes."""
    kids = rule.children
    if isinstance(rule, VerificationRule) or not kids:
        return ()
    if isinstance(rule.strategy, CartesianProductStrategy):
        mins = [c.minimum_size_of_object() for c in kids]
        return tuple(sum(mins) - m for m in mins)
    if isinstance(rule.strategy, DisjointUnionStrategy):
        return tuple(0 for _ in kids)
    return tuple(rule.shifts())


def steps(rule):
    """The rules a path stands for."""
    if isinstance(rule, EquivalencePathRule):
        return list(rule.rules)
    return [rule]


def triple(rule, obs):
    """(parent, children, shifts) of a rule form, judged from its original rule."""
    kind = type(rule)
    if kind is EquivalencePathRule:
        check(rule.rules, "empty path")
        first, last = rule.rules[0], rule.rules[-1]
        check(rule.comb_class == first.comb_class, "path starts at {} instead of {}",
              first.comb_class, rule.comb_class)
        check(tuple(rule.children) == (last.children[0],) and len(last.children) == 1,
              "path ends at {} instead of {}", last.children, rule.children)
        total = 0
        for a, b in zip(rule.rules, rule.rules[1:]):
            check(len(a.children) == 1 and a.children[0] == b.comb_class,
                  "broken path: {} then {}", a, b)
        for r in rule.rules:
            p, c, s = triple(r, obs)
            check(len(c) == 1, "step of a path with children {}", c)
            total += s[0]
        return rule.comb_class, (last.children[0],), (total,)
    if kind is EquivalenceRule:
        orig = rule.original_rule
        p, c, s = triple(orig, obs)
        rest = [x for x in c if not x.is_empty()]
        check(len(rest) == 1, "equivalence of a rule with non empty children {}", rest)
        check(rule.comb_class == p and tuple(rule.children) == (rest[0],),
              "equivalence {} -> {} of {} -> {}", rule.comb_class, rule.children, p, c)
        i = [j for j, x in enumerate(c) if not x.is_empty()][0]
        return p, (rest[0],), (s[i],)
    if kind is ReverseRule:
        orig = rule.original_rule
        p, c, s = triple(orig, obs)
        i = rule.idx
        check(orig.is_reversible(), "reverse of a rule that is not reversible: {}", orig)
        check(rule.comb_class == c[i], "reverse of {} at {} for {}", c, i, rule.comb_class)
        check(tuple(rule.children) == (p, *c[:i], *c[i + 1:]),
              "children {} of the reverse at {} of {} -> {}", rule.children, i, p, c)
        return c[i], (p, *c[:i], *c[i + 1:]), (-s[i], *(x - s[i] for j, x in enumerate(s)
                                                        if j != i))
    return rule.comb_class, tuple(rule.children), true_shifts(rule)


def base_rule(rule):
    while isinstance(rule, (EquivalenceRule, ReverseRule)):
        rule = rule.original_rule
    return rule


def is_genuine(rule, packs, classes, obs):
    """Whether the pack really gives the rule."""
    rule = base_rule(rule)
    parent, children = rule.comb_class, tuple(rule.children)
    try:
        again = tuple(rule.strategy(parent).children)
    except StrategyDoesNotApply:
        return f"{rule.strategy!r} does not apply to {parent!r}"
    if again != children:
        return f"{rule.strategy!r} gives {again!r} and not {children!r} for {parent!r}"
    if isinstance(rule, VerificationRule):
        if children or not rule.strategy.verified(parent):
            return f"{rule.strategy!r} does not verify {parent!r}"
    if isinstance(rule.strategy, EmptyStrategy):
        return "" if parent.is_empty() else f"{parent!r} is not empty"
    obs.count("rules_reapplied")
    if any(p.genuine(rule.strategy, parent, children) for p in packs):
        return ""
    obs.count("foreign_rules_in_specs")
    if any(p.anywhere(rule.strategy, parent, children, classes) for p in packs):
        return ""
    return f"no strategy of the pack gives {parent!r} -> {children!r} by {rule.strategy!r}"


def validate(spec, start, packs, obs, grouped=True):
    """
    packs: PackRules of the packs the rules may come from. Returns the values of the
    fixed point.
    """
    def bad(msg, key):
        raise Violation(f"{msg}; start {start!r}; specification "
                        f"{clip([(type(r).__name__, r.comb_class, r.children) for r in spec.rules_dict.values()], 2000)}", key)

    if spec.root != start:
        bad(f"root is {spec.root!r}", "root")
    if start not in spec.rules_dict:
        bad("the start class has no rule", "closed")
    triples, inner = [], {}
    classes = set()
    for c, rule in list(spec.rules_dict.items()):
        if rule.comb_class != c:
            bad(f"{c!r} has a rule for {rule.comb_class!r}", "one rule")
        t = triple(rule, obs)
        if not c.is_empty():
            triples.append(t)
        elif not isinstance(rule.strategy, EmptyStrategy) and not rule.children == ():
            obs.count("rules_for_empty_classes")
            triples.append(t)
        classes.add(c)
        for child in t[1]:
            classes.add(child)
            if child not in spec.rules_dict and not child.is_empty():
                bad(f"{child!r} is on a right hand side but has no rule", "closed")
        for r in steps(rule):
            key = (type(r).__name__, tuple(r.children), packwork.settings_repr(r.strategy))
            if inner.setdefault(r.comb_class, key) != key:
                bad(f"{r.comb_class!r} has the rules {key} and {inner[r.comb_class]}",
                    "one rule")
            classes.add(r.comb_class)
            classes.update(base_rule(r).children)
            classes.add(base_rule(r).comb_class)
            if isinstance(r.strategy, EmptyStrategy) and not r.comb_class.is_empty():
                bad(f"empty rule for {r.comb_class!r}", "empty rule")
    for rule in list(spec.rules_dict.values()):
        for r in steps(rule):
            why = is_genuine(r, packs, classes, obs)
            if why:
                bad(f"not genuine: {why}", "genuine")
    empty = {c for c in classes if c.is_empty()}
    known = [(c, (), ()) for c in empty]
    for what, rules in (
        ("declared", [(r.comb_class, tuple(r.children), tuple(r.shifts()))
                      for r in spec.rules_dict.values()]),
        ("true", triples),
    ):
        val = oracles.lfp_terms(rules + known)
        for c, _, _ in rules:
            if val[c] != oracles.INF:
                bad(f"only {val[c]} terms of {c!r} can be computed ({what} shifts)",
                    "productive")
    obs.count("specs_validated")
    recursive = len({t[0] for t in triples if t[1]}) and _cyclic(triples)
    if recursive:
        obs.count("recursive_specs")
    return triples


def _cyclic(triples):
    succ = {}
    for p, c, _ in triples:
        succ.setdefault(p, set()).update(c)
    return any(p in oracles.reachable(succ, q) for p in succ for q in succ[p])
