"""C11: forest extraction returns a minimal, closed, productive rule set."""
import random
from types import SimpleNamespace

from . import c03, num, oracles, packwork, setups, specvalid, specwork
from .runner import Violation, check, clip
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor, TableMethod
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
)
from comb_spec_searcher.strategies.strategy import EmptyStrategy
from comb_spec_searcher.typing import RuleBucket

RULE = (
    "(1) Random rule keys with random buckets inserted into a table, extraction for a random "
    "pumping class. (2) Random rules of numbered classes (factories, strategies that do not "
    "apply, foreign rules, empty classes, reversible rules) recorded through RuleDBForest "
    "with and without reverse rules by a searcher with the pack they come from. (3) Real "
    "searches over words and grammars. A monitor judges the extracted keys with an "
    "independent least fixed point: inserted keys only, one per class, closed, productive, "
    "unproductive without any single one of them, no reverse key when the other keys pump "
    "the root; and the concrete rules: one per key that is not an empty rule, same key, given "
    "by the pack, also with a cache of rules. A case is non trivial when an extraction kept "
    "at least three keys and left out at least one pumping key; identity: inserted keys."
)
ASSUMPTIONS = ["at most 400 keys per extraction"]
QUICK = {"cases": 40000, "seconds": 400}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 30
TIMEOUT_VIOLATES = True
NEED = {"nontrivial": 1500, "extractions": 4000, "removals_checked": 15000,
        "reverse_used": 300, "reverse_avoided": 500, "rules_turned_back": 3000,
        "searches_extracted": 200, "equivalence_rules": 100, "empty_keys": 50,
        "cached_rules": 500}


def plain(k):
    return (k.parent, tuple(k.children), tuple(k.shifts))


def productive(keys, root):
    return oracles.lfp_terms(map(plain, keys)).get(root) == oracles.INF


def judge(needed, inserted, root, obs):
    obs.count("extractions")
    what = f"needed {clip([tuple(k) for k in needed], 1200)}; inserted " \
           f"{clip([tuple(k) for k in inserted], 1500)}; root {root}"
    got = {}
    have = set(map(tuple, inserted))
    for k in needed:
        if tuple(k) not in have:
            raise Violation(f"{k} was not inserted; {what}", "subset")
        if k.parent in got:
            raise Violation(f"two rules for {k.parent}; {what}", "one rule")
        got[k.parent] = k
    if root not in got:
        raise Violation(f"no rule for the root; {what}", "closed")
    for k in needed:
        for c in k.children:
            if c not in got:
                raise Violation(f"no rule for {c}; {what}", "closed")
    values = oracles.lfp_terms(map(plain, needed))
    for c in got:
        if values.get(c) != oracles.INF:
            raise Violation(f"{c} has only {values.get(c)} terms; {what}", "productive")
    for k in needed:
        obs.count("removals_checked")
        if productive([x for x in needed if x is not k], root):
            raise Violation(f"productive without {k}; {what}", "minimal")
    forward = [k for k in inserted if k.bucket != RuleBucket.REVERSE]
    if any(k.bucket == RuleBucket.REVERSE for k in needed):
        obs.count("reverse_used")
        if productive(forward, root):
            raise Violation(f"reverse rules are not needed; {what}", "reverse")
    elif len(forward) < len(inserted):
        obs.count("reverse_avoided")
    values = oracles.lfp_terms(map(plain, inserted))
    pumping = sum(1 for k in set(inserted)
                  if all(values[c] == oracles.INF for c in (k.parent, *k.children)))
    obs.maximum("needed", len(needed))
    if len(needed) >= 3 and pumping > len(needed):
        obs.nontrivial((root, sorted((plain(k), k.bucket.name) for k in inserted)))
        obs.sample({"inserted": [tuple(k) for k in inserted[:12]], "root": root,
                    "needed": [tuple(k) for k in needed]})


def direct(rng, obs):
    labels, keys = c03.random_keys(rng)
    p = rng.choice([0.1, 0.4])
    keys = [k._replace(bucket=(
        RuleBucket.VERIFICATION if not k.children and rng.random() < 0.7
        else RuleBucket.REVERSE if rng.random() < p
        else rng.choice([RuleBucket.NORMAL, RuleBucket.EQUIV])
    )) for k in keys]
    values = oracles.lfp_terms(map(plain, keys))
    roots = sorted(v for v, x in values.items() if x == oracles.INF)
    if not roots:
        return
    table = TableMethod()
    for k in keys:
        table.add_rule_key(k)
    for root in rng.sample(roots, min(2, len(roots))):
        obs.case.update(keys=[tuple(k) for k in keys], root=root)
        ex = ForestRuleExtractor(root, SimpleNamespace(table_method=table), None, None)
        ex.check()
        judge(list(ex.needed_rules), keys, root, obs)


def extract(searcher, tap, pack, rng, obs):
    db = searcher.ruledb
    root = searcher.start_label
    if not db.has_specification():
        check(not productive(tap.keys, root), "no specification although the root pumps")
        try:
            db.get_specification_rules()
        except SpecificationNotFound:
            return False
        raise Violation("rules without a specification")
    classdb = searcher.classdb
    replay = packwork.PackRules(pack)
    ex = ForestRuleExtractor(root, db, classdb, pack)
    ex.check()
    needed = list(ex.needed_rules)
    judge(needed, tap.keys, root, obs)
    classes = []
    while len(classes) in classdb:
        classes.append(classdb.get_class(len(classes)))

    def key_of(rule):
        if isinstance(rule, EquivalenceRule):
            obs.count("equivalence_rules")
            check(not isinstance(rule.original_rule, EquivalenceRule), "nested")
            rule = rule.original_rule
        check(not isinstance(rule, EquivalencePathRule), "a path among the rules")
        return rule, rule.forest_key(classdb.get_label, classdb.is_empty)

    def concrete(rules, needed):
        """The rules turned back."""
        wanted = {k.parent: k for k in needed}
        kept = []
        for rule in rules:
            orig, key = key_of(rule)
            check(key.parent in wanted, "rule {} for an unexpected class, needed {}", key,
                  needed)
            if tuple(key) != tuple(wanted[key.parent]):
                raise Violation(f"{wanted[key.parent]} was turned into {key}", "same key")
            del wanted[key.parent]
            # and judged without the library
            p, c, s = specvalid.triple(orig, obs)
            s = tuple(orig.shifts())
            mine = (classdb.get_label(p), tuple(map(classdb.get_label, c)), s)
            check(mine == plain(key), "rule {} has key {}", mine, key)
            if key.bucket == RuleBucket.NORMAL:
                check(not isinstance(orig, ReverseRule), "reverse rule {} counted as normal",
                      key)
            why = specvalid.is_genuine(orig, [replay], classes, obs)
            if why:
                raise Violation(f"{key} was turned into a rule that is not of the pack: {why}",
                                "genuine")
            if rule is not orig:
                check(tuple(rule.children) == tuple(x for x in orig.children
                                                    if not x.is_empty()),
                      "equivalence with children {}", rule.children)
            kept.append(orig)
            obs.count("rules_turned_back")
        for k in wanted.values():
            obs.count("empty_keys")
            if k.children or not classdb.get_class(k.parent).is_empty():
                raise Violation(f"no rule for {k}", "missing rule")
        return kept

    kept = concrete(list(ex.rules(())), needed)
    if kept and rng.random() < 0.4:
        # with some rules in the cache
        cache = tuple(r for r in kept if rng.random() < 0.5)
        again = concrete(list(ex.rules(cache)), needed)
        used = {id(r) for r in again}
        for r in cache:
            obs.count("cached_rules")
            check(id(r) in used, "the rule {} in the cache was not used", r)
    rules = list(db.get_specification_rules())
    parents = [classdb.get_label(r.comb_class) for r in rules]
    check(len(parents) == len(set(parents)), "two rules for a class in {}", parents)
    for rule in rules:
        orig, key = key_of(rule)
        check(tuple(key) in set(map(tuple, tap.keys)), "{} was never inserted", key)
    return True


def numbered(rng, obs):
    start, pack, rows, empties = num.random_pack(rng, maxlabels=10, maxrows=24)
    reverse = rng.random() < 0.75
    obs.case.update(rows=rows, empties=empties, reverse=reverse, pack=repr(pack.__dict__))
    db = RuleDBForest(reverse=reverse)
    tap = c03.Tap(db.table_method)
    searcher = CombinatorialSpecificationSearcher(start, pack, ruledb=db)
    cls = type(start)
    order = list(rows)
    rng.shuffle(order)
    for row in order:
        rule = num.make_strategy(row, empties, cls is num.NumB)(cls(row["parent"], False))
        start_label = searcher.classdb.get_label(rule.comb_class)
        ends = tuple(searcher.classdb.get_label(c) for c in rule.children)
        db.add(start_label, ends, rule)
        if rng.random() < 0.05:
            extract(searcher, tap, pack, rng, obs)
    extract(searcher, tap, pack, rng, obs)


def searching(rng, obs):
    setup = setups.random_setup(rng)
    name = rng.choice(["forest", "forest_rev"])
    obs.case.update(setup.describe(), db=name)
    random.seed(rng.random())
    with specwork.clock(rng):
        db = setups.make_db(name)
        tap = c03.Tap(db.table_method)
        searcher = CombinatorialSpecificationSearcher(setup.start, setup.pack, ruledb=db)
        for _ in range(60):
            if searcher.has_specification() or len(tap.keys) > 400:
                break
            try:
                packet = next(searcher.classqueue)
            except StopIteration:
                break
            setups.expand(searcher, packet)
        if len(tap.keys) <= 400 and extract(searcher, tap, setup.pack, rng, obs):
            obs.count("searches_extracted")
            for _ in range(rng.choice([0, 5])):
                try:
                    packet = next(searcher.classqueue)
                except StopIteration:
                    break
                setups.expand(searcher, packet)
            if len(tap.keys) <= 400:
                extract(searcher, tap, setup.pack, rng, obs)


def case(rng, index, obs):
    r = rng.random()
    if r < 0.5:
        direct(rng, obs)
    elif r < 0.85:
        numbered(rng, obs)
    else:
        searching(rng, obs)
