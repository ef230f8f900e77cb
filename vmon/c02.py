"""C02: returned specifications are closed, one-rule-per-class, genuine and productive."""
import random

from . import packwork, specvalid, specwork
from .runner import check
from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.strategies.rule import ReverseRule

RULE = (
    "Random searches as in C01 (every rule database, smallest, iterative, interrupted, level "
    "by level, several specifications from one searcher). Every specification is judged by a "
    "monitor that unfolds equivalence paths: start class has a rule, every non empty class on "
    "a right hand side has exactly one rule, empty rules only for empty classes, the parts "
    "of every rule form fit its original rule, every original rule is given by a strategy of "
    "the pack when applied again, and an independent fixed point (with the shifts declared "
    "and with shifts worked out from minimum sizes) gives every class unboundedly many "
    "terms. The same for the rules of the database put together without grouping of "
    "equivalences. A case is non trivial when a recursive specification with at least three "
    "rules was validated; identity: the (parent, children, shifts)."
)
ASSUMPTIONS = ["minimum sizes reported by the classes are exact"]
QUICK = {"cases": 12000, "seconds": 420}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 20
TIMEOUT_VIOLATES = False
NEED = {"nontrivial": 1000, "specs_validated": 4000, "recursive_specs": 2000,
        "rules_reapplied": 15000, "specs_base": 300, "specs_forget": 300,
        "specs_forest": 300, "specs_forest_rev": 300, "specs_with_reverse": 50,
        "paths": 200, "ungrouped": 500, "foreign_rules_in_specs": 30}


def case(rng, index, obs):
    setup, db, ev = specwork.random_config(rng)
    replay = packwork.PackRules(setup.pack)
    for found in specwork.harvest(rng, obs, setup, db, ev):
        specs = [found.spec]
        if rng.random() < 0.3:
            searcher = found.searcher
            random.seed(rng.random())
            kw = {"smallest": True} if rng.random() < 0.2 and not setup.pack.iterative else {}
            rules = list(searcher.ruledb.get_specification_rules(
                minimization_time_limit=0.01, **kw))
            spec = CombinatorialSpecification(setup.start, rules, group_equiv=False)
            given = {}
            for r in rules:
                check(r.comb_class not in given, "two rules for {}", r.comb_class)
                given[r.comb_class] = r
            specs.append(spec)
            obs.count("ungrouped")
        for spec in specs:
            triples = specvalid.validate(spec, setup.start, [replay], obs)
            rules = [r for x in spec.rules_dict.values() for r in specvalid.steps(x)]
            if any(isinstance(r, ReverseRule) for r in rules):
                obs.count("specs_with_reverse")
            obs.count("paths", sum(len(specvalid.steps(x)) > 1
                                   for x in spec.rules_dict.values()))
            obs.maximum("rules_in_spec", len(rules))
            if len(triples) >= 3 and specvalid._cyclic(triples):
                obs.nontrivial(sorted(map(repr, triples)))
                obs.sample({"start": repr(setup.start), "db": db,
                            "spec": specwork.describe_spec(spec)[:600]})
        obs.distinct("rule_kind_sets", specwork.features_of(found.spec))
