"""C01: a specification returned by the searcher enumerates the root class correctly."""
from . import oracles, setups, specwork

RULE = (
    "Each case draws a random start class (words with prefix, avoided patterns, required "
    "factor and letter statistics, or derivation trees of a random context-free grammar), a "
    "random strategy pack over it (inferral, symmetries, one-way rules, factories that yield "
    "rules for other classes, lazy rules, verification, iterative), one of the four rule "
    "database configurations and a random driver (auto_search, interrupted and resumed, "
    "level by level, several specifications from one searcher, smallest), under a random "
    "fake clock. The terms of every specification handed back are compared for every size "
    "and parameter tuple with a brute force enumeration, and for some of them those of sizes "
    "up to a few hundred with a dynamic program over the definition of the class. A case is "
    "non trivial when a specification with at least two rules was compared on at least three sizes and the "
    "class has an object; identity: start class, pack features, driver and shape of the "
    "specification."
)
ASSUMPTIONS = [
    "strategies of the universes honour their declared contracts (checked against brute "
    "force by C07 and C09 on the same universes)",
    "sizes up to 9 and at most 500 objects of the start class for the listings; sizes up to "
    "400 (20 to 60 with statistics) for the dynamic program",
]
QUICK = {"cases": 12000, "seconds": 420}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 20
NEED = {"nontrivial": 800, "specs_base": 150, "specs_forget": 150, "specs_forest": 150,
        "specs_forest_rev": 150, "specs_sanity_checked": 150, "searches_debug": 80,
        "large_sizes_compared": 1500,
        "specs_of_empty_start": 30}


def empty_start(rng, obs):
    """A search for a class without objects, when it was made by mistake."""
    setup, db, ev = specwork.random_config(rng, family="words")
    old = setup.start
    patterns = set(old.patterns) or {old.alphabet[0]}
    setup.start = type(old)(rng.choice(sorted(patterns)), patterns, old.alphabet, False,
                            old.req, old.stats)
    setup.pack = setups.word_pack(rng, setup.start, set(setup.opts["features"]))
    for found in specwork.harvest(rng, obs, setup, db, ev):
        specwork.check_counts(found.spec, setup.start, rng, obs)
        obs.count("specs_of_empty_start")


def case(rng, index, obs):
    if rng.random() < 0.01:
        empty_start(rng, obs)
        return
    setup, db, ev = specwork.random_config(rng)
    for found in specwork.harvest(rng, obs, setup, db, ev):
        specwork.sanity_checked(found.spec, rng, obs)
        specwork.large_counts(found.spec, setup.start, rng, obs)
        n = specwork.check_counts(found.spec, setup.start, rng, obs)
        obs.maximum("rules_in_spec", found.spec.number_of_rules())
        if found.spec.number_of_rules() > 1 and n >= 2:
            obs.nontrivial((repr(setup.start), setup.opts, db, found.how,
                            specwork.features_of(found.spec)))
            obs.distinct("rule_kind_sets", specwork.features_of(found.spec))
            obs.count("specs_compared")
            if setup.start.stats:
                obs.count("specs_with_statistics")
            obs.sample({"start": repr(setup.start), "db": db, "how": found.how,
                        "terms": [dict(oracles.true_terms(setup.start, i))
                                  for i in range(3)].__repr__(),
                        "spec": specwork.describe_spec(found.spec)[:600]})
