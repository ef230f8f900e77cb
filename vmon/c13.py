"""C13: the parallel finder is total and what it returns is a matched pair."""
import random

from . import lengths, packwork, parts, setups, specbuild, specvalid, specwork
from . import grammar as g
from . import words as w
from .runner import Discard, Violation, check
from comb_spec_searcher import StrategyPack
from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.isomorphism import Isomorphism

RULE = (
    "Each case draws two start classes as for C12 (same, renamed, slightly changed, "
    "unrelated; words and grammars) and a random pack for each or one pack for both "
    "(inferral, equivalences, symmetries, one-way rules, foreign rules, factories, merged or "
    "renamed statistics; only atoms are verified), expands the two searchers by a random "
    "amount and runs the plain or the path-validating finder. Any exception other than the "
    "documented refusals is a violation; a pair handed back has each specification judged as "
    "for C02 (closed, one rule per class, genuine, productive), its counts compared with "
    "brute force as for C01, and must be isomorphic. A case is non trivial when a pair with "
    "at least three rules on each side was handed back; identity: both classes and both "
    "sets of rules."
)
ASSUMPTIONS = [
    "the plain finder declares that it takes all classes of one equivalence label to be "
    "equivalent: when a specification of its pair uses a two-way rule which is not an "
    "equivalence (merged statistics, can_be_equivalent False) isomorphism is only demanded "
    "of EqPathParallelSpecFinder",
    "searches are limited to 150 packets",
]
QUICK = {"cases": 30000, "seconds": 420}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 25
TIMEOUT_VIOLATES = False
NEED = {"nontrivial": 500, "pairs": 1500, "nothing_found": 300, "start_not_representative": 300,
        "pairs_eqpath": 300, "pairs_plain": 300, "pairs_of_parts_renamed": 200}

P = {"inferral": 0.45, "equiv": 0.45, "symmetry": 0.45, "foreign": 0.25, "oneway": 0.15,
     "verify": 0, "mixed": 0.2}


def pack_for(rng, start, feats, extra):
    """A random pack, with some two-way strategies which are never equivalences."""
    if isinstance(start, parts.M):
        return parts.pack(rng, feats, setups.MODES if start.stats else ("keep",))
    if isinstance(start, w.W):
        pack = setups.word_pack(rng, start, feats)
        pool = [w.DropPatternsNE, w.DropLetterNE, w.DropReqNE]
    elif isinstance(start, lengths.L):
        pack = setups.length_pack(rng, start, feats)
        pool = [lengths.LUnionNE]
    else:
        pack = setups.grammar_pack(rng, start, feats)
        pool = [g.UnwrapNE, g.UnwrapNE, g.SortNE, g.RotateNE, g.TwinNE]
    if not extra:
        return pack
    initial, inferral = list(pack.initial_strats), list(pack.inferral_strats)
    groups = [initial, inferral, *map(list, pack.expansion_strats)]
    for _ in range(extra):
        group = rng.choice([x for x in groups if x is not inferral or x])
        strat = rng.choice(pool)("keep")
        if strat not in group:
            group.append(strat)
    if rng.random() < 0.5:
        # no other way to unwrap
        for group in groups:
            for i, s in enumerate(group):
                if type(s) is g.Unwrap:  # pylint: disable=unidiomatic-typecheck
                    group[i] = g.UnwrapNE(s.mode)
                elif type(s) is g.Factor:
                    group[i] = g.Factor(s.mode, "inter", s.rotate)
    return StrategyPack(
        initial_strats=initial, inferral_strats=inferral, expansion_strats=groups[2:],
        ver_strats=pack.ver_strats, symmetries=pack.symmetries, name="uneven pack",
    )


def uneven(searcher, spec):
    """Whether a rule stays within an equivalence label without being an equivalence."""
    db, label = searcher.ruledb, searcher.classdb.get_label
    for rule in spec.rules_dict.values():
        kids = [c for c in rule.children if not c.is_empty()]
        if len(kids) == 1 and not rule.is_equivalence():
            if db.equivdb.equivalent(label(rule.comb_class), label(kids[0])):
                return True
    return False


def case(rng, index, obs):
    if rng.random() < 0.4:
        a = parts.random_class(rng, setups.random_stats(rng, "abc", 2, 0.8))
        b, how = parts.partner(rng, a)
        how = "parts_" + how
    else:
        a, b, how = specbuild.pair_of_classes(rng)
    if a.is_empty() or b.is_empty():
        raise Discard()
    feats = setups.random_features(rng, P, ("verpack", "iterative"))
    extra = rng.choice([0, 0, 0, 1, 2])
    state = rng.getstate()
    searchers, packs = [], []
    again = rng.random() < 0.5
    for i, start in enumerate((a, b)):
        if i and again and type(a) is type(b):
            # the very same choices for the second pack
            rng.setstate(state)
        elif i:
            feats = setups.random_features(rng, P, ("verpack", "iterative"))
            extra = rng.choice([0, 0, 0, 1, 2])
        pack = pack_for(rng, start, feats, extra)
        packs.append(pack)
        searcher = setups.make_searcher(setups.Setup(start, pack, "", {}), "base")
        setups.limit_steps(searcher, 150)
        searchers.append(searcher)
    rng.seed(rng.random() + index)
    finder = EqPathParallelSpecFinder
    if not extra and rng.random() < 0.6:
        finder = ParallelSpecFinder
    name = "plain" if finder is ParallelSpecFinder else "eqpath"
    obs.case.update(first=repr(a), second=repr(b), how=how, finder=name,
                    packs=[setups.repr_pack(p) for p in packs])
    random.seed(rng.random())
    for searcher in searchers:
        # hand over searchers in various states; the finder expands until it has enough
        try:
            for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
                searcher.do_level()
        except NoMoreClassesToExpandError:
            pass
        except setups.Limit:
            raise Discard() from None
    try:
        found = finder(*searchers)
    except setups.Limit:
        raise Discard() from None
    except ValueError as e:
        if str(e) == "No specifications were found":
            check(not all(s.has_specification() for s in searchers),
                  "refused although both searchers have a specification")
            obs.count("no_specification")
            return
        raise
    for s in searchers:
        if s.ruledb.equivdb[s.start_label] != s.start_label:
            obs.count("start_not_representative")
    res = found.find()
    if res is None:
        obs.count("nothing_found")
        obs.count("nothing_found_" + how)
        return
    check(isinstance(res, tuple) and len(res) == 2, "not a pair: {}", res)
    obs.count("pairs")
    obs.count("pairs_" + name)
    obs.count("pairs_of_" + how)
    triples = []
    for spec, start, pack in zip(res, (a, b), packs):
        triples.append(specvalid.validate(spec, start, [packwork.PackRules(pack)], obs))
        specwork.check_counts(spec, start, rng, obs, cap=300)
    obs.case.update(spec1=specwork.describe_spec(res[0]), spec2=specwork.describe_spec(res[1]))
    if any(uneven(s, x) for s, x in zip(searchers, res)):
        obs.count("pairs_with_uneven_rules")
    if name == "plain" and any(uneven(s, x) for s, x in zip(searchers, res)):
        obs.count("not_claimed_isomorphic")
        return
    if not (Isomorphism.check(*res) and Isomorphism.check(res[1], res[0])):
        raise Violation(f"the pair of the {name} finder is not isomorphic", "isomorphic")
    if all(len(t) >= 3 for t in triples):
        obs.nontrivial((repr(a), repr(b), name, sorted(map(repr, triples[0])),
                        sorted(map(repr, triples[1]))))
        obs.sample({"first": repr(a), "second": repr(b), "finder": name,
                    "spec1": specwork.describe_spec(res[0])[:500],
                    "spec2": specwork.describe_spec(res[1])[:500]})
