"""C09: every rule form counts its parent correctly from its children, with parameters."""
from collections import Counter

from . import oracles, ruleforms
from .runner import Violation, check

RULE = (
    "Each case draws a random genuine rule (unions and products over words, grammars and "
    "synthetic classes with arbitrary statistics: kept, dropped, merged, renamed; empty "
    "children in any position) and every form the library derives from it (reverse with "
    "respect to every non empty child, equivalence, reverse of equivalence, equivalence of "
    "reverse), or a random path of equivalences. The terms of the children are fed from "
    "brute force through recording providers, and the terms computed are compared with brute "
    "force for every size. A case is non trivial when one of its parents has at least two "
    "objects; identity: form, strategy, mode, constructor, shifts, parameter map shape and "
    "positions of empty children."
)
ASSUMPTIONS = [
    "every statistic of a child is the image of a statistic of the parent, and products have "
    "no empty factor (contract of the strategies)",
    "sizes up to 7, at most 250 objects per class",
]
QUICK = {"cases": 16000, "seconds": 300}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 20
NEED = {"nontrivial": 500, "form_rule": 1000, "form_reverse": 1000, "form_equivalence": 300,
        "form_reverse of equivalence": 200, "form_path": 500, "with_merge": 500,
        "with_drop": 500}


def provider(rng, child, asked, idx, junk):
    """Feeds the true enumeration and records what is asked."""
    handed = {}

    def terms(n):
        asked.append((idx, n))
        if n not in handed:
            t = Counter(oracles.true_terms(child, n))
            if junk and rng.random() < 0.3:
                # a term which is explicitly zero
                params = tuple(rng.randint(0, 2) for _ in child.extra_parameters)
                t.setdefault(params, 0)
            handed[n] = (t, Counter(t))
        return handed[n][0]

    return terms, handed


def case(rng, index, obs):
    todo = ruleforms.random_forms(rng)
    for name, rule in todo:
        obs.case.update(ruleforms.describe(name, rule))
        bound = ruleforms.size_bound(rule)
        asked, stores, subterms = [], [], []
        junk = rng.random() < 0.3
        for i, child in enumerate(rule.children):
            p, handed = provider(rng, child, asked, i, junk)
            subterms.append(p)
            stores.append(handed)
        rule.subterms = tuple(subterms)
        sizes = list(range(bound + 1))
        if rng.random() < 0.4:
            sizes = [bound] + sizes
        nobj = 0
        for n in sizes:
            got = oracles.nonzero(rule.get_terms(n))
            want = oracles.nonzero(oracles.true_terms(rule.comb_class, n))
            obs.count("sizes_compared")
            nobj += sum(want.values())
            if got != want:
                raise Violation(f"{name}: terms of size {n} are {want}, computed {got}; "
                                f"{ruleforms.describe(name, rule)}")
        for handed in stores:
            for n, (t, orig) in handed.items():
                check(t == orig, "{} changed the terms of its child", name)
        ctor = rule.constructor
        kind = name.rstrip("0123456789 ")
        obs.count("form_" + kind)
        obs.count("constructor_" + type(ctor).__name__)
        if any(len(set(m.values())) < len(m) for m in ctor.extra_parameters):
            obs.count("with_merge")
        if any(len(m) < len(rule.comb_class.extra_parameters) for m in ctor.extra_parameters):
            obs.count("with_drop")
        if nobj > 1:
            obs.nontrivial(ruleforms.signature(name, rule))
            obs.sample({**ruleforms.describe(name, rule), "sizes": bound,
                        "terms": str([dict(oracles.true_terms(rule.comb_class, n))
                                      for n in range(min(4, bound + 1))])})
