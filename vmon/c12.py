"""C12: a constructed bijection is a size preserving bijection with a true inverse."""
import json
import random

from . import large, oracles, setups, specbuild, specvalid, specwork
from . import words as w
from .runner import Discard, Violation, check, clip
from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies.rule import VerificationRule

RULE = (
    "Each case draws two start classes (the same; renamed letters, nonterminals, orders of "
    "alternatives and of factors; a copy with a small change; two nonterminals of one "
    "grammar; words with permuted letters; unrelated) and specifications of them: put "
    "together directly from randomly chosen strategies, handed back by random searches under "
    "every rule database (reverse rules, equivalence paths, one-way rules, empty children), "
    "or by a parallel finder; some are first sent through JSON. One pair in eight "
    "is made of pointed classes (a non-bijective rule with ordered preimages, and index data "
    "for the pairs of rules whose orders differ) and tagged sums. The isomorphism test is "
    "called on both orders and on each specification with itself. When a bijection is "
    "constructed, the images of all objects up to a size are compared with the objects of "
    "the second class by brute force and sent back, in both directions; now and then some "
    "objects of sizes up to 40 are sent forth and back as well, or the "
    "bijection goes through JSON first and its maps are compared. A case is non trivial when "
    "a bijection between different classes or different specifications moved at least "
    "three objects; identity: both start classes and both sets of rules."
)
ASSUMPTIONS = [
    "objects of each strategy are mapped to its children and back (checked by C09 on the "
    "same universes)",
    "all objects of sizes up to 8, at most 250 of the start class; some objects of sizes up "
    "to 40 (the recursion of the map is bounded by the interpreter beyond a few hundred)",
]
QUICK = {"cases": 10000, "seconds": 420}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 25
NEED = {"nontrivial": 400, "bijections": 1000, "objects_mapped": 20000, "not_isomorphic": 300,
        "reflexive": 2000, "bijections_with_paths": 100, "bijections_reloaded": 50, "bijections_pointed": 200,
        "large_objects_mapped": 1000}


def atoms_only(spec):
    for rule in list(spec.rules_dict.values()):
        for r in specvalid.steps(rule):
            if isinstance(r, VerificationRule) and not r.children:
                if not r.comb_class.is_empty() and not r.comb_class.is_atom():
                    return False
    return not spec.root.is_empty()


def search_one(rng, obs, setup, db):
    """The specifications of one random search."""
    saved = dict(obs.case)
    try:
        return [f.spec for f in specwork.harvest(rng, obs, setup, db, limit=120, maxspecs=2)]
    finally:
        obs.case.clear()
        obs.case.update(saved)


def spec_of(rng, obs, start):
    if rng.random() < 0.7:
        for _ in range(3):
            try:
                return specbuild.build(rng, start, specbuild.strategies(rng, start),
                                       flip=rng.choice([0, 0.5]))
            except Discard:
                continue
        raise Discard()
    feats = setups.random_features(rng, {"verify": 0.08, "iterative": 0.05})
    pack = setups.random_pack(rng, start, feats)
    setup = setups.Setup(start, pack, "", {"features": sorted(feats)})
    specs = search_one(rng, obs, setup, rng.choice(setups.DBS))
    if not specs:
        raise Discard()
    obs.count("specs_searched")
    return rng.choice(specs)


def reload(spec):
    return CombinatorialSpecification.from_dict(json.loads(json.dumps(spec.to_jsonable())))


def parallel(rng, obs, a, b, exclude_merging=True):
    """Specifications from one of the parallel finders, or None."""
    res = []
    for start in (a, b):
        feats = setups.random_features(rng, {"verify": 0, "foreign": 0.2}, ("iterative",))
        pack = setups.random_pack(rng, start, feats)
        searcher = setups.make_searcher(setups.Setup(start, pack, "", {}), "base")
        setups.limit_steps(searcher, 150)
        res.append(searcher)
    finder = rng.choice([ParallelSpecFinder, EqPathParallelSpecFinder])
    random.seed(rng.random())
    try:
        # failures of the finder itself are judged by C13
        return finder(*res).find()
    except Exception:  # pylint: disable=broad-except
        return None


def check_bijection(bij, a, b, obs, what):
    """Returns the number of objects mapped."""
    n1 = oracles.bound_n(a, 250, 8)
    n2 = oracles.bound_n(b, 250, 8)
    total = 0
    for n in range(min(n1, n2) + 1):
        for f, back, dom, cod, name in (
            (bij.map, bij.inverse_map, a, b, "map"),
            (bij.inverse_map, bij.map, b, a, "inverse_map"),
        ):
            objs = sorted(dom.objects_of_size(n), key=repr)
            target = set(cod.objects_of_size(n))
            seen = {}
            for obj in objs:
                img = f(obj)
                if img not in target:
                    raise Violation(f"{what}: {name} sends {obj!r} of {dom!r} to {img!r}, "
                                    f"not an object of size {n} of {cod!r}", "image")
                if img in seen:
                    raise Violation(f"{what}: {name} sends {obj!r} and {seen[img]!r} of "
                                    f"{dom!r} to {img!r}", "injective")
                seen[img] = obj
                again = back(img)
                if again != obj:
                    raise Violation(f"{what}: {name} sends {obj!r} of {dom!r} to {img!r} "
                                    f"which is sent back to {again!r}", "inverse")
            if len(seen) != len(target):
                raise Violation(f"{what}: {name} misses {clip(target - set(seen))} of {cod!r}",
                                "onto")
            total += len(objs)
            obs.count("objects_mapped", len(objs))
    return total


def check_large(bij, a, b, rng, obs, what):
    """The same on some objects of larger sizes, drawn without the library."""
    if not (large.supported(a) and large.supported(b)):
        return
    sizes = sorted(rng.sample(range(9, 40), 3))
    if rng.random() < 0.3:
        totals = [[sum(t.values()) for t in large.terms(
            c.replace(stats=()), sizes[-1])] for c in (a, b)]
        check(totals[0] == totals[1], "{} between {!r} and {!r} which have not the same number "
              "of objects: {} and {}", what, a, b, *totals)
        obs.count("totals_compared")
    for n in sizes:
        for f, back, dom, cod, name in (
            (bij.map, bij.inverse_map, a, b, "map"),
            (bij.inverse_map, bij.map, b, a, "inverse_map"),
        ):
            seen = {}
            for _ in range(3):
                obj = large.sample(dom, n, rng)
                if obj is None:
                    break
                img = f(obj)
                check(large.member(cod, img, n), "{}: {} sends {!r} of {!r} to {!r}, not an "
                      "object of size {} of {!r}", what, name, obj, dom, img, n, cod)
                check(seen.setdefault(img, obj) == obj, "{}: {} sends two objects of {!r} to "
                      "{!r}", what, name, dom, img)
                again = back(img)
                check(again == obj, "{}: {} sends {!r} of {!r} to {!r} which is sent back to "
                      "{!r}", what, name, obj, dom, img, again)
                obs.count("large_objects_mapped")


def case(rng, index, obs):
    found = None
    if rng.random() < 0.12:
        a, b, *found, how = specbuild.pointed_pair(rng)
        obs.count("pointed_pairs")
    else:
        a, b, how = specbuild.pair_of_classes(rng)
    obs.case.update(first=repr(a), second=repr(b), how=how)
    if a.is_empty() or b.is_empty():
        raise Discard()
    if found is None and rng.random() < 0.1:
        found = parallel(rng, obs, a, b)
        if found is not None:
            obs.count("pairs_from_finder")
    if found is None:
        found = [spec_of(rng, obs, a), spec_of(rng, obs, b)]
    s1, s2 = found
    if rng.random() < 0.15:
        s1 = reload(s1)
        obs.count("specs_reloaded")
    if rng.random() < 0.15:
        s2 = reload(s2)
    obs.case.update(spec1=specwork.describe_spec(s1), spec2=specwork.describe_spec(s2))
    for s in (s1, s2):
        if atoms_only(s):
            check(Isomorphism.check(s, s), "not isomorphic to itself: {}",
                  specwork.describe_spec(s))
            obs.count("reflexive")
        else:
            Isomorphism.check(s, s)
    one, two = Isomorphism.check(s1, s2), s2.are_isomorphic(s1)
    check(one == two, "check of the pair is {} but {} when exchanged", one, two)
    pairs = [(s1, s2, a, b)]
    if rng.random() < 0.3:
        pairs.append((s1, s1, a, a))
    for x, y, c, d in pairs:
        bij = x.get_bijection_to(y) if rng.random() < 0.5 else Bijection.construct(x, y)
        if bij is None:
            if x is s1 and y is s2:
                obs.count("not_isomorphic" if not one else "isomorphic_without_bijection")
            continue
        check(Isomorphism.check(x, y), "a bijection although not isomorphic")
        what = "bijection"
        if rng.random() < 0.15:
            bij = Bijection.from_dict(json.loads(json.dumps(bij.to_jsonable())))
            what = "reloaded bijection"
            obs.count("bijections_reloaded")
        moved = check_bijection(bij, c, d, obs, what)
        if rng.random() < 0.25:
            check_large(bij, c, d, rng, obs, what)
        obs.count("bijections")
        if how.startswith("pointed"):
            obs.count("bijections_pointed")
        if any(len(r.children) == 1 and r.is_equivalence()
               for s in (x, y) for r in s.rules_dict.values()):
            obs.count("bijections_with_paths")
        if moved >= 6 and (c != d or x.rules_dict != y.rules_dict):
            obs.nontrivial((repr(c), repr(d), specwork.describe_spec(x),
                            specwork.describe_spec(y)))
            obs.count("nontrivial_" + how)
            obs.sample({"first": repr(c), "second": repr(d), "moved": moved,
                        "spec": specwork.describe_spec(x)[:400]})
