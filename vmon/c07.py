"""C07: object generation yields exactly the objects of the class, each once."""
import itertools

from . import base
from . import large, objwork, oracles, ruleforms, setups, specbuild, specvalid, specwork
from .runner import Discard, check

RULE = (
    "Three kinds of cases. (1) A random genuine rule in every derived form (as for C09): every "
    "object of the parent is mapped to its parts, which must lie in the children, and back; "
    "the objects generated by the rule from the brute force objects of its children are "
    "compared, as multisets per parameter tuple, with the objects of the parent. (2) Random "
    "specifications handed back by a search: get_objects and generate_objects_of_size for "
    "every size and every parameter tuple of a grid against brute force and against the count "
    "of the same specification, in random order of sizes and interleaved generators. (3) "
    "Every rule inside those specifications, path rules included: its objects and its maps. "
    "(4) Specifications whose classes have few objects: generation at sizes up to 40, judged by "
    "a dynamic program (numbers) and the definition of the class (membership). "
    "A case is non trivial when at least three objects were generated or mapped; identity: "
    "form and signature of the rule, or start class and shape of the specification."
)
ASSUMPTIONS = [
    "maps of the strategies of the universes are exact (tested separately against brute force)",
    "generation through complements and quotients is documented as not implemented: only "
    "NotImplementedError is accepted there",
    "sizes up to 7, at most 250 objects per class; up to 40 for specifications all of whose "
    "classes have at most 60 objects per size",
]
QUICK = {"cases": 15000, "seconds": 400}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 30
NEED = {"nontrivial": 1000, "objects_mapped_and_back": 50000, "objects_generated": 50000,
        "form_path": 500, "form_equivalence": 200, "form_equivalence of reverse": 100,
        "specs_generated": 500, "specs_with_statistics": 150, "path_rules_in_specs": 100,
        "refused_complement": 20, "pointed_specs": 100, "specs_sanity_checked": 30,
        "large_objects_generated": 1000}


def watch_rule(name, rule, obs):
    obs.case.update(ruleforms.describe(name, rule))
    bound = ruleforms.size_bound(rule, 120, 6)
    cache = {}
    nobj = 0
    kind = name.rstrip("0123456789 ")
    if objwork.map_supported(rule):
        for n in range(bound + 1):
            nobj += objwork.check_maps(name, rule, n, obs, cache)
        obs.count("maps_" + kind)
    rule.subobjects = tuple(
        (lambda n, c=c: oracles.true_objects(c, n) if n >= 0 else {}) for c in rule.children
    )
    try:
        for n in range(bound + 1):
            k = objwork.compare_objects(rule.get_objects(n), rule.comb_class, n, name)
            obs.count("objects_generated", k)
            nobj += k
    except NotImplementedError:
        if not objwork.needs_complement(rule):
            raise
        obs.count("refused_complement")
    obs.count("form_" + kind)
    if nobj > 2:
        obs.nontrivial(ruleforms.signature(name, rule))
        obs.sample({**ruleforms.describe(name, rule), "objects": nobj})


def watch_spec(found, rng, obs):
    spec, start = found.spec, found.setup.start
    desc = specwork.describe_spec(spec)
    specwork.sanity_checked(spec, rng, obs)
    refuses = any(objwork.needs_complement(r) for r in spec.rules_dict.values())
    bound = oracles.bound_n(start, 150, 7)
    sizes = list(range(bound + 1))
    if rng.random() < 0.5:
        rng.shuffle(sizes)
    names = start.extra_parameters
    nobj = 0
    try:
        for n in sizes:
            truth = oracles.true_objects(start, n)
            if rng.random() < 0.7:
                nobj += objwork.compare_objects(spec.get_objects(n), start, n, desc)
            grid = list(truth) or [tuple(0 for _ in names)]
            if names:
                grid += [tuple(rng.randint(0, n + 1) for _ in names) for _ in range(2)]
                if n < 3:
                    grid += list(itertools.product(range(n + 2), repeat=len(names)))[:20]
            gens = []
            for params in grid:
                kw = base.keywords(names, params, rng)
                gens.append((params, kw, spec.generate_objects_of_size(n, **kw), []))
            # interleave the generators
            alive = list(gens)
            while alive:
                item = rng.choice(alive)
                try:
                    item[3].append(next(item[2]))
                except StopIteration:
                    alive.remove(item)
            for params, kw, _, got in gens:
                want = truth.get(params, [])
                check(len(set(got)) == len(got), "repeated objects of size {} {}: {}; {}", n,
                      params, got, desc)
                check(set(got) == set(want), "objects of size {} {} are {}, expected {}; {}",
                      n, params, got, want, desc)
                count = spec.count_objects_of_size(n, **kw)
                check(count == len(got), "{} objects generated, count {} for size {} {}; {}",
                      len(got), count, n, params, desc)
                obs.count("objects_generated", len(got))
                nobj += len(got)
    except NotImplementedError:
        if not refuses:
            raise
        obs.count("refused_complement")
    obs.count("specs_generated")
    if names:
        obs.count("specs_with_statistics")
    cache = {}
    for rule in list(spec.rules_dict.values()):
        if not rule.children:
            continue
        name = f"{type(rule).__name__} in a specification"
        b = min(3, oracles.bound_n(rule.comb_class, 60, 3))
        if type(rule).__name__ == "EquivalencePathRule":
            obs.count("path_rules_in_specs")
        if objwork.map_supported(rule):
            for n in range(b + 1):
                nobj += objwork.check_maps(name, rule, n, obs, cache, 15)
        if not refuses:
            for n in range(b + 1):
                objwork.compare_objects(rule.get_objects(n), rule.comb_class, n, name)
    if nobj > 2:
        obs.nontrivial((repr(start), specwork.features_of(spec)))
        obs.distinct("rule_kind_sets", specwork.features_of(spec))


def watch_large(found, rng, obs):
    """Sizes far beyond, for classes with few objects, on a specification not used before."""
    spec, start = found.spec, found.setup.start
    if not large.supported(start):
        return
    if any(objwork.needs_complement(r) for r in spec.rules_dict.values()):
        return
    if any(not r.children and not r.comb_class.is_atom() for r in spec):
        return
    classes = {c for r in spec for s in specvalid.steps(r) for c in (s.comb_class, *s.children)}
    if len(classes) > 60:
        return
    top = rng.choice([15, 25, 40])
    totals = [0] * (top + 1)
    for c in classes:
        for n, t in enumerate(large.terms(c, top)):
            totals[n] = max(totals[n], sum(t.values()))
    few = [n for n in range(top + 1) if max(totals[:n + 1]) <= 60]
    if len(few) < 11:
        return
    desc = specwork.describe_spec(spec)
    truth = large.terms(start, top)
    names = start.extra_parameters
    for n in [few[-1]] + rng.sample(few, 3):
        keys = sorted(oracles.nonzero(truth[n]))
        if rng.random() < 0.5:
            rng.shuffle(keys)
            del keys[5:]
            found = {k: list(spec.generate_objects_of_size(n, **base.keywords(names, k, rng)))
                     for k in keys}
        else:
            found = {k: list(v) for k, v in spec.get_objects(n).items() if v}
            check(sorted(found) == keys, "objects of size {} for {}, expected {}; {}", n,
                  sorted(found), keys, desc)
        for k, objs in found.items():
            check(len(set(objs)) == len(objs) == truth[n][k], "{} objects ({} different) of "
                  "size {} {}, expected {}; {}", len(objs), len(set(objs)), n, k, truth[n][k],
                  desc)
            for o in objs:
                check(large.member(start, o, n, k), "{!r} is no object of size {} {}; {}", o,
                      n, k, desc)
            obs.count("large_objects_generated", len(objs))
        obs.maximum("large_size", n)


def pointed(rng, obs):
    """A specification with rules that are not bijective, made by hand."""
    start, spec = specbuild.pointed(rng)
    obs.case.update(start=repr(start), spec=specwork.describe_spec(spec))
    obs.count("pointed_specs")
    return specwork.Found(setups.Setup(start, None, "", {}), "none", None, spec, "built")


def case(rng, index, obs):
    if rng.random() < 0.05:
        watch_spec(pointed(rng, obs), rng, obs)
        return
    if rng.random() < 0.3:
        setup, db, ev = specwork.random_config(rng)
        for found in specwork.harvest(rng, obs, setup, db, ev, maxspecs=2):
            if rng.random() < 0.4:
                watch_large(found, rng, obs)
            watch_spec(found, rng, obs)
        return
    try:
        todo = ruleforms.random_forms(rng)
    except Discard:
        return
    for name, rule in todo:
        watch_rule(name, rule, obs)
