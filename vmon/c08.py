"""C08: random sampling from a specification is exactly uniform."""
from fractions import Fraction
from math import lcm
import itertools

from . import base
from . import large, objwork, oracles, ruleforms, setups, specbuild, specwork
from .runner import Discard, Violation, check, clip
from .grammar import G
from .words import Expand, RemoveFront, StatAtom, W
from comb_spec_searcher import StrategyPack
from comb_spec_searcher.exception import InvalidOperationError

RULE = (
    "The random source of the library is replaced by an enumerating one: every outcome of "
    "every draw is followed, so that the exact distribution (rational numbers) of a sampler "
    "is observed. (1) Random genuine rules in every derived form that can sample: the "
    "samplers and counts of the children are replaced by exact uniform ones built from brute "
    "force, and the distribution of the rule's sampler must be uniform over the objects of "
    "the parent for every size and parameter tuple; the probability of descending to each "
    "tuple of child sizes and parameters is compared with the share of objects it accounts "
    "for. (2) Random specifications handed back by a search: the distribution of the sampler "
    "of the specification, computed through the samplers that are really wired between its "
    "rules (each memoised as an exact distribution), must be uniform on the brute force "
    "objects, and a size without objects must be refused with InvalidOperationError. (3) Specifications with "
    "few rules: objects of sizes up to a few hundred, drawn at once from a specification not "
    "used before, must be members of the class (by its definition) with the size and "
    "parameters asked for, without floating point draws. A case "
    "is non trivial when a distribution over at least two objects was observed; identity: "
    "signature of the rule, or start class and shape of the specification."
)
ASSUMPTIONS = [
    "the library draws through the random module (randint, choice, choices, shuffle, ...)",
    "exact distributions: at most 24 objects per size and parameter tuple, sizes up to 6",
    "large sizes: sizes times rules up to 1400, since the interpreter itself bounds the depth "
    "of calls (sampling fails from sizes of about 1000 on)",
]
QUICK = {"cases": 8000, "seconds": 400}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 40
NEED = {"nontrivial": 800, "distributions": 10000, "draw_sequences": 100000,
        "specs_sampled": 300, "refusals": 300, "form_path": 200, "form_equivalence": 100,
        "with_statistics": 500, "descents_compared": 10000, "pointed_specs": 80,
        "large_samples": 500, "deep_samples": 15}
MAX_LEAVES = 6000


class TooMany(Exception):
    """The enumeration was given up."""


def distribution(fn, obs, max_leaves=MAX_LEAVES):
    """{outcome: probability} of fn, which draws through the random source."""
    saved, floats = base.RSOURCE.handler, base.RSOURCE.float_draws
    res = {}
    prefix = []  # [choice, n]
    leaves = 0
    try:
        while True:
            pos = [0]
            prob = [Fraction(1)]

            def handler(n, pos=pos, prob=prob):
                if n <= 0:
                    raise ValueError("empty range for a draw")
                if pos[0] == len(prefix):
                    prefix.append([0, n])
                item = prefix[pos[0]]
                if item[1] != n:
                    raise TooMany("the sampler does not draw the same way twice")
                pos[0] += 1
                prob[0] /= n
                return item[0]

            base.RSOURCE.handler = handler
            out = fn()
            base.RSOURCE.handler = None
            leaves += 1
            res[out] = res.get(out, 0) + prob[0]
            if base.RSOURCE.float_draws != floats:
                raise Violation("the sampler draws floating point numbers")
            del prefix[pos[0]:]
            while prefix and prefix[-1][0] + 1 == prefix[-1][1]:
                prefix.pop()
            if not prefix:
                break
            prefix[-1][0] += 1
            if leaves > max_leaves:
                raise TooMany()
    finally:
        base.RSOURCE.handler = saved
    obs.count("draw_sequences", leaves)
    obs.count("distributions")
    return res


def draw(dist):
    """Draw from an exact distribution through the (outer) enumerating source."""
    items = list(dist.items())
    den = lcm(*(p.denominator for _, p in items))
    weights = [int(p * den) for _, p in items]
    k = weights[0]
    if all(w == k for w in weights):
        return items[base.RSOURCE.handler(len(items))][0]
    r = base.RSOURCE.handler(den)
    for (x, _), w in zip(items, weights):
        if r < w:
            return x
        r -= w
    raise AssertionError


def check_uniform(dist, objs, what):
    want = Fraction(1, len(objs))
    bad = {o: str(p) for o, p in dist.items() if o not in objs or p != want}
    missing = [o for o in objs if o not in dist]
    if bad or missing:
        raise Violation(f"{what}: should sample each of {len(objs)} objects with probability "
                        f"{want}; got {clip(bad)}, never {clip(missing)}")


def watch_rule(name, rule, obs, rng):
    obs.case.update(ruleforms.describe(name, rule))
    desc = str(ruleforms.describe(name, rule))
    kids = rule.children
    descents = []

    def sampler(i, c):
        def sample(n, **params):
            objs = [o for o in c.objects_of_size(n, **params)]
            descents[-1].append((i, n, tuple(params[k] for k in c.extra_parameters)))
            if not objs:
                raise Violation(f"{name}: samples child {i} {c!r} for size {n}, {params} which "
                                f"has no object; {desc}")
            return objs[base.RSOURCE.handler(len(objs))]
        return sample

    def rec(c):
        def count(n, **params):
            if set(params) != set(c.extra_parameters):
                raise Violation(f"{name}: asks {c!r} for the parameters {params}; {desc}")
            return oracles.true_terms(c, n)[tuple(params[k] for k in c.extra_parameters)]
        return count

    rule.subterms = tuple(
        (lambda n, c=c: oracles.true_terms(c, n)) for c in kids)
    rule.subsamplers = tuple(sampler(i, c) for i, c in enumerate(kids))
    rule.subrecs = tuple(rec(c) for c in kids)
    bound = ruleforms.size_bound(rule, 100, 6)
    names = rule.comb_class.extra_parameters
    maps = objwork.map_supported(rule)
    best = 0
    for n in range(bound + 1):
        truth = oracles.true_objects(rule.comb_class, n)
        keys = sorted(truth)
        rng.shuffle(keys)
        for params in keys[:6]:
            objs = truth[params]
            if len(objs) > 24:
                continue
            kw = base.keywords(names, params, rng)

            def sample():
                descents.append([])
                obj = rule.random_sample_object_of_size(n, **kw)
                return obj, tuple(sorted(descents.pop()))

            del descents[:]
            try:
                dist = distribution(sample, obs)
            except TooMany:
                obs.count("given_up")
                continue
            except NotImplementedError:
                if not objwork.needs_complement(rule):
                    raise
                obs.count("refused_complement")
                return
            marginal, ways = {}, {}
            for (obj, way), p in dist.items():
                marginal[obj] = marginal.get(obj, 0) + p
                ways[way] = ways.get(way, 0) + p
            check_uniform(marginal, objs, f"{name} size {n} {params}; {desc}")
            if maps:
                share = {}
                for obj in objs:
                    way = tuple(sorted(
                        (i, p.size(), c.get_parameters(p))
                        for i, (c, p) in enumerate(zip(kids, rule.forward_map(obj)))
                        if p is not None))
                    share[way] = share.get(way, 0) + Fraction(1, len(objs))
                check(share == ways, "{} size {} {}: probabilities of the descents {} instead of "
                      "{}; {}", name, n, params, ways, share, desc)
                obs.count("descents_compared", len(share))
            best = max(best, len(objs))
            if names:
                obs.count("with_statistics")
    obs.count("form_" + name.rstrip("0123456789 "))
    if best > 1:
        obs.nontrivial(ruleforms.signature(name, rule))
        obs.sample({**ruleforms.describe(name, rule), "largest support": best})


def wire(spec, obs, memo):
    """Replace the samplers wired into the rules by exact memoised ones."""
    for rule in list(spec):
        if not rule.children:
            continue
        rule.subsamplers = tuple(memoised(s, obs, memo) for s in rule.subsamplers)


def memoised(sampler, obs, memo):
    key0 = (getattr(sampler, "__self__", None), getattr(sampler, "__func__", sampler))

    def sample(n, **params):
        key = (id(key0[0]), key0[1], n, tuple(sorted(params.items())))
        if key not in memo:
            memo[key] = (distribution(lambda: sampler(n=n, **params), obs), key0)
        return draw(memo[key][0])

    return sample


def watch_spec(found, rng, obs):
    spec, start = found.spec, found.setup.start
    desc = specwork.describe_spec(spec)
    specwork.sanity_checked(spec, rng, obs)
    refuses = any(objwork.needs_complement(r) for r in spec.rules_dict.values())
    memo, inner = {}, {}

    def hook(strategy, comb_class, real):
        key = (repr(strategy.__dict__), comb_class)
        if key not in inner:
            saved, base.RSOURCE.handler = base.RSOURCE.handler, None
            try:
                inner[key] = real(comb_class)
                wire(inner[key], obs, memo)
            finally:
                base.RSOURCE.handler = saved
        return inner[key]

    base.SPEC_HOOK = hook
    # make all the rules that will be needed
    bound = oracles.bound_n(start, 100, 6)
    spec.get_terms(bound)
    wire(spec, obs, memo)
    names = start.extra_parameters
    best = 0
    for n in range(bound + 1):
        truth = oracles.true_objects(start, n)
        grid = sorted(truth)
        rng.shuffle(grid)
        del grid[5:]
        for _ in range(2):
            grid.append(tuple(rng.randint(0, n + 1) for _ in names))
        for params in grid:
            kw = base.keywords(names, params, rng)
            objs = truth.get(params)
            if not objs:
                try:
                    obj = spec.random_sample_object_of_size(n, **kw)
                except InvalidOperationError:
                    obs.count("refusals")
                else:
                    raise Violation(f"sampled {obj!r} of size {n} {params} although there is "
                                    f"no such object; {desc}")
                continue
            if len(objs) > 24:
                continue
            try:
                dist = distribution(lambda: spec.random_sample_object_of_size(n, **kw), obs)
            except TooMany:
                obs.count("given_up")
                continue
            except NotImplementedError:
                if not refuses:
                    raise
                obs.count("refused_complement")
                return
            check_uniform(dist, objs, f"size {n} {params}; {desc}")
            best = max(best, len(objs))
            if names:
                obs.count("with_statistics")
    obs.count("specs_sampled")
    if best > 1:
        obs.nontrivial((repr(start), specwork.features_of(spec)))
        obs.distinct("rule_kind_sets", specwork.features_of(spec))


def steps_of(rule):
    return len(rule.rules) if hasattr(rule, "rules") else 1


def slow(spec):
    """Whether a verification strategy of the universe samples by listing the objects."""
    return any(not rule.children and not rule.comb_class.is_atom() for rule in spec)


def watch_large(found, rng, obs):
    """Objects of large size, drawn at once from a specification that was not used before."""
    spec, start = found.spec, found.setup.start
    if not large.supported(start) or slow(spec):
        return
    if any(objwork.needs_complement(r) for r in spec.rules_dict.values()):
        return
    desc = specwork.describe_spec(spec)
    # as much depth as the interpreter has for a chain of calls
    rules = sum(steps_of(rule) for rule in spec)
    spare = {0: 1400, 1: 400, 2: 200}.get(len(start.stats), 100)
    top = min(rng.choice([40, 150, 400]), spare // rules)
    if isinstance(start, G):
        top = min(top, 60)
    if top < 15:
        return
    truth = large.terms(start, top)
    names = start.extra_parameters
    floats = base.RSOURCE.float_draws
    sizes = [n for n in range(top + 1) if any(truth[n].values())]
    if not sizes:
        return
    for n in [sizes[-1]] + rng.sample(sizes, min(len(sizes), 3)):
        keys = sorted(k for k, v in truth[n].items() if v)
        for params in rng.sample(keys, min(len(keys), 3)):
            obj = spec.random_sample_object_of_size(n, **base.keywords(names, params, rng))
            if not large.member(start, obj, n, params):
                raise Violation(f"sampled {clip(obj)} for size {n} and parameters {params}; "
                                f"{desc}")
            obs.count("large_samples")
    check(base.RSOURCE.float_draws == floats,
          "floating point numbers are drawn at size {}; {}", top, desc)
    obs.maximum("large_size", max(sizes))
    if max(sizes) * rules >= 1000:
        obs.count("deep_samples")


def small_spec(rng):
    """A setup leading to a specification with a handful of rules."""
    alphabet = rng.choice(["a", "ab", "ab", "abc"])
    patterns = [setups.random_word(rng, alphabet, 1, 2) for _ in range(rng.randint(0, 2))]
    stats = setups.random_stats(rng, alphabet, 2, 0.7)
    mode = rng.choice(["keep", "drop"])
    start = W("", patterns, alphabet, False, "", stats)
    pack = StrategyPack(
        initial_strats=[RemoveFront(mode)], inferral_strats=[],
        expansion_strats=[[Expand(mode)]], ver_strats=[StatAtom()], name="small")
    return setups.Setup(start, pack, "words", {})


def case(rng, index, obs):
    if rng.random() < 0.05:
        setup = small_spec(rng)
        for found in specwork.harvest(rng, obs, setup, rng.choice(setups.DBS), False,
                                      maxspecs=1, mode="auto"):
            watch_large(found, rng, obs)
        return
    if rng.random() < 0.05:
        start, spec = specbuild.pointed(rng)
        obs.case.update(start=repr(start), spec=specwork.describe_spec(spec))
        obs.count("pointed_specs")
        watch_spec(specwork.Found(setups.Setup(start, None, "", {}), "none", None, spec,
                                  "built"), rng, obs)
        return
    if rng.random() < 0.25:
        setup, db, ev = specwork.random_config(rng)
        for found in specwork.harvest(rng, obs, setup, db, ev, maxspecs=1):
            if rng.random() < 0.4:
                watch_large(found, rng, obs)
            watch_spec(found, rng, obs)
        return
    try:
        todo = ruleforms.random_forms(rng)
    except Discard:
        return
    for name, rule in todo:
        watch_rule(name, rule, obs, rng)
