"""C18: JSON round trips preserve specifications, rules, packs, strategies, bijections."""
import copy
import json
import pickle
import random
from typing import Generic, TypeVar

import sympy

from . import c12, objwork, oracles, packwork, ruleforms, setups, specbuild, specwork
from . import grammar as g
from . import words as w
from .runner import Discard, Violation, check, clip
from comb_spec_searcher import (
    AtomStrategy,
    CombinatorialSpecification,
    StrategyPack,
)
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.specification import AlreadyVerified
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import (
    AbstractStrategy,
    CartesianProductStrategy,
    EmptyStrategy,
    StrategyFactory,
)

RULE = (
    "A case is one of: a specification (direct, of a random search under any rule database, "
    "expanded) dumped to a JSON text, loaded, compared both ways with == before and after it "
    "was used, with an own deep comparison of the rules (form, classes, children, strategy "
    "kind and settings, indices, path steps), and by the counts, objects, truth of both "
    "against brute force and the equations; individual rules of every form with terms, "
    "objects and equations fed from brute force; packs of every universe, also derived by the "
    "pack's own methods; strategies and factories created directly, by from_dict, by a "
    "generic alias, copied, pickled or used before, compared pairwise: equal exactly when "
    "kind and settings are; bijections with their maps over all objects. A case is non "
    "trivial when a specification with at least three rules, a rule with children, a pack "
    "with at least four strategies or a bijection moving objects went through JSON; "
    "identity: the JSON text."
)
ASSUMPTIONS = [
    "classes and strategies of the universes have faithful to_jsonable and from_dict",
    "the strategy of a rule reproduces the children of the rule",
]
QUICK = {"cases": 8000, "seconds": 420}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 40
NEED = {"nontrivial": 2500, "specs": 1200, "rules_Rule": 200, "rules_EquivalenceRule": 100,
        "rules_EquivalencePathRule": 100, "rules_ReverseRule": 150, "rules_VerificationRule": 50,
        "specs_with_EquivalencePathRule": 100, "specs_with_ReverseRule": 20,
        "specs_with_empty_rules": 50, "specs_regrouped": 25, "packs": 500, "strategy_pairs_equal": 5000,
        "strategy_pairs_different": 20000, "bijections": 100, "counts": 10000, "bijections_pointed": 35,
        "specs_pointed": 35,
        "objects": 5000, "equations": 2000}

A = TypeVar("A")
B = TypeVar("B")


class GenExpand(w.Expand, Generic[A, B]):
    """A strategy which may be created through a generic alias."""


class GenFactor(g.Factor, Generic[A, B]):
    pass


class GenStatAtom(w.StatAtom, Generic[A, B]):
    pass


class GenVerifyPrefix(w.VerifyPrefix, Generic[A, B]):
    pass


class GenMixedFactory(w.MixedFactory, Generic[A]):
    pass


class LikeExpand(w.Expand):
    """Another kind with the same settings."""


def through_json(x):
    return json.loads(json.dumps(x.to_jsonable()))


# ------------------------------------------------------------------- rules, deep comparison
def key_of(s):
    """Kind and settings."""
    d = {k: v for k, v in s.__dict__.items() if k != "__orig_class__"}
    return (type(s), d)


def shape(rule):
    """All there is about a rule, as nested tuples comparing by value."""
    res = [type(rule), rule.comb_class, tuple(rule.children)]
    if isinstance(rule, EquivalencePathRule):
        res.append(tuple(shape(r) for r in rule.rules))
    elif isinstance(rule, EquivalenceRule):
        res += [rule.child_idx, shape(rule.original_rule)]
    elif isinstance(rule, ReverseRule):
        res += [rule.idx, shape(rule.original_rule)]
    else:
        res.append(key_of(rule.strategy))
    return tuple(res)


def same_rule(one, two, what):
    a, b = shape(one), shape(two)
    if a != b:
        raise Violation(f"{what}: rule {clip(a, 900)} became {clip(b, 900)}", "deep")
    if not (one == two and two == one) or one != two or two != one:
        raise Violation(f"{what}: {type(one).__name__} for {one.comb_class!r} with "
                        f"{type(one.strategy).__name__} does not compare equal", "eq_rule")
    if one.formal_step != two.formal_step:
        raise Violation(f"{what}: {one.formal_step!r} became {two.formal_step!r}", "formal")


def cheap(rule):
    """Whether the equation does not need another specification."""
    return not isinstance(rule, VerificationRule) or isinstance(
        rule.strategy, (AtomStrategy, EmptyStrategy, w.StatAtom)
    )


class Functions:
    """The same function for the same class, whatever the labels."""

    def __init__(self):
        self.index = {}

    def __call__(self, c):
        i = self.index.setdefault(c, len(self.index))
        args = [sympy.var("x")] + [sympy.var(k) for k in c.extra_parameters]
        return sympy.Function(f"G_{i}")(*args)


def equation(rule, functions):
    try:
        if isinstance(rule, VerificationRule):
            return rule.get_equation(functions, {})
        return rule.get_equation(functions)
    except NotImplementedError:
        return "not implemented"


def same_equations(one, two, functions, what, obs):
    a, b = equation(one, functions), equation(two, functions)
    if a != b:
        raise Violation(f"{what}: equation {a} became {b}", "equation")
    obs.count("equations")


def wire(rule):
    """The term and object providers of the children, from brute force."""
    rule.subterms = tuple(
        (lambda n, c=c: oracles.true_terms(c, n)) for c in rule.children
    )
    rule.subobjects = tuple(
        (lambda n, c=c: oracles.true_objects(c, n)) for c in rule.children
    )


def plain(objects):
    return {p: sorted(map(repr, objs)) for p, objs in objects.items() if objs}


# -------------------------------------------------------------------------------- the cases
def case_rule(rng, obs):
    if rng.random() < 0.12:
        c = ruleforms.random_class(rng, rng.choice(setups.FAMILIES))
        s = random_verification(rng, [c])
        try:
            forms = [("verification", s(c))]
            forms[0][1].children  # noqa: B018  # pylint: disable=pointless-statement
        except (StrategyDoesNotApply, AttributeError):
            raise Discard() from None
    else:
        forms = ruleforms.random_forms(rng, direct=False)
    for name, rule in forms:
        obs.case.update(ruleforms.describe(name, rule))
        text = json.dumps(rule.to_jsonable())
        new = AbstractRule.from_dict(json.loads(text))
        what = f"{name}"
        same_rule(rule, new, what)
        again = AbstractRule.from_dict(through_json(new))
        same_rule(rule, again, what + " twice")
        obs.count("rules_" + type(rule).__name__)
        if len(text) < 20000:
            check(json.loads(text) == through_json(new),
                  "{}: the JSON form of the loaded rule differs", name)
        if isinstance(rule, VerificationRule):
            for n in range(4):
                try:
                    one = oracles.nonzero(rule.get_terms(n))
                except (NotImplementedError, InvalidOperationError):
                    break
                two = oracles.nonzero(new.get_terms(n))
                check(one == two, "{}: terms {} became {}", name, one, two)
                obs.count("counts")
            continue
        functions = Functions()
        same_equations(rule, new, functions, what, obs)
        wire(rule)
        wire(new)
        for n in range(min(ruleforms.size_bound(rule, 80, 5), 5) + 1):
            try:
                one = oracles.nonzero(rule.get_terms(n))
            except NotImplementedError:
                break
            two = oracles.nonzero(new.get_terms(n))
            check(one == two, "{}: terms {} became {}", name, one, two)
            obs.count("counts")
            if n <= 4 and not objwork.needs_complement(rule):
                one, two = plain(rule.get_objects(n)), plain(new.get_objects(n))
                check(one == two, "{}: objects {} became {}", name, one, two)
                obs.count("objects", sum(map(len, one.values())))
        same_rule(rule, new, what + " after use")
        if rule.children:
            obs.nontrivial(text)
    obs.sample({"forms": [n for n, _ in forms], "rule": obs.case.get("parent")})


def same_spec(one, two, what):
    check(one.root == two.root, "{}: root {} became {}", what, one.root, two.root)
    if set(one.rules_dict) != set(two.rules_dict):
        raise Violation(
            f"{what}: classes with rules differ: lost "
            f"{clip(set(one.rules_dict) - set(two.rules_dict))}, new "
            f"{clip(set(two.rules_dict) - set(one.rules_dict))}", "classes")
    for c, rule in one.rules_dict.items():
        same_rule(rule, two.rules_dict[c], what)
    if not (one == two and two == one) or one != two or two != one:
        raise Violation(f"{what}: the specification does not compare equal", "eq_spec")


def a_spec(rng, obs):
    how = rng.random()
    if how < 0.45:
        start = rng.choice(specbuild.pair_of_classes(rng)[:2])
        if start.is_empty():
            raise Discard()
        for _ in range(3):
            try:
                return start, specbuild.build(
                    rng, start, specbuild.strategies(rng, start), flip=rng.choice([0, 0.5]))
            except Discard:
                continue
        raise Discard()
    setup, db, ev = specwork.random_config(rng)
    if rng.random() < 0.4:
        db = "forest_rev"
    found = list(specwork.harvest(rng, obs, setup, db, ev, limit=150, maxspecs=2))
    if not found:
        raise Discard()
    spec = rng.choice(found).spec
    if how > 0.9:
        try:
            with specwork.clock(rng):
                spec = spec.expand_verified()
            obs.count("specs_expanded")
        except Exception:  # pylint: disable=broad-except
            pass  # judged by C19
    return setup.start, spec


def regroup(rng, spec):
    """The same specification with its equivalence paths cut into shorter ones or single rules."""
    rules, cut = [], False
    for r in spec.rules_dict.values():
        steps = [r]
        if isinstance(r, EquivalencePathRule) and rng.random() < 0.8:
            steps, todo = [], list(r.rules)
            while todo:
                k = rng.randint(1, len(todo))
                part, todo = todo[:k], todo[k:]
                if k > 1 or rng.random() < 0.3:
                    steps.append(EquivalencePathRule(part))
                else:
                    steps.extend(part)
            cut = cut or len(steps) > 1 or steps[0] is r.rules[0]
        rules.extend(map(copy.copy, steps))
    return CombinatorialSpecification(spec.root, rules, group_equiv=False), cut


def use(spec, start, rng, obs):
    for n in range(rng.randint(0, 5)):
        try:
            spec.get_terms(n)
        except NotImplementedError:
            break
    if rng.random() < 0.3:
        str(spec)


def case_spec(rng, obs):
    random.seed(rng.random())
    if rng.random() < 0.05:
        start, spec = specbuild.pointed(rng)
        obs.count("specs_pointed")
    else:
        start, spec = a_spec(rng, obs)
    if rng.random() < 0.4:
        spec, cut = regroup(rng, spec)
        obs.count("specs_regrouped", int(cut))
    obs.case.update(start=repr(start), spec=specwork.describe_spec(spec))
    used = rng.random() < 0.5
    if used:
        use(spec, start, rng, obs)
    text = json.dumps(spec.to_jsonable())
    new = CombinatorialSpecification.from_dict(json.loads(text))
    same_spec(spec, new, "loaded")
    if rng.random() < 0.5:
        twice = CombinatorialSpecification.from_dict(through_json(new))
        same_spec(spec, twice, "loaded twice")
    # same behaviour
    supported = True
    nmax = min(oracles.bound_n(start, 200, 6), 6)
    for n in range(nmax + 1):
        try:
            one = oracles.nonzero(spec.get_terms(n))
        except NotImplementedError:
            supported = False
            try:
                new.get_terms(n)
            except NotImplementedError:
                pass
            else:
                raise Violation("only the loaded specification counts", "support")
            break
        two = oracles.nonzero(new.get_terms(n))
        check(one == two, "terms of size {}: {} became {}", n, one, two)
        check(two == oracles.nonzero(oracles.true_terms(start, n)),
              "terms of size {} of the loaded specification: {}", n, two)
        obs.count("counts")
    rules = list(spec.rules_dict.values())
    if supported and not any(objwork.needs_complement(r) for r in rules):
        for n in range(min(nmax, 4) + 1):
            try:
                one = plain(spec.get_objects(n))
            except NotImplementedError:
                break
            two = plain(new.get_objects(n))
            check(one == two, "objects of size {}: {} became {}", n, one, two)
            obs.count("objects", sum(map(len, one.values())))
    functions = Functions()
    for r in rules:
        if cheap(r):
            same_equations(r, new.rules_dict[r.comb_class], functions, "loaded", obs)
    if len(rules) < 12 and all(map(cheap, rules)) and rng.random() < 0.3:
        one, two = labelled(spec, functions), labelled(new, functions)
        check(one == two, "equations {} became {}", one, two)
    same_spec(spec, new, "after use")
    later = CombinatorialSpecification.from_dict(through_json(spec))
    same_spec(spec, later, "dumped after use")
    same_spec(new, later, "two loaded")
    obs.count("specs")
    for name in {type(r).__name__ for r in rules}:
        obs.count("specs_with_" + name)
    if any(isinstance(r.strategy, EmptyStrategy) for r in rules):
        obs.count("specs_with_empty_rules")
    if len(rules) >= 3:
        obs.nontrivial(text)
        obs.sample({"start": repr(start), "rules": len(rules), "bytes": len(text)})


def labelled(spec, functions):
    """The equations of the specification, functions named by class."""
    names = {}
    for c in list(spec.rules_dict):
        f = spec.get_function(c)
        names[f.func] = functions(c).func
    res = []
    for eq in spec.get_equations():
        for f, h in names.items():
            eq = eq.replace(f, h)
        res.append(eq)
    return sorted(map(str, res))


# ----------------------------------------------------------------------------------- packs
def same_pack(one, two, what):
    for name in ("initial_strats", "inferral_strats", "ver_strats", "symmetries"):
        a = [key_of(s) for s in getattr(one, name)]
        b = [key_of(s) for s in getattr(two, name)]
        check(a == b, "{}: {} {} became {}", what, name, a, b)
    a = [[key_of(s) for s in grp] for grp in one.expansion_strats]
    b = [[key_of(s) for s in grp] for grp in two.expansion_strats]
    check(a == b, "{}: expansion strategies {} became {}", what, a, b)
    check(one.name == two.name, "{}: name {!r} became {!r}", what, one.name, two.name)
    check(one.iterative is two.iterative, "{}: iterative {} became {}", what,
          one.iterative, two.iterative)
    if not (one == two and two == one) or one != two:
        raise Violation(f"{what}: the pack does not compare equal", "eq_pack")


def case_pack(rng, obs):
    setup = setups.random_setup(rng)
    start, pack = setup.start, setup.pack
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = random_strategy(rng)
        name = rng.choice(["", "more"])
        try:
            k = rng.randrange(6)
            if k == 0:
                pack = pack.add_initial(s, name, rng.random() < 0.5)
            elif k == 1:
                pack = pack.add_inferral(s, name)
            elif k == 2:
                pack = pack.add_expansion([s], rng.choice([None, 0]), name)
            elif k == 3:
                pack = pack.add_symmetry(s, name)
            elif k == 4:
                pack = pack.add_verification(
                    random_verification(rng, [start]), name,
                    rng.random() < 0.3, rng.random() < 0.5)
            else:
                pack = pack.remove_strategy(rng.choice(list(pack)))
        except (ValueError, IndexError):
            continue
    obs.case.update(pack=setups.repr_pack(pack))
    text = json.dumps(pack.to_jsonable())
    new = StrategyPack.from_dict(json.loads(text))
    same_pack(pack, new, "loaded")
    same_pack(pack, StrategyPack.from_dict(through_json(new)), "loaded twice")
    obs.count("packs")
    # the loaded strategies do the same
    for a, b in zip(pack, new):
        try:
            one = [shape(r) for r in packwork.apply_one(a, start)]
        except (AttributeError, TypeError, KeyError):
            continue  # a strategy of the other family
        two = [shape(r) for r in packwork.apply_one(b, start)]
        check(one == two, "{} on {}: rules {} became {}", a, start, one, two)
        obs.count("pack_strategies_applied")
        if isinstance(a, AbstractStrategy) and not a == b:
            raise Violation(f"{a!r} after use does not equal the loaded one", "eq_used")
    same_pack(pack, new, "after use")
    if len(list(pack)) >= 4:
        obs.nontrivial(text)
        obs.sample({"pack": clip(setups.repr_pack(pack), 400)})


# ------------------------------------------------------------------------------- strategies
MODES = setups.MODES


def settings_verification(rng, classes):
    k = rng.randrange(6)
    if k == 0:
        return AtomStrategy, (), {}
    if k == 1:
        return EmptyStrategy, (), {}
    if k == 2:
        return rng.choice([w.StatAtom, GenStatAtom]), (), {}
    if k == 3:
        return AlreadyVerified, (rng.sample(classes, rng.randint(1, len(classes))),), {}
    if k == 4:
        return rng.choice([w.VerifyPrefix, GenVerifyPrefix]), (), {
            "kind": "long", "arg": rng.randrange(3), "with_pack": rng.random() < 0.5,
            "ignore_parent": rng.random() < 0.5, "mode": rng.choice(MODES)}
    return g.VerifyNT, (), {"ignore_parent": rng.random() < 0.5}


def random_verification(rng, classes):
    while True:
        cls, args, kw = settings_verification(rng, classes)
        try:
            return cls(*args, **kw)
        except TypeError:
            continue


def random_strategy(rng):
    c = ruleforms.random_class(rng, rng.choice(setups.FAMILIES))
    return rng.choice(ruleforms.strategies_for(rng, c))


DEFAULTS = {"ignore_parent": False, "inferrable": True, "possibly_empty": True,
            "workable": True}
PRODUCT_DEFAULTS = {"ignore_parent": True, "inferrable": False, "possibly_empty": False,
                    "workable": True}
FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")


def random_flags(rng):
    return {f: rng.random() < 0.5 for f in FLAGS} if rng.random() < 0.5 else {}


def random_settings(rng, classes):
    """(class, args, keyword args) of a strategy or factory."""
    k = rng.randrange(6)
    if k <= 1:
        return settings_verification(rng, classes)
    if k == 2:
        return rng.choice([w.Expand, w.ExpandNE, GenExpand, LikeExpand]), (
            rng.choice(MODES[:2]), rng.randrange(2)), random_flags(rng)
    if k == 3:
        return rng.choice([g.Factor, GenFactor]), (
            rng.choice(MODES[:2]), rng.choice(["all", "first"]), rng.randrange(2)), random_flags(rng)
    if k == 4:
        return rng.choice([w.MixedFactory, GenMixedFactory, w.AddFrontFactory]), (), {
            "mode": rng.choice(MODES[:2]), "kind": rng.randrange(2)}
    return rng.choice([w.DropPatterns, w.DropLetter, w.DropReq, w.OneWay, w.Reverse,
                       g.SortSymbols, g.RotateSymbols, g.SymReverse]), (
        rng.choice(MODES[:2]),), {}


WAYS = ("direct", "alias", "json", "copy", "deepcopy", "pickle", "alias json", "json twice")


def create(cls, args, kw, way):
    if way.startswith("alias") and getattr(cls, "__parameters__", ()):
        # __parameters__ is not empty for generic classes only
        alias = cls[w.W] if len(cls.__parameters__) == 1 else cls[w.W, w.Word]
        s = alias(*args, **kw)
    else:
        s = cls(*args, **kw)
    if "json" in way:
        s = AbstractStrategy.from_dict(through_json(s))
    if way == "json twice":
        s = type(s).from_dict({
            k: v for k, v in through_json(s).items()
            if k not in ("class_module", "strategy_class")
        }) if type(s) not in (AtomStrategy, EmptyStrategy) else type(s).from_dict({})
    if way == "copy":
        s = copy.copy(s)
    elif way == "deepcopy":
        s = copy.deepcopy(s)
    elif way == "pickle":
        s = pickle.loads(pickle.dumps(s))
    return s


def applied(s, c):
    try:
        if isinstance(s, StrategyFactory):
            for x in s(c):
                if isinstance(x, AbstractRule):
                    x.strategy  # noqa: B018  # pylint: disable=pointless-statement
        else:
            rule = s(c)
            rule.children  # noqa: B018  # pylint: disable=pointless-statement
            if isinstance(rule, Rule):
                rule.constructor  # noqa: B018  # pylint: disable=pointless-statement
    except (StrategyDoesNotApply, AttributeError, TypeError, KeyError):
        pass  # a strategy of the other family


def case_strategies(rng, obs):
    classes = [ruleforms.random_class(rng, "words") for _ in range(2)]
    made = []
    base = [random_settings(rng, classes) for _ in range(rng.randint(2, 4))]
    for _ in range(rng.randint(4, 9)):
        cls, args, kw = rng.choice(base)
        way = rng.choice(WAYS)
        s = create(cls, args, kw, way)
        if kw.get("workable") is not None:
            usual = PRODUCT_DEFAULTS if issubclass(cls, CartesianProductStrategy) else DEFAULTS
            kw = {k: v for k, v in kw.items() if v is not usual.get(k)}
        ident = (cls, repr(sorted(map(repr, args[0])) if cls is AlreadyVerified else args),
                 sorted(kw.items()))
        if rng.random() < 0.3:
            applied(s, classes[0])
            way += " used"
        made.append((s, ident, way))
        check(type(s) is cls, "{} {} became a {}", cls, way, type(s))
    for a, ia, wa in made:
        for b, ib, wb in made:
            obs.case.update(one=f"{ia} {wa}", two=f"{ib} {wb}")
            want = ia == ib
            got = a == b
            if bool(got) is not want or bool(a != b) is want:
                raise Violation(f"{clip(ia)} ({wa}) == {clip(ib)} ({wb}) is {got}",
                                "eq_strategy")
            if want and isinstance(a, StrategyFactory):
                check(hash(a) == hash(b), "hashes of equal factories differ: {} {}", ia, ib)
            obs.count("strategy_pairs_equal" if want else "strategy_pairs_different")
    for s, i, way in made:
        if not isinstance(s, (AbstractStrategy, StrategyFactory)):
            continue
        new = AbstractStrategy.from_dict(through_json(s))
        check(key_of(new) == key_of(s), "{} ({}): settings {} became {}", i, way,
              key_of(s), key_of(new))
        check(through_json(new) == through_json(s) or isinstance(s, AlreadyVerified),
              "{} ({}): the JSON form of the loaded strategy differs", i, way)
    obs.count("strategies", len(made))


# -------------------------------------------------------------------------------- bijections
def with_data(rng, bij):
    """The same bijection with some data for the rules (which they here ignore)."""
    try:
        order = bij._get_order  # pylint: disable=protected-access
        pairs = sorted(order, key=repr)
    except (AttributeError, TypeError):
        return bij
    values = [0, 1, "x", [1, [2]], {"a": [True, None]}, 2.5]
    return Bijection(bij.domain, bij.codomain, order,
                     {p: rng.choice(values) for p in pairs if rng.random() < 0.7})


def observed(f, obj):
    """The image and the data the rules were given."""
    seen = []
    orig = Rule.indexed_backward_map

    def spy(self, objs, idx, data=None):
        seen.append((self.comb_class, data))
        return orig(self, objs, idx, data)

    Rule.indexed_backward_map = spy
    try:
        return f(obj), seen
    finally:
        Rule.indexed_backward_map = orig


def case_bijection(rng, obs):
    pointed = rng.random() < 0.2
    if pointed:
        a, b, s1, s2, how = specbuild.pointed_pair(rng)
    else:
        a, b, how = specbuild.pair_of_classes(rng)
        if a.is_empty() or b.is_empty():
            raise Discard()
        s1, s2 = c12.spec_of(rng, obs, a), c12.spec_of(rng, obs, b)
    obs.case.update(first=repr(a), second=repr(b), how=how)
    obs.case.update(spec1=specwork.describe_spec(s1), spec2=specwork.describe_spec(s2))
    bij = Bijection.construct(s1, s2)
    if bij is None:
        b, s2 = a, s1
        bij = Bijection.construct(s1, s1)
        if bij is None:
            raise Discard()
    if pointed:
        obs.count("bijections_pointed")
    elif rng.random() < 0.5:
        bij = with_data(rng, bij)
    text = json.dumps(bij.to_jsonable())
    new = Bijection.from_dict(json.loads(text))
    same_spec(bij.domain, new.domain, "domain of the loaded bijection")
    same_spec(bij.codomain, new.codomain, "codomain of the loaded bijection")
    twice = Bijection.from_dict(through_json(new))
    moved = 0
    for n in range(min(oracles.bound_n(a, 60, 6), oracles.bound_n(b, 60, 6)) + 1):
        for c, fs in ((a, (bij.map, new.map, twice.map)),
                      (b, (bij.inverse_map, new.inverse_map, twice.inverse_map))):
            for obj in sorted(c.objects_of_size(n), key=repr):
                images, data = zip(*(observed(f, obj) for f in fs))
                check(data[0] == data[1] == data[2], "{} of {}: the rules are given {}, by "
                      "the loaded bijection {}, {}", obj, c, *data)
                obs.count("data_handed_to_rules", sum(d is not None for _, d in data[0]))
                if images[0] != images[1] or images[0] != images[2]:
                    raise Violation(f"{obj!r} of {c!r} is sent to {images[0]!r}, by the "
                                    f"loaded bijection to {images[1]!r}, {images[2]!r}",
                                    "bijection")
                moved += 1
    obs.count("bijections")
    obs.count("bijection_images", moved)
    if moved >= 6:
        obs.nontrivial(text)


def case(rng, index, obs):
    k = rng.random()
    if k < 0.4:
        case_spec(rng, obs)
    elif k < 0.65:
        case_rule(rng, obs)
    elif k < 0.77:
        case_pack(rng, obs)
    elif k < 0.9:
        case_strategies(rng, obs)
    else:
        case_bijection(rng, obs)
