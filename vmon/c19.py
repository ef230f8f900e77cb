"""C19: expanding verified classes preserves the enumeration and finishes the job."""
import contextlib
import random
import zlib

from . import base, c18, lengths, oracles, packwork, setups, specbuild, specvalid, specwork
from . import grammar as g
from . import parts as universe_m
from . import words as w
from .runner import Discard, Violation, check, clip
from comb_spec_searcher import (
    CombinatorialSpecification,
    CombinatorialSpecificationSearcher,
    StrategyPack,
)
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    InvalidOperationError,
    SpecificationNotFound,
    StrategyDoesNotApply,
)
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalenceRule,
    ReverseRule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import StrategyFactory, VerificationStrategy

RULE = (
    "Specifications with verified classes that offer packs: found by random searches under "
    "every rule database, put together directly, and specifications in which random classes "
    "(the root, both sides and inner classes of equivalence paths) were given a verification "
    "rule in place of their rule, with packs that decompose directly, packs which refuse some "
    "classes so that reverse rules are needed, and packs whose own verification strategies "
    "offer further packs. The specification is fingerprinted (rule objects, deep form, "
    "labels, counts), possibly used, then expanded by expand_verified, or class by class with "
    "every choice of the options. The result is validated as in C01 and C02 against brute "
    "force with the rules of the original and of the packs offered, must have no verified "
    "class whose strategy offers a pack, must share no rule object with the original, and "
    "the original must have the same fingerprint, objects and counts, before and after the "
    "expanded one is used. SpecificationNotFound is a violation when the pack decomposes "
    "directly or when a search of its own for the class succeeds. A case is non trivial when "
    "an expansion replaced a class in a specification of at least two rules; identity: the "
    "rules before and after."
)
ASSUMPTIONS = [
    "the packs of verification strategies verify only with strategies whose packs are simpler",
    "the rules inside reverse and equivalence rules, which hold no state of a specification, "
    "are not counted as rule objects of the specification",
]
QUICK = {"cases": 6000, "seconds": 420}
THOROUGH = {"cases": 1000000, "seconds": 800}
CASE_SECONDS = 40
NEED = {"nontrivial": 1000, "expansions": 2000, "one_class": 600, "several_verified": 500,
        "path_to_verified": 200, "root_expanded": 400, "with_reverse_rules": 100,
        "reverse_sure": 100, "specs_base": 300, "specs_forget": 300, "specs_forest": 300,
        "specs_forest_rev": 300, "out_of_time": 100, "rules_kept": 5000}


# ------------------------------------------------------------------------------- strategies
class Picky(StrategyFactory):
    """A strategy which refuses some of the classes."""

    def __init__(self, inner, salt, percent, refused=()):
        self.inner = inner
        self.salt = salt
        self.percent = percent
        self.refused = tuple(refused)

    def refuses(self, c):
        if c in self.refused:
            return True
        h = zlib.crc32(f"{self.salt} {c!r}".encode())
        return h % 100 < self.percent

    def __call__(self, comb_class):
        if not self.refuses(comb_class):
            if isinstance(self.inner, StrategyFactory):
                yield from self.inner(comb_class)
            else:
                yield self.inner

    def __str__(self):
        return f"picky {self.inner}"

    def __repr__(self):
        return f"Picky({self.inner!r}, {self.salt}, {self.percent})"

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


class Given(VerificationStrategy):
    """Verifies the classes listed, and offers the pack listed (or none)."""

    def __init__(self, table, name, ignore_parent=True):
        self.table = tuple(table)  # pairs (class, pack or None)
        self.name = name
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        return any(c == comb_class for c, _ in self.table)

    def pack(self, comb_class):
        for c, pack in self.table:
            if c == comb_class and pack is not None:
                return pack
        raise InvalidOperationError("no pack")

    def formal_step(self):
        return f"given {self.name}"

    def get_terms(self, comb_class, n):
        return type(comb_class).get_terms(comb_class, n)

    def get_objects(self, comb_class, n):
        return type(comb_class).get_objects(comb_class, n)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        return random.choice(list(comb_class.objects_of_size(n, **parameters)))

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


class At(StrategyFactory):
    """When at one class, a rule for another one."""

    def __init__(self, strategy, parent, where):
        self.strategy = strategy
        self.parent = parent
        self.where = where

    def __call__(self, comb_class):
        if comb_class == self.where:
            yield self.strategy(self.parent)

    def __str__(self):
        return "rule of a parent"

    def __repr__(self):
        return f"At({self.strategy!r}, {self.parent!r}, {self.where!r})"

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


# ------------------------------------------------------------------------------ the budget
BUDGET = [None]
_NEXT = DefaultQueue.__next__


def _counted(self):
    if BUDGET[0] is not None:
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            raise setups.Limit()
    return _NEXT(self)


@contextlib.contextmanager
def budget(n):
    DefaultQueue.__next__ = _counted
    BUDGET[0] = n
    try:
        yield
    finally:
        BUDGET[0] = None
        DefaultQueue.__next__ = _NEXT


@contextlib.contextmanager
def recorded_packs(packs):
    """The packs verification rules were asked for."""
    orig = VerificationRule.pack

    def pack(self):
        res = orig(self)
        packs.append(res)
        return res

    VerificationRule.pack = pack
    try:
        yield
    finally:
        VerificationRule.pack = orig


# -------------------------------------------------------------------- random specifications
def complete_pack(rng, start, vers=()):
    """Always able to decompose."""
    stats = bool(start.stats)
    mode = lambda: rng.choice(setups.MODES) if stats else "keep"  # noqa: E731
    vers = list(vers) + [w.StatAtom()]
    if isinstance(start, w.W):
        first = [w.RemoveFront(mode(), rng.choice([2, 2, 3]), rng.randrange(3))]
        second = [w.Expand(mode(), rng.randrange(4))]
    elif isinstance(start, lengths.L):
        first = [lengths.LProduct(mode(), i) for i in (-1, *rng.sample(range(3), 1))]
        second = [lengths.LUnion(mode(), i) for i in (-1, *rng.sample(range(3), 1))]
    elif isinstance(start, universe_m.M):
        first = [universe_m.MProduct(mode(), i) for i in rng.choice([[0], [0, 1], [1, 0]])]
        second = [universe_m.MUnion(mode(), i) for i in rng.choice([[0], [0, 1], [2, 0]])]
    else:
        first = [g.Factor(mode(), rng.choice(["all", "first", "last"]), rng.randrange(3)),
                 g.Unwrap(mode())]
        second = [g.AltSplit(mode(), rng.choice(["all", "binary", "last"]))]
    if rng.random() < 0.3:
        first, second = [], first + second
    rng.shuffle(vers)
    return StrategyPack(initial_strats=first, inferral_strats=[], expansion_strats=[second],
                        ver_strats=vers, name="complete pack")


def picky_pack(rng, pack, refused=()):
    salt = rng.randrange(10**6)
    percent = rng.choice([0, 10, 25, 40])

    def wrap(s):
        return Picky(s, salt, percent, refused) if rng.random() < 0.9 else s

    return StrategyPack(
        initial_strats=[wrap(s) for s in pack.initial_strats],
        inferral_strats=pack.inferral_strats,
        expansion_strats=[[wrap(s) for s in group] for group in pack.expansion_strats],
        ver_strats=pack.ver_strats, symmetries=pack.symmetries, iterative=False,
        name="picky pack")


def flat_rules(spec):
    """The rules with the paths taken apart."""
    return {r.comb_class: r for x in spec.rules_dict.values() for r in specvalid.steps(x)}


def with_given(rng, spec, strategies_for):
    """
    The specification with verification rules for some classes. strategies_for(classes) gives
    the strategy.
    """
    rules = flat_rules(spec)
    pool = [c for c, r in rules.items()
            if not isinstance(r, VerificationRule) and not c.is_empty() and not c.is_atom()]
    if not pool:
        raise Discard()
    inner = [c for c in pool if rules[c].is_equivalence()]
    k = min(len(pool), rng.choice([1, 1, 2, 2, 3, 5]))
    chosen = rng.sample(pool, k)
    if inner and rng.random() < 0.5:
        chosen.append(rng.choice(inner))
        # what comes after an equivalence
        if rng.random() < 0.5:
            nxt = [c for r in chosen if rules[r].is_equivalence() for c in rules[r].children
                   if c in pool]
            chosen += nxt[:1]
    if len(rules) > 3 and rng.random() < 0.8:
        chosen = [c for c in chosen if c != spec.root] or chosen
    chosen = sorted(set(chosen), key=repr)
    strat = strategies_for(chosen)
    for c in chosen:
        rules[c] = strat(c)
    need = oracles.reachable({c: r.children for c, r in rules.items()}, spec.root)
    left = [r for c, r in rules.items() if c in need]
    rng.shuffle(left)
    return CombinatorialSpecification(spec.root, left), strat


def needs_reverse(rng, obs):
    """
    A specification with a verified class whose pack does not decompose it, but gives a rule
    in which it is one of the children; the parent of that rule is in the specification.
    """
    start = setups.random_start(rng, p_none=0.6, words=0.6)
    spec = specbuild.build(rng, start, specbuild.strategies(rng, start))
    rules = flat_rules(spec)
    succ = {c: r.children for c, r in rules.items()}
    pairs = []
    for p, r in rules.items():
        if p == start or r.is_equivalence() or not r.is_reversible() or not r.children:
            continue
        cut = {c: (() if c == p else kids) for c, kids in succ.items()}
        seen = oracles.reachable(cut, start)
        pairs += [(p, x) for x in r.children if x in seen and p in seen and x in rules
                  and not x.is_atom() and not x.is_empty()]
    if not pairs:
        raise Discard()
    p, x = rng.choice(pairs)
    complete = complete_pack(rng, start)
    refuse = lambda s: Picky(s, 0, 0, [x])  # noqa: E731
    at = At(rules[p].strategy, p, x)
    initial = [refuse(s) for s in complete.initial_strats]
    expansion = [[refuse(s) for s in group] for group in complete.expansion_strats]
    rng.choice([initial] + expansion).append(at)
    pack = StrategyPack(initial_strats=initial, inferral_strats=[],
                        expansion_strats=expansion, ver_strats=complete.ver_strats,
                        name="needs reverse")
    strat = Given([(p, None), (x, pack)], "reverse", rng.random() < 0.5)
    parent_rule = rules[p]
    rules[p], rules[x] = strat(p), strat(x)
    need = oracles.reachable({c: r.children for c, r in rules.items()}, start)
    if p not in need or x not in need:
        raise Discard()
    new = CombinatorialSpecification(start, [r for c, r in rules.items() if c in need])
    # is there a productive way to expand it?
    known = {c: r for c, r in rules.items() if c in need}
    known[x] = parent_rule.to_reverse_rule(parent_rule.children.index(x))
    todo = list(known[x].children)
    order = list(complete.initial_strats) + [s for grp in complete.expansion_strats for s in grp]
    while todo and len(known) < 200:
        c = todo.pop()
        if c in known or c.is_empty():
            continue
        options = [w.StatAtom()] if c.is_atom() else order
        for s in options:
            rule = specbuild.ruleforms.apply(s, c)
            if rule is not None:
                known[c] = rule
                todo.extend(rule.children)
                break
    triples = oracles.spec_forest_rules(known.values())
    triples += [(k, (), ()) for _, kids, _ in triples for k in kids if k.is_empty()]
    sure = not todo and oracles.lfp_terms(triples)[start] == oracles.INF
    obs.count("reverse_sure", sure)
    packs = [StrategyPack(initial_strats=[r.strategy for r in rules.values()
                                          if not isinstance(r, VerificationRule)],
                          inferral_strats=[], expansion_strats=[],
                          ver_strats=[strat] + [r.strategy for r in rules.values()
                                                if isinstance(r, VerificationRule)],
                          name="direct")]
    return new, start, packs, sure, "reverse"


def random_spec(rng, obs):
    """(specification, start, packs its rules come from, the sure packs, how)"""
    how = rng.choice(["search", "search", "direct", "given", "given", "given", "picky",
                      "picky", "reverse", "reverse"])
    if how == "reverse":
        for _ in range(4):
            try:
                return needs_reverse(rng, obs)
            except Discard:
                pass
        raise Discard()
    if how in ("search", "given", "picky"):
        feats = setups.random_features(rng)
        if how == "search":
            feats |= {"verify", "verpack"}
        if how == "picky":
            feats |= {"foreign"} if rng.random() < 0.7 else {"mixed"}
            feats.discard("iterative")
        setup = setups.random_setup(rng, features=feats, p_nostat=0.6)
        db = rng.choice(setups.DBS)
        if how == "picky":
            setup.pack = picky_pack(rng, setup.pack)
            db = rng.choice(["forest_rev", "forest_rev", "forest"])
        found = list(specwork.harvest(rng, obs, setup, db, rng.random() < 0.3, limit=150,
                                      maxspecs=1, mode="auto"))
        if not found:
            raise Discard()
        spec, start, packs = found[0].spec, setup.start, [setup.pack]
    else:
        start = setups.random_start(rng)
        kinds = strategies_with_packs(rng, start)
        used = []

        def verify(c):
            for s in kinds:
                if c != start and s.verified(c) and rng.random() < 0.7:
                    return s
            return None

        strats = specbuild.strategies(rng, start)
        spec = specbuild.build(rng, start, strats, verify=verify,
                               flip=rng.choice([0, 0, 0.4]))
        packs = [StrategyPack(initial_strats=strats, inferral_strats=[], expansion_strats=[],
                              ver_strats=kinds + [w.StatAtom(), specbuild.AtomStrategy()],
                              name="direct")]
        del used
    sure = how in ("search", "direct")
    if how in ("given", "picky"):
        setup_pack = packs[0]
        depth = rng.choice([0, 0, 1])

        def strategies_for(chosen):
            vers = []
            if depth:
                # classes with a pack of their own, met in the expansion of the others
                more = [c for r in flat_rules(spec).values() for c in r.children
                        if not c.is_empty() and not c.is_atom() and c not in chosen
                        and c != start]
                more = sorted(set(more), key=repr)
                rng.shuffle(more)
                table = [(c, None if rng.random() < 0.2 else complete_pack(rng, start))
                         for c in more[:2]]
                vers = [Given(table, "inner", rng.random() < 0.5)]
            table = []
            for c in chosen:
                k = rng.random()
                if k < 0.1:
                    table.append((c, None))
                elif how == "given" and k < 0.7:
                    table.append((c, complete_pack(rng, start, vers)))
                    continue
                elif how == "given" and k < 0.85:
                    pack = complete_pack(rng, start, vers)
                    table.append((c, picky_pack(rng, pack, [c])))
                elif any(s.verified(c) for s in setup_pack.ver_strats):
                    table.append((c, complete_pack(rng, start, vers)))
                else:
                    pack = setup_pack
                    if not any(isinstance(s, (w.VerifyPrefix, g.VerifyNT, lengths.LVerify))
                               for s in pack.ver_strats):
                        for v in vers:
                            pack = pack.add_verification(v)
                    table.append((c, pack))
            return Given(table, "outer", rng.random() < 0.5)

        spec, strat = with_given(rng, spec, strategies_for)
        packs.append(StrategyPack(initial_strats=[], inferral_strats=[], expansion_strats=[],
                                  ver_strats=[strat], name="given"))
        sure = all(p is None or p.name == "complete pack" for _, p in strat.table)
    return spec, start, packs, sure, how


def strategies_with_packs(rng, start):
    stats = bool(start.stats)
    mode = rng.choice(setups.MODES) if stats else "keep"
    if isinstance(start, w.W):
        res = [w.VerifyPrefix("long", rng.randint(1, 3), rng.random() < 0.9, rng.random() < 0.5,
                              mode)]
        kind = rng.choice(["avoid", "contain"])
        patt = setups.random_word(rng, start.alphabet, 1, 2)
        if start.patterns and rng.random() < 0.6:
            patt = rng.choice(sorted(start.patterns))
        res.append(w.VerifyPrefix(kind, patt, True, rng.random() < 0.5, mode,
                                  nested=rng.random() < 0.5))
        return res
    if isinstance(start, lengths.L):
        return [lengths.LVerify(rng.randrange(10**4), rng.random() < 0.9, rng.random() < 0.5,
                                mode) for _ in range(2)]
    if isinstance(start, universe_m.M):
        return [universe_m.MVerify(rng.randrange(10**4), rng.random() < 0.9,
                                   rng.random() < 0.5, mode) for _ in range(2)]
    nts = [i for i in range(len(start.gr)) if rng.random() < 0.6] or [0]
    inner = [i for i in nts if rng.random() < 0.4][: len(nts) - 1]
    return [g.VerifyNT(nts, rng.random() < 0.9, rng.random() < 0.5, mode,
                       seqs=rng.random() < 0.5, inner=inner)]


# ---------------------------------------------------------------------------- the monitors
def expandable(spec):
    """The verified classes that offer a pack, worked out from the strategies."""
    res = []
    for c, rule in spec.rules_dict.items():
        if isinstance(rule, VerificationRule):
            try:
                rule.strategy.pack(c)
            except InvalidOperationError:
                continue
            res.append(c)
    return res


def objects_of(spec):
    """Every rule object of the specification, with the steps of its paths."""
    res = {}
    for rule in list(spec.rules_dict.values()):
        res[id(rule)] = rule
        for r in specvalid.steps(rule):
            res[id(r)] = r
    return res


class Fingerprint:
    """What may not change in a specification."""

    def __init__(self, spec, upto):
        self.spec = spec
        self.rules = {c: (r, [(s, c18.shape(s)) for s in specvalid.steps(r)], c18.shape(r))
                      for c, r in spec.rules_dict.items()}
        self.root = spec.root
        self.labels = {c: spec.get_label(c) for c in spec.rules_dict}
        self.counts = [oracles.nonzero(spec.get_terms(n)) for n in range(upto)]

    def compare(self, what):
        spec = self.spec
        check(spec.root == self.root, "{}: the root of the original changed", what)
        extra = [c for c in spec.rules_dict if c not in self.rules and not c.is_empty()]
        check(not extra, "{}: the original has new rules for {}", what, extra)
        for c, (rule, parts, shape) in self.rules.items():
            now = spec.rules_dict.get(c)
            check(now is rule, "{}: the original has another rule object for {}", what, c)
            check([id(s) for s in specvalid.steps(now)] == [id(s) for s, _ in parts],
                  "{}: the original has other steps in the path for {}", what, c)
            check(c18.shape(now) == shape and
                  all(c18.shape(s) == t for s, t in parts),
                  "{}: a rule of the original changed: {} is now {}", what, shape,
                  c18.shape(now))
            check(spec.get_label(c) == self.labels[c], "{}: label of {} changed", what, c)
        for n, terms in enumerate(self.counts):
            got = oracles.nonzero(spec.get_terms(n))
            check(got == terms, "{}: terms of size {} of the original were {} and are {}",
                  what, n, terms, got)


def judge_original(spec, start, rng, obs, what):
    """It is still usable."""
    specwork.check_counts(spec, start, rng, obs, 200, 7)
    for n in range(4):
        truth = oracles.true_objects(start, n)
        try:
            got = {p: list(o) for p, o in spec.root_rule.get_objects(n).items() if o}
        except NotImplementedError:
            obs.count("no_objects")
            return
        check({p: sorted(map(repr, o)) for p, o in got.items()}
              == {p: sorted(map(repr, o)) for p, o in truth.items()},
              "{}: objects of size {} of the original: {} instead of {}", what, n, got, truth)
        if sum(map(len, truth.values())) > 60:
            break


def alone(rng, comb_class, pack, spec):
    """Whether a search for the class alone with reverse rules succeeds."""
    del spec
    searcher = CombinatorialSpecificationSearcher(
        comb_class, pack, ruledb=RuleDBForest(reverse=True), expand_verified=True)
    with budget(400), base.fake_clock(0.01):
        try:
            searcher.auto_search(perc=100)
        except (SpecificationNotFound, setups.Limit):
            return False
    return True


def judge(new, old, start, packs, rng, obs, complete=True):
    """The specification after an expansion."""
    check(new.root == start, "the start class became {}", new.root)
    before = {(type(base).__name__, base.comb_class, tuple(base.children),
               packwork.settings_repr(base.strategy))
              for r in old.rules_dict.values() for s in specvalid.steps(r)
              for base in [specvalid.base_rule(s)]}
    specvalid.validate(new, start, [Kept(before)] + [packwork.PackRules(p) for p in packs], obs)
    specwork.check_counts(new, start, rng, obs, 200, 7)
    shared = set(objects_of(new)) & set(objects_of(old))
    if shared:
        rule = objects_of(new)[min(shared)]
        raise Violation(f"the rule object for {rule.comb_class!r} ({type(rule).__name__}) is "
                        f"shared with the original", "shared")
    if complete:
        left = expandable(new)
        check(not left, "verified classes that offer a pack are left: {}", left)
        check(not list(new.unexpanded_verified_classes()),
              "unexpanded_verified_classes is not empty")
    else:
        check(sorted(map(repr, expandable(new)))
              == sorted(map(repr, new.unexpanded_verified_classes())),
              "unexpanded_verified_classes gives {}, these offer a pack: {}",
              list(new.unexpanded_verified_classes()), expandable(new))


class Kept:
    """The rules of the original, whatever gave them."""

    def __init__(self, rules):
        self.known = rules

    def genuine(self, strategy, comb_class, children):
        return any((n, comb_class, tuple(children), packwork.settings_repr(strategy))
                   in self.known for n in ("Rule", "VerificationRule"))

    def anywhere(self, strategy, comb_class, children, classes):
        return self.genuine(strategy, comb_class, children)


def use(spec, rng):
    """Calls which fill the caches of a specification."""
    for _ in range(rng.randint(0, 3)):
        k = rng.randrange(3)
        n = rng.randint(0, 5)
        if k == 0:
            spec.get_terms(n)
        elif k == 1 and sum(spec.get_terms(n).values()) < 60:
            try:
                spec.root_rule.get_objects(n)
            except NotImplementedError:
                pass
        else:
            rule = rng.choice(list(spec.rules_dict.values()))
            rule.count_objects_of_size(n=min(n, 4), **{
                p: rng.randint(0, n) for p in rule.comb_class.extra_parameters})


def case(rng, index, obs):
    spec, start, packs, sure, how = random_spec(rng, obs)
    obs.case.update(how=how, start=repr(start), spec=specwork.describe_spec(spec))
    todo = expandable(spec)
    check(sorted(map(repr, todo)) == sorted(map(repr, spec.unexpanded_verified_classes())),
          "unexpanded_verified_classes gives {}, these offer a pack: {}",
          list(spec.unexpanded_verified_classes()), todo)
    if not todo and rng.random() < 0.9:
        raise Discard()
    obs.count("specs_" + how)
    if rng.random() < 0.5:
        use(spec, rng)
    mark = Fingerprint(spec, rng.choice([0, 0, 3, 6]))
    random.seed(rng.random())
    for turn in range(rng.choice([1, 1, 1, 2])):
        packs_used = list(packs)
        direct = bool(todo) and rng.random() < 0.3
        try:
            with budget(1500), specwork.clock(rng), recorded_packs(packs_used):
                if direct:
                    new = expand_one(rng, spec, todo, packs_used, obs)
                else:
                    new = spec.expand_verified()
        except setups.Limit:
            obs.count("given_up")
            mark.compare("after an expansion given up")
            return
        except ExceededMaxtimeError:
            check(direct, "out of time without a limit")
            obs.count("out_of_time")
            mark.compare("after an expansion out of time")
            continue
        except SpecificationNotFound:
            obs.count("not_found")
            mark.compare("after an expansion that failed")
            if not direct:
                check(not sure, "no expansion found although the packs decompose directly")
                able = [c for c in todo
                        if alone(rng, c, spec.rules_dict[c].strategy.pack(c), spec)]
                check(set(able) != set(todo) or nested(spec, todo),
                      "no expansion found although each of {} has a specification of its own",
                      todo)
            judge_original(spec, start, rng, obs, "after an expansion that failed")
            return
        if not todo:
            obs.count("nothing_to_expand")
            specwork.check_counts(new, start, rng, obs, 200, 7)
            mark.compare("nothing to expand")
            return
        if rng.random() < 0.5:
            mark.compare("after the expansion")
        if rng.random() < 0.5:
            judge_original(spec, start, rng, obs, "after the expansion")
        if rng.random() < 0.3:
            # taking turns
            for n in range(5):
                for s in rng.sample([spec, new], 2):
                    got = oracles.nonzero(s.get_terms(n))
                    truth = oracles.nonzero(oracles.true_terms(start, n))
                    check(got == truth, "taking turns, size {}: {} instead of {}", n, got,
                          truth)
        judge(new, spec, start, packs_used, rng, obs, complete=not direct)
        mark.compare("after the expanded one was used")
        judge_original(spec, start, rng, obs, "after the expanded one was used")
        statistics(spec, new, todo, direct, obs)
        if len(spec.rules_dict) > 1:
            obs.nontrivial((specwork.describe_spec(spec), specwork.describe_spec(new)))
        obs.sample({"start": repr(start), "how": how, "expanded": [repr(c) for c in todo],
                    "before": specwork.describe_spec(spec)[:500],
                    "after": specwork.describe_spec(new)[:500]})


def nested(spec, todo):
    """Whether the packs offered verify by strategies that offer packs."""
    for c in todo:
        for s in spec.rules_dict[c].strategy.pack(c).ver_strats:
            if isinstance(s, (Given, w.VerifyPrefix, g.VerifyNT, lengths.LVerify)):
                return True
    return False


def expand_one(rng, spec, todo, packs_used, obs):
    c = rng.choice(todo)
    pack = spec.rules_dict[c].strategy.pack(c)
    packs_used.append(pack)
    obs.count("one_class")
    limit = rng.choice([None, None, 0.5, 0])
    arg = spec.get_label(c) if rng.random() < 0.5 else c
    new = spec.expand_comb_class(arg, pack, rng.random() < 0.5, rng.random() < 0.5, limit)
    rule = new.rules_dict.get(c)
    check(rule is None or type(rule.strategy) is not type(spec.rules_dict[c].strategy)
          or not isinstance(rule, VerificationRule)
          or any(s == rule.strategy for s in pack.ver_strats),
          "the class expanded has the same rule: {}", c)
    return new


def statistics(spec, new, todo, direct, obs):
    obs.count("expansions")
    obs.count("expansions_direct", direct)
    obs.count("several_verified", len(todo) > 1)
    obs.maximum("verified_classes", len(todo))
    obs.count("root_expanded", spec.root in todo)
    paths = [r for r in spec.rules_dict.values() if len(specvalid.steps(r)) > 0
             and type(r).__name__ == "EquivalencePathRule"]
    obs.count("path_to_verified", any(p.children[0] in todo for p in paths))
    old = {c18.shape(s)[:3] for r in spec.rules_dict.values() for s in specvalid.steps(r)}
    fresh = [s for r in new.rules_dict.values() for s in specvalid.steps(r)
             if c18.shape(s)[:3] not in old]
    obs.count("with_reverse_rules", any(
        isinstance(s, ReverseRule) or (isinstance(s, EquivalenceRule)
                                       and isinstance(s.original_rule, ReverseRule))
        for s in fresh))
    obs.count("with_paths", any(type(r).__name__ == "EquivalencePathRule"
                                for r in new.rules_dict.values()))
    kept = {c for c in spec.rules_dict if c in new.rules_dict
            and c18.shape(spec.rules_dict[c])[:3] == c18.shape(new.rules_dict[c])[:3]}
    obs.count("rules_kept", len(kept))
