"""C14: default and memory-saving rule databases are observationally identical."""
import random

from . import num, oracles, setups, specwork
from .runner import Violation, check, clip
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
    StrategyDoesNotApply,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy

RULE = (
    "Every rule recorded by a search (words, grammars, numbered classes with table driven "
    "packs: factories, strategies that do not apply, foreign rules, symmetries, empty classes, "
    "one way and two way rules over the same classes) or by a random feed of rules is "
    "inserted in a default and in a memory-saving database linked to the same searcher. After "
    "every insertion the stored rules, their split in two stores, verified labels, "
    "equivalences, existence of a specification and memberships (stored, reversed, shuffled, "
    "extended, cut and unknown pairs) are compared with each other and with a model of what "
    "was inserted, and the strategies handed back are applied again. A case is non trivial "
    "when at least five rules were inserted; identity: the inserted rules."
)
ASSUMPTIONS = [
    "factories yield rules for other classes only when the class is one of the non empty "
    "children",
    "a rule whose strategy says it is not possibly_empty has no empty children",
]
QUICK = {"cases": 40000, "seconds": 400}
THOROUGH = {"cases": 1000000, "seconds": 800}
CASE_SECONDS = 30
TIMEOUT_VIOLATES = False
NEED = {"nontrivial": 8000, "insertions": 200000, "strategies_reapplied": 500000,
        "memberships": 200000, "member_yes": 20000, "with_specification": 2000,
        "reversed_memberships": 5000, "one_way_and_two_way": 100, "specs_compared": 300,
        "lockstep_packets": 2000}


def stored(db):
    return sorted(db)


def reproduces(db, classdb, store, key):
    """The strategy handed back gives this rule again."""
    start, ends = key
    parent = classdb.get_class(start)
    if parent.is_empty():
        return None
    strategy = store[key]
    try:
        rule = strategy(parent)
        kids = rule.children
    except StrategyDoesNotApply:
        raise Violation(f"{type(db).__name__}: {strategy!r}, handed back for {key}, does not "
                        f"apply to {parent!r}", "strategy") from None
    got = []
    for c in kids:
        if c.is_empty():
            continue
        check(c in classdb, "{}: {} gives the unknown class {} for {}", type(db).__name__,
              strategy, c, key)
        got.append(classdb.get_label(c))
    if tuple(sorted(got)) != tuple(ends):
        raise Violation(f"{type(db).__name__}: {strategy!r}, handed back for {key}, gives "
                        f"{start} -> {sorted(got)}", "strategy")
    return rule


class Mirror:
    """Feeds two databases and compares them."""

    def __init__(self, rng, obs, pruned):
        self.rng = rng
        self.obs = obs
        self.first = RuleDB()
        self.second = RuleDBForgetStrategy()
        self._add = self.first.add
        self.first.add = self.add
        self._has = self.first.has_specification
        self.first.has_specification = self.has_specification
        self.linked = False
        self.model = []
        self.p_spec = pruned
        self.p_strategy = rng.choice([0.05, 0.3])

    def link(self):
        if not self.linked:
            self.second.link_searcher(self.first.searcher)
            self.linked = True

    def add(self, start, ends, rule):
        self.link()
        self._add(start, ends, rule)
        self.second.add(start, ends, rule)
        classdb = self.first.classdb
        kept = tuple(sorted(
            e for e in ends
            if not (rule.possibly_empty and classdb.get_class(e).is_empty())))
        self.model.append((start, kept, rule.is_two_way()))
        self.obs.count("insertions")
        self.compare()

    def has_specification(self):
        """Both are asked the same."""
        self.link()
        x = self._has()
        y = self.second.has_specification()
        if x != y:
            self.fail(f"has_specification is {x} and {y}", "has_specification")
        return x

    def fail(self, msg, key=None):
        raise Violation(f"{msg}; inserted {clip(self.model, 1500)}", key)

    def compare(self, final=False):
        a, b, rng, obs = self.first, self.second, self.rng, self.obs
        if not self.model:
            return
        classdb = a.classdb
        sa, sb = stored(a), stored(b)
        if sa != sb:
            self.fail(f"stored rules differ: {sa} and {sb}", "stored")
        for x, y, name in ((a.rule_to_strategy, b.rule_to_strategy, "rules"),
                           (a.eqv_rule_to_strategy, b.eqv_rule_to_strategy, "equivalences")):
            if sorted(x) != sorted(y) or len(x) != len(y):
                self.fail(f"{name} differ: {sorted(x)} and {sorted(y)}", "stored")
        labels = sorted({s for s, _, _ in self.model} | {e for _, k, _ in self.model
                                                        for e in k})
        for label in labels:
            if a.is_verified(label) != b.is_verified(label):
                self.fail(f"is_verified({label}) differs", "is_verified")
        for _ in range(3):
            p, q = rng.choice(labels), rng.choice(labels)
            check(a.are_equivalent(p, q) == b.are_equivalent(p, q),
                  "are_equivalent({}, {}) differs", p, q)
        # memberships: what was inserted, as far as it may be stored in one direction
        inserted = {(s, k) for s, k, _ in self.model}
        two = {(s, k) for s, k, t in self.model if t and len(k) == 1}
        if any(not t and len(k) == 1 and ((s, k) in two or (k[0], (s,)) in two)
               for s, k, t in self.model):
            obs.count("one_way_and_two_way")
        queries = [rng.choice(self.model)[:2] for _ in range(4)]
        queries.append(self.model[-1][:2])
        for s, k in list(queries):
            k = list(k)
            rng.shuffle(k)
            queries.append((s, tuple(k)))
            if len(k) == 1:
                queries.append((k[0], (s,)))
                obs.count("reversed_memberships")
            queries.append((s, tuple(k) + (rng.choice(labels),)))
            if k:
                queries.append((s, tuple(k[1:])))
                queries.append((s, tuple(set(k))))
        queries.append((rng.choice(labels), (rng.choice(labels),)))
        queries.append((rng.choice(labels), ()))
        for s, k in queries:
            x, y = a.contains(s, k), b.contains(s, k)
            obs.count("memberships")
            obs.count("member_yes" if x else "member_no")
            if x != y:
                self.fail(f"contains({s}, {k}) is {x} and {y}", "contains")
            key = (s, tuple(sorted(k)))
            if x and key not in inserted:
                self.fail(f"contains({s}, {k}) but it was never inserted", "contains")
            if not x and key in inserted and not (
                len(k) == 1 and (k[0], (s,)) in two
            ):
                self.fail(f"contains({s}, {k}) is False but it was inserted", "contains")
            if x != (key in set(sa)):
                self.fail(f"contains({s}, {k}) is {x} but the stored rules are {sa}",
                          "contains")
        if final or rng.random() < self.p_strategy:
            keys = sa if final and len(sa) < 150 else rng.sample(sa, min(len(sa), 6))
            for key in keys:
                for db in (a, b):
                    for store in (db.rule_to_strategy, db.eqv_rule_to_strategy):
                        if key not in store:
                            check(store.get(key) is None, "strategy for a rule not stored")
                            continue
                        rule = reproduces(db, classdb, store, key)
                        obs.count("strategies_reapplied")
                        if store is db.eqv_rule_to_strategy and rule is not None:
                            check(rule.is_two_way(), "{} is handed back for the two way rule "
                                  "{}", rule.strategy, key)
        if final or rng.random() < self.p_spec:
            x = self.has_specification()
            uni = oracles.Universe([a.root_label], self.model)
            good = (uni.derivable(a.root_label) if a.iterative else uni.gfp())
            check(x == (uni.comp[a.root_label] in good), "has_specification is {}", x)
            obs.count("with_specification" if x else "without_specification")
            for label in labels:
                if a.is_verified(label) != b.is_verified(label):
                    self.fail(f"is_verified({label}) differs after pruning", "is_verified")


def both_specs(mirror, rng, obs):
    """The rules of a specification out of each."""
    searcher = mirror.first.searcher
    if len(mirror.model) > 200 or searcher.start_class.is_empty():
        return
    if not mirror.has_specification():
        return
    obs.count("specs_compared")
    seed = rng.random()
    for db in (mirror.first, mirror.second):
        random.seed(seed)
        rules = list(db.get_specification_rules(minimization_time_limit=0.001))
        lhs = {r.comb_class for r in rules}
        check(len(lhs) == len(rules), "two rules for a class")
        check(searcher.start_class in lhs, "no rule for the start class")
        for r in rules:
            for c in r.children:
                check(c in lhs or c.is_empty(), "{} has no rule", c)


def feeding(rng, obs):
    """Rules recorded in a random order."""
    start, pack, rows, empties = num.random_pack(rng, iterative=rng.random() < 0.2)
    obs.case.update(rows=rows, empties=empties)
    cls = type(start)
    mirror = Mirror(rng, obs, rng.choice([0, 0.2, 1]))
    searcher = CombinatorialSpecificationSearcher(start, pack, ruledb=mirror.first)
    order = list(rows) + [r for r in rows if rng.random() < 0.2]
    rng.shuffle(order)
    if rng.random() < 0.5:
        for i in rng.sample(range(15), 10):
            searcher.classdb.get_label(cls(i, i in empties))
    for row in order:
        rule = num.make_strategy(row, empties, cls is num.NumB)(cls(row["parent"], False))
        label = searcher.classdb.get_label(rule.comb_class)
        ends = tuple(searcher.classdb.get_label(c) for c in rule.children)
        mirror.first.add(label, ends, rule)
    mirror.compare(final=True)
    both_specs(mirror, rng, obs)
    return mirror


def searching(rng, obs):
    if rng.random() < 0.5:
        start, pack, rows, empties = num.random_pack(rng, iterative=rng.random() < 0.2)
        obs.case.update(rows=rows, empties=empties)
    else:
        setup = setups.random_setup(rng, features=setups.random_features(
            rng, {"foreign": 0.6, "oneway": 0.4, "equiv": 0.5}))
        start, pack = setup.start, setup.pack
        obs.case.update(setup.describe())
    random.seed(rng.random())
    mirror = Mirror(rng, obs, rng.choice([0, 0.05]))
    with specwork.clock(rng):
        searcher = CombinatorialSpecificationSearcher(
            start, pack, ruledb=mirror.first, expand_verified=rng.random() < 0.3)
        setups.limit_steps(searcher, rng.choice([10, 25]))
        try:
            if rng.random() < 0.5:
                for _ in range(4):
                    searcher.do_level()
                    mirror.compare()
            else:
                for _ in range(10):
                    try:
                        searcher.auto_search(max_expansion_time=rng.choice([0, 0.01, 1]))
                        break
                    except ExceededMaxtimeError:
                        mirror.compare()
        except (setups.Limit, NoMoreClassesToExpandError, SpecificationNotFound):
            pass
        mirror.compare(final=True)
        both_specs(mirror, rng, obs)
    return mirror


def lockstep(rng, obs):
    """Two searchers which only differ in their database."""
    if rng.random() < 0.5:
        start, pack, rows, empties = num.random_pack(rng, iterative=rng.random() < 0.2)
        obs.case.update(rows=rows, empties=empties)
    else:
        setup = setups.random_setup(rng)
        start, pack = setup.start, setup.pack
        obs.case.update(setup.describe())
    with specwork.clock(rng):
        pair = [CombinatorialSpecificationSearcher(start, pack, ruledb=db())
                for db in (RuleDB, RuleDBForgetStrategy)]
        for _ in range(rng.choice([10, 30])):
            packets = []
            for s in pair:
                try:
                    packets.append(next(s.classqueue))
                except StopIteration:
                    packets.append(None)
            check(packets[0] == packets[1], "the searches differ: {}", packets)
            if packets[0] is None:
                break
            obs.count("lockstep_packets")
            for s, packet in zip(pair, packets):
                setups.expand(s, packet)
            x, y = (s.ruledb for s in pair)
            check(stored(x) == stored(y), "stored rules differ: {} and {}", stored(x),
                  stored(y))
            i = 0
            while i in pair[0].classdb:
                check(i in pair[1].classdb
                      and pair[0].classdb.get_class(i) == pair[1].classdb.get_class(i),
                      "label {} differs", i)
                check(x.is_verified(i) == y.is_verified(i), "is_verified({}) differs", i)
                i += 1
            if rng.random() < 0.2:
                check(pair[0].has_specification() == pair[1].has_specification(),
                      "has_specification differs")


def case(rng, index, obs):
    r = rng.random()
    if r < 0.5:
        mirror = feeding(rng, obs)
    elif r < 0.85:
        mirror = searching(rng, obs)
    else:
        return lockstep(rng, obs)
    if len(mirror.model) >= 5:
        obs.nontrivial(mirror.model)
        obs.maximum("rules_inserted", len(mirror.model))
        obs.sample({"inserted": mirror.model[:15]})
    return None
