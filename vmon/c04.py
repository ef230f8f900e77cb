"""C04: the rule universe built by the searcher is faithful to the strategies."""
import random
from collections import Counter

from . import num, packwork, setups, specwork
from .runner import Violation, check, clip
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.strategies.strategy import EmptyStrategy

RULE = (
    "Random searches over words, grammars (plain and compressed storage) and numbered classes "
    "with table driven packs (strategies and factories that do not apply, foreign rules, "
    "symmetries, inferral, flags, empty classes), every rule database, driven level by level, "
    "packet by packet or by interrupted auto_search. A recorder on the rule database checks "
    "every rule when it is recorded: labels against the classes, strategy re-applied to the "
    "class of the parent label, existence in what the pack produces by an independent "
    "replay. At random moments and at the end the content of the database is compared with "
    "the recorded rules with the truly empty children removed, and the labels are compared "
    "with a dictionary from classes to labels. A case is non trivial when at least five rules "
    "were recorded; identity: the recorded rules."
)
ASSUMPTIONS = [
    "factories yield rules for other classes only when the class is one of the children",
    "a rule whose strategy says it is not possibly_empty has no empty children",
]
QUICK = {"cases": 40000, "seconds": 400}
THOROUGH = {"cases": 1000000, "seconds": 800}
CASE_SECONDS = 30
TIMEOUT_VIOLATES = False
NEED = {"nontrivial": 2000, "rules_checked": 100000, "empty_children_dropped": 1000,
        "empty_rules": 100, "foreign_rules": 200, "not_applicable_seen": 2000,
        "stores_compared": 5000, "symmetry_rules": 300, "verification_rules": 2000,
        "compressed_cases": 1000, "reverse_keys": 500,
        "rules_told": 10000}


class Recorder:
    """Sits on a rule database and judges what is recorded."""

    def __init__(self, ruledb, pack, obs):
        self.db = ruledb
        self.obs = obs
        self.replay = packwork.PackRules(pack)
        self.pack = pack
        self.rules = []
        self.labels = {}
        self.unsure = []
        self._add = ruledb.add
        ruledb.add = self.add
        self.keys = Counter()
        self.want_keys = Counter()
        if hasattr(ruledb, "table_method"):
            table = ruledb.table_method
            self._key = table.add_rule_key
            table.add_rule_key = self.key

    def key(self, key):
        self.keys[(key.parent, tuple(key.children), tuple(key.shifts))] += 1
        return self._key(key)

    def label(self, comb_class, label):
        if self.labels.setdefault(comb_class, label) != label:
            raise Violation(f"{comb_class!r} has labels {label} and {self.labels[comb_class]}")

    def add(self, start, ends, rule):
        obs, db, classdb = self.obs, self.db, self.db.classdb
        what = f"rule {rule.comb_class!r} -> {[repr(c) for c in rule.children]} of " \
               f"{rule.strategy!r} recorded as {start} -> {ends}"
        obs.count("rules_checked")
        parent, children = rule.comb_class, tuple(rule.children)
        if classdb.get_class(start) != parent:
            raise Violation(f"{what}: label {start} is {classdb.get_class(start)!r}")
        check(len(ends) == len(children), "{}: {} children", what, len(children))
        for end, child in zip(ends, children):
            if classdb.get_class(end) != child:
                raise Violation(f"{what}: label {end} is {classdb.get_class(end)!r}")
            self.label(child, end)
        self.label(parent, start)
        if not packwork.applies(rule.strategy, parent, children):
            raise Violation(f"{what}: the strategy does not give that rule", "genuine")
        if isinstance(rule.strategy, EmptyStrategy):
            obs.count("empty_rules")
            check(parent.is_empty(), "{}: the class is not empty", what)
        elif not self.replay.genuine(rule.strategy, parent, children):
            obs.count("foreign_rules")
            self.unsure.append((what, rule.strategy, parent, children))
        if not children:
            obs.count("verification_rules")
        if any(s == rule.strategy for s in self.pack.symmetries):
            obs.count("symmetry_rules")
        if len(children) == 1 and children[0] == parent:
            raise Violation(f"{what}: a class on its own")
        kept = tuple(sorted(
            end for end, child in zip(ends, children)
            if not (rule.possibly_empty and child.is_empty())
        ))
        obs.count("empty_children_dropped", len(ends) - len(kept))
        self.rules.append((start, kept, rule))
        if hasattr(db, "table_method"):
            shifts = tuple(rule.shifts())
            self.want_keys[(start, tuple(ends), shifts)] += 1
            if db.reverse and rule.is_reversible():
                for i, end in enumerate(ends):
                    obs.count("reverse_keys")
                    self.want_keys[(
                        end, (start, *ends[:i], *ends[i + 1:]),
                        (-shifts[i], *(s - shifts[i] for j, s in enumerate(shifts)
                                       if j != i)),
                    )] += 1
        return self._add(start, ends, rule)

    def compare(self, final=False):
        """What the database holds against what was recorded."""
        obs, db, classdb = self.obs, self.db, self.db.classdb
        obs.count("stores_compared")
        if hasattr(db, "table_method"):
            if self.keys != self.want_keys:
                raise Violation(f"rule keys stored but not recorded: "
                                f"{dict(self.keys - self.want_keys)}, recorded but not stored:"
                                f" {dict(self.want_keys - self.keys)}", "keys")
        else:
            recorded = {}
            for start, kept, rule in self.rules:
                recorded.setdefault((start, kept), []).append(rule)
            stored = set(db)
            eqv = set(db.eqv_rule_to_strategy)
            for key in stored:
                if key not in recorded:
                    raise Violation(f"{key} is stored but was never recorded with these "
                                    f"non empty children", "stored")
            for key in recorded:
                if key not in stored and not (
                    len(key[1]) == 1 and (key[1][0], (key[0],)) in eqv
                ):
                    raise Violation(f"{key} was recorded but is not stored", "missing")
            if final and hasattr(db, "all_rules"):
                known = {}
                for _, _, rule in self.rules:
                    known.setdefault((rule.comb_class, tuple(rule.children)), []).append(
                        rule.strategy)
                for rule in db.all_rules():
                    key = (rule.comb_class, tuple(rule.children))
                    check(rule.strategy in known.get(key, ()), "the rule {} of {} is told but "
                          "was never recorded", key, rule.strategy)
                obs.count("rules_told", len(stored))
        # labels
        seen = {}
        label = 0
        while label in classdb:
            c = classdb.get_class(label)
            check(c not in seen, "{} has two labels", c)
            seen[c] = label
            check(self.labels.get(c, label) == label, "label {} is {} whose label is {}",
                  label, c, self.labels.get(c))
            check(classdb.get_label(c) == label, "get_label({}) is {} instead of {}", c,
                  classdb.get_label(c), label)
            label += 1
        obs.count("labels_checked", label)
        check(set(self.labels.values()) <= set(seen.values()), "labels {} but classes {}",
              sorted(set(self.labels.values())), seen)
        if final:
            for what, strategy, parent, children in self.unsure:
                if not self.replay.anywhere(strategy, parent, children, list(seen)):
                    raise Violation(f"{what}: the pack never gives that rule", "genuine")
            # how often strategies had to be turned down
            for c in list(seen)[:20]:
                for s in self.replay.strategies:
                    if not any(True for _ in packwork.apply_one(s, c)):
                        obs.count("not_applicable_seen")


def case(rng, index, obs):
    dbname = rng.choice(setups.DBS)
    compressed = False
    if rng.random() < 0.6:
        start, pack, rows, empties = num.random_pack(
            rng, iterative=dbname in ("base", "forget") and rng.random() < 0.2)
        obs.case.update(rows=rows, empties=empties, pack=repr(pack.__dict__))
        compressed = isinstance(start, num.NumB)
    else:
        setup = setups.random_setup(rng, features=setups.random_features(
            rng, {"foreign": 0.6, "oneway": 0.3}))
        start, pack = setup.start, setup.pack
        obs.case.update(setup.describe())
        compressed = type(start).__name__.endswith("B")
    mode = rng.choice(["packets", "packets", "levels", "auto"])
    expand_verified = rng.random() < 0.3
    obs.case.update(db=dbname, mode=mode, expand_verified=expand_verified)
    if compressed:
        obs.count("compressed_cases")
    random.seed(rng.random())
    limit = rng.choice([5, 20, 60])
    with specwork.clock(rng):
        ruledb = setups.make_db(dbname)
        rec = Recorder(ruledb, pack, obs)
        searcher = CombinatorialSpecificationSearcher(
            start, pack, ruledb=ruledb, expand_verified=expand_verified
        )
        rec.label(start, searcher.start_label)
        setups.limit_steps(searcher, limit)
        try:
            if mode == "packets":
                for packet in searcher.classqueue:
                    setups.expand(searcher, packet)
                    if rng.random() < 0.1:
                        rec.compare()
                    if rng.random() < 0.05:
                        searcher.has_specification()
            elif mode == "levels":
                for _ in range(6):
                    searcher.do_level()
                    rec.compare()
                    if rng.random() < 0.3:
                        searcher.has_specification()
            else:
                for _ in range(20):
                    try:
                        searcher.auto_search(max_expansion_time=rng.choice([0, 0.01, 1]))
                        break
                    except ExceededMaxtimeError:
                        rec.compare()
        except (setups.Limit, NoMoreClassesToExpandError, SpecificationNotFound):
            pass
    rec.compare(final=True)
    if len(rec.rules) >= 5:
        obs.nontrivial(sorted((s, k) for s, k, _ in rec.rules) + [dbname])
        obs.maximum("rules_in_one_search", len(rec.rules))
        obs.sample({**{k: clip(str(v), 300) for k, v in obs.case.items()},
                    "rules": [(s, k, type(r.strategy).__name__) for s, k, r in rec.rules[:10]]})
