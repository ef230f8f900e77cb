"""C03: forest productivity detection equals the least fixed point, in any insert order."""
import random

from . import base, num, oracles, setups, specwork
from .runner import Violation, check, clip
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

RULE = (
    "(1) Random rule keys (any shape: repeated children, self reliance, positive, negative "
    "and large shifts, planted counting cycles, verification rules, duplicates, sparse "
    "labels) are inserted in several random orders and groupings into fresh tables; after "
    "every insertion (or at random moments) the number of computable terms of every class, "
    "is_pumping, the stable subset and the pumping sub-universe are compared with an "
    "independent least fixed point, and values must never decrease. (2) Random rules of "
    "numbered classes (with empty children) recorded through RuleDBForest, with and without "
    "reverse rules: is_verified and has_specification against the fixed point of the rules "
    "and their reverses, with shifts worked out by the monitor. (3) The rules recorded by "
    "real searches, also re-inserted in another order. A case is non trivial when the fixed "
    "point has a pumping class and a class with a finite non zero value, or a pumping class "
    "that is only reached through a cycle; identity: the set of keys."
)
ASSUMPTIONS = ["shifts of at most 12 in absolute value, up to 40 rules over up to 16 classes; "
               "up to 400 rules in searches"]
QUICK = {"cases": 120000, "seconds": 400}
THOROUGH = {"cases": 4000000, "seconds": 800}
CASE_SECONDS = 20
TIMEOUT_VIOLATES = True
NEED = {"nontrivial": 3000, "tables_compared": 50000, "finite_positive": 5000,
        "pumping_by_cycle": 2000, "orders_compared": 5000, "database_compared": 1500,
        "searches_compared": 300, "gap_widened": 1000, "values_grew_late": 1000}


def want_values(keys):
    return oracles.lfp_terms([(k.parent, k.children, k.shifts) for k in keys])


def compare(table, keys, obs, labels=(), full=True):
    """Everything the table answers about the rules inserted."""
    want = want_values(keys)
    got = table.function
    obs.count("tables_compared")
    expected = {v: (None if x == oracles.INF else x) for v, x in want.items() if x != 0}
    if got != expected:
        raise Violation(f"terms computable are {expected}, the table says {got}; rules "
                        f"{clip([tuple(k[:3]) for k in keys], 1800)}", "function")
    for v in set(want) | set(labels):
        pump = want.get(v) == oracles.INF
        if table.is_pumping(v) != pump:
            raise Violation(f"is_pumping({v}) should be {pump}; rules "
                            f"{clip([tuple(k[:3]) for k in keys], 1800)}", "is_pumping")
    if full:
        stable = sorted(table.stable_subset())
        check(stable == sorted(v for v, x in want.items() if x == oracles.INF),
              "stable subset {} but values {}", stable, want)
        sub = sorted(map(tuple, ((k.parent, k.children, k.shifts)
                                 for k in table.pumping_subuniverse())))
        wsub = sorted((k.parent, k.children, k.shifts) for k in keys
                      if all(want[v] == oracles.INF for v in (k.parent, *k.children)))
        check(sub == wsub, "pumping sub-universe is {}, should be {}", sub, wsub)
        check(table.function == expected, "asking questions changed the answers")
    return want


def random_keys(rng):
    n = rng.choice([1, 2, 3, 4, 6, 8, 12, 16])
    spread = rng.choice([1, 1, 1, 5])
    labels = [i * spread for i in range(n)]
    style = rng.choice(["zero", "small", "small", "signed", "signed", "large", "mixed"])
    maxkids = rng.choice([1, 2, 3])

    def shift():
        s = style if style != "mixed" else rng.choice(["zero", "small", "signed", "large"])
        if s == "zero":
            return 0
        if s == "small":
            return rng.choice([0, 0, 1, 1, 2])
        if s == "signed":
            return rng.choice([-2, -1, -1, 0, 0, 1, 1, 2])
        return rng.choice([0, 0, 1, rng.randint(-12, 12), rng.randint(0, 12)])

    keys = []
    p_ver = rng.choice([0, 0.05, 0.15, 0.3])
    bias = rng.choice([0, 0.4])
    for _ in range(rng.randint(1, rng.choice([4, 10, 20, 40]))):
        parent = rng.choice(labels)
        if rng.random() < p_ver:
            keys.append(ForestRuleKey(parent, (), (), RuleBucket.VERIFICATION))
            continue
        k = rng.randint(1, maxkids)
        children = tuple(parent if rng.random() < bias / 4 else rng.choice(labels)
                         for _ in range(k))
        keys.append(ForestRuleKey(parent, children, tuple(shift() for _ in children),
                                  rng.choice([RuleBucket.NORMAL, RuleBucket.REVERSE,
                                              RuleBucket.EQUIV])))
    # plant cycles whose total shift is close to zero
    for _ in range(rng.choice([0, 0, 1, 2])):
        length = rng.randint(1, min(n, 6))
        cyc = rng.sample(labels, length)
        shifts = [rng.randint(-4, 4) for _ in cyc]
        shifts[-1] = rng.choice([-1, 0, 1, 1]) - sum(shifts[:-1])
        for i, (a, s) in enumerate(zip(cyc, shifts)):
            kids, sh = [cyc[(i + 1) % length]], [s]
            if rng.random() < 0.3:
                kids.append(rng.choice(labels))
                sh.append(shift())
            keys.append(ForestRuleKey(a, tuple(kids), tuple(sh), RuleBucket.NORMAL))
    if rng.random() < 0.3:
        keys.append(rng.choice(keys))
    rng.shuffle(keys)
    return labels, keys


def below(a, b):
    """Values of a are at most those of b."""
    return all(b.get(v, 0) is None or (x is not None and x <= b.get(v, 0))
               for v, x in a.items())


def tables(rng, obs):
    labels, keys = random_keys(rng)
    obs.case["keys"] = [tuple(k[:3]) for k in keys]
    orders = []
    for o in range(rng.choice([1, 2, 3])):
        order = list(keys)
        if o:
            rng.shuffle(order)
            if rng.random() < 0.3:
                # verification rules last: everything has to be redone
                order.sort(key=lambda k: len(k.children) == 0)
            elif rng.random() < 0.3:
                order.sort(key=lambda k: max([abs(s) for s in k.shifts] + [0]))
        table = TableMethod()
        p = rng.choice([0, 0.2, 1])
        last, late = {}, False
        gap = 1
        for i, k in enumerate(order):
            if rng.random() < 0.2:
                # a question about a label, known or not, changes nothing
                table.is_pumping(rng.choice(labels + [max(labels) + 3]))
            table.add_rule_key(k)
            m = max([abs(s) for s in k.shifts] + [1])
            if m > gap:
                if last:
                    obs.count("gap_widened")
                gap = m
            if rng.random() < p or i == len(order) - 1:
                compare(table, order[: i + 1], obs, (rng.choice(labels),))
                now = table.function
                check(below(last, now), "values decreased from {} to {} when adding {}", last,
                      now, k)
                if last and now != last:
                    late = True
                last = now
        if late:
            obs.count("values_grew_late")
        orders.append(table.function)
    check(all(o == orders[0] for o in orders), "the answer depends on the order: {}", orders)
    if len(orders) > 1:
        obs.count("orders_compared")
    note(keys, want_values(keys), obs)
    obs.sample({"keys": [tuple(k[:3]) for k in keys][:8], "function": str(orders[0])})


def note(keys, want, obs):
    finite = sum(1 for x in want.values() if 0 < x < oracles.INF)
    pump = {v for v, x in want.items() if x == oracles.INF}
    # derivable without a cycle
    easy = set()
    while True:
        new = {k.parent for k in keys if k.parent not in easy and set(k.children) <= easy}
        if not new:
            break
        easy |= new
    if finite:
        obs.count("finite_positive")
    if pump - easy:
        obs.count("pumping_by_cycle")
    if (pump and finite) or pump - easy:
        obs.nontrivial(sorted((k.parent, k.children, k.shifts) for k in keys))


def numbered_rows(rng):
    nlabels = rng.randint(2, rng.choice([4, 8, 12]))
    empties = tuple(i for i in range(1, nlabels) if rng.random() < 0.15)
    rows = num.random_rows(
        rng, nlabels, rng.randint(1, rng.choice([6, 14])),
        p_single=rng.choice([0.15, 0.4]), p_ver=rng.choice([0.05, 0.15, 0.3]),
        p_two=0.5, empties=empties,
    )
    rows = [{**r, "reversible": rng.random() < 0.6, "equivalent": rng.random() < 0.8}
            for r in rows]
    for r in rows:
        if r.get("kind") != "verify":
            r["shifts"] = tuple(rng.choice([0, 0, 1, 1, 2, -1]) for _ in r["children"])
    return nlabels, empties, rows


def database(rng, obs):
    nlabels, empties, rows = numbered_rows(rng)
    reverse = rng.random() < 0.7
    compressed = rng.random() < 0.3
    obs.case.update(rows=rows, empties=empties, reverse=reverse)
    cls = num.NumB if compressed else num.Num
    pack = num.make_pack(rows, empties, compressed)
    searcher = CombinatorialSpecificationSearcher(
        cls(0, False), pack, ruledb=RuleDBForest(reverse=reverse)
    )
    db = searcher.ruledb
    triples = set()
    done_empty = set()
    order = list(rows)
    rng.shuffle(order)
    p = rng.choice([0, 0.3, 1])
    lastver = set()
    for i, row in enumerate(order):
        strat = num.make_strategy(row, empties, compressed)
        rule = strat(cls(row["parent"], False))
        if rng.random() < 0.5:
            start = searcher.classdb.get_label(rule.comb_class)
            ends = tuple(searcher.classdb.get_label(c) for c in rule.children)
            db.add(start, ends, rule)
        else:
            start = searcher.classdb.get_label(rule.comb_class)
            ends = tuple(searcher.classdb.get_label(c) for c in rule.children)
            searcher.add_rule(start, ends, rule)
        kids = row["children"]
        if row.get("kind") == "verify":
            triples.add((row["parent"], (), ()))
        else:
            sh = row["shifts"]
            triples.add((row["parent"], kids, sh))
            if row["possibly_empty"]:
                for c in kids:
                    if c in empties:
                        done_empty.add(c)
                        triples.add((c, (), ()))
            if reverse and row["reversible"]:
                for j, c in enumerate(kids):
                    triples.add((
                        c, (row["parent"], *kids[:j], *kids[j + 1:]),
                        (-sh[j], *(s - sh[j] for t, s in enumerate(sh) if t != j)),
                    ))
        if rng.random() < p or i == len(order) - 1:
            want = oracles.lfp_terms(triples)
            obs.count("database_compared")
            for v in range(nlabels):
                pump = want.get(v) == oracles.INF
                lab = cls(v, v in empties)
                if lab not in searcher.classdb:
                    check(not pump, "class {} was never labelled", v)
                    continue
                lab = searcher.classdb.get_label(lab)
                got = db.is_verified(lab)
                if got != pump:
                    raise Violation(f"is_verified of class {v} is {got}, should be {pump}; "
                                    f"rules {clip(sorted(triples), 1800)}", "is_verified")
                if pump:
                    lastver.add(v)
                check(pump or v not in lastver, "class {} is not verified any more", v)
            check(db.has_specification() == (want.get(0) == oracles.INF),
                  "has_specification is {} but value {}; rules {}", db.has_specification(),
                  want.get(0), triples)


class Tap:
    """Records what is inserted in a table."""

    def __init__(self, table):
        self.keys = []
        self.table = table
        self._add = table.add_rule_key
        table.add_rule_key = self.add

    def add(self, key):
        self.keys.append(key)
        return self._add(key)


def searching(rng, obs):
    setup = setups.random_setup(rng, features=setups.random_features(
        rng, {"oneway": 0.3, "equiv": 0.5}))
    name = rng.choice(["forest", "forest_rev"])
    obs.case.update(setup.describe(), db=name)
    random.seed(rng.random())
    with specwork.clock(rng):
        ruledb = setups.make_db(name)
        tap = Tap(ruledb.table_method)
        searcher = CombinatorialSpecificationSearcher(setup.start, setup.pack, ruledb=ruledb)
        for _ in range(rng.choice([5, 15, 40])):
            try:
                packet = next(searcher.classqueue)
            except StopIteration:
                break
            setups.expand(searcher, packet)
            if rng.random() < 0.1 and len(tap.keys) < 250:
                compare(ruledb.table_method, tap.keys, obs, full=False)
                obs.count("searches_compared")
            if len(tap.keys) > 400:
                break
    if len(tap.keys) > 400:
        return
    want = compare(ruledb.table_method, tap.keys, obs)
    for lab in range(len(searcher.classdb.label_to_info)
                     if hasattr(searcher.classdb, "label_to_info") else 0):
        check(ruledb.is_verified(lab) == (want.get(lab) == oracles.INF),
              "is_verified({}) is wrong", lab)
    check(ruledb.has_specification() == (want.get(searcher.start_label) == oracles.INF),
          "has_specification is wrong")
    obs.count("searches_compared")
    order = list(tap.keys)
    rng.shuffle(order)
    table = TableMethod()
    for k in order:
        table.add_rule_key(k)
    check(table.function == ruledb.table_method.function,
          "inserting the rules of a search in another order gives {} and not {}",
          table.function, ruledb.table_method.function)
    note(order, want, obs)


def case(rng, index, obs):
    r = rng.random()
    if r < 0.84:
        tables(rng, obs)
    elif r < 0.96:
        database(rng, obs)
    else:
        searching(rng, obs)
