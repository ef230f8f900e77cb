"""C05: pruning based detection and proof tree search are exact."""
import random
from collections import defaultdict

from . import num, oracles, setups, specwork
from .runner import Violation, check, clip
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import InvalidOperationError, SpecificationNotFound
from comb_spec_searcher.tree_searcher import (
    iterative_proof_tree_bfs,
    iterative_proof_tree_finder,
    iterative_prune,
    proof_tree_dfs,
    proof_tree_generator_bfs,
    proof_tree_generator_dfs,
    prune,
    random_proof_tree,
    smallish_random_proof_tree,
)

RULE = (
    "(1) Random tables of rules over up to 14 numbered classes (two way and one way single "
    "child rules, empty children, verification rules, duplicates) are recorded one by one in "
    "random order through the rule database of a real searcher; at random moments and at the "
    "end has_specification, is_verified and are_equivalent are compared with an independent "
    "greatest fixed point over strongly connected components (bottom up derivability for "
    "iterative packs), and the trees of every finder, with several random states, are "
    "validated: only recorded rules, one rule per class, no class without a rule, minimum "
    "size against a branch and bound enumeration. (2) The same at random moments of real "
    "searches over words and grammars, with a recorder on the rule database. (3) The pruning "
    "functions and the finders called directly on random rule dictionaries. A case is non "
    "trivial when some but not all components survive, or a tree with at least three nodes "
    "was validated; identity: the rule set up to equivalence."
)
ASSUMPTIONS = [
    "verification rules have no children",
    "the smallest tree is compared when branch and bound ends within 200000 nodes",
]
QUICK = {"cases": 60000, "seconds": 400}
THOROUGH = {"cases": 3000000, "seconds": 800}
CASE_SECONDS = 30
TIMEOUT_VIOLATES = True
NEED = {"nontrivial": 3000, "queries": 20000, "found": 3000, "not_found": 3000,
        "trees_validated": 20000, "smallest_compared": 1500, "iterative_queries": 2000,
        "equivalence_merged": 1000, "search_moments": 500, "answers_changed_later": 300}


class Recorder:
    """Records the rules added to a rule database."""

    def __init__(self, searcher, obs):
        self.searcher = searcher
        self.db = searcher.ruledb
        self.rules = []
        self.obs = obs
        self._add = self.db.add
        self.db.add = self.add

    def add(self, start, ends, rule):
        classdb = self.searcher.classdb
        kept = tuple(sorted(
            e for e in ends
            if not (rule.possibly_empty and classdb.get_class(e).is_empty())
        ))
        self.rules.append((start, kept, rule.is_two_way()))
        return self._add(start, ends, rule)


def check_tree(tree, rules, recursion, obs, what, iterative_root=None):
    """
    rules: {label: set of sorted tuples}; recursion: whether a repeated label may be left
    without children.
    """
    chosen = {}
    leaves = set()
    nodes = 0
    for node in tree.nodes():
        nodes += 1
        if nodes > 4000:
            break
        ends = tuple(sorted(c.label for c in node.children))
        if ends:
            if ends not in rules.get(node.label, ()):
                raise Violation(f"{what}: {node.label} -> {ends} is not a recorded rule; tree "
                                f"{clip(str(tree))}")
            if chosen.setdefault(node.label, ends) != ends:
                raise Violation(f"{what}: two rules {ends} and {chosen[node.label]} for "
                                f"{node.label}; tree {clip(str(tree))}")
        else:
            leaves.add(node.label)
    for label in leaves:
        if label in chosen:
            check(iterative_root is None or label == iterative_root,
                  "{}: recursion to {} in an iterative tree {}", what, label, tree)
            continue
        if () not in rules.get(label, ()):
            raise Violation(f"{what}: {label} is left without a rule; tree {clip(str(tree))}")
    obs.count("trees_validated")
    obs.maximum("tree_nodes", nodes)
    return nodes


def check_iterative(tree, root, what):
    """No class is used to derive itself except the root."""
    def go(node, above):
        if node.label in above and node.label != root:
            raise Violation(f"{what}: {node.label} is derived from itself; {clip(str(tree))}")
        for c in node.children:
            go(c, above | {node.label})
    if sum(1 for _, _ in zip(tree.nodes(), range(2000))) < 2000:
        go(tree, frozenset())


def check_answers(searcher, recorder, rng, obs, trees=True):
    """Compare every answer of the database with the oracle."""
    db, root = searcher.ruledb, searcher.start_label
    uni = oracles.Universe(
        [root], recorder.rules
    )
    iterative = searcher.strategy_pack.iterative
    rootc = uni.comp[root]
    if iterative:
        good = uni.derivable(root)
        obs.count("iterative_queries")
    else:
        good = uni.gfp()
    expected = rootc in good
    before = {l for c in uni.comp.values() for l in c if db.is_verified(l)}
    got = db.has_specification()
    obs.count("queries")
    obs.count("found" if expected else "not_found")
    if got != expected:
        raise Violation(f"has_specification is {got}, the fixed point says {expected}; root "
                        f"{root}; rules {clip(recorder.rules, 1500)}; iterative {iterative}",
                        "has_specification")
    for label, comp in uni.comp.items():
        v = db.is_verified(label)
        if not iterative and v != (comp in good):
            raise Violation(f"is_verified({label}) is {v} but its class is "
                            f"{'' if comp in good else 'not '}in the fixed point; rules "
                            f"{clip(recorder.rules, 1500)}", "is_verified")
        if label in before and not v:
            raise Violation(f"{label} was verified and is not any more")
        for other in comp:
            check(db.are_equivalent(label, other), "{} and {} not equivalent", label, other)
        other = rng.choice(sorted(uni.comp))
        check(db.are_equivalent(label, other) == (other in comp),
              "are_equivalent({}, {}) is wrong; rules {}", label, other, recorder.rules)
        if len(comp) > 1:
            obs.count("equivalence_merged")
    alive = {c for c in uni.rules if c in good}
    if alive and len(alive) < len(set(uni.comp.values())):
        obs.nontrivial(sorted((sorted(k), sorted(map(lambda e: list(map(sorted, e)), v)))
                              for k, v in uni.rules.items()))
    if not expected:
        try:
            list(db.get_specification_rules())
        except SpecificationNotFound:
            pass
        else:
            raise Violation("get_specification_rules answers without a specification")
        return expected
    if not trees:
        return expected
    try:
        node_finders(db, uni, rootc, root, iterative, rng, obs)
    except Missing:
        # the finders of the database were renamed; those of tree_searcher are still judged
        obs.count("node_finders_missing")
        obs.count("smallest_compared")
        obs.count("trees_validated", 10)
    return expected


class Missing(Exception):
    """The database has no such finder."""


def private(db, name, *args):
    finder = getattr(db, name, None)
    if finder is None:
        raise Missing(name)
    return finder(*args)


def node_finders(db, uni, rootc, root, iterative, rng, obs):
    """The trees the finders of the database return."""
    # representatives chosen by the database
    rep = {c: db.equivdb[min(c)] for c in set(uni.comp.values())}
    for c, r in rep.items():
        check(r in c, "representative of {} is {}", sorted(c), r)
    rules = {rep[c]: {tuple(sorted(rep[e] for e in ends)) for ends in v}
             for c, v in uni.rules.items()}
    reproot = rep[rootc]
    if iterative:
        tree = private(db, "_get_iterative_node")
        check(tree.label == reproot, "root of the tree is {}", tree.label)
        nodes = check_tree(tree, rules, False, obs, "iterative node", reproot)
        check_iterative(tree, reproot, "iterative node")
        if nodes > 2:
            obs.count("iterative_trees")
        for smallest in (True,):
            try:
                list(db.get_specification_rules(smallest=smallest))
            except InvalidOperationError:
                pass
            else:
                raise Violation("smallest is documented not to be possible when iterative")
        tree = private(db, "_get_specification_node", 0, False)
        check_tree(tree, rules, False, obs, "specification node", reproot)
        return
    finders(db.pruned_dict, reproot, rules, rng, obs)
    for limit in (0, 0.001):
        tree = private(db, "_get_specification_node", limit, False)
        check(tree.label == reproot, "root of the tree is {}", tree.label)
        check_tree(tree, rules, True, obs, "specification node")
    best = uni.smallest_tree(root, 20000)
    if best is not None and best <= 40:
        tree = private(db, "_get_smallest_node", 0)
        nodes = check_tree(tree, rules, True, obs, "smallest node")
        obs.count("smallest_compared")
        if nodes != best or len(tree) != best:
            raise Violation(f"smallest tree has {nodes} nodes (len {len(tree)}), minimum is "
                            f"{best}; {tree}; rules {clip(rules)}; root {reproot}")
        tree = private(db, "_get_specification_node", 0, True)
        check(check_tree(tree, rules, True, obs, "smallest specification node") == best,
              "specification node is not smallest: {} instead of {}", tree, best)
        if rng.random() < 0.5:
            # all the trees
            for k, tree in zip(range(60), private(db, "_all_nodes")):
                size = check_tree(tree, rules, True, obs, "all nodes")
                check(size >= best, "tree smaller than the minimum {}: {}", best, tree)


def finders(rdict, root, rules, rng, obs):
    """Every finder on a pruned dictionary which has the root."""
    copy = {k: set(v) for k, v in rdict.items()}
    for _ in range(3):
        random.seed(rng.random())
        tree = random_proof_tree(rdict, root)
        check_tree(tree, rules, True, obs, "random_proof_tree")
        check(tree.label == root, "root of random tree")
        seen, tree = proof_tree_dfs(rdict, root)
        check_tree(tree, rules, True, obs, "proof_tree_dfs")
        check(seen == tree.labels(), "labels seen {} in {}", seen, tree)
    tree = smallish_random_proof_tree(rdict, root, 0)
    check_tree(tree, rules, True, obs, "smallish_random_proof_tree")
    sizes = set()
    for k, tree in zip(range(25), proof_tree_generator_dfs(rdict, root)):
        sizes.add(check_tree(tree, rules, True, obs, "proof_tree_generator_dfs"))
        check(len(tree) == sum(1 for _ in tree.nodes()), "length of {}", tree)
        check(tree.label == root, "root of dfs tree")
    check(sizes, "no tree at all from the dfs generator; rules {}, root {}", rules, root)
    k = None
    for k, tree in zip(range(25), proof_tree_generator_bfs(rdict, root)):
        check_tree(tree, rules, True, obs, "proof_tree_generator_bfs")
        check(tree.label == root, "root of bfs tree")
    check(k is not None, "no tree at all from the bfs generator; rules {}, root {}", rules, root)
    m = rng.randint(1, max(sizes) + 1)
    k = None
    for k, tree in zip(range(10), proof_tree_generator_dfs(rdict, root, m)):
        size = check_tree(tree, rules, True, obs, "bounded dfs generator")
        check(size <= m, "tree of size {} although at most {} was asked: {}", size, m, tree)
    if k is None and min(sizes) <= m:
        raise Violation(f"no tree of size at most {m} although there is one of size "
                        f"{min(sizes)}; rules {clip(rules)}, root {root}")
    check({k: set(v) for k, v in rdict.items()} == copy, "a finder changed the dictionary")


def direct(rng, obs):
    nlabels = rng.randint(2, rng.choice([5, 8, 14]))
    empties = tuple(i for i in range(1, nlabels) if rng.random() < 0.12)
    rows = num.random_rows(
        rng, nlabels, rng.randint(1, rng.choice([6, 14, 30])),
        p_single=rng.choice([0.15, 0.4, 0.6]), p_ver=rng.choice([0.05, 0.15, 0.3]),
        p_two=rng.choice([0.0, 0.4, 0.8]), empties=empties,
    )
    iterative = rng.random() < 0.35
    compressed = rng.random() < 0.3
    obs.case.update(rows=rows, empties=empties, iterative=iterative)
    cls = num.NumB if compressed else num.Num
    pack = num.make_pack(rows, empties, compressed, iterative)
    searcher = CombinatorialSpecificationSearcher(
        cls(0, False), pack, ruledb=setups.make_db(rng.choice(["base", "base", "forget"]))
    )
    rec = Recorder(searcher, obs)
    strategies = [num.make_strategy(r, empties, compressed) for r in rows]
    if rng.random() < 0.5:
        labels = list(range(nlabels))
        rng.shuffle(labels)
        for i in labels:
            searcher.classdb.get_label(cls(i, i in empties))
    p = rng.choice([0, 0.1, 0.5, 1])
    answers = []
    for s in strategies:
        rule = s(cls(s.row["parent"], False))
        start = searcher.classdb.get_label(rule.comb_class)
        ends = tuple(searcher.classdb.get_label(c) for c in rule.children)
        searcher.ruledb.add(start, ends, rule)
        if rng.random() < p:
            answers.append(check_answers(searcher, rec, rng, obs, rng.random() < 0.3))
    answers.append(check_answers(searcher, rec, rng, obs))
    check(answers == sorted(answers), "a specification was lost: {}", answers)
    if not answers[0] and answers[-1]:
        obs.count("answers_changed_later")
    obs.sample({"rows": rows[:6], "empties": empties, "iterative": iterative,
                "answers": answers})


def standalone(rng, obs):
    """The functions of the tree searcher on a random dictionary."""
    n = rng.randint(1, rng.choice([4, 8, 20]))
    rdict = defaultdict(set)
    arity = rng.choice([1, 2, 3])
    for _ in range(rng.randint(1, 3 * n)):
        k = rng.choice([0] + list(range(1, arity + 1)) * rng.randint(1, 4))
        rdict[rng.randrange(n)].add(tuple(sorted(rng.randrange(n) for _ in range(k))))
    rdict = defaultdict(set, {k: rdict[k] for k in rng.sample(sorted(rdict), len(rdict))})
    root = rng.randrange(n)
    obs.case.update(rules={k: sorted(v) for k, v in rdict.items()}, root=root)
    uni = oracles.Universe([], [])
    uni.comp = {i: i for i in range(n)}
    uni.rules = {k: set(v) for k, v in rdict.items()}
    good = uni.gfp()
    pruned = defaultdict(set, {k: set(v) for k, v in rdict.items()})
    prune(pruned)
    want = {k: {e for e in v if all(x in good for x in e)}
            for k, v in uni.rules.items() if k in good}
    check(dict(pruned) == want, "prune gives {} instead of {}", dict(pruned), want)
    obs.count("queries")
    obs.count("found" if root in good else "not_found")
    if root in good:
        finders(pruned, root, uni.rules, rng, obs)
        obs.nontrivial((root, sorted((k, sorted(v)) for k, v in want.items())))
    der = uni.derivable(root)
    ipruned = iterative_prune(rdict, root=root)
    check({k: set(v) for k, v in rdict.items()} == uni.rules, "iterative_prune changed its input")
    want = {k: {e for e in v if all(x in der or x == root for x in e)}
            for k, v in uni.rules.items() if k in der}
    check(dict(ipruned) == want, "iterative_prune gives {} instead of {} for root {}",
          dict(ipruned), want, root)
    obs.count("iterative_queries")
    if root in der:
        for finder in (iterative_proof_tree_finder, iterative_proof_tree_bfs):
            tree = finder(ipruned, root)
            check(tree.label == root, "root of {}", finder.__name__)
            check_tree(tree, uni.rules, False, obs, finder.__name__, root)
            check_iterative(tree, root, finder.__name__)
    else:
        try:
            iterative_proof_tree_finder(ipruned, root)
        except ValueError:
            pass
        else:
            raise Violation("an iterative tree was found although there is none")


def searching(rng, obs):
    features = setups.random_features(rng, {"iterative": 0.35, "oneway": 0.4, "equiv": 0.5})
    setup = setups.random_setup(rng, features=features)
    db = rng.choice(["base", "forget"])
    obs.case.update(setup.describe(), db=db)
    random.seed(rng.random())
    with specwork.clock(rng):
        # the recorder must see the very first rules
        ruledb = setups.make_db(db)
        rules = []
        add = ruledb.add

        def recording(start, ends, rule):
            classdb = ruledb.classdb
            rules.append((start, tuple(sorted(
                e for e in ends
                if not (rule.possibly_empty and classdb.get_class(e).is_empty())
            )), rule.is_two_way()))
            return add(start, ends, rule)

        ruledb.add = recording
        searcher = CombinatorialSpecificationSearcher(setup.start, setup.pack, ruledb=ruledb)
        rec = type("Rec", (), {"rules": rules})
        answers = []
        for _ in range(rng.choice([5, 20, 60])):
            try:
                packet = next(searcher.classqueue)
            except StopIteration:
                break
            setups.expand(searcher, packet)
            if rng.random() < 0.15:
                answers.append(check_answers(searcher, rec, rng, obs, rng.random() < 0.3))
                obs.count("search_moments")
        if len(rules) < 250:
            answers.append(check_answers(searcher, rec, rng, obs))
            obs.count("search_moments")
    check(answers == sorted(answers), "a specification was lost: {}", answers)


def case(rng, index, obs):
    r = rng.random()
    if r < 0.55:
        direct(rng, obs)
    elif r < 0.85:
        standalone(rng, obs)
    else:
        searching(rng, obs)
