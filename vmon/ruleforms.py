"""Random genuine rules and every form the library derives from them."""
from . import base  # noqa: F401
from . import grammar as g
from . import lengths, oracles, parts, setups, synth
from . import words as w
from .runner import Discard
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.rule import EquivalencePathRule

MODES = setups.MODES


def word_strategies(rng, c):
    mode = lambda: rng.choice(MODES) if c.stats else "keep"  # noqa: E731
    patt = setups.random_word(rng, c.alphabet, 1, 2)
    return [
        w.Expand(mode(), rng.randrange(4)),
        w.RemoveFront(mode(), 2, rng.randrange(2)),
        w.RemoveFront(mode(), 3, rng.randrange(3)),
        w.DropPatterns(mode()),
        w.DropLetter(mode()),
        w.DropReq(mode()),
        w.DropPatternsCP(mode()),
        w.DropLetterCP(mode()),
        w.DropReqCP(mode()),
        w.Restat(rng.choice(["drop", "merge", "rename", "flip"])),
        w.OneWay(mode()),
        w.OneWayDrop(mode()),
        w.OneWayUnion(mode()),
        w.PermuteLetters("keep"),
        w.Reverse("keep"),
        w.AvoidOrContain(patt, mode()),
    ]


def grammar_strategies(rng, c):
    mode = lambda: rng.choice(MODES) if c.stats else "keep"  # noqa: E731
    return [
        g.AltSplit(mode(), rng.choice(["all", "binary", "last", "half"])),
        g.Unwrap(mode()),
        g.Factor(mode(), rng.choice(["all", "first", "last", "inter"]), rng.randrange(3)),
        g.Unfold(mode(), rng.choice(["first", "last"]), 4),
        g.SortSymbols(mode()),
        g.RotateSymbols(mode()),
        g.OneWayRotate(mode()),
        g.SymReverse("keep"),
        g.PruneAlts(mode()),
        g.UnwrapCP(mode()),
        g.SortCP(mode()),
        g.PruneCP(mode()),
        g.Twin(mode(), True),
        g.Twin(mode(), False),
        g.GRestat(rng.choice(["drop", "merge", "rename", "flip"])),
        g.OneWaySplit(mode(), "binary"),
    ]


def strategies_for(rng, c):
    if isinstance(c, w.W):
        return word_strategies(rng, c)
    if isinstance(c, g.G):
        return grammar_strategies(rng, c)
    if isinstance(c, lengths.L):
        return length_strategies(rng, c)
    if isinstance(c, parts.M):
        mode = lambda: rng.choice(setups.MODES)  # noqa: E731
        res = [kind(mode(), i) for kind in (parts.MUnion, parts.MProduct) for i in range(3)]
        return res + [parts.MNormal(mode(), rng.randrange(2)), parts.MUnionOneWay(mode(), 0)]
    return [synth.SynUnion() if c.kind == "union" else synth.SynProduct()]


def length_strategies(rng, c):
    mode = lambda: rng.choice(setups.MODES)  # noqa: E731
    res = lengths.plain_strategies(rng, setups.MODES)
    res += [lengths.LNormal(mode()), lengths.LSym("keep", rng.randrange(2)),
            lengths.LUnionOneWay(mode(), 0), lengths.LUnionNE(mode(), rng.randrange(2))]
    rng.shuffle(res)
    return res


def random_class(rng, family):
    if family == "lengths":
        return setups.random_length_class(rng, p_none=0.35)
    if family == "words":
        return setups.random_word_class(rng, p_none=0.35)
    if family == "parts":
        return parts.random_class(rng, setups.random_stats(rng, "abc", 3, 0.35))
    return setups.random_grammar_class(rng, p_none=0.35)


def apply(strategy, c):
    try:
        rule = strategy(c)
        rule.children  # noqa: B018
        return rule
    except StrategyDoesNotApply:
        return None


def random_rule(rng, family=None):
    """A rule of a random strategy on a random class whose parent is not empty."""
    family = family or rng.choice(["words", "grammar", "lengths", "parts", "synth", "synth"])
    for _ in range(200):
        if family == "synth":
            c = synth.random_union(rng) if rng.random() < 0.5 else synth.random_product(rng)
            if c.is_empty():
                continue
            return strategies_for(rng, c)[0](c)
        c = random_class(rng, family)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            strats = strategies_for(rng, c)
            rule = apply(rng.choice(strats[:3] + strats), c)
            if rule is None:
                continue
            kids = [k for k in rule.children if not k.is_empty()]
            if kids:
                c = rng.choice(kids)
        strats = strategies_for(rng, c)
        rng.shuffle(strats)
        for s in strats:
            rule = apply(s, c)
            if rule is not None and c not in rule.children:
                return rule
    raise Discard()


def is_product(rule):
    return "RemoveFront" in type(rule.strategy).__name__ or isinstance(
        rule.strategy, (lengths.LProduct, parts.MProduct, g.Factor, synth.SynProduct, g.GProduct, w.WordProduct)
    )


def multi_equivalence(rule):
    """Whether the rule is an equivalence for which an equivalence form is offered."""
    return rule.is_equivalence()


def forms(rule):
    """(name, rule) for every form derived from a genuine forward rule."""
    res = [("rule", rule)]
    empties = [c.is_empty() for c in rule.children]
    eq = None
    if multi_equivalence(rule):
        eq = rule.to_equivalence_rule()
        res.append(("equivalence", eq))
    if not rule.is_reversible():
        return res
    if not (is_product(rule) and any(empties)):
        for i in range(len(rule.children)):
            if empties[i]:
                # the enumeration of an empty class is never computed from a rule
                continue
            rev = rule.to_reverse_rule(i)
            res.append((f"reverse {i}", rev))
            if multi_equivalence(rev):
                res.append((f"equivalence of reverse {i}", rev.to_equivalence_rule()))
    if eq is not None:
        res.append(("reverse of equivalence", eq.to_reverse_rule(0)))
    return res


def equivalence_edges(rng, c, rules, family):
    """
    Single child equivalence rules between non empty classes starting from class c. rules
    is a list of the forward rules over which chains are built.
    """
    res = []
    for rule in rules:
        if not multi_equivalence(rule):
            continue
        if rule.comb_class == c:
            eq = rule.to_equivalence_rule()
            res.append(eq if len(rule.children) > 1 or rng.random() < 0.5 else rule)
        if rule.is_reversible():
            kids = [i for i, k in enumerate(rule.children) if not k.is_empty()]
            if rule.children[kids[0]] == c:
                rev = rule.to_reverse_rule(kids[0])
                if rev.is_equivalence():
                    if len(rev.children) > 1 or rng.random() < 0.5:
                        rev = rev.to_equivalence_rule()
                    res.append(rev)
    return res


def random_equivalence_rules(rng, family):
    """Forward rules with one non empty child, over few classes."""
    rules = []
    if family == "synth":
        classes = [synth.random_base(rng)]
        for _ in range(rng.randint(1, 5)):
            c = rng.choice(classes[-2:])
            if rng.random() < 0.3:
                u = synth.random_product(rng, [c])
                rules.append(synth.SynProduct()(u))
            else:
                u = synth.random_union(rng, [c], empties=0.4)
                rules.append(synth.SynUnion()(u))
            classes.append(u)
        return rules, classes
    c = random_class(rng, family)
    for _ in range(rng.choice([0, 1, 2])):
        rule = apply(rng.choice(strategies_for(rng, c)[:3]), c)
        if rule is not None:
            kids = [k for k in rule.children if not k.is_empty()]
            c = rng.choice(kids) if kids else c
    classes = [c]
    for _ in range(12):
        c = rng.choice(classes[-3:])
        for s in rng.sample(strategies_for(rng, c), 5):
            rule = apply(s, c)
            if rule is None or not multi_equivalence(rule):
                continue
            child = [k for k in rule.children if not k.is_empty()][0]
            if c in rule.children:
                continue
            rules.append(rule)
            if child not in classes:
                classes.append(child)
    return rules, classes


def random_path(rng, family=None):
    """A random EquivalencePathRule or None."""
    family = family or rng.choice(["words", "grammar", "lengths", "parts", "synth"])
    for _ in range(10):
        rules, classes = random_equivalence_rules(rng, family)
        if not rules:
            continue
        c = rng.choice(classes)
        seen, path = {c}, []
        want = rng.randint(1, 5)
        while len(path) < want:
            edges = [
                r for r in equivalence_edges(rng, c, rules, family)
                if r.children[0] not in seen
            ]
            if not edges:
                break
            r = rng.choice(edges)
            path.append(r)
            c = r.children[0]
            seen.add(c)
        if path:
            return EquivalencePathRule(path)
    return None


def describe(name, rule):
    d = {"form": name, "parent": repr(rule.comb_class),
         "children": [repr(c) for c in rule.children],
         "strategy": f"{type(rule.strategy).__name__}{rule.strategy.__dict__}"}
    if isinstance(rule, EquivalencePathRule):
        d["path"] = [f"{type(r).__name__} {r.comb_class!r} -> {r.children[0]!r}"
                     for r in rule.rules]
    return d


def signature(name, rule):
    """Identity of a rule up to the classes' exact contents."""
    ctor = rule.constructor
    return (
        name.rstrip("0123456789"),
        type(rule.strategy).__name__,
        type(ctor).__name__,
        getattr(rule.strategy, "mode", ""),
        rule.shifts() if not isinstance(rule, EquivalencePathRule) else len(rule.rules),
        tuple(
            tuple(sorted(list(m.values()).count(x) for x in set(m.values())))
            + (len(rule.comb_class.extra_parameters),)
            for m in ctor.extra_parameters
        ),
        tuple(c.is_empty() for c in rule.children),
    )


def random_forms(rng, direct=True):
    """List of (name, rule) to be checked in a case."""
    if rng.random() < 0.3:
        path = random_path(rng)
        if path is None:
            raise Discard()
        return [("path", path)]
    rule = random_rule(rng)
    if direct and rng.random() < 0.06:
        forgetful(rule.strategy)
        res = [("rule", rule)]
        if rule.is_reversible() and not any(c.is_empty() for c in rule.children):
            i = rng.randrange(len(rule.children))
            if len(rule.children) > 1:
                res.append((f"reverse {i}", rule.to_reverse_rule(i)))
        return res
    return forms(rule)


def forgetful(strategy):
    """
    From now on the strategy is called without the children, which are optional. The
    equivalence forms, which pass other classes than those of the strategy, are left out.
    """
    cls = type(strategy)
    strategy.constructor = lambda c, children=None: cls.constructor(strategy, c)
    strategy.reverse_constructor = (
        lambda i, c, children=None: cls.reverse_constructor(strategy, i, c))
    strategy.shifts = lambda c, children=None: cls.shifts(strategy, c)
    strategy.forward_map = lambda c, obj, children=None: cls.forward_map(strategy, c, obj)
    strategy.backward_map = lambda c, objs, children=None: cls.backward_map(strategy, c, objs)


def size_bound(rule, cap=250, nmax=7):
    return min(
        oracles.bound_n(c, cap, nmax)
        for c in (rule.comb_class, *rule.children)
        if not c.is_empty()
    )
