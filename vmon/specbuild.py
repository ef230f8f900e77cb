"""Specifications put together directly, without any search, and pairs of similar classes."""
from . import base  # noqa: F401
from . import grammar as g
from . import lengths, oracles, parts, pointing, ruleforms, setups
from . import words as w
from .runner import Discard
from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.strategies import AtomStrategy


def plain_grammar(rng, style=None):
    """The strategies of a decomposition: always able to decompose a class."""
    style = style or rng.choice(["plain", "mixed", "mixed"])
    if style == "plain":
        return [g.Factor("keep"), g.AltSplit("keep"), g.Unwrap("keep")]
    strats = [
        g.Factor("keep", rng.choice(["all", "all", "first", "last", "inter"]),
                 rng.randrange(3)),
        g.AltSplit("keep", rng.choice(["all", "all", "binary", "last", "half"])),
        g.Unwrap("keep"),
    ]
    if rng.random() < 0.25:
        strats.append(g.Unfold("keep", rng.choice(["first", "last"]), rng.randint(2, 4)))
    pool = [g.SortSymbols("keep"), g.PruneAlts("keep"), g.Twin("keep", True),
            g.Twin("keep", False), g.RotateSymbols("keep"), g.OneWayRotate("keep"),
            g.SymReverse("keep")]
    rng.shuffle(pool)
    return setups.unary_products(rng, strats + pool[: rng.choice([0, 0, 1, 2])])


def plain_words(rng, stats=False):
    mode = lambda: rng.choice(setups.MODES) if stats else "keep"  # noqa: E731
    strats = [w.RemoveFront(mode(), rng.choice([2, 2, 3]), rng.randrange(3)),
              w.Expand(mode(), rng.randrange(4))]
    pool = [w.DropPatterns(mode()), w.DropLetter(mode()), w.DropReq(mode()),
            w.PermuteLetters("keep"), w.Reverse("keep")]
    rng.shuffle(pool)
    return setups.unary_products(rng, strats + pool[: rng.choice([0, 0, 1, 2])])


def plain_lengths(rng, stats=False):
    modes = setups.MODES if stats else ("keep",)
    strats = lengths.plain_strategies(rng, modes)
    pool = [lengths.LNormal(rng.choice(modes)), lengths.LSym("keep", rng.randrange(2))]
    return strats + pool[: rng.choice([0, 0, 1, 2])]


def strategies(rng, start):
    if isinstance(start, w.W):
        return plain_words(rng, bool(start.stats))
    if isinstance(start, lengths.L):
        return plain_lengths(rng, bool(start.stats))
    if isinstance(start, parts.M):
        mode = lambda: rng.choice(setups.MODES) if start.stats else "keep"  # noqa: E731
        return [kind(mode(), i) for kind in (parts.MUnion, parts.MProduct)
                for i in range(rng.choice([1, 3, 3]))]
    return plain_grammar(rng)


def build(rng, start, strats, limit=60, verify=None, flip=0.0):
    """The specification made of the rules found by build_rules."""
    return CombinatorialSpecification(
        start, build_rules(rng, start, strats, limit, verify, flip))


def build_rules(rng, start, strats, limit=60, verify=None, flip=0.0):
    """
    The rules of a specification obtained by applying to each class a random strategy among those which
    apply. Discards when it is too large or is not productive. verify(c) gives a verification
    strategy for some classes or None. With probability flip a class is given the reverse of
    an equivalence from another class found so far.
    """
    from .stats import StatsMixin  # noqa: F401

    rules = {}
    todo = [start]
    waiting = {}
    while todo:
        c = todo.pop(rng.randrange(len(todo)) if rng.random() < 0.3 else -1)
        if c in rules or c.is_empty():
            continue
        if len(rules) > limit:
            raise Discard()
        if c.is_atom():
            strat = w.StatAtom() if c.stats or rng.random() < 0.5 else AtomStrategy()
            rules[c] = strat(c)
            continue
        if verify is not None:
            strat = verify(c)
            if strat is not None:
                rules[c] = strat(c)
                continue
        if c in waiting and rng.random() < flip:
            parent, rule = waiting[c]
            if parent not in rules and parent != start:
                rules[c] = rule.to_reverse_rule(0)
                todo.append(parent)
                continue
        order = list(strats)
        if rng.random() < 0.7:
            rng.shuffle(order)
        for s in order:
            rule = ruleforms.apply(s, c)
            if rule is None or c in rule.children:
                continue
            break
        else:
            raise Discard()
        if len(rule.children) > 1 and rule.is_equivalence():
            rule = rule.to_equivalence_rule()
        rules[c] = rule
        todo.extend(rule.children)
        if flip and len(rule.children) == 1 and rule.is_two_way():
            waiting.setdefault(rule.children[0], (c, rule))
    return closed(rng, start, rules.values())


def closed(rng, start, rules):
    """The rules needed for the start class, in random order, if they are productive."""
    ordered = list(rules)
    rng.shuffle(ordered)
    known = [(k, (), ()) for r in ordered for k in r.children if k.is_empty()]
    val = oracles.lfp_terms(oracles.spec_forest_rules(ordered) + known)
    if any(v != oracles.INF for v in val.values()):
        raise Discard()
    # only what the start class needs
    succ = {r.comb_class: r.children for r in ordered}
    need = oracles.reachable(succ, start)
    return [r for r in ordered if r.comb_class in need]


# ------------------------------------------------------------------ similar grammars
def four(rng, k, letters):
    """Four symbols, two of one kind and two of another: they pair up in several ways."""
    x, y = rng.randrange(k), rng.choice([rng.choice(letters), rng.randrange(k)])
    alt = [x, x, y, y]
    if not isinstance(y, str):
        alt.append(rng.choice(letters))
    rng.shuffle(alt)
    return tuple(alt)


def shaped_grammar(rng, k=None, letters="ab"):
    """
    Many nonterminals of the same shape which differ only here and there, so that two of
    them look alike for a long time.
    """
    while True:
        k = k or rng.randint(2, 5)
        shape = rng.choice(["binary", "binary", "unary", "union", "ternary", "four"])
        gr = []
        for i in range(k):
            tail = rng.choice(letters) * rng.choice([1, 1, 1, 1, 2])
            alts = {
                "binary": [(rng.choice(letters), rng.randrange(k), rng.randrange(k))],
                "unary": [(rng.choice(letters), rng.randrange(k))],
                "union": [(rng.choice(letters), rng.randrange(k)),
                          (rng.choice(letters), rng.randrange(k))],
                "ternary": [(rng.choice(letters), rng.randrange(k), rng.randrange(k)),
                            (rng.choice(letters), rng.randrange(k))],
                "four": [four(rng, k, letters)],
            }[shape]
            if rng.random() < 0.15:
                alts.append(tuple(rng.choice(letters) for _ in range(rng.randint(1, 3))))
            if rng.random() < 0.12:
                # nothing can be made with it
                alts.append((rng.choice(letters), k))
            alts.append(tuple(tail))
            if rng.random() < 0.3:
                rng.shuffle(alts)
            gr.append(tuple(alts))
        gr.append(((k,),) if rng.random() < 0 else ((rng.choice(letters), k),))
        gr = tuple(gr)
        if g.check_grammar(gr) and sum(g.gr_count(gr, 0, n) for n in range(6)) < 600:
            return gr


def rename_grammar(rng, gr, letters="ab", shuffle=True):
    """(grammar, where each nonterminal went): same trees up to names and orders."""
    k = len(gr)
    perm = list(range(k))
    rng.shuffle(perm)
    old = sorted(letters)
    new = old[:]
    rng.shuffle(new)
    ren = dict(zip(old, new))
    res = [None] * k
    for i, alts in enumerate(gr):
        out = []
        for alt in alts:
            syms = [ren.get(s, s) if isinstance(s, str) else perm[s] for s in alt]
            if shuffle and rng.random() < 0.5:
                rng.shuffle(syms)
            out.append(tuple(syms))
        if shuffle and rng.random() < 0.5:
            rng.shuffle(out)
        res[perm[i]] = tuple(out)
    return tuple(res), perm


def mutate_grammar(rng, gr, letters="ab"):
    """A small change."""
    for _ in range(30):
        new = [list(map(list, alts)) for alts in gr]
        i = rng.randrange(len(new))
        kind = rng.randrange(5)
        a = rng.randrange(len(new[i]))
        alt = new[i][a]
        if kind == 0 and alt:
            j = rng.randrange(len(alt))
            if not isinstance(alt[j], str):
                alt[j] = rng.randrange(len(new))
        elif kind == 1 and alt:
            j = rng.randrange(len(alt))
            if isinstance(alt[j], str):
                alt.insert(j, rng.choice(letters))
        elif kind == 2:
            # a copy of a nonterminal is used somewhere
            new.append([list(x) for x in new[i]])
            spots = [(x, y, z) for x, alts in enumerate(new) for y, t in enumerate(alts)
                     for z, s in enumerate(t) if s == i]
            if spots:
                x, y, z = rng.choice(spots)
                new[x][y][z] = len(new) - 1
        elif kind == 3 and len(alt) > 1:
            rng.shuffle(alt)
        else:
            # exchange two symbols
            spots = [(x, y, z) for x, alts in enumerate(new) for y, t in enumerate(alts)
                     for z, s in enumerate(t) if not isinstance(s, str)]
            if len(spots) > 1:
                (x, y, z), (x2, y2, z2) = rng.sample(spots, 2)
                new[x][y][z], new[x2][y2][z2] = new[x2][y2][z2], new[x][y][z]
        res = tuple(tuple(map(tuple, alts)) for alts in new)
        mins = g.gr_minima(res, None)
        if 0 in mins and g.check_grammar(res) and sum(
            g.gr_count(res, 0, n) for n in range(6)
        ) < 900:
            return res
    return gr


def whole(cls, gr, i, stats=()):
    return cls(gr, "N", (i, tuple(range(len(gr[i])))), stats)


def pair_of_classes(rng):
    """Two start classes, often enumerated alike. (first, second, how)"""
    how = rng.choice(["renamed", "renamed", "mutated", "mutated", "same", "inside",
                      "words", "words", "words_other", "random"])
    cls = rng.choice([g.G, g.G, g.GB])
    if rng.random() < 0.15:
        a = parts.random_class(rng, setups.random_stats(rng, "abc", 2, 0.8))
        b, how = parts.partner(rng, a)
        return a, b, "parts_" + how
    if rng.random() < 0.25:
        a = setups.random_length_class(rng, None, 0.8)
        b, how = lengths.partner(rng, a)
        return a, b, "lengths_" + how
    if how in ("words", "words_other"):
        a = setups.random_word_class(rng, p_none=0.7)
        alphabet = a.alphabet
        if how == "words_other":
            b = setups.random_word_class(rng, p_none=0.7)
            return a, b, how
        new = list(alphabet)
        rng.shuffle(new)
        ren = str.maketrans("".join(alphabet), "".join(new))
        b = a.replace(
            prefix=a.prefix.translate(ren),
            patterns=tuple(p.translate(ren) for p in a.patterns),
            req=a.req.translate(ren),
            stats=tuple((k, "".join(sorted(v.translate(ren)))) for k, v in a.stats),
        )
        return a, b, how
    letters = rng.choice(["a", "ab", "ab", "abc"])
    if how == "random":
        a = setups.random_grammar_class(rng, cls, 0.7)
        b = setups.random_grammar_class(rng, cls, 0.7)
        return a, b, how
    gr = (shaped_grammar(rng, letters=letters) if rng.random() < 0.7
          else setups.random_grammar(rng, letters))
    stats = setups.random_stats(rng, letters, 2, 0.8)
    a = whole(cls, gr, 0, stats)
    if how == "same":
        return a, a, how
    if how == "inside":
        j = rng.randrange(len(gr))
        b = whole(cls, gr, j, stats)
        return a, (a if b.is_empty() else b), how
    if how == "renamed":
        other, perm = rename_grammar(rng, gr, "" if stats else letters)
        return a, whole(cls, other, perm[0], stats), how
    other = gr
    for _ in range(rng.randint(1, 2)):
        other = mutate_grammar(rng, other, letters)
    other, perm = rename_grammar(rng, other, "" if stats else letters, rng.random() < 0.5)
    return a, whole(cls, other, perm[0], stats), how


# ------------------------------------------------------------------ pointed classes
def _leaf_pair(rng, names):
    """Two classes which can be pointed, with the given number of parameters."""
    for _ in range(40):
        a, b, how = pair_of_classes(rng)
        if not (pointing.usable(a) and pointing.usable(b)):
            continue
        if names is not None and (a.extra_parameters, b.extra_parameters) != names:
            if a.extra_parameters or b.extra_parameters:
                a, b = a.replace(stats=()), b.replace(stats=())
            if names != ((), ()):
                continue
        elif names is None and len(a.extra_parameters) != len(b.extra_parameters):
            continue
        return a, b, how
    raise Discard()


def pointed_rules(rng, shape, classes, shuffle=False, flip=0.0):
    """(start, rules) of a specification for the classes put together in that shape."""
    rules = {}
    root, own = pointing.assemble(rng, shape, classes, shuffle)
    for r in own:
        rules[r.comb_class] = r
    for c in classes:
        for r in build_rules(rng, c, strategies(rng, c), flip=flip):
            rules.setdefault(r.comb_class, r)
    return root, closed(rng, root, rules.values())


def pointed_pair(rng):
    """(first, second, specification of each, how): two similar pointed classes."""
    shape = pointing.random_shape(rng)
    while shape == ("leaf",):
        shape = pointing.random_shape(rng)
    firsts, seconds, names, how = [], [], None, []
    for _ in range(pointing.leaves(shape)):
        if firsts and rng.random() < 0.15:
            a, b, kind = firsts[0], seconds[0], "again"
        else:
            a, b, kind = _leaf_pair(rng, names)
        names = names or (a.extra_parameters, b.extra_parameters)
        firsts.append(a)
        seconds.append(b)
        how.append(kind)
    flip = rng.choice([0, 0.5])
    a, rules1 = pointed_rules(rng, shape, firsts, False, flip)
    b, rules2 = pointed_rules(rng, shape, seconds, rng.random() < 0.4, flip)
    return (a, b, CombinatorialSpecification(a, rules1), CombinatorialSpecification(b, rules2),
            "pointed_" + how[0])


def pointed(rng):
    """(start, specification) of a pointed class."""
    a, b, s1, s2, _ = pointed_pair(rng)
    return rng.choice([(a, s1), (b, s2)])
