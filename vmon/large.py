"""
Terms of the classes of the universes at sizes far beyond listing their objects, and whether
a large object belongs to a class. Dynamic programming over the definition of the classes,
sharing nothing with the library and checked against the listings on small sizes by
`selftest`.
"""
from collections import Counter

from . import base  # noqa: F401
from . import parts
from .grammar import G, gr_minima
from .words import W


def supported(c):
    return isinstance(c, (W, G, parts.M))


def weight(letter, stats):
    return tuple(int(letter in v) for _, v in stats)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def word_terms(c, top):
    """[terms of size 0, ..., terms of size top]"""
    res = [Counter() for _ in range(top + 1)]
    prefix = str(c.prefix)
    if any(p in prefix for p in c.patterns):
        return res
    start = tuple(sum(1 for a in prefix if a in v) for _, v in c.stats)
    if c.just:
        if c.req in prefix and len(prefix) <= top:
            res[len(prefix)][start] += 1
        return res
    m = max([len(p) for p in c.patterns] + [len(c.req), 1])
    states = {(prefix[-m:], c.req in prefix): Counter({start: 1})}
    for n in range(len(prefix), top + 1):
        for (_, found), terms in states.items():
            if found:
                res[n].update(terms)
        new = {}
        for (suffix, found), terms in states.items():
            for a in c.alphabet:
                x = suffix + a
                if any(x.endswith(p) for p in c.patterns):
                    continue
                tgt = new.setdefault((x[-m:], found or c.req in x), Counter())
                w = weight(a, c.stats)
                for k, v in terms.items():
                    tgt[add(k, w)] += v
        states = new
    return res


def grammar_terms(c, top):
    """
    Knuth style: the terms of size n of the nonterminals depend on each other only through
    alternatives whose other symbols can be empty, an acyclic relation.
    """
    gr, mins = c.gr, gr_minima(c.gr, None)
    zero = tuple(0 for _ in c.stats)
    table = {}

    def symbol(s, n):
        if isinstance(s, str):
            return {weight(s, c.stats): 1} if n == 1 else {}
        key = (s, n)
        if key not in table:
            total = Counter()
            for alt in gr[s]:
                total.update(sequence(alt, n))
            table[key] = total
        return table[key]

    def sequence(symbols, n):
        key = (symbols, n)
        if key in table:
            return table[key]
        if not symbols:
            return {zero: 1} if n == 0 else {}
        if any(not isinstance(s, str) and s not in mins for s in symbols):
            return {}
        need = [1 if isinstance(s, str) else mins[s] for s in symbols]
        res = Counter()
        spare = sum(need[1:])
        for k in range(need[0], n - spare + 1):
            # the rest first, it is what bounds the size of the first
            rest = sequence(symbols[1:], n - k)
            if not rest:
                continue
            for p, v in symbol(symbols[0], k).items():
                for q, w in rest.items():
                    res[add(p, q)] += v * w
        table[key] = res
        return res

    res = []
    for n in range(top + 1):
        total = Counter()
        for symbols in c._symbol_lists():
            if not symbols:
                total.update({zero: 1} if n == 0 else {})
            else:
                total.update(sequence(tuple(symbols), n))
        res.append(total)
    return res


def terms(c, top):
    if isinstance(c, parts.M):
        return parts.terms(c, top)
    return word_terms(c, top) if isinstance(c, W) else grammar_terms(c, top)


_CACHE = {}


def terms_of_size(c, n):
    """The same, remembering the table of the last classes asked for."""
    table = _CACHE.get(c, [])
    if len(table) <= n:
        if len(_CACHE) > 30:
            _CACHE.clear()
        table = _CACHE[c] = terms(c, max(n, 20))
    return table[n]


def derives(gr, tree, s):
    """Whether the tree is a derivation tree of the symbol."""
    todo = [(tree, s)]
    while todo:
        t, s = todo.pop()
        if isinstance(s, str):
            if tuple(t) != ("@", s):
                return False
            continue
        if t[0] != "N" or t[1] != s or not 0 <= t[2] < len(gr[s]):
            return False
        alt = gr[s][t[2]]
        if len(alt) != len(t) - 3:
            return False
        todo.extend(zip(t[3:], alt))
    return True


def letters(tree):
    res, todo = [], [tree]
    while todo:
        t = todo.pop()
        if t[0] == "@":
            res.append(t[1])
        else:
            todo.extend(reversed(t[3 if t[0] == "N" else 1:]))
    return "".join(res)


def member(c, obj, n, params=None):
    """Whether the object is one of the class, with that size and those parameters."""
    if isinstance(c, W):
        word = str(obj)
        if c.just:
            ok = word == str(c.prefix)
        else:
            ok = word.startswith(c.prefix) and set(word[len(c.prefix):]) <= set(c.alphabet)
        ok = ok and c.req in word and not any(p in word for p in c.patterns)
    elif isinstance(c, parts.M):
        word = str(obj)
        ok = parts.member(c, word)
    else:
        word = letters(obj)
        if c.kind == "N":
            ok = derives(c.gr, obj, c.data[0]) and obj[2] in c.data[1]
        elif len(c.data) == 1:
            ok = derives(c.gr, obj, c.data[0])
        else:
            ok = obj[0] == "S" and len(obj) - 1 == len(c.data) and all(
                derives(c.gr, t, s) for t, s in zip(obj[1:], c.data))
    return (ok and len(word) == n) and (
            params is None or tuple(sum(1 for a in word if a in v) for _, v in c.stats) == tuple(params))


def sample(c, n, rng):
    """Some object of size n of the class, or None; each has a positive probability."""
    if isinstance(c, W):
        return sample_word(c, n, rng)
    if isinstance(c, parts.M):
        return parts.sample(c, n, rng)
    return sample_tree(c, n, rng)


def sample_word(c, n, rng):
    from .words import Word

    counts = {}

    def ways(suffix, found, left):
        key = (suffix, found, left)
        if key not in counts:
            if left == 0:
                counts[key] = int(found)
            else:
                counts[key] = sum(ways(*step(suffix, found, a), left - 1) for a in c.alphabet
                                  if allowed(suffix, a))
        return counts[key]

    m = max([len(p) for p in c.patterns] + [len(c.req), 1])

    def allowed(suffix, a):
        return not any((suffix + a).endswith(p) for p in c.patterns)

    def step(suffix, found, a):
        return (suffix + a)[-m:], found or c.req in suffix + a

    word = str(c.prefix)
    if any(p in word for p in c.patterns) or n < len(word):
        return None
    if c.just:
        return Word(word) if n == len(word) and c.req in word else None
    state = (word[-m:], c.req in word)
    left = n - len(word)
    if not ways(*state, left):
        return None
    while left:
        letters = [a for a in c.alphabet if allowed(state[0], a)]
        a = rng.choices(letters, [ways(*step(*state, a), left - 1) for a in letters])[0]
        word += a
        state = step(*state, a)
        left -= 1
    return Word(word)


def sample_tree(c, n, rng):
    from .grammar import T

    gr, mins = c.gr, gr_minima(c.gr, None)
    table = {}

    def symbol(s, n):
        if isinstance(s, str):
            return int(n == 1)
        if (s, n) not in table:
            table[s, n] = sum(sequence(alt, n) for alt in gr[s])
        return table[s, n]

    def sizes(symbols, n):
        need = [1 if isinstance(s, str) else mins[s] for s in symbols]
        return range(need[0], n - sum(need[1:]) + 1)

    def sequence(symbols, n):
        if not symbols:
            return int(n == 0)
        if any(not isinstance(s, str) and s not in mins for s in symbols):
            return 0
        if (symbols, n) not in table:
            table[symbols, n] = sum(
                sequence(symbols[1:], n - k) and symbol(symbols[0], k) * sequence(symbols[1:], n - k)
                for k in sizes(symbols, n))
        return table[symbols, n]

    def pick(s, n):
        if isinstance(s, str):
            return T(("@", s))
        i = rng.choices(range(len(gr[s])), [sequence(alt, n) for alt in gr[s]])[0]
        return T(("N", s, i, *split(gr[s][i], n)))

    def split(symbols, n):
        res = []
        while symbols:
            ks = list(sizes(symbols, n))
            k = rng.choices(ks, [sequence(symbols[1:], n - k)
                                 and symbol(symbols[0], k) * sequence(symbols[1:], n - k)
                                 for k in ks])[0]
            res.append(pick(symbols[0], k))
            symbols, n = symbols[1:], n - k
        return res

    alts = [tuple(symbols) for symbols in c._symbol_lists()]
    weights = [sequence(symbols, n) for symbols in alts]
    if not any(weights):
        return None
    i = rng.choices(range(len(alts)), weights)[0]
    parts = split(alts[i], n)
    if c.kind == "N":
        return T(("N", c.data[0], c.data[1][i], *parts))
    return parts[0] if len(c.data) == 1 else T(("S", *parts))


def selftest(seed=0, count=300):
    import random

    from . import oracles, setups

    rng = random.Random(seed)
    seen = 0
    for _ in range(count):
        make = rng.choice([setups.random_word_class, setups.random_grammar_class,
                           lambda r: parts.random_class(r, setups.random_stats(r, "abc", 3))])
        c = make(rng)
        top = oracles.bound_n(c, 400, 8)
        got = terms(c, top)
        for n in range(top + 1):
            assert oracles.nonzero(got[n]) == oracles.nonzero(oracles.true_terms(c, n)), (c, n)
            for params, objs in oracles.true_objects(c, n).items():
                for o in objs[:5]:
                    seen += 1
                    assert member(c, o, n, params), (c, o)
                    assert not member(c, o, n + 1, params), (c, o)
            objs = set(c.objects_of_size(n))
            o = sample(c, n, rng)
            assert (o in objs) if objs else o is None, (c, n, o)
    return seen
