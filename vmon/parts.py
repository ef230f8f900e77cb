"""
Universe F: the words an automaton reads from a state, restricted to some of the first steps
(a letter, or "" for stopping). A table drawn from a seed tells how every class is split: the
steps of a class may be parted into blocks in several ways, one after the other or all at
once, and every child may have any tag. So the classes of one set of words have many rules
of different shapes, and two specifications of the same words only match with a lot of
backtracking, while the objects of every class are known from the automaton alone.
"""
import random
from collections import Counter
from functools import lru_cache

from . import base  # noqa: F401
from comb_spec_searcher import (
    CartesianProductStrategy,
    CombinatorialClass,
    DisjointUnionStrategy,
    StrategyPack,
)
from comb_spec_searcher.exception import InvalidOperationError

from .lengths import LVerify
from .stats import StatsMixin, StatStrategyMixin
from .words import SettingsFactory, StatAtom, Word


class M(StatsMixin, CombinatorialClass):
    """
    auto: for every state a tuple of (letter, next state) and ("", -1) if it accepts.
    steps: the first steps allowed; seed: (number of the table, number of tags).
    """

    def __init__(self, auto, state, steps, tag=0, seed=(0, 1), stats=()):
        self.auto = tuple(tuple((a, t) for a, t in row) for row in auto)
        self.state = state
        self.steps = tuple(sorted(steps))
        self.tag = tag
        self.seed = tuple(seed)
        self.stats = tuple((str(k), "".join(sorted(v))) for k, v in stats)
        self._mkey = (self.auto, self.state, self.steps, self.tag, self.seed)

    def is_empty(self):
        return False

    def next_state(self, letter):
        return dict(self.auto[self.state])[letter]

    def is_atom(self):
        if len(self.steps) != 1:
            return False
        return self.steps[0] == "" or [a for a, _ in self.auto[self.next_state(self.steps[0])]
                                       ] == [""]

    def minimum_size_of_object(self):
        return lightest(self.auto, self.state, self.steps, None)

    def get_minimum_value(self, parameter):
        return lightest(self.auto, self.state, self.steps, dict(self.stats)[parameter])

    def objects_of_size(self, n, **parameters):
        names = self.extra_parameters
        for w in words(self.auto, self.state, self.steps, n):
            w = Word(w)
            if parameters and self.get_parameters(w) != tuple(parameters[k] for k in names):
                continue
            yield w

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(auto=[[list(x) for x in row] for row in self.auto], state=self.state,
                 steps=list(self.steps), tag=self.tag, seed=list(self.seed),
                 stats=[list(s) for s in self.stats])
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["auto"], d["state"], d["steps"], d["tag"], d["seed"], d["stats"])

    def __eq__(self, other):
        if not isinstance(other, M):
            return NotImplemented
        return self._mkey == other._mkey and self.stats == other.stats

    def __hash__(self):
        return hash((self._mkey, self.stats))

    def __repr__(self):
        return (f"M({self.auto!r}, {self.state}, {self.steps!r}, {self.tag}, {self.seed!r}, "
                f"{self.stats!r})")

    __str__ = __repr__

    @staticmethod
    def count_letters(obj, letters):
        return sum(1 for a in obj if a in letters)

    def usable_letters(self):
        todo = [(self.state, a) for a in self.steps if a]
        seen = set(todo)
        while todo:
            state, letter = todo.pop()
            t = dict(self.auto[state])[letter]
            for a, _ in self.auto[t]:
                if a and (t, a) not in seen:
                    seen.add((t, a))
                    todo.append((t, a))
        return frozenset(a for _, a in seen)

    def replace(self, **kw):
        d = dict(auto=self.auto, state=self.state, steps=self.steps, tag=self.tag,
                 seed=self.seed, stats=self.stats)
        d.update(kw)
        return type(self)(**d)


@lru_cache(maxsize=50000)
def words(auto, state, steps, n):
    res = []
    for a, t in auto[state]:
        if a not in steps:
            continue
        if a == "":
            if n == 0:
                res.append("")
        elif n > 0:
            every = tuple(b for b, _ in auto[t])
            res.extend(a + w for w in words(auto, t, every, n - 1))
    return tuple(res)


@lru_cache(maxsize=50000)
def lightest(auto, state, steps, letters):
    """The least number of the letters in a word (of letters at all, for None)."""
    best = [10**6] * len(auto)
    cost = lambda a: 0 if a == "" else int(letters is None or a in letters)  # noqa: E731
    for _ in range(len(auto) + 1):
        for s, row in enumerate(auto):
            for a, t in row:
                best[s] = min(best[s], cost(a) + (0 if a == "" else best[t]))
    return min(cost(a) + (0 if a == "" else best[t]) for a, t in auto[state] if a in steps)


@lru_cache(maxsize=50000)
def table(key):
    """The rules of a class: (operation, children), a child (state, steps, tag)."""
    auto, state, steps, tag, (number, tags) = key
    rng = random.Random(f"{number}/{state}/{steps}/{tag}")
    res = []
    whole = lambda s: tuple(a for a, _ in auto[s])  # noqa: E731
    if len(steps) == 1:
        if steps[0] == "":
            return ()
        t = dict(auto[state])[steps[0]]
        if whole(t) == ("",):
            return ()
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            res.append(("product", (None, (t, whole(t), rng.randrange(tags))),
                        rng.random() < 0.3))
    else:
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            count = rng.choice([2, 2, 2, 3, 3, 4])
            blocks = [[] for _ in range(min(count, len(steps)))]
            order = list(steps)
            rng.shuffle(order)
            for i, a in enumerate(order):
                (blocks[i] if i < len(blocks) else rng.choice(blocks)).append(a)
            rng.shuffle(blocks)
            res.append(("union", tuple((state, tuple(sorted(b)), rng.randrange(tags))
                                       for b in blocks), False))
    if tags > 1 and rng.random() < 0.1:
        res.append(("union", ((state, steps, rng.choice([t for t in range(tags)
                                                         if t != tag])),), False))
    return tuple(dict.fromkeys(res))


class MMixin(StatStrategyMixin):
    def __init__(self, mode="keep", index=0, **kw):
        self.mode = mode
        self.index = index
        kw.setdefault("possibly_empty", False)
        super().__init__(**kw)

    def _rule(self, c):
        rules = [r for r in table(c._mkey) if r[0] == self.OP]
        return rules[self.index] if self.index < len(rules) else None

    def _children(self, c):
        found = self._rule(c)
        if found is None:
            return None
        _, kids, swap = found
        res = []
        for kid in kids:
            if kid is None:
                # the letter
                res.append(letter_class(c))
            else:
                res.append(c.replace(state=kid[0], steps=kid[1], tag=kid[2]))
        return tuple(reversed(res)) if swap else tuple(res)

    def formal_step(self):
        return f"{self.OP} {self.index}"


def letter_class(c):
    """The single letter word, from an automaton of its own."""
    return c.replace(auto=(((c.steps[0], 1),), (("", -1),)), state=0, steps=c.steps, tag=0,
                     seed=(0, 1))


class MUnion(MMixin, DisjointUnionStrategy):
    OP = "union"

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        return tuple(Word(obj) if obj[:1] in ch.steps else None for ch in children)


class MProduct(MMixin, CartesianProductStrategy):
    OP = "product"

    def backward_map(self, comb_class, objs, children=None):
        if self._rule(comb_class)[2]:
            objs = tuple(reversed(objs))
        yield Word("".join(objs))

    def forward_map(self, comb_class, obj, children=None):
        parts = Word(obj[:1]), Word(obj[1:])
        return tuple(reversed(parts)) if self._rule(comb_class)[2] else parts


class MUnionOneWay(MUnion):
    """The children do not know the parent."""

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class MNormal(MMixin, DisjointUnionStrategy):
    """A smaller tag, for inferral."""

    OP = "normal"

    def _rule(self, c):
        if not c.tag:
            return None
        rng = random.Random(f"normal/{self.index}/{c._mkey}")
        if rng.random() < 0.6:
            return None
        return "normal", ((c.state, c.steps, rng.randrange(c.tag)),), False

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj),)


class MFactory(SettingsFactory):
    """All rules of the table at once, possibly those of a class with the class as child."""

    def __call__(self, comb_class):
        mode = self.settings.get("mode", "keep")
        for i in range(4):
            yield MUnion(mode, i)
            product_rule = MProduct(mode, i)
            if product_rule._rule(comb_class) is not None:
                yield product_rule(comb_class)
        if not self.settings.get("foreign", False):
            return
        every = tuple(sorted(a for a, _ in comb_class.auto[comb_class.state]))
        if every == comb_class.steps:
            return
        for tag in range(comb_class.seed[1]):
            parent = comb_class.replace(steps=every, tag=tag)
            for i in range(3):
                strategy = MUnion(mode, i)
                if strategy._rule(parent) is None:
                    continue
                if comb_class in strategy.decomposition_function(parent):
                    yield strategy(parent)
                    return


class MVerify(LVerify):
    """Verifies some of the classes that are not atoms."""

    def verified(self, comb_class):
        if comb_class.is_atom():
            return False
        return random.Random(f"verify/{self.arg}/{comb_class._mkey}").random() < 0.3

    def pack(self, comb_class):
        if not self.with_pack:
            raise InvalidOperationError("no pack")
        return StrategyPack(
            initial_strats=[MProduct(self.mode, 0)], inferral_strats=[],
            expansion_strats=[[MUnion(self.mode, 0)]], ver_strats=[StatAtom()],
            name="pack of a verification strategy")

    def get_terms(self, comb_class, n):
        if n > 12 and not self.via_pack:
            from . import large

            return large.terms_of_size(comb_class, n)
        return super().get_terms(comb_class, n)


def pack(rng, features=(), modes=("keep",)):
    """The rules in any order and grouping."""
    mode = lambda: rng.choice(modes)  # noqa: E731
    strats = []
    if rng.random() < 0.4 or "foreign" in features:
        strats.append(MFactory(mode=mode(), foreign="foreign" in features))
    else:
        for kind in (MUnion, MProduct):
            amount = rng.choice([2, 3, 3, 3])
            strats.extend(kind(mode(), i) for i in range(amount))
        if "oneway" in features:
            strats = [s for s in strats if type(s) is not MUnion or s.index]
            strats.append(MUnionOneWay(mode(), 0))
    rng.shuffle(strats)
    cut = rng.randint(0, len(strats))
    rest = strats[cut:]
    if len(rest) > 1 and rng.random() < 0.5:
        at = rng.randint(1, len(rest) - 1)
        groups = [rest[:at], rest[at:]]
    else:
        groups = [rest]
    ver = [StatAtom()]
    if "verify" in features:
        ver.insert(rng.randint(0, 1), MVerify(
            rng.randrange(1000), "verpack" in features, rng.random() < 0.5, mode(),
            via_pack=rng.random() < 0.3))
    return StrategyPack(
        initial_strats=strats[:cut],
        inferral_strats=[MNormal(mode(), rng.randrange(2))] if "inferral" in features else [],
        expansion_strats=groups, ver_strats=ver, iterative="iterative" in features,
        name="parts")


def random_auto(rng, states, letters):
    """An automaton all of whose states reach an accepting one."""
    for _ in range(200):
        rows = []
        for _ in range(states):
            row = [(a, rng.randrange(states)) for a in letters if rng.random() < 0.75]
            if rng.random() < 0.5:
                row.append(("", -1))
            rng.shuffle(row)
            rows.append(tuple(row))
        if all(rows):
            alive = {s for s, row in enumerate(rows) if ("", -1) in row}
            for _ in rows:
                alive |= {s for s, row in enumerate(rows) if any(t in alive for _, t in row)}
            if len(alive) == states:
                return tuple(rows)
    return (tuple((a, 0) for a in letters) + (("", -1),),)


def random_class(rng, stats=()):
    letters = rng.choice(["ab", "ab", "ab", "abc"])
    auto = random_auto(rng, rng.choice([1, 1, 2, 2, 3]), letters)
    return M(auto, 0, [a for a, _ in auto[0]], 0, (rng.randrange(10**6), rng.choice([1, 2, 3, 4, 5])),
             stats)


def partner(rng, a):
    """Another start class: the same words under another table, or others. (class, how)"""
    how = rng.choice(["same", "table", "table", "renamed", "renamed", "renamed", "mutated"])
    if how == "same":
        return a, how
    seed = a.seed if rng.random() < 0.2 else (rng.randrange(10**6), rng.choice([1, 2, 3, 4, 5]))
    if how == "table":
        return a.replace(seed=seed), how
    rows = [list(r) for r in a.auto]
    if how == "mutated":
        for _ in range(rng.randint(1, 2)):
            row = rng.choice(rows)
            i = rng.randrange(len(row))
            if row[i][0]:
                row[i] = (row[i][0], rng.randrange(len(rows)))
    order = list(range(len(rows)))
    rng.shuffle(order)
    letters = sorted({x for row in rows for x, _ in row if x})
    new = list(letters)
    rng.shuffle(new)
    ren = dict(zip(letters, new))
    ren[""] = ""
    auto = [None] * len(rows)
    for s, row in enumerate(rows):
        auto[order[s]] = tuple((ren[x], order[t] if x else -1) for x, t in row)
    alive = {s for s, row in enumerate(auto) if ("", -1) in row}
    for _ in auto:
        alive |= {s for s, row in enumerate(auto) if any(t in alive for _, t in row)}
    if len(alive) < len(auto):
        return a, "same"
    stats = tuple((k, "".join(ren[x] for x in v if x in ren)) for k, v in a.stats)
    return M(tuple(auto), order[0], [x for x, _ in auto[order[0]]], 0, seed, stats), how


def counts(c, upto):
    """The number of words of each size, without listing them."""
    now = counts_of_states(c.auto, upto)
    return [sum(((n == 0) if a == "" else (n > 0 and now[n - 1][t]))
                for a, t in c.auto[c.state] if a in c.steps) for n in range(upto + 1)]


def terms(c, top):
    """[terms of size 0, ..., terms of size top], without listing words."""
    weight = lambda a: tuple(int(a in v) for _, v in c.stats)  # noqa: E731
    zero = tuple(0 for _ in c.stats)
    now = [[Counter({zero: 1}) if ("", -1) in row else Counter() for row in c.auto]]

    def step(a, t, n, res):
        w = weight(a)
        for k, v in now[n - 1][t].items():
            res[tuple(x + y for x, y in zip(k, w))] += v

    for n in range(1, top + 1):
        level = []
        for row in c.auto:
            res = Counter()
            for a, t in row:
                if a:
                    step(a, t, n, res)
            level.append(res)
        now.append(level)
    out = []
    for n in range(top + 1):
        res = Counter()
        for a, t in c.auto[c.state]:
            if a not in c.steps:
                continue
            if a == "":
                if n == 0:
                    res[zero] += 1
            elif n:
                step(a, t, n, res)
        out.append(res)
    return out


def member(c, word):
    state, allowed = c.state, c.steps
    for a in word:
        row = dict(c.auto[state])
        if a not in row or a not in allowed:
            return False
        state, allowed = row[a], [b for b, _ in c.auto[row[a]]]
    return "" in allowed and ("", -1) in c.auto[state]


def sample(c, n, rng):
    """Some word of size n, or None."""
    after = counts_of_states(c.auto, n)
    word, state, allowed, left = "", c.state, c.steps, n
    while left:
        choices = [(a, t) for a, t in c.auto[state] if a and a in allowed]
        weights = [after[left - 1][t] for _, t in choices]
        if not sum(weights):
            return None
        a, state = rng.choices(choices, weights)[0]
        word += a
        allowed = [b for b, _ in c.auto[state]]
        left -= 1
    return Word(word) if "" in allowed and ("", -1) in c.auto[state] else None


def counts_of_states(auto, upto):
    now = [[int(("", -1) in row) for row in auto]]
    for _ in range(upto):
        now.append([sum(now[-1][t] for a, t in row if a) for row in auto])
    return now
