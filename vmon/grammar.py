"""
Universe B: derivation trees of (random) context-free grammars.

Objects are derivation trees, hence every decomposition is unambiguous by construction. A
class is either the trees rooted at a nonterminal with a set of allowed alternatives (kind
"N") or the tuples of trees for a sequence of symbols (kind "S").
"""
from functools import lru_cache
from itertools import permutations, product

from . import base  # noqa: F401
from comb_spec_searcher import (
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
)
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies import SymmetryStrategy, VerificationStrategy

from .stats import StatsMixin, StatStrategyMixin, derive_stats
from .words import SettingsFactory, StatAtom


class T(tuple, CombinatorialObject):
    """
    ("@", letter), ("N", nonterminal, alternative, *trees) or ("S", *trees)
    """

    def letters(self):
        if self[0] == "@":
            return self[1]
        return "".join(t.letters() for t in self[3 if self[0] == "N" else 1 :])

    def size(self):
        return len(self.letters())


def leaf(a):
    return T(("@", a))


# ------------------------------------------------------------------ grammar facts
@lru_cache(maxsize=None)
def gr_minima(gr, letters):
    """Minimum number of letters (from `letters`, None for all) per nonterminal."""
    best = {}
    changed = True
    while changed:
        changed = False
        for i, alts in enumerate(gr):
            for alt in alts:
                cost = 0
                for s in alt:
                    if isinstance(s, str):
                        cost += 1 if letters is None or s in letters else 0
                    elif s in best:
                        cost += best[s]
                    else:
                        cost = None
                        break
                if cost is not None and (i not in best or best[i] > cost):
                    best[i] = cost
                    changed = True
    return best


@lru_cache(maxsize=None)
def gr_usable(gr):
    """The letters appearing in the trees of each productive nonterminal."""
    prod = gr_minima(gr, None)
    use = {i: frozenset() for i in prod}
    changed = True
    while changed:
        changed = False
        for i in prod:
            cur = set()
            for alt in gr[i]:
                if all(isinstance(s, str) or s in prod for s in alt):
                    for s in alt:
                        cur |= {s} if isinstance(s, str) else use[s]
            if cur != use[i]:
                use[i] = frozenset(cur)
                changed = True
    return use


@lru_cache(maxsize=None)
def gr_trees(gr, i, alt, n):
    """Trees of size n rooted at nonterminal i using the given alternative."""
    return tuple(
        T(("N", i, alt) + tuple(ch)) for ch in gr_tuples(gr, gr[i][alt], n)
    )


@lru_cache(maxsize=None)
def gr_tuples(gr, symbols, n):
    """Tuples of trees for the symbols with total size n (tuples of T)."""
    if not symbols:
        return ((),) if n == 0 else ()
    mins = gr_minima(gr, None)
    need = []
    for s in symbols:
        if isinstance(s, str):
            need.append(1)
        elif s in mins:
            need.append(mins[s])
        else:
            return ()
    if sum(need) > n:
        return ()
    first, rest = symbols[0], symbols[1:]
    spare = sum(need[1:])
    res = []
    for k in range(need[0], n - spare + 1):
        heads = gr_symbol(gr, first, k)
        if heads:
            tails = gr_tuples(gr, rest, n - k)
            res.extend((h,) + t for h in heads for t in tails)
    return tuple(res)


@lru_cache(maxsize=None)
def gr_symbol(gr, s, n):
    if isinstance(s, str):
        return (leaf(s),) if n == 1 else ()
    return tuple(t for a in range(len(gr[s])) for t in gr_trees(gr, s, a, n))


@lru_cache(maxsize=100000)
def gr_count(gr, s, n):
    """The number of trees of size n, without listing them."""
    if isinstance(s, str):
        return 1 if n == 1 else 0
    return sum(gr_count_tuples(gr, alt, n) for alt in gr[s])


@lru_cache(maxsize=100000)
def gr_count_tuples(gr, symbols, n):
    if not symbols:
        return 1 if n == 0 else 0
    mins = gr_minima(gr, None)
    if any(not isinstance(s, str) and s not in mins for s in symbols):
        return 0
    need = [1 if isinstance(s, str) else mins[s] for s in symbols]
    if sum(need) > n:
        return 0
    spare = sum(need[1:])
    return sum(
        gr_count(gr, symbols[0], k) * gr_count_tuples(gr, symbols[1:], n - k)
        for k in range(need[0], n - spare + 1)
    )


def check_grammar(gr):
    """
    Finitely many trees of each size: the graph A -> B with an edge for each occurrence of B
    in an alternative of A, all other symbols having minimum size 0, must be acyclic.
    No nonterminal may consist of a single tree of size zero (not productive in products).
    """
    mins = gr_minima(gr, None)
    edges = {i: set() for i in range(len(gr))}
    for i, alts in enumerate(gr):
        for alt in alts:
            if not all(isinstance(s, str) or s in mins for s in alt):
                continue
            costs = [1 if isinstance(s, str) else mins[s] for s in alt]
            for s, c in zip(alt, costs):
                if not isinstance(s, str) and sum(costs) - c == 0:
                    edges[i].add(s)
    state = {}

    def cyclic(v):
        state[v] = 1
        for w in edges[v]:
            if state.get(w) == 1 or (w not in state and cyclic(w)):
                return True
        state[v] = 2
        return False

    if any(v not in state and cyclic(v) for v in range(len(gr))):
        return False
    for i in range(len(gr)):
        if i in mins and mins[i] == 0 and sum(
            gr_count(gr, i, n) for n in range(5)
        ) == 1:
            return False
    return True


class G(StatsMixin, CombinatorialClass):
    """kind "N": data = (i, sorted tuple of alternatives); kind "S": data = symbols."""

    def __init__(self, gr, kind, data, stats=()):
        self.gr = gr
        if kind == "S" and len(data) == 1 and not isinstance(data[0], str):
            kind, data = "N", (data[0], tuple(range(len(gr[data[0]]))))
        self.kind = kind
        self.data = data
        self.stats = tuple((str(k), "".join(sorted(v))) for k, v in stats)
        self._key = (gr, kind, data, self.stats)
        self._hash = hash(self._key)

    def __setstate__(self, state):
        # the hash of a string differs from process to process
        self.__dict__.update(state)
        self._hash = hash(self._key)

    def _symbol_lists(self):
        if self.kind == "S":
            return [self.data]
        return [self.gr[self.data[0]][a] for a in self.data[1]]

    def is_empty(self):
        mins = gr_minima(self.gr, None)
        return not any(
            all(isinstance(s, str) or s in mins for s in syms)
            for syms in self._symbol_lists()
        )

    def is_atom(self):
        return self.kind == "S" and (
            self.data == () or (len(self.data) == 1 and isinstance(self.data[0], str))
        )

    def _min(self, letters):
        mins = gr_minima(self.gr, letters)
        best = None
        for syms in self._symbol_lists():
            cost = 0
            for s in syms:
                if isinstance(s, str):
                    cost += 1 if letters is None or s in letters else 0
                elif s in mins:
                    cost += mins[s]
                else:
                    break
            else:
                best = cost if best is None else min(best, cost)
        return 0 if best is None else best

    def minimum_size_of_object(self):
        return self._min(None)

    def get_minimum_value(self, parameter):
        return self._min(dict(self.stats)[parameter])

    def objects_of_size(self, n, **parameters):
        if self.kind == "N":
            i, alts = self.data
            objs = (t for a in alts for t in gr_trees(self.gr, i, a, n))
        elif len(self.data) == 1:
            objs = iter(gr_symbol(self.gr, self.data[0], n))
        else:
            objs = (T(("S",) + t) for t in gr_tuples(self.gr, self.data, n))
        names = self.extra_parameters
        for t in objs:
            if parameters and self.get_parameters(t) != tuple(
                parameters[k] for k in names
            ):
                continue
            yield t

    @staticmethod
    def count_letters(obj, letters):
        return sum(1 for a in obj.letters() if a in letters)

    def usable_letters(self):
        use = gr_usable(self.gr)
        res = set()
        for syms in self._symbol_lists():
            if all(isinstance(s, str) or s in use for s in syms):
                for s in syms:
                    res |= {s} if isinstance(s, str) else use[s]
        return frozenset(res)

    def replace(self, **kw):
        d = dict(gr=self.gr, kind=self.kind, data=self.data, stats=self.stats)
        d.update(kw)
        return type(self)(**d)

    def sub(self, kind, data):
        return type(self)(self.gr, kind, data, self.stats)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(
            gr=[[list(alt) for alt in alts] for alts in self.gr],
            kind=self.kind,
            data=(
                [self.data[0], list(self.data[1])]
                if self.kind == "N"
                else list(self.data)
            ),
            stats=[list(s) for s in self.stats],
        )
        return d

    @classmethod
    def from_dict(cls, d):
        gr = tuple(tuple(tuple(alt) for alt in alts) for alts in d["gr"])
        data = d["data"]
        data = (data[0], tuple(data[1])) if d["kind"] == "N" else tuple(data)
        return cls(gr, d["kind"], data, d["stats"])

    def __eq__(self, other):
        if not isinstance(other, G):
            return NotImplemented
        return type(self) is type(other) and self._key == other._key

    def __hash__(self):
        return self._hash

    def __repr__(self):
        return f"{type(self).__name__}({self.gr!r}, {self.kind!r}, {self.data!r}, {self.stats!r})"

    def __str__(self):
        return f"{self.kind}{self.data}{self.stats}"


class GB(G):
    """Compressible."""

    def to_bytes(self):
        return repr(self._key).encode()

    @classmethod
    def from_bytes(cls, b):
        from ast import literal_eval

        return cls(*literal_eval(b.decode()))


# ------------------------------------------------------------------ strategies
class AltSplit(StatStrategyMixin, DisjointUnionStrategy):
    """Trees by their root alternative: all at once ("all") or first/rest ("binary")."""

    def __init__(self, mode="keep", how="all", **kw):
        self.mode = mode
        self.how = how
        super().__init__(**kw)

    def formal_step(self):
        return f"split alternatives ({self.how})"

    def _groups(self, alts):
        if self.how == "all":
            return [(a,) for a in alts]
        if self.how == "binary":
            return [alts[:1], alts[1:]]
        if self.how == "last":
            return [alts[:-1], alts[-1:]]
        k = len(alts) // 2
        return [alts[k:], alts[:k]]

    def _children(self, c):
        if c.kind != "N" or len(c.data[1]) < 2:
            return None
        return tuple(c.sub("N", (c.data[0], g)) for g in self._groups(c.data[1]))

    def forward_map(self, comb_class, obj, children=None):
        return tuple(
            obj if obj[2] in g else None for g in self._groups(comb_class.data[1])
        )


class Unwrap(StatStrategyMixin, DisjointUnionStrategy):
    """A single alternative is equivalent to the sequence of its symbols."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    def formal_step(self):
        return "unwrap the root"

    def _children(self, c):
        if c.kind != "N" or len(c.data[1]) != 1:
            return None
        return (c.sub("S", c.gr[c.data[0]][c.data[1][0]]),)

    def forward_map(self, comb_class, obj, children=None):
        kids = obj[3:]
        return (kids[0] if len(kids) == 1 else T(("S",) + kids),)

    def backward_map(self, comb_class, objs, children=None):
        i, (a,) = comb_class.data
        alt = comb_class.gr[i][a]
        kids = (objs[0],) if len(alt) == 1 else tuple(objs[0][1:])
        yield T(("N", i, a) + kids)


class Factor(StatStrategyMixin, CartesianProductStrategy):
    """A sequence is the product of its symbols, or of two subsequences, in any order."""

    def __init__(self, mode="keep", how="all", rotate=0, **kw):
        self.mode = mode
        self.how = how
        self.rotate = rotate
        super().__init__(**kw)

    def formal_step(self):
        return f"factor ({self.how})"

    def _pieces(self, syms):
        k = len(syms)
        if self.how == "all":
            idx = [(i,) for i in range(k)]
        elif self.how == "first":
            idx = [(0,), tuple(range(1, k))]
        elif self.how == "last":
            idx = [tuple(range(k - 1)), (k - 1,)]
        else:  # interleaved
            idx = [tuple(range(0, k, 2)), tuple(range(1, k, 2))]
        r = self.rotate % len(idx)
        return idx[r:] + idx[:r]

    def _children(self, c):
        if c.kind != "S" or len(c.data) < 2 or c.is_empty():
            return None
        return tuple(
            c.sub("S", tuple(c.data[i] for i in p)) for p in self._pieces(c.data)
        )

    def forward_map(self, comb_class, obj, children=None):
        kids = obj[1:]
        res = []
        for p in self._pieces(comb_class.data):
            part = tuple(kids[i] for i in p)
            res.append(part[0] if len(part) == 1 else T(("S",) + part))
        return tuple(res)

    def backward_map(self, comb_class, objs, children=None):
        kids = [None] * len(comb_class.data)
        for p, o in zip(self._pieces(comb_class.data), objs):
            part = (o,) if len(p) == 1 else tuple(o[1:])
            for i, x in zip(p, part):
                kids[i] = x
        yield T(("S",) + tuple(kids))


class Unfold(StatStrategyMixin, DisjointUnionStrategy):
    """Replace the j-th symbol (a nonterminal) of a sequence by its alternatives."""

    def __init__(self, mode="keep", which="first", maxlen=5, **kw):
        self.mode = mode
        self.which = which
        self.maxlen = maxlen
        super().__init__(**kw)

    def formal_step(self):
        return f"unfold the {self.which} nonterminal"

    def _pos(self, c):
        idx = [j for j, s in enumerate(c.data) if not isinstance(s, str)]
        if not idx:
            return None
        return idx[0] if self.which == "first" else idx[-1]

    def _children(self, c):
        if c.kind != "S" or len(c.data) < 2:
            return None
        j = self._pos(c)
        if j is None:
            return None
        kids = []
        for alt in c.gr[c.data[j]]:
            syms = c.data[:j] + alt + c.data[j + 1 :]
            if len(syms) > self.maxlen:
                return None
            kids.append(c.sub("S", syms))
        return tuple(kids)

    def forward_map(self, comb_class, obj, children=None):
        j = self._pos(comb_class)
        tree = obj[1 + j]
        flat = obj[1 : 1 + j] + tree[3:] + obj[2 + j :]
        img = flat[0] if len(flat) == 1 else T(("S",) + flat)
        return tuple(
            img if a == tree[2] else None
            for a in range(len(comb_class.gr[comb_class.data[j]]))
        )

    def backward_map(self, comb_class, objs, children=None):
        a = next(i for i, o in enumerate(objs) if o is not None)
        j = self._pos(comb_class)
        i = comb_class.data[j]
        alt = comb_class.gr[i][a]
        total = len(comb_class.data) - 1 + len(alt)
        kids = (objs[a],) if total == 1 else tuple(objs[a][1:])
        tree = T(("N", i, a) + kids[j : j + len(alt)])
        yield T(("S",) + kids[:j] + (tree,) + kids[j + len(alt) :])


class GEquivalence(StatStrategyMixin, DisjointUnionStrategy):
    """One child; subclasses give _child and object maps."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        kw.setdefault("possibly_empty", False)
        super().__init__(**kw)

    def _children(self, c):
        if c.is_empty():
            return None
        ch = self._child(c)
        return None if ch is None else (ch,)


class SortSymbols(GEquivalence):
    """Sequences are considered up to permutation: put the symbols in sorted order."""

    def formal_step(self):
        return "sort the symbols"

    @staticmethod
    def _perm(syms):
        return sorted(range(len(syms)), key=lambda j: (str(type(syms[j])), syms[j], j))

    def _child(self, c):
        if c.kind != "S" or len(c.data) < 2:
            return None
        perm = self._perm(c.data)
        if perm == list(range(len(perm))):
            return None
        return c.sub("S", tuple(c.data[j] for j in perm))

    def forward_map(self, comb_class, obj, children=None):
        return (T(("S",) + tuple(obj[1 + j] for j in self._perm(comb_class.data))),)

    def backward_map(self, comb_class, objs, children=None):
        kids = [None] * len(comb_class.data)
        for pos, j in enumerate(self._perm(comb_class.data)):
            kids[j] = objs[0][1 + pos]
        yield T(("S",) + tuple(kids))


class RotateSymbols(SortSymbols):
    """Rotates the symbols (makes cycles of equivalences)."""

    def formal_step(self):
        return "rotate the symbols"

    @staticmethod
    def _perm(syms):
        return list(range(1, len(syms))) + [0]

    def _child(self, c):
        if c.kind != "S" or len(c.data) < 2 or len(set(c.data)) == 1:
            return None
        return c.sub("S", tuple(c.data[j] for j in self._perm(c.data)))


class OneWayRotate(RotateSymbols):
    """Same but one way: cycles of one way edges."""

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class SymReverse(StatStrategyMixin, SymmetryStrategy):
    """Symmetry: reverse the sequence of symbols."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    def formal_step(self):
        return "reverse the symbols"

    def _children(self, c):
        if c.kind != "S" or len(c.data) < 2:
            return None
        return (c.sub("S", c.data[::-1]),)

    def forward_map(self, comb_class, obj, children=None):
        return (T(("S",) + obj[1:][::-1]),)

    def backward_map(self, comb_class, objs, children=None):
        yield T(("S",) + tuple(objs[0][1:][::-1]))


class PruneAlts(GEquivalence):
    """Remove the alternatives without any tree."""

    def formal_step(self):
        return "remove the empty alternatives"

    def _child(self, c):
        if c.kind != "N":
            return None
        mins = gr_minima(c.gr, None)
        i, alts = c.data
        good = tuple(
            a
            for a in alts
            if all(isinstance(s, str) or s in mins for s in c.gr[i][a])
        )
        if good == alts or not good:
            return None
        return c.sub("N", (i, good))

    def forward_map(self, comb_class, obj, children=None):
        return (obj,)


class Twin(GEquivalence):
    """Another nonterminal has literally the same (chosen) alternatives."""

    def __init__(self, mode="keep", up=True, **kw):
        self.up = up
        super().__init__(mode, **kw)

    def formal_step(self):
        return "identical nonterminal"

    def _target(self, c):
        if c.kind != "N":
            return None
        i, alts = c.data
        mine = [c.gr[i][a] for a in alts]
        rng = range(i + 1, len(c.gr)) if self.up else range(i - 1, -1, -1)
        for j in rng:
            theirs = c.gr[j]
            if len(set(theirs)) != len(theirs) or len(set(mine)) != len(mine):
                continue
            if all(alt in theirs for alt in mine):
                pairs = sorted((theirs.index(alt), a) for a, alt in zip(alts, mine))
                return j, pairs
        return None

    def _child(self, c):
        res = self._target(c)
        if res is None:
            return None
        j, pairs = res
        return c.sub("N", (j, tuple(b for b, _ in pairs)))

    def forward_map(self, comb_class, obj, children=None):
        j, pairs = self._target(comb_class)
        b = next(b for b, a in pairs if a == obj[2])
        return (T(("N", j, b) + obj[3:]),)

    def backward_map(self, comb_class, objs, children=None):
        _, pairs = self._target(comb_class)
        a = next(a for b, a in pairs if b == objs[0][2])
        yield T(("N", comb_class.data[0], a) + tuple(objs[0][3:]))


class GRestat(GEquivalence):
    """Only normalises statistics."""

    def formal_step(self):
        return "normalise statistics"

    def _child(self, c):
        stats, _ = derive_stats(c.stats, c.usable_letters(), self.mode)
        return None if stats == c.stats else c.replace(stats=stats)

    def _with_stats(self, c, kids):
        return kids, (derive_stats(c.stats, c.usable_letters(), self.mode)[1],)

    def forward_map(self, comb_class, obj, children=None):
        return (obj,)


class PickSplit(AltSplit):
    """N(i, alts) = N(i, chosen) | N(i, the others)."""

    def __init__(self, chosen=(0,), mode="keep", **kw):
        super().__init__(mode, "pick", **kw)
        self.chosen = tuple(chosen)

    def _groups(self, alts):
        return [
            tuple(a for a in alts if a in self.chosen),
            tuple(a for a in alts if a not in self.chosen),
        ]

    def _children(self, c):
        if c.kind != "N" or not all(self._groups(c.data[1])):
            return None
        return super()._children(c)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.pop("how", None)
        d["chosen"] = list(self.chosen)
        return d


class OneWaySplit(AltSplit):
    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class SuperclassFactory(SettingsFactory):
    """Foreign parent: N(i, all) = N(i, S) | N(i, rest)."""

    def __call__(self, c):
        if c.kind != "N":
            return
        i, alts = c.data
        full = tuple(range(len(c.gr[i])))
        if alts == full:
            return
        parent = c.sub("N", (i, full))
        rule = PickSplit(alts, self.settings.get("mode", "keep"))(parent)
        if c in rule.children:
            yield rule


class ContextFactory(SettingsFactory):
    """Foreign parent: the sequences in which the class is a factor."""

    def __call__(self, c):
        if c.kind != "N" or c.data[1] != tuple(range(len(c.gr[c.data[0]]))):
            return
        if c.is_empty():
            return
        strat = Factor(self.settings.get("mode", "keep"), self.settings.get("how", "all"),
                       self.settings.get("rotate", 0))
        seen = set()
        for alts in c.gr:
            for alt in alts:
                if c.data[0] in alt and len(alt) >= 2 and alt not in seen:
                    seen.add(alt)
                    try:
                        rule = strat(c.sub("S", alt))
                    except StrategyDoesNotApply:
                        continue
                    if c in rule.children:
                        yield rule


class GMixedFactory(SettingsFactory):
    """Yields strategies, ready rules and lazily evaluated rules."""

    def __call__(self, c):
        from comb_spec_searcher.strategies.rule import Rule

        mode = self.settings.get("mode", "keep")
        kind = self.settings.get("kind", 0)
        for i, s in enumerate(
            [Factor(mode), AltSplit(mode), Unwrap(mode), Unfold(mode)]
        ):
            k = (kind + i) % 3
            if k == 0:
                yield s
            elif k == 1:
                try:
                    yield s(c)
                except StrategyDoesNotApply:
                    pass
            else:
                yield Rule(s, c)


class VerifyNT(VerificationStrategy):
    """Verifies some nonterminals (all their alternatives) by brute force or a pack."""

    def __init__(self, nts=(), with_pack=False, ignore_parent=True, mode="keep",
                 seqs=False, inner=(), via_pack=False):
        self.nts = tuple(nts)
        self.with_pack = with_pack
        self.mode = mode
        self.seqs = seqs
        self.inner = tuple(inner)
        # let the library count, generate and sample through a specification
        self.via_pack = via_pack and with_pack
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        if comb_class.is_empty():
            return False
        if comb_class.kind == "N":
            return comb_class.data[0] in self.nts
        return (
            self.seqs
            and len(comb_class.data) > 1
            and all(isinstance(s, str) or s in self.nts for s in comb_class.data)
        )

    def formal_step(self):
        return f"verified nonterminals {self.nts}"

    def pack(self, comb_class):
        from comb_spec_searcher import StrategyPack

        if not self.with_pack:
            raise InvalidOperationError("no pack")
        vers = [StatAtom()]
        if self.inner:
            vers.append(VerifyNT(self.inner, True, True, self.mode))
        return StrategyPack(
            initial_strats=[Factor(self.mode), Unwrap(self.mode)],
            inferral_strats=[],
            expansion_strats=[[AltSplit(self.mode)]],
            ver_strats=vers,
            name="pack of a verification strategy",
        )

    def get_specification(self, comb_class):
        if base.SPEC_HOOK is not None:
            return base.SPEC_HOOK(self, comb_class, super().get_specification)
        return super().get_specification(comb_class)

    def get_terms(self, comb_class, n):
        if self.via_pack:
            return super().get_terms(comb_class, n)
        if n > 12:
            from . import large

            return large.terms_of_size(comb_class, n)
        return CombinatorialClass.get_terms(comb_class, n)

    def get_objects(self, comb_class, n):
        if self.via_pack:
            return super().get_objects(comb_class, n)
        return CombinatorialClass.get_objects(comb_class, n)

    def get_genf(self, comb_class, funcs=None):
        if not self.with_pack:
            raise NotImplementedError("no generating function")
        return super().get_genf(comb_class, funcs)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        import random

        if self.via_pack:
            return super().random_sample_object_of_size(comb_class, n, **parameters)

        objs = list(comb_class.objects_of_size(n, **parameters))
        return random.choice(objs)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(nts=list(self.nts), with_pack=self.with_pack, mode=self.mode,
                 seqs=self.seqs, inner=list(self.inner), via_pack=self.via_pack)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class GProduct(StatStrategyMixin, CartesianProductStrategy):
    """A product with a single factor."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    _children = GEquivalence._children


class UnwrapCP(GProduct):
    formal_step = Unwrap.formal_step
    forward_map = Unwrap.forward_map
    backward_map = Unwrap.backward_map

    def _child(self, c):
        kids = Unwrap._children(self, c)
        return None if kids is None else kids[0]


class SortCP(GProduct):
    formal_step = SortSymbols.formal_step
    _perm = staticmethod(SortSymbols._perm)
    _child = SortSymbols._child
    forward_map = SortSymbols.forward_map
    backward_map = SortSymbols.backward_map


class PruneCP(GProduct):
    formal_step = PruneAlts.formal_step
    _child = PruneAlts._child
    forward_map = PruneAlts.forward_map

    def backward_map(self, comb_class, objs, children=None):
        yield objs[0]


class UnwrapNE(Unwrap):
    """Two-way, never an equivalence."""

    def can_be_equivalent(self):
        return False


class SortNE(SortSymbols):
    def can_be_equivalent(self):
        return False


class RotateNE(RotateSymbols):
    def can_be_equivalent(self):
        return False


class TwinNE(Twin):
    def can_be_equivalent(self):
        return False
