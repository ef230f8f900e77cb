"""
Universe A: words over an alphabet, avoiding factors, starting with a prefix, optionally
containing a required factor, and carrying any number of letter-count statistics.

All the enumerations, emptiness and minimum computations below are brute force/BFS over the
definition of the class and share nothing with the library.
"""
from collections import deque
from functools import lru_cache
from itertools import product

from . import base  # noqa: F401  (sets up the import path)
from comb_spec_searcher import (
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
    StrategyFactory,
    StrategyPack,
)
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies import SymmetryStrategy, VerificationStrategy
from comb_spec_searcher.strategies.rule import Rule

from .stats import (
    StatsMixin,
    StatStrategyMixin,
    derive_stats,
    stat_atom_genf,
)


class Word(str, CombinatorialObject):
    def size(self):
        return str.__len__(self)


@lru_cache(maxsize=None)
def _words(alphabet, prefix, patterns, just, req, n):
    """All words of size n, as a tuple."""
    if any(p in prefix for p in patterns):
        return ()
    if just:
        return (prefix,) if len(prefix) == n and req in prefix else ()
    if n < len(prefix):
        return ()
    res = [prefix]
    for _ in range(n - len(prefix)):
        new = []
        for w in res:
            for a in alphabet:
                x = w + a
                if not any(x.endswith(p) for p in patterns):
                    new.append(x)
        res = new
    return tuple(w for w in res if req in w)


@lru_cache(maxsize=None)
def _minimum(alphabet, prefix, patterns, just, req, letters):
    """
    Minimum over the words of the class of the number of letters from `letters`
    (None for the size). Returns None if the class is empty.  0-1 BFS.
    """
    def cost(w):
        return len(w) if letters is None else sum(1 for a in w if a in letters)

    if any(p in prefix for p in patterns):
        return None
    if just:
        return cost(prefix) if req in prefix else None
    m = max([len(p) for p in patterns] + [len(req), 1])
    start = (prefix[-m:], req in prefix)
    dist = {start: cost(prefix)}
    todo = deque([start])
    while todo:
        state = todo.popleft()
        d = dist[state]
        suffix, found = state
        if found:
            # 0-1 BFS pops states in order of distance
            return d
        for a in alphabet:
            x = suffix + a
            if any(x.endswith(p) for p in patterns):
                continue
            nxt = (x[-m:], found or (req in x))
            c = 1 if letters is None or a in letters else 0
            if nxt not in dist or dist[nxt] > d + c:
                dist[nxt] = d + c
                if c:
                    todo.append(nxt)
                else:
                    todo.appendleft(nxt)
    return None


class W(StatsMixin, CombinatorialClass):
    """stats is a tuple of pairs (name, sorted string of letters)."""

    def __init__(self, prefix="", patterns=(), alphabet="ab", just=False, req="", stats=()):
        self.alphabet = tuple(sorted(alphabet))
        self.prefix = Word(prefix)
        self.patterns = frozenset(map(str, patterns))
        self.just = bool(just)
        self.req = str(req)
        self.stats = tuple((str(k), "".join(sorted(v))) for k, v in stats)
        self._key = (
            self.alphabet,
            str(prefix),
            tuple(sorted(self.patterns)),
            self.just,
            self.req,
        )

    # ---- library interface
    def is_empty(self):
        return _minimum(*self._key, None) is None

    def is_atom(self):
        return self.just and not self.is_empty()

    def minimum_size_of_object(self):
        res = _minimum(*self._key, None)
        return len(self.prefix) if res is None else res

    def get_minimum_value(self, parameter):
        letters = dict(self.stats)[parameter]
        res = _minimum(*self._key, letters)
        return 0 if res is None else res

    def objects_of_size(self, n, **parameters):
        names = self.extra_parameters
        for w in _words(*self._key, n):
            if parameters and self.get_parameters(w) != tuple(
                parameters[k] for k in names
            ):
                continue
            yield Word(w)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(
            prefix=str(self.prefix),
            patterns=sorted(self.patterns),
            alphabet="".join(self.alphabet),
            just=self.just,
            req=self.req,
            stats=[list(s) for s in self.stats],
        )
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(
            d["prefix"], d["patterns"], d["alphabet"], d["just"], d["req"], d["stats"]
        )

    def __eq__(self, other):
        if not isinstance(other, W):
            return NotImplemented
        return (
            type(self) is type(other)
            and self._key == other._key
            and self.stats == other.stats
        )

    def __hash__(self):
        return hash((self._key, self.stats))

    def __repr__(self):
        return (
            f"{type(self).__name__}({str(self.prefix)!r}, {sorted(self.patterns)!r}, "
            f"{''.join(self.alphabet)!r}, {self.just!r}, {self.req!r}, {self.stats!r})"
        )

    def __str__(self):
        if self.just:
            return f"The word {str(self.prefix)!r} {self.stats}"
        res = f"Words {{{''.join(self.alphabet)}}} Av({','.join(sorted(self.patterns))})"
        if self.req:
            res += f" Co({self.req})"
        return res + f" prefix {str(self.prefix)!r} {self.stats}"

    # ---- helpers for strategies
    @staticmethod
    def count_letters(obj, letters):
        return sum(1 for a in obj if a in letters)

    def usable_letters(self):
        if self.just:
            return frozenset(self.prefix)
        return frozenset(a for a in self.alphabet if a not in self.patterns) | frozenset(
            self.prefix
        )

    def replace(self, **kw):
        d = dict(
            prefix=self.prefix,
            patterns=self.patterns,
            alphabet=self.alphabet,
            just=self.just,
            req=self.req,
            stats=self.stats,
        )
        d.update(kw)
        return type(self)(**d)


class WB(W):
    """Same as W but stored compressed in the class database."""

    def to_bytes(self):
        return repr((self._key, self.stats)).encode()

    @classmethod
    def from_bytes(cls, b):
        from ast import literal_eval

        (alphabet, prefix, patterns, just, req), stats = literal_eval(b.decode())
        return cls(prefix, patterns, alphabet, just, req, stats)


# ------------------------------------------------------------------ strategies
class Expand(StatStrategyMixin, DisjointUnionStrategy):
    """prefix = just prefix | prefix+a for each letter (order chosen by setting)."""

    def __init__(self, mode="keep", order=0, **kw):
        self.mode = mode
        self.order = order
        super().__init__(**kw)

    def _children(self, c):
        if c.just:
            return None
        letters = c.alphabet
        k = self.order % max(1, len(letters))
        letters = letters[k:] + letters[:k]
        kids = [c.replace(just=True)] + [c.replace(prefix=c.prefix + a) for a in letters]
        if self.order % 2:
            kids = kids[1:] + kids[:1]
        return tuple(kids)

    def formal_step(self):
        return "append a letter"

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        res = []
        for ch in children:
            if ch.just:
                ok = obj == ch.prefix
            else:
                ok = obj.startswith(ch.prefix)
            res.append(Word(obj) if ok else None)
        return tuple(res)


class ExpandNE(Expand):
    """The same, never an equivalence, not even with a single non empty child."""

    def can_be_equivalent(self):
        return False


def safe_index(c):
    words = list(c.patterns)
    if c.req and c.req not in c.prefix:
        words.append(c.req)
    prefix = c.prefix
    for i in range(len(prefix), -1, -1):
        # can we cut before position i?  No occurrence of a pattern may straddle the cut
        # i.e. no suffix-start j < i such that prefix[j:] is compatible with a pattern and
        # the occurrence extends beyond i
        ok = True
        for j in range(i):
            for p in words:
                rest = prefix[j:]
                if len(p) > i - j and p[: len(rest)] == rest[: len(p)]:
                    ok = False
        if ok:
            return i
    return 0


class RemoveFront(StatStrategyMixin, CartesianProductStrategy):
    """prefix = front * rest, possibly front cut in two, factors in any order."""

    def __init__(self, mode="keep", parts=2, rotate=0, **kw):
        self.mode = mode
        self.parts = parts
        self.rotate = rotate
        super().__init__(**kw)

    def _order(self, k):
        r = self.rotate % k
        idx = list(range(k))
        return idx[r:] + idx[:r]

    def _children(self, c):
        if c.just or c.is_empty():
            return None
        s = safe_index(c)
        if s < 1:
            return None
        front, rest = c.prefix[:s], c.prefix[s:]
        req = c.req if c.req not in c.prefix else ""
        if c.req and c.req in c.prefix:
            # occurrence may lie anywhere: it is in the prefix so no longer required
            req = ""
        last = c.replace(prefix=rest, req=req)
        if self.parts == 3 and len(front) >= 2:
            fronts = [front[:1], front[1:]]
        else:
            fronts = [front]
        kids = [c.replace(prefix=f, just=True, req="") for f in fronts] + [last]
        return tuple(kids[i] for i in self._order(len(kids)))

    def _cuts(self, c, k):
        s = safe_index(c)
        if k == 3:
            return [0, 1, s]
        return [0, s]

    def formal_step(self):
        return "remove front of prefix"

    def backward_map(self, comb_class, objs, children=None):
        order = self._order(len(objs))
        parts = [None] * len(objs)
        for pos, i in enumerate(order):
            parts[i] = objs[pos]
        yield Word("".join(parts))

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        k = len(children)
        cuts = self._cuts(comb_class, k)
        pieces = [
            Word(obj[a:b]) for a, b in zip(cuts, cuts[1:] + [len(obj)])
        ]
        return tuple(pieces[i] for i in self._order(k))


class WordEquivalence(StatStrategyMixin, DisjointUnionStrategy):
    """One child with the same set of objects."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        kw.setdefault("possibly_empty", False)
        super().__init__(**kw)

    def _child(self, c):
        raise NotImplementedError

    def _children(self, c):
        if c.is_empty():
            return None
        ch = self._child(c)
        return None if ch is None else (ch,)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj),)


class DropPatterns(WordEquivalence):
    """Remove a pattern containing another one or using an unavailable letter."""

    def formal_step(self):
        return "drop redundant pattern"

    def _child(self, c):
        if c.just:
            return None
        ok = c.usable_letters()
        for p in sorted(c.patterns, key=lambda p: (-len(p), p)):
            if any(q != p and q in p for q in c.patterns):
                return c.replace(patterns=c.patterns - {p})
            if len(p) > 1 and not set(p) <= ok:
                return c.replace(patterns=c.patterns - {p})
        return None


class DropLetter(WordEquivalence):
    """If a single letter is forbidden and not in the prefix, remove the letter."""

    def formal_step(self):
        return "drop forbidden letter"

    def _child(self, c):
        if c.just or len(c.alphabet) < 2:
            return None
        for a in c.alphabet:
            if a in c.patterns:
                return c.replace(
                    alphabet=tuple(b for b in c.alphabet if b != a),
                    patterns=c.patterns - {a},
                )
        return None


class DropReq(WordEquivalence):
    """The required factor is in the prefix already."""

    def formal_step(self):
        return "requirement already satisfied"

    def _child(self, c):
        if c.req and c.req in c.prefix:
            return c.replace(req="")
        return None


class Restat(WordEquivalence):
    """Only normalises the statistics (dropping, merging or renaming some of them)."""

    def formal_step(self):
        return "normalise statistics"

    def _child(self, c):
        stats, _ = derive_stats(c.stats, c.usable_letters(), self.mode)
        if stats == c.stats:
            return None
        return c.replace(stats=stats)

    def _with_stats(self, c, kids):
        return kids, (derive_stats(c.stats, c.usable_letters(), self.mode)[1],)


class OneWay(WordEquivalence):
    """An equivalence which refuses to be used backward."""

    def formal_step(self):
        return "one way equivalence"

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def _child(self, c):
        # add a redundant pattern: something containing a pattern
        if c.just or not c.patterns or len(c.prefix) > 1:
            return None
        p = min(c.patterns)
        q = p + c.alphabet[0]
        if q in c.patterns or len(c.patterns) > 3 or len(p) > 3:
            return None
        return c.replace(patterns=c.patterns | {q})


class OneWayDrop(DropPatterns):
    """Same, but in one direction only."""

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class OneWayUnion(StatStrategyMixin, DisjointUnionStrategy):
    """
    A union refusing to be used backward whose children are often empty but one.
    """

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    def formal_step(self):
        return "one way append a letter"

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    _children = Expand._children
    forward_map = Expand.forward_map
    order = 0


class PermuteLetters(StatStrategyMixin, SymmetryStrategy):
    """Rename the letters by rotating the alphabet."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    def formal_step(self):
        return "rotate the alphabet"

    @staticmethod
    def _tables(c):
        al = c.alphabet
        fwd = str.maketrans("".join(al), "".join(al[1:] + al[:1]))
        bwd = str.maketrans("".join(al[1:] + al[:1]), "".join(al))
        return fwd, bwd

    def _children(self, c):
        if len(c.alphabet) < 2 or not set(c.prefix) <= set(c.alphabet):
            return None
        if not all(set(p) <= set(c.alphabet) for p in c.patterns | {c.req}):
            return None
        f, _ = self._tables(c)
        ch = c.replace(
            prefix=c.prefix.translate(f),
            patterns=[p.translate(f) for p in c.patterns],
            req=c.req.translate(f),
            stats=tuple((k, v.translate(f)) for k, v in c.stats),
        )
        return (ch,)

    def _with_stats(self, c, kids):
        return kids, tuple({k: k for k, _ in c.stats} for _ in kids)

    def forward_map(self, comb_class, obj, children=None):
        f, _ = self._tables(comb_class)
        return (Word(obj.translate(f)),)

    def backward_map(self, comb_class, objs, children=None):
        _, b = self._tables(comb_class)
        yield Word(objs[0].translate(b))


class Reverse(StatStrategyMixin, SymmetryStrategy):
    """Reverse the words (only without prefix)."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    def formal_step(self):
        return "reverse"

    def _children(self, c):
        if c.just:
            return (c.replace(prefix=c.prefix[::-1], req=c.req[::-1],
                              patterns=[p[::-1] for p in c.patterns]),)
        if c.prefix:
            return None
        return (c.replace(patterns=[p[::-1] for p in c.patterns], req=c.req[::-1]),)

    def _with_stats(self, c, kids):
        return kids, tuple({k: k for k, _ in c.stats} for _ in kids)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj[::-1]),)

    def backward_map(self, comb_class, objs, children=None):
        yield Word(objs[0][::-1])


class AvoidOrContain(StatStrategyMixin, DisjointUnionStrategy):
    """Words = words avoiding p | words containing p."""

    def __init__(self, patt, mode="keep", **kw):
        self.patt = patt
        self.mode = mode
        super().__init__(**kw)

    def formal_step(self):
        return f"avoid or contain {self.patt}"

    def _children(self, c):
        if c.just or c.req or self.patt in c.patterns:
            return None
        return (
            c.replace(patterns=c.patterns | {self.patt}),
            c.replace(req=self.patt),
        )

    def forward_map(self, comb_class, obj, children=None):
        if self.patt in obj:
            return (None, Word(obj))
        return (Word(obj), None)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["patt"] = self.patt
        return d


# ------------------------------------------------------------------ factories
class SettingsFactory(StrategyFactory):
    """A factory with settings, comparing by settings."""

    def __init__(self, **settings):
        self.settings = settings

    def __str__(self):
        return f"{type(self).__name__}({self.settings})"

    __repr__ = __str__

    def to_jsonable(self):
        d = super().to_jsonable()
        d["settings"] = dict(self.settings)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d["settings"])


class AvoidOrContainFactory(SettingsFactory):
    """
    Yields strategies for the class and, for a class with a required factor, the rule of
    the bigger class (a rule whose parent is not the expanded class).
    """

    def __call__(self, c):
        mode = self.settings.get("mode", "keep")
        if c.just or len(c.prefix) > self.settings.get("maxlen", 1):
            return
        for p in self.settings["patts"]:
            if set(p) <= set(c.alphabet):
                yield AvoidOrContain(p, mode)
        if c.req and self.settings.get("foreign", True):
            parent = c.replace(req="")
            strat = AvoidOrContain(c.req, mode)
            try:
                rule = strat(parent)
            except StrategyDoesNotApply:
                return
            if c in rule.children:
                yield rule


class ParentExpansionFactory(SettingsFactory):
    """Foreign parent: yields the expansion of the class with the last letter erased."""

    def __call__(self, c):
        if c.just or not c.prefix or c.is_empty():
            return
        strat = Expand(self.settings.get("mode", "keep"))
        parent = c.replace(prefix=c.prefix[:-1])
        try:
            rule = strat(parent)
        except StrategyDoesNotApply:
            return
        if c in rule.children:
            yield rule


class AddFrontFactory(SettingsFactory):
    """Foreign parent: the class is a factor of a + class."""

    def __call__(self, c):
        if c.just or c.is_empty() or len(c.prefix) > self.settings.get("maxlen", 1):
            return
        strat = RemoveFront(
            self.settings.get("mode", "keep"),
            self.settings.get("parts", 2),
            self.settings.get("rotate", 0),
        )
        for a in c.alphabet:
            parent = c.replace(prefix=a + c.prefix)
            try:
                rule = strat(parent)
            except StrategyDoesNotApply:
                continue
            if c in rule.children:
                yield rule


class MixedFactory(SettingsFactory):
    """
    Yields, depending on its settings, strategies, ready-made rules or rules whose children
    are computed lazily (and which may turn out not to apply).
    """

    def __call__(self, c):
        mode = self.settings.get("mode", "keep")
        kind = self.settings.get("kind", 0)
        strats = [RemoveFront(mode), Expand(mode), DropPatterns(mode), DropLetter(mode)]
        for i, s in enumerate(strats):
            k = (kind + i) % 3
            if k == 0:
                yield s
            elif k == 1:
                try:
                    yield s(c)
                except StrategyDoesNotApply:
                    pass
            else:
                yield Rule(s, c)


# ------------------------------------------------------------- verification
class StatAtom(VerificationStrategy):
    """Atoms with any statistics."""

    def __init__(self):
        super().__init__(ignore_parent=True)

    def verified(self, comb_class):
        return bool(comb_class.is_atom())

    def formal_step(self):
        return "is a (decorated) atom"

    def pack(self, comb_class):
        raise InvalidOperationError("no pack for atoms")

    def get_terms(self, comb_class, n):
        return CombinatorialClass.get_terms(comb_class, n)

    def get_objects(self, comb_class, n):
        return CombinatorialClass.get_objects(comb_class, n)

    def get_genf(self, comb_class, funcs=None):
        return stat_atom_genf(comb_class)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        for obj in comb_class.objects_of_size(n, **parameters):
            return obj
        raise ValueError("no object of that size")

    def to_jsonable(self):
        d = super().to_jsonable()
        d.pop("ignore_parent")
        return d

    @classmethod
    def from_dict(cls, d):
        assert not d
        return cls()

    def __str__(self):
        return "verify decorated atoms"


class VerifyPrefix(VerificationStrategy):
    """
    Verifies classes by a predicate: "long" prefixes of at least k letters or "avoid"
    classes avoiding some pattern. Counted by brute force, or through a pack.
    """

    def __init__(self, kind="long", arg=2, with_pack=False, ignore_parent=True, mode="keep",
                 nested=False, via_pack=False):
        self.kind = kind
        self.arg = arg
        self.with_pack = with_pack
        self.mode = mode
        self.nested = nested
        # let the library count, generate and sample through a specification
        self.via_pack = via_pack and with_pack
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        if comb_class.just or comb_class.is_empty():
            return False
        if self.kind == "long":
            return len(comb_class.prefix) >= self.arg
        if self.kind == "avoid":
            return self.arg in comb_class.patterns
        if self.kind == "contain":
            return bool(comb_class.req)
        if self.kind == "all":
            return True
        raise ValueError(self.kind)

    def formal_step(self):
        return f"verified by {self.kind} {self.arg}"

    def pack(self, comb_class):
        if not self.with_pack:
            raise InvalidOperationError("no pack")
        vers = [StatAtom()]
        if self.nested and self.kind == "avoid":
            # deeper classes verified by a simpler strategy that also has a pack
            vers.append(
                VerifyPrefix("long", len(comb_class.prefix) + 2, True, True, self.mode)
            )
        return StrategyPack(
            initial_strats=[RemoveFront(self.mode)],
            inferral_strats=[],
            expansion_strats=[[Expand(self.mode)]],
            ver_strats=vers,
            name="pack of a verification strategy",
        )

    def get_specification(self, comb_class):
        if base.SPEC_HOOK is not None:
            return base.SPEC_HOOK(self, comb_class, super().get_specification)
        return super().get_specification(comb_class)

    def get_terms(self, comb_class, n):
        if self.via_pack:
            return super().get_terms(comb_class, n)
        if n > 12:
            from . import large

            return large.terms_of_size(comb_class, n)
        return CombinatorialClass.get_terms(comb_class, n)

    def get_objects(self, comb_class, n):
        if self.via_pack:
            return super().get_objects(comb_class, n)
        return CombinatorialClass.get_objects(comb_class, n)

    def get_genf(self, comb_class, funcs=None):
        if not self.with_pack:
            raise NotImplementedError("no generating function")
        return super().get_genf(comb_class, funcs)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        import random

        if self.via_pack:
            return super().random_sample_object_of_size(comb_class, n, **parameters)

        objs = list(comb_class.objects_of_size(n, **parameters))
        return random.choice(objs)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(
            kind=self.kind, arg=self.arg, with_pack=self.with_pack, mode=self.mode,
            nested=self.nested, via_pack=self.via_pack,
        )
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class WordProduct(StatStrategyMixin, CartesianProductStrategy):
    """A product with a single factor."""

    def __init__(self, mode="keep", **kw):
        self.mode = mode
        super().__init__(**kw)

    def _children(self, c):
        if c.is_empty():
            return None
        ch = self._child(c)
        return None if ch is None else (ch,)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj),)

    def backward_map(self, comb_class, objs, children=None):
        yield Word(objs[0])


class DropPatternsCP(WordProduct):
    formal_step = DropPatterns.formal_step
    _child = DropPatterns._child


class DropLetterCP(WordProduct):
    formal_step = DropLetter.formal_step
    _child = DropLetter._child


class DropReqCP(WordProduct):
    formal_step = DropReq.formal_step
    _child = DropReq._child


class DropPatternsNE(DropPatterns):
    """Two-way, never an equivalence."""

    def can_be_equivalent(self):
        return False


class DropLetterNE(DropLetter):
    def can_be_equivalent(self):
        return False


class DropReqNE(DropReq):
    def can_be_equivalent(self):
        return False
