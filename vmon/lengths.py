"""
Universe E: words over some letters of exactly (kind W) or at least (kind S) a length, or no
words at all (kind E), or starting with their m-th letter (kind P). A tag makes many different classes of the same enumeration, and a
table drawn from a seed gives every class several rules whose children have any tags, so the
universe is full of alternatives, equivalences and cycles, while the objects, counts and
minima of every class are known from its definition alone.
"""
import random
from functools import lru_cache
from itertools import product

from . import base  # noqa: F401
from comb_spec_searcher import (
    CartesianProductStrategy,
    CombinatorialClass,
    DisjointUnionStrategy,
    StrategyPack,
)
from comb_spec_searcher.exception import InvalidOperationError
from comb_spec_searcher.strategies import SymmetryStrategy, VerificationStrategy

from .stats import StatsMixin, StatStrategyMixin
from .words import SettingsFactory, StatAtom, Word


class L(StatsMixin, CombinatorialClass):
    """seed is (number of the table, variant of it, number of tags, longest length)."""

    def __init__(self, kind="S", m=0, letters="ab", tag=0, seed=(0, 0, 1, 2), stats=()):
        self.kind = kind
        self.m = m
        self.letters = "".join(sorted(letters))
        self.tag = tag
        self.seed = tuple(seed)
        self.stats = tuple((str(k), "".join(sorted(v))) for k, v in stats)
        self._lkey = (kind, m, self.letters, tag, self.seed)

    def is_empty(self):
        return self.kind == "E"

    def is_atom(self):
        return self.kind == "W" and (self.m == 0 or len(self.letters) == 1)

    def minimum_size_of_object(self):
        return 1 if self.kind == "P" else self.m

    def get_minimum_value(self, parameter):
        counted = set(dict(self.stats)[parameter])
        if self.kind == "P":
            return int(self.letters[self.m] in counted)
        return self.m if set(self.letters) <= counted else 0

    def objects_of_size(self, n, **parameters):
        if self.kind == "E" or n < self.minimum_size_of_object() or (
                self.kind == "W" and n != self.m):
            return
        names = self.extra_parameters
        for letters in product(self.letters, repeat=n):
            if self.kind == "P" and letters[0] != self.letters[self.m]:
                continue
            w = Word("".join(letters))
            if parameters and self.get_parameters(w) != tuple(
                parameters[k] for k in names
            ):
                continue
            yield w

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(kind=self.kind, m=self.m, letters=self.letters, tag=self.tag,
                 seed=list(self.seed), stats=[list(s) for s in self.stats])
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["kind"], d["m"], d["letters"], d["tag"], d["seed"], d["stats"])

    def __eq__(self, other):
        if not isinstance(other, L):
            return NotImplemented
        return (type(self) is type(other) and self._lkey == other._lkey
                and self.stats == other.stats)

    def __hash__(self):
        return hash((self._lkey, self.stats))

    def __repr__(self):
        return (f"{type(self).__name__}({self.kind!r}, {self.m}, {self.letters!r}, "
                f"{self.tag}, {self.seed!r}, {self.stats!r})")

    def __str__(self):
        return repr(self)

    @staticmethod
    def count_letters(obj, letters):
        return sum(1 for a in obj if a in letters)

    def usable_letters(self):
        if self.kind == "E" or (self.kind == "W" and self.m == 0):
            return frozenset()
        return frozenset(self.letters)

    def replace(self, **kw):
        d = dict(kind=self.kind, m=self.m, letters=self.letters, tag=self.tag,
                 seed=self.seed, stats=self.stats)
        d.update(kw)
        return type(self)(**d)


class LB(L):
    """The same, stored compressed in the class database."""

    def to_bytes(self):
        return repr((self._lkey, self.stats)).encode()

    @classmethod
    def from_bytes(cls, b):
        from ast import literal_eval

        key, stats = literal_eval(b.decode())
        return cls(*key, stats)


# --------------------------------------------------------------------------- the tables
def shapes(kind, m, letters, top):
    """All (operation, pieces) for a class; a piece is (kind, m, letters)."""
    res = []
    starts = tuple(("P", i, letters) for i in range(len(letters)))
    if kind == "P":
        res.append(("product", (("W", 1, letters[m]), ("S", 0, letters))))
        return res
    if kind == "S" and m == 0:
        res.append(("union", (("W", 0, letters),) + starts))
    if kind == "S" and m == 1 and len(letters) > 1:
        res.append(("union", starts))
    if not top:
        if kind == "S" and m == 0:
            res.append(("union", (("W", 0, letters), ("S", 1, letters))))
        if kind == "S" and m == 1:
            res.append(("product", (("W", 1, letters), ("S", 0, letters))))
        if kind == "W" and m == 1 and len(letters) > 1:
            res.append(("union", tuple(("W", 1, a) for a in letters)))
        return res
    if kind == "S":
        if m < top:
            res.append(("union", (("W", m, letters), ("S", m + 1, letters))))
        if m + 1 < top:
            res.append(("union", (("W", m, letters), ("W", m + 1, letters),
                                  ("S", m + 2, letters))))
        for i in range(1, m + 1):
            res.append(("product", (("W", i, letters), ("S", m - i, letters))))
            if i < m:
                res.append(("product", (("W", i, letters), ("W", 1, letters),
                                        ("S", m - i - 1, letters))))
    else:
        for i in range(1, m):
            res.append(("product", (("W", i, letters), ("W", m - i, letters))))
        if m >= 3:
            res.append(("product", (("W", 1, letters), ("W", m - 2, letters),
                                    ("W", 1, letters))))
        if m == 1 and len(letters) > 1:
            for i in range(1, len(letters)):
                res.append(("union", (("W", 1, letters[:i]), ("W", 1, letters[i:]))))
            if len(letters) > 2:
                res.append(("union", tuple(("W", 1, a) for a in letters)))
    return res


def canonical(kind, m, letters):
    if kind == "P":
        return ("product", (("W", 1, letters[m]), ("S", 0, letters)))
    if kind == "S" and m == 0:
        return ("union", (("W", 0, letters), ("S", 1, letters)))
    if kind == "S":
        return ("product", (("W", 1, letters), ("S", m - 1, letters)))
    if m > 1:
        return ("product", (("W", 1, letters), ("W", m - 1, letters)))
    return ("union", tuple(("W", 1, a) for a in letters))


def draw(rng, kind, m, letters, tag, tags, top):
    """The rules of a class in the table: (operation, pieces with tags, order of pieces)."""
    res = []
    known = shapes(kind, m, letters, top)
    rng.shuffle(known)
    amount = rng.choice([1, 1, 2, 2, 3]) if rng.random() < 0.93 else 0
    for op, pieces in known[:amount]:
        for _ in range(rng.choice([1, 1, 2, 2] if not top else [1, 1, 2])):
            kids = [p + (rng.randrange(tags),) for p in pieces]
            if op == "union" and rng.random() < (0.1 if top else 0.02):
                kids.append(("E", 0, letters, rng.randrange(tags)))
            order = list(range(len(kids)))
            rng.shuffle(order)
            res.append((op, tuple(kids), tuple(order)))
    if tags > 1:
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2] if top else [0] * 9 + [1])):
            other = rng.choice([t for t in range(tags) if t != tag])
            kids = ((kind, m, letters, other),)
            if rng.random() < 0.15:
                kids += (("E", 0, letters, rng.randrange(tags)),)
            res.append(("union", kids, tuple(range(len(kids)))))
    rng.shuffle(res)
    return res


@lru_cache(maxsize=20000)
def table(key):
    """The rules of the class: tuple of (operation, pieces in order of the objects, order)."""
    kind, m, letters, tag, (number, variant, tags, top) = key
    if kind == "E" or (kind == "W" and m == 0):
        return ()
    where = list(range(tags))
    if variant:
        random.Random(f"tags/{number}/{variant}").shuffle(where)
    orig = where.index(tag)
    res = draw(random.Random(f"{number}/{kind}/{m}/{letters}/{orig}"), kind, m, letters, orig,
               tags, top)
    if variant:
        rng = random.Random(f"{key}")
        new = []
        for op, kids, order in res:
            kids = [k[:3] + (where[k[3]],) for k in kids]
            if rng.random() < 0.4:
                order = list(order)
                rng.shuffle(order)
            if variant % 2 and rng.random() < 0.06:
                i = rng.randrange(len(kids))
                if kids[i][:3] != (kind, m, letters):
                    kids[i] = kids[i][:3] + (rng.randrange(tags),)
            if variant % 3 == 2 and rng.random() < 0.04:
                continue
            new.append((op, tuple(kids), tuple(order)))
        if rng.random() < 0.5:
            rng.shuffle(new)
        res = new
    return tuple(res)


def pick(c, op, index):
    """The index-th rule with the operation, -1 for the canonical one, or None."""
    if c.kind == "E" or (c.kind == "W" and c.m == 0):
        return None
    if index == -1:
        what, pieces = canonical(c.kind, c.m, c.letters)
        if what != op or len(pieces) == 1:
            return None
        return tuple(p + (c.tag,) for p in pieces), tuple(range(len(pieces)))
    rules = [r for r in table(c._lkey) if r[0] == op]
    if index >= len(rules):
        return None
    return rules[index][1:]


class LMixin(StatStrategyMixin):
    def __init__(self, mode="keep", index=0, **kw):
        self.mode = mode
        self.index = index
        super().__init__(**kw)

    def _rule(self, c):
        return pick(c, self.OP, self.index)

    def _children(self, c):
        found = self._rule(c)
        if found is None:
            return None
        kids, order = found
        return tuple(
            c.replace(kind=kids[i][0], m=kids[i][1], letters=kids[i][2], tag=kids[i][3])
            for i in order
        )

    def formal_step(self):
        return f"{self.OP} {self.index}"


class LUnion(LMixin, DisjointUnionStrategy):
    OP = "union"

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        res = []
        for ch in children:
            ok = ch.kind != "E" and set(obj) <= set(ch.letters)
            if ch.kind == "P":
                ok = ok and obj[:1] == ch.letters[ch.m]
            else:
                ok = ok and len(obj) >= ch.m and (ch.kind == "S" or len(obj) == ch.m)
            res.append(Word(obj) if ok else None)
        return tuple(res)


class LUnionNE(LUnion):
    """Never an equivalence."""

    def can_be_equivalent(self):
        return False


class LUnionOneWay(LUnion):
    """The children do not know the parent."""

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class LProduct(LMixin, CartesianProductStrategy):
    OP = "product"

    def backward_map(self, comb_class, objs, children=None):
        _, order = self._rule(comb_class)
        parts = [None] * len(order)
        for pos, i in enumerate(order):
            parts[i] = objs[pos]
        yield Word("".join(parts))

    def forward_map(self, comb_class, obj, children=None):
        kids, order = self._rule(comb_class)
        pieces, at = [None] * len(kids), 0
        fixed = sum(k[1] for k in kids if k[0] == "W")
        for i, k in enumerate(kids):
            size = k[1] if k[0] == "W" else len(obj) - fixed
            pieces[i] = Word(obj[at:at + size])
            at += size
        return tuple(pieces[i] for i in order)


class LNormal(LMixin, DisjointUnionStrategy):
    """A smaller tag, for inferral."""

    OP = "normal"

    def __init__(self, mode="keep", index=0, **kw):
        kw.setdefault("possibly_empty", False)
        super().__init__(mode, index, **kw)

    def _rule(self, c):
        if c.kind == "E" or not c.tag:
            return None
        rng = random.Random(f"normal/{self.index}/{c._lkey}")
        if rng.random() < 0.6:
            return None
        return ((c.kind, c.m, c.letters, rng.randrange(c.tag)),), (0,)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj),)


class LSym(LMixin, SymmetryStrategy):
    """Another tag."""

    OP = "symmetry"

    def __init__(self, mode="keep", index=0, **kw):
        super().__init__(mode, index, **kw)

    def _rule(self, c):
        if c.kind == "E" or c.seed[2] < 2:
            return None
        tag = (c.tag + 1 + self.index) % c.seed[2]
        return None if tag == c.tag else (((c.kind, c.m, c.letters, tag),), (0,))

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj),)

    def __repr__(self):
        return f"LSym({self.mode!r}, {self.index})"

    __str__ = __repr__


class LFactory(SettingsFactory):
    """Several rules of the table at once, possibly those of a class with the class as child."""

    def __call__(self, comb_class):
        mode, op = self.settings.get("mode", "keep"), self.settings.get("op", "both")
        for i in range(4):
            if op in ("both", "union"):
                yield LUnion(mode, i)
            if op in ("both", "product") and pick(comb_class, "product", i) is not None:
                yield LProduct(mode, i)(comb_class)
        if not self.settings.get("foreign", False) or comb_class.is_empty():
            return
        parents = [comb_class.replace(tag=t) for t in range(comb_class.seed[2])]
        if comb_class.kind == "S" and comb_class.m:
            parents = [p.replace(m=p.m - 1) for p in parents]
        for parent in parents:
            for kind in (LUnion, LProduct):
                for i in range(3):
                    strategy = kind(mode, i)
                    if pick(parent, strategy.OP, i) is None:
                        continue
                    if comb_class in strategy.decomposition_function(parent):
                        yield strategy(parent)
                        return


@lru_cache(maxsize=20000)
def chosen(arg, key):
    return random.Random(f"verify/{arg}/{key}").random() < 0.3


class LVerify(VerificationStrategy):
    """Verifies the classes of some kinds, tags and lengths that are not atoms."""

    def __init__(self, arg=0, with_pack=False, ignore_parent=True, mode="keep",
                 via_pack=False, nested=False):
        self.arg = arg
        self.with_pack = with_pack
        self.mode = mode
        self.nested = nested
        self.via_pack = via_pack and with_pack
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        c = comb_class
        if c.is_empty() or c.is_atom():
            return False
        return chosen(self.arg, c._lkey)

    def formal_step(self):
        return f"verified {self.arg}"

    def pack(self, comb_class):
        if not self.with_pack:
            raise InvalidOperationError("no pack")
        return StrategyPack(
            initial_strats=[LProduct(self.mode, -1)],
            inferral_strats=[],
            expansion_strats=[[LUnion(self.mode, -1)]],
            ver_strats=[StatAtom()],
            name="pack of a verification strategy",
        )

    def get_specification(self, comb_class):
        if base.SPEC_HOOK is not None:
            return base.SPEC_HOOK(self, comb_class, super().get_specification)
        return super().get_specification(comb_class)

    def get_terms(self, comb_class, n):
        if self.via_pack:
            return super().get_terms(comb_class, n)
        return CombinatorialClass.get_terms(comb_class, n)

    def get_objects(self, comb_class, n):
        if self.via_pack:
            return super().get_objects(comb_class, n)
        return CombinatorialClass.get_objects(comb_class, n)

    def get_genf(self, comb_class, funcs=None):
        if not self.with_pack:
            raise NotImplementedError("no generating function")
        return super().get_genf(comb_class, funcs)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        if self.via_pack:
            return super().random_sample_object_of_size(comb_class, n, **parameters)
        return random.choice(list(comb_class.objects_of_size(n, **parameters)))

    def to_jsonable(self):
        d = super().to_jsonable()
        for k, v in self.__dict__.items():
            if not k.startswith("_"):
                d[k] = v
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


# ----------------------------------------------------------------------- random choices
def random_seed(rng):
    if rng.random() < 0.4:
        # like automata: a state for every tag
        return (rng.randrange(10**6), 0, rng.choice([2, 3, 4, 6]), 0)
    return (rng.randrange(10**6), 0, rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 2, 3]))


def random_class(rng, cls=None, stats=()):
    cls = cls or rng.choice([L, L, LB])
    seed = random_seed(rng)
    letters = rng.choice(["a", "ab", "ab", "ab", "abc"])
    kind = rng.choice("SSW") if seed[3] else "S"
    m = rng.randint(0 if kind == "S" else 1, seed[3] or rng.choice([0, 0, 1]))
    return cls(kind, m, letters, rng.randrange(seed[2]), seed, stats)


def partner(rng, c):
    """(class, how): one that is often matched with c, through another table."""
    how = rng.choice(["same", "tag", "renamed", "renamed", "mutated", "mutated", "fewer",
                      "other"])
    number, _, tags, top = c.seed
    if how == "same":
        return c, how
    if how == "tag":
        return c.replace(tag=rng.randrange(tags)), how
    if how == "other":
        return c.replace(seed=(rng.randrange(10**6), 0, tags, top)), how
    variant = rng.randrange(10**6) * 6 + {"renamed": 6, "mutated": 7, "fewer": 8}[how]
    where = list(range(tags))
    random.Random(f"tags/{number}/{variant}").shuffle(where)
    return c.replace(seed=(number, variant, tags, top), tag=where[c.tag]), how


def plain_strategies(rng, modes=("keep",), limit=3):
    """Strategies that decompose most classes."""
    mode = lambda: rng.choice(modes)  # noqa: E731
    res = [LUnion(mode(), i) for i in range(limit)] + [LProduct(mode(), i)
                                                       for i in range(limit)]
    if rng.random() < 0.5:
        res += [LUnion(mode(), -1), LProduct(mode(), -1)]
    return res


def pack(rng, start, features, modes):
    mode = lambda: rng.choice(modes)  # noqa: E731
    initial, inferral, expansion, ver, sym = [], [], [], [], []
    distinct = not start.seed[3] and rng.random() < 0.8
    if distinct:
        # do not merge the tags
        features = set(features) - {"inferral", "equiv", "symmetry"}
    if "mixed" in features:
        strats = [LFactory(mode=mode(), op=rng.choice(["both", "both", "union"]))]
        strats += [LProduct(mode(), i) for i in range(rng.choice([0, 2]))]
    else:
        strats = []
        for i in range(3):
            strats.append(LUnion(mode(), i, ignore_parent=rng.random() < 0.2))
            strats.append(LProduct(mode(), i, ignore_parent=rng.random() < 0.2))
    if rng.random() < (0.2 if distinct else 0.6):
        strats += [LUnion(mode(), -1), LProduct(mode(), -1)]
    rng.shuffle(strats)
    groups = [[] for _ in range(rng.choice([1, 2, 2, 3]))]
    for s in strats:
        rng.choice(groups).append(s)
    if rng.random() < 0.5:
        initial = groups.pop()
    expansion = [grp for grp in groups if grp] or [[LUnion(mode(), -1)]]
    if "inferral" in features:
        inferral = [LNormal(mode(), i) for i in range(rng.choice([1, 1, 2]))]
    if "equiv" in features:
        rng.choice([initial] + expansion).append(LNormal(mode(), 2))
    if "symmetry" in features:
        sym = [LSym("keep", rng.randrange(2))]
    if "foreign" in features:
        rng.choice([initial] + expansion).append(
            LFactory(mode=mode(), op=rng.choice(["union", "product"]), foreign=True))
    if "oneway" in features:
        rng.choice([initial] + expansion).append(LUnionOneWay(mode(), 1))
    ver.append(StatAtom())
    if "verify" in features:
        ver.insert(rng.randint(0, 1), LVerify(
            rng.randrange(1000), "verpack" in features, rng.random() < 0.5, mode(),
            via_pack=rng.random() < 0.3))
    return StrategyPack(
        initial_strats=initial, inferral_strats=inferral, expansion_strats=expansion,
        ver_strats=ver, symmetries=sym, iterative="iterative" in features,
        name="random pack for lengths")
