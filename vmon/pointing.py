"""
Pointed classes: objects with a distinguished position, a construction of our own whose rule is
not bijective (forgetting the mark maps n objects to one), with a constructor of our own, an
order on the preimages which depends on a setting of the strategy, and index data for pairs of
rules whose orders differ. Tagged sums of such classes go with it.
"""
import random
from itertools import product

from . import base  # noqa: F401
from comb_spec_searcher import CombinatorialClass, CombinatorialObject, DisjointUnionStrategy
from comb_spec_searcher.strategies import Strategy
from comb_spec_searcher.strategies.constructor import Constructor
from comb_spec_searcher.strategies.rule import NonBijectiveRule


class Marked(CombinatorialObject):
    """Objects side by side, with a mark on one of the positions."""

    def __init__(self, parts, mark):
        self.parts = tuple(parts)
        self.mark = mark

    def __len__(self):
        return sum(p.size() for p in self.parts)

    def _key(self):
        return (self.parts, self.mark)

    def __eq__(self, other):
        return isinstance(other, Marked) and self._key() == other._key()

    def __lt__(self, other):
        return self._key() < other._key()

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return f"{self.parts!r}@{self.mark}"


class Tagged(CombinatorialObject):
    """An object of one of the parts of a sum."""

    def __init__(self, tag, obj):
        self.tag = tag
        self.obj = obj

    def __len__(self):
        return self.obj.size()

    def __eq__(self, other):
        return isinstance(other, Tagged) and (self.tag, self.obj) == (other.tag, other.obj)

    def __lt__(self, other):
        return (self.tag, self.obj) < (other.tag, other.obj)

    def __hash__(self):
        return hash((self.tag, self.obj))

    def __repr__(self):
        return f"{self.tag}:{self.obj!r}"


class Several(CombinatorialClass):
    """A class made of several others, which all have the same parameters."""

    def __init__(self, parts):
        self.parts = tuple(parts)
        assert self.parts
        assert len({p.extra_parameters for p in self.parts}) == 1

    @property
    def extra_parameters(self):
        return self.parts[0].extra_parameters

    def is_atom(self):
        return False

    def possible_parameters(self, n):
        seen = set()
        for obj in self.objects_of_size(n):
            p = self.get_parameters(obj)
            if p not in seen:
                seen.add(p)
                yield dict(zip(self.extra_parameters, p))

    def objects_of_size(self, n, **parameters):
        want = tuple(parameters[k] for k in self.extra_parameters) if parameters else None
        for obj in self._objects(n):
            if want is None or self.get_parameters(obj) == want:
                yield obj

    def to_jsonable(self):
        d = super().to_jsonable()
        d["parts"] = [p.to_jsonable() for p in self.parts]
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(map(CombinatorialClass.from_dict, d["parts"]))

    def __eq__(self, other):
        return type(self) is type(other) and self.parts == other.parts

    def __hash__(self):
        return hash((type(self).__name__, self.parts))

    def __repr__(self):
        return f"{type(self).__name__}{self.parts!r}"

    def __str__(self):
        return repr(self)


def _compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in _compositions(n - i, k - 1):
            yield (i, *rest)


class Pointed(Several):
    """Objects of the parts side by side, one position being marked."""

    def is_empty(self):
        return any(p.is_empty() for p in self.parts)

    def minimum_size_of_object(self):
        return sum(p.minimum_size_of_object() for p in self.parts)

    def get_minimum_value(self, parameter):
        return sum(p.get_minimum_value(parameter) for p in self.parts)

    def _objects(self, n):
        for sizes in _compositions(n, len(self.parts)):
            for objs in product(*(list(p.objects_of_size(i))
                                  for p, i in zip(self.parts, sizes))):
                for mark in range(n):
                    yield Marked(objs, mark)

    def get_parameters(self, obj):
        each = [p.get_parameters(o) for p, o in zip(self.parts, obj.parts)]
        return tuple(map(sum, zip(*each)))


class Sum(Several):
    """Disjoint union."""

    def is_empty(self):
        return all(p.is_empty() for p in self.parts)

    def minimum_size_of_object(self):
        return min(p.minimum_size_of_object() for p in self.parts if not p.is_empty())

    def get_minimum_value(self, parameter):
        return min(p.get_minimum_value(parameter) for p in self.parts if not p.is_empty())

    def _objects(self, n):
        for i, p in enumerate(self.parts):
            for obj in p.objects_of_size(n):
                yield Tagged(i, obj)

    def get_parameters(self, obj):
        return self.parts[obj.tag].get_parameters(obj.obj)


class Settings:
    """Settings of a strategy which survive a round trip through JSON."""

    def to_jsonable(self):
        d = super().to_jsonable()
        d["turn"] = self.turn
        if hasattr(self, "seed"):
            d["seed"] = self.seed
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def order(self, k):
        t = self.turn % k
        return list(range(t, k)) + list(range(t))


class TagSplit(Settings, DisjointUnionStrategy):
    """A sum is the union of its parts, taken from the one number `turn` on."""

    def __init__(self, turn=0, **kw):
        self.turn = turn
        super().__init__(**kw)

    def decomposition_function(self, comb_class):
        if not isinstance(comb_class, Sum):
            return None
        return tuple(comb_class.parts[i] for i in self.order(len(comb_class.parts)))

    def extra_parameters(self, comb_class, children=None):
        return tuple({k: k for k in comb_class.extra_parameters} for _ in comb_class.parts)

    def formal_step(self):
        return "split the sum"

    def forward_map(self, comb_class, obj, children=None):
        k = len(comb_class.parts)
        return tuple(obj.obj if i == obj.tag else None for i in self.order(k))

    def backward_map(self, comb_class, objs, children=None):
        order = self.order(len(comb_class.parts))
        for i, obj in zip(order, objs):
            if obj is not None:
                yield Tagged(i, obj)


class PointConstructor(Constructor):
    """n objects of the parent for each choice of objects in the children of total size n."""

    def __init__(self, parent, children, seed):
        self.parent = parent
        self.children = children
        self.seed = seed
        self.extra_parameters = tuple({k: k for k in parent.extra_parameters}
                                      for _ in children)

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        raise NotImplementedError("the mark is a derivation")

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def _ways(self, n, get):
        """(sizes, parameters of the children, numbers or lists of each of them)"""
        low = [c.minimum_size_of_object() for c in self.children]
        for sizes in _compositions(n, len(self.children)):
            if any(s < m for s, m in zip(sizes, low)):
                continue
            for way in product(*(list(g(s).items()) for g, s in zip(get, sizes))):
                yield sizes, [p for p, _ in way], [x for _, x in way]

    def get_terms(self, parent_terms, subterms, n):
        from collections import Counter
        res = Counter()
        for _, params, nums in self._ways(n, subterms):
            num = n
            for x in nums:
                num *= x
            if num:
                res[tuple(map(sum, zip(*params)))] += num
        return res

    def get_sub_objects(self, subobjs, n):
        for _, params, objs in self._ways(n, subobjs):
            yield tuple(map(sum, zip(*params))), tuple(objs)

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        names = self.parent.extra_parameters
        want = tuple(parameters[k] for k in names)
        r = random.randint(1, parent_count)
        for sizes in _compositions(n, len(self.children)):
            grids = [
                [()] if not names else
                [tuple(d[k] for k in names) for d in c.possible_parameters(s)]
                for c, s in zip(self.children, sizes)
            ]
            for ps in product(*grids):
                if tuple(map(sum, zip(*ps))) != want:
                    continue
                num = n
                for s, p, rec in zip(sizes, ps, subrecs):
                    num *= rec(n=s, **dict(zip(names, p)))
                r -= num
                if r <= 0:
                    return tuple(f(n=s, **dict(zip(names, p)))
                                 for s, p, f in zip(sizes, ps, subsamplers))
        raise AssertionError("nothing to sample")

    def equiv(self, other, data=None):
        if not isinstance(other, PointConstructor) or len(self.children) != len(other.children):
            return False, None
        if len(self.parent.extra_parameters) != len(other.parent.extra_parameters):
            return False, None
        if self.seed == other.seed:
            return True, None
        # the mark number i on one side is the number a + b - i on the other
        return True, sorted([self.seed, other.seed])


class PointRule(NonBijectiveRule):
    """Forget the mark."""

    def _forward_order(self, obj, image, data=None):
        return obj.mark

    def _backward_order_item(self, idx, objs, data=None):
        n = sum(o.size() for o in objs)
        if data is None:
            mark = idx
        else:
            assert self.strategy.seed in data, "index data of other rules"
            mark = (sum(data) - idx) % n
        for obj in self.backward_map(objs):
            if obj.mark == mark:
                return obj
        raise AssertionError("no such mark")


class Unpoint(Settings, Strategy):
    """The mark is forgotten; the parts are taken from the one number `turn` on."""

    def __init__(self, seed=0, turn=0, **kw):
        self.seed = seed
        self.turn = turn
        super().__init__(**kw)

    def __call__(self, comb_class, children=None):
        rule = super().__call__(comb_class, children)
        return PointRule(self, comb_class, rule.children)

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def shifts(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        low = [c.minimum_size_of_object() for c in children]
        return tuple(sum(low) - m for m in low)

    def decomposition_function(self, comb_class):
        if not isinstance(comb_class, Pointed):
            return None
        return tuple(comb_class.parts[i] for i in self.order(len(comb_class.parts)))

    def constructor(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        return PointConstructor(comb_class, children, self.seed)

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError

    def extra_parameters(self, comb_class, children=None):
        return tuple({k: k for k in comb_class.extra_parameters} for _ in comb_class.parts)

    def formal_step(self):
        return "forget the mark"

    def forward_map(self, comb_class, obj, children=None):
        return tuple(obj.parts[i] for i in self.order(len(obj.parts)))

    def backward_map(self, comb_class, objs, children=None):
        parts = [None] * len(objs)
        for i, obj in zip(self.order(len(objs)), objs):
            parts[i] = obj
        marked = [Marked(parts, m) for m in range(sum(o.size() for o in objs))]
        # in no particular order
        yield from marked[1::2] + marked[0::2]


# --------------------------------------------------------------------- random ones
def usable(c):
    """Whether the class can be pointed: not empty, without an object of size 0."""
    return not c.is_empty() and c.minimum_size_of_object() > 0


def random_shape(rng, depth=2):
    """A way to put classes together: ("leaf",), ("point", shapes), ("sum", shapes)."""
    if depth == 0 or rng.random() < 0.25:
        return ("leaf",)
    kind = rng.choice(["point", "point", "sum"])
    k = rng.choice([1, 1, 2]) if kind == "point" else rng.choice([1, 2, 2, 3])
    return (kind, [random_shape(rng, depth - 1) for _ in range(k)])


def leaves(shape):
    return 1 if shape[0] == "leaf" else sum(map(leaves, shape[1]))


def assemble(rng, shape, classes, shuffle=False, seeds=(0, 0, 1, 2)):
    """
    (class, rules for the classes which are put together) of that shape over the classes, in
    order. With `shuffle` the parts go to random places.
    """
    todo = iter(classes)
    rules = {}

    def go(sh):
        if sh[0] == "leaf":
            return next(todo)
        parts = [go(s) for s in sh[1]]
        if shuffle:
            rng.shuffle(parts)
        if sh[0] == "point":
            c = Pointed(parts)
            strat = Unpoint(rng.choice(seeds), rng.randrange(3))
        else:
            c = Sum(parts)
            strat = TagSplit(rng.randrange(3))
        rules.setdefault(c, strat(c))
        return c

    root = go(shape)
    return root, list(rules.values())
