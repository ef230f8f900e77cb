"""
Universe C: synthetic classes with arbitrary statistics.

A class is either a base class, whose objects are listed by a seeded generator, or the
disjoint union / cartesian product of other classes with arbitrary parameter maps. The
truth about unions and products is computed here from the definition:

- union: a parent parameter takes the value of the child parameter it is mapped to, 0 if it is
  mapped to nothing
- product: the sum over the factors.
"""
import random
from functools import lru_cache

from . import base  # noqa: F401
from comb_spec_searcher import (
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
)

PARAM_NAMES = ("k_0", "k_1", "k_2", "k_3", "a", "b")


class O(tuple, CombinatorialObject):  # noqa: E742
    """An object: ("o", size, params, ident), ("u", idx, obj) or ("p", objs)."""

    def size(self):
        if self[0] == "o":
            return self[1]
        if self[0] == "u":
            return self[2].size()
        return sum(o.size() for o in self[1])

    def __str__(self):
        return repr(tuple(self))


class Syn(CombinatorialClass):
    """See the module."""

    def __init__(self, kind, data, names):
        self.kind = kind
        self.data = data
        self.names = tuple(names)
        self._hash = hash((kind, data, self.names))

    def __setstate__(self, state):
        # the hash of a string differs from process to process
        self.__dict__.update(state)
        self._hash = hash((self.kind, self.data, self.names))

    # base classes: data = (seed, minsize, minparams, maxmult, spread, growth)
    # unions and products: data = (children, maps) with maps a tuple of tuples of pairs
    def __eq__(self, other):
        return (
            isinstance(other, Syn)
            and self._hash == other._hash
            and (self.kind, self.data, self.names) == (other.kind, other.data, other.names)
        )

    def __hash__(self):
        return self._hash

    def __repr__(self):
        return f"Syn({self.kind!r}, {self.data!r}, {self.names!r})"

    def __str__(self):
        return repr(self)

    @property
    def extra_parameters(self):
        return self.names

    @property
    def children(self):
        return self.data[0]

    @property
    def maps(self):
        return tuple(dict(m) for m in self.data[1])

    @lru_cache(maxsize=None)
    def _objects(self, n):
        if n < 0:
            return ()
        if self.kind == "empty":
            return ()
        if self.kind == "atom":
            size, params = self.data
            return (O(("o", size, params, 0)),) if n == size else ()
        if self.kind == "base":
            seed, minsize, minparams, maxmult, spread, last = self.data
            if n < minsize or (last is not None and n > last):
                return ()
            rng = random.Random(f"{seed}/{n}")
            num = rng.randint(0, maxmult)
            res = []
            if n == minsize:
                res.append(O(("o", n, minparams, 0)))
            for _ in range(num):
                params = tuple(m + rng.randint(0, spread) for m in minparams)
                res.append(O(("o", n, params, len(res))))
            return tuple(res)
        if self.kind == "union":
            return tuple(
                O(("u", i, obj)) for i, c in enumerate(self.children) for obj in c._objects(n)
            )
        res = [((), n)]
        kids = self.children
        for j, c in enumerate(kids):
            new = []
            rest = sum(k.minimum_size_of_object() for k in kids[j + 1:])
            for objs, left in res:
                for m in range(left - rest + 1):
                    if j == len(kids) - 1 and m != left:
                        continue
                    new.extend((objs + (o,), left - m) for o in c._objects(m))
            res = new
        return tuple(O(("p", objs)) for objs, left in res if left == 0)

    def objects_of_size(self, n, **parameters):
        for obj in self._objects(n):
            if not parameters or self.get_parameters(obj) == tuple(
                parameters[k] for k in self.names
            ):
                yield obj

    def get_parameters(self, obj):
        if obj[0] == "o":
            return obj[2]
        if obj[0] == "u":
            child = self.children[obj[1]]
            sub = dict(zip(child.names, child.get_parameters(obj[2])))
            mapping = self.maps[obj[1]]
            return tuple(sub[mapping[k]] if k in mapping else 0 for k in self.names)
        total = [0] * len(self.names)
        for child, o, mapping in zip(self.children, obj[1], self.maps):
            sub = dict(zip(child.names, child.get_parameters(o)))
            for i, k in enumerate(self.names):
                if k in mapping:
                    total[i] += sub[mapping[k]]
        return tuple(total)

    def possible_parameters(self, n):
        seen = set()
        for obj in self._objects(n):
            p = self.get_parameters(obj)
            if p not in seen:
                seen.add(p)
                yield dict(zip(self.names, p))

    def is_empty(self):
        if self.kind == "empty":
            return True
        if self.kind == "union":
            return all(c.is_empty() for c in self.children)
        return False

    def is_atom(self):
        if self.kind == "union":
            kids = [c for c in self.children if not c.is_empty()]
            return len(kids) == 1 and kids[0].is_atom()
        if self.kind == "product":
            return all(c.is_atom() for c in self.children)
        return self.kind == "atom"

    @lru_cache(maxsize=None)
    def minimum_size_of_object(self):
        if self.kind == "atom":
            return self.data[0]
        if self.kind == "base":
            return self.data[1]
        if self.kind == "union":
            return min(
                (c.minimum_size_of_object() for c in self.children if not c.is_empty()),
                default=0,
            )
        if self.kind == "product":
            return sum(c.minimum_size_of_object() for c in self.children)
        return 0

    @lru_cache(maxsize=None)
    def get_minimum_value(self, parameter):
        pos = self.names.index(parameter)
        if self.kind == "atom":
            return self.data[1][pos]
        if self.kind == "base":
            return self.data[2][pos]
        vals = [
            c.get_minimum_value(m[parameter]) if parameter in m else 0
            for c, m in zip(self.children, self.maps)
            if not c.is_empty()
        ]
        if self.kind == "union":
            return min(vals, default=0)
        return sum(vals)

    def to_jsonable(self):
        return {**super().to_jsonable(), "data": _enc(self)}

    @classmethod
    def from_dict(cls, d):
        return _dec(d["data"])


def _enc(c):
    if c.kind in ("union", "product"):
        return [c.kind, [_enc(x) for x in c.children],
                [[list(p) for p in m] for m in c.data[1]], list(c.names)]
    return [c.kind, _lists(c.data), list(c.names)]


def _lists(x):
    return [_lists(y) for y in x] if isinstance(x, tuple) else x


def _tuples(x):
    return tuple(_tuples(y) for y in x) if isinstance(x, list) else x


def _dec(e):
    if e[0] in ("union", "product"):
        return Syn(e[0], (tuple(_dec(x) for x in e[1]),
                          tuple(tuple(map(tuple, m)) for m in e[2])), e[3])
    return Syn(e[0], _tuples(e[1]), e[2])


class SynMixin:
    """Strategies reading the structure of the synthetic class."""

    kind = None

    def decomposition_function(self, comb_class):
        if comb_class.kind != self.kind:
            return None
        return comb_class.children

    def extra_parameters(self, comb_class, children=None):
        return comb_class.maps

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class SynUnion(SynMixin, DisjointUnionStrategy):
    kind = "union"

    def __init__(self, **kw):
        super().__init__(**kw)

    def formal_step(self):
        return "synthetic union"

    def forward_map(self, comb_class, obj, children=None):
        return tuple(
            obj[2] if i == obj[1] else None for i in range(len(comb_class.children))
        )

    def backward_map(self, comb_class, objs, children=None):
        idx = self.backward_map_index(objs)
        yield O(("u", idx, objs[idx]))


class SynProduct(SynMixin, CartesianProductStrategy):
    kind = "product"

    def __init__(self, **kw):
        super().__init__(**kw)

    def formal_step(self):
        return "synthetic product"

    def forward_map(self, comb_class, obj, children=None):
        return obj[1]

    def backward_map(self, comb_class, objs, children=None):
        yield O(("p", tuple(objs)))


# ------------------------------------------------------------------ random classes
def random_base(rng, maxparams=3, allow_atom=True, names=None):
    if names is None:
        k = rng.choice([0, 1, 1, 2, 2, 3][: 2 * maxparams])
        names = tuple(rng.sample(PARAM_NAMES, min(k, maxparams)))
    minsize = rng.choice([0, 0, 1, 1, 2, 3])
    minparams = tuple(rng.choice([0, 0, 1, 2]) for _ in names)
    if allow_atom and rng.random() < 0.25:
        return Syn("atom", (minsize, minparams), names)
    last = rng.choice([None, None, minsize + rng.randint(1, 3)])
    return Syn(
        "base",
        (rng.randrange(10**6), minsize, minparams, rng.choice([1, 2, 3]),
         rng.choice([0, 1, 2]), last),
        names,
    )


def random_maps(rng, children, kind):
    """Names of the parent and maps covering every parameter of every child."""
    need = max([len(c.names) for c in children] + [0])
    k = min(len(PARAM_NAMES), rng.choice([need, need, need + 1, need + 2, 0 if not need else need]))
    names = tuple(rng.sample(PARAM_NAMES, k))
    maps = []
    for c in children:
        while True:
            m = {}
            for name in names:
                if c.names and rng.random() < 0.75:
                    m[name] = rng.choice(c.names)
            if set(m.values()) == set(c.names):
                break
            if rng.random() < 0.3:
                # force a cover
                picked = rng.sample(names, len(c.names))
                m.update(dict(zip(picked, c.names)))
                if set(m.values()) == set(c.names):
                    break
        items = list(m.items())
        if rng.random() < 0.5:
            rng.shuffle(items)
        maps.append(tuple(items))
    return names, tuple(maps)


def random_union(rng, kids=None, empties=0.25):
    if kids is None:
        kids = [random_base(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    kids = list(kids)
    if rng.random() < empties:
        for _ in range(rng.randint(1, 2)):
            names = tuple(rng.sample(PARAM_NAMES, rng.randint(0, 2)))
            kids.insert(rng.randint(0, len(kids)), Syn("empty", (), names))
    names, maps = random_maps(rng, kids, "union")
    return Syn("union", (tuple(kids), maps), names)


def random_product(rng, kids=None):
    if kids is None:
        kids = [random_base(rng) for _ in range(rng.choice([1, 2, 2, 2, 3, 3]))]
    names, maps = random_maps(rng, kids, "product")
    return Syn("product", (tuple(kids), maps), names)
