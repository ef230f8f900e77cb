"""Letter-count statistics shared by the universes."""
from . import base  # noqa: F401
import sympy

NAMES = ("k_0", "k_1", "k_2", "k_3")


def derive_stats(stats, usable, mode):
    """
    Statistics of a child all of whose objects only use letters of `usable`, together with
    the map parent statistic -> child statistic.

    - keep:   the same statistics
    - drop:   the statistics which are always 0 on the child are dropped
    - merge:  moreover statistics which agree on the child are merged
    - rename: moreover the surviving ones are renamed (in reverse order)
    - flip:   keeps the statistics but in reverse order
    """
    stats = tuple(stats)
    if mode == "keep":
        return stats, {k: k for k, _ in stats}
    if mode == "flip":
        return tuple(reversed(stats)), {k: k for k, _ in stats}
    restricted = [(k, "".join(sorted(set(v) & set(usable)))) for k, v in stats]
    mapping = {}
    new = []
    seen = {}
    for k, v in restricted:
        if not v:
            continue
        if mode in ("merge", "rename") and v in seen:
            mapping[k] = seen[v]
            continue
        seen[v] = k
        mapping[k] = k
        new.append((k, v if mode in ("merge", "rename") else dict(stats)[k]))
    if mode == "rename":
        pool = sorted(NAMES)[: len(new)]
        ren = {k: nk for (k, _), nk in zip(new, reversed(pool))}
        new = [(ren[k], v) for k, v in new]
        new.sort()
        mapping = {k: ren[c] for k, c in mapping.items()}
    return tuple(new), mapping


class StatsMixin:
    """Parts of a CombinatorialClass which depend only on its statistics."""

    @property
    def extra_parameters(self):
        return tuple(k for k, _ in self.stats)

    def get_terms(self, n):
        if self in base.UNLISTED:
            raise NotImplementedError("no list of objects")
        return super().get_terms(n)

    def get_objects(self, n):
        if self in base.UNLISTED:
            raise NotImplementedError("no list of objects")
        return super().get_objects(n)

    def get_parameters(self, obj):
        return tuple(self.count_letters(obj, v) for _, v in self.stats)

    def possible_parameters(self, n):
        names = self.extra_parameters
        seen = set()
        for obj in self.objects_of_size(n):
            p = self.get_parameters(obj)
            if p not in seen:
                seen.add(p)
                yield dict(zip(names, p))


class StatStrategyMixin:
    """
    Strategy whose children are first computed as if the statistics were kept, the
    statistics of every child being then derived according to self.mode.
    """

    def _with_stats(self, c, kids):
        new, maps = [], []
        for k in kids:
            stats, mapping = derive_stats(c.stats, k.usable_letters(), self.mode)
            new.append(k.replace(stats=stats))
            maps.append(mapping)
        return tuple(new), tuple(maps)

    def decomposition_function(self, comb_class):
        kids = self._children(comb_class)
        if kids is None:
            return None
        return self._with_stats(comb_class, kids)[0]

    def extra_parameters(self, comb_class, children=None):
        kids = self._children(comb_class)
        return self._with_stats(comb_class, kids)[1]

    def to_jsonable(self):
        d = super().to_jsonable()
        for k, v in self.__dict__.items():
            if not k.startswith("_"):
                d[k] = v
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


def stat_atom_genf(c):
    x = sympy.var("x")
    n = c.minimum_size_of_object()
    res = x**n
    obj = next(iter(c.objects_of_size(n)))
    for k, v in zip(c.extra_parameters, c.get_parameters(obj)):
        res *= sympy.var(k) ** v
    return res
