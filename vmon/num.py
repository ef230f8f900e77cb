"""
Universe D: numbered classes without objects and table driven strategies, to reach rule
systems of any shape through the real searcher and rule databases.

Class i is Num(i); a row of a table is a dictionary

    parent, children    numbers
    two_way, reversible, equivalent (whether it can be an equivalence), possibly_empty
    ignore_parent, inferrable, workable
    shifts              tuple of integers
    kind                "rule" or "verify"
    ident               makes two rows with the same content different
"""
from . import base  # noqa: F401
from comb_spec_searcher import (
    CombinatorialClass,
    DisjointUnionStrategy,
    StrategyPack,
)
from comb_spec_searcher.exception import InvalidOperationError
from comb_spec_searcher.strategies import StrategyFactory, VerificationStrategy
from comb_spec_searcher.strategies.constructor import Complement, DisjointUnion


class Num(CombinatorialClass):
    """A numbered class, which is empty or not."""

    def __init__(self, num, empty=False):
        self.num = num
        self.empty = empty

    def is_empty(self):
        return self.empty

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    def objects_of_size(self, n, **parameters):
        return iter(())

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(num=self.num, empty=self.empty)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["num"], d["empty"])

    def __eq__(self, other):
        return isinstance(other, Num) and (self.num, self.empty) == (other.num, other.empty)

    def __hash__(self):
        return hash((self.num, self.empty))

    def __repr__(self):
        return f"{'E' if self.empty else 'N'}{self.num}"

    def __str__(self):
        return repr(self)


class NumB(Num):
    """The same, stored compressed."""

    def to_bytes(self):
        return repr((self.num, self.empty)).encode()

    @classmethod
    def from_bytes(cls, b):
        return cls(*eval(b.decode()))  # pylint: disable=eval-used


DEFAULTS = {
    "two_way": True, "reversible": True, "equivalent": True, "possibly_empty": True,
    "ignore_parent": False, "inferrable": True, "workable": True, "shifts": None,
    "kind": "rule", "ident": 0, "foreign": False,
}


class Row(DisjointUnionStrategy):
    """The strategy which applies to a single class, as told by a row."""

    def __init__(self, row, empties=(), compressed=False):
        row = {**DEFAULTS, **row}
        self.row = row
        self.empties = tuple(empties)
        self.compressed = compressed
        super().__init__(row["ignore_parent"], row["inferrable"], row["possibly_empty"],
                         row["workable"])

    def num(self, i):
        return (NumB if self.compressed else Num)(i, i in self.empties)

    def decomposition_function(self, comb_class):
        if comb_class.num != self.row["parent"]:
            return None
        return tuple(self.num(i) for i in self.row["children"])

    def can_be_equivalent(self):
        return self.row["equivalent"]

    def is_two_way(self, comb_class):
        return self.row["two_way"]

    def is_reversible(self, comb_class):
        return self.row["reversible"]

    def shifts(self, comb_class, children=None):
        if self.row["shifts"] is None:
            return tuple(0 for _ in self.row["children"])
        return tuple(self.row["shifts"])

    def constructor(self, comb_class, children=None):
        return DisjointUnion(comb_class, children)

    def reverse_constructor(self, idx, comb_class, children=None):
        return Complement(comb_class, children, idx)

    def formal_step(self):
        return f"row {self.row['parent']} -> {self.row['children']} ({self.row['ident']})"

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def to_jsonable(self):
        raise NotImplementedError

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError

    def __repr__(self):
        return f"Row({self.row}, {self.empties})"


class VerifyRow(VerificationStrategy):
    """Verifies a single class."""

    def __init__(self, row):
        row = {**DEFAULTS, **row}
        self.row = row
        super().__init__(row["ignore_parent"])

    def verified(self, comb_class):
        return comb_class.num == self.row["parent"]

    def formal_step(self):
        return f"verified {self.row['parent']}"

    def pack(self, comb_class):
        raise InvalidOperationError("no pack")

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError

    def __repr__(self):
        return f"VerifyRow({self.row['parent']}, {self.row['ident']})"


def make_strategy(row, empties=(), compressed=False):
    return VerifyRow(row) if row.get("kind") == "verify" else Row(row, empties, compressed)


class Rows(StrategyFactory):
    """Yields the strategies of a table which concern the class it is given."""

    def __init__(self, rows, empties=(), compressed=False, how="strategy", all_rows=False):
        self.strategies = [make_strategy(r, empties, compressed) for r in rows]
        self.empties = tuple(empties)
        self.compressed = compressed
        self.how = how
        # also yield the strategies that do not apply
        self.all_rows = all_rows

    def __call__(self, comb_class):
        for s in self.strategies:
            if s.row["parent"] == comb_class.num:
                yield s(comb_class) if self.how == "rule" else s
            elif s.row["foreign"] and comb_class.num in s.row["children"]:
                # a rule for another class, of which this one is a child
                yield s(s.num(s.row["parent"]))
            elif self.all_rows:
                yield s

    def __str__(self):
        return "rows"

    def __repr__(self):
        return f"Rows({self.strategies}, {self.how})"

    def to_jsonable(self):
        raise NotImplementedError

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


def make_pack(rows, empties=(), compressed=False, iterative=False):
    """A pack from which every row can be obtained."""
    return StrategyPack(
        initial_strats=[], inferral_strats=[],
        expansion_strats=[[Rows(rows, empties, compressed)]], ver_strats=[],
        name="rows", iterative=iterative,
    )


def random_rows(rng, nlabels, nrows, p_single=0.35, p_ver=0.15, p_two=0.6, maxkids=3,
                empties=()):
    """A random table over classes 0..nlabels-1. Empty classes are never parents."""
    alive = [i for i in range(nlabels) if i not in empties]
    rows = []
    for _ in range(nrows):
        parent = rng.choice(alive)
        if rng.random() < p_ver:
            rows.append({"parent": parent, "children": (), "kind": "verify"})
            continue
        k = 1 if rng.random() < p_single else rng.randint(2, maxkids)
        children = tuple(rng.randrange(nlabels) for _ in range(k))
        if all(c in empties for c in children):
            continue
        real = [c for c in children if c not in empties]
        possibly_empty = bool(set(children) & set(empties)) or rng.random() < 0.5
        if real == [parent]:
            continue
        rows.append({
            "parent": parent, "children": children, "possibly_empty": possibly_empty,
            "two_way": rng.random() < p_two, "ident": rng.choice([0, 0, 0, 1]),
        })
    return rows


def random_pack(rng, maxlabels=14, maxrows=30, iterative=False, foreign=True):
    """
    (start class, pack, rows, empties): a pack whose strategies are the rows of a random
    table, alone or in factories, with all the flags.
    """
    nlabels = rng.randint(2, rng.choice([4, 8, maxlabels]))
    empties = tuple(i for i in range(1, nlabels) if rng.random() < 0.12)
    compressed = rng.random() < 0.4
    rows = random_rows(rng, nlabels, rng.randint(1, rng.choice([6, 14, maxrows])),
                       p_single=rng.choice([0.15, 0.4]), p_ver=rng.choice([0.05, 0.2]),
                       p_two=rng.choice([0.2, 0.6]), empties=empties)
    p = {f: rng.choice([0, 0, 0.1, 0.3]) for f in ("parent", "infer", "work", "foreign")}
    for r in rows:
        r["reversible"] = r.get("two_way", False) or rng.random() < 0.5
        r["equivalent"] = rng.random() < 0.8
        r["ignore_parent"] = rng.random() < p["parent"]
        r["inferrable"] = rng.random() >= p["infer"]
        r["workable"] = rng.random() >= p["work"]
        if r.get("kind") != "verify":
            r["shifts"] = tuple(rng.choice([0, 0, 0, 1, 1, 2]) for _ in r["children"])
            if r["equivalent"] and sum(c not in empties for c in r["children"]) == 1:
                # a class is never a shifted copy of an equivalent one
                r["shifts"] = tuple(int(c in empties) and s
                                    for c, s in zip(r["children"], r["shifts"]))
            if foreign and rng.random() < p["foreign"]:
                r["foreign"] = True
    rng.shuffle(rows)
    inferral, initial, expansion, ver, sym = [], [], [], [], []
    groups = {"inferral": [], "initial": [], "ver": [], "sym": []}
    expansion = [[] for _ in range(rng.randint(1, 3))]
    use_inf, use_sym = rng.random() < 0.5, rng.random() < 0.4
    for r in rows:
        kids = r["children"]
        if r.get("kind") == "verify":
            groups["ver"].append(r)
        elif len(kids) == 1 and kids[0] not in empties and use_inf and rng.random() < 0.5:
            groups["inferral"].append(r)
            r["foreign"] = False
        elif (len(kids) == 1 and kids[0] not in empties and use_sym and r["two_way"]
              and rng.random() < 0.4):
            groups["sym"].append(r)
            r["foreign"] = False
        elif rng.random() < 0.3:
            groups["initial"].append(r)
        else:
            rng.choice(expansion).append(r)

    def strats(rows):
        """Some rows on their own, the others in factories."""
        res, pool = [], []
        for r in rows:
            if r.get("foreign") or rng.random() < 0.5:
                pool.append(r)
            else:
                res.append(make_strategy(r, empties, compressed))
        while pool:
            k = rng.randint(1, len(pool))
            res.append(Rows(pool[:k], empties, compressed,
                            rng.choice(["strategy", "rule"]), rng.random() < 0.5))
            pool = pool[k:]
        rng.shuffle(res)
        return res

    expansion = [strats(g) for g in expansion]
    if not any(expansion):
        expansion = [[Rows([], empties, compressed)]]
    pack = StrategyPack(
        initial_strats=strats(groups["initial"]), inferral_strats=strats(groups["inferral"]),
        expansion_strats=expansion, ver_strats=strats(groups["ver"]),
        symmetries=strats(groups["sym"]), name="random rows", iterative=iterative,
    )
    return (NumB if compressed else Num)(0, False), pack, rows, empties
