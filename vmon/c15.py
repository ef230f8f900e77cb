"""C15: the class database is a stable bijection between classes and dense labels."""
import pickle
import random

from . import num, setups, specwork
from . import words as w
from .runner import Violation, check
from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.class_db import ClassDB
from comb_spec_searcher.exception import NoMoreClassesToExpandError

RULE = (
    "Random histories of operations (labels of classes and of fresh equal copies, of labels, "
    "lookups by label and by class, explicit additions, emptiness in every way, membership "
    "of classes, labels, unknown and negative labels and foreign keys, pickling) on a class "
    "database over words, grammars, numbered classes (plain and compressed) and classes made "
    "to collide (equal hashes, nearly equal bytes, large bytes); a dictionary model answers "
    "every operation in lockstep. Also every call made on the class database during real "
    "searches. A case is non trivial when at least five classes were labelled and one was "
    "asked for again; identity: the history."
)
ASSUMPTIONS = ["to_bytes is canonical (equal classes have equal bytes) and from_bytes gives an "
               "equal class", "set_empty is only told the truth"]
QUICK = {"cases": 60000, "seconds": 300}
THOROUGH = {"cases": 6000000, "seconds": 800}
CASE_SECONDS = 20
TIMEOUT_VIOLATES = False
NEED = {"nontrivial": 5000, "operations": 300000, "labels_again": 30000,
        "emptiness_compared": 30000, "memberships": 50000, "compressed_cases": 5000,
        "unknown_labels": 5000, "broken_answers": 1000, "long_histories": 50, "foreign_keys": 5000, "search_calls": 20000,
        "lookups": 30000}


class Clash(CombinatorialClass):
    """Classes which are told apart by equality only."""

    def __init__(self, data, empty):
        self.data = data
        self.empty = empty

    def is_empty(self):
        return self.empty

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    def objects_of_size(self, n, **parameters):
        return iter(())

    def to_jsonable(self):
        raise NotImplementedError

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError

    def __eq__(self, other):
        return (isinstance(other, Clash) and self.data == other.data
                and self.empty == other.empty)

    def __hash__(self):
        return len(self.data) % 2

    def __repr__(self):
        return f"{type(self).__name__}({self.data!r}, {self.empty})"

    def __str__(self):
        return repr(self)

    def copy(self):
        return type(self)(bytes(bytearray(self.data)), self.empty)


class ClashB(Clash):
    """The same, compressed."""

    def to_bytes(self):
        return bytes([self.empty]) + self.data

    @classmethod
    def from_bytes(cls, b):
        return cls(b[1:], bool(b[0]))


class Mixed(Clash):
    """Only some of these can be compressed."""

    def to_bytes(self):
        if len(self.data) % 2:
            raise NotImplementedError
        return bytes([self.empty]) + self.data

    @classmethod
    def from_bytes(cls, b):
        return cls(b[1:], bool(b[0]))


class Family(Clash):
    """Classes of several kinds, equal only within the kind."""

    def __eq__(self, other):
        return (isinstance(other, Family) and type(self) is type(other)
                and self.data == other.data and self.empty == other.empty)

    def __hash__(self):
        return len(self.data) % 2


class Elder(Family):
    pass


class Younger(Family):
    pass


class FamilyB(Family):
    """The same, compressed; the kind is in the bytes."""

    def to_bytes(self):
        return type(self).__name__[0].encode() + bytes([self.empty]) + self.data

    @classmethod
    def from_bytes(cls, b):
        kind = {b"F": FamilyB, b"E": ElderB, b"Y": YoungerB}[b[:1]]
        return kind(b[2:], bool(b[1]))


class ElderB(FamilyB):
    pass


class YoungerB(FamilyB):
    pass


class Other(Clash):
    """A class of another kind, equal to nothing in the database."""

    def __eq__(self, other):
        return isinstance(other, Other) and self.data == other.data

    def __hash__(self):
        return len(self.data) % 2


def random_classes(rng):
    kind = rng.randrange(9)
    n = rng.choice([1, 3, 8, 20, 40]) if rng.random() < 0.99 else 700
    if kind in (0, 1, 6, 7, 8):
        cls = {0: ClashB, 1: Clash, 6: Mixed, 7: Family, 8: FamilyB}[kind]
        kinds = {7: [Family, Elder, Younger], 8: [FamilyB, ElderB, YoungerB]}.get(kind, [cls])
        res = []
        big = rng.random() < 0.1
        for _ in range(n):
            data = bytes(rng.randrange(3) for _ in range(rng.randint(0, 4 if n < 700 else 7)))
            if big:
                data = b"x" * rng.choice([1000, 40000]) + data
            res.append(rng.choice(kinds)(data, rng.random() < 0.4))
        return cls, res, lambda c: c.copy()
    if kind in (2, 3):
        cls = num.Num if kind == 2 else num.NumB
        return cls, [cls(rng.randrange(2 * n), rng.random() < 0.4) for _ in range(n)], \
            lambda c: cls(c.num, c.empty)
    cls = w.W if kind == 4 else w.WB
    res = []
    for _ in range(min(n, 20)):
        c = setups.random_word_class(rng, cls)
        res.append(c)
        if rng.random() < 0.5:
            # nearly the same
            res.append(c.replace(just=not c.just))
            res.append(c.replace(patterns=c.patterns | {"a", "b"}, req="ab"))
            res.append(c.replace(stats=c.stats[::-1]))
    return cls, res, lambda c: c.replace()


def histories(rng, obs):
    cls, classes, again = random_classes(rng)
    if "B" in cls.__name__ or cls is Mixed:
        obs.count("compressed_cases")
    db = ClassDB(cls)
    model, order, repeated = {}, [], 0
    history = []
    obs.case["history"] = history

    def expect(got, want, *what):
        if got != want:
            raise Violation(f"{what}: {got!r} instead of {want!r}; classes "
                            f"{[repr(c)[:200] for c in order]}; history {history[-60:]}")

    nops = rng.choice([5, 20, 60, 120]) if len(classes) < 600 else 1500
    if nops == 1500:
        obs.count("long_histories")
    for _ in range(nops):
        obs.count("operations")
        c = rng.choice(classes)
        if rng.random() < 0.5:
            c = again(c)
        op = rng.choice(["label", "label", "label_of_label", "class", "class_of_class", "in",
                         "in", "in_label", "empty", "empty", "empty_label", "set", "set_new", "add", "broken",
                         "foreign", "unknown", "pickle", "iter"])
        history.append((op, repr(c)[:60]))
        if op in ("label", "class_of_class", "add", "set_new"):
            if c in model:
                repeated += 1
                obs.count("labels_again")
            else:
                model[c] = len(order)
                order.append(c)
        if op == "label":
            expect(db.get_label(c), model[c], "label of", c)
        elif op == "add":
            db.add(c)
        elif op == "set_new":
            db.set_empty(c, c.is_empty())
        elif op == "class_of_class":
            expect(db.get_class(c), c, "class of", c)
            obs.count("lookups")
        elif op == "in":
            obs.count("memberships")
            expect(c in db, c in model, "membership of", c)
        elif op == "foreign":
            obs.count("foreign_keys")
            k = rng.choice([None, "a", 1.5, b"", ("x",), Other(b"\x00", False),
                            object(), [1], {}, set(), 2 + 1j])
            if isinstance(k, cls):
                k = None
            if isinstance(k, float):
                k = 0.5
            expect(k in db, False, "membership of", k)
            if cls in (ClashB, Mixed, FamilyB) and order:
                try:
                    b = rng.choice(order).to_bytes()
                except NotImplementedError:
                    continue
                expect(b in db, False, "membership of bytes", b)
        elif op == "unknown":
            obs.count("unknown_labels")
            k = rng.choice([len(order), len(order) + 1, len(order) + 1000, -1, -2,
                            -len(order), -len(order) - 1, 10 ** 12])
            if 0 <= k < len(order):
                continue
            expect(k in db, False, "membership of label", k)
            for f in (db.get_class, db.get_label):
                try:
                    res = f(k)
                except KeyError:
                    pass
                else:
                    raise Violation(f"label {k} was answered {res!r}, only {len(order)} "
                                    f"classes; history {history[-60:]}")
        elif op == "pickle" and rng.random() < 0.3:
            new = pickle.loads(pickle.dumps(db))
            expect(new == db, True, "pickled database")
            db = new
        elif op == "iter":
            expect(sorted(db), list(range(len(order))), "labels")
            expect(len(db.label_to_info), len(order), "number of labels")
        if not order:
            continue
        k = rng.randrange(len(order))
        if op == "label_of_label":
            expect(db.get_label(k), k, "label of", k)
        elif op == "class":
            obs.count("lookups")
            expect(db.get_class(k), order[k], "class of", k)
            expect(type(db.get_class(k)), type(order[k]), "type of", k)
        elif op == "in_label":
            obs.count("memberships")
            expect(k in db, True, "membership of", k)
        elif op in ("empty", "empty_label"):
            obs.count("emptiness_compared")
            c = again(order[k]) if rng.random() < 0.5 else order[k]
            got = db.is_empty(c) if op == "empty" else db.is_empty(c, k)
            expect(got, order[k].is_empty(), "emptiness of", c)
        elif op == "broken":
            # the question whether the class is empty fails, or is interrupted
            c = again(order[k])
            truth, stop = c.is_empty(), rng.choice([KeyboardInterrupt, ValueError])

            def broken():
                raise stop

            c.is_empty = broken
            obs.count("broken_questions")
            try:
                got = db.is_empty(c, k)
            except stop:
                obs.count("broken_answers")
            else:
                expect(got, truth, "emptiness of", c, "which is known already")
        elif op == "set":
            key = k if rng.random() < 0.5 else order[k]
            if order[k].is_empty():
                db.set_empty(key)
            else:
                db.set_empty(key, False)
    # everything, in the end
    for k, c in enumerate(order):
        expect(db.get_label(again(c)), k, "final label of", c)
        expect(db.get_class(k), c, "final class of", k)
        expect(db.is_empty(c, k), c.is_empty(), "final emptiness of", c)
        expect(c in db and k in db, True, "final membership of", c)
    expect(len(order) in db, False, "final membership of the next label")
    if len(order) >= 5 and repeated:
        obs.nontrivial(history)
        obs.sample({"class": cls.__name__, "labels": len(order), "history": history[:15]})


class Watched(ClassDB):
    """A class database which judges every call made to it."""

    def __init__(self, cls, obs):
        super().__init__(cls)
        self.obs = obs
        self.model = {}
        self.order = []

    def _labelled(self, c):
        if c not in self.model:
            self.model[c] = len(self.order)
            self.order.append(c)

    def get_label(self, key):
        if isinstance(key, CombinatorialClass):
            self._labelled(key)
            want = self.model[key]
        else:
            want = key
        got = super().get_label(key)
        self.obs.count("search_calls")
        check(got == want, "label of {} is {} instead of {}", key, got, want)
        return got

    def add(self, comb_class, *args, **kwargs):
        if isinstance(comb_class, CombinatorialClass):
            self._labelled(comb_class)
        return super().add(comb_class, *args, **kwargs)

    def set_empty(self, key, *args, **kwargs):
        if isinstance(key, CombinatorialClass):
            self._labelled(key)
        return super().set_empty(key, *args, **kwargs)

    def get_class(self, key):
        if isinstance(key, CombinatorialClass):
            self._labelled(key)
            want = key
        else:
            want = self.order[key]
        got = super().get_class(key)
        self.obs.count("search_calls")
        check(got == want, "class of {} is {} instead of {}", key, got, want)
        return got

    def is_empty(self, comb_class, label=None):
        got = super().is_empty(comb_class, label)
        self.obs.count("search_calls")
        self.obs.count("emptiness_compared")
        check(got == comb_class.is_empty(), "emptiness of {} is {}", comb_class, got)
        return got


def searching(rng, obs):
    from comb_spec_searcher import CombinatorialSpecificationSearcher

    setup = setups.random_setup(rng)
    dbname = rng.choice(setups.DBS)
    obs.case.update(setup.describe(), db=dbname)
    random.seed(rng.random())
    with specwork.clock(rng):
        classdb = Watched(type(setup.start), obs)
        searcher = CombinatorialSpecificationSearcher(
            setup.start, setup.pack, classdb=classdb, ruledb=setups.make_db(dbname))
        setups.limit_steps(searcher, 40)
        try:
            for _ in range(4):
                searcher.do_level()
                searcher.has_specification()
        except (setups.Limit, NoMoreClassesToExpandError):
            pass
        for k, c in enumerate(classdb.order):
            check(ClassDB.get_label(classdb, c) == k, "label of {}", c)
            check(ClassDB.get_class(classdb, k) == c, "class of {}", k)
            check(ClassDB.is_empty(classdb, c, k) == c.is_empty(),
                  "{} is remembered as {}empty", c, "not " if c.is_empty() else "")
        check(len(classdb.order) not in classdb, "more labels than classes")


def case(rng, index, obs):
    if rng.random() < 0.95:
        histories(rng, obs)
    else:
        searching(rng, obs)
