"""C16: the work queue schedules every class completely, once, in order, and terminates."""
import random

from . import num, setups, specwork
from .runner import Violation, check
from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)

RULE = (
    "Random histories of additions, re-additions, stop, verified and not-inferrable marks "
    "(before, during and after the work of a label, also from inside a level) on queues for "
    "packs of every shape, consumed by next and by do_level; and the queues of real searches "
    "(all flags, symmetries, inferral) and of searches on table driven packs. A trace checker "
    "watches every call and every packet: no packet after a stop, none twice, none for a "
    "label never added, inferral before initial before each expansion set, no inferral after "
    "a not-inferrable mark; whenever the queue says it is exhausted every label never stopped "
    "has all its work, and it keeps saying so until something is added; a level ends as soon "
    "as the counter moved, and raises only when the queue ran dry without it moving. A case is "
    "non trivial when at least ten packets were handed out; identity: the trace."
)
ASSUMPTIONS = ["the strategies of a pack are different from each other"]
QUICK = {"cases": 200000, "seconds": 300}
THOROUGH = {"cases": 4000000, "seconds": 800}
CASE_SECONDS = 20
TIMEOUT_VIOLATES = True
NEED = {"nontrivial": 8000, "packets": 300000, "exhaustions": 20000, "levels": 10000,
        "levels_dry": 3000, "stops": 20000, "not_inferrable": 20000, "readded": 50000,
        "still_exhausted": 5000, "search_packets": 10000, "searches": 1000}


class Checker:
    """Judges the trace of a queue."""

    def __init__(self, pack, obs):
        self.obs = obs
        self.inferral = tuple(pack.inferral_strats)
        self.group = {}
        self.required = []
        for g, strats in enumerate([pack.initial_strats, *pack.expansion_strats]):
            for s in strats:
                check(id(s) not in self.group, "monitor: same strategy twice")
                self.group[id(s)] = g + 1
                self.required.append(s)
        self.added = {}
        self.stopped = set()
        self.not_inferrable = set()
        self.done = {}
        self.at = {}
        self.trace = []
        self.dry = False
        self.packets = 0
        self.limit = 10 ** 9

    def fail(self, msg, key=None):
        raise Violation(f"{msg}; trace {self.trace[-80:]}", key)

    def add(self, label):
        self.trace.append(("add", label))
        if label in self.added:
            self.obs.count("readded")
        self.added[label] = self.added.get(label, 0) + 1
        self.dry = False

    def stop(self, label):
        self.trace.append(("stop", label))
        self.stopped.add(label)
        self.obs.count("stops")

    def mark(self, label):
        self.trace.append(("not inferrable", label))
        self.not_inferrable.add(label)
        self.obs.count("not_inferrable")

    def packet(self, packet):
        label, strats, inferral = packet
        self.packets += 1
        self.obs.count("packets")
        strats = tuple(strats)
        name = "inferral" if inferral else [
            i for i, s in enumerate(self.required) if any(s is x for x in strats)]
        self.trace.append(("work", label, name))
        if label not in self.added:
            self.fail(f"work for {label} which was never added", "unknown")
        if label in self.stopped:
            self.fail(f"work for {label} which was told to stop", "stopped")
        if self.dry:
            self.fail(f"work for {label} after exhaustion although nothing was added", "dry")
        done = self.done.setdefault(label, set())
        if inferral:
            if strats != self.inferral or not strats:
                self.fail(f"inferral work {strats} is not the inferral strategies")
            if "inferral" in done:
                self.fail(f"inferral work of {label} twice", "twice")
            if label in self.not_inferrable:
                self.fail(f"inferral work of {label} which is not inferrable",
                          "not inferrable")
            if done:
                self.fail(f"inferral work of {label} after other work", "order")
            done.add("inferral")
            self.at[label] = 0
            return
        if not strats:
            self.fail("a packet without a strategy")
        for s in strats:
            if id(s) not in self.group:
                self.fail(f"{s} is not of the pack")
            if id(s) in done:
                self.fail(f"{name} handed out twice for {label}", "twice")
            g = self.group[id(s)]
            if g < self.at.get(label, 0):
                self.fail(f"{name} of group {g} for {label} after group {self.at[label]}",
                          "order")
            if g > self.at.get(label, 0):
                # everything before is complete
                for r in self.required:
                    if self.group[id(r)] < g and id(r) not in done:
                        self.fail(f"group {g} for {label} before group "
                                  f"{self.group[id(r)]} is complete", "order")
                if (self.inferral and "inferral" not in done
                        and label not in self.not_inferrable):
                    self.fail(f"group {g} for {label} before its inferral work", "order")
            self.at[label] = g
            done.add(id(s))

    def exhausted(self):
        self.trace.append(("exhausted",))
        self.obs.count("exhaustions")
        if self.dry:
            self.obs.count("still_exhausted")
        self.dry = True
        for label in self.added:
            if label in self.stopped:
                continue
            done = self.done.get(label, ())
            if (self.inferral and "inferral" not in done
                    and label not in self.not_inferrable):
                self.fail(f"exhausted without the inferral work of {label}", "incomplete")
            for i, s in enumerate(self.required):
                if id(s) not in done:
                    self.fail(f"exhausted without strategy {i} for {label}", "incomplete")


class Watched(DefaultQueue):
    """A queue whose calls are seen by a checker."""

    def __init__(self, pack, checker):
        super().__init__(pack)
        self.checker = checker
        self.inside = False

    def add(self, label):
        if not self.inside:
            self.checker.add(label)
        super().add(label)

    def set_verified(self, label):
        if not self.inside:
            self.checker.stop(label)
            self.inside = True
            try:
                super().set_verified(label)
            finally:
                self.inside = False
        else:
            super().set_verified(label)

    def set_not_inferrable(self, label):
        if not self.inside:
            self.checker.mark(label)
        super().set_not_inferrable(label)

    def set_stop_yielding(self, label):
        if not self.inside:
            self.checker.stop(label)
        super().set_stop_yielding(label)

    def __next__(self):
        if self.checker.packets > self.checker.limit:
            raise setups.Limit()
        outer, self.inside = self.inside, True
        try:
            wp = super().__next__()
        except StopIteration:
            self.checker.exhausted()
            raise
        finally:
            self.inside = outer
        self.checker.packet(wp)
        return wp


def random_pack(rng):
    def strats(lo, hi):
        return [num.Row({"parent": 0, "children": (1,), "ident": next(ids)})
                for _ in range(rng.randint(lo, hi))]

    ids = iter(range(100))
    return StrategyPack(
        initial_strats=strats(0, rng.choice([0, 1, 3])),
        inferral_strats=strats(0, rng.choice([0, 1, 2])),
        expansion_strats=[strats(rng.choice([0, 1, 1]), 2)
                          for _ in range(rng.choice([0, 1, 1, 2, 3]))],
        ver_strats=[], name="queue",
    )


def act(queue, labels, rng, weights):
    op = rng.choices(["add", "mark", "stop", "verify"], weights)[0]
    label = rng.choice(labels)
    if op == "add":
        queue.add(label)
    elif op == "mark":
        queue.set_not_inferrable(label)
    elif op == "stop":
        queue.set_stop_yielding(label)
    else:
        queue.set_verified(label)


def histories(rng, obs):
    pack = random_pack(rng)
    checker = Checker(pack, obs)
    queue = Watched(pack, checker)
    labels = list(range(rng.choice([1, 2, 3, 6, 12])))
    if rng.random() < 0.2:
        labels = [3 * i + 7 for i in labels]
    weights = rng.choice([(1, 0, 0, 0), (6, 1, 0, 0), (6, 1, 1, 0), (6, 2, 1, 1),
                          (3, 1, 2, 1)])
    obs.case.update(pack=[len(pack.initial_strats), len(pack.inferral_strats),
                          [len(g) for g in pack.expansion_strats]], trace=checker.trace)
    p_act = rng.choice([0.1, 0.5, 0.8])
    total = 0
    for _ in range(rng.choice([10, 40, 120])):
        r = rng.random()
        if r < p_act:
            act(queue, labels, rng, weights)
        elif r < p_act + (1 - p_act) * 0.8:
            try:
                next(queue)
            except StopIteration:
                total += 1
        else:
            level(queue, checker, labels, rng, weights, obs)
    # drain
    for _ in range(100000):
        try:
            next(queue)
        except StopIteration:
            break
    else:
        raise Violation("the queue does not end")
    for _ in range(rng.randint(0, 2)):
        try:
            next(queue)
        except StopIteration:
            continue
    finish(checker, obs)


def finish(checker, obs):
    if checker.packets >= 10:
        obs.nontrivial(checker.trace)
        obs.maximum("packets_in_a_case", checker.packets)
        obs.sample({k: (v if k != "trace" else str(v[:25])) for k, v in obs.case.items()})


def level(queue, checker, labels, rng, weights, obs):
    """One level, with additions and marks between the packets."""
    before = queue.levels_completed
    ended = False
    work = queue.do_level()
    obs.count("levels")
    try:
        for k in range(100000):
            moved = queue.levels_completed != before
            try:
                next(work)
            except StopIteration:
                break
            check(not moved, "work was handed out after the level counter moved; trace {}",
                  checker.trace[-60:])
            if k < 200 and rng.random() < 0.3:
                act(queue, labels, rng, weights)
        else:
            raise Violation("the level does not end")
    except NoMoreClassesToExpandError:
        ended = True
        obs.count("levels_dry")
        check(checker.dry, "a level ran dry although the queue did not say so")
        check(queue.levels_completed == before, "error although the level counter moved")
    if not ended:
        check(queue.levels_completed > before,
              "a level ended although the counter did not move; trace {}",
              checker.trace[-60:])


def searching(rng, obs):
    if rng.random() < 0.6:
        start, pack, rows, empties = num.random_pack(rng)
        obs.case.update(rows=rows, empties=empties)
    else:
        setup = setups.random_setup(rng)
        start, pack = setup.start, setup.pack
        obs.case.update(setup.describe())
    db = rng.choice(setups.DBS)
    obs.case.update(db=db)
    checker = Checker(pack, obs)
    obs.count("searches")
    # the universe of a search may be infinite
    checker.limit = rng.choice([20, 60, 250])
    random.seed(rng.random())
    with specwork.clock(rng):
        queue = Watched(pack, checker)
        searcher = CombinatorialSpecificationSearcher(
            start, pack, ruledb=setups.make_db(db), classqueue=queue,
            expand_verified=rng.random() < 0.3)
        mode = rng.choice(["levels", "packets", "auto"])
        try:
            if mode == "levels":
                for _ in range(4):
                    before = queue.levels_completed
                    searcher.do_level()
                    check(queue.levels_completed > before, "level did not move the counter")
            elif mode == "packets":
                for packet in queue:
                    setups.expand(searcher, packet)
            else:
                for _ in range(5):
                    try:
                        searcher.auto_search(max_expansion_time=rng.choice([0, 0.01, 1]))
                        break
                    except ExceededMaxtimeError:
                        pass
        except setups.Limit:
            pass
        except NoMoreClassesToExpandError:
            check(checker.dry, "NoMoreClassesToExpandError although the queue is not dry")
        except SpecificationNotFound:
            check(checker.dry, "SpecificationNotFound although the queue is not dry")
    obs.count("search_packets", checker.packets)
    finish(checker, obs)


def case(rng, index, obs):
    if rng.random() < 0.9:
        histories(rng, obs)
    else:
        searching(rng, obs)
