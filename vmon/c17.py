"""C17: a search pickled or interrupted at any point resumes faithfully."""
import atexit
import os
import pickle
import random
import struct
import subprocess
import sys

from . import base, num, packwork, setups, specvalid, specwork
from .runner import Violation, check, clip
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy

RULE = (
    "A random search (words, grammars, numbered classes with table driven packs; all rule "
    "databases; expand_verified) is driven by a random history of further calls: automatic "
    "searches with a time limit under a clock which advances one second for each packet "
    "handed out (so that every number of expansion steps is reached), levels, questions. "
    "Before each call the searcher may be pickled (all protocols, again and again), the "
    "restored one must equal it both ways and is given the same further calls with the same "
    "clock and random numbers, in this process or in another one with another hash seed: the "
    "packets handed out, the rules added, the answers, the specifications and in the end the "
    "classes, labels, emptiness, rules, equivalences, verified labels and what is left in the "
    "queue must be the same. Searches interrupted by their time limit at random steps are "
    "also compared with a twin which is never interrupted, event by event. Specifications "
    "handed back are validated as for C01 and C02. A case is non trivial when a searcher "
    "which had expanded something was restored and went on to expand at least three packets, "
    "or when an interrupted search went on; identity: the trace of the work."
)
ASSUMPTIONS = [
    "classes and strategies of the universes are picklable and compare by value",
    "which specification is extracted from a universe may depend on random choices",
]
QUICK = {"cases": 5000, "seconds": 420}
THOROUGH = {"cases": 1000000, "seconds": 800}
CASE_SECONDS = 60
NEED = {"nontrivial": 1000, "restored": 4000, "restored_midway": 2500, "restored_events": 50000,
        "restored_forest": 500, "restored_forest_rev": 500, "restored_forget": 500,
        "restored_base": 500, "interruptions": 5000, "twins": 300, "twin_events": 10000,
        "specs_validated": 400, "specs_after_interruption": 200, "restored_elsewhere": 200}

TRACE = {"log": None, "left": 0}


class TracedQueue(DefaultQueue):
    """Records the packets handed out; each takes a second."""

    def __next__(self):
        if TRACE["left"] <= 0:
            raise setups.Limit()
        packet = super().__next__()
        TRACE["left"] -= 1
        base.CLOCK.now += 1
        TRACE["log"].append(
            ("packet", packet.label, tuple(map(packwork.settings_repr, packet.strategies)),
             packet.inferral)
        )
        return packet


def record(start, ends, rule):
    TRACE["log"].append(
        ("rule", start, tuple(ends), type(rule).__name__, packwork.settings_repr(rule.strategy))
    )


class TracedRuleDB(RuleDB):
    def add(self, start, ends, rule):
        record(start, ends, rule)
        super().add(start, ends, rule)


class TracedForget(RuleDBForgetStrategy):
    def add(self, start, ends, rule):
        record(start, ends, rule)
        super().add(start, ends, rule)


class TracedForest(RuleDBForest):
    def add(self, start, ends, rule):
        record(start, ends, rule)
        super().add(start, ends, rule)


def make_db(name):
    if name == "base":
        return TracedRuleDB()
    if name == "forget":
        return TracedForget()
    return TracedForest(reverse=name == "forest_rev")


EPS = 0.001


class Run:
    """
    Gives calls to searchers, all with the same clock and random numbers. The outcome is made
    of plain values, so that it can be compared with one of another process.
    """

    def __init__(self, searcher, left):
        self.searcher = searcher
        self.left = left
        self.packets = 0
        self.spec = None

    def call(self, op):
        name, seed, args = op
        TRACE["log"], TRACE["left"] = [], self.left
        random.seed(seed)
        self.spec = None
        s = self.searcher
        with base.fake_clock(EPS):
            try:
                if name == "auto":
                    self.spec = s.auto_search(**args)
                    answer = "specification"
                elif name == "level":
                    s.do_level()
                    answer = "level"
                elif name == "has":
                    answer = bool(s.has_specification())
                elif name == "spec":
                    self.spec = s.get_specification(**args)
                    answer = "specification"
                elif name == "verified":
                    answer = [bool(s.ruledb.is_verified(i)) for i in list(s.classdb)]
                else:
                    raise AssertionError(name)
            except (ExceededMaxtimeError, SpecificationNotFound, NoMoreClassesToExpandError,
                    setups.Limit) as e:
                answer = type(e).__name__
        self.packets += self.left - TRACE["left"]
        self.left = TRACE["left"]
        return [TRACE["log"], answer]


def describe(spec):
    res = []
    for rule in spec.rules_dict.values():
        res.append((repr(rule.comb_class),
                    [(type(r).__name__, repr(r.comb_class), [repr(c) for c in r.children],
                      packwork.settings_repr(r.strategy), getattr(r, "idx", None))
                     for r in specvalid.steps(rule)]))
    return sorted(res)


def universe(searcher, drain=True):
    """All there is in the universe of the searcher, which may be altered by this."""
    res = {}
    TRACE["log"], TRACE["left"] = [], 10**9
    db, classdb = searcher.ruledb, searcher.classdb
    labels = sorted(classdb)
    res["classes"] = [(i, repr(classdb.get_class(i))) for i in labels]
    res["done"] = [sorted(getattr(searcher, n, ()))
                   for n in ("tried_to_verify", "symmetry_expanded", "inferral_expanded")]
    res["start"] = (searcher.start_label, repr(searcher.start_class))
    res["options"] = [searcher.expand_verified, searcher.debug,
                      setups.repr_pack(searcher.strategy_pack)]
    if isinstance(db, RuleDBForest):
        res["rules"] = sorted(db.table_method.pumping_subuniverse(), key=repr)
        res["function"] = sorted(db.table_method.function.items())
        res["forest_options"] = db.reverse
    else:
        res["rules"] = sorted(db)
        eq = {}
        for i in labels:
            eq.setdefault(db.equivdb[i], []).append(i)
        res["equivalence"] = sorted(eq.values())
        if isinstance(db, RuleDB):
            res["strategies"] = sorted(
                (k, packwork.settings_repr(s))
                for d in (db.rule_to_strategy, db.eqv_rule_to_strategy) for k, s in d.items()
            )
    res["verified"] = [bool(db.is_verified(i)) for i in labels]
    res["has"] = bool(db.has_specification())
    res["verified after"] = [bool(db.is_verified(i)) for i in labels]
    if drain:
        packets = []
        with base.fake_clock(EPS):
            try:
                while len(packets) < 200:
                    p = next(searcher.classqueue)
                    packets.append((p.label, tuple(map(packwork.settings_repr, p.strategies)),
                                    p.inferral))
            except StopIteration:
                packets.append("end")
        res["queue"] = packets
    res["emptiness"] = [bool(classdb.is_empty(classdb.get_class(i), i)) for i in labels]
    return res


def plain(x):
    """The same for the values of both processes."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)


def first_difference(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}[{i}]")
        return f"at {path} lengths {len(a)}, {len(b)}: " \
               f"{clip(a[len(b):] or b[len(a):], 300)}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a.get(k) != b.get(k):
                return first_difference(a[k], b.get(k), f"{path}.{k}")
    return f"at {path}: {clip(a, 300)} became {clip(b, 300)}"


def same(a, b, what, key):
    a, b = plain(a), plain(b)
    if a != b:
        raise Violation(f"{what}: {first_difference(a, b)}", key)


# ------------------------------------------------------- another process, another hash seed
CHILD = None


def remote(blob, left, ops):
    """Outcomes and universe of the restored searcher in another process."""
    global CHILD  # pylint: disable=global-statement
    if CHILD is None or CHILD.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(random.SystemRandom().randint(1, 10**6)),
                   VMON_REPO=base.REPO)
        CHILD = subprocess.Popen(  # pylint: disable=consider-using-with
            [sys.executable, "-c", "from vmon.c17 import serve; serve()"], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=base.VERIF)
        atexit.register(stop_child)
    try:
        send(CHILD.stdin, pickle.dumps((blob, left, ops)))
        return pickle.loads(receive(CHILD.stdout))
    except BaseException:
        stop_child()
        raise


def stop_child():
    global CHILD  # pylint: disable=global-statement
    if CHILD is not None:
        CHILD.kill()
        CHILD.communicate()
        CHILD = None


def send(f, data):
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


def receive(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError()
    return f.read(struct.unpack("<Q", head)[0])


def serve():
    logging_off()
    out = sys.stdout.buffer
    while True:
        try:
            blob, left, ops = pickle.loads(receive(sys.stdin.buffer))
        except EOFError:
            return
        try:
            run = Run(pickle.loads(blob), left)
            res = ("ok", [plain(run.call(op)) for op in ops], plain(universe(run.searcher)))
        except Exception as e:  # pylint: disable=broad-except
            import traceback
            res = ("failed", f"{type(e).__name__}: {e}", clip(traceback.format_exc(), 3000))
        send(out, pickle.dumps(res))


def logging_off():
    import logging
    logging.disable(logging.CRITICAL)


# --------------------------------------------------------------------------------- the cases
def random_history(rng, single, iterative):
    ops = []
    for _ in range(rng.randint(2, 9)):
        k = rng.random()
        seed = rng.random()
        if k < 0.7:
            args = {"max_expansion_time": rng.choice([0, 0, 0, 1, 2, 3, 5, 8, 13, 21]),
                    "perc": 100}
            if not single:
                # time spent asking for a specification is multiplied by 100/perc
                args["perc"] = rng.choice([1, 0.1, 0.05, 5, 100])
            if rng.random() < 0.2 and not iterative:
                args["smallest"] = True
            ops.append(("auto", seed, args))
        elif k < 0.78:
            ops.append(("level", seed, {}))
        elif k < 0.88:
            ops.append(("has", seed, {}))
        elif k < 0.92:
            ops.append(("verified", seed, {}))
        else:
            args = {"minimization_time_limit": rng.choice([0, 0.01, 0.05])}
            if rng.random() < 0.3 and not iterative:
                args["smallest"] = True
            ops.append(("spec", seed, args))
    if rng.random() < 0.6:
        ops.append(("auto", rng.random(), {"perc": 100}))
    return ops


def random_searcher(rng):
    """(searcher, packs or None, name of the database, start)"""
    db = rng.choice(setups.DBS)
    ev = rng.random() < 0.3
    if rng.random() < 0.25:
        start, pack, _, _ = num.random_pack(rng, iterative=rng.random() < 0.15)
        packs = None
        what = {"start": repr(start), "pack": setups.repr_pack(pack)}
    else:
        setup = setups.random_setup(rng)
        start, pack = setup.start, setup.pack
        packs = [packwork.PackRules(pack)]
        what = setup.describe()
    what.update(db=db, expand_verified=ev)
    TRACE["log"], TRACE["left"] = [], 10**9
    searcher = CombinatorialSpecificationSearcher(
        start, pack, ruledb=make_db(db), classqueue=TracedQueue(pack), expand_verified=ev)
    return searcher, packs, db, start, what


def equal(one, two, what):
    for a, b in ((one, two), (two, one)):
        if not a == b or a != b:
            parts = [n for n in ("classdb", "classqueue", "ruledb", "strategy_pack")
                     if getattr(a, n) != getattr(b, n)]
            raise Violation(f"{what} does not equal the original (differs: {parts})",
                            "eq " + " ".join(parts) + " " + type(one.ruledb).__name__)


def judge(spec, start, packs, rng, obs):
    if packs is None:
        return
    specvalid.validate(spec, start, packs, obs)
    specwork.check_counts(spec, start, rng, obs, 200, 7)


def equal_in_the_end(main, restored, rng):
    for run, at, _ in restored:
        for name in ("classdb", "classqueue", "ruledb"):
            if rng.random() < 0.5 and not getattr(run.searcher, name) == getattr(
                    main.searcher, name):
                raise Violation(f"in the end the {name} of the searcher restored before call "
                                f"{at} does not equal the original's", "end " + name)


def case_pickle(rng, obs):
    searcher, packs, db, start, what = random_searcher(rng)
    obs.case.update(what)
    limit = rng.choice([15, 60, 150])
    main = Run(searcher, limit)
    ops = random_history(rng, rng.random() < 0.6, searcher.strategy_pack.iterative)
    obs.case["history"] = [(o[0], o[2]) for o in ops]
    restored = []  # (run, index of the call, packets then)
    elsewhere = None
    outcomes = []
    interrupted = False
    for i, op in enumerate(ops):
        sources = [main] + [r for r, _, _ in restored]
        if len(restored) < 4 and rng.random() < (0.8 if i else 0.3):
            src = rng.choice(sources)
            blob = pickle.dumps(src.searcher, rng.choice([2, 3, 4, 5]))
            new = Run(pickle.loads(blob), main.left)
            # comparing may compute the emptiness of classes in both
            if rng.random() < 0.6:
                equal(src.searcher, new.searcher, f"restored before call {i}")
                obs.count("equalities")
            restored.append((new, i, main.packets))
            obs.count("restored")
            obs.count("restored_" + db)
            obs.count("restored_midway", main.packets > 0)
            obs.distinct("distinct_steps", main.packets)
            if elsewhere is None and rng.random() < 0.08:
                elsewhere = (blob, main.left, i)
        got = main.call(op)
        outcomes.append(plain(got))
        for run, at, _ in restored:
            again = run.call(op)
            if main.spec is not None and run.spec is not None:
                # which one depends on random choices and on the order of sets
                obs.count("specs_identical", describe(main.spec) == describe(run.spec))
            same(got, again, f"call {i} ({op[0]} {op[2]}) of the searcher restored "
                 f"before call {at}", "trace")
            obs.count("restored_events", len(got[0]))
        if got[1] == "ExceededMaxtimeError":
            obs.count("interruptions")
            interrupted = True
        if main.spec is not None:
            judge(main.spec, start, packs, rng, obs)
            if restored and packs is not None:
                judge(rng.choice(restored)[0].spec, start, packs, rng, obs)
                obs.count("specs_after_restoring")
            if interrupted:
                obs.count("specs_after_interruption")
    final = universe(main.searcher)
    for run, at, packets in restored:
        same(final, universe(run.searcher), f"universe of the searcher restored before call "
             f"{at}", "universe")
        if packets and main.packets - packets >= 3:
            obs.nontrivial(clip(repr(outcomes), 100000))
    # only now: the emptiness of other classes may have been asked for in some of the searchers
    # by comparing them before, or by looking up the rules of another specification
    equal_in_the_end(main, restored, rng)
    if elsewhere is not None:
        blob, left, at = elsewhere
        status, outs, uni = remote(blob, left, ops[at:])
        if status != "ok":
            raise Violation(f"restored in another process: {outs} {uni}", "elsewhere failed")
        same(outcomes[at:], outs, f"calls from {at} on in another process", "elsewhere")
        same(final, uni, "universe in another process", "elsewhere universe")
        obs.count("restored_elsewhere")
    obs.sample({"start": repr(start), "db": db, "packets": main.packets,
                "history": [o[0] for o in ops], "restored": [(a, p) for _, a, p in restored]})


def case_twin(rng, obs):
    """Interrupted again and again, compared with a search which never was."""
    seed = rng.random()
    searcher, packs, db, start, what = random_searcher(random.Random(seed))
    twin = random_searcher(random.Random(seed))[0]
    obs.case.update(what)
    limit = rng.choice([20, 80, 150])
    # with the forest database what is verified does not depend on when one asks
    single = not (db.startswith("forest") or searcher.expand_verified) or rng.random() < 0.5
    one, two = Run(searcher, limit), Run(twin, limit)
    smallest = rng.random() < 0.2 and not searcher.strategy_pack.iterative
    kw = {"smallest": smallest, "perc": 100}
    want = two.call(("auto", 1, kw))
    events, stops, answer = [], [], None
    times = rng.choice([[0], [0, 1, 2], [1, 3, 8], [0, 20]])
    for _ in range(2 * limit + 2):
        args = dict(kw, max_expansion_time=rng.choice(times))
        if not single:
            args["perc"] = rng.choice([100, 1, 0.05])
        got = one.call(("auto", 1, args))
        events += got[0]
        answer = got[1]
        if answer != "ExceededMaxtimeError":
            break
        check(not searcher.has_specification(),
              "interrupted although there is a specification")
        stops.append(len(events))
        obs.count("interruptions")
        if not got[0]:
            # out of work and out of time
            got = one.call(("auto", 1, kw))
            events += got[0]
            answer = got[1]
            break
    obs.case.update(stops=stops)
    if single:
        same(want[0], events, f"work of the search interrupted after {stops} events",
             "interrupted")
        check(want[1] == answer, "answers differ: {} when interrupted, otherwise {}", answer,
              want[1])
        same(universe(twin), universe(searcher), "universe of the interrupted search",
             "interrupted universe")
    else:
        n = min(len(events), len(want[0]))
        same(want[0][:n], events[:n], f"work of the search interrupted after {stops} events",
             "interrupted")
    obs.count("twins")
    obs.count("twin_events", len(events))
    if one.spec is not None:
        judge(one.spec, start, packs, rng, obs)
        obs.count("specs_after_interruption", bool(stops))
    if len(stops) >= 2:
        obs.nontrivial(clip(repr(events), 100000))


def case(rng, index, obs):
    if rng.random() < 0.75:
        case_pickle(rng, obs)
    else:
        case_twin(rng, obs)


