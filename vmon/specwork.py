"""Random searches and the specifications they hand back."""
import logging
import random

import logzero

from . import base, large, oracles, setups
from .runner import Violation, clip
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)

STEP_SCALES = (0.0002, 0.002, 0.02, 0.2, 2.0)


def clock(rng):
    """A random fake clock: usually small steps, sometimes a large jump."""
    scale = rng.choice(STEP_SCALES)
    jump = rng.choice([0, 0, 0.02])

    def step():
        if jump and rng.random() < jump:
            return 50 * scale
        return rng.random() * scale

    return base.fake_clock(step)


class Found:
    """A specification, the searcher which handed it back, and how."""

    def __init__(self, setup, db, searcher, spec, how):
        self.setup = setup
        self.db = db
        self.searcher = searcher
        self.spec = spec
        self.how = how


def random_config(rng, **kw):
    """(setup, name of rule database, searcher)"""
    setup = setups.random_setup(rng, **kw)
    db = rng.choice(setups.DBS)
    expand_verified = rng.random() < 0.3
    return setup, db, expand_verified


def harvest(rng, obs, setup, db, expand_verified=False, limit=300, maxspecs=4, mode=None):
    """
    Searches, in a random way, and yields Found. Records in obs what happened. Returns
    silently when no specification was found.
    """
    mode = mode or rng.choice(["auto", "auto", "auto", "interrupt", "levels", "multi"])
    obs.case.update(setup.describe())
    obs.case.update(db=db, expand_verified=expand_verified, mode=mode)
    smallest = rng.random() < 0.25 and not setup.pack.iterative
    perc = rng.choice([1, 5, 20, 100])
    status_update = rng.choice([None, None, None, 1])
    # every rule is then checked by the library itself when it is added
    debug = rng.random() < 0.03
    if debug:
        limit = min(limit, 60)
    if rng.random() < 0.02:
        perc = rng.choice([0, -3, 101, 250])
    obs.case.update(smallest=smallest, perc=perc, debug=debug)
    random.seed(rng.random())
    with clock(rng):
        searcher = setups.make_searcher(setup, db, expand_verified, debug=debug)
        if debug:
            logzero.loglevel(logging.CRITICAL, True)
            obs.count("searches_debug")
        setups.limit_steps(searcher, limit)
        kw = {"perc": perc, "smallest": smallest, "status_update": status_update}
        n = 0
        try:
            if mode in ("auto", "multi"):
                spec = searcher.auto_search(**kw)
                n += 1
                yield Found(setup, db, searcher, spec, mode)
            elif mode == "interrupt":
                for _ in range(limit):
                    try:
                        spec = searcher.auto_search(
                            max_expansion_time=rng.choice([0, 0.001, 0.05, 1, 10]), **kw
                        )
                    except ExceededMaxtimeError:
                        obs.count("searches_interrupted")
                        continue
                    n += 1
                    yield Found(setup, db, searcher, spec, mode)
                    break
            else:
                extra = rng.randint(0, 2)
                for _ in range(12):
                    searcher.do_level()
                    if searcher.has_specification():
                        spec = searcher.get_specification(
                            minimization_time_limit=rng.choice([0, 0.01, 1]),
                            smallest=smallest,
                        )
                        n += 1
                        yield Found(setup, db, searcher, spec, mode)
                        extra -= 1
                        if extra < 0 or n >= maxspecs:
                            break
                    else:
                        try:
                            searcher.get_specification()
                        except SpecificationNotFound:
                            pass
                        else:
                            raise Violation("get_specification answers although "
                                            "has_specification is False")
            if mode == "multi":
                for _ in range(rng.randint(1, 3)):
                    if n >= maxspecs:
                        break
                    # go on searching a bit, then ask again
                    for _ in range(rng.randint(0, 15)):
                        try:
                            packet = next(searcher.classqueue)
                        except StopIteration:
                            break
                        setups.expand(searcher, packet)
                    spec = searcher.get_specification(
                        minimization_time_limit=rng.choice([0, 0.01, 1]),
                        smallest=rng.random() < 0.3 and not setup.pack.iterative,
                    )
                    n += 1
                    yield Found(setup, db, searcher, spec, mode)
        except (setups.Limit, NoMoreClassesToExpandError):
            obs.count("searches_given_up")
        except SpecificationNotFound:
            obs.count("searches_exhausted")
            if searcher.ruledb.has_specification():
                raise Violation("SpecificationNotFound although there is one")
    if n:
        obs.count("specs_" + db, n)


def sanity_checked(spec, rng, obs):
    """
    Now and then the library checks the rules of the specification, which must neither
    complain nor change what the specification answers afterwards, even if some classes cannot
    list their objects to compare with.
    """
    if rng.random() < 0.06:
        length = rng.randint(0, 4)
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                spec.get_terms(rng.randint(0, length))
            # until the end of the case
            base.UNLISTED = frozenset(
                c for r in spec for c in (r.comb_class, *r.children) if rng.random() < 0.3)
            obs.count("specs_partly_checked")
        if spec.sanity_check(length) is not True:
            raise Violation(f"sanity check of {describe_spec(spec)}")
        obs.count("specs_sanity_checked")


def describe_spec(spec):
    return clip("; ".join(
        f"{r.comb_class!r}->{[repr(c) for c in r.children]} ({type(r).__name__})"
        for r in spec.rules_dict.values()
    ), 2500)


def features_of(spec):
    """The kinds of rules in a specification."""
    return tuple(sorted({
        (type(r).__name__, type(getattr(r, "constructor", None)).__name__
         if hasattr(r, "constructor") and len(r.children) else "")
        for r in spec.rules_dict.values()
    }))


def large_counts(spec, start, rng, obs, p=0.07):
    """C01: the same at sizes far beyond the listing of the objects, asked for at once."""
    if not large.supported(start) or rng.random() > p:
        return
    rules = sum(len(r.rules) if hasattr(r, "rules") else 1 for r in spec)
    spare = {0: 2000, 1: 400, 2: 200}.get(len(start.stats), 120)
    top = min(rng.choice([20, 60, 150, 400]), 10 + spare // rules)
    truth = large.terms(start, top)
    sizes = [top] + rng.sample(range(top), min(top, 4))
    names = start.extra_parameters
    for n in sizes:
        expected = oracles.nonzero(truth[n])
        for params in rng.sample(sorted(expected), min(len(expected), 3)):
            num = spec.count_objects_of_size(n, **base.keywords(names, params, rng))
            if num != expected[params]:
                raise Violation(
                    f"count_objects_of_size({n}, {params}) = {num}, truth is "
                    f"{expected[params]}; start {start!r}; {describe_spec(spec)}")
        got = oracles.nonzero(spec.get_terms(n))
        if got != expected:
            raise Violation(f"terms of size {n}: specification says {clip(got)}, truth is "
                            f"{clip(expected)}; start {start!r}; {describe_spec(spec)}")
        obs.count("large_sizes_compared")
    obs.maximum("large_size", top)


def check_counts(spec, start, rng, obs, cap=500, nmax=9):
    """C01: the terms of the specification are those of the start class."""
    n = oracles.bound_n(start, cap, nmax)
    sizes = list(range(n + 1))
    how = rng.randrange(3)
    if how == 1:
        sizes.reverse()
    elif how == 2:
        rng.shuffle(sizes)
    names = start.extra_parameters
    for i in sizes:
        expected = oracles.nonzero(oracles.true_terms(start, i))
        got = oracles.nonzero(spec.get_terms(i))
        obs.count("sizes_compared")
        if got != expected:
            raise Violation(
                f"terms of size {i}: specification says {got}, truth is {expected}; "
                f"start {start!r}; {describe_spec(spec)}"
            )
        obs.count("terms_compared", len(expected))
        grid = list(expected)
        if names:
            grid.append(tuple(rng.randint(0, i + 1) for _ in names))
        elif not grid:
            grid = [()]
        for params in grid:
            num = spec.count_objects_of_size(i, **base.keywords(names, params, rng))
            if num != expected.get(params, 0):
                raise Violation(
                    f"count_objects_of_size({i}, {params}) = {num}, truth is "
                    f"{expected.get(params, 0)}; start {start!r}; {describe_spec(spec)}"
                )
    return n
