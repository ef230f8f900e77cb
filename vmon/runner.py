"""
Runs the cases of a monitor in parallel, merges what the workers observed, writes the
evidence file and reports.

A monitor is a module vmon.cNN with

    RULE      how cases are made and what makes one non trivial
    QUICK     {"cases": N, "seconds": S}
    THOROUGH  {"cases": N, "seconds": S}
    CASE_SECONDS        watchdog for one case
    TIMEOUT_VIOLATES    whether a case hitting the watchdog violates the property
    NEED      {counter: minimum} observations below which the run is inconclusive
    ASSUMPTIONS         list of strings
    case(rng, index, obs)   runs one case; raises Violation (or anything unexpected)
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import re
import signal
import sys
import tempfile
import traceback
from collections import Counter

from . import base


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key or message


class CaseTimeout(BaseException):
    """The watchdog of a case fired."""


class Discard(Exception):
    """The generated case is outside of what the property speaks about."""


class Obs:
    """What a worker observed."""

    def __init__(self):
        self.counters = Counter()
        self.sets = {}
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.timeouts = 0
        self.case = None

    def count(self, name, k=1):
        self.counters[name] += k

    def maximum(self, name, value):
        name = "max:" + name
        if value > self.counters.get(name, -1):
            self.counters[name] = value

    def distinct(self, name, value):
        digest = hashlib.blake2b(repr(value).encode(), digest_size=8).digest()
        self.sets.setdefault(name, set()).add(digest)

    def nontrivial(self, value):
        """Records that the current case was not trivial, under this identity."""
        self.distinct("nontrivial", value)

    def sample(self, value, limit=2):
        if len(self.samples) < limit:
            self.samples.append(value)

    def merge(self, other):
        for k, v in other.counters.items():
            if k.startswith("max:"):
                self.counters[k] = max(self.counters.get(k, v), v)
            else:
                self.counters[k] += v
        for k, v in other.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples.extend(other.samples)
        self.violations.extend(other.violations)
        self.evaluations += other.evaluations
        self.timeouts += other.timeouts


def check(cond, message, *args):
    """Raise Violation unless cond."""
    if not cond:
        raise Violation(message.format(*args) if args else message)


def clip(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def case_rng(seed, index):
    return random.Random(f"{seed}/{index}")


def _alarm(signum, frame):
    raise CaseTimeout()


def library_location(exc):
    """Where in the library (or else here) the exception was raised."""
    best = None
    for fr in traceback.extract_tb(exc.__traceback__):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(os.path.abspath(base.REPO) + os.sep):
            best = (os.path.relpath(fn, base.REPO), fr.name)
    return best


def run_case(module, prop, seed, index, obs):
    """Runs one case and returns None or a violation record."""
    rng = case_rng(seed, index)
    obs.case = {}
    obs.evaluations += 1
    limit = getattr(module, "CASE_SECONDS", 20)
    base.RSOURCE.handler = None
    base.CLOCK.active = False
    base.SPEC_HOOK = None
    base.UNLISTED = frozenset()
    random.seed(f"lib/{seed}/{index}")
    signal.signal(signal.SIGALRM, _alarm)
    message = key = tb = None
    try:
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            module.case(rng, index, obs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Discard:
        obs.count("discarded")
    except CaseTimeout as e:
        obs.timeouts += 1
        # only when it is the library that was running
        if getattr(module, "TIMEOUT_VIOLATES", False) and library_location(e):
            message = f"no answer after {limit} s"
            tb = traceback.format_exc()
            key = f"timeout {library_location(e)}"
    except Violation as e:
        message, key, tb = str(e), e.key, traceback.format_exc()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        loc = library_location(e)
        tb = traceback.format_exc()
        # without any frame of the library: the monitor could not make sense of what the
        # library returned
        loc = loc or ("monitor", "case")
        message = f"unexpected {type(e).__name__} in {loc[0]}:{loc[1]}: {clip(str(e))}"
        key = f"{type(e).__name__} in {loc[0]}:{loc[1]}"
    finally:
        base.RSOURCE.handler = None
        base.CLOCK.active = False
        base.SPEC_HOOK = None
    if message is None:
        return None
    return {
        "property": prop,
        "seed": seed,
        "index": index,
        "hashseed": os.environ.get("PYTHONHASHSEED", ""),
        "message": clip(message, 3000),
        "key": clip(key, 300),
        "case": obs.case,
        "traceback": clip(tb or "", 6000),
    }


def _worker(modname, prop, seed, counter, stop, ncases, deadline, out):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
        module = importlib.import_module(modname)
        obs = Obs()
        while not stop.value and base.REAL_MONO() < deadline:
            with counter.get_lock():
                index = counter.value
                counter.value += 1
            if index >= ncases:
                break
            rec = run_case(module, prop, seed, index, obs)
            if rec is not None:
                obs.violations.append(rec)
                with stop.get_lock():
                    if len(obs.violations) >= 3:
                        stop.value = 1
        with open(out, "wb") as f:
            pickle.dump(("ok", obs), f)
    except BaseException:  # pylint: disable=broad-except
        with open(out, "wb") as f:
            pickle.dump(("error", traceback.format_exc()), f)
        os._exit(3)
    os._exit(0)


def load_known(prop):
    path = os.path.join(base.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf8") as f:
        data = json.load(f)
    return [e for e in data.get("known", []) if e["property"] == prop]


def main(prop, tier, seed, replay=None, jobs=None, ncases=None, seconds=None):
    start = base.REAL_MONO()
    modname = f"vmon.{prop.lower()}"
    module = importlib.import_module(modname)
    if replay is not None:
        with open(replay, encoding="utf8") as f:
            rec = json.load(f)
        obs = Obs()
        res = run_case(module, prop, rec["seed"], rec["index"], obs)
        if res is None:
            print("no violation")
            return 0
        print(json.dumps(res["case"], indent=1, default=str))
        print(res["traceback"])
        print(res["message"])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    conf = dict(module.QUICK if tier == "quick" else module.THOROUGH)
    if ncases is not None:
        conf["cases"] = ncases
    if seconds is not None:
        conf["seconds"] = seconds
    jobs = jobs or min(os.cpu_count() or 1, 8)
    ctx = multiprocessing.get_context("fork")
    counter = ctx.Value("l", 0)
    stop = ctx.Value("i", 0)
    deadline = start + conf["seconds"]
    total = Obs()
    with tempfile.TemporaryDirectory(prefix="vmon-") as tmp:
        procs = []
        for i in range(jobs):
            out = os.path.join(tmp, f"w{i}")
            p = ctx.Process(
                target=_worker,
                args=(modname, prop, seed, counter, stop, conf["cases"], deadline, out),
            )
            p.start()
            procs.append((p, out))
        errors = []
        hard = deadline + 60
        for p, out in procs:
            p.join(max(1.0, hard - base.REAL_MONO()))
            if p.is_alive():
                p.kill()
                p.join()
                errors.append("worker did not finish in time")
                continue
            try:
                with open(out, "rb") as f:
                    kind, value = pickle.load(f)
            except (OSError, EOFError, pickle.UnpicklingError):
                errors.append(f"worker died with exit code {p.exitcode}")
                continue
            if kind == "ok":
                total.merge(value)
            else:
                errors.append(value)
    known = load_known(prop)
    reported, findings = [], Counter()
    for rec in sorted(total.violations, key=lambda r: r["index"]):
        for entry in known:
            if re.search(entry["match"], rec["key"]):
                findings[entry["what"]] += 1
                break
        else:
            reported.append(rec)
    # the known findings that have their own deterministic demonstration
    demo = getattr(module, "known_finding_demo", None)
    if demo is not None:
        for what in demo():
            findings[what] += 1
    wall = base.REAL_MONO() - start
    nontrivial = len(total.sets.get("nontrivial", ()))
    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": nontrivial,
        "rule": module.RULE,
        "samples": total.samples[:6],
        "observed": dict(sorted(total.counters.items())),
        "distinct_seen": {
            k: len(v) for k, v in sorted(total.sets.items()) if k != "nontrivial"
        },
        "cases_cut_short_by_watchdog": total.timeouts,
        "workers": jobs,
        "complete": bool(counter.value >= conf["cases"] and not errors),
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": [
            {"index": r["index"], "message": r["message"][:500]} for r in reported[:20]
        ],
        "known_findings_seen": dict(findings),
    }
    os.makedirs(os.path.join(base.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(base.VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w", encoding="utf8") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    os.replace(path + ".tmp", path)
    for what in findings:
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(
        f"{prop} {tier}: {total.evaluations} cases, {nontrivial} distinct non trivial, "
        f"{total.timeouts} cut short, {wall:.1f} s"
    )
    for k, v in sorted(total.counters.items()):
        print(f"   {k}: {v}")
    if reported:
        repdir = os.path.join(base.VERIF, "replays")
        os.makedirs(repdir, exist_ok=True)
        for rec in reported[:5]:
            rp = os.path.join(repdir, f"{prop}-{rec['seed']}-{rec['index']}.json")
            with open(rp, "w", encoding="utf8") as f:
                json.dump(rec, f, indent=1, default=str)
            print(clip(rec["message"], 1500))
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e, file=sys.stderr)
        return 2
    if ncases is None:
        for k, v in module.NEED.items():
            got = nontrivial if k == "nontrivial" else total.counters.get(k, 0)
            if got < v:
                print(f"INCONCLUSIVE: observed {k}={got}, needs {v}", file=sys.stderr)
                return 2
    return 0
