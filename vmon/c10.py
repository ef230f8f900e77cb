"""C10: declared shifts bound what a rule actually reads when counting."""
from . import oracles, ruleforms, specwork
from .runner import Discard, Violation, check

RULE = (
    "Two kinds of cases. (1) A random genuine rule and every form derived from it, as for "
    "C09: terms are asked one size at a time, providers record every size asked of every "
    "child and a recorder placed on the rule records the sizes asked of itself; each ask of "
    "child i while computing size n must be at most n - shifts()[i], each ask of itself "
    "below n. (2) Random specifications handed back by a search: the same recorders are put "
    "on all rules and the call stack is monitored: no (class, size) may be asked for while "
    "it is being computed. A case is non trivial when a child is asked for a term; identity: "
    "as for C09, or start class and shape of the specification."
)
ASSUMPTIONS = ["minimum sizes and is_atom of the classes are exact (contract)"]
QUICK = {"cases": 12000, "seconds": 400}
THOROUGH = {"cases": 2000000, "seconds": 800}
CASE_SECONDS = 20
NEED = {"nontrivial": 1000, "asks_checked": 20000, "own_asks_checked": 500,
        "tight_asks": 5000, "specs_monitored": 300, "reverse_rules_in_specs": 30,
        "rules_with_positive_shift": 800, "rules_with_negative_shift": 300}


def watch_rule(name, rule, obs, rng):
    shifts = tuple(rule.shifts())
    desc = ruleforms.describe(name, rule)
    obs.case.update(desc, shifts=shifts)
    check(len(shifts) == len(rule.children), "{} shifts for {} children: {}", len(shifts),
          len(rule.children), desc)
    labels = {}
    key = rule.forest_key(lambda c: labels.setdefault(c, len(labels)))
    check(tuple(key.shifts) == shifts and len(key.children) == len(shifts),
          "forest key {} does not carry the shifts {}", key, shifts)
    current = []
    worst = {}

    def provider(i, child):
        def terms(k):
            n = current[-1]
            obs.count("asks_checked")
            worst[i] = max(worst.get(i, k - n), k - n)
            if k > n - shifts[i]:
                raise Violation(
                    f"{name} with shifts {shifts} asks child {i} for size {k} when computing "
                    f"size {n}; {desc}")
            if k < 0:
                return type(oracles.true_terms(child, 0))()
            return oracles.true_terms(child, k)
        return terms

    original = rule.get_terms

    def get_terms(k):
        if not current:
            current.append(k)
            try:
                return original(k)
            finally:
                current.pop()
        n = current[-1]
        obs.count("own_asks_checked")
        if k >= n:
            raise Violation(f"{name} asks itself for size {k} when computing size {n}; {desc}")
        return original(k)

    rule.subterms = tuple(provider(i, c) for i, c in enumerate(rule.children))
    rule.get_terms = get_terms
    bound = ruleforms.size_bound(rule, 200, 7)
    for n in range(bound + 1):
        rule.get_terms(n)
    for i, w in worst.items():
        if w == -shifts[i]:
            obs.count("tight_asks")
    obs.count("form_" + name.rstrip("0123456789 "))
    if any(s > 0 for s in shifts):
        obs.count("rules_with_positive_shift")
    if any(s < 0 for s in shifts):
        obs.count("rules_with_negative_shift")
    if worst:
        obs.nontrivial(ruleforms.signature(name, rule))
        obs.sample({**desc, "shifts": shifts, "largest ask minus n": worst})


def watch_spec(found, obs):
    spec = found.spec
    stack = []
    active = set()
    monitored = {}
    done = {}

    def getter(comb_class):
        rule = spec.get_rule(comb_class)
        if comb_class not in monitored:
            monitored[comb_class] = rule.get_terms

        def get(k):
            if k < 0:
                return monitored[comb_class](k)
            # one size at a time
            for m in range(done.get(comb_class, -1) + 1, k + 1):
                item = (comb_class, m)
                if item in active:
                    raise Violation(
                        f"the terms of size {m} of {comb_class!r} are needed to compute "
                        f"themselves; stack {stack[-8:]!r}; {specwork.describe_spec(spec)}")
                active.add(item)
                stack.append(item)
                try:
                    monitored[comb_class](m)
                finally:
                    active.discard(item)
                    stack.pop()
                done[comb_class] = max(m, done.get(comb_class, -1))
            return monitored[comb_class](k)

        return get

    def child_getter(rule, i, child, shift):
        get = getter(child)

        def terms(k):
            n = next(m for c, m in reversed(stack) if c == rule.comb_class)
            obs.count("asks_checked")
            if k > n - shift:
                raise Violation(
                    f"rule {rule.comb_class!r} -> {rule.children!r} ({type(rule).__name__}) "
                    f"with shifts {rule.shifts()} asks child {i} for size {k} when computing "
                    f"size {n}")
            return get(k)
        return terms

    for rule in list(spec):
        shifts = rule.shifts()
        rule.subterms = tuple(
            child_getter(rule, i, c, s) for i, (c, s) in enumerate(zip(rule.children, shifts))
        )
        if type(rule).__name__ == "ReverseRule":
            obs.count("reverse_rules_in_specs")
    for rule in list(spec):
        rule.get_terms = getter(rule.comb_class)
    root = spec.get_rule(found.setup.start)
    for n in range(oracles.bound_n(found.setup.start, 300, 7) + 1):
        got = oracles.nonzero(root.get_terms(n))
        check(got == oracles.nonzero(oracles.true_terms(found.setup.start, n)),
              "wrong terms of size {} under monitoring", n)
    obs.count("specs_monitored")
    obs.nontrivial((repr(found.setup.start), specwork.features_of(spec)))


def case(rng, index, obs):
    if rng.random() < 0.2:
        setup, db, ev = specwork.random_config(rng)
        if rng.random() < 0.4:
            db = "forest_rev"
        for found in specwork.harvest(rng, obs, setup, db, ev, maxspecs=2):
            watch_spec(found, obs)
        return
    try:
        todo = ruleforms.random_forms(rng)
    except Discard:
        return
    for name, rule in todo:
        watch_rule(name, rule, obs, rng)
