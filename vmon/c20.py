"""C20: equations and generating functions agree with the true enumeration."""
from functools import lru_cache
import random
import re

import sympy
from sympy.core.function import AppliedUndef

from . import (
    base, c18, lengths, oracles, parts, ruleforms, series, setups, specbuild, specvalid, specwork,
)
from . import grammar as g
from . import words as w
from .runner import Discard, Violation, check, clip
from comb_spec_searcher import AtomStrategy, CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.exception import (
    IncorrectGeneratingFunctionError,
    InvalidOperationError,
    SpecificationNotFound,
)
from comb_spec_searcher.strategies.rule import VerificationRule

RULE = (
    "Equations: every equation emitted by specifications of random searches (all rule "
    "databases), of specifications put together directly, and by single rules of every form "
    "(plain, equivalence, reverse, path; words, grammars and synthetic classes with maps "
    "that merge, drop and rename statistics) is evaluated as a polynomial identity, truncated "
    "in x, in which each function is replaced by the true series of its class in x and its "
    "statistics, found by brute force; the texts printed for Maple and for reading are parsed "
    "and judged the same way, with their initial counts; arguments are substituted, quotients multiplied out. "
    "Generating functions: for small specifications without statistics, also with start "
    "classes whose smallest object is large, get_genf is called with several orders of its "
    "own check; the Taylor coefficients of what it returns, computed by an own Laurent series "
    "arithmetic for algebraic closed forms with 120 digits, must be the true counts (found "
    "by counting automata or grammars, not by specifications) up to order 30. A case is non "
    "trivial when an equation of a rule with children was evaluated with at least three "
    "monomials or a closed form was expanded; identity: the equation with the true series."
)
ASSUMPTIONS = [
    "the function of a class is the default one, in x and the statistics in their order",
    "closed forms are expanded for small positive x on the principal branches",
]
QUICK = {"cases": 4000, "seconds": 420}
THOROUGH = {"cases": 1000000, "seconds": 800}
CASE_SECONDS = 25
NEED = {
    "nontrivial": 800, "equations": 5000, "equations_with_statistics": 1500,
    "equations_with_substitution": 200, "equations_with_quotient": 3, "equations_implicit": 1,
    "equations_closed": 1, "merged_CartesianProduct": 10, "merged_Complement": 20,
    "merged_DisjointUnion": 15, "form_path_DisjointUnion": 20, "form_reverse_Quotient": 40,
    "genf_expanded": 80, "genf_algebraic": 5, "genf_late": 15, "specs_with_all_equations": 150,
    "specs_printed": 150, "specs_printed_with_statistics": 50,
}


class ImplicitNT(g.VerifyNT):
    """
    Verifies nonterminals by an equation in the symbol F, for the class itself, and the
    functions of the other classes of the specification.
    """

    def get_genf(self, comb_class, funcs=None):
        if comb_class.kind != "N" or comb_class.extra_parameters:
            raise NotImplementedError
        x = sympy.var("x")
        res = 0
        for a in comb_class.data[1]:
            term = 1
            for s in comb_class.gr[comb_class.data[0]][a]:
                if isinstance(s, str):
                    term *= x
                    continue
                other = specbuild.whole(type(comb_class), comb_class.gr, s,
                                        comb_class.extra_parameters)
                if other == comb_class:
                    term *= sympy.var("F")
                elif funcs is not None and other in funcs:
                    term *= funcs[other]
                else:
                    raise NotImplementedError("not in terms of the other functions")
            res += term
        SEEN.append(res)
        return sympy.sympify(res)


SEEN = []


# ------------------------------------------------------------------------------ true counts
@lru_cache(maxsize=None)
def _word_counts(alphabet, prefix, patterns, just, req, upto):
    res = [0] * (upto + 1)
    if any(p in prefix for p in patterns):
        return tuple(res)
    if just:
        if req in prefix and len(prefix) <= upto:
            res[len(prefix)] = 1
        return tuple(res)
    m = max([len(p) for p in patterns] + [len(req), 1])
    states = {(prefix[-m:], req in prefix): 1}
    for n in range(len(prefix), upto + 1):
        res[n] = sum(v for (_, found), v in states.items() if found)
        new = {}
        for (suffix, found), v in states.items():
            for a in alphabet:
                x = suffix + a
                if not any(x.endswith(p) for p in patterns):
                    k = (x[-m:], found or req in x)
                    new[k] = new.get(k, 0) + v
        states = new
    return tuple(res)


def true_counts(c, upto):
    """Numbers of objects of each size, without listing them."""
    if isinstance(c, w.W):
        alphabet, prefix, patterns, just, req = c._key
        return list(_word_counts(alphabet, prefix, patterns, just, req, upto))
    if isinstance(c, parts.M):
        return parts.counts(c, upto)
    if isinstance(c, lengths.L):
        if c.kind == "P":
            return [0] + [len(c.letters) ** n for n in range(upto)]
        return [0 if c.kind == "E" or n < c.m or (c.kind == "W" and n > c.m)
                else len(c.letters) ** n for n in range(upto + 1)]
    if c.kind == "S":
        return [g.gr_count_tuples(c.gr, c.data, n) for n in range(upto + 1)]
    return [sum(g.gr_count_tuples(c.gr, c.gr[c.data[0]][a], n) for a in c.data[1])
            for n in range(upto + 1)]


# -------------------------------------------------------------------------------- equations
def order_for(classes, cap=300, nmax=8):
    return min([oracles.bound_n(c, cap, nmax) for c in classes if not c.is_empty()] or [nmax])


class Plug:
    """The true series of the classes behind the functions."""

    def __init__(self, class_of):
        self.class_of = class_of

    def classes(self, expr):
        return [self.class_of(f.func.__name__) for f in expr.atoms(AppliedUndef)
                if f.func.__name__ != "NOTIMPLEMENTED"]

    def terms(self, name, arity):
        c = self.class_of(name)
        if len(c.extra_parameters) + 1 != arity:
            raise Violation(f"{name} with {arity} arguments stands for {c!r}", "arity")
        return lambda n: oracles.true_terms(c, n)


def check_equation(eq, class_of, what, obs, names=()):
    """Whether an equation is satisfied by the true series."""
    if eq is True or eq is sympy.true:
        obs.count("equations_trivial")
        return None
    if eq is False or eq is sympy.false:
        raise Violation(f"{what}: the equation is {eq}", "false")
    plug = Plug(class_of)
    lhs, rhs = eq.lhs, eq.rhs
    if any(f.func.__name__ == "NOTIMPLEMENTED" for f in eq.atoms(AppliedUndef)):
        obs.count("equations_not_implemented")
        return None
    classes = plug.classes(eq)
    order = order_for(classes)
    try:
        ring, value = series.residue(lhs, rhs, plug.terms, order, names)
    except series.NotJudged:
        # a closed form
        if len(classes) == 1 and not classes[0].extra_parameters and \
                isinstance(lhs, AppliedUndef) and not rhs.atoms(AppliedUndef):
            try:
                wrong = series.agrees(rhs, true_counts(classes[0], 14))
            except series.NotJudged as e:
                obs.count("equations_not_judged")
                obs.sample({"not judged": clip(f"{eq}: {e}", 300)})
                return None
            if wrong:
                raise Violation(f"{what}: {eq}: {wrong}; {classes[0]!r}", "closed") from None
            obs.count("equations_closed")
            return order, []
        obs.count("equations_not_judged")
        obs.sample({"not judged": clip(str(eq), 300)})
        return None
    if value:
        k = min(value)
        mono = " ".join(f"{n}^{e}" for n, e in zip(ring.names, k) if e) or "1"
        raise Violation(
            f"{what}: {eq} fails at {mono}: the sides differ by {value[k]}; "
            f"{ {f.func.__name__: repr(class_of(f.func.__name__)) for f in eq.atoms(AppliedUndef)} }",
            "equation")
    obs.count("equations")
    obs.count("coefficients", sum(len(oracles.true_terms(c, n)) for c in classes
                                  for n in range(order + 1)))
    obs.count("equations_with_statistics", any(c.extra_parameters for c in classes))
    if any(str(a) != "x" and not a.is_Symbol for f in eq.atoms(AppliedUndef) for a in f.args):
        obs.count("equations_with_substitution")
    if eq.has(sympy.Pow) and any(p.exp.is_negative for p in eq.atoms(sympy.Pow)):
        obs.count("equations_with_quotient")
    size = sum(len(oracles.true_terms(c, n)) for c in classes[:1] for n in range(order + 1))
    return order, size


def label_reader(spec):
    def class_of(name):
        m = re.fullmatch(r"F_(\d+)", name)
        check(m is not None, "an unknown function {}", name)
        return spec.get_comb_class(int(m.group(1)))
    return class_of


def cheap_verification(spec):
    """No closed form has to be found by another specification."""
    return all(c18.cheap(r) for r in spec.rules_dict.values())


def case_spec(rng, obs):
    if rng.random() < 0.75:
        setup, db, ev = specwork.random_config(rng, exclude=() if rng.random() < 0.12 else
                                               ("verpack",))
        specs = [f.spec for f in specwork.harvest(rng, obs, setup, db, ev, limit=150,
                                                  maxspecs=2)]
    else:
        start = setups.random_start(rng, p_none=0.3)
        specs = [specbuild.build(rng, start, specbuild.strategies(rng, start),
                                 flip=rng.choice([0, 0.5]))]
        obs.count("specs_direct")
    if not specs:
        raise Discard()
    for spec in specs:
        class_of = label_reader(spec)
        try:
            eqs = list(spec.get_equations())
        except (IncorrectGeneratingFunctionError, SpecificationNotFound):
            obs.count("specs_without_closed_form")
            continue
        check(len(eqs) <= len(spec.rules_dict), "{} equations for {} rules", len(eqs),
              len(spec.rules_dict))
        lhs = [eq.lhs for eq in eqs if isinstance(eq, sympy.Eq)]
        for eq in eqs:
            res = check_equation(eq, class_of, "of the specification", obs)
            if res and res[1] and res[1] >= 3:
                obs.nontrivial(str(eq) + repr([class_of(f.func.__name__)
                                               for f in eq.atoms(AppliedUndef)]))
        if rng.random() < 0.35:
            check_texts(spec, eqs, class_of, rng, obs)
        if len(lhs) == len(spec.rules_dict):
            obs.count("specs_with_all_equations")
        for rule in list(spec.rules_dict.values()):
            for r in specvalid.steps(rule):
                if not isinstance(r, VerificationRule) and r is not rule:
                    # the steps of the paths
                    try:
                        eq = r.get_equation(spec.get_function)
                    except NotImplementedError:
                        obs.count("rule_equation_not_implemented")
                        continue
                    check_equation(eq, class_of, f"step {type(r).__name__}", obs)
                    obs.count("equations_of_steps")
            obs.count("specs_rules_" + type(rule).__name__)
        obs.count("specs")
        obs.sample({"start": repr(spec.root), "equations": [clip(str(e), 200) for e in eqs[:8]]})


def case_rules(rng, obs):
    forms = ruleforms.random_forms(rng)
    if all(len(r.comb_class.extra_parameters) == 0 for _, r in forms) and rng.random() < 0.5:
        raise Discard()
    for name, rule in forms:
        obs.case.update(ruleforms.describe(name, rule))
        functions = c18.Functions()
        try:
            eq = rule.get_equation(functions)
        except NotImplementedError:
            obs.count("rule_equation_not_implemented")
            continue
        back = {f"G_{i}": c for c, i in functions.index.items()}
        res = check_equation(eq, back.__getitem__, name, obs)
        if res and res[1] and res[1] >= 3:
            obs.nontrivial(str(eq) + repr(sorted(back.items(), key=str)))
            obs.count("form_" + name.split()[0] + "_" + type(rule.constructor).__name__)
            merged = [m for m in rule.constructor.extra_parameters
                      if len(set(m.values())) < len(m)]
            obs.count("merged_" + type(rule.constructor).__name__, bool(merged))
            obs.sample({"form": name, "equation": clip(str(eq), 300)})


# -------------------------------------------------------------------- equations as texts
def read_expr(text, names):
    local = {k: sympy.Symbol(k) for k in names}
    local.update((f, sympy.Function(f)) for f in re.findall(r"F_\d+", text))
    local["NOTIMPLEMENTED"] = sympy.Function("NOTIMPLEMENTED")
    return sympy.parse_expr(text, local_dict=local)


def read_maple(text, names):
    text = re.sub(r"NOTIMPLEMENTED\b", "NOTIMPLEMENTED(x)", text)
    text = re.sub(r"(\w+)\[(\d+)\]", r"\1_\2", text)
    text = re.sub(r"F\[(\d+), ", r"F_\1(", text).replace("]", ")")
    return read_expr(text, names)


def read_pretty(text, names):
    """The argument x of the functions is left out when no other argument is used."""
    return read_expr(re.sub(r"(F_\d+|NOTIMPLEMENTED)(?![\d(])", r"\1(x)", text), names)


def check_texts(spec, eqs, class_of, rng, obs):
    """The equations, initial counts and function of the root printed by the library."""
    names = ["x"] + sorted({k for c in spec.comb_classes() for k in c.extra_parameters})
    order = rng.choice([None, 0, 2, 4])
    kw = {} if order is None else {"check": order}
    upto = 6 if order is None else order
    if oracles.bound_n(spec.root, 300, upto) < upto:
        return
    root = spec.get_function(spec.root).func.__name__
    check(class_of(root) == spec.root, "{} is the function of the root", root)
    params = spec.root.extra_parameters
    for how, get, read in (("maple", spec.get_maple_equations, read_maple),
                           ("pretty", spec.get_pretty_equations, read_pretty)):
        text = get(**kw)
        m = re.fullmatch(r"(?:The system of (\d+) equations\n)?root_func := (.*):\n"
                         r"eqs := \[\n(.*)\n\]:\ncount := \[(.*)\]:", text, re.S)
        check(m is not None, "{}: not understood: {}", how, text)
        total, func, body, counts = m.groups()
        check(total is None or int(total) == len(eqs), "{} equations announced, there are {}",
              total, len(eqs))
        func = read(func, names)
        check(func.func.__name__ == root and len(func.args) == len(params) + 1,
              "{}: the function of the root is {}, in {}", how, func, text)
        body = body.split(",\n")
        check(len(body) == len(eqs), "{}: {} equations instead of {}: {}", how, len(body),
              len(eqs), text)
        for line, eq in zip(body, eqs):
            lhs, rhs = line.split(" = ")
            new = sympy.Eq(read(lhs, names), read(rhs, names))
            check(new in (True, sympy.true) or new.atoms(AppliedUndef) == eq.atoms(AppliedUndef),
                  "{}: {} is printed as {}", how, eq, line)
            check_equation(new, class_of, f"{how} equations, printed as {clip(line)}", obs)
            obs.count("equations_printed")
        counts = sympy.sympify([read_expr(e, names) for e in counts.split(", ")])
        for n, value in enumerate(counts):
            want = sum(
                v * sympy.prod([sympy.Symbol(k) ** e for k, e in zip(params, p)])
                for p, v in oracles.true_terms(spec.root, n).items())
            check(sympy.expand(value - want) == 0, "{}: the count of size {} is {}, expected {}",
                  how, n, value, want)
        check(len(counts) == upto + 1, "{}: {} counts up to size {}", how, len(counts), upto)
    obs.count("specs_printed")
    obs.count("specs_printed_with_statistics", bool(params))


# ----------------------------------------------------------------------------- closed forms
def genf_grammar(rng):
    """Few nonterminals, low degree, sometimes with a large smallest tree."""
    while True:
        k = rng.choice([1, 1, 2, 2, 3])
        gr = []
        for i in range(k):
            alts = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                syms = [rng.choice("ab") if rng.random() < 0.5 else rng.randrange(k)
                        for _ in range(rng.choice([0, 1, 2, 2, 3]))]
                alts.append(tuple(syms))
            gr.append(tuple(alts))
        if rng.random() < 0.6:
            # the nonterminal of interest is hidden behind many letters
            pre = ["a"] * rng.choice([2, 5, 6, 7, 8, 11])
            first = [tuple(pre + [1])]
            if rng.random() < 0.5:
                first.append(rng.choice([(), ("b",), ("a", "b")]))
            gr = [tuple(first)] + [
                tuple(tuple(s if isinstance(s, str) else s + 1 for s in alt) for alt in alts)
                for alts in gr]
        gr = tuple(gr)
        mins = g.gr_minima(gr, None)
        if 0 in mins and g.check_grammar(gr) and g.gr_count(gr, 0, 12) < 10**7:
            return gr


def genf_spec(rng, obs):
    kind = rng.choice(["grammar", "grammar", "grammar", "grammar_implicit", "grammar_pack",
                       "words", "search"])
    ver = [AtomStrategy()]
    if kind == "search":
        setup, db, ev = specwork.random_config(
            rng, p_nostat=1, exclude=("verify", "verpack") if rng.random() < 0.7 else ())
        specs = [f.spec for f in specwork.harvest(rng, obs, setup, db, ev, limit=60,
                                                  maxspecs=1)]
        if not specs:
            raise Discard()
        return specs[0]
    if kind == "words":
        c = setups.random_word_class(rng, p_none=1)
        if rng.random() < 0.3 and c.patterns:
            c = c.replace(prefix=c.prefix + setups.random_word(rng, c.alphabet, 3, 8))
            if c.is_empty():
                raise Discard()
        strats = ([w.RemoveFront("keep", rng.choice([2, 3]), rng.randrange(3))],
                  [w.Expand("keep", rng.randrange(4))])
    else:
        gr = genf_grammar(rng)
        c = specbuild.whole(g.G, gr, 0)
        nts = [i for i in range(len(gr)) if rng.random() < 0.5]
        if kind == "grammar_implicit" and len(gr) > 1:
            ver.append(ImplicitNT(nts, ignore_parent=True))
        elif kind == "grammar_pack":
            ver.append(g.VerifyNT(nts, True, via_pack=rng.random() < 0.5))
        strats = ([g.Factor("keep", rng.choice(["all", "first", "last"])), g.Unwrap("keep")],
                  [g.AltSplit("keep", rng.choice(["all", "binary"]))])
    pack = StrategyPack(initial_strats=strats[0], inferral_strats=[],
                        expansion_strats=[strats[1]], ver_strats=ver, name="genf")
    obs.case.update(start=repr(c), pack=setups.repr_pack(pack))
    searcher = CombinatorialSpecificationSearcher(
        c, pack, ruledb=setups.make_db(rng.choice(setups.DBS)))
    spec = setups.search(searcher, rng, limit=150)
    if spec is None:
        raise Discard()
    obs.count("genf_of_" + kind)
    return spec


def case_genf(rng, obs):
    spec = genf_spec(rng, obs)
    if spec.root.extra_parameters or spec.number_of_rules() > 14:
        raise Discard()
    order = rng.choice([6, 6, 6, 0, 1, 3, 9])
    obs.case.update(spec=specwork.describe_spec(spec), order=order)
    SEEN.clear()
    class_of = label_reader(spec)
    try:
        for eq in spec.get_equations():
            check_equation(eq, class_of, "of the specification", obs)
        obs.count("equations_implicit", any(e.has(sympy.var("F")) for e in map(sympy.sympify, SEEN)))
        genf = spec.get_genf(check=order) if order != 6 else spec.get_genf()
    except IncorrectGeneratingFunctionError:
        obs.count("genf_not_found")
        return
    except (NotImplementedError, InvalidOperationError, SpecificationNotFound) as e:
        obs.count("genf_" + type(e).__name__)
        return
    counts = true_counts(spec.root, 30)
    try:
        wrong = series.agrees(genf, counts)
    except series.NotJudged as e:
        obs.count("genf_not_judged")
        obs.sample({"not judged": clip(f"{genf}: {e}", 300)})
        return
    if wrong:
        raise Violation(f"get_genf({order}) gives {genf}: {wrong}; counts {counts[:14]}; "
                        f"{specwork.describe_spec(spec)}", "genf")
    obs.count("genf_expanded")
    obs.count("genf_algebraic", any(not p.exp.is_Integer for p in genf.atoms(sympy.Pow)))
    obs.count("genf_late", spec.root.minimum_size_of_object() > order)
    obs.nontrivial(str(genf))
    obs.distinct("closed_forms", str(genf))
    obs.sample({"start": repr(spec.root), "genf": str(genf), "counts": counts[:12]})


def case(rng, index, obs):
    k = rng.random()
    random.seed(rng.random())
    if k < 0.35:
        case_spec(rng, obs)
    elif k < 0.75:
        case_rules(rng, obs)
    else:
        case_genf(rng, obs)
