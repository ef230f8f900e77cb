"""Random start classes, strategy packs and search configurations."""
import random

from . import base
from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.strategies import AtomStrategy

from . import grammar as g
from . import lengths, parts
from . import words as w

LETTER_SETS = ("a", "b", "ab", "c", "bc", "abc", "")
MODES = ("keep", "drop", "merge", "rename", "flip")


class Setup:
    """A start class with a pack and the options of a search."""

    def __init__(self, start, pack, family, opts):
        self.start = start
        self.pack = pack
        self.family = family
        self.opts = opts

    def describe(self):
        return {
            "start": repr(self.start),
            "pack": repr_pack(self.pack),
            "family": self.family,
            "opts": {k: str(v) for k, v in self.opts.items()},
        }


UNARY = {w.DropPatterns: w.DropPatternsCP, w.DropLetter: w.DropLetterCP,
         w.DropReq: w.DropReqCP, g.Unwrap: g.UnwrapCP, g.SortSymbols: g.SortCP,
         g.PruneAlts: g.PruneCP}


def unary_products(rng, strats, p=0.12):
    """Makes some of the strategies with one child products with a single factor."""
    if rng.random() < p:
        for i, s in enumerate(strats):
            if type(s) in UNARY and rng.random() < 0.7:
                strats[i] = UNARY[type(s)](
                    s.mode, ignore_parent=s.ignore_parent, inferrable=s.inferrable)
    return strats


def repr_pack(pack):
    def rs(x):
        d = {k: v for k, v in x.__dict__.items() if k != "__orig_class__"}
        return f"{type(x).__name__}{d}"

    return {
        "initial": [rs(s) for s in pack.initial_strats],
        "inferral": [rs(s) for s in pack.inferral_strats],
        "expansion": [[rs(s) for s in grp] for grp in pack.expansion_strats],
        "ver": [rs(s) for s in pack.ver_strats],
        "symmetries": [rs(s) for s in pack.symmetries],
        "iterative": pack.iterative,
    }


def random_stats(rng, letters, maxnum=3, p_none=0.5):
    if rng.random() < p_none:
        return ()
    k = rng.randint(1, maxnum)
    sets = [s for s in LETTER_SETS if set(s) <= set(letters)]
    return tuple((f"k_{i}", rng.choice(sets)) for i in range(k))


def random_word(rng, alphabet, lo, hi):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def random_word_class(rng, cls=None, p_none=0.5, maxstats=3):
    cls = cls or rng.choice([w.W, w.W, w.WB])
    while True:
        alphabet = rng.choice(["a", "ab", "ab", "ab", "abc"])
        patterns = {
            random_word(rng, alphabet, 1 if rng.random() < 0.2 else 2, 3)
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))
        }
        prefix = random_word(rng, alphabet, 0, 3) if rng.random() < 0.35 else ""
        req = random_word(rng, alphabet, 1, 2) if rng.random() < 0.2 else ""
        res = cls(
            prefix, patterns, alphabet, False, req,
            random_stats(rng, alphabet, maxstats, p_none),
        )
        if not res.is_empty():
            return res


def maybe(rng, p):
    return rng.random() < p


def word_pack(rng, start, features):
    """A random pack for words, always able to decompose."""
    stats = bool(start.stats)
    modes = [m for m in MODES] if stats else ["keep"]
    mode = lambda: rng.choice(modes)  # noqa: E731
    initial, inferral, expansion, ver, sym = [], [], [], [], []
    front = w.RemoveFront(mode(), rng.choice([2, 2, 3]), rng.randrange(3))
    if maybe(rng, 0.4):
        front.__init__(front.mode, front.parts, front.rotate, ignore_parent=False)
    exp = (w.ExpandNE if maybe(rng, 0.1) else w.Expand)(
        mode(), rng.randrange(4), ignore_parent=maybe(rng, 0.3))
    if "mixed" in features:
        kind = rng.randrange(3)
        initial.append(w.MixedFactory(mode=mode(), kind=kind))
        if maybe(rng, 0.5):
            expansion.append([exp])
    elif maybe(rng, 0.6):
        initial.append(front)
        expansion.append([exp])
    elif maybe(rng, 0.5):
        expansion.append([front, exp])
    else:
        expansion.append([front])
        expansion.append([exp])
    if "inferral" in features:
        pool = [w.DropPatterns(mode()), w.DropLetter(mode()), w.DropReq(mode())]
        if stats:
            pool.append(w.Restat(rng.choice(["drop", "merge"])))
        rng.shuffle(pool)
        inferral = pool[: rng.randint(1, len(pool))]
    elif "equiv" in features:
        pool = [w.DropPatterns(mode()), w.DropLetter(mode()), w.DropReq(mode()),
                w.OneWay(mode()), w.OneWayDrop(mode())]
        if stats:
            pool.append(w.Restat(rng.choice(["drop", "merge", "rename"])))
        rng.shuffle(pool)
        tgt = rng.choice([initial] + expansion)
        tgt.extend(pool[: rng.randint(1, 3)])
    if "symmetry" in features:
        pool = [w.PermuteLetters("keep"), w.Reverse("keep")]
        rng.shuffle(pool)
        sym = pool[: rng.randint(1, 2)]
    if "foreign" in features:
        k = rng.randrange(4)
        patts = [random_word(rng, start.alphabet, 1, 2)]
        fac = [
            w.AvoidOrContainFactory(patts=patts, mode=mode(), foreign=True, maxlen=1),
            w.ParentExpansionFactory(mode=mode()),
            w.AddFrontFactory(mode=mode(), maxlen=rng.randint(0, 1),
                              parts=rng.choice([2, 3]), rotate=rng.randrange(3)),
            w.AvoidOrContainFactory(patts=patts + [start.alphabet[0]], mode=mode(),
                                    foreign=maybe(rng, 0.5), maxlen=0),
        ][k]
        rng.choice([initial] + expansion).append(fac)
    if "oneway" in features:
        rng.choice([initial] + expansion).append(w.OneWayUnion(mode()))
    if not stats and maybe(rng, 0.4) and "statatom" not in features:
        ver.append(AtomStrategy())
    else:
        ver.append(w.StatAtom())
    if "verify" in features:
        kind = rng.choice(["long", "avoid", "contain"])
        arg = rng.randint(1, 3) if kind == "long" else random_word(rng, start.alphabet, 2, 2)
        if kind == "avoid" and start.patterns and maybe(rng, 0.5):
            arg = rng.choice(sorted(start.patterns))
        v = w.VerifyPrefix(kind, arg, "verpack" in features, maybe(rng, 0.5), mode(),
                           nested=maybe(rng, 0.5), via_pack=maybe(rng, 0.3))
        ver.insert(rng.randint(0, 1), v)
    for strats in [initial, inferral] + expansion:
        unary_products(rng, strats)
    return StrategyPack(
        initial_strats=initial,
        inferral_strats=inferral,
        expansion_strats=expansion,
        ver_strats=ver,
        symmetries=sym,
        iterative="iterative" in features,
        name="random word pack",
    )


def random_grammar(rng, letters="ab"):
    while True:
        k = rng.randint(1, 4)
        gr = []
        for i in range(k):
            if i and maybe(rng, 0.25):
                alts = list(gr[rng.randrange(i)])
                rng.shuffle(alts)
                gr.append(tuple(alts))
                continue
            alts = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                alts.append(
                    tuple(
                        rng.choice(letters) if maybe(rng, 0.5) else rng.randrange(k)
                        for _ in range(rng.choice([0, 1, 2, 2, 2, 3]))
                    )
                )
            gr.append(tuple(alts))
        gr = tuple(gr)
        if len(g.gr_minima(gr, None)) and 0 in g.gr_minima(gr, None) and g.check_grammar(gr):
            # not too fast growing
            if sum(g.gr_count(gr, 0, n) for n in range(5)) < 400:
                return gr


def random_grammar_class(rng, cls=None, p_none=0.5, maxstats=3):
    cls = cls or rng.choice([g.G, g.G, g.GB])
    letters = rng.choice(["a", "ab", "ab", "abc"])
    while True:
        gr = random_grammar(rng, letters)
        stats = random_stats(rng, letters, maxstats, p_none)
        if maybe(rng, 0.8):
            i = 0
            res = cls(gr, "N", (i, tuple(range(len(gr[i])))), stats)
        else:
            syms = tuple(
                rng.choice(letters) if maybe(rng, 0.3) else rng.randrange(len(gr))
                for _ in range(rng.randint(2, 3))
            )
            res = cls(gr, "S", syms, stats)
        if not res.is_empty():
            return res


def grammar_pack(rng, start, features):
    stats = bool(start.stats)
    modes = [m for m in MODES] if stats else ["keep"]
    mode = lambda: rng.choice(modes)  # noqa: E731
    initial, inferral, expansion, ver, sym = [], [], [], [], []
    fac = g.Factor(mode(), rng.choice(["all", "all", "first", "last", "inter"]),
                   rng.randrange(3), ignore_parent=maybe(rng, 0.6))
    split = g.AltSplit(mode(), rng.choice(["all", "all", "binary", "last", "half"]),
                       ignore_parent=maybe(rng, 0.4))
    unwrap = g.Unwrap(mode(), ignore_parent=maybe(rng, 0.4))
    base_strats = [fac, split, unwrap]
    if "mixed" in features:
        initial.append(g.GMixedFactory(mode=mode(), kind=rng.randrange(3)))
    rng.shuffle(base_strats)
    if maybe(rng, 0.4):
        initial.extend(base_strats)
    elif maybe(rng, 0.5):
        expansion.append(base_strats)
    else:
        initial.append(base_strats[0])
        expansion.extend([[s] for s in base_strats[1:]])
    if not expansion:
        expansion.append([])
    if maybe(rng, 0.3):
        expansion[-1].append(g.Unfold(mode(), rng.choice(["first", "last"]), rng.randint(2, 4)))
    if not expansion[-1]:
        expansion.pop()
    if "inferral" in features:
        pool = [g.SortSymbols(mode()), g.PruneAlts(mode()), g.Twin(mode(), True)]
        if stats:
            pool.append(g.GRestat(rng.choice(["drop", "merge"])))
        rng.shuffle(pool)
        inferral = pool[: rng.randint(1, len(pool))]
    elif "equiv" in features:
        pool = [g.SortSymbols(mode()), g.PruneAlts(mode()), g.Twin(mode(), True),
                g.Twin(mode(), False), g.RotateSymbols(mode()), g.OneWayRotate(mode())]
        if stats:
            pool.append(g.GRestat(rng.choice(["drop", "merge", "rename"])))
        rng.shuffle(pool)
        tgt = rng.choice([initial] + expansion)
        tgt.extend(pool[: rng.randint(1, 3)])
    if "symmetry" in features:
        sym = [g.SymReverse("keep")]
    if "foreign" in features:
        fac = rng.choice([
            g.SuperclassFactory(mode=mode()),
            g.ContextFactory(mode=mode(), how=rng.choice(["all", "first"]),
                             rotate=rng.randrange(3)),
        ])
        rng.choice([initial] + expansion).append(fac)
    if "oneway" in features:
        rng.choice([initial] + expansion).append(g.OneWaySplit(mode(), "binary"))
    if not stats and maybe(rng, 0.4) and "statatom" not in features:
        ver.append(AtomStrategy())
    else:
        ver.append(w.StatAtom())
    if "verify" in features:
        nts = [i for i in range(len(start.gr)) if maybe(rng, 0.5)] or [len(start.gr) - 1]
        inner = [i for i in nts if maybe(rng, 0.4)][: len(nts) - 1]
        v = g.VerifyNT(nts, "verpack" in features, maybe(rng, 0.5), mode(),
                       seqs=maybe(rng, 0.4), inner=inner, via_pack=maybe(rng, 0.3))
        ver.insert(rng.randint(0, 1), v)
    for strats in [initial, inferral] + expansion:
        unary_products(rng, strats)
    return StrategyPack(
        initial_strats=initial,
        inferral_strats=inferral,
        expansion_strats=expansion,
        ver_strats=ver,
        symmetries=sym,
        iterative="iterative" in features,
        name="random grammar pack",
    )


def random_length_class(rng, cls=None, p_none=0.5, maxstats=3):
    return lengths.random_class(rng, cls, random_stats(rng, "abc", maxstats, p_none))


def length_pack(rng, start, features):
    pack = lengths.pack(rng, start, features, MODES if start.stats else ("keep",))
    if not start.stats and maybe(rng, 0.4) and "statatom" not in features:
        vers = [AtomStrategy() if isinstance(v, w.StatAtom) else v for v in pack.ver_strats]
        pack = StrategyPack(
            initial_strats=pack.initial_strats, inferral_strats=pack.inferral_strats,
            expansion_strats=pack.expansion_strats, ver_strats=vers,
            symmetries=pack.symmetries, iterative=pack.iterative, name=pack.name)
    return pack


def random_start(rng, p_none=0.5, words=0.4):
    k = rng.random()
    if k < words:
        return random_word_class(rng, p_none=p_none)
    if k < 0.8:
        return random_grammar_class(rng, p_none=p_none)
    return random_length_class(rng, p_none=p_none)


def random_pack(rng, start, features):
    """A random pack of the universe of the class."""
    if isinstance(start, w.W):
        return word_pack(rng, start, features)
    if isinstance(start, lengths.L):
        return length_pack(rng, start, features)
    if isinstance(start, parts.M):
        return parts.pack(rng, features, MODES if start.stats else ("keep",))
    return grammar_pack(rng, start, features)


FAMILIES = ("words", "words", "grammar", "grammar", "lengths", "parts")
ALL_FEATURES = ("inferral", "equiv", "symmetry", "foreign", "oneway", "verify", "verpack",
                "mixed", "iterative")
DEFAULT_P = {
    "inferral": 0.35, "equiv": 0.35, "symmetry": 0.25, "foreign": 0.35, "oneway": 0.15,
    "verify": 0.25, "verpack": 0.5, "mixed": 0.2, "iterative": 0.1,
}


def random_features(rng, probs=None, exclude=()):
    probs = {**DEFAULT_P, **(probs or {})}
    return {f for f in ALL_FEATURES if f not in exclude and rng.random() < probs[f]}


def random_setup(rng, family=None, probs=None, exclude=(), p_nostat=0.5, maxstats=3,
                 cls=None, features=None):
    family = family or rng.choice(FAMILIES)
    feats = random_features(rng, probs, exclude) if features is None else set(features)
    if family == "words":
        start = random_word_class(rng, cls, p_nostat, maxstats)
        pack = word_pack(rng, start, feats)
    elif family == "lengths":
        start = random_length_class(rng, cls, p_nostat, maxstats)
        pack = length_pack(rng, start, feats)
    elif family == "parts":
        start = parts.random_class(rng, random_stats(rng, "abc", maxstats, p_nostat))
        pack = random_pack(rng, start, feats)
    else:
        start = random_grammar_class(rng, cls, p_nostat, maxstats)
        pack = grammar_pack(rng, start, feats)
    return Setup(start, pack, family, {"features": sorted(feats)})


DBS = ("base", "forget", "forest", "forest_rev")


def make_db(name):
    if name == "base":
        return RuleDB()
    if name == "forget":
        return RuleDBForgetStrategy()
    return RuleDBForest(reverse=name == "forest_rev")


def make_searcher(setup, db, expand_verified=False, **kw):
    return CombinatorialSpecificationSearcher(
        setup.start, setup.pack, ruledb=make_db(db), expand_verified=expand_verified, **kw
    )


class Limit(Exception):
    """Raised by the harness when a search was given up on."""


def expand(searcher, packet):
    """Have the searcher work on this one packet, by public calls only."""
    queue = searcher.classqueue
    queue.do_level = lambda: iter((packet,))
    try:
        searcher.do_level()
    finally:
        del queue.do_level


def limit_steps(searcher, limit):
    """Raise Limit once more than `limit` packets have been handed out."""
    queue = searcher.classqueue
    orig = type(queue).__next__
    count = [0]

    class Limited(type(queue)):  # pylint: disable=too-few-public-methods
        def __next__(self):
            count[0] += 1
            if count[0] > limit:
                raise Limit()
            return orig(self)

    Limited.__name__ = type(queue).__name__
    Limited.__qualname__ = type(queue).__qualname__
    queue.__class__ = Limited
    return count


def search(searcher, rng, limit=400, smallest=False, clock_step=None, minimization=None):
    """
    Run auto_search with a fake clock. Returns the specification or None if there was none
    within the limits.
    """
    if clock_step is None:
        scale = rng.choice([0.0005, 0.005, 0.05, 0.3, 2.0])
        clock_step = lambda: rng.random() * scale  # noqa: E731
    limit_steps(searcher, limit)
    random.seed(rng.random())
    with base.fake_clock(clock_step):
        try:
            kw = {}
            if smallest:
                kw["smallest"] = True
            return searcher.auto_search(perc=rng.choice([1, 5, 20, 100]), **kw)
        except (SpecificationNotFound, Limit, ExceededMaxtimeError,
                NoMoreClassesToExpandError):
            return None
