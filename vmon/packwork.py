"""What the strategies of a pack produce, worked out without the searcher."""
from . import base  # noqa: F401
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies import StrategyFactory
from comb_spec_searcher.strategies.rule import AbstractRule
from comb_spec_searcher.strategies.strategy import EmptyStrategy


def pack_strategies(pack):
    res = list(pack.initial_strats) + list(pack.inferral_strats)
    for group in pack.expansion_strats:
        res.extend(group)
    return res + list(pack.ver_strats) + list(pack.symmetries)


def settings_repr(strategy):
    d = {k: v for k, v in sorted(strategy.__dict__.items()) if k != "__orig_class__"}
    return f"{type(strategy).__module__}.{type(strategy).__name__}{d}"


def apply_one(strategy, comb_class):
    """The rules of a strategy or a factory for a class."""
    todo = strategy(comb_class) if isinstance(strategy, StrategyFactory) else [strategy]
    for x in todo:
        try:
            rule = x if isinstance(x, AbstractRule) else x(comb_class)
            rule.children  # pylint: disable=pointless-statement
        except StrategyDoesNotApply:
            continue
        yield rule


class PackRules:
    """Memory of what the strategies of a pack give."""

    def __init__(self, pack):
        self.strategies = pack_strategies(pack)
        self.memo = {}

    def rules(self, comb_class):
        if comb_class not in self.memo:
            self.memo[comb_class] = [
                rule for s in self.strategies for rule in apply_one(s, comb_class)
            ]
        return self.memo[comb_class]

    def genuine(self, strategy, comb_class, children):
        """Whether the pack gives this very rule when working on this class."""
        want = (comb_class, tuple(children), settings_repr(strategy))
        if isinstance(strategy, EmptyStrategy):
            return not children and comb_class.is_empty()
        return any(
            (r.comb_class, tuple(r.children), settings_repr(r.strategy)) == want
            for r in self.rules(comb_class)
        )

    def anywhere(self, strategy, comb_class, children, classes):
        """The same, but the pack may have been working on any of the classes."""
        if self.genuine(strategy, comb_class, children):
            return True
        if isinstance(strategy, EmptyStrategy):
            return False
        want = (comb_class, tuple(children), settings_repr(strategy))
        return any(
            (r.comb_class, tuple(r.children), settings_repr(r.strategy)) == want
            for c in classes for r in self.rules(c)
        )


def applies(strategy, comb_class, children):
    """Whether re-applying the strategy to the class gives these children."""
    try:
        return tuple(strategy(comb_class).children) == tuple(children)
    except StrategyDoesNotApply:
        return False
