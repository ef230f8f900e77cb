"""Ground truth computed without the library."""
from collections import Counter
from functools import lru_cache

from . import base  # noqa: F401


@lru_cache(maxsize=200000)
def _true_terms(comb_class, n):
    res = Counter()
    for obj in comb_class.objects_of_size(n):
        res[comb_class.get_parameters(obj)] += 1
    return res


def true_terms(comb_class, n):
    """Counter parameter tuple -> number of objects, by brute force."""
    return _true_terms(comb_class, n) if n >= 0 else Counter()


def true_objects(comb_class, n):
    res = {}
    for obj in comb_class.objects_of_size(n):
        res.setdefault(comb_class.get_parameters(obj), []).append(obj)
    return res


def nonzero(terms):
    return {k: int(v) for k, v in terms.items() if v != 0}


def bound_n(comb_class, cap=600, nmax=9):
    """Largest n <= nmax such that the class has at most cap objects of size <= n."""
    total = 0
    for n in range(nmax + 1):
        total += sum(true_terms(comb_class, n).values())
        if total > cap:
            return max(0, n - 1)
    return nmax


INF = float("inf")


def lfp_terms(rules):
    """
    Least fixed point of the 'terms computable' operator.

    rules: iterable of (parent, children, shifts). value(p) = number of terms of p that can
    be computed; a rule gives value(p) >= min_i(value(c_i) + s_i) (everything when there are
    no children), values start at 0.  Kleene iteration with acceleration: whenever the
    iteration has a gap wide enough that no finite value can jump above it, everything above
    is infinite.
    """
    rules = [
        (p, tuple(c), tuple(s)) for p, c, s in rules
    ]
    nodes = set()
    for p, c, _ in rules:
        nodes.add(p)
        nodes.update(c)
    if not nodes:
        return {}
    maxshift = max([abs(s) for _, _, ss in rules for s in ss] + [1])
    width = maxshift * (len(nodes) + 2) + 2
    # Any finite value of the fixed point is below this bound: sort the finite values, two
    # consecutive ones (starting from 0) differ by at most maxshift.
    cap = maxshift * (len(nodes) + 1) + 1
    del width
    val = {v: 0 for v in nodes}
    changed = True
    while changed:
        changed = False
        for p, cs, ss in rules:
            if val[p] >= cap:
                continue
            new = cap
            for c, s in zip(cs, ss):
                x = val[c]
                y = cap if x >= cap else x + s
                if y < new:
                    new = y
            new = min(new, cap)
            if new > val[p]:
                val[p] = new
                changed = True
    return {v: (INF if x >= cap else x) for v, x in val.items()}


def spec_forest_rules(rules):
    """(parent, children, shifts) of library rules, with classes as names."""
    return [(r.comb_class, tuple(r.children), tuple(r.shifts())) for r in rules]


# ------------------------------------------------------------------ graphs and pruning
def reachable(succ, a):
    seen, todo = {a}, [a]
    while todo:
        for y in succ.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def components(nodes, edges):
    """{node: frozenset of the nodes it is strongly connected to}."""
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    reach = {a: reachable(succ, a) for a in nodes}
    return {a: frozenset(b for b in reach[a] if a in reach[b]) for a in nodes}


class Universe:
    """
    Recorded rules (start, ends, two_way) with empty children removed, and what can be
    deduced from them up to equivalence.
    """

    def __init__(self, nodes, rules):
        nodes = set(nodes)
        edges = []
        for start, ends, two_way in rules:
            nodes.add(start)
            nodes.update(ends)
            if len(ends) == 1:
                edges.append((start, ends[0]))
                if two_way:
                    edges.append((ends[0], start))
        self.comp = components(nodes, edges)
        self.rules = {}
        for start, ends, _ in rules:
            if len(ends) == 1 and self.comp[start] == self.comp[ends[0]]:
                continue
            key = tuple(sorted((self.comp[e] for e in ends), key=sorted))
            self.rules.setdefault(self.comp[start], set()).add(key)

    def gfp(self):
        """The components in some (possibly circular) proof tree."""
        alive = set(self.rules)
        while True:
            keep = {
                c for c in alive
                if any(all(e in alive for e in ends) for ends in self.rules[c])
            }
            if keep == alive:
                return alive
            alive = keep

    def derivable(self, root):
        """The components derivable bottom up, when the component of the root is given."""
        given = {self.comp[root]}
        done = set()
        while True:
            new = {
                c for c in self.rules if c not in done
                and any(all(e in given or e in done for e in ends) for ends in self.rules[c])
            }
            if not new:
                return done
            done |= new

    def smallest_tree(self, root, budget=200000):
        """Number of nodes of the smallest proof tree: each component is expanded once."""
        alive = self.gfp()
        rules = {
            c: sorted((ends for ends in self.rules[c] if all(e in alive for e in ends)),
                      key=len)
            for c in alive
        }
        best = [None]
        work = [0]

        def go(todo, chosen, size):
            work[0] += 1
            if work[0] > budget:
                raise OverflowError
            if best[0] is not None and size >= best[0]:
                return
            while todo and todo[-1] in chosen:
                todo = todo[:-1]
            if not todo:
                best[0] = size
                return
            c = todo[-1]
            for ends in rules[c]:
                go(todo[:-1] + ends, chosen | {c}, size + len(ends))

        try:
            go((self.comp[root],), frozenset(), 1)
        except OverflowError:
            return None
        return best[0]
