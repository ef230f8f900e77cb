"""C06: equivalence classes are exactly the strongly connected components."""
from . import base  # noqa: F401
from . import oracles
from .runner import Violation, check
from comb_spec_searcher.equiv_db import EquivalenceDB

RULE = (
    "Each case is a random history on an EquivalenceDB: two way edges, one way edges, "
    "verified marks, connect_cycles and queries in random order, over 2 to 40 labels (dense, "
    "sparse, planted cycles of cycles, chains closed late). A shadow model keeps the edges and "
    "marks. After every connect_cycles, equivalence of all pairs must be the strongly "
    "connected components of the shadow graph; between two of them it must lie between the "
    "closure of the two way edges with what was merged before and the components. At every "
    "query a label is verified exactly when a label of the class reported for it was marked; "
    "representatives, equivalent_set and the explanation path of equivalent pairs are "
    "validated against the edges recorded. A case is non trivial when a component of at least "
    "two labels that needs a one way edge was reported; identity: the history."
)
ASSUMPTIONS = ["one way edges are taken into account when connect_cycles is called, as the "
               "rule databases do before they use the classes"]
QUICK = {"cases": 25000, "seconds": 300}
THOROUGH = {"cases": 10000000, "seconds": 800}
CASE_SECONDS = 20
TIMEOUT_VIOLATES = True
NEED = {"nontrivial": 10000, "states_compared": 50000, "paths_validated": 100000,
        "merged_by_one_way": 10000, "merged_verified": 5000, "verified_queries": 100000,
        "not_equivalent_pairs": 50000}


class Model:
    """Edges and marks."""

    def __init__(self):
        self.edges = set()
        self.two = []
        self.marks = set()
        self.nodes = set()
        self.floor = {}  # what must already be equivalent

    def comps(self):
        return oracles.components(self.nodes, self.edges)

    def two_way_comps(self, extra):
        edges = [e for p in self.two for e in (p, p[::-1])]
        for comp in extra:
            comp = sorted(comp)
            for a, b in zip(comp, comp[1:]):
                edges += [(a, b), (b, a)]
        return oracles.components(self.nodes, edges)


def reported(db, nodes, rng):
    """{node: class reported}"""
    nodes = sorted(nodes)
    if rng.random() < 0.5:
        rng.shuffle(nodes)
    groups = {}
    for a in nodes:
        groups.setdefault(db[a], set()).add(a)
    res = {}
    for r, g in groups.items():
        check(r in g, "the representative {} is not one of {}", r, g)
        for a in g:
            res[a] = frozenset(g)
    return res


def compare(db, m, rng, obs, exact, connected, history):
    comps = m.comps()
    floor = m.two_way_comps(connected)
    got = reported(db, m.nodes, rng)
    obs.count("states_compared")
    for a in m.nodes:
        if exact and got[a] != comps[a]:
            raise Violation(f"class of {a} is {sorted(got[a])}, its strongly connected "
                            f"component {sorted(comps[a])}; history {history}")
        if not exact and not floor[a] <= got[a] <= comps[a]:
            raise Violation(f"class of {a} is {sorted(got[a])}, must be between "
                            f"{sorted(floor[a])} and {sorted(comps[a])}; history {history}")
        want = bool(got[a] & m.marks)
        obs.count("verified_queries")
        if db.is_verified(a) != want:
            raise Violation(f"is_verified({a}) is {not want}; class {sorted(got[a])}, marks "
                            f"{sorted(m.marks)}; history {history}")
        if want and a not in m.marks and len(got[a]) > 1:
            obs.count("merged_verified")
        if len(floor[a]) < len(got[a]):
            obs.count("merged_by_one_way")
    nodes = sorted(m.nodes)
    pairs = [(rng.choice(nodes), rng.choice(nodes)) for _ in range(min(40, len(nodes) ** 2))]
    for a, b in pairs:
        eq = b in got[a]
        check(db.equivalent(a, b) == eq, "equivalent({}, {}) is not symmetric with db[.]; {}",
              a, b, history)
        if not eq:
            obs.count("not_equivalent_pairs")
            try:
                path = db.find_path(a, b)
            except KeyError:
                continue
            raise Violation(f"path {path} for {a}, {b} which are not equivalent; {history}")
        path = tuple(db.find_path(a, b))
        if not path or path[0] != a or path[-1] != b:
            raise Violation(f"explanation of {a} and {b} is {path}; history {history}")
        for x, y in zip(path, path[1:]):
            if (x, y) not in m.edges:
                raise Violation(f"explanation {path} of {a} and {b} uses {x} -> {y}, which "
                                f"was never recorded; history {history}")
        obs.count("paths_validated")
        obs.maximum("path_length", len(path))
    a = rng.choice(nodes)
    check(set(db.equivalent_set(a)) == set(got[a]), "equivalent_set({}) is {}, class {}; {}", a,
          db.equivalent_set(a), got[a], history)
    return got


def case(rng, index, obs):
    n = rng.choice([2, 3, 4, 5, 6, 8, 12, 20, 40])
    scale = rng.choice([1, 1, 1, 7, 1000003])
    labels = [i * scale for i in range(n)]
    kind = rng.choice(["random", "random", "cycles", "late"])
    nops = rng.randint(1, 4 * n)
    ops = []
    p_two = rng.choice([0, 0.1, 0.3, 0.6])
    for _ in range(nops):
        r = rng.random()
        if r < 0.1:
            ops.append(("verify", rng.choice(labels)))
        elif r < p_two + 0.1:
            ops.append(("two", rng.choice(labels), rng.choice(labels)))
        else:
            ops.append(("one", rng.choice(labels), rng.choice(labels)))
    if kind != "random":
        for _ in range(rng.randint(1, 3)):
            cyc = rng.sample(labels, rng.randint(2, n)) if n > 2 else list(labels)
            edges = [("one" if rng.random() < 0.8 else "two", a, b)
                     for a, b in zip(cyc, cyc[1:] + cyc[:1])]
            if kind == "cycles":
                for e in edges:
                    ops.insert(rng.randint(0, len(ops)), e)
            else:
                ops = [e for e in edges[:-1]] + ops + [edges[-1]]
    p_connect = rng.choice([0, 0.1, 0.5])
    p_query = rng.choice([0, 0.1, 0.5])
    db = EquivalenceDB()
    m = Model()
    history = []
    connected = []
    touched = 0
    for op in ops + [("end",)]:
        if op[0] == "two":
            db.add_two_way_edge(op[1], op[2])
            m.two.append(op[1:])
            m.edges.update({op[1:], op[:0:-1]})
            m.nodes.update(op[1:])
        elif op[0] == "one":
            db.add_one_way_edge(op[1], op[2])
            m.edges.add(op[1:])
            m.nodes.update(op[1:])
        elif op[0] == "verify":
            db.set_verified(op[1])
            m.marks.add(op[1])
            m.nodes.add(op[1])
        history.append(op)
        if not m.nodes:
            continue
        if rng.random() < p_query:
            compare(db, m, rng, obs, False, connected, history)
        if op[0] == "end" or rng.random() < p_connect:
            db.connect_cycles()
            history.append(("connect",))
            got = compare(db, m, rng, obs, True, connected, history)
            connected = [g for g in set(got.values()) if len(g) > 1]
            touched = max(touched, max(len(g) for g in got.values()))
    if touched > 1 and any(o[0] == "one" for o in history):
        obs.nontrivial(history)
        obs.maximum("component", touched)
        obs.sample({"history": str(history[:25])})
