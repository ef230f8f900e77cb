"""
mutants.py OUT.jsonl COUNT SEED [--jobs J] [--files a,b] [--seconds S] [--set 1|2]

Mutation testing of the checks: small syntactic changes of the library that pass its tests
are given to the checks of the properties anchored in the changed file. Only scratch copies
under /tmp are changed. One JSON line per mutant that passes the tests.
"""
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = {
    "class_db.py": "C15 C04 C17",
    "class_queue.py": "C16 C17 C04",
    "equiv_db.py": "C06 C05 C14",
    "rule_db/base.py": "C05 C14 C04 C01 C02 C17",
    "rule_db/forget.py": "C14 C04 C17 C01",
    "rule_db/forest.py": "C03 C11 C02 C17 C01",
    "tree_searcher.py": "C05 C02 C13",
    "isomorphism.py": "C12 C13 C18",
    "bijection.py": "C13",
    "specification.py": "C01 C02 C19 C18 C20 C07 C08 C12",
    "specification_extrator.py": "C02 C13 C01 C11",
    "strategies/rule.py": "C09 C10 C07 C08 C18 C20 C01 C12 C02",
    "strategies/strategy.py": "C09 C10 C18 C04 C19 C20 C07 C08",
    "strategies/strategy_pack.py": "C18 C04 C19 C17",
    "strategies/constructor/cartesian.py": "C09 C10 C07 C08 C20 C12",
    "strategies/constructor/disjoint.py": "C09 C10 C07 C08 C20 C12",
    "strategies/constructor/base.py": "C09 C12 C13 C07",
    "utils.py": "C20 C09 C10 C01 C17",
    "comb_spec_searcher.py": "C04 C17 C01 C02 C13",
    "proof_tree.py": "C05 C02 C01",
    "combinatorial_class.py": "C15 C07 C18 C20",
}
SKIP_FUNCS = {
    "__repr__", "__str__", "status", "explanation", "expand_verified_status", "show", "share",
    "to_html_representation", "_log_status", "_auto_search_rules_status", "formal_step",
    "get_op_symbol", "get_eq_symbol", "run_information", "_status_output", "html",
    "pretty_print_equations", "maple_equations", "sympy_expr_to_maple", "get_maple_equations",
    "get_pretty_equations", "size_to_readable", "cssmethodtimer", "cssiteratortimer",
    "get_mem", "nice_pypy_mem", "ordering", "non_inferral_strategy", "info", "string_json",
    "__dir__", "_status", "log_spec_found", "no_specification_found", "initial_conditions",
}
SWAP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "is": "is not",
        "is not": "is", "in": "not in", "not in": "in"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
       ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def points(src):
    """(start offset, end offset, replacement, kind)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    res = []

    def visit(node, func):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.FunctionDef):
                if node.name in SKIP_FUNCS:
                    return
                func = node.name
            for ch in node.body:
                visit(ch, func)
            return
        if isinstance(node, ast.Expr):
            t = text(node)
            if isinstance(node.value, ast.Constant) or t.startswith("logger"):
                return
            if func:
                res.append((*span(node), "pass", "drop"))
        if isinstance(node, (ast.Raise, ast.Assert)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                visit(node.value, func)
            return
        if func is None:
            for ch in ast.iter_child_nodes(node):
                visit(ch, func)
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = OPS[type(node.ops[0])]
            res.append((*span(node), f"({text(node.left)} {SWAP[op]} {text(node.comparators[0])})",
                        "compare"))
        elif isinstance(node, ast.BoolOp):
            o, p = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            res.append((*span(node), "(" + f" {p} ".join(f"({text(v)})" for v in node.values) + ")",
                        "boolop"))
            for v in node.values:
                rest = [w for w in node.values if w is not v]
                res.append((*span(node), "(" + f" {o} ".join(f"({text(w)})" for w in rest) + ")",
                            "boolop"))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            o = "-" if isinstance(node.op, ast.Add) else "+"
            res.append((*span(node), f"({text(node.left)} {o} {text(node.right)})", "binop"))
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                res.append((*span(node), str(not node.value), "bool"))
            elif isinstance(node.value, int):
                res.append((*span(node), str(node.value + 1), "int"))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            res.append((*span(node), f"({text(node.operand)})", "not"))
        elif isinstance(node, (ast.If, ast.IfExp)):
            res.append((*span(node.test), "True", "if"))
            res.append((*span(node.test), "False", "if"))
        elif isinstance(node, ast.AugAssign):
            res.append((*span(node), "pass", "drop"))
        elif isinstance(node, ast.Assign):
            if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
                res.append((*span(node), "pass", "drop"))
        elif isinstance(node, ast.Continue):
            res.append((*span(node), "break", "continue"))
            res.append((*span(node), "pass", "continue"))
        elif isinstance(node, ast.Break):
            res.append((*span(node), "continue", "break"))
        elif isinstance(node, ast.For):
            res.append((*span(node.iter), f"list({text(node.iter)})[1:]", "for"))
            res.append((*span(node.iter), f"list({text(node.iter)})[::-1]", "forrev"))
            res.append((*span(node.iter), f"list({text(node.iter)})[:-1]", "for"))
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                res.append((*span(node.lower), f"{text(node.lower)} + 1", "slice"))
        elif isinstance(node, ast.comprehension):
            for i in node.ifs:
                res.append((*span(i), "True", "compif"))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
                a, b = node.args[:2]
                s, _ = span(a)
                _, e = span(b)
                res.append((s, e, f"{text(b)}, {text(a)}", "args"))
        for ch in ast.iter_child_nodes(node):
            visit(ch, func)

    for n in tree.body:
        visit(n, None)
    return raw, [p for p in res if raw[p[0]:p[1]].decode() != p[2]]


PAIRS = {"min": "max", "max": "min", "any": "all", "all": "any"}
COPIES = {"sorted", "list", "dict", "set", "tuple", "reversed"}


def points2(src):
    """The second set: wrong variable, lost copy, lost order, lost keyword, ..."""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    res = []

    def names_of(func):
        a = func.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in ast.walk(func):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.append(n.id)
        return sorted(set(names) - {"self", "cls", "_"})

    def body(node, names, attrs):
        if isinstance(node, (ast.Raise, ast.Assert)):
            return
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant) or text(node).startswith("logger"):
                return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                body(node.value, names, attrs)
            return
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            for ch in node.body if isinstance(node.body, list) else [node.body]:
                body(ch, names, attrs)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in names:
            for other in names:
                if other != node.id:
                    res.append((*span(node), other, "variable"))
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Name) and f.id in PAIRS:
                res.append((*span(f), PAIRS[f.id], "pair"))
            if isinstance(f, ast.Name) and f.id in COPIES and len(node.args) == 1:
                res.append((*span(node), f"({text(node.args[0])})", "copy"))
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "items") and not node.args:
                res.append((*span(node), text(f.value), "copy"))
            for k in node.keywords:
                if k.arg is not None:
                    rest = [text(a) for a in node.args]
                    rest += [text(q) for q in node.keywords if q is not k]
                    res.append((*span(node), f"{text(f)}({', '.join(rest)})", "keyword"))
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, int) and not isinstance(node.value, bool):
                res.append((*span(node), str(node.value - 1), "int"))
            elif node.value is None:
                return
        elif isinstance(node, ast.Continue):
            res.append((*span(node), "return", "continue"))
        elif isinstance(node, ast.Break):
            res.append((*span(node), "return", "break"))
            res.append((*span(node), "pass", "break"))
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            if node.value.id == "self" and isinstance(node.ctx, ast.Load) and node.attr in attrs:
                for other in attrs:
                    if other != node.attr:
                        res.append((*span(node), f"self.{other}", "attribute"))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.FloorDiv)):
            res.append((*span(node), f"({text(node.left)} + {text(node.right)})", "binop"))
        elif isinstance(node, ast.Return) and node.value is not None:
            res.append((*span(node.value), "None", "return"))
        elif isinstance(node, ast.IfExp):
            res.append((*span(node), f"({text(node.body)})", "ifexp"))
            res.append((*span(node), f"({text(node.orelse)})", "ifexp"))
        elif isinstance(node, ast.YieldFrom):
            res.append((*span(node.value), f"set({text(node.value)})", "yieldset"))
        elif isinstance(node, ast.comprehension):
            res.append((*span(node.iter), f"list({text(node.iter)})[1:]", "compiter"))
            res.append((*span(node.iter), f"list({text(node.iter)})[::-1]", "comprev"))
        elif isinstance(node, ast.ListComp):
            res.append((*span(node), f"sorted({text(node)})", "sorted"))
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.arguments, ast.expr_context)):
                continue
            if isinstance(node, ast.FunctionDef) and ch is node.returns:
                continue
            body(ch, names, attrs)

    def outer(node, attrs):
        for ch in node.body:
            if isinstance(ch, ast.ClassDef):
                found = set()
                for n in ast.walk(ch):
                    if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                            and isinstance(n.value, ast.Name) and n.value.id == "self"):
                        found.add(n.attr)
                outer(ch, sorted(found))
            elif isinstance(ch, ast.FunctionDef) and ch.name not in SKIP_FUNCS:
                names = names_of(ch)
                for st in ch.body:
                    body(st, names, attrs)

    outer(tree, [])
    return raw, [p for p in res if raw[p[0]:p[1]].decode() != p[2]]


def tests(copy):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=copy)
    try:
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                            "tests", "comb_spec_searcher", "test_readme.txt", "example.py"],
                           cwd=copy, env=env, capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        return False
    return t.returncode == 0


def work(args):
    k, f, mut, ident, seconds = args
    me = multiprocessing.current_process()._identity[0]  # pylint: disable=protected-access
    copy, ver = f"/tmp/mut_repo_{me}", f"/tmp/mut_verif_{me}"
    if not os.path.exists(copy):
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns(
            ".git", "__pycache__", "replays", "evidence", "seeded"))
    path = f"{copy}/comb_spec_searcher/{f}"
    with open(f"/repo/comb_spec_searcher/{f}", "rb") as h:
        raw = h.read()
    s, e, rep, kind = mut
    new = raw[:s] + rep.encode() + raw[e:]
    line = raw[:s].count(b"\n") + 1
    rec = {"n": ident, "file": f, "line": line, "kind": kind,
           "old": raw[s:e].decode()[:200], "new": rep[:200]}
    try:
        compile(new, f, "exec")
    except SyntaxError:
        return None
    try:
        with open(path, "wb") as h:
            h.write(new)
        if not tests(copy):
            rec["tests"] = False
            return rec
        rec["tests"] = True
        rec["caught"] = []
        env = dict(os.environ, VMON_REPO=copy, VERIF_TIER="quick")
        for prop in FILES[f].split():
            try:
                c = subprocess.run(
                    ["python3", "check.py", prop, "--jobs", "1", "--cases", "1000000",
                     "--seconds", str(seconds)], cwd=ver, env=env, capture_output=True,
                    text=True, timeout=seconds + 200)
                code = c.returncode
            except subprocess.TimeoutExpired:
                code = "timeout"
            if code != 0:
                rec["caught"].append((prop, code))
                break
    finally:
        with open(path, "wb") as h:
            h.write(raw)
    return rec


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    rng = random.Random(seed)
    files = opt["--files"].split(",") if "--files" in opt else list(FILES)
    todo = []
    for f in files:
        with open(f"/repo/comb_spec_searcher/{f}", encoding="utf8") as h:
            _, ps = (points2 if opt.get("--set") == "2" else points)(h.read())
        todo += [(f, p) for p in ps]
    print(len(todo), "mutants")
    rng.shuffle(todo)
    caps = {"variable": 500, "attribute": 150}
    kept = []
    for f, pt in todo:
        if caps.get(pt[3], 1) > 0:
            kept.append((f, pt))
            if pt[3] in caps:
                caps[pt[3]] -= 1
    todo = kept
    rng.shuffle(todo)
    jobs = int(opt.get("--jobs", 8))
    seconds = int(opt.get("--seconds", 40))
    items = [(0, f, p, i, seconds) for i, (f, p) in enumerate(todo[:count])]
    with multiprocessing.Pool(jobs) as pool, open(out, "a", encoding="utf8") as h:
        for rec in pool.imap_unordered(work, items):
            if rec is not None:
                h.write(json.dumps(rec) + "\n")
                h.flush()
    for i in range(1, jobs + 1):
        shutil.rmtree(f"/tmp/mut_repo_{i}", ignore_errors=True)
        shutil.rmtree(f"/tmp/mut_verif_{i}", ignore_errors=True)


if __name__ == "__main__":
    main()
