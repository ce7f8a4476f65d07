"""python3 tools/refactor.py [--keep DIR] [checks...]: rewrite the code under test without changing what it does (in a copy of /repo):
every function body moves to a helper, conditions and results to variables, branches and comparisons are turned around, local
variables renamed; then run the stable tests and the quick checks, which must all stay quiet."""
import ast
import glob
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plant  # noqa: E402  pylint: disable=wrong-import-position

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class Turn(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, what):
        self.n += 1
        return "%s_%d" % (what, self.n)

    def visit_Compare(self, node):
        self.generic_visit(node)
        simple = lambda x: not any(isinstance(y, ast.Call) for y in ast.walk(x))
        if len(node.ops) == 1 and type(node.ops[0]) in FLIP and simple(node.left) and simple(node.comparators[0]):
            return ast.Compare(node.comparators[0], [FLIP[type(node.ops[0])]()], [node.left])
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            node = ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        if isinstance(node.test, ast.NamedExpr):
            return node
        v = self.fresh("holds")
        return [ast.Assign([ast.Name(v, ast.Store())], node.test), ast.If(ast.Name(v, ast.Load()), node.body, node.orelse)]

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None:
            return node
        v = self.fresh("result")
        return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, node):
        if node.id in self.names:
            node.id = node.id + "_"
        return node


def local_names(f):
    a = f.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ExceptHandler, ast.Import, ast.ImportFrom)) for y in f.body for x in ast.walk(y)):
        return set()
    return {x.id for y in f.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params


class Split(ast.NodeTransformer):
    """def f(..) becomes a helper with the body, and an f that calls it."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.cls = None

    def visit_ClassDef(self, node):
        outer, self.cls = self.cls, node.name
        body = []
        for x in node.body:
            y = self.visit(x) if isinstance(x, ast.FunctionDef) else x
            body += y if isinstance(y, list) else [y]
        node.body = body
        self.cls = outer
        return node

    def visit_FunctionDef(self, f):
        f.body = [y for x in f.body for y in (lambda z: z if isinstance(z, list) else [z])(Turn().visit(x))]
        names = local_names(f)
        f.body = [Rename(names).visit(x) for x in f.body]
        a = f.args
        kinds = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
        source = ast.unparse(ast.fix_missing_locations(f))
        if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs or kinds - {"check_args_type"} or "super()" in source or "__" in source.replace(f.name, "") \
                or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return f
        name = "_%s_%s_%s_body" % (self.prefix, self.cls or "", f.name.strip("_"))
        params = [x.arg for x in a.args]
        inner = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), f.body, [], None)
        if self.cls:
            call = ast.Call(ast.Attribute(ast.Name(params[0], ast.Load()), name, ast.Load()), [ast.Name(p, ast.Load()) for p in params[1:]], [])
        else:
            call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(p, ast.Load()) for p in params], [])
        f.body = [ast.Return(call)]
        return [inner, f]


def rewrite(path):
    with open(path, encoding="utf-8") as fh:
        tree = ast.parse(fh.read())
    s = Split(os.path.basename(path)[:-3].replace("-", "_"))
    out = []
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            y = s.visit(x)
            out += y if isinstance(y, list) else [y]
        elif isinstance(x, ast.ClassDef):
            out.append(s.visit(x))
        else:
            out.append(x)
    tree.body = out
    with open(path, "w", encoding="utf-8") as fh:
        fh.write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


def main():
    args = sys.argv[1:]
    keep = None
    if args[:1] == ["--keep"]:
        keep = args[1]
        args = args[2:]
    top = tempfile.mkdtemp(prefix="refactor-")
    copy = keep or os.path.join(top, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        for pat in ("flee/*.py", "flee/datamanager/*.py", "flee/postprocessing/*.py"):
            for p in sorted(glob.glob(os.path.join(copy, pat))):
                if "_version" not in p and "__init__" not in p:
                    rewrite(p)
        print("stable tests missing:", plant.tests(copy), flush=True)
        for c in args or ["C%02d" % i for i in range(1, 100) if os.path.exists(os.path.join(VERIF, "harness/checks/c%02d.py" % i))]:
            r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), c, "quick"], capture_output=True, text=True, env=dict(os.environ, FLEE_REPO=copy))
            print(c, r.returncode, "" if r.returncode == 0 else r.stdout[:1500] + r.stderr[-1500:], flush=True)
    finally:
        shutil.rmtree(top, True)


if __name__ == "__main__":
    main()
