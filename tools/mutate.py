"""python3 tools/mutate.py [-n N] [-s SEED] [-l LOG] [files...]: change one operator, number, condition or statement of the code at
random (in a copy of /repo), keep the changes that pass the stable tests, and run the quick checks of that file against them.
Every change nobody notices is printed with its line: it is either of no consequence, not claimed, or something to strengthen."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plant  # noqa: E402  pylint: disable=wrong-import-position

CHECKS = {
    "flee/flee.py": "C32 C39 C01 C02 C03 C08 C10 C23 C24 C17 C16 C19 C12 C28 C26 C25 C31",
    "flee/moving.py": "C04 C05 C06 C29 C34 C07 C02 C03 C31 C25",
    "flee/scoring.py": "C12 C06 C34 C31",
    "flee/crawling.py": "C38 C39 C06 C05 C29 C31 C25",
    "flee/spawning.py": "C13 C14 C15 C16 C17 C18 C25",
    "flee/InputGeography.py": "C19 C39 C09 C08 C11 C15 C34 C10 C31",
    "flee/SimulationSettings.py": "C20 C27 C34",
    "flee/coupling.py": "C26 C33",
    "flee/pflee.py": "C25 C31 C26 C33",
    "flee/pmicro_flee.py": "C31 C33",
    "flee/micro_InputGeography.py": "C31 C33",
    "flee/Diagnostics.py": "C23 C25",
    "flee/datamanager/handle_refugee_data.py": "C21 C22 C14 C28",
    "flee/datamanager/DataTable.py": "C21 C22 C14 C28",
    "flee/datamanager/read_period.py": "C21 C28",
    "flee/postprocessing/analysis.py": "C30 C28",
    "flee/postprocessing/extract-validation-results.py": "C30",
    "flee/postprocessing/plot_flee_output.py": "C30",
    "runscripts/run.py": "C28",
    "runscripts/run_par.py": "C28 C25",
    "multiscale/run_mscale.py": "C33",
    "flee/postprocessing/plot_flee_compare.py": "C30",
    "flee/postprocessing/plot_flee_forecast.py": "C36",
    "flee/postprocessing/plot_flee_uq_output.py": "C36",
    "flee/postprocessing/plotly_flee_output.py": "C36",
    "multiscale/precipitation.py": "C37",
    "multiscale/micro_discharge_filtered_csv.py": "C37",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


class Sites(ast.NodeVisitor):
    def __init__(self, text):
        self.lines = text.split("\n")
        self.starts = [0]
        for x in self.lines:
            self.starts.append(self.starts[-1] + len(x.encode()) + 1)
        self.raw = text.encode()
        self.sites = []
        self.function = ""

    def at(self, line, col):
        return self.starts[line - 1] + col

    def put(self, node, new, what):
        self.sites.append((self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset), new, what, node.lineno, self.function))

    def seg(self, node):
        return self.raw[self.at(node.lineno, node.col_offset):self.at(node.end_lineno, node.end_col_offset)].decode()

    def visit_FunctionDef(self, node):
        outer, self.function = self.function, node.name
        for x in node.body:
            self.visit(x)
        self.function = outer

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in SWAP:
            self.put(node, "(%s %s %s)" % (self.seg(node.left), SWAP[type(node.ops[0])], self.seg(node.comparators[0])), "compare")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in ARITH and not isinstance(node.left, ast.Constant):
            self.put(node, "(%s %s %s)" % (self.seg(node.left), ARITH[type(node.op)], self.seg(node.right)), "arithmetic")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        j = " or " if isinstance(node.op, ast.And) else " and "
        self.put(node, "(" + j.join("(%s)" % self.seg(x) for x in node.values) + ")", "and/or")
        self.generic_visit(node)

    def visit_If(self, node):
        self.put(node.test, "(not (%s))" % self.seg(node.test), "negate")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.put(node, str(not node.value), "constant")
        elif isinstance(node.value, (int, float)):
            self.put(node, repr(node.value + 1), "constant")

    def statement(self, node):
        if isinstance(node, ast.Expr) and (isinstance(node.value, ast.Constant) or "print" in self.seg(node) or "write" in self.seg(node)):
            return
        self.put(node, "pass", "drop")
        self.generic_visit(node)

    visit_Assign = visit_AugAssign = visit_Expr = visit_Continue = visit_Break = statement

    def visit_Assert(self, node):
        pass

    def visit_JoinedStr(self, node):
        pass


def sites(rel):
    text = open(os.path.join("/repo", rel), encoding="utf-8").read()
    s = Sites(text)
    s.visit(ast.parse(text))
    return text, s.sites


def main():
    p = argparse.ArgumentParser()
    p.add_argument("-n", type=int, default=50)
    p.add_argument("-s", type=int, default=1)
    p.add_argument("-l", default="/dev/stdout")
    p.add_argument("--list", action="store_true")
    p.add_argument("files", nargs="*")
    a = p.parse_args()
    pool = []
    for rel in a.files or CHECKS:
        text, found = sites(rel)
        pool += [(rel, text, x) for x in found if x[5] not in ("printInfo", "main", "wrapper")]
    print(len(pool), "possible changes", file=sys.stderr)
    if a.list:
        return
    random.Random(a.s).shuffle(pool)
    top = tempfile.mkdtemp(prefix="mutate-")
    copy = os.path.join(top, "repo")
    shutil.copytree("/repo", copy, symlinks=True)
    done = 0
    tally = {}
    try:
        for rel, text, (i, j, new, what, line, function) in pool:
            if done >= a.n:
                break
            raw = text.encode()
            changed = raw[:i] + new.encode() + raw[j:]
            path = os.path.join(copy, rel)
            try:
                ast.parse(changed)
                with open(path, "wb") as f:
                    f.write(changed)
                try:
                    bad = plant.tests(copy)
                except subprocess.TimeoutExpired:
                    bad = True
                if bad:
                    tally["tests"] = tally.get("tests", 0) + 1
                    continue
                done += 1
                fate = "SURVIVED"
                for c in CHECKS[rel].split():
                    try:
                        r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), c, "quick"], capture_output=True, text=True,
                                           env=dict(os.environ, FLEE_REPO=copy, VERIF_SEED=str(a.s)), timeout=900)
                    except subprocess.TimeoutExpired:
                        fate = "timeout " + c
                        break
                    if r.returncode:
                        fate = "%s %s" % ("caught" if r.returncode == 1 else "error", c)
                        break
                tally[fate.split()[0]] = tally.get(fate.split()[0], 0) + 1
                old = raw[i:j].decode()
                with open(a.l, "a") as f:
                    f.write("%-10s %s:%d %s [%s] %s  ->  %s\n" % (fate, rel, line, function, what, " ".join(old.split()), " ".join(new.split())))
            except SyntaxError:
                continue
            finally:
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
        with open(a.l, "a") as f:
            f.write("total %s\n" % json.dumps(tally))
    finally:
        shutil.rmtree(top, True)


if __name__ == "__main__":
    main()
