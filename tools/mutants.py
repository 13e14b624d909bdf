"""Small changes to the code, one at a time: which ones pass the tests and stay unnoticed by the checks?

usage: mutants.py FILE[,FILE...] CHECK[,CHECK...] [PART/PARTS] > report

Prints one line for every change: 'tests' (the tests notice), the first check that notices, or SURVIVES.  Survivors are
to be looked at: most are changes without effect."""
import ast
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"


def mutants(path):
    """(line, what, new source)"""
    src = path.read_text()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = src.encode()
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what):
        a, b = pos(n)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and seg(n.func).startswith("LOG."):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.AnnAssign, ast.arg)) and getattr(n, "annotation", None):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef):
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n)}
    CMP = {ast.Lt: ("<=", ">"), ast.LtE: ("<",), ast.Gt: (">=", "<"), ast.GtE: (">",), ast.Eq: ("!=",), ast.NotEq: ("==",), ast.In: ("not in",),
           ast.NotIn: ("in",), ast.Is: ("is not",), ast.IsNot: ("is",)}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mult: "+", ast.Mod: "//", ast.BitXor: "|"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                add(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "%s -> %s" % (seg(n), o))
        elif isinstance(n, ast.Compare):
            a, b, c = n.left, n.comparators[0], n.comparators[1]
            add(n, "%s < %s <= %s" % (seg(a), seg(b), seg(c)), seg(n) + " lower")
            add(n, "%s <= %s < %s" % (seg(a), seg(b), seg(c)), seg(n) + " upper")
            add(n, "%s <= %s" % (seg(b), seg(c)), seg(n) + " no lower")
            add(n, "%s <= %s" % (seg(a), seg(b)), seg(n) + " no upper")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "%s -> %s" % (seg(n)[:60], BIN[type(n.op)]))
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(seg(v) for v in n.values) + ")", "%s ->%s" % (seg(n), o))
            for i, v in enumerate(n.values):
                add(n, seg(v), "%s -> only %s" % (seg(n), seg(v)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % seg(n.operand), "%s without not" % seg(n))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "%s -> %d" % (seg(n), n.value + 1))
            if n.value > 0:
                add(n, str(n.value - 1), "%s -> %d" % (seg(n), n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "%s -> %s" % (n.value, not n.value))
        elif isinstance(n, ast.Constant) and n.value in ("little", "big"):
            add(n, '"big"' if n.value == "little" else '"little"', "%s swapped" % n.value)
        elif isinstance(n, ast.Constant) and type(n.value) is bytes and n.value:
            add(n, repr(n.value[:-1] + bytes([n.value[-1] ^ 1])), "%r changed" % n.value)
        elif isinstance(n, ast.If):
            add(n.test, "True", "if %s -> True" % seg(n.test))
            add(n.test, "False", "if %s -> False" % seg(n.test))
        elif isinstance(n, ast.While) and seg(n.test) != "True":
            add(n.test, "False", "while %s -> False" % seg(n.test))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            add(n, "pass", "without: %s" % seg(n).split("\n")[0][:80])
        elif isinstance(n, ast.Assign):
            if not (n.col_offset == 0 or isinstance(n.targets[0], ast.Name) and False):
                add(n, "pass", "without: %s" % seg(n).split("\n")[0][:80])
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return None for %s" % seg(n.value).split("\n")[0][:60])
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(n.value), "%s without slice" % seg(n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lstrip", "rstrip", "replace"):
            add(n, seg(n.func.value), "%s without %s" % (seg(n)[:60], n.func.attr))
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i, x in enumerate(n.type.elts):
                rest = [seg(y) for k, y in enumerate(n.type.elts) if k != i]
                add(n.type, "(" + ", ".join(rest) + ",)", "except without %s" % seg(x))
    return out


def run(job):
    rel, line, what, new, checks = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run("cp -a /repo/elgas /repo/tests %s/; find %s -name __pycache__ | xargs rm -rf" % (d, d), shell=True, check=True)
        (pathlib.Path(d) / rel).write_text(new)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d)
        try:
            r = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, timeout=60)
            bad = r.returncode != 0
        except subprocess.TimeoutExpired:
            bad = True
        if bad:
            return "tests"
        odd = []
        for c in checks:
            try:
                r = subprocess.run([PY, "-B", "check.py", c, "quick"], cwd=ROOT, capture_output=True, text=True, timeout=1500,
                                   env=dict(os.environ, ELGAS_REPO=d, VERIF_SEED="1", MC_WORKERS="1", MC_OUT=d))
            except subprocess.TimeoutExpired:
                odd.append(c + " timeout")
                continue
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                return c
            if r.returncode:
                odd.append("%s rc=%d" % (c, r.returncode))
        return "SURVIVES" + " ".join(odd)
    finally:
        shutil.rmtree(d)


def main():
    files, checks = sys.argv[1].split(","), sys.argv[2].split(",")
    part, parts = map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
    jobs = []
    for f in files:
        seen = set()
        for line, what, new in mutants(REPO / f):
            if new in seen:
                continue
            seen.add(new)
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            jobs.append((f, line, what, new, checks))
    jobs = jobs[part::parts]
    print(len(jobs), "changes", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for j, r in zip(jobs, ex.map(run, jobs)):
            print("%-10s %s:%d %s" % (r, j[0], j[1], j[2].replace("\n", " ")), flush=True)


if __name__ == "__main__":
    main()
