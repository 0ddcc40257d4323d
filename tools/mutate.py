"""Sensitivity sweep: small syntactic mutants of given functions, run against a check.

usage: mutate.py CHECK FILE[:func,func] ... [--max N] [--seed S] [--n CASES]
Works on scratch copies under /tmp; never touches /repo.
"""
import ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
def opt(name, d):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return d
MAX = int(opt("--max", 60)); SEED = int(opt("--seed", 0)); N = opt("--n", None); PAR = int(opt("--par", 4)); SUBS = opt("--only", None)
LIST = opt("--list", None)
check, targets = args[0], args[1:]

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}

def mutants(path, funcs):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def pos(l, c): return off[l - 1] + c
    tree = ast.parse(src)
    out = []
    def rep(n, new, kind):
        s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        out.append((n.lineno, kind, s, e, new))
    def seg(n): return ast.get_source_segment(src, n)
    def walk(fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                rep(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
                rep(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
            elif isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                rep(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "bool")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                rep(n, f"({seg(n.operand)})", "unary")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                rep(n, str(not n.value), "bool")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                rep(n, repr(n.value + 1 if n.value != 1 else 2), "const")
            elif isinstance(n, (ast.If, ast.IfExp)):
                rep(n.test, f"(not ({seg(n.test)}))", "ifnot")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance((n.targets[0] if isinstance(n, ast.Assign) else n.target), (ast.Subscript, ast.Attribute)) or isinstance(n, ast.AugAssign):
                rep(n, "pass", "drop")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                rep(n, "pass", "drop")
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            if not funcs or n.name in funcs: walk(n)
    seen = set(); res = []
    for m in out:
        if m[2:] in seen: continue
        seen.add(m[2:])
        nb = b[:m[2]] + m[4].encode() + b[m[3]:]
        try: ast.parse(nb.decode())
        except SyntaxError: continue
        res.append((m, nb, b[m[2]:m[3]].decode()))
    return res

REPO = "/repo"
todo = []
for tg in targets:
    f, _, fn = tg.partition(":")
    for m in mutants(os.path.join(REPO, f), set(fn.split(",")) if fn else None):
        todo.append((f, m))
random.Random(SEED).shuffle(todo)
print(len(todo), "mutants; running", min(MAX, len(todo)))
todo = todo[:MAX]
base = tempfile.mkdtemp(prefix="mut_")
import queue
pool = queue.Queue()
for i in range(PAR):
    d = os.path.join(base, str(i)); os.makedirs(d)
    shutil.copytree(REPO + "/cloudnetpy", d + "/cloudnetpy", ignore=shutil.ignore_patterns("__pycache__"))
    pool.put(d)

def run(item):
    f, (m, nb, old) = item
    d = pool.get()
    try:
        p = os.path.join(d, f)
        orig = open(p, "rb").read()
        open(p, "wb").write(nb)
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOSHRINK="1", VERIF_FAILFAST="1", VERIF_PROCS="2", VERIF_EVID="/tmp/mut_ev")
        if N: env["VERIF_N"] = N
        cmd = ["/verif/run.sh", check] + (["--only", SUBS] if SUBS else [])
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=600)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = -9, ""
        open(p, "wb").write(orig)
        return f, m, old, rc, out
    finally:
        pool.put(d)

k = s = e = 0
with ThreadPoolExecutor(PAR) as ex:
    for f, m, old, rc, out in ex.map(run, todo):
        if rc == 1: k += 1
        elif rc == 0:
            s += 1
            print(f"SURVIVED {f}:{m[0]} [{m[1]}] {old[:90]!r} -> {m[4][:90]!r}", flush=True)
        else:
            e += 1
            print(f"ERROR rc={rc} {f}:{m[0]} [{m[1]}] {old[:60]!r} -> {m[4][:60]!r} :: {out.strip()[-300:]}", flush=True)
print(f"killed {k} survived {s} error {e}")
shutil.rmtree(base)
