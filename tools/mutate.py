#!/opt/venv/bin/python
"""Development aid: random small mutants of /repo/src that pass the existing tests, judged by the checks of their module.

mutate.py WORKER SEED COUNT OUT [FILE-REGEX]   (runs in a private mount namespace with its own copy of /repo and /verif)
"""
import ast
import json
import os
import random
import re
import subprocess
import sys

MAP = [("pre/geometry.py", "P14 P15 P16 P03 P04 P25 P01 P24"), ("pre/bisect", "P15 P11"), ("pre/pre.py", "P03 P04 P02 P23"), ("pre/rhino", "P16"),
       ("analysis/fea.py", "P07 P09 P01 P05 P06 P08 P24"), ("analysis/section.py", "P02 P20 P23 P01 P05 P06 P12 P13 P24 P07 P25 P09 P10 P22"),
       ("analysis/plastic", "P11 P09 P23"), ("analysis/solver", "P13 P25 P05"), ("post/post.py", "P02 P20 P23 P24 P01 P05 P06 P12"),
       ("post/stress_post", "P08 P24 P22 P07 P09"), ("post/fibre", "P21"), ("library/concrete", "P18"), ("library/nastran", "P19"), ("library", "P17")]
PAIRS = [("x", "y"), ("xx", "yy"), ("11", "22"), ("min", "max"), ("top", "bot"), ("left", "right"), ("plus", "minus"), ("top", "bottom"), ("i", "j"), ("ext", "int"), ("width", "depth"),
         ("b", "d"), ("t_f", "t_w"), ("u", "v"), ("r_in", "r_out"), ("xs", "ys"), ("cx", "cy"), ("vx", "vy"), ("x_se", "y_se"), ("psi", "phi"), ("ixx", "iyy"), ("qx", "qy"), ("n_x", "n_y")]
SWAP = {}
for a_, b_ in PAIRS:
    SWAP.setdefault(a_, []).append(b_), SWAP.setdefault(b_, []).append(a_)
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def mutants(src):
    tree = ast.parse(src)
    names = set(re.findall(r"[A-Za-z_]\w*", src))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    skip.update(id(m) for m in ast.walk(a.annotation))
            for d in n.decorator_list:
                skip.update(id(m) for m in ast.walk(d))
            if n.returns:
                skip.update(id(m) for m in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "msg" or isinstance(n, ast.AugAssign) and getattr(n.target, "id", "") == "msg":
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Call) and (getattr(n.func, "id", "") in ("print", "cast") or getattr(n.func, "attr", "") in ("add_row", "update", "print", "add_task")):
            skip.update(id(m) for m in ast.walk(n))
    U = ast.unparse
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for n in ast.walk(fn):
            if id(n) in skip or not hasattr(n, "lineno") or n is fn:
                continue
            add = lambda t, k: out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, t, k, fn.name))  # noqa: E731, B023
            if isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, ast.Constant | ast.JoinedStr) or isinstance(n, ast.BinOp) and type(n.op) in (ast.Sub, ast.Div):
                if type(n.op) in OPS:
                    add(f"(({U(n.left)}) {OPS[type(n.op)]} ({U(n.right)}))", "binop")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(f"(({U(n.left)}) {CMP[type(n.ops[0])]} ({U(n.comparators[0])}))", "cmp")
            elif isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                add("(" + o.join(f"({U(v)})" for v in n.values) + ")", "bool")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(f"({U(n.operand)})", "unary")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                v = n.value
                add(repr((not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v * 1.1 + (0.1 if v == 0 else 0)), "const")
            elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                nm = n.id if isinstance(n, ast.Name) else n.attr
                toks = nm.split("_")
                cands = []
                for i, t in enumerate(toks):
                    for s in SWAP.get(t, []):
                        c = "_".join([*toks[:i], s, *toks[i + 1:]])
                        if c in names and c != nm:
                            cands.append(c)
                cands += [c for c in SWAP.get(nm, []) if c in names]
                for c in dict.fromkeys(cands):
                    add(c if isinstance(n, ast.Name) else f"{U(n.value)}.{c}", "name")
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and U(n.args[0]) != U(n.args[1]):
                add(f"{U(n.func)}({', '.join(map(U, [n.args[1], n.args[0], *n.args[2:]]))})", "args")
            elif isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                add("pass", "drop")
            elif isinstance(n, ast.If) and not n.orelse:
                pass
    return out


def apply(src, m):
    L = src.splitlines(keepends=True)
    l0, c0, l1, c1, t = m[:5]
    e = lambda s, c: len(s.encode()[:c].decode())   # noqa: E731
    a = sum(map(len, L[:l0 - 1])) + e(L[l0 - 1], c0)
    b = sum(map(len, L[:l1 - 1])) + e(L[l1 - 1], c1)
    return src[:a] + t + src[b:]


def main():
    w, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    pat = sys.argv[5] if len(sys.argv) > 5 else "."
    rng = random.Random(seed)
    root = "/repo/src/sectionproperties/"
    files = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dp, f)
            if f.endswith(".py") and f != "__init__.py" and re.search(pat, p):
                files[p] = open(p).read()
    pool = {p: mutants(s) for p, s in files.items()}
    pool = {p: m for p, m in pool.items() if m}
    weights = {p: len(m) ** .7 for p, m in pool.items()}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    for k in range(count):
        p = rng.choices(list(weights), list(weights.values()))[0]
        m = rng.choice(pool[p])
        src = files[p]
        new = apply(src, m)
        try:
            compile(new, p, "exec")
        except SyntaxError:
            continue
        rec = dict(k=k, file=p[len(root):], fn=m[6], kind=m[5], line=m[0], old=src.splitlines()[m[0] - 1].strip()[:150], new=m[4][:150])
        open(p, "w").write(new)
        try:
            nb = f"/tmp/mut/{w}/nb"
            subprocess.run(["/bin/rm", "-rf", nb])
            env["NUMBA_CACHE_DIR"] = nb
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=100", "-n", "2", "--dist", "loadfile", "--benchmark-disable", "tests"],
                                   cwd="/repo", env=env, capture_output=True, text=True, timeout=400)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            rec["survives_tests"] = ok
            if ok:
                rec["caught"] = None
                cs = next(c for q, c in MAP if q in p)
                for c in cs.split():
                    try:
                        r = subprocess.run(["python3", "run.py", c, "--tier", "quick", "--jobs", "3"], cwd=f"/tmp/mut/{w}/verif", capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        rec["caught"] = c + " timeout"
                        break
                    if r.returncode:
                        v = [q.strip() for q in r.stdout.splitlines() if q.startswith("  ")]
                        rec["caught"], rec["how"] = c, (v[0][:200] if v else f"exit {r.returncode}")
                        break
        finally:
            open(p, "w").write(src)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
