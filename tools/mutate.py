"""Mutation campaign: small random changes of the code, each judged by the checks of its file.

    python3 tools/mutate.py OUT.jsonl SEED N FILE [FILE ...]

Works in scratch copies under /tmp/mut; /repo is never changed.  Writes one line per mutant,
with the check that noticed it, or none.  Survivors are for a person to look at: many are
equivalent to the original or in code nothing reaches.
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF = "/repo", "/verif"
CHECKS = {
    "trafo": "C01 C02", "vec_utils": "C26", "calibration": "C03 C15 C22", "parameters": "C14 C24 C27 C29", "ray_tracing": "C04 C08",
    "multimed": "C05 C06 C24", "imgcoord": "C05 C01", "epi": "C07 C09", "find_candidate": "C09", "orientation": "C22 C08 C23",
    "sortgrid": "C23", "correspondences": "C10 C11 C25", "segmentation": "C12", "image_processing": "C13",
    "tracking_frame_buf": "C16 C17 C18 C25 C29", "tracking_run": "C24 C28", "track": "C28 C19 C20 C21",
}
DEAD = {"peak_fit", "peak_fit_new", "filter_3", "lowpass_3", "fast_box_blur", "subtract_img", "fast_box_blur_numba", "push", "pop", "Tracker", "__repr__", "__str__"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*", ast.Mod: "*"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    pos = lambda l, c: start[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def between(a, b, old, new, what, line):
        s, e = span(a)[1], span(b)[0]
        i = raw[s:e].find(old.encode())
        if i >= 0:
            out.append((s + i, s + i + len(old), new, what, line))

    def walk(node, infun):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if node.name in DEAD:
                return
            isf = isinstance(node, ast.FunctionDef)
            for b in node.body:
                walk(b, infun or isf)
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "print":
            return
        if isinstance(node, (ast.Raise, ast.Assert)):
            return
        if infun:
            if isinstance(node, ast.Compare):
                left = node.left
                for op, right in zip(node.ops, node.comparators):
                    for new in CMP.get(type(op), []):
                        between(left, right, OPS[type(op)], new, "cmp", node.lineno)
                    left = right
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
                between(node.left, node.right, SYM[type(node.op)], BIN[type(node.op)], "bin", node.lineno)
            elif isinstance(node, ast.BoolOp):
                old, new = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
                for a, b in zip(node.values, node.values[1:]):
                    between(a, b, old, new, "bool", node.lineno)
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                s, e = span(node)
                s2, e2 = span(node.operand)
                out.append((s, s2, "" if isinstance(node.op, ast.USub) else "", "unary", node.lineno))
            elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
                s, e = span(node)
                v = node.value
                for new in ([v + 1, v - 1] if type(v) is int else [v * 1.1 if v else 0.1]):
                    out.append((s, e, "(%r)" % new, "const", node.lineno))
            elif isinstance(node, ast.Constant) and type(node.value) is bool:
                s, e = span(node)
                out.append((s, e, str(not node.value), "const", node.lineno))
            elif isinstance(node, (ast.Assign, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and getattr(node.value.func, "id", "") != "print":
                s, e = span(node)
                out.append((s, e, "pass", "del", node.lineno))
                if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
                    between(node.target, node.value, SYM[type(node.op)] + "=", BIN[type(node.op)] + "=", "aug", node.lineno)
            elif isinstance(node, ast.If):
                s, e = span(node.test)
                out.append((s, e, "False", "if", node.lineno))
                out.append((s, e, "True", "if", node.lineno))
            elif isinstance(node, (ast.Continue, ast.Break)):
                s, e = span(node)
                out.append((s, e, "break" if isinstance(node, ast.Continue) else "continue", "jump", node.lineno))
                out.append((s, e, "pass", "jump", node.lineno))
            elif isinstance(node, ast.Name) and node.id in ("xmin", "xmax", "ymin", "ymax", "imx", "imy", "x", "y", "xp", "yp"):
                s, e = span(node)
                other = {"xmin": "ymin", "xmax": "ymax", "ymin": "xmin", "ymax": "xmax", "imx": "imy", "imy": "imx", "x": "y", "y": "x", "xp": "yp", "yp": "xp"}
                if isinstance(node.ctx, ast.Load):
                    out.append((s, e, other[node.id], "name", node.lineno))
            elif isinstance(node, ast.Attribute) and node.attr in ("x", "y", "imx", "imy", "nx", "ny", "pix_x", "pix_y", "prev_frame", "next_frame", "x0", "y0", "xh", "yh"):
                s, e = span(node)
                other = {"x": "y", "y": "x", "imx": "imy", "imy": "imx", "nx": "ny", "ny": "nx", "pix_x": "pix_y", "pix_y": "pix_x", "prev_frame": "next_frame", "next_frame": "prev_frame", "x0": "y0", "y0": "x0", "xh": "yh", "yh": "xh"}
                if isinstance(node.ctx, ast.Load):
                    out.append((e - len(node.attr), e, other[node.attr], "attr", node.lineno))
        skip = ("annotation", "returns", "decorator_list")
        for f, v in ast.iter_fields(node):
            if f in skip:
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    walk(c, infun)

    walk(tree, False)
    res = []
    for s, e, new, what, line in out:
        txt = (raw[:s] + new.encode() + raw[e:]).decode()
        try:
            ast.parse(txt)
        except SyntaxError:
            continue
        if txt != src:
            res.append((line, what, txt, lines[line - 1].strip(), txt.split("\n")[line - 1].strip()))
    return res


def trial(job):
    i, f, (line, what, txt, old, new) = job
    d = f"/tmp/mut/m{os.getpid()}_{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    os.makedirs(d)
    subprocess.check_call(f"tar -C {REPO} --exclude=.git --exclude=__pycache__ -cf - . | tar -C {d} -xf -", shell=True)
    open(f"{d}/openptv_python/{f}.py", "w").write(txt)
    got = None
    try:
        for c in CHECKS[f].split():
            if only and c not in only:
                continue
            r = subprocess.run([sys.executable, VERIF + "/run.py", c, "--shards", SHARDS], env=dict(os.environ, VP_REPO=d, VP_EVIDENCE="/tmp/mut/ev"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
            if r.returncode:
                got = c + ":" + str(r.returncode)
                break
    except subprocess.TimeoutExpired:
        got = c + ":timeout"
    shutil.rmtree(d, ignore_errors=True)
    rec = dict(file=f, line=line, what=what, old=old, new=new, got=got)
    with open(OUT, "a") as o:
        o.write(json.dumps(rec) + "\n")
    return rec


if __name__ == "__main__":
    OUT, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = os.environ.get("ONLY", "").split()
    SHARDS = os.environ.get("SHARDS", "3")
    lo, hi = (int(v) for v in os.environ.get("LINES", "0-999999").split("-"))
    jobs = []
    for f in sys.argv[4:]:
        ms = [m for m in mutants(open(f"{REPO}/openptv_python/{f}.py").read()) if lo <= m[0] <= hi]
        random.Random(seed).shuffle(ms)
        print(f, len(ms), "possible")
        jobs += [(f, m) for m in ms[:n]]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(trial, [(i, f, m) for i, (f, m) in enumerate(jobs)]):
            if r["got"] is None:
                print("SURVIVED %(file)s:%(line)d %(what)s | %(old)s  ->  %(new)s" % r, flush=True)
            elif not r["got"].endswith(":1"):
                print("ODD %(got)s %(file)s:%(line)d | %(old)s  ->  %(new)s" % r, flush=True)
