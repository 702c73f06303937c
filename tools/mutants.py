"""Mutation campaign: small changes of the code, one at a time, against the checks.

  mutants.py list FILE...            number of mutants per function
  mutants.py run N SEED SLOTS OUT    N random mutants, results as JSON lines

Only a help to find what the checks do not see; no check uses it.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

R = "/repo/trackeddy/"
MAP = {
    "geometry.py": {"extract_contours": "C11 C01", "start_contour_near": "C02 C03 C10", "Fit_Surface": "C17 C02 C03", "gaussian": "C17", "gaussian_residual": "C17 C02 C03",
                    "fit_ellipse": "C15 C01", "arc_length": "C16", "compute_similarity": "C16", "_c": "C16", "frdist": "C16",
                    "eccentricity": "C15", "area_latlon_polygon": "C14"},
    "physics.py": {"": "C18"},
    "utils.py": {"_update_better_eddy": "C05", "_merge_reindex_eddies": "C05", "_detect_nearest": "C20 C05", "_mask_data_in_contour": "C01 C09 C02 C10",
                 "store_snapshot": "C22", "": "C20 C19 C21 C05"},
    "decorators.py": {"eddy_identifier": "C24 C04", "filter_data": "C07", "check_return_eddies": "C04 C08"},
    "eddy.py": {"": "C24 C22"},
    "trackeddy.py": {"_filter_data_": "C07", "_space_filter": "C07", "treat_nan": "C07", "time_tracking": "C19 C22 C20", "_detect_snapshot": "C05 C06 C07 C19", "plot_eddy_detection_multilevel": "C25", "plot_eddy_detection_in_level": "C25",
                     "_detect_one_level": "C08 C10 C18 C01 C02 C03", "_data_in_contour": "C01 C02 C06 C09 C03", "_get_data_in_contour": "C01 C02 C09 C06 C03", "": "C06 C07"},
    "generator/field_generator.py": {"": "C23"}, "generator/gaussian_field_functions.py": {"": "C23"},
    "src/cntr.c": {"": "C11 C13 C12"},
}
SKIP = {"diagnose_eddy", "setup", "_time_filter"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
TXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"), ast.Mod: ("%", "+")}


def python(path):
    src = open(path, "rb").read()
    tree = ast.parse(src)
    lines = [0]
    for l in src.splitlines(True):
        lines.append(lines[-1] + len(l))

    def pos(n, end=False):
        return lines[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def add(a, b, new, why, fn):
        out.append((a, b, new, why, fn))

    def between(l, r, old, new, why, fn):
        a, b = pos(l, True), pos(r)
        seg = src[a:b].decode()
        i = seg.find(old)
        if i >= 0:
            add(a + i, a + i + len(old), new, why, fn)

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
            if isinstance(n, ast.FunctionDef) or not fn:
                fn = (fn + "." if fn else "") + n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP[type(n.ops[0])]:
                between(n.left, n.comparators[0], TXT[type(n.ops[0])], new, "compare", fn)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, *BIN[type(n.op)], "operator", fn)
        elif isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], o, w, "bool", fn)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and fn:
            for v in ([n.value + 1, n.value - 1] if type(n.value) is int else [n.value * 1.2, n.value * 0.8]):
                add(pos(n), pos(n, True), repr(v), "constant", fn)
        elif isinstance(n, ast.Constant) and type(n.value) is bool and fn:
            add(pos(n), pos(n, True), repr(not n.value), "constant", fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(pos(n), pos(n.operand), "", "unary", fn)
        elif isinstance(n, ast.Call) and n.keywords and n.args:
            k = n.keywords[-1]
            last = n.args[-1] if len(n.keywords) == 1 else n.keywords[-2].value
            add(pos(last, True), pos(k.value, True), "", "keyword", fn)
        elif isinstance(n, ast.Continue):
            add(pos(n), pos(n, True), "break", "continue", fn)
            add(pos(n), pos(n, True), "pass", "continue", fn)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            add(pos(n), pos(n, True), "pass", "statement", fn)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(pos(n), pos(n, True), "pass", "statement", fn)
        elif isinstance(n, ast.If):
            t = n.test
            add(pos(t), pos(t, True), "True", "condition", fn)
            add(pos(t), pos(t, True), "False", "condition", fn)
        elif isinstance(n, ast.IfExp):
            add(pos(n.test), pos(n.test, True), "True", "condition", fn)
            add(pos(n.test), pos(n.test, True), "False", "condition", fn)
        for m in ast.iter_child_nodes(n):
            visit(m, fn)
    visit(tree, "")
    return src, [m for m in out if m[4]]


def clang(path):
    src = open(path, "rb").read()
    text = src.decode("latin1")
    # blank comments and strings
    blank = re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\\])*"', lambda m: " " * len(m.group()), text, flags=re.S)
    out = []
    for pat, news in ((r"(?<![<>=!])<(?![<=])", ["<=", ">"]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">=", "<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
                      (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[ \w)])\+(?=[ ]?\w)(?!\+)", ["-"]), (r"(?<=\w )-(?= \w)", ["+"]), (r"(?<=\w )\|(?= \w)", ["&"]),
                      (r"(?<=[ (=])[0-9]+(?=[;) ,])", ["+1"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<=[^&])&(?= \w)(?!&)", ["|"]), (r"(?<=\()!(?=\w|\()", [""])):
        for m in re.finditer(pat, blank):
            ls = blank.rfind("\n", 0, m.start()) + 1
            line = blank[ls:blank.find("\n", m.start())]
            if line.lstrip().startswith("#") or m.start() < blank.find("struct Csite"):
                continue
            for new in news:
                out.append((m.start(), m.end(), str(int(m.group()) + 1) if new == "+1" else new, "c", "line %d" % (text.count("\n", 0, m.start()) + 1)))
    return src, out


def mutants(f):
    return (clang if f.endswith(".c") else python)(R + f)


def checks(f, fn):
    m = MAP[f]
    for part in reversed(fn.split(".")):
        if part in m:
            return m[part].split()
    return m.get("", "").split()


def one(job):
    k, f, a, b, new, why, fn, slot = job
    src = mutants(f)[0]
    d = "/tmp/w/mut-%d" % slot.get()
    try:
        line = src.count(b"\n", 0, a) + 1
        res = {"n": k, "file": f, "line": line, "fn": fn, "why": why, "old": src[a:b].decode("latin1")[:60], "new": new,
               "text": src[src.rfind(b"\n", 0, a) + 1:src.find(b"\n", b)].decode("latin1").strip()[:160], "checks": []}
        with open(d + "/trackeddy/" + f, "wb") as h:
            h.write(src[:a] + new.encode() + src[b:])
        for c in checks(f, fn):
            env = dict(os.environ, VERIF_REPO=d, VERIF_FAST="1", VERIF_SEED=str(1 + k % 7), VERIF_WORKERS=os.environ.get("MUT_WORKERS", "4"),
                       VERIF_BUDGET_S=os.environ.get("MUT_BUDGET", "18"))
            try:
                p = subprocess.Popen(["/opt/venv/bin/python", "-B", "harness/run.py", c], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, start_new_session=True)
                rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                rc = 99
                os.killpg(p.pid, 9)
                p.wait()
            res["checks"].append((c, rc))
            if rc:
                break
        res["killed"] = bool(res["checks"]) and res["checks"][-1][1] != 0
        return res
    finally:
        with open(d + "/trackeddy/" + f, "wb") as h:
            h.write(src)
        slot.put(int(d.rsplit("-", 1)[1]))


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or MAP:
            n = {}
            for m in mutants(f)[1]:
                n[m[4]] = n.get(m[4], 0) + 1
            print(f, sum(n.values()), n if not f.endswith(".c") else "")
        return
    import queue
    N, seed, slots, out = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    files = sys.argv[6].split(",") if len(sys.argv) > 6 else list(MAP)
    allm = [(f,) + m for f in files for m in mutants(f)[1]]
    random.Random(seed).shuffle(allm)
    q = queue.Queue()
    os.makedirs("/tmp/w", exist_ok=True)
    for s in range(slots):
        d = "/tmp/w/mut-%d" % s
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/trackeddy", d + "/trackeddy", ignore=shutil.ignore_patterns("__pycache__"))
        q.put(s)
    jobs = [(k, f, a, b, new, why, fn, q) for k, (f, a, b, new, why, fn) in enumerate(allm[:N])]
    with ThreadPoolExecutor(slots) as ex, open(out, "a") as h:
        for r in ex.map(one, jobs):
            h.write(json.dumps(r) + "\n")
            h.flush()
    for s in range(slots):
        shutil.rmtree("/tmp/w/mut-%d" % s, ignore_errors=True)


main()
