"""Mutation testing of the checks: small random changes of /repo's code, one per copy, that pass the stable tests, against the checks.

usage: mutate.py OUT.jsonl [--n N] [--seed S] [--files a,b] [--jobs J] [--cov DIR]
DIR has files PROPERTY.* (json lists of [file, line] executed by the property's cases); without it every check runs for every mutant.
"""
import argparse, ast, collections, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
FILES = ["conf.py", "logging.py", "utils.py", "core/graph.py", "core/handler.py", "core/matrix.py", "core/terms.py", "core/vocab.py", "deprel/basic.py", "models/cbc.py",
         "models/deprel.py", "models/typetoken.py", "specutils/deputils.py", "specutils/mxcalc.py", "specutils/mxutils.py"]
# what runs in forked workers is not in the coverage
EXTRA = {"models/typetoken.py": ["P01", "P02", "P03", "P04", "P30", "P31", "P36"], "models/deprel.py": ["P04", "P05", "P30", "P31", "P38"], "core/handler.py": ["P01", "P02", "P03", "P04", "P30", "P36"], "models/cbc.py": ["P24", "P37"]}
SKIP = set("""show show_match __repr__ feature_old set_feature set_target match_sub_template match_target_feature match_graph match_path draw_tree draw_match draw_labels cbc_step3_old pairwise_association
 select_subsets _reorder_verbose controid build_graph_raw reverse calc_mi entropy drop_zero_rows drop_zero_cols select_types sizeof sizeof_fmt clean_dir mmap_error timeit timer""".split())
SKIP_CLASSES = {"TypeToken", "Path", "PathTemplate", "TemplateGraph", "Getter", "TemplatePath", "Template", "Span", "Graph"}


def mutants(path):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def text(n):
        return raw[pos(n):pos(n, True)].decode()
    out = []

    def add(n, new, kind):
        out.append((n.lineno, kind, pos(n), pos(n, True), new))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+", ast.BitAnd: "|", ast.BitOr: "&"}
    doc = set()

    def visit(n, fn, cls):
        if isinstance(n, ast.ClassDef):
            if n.name in SKIP_CLASSES:
                return
            cls = n.name
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP:
                return
            fn = n
            for d in n.args.defaults + n.args.kw_defaults:
                if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                    add(d, str(not d.value), "default")
                elif isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
                    add(d, repr(d.value + 1), "default")
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for b in body:
                visit(b, fn, cls)
            return
        if fn is not None:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            if isinstance(n, ast.Raise):
                add(n, "pass", "no raise")
                return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                t = text(n)
                if t.startswith(("logger.", "print(")):
                    return
                add(n, "pass", "no call")
            if isinstance(n, ast.AugAssign):
                add(n, "pass", "no augassign")
                t = text(n)
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(n, t.replace("+=", "\0", 1).replace("-=", "+=", 1).replace("\0", "-=", 1), "augop")
            if isinstance(n, ast.Continue):
                add(n, "pass", "no continue"); add(n, "break", "break")
            if isinstance(n, ast.Break):
                add(n, "pass", "no break")
            if isinstance(n, (ast.If, ast.While)):
                if isinstance(n, ast.If):
                    add(n.test, "(not (%s))" % text(n.test), "negate")
                    add(n.test, "True", "always"); add(n.test, "False", "never")
            if isinstance(n, ast.IfExp):
                add(n, text(n.body), "ifexp"); add(n, text(n.orelse), "ifexp")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = text(n.left), text(n.comparators[0])
                add(n, "%s %s %s" % (a, CMP[type(n.ops[0])], b), "compare")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(n, "(%s %s %s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "binop")
            if isinstance(n, ast.BoolOp):
                j = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + j.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
                for i in range(len(n.values)):
                    add(n, "(" + (" and " if j == " or " else " or ").join("(%s)" % text(v) for k, v in enumerate(n.values) if k != i) + ")", "boolop drop")
            if isinstance(n, ast.UnaryOp):
                add(n, text(n.operand), "unary")
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    add(n, str(not n.value), "bool")
                elif isinstance(n.value, (int, float)):
                    add(n, repr(n.value + 1), "const+1")
                    if n.value:
                        add(n, "0", "const0")
            if isinstance(n, ast.Slice):
                if n.lower is not None:
                    add(n.lower, "", "slice lower")
                if n.upper is not None:
                    add(n.upper, "", "slice upper")
            if isinstance(n, ast.Call):
                t = text(n.func)
                if len(n.args) >= 1 and t in ("sorted", "deepcopy", "copy.deepcopy", "set", "list", "str", "int", "float", "np.asarray", "np.array", "reversed", "abs", "len", "round"):
                    if t != "len":
                        add(n, "(%s)" % text(n.args[0]), "drop " + t)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "lower", "toarray", "tocsr", "tocsc", "astype", "eliminate_zeros", "sort", "upper", "deepcopy", "lstrip", "rstrip", "todense", "tolil", "transpose", "ravel"):
                    add(n, text(n.func.value), "drop ." + n.func.attr)
                if t in ("min", "max"):
                    add(n.func, "max" if t == "min" else "min", "minmax")
                for k in n.keywords:
                    if k.arg:
                        a, b = pos(k), pos(k, True)
                        while raw[a - 1:a] in (b" ", b"\n"):
                            a -= 1
                        if raw[a - 1:a] == b",":
                            out.append((k.lineno, "drop %s=" % k.arg, a - 1, b, ""))
                if len(n.args) == 2 and not n.keywords and t not in ("isinstance", "getattr", "hasattr"):
                    out.append((n.lineno, "swap args", pos(n.args[0]), pos(n.args[1], True), text(n.args[1]) + ", " + text(n.args[0])))
        for c in ast.iter_child_nodes(n):
            visit(c, fn, cls)
    visit(tree, None, None)
    res = []
    for line, kind, a, b, new in out:
        t = raw[:a] + new.encode() + raw[b:]
        if t == raw:
            continue
        try:
            compile(t, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((line, kind, raw[a:b].decode(), new, t))
    funcs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for l in range(n.lineno, n.end_lineno + 1):
                if l not in funcs or funcs[l][0] < n.lineno:
                    funcs[l] = (n.lineno, n.end_lineno, n.name)
    return res, funcs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files")
    ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--cov"); ap.add_argument("--scale", default="0.5")
    a = ap.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    cov = collections.defaultdict(lambda: collections.defaultdict(set))
    for f in glob.glob((a.cov or "/nonexistent") + "/*"):
        p = os.path.basename(f).split(".")[0]
        for g, l in json.load(open(f)):
            cov[g.split("/nephosem/", 1)[1]][l].add(p)
    allp = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(ROOT + "/pbt/checks/p[0-9][0-9].py"))
    pool = []
    for f in (a.files.split(",") if a.files else FILES):
        res, funcs = mutants(os.path.join(REPO, "nephosem", f))
        for line, kind, old, new, t in res:
            lo, hi, name = funcs.get(line, (line, line, "?"))
            props = collections.Counter()
            for l in range(lo, hi + 1):
                for p in cov[f][l]:
                    props[p] += 1
            if a.cov and not props and name not in FORKED:
                continue
            exact = cov[f][line]
            order = sorted(props, key=lambda p: (p not in exact, -props[p]))
            order = [p for p in order if props[p] > 1 or p in exact]
            order += [p for p in EXTRA.get(f, []) if p not in order]
            pool.append((f, line, name, kind, old, new, t, order if a.cov else allp))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    random.Random(a.seed).shuffle(pool)
    pool = [m for m in pool if (m[0], m[1], m[3], m[4][:200], m[5][:200]) not in done][:a.n]
    print(len(pool), "mutants", flush=True)
    lock = threading.Lock()

    def one(m):
        f, line, name, kind, old, new, t, order = m
        d = tempfile.mkdtemp(prefix="mut.")
        os.chmod(d, 0o755)
        try:
            copy = d + "/repo"
            shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "docs", "tutorials", "*.ipynb"))
            open(os.path.join(copy, "nephosem", f), "wb").write(t)
            os.mkdir(d + "/home")
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=copy, PYTHONHASHSEED="0", MPLBACKEND="Agg", HOME=d + "/home")
            try:
                subprocess.run("timeout -k 5 100 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 -W ignore --tb=no %s -o junit_family=xunit2 --junitxml=%s/j.xml nephosem/tests" % (DESELECT, d),
                               shell=True, cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                x = open(d + "/j.xml").read()
                tests = 'failures="0"' in x and 'errors="0"' in x
            except OSError:
                tests = False
            rec = {"file": f, "line": line, "function": name, "kind": kind, "old": old[:200], "new": new[:200]}
            if not tests:
                rec["result"] = "tests"
            else:
                rec["result"] = "SURVIVED"
                rec["ran"] = []
                for p in order:
                    rec["ran"].append(p)
                    r = subprocess.run("timeout 300 python3 %s/pbt/run.py %s --scale %s --jobs 3" % (ROOT, p, a.scale), shell=True, capture_output=True, text=True,
                                       env=dict(os.environ, PBT_REPO=copy, PBT_OUT=d))
                    if r.returncode != 0:
                        rec["result"] = "caught" if r.returncode == 1 else "rc=%d" % r.returncode
                        rec["by"] = p
                        break
            with lock:
                with open(a.out, "a") as o:
                    o.write(json.dumps(rec) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, pool))
    print(collections.Counter(json.loads(l)["result"] for l in open(a.out)))


FORKED = set("update_one_file update_one_match process_right_window _worker_loop _worker_loop_with_colvocab _worker_loop_without_colvocab _do_process_job update_dep_rel update_dep_rel_type update_dep_rel_token read_sentence dict2matrix cbc_step1_call".split())
DESELECT = ""
if __name__ == "__main__":
    t = subprocess.run("cd /repo && HOME=$(mktemp -d) PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --tb=no -rf nephosem/tests", shell=True, capture_output=True, text=True).stdout
    bad = re.findall(r"(?m)^FAILED (\S+)", t)
    print("failing originals", bad)
    DESELECT = " ".join("--deselect " + b for b in bad)
    main()
