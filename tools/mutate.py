"""Mutation testing: which small changes that pass the suite escape the checks?

usage: mutate.py OUT.jsonl [--files a,b] [--workers 4] [--sample K] [--seed S]
       mutate.py --list FILE

Scratch copies live under a temporary directory and are removed.  Results are
appended to OUT.jsonl (one mutant per line: what it is, and who caught it).
"""
import argparse, ast, concurrent.futures as cf, json, os, random, re, shutil
import subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALL = ["C%02d" % i for i in range(1, 28)]
ORDER = {
 "spherepy/ops.py": "C23 C02 C05 C04 C07",
 "spherepy/sbessel.py": "C19",
 "spherepy/file.py": "C17 C16 C18",
 "spherepy/verify.py": "C18",
 "spherepy/plot_sphere.py": "C25",
 "spherepy/pysphi.py": "C07 C20 C27",
 "spherepy/spherepy.py": "C10 C11 C12 C13 C14 C15 C24 C21 C01 C02 C04 C05 "
                         "C09 C26 C20 C07 C03 C06 C08 C16",
 "src/csphi.c": "C01 C02 C04 C05 C22 C07 C21 C27 C26",
 "src/kiss_fft.c": "C01 C02 C22 C26 C27",
 "src/csphi_wrap.c": "C22 C07 C21",
}


def load(path):
    s = open(path, newline="").read()
    return s.replace("\r\n", "\n"), "\r\n" in s


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return (off[n.end_lineno - 1] + n.end_col_offset if end else
                off[n.lineno - 1] + n.col_offset)
    out = []

    def rep(n, new, kind):
        out.append((pos(n), pos(n, True), new, kind, n.lineno))

    def txt(n):
        return b[pos(n):pos(n, True)].decode()
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"],
           ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and \
                    isinstance(n.left.value, str):
                continue
            rep(n, "(%s) %s (%s)" % (txt(n.left), BIN[type(n.op)],
                                     txt(n.right)), "binop")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                rep(n, "%s %s %s" % (txt(n.left), o, txt(n.comparators[0])),
                    "compare")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, o.join("(%s)" % txt(v) for v in n.values), "bool")
            for i in range(len(n.values)):
                v = [x for j, x in enumerate(n.values) if j != i]
                o = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, o.join("(%s)" % txt(x) for x in v), "bool-drop")
        elif isinstance(n, ast.If):
            rep(n.test, "False", "if-false")
            rep(n.test, "True", "if-true")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            rep(n, "(%r + 1)" % n.value, "const+1")
            if n.value:
                rep(n, "(%r - 1)" % n.value, "const-1")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,
                                                              ast.Not)):
            rep(n, "(%s)" % txt(n.operand), "unary")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            rep(n, "pass", "drop")
        elif isinstance(n, ast.Call):
            f = txt(n.func)
            if f in ("np.abs", "abs", "np.copy", "copy.copy", "np.conj",
                     "np.floor", "int", "float", "complex") and n.args:
                rep(n, "(%s)" % txt(n.args[0]), "unwrap")
            if len(n.args) == 2:
                rep(n, "%s(%s, %s)" % (f, txt(n.args[1]), txt(n.args[0])),
                    "swap-args")
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    return [(s, e, new, kind, ln) for s, e, new, kind, ln in out
            if b[s:e].decode() != new]


def c_mutants(src):
    # blank comments and preprocessor lines, keep offsets
    t = re.sub(r"/\*.*?\*/|//[^\n]*|\"[^\"\n]*\"",
               lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
    t = re.sub(r"(?m)^[ \t]*#.*(\\\n.*)*$",
               lambda m: re.sub(r"[^\n]", " ", m.group()), t)
    out = []

    def add(s, e, new, kind):
        out.append((s, e, new, kind, t.count("\n", 0, s) + 1))
    for m in re.finditer(r"(?<![-+*/=<>!&|(\[,])\s([-+*/])\s(?![=])|"
                         r"(?<=[\w)\]])([-+*/])(?=[\w(])", t):
        i = 1 if m.group(1) else 2
        new = {"+": "-", "-": "+", "*": "+", "/": "*"}[m.group(i)]
        add(m.start(i), m.end(i), new, "binop")
    for m in re.finditer(r"(?<![-<>=])(<=|>=|<|>|==|!=)(?![<>=])", t):
        for new in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"],
                    ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]:
            add(m.start(), m.end(), new, "compare")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", t):
        v = int(m.group())
        add(m.start(), m.end(), str(v + 1), "const+1")
        if v:
            add(m.start(), m.end(), str(v - 1), "const-1")
    for m in re.finditer(r"\+=|-=", t):
        add(m.start(), m.end(), "-=" if m.group() == "+=" else "+=", "aug")
        add(m.start(), m.end(), "=", "aug")
    for m in re.finditer(r"(?m)^[ \t]+([^\s{}#][^;{}\n]*;)[ \t]*$", t):
        s = m.group(1)
        if re.match(r"(return|goto|break|case|else|for|if|while|do|typedef|"
                    r"extern|static|const|struct|int|size_t|SFLOAT|SCOMPLEX|"
                    r"kiss_fft|double|char|PyObject|void)\b", s):
            if not s.startswith("break"):
                continue
        add(m.start(1), m.end(1), ";", "drop")
    for m in re.finditer(r"\b(?:if|while)\s*\(", t):
        d, i = 1, m.end()
        while d and i < len(t):
            d += {"(": 1, ")": -1}.get(t[i], 0)
            i += 1
        add(m.end(), i - 1, "0", "if-false")
        if t[m.start():m.start() + 2] == "if":
            add(m.end(), i - 1, "1", "if-true")
    return out


def mutants(f, repo="/repo"):
    src, crlf = load(os.path.join(repo, f))
    ms = c_mutants(src) if f.endswith(".c") else py_mutants(src)
    if f.endswith("_wrap.c"):
        i = src.find("SWIGINTERN PyObject *_wrap_")
        ms = [m for m in ms if m[0] >= i > 0]
    res = []
    for s, e, new, kind, ln in ms:
        if f.endswith(".c"):
            mod, old = src[:s] + new + src[e:], src[s:e]
        else:
            b = src.encode()
            mod, old = (b[:s] + new.encode() + b[e:]).decode(), \
                b[s:e].decode()
        if mod != src:
            res.append({"file": f, "line": ln, "kind": kind, "old": old[:120],
                        "new": new[:120], "_m": mod, "_crlf": crlf,
                        "key": "%s:%d:%d:%s:%s" % (f, ln, s, kind, new[:40])})
    return res


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True,
                         errors="replace", env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def one(m, root, checks, stable):
    d = tempfile.mkdtemp(prefix="m_", dir=root)
    try:
        r = d + "/repo"
        sh("cp -a /repo %s && rm -rf %s/.git" % (r, r), "/")
        s = m["_m"]
        if m["_crlf"]:
            s = s.replace("\n", "\r\n")
        with open(os.path.join(r, m["file"]), "w", newline="") as f:
            f.write(s)
        res = {k: v for k, v in m.items() if k[0] != "_"}
        if m["file"].endswith(".c"):
            rc, o = sh("%s setup.py -q build_ext --inplace --force" % PY, r)
            if rc:
                res["result"] = "build"
                return res
        rc, o = sh("%s -m pytest -q -x -p no:cacheprovider --timeout=60 "
                   "spherepy/tests" % PY, r, timeout=200)
        if rc:
            res["result"] = "tests"
            return res
        order = ORDER.get(m["file"], "").split()
        if checks != "order":
            order += [c for c in ALL if c not in order]
        for c in order:
            rc, o = sh("%s %s/vt/run.py %s" % (PY, HERE, c), HERE,
                       env={"VT_REPO": r, "VT_JOBS": "1",
                            "VT_OUTDIR": d, "VT_STOP": "1"}, timeout=1500)
            if rc == 1 and "VIOLATION property=%s" % c in o:
                res["result"] = "caught"
                res["by"] = c
                i = o.find("VIOLATION")
                res["why"] = o[max(0, i - 300):i + 200]
                return res
            if rc:
                res.setdefault("odd", []).append([c, rc, o[-300:]])
        res["result"] = "SURVIVED"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--files", default=",".join(ORDER))
    a.add_argument("--workers", type=int, default=4)
    a.add_argument("--sample", type=int, default=0)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--checks", default="order")
    a.add_argument("--count", action="store_true")
    a.add_argument("--keys")
    a = a.parse_args()
    ms = []
    for f in a.files.split(","):
        x = mutants(f)
        if a.count:
            print(f, len(x))
        ms += x
    if a.count:
        return
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["key"] for l in open(a.out)}
    if a.keys:
        keep = {l.rstrip("\n") for l in open(a.keys)}
        ms = [m for m in ms if m["key"] in keep]
    ms = [m for m in ms if m["key"] not in done]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    root = tempfile.mkdtemp(prefix="mut_")
    try:
        with cf.ThreadPoolExecutor(a.workers) as ex, open(a.out, "a") as out:
            for r in ex.map(lambda m: one(m, root, a.checks, None), ms):
                out.write(json.dumps(r) + "\n")
                out.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
