"""C29 results do not depend on the environment of the process."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vt import common as K, envchild, gen as G, sut
from vt.engine import Facet, Inconclusive
from vt.props import c26
from vt.props.c26 import OPS, agree, build, op, pool

sp = sut.load()
HOME = os.path.dirname(os.path.dirname(os.path.abspath(sut.__file__)))

# how text looks may follow numpy's print options
TEXT = {"text", "str", "pretty"}
MPL = [["matplotlib"], ["matplotlib", "mpl_toolkits"], ["mpl_toolkits"],
       ["matplotlib.pyplot"], ["mpl_toolkits.mplot3d"]]
FIRST = ["", "spherepy", "spherepy.spherepy", "spherepy.ops",
         "spherepy.file", "spherepy.verify", "spherepy.sbessel",
         "spherepy.pysphi", "spherepy.csphi", "spherepy.plot_sphere"]
PLAIN = {"missing": [], "exc": "ImportError", "first": "", "opt": 0,
         "cwd": "empty", "print": {}, "seterr": "ignore", "gc": "normal",
         "vars": {}, "recursion": 1000, "flags": [], "where": "main",
         "warn": "ignore", "trace": "none"}
FLAGS = [["-X", "dev"], ["-B", "-s"], ["-X", "utf8"], ["-u"], ["-b"],
         ["-X", "importtime"], ["-X", "faulthandler"], ["-W", "ignore"],
         ["-W", "always"], ["-X", "int_max_str_digits=640"]]
WHERE = ["thread", "fork", "exec"]


@st.composite
def environments(draw):
    e = dict(PLAIN)
    what = draw(st.lists(st.sampled_from(
        ["missing", "first", "opt", "cwd", "print", "seterr", "gc", "vars",
         "recursion", "flags", "where", "warn", "trace"]), min_size=1, max_size=5, unique=True))
    if "missing" in what:
        e["missing"] = draw(st.sampled_from(MPL))
        e["exc"] = draw(st.sampled_from(
            ["ImportError", "ModuleNotFoundError", "RuntimeError", "OSError",
             "ValueError", "AttributeError"]))
    if "first" in what:
        e["first"] = draw(st.sampled_from(FIRST))
    if "opt" in what:
        e["opt"] = draw(st.integers(0, 2))
    if "cwd" in what:
        e["cwd"] = draw(st.sampled_from(["decoys", "gone", "empty"]))
    if "print" in what:
        e["print"] = draw(st.fixed_dictionaries({}, optional={
            "precision": st.integers(0, 20), "suppress": st.booleans(),
            "threshold": st.sampled_from([0, 1, 5, 1000]),
            "edgeitems": st.integers(1, 3),
            "linewidth": st.sampled_from([1, 20, 75, 1000]),
            "sign": st.sampled_from(["+", " ", "-"]),
            "floatmode": st.sampled_from(["fixed", "unique", "maxprec",
                                          "maxprec_equal"])}))
    if "seterr" in what:
        e["seterr"] = draw(st.sampled_from(["ignore", "warn", "call"]))
    if "gc" in what:
        e["gc"] = draw(st.sampled_from(["off", "often"]))
    if "flags" in what:
        e["flags"] = draw(st.sampled_from(FLAGS))
    if "where" in what:
        e["where"] = draw(st.sampled_from(WHERE))
    if "warn" in what and e["seterr"] != "warn":
        e["warn"] = draw(st.sampled_from(["error", "always", "once"]))
    if "trace" in what:
        e["trace"] = draw(st.sampled_from(["trace", "profile"]))
    if "recursion" in what:
        e["recursion"] = draw(st.sampled_from([300, 5000]))
    if "vars" in what:
        e["vars"] = draw(st.fixed_dictionaries({}, optional={
            "LC_ALL": st.sampled_from(["C", "POSIX", "C.UTF-8", "de_DE",
                                       "nowhere"]),
            "PYTHONHASHSEED": st.integers(0, 2 ** 32 - 1).map(str),
            "PYTHONUTF8": st.sampled_from(["0", "1"]),
            "PYTHONIOENCODING": st.sampled_from(["ascii", "latin-1",
                                                 "utf-8"]),
            "TZ": st.sampled_from(["UTC", "Asia/Kathmandu"]),
            "COLUMNS": st.sampled_from(["1", "40", "500"]),
            "MALLOC_PERTURB_": st.integers(1, 255).map(str),
            "PYTHONMALLOC": st.sampled_from(["malloc", "pymalloc_debug"]),
            "HOME": st.just("/nonexistent"),
            "OMP_NUM_THREADS": st.sampled_from(["1", "4"])}))
    return e


@st.composite
def cases(draw, size=6):
    leave = {"walk"}
    return {"env": draw(environments()), "pool": draw(pool(size)),
            "ops": draw(st.lists(op(size).filter(
                lambda o: o["op"] not in leave), min_size=4, max_size=14))}


def ask(case, top):
    e = case["env"]
    cwd = os.path.join(top, "cwd")
    os.mkdir(cwd)
    if e["cwd"] == "decoys":
        for n in ("pkg_info.json", "spherepy.json", "numpy.cfg",
                  "matplotlibrc.txt", "test.txt"):
            with open(os.path.join(cwd, n), "w") as f:
                f.write('{"use_cext": 7, "version": "none"}')
        os.mkdir(os.path.join(cwd, "spherepy"))
        with open(os.path.join(cwd, "spherepy", "pkg_info.json"), "w") as f:
            f.write("{}")
    path = os.path.join(top, "request")
    with open(path, "wb") as f:
        pickle.dump({"env": e, "pool": case["pool"], "ops": case["ops"]}, f)
    vs = dict(os.environ, VT_ENVCHILD="1", PYTHONPATH=HOME, MPLBACKEND="Agg",
              PYTHONDONTWRITEBYTECODE="1", TMPDIR=top)
    vs.pop("PYTHONHASHSEED", None)
    vs.update(e["vars"])
    p = subprocess.Popen(
        [sys.executable] + e["flags"] +
        ["-" + "O" * e["opt"]] * (e["opt"] > 0) +
        [os.path.join(HOME, "vt", "envchild.py"), path],
        cwd=cwd, env=vs, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, x = p.communicate(timeout=240)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise Inconclusive()
    text = (o + x).decode("utf-8", "replace")
    K.need(os.path.exists(path + ".out"), "the process ended with status %s: "
           "%s", p.returncode, text[-600:])
    with open(path + ".out", "rb") as f:
        return pickle.load(f), o.decode("utf-8", "replace")


def check(case):
    e = case["env"]
    here = []
    for o in case["ops"]:
        objs = {"s": [], "v": [], "p": [], "t": []}
        for d in case["pool"]:
            objs[d["k"]].append(build(d))
        here.append(envchild.run_one(c26, o, objs))
    top = tempfile.mkdtemp(prefix="vt_env_")
    try:
        ans, text = ask(case, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    K.need(ans["import"] is None, "spherepy cannot be imported: %s",
           ans["import"])
    K.need(ans["res"] != "no answer", "a forked child of a process that has "
           "used the library hangs in it")
    for o, a, b in zip(case["ops"], here, ans["res"]):
        if o["op"] in TEXT and e["print"]:
            continue
        agree(a, b, "%s here and in that environment" % o["op"])
    K.need(text == "", "the library wrote %.200r to standard output", text)
    if e["missing"]:
        for n, (what, msg) in sorted(ans["plots"].items()):
            K.need(what == "ImportError" and "matplotlib" in msg.lower(),
                   "%s without the plotting library: %s %s", n, what, msg)
    if ans["relative"]:
        got, want, there = ans["relative"]
        K.need(there, "a file saved under a relative name is not in the "
               "working directory")
        agree(want, got, "saved under a relative name and loaded")
    return [k for k in PLAIN if e[k] != PLAIN[k]] or ["plain"]


def fixed(tier):
    """Every environment feature alone, with all operations."""
    D = {"k": "dense", "e": 0, "s": 3, "f": "complex"}
    p = [dict(k=k, n=3, m=2, a=D, b=dict(D, s=4)) for k in "sv"] + \
        [dict(k=k, n=5, m=6, a=D, b=dict(D, s=4), poles="raw")
         for k in "pt"]
    ops = [{"op": n, "a": 0, "b": 0, "k": i % 10, "n1": 3, "n2": 2,
            "z": [[0.5, 0, 0], [1, 2, 0]], "py": py}
           for i, n in enumerate(OPS) if n != "walk"
           for py in ((False, True) if "spht" in n else (False,))]
    var = [dict(missing=m) for m in MPL]
    var += [dict(missing=["matplotlib"], exc=x)
            for x in ("RuntimeError", "OSError")]
    var += [dict(first=f) for f in FIRST if f]
    var += [dict(flags=f) for f in FLAGS[:1]]
    var += [dict(where=w) for w in WHERE]
    var += [dict(warn="error"), dict(trace="trace"), dict(trace="profile")]
    var += [dict(opt=1), dict(opt=2), dict(cwd="decoys"), dict(cwd="gone"),
            dict(gc="often"), dict(seterr="call"),
            dict(print={"precision": 2, "threshold": 0, "suppress": True,
                        "linewidth": 20}),
            dict(vars={"LC_ALL": "C", "PYTHONUTF8": "0",
                       "PYTHONIOENCODING": "ascii"}),
            dict(vars={"MALLOC_PERTURB_": "165", "PYTHONMALLOC": "malloc"})]
    for v in var:
        yield {"env": dict(PLAIN, **v), "pool": p, "ops": ops}


FACETS = [
    Facet("environments", cases, check, lambda c: c["env"] != PLAIN,
          quick=60, thorough=3000, fixed=fixed, shards=8, tshards=8,
          rule="first every feature of an environment alone, with every "
               "operation; non-trivial = an environment that differs from "
               "the plain one"),
]
