"""C16 saving and loading, as a history of files."""
import os
import pathlib
import re
import resource
import shutil
import signal
import tempfile

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet
from vt.props.c13 import model

sp = sut.load()
import spherepy.file as fl                                     # noqa: E402

NAMES = ["a.txt", "b", "with space.csv", "\u00fcn\u00ef-\u4e2d.dat",
         "sub/dir/c.txt", "x" * 200, "-dash", "%s{0}.txt", "a,b\\c",
         "y" * 255, "a.gz", "a.gz.bz2", "b.npy", "~", "$HOME.xz",
         "[a-z]*?.csv", "two\nlines ", "sub/../sub/d.zip", "CON", "..e"]
CLS = ["bits", "bits", "bits", "subnormal", "huge", "normal", "int", "short",
       "real", "imag", "ulp", "zero"]


def numbers(seed, cls, shape):
    """complex values of a class of doubles, all finite."""
    r = np.random.RandomState(seed)
    n = int(np.prod(shape)) * 2
    if cls == "bits":
        x = np.frombuffer(r.bytes(8 * n), dtype=np.float64).copy()
    elif cls == "subnormal":
        x = (r.randint(0, 2 ** 52, n, dtype=np.int64)
             >> r.randint(0, 52, n)) * 5e-324
        x *= r.choice([-1.0, 1.0], n)
    elif cls == "huge":
        x = r.uniform(-8.9e307, 8.9e307, n)
    elif cls == "int":
        x = np.round(r.standard_normal(n) * 10.0 ** r.randint(0, 17, n))
    elif cls == "short":
        x = np.round(r.standard_normal(n), 2)
    elif cls == "ulp":
        x = 1.0 + r.randint(-4, 5, n) * K.EPS
        x *= 10.0 ** r.randint(-20, 20, n)
    elif cls == "zero":
        x = np.zeros(n)
    else:
        x = r.standard_normal(n)
    x[~np.isfinite(x)] = 1.0 / 3.0
    x[np.abs(x) > 8.9e307] = -2.0 / 3.0
    z = np.empty(n // 2, dtype=np.complex128)
    z.real, z.imag = x[: n // 2], x[n // 2:]
    if cls == "real":
        z.imag = 0
    elif cls == "imag":
        z.real = 0
    return z.reshape(shape)


@st.composite
def obj(draw, nhi=12, rows=12, cols=14, far=False):
    k = draw(st.sampled_from(["coef", "coef", "patt", "patt", "made",
                              "mag"]))
    d = {"k": k, "cls": draw(st.sampled_from(CLS)), "s": draw(G.SEED)}
    if k == "patt":
        d["nrows"], d["ncols"] = draw(G.patt_far_or(far, rows, cols))
        d["sym"] = draw(st.booleans())
    else:
        d["nmax"], d["mmax"] = draw(G.nm_far_or(far, nhi, modes=24000))
        if k == "coef":
            d["v"] = draw(st.lists(st.tuples(G.any_finite(-8e307, 8e307),
                                             G.any_finite(-8e307, 8e307)),
                                   max_size=3))
    return d


@st.composite
def cases(draw, far=False):
    nf = draw(st.integers(1, 3))
    names = draw(st.lists(st.integers(0, len(NAMES) - 1), min_size=nf,
                          max_size=nf, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 2 if far else 6))):
        f = draw(st.integers(0, nf - 1))
        o = draw(st.sampled_from(["save", "save", "load", "junk", "resave",
                                  "change", "change", "behind"]))
        op = {"f": f, "op": o, "path": draw(st.booleans())}
        if o == "save":
            op["o"] = draw(obj(far=far))
        elif o == "junk":
            op["len"] = draw(st.sampled_from([0, 10, 5000]))
        ops.append(op)
    return {"names": names, "ops": ops, "rel": draw(st.booleans()),
            "near": draw(st.integers(0, 3)) == 0}


def neighbours(top, names):
    """Files of other people, called what a program might call its scratch."""
    out = {}
    for n in names:
        d, b = os.path.split(os.path.normpath(NAMES[n]))
        if len(b) > 230:
            continue
        for x in ["%s.tmp", "%s.bak", "%s~", "%s.part", "%s.new", "%s.old",
                  "%s.lock", "%s.orig", "%s.npy", "%s.txt", "%s.tmp.txt",
                  ".%s.swp", "#%s#", "tmp_%s", ".%s", ".%s.tmp"]:
            out[os.path.join(d, x.replace("%s", b))] = None
        for x in ("tmp", "temp", ".tmp", "tmp.txt", "temp.txt", "out.txt",
                  ".spherepy", ".spherepy.tmp", ".spherepy.part",
                  "spherepy.tmp"):
            out[os.path.join(d, x)] = None
    for n in names:                     # what the history saves to itself
        out.pop(os.path.normpath(NAMES[n]), None)
    for i, p in enumerate(sorted(out)):
        out[p] = "mine %d\n" % i
        with open(os.path.join(top, p), "w") as f:
            f.write(out[p])
    return out


def build(d):
    """(object, expected coefficients dict or expected loaded array)"""
    if d["k"] == "patt":
        a = numbers(d["s"], d["cls"], (d["nrows"], d["ncols"]))
        if d["sym"]:
            a = G.single_valued_poles(a, 1)
        return sp.ScalarPatternUniform(a)
    n, m = d["nmax"], d["mmax"]
    ms = O.modes(n, m)
    if d["k"] in ("made", "mag"):
        C = dict(zip(ms, numbers(d["s"], "normal", (len(ms),))))
        c = G.make_scoefs(sp, C, n, m)
        return sp.ispht(c) if d["k"] == "made" else sp.mag(c)
    v = numbers(d["s"], d["cls"], (len(ms),))
    for i, x in enumerate(d["v"][: len(ms)]):
        v[i] = complex(*x)
    return G.make_scoefs(sp, dict(zip(ms, v)), n, m)


def snapshot(o):
    if isinstance(o, sp.ScalarCoefs):
        return (o.nmax, o.mmax, G.scoefs_dict(o))
    return (tuple(o.shape), np.array(o.doublesphere))


def same_object(got, want, what):
    if isinstance(want[0], int):
        n, m, C = want
        K.need(isinstance(got, sp.ScalarCoefs), "%s is a %s", what,
               type(got).__name__)
        K.need((got.nmax, got.mmax) == (n, m), "%s has size (%s, %s), saved "
               "was (%s, %s)", what, got.nmax, got.mmax, n, m)
        D = G.scoefs_dict(got)
        ks = sorted(C)
        K.same([D[k] for k in ks], [C[k] for k in ks], what + ": values")
        return
    shape, ds = want
    K.need(isinstance(got, sp.ScalarPatternUniform), "%s is a %s", what,
           type(got).__name__)
    K.need(tuple(got.shape) == shape, "%s has shape %s, saved was %s", what,
           got.shape, shape)
    nrows = shape[0]
    w = model(ds[:nrows], 1)
    g = np.array(got.doublesphere)
    body = [j for j in range(len(w)) if j not in (0, nrows - 1)]
    K.same(g[body], w[body], what + ": samples off the poles")
    for j in (0, nrows - 1):
        half = np.roll(ds[j], -(shape[1] // 2))
        eq = half == ds[j]
        K.same(g[j][eq], ds[j][eq], what + ": single-valued pole samples")
        K.close(g[j], w[j], 4 * K.EPS * np.abs(w[j]) + 1e-323,
                what + ": pole samples")


def equal(a, b):
    if isinstance(a[0], int):
        return a == b
    return a[0] == b[0] and np.array_equal(a[1], b[1])


def last_value(text):
    """(position, digits) of the last run of digits in front of an exponent
    or a decimal point of the file."""
    best = None
    for m in re.finditer(r"\d+(?=\.)", text):
        best = m.start(), m.group(0)
    return best


def check(case):
    top = tempfile.mkdtemp(dir=os.environ["VT_OUT"], prefix="files-")
    cwd = os.getcwd()
    lab = []
    try:
        os.makedirs(os.path.join(top, "sub", "dir"))
        if case["rel"]:
            os.chdir(top)
        state, kept = {}, {}
        near = neighbours(top, case["names"]) if case.get("near") else {}
        lab += ["with neighbours"] if near else []
        for op in case["ops"]:
            name = NAMES[case["names"][op["f"]]]
            path = name if case["rel"] else os.path.join(top, name)
            name = os.path.normpath(name)
            arg = pathlib.Path(path) if op["path"] else path
            if op["op"] == "junk":
                with open(path, "w") as f:
                    f.write("9,9,junk\n" * op["len"])
                state[name] = None
                lab.append("overwrite-junk")
                continue
            if op["op"] == "behind":
                # somebody else writes other values of the same length, and
                # the file looks as old as before
                w = state.get(name)
                if w is None or "\n" not in open(path).read():
                    continue
                t = os.stat(path)
                with open(path) as f:
                    text = f.read()
                # the last value of the file is known to be finite
                at, x = last_value(text)
                y = "%d" % (3 + (x[0] == "3")) + x[1:]
                whole = re.match(r"[0-9.]+(?:[eE][-+]?[0-9]+)?",
                                 text[at:]).group(0)
                if float(whole) == float(y + whole[len(x):]):
                    continue                  # the least of subnormals
                with open(path, "w") as f:
                    f.write(text[:at] + y + text[at + len(x):])
                os.utime(path, ns=(t.st_atime_ns, t.st_mtime_ns))
                g = (fl.load_coef if isinstance(w[0], int)
                     else fl.load_patt)(arg)
                K.need(not equal(snapshot(g), w), "loading gives what was in "
                       "the file before it changed")
                state[name] = snapshot(g)
                lab.append("behind")
                continue
            if op["op"] in ("save", "resave", "change"):
                if op["op"] == "change":
                    # the object saved there is changed and saved again
                    o = kept.get(name)
                    if not isinstance(o, sp.ScalarCoefs):
                        continue
                    n = o.nmax if op["path"] else 0
                    if op["f"] % 2:
                        o[n, 0] = 0.25 - o[n, 0] * 0.5
                    else:
                        o[n, :] = 0.25 - np.asarray(o[n, :]) * 0.5
                    lab.append("changed")
                elif op["op"] == "resave":
                    # what was loaded is saved again
                    if state.get(name) is None:
                        continue
                    o = (fl.load_coef if isinstance(state[name][0], int)
                         else fl.load_patt)(arg)
                else:
                    o = build(op["o"])
                    lab.append(op["o"]["k"] + "-" + op["o"]["cls"])
                before = snapshot(o)
                r = (fl.save_coef if isinstance(o, sp.ScalarCoefs)
                     else fl.save_patt)(o, arg)
                K.need(r is None, "a save routine returned %r", r)
                if isinstance(o, sp.ScalarCoefs):
                    same_object(o, before, "the object after saving it")
                else:
                    K.same(o.doublesphere, before[1], "saving a pattern "
                           "changed it")
                state[name] = before
                kept[name] = o
                got = sorted(os.path.relpath(os.path.join(d, f), top)
                             for d, _, fs in os.walk(top) for f in fs)
                want = sorted(list(state) + list(near))
                K.need(got == want, "files after saving: %s, expected %s",
                       got, want)
            if state.get(name) is None:
                continue
            w = state[name]
            with open(path, "rb") as f:
                text = f.read()
            g = (fl.load_coef if isinstance(w[0], int)
                 else fl.load_patt)(arg)
            same_object(g, w, "the loaded " + (
                "coefficients" if isinstance(w[0], int) else "pattern"))
            with open(path, "rb") as f:
                K.need(f.read() == text, "loading changed the file")
            lab.append(op["op"])
        for p, t in near.items():
            with open(os.path.join(top, p)) as f:
                K.need(f.read() == t, "the file %s beside the saved one was "
                       "changed", p)
        # all files still hold what was saved last
        for name, w in state.items():
            if w is not None:
                p = name if case["rel"] else os.path.join(top, name)
                same_object((fl.load_coef if isinstance(w[0], int)
                             else fl.load_patt)(p), w, "a file at the end")
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
    return lab


def fixed_again(tier):
    """Saved, changed and saved again; changed by others and loaded again."""
    for k in ("coef", "patt"):
        for ops in (["save", "change", "load", "change"],
                    ["save", "load", "behind", "load", "behind", "save"]):
            for f in (0, 1):
                for p in (False, True):
                    yield {"names": [0, 5], "rel": False, "ops": [
                        {"f": f, "op": x, "path": p, "o": {
                            "k": k, "cls": "normal", "s": 3 + i, "nmax": 3,
                            "mmax": 2, "nrows": 4, "ncols": 6, "sym": True,
                            "v": []}} for i, x in enumerate(ops)]}


def nontrivial(case):
    return any(o["op"] == "save" and o["o"]["cls"] != "zero"
               for o in case["ops"])


def fixed(tier):
    for c in fixed_again(tier):
        yield c
    for n in range(0, 7):
        for m in range(0, n + 1):
            yield {"names": [0], "rel": False, "ops": [
                {"f": 0, "op": "junk", "len": 5000, "path": False},
                {"f": 0, "op": "save", "path": False, "o": {
                    "k": "coef", "cls": "bits", "s": n * 9 + m, "nmax": n,
                    "mmax": m, "v": []}}]}
    for r in range(2, 8):
        for c in range(2, 11, 2):
            for cls in ("bits", "subnormal", "huge"):
                yield {"names": [0], "rel": True, "ops": [
                    {"f": 0, "op": "save", "path": False, "o": {
                        "k": "patt", "cls": cls, "s": r * 9 + c, "nrows": r,
                        "ncols": c, "sym": c % 4 == 0}}]}
    for i in range(len(NAMES)):
        for k in ("coef", "patt"):
            yield {"names": [i], "rel": i % 2 == 0, "near": True, "ops": [
                {"f": 0, "op": "save", "path": False, "o": {
                    "k": k, "cls": "normal", "s": 1, "nmax": 3, "mmax": 2,
                    "nrows": 4, "ncols": 6, "sym": True, "v": []}}]}


# ------------------------------------------------------------ faults of writing

@st.composite
def faults(draw):
    return {"o": draw(obj()), "fault": draw(st.sampled_from(
        ["full", "full", "full", "no-folder", "is-folder"])),
        "at": draw(st.one_of(st.floats(0, 1), st.just(1.0))),
        "less": draw(st.integers(0, 3)), "old": draw(st.booleans())}


def check_fault(case):
    """A save that does not get everything onto the disk says so."""
    top = tempfile.mkdtemp(dir=os.environ["VT_OUT"], prefix="files-")
    o = build(case["o"])
    before = snapshot(o)
    save, load = (fl.save_coef, fl.load_coef) if isinstance(
        o, sp.ScalarCoefs) else (fl.save_patt, fl.load_patt)
    lab = [case["fault"]]

    def refused(path, what):
        try:
            save(o, path)
        except (OSError, IOError):
            return
        K.need(False, "%s: saving to it raised no error", what)
    try:
        good = os.path.join(top, "good")
        save(o, good)
        size = os.path.getsize(good)
        if case["fault"] == "full":
            p = os.path.join(top, "cut")
            if case["old"]:
                with open(p, "w") as f:
                    f.write("9,9,junk\n" * 300)
            room = max(0, int(case["at"] * size) - case["less"])
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, hard))
            try:
                if room < size:
                    refused(p, "a disk with room for %d of %d bytes"
                            % (room, size))
                else:
                    save(o, p)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if room >= size:
                same_object(load(p), before, "what just fitted")
                lab.append("just fits")
        elif case["fault"] == "no-folder":
            refused(os.path.join(top, "missing", "f"), "a missing folder")
            K.need(not os.path.exists(os.path.join(top, "missing")),
                   "saving made a folder")
        else:
            refused(top, "a folder")
        for p in (os.path.join(top, "never"), top):
            try:
                load(p)
            except (OSError, IOError):
                continue
            K.need(False, "loading what is not a file raised no error")
        if not isinstance(o, sp.ScalarCoefs):
            K.same(o.doublesphere, before[1], "a failed save changed the "
                   "pattern")
        else:
            same_object(o, before, "the object after a failed save")
        same_object(load(good), before, "the file saved first")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return lab


def fixed_faults(tier):
    c = {"k": "coef", "cls": "normal", "s": 1, "nmax": 3, "mmax": 2, "v": []}
    p = {"k": "patt", "cls": "normal", "s": 1, "nrows": 4, "ncols": 6,
         "sym": True}
    for o in (c, p, dict(c, nmax=0, mmax=0), dict(c, nmax=40, mmax=20)):
        for at in (0.0, 0.5, 1.0):
            for less in (0, 1):
                yield {"o": o, "fault": "full", "at": at, "less": less,
                       "old": less == 1}
        for f in ("no-folder", "is-folder"):
            yield {"o": o, "fault": f, "at": 0.0, "less": 0, "old": False}


def fixed_far(tier):
    """Numbers of rows, columns, degrees and orders of 1 to 4 digits."""
    b = {"k": "coef", "cls": "short", "s": 1, "v": []}
    p = {"k": "patt", "cls": "short", "s": 1, "sym": True}
    for o in ([dict(b, nmax=n, mmax=m) for n, m in
               ((9, 9), (10, 10), (99, 99), (100, 2), (100, 99), (100, 100),
                (101, 101), (300, 0), (1000, 1), (1200, 0))] +
              [dict(p, nrows=r, ncols=c) for r, c in
               ((10, 10), (11, 12), (100, 4), (101, 10), (4, 100), (12, 102),
                (102, 102), (1001, 2), (2, 1002))]):
        yield {"names": [0], "rel": False, "ops": [
            {"f": 0, "op": "save", "path": False, "o": o}]}


FACETS = [
    Facet("far", lambda: cases(far=True), check, nontrivial, quick=60,
          thorough=1500, shards=3, tshards=8, fixed=fixed_far,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("faults", faults, check_fault, None, quick=200, thorough=6000,
          fixed=fixed_faults, shards=1, tshards=4, mode="fork",
          rule="saves to a disk that fills up at a generated byte, to missing "
               "folders and to folders; every case demands an error, or a "
               "complete file where there is just enough room"),
    Facet("files", cases, check, nontrivial, quick=1000, thorough=40000,
          fixed=fixed, shards=8, tshards=8,
          rule="histories of saves, loads and re-saves over up to three "
               "files; values from random bit patterns, subnormal, huge and "
               "ordinary classes; non-trivial = something other than zeros "
               "was saved"),
]
