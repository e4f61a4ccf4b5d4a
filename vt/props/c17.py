"""C17 the text formats, with an own writer and an own parser."""
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet
from vt.props.c13 import model
from vt.props.c16 import CLS, numbers

sp = sut.load()
import spherepy.file as fl                                     # noqa: E402

SPELL = ["repr", "e17", "E20", "g17", "plus", "hexless", "pad", "mixed"]


def spell(x, how, i):
    x = float(x)
    if how == "mixed":
        how = SPELL[i % (len(SPELL) - 1)]
    if how == "e17":
        return "%.17e" % x
    if how == "E20":
        return "%.20E" % x
    if how == "g17":
        return "%.17g" % x
    if how == "plus":
        return "%+.16e" % x
    if how == "hexless":                       # integers without a point
        return str(int(x)) if x == int(x) and abs(x) < 1e15 else repr(x)
    if how == "pad":
        return "  %r\t" % x
    return repr(x)


def storage_order(nmax, mmax):
    out = [(n, 0) for n in range(nmax + 1)]
    for m in range(1, mmax + 1):
        out += [(n, -m) for n in range(m, nmax + 1)]
        out += [(n, m) for n in range(m, nmax + 1)]
    return out


@st.composite
def cases(draw, nhi=9, rows=9, cols=12, far=False):
    k = draw(st.sampled_from(["patt", "vpatt", "fdata", "coef", "vcoef"]))
    c = {"k": k, "s": draw(G.SEED), "cls": draw(st.sampled_from(CLS)),
         "spell": draw(st.sampled_from(SPELL)),
         "sep": draw(st.sampled_from([",", ", ", " , "])),
         "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
         "last": draw(st.booleans()),
         "order": draw(st.sampled_from(["row", "col", "random", "reverse"]))}
    if k in ("coef", "vcoef"):
        c["nmax"], c["mmax"] = draw(G.nm_far_or(far, nhi, modes=24000))
        if k == "vcoef":
            c["dir"] = draw(G.any_finite())
            c["brk"] = draw(st.sampled_from(["break", " break ", "break\t"]))
    elif k == "fdata":
        c["nrows"] = draw(st.integers(1, rows))
        c["ncols"] = draw(st.integers(1, cols))
        if far:
            c["nrows"], c["ncols"] = draw(G.patt_far())
            c["ncols"] -= draw(st.integers(0, 1))
    else:
        c["nrows"], c["ncols"] = draw(G.patt_far_or(far, rows, cols))
        c["single"] = draw(st.booleans())
    return c


def grid_lines(a, case, seed):
    R, C = a.shape
    at = [(r, c) for r in range(R) for c in range(C)]
    if case["order"] == "col":
        at.sort(key=lambda p: (p[1], p[0]))
    elif case["order"] == "reverse":
        at.reverse()
    elif case["order"] == "random":
        np.random.RandomState(seed).shuffle(at)
    s = case["sep"]
    return ["%d%s%d" % (R, s, C)] + [
        s.join(["%d" % r, "%d" % c, spell(a[r, c].real, case["spell"], i),
                spell(a[r, c].imag, case["spell"], i + 3)])
        for i, (r, c) in enumerate(at)]


def put(path, lines, case):
    with open(path, "wb") as f:
        t = case["eol"].join(lines) + (case["eol"] if case["last"] else "")
        f.write(t.encode())


def scratch():
    return tempfile.mkdtemp(dir=os.environ["VT_OUT"], prefix="fmt-")


def pattern_is(d, a, sym, what):
    w = model(a, sym)
    R = len(w)
    K.arr(d, w.shape, what)
    body = [j for j in range(R) if j not in (0, R // 2)]
    K.same(np.asarray(d)[body], w[body], what)
    for j in (0, R // 2):
        K.close(d[j], w[j], 4 * K.EPS * np.abs(w[j]) + 1e-323,
                what + " at a pole")


def check(case):
    top = scratch()
    k = case["k"]
    try:
        f1, f2 = os.path.join(top, "one"), os.path.join(top, "two")
        if k in ("coef", "vcoef"):
            n, m = case["nmax"], case["mmax"]
            order = storage_order(n, m)
            L = len(order)
            s = case["sep"]
            head = "%d%s%d" % (n, s, m)

            def lines(v):
                return [spell(x.real, case["spell"], i) + s +
                        spell(x.imag, case["spell"], i + 1)
                        for i, x in enumerate(v)]
            v1 = numbers(case["s"], case["cls"], (L,))
            v2 = numbers(case["s"] ^ 77, case["cls"], (L,))
            if k == "coef":
                put(f1, [head] + lines(v1), case)
                c = fl.load_coef(f1)
                K.need(isinstance(c, sp.ScalarCoefs), "load_coef gave a %s",
                       type(c).__name__)
                sets = [(c, v1)]
            else:
                v1[0] = v2[0] = 0
                put(f1, [head + s + repr(case["dir"])] + lines(v1)
                    + [case["brk"]] + lines(v2), case)
                r = fl.load_vcoef(f1)
                K.need(len(r) == 2 and isinstance(r[0], sp.VectorCoefs),
                       "load_vcoef gave %.100r", r)
                K.need(r[1] == case["dir"], "directivity %r, the file says "
                       "%r", r[1], case["dir"])
                K.need((r[0].nmax, r[0].mmax) == (n, m), "load_vcoef size %s",
                       (r[0].nmax, r[0].mmax))
                sets = [(r[0].scoef1, v1), (r[0].scoef2, v2)]
            for i, (c, v) in enumerate(sets):
                K.need((c.nmax, c.mmax) == (n, m), "size (%s, %s)", c.nmax,
                       c.mmax)
                D = G.scoefs_dict(c)
                K.same([D[o] for o in order], v, "set %d of load_%s, in "
                       "storage order" % (i + 1, k))
        else:
            shape = (case["nrows"], case["ncols"])
            a = numbers(case["s"], case["cls"], shape)
            b = numbers(case["s"] ^ 77, case["cls"], shape)
            sym = -1 if k == "vpatt" else 1
            if case.get("single"):
                a = G.single_valued_poles(a, sym)
                b = G.single_valued_poles(b, sym)
            put(f1, grid_lines(a, case, case["s"]), case)
            if k == "fdata":
                d = fl.load_fdata(f1)
                K.need(isinstance(d, np.ndarray), "load_fdata gave a %s",
                       type(d).__name__)
                K.same(d, a, "load_fdata")
            elif k == "patt":
                p = fl.load_patt(f1)
                K.need(isinstance(p, sp.ScalarPatternUniform),
                       "load_patt gave a %s", type(p).__name__)
                K.need(tuple(p.shape) == shape, "shape %s", p.shape)
                pattern_is(p.doublesphere, a, 1, "load_patt")
            else:
                put(f2, grid_lines(b, case, case["s"] + 1), case)
                p = fl.load_vpatt(f1, f2)
                K.need(isinstance(p, sp.TransversePatternUniform),
                       "load_vpatt gave a %s", type(p).__name__)
                K.need(tuple(p.shape) == shape, "shape %s", p.shape)
                pattern_is(p.doublesphere[0], a, -1, "load_vpatt theta")
                pattern_is(p.doublesphere[1], b, -1, "load_vpatt phi")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return [k, "cls-" + case["cls"], "spell-" + case["spell"],
            "order-" + case["order"]]


# ------------------------------------------------------- files they write

INT = re.compile(r"^\s*\d+\s*$")


def fields(line, n, ints, what):
    fs = line.split(",")
    K.need(len(fs) == n, "%s: line %r has %d fields, expected %d", what,
           line, len(fs), n)
    for f in fs[:ints]:
        K.need(INT.match(f), "%s: %r is not an index", what, f)
    try:
        return [int(f) for f in fs[:ints]] + [float(f) for f in fs[ints:]]
    except ValueError:
        raise K.Violation("%s: line %r is not numeric" % (what, line))


@st.composite
def wcases(draw, far=False):
    k = draw(st.sampled_from(["patt", "coef"]))
    c = {"k": k, "s": draw(G.SEED), "cls": draw(st.sampled_from(CLS))}
    if k == "coef":
        c["nmax"], c["mmax"] = draw(G.nm_far_or(far, 12, modes=24000))
    else:
        c["nrows"], c["ncols"] = draw(G.patt_far_or(far, 12, 16))
    return c


def check_written(case):
    top = scratch()
    try:
        f = os.path.join(top, "f")
        if case["k"] == "coef":
            n, m = case["nmax"], case["mmax"]
            order = storage_order(n, m)
            v = numbers(case["s"], case["cls"], (len(order),))
            fl.save_coef(G.make_scoefs(sp, dict(zip(order, v)), n, m), f)
            lines = text_lines(f)
            K.need(fields(lines[0], 2, 2, "header") == [n, m],
                   "header %r for size (%d, %d)", lines[0], n, m)
            got = [complex(*fields(x, 2, 0, "save_coef"))
                   for x in lines[1:]]
            K.same(got, v, "values written by save_coef in storage order")
        else:
            shape = (case["nrows"], case["ncols"])
            a = G.single_valued_poles(
                numbers(case["s"], case["cls"], shape), 1)
            p = sp.ScalarPatternUniform(a)
            fl.save_patt(p, f)
            lines = text_lines(f)
            K.need(tuple(fields(lines[0], 2, 2, "header")) == shape,
                   "header %r for shape %s", lines[0], shape)
            seen = {}
            for x in lines[1:]:
                r, c, re_, im = fields(x, 4, 2, "save_patt")
                K.need((r, c) not in seen, "sample %s written twice", (r, c))
                seen[(r, c)] = complex(re_, im)
            K.need(sorted(seen) == [(r, c) for r in range(shape[0])
                                    for c in range(shape[1])],
                   "save_patt wrote %d samples of a %s pattern", len(seen),
                   shape)
            K.same([seen[x] for x in sorted(seen)],
                   np.array(p.array).ravel(), "samples written by save_patt")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return [case["k"], "cls-" + case["cls"]]


def text_lines(f):
    with open(f, newline="") as fh:
        t = fh.read()
    lines = t.replace("\r\n", "\n").split("\n")
    if lines[-1] == "":
        lines.pop()
    K.need(len(lines) >= 1, "an empty file was written")
    return lines


def fixed(tier):
    b = {"spell": "mixed", "sep": ", ", "eol": "\n", "last": True,
         "order": "random", "cls": "normal"}
    for n in range(0, 6):
        for m in range(0, n + 1):
            yield dict(b, k="coef", nmax=n, mmax=m, s=n * 7 + m)
            yield dict(b, k="vcoef", nmax=n, mmax=m, s=n * 7 + m, dir=1.5,
                       brk="break")
    for r in range(2, 6):
        for c in range(2, 9, 2):
            for k in ("patt", "vpatt", "fdata"):
                yield dict(b, k=k, nrows=r, ncols=c, s=r * c,
                           single=r % 2 == 0)
            yield dict(b, k="fdata", nrows=r - 1, ncols=c - 1, s=r * c)


def fixed_w(tier):
    for n in range(0, 6):
        for m in range(0, n + 1):
            yield {"k": "coef", "nmax": n, "mmax": m, "cls": "bits", "s": n}
    for r in range(2, 6):
        for c in range(2, 9, 2):
            yield {"k": "patt", "nrows": r, "ncols": c, "cls": "bits", "s": r}


FACETS = [
    Facet("far-loaded", lambda: cases(far=True), check,
          lambda c: c["cls"] != "zero", quick=40, thorough=1500, shards=2,
          tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("far-written", lambda: wcases(far=True), check_written,
          lambda c: c["cls"] != "zero", quick=50, thorough=1500, shards=2,
          tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("loaded", cases, check, lambda c: c["cls"] != "zero", quick=1500,
          thorough=50000, fixed=fixed, shards=5, tshards=8,
          rule="files in every format with generated values, number "
               "spellings, separators, line ends and line orders; "
               "non-trivial = not all zeros"),
    Facet("written", wcases, check_written, lambda c: c["cls"] != "zero",
          quick=800, thorough=30000, fixed=fixed_w, shards=3, tshards=8,
          rule="files of the save routines parsed with an own strict "
               "parser; non-trivial = not all zeros"),
]
