"""C28 operations running in several threads do not disturb each other.

Facet "schedules": the threads run one at a time; before every line of
library code the running thread may have to hand over to another one.  Which
thread, and after how many lines, is part of the case, so that a failure
repeats and shrinks.  Facet "free": no interference, very short time slices.
"""
import os
import pickle
import shutil
import sys
import tempfile
import threading

from hypothesis import strategies as st

from vt import common as K, sut
from vt.engine import Facet
from vt.props import c26
from vt.props.c26 import OPS, agree, build, look, op, perform, pool

sp = sut.load()
HOME = os.path.dirname(os.path.abspath(sp.__file__)) + os.sep

# What works on state of the process rather than on its arguments by design:
# the random generator, standard output; and operations in place, which would
# have to be on objects of their own.
LEAVE = {"random", "p.random", "v.random", "t.random", "pretty",
         "walk"} | {
    n for n in OPS if OPS[n][1] == "!"}
NAMES = [n for n in OPS if n not in LEAVE]


@st.composite
def jobs(draw, size, most):
    o = draw(op(size).filter(lambda o: o["op"] not in LEAVE))
    o["py"] = False                      # the switch is global: one per case
    if draw(st.integers(0, 2)) == 0:
        return [o, dict(o, n1=draw(st.integers(0, size)))]
    return [o] + draw(st.lists(op(size).filter(
        lambda o: o["op"] not in LEAVE).map(lambda o: dict(o, py=False)),
        max_size=most - 1))


def cases(size, most):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 3))
        work = [draw(jobs(size, most)) for _ in range(n)]
        if draw(st.booleans()):
            # the same operation in every thread, on other objects or sizes
            for w in work[1:]:
                w[0] = dict(work[0][0], a=w[0]["a"], b=w[0]["b"],
                            n1=w[0]["n1"], n2=w[0]["n2"])
        return {"pool": draw(pool(size)), "work": work,
                "py": draw(st.integers(0, 2)) == 0,
                "turns": draw(st.lists(st.tuples(
                    st.sampled_from([1, 1, 2, 3, 5, 8, 13, 30, 100]),
                    st.integers(0, 2)).map(list), min_size=1, max_size=12))}
    return s()


class Turns(object):
    """Hands the right to run from thread to thread, as the case says."""

    def __init__(self, n, turns):
        self.turns, self.at = turns, 0
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.left = turns[0][0]
        self.handed = 0

    def next(self):
        lines, who = self.turns[self.at % len(self.turns)]
        self.at += 1
        self.left = lines
        return who

    def point(self, me):
        self.left -= 1
        if self.left > 0 or len(self.alive) < 2:
            return
        other = [i for i in self.alive if i != me]
        i = other[self.next() % len(other)]
        self.handed += 1
        self.sem[i].release()
        self.sem[me].acquire()

    def done(self, me):
        self.alive.remove(me)
        if self.alive:
            self.sem[self.alive[self.next() % len(self.alive)]].release()

    def tracer(self, me):
        def line(frame, event, arg):
            if event == "line":
                self.point(me)
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(HOME):
                self.point(me)
                return line
            return None
        return call


def arguments(objs, o):
    kinds = OPS[o["op"]][0]
    pick = [o["a"], o["b"], o["a"] + 1, o["b"] + 1]
    return [objs[k][i % len(objs[k])] for k, i in zip(kinds, pick)]


def apart(work):
    """What each operation gives in a process of its own that has done
    nothing before: [[status, look]]."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = [[[x[0], None, x[2]] for x in (perform(o, a)
                                                 for o, a in l)]
                   for l in work]
            c26.write_all(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        m = f.read()
    os.waitpid(pid, 0)
    K.need(m, "the operations ended the process")
    return pickle.loads(m)


def check(case, free=0, cold=False):
    objs = {"s": [], "v": [], "p": [], "t": []}
    for d in case["pool"]:
        objs[d["k"]].append(build(d))
    work = [[(o, arguments(objs, o)) for o in w] for w in case["work"]]
    old = sp.spherepy.use_cext

    # "py" of every operation is off: the switch is set here, once
    sp.spherepy.use_cext = not case["py"]
    c26_backend, c26.backend = c26.backend, lambda o, f: f()
    c26.SHARED.append(tempfile.mkdtemp(dir=os.environ.get("VT_OUT")))
    try:
        alone = apart(work) if cold else \
            [[perform(o, a) for o, a in w] for w in work]
        before = [look(x) for k in "svpt" for x in objs[k]]
        got = [[] for _ in work]
        if free:
            handed = run_free(work, got, free)
        else:
            handed = run_turns(work, got, case["turns"])
    finally:
        sp.spherepy.use_cext = old
        c26.backend = c26_backend
        shutil.rmtree(c26.SHARED.pop())
    for b, x in zip(before, [x for k in "svpt" for x in objs[k]]):
        agree(b, look(x), "an object shared by the threads", exact=True)
    for i, (w, g) in enumerate(zip(work, got)):
        for n, r in enumerate(g):
            o, a = w[n % len(w)]
            ref = alone[i][n % len(w)]
            agree([ref[0], ref[2]], [r[0], r[2]], "thread %d, operation %d "
                  "(%s): alone, then beside other threads"
                  % (i, n, o["op"]))
            if r[0] == "ok":
                # nobody has written to it since
                agree(r[2], look(r[1]), "thread %d, operation %d (%s): its "
                      "result when it was made, then when all had ended"
                      % (i, n, o["op"]), exact=True)
    lab = {"python" if case["py"] else "native",
           "%d threads" % len(work)}
    if not free:
        lab.add("handed over 1-9 times" if 0 < handed < 10 else
                "10-99 times" if handed < 100 else "100 times and more")
    for w in work:
        for o, _ in w:
            lab.add(next(g for g in c26.GROUPS if o["op"] in c26.GROUPS[g]))
    return lab


def run_turns(work, got, turns):
    t = Turns(len(work), turns)

    def body(me):
        t.sem[me].acquire()
        sys.settrace(t.tracer(me))
        try:
            for o, a in work[me]:
                got[me].append(perform(o, a))
        finally:
            sys.settrace(None)
            t.done(me)
    go(body, len(work), lambda: t.sem[0].release())
    return t.handed


def run_free(work, got, times):
    gate = threading.Barrier(len(work))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def body(me):
        gate.wait()
        for _ in range(times):
            for o, a in work[me]:
                got[me].append(perform(o, a))
    try:
        go(body, len(work), lambda: None)
    finally:
        sys.setswitchinterval(old)
    return 0


def go(body, n, start):
    ts = [threading.Thread(target=body, args=(i,), daemon=True)
          for i in range(n)]
    for t in ts:
        t.start()
    start()
    for t in ts:
        t.join(100)
        K.need(not t.is_alive(), "a thread did not come to an end")


def fixed(tier):
    """Every operation against itself and the transforms, on other sizes."""
    D = {"k": "dense", "e": 0, "s": 3, "f": "complex"}

    def pl(n, m, s):
        d, e = dict(D, s=s), dict(D, s=s + 1)
        return [dict(k=k, n=n, m=m, a=d, b=e) for k in "sv"] + \
            [dict(k=k, n=n + 2, m=2 * m + 2, a=d, b=e, poles="raw")
             for k in "pt"]
    many = ["ispht", "spht", "vispht", "vspht"]
    for name in NAMES:
        o = {"op": name, "a": 0, "b": 0, "k": 1, "n1": 2, "n2": 1,
             "z": [[2.5, 1]], "py": False}
        for j, turns in enumerate(([[1, 0]], [[7, 0], [2, 0]],
                                   [[25, 0], [1, 0], [4, 0]])):
            # same shapes: shared work arrays would fit; then other shapes
            for p in ([pl(3, 2, 3) + pl(3, 2, 8)] if j else
                      [pl(3, 2, 3) + pl(3, 2, 8), pl(3, 3, 3) + pl(4, 1, 8)]):
                for py in ((False, True) if "spht" in name else (False,)):
                    yield {"pool": p, "work": [[o], [dict(o, a=1, b=1, n2=2,
                                                          n1=3)]],
                           "turns": turns, "py": py}
    for a in many:
        for b in many:
            o = {"op": a, "a": 0, "b": 0, "k": 1, "n1": 2, "n2": 1,
                 "z": [[2.5, 1]], "py": False}
            for py in (False, True):
                yield {"pool": pl(3, 2, 3) + pl(3, 2, 8),
                       "work": [[o], [dict(o, op=b, a=1)]],
                       "turns": [[3, 0], [1, 0], [11, 0]], "py": py}


def check_free(case):
    return check(case, 5 if case["py"] else 30)


def check_cold(case):
    """As the others, in a process whose first operations these are."""
    return check(case, 2 if case["turns"][0][0] == 5 else 0, cold=True)


def fixed_cold(tier):
    for i, c in enumerate(fixed(tier)):
        if tier != "quick" or i % 2 == 0 or "spht" in c["work"][0][0]["op"]:
            yield c


FACETS = [
    Facet("schedules", lambda: cases(5, 3), check, None, quick=240,
          thorough=8000, fixed=fixed, shards=6, tshards=8,
          rule="every operation against itself and transforms against each "
               "other under fixed schedules, then generated; every case has two "
               "or three threads with at least one operation each"),
    Facet("cold", lambda: cases(6, 2), check_cold, None, quick=100,
          thorough=4000, fixed=fixed_cold, shards=5, tshards=8, mode="fork",
          rule="as schedules, every case in a new process, whose first use "
               "of the library it is"),
    Facet("free", lambda: cases(9, 3), check_free, None, quick=30,
          thorough=1500, shards=2, tshards=4,
          rule="every case: the operations of each thread 5 or 30 times"),
]
