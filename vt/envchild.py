"""Runs operations of C26's table in a process with a given environment.

Started by the check of C29; reads a pickled request from the file named by its
argument and writes a pickled answer beside it.
"""
import os
import pickle
import sys


def block(names, exc):
    """Importing any of these modules fails with that exception."""
    kind = {"ImportError": ImportError, "ModuleNotFoundError":
            ModuleNotFoundError, "RuntimeError": RuntimeError,
            "OSError": OSError, "ValueError": ValueError,
            "AttributeError": AttributeError}[exc]

    class Blocker(object):
        def find_spec(self, name, path=None, target=None):
            if name in names or any(name.startswith(n + ".") for n in names):
                raise kind("no %s here" % name)
            return None
    sys.meta_path.insert(0, Blocker())


def plots(sp):
    """What each plotting routine does."""
    c = sp.ones_coefs(2, 2)
    p = sp.ones_patt_uniform(4, 6)
    import numpy as np
    out = {}
    for name, arg in (("plot_sphere_mag", (p,)), ("pcolor_coefs", (c,)),
                      ("plot_coefs", (c,)),
                      ("plot_mag_on_sphere", (np.ones((4, 6)),)),
                      ("simple_plot", (2, 1))):
        f = getattr(sp, name, None)
        if f is None:
            out[name] = ["absent", ""]
            continue
        try:
            f(*arg)
            out[name] = ["returned", ""]
        except Exception as e:
            out[name] = [("ImportError" if isinstance(e, ImportError)
                          else type(e).__name__), str(e)]
    return out


def main(path):
    with open(path, "rb") as f:
        req = pickle.load(f)
    env = req["env"]
    from vt import sut                                # paths only
    import numpy as np
    if env["missing"]:
        block(env["missing"], env["exc"])
    err = None
    try:
        if env["first"]:
            __import__(env["first"])
        sp = sut.load()
        from vt.props import c26
    except Exception as e:
        import traceback
        err = traceback.format_exc()[-700:]
    if err is not None:
        ans = {"import": err}
    else:
        import gc
        if env["cwd"] == "gone":
            os.rmdir(os.getcwd())
        np.set_printoptions(**env["print"])
        np.seterr(all=env["seterr"])
        np.seterrcall(lambda *a: None)
        if env["gc"] == "off":
            gc.disable()
        elif env["gc"] == "often":
            gc.set_threshold(1, 1, 1)
        sys.setrecursionlimit(env["recursion"])
        import warnings
        warnings.simplefilter(env.get("warn", "ignore"))
        where = {"thread": in_thread, "fork": in_fork, "exec": in_exec}.get(
            env.get("where"), lambda f: f())
        res = where(lambda: traced(env, lambda: run_all(c26, req)))
        warnings.simplefilter("ignore")
        ans = {"import": None, "res": res,
               "plots": plots(sp) if env["missing"] else None,
               "modules": [m for m in ("matplotlib",) if m in sys.modules],
               "relative": None}
        if env["cwd"] != "gone":
            c = c26.build({"k": "s", "n": 3, "m": 2, "a": {
                "k": "dense", "e": 0, "s": 5, "f": "complex"}})
            n = "a name with spaces.txt"
            sp.file.save_coef(c, n)
            ans["relative"] = [c26.look(sp.file.load_coef(n)), c26.look(c),
                               os.path.isfile(os.path.join(os.getcwd(), n))]
    with open(path + ".out", "wb") as f:
        pickle.dump(ans, f)


def run_all(c26, req):
    res = []
    for o in req["ops"]:
        objs = {"s": [], "v": [], "p": [], "t": []}
        for d in req["pool"]:
            objs[d["k"]].append(c26.build(d))
        res.append(run_one(c26, o, objs))
    return res


def traced(env, f):
    def tracer(frame, event, arg):
        return tracer
    on, off = {"trace": (lambda: sys.settrace(tracer),
                         lambda: sys.settrace(None)),
               "profile": (lambda: sys.setprofile(lambda *a: None),
                           lambda: sys.setprofile(None))}.get(
        env.get("trace"), (lambda: None, lambda: None))
    on()
    try:
        return f()
    finally:
        off()


def in_thread(f):
    """A thread with a small stack."""
    import threading
    out = []
    old = threading.stack_size(1 << 20)
    t = threading.Thread(target=lambda: out.append(f()))
    t.start()
    t.join()
    threading.stack_size(old)
    return out[0]


def in_fork(f):
    """A child of a process that has already used the library."""
    import select
    import signal
    import time
    t = time.monotonic()
    f()
    t = time.monotonic() - t
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            with os.fdopen(w, "wb") as h:
                pickle.dump(f(), h)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    if not select.select([r], [], [], 60 + 10 * t)[0]:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return "no answer"
    with os.fdopen(r, "rb") as h:
        res = pickle.load(h)
    os.waitpid(pid, 0)
    return res


def in_exec(f):
    """Code run by exec, in a namespace of its own."""
    d = {"f": f}
    exec("res = f()", d)
    return d["res"]


def run_one(c26, o, objs):
    kinds, out, _ = c26.OPS[o["op"]]
    pick = [o["a"], o["b"], o["a"] + 1, o["b"] + 1]
    args = [objs[k][i % len(objs[k])] for k, i in zip(kinds, pick)]
    r = c26.perform(o, args)
    return [r[0], r[2], [c26.look(x) for x in args]]


if __name__ == "__main__":
    main(sys.argv[1])
