"""Facets, verdicts, and the process that runs one facet."""
import collections
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get("VT_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """The case says nothing (only for resource limits)."""


# the quick number of cases of a facet is this many times its `quick`
QUICK = 3


class Facet(object):
    """One executable form of a property.

    strat()        -> Hypothesis strategy of JSON-able cases (dicts)
    check(case)    -> iterable of labels; raises Violation
    nontrivial(case) -> bool, the stated rule
    fixed(tier)    -> cases that always run: enumerations and boundary cases
    """

    def __init__(self, name, strat, check, nontrivial=None, quick=200,
                 thorough=4000, fixed=None, shards=1, tshards=None,
                 rule="", mode="normal", cpu=120, exhaustive=False):
        self.name = name
        self.strat = strat
        self.check = check
        self.nontrivial = nontrivial or (lambda c: True)
        self.quick = quick
        self.thorough = thorough
        self.fixed = fixed or (lambda tier: [])
        self.shards = shards
        self.tshards = tshards or max(shards, 4)
        self.rule = rule
        self.mode = mode
        self.cpu = cpu


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def describe(exc):
    """(kind, text) of an exception raised while a case was checked."""
    if isinstance(exc, Violation):
        return "violation", str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(REPO + "/") or "spherepy" in fr.filename:
            where = "%s:%d %s" % (fr.filename, fr.lineno, fr.name)
            break
    last = tb[-1] if tb else None
    text = "%s: %s" % (type(exc).__name__, exc)
    if where:
        return "exception", "%s raised on a legal input, in %s" % (text, where)
    return "unusable", ("%s while handling what the library returned (%s:%d)"
                        % (text, os.path.basename(last.filename), last.lineno)
                        if last else text)


class Runner(object):
    """Runs the cases of one facet and keeps the counts."""

    def __init__(self, pid, facet, outdir, tag, isolate=False):
        self.pid, self.facet, self.outdir = pid, facet, outdir
        self.tag, self.isolate = tag, isolate
        self.n = 0
        self.seen = set()
        self.nontriv = set()
        self.labels = collections.Counter()
        self.samples = []
        self.best = None
        self.cur = os.open(os.path.join(outdir, tag + ".cur"),
                           os.O_RDWR | os.O_CREAT, 0o600)

    def note(self, case):
        b = canon(case).encode()
        os.pwrite(self.cur, b, 0)
        os.ftruncate(self.cur, len(b))
        return b

    def run(self, case):
        b = self.note(case)
        self.n += 1
        h = hashlib.blake2b(b, digest_size=8).digest()
        new = h not in self.seen
        self.seen.add(h)
        signal.setitimer(signal.ITIMER_PROF, self.facet.cpu)
        try:
            if self.isolate:
                labels = self._forked(case)
            else:
                labels = self.facet.check(case)
        except Inconclusive:
            self.labels["inconclusive"] += 1
            return
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        for l in list(labels or ()) + self.made():
            self.labels[l] += 1
        if new and self.facet.nontrivial(case):
            self.nontriv.add(h)
            # keep a spread of samples: first ones, then powers of two
            k = len(self.nontriv)
            if (k & (k - 1)) == 0 and len(b) < 1500:
                self.samples.append(case)
                self.samples = self.samples[-6:]

    @staticmethod
    def made():
        """How the sets and patterns of the last case were made."""
        g = sys.modules.get("vt.gen")
        r = ["made-" + k for k in g.MADE] if g else []
        if g:
            g.MADE.clear()
        return r

    def _forked(self, case):
        """A crash of the code under test becomes an exception here."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_PROF, min(20, self.facet.cpu))
                try:
                    labels = list(self.facet.check(case) or ())
                    msg = {"labels": labels}
                except Inconclusive:
                    msg = {"labels": ["inconclusive"]}
                except BaseException as e:            # noqa
                    msg = {"bad": describe(e)}
                os.write(w, json.dumps(msg).encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) or not data:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            raise Violation("the process died with signal %d (%s)"
                            % (sig, signame(sig)))
        msg = json.loads(data.decode())
        if "bad" in msg:
            raise Violation("%s: %s" % tuple(msg["bad"]))
        return msg["labels"]

    def summary(self):
        return {"n": self.n, "nontriv": len(self.nontriv),
                "labels": dict(self.labels), "samples": self.samples,
                "ratio": __import__("vt.common").common.MAXRATIO}


def signame(sig):
    if sig == signal.SIGPROF:
        return "CPU time limit for one case: does not terminate"
    try:
        return signal.Signals(sig).name
    except ValueError:
        return "?"


def run_facet(pid, facet, outdir, tag, tier, seed, shard, nshards, isolate):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    hypothesis.configuration.set_hypothesis_home_dir(
        os.path.join(outdir, "hyp-" + tag))
    rn = Runner(pid, facet, outdir, tag, isolate)
    t0 = time.time()
    res = {"facet": facet.name, "shard": shard, "ok": True}

    def fail(case, exc):
        kind, text = describe(exc)
        res.update(ok=False, case=case, kind=kind, text=text,
                   tb="".join(traceback.format_exception(exc))[-3000:])

    try:
        i = 0
        for i, case in enumerate(facet.fixed(tier)):
            if i % nshards != shard:
                continue
            try:
                rn.run(case)
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                fail(case, e)
                break
        total = QUICK * facet.quick if tier == "quick" else facet.thorough
        n = -(-total // nshards)
        if res["ok"] and facet.strat is not None and n > 0:
            fs = int.from_bytes(hashlib.blake2b(
                ("%s/%s/%d/%d" % (pid, facet.name, seed, shard)).encode(),
                digest_size=6).digest(), "big")

            @hypothesis.seed(fs)
            @settings(database=None, deadline=None, max_examples=n,
                      phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=[HealthCheck.too_slow,
                                             HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(facet.strat())
            def prop(case):
                # shrinking has its share of time, then the best one stands
                if rn.best is not None and time.time() > rn.until:
                    return
                try:
                    rn.run(case)
                except Inconclusive:
                    raise
                except Exception as e:
                    if rn.best is None:
                        rn.until = time.time() + 90
                    rn.best = (case, e)
                    raise

            try:
                prop()
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as e:
                if rn.best is None:
                    raise
                fail(*rn.best)
    except BaseException as e:                                  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        res.update(ok=False, kind="harness", text="%s: %s" % (
            type(e).__name__, e), tb=traceback.format_exc()[-4000:])
    res.update(rn.summary())
    res["wall"] = time.time() - t0
    tmp = os.path.join(outdir, tag + ".res.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(outdir, tag + ".res"))


def limit_memory(gb):
    try:
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, hard))
    except (ValueError, OSError):
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def child_main(argv):
    pid, fname, outdir, tag, tier, seed, shard, nshards, iso = argv
    from vt import load_prop
    mod = load_prop(pid)
    facet = [f for f in mod.FACETS if f.name == fname][0]
    if facet.mode != "asan":
        limit_memory(8)
    random.seed(0)
    run_facet(pid, facet, outdir, tag, tier, int(seed), int(shard),
              int(nshards), iso == "1")


def replay_child(argv):
    """exit 0: holds, 3: violated (prints why), other: died"""
    pid, path = argv
    from vt import load_prop
    mod = load_prop(pid)
    d = json.load(open(path))
    facet = [f for f in mod.FACETS if f.name == d["facet"]][0]
    signal.setitimer(signal.ITIMER_PROF, facet.cpu)
    try:
        facet.check(d["case"])
    except Exception as e:
        kind, text = describe(e)
        print("REPLAY %s/%s: %s: %s" % (pid, facet.name, kind, text))
        sys.stdout.flush()
        os._exit(3)
    print("REPLAY %s/%s: holds" % (pid, facet.name))
    sys.stdout.flush()
    os._exit(0)


def known_child(argv):
    pid, key = argv
    from vt import load_prop
    mod = load_prop(pid)
    out = mod.KNOWN[key]()
    print("STILL " + str(out) if out else "GONE")
    sys.stdout.flush()
    os._exit(0)


def meta_child(argv):
    from vt import load_prop
    mod = load_prop(argv[0])
    print("META " + json.dumps([
        {"name": f.name, "mode": f.mode, "rule": f.rule, "shards": f.shards,
         "tshards": f.tshards} for f in mod.FACETS]))
