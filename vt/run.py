"""Check one property:   run.py C01            (tier and seed from the environment)
                      run.py C01 --replay F  (re-run one saved case)

Rebuilds the extension from /repo, runs every facet of the property in child
processes, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines.
exit 0: held on everything explored; 1: violated; 2: the check itself failed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUTDIR = os.environ.get("VT_OUTDIR", VERIF)     # evidence and replays
STOP = os.environ.get("VT_STOP")                # end at the first violation
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def env_for(extdir, outdir, asan=None, poison=False):
    keep = ("PATH", "HOME", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER",
            "VT_REPO", "VT_SCALE")
    e = {k: os.environ[k] for k in keep if k in os.environ}
    e.update(PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             PYTHONHASHSEED="0", VT_EXT=extdir, VT_OUT=outdir, TMPDIR=outdir,
             MPLCONFIGDIR=os.path.join(outdir, "mpl"), PYTHONWARNINGS="ignore",
             XDG_CACHE_HOME=os.path.join(outdir, "cache"))
    if poison:
        # every block malloc hands out and takes back is filled
        e["GLIBC_TUNABLES"] = ("glibc.malloc.tcache_count=0:"
                               "glibc.malloc.perturb=85")
    if asan:
        e.update(LD_PRELOAD=":".join(asan),
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:"
                              "allocator_may_return_null=1:"
                              "detect_stack_use_after_return=1:"
                              "handle_segv=1:log_path=%s/asan" % outdir,
                 UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1:"
                               "log_path=%s/ubsan" % outdir,
                 PYTHONMALLOC="malloc")
    return e


def sh(cmd, env, timeout):
    """Run in its own process group; returns (rc, output)."""
    p = subprocess.Popen(cmd, env=env, cwd=VERIF, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")


def sanitizer_text(outdir):
    t = []
    for f in sorted(os.listdir(outdir)):
        if f.startswith(("asan.", "ubsan.")):
            t.append(open(os.path.join(outdir, f), errors="replace").read())
            os.unlink(os.path.join(outdir, f))
    return "\n".join(t)


def read_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    try:
        return run(pid, tier, seed, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run(pid, tier, seed, out, t0):
    from vt import build as b
    ext = {}
    asan = None
    replay = sys.argv[sys.argv.index("--replay") + 1] \
        if "--replay" in sys.argv else None
    try:
        ext["normal"] = b.build(os.path.join(out, "ext"))
        rc, txt = sh([PY, "-m", "vt.child", "meta", pid],
                     env_for(ext["normal"], out), 120)
        m = re.search(r"^META (.*)$", txt, re.M)
        if not m:
            print("cannot load %s (rc=%s)\n%s" % (pid, rc, txt[-3000:]))
            return 2
        meta = json.loads(m.group(1))
        if any(f["mode"] == "asan" for f in meta):
            ext["asan"] = b.build(os.path.join(out, "extasan"), True)
            asan = b.asan_runtime()
    except b.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    mode_of = {f["name"]: f["mode"] for f in meta}

    def env(mode):
        m = "asan" if mode == "asan" else "normal"
        return env_for(ext[m], out, asan if m == "asan" else None,
                       mode == "poison")

    if replay:
        d = json.load(open(replay))
        rc, txt = sh([PY, "-m", "vt.child", "replay", pid,
                      os.path.abspath(replay)], env(mode_of[d["facet"]]), 600)
        print(txt.strip()[-3000:])
        if rc == 0:
            return 0
        if rc != 3:
            print(sanitizer_text(out)[-3000:])
            print("REPLAY died, rc=%s" % rc)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1

    jobs = []
    for f in meta:
        n = f["shards"] if tier == "quick" else f["tshards"]
        for s in range(n):
            jobs.append((f, s, n))
    wall = 800 if tier == "quick" else 6 * 3600
    results, harness, bad = [], [], []

    def one(job):
        f, s, n = job
        tag = "%s-%d" % (f["name"], s)
        cmd = [PY, "-m", "vt.child", "child", pid, f["name"], out, tag, tier,
               str(seed), str(s), str(n)]
        # a mode "fork" facet runs every case in its own process
        iso = "1" if f["mode"] == "fork" else "0"
        rc, txt = sh(cmd + [iso], env(f["mode"]), wall)
        resf = os.path.join(out, tag + ".res")
        if rc == 0 and os.path.exists(resf):
            return json.load(open(resf))
        san = sanitizer_text(out) if f["mode"] == "asan" else ""
        cur = os.path.join(out, tag + ".cur")
        case = None
        if os.path.exists(cur):
            try:
                case = json.load(open(cur))
            except ValueError:
                case = None
        if rc is None:
            return {"facet": f["name"], "ok": False, "kind": "harness",
                    "text": "wall clock limit", "tb": txt[-2000:], "n": 0,
                    "nontriv": 0, "labels": {}, "samples": []}
        if case is None or rc >= 0 and not san:
            return {"facet": f["name"], "ok": False, "kind": "harness",
                    "text": "child exited %s" % rc, "tb": txt[-4000:],
                    "n": 0, "nontriv": 0, "labels": {}, "samples": []}
        from vt.engine import signame
        died = {"facet": f["name"], "ok": False, "kind": "crash",
                "case": case, "n": 1, "nontriv": 1, "labels": {},
                "samples": [],
                "text": "process died: %s" % (signame(-rc) if rc < 0 else rc),
                "tb": (san or txt)[-4000:]}
        # Same seed again with every case in its own process, so that the
        # crash can be shrunk like any other failure.
        if iso == "0":
            rc2, txt2 = sh(cmd + ["1"], env(f["mode"]), 240)
            if rc2 == 0 and os.path.exists(resf):
                r2 = json.load(open(resf))
                if not r2["ok"] and r2["kind"] != "harness":
                    r2["tb"] = (san or sanitizer_text(out))[-4000:] + r2["tb"]
                    return r2
        return died

    with concurrent.futures.ThreadPoolExecutor(
            max_workers=int(os.environ.get("VT_JOBS", "8"))) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for fu in concurrent.futures.as_completed(futs):
            r = fu.result()
            results.append(r)
            if not r["ok"]:
                (harness if r["kind"] == "harness" else bad).append(r)
                if STOP and bad:
                    for g in futs:
                        g.cancel()
                    break

    # known findings: re-confirmed on every run
    for key, what in read_known(pid):
        rc, txt = sh([PY, "-m", "vt.child", "known", pid, key],
                     env("normal"), 300)
        still = (rc is not None and rc < 0) or "STILL" in txt
        if rc not in (0, None) and rc > 0:
            print("known-finding probe %s failed: %s" % (key, txt[-500:]))
        if still:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))

    rc = 0
    # one violation per facet, the smallest case
    byf = {}
    for r in bad:
        k = r["facet"]
        if k not in byf or len(json.dumps(r["case"])) < \
                len(json.dumps(byf[k]["case"])):
            byf[k] = r
    if byf:
        rc = 1
        rdir = os.path.join(OUTDIR, "replays")
        os.makedirs(rdir, exist_ok=True)
        for k, r in sorted(byf.items()):
            path = os.path.join("replays", "%s-%s.json" % (pid, k))
            with open(os.path.join(OUTDIR, path), "w") as fo:
                json.dump({"property": pid, "facet": k, "case": r["case"],
                           "kind": r["kind"], "text": r["text"],
                           "seed": seed, "tier": tier,
                           "trace": r.get("tb", "")}, fo, indent=1)
            print("%s/%s: %s: %s" % (pid, k, r["kind"], r["text"][:1500]))
            print("  case: %s" % json.dumps(r["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
    for h in harness:
        print("HARNESS ERROR in %s/%s: %s\n%s" % (pid, h["facet"], h["text"],
                                                  h.get("tb", "")))
    if harness and rc == 0:
        rc = 2

    # evidence
    facets = {}
    for r in results:
        d = facets.setdefault(r["facet"], {"evaluations": 0,
                                           "distinct_nontrivial": 0,
                                           "classes": {}})
        d["evaluations"] += r["n"]
        d["distinct_nontrivial"] += r["nontriv"]
        for l, c in r["labels"].items():
            d["classes"][l] = d["classes"].get(l, 0) + c
    ratio = {}
    for r in results:
        for k, v in r.get("ratio", {}).items():
            ratio[k] = max(v, ratio.get(k, 0.0))
    ratio = {k: float("%.3g" % v) for k, v in sorted(ratio.items())}
    samples = []
    for f in meta:
        for r in results:
            if r["facet"] == f["name"] and r["samples"]:
                samples.append({"facet": r["facet"],
                                "case": r["samples"][len(r["samples"]) // 2]})
                break
    for d in facets.values():
        d["classes"] = dict(sorted(d["classes"].items()))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(r["n"] for r in results),
              "distinct_nontrivial": sum(r["nontriv"] for r in results),
              "rule": "; ".join("%s: %s" % (f["name"], f["rule"])
                                for f in meta),
              "samples": samples, "facets": facets,
              "largest_error_over_tolerance": ratio,
              "known_findings_excluded": [k for k, _ in read_known(pid)]},
          "assumptions": ["x86-64, gcc -O2 build of the extension from "
                          "/repo/src, numpy of /opt/venv",
                          "tolerances are stated per check in DESIGN.md"],
          "wall_s": round(time.time() - t0, 2), "violations": len(byf)}
    os.makedirs(os.path.join(OUTDIR, "evidence"), exist_ok=True)
    with open(os.path.join(OUTDIR, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d facets, "
          "%.1f s, %s" % (pid, tier, seed, ev["coverage"]["evaluations"],
                          ev["coverage"]["distinct_nontrivial"], len(facets),
                          time.time() - t0,
                          "VIOLATED" if byf else
                          ("ERROR" if rc else "held")))
    return rc


if __name__ == "__main__":
    sys.exit(main())
