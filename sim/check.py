"""Command line: run a property's simulation batch, replay a file, self-test.

  python -m sim.check C01 [--tier quick|thorough] [--runs N] [--seed S] [--workers W]
  python -m sim.check --replay FILE
  python -m sim.check --determinism C01 [--runs N]
"""
from __future__ import annotations

import argparse
import collections
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") \
    else sys.executable


def child_env(cache, hashseed="0"):
    e = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": hashseed, "MPLBACKEND": "Agg",
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "DST_REPO": REPO, "DST_CACHE": cache, "HOME": cache,
        "TMPDIR": cache, "DST_VERIF": VERIF,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
        "MPLCONFIGDIR": cache, "XDG_CACHE_HOME": cache,
    }
    return e


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, cache, hashseed="0", preload=None):
        env = child_env(cache, hashseed)
        if preload:
            env["LD_PRELOAD"] = os.path.join(VERIF, "build", preload)
        self.log = tempfile.NamedTemporaryFile("w+", dir=cache, suffix=".log",
                                               delete=False)
        self.p = subprocess.Popen(
            [PY, "-m", "sim.worker"], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, text=True,
            start_new_session=True)

    def call(self, task):
        try:
            self.p.stdin.write(json.dumps(task) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as e:
            line = ""
            err = e
        if not line:
            self.log.seek(0)
            raise WorkerDied(self.log.read()[-3000:])
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()


class Pool:
    """Order-preserving parallel map over workers."""

    def __init__(self, n, cache, hashseed="0", preload=None):
        self.workers = [Worker(cache, hashseed, preload) for _ in range(n)]

    def imap(self, tasks, stop=None):
        """Yield (index, reply); *stop()* may end hand-out early."""
        it = iter(tasks)
        lock = threading.Lock()
        out = queue.Queue()
        idx = [0]

        def loop(w):
            while True:
                with lock:
                    if stop is not None and stop():
                        break
                    try:
                        t = next(it)
                    except StopIteration:
                        break
                    k = idx[0]
                    idx[0] += 1
                try:
                    out.put((k, w.call(t)))
                except WorkerDied as e:
                    out.put((k, {"error": "worker died: " + str(e), "i": t.get("i"),
                                 "fatal": True}))
                    break
            out.put(None)
        ths = [threading.Thread(target=loop, args=(w,), daemon=True)
               for w in self.workers]
        for t in ths:
            t.start()
        left = len(ths)
        while left:
            x = out.get()
            if x is None:
                left -= 1
                continue
            yield x

    def close(self):
        for w in self.workers:
            w.close()


def warm_cache(cache):
    code = (
        "import sys,os; sys.path.insert(0, os.environ['DST_VERIF']);"
        "import numpy, pytools, pymbolic, scipy.special, scipy.linalg, scipy.optimize;"
        "sys.pycache_prefix=os.environ['DST_CACHE'];"
        "from sim import core; core.import_target();"
        "import importlib\n"
        "for m in ('xg_quad_data','vr_quad_data_tri','vr_quad_data_tet',"
        "'witherden_vincent_quad_data','jaskowiec_sukumar_tet_data'):\n"
        "    try: importlib.import_module('modepy.quadrature.'+m)\n"
        "    except ImportError: pass\n"
        "import modepy.modal_decay, modepy.quadrature.kronrod,"
        " modepy.quadrature.construction\n")
    r = subprocess.run([PY, "-c", code], env=child_env(cache), cwd=VERIF,
                       capture_output=True, text=True, timeout=300)
    return r


def build_native():
    r = subprocess.run(["sh", os.path.join(VERIF, "setup.sh")], capture_output=True,
                       text=True)
    if r.returncode:
        raise SystemExit("harness: cannot build native seam:\n" + r.stdout + r.stderr)


def sc_hash(sc):
    return hashlib.blake2b(json.dumps(sc, sort_keys=True, default=repr).encode(),
                           digest_size=8).hexdigest()


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def match_known(prop, v, findings):
    for k in findings:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        m = k["match"]
        if all(str(v.get(a)) == str(b) for a, b in m.items()):
            return k
    return None


def minimise(pool, prop_id, sc, v, budget_s=45, max_evals=600):
    """Greedy parallel shrinking: same violation kind must persist."""
    from . import core
    core_prop = core.PROPS[prop_id]
    t0 = time.monotonic()
    evals = 0
    kind = v["kind"]
    improved = True
    while improved and time.monotonic() - t0 < budget_s and evals < max_evals:
        improved = False
        cands = []
        seen = set()
        for c in core_prop.shrink(sc):
            h = sc_hash(c)
            if h in seen:
                continue
            seen.add(h)
            cands.append(c)
            if len(cands) >= 200:
                break
        best = None
        found = threading.Event()

        def stop():
            return found.is_set() or time.monotonic() - t0 > budget_s
        for k, rep in pool.imap(
                ({"prop": prop_id, "scenario": c, "i": -1, "full": True}
                 for c in cands), stop):
            evals += 1
            w = rep.get("violation")
            if w and w["kind"] == kind and (best is None or k < best[0]):
                best = (k, rep)
                found.set()
        if best is not None:
            sc, v = best[1]["scenario"], best[1]["violation"]
            improved = True
    return sc, v, evals


def load_core():
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    from . import core
    # property modules only need the harness, not modepy, at import time
    core.load_props()
    return core


def preload_of(prop_id):
    return getattr(load_core().PROPS[prop_id], "preload", None)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--determinism")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)

    build_native()
    cache = tempfile.mkdtemp(prefix="dst-")
    try:
        if a.replay:
            return do_replay(a, cache)
        if a.determinism:
            return do_determinism(a, cache)
        return do_check(a, cache)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def do_replay(a, cache):
    with open(a.replay) as f:
        d = json.load(f)
    warm_cache(cache)
    w = Worker(cache, preload=preload_of(d["property"]))
    try:
        rep = w.call({"prop": d["property"], "scenario": d["scenario"], "i": -1,
                      "full": True})
    finally:
        w.close()
    if rep.get("error") or rep.get("timeout"):
        print("harness error:", rep.get("error") or rep.get("timeout"))
        return 2
    v = rep.get("violation")
    if v:
        print(json.dumps(v, indent=1, default=repr))
        print(f"VIOLATION property={d['property']} replay={os.path.abspath(a.replay)}")
        return 1
    print("replay: property held")
    return 0


def digest(rep):
    return hashlib.blake2b(json.dumps(
        {k: rep.get(k) for k in ("scenario", "violation", "stats", "error")},
        sort_keys=True, default=repr).encode(), digest_size=12).hexdigest()


def do_determinism(a, cache):
    """Same seeds, different worker counts and hash seeds: identical logs?"""
    n = a.runs or 200
    logs = []
    for workers, hs in ((a.workers, "0"), (3, "0"), (a.workers, "123")):
        pool = Pool(workers, cache, hs, preload_of(a.determinism))
        d = {}
        for _k, rep in pool.imap({"prop": a.determinism, "seed": a.seed, "i": i,
                                  "tier": a.tier, "full": True} for i in range(n)):
            d[rep["i"]] = (digest(rep), rep)
        pool.close()
        logs.append(d)
    bad = [i for i in range(n) if len({lg[i][0] for lg in logs}) != 1]
    print(f"determinism {a.determinism}: {n} seeds x {len(logs)} configurations, "
          f"{len(bad)} differ")
    for i in bad[:3]:
        for lg in logs:
            print(i, json.dumps({k: lg[i][1].get(k) for k in
                                 ("violation", "stats", "error")}, default=repr)[:600])
    return 1 if bad else 0


def do_check(a, cache):
    t_start = time.monotonic()
    core = load_core()
    prop = core.PROPS[a.prop]
    tier = a.tier
    runs = a.runs or (prop.quick_runs if tier == "quick" else prop.thorough_runs)
    cap = float(os.environ.get("DST_CAP", "0")) or (
        600 if tier == "quick" else 6*3600)
    print(f"dst {prop.id} tier={tier} seed={a.seed} runs={runs} workers={a.workers} "
          f"repo={REPO}", flush=True)
    wr = warm_cache(cache)
    if wr.returncode:
        # the library does not even import: that is not this property's business
        print("harness error: cannot import the library:\n" + wr.stderr[-2000:])
        return 2
    findings = known_findings()
    pool = Pool(a.workers, cache, preload=preload_of(prop.id))
    stats = collections.Counter()
    sets = collections.defaultdict(set)
    hashes, samples, errors, timeouts = set(), [], [], []
    nontrivial = 0
    done = 0
    viols = []
    known_hit = {}
    t0 = time.monotonic()
    stopped = threading.Event()
    capped = [False]

    def stop():
        if time.monotonic() - t0 > cap:
            capped[0] = True
            return True
        return stopped.is_set()

    every = max(1, runs//4)
    tasks = ({"prop": prop.id, "seed": a.seed, "i": i, "tier": tier,
              "full": True} for i in range(runs))
    try:
        for _k, rep in pool.imap(tasks, stop):
            done += 1
            if rep.get("error"):
                errors.append(rep)
                if len(errors) > 5 or rep.get("fatal"):
                    stopped.set()
                continue
            if rep.get("timeout") and "scenario" not in rep:
                # while measuring a call without faults: C19's business
                errors.append(dict(rep, error=f"run {rep['i']}: a call without "
                                   f"faults did not end: {rep['timeout']}"))
                stopped.set()
                continue
            if rep.get("timeout"):
                timeouts.append(rep)
                stopped.set()
                continue
            sc, st = rep["scenario"], rep.get("stats") or {}
            for k, v in st.items():
                if isinstance(v, bool):
                    stats[k] += int(v)
                elif isinstance(v, (int, float)):
                    stats[k] += v
                elif isinstance(v, dict):
                    for kk, vv in v.items():
                        stats[f"{k}:{kk}"] += vv
                elif isinstance(v, list):
                    sets[k].update(map(str, v))
                else:
                    sets[k].add(str(v))
            if prop.nontrivial(sc, st):
                h = sc_hash(sc)
                if h not in hashes:
                    hashes.add(h)
                    nontrivial += 1
            if rep["i"] % every == 0 and len(samples) < 4:
                samples.append({"run": rep["i"], "scenario": trunc(sc), "stats": st})
            v = rep.get("violation")
            if v:
                kf = match_known(prop.id, v, findings)
                if kf is not None:
                    known_hit[kf["id"]] = kf
                    continue
                viols.append((rep["i"], rep))
                if not a.keep_going:
                    stopped.set()
                else:
                    print(f"  run {rep['i']}: {v['kind']}: {v['msg'][:200]}", flush=True)
        wall = time.monotonic() - t0

        # a run that did not come back: decide by a step budget, not by the clock
        for rep in timeouts[:2]:
            sc = dict(rep["scenario"], _budget=prop.hang_budget)
            try:
                r2 = pool.workers[0].call({"prop": prop.id, "scenario": sc, "i": rep["i"],
                                           "full": True})
            except WorkerDied as e:
                r2 = {"error": str(e)}
            if r2.get("timeout"):
                # stuck outside the interpreter: thrice in a row is not the clock
                try:
                    r2 = pool.workers[0].call({"prop": prop.id, "scenario": sc,
                                               "i": rep["i"], "full": True})
                except WorkerDied as e:
                    r2 = {"error": str(e)}
                cpu = [float(x["timeout"].split("used ")[-1].split("s")[0])
                       if "used " in (x.get("timeout") or "") else 1e9
                       for x in (rep, r2)]
                if max(cpu) < 0.05*prop.timeout:
                    # blocked, not slow
                    r2 = {"violation": {"kind": "hang", "msg": "does not end: "
                                        + r2["timeout"]}, "scenario": sc}
            if r2.get("violation"):
                r2["i"] = rep["i"]
                viols.append((rep["i"], r2))
            else:
                errors.append({"error": f"run {rep['i']} timed out: {rep['timeout']}; "
                               f"{r2.get('error') or r2.get('timeout')}; "
                               f"{json.dumps(rep['scenario'])[:1500]}"})

        ok_viol = None
        if viols:
            viols.sort(key=lambda x: x[0])
            ok_viol = next(filter(None, (
                report_violation(a, prop, pool, v[1], cache) for v in viols[:3])), None)
            if ok_viol is None:
                # seen on the real code, but something outside the simulator's
                # control (addresses, say) takes part
                ok_viol = report_violation(a, prop, pool, viols[0][1], cache, True)
    finally:
        pool.close()

    for kf in findings:
        if kf["property"] == prop.id and kf.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop.id} {kf['what']}")

    ev = {
        "property": prop.id, "tier": tier, "seed": a.seed, "level": prop.level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontrivial,
            "rule": prop.rule,
            "samples": samples or [{"note": "no run completed"}],
            "exhaustive": False,
            "simulated_runs": done,
            "runs_per_hour": round(done/max(wall, 1e-9)*3600),
            "capped_by_time": capped[0],
            "simulated_time": "no clock in the system under test; progress is counted "
                              "in executed operations / source-line events",
            "counters": {k: (round(v, 3) if isinstance(v, float) else v)
                         for k, v in sorted(stats.items())},
            "distinct": {k: len(v) for k, v in sorted(sets.items())},
            "distinct_values": {k: sorted(v)[:40] for k, v in sorted(sets.items())
                                if len(v) <= 200},
            "real_components": prop.real, "stub_components": prop.stubs,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": len(viols),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{prop.id}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)

    print(f"  {done} runs in {wall:.1f}s, {nontrivial} distinct non-trivial, "
          f"violations={len(viols)} errors={len(errors)}")
    print("  " + json.dumps(ev["coverage"]["counters"]))
    print("  distinct: " + json.dumps(ev["coverage"]["distinct"]))
    for e in errors[:3]:
        print("harness error:", e["error"])
        if e.get("scenario"):
            print("   scenario:", json.dumps(e["scenario"])[:1500])
    if ok_viol:
        print(ok_viol)
        return 1
    if viols or errors:
        return 2
    return 0


def trunc(sc):
    s = json.dumps(sc)
    return sc if len(s) < 3000 else {"truncated": s[:3000]}


def report_violation(a, prop, pool, rep, cache, unstable=False):
    sc, v = rep["scenario"], rep["violation"]
    orig, ov = sc, v
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    print(f"  run {rep['i']}: {v['kind']}: {v['msg']}", flush=True)
    evals = 0

    def rerun(s, tries=1):
        for _ in range(tries):
            try:
                r = pool.workers[0].call({"prop": prop.id, "scenario": s, "i": -1,
                                          "full": True})
            except WorkerDied:
                return None
            if r.get("violation"):
                return r["violation"]
        return None

    path = os.path.join(VERIF, "replays", f"{prop.id}-s{a.seed}-r{rep['i']}.json")
    if unstable:
        with open(path, "w") as f:
            json.dump({"property": prop.id, "verif_seed": a.seed, "run": rep["i"],
                       "tier": a.tier, "scenario": sc, "violation": v,
                       "unstable": "did not fail again in a fresh process"}, f,
                      indent=1, default=repr)
        return f"VIOLATION property={prop.id} replay={path}"
    conc = prop.concretise(sc, v) if hasattr(prop, "concretise") else None
    if conc is not None:
        w = rerun(conc)
        if w and w["kind"] == v["kind"]:
            sc, v = conc, w
    if not a.no_shrink:
        sc, v, evals = minimise(pool, prop.id, sc, v,
                                budget_s=45 if a.tier == "quick" else 300)
    for cand, cv in ((sc, v), (orig, ov), (orig, ov), (sc, v), (orig, ov)):
        d = {"property": prop.id, "verif_seed": a.seed, "run": rep["i"],
             "tier": a.tier, "scenario": cand, "violation": cv,
             "unminimised": orig, "shrink_evaluations": evals,
             "how_to_replay": f"cd /verif && python3 -m sim.check --replay {path}"}
        with open(path, "w") as f:
            json.dump(d, f, indent=1, default=repr)
        # a fresh process must fail the same way
        w = Worker(cache, preload=preload_of(prop.id))
        try:
            r = w.call({"prop": prop.id, "scenario": cand, "i": -1, "full": True})
        except WorkerDied:
            r = {}
        finally:
            w.close()
        if r.get("violation"):
            print("  " + json.dumps(r["violation"], default=repr)[:1500])
            print("  minimised scenario: " + json.dumps(cand)[:1500])
            return f"VIOLATION property={prop.id} replay={path}"
    print("harness error: violation did not replay in a fresh process "
          f"(see {path})")
    return None


if __name__ == "__main__":
    if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(
            os.path.dirname(PY))) and not os.environ.get("DST_REEXEC"):
        os.environ["DST_REEXEC"] = "1"
        os.chdir(VERIF)
        os.execv(PY, [PY, "-m", "sim.check", *sys.argv[1:]])
    sys.exit(main())
