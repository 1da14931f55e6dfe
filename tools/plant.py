"""Validate planted bugs: tools/plant.py [--no-tests] [--all-checks] [--clean] ID...

For each /verif/seeded/ID: apply the patch to a copy of /repo under /tmp, build
and run the stable tests in a private mount namespace, run the demo on the clean
and the patched tree, then run the property's quick check against the copy.
"""
import json, os, shutil, subprocess, sys, time

V = "/verif"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)

def ns(scr, cmd):
    return sh(f"unshare -Urm sh -c 'mount --bind {scr} /repo && cd /repo && {cmd}'")

def main():
    args = sys.argv[1:]
    opts = {a for a in args if a.startswith("--")}
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"]) if isinstance(base["stable"], list) else set(base["stable"])
    for i in ids:
        d = f"{V}/seeded/{i}"
        if not os.path.exists(f"{d}/patch.diff"):
            continue
        meta = json.load(open(f"{d}/meta.json"))
        scr = f"/tmp/plant.{i}"
        shutil.rmtree(scr, ignore_errors=True)
        sh(f"cp -a /repo {scr}")
        demo = f"/tmp/demo.{i}"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        res = {}
        try:
            if "--no-tests" not in opts:
                p = ns(scr, f"bash {demo}/demo.sh")
                res["demo_clean"] = p.returncode
                if p.returncode: print(p.stdout[-1500:])
            p = sh(f"git -C {scr} apply {d}/patch.diff")
            if p.returncode:
                print(i, "PATCH FAILS", p.stdout); continue
            if "--no-tests" not in opts:
                p = ns(scr, f"bash /opt/vp/build.sh && bash {demo}/demo.sh")
                res["demo_patched"] = p.returncode
                res["demo_out"] = p.stdout.strip().splitlines()[-1:] 
                out = f"/tmp/plant.{i}.json"
                p = ns(scr, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {out}")
                try:
                    r = json.load(open(out))
                    passed = set(r.get("passed", []))
                    res["tests_broken"] = sorted(stable - passed)[:5]
                except Exception as e:
                    res["tests_broken"] = ["?" + repr(e) + p.stdout[-500:]]
                if os.path.exists(out): os.unlink(out)
            if "--no-check" not in opts:
                props = [meta["property"]] if "--all-checks" not in opts else \
                    [c["property"] if "property" in c else c["id"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
                for c in props:
                    t = time.time()
                    p = sh(f"cd {V} && DST_REPO={scr} VERIF_SEED=1 VERIF_TIER=quick python3 -m sim.check {c} --no-evidence --keep-going --no-shrink" if "--keep" in opts else
                           f"cd {V} && DST_REPO={scr} VERIF_SEED=1 VERIF_TIER=quick python3 -m sim.check {c} --no-evidence")
                    lines = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
                    det = p.stdout.strip().splitlines()[-4:]
                    res[c] = (p.returncode, round(time.time() - t), [x[:300] for x in (lines or det)[:2]])
            print(i, meta["property"], json.dumps(res), flush=True)
        finally:
            shutil.rmtree(scr, ignore_errors=True)
            shutil.rmtree(demo, ignore_errors=True)

main()
