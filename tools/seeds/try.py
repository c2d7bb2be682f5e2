#!/usr/bin/env python3
"""try.py [-c C01,C02|all] [SEED...]: runs the property's check (or those given) against each seeded bug, in scratch copies
of /repo and /verif. J parallel jobs. Prints what each check said."""
import json, os, shutil, subprocess, sys, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(os.path.dirname(here))
args = sys.argv[1:]; checks = None
if args[:1] == ["-c"]:
    checks = args[1].split(","); args = args[2:]
    if checks == ["all"]: checks = ["C%02d" % i for i in range(1, 35)]
ids = args or sorted(os.path.basename(d) for d in glob.glob(os.environ.get("SEEDED", top + "/seeded") + "/*"))
def one(i):
    d = os.environ.get("SEEDED", top + "/seeded") + "/" + i
    tmp = tempfile.mkdtemp(prefix="try.", dir="/tmp")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        os.mkdir(tmp + "/verif")
        for x in ("harness", "native", "reference", "run.sh", "properties.jsonl", "known-findings.txt", "MANIFEST.json"):
            subprocess.run(["cp", "-a", f"{top}/{x}", tmp + "/verif/"], check=True)
        for f in ("harness/go.mod", "run.sh"):
            p = f"{tmp}/verif/{f}"; s = open(p).read().replace("/repo", tmp + "/repo"); open(p, "w").write(s)
        subprocess.run(["chmod", "755", tmp])
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if r.returncode: return i, "patch does not apply: " + r.stderr[:200]
        for c in checks or [json.load(open(d + "/meta.json"))["property"]]:
            t = time.time()
            env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = subprocess.run(["timeout", "900", tmp + "/verif/run.sh", c, "quick"], capture_output=True, text=True, env=env, errors="replace")
            hit = f"VIOLATION property={c} " in r.stdout
            if checks and r.returncode == 0: continue
            first = [l for l in r.stdout.splitlines() if l.strip()]
            out.append(f"{c} {'CAUGHT' if r.returncode == 1 and hit else 'MISSED' if r.returncode == 0 else 'ERROR rc=%d' % r.returncode} {time.time()-t:.0f}s {first[0][:150] if r.returncode and first else ''}{r.stderr[-150:] if r.returncode not in (0,1) else ''}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return i, "; ".join(out) or "quiet"
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, r in ex.map(one, ids): print(i, "->", r, flush=True)
