#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates /verif/seeded/<ID>/ from the definitions in seeds_*.py and confirms each in a
scratch copy of /repo: it builds, the stable tests pass, the demonstration passes without and fails with it,
and lines of the original repository are changed."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(os.path.dirname(here))
SEEDS = {}
def seed(id, prop, needs, breaks, edits, demo, mode="plain", race=False, timeout=120):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, needs=" ".join(needs.split()), breaks=" ".join(breaks.split()), edits=edits, demo=demo, mode=mode, race=race, timeout=timeout)
for f in sorted(glob.glob(here + "/seeds_*.py")):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})

NET = "unshare -Urn sh -ec 'ip link set lo up; ip addr add 10.77.0.1/24 dev lo; ip route add broadcast 255.255.255.255 dev lo; exec \"$0\" \"$@\"' "
def run(cmd, cwd, timeout=300):
    env = dict(os.environ)
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")

def make(s):
    d = f"{top}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    kit = open(here + "/kit_test.go").read()
    shutil.copy(here + "/kit_test.go", d)
    demo = s["demo"]
    m = re.match(r"\s*//imports:(.*)\n", demo)
    imps = m.group(1).split() if m else []
    body = demo[m.end():] if m else demo
    imps = ["testing"] + imps
    open(d + "/demo_test.go", "w").write("package zzdemo\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in sorted(imps)) + ")\n\n" + body.strip() + "\n")
    subprocess.run(["gofmt", "-w", d + "/demo_test.go"], check=True)
    sh = open(here + "/demo.sh").read()
    pre = ""
    r = f'./demo -test.v -test.timeout {s["timeout"]}s'
    if s["mode"] == "net":
        r = NET + r.replace("./demo", '"$tmp/demo"')
    if s["mode"] == "real":
        pre = 'go build @RACE@ -o "$tmp/client" . || exit 3\nexport CLIENT="$tmp/client"'
        r = ("mkdir host && CLIENT=/mnt/client unshare -Urnm sh -ec 'mount --bind \"$0\" /mnt; mkdir /mnt/t; mount -t tmpfs tmpfs /tmp; mkdir /tmp/tmp; export TMPDIR=/tmp/tmp; ip link set lo up; "
             "ip addr add 10.77.0.1/24 dev lo; ip route add broadcast 255.255.255.255 dev lo; exec /mnt/demo -test.v -test.timeout %ds' \"$tmp\"" % s["timeout"])
    sh = sh.replace("@PRE@\n", pre + ("\n" if pre else "")).replace("@RUN@", r).replace("@RACE@ ", "-race " if s["race"] else "")
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)

def check(s):
    d = f"{top}/seeded/{s['id']}"
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        rc, out = run(["bash", d + "/demo.sh"], repo)
        if rc != 0:
            return f"demo fails unpatched ({rc}): {out[-1500:]}"
        for f, old, new in s["edits"]:
            t = open(f"{repo}/{f}").read()
            if t.count(old) != 1:
                return f"edit of {f}: old text occurs {t.count(old)} times: {old[:80]!r}"
            open(f"{repo}/{f}", "w").write(t.replace(old, new))
        rc, out = run(["bash", "-c", "gofmt -l . ; false; go vet ./... 2>&1 | head"], repo)
        fm = out.strip()
        _, diff = run(["git", "diff"], repo)
        open(d + "/patch.diff", "w").write(diff)
        # original lines?
        orig = mine = 0
        for f in {e[0] for e in s["edits"]}:
            _, bl = run(["git", "blame", "-s", "HEAD", "--", f], repo)
            bl = bl.splitlines()
            _, df = run(["git", "diff", "-U0", "--", f], repo)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    if bl[k-1].lstrip("^").startswith("7740755"): orig += 1
                    else: mine += 1
        rc, out = run(["go", "build", "./..."], repo)
        if rc: return "does not build: " + out[-500:]
        rc, out = run(["bash", "/opt/vp/test.sh", tmp + "/out.json"], repo)
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(tmp + "/out.json"))
        stable = base.get("stable_pass") or base.get("stable") or base.get("passed")
        passed = set(res.get("passed") or res.get("pass") or [])
        if stable is None: return f"baseline keys {list(base)} {list(res)}"
        miss = [t for t in stable if t not in passed]
        miss += list(res.get("failed") or [])
        if miss: return f"breaks existing tests: {miss[:3]}"
        fails = 0
        for i in range(3):
            rc, out = run(["bash", d + "/demo.sh"], repo)
            fails += rc != 0
        note = f"orig={orig} mine={mine}" + (f" vet/fmt: {fm}" if fm else "")
        if fails != 3: return f"demo fails only {fails}/3 patched; {note}: {out[-800:]}"
        if orig == 0: return f"NO ORIGINAL LINE CHANGED {note}"
        last = [l for l in out.splitlines() if "demo_test.go" in l or "panic:" in l or "DATA RACE" in l]
        return f"ok {note}: {(last or ['?'])[0].strip()[:160]}"
    finally:
        shutil.rmtree(tmp)

def one(i):
    try:
        make(SEEDS[i])
        return i, check(SEEDS[i])
    except Exception as e:
        return i, f"error {e!r}"
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(SEEDS)
    os.environ.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for i, r in ex.map(one, ids):
            print(i, "->", r, flush=True)
