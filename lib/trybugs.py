"""Development tool: apply each planted bug to /repo, run checks, undo. trybugs.py [id...] [--all-props]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    props = ["C%02d" % k for k in range(1, 17)] if "--all-props" in sys.argv else [prop]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for p in props:
            t = time.time()
            r = subprocess.run(["python3", V + "/check.py", p, "quick"], capture_output=True, text=True, errors="replace")
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            obl = sum(l.startswith("failed obligation") for l in r.stdout.split("\n"))
            print(i, p, "own" if p == prop else "", "rc", r.returncode, "CAUGHT" if v else "quiet", "(no input)" if v and "no-failing" in v[0] else "", "obligations:", obl, "%.0fs" % (time.time() - t), (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else "", flush=True)
            if "--bounded" in sys.argv:
                e = json.load(open(V + "/evidence/%s.json" % p)); print("   bounded:", e["coverage"]["bounded_standins"], e["coverage"]["notes"][:3])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
