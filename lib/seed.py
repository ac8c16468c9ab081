"""Development tool: make and confirm one planted bug.
   seed.py SPECFILE   (python file defining BUGS = [dict(id, property, file, old, new, needs, breaks, demo)])
Each bug is applied in a scratch copy of /repo, built, tested, its demo run with and without; kept as /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the demonstrated behaviour is right; non-zero: it is broken. Run with cwd = the repository.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
rustc --edition 2021 --cap-lints allow --crate-type rlib --crate-name rangetools -C debug-assertions=on -C overflow-checks=on --out-dir "$w" src/lib.rs || exit 90
rustc --edition 2021 --cap-lints allow -C debug-assertions=on -C overflow-checks=on --extern rangetools="$w/librangetools.rlib" -o "$w/demo" "$here/demo.rs" || exit 91
timeout 60 "$w/demo"
'''
def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
def main():
    only = sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])["BUGS"]:
        if only and b["id"] not in only: continue
        w = "/tmp/seedwork"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        r = w + "/repo"
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        ok = True
        for f, o, n in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(o) < 1 or (s.count(o) > 1 and not b.get("nth")):
                print(b["id"], "PATTERN", s.count(o)); ok = False; break
            if b.get("nth"):
                parts = s.split(o); k = b["nth"]
                s = o.join(parts[:k]) + n + o.join(parts[k:])
            else: s = s.replace(o, n)
            open(p, "w").write(s)
        if not ok: continue
        d = os.path.join(w, "s"); os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write("#![allow(unused)]\n" + b["demo"].strip() + "\n")
        diff = run("git diff", r).stdout
        t = run("cargo test --offline 2>&1 | grep -E '^test result|FAILED|^error|failed$' | sort | uniq -c | head -12", r)
        fails = [l for l in t.stdout.split("\n") if "FAILED" in l or "error" in l]
        c = run("bash %s/demo.sh" % d, "/repo"); x = run("bash %s/demo.sh" % d, r)
        good = not fails and c.returncode == 0 and x.returncode not in (0, 90, 91)
        print(b["id"], b["property"], "KEPT" if good else "REJECTED", "tests:", "ok" if not fails else fails[:3], "demo clean/patched:", c.returncode, x.returncode, "" if good else (c.stderr + x.stderr)[-300:])
        if good:
            k = os.path.join(V, "seeded", b["id"]); shutil.rmtree(k, ignore_errors=True); os.makedirs(k)
            for f in ("demo.sh", "demo.rs"): shutil.copy(d + "/" + f, k)
            open(k + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(k + "/meta.json", "w"), indent=1)
        shutil.rmtree(w, ignore_errors=True)
main()
