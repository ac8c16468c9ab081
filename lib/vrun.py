"""Extract /repo's source, run Verus on it, and map every failure to (function, property)."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTX = os.path.join(VERIF, "extract/target/debug/rtx")
TAG = re.compile(r"//@\s*(C\d\d(?:,C\d\d)*)")


def default_owner(key):
    """the property a function's untagged obligations belong to"""
    if key.startswith("theorem "):
        return key[8:11]
    if key.startswith("Index") or key.endswith("(panics)"):
        return "C15"
    m = key.rsplit("::", 1)[-1]
    if " for " in key and key.rsplit(" for ", 1)[-1].split("::")[0] in ("Bound", "LowerBound", "UpperBound") and not key.startswith("derive"):
        return "C07"
    if m in ("is_empty", "disjoint", "intersects"):
        return "C06"
    if m in ("to_inner", "to_set"):
        return "C08"
    if m == "intersection":
        return "C01"
    if m == "union":
        return "C02"
    if m == "complement":
        return "C03"
    if key.startswith("derive(PartialEq)"):
        return "C07" if key.split(" for ")[-1] in ("Bound", "LowerBound", "UpperBound") else "C05"
    if "Bound " in key or key.endswith("Bound"):
        return "C07"
    return "C08"


def extract(src, outdir, opaque=(), probe=False, variants={}):
    os.makedirs(outdir, exist_ok=True)
    rs, js = os.path.join(outdir, "all.rs"), os.path.join(outdir, "all.json")
    op = os.path.join(outdir, "opaque.txt")
    open(op, "w").write("".join(k + "\n" for k in sorted(opaque)) + "".join("%s\t%d\n" % kv for kv in sorted(variants.items())))
    env = dict(os.environ, **({"RTX_PROBE": "1"} if probe else {}))
    try:
        p = subprocess.run([RTX, src, os.path.join(VERIF, "contracts"), rs, js, op], capture_output=True, text=True, timeout=120, env=env)
    except subprocess.TimeoutExpired:
        return None, "extraction timed out"
    if p.returncode != 0:
        return None, (p.stderr or p.stdout).strip()[-2000:]
    return rs, json.load(open(js))


class Marks:
    def __init__(self, rs):
        self.lines = open(rs).read().split("\n")
        self.fn_of = [None] * (len(self.lines) + 2)
        cur = None
        for n, l in enumerate(self.lines, 1):
            if l.startswith("//#FN "):
                cur = l[6:].split(" | ")[0].strip()
            self.fn_of[n] = cur
            if l.startswith("//#END"):
                cur = None

    def tag(self, n):
        if 1 <= n <= len(self.lines):
            m = TAG.search(self.lines[n - 1])
            if m:
                return m.group(1).split(",")
        return None


def tag_of_span(marks, s):
    """the tag on the clause a span covers (multi-line clauses carry it on their last line)"""
    for n in range(s["line_start"], s["line_end"] + 1):
        t = marks.tag(n)
        if t:
            return t
    return None


def verus(rs, extra=(), timeout=800, threads=8):
    cmd = ["verus", "--triggers-mode", "silent", "--multiple-errors", "8", "--error-format=json",
           "--output-json", "--time", "--num-threads", str(threads), *extra, rs]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b"").decode(), (e.stderr or b"").decode(), -1
    wall = time.time() - t0
    i = out.find("{")
    try:
        summary = json.loads(out[i:]) if i >= 0 else {}
    except ValueError:
        summary = {}
    diags = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return {"cmd": cmd, "rc": rc, "wall": wall, "summary": summary, "diags": diags, "stderr": err}


PROOF_MSGS = ("postcondition", "precondition", "invariant", "assertion failed", "decreases", "termination", "overflow", "underflow",
              "division", "assert", "unreachable", "possible", "requires not satisfied", "unable to prove", "recommend")
SOFT = ("rlimit", "resource limit", "timed out", "while loop: ")


def classify(marks, d, owners, front=False):
    """a Verus diagnostic as a failure record; front: Verus rejected the text before proving anything"""
    msg = d.get("message", "")
    # (spans inside vstd's own sources say nothing about our text)
    spans = [s for s in d.get("spans", []) if os.path.basename(s.get("file_name", "")) == "all.rs"]
    rend = d.get("rendered") or msg
    fn, tags, primary = None, None, None
    low = msg.lower()
    # the function at fault: where it exits (postconditions), otherwise the primary span (the call that
    # breaks a callee's precondition), never the callee
    rank = lambda s: 0 if (s.get("label") or "").startswith("at th") else 1 if s.get("is_primary") else 2
    for s in sorted(spans, key=rank):
        f = marks.fn_of[s["line_start"]] if s["line_start"] < len(marks.fn_of) else None
        if f and fn is None:
            fn = f
    # the clause that failed: a labelled span first
    lab = [s for s in spans if "failed" in (s.get("label") or "") or "precondition" in (s.get("label") or "") or "invariant" in (s.get("label") or "")]
    for s in lab + spans:
        t = tag_of_span(marks, s)
        if t:
            tags = t
            break
    kind = "proof"
    if any(x in low for x in SOFT):
        kind = "limit"
    elif front or d.get("code") or "not supported" in low or not any(x in low for x in PROOF_MSGS) or "cyclic self-reference" in low:
        # (a cycle through trait dispatch that need not be one at run time)
        kind = "compile"
    clause = None
    for s in lab:
        tx = "".join(x["text"].strip() + " " for x in s.get("text", []))
        clause = tx.strip()[:300]
        break
    loc = next((s["line_start"] for s in spans if s.get("is_primary")), None)
    owner = owners.get(fn) or (default_owner(fn) if fn else "")
    if fn and not tags:
        tags_ = [owner]
        if kind == "proof" and any(x in low for x in ("decreases", "termination", "overflow", "underflow", "precondition")):
            tags_ = ["C16"]
    else:
        tags_ = tags or []
    # panics and termination of the iterating and stepping functions belong to their own property
    if fn and owner in ("C09", "C10", "C11", "C12", "C13", "C14", "C15"):
        tags_ = [owner if t == "C16" else t for t in tags_]
    tags = list(dict.fromkeys(tags_))
    return {"kind": kind, "fn": fn, "owner": owner, "tags": tags, "tagged": bool(tags), "msg": msg, "clause": clause,
            "line": loc, "text": rend[:3000]}


def run(src, outdir, extra=(), timeout=800, opaque=(), probe=False, variants={}):
    rs, info = extract(src, outdir, opaque, probe, variants)
    if rs is None:
        return {"ok": False, "extract_error": info}
    marks = Marks(rs)
    owners = {f["key"]: f["owner"] for f in info["fns"]}
    r = verus(rs, extra, timeout)
    fails, warns = [], []
    vr = r["summary"].get("verification-results", {})
    front = bool(vr.get("encountered-vir-error")) or not vr
    for d in r["diags"]:
        if d.get("level") == "error":
            if "aborting due to" in d["message"] or d["message"].startswith("For more information"):
                continue
            fails.append(classify(marks, d, owners, front))
    return {"ok": True, "rs": rs, "info": info, "fails": fails, "results": vr, "summary": r["summary"], "wall": r["wall"],
            "rc": r["rc"], "cmd": r["cmd"], "stderr": r["stderr"]}


if __name__ == "__main__":
    src = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
    r = run(src, sys.argv[2] if len(sys.argv) > 2 else "/tmp/v/o", sys.argv[3:])
    if not r["ok"]:
        print("EXTRACT", r["extract_error"]); sys.exit(2)
    i = r["info"]
    print(len(i["fns"]), "fns; missing", i["missing"], "notes", i["notes"])
    for f in i["fns"]:
        if f["problems"]:
            print("  PROBLEM", f["key"], f["problems"])
    for f in r["fails"]:
        print(f["kind"], "|", f["fn"], "|", ",".join(f["tags"]), "|", f["msg"][:100], "|", (f["clause"] or "")[:110], "|", f["line"])
    print(r["results"], "%.1fs" % r["wall"])
