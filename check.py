#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decide one property of /repo's current tree.

1. Extract /repo/src mechanically, join it with the contracts in /verif/contracts and let
   Verus discharge every obligation (deciding step).
2. Run the concrete searcher (/verif/search, built against /repo) for a failing input.

Verdict: a concrete failing input, or a failed obligation that carries this property's
tag, is a VIOLATION; everything else is exit 0. See DESIGN.md.
"""
import concurrent.futures as cf
import json, os, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vrun
from props import SUPPORT, LEVEL, ASSUME, TRUSTED, LEMMAS

SRC = "/repo/src"
MAXOPAQUE = 8


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- builds
def build_rtx():
    p = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "extract/Cargo.toml")])
    if p.returncode != 0:
        log(p.stderr[-3000:])
        log("ERROR: the extractor does not build")
        sys.exit(3)


def build_search(work):
    td = os.path.join(work, "target")
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "search/Cargo.toml"), "--target-dir", td]
    p = sh(cmd)
    if p.returncode != 0:
        return None, p.stderr[-4000:]
    # the crate as release builds run it: no overflow checks, no debug assertions
    q = sh(cmd + ["--profile", "nodebug"])
    return [os.path.join(td, "debug/search")] + ([os.path.join(td, "nodebug/search")] if q.returncode == 0 else []), None


# ---------------------------------------------------------------- verifier
def verify(work, src, extra=()):
    """run Verus; functions whose text the verifier cannot take are put aside (contract assumed,
    bounded stand-in) so that the rest is still decided"""
    opaque, why, variants = set(), {}, {}
    r, reset, t0 = None, False, time.time()
    for rnd in range(12):
        r = vrun.run(src, os.path.join(work, "v"), extra=extra, opaque=opaque, variants=variants)
        if not r["ok"]:
            return r, opaque, why, variants
        recs = {f["key"]: f for f in r["info"]["fns"]}
        new = {}
        for f in r["info"]["fns"]:
            lost = [p for p in f["problems"] if p != "no contract"]
            if lost and f["key"] not in opaque:
                new[f["key"]] = "; ".join(lost)
        bump = set()
        comp = [f for f in r["fails"] if f["kind"] == "compile"]
        if not new:
            for f in comp:
                if f["fn"] and f["fn"] not in opaque:
                    if recs.get(f["fn"], {}).get("more"):
                        bump.add(f["fn"])
                    else:
                        new[f["fn"]] = "not accepted by the verifier: " + f["msg"][:200]
        if not new and not comp and not reset and time.time() - t0 < 240:
            # another set of loop invariants fits this way of writing the function too
            bump |= {f["fn"] for f in r["fails"] if recs.get(f["fn"], {}).get("more") and f["fn"] not in opaque}
        for k in bump:
            variants[k] = recs[k]["variant"] + 1
        if rnd == 11:
            break
        if not new and not bump:
            # no set fits: report the failure under the set written for the code as it was
            back = [k for k in {f["fn"] for f in r["fails"]} if k in variants and k not in opaque]
            if comp or reset or not back:
                break
            reset = True
            for k in back:
                variants.pop(k)
            continue
        why.update(new)
        opaque |= set(new)
        if len(opaque) > MAXOPAQUE:
            break
    return r, opaque, why, variants


def fkey(f):
    return (f["fn"], f["msg"], f["clause"], tuple(f["tags"]))


def stable_fails(work, src, r, opaque, variants):
    """a failure counts only if it survives other solver seeds and a larger resource limit"""
    fails = [f for f in r["fails"] if f["kind"] in ("proof", "limit")]
    runs = 1
    for seed in (7, 23):
        if not fails:
            break
        r2 = vrun.run(src, os.path.join(work, "v2"), extra=["--rlimit", "30", "--smt-option", "smt.random_seed=%d" % seed], opaque=opaque, variants=variants)
        runs += 1
        if not r2["ok"] or any(f["kind"] == "compile" for f in r2["fails"]):
            continue
        still = {f["fn"] for f in r2["fails"]}
        # a function proved under any seed is proved
        fails = [f for f in fails if f["fn"] in still or f["fn"] is None]
        hard = {fkey(f) for f in r2["fails"] if f["kind"] == "proof"}
        for f in fails:
            if f["kind"] == "limit":
                m = [g for g in r2["fails"] if g["fn"] == f["fn"] and g["kind"] == "proof"]
                if m:
                    f.update(m[0])
    return fails, runs


# ---------------------------------------------------------------- search
def limit():
    """broken code may allocate without end"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run_search(binary, prop, tier, seed, out, timeout):
    """-> dict(found|None, cases, note)"""
    trace = out + ".trace"
    try:
        p = sh([binary, prop, tier, str(seed), out], timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return {"found": None, "cases": 0, "skipped": 0, "explored": [], "note": "stopped after %d s" % timeout, "seed": seed}
    if p.returncode in (0, 1) and os.path.exists(out):
        d = json.load(open(out, errors="replace"))
        d["seed"] = seed
        return d
    # hang, abort or stack overflow: find out on which case
    try:
        q = sh([binary, prop, tier, str(seed), out, trace], timeout=timeout * 3 + 60, preexec_fn=limit)
        rc = q.returncode
    except subprocess.TimeoutExpired:
        rc = None
    last = open(trace, errors="replace").read() if os.path.exists(trace) else ""
    if rc == 42 and last:
        return {"found": {"input": last, "observed": "does not terminate within 20 s"}, "cases": 0, "skipped": 0, "explored": [], "seed": seed}
    if rc is not None and rc not in (0, 1, 42) and last:
        return {"found": {"input": last, "observed": "the process died (exit status %s: abort, stack overflow or memory exhaustion)" % rc}, "cases": 0, "skipped": 0, "explored": [], "seed": seed}
    if rc in (0, 1) and os.path.exists(out):
        d = json.load(open(out, errors="replace"))
        d["seed"] = seed
        return d
    return {"found": None, "cases": 0, "skipped": 0, "explored": [], "note": "search ended with status %s" % p.returncode, "seed": seed}


def search_many(binary, work, prop, tier, seeds, timeout):
    res = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        jobs = [(0, s) for s in seeds] + [(1, s) for s in seeds[:1] if len(binary) > 1]
        fs = [ex.submit(run_search, binary[b], prop, tier, s, os.path.join(work, "s-%s-%s-%d-%d.json" % (prop, tier, s, b)), timeout) for b, s in jobs]
        for (b, _), f in zip(jobs, fs):
            try:
                d = f.result()
            except Exception as e:  # the searcher never decides by failing
                d = {"found": None, "cases": 0, "skipped": 0, "explored": [], "note": "searcher: %r" % e, "seed": 0}
            d["profile"] = ("dev", "nodebug")[b]
            d["tier"] = tier
            res.append(d)
    return res


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=os.path.join(VERIF, "out"))
    try:
        rc = decide(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, t0, work):
    src = SRC
    ex = cf.ThreadPoolExecutor(max_workers=1)
    fb = ex.submit(build_search, work)
    build_rtx()
    r, opaque, why, variants = verify(work, src)
    binary, berr = fb.result()
    if binary is None:
        p = sh(["cargo", "check", "--offline", "--manifest-path", "/repo/Cargo.toml", "--target-dir", os.path.join(work, "t2")])
        if p.returncode != 0:
            log(p.stderr[-2000:])
            log("ERROR: /repo does not build")
            return 3
        log("note: the searcher does not build against this tree; only the verifier decides")

    # ---- verifier verdict
    notes, mine, others, bounded = [], [], [], {}
    fns, verified_all, accepted = [], False, False
    runs = 1
    if not r["ok"]:
        notes.append("extraction failed: " + r["extract_error"][-600:])
    else:
        fns = r["info"]["fns"]
        comp = [f for f in r["fails"] if f["kind"] == "compile"]
        if comp or not r["results"]:
            notes.append("verifier could not run on this tree: " + (comp[0]["msg"] if comp else r["stderr"][-600:]))
            fails = []
        else:
            fails, runs = stable_fails(work, src, r, opaque, variants)
            verified_all, accepted = not fails, True
        prob = {f["key"] for f in fns if f["problems"]}
        for f in fails:
            # a loop rewritten into another shape, checked against the invariants kept for such
            # shapes: those are a best effort, so a failure there is no verdict on the code
            reshaped = any(g["key"] == f["fn"] and g["reshaped"] for g in fns)
            if f["kind"] == "limit" or f["fn"] in prob or reshaped:
                bounded[f["fn"]] = f["msg"]
            elif prop in f["tags"]:
                mine.append(f)
            else:
                others.append(f)
        for k in r["info"]["missing"]:
            notes.append("contract without a function in this tree: " + k)
        notes += r["info"]["notes"]
    for k, w in why.items():
        bounded[k] = w

    # ---- concrete search
    searches, found = [], None
    if binary:
        seeds = [seed] if tier == "quick" else [seed, seed + 1000, seed + 2000, seed + 3000]
        searches += search_many(binary, work, prop, tier, seeds, 200 if tier == "quick" else 1500)
        found = next((s for s in searches if s.get("found")), None)
        own_bounded = [k for k in bounded] or not r["ok"] or notes
        if not found and (mine or (own_bounded and tier == "quick")):
            extra = search_many(binary, work, prop, "thorough", [seed + 17 * i for i in range(1, 7)], 260)
            searches += extra
            found = next((s for s in extra if s.get("found")), None)
    explained = []
    if mine and not found and binary:
        # an obligation shared by several properties: is the failure another property's?
        sib = sorted({t for f in mine for t in f["tags"] if t != prop})
        for s in sib:
            q = search_many(binary, work, s, "thorough", [seed, seed + 17, seed + 34], 200)
            h = next((x for x in q if x.get("found")), None)
            if h:
                explained.append((s, h["found"]))
        if explained:
            ok = {s for s, _ in explained}
            rest = [f for f in mine if not (set(f["tags"]) & ok)]
            others += [f for f in mine if set(f["tags"]) & ok]
            mine = rest

    # ---- vacuity guard (thorough): with assert(false) at the top, every function must fail
    vac = None
    if tier == "thorough" and r["ok"] and verified_all and not found:
        pr = vrun.run(src, os.path.join(work, "probe"), opaque=opaque, probe=True, variants=variants)
        if pr["ok"]:
            hit = {f["fn"] for f in pr["fails"] if "assertion failed" in f["msg"]}
            want = {f["key"] for f in pr["info"]["fns"] if f["file"] != "derive" and f["key"] not in opaque}
            vac = {"functions_probed": len(want), "contradictory": sorted(want - hit)}
            if want - hit:
                notes.append("VACUOUS precondition in: " + ", ".join(sorted(want - hit)))
        for s in (3, 11, 31):
            r3 = vrun.run(src, os.path.join(work, "st"), extra=["--smt-option", "smt.random_seed=%d" % s], opaque=opaque, variants=variants)
            notes.append("stability: solver seed %d: %s" % (s, "all obligations discharged" if r3["ok"] and not r3["fails"] else "%d failures" % len(r3.get("fails", []))))

    # ---- report
    violations = 0
    replay = os.path.join(VERIF, "out", "replay-%s.json" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    if found or mine:
        violations = 1
        d = {"property": prop, "failed_obligations": [{k: f[k] for k in ("fn", "tags", "msg", "clause", "text")} for f in mine]}
        if found:
            d["failing_input"] = found["found"]["input"]
            d["observed"] = found["found"]["observed"]
            d["how_to_rerun"] = "cargo run --offline --manifest-path /verif/search/Cargo.toml --profile %s -- %s %s %d OUT.json (deterministic; the first failing case is the one above)" % (found["profile"], prop, found["tier"], found["seed"])
        else:
            d["verifier_cmd"] = " ".join(r["cmd"])
            d["note"] = "no failing input found by %d concrete cases; the failed obligations above are the violation" % sum(s["cases"] for s in searches)
        json.dump(d, open(replay, "w"), indent=1)
        for f in mine:
            log("failed obligation: %s in %s: %s" % (",".join(f["tags"]), f["fn"], f["msg"]))
            if f["clause"]:
                log("    clause: " + f["clause"])
        if found:
            log("failing input: %s" % found["found"]["input"])
            log("observed: %s" % found["found"]["observed"])
        log("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
    kf = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(kf):
        if l.startswith("known: property=%s " % prop):
            log("KNOWN-FINDING: " + l[len("known: "):].strip())

    # ---- evidence
    owner = {f["key"]: f["owner"] or vrun.default_owner(f["key"]) for f in fns}
    tagged = {}
    if r["ok"] and os.path.exists(r["rs"]):
        m = vrun.Marks(r["rs"])
        for n in range(1, len(m.lines) + 1):
            t = m.tag(n)
            if t and prop in t:
                tagged.setdefault(m.fn_of[n], 0)
                tagged[m.fn_of[n]] += 1
    own = [k for k in owner if owner[k] == prop or k in tagged]
    sup = [k for k in owner if owner[k] in SUPPORT[prop] and k not in own]
    badfn = {f["fn"] for f in mine + others} | set(bounded) | opaque
    scope = own + sup
    ran = bool(fns) and accepted
    failed_all = [k for k in scope if k in badfn] if ran else scope
    lem_ok = lem_all = 0
    smt_ms = 0
    if ran:
        smt = r["summary"].get("times-ms", {}).get("smt", {})
        smt_ms = smt.get("smt-run", 0)
        for mod in smt.get("smt-run-module-times", []):
            if mod["module"] in ("specs", "shim"):
                for q in mod["function-breakdown"]:
                    lem_all += 1
                    lem_ok += bool(q["success"])
    status = "proved" if ran and not failed_all and not mine else ("violated" if violations else "bounded")
    explanation = {
        "proved": "every obligation of the functions in scope was discharged by Verus on this run",
        "violated": "see the VIOLATION line",
        "bounded": "some functions in scope were taken at their contract (listed under bounded_standins); for those only the concrete search speaks",
    }[status]
    if not ran:
        explanation = "the verifier could not take this tree (see notes): nothing is claimed from the proof, only the concrete search speaks"
    cov = {
        "obligations": len(scope) + lem_all,
        "discharged": (len(scope) - len(failed_all) if ran else 0) + lem_ok,
        "checker_cmd": " ".join(r["cmd"]) if r["ok"] else "rtx (extraction failed)",
        "trusted_base": TRUSTED + ASSUME.get(prop, []),
        "obligation_unit": "one verification condition per function or lemma (all its postconditions, invariants, callee preconditions, overflow and termination checks)",
        "status": status,
        "explanation": explanation,
        "functions_under_contract_own": own,
        "functions_under_contract_supporting": len(sup),
        "clauses_tagged_with_property": sum(tagged.values()),
        "lemmas": LEMMAS.get(prop, []),
        "crate_wide_verified_queries": (r.get("results") or {}).get("verified", 0) if r["ok"] else 0,
        "crate_wide_functions_extracted": len(fns),
        "solver": "Z3 via Verus", "solver_ms_crate_wide": smt_ms, "verus_wall_s": round(r.get("wall", 0), 1), "verus_runs": runs,
        "bounded_standins": bounded,
        "failed_obligations_of_this_property": [fkey(f)[:3] for f in mine],
        "failed_obligations_of_other_properties": [[f["fn"], f["msg"], f["tags"]] for f in others][:40],
        "explained_by_other_property": [[s, h["input"][:400]] for s, h in explained],
        "extraction_dropped": r["info"]["dropped"] if r["ok"] else [],
        "extraction_renamed": r["info"]["renamed"] if r["ok"] else [],
        "notes": notes,
        "vacuity_probe": vac,
        "concrete_search": {"label": "bounded, supporting only", "evaluations": sum(s["cases"] for s in searches), "runs": [[s.get("profile"), s.get("tier"), s.get("seed")] for s in searches],
                            "explored": searches[0].get("explored", []) if searches else [], "build_error": berr},
    }
    if LEVEL[prop] != "proof":
        cov["evaluations"] = cov["concrete_search"]["evaluations"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL[prop], "coverage": cov, "assumptions": ASSUME.get(prop, []) + TRUSTED,
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %s (%s); %d functions in scope, %d set aside, %d obligations crate-wide; %d concrete cases; %.0f s" % (
        prop, "VIOLATED" if violations else "held", status, len(scope), len([k for k in scope if k in badfn]), cov["crate_wide_verified_queries"], cov["concrete_search"]["evaluations"], time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
