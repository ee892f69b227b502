#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property.

1. deductive part: proofs/ID*.vrs + /repo's current source -> Verus; every obligation discharged?
2. vacuity part: the same file with assert(false) at the start of every contracted body and loop:
   every one of them must fail.
3. witness part: the real code, built from /repo, driven through witness/ID.rs.
"""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gen, rs
from props import PROPS

VERIF = build.VERIF
REPO = build.REPO
CACHE = build.CACHE

PROOF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
              "assertion failed", "possible arithmetic underflow/overflow", "possible division by zero",
              "decreases not satisfied", "possible bit shift underflow/overflow", "loop invariant",
              "index out of bounds", "recommendation not met", "requires not satisfied", "unreachable",
              "decrease", "cannot show", "may not hold", "not satisfied", "condition failed",
              "cannot prove termination")
UNDECIDED_MSGS = ("rlimit", "resource limit", "timed out", "not supported", "cannot find", "unresolved")


def verus(path, rlimit, logdir=None, extra=()):
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "RUSTFLAGS"):
        e.pop(k, None)
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", "12", "--rlimit", str(rlimit)]
    if logdir:
        cmd += ["--log-dir", logdir, "--log", "smt"]
    cmd += list(extra) + ["--", "--error-format=json"]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                           cwd=CACHE, timeout=420)
    except subprocess.TimeoutExpired:
        return {"timeout": True, "diags": [], "verified": 0, "errors": 0, "smt_ms": 0, "wall": time.time() - t, "cmd": cmd}
    diags = []
    for ln in p.stderr.splitlines():
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                diags.append(d)
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    return {"timeout": False, "rc": p.returncode, "diags": diags, "verified": vr.get("verified", 0),
            "errors": vr.get("errors", 0), "vir_error": vr.get("encountered-vir-error", True),
            "have_results": bool(vr),
            "smt_ms": j.get("times-ms", {}).get("smt", {}).get("total", 0),
            "wall": time.time() - t, "cmd": cmd, "stderr": p.stderr}


def is_proof_failure(d):
    m = d["message"].lower()
    if any(x in m for x in UNDECIDED_MSGS):
        return False
    return any(x.lower() in m for x in PROOF_MSGS)


def span_of(d):
    for s in d["spans"]:
        if s["is_primary"]:
            return s
    return d["spans"][0] if d["spans"] else None


def name_obligation(d, g):
    """function + kind + text of the condition."""
    regs = [g.region_of(s["line_start"]) for s in d["spans"]]
    fn = next((r for r in regs if r), None)
    s = span_of(d)
    txt = " ".join(t["text"].strip() for t in s["text"])[:160] if s else ""
    ex = [x for x in d["spans"] if not x["is_primary"] and x["text"]]
    at = ("; at: " + ex[0]["text"][0]["text"].strip()[:120]) if ex else ""
    return "%s: %s [%s%s]" % (fn or "lemma", d["message"], txt, at)


def count_asserts(logdir):
    """Obligations as sent to the SMT solver: assertions inside check-valid queries."""
    n = 0
    for root, _, fs in os.walk(logdir):
        for f in fs:
            if f.endswith(".smt2"):
                for ln in open(os.path.join(root, f), errors="replace"):
                    if "%%location_label%%" in ln and ln.lstrip().startswith("(declare-const"):
                        n += 1
    return n


def proof_part(pid, proofs, rlimit):
    res = {"status": "proved", "files": [], "failed": [], "undecided": [], "functions": [], "obligations": 0,
           "discharged": 0, "verified_fns": 0, "smt_ms": 0, "trusted": [], "rewrites": [], "vacuity": "", "raw": ""}
    if not proofs:
        res["status"] = "none"
        return res
    wd = CACHE + "/gen"
    os.makedirs(wd, exist_ok=True)

    def one(pf):
        r = {"proof": pf}
        text = open(VERIF + "/proofs/" + pf).read()
        try:
            g = gen.Gen(REPO)
            out = g.build(text)
            gv = gen.Gen(REPO, vacuity=True)
            outv = gv.build(text)
            # the axioms themselves must be consistent
            outv = outv.replace("fn main() {}", "proof fn __canary() { assert(false); }\nfn main() {}")
        except (gen.Lost, rs.RsError) as e:
            r["lost"] = str(e)
            return r
        base = wd + "/" + pf.replace(".vrs", "")
        open(base + ".rs", "w").write(out)
        open(base + "_vac.rs", "w").write(outv)
        ld = base + "_log"
        subprocess.call(["rm", "-rf", ld])
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(verus, base + ".rs", rlimit, ld)
            b = ex.submit(verus, base + "_vac.rs", rlimit)
            r["v"], r["vac"] = a.result(), b.result()
        r["g"], r["gv"], r["out"] = g, gv, out
        r["asserts"] = count_asserts(ld)
        subprocess.call(["rm", "-rf", ld])
        return r

    with cf.ThreadPoolExecutor(4) as ex:
        rs_ = list(ex.map(one, proofs))
    for r in rs_:
        pf = r["proof"]
        if "lost" in r:
            res["undecided"].append("%s: lost anchor: %s" % (pf, r["lost"]))
            continue
        v, g = r["v"], r["g"]
        res["files"].append(pf)
        res["functions"] += g.functions
        res["rewrites"] += g.applied
        res["smt_ms"] += v["smt_ms"]
        res["verified_fns"] += v["verified"]
        res["obligations"] += r["asserts"]
        for ln in r["out"].split("\n"):
            m = re.search(r'(assume_specification\s*\[.*?\]|external_body|\bassume\(|\badmit\(|external_type_specification|axiom fn \w+|external_fn_specification)', ln)
            if m and not ln.strip().startswith("//"):
                res["trusted"].append(pf + ": " + ln.strip()[:150])
        # what an external_body marker belongs to
        ls = r["out"].split("\n")
        for i, ln in enumerate(ls):
            if "external_body" in ln and i + 1 < len(ls):
                res["trusted"].append(pf + ":   external_body on: " + " ".join(x.strip() for x in ls[i + 1:i + 2])[:140])
        if v["timeout"]:
            res["undecided"].append(pf + ": verifier timed out")
            continue
        fails = [d for d in v["diags"] if is_proof_failure(d)]
        other = [d for d in v["diags"] if not is_proof_failure(d)]
        if other or v["vir_error"] or not v["have_results"]:
            # the verifier could not read the text, or gave up: no verdict on this file
            for d in other[:6]:
                s = span_of(d)
                res["undecided"].append("%s: %s%s" % (pf, d["message"][:200], (" [" + s["text"][0]["text"].strip()[:120] + "]") if s and s["text"] else ""))
            if not other:
                res["undecided"].append(pf + ": verifier gave no verdict")
            if v["vir_error"] or not v["have_results"] or not fails:
                continue
        named = [name_obligation(d, g) for d in fails]
        res["failed"] += [pf + ": " + n for n in named]
        res["raw"] += "\n".join(d.get("rendered") or "" for d in fails)
        res["discharged"] += r["asserts"] - len(fails)
        # vacuity: every planted assert(false) must be refuted
        if not fails and not other:
            vac = r["vac"]
            hit = set()
            for d in vac["diags"]:
                s = span_of(d)
                if s and "assert(false)" in " ".join(t["text"] for t in s["text"]) and d["message"].startswith("assertion failed"):
                    hit.add((s["line_start"], s["column_start"]))
            want = r["gv"].vac_marks + 1
            res["vacuity"] += "%s: %d of %d planted false assertions refuted; " % (pf, len(hit), want)
            if len(hit) < want:
                res["undecided"].append("%s: vacuity guard: only %d of %d planted false assertions are refuted" % (pf, len(hit), want))
            if v["verified"] == 0 or r["asserts"] == 0:
                res["undecided"].append(pf + ": no obligation generated")
    if res["failed"]:
        res["status"] = "failed"
    elif res["undecided"]:
        res["status"] = "undecided"
    return res


def witness_part(pid, spec, seed, tier, scale=1.0):
    res = {"status": "none", "fails": [], "done": {}, "note": ""}
    w = spec.get("witness")
    if not w:
        return res
    try:
        libs, native = build.build_lib()
        binp = CACHE + "/wit_" + pid
        build.link(VERIF + "/witness/" + w, binp, libs, native, spec.get("externs", ()))
    except build.BuildError as e:
        res["status"] = "nobuild"
        res["note"] = str(e)[:3000]
        return res
    budget = spec.get("budget", 12) if tier == "quick" else spec.get("budget_thorough", 150)
    budget = max(4, budget * scale)
    tmp = CACHE + "/tmp_" + pid
    subprocess.call(["rm", "-rf", tmp])
    os.makedirs(tmp)
    e = dict(os.environ)
    e.update(TMPDIR=tmp, RUST_BACKTRACE="0", RUST_MIN_STACK="8388608")
    nproc = spec.get("procs", 4)
    cmd0 = [binp, "--budget", str(budget), "--hang", str(spec.get("hang", 120)),
            "--dict", build.dictionary(pid, spec.get("proofs", []))]

    def go(k, extra=()):
        d = tmp + "/p%d" % k
        os.makedirs(d, exist_ok=True)
        e2 = dict(e, TMPDIR=d)
        try:
            p = subprocess.run(cmd0 + ["--seed", str(seed + 1000 * k)] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=d, env=e2, timeout=budget * 2 + spec.get("hang", 120) + 60)
            return k, p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as t:
            return k, -99, (t.stdout or b"").decode("utf8", "replace"), ""

    with cf.ThreadPoolExecutor(nproc) as ex:
        outs = list(ex.map(go, range(nproc)))
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    seen = set()
    for k, rc, out, err in outs:
        for ln in out.splitlines():
            if ln.startswith("FAIL "):
                f = json.loads(ln[5:])
                f["seed"] = seed + 1000 * k
                if f["key"] not in seen:
                    seen.add(f["key"])
                    res["fails"].append(f)
            elif ln.startswith("DONE "):
                j = json.loads(ln[5:])
                tot["evaluations"] += j["evaluations"]
                tot["distinct_nontrivial"] += j["distinct_nontrivial"]
                if len(tot["samples"]) < 6:
                    tot["samples"] += j["samples"]
        if rc not in (0, 3):
            _, rc2, out2, err2 = go(k, ["--trace"])
            cases = re.findall(r"^CASE (\S+) (\d+)$", err2, re.M)
            if rc2 not in (0, 3) and rc2 != -99 and cases:
                res["fails"].append({"case": cases[-1][0], "case_seed": int(cases[-1][1]), "seed": seed + 1000 * k,
                                     "key": "crash:" + cases[-1][0], "input": "", "message": "process ended with status %d" % rc2})
            else:
                res["note"] += "witness process ended with %d" % rc
    subprocess.call(["rm", "-rf", tmp])
    tot["samples"] = tot["samples"][:6]
    res["done"] = tot
    res["status"] = "found" if res["fails"] else ("clean" if tot["evaluations"] else "error")
    return res


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rlimit = spec.get("rlimit", 30) * (3 if tier == "thorough" else 1)
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(proof_part, pid, spec.get("proofs", []), rlimit)
        b = ex.submit(witness_part, pid, spec, seed, tier)
        pr, wi = a.result(), b.result()
    known = load_known()
    mine = [k for k in known["findings"] if k["property"] == pid]
    knownkeys = {k["key"]: k for k in mine}
    new = [f for f in wi["fails"] if f["key"] not in knownkeys]
    # a proof that no longer goes through gets a longer search for a failing input
    if pr["status"] in ("failed", "undecided") and not new and wi["status"] == "clean" and tier == "quick":
        wi2 = witness_part(pid, spec, seed + 77, tier, scale=spec.get("escalate", 3.0))
        for f in wi2["fails"]:
            if f["key"] not in [x["key"] for x in wi["fails"]]:
                wi["fails"].append(f)
        for k in ("evaluations", "distinct_nontrivial"):
            wi["done"][k] = wi["done"].get(k, 0) + wi2["done"].get(k, 0)
        new = [f for f in wi["fails"] if f["key"] not in knownkeys]

    for k in mine:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    assumptions = list(spec.get("assumptions", []))
    violations = 0
    rc = 0
    os.makedirs(VERIF + "/replays", exist_ok=True)
    rp = VERIF + "/replays/%s.json" % pid
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        f = new[0]
        json.dump({"property": pid, "kind": "failing-input", "failures": new, "failed_obligations": pr["failed"],
                   "replay": "%s/.cache/wit_%s --dict %s/.cache/dict/%s --replay %s --case-seed %d" % (VERIF, pid, VERIF, pid, f["case"], f["case_seed"]),
                   "verifier_output": pr["raw"][:20000]}, open(rp, "w"), indent=1)
        print("input: %s" % f["input"][:1500])
        print("what happened: %s" % f["message"][:1500])
        for o in pr["failed"][:10]:
            print("failed obligation: " + o)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        violations, rc = len(new), 1
    elif pr["status"] == "failed":
        json.dump({"property": pid, "kind": "failed-obligation", "failed_obligations": pr["failed"],
                   "undecided": pr["undecided"], "verifier_output": pr["raw"][:40000],
                   "note": "no failing input was found by the witness search"}, open(rp, "w"), indent=1)
        for o in pr["failed"][:10]:
            print("failed obligation: " + o)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        violations, rc = len(pr["failed"]), 1
    else:
        if wi["status"] in ("nobuild", "error") and pr["status"] != "proved":
            print("ERROR: neither the verifier nor the bounded stand-in could be run: %s %s" % (pr["undecided"], wi["note"]))
            rc = 2
        for u in pr["undecided"]:
            print("undecided: " + u)
        if wi["note"]:
            print("note: " + wi["note"][:1500])
        print("property %s: %s" % (pid, {"proved": "every obligation discharged", "undecided": "proof undecided on this tree; bounded check found nothing",
                                         "none": "bounded check found nothing"}[pr["status"]]))
    proved = pr["status"] == "proved"
    cov = {"verdict": "violation" if violations else ("proved" if proved else "bounded"),
           "obligations": pr["obligations"], "discharged": pr["discharged"],
           "functions_under_contract": sorted(set(pr["functions"])), "verifier_functions_verified": pr["verified_fns"],
           "checker_cmd": "verus <generated from proofs/%s and %s> --rlimit %s" % (",".join(spec.get("proofs", [])), REPO, rlimit),
           "back_end": "Verus 0.2026.09.13 / its bundled Z3", "solver_ms": pr["smt_ms"],
           "trusted_base": pr["trusted"] + spec.get("trusted", []),
           "extraction_rewrites": pr["rewrites"], "vacuity_guard": pr["vacuity"],
           "undecided": pr["undecided"], "failed_obligations": pr["failed"],
           "bounded_part": dict({"what": spec.get("bounded", ""), "status": wi["status"], "note": wi["note"][:500]}, **wi["done"])}
    if not proved:
        cov["explanation"] = "the deductive part is not complete on this tree (see undecided/failed_obligations); " + spec.get("bounded", "")
    level = spec["level"] if proved or violations else "other"
    if level == "exploration" or level == "other":
        cov.setdefault("explanation", spec.get("bounded", ""))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    sys.exit(rc)


if __name__ == "__main__":
    main()
