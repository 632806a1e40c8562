#!/usr/bin/env python3
"""Check of one property: check.py C01 [--tier quick|thorough]

Deductive leg (proof/): functions under contract, extracted from /repo/src on this run, go through
Verus. Concrete leg (search/): the same property on the real crate, to find a failing input.
Exit 0: held; exit 1: VIOLATION line printed; 2: the check itself could not run.
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
T0 = time.time()

# cases of the concrete leg on the quick tier, about ten seconds each
QUICK = dict(C01=400000, C02=2000000, C03=2000000, C04=1500000, C05=2000000, C06=400000, C07=500000,
             C08=400000, C09=600000, C10=500000, C11=500000, C12=250000, C13=300000, C14=300000,
             C15=500000, C16=350000, C17=600000, C18=6000, C19=300000, C20=80000)
QUICK_S, THOROUGH_S = 20, 240


def say(*a):
    print(*a, flush=True)


def findings():
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: (\S+) property=(\S+) (.*)", line)
            if m:
                out[m.group(1)] = (m.group(2), m.group(3).strip())
    return out


def build_search():
    """Build the concrete leg from /repo's tree."""
    man = os.path.join(HERE, "search", "Cargo.toml")
    # without the hook if the tree does not build with it: it names private functions
    for flags in ("--cfg substrate_parser_verif", ""):
        env = dict(os.environ, RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(BUILD, "search"))
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "substrate_parser"], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", man], env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            break
    if r.returncode != 0:
        return None, r.stdout
    return os.path.join(BUILD, "search", "debug", "verif_search"), r.stdout


def run_case_range(exe, pid, seed, start, cases, threads, seconds, out, mem_gb=24):
    cmd = [exe, "--property", pid, "--seed", str(seed), "--start", str(start), "--cases", str(cases),
           "--threads", str(threads), "--seconds", str(seconds), "--out", out,
           "--source", os.path.join(REPO, "src")]

    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           preexec_fn=limit, timeout=seconds + 150)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, "no answer"


def search(exe, pid, seed, tier, res):
    """Concrete leg. Fills res: report, violation."""
    rep = os.path.join(BUILD, f"{pid}.search.json")
    for f in os.listdir(BUILD):
        if f.startswith(f"{pid}.search.json"):
            os.remove(os.path.join(BUILD, f))
    n = QUICK[pid] if tier == "quick" else 10**9
    secs = QUICK_S if tier == "quick" else THOROUGH_S
    threads = 8
    rc, text = run_case_range(exe, pid, seed, 0, n, threads, secs, rep)
    res["search_rc"] = rc
    if rc in (0, 1) and os.path.exists(rep):
        res["report"] = json.load(open(rep))
        res["violation"] = res["report"]["violation"]
        if res["violation"]:
            res["violation"]["seed"] = seed
        return
    # the process died: find the case
    for t in range(threads):
        p = f"{rep}.at{t}"
        if not os.path.exists(p):
            continue
        case = open(p).read().strip()
        if not case:
            continue
        case = int(case)
        one = rep + ".one"
        rc1, text1 = run_case_range(exe, pid, seed, case, 1, 1, 60, one, mem_gb=16)
        if rc1 in (0,):
            continue
        if rc1 == 1 and os.path.exists(one):
            res["violation"] = json.load(open(one))["violation"]
            if res["violation"]:
                res["violation"]["seed"] = seed
                return
            continue
        what = "the decoder gives no answer" if rc1 == -999 else f"the process is ended ({signal.Signals(-rc1).name if rc1 < 0 else rc1})"
        res["violation"] = {"case": case, "seed": seed, "what": what, "detail": text1[-3000:].splitlines()}
        return
    res["error"] = f"concrete leg ended with {rc}: {text[-2000:]}"


def assumed(exe, seed, tier):
    """Contracts assumed of dependencies, tried on the dependencies (search/src/trust.rs)."""
    rep = os.path.join(BUILD, "trust.json")
    if os.path.exists(rep):
        os.remove(rep)
    rc, text = run_case_range(exe, "trust", seed, 0, 700000 if tier == "quick" else 20000000, 8, 60, rep)
    if rc not in (0, 1) or not os.path.exists(rep):
        return {"evaluations": 0, "false": f"their search ended with {rc}: {text[-300:]}"}
    r = json.load(open(rep))
    v = r["violation"]
    why = v["what"] if v else "; ".join(r["harness_panics"][:1])
    return {"evaluations": r["evaluations"], "kinds": r["kinds"], "false": why}


def write_replay(pid, name, obj):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{name}.txt")
    with open(p, "w") as f:
        f.write(obj)
    return p


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, f"{pid}.json")
    if os.path.exists(ev):
        os.remove(ev)

    proof = None
    sys.path.insert(0, HERE)
    try:
        import deduct as proof_leg
    except ImportError:
        proof_leg = None
    pres = {}
    th = None
    if proof_leg and proof_leg.covers(pid):
        def go():
            try:
                pres.update(proof_leg.run(pid, tier))
            except Exception as e:  # the deductive leg could not run
                import traceback
                pres["unavailable"] = traceback.format_exc()
        th = threading.Thread(target=go)
        th.start()

    exe, text = build_search()
    res = {}
    tried = {"evaluations": 0, "false": ""}
    if exe is None:
        res["error"] = text[-6000:] + f"\n{pid}: the concrete leg does not build"
    else:
        search(exe, pid, seed, tier, res)
        tried = assumed(exe, seed, tier)
    if th:
        th.join()
    if tried["false"] and pres:
        # a proof from a false premise is none
        for k in ("failed", "failed_text"):
            pres.pop(k, None)
        pres["unavailable"] = "an assumed contract is not what the dependency does: " + tried["false"]
    if "error" in res:
        say(res["error"])
        if not pres.get("failed"):
            return 2

    rep = res.get("report") or {}
    listed = findings()
    viol = res.get("violation")
    for k in rep.get("known", []):
        if k["id"] in listed and listed[k["id"]][0] == pid:
            say(f"KNOWN-FINDING: property={pid} {k['id']}: {listed[k['id']][1]} (seen {k['times']} times)")
        elif not viol:
            viol = {"case": k["case"], "seed": seed, "what": k["what"], "detail": k["detail"]}
    hp = rep.get("harness_panics", [])
    if len(hp) * 100 > rep.get("evaluations", 0) and not viol:
        # none on a tree where the property holds
        viol = {"case": int(re.search(r"\d+", hp[0]).group()), "seed": seed, "detail": hp[:20],
                "what": f"values the comparison takes for impossible, in {len(hp)} of {rep.get('evaluations', 0)} cases"}
    if hp:
        say(f"{len(hp)} cases not evaluated, the concrete leg itself failed on them, first: {hp[0]}")

    violations = 0
    line = None
    if viol:
        violations += 1
        p = write_replay(pid, "input", "\n".join(
            [f"property {pid}: {viol['what']}", f"again: {exe} --property {pid} --seed {viol['seed']} --start {viol['case']} --cases 1",
             ""] + list(viol["detail"]) + [""] + pres.get("failed_text", [])) + "\n")
        say(f"{pid}: {viol['what']}")
        for d in viol["detail"][:20]:
            say("   ", d[:600])
        line = f"VIOLATION property={pid} replay={p}"
    elif pres.get("failed"):
        violations += len(pres["failed"])
        p = write_replay(pid, "obligation", "\n".join(
            [f"property {pid}: obligations not discharged: " + ", ".join(pres["failed"]), ""] + pres.get("failed_text", [])) + "\n")
        for f in pres["failed"]:
            say(f"{pid}: obligation not discharged: {f}")
        line = f"VIOLATION property={pid} replay={p} no-failing-input-found"

    cov = {}
    level = "exploration"
    assumptions = []
    if proof_leg and proof_leg.covers(pid):
        level = "exploration" if pres.get("unavailable") else proof_leg.level(pid)
        cov.update(proof_leg.coverage(pid, pres))
        assumptions = proof_leg.assumptions(pid, pres)
        cov["assumed_contracts_tried"] = {"bounded": True, "evaluations": tried["evaluations"], "contracts": tried.get("kinds", {})}
        if pres.get("unavailable"):
            say(f"{pid}: deductive leg gave no verdict on this tree, bounded stand-in only: {pres['unavailable'].strip().splitlines()[-1][:300]}")
    cov.update({
        "evaluations": rep.get("evaluations", 0),
        "distinct_nontrivial": rep.get("distinct_nontrivial", 0),
        "rule": "bounded stand-in on the compiled crate: each case is a registry, bytes and settings drawn from seed and case number; "
                "non-trivial are those that reached the content the property is about, counted by hash of that content (search/src/props*.rs)",
        "samples": [s[:400] for s in rep.get("samples", [])][:3] or ["none"],
        "kinds": rep.get("kinds", {}),
        "harness_failures": len(hp),
    })
    e = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
         "wall_s": round(time.time() - T0, 1), "violations": violations}
    with open(ev, "w") as f:
        json.dump(e, f, indent=1)
    if line:
        say(line)
        return 1
    say(f"{pid}: held, {rep.get('evaluations', 0)} cases on the compiled crate" +
        (f", {cov.get('discharged', 0)} of {cov.get('obligations', 0)} obligations discharged" if "obligations" in cov else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
