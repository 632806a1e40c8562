"""Deductive leg: functions of /repo/src put under contract (proof/specs), verified by Verus.

run(pid) weaves the current sources with their contracts, builds the dependencies of the crate for
the verifier's compiler, runs the verifier on the modules the property needs, and sorts what it says:
  failed       obligations of the property's functions that the verifier refutes or cannot prove
  unavailable  why there is no verdict (source the weaver or the verifier does not take, resource limit)
"""
import fnmatch, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
PROOF = os.path.join(HERE, "proof")
sys.path.insert(0, PROOF)
import weave as weaver
from cover import COVER, EVERY

BUILD = os.path.join(HERE, "build")
REPO = "/repo"
TOOLCHAIN = "+1.98.1"

# messages of the verifier that state an obligation; all other errors are "cannot be checked"
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible (arithmetic|division|bit shift)|decreases not satisfied|could not prove termination|"
    r"cannot show invariant|loop invariant|possible bit|requires not satisfied|assert_by|unreachable|"
    r"constructed value may fail|index out of bounds|could not prove|loop ensures|divi[ds].* by zero|unable to prove")

# the verifier gave up on a function: tried again with more room
ROOM = re.compile(r"Resource limit \(rlimit\) exceeded|rlimit exceeded")


def covers(pid):
    return pid in COVER


def level(pid):
    return COVER[pid]["level"]


def technique(pid):
    return COVER[pid]["technique"]


def level_note(pid):
    return COVER[pid]["note"]


def build_deps():
    td = os.path.join(BUILD, "deps")
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS",)}
    r = subprocess.run(["cargo", TOOLCHAIN, "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "--lib", "--target-dir", td, "--message-format=json"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ext = {}
    for line in r.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            n = d["target"]["name"].replace("-", "_")
            for f in d.get("filenames", []):
                if f.endswith(".rlib"):
                    ext[n] = f
    need = ["scale_info", "external_memory_tools", "parity_scale_codec", "primitive_types", "sp_arithmetic", "substrate_crypto_light",
            "bitvec", "num_bigint", "frame_metadata", "sp_crypto_hashing", "hex"]
    miss = [n for n in need if n not in ext]
    if miss:
        raise RuntimeError("dependencies not built for the verifier: " + ", ".join(miss) + "\n" + r.stderr[-2000:])
    a = ["-L", "dependency=" + os.path.join(td, "debug", "deps")]
    for n in need:
        a += ["--extern", f"{n}={ext[n]}"]
    return a


def verus(path, deps, modules, extra=(), end=None):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "0", *extra]
    for m in modules:
        cmd += ["--verify-module", m]
    env = dict(os.environ, RUSTC_BOOTSTRAP="1")
    try:
        r = subprocess.run(cmd + deps, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=max(1, (end or time.time() + 700) - time.time()))
    except subprocess.TimeoutExpired:
        return None, [], " ".join(cmd)
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") in ("error", "error: internal compiler error"):
                diags.append(d)
        elif "panicked" in line:
            diags.append({"message": line, "spans": [], "level": "error"})
    try:
        out = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        out = None
    if out is None and not diags:
        diags.append({"message": "verifier ended with %s: %s" % (r.returncode, r.stderr[-500:]), "spans": [], "level": "error"})
    return out, diags, " ".join(cmd)


def owner(d, w, spans_too=True):
    """function of /repo the diagnostic is about"""
    best = None
    sp = list(d.get("spans", []))
    for c in d.get("children", []):
        sp += c.get("spans", [])
    sp.sort(key=lambda s: not s.get("is_primary"))
    for want_body in (True, False):
        for s in sp:
            for a, b, c, m, k in w.spans:
                if (b if want_body else a) <= s["line_start"] - 1 < c:
                    return (m, k)
    return best


def describe(d, w, lines):
    out = [d["message"].splitlines()[0]]
    for s in d.get("spans", []):
        n = s["line_start"] - 1
        where = w.o.map[n] if n < len(w.o.map) else None
        loc = f"{where[0]}" + (f":{where[1]}" if len(where) > 1 and where[1] else "") if where else "woven"
        out.append(f"    {loc}: {s.get('label') or ''}")
        out.append("        " + (lines[n].strip()[:200] if n < len(lines) else ""))
    return out


def need(pid):
    return COVER[pid]["fns"]


def in_need(pid, f):
    return any(fnmatch.fnmatchcase(f"{f[0]}:{f[1]}", p) for p in need(pid))


def scan_trusted(text):
    """every assumption in the verified text: (kind, name)"""
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:open |closed |broadcast |uninterp )*(?:proof |spec |const )?(?:fn|struct|enum) (\w+)", text):
        out.append(("external_body", m.group(1)))
    for m in re.finditer(r"#\[verifier::external_trait_specification\]\s*(?:#\[[^\]]*\]\s*)*pub trait \w+[^{]*\{\s*type ExternalTraitSpecificationFor\s*:\s*([^;]+);", text):
        out.append(("contract of the trait", re.sub(r"\s+", " ", m.group(1))))
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        out.append(("assume_specification", re.sub(r"\s+", " ", m.group(1))))
    for m in re.finditer(r"broadcast axiom fn (\w+)|(?<!broadcast )axiom fn (\w+)", text):
        out.append(("axiom", m.group(1) or m.group(2)))
    for m in re.finditer(r"\b(admit|assume)\s*\(", text):
        out.append((m.group(1), f"line {text[:m.start()].count(chr(10)) + 1}"))
    return sorted(set(out))


def run(pid, tier):
    """the woven crate of this target; where code under `target_pointer_width` matters, also that of a 32bit one"""
    res = run_on(pid, tier, 64)
    if pid in NARROW.get(tier, ()):
        b = run_on(pid, tier, 32)
        res["narrow"] = b
        res["failed"] = res["failed"] + [x + " (32bit target)" for x in b["failed"] if x not in res["failed"]]
        res["failed_text"] = res["failed_text"] + b["failed_text"]
        for f, why in b.get("gone", {}).items():
            res.setdefault("gone", {}).setdefault(f, "32bit target: " + why)
        if "unavailable" in b and not res["failed"]:
            res.setdefault("unavailable", "32bit target: " + b["unavailable"])
        if res["failed"]:
            res.pop("unavailable", None)
    return res


# checks whose functions have code for 32bit targets only
NARROW = {"quick": ("C04",), "thorough": ("C01", "C04", "C08")}


def run_on(pid, tier, width):
    os.makedirs(os.path.join(BUILD, "woven"), exist_ok=True)
    path = os.path.join(BUILD, "woven", f"{pid}.rs" if width == 64 else f"{pid}_{width}.rs")
    for n in (32, 64):
        weaver.CFG[f"target_pointer_width={n}"] = n == width
    deps = build_deps()
    end = time.time() + (420 if tier == "quick" else 1500)
    trust = {}     # functions taken on trust on this tree because they could not be checked
    # the quick tier takes the contract of some functions as discharged by the check of another property
    lent = {k: v for k, v in COVER[pid].get("lent", {}).items()} if tier == "quick" else {}
    used = COVER[pid]["modules"] if tier == "quick" else sorted(set(COVER[pid]["modules"]) | set(EVERY))
    modules = ["vx"] + used
    res = {"failed": [], "failed_text": []}
    for _ in range(12):
        w = weaver.Weaver(os.path.join(REPO, "src"), weaver.load_specs(os.path.join(PROOF, "specs")), trust=set(trust) | set(lent))
        text = w.run(os.path.join(PROOF, "specs"))
        trust.update({k: why for k, why in w.lost.items()})
        lines = text.splitlines()
        with open(path, "w") as f:
            f.write(text)
        out, diags, cmd = verus(path, deps, modules, end=end)
        if out is None and not diags:
            res["unavailable"] = "verifier: no answer in time"
            return res
        other = [d for d in diags if not OBLIGATION.search(d["message"]) and not re.match(r"aborting due to", d["message"])
                 and not ROOM.search(d["message"])]
        if not other:
            break
        new = {}
        for d in other:
            f = owner(d, w)
            if f is None or f in trust:
                continue
            new[f] = d["message"].splitlines()[0]
        if not new:
            res["unavailable"] = "verifier: " + "; ".join(x for d in other[:3] for x in describe(d, w, lines)[:3])
            return res
        trust.update(new)
    else:
        res["unavailable"] = "too many functions the verifier does not take"
        return res
    res["cmd"] = cmd
    res["lent"] = {f"{m}::{k}": v for (m, k), v in lent.items()}
    res["lent_modules"] = [m for m in EVERY if m not in modules]
    res["w"] = w
    res["out"] = out
    res["text"] = text
    gone = {f: why for f, why in trust.items() if in_need(pid, f)}
    if w.problems:
        gone.update({("", p): "contract without a function" for p in w.problems if any(p.startswith(m + ":") for m in modules)})
    if diags:
        # again with another seed and more room: an obligation counts as failed only if it fails twice
        diags = [d for d in diags if not re.match(r"aborting due to", d["message"])]
        seen = {}
        for d in diags:
            if OBLIGATION.search(d["message"]):
                seen[owner(d, w)] = 1
        runs, passed = 0, set()
        while runs < 2 and any(seen.get(owner(d, w), 0) < 2 for d in diags) and (runs == 0 or any(seen.get(owner(d, w)) == 1 for d in diags)):
            runs += 1
            todo = {owner(d, w) for d in diags if seen.get(owner(d, w), 0) < 2}
            mods = sorted({f[0] for f in todo if f and f[0]}) if all(todo) else []
            ext = ["--smt-option", f"smt.random_seed={6 * runs + 1}", "--rlimit", "150"]
            out2, diags2, _ = verus(path, deps, mods or modules, ext, end=end + 300)
            if out2 is None and not diags2:
                res["unavailable"] = "verifier: second opinion: no answer in time"
                return res
            if out2:
                bad2 = {owner(d, w) for d in diags2 if not re.match(r"aborting due to", d["message"])}
                passed |= todo - bad2
                ok2 = {(x[0], x[1]) for x in breakdown({"out": out2}) if x[3]}
                for m in out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) if out else []:
                    for x in m.get("function-breakdown", []):
                        if (m["module"], x["function"]) in ok2:
                            x["success"] = True
            for f in {owner(d, w) for d in diags2 if OBLIGATION.search(d["message"])} & todo:
                seen[f] = seen.get(f, 0) + 1
            for d in diags2:
                # in place of the report that the verifier gave up
                if OBLIGATION.search(d["message"]) and owner(d, w) in todo and not any(owner(e, w) == owner(d, w) and OBLIGATION.search(e["message"]) for e in diags):
                    diags.append(d)
        # discharged with another seed or more room: discharged
        diags = [d for d in diags if owner(d, w) not in passed]
        again = {f for f, n in seen.items() if n >= 2}
        diags = [d for d in diags if not (ROOM.search(d["message"]) and owner(d, w) in again)]
        for d in diags:
            f = owner(d, w)
            if f not in again:
                gone.setdefault(f or ("", "?"), "unstable: " + d["message"].splitlines()[0])
                continue
            if f is None:
                gone[("", "?")] = "lemma: " + " ".join(describe(d, w, lines)[:3])
                continue
            if not in_need(pid, f):
                continue
            if f in w.weak:
                gone.setdefault(f, w.weak[f] + "; without it: " + d["message"].splitlines()[0])
                continue
            name = f"{f[0]}::{f[1]}: {d['message'].splitlines()[0]}"
            if name not in res["failed"]:
                res["failed"].append(name)
            res["failed_text"] += describe(d, w, lines)
    if gone:
        res["gone"] = {f"{m}::{k}": why for (m, k), why in gone.items()}
        if not res["failed"]:
            res["unavailable"] = "; ".join(f"{k}: {v}" for k, v in list(res["gone"].items())[:5])
    n = counts(pid, res)
    if not res["failed"] and "unavailable" not in res and (n[0] == 0 or n[0] != n[1]):
        res["unavailable"] = f"{n[1]} of {n[0]} obligations discharged"
    if tier == "thorough" and width == 64 and not res["failed"] and "unavailable" not in res:
        vacuity(pid, res, deps)
    return res


def vacuity(pid, res, deps):
    """each function under contract with `assert(false)` as its first statement: all must be refused"""
    w = weaver.Weaver(os.path.join(REPO, "src"), weaver.load_specs(os.path.join(PROOF, "specs")), canary=True)
    text = w.run(os.path.join(PROOF, "specs"))
    path = os.path.join(BUILD, "woven", f"{pid}_canary.rs")
    with open(path, "w") as f:
        f.write(text)
    out, diags, _ = verus(path, deps, ["vx"] + sorted(set(COVER[pid]["modules"]) | set(EVERY)), ["--rlimit", "20"], end=time.time() + 1500)
    hit = {owner(d, w) for d in diags if OBLIGATION.search(d["message"])}
    silent = [f"{m}::{k}" for m, k, how in w.report if how == "proved" and m in COVER[pid]["modules"] and (m, k) not in hit and (m, k) not in w.no_canary]
    res["canary"] = {"refused": len(hit), "silent": silent}
    if silent:
        res["unavailable"] = "contracts that accept assert(false): " + ", ".join(silent)


def breakdown(res):
    out = []
    for m in ((res.get("out") or {}).get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            if f["mode:"] == "spec" and f["rlimit"] <= 2:
                continue
            out.append((m["module"], f["function"], f["mode:"], f["success"], f["time-micros"] / 1000.0))
    if "narrow" in res:
        out += [(m + " (32bit target)", *x) for m, *x in breakdown(res["narrow"])]
    return out


def counts(pid, res):
    b = breakdown(res)
    return len(b), sum(1 for x in b if x[3])


def coverage(pid, res):
    b = breakdown(res)
    cov = {"obligations": len(b), "discharged": sum(1 for x in b if x[3]), "checker_cmd": res.get("cmd", "not run"),
           "trusted_base": []}
    w = res.get("w")
    if w:
        fns = [(m, k, h) for m, k, h in w.report if in_need(pid, (m, k))]
        cov["functions_under_contract"] = [f"{m}::{k}" for m, k, h in fns if h == "proved"]
        cov["functions_taken_on_trust"] = [f"{m}::{k}" for m, k, h in fns if h == "trusted"]
        cov["contracts_discharged_by_other_checks"] = dict(res.get("lent", {}), **{m + "::*": "verified by the checks whose modules list it (proof/cover.py) and by the thorough tier of this one" for m in res.get("lent_modules", [])})
        cov["trusted_base"] = ["Verus and Z3", "proof/weave.py (extraction of the functions, DESIGN.md lists what it rewrites)"] + [f"{k}: {n}" for k, n in scan_trusted(res.get("text", ""))]
        cov["back_end"] = "Verus (Z3)"
        cov["solver_ms"] = round(sum(x[4] for x in b))
        cov["what_is_proved"] = COVER[pid]["proved"]
        cov["not_proved"] = COVER[pid]["rest"]
    if "gone" in res:
        cov["no_verdict_for"] = res["gone"]
    if "canary" in res:
        cov["canary"] = res["canary"]
    return cov


def assumptions(pid, res):
    return COVER[pid].get("assumptions", []) + COMMON


COMMON = [
    "machine integers and overflow are modelled exactly by the verifier; heap and stack exhaustion are not modelled",
    "the functions of dependencies (parity-scale-codec, scale-info, external-memory-tools, sp-arithmetic, bitvec, num-bigint, core, alloc) do what their contracts in proof/specs/vx.rs say",
    "external memory never reports more bytes than it has and reports a failed read as an error (contract of AddressableBuffer)",
]
