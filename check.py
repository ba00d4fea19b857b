#!/usr/bin/env python3
"""Decide one property of /repo: check.py ID [quick|thorough]

Each run expands /repo's current source, extracts the functions under contract mechanically
(extract/), lets Verus discharge every obligation, and replays the bounded searches of witness/
(and Kani's harnesses of kani/) against the real code.  See DESIGN.md for the outcome policy."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
CFG = json.load(open(f"{V}/checks.json"))
T0 = time.time()
BUDGET = 850.0


def env(tmp):
    e = {k: v for k, v in os.environ.items() if k not in ("MACROTEST", "TRYBUILD", "RUSTFLAGS")}
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", TERM="dumb",
             CARGO_TARGET_DIR=f"{tmp}/target",
             PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))
    return e


def run(cmd, tmp, timeout, cwd=None, **kw):
    timeout = max(5, min(timeout, BUDGET - (time.time() - T0)))
    e = env(tmp)
    e.update(kw.pop("env", {}))
    try:
        p = subprocess.run(cmd, cwd=cwd or tmp, env=e, timeout=timeout, capture_output=True, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return -99, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timed out"


class Shared:
    """The inputs all units share: the crate copy, the expanded source, the extractor."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.lock = threading.Lock()
        shutil.copytree(f"{V}/witness", f"{tmp}/witness", ignore=shutil.ignore_patterns("target"))

    def extractor(self):
        shutil.copytree(f"{V}/extract", f"{self.tmp}/extract", ignore=shutil.ignore_patterns("target"))
        rc, o, e = run(["cargo", "build", "--offline", "-q"], self.tmp, 300, cwd=f"{self.tmp}/extract",
                       env={"CARGO_TARGET_DIR": f"{self.tmp}/xtarget"})
        if rc != 0:
            raise RuntimeError("extractor does not build: " + e[-2000:])

    def expand(self):
        rc, o, e = run(["cargo", "rustc", "--offline", "-q", "-p", "teleparse", "--lib", "--profile", "dev", "--", "-Zunpretty=expanded"],
                       self.tmp, 400, cwd=f"{self.tmp}/witness", env={"RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": f"{self.tmp}/etarget"})
        if rc != 0 or "mod lex" not in o:
            raise RuntimeError("expansion failed: " + e[-2000:])
        open(f"{self.tmp}/exp.rs", "w").write(o)

    def instances(self, unit):
        """the derived lexicons of witness/src/lexicons.rs, as the derive macros of /repo write them now"""
        if "instances" not in json.load(open(f"{V}/specs/{unit}.json")):
            return []
        out = f"{self.tmp}/lexexp.rs"
        with self.lock:
            if not os.path.exists(out):
                rc, o, e = run(["cargo", "rustc", "--offline", "-q", "--bin", "lexset", "--profile", "dev", "--", "-Zunpretty=expanded"],
                               self.tmp, 400, cwd=f"{self.tmp}/witness", env={"RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": f"{self.tmp}/etarget"})
                if rc != 0 or "mod n128" not in o:
                    raise RuntimeError("expansion of the derived lexicons failed: " + e[-2000:])
                open(out, "w").write(o)
        return ["--instances", out]


# ------------------------------------------------------------------ the deductive part
class Unit:
    def __init__(self, name):
        self.name = name
        self.failed = []      # (fn key, message, rendered)
        self.undecided = []   # (fn key, why)
        self.lost = []
        self.fns = {}
        self.breakdown = []
        self.ok = False
        self.note = ""
        self.smoke_ok = []
        self.ms = 0
        self.trusted = []

    def base(self):
        p = f"{V}/baseline/{self.name}.json"
        return json.load(open(p)) if os.path.exists(p) else {"fns": {}, "verified": 0}


def fn_lines(text):
    """line number -> key of the function (or overlay block) it belongs to"""
    out, cur = [None], None
    for l in text.split("\n"):
        for m in re.finditer(r"/\*@fn ([^*]+)\*/", l):
            cur = m.group(1)
        out.append(cur)
    return out


def owner(diag, lines, ghost):
    spans = diag.get("spans", [])
    order = [s for s in spans if s.get("label") and re.search(r"at the end of the function body|at this exit", s["label"])]
    order += [s for s in spans if s.get("is_primary")] + spans
    for s in order:
        if s["file_name"].endswith(".rs") and "std_specs" not in s["file_name"] and "vstd" not in s["file_name"]:
            n = s["line_start"]
            if n < len(lines) and lines[n]:
                k = lines[n]
                if k.startswith("overlay:"):
                    return ghost(n) or k
                return k
    return None


def ghost_name(text):
    ls = text.split("\n")

    def f(n):
        for i in range(min(n, len(ls)) - 1, -1, -1):
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:axiom |proof |spec )+fn (\w+)", ls[i]) or re.match(r"\s*(?:pub )?(?:proof|broadcast proof) fn (\w+)", ls[i])
            if m:
                return "lemma:" + m.group(1)
            if "/*@fn" in ls[i]:
                return None
        return None
    return f


def clause(d):
    """the clause of the contract that is not met, where the verifier names one"""
    t = [x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1] if s["line_start"] == s["line_end"] else x["text"]
         for s in d.get("spans", []) if s.get("label") and re.search(r"failed (this )?(postcondition|precondition|invariant)|^failed", s["label"]) for x in s.get("text", [])]
    if not t and "invariant" in d["message"]:
        t = [x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1] for s in d.get("spans", []) if s.get("is_primary") for x in s.get("text", [])]
    return "\n".join(t)


UNDECIDED = re.compile(r"rlimit|Resource limit|timed? ?out|could not|not supported|unsupported|has not been verified", re.I)


def verus(sh, u, unit, opaque, smoke=False, rlimit=None):
    out, rep = f"{sh.tmp}/{unit}{'_smoke' if smoke else ''}.rs", f"{sh.tmp}/{unit}{'_smoke' if smoke else ''}.rep.json"
    cmd = [f"{sh.tmp}/xtarget/debug/extract", f"{V}/specs/{unit}.json", f"{sh.tmp}/exp.rs", out, rep] + sh.instances(unit)
    for k in opaque:
        cmd += ["--opaque", k]
    if smoke:
        cmd += ["--smoke"]
    rc, o, e = run(cmd, sh.tmp, 200)
    if rc != 0:
        return None, "extraction failed: " + e[-1500:], None
    text = open(out).read()
    only = json.load(open(f"{V}/specs/{unit}.json")).get("verify", [])  # the other modules are the business of other units
    rc, o, e = run(["verus", out, "--crate-type", "lib"] + sum((["--verify-only-module", m] for m in only), []) + [ "--triggers-mode", "silent", "--output-json", "--time-expanded",
                    "--error-format=json", "--multiple-errors", "3", "--num-threads", "8"] + (["--rlimit", str(rlimit)] if rlimit else []), sh.tmp, 500)
    try:
        js = json.loads(o[o.index("{"):])
    except ValueError:
        js = {}
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
                if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                    diags.append(d)
            except ValueError:
                pass
    return (text, json.load(open(rep)), js, diags), e[-3000:], rc


def run_unit(sh, name, rlimit=None):
    u = Unit(name)
    opaque = []
    for _ in range(14):
        r, err, rc = verus(sh, u, name, opaque, rlimit=rlimit)
        if r is None:
            u.note = err
            return u
        text, rep, js, diags = r
        u.lost, u.fns = rep["lost"], rep["functions"]
        vr = js.get("verification-results")
        lines, gh = fn_lines(text), ghost_name(text)
        if vr and not vr.get("encountered-vir-error") and ("verified" in vr) and (vr["verified"] + vr["errors"] > 0):
            break
        # the compiler or the verifier cannot take some function: leave it out and go on
        keys = {owner(d, lines, gh) for d in diags} - {None}
        new = [k for k in keys if k in u.fns and k not in opaque]
        if not new:
            u.note = "verifier gave no verdict: " + "\n".join(d.get("rendered", "") for d in diags)[:3000] + ("" if diags else err)
            return u
        for k in new:
            u.undecided.append((k, "; ".join(d["message"] for d in diags if owner(d, lines, gh) == k)[:400]))
        opaque += new
    else:
        u.note = "too many functions outside the verifier's reach"
        return u
    for d in diags:
        k = owner(d, lines, gh) or "?"
        if UNDECIDED.search(d["message"]):
            u.undecided.append((k, d["message"][:300]))
        else:
            u.failed.append((k, d["message"], d.get("rendered", ""), clause(d)))
    t = js.get("times-ms", {}).get("smt", {})
    u.ms = t.get("total", 0)
    for m in t.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            u.breakdown.append((f["function"].split("::", 1)[-1], f.get("success", False), f.get("time-micros", 0)))
    u.verified, u.errors = vr["verified"], vr["errors"]
    u.ok = vr.get("success", False) and not u.undecided
    if not u.ok and not u.failed and not u.undecided:
        u.undecided.append(("?", "verifier reported failure without a diagnostic: " + err))
    u.trusted = trusted(text)
    u.text = text
    return u


def trusted(text):
    """mechanical scan: everything the verifier was told to believe"""
    out, lines = [], text.split("\n")
    cur = ""
    for i, l in enumerate(lines):
        m = re.search(r"\bmod (\w+)", l)
        if re.search(r"external_body|\bassume_specification\b|\baxiom fn\b|\bassume\(|\badmit\(|external_fn_specification|exec_allows_no_decreases", l):
            j = i
            while j < min(i + 8, len(lines)) and not re.search(r"\bfn \w+|\bstruct \w+|assume_specification", lines[j]):
                j += 1
            mm = re.search(r"(?:fn|struct) (\w+)|assume_specification.*?\[\s*([^\]]+)\]", lines[j] if j < len(lines) else l)
            kind = "no-termination" if "exec_allows" in l else "axiom" if "axiom fn" in l else "assume" if re.search(r"\bassume\(|\badmit\(", l) else "external"
            out.append(f"{kind}:{(mm and (mm.group(1) or mm.group(2))) or l.strip()[:60]}")
    return sorted(set(out))


def smoke(sh, name, rlimit=None):
    """vacuity guard: `assert(false)` at the start of every body must be refused everywhere"""
    r, err, rc = verus(sh, None, name, [], smoke=True, rlimit=rlimit)
    if r is None or not r[2].get("verification-results", {}).get("errors"):
        return None
    text, rep, js, diags = r
    lines, gh = fn_lines(text), ghost_name(text)
    hit = {owner(d, lines, gh) for d in diags}
    return sorted(k for k, f in rep["functions"].items() if f["kind"] == "body" and here(name, k) and k not in hit)


def here(unit, key):
    """is this function's body verified in this unit (or is it the business of another one)?"""
    only = json.load(open(f"{V}/specs/{unit}.json")).get("verify", [])
    return not only or any(key.startswith(m + "::") for m in only)


# ------------------------------------------------------------------ bounded parts
def build_witness(sh, bins):
    res = {}
    wenv = {"CARGO_TARGET_DIR": f"{sh.tmp}/wtarget"}
    if "lexset" in bins:  # 128 lexicons: compiling takes far longer than running
        wenv["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
    rc, o, e = run(["cargo", "build", "--offline", "-q"] + sum((["--bin", b] for b in bins), []), sh.tmp, 500, cwd=f"{sh.tmp}/witness",
                   env=wenv)
    if rc == 0:
        return {b: None for b in bins}
    for b in bins:
        rc, o, e = run(["cargo", "build", "--offline", "-q", "--bin", b], sh.tmp, 500, cwd=f"{sh.tmp}/witness",
                       env=wenv)
        res[b] = None if rc == 0 else e[-1500:]
    return res


def witness(sh, prop, b, tier, seed, secs):
    exe = f"{sh.tmp}/wtarget/debug/{b}"
    cmd = [exe, prop, tier, str(seed), str(secs)]
    rc, o, e = run(cmd, sh.tmp, secs + 60, env={"RUST_BACKTRACE": "0"})
    try:
        return json.loads(o.strip().split("\n")[-1])
    except ValueError:
        pass
    # died (stack overflow, abort, out of memory): find the case
    tr = f"{sh.tmp}/{b}.trace"
    rc, o, e = run(cmd + ["--trace", tr], sh.tmp, secs + 120, env={"RUST_BACKTRACE": "0"})
    case = open(tr).read() if os.path.exists(tr) else ""
    if rc in (-6, -11, 134, 139) and case:
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
                "violation": {"case": case, "what": f"the process died (status {rc}): {e[-300:]}"}}
    return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "violation": None, "error": f"status {rc}: {e[-500:]}"}


def kani(sh, prop, spec, tier):
    """run one Kani harness group; returns list of (harness, status, detail, secs)"""
    d = f"{sh.tmp}/kani"
    if not os.path.exists(d):
        shutil.copytree(f"{V}/kani", d, ignore=shutil.ignore_patterns("target"))
    cmd = ["cargo", "kani", "--offline", "-Z", "unstable-options", "-j", "8", "--output-format", "terse"]
    for h in spec["harnesses"] + (spec.get("thorough", []) if tier == "thorough" else []):
        cmd += ["--harness", h]
    rc, o, e = run(cmd, sh.tmp, 800, cwd=d, env={"CARGO_TARGET_DIR": f"{sh.tmp}/ktarget", "RUSTUP_TOOLCHAIN": ""})
    return rc, o, e


# ------------------------------------------------------------------ verdict
def known(prop):
    out = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def changed_structure(u, key, base):
    """is `key` still the function the proof was written for?"""
    if any(l.startswith(key + ":") for l in u.lost):
        return "an anchor of the proof is gone"
    b, f = base["fns"].get(key), u.fns.get(key)
    if key.startswith("lemma:") or key.startswith("overlay:"):
        return None
    if b is None or f is None:
        return "not a function of the verified tree"
    for w in ("loops", "closures", "calls"):
        if b[w] != f[w]:
            return f"its {w} changed: the proof was written for another structure"
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CFG[prop]
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    try:
        code = decide(prop, tier, seed, c, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, c, tmp):
    sh = Shared(tmp)
    units, wit, smk, notes = [], {}, {}, []
    bins = c.get("witness", [])
    kres = None
    with cf.ThreadPoolExecutor(8) as ex:
        fx = ex.submit(sh.extractor) if c.get("units") else None
        fe = ex.submit(sh.expand) if c.get("units") else None
        fb = ex.submit(build_witness, sh, bins) if bins else None
        fk = ex.submit(kani, sh, prop, c["kani"], tier) if c.get("kani") else None
        if c.get("units"):
            try:
                fx.result(); fe.result()
                fu = [ex.submit(run_unit, sh, n["unit"], n.get("rlimit")) for n in c["units"]]
                fs = {n["unit"]: ex.submit(smoke, sh, n["unit"], n.get("rlimit")) for n in c["units"]} if tier == "thorough" or c.get("smoke", True) else {}
                units = [f.result() for f in fu]
                smk = {k: f.result() for k, f in fs.items()}
            except RuntimeError as x:
                notes.append(str(x))
        built = fb.result() if fb else {}
        secs = 60 if tier == "quick" else 500
        ws = {b: ex.submit(witness, sh, prop, b, tier, seed, secs) for b in bins if built.get(b) is None}
        for b in bins:
            if built.get(b) is not None:
                notes.append(f"bounded search {b} does not build against the current tree: {built[b]}")
        wit = {b: f.result() for b, f in ws.items()}
        if fk:
            kres = fk.result()

    violations, undecided, alarms = [], [], []
    for b, w in wit.items():
        if w.get("error"):
            notes.append(f"bounded search {b}: {w['error']}")
        if w.get("violation"):
            violations.append((b, w["violation"]))
    obligations = discharged = 0
    for n, u in zip(c.get("units", []), units):
        base = u.base()
        if not u.breakdown:
            undecided.append((u.name, u.note))
            obligations += base["verified"]
            continue
        obligations += u.verified + u.errors + len(u.undecided)
        discharged += u.verified
        own = n.get("own", [""])
        for k, why in u.undecided:
            undecided.append((k, why))
        for k, msg, rend, cl in u.failed:
            why = changed_structure(u, k, base)
            mine = any(k.startswith(o) for o in own) or k.startswith("lemma:")
            if cl and n.get("clauses") and not re.search(n["clauses"], cl):
                mine = False
            if why or not mine:
                undecided.append((k, f"{msg} ({why or 'decided under another property'})"))
            else:
                alarms.append((u.name, k, msg, rend))
        if not u.failed and not u.undecided and u.verified < base["verified"]:
            undecided.append((u.name, f"{u.verified} obligations, {base['verified']} on the verified tree"))
        if smk.get(u.name):
            undecided += [(k, "vacuous: a false assertion is accepted here") for k in smk[u.name]]
    if kres is not None:
        ko = kani_outcome(c["kani"], kres)
        obligations += ko["total"]; discharged += ko["ok"]
        for h, d in ko["failed"]:
            alarms.append(("kani", h, "kani: " + d, d))
        for h, d in ko["undecided"]:
            undecided.append((h, d))
        notes += ko["notes"]
    if smk is not None and any(v is None for v in smk.values()):
        notes.append("vacuity run gave no result")

    # verdict
    code = 0
    lines = []
    kn = known(prop)
    if violations:
        new = [(b, v) for b, v in violations if not any(v["case"] == k for k, _ in kn)]
        for b, v in violations:
            for k, what in kn:
                if v["case"] == k:
                    lines.append(f"KNOWN-FINDING: property={prop} {what}")
        if new:
            b, v = new[0]
            path = f"{V}/evidence/replay/{prop}.txt"
            with open(path, "w") as f:
                f.write(f"property {prop}\nwhat: {v['what']}\ncase: {v['case']}\n")
                f.write(f"found by: witness/src/bin/{b}.rs {prop} {tier} seed={seed}\n")
                f.write(f"replay: write the case (without 'case: ') to FILE; cd {V}/witness && cargo run --offline --bin {b} -- {prop} {tier} {seed} 600 --only FILE\n")
                for un, k, msg, rend in alarms:
                    f.write(f"\nfailed obligation in {k}: {msg}\n{rend}\n")
                for k, why in undecided:
                    f.write(f"\nundischarged: {k}: {why}\n")
            lines.append(f"VIOLATION property={prop} replay={path}")
            code = 1
    elif alarms:
        path = f"{V}/evidence/replay/{prop}.txt"
        with open(path, "w") as f:
            f.write(f"property {prop}: obligations refused by the verifier; the bounded search found no failing input\n")
            for un, k, msg, rend in alarms:
                f.write(f"\nfailed obligation in {k} (unit {un}): {msg}\n{rend}\n")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1

    level = c["level"]
    bounded = [{"search": b, **{k: w[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")}} for b, w in wit.items()]
    cov = {}
    if level == "proof":
        cov = {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus <extracted unit> --crate-type lib (units: %s)%s" % (", ".join(u.name for u in units), " + cargo kani" if c.get("kani") else ""),
            "trusted_base": sorted(set(sum((u.trusted for u in units), []))) + c.get("trusted", []),
        }
    if level != "proof" or not cov.get("obligations"):
        cov.update({"evaluations": sum(w["evaluations"] for w in wit.values()), "distinct_nontrivial": sum(w["distinct_nontrivial"] for w in wit.values()),
                    "rule": "; ".join(w["rule"] for w in wit.values()), "samples": sum((w["samples"] for w in wit.values()), []) or ["none"]})
    cov.update({
        "functions_under_contract": sorted({k for u in units for k, f in u.fns.items() if f["kind"] == "body" and f["spec"] and here(u.name, k)}),
        "functions_used_by_the_contract_another_unit_verifies": sorted({k for u in units for k, f in u.fns.items() if f["kind"] == "body" and f["spec"] and not here(u.name, k)}),
        "functions_under_the_contract_of_their_trait": sorted({k for u in units for k, f in u.fns.items() if f["kind"] == "body" and not f["spec"] and " as " in k and here(u.name, k)}),
        "functions_inlined_without_contract": sorted({k for u in units for k, f in u.fns.items() if f["kind"] == "body" and not f["spec"] and " as " not in k}),
        "functions_trusted_by_contract_only": sorted({k for u in units for k, f in u.fns.items() if f["kind"] != "body"}),
        "obligations_by_unit": {u.name: [f"{n} {'discharged' if ok else 'NOT discharged'} {us}us" for n, ok, us in u.breakdown] for u in units} if tier == "thorough" else {u.name: len(u.breakdown) for u in units},
        "solver_ms": {u.name: u.ms for u in units}, "back_end": "Verus 0.2026.09.13 (z3)" + (", Kani 0.68 (CBMC)" if c.get("kani") else ""),
        "undischarged": [f"{k}: {w}"[:600] for k, w in undecided], "failed": [f"{k}: {m}" for _, k, m, _ in alarms],
        "vacuity": {k: ("no result" if v is None else f"{len(v)} bodies accept false") for k, v in smk.items()},
        "bounded_stand_ins": bounded, "notes": [n[:1500] for n in notes], "dropped_by_extraction": c.get("dropped", "see specs/<unit>.json 'drop' and DESIGN.md"),
    })
    if kres is not None:
        cov["kani"] = ko["summary"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 1)}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for k, w in undecided:
        print(f"undischarged: {k}: {w}"[:300])
    for n in notes:
        print("note:", n[:300])
    print(f"{prop}: {discharged}/{obligations} obligations discharged; bounded: " + ", ".join(f"{b} {w['evaluations']} cases" for b, w in wit.items()) + f"; {ev['wall_s']} s")
    for l in lines:
        print(l)
    return code


def kani_outcome(spec, kres):
    rc, o, e = kres
    out = {"total": 0, "ok": 0, "failed": [], "undecided": [], "notes": [], "summary": []}
    seen = {}
    cur = {}
    for l in o.split("\n"):
        m = re.search(r"(?:Thread (\d+): )?Checking harness ([\w:]+)", l)
        if m:
            cur[m.group(1)] = m.group(2).rstrip(".")
        m = re.search(r"(?:Thread (\d+):)?\s*VERIFICATION:- (SUCCESSFUL|FAILED)(.*)", l)
        if m and cur.get(m.group(1)):
            seen[cur[m.group(1)]] = (m.group(2), m.group(3))
    want = spec["harnesses"]
    out["total"] = len(want)
    for h in want:
        r = next((v for k, v in seen.items() if k == h or k.endswith("::" + h)), None)
        if r is None:
            out["undecided"].append((h, "kani gave no verdict: " + (e[-300:])))
        elif r[0] == "SUCCESSFUL":
            out["ok"] += 1
        else:
            i = o.find(h)
            det = "; ".join(re.findall(r"Failed Checks: (.*)", o))[:600]
            if "unwinding assertion" in det and det.count(";") == 0:
                out["undecided"].append((h, det))
            else:
                out["failed"].append((h, det))
        out["summary"].append(f"{h}: {r[0] if r else 'no verdict'}")
    return out


def rebaseline():
    tmp = tempfile.mkdtemp(prefix="verif-base-")
    os.makedirs(f"{V}/baseline", exist_ok=True)
    try:
        sh = Shared(tmp)
        sh.extractor(); sh.expand()
        limits = {n["unit"]: n.get("rlimit") for c in CFG.values() for n in c.get("units", [])}
        names = sys.argv[2:] or sorted(limits)
        for n in names:
            u = run_unit(sh, n, limits.get(n))
            print(n, "ok" if u.ok else "NOT OK", getattr(u, "verified", 0), u.note[:500], u.failed[:2], u.undecided[:2], u.lost)
            s = smoke(sh, n, limits.get(n))
            print("  vacuous bodies:", s)
            json.dump({"verified": getattr(u, "verified", 0), "fns": {k: {w: f[w] for w in ("loops", "closures", "calls", "kind")} for k, f in sorted(u.fns.items())}},
                      open(f"{V}/baseline/{n}.json", "w"), indent=0, sort_keys=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    """nothing can be kept between runs: only show that the tools build"""
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        Shared(tmp).extractor()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("ok")


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        setup()
    elif sys.argv[1] == "--rebaseline":
        rebaseline()
    else:
        main()
