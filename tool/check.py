#!/usr/bin/env python3
"""Decide one property: extract /repo's functions, attach their contracts, let Verus discharge the
obligations, replay/search failing inputs with the harness, write evidence, report.

exit 0: held (on everything explored)   exit 1: VIOLATION line printed.  Nothing else is ever returned."""
import sys, os, re, fcntl, json, time, subprocess, threading, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract
from props import PROPS

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
BUILD = os.path.join(ROOT, "build")
MAXROUNDS = 8

# library functions of contracts/02_std.rs that no function of the baseline uses and about which nothing is proved
# beyond their contract: a proof that fails where one is used says little
WEAK = r"\b(contains_p|find_p|trim_start_matches_p|trim_end_matches_p|is_power_of_two|next_multiple_of|div_ceil|swap_bytes|u(?:16|32|64)_from_[lb]e_bytes|to_[lb]e_bytes_p|split_last|abs_diff|intersects|same_variant)\s*\("

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ verus
class Run:
    pass

def fn_map(path):
    """line -> ('fn', key) | ('spec', module or file)"""
    m = []
    cur = None
    f = None
    mods = []
    for ln in open(path):
        x = re.search(r"/\*@FN (.*?)\*/", ln)
        if x:
            cur = x.group(1)
        y = re.search(r"/\*@FILE (.*?)\*/", ln)
        if y:
            f = y.group(1)
        m.append(cur)
        if "/*@END*/" in ln:
            cur = None
    return m

def mod_map(path):
    """line -> module of the extracted crate"""
    m, cur = [], None
    for ln in open(path):
        x = re.search(r"/\*@MOD (\S+)\*/", ln) or re.match(r"\s*(?:pub(?:\([a-z]+\))? )?mod (\w+)\s*\{", ln)
        if x:
            cur = x.group(1)
        m.append(cur)
    return m

def again(r, src, mods, rlimit, timeout):
    """Every obligation the first run did not discharge is tried once more, each function in a solver of its own:
    what fails only because of what the solver did before (other functions of the module) is discharged here."""
    mm = mod_map(src)
    bad = set()
    for d in r.diags:
        if classify(d) == "compile":
            return r
        for s in spans(d):
            if os.path.basename(s["file"]) == os.path.basename(src) and s["line"] - 1 < len(mm) and mm[s["line"] - 1] in mods:
                bad.add(mm[s["line"] - 1])
    if not bad:
        return r
    r2 = verus(src, sorted(bad), rlimit, timeout, ("-V", "spinoff-all"))
    if r2.rc == -1 or not r2.compiled or any(classify(d) == "compile" for d in r2.diags):
        return r
    k = set((f["module"], f["function"]) for f in r2.funcs)
    r.funcs = [f for f in r.funcs if (f["module"], f["function"]) not in k] + r2.funcs
    r.verified += max(0, r.errors - r2.errors)
    r.diags, r.errors = r2.diags, r2.errors
    r.wall += r2.wall
    r.smt_ms += r2.smt_ms
    return r

def verus(src, modules, rlimit, timeout, extra=()):
    cmd = ["verus", src, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "8",
           "--rlimit", str(rlimit), "--error-format=json", "--num-threads", "8"]
    for m in modules:
        cmd += ["--verify-module", m]
    cmd += list(extra)
    r = Run()
    r.cmd = " ".join(cmd)
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=BUILD, start_new_session=True)
        r.out, r.err, r.rc = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        r.out, r.err, r.rc = "", "", -1
    r.wall = time.time() - t
    r.diags = []
    for ln in r.err.splitlines():
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due"):
            r.diags.append(d)
    try:
        r.json = json.loads(r.out[r.out.index("{"):])
    except ValueError:
        r.json = {}
    vr = r.json.get("verification-results", {})
    r.compiled = "verified" in vr and not vr.get("encountered-vir-error")
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    r.funcs = []
    smt = (r.json.get("times-ms") or {}).get("smt") or {}
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r.funcs.append(dict(function=re.sub(r"^[a-z_0-9]+::", "", f["function"], 1), mode=f.get("mode:"), ms=f["time-micros"] / 1000.0, rlimit=f["rlimit"], ok=f["success"], module=m["module"]))
    r.smt_ms = smt.get("smt-run", 0)
    return r

VERIFY_MSG = ("postcondition", "precondition", "assertion failed", "invariant", "overflow", "underflow", "decreases", "might not", "not satisfied",
              "division", "possible", "recommendation", "termination", "unreachable", "index out", "loop", "failed this", "resource limit", "rlimit", "bit shift", "cannot show", "requires", "out of range", "exhausted")

def classify(d):
    m = d["message"].lower()
    if d.get("code"):
        return "compile"
    if "resource limit" in m or "rlimit" in m:
        return "rlimit"
    if any(x in m for x in ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
                            "possible arithmetic", "decreases not satisfied", "possible division", "possible bit shift", "loop ensures",
                            "unreachable", "might not be allowed", "constructed value may fail", "split assertion failed", "possible truncation", "cannot show")):
        return "verify"
    return "compile"

def spans(d):
    out = []
    for s in d.get("spans", []):
        out.append(dict(line=s["line_start"], end=s["line_end"], primary=s["is_primary"], file=s["file_name"], label=s.get("label") or "",
                        text=" ".join(x["text"].strip() for x in s.get("text", []))[:300]))
    return out

def attribute(d, fmap, lines, src):
    """(function key, tags, description) of one diagnostic"""
    fn, tags, desc = None, set(), ""
    ss = spans(d)
    here = [s for s in ss if os.path.basename(s["file"]) == os.path.basename(src)]
    # the failing function: where the obligation is checked (for a precondition: the call; for a postcondition: the body)
    prim = [s for s in here if s["primary"]] or here
    order = here if classify(d) != "compile" else prim
    cand = [fmap[s["line"] - 1] for s in order if s["line"] - 1 < len(fmap)]
    msg = d["message"].lower()
    if "precondition not satisfied" in msg:
        c2 = [fmap[s["line"] - 1] for s in here if "failed precondition" not in s["label"] and s["line"] - 1 < len(fmap)]
        cand = [c for c in c2 if c] + cand
    cand = [c for c in cand if c]
    fn = cand[0] if cand else None
    for s in here:
        for k in range(s["line"], min(s["end"], s["line"] + 40) + 1):
            if k - 1 < len(lines):
                x = re.search(r"/\*@T ([A-Z0-9, ]+)\*/", lines[k - 1])
                if x and ("failed this" in s["label"] or "failed precondition" in s["label"] or s["primary"]) and s["line"] == s["end"]:
                    tags |= set(re.findall(r"C\d\d", x.group(1)))
    desc = d["message"] + "".join(" | line %d: %s%s" % (s["line"], re.sub(r"\s+", " ", s["text"]), (" <- " + s["label"]) if s["label"] else "") for s in ss)
    return fn, tags, desc[:900]

class Proof:
    """result of the deductive part"""
    def __init__(s):
        s.available = True
        s.reason = ""
        s.degraded = {}      # fn -> reason (contract assumed, bounded stand-in only)
        s.genuine = []       # dict(fn, tags, desc)
        s.foreign = []       # failing obligations that belong to other properties
        s.run = None
        s.report = {}
        s.rounds = 0
        s.smt_ms = 0

def baseline():
    try:
        return json.load(open(os.path.join(ROOT, "contracts", "baseline.json")))
    except (OSError, ValueError):
        return {}

def prove(prop, work):
    P = Proof()
    cfg = PROPS[prop]
    base = baseline()
    degrade = {}
    src = os.path.join(work, "m.rs")
    vc, th = extract.load(os.path.join(ROOT, "contracts"))
    mods = cfg["modules"]
    rl = 60 if TIER == "quick" else 200
    t0 = time.time()
    for rnd in range(MAXROUNDS):
        P.rounds = rnd + 1
        if time.time() - t0 > 420:
            P.available, P.reason = False, "time budget for proof attempts exhausted"
            break
        try:
            vc, th = extract.load(os.path.join(ROOT, "contracts"))
            ex = extract.Extractor(REPO, vc, degrade.keys(), modules=mods, known=[k for k, v in base.items() if not v.get("contract")])
            txt = ex.run(th, base)
        except Exception as e:
            P.available, P.reason = False, "extraction failed: %r" % (e,)
            break
        if txt is None:
            P.available, P.reason = False, "extraction failed: " + str(ex.report["errors"])[:400]
            break
        P.report = ex.report
        open(src, "w").write(txt)
        present = set(re.findall(r"(?m)^/\*@MOD (\S+)\*/", txt))
        vmods = [m for m in mods if m in present or re.search(r"\bmod %s\b" % re.escape(m.split("::")[-1]), txt)]
        r = verus(src, vmods, rl, 400)
        if r.rc != -1 and r.diags:
            r = again(r, src, vmods, rl * 2, 240)
        P.run = r
        P.smt_ms += r.smt_ms
        if r.rc == -1:
            P.available, P.reason = False, "verifier timed out"
            break
        fmap = fn_map(src)
        lines = txt.split("\n")
        genuine, new = [], {}
        uncontracted = set(ex.report["uncontracted"])
        names = {}
        for u in uncontracted:
            names.setdefault(u.split("::")[-1], []).append(u)
        unattr = []
        gone = set(x.split("::")[-1] for x in base if x not in ex.report["functions"] and x not in ex.report["dropped"])
        for d in r.diags:
            k = classify(d)
            fn, tags, desc = attribute(d, fmap, lines, src)
            if fn is None:
                # a lemma over the contracts, or a specification that does not fit the code any more
                if k == "verify":
                    genuine.append(dict(fn="(lemma)", tags=sorted(tags), desc=desc))
                else:
                    unattr.append(desc)
                continue
            if k == "compile":
                new[fn] = "outside the verifier's reach: " + desc[:200]
                continue
            if k == "rlimit":
                new[fn] = "solver resource limit: " + desc[:200]
                continue
            why = None
            b = base.get(fn, {})
            cur = ex.report["functions"].get(fn, {})
            # what the changed body calls that has no contract
            body = "\n".join(l for l, f in zip(lines, fmap) if f == fn)
            calls = [u for n, us in names.items() for u in us if re.search(r"\b%s\s*\(" % re.escape(n), body) and u != fn
                     and (len(us) == 1 or u.rsplit("::", 2)[0] == fn.rsplit("::", 2)[0] or True) and u not in base]
            if fn in ex.report["anchors_lost"]:
                why = "contract anchors lost: " + "; ".join(ex.report["anchors_lost"][fn])
            elif not cur.get("contract") and fn not in base:
                why = "function has no contract"
            elif calls:
                why = "calls functions without contract: " + ", ".join(calls[:4])
            elif b and set(b.get("calls", [])) & gone - set(cur.get("calls", [])):
                why = "a function it used is gone: " + ", ".join(sorted(set(b["calls"]) & gone - set(cur.get("calls", []))))
            elif b and cur.get("closures", 0) > b.get("closures", 0):
                why = "new closures, whose effect the verifier does not see"
            elif b and cur.get("ranges", 0) > b.get("ranges", 0):
                why = "new slices of texts or bytes, whose boundaries are hard for the solver"
            elif re.search(WEAK, body):
                why = "uses a library function whose contract here is hard for the solver: " + ", ".join(sorted(set(x.group(1) for x in re.finditer(WEAK, body))))
            elif b and cur.get("hints", 1) and (b.get("loops") != cur.get("loops") or b.get("kinds") != cur.get("kinds") or [x for x in b.get("lets") or [] if x not in (cur.get("lets") or [])] or b.get("heads", cur.get("heads")) != cur.get("heads")):
                why = "loop structure changed or local variables are gone, the annotations do not fit"
            if why:
                new[fn] = why + " (" + desc[:160] + ")"
            else:
                genuine.append(dict(fn=fn, tags=sorted(tags), desc=desc))
        if new:
            fresh = {k: v for k, v in new.items() if k not in degrade}
            if fresh:
                degrade.update(fresh)
                continue
            P.available, P.reason = False, "could not set aside: " + "; ".join(new)[:300]
            break
        if unattr:
            P.available, P.reason = False, "the contracts do not fit the code: " + " || ".join(unattr)[:500]
            break
        if not r.compiled and not genuine:
            P.available, P.reason = False, "verifier gave no result: " + (r.err[-300:] or r.out[-300:])
            break
        for g in genuine:
            own = not g["tags"] or prop in g["tags"]
            if own and not g["tags"] and cfg.get("tagged_only") and not panic_like(g["desc"]):
                own = prop in fn_tags(vc, g["fn"])
            if own and prop != "C01" and not g["tags"] and panic_like(g["desc"]) and "C01" in fn_tags(vc, g["fn"]):
                own = False
            (P.genuine if own else P.foreign).append(g)
        break
    else:
        P.available, P.reason = False, "no stable set of functions after %d rounds" % MAXROUNDS
    P.degraded = degrade
    P.vc = vc
    return P

def make_baseline():
    vc, th = extract.load(os.path.join(ROOT, "contracts"))
    ex = extract.Extractor(REPO, vc, ext_uncontracted=True)
    ex.run(th)
    b = {f: dict(loops=d["loops"], lets=d["lets"], contract=d["contract"], calls=d["calls"], closures=d["closures"], ranges=d["ranges"], kinds=d["kinds"], heads=d["heads"]) for f, d in sorted(ex.report["functions"].items())}
    with open(os.path.join(ROOT, "contracts", "baseline.json"), "w") as o:
        o.write("{\n" + ",\n".join(" %s: %s" % (json.dumps(k), json.dumps(v)) for k, v in b.items()) + "\n}\n")

def panic_like(desc):
    return any(x in desc for x in ("possible arithmetic", "precondition not satisfied", "possible division", "possible bit shift", "unreachable", "decreases not satisfied"))

def fn_tags(vc, full):
    for m, d in vc.mods.items():
        for k, c in d["fns"].items():
            if m + "::" + k == full:
                t = set()
                for x in c.clauses:
                    t |= set(re.findall(r"C\d\d", x[1]))
                for L in c.loops.values():
                    for x in L["clauses"]:
                        t |= set(re.findall(r"C\d\d", x[1]))
                return t
    return set()

# ------------------------------------------------------------------ harness
def harness_build(res):
    """build the harness against /repo's current tree"""
    try:
        tgt = os.path.join(BUILD, "target")
        h = os.path.join(ROOT, "harness")
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Coverflow-checks=on -Cdebug-assertions=on")
        src = h
        if REPO != "/repo":
            src = os.path.join(BUILD, "harness_alt")
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(h, src)
            f = os.path.join(src, "Cargo.toml")
            t = open(f).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(f, "w").write(t)
        p = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet", "--manifest-path", os.path.join(src, "Cargo.toml")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=600)
        res["log"] = p.stdout.decode("utf8", "replace")[-2500:]
        if p.returncode == 0:
            res["bin"] = os.path.join(tgt, "release", "dbus-harness")
    except Exception as e:
        res["log"] = repr(e)

def harness_run(binp, prop, secs, outdir, seed):
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, "harness.json")
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    cmd = [binp, "run", prop, str(secs), str(seed), outdir]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 3 + 150, preexec_fn=lim)
        rc, err = p.returncode, p.stderr.decode("utf8", "replace")[-800:]
    except subprocess.TimeoutExpired:
        rc, err = -999, "timeout"
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = dict(evaluations=0, distinct=0, samples=[], violations=[], crashed=True)
        # the process died: the cases under way are in cur.*
        for f in sorted(os.listdir(outdir)):
            if f.startswith("cur."):
                c = open(os.path.join(outdir, f), "rb").read().decode("utf8", "replace").split("\n")[0].strip()
                if not c:
                    continue
                # confirm alone
                try:
                    q = subprocess.run([binp, "case", prop, c], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=lim)
                    qrc = q.returncode
                except subprocess.TimeoutExpired:
                    qrc = -999
                if qrc != 0:
                    r["violations"].append(dict(case=c, what="the process was ended (status %s) while running this case" % qrc))
    r["rc"], r["stderr"] = rc, err
    r["cmd"] = " ".join(cmd)
    return r

# ------------------------------------------------------------------ main
def main():
    prop = sys.argv[1]
    if prop == "baseline":
        make_baseline()
        return 0
    # build/ is shared: one check at a time (gives up waiting rather than failing)
    os.makedirs(BUILD, exist_ok=True)
    lk = open(os.path.join(BUILD, ".lock"), "w")
    for _ in range(400):
        try:
            fcntl.flock(lk, fcntl.LOCK_EX | fcntl.LOCK_NB)
            break
        except OSError:
            time.sleep(1)
    t0 = time.time()
    work = os.path.join(BUILD, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cfg = PROPS[prop]
    hb = {}
    th = threading.Thread(target=harness_build, args=(hb,))
    th.start()
    if cfg["modules"]:
        try:
            P = prove(prop, work)
        except Exception as e:
            P = Proof(); P.available = False; P.reason = "internal error: " + traceback.format_exc()[-500:]
    else:
        P = Proof(); P.available = False; P.reason = "no contracts"
    th.join()
    secs = cfg.get("secs", 20) if TIER == "quick" else cfg.get("thorough_secs", 240)
    if P.genuine or P.degraded or not P.available:
        secs = max(secs, 90 if TIER == "quick" else 400)     # search harder
    H = None
    if "bin" in hb:
        H = harness_run(hb["bin"], prop, secs, os.path.join(work, "h"), SEED)
    known = load_known(prop)
    rc = 0
    lines = []
    viol = []
    knownhit = []
    for v in (H or {}).get("violations", []):
        k = [x for x in known if x in v["case"] or x in v["what"]]
        (knownhit if k else viol).append(v)
    for k in sorted(set(x for v in knownhit for x in known if x in v["case"] or x in v["what"])):
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    replay = os.path.join(work, "replay.json")
    if viol:
        json.dump(dict(property=prop, kind="input", case=viol[0]["case"], what=viol[0]["what"],
                       how="%s case %s '<case>'  (exit 1: the case violates the property)" % (hb["bin"], prop),
                       failed_obligations=P.genuine[:10], undecided=P.degraded, others=viol[1:5]), open(replay, "w"), indent=1)
        for g in P.genuine[:6]:
            log("obligation failed in %s: %s" % (g["fn"], g["desc"][:400]))
        log("failing input: %s\n  %s" % (viol[0]["case"][:600], viol[0]["what"][:1200]))
        log("VIOLATION property=%s replay=%s" % (prop, replay))
        rc = 1
    elif P.genuine:
        json.dump(dict(property=prop, kind="obligation", failed_obligations=P.genuine, verifier_output=[d.get("rendered", "") for d in P.run.diags][:20],
                       verifier_cmd=P.run.cmd, note="no failing input was found by the bounded search"), open(replay, "w"), indent=1)
        for g in P.genuine[:6]:
            log("obligation failed in %s: %s" % (g["fn"], g["desc"][:400]))
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        rc = 1
    else:
        for f, w in P.degraded.items():
            log("note: %s not decided by the verifier (%s); bounded search only" % (f, w[:200]))
        if not P.available:
            log("note: deductive part not available on this source (%s); bounded search only" % P.reason[:400])
        if H is None:
            log("note: harness not available: " + hb.get("log", "")[-600:])
        log("property %s held: %s" % (prop, summary(P, H)))
    write_evidence(prop, cfg, P, H, hb, t0, len(viol) + (1 if P.genuine and not viol else 0))
    return rc

def summary(P, H):
    s = ""
    if P.run:
        s += "%d obligations discharged, %d failed; " % (P.run.verified, P.run.errors)
    if H:
        s += "%d bounded evaluations" % H.get("evaluations", 0)
    return s

def load_known(prop):
    out = []
    try:
        for ln in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+)", ln)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out

def trusted_scan(src):
    """mechanical scan of everything assumed in the verified text"""
    t = open(src).read()
    out = []
    n = {}
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", t):
        out.append("assumed contract of std: " + re.sub(r"\s+", " ", m.group(1)))
    for k in ("assume(", "admit("):
        c = len(re.findall(r"(?<![\w!])" + re.escape(k), t))
        if c:
            out.append("%s used %d times" % (k, c))
    return out

ASSUMPTIONS = [
    "usize is 64 bits; cfg(target_family = \"unix\")",
    "std and the bytes crate behave as the contracts of contracts/00_bytes.rs, 01_th.rs and 02_std.rs say (tested against the real functions on every run: coverage.assumption_tests)",
    "derived Clone yields an equal value, derived PartialEq compares fieldwise, derived Default is fieldwise",
    "From/Into conversions behind `?` call the extracted `from` (error types only)",
    "buffers and strings hold at most isize::MAX bytes; two str with equal characters are equal",
    "allocation succeeds and the stack is large enough for the (bounded) recursion; no concurrent mutation of an argument (the crate has no interior mutability)",
    "integer arithmetic is machine arithmetic: overflow is an obligation, nothing is treated as mathematical in executable code",
]

def assume_run(binp):
    """bounded tests of the assumed library contracts"""
    try:
        p = subprocess.run([binp, "assume", "100000" if TIER == "quick" else "3000000", str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
        o = p.stdout.decode("utf8", "replace").strip()
        return dict(label="bounded tests of the assumed contracts of std and bytes (not proof)", rounds=int(o.split()[1]) if o.startswith("ok") else 0, result=o[:500])
    except Exception as e:
        return dict(label="bounded tests of the assumed contracts of std and bytes (not proof)", rounds=0, result=repr(e))

def write_evidence(prop, cfg, P, H, hb, t0, nviol):
    src = os.path.join(BUILD, prop, "m.rs")
    under, ext = [], []
    mods = set(cfg["modules"])
    for f, d in sorted(P.report.get("functions", {}).items()):
        mod = next((m for m in sorted(mods, key=len, reverse=True) if f.startswith(m + "::")), None)
        if mod is None:
            continue
        if d["degraded"] or d["external"] or d["outside"]:
            ext.append(f)
        else:
            under.append(f)
    r = P.run
    tb = ["Verus 0.2026.09.13 with its SMT solver (Z3) and the Rust compiler; vstd's specifications of std",
          "tool/extract.py: copies each function body token for token from /repo's current source (macro_rules expanded, cfg evaluated); it drops attributes, doc comments, test items and derived Debug/Hash/Ord, turns derived Clone/PartialEq/Default into assumed contracts, expands write!/format! into piecewise calls, widens visibility, and applies the rewrites listed below (DESIGN.md section 4)"]
    if r:
        tb += trusted_scan(src)
    tb += cfg.get("trusted", [])
    shim = os.path.join(ROOT, "contracts")
    for f in sorted(os.listdir(shim)):
        if f.endswith(".rs"):
            n = len(re.findall(r"external_body", open(os.path.join(shim, f)).read()))
            if n:
                tb.append("contracts/%s: %d stand-ins for dependency/std functions with assumed contracts" % (f, n))
    cov = dict(obligations=(r.verified + r.errors) if r else 0, discharged=r.verified if r else 0,
               checker_cmd=(r.cmd.replace(src, "build/%s/m.rs" % prop) if r else "none"), trusted_base=tb,
               backend="Verus -> Z3", solver_ms=P.smt_ms, rounds=P.rounds,
               functions_under_contract=under, functions_under_contract_count=len(under),
               functions_assumed=ext, undecided=P.degraded, proof_available=P.available, proof_unavailable_reason=P.reason,
               slowest=[(f["function"], round(f["ms"])) for f in sorted(r.funcs, key=lambda x: -x["ms"])[:8]] if r else [],
               failed_obligations=P.genuine[:10], failed_elsewhere=[g["fn"] for g in P.foreign][:10],
               body_rewrites=[k for k in P.report.get("rewrites", {}) if any(k.startswith(m + "::") for m in mods)][:80],
               expanded_helpers=P.report.get("inlined", {}), missing_functions=P.report.get("missing_fns", [])[:20], uncontracted=[u for u in P.report.get("uncontracted", []) if any(u.startswith(m + "::") for m in mods)][:60])
    if "bin" in hb:
        a = cov["assumption_tests"] = assume_run(hb["bin"])
        if not a["result"].startswith("ok"):
            log("note: an assumed library contract does not hold here: " + a["result"])
    if H:
        cov["bounded"] = dict(label="bounded search on the real crate (never counted as proved): replays, finds inputs for failed obligations, and stands in for functions outside the verifier's reach",
                              evaluations=H.get("evaluations", 0), distinct_nontrivial=H.get("distinct", 0), rule=cfg.get("rule", H.get("rule", "")), samples=H.get("samples", [])[:4], seconds=H.get("secs"))
        cov["evaluations"] = H.get("evaluations", 0)
    else:
        cov["bounded"] = dict(label="harness did not build", log=hb.get("log", "")[-500:])
    ev = dict(property=prop, tier=TIER, seed=SEED, level=cfg.get("level", "proof"), coverage=cov,
              assumptions=ASSUMPTIONS + cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    t = json.dumps(ev, indent=1)
    if len(t) > 60000:
        cov["functions_under_contract"] = cov["functions_under_contract"][:100]
        cov["body_rewrites"] = cov["body_rewrites"][:10]
        t = json.dumps(ev, indent=1)
    open(os.path.join(ROOT, "evidence", prop + ".json"), "w").write(t)

if __name__ == "__main__":
    try:
        rc = main()
    except BaseException as e:
        traceback.print_exc()
        # an internal error is neither a proof nor a violation
        try:
            p = sys.argv[1]
            ev = dict(property=p, tier=TIER, seed=SEED, level=PROPS[p].get("level", "proof"),
                      coverage=dict(obligations=0, discharged=0, checker_cmd="none", trusted_base=[], explanation="internal error: %r" % (e,)), wall_s=0.0)
            json.dump(ev, open(os.path.join(ROOT, "evidence", p + ".json"), "w"))
        except Exception:
            pass
        rc = 2
    sys.exit(rc)
