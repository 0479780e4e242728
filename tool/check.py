#!/usr/bin/env python3
"""check.py <property>   decide one property of /repo's current source; see DESIGN.md.

1. extract /repo/src + contracts -> one Verus file, let Verus discharge every obligation of the modules the
   property depends on (failed functions are retried with other seeds and a larger resource limit);
2. probe: an assertion that must fail behind every precondition and loop invariant (vacuity);
3. a short run of the real code against an independent oracle (cross-check of the assumed contracts, bounded);
4. when an obligation is not discharged: search for a failing input of the real code.  Found -> VIOLATION with that
   input.  Not found -> VIOLATION ... no-failing-input-found when the function's contract still sits on its
   anchors (the obligation passed on the unchanged tree and is refuted now), else undecided: exit 0, and the
   evidence says level=exploration.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract as X

REPO = os.environ.get("VERIF_REPO", "/repo")
CON = os.path.join(VERIF, "contracts")
QUERY = ["vp", "spec_graph", "spec_query", "constants", "valid_flags", "heap_item", "shortest_path", "fast_graph", "path_calculator"]
PREP = ["vp", "spec_graph", "spec_prep", "spec_build", "constants", "valid_flags", "heap_item", "fast_graph", "input_graph", "preparation_graph",
        "witness_search", "node_contractor", "fast_graph_builder"]
ALL = QUERY + [m for m in PREP if m not in QUERY] + ["spec_theorems", "lib"]
BUILD = ["preparation_graph", "witness_search", "node_contractor", "fast_graph_builder", "lib"]

# property -> modules whose obligations have to be discharged; `direct`: modules in which a refuted obligation is
# reported without a failing input; `tags`: clauses tagged for other properties only do not count;
# `only_tagged`: untagged obligations do not bear on the property; `kinds`: untagged obligations that do
P = {
    "C01": dict(mods=ALL, direct=ALL, tags={"C01", "C03"}),
    "C02": dict(mods=ALL, direct=ALL, tags={"C02"}),
    "C03": dict(mods=ALL, direct=ALL, tags={"C03"}),
    "C04": dict(mods=QUERY + ["lib", "spec_theorems"], direct=QUERY, tags={"C04"}, only_tagged=True, whole=["valid_flags"]),
    "C05": dict(mods=ALL, direct=BUILD, tags={"C05", "C01"}),
    "C06": dict(mods=ALL, direct=BUILD, tags={"C06", "C05", "C01"}),
    "C07": dict(mods=ALL, direct=["fast_graph", "fast_graph_builder", "lib"], tags={"C07"}, only_tagged=True),
    "C08": dict(mods=["vp", "spec_graph", "input_graph"], direct=["input_graph"], tags={"C08"}),
    "C09": dict(mods=PREP + ["lib"], direct=["input_graph", "fast_graph_builder", "preparation_graph", "lib"], tags={"C09"}, only_tagged=True),
    "C10": dict(mods=["vp", "spec_graph", "fast_graph", "fast_graph32"], direct=["fast_graph32"], tags={"C10"}),
    "C11": dict(mods=ALL, direct=ALL, tags={"C11", "C01", "C03"}),
    "C12": dict(mods=ALL, direct=ALL, tags={"C12"}, only_tagged=True,
                kinds=r"possible arithmetic|decreases|could not prove termination|precondition not satisfied"),
    "C16": dict(mods=["vp", "spec_graph", "spec_serde", "fast_graph", "fast_graph32", "lib"], direct=["fast_graph32", "lib", "spec_serde"], tags={"C16"}, only_tagged=True,
                kinds=r"precondition not satisfied|assertion failed"),
    "C17": dict(mods=["vp", "spec_graph", "spec_serde_input", "input_graph"], direct=["spec_serde_input"], tags={"C17"}, only_tagged=True),
    "C15": dict(mods=["vp", "spec_graph", "spec_io", "spec_files", "input_graph"], direct=["input_graph", "spec_files"], tags={"C15"}, only_tagged=True, io=True,
                kinds=r"precondition not satisfied|assertion failed|possible arithmetic"),
    "C13": dict(mods=QUERY + ["lib"], direct=["path_calculator", "lib"], tags={"C13"}, only_tagged=True),
}

T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Run:
    pass


def verus(work, text, mods, extra=(), name="g.rs", smtlog=False, timeout=300):
    f = os.path.join(work, name)
    open(f, "w").write(text)
    cmd = ["verus", f, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json",
           "--no-report-long-running", "--num-threads", "8"]
    present = set(re.findall(r"(?m)^pub mod (\w+) \{", text))
    for m in mods:
        if m == "lib":
            cmd.append("--verify-root")
        elif m in present:
            cmd += ["--verify-only-module", m]
    cmd += list(extra)
    logd = os.path.join(work, "log")
    if smtlog:
        cmd += ["--log", "smt", "--log-dir", logd]
    r = Run()
    r.cmd = " ".join(cmd)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=work)
        out, err, r.rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, r.rc = "", (e.stderr or b"").decode("utf8", "replace") if isinstance(e.stderr, bytes) else (e.stderr or ""), -1
    r.wall = time.time() - t
    r.diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                r.diags.append(json.loads(l))
            except ValueError:
                pass
    r.raw = err
    try:
        r.json = json.loads(out[out.index("{"):])
    except ValueError:
        r.json = None
    r.fns = {}
    r.smt_ms = 0
    if r.json:
        for m in r.json.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for x in m.get("function-breakdown", []):
                k = x["function"].split("::", 1)[-1]
                a = r.fns.setdefault(k, dict(ok=True, ms=0.0, mode=x.get("mode:")))
                a["ok"] = a["ok"] and x["success"]
                a["ms"] += x["time-micros"] / 1000.0
                r.smt_ms += x["time-micros"] / 1000.0
    r.obligations = 0
    if smtlog and os.path.isdir(logd):
        for b, _, fs in os.walk(logd):
            for q in fs:
                with open(os.path.join(b, q), errors="replace") as h:
                    for l in h:
                        if "(declare-const %%location_label%%" in l:
                            r.obligations += 1
        shutil.rmtree(logd)
    return r


class Failure:
    def __init__(self, kind, fn, msg, line, tags, clause, rendered, module, site=""):
        self.site = site
        self.kind, self.fn, self.msg, self.line, self.tags, self.clause, self.rendered, self.module = kind, fn, msg, line, tags, clause, rendered, module

    def where(self):
        return self.fn.name if self.fn else (self.module or "?")


def classify(r, ex, lines):
    """verifier diagnostics -> failures"""
    out = []
    for d in r.diags:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        msg = d["message"]
        spans = d.get("spans", [])
        prim = next((s for s in spans if s.get("is_primary")), spans[0] if spans else None)
        fn = None
        for s in sorted(spans, key=lambda s: not s.get("is_primary")):
            fn = ex.fn_at(s["line_start"])
            # a precondition failure points at the callee's clause as well: the call site decides
            if fn and not (msg.startswith("precondition not satisfied") and "failed precondition" in (s.get("label") or "")):
                break
        module = None
        if fn is None and prim:
            for a, b, f in ex.contracts_lines:
                if a <= prim["line_start"] <= b:
                    module = f[:-3]
        elif fn:
            module = fn.module
        cl = next((s for s in spans if "failed" in (s.get("label") or "")), prim)
        txt = "\n".join(lines[cl["line_start"] - 1:cl["line_end"]]) if cl else ""
        tags = set(re.findall(r"\[(C\d\d)\]", txt)) if re.match("postcondition|invariant|assertion", msg) else set()
        if re.search(r"rlimit|Resource limit|timed? ?out", msg):
            kind = "limit"
        elif d.get("code"):         # an error of the Rust compiler
            kind = "frontend"
        elif re.match(r"(postcondition|precondition|assertion|invariant|possible|decreases|loop (invariant|ensures)|could not prove|recommendation|unreachable|constructed value|cannot show|type invariant|termination)", msg) \
                and "must have a decreases" not in msg or msg.endswith("not satisfied"):
            kind = "refuted"
        else:
            kind = "frontend"
        out.append(Failure(kind, fn, msg, prim["line_start"] if prim else 0, tags, " ".join(txt.split())[:300], d.get("rendered", ""), module,
                           lines[prim["line_start"] - 1] if prim else ""))
    return out


def calls_uncontracted(ex, f, lines):
    names = {x.key.split("::")[-1] for x in ex.fns if x.status == "nocontract"}
    if not names:
        return False
    body = "\n".join(lines[f.lines[0] - 1:f.lines[1]])
    return any(re.search(r"\b%s\s*\(" % re.escape(n), body) for n in names if n != f.key.split("::")[-1])


def assumptions(text, modules):
    """every trusted piece of the verified text that the given modules mention, by mechanical scan"""
    parts = re.split(r"(?m)^pub mod (\w+) \{$", text)
    mods = dict(zip(parts[1::2], parts[2::2]))
    used = "\n".join(v for k, v in mods.items() if k in modules and k != "vp") + ("" if not parts else parts[-1])
    def mentioned(name):
        return re.search(r"(?<!fn )\b%s\b" % re.escape(name), used) is not None
    out = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[(.*?)\]\s*\(", text, re.S):
        n = " ".join(m.group(1).split()).strip()
        short = re.findall(r"\w+", n)[-1]
        if re.search(r"\b%s\s*\(" % short, used):
            out.append("assumed contract (std): " + n)
    for mod, body in mods.items():
        if mod not in modules and mod != "vp":
            continue
        impls = [(m.start(), m.group(1)) for m in re.finditer(r"(?m)^\s*(?:pub )?(?:impl|trait)\b(?:<[^>]*>)?\s+(?:[\w:<>, ]+ for )?(\w+)", body)]
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:proof\s+|broadcast\s+)*(fn|struct)\s+(\w+)", body):
            ind = body[body.rfind("\n", 0, m.start()) + 1:m.start()]
            own = [n for p, n in impls if p < m.start()]
            method = m.group(1) == "fn" and own and not re.search(r"(?m)^\}", body[[p for p, n in impls if p < m.start()][-1]:m.start()])
            n = (own[-1] + "::" if method else "") + m.group(2)
            if mentioned(m.group(2)) or m.group(1) == "struct":
                out.append("external_body %s: %s::%s" % (m.group(1), mod, n))
        for m in re.finditer(r"(?m)^pub broadcast axiom fn (\w+)|^pub axiom fn (\w+)", body):
            out.append("axiom: %s::%s" % (mod, m.group(1) or m.group(2)))
    n = len(re.findall(r"(?<![\w_])(?:assume|admit)\s*\(", re.sub(r"//[^\n]*", "", text)))
    out.append("assume/admit statements: %d" % n)
    return sorted(set(out[:-1])) + out[-1:]


def build_replay(work, profile="release"):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(VERIF, "replay", "target"), RUSTFLAGS="")
    env.pop("RUSTC_WRAPPER", None)
    crate = os.path.join(VERIF, "replay")
    if REPO != "/repo":
        crate = os.path.join(work, "replay")
        shutil.copytree(os.path.join(VERIF, "replay"), crate, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
        t = os.path.join(crate, "Cargo.toml")
        s = open(t).read().replace('"/repo"', '"%s"' % REPO)
        open(t, "w").write(s)
        env["CARGO_TARGET_DIR"] = os.path.join(work, "target")
    p = subprocess.run(["cargo", "build", "--offline", "--profile", profile], cwd=crate, env=env, capture_output=True, text=True)
    if p.returncode:
        log(p.stderr[-3000:])
        return None
    return os.path.join(env["CARGO_TARGET_DIR"], profile, "replay")


def norm_check(work, src, seed, secs, io):
    """the extracted text without its ghost part, run against the real code (normcheck/src/main.rs)"""
    res = dict(label="extracted text (ghost part left out) against the real code on random inputs, results and stored numbers compared: bounded, not counted as proved")
    try:
        crate = os.path.join(work, "normcheck")
        shutil.copytree(os.path.join(VERIF, "normcheck"), crate, ignore=shutil.ignore_patterns("target", "lib.rs"))
        open(os.path.join(crate, "src", "lib.rs"), "w").write(X.extract(src, CON, io=io, erase=True).text)
        t = os.path.join(crate, "Cargo.toml")
        s = open(t).read().replace('"/repo"', '"%s"' % REPO)
        open(t, "w").write(s)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="",
                   CARGO_TARGET_DIR=os.path.join(VERIF, "replay", "target") if REPO == "/repo" else os.path.join(work, "ntarget"))
        env.pop("RUSTC_WRAPPER", None)
        p = subprocess.run(["cargo", "build", "--offline", "--release"] + (["--features", "io"] if io else []), cwd=crate, env=env, capture_output=True, text=True, timeout=200)
        if p.returncode:
            return dict(res, msg="not run, the text does not build: " + p.stderr[-400:])
        p = subprocess.run([os.path.join(env["CARGO_TARGET_DIR"], "release", "normcheck"), str(seed), str(secs), crate], capture_output=True, text=True, timeout=secs + 100)
        return dict(res, **json.loads(p.stdout.strip().splitlines()[-1]))
    except Exception as e:
        return dict(res, msg="not run: %r" % e)


START = time.time()


def timed(cmd, secs):
    """None: no answer in time (nothing is concluded from that)"""
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=secs)
    except subprocess.TimeoutExpired:
        return None


def search(binary, prop, seed, secs, out):
    p = timed([binary, "search", prop, str(seed), str(secs), out], secs + 210)
    if p is None:
        return dict(found=False, evals=0, cases=0)
    try:
        j = json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        # the process died (stack overflow, abort, out of memory): that is a failure of the code as well
        j = dict(found=False, crashed=True, evals=0, cases=0, rc=p.returncode, err=p.stderr[-500:])
    return j


def main():
    prop = sys.argv[1]
    cfg = P[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = dict(property=prop, tier=tier, seed=seed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop):
            os.remove(os.path.join(rdir, f))
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        code = decide(prop, cfg, tier, seed, ev, work, rdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - T0, 1)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    sys.exit(code)


def decide(prop, cfg, tier, seed, ev, work, rdir):
    src = os.path.join(REPO, "src")
    mods = cfg["mods"]
    undecided = []          # reasons
    fails = []
    ex = r = None
    external = set()
    lines = []
    try:
        for attempt in range(6):
            ex = X.extract(src, CON, external=external, io=cfg.get("io", False))
            lines = ex.text.split("\n")
            extra = ["--multiple-errors", "20"]
            r = verus(work, ex.text, mods, extra, smtlog=(attempt == 0))
            if attempt == 0:
                obligations = r.obligations
            elif r.obligations == 0:
                r.obligations = obligations
            fails = classify(r, ex, lines)
            fe = [f for f in fails if f.kind == "frontend"]
            if r.json is None and not fails:
                undecided.append("the verifier gave no answer: " + r.raw[-400:])
                break
            if not fe:
                break
            new = {f.fn.name for f in fe if f.fn} - external
            for f in fe:
                undecided.append("%s: outside the verifier's reach: %s" % (f.where(), f.msg))
            if any(f.fn is None for f in fe) and not new:
                break
            if not new:
                break
            external |= new
    except (X.Undecided, X.LexError) as e:
        undecided.append("extraction: %s" % e)
    except Exception as e:      # a source shape the extractor does not know
        undecided.append("extraction failed: %r" % e)
    if ex is None or r is None:
        r = Run()
        r.fns, r.cmd, r.smt_ms, r.obligations, r.wall, r.json, r.diags = {}, "verus (not run)", 0, 0, 0, None, []
        if ex is None:
            ex = X.Extraction()
    undecided += ["extraction: " + p for p in ex.problems]
    if ex.text:
        undecided += ["extraction: %s is left out" % m for m in mods if m.startswith("spec_") and "pub mod %s {" % m not in ex.text]
    scope = set(mods)
    # a second opinion for failed functions: other seeds, more resources
    real = [f for f in fails if f.kind != "frontend"]
    retried = []
    if real and r.json is not None:
        bad = sorted({f.module for f in real if f.module})
        for k in (1, 2):
            if tier == "quick" and time.time() - START > 350:
                break
            r2 = verus(work, ex.text, [m for m in mods if m in bad or m == "lib" and "lib" in bad] or mods,
                       ["--multiple-errors", "20", "--rlimit", "40", "--smt-option", "smt.random_seed=%d" % (seed + 7 * k)], name="g%d.rs" % k, timeout=200)
            if r2.json is None:
                break
            f2 = classify(r2, ex, lines)
            still = {x.where() for x in f2}
            for f in real:
                if f.where() not in still:
                    retried.append("%s accepted with random seed %d" % (f.where(), seed + 7 * k))
            byfn = {}
            for x in f2:
                byfn.setdefault(x.where(), []).append(x)
            # keep the smaller account of each function: an obligation counts as failed if every attempt failed on it
            real = [f for f in real if f.where() in still]
            real = [f for f in real if f.kind != "limit"] + [x for w in {f.where() for f in real if f.kind == "limit"} for x in byfn[w]]
            r.smt_ms += r2.smt_ms
            if not real:
                break
    direct, indirect = [], []
    for f in real:
        st = f.fn.status if f.fn else None
        if f.module not in scope:
            continue
        if f.tags:
            relevant = bool(f.tags & cfg["tags"])
        elif cfg.get("only_tagged"):
            relevant = f.module in cfg.get("whole", ()) or bool(cfg.get("kinds") and re.match(cfg["kinds"], f.msg) and not re.search(r"\blemma_\w+\(", f.site))
        else:
            relevant = True
        if f.fn is not None and st == "exact" and f.kind == "refuted" and relevant and f.module in cfg["direct"] \
                and not calls_uncontracted(ex, f.fn, lines):
            direct.append(f)
        else:
            indirect.append(f)
    for x in cfg["mods"]:
        if x.startswith("spec_serde") and "\npub mod %s {" % x not in "\n" + ex.text:
            undecided.append("serialization is not plainly derived: the theorems of %s do not apply" % x)
    for x in ex.missing:
        if x.split("::")[0] in scope and not re.search(r" as (fmt::Debug|Default|Debug|Serialize)", x) and not x.endswith("unit_test_output_string"):
            undecided.append("function under contract is gone: " + x)
    for f in ex.fns:
        if f.module in scope and f.status == "nocontract" and f.name not in external:
            ex.notes.append("%s: new function without a contract" % f.name)

    # vacuity
    vac = None
    if not undecided and not direct and not indirect:
        try:
            exp = X.extract(src, CON, probes=True, io=cfg.get("io", False))
            rp = verus(work, exp.text, mods, ["--multiple-errors", "60"], name="p.rs")
            pl = exp.text.split("\n")
            hit = set()
            for d in rp.diags:
                for s in d.get("spans", []):
                    for t in pl[s["line_start"] - 1:s["line_end"]]:
                        m = re.search(r"vp_probe\((\d+)\)", t)
                        if m and d["message"].startswith("assertion failed"):
                            hit.add(int(m.group(1)))
            want = [k for k, (f, kind) in enumerate(exp.probe_list) if f.split("::")[0] in scope]
            miss = [k for k in want if k not in hit]
            vac = dict(probes=len(want), refuted=len(want) - len(miss),
                       not_refuted=["%s (%s)" % exp.probe_list[k] for k in miss])
            if miss:
                undecided.append("vacuity: a contract or invariant is contradictory at " + ", ".join(vac["not_refuted"][:5]))
        except Exception as e:
            undecided.append("vacuity probe failed: %r" % e)

    # the extraction
    norm = None
    if not undecided and not direct and not indirect:
        norm = norm_check(work, src, seed, 3 if tier == "quick" else 60, cfg.get("io", False))
        if norm.get("ok") is False:
            undecided.append("extraction: " + norm["msg"])
    verified = not undecided and not direct and not indirect
    # the real code
    binary = build_replay(work)
    out = os.path.join(rdir, "%s.case" % prop)
    smoke = 6 if verified else (90 if tier == "quick" else 400)
    if tier == "quick" and time.time() - START > 300:
        smoke = 30      # a slow machine or a verifier that took very long: an answer within 900 s
    if verified and tier == "thorough":
        smoke = 60
    j = None
    if binary is None:
        log("the replay crate does not build against /repo")
        ev.update(level="other", coverage=dict(explanation="the current tree does not build with the replay crate"), violations=0)
        return 2
    p = subprocess.run([binary, "assumed", str(seed), "5000" if tier == "quick" else "200000"], capture_output=True, text=True, timeout=300)
    try:
        assumed = dict(json.loads(p.stdout.strip().splitlines()[-1]), label="assumed contracts against the real libraries: bounded, not counted as proved")
    except (ValueError, IndexError):
        assumed = dict(ok=False, msg="did not run: " + p.stderr[-300:])
    if not assumed.get("ok"):
        undecided.append("assumed contracts: " + str(assumed.get("msg")))
        verified = False
    j = search(binary, prop, seed, smoke, out)
    found = j.get("found")
    if not found and not j.get("crashed") and prop in ("C11", "C12") :
        b2 = build_replay(work, "checked")
        if b2:
            j2 = search(b2, prop, seed + 1, max(4, smoke // 3), out)
            j["evals"] += j2.get("evals", 0)
            j["cases"] += j2.get("cases", 0)
            if j2.get("found"):
                found, j = True, dict(j2, evals=j["evals"], cases=j["cases"])
                j["msg"] = "(overflow checks on) " + j["msg"]
            elif prop == "C12" and not verified:
                p = timed([b2, "hub", out], 100)
                try:
                    jh = json.loads(p.stdout.strip().splitlines()[-1]) if p else {}
                    if jh.get("found"):
                        found, j = True, dict(jh, cases=j["cases"], evals=j["evals"] + 1)
                except (ValueError, IndexError):
                    pass
    if not found and not j.get("crashed") and prop == "C12":
        p = timed([binary, "deep", out], 200 if tier != "quick" else max(60, min(200, 800 - (time.time() - START))))
        try:
            jd = json.loads(p.stdout.strip().splitlines()[-1]) if p else dict(evals=0)
            j["evals"] += jd["evals"]
            if jd.get("found"):
                found, j = True, dict(jd, cases=j.get("cases", 0), evals=j["evals"])
        except (ValueError, IndexError):
            found, j = True, dict(msg=open(out).read().strip(), cases=j.get("cases", 0), evals=j["evals"])
    if not found and prop == "C04" and not verified and any(re.search(r"valid_flags|PathCalculator", f.where()) for f in direct + indirect) or \
            (not found and prop == "C04" and undecided and any("valid_flags" in u for u in undecided)):
        p = timed([binary, "wrap", out], 400 if tier != "quick" else max(60, min(400, 800 - (time.time() - START))))
        try:
            jw = json.loads(p.stdout.strip().splitlines()[-1]) if p else dict(evals=0)
            j["evals"] += jw["evals"]
            if jw.get("found"):
                found = True
                j = dict(jw, cases=j.get("cases", 0))
        except (ValueError, IndexError):
            pass
    crash = bool(j.get("crashed"))

    fns = [f for f in ex.fns if f.module in scope]
    contracted = [f for f in fns if f.hascontract]
    okfn = sum(1 for v in r.fns.values() if v["ok"])
    nbad = len({f.where() for f in direct + indirect})
    trusted = assumptions(ex.text, mods) if ex.text else []
    cov = dict(
        obligations=r.obligations, discharged=r.obligations if verified else max(0, r.obligations - len(direct) - len(indirect)),
        verification_units=len(r.fns), verification_units_accepted=okfn if not verified else len(r.fns),
        checker_cmd="python3 tool/check.py %s  [%s]" % (prop, re.sub(r"/tmp/\S*/", "", r.cmd)),
        trusted_base=trusted + ["Verus 0.2026.09.13 and its Z3", "tool/extract.py normalisations (DESIGN.md)", "rustc"],
        back_end="Verus/Z3", solver_time_s=round(r.smt_ms / 1000.0, 2), verifier_wall_s=round(r.wall, 1),
        functions_under_contract=sorted(f.name for f in contracted),
        functions_without_contract=sorted(f.name for f in fns if not f.hascontract),
        anchors={s: sum(1 for f in fns if f.status == s) for s in ("exact", "soft", "lost", "nocontract")},
        slowest={k: round(v["ms"]) for k, v in sorted(r.fns.items(), key=lambda x: -x[1]["ms"])[:6]},
        excluded_from_verification=sorted(ex.excluded), modules=mods,
        normalisations=sorted({re.sub(r"^[^:]*::[^:]*(::[^:]*)?: ", "", n) for n in ex.notes if n})[:60],
        vacuity=vac, retried=retried, undecided=undecided,
        failed=[dict(function=f.where(), anchors=f.fn.status if f.fn else None, kind=f.kind, message=f.msg, clause=f.clause) for f in direct + indirect],
        assumed_contracts_check=assumed, extraction_check=norm,
        real_code_runs=dict(label="bounded, not counted as proved", evaluations=j.get("evals", 0), cases=j.get("cases", 0), seconds=smoke),
    )
    if not verified:
        cov.update(evaluations=j.get("evals", 0), distinct_nontrivial=j.get("cases", 0),
                   rule="random and structured graphs, parameters, orders and queries (replay/src/main.rs gen_case) against Dijkstra on the input edges; "
                        "each generated case is one distinct graph, preparation and query list",
                   samples=j.get("samples", [])[:2] or [j.get("msg", "")])
    ev["coverage"] = cov
    ev["assumptions"] = ["64-bit usize", "memory allocation does not fail", "std and priority-queue behave as the assumed contracts in contracts/vp.rs say"]
    ev["level"] = "proof" if verified else "exploration"
    ev["violations"] = 0

    if found:
        ev["violations"] = 1
        with open(out, "a") as h:
            for f in direct + indirect:
                h.write("# failed obligation: %s: %s: %s\n" % (f.where(), f.msg, f.clause))
        print("failing input: " + str(j.get("msg")))
        print("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    if crash:
        ev["violations"] = 1
        with open(out, "w") as h:
            h.write("# the process running %s searches (seed %d) was killed: rc=%s %s\n" % (prop, seed, j.get("rc"), j.get("err")))
        print("the real code took the process down: %s" % j.get("err"))
        print("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    if direct:
        ev["violations"] = 1
        path = os.path.join(rdir, "%s.obligation.txt" % prop)
        with open(path, "w") as h:
            for f in direct + indirect:
                h.write("failed obligation in %s (anchors %s)\n%s\n%s\n%s\n" % (f.where(), f.fn.status if f.fn else None, f.msg, f.clause, f.rendered))
        for f in direct[:5]:
            print("failed obligation: %s: %s: %s" % (f.where(), f.msg, f.clause))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    if not verified:
        for u in undecided[:5]:
            print("undecided: " + u)
        for f in indirect[:5]:
            print("undecided: %s: %s: %s" % (f.where(), f.msg, f.clause))
        print("%s: not decided by proof on this tree; no failing input in %d evaluations" % (prop, j.get("evals", 0)))
        return 0
    print("%s: %d obligations discharged in %d verification units (%d functions under contract), %.1f s solver time" %
          (prop, r.obligations, len(r.fns), len(contracted), r.smt_ms / 1000.0))
    return 0


if __name__ == "__main__":
    main()
