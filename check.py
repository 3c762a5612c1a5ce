#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current working tree.

1. vx extracts the functions under contract from /repo into Verus crates (units/*.vx).
2. Verus discharges every obligation of the functions the property depends on.
3. A failed obligation is a violation; the replay crate looks for a concrete failing input
   (run on the real crate). What the verifier cannot take in (lost anchor, unsupported
   construct, resource limit, changed loop structure) is left to the same search as a bounded
   stand-in, labelled bounded.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
SRC = REPO
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(V, ".build")
T0 = time.time()
VERUS_TIMEOUT = 400


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")


def build_vx():
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "vx"), "CARGO_NET_OFFLINE": "true"}
    rc, o, e = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(V, "vx/Cargo.toml")], 600, env)
    if rc != 0:
        raise RuntimeError("vx does not build: " + e[-2000:])
    return os.path.join(BUILD, "vx/debug/vx")


EXPANDED = {}


def expanded(wd):
    """the crate after macro expansion (what serde's derives generate), from the current tree"""
    if "path" not in EXPANDED:
        env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "expand"), "CARGO_NET_OFFLINE": "true", "RUSTC_BOOTSTRAP": "1"}
        # in a copy: cargo may write a lock file, and prints nothing for a crate it thinks is up to date
        d = os.path.join(wd, "expand")
        shutil.copytree(SRC, d, ignore=lambda p, n: [x for x in n if x in (".git", "target", "fuzz", "js", "tests")])
        c = ["cargo", "rustc", "--offline", "--quiet", "--lib", "--profile", "check", "--manifest-path", os.path.join(d, "Cargo.toml"), "--", "-Zunpretty=expanded"]
        rc, o, e = run(c, 300, env)
        p = os.path.join(wd, "expanded.rs")
        open(p, "w").write(o)
        EXPANDED["path"] = p
        EXPANDED["error"] = None if rc == 0 and "fn " in o else "macro expansion failed: " + e[-400:]
    return EXPANDED["path"]


# ---------------------------------------------------------------- one unit through Verus
class UnitResult:
    def __init__(self, name):
        self.name = name
        self.fns = []          # vx report entries
        self.smt = {}          # fn id or 'lemma:<name>' -> [messages]
        self.und = {}          # fn id or '*' -> reason
        self.verified = 0
        self.errors = 0
        self.oblig = {}        # function -> labelled assertions in its queries
        self.at = {}           # function -> the extracted function it belongs to (None: a lemma)
        self.smt_ms = {}
        self.wall = 0.0
        self.cmd = ""
        self.trusted = []
        self.diag = []
        self.demoted = []
        self.vacuous = []
        self.retried = {}      # discharged only under another solver configuration
        self.vac_total = 0


def lemma_index(txt):
    """line -> enclosing fn name in hand-written text"""
    idx, cur = {}, None
    for i, l in enumerate(txt.split("\n"), 1):
        m = re.search(r"\bfn\s+([A-Za-z0-9_]+)", l)
        if m and not l.strip().startswith("//"):
            cur = m.group(1)
        idx[i] = cur
    return idx


def scan_trusted(txt, unit):
    out = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\n]*?)\]\s*\(", txt):
        out.append(f"{unit}: assumed contract of external {m.group(1).strip()}")
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", txt):
        out.append(f"{unit}: axiom {m.group(1)}")
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(?:proof\s+|exec\s+)?(fn|struct|enum|trait)\s+(\w+)", txt):
        out.append(f"{unit}: external_body {m.group(1)} {m.group(2)}")
    for m in re.finditer(r"\buninterp\s+spec\s+fn\s+(\w+)", txt):
        out.append(f"{unit}: uninterpreted {m.group(1)}")
    for m in re.finditer(r"\b(assume|admit)\s*\(", txt):
        out.append(f"{unit}: {m.group(1)} at line {txt.count(chr(10), 0, m.start()) + 1}")
    return sorted(set(out))


def own_text(txt, fns, demote):
    """the text without bodiless copies of functions verified elsewhere (twins here, externs in their unit)"""
    lines = txt.split("\n")
    for f in fns:
        if f["found"] and not f["trusted"] and f["id"] not in demote and (f["ext"] or f["twin"]):
            for i in range(f["out_start"] - 1, min(f["out_end"], len(lines))):
                if "external_body" in lines[i]:
                    lines[i] = ""
    return "\n".join(lines)


def primary_spans(d):
    return [s for s in d.get("spans", []) if s.get("is_primary")]


# other solver configurations: an obligation counts as discharged when any of them discharges it
# (the last one: the hints for a function's end repeated at early exits it has gained)
EXIT_HINTS = "exit hints"
RETRIES = [["--rlimit", "40", "-V", "spinoff-all"], ["--rlimit", "40", "--smt-option", "smt.random_seed=7"], ["--rlimit", "40", "--smt-option", "smt.random_seed=23"], [EXIT_HINTS]]


def verus_once(vx, unit, wd, tag, demote, vacuity=False, source=None, extra=()):
    rs, rj = os.path.join(wd, f"{unit}{tag}.rs"), os.path.join(wd, f"{unit}{tag}.json")
    cmd = [vx, os.path.join(V, "units", unit + ".vx"), source or SRC, rs, rj] + (["--vacuity"] if vacuity else []) + (["--expanded=" + EXPANDED["path"]] if EXPANDED.get("path") else []) + ["--demote=" + d for d in sorted(demote)]
    if EXIT_HINTS in extra:
        cmd, extra = cmd + ["--exit-hints"], [x for x in extra if x != EXIT_HINTS]
    if extra and extra[0].startswith("--alt="):
        cmd, extra = cmd + [extra[0]], extra[1:]
    rc, o, e = run(cmd, 120)
    if EXPANDED.get("error") and "\n//! expand" in open(os.path.join(V, "units", unit + ".vx")).read():
        return None, None, EXPANDED["error"], None, 0.0
    if rc != 0 or not os.path.exists(rj):
        return None, None, "extraction failed: " + e[-800:], None, 0.0
    rep = json.load(open(rj))
    txt = open(rs).read()
    ld = os.path.join(wd, f"lg_{unit}{tag}")
    c = ["verus", rs, "--output-json", "--time-expanded", "--multiple-errors", "50"]
    if not vacuity:
        c += ["--log", "air-final", "--log-dir", ld]
    m = re.search(r"^//! verus-args: (.*)$", txt, re.M)
    if m:
        c += m.group(1).split()
    c += list(extra)
    c += ["--", "--error-format=json"]
    t = time.time()
    rc, o, e = run(c, max(20, min(VERUS_TIMEOUT, 560 - (t - T0))), cwd=wd)
    w = time.time() - t
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(o[o.index("{"):]) if "{" in o else None
    except ValueError:
        js = None
    if js is None and not [d for d in diags if d.get("level") == "error"]:
        return rep, txt, ("verus timed out" if rc == 124 else "verus gave no result: " + (e or o)[-600:]), None, w
    return rep, txt, None, (js, diags, ld, " ".join(c)), w


def fn_at(rep, line):
    for f in rep["functions"]:
        if f["found"] and f["out_start"] <= line < max(f["out_end"], f["out_start"] + 1):
            return f["id"]
    return None


def count_obligations(ld):
    """labelled assertions per function, and the line its query comes from"""
    n, at, cur, head = {}, {}, None, False
    p = os.path.join(ld, "root-final.air")
    files = [os.path.join(ld, f) for f in os.listdir(ld) if f.endswith("-final.air")] if os.path.isdir(ld) else []
    for p in files:
        inq = False
        for l in open(p, errors="replace"):
            if l.startswith(";; "):
                m = re.match(r";; (?:Function-\S+|Query|Loop\S*) (\S+)", l)
                if m:
                    cur, head = m.group(1).split("::", 1)[-1], l.startswith(";; Function-Def")
                elif head:
                    m = re.match(r";; \S+\.rs:(\d+):", l)
                    if m:
                        at[cur] = int(m.group(1))
                    head = False
            elif l.startswith("(check-valid"):
                inq = True
            elif inq and re.match(r'\s+\("', l):
                n[cur] = n.get(cur, 0) + 1
            elif l.startswith("(") or l.startswith(";;"):
                inq = l.startswith("(check-valid")
    return n, at


SMT_LIKE = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                      r"arithmetic underflow/overflow|possible (division|bit shift)|decreases not satisfied|termination|loop ensures|"
                      r"not satisfied|possible |unreachable|could not prove|requires not|recommendation")
RLIMIT = re.compile(r"rlimit|Resource limit|timed? ?out|solver|canceled", re.I)


def failed_keys(errs, rep, txt):
    """(function or lemma, smt/und, (message, rendered)) of every failed obligation"""
    out, lem = [], lemma_index(txt)
    for d in errs:
        where = set()
        msg = d["message"]
        # the function whose proof failed: for a postcondition the span of the body exit
        for s in d.get("spans", []):
            lab = s.get("label") or ""
            if "postcondition not satisfied" in msg and ("end of the function" in lab or "at this exit" in lab):
                where.add(s["line_start"] if "exit" in lab else s["line_end"])
        if not where:
            where = {s["line_start"] for s in primary_spans(d) if s["file_name"].endswith(".rs")}
        rendered = d.get("rendered") or msg
        kind = "und" if RLIMIT.search(msg) and not SMT_LIKE.search(msg) else "smt"
        for ln in where:
            out.append((fn_at(rep, ln) or ("lemma:" + str(lem.get(ln))), kind, (msg, rendered)))
        if not where:
            out.append(("*", "und", (msg, rendered)))
    return out


def rejected(js):
    """the front end refused the text, so nothing was decided"""
    vr = (js or {}).get("verification-results") or {}
    return not vr or vr.get("encountered-vir-error") or (vr.get("encountered-error") and not vr.get("errors"))


def verify_unit(vx, unit, wd):
    """extract + verify, demoting functions whose bodies Verus cannot take in"""
    r = UnitResult(unit)
    demote = set()
    for attempt in range(6):
        rep, txt, err, res, w = verus_once(vx, unit, wd, f"_{attempt}", demote)
        r.wall += w
        if rep is not None:
            r.fns = rep["functions"]
            for e in rep["errors"]:
                fid = e.split(": ")[0]
                r.und[fid if any(f["id"] == fid for f in r.fns) else "*"] = e
        if err:
            r.und["*"] = err
            return r
        js, diags, ld, cmd = res
        r.cmd = cmd
        vr = (js or {}).get("verification-results", {})
        errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due")]
        if rejected(js):
            new, glob = set(), []
            for d in errs:
                ids = {fn_at(rep, s["line_start"]) for s in primary_spans(d)}
                ids = {i for i in ids if i} or {fn_at(rep, s["line_start"]) for s in d.get("spans", [])}
                ids = {i for i in ids if i}
                if ids and not ids <= demote:
                    new |= ids
                    for i in ids:
                        r.und[i] = d["message"][:300]
                else:
                    glob.append(d["message"][:300])
            if new - demote and attempt < 5:
                demote |= new
                continue
            r.und["*"] = "verifier front end: " + "; ".join(glob or [d["message"][:300] for d in errs] or ["no diagnostics"])
            return r
        r.demoted = sorted(demote)
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        keyed = failed_keys(errs, rep, txt)
        bad = {k for k, _, _ in keyed}
        more = []
        # functions whose first proof failed or does not fit the code: their other proofs
        nalts = {f["id"]: f.get("alts", 0) for f in rep["functions"]}
        back = {d for d in demote if nalts.get(d)}
        tries = [(a, demote) for a in RETRIES] if bad else []
        late = False
        for f in sorted(bad | back):
            tries += [(["--alt=%d@%s" % (k, f)], demote - {f}) for k in range(nalts.get(f, 0))]
        if tries:
            with ThreadPoolExecutor(min(6, len(tries))) as ex:
                futs = [ex.submit(verus_once, vx, unit, wd, f"_{attempt}r{i}", dem, False, None, a) for i, (a, dem) in enumerate(tries)]
                for i, f in enumerate(futs):
                    rep2, txt2, err2, res2, w2 = f.result()
                    late |= err2 == "verus timed out"
                    if err2 or rejected(res2[0]):
                        continue
                    bad2 = {k for k, _, _ in failed_keys([d for d in res2[1] if d.get("level") == "error" and not d["message"].startswith("aborting due")], rep2, txt2)}
                    for k in sorted(bad - bad2):
                        r.retried[k] = " ".join(tries[i][0])
                    bad &= bad2
                    for k in sorted(back - tries[i][1] - bad2):
                        r.retried[k] = " ".join(tries[i][0])
                        n2, at2 = count_obligations(res2[2])
                        more.append(({q: c for q, c in n2.items() if q in at2 and fn_at(rep2, at2[q]) == k}, k))
                        back.discard(k)
                        demote.discard(k)
                        r.und.pop(k, None)
                        notes2 = {g["id"]: g for g in rep2["functions"]}[k]
                        for g in r.fns:
                            if g["id"] == k:
                                g["notes"] = notes2["notes"]
        r.demoted = sorted(demote)
        r.verified, r.errors = r.verified + len(r.retried), max(0, r.errors - len(r.retried))
        for key, kind, (msg, rendered) in keyed:
            if key not in bad:
                continue
            r.diag.append(rendered)
            if kind == "und" or late:
                r.und[key] = msg[:300] + (" (another proof ran out of time)" if late else "")
            else:
                r.smt.setdefault(key, []).append(rendered)
        for m in ((js.get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.smt_ms[f["function"].split("::", 1)[-1]] = round(f.get("time-micros", 0) / 1000.0, 2)
        r.oblig, at = count_obligations(ld)
        r.at = {k: fn_at(rep, at[k]) if k in at else None for k in r.oblig}
        for n2, k in more:
            for q, c in n2.items():
                r.oblig[q], r.at[q] = c, k
        r.trusted = scan_trusted(own_text(txt, r.fns, demote), unit)
        for f in r.fns:
            if f["trusted"]:
                r.trusted.append(f"{unit}: body of {f['id']} not verified (trusted)")
        for d in sorted(demote):
            r.trusted.append(f"{unit}: body of {d} not verified (outside the verifier's reach)")
        return r
    return r


def vacuity_unit(vx, unit, wd):
    """assert(false) at the start of every function and loop body must be refuted"""
    rep, txt, err, res, w = verus_once(vx, unit, wd, "_vac", set(), vacuity=True)
    if err or res[0] is None or not res[0].get("verification-results", {}).get("errors"):
        return None
    hit = set()
    for d in res[1]:
        if d.get("level") == "error" and "assertion failed" in d["message"]:
            for s in primary_spans(d):
                hit.add(s["line_start"])
    lines = txt.split("\n")
    vac = [i for i, l in enumerate(lines, 1) if "// VACUITY" in l]
    rlim = {fn_at(rep, s["line_start"]) for d in res[1] if "rlimit" in d["message"] for s in d.get("spans", [])}
    miss = [fn_at(rep, i) for i in vac if i not in hit and fn_at(rep, i) not in rlim]
    trusted = {f["id"] for f in rep["functions"] if f["trusted"]}
    return len(vac), sorted({m for m in miss if m and m not in trusted})


# ---------------------------------------------------------------- call-graph closure
def seg(fid):
    return re.split(r"::|#", fid)[-1]


def closure(units, roots):
    """functions under contract reachable from the roots (by callee name, over all units used)"""
    byname = {}
    for u in units:
        for f in u.fns:
            byname.setdefault(seg(f["id"]), []).append((u, f))
    seen, todo = {}, []
    for u in units:
        for f in u.fns:
            if any(f["id"] == x or (x.endswith("*") and f["id"].startswith(x[:-1])) for x in roots):
                todo.append((u, f))
    while todo:
        u, f = todo.pop()
        if (u.name, f["id"]) in seen:
            continue
        seen[(u.name, f["id"])] = (u, f)
        if f["ext"]:
            for v in units:
                if v.name == f["ext"]:
                    todo += [(v, g) for g in v.fns if g["id"] == f["id"]]
            continue
        for c in f["calls"]:
            for v, g in byname.get(c, []):
                if v is u:
                    todo.append((v, g))
    return seen


# ---------------------------------------------------------------- concrete search
def mine_literals(path):
    strings, ints = [], set()
    files = []
    for b, ds, fs in os.walk(os.path.join(SRC, "src")):
        ds.sort()
        files += [os.path.join(b, f) for f in sorted(fs) if f.endswith(".rs")]
    base = set(json.load(open(os.path.join(V, "replay/base_lits.json"))))
    for f in files:
        t = open(f, errors="replace").read()
        t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', t):
            s = m.group(1)
            s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)
            s = s.replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').replace("\\\\", "\\")
            if len(s) < 200:
                strings.append(s)
        for m in re.finditer(r"b?'((?:[^'\\]|\\.|\\u\{[0-9a-fA-F]+\}))'", t):
            s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), m.group(1))
            strings.append(s.replace("\\n", "\n").replace("\\t", "\t").replace("\\'", "'").replace("\\\\", "\\"))
        for m in re.finditer(r"\b(\d[\d_]*)(?:u8|u16|u32|u64|usize|i32|i64|f64)?\b|\b0x([0-9a-fA-F]+)\b", t):
            try:
                v = int(m.group(1).replace("_", "")) if m.group(1) else int(m.group(2), 16)
            except ValueError:
                continue
            if 2 <= v <= 5000000:
                ints.add(v)
        for m in re.finditer(r"\b(\d[\d_]*)\s*(<<|\*)\s*(\d[\d_]*)\b", t):
            a, b = int(m.group(1).replace("_", "")), int(m.group(3).replace("_", ""))
            v = a * b if m.group(2) == "*" else a << min(b, 40)
            if 2 <= v <= 5000000:
                ints.add(v)
    strings = list(dict.fromkeys(strings))
    new = [s for s in strings if s not in base]
    old = [s for s in strings if s in base]
    # literals that are not in the tree these checks were written against come first
    newi = sorted(v for v in ints if ("#%d" % v) not in base)
    oldi = sorted(v for v in ints if ("#%d" % v) in base and v < 300)[:12]
    json.dump({"strings": new + old, "new": len(new), "big": [v for v in newi if v > 1000][:12], "ints": newi + oldi}, open(path, "w"))


def build_replay(full):
    d = os.path.join(BUILD, "replay-full" if full else "replay")
    man = os.path.join(V, "replay")
    if SRC != "/repo":  # scratch trees during development
        man = os.path.join(BUILD, "replay-src")
        shutil.rmtree(man, ignore_errors=True)
        shutil.copytree(os.path.join(V, "replay"), man)
        p = os.path.join(man, "Cargo.toml")
        s = open(p).read().replace('path = "/repo"', f'path = "{SRC}"')
        open(p, "w").write(s)
    env = {"CARGO_TARGET_DIR": d, "CARGO_NET_OFFLINE": "true"}
    c = ["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(man, "Cargo.toml")]
    if full:
        c += ["--features", "full"]
    rc, o, e = run(c, 600, env)
    if rc != 0:
        # without the segmenters' crates: everything but Chinese and Japanese
        return build_replay(False) if full else (None, e[-1500:])
    return os.path.join(d, "release/replay"), None


def search(prop, wd, full, budget, known):
    exe, err = build_replay(full)
    if exe is None:
        return {"error": "replay crate does not build: " + err}
    lits = os.path.join(wd, "lits.json")
    mine_literals(lits)
    rc, o, e = run([exe, prop, TIER, str(SEED), "--lits", lits, "--budget", str(budget)], budget + 120)
    try:
        j = json.loads(o.strip().split("\n")[-1])
    except (ValueError, IndexError):
        if rc < 0 or rc > 128:  # the real code brought the process down (abort, stack overflow)
            return {"error": f"search process died with status {rc}", "crash": True}
        return {"error": f"search gave no result (rc {rc}): {e[-300:]}"}
    j["exe"] = exe
    return j


# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    cfg = json.load(open(os.path.join(V, "checks.json")))[prop]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix=f"vx-{prop}-")
    try:
        return decide(prop, cfg, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def decide(prop, cfg, wd):
    vx = build_vx()
    names = cfg["units"]
    thorough = TIER == "thorough"
    if any("\n//! expand" in open(os.path.join(V, "units", u + ".vx")).read() for u in names):
        expanded(wd)
    with ThreadPoolExecutor(8) as ex:
        fu = [ex.submit(verify_unit, vx, u, wd) for u in names]
        fv = [ex.submit(vacuity_unit, vx, u, wd) for u in names]
        units = [f.result() for f in fu]
        vacs = [f.result() for f in fv]
    clo = closure(units, cfg["roots"])
    lemmas = set(cfg.get("lemmas", []))
    failed, undecided, hard = {}, {}, False
    for r in cfg["roots"]:
        if not r.endswith("*") and not any(f["id"] == r for u in units for f in u.fns):
            undecided[r] = "root not in the unit"
    for u in units:
        if "*" in u.und:
            undecided[f"{u.name}"] = u.und["*"]
        for k, msgs in u.smt.items():
            if k.startswith("lemma:"):
                n = k[6:]
                if n in lemmas:
                    failed[f"{u.name}:{n}"] = msgs
                    hard = True
                elif not any(n in c.get("lemmas", []) for c in json.load(open(os.path.join(V, "checks.json"))).values()):
                    undecided[f"{u.name}:{n}"] = "lemma: " + msgs[0][:200]
            elif (u.name, k) in clo:
                failed[f"{u.name}:{k}"] = msgs
                f = clo[(u.name, k)][1]
                if not f["notes"] and not f["inlined"]:
                    hard = True
        for k, why in u.und.items():
            if k == "*":
                continue
            if k.startswith("lemma:"):
                n = k[6:]
                if n in lemmas or not any(n in c.get("lemmas", []) for c in json.load(open(os.path.join(V, "checks.json"))).values()):
                    undecided[f"{u.name}:{n}"] = why
            elif (u.name, k) in clo:
                undecided[f"{u.name}:{k}"] = why
    # vacuity: every reachability assertion must have been refuted
    vac_note, vac_n = [], 0
    for u, v in zip(units, vacs):
        if v is None:
            if not u.und:
                vac_note.append(f"{u.name}: vacuity run gave no result")
        else:
            vac_n += v[0]
            for m in v[1]:
                if (u.name, m) in clo and f"{u.name}:{m}" not in failed and m not in u.demoted:
                    undecided[f"{u.name}:{m}"] = "vacuous: assert(false) is accepted inside it"
    # obligations
    ob, dis, fns, ms = 0, 0, [], 0.0
    for (un, fid), (u, f) in sorted(clo.items()):
        if f["ext"]:
            continue
        keys = [k for k in u.oblig if u.at.get(k) == fid]
        n = sum(u.oblig[k] for k in keys)
        t = sum(u.smt_ms.get(k, 0) for k in keys)
        bad = f"{un}:{fid}" in failed or f"{un}:{fid}" in undecided or f["trusted"] or fid in u.demoted or "*" in u.und
        ob += n
        dis += 0 if bad else n
        ms += t
        fns.append({"function": fid, "unit": un, "obligations": n, "solver_ms": round(t, 1), "discharged": not bad, "line": f["src_line"],
                    "loops": f["loops"], "inlined_helpers": f["inlined"], "notes": f["notes"]})
    lem_n = 0
    for u in units:
        for k, n in u.oblig.items():
            base = (k or "").split("::")[-1]
            if u.at.get(k) is None:
                lem_n += n
                ob += n
                dis += n if "*" not in u.und and f"{u.name}:{base}" not in failed and f"{u.name}:{base}" not in undecided else 0
    trusted = sorted({t for u in units for t in u.trusted} | {f"{un}: contract of {fid} used here, its body is verified in unit {f['ext']}, which this check does not run"
                     for (un, fid), (u, f) in clo.items() if f["ext"] and f["ext"] not in names})
    if not clo and not undecided:
        undecided["*"] = "no function under contract was extracted"
    if ob == 0 and not undecided:
        undecided["*"] = "no obligation was generated"
    proved = not failed and not undecided
    known = known_findings(prop)
    if known and proved:
        proved_but = True
    s = None
    if not proved or thorough:
        budget = (240 if thorough else 90) if not proved else 120
        if cfg.get("search", True):
            left = 840 - (time.time() - T0) - 150
            s = search(prop, wd, cfg.get("full", False), max(10, min(budget, left)), known)
    viol, line = 0, None
    concrete = bool(s and s.get("violation"))
    explained = None
    if failed and hard and not concrete:
        # the failed contract is shared with other properties: when the change demonstrably breaks one
        # of those and no input breaks this one, the failure is not evidence against this one
        for sib in cfg.get("siblings", []):
            left = 840 - (time.time() - T0) - 60
            if left < 20:
                break
            z = search(sib, wd, cfg.get("full", False), min(40, left), [])
            if z.get("violation"):
                explained = {"property": sib, "input": z["violation"]}
                break
    if concrete or (failed and hard and not explained):
        viol = 1
        h = hashlib.sha1(json.dumps([prop, sorted(failed), s.get("violation") if s else None], sort_keys=True, default=str).encode()).hexdigest()[:10]
        rp = os.path.join(V, "replays", f"{prop}-{h}.json")
        doc = {"property": prop, "failed_obligations": {k: [m[:3000] for m in v[:5]] for k, v in failed.items()}, "undecided": undecided,
               "input": (s or {}).get("violation"),
               "replay": f"the input is executed on the real crate: {s.get('exe')} {prop} quick 1 --case '<input.case as JSON>'" if concrete else
               "no failing input was found; failed_obligations carries the verifier's output", "search": {k: (s or {}).get(k) for k in ("evaluations", "distinct", "error")}}
        json.dump(doc, open(rp, "w"), indent=1, ensure_ascii=False)
        line = f"VIOLATION property={prop} replay={rp}" + ("" if concrete else " no-failing-input-found")
    # a failure in a function whose structure changed, with no failing input: undecided, bounded
    cov = {"obligations": ob, "discharged": dis, "checker_cmd": "; ".join(u.cmd for u in units),
           "trusted_base": trusted, "functions": fns, "lemma_obligations": lem_n, "solver_ms": round(ms, 1),
           "verus_verified": {u.name: u.verified for u in units}, "verus_errors": {u.name: u.errors for u in units}, "verus_wall_s": {u.name: round(u.wall, 1) for u in units},
           "other_solver_configuration": {u.name: u.retried for u in units if u.retried},
           "back_end": "Verus 0.2026.09.13 with its bundled Z3", "reachability_assertions": vac_n, "vacuity_notes": vac_note}
    level = "proof"
    if failed:
        cov["failed"] = {k: v[0][:800] for k, v in failed.items()}
    if explained:
        cov["explained_by"] = explained
        undecided.update({k: "contract shared with %s, which this tree breaks: %s" % (explained["property"], v[0][:200]) for k, v in failed.items()})
    if undecided:
        cov["undecided"] = undecided
    if s is not None:
        cov["bounded_search"] = {k: s.get(k) for k in ("evaluations", "distinct", "samples", "wall_s", "error") if s.get(k) is not None}
        cov["bounded_search"]["label"] = "bounded: finite set of inputs executed on the real crate; " + ("stands in for the obligations listed under undecided" if not proved else "cross-checks the trusted contracts; not counted as proof")
    if not proved:
        level = "exploration"
        cov.update({"evaluations": (s or {}).get("evaluations", 0) or 0, "distinct_nontrivial": (s or {}).get("distinct", 0) or 0,
                    "rule": "exhaustive small inputs, source literals and random inputs, executed on the real crate against an executable oracle", "samples": (s or {}).get("samples", []) or ["none"]})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["see coverage.trusted_base for every assumed contract, axiom and unverified body"],
          "wall_s": round(time.time() - T0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if line:
        for k, v in failed.items():
            print(f"failed obligation: {k}: {v[0].splitlines()[0]}")
        if concrete:
            print("failing input:", json.dumps(s["violation"], ensure_ascii=False)[:1200])
        print(line)
        return 1
    if proved:
        print(f"{prop}: proved, {dis} obligations in {len(fns)} functions and {lem_n} in lemmas discharged" + (f"; {s.get('evaluations')} inputs cross-checked" if s else ""))
    else:
        for k, v in list(undecided.items()) + [(k, v[0]) for k, v in failed.items()]:
            print(f"undecided by proof: {k}: {str(v).splitlines()[0][:300]}")
        print(f"{prop}: held on every input of the bounded stand-in ({(s or {}).get('evaluations')} inputs); bounded, not proved {(s or {}).get('error') or ''}")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as x:  # the machinery itself broke: say so, raise no alarm
        import traceback
        traceback.print_exc()
        print("check error:", x)
        sys.exit(2)
