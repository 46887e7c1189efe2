#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo by deductive verification of the code in /repo's working tree:
 1. macro-expands the two crates of /repo (rustc -Zunpretty=expanded),
 2. extracts them mechanically, with the contracts of /verif/spec woven in (extract/),
 3. lets Verus discharge every obligation (function by function, z3),
 4. attributes every failed obligation to properties, and
 5. replays the property's oracle against the real crates (replay/) to find a failing input.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself could not run.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
sys.dont_write_bytecode = True
import vacuity

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, "work"))
EVID = os.path.join(HERE, "evidence")
RLIMIT = "100"
VERUS_ARGS = ["--multiple-errors", "8", "--output-json", "--time-expanded", "--error-format=json"]
T0 = time.time()

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin:/usr/local/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_MIN_STACK="67108864")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e

class CheckError(Exception):
    pass

def run(cmd, timeout=600, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(cmd[:6]))
    return p, time.time() - t

# ---------------------------------------------------------------------------------------------
# attribution of obligations to properties

def base_props(k):
    """The property a function of the codec part serves (k: key without crate name)."""
    if "setup_connection_error_code" in k or "OpenMiningChannelErrorCode" in k: return {"C11"}
    if "Flags" in k.split(" as ")[0].split("::")[-1] or re.search(r"Flags::|<SetupConnection(Success)?Flags as", k): return {"C10"}
    if "Protocol" in k: return {"C04", "C09"}
    if k.startswith("types::") and " as PartialEq<" in k: return {"C23"}
    back = {"C23"} if re.search(r"<(u32|usize|\[u8;32\]|Vec<u8>|String) as From<", k) else set()
    if k.startswith(("types::primitives", "types::fixed")): return {"C01"} | back
    if k.startswith(("types::bytes", "types::strings")): return {"C02"} | back
    if k.startswith("types::message_type"): return {"C07"}
    if k.startswith("types::unix_timestamp"): return {"C13"}
    if k.startswith("codec::frame"):
        return {"C08"} if re.search(r"::(un)?frame$", k) else {"C06"}
    if k.startswith("codec::parser"): return {"C03"}
    if k.startswith("codec::deserialize"): return {"C03", "C04"}
    if k.startswith("codec::serialize"): return {"C04", "C05"}
    if "new_channel_id" in k or "generate_authority_keypair" in k: return {"C31"}
    if k.startswith("network::peer"): return {"C20", "C30"}
    if k.startswith("network::"): return {"C14", "C17"}
    if k.startswith("noise::"):
        if "noise_session" in k: return {"C14", "C15"}
        if "signature_noise_message" in k or "Signature as" in k: return {"C04", "C12"}
        return {"C12"}
    if k.startswith(("common::", "mining::", "job_negotiation::")): return {"C04"}
    return set()

def clause_props(key, kind, tag):
    """Properties served by one contract clause of function `key`."""
    if re.match(r"C\d\d", tag):
        return set(tag.split(":")[0].split("+"))
    if key.startswith("noiseexplorer_nx::"):
        return {"C18", "C15"} if "forbidden" in key else {"C15", "C16", "C19"} if tag == "const" else {"C15"}
    k = key.split("::", 1)[1]
    m = base_props(k)
    fn = k.rsplit("::", 1)[-1]
    if fn == "serialize":
        if tag in ("deliver", "append", "count", "keep", "total"): return {"C05"} | ({"C06"} if "frame::" in k and tag == "total" else set())
        return m
    if fn == "message_type": return {"C07", "C08"}
    if fn == "deserialize":
        if tag in ("frame", "cursor", "bounds", "cursor-err"): return {"C03"}
        if "SetupConnection as" in k and tag == "accept": return m | {"C09"}
        if "SetupConnection as" in k and tag == "value": return m | {"C09"}
        if "SetupConnectionError as" in k and tag in ("accept", "value"): return m | {"C10"}
        return m
    if tag in ("valid",): return {"C09"}
    if tag in ("rule",): return {"C10"}
    if tag == "variant": return m | {"C09"}
    if "SetupConnection::new" in k: return m | {"C09"}
    if "SetupConnectionError::new" in k: return m | {"C10"}
    return m

def safety_props(key):
    """Properties that the absence of panics, overflows and unmet preconditions in a function serves."""
    if key.startswith("noiseexplorer_nx::") or "network::encryptor" in key: return {"C17"}
    k = key.split("::", 1)[-1]
    m = base_props(k)
    fn = k.rsplit("::", 1)[-1]
    if fn == "deserialize": return m | {"C03"}
    if fn == "serialize": return m | {"C05"}
    return m

# which other properties' contracts a property's argument rests on (for the evidence and the replay)
RESTS_ON = {
    "C04": ["C01", "C02", "C10", "C11"], "C06": ["C01", "C07"], "C08": ["C04", "C06", "C07"], "C09": ["C02", "C04"],
    "C11": ["C02"], "C12": ["C01", "C05", "C13"], "C14": ["C15", "C16"], "C15": ["C16", "C17", "C18", "C22"],
    "C18": ["C15"], "C19": ["C15"], "C21": ["C16"], "C31": ["C22"],
}

# ---------------------------------------------------------------------------------------------
# 1-3: expansion, extraction, verification

def expand(res):
    tgt = os.path.join(WORK, "expand-target")
    e = env(); e["CARGO_TARGET_DIR"] = tgt; e["RUSTC_BOOTSTRAP"] = "1"
    out = {}
    for c in ("stratumv2", "noiseexplorer_nx"):
        cmd = ["cargo", "rustc", "-p", c, "--lib", "--profile=check", "--offline", "--", "-Zunpretty=expanded"]
        p, _ = run(cmd, cwd=REPO, env=e)
        if p.returncode != 0 or len(p.stdout) < 1000:
            raise CheckError("macro expansion of %s failed:\n%s" % (c, p.stderr[-3000:]))
        f = os.path.join(WORK, "expanded_%s.rs" % c)
        open(f, "w").write(p.stdout)
        out[c] = f
    log("expanded")
    return out

def build_extractor():
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(WORK, "extract-target")
    p, t = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "extract"), env=e)
    if p.returncode != 0:
        raise CheckError("extractor does not build:\n" + p.stderr[-3000:])
    log("extractor built")
    return os.path.join(WORK, "extract-target", "debug", "extract")

def extract(exe, exp, external, drop):
    out, meta = os.path.join(WORK, "code.rs"), os.path.join(WORK, "meta.json")
    cmd = [exe] + ["--crate", "noiseexplorer_nx=" + exp["noiseexplorer_nx"], "--crate", "stratumv2=" + exp["stratumv2"]]
    for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.vspec"))):
        cmd += ["--spec", f]
    cmd += ["--params", os.path.join(HERE, "spec", "params.json"), "--out", out, "--meta", meta]
    for k in sorted(external): cmd += ["--external", k]
    for k in sorted(drop): cmd += ["--drop", k]
    p, _ = run(cmd, cwd=WORK, env=env())
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return out, json.load(open(meta))

def vacuity_guard(res):
    """thorough tier: no contract is established from contradictory assumptions (see vacuity.py)"""
    if res.get("undecided") or res["failures"]: return
    src = open(os.path.join(WORK, "code.rs")).read()
    out, names, skipped = vacuity.instrument(src, res["meta"])
    out = out.replace("pub mod vshim {", "pub uninterp spec fn vac(n: int) -> bool;\npub mod vshim {", 1)
    f = os.path.join(WORK, "vacuity.rs")
    open(f, "w").write(out)
    v = verus(f, args=["--multiple-errors", "40", "--output-json", "--error-format=json"])
    left, gave_up = vacuity.judge(out, names, v["diags"])
    res["vacuity"] = {"functions_and_lemmas": len(names), "not_established": len(names) - len(left), "of_these_solver_gave_up": gave_up, "vacuously_established": left, "skipped": skipped, "time": round(v["time"], 1)}
    log("vacuity guard: %d of %d" % (len(names) - len(left), len(names)))

def verus(src, rlimit=RLIMIT, args=VERUS_ARGS):
    cmd = ["verus", os.path.basename(src)] + args + ["--rlimit", rlimit]
    p, t = run(cmd, cwd=WORK, env=env(), timeout=780)
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting"): diags.append(d)
    try:
        out = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        out = {}
    return {"diags": diags, "out": out, "stderr": p.stderr, "time": t, "rc": p.returncode, "cmd": " ".join(cmd)}

def spans(d):
    r = []
    for s in d.get("spans", []):
        e = s
        while e.get("expansion"): e = e["expansion"]["span"]
        if os.path.basename(e["file_name"]) == "code.rs":
            r.append((e["line_start"], bool(s["is_primary"]), s.get("label") or ""))
    for c in d.get("children", []):
        r += [(l, False, x) for (l, _, x) in spans(c)]
    return r

def fn_at(meta, line):
    best = None
    for f in meta["fns"]:
        if f["start"] <= line <= f["end"] and (best is None or f["end"] - f["start"] < best["end"] - best["start"]):
            best = f
    return best

def item_at(meta, line):
    best = None
    for f in meta["items"]:
        if f["start"] <= line <= f["end"] and (best is None or f["end"] - f["start"] < best["end"] - best["start"]):
            best = f
    return best

def raw_fn(lines, line):
    """name and module of the lemma or theorem around a line of ghost code"""
    for i in range(line - 1, -1, -1):
        m = re.match(r"\s*(?:pub |broadcast |#\[.*\] )*(?:proof |exec )?fn (\w+)", lines[i])
        if m: return m.group(1)
    return "?"

def clause_at(meta, line):
    for f in meta["fns"]:
        for c in f["clauses"]:
            if c["start"] <= line <= c["end"]: return f, c
    return None, None

KNOWN = json.load(open(os.path.join(HERE, "spec", "known.json")))
SHAPES = [r"\S+ (<<|>>) (8|16|24|32|40|48|56)$", r"\S+ >> 15$", r"\S+ & (1|255|32768|32767)$", r"(1|255|32768|32767) & \S+$",
          r"\S+ [|^] 32768$", r"32768 [|^] \S+$", r"x [|] x$", r"\S+ [%/*] \d+$", r"\d+ [*] \S+$"]

def unfamiliar(meta, fn):
    """What a function uses whose meaning the verifier does not know: a failed obligation there may be the
    verifier's ignorance, so it is not reported without a failing input (see DESIGN.md, 'weak')."""
    if "known" not in meta:
        meta["known"] = set(KNOWN["uses"])
        meta["contract_names"] = set(f["key"].rsplit("::", 1)[-1] for f in meta["fns"] if f["clauses"])
        for f in meta["fns"]:
            q = re.match(r"(?:.*::)?(?:<(\w+)[^>]* as .*>|(\w+)(?:<.*>)?)::(\w+)$", f["key"])
            if q and f["clauses"]: meta["contract_names"].add("%s::%s" % (q.group(1) or q.group(2), q.group(3)))
    r = []
    for u in fn.get("uses", []):
        if u in meta["known"] or u.startswith((".v_", "vshim::")): continue
        if re.match(r"[.\w]", u) and " " not in u:
            name = u.rsplit("::", 1)[-1].lstrip(".")
            if name[:1].isupper(): continue
            if u.startswith(".") or u.startswith(("Self::", "T::")) or "::" not in u:
                if name in meta["contract_names"]: continue
            elif u in meta["contract_names"] or not re.match(r"(Vec|String|Box|Option|Result|str|u\d+|usize|i\d+|f\d+|slice|array|mem|iter|cmp)::", u) and name in meta["contract_names"]: continue
        elif any(re.match(p, u) for p in SHAPES): continue
        r.append(u)
    if fn.get("loops", []) != KNOWN["loops"].get(fn["key"], []): r.append("a rewritten loop")
    return r

def attribute(meta, lines, d):
    """-> dict(fn, clause, props, msg, weak)"""
    sp = spans(d)
    msg = d["message"]
    clause, cfn, fn = None, None, None
    for l, prim, lab in sp:
        f, c = clause_at(meta, l)
        if c and not (c["kind"] == "exit"): cfn, clause = f, c
        elif c: fn, clause, cfn = f, c, f
        else:
            g = fn_at(meta, l)
            if g and g["mode"] != "decl": fn = g
    weak = "rlimit" in msg or "Resource limit" in msg or "timed out" in msg
    if fn is None and sp:
        g = fn_at(meta, sp[0][0])
        inraw = any(a <= sp[0][0] <= b for a, b in meta["rawblocks"])
        if g is None or inraw and g["mode"] == "decl":
            name = raw_fn(lines, sp[0][0])
            ps = set(re.findall(r"C\d\d", name))
            return dict(fn=name, clause=None, props=ps, msg=msg, weak=weak, lemma=True)
        fn = g
    if fn is None:
        return dict(fn="?", clause=None, props=set(), msg=msg, weak=True)
    key = fn["key"]
    why = unfamiliar(meta, fn)
    weak = weak or bool(fn["lost"]) or bool(why)
    if clause and clause["kind"] in ("ensures", "exit") and "postcondition" in msg or clause and clause["kind"] == "exit":
        props = clause_props(key, clause["kind"], clause["tag"])
        text = "%s [%s] %s" % (clause["kind"], clause["tag"], clause["text"])
    else:
        props = set(safety_props(key))
        text = None
        if clause:
            if re.match(r"C\d\d", clause["tag"]): props |= clause_props(cfn["key"], "requires", clause["tag"])
            text = "%s of %s [%s] %s" % (clause["kind"], cfn["key"], clause["tag"], clause["text"])
        if "assertion" in msg or "invariant" in msg:
            # an intermediate proof step of this function: everything the function establishes
            props |= fn_props(meta, fn)
    return dict(fn=key, clause=text, props=props, msg=msg, weak=weak, why=why)

def fn_props(meta, f):
    ps = set(safety_props(f["key"]))
    for c in clauses_of(meta, f):
        ps |= clause_props(f["key"], c["kind"], c["tag"])
    return ps

TRAIT_DECL = {"Serializable>::serialize": "codec::serialize::Serializable::serialize",
              "Deserializable>::deserialize": "codec::deserialize::Deserializable::deserialize",
              "Frameable>::message_type": "codec::frame::Frameable::message_type"}

def clauses_of(meta, f):
    """contract clauses of a function, including those it inherits from its trait"""
    cl = list(f["clauses"])
    for suf, decl in TRAIT_DECL.items():
        if f["key"].endswith(suf):
            for g in meta["fns"]:
                if g["key"] == "stratumv2::" + decl: cl += g["clauses"]
    return cl

def verify(res):
    """fills res: ok, meta, failures, external, dropped, ..."""
    exp, exe = {}, [None]
    errs = []
    def a():
        try: exp.update(expand(res))
        except CheckError as e: errs.append(str(e))
    def b():
        try: exe[0] = build_extractor()
        except CheckError as e: errs.append(str(e))
    ts = [threading.Thread(target=a), threading.Thread(target=b)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise CheckError("\n".join(errs))
    external, drop = set(), set()
    res["hard"] = []
    for rnd in range(40):
        src, meta = extract(exe[0], exp, external, drop)
        if src is None:
            res["hard"].append("extractor: " + meta)
            res["undecided"] = "the extractor rejects the code: " + meta[-400:]
            return
        v = verus(src)
        vr = v["out"].get("verification-results")
        res.update(meta=meta, verus=v)
        log("verus round %d: %s, %d errors" % (rnd, vr and {k: vr.get(k) for k in ("verified", "errors", "encountered-vir-error")}, len(v["diags"])))
        if vr and not vr.get("encountered-vir-error") and (vr.get("success") or vr.get("errors", 0) > 0):
            break
        lines = open(src).read().split("\n")
        new = False
        before = set(external)
        for d in v["diags"]:
            sp = spans(d)
            sp.sort(key=lambda x: not x[1])
            hit = None
            for l, prim, lab in sp:
                f = fn_at(meta, l)
                if f and f["mode"] in ("verified",) and f["key"] not in external:
                    hit = ("external", f["key"]); break
                if f and f["key"] in external and f["key"] not in before: break  # already dealt with in this round
                it = item_at(meta, l)
                if it and not any(a <= l <= b for a, b in meta["rawblocks"]) and not (f and f["mode"] == "decl"):
                    k = it["key"]
                    if f and f["key"] in external: k = f["key"]
                    if k not in drop and not k.startswith("use "):
                        hit = ("drop", k); break
            if hit:
                (external if hit[0] == "external" else drop).add(hit[1])
                res["hard"].append("%s %s: %s" % (hit[0], hit[1], d["message"].split("\n")[0][:300]))
                new = True
            m = re.match(r"`([\w:&%]+)` is not supported", d["message"])
            if m and hit and hit[0] == "external":
                # the verifier names one such call per run: the other users of the same std function go too
                name = m.group(1).split("::")[-1]
                seen = any(u.split(".")[-1].split("::")[-1] == name for u in KNOWN["uses"])
                for f in meta["fns"]:
                    if not seen and f["mode"] == "verified" and f["key"] not in external and any(u.split(".")[-1].split("::")[-1] == name for u in f["uses"]):
                        external.add(f["key"])
                        res["hard"].append("external %s: also calls %s" % (f["key"], name))
        if not new:
            d = v["diags"][0]["rendered"] if v["diags"] else v["stderr"][-1500:]
            res["undecided"] = "outside the verifier's subset: " + d[:1500]
            return
    else:
        res["undecided"] = "outside the verifier's subset"
        return
    lines = open(src).read().split("\n")
    fails = [attribute(meta, lines, d) | {"rendered": d["rendered"]} for d in v["diags"]]
    res["failures"] = fails
    res["external"] = sorted(external)
    res["dropped_items"] = sorted(drop)
    res["lost"] = meta["lost"]

# ---------------------------------------------------------------------------------------------
# 5: replay of the oracle against the real crates

def replay(prop, tier, seed, res):
    d = os.path.join(HERE, "replay")
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(WORK, "replay-target")
    stage = os.path.join(WORK, "replay-src")
    shutil.rmtree(stage, ignore_errors=True)
    shutil.copytree(d, stage, ignore=shutil.ignore_patterns("target"))
    ct = os.path.join(stage, "Cargo.toml")
    s = open(ct).read().replace("/repo/", REPO.rstrip("/") + "/")
    open(ct, "w").write(s)
    # private items of the noise crate are reached through a copy of its sources with a module appended
    nx = os.path.join(stage, "nx-internals")
    cmd = ["cargo", "build", "--offline", "--quiet"]
    p, t = run(cmd, cwd=stage, env=e)
    if p.returncode != 0:
        res["replay"] = {"error": "the replay driver does not build against this tree:\n" + p.stderr[-3000:]}
        log("replay build failed"); log(p.stderr[-2000:])
        return
    log("replay built")
    out = os.path.join(WORK, "replay_%s.json" % prop)
    if os.path.exists(out): os.unlink(out)
    budget = "20" if tier == "quick" else "240"
    e["RUST_BACKTRACE"] = "0"
    try:
        p, t = run([os.path.join(e["CARGO_TARGET_DIR"], "debug", "replay"), prop, str(seed), budget, out], cwd=WORK, env=e, timeout=600)
    except CheckError as ex:
        res["replay"] = {"hang": str(ex)}
        return
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = {"crash": "replay driver ended with %d:\n%s" % (p.returncode, p.stderr[-3000:])}
    r["time"] = t
    res["replay"] = r
    log("replay: %s evaluations, %d failures" % (r.get("evaluations"), len(r.get("failures", []))))

def audit(tier, res):
    """the assumed contracts, exercised: executed on the real std and dependency functions (bounded),
    and in the thorough tier the number conversions decided by Kani for every value"""
    e = env(); e["RUST_BACKTRACE"] = "0"
    exe = os.path.join(WORK, "replay-target", "debug", "replay")
    a = res["audit"] = {}
    if os.path.exists(exe) and not res.get("replay", {}).get("error"):
        out = os.path.join(WORK, "audit.json")
        if os.path.exists(out): os.unlink(out)
        try:
            run([exe, "AUDIT", "1", "20" if tier == "quick" else "60", out], cwd=WORK, env=e, timeout=120)
            r = json.load(open(out))
            a["executed_bounded"] = {k: r.get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "failures")}
        except (CheckError, OSError, ValueError) as ex:
            a["executed_bounded"] = {"not_run": str(ex)[:300]}
    if tier != "thorough" or not shutil.which("cargo-kani"): return
    stage = os.path.join(WORK, "audit-src")
    shutil.rmtree(stage, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "audit"), stage, ignore=shutil.ignore_patterns("target"))
    e.pop("CARGO_TARGET_DIR", None)
    try:
        p, t = run(["cargo", "kani", "-j", "4", "--output-format", "terse"], cwd=stage, env=e, timeout=400)
        m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", p.stdout)
        a["kani_every_value"] = {"harnesses_verified": int(m.group(1)), "failed": int(m.group(2)), "time": round(t, 1)} if m else {"not_run": (p.stdout + p.stderr)[-300:]}
        if m: log("kani audit: %s harnesses, %s failures" % (m.group(1), m.group(2)))
    except CheckError as ex:
        a["kani_every_value"] = {"not_run": str(ex)[:300]}

# ---------------------------------------------------------------------------------------------

def trusted_base():
    """every assumed contract, scanned from the specification files"""
    r = []
    for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.vspec"))):
        ls = open(f).read().split("\n")
        i = 0
        while i < len(ls):
            if ls[i].lstrip().startswith("//"): i += 1; continue
            if "external_body" in ls[i] or "assume_specification" in ls[i] or re.search(r"\badmit\(\)|\bassume\(", ls[i]):
                j, txt = i, ""
                while j < len(ls) and j < i + 6:
                    m = re.search(r"(?:fn|struct|assume_specification\S*)\s*[\w<>:\[\]' ,&=]+", ls[j])
                    if m: txt = m.group(0).strip(); break
                    j += 1
                r.append("%s: %s" % (os.path.basename(f), txt or ls[i].strip()))
            i += 1
    return sorted(set(r))

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(WORK, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    res = {"failures": [], "external": [], "lost": [], "hard": []}
    errs = []
    def va():
        try:
            verify(res)
            if tier == "thorough": vacuity_guard(res)
        except CheckError as e: errs.append(str(e))
        except Exception as e:
            import traceback; errs.append("verify: " + traceback.format_exc())
    def rb():
        try:
            replay(prop, tier, seed, res)
            audit(tier, res)
        except CheckError as e: res["replay"] = {"error": str(e)}
        except Exception as e:
            import traceback; res["replay"] = {"error": traceback.format_exc()}
    ts = [threading.Thread(target=va), threading.Thread(target=rb)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        print("CHECK-ERROR", "\n".join(errs)); sys.exit(2)
    decide(prop, tier, seed, res)

def decide(prop, tier, seed, res):
    rp = res.get("replay", {})
    meta = res.get("meta")
    undecided = res.get("undecided")
    fails = [f for f in res["failures"] if prop in f["props"]]
    strong = [f for f in fails if not f["weak"]]
    weak = [f for f in fails if f["weak"]]
    # functions of this property that are not proved on this tree
    bounded = []
    fns, obligations = [], 0
    if meta:
        for f in meta["fns"]:
            if prop in fn_props(meta, f):
                n = len([c for c in clauses_of(meta, f) if prop in clause_props(f["key"], c["kind"], c["tag"])])
                if prop in safety_props(f["key"]): n += 1
                if f["mode"] in ("verified", "const"):
                    fns.append(f["key"]); obligations += n
                elif f["mode"] == "external":
                    bounded.append(f["key"] + ": body outside the verifier's subset on this tree, contract assumed")
        for l in res["lost"]:
            bounded.append("lost: " + l)
        bounded += ["undecided: %s%s" % (f["fn"], " (uses " + ", ".join(f["why"]) + ")" if f.get("why") else "") for f in weak]
    if undecided: bounded.append(undecided)
    bounded += ["vacuously verified: " + x for x in res.get("vacuity", {}).get("vacuously_established", [])]
    lemmas = []
    if meta:
        src = open(os.path.join(WORK, "code.rs")).read()
        lemmas = sorted(set(m for m in re.findall(r"fn (\w*(?:lemma|thm)\w*)", src) if prop in m))
        obligations += len(lemmas)
    v = res.get("verus", {})
    vr = v.get("out", {}).get("verification-results", {})
    failed = len(set((f["fn"], f["clause"] or f["msg"]) for f in fails))
    rfail = rp.get("failures", [])
    if rp.get("crash") or rp.get("hang"):
        rfail = rfail + [{"what": "the driver did not survive the calls it made", "input": rp.get("crash") or rp.get("hang")}]
    violation = None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s.txt" % prop)
    if strong or rfail:
        with open(path, "w") as h:
            h.write("property %s\n\n" % prop)
            h.write("FAILED OBLIGATIONS (%d)\n" % len(fails))
            for f in fails:
                h.write("\n- function %s\n  %s\n  %s\n%s\n" % (f["fn"], f["msg"], f["clause"] or "", f["rendered"]))
            h.write("\nFAILING INPUTS FOUND BY REPLAY AGAINST THE REAL CODE (%d)\n" % len(rfail))
            for f in rfail:
                h.write("\n- %s\n  %s\n" % (f.get("what"), f.get("input")))
            h.write("\nreplay: VERIF_SEED=%d python3 /verif/check.py %s %s\n" % (seed, prop, tier))
        violation = "VIOLATION property=%s replay=%s" % (prop, path) + ("" if rfail else " no-failing-input-found")
    simt = sum(fb.get("time", 0) for m in v.get("out", {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for fb in m.get("function-breakdown", []))
    cov = {
        "obligations": obligations, "discharged": max(0, obligations - failed),
        "checker_cmd": v.get("cmd", "verus (not reached)"),
        "trusted_base": ["Verus %s, its vstd and its encoding; z3" % v.get("out", {}).get("verus", {}).get("version", "?"),
                         "the extractor (/verif/extract) and its rewrites, listed under extraction.rewrites",
                         "rustc's macro expansion; derived Clone and PartialEq are structural"] + trusted_base(),
        "functions_under_contract": fns,
        "lemmas_and_theorems": lemmas,
        "back_end": "Verus / z3",
        "whole_run": {"verified": vr.get("verified"), "errors": vr.get("errors"), "verus_s": round(v.get("time", 0), 1), "solver_ms": simt},
        "failed_obligations": [{"fn": f["fn"], "msg": f["msg"], "clause": f["clause"]} for f in fails],
        "rests_on": RESTS_ON.get(prop, []),
        "not_proved_on_this_tree": bounded,
        "vacuity_guard": res.get("vacuity", "thorough tier only"),
        "assumed_contracts_audit": res.get("audit", {}),
        "extraction": {"rewrites": meta["rewrites"], "dropped": len(meta["dropped"]), "inlined_helpers": meta["inlined"], "verifier_rejected": res["hard"]} if meta else {},
        "replay_bounded": {k: rp.get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "time", "error") if k in rp},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ["machine integers are checked for overflow, not treated as mathematical; usize is 64 bits",
                          "cryptographic primitives (hacl-star, blake2, ed25519) are uninterpreted functions with the algebraic laws stated in spec/00_shim.vspec and 50_noise.vspec",
                          "allocation does not fail; std behaves as its contract in spec/00_shim.vspec says",
                          "Display/Debug text of errors is not part of any contract"],
          "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for l in open(os.path.join(HERE, "known-findings.txt")).read().split("\n") if os.path.exists(os.path.join(HERE, "known-findings.txt")) else []:
        if l.startswith("finding: property=%s " % prop): print("KNOWN-FINDING: " + l[len("finding: "):])
    if rp.get("error") and not violation:
        log(rp["error"])
        if undecided:
            print("CHECK-ERROR neither the verifier nor the replay can judge this tree"); sys.exit(2)
    if violation:
        for f in fails: print("failed obligation: %s: %s: %s" % (f["fn"], f["msg"], f["clause"] or ""))
        for f in rfail[:5]: print("failing input: %s: %s" % (f.get("what"), str(f.get("input"))[:300]))
        print(violation)
        sys.exit(1)
    false = [f.get("what") for f in res.get("audit", {}).get("executed_bounded", {}).get("failures") or []]
    if res.get("audit", {}).get("kani_every_value", {}).get("failed"): false.append("a number conversion (kani)")
    if false:
        print("CHECK-ERROR an assumed contract does not hold, so nothing here is proved: " + "; ".join(map(str, false))); sys.exit(2)
    if bounded:
        print("note: not proved on this tree, bounded replay only: " + "; ".join(bounded)[:600])
    print("ok property=%s obligations=%d discharged=%d functions=%d replay=%s" % (prop, obligations, obligations - failed, len(fns), rp.get("evaluations")))
    sys.exit(0)

if __name__ == "__main__":
    main()
