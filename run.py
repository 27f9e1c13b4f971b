#!/usr/bin/env python3
"""Decide one property: python3 run.py <property id> [--tier quick|thorough] [--only HARNESS]

1. Compile the harness crate against /repo's current working tree with Kani (the bodies of the real
   functions are translated to goto programs; nothing is kept from an earlier run).
2. CBMC + SAT solver decide every assertion of every harness for all values within the bounds.
3. A failed assertion is turned into concrete values, which are replayed natively against the real
   code (no stand-in crates), dev and release profiles. Reproduced -> VIOLATION, exit 1.
   Anything that is not a clean pass or a reproduced violation -> exit 2 (an error of the check).
"""
import argparse, fcntl, json, os, re, resource, signal, subprocess, sys, time, pathlib, hashlib

V = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(V))
from props import PROPS

T0 = time.time()
def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)

def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    return e

def kani_env(caps, hooks):
    e = base_env()
    e["RUSTFLAGS"] = "--cfg lightyear_verif"
    e["LIGHTYEAR_VERIF_HOOKS"] = str(V / "hooks" / hooks)
    e["VERIF_BYTES_CAP"] = str(caps.get("bytes", 32))
    e["VERIF_MAP_CAP"] = str(caps.get("map", 4))
    e["VERIF_DEQ_CAP"] = str(caps.get("deq", 4))
    e["VERIF_VEC_CAP"] = str(caps.get("vec", 4))
    e["VERIF_VECB_CAP"] = str(caps.get("vecb", 16))
    return e

_groups = set()
def _stop(*_):
    for g in _groups:
        try: os.killpg(g, 9)
        except ProcessLookupError: pass
    os._exit(2)
signal.signal(signal.SIGTERM, _stop)
signal.signal(signal.SIGINT, _stop)

def run(cmd, env, cwd, timeout, out):
    """Run in its own process group; kill the whole group on timeout or when asked to stop."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        _groups.add(p.pid)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait()
            rc = "timeout"
        _groups.discard(p.pid)
    return rc, open(out, errors="replace").read()

def prop_names(prop, h, caps, checks):
    """CBMC's names of the failed checks, so that the run for concrete values decides only those."""
    tgt = V / "target" / f"kani-b{caps.get('bytes',32)}-m{caps.get('map',4)}"
    tail = f"{len(prop)}{prop.lower()}{len(h)}{h}.out"
    fs = [f for f in tgt.rglob("*.out") if f.name.endswith(tail)]
    if not fs: return []
    f = max(fs, key=lambda f: f.stat().st_mtime)
    try:
        j = json.loads(subprocess.run([cbmc(), "--show-properties", "--json-ui", str(f)], capture_output=True, text=True, timeout=120).stdout)
    except Exception: return []
    ps = next((o["properties"] for o in j if "properties" in o), [])
    names = []
    for c in checks:
        loc = c.get("location", {})
        for q in ps:
            sl = q["sourceLocation"]
            if sl.get("line") == str(loc.get("line")) and os.path.basename(sl.get("file", "")) == os.path.basename(loc.get("file", "")) \
               and q["description"].strip('"').replace("attempt to ", "") == c["description"].strip('"').replace("attempt to ", ""):
                names.append(q["name"])
    return names[:8]

def cbmc():
    import glob, shutil
    g = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*/bin/cbmc")))
    return g[-1] if g else (shutil.which("cbmc") or "cbmc")

def kani(prop, hs, caps, hooks, jobs, htimeout, timeout, work, tag, playback=False, only=()):
    js = work / f"{tag}.json"
    if js.exists(): js.unlink()
    tgt = V / "target" / f"kani-b{caps.get('bytes',32)}-m{caps.get('map',4)}"
    cmd = ["cargo", "kani", "--target-dir", str(tgt), "--features", prop.lower(), "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks",
           "--harness-timeout", f"{htimeout}s", "--export-json", str(js), "--exact"]
    for h in hs: cmd += ["--harness", f"mods::{prop.lower()}::{h}"]
    if playback: cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
    else: cmd += ["-j", str(jobs), "--output-format", "terse"]
    if only: cmd += ["--cbmc-args"] + [x for n in only for x in ("--property", n)]
    rc, out = run(cmd, kani_env(caps, hooks), V / "harness/kani", timeout, work / f"{tag}.log")
    try: j = json.load(open(js))
    except Exception: j = None
    return rc, out, j, " ".join(cmd)

def parse_playback(out):
    """[(description, [[bytes]...])] of the failed (non-cover) checks."""
    r = []
    for blk in re.findall(r"```\n(.*?)```", out, re.S):
        m = re.search(r'Check for `(\w+)`: "(.*?)"\s*$', blk, re.M)
        kind, desc = (m.group(1), m.group(2)) if m else ("?", "?")
        if kind == "cover": continue
        body = blk[blk.find("concrete_vals"):]
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d,\s]*)\]", body)]
        comments = re.findall(r"// (.*)", body)
        r.append((desc, vals, comments))
    return r

_built = {}
def replay_bin(prop, hooks, profile, work):
    if (prop, profile) in _built: return _built[(prop, profile)]
    e = base_env()
    e["RUSTFLAGS"] = "--cfg lightyear_verif"
    e["LIGHTYEAR_VERIF_HOOKS"] = str(V / "hooks" / hooks)
    tgt = V / "target" / "replay"
    cmd = ["cargo", "build", "--offline", "--target-dir", str(tgt), "--features", prop.lower()] + (["--release"] if profile == "release" else [])
    rc, out = run(cmd, e, V / "harness/replay", 400, work / f"replay-build-{profile}.log")
    b = tgt / ("release" if profile == "release" else "debug") / "verif_replay"
    ok = rc == 0
    if not ok: log(f"replay build ({profile}) failed:", out[-1500:])
    _built[(prop, profile)] = b if ok else None
    return _built[(prop, profile)]

def native(prop, hooks, h, vals, work, name):
    """Replay one counterexample. Returns {profile: (reproduced, text)}."""
    f = work / f"{name}.vals"
    f.write_text("\n".join(" ".join(map(str, v)) for v in vals) + "\n")
    res = {}
    for profile in ("dev", "release"):
        b = replay_bin(prop, hooks, profile, work)
        if b is None:
            res[profile] = (False, "build failed"); continue
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            p = subprocess.run([str(b), f"{prop.lower()}::{h}", str(f)], capture_output=True, text=True, timeout=60, env={**base_env(), "RUST_BACKTRACE": "0"}, preexec_fn=lim, errors="replace")
            rc, txt = p.returncode, (p.stdout + p.stderr)[-1500:]
        except subprocess.TimeoutExpired:
            rc, txt = "hang", "no end within 60 s"
        bad = rc not in (0, 77, 78, 79)
        res[profile] = (bad, f"exit {rc}: {txt}")
    return res

def known_findings():
    r = []
    p = V / "known_findings.txt"
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) harness=(\S+) check=\"(.*?)\" at=(\S+) (.*)", l)
            if m: r.append(dict(zip(("property", "harness", "check", "at", "what"), m.groups())))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append"); ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    P = PROPS[prop]
    deadline = T0 + (850 if tier == "quick" else 6 * 3600)
    work = V / "target" / "work" / f"{prop}-{tier}"
    work.mkdir(parents=True, exist_ok=True)
    errors, violations, known, samples, failed, funcs = [], [], [], [], [], set()
    st = dict(harnesses=0, harnesses_passed=0, assertions=0, assertions_holding=0, unreachable=0, witnesses=0, witnesses_satisfied=0,
              vccs_generated=0, vccs_remaining=0, ssa_steps=0, symex_s=0.0, solver_s=0.0, counterexamples_replayed=0)
    kf = [k for k in known_findings() if k["property"] == prop]
    bounds, cmds = [], []
    for gi, g in enumerate(P["groups"]):
        if tier == "quick" and g.get("tier") == "thorough": continue
        hs = {h: d for h, d in g["harnesses"].items() if (tier == "thorough" or not d.startswith("[thorough]"))}
        if a.only: hs = {h: d for h, d in hs.items() if h in a.only}
        if not hs: continue
        caps, hooks = g.get("caps", {}), g.get("hooks", "none")
        jobs = a.jobs or g.get("jobs", 8)
        ht = min(g.get("timeout", 600) if tier == "quick" else 5400, max(60, int(deadline - time.time())))
        log(f"{prop} group {gi}: {len(hs)} harnesses, capacities {caps}, {jobs} in parallel")
        rc, out, j, cmd = kani(prop, list(hs), caps, hooks, jobs, ht, max(60, deadline - time.time()), work, f"g{gi}")
        cmds.append(cmd)
        if j is None:
            errors.append(f"group {gi}: the solver run did not finish (exit {rc}): {out[-2500:]}")
            continue
        for c in j.get("cbmc", []):
            s = c.get("cbmc_stats") or {}
            st["vccs_generated"] += s.get("vccs_generated") or 0
            st["vccs_remaining"] += s.get("vccs_remaining") or 0
            st["ssa_steps"] += s.get("size_program_expression") or 0
            st["symex_s"] += s.get("runtime_symex_s") or 0
            st["solver_s"] += s.get("runtime_decision_procedure_s") or s.get("runtime_solver_s") or 0
        res = {r["harness_id"].split("::")[-1]: r for r in j["verification_results"]["results"]}
        for h, d in hs.items():
            st["harnesses"] += 1
            bounds.append(f"{h}: {d}")
            r = res.get(h)
            if r is None or not r.get("checks"):
                errors.append(f"{h}: no verdict (timeout, memory, or compile error; log: target/work)")
                continue
            fails, bound, reach = [], [], []
            for c in r["checks"]:
                s, desc = c["status"].lower(), c["description"]
                fn = c.get("function", "")
                if "lightyear" in fn or "lightyear" in c.get("location", {}).get("file", ""): funcs.add(re.sub(r"::<.*", "", fn))
                elif "/repo/" in c.get("location", {}).get("file", "") : funcs.add(fn)
                if "VERIF-REACH" in desc:
                    reach.append(s); st["witnesses"] += 1; st["witnesses_satisfied"] += s == "satisfied"; continue
                if c.get("category") in ("reachability_check", "cover"): continue
                st["assertions"] += 1
                if s == "success": st["assertions_holding"] += 1
                elif s == "unreachable": st["assertions_holding"] += 1; st["unreachable"] += 1
                elif s == "undetermined": bound.append(c)
                elif c.get("category") in ("unwind", "unsupported_construct") or "unwinding assertion" in desc or "VERIF-BOUND" in desc or "not currently supported by Kani" in desc: bound.append(c)
                else: fails.append(c)
            secs = r.get("duration_ms", 0) / 1000
            if fails:
                log(f"  {h}: FAILED {len(fails)} assertion(s) in {secs:.1f}s: " + "; ".join(f"{c['description']} ({c.get('location',{}).get('file','?')}:{c.get('location',{}).get('line','?')})" for c in fails[:4]))
                failed.append((secs, h, fails, caps, hooks, ht))
            elif r["status"] != "Success" or bound:
                fb = [c for c in bound if c["status"].lower() == "failure"] or bound
                errors.append(f"{h}: outside the bounds of the encoding or undecided: " + "; ".join(f"{c['description']} in {c.get('function','?')} ({c.get('location',{}).get('file','?')}:{c.get('location',{}).get('line','?')})" for c in fb[:5]) + f" status {r['status']}")
            elif not reach or any(s != "satisfied" for s in reach):
                errors.append(f"{h}: reachability witness not satisfiable: {reach}")
            else:
                st["harnesses_passed"] += 1
                log(f"  {h}: holds ({secs:.1f}s, {len(r['checks'])} checks)")
                if len(samples) < 6: samples.append(f"{h} [{d}]: {len(r['checks'])} checks, all hold; solver+encoding {secs:.1f}s; e.g. " + next((c["description"] for c in r["checks"] if "mods::" in c.get("function", "") and c["status"] == "Success"), "-"))
    # the quickest first: one reproduced violation decides
    for secs, h, fails, caps, hooks, ht in sorted(failed, key=lambda x: x[0]):
        if violations: break
        handle_failure(prop, h, fails, caps, hooks, ht, deadline, work, kf, violations, known, errors, samples, st)
    st = {k: round(v, 3) if isinstance(v, float) else v for k, v in st.items()}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": dict(explanation="Bounded symbolic execution of the compiled real code (Kani: rustc MIR -> goto program; CBMC -> SAT). "
              "Each harness quantifies over all values of its symbolic inputs; the solver discharged the listed assertions for every value within the stated bounds, unwinding assertions on. "
              "Nothing outside the bounds is claimed.", technique=P["technique"], **st,
              functions_encoded=sorted(f for f in funcs if not f.startswith("mods::"))[:400], bounds=bounds, outside=P["outside"], samples=samples, commands=cmds, errors=errors),
          "assumptions": P["assumptions"], "wall_s": round(time.time() - T0, 1), "violations": len(violations)}
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in known: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for e in errors: log("ERROR", e)
    if violations:
        for v in violations: print(f"VIOLATION property={prop} replay={v}")
        sys.exit(1)
    if errors: sys.exit(2)
    log(f"{prop}: held; {st['harnesses_passed']} harnesses, {st['assertions']} assertions, {st['vccs_generated']} VCCs, solver {st['solver_s']:.1f}s")

def handle_failure(prop, h, fails, caps, hooks, ht, deadline, work, kf, violations, known, errors, samples, st):
    def is_known(c):
        at = f"{c.get('location',{}).get('file','').split('/repo/')[-1]}"
        return next((k for k in kf if k["harness"] == h and k["check"] == c["description"] and k["at"] in (at, "-")), None)
    # what the harness or the code under check asserts first; what is not listed as known first
    fails = sorted(fails, key=lambda c: (is_known(c) is not None, "mods::" not in c.get("function", "") and "lightyear" not in c.get("function", "")))
    new = [c for c in fails if not is_known(c)]
    cex = []
    names = prop_names(prop, h, caps, new[:1] if new else fails)
    for only in ([names] if names else []) + [()]:
        rc, out, j, cmd = kani(prop, [h], caps, hooks, 1, ht, max(60, min(ht + 120, deadline - time.time())), work, f"cex-{h}", playback=True, only=only)
        cex = parse_playback(out)
        if cex: break
    if not cex:
        errors.append(f"{h}: assertion failed but no concrete values were produced: {out[-800:]}")
        return
    repro = False
    for n, (desc, vals, comments) in enumerate(cex[:12]):
        res = native(prop, hooks, h, vals, work, f"{h}-{n}")
        st["counterexamples_replayed"] += 1
        hit = [p for p, (b, _) in res.items() if b]
        log(f"  replay {h} #{n} ({desc}): " + ", ".join(f"{p}: {'REPRODUCED' if b else 'held'} {t.strip()[:300]!r}" for p, (b, t) in res.items()))
        if hit:
            k = next((k for k in kf if k["harness"] == h and k["check"] == desc), None)
            if k:
                if k not in known: known.append(k)
                repro = True; continue
            d = V / "target" / "violations"; d.mkdir(parents=True, exist_ok=True)
            f = d / f"{prop}-{h}-{n}.txt"
            f.write_text(f"# property {prop}, harness {h}, failed: {desc}\n# replay: target/replay/debug/verif_replay {prop.lower()}::{h} <this file>\n" +
                         "\n".join("# " + l for p, (b, t) in res.items() for l in f"{p}: reproduced={b} {t}".splitlines()) + "\n" +
                         "\n".join(" ".join(map(str, v)) for v in vals) + "\n")
            violations.append(str(f)); repro = True
            samples.append(f"{h}: VIOLATED {desc}; values {comments[:20]}")
            return
    if not repro:
        errors.append(f"{h}: the counterexample does not reproduce natively (encoding or stand-in at fault): {[c[0] for c in cex]}")

if __name__ == "__main__":
    main()
