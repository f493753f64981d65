#!/usr/bin/env python3
"""check.py ID     decides one property (exit 0 / exit 1 with a VIOLATION line)

1. vx extracts the functions under contract from /repo's working tree into Verus text
2. Verus discharges (or fails) every obligation
3. the witness crate, linked to the real crate laid out from /repo, looks for a failing input
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(HERE, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
LEFT_OUT = {"src/model", "src/tools/dap.rs", "src/buoy_station.rs", "src/data/gfs_wave_grib_point_data_record.rs",
            "src/data/latest_obs_data_record.rs", "src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs"}
# a clock that is not UTC: dates read or shown in the local zone by mistake come out differently
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", TZ="America/St_Johns", RUSTC_WRAPPER="",
           CARGO_TARGET_DIR=os.path.join(B, "target"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(k, None)


def put(path, data):
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def layout(full=False):
    """The part of /repo's crate that builds offline: no git dependencies, no module that needs them.
    full: every module, the two git dependencies replaced by the stand-ins in witx/stubs."""
    lay = os.path.join(B, "layf" if full else "lay")
    want = set()
    out = lambda rel: not full and any(rel == x or rel.startswith(x + "/") for x in LEFT_OUT)
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            rel = os.path.relpath(os.path.join(base, n), REPO)
            data = open(os.path.join(REPO, rel), "rb").read()
            if n in ("mod.rs", "lib.rs"):
                def keep(m):
                    stem = os.path.join(os.path.dirname(rel), m.group(2))
                    return "\n" if out(stem) or out(stem + ".rs") else m.group(0)
                data = re.sub(r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?", keep, data.decode(), flags=re.M).encode()
            put(os.path.join(lay, rel), data)
            want.add(rel)
    for base, _, names in os.walk(os.path.join(lay, "src")):
        for n in names:
            if os.path.relpath(os.path.join(base, n), lay) not in want:
                os.remove(os.path.join(base, n))
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    t = re.sub(r"^(gribberish|readap)\s*=.*\n", (lambda m: f'{m.group(1)} = {{ path = "{HERE}/witx/stubs/{m.group(1)}" }}\n') if full else "", t, flags=re.M)
    t = re.sub(r"^\[dev-dependencies\].*?(?=^\[|\Z)", "", t, flags=re.M | re.S)
    put(os.path.join(lay, "Cargo.toml"), t.encode())


def run(cmd, cwd=HERE, timeout=600, env=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf8", "replace"), "timeout", time.time() - t0


def build_vx():
    rc, _, err, _ = run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, "vx"),
                        env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "vxt")))
    if rc:
        sys.stderr.write(err)
        sys.exit(2)
    return os.path.join(B, "vxt", "debug", "vx")


def fn_at(text, line):
    """the function whose text contains this line of the generated file"""
    ls = text.split("\n")
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:proof )?(?:spec )?fn (\w+)", ls[i])
        if m:
            return m.group(1)
    return "?"


T0 = time.time()
FOUND = threading.Event()  # the search has a failing input that is not a known finding


def known_findings(pid):
    known = {}
    kf = os.path.join(HERE, "known_findings.txt")
    for l in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3)
    return known


def busy(sid):
    """processor time used so far by a session's processes"""
    t = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open(f"/proc/{p}/stat").read().rsplit(")", 1)[1].split()
                if int(f[3]) == sid:
                    t += int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])
            except (OSError, IndexError, ValueError):
                pass
    return t


def verus(rs, extra, timeout):
    """the verifier and its solver can end up waiting for each other (both with a full pipe, which depends on the
    length of the crate's name): when neither uses the processor, start over under another name"""
    t0 = time.time()
    for name in ("", "_b", "_other", "_other_name", "_yet_another_name"):
        if name:
            shutil.copy(rs, rs[:-3] + name + ".rs")
        with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
            p = subprocess.Popen(["verus", "--output-json", "--time-expanded", "--multiple-errors", "8", *extra, rs[:-3] + name + ".rs"], cwd=HERE, stdout=o, stderr=e, start_new_session=True,
                                 env={k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"})
            used, since, hung = 0, time.time(), False
            while p.poll() is None:
                try:
                    p.wait(timeout=0.2 if time.time() - since < 1 else 1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if (u := busy(p.pid)) != used:
                    used, since = u, time.time()
                hung = time.time() - since > 20
                # a failing input settles the verdict: the proof then has 90 s to name an obligation
                if FOUND.is_set() and time.time() - T0 > 90:
                    timeout = 0
                if hung or time.time() - t0 > timeout:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
            late = time.time() - t0 > timeout
            o.seek(0), e.seek(0)
            rc, out, err, w = p.returncode, o.read().decode("utf8", "replace"), "timeout" if late or hung else e.read().decode("utf8", "replace"), time.time() - t0
        if not hung or late:
            break
    try:
        j = json.loads(out[out.index("{"):])
    except Exception:
        j = None
    return rc, j, err, w


def breakdown(j):
    fs = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        if m["module"] == "fl":
            continue
        for f in m.get("function-breakdown", []):
            fs[f["function"].split("::", 1)[1]] = (f["success"], f["time-micros"])
    return fs


def prove(vx, spec, res):
    """one overlay -> {status: proved|failed|undecided, ...}"""
    name = os.path.splitext(os.path.basename(spec))[0]
    rs = os.path.join(B, "gen", name + ".rs")
    os.makedirs(os.path.dirname(rs), exist_ok=True)
    r = {"spec": os.path.relpath(spec, HERE), "status": "undecided", "functions": [], "verified": {}, "failed": [], "smt_s": 0.0, "notes": []}
    res[spec] = r
    rc, out, err, _ = run([vx, REPO, spec, rs])
    if rc:
        r["reason"] = (json.loads(out).get("error") if out.startswith("{") else err[-400:])
        return
    j = json.loads(out)
    r["functions"], r["notes"] = j["functions"], j["notes"]
    text = open(rs).read()
    i, k = text.find("pub mod fl {"), text.find("use fl::*;")
    outside = text[:i] + text[k:] if 0 <= i < k else text
    trusted = re.findall(r"external_body\]\s*\n?\s*pub (?:broadcast )?proof fn (\w+)|assume_specification(?:<[^[]*>)?\s*\[\s*(.+?)\s*\]\s*\(", outside)
    r["trusted"] = sorted({a or b for a, b in trusted}) + (["spec/lib/f64.vo: f64 operations as uninterpreted functions with IEEE comparison facts (axiom_fcmp_flip, axiom_fle_trans, axiom_fmax), integer abs/rem_euclid/to_vec, vec! constructors"] if i >= 0 else [])
    r["assumed_fns"] = sorted(set(re.findall(r"external_body\]\s*\n?\s*(?:pub )?fn (\w+)", outside)))
    if re.search(r"\b(assume|admit)\s*\(", re.sub(r"//.*", "", text)):
        r["reason"] = "the overlay contains assume/admit"
        return
    best = None
    for k, extra in enumerate((["--rlimit", "40"], ["--rlimit", "60", "--smt-option", "smt.random_seed=7"], ["--rlimit", "80", "--smt-option", "smt.random_seed=23"])):
        if k and (FOUND.is_set() or time.time() - T0 > 450):
            break  # the failure stands as it is
        rc, jj, err, w = verus(rs, extra, min(420, 660 - (time.time() - T0)))
        if jj is None or "verification-results" not in jj:
            r["reason"] = "verus: " + (err.strip()[-1500:] if err else "no output")
            break
        vr = jj["verification-results"]
        if vr.get("encountered-vir-error") or (vr.get("encountered-error") and vr.get("errors", 0) == 0) or "verified" not in vr:
            r["reason"] = "not accepted by the verifier: " + "\n".join(l for l in err.split("\n") if l.startswith("error"))[:600]
            r["detail"] = err[-3000:]
            break
        fs = breakdown(jj)
        r["smt_s"] += jj["times-ms"]["smt"]["smt-run"] / 1000.0
        if not fs:
            r["reason"] = "no obligations generated"
            break
        for f, (ok, us) in fs.items():
            if ok:
                r["verified"][f] = us
        if vr["errors"] == 0:
            best = "proved"
            break
        errs = []
        for m in re.finditer(r"^error: ([^\n]+)\n\s*--> ([^\n:]+):(\d+):\d+(.*?)(?=^error|\Z)", err, re.M | re.S):
            errs.append({"message": m.group(1), "function": fn_at(text, int(m.group(3))), "text": m.group(0)[:1500], "line": int(m.group(3))})
        errs = [e for e in errs if e["message"] != "aborting"]
        bad = {f for f, (ok, _) in fs.items() if not ok and f not in r["verified"]}
        if not bad:
            best = "proved"
            break
        r["failed"] = [e for e in errs if e["function"] in {b.split("::")[-1] for b in bad}] or errs
        only_rl = all("rlimit" in e["message"].lower() or "resource limit" in e["message"].lower() for e in r["failed"])
        best = "undecided" if only_rl else "failed"
        r["reason"] = "resource limit" if only_rl else "; ".join(sorted({f'{e["function"]}: {e["message"]}' for e in r["failed"]}))
        r["unproved"] = sorted(bad)
    if best:
        r["status"] = best
    if r["status"] == "proved":
        # vacuity: with assert(false) at the start of every extracted function, each must fail
        vrs = os.path.join(B, "gen", name + "_vac.rs")
        rc, out, err, _ = run([vx, REPO, spec, vrs], env=dict(ENV, VX_VACUITY="1"))
        rc, jj, err, w = verus(vrs, ["--rlimit", "5", "--multiple-errors", "0"], min(420, 780 - (time.time() - T0)))
        vt = open(vrs).read()
        hit = {fn_at(vt, int(m.group(1))) for m in re.finditer(r"-->[^\n:]+:(\d+):", err)}
        want = set(j["emitted"])
        fsv = breakdown(jj) if jj else {}
        vac = sorted(w_ for w_ in want if any(k.split("::")[-1] == w_ and ok for k, (ok, _) in fsv.items()))
        r["vacuity"] = {"functions": len(want), "reachable": len(want) - len(vac)}
        if vac:
            r["status"] = "undecided"
            r["reason"] = "vacuous contract: " + ", ".join(vac)


def witness(pid, res):
    feat = pid.lower()
    if not os.path.exists(os.path.join(HERE, "wit", "src", feat + ".rs")):
        res["wit"] = None
        return
    t0 = time.time()
    cmd = ["cargo", "build", "--offline", "-q", "--features", feat]
    rc, out, err, _ = run(cmd, cwd=os.path.join(HERE, "wit"), timeout=600)
    if rc:
        res["wit"] = {"error": "witness crate does not build:\n" + err[-3000:]}
        return
    tb = time.time() - t0
    rc, out, err, w = run([os.path.join(B, "target", "debug", "wit"), feat, str(SEED), TIER], timeout=700)
    try:
        d = json.loads(out.strip().split("\n")[-1])
    except Exception:
        res["wit"] = {"error": f"witness run ended {rc}: {err[-800:]}"}
        if rc == -6 or rc == -11:
            res["wit"] = {"fails": [{"key": "abort", "input": err[-800:], "what": f"the process died with signal {-rc}"}], "evaluations": 1, "distinct_nontrivial": 1, "samples": [], "rule": ""}
        return
    d["build_s"], d["run_s"] = round(tb, 1), round(w, 1)
    res["wit"] = d
    if any(f["key"] not in known_findings(pid) for f in d.get("fails", [])):
        FOUND.set()


def witness_full(pid, res):
    """the same search on the modules that need the stand-ins; when those do not build there is nothing to say"""
    feat = pid.lower()
    if not os.path.exists(os.path.join(HERE, "witx", "src", feat + ".rs")):
        return
    layout(True)
    rc, out, err, _ = run(["cargo", "build", "--offline", "-q", "--features", feat], cwd=os.path.join(HERE, "witx"), timeout=600, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "targetx")))
    if rc:
        res["witx"] = {"error": "not built with stand-ins:\n" + err[-1500:]}
        return
    rc, out, err, w = run([os.path.join(B, "targetx", "debug", "witx"), feat, str(SEED), TIER], timeout=700)
    try:
        res["witx"] = json.loads(out.strip().split("\n")[-1])
        if any(f["key"] not in known_findings(pid) for f in res["witx"].get("fails", [])):
            FOUND.set()
    except Exception:
        res["witx"] = {"error": f"search with stand-ins ended {rc}: {err[-800:]}"}


def main():
    pid = sys.argv[1]
    t0 = time.time()
    if pid == "--setup":
        os.makedirs(B, exist_ok=True)
        layout()
        build_vx()
        run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, "wit"), timeout=900)
        layout(True)
        run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, "witx"), timeout=900, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "targetx")))
        return
    props = json.load(open(os.path.join(HERE, "props.json")))
    P = props[pid]
    os.makedirs(B, exist_ok=True)
    layout()
    res = {}
    th = threading.Thread(target=witness, args=(pid, res))
    th.start()
    th2 = threading.Thread(target=witness_full, args=(pid, res))
    th2.start()
    pr = {}
    specs = [os.path.join(HERE, s) for s in P["specs"]]
    if specs:
        vx = build_vx()
        ts = [threading.Thread(target=prove, args=(vx, s, pr)) for s in specs]
        [t.start() for t in ts]
        [t.join() for t in ts]
    th.join()
    th2.join()
    wit, wx = res.get("wit"), res.get("witx")
    if wx and "error" in wx:
        print("left out: " + wx["error"])
    elif wx:
        if wit is None:
            wit = wx
        elif "evaluations" in wit:
            for k in ("evaluations", "distinct_nontrivial"):
                wit[k] += wx[k]
            for k in ("fails", "samples"):
                wit[k] = wit.get(k, []) + wx.get(k, [])
            wit["rule"] += "; with stand-ins for the git dependencies: " + wx["rule"]
    proofs = [pr[s] for s in specs]
    known = known_findings(pid)
    fails = (wit or {}).get("fails", [])
    new = [f for f in fails if f["key"] not in known]
    old = [f for f in fails if f["key"] in known]
    failed = [p for p in proofs if p["status"] == "failed"]
    und = [p for p in proofs if p["status"] == "undecided"]
    for k in known:
        if any(f["key"] == k for f in old):
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
    # evidence
    obl = sum(len(set(p["verified"]) | set(p.get("unproved", []))) for p in proofs)
    dis = sum(len(p["verified"]) for p in proofs)
    level = P["level"] if not und and not failed else "exploration"
    cov = {}
    if proofs:
        cov.update({
            "obligations": obl, "discharged": dis,
            "checker_cmd": "vx /repo SPEC OUT.rs && verus --rlimit 40 OUT.rs  (per spec: " + ", ".join(P["specs"]) + ")",
            "back_end": "Verus 0.2026.09.13 / Z3", "solver_s": round(sum(p["smt_s"] for p in proofs), 2),
            "functions_under_contract": sorted({f for p in proofs for f in p["functions"]}),
            "obligation_names": sorted({f for p in proofs for f in p["verified"]})[:400],
            "trusted_base": sorted({t for p in proofs for t in p.get("trusted", [])}) + ["vx extractor (see DESIGN.md)", "Verus", "Z3", "rustc"],
            "extraction_notes": sorted({n for p in proofs for n in p["notes"]}),
            "vacuity": [dict(p.get("vacuity", {}), spec=p["spec"]) for p in proofs],
            "undecided": [{"spec": p["spec"], "reason": p.get("reason", ""), "functions": p["functions"], "unproved": p.get("unproved", [])} for p in und],
            "failed": [{"spec": p["spec"], "reason": p.get("reason", "")} for p in failed],
        })
        if und:
            cov["degraded"] = "the obligations above were not decided on this tree; what stands in for them is the bounded search below"
    if wit and "evaluations" in wit:
        cov.update({"evaluations": wit["evaluations"], "distinct_nontrivial": wit["distinct_nontrivial"], "rule": wit["rule"],
                    "samples": wit["samples"] or ["(none)"], "bounded_note": "search for a failing input on the compiled crate: bounded, never counted as proved",
                    "search_build_s": wit.get("build_s"), "search_run_s": wit.get("run_s"), "exhaustive_parts": wit.get("exhaustive_parts", [])})
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov or {"explanation": "nothing ran"},
          "assumptions": P.get("assumptions", []) + [f"assumed contract: {x}" for x in sorted({a for p in proofs for a in p.get("assumed_fns", [])})],
          "wall_s": round(time.time() - t0, 1), "violations": len(new) + (1 if failed and not new else 0)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    # verdict
    rp = os.path.join(HERE, "evidence", pid + ".replay.json")
    if new or failed:
        json.dump({"property": pid, "seed": SEED, "tier": TIER, "failing_inputs": new,
                   "failed_obligations": [{"spec": p["spec"], "unproved": p.get("unproved"), "errors": p["failed"]} for p in failed],
                   "how_to_replay": f"VERIF_SEED={SEED} VERIF_TIER={TIER} python3 /verif/check.py {pid}"}, open(rp, "w"), indent=1)
    for p in failed:
        print(f"obligation failed: {p['spec']}: {p.get('reason')}")
    for p in und:
        print(f"undecided (not an alarm): {p['spec']}: {p.get('reason')}")
    if wit and "error" in wit:
        print(wit["error"])
    for f in new:
        print(f"failing input [{f['key']}]: {f['input'][:800]}\n   {f['what'][:800]}")
    if new:
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if failed:
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        sys.exit(1)
    if und and (wit is None or "error" in wit):
        print("no answer: neither the proof nor the search could run")
        sys.exit(2)
    if wit and "error" in wit:
        sys.exit(2)
    print(f"{pid}: {dis}/{obl} obligations discharged, {(wit or {}).get('evaluations', 0)} cases searched, {time.time()-t0:.0f} s")
    if os.environ.get("VERIF_STRICT") and und:
        sys.exit(3)
    sys.exit(0)


main()
