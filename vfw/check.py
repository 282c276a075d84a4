#!/usr/bin/env python3
"""check.py ID: decides one property of /verif/vfw/props.py against /repo's working tree. Exit 0: holds; 1: VIOLATION.

Three parts run in parallel:
 verus   the functions under contract are extracted from /repo's source (vfw/extract), and Verus discharges their obligations;
 kani    contract cases of the property that Kani (CBMC) proves for the full domain of their inputs;
 native  every contract case, run on the real crates for values drawn at boundaries and at random (bounded; it provides the
         failing input where a proof fails, and stands in for functions out of the verifiers' reach)."""
import concurrent.futures as cf, fnmatch, json, os, re, shutil, subprocess, sys, time

VFW = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(VFW)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
sys.path.insert(0, VFW)
sys.path.insert(0, os.path.join(VERIF, "shadow"))
import props
T0 = time.time()


def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0")
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_TARGET_DIR", None)
    for k, v in kw.items():
        if v is None: e.pop(k, None)
        else: e[k] = v
    return e


def run(cmd, timeout, cwd=None, **kw):
    """(exit code or None on time-out, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e


def log(*a):
    print(f"[{time.time() - T0:6.1f}]", *a, flush=True)


# ------------------------------------------------------------------------------------------------ verus
def build_extract():
    t = os.path.join(BUILD, "extract")
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(VFW, "extract/Cargo.toml"), "--target-dir", t], 300)
    if rc != 0: raise RuntimeError("vextract does not build: " + e[-2000:])
    return os.path.join(t, "debug/vextract")


def verus(rs, rlimit, extra=()):
    rc, o, e = run(["verus", rs, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", "4", "--multiple-errors", "3", *extra], 400, RUSTUP_TOOLCHAIN=None)
    if rc is None: return None, e
    try: return json.loads(o[o.index("{"):]), e
    except ValueError: return None, e + o


def breakdown(j):
    out = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"]
            s = out.setdefault(n, {"us": 0, "success": True})
            s["us"] += f.get("time-micros", 0)
            s["success"] = s["success"] and f.get("success", True)
    return out


def verus_unit(ex, unit):
    """The result of one unit: status ok | failed | lost | unsupported | undecided."""
    r = {"unit": unit, "status": "undecided", "verified": 0, "failed": [], "fns": [], "notes": [], "smt_s": 0.0}
    d = os.path.join(BUILD, "units")
    os.makedirs(d, exist_ok=True)
    rs, js = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
    src = os.path.join(VERIF, "units", unit + ".vrs")
    rc, o, e = run([ex, src, REPO, rs, js], 60)
    if rc == 3: return dict(r, status="lost", why=json.loads(o.strip().splitlines()[-1])["lost"])
    if rc != 0: return dict(r, status="lost", why="extractor: " + e[-500:])
    meta = json.load(open(js))
    r["fns"], r["notes"] = meta["fns"], meta["notes"]
    rl = props.RLIMIT.get(unit, 30) * (1 if QUICK else 4)
    with cf.ThreadPoolExecutor(2) as tp:
        prs = os.path.join(d, unit + "_probe.rs")
        def probe():
            rc, o, e = run([ex, src, REPO, prs, os.path.join(d, unit + "_probe.json")], 60, VF_PROBE="1")
            return verus(prs, min(rl, 10)) if rc == 0 else (None, e)
        fp = tp.submit(probe)
        j, err = verus(rs, rl)
        pj, perr = fp.result()
    if j is None: return dict(r, why="verus gave no result: " + err[-800:])
    v = j.get("verification-results", {})
    bd = breakdown(j)
    r["smt_s"] = round(sum(x["us"] for x in bd.values()) / 1e6, 3)
    r["verified"] = v.get("verified", 0)
    r["bad"] = sorted(n for n, x in bd.items() if not x["success"])
    if v.get("encountered-vir-error") or ("verified" not in v) or (v.get("encountered-error") and not v.get("errors")):
        r["status"] = "unsupported"
        r["why"] = "verus rejects the extracted text: " + "; ".join(re.findall(r"^error.*$", err, re.M)[:4])
        r["output"] = err[-6000:]
        return r
    if v.get("errors", 0) == 0 and v.get("success"):
        r["status"] = "ok"
    else:
        r["output"] = err[-12000:]
        r["status"] = "failed"
        # places of the errors
        for m in re.finditer(r"^error: (.*)\n\s*--> .*?:(\d+):\d+", err, re.M):
            ln = int(m[2])
            f = next((f for f in meta["fns"] if f["out_start"] <= ln <= f["out_end"]), None)
            r["failed"].append({"obligation": m[1], "function": f["name"] if f else f"{unit}.vrs lemma (line {ln} of the generated file)", "where": f"{f['file']}:{f['line']}" if f else None, "rlimit": "rlimit" in m[1].lower() or "resource limit" in m[1].lower()})
        if r["failed"] and all(x["rlimit"] for x in r["failed"]):
            r["status"], r["why"] = "undecided", "resource limit: " + ", ".join(x["function"] for x in r["failed"])
    # reachability probes: no function may have a contradictory precondition
    probed = [f for f in meta["fns"] if not f["trusted"]]
    r["probes"] = len(probed)
    if pj is None or pj.get("verification-results", {}).get("encountered-vir-error"):
        r["probe_fail"] = None
    else:
        lines = {int(m[2]) for m in re.finditer(r"^error: (assertion failed)\n\s*--> .*?:(\d+):\d+", perr, re.M)}
        pm = json.load(open(os.path.join(d, unit + "_probe.json")))["fns"]
        r["probe_fail"] = sum(any(f["out_start"] <= ln <= f["out_end"] for ln in lines) for f in pm if not f["trusted"])
        if r["status"] == "ok" and r["probe_fail"] < r["probes"]:
            r["status"], r["why"] = "undecided", "vacuous: unreachable body of " + ", ".join(f["name"] for f in pm if not f["trusted"] and not any(f["out_start"] <= ln <= f["out_end"] for ln in lines))
    return r


# ------------------------------------------------------------------------------------------------ native and kani
class Harness:
    def __init__(self, name):
        self.name, self.cfg = name, props.HARNESS[name]
        self.dir = os.path.join(BUILD, "h", name)
        self.crate = os.path.join(self.dir, "h_" + name)
        self.layout_used = None

    def layout(self, leaf):
        env_ = dict(os.environ, VERIF_REPO=REPO)
        args = [sys.executable, os.path.join(VERIF, "shadow/shadow.py"), self.dir, *self.cfg["pkgs"], f"--harness={self.name}"]
        if leaf: args.append("--leaf=" + leaf)
        p = subprocess.run(args, env=env_, capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError("shadow layout: " + p.stderr[-1500:])

    def build(self):
        """Path of the driver; raises if the crates do not compile."""
        err = ""
        for leaf in ([self.cfg["leaf"], None] if self.cfg.get("leaf") else [None]):
            try: self.layout(leaf)
            except RuntimeError as x: err = str(x); continue
            prof = ["--release"] if self.cfg.get("release") else []
            rc, o, e = run(["cargo", "build", "--offline", "-q", "-p", "h_" + self.name, *prof], 800, cwd=self.dir, RUSTFLAGS="-Awarnings")
            if rc == 0:
                self.layout_used = "leaf " + leaf if leaf else "full"
                return os.path.join(self.dir, "target", "release" if prof else "debug", "h_" + self.name)
            err = e
        raise RuntimeError("the harness does not compile against /repo: " + err[-3000:])


def list_cases(harness):
    """case -> (kani unwind or None, tags) from the committed harness source"""
    out = {}
    d = os.path.join(VERIF, "harness", harness, "src")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".rs"): continue
        for m in re.finditer(r"^    (c\d\d_\w+)\s*\(\s*\w+\s*\)\s*(\[[^\]]*\])?\s*\{", open(os.path.join(d, f)).read(), re.M):
            out[m[1]] = m[2]
    return out


def native(drv, cases, secs, seed):
    rc, o, e = run([drv, "run", str(seed), str(secs), *cases], secs * 4 + 240)
    res = []
    for l in o.splitlines():
        try: res.append(json.loads(l))
        except ValueError: pass
    return rc, res, e


def replay(drv, case, values):
    rc, o, e = run([drv, "replay", case, *map(str, values)], 60)
    return (rc == 1 or (rc is not None and rc < 0) or rc is None, o + e) if rc != 4 else (False, o)


def kani(h, names, timeout):
    """case -> dict(status ok|fail|undecided, checks, time, out)"""
    tgt = os.path.join(BUILD, "kani-" + h.name)
    cmd = ["cargo", "kani", "--target-dir", tgt, "--exact", "-j", "6", "--output-format", "terse"]
    cmd = ["cargo", "kani", "-p", "h_" + h.name, "--target-dir", tgt, "-Z", "unstable-options", "--harness-timeout", f"{props.KANI_TIMEOUT if QUICK else 4 * props.KANI_TIMEOUT}s", "--fail-uncoverable"] if False else ["cargo", "kani", "--target-dir", tgt, "-Z", "unstable-options", "--harness-timeout", f"{props.KANI_TIMEOUT if QUICK else 6 * props.KANI_TIMEOUT}s", "-j", "6", "--output-format", "terse"]
    for n in names: cmd += ["--harness", "proofs::" + n]
    rc, o, e = run(cmd, timeout, cwd=h.crate, RUSTUP_TOOLCHAIN=None, RUSTFLAGS="-Awarnings")
    txt = o + "\n" + e
    res = {}
    cur = {}
    for l in txt.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness .*?proofs::(\w+)\.\.\.", l)
        if m: cur[m[1]] = m[2]; continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m: cur["now"] = cur.get(m[1]); continue
        who = cur.get("now") or cur.get(None)
        if m := re.match(r"Thread (\d+): (.*)", l):
            who = cur.get(m[1]); l = m[2]; cur["now"] = who
        if who is None: continue
        r = res.setdefault(who, {"status": "undecided", "out": ""})
        r["out"] += l + "\n"
        if "VERIFICATION:- SUCCESSFUL" in l: r["status"] = "ok"
        elif "VERIFICATION:- FAILED" in l: r["status"] = "fail"
        elif mm := re.match(r"Verification Time: ([\d.]+)s", l): r["time"] = float(mm[1])
        elif mm := re.search(r"\*\* \d+ of (\d+) failed", l): r["checks"] = int(mm[1])
    for n in names: res.setdefault(n, {"status": "undecided", "out": ("time-out" if rc is None else txt[-1500:])})
    for r in res.values():
        if r["status"] == "fail" and re.search(r"unwinding assertion|unsupported|is not currently supported|CBMC timed out|Failed with|out of memory|reachability", r["out"]) and not re.search(r"Failed Checks: (?!.*(unwinding|not currently supported|unsupported))", r["out"]):
            r["status"] = "undecided"
    return rc, res, txt


def kani_values(h, name, timeout=300):
    tgt = os.path.join(BUILD, "kani-" + h.name)
    rc, o, e = run(["cargo", "kani", "--target-dir", tgt, "--harness", "proofs::" + name, "-Z", "concrete-playback", "--concrete-playback=print"], timeout, cwd=h.crate, RUSTUP_TOOLCHAIN=None, RUSTFLAGS="-Awarnings")
    tests = []
    for t in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        tests.append([int.from_bytes(bytes(int(x) for x in b.replace(" ", "").split(",") if x), "little") for b in re.findall(r"vec!\[([\d, ]*)\]", t)])
    return tests, o


# ------------------------------------------------------------------------------------------------ main
def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid):
    P = props.PROPS[pid]
    hs = [h for h in P.get("harness", [])]
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    undecided, violations, known = [], [], []
    tp = cf.ThreadPoolExecutor(16)

    def part_verus():
        if not P.get("units"): return []
        ex = build_extract()
        with cf.ThreadPoolExecutor(4) as t2: rs = list(t2.map(lambda u: verus_unit(ex, u), P["units"]))
        for r in rs: log(f"verus {r['unit']}: {r['status']}, {r['verified']} verified, {r['smt_s']} s of SMT, probes {r.get('probe_fail')}/{r.get('probes')}", r.get("why", ""))
        return rs

    def part_harness(hn):
        h = Harness(hn)
        cases = {c: k for c, k in list_cases(hn).items() if any(fnmatch.fnmatch(c, p) for p in P["cases"])}
        out = {"h": h, "cases": cases, "native": [], "kani": {}, "drv": None, "err": None}
        try: out["drv"] = h.build()
        except RuntimeError as x:
            out["err"] = str(x)
            log(f"native {hn}: NOT BUILT: {out['err'][-1500:]}")
            return out
        log(f"native {hn}: built ({h.layout_used})")
        slow = set(P.get("kani_thorough", ()))
        kn = [c for c, k in cases.items() if k and (c not in slow or not QUICK)]
        fk = tp.submit(kani, h, kn, 600 if QUICK else 3000) if kn else None
        if cases:
            rc, res, err = native(out["drv"], sorted(cases), P.get("secs", 8) if QUICK else 120, SEED)
            out["native"] = res
            missing = set(cases) - {r["case"] for r in res}
            if missing:
                # the driver died (abort, stack overflow, endless loop): one case at a time
                out["native"] = res = []
                for c in sorted(cases):
                    rc, r1, err = native(out["drv"], [c], 1, SEED)
                    if not r1: r1 = [{"case": c, "evaluations": 0, "discarded": 0, "distinct": 0, "samples": [], "failure": {"values": [], "message": f"the process {'ran without end' if rc is None else f'died with {rc}'}: {err[-300:]}", "inputs": f"seed {SEED}"}}]
                    res += r1
            log(f"native {hn}: {len(res)} cases, {sum(r['evaluations'] for r in res)} evaluations, failing: {[r['case'] for r in res if 'failure' in r]}")
        if fk:
            rc, out["kani"], txt = fk.result()
            for n, r in out["kani"].items():
                log(f"kani {n}: {r['status']} {r.get('time', '')}")
                if r["status"] != "ok": log(r["out"][-700:])
        return out

    fv = tp.submit(part_verus)
    fh = [tp.submit(part_harness, h) for h in hs]
    vres = fv.result()
    hres = [f.result() for f in fh]

    def report(case, values, message, inputs, by, drv, harness):
        for k in known_findings():
            if k.get("property") == pid and k.get("status") == "known" and k.get("case") == case and re.search(k.get("inputs", "$^"), inputs or ""):
                known.append(k); return
        path = os.path.join(rep_dir, f"{pid}-{case}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "case": case, "found_by": by, "values": [str(v) for v in values], "inputs": inputs, "message": message,
                       "replay": f"{os.path.relpath(drv, VERIF)} replay {case} {' '.join(str(v) for v in values)}", "harness": f"harness/{harness}/src"}, f, indent=1)
        log(f"FAILS {case} ({by}): {inputs} -> {message}")
        violations.append(f"VIOLATION property={pid} replay={path}")

    for o in hres:
        for r in o["native"]:
            if "failure" in r:
                f = r["failure"]
                report(r["case"], f["values"], f["message"], f["inputs"], "native run", o["drv"], o["h"].name)
        for n, r in o["kani"].items():
            if r["status"] == "fail":
                if any(x["case"] == n and "failure" in x for x in o["native"]): continue
                tests, out = kani_values(o["h"], n)
                for v in tests:
                    bad, msg = replay(o["drv"], n, v)
                    if bad:
                        report(n, v, msg, msg.splitlines()[0] if msg else "", "kani counterexample, replayed on the real code", o["drv"], o["h"].name)
                        break
                else:
                    path = os.path.join(rep_dir, f"{pid}-{n}-kani.txt")
                    open(path, "w").write(f"kani rejects {n}; its counterexamples {tests} do not fail natively\n\n{r['out']}\n{out[-8000:]}")
                    violations.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            elif r["status"] == "undecided": undecided.append(f"kani: {n}")
        if o["err"]: undecided.append(f"harness {o['h'].name}: {o['err'][-400:]}")
    failed_units = [r for r in vres if r["status"] == "failed"]
    if failed_units and not violations:
        # look harder for an input that shows it
        for o in hres:
            if not o["drv"]: continue
            focus = sorted({c for r in failed_units for c in o["cases"] if any(fnmatch.fnmatch(c, p) for p in props.UNIT_CASES.get(r["unit"], P["cases"]))})
            if not focus: continue
            rc, res, err = native(o["drv"], focus, 40, SEED + 1000)
            for r in res:
                if "failure" in r: report(r["case"], r["failure"]["values"], r["failure"]["message"], r["failure"]["inputs"], "native run after a failed obligation", o["drv"], o["h"].name)
    for r in failed_units:
        if violations:
            log(f"verus {r['unit']}: failed obligations: " + "; ".join(f"{x['function']}: {x['obligation']}" for x in r["failed"]))
            continue
        path = os.path.join(rep_dir, f"{pid}-{r['unit']}-verus.txt")
        with open(path, "w") as f:
            f.write(f"Verus rejects unit {r['unit']} extracted from {REPO}; no failing input was found by the native search.\nFailed obligations:\n")
            for x in r["failed"]: f.write(f"  {x['function']} ({x['where']}): {x['obligation']}\n")
            f.write("\n" + r.get("output", ""))
        log(f"verus {r['unit']} fails:", r["failed"] or r["output"][-1500:])
        violations.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for r in vres:
        if r["status"] in ("lost", "unsupported", "undecided"): undecided.append(f"verus {r['unit']}: {r['status']}: {r.get('why', '')}")

    # evidence
    kan = [(n, r) for o in hres for n, r in o["kani"].items()]
    nat = [r for o in hres for r in o["native"]]
    exp = props.EXPECTED.get(pid, {})
    v_ok = sum(r["verified"] for r in vres if r["status"] in ("ok", "failed"))
    v_bad = sum(max(len(r["failed"]), 1) for r in vres if r["status"] != "ok")
    proved_kani = [n for n, r in kan if r["status"] == "ok"]
    fns = [f"{f['name']} ({f['file']}:{f['line']}{', trusted' if f['trusted'] else ''})" for r in vres for f in r["fns"]]
    kani_cases = {n for n, _ in kan}
    cov = {
        "obligations": v_ok + v_bad + len(kan), "discharged": v_ok + len(proved_kani),
        "checker_cmd": f"python3 vfw/check.py {pid} (verus on units {', '.join(P.get('units', [])) or '-'}; cargo kani on {len(kan)} contract harnesses)",
        "trusted_base": props.TRUSTED + P.get("trusted", []),
        "verus": [{"unit": r["unit"], "status": r["status"], "why": r.get("why"), "verified_items": r["verified"], "smt_seconds": r["smt_s"], "reachability_probes": f"{r.get('probe_fail')} of {r.get('probes')} bodies reachable", "rewrites_made_by_the_extraction": r["notes"], "failed": r["failed"]} for r in vres],
        "functions_under_contract_verus": fns,
        "trusted_functions": [f for f in fns if f.endswith("trusted)")],
        "kani": [{"case": n, "status": r["status"], "checks": r.get("checks"), "seconds": r.get("time")} for n, r in kan],
        "bounded_native": [{"case": r["case"], "evaluations": r["evaluations"], "discarded": r["discarded"], "distinct": r["distinct"], "samples": r["samples"][:1], "also_proved_by_kani": r["case"] in proved_kani} for r in nat],
        "bounded_note": "bounded_native cases run the real code on boundary and random values; they are not counted as proved. Those without also_proved_by_kani and without a Verus contract are bounded stand-ins.",
        "undecided": undecided,
        "layout": {o["h"].name: o["h"].layout_used for o in hres},
    }
    ev = {"property": pid, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": P.get("level", "proof"), "coverage": cov,
          "assumptions": props.ASSUME + P.get("assume", []), "wall_s": round(time.time() - T0, 1), "violations": len(violations)}
    if ev["level"] != "proof":
        cov["evaluations"] = sum(r["evaluations"] for r in nat)
        cov["distinct_nontrivial"] = sum(r["distinct"] for r in nat)
        cov["rule"] = "values drawn at boundaries and at random for each contract case; non-trivial: the case's precondition holds; distinct: by the drawn values"
        cov["samples"] = [s for r in nat for s in r["samples"][:1]][:8]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for u in undecided: log("UNDECIDED", u)
    for k in {json.dumps(k): k for k in known}.values(): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in dict.fromkeys(violations): print(v)
    if violations: return 1
    decided = any(r["status"] == "ok" for r in vres) or nat
    log(f"{pid}: holds: {cov['discharged']} of {cov['obligations']} obligations discharged, {sum(r['evaluations'] for r in nat)} native evaluations" if decided else f"{pid}: nothing could be decided")
    return 0 if decided else 2


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        build_extract()  # only shows that the toolchain is there: each check builds what it needs itself
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
