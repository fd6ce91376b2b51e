#!/usr/bin/env python3
"""Driver of one check:  check.py <PROPERTY-ID>

 1. builds the extractor and extracts the functions under contract from /repo's
    current source into one Verus file per spec template (specs/*.vrs);
 2. runs Verus on them (deciding step: every obligation must be discharged);
 3. runs the vacuity pass (an `assert(false)` behind every precondition and in every
    annotated loop must FAIL);
 4. builds and runs the replay/stand-in harness against the real crate: it looks for a
    concrete failing input (bounded), both to replay failed obligations and as the
    bounded stand-in for functions outside the verifier's reach.

Outcome:
   exit 0  all obligations discharged (or the proof could not be attempted on this text
           and the bounded stand-in found nothing: evidence then says `undecided`)
   exit 1  VIOLATION property=<id> replay=<file> [no-failing-input-found]
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_INCREMENTAL": "0",
})
ENV.pop("CARGO_TARGET_DIR", None)
ENV.setdefault("HOME", "/root")


def sh(cmd, timeout, env=None, cwd=None):
    """run a command; returns (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV,
                         cwd=cwd or VERIF, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def build_extractor():
    src = os.path.join(VERIF, "extractor")
    tgt = os.path.join(BUILD, "extractor")
    rc, o, e = sh(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", src + "/Cargo.toml",
                   "--target-dir", tgt], 300)
    if rc != 0:
        print("extractor build failed:\n" + e[-3000:], file=sys.stderr)
        sys.exit(2)
    return os.path.join(tgt, "debug", "extractor")


TRUST_PAT = re.compile(r"(assume_specification|external_body|\bassume\s*\(|\badmit\s*\(|external_type_specification|"
                       r"external_trait_specification|\baxiom\b|uninterp\s+spec)")


def scan_trusted(path):
    """mechanical scan for everything the verifier takes on trust"""
    out = []
    for n, l in enumerate(open(path), 1):
        c = l.split("//")[0]
        if TRUST_PAT.search(c):
            out.append(f"{os.path.basename(path)}:{n}: {c.strip()[:160]}")
    return out


def run_verus(rs, rlimit, extra=()):
    cmd = ["verus", rs, "--output-json", "--time", "--triggers-mode", "silent",
           "--rlimit", str(rlimit), "--num-threads", "6", "--multiple-errors", "6", *extra]
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    t0 = time.time()
    rc, o, e = sh(cmd, 420, env=env)
    dt = time.time() - t0
    res = {"cmd": " ".join(cmd), "wall_s": round(dt, 2), "stderr": e}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        res["vir_error"] = bool(vr.get("encountered-vir-error", False)) or bool(vr.get("encountered-error", False) and vr.get("errors", 0) == 0)
        res["success"] = bool(vr.get("success", False))
        try:
            res["smt_ms"] = j["times-ms"]["smt"]["total"]
        except Exception:
            res["smt_ms"] = None
    except Exception as ex:
        res.update({"verified": 0, "errors": 0, "vir_error": True, "success": False, "smt_ms": None})
        if rc is None:
            res["stderr"] += "\n[check] verus timed out"
    return res


def failed_obligations(stderr):
    """(real failures, resource-limit failures) out of Verus' human-readable diagnostics"""
    real, lim = [], []
    blocks = re.split(r"\n(?=error)", "\n" + stderr)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.splitlines()[0]
        if head.startswith("error: aborting"):
            continue
        m = re.search(r"--> (.*)", b)
        loc = m.group(1) if m else ""
        item = f"{head} [{loc}]"
        if "Resource limit" in head or "rlimit" in head:
            lim.append((item, b))
        else:
            real.append((item, b))
    return real, lim


def deductive(prop, spec, extractor, outdir):
    """verify one template; returns dict"""
    tpl = os.path.join(VERIF, "specs", spec + ".vrs")
    rs = os.path.join(outdir, spec + ".rs")
    rep = os.path.join(outdir, spec + ".report.json")
    r = {"spec": spec, "status": None}
    rc, o, e = sh([extractor, tpl, REPO, rs, rep], 120)
    if rc not in (0, 3):
        r.update(status="undecided", why="extractor failed: " + e[-800:])
        return r
    R = json.load(open(rep))
    r["functions"] = R["functions"]
    r["rewrites"] = R["rewrites"]
    if rc == 3:
        r.update(status="undecided", why="stale anchors: " + "; ".join(R["stale"]))
        return r
    r["trusted"] = scan_trusted(rs)
    v = run_verus(rs, prop.get("rlimit", 60))
    r["verus"] = {k: v[k] for k in ("cmd", "wall_s", "verified", "errors", "smt_ms")}
    real, lim = failed_obligations(v["stderr"])
    if v["success"] and v["verified"] > 0:
        r["status"] = "proved"
    elif v["vir_error"] or v["errors"] == 0:
        r.update(status="undecided", why="Verus rejected the extracted text: " + "; ".join(i for i, _ in real[:4]), detail=v["stderr"][-4000:])
    elif real:
        r.update(status="failed", failed=[i for i, _ in real], detail=v["stderr"][-12000:])
    else:
        # resource limit only: retry once with a much larger limit, alone
        v2 = run_verus(rs, prop.get("rlimit", 60) * 5)
        real, lim = failed_obligations(v2["stderr"])
        r["verus"] = {k: v2[k] for k in ("cmd", "wall_s", "verified", "errors", "smt_ms")}
        if v2["success"]:
            r["status"] = "proved"
        elif real and not v2["vir_error"]:
            r.update(status="failed", failed=[i for i, _ in real], detail=v2["stderr"][-12000:])
        else:
            r.update(status="undecided", why="solver resource limit", detail=v2["stderr"][-3000:])
    if r["status"] == "proved":
        rs2 = os.path.join(outdir, spec + "_vac.rs")
        rep2 = os.path.join(outdir, spec + "_vac.json")
        sh([extractor, tpl, REPO, rs2, rep2, "--vacuity"], 120)
        covers = json.load(open(rep2))["covers"]
        v3 = run_verus(rs2, prop.get("rlimit", 60), ["--no-auto-recommends-check"])
        text = open(rs2).read().splitlines()
        hit = set()
        for m in re.finditer(r"--> [^\n]*?:(\d+):\d+\n(?:.*\n)?.*?assert\(false\)", v3["stderr"]):
            hit.add(int(m.group(1)))
        want = {n for n, l in enumerate(text, 1) if "/*COVER" in l}
        miss = [text[n - 1].strip() for n in sorted(want - hit)]
        r["vacuity"] = {"covers": covers, "failed_as_required": len(want & hit), "not_reached": miss}
        if miss:
            r.update(status="vacuous", why="vacuous context: " + "; ".join(miss))
    return r


def harness(prop, tier, seed, outdir, budget=None):
    b = prop.get("harness")
    if not b:
        return None
    tgt = os.path.join(BUILD, "harness_hooks" if prop.get("cfg") else "harness")
    env = dict(ENV)
    env["RUSTFLAGS"] = " ".join("--cfg " + c for c in prop.get("cfg", [])) + " -Awarnings"
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    t0 = time.time()
    rc, o, e = sh(["cargo", "build", "--offline", "--locked", "-q", "--bin", b,
                   "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), "--target-dir", tgt], 500, env=env)
    bt = time.time() - t0
    if rc != 0:
        return {"status": "build-failed", "detail": e[-4000:], "build_s": bt}
    out = os.path.join(outdir, "harness.json")
    if os.path.exists(out):
        os.remove(out)
    limit = None
    if budget is None:
        budget = prop.get("budget", {}).get(tier, 25 if tier == "quick" else 240)
        limit = budget * 3 + 60
    env["VERIF_BUDGET"] = str(budget)
    t0 = time.time()
    rc, o, e = sh([os.path.join(tgt, "debug", b), str(seed), tier, out], limit or budget + 120, env=env)
    r = {"build_s": round(bt, 1), "run_s": round(time.time() - t0, 1), "rc": rc}
    if os.path.exists(out):
        try:
            r.update(json.load(open(out)))
        except Exception as ex:
            r.update(status="crashed", detail=str(ex) + (e or "")[-3000:])
    else:
        # the harness isolates expected panics itself: dying (abort, stack overflow, hang) means
        # that the code under test did something no input is allowed to make it do
        cur = os.path.join(outdir, "harness.json.current")
        inp = open(cur).read()[:4000] if os.path.exists(cur) else ""
        r.update(status="violation", cases=0, nontrivial=0,
                 violations=[{"what": "process hung" if rc is None else f"process died rc={rc}", "input": inp, "stderr": (e or "")[-2000:]}])
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = PROPS[pid]
    t0 = time.time()
    outdir = os.path.join(BUILD, "run", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    stier, sseed = tier, seed
    ex = build_extractor()
    ded = [deductive(prop, s, ex, outdir) for s in prop.get("specs", [])]
    har = harness(prop, tier, seed, outdir)

    known = [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt"))] if os.path.exists(os.path.join(VERIF, "known_findings.txt")) else []
    kf = []
    for l in known:
        m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            kf.append((m.group(2), m.group(3)))
    known_keys = {k for k, _ in kf}

    failed = [d for d in ded if d["status"] == "failed"]
    undec = [d for d in ded if d["status"] in ("undecided", "vacuous")]
    if (failed or undec) and tier == "quick" and har and har.get("status", "ok") == "ok" and not har.get("violations"):
        # the proof does not stand: look longer and elsewhere for a failing input
        room = 640 - (time.time() - t0)
        if room > 20:
            h2 = harness(prop, "thorough", seed + 1000, outdir, budget=min(200, room - 20))
            h2["cases"] = (h2.get("cases") or 0) + (har.get("cases") or 0)
            h2["nontrivial"] = (h2.get("nontrivial") or 0) + (har.get("nontrivial") or 0)
            har = h2
            stier, sseed = "thorough", seed + 1000
    viol = []
    if har and har.get("violations"):
        viol = [v for v in har["violations"] if v.get("key") not in known_keys]
    nviol = len(viol) + (1 if failed and not viol else 0)

    replay = None
    if viol or failed:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{pid}.json")
        json.dump({
            "property": pid,
            "failing_inputs": viol,
            "replay_cmd": f"{os.path.join(BUILD, 'harness_hooks' if prop.get('cfg') else 'harness', 'debug', prop.get('harness') or '-')} {sseed} {stier} /dev/stdout",
            "failed_obligations": [{"spec": d["spec"], "obligations": d.get("failed"), "verus": d.get("detail")} for d in failed],
            "undecided": [{"spec": d["spec"], "why": d.get("why")} for d in undec],
        }, open(replay, "w"), indent=1)

    obl = sum(d.get("verus", {}).get("verified", 0) + d.get("verus", {}).get("errors", 0) for d in ded)
    dis = sum(d.get("verus", {}).get("verified", 0) for d in ded)
    cov = {
        "obligations": obl,
        "discharged": dis,
        "checker_cmd": "; ".join(d.get("verus", {}).get("cmd", "(not run) " + d["spec"]) for d in ded) or "none",
        "trusted_base": ["Verus 0.2026.09.13 + bundled Z3", "the extractor and its listed rewrites"] + [t for d in ded for t in d.get("trusted", [])],
        "back_end": "Verus (Z3)",
        "solver_ms": sum((d.get("verus", {}).get("smt_ms") or 0) for d in ded),
        "functions_under_contract": [f"{f['file']}:{f['line']} {f['fn']}" for d in ded for f in d.get("functions", []) if d["status"] == "proved"],
        "extraction_rewrites": [r for d in ded for r in d.get("rewrites", [])],
        "status_per_spec": {d["spec"]: d["status"] + (": " + d["why"] if d.get("why") else "") for d in ded},
        "vacuity": {d["spec"]: d.get("vacuity") for d in ded},
    }
    if har:
        cov["bounded_stand_in"] = {
            "label": "bounded (not proved)", "bin": prop["harness"], "rule": har.get("rule", ""),
            "evaluations": har.get("cases", 0), "distinct_nontrivial": har.get("nontrivial", 0),
            "samples": har.get("samples", [])[:5], "status": har.get("status", "ok"),
            "covers": prop.get("bounded_covers", ""), "build_s": har.get("build_s"), "run_s": har.get("run_s"),
        }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "proof"), "coverage": cov,
        "assumptions": prop.get("assumptions", []) + (["this run: the proof could not be attempted on the current text, only the bounded stand-in decided (" + "; ".join(d.get("why") or "" for d in undec)[:600] + ")"] if undec else []),
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    for k, txt in kf:
        print(f"KNOWN-FINDING: property={pid} {txt}")
    for d in ded:
        v = d.get("verus", {})
        print(f"[{pid}] {d['spec']}: {d['status']} ({v.get('verified', 0)} verified, {v.get('errors', 0)} errors, {v.get('wall_s')}s)" + (" -- " + d["why"] if d.get("why") else ""))
        for f in d.get("failed", []) or []:
            print(f"    failed obligation: {f}")
    if har:
        print(f"[{pid}] bounded stand-in {prop['harness']}: {har.get('status', 'ok')} cases={har.get('cases')} nontrivial={har.get('nontrivial')} build={har.get('build_s')}s run={har.get('run_s')}s")
        if har.get("status") in ("build-failed", "crashed"):
            print(har.get("detail", "")[-1500:])
    if viol:
        for v in viol[:3]:
            print("    failing input: " + json.dumps(v)[:1500])
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    if failed:
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        sys.exit(1)
    if har and har.get("status") in ("build-failed", "crashed") and (undec or not ded):
        print(f"[{pid}] neither the proof nor the stand-in could be run on this tree", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
