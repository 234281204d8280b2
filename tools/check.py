#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   runs one registered check (see MANIFEST.json)
   check.py --replay REPLAY.json               re-runs a saved violation
   check.py --setup                            builds the library and every harness
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
from props import PROPS  # noqa: E402

WORKERS = 8


def sh_env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    e["ASAN_SYMBOLIZER_PATH"] = "/usr/lib/llvm-18/bin/llvm-symbolizer"
    return e


def build(pid, cfg="asan"):
    with B.Lock():
        b = B.Builder(cfg)
        b.lib()
        return b.harness("t_" + pid, ["engine.cpp"] + PROPS[pid]["src"]), b.compiled


def crash_summary(text):
    m = re.search(r"SUMMARY: (.*)", text)
    if m:
        return m.group(1)
    m = re.search(r"ERROR: (AddressSanitizer.*)", text)
    return m.group(1) if m else text.strip().splitlines()[-1][:300] if text.strip() else "no output"


def run_one(exe, scratch, sub, choices, tag, limit=60, extra=120):
    cf = os.path.join(scratch, "one_%s.txt" % tag)
    open(cf, "w").write(" ".join(map(str, choices)))
    sd = os.path.join(scratch, "one_%s.d" % tag)
    try:
        p = subprocess.run([exe, "one", "--sub", sub, "--choices", cf, "--scratch", sd, "--caselimit", str(limit)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sh_env(), timeout=limit + extra,
                           cwd=scratch)
    except subprocess.TimeoutExpired:
        return True, "case does not terminate", ""
    finally:
        shutil.rmtree(sd, ignore_errors=True)
    out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    if p.returncode == 0:
        return False, "", out
    if p.returncode == 3:
        m = re.search(r"^FAILED: (.*)", out, re.S | re.M)
        return True, (m.group(1) if m else "failed").strip(), out
    if p.returncode == 77:
        return True, "case does not terminate within %d s" % limit, out
    return True, "crash (exit %d): %s" % (p.returncode, crash_summary(err)), out + err[-6000:]


def read_status(path):
    import struct
    with open(path, "rb") as f:
        sub, idx, n, state = struct.unpack("<4Q", f.read(32))
        data = f.read(8 * min(n, 1 << 20))
    return sub, idx, list(struct.unpack("<%dQ" % (len(data) // 8), data)), state


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        t = time.time()
        with B.Lock():
            b = B.Builder("asan")
            b.lib()
            print("library: %d objects compiled, %.0f s" % (b.compiled, time.time() - t), flush=True)
            b.harness_objects(["engine.cpp"] + [s for p in sorted(PROPS) for s in PROPS[p]["src"]])
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda p: b.harness("t_" + p, ["engine.cpp"] + PROPS[p]["src"]), sorted(PROPS)))
        print("harnesses built, %.0f s" % (time.time() - t))
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        exe, _ = build(r["property"])
        scratch = tempfile.mkdtemp(prefix="vf_")
        try:
            bad, msg, out = run_one(exe, scratch, r["sub"], r["choices"], "replay")
            print(out)
            print(("STILL FAILS: " + msg) if bad else "passes")
            return 1 if bad else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    scale, only, cfg = "1", "", "asan"
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--scale":
            scale = args[i + 1]
        if a == "--sub":
            only = args[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = PROPS[pid]
    t0 = time.time()
    exe, compiled = build(pid, cfg)
    tb = time.time() - t0
    print("%s: built in %.0f s (%d objects compiled)" % (pid, tb, compiled), flush=True)
    # whatever is left of the 900 s, with room for shrinking
    budget = prop.get("budget", 420) if tier == "quick" else prop.get("thorough_budget", 3600)
    if tier == "quick":
        budget = max(60, min(budget, 640 - tb))
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try:
        return search(pid, prop, tier, seed, scale, only, exe, scratch, budget, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(pid, prop, tier, seed, scale, only, exe, scratch, budget, t0):
    W = prop.get("workers", WORKERS)
    limit = prop.get("case_limit", 60)
    procs = []
    ts = time.time()
    for w in range(W):
        cmd = [exe, "run", "--seed", str(seed), "--worker", str(w), "--workers", str(W), "--tier", tier,
               "--scale", scale, "--budget", str(budget), "--caselimit", str(limit),
               "--scratch", os.path.join(scratch, "w%d" % w),
               "--status", os.path.join(scratch, "st%d" % w), "--out", os.path.join(scratch, "out%d.json" % w)]
        if only:
            cmd += ["--sub", only]
        so = open(os.path.join(scratch, "log%d" % w), "wb")
        procs.append(subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, env=sh_env(), cwd=scratch))
    failed = None
    live = dict(enumerate(procs))
    while live:
        time.sleep(0.05)
        for w, p in list(live.items()):
            if p.poll() is not None:
                del live[w]
                if p.returncode != 0 and failed is None:
                    failed = w
        if failed is not None:
            for p in live.values():
                p.kill()
            for p in live.values():
                p.wait()
            live = {}
    subs = [l.split()[0] for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, env=sh_env()).stdout.decode().splitlines()]
    outs = []
    for w in range(W):
        try:
            outs.append(json.load(open(os.path.join(scratch, "out%d.json" % w))))
        except (OSError, ValueError):
            pass
    violations = 0
    rc = 0
    if failed is not None:
        fr = procs[failed].returncode
        f = None
        for o in outs:
            if o.get("failure"):
                f = o["failure"]
        if f is None:
            sub, idx, choices, state = read_status(os.path.join(scratch, "st%d" % failed))
            log = open(os.path.join(scratch, "log%d" % failed), "rb").read().decode("utf-8", "replace")
            if state == 0 or sub >= len(subs):
                print("%s: internal error: worker exited %d outside a case\n%s" % (pid, fr, log[-3000:]))
                return 2
            f = {"sub": subs[sub], "idx": idx, "choices": choices, "desc": "",
                 "msg": "case does not terminate within %d s" % limit if state == 2 else
                        "crash (exit %d): %s" % (fr, crash_summary(log))}
        print("%s: candidate failure in %s case %s: %s" % (pid, f["sub"], f["idx"], f["msg"][:1500]), flush=True)
        hang = "does not terminate" in f["msg"]
        n = prop.get("replays", 3)
        with ThreadPoolExecutor(3) as ex:
            reps = list(ex.map(lambda k: run_one(exe, scratch, f["sub"], f["choices"], "r%d" % k, limit), range(n)))
        good = sum(1 for r in reps if r[0])
        print("%s: replays failing: %d of %d" % (pid, good, n), flush=True)
        nondet = prop.get("nondeterministic", False)
        if good == 0 and not nondet and hang:
            # inconclusive: slow machine, not a violation
            print("%s: the slow case finished when replayed: inconclusive, not reported" % pid)
            f = None
        if f is not None:
            if good == n and not hang and not os.environ.get("VF_NOSHRINK"):
                cf = os.path.join(scratch, "shrink.txt")
                open(cf, "w").write(" ".join(map(str, f["choices"])))
                try:
                    p = subprocess.run([exe, "shrink", "--sub", f["sub"], "--choices", cf, "--budget", "60",
                                        "--scratch", os.path.join(scratch, "shr"), "--caselimit", str(limit)],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=sh_env(), timeout=200,
                                       cwd=scratch)
                    s = json.loads(p.stdout.decode().strip().splitlines()[-1])
                    if s.get("reproduced"):
                        f["choices"], f["msg"] = s["choices"], s["msg"]
                        print("%s: shrunk to %d draws in %d attempts" % (pid, len(s["choices"]), s["attempts"]))
                except (subprocess.TimeoutExpired, ValueError, IndexError):
                    pass
                bad, msg, out = run_one(exe, scratch, f["sub"], f["choices"], "final", limit)
                if bad:
                    f["msg"], f["desc"] = msg, out
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, f["sub"], seed))
            json.dump({"property": pid, "sub": f["sub"], "seed": seed, "message": f["msg"], "choices": f["choices"],
                       "trace": f["desc"]}, open(rp, "w"), indent=1)
            print(f["desc"][-6000:])
            print("message: " + f["msg"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            violations, rc = 1, 1
    # known findings: each has its own sub-check, run on its own
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    for k in kf["findings"]:
        if k["property"] == pid:
            bad, msg, out = run_one(exe, scratch, k["sub"], [], "known", limit)
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            else:
                print("%s: listed finding %s no longer fails" % (pid, k["id"]))
    nt = set()
    labels, per, pernt, ptime = {}, {}, {}, {}
    samples = []
    tot = {k: 0 for k in ("total", "discarded", "excluded", "mutated", "corpus")}
    trunc = False
    for o in outs:
        nt.update(o["nt"])
        samples += o["samples"]
        trunc |= o["truncated"]
        for k in tot:
            tot[k] += o[k]
        for src, dst, fn in (("labels", labels, None), ("per_sub", per, None), ("per_sub_nontrivial", pernt, None),
                             ("per_sub_time", ptime, max)):
            for k, v in o[src].items():
                if k.startswith("cov_edges") or fn:
                    dst[k] = max(dst.get(k, 0), v)
                else:
                    dst[k] = dst.get(k, 0) + v
    edges = {k[10:]: labels.pop(k) for k in list(labels) if k.startswith("cov_edges:")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["total"], "distinct_nontrivial": len(nt), "rule": prop["rule"],
            "samples": samples[:12] or ["(none)"], "discarded": tot["discarded"],
            "excluded_for_known_findings": tot["excluded"], "coverage_guided_cases": tot["mutated"],
            "corpus_entries": tot["corpus"], "cases_per_subcheck": per, "nontrivial_per_subcheck": pernt,
            "classes": labels, "code_edges_reached_per_subcheck": edges, "stopped_by_time_budget": trunc,
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, search %.0f s%s -> %s" % (
        pid, tier, seed, tot["total"], len(nt), tot["discarded"], time.time() - ts,
        " (time budget reached)" if trunc else "", "VIOLATION" if rc else "held"))
    for k in sorted(ptime, key=lambda k: -ptime[k]):
        print("   %-28s %8d cases %8d nontrivial %7.1f s" % (k, per.get(k, 0), pernt.get(k, 0), ptime[k]))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("BUILD ERROR: %s" % e)
        sys.exit(2)
