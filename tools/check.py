"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree.

Runs the deductive verifier on each contract the property is made of (props.py), one run per case of the contract's
finite choices, and writes evidence/<property>.json.  Exit 0: every obligation is discharged.  Exit 1: an obligation
fails; a VIOLATION line names the replay file.  Exit 2: no answer (a broken tool, a tree that does not compile)."""
import sys, os, json, time, argparse, subprocess, tempfile, shutil, threading, collections, signal
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dvlib as d, props

TRUSTED = [
    "clang 18 front end and the passes sroa, early-cse, simplifycfg, instsimplify that lower /repo's source to LLVM IR (the verified text is that IR, regenerated on every run; the shipped binary is the same source at -O2)",
    "the VC generator /verif/engine (symbolic execution of LLVM IR with the semantics of LLVM 18 and of the x86 SIMD/AES/SHA/CLMUL intrinsics), its rewriter (tested against direct evaluation), z3 4.8.12, cvc5 1.1.2",
    "libstdc++ bodies are executed from their headers; operator new succeeds and returns fresh memory",
    "machine integers are bit-vectors of their real width; nothing is treated as mathematical",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--jobs", type=int, default=d.JOBS); ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    A = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[A.prop]
    budget = P.get("budget", 780) if A.tier == "quick" else 6 * 3600
    deadline = t0 + budget
    engine = d.build_engine(); lib = d.build_library()
    contracts = [c for c in P["contracts"] if (A.tier == "thorough" or c.get("tier", "quick") == "quick") and (not A.only or A.only == c["entry"])]
    files = sorted({c["file"] for c in contracts})
    bcs = {}
    with cf.ThreadPoolExecutor(d.JOBS) as ex:
        for f, b in zip(files, ex.map(lambda f: d.build_harness(f, lib), files)):
            bcs[f] = b
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="dvcheck.")
    lock = threading.Lock()
    results = []   # (contract, choices, json or None, rc, stderr)
    pool = cf.ThreadPoolExecutor(A.jobs)
    pending = []
    procs = set()
    stop = threading.Event()

    def one(c, ch):
        if stop.is_set():
            return
        left = deadline - time.time()
        if left < 5:
            with lock:
                results.append((c, ch, None, 3, "time budget used up"))
            return
        limit = min(c.get("limit", 300), left)
        fd, out = tempfile.mkstemp(dir=tmp, suffix=".json"); os.close(fd)
        cmd = [engine, bcs[c["file"]], "--harness", "H_" + c["entry"], "--out", out, "--tmp", tmp, "--limit", "%d" % limit,
               "--ot", str(c.get("ot", 60)), "--seed", str(seed)]
        for k, v in ch.items():
            cmd += ["--choose", "%s=%d" % (k, v)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
        with lock:
            procs.add(p)
        try:
            _, err = p.communicate(timeout=limit + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); _, err = p.communicate()
        with lock:
            procs.discard(p)
        try:
            J = json.load(open(out))
        except Exception:
            J = None
        os.unlink(out)
        with lock:
            results.append((c, ch, J, p.returncode, err[-600:]))
            if A.v:
                print(c["entry"], ch, p.returncode, err.strip()[-260:], flush=True)
        if J:
            # the cases not yet taken: for each choice that fell to its default, every other value
            pre = dict(ch); pin = c.get("choices", {})
            for n, lo, hi in J["choice_log"]:
                if n in ch:
                    continue
                vals = range(lo, hi + 1)
                if n in pin:
                    vals = [x for x in vals if x in pin[n]]
                for v in vals:
                    if v != lo:
                        submit(c, dict(pre, **{n: v}))
                pre[n] = lo

    def submit(c, ch):
        with lock:
            pending.append(pool.submit(one, c, ch))
    for c in contracts:
        submit(c, {})
    i = 0
    while True:
        with lock:
            if i >= len(pending):
                break
            f = pending[i]
        f.result(); i += 1
    pool.shutdown()

    # ---- verdict
    bad, unknown, errors, nohit = [], [], [], []
    obl = collections.Counter(); kinds = collections.Counter(); secs = collections.Counter()
    fns, used, ext, loops = set(), set(), set(), set()
    covers = {}
    per = {}
    for c, ch, J, rc, err in results:
        e = per.setdefault(c["entry"], dict(cases=0, obligations=0, discharged=0, kind=c.get("kind", "proof"), bound=c.get("bound"), what=c.get("what")))
        e["cases"] += 1
        if J is None:
            errors.append((c, ch, err.strip() or "engine ended with %s" % rc)); continue
        fns.update(J["functions"]); used.update(J["contracts_used"]); ext.update(J["externals"]); loops.update(J["loops"])
        for k, v in J["covers"].items():
            covers[(c["entry"], k)] = covers.get((c["entry"], k), False) or v
        n = sum(J["trivial"].values()); dn = n
        obl["rewriter"] += n
        for k, v in J["trivial"].items():
            kinds[k] += v
        for o in J["obligations"]:
            n += 1; kinds[o["kind"]] += 1
            if o["res"] == "proved":
                dn += 1; obl[o["backend"]] += 1; secs[o["backend"]] += o["secs"]
            elif o["res"] == "refuted":
                bad.append((c, ch, o))
            else:
                unknown.append((c, ch, o))
        e["obligations"] += n; e["discharged"] += dn
        if J["status"] != "ok":
            errors.append((c, ch, J["message"]))
        elif n == 0:
            errors.append((c, ch, "no obligation was generated"))
        secs["generation"] += J["stats"]["exec_secs"]
    if not errors and not bad and not unknown:
        nohit = [k for k, v in covers.items() if not v]
    known = []
    kf = json.load(open(os.path.join(d.V, "known_findings.json")))
    def is_known(c, ch, o):
        for k in kf.get("known", []):
            if k["property"] == A.prop and k["entry"] == c["entry"] and k["obligation"] in o["name"] and all(ch.get(a) == b for a, b in k.get("choices", {}).items()):
                return k
    nb = []
    for b in bad:
        k = is_known(*b)
        if k:
            if k not in known:
                known.append(k)
        else:
            nb.append(b)
    bad = nb
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (A.prop, k["what"]))
    violation = None
    try:
        if bad or unknown or errors or nohit:
            import replay
            rd = os.path.join(d.V, "replays"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.txt" % A.prop)
            done = False
            def report(lines, reproduced):
                open(path, "w").write("\n".join(lines) + "\n")
                return "VIOLATION property=%s replay=%s%s" % (A.prop, path, "" if reproduced else " no-failing-input-found")
            def head(c, ch, o):
                return ["property %s" % A.prop, "contract %s (harness/%s.cpp, H_%s)" % (c.get("what", c["entry"]), c["file"], c["entry"]),
                        "failed obligation: %s [%s]" % (o["name"], o["kind"]), "at %s" % o.get("where", "?"), "verifier: %s, %s" % (o["res"], o.get("backend", "")),
                        "replay: python3 /verif/tools/replay_file.py %s" % path, "!file %s" % c["file"], "!entry %s" % c["entry"]] + ["?%s %d" % kv for kv in ch.items()]
            if not A.no_replay:
                tried = 0
                for c, ch, o in sorted(bad, key=lambda b: b[2]["backend"] != "simulation"):
                    if tried >= 4:
                        break
                    tried += 1
                    lines = head(c, ch, o) + ["=%s %s" % kv for kv in o.get("model", {}).items()]
                    violation = report(lines, False)
                    try:
                        x = replay.build(engine, bcs[c["file"]], c["entry"], ch)
                        r, out = replay.run(x, [path], 60)
                    except Exception as ex:
                        r, out = None, str(ex)
                    if r == 1 or (r not in (0, None) and "FAIL" in out):
                        violation = report(lines + ["", "native run against the real code:"] + out.splitlines()[:20], True); done = True
                        break
                    violation = report(lines + ["", "the native run did not fail:"] + out.splitlines()[:20], False)
                # no model that replays: search with the native code
                cand = []
                for c, ch, o in bad + unknown + [(c, ch, dict(name="(engine) " + m, kind="error", res="unknown")) for c, ch, m in errors]:
                    if (c["entry"], ch) not in [(a["entry"], b) for a, b, _ in cand]:
                        cand.append((c, ch, o))
                for c, ch, o in cand[:6]:
                    if done or time.time() > t0 + 840:
                        break
                    try:
                        x = replay.build(engine, bcs[c["file"]], c["entry"], ch)
                        open(path, "w").write("\n".join(head(c, ch, o)) + "\n")
                        r, out = replay.run(x, [path, str(seed), "1000000", "15000"], 40)
                    except Exception as ex:
                        r, out = None, str(ex)
                    if r == 1 and "FAIL" in out:
                        ls = [l for l in out.splitlines() if l.startswith(("=", "?"))]
                        violation = report(head(c, ch, o) + [l for l in ls if l[0] == "="] + ["", "found by running the contract natively:"] + [l for l in out.splitlines() if not l.startswith(("=", "?"))][:20], True)
                        done = True
            if violation is None and (bad or unknown):
                c, ch, o = (bad + unknown)[0]
                violation = report(head(c, ch, o) + ["=%s %s" % kv for kv in o.get("model", {}).items()], False)
            if violation is None and nohit and not errors:
                violation = report(["property %s" % A.prop] + ["not reachable any more: %s in %s" % (k[1], k[0]) for k in nohit], False)
    finally:
        if "replay" in sys.modules:
            sys.modules["replay"].cleanup()
        shutil.rmtree(tmp, ignore_errors=True)
    total = sum(e["obligations"] for e in per.values()); disch = sum(e["discharged"] for e in per.values())
    pr = [e for e in per.values() if e["kind"] == "proof"]
    bo = [e for e in per.values() if e["kind"] != "proof"]
    ev = {
        "property": A.prop, "tier": A.tier, "seed": seed, "level": P["level"], "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
        "assumptions": P.get("assumptions", []) + ["contract assumed at calls: " + u for u in sorted(used)],
        "coverage": {
            "obligations": sum(e["obligations"] for e in pr), "discharged": sum(e["discharged"] for e in pr),
            "bounded_obligations": sum(e["obligations"] for e in bo), "bounded_discharged": sum(e["discharged"] for e in bo),
            "checker_cmd": "python3 tools/check.py %s --tier %s" % (A.prop, A.tier),
            "trusted_base": TRUSTED,
            "explanation": P.get("explanation", "") + " Contracts marked bounded hold for the stated bound only and are counted apart.",
            "contracts": per, "cases": len(results), "functions_under_contract": sorted(fns), "functions_verified": len(fns),
            "by_backend": dict(obl), "by_kind": dict(kinds), "solver_secs": {k: round(v, 2) for k, v in secs.items()},
            "externals_modelled": sorted(ext), "loop_summaries": sorted(loops), "covers_reached": sum(covers.values()), "covers": len(covers),
            "build_secs": round(tbuild, 2), "known_findings": [k["what"] for k in known],
            "undecided": [dict(contract=c["entry"], choices=ch, obligation=o["name"]) for c, ch, o in unknown][:20],
            "errors": [dict(contract=c["entry"], choices=ch, error=m) for c, ch, m in errors][:20],
        },
    }
    os.makedirs(os.path.join(d.V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(d.V, "evidence", A.prop + ".json"), "w"), indent=1)
    print("%s: %d contracts, %d cases, %d/%d obligations discharged (%d bounded), %d refuted, %d undecided, %d errors, %.1f s" % (
        A.prop, len(per), len(results), disch, total, sum(e["obligations"] for e in bo), len(bad), len(unknown), len(errors), time.time() - t0))
    for c, ch, o in (bad + unknown)[:8]:
        print("  %s %s %s: %s at %s" % (o["res"], c["entry"], ch, o["name"], o.get("where", "?")))
    for c, ch, m in errors[:8]:
        print("  error %s %s: %s" % (c["entry"], ch, m))
    if violation:
        print(violation); return 1
    if errors:
        print("ERROR: no answer"); return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
