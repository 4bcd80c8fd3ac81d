"""gen.py: writes properties.jsonl and MANIFEST.json from props.py, and checks both against the schemas when they are there."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, dvlib as d


def main():
    lines, checks = [], []
    for pid, P in sorted(props.PROPS.items()):
        lines.append({"id": pid, "title": P["title"], "statement": P["statement"],
                      "quantifier": {"over": P.get("over", ["inputs"]), "text": P["qtext"]},
                      "why_tests_cant": P["why"],
                      "anchors": {"files": P["files"], "mechanism": [dict(name=n, where=w) for n, w in P["mechanism"]],
                                  "observe_at": P.get("observe", []), "hook_needed": None}})
        b = [c for c in P["contracts"] if c.get("kind") == "bounded"]
        note = P.get("note", "")
        if b:
            note = "Contracts discharged for every input with these bounds, and counted as bounded: " + "; ".join(
                "%s: %s" % (c["entry"], c["bound"]) for c in b) + ". " + note
        if len(b) < len(P["contracts"]):
            note = "Contracts %s are discharged with no bound. " % ", ".join(c["entry"] for c in P["contracts"] if c.get("kind") != "bounded") + note
        checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                       "technique": "contracts on the real functions, compiled from /repo to LLVM IR on every run; obligations discharged by a deductive verifier (symbolic VC generation, rewriting, SAT sweeping, z3, cvc5), callees replaced by their contracts",
                       "level": P["level"], "level_note": (note + " Trusted: clang's front end, the VC generator in engine/, z3 and cvc5; assumed callee contracts are listed in the evidence.").strip()})
    na = []
    for pid, P in sorted(props.NOT_APPLICABLE.items()):
        lines.append({"id": pid, "title": P["title"], "statement": P["statement"], "quantifier": {"over": P["over"], "text": P["qtext"]},
                      "why_tests_cant": P["why"], "anchors": {"files": P["files"], "mechanism": [dict(name=n, where=w) for n, w in P["mechanism"]], "hook_needed": None}})
        na.append({"property": pid, "reason": P["reason"]})
    M = {"version": 1, "setup_cmd": "python3 tools/dvlib.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(d.V, "properties.jsonl"), "w") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    with open(os.path.join(d.V, "MANIFEST.json"), "w") as f:
        json.dump(M, f, indent=1); f.write("\n")
    try:
        import jsonschema
        ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
        for l in lines:
            jsonschema.validate(l, ps)
            assert l["statement"].count(". ") <= 2, l["id"]
        jsonschema.validate(M, ms)
        print("valid: %d properties, %d checks, %d not applicable" % (len(lines), len(checks), len(na)))
    except ImportError:
        pass


main()
