"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libnymea-remoteproxy/"
CL = "libnymea-remoteproxyclient/"
TS = L + "tunnelproxy/tunnelproxyserver.cpp"
SLIP = "common/slipdataprocessor.cpp"
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                    "observe_at": observe, "hook_needed": None},
        "_t": technique, "_n": note})


exec(open(os.path.join(V, "tools", "props_data.py")).read())

TECH = "disjunctive abstract interpretation of the type-checked AST (path-sensitive, context-inlined dataflow), with per-property automata"


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    src = "".join(open(os.path.join(V, "sa", f)).read() for f in os.listdir(os.path.join(V, "sa")) if f.startswith("rules_"))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = [{"property": i, "reason": r} for i, r in NA]
    nas = {i for i, _ in NA}
    checks = []
    for p in P:
        if p["id"] in nas:
            continue
        assert "def check_%s(" % p["id"] in src, "no check for " + p["id"]
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 sa/check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 sa/check.py %s thorough" % p["id"],
                       "technique": p["_t"], "level": "other", "level_note": p["_n"]})
    json.dump({"version": 1, "setup_cmd": "python3 sa/model.py --build", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the analysis reads /repo's sources as they are. bin/extract is the committed build of extract/extract.cpp "
                        "(rebuilt when its source hash differs from bin/stamp or it does not start). Exit 2 means the analysis has no answer "
                        "(anchor vanished, parse error, vacuous rule)."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    design(ids)


def design(ids):
    """DESIGN.md from tools/DESIGN.in.md: tables of findings, planted changes (tools/caught.json, written by tools/mut.py) and n/a"""
    t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
    for i in ids:
        assert re.search(r"\*\*[^*]*\b%s\b[^*]*\*\*" % i, t) or "T01" <= i <= "T05" or re.search(r"\*\*D01–D03\*\*", t) and i[0] == "D", "DESIGN does not describe " + i
    kn = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip()]
    kn = [k for k in kn if k["status"] == "known"]
    t = t.replace("@@KNOWN@@", "Recorded, not repaired (`known_findings.jsonl`, printed as KNOWN-FINDING):\n\n" + "\n".join(
        "- **%s** `%s`: %s" % (k["property"], k["key"], k["what"]) for k in kn) if kn else "No finding is recorded as known and unrepaired.")
    cf = os.path.join(V, "tools", "caught.json")
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    rows = ["| id | property | breaks | caught by |", "|---|---|---|---|"]
    sd = os.path.join(V, "seeded")
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(caught.get(i, [])) or "**nothing**"))
    t = t.replace("@@SEEDS@@", "\n".join(rows))
    t = t.replace("@@NA@@", "\n\n" + "\n".join("- **%s**: %s" % n for n in NA) if NA else "none.")
    open(os.path.join(V, "DESIGN.md"), "w").write(t)


main()
