#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property from /repo's current source."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import AnalysisError, VERIF
from program import Program
import framework

MODULES = ["rules_tunnel", "rules_codec", "rules_json", "rules_transport", "rules_limits", "rules_client", "rules_misc", "rules_tools", "rules_log"]


def find(pid):
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        f = getattr(mod, "check_" + pid, None)
        if f:
            return f
    raise SystemExit("no check for " + pid)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rule = find(pid)
    cache = os.environ.get("SA_TUS")
    ctx = None
    try:
        prog = Program(json.load(open(cache)) if cache else None)
        ctx = framework.Ctx(pid, tier, prog)
        rule(ctx)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        if ctx is None or not ctx.viol:
            return 2
        # violations found before the analysis lost track are reported
    except Exception:
        traceback.print_exc(limit=-6)
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    known = framework.known_findings(pid)
    kk = {k["key"]: k for k in known}
    viols = [v for k, v in ctx.viol.items() if k not in kk]
    kn = [v for k, v in ctx.viol.items() if k in kk]
    total = sum(ctx.oblig.values())
    if total == 0 and not ctx.viol:
        print("ANALYSIS-ERROR property=%s no obligation was found" % pid)
        return 2
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source: %d translation units parsed, %d functions analysed in context from %d "
                           "entry points, %d abstract exits, %d rule obligations decided (%s)" % (
                               prog.ntu, len(ctx.fns), len(ctx.entries), ctx.exits, total,
                               "; ".join("%s: %d" % kv for kv in sorted(ctx.oblig.items()))),
            "translation_units": prog.ntu,
            "entry_points": ctx.entries,
            "functions_analysed": len(ctx.fns),
            "functions": sorted(ctx.fns)[:200],
            "abstract_states": ctx.states,
            "abstract_exits": ctx.exits,
            "obligations": total, "obligations_by_rule": ctx.oblig,
            "known_findings": [v["key"] for v in kn],
            "notes": ctx.notes,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
        "assumptions": ctx.assumptions or ["Qt delivers signals as connected in the source (direct connections in one thread)"],
    }
    EVD = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(EVD, exist_ok=True)
    rp = os.path.join(EVD, pid + ".violation.txt")
    if viols:
        with open(rp, "w") as fh:
            for v in viols:
                fh.write("%s\n  at %s\n  %s\n" % (v["key"], v["where"], v["msg"]))
                for p in v["path"]:
                    fh.write("    assuming %s\n" % p)
    elif os.path.exists(rp):
        os.remove(rp)
    with open(os.path.join(EVD, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for v in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["where"], v["msg"]))
    for v in viols:
        print("  %s at %s: %s" % (v["key"], v["where"], v["msg"]))
    if viols:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d exits=%d wall=%.1fs" % (pid, total, len(ctx.fns), ctx.exits, time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
