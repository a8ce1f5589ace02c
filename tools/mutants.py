#!/usr/bin/env python3
"""Development helper (not a check): small source mutants / refactorings of /repo and the checks expected to react.
usage: mutants.py [FILTER]   reads tools/mutants.d/*.txt:
  ## name | expected (P1,P2 or quiet) | file
  <old text>
  ==
  <new text>
  (several '@@ file' / old / == / new blocks may follow)"""
import json, os, re, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut_base.json"
D = os.path.join(V, "tools", "mutants.d")


def parse():
    res = []
    for f in sorted(glob.glob(D + "/*.txt")):
        for chunk in re.split(r"(?m)^## ", open(f).read())[1:]:
            head, body = chunk.split("\n", 1)
            name, exp, file = [x.strip() for x in head.split("|")]
            eds = []
            for i, blk in enumerate(re.split(r"(?m)^@@ ", body)):
                if i:
                    fl, blk = blk.split("\n", 1)
                    fl = fl.strip()
                else:
                    fl = file
                if "\n==\n" not in blk and not blk.startswith("==\n"):
                    continue
                o, n = blk.split("\n==\n", 1)
                eds.append((fl, o.strip("\n"), n.strip("\n")))
            res.append((os.path.basename(f)[:-4] + ":" + name, exp, eds))
    return res


def work(args):
    i, (name, exp, eds), pids = args
    w = "/tmp/mw/%d" % i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    out = []
    try:
        full = False
        for fl, o, n in eds:
            p = os.path.join(w, fl)
            s = open(p).read()
            if s.count(o) != 1:
                return name, exp, "SPEC ERROR: %d matches of %r" % (s.count(o), o[:60]), []
            open(p, "w").write(s.replace(o, n))
            full = full or not fl.endswith(".cpp")
        env = dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + ".ev")
        js = w + ".json"
        code = "import sys,json;sys.path.insert(0,%r);import model;b=json.load(open(%r));o=model.parse_all(%s);m={t['src']:t for t in o};json.dump([m.get(t['src'],t) for t in b],open(%r,'w'))" % (
            os.path.join(V, "sa"), BASE, "None" if full else repr([e[0] for e in eds]), js)
        r = subprocess.run(["python3", "-c", code], env=env, capture_output=True, text=True)
        if r.returncode:
            return name, exp, "PARSE: " + r.stderr[-300:], []
        env["SA_TUS"] = js
        hits = []
        for p in pids:
            r = subprocess.run(["python3", os.path.join(V, "sa", "check.py"), p], env=env, capture_output=True, text=True)
            if r.returncode:
                hits.append((p, r.returncode, [l.strip() for l in (r.stdout + r.stderr).splitlines() if not l.startswith("VIOLATION")]))
        return name, exp, None, hits
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + ".ev", ignore_errors=True)
        if os.path.exists(w + ".json"):
            os.remove(w + ".json")


def main():
    sys.path.insert(0, os.path.join(V, "tools"))
    import mut
    pids = os.environ["MUT_PIDS"].split(",") if os.environ.get("MUT_PIDS") else mut.props()
    show = -int(os.environ.get("MUT_LINES", 3)), int(os.environ.get("MUT_COLS", 230))
    flt = sys.argv[1] if len(sys.argv) > 1 else ""
    ms = [m for m in parse() if flt in m[0]]
    if not os.path.exists(BASE) or "-f" in sys.argv:
        subprocess.run(["python3", os.path.join(V, "sa", "model.py"), BASE], check=True, stdout=subprocess.DEVNULL)
    os.makedirs("/tmp/mw", exist_ok=True)
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for name, exp, err, hits in ex.map(work, [(i, m, pids) for i, m in enumerate(ms)]):
            got = {h[0] for h in hits if h[1] == 1}
            errs = {h[0] for h in hits if h[1] != 1}
            want = (set(sorted(got)[:1]) or {"any"}) if exp == "any" else set() if exp == "quiet" else set(exp.split(","))
            ok = not err and not errs and (not got if exp == "quiet" else want <= got)
            bad += not ok
            print("%-4s %-40s expected %-12s got %s %s" % ("ok" if ok else "BAD", name, exp, ",".join(sorted(got)) or "-", ("errors " + ",".join(sorted(errs))) if errs else ""), err or "")
            if not ok:
                for h in hits:
                    for l in h[2][show[0]:]:
                        print("        ", h[0], l[:show[1]])
    print("%d mutants, %d unexpected" % (len(ms), bad))


if __name__ == "__main__":
    main()
