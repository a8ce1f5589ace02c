#!/usr/bin/env python3
"""Development helper (not a check): applies patches (or 'file<TAB>old<TAB>new' specs) to a scratch clone of /repo and reports
which checks raise an alarm.  usage: mut.py [-p PID,PID] PATCH..."""
import json, os, subprocess, sys, tempfile, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = []
W = os.environ.get("MUTDIR", "/tmp/w")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def reset():
    if not os.path.isdir(W):
        sh("git", "clone", "-q", "/repo", W)
    sh("git", "-C", W, "fetch", "-q", "origin")
    sh("git", "-C", W, "reset", "-q", "--hard", "origin/HEAD")
    sh("git", "-C", W, "clean", "-qfd")


def props():
    r = []
    for f in sorted(os.listdir(os.path.join(V, "sa"))):
        if f.startswith("rules_"):
            r += re.findall(r"^def check_([A-Z]\d+)\(", open(os.path.join(V, "sa", f)).read(), re.M)
    return sorted(set(r))


def run(pids):
    env = dict(os.environ, SA_REPO=W)
    c = W + ".json"
    r = sh("python3", os.path.join(V, "sa", "model.py"), c, env=env)
    if r.returncode:
        print("   PARSE ERROR", r.stderr[-600:])
        return
    env["SA_TUS"] = c
    env["SA_EVIDENCE"] = W + ".evidence"
    ps = [(p, subprocess.Popen(["python3", os.path.join(V, "sa", "check.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for p in pids]
    quiet = []
    del CAUGHT[:]
    for p, h in ps:
        o, _ = h.communicate()
        if h.returncode == 0:
            quiet.append(p)
        else:
            CAUGHT.append((p, h.returncode))
            print("   ", p, "rc=%d" % h.returncode, " | ".join(l.strip()[:190] for l in o.splitlines()[-4:] if not l.startswith("VIOLATION")))
    print("    quiet: %d of %d" % (len(quiet), len(pids)))


def main():
    a = sys.argv[1:]
    pids = props()
    if a and a[0] == "-p":
        pids = a[1].split(",")
        a = a[2:]
    for x in a:
        reset()
        if os.path.isdir(x):
            x = os.path.join(x, "patch.diff")
        rev = []
        if x.startswith("-R"):
            h = x[2:]
            d = sh("git", "-C", "/repo", "show", h).stdout
            x2 = W + ".diff"
            open(x2, "w").write(d)
            rev = ["-R"]
            label = "revert " + d.splitlines()[4].strip()
            x = x2
        else:
            label = x
        r = sh("git", "-C", W, "apply", *rev, os.path.abspath(x))
        print(label)
        if r.returncode:
            print("   cannot apply", r.stderr[:300])
            continue
        run(pids)
        if "/seeded/" in os.path.abspath(label) and len(pids) == len(props()):
            cf = os.path.join(V, "tools", "caught.json")
            c = json.load(open(cf)) if os.path.exists(cf) else {}
            c[os.path.abspath(label).split("/seeded/")[1].split("/")[0]] = [p for p, rc in CAUGHT if rc == 1]
            json.dump(c, open(cf, "w"), indent=0, sort_keys=True)
    reset()


if __name__ == "__main__":
    main()
