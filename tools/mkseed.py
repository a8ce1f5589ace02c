"""Generates /verif/seeded/<id>/ from tools/seeds.d/*.py (SEEDS lists): python3 tools/mkseed.py [FILTER]"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flt = sys.argv[1] if len(sys.argv) > 1 else ""
S = []
for f in sorted(glob.glob(os.path.join(V, "tools", "seeds.d", "*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    S += ns["SEEDS"]
assert len({s["id"] for s in S}) == len(S)
tmp = tempfile.mkdtemp(prefix="mkseed")
subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
for s in S:
    if flt not in s["id"]:
        continue
    r = tmp + "/r"
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    for fl, o, n in s["edits"]:
        p = os.path.join(r, fl)
        t = open(p).read()
        assert t.count(o) == 1, (s["id"], fl, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, check=True).stdout)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "py" in s:
        shutil.copy(os.path.join(V, "tools", "demos", "proxylib.py"), d)
        open(d + "/demo.py", "w").write(s["py"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
    if "cpp" in s:
        shutil.copy(os.path.join(V, "tools", "demos", "build.sh"), d)
        for h in s.get("files", []):
            shutil.copy(os.path.join(V, "tools", "demos", h), d)
        open(d + "/demo.cpp", "w").write(s["cpp"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nset -e\nH=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
                                        'bash "$H/build.sh" "$H/demo.cpp" "$T/demo"\ncd "$T"\ntimeout 200 "$T/demo"\n')
    os.chmod(d + "/demo.sh", 0o755)
    print(s["id"])
shutil.rmtree(tmp)
