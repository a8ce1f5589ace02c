"""Front end: parses every translation unit of /repo with the extractor and builds the program model."""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
DIRS = ["common", "libnymea-remoteproxy", "libnymea-remoteproxyclient", "server", "tunnelclient", "monitor"]
QT = "/usr/include/x86_64-linux-gnu/qt5"


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor, parse error...)."""


def build_tool():
    out = os.path.join(VERIF, "build")
    exe = os.path.join(out, "extract")
    src = os.path.join(VERIF, "extract", "extract.cpp")
    stamp = os.path.join(out, "stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    pre, pstamp = os.path.join(VERIF, "bin", "extract"), os.path.join(VERIF, "bin", "stamp")
    if os.path.exists(pre) and os.path.exists(pstamp) and open(pstamp).read() == h and \
            b"usage" in subprocess.run([pre], capture_output=True).stderr:
        return pre  # committed build of exactly this source
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = subprocess.run(["bash", os.path.join(VERIF, "extract", "build.sh"), out], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor build failed: " + r.stderr[-2000:])
    open(stamp, "w").write(h)
    return exe


def sources():
    res = []
    for d in DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("tests", "_build", "build", "debian")]
            for f in sorted(files):
                if f.endswith(".cpp") and not f.startswith(("moc_", "qrc_")):
                    res.append(os.path.join(root, f))
    return sorted(res)


def gen_version(scratch):
    """version.h as qmake's QMAKE_SUBSTITUTES would write it (values from the .pro)."""
    tmpl = open(os.path.join(REPO, "version.h.in")).read()
    pro = open(os.path.join(REPO, "nymea-remoteproxy.pro")).read()
    vals = dict(re.findall(r"^\s*([A-Z_]+)\s*=\s*(\S.*?)\s*$", pro, re.M))

    def sub(m):
        v = vals.get(m.group(1), "0")
        return v if re.match(r"^[\w .-]+$", v) else "0"
    t = re.sub(r"\$\$([A-Z_]+)", sub, tmpl)
    t = t.replace("'\"", '"').replace("\"'", '"')
    os.makedirs(os.path.join(scratch, "x", "y"))
    open(os.path.join(scratch, "version.h"), "w").write(t)


def flags(scratch):
    f = ["-std=gnu++11", "-fPIC", "-w", "-D_REENTRANT",
         "-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00", "-DQT_NO_DEBUG", "-DQT_WEBSOCKETS_LIB", "-DQT_NETWORK_LIB",
         "-DQT_CORE_LIB", "-DQT_ANNOTATE_ACCESS_SPECIFIER(x)=__attribute__((annotate(#x)))",
         "-DQT_ANNOTATE_FUNCTION(x)=__attribute__((annotate(#x)))",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    inc = [os.path.join(REPO, d) for d in DIRS if d not in ("libnymea-remoteproxy", "libnymea-remoteproxyclient")]
    return f, inc, scratch


LIBINC = {
    "common": ["libnymea-remoteproxy"],
    "libnymea-remoteproxy": ["libnymea-remoteproxy"],
    "libnymea-remoteproxyclient": ["libnymea-remoteproxyclient"],
    "server": ["server", "libnymea-remoteproxy"],
    "tunnelclient": ["tunnelclient", "libnymea-remoteproxyclient", "libnymea-remoteproxy"],
    "monitor": ["monitor"],
}


def parse_all(only=None):
    exe = build_tool()
    scratch = tempfile.mkdtemp(prefix="sa_")
    try:
        gen_version(scratch)
        f, _, _ = flags(scratch)
        srcs = sources()
        if len(srcs) < 30:
            raise AnalysisError("only %d translation units found" % len(srcs))
        if only is not None:
            srcs = [s for s in srcs if os.path.relpath(s, REPO) in only]

        def one(i):
            s = srcs[i]
            d = os.path.relpath(s, REPO).split(os.sep)[0]
            inc = ["-I" + os.path.join(REPO, x) for x in LIBINC[d]]
            inc += ["-I" + os.path.join(scratch, "x"), "-I" + os.path.join(scratch, "x", "y")]
            for q in ("", "/QtWebSockets", "/QtNetwork", "/QtCore"):
                inc += ["-isystem", QT + q]
            out = os.path.join(scratch, "%d.json" % i)
            r = subprocess.run([exe, os.path.realpath(REPO), out, s, "--"] + f + inc, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                raise AnalysisError("cannot parse %s: %s" % (s, r.stderr[-1500:]))
            with open(out) as fh:
                j = json.load(fh)
            if j.get("errors"):
                raise AnalysisError("errors parsing %s: %s" % (s, r.stderr[-1500:]))
            j["src"] = os.path.relpath(s, REPO)
            return j
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(srcs))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1] == "--build":
        print(build_tool())
        sys.exit(0)
    tus = parse_all()
    print(len(tus), sum(len(t["functions"]) for t in tus), time.time() - t)
    json.dump(tus, open(sys.argv[1], "w"))
