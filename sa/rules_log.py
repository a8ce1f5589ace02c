"""L01: what a tunnel carries reaches the log only where the shipped configuration switches it off."""
import os, re
import model
from framework import *
from rules_transport import READERS
from program import walk, etype

CONF = "nymea-remoteproxy-logging.conf"
SKIP = re.compile(r"(Json|Monitor|LogEngine|Configuration)")
NUMERIC = ("count", "eq", "lt", "le", "ne", "gt", "ge", "not", "and", "or", "c", "empty", "this", "new", "fn", "sym", "undef")
NUMCALL = ("size", "length", "count", "isEmpty", "isNull", "indexOf", "lastIndexOf", "startsWith", "endsWith", "contains", "capacity", "toInt", "toUInt", "bytesAvailable")
INT = re.compile(r"^(const )?(unsigned |signed )?(bool|short|int|long|long long|quint\d+|qint\d+|uint\d+_t|qsizetype|size_t)( int)?( &)?$")
PRINTERS = ("printf", "fprintf", "puts", "fputs", "fwrite", "putchar", "fputc", "syslog", "write")
BYTES = re.compile(r"\bQByteArray\b|\bQByteArrayView\b")


def rules():
    """the shipped logging rules: [(regex of the category, level or None, enabled)]"""
    path = os.path.join(model.REPO, CONF)
    if not os.path.exists(path):
        raise AnalysisError("no %s" % CONF)
    r, on = [], False
    for l in open(path, encoding="utf-8", errors="replace"):
        l = l.strip()
        if l.startswith("["):
            on = l.lower() == "[rules]"
        elif on and "=" in l and not l.startswith(("#", ";")):
            pat, val = (x.strip() for x in l.split("=", 1))
            if val not in ("true", "false"):
                continue
            lev = None
            m = re.match(r"(.*)\.(debug|info|warning|critical)$", pat)
            if m:
                pat, lev = m.group(1), m.group(2)
            if "*" in pat.strip("*"):
                continue
            r.append((re.compile("^" + ".*".join(re.escape(x) for x in pat.split("*")) + "$"), lev, val == "true"))
    if not r:
        raise AnalysisError("no rules in %s" % CONF)
    return r


def enabled(rs, cat, lev):
    e = True
    for rx, l, v in rs:
        if (l is None or l == lev) and rx.match(cat):
            e = v
    return e


class LogMon(Monitor):
    MERGE = 24

    def __init__(self, p, opaque, text=()):
        self.opaque = frozenset(opaque)
        self.p = p
        self.text = text
        self.sinks = {}
        self.seen = 0
        self.vt = {}

    # ---- taint of a value
    def vtype(self, lid, vid):
        f = self.p.fns.get(lid[1]) if len(lid) > 1 else None
        if not f:
            return ""
        k = (lid[1], vid)
        if k not in self.vt:
            t = ""
            for n in walk(f["body"]):
                if n.get("k") == "decl":
                    for d in n["d"]:
                        if d["id"] == vid:
                            t = d.get("t", "")
            if re.match(r"^(const )?(QString|QStringList|QVariant)\b", t):
                t = t + (" QByteArray" if self.frombytes(f, vid) else "")
            self.vt[k] = t
        return self.vt[k]

    def frombytes(self, f, vid):
        """a text variable that is extended by bytes somewhere in its function"""
        for n in walk(f["body"]):
            if n.get("k") in ("call", "assign", "binop") and any(x.get("k") == "var" and x.get("id") == vid for x in walk(n)):
                for x in walk(n):
                    if x.get("k") == "var" and re.search(r"QByteArray|^(const )?char\b", x.get("t", "")):
                        return True
        return False

    def tainted(self, t, top=True):
        if not isinstance(t, tuple) or not t:
            return False
        tag = t[0]
        if not isinstance(tag, str):
            return any(self.tainted(x) for x in t)
        if tag in NUMERIC:
            return False
        if tag == "p":
            return bool(BYTES.search(str(t[3]))) or (t[1], "QString") in self.text
        if tag == "dec" and INT.match(str(t[1])):
            return False
        if tag in ("cast", "icast") and len(t) > 2 and INT.match(str(t[1])):
            return False
        if tag == "call":
            s = t[1].rsplit("::", 1)[-1]
            if s in READERS:
                return True
            if s in NUMCALL:
                return False
            return self.tainted(t[2]) or self.tainted(t[3])
        if tag in ("f", "sf", "fl") and len(t) > 2:
            fd = self.p.fields.get(t[2])
            return bool(fd and BYTES.search(fd.get("t", "")))
        if tag == "phi":
            loc = t[2]
            if loc[0] == "v":
                return bool(re.search(r"QByteArray|\bchar\b", self.vtype(t[1], loc[2]))) if t[1] != "join" else False
            return self.tainted(loc)
        return any(self.tainted(x) for x in t[1:] if isinstance(x, tuple))

    # ---- sinks
    def category(self, cat):
        if cat is None:
            return "default"
        f = self.p.fns.get(cat)
        if f is None:
            raise AnalysisError("unknown logging category %s" % cat)
        for n in walk(f["body"]):
            if n.get("k") == "ctor" and n.get("cls") == "QLoggingCategory":
                a = n.get("args") or []
                if a and a[0].get("t") == "str":
                    return a[0]["v"]
        raise AnalysisError("category of %s is not a literal" % cat)

    def logged(self, st, cat, level, vals, fr, s):
        self.seen += 1
        bad = []
        for v, x, o in vals:
            t = o.get("t") or ""
            if INT.match(t) or re.match(r"^(const )?[\w:]+::\w+ \*$", t):
                continue
            if self.tainted(v):
                bad.append(v)
        k = (fr.fn["file"], s.get("l"), fr.fn["n"])
        self.sinks.setdefault(k, (self.category(cat), level, []))[2].extend(bad[:3])

    def event(self, st, ev):
        if ev.kind == "call" and ev.short() in PRINTERS and ev.obj is None:
            b = [a for a in ev.args if self.tainted(a)]
            if b:
                self.sinks.setdefault((ev.fr.fn["file"], ev.line if hasattr(ev, "line") else 0, ev.fr.fn["n"]), ("stdout", "print", []))[2].extend(b)
        elif ev.kind == "call" and ev.short() == "operator<<":
            o = ev.obj if ev.obj is not None else (ev.args[0] if ev.args else None)
            if o is not None and re.search(r"std::c(out|err|log)|qStdOut|qStdErr", str(o)):
                b = [a for a in ev.args if a is not o and self.tainted(a)]
                if b:
                    self.sinks.setdefault((ev.fr.fn["file"], 0, ev.fr.fn["n"]), ("stdout", "print", []))[2].extend(b)


def check_L01(ctx):
    p = ctx.p
    rs = rules()
    text = {f for s in ("textMessageReceived",) for f in p.slots_of(s)}
    lib = [f for f in p.fns.values() if f.get("body") and f["file"].startswith(("common/", "libnymea-")) and not SKIP.search((f.get("cls") or "").rsplit("::", 1)[-1])
           and not (f["n"].startswith("lambda@") and SKIP.search(os.path.basename(f["file"])) or re.search(r"json|monitor|logengine|configuration", os.path.basename(f["file"])))]
    entries = []
    for f in lib:
        if f["f"] in text or any(BYTES.search(q.get("t", "")) for q in f["params"]) or any(BYTES.search(str(n.get("t", "")) + str(n.get("f", ""))) for n in walk(f["body"])):
            entries.append(f)
    opaque = {f["n"] for f in p.fns.values() if f.get("body") and SKIP.search((f.get("cls") or "").rsplit("::", 1)[-1])}
    carrying = 0
    for f in sorted(entries, key=lambda f: f["f"]):
        tx = [(i, "QString") for i, q in enumerate(f["params"]) if f["f"] in text]
        m = LogMon(p, opaque, tx)
        ctx.run(f, m)
        ctx.ok("functions that handle received or sent bytes analysed")
        server = f["file"].startswith("libnymea-remoteproxy/")
        for (fi, l, n), (cat, lev, bad) in sorted(m.sinks.items()):
            ctx.ok("log statements on the data path examined")
            if not bad:
                continue
            where = "%s:%s (%s)" % (fi, l, n)
            if lev == "print":
                ctx.bad("L01:print:%s" % n, where, "data from a connection is printed past the logging categories: %s" % show(bad[0])[:120])
                continue
            carrying += 1
            ctx.ok("log statements that show data")
            if server or fi.startswith("common/"):
                ctx.require(not enabled(rs, cat, lev), "shown only where the shipped rules switch it off", "L01:server:%s:%s" % (n, cat), where,
                            "data from a connection is logged in the category %s at level %s, which the rules shipped in %s leave enabled: %s" % (cat, lev, CONF, show(bad[0])[:120]))
            if not server:
                ctx.require(cat.endswith("Traffic") and lev == "debug", "shown only in a traffic category", "L01:client:%s:%s" % (n, cat), where,
                            "data of the tunnel is logged in the category %s at level %s, not in a traffic category: %s" % (cat, lev, show(bad[0])[:120]))
    ctx.need(8, "log statements that show data")
    ctx.need(12, "functions that handle received or sent bytes analysed")
