"""Rules for configuration (S03), engine life cycle (E01), monitor server (M01), statistics (M02), monitor tool (M03),
blocking calls (N01) and signal handlers (N02)."""
import os, re, tempfile
from model import gen_version

from framework import *
from rules_codec import enumval
from rules_client import Log, logs, params_of, unconv, THIS, mapitems, lam_fn
from rules_transport import Net, lg, sig_name, bodies, loc_eq, engine_opaque
from rules_limits import EvView, mentions as _m, lamtargets, splitter

N = "remoteproxy::"
CFG = N + "ProxyConfiguration"
ENG = N + "Engine"
TPS = N + "TunnelProxyServer"
MON = N + "MonitorServer"
CONV = {"toString": "str", "toBool": "bool", "toInt": "int", "toUInt": "int", "toLongLong": "int", "toULongLong": "int"}

# field suffix -> (section, key, default, kind)
KEYS = {
    "m_serverName": ("ProxyServer", "name", "nymea-remoteproxy", "str"),
    "m_writeLogFile": ("ProxyServer", "writeLogs", False, "bool"),
    "m_logFileName": ("ProxyServer", "logFile", "/var/log/nymea-remoteproxy.log", "str"),
    "m_logEngineEnabled": ("ProxyServer", "logEngineEnabled", False, "bool"),
    "m_monitorSocketFileName": ("ProxyServer", "monitorSocket", "/tmp/nymea-remoteproxy.monitor", "str"),
    "m_jsonRpcTimeout": ("ProxyServer", "jsonRpcTimeout", 10000, "int"),
    "m_inactiveTimeout": ("ProxyServer", "inactiveTimeout", 8000, "int"),
    "m_sslEnabled": ("SSL", "enabled", True, "bool"),
    "m_sslCertificateFileName": ("SSL", "certificate", "/etc/ssl/certs/ssl-cert-snakeoil.pem", "str"),
    "m_sslCertificateKeyFileName": ("SSL", "certificateKey", "/etc/ssl/private/ssl-cert-snakeoil.key", "str"),
    "m_sslCertificateChainFileName": ("SSL", "certificateChain", "", "str"),
    "m_unixSocketFileName": ("UnixSocketServerTunnelProxy", "unixSocketFileName", "/run/nymea-remoteproxy.socket", "str"),
    "m_webSocketServerTunnelProxyHost": ("WebSocketServerTunnelProxy", "host", "127.0.0.1", "host"),
    "m_webSocketServerTunnelProxyPort": ("WebSocketServerTunnelProxy", "port", 2212, "int"),
    "m_tcpServerTunnelProxyHost": ("TcpServerTunnelProxy", "host", "127.0.0.1", "host"),
    "m_tcpServerTunnelProxyPort": ("TcpServerTunnelProxy", "port", 2213, "int"),
}


def unwrap(t):
    """strip integer casts and one-argument value constructors"""
    while True:
        if t[0] == "icast" and (t[2] >= 32 or t[2] == 16 and not t[3]):
            t = t[1]
        elif t[0] == "ctorobj" and len(t[2]) >= 1 and t[1] in ("QVariant", "QString", "QByteArray", "QAnyStringView", "QStringView", "QLatin1String", "QLatin1StringView"):
            t = t[2][0]
        elif t[0] == "call" and t[2] is None and t[1] in ("QString::fromUtf8", "QString::fromLatin1", "QStringLiteral") and t[3]:
            t = t[3][0]
        else:
            return t


def lit(t):
    t = unwrap(t)
    if t == EMPTY:
        return ""
    return t[1] if is_c(t) else None


def setting(t):
    """(file term, section, key, default, kind) if t is a converted value of a QSettings object"""
    kind = None
    t = unwrap(t)
    host = False
    if t[0] == "ctorobj" and t[1] == "QHostAddress" and len(t[2]) == 1:
        host = True
        t = unwrap(t[2][0])
    if t[0] == "call" and t[2] is not None and t[1].rsplit("::", 1)[-1] in CONV:
        kind = CONV[t[1].rsplit("::", 1)[-1]]
        t = t[2]
    elif t[0] == "call" and t[1] in ("QVariant::value", "qvariant_cast"):
        kind = "?"
        t = t[2] if t[2] is not None else t[3][0]
    if host:
        kind = "host" if kind in ("str", "?") else None
    if not (t[0] == "call" and t[1] == "QSettings::value" and t[3]):
        return None
    groups, s = [], t[2]
    ops = []
    while s[0] == "mut":
        ops.append((s[1].rsplit("::", 1)[-1], s[3] if len(s) > 3 else ()))
        s = s[2]
    for o, a in reversed(ops):
        if o == "beginGroup":
            g = lit(a[0]) if a else None
            if g is None:
                return None
            groups.append(g)
        elif o == "endGroup":
            if groups:
                groups.pop()
    if s[0] != "ctorobj" or s[1] != "QSettings":
        return None
    key = lit(t[3][0])
    if not isinstance(key, str):
        return None
    path = "/".join(groups + [key])
    sec, _, k = path.rpartition("/")
    d = lit(t[3][1]) if len(t[3]) > 1 else None
    return s[2], sec, k, d, kind


class Cfg(Monitor):
    """remembers the results of open() per file name and the sources of the installed certificates"""

    def event(self, st, ev):
        s = ev.short()
        I = self.I
        if ev.kind == "ctor":
            ad = [a for a in ev.args if a[0] == "addr"]
            if ad:
                st.ghost["from"] = st.ghost.get("from", ()) + ((ad[0], I.load(st, ad[0][1])),)
            return
        if ev.kind != "call":
            return
        if s == "open" and ev.name.startswith(("QFile::", "QIODevice::", "QFileDevice::")):
            st.ghost["open"] = st.ghost.get("open", ()) + ((ev.obj, ("fresh", ev.name, (ev.fr.fn["n"], ev.node.get("l", 0), ev.fr.ctx) + ev.fr.loops)),)
        elif s in ("readAll", "read", "readLine") and ev.obj is not None and isinstance(ev.extra, tuple) and ev.extra[:1] == ("fresh",):
            st.ghost["from"] = st.ghost.get("from", ()) + ((ev.extra, ev.obj),)
        elif s in ("setLocalCertificate", "setPrivateKey", "setCaCertificates", "setLocalCertificateChain", "addCaCertificate"):
            src = []
            fr = dict(st.ghost.get("from", ()))
            for t in subterms(ev.args[0]):
                if t[0] == "addr":
                    src.append(fr.get(t, t))
                elif t[0] == "fresh" and t in fr:
                    src.append(fr[t])
                elif t[0] == "ctorobj" and t[1] in ("QSslCertificate", "QSslKey") or t[0] == "call" and t[1] == "QIODevice::readAll":
                    src.append(t)
            st.ghost["ssl"] = st.ghost.get("ssl", ()) + ((s, tuple(src), ev.args[0]),)


def check_S03(ctx):
    p = ctx.p
    fields = {}
    for n, q in KEYS.items():
        fields[p.field(CFG, n)] = q
    sslf = p.field(CFG, "m_sslConfiguration", r"QSslConfiguration$")
    load = p.fn(CFG + "::loadConfiguration")
    P = params_of(load)
    res, I = ctx.run(load, Cfg())
    w = fnwhere(load)
    fname = P[0]
    bykey = {(s, k): f for f, (s, k, d, kd) in fields.items()}

    def val(st, f):
        return I.load(st, ("fl", THIS, f))

    def isval(t, sec, key):
        s = setting(t)
        return s is not None and (s[1], s[2]) == (sec, key)
    ntrue = 0
    for st, v in res:
        r = truth(I, st, v)
        if r is False:
            ctx.require(I.load(st, ("fl", THIS, sslf)) == ("f", THIS, sslf), "a failed load installs no TLS configuration", "S03:failed", w,
                        "loadConfiguration reports a failure but has already installed a TLS configuration", st)
            continue
        ntrue += 1
        ex = [b for a, b in st.facts.items() if a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("exists", "isFile", "isReadable") and contains_term(a, fname)]
        ctx.require(ex and all(ex), "a missing configuration file is reported", "S03:missing", w, "loadConfiguration succeeds although it has not established that the configuration file exists", st)
        for f, (sec, key, d, kd) in fields.items():
            t = val(st, f)
            s = setting(t)
            n = f.rsplit("::", 1)[-1]
            ok = s is not None and contains_term(("x",) + tuple(s[0]), fname)
            ctx.require(ok, "%s comes from the configuration file" % n, "S03:%s:source" % n, w, "%s is set to %s, which is not a value of the configuration file" % (n, show(t)[:80]), st)
            if not ok:
                continue
            ctx.require((s[1], s[2]) == (sec, key), "%s is read from its documented key" % n, "S03:%s:key" % n, w, "%s is read from [%s] %s instead of [%s] %s" % (n, s[1], s[2], sec, key), st)
            ctx.require(s[3] == d and (isinstance(s[3], bool) == isinstance(d, bool) or kd != "bool"), "%s has its documented default" % n, "S03:%s:default" % n, w,
                        "the default of %s is %r instead of %r" % (n, s[3], d), st)
            ctx.require(s[4] in (kd, "?"), "%s is converted to its type" % n, "S03:%s:type" % n, w, "%s is converted as %s" % (n, s[4]), st)
        # ---- TLS material
        opened = {}
        for o, rt in st.ghost.get("open", ()):
            for sec, key in (("SSL", "certificate"), ("SSL", "certificateKey"), ("SSL", "certificateChain")):
                names = [unwrap(x) for t in subterms(o) if t[0] == "ctorobj" and t[1] == "QFile" for x in t[2][:1]] + \
                        [unwrap(x) for t in subterms(o) if t[0] == "mut" and t[1].endswith("::setFileName") for x in t[3][:1]]
                if any(isval(x, sec, key) for x in names):
                    opened.setdefault(key, []).append(I.decide(rt, st))
        src = {}
        for s, ts, a in st.ghost.get("ssl", ()):
            ks = set()
            for t in ts:
                for x in subterms(t):
                    q = setting(x) if x[0] == "call" else None
                    if q and q[1] == "SSL":
                        ks.add(q[2])
            src[s] = ks
        chain = val(st, next(f for f in fields if f.endswith("m_sslCertificateChainFileName")))
        empty = I.decide(I.mk_eq(C(0), ("count", chain)), st)
        nulls = {}
        for a, b in st.facts.items():
            if a[0] == "call" and a[1].endswith("::isNull") and not b:
                for x in subterms(a):
                    if x[0] == "ctorobj" and x[1] in ("QSslCertificate", "QSslKey"):
                        nulls[x[1]] = True
        tls = I.decide(val(st, next(f for f in fields if f.endswith("m_sslEnabled"))), st)
        if tls is not False:
            for key, what in (("certificate", "certificate"), ("certificateKey", "private key")):
                ctx.require(opened.get(key) and all(x is True for x in opened[key]), "an unreadable %s is reported" % what, "S03:%s:unreadable" % key, w,
                            "loadConfiguration succeeds although the %s file could not be read" % what, st)
            if empty is False:
                ctx.require(opened.get("certificateChain") and all(x is True for x in opened["certificateChain"]), "an unreadable certificate chain is reported", "S03:certificateChain:unreadable", w,
                            "loadConfiguration succeeds although the configured certificate chain could not be read", st)
                ctx.require("certificateChain" in src.get("setCaCertificates", src.get("setLocalCertificateChain", src.get("addCaCertificate", ()))), "the chain is installed", "S03:chain", w,
                            "the configured certificate chain is not installed in the TLS configuration", st)
            cert = src.get("setLocalCertificate", src.get("setLocalCertificateChain", set()))
            ctx.require(cert == {"certificate"} or cert == {"certificate", "certificateChain"}, "the certificate comes from the configured file", "S03:cert", w, "the installed certificate is read from %s" % (sorted(cert) or "no configured file"), st)
            key = src.get("setPrivateKey", set())
            ctx.require(key == {"certificateKey"}, "the private key comes from the configured file", "S03:key", w, "the installed private key is read from %s" % (sorted(key) or "no configured file"), st)
            sc = I.load(st, ("fl", THIS, sslf))
            ctx.require(sc != ("f", THIS, sslf), "the TLS configuration is installed", "S03:installed", w, "loadConfiguration succeeds without installing the TLS configuration", st)
            prot, x = None, sc
            for t in subterms(sc):
                if t[0] == "mut" and t[1].endswith("::setProtocol") and t[3] and is_c(t[3][0]):
                    prot = t[3][0][1] if prot is None else prot
            ctx.require(prot in TLSOK, "only TLS 1.2 or later is offered", "S03:protocol", w, "the TLS configuration allows protocol %r (QSsl::SslProtocol), older than TLS 1.2" % (prot,), st)
    if ntrue < 1 or len(res) <= ntrue:
        raise AnalysisError("loadConfiguration: %d successful of %d exits" % (ntrue, len(res)))
    # ---- getters return the field set by the setter of the same name
    for f in bodies(p, CFG):
        n = f["n"].rsplit("::", 1)[-1]
        fl = "m_" + n
        q = [x for x in fields if x.endswith("::" + fl)] + ([sslf] if fl == "m_sslConfiguration" else [])
        if q and not f["params"]:
            r2, I2 = ctx.run(f, Cfg())
            for s2, v2 in r2:
                ctx.require(v2 == ("f", THIS, q[0]), "getters return the configured value", "S03:get:" + n, fnwhere(f), "%s() returns %s" % (n, show(v2)[:60]), s2)
    ctx.need(10, "getters return the configured value")
    # ---- the daemon never starts with a configuration that could not be loaded, or with TLS enabled but not configured
    mains = [f for f in p.fns.values() if f["n"] == "main" and f["file"].startswith("server/")]
    if len(mains) != 1:
        raise AnalysisError("main() of the server not found (%d)" % len(mains))
    op = engine_opaque(p) | {CFG + "::loadConfiguration", ENG + "::start", ENG + "::instance", CFG + "::" + CFG.rsplit("::", 1)[-1]}
    op |= {f["n"] for f in p.fns.values() if f.get("cls", "").endswith("RemoteProxyServerApplication")}
    op |= {f["n"] for f in bodies(p, CFG)}
    m = Main()
    m.opaque = frozenset(op)
    r3, I3 = ctx.run(mains[0], m)
    w3 = fnwhere(mains[0])
    started = 0
    for st, cfg, loads in m.starts:
        started += 1
        ok = [v for a, v in st.facts.items() if a[0] in ("fresh", "call") and a[1] == CFG + "::loadConfiguration" and (a[0] == "fresh" or a[2] == cfg)]
        ctx.require(len(ok) >= len(loads) >= 1 and loads[-1] == cfg and ok[-1] is True, "the engine is only started with a loaded configuration", "S03:main:load", w3,
                    "the engine is started although the configuration could not be loaded", st)
        en = [v for a, v in st.facts.items() if a[0] in ("fresh", "call") and a[1] == CFG + "::sslEnabled"]
        nl = [v for a, v in st.facts.items() if a[0] in ("fresh", "call") and a[1] == "QSslConfiguration::isNull"]
        ctx.require((en and en[-1] is False) or (nl and nl[-1] is False), "TLS is never enabled without a TLS configuration", "S03:main:tls", w3,
                    "the engine is started with TLS enabled but without a TLS configuration", st)
    ctx.need(1, "the engine is only started with a loaded configuration")


TLSOK = {4, 10, 15, 16}   # QSsl::TlsV1_2, TlsV1_2OrLater, TlsV1_3, TlsV1_3OrLater


class Main(Monitor):
    def __init__(self):
        self.starts = []

    def event(self, st, ev):
        if ev.kind != "call":
            return
        if ev.name == CFG + "::loadConfiguration":
            st.ghost["loads"] = st.ghost.get("loads", ()) + (ev.obj,)
        elif ev.name == ENG + "::start":
            c = st.copy() if hasattr(st, "copy") else st
            self.starts.append((c, ev.args[0], st.ghost.get("loads", ())))


# ============================================================================ E01
class Life(Monitor):
    """ordered log of the object life cycle: new, delete, calls on repo objects, timers, signals"""
    KEEP = ("startServer", "stopServer", "registerTransportInterface", "setRunning", "enable", "disable", "start", "stop", "invokeMethod", "singleShot", "tick",
            "connect", "deleteLater", "listen", "remove", "removeServer", "close")

    def __init__(self, opaque=()):
        self.opaque = frozenset(opaque)

    def event(self, st, ev):
        s = ev.short()
        k = None
        if ev.kind == "emit":
            k = "emit." + s
        elif ev.kind in ("new", "delete"):
            k = ev.kind
        elif ev.kind == "call" and s in self.KEEP:
            k = s
        if k:
            x = (k, ev.obj, ev.args, ev.name, bool(ev.fr.loops), ev.where())
            if k in ("startServer", "stopServer") and ev.fr.loops and ev.obj and ev.obj[0] == "elem":
                st.ghost[("mark", ev.obj, s)] = 1
            if ev.fr.loops and x in st.ghost.get("log", ()):
                return
            if len(st.ghost.get("log", ())) < 80:
                st.ghost["log"] = st.ghost.get("log", ()) + (x,)


def calls(st, *ks):
    return [(i, e) for i, e in enumerate(st.ghost.get("log", ())) if e[0] in ks]


def owned_fields(p):
    """the server objects and the configuration owned by the engine"""
    r = []
    for f in p.classes[ENG]["fields"]:
        t = strip_ptr(f["t"]) if f["t"].endswith("*") else ""
        full = t if t.startswith(N) else N + t
        if f["t"].endswith("*") and (full in (TPS, MON, CFG) or N + "TransportInterface" in p.classes.get(full, {"allbases": []})["allbases"]):
            r.append((f["n"], full))
    return r


def clean_rule(ctx, I, st, owned, w, fn, final=None):
    """every existing object was deleted exactly once and is not used afterwards; the pointer does not keep the old object"""
    log = st.ghost.get("log", ())
    dels = {}
    for i, e in calls(st, "delete", "deleteLater"):
        dels.setdefault(e[1], []).append(i)
    transports = [("f", THIS, f) for f, c in owned if c not in (TPS, MON, CFG)]
    for f, c in owned:
        old = ("f", THIS, f)
        n = f.rsplit("::", 1)[-1]
        nul = is_null(I, st, old)
        d = dels.get(old, [])
        now = I.load(st, ("fl", THIS, f))
        if nul is True:
            continue
        ctx.require(len(d) == 1, "stopped objects are deleted exactly once", "E01:%s:delete:%s" % (fn, n), w, "%s is deleted %d times" % (n, len(d)), st)
        ctx.require(now != old, "no dangling pointer is kept", "E01:%s:dangling:%s" % (fn, n), w, "%s still points to the deleted object" % n, st)
        for i, e in enumerate(log):
            if d and i > d[0] and e[1] == old and e[0] not in ("delete", "deleteLater"):
                ctx.bad("E01:%s:use:%s" % (fn, n), w, "%s is used (%s) after it has been deleted" % (n, e[0]), st)
        if c == TPS:
            for i, e in enumerate(log):
                if e[1] == old and e[0] in ("stopServer", "startServer"):
                    early = [t for t in transports if any(j < i for j in dels.get(t, ()))]
                    ctx.require(not early, "transports outlive the tunnel server's use of them", "E01:%s:order" % fn, w,
                                "the tunnel server is stopped after %s has been deleted" % ", ".join(t[2].rsplit("::", 1)[-1] for t in early), st)


def check_E01(ctx):
    p = ctx.p
    owned = owned_fields(p)
    kinds = {c for f, c in owned}
    if len(owned) < 6 or not {TPS, MON, CFG} <= kinds:
        raise AnalysisError("engine objects: %s" % owned)
    transports = [c for f, c in owned if c not in (TPS, MON, CFG)]
    run_f = p.field(ENG, "m_running", r"^bool$")
    timer_f = p.field(ENG, "m_timer", r"QTimer \*")
    cf = {k: p.field(CFG, k) for k in KEYS}
    op = engine_opaque(p)
    # ---- start
    fn = p.fn(ENG + "::start")
    P = params_of(fn)[0]
    res, I = ctx.run(fn, Life(op))
    w = fnwhere(fn)
    url = {}
    for st, v in res:
        clean_rule(ctx, I, st, owned, w, "start")
        new = {}
        for f, c in owned:
            now = I.load(st, ("fl", THIS, f))
            n = f.rsplit("::", 1)[-1]
            if c == CFG:
                ctx.require(now == P, "the engine keeps its configuration", "E01:start:config", w, "after start() the configuration is %s" % show(now)[:40], st)
                continue
            ctx.require(now[0] == "new" and now[1].rsplit("::", 1)[-1] == c.rsplit("::", 1)[-1], "start creates every server", "E01:start:" + n, w, "after start() %s is %s" % (n, show(now)[:40]), st)
            new[c] = now
        tps = new.get(TPS)
        sv = [i for i, e in calls(st, "startServer") if e[1] == tps]
        ctx.require(len(sv) == 1, "the tunnel server is started once", "E01:start:once", w, "the tunnel server is started %d times" % len(sv), st)
        for c in transports:
            o = new.get(c)
            rg = [i for i, e in calls(st, "registerTransportInterface") if e[1] == tps and e[2] and e[2][0] == o]
            ctx.require(rg and sv and rg[0] < sv[0], "every transport is registered before the start", "E01:start:register:" + c, w,
                        "%s is %s" % (c, "never registered" if not rg else "registered after the tunnel server was started"), st)
            u = [(k, val) for k, val in st.heap.items() if k[0] == "fl" and k[1] == o and ("Url" in k[2] or "FileName" in k[2])]
            allf = {t[2] for k, val in u for t in subterms(val) if t[0] == "f" and t[1] == P}
            low = c.rsplit("::", 1)[-1].lower()
            want = ("m_webSocketServerTunnelProxyHost", "m_webSocketServerTunnelProxyPort") if "web" in low else (("m_unixSocketFileName",) if "unix" in low else ("m_tcpServerTunnelProxyHost", "m_tcpServerTunnelProxyPort"))
            want = {cf[x] for x in want}
            other = {cf[x] for x in KEYS if x != "m_sslEnabled"}
            ctx.require(want <= allf and not (allf & other) - want, "every transport gets its configured address", "E01:start:address:" + c, w,
                        "the address of %s is built from %s" % (c.rsplit("::", 1)[-1], ", ".join(sorted(x.rsplit("::", 1)[-1] for x in allf)) or "nothing"), st)
        mo = new.get(MON)
        ms = [e for i, e in calls(st, "startServer") if e[1] == mo]
        mn = [e for i, e in calls(st, "new") if e[1] == mo]
        ctx.require(len(ms) == 1, "the monitor server is started", "E01:start:monitor", w, "the monitor server is started %d times" % len(ms), st)
        ctx.require(mn and mn[-1][2] and mn[-1][2][0] == ("f", P, cf["m_monitorSocketFileName"]), "the monitor server uses its configured socket", "E01:start:monitor-name", w,
                    "the monitor server listens on %s" % (show(mn[-1][2][0])[:60] if mn else "?"), st)
        le = truth(I, st, ("f", P, cf["m_logEngineEnabled"]))
        en = calls(st, "enable")
        ctx.require(bool(en) == (le is True) if le is not None else not en, "the log engine runs as configured", "E01:start:log", w,
                    "the log engine is %s although it is configured %s" % ("enabled" if en else "not enabled", le), st)
        ctx.require(will_run(ctx, st, I, run_f), "start() reports running", "E01:start:running", w, "start() never sets the engine running", st)
    # ---- stop, destructor
    for nm in ("stop", "~Engine"):
        fn = p.fn(ENG + "::" + nm)
        res, I = ctx.run(fn, Life(op))
        w = fnwhere(fn)
        for st, v in res:
            clean_rule(ctx, I, st, owned, w, nm)
            now = I.load(st, ("fl", THIS, run_f))
            ctx.require(I.decide(now, st) is False, "a stopped engine is not running", "E01:%s:running" % nm, w, "after %s() the engine still reports running %s" % (nm, show(now)[:30]), st)
            was = truth(I, st, ("f", THIS, run_f))
            if was is not False:
                ctx.require([e for i, e in calls(st, "emit.runningChanged") if e[1] == THIS], "stop reports the change", "E01:%s:signal" % nm, w, "%s() does not report that the engine stopped" % nm, st)
    # ---- setRunning
    run_rule(ctx, ENG, ENG + "::setRunning", run_f, op, p.field(ENG, "m_tunnelProxyServer", r"TunnelProxyServer \*"), timer_f)
    # ---- singleton
    fn = p.fn(ENG + "::destroy")
    res, I = ctx.run(fn, Life(op))
    for st, v in res:
        sg = next((c for c in st.heap if c[0] == "g" and c[1].endswith("s_instance")), None)
        g = ("g", ENG + "::s_instance")
        nul = is_null(I, st, g)
        d = [e for i, e in calls(st, "delete", "deleteLater") if e[1] == g]
        if nul is True:
            ctx.require(not d, "destroy deletes the engine once", "E01:destroy", fnwhere(fn), "destroy() deletes a missing engine", st)
            continue
        ctx.require(len(d) == 1 and sg and st.heap[sg] == NULL, "destroy deletes the engine once", "E01:destroy", fnwhere(fn), "destroy() %s" % ("does not delete the engine" if not d else "leaves a dangling instance pointer"), st)
    fn = p.fn(ENG + "::instance")
    res, I = ctx.run(fn, Life(op | {ENG + "::Engine"}))
    for st, v in res:
        g = ("g", ENG + "::s_instance")
        if is_null(I, st, g) is False:
            ctx.require(v == g and not calls(st, "new"), "one engine", "E01:instance", fnwhere(fn), "instance() returns %s although there is an engine" % show(v)[:40], st)
        else:
            ctx.require(v[0] == "new" and any(c[0] == "g" and x == v for c, x in st.heap.items()), "one engine", "E01:instance", fnwhere(fn), "instance() does not remember the engine it creates", st)
    # ---- the tunnel server starts and stops every transport
    tr = p.field(TPS, "m_transportInterfaces", r"TransportInterface \*>")
    trun = p.field(TPS, "m_running", r"^bool$")
    for nm, val in (("startServer", True), ("stopServer", False)):
        fn = p.fn(TPS + "::" + nm)
        m = Life()
        m.call_targets = None
        res, I = ctx.run(fn, m)
        w = fnwhere(fn)
        for st, v in res:
            R = ("f", THIS, tr)
            empty = I.decide(I.mk_eq(C(0), ("count", R)), st)
            ctx.require(empty is True or any(g[0] == "forall" and g[2] == nm and (g[1] == R or g[1] == ("values", R)) for g in st.ghost if isinstance(g, tuple)), "every transport is started and stopped",
                        "E01:%s:all" % nm, w, "%s() does not reach every registered transport" % nm, st)
            now = I.load(st, ("fl", THIS, trun))
            ctx.require(I.decide(now, st) is val, "the tunnel server reports its state", "E01:%s:running" % nm, w, "after %s() the tunnel server reports running %s" % (nm, show(now)[:30]), st)
    run_rule(ctx, TPS, TPS + "::setRunning", trun, (), None, None)
    # ---- registration of a transport: each signal connected once, listed once
    fn = p.fn(TPS + "::registerTransportInterface")
    res, I = ctx.run(fn, Life())
    w = fnwhere(fn)
    P0 = params_of(fn)[0]
    R = ("f", THIS, tr)
    for st, v in res:
        has = I.decide(("has", R, P0), st)
        cs = [e for i, e in calls(st, "connect")]
        now = I.load(st, ("fl", THIS, tr))
        if has is True:
            ctx.require(not cs and now == R, "a transport is registered once", "E01:register:again", w, "a transport which is already registered is connected again", st)
            continue
        sg = sorted(sig_name(e[2][1]) for e in cs if e[2][0] == P0)
        ctx.require(sg == ["clientConnected", "clientDisconnected", "dataAvailable"], "the signals of a transport are connected once", "E01:register:signals", w, "the connected signals are %s" % sg, st)
        for e in cs:
            q = e[2]
            ty = q[4] if len(q) > 4 else C(0)
            ctx.require(not (is_c(ty) and ty[1] in (2, 3)), "transport signals are handled synchronously", "E01:register:queued", w, "the signal %s is delivered by a queued connection" % sig_name(q[1]), st)
            if q[0] == P0 and len(q) > 3 and q[3][0] == "fn":
                h = q[3][1].split("(")[0].rsplit("::", 1)[-1]
                want = {"clientConnected": "Connected", "clientDisconnected": "Disconnected", "dataAvailable": "Data"}.get(sig_name(q[1]))
                ctx.require(want is None or want in h, "each signal has its own handler", "E01:register:handler", w, "%s is handled by %s()" % (sig_name(q[1]), h), st)
        ctx.require(now != R and now[0] == "app" and now[1] == R and now[2] == P0, "a transport is listed", "E01:register:list", w, "after the registration the transports are %s" % show(now)[:60], st)
    # ---- the transports and the monitor listen where they are told to
    for K in [c for f, c in owned if c not in (TPS, CFG)]:
        fn = p.fn(K + "::startServer")
        res, I = ctx.run(fn, Life())
        w = fnwhere(fn)
        for st, v in res:
            for i, e in calls(st, "listen"):
                a = e[2]
                fs = {t[2] for x in a for t in subterms(x) if t[0] == "f" and t[1] == THIS}
                if len(a) >= 2:
                    h = any(t[0] == "call" and t[1] == "QUrl::host" for t in subterms(a[0]))
                    q = any(t[0] == "call" and t[1] == "QUrl::port" for t in subterms(a[1]))
                    ctx.require(h and q and len(fs) == 1 and any("Url" in x for x in fs), "servers listen on the configured address", "E01:listen:" + K, w, "%s listens on %s, %s" % (K, show(a[0])[:60], show(a[1])[:60]), st)
                else:
                    ctx.require(a[0][0] == "f" and a[0][1] == THIS and any(y in a[0][2] for y in ("FileName", "serverName")), "servers listen on the configured address", "E01:listen:" + K, w, "%s listens on %s" % (K, show(a[0])[:60]), st)
                    for j, r in calls(st, "remove", "removeServer"):
                        ctx.require(r[2] and r[2][0] == a[0] or contains_term(("x",) + tuple(x for x in (r[1],) if x), a[0]), "only the own stale socket is removed", "E01:remove:" + K, w,
                                    "%s removes %s before listening on %s" % (K, show(r[2][0])[:50] if r[2] else "?", show(a[0])[:50]), st)
    ctors = [f for f in bodies(p, MON) if f["n"] == MON + "::MonitorServer"]
    for f in ctors:
        res, I = ctx.run(f, Life())
        for st, v in res:
            vals = [x for c, x in st.heap.items() if c[0] == "fl" and c[1] == THIS and "serverName" in c[2]]
            ctx.require(vals == [params_of(f)[0]], "the monitor keeps its socket name", "E01:monitor-name", fnwhere(f), "the monitor server listens on %s" % (show(vals[0])[:40] if vals else "nothing"), st)
    for k, n in (("stopped objects are deleted exactly once", 12), ("every transport is registered before the start", 3), ("every transport is started and stopped", 2), ("servers listen on the configured address", 4),
                 ("running changes are reported exactly once", 2), ("the engine keeps its configuration", 1)):
        ctx.need(n, k)


def will_run(ctx, st, I, run_f):
    """the path sets the engine running: directly, or by a deferred call of setRunning(true)"""
    if I.decide(I.load(st, ("fl", THIS, run_f)), st) is True and calls(st, "emit.runningChanged"):
        return True
    for i, e in calls(st, "invokeMethod", "singleShot"):
        a = e[2]
        names = [t[1] for x in a for t in subterms(x) if is_c(t) and isinstance(t[1], str)]
        if any("setRunning" in x for x in names) and any(t == TRUE for x in a for t in subterms(x)):
            return True
        for q in a:
            if q[0] == "lam" and ctx.p.fns.get(q[1]):
                r, I2 = ctx.run(ctx.p.fns[q[1]], Life(engine_opaque(ctx.p)), caps=q[2])
                if r and any(I2.decide(I2.load(s, ("fl", THIS, run_f)), s) is True for s, _ in r):
                    return True
    return False


def run_rule(ctx, cls, name, field, op, tps, timer):
    """setRunning(x): the state and its signal agree; the engine cannot be set running once it has been stopped"""
    p = ctx.p
    fn = p.fn(name)
    res, I = ctx.run(fn, Life(op))
    w = fnwhere(fn)
    P = params_of(fn)[0]
    K = "E01:%s" % name.rsplit("::", 2)[-2]
    for st, v in res:
        old = ("f", THIS, field)
        now = I.load(st, ("fl", THIS, field))
        same = I.decide(I.mk_eq(old, P), st)
        if same is None and truth(I, st, P) is not None and truth(I, st, old) is not None:
            same = truth(I, st, P) == truth(I, st, old)
        em = [e for i, e in calls(st, "emit.runningChanged")]
        if now == old:
            dead = tps and truth(I, st, P) is True and is_null(I, st, ("f", THIS, tps)) is True
            ctx.require(same is True or dead, "every change of the state is applied", K + ":lost", w, "setRunning() ignores a change", st)
            ctx.require(not em, "running changes are reported exactly once", K + ":spurious", w, "runningChanged is emitted although nothing changed", st)
            continue
        on = truth(I, st, P)
        good = now == P or (on is not None and I.decide(now, st) == on)
        ctx.require(good, "the requested state is set", K + ":value", w, "setRunning() sets the state to %s" % show(now)[:30], st)
        if same is False or same is None:
            ctx.require(len(em) == 1 and (em[0][2][0] in (P, now) or I.decide(em[0][2][0], st) == on), "running changes are reported exactly once", K + ":signal", w, "%d runningChanged signals for one change" % len(em), st)
        if tps and on is True:
            ctx.require(is_null(I, st, ("f", THIS, tps)) is False, "a stopped engine is not set running", K + ":late", w, "the engine is set running although it has been stopped in the meantime", st)
        if timer:
            T = ("f", THIS, timer)
            a = [e[0] for i, e in calls(st, "start", "stop") if e[1] == T]
            ctx.require(bool(a) and a[-1] == ("start" if on else "stop"), "the statistics timer runs with the engine", K + ":timer", w, "the timer of the engine is %s" % (a or "untouched"), st)


# ============================================================================ M01
class MonSrv(Monitor):
    def __init__(self, p):
        self.opaque = frozenset({ENG + "::instance", ENG + "::buildMonitorData"})
        self.p = p

    def event(self, st, ev):
        s = ev.short()
        k = None
        if ev.kind == "emit":
            k = "emit." + s
        elif ev.kind in ("new", "delete"):
            k = ev.kind
        elif ev.kind == "call" and (s in ("write", "close", "abort", "disconnectFromServer", "connect", "disconnect", "deleteLater", "readAll", "read", "readLine", "nextPendingConnection", "setProperty",
                                          "buildMonitorData", "sendTextMessage") or ev.name.startswith((N + "TunnelProxy", N + "Transport", N + "JsonRpc", N + "ProxyConfiguration::set", ENG + "::")) and s != "instance"):
            k = s
        if k:
            x = (k, ev.obj, ev.args, ev.name, bool(ev.fr.loops), ev.where())
            if ev.fr.loops and ev.obj and ev.obj[0] == "elem" and k in ("close", "abort", "disconnectFromServer", "write"):
                st.ghost[("mark", ev.obj, "close" if k != "write" else k)] = 1
            if ev.fr.loops and x in st.ghost.get("log", ()):
                return
            st.ghost["log"] = st.ghost.get("log", ()) + (x,)


def uncast(t):
    while t[0] == "cast":
        t = t[2]
    return t


def jsonof(t):
    """the value serialized by QJsonDocument(...).toJson(Compact) in term t; None otherwise. Second result: compact?"""
    if t[0] == "call" and t[1] == "QJsonDocument::toJson":
        comp = bool(t[3]) and t[3][0] == C(1)
        d = t[2]
        while d[0] in ("call", "ctorobj") and (d[1] in ("QJsonDocument::fromVariant", "QJsonObject::fromVariantMap", "QJsonValue::fromVariant", "QVariant::fromValue") or d[0] == "ctorobj"):
            a = d[3] if d[0] == "call" else d[2]
            if not a:
                break
            d = a[0]
        return d, comp
    return None, False


def message(t):
    """(value, compact, terminated) of a serialized message term"""
    ps = cat_parts(t) if t[0] == "cat" else [t]
    if not ps:
        return None, False, False
    v, c = jsonof(ps[0])
    ps = [x[1] if x[0] == "byte" else x for x in ps]
    rest = "".join("?" if not is_c(x) else x[1] if isinstance(x[1], str) else chr(x[1]) if type(x[1]) is int and 0 < x[1] < 128 else "?" for x in ps[1:])
    return v, c, rest == "\n"


def check_M01(ctx):
    p = ctx.p
    cl = p.field(MON, "m_clients", r"QList<QLocalSocket \*>")
    srv = p.field(MON, "m_server", r"QLocalServer \*")
    L0 = ("f", THIS, cl)
    # ---- new connection
    fs = [f for f in bodies(p, MON) if any(n.get("k") == "call" and str(n.get("n", "")).endswith("::nextPendingConnection") for n in walk(f["body"]))]
    if not fs:
        raise AnalysisError("no function of the monitor server accepts connections")
    hooks = {}
    for fn in fs:
        res, I = ctx.run(fn, MonSrv(p))
        w = fnwhere(fn)
        for st, v in res:
            log = st.ghost.get("log", ())
            for i, e in [(i, e) for i, e in enumerate(log) if e[0] == "nextPendingConnection"]:
                s = next((t for c, x in st.heap.items() if c == ("fl", THIS, cl) for t in subterms(x) if t[0] == "fresh" and t[1].endswith("nextPendingConnection")), None)
                nul = [a for a, b in st.facts.items() if a[0] == "eq" and a[1] == NULL and b and a[2][0] == "fresh" and a[2][1].endswith("nextPendingConnection")]
                ctx.require(s is not None or nul, "accepted monitors are listed", "M01:list", w, "a new monitor connection is not added to the list of monitors", st)
                if s is None:
                    continue
                now = I.load(st, ("fl", THIS, cl))
                ctx.require(now == ("app", L0, s) or e[4], "accepted monitors are listed", "M01:list2", w, "after a new connection the list is %s" % show(now)[:60], st)
                sg = sorted(sig_name(x[2][1]) or "?" for x in log if x[0] == "connect" and x[2][0] == s)
                ctx.require("disconnected" in sg and "readyRead" in sg and len(set(sg)) == len(sg), "accepted monitors are served", "M01:connect", w, "the signals connected for a new monitor are %s" % sg, st)
                for x in log:
                    if x[0] == "connect" and x[2][0] == s:
                        for f, caps, th in lamtargets(p, x):
                            hooks.setdefault(sig_name(x[2][1]), []).append((f, caps, s))
    SND = ("call", "QObject::sender", THIS, ())
    for sgn in ("readyRead", "disconnected"):
        if not hooks.get(sgn):
            raise AnalysisError("no handler of %s for monitor connections" % sgn)
    # ---- request
    for fn, caps, sock in hooks["readyRead"]:
        own = [SND]
        if caps is not None:
            caps = tuple((a, ("p", 90, "socket", "QIODevice *") if b == sock else b) for a, b in caps)
            own.append(("p", 90, "socket", "QIODevice *"))
        res, I = ctx.run(fn, MonSrv(p), caps=caps)
        w = fnwhere(fn)
        for st, v in res:
            log = st.ghost.get("log", ())
            wr = [e for e in log if e[0] in ("write", "sendTextMessage")]
            cs = [e for e in log if e[0] in ("close", "abort", "disconnectFromServer")]
            oth = [e for e in log if e[0] not in ("write", "close", "abort", "disconnectFromServer", "readAll", "read", "readLine", "buildMonitorData", "deleteLater")]
            ctx.require(not oth, "monitors only observe", "M01:effect:%s" % (oth[0][0] if oth else ""), w, "a monitor request causes %s" % (oth[0][3] if oth else ""), st)
            for c in st.heap:
                if c[0] == "fl" and c[1] == THIS and c[2] == cl:
                    ctx.bad("M01:request-list", w, "a monitor request changes the list of monitors", st)
            for e in wr + cs:
                ctx.require(uncast(e[1]) in own, "only the requester is answered or closed", "M01:other", w, "%s() is called on another connection: %s" % (e[0], show(e[1])[:60]), st)
            idle = not wr and not cs and any(a[0] == "eq" and NULL in a[1:] and b for a, b in st.facts.items()) or \
                any(a[0] == "call" and a[1].endswith("canReadLine") and not b for a, b in st.facts.items())
            ctx.require(len(wr) + min(len(cs), 1) == 1 or idle, "every request is answered once or refused", "M01:answer", w, "a request is answered %d times%s" % (len(wr), " and the connection is closed" if cs else ""), st)
            meth = [b for a, b in st.facts.items() if a[0] == "eq" and C("refresh") in a[1:] and any(t[0] == "get" and t[2] == C("method") for t in subterms(a))]
            perr = [b for a, b in st.facts.items() if a[0] == "eq" and C(0) in a[1:] and any(isinstance(t, tuple) and t[0] == "f" and str(t[2]).endswith("error") for t in subterms(a))]
            isnull = [not b for a, b in st.facts.items() if a[0] == "call" and a[1] in ("QJsonDocument::isNull", "QJsonDocument::isEmpty")]
            parsed = (perr or isnull or [None])[-1]
            if wr:
                ctx.require(meth == [True], "only refresh requests are answered", "M01:method", w, "a request which is not a refresh request is answered", st)
                val, comp, term = message(wr[0][2][0])
                ctx.require(val is not None and comp and term, "answers are one line of compact JSON", "M01:format", w, "the answer is not compact JSON followed by a newline: %s" % show(wr[0][2][0])[:80], st)
                ok = val is not None and val[0] in ("call", "fresh") and val[1] == ENG + "::buildMonitorData"
                ctx.require(ok, "the answer is the current monitor data", "M01:data", w, "the answer is %s" % show(val or VOID)[:60], st)
                bd = [e for e in log if e[0] == "buildMonitorData"]
                if ok and bd:
                    a = bd[-1][2][0]
                    g = [t for t in subterms(a) if t[0] == "get"]
                    key = {t[2] for t in g}
                    absent = [b for a2, b in st.facts.items() if a2[0] == "has" and a2[2] in (C("printAll"), C("params")) and not b]
                    def isval(t):
                        while t[0] == "call" and t[1].startswith("QVariant::to") and t[2] is not None:
                            t = t[2]
                        return t[0] == "get" and t[2] == C("printAll")
                    ctx.require(isval(a) or a == FALSE and absent or is_c(a) and any(isval(f) and y == a[1] for f, y in st.facts.items()), "printAll follows the request", "M01:printall", w, "printAll is %s" % show(a)[:60], st)
            elif cs:
                good = meth == [True] and parsed is not False
                ctx.require(not good, "refresh requests are answered", "M01:refused", w, "a valid refresh request is not answered but the connection closed", st)
    # ---- disconnect
    for fn, caps, sock in hooks["disconnected"]:
        own = [SND]
        if caps is not None:
            caps = tuple((a, ("p", 90, "socket", "QIODevice *") if b == sock else b) for a, b in caps)
            own.append(("p", 90, "socket", "QIODevice *"))
        res, I = ctx.run(fn, MonSrv(p), caps=caps)
        w = fnwhere(fn)
        for st, v in res:
            log = st.ghost.get("log", ())
            if any(a[0] == "eq" and a[1] == NULL and b and uncast(a[2]) in own for a, b in st.facts.items()):
                continue
            now = I.load(st, ("fl", THIS, cl))
            gone = now[0] == "rem" and now[1] == L0 and uncast(now[2]) in own or any(I.decide(("has", L0, o), st) is False for o in own)
            ctx.require(gone, "a disconnected monitor is removed", "M01:remove", w, "after the disconnect the list of monitors is %s" % show(now)[:60], st)
            d = [e for e in log if e[0] in ("deleteLater", "delete")]
            ctx.require(len(d) == 1 and uncast(d[0][1]) in own and d[0][0] == "deleteLater", "a disconnected monitor is released once", "M01:release", w,
                        "a disconnected monitor is %s" % ("not released" if not d else "released wrongly"), st)
    # ---- stop closes every monitor
    fn = p.fn(MON + "::stopServer")
    res, I = ctx.run(fn, MonSrv(p))
    w = fnwhere(fn)
    for st, v in res:
        if is_null(I, st, ("f", THIS, srv)) is True:
            continue
        log = st.ghost.get("log", ())
        empty = I.decide(I.mk_eq(C(0), ("count", L0)), st)
        ctx.require(empty is True or any(isinstance(g, tuple) and g[0] == "forall" and g[1] == L0 and g[2] == "close" for g in st.ghost), "stopping closes every monitor", "M01:stop", w, "stopServer() leaves a monitor connected", st)
        ctx.require(I.load(st, ("fl", THIS, srv)) == NULL and len([e for e in log if e[0] in ("delete", "deleteLater") and e[1] == ("f", THIS, srv)]) == 1, "stopping removes the monitor server", "M01:stop-server", w,
                    "stopServer() does not remove the server", st)
    for k, n in (("accepted monitors are served", 1), ("only the requester is answered or closed", 3), ("the answer is the current monitor data", 1), ("a disconnected monitor is removed", 1), ("stopping closes every monitor", 1)):
        ctx.need(n, k)


# ============================================================================ M02
def rows_of(st_in, x, lid):
    """elements appended, and (key, value) pairs inserted, to a loop carried container in this iteration"""
    a, b = cells(st_in), cells(x)
    apps, ins = [], []
    for c, v in b.items():
        if v[0] in ("app", "ins"):
            t = v
            es, kv = [], []
            while t[0] in ("app", "ins") and t != a.get(c):
                if t[0] == "app":
                    es.insert(0, t[2])
                else:
                    kv.insert(0, (t[2], t[3]))
                t = t[1]
            if t == a.get(c) and (es or kv):
                apps += [(c, e) for e in es]
                ins += [(c, k, q) for k, q in kv]
    return apps, ins


class Stat(Monitor):
    def __init__(self, opaque=()):
        self.opaque = frozenset(opaque)
        self.iters = []

    def loop_iter(self, interp, loop, st_in, outs):
        lid, Rt, fr, it = loop
        self.iters.append((lid, Rt, st_in.copy(), [(k, x.copy()) for k, x, v in outs], fr))


from rules_limits import cells, lin, ladd    # noqa: E402


def check_M02(ctx):
    p = ctx.p
    R = Roles(p)
    fn = p.fn(TPS + "::currentStatistics")
    w = fnwhere(fn)
    m = Stat()
    res, I = ctx.run(fn, m)
    PA = params_of(fn)[0]
    TC = R.TC
    rxf, txf, tsf = p.field(TC, "m_rxDataCount"), p.field(TC, "m_txDataCount"), p.field(TC, "m_creationTimeStamp")
    trf = p.field(TPS, "m_transportInterfaces", r"TransportInterface \*>")
    tput, tcnt = p.field(TPS, "m_troughput"), p.field(TPS, "m_troughputCounter")
    snf = p.field(R.TI, "m_serverName", r"QString")
    for fld in (rxf, txf):
        ft = p.fields[fld]["t"]
        ctx.require(re.search(r"long|64|double|size", ft) is not None, "counters and times keep their value", "M02:%s:type" % fld.rsplit("::", 1)[-1], "%s:%s" % (p.classes[TC].get("file", "?"), p.fields[fld].get("l", "?")),
                    "the byte counter %s has the type %s and overflows after 2 GB" % (fld, ft))
    SCT = ("f", THIS, R.sctab)
    TRN = ("f", THIS, trf)
    done = {}

    def strip(t):
        while t[0] == "values":
            t = t[1]
        return t

    def row_ok(row, E, tcfield, uuidkey, what, where, st):
        T = ("f", E, tcfield)
        want = {"id": ("f", T, R.cid), "address": ("f", T, R.peer), "timestamp": ("f", T, tsf), "name": ("f", T, R.tname), uuidkey: ("f", T, R.uuid), "rxDataCount": ("f", T, rxf), "txDataCount": ("f", T, txf)}
        d = mapitems(row)
        if d is None:
            raise AnalysisError("%s row of the statistics not understood: %s" % (what, show(row)[:100]))
        for k, t in want.items():
            got = d.get(k)
            g = unconv(got) if got is not None else None
            alt = ("f", E, R.sc_uuid if tcfield == R.sc_tc else R.cc_uuid)
            if k in ("rxDataCount", "txDataCount", "timestamp"):
                ctx.require(got is None or not any(x[0] == "icast" and x[2] < 64 for x in subterms(got)), "counters and times keep their value", "M02:%s:%s:narrow" % (what, k), where,
                            "%s of a %s row is cut to a smaller type: %s" % (k, what, show(got)[:80] if got is not None else ""), st)
            ctx.require(g == t or (k == uuidkey and g == alt), "%s rows show the own connection" % what, "M02:%s:%s" % (what, k), where,
                        "%s of a %s row is %s" % (k, what, show(got)[:80] if got is not None else "missing"), st)
        return d
    inner = {}
    for lid, Rt, st, outs, fr in m.iters:
        if Rt is None:
            continue
        S = strip(Rt)
        where = "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"])
        if S[0] == "f" and S[2] == R.sc_clients:
            for k, x in outs:
                apps, ins = rows_of(st, x, lid)
                if not ctx.require(k in ("n", "k") and len(apps) == 1, "every client has one row", "M02:client:row", where, "a client of a server is listed %d times" % len(apps), x):
                    continue
                c, row = apps[0]
                e = [t for t in subterms(row) if t[0] == "elem" and t[2] == lid]
                if not e:
                    raise AnalysisError("client row without its client: %s" % show(row)[:100])
                row_ok(row, e[0], R.cc_tc, "clientUuid", "client", where, x)
                inner[lid] = (S, c)
    for lid, Rt, st, outs, fr in m.iters:
        if Rt is None:
            continue
        S = strip(Rt)
        where = "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"])
        if S == SCT:
            for k, x in outs:
                apps, ins = rows_of(st, x, lid)
                es = [t for c, r in apps for t in subterms(r) if t[0] == "elem" and t[2] == lid]
                if not apps:
                    cnt0 = [b for a, b in x.facts.items() if a[0] == "eq" and C(0) in a[1:] and any(t[0] == "f" and t[2] == R.sc_clients and t[1][0] == "elem" for t in subterms(a))]
                    ctx.require(k in ("n", "k") and truth(I, x, PA) is False and cnt0 == [True], "every server has one row", "M02:server:skipped", where, "a server is left out although %s" % (
                        "all servers are requested" if truth(I, x, PA) is not False else "it has clients"), x)
                    continue
                if not ctx.require(k in ("n", "k") and len(apps) == 1, "every server has one row", "M02:server:row", where, "a server is listed %d times" % len(apps), x):
                    continue
                c, row = apps[0]
                if not es:
                    raise AnalysisError("server row without its connection: %s" % show(row)[:100])
                E = es[0]
                d = row_ok(row, E, R.sc_tc, "serverUuid", "server", where, x)
                q = d.get("clientConnections", VOID)
                while q[0] == "ctorobj" and len(q[2]) == 1:
                    q = q[2][0]
                cl0 = ("f", E, R.sc_clients)
                empty = I.decide(I.mk_eq(C(0), ("count", cl0)), x) is True
                good = q[0] == "phi" and q[1] in inner and inner[q[1]][0] == cl0 and inner[q[1]][1] == q[2] or q == EMPTY and empty
                ctx.require(good, "a server row lists its clients", "M02:server:clients", where, "clientConnections of a server row is %s" % show(q)[:60], x)
                done[("s", lid)] = c
        elif S == TRN:
            for k, x in outs:
                apps, ins = rows_of(st, x, lid)
                if not ctx.require(k in ("n", "k") and len(ins) == 1, "every transport is counted", "M02:transport:row", where, "a transport is listed %d times" % len(ins), x):
                    continue
                c, key, val = ins[0]
                e = [t for t in subterms(key) if t[0] == "elem" and t[2] == lid]
                v = unconv(val)
                good = e and unconv(key) == ("f", e[0], snf) and v[0] in ("call", "vcall", "fresh") and v[1].rsplit("::", 1)[-1] == "connectionsCount" and contains_term(("x",) + tuple(z for z in v if isinstance(z, tuple)), e[0])
                ctx.require(good, "every transport is counted", "M02:transport:value", where, "the transports contain %s: %s" % (show(key)[:40], show(val)[:60]), x)
                done[("t", lid)] = c
    for st, v in res:
        d = mapitems(v)
        if d is None:
            raise AnalysisError("statistics not understood: %s" % show(v)[:100])
        for k, t in (("totalClientCount", ("count", ("f", THIS, R.proxyClients))), ("serverConnectionsCount", ("count", SCT)), ("clientConnectionsCount", ("count", ("f", THIS, R.cctab))), ("troughput", ("f", THIS, tput))):
            ctx.require(unconv(d.get(k, VOID)) == t, "the totals are those of the tables", "M02:total:" + k, w, "%s is %s" % (k, show(d[k])[:60] if k in d else "missing"), st)
        for k, tag, T in (("transports", "t", TRN), ("tunnelConnections", "s", SCT)):
            q = d.get(k, VOID)
            empty = I.decide(I.mk_eq(C(0), ("count", T)), st) is True
            good = q[0] == "phi" and done.get((tag, q[1])) == q[2] or q == EMPTY and empty
            ctx.require(good, "the lists are complete", "M02:list:" + k, w, "%s is %s" % (k, show(q)[:60] if k in d else "missing"), st)
    # ---- transports count their connections
    from rules_transport import transports
    for K in transports(ctx):
        f = p.fn(K + "::connectionsCount")
        tabs = [x["n"] for x in p.classes[K]["fields"] if x["t"].startswith("QHash<QUuid")]
        for st, v in ctx.run(f, Stat())[0]:
            ctx.require(unconv(v) in [("count", ("f", THIS, t)) for t in tabs], "transports count their connections", "M02:count:" + K, fnwhere(f), "%s reports %s connections" % (K, show(v)[:60]), st)
    # ---- traffic counters
    def cut(t, f):
        return any(x[0] == "icast" and x[2] < 64 and any(y[0] == "f" and y[2] == f for y in subterms(x[1])) for x in subterms(t))
    fs = p.fn(TC + "::sendData")
    D = params_of(fs)[0]

    class Snd(Monitor):
        def event(self, st, ev):
            if R.is_send(ev):
                st.ghost["n"] = st.ghost.get("n", 0) + 1
    res, I = ctx.run(fs, Snd())
    for st, v in res:
        d = ladd(lin(I.load(st, ("fl", THIS, txf))), lin(("f", THIS, txf)), -1)
        n = st.ghost.get("n", 0)
        ctx.require(not cut(I.load(st, ("fl", THIS, txf)), txf), "counters and times keep their value", "M02:tx:narrow", fnwhere(fs), "the sent byte counter is cut to a smaller type", st)
        ctx.require(d == ({("count", D): 1}, 0) if n else d == ({}, 0), "sent bytes are counted", "M02:tx", fnwhere(fs), "after sending a chunk the sent byte counter changed by %s" % lshow(d), st)
    fd = slot(ctx, "dataAvailable", TPS)
    cid, data = params_of(fd)
    m = Thru(R, p, tcnt, ctx, fnwhere(fd))
    res, I = ctx.run(fd, m)
    pc = R.pc(cid)
    for st, v in res:
        if is_null(I, st, pc) is True or I.decide(("f", pc, R.killed), st) is True or I.decide(("has", ("f", THIS, R.proxyClients), cid), st) is False:
            continue
        rx = I.load(st, I.ptr_loc(st, pc, rxf))
        d = ladd(lin(rx), lin(("f", pc, rxf)), -1)
        ctx.require(not cut(rx, rxf), "counters and times keep their value", "M02:rx:narrow", fnwhere(fd), "the received byte counter is cut to a smaller type", st)
        ctx.require(d == ({("count", data): 1}, 0) or I.decide(I.mk_eq(C(0), ("count", data)), st) is True and d == ({}, 0), "received bytes are counted", "M02:rx", fnwhere(fd),
                    "after receiving a chunk the received byte counter of the client changed by %s" % lshow(d), st)
        if not m.loops or not any(t[0] == "phi" and t[1] in m.loops for t in subterms(I.load(st, ("fl", THIS, tcnt)))):
            d = ladd(lin(I.load(st, ("fl", THIS, tcnt))), lin(("f", THIS, tcnt)), -1)
            sent = st.ghost.get("sent")
            if not sent and deadiface(R, st):
                continue
            ctx.require(d == (({("count", data): 1}, 0) if sent else ({}, 0)), "the throughput counts the tunneled bytes", "M02:throughput:client", fnwhere(fd), "forwarding a chunk changes the throughput by %s" % lshow(d), st)
    # ---- once per second
    ft = p.fn(TPS + "::tick")
    for st, v in ctx.run(ft, Stat())[0]:
        ctx.require(I.load(st, ("fl", THIS, tput)) == ("f", THIS, tcnt) and I.load(st, ("fl", THIS, tcnt)) == C(0), "the throughput is the traffic of the last period", "M02:tick", fnwhere(ft),
                    "a tick sets the throughput to %s and the counter to %s" % (show(I.load(st, ("fl", THIS, tput)))[:50], show(I.load(st, ("fl", THIS, tcnt)))[:50]), st)
    fo = p.fn(ENG + "::onTimerTick")
    acc, last = p.field(ENG, "m_currentTimeCounter"), p.field(ENG, "m_lastTimeStamp")
    tp = p.field(ENG, "m_tunnelProxyServer", r"TunnelProxyServer \*")
    res, I = ctx.run(fo, Life(engine_opaque(p)))
    for st, v in res:
        tk = [e for i, e in calls(st, "tick")]
        now = I.load(st, ("fl", THIS, acc))
        lt = I.load(st, ("fl", THIS, last))
        full = None
        want = ladd(ladd(lin(("f", THIS, acc)), lin(lt)), lin(("f", THIS, last)), -1)
        for a, b in st.facts.items():
            if a[0] == "lt" and a[2] == C(1000) and lin(a[1]) == want:
                full = not b
            if a[0] == "lt" and a[1] == C(999) and lin(a[2]) == want:
                full = b
        ctx.require(full is not None, "a period is one second", "M02:period", fnwhere(fo), "the statistics period does not depend on one second having passed", st)
        if full is None:
            continue
        has = is_null(I, st, ("f", THIS, tp)) is False
        ctx.require(len(tk) == (1 if full and has else 0) if full is False or has or is_null(I, st, ("f", THIS, tp)) is True else True, "one tick per period", "M02:once", fnwhere(fo), "%d ticks in a period" % len(tk), st)
        ctx.require(now == C(0) or lin(now) == ladd(want, ({}, -1000)) if full else lin(now) == want, "periods are measured", "M02:acc", fnwhere(fo), "the time counter becomes %s" % show(now)[:80], st)
        ctx.require(lt != ("f", THIS, last), "periods are measured", "M02:last", fnwhere(fo), "the time of the last timer tick is not remembered", st)
    fc = [f for f in bodies(p, ENG) if f["n"] == ENG + "::Engine"]
    tm = p.field(ENG, "m_timer", r"QTimer \*")
    for f in fc:
        res, I = ctx.run(f, Life(engine_opaque(p)))
        for st, v in res:
            T = I.load(st, ("fl", THIS, tm))
            cs = [e for i, e in calls(st, "connect") if e[2][0] == T and sig_name(e[2][1]) == "timeout"]
            ctx.require(len(cs) == 1 and any(g["n"] == ENG + "::onTimerTick" for g, a, b in lamtargets(p, cs[0])), "the timer drives the statistics", "M02:timer", fnwhere(f), "the timer of the engine is not connected to its tick", st)
    # ---- monitor data
    fb = p.fn(ENG + "::buildMonitorData")
    q = Life({TPS + "::currentStatistics"})
    res, I = ctx.run(fb, q)
    for st, v in res:
        d = mapitems(v) or {}
        s = d.get("tunnelProxyStatistic", VOID)
        ctx.require(s[0] in ("call", "fresh") and s[1] == TPS + "::currentStatistics" and (s[0] == "fresh" or s[2] == ("f", THIS, tp) and s[3] == (params_of(fb)[0],)), "the monitor data contains the statistics", "M02:data", fnwhere(fb),
                    "tunnelProxyStatistic is %s" % show(s)[:60], st)
        ctx.require(unconv(d.get("serverName", VOID)) == ("f", ("f", THIS, p.field(ENG, "m_configuration")), p.field(CFG, "m_serverName")), "the monitor data names the server", "M02:name", fnwhere(fb), "serverName is %s" % show(d.get("serverName", VOID))[:60], st)
    for k, n in (("client rows show the own connection", 7), ("server rows show the own connection", 7), ("every transport is counted", 1), ("the lists are complete", 4), ("sent bytes are counted", 1), ("received bytes are counted", 3),
                 ("the throughput counts the tunneled bytes", 3), ("one tick per period", 2), ("the timer drives the statistics", 1)):
        ctx.need(n, k)


def deadiface(R, st):
    """the path found that the transport of a connection does not exist any more"""
    return any(a[0] == "eq" and a[1] == NULL and b and a[2][0] == "f" and a[2][2] == R.iface for a, b in st.facts.items())


def lshow(d):
    return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, show(k)[:40]) for k, v in d[0].items()] + ([str(d[1])] if d[1] or not d[0] else []))


from rules_tunnel import Base, slot    # noqa: E402


class Thru(Base):
    """the change of the throughput counter per forwarded frame"""

    def __init__(self, R, p, tcnt, ctx, w):
        Base.__init__(self, R)
        self.tcnt, self.c, self.w = tcnt, ctx, w
        self.loops = set()

    def event(self, st, ev):
        if self.R.is_send(ev):
            st.ghost["isent" if ev.fr.loops else "sent"] = ev.args[1]

    def loop_iter(self, interp, loop, st_in, outs):
        lid, Rt, fr, it = loop
        cell = ("fl", THIS, self.tcnt)
        for k, x, v in outs:
            s = x.ghost.pop("isent", None)
            if Rt is None:
                if s is not None:
                    x.ghost["isent"] = s
                continue
            self.loops.add(lid)
            if s is None and deadiface(self.R, x):
                continue
            d = ladd(lin(interp.load(x, cell)), lin(interp.load(st_in, cell)), -1)
            if s is not None:
                sp = self.R.slip_payload(s, interp)
                s = sp[1] if sp else s
            want = ({("count", s): 1}, 0) if s is not None else ({}, 0)
            zero = s is not None and interp.decide(interp.mk_eq(C(0), ("count", s)), x) is True and d == ({}, 0)
            self.c.require(d == want or zero, "the throughput counts the tunneled bytes", "M02:throughput:frame", "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"]),
                           "%s changes the throughput by %s" % ("forwarding a frame" if s is not None else "a frame which is not forwarded", lshow(d)), x)


# ============================================================================ M03
MC, TW = "MonitorClient", "TerminalWindow"
NARROW = ("toInt", "toUInt", "toShort", "toUShort", "toBool", "toFloat")


class Tool(Monitor):
    """texts printed, messages sent, process exit and signal connections of the monitor tool"""

    def __init__(self, opaque=()):
        self.opaque = frozenset(opaque) | {TW, TW + "::TerminalWindow", TW + "::~TerminalWindow", "Utils::humanReadableTraffic", "Utils::getDurationString"}
        self.rows = []      # (loop id, iterated container, frame, texts printed in one iteration, state)
        self.ends = []      # (exit status, state) of process exits

    def event(self, st, ev):
        s = ev.short()
        k = None
        if ev.kind == "print":
            k, a = "print", ev.args
        elif ev.kind == "call" and s in ("mvwprintw", "wprintw", "printw", "mvprintw", "waddstr", "mvwaddstr"):
            k, a = "print", ev.args
        elif ev.kind == "exit":
            self.ends.append((ev.args[0] if ev.args else None, st.copy()))
            return
        elif ev.kind == "emit":
            k, a = "emit." + s, ev.args
        elif ev.kind == "call" and s in ("write", "connect", "start", "stop", "refresh", "setInterval", "setSingleShot"):
            k, a = s, ev.args
        if not k:
            return
        x = (k, ev.obj, a, ev.name, bool(ev.fr.loops), ev.where())
        if ev.fr.loops:
            if k == "print":
                st.ghost["row"] = st.ghost.get("row", ()) + (x,)
                return
            if x in st.ghost.get("log", ()):
                return
        st.ghost["log"] = st.ghost.get("log", ()) + (x,)

    def loop_iter(self, interp, loop, st_in, outs):
        lid, Rt, fr, it = loop
        old = st_in.ghost.get("row", ())
        for k, x, v in outs:
            new = x.ghost.get("row", ())[len(old):]
            self.rows.append((lid, Rt, fr, new, x.copy(), k))
            if old:
                x.ghost["row"] = old
            else:
                x.ghost.pop("row", None)


def under(t, key):
    """t is (a list or map conversion of) the value stored under key somewhere"""
    while t[0] in ("call",) and t[1].startswith("QVariant::to") and t[2] is not None:
        t = t[2]
    return t[0] == "get" and t[2] == C(key)


def argsteps(t):
    """(format, [arguments of each substitution]) of a QString::arg chain"""
    a = []
    while t[0] == "call" and t[1] in ("arg", "QString::arg"):
        if t[3]:
            # arg(text, text, ...) replaces all its place markers at once; a width, base or fill character is a constant
            a.insert(0, [t[3][0]] + [x for x in t[3][1:] if not (is_c(x) and not isinstance(x[1], str)) and x[0] not in ("neg", "ctorobj")])
        t = t[2]
    return (t[1] if is_c(t) and isinstance(t[1], str) else None), a


def argchain(t):
    """(format, [arguments]) of a QString::arg chain"""
    f, a = argsteps(t)
    return f, [x for s in a for x in s]


def injected(t, keys):
    """names of peers which are inserted into a text whose place markers are not all replaced yet"""
    r = []
    for s in subterms(t):
        if s[0] == "call" and s[1] in ("arg", "QString::arg"):
            f, a = argsteps(s)
            for step in a[:-1]:
                r += [g[2][1] for x in step for g in subterms(x) if g[0] == "get" and g[2] in [C(k) for k in keys]]
    return r


def labelled(t, label):
    """the arguments printed right after the label in text t"""
    r = []
    for s in subterms(t):
        if s[0] == "call" and s[1] in ("arg", "QString::arg"):
            f, a = argchain(s)
            if f is None:
                continue
            ids = sorted({int(x) for x in re.findall(r"%(\d\d?)", f)})
            m = re.search(label + r"\s*:?\s*%(\d\d?)", f)
            if m and len(a) == len(ids):
                r.append(a[ids.index(int(m.group(1)))])
    return r



def check_M03(ctx):
    p = ctx.p
    sock = p.field(MC, "m_socket", r"QLocalSocket \*")
    js, pa, bf = p.field(MC, "m_jsonMode"), p.field(MC, "m_printAll"), p.field(MC, "m_dataBuffer", r"QByteArray")
    SK = ("f", THIS, sock)
    # ---- reading
    rd = []
    for f in [f for f in bodies(p, MC) if f["n"] == MC + "::MonitorClient"]:
        res, I = ctx.run(f, Tool())
        for st, v in res:
            cs = [e for i, e in calls(st, "connect") if sig_name(e[2][1]) == "readyRead" and e[2][0] == I.load(st, ("fl", THIS, sock))]
            if ctx.require(len(cs) == 1, "data of the server is read", "M03:readyRead", fnwhere(f), "readyRead of the socket is connected %d times" % len(cs), st):
                rd += [g for g, a, b in lamtargets(p, cs[0])]
    if not rd:
        raise AnalysisError("no handler for data of the monitored server")
    for fn in {f["f"]: f for f in rd}.values():
        splitter(ctx, "monitor", fn, bf, State(), MC + "::processData", "}\n", "M03")
    # ---- one message
    fn = p.fn(MC + "::processData")
    w = fnwhere(fn)
    D = params_of(fn)[0]
    m = Tool()
    res, I = ctx.run(fn, m)

    def parsed(st):
        r = [b for a, b in st.facts.items() if a[0] == "eq" and C(0) in a[1:] and any(isinstance(t, tuple) and t[0] == "f" and str(t[2]).endswith("error") for t in subterms(a))]
        r += [not b for a, b in st.facts.items() if a[0] == "call" and a[1] in ("QJsonDocument::isNull", "QJsonDocument::isEmpty")]
        return r[-1] if r else None

    def ofdata(t):
        return any(s[0] == "call" and s[1] == "QJsonDocument::fromJson" and s[3][0] == D for s in subterms(t)) and not any(
            s[0] == "call" and s[1].startswith("QString::") and s[1].endswith(("Latin1", "Local8Bit")) for s in subterms(t))
    for st, v in res:
        em = calls(st, "emit.dataReady")
        pr = calls(st, "print")
        if parsed(st) is False:
            ctx.require(not em and not pr, "invalid data is ignored", "M03:invalid", w, "data which is no JSON is passed on", st)
            continue
        ctx.require(truth(I, st, ("f", THIS, js)) is False, "JSON mode prints and ends", "M03:json-stays", w, "the monitor does not end after the data in JSON mode", st)
        ctx.require(len(em) == 1 and ofdata(em[0][1][2][0]) and not pr, "every message is passed on once", "M03:emit", w, "a message is passed on %d times" % len(em), st)
    for code, st in m.ends:
        pr = [e for i, e in calls(st, "print")]
        ctx.require(truth(I, st, ("f", THIS, js)) is True and parsed(st) is not False and any(ofdata(a) for e in pr for a in e[2]), "JSON mode prints and ends", "M03:json-print", w,
                    "the monitor ends without having printed the data as JSON", st)
        ctx.require(code == C(0), "JSON mode prints and ends", "M03:json-status", w, "the monitor ends with status %s after printing the data" % (show(code) if code else "?"), st)
    ctx.need(1, "JSON mode prints and ends")
    # ---- refresh
    fn = p.fn(MC + "::refresh")
    w = fnwhere(fn)
    res, I = ctx.run(fn, Tool())
    for st, v in res:
        wr = [e for i, e in calls(st, "write")]
        con = [b for a, b in st.facts.items() if a[0] == "eq" and any(t[0] == "call" and t[1].endswith("::state") and t[2] == SK for t in a[1:]) and C(3) in a[1:]]
        if not wr:
            ctx.require(con == [False], "the monitor requests the data", "M03:norequest", w, "no request is sent although the server is connected", st)
            continue
        ctx.require(len(wr) == 1 and wr[0][1] == SK, "the monitor requests the data", "M03:requests", w, "%d requests are sent" % len(wr), st)
        val, comp, term = message(wr[0][2][0])
        d = mapitems(val) if val is not None else None
        ctx.require(d is not None and comp and term and d.get("method") == C("refresh"), "a request is one line of compact JSON", "M03:format", w, "the request is %s" % show(wr[0][2][0])[:100], st)
        if d is None:
            continue
        al = truth(I, st, ("f", THIS, pa))
        q = mapitems(d["params"]).get("printAll") if "params" in d and mapitems(d["params"]) else None
        ctx.require(q is None and al is False or q is not None and (q == ("f", THIS, pa) or al is not None and q == C(al)), "all servers are requested when wanted", "M03:all", w,
                    "printAll of the request is %s" % (show(q) if q else "missing"), st)
    # ---- presentation
    views = []
    for f in [f for f in bodies(p, "NonInteractiveMonitor") if any(n.get("k") == "call" and n.get("n") == MC + "::refresh" for n in walk(f["body"]))]:
        res, I = ctx.run(f, Tool({MC + "::refresh"}))
        for st, v in res:
            cs = [(i, e) for i, e in calls(st, "connect") if sig_name(e[2][1]) == "dataReady"]
            rf = calls(st, "refresh")
            ctx.require(len(cs) == 1 and len(rf) == 1, "the data is requested and shown", "M03:plain", fnwhere(f), "the data is connected %d times and requested %d times" % (len(cs), len(rf)), st)
            for i, e in cs:
                views += lamtargets(p, e)
    mt = p.field("Monitor", "m_timer", r"QTimer")
    mcl = p.field("Monitor", "m_monitorClient", r"MonitorClient \*")
    shown = []
    for f in bodies(p, "Monitor"):
        if not any(n.get("k") == "call" and n.get("n") == "QTimer::start" for n in walk(f["body"])):
            continue
        res, I = ctx.run(f, Tool({MC + "::refresh"}))
        for st, v in res:
            ts = [e for i, e in calls(st, "start") if e[3].startswith("QTimer")]
            ctx.require(len(ts) == 1, "the window is kept up to date", "M03:window-timer", fnwhere(f), "the refresh timer is started %d times" % len(ts), st)
            cs = [e for i, e in calls(st, "connect") if sig_name(e[2][1]) == "dataReady"]
            if truth(I, st, ("f", THIS, p.field("Monitor", "m_jsonMode"))) is True and not cs:
                continue
            ctx.require(len(cs) == 1 and cs[0][2][0] == ("f", THIS, mcl), "the window is kept up to date", "M03:window-data", fnwhere(f), "the data is connected to the window %d times" % len(cs), st)
            for e in cs:
                shown += lamtargets(p, e)
    for f in [f for f in bodies(p, "Monitor") if f["n"] == "Monitor::Monitor"]:
        res, I = ctx.run(f, Tool({MC, MC + "::MonitorClient", MC + "::refresh"}))
        for st, v in res:
            cs = [e for i, e in calls(st, "connect") if sig_name(e[2][1]) == "timeout"]
            ctx.require(len(cs) == 1 and any(g["n"] == MC + "::refresh" for g, a, b in lamtargets(p, cs[0])), "the window is kept up to date", "M03:window-refresh", fnwhere(f), "the refresh timer requests no data", st)
            ss = [e for i, e in calls(st, "setSingleShot")]
            ctx.require(not any(e[2][0] == TRUE for e in ss), "the window is kept up to date", "M03:window-once", fnwhere(f), "the data is requested only once", st)
    dm = p.field(TW, "m_dataMap", r"QVariantMap|QMap<QString, QVariant>")
    for fn, caps, th in shown:
        for st, v in ctx.run(fn, Tool())[0]:
            ctx.require(("fl", THIS, dm) in st.heap and st.heap[("fl", THIS, dm)] == params_of(fn)[0], "the window is kept up to date", "M03:window-store", fnwhere(fn), "the window does not keep the received data", st)
    if not shown or not views:
        raise AnalysisError("presentation of the monitor data not found")
    loopname = p.fn(TW + "::eventLoop")
    views.append((loopname, None, None))
    for fn, caps, th in views:
        m = Tool()
        res, I = ctx.run(fn, m, caps=caps)
        who = "window" if fn is loopname else "plain"
        src = ("f", THIS, dm) if fn is loopname else params_of(fn)[0]
        outer = set()
        for lid, Rt, fr, ps, x, k in m.rows:
            if Rt is None:
                continue
            kind = "server" if under(Rt, "tunnelConnections") else "client" if under(Rt, "clientConnections") else None
            if kind is None:
                continue
            where = "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"])
            outer.add(kind)
            if kind == "server":
                ctx.require(contains_term(Rt, src), "the rows show the received data", "M03:%s:source" % who, where, "the rows do not show the received data but %s" % show(Rt)[:60], x)
            else:
                es = [t for t in subterms(Rt) if t[0] == "elem" and under(t[1], "tunnelConnections")]
                ctx.require(bool(es), "the rows show the received data", "M03:%s:clients" % who, where, "the client rows are not those of the server: %s" % show(Rt)[:60], x)
            texts = [a for e in ps for a in e[2] if any(t[0] == "get" for t in subterms(a))]
            ctx.require(k in ("n", "k") and len(texts) >= 1, "every connection is shown", "M03:%s:%s:skipped" % (who, kind), where, "a %s connection is not shown" % kind, x)
            if not texts:
                continue
            seen = {}
            for t in texts:
                for g in subterms(t):
                    if g[0] == "get" and is_c(g[2]) and isinstance(g[2][1], str) and g[2][1] != ("tunnelConnections" if kind == "server" else "clientConnections"):
                        E = g[1]
                        while E[0] == "call" and E[1] == "QVariant::toMap":
                            E = E[2]
                        own = E[0] == "elem" and E[2] == lid or E[0] == "get" and E[2][0] == "idx" and E[2][2] == lid
                        if kind == "client" and g[2][1] in ("tunnelConnections",):
                            continue
                        if g[2][1] in ("tunnelProxyStatistic", "clientConnections", "tunnelConnections"):
                            continue
                        seen.setdefault(g[2][1], []).append(own)
                for q in subterms(t):
                    if q[0] in ("call",) and q[1].rsplit("::", 1)[-1] in NARROW and q[2] is not None and q[2][0] == "get" and q[2][2] in (C("rxDataCount"), C("txDataCount"), C("timestamp")):
                        ctx.bad("M03:%s:%s:narrow:%s" % (who, kind, q[2][2][1]), where, "%s is converted to a narrow type with %s" % (q[2][2][1], q[1]), x)
            for key in ("timestamp", "address", "rxDataCount", "txDataCount", "name"):
                ctx.require(seen.get(key) and all(seen[key]), "rows show the own connection", "M03:%s:%s:%s" % (who, kind, key), where,
                            "the row of a %s connection %s" % (kind, "shows the %s of another connection" % key if seen.get(key) else "lacks %s" % key), x)
            inj = [k2 for t in texts for k2 in injected(t, ("name", "userName"))]
            ctx.require(not inj, "a name is shown literally", "M03:%s:%s:marker" % (who, kind), where,
                        "the %s of a %s connection is inserted before other place markers are replaced: a name with %%1 in it changes the row" % ("".join(inj[:1]), kind), x)
            for lab, key in (("RX", "rxDataCount"), ("TX", "txDataCount")):
                as_ = [a for t in texts for a in labelled(t, lab)]
                ok = as_ and all(any(g[0] == "get" and g[2] == C(key) for g in subterms(a)) and not any(g[0] == "get" and g[2] in (C("rxDataCount"), C("txDataCount")) and g[2] != C(key) for g in subterms(a)) for a in as_)
                ctx.require(ok, "received and sent bytes are told apart", "M03:%s:%s:label:%s" % (who, kind, lab), where, "%s of a %s connection is %s" % (lab, kind, show(as_[0])[:60] if as_ else "missing"), x)
        if not ctx.require(outer == {"server", "client"}, "every connection is shown", "M03:%s:rows" % who, fnwhere(fn), "the connections are not shown completely: %s" % sorted(outer)):
            continue
    fh = p.fn("Utils::humanReadableTraffic")
    t = fh["params"][0]["t"]
    ctx.require(t in ("unsigned long long", "quint64", "unsigned long", "long long", "qint64", "qulonglong", "qlonglong", "double", "long double"), "traffic counters keep their value", "M03:traffic-type", fnwhere(fh), "traffic counters are cut to %s" % t)
    for k, n in (("a request ends at the first boundary", 1), ("an incomplete request is kept", 1), ("every message is passed on once", 1), ("the monitor requests the data", 2), ("rows show the own connection", 20),
                 ("received and sent bytes are told apart", 8), ("a name is shown literally", 4), ("the window is kept up to date", 4), ("traffic counters keep their value", 1)):
        ctx.need(n, k)


# ============================================================================ N01
BLOCKING = [
    (r"^(QAbstractSocket|QIODevice|QTcpSocket|QSslSocket|QLocalSocket|QUdpSocket|QTcpServer|QLocalServer|QProcess|QThread|QThreadPool|QFuture\w*|QNetwork\w*)::waitFor\w*$", "waits for a peer"),
    (r"^QLocalSocket::waitFor\w*$|^QWebSocket::waitFor\w*$", "waits for a peer"),
    (r"^QCoreApplication::(processEvents|sendPostedEvents)$|^QEventLoop::(exec|processEvents)$|^Q\w*Dialog::exec$", "runs a nested event loop: the handlers are entered again while their state is half updated"),
    (r"^QThread::(sleep|msleep|usleep|wait)$|^QTest::q(Wait|Sleep)\w*$|^(sleep|usleep|nanosleep|pause|select|poll|ppoll|epoll_wait|sigwait\w*|wait|waitpid|std::this_thread::sleep_(for|until))$", "sleeps"),
    (r"^QHostInfo::fromName$|^(getaddrinfo|gethostbyname|getnameinfo)$", "waits for the name service"),
    (r"^QProcess::execute$|^(system|popen)$", "waits for another process"),
    (r"^QSemaphore::(acquire)$|^QWaitCondition::wait$|^QDeadlineTimer\b", "waits for another thread"),
    (r"^QCoreApplication::exec$", "runs a nested event loop"),
]


def callsof(f):
    return [n for n in walk(f["body"]) if isinstance(n, dict) and n.get("k") == "call" and n.get("n")]


def check_N01(ctx):
    p = ctx.p
    n = c = 0
    mains = 0
    for fid, f in sorted(p.fns.items()):
        if not f.get("body") or not f["file"].startswith(("libnymea-remoteproxy/", "libnymea-remoteproxyclient/", "server/", "common/")):
            continue
        n += 1
        for e in callsof(f):
            if e.get("repo"):
                continue
            c += 1
            nm = e["n"]
            for rx, why in BLOCKING:
                if re.search(rx, nm):
                    if nm == "QCoreApplication::exec" and f["n"] == "main":
                        mains += 1
                        break
                    ctx.bad("N01:%s:%s" % (f["n"], nm), "%s:%s (%s)" % (f["file"], e.get("l", f["l"]), f["n"]), "%s(): %s. All connections of the server share one thread and stand still meanwhile" % (nm, why))
                    break
            else:
                ctx.ok("no call blocks")
        ctx.fns.add(f["f"])
    ctx.need(300, "no call blocks")
    if not mains:
        raise AnalysisError("main() of the server does not run the event loop")
    if n < 150:
        raise AnalysisError("only %d functions found" % n)


# ============================================================================ N02
SAFE = ("write", "read", "_exit", "_Exit", "abort", "__errno_location", "kill", "raise", "signal", "sigaction", "sigemptyset", "sigfillset", "sigaddset", "sigprocmask", "close", "send", "getpid",
        "memcpy", "memset", "strlen", "alarm", "sem_post", "fsync", "dup", "dup2", "waitpid", "wait", "time", "clock_gettime", "std::memcpy", "std::memset", "std::signal", "eventfd_write", "tcgetpgrp", "umask")


class Sig(Monitor):
    def __init__(self, opaque=()):
        self.opaque = frozenset(opaque)
        self.handlers = {}
        self.sigs = []
        self.acts = []

    def event(self, st, ev):
        s = ev.short()
        if ev.kind == "call" and s in ("signal", "sigaction", "bsd_signal", "sigset") and ev.args and (ev.obj is None or ev.obj == VOID):
            self.sigs.append((ev.args[0], ev.args[1] if len(ev.args) > 1 else None, ev.where()))
            if s == "sigaction":
                self.acts.append(st.copy())
            else:
                no = tuple(sorted({t[1] for a, b in st.facts.items() if not b and a[0] == "eq" and ev.args[0] in a[1:] for t in a[1:] if is_c(t) and isinstance(t[1], int)}))
                only = tuple(sorted({t[1] for a, b in st.facts.items() if b and a[0] == "eq" and ev.args[0] in a[1:] for t in a[1:] if is_c(t) and isinstance(t[1], int)}))
                st.ghost["sig"] = tuple(x for x in st.ghost.get("sig", ()) if x[0] != ev.args[0]) + ((ev.args[0], is_c(ev.args[1]), ev.where(), no, only),)
        k = None
        if ev.kind in ("call", "delete", "new") and s in ("destroy", "quit", "exit", "read", "connect", "write", "socketpair", "Engine", "pipe", "pipe2", "eventfd"):
            k = s if ev.kind == "call" else ev.kind
        if ev.kind == "delete":
            k = "delete"
        if k:
            x = (k, ev.obj, ev.args, ev.name, bool(ev.fr.loops), ev.where())
            if not (ev.fr.loops and x in st.ghost.get("log", ())):
                st.ghost["log"] = st.ghost.get("log", ()) + (x,)


def check_N02(ctx):
    p = ctx.p
    fs = [f for f in p.fns.values() if f.get("body") and f["file"].startswith(("server/", "libnymea-remoteproxy/", "common/")) and any(e["n"] in ("signal", "sigaction", "std::signal", "bsd_signal", "sigset") for e in callsof(f))]
    if not fs:
        raise AnalysisError("no signal handler is installed")
    hs, unknown = {}, []
    for f in fs:
        m = Sig()
        ctx.run(f, m)
        got = 0
        for sg, h, wh in m.sigs:
            if h is not None and h[0] == "lam":
                hs[h[1]] = p.fns[h[1]]
                got = 1
            elif h is not None and h[0] in ("fn", "addr") and h[1] in p.fns:
                hs[h[1]] = p.fns[h[1]]
                got = 1
            elif h is not None and is_c(h):
                got = 1
        for st in m.acts:
            for c, v in list(st.heap.items()) + list(st.env.items()):
                for t in (v,):
                    if t and t[0] in ("fn", "lam") and t[1] in p.fns:
                        hs[t[1]] = p.fns[t[1]]
                        got = 1
        if not got:
            unknown.append((f, [h for sg, h, wh in m.sigs]))
    for f, h in unknown:
        # a helper that is handed the handler is decided where it is called
        if not hs or not f["n"].startswith("lambda@") and not (h and all(x is not None and x[0] == "p" for x in h)):
            raise AnalysisError("the signal handlers installed in %s are not understood" % f["n"])
    if not hs:
        raise AnalysisError("no signal handler is installed")
    # ---- effects of the handlers
    for hid, h in hs.items():
        seen, todo = {}, [(h, (h["n"],))]
        while todo:
            f, path = todo.pop()
            if f["f"] in seen:
                continue
            seen[f["f"]] = path
            for n in walk(f["body"]):
                if not isinstance(n, dict):
                    continue
                k = n.get("k")
                wh = "%s:%s (%s)" % (f["file"], n.get("l", f["l"]), f["n"])
                if k == "call" and n.get("n"):
                    g = p.fns.get(n.get("f"))
                    if g is not None and g.get("body"):
                        todo.append((g, path + (g["n"],)))
                        continue
                    ctx.require(n["n"] in SAFE, "signal handlers only call async-signal-safe functions", "N02:%s" % n["n"], wh, "a signal handler calls %s(), which is not async-signal-safe (via %s)" % (n["n"], " -> ".join(path)))
                elif k in ("new", "delete", "log", "throw") or k == "ctor" and str(n.get("cls", "")).startswith(("Q", "std::")):
                    ctx.bad("N02:%s" % k, wh, "a signal handler %s (via %s)" % ({"new": "allocates memory", "delete": "frees memory", "log": "writes to the log", "throw": "throws", "ctor": "creates a %s" % n.get("cls")}[k], " -> ".join(path)))
        m = Sig()
        for st, v in ctx.run(h, m)[0]:
            ctx.require(len(calls(st, "write", "quit", "_exit")) >= 1, "a signal reaches the event loop", "N02:lost", fnwhere(h), "a signal has no effect", st)
    # ---- installation
    A = "RemoteProxyServerApplication"
    slots = {}
    for f in [f for f in bodies(p, A) if f["n"] == A + "::" + A]:
        m = Sig()
        res, I = ctx.run(f, m)
        nums = set()

        def numbers(sg):
            r = set()
            for t in subterms(sg):
                if is_c(t) and isinstance(t[1], int) and not isinstance(t[1], bool):
                    r.add(t[1])
                if t[0] == "lst":
                    r |= {x[1] for x in t[1] if is_c(x)}
            return r
        for sg, h, wh in m.sigs:
            if h is None or is_c(h):
                continue
            nums |= numbers(sg)
        for st, v in res:
            for sg, const, wh, no, only in st.ghost.get("sig", ()):
                ctx.require(not const or not (numbers(sg) - set(no)) & (set(only) or numbers(sg)) & {2, 15}, "SIGINT and SIGTERM end the server cleanly", "N02:ignored", wh, "a signal which ends the server is left without its handler on a path", st)
        blind = any(not numbers(sg) and not (sg[0] == "elem" and sg[1] in (EMPTY, ("ctorobj", "std::vector", ()))) for sg, h, wh in m.sigs if h is not None and not is_c(h))
        loose = blind or any(not is_c(sg) and sg[0] != "elem" for sg, h, wh in m.sigs if h is not None and not is_c(h))
        ctx.require({2, 15} <= nums or blind, "SIGINT and SIGTERM end the server cleanly", "N02:signals", fnwhere(f), "signals handled: %s" % sorted(nums))
        for st, v in res:
            for i, e in calls(st, "connect"):
                for g, a, b in lamtargets(p, e):
                    slots[g["f"]] = g
            if not m.acts and calls(st, "connect"):
                got = set()
                for sg, const, wh, no, only in st.ghost.get("sig", ()):
                    if not const:
                        got |= (numbers(sg) - set(no)) & (set(only) or numbers(sg))
                ctx.require({2, 15} <= got or loose, "SIGINT and SIGTERM end the server cleanly", "N02:path", fnwhere(f), "on a path the handlers are only installed for the signals %s" % sorted(got), st)
            fail = any(a[0] == "eq" and not b and any(t[0] == "call" and t[1] in ("socketpair", "pipe", "pipe2") for t in a[1:] if isinstance(t, tuple)) for a, b in st.facts.items())
            ctx.require(calls(st, "connect") or fail, "a signal reaches the event loop", "N02:notifier", fnwhere(f), "nothing in the event loop listens for signals", st)
    if not slots:
        raise AnalysisError("no slot of the application is woken up by signals")
    for f in slots.values():
        m = Sig(set(engine_opaque(p)) | {ENG + "::instance", ENG + "::destroy"})
        res, I = ctx.run(f, m)
        for st, v in res:
            rd = any(a[0] == "eq" and not b and any(t[0] == "call" and t[1] == "read" for t in a[1:] if isinstance(t, tuple)) or a[0] == "lt" and any(t[0] == "call" and t[1] == "read" for t in a[1:] if isinstance(t, tuple)) and (b if a[1][0] == "call" else not b)
                     for a, b in st.facts.items())
            qs = [e for i, e in calls(st, "quit", "exit")]
            ds = [i for i, e in calls(st, "destroy", "delete")]
            if not qs and rd:
                continue
            ctx.require(len(qs) >= 1, "SIGINT and SIGTERM end the server cleanly", "N02:quit", fnwhere(f), "the server keeps running after the signal", st)
            ctx.require(len(ds) >= 1, "SIGINT and SIGTERM end the server cleanly", "N02:destroy", fnwhere(f), "the engine is not destroyed before the server ends", st)
    for k, n in (("signal handlers only call async-signal-safe functions", 1), ("a signal reaches the event loop", 2), ("SIGINT and SIGTERM end the server cleanly", 3)):
        ctx.need(n, k)


# ============================================================================ N04: nothing is used that is not there
class PartialMon(Monitor):
    """every dereference of the result of a lookup, or of a link that is dropped at run time, and every access to an element of a sequence"""

    def __init__(self, ctx, opaque, links, collect=None):
        self.ctx, self.opaque, self.links, self.collect = ctx, frozenset(opaque), links, collect
        self.own = ()

    def write(self, st, loc, val, fr, node):
        if self.collect is not None and val == NULL and loc[0] == "fl" and loc[1][0] != "new" and not is_ctor(fr.fn):
            self.collect.setdefault(loc[2], fr.fn["n"])

    def where(self, e, fr):
        return "%s:%s (%s)" % (fr.fn["file"], e.get("l"), fr.fn["n"])

    def deref(self, st, v, e, fr, I):
        if self.collect is not None:
            return
        t = v
        while t[0] == "cast":
            t = t[2]
        if t == NULL:
            self.ctx.bad("N04:null:%s" % fr.fn["n"], self.where(e, fr), "a null pointer is used", st)
            return
        if t[0] == "get":
            self.ctx.require(is_null(I, st, t) is False, "looked up object tested before use", "N04:lookup:%s" % fr.fn["n"], self.where(e, fr),
                             "the result of the lookup %s is used although nothing may have been found" % show(t)[:120], st)
        elif t[0] == "f" and t[2] in self.links and not (t[1] == ("this",) and t[2] in self.own):
            self.ctx.require(is_null(I, st, t) is False, "link tested before use", "N04:link:%s:%s" % (fr.fn["n"], t[2].rsplit("::", 1)[-1]), self.where(e, fr),
                             "%s is used although it may have been dropped (in %s)" % (show(t)[:120], self.links[t[2]]), st)

    def seq(self, st, X, op, vals, e, fr, I):
        if self.collect is not None:
            return
        i = vals[0] if vals else None
        what = "element exists when it is taken"
        if X[0] == "takeq" and i is None and fr.loops and fr.loops[-1] == X[2]:
            self.ctx.ok(what)       # the take of a loop that runs until the sequence is empty
            return
        if X[0] == "lst" and len(X[1]) > 0 and (i is None or is_c(i) and isinstance(i[1], int) and 0 <= i[1] < len(X[1])):
            self.ctx.ok(what)
            return
        if i is None or i == C(0):
            if X[0] == "call" and X[1].rsplit("::", 1)[-1] == "split":
                self.ctx.ok(what)       # QString::split() yields at least one part
                return
            if i is None and X[0] in ("p", "param", "arg") and fr.fn["n"].startswith("remoteproxy::JsonTypes::"):
                self.ctx.ok("element of a list template of the API description (a constant, I01)")
                return
            ok = I.decide(I.mk_eq(("count", X), C(0)), st) is False
        elif i[0] == "idx" and (i[1] == X or X[0] in ("keys", "values") and X[1] == i[1] or i[1][0] in ("keys", "values") and i[1][1] == X):
            ok = True       # the index of a loop over this sequence
        else:
            c = ("count", X)
            ok = I.decide(I.mk_lt(i, c), st) is True and not (i[0] == "op" and i[1] == "-")
            if i[0] == "op" and len(i) == 4 and i[2] == c and i[3] in (C(-1), C(1)) and i[1] == ("+" if i[3] == C(-1) else "-"):     # the last one
                return self.seq(st, X, op, [], e, fr, I)
            if not ok and is_c(i) and isinstance(i[1], int) and i[1] >= 0:
                ok = any(v and a[0] == "eq" and c in a and any(is_c(y) and isinstance(y[1], int) and y[1] > i[1] for y in a[1:]) for a, v in st.facts.items())
        if not ok:
            # the length as an other integer type is never larger than the length
            c, k = ("count", X), i or C(0)
            ok = any(a[0] == "lt" and (
                v and uncast(a[2]) == c and a[2] != c and (a[1] == k or is_c(k) and is_c(a[1]) and 0 <= k[1] <= a[1][1])
                or not v and uncast(a[1]) == c and is_c(a[2]) and is_c(k) and 0 <= k[1] < a[2][1]) for a, v in st.facts.items())
        self.ctx.require(ok, what, "N04:element:%s:%s" % (fr.fn["n"], op), self.where(e, fr),
                         "%s(%s) of %s, which may be too short" % (op, show(i)[:40] if i else "", show(X)[:100]), st)


def uncast(t):
    while t[0] in ("cast", "icast"):
        t = t[2] if t[0] == "cast" else t[1]
    return t


def is_ctor(f):
    c = f.get("cls")
    return bool(c) and f["n"].rsplit("::", 1)[-1].lstrip("~") == c.rsplit("::", 1)[-1]


def check_N04(ctx):
    from rules_json import callers_of
    p = ctx.p
    R = Roles(p)
    S, CL = "remoteproxy::", "remoteproxyclient::"
    opaque = set(R.CODEC) | {S + "JsonRpcServer::processDataPacket", S + "JsonRpcServer::formatAssertion", S + "Engine::instance", CL + "JsonRpcClient::processData",
                             S + "TunnelProxyServer::currentStatistics", CL + "JsonRpcClient::processDataPacket"} | \
        {f["n"] for f in p.fns.values() if f["n"].startswith((S + "JsonTypes::", S + "JsonHandler::"))}
    scope = [f for fid, f in sorted(p.fns.items()) if f.get("body") and f["file"].startswith(("libnymea-remoteproxy/", "libnymea-remoteproxyclient/", "common/", "server/"))
             and f["n"] != "main" and not f["n"].startswith(S + "Engine::")]
    slots = {c["slot"] for c in p.connections if c["slot"]}
    public = {m["f"] for k, c in p.classes.items() for m in c["methods"] if m["acc"] == 0}
    called = {}
    for f in p.fns.values():
        for part in [f.get("body")] + [i["e"] for i in f.get("inits", [])]:
            if part:
                for e in walk(part):
                    if isinstance(e, dict) and e.get("k") in ("call", "fn", "new", "ctor") and e.get("f") and e["f"] != f["f"]:
                        called.setdefault(e["f"], set()).add(f["f"])
    entries = []
    for f in scope:
        if f["f"].startswith("lambda@") or f["f"] in slots or f["n"] in opaque or f.get("virtual") or not called.get(f["f"]) or \
                f["file"].startswith("libnymea-remoteproxyclient/") and f["f"] in public:
            entries.append(f)
    overr = {m["f"] for c in p.classes.values() for m in c["methods"] if m.get("virt") or m.get("virtual") or m.get("ov")}
    entries += [f for f in scope if f["f"] in overr and f not in entries]
    links = {}
    skip = []
    for rnd in (0, 1):
        for f in entries:
            m = PartialMon(ctx, opaque - {f["n"]}, links, links if rnd == 0 else None)
            if rnd:
                # a slot of a signal of a linked object only runs while that object exists
                m.own = {x for x in links for c in p.connections if c["slot"] == f["f"] and any(isinstance(n, dict) and n.get("k") == "mem" and n.get("f") == x for n in walk(c["node"]["args"][0]))}
            try:
                ctx.run(f, m)
            except AnalysisError as e:
                skip.append("%s: %s" % (f["n"], str(e)[:80]))
        if rnd == 0:
            for x in [x for x in links if x.startswith((S + "Engine::", CL + "TunnelProxySocketServer::", CL + "TunnelProxyRemoteConnection::"))]:
                del links[x]        # E01, N03
    ctx.notes += ["not analysed on its own: " + s for s in skip[:20]]
    ctx.notes.append("links dropped at run time: %s" % ", ".join(sorted(links)))
    ctx.need(20, "looked up object tested before use")
    ctx.need(5, "element exists when it is taken")


# ============================================================================ I02: the handshake tells the truth
def listing(ctx, p, fn):
    """every method and notification with a description is listed by its handler, under its name, as it is described"""
    from rules_json import LoopFlags
    w = fnwhere(fn)
    H = "remoteproxy::JsonHandler"
    tabs = {"description": p.field(H, "m_descriptions"), "params": p.field(H, "m_params"), "returns": p.field(H, "m_returns")}
    notes = {m["n"].rsplit("::", 1)[-1] for c in p.classes.values() if H in c["allbases"] for m in c["methods"] if m["mode"] == "qt_signal" and m["n"].rsplit("::", 1)[-1][:1].isupper()}
    m = LoopFlags([H + "::name"])
    ctx.run(fn, m)
    typ = params_of(fn)[0]

    def nm(t):
        return any(x[0] == "call" and x[1] == "QMetaMethod::name" for x in subterms(t))
    for lid, Rt, st, outs in m.iters:
        for k, x, v in outs:
            if k not in ("n", "k"):
                continue
            new = [b for l, b in x.env.items() if isinstance(b, tuple) and b and b[0] == "ins" and st.env.get(l) != b and nm(b[2]) and any(y[0] == "call" and y[1].endswith("::name") and y[1] != "QMetaMethod::name" for y in subterms(b[2]))]
            kind = next((a[1][1] if is_c(a[1]) else None for a, y in x.facts.items() if y and a[0] == "eq" and is_c(a[1]) and a[2][0] == "call" and a[2][1].endswith("methodType")), None)
            if new:
                d = mapitems(new[-1][3])
                if d is None:
                    continue
                for key, tab in tabs.items():
                    if key in d:
                        ctx.require(d[key][0] == "get" and d[key][1] == ("f", THIS, tab) and nm(d[key][2]), "descriptions are listed as declared", "I02:listing:%s" % key, w,
                                    "the %s of a listed entry is %s" % (key, show(d[key])[:80]), x)
                    elif key != "returns" or kind == 0:
                        ctx.bad("I02:listing:%s" % key, w, "an entry is listed without its %s" % key, x)
                continue
            why = False
            for a, y in x.facts.items():
                if a[0] == "eq" and not y and any(q[0] == "call" and q[1].endswith("methodType") for q in subterms(a)) and (typ in a[1:] or contains_term(a, typ)):
                    why = True
                elif a[0] == "has" and not y and a[1][0] == "f" and a[1][2] in tabs.values() and (a[1][2] != tabs["returns"] or kind != 1):
                    why = True
                elif not y and a[0] == "call" and nm(a):
                    pats = [q[2][0][1] for q in subterms(a) if q[0] == "ctorobj" and q[1] == "QRegularExpression" and q[2] and is_c(q[2][0])]
                    try:
                        why = why or (all(re.search(pats[0], n) for n in notes) if pats else any(q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("isUpper", "isLower", "toUpper", "toLower", "category") for q in subterms(a)))
                    except re.error:
                        why = True
                elif nm(a) and a[0] not in ("eq", "has", "call"):
                    why = True
            kinds = {a[1][1]: y for a, y in x.facts.items() if a[0] == "eq" and is_c(a[1]) and a[2][0] == "call" and a[2][1].endswith("methodType")}
            if kinds.get(0) is False and kinds.get(1) is False:
                why = True
            ctx.require(why, "every described entry is listed", "I02:listing:skip", w, "a method or notification with a description is not listed", x)


def check_I02(ctx):
    from rules_client import CS, CC, JC, JR, Role2, run, reply_slots, eqfact, params_of
    from rules_tunnel import qv
    p = ctx.p
    S = "remoteproxy::"
    JHc = S + "JsonHandler::createReply"
    const = {"server": "SERVER_NAME", "version": "SERVER_VERSION", "apiVersion": "API_VERSION"}

    class Reply(Monitor):
        lists = set()
        opaque = frozenset([JHc, S + "JsonHandler::introspect", S + "JsonTypes::allTypes", S + "JsonRpcServer::introspect"])

        def event(self, st, ev):
            if ev.name == JHc and ev.kind in ("call", "enter"):
                st.ghost["reply"] = ev.args
                st.ghost["n"] = st.ghost.get("n", 0) + 1

        def loop_iter(self, I, loop, st_in, outs):
            lid, Rt, fr, it = loop
            if Rt is None:
                return
            X = Rt[1] if Rt[0] == "keys" else None
            if X is None or not (X[0] == "call" and X[1].endswith("::introspect")):
                return
            e = ("elem", Rt, lid)
            for kind, x, v in outs:
                # the entry of this iteration has been filed under its own name
                good = kind in ("n", "k") and any(isinstance(val, tuple) and val and val[0] == "ins" and val[2] == e and val[3] in (("get", X, e), ("elem", X, lid)) for val in x.env.values())
                self.ctx.require(good, "every described entry is listed", "I02:introspect:skip", "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"]),
                                 "an entry of the description is not listed under its name", x)

        def write(self, st, loc, val, fr, node):
            if fr.loops and loc[0] == "v" and val[0] in ("ins", "mut", "app", "cat"):
                for t in subterms(val):
                    if t[0] == "call" and isinstance(t[1], str) and t[1].endswith("::introspect"):
                        self.lists.add((loc, t))

    def answers(name):
        f = p.fn(name)
        res, I = ctx.run(f, Reply())
        for st, v in res:
            if ctx.require(st.ghost.get("n") == 1, "one answer", "I02:%s:once" % name, fnwhere(f), "%s creates %d answers" % (name, st.ghost.get("n", 0)), st):
                yield f, st, I, st.ghost["reply"][-1]

    # ---- server
    vals = {}
    sn = p.fn(S + "ProxyConfiguration::serverName")
    (s2, nf), = ctx.run(sn, Monitor())[0]
    for f, st, I, d in answers(S + "JsonRpcServer::Hello"):
        w = fnwhere(f)
        for k in const:
            v = I.get(d, C(k))
            ctx.require(is_c(v) and isinstance(v[1], str), "hello carries the %s" % k, "I02:hello:%s" % k, w, "hello answers %s with %s" % (k, show(v)[:80]), st)
            vals[k] = v
        v = I.get(d, C("name"))
        ctx.require(v[0] == "f" and v[2] == nf[2], "hello carries the configured name", "I02:hello:name", w, "hello answers name with %s" % show(v)[:80], st)
    with tempfile.TemporaryDirectory() as td:
        gen_version(td)
        macros = dict(re.findall(r'#define (\w+?)(?:_STRING)? "([^"]*)"', open(os.path.join(td, "version.h")).read()))
    for k, v in vals.items():
        if const[k] in macros:
            ctx.require(v == C(macros[const[k]]), "hello carries the %s of this build" % k, "I02:hello:const:%s" % k, S + "JsonRpcServer::Hello", "hello answers %s with %s instead of %s" % (k, show(v), macros[const[k]]))
    for f, st, I, d in answers(S + "TunnelProxyHandler::Ping"):
        v = I.get(d, C("timestamp"))
        ok = v[0] == "get" and v[2] == C("timestamp") and v[1][0] in ("p", "param", "arg")
        ctx.require(ok, "ping returns the timestamp", "I02:ping", fnwhere(f), "ping answers with %s" % show(v)[:80], st)
    for f, st, I, d in answers(S + "JsonRpcServer::Introspect"):
        w = fnwhere(f)
        t = I.get(d, C("types"))
        ctx.require(t[0] == "call" and t[1].endswith("JsonTypes::allTypes"), "introspect lists the types", "I02:introspect:types", w, "introspect answers types with %s" % show(t)[:80], st)
        lists = Reply.lists
        for k, mode in (("methods", 0), ("notifications", 1)):
            v = I.get(d, C(k))
            if v == EMPTY:
                ctx.ok("no handler")
                continue
            src = [x for loc, x in lists if contains_term(v, loc)] or [t for t in subterms(v) if t[0] == "call" and isinstance(t[1], str) and t[1].endswith("::introspect")]
            good = bool(src) and all(x[3][:1] == (C(mode),) and x[2] is not None and x[2][0] == "elem" for x in src)
            ctx.require(good, "introspect lists the %s of every handler" % k, "I02:introspect:%s" % k, w, "introspect answers %s with %s" % (k, show(v)[:100]), st)
    listing(ctx, p, p.fn(S + "JsonHandler::introspect"))
    # ---- client libraries: what the application is told
    for cls in (CS, CC):
        r = Role2(ctx, cls)
        res, I = run(ctx, r, r.changed)
        up = [(st, v) for st, v in res if truth(I, st, params_of(r.changed)[0]) is True]
        hs = reply_slots(ctx, r, r.changed, "callHello", up)
        if len(hs) != 1:
            raise AnalysisError("no handler of the hello answer in %s" % cls)
        fh = p.fns[next(iter(hs))]
        res, I = run(ctx, r, fh)
        for st, v in res:
            if eqfact(st, "success", "status") is not True:
                continue
            for g, k in (("remoteProxyServer", "server"), ("remoteProxyServerName", "name"), ("remoteProxyServerVersion", "version"), ("remoteProxyApiVersion", "apiVersion")):
                gf = p.fn(cls + "::" + g)
                for s3, fv in ctx.run(gf, Monitor())[0]:
                    if fv[0] != "f":
                        ctx.bad("I02:%s:%s" % (cls.rsplit("::", 1)[-1], g), fnwhere(gf), "%s returns %s" % (g, show(fv)[:60]), s3)
                        continue
                    v2 = I.load(st, ("fl", THIS, fv[2]))
                    x = qv(v2)
                    y = qv(x[1]) if x[0] == "get" and x[2] == C(k) else ("none",)
                    good = y[0] == "get" and y[2] == C("params")
                    ctx.require(good, "%s() is what the proxy answered" % g, "I02:%s:%s" % (cls.rsplit("::", 1)[-1], g), fnwhere(fh), "%s() becomes %s" % (g, show(v2)[:100]), st)
    ctx.need(2, "remoteProxyServer() is what the proxy answered")
    ctx.need(1, "ping returns the timestamp")
    ctx.need(1, "introspect lists the methods of every handler")
