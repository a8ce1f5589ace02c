"""Rules for the command line tools: the tunnel client and the monitor do what their options say (S04)."""
from framework import *
from rules_client import params_of, THIS
from rules_transport import sig_name, bodies
from rules_limits import lamtargets

CN = "remoteproxyclient::"
SRV, RC, SOCK = CN + "TunnelProxySocketServer", CN + "TunnelProxyRemoteConnection", CN + "TunnelProxySocket"
CLP = "QCommandLineParser"


class Options:
    """facts and terms about the command line, by option name"""

    def canon(self, t):
        """('isSet'|'value', name) of a query of the parser, None for anything else"""
        while t[0] in ("cast", "icast"):
            t = t[2] if t[0] == "cast" else t[1]
        if t[0] == "ctorobj" and t[1] in ("QUuid", "QUrl", "QString", "QStringView", "QAnyStringView", "QLatin1String") and len(t[2]) == 1:
            return self.canon(t[2][0])
        if t[0] == "call" and t[2] is None and t[1] in ("QUrl::fromUserInput", "QUuid::fromString", "QUrl::fromEncoded") and t[3]:
            return self.canon(t[3][0])
        if t[0] != "call" or t[1] not in (CLP + "::isSet", CLP + "::value") or not t[3]:
            return None
        return (t[1].rsplit("::", 1)[-1], t[3][0][1])

    def facts(self, st):
        r = {}
        for a, v in st.facts.items():
            neg = False
            if a[0] == "eq" and a[1] == C(0) and a[2][0] == "count":
                c = self.canon(a[2][1])
                if c:
                    r[("empty", c[1])] = v
            elif a[0] == "eq" and a[1] == EMPTY:
                c = self.canon(a[2])
                if c:
                    r[("empty", c[1])] = v
            elif a[0] == "call" and a[2] and a[1].rsplit("::", 1)[-1] in ("isNull", "isValid", "isEmpty"):
                c = self.canon(a[2])
                if c:
                    k = a[1].rsplit("::", 1)[-1]
                    r[({"isNull": "null", "isValid": "valid", "isEmpty": "empty"}[k], c[1])] = v
            else:
                c = self.canon(a)
                if c:
                    r[c] = v
        return r


class ToolMon(Monitor):
    MERGE = 4096  # what a main() knows about its options must survive its helpers
    KEEP = ("connectServer", "startServer", "exec", "ignoreSslErrors", "writeData", "sendData", "start", "connectToServer")

    def __init__(self, opaque=()):
        self.opaque = frozenset(opaque)
        self.ends = []

    def event(self, st, ev):
        s = ev.short()
        if ev.kind == "exit":
            self.ends.append((ev.args[0] if ev.args else None, st.copy()))
            return
        if ev.kind == "call" and (s in self.KEEP or s == "connect" and len(ev.args) >= 3) or ev.kind == "new":
            x = ("new" if ev.kind == "new" else s, ev.obj, ev.args, ev.name, False, ev.where())
            if x not in st.ghost.get("log", ()):
                st.ghost["log"] = st.ghost.get("log", ()) + (x,)


def log(st, *ks):
    return [e for e in st.ghost.get("log", ()) if e[0] in ks]


def mainof(p, d):
    ms = [f for f in p.fns.values() if f["n"] == "main" and f["file"].startswith(d + "/")]
    if len(ms) != 1:
        raise AnalysisError("main() of %s not found" % d)
    return ms[0]


def slots(ctx, st, obj, signal, mon):
    """the outcomes of everything connected to a signal of obj, run in the state of the path"""
    r = []
    n = 0
    for e in log(st, "connect"):
        if e[2][0] != obj or sig_name(e[2][1]) != signal:
            continue
        for f, caps, th in lamtargets(ctx.p, e):
            n += 1
            y = st.copy()
            y.ghost = {k: v for k, v in y.ghost.items() if k != "log"}
            res, I = ctx.run(f, mon(), this=th or e[2][2], caps=caps, st=y)
            r += [(f, x, I) for x, v in res]
    return n, r


def check_S04(ctx):
    tunnelclient(ctx)
    monitor(ctx)


def tunnelclient(ctx):
    p, O = ctx.p, Options()
    fn = mainof(p, "tunnelclient")
    w = fnwhere(fn)
    opq = frozenset(f["n"] for f in p.fns.values() if f.get("cls", "").startswith(CN))
    mon = lambda: ToolMon(opq)
    m = mon()
    res, I = ctx.run(fn, m)

    def opened(st):
        return [e for e in log(st, "startServer") if e[3] == SRV + "::startServer"], [e for e in log(st, "connectServer") if e[3] == RC + "::connectServer"]
    for code, st in m.ends:
        s, k = opened(st)
        ctx.require(not s and not k, "invalid options connect nowhere", "S04:exit-late", w, "the tool connects before it refuses its options", st)
        ctx.require(code is not None and is_c(code) and code[1] != 0, "invalid options are an error", "S04:exit", w, "the tool ends with status %s on invalid options" % (show(code) if code else "?"), st)
    for st, v in res:
        F = O.facts(st)
        s, k = opened(st)
        if not s and not k and not log(st, "exec"):
            ctx.require(is_c(v) and v != C(0), "invalid options are an error", "S04:return", w, "the tool ends with status %s without connecting" % show(v), st)
            continue
        if not ctx.require(len(s) + len(k) == 1, "one connection is made", "S04:one", w, "the tool starts %d servers and %d clients" % (len(s), len(k)), st):
            continue
        e = (s + k)[0]
        kind = "server" if s else "client"
        if s:
            ctx.require(F.get(("isSet", "client")) is False, "the mode is the one asked for", "S04:mode:server", w, "the tool becomes a server although a client connection may have been asked for", st)
        else:
            ctx.require(F.get(("isSet", "client")) is True and F.get(("isSet", "server")) is False, "the mode is the one asked for", "S04:mode:client", w,
                        "the tool becomes a client although a server connection may have been asked for", st)
        ctx.require(bool(log(st, "exec")), "the connection runs until the tool ends", "S04:exec", w, "the event loop is not entered", st)
        ctx.require(O.canon(e[2][0]) == ("value", "url") and F.get(("valid", "url")) is True, "the given url is used", "S04:url:" + kind, w,
                    "the tool connects to %s" % show(e[2][0])[:100], st)
        made = [x for x in log(st, "new") if x[1] == e[1]]
        if not made:
            raise AnalysisError("the %s connection of the tool is not created by it" % kind)
        a = made[0][2]
        u = O.canon(a[0])
        ctx.require(u == ("value", "uuid") and F.get(("null", "uuid")) is False or
                    a[0][0] in ("fresh", "call") and a[0][1] == "QUuid::createUuid" and (F.get(("null", "uuid")) is True or F.get(("isSet", "uuid")) is False),
                    "the given uuid is used, a missing one replaced", "S04:uuid:" + kind, w, "the tool registers with the uuid %s" % show(a[0])[:100], st)
        n = O.canon(a[1])
        # a name that is not given is the empty string
        ctx.require(n == ("value", "name") and F.get(("empty", "name")) is False or
                    is_c(a[1]) and isinstance(a[1][1], str) and a[1][1] and (F.get(("empty", "name")) is True or F.get(("isSet", "name")) is False),
                    "the given name is used, a missing one replaced", "S04:name:" + kind, w, "the tool registers with the name %s" % show(a[1])[:100], st)
        if k:
            ctx.require(O.canon(e[2][1]) == ("value", "server-uuid") and F.get(("null", "server-uuid")) is False, "a client connects to the given server", "S04:server", w,
                        "the tool connects to the server %s" % show(e[2][1])[:100], st)
        # certificate errors
        cnt, out = slots(ctx, st, e[1], "sslErrors", mon)
        for f, x, I2 in out:
            ign = [c for c in log(x, "ignoreSslErrors")]
            ok = O.facts(x).get(("isSet", "ignore-ssl"))
            q = params_of(f)
            ctx.require(not ign or ok is True, "certificate errors are only ignored if asked for", "S04:insecure:" + kind, fnwhere(f), "certificate errors are ignored although it was not asked for", x)
            ctx.require(ok is not True or len(ign) == 1 and ign[0][1] == e[1] and (not ign[0][2] or ign[0][2][0] in q), "certificate errors are ignored if asked for",
                        "S04:ignore:" + kind, fnwhere(f), "certificate errors are not ignored although it was asked for", x)
        ctx.require(cnt > 0, "certificate errors are handled", "S04:ssl:" + kind, w, "certificate errors are not handled", st)
        ctx.require(not log(st, "ignoreSslErrors"), "certificate errors are only ignored if asked for", "S04:insecure-main", w, "certificate errors are ignored in advance", st)
        if s:
            cnt, out = slots(ctx, st, e[1], "clientConnected", mon)
            echoed = None
            for f, x, I2 in out:
                sk = params_of(f)[0]
                rnd = O.facts(x).get(("isSet", "random"))
                n2, out2 = slots(ctx, x, sk, "dataReceived", mon)
                direct = [e3 for e3 in log(x, "connect") if e3[2][0] == sk and e3[2][2] == sk and e3[2][3][0] == "fn" and e3[2][3][1].startswith(SOCK + "::writeData(")]
                ctx.require(not n2 or rnd is True, "data is only echoed if asked for", "S04:echo-unasked", fnwhere(f), "the server echoes although it was not asked to", x)
                ctx.require(rnd is not True or n2 == 1, "data is echoed if asked for", "S04:echo", fnwhere(f), "received data is connected to %d echos" % n2, x)
                ctx.require(not log(x, "writeData"), "nothing but the echo is sent", "S04:unasked", fnwhere(f), "the server sends data on its own", x)
                for g, y, I3 in out2:
                    if direct and g["n"] == SOCK + "::writeData":
                        ctx.ok("data is echoed unchanged to its sender")
                        continue
                    wr = log(y, "writeData")
                    ctx.require(len(wr) == 1 and wr[0][1] == sk and wr[0][2][0] == params_of(g)[0], "data is echoed unchanged to its sender", "S04:echo-data", fnwhere(g),
                                "%s is sent to %s" % (show(wr[0][2][0])[:60], show(wr[0][1])[:60]) if wr else "nothing is echoed", y)
            ctx.require(cnt > 0 or F.get(("isSet", "random")) is False, "data is echoed if asked for", "S04:echo-none", w, "clients are not served", st)
        else:
            for sg in ("remoteConnectedChanged", "stateChanged", "dataReady", "errorOccurred"):
                cnt, out = slots(ctx, st, e[1], sg, mon)
                for f, x, I2 in out:
                    act = log(x, "sendData") + [c for c in log(x, "start") if c[3].startswith("QTimer")]
                    rnd = O.facts(x).get(("isSet", "random"))
                    ctx.require(not act or rnd is True, "data is only sent if asked for", "S04:random-unasked", fnwhere(f), "the client sends random data although it was not asked to", x)
                    if sg == "remoteConnectedChanged":
                        con = I2.decide(params_of(f)[0], x)
                        ctx.require(act or rnd is False or con is not True, "data is sent if asked for", "S04:random", fnwhere(f), "the client does not send random data although it was asked to", x)
            ctx.require(not log(st, "sendData") and not [c for c in log(st, "start") if c[3].startswith("QTimer")], "data is only sent if asked for", "S04:random-main", w,
                        "the client sends data on its own", st)
    for q in ("the given url is used", "certificate errors are only ignored if asked for", "data is echoed unchanged to its sender", "a client connects to the given server",
              "invalid options connect nowhere", "data is sent if asked for"):
        ctx.need(1, q)


def monitor(ctx):
    p, O = ctx.p, Options()
    fn = mainof(p, "monitor")
    w = fnwhere(fn)
    m = ToolMon()
    res, I = ctx.run(fn, m)
    js, pa = p.field("MonitorClient", "m_jsonMode"), p.field("MonitorClient", "m_printAll")
    for code, st in m.ends:
        ctx.require(not log(st, "connectToServer"), "invalid options connect nowhere", "S04:monitor:exit-late", w, "the monitor connects before it refuses its options", st)
        ctx.require(code is not None and is_c(code) and code[1] != 0, "invalid options are an error", "S04:monitor:exit", w, "the monitor ends with status %s on invalid options" % (show(code) if code else "?"), st)
    for st, v in res:
        F = O.facts(st)
        c = log(st, "connectToServer")
        if not c and not log(st, "exec"):
            ctx.require(is_c(v) and v != C(0), "invalid options are an error", "S04:monitor:return", w, "the monitor ends with status %s without connecting" % show(v), st)
            continue
        if not ctx.require(len(c) == 1 and bool(log(st, "exec")), "the monitor connects once", "S04:monitor:one", w, "the monitor connects %d times" % len(c), st):
            continue
        ctx.require(O.canon(c[0][2][0]) == ("value", "socket"), "the given socket is opened", "S04:monitor:socket", w, "the monitor connects to %s" % show(c[0][2][0])[:100], st)
        kinds = [x[1][1] for x in log(st, "new") if x[1][0] == "new" and x[1][1] in ("Monitor", "NonInteractiveMonitor")]
        plain = F.get(("isSet", "non-interactive")) is True or F.get(("isSet", "json")) is True
        win = F.get(("isSet", "non-interactive")) is False and F.get(("isSet", "json")) is False
        ctx.require(kinds == ["NonInteractiveMonitor"] and plain or kinds == ["Monitor"] and win, "the mode is the one asked for", "S04:monitor:mode", w, "the monitor runs as %s" % ", ".join(kinds), st)
        ctx.require(kinds != ["Monitor"] or F.get(("isSet", "all")) is False, "invalid options are an error", "S04:monitor:all", w,
                    "the monitor runs interactively although all connections were asked for", st)
        mc = [x[1] for x in log(st, "new") if x[1][0] == "new" and x[1][1] == "MonitorClient"]
        if not ctx.require(len(mc) == 1, "the monitor connects once", "S04:monitor:clients", w, "%d monitor clients are created" % len(mc), st):
            continue
        for f, opt in ((js, "json"), (pa, "all")):
            t = fieldval(st, I, mc[0], f)
            is_ = F.get(("isSet", opt))
            b = t[1] if is_c(t) else None
            ctx.require(O.canon(t) == ("isSet", opt) or b is not None and b is is_, "the output is the one asked for", "S04:monitor:" + opt, w,
                        "the option %s is %s, the monitor uses %s" % (opt, {True: "set", False: "not set"}.get(is_, "set or not"), show(t)[:80]), st)
    for q in ("the given socket is opened", "the output is the one asked for"):
        ctx.need(2, q)
