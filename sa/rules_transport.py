"""Rules for the transports: common contract (X01), TLS on the server (S01) and in the client library (S02), timers (K01), buffers (K02)."""
from framework import *
from rules_codec import enumval
from rules_client import Log, logs, params_of, unconv, eqfact, THIS

NSP = "remoteproxy::"
TI = NSP + "TransportInterface"
CLOSERS = ("close", "disconnectFromHost", "disconnectFromServer")
HARD = ("abort",)
READERS = ("readAll", "read", "readLine", "readDatagram")


def sig_name(t):
    """short name of the signal argument of a connect()"""
    if t[0] == "fn":
        return t[1].split("(")[0].rsplit("::", 1)[-1]
    if is_c(t) and isinstance(t[1], str) and t[1][:1] == "2":
        return t[1][1:].split("(")[0]
    return None


class Net(Monitor):
    """log of the socket level operations, emits, table changes (snapshot of the table at emits)"""

    def __init__(self, tab=None, opaque=(), extra=()):
        self.tab = tab
        self.opaque = frozenset(opaque)
        self.extra = extra

    def event(self, st, ev):
        k = None
        s = ev.short()
        if ev.kind == "emit":
            k = "emit." + s
        elif ev.kind == "delete":
            k = "delete"
        elif ev.kind == "new":
            k = "new"
        elif ev.kind == "call":
            if s in CLOSERS or s in HARD or s in READERS or s in ("write", "sendTextMessage", "sendBinaryMessage", "deleteLater", "connect", "disconnect", "createUuid",
                                                                   "flush", "nextPendingConnection", "addPendingConnection", "start", "stop", "setSslConfiguration",
                                                                   "startServerEncryption", "startClientEncryption", "listen", "ignoreSslErrors", "setPeerVerifyMode", "connectToHost",
                                                                   "connectToHostEncrypted", "open", "setSocketDescriptor", "putChar", "singleShot"):
                k = s
        elif ev.kind == "enter" and ev.name in self.extra:
            k = "enter." + s
        if k is None and ev.name in self.extra:
            k = s
        if k and len(st.ghost.get("log", ())) < 40:
            x = (k, ev.obj, ev.args, ev.extra, bool(ev.fr.loops), ev.where())
            if self.tab:
                x += (self.I.load(st, ("fl", THIS, self.tab)),)
            if ev.fr.loops and any(y[:5] == x[:5] for y in st.ghost.get("log", ())[-12:]):
                return
            st.ghost["log"] = st.ghost.get("log", ()) + (x,)


def lg(st, *ks):
    return [e for e in st.ghost.get("log", ()) if e[0] in ks]


def bodies(p, cls):
    """functions with a body belonging to a class (methods, and lambdas written in them)"""
    return [f for f in p.fns.values() if f.get("cls") == cls]


class Handler:
    """a slot connected to a signal of one particular socket: function, captures, and the terms that denote that socket / its id"""

    def __init__(self, fn, caps, owns, ids):
        self.fn, self.caps, self.owns, self.ids = fn, caps, owns, ids


OWN = ("p", 90, "socket", "QIODevice *")
OID = ("p", 91, "socketId", "QUuid")
SENDER = ("call", "QObject::sender", THIS, ())


def handlers(ctx, res, socket, idterm=None):
    """{signal: [Handler]} of the connections made on the path results `res` for the socket term"""
    p = ctx.p
    out = {}
    for st, v in res:
        for e in lg(st, "connect"):
            a = e[2]
            if len(a) < 3 or a[0] != socket:
                continue
            sg = sig_name(a[1])
            tgt = None
            for q in a[2:]:
                if q[0] == "lam":
                    tgt = q
                elif q[0] == "fn":
                    tgt = q
                elif is_c(q) and isinstance(q[1], str) and q[1][:1] == "1":
                    nm = q[1][1:].split("(")[0]
                    cl = st.ghost.get("recvcls")
                    tgt = ("str", nm)
            if sg is None or tgt is None:
                continue
            out.setdefault(sg, [])
            if tgt not in out[sg]:
                out[sg].append(tgt)
    r = {}
    for sg, ts in out.items():
        for t in ts:
            if t[0] == "lam":
                f = p.fns.get(t[1])
                if not f:
                    raise AnalysisError("slot %s not found" % t[1])
                caps = []
                for vid, v in t[2]:
                    if v == socket or v == ("ref", socket):
                        v = OWN
                    elif idterm is not None and v == idterm:
                        v = OID
                    caps.append((vid, v))
                h = Handler(f, tuple(caps), [OWN, SENDER], [OID])
            else:
                f = p.fns.get(t[1])
                if t[0] == "str":
                    c = [x for x in p.connections if x["slot"] and x["slot"].split("(")[0].endswith("::" + t[1])]
                    f = p.fns.get(c[0]["slot"]) if c else None
                if not f:
                    continue
                h = Handler(f, None, [SENDER] + [q for q in params_of(f) if "Socket" in q[3]], [])
            r.setdefault(sg, []).append(h)
    return r


def norm_own(t, h):
    return any(unconv_cast(t) == o for o in h.owns)


def unconv_cast(t):
    while t[0] == "cast" and len(t) > 1:
        t = t[-1] if isinstance(t[-1], tuple) else t[1]
    return t


# ============================================================================ X01
def transports(ctx):
    p = ctx.p
    r = []
    for c in sorted(p.subs.get(TI, ())):
        if not p._abstract(c) and p.classes[c].get("file", "").find("tests") < 0 and any(f.get("cls") == c for f in p.fns.values()):
            r.append(c)
    if len(r) < 3:
        raise AnalysisError("expected at least three transports, found %s" % r)
    return r


def newconn_entry(ctx, K):
    """(function of K called for a new connection, the object whose signal triggers it)"""
    p = ctx.p
    c = []
    for f in bodies(p, K):
        if any(n.get("k") in ("call", "emit") and n.get("n", "").endswith("::clientConnected") for n in walk(f["body"])):
            c.append(f)
    return c


def removed(I, st, T0, h):
    """the keys under which the own socket was looked up: terms k with k == keyof(T0, own) or the captured id"""
    ks = [("keyof", T0, o) for o in h.owns] + list(h.ids)
    # found in a loop over the table
    for a, v in st.facts.items():
        if v and a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x in h.owns and y[0] == "elem" and y[1] == T0:
                    ks.append(("elem", ("keys", T0), y[2]))
    return ks


def in_table(I, st, T0, h):
    """True/False/None: is the own socket in the table on this path"""
    for k in removed(I, st, T0, h):
        if k[0] == "elem":
            return True
        d = I.decide(("has", T0, k), st)
        if d is not None:
            return d
        g = is_null(I, st, ("get", T0, k))
        if g is not None:
            return not g
        for q in (("call", "QUuid::isNull", k, ()),):
            d = st.facts.get(q)
            if d is not None:
                return not d
        d = I.decide(I.mk_eq(k, ("ctorobj", "QUuid", ())), st)
        if d is not None:
            return not d
    for o in h.owns:
        for t in (("values", T0), T0):
            d = st.facts.get(("has", t, o))
            if d is not None:
                return d
    return None


def dead_socket(I, st, s):
    """the path established that the socket is not connected/writable"""
    for a, v in st.facts.items():
        if a[0] == "eq" and a[2][0] == "call" and a[2][1].endswith("::state") and a[2][2] == s and is_c(a[1]):
            conn = {3}
            if (a[1][1] in conn and not v) or (a[1][1] == 0 and v):
                return True
        if a[0] == "call" and a[2] == s and a[1].rsplit("::", 1)[-1] in ("isOpen", "isValid", "isWritable") and not v:
            return True
    return False


def check_X01(ctx):
    p = ctx.p
    R = Roles(p)
    for K in transports(ctx):
        transport_contract(ctx, R, K)
    for n, k in (("data written unchanged to the socket of the id", 3), ("kill closes the socket of the id", 3), ("new connection reported once under a fresh id", 3),
                 ("disconnected client reported once and forgotten", 3), ("received data reported unchanged under its id", 3), ("connection count is the table size", 3),
                 ("disconnected socket is deleted", 3)):
        ctx.need(k, n)


def emits_any(st):
    return lg(st, "emit.clientConnected", "emit.clientDisconnected", "emit.dataAvailable")


def transport_contract(ctx, R, K):
    p = ctx.p
    short = K.rsplit("::", 1)[-1]
    tab = p.field(K, "m_clientList", r"Q(Hash|Map)<QUuid, .*Socket \*>")
    T0 = ("f", THIS, tab)
    X = "X01:%s:" % short

    def run(fn, **k):
        res, I = ctx.run(fn, Net(tab), **k)
        return res, I, fnwhere(fn)

    # ---- sendData
    fn = p.fn(K + "::sendData")
    res, I, w = run(fn)
    a = params_of(fn)
    s = ("get", T0, a[0])
    ws = "QWebSocket" in next(f["t"] for f in p.classes[K]["fields"] if f["n"] == tab)
    good = ("sendTextMessage",) if ws else ("write",)
    for st, v in res:
        wr = lg(st, "write", "sendTextMessage", "sendBinaryMessage", "putChar")
        nul = is_null(I, st, s)
        if nul is None:
            nul = I.decide(("has", T0, a[0]), st) is False or None
        if nul is True:
            ctx.require(not wr, "unknown id: nothing is written", X + "send-unknown", w, "data for an unknown id is written to %s" % (show(wr[0][1])[:100] if wr else ""), st)
            continue
        if not wr and (dead_socket(I, st, s) or I.decide(I.mk_eq(("count", a[1]), C(0)), st) is True):
            continue
        ok = len(wr) == 1 and not wr[0][4] and wr[0][0] in good and wr[0][1] == s and wr[0][2][0] in ((a[1], ("call", "QString::fromUtf8", a[1], ())) if ws else (a[1],))
        ctx.require(ok, "data written unchanged to the socket of the id", X + "send", w,
                    "sendData does %s" % ("; ".join("%s.%s(%s)" % (show(e[1])[:80], e[0], show(e[2][0])[:80]) for e in wr) or "nothing"), st)
        cl = [e for e in lg(st, *(CLOSERS + HARD)) if True]
        failed = any(a2[0] == "lt" and v2 for a2, v2 in st.facts.items())
        ctx.require(not cl or failed, "sending does not close", X + "sendclose", w, "sending data closes a connection", st)
        ctx.require(I.load(st, ("fl", THIS, tab)) == T0 and not emits_any(st), "sending changes nothing else", X + "sendeffect", w, "sendData changes the table of clients or reports something", st)
    # ---- kill
    fn = p.fn(K + "::killClientConnection")
    res, I, w = run(fn)
    a = params_of(fn)
    s = ("get", T0, a[0])
    for st, v in res:
        cl = lg(st, *CLOSERS)
        hd = lg(st, *HARD)
        other = [e for e in cl + hd if e[1] != s]
        ctx.require(not other, "kill touches no other connection", X + "kill-other", w, "killing one connection closes %s" % (show(other[0][1])[:100] if other else ""), st)
        ctx.require(I.load(st, ("fl", THIS, tab)) == T0 and not emits_any(st), "the end is reported when the socket disconnects", X + "kill-table", w,
                    "killing changes the table of clients to %s" % show(I.load(st, ("fl", THIS, tab)))[:100], st)
        if is_null(I, st, s) is True or I.decide(("has", T0, a[0]), st) is False:
            continue
        if dead_socket(I, st, s) and not cl:
            continue
        ctx.require(bool(cl), "kill closes the socket of the id", X + "kill", w, "killClientConnection does not close the socket", st)
        ctx.require(not hd or not cl and False, "pending data is not dropped", X + "kill-abort", w, "killClientConnection aborts the socket: data already queued is lost", st)
    # ---- connectionsCount
    fn = p.fn(K + "::connectionsCount")
    res, I, w = run(fn)
    for st, v in res:
        t = v
        while t[0] == "icast":
            t = t[1]
        ctx.require(t == ("count", T0), "connection count is the table size", X + "count", w, "connectionsCount() returns %s" % show(v)[:80], st)
    # ---- new connections
    hs = {}
    found = 0
    for fn in newconn_entry(ctx, K):
        res, I, w = run(fn)
        for st, v in res:
            em = lg(st, "emit.clientConnected")
            t = I.load(st, ("fl", THIS, tab))
            if not em:
                ctx.require(t == T0, "nothing unreported in the table", X + "new-silent", w, "a connection is stored without being reported: %s" % show(t)[:100], st)
                np = lg(st, "nextPendingConnection")
                if np:
                    # refused: closed and deleted, or there was none
                    sk = nextpending(st, I)
                    ok = sk is None or is_null(I, st, sk) is True or any(e[1] == sk for e in lg(st, *(CLOSERS + HARD))) and any(e[1] == sk for e in lg(st, "deleteLater", "delete"))
                    ctx.require(ok, "refused connections are closed", X + "refused", w, "a refused connection stays open", st)
                else:
                    pars = [q for q in params_of(fn) if "Socket" in q[3]]
                    ctx.require(bool(pars) and is_null(I, st, pars[0]) is True, "every connection is reported", X + "ignored", w, "a new connection is ignored", st)
                continue
            found += 1
            e = em[0]
            ok = len(em) == 1 and not e[4]
            i, addr = e[2][0], e[2][1]
            snap = e[6]
            sock = snap[3] if snap[0] == "ins" and snap[1] == T0 and snap[2] == i else None
            fresh = i[0] in ("ret", "fresh", "new") and "createUuid" in str(i)
            ctx.require(ok and sock is not None and t == snap and fresh, "new connection reported once under a fresh id", X + "new", w,
                        "clientConnected(%s) emitted %d times, the table is %s" % (show(i)[:60], len(em), show(snap)[:100]), st)
            if sock is None:
                continue
            src = any("nextPendingConnection" in str(q) for q in subterms(sock)) or any(q == sock for q in params_of(fn))
            ctx.require(src, "the stored socket is the new connection", X + "socket", w, "the socket stored is %s" % show(sock)[:80], st)
            want = addr[0] == "call" and addr[1].endswith("::peerAddress") and addr[2] == sock
            local = "QLocalSocket" in next(f["t"] for f in p.classes[K]["fields"] if f["n"] == tab)
            ctx.require(want or local, "peer address is the address of the socket", X + "peer", w, "peer address reported: %s" % show(addr)[:80], st)
            for sg, h in handlers(ctx, [(st, v)], sock, i).items():
                for x in h:
                    if not any(y.fn is x.fn for y in hs.setdefault(sg, [])):
                        hs[sg].append(x)
            if ws:
                ver = [(b, y) for b, y in st.facts.items() if b[0] == "eq" and b[2][0] == "call" and b[2][1].endswith("::version")]
                ctx.require(any(y and b[1] == C(13) for b, y in ver), "only protocol version 13", X + "version", w, "a WebSocket connection with another protocol version is accepted", st)
            # every accepted socket gets its handlers on this very path
            if not any(q == sock for q in params_of(fn)):
                sgs = {sig_name(e2[2][1]) for e2 in lg(st, "connect") if e2[2][0] == sock}
                for need in (("disconnected",), ("readyRead", "textMessageReceived")):
                    ctx.require(bool(sgs & set(need)), "handlers connected for every connection", X + "connect:" + need[0], w,
                                "a new connection is not connected to %s" % need[-1], st)
    if not found and not ctx.viol:
        raise AnalysisError("no function of %s reports new connections" % K)
    # ---- TCP: the own server class reports with the socket as parameter
    if not hs:
        for c in p.connections:
            f = p.fns.get(c["slot"] or "")
            if f and f.get("cls") == K and c["sig"]:
                nm = c["sig"].split("(")[0].rsplit("::", 1)[-1]
                pr = [q for q in params_of(f) if "Socket" in q[3]]
                if pr:
                    m = {"socketDisconnected": "disconnected", "dataAvailable": "readyRead"}.get(nm)
                    if m:
                        hs.setdefault(m, []).append(Handler(f, None, pr, []))
    deleter = False
    nd = ndis = 0
    for sg, hl in hs.items():
        for h in hl:
            res, I, w = run(h.fn, caps=h.caps)
            for st, v in res:
                if any(v2 and a[0] == "call" and a[1].endswith("isNull") and a[2] and a[2][0] == "elem" and a[2][1] == ("keys", T0) for a, v2 in st.facts.items()):
                    continue        # connections are registered under fresh ids, never under the null id
                t = I.load(st, ("fl", THIS, tab))
                ed = lg(st, "emit.clientDisconnected")
                ea = lg(st, "emit.dataAvailable")
                gone = t[0] == "rem" and t[1] == T0 and t[2] in removed(I, st, T0, h)
                ctx.require(not lg(st, "emit.clientConnected"), "no other reports", X + "other", w, "reports a new connection", st)
                if sg == "disconnected":
                    pres = in_table(I, st, T0, h)
                    ndis += 1
                    if pres is False:
                        ctx.require(not ed, "an unknown socket is not reported", X + "dis-unknown", w, "the end of a connection that was never reported is reported", st)
                        ctx.require(t == T0 or gone, "an unknown socket changes nothing", X + "dis-unknown2", w, "table becomes %s" % show(t)[:100], st)
                    else:
                        ok = len(ed) == 1 and not ed[0][4] and ed[0][2][0] in removed(I, st, T0, h) and gone
                        ctx.require(ok and pres is True, "disconnected client reported once and forgotten", X + "dis", w,
                                    "when a socket disconnects clientDisconnected is emitted %d times (%s), the table becomes %s" % (
                                        len(ed), show(ed[0][2][0])[:60] if ed else "", show(t)[:100]), st)
                    if hs_own(K, ctx):
                        if pres is not False:
                            dl = [e for e in lg(st, "deleteLater") if norm_own(e[1], h)]
                            ctx.require(bool(dl), "disconnected socket is deleted", X + "delete", w, "the socket of a disconnected client is never deleted", st)
                            nd += 1
                    ctx.require(not ea, "no data after the end", X + "dis-data", w, "data is reported when the socket disconnects", st)
                else:
                    ctx.require(t == T0, "only a disconnect removes the client", X + "table:" + sg, w, "%s changes the table of clients to %s" % (sg, show(t)[:100]), st)
                    ctx.require(not ed, "only a disconnect is reported as such", X + "early:" + sg, w, "%s reports the client as disconnected" % sg, st)
                    if sg in ("readyRead", "textMessageReceived"):
                        rd = lg(st, *READERS)
                        pres = in_table(I, st, T0, h)
                        pars = params_of(h.fn)
                        if pres is False and not ea:
                            continue
                        dt = ea[0][2][1] if ea else VOID
                        raw = unconv(dt)
                        src = raw in pars or raw[0] in ("ret", "fresh") and "readAll" in str(raw) or raw[0] == "call" and raw[1].endswith("readAll")
                        idok = bool(ea) and ea[0][2][0] in removed(I, st, T0, h)
                        if not ea and nothing_there(I, st, pars):
                            continue
                        ctx.require(len(ea) == 1 and not ea[0][4] and idok and src, "received data reported unchanged under its id", X + "data", w,
                                    "received data is reported %d times as (%s, %s)" % (len(ea), show(ea[0][2][0])[:80] if ea else "", show(dt)[:80]), st)
                        ctx.require(not lg(st, *(CLOSERS + HARD)), "data does not close the connection", X + "dataclose", w, "received data closes a connection", st)
                    elif sg in ("binaryMessageReceived",):
                        ctx.require(not ea and any(norm_own(e[1], h) for e in lg(st, *(CLOSERS + HARD))), "binary messages close the connection", X + "binary", w,
                                    "a binary message is %s" % ("forwarded" if ea else "ignored"), st)
                        ctx.require(all(norm_own(e[1], h) for e in lg(st, *(CLOSERS + HARD))), "only the own socket is closed", X + "binary-other", w, "another socket is closed", st)
                    elif sg in ("error", "errorOccurred"):
                        ctx.require(not ea and all(norm_own(e[1], h) for e in lg(st, *(CLOSERS + HARD))), "an error concerns the own socket", X + "error", w, "an error of one socket closes another", st)
    if not ndis and not ctx.viol:
        ctx.bad(X + "nodis", p.classes[K].get("file", K), "nothing handles the end of a connection of %s" % short)
    if not hs_own(K, ctx):
        sslserver_delete(ctx, K, X)
    # ---- start/stop
    start_stop(ctx, K, tab, X)


def hs_own(K, ctx):
    """does the transport own its sockets (else the SslServer does)"""
    return not K.endswith("TcpSocketServer")


def nextpending(st, I):
    for e in lg(st, "nextPendingConnection"):
        pass
    for a in list(st.facts):
        for t in subterms(a):
            if t[0] in ("ret", "fresh") and "nextPendingConnection" in str(t):
                return t
    return None


def ssl_server(ctx):
    p = ctx.p
    c = [c for c in p.classes if p.classes[c]["n"].startswith(NSP) and "QTcpServer" in p.classes[c]["allbases"]]
    if len(c) != 1:
        raise AnalysisError("expected one QTcpServer subclass, found %s" % c)
    return c[0]


def incoming(ctx):
    """run incomingConnection: results, interp, function, new socket terms"""
    p = ctx.p
    S = ssl_server(ctx)
    fn = p.fn(S + "::incomingConnection")
    res, I = ctx.run(fn, Net(None))
    return S, fn, res, I


def newsock(st):
    n = [e for e in lg(st, "new") if "Ssl" in str(e[1] if e[1] is not None else e[2])]
    return n[0][1] if n else None


def sslserver_delete(ctx, K, X):
    S, fn, res, I = incoming(ctx)
    w = fnwhere(fn)
    hs = {}
    for st, v in res:
        sock = newsock(st)
        if sock is None:
            continue
        if lg(st, "delete"):
            continue
        h = handlers(ctx, [(st, v)], sock)
        if ctx.require("disconnected" in h and "readyRead" in h, "handlers connected for every connection", X + "sslconnect", w, "a new socket is not connected to disconnected/readyRead", st):
            hs["disconnected"] = h["disconnected"]
    for h in hs.get("disconnected", []):
        res2, I2 = ctx.run(h.fn, Net(None), caps=h.caps)
        for st, v in res2:
            dl = [e for e in lg(st, "deleteLater") if norm_own(e[1], h)]
            ctx.require(bool(dl), "disconnected socket is deleted", X + "delete", fnwhere(h.fn), "the socket of a disconnected client is never deleted", st)


def start_stop(ctx, K, tab, X):
    p = ctx.p
    srv = [f["n"] for f in p.classes[K]["fields"] if f["t"].endswith("Server *")]
    if len(srv) != 1:
        raise AnalysisError("server object of %s not found" % K)
    srv = srv[0]
    fn = p.fn(K + "::startServer")
    res, I = ctx.run(fn, Net(tab))
    w = fnwhere(fn)
    for st, v in res:
        m = I.load(st, ("fl", THIS, srv))
        li = lg(st, "listen")
        ok = [y for a, y in st.facts.items() if a[0] in ("ret", "fresh", "call") and "listen" in str(a)]
        if v == TRUE:
            ctx.require(m[0] == "new" and bool(li) and li[-1][1] == m and ok == [True], "started only when listening", X + "start", w, "startServer() returns true without listening", st)
            cs = [e for e in lg(st, "connect") if e[2][0] == m]
            ctx.require(any(sig_name(e[2][1]) in ("newConnection", "socketConnected") for e in cs), "new connections are handled", X + "start-connect", w,
                        "the listening server is not connected to the handler of new connections", st)
        else:
            ctx.require(v == FALSE and is_null(I, st, m) is True, "a failed start leaves no server", X + "start-failed", w, "a failed start returns %s and leaves the server %s" % (show(v)[:20], show(m)[:40]), st)
    fn = p.fn(K + "::stopServer")
    srv0 = ("f", THIS, srv)

    class Stop(Net):
        closed = False

        def loop_iter(self, interp, loop, st_in, outs):
            lid, Rt, fr, it = loop
            if Rt is None or not any(t == ("f", THIS, tab) for t in subterms(Rt)):
                return
            for kind, x, v in outs:
                c = [e for e in lg(x, *(CLOSERS + HARD))]
                ok = kind in ("n", "k") and any(any(t[0] == "elem" and any(q == ("f", THIS, tab) for q in subterms(t)) for t in subterms(e[1])) for e in c)
                nul = any(a[0] == "eq" and a[1] == NULL and y and any(t[0] == "elem" for t in subterms(a)) for a, y in x.facts.items())
                ctx.require(ok or nul, "stopping closes every connection", X + "stop", "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"]), "stopServer() leaves a connection open", x)
                x.ghost["closedall"] = 1
    m = Stop(tab)
    res, I = ctx.run(fn, m)
    w = fnwhere(fn)
    for st, v in res:
        if is_null(I, st, srv0) is True:
            continue
        now = I.load(st, ("fl", THIS, srv))
        ctx.require(now == NULL and any(e[1] == srv0 for e in lg(st, "delete", "deleteLater")), "stopping removes the server", X + "stop-server", w,
                    "after stopServer() the server is %s" % show(now)[:60], st)
        empty = I.decide(I.mk_eq(("count", ("f", THIS, tab)), C(0)), st) is True
        ctx.require(st.ghost.get("closedall") or empty, "stopping closes every connection", X + "stop-all", w, "stopServer() does not close the connections", st)


# ============================================================================ S01
def nothing_there(I, st, pars):
    """the path knows that there is nothing to read: no bytes available, or what was read is empty"""
    for b in st.facts:
        for q in subterms(b):
            if q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("bytesAvailable", "bytesToRead"):
                if I.decide(I.mk_eq(q, C(0)), st) is True or I.decide(I.mk_lt(q, C(1)), st) is True:
                    return True
            elif q[0] == "count" and (unconv(q[1]) in pars or "readAll" in str(q[1])):
                if I.decide(I.mk_eq(q, C(0)), st) is True:
                    return True
    return False


def client_transport(ctx):
    """the transports of the client library pass data on unchanged, completely and always"""
    p = ctx.p
    NC = "remoteproxyclient::"
    PC = NC + "ProxyConnection"
    for K in sorted(p.subs.get(PC, ())):
        if p._abstract(K) or not K.startswith(NC):
            continue
        short = K.rsplit("::", 1)[-1]
        ctor = [f for f in bodies(p, K) if f["n"] == K + "::" + short][0]
        sockf = [f for f in p.classes[K]["fields"] if f["t"].endswith("Socket *")]
        if len(sockf) != 1:
            raise AnalysisError("socket of %s not found" % K)
        ws = "WebSocket" in sockf[0]["t"]
        sock0 = ("f", THIS, sockf[0]["n"])
        fn = p.fn(K + "::sendData")
        data = params_of(fn)[0]
        res, I = ctx.run(fn, Net(None))
        for st, v in res:
            out = lg(st, "write", "sendTextMessage", "sendBinaryMessage", "putChar")
            if not out and (I.decide(I.mk_eq(("count", data), C(0)), st) is True or is_null(I, st, sock0) is True):
                continue
            if len(out) == 1 and out[0][0] == "write" and len(out[0][2]) == 2:
                from absint import sized
                got = sized(out[0][2][0], out[0][2][1])
            else:
                got = out[0][2][0] if len(out) == 1 and out[0][2] else VOID
            ok = len(out) == 1 and out[0][1] == sock0 and not out[0][4]
            if ok and ws:
                ok = out[0][0] == "sendTextMessage" and got[0] == "call" and got[1].endswith("fromUtf8") and (got[2] == data or got[3][:1] == (data,)) or \
                    out[0][0] == "sendTextMessage" and got[0] == "ctorobj" and got[2] == (data,) or out[0][0] == "sendTextMessage" and unconv(got) == data
            elif ok:
                ok = out[0][0] == "write" and got == data
            ctx.require(ok, "the client transport sends the data once and unchanged", "X02:tx:" + short, fnwhere(fn),
                        "sendData(data) sends %s" % ([show(a)[:80] for e in out for a in e[2]] or "nothing"), st)
        res, I = ctx.run(ctor, Net(None))
        hs = {}
        for st, v in res:
            s = I.load(st, ("fl", THIS, sockf[0]["n"]))
            for sg, h in handlers(ctx, [(st, v)], s).items():
                for x in h:
                    if not any(y.fn is x.fn for y in hs.setdefault(sg, [])):
                        hs[sg].append(x)
        hs_cls(ctx, K, hs)
        rx = [h for sg in (("textMessageReceived",) if ws else ("readyRead",)) for h in hs.get(sg, [])]
        if not ctx.require(len(rx) == 1, "received data has one handler", "X02:rx:" + short, fnwhere(ctor), "received data of %s is handled by %d slots" % (short, len(rx))):
            continue
        for sg, hl in hs.items():
            for h in hl:
                res, I = ctx.run(h.fn, Net(None), caps=h.caps)
                pars = params_of(h.fn)
                for st, v in res:
                    em = lg(st, "emit.dataReceived")
                    rd = lg(st, *READERS)
                    if h.fn is not rx[0].fn:
                        ctx.require(not em and not rd, "nothing else consumes received data", "X02:other:" + short, fnwhere(h.fn), "%s consumes received data" % h.fn["n"], st)
                        continue
                    if not em and nothing_there(I, st, pars):
                        continue
                    raw = unconv(em[0][2][0]) if em else VOID
                    src = ws and raw in pars or not ws and (raw[0] in ("ret", "fresh") and "readAll" in str(raw) or raw[0] == "call" and raw[1].endswith("readAll"))
                    ctx.require(len(em) == 1 and src and not any(rest_lossy(q) for q in subterms(em[0][2][0])), "received data reported unchanged", "X02:data:" + short, fnwhere(h.fn),
                                "received data is reported %d times as %s" % (len(em), show(em[0][2][0])[:80] if em else ""), st)
    ctx.need(2, "the client transport sends the data once and unchanged")
    ctx.need(2, "received data reported unchanged")


def rest_lossy(q):
    return q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("toLatin1", "toLocal8Bit", "trimmed", "simplified", "left", "mid", "chopped", "toLower", "toUpper")


def since(x, st_in):
    """log entries of this loop iteration; the log is reset to the one at the loop head"""
    n = len(st_in.ghost.get("log", ()))
    l = x.ghost.get("log", ())[n:]
    x.ghost["log"] = st_in.ghost.get("log", ())
    return l


def check_S01(ctx):
    p = ctx.p
    S, fn, res, I = incoming(ctx)
    w = fnwhere(fn)
    en = ("f", THIS, p.field(S, "m_sslEnabled", r"^bool$"))
    cfg = ("f", THIS, p.field(S, "m_config", r"QSslConfiguration"))
    hs = {}
    timer_fields = set()
    for st, v in res:
        sock = newsock(st)
        add = lg(st, "addPendingConnection")
        bad = [y for a, y in st.facts.items() if "setSocketDescriptor" in str(a) and a[0] in ("ret", "fresh", "call")]
        if bad == [False]:
            ctx.require(not add and not lg(st, "startServerEncryption"), "failed descriptor: no connection", "S01:descriptor", w, "a connection whose socket could not be set up is kept", st)
            ctx.require(any(e[1] == sock for e in lg(st, "delete", "deleteLater")), "failed socket is deleted", "S01:descriptor-leak", w, "a socket that could not be set up is leaked", st)
            continue
        if not ctx.require(sock is not None and len(add) == 1 and add[0][2][0] == sock, "accepted socket handed on", "S01:pending", w, "an accepted socket is handed on %d times" % len(add), st):
            continue
        ssl = truth(I, st, en)
        sse = [e for e in lg(st, "startServerEncryption") if e[1] == sock]
        sc = [e for e in lg(st, "setSslConfiguration") if e[1] == sock]
        if ssl is not False:
            ok = ssl is True and len(sse) == 1 and bool(sc) and sc[-1][2][0] == cfg and st.ghost["log"].index(sc[-1]) < st.ghost["log"].index(sse[0])
            ctx.require(ok, "handshake started with the configured certificate", "S01:handshake", w, "TLS is enabled but the handshake is %s" % (
                "not started" if not sse else "started without the configuration"), st)
            cs = [e for e in lg(st, "connect") if e[2][0] != sock and sig_name(e[2][1]) == "timeout"]
            tm = [e[2][0] for e in cs]
            started = [e for e in lg(st, "start") if any(loc_eq(t, e[1]) for t in tm)]
            good = False
            for e in cs:
                for q in e[2][2:]:
                    if q[0] == "lam" and p.fns.get(q[1]):
                        r2, I2 = ctx.run(p.fns[q[1]], Net(None), this=THIS, caps=q[2])
                        good = all(any(x[0] in CLOSERS + HARD for x in lg(s2, *(CLOSERS + HARD))) for s2, _ in r2)
                    elif q[0] == "fn" and q[1].split("(")[0].rsplit("::", 1)[-1] in CLOSERS + HARD:
                        good = True
            ctx.require(bool(started) and good, "handshake is limited in time", "S01:timer", w, "no timer closes a connection that never completes the handshake", st)
            for f in {q[2] for t in tm for q in subterms(t) if q[0] in ("f", "fl") and isinstance(q[2], str)}:
                timer_fields.add(f)
            for e in lg(st, "connect"):
                if len(e[2]) >= 4 and (any(loc_eq(t, e[2][2]) or t == e[2][2] for t in tm)) and is_fwd(e[2], "start"):
                    ctx.bad("S01:timerrestart", w, "the handshake timeout is restarted by the signal %s" % sig_name(e[2][1]))
                if len(e[2]) >= 4 and any(loc_eq(t, e[2][2]) or t == e[2][2] for t in tm) and is_fwd(e[2], "stop"):
                    ctx.require(sig_name(e[2][1]) in ("encrypted", "disconnected", "destroyed"), "only the encryption ends the handshake timeout", "S01:timerstop", w,
                                "the handshake timeout is stopped by the signal %s" % sig_name(e[2][1]), st)
        else:
            ctx.require(not sse, "no handshake without TLS", "S01:plain", w, "the handshake is started although TLS is disabled", st)
        for sg, h in handlers(ctx, [(st, v)], sock).items():
            for x in h:
                if not any(y.fn is x.fn for y in hs.setdefault(sg, [])):
                    hs[sg].append(x)
        sgs = {sig_name(e[2][1]) for e in lg(st, "connect") if e[2][0] == sock}
        for need in ("disconnected", "readyRead", "encrypted"):
            ctx.require(need in sgs, "socket signals are handled", "S01:connect:" + need, w, "%s of an accepted socket is not handled" % need, st)
    # the timeout runs from the acceptance: nothing that the peer does starts it again
    slots = {c["slot"] for c in p.connections}
    for f in p.fns.values():
        if f["f"].startswith("lambda@") or f["f"] in slots:
            for nd in walk(f["body"]):
                if nd.get("k") == "call" and nd["n"].rsplit("::", 1)[-1] in ("start", "setInterval") and any(q.get("k") == "mem" and q.get("f") in timer_fields for q in walk(nd.get("obj") or {})):
                    ctx.bad("S01:timerrestart", fnwhere(f), "the handshake timeout is started again by a signal")
    if timer_fields:
        ctx.ok("the handshake timeout is only started on acceptance")
    # timer interval: bounded, single shot not required
    ivals(ctx, S, res, w)
    # ---- the socket's handlers
    for sg in ("disconnected", "readyRead", "encrypted"):
        for h in hs.get(sg, []):
            r2, I2 = ctx.run(h.fn, Net(None), caps=h.caps)
            w2 = fnwhere(h.fn)
            for st, v in r2:
                ssl = truth(I2, st, en)
                enc = [y for a, y in st.facts.items() if a[0] == "call" and a[1].endswith("::isEncrypted") and norm_own(a[2], h)]
                hidden = ssl is True and enc == [False]
                c, d, a = lg(st, "emit.socketConnected"), lg(st, "emit.socketDisconnected"), lg(st, "emit.dataAvailable")
                if sg == "encrypted":
                    ctx.require(len(c) == 1 and norm_own(c[0][2][0], h) and not d and not a, "encrypted connection is reported", "S01:encrypted", w2,
                                "an encrypted connection is reported %d times" % len(c), st)
                elif sg == "disconnected":
                    ctx.require(not c and not a and (hidden and not d or len(d) == 1 and norm_own(d[0][2][0], h)), "end of a reported connection is reported", "S01:disconnected", w2,
                                "the end of a connection is reported %d times" % len(d), st)
                else:
                    rd = lg(st, *READERS)
                    if ssl is not False and not (ssl is True and enc == [True]):
                        ctx.require(not a and not rd, "no data before encryption", "S01:data-early", w2, "data of a connection that is not encrypted is forwarded although TLS is enabled", st)
                    else:
                        ok = len(a) == 1 and norm_own(a[0][2][0], h) and "readAll" in str(a[0][2][1]) and all(norm_own(e[1], h) for e in rd)
                        empty = any(f[0] == "eq" and f[1] == C(0) and y for f, y in st.facts.items()) and not a
                        ctx.require(ok or empty, "received data forwarded", "S01:data", w2, "received data is forwarded %d times: %s" % (len(a), show(a[0][2][1])[:60] if a else ""), st)
                    ctx.require(not c and not d, "data reports no connection", "S01:data-conn", w2, "received data reports a connection", st)
    # ---- pending connections of the plain server
    ctor = [f for f in bodies(p, S) if f["n"] == S + "::" + S.rsplit("::", 1)[-1]]
    if len(ctor) != 1:
        raise AnalysisError("constructor of %s not found" % S)
    r2, I2 = ctx.run(ctor[0], Net(None))
    nh = [h for h in handlers(ctx, r2, THIS).get("newConnection", [])]
    if not ctx.require(len(nh) == 1, "pending connections are handled", "S01:new", fnwhere(ctor[0]), "newConnection of the server has %d handlers" % len(nh)):
        return
    w2 = fnwhere(nh[0].fn)

    class Pend(Net):
        def loop_iter(self, interp, loop, st_in, outs):
            for kind, x, v in outs:
                l = since(x, st_in)
                pending_rule(ctx, interp, x, l, en, w2)
                x.ghost["drained"] = 1
    m = Pend(None)
    r3, I3 = ctx.run(nh[0].fn, m, caps=nh[0].caps)
    for st, v in r3:
        pending_rule(ctx, I3, st, st.ghost.get("log", ()), en, w2)
        hp = [y for a, y in st.facts.items() if a[0] == "call" and a[1].endswith("hasPendingConnections")]
        got = st.ghost.get("drained") or lg(st, "nextPendingConnection")
        ctx.require(got or hp == [False], "pending connections are taken", "S01:drain", w2, "pending connections are never taken (no further connection is accepted once the queue is full)", st)
    # ---- configuration reaches the sockets
    for K in transports(ctx):
        fld = [f["n"] for f in p.classes[K]["fields"] if f["t"].endswith("QSslConfiguration")]
        if not fld:
            continue
        kcfg = ("f", THIS, fld[0])
        ken = ("f", THIS, p.field(K, "m_sslEnabled", r"^bool$"))
        fs = p.fn(K + "::startServer")
        r4, I4 = ctx.run(fs, Net(None))
        w4 = fnwhere(fs)
        for st, v in r4:
            if v != TRUE:
                continue
            mine = [x[1] for x in lg(st, "new") if x[1] is not None and x[1][0] == "new" and x[1][1].rsplit("::", 1)[-1] == S.rsplit("::", 1)[-1]] if False else None
            o = [e[1] for e in lg(st, "listen")]
            if not o:
                continue
            o = o[-1]
            a = I4.load(st, ("fl", o, p.field(S, "m_sslEnabled", r"^bool$"))) if ("fl", o, en[2]) in st.heap else None
            if a is not None:
                b = I4.load(st, ("fl", o, cfg[2]))
                ctx.require(same_bool(I4, st, a, ken) and b == kcfg, "the server uses the configured TLS settings", "S01:pass:" + K, w4,
                            "the server listens with TLS %s and configuration %s" % (show(a)[:40], show(b)[:60]), st)
            else:
                nw = [e for e in lg(st, "new") if e[1] == o]
                args = nw[0][2] if nw else ()
                mode = next((x for x in args if is_c(x) and isinstance(x[1], int)), None)
                ssl = truth(I4, st, ken)
                if ssl is False:
                    ctx.ok("the server uses the configured TLS settings")
                    continue
                sc = [e for e in lg(st, "setSslConfiguration") if e[1] == o]
                L = st.ghost["log"]
                ok = ssl is True and mode == C(0) and bool(sc) and sc[-1][2][0] == kcfg and L.index(sc[-1]) < L.index(lg(st, "listen")[-1])
                ctx.require(ok, "the server uses the configured TLS settings", "S01:pass:" + K, w4, "TLS is enabled, but the server listens in mode %s %s configuration" % (
                    show(mode) if mode else "?", "with" if sc else "without"), st)
    es = p.fn(NSP + "Engine::start")
    qm = Monitor()
    qm.opaque = frozenset(engine_opaque(p))
    r5, I5 = ctx.run(es, qm)
    pr = params_of(es)[0]
    PCF = NSP + "ProxyConfiguration"
    n = 0
    for st, v in r5:
        for (k, o, fl), val in [(c, v2) for c, v2 in st.heap.items() if c[0] == "fl" and len(c) == 3]:
            if o[0] != "new":
                continue
            cl = fl.rsplit("::", 1)[0]
            if TI not in p.classes.get(cl, {"allbases": []})["allbases"]:
                continue
            if fl == cl + "::m_sslEnabled":
                n += 1
                ctx.require(val == ("f", pr, p.field(PCF, "m_sslEnabled")), "transports use the configuration", "S01:engine:" + cl, fnwhere(es),
                            "%s is created with TLS %s" % (cl, show(val)[:60]), st)
            elif fl == cl + "::m_sslConfiguration":
                ctx.require(val == ("f", pr, p.field(PCF, "m_sslConfiguration", r"QSslConfiguration")), "transports use the configuration", "S01:engine-config:" + cl, fnwhere(es),
                            "%s is created with the TLS configuration %s" % (cl, show(val)[:60]), st)
    # ---- nobody accepts broken handshakes
    for f in p.fns.values():
        if not f["file"].startswith(("libnymea-remoteproxy/", "server/")):
            continue
        for nd in walk(f["body"]):
            if nd.get("k") in ("call", "emit") and str(nd.get("n", "")).endswith("::ignoreSslErrors"):
                ctx.bad("S01:ignore:%s" % f["n"], "%s:%s (%s)" % (f["file"], nd.get("l"), f["n"]), "TLS errors of a client connection are ignored")
    for k, nn in (("handshake started with the configured certificate", 1), ("handshake is limited in time", 1), ("no data before encryption", 1), ("encrypted connection is reported", 1),
                  ("end of a reported connection is reported", 2), ("the server uses the configured TLS settings", 2), ("transports use the configuration", 4),
                  ("no plain connection is reported with TLS", 1)):
        ctx.need(nn, k)


def engine_opaque(p):
    """the tunnel server, logging and monitor parts are not looked into from the engine"""
    T = NSP + "TunnelProxyServer"
    return {T, NSP + "MonitorServer"} | {f["n"] for f in p.fns.values() if f.get("cls") in (T, NSP + "MonitorServer", NSP + "LogEngine")} | \
        {K + "::" + m for K in p.subs.get(TI, ()) for m in ("startServer", "stopServer")}


def same_bool(I, st, a, b):
    return a == b or (I.decide(a, st) is not None and I.decide(a, st) == I.decide(b, st))


def loc_eq(t, o):
    """connect() gets the address of a member object; the call has the object itself"""
    if t == o:
        return True
    if t[0] == "addr" and isinstance(t[1], tuple):
        return o == t[1] or o == ("f",) + tuple(t[1][1:]) or o == ("addr", t[1])
    return False


def ivals(ctx, S, res, w):
    p = ctx.p
    C1 = [c for c in p.classes if p.classes[c]["n"].startswith(NSP) and "QSslSocket" in p.classes[c]["allbases"]]
    for c in C1:
        for f in bodies(p, c):
            for nd in walk(f["body"]):
                if nd.get("k") == "call" and nd.get("n") == "QTimer::setInterval":
                    a = nd["args"][0]
                    v = a.get("v") if a.get("k") == "const" else None
                    if v is None:
                        continue
                    ctx.require(0 < v <= 60000, "handshake timeout at most a minute", "S01:interval", "%s:%s (%s)" % (f["file"], nd.get("l"), f["n"]), "the handshake timeout is %s ms" % v)


def pending_rule(ctx, I, x, l, en, w2):
    c = [e for e in l if e[0] == "emit.socketConnected"]
    np = [e for e in l if e[0] == "nextPendingConnection"]
    ssl = truth(I, x, en)
    if ssl is not False:
        ctx.require(not c, "no plain connection is reported with TLS", "S01:plain-reported", w2, "a connection that is not encrypted is reported although TLS is enabled", x)
    elif np:
        ok = len(c) == len(np) == 1 and "nextPendingConnection" in str(c[0][2][0])
        nul = not c and any(a[0] == "eq" and a[1] == NULL and y and "nextPendingConnection" in str(a[2]) for a, y in x.facts.items())
        ctx.require(ok or nul, "plain connection is reported", "S01:plain-new", w2, "a new connection is reported %d times" % len(c), x)


# ============================================================================ S02
def check_S02(ctx):
    p = ctx.p
    NC = "remoteproxyclient::"
    PC = NC + "ProxyConnection"
    subs = [c for c in sorted(p.subs.get(PC, ())) if not p._abstract(c) and c.startswith(NC)]
    if len(subs) < 2:
        raise AnalysisError("expected two proxy connections, found %s" % subs)
    conn = p.field(PC, "m_connected", r"^bool$")
    setters = frozenset({PC + "::setConnected"})
    for K in subs:
        short = K.rsplit("::", 1)[-1]
        ctor = [f for f in bodies(p, K) if f["n"] == K + "::" + short][0]
        sockf = [f for f in p.classes[K]["fields"] if f["t"].endswith("Socket *")]
        if len(sockf) != 1:
            raise AnalysisError("socket of %s not found" % K)
        sock0 = ("f", THIS, sockf[0]["n"])
        tls = "QSslSocket" in sockf[0]["t"]
        res, I = ctx.run(ctor, Net(None))
        hs = {}
        for st, v in res:
            s = I.load(st, ("fl", THIS, sockf[0]["n"]))
            fw = [e for e in lg(st, "connect") if e[2][0] == s and sig_name(e[2][1]) == "sslErrors" and is_fwd(e[2], "sslErrors")]
            ctx.require(bool(fw), "TLS errors are reported to the application", "S02:report:" + short, fnwhere(ctor), "TLS errors of the socket are not forwarded", st)
            for sg, h in handlers(ctx, [(st, v)], s).items():
                hs.setdefault(sg, []).extend(h)
            hs_cls(ctx, K, hs)
        # ---- connected only when encrypted
        ssl = ("f", THIS, p.field(K, "m_ssl", r"^bool$")) if tls else None
        done = set()
        slots = [(sg, h) for sg, l in hs.items() for h in l]
        ents = [(sg, h.fn, h.caps) for sg, h in slots]
        ents += [(None, p.fns[m["f"]], None) for m in p.classes[K]["methods"] if m["f"] in p.fns and m["mode"] != "qt_signal" and "~" not in m["n"] and p.fns[m["f"]]["n"] != ctor["n"] and
                 not any(h.fn is p.fns[m["f"]] for _, h in slots)]
        for sg, f, caps in ents:
            r2, I2 = ctx.run(f, Net(None), caps=caps)
            w = fnwhere(f)
            for st, v in r2:
                now = I2.load(st, ("fl", THIS, conn))
                if now not in (TRUE, FALSE, ("f", THIS, conn)):
                    # a computed value: look at the states in which it is true
                    up = I2.assume(now, st.copy(), True)
                    if up:
                        st, now = up[0], TRUE
                up = now == TRUE
                em = [e for e in lg(st, "emit.connectedChanged")]
                if up and tls:
                    ok = sg == "encrypted" or truth(I2, st, ssl) is False
                    ctx.require(ok, "connected only when encrypted", "S02:connected:" + short, w, "the connection is reported connected in %s although it is not encrypted" % f["n"], st)
                    ctx.ok("connected reported")
                elif up:
                    ctx.ok("connected reported")
                if up and sg != "encrypted":
                    isc = [y for a, y in st.facts.items() if a[0] == "eq" and a[1] == C(3)]
                    ctx.require(any(isc), "connected only when the socket is", "S02:state:" + short, w, "the connection is reported connected in another state", st)
                # the flag that tells whether encryption is expected
                if tls:
                    n = I2.load(st, ("fl", THIS, ssl[2]))
                    ct, ce = lg(st, "connectToHost"), lg(st, "connectToHostEncrypted")
                    if ct or ce:
                        sch = [(a[1][1], y) for a, y in st.facts.items() if a[0] == "eq" and is_c(a[1]) and isinstance(a[1][1], str) and "scheme" in str(a[2])]
                        plain = ("tcp", True) in sch
                        if ct:
                            ctx.require(plain and not ce, "plain connections only for the scheme tcp", "S02:plain:" + short, w, "an unencrypted connection is made for %s" % (
                                [s for s, y in sch] or "every scheme"), st)
                        else:
                            ctx.require(n == TRUE and not plain, "encryption expected for an encrypted connection", "S02:flag:" + short, w,
                                        "connecting encrypted, but the connection does not wait for the encryption" if n != TRUE else "encrypting a plain url", st)
                    elif n != ssl:
                        ctx.require(n == TRUE, "nothing else drops the encryption", "S02:drop:" + short, w, "%s sets the encryption flag to %s" % (f["n"], show(n)), st)
                for e in lg(st, "open"):
                    a0 = e[2][0] if e[2] else VOID
                    url = ("f", THIS, p.field(PC, "m_serverUrl", r"QUrl"))
                    pr = [q for q in params_of(f) if "QUrl" in q[3]]
                    ctx.require(a0 == url or a0 in pr or a0 == I2.load(st, ("fl", THIS, url[2])), "the url of the application is opened", "S02:url:" + short, w, "opens %s" % show(a0)[:80], st)
                    ctx.ok("encryption follows the url")
    # ---- verification is never switched off by the library
    n = 0
    for f in p.fns.values():
        if not f["file"].startswith("libnymea-remoteproxyclient/"):
            continue
        n += 1
        for nd in walk([f["body"], f.get("inits", [])]):
            if nd.get("k") not in ("call", "emit"):
                continue
            nm = str(nd.get("n", "")).rsplit("::", 1)[-1]
            wh = "%s:%s (%s)" % (f["file"], nd.get("l"), f["n"])
            if nm == "ignoreSslErrors":
                ctx.require(f["n"].endswith("::ignoreSslErrors"), "TLS errors are ignored only on request of the application", "S02:ignore:" + f["n"], wh, "%s ignores TLS errors" % f["n"])
            if nm in ("setPeerVerifyMode", "setPeerVerifyDepth", "setSslConfiguration", "setPeerVerifyName", "setProtocol", "setDefaultConfiguration", "setCaCertificates"):
                ctx.bad("S02:verify:%s" % f["n"], wh, "%s changes the certificate verification (%s)" % (f["n"], nm))
    for c in p.connections:
        f = p.fns.get(c["fn"], {"file": ""})
        if f["file"].startswith("libnymea-remoteproxyclient/") and c["slot"] and c["slot"].split("(")[0].endswith("::ignoreSslErrors"):
            ctx.bad("S02:ignore-slot:%s" % f["n"], "%s:%s (%s)" % (f["file"], c["l"], f["n"]), "TLS errors are ignored automatically")
    ctx.ok("functions searched for switching off the verification", n)
    # the API classes report TLS errors as well
    for K in ("TunnelProxySocketServer", "TunnelProxyRemoteConnection"):
        cs = [c for c in p.connections if p.fns.get(c["fn"], {}).get("cls") == NC + K and c["sig"] and c["sig"].split("(")[0].endswith("ProxyConnection::sslErrors")]
        ok = any(c["slot"] and c["slot"].split("(")[0] == NC + K + "::sslErrors" for c in cs)
        ctx.require(ok, "TLS errors are reported to the application", "S02:report:" + K, NC + K, "%s does not report the TLS errors of its connection" % K)
    for k, nn in (("connected only when encrypted", 2), ("plain connections only for the scheme tcp", 1), ("encryption expected for an encrypted connection", 1),
                  ("TLS errors are reported to the application", 4), ("TLS errors are ignored only on request of the application", 4), ("connected reported", 3)):
        ctx.need(nn, k)


def is_fwd(a, name):
    for q in a[2:]:
        if q[0] == "fn" and q[1].split("(")[0].endswith("::" + name):
            return True
        if is_c(q) and isinstance(q[1], str) and q[1][1:].split("(")[0] == name:
            return True
    return False


def hs_cls(ctx, K, hs):
    """string based connections: the slot is looked up in the class itself"""
    p = ctx.p
    for sg, l in hs.items():
        for h in l:
            if h.caps is None and h.fn.get("cls") != K:
                c = [f for f in bodies(p, K) if f["n"].rsplit("::", 1)[-1] == h.fn["n"].rsplit("::", 1)[-1]]
                if c:
                    h.fn = c[0]


# ============================================================================ C06
def check_C06(ctx):
    """the connections of the client libraries follow their socket"""
    p = ctx.p
    NC = "remoteproxyclient::"
    PC = NC + "ProxyConnection"
    subs = [c for c in sorted(p.subs.get(PC, ())) if not p._abstract(c) and c.startswith(NC)]
    if len(subs) < 2:
        raise AnalysisError("expected two proxy connections, found %s" % subs)
    cname = p.field(PC, "m_connected", r"^bool$")
    conn = ("f", THIS, cname)
    uname = p.field(PC, "m_serverUrl", r"QUrl")
    for K in subs:
        short = K.rsplit("::", 1)[-1]
        ctor = [f for f in bodies(p, K) if f["n"] == K + "::" + short][0]
        sockf = [f for f in p.classes[K]["fields"] if f["t"].endswith("Socket *")]
        if len(sockf) != 1:
            raise AnalysisError("socket of %s not found" % K)
        sock = ("f", THIS, sockf[0]["n"])
        tls = "QSslSocket" in sockf[0]["t"]
        ssl = ("f", THIS, p.field(K, "m_ssl", r"^bool$")) if tls else None
        res, I = ctx.run(ctor, Net(None))
        hs, fwd = {}, set()
        for st, v in res:
            s = I.load(st, ("fl", THIS, sockf[0]["n"]))
            for e in lg(st, "connect"):
                if e[2] and e[2][0] == s and any(is_fwd(e[2], n) for n in ("errorOccurred", "stateChanged")):
                    fwd.add(sig_name(e[2][1]))
            for sg, h in handlers(ctx, [(st, v)], s).items():
                hs.setdefault(sg, []).extend(h)
            hs_cls(ctx, K, hs)

        def runs(f, caps=None):
            r, J = ctx.run(f, Net(None), caps=caps)
            for st, v in r:
                yield st, J, J.load(st, ("fl", THIS, cname)), fnwhere(f)

        def never(J, st, t, val):
            """the term cannot have the value on this path"""
            d = J.decide(t, st)
            if d is not None:
                return d is not val
            # on a path that knows the old value to be equal to another term
            for q in {t} | {y for f, z in st.facts.items() if z and f[0] == "eq" and t in f[1:] for y in f[1:]}:
                d = J.decide(q, st)
                if d is not None:
                    return d is not val
            return not J.assume(t, st.copy(), val)

        def reported(st, J, now, w):
            em = lg(st, "emit.connectedChanged")
            if now == conn or J.decide(J.mk_eq(now, conn), st) is True:
                ctx.require(not em, "a change of the connection is reported once", "C06:%s:report" % short, w, "connectedChanged although the connection did not change", st)
            else:
                ctx.require(len(em) == 1 and em[0][2][0] == now, "a change of the connection is reported once", "C06:%s:report" % short, w,
                            "the connection becomes %s, reported %d times" % (show(now)[:30], len(em)), st)
        st_h = hs.get("stateChanged", [])
        er_h = hs.get("errorOccurred", []) + hs.get("error", [])
        where = fnwhere(ctor)
        ctx.require(bool(st_h) or "stateChanged" in fwd, "state changes are reported", "C06:%s:state-none" % short, where, "the state of the socket is not followed")
        ctx.require(bool(er_h) or bool(fwd & {"errorOccurred", "error"}), "errors are reported", "C06:%s:error-none" % short, where, "errors of the socket are not reported")
        total = {}
        for h in st_h:
            a = params_of(h.fn)[0]
            for st, J, now, w in runs(h.fn, h.caps):
                em = lg(st, "emit.stateChanged")
                total.setdefault(h.fn["f"], set()).add(len(em))
                ctx.require(all(e[2][0] == a for e in em), "state changes are reported", "C06:%s:state-value" % short, w, "the state reported is %s" % [show(e[2][0])[:40] for e in em], st)
                for want in (True, False):
                    for x in J.assume(J.mk_eq(C(3), a), st.copy(), want):
                        if not want:
                            ctx.require(never(J, x, now, True), "connected only while the socket is", "C06:%s:down" % short, w, "the connection may stay connected although its socket is not", x)
                        for y in J.assume(ssl, x.copy(), False) if ssl is not None and want else [x] if want else []:
                            ctx.require(never(J, y, now, False), "connected when the socket is", "C06:%s:up" % short, w, "the connection is not connected although its socket is", y)
                reported(st, J, now, w)
        n = sum(min(x) for x in total.values()), sum(max(x) for x in total.values())
        one = n == (1, 1) if "stateChanged" not in fwd else n == (0, 0)
        ctx.require(one, "state changes are reported", "C06:%s:state" % short, fnwhere(st_h[0].fn) if st_h else where, "a state change of the socket is reported %s times" % (
            "/".join(str(x) for x in sorted(set(n)))))
        for h in er_h:
            a = params_of(h.fn)[0]
            for st, J, now, w in runs(h.fn, h.caps):
                em = lg(st, "emit.errorOccurred")
                ctx.require(len(em) == 1 and em[0][2][0] == a, "errors are reported", "C06:%s:error" % short, w, "an error of the socket is reported %d times" % len(em), st)
        for h in hs.get("disconnected", []):
            for st, J, now, w in runs(h.fn, h.caps):
                ctx.require(J.decide(now, st) is False, "connected only while the socket is", "C06:%s:lost" % short, w, "the connection stays connected when its socket disconnects", st)
                reported(st, J, now, w)
        if tls:
            ctx.require(bool(hs.get("encrypted")), "connected when the socket is", "C06:%s:enc-none" % short, where, "the end of the handshake is not noticed")
        for h in hs.get("encrypted", []) if tls else []:
            for st, J, now, w in runs(h.fn, h.caps):
                ctx.require(J.decide(now, st) is True, "connected when the socket is", "C06:%s:enc" % short, w, "the connection is not connected after the handshake", st)
                reported(st, J, now, w)
        # ---- requests of the application
        for f in bodies(p, K):
            m = f["n"].rsplit("::", 1)[-1]
            if m == "disconnectServer":
                for st, J, now, w in runs(f):
                    cl = [e for e in lg(st, *(CLOSERS + HARD)) if e[1] == sock]
                    idle = any(y and a[0] == "eq" and a[1] == C(0) and a[2][0] == "call" and a[2][1].endswith("::state") for a, y in st.facts.items())
                    ctx.require(bool(cl) or idle, "disconnecting closes the socket in every state", "C06:%s:close" % short, w, "disconnecting leaves a socket open that is not (yet) connected", st)
            elif m == "connectServer":
                a = params_of(f)[0]
                for st, J, now, w in runs(f):
                    ctx.require(J.load(st, ("fl", THIS, uname)) == a, "the given url is used", "C06:%s:url" % short, w, "the url becomes %s" % show(J.load(st, ("fl", THIS, uname)))[:60], st)
                    op = [e for e in lg(st, "connectToHost", "connectToHostEncrypted", "open") if e[1] == sock]
                    if not ctx.require(len(op) == 1, "connecting opens the socket once", "C06:%s:open" % short, w, "the socket is opened %d times" % len(op), st):
                        continue
                    if op[0][0] != "open":
                        for i, part in ((0, "host"), (1, "port")):
                            q = op[0][2][i] if len(op[0][2]) > i else VOID
                            ok = any(t[0] == "call" and t[1] == "QUrl::" + part and t[2] in (a, ("f", THIS, uname)) for t in subterms(q))
                            ctx.require(ok, "the given url is used", "C06:%s:%s" % (short, part), w, "the %s is %s" % (part, show(q)[:60]), st)
            elif m == "ignoreSslErrors":
                a = params_of(f)
                for st, J, now, w in runs(f):
                    ig = [e for e in lg(st, "ignoreSslErrors") if e[1] == sock]
                    ok = len(ig) == 1 and ([x for x in ig[0][2] if x != VOID] == a[:1] if a else not [x for x in ig[0][2] if x != VOID])
                    ctx.require(ok, "exactly the errors the application accepts are ignored", "C06:%s:ignore:%d" % (short, len(a)), w,
                                "ignoreSslErrors(%s) is passed on as %s" % ("errors" if a else "", [[show(x)[:30] for x in e[2]] for e in ig]), st)
    # ---- and the API classes pass it on
    for cls in ("TunnelProxySocketServer", "TunnelProxyRemoteConnection"):
        for f in bodies(p, NC + cls):
            if f["n"].rsplit("::", 1)[-1] != "ignoreSslErrors":
                continue
            a = params_of(f)
            r, J = ctx.run(f, Net(None, [k for s in subs + [PC] for k in (s + "::ignoreSslErrors",)], [PC + "::ignoreSslErrors"] + [s + "::ignoreSslErrors" for s in subs]))
            for st, v in r:
                ig = lg(st, "ignoreSslErrors", "enter.ignoreSslErrors")
                ok = not ig or (len(ig) == 1 and ([x for x in ig[0][2] if x != VOID] == a[:1] if a else not [x for x in ig[0][2] if x != VOID]))
                ctx.require(ok, "exactly the errors the application accepts are ignored", "C06:%s:ignore:%d" % (cls, len(a)), fnwhere(f), "ignoreSslErrors is passed on as %s" % (
                    [[show(x)[:30] for x in e[2]] for e in ig]), st)
    for k, nn in (("state changes are reported", 4), ("errors are reported", 4), ("connected only while the socket is", 4), ("disconnecting closes the socket in every state", 2),
                  ("exactly the errors the application accepts are ignored", 6), ("connecting opens the socket once", 2)):
        ctx.need(nn, k)
