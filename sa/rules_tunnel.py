"""Rules for the tunnel: routing (T01,T02), addresses/registration (A01..A04), departures (D01..D03)."""
from framework import *

NSRV = "remoteproxy::JsonRpcServer"


def fits16(I, st, x, t):
    """the truncation t of x keeps the value: x was tested to fit, or found equal to its truncation"""
    return I.decide(I.mk_lt(x, C(1 << t[2])), st) is True or I.decide(I.mk_eq(t, x), st) is True


def slot(ctx, sig, cls):
    s = [x for x in ctx.p.slots_of(sig, cls) if ctx.p.fns.get(x)]
    if len(s) != 1:
        raise AnalysisError("expected one slot of %s for %s, found %d" % (cls, sig, len(s)))
    return ctx.p.fns[s[0]]


class Base(Monitor):
    def __init__(self, R):
        self.R = R
        self.opaque = R.CODEC | {"remoteproxy::TunnelProxyClient::processData", "remoteproxy::TransportClient::processData",
                                 NSRV + "::processData", NSRV + "::processDataPacket", "remoteproxy::Engine::instance"}


def inc(st, k):
    st.ghost[k] = min(st.ghost.get(k, 0) + 1, 2)


# ============================================================================ T01 / T02
class DataMon(Base):
    """one data event: every transport send is checked against the routing specification when it happens"""

    def __init__(self, R, ctx):
        Base.__init__(self, R)
        self.ctx = ctx
        self.cid = ("p", 0)
        self.loops = set()
        self.lastfr = None

    def setup(self, fn):
        ps = fn["params"]
        self.fn = fn
        self.id = ("p", 0, ps[0]["n"], ps[0]["t"])
        self.data = ("p", 1, ps[1]["n"], ps[1]["t"])
        self.pcl = self.R.pc(self.id)
        self.cc = self.R.cc_of(self.pcl)
        self.cc_sc = ("f", self.cc, self.R.cc_sc)
        self.sc = self.R.sc_of(self.pcl)
        self.ty = ("f", self.pcl, self.R.type)
        return [self.id, self.data]

    def is_type(self, st, t):
        return self.I.decide(self.I.mk_eq(("f", self.pcl, self.R.type), C(t)), st)

    def event(self, st, ev):
        R, I, ctx = self.R, self.I, self.ctx
        if R.is_send(ev):
            T = R.client_of(ev, I, st)
            fr = self.frame_elem(ev)
            if fr is not None:
                self.server_send(st, ev, T, fr)
            else:
                self.client_send(st, ev, T)
            inc(st, "sends")
        elif R.is_kill(ev):
            inc(st, "kills")
        elif ev.kind in ("call", "enter") and ev.name in (NSRV + "::processData", NSRV + "::processDataPacket"):
            inc(st, "json")
            self.json_event(st, ev)

    def frame_elem(self, ev):
        """('elem', R, lid) of the decoded frame loop whose frame this payload is"""
        for t in subterms(ev.args[1]):
            if t[0] == "elem" and t[1][0] == "call" and t[1][1].endswith("::processData"):
                return t
        return None

    def json_event(self, st, ev):
        pass

    def client_send(self, st, ev, T):
        pass

    def server_send(self, st, ev, T, fr):
        pass


class T01(DataMon):
    def client_send(self, st, ev, T):
        R, I, ctx = self.R, self.I, self.ctx
        w = ev.where()
        if self.is_type(st, R.T_CLIENT) is not True:
            ctx.bad("T01:send-not-client:%s" % ev.fr.fn["n"], w, "raw transport data is forwarded for a connection that is not registered as client", st)
            return
        want = ("f", self.cc_sc, R.sc_tc)
        if T is None or T != want:
            ctx.bad("T01:target:%s" % ev.fr.fn["n"], w, "client data is sent to %s instead of the client's own server connection" % show(T or ev.obj), st)
            return
        ctx.ok("forwarded to the server the client is registered with")
        sp = R.slip_payload(ev.args[1], I)
        if sp is None:
            ctx.bad("T01:frame:%s" % ev.fr.fn["n"], w, "client data is not sent as one encoded SLIP frame: %s" % show(ev.args[1])[:200], st)
            return
        ctx.require(sp[0] == ("f", self.cc, R.cc_addr), "frame carries the client's own address", "T01:address:%s" % ev.fr.fn["n"], w,
                    "frame address is %s" % show(sp[0]), st)
        ctx.require(sp[1] == self.data, "payload is the received data", "T01:payload:%s" % ev.fr.fn["n"], w,
                    "frame payload is %s" % show(sp[1]), st)

    def json_event(self, st, ev):
        if self.is_type(st, self.R.T_CLIENT) is not False and self.is_type(st, self.R.T_NONE) is not True \
                and self.is_type(st, self.R.T_SERVER) is not True:
            self.ctx.bad("T01:json:%s" % ev.fr.fn["n"], ev.where(), "data of a registered client may reach the JSON-RPC server", st)


def excused(m, st, extra=()):
    """reasons for which nothing has to be forwarded"""
    I, R = m.I, m.R
    if is_null(I, st, m.pcl) is True:
        return True
    if truth(I, st, ("f", m.pcl, R.killed)) is True:
        return True
    return any(is_null(I, st, t) is True for t in extra)


def nodata(m, st):
    return m.I.decide(m.I.mk_eq(("count", m.data), C(0)), st) is True


def check_T01(ctx):
    R = Roles(ctx.p)
    fn = slot(ctx, R.TI + "::dataAvailable", R.S)
    m = T01(R, ctx)
    args = m.setup(fn)
    res, I = ctx.run(fn, m, args=args)
    tc = ("f", m.cc_sc, R.sc_tc)
    for st, v in res:
        ty = m.is_type(st, R.T_CLIENT)
        if ty is False or m.is_type(st, R.T_NONE) is True or m.is_type(st, R.T_SERVER) is True:
            continue
        n = st.ghost.get("sends", 0)
        none = excused(m, st, (m.cc, m.cc_sc))
        if none:
            ctx.require(n == 0, "nothing is sent when there is no live server", "T01:spurious", fnwhere(fn),
                        "data is sent although the sender is unknown or has no live server", st)
        elif is_null(I, st, ("f", tc, R.iface)) is True or (n == 0 and nodata(m, st)):
            ctx.ok("no transport interface or no data")
        else:
            ctx.require(n == 1, "client data forwarded exactly once", "T01:count%d" % n, fnwhere(fn),
                        "a path of the data handler forwards the data of a registered client %s" % ("more than once" if n else "not at all"), st)
    ctx.need(1, "client data forwarded exactly once")
    ctx.need(1, "payload is the received data")
    ctx.need(1, "nothing is sent when there is no live server")


class T02(DataMon):
    def __init__(self, R, ctx):
        DataMon.__init__(self, R, ctx)
        self.frames_seen = set()

    def frames(self):
        for n in ("remoteproxy::TunnelProxyClient::processData", "remoteproxy::TransportClient::processData"):
            yield n

    def is_frames(self, t):
        return t[0] == "call" and t[1].endswith("::processData") and t[2] == self.pcl and t[3] == (self.data,)

    def parsed(self, e):
        return ("call", self.R.PARSE, None, (e,))

    def server_send(self, st, ev, T, e):
        R, I, ctx = self.R, self.I, self.ctx
        w = ev.where()
        fn = ev.fr.fn["n"]
        if not self.is_frames(e[1]):
            ctx.bad("T02:source:%s" % fn, w, "forwarded frames do not come from the sender's own reassembly buffer", st)
            return
        A = ("f", self.parsed(e), R.fr_addr)
        D = ("f", self.parsed(e), R.fr_data)
        if self.is_type(st, R.T_SERVER) is not True:
            ctx.bad("T02:notserver:%s" % fn, w, "a frame is forwarded for a connection not registered as server", st)
        cc = ("get", ("f", self.sc, R.sc_addr), A)
        want = ("f", cc, R.cc_tc)
        ctx.require(T == want, "frame goes to the client owning the address at the sending server", "T02:target:%s" % fn, w,
                    "server data for the frame address is sent to %s" % show(T or ev.obj)[:300], st)
        ctx.require(ev.args[1] == D, "client receives exactly the frame payload", "T02:payload:%s" % fn, w,
                    "the client receives %s" % show(ev.args[1])[:200], st)
        ctx.require(I.decide(I.mk_eq(A, C(0)), st) is False, "address 0 is never forwarded", "T02:mgmt:%s" % fn, w,
                    "a frame for the management address 0 may be forwarded to a client", st)
        inc(st, "it_sends")

    def client_send(self, st, ev, T):
        if self.is_type(st, self.R.T_SERVER) is not False and self.is_type(st, self.R.T_CLIENT) is not True:
            self.ctx.bad("T02:raw:%s" % ev.fr.fn["n"], ev.where(), "raw data of a server is forwarded: %s" % show(ev.args[1])[:200], st)

    def json_event(self, st, ev):
        R, I, ctx = self.R, self.I, self.ctx
        if ev.name.endswith("processDataPacket"):
            e = None
            for t in subterms(ev.args[1]):
                if t[0] == "elem" and self.is_frames(t[1]):
                    e = t
            if e is None:
                return
            A = ("f", self.parsed(e), R.fr_addr)
            D = ("f", self.parsed(e), R.fr_data)
            w, fn = ev.where(), ev.fr.fn["n"]
            ctx.require(I.decide(I.mk_eq(A, C(0)), st) is True, "only address 0 reaches the management interface", "T02:json-addr:%s" % fn, w,
                        "a frame whose address is not 0 is handled as management request", st)
            ctx.require(ev.args[0] == self.pcl and ev.args[1] == D, "management frame is attributed to its sender", "T02:json-args:%s" % fn, w,
                        "management frame handed over as (%s, %s)" % (show(ev.args[0]), show(ev.args[1])), st)
            inc(st, "it_json")
        elif self.is_type(st, R.T_SERVER) is True:
            ctx.require(truth(I, st, ("f", self.pcl, R.slip)) is False, "unframed requests only before SLIP is enabled", "T02:unframed:%s" % ev.fr.fn["n"],
                        ev.where(), "data of a server with framing enabled is parsed without framing", st)

    def loop_iter(self, interp, loop, st_in, outs):
        lid, Rt, fr, it = loop
        R, I, ctx = self.R, self.I, self.ctx
        if Rt is None or not self.is_frames(Rt):
            return
        e = ("elem", Rt, lid)
        A = ("f", self.parsed(e), R.fr_addr)
        cc = ("get", ("f", self.sc, R.sc_addr), A)
        w = "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"])
        for kind, x, v in outs:
            ns, nj = x.ghost.pop("it_sends", 0), x.ghost.pop("it_json", 0)
            x.ghost["looped"] = 1
            killed = truth(I, x, ("f", self.pcl, R.killed)) is True
            if killed:
                ctx.require(ns == 0 and nj == 0, "killed connection: frame ignored", "T02:killed", w, "frames of a killed connection are handled", x)
                continue
            ctx.require(kind in ("n", "k"), "one frame never ends the handling of the following ones", "T02:abort", w,
                        "a frame ends the handling of all following frames of the same read", x)
            a0 = I.decide(I.mk_eq(A, C(0)), x)
            if a0 is True:
                ctx.require(nj == 1 and ns == 0, "management frame handled exactly once", "T02:mgmt-count", w, "management frame handled %d times" % nj, x)
            elif is_null(I, x, cc) is True or is_null(I, x, self.sc) is True:
                ctx.require(ns == 0 and nj == 0, "frame for an unknown address is dropped", "T02:unknown", w,
                            "a frame for an address without client is delivered somewhere", x)
            elif is_null(I, x, ("f", ("f", cc, R.cc_tc), R.iface)) is True:
                ctx.ok("no transport interface")
            else:
                ctx.require(ns == 1 and nj == 0, "frame forwarded exactly once", "T02:count", w,
                            "a path handles a frame for a connected client with %d sends" % ns, x)


def check_T02(ctx):
    R = Roles(ctx.p)
    fn = slot(ctx, R.TI + "::dataAvailable", R.S)
    m = T02(R, ctx)
    args = m.setup(fn)
    res, I = ctx.run(fn, m, args=args)
    for st, v in res:
        if m.is_type(st, R.T_SERVER) is False or m.is_type(st, R.T_CLIENT) is True or m.is_type(st, R.T_NONE) is True:
            continue
        if excused(m, st) or nodata(m, st):
            continue
        if truth(I, st, ("f", m.pcl, R.slip)) is False:
            ctx.require(st.ghost.get("json", 0) == 1, "unframed server data handled by the management interface", "T02:preslip", fnwhere(fn),
                        "data of a server before framing is enabled is not handled exactly once", st)
            continue
        empty = any(a[0] == "eq" and a[1] == C(0) and a[2][0] == "count" and m.is_frames(a[2][1]) and v for a, v in st.facts.items())
        ctx.require(st.ghost.get("looped") or empty, "every read of a server is split into frames", "T02:noframes", fnwhere(fn),
                    "a path ignores the data of a registered server", st)
    ctx.need(1, "frame forwarded exactly once")
    ctx.need(1, "management frame handled exactly once")
    ctx.need(1, "frame for an unknown address is dropped")


# ============================================================================ registrations
class RegMon(Base):
    """registerServer / registerClient / disconnectClient of the tunnel server, with the notification path opaque"""

    def __init__(self, R, ctx):
        Base.__init__(self, R)
        self.ctx = ctx
        self.R = R
        self.opaque = self.opaque | {NSRV + "::sendNotification"}
        self.addr_writes = 0
        self.wsites = set()

    def event(self, st, ev):
        if ev.kind in ("call", "enter") and ev.name == NSRV + "::sendNotification":
            inc(st, "notes")
            st.ghost["note"] = tuple(ev.args)
            st.ghost["note_addr"] = self.snapshot(st, ev)
        elif self.R.is_kill(ev):
            inc(st, "kills")
            st.ghost["kill"] = self.R.client_of(ev, self.I, st) or ("unknown", ev.obj)
        elif self.R.is_send(ev):
            inc(st, "sends")

    def snapshot(self, st, ev):
        return 0


def reg_entry(ctx, R, name, arity=None):
    return ctx.p.fn(R.S + "::" + name)


def pargs(fn):
    return [("p", i, p["n"], p["t"]) for i, p in enumerate(fn["params"])]


def tab(st, I, field, this=("this",)):
    return fieldval(st, I, this, field)


def registrations(ctx, R):
    """run both registration entries; yields (kind, fn, monitor, interp, results, roles of the arguments)"""
    p = ctx.p
    for kind in ("server", "client"):
        fn = reg_entry(ctx, R, "registerServer" if kind == "server" else "registerClient")
        a = pargs(fn)
        m = RegMon(R, ctx)
        res, I = ctx.run(fn, m)
        uu = [x for x in a if "QUuid" in x[3]]
        nm = [x for x in a if "QString" in x[3]]
        if len(uu) != (2 if kind == "server" else 3) or len(nm) != 1:
            raise AnalysisError("unexpected signature of %s" % fn["f"])
        yield kind, fn, m, I, res, {"id": uu[0], "uuid": uu[1], "server": uu[-1], "name": nm[0]}


def noerror(ctx, R):
    en = ctx.p.enums.get(R.S + "::TunnelProxyError")
    if not en:
        raise AnalysisError("enum TunnelProxyError not found")
    return {e["n"].rsplit("::", 1)[-1]: e["v"] for e in en["v"]}


def check_A02(ctx):
    R = Roles(ctx.p)
    E = noerror(ctx, R)
    OKV = C(E["TunnelProxyErrorNoError"])
    for kind, fn, m, I, res, a in registrations(ctx, R):
        pc = R.pc(a["id"])
        w = fnwhere(fn)
        for st, v in res:
            ver = I.decide(I.mk_eq(v, OKV), st)
            if ver is not False:
                # success: all the preconditions must have been established
                def pre(cond, what):
                    ctx.require(cond, "%s registration: %s" % (kind, what), "A02:%s:%s" % (kind, what), w,
                                "a %s registration can succeed without %s" % (kind, what), st)
                pre(is_null(I, st, pc) is False, "a known connection")
                pre(I.decide(I.mk_eq(("f", pc, R.type), C(R.T_NONE)), st) is True, "the connection being unregistered")
                for t, n in ((R.sctab, "uuid unused by servers"), (R.cctab, "uuid unused by clients")):
                    T = ("f", ("this",), t)
                    pre(I.decide(I.has(T, a["uuid"]), st) is False or is_null(I, st, I.get(T, a["uuid"])) is True, n)
                if kind == "client":
                    pre(is_null(I, st, I.get(("f", ("this",), R.sctab), a["server"])) is False, "the requested server being connected")
            if ver is not True:
                # refusal: nothing may have changed
                def same(t, what):
                    ctx.require(t, "refused %s registration: %s" % (kind, what), "A02:refused-%s:%s" % (kind, what), w,
                                "a refused %s registration: not (%s)" % (kind, what), st)
                for f, n in ((R.sctab, "server table unchanged"), (R.cctab, "client table unchanged")):
                    same(tab(st, I, f) == ("f", ("this",), f), n)
                for f, n in ((R.type, "connection stays unregistered"), (R.uuid, "uuid not taken over"), (R.tname, "name not taken over"),
                             (R.slipafter, "framing not enabled"), (R.slip, "framing not switched")):
                    same(fieldval(st, I, pc, f) == ("f", pc, f), n)
                same(st.ghost.get("notes", 0) == 0, "nobody is notified")
                same(st.ghost.get("kills", 0) == 0 and st.ghost.get("sends", 0) == 0, "no other connection is touched")
                for c, x in st.heap.items():
                    if c[0] == "fl" and c[2] in (R.sc_clients, R.sc_addr) and c[1][0] != "new":
                        same(x == ("f", c[1], c[2]), "address table unchanged")
                for c, x in st.heap.items():
                    if c[0] == "fl" and c[1] != pc and c[1][0] != "new" and c[2] in (R.killreq, R.type, R.uuid, R.tname, R.slip, R.slipafter):
                        same(x == ("f", c[1], c[2]), "no other connection is touched")
                if is_null(I, st, pc) is not True:
                    same(fieldval(st, I, pc, R.killreq) == TRUE, "connection is closed after the answer")
                # the error tells why
                if is_null(I, st, pc) is False and kind == "client" and v == C(E["TunnelProxyErrorServerNotFound"]):
                    same(is_null(I, st, I.get(("f", ("this",), R.sctab), a["server"])) is True, "server-not-found only for an unknown server")
    # the request handlers: null uuids never reach the registration
    check_null_uuid(ctx, R, E)
    ctx.need(4, "refused client registration: connection is closed after the answer")
    ctx.need(3, "refused server registration: connection is closed after the answer")


class HandlerMon(Base):
    def __init__(self, R, ctx):
        Base.__init__(self, R)
        self.ctx = ctx
        self.opaque = self.opaque | {R.S + "::registerServer", R.S + "::registerClient", R.S + "::disconnectClient",
                                     "remoteproxy::JsonHandler::createReply", "remoteproxy::JsonTypes::tunnelProxyErrorToString",
                                     "remoteproxy::Engine::tunnelProxyServer"}

    def event(self, st, ev):
        if ev.kind in ("call", "enter") and ev.name in (self.R.S + "::registerServer", self.R.S + "::registerClient", self.R.S + "::disconnectClient"):
            inc(st, "calls")
            st.ghost["call"] = (ev.short(), ev.args, ev.extra)
        if ev.kind in ("call", "enter") and ev.short() == "createReply":
            inc(st, "replies")
            st.ghost["reply"] = ev.args


def qv(t):
    """strip conversions of a QVariant lookup: returns ('get', map, key) under toUuid()/toString()/..."""
    while t[0] == "call" and t[1].startswith("QVariant::to") or t[0] in ("icast",):
        t = t[2] if t[0] == "call" else t[1]
    return t


def handlers(ctx, R, method):
    f = ctx.p.fn("remoteproxy::TunnelProxyHandler::" + method)
    m = HandlerMon(R, ctx)
    res, I = ctx.run(f, m)
    return f, m, res, I


def check_null_uuid(ctx, R, E):
    for method in ("RegisterServer", "RegisterClient"):
        f, m, res, I = handlers(ctx, R, method)
        par = pargs(f)
        w = fnwhere(f)
        tc = par[1]
        for st, v in res:
            call = st.ghost.get("call")
            rep = st.ghost.get("reply")
            if call:
                name, args, extra = call
                ctx.require(name == method[0].lower() + method[1:], "request reaches its own operation", "A02:wrong-op:" + method, w, "%s calls %s" % (method, name), st)
                ctx.require(args[0] == ("f", tc, R.cid), "request is attributed to the requesting connection", "A02:who:" + method, w,
                            "registration is executed for %s" % show(args[0]), st)
                want = {"RegisterServer": ["serverUuid", "serverName"], "RegisterClient": ["clientUuid", "clientName", "serverUuid"]}[method]
                for x, k in zip(args[1:], want):
                    ctx.require(qv(x) == ("get", par[0], C(k)), "request parameter passed on", "A02:param:%s.%s" % (method, k), w,
                                "parameter %s is passed on as %s" % (k, show(x)), st)
                    if k.endswith("Uuid"):
                        isn = None
                        for a, val in st.facts.items():
                            if a[0] == "call" and a[1].endswith("QUuid::isNull") and a[2] == x:
                                isn = val
                            if a[0] == "eq" and x in a[1:] and any(y[0] in ("ctorobj", "obj") and "QUuid" in str(y[1]) for y in a[1:] if isinstance(y, tuple)):
                                isn = val
                        ctx.require(isn is False, "null uuid never registered", "A02:null:%s.%s" % (method, k), w,
                                    "%s proceeds with a null %s" % (method, k), st)
            ctx.require(st.ghost.get("replies", 0) == 1, "one answer per registration request", "A02:reply:" + method, w, "no single reply is created", st)
            if rep:
                err = I.get(rep[-1], C("tunnelProxyError"))
                arg = err[3][0] if err[0] == "call" and err[3] else None
                if call:
                    ctx.require(arg == call[2] or (call[2] and contains_term(err, call[2])), "answer carries the outcome of the operation", "A02:answer:" + method, w,
                                "the answer carries %s" % show(err), st)
                else:
                    ctx.require(arg is not None and is_c(arg) and arg[1] != E["TunnelProxyErrorNoError"], "invalid request is answered with an error",
                                "A02:answer-invalid:" + method, w, "the answer to an invalid request carries %s" % show(err), st)


def check_A03(ctx):
    R = Roles(ctx.p)
    E = noerror(ctx, R)
    OKV = C(E["TunnelProxyErrorNoError"])
    for kind, fn, m, I, res, a in registrations(ctx, R):
        pc = R.pc(a["id"])
        w = fnwhere(fn)
        for st, v in res:
            if I.decide(I.mk_eq(v, OKV), st) is False:
                continue

            def req(c, what):
                ctx.require(c, "%s registration commits: %s" % (kind, what), "A03:%s:%s" % (kind, what), w,
                            "a successful %s registration does not commit: %s" % (kind, what), st)
            g = lambda o, f: fieldval(st, I, o, f)
            req(g(pc, R.type) == C(R.T_SERVER if kind == "server" else R.T_CLIENT), "connection type")
            req(g(pc, R.uuid) == a["uuid"], "connection uuid")
            req(g(pc, R.tname) == a["name"], "connection name")
            sct, cct = tab(st, I, R.sctab), tab(st, I, R.cctab)
            req(st.ghost.get("kills", 0) == 0 and g(pc, R.killreq) == ("f", pc, R.killreq), "connection kept")
            if kind == "server":
                sc = I.get(sct, a["uuid"])
                req(sc[0] == "new" and sc[1] == R.SC and sct[0] == "ins" and sct[1] == ("f", ("this",), R.sctab), "server table entry")
                req(cct == ("f", ("this",), R.cctab), "client table unchanged")
                if sc[0] == "new":
                    req(g(sc, R.sc_tc) == pc, "server entry belongs to the requesting connection")
                    req(g(sc, R.sc_uuid) == a["uuid"], "server entry uuid")
                req(g(pc, R.slipafter) == TRUE, "framing requested after the answer")
                req(g(pc, R.slip) == ("f", pc, R.slip), "framing not switched before the answer")
            else:
                cc = I.get(cct, a["uuid"])
                sc = I.get(("f", ("this",), R.sctab), a["server"])
                req(cc[0] == "new" and cc[1] == R.CC and cct[0] == "ins" and cct[1] == ("f", ("this",), R.cctab), "client table entry")
                req(sct == ("f", ("this",), R.sctab), "server table unchanged")
                req(g(pc, R.slipafter) == ("f", pc, R.slipafter), "framing stays off for clients")
                if cc[0] == "new":
                    req(g(cc, R.cc_tc) == pc, "client entry belongs to the requesting connection")
                    req(g(cc, R.cc_uuid) == a["uuid"], "client entry uuid")
                    req(g(cc, R.cc_sc) == sc, "client entry points to the requested server")
                    addr = g(cc, R.cc_addr)
                    at = g(sc, R.sc_addr)
                    ct = g(sc, R.sc_clients)
                    req(at[0] == "ins" and at[1] == ("f", sc, R.sc_addr) and at[2] == addr and at[3] == cc, "address table entry of the requested server")
                    req(ct[0] == "ins" and ct[1] == ("f", sc, R.sc_clients) and ct[2] == a["uuid"] and ct[3] == cc, "client list entry of the requested server")
    ctx.need(1, "server registration commits: server table entry")
    ctx.need(1, "client registration commits: address table entry of the requested server")


def check_A01(ctx):
    R = Roles(ctx.p)
    seen = set()

    class M(RegMon):
        def write(self, st, loc, val, fr, node):
            if not (loc[0] == "fl" and loc[2] == R.sc_addr):
                if loc[0] == "fl" and loc[2] == R.cc_addr:
                    self.addr_write(st, loc, val, fr, node)
                return
            w = "%s:%s (%s)" % (fr.fn["file"], (node or {}).get("l", "?"), fr.fn["n"])
            seen.add((fr.fn["f"], (node or {}).get("l")))
            old = self.I.load(st, loc)
            self.table_write(st, loc, old, val, w, fr)

        def table_write(self, st, loc, old, val, w, fr):
            I = self.I
            if val[0] == "ins" and val[1] == old:
                k, cc = val[2], val[3]
                kk = "A01:%s:" % fr.fn["n"]
                free = I.decide(I.has(old, k), st)
                if free is None:
                    free = False if is_null(I, st, I.get(old, k)) is True else None
                ctx.require(free is False, "address is free when assigned", kk + "free", w, "address %s may already be in use" % show(k), st)
                ctx.require(I.decide(I.mk_eq(k, C(0)), st) is False, "address is not the management address 0", kk + "zero", w,
                            "address %s may be the management address 0" % show(k), st)
                ctx.require(I.decide(I.mk_eq(k, C(0xFFFF)), st) is False, "address is not the invalid address 0xFFFF", kk + "ffff", w,
                            "address %s may be the reserved address 0xFFFF" % show(k), st)
                st.ghost["ins"] = (k, cc)
            elif val[0] == "rem" and val[1] == old:
                ctx.ok("address released")
            elif val == EMPTY or val == old:
                ctx.ok("table initialised")
            else:
                ctx.bad("A01:table:%s" % fr.fn["n"], w, "the address table is changed to %s" % show(val)[:200], st)

        def addr_write(self, st, loc, val, fr, node):
            pass

    fns = [f for f in ctx.p.fns.values() if mutates(f, R.sc_addr)]
    m = M(R, ctx)
    reg = reg_entry(ctx, R, "registerClient")
    res, I = ctx.run(reg, m)
    E = noerror(ctx, R)
    for st, v in res:
        if I.decide(I.mk_eq(v, C(E["TunnelProxyErrorNoError"])), st) is not False:
            ins = st.ghost.get("ins")
            ctx.require(ins is not None, "registered client has an address", "A01:noaddr", fnwhere(reg), "a client is registered without an address", st)
            if ins:
                ctx.require(fieldval(st, I, ins[1], R.cc_addr) == ins[0], "the client knows the address it is reachable under", "A01:differs", fnwhere(reg),
                            "the client carries address %s but is reachable under %s" % (show(fieldval(st, I, ins[1], R.cc_addr)), show(ins[0])), st)
    dis = slot(ctx, R.TI + "::clientDisconnected", R.S)
    m2 = M(R, ctx)
    ctx.run(dis, m2)
    visited = ctx.fns
    for f in fns:
        if f["f"] not in visited:
            m3 = M(R, ctx)
            ctx.run(f, m3)
    # a client's address changes only together with its table entry
    for f in ctx.p.fns.values():
        if mutates(f, R.cc_addr) and not f.get("ctor"):
            callers = [g for g in ctx.p.fns.values() if any(n.get("k") == "call" and n.get("f") == f["f"] for n in walk(g["body"]))]
            for g in callers or [f]:
                if mutates(f, R.sc_addr):
                    continue
                ctx.require(mutates(g, R.sc_addr) or reaches_mut(ctx.p, g, R.sc_addr), "address changes only together with the table",
                            "A01:setaddr:%s" % g["n"], fnwhere(g), "%s changes a client's address without updating the address table" % g["n"])
    ctx.need(1, "address is free when assigned")
    ctx.need(1, "the client knows the address it is reachable under")


def reaches_mut(p, g, field, depth=3):
    if mutates(g, field):
        return True
    if depth == 0:
        return False
    for n in walk(g["body"]):
        if n.get("k") == "call" and n.get("f") in p.fns and reaches_mut(p, p.fns[n["f"]], field, depth - 1):
            return True
    return False


MUT = ("insert", "remove", "take", "clear", "erase", "swap", "insertMulti", "append", "unite", "removeAll", "prepend", "takeFirst", "operator[]")


def mutates(f, field):
    """does f's body syntactically modify the given field"""
    def isf(e):
        while e and e.get("k") in ("copy", "icast", "downcast"):
            e = e["e"]
        return bool(e) and e.get("k") == "mem" and e.get("f") == field
    asked = any(n.get("k") == "call" and isf(n.get("obj")) and n["n"].rsplit("::", 1)[-1] == "contains" for n in walk(f["body"]))
    assigned = {id(n["a"]) for n in walk(f["body"]) if n.get("k") == "bin" and n["op"].endswith("=")} if asked else ()
    for n in walk(f["body"]):
        k = n.get("k")
        if k == "call" and isf(n.get("obj")) and not n.get("cm") and (n["n"].rsplit("::", 1)[-1] in MUT or n.get("op") in ("=", "+=", "<<", "[]", "-=")):
            if asked and (n.get("op") == "[]" or n["n"].endswith("operator[]")) and id(n) not in assigned:
                continue        # the entry is known to exist: read
            return True
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and isf(n["a"]):
            return True
        if k == "un" and n["op"] in ("++", "--") and isf(n["e"]):
            return True
    return False


def check_A04(ctx):
    R = Roles(ctx.p)
    E = noerror(ctx, R)
    OKV = C(E["TunnelProxyErrorNoError"])
    for kind, fn, m, I, res, a in registrations(ctx, R):
        pc = R.pc(a["id"])
        w = fnwhere(fn)
        for st, v in res:
            n = st.ghost.get("notes", 0)
            okk = I.decide(I.mk_eq(v, OKV), st)
            if kind == "server" or okk is False:
                ctx.require(n == 0, "no announcement without a new client", "A04:spurious:" + kind, w, "a notification is sent although no client was connected", st)
                continue
            if not ctx.require(n == 1, "exactly one announcement per registered client", "A04:count", w, "%d announcements for one registered client" % n, st):
                continue
            ns, meth, params, target = st.ghost["note"]
            cc = I.get(tab(st, I, R.cctab), a["uuid"])
            sc = I.get(("f", ("this",), R.sctab), a["server"])
            ctx.require(ns == C("TunnelProxy") and meth == C("ClientConnected"), "announcement is ClientConnected", "A04:name", w, "notification %s.%s" % (show(ns), show(meth)), st)
            ctx.require(target == ("f", sc, R.sc_tc), "announcement goes to the requested server", "A04:target", w, "announced to %s" % show(target), st)
            addr = fieldval(st, I, cc, R.cc_addr)
            ctx.require(I.get(params, C("socketAddress")) == addr and addr[0] != "undef", "announcement carries the assigned address", "A04:address", w,
                        "announced address %s, assigned %s" % (show(I.get(params, C("socketAddress"))), show(addr)), st)
            for k, t in (("clientUuid", a["uuid"]), ("clientName", a["name"]), ("clientPeerAddress", ("f", pc, R.peer))):
                x = I.get(params, C(k))
                while x[0] == "call" and x[1].endswith("::toString"):
                    x = x[2]
                ctx.require(x == t, "announcement describes the client", "A04:" + k, w, "announced %s is %s" % (k, show(x)), st)
    ctx.need(1, "exactly one announcement per registered client")
    ctx.need(3, "no announcement without a new client")
    # the wire format of notifications is checked together with the other messages (J04)


# ============================================================================ departures
class DisMon(RegMon):
    def __init__(self, R, ctx):
        RegMon.__init__(self, R, ctx)
        self.kills = []

    def event(self, st, ev):
        R, I = self.R, self.I
        RegMon.event(self, st, ev)
        if R.is_kill(ev):
            T = R.client_of(ev, I, st)
            if T is not None and T[0] == "f" and T[2] == R.cc_tc and T[1][0] == "elem":
                st.ghost[("mark", T[1], "killed")] = 1
            else:
                st.ghost["otherkill"] = 1
        if ev.kind == "call" and ev.short() == "deleteLater" or ev.kind == "delete":
            st.ghost[("deleted", ev.obj)] = min(st.ghost.get(("deleted", ev.obj), 0) + 1, 2)
        if ev.kind == "enter" and ev.name == NSRV + "::unregisterClient":
            st.ghost[("unreg", ev.args[0])] = 1

    def loop_iter(self, interp, loop, st_in, outs):
        lid, Rt, fr, it = loop
        if Rt is None:
            return
        e = ("elem", Rt, lid)
        for kind, x, v in outs:
            if interp.load(x, ("fl", e, self.R.cc_sc)) == NULL:
                x.ghost[("mark", e, "unlinked")] = 1
            tc = ("f", e, self.R.cc_tc)
            if is_null(interp, x, e) is True:
                x.ghost[("mark", e, "unlinked")] = 1
                x.ghost[("mark", e, "killed")] = 1
            elif is_null(interp, x, tc) is True or is_null(interp, x, ("f", tc, self.R.iface)) is True:
                x.ghost[("mark", e, "killed")] = 1


def departure(ctx, R):
    fn = slot(ctx, R.TI + "::clientDisconnected", R.S)
    m = DisMon(R, ctx)
    a = pargs(fn)
    res, I = ctx.run(fn, m)
    return fn, m, a, res, I


def unchanged(st, I, field):
    return tab(st, I, field) == ("f", ("this",), field)


def check_D01(ctx):
    R = Roles(ctx.p)
    fn, m, a, res, I = departure(ctx, R)
    pc0 = R.pc(a[0])
    w = fnwhere(fn)
    PCT = ("f", ("this",), R.proxyClients)
    for st, v in res:
        if is_null(I, st, pc0) is True:
            ctx.require(unchanged(st, I, R.sctab) and unchanged(st, I, R.cctab) and not st.ghost.get("notes"), "unknown connection changes nothing",
                        "D01:unknown", w, "the departure of an unknown connection has side effects", st)
            continue
        ctx.require(tab(st, I, R.proxyClients) == ("rem", PCT, a[0]), "connection forgotten", "D01:proxyclients", w, "the departed connection stays registered", st)
        ctx.require(st.ghost.get(("deleted", pc0)) == 1, "connection object released once", "D01:leak", w, "the connection object is released %d times" % st.ghost.get(("deleted", pc0), 0), st)
        ctx.require(("unreg", pc0) in st.ghost, "management state of the connection released", "D01:jsonreg", w, "the JSON-RPC server keeps the departed connection", st)
        if I.decide(I.mk_eq(("f", pc0, R.type), C(R.T_CLIENT)), st) is not True:
            if I.decide(I.mk_eq(("f", pc0, R.type), C(R.T_CLIENT)), st) is False:
                ctx.require(unchanged(st, I, R.cctab), "client table unchanged by other departures", "D01:cctab", w, "a non client departure changes the client table", st)
            continue
        cc = R.cc_of(pc0)
        sc = ("f", cc, R.cc_sc)
        ctx.require(unchanged(st, I, R.sctab), "server table unchanged by a client departure", "D01:sctab", w, "a client departure changes the server table", st)
        if is_null(I, st, cc) is True:
            ctx.require(not st.ghost.get("notes"), "no notification without a client entry", "D01:spurious", w, "notified without a client", st)
            continue
        ctx.require(tab(st, I, R.cctab) == ("rem", ("f", ("this",), R.cctab), ("f", pc0, R.uuid)), "client entry removed", "D01:cctab-rem", w,
                    "the client entry is not removed (%s)" % show(tab(st, I, R.cctab)), st)
        ctx.require(st.ghost.get(("deleted", cc)) == 1, "client entry released", "D01:ccleak", w, "the client entry is not released exactly once", st)
        ctx.require(not st.ghost.get("otherkill") and not st.ghost.get("kills"), "no other connection is closed", "D01:kill", w, "the departure of a client closes a connection", st)
        if is_null(I, st, sc) is True:
            ctx.require(not st.ghost.get("notes"), "no notification without server", "D01:noserver", w, "notified although there is no server", st)
            continue
        ctx.require(fieldval(st, I, sc, R.sc_clients) == ("rem", ("f", sc, R.sc_clients), ("f", cc, R.cc_uuid)), "removed from the server's client list",
                    "D01:clients", w, "the client stays in the server's client list", st)
        ctx.require(fieldval(st, I, sc, R.sc_addr) == ("rem", ("f", sc, R.sc_addr), ("f", cc, R.cc_addr)), "its address is released",
                    "D01:address", w, "the address is not released: %s" % show(fieldval(st, I, sc, R.sc_addr)), st)
        if ctx.require(st.ghost.get("notes", 0) == 1, "server notified exactly once", "D01:notify", w, "the server is notified %d times" % st.ghost.get("notes", 0), st):
            ns, meth, params, target = st.ghost["note"]
            ctx.require(ns == C("TunnelProxy") and meth == C("ClientDisconnected"), "notification is ClientDisconnected", "D01:name", w, "notification %s.%s" % (show(ns), show(meth)), st)
            ctx.require(target == ("f", sc, R.sc_tc), "the server of the client is notified", "D01:target", w, "notified: %s" % show(target), st)
            ctx.require(I.get(params, C("socketAddress")) == ("f", cc, R.cc_addr), "notification carries the client's address", "D01:paramaddr", w,
                        "notified address: %s" % show(I.get(params, C("socketAddress"))), st)
    ent = [reg_entry(ctx, R, "registerServer"), reg_entry(ctx, R, "registerClient"), fn]
    only_from(ctx, (R.sc_clients, R.sc_addr, R.cc_sc, R.sctab, R.cctab), ent, "D01:writer", "who belongs to whom only changes with a registration or a departure")
    ctx.need(1, "server notified exactly once")
    ctx.need(2, "connection forgotten")


def check_D02(ctx):
    R = Roles(ctx.p)
    fn, m, a, res, I = departure(ctx, R)
    pc0 = R.pc(a[0])
    w = fnwhere(fn)
    for st, v in res:
        if is_null(I, st, pc0) is True or I.decide(I.mk_eq(("f", pc0, R.type), C(R.T_SERVER)), st) is False:
            continue
        if I.decide(I.mk_eq(("f", pc0, R.type), C(R.T_CLIENT)), st) is True or I.decide(I.mk_eq(("f", pc0, R.type), C(R.T_NONE)), st) is True:
            continue
        sc = R.sc_of(pc0)
        ctx.require(unchanged(st, I, R.cctab), "the clients' own entries are left to their departure", "D02:cctab", w, "client table changed", st)
        ctx.require(not st.ghost.get("notes"), "no notification to the departed server", "D02:note", w, "the departed server is notified", st)
        if is_null(I, st, sc) is True:
            continue
        ctx.require(tab(st, I, R.sctab) == ("rem", ("f", ("this",), R.sctab), ("f", pc0, R.uuid)), "server entry removed", "D02:sctab", w,
                    "the server entry stays: %s" % show(tab(st, I, R.sctab)), st)
        CL = ("f", sc, R.sc_clients)
        empties = [I.decide(I.mk_eq(("count", X), C(0)), st) for X in (CL, ("f", sc, R.sc_addr))]
        if True in empties:
            ctx.ok("server without clients")
        else:
            for what, msg in (("killed", "connection closed"), ("unlinked", "detached from the server")):
                ok = any(("forall", X, what) in st.ghost for X in (CL, ("f", sc, R.sc_addr), ("keys", CL)))
                ctx.require(ok, "every client of a departed server: " + msg, "D02:" + what, w, "not every client of a departed server is %s" % msg, st)
        ctx.require(not st.ghost.get("otherkill"), "only its own clients are closed", "D02:other", w, "the departure of a server closes another connection", st)
        ctx.require(st.ghost.get(("deleted", sc)) == 1, "server entry released", "D02:leak", w, "the server entry is not released exactly once", st)
    ctx.need(1, "every client of a departed server: connection closed")
    ctx.need(1, "server without clients")


def check_D03(ctx):
    R = Roles(ctx.p)
    E = noerror(ctx, R)
    fn = reg_entry(ctx, R, "disconnectClient")
    a = pargs(fn)
    m = RegMon(R, ctx)
    res, I = ctx.run(fn, m)
    w = fnwhere(fn)
    pc = R.pc(a[0])
    sc = R.sc_of(pc)
    for st, v in res:
        n = st.ghost.get("kills", 0)
        okk = I.decide(I.mk_eq(v, C(E["TunnelProxyErrorNoError"])), st)
        for f in (R.sctab, R.cctab):
            ctx.require(unchanged(st, I, f), "tables are only changed by the departure itself", "D03:table", w, "a disconnect request changes the registration tables", st)
        if okk is False:
            ctx.require(n == 0, "refused request closes nothing", "D03:refused-kill", w, "a refused disconnect request closes a connection", st)
            if v == C(E["TunnelProxyErrorUnknownSocketAddress"]):
                ctx.require(fieldval(st, I, pc, R.killreq) == ("f", pc, R.killreq), "an unknown address does not cost the server its connection", "D03:selfkill", w,
                            "a request for an unknown address closes the requesting server", st)
            elif is_null(I, st, pc) is False and I.decide(I.mk_eq(("f", pc, R.type), C(R.T_SERVER)), st) is False:
                ctx.require(fieldval(st, I, pc, R.killreq) == TRUE, "a requester that is no server is closed", "D03:nonserver", w, "a non server may go on", st)
            continue
        ctx.require(I.decide(I.mk_eq(("f", pc, R.type), C(R.T_SERVER)), st) is True, "only a registered server may disconnect clients", "D03:who", w,
                    "a connection that is no server can disconnect clients", st)
        T = st.ghost.get("kill")
        good = False
        why = "no connection is closed"
        if T is not None and n == 1:
            why = "it closes %s" % show(T)
            if T[0] == "f" and T[2] == R.cc_tc and T[1][0] == "get" and T[1][1] == ("f", sc, R.sc_addr):
                k = T[1][2]
                good = k == a[1]
                if k[0] == "icast" and k[1] == a[1]:
                    good = fits16(I, st, a[1], k)
                    why = "the address is truncated to %d bits" % k[2]
        if is_null(I, st, ("f", T, R.iface)) is True if T else False:
            good = True
        if n == 0 and any(x[0] == "eq" and x[1] == NULL and x[2][0] == "f" and x[2][2] == R.iface and val for x, val in st.facts.items()):
            continue
        ctx.require(good, "exactly the addressed client of the requesting server is closed", "D03:target", w, "a successful disconnect request: " + why, st)
    # the request handler passes the requested address unchanged
    f, m2, res2, I2 = handlers(ctx, R, "DisconnectClient")
    par = pargs(f)
    for st, v in res2:
        call = st.ghost.get("call")
        rep = st.ghost.get("reply")
        ctx.require(st.ghost.get("replies", 0) == 1, "one answer per disconnect request", "D03:reply", fnwhere(f), "no single answer", st)
        if not call:
            continue
        name, args, extra = call
        ctx.require(args[0] == ("f", par[1], R.cid), "request is attributed to the requesting connection", "D03:requester", fnwhere(f), "executed for %s" % show(args[0]), st)
        x = args[1]
        src = ("call", "QVariant::toUInt", ("get", par[0], C("socketAddress")), ())
        good = qv(x) == ("get", par[0], C("socketAddress"))
        if x[0] == "icast" or x[0] == "byte":
            good = x[0] == "icast" and fits16(I2, st, x[1], x)
        ctx.require(good, "requested address is used unchanged", "D03:truncate", fnwhere(f), "the requested address is used as %s" % show(x), st)
        if rep and extra is not None:
            ctx.require(contains_term(I2.get(rep[-1], C("tunnelProxyError")), extra), "answer carries the outcome", "D03:answer", fnwhere(f), "the answer does not carry the outcome", st)
    ctx.need(1, "exactly the addressed client of the requesting server is closed")
    ctx.need(2, "refused request closes nothing")


def lambda_hosts(p, f):
    """the functions that run this lambda on the spot: as the argument of a standard algorithm"""
    from program import lamref
    return [g for g in p.fns.values() if any(n.get("k") == "call" and n["n"].startswith("std::") and any(lamref(a) == f["f"] for a in n["args"])
                                             for n in walk(g["body"]))]


def only_from(ctx, fields, allowed, key, what):
    """who can reach a write of these fields without going through one of the allowed entry points"""
    from rules_json import callers_of
    p = ctx.p
    slots = {c["slot"] for c in p.connections}
    good = {f["f"] for f in allowed}
    for field in fields:
        work = [f for f in p.fns.values() if mutates(f, field) and not f.get("ctor")]
        if not work:
            raise AnalysisError("no writer of %s found" % field)
        direct = {f["f"] for f in work}
        seen = set(direct)
        while work:
            f = work.pop()
            if f["f"] in good:
                ctx.ok(what)
                continue
            cs = callers_of(p, f)
            lam = f["f"].startswith("lambda@")
            if lam:
                cs += [g for g in lambda_hosts(p, f) if g not in cs]
            if lam and not cs or f["f"] in slots or not cs and f["f"] not in direct:
                ctx.bad("%s:%s" % (key, f["n"].rsplit("::", 1)[-1]), fnwhere(f), "%s: %s is also changed from here" % (what, field))
            for g in cs:
                if g["f"] not in seen:
                    seen.add(g["f"])
                    work.append(g)
