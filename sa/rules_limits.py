"""Rules for limits: inactivity timeouts (K01), receive buffer limit (K02), forwarding never closes (K03), request splitting (J06)."""
from framework import *
from rules_client import params_of, THIS, lam_fn
from rules_transport import Net, lg, is_fwd, sig_name, bodies, loc_eq
from rules_tunnel import Base, slot, registrations, noerror, pargs, reg_entry

N = "remoteproxy::"
TPC = N + "TunnelProxyClient"
TC = N + "TransportClient"
TIMER = ("start", "stop", "setInterval", "setSingleShot", "setTimerType", "singleShot", "connect", "disconnect", "deleteLater")


class Tim(Monitor):
    """log of the timer operations, connections, kills and signals"""

    def __init__(self, R, opaque=(), extra=()):
        self.R = R
        self.opaque = frozenset(opaque) | {N + "Engine::instance"}
        self.extra = extra

    def event(self, st, ev):
        s = ev.short()
        k = None
        if self.R.is_kill(ev):
            k = "kill"
        elif ev.kind == "emit":
            k = "emit." + s
        elif ev.kind == "delete":
            k = "delete"
        elif ev.kind == "call" and (s in TIMER) and (ev.name.startswith("QTimer::") or s in ("connect", "disconnect", "deleteLater")):
            k = s
        elif ev.kind in ("enter", "call") and ev.name in self.extra:
            k = "enter." + s
        if k:
            x = (k, ev.obj, ev.args, ev.kind, bool(ev.fr.loops), ev.where())
            if ev.fr.loops and x in st.ghost.get("log", ()):
                return
            st.ghost["log"] = st.ghost.get("log", ()) + ((k, ev.obj, ev.args, ev.kind, bool(ev.fr.loops), ev.where()),)


def timer_state(st, T):
    """(armed, interval term, single shot) after the operations on timer T; None = untouched"""
    armed = iv = ss = None
    for e in lg(st, "start", "stop", "setInterval", "setSingleShot"):
        if e[1] != T:
            continue
        if e[0] == "start":
            armed = True
            if e[2]:
                iv = e[2][0]
        elif e[0] == "stop":
            armed = False
        elif e[0] == "setInterval":
            iv = e[2][0]
        else:
            ss = e[2][0]
    return armed, iv, ss


def strip(t):
    while t[0] in ("icast", "cast") or t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("milliseconds",) or t[0] == "ctorobj" and len(t[2]) == 1:
        t = t[1] if t[0] in ("icast",) else (t[2][0] if t[0] == "ctorobj" else (t[3][0] if t[3] else t[-1]))
    return t


def lamtargets(p, e):
    """(function, caps) of the slot of a connect log entry"""
    r = []
    for q in e[2][2:]:
        if q[0] == "lam" and p.fns.get(q[1]):
            r.append((p.fns[q[1]], q[2], q[3] if len(q) > 3 else None))
        elif q[0] == "fn" and p.fns.get(q[1]):
            r.append((p.fns[q[1]], None, None))
        elif is_c(q) and isinstance(q[1], str) and q[1][:1] == "1" and "(" in q[1]:
            c = [f for f in p.fns.values() if f.get("body") and f["n"].endswith("::" + q[1][1:].split("(")[0])]
            if len(c) == 1:
                r.append((c[0], None, None))
    return r


def restarts(ctx, R, e, T, own):
    """the slot of this connection (re)starts timer T on every path"""
    p = ctx.p
    a = e[2]
    if len(a) >= 4 and a[3][0] == "fn" and a[3][1].split("(")[0] == "QTimer::start" and loc_eq(a[2], T):
        return True
    for f, caps, th in lamtargets(p, e):
        res, I = ctx.run(f, Tim(R), caps=caps)
        good = bool(res)
        for st, v in res:
            g = [x for x in lg(st, "start") if x[1] in (T, own)]
            ctx.ok("restart handler analysed")
            good = good and bool(g) and timer_state(st, g[0][1])[0] is True and not lg(st, "kill")
        if good:
            return True
    return False


def check_K01(ctx):
    p = ctx.p
    R = Roles(p)
    tf = p.field(TPC, "m_inactiveTimer", r"QTimer( \*)?$")
    ptr = next(f["t"] for f in p.classes[TPC]["fields"] if f["n"] == tf).endswith("*")
    own = ("f", THIS, tf)
    cfgfield = p.field(N + "ProxyConfiguration", "m_inactiveTimeout", r"^int$")
    # ---- construction: armed with the configured timeout, the timeout closes the own connection
    ctors = [f for f in bodies(p, TPC) if f["n"] == TPC + "::" + TPC.rsplit("::", 1)[-1]]
    for fn in ctors:
        res, I = ctx.run(fn, Tim(R))
        w = fnwhere(fn)
        for st, v in res:
            T = I.load(st, ("fl", THIS, tf)) if ptr else own
            armed, iv, ss = timer_state(st, T)
            ivt = strip(iv) if iv else VOID
            ctx.require(armed is True, "every new connection is timed", "K01:armed", w, "a new connection is created without starting its inactivity timer", st)
            ctx.require(ivt[0] == "f" and ivt[2] == cfgfield, "the configured timeout is used", "K01:interval", w, "the inactivity timeout of a new connection is %s" % show(ivt)[:80], st)
            cs = [e for e in lg(st, "connect") if loc_eq(e[2][0], T) and sig_name(e[2][1]) == "timeout"]
            good = False
            for e in cs:
                for f, caps, th in lamtargets(p, e):
                    r2, I2 = ctx.run(f, Tim(R), caps=caps)
                    for s2, _ in r2:
                        ks = lg(s2, "kill")
                        o = [R.client_of(EvView(k), I2, s2) for k in ks]
                        good = True
                        nul = is_null(I2, s2, ("f", THIS, R.iface))
                        ctx.require((len(ks) >= 1 and all(x == THIS for x in o)) or nul is True, "the timeout closes the own connection", "K01:timeout", fnwhere(f),
                                    "when the inactivity timer fires, %s" % ("nothing is closed" if not ks else "another connection is closed: %s" % show(ks[0][2][0])[:60]), s2)
            ctx.require(good, "the timeout is handled", "K01:connect", w, "the timeout of the inactivity timer is not handled", st)
    if not ctors:
        raise AnalysisError("constructor of %s not found" % TPC)
    # ---- activation: stopped for clients, one minute for servers, restarted by received data
    fn = p.fn(TPC + "::activateClient")
    res, I = ctx.run(fn, Tim(R))
    w = fnwhere(fn)
    ty = ("f", THIS, R.type)
    for st, v in res:
        armed, iv, ss = timer_state(st, own)
        srv = I.decide(I.mk_eq(ty, C(R.T_SERVER)), st)
        if I.decide(I.mk_eq(ty, C(R.T_NONE)), st) is True:
            continue
        if srv is not True:
            ctx.require(armed is False, "registered clients are not timed out", "K01:client", w, "the inactivity timer of a registered client is left %s" % ("running" if armed is None else "restarted"), st)
        if srv is not False:
            ivt = strip(iv) if iv else VOID
            ctx.require(armed is True and ivt == C(60000), "silent servers are closed after a minute", "K01:server", w,
                        "a registered server gets the timer %s with interval %s" % ("running" if armed or armed is None else "stopped", show(ivt)), st)
            cs = [e for e in lg(st, "connect") if sig_name(e[2][1]) == "rxDataCountChanged" and e[2][0] == THIS]
            ctx.require(bool(cs) and any(restarts(ctx, R, e, own, own) for e in cs), "received data restarts the timer", "K01:restart", w,
                        "data received from a registered server does not restart its inactivity timer", st)
        ctx.require(not lg(st, "kill"), "activation closes nothing", "K01:kill", w, "activating a connection closes it", st)
    # ---- received data is announced
    fs = slot(ctx, R.TI + "::dataAvailable", R.S)
    ps = pargs(fs)
    pcl = R.pc(ps[0])
    m = Tim(R, opaque=Base(R).opaque | {N + "TunnelProxyServer::%s" % x for x in ()})
    res, I = ctx.run(fs, m, args=ps)
    for st, v in res:
        if is_null(I, st, pcl) is True or I.decide(("has", ("f", THIS, R.proxyClients), ps[0]), st) is False or truth(I, st, ("f", pcl, R.killed)) is True:
            continue
        em = [e for e in lg(st, "emit.rxDataCountChanged") if e[1] == pcl]
        none = any((a[0] == "lt" or a[0] == "eq") and "count" in str(a) and ps[1] in list(subterms(a)) for a, y in st.facts.items())
        ctx.require(bool(em) or none, "received data is counted for its connection", "K01:rx", fnwhere(fs), "data received from a connection is not counted as its activity", st)
    # an undecided emission must be guarded by the size of the data only
    for f in [p.fn(TC + "::addRxDataCount")]:
        r2, I2 = ctx.run(f, Tim(R))
        q = params_of(f)[0]
        for st, v in r2:
            em = lg(st, "emit.rxDataCountChanged")
            if not em:
                z = I2.decide(("lt", C(0), q), st)
                ctx.require(z is False or I2.decide(I2.mk_eq(q, C(0)), st) is True, "received data is announced", "K01:announce", fnwhere(f), "received data is not announced", st)
            else:
                ctx.ok("received data is announced")
    # ---- who activates, and who else touches the timer
    for nm, srv in (("registerServer", True), ("registerClient", False)):
        fn = reg_entry(ctx, R, nm)
        a = pargs(fn)
        own2 = R.pc(a[0])
        res, I = ctx.run(fn, Tim(R, opaque=Base(R).opaque), args=a)
        ne = noerror(ctx, R)["TunnelProxyErrorNoError"]
        for st, v in res:
            T = ("f", own2, tf)
            ops = lg(st, "start", "stop", "setInterval", "setSingleShot")
            oth = [e for e in ops if e[1] != T]
            ctx.require(not oth, "registration touches only the own timer", "K01:other:" + nm, fnwhere(fn), "the timer %s is changed" % (show(oth[0][1])[:80] if oth else ""), st)
            d = I.decide(I.mk_eq(v, C(ne)), st)
            if d is not True:
                ctx.require(not ops, "a refused registration keeps its timeout", "K01:refused:" + nm, fnwhere(fn), "a refused registration changes the inactivity timer", st)
            if d is not False:
                armed, iv, ss = timer_state(st, T)
                if srv:
                    ctx.require(armed is True and iv is not None and strip(iv) == C(60000), "a registration activates", "K01:register:" + nm, fnwhere(fn), "a registered server keeps the timeout of inactive connections", st)
                else:
                    ctx.require(armed is False, "a registration activates", "K01:register:" + nm, fnwhere(fn), "a registered client is still timed out", st)
    act = p.fn(TPC + "::activateClient")
    good = {f["f"] for f in ctors} | {act["f"]}

    def inside(f, seen=()):
        """only reachable from the constructor and the activation"""
        if f["f"] in good:
            return True
        us = users_of(p, f)
        return bool(us) and f["f"] not in seen and all(inside(u, seen + (f["f"],)) for u in us)
    n = 0
    for f in p.fns.values():
        if not f["file"].startswith("libnymea-remoteproxy/"):
            continue
        n += 1
        for nd in walk([f["body"], f.get("inits", [])]):
            if nd.get("k") == "call" and nd.get("n", "") in ("QTimer::stop", "QTimer::start", "QTimer::setInterval", "QTimer::setSingleShot") and mentions(nd, tf) and not inside(f):
                ctx.bad("K01:touch:" + f["n"], "%s:%s (%s)" % (f["file"], nd.get("l"), f["n"]), "%s changes the inactivity timer" % f["n"])
    ctx.ok("functions searched for other uses of the timer", n)
    reg = {g["f"] for nm in ("registerServer", "registerClient") for g in [reg_entry(ctx, R, nm)]}

    def viareg(f, seen=()):
        if f["f"] in reg:
            return True
        us = users_of(p, f)
        return bool(us) and f["f"] not in seen and all(viareg(u, seen + (f["f"],)) for u in us)
    for g in users_of(p, act):
        ctx.require(viareg(g), "only registrations activate", "K01:activator:" + g["n"], fnwhere(g), "%s stops the inactivity timeout of a connection" % g["n"])
    for k, n in (("every new connection is timed", 1), ("the configured timeout is used", 1), ("the timeout closes the own connection", 1), ("registered clients are not timed out", 1),
                 ("silent servers are closed after a minute", 1), ("received data restarts the timer", 1), ("received data is counted for its connection", 1), ("a registration activates", 2),
                 ("a refused registration keeps its timeout", 5), ("received data is announced", 1)):
        ctx.need(n, k)


def users_of(p, f):
    """functions that call, connect or contain (lambda) f"""
    r = []
    for g in p.fns.values():
        if g is not f and any(nd.get("f") == f["f"] or nd.get("fn") == f["f"] for nd in walk([g.get("body"), g.get("inits", [])])):
            r.append(g)
    return r


def mentions(nd, field):
    return any(x.get("k") in ("mem", "member", "field") and field in (x.get("n"), x.get("f")) or x.get("n") == field for x in walk(nd))


class EvView:
    def __init__(self, e):
        self.obj, self.args = e[1], e[2]


# ============================================================================ K02
NSRV = N + "JsonRpcServer"
LIMIT = 10240


def check_K02(ctx):
    p = ctx.p
    R = Roles(p)
    fn = p.fn(NSRV + "::processData")
    pd = frozenset({TC + "::processData", TPC + "::processData"})
    pk = NSRV + "::processDataPacket"

    class M(Tim):
        def event(self, st, ev):
            Tim.event(self, st, ev)
            if ev.name.rsplit("::", 1)[-1] == "processData" and ev.name in pd:
                o = ev.obj
                st.heap[("fl", o, R.buf)] = ("fresh", "buffered", (o,))
    m = M(R, opaque=pd | {pk}, extra=(pk,) + tuple(pd))
    res, I = ctx.run(fn, m)
    w = fnwhere(fn)
    a = params_of(fn)
    for st, v in res:
        proc = [e for e in lg(st, "enter.processData") if e[1] == a[0]]
        if not proc:
            ctx.require(not lg(st, "enter.processDataPacket"), "data is split before it is processed", "K02:unsplit", w, "data is processed without buffering", st)
            continue
        n = ("count", ("fresh", "buffered", (a[0],)))
        over = bounded = False
        for f, y in st.facts.items():
            if f[0] == "lt" and f[2] == n and is_c(f[1]):       # limit < n
                if y:
                    over = over or f[1][1] >= LIMIT - 1
                elif f[1][1] <= LIMIT:
                    bounded = True
            elif f[0] == "lt" and f[1] == n and is_c(f[2]):     # n < limit
                if not y:
                    over = over or f[2][1] >= LIMIT
                elif f[2][1] <= LIMIT + 1:
                    bounded = True
            elif f[0] == "eq" and f[2] == n and y:
                bounded = True
        kills = lg(st, "kill")
        mine = [e for e in kills if R.client_of(EvView(e), I, st) == a[0]]
        if over and not bounded:
            nul = is_null(I, st, ("f", a[0], R.iface)) is True
            ctx.require(bool(mine) or nul, "a connection exceeding the limit is closed", "K02:kill", w, "a connection may keep sending without ever completing a request", st)
            ctx.require(not lg(st, "enter.processDataPacket"), "nothing more is processed for it", "K02:process", w, "requests of a connection exceeding the buffer limit are still processed", st)
        else:
            ctx.require(bounded, "buffered data is limited", "K02:limit", w, "nothing limits the data buffered for a connection to at most %d bytes" % LIMIT, st)
            ctx.require(not kills, "within the limit nothing is closed", "K02:within", w, "a connection is closed although its buffered data is within the limit", st)
        ctx.require(len(mine) == len(kills), "only the offender is closed", "K02:other", w, "another connection is closed", st)
    # every unframed byte goes through this function: the buffer of a connection grows only in processData, which is only called here and by the framed path
    for f in p.fns.values():
        if not f["file"].startswith("libnymea-remoteproxy/"):
            continue
        if f["n"].rsplit("::", 1)[-1] == "bufferSize" and f.get("cls") == TC:
            r2, I2 = ctx.run(f, Tim(R))
            for st, v in r2:
                t = v
                while t[0] == "icast":
                    t = t[1]
                ctx.require(t == ("count", ("f", THIS, R.buf)), "the size of the buffer is known", "K02:size", fnwhere(f), "bufferSize() is %s" % show(v)[:80], st)
    for k, n2 in (("a connection exceeding the limit is closed", 1), ("buffered data is limited", 1), ("within the limit nothing is closed", 1)):
        ctx.need(n2, k)


# ============================================================================ K03
def check_K03(ctx):
    p = ctx.p
    R = Roles(p)
    fs = slot(ctx, R.TI + "::dataAvailable", R.S)
    ps = pargs(fs)
    pcl = R.pc(ps[0])
    ty = ("f", pcl, R.type)
    n = 0
    for t, nm in ((R.T_CLIENT, "client"), (R.T_SERVER, "server")):
        m = Tim(R, opaque=Base(R).opaque)
        st0 = State()
        st0.heap[("fl", pcl, R.type)] = C(t)
        res, I = ctx.run(fs, m, args=ps, st=st0)
        for st, v in res:
            if is_null(I, st, pcl) is True:
                continue
            k = lg(st, "kill", "delete", "deleteLater")
            ctx.require(not k, "forwarding %s data closes nothing" % nm, "K03:%s" % nm, fnwhere(fs), "forwarding data of a registered %s %s %s" % (
                nm, "deletes" if k and k[0][0] != "kill" else "closes", show(k[0][2][0] if k and k[0][2] else k[0][1] if k else VOID)[:80]), st)
            ch = [(c, x) for c, x in st.heap.items() if c[0] == "fl" and c[2] in (R.proxyClients, R.sctab, R.cctab, R.sc_clients, R.sc_addr, R.cc_sc, R.type, R.uuid) and x != ("f", c[1], c[2]) and c != ("fl", pcl, R.type)]
            ctx.require(not ch, "forwarding %s data changes no table" % nm, "K03:%s-table" % nm, fnwhere(fs), "forwarding data changes %s" % (ch[0][0][2] if ch else ""), st)
            n += 1
    ctx.need(3, "forwarding client data closes nothing")
    ctx.need(1, "forwarding server data closes nothing")


# ============================================================================ J06
def lin(t):
    """linear form of an integer term: (dict atom -> coefficient, constant)"""
    if is_c(t) and isinstance(t[1], int):
        return {}, t[1]
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        a, c = lin(t[2])
        b, d = lin(t[3])
        s = 1 if t[1] == "+" else -1
        r = dict(a)
        for k, x in b.items():
            r[k] = r.get(k, 0) + s * x
        return {k: x for k, x in r.items() if x}, c + s * d
    if t[0] == "icast":
        return lin(t[1])
    return {t: 1}, 0


def ladd(a, b, s=1):
    r = dict(a[0])
    for k, x in b[0].items():
        r[k] = r.get(k, 0) + s * x
    return {k: x for k, x in r.items() if x}, a[1] + s * b[1]


ZERO = ({}, 0)


def trims(t):
    return any(x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("trimmed", "simplified") for x in subterms(t))


def slice_of(t):
    """(X, lo, hi) of a subarray term, lo/hi linear forms, hi None = to the end"""
    if t[0] == "call" and t[1] in ("trimmed", "simplified") and t[2] is not None:
        return slice_of(t[2])
    if t[0] in ("call", "mut"):
        short = t[1].rsplit("::", 1)[-1]
        X, a = t[2], t[3]
        if X is None:
            return t, ZERO, None
        x, lo, hi = slice_of(X) if short in ("left", "right", "mid", "first", "last", "sliced", "chopped", "remove", "truncate", "chop") else (None, None, None)
        if x is None:
            return t, ZERO, None
        n = ({("count", X): 1}, 0) if hi is None else ladd(hi, lo, -1)
        end = hi if hi is not None else ladd(({("count", X): 1}, 0), lo)
        if hi is None and X == x:
            end = ({("count", x): 1}, 0)

        def norm(h):
            return None if h == end and hi is None else h
        v = [lin(q) for q in a]
        if short in ("left", "first", "truncate"):
            return x, lo, norm(ladd(lo, v[0]))
        if short in ("right", "last"):
            return x, ladd(end, v[0], -1), hi
        if short in ("chopped", "chop"):
            return x, lo, ladd(end, v[0], -1)
        if short in ("mid", "sliced"):
            l2 = ladd(lo, v[0])
            if len(v) < 2 or v[1] == ({}, -1):
                return x, l2, hi
            return x, l2, norm(ladd(l2, v[1]))
        if short == "remove":
            if v[0] == ZERO:
                return x, ladd(lo, v[1]), hi
    return t, ZERO, None


SEP = "}\n{"


def unapp(v, base=None):
    """(rest, [elements]) of an append chain down to base"""
    r = []
    while v[0] == "app" and v != base:
        r.insert(0, v[2])
        v = v[1]
    return v, r


class Split(Monitor):
    def __init__(self, opaque, sink=None, buf=None):
        self.opaque = frozenset(opaque)
        self.sink = sink
        self.buf = buf
        self.iters = []
        self.steps = []

    def loop_step(self, lid, y):
        self.steps.append((lid, y.copy()))

    def event(self, st, ev):
        if self.sink and ev.name == self.sink and ev.kind in ("call", "enter"):
            st.ghost["pk"] = st.ghost.get("pk", ()) + (ev.args[-1],)
            if self.buf:
                st.ghost["pkb"] = self.I.load(st, self.buf)

    def loop_iter(self, interp, loop, st_in, outs):
        self.iters.append((loop[0], loop[3], st_in.copy(), [(k, x.copy(), v) for k, x, v in outs]))
        for k, x, v in outs:
            x.ghost["pk"] = st_in.ghost.get("pk", ())


def cells(st):
    r = dict(st.env)
    r.update(st.heap)
    return r


def check_J06(ctx):
    p = ctx.p
    R = Roles(p)
    st0 = State()
    st0.heap[("fl", THIS, R.slip)] = FALSE
    splitter(ctx, "server", p.fn(TPC + "::processData"), R.buf, st0, None)
    J = "remoteproxyclient::JsonRpcClient"
    splitter(ctx, "client", p.fn(J + "::processData"), p.field(J, "m_dataBuffer", r"QByteArray"), State(), J + "::processDataPacket", None)
    for k, n in (("a request ends at the first boundary", 4), ("the rest is kept for the next request", 4), ("no boundary is left", 4), ("the last request is handed on completely", 4),
                 ("a terminated request is handed on", 2), ("an incomplete request is kept", 2)):
        ctx.need(n, k)


def splitter(ctx, who, fn, buf, st0, sink, sep=SEP, pid="J06"):
    """with sep == "}\n" every request is terminated by the boundary itself and the data read by fn"""
    p = ctx.p
    w = fnwhere(fn)
    bufc = ("fl", THIS, buf)
    m = Split([sink] if sink else [], sink, bufc)
    res, I = ctx.run(fn, m, st=st0)
    B0 = ("f", THIS, buf)
    if sep is None:
        # the boundary searched for: between two messages, or the end of each message
        ss = {C(chr(t[3][0][1]) if isinstance(t[3][0][1], int) else t[3][0][1]) for x in [i[2] for i in m.iters] + [x for x, v in res] for v in list(cells(x).values()) + list(x.facts)
              for t in subterms(v) if t[0] == "call" and t[1].rsplit("::", 1)[-1] == "indexOf" and t[3] and is_c(t[3][0])}
        sep = next((q for q in (SEP, "}\n", "\n") if ss == {C(q)}), SEP)
    full = sep == SEP
    if pid == "T06":
        ctx.require(not full, "a message is complete whatever follows it", "T06:client:behind", w, "the response to the registration is not processed while tunnel data follows it")
    off = len(sep) - 1 if not full else 1       # distance from the boundary to the last byte of the message that has to be handed on
    if sep != "}\n" or params_of(fn):
        data = params_of(fn)[0]
    else:
        ds = {t[2] for st in [x for x, v in res] + [i[2] for i in m.iters] for v in cells(st).values() for t in subterms(v) if t[0] == "cat" and t[1] == B0 and t[2][0] == "fresh" and t[2][1].endswith("readAll")}
        if not ctx.require(len(ds) == 1, "nothing is lost", "%s:%s:read" % (pid, who), w, "the data read from the socket is not appended to the buffer"):
            return
        data = ds.pop()
    first = ("cat", B0, data)
    X = "%s:%s:" % (pid, who)
    lids = []
    for it in m.iters:
        if it[0] not in lids:
            lids.append(it[0])

    def packets(st, x):
        """requests handed on in an iteration"""
        if sink:
            return list(x.ghost.get("pk", ()))[len(st.ghost.get("pk", ())):]
        a, b = cells(st), cells(x)
        r = []
        for c, v in b.items():
            if c in a and v != a[c] and v[0] == "app":
                base, es = unapp(v, a[c])
                if base == a[c]:
                    r += es
        return r

    phis = {}        # loop id -> (kind, buffer cell, start cell)

    def isidx(t, Xv, lo, lid, c, s, facts):
        """t is the index of the first boundary in Xv from lo"""
        if t[0] == "call" and t[1].rsplit("::", 1)[-1] == "indexOf" and t[2] == Xv and t[3] and t[3][0] in (C(sep), C(ord(sep[0])) if len(sep) == 1 else C(sep)):
            return lin(t[3][1] if len(t[3]) > 1 else C(0)) == lo
        if t[0] == "phi" and t[1] == lid:
            loc = t[2]
            for l2, it, st, outs in m.iters:
                if l2 != lid:
                    continue
                if it == 0:
                    a = cells(st)
                    if not isidx(a.get(loc, VOID), a[c], lin(a[s]) if s else ZERO, None, c, s, None):
                        return False
            for l2, y in m.steps:
                if l2 == lid:
                    a = cells(y)
                    if not isidx(a.get(loc, VOID), a[c], lin(a[s]) if s else ZERO, None, c, s, None):
                        return False
            return True
        return False

    def nonneg(st, i):
        for f, y in st.facts.items():
            if f == ("lt", i, C(0)) and not y or f == ("lt", C(-1), i) and y:
                return True
            if f[0] == "eq" and i in f[1:] and C(-1) in f[1:] and not y:
                return True
        return False

    def isneg(st, i):
        for f, y in st.facts.items():
            if f == ("lt", i, C(0)) and y or f == ("lt", C(-1), i) and not y:
                return True
            if f[0] == "eq" and i in f[1:] and C(-1) in f[1:] and y:
                return True
        return False

    for lid, it, st, outs in m.iters:
        for k, x, v in outs:
            ps = packets(st, x)
            a, b = cells(st), cells(x)
            if k not in ("n", "k"):
                ctx.require(not ps, "no request is handed on when leaving", X + "leave", w, "a request is handed on while leaving the loop over the requests", x)
                continue
            if not ps:
                ctx.require(b.get(bufc) == a.get(bufc), "nothing is lost", X + "lost", w, "received data is dropped: the buffer becomes %s" % show(b.get(bufc, VOID))[:120], x)
                continue
            if not ctx.require(len(ps) == 1, "one request per step", X + "twice", w, "%d requests are handed on for one boundary" % len(ps), x):
                continue
            Xv, lo, hi = slice_of(ps[0])
            cs = [c for c, q in a.items() if q == Xv]
            c = bufc if bufc in cs else cs[0] if cs else None
            ok = c is not None and hi is not None
            s = None
            if ok and lo != ZERO:
                ss = [q for q, y in a.items() if y[0] == "phi" and lin(y) == lo]
                s = ss[0] if ss else None
                ok = s is not None
            if ok and lo == ZERO and b.get(c) == a.get(c):
                ss = [q for q, y in a.items() if y == C(0) and b.get(q) not in (None, C(0))]
                s = ss[0] if len(ss) == 1 else s
            if ok:
                # (a message terminated by "}\n" may be handed on with or without the line break)
                i = ladd(hi, ({}, off), -1)
                at = [q for q, n in i[0].items() if n == 1]
                end = hi if full or i[1] == 0 else ladd(hi, ({}, 1), -1)
                ok = len(at) == 1 and len(i[0]) == 1 and i[1] in ((0,) if full else (0, 1)) and isidx(at[0], Xv, lo, lid, c, s, x.facts) and nonneg(x, at[0])
            ctx.require(ok, "a request ends at the first boundary", X + "boundary", w, "a request handed on is %s" % show(ps[0])[:200], x)
            if not ok:
                continue
            if b.get(c) == a.get(c) and s is not None:
                nx = lin(b.get(s, VOID))
                rest = (Xv, nx, None)
            else:
                rest = slice_of(b.get(c, VOID))
                s = None
            good = rest[0] == Xv and (pid != "T06" or not trims(b.get(c, VOID))) and rest[2] is None and rest[1] in (ladd(end, ({}, 1)), end)
            ctx.require(good, "the rest is kept for the next request", X + "rest", w, "after a request the remaining data is %s" % show(b.get(c, VOID))[:200], x)
            if pid == "T06":
                ctx.require(x.ghost.get("pkb") == b.get(bufc) != a.get(bufc), "the message is removed from the buffer before it is processed", X + "order", w,
                            "while a message is processed the buffer is %s: the data behind the response to the registration cannot be told from it" % show(x.ghost.get("pkb", VOID))[:120], x)
            phis[lid] = (c, s)
    ctx.require(len(phis) == 1, "requests are split", X + "loop", w, "requests received together are not split")
    for st, v in res:
        pk = list(st.ghost.get("pk", ())) if sink else unapp(v)[1]
        bf = I.load(st, bufc)
        base = (first, ZERO)
        neg = False
        tail = pk + ([bf] if bf != EMPTY else [])
        if not tail:
            # nothing received at all?
            ctx.require(any(f == I.mk_eq(("count", q), C(0)) and y for f, y in st.facts.items() for q in (data, first)), "nothing is lost", X + "lost", w, "received data is dropped", st)
            continue
        if not ctx.require(len(tail) == 1, "nothing is repeated", X + "repeat", w, "after the last boundary %d requests are handed on and %s is kept" % (len(pk), show(bf)[:80]), st):
            continue
        Xt, lo, hi = slice_of(tail[0])
        for lid, (c, s) in phis.items():
            if s is None and Xt == ("phi", lid, c):
                base = (Xt, ZERO)
            elif s is not None and lo == ({("phi", lid, s): 1}, 0):
                base = (Xt, lo) if Xt == first or Xt == ("phi", lid, c) else base
            for f, y in st.facts.items():
                for q in f[1:]:
                    if isinstance(q, tuple) and q and isinstance(q[0], str) and isidx(q, base[0], base[1], lid, c, s, None) and isneg(st, q):
                        neg = True
        ok = (Xt, lo) == base and hi is None and (pid != "T06" or not trims(tail[0]))
        ctx.require(ok, "the last request is handed on completely" if pk else "an incomplete request is kept", X + "last", w, "%s is %s instead of the remaining data" % (
            "the last request" if pk else "the data kept", show(tail[0])[:160]), st)
        ctx.require(neg, "no boundary is left", X + "left", w, "data is %s although it may contain another request boundary" % ("handed on" if pk else "kept"), st)
        if not full:
            ctx.require(not pk, "an incomplete request is kept", X + "cut", w, "data that does not end a request is handed on", st)
            continue
        ends = {}
        for f, y in st.facts.items():
            if f[0] == "call" and f[1].rsplit("::", 1)[-1] == "endsWith" and slice_of(f[2])[0] == Xt and f[3] and is_c(f[3][0]):
                e = f[3][0][1]
                ends[chr(e) if isinstance(e, int) else e] = y
        term = ends.get("}\n") or ends.get("\n")
        if pk:
            if not term and ends.get("}"):
                ctx.bad(X + "unterminated", w, "data ending in \"}\" without a line break is handed on as a complete request: a request cut there by the network is destroyed", st)
            else:
                ctx.require(bool(term), "a terminated request is handed on", X + "cut", w, "data that does not end a request is handed on", st)
        else:
            ctx.require(ends.get("}\n") is False or ends.get("\n") is False, "a terminated request is handed on", X + "stall", w, "a complete request may be kept unprocessed", st)
