"""Rules for the client library: reply matching (C01), registration (C02), reconnect/keep alive (C03), tunnel sockets (C04),
replaced connections (C05), null discipline (N03)."""
from framework import *
from rules_codec import enumval, slot_of, tobytes, DESER

NS = "remoteproxyclient::"
JC = NS + "JsonRpcClient"
JR = NS + "JsonReply"
PC = NS + "ProxyConnection"
CS = NS + "TunnelProxySocketServer"
CC = NS + "TunnelProxyRemoteConnection"
SK = NS + "TunnelProxySocket"
THIS = ("this",)


class Log(Monitor):
    """records the events selected by `pick(ev) -> key or None` in order, per path"""

    def __init__(self, pick, opaque=(), cap=10):
        self.pick = pick
        self.opaque = frozenset(opaque)
        self.cap = cap

    def event(self, st, ev):
        k = self.pick(ev)
        if k and not ev.fr.loops:
            n = st.ghost.get("log", ())
            if len(n) < self.cap:
                st.ghost["log"] = n + ((k, ev.obj, ev.args, ev.extra),)


def logs(st, *ks):
    return [e for e in st.ghost.get("log", ()) if e[0] in ks]


def unconv(t):
    """strip value preserving conversions (toString() of a uuid, integer casts, QVariant wrapping)"""
    while True:
        if t[0] == "call" and t[2] is not None and not t[3] and t[1].rsplit("::", 1)[-1] in ("toString", "toByteArray"):
            t = t[2]
        elif t[0] == "call" and t[1] == "QUuid::toString" and t[2] is not None:
            t = t[2]
        elif t[0] == "icast" and (t[2] >= 32 or t[2] == 16 and not t[3]):
            t = t[1]
        elif t[0] == "ctorobj" and len(t[2]) == 1 and t[1] in ("QVariant", "QJsonValue", "QString"):
            t = t[2][0]
        else:
            return t


def params_of(fn):
    return [("p", i, q["n"], q["t"]) for i, q in enumerate(fn["params"])]


def eqfact(st, const, key):
    """truth of '<something looked up under key> == const' on this path"""
    r = None
    for a, v in st.facts.items():
        if a[0] == "eq" and a[1] == C(const) and any(t[0] == "get" and t[2] == C(key) for t in subterms(a[2])):
            r = v if r is None else (r or v)
    return r


# ============================================================================ C01
REQ = {
    "RemoteProxy.Hello": ({}, False),
    "TunnelProxy.RegisterServer": ({"serverName": ("QString", 0), "serverUuid": ("QUuid", 0)}, False),
    "TunnelProxy.RegisterClient": ({"clientUuid": ("QUuid", 0), "clientName": ("QString", 0), "serverUuid": ("QUuid", 1)}, False),
    "TunnelProxy.DisconnectClient": ({"socketAddress": ("unsigned short|quint16", 0)}, True),
    "TunnelProxy.Ping": ({"timestamp": ("unsigned int|uint", 0)}, True),
}


def mapitems(t):
    """the literal entries of a map term, or None"""
    d = {}
    while t[0] == "ins":
        if not is_c(t[2]):
            return None
        d.setdefault(t[2][1], t[3])
        t = t[1]
    return d if t == EMPTY else None


def request_map(payload):
    for t in subterms(payload):
        if t[0] == "ins":
            m = mapitems(t)
            if m and "id" in m and "method" in m:
                return m
    return None


def check_C01(ctx):
    import re
    R = Roles(ctx.p)
    p = ctx.p
    ids = p.field(JC, "m_commandId", r"^int$")
    reps = p.field(JC, "m_replies", r"JsonReply \*>")
    conn = p.field(JC, "m_connection", r"ProxyConnection")
    rid = p.field(JR, "m_commandId", r"^int$")
    calls = [m for m in p.classes[JC]["methods"] if m["ret"] == JR + " *" and m["f"] in p.fns and m["acc"] == 0]
    if not calls:
        raise AnalysisError("no request methods found in " + JC)
    seen = set()
    ID = ("f", THIS, ids)
    for mth in calls:
        fn = p.fns[mth["f"]]
        w = fnwhere(fn)
        m = Log(lambda ev: "sent" if ev.name == PC + "::sendData" else None, R.CODEC)
        res, I = ctx.run(fn, m)
        for st, v in res:
            if is_null(I, st, ("f", THIS, conn)) is True:
                continue
            s = logs(st, "sent")
            if not ctx.require(len(s) == 1 and s[0][1] == ("f", THIS, conn), "request sent once", "C01:sent:%s" % fn["n"], w, "the request is sent %d times" % len(s), st):
                continue
            pay = s[0][2][0]
            sp = R.slip_payload(pay, I)
            raw = sp[1] if sp else pay
            rm = request_map(raw)
            if not ctx.require(rm is not None, "request is a JSON object", "C01:request:%s" % fn["n"], w, "cannot find id and method in %s" % show(raw)[:200], st):
                continue
            ctx.require(rm["id"] == ID, "request carries the current id", "C01:id:%s" % fn["n"], w, "the id sent is %s" % show(rm["id"]), st)
            nid = I.load(st, ("fl", THIS, ids))
            ctx.require(nid[0] == "op" and nid[1] == "+" and nid[2] == ID and is_c(nid[3]) and nid[3][1] > 0, "the next request gets another id", "C01:next:%s" % fn["n"], w,
                        "the next id is %s" % show(nid), st)
            t = I.load(st, ("fl", THIS, reps))
            ctx.require(t == ("ins", ("f", THIS, reps), ID, v), "reply object is filed under the id sent", "C01:pending:%s" % fn["n"], w,
                        "the pending replies become %s" % show(t)[:160], st)
            ctx.require(v[0] == "new", "a reply object is returned", "C01:reply:%s" % fn["n"], w, "returned %s" % show(v)[:100], st)
            bs = cat_parts(raw)
            ctx.require(bool(bs) and (tobytes(bs[-1]) or (0,))[-1] == 10, "request terminated by a newline", "C01:newline:%s" % fn["n"], w, "the request ends with %s" % show(bs[-1])[:60], st)
            js = [t for t in subterms(raw) if t[0] == "call" and t[1] == "QJsonDocument::toJson"]
            ctx.require(all(t[3] and t[3][0] == C(1) for t in js), "request is one line", "C01:oneline:%s" % fn["n"], w,
                        "the request is not written in the compact form: a line inside of it may end with a closing brace, which ends the request", st)
            meth = rm["method"]
            if not (is_c(meth) and meth[1] in REQ):
                ctx.notes.append("request with unknown method %s" % show(meth)[:60])
                continue
            want, slip = REQ[meth[1]]
            seen.add(meth[1])
            ctx.require((sp is not None) == slip and (sp is None or sp[0] == C(0)), "management channel used", "C01:channel:%s" % fn["n"], w,
                        "%s is sent %s" % (meth[1], "in a frame with address %s" % show(sp[0]) if sp else "without framing"), st)
            got = mapitems(rm["params"]) if "params" in rm else {}
            a = params_of(fn)
            for k, (ty, i) in want.items():
                c = [x for x in a if re.search(ty, x[3])]
                ok = got is not None and k in got and len(c) > i and unconv(got[k]) == c[i]
                ctx.require(ok, "argument passed under its API name", "C01:param:%s.%s" % (meth[1], k), w,
                            "%s is sent as %s" % (k, show(got[k])[:80] if got and k in got else "nothing"), st)
            ctx.require(got is not None and set(got) == set(want), "no other parameters", "C01:params:%s" % meth[1], w, "parameters sent: %s" % sorted(got or ()), st)
    for k in REQ:
        if k not in seen and not ctx.viol:
            ctx.bad("C01:missing:" + k, "libnymea-remoteproxyclient/proxyjsonrpcclient.cpp", "no request method sends %s" % k)
    # ---- answers
    fn = p.fn(JC + "::processDataPacket")
    w = fnwhere(fn)
    data = params_of(fn)[0]

    def pick(ev):
        if ev.kind == "emit":
            return ev.short()
        if ev.name == JR + "::setResponse":
            return "set"
    m = Log(pick)
    res, I = ctx.run(fn, m)
    T = ("f", THIS, reps)
    for st, v in res:
        fin, sets = logs(st, "finished"), logs(st, "set")
        t = I.load(st, ("fl", THIS, reps))
        note = None
        perr = None
        for a, y in st.facts.items():
            if a[0] == "has" and a[2] == C("notification"):
                note = y
            if a[0] == "eq" and a[2][0] == "get" and a[2][2] == C("notification") and a[1] in (NULL, C("")):
                note = not y
            if a[0] == "eq" and a[1] == C(0) and a[2][0] in ("f", "get") and "error" in str(a[2][-1]):
                perr = not y
            if a[0] == "call" and a[1].endswith("isNull") and any(q[0] == "call" and q[1].endswith("fromJson") for q in subterms(a)):
                perr = y
        touched = t != T
        if touched or fin or sets:
            ctx.require(perr is False, "only valid JSON completes a request", "C01:garbage", w, "a message that is no valid JSON can complete a request", st)
            ctx.require(note is False, "a notification completes no request", "C01:notification", w, "a notification can complete a pending request", st)
        if fin or sets:
            o = fin[0][1] if fin else sets[0][1]
            key = o[2] if o[0] == "get" and o[1] == T else None
            ok = key is not None and any(q[0] == "get" and q[2] == C("id") for q in subterms(key))
            ctx.require(ok, "the request with the id of the answer completes", "C01:match", w, "the completed request is %s" % show(o)[:160], st)
            ctx.require(len(fin) == 1 and len(sets) == 1 and sets[0][1] == fin[0][1], "a request completes once, with the answer", "C01:once", w,
                        "finished %d times, answer stored %d times" % (len(fin), len(sets)), st)
            if key is not None:
                ctx.require(t == ("rem", T, key), "a completed request is no longer pending", "C01:take", w, "pending replies become %s" % show(t)[:120], st)
            if sets:
                ctx.require(any(q == data for q in subterms(sets[0][2][0])), "the answer stored is the message", "C01:answer", w, "the stored answer is %s" % show(sets[0][2][0])[:100], st)
        elif touched:
            key = t[2] if t[0] == "rem" else None
            ctx.require(key is not None and is_null(I, st, ("get", T, key)) is True, "only unknown ids complete nothing", "C01:lost", w,
                        "a pending request is dropped without being completed", st)
        elif note is False and perr is False:
            # looked up and found nothing, or not looked up at all
            nf = any(a[0] == "eq" and a[1] == NULL and a[2][0] == "get" and a[2][1] == T and y or a[0] == "has" and a[1] == T and not y for a, y in st.facts.items())
            ctx.require(nf, "an answer is looked up by its id", "C01:ignored", w, "an answer is ignored without looking up its request", st)
    # order: the answer is stored before finished() is emitted
        lg = [e[0] for e in st.ghost.get("log", ())]
        if "finished" in lg and "set" in lg:
            ctx.require(lg.index("set") < lg.index("finished"), "answer available when finished is emitted", "C01:order", w, "finished is emitted before the answer is stored", st)
    ctx.need(5, "request carries the current id")
    ctx.need(1, "a request completes once, with the answer")
    # ---- notifications
    notifications(ctx, fn, res, I, "C01")


NOTES = {"ClientConnected": ("tunnelProxyClientConnected", ["clientName", "clientUuid", "clientPeerAddress", "socketAddress"]),
         "ClientDisconnected": ("tunnelProxyClientDisonnected", ["socketAddress"])}


def carried(t):
    """strip the conversions of a received value that keep it: QVariant accessors, casts that keep every value of its kind"""
    while True:
        if t[0] == "call" and t[2] is not None and t[1].rsplit("::", 1)[-1] in ("toString", "toUuid", "toUInt", "toInt", "toULongLong", "toLongLong", "toByteArray", "value"):
            t = t[2]
        elif t[0] == "icast" and (t[2] >= 32 or t[2] == 16 and not t[3]) or t[0] == "resign":
            t = t[1]
        elif t[0] in ("ctorobj", "conv") and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def notifications(ctx, fn, res, I, tag):
    w = fnwhere(fn)
    sigs = {v[0]: v[1] for v in NOTES.values()}
    cnt = {}
    for st, v in res:
        names = {a[1][1] for a, y in st.facts.items() if y and a[0] == "eq" and is_c(a[1]) and isinstance(a[1][1], str) and
                 any(t[0] == "get" and t[2] == C("notification") for t in subterms(a[2]))}
        ems = [e for e in st.ghost.get("log", ()) if e[0] in sigs]
        for n, (sg, ks) in NOTES.items():
            if n in names and "TunnelProxy" in names or "TunnelProxy." + n in names:
                ok = len(ems) == 1 and ems[0][0] == sg
                ctx.require(ok, "notification reported once", "%s:note:%s" % (tag, n), w, "the notification %s is reported as %s" % (n, [e[0] for e in ems]), st)
                cnt[n] = 1
                if ok:
                    for k, a in zip(ks, ems[0][2]):
                        g = carried(a)
                        ctx.require(g[0] == "get" and g[2] == C(k) and any(t[0] == "get" and t[2] == C("params") for t in subterms(g[1])), "notification argument", "%s:notearg:%s.%s" % (tag, n, k), w,
                                    "%s is taken from %s" % (k, show(a)[:100]), st)
        if not names:
            ctx.require(not ems, "only notifications are reported as such", "%s:nonote" % tag, w, "a message that is no notification is reported as one", st)
    for n in NOTES:
        if n not in cnt and not ctx.viol:
            ctx.bad("%s:note:%s" % (tag, n), w, "the notification %s is not handled" % n)


# ============================================================================ common for the two connection classes
CONCRETE = {}       # the overrides of the connection interface: concrete name -> name in the interface


def pcname(n):
    return CONCRETE.get(n, n)


class Role2:
    def __init__(self, ctx, cls):
        p = ctx.p
        for c, k in p.classes.items():
            if PC in k["allbases"]:
                for m in ("connectServer", "disconnectServer", "sendData"):
                    CONCRETE[c + "::" + m] = PC + "::" + m
        self.cls = cls
        self.state = p.field(cls, "m_state", r"State$")
        self.conn = p.field(cls, "m_connection", r"ProxyConnection")
        self.json = p.field(cls, "m_jsonClient", r"JsonRpcClient")
        self.url = p.field(cls, "m_serverUrl", r"QUrl")
        self.server = cls == CS
        self.ready = C(enumval(p, cls + "::State", "StateRunning" if self.server else "StateRemoteConnected"))
        self.disc = C(enumval(p, cls + "::State", "StateDisconnected"))
        self.running = p.field(cls, "m_running") if self.server else None
        self.start = p.fn(cls + ("::startServer" if self.server else "::connectServer"))
        self.changed = slot_of(ctx, PC + "::connectedChanged", cls)
        self.data = slot_of(ctx, PC + "::dataReceived", cls)
        self.sstate = slot_of(ctx, PC + "::stateChanged", cls)
        self.reg = "callRegisterServer" if self.server else "callRegisterClient"
        self.calls = frozenset(JC + "::" + m["n"].rsplit("::", 1)[-1] for m in p.classes[JC]["methods"] if m["ret"] == JR + " *") | frozenset(CONCRETE)

    def f(self, x):
        return ("f", THIS, x)


def pick_main(ev):
    n = pcname(ev.name)
    if n.startswith(JC + "::call") and ev.kind in ("call", "enter"):
        return ev.short()
    if n in (PC + "::disconnectServer", PC + "::connectServer", PC + "::sendData") and ev.kind in ("call", "enter"):
        return ev.short()
    if n in ("QObject::connect", "QObject::disconnect"):
        return ev.short()
    if n in ("QTimer::start", "QTimer::stop"):
        return "timer." + ev.short()
    if n == "QObject::deleteLater":
        return "deleteLater"
    if ev.kind == "emit" and ev.short() in ("runningChanged", "remoteConnectedChanged", "stateChanged", "clientConnected", "clientDisconnected", "disconnected"):
        return "emit." + ev.short()
    if ev.kind == "delete":
        return "delete"


def entries(ctx, r):
    """every way into the class from outside: public methods, slots (incl. lambdas connected by its functions)"""
    p = ctx.p
    seen = []
    for m in p.classes[r.cls]["methods"]:
        f = p.fns.get(m["f"])
        if f and not m["static"] and not m["const"] and m["mode"] != "qt_signal" and m["acc"] == 0 and m["n"].rsplit("::", 1)[-1] not in (r.cls.rsplit("::", 1)[-1],) \
                and "~" not in m["n"]:
            seen.append(f)
    for c in p.connections:
        if c["slot"] and p.fns.get(c["fn"], {}).get("cls") == r.cls:
            f = p.fns.get(c["slot"])
            if f and (c["slot"].startswith("lambda@") or f.get("cls") == r.cls) and f not in seen:
                seen.append(f)
    # private methods called by the friends of the class are inlined from their callers
    return seen


def callsof(f):
    return [n for n in walk(f["body"]) if isinstance(n, dict) and n.get("k") == "call" and n.get("n")]


def friends(ctx, r):
    """non-public methods called from other classes"""
    p = ctx.p
    res = []
    for m in p.classes[r.cls]["methods"]:
        f = p.fns.get(m["f"])
        if not f or m["static"] or m["mode"] == "qt_signal" or m["acc"] == 0:
            continue
        for g in p.fns.values():
            if g.get("body") and g.get("cls") not in (r.cls, None) and not g["f"].startswith("lambda@") and any(e.get("f") == f["f"] for e in callsof(g)):
                res.append(f)
                break
    return res


def reply_slots(ctx, r, fn, what, st_lists):
    """slots connected to JsonReply::finished of the request `what`"""
    res = set()
    for st, v in st_lists:
        for k, o, a, x in logs(st, "connect"):
            if len(a) >= 3 and a[0][0] == "call" and a[0][1] == JC + "::" + what and a[1][0] == "fn" and a[1][1].startswith(JR + "::finished"):
                t = a[-1] if a[-1][0] in ("fn", "lam") else next((q for q in reversed(a) if q[0] in ("fn", "lam") and q != a[1]), None)
                if t is not None:
                    res.add(t[1])
    return res


def reg_slot(ctx, r):
    """the function that handles the answer to the registration"""
    res, I = run(ctx, r, r.changed)
    for h in reply_slots(ctx, r, r.changed, "callHello", res):
        if ctx.p.fns.get(h):
            res2, I2 = run(ctx, r, ctx.p.fns[h])
            for g in reply_slots(ctx, r, ctx.p.fns[h], r.reg, res2):
                if ctx.p.fns.get(g):
                    return ctx.p.fns[g]
    return None


def run(ctx, r, fn, st=None):
    m = Log(pick_main, r.calls | {JC + "::processData"}, cap=24)
    return ctx.run(fn, m, st=st)


def check_C02(ctx):
    for cls in (CS, CC):
        reg_lifecycle(ctx, Role2(ctx, cls))
    for n in ("ready only after a successful registration", "failed registration closes the connection", "hello sent on connect", "registration sent after hello"):
        ctx.need(2, n)


def reg_lifecycle(ctx, r):
    p = ctx.p
    short = r.cls.rsplit("::", 1)[-1]
    S = ("fl", THIS, r.state)
    T = "C02:%s:" % short
    # ---- connected -> hello
    fn = r.changed
    w = fnwhere(fn)
    par = params_of(fn)[0]
    res, I = run(ctx, r, fn)
    up = [(st, v) for st, v in res if truth(I, st, par) is True]
    for st, v in up:
        if is_null(I, st, r.f(r.json)) is True:
            continue
        h = logs(st, "callHello")
        ctx.require(len(h) == 1 and h[0][1] == r.f(r.json), "hello sent on connect", T + "hello", w, "a new connection sends hello %d times" % len(h), st)
        ctx.require(I.load(st, S) != r.ready and (I.load(st, S) != ("f", THIS, r.state) or I.decide(I.mk_eq(r.f(r.state), r.ready), st) is False),
                    "not ready right after connecting", T + "early", w, "a new connection is reported ready", st)
    hs = reply_slots(ctx, r, fn, "callHello", up)
    if len(hs) != 1 or not p.fns.get(next(iter(hs))):
        if not ctx.viol:
            ctx.bad(T + "helloslot", w, "the answer to hello is handled by %s" % (sorted(hs) or "nobody"))
        return
    # ---- hello answer -> registration
    fh = p.fns[next(iter(hs))]
    w = fnwhere(fh)
    res, I = run(ctx, r, fh)
    uu = sorted(f["n"] for f in p.classes[r.cls]["fields"] if f["t"] == "QUuid")
    for st, v in res:
        ok = eqfact(st, "success", "status")
        reg = logs(st, r.reg)
        if is_null(I, st, r.f(r.conn)) is True or is_null(I, st, r.f(r.json)) is True:
            continue
        if ok is True:
            good = len(reg) == 1 and reg[0][1] == r.f(r.json)
            ctx.require(good, "registration sent after hello", T + "register", w, "after a successful hello the registration is sent %d times" % len(reg), st)
            if good:
                names = ["m_serverUuid", "m_serverName"] if r.server else ["m_clientUuid", "m_clientName", "m_serverUuid"]
                want = tuple(r.f(p.field(r.cls, n)) for n in names)
                ctx.require(reg[0][2] == want, "registers its own identity", T + "identity", w, "registers with %s" % [show(a)[:60] for a in reg[0][2]], st)
        else:
            ctx.require(ok is not None and not reg, "no registration without hello", T + "nohello", w, "registers although hello has not been answered with success", st)
            ctx.require(bool(logs(st, "disconnectServer")), "failed hello closes the connection", T + "hellofail", w, "a failed hello does not close the connection", st)
        ctx.require(I.load(st, S) != r.ready, "hello does not make ready", T + "helloready", w, "the answer to hello makes the connection ready", st)
    rs = reply_slots(ctx, r, fh, r.reg, res)
    if len(rs) != 1 or not p.fns.get(next(iter(rs))):
        if not ctx.viol:
            ctx.bad(T + "regslot", w, "the registration answer is handled by %s" % (sorted(rs) or "nobody"))
        return
    # ---- registration answer
    fr = p.fns[next(iter(rs))]
    w = fnwhere(fr)
    st0 = State()
    res, I = run(ctx, r, fr)
    for st, v in res:
        a, b = eqfact(st, "success", "status"), eqfact(st, "TunnelProxyErrorNoError", "tunnelProxyError")
        now = I.load(st, S)
        ready = now == r.ready or now == r.f(r.state) and I.decide(I.mk_eq(now, r.ready), st) is True
        if a is True and b is True:
            ctx.require(ready, "a successful registration makes ready", T + "notready", w, "after a successful registration the state is %s" % show(now), st)
        else:
            ctx.require(now == r.f(r.state) or now != r.ready, "ready only after a successful registration", T + "ready", w,
                        "ready although the registration was not answered with success", st)
            if is_null(I, st, r.f(r.conn)) is not True:
                ctx.require(bool(logs(st, "disconnectServer")), "failed registration closes the connection", T + "fail", w, "a failed registration does not close the connection", st)
    # ---- nobody else makes ready; derived state and signals follow the state
    n = 0
    for f in entries(ctx, r):
        w = fnwhere(f)
        n += 1
        res = []
        for ready0 in (True, False):        # both kinds of start states, whether or not the code distinguishes them
            st0 = State()
            st0.facts[Interp(ctx.p, Monitor()).mk_eq(r.f(r.state), r.ready)] = ready0
            r1, I = run(ctx, r, f, st0)
            res += r1
        for st, v in res:
            now = I.load(st, S)
            changed = now != r.f(r.state)
            if f["f"] != fr["f"]:
                ctx.require(not (changed and now == r.ready), "nothing else makes ready", T + "otherready:%s" % f["n"], w, "%s makes the connection ready without registration" % f["n"], st)
            if r.server:
                run_ = I.load(st, ("fl", THIS, r.running))
                if changed:
                    want = TRUE if now == r.ready else FALSE if is_c(now) else None
                    dec = I.decide(run_, st) if run_[0] != "c" else bool(run_[1])
                    ctx.require(want is not None and dec == (want == TRUE), "running follows the state", T + "running:%s" % f["n"], w,
                                "after the state changed to %s running is %s" % (show(now), show(run_)[:60]), st)
                elif run_ != r.f(r.running):
                    ctx.bad(T + "running2:%s" % f["n"], w, "running changes to %s although the state does not change" % show(run_), st)
                em = logs(st, "emit.runningChanged")
                if em:
                    last = em[-1][2][0]
                    ctx.require(I.decide(last, st) == I.decide(run_, st), "runningChanged carries the current value", T + "signal:%s" % f["n"], w,
                                "runningChanged(%s) although running is %s" % (show(last)[:40], show(run_)[:40]), st)
                elif run_ != r.f(r.running):
                    same = I.decide(r.f(r.running), st) == I.decide(run_, st)
                    ctx.require(same, "a change of running is signalled", T + "nosignal:%s" % f["n"], w, "running changes without runningChanged", st)
            elif changed:
                was = I.decide(I.mk_eq(r.f(r.state), r.ready), st)
                em = logs(st, "emit.remoteConnectedChanged")
                is_ = now == r.ready
                if was is True and not is_ or was is False and is_:
                    ctx.require(len(em) >= 1 and I.decide(em[-1][2][0], st) == is_, "remoteConnectedChanged follows the state", T + "signal:%s" % f["n"], w,
                                "remoteConnectedChanged is not emitted with %s" % is_, st)
                if was is True and is_ or was is False and not is_:
                    ctx.require(not em or I.decide(em[-1][2][0], st) == is_, "no contradicting signal", T + "signal2:%s" % f["n"], w, "contradicting remoteConnectedChanged", st)
    if n < 6:
        raise AnalysisError("only %d entry points of %s found" % (n, r.cls))


# ============================================================================ C03
def ctor_info(ctx, cls, opaque=()):
    """connections and timer settings made by every constructor of cls: list of (interp, state, log)"""
    p = ctx.p
    res = []
    for m in p.classes[cls]["methods"]:
        if m["n"] == cls + "::" + cls.rsplit("::", 1)[-1] and m["f"] in p.fns:
            def pick(ev):
                if ev.name == "QObject::connect":
                    return "connect"
                if ev.name.startswith("QTimer::"):
                    return ev.name
            mon = Log(pick, opaque, cap=60)
            out, I = ctx.run(p.fns[m["f"]], mon)
            for st, v in out:
                res.append((I, st, p.fns[m["f"]]))
    if not res:
        raise AnalysisError("no constructor of %s found" % cls)
    return res


def timer_of(I, st, term, field):
    """does the term denote the timer kept in this->field (member object or pointer)?"""
    loc = ("fl", THIS, field)
    return term in (("addr", loc), ("f", THIS, field), I.load(st, loc))


def timer_slots(ctx, cls, field, opaque=()):
    """(slot function, captures, settings dict) per constructor exit of the timer"""
    p = ctx.p
    out = []
    for I, st, fn in ctor_info(ctx, cls, opaque):
        slots, sett = [], {}
        for k, o, a, x in st.ghost.get("log", ()):
            if k == "connect" and len(a) >= 2 and timer_of(I, st, a[0], field) and a[1][0] == "fn" and a[1][1].startswith("QTimer::timeout"):
                t = [q for q in a[2:] if q[0] in ("fn", "lam")]
                if t:
                    slots.append(t[0])
            elif k.startswith("QTimer::") and timer_of(I, st, o, field):
                sett[k[8:]] = a[0] if a else VOID
        out.append((I, st, fn, slots, sett))
    return out


def check_C03(ctx):
    p = ctx.p
    r = Role2(ctx, CS)
    S = ("fl", THIS, r.state)
    en = p.field(CS, "m_enabled")
    rt = p.field(CS, "m_reconnectTimer")
    kt = p.field(CS, "m_keepAliveTimer")

    def timerlog(st, field):
        return [k[6:] for k, o, a, x in st.ghost.get("log", ()) if k.startswith("timer.") and o in (("addr", ("fl", THIS, field)), ("f", THIS, field))]
    # intervals and slots
    tslot = {}
    for name, field, iv in (("reconnect", rt, 5000), ("keep alive", kt, 30000)):
        for I, st, fn, slots, sett in timer_slots(ctx, CS, field):
            w = fnwhere(fn)
            ctx.require(sett.get("setInterval") == C(iv), "%s interval is %d ms" % (name, iv), "C03:interval:" + name, w,
                        "the %s timer has the interval %s" % (name, show(sett.get("setInterval", VOID))), st)
            ctx.require(sett.get("setSingleShot", FALSE) == FALSE, "%s timer repeats" % name, "C03:single:" + name, w, "the %s timer fires once" % name, st)
            if ctx.require(len(slots) == 1, "%s timer connected" % name, "C03:connect:" + name, w, "the %s timer is connected to %d slots" % (name, len(slots)), st):
                tslot[name] = slots[0]
    if len(tslot) < 2:
        return
    # every way into the disconnected state of an enabled server starts the reconnect timer
    for f in entries(ctx, r):
        res, I = run(ctx, r, f)
        w = fnwhere(f)
        for st, v in res:
            now = I.load(st, S)
            e = I.load(st, ("fl", THIS, en))
            e0 = I.decide(r.f(en), st)
            lg = timerlog(st, rt)
            if f["n"] not in (CS + "::stopServer", r.start["n"]):
                ctx.require(I.load(st, ("fl", THIS, en)) != FALSE or e0 is False, "only stopping disables the server", "C03:disabled:%s" % f["n"], w,
                            "the server is disabled although nobody stopped it: it does not reconnect any more", st)
            if now == r.disc and (now != r.f(r.state)) and I.decide(I.mk_eq(r.f(r.state), r.disc), st) is False:
                if I.decide(e, st) is True and e0 is True:
                    ctx.require("start" in lg and lg[-1] == "start", "reconnect scheduled when the connection is lost", "C03:lost:%s" % f["n"], w,
                                "the connection of an enabled server is lost without scheduling a reconnect", st)
                elif I.decide(e, st) is False and e0 is False:
                    ctx.require("start" not in lg or lg[-1] != "start", "no reconnect of a stopped server", "C03:stopped:%s" % f["n"], w,
                                "a reconnect is scheduled for a stopped server", st)
                elif e0 is None and I.decide(e, st) is None:
                    ctx.bad("C03:lost:%s" % f["n"], w, "the connection is lost without deciding on a reconnect", st)
            # keep alive follows running
            run0, run1 = I.decide(r.f(r.running), st), I.decide(I.load(st, ("fl", THIS, r.running)), st)
            kl = timerlog(st, kt)
            if run0 is False and run1 is True:
                ctx.require(kl[-1:] == ["start"], "keep alive runs while running", "C03:alive:%s" % f["n"], w, "a running server does not start its keep alive timer", st)
            if run0 is True and run1 is False:
                ctx.require(kl[-1:] == ["stop"], "keep alive stops with the server", "C03:alive2:%s" % f["n"], w, "the keep alive timer goes on after the server stopped running", st)
    # received data restarts it
    res, I = run(ctx, r, r.data)
    for st, v in res:
        ctx.require(timerlog(st, kt)[:1] == ["start"] or I.decide(I.mk_eq(r.f(r.state), r.ready), st) is False, "received data restarts the keep alive timer", "C03:rx", fnwhere(r.data),
                    "received data does not restart the keep alive timer", st)
    # starting and stopping
    res, I = run(ctx, r, r.start)
    url = params_of(r.start)[0]
    for st, v in res:
        if truth(I, st, v) is True:
            ctx.require(I.load(st, ("fl", THIS, en)) == TRUE and I.load(st, ("fl", THIS, r.url)) == url, "a started server is enabled for its url", "C03:start", fnwhere(r.start),
                        "after starting enabled=%s url=%s" % (show(I.load(st, ("fl", THIS, en))), show(I.load(st, ("fl", THIS, r.url)))), st)
            cn = logs(st, "connectServer")
            ctx.require(len(cn) == 1 and cn[0][2][0] == url, "start connects to the url", "C03:connects", fnwhere(r.start), "start connects %s" % [show(c[2][0]) for c in cn], st)
    stop = p.fn(CS + "::stopServer")
    res, I = run(ctx, r, stop)
    for st, v in res:
        ctx.require(I.load(st, ("fl", THIS, en)) == FALSE, "a stopped server is disabled", "C03:disable", fnwhere(stop), "stopping leaves the server enabled", st)
        ctx.require(timerlog(st, rt)[-1:] == ["stop"], "stopping cancels a scheduled reconnect", "C03:cancel", fnwhere(stop), "stopping does not cancel a scheduled reconnect", st)
        if is_null(I, st, r.f(r.conn)) is not True:
            d = logs(st, "disconnectServer")
            ctx.require(len(d) >= 1 and d[0][1] == r.f(r.conn), "stopping closes the connection", "C03:close", fnwhere(stop), "stopping does not close the connection", st)
        # disabled before the connection goes down: a synchronous disconnect must not schedule a reconnect
        seq = st.ghost.get("seq", ())
    order_disable(ctx, r, stop, en)
    order_start(ctx, r, en)
    # the timeouts
    f, caps = lam_fn(ctx, tslot["reconnect"])
    w = fnwhere(f)
    m = Log(pick_main, r.calls | {JC + "::processData", r.start["n"]}, cap=24)
    old = m.pick
    m.pick = lambda ev: "start" if ev.name == r.start["n"] and ev.kind in ("call", "enter") else old(ev)
    res, I = ctx.run(f, m, caps=caps)
    for st, v in res:
        e = I.decide(r.f(en), st)
        d = I.decide(I.mk_eq(r.f(r.state), r.disc), st)
        s = logs(st, "start")
        if e is True and d is True:
            ctx.require(len(s) == 1 and s[0][2][0] == r.f(r.url), "the reconnect timer connects again to the same url", "C03:retry", w, "reconnect timeout: %s" % [show(x[2][0]) for x in s], st)
        else:
            ctx.require(not s, "no reconnect of a stopped or connected server", "C03:noretry", w, "a server that is stopped or connected is started again", st)
    f, caps = lam_fn(ctx, tslot["keep alive"])
    w = fnwhere(f)
    m = Log(pick_main, r.calls, cap=24)
    res, I = ctx.run(f, m, caps=caps)
    for st, v in res:
        d = I.decide(I.mk_eq(r.f(r.state), r.ready), st)
        s = logs(st, "callPing")
        if d is True and is_null(I, st, r.f(r.json)) is not True:
            ctx.require(len(s) == 1, "a running server pings", "C03:ping", w, "keep alive timeout of a running server sends %d pings" % len(s), st)
        else:
            ctx.require(not s, "no ping when not running", "C03:noping", w, "a server that is not running sends a ping", st)
    for n in ("reconnect scheduled when the connection is lost", "the reconnect timer connects again to the same url", "a running server pings",
              "keep alive runs while running", "stopping closes the connection"):
        ctx.need(1, n)


def lam_fn(ctx, t):
    f = ctx.p.fns.get(t[1])
    if not f:
        raise AnalysisError("slot %s not found" % t[1])
    return f, (t[2] if t[0] == "lam" else None)


def order_disable(ctx, r, stop, en):
    """m_enabled is false before disconnectServer() is called (it may report the loss synchronously)"""
    class M(Monitor):
        opaque = frozenset()

        def event(self, st, ev):
            if pcname(ev.name) == PC + "::disconnectServer" and ev.kind in ("call", "enter"):
                v = self.I.load(st, ("fl", THIS, en))
                self.ctx.require(v == FALSE, "disabled before the connection is closed", "C03:order", ev.where(),
                                 "the connection is closed while the server is still enabled", st)
    ctx.run(stop, M())


def order_start(ctx, r, en):
    """the attempt to connect may fail synchronously: everything its signals need is in place when connectServer() is called"""
    url = params_of(r.start)[0]

    class M(Log):
        def event(self, st, ev):
            Log.event(self, st, ev)
            if pcname(ev.name) == PC + "::connectServer" and ev.kind in ("call", "enter"):
                I = self.I
                self.ctx.require(I.load(st, ("fl", THIS, en)) == TRUE, "enabled before the connection is opened", "C03:early", ev.where(),
                                 "the connection is opened before the server is enabled: an attempt failing at once is never repeated", st)
                self.ctx.require(I.load(st, ("fl", THIS, r.url)) == url, "the url is kept before the connection is opened", "C03:earlyurl", ev.where(),
                                 "the connection is opened before its url has been kept", st)
    ctx.run(r.start, M(pick_main, r.calls, cap=40))


# ============================================================================ C04
def check_C04(ctx):
    p = ctx.p
    r = Role2(ctx, CS)
    socks = p.field(CS, "m_tunnelProxySockets", r"TunnelProxySocket \*>")
    T = ("f", THIS, socks)
    TL = ("fl", THIS, socks)
    # announced
    ann = slot_of(ctx, JC + "::tunnelProxyClientConnected", CS)
    a = params_of(ann)
    w = fnwhere(ann)
    res, I = run(ctx, r, ann)
    par = {"m_clientName": [x for x in a if "QString" in x[3]][:1], "m_clientUuid": [x for x in a if "QUuid" in x[3]],
           "m_socketAddress": [x for x in a if "quint16" in x[3] or "unsigned short" in x[3]], "m_clientPeerAddress": [x for x in a if "QString" in x[3]][1:]}
    if any(len(v) != 1 for v in par.values()):
        raise AnalysisError("unexpected signature of %s" % ann["f"])
    addr = par["m_socketAddress"][0]

    class Listed(Log):
        """the application may react within the signal: the table is up to date when it is told"""

        def event(self, st, ev):
            Log.event(self, st, ev)
            if ev.kind == "emit" and ev.name == CS + "::clientConnected":
                self.ctx.require(self.I.get(self.I.load(st, TL), addr) == ev.args[0], "a socket is listed when it is announced", "C04:listfirst", ev.where(),
                                 "a socket is announced before it is listed", st)
            if ev.kind == "emit" and ev.name in (CS + "::clientDisconnected", SK + "::disconnected"):
                t = self.I.load(st, TL)
                self.ctx.require(t[0] == "rem" and t[1] == T, "a departed socket is unlisted when it is reported", "C04:unlistfirst", ev.where(),
                                 "a departure is reported while the socket is still listed", st)
    ctx.run(ann, Listed(pick_main, r.calls, cap=24))
    for st, v in res:
        t = I.load(st, TL)
        s = I.get(t, addr)
        ok = s[0] == "new" and s[1] == SK
        if not ctx.require(ok and t == ("ins", T, addr, s), "a new socket is listed under the announced address", "C04:list", w, "the sockets become %s" % show(t)[:160], st):
            continue
        for k, (x,) in par.items():
            v = fieldval(st, I, s, p.field(SK, k))
            good = unwrap_host(v) == x
            ctx.require(good, "socket carries the announced %s" % k[2:], "C04:%s" % k, w, "%s of the socket is %s" % (k, show(v)[:100]), st)
        em = logs(st, "emit.clientConnected")
        ctx.require(len(em) == 1 and em[0][1] == THIS and em[0][2][0] == s, "announced once to the application", "C04:announce", w,
                    "clientConnected is emitted %d times" % len(em), st)
        ctx.require(fieldval(st, I, s, p.field(SK, "m_connected")) == TRUE, "a new socket is connected", "C04:connected", w, "a new socket is not connected", st)
    # departed
    dep = slot_of(ctx, JC + "::tunnelProxyClientDisonnected", CS)
    a = params_of(dep)[0]
    w = fnwhere(dep)
    res, I = run(ctx, r, dep)
    S = ("get", T, a)
    mc = p.field(SK, "m_connected")
    ctx.run(dep, Listed(pick_main, r.calls, cap=24))
    # nothing else touches the table
    for f in entries(ctx, r) + friends(ctx, r):
        if f["f"] in (ann["f"], dep["f"], r.changed["f"], r.start["f"]):
            continue
        fres, I2 = run(ctx, r, f)
        for st, v in fres:
            t = I2.load(st, TL)
            if t != T and not logs(st, "connectServer"):
                ctx.bad("C04:writer:%s" % f["n"], fnwhere(f), "sockets are added or removed without an announcement, departure or loss: %s" % show(t)[:120], st)
            else:
                ctx.ok("the table only follows announcements, departures and losses")
    for st, v in res:
        em, cd, dl = logs(st, "emit.disconnected"), logs(st, "emit.clientDisconnected"), logs(st, "deleteLater", "delete")
        t = I.load(st, TL)
        if is_null(I, st, S) is True:
            ctx.require(not em and not cd and not dl, "an unknown departure changes nothing", "C04:unknown", w, "the departure of an unknown client has effects", st)
            ctx.require(t == T or t == ("rem", T, a), "an unknown departure removes nothing", "C04:unknown2", w, "the sockets become %s" % show(t)[:120], st)
        else:
            ctx.require(t == ("rem", T, a), "a departed client is no longer listed", "C04:unlist", w, "the sockets become %s" % show(t)[:120], st)
            ctx.require(len(em) == 1 and em[0][1] == S and fieldval(st, I, S, mc) == FALSE, "its socket reports the disconnect once", "C04:disc", w,
                        "disconnected is emitted %s" % [show(x[1])[:60] for x in em], st)
            ctx.require(len(cd) == 1 and cd[0][2][0] == S, "the server reports the departure once", "C04:dep", w, "clientDisconnected is emitted %d times" % len(cd), st)
            ctx.require([x[0] for x in dl] == ["deleteLater"] and dl[0][1] == S, "the socket object is released, but not while its signals run", "C04:free", w,
                        "released objects: %s" % [(x[0], show(x[1])[:60]) for x in dl], st)
    # disconnectSocket asks for its own address
    req = p.fn(SK + "::disconnectSocket")
    w = fnwhere(req)
    back = p.field(SK, "m_socketServer", r"TunnelProxySocketServer")
    own = p.field(SK, "m_socketAddress", r"quint16|unsigned short")
    res, I = run(ctx, r, req)
    bj = ("f", ("f", THIS, back), r.json)
    for st, v in res:
        c = logs(st, "callDisconnectClient")
        if is_null(I, st, bj) is True or is_null(I, st, ("f", THIS, back)) is True:
            ctx.require(not c, "no request without connection", "C04:noreq", w, "a request is made without connection", st)
            continue
        if not c:
            # unknown socket
            k = ("get", ("f", ("f", THIS, back), socks), ("f", THIS, own))
            ctx.require(is_null(I, st, k) is True, "disconnect request sent", "C04:req", w, "disconnectSocket sends no request", st)
            continue
        ctx.require(len(c) == 1 and c[0][1] == bj and c[0][2][0] == ("f", THIS, own), "the request names the socket's own address", "C04:reqaddr", w,
                    "disconnectSocket requests %s" % [show(x[2][0]) for x in c], st)
    # connection lost: every remaining socket is disconnected
    m = LossMon(ctx, r, T, mc, dep)
    res, I = ctx.run(r.changed, m)
    m.finish(res, I)
    for n in ("announced once to the application", "its socket reports the disconnect once", "the request names the socket's own address",
              "lost connection: every socket is disconnected"):
        ctx.need(1, n)


def unwrap_host(t):
    while t[0] == "ctorobj" and len(t[2]) == 1 or t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("toString",) and t[2]:
        t = t[2][0] if t[0] == "ctorobj" else t[2]
    return t


class LossMon(Log):
    """connectedChanged(false): every socket must be disconnected (loop over the table whose every iteration disconnects its element)"""

    def __init__(self, ctx, r, T, mc, dep):
        Log.__init__(self, pick_main, r.calls, 24)
        self.r, self.T, self.mc = r, T, mc
        self.covered = set()
        self.badl = []

    def event(self, st, ev):
        Log.event(self, st, ev)
        if ev.kind == "emit" and ev.name == SK + "::disconnected":
            st.ghost[("d", ev.obj)] = 1
        if ev.kind == "emit" and ev.name == CS + "::clientDisconnected":
            st.ghost[("c", ev.args[0])] = 1

    def loop_iter(self, interp, loop, st_in, outs):
        lid, Rt, fr, it = loop[:4]
        if Rt is None:
            # draining loop: whatever an iteration takes from the table is disconnected
            L_ = ("fl", THIS, self.T[2])
            t0 = interp.load(st_in, L_)
            for kind, x, v in outs:
                t1 = interp.load(x, L_)
                if t1 == t0:
                    continue
                k = t1[2] if t1[0] == "rem" and t1[1] == t0 else None
                w = "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"])
                self.ctx.require(k is not None and (is_null(interp, x, interp.get(t0, k)) is True or any(g[0] == "d" and g[1] == interp.get(t0, k) for g in x.ghost if isinstance(g, tuple))),
                                 "lost connection: every socket is disconnected", "C04:lost", w, "sockets are removed without being disconnected: %s" % show(t1)[:100], x)
                for g in [g for g in x.ghost if isinstance(g, tuple) and g[0] in ("d", "c")]:
                    del x.ghost[g]
                x.ghost["drain"] = 1
            return
        R0 = Rt[1] if Rt[0] in ("keys", "values") else Rt
        if R0 != self.T:
            return
        for kind, x, v in outs:
            ok = kind in ("n", "k")
            e = ("elem", R0, lid)
            hit = [g for g in x.ghost if isinstance(g, tuple) and g[0] == "d"]
            ks = (("elem", Rt, lid), ("elem", ("keys", R0), lid))
            alt = [g for g in hit if g[1] == e or g[1][0] in ("get", "elem") and (g[1][2] in ks or g[1][2] == lid)]
            # the element looked up in the current table: absent only if it has been handled before
            absent = any(a[0] == "eq" and a[1] == NULL and y and a[2][0] == "get" and a[2][2] in ks or a[0] == "has" and a[2] in ks and not y for a, y in x.facts.items())
            w = "%s:%s (%s)" % (fr.fn["file"], lid[2], fr.fn["n"])
            self.ctx.require(ok and (bool(alt) or absent), "lost connection: every socket is disconnected", "C04:lost", w,
                             "an iteration over the sockets of a lost connection does not disconnect its socket", x)
            x.ghost["swept"] = 1
            L_ = ("fl", THIS, self.T[2])
            t0, t1 = interp.load(st_in, L_), interp.load(x, L_)
            if not absent and not (t1[0] == "rem" and t1[1] == t0 and t1[2] in ks):
                x.ghost["kept"] = 1
            for g in [g for g in x.ghost if isinstance(g, tuple) and g[0] in ("d", "c")]:
                del x.ghost[g]

    def finish(self, res, I):
        fn = self.r.changed
        par = params_of(fn)[0]
        for st, v in res:
            if truth(I, st, par) is not False:
                continue
            cur = I.load(st, ("fl",) + self.T[1:])
            empty = I.decide(I.mk_eq(C(0), ("count", self.T)), st) is True
            drained = cur != EMPTY and I.decide(I.mk_eq(C(0), ("count", cur)), st) is True and st.ghost.get("drain")
            if not empty and not st.ghost.get("swept") and not drained and not self.ctx.oblig.get("lost connection: every socket is disconnected"):
                self.ctx.oblig["lost connection: every socket is disconnected"] = 0
            self.ctx.require(not st.ghost.get("kept") or cur == EMPTY or I.decide(I.mk_eq(C(0), ("count", cur)), st) is True or empty,
                             "lost connection: no socket stays listed", "C04:listed", fnwhere(fn), "the sockets of a lost connection stay listed: %s" % show(cur)[:120], st)
            self.ctx.require(st.ghost.get("swept") or empty or drained, "lost connection: all sockets are visited", "C04:sweep", fnwhere(fn),
                             "a lost connection leaves its sockets connected", st)


# ============================================================================ C05
def check_C05(ctx):
    for cls in (CS, CC):
        r = Role2(ctx, cls)
        short = cls.rsplit("::", 1)[-1]
        T = "C05:%s:" % short
        par = params_of(r.changed)[0]

        def released(st, I, w, what, key):
            """old connection and management client are detached, released and forgotten"""
            c0, j0 = r.f(r.conn), r.f(r.json)
            if is_null(I, st, c0) is False:
                dis = [e for e in logs(st, "disconnect") if (e[1] == c0 and (THIS in e[2] or not e[2]) or e[1] == THIS and c0 in e[2]
                       or len(e[2]) > 2 and e[2][0] == c0 and THIS in e[2][1:])
                       and all(a in (THIS, c0, VOID) or is_null(I, st, a) is True for a in e[2])]
                ctx.require(bool(dis), what + ": the old connection is detached", T + key + ":detach", w,
                            "%s: the signals of the old connection stay connected" % what, st)
                d = [e for e in logs(st, "deleteLater", "delete") if e[1] == c0]
                ctx.require(len(d) == 1 and d[0][0] == "deleteLater", what + ": the old connection is released once", T + key + ":release", w,
                            "%s: the old connection is released %s" % (what, [x[0] for x in d]), st)
            elif is_null(I, st, c0) is None:
                ctx.bad(T + key + ":detach", w, "%s does not care about an existing connection" % what, st)
            if is_null(I, st, j0) is False:
                d = [e for e in logs(st, "deleteLater", "delete") if e[1] == j0]
                ctx.require(len(d) == 1 and d[0][0] == "deleteLater", what + ": the old management client is released once", T + key + ":json", w,
                            "%s: the old management client is released %s" % (what, [x[0] for x in d]), st)
            elif is_null(I, st, j0) is None:
                ctx.bad(T + key + ":json", w, "%s does not care about an existing management client" % what, st)
        # ---- connection lost
        res, I = run(ctx, r, r.changed)
        w = fnwhere(r.changed)
        for st, v in res:
            if truth(I, st, par) is not False:
                continue
            released(st, I, w, "lost connection", "lost")
            for f, n in ((r.conn, "connection"), (r.json, "management client")):
                ctx.require(is_null(I, st, I.load(st, ("fl", THIS, f))) is True, "lost connection: the %s is forgotten" % n, T + "lost:forget:" + n, w,
                            "after a lost connection the %s is %s" % (n, show(I.load(st, ("fl", THIS, f)))[:60]), st)
            now = I.load(st, ("fl", THIS, r.state))
            ctx.require(now == r.disc or I.decide(I.mk_eq(now, r.disc), st) is True, "lost connection: state is disconnected", T + "lost:state", w, "after a lost connection the state is %s" % show(now), st)
        # ---- new connection
        res, I = run(ctx, r, r.start)
        w = fnwhere(r.start)
        n = 0
        for st, v in res:
            cn = logs(st, "connectServer")
            if not cn and truth(I, st, v) is False:
                ctx.require(I.load(st, ("fl", THIS, r.conn)) == r.f(r.conn), "refused start keeps the connection", T + "refused", w, "a refused start changes the connection", st)
                continue
            released(st, I, w, "new connection", "new")
            c1, j1 = I.load(st, ("fl", THIS, r.conn)), I.load(st, ("fl", THIS, r.json))
            fresh = c1
            while fresh[0] == "cast":
                fresh = fresh[2]
            if fresh[0] != "new":
                continue        # impossible enum value
            n += 1
            sigs = {}
            for k, o, a, x in logs(st, "connect"):
                if a and a[0] == c1 and len(a) >= 4 and a[1][0] == "fn" and THIS in a[2:]:
                    sigs.setdefault(a[1][1].split("(")[0].rsplit("::", 1)[-1], []).append(a[3])
            for s in ("connectedChanged", "dataReceived", "stateChanged", "errorOccurred", "sslErrors"):
                ctx.require(len(sigs.get(s, ())) == 1, "new connection: %s is connected once" % s, T + "connect:" + s, w,
                            "%s of the new connection is connected %d times" % (s, len(sigs.get(s, ()))), st)
            ctx.require(j1[0] == "new" and fieldval(st, I, j1, ctx.p.field(JC, "m_connection", r"ProxyConnection")) == c1, "the management client uses the new connection", T + "client", w,
                        "the management client is %s" % show(j1)[:80], st)
            ctx.require(len(cn) == 1 and cn[0][1] == c1 and cn[0][2][0] == params_of(r.start)[0], "the new connection is opened", T + "open", w, "opened %d times" % len(cn), st)
            # everything is connected before it is opened
            lg = [e[0] for e in st.ghost.get("log", ())]
            if cn:
                ctx.require("connect" not in lg[lg.index("connectServer"):], "signals connected before opening", T + "order", w, "signals are connected after opening the connection", st)
        if n < 2 and not ctx.viol:
            raise AnalysisError("only %d kinds of new connections found in %s" % (n, r.start["n"]))
    ctx.need(4, "lost connection: the old connection is detached")


# ============================================================================ N03
class NullMon(Log):
    def __init__(self, ctx, r, fields, tag):
        Log.__init__(self, lambda ev: None, r.calls | {JC + "::processData"})
        self.ctx, self.r, self.fields, self.tag = ctx, r, fields, tag

    def event(self, st, ev):
        # a callback into the library user or a closing connection may have run cleanUp()
        if ev.kind in ("call", "enter") and pcname(ev.name) in (JC + "::processData", PC + "::disconnectServer") or ev.kind == "emit" and ev.name in (
                SK + "::dataReceived",):
            for f in self.fields:
                loc = ("fl", THIS, f)
                st.heap[loc] = ("after", ev.name, ev.line, f)

    def deref(self, st, v, e, fr, interp):
        for f in self.fields:
            t = v
            while t[0] == "cast":
                t = t[2]
            if t == ("f", THIS, f) or t[0] == "after" and t[3] == f or t[0] == "phi" and t[2] == ("fl", THIS, f):
                nn = is_null(self.I, st, t) is False
                self.ctx.require(nn, "connection object checked before use", "N03:%s:%s:%s" % (self.r.cls.rsplit("::", 1)[-1], fr.fn["n"].rsplit("::", 1)[-1], f.rsplit("::", 1)[-1]),
                                 "%s:%s (%s)" % (fr.fn["file"], e.get("l"), fr.fn["n"]),
                                 "%s may be null here (entry %s)" % (f.rsplit("::", 1)[-1], self.tag), st)


def check_N03(ctx):
    p = ctx.p
    for cls in (CS, CC):
        r = Role2(ctx, cls)
        hot = set()
        for s in ("connectedChanged", "dataReceived", "stateChanged", "errorOccurred"):
            hot.add(slot_of(ctx, PC + "::" + s, cls)["f"])
        # slots of replies run within processData of the management client
        for c in p.connections:
            if c["sig"] and c["sig"].startswith(JR + "::finished") and c["slot"]:
                hot.add(c["slot"])
            if c["sig"] and c["sig"].startswith(JC + "::") and c["slot"]:
                hot.add(c["slot"])
        for f in entries(ctx, r) + friends(ctx, r):
            fields = (r.conn, r.json)
            m = NullMon(ctx, r, fields, f["n"])
            st0 = State()
            if f["f"] in hot:
                # signals of the connection / of replies: C05 detaches them when the objects are released
                for x in fields:
                    st0.facts[("eq", NULL, r.f(x))] = False
                variants = [st0]
            else:
                # anything else: ready implies that the connection exists (C02/C05), otherwise it may be gone
                a, b = State(), State()
                rd = Interp(p, m).mk_eq(r.f(r.state), r.ready)
                for x in fields:
                    a.facts[("eq", NULL, r.f(x))] = False
                a.facts[rd] = True
                b.facts[rd] = False
                variants = [a, b]
            for s in variants:
                ctx.run(f, m, st=s)
    ctx.need(8, "connection object checked before use")
