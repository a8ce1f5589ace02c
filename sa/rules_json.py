"""Rules for the JSON RPC management interface of the proxy server: J01 (one answer), J02 (validated invocation), J03 (protocol errors),
J04 (channel of the answers), J05 (nothing after a kill), I01 (described API = implemented API)."""
from framework import *
from rules_codec import slot_of, enumval, tobytes
from rules_client import params_of, unconv, mapitems

NS = "remoteproxy::"
JS = NS + "JsonRpcServer"
JH = NS + "JsonHandler"
JR = NS + "JsonReply"
JT = NS + "JsonTypes"
TP = NS + "TunnelProxyClient"
THIS = ("this",)
HMETH = frozenset(JH + "::" + n for n in ("hasMethod", "validateParams", "validateReturns", "introspect"))


class RpcMon(Monitor):
    """log of what one request causes, per path: sends and kills (with the framing state at that time), invocations, async bookkeeping"""

    def __init__(self, R, opaque=()):
        self.R = R
        self.opaque = R.CODEC | HMETH | {JS + "::formatAssertion", NS + "Engine::instance"} | frozenset(opaque)

    def log(self, st, *x):
        n = st.ghost.get("log", ())
        if len(n) < 12:
            st.ghost["log"] = n + (x,)

    def event(self, st, ev):
        R = self.R
        if R.is_send(ev):
            t = R.client_of(ev, self.I, st)
            sl = truth(self.I, st, fieldval(st, self.I, t, R.slip)) if t else None
            self.log(st, "send", t, ev.args[1], sl)
        elif R.is_kill(ev):
            self.log(st, "kill", R.client_of(ev, self.I, st))
        elif ev.name == "QMetaObject::invokeMethod":
            h = ev.args[0]
            ret = [a for a in ev.args if a[0] == "ctorobj" and a[1] == "QReturnArgument"]
            args = [a[2][1] for a in ev.args if a[0] == "ctorobj" and a[1] == "QArgument"]
            m = ev.args[1]
            while m[0] == "call" and m[1].rsplit("::", 1)[-1] in ("toLatin1", "toLocal8Bit"):
                m = m[2]     # names of described methods are identifiers
            self.log(st, "invoke", h, m, ev.args[2] if len(ev.args) > 2 else None, ret[0][2][1] if ret else None, tuple(args), tuple(st.facts.items()))
            for t in args:
                if t[0] == "p":
                    for f in (R.killreq, R.slipafter):
                        st.heap[("fl", t, f)] = ("fresh", "handler", (f,))
        elif ev.kind in ("call", "enter") and ev.name == JR + "::startWait":
            self.log(st, "wait", ev.obj)
        elif ev.short() == "connect" and len(ev.args) >= 4 and ev.args[1] == ("fn", JR + "::finished()"):
            self.log(st, "connect", ev.args[0], ev.args[2], ev.args[3])
        elif ev.short() == "deleteLater":
            self.log(st, "delete", ev.obj)


def L(st, *ks):
    return [e for e in st.ghost.get("log", ()) if e[0] in ks]


def answer(R, I, pay):
    """(map of the message, framed address or None, newline) of a management message; None if it is none"""
    sp = R.slip_payload(pay, I)
    raw = sp[1] if sp else pay
    parts = cat_parts(raw)
    if not parts:
        return None
    nl = (tobytes(parts[-1]) or (0,))[-1] == 10
    for t in subterms(raw):
        if t[0] == "ins":
            m = mapitems(t)
            if m and "id" in m:
                return m, (sp[0] if sp else None), nl
    return None


class Rpc:
    """one run over JsonRpcServer::processDataPacket"""

    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.p
        self.R = R = Roles(p)
        self.fn = fn = p.fn(JS + "::processDataPacket")
        self.w = fnwhere(fn)
        ps = params_of(fn)
        self.tc = [a for a in ps if "TransportClient" in a[3]][0]
        self.data = [a for a in ps if "QByteArray" in a[3]][0]
        self.handlers = p.field(JS, "m_handlers", r"JsonHandler \*>")
        self.clients = p.field(JS, "m_clients", r"TransportClient \*>$")
        self.areplies = p.field(JS, "m_asyncReplies", r"JsonReply \*")
        self.rtype = p.field(JR, "m_type", r"Type$")
        self.rcid = p.field(JR, "m_commandId", r"^int$")
        self.rdata = p.field(JR, "m_data", r"QMap|QVariantMap")
        self.tout = p.field(JR, "m_timedOut", r"^bool$")
        self.ASYNC = C(enumval(p, JR + "::Type", "TypeAsync"))
        self.mon = RpcMon(R)
        self.res, self.I = ctx.run(fn, self.mon)

    def exits(self):
        """(state, sends, kills, invoke) of the exits with a live transport"""
        for st, v in self.res:
            if is_null(self.I, st, ("f", self.tc, self.R.iface)) is True:
                continue
            inv = L(st, "invoke")
            yield st, L(st, "send"), L(st, "kill"), inv[0] if inv else None

    def noreply(self, st, inv):
        return inv is not None and inv[4] is not None and is_null(self.I, st, inv[4]) is True

    def is_async(self, st, inv):
        if inv is None or inv[4] is None:
            return False
        return self.I.decide(self.I.mk_eq(("f", inv[4], self.rtype), self.ASYNC), st) is not False

    # -- what the path knows about the request
    def msg(self, t, key):
        """t is (derived from) the value under key in the message"""
        return any(q[0] == "get" and q[2] == C(key) and contains_term(q[1], self.data) for q in subterms(t))

    def bad(self, st):
        """why the request is no valid request on this path ('' = no reason found)"""
        for a, v in st.facts.items():
            if a[0] == "eq" and a[1] == C(0) and a[2][0] in ("f", "get") and "error" in str(a[2][-1]) and any(q[0] == "call" and q[1].endswith("fromJson") for q in subterms(a)):
                if v is False:
                    return "json"
            elif a[0] == "call" and a[1].endswith("::isNull") and a[2] is not None and a[2][0] == "call" and a[2][1].endswith("fromJson") and v:
                return "json"
            elif a[0] == "out" and self.msg(a, "id") and v is False:
                return "id"
            elif a[0] == "has" and a[2] == C("id") and v is False:
                return "id"
            elif a[0] == "call" and a[1].endswith("canConvert") and self.msg(a, "id") and v is False:
                return "id"
            elif a[0] == "eq" and a[1] == C(2) and a[2][0] == "count" and self.msg(a[2], "method") and v is False:
                return "method"
            elif a[0] == "eq" and a[1] == NULL and a[2][0] == "get" and a[2][1] == ("f", THIS, self.handlers) and v is True:
                return "namespace"
            elif a[0] == "has" and a[1] == ("f", THIS, self.handlers) and v is False:
                return "namespace"
            elif a[0] == "call" and a[1] == JH + "::hasMethod" and v is False:
                return "method"
            elif a[0] == "f" and str(a[2]).endswith("first") and a[1][0] == "call" and a[1][1] == JH + "::validateParams" and v is False:
                return "params"
        return ""


def valid_facts(r, facts, h, meth, params):
    """(handler known, method known, params validated) at the invocation"""
    facts = dict(facts)
    I = r.I
    known = facts.get(I.mk_eq(h, NULL)) is False or h[0] == "get" and facts.get(I.has(h[1], h[2])) is True
    hm = vp = False
    for a, v in facts.items():
        if v and a[0] == "call" and a[1] == JH + "::hasMethod" and a[2] == h and a[3] == (meth,):
            hm = True
        if v and a[0] == "f" and str(a[2]).endswith("first") and a[1][0] == "call" and a[1][1] == JH + "::validateParams" and a[1][2] == h and \
                a[1][3][0] == meth and (params is None or a[1][3][1] == params):
            vp = True
    return known, hm, vp


# ============================================================================ J01
def check_J01(ctx):
    r = Rpc(ctx)
    R, I, w = r.R, r.I, r.w
    for st, sends, kills, inv in r.exits():
        if r.noreply(st, inv):
            continue
        if inv is not None and r.is_async(st, inv):
            rep = inv[4]
            ctx.require(not sends, "an asynchronous request is answered later", "J01:async", w, "an asynchronous request is answered at once", st)
            t = I.load(st, ("fl", THIS, r.areplies))
            ctx.require(t == ("ins", ("f", THIS, r.areplies), rep, r.tc), "asynchronous replies are filed under their requester", "J01:file", w,
                        "the pending replies become %s" % show(t)[:120], st)
            cid = fieldval(st, I, rep, r.rcid)
            ctx.require(r.msg(cid, "id"), "an asynchronous reply carries the id of its request", "J01:asyncid", w, "the reply carries %s" % show(cid)[:80], st)
            k = [e[0] for e in st.ghost.get("log", ()) if e[0] in ("connect", "wait")]
            ctx.require(k == ["connect", "wait"] and L(st, "connect")[0][1:3] == (rep, THIS), "completion of an asynchronous reply is observed", "J01:finished", w,
                        "connect/start of the reply: %s" % k, st)
            continue
        if not ctx.require(len(sends) == 1, "exactly one response per request", "J01:once", w, "%d responses are sent for one request" % len(sends), st):
            continue
        s = sends[0]
        ctx.require(s[1] == r.tc, "the requester gets the response", "J01:requester", w, "the response goes to %s" % show(s[1])[:80] if s[1] else "the response goes elsewhere", st)
        a = answer(R, I, s[2])
        if not ctx.require(a is not None, "the response is a JSON object with an id", "J01:form", w, "the response is %s" % show(s[2])[:150], st):
            continue
        m, addr, nl = a
        ctx.require(m.get("status") in (C("success"), C("error")), "the response carries its status", "J01:status", w, "status is %s" % show(m.get("status", NULL)), st)
        noid = r.bad(st) in ("json", "id")
        if noid:
            ctx.require(m["id"] == C(-1), "a request without usable id is answered with -1", "J01:noid", w, "it is answered with id %s" % show(m["id"])[:80], st)
        else:
            ctx.require(deconv(m["id"])[0] in ("get", "call") and r.msg(m["id"], "id"), "the response carries the id of its request", "J01:id", w,
                        "the response carries id %s" % show(m["id"])[:120], st)
        if m.get("status") == C("success"):
            ok = inv is not None and m.get("params") == ("f", inv[4], r.rdata)
            ctx.require(ok, "a successful response carries the result of the invocation", "J01:result", w, "the result sent is %s" % show(m.get("params", NULL))[:80], st)
        else:
            ctx.require(inv is None and "error" in m, "an error response carries its reason", "J01:error", w, "an error response without reason, or after the method ran", st)
    # later answers
    afn = slot_of(ctx, JR + "::finished", JS)
    m = RpcMon(R)
    res, I2 = ctx.run(afn, m)
    w = fnwhere(afn)
    for st, v in res:
        sends, kills = L(st, "send"), L(st, "kill")
        t = I2.load(st, ("fl", THIS, r.areplies))
        if t[0] != "rem":
            ctx.bad("J01:asynctake", w, "an asynchronous reply stays pending after it finished", st)
            continue
        rep = t[2]
        who = ("get", t[1], rep)
        if is_null(I2, st, who) is True:
            ctx.require(not sends and not kills, "nothing is sent for a vanished requester", "J01:vanished", w, "a vanished requester is answered", st)
            continue
        if is_null(I2, st, ("f", who, R.iface)) is True:
            continue
        if not ctx.require(len(sends) == 1 and sends[0][1] == who, "exactly one late response to the requester", "J01:late", w, "%d late responses" % len(sends), st):
            continue
        a = answer(R, I2, sends[0][2])
        if not ctx.require(a is not None and a[0]["id"] == ("f", rep, r.rcid), "a late response carries the id of its request", "J01:lateid", w, "the late response is %s" % show(sends[0][2])[:120], st):
            continue
        to = truth(I2, st, ("f", rep, r.tout))
        ctx.require((a[0].get("status") == C("error")) == (to is True), "a timed out request is answered with an error", "J01:timeout", w, "wrong status of a late response", st)
    pending_dropped(ctx, r)
    ctx.need(1, "exactly one late response to the requester")
    ctx.need(8, "exactly one response per request")
    ctx.need(1, "a successful response carries the result of the invocation")
    handlers_reply(ctx, R)


def pending_dropped(ctx, r):
    """unregistering a connection forgets every request of it that still waits for its answer"""
    fn = ctx.p.fn(JS + "::unregisterClient")
    tc = params_of(fn)[0]
    PEND = ("f", THIS, r.areplies)

    class M(Monitor):
        def write(self, st, loc, val, fr, node):
            if loc == ("fl", THIS, r.areplies):
                if fr.loops:
                    self.loops.add(fr.loops[-1])
                if val[0] == "rem" and val[2][0] == "elem":
                    st.ghost[("mark", val[2], "gone")] = 1

        def loop_iter(self, interp, loop, st_in, outs):
            lid, R, fr, it = loop
            if R is None:
                return
            m.counted.add(lid)
            e = ("elem", R, lid)
            for k, x, v in outs:
                if k in ("n", "k") and any(f[0] == "eq" and v0 is False and tc in f[1:] and any(g[0] == "get" and g[2] == e or g == ("elem", PEND, lid) for g in f[1:])
                                           for f, v0 in x.facts.items()):
                    x.ghost[("mark", e, "gone")] = 1

        def loop_exit(self, interp, lid, x, kind):
            x.ghost[("left", lid)] = kind != "break"
    m = M()
    m.loops = set()
    m.counted = set()
    res, I = ctx.run(fn, m)
    w = fnwhere(fn)
    seen = False
    for st, v in res:
        t = I.load(st, ("fl", THIS, r.clients))
        if t == ("f", THIS, r.clients):
            continue
        seen = True
        cur = I.load(st, ("fl", THIS, r.areplies))
        covers = (("keysof", PEND, tc), ("keys", PEND), PEND)
        ok = any(("forall", R, "gone") in st.ghost for R in covers)
        ok = ok or is_null(I, st, ("keyof", cur, tc)) is True or I.decide(("hasval", cur, tc), st) is False
        ok = ok or any(I.decide(I.mk_eq(("count", R), C(0)), st) is True for R in covers)
        ok = ok or any(st.ghost.get(("left", lid)) for lid in m.loops if lid not in m.counted)
        ctx.require(ok, "a departing connection leaves no request waiting for its answer", "J01:pending", w,
                    "a pending answer of a departed connection stays filed and is later sent to it", st)
    ctx.require(seen, "departing connections are forgotten", "J01:forget", w, "unregistering a connection changes nothing")


def invokables(p):
    """invokable request methods of the JSON handlers: [(class, method record, function)]"""
    r = []
    for c, k in p.classes.items():
        if JH not in k["allbases"] and c != JH:
            continue
        for m in k["methods"]:
            if m["ret"].replace(" ", "").endswith("JsonReply*") and m.get("mode") == "qt_invokable" and m["f"] in p.fns:
                r.append((c, m, p.fns[m["f"]]))
    return r


def handlers_reply(ctx, R):
    """lemma: every request method of a handler returns a reply object on every path"""
    n = 0
    for c, m, fn in invokables(ctx.p):
        mon = RpcMon(R, (JR + "::createReply", JR + "::createAsyncReply", JT + "::allTypes", JT + "::tunnelProxyErrorToString",
                         NS + "TunnelProxyServer::registerServer", NS + "TunnelProxyServer::registerClient", NS + "TunnelProxyServer::disconnectClient"))
        res, I = ctx.run(fn, mon)
        for st, v in res:
            ok = any(q[0] in ("call", "fresh") and str(q[1]).endswith(("createReply", "createAsyncReply")) or q[0] == "new" for q in subterms(v))
            ctx.require(ok and not L(st, "send"), "a request method returns its reply", "J01:reply:" + fn["n"], fnwhere(fn), "returns %s" % show(v)[:80], st)
        n += 1
    if n < 4:
        raise AnalysisError("only %d request methods found" % n)


# ============================================================================ J02
def check_J02(ctx):
    r = Rpc(ctx)
    R, I, w, p = r.R, r.I, r.w, ctx.p
    n = 0
    for st, v in r.res:
        for inv in L(st, "invoke"):
            _, h, meth, conn, rep, args, facts = inv
            n += 1
            params = [a for a in args if a[0] != "p"]
            known, hm, vp = valid_facts(r, facts, h, meth, params[0] if params else None)
            ctx.require(h[0] == "get" and h[1] == ("f", THIS, r.handlers) and r.msg(h[2], "method") and known, "a known handler of the requested namespace is invoked", "J02:handler", w,
                        "invoked on %s" % show(h)[:100], st)
            ctx.require(hm and r.msg(meth, "method"), "only a described method is invoked", "J02:method", w, "method %s is invoked without being checked" % show(meth)[:80], st)
            ctx.require(vp and len(params) == 1 and r.msg(params[0], "params"), "only validated parameters are passed", "J02:params", w,
                        "the parameters passed were not validated: %s" % show(params[0])[:80] if params else "no parameters passed", st)
            ctx.require(r.tc in args, "the requester is passed to the method", "J02:client", w, "the requester is not passed", st)
            ctx.require(conn in (C(1), C(0)), "the method runs before the answer", "J02:direct", w, "the method is not invoked directly", st)
            ctx.require(r.bad(st) == "", "no invalid request is executed", "J02:invalid", w, "a request with an invalid %s is executed" % r.bad(st), st)
            sp = h[2]
            odd = [q[1] for t in (sp, meth) for q in subterms(t) if q[0] == "call" and q[1].rsplit("::", 1)[-1] in REWRITES]
            ctx.require(not odd, "the requested name is used as it is", "J02:rewritten", w, "the requested name is rewritten by %s before it is looked up" % ", ".join(odd), st)
            ctx.require(sp != meth, "namespace and method are different parts of the name", "J02:split", w, "namespace and method are the same part", st)
        ctx.require(len(L(st, "invoke")) <= 1, "a request is executed at most once", "J02:once", w, "a request is executed twice", st)
    if not n:
        raise AnalysisError("no invocation of a request method found")
    # hasMethod / validateParams
    D, P, RT = (p.field(JH, f, None) for f in ("m_descriptions", "m_params", "m_returns"))
    fn = p.fn(JH + "::hasMethod")
    res, I2 = ctx.run(fn, Monitor())
    a = params_of(fn)[0]
    for st, v in res:
        t = truth(I2, st, v)
        if t is False:
            continue
        for f in (D, P, RT):
            at = I2.has(("f", THIS, f), a)
            ctx.require(I2.decide(at, st) is True or v == at or contains_and(v, at), "a method exists only if it is fully described", "J02:hasMethod:" + f.rsplit("::", 1)[-1], fnwhere(fn),
                        "a method without %s exists" % f.rsplit("::", 1)[-1], st)
    fn = p.fn(JH + "::validateParams")
    m = Monitor()
    m.opaque = frozenset((JT + "::validateMap",))
    res, I2 = ctx.run(fn, m)
    a = params_of(fn)
    for st, v in res:
        ok = v[0] == "call" and v[1] == JT + "::validateMap" and v[3] == (("get", ("f", THIS, P), a[0]), a[1])
        ctx.require(ok, "parameters are validated against the template of the method", "J02:template", fnwhere(fn), "validated as %s" % show(v)[:150], st)
    validators(ctx)


REWRITES = ("trimmed", "simplified", "toLower", "toUpper", "toCaseFolded", "normalized", "toLatin1", "toLocal8Bit", "fromLatin1", "remove", "replace", "chopped", "repeated")


def contains_and(v, at):
    return v == at or v[0] == "and" and (contains_and(v[1], at) or contains_and(v[2], at))


class LoopFlags(Monitor):
    def __init__(self, opaque):
        self.opaque = frozenset(opaque)
        self.iters = []

    def loop_iter(self, interp, loop, st_in, outs):
        self.iters.append((loop[0], loop[1], st_in, outs))

    def loop_exit(self, interp, lid, x, how):
        x.ghost[("done", lid)] = how


def first_true(st, callpred):
    """the path knows <call>.first to be true for a call satisfying callpred"""
    return any(v and a[0] == "f" and str(a[2]).endswith("first") and a[1][0] == "call" and callpred(a[1]) for a, v in st.facts.items())


def first_false(st, t):
    return any(v is False and a[0] == "f" and str(a[2]).endswith("first") and a[1] == t for a, v in st.facts.items())


def validators(ctx):
    p = ctx.p
    names = [JT + "::" + n for n in ("validateVariant", "validateMap", "validateList", "validateProperty", "validateEnum", "validateBasicType")]
    # ---- validateMap
    fn = p.fn(JT + "::validateMap")
    w = fnwhere(fn)
    T, M = params_of(fn)
    m = LoopFlags([x for x in names if x != JT + "::validateMap"])
    res, I = ctx.run(fn, m)
    overT = overM = 0
    for lid, Rr, st0, outs in m.iters:
        for kind, x, v in outs:
            if kind not in ("n", "k"):
                if kind == "r":
                    continue
                ctx.bad("J02:map:stop", w, "the validation stops before all keys are checked", x)
                continue
            if Rr in (T, ("keys", T)):
                overT += 1
                strip = [a[2] for a in x.facts if a[0] == "has" and a[1] == M]
                ctx.require(bool(strip), "every declared key is looked up", "J02:map:lookup", w, "a declared key is not looked up", x)
                for s in strip[:1]:
                    have = x.facts.get(("has", M, s))
                    opt = any(v2 and a[0] == "call" and a[1].endswith("startsWith") and a[3] and a[3][0] == C("o:") for a, v2 in x.facts.items())
                    ctx.require(have is not False or opt, "a missing mandatory key is rejected", "J02:map:missing", w, "a missing mandatory key is accepted", x)
                    if have is not False:
                        ok = first_true(x, lambda c: c[1] == JT + "::validateVariant" and c[3][0] in (("elem", T, lid), ("itelem", T, lid), ("get", T, ("elem", Rr, lid))) and c[3][1] == ("get", M, s))
                        ctx.require(ok, "the value of every present key is validated", "J02:map:value", w, "the value of a present key is not validated", x)
            elif Rr in (M, ("keys", M)):
                overM += 1
                ok = any(v2 and a[0] == "has" and a[1] == T and any(q[0] in ("elem", "get", "itelem") and contains_term(q, M) or q[0] == "elem" for q in subterms(a[2])) for a, v2 in x.facts.items())
                ctx.require(ok, "an undeclared key is rejected", "J02:map:foreign", w, "an undeclared key is accepted", x)
    ctx.require(overT and overM, "declared and given keys are both examined", "J02:map:loops", w, "validateMap does not examine %s" % ("the declared keys" if not overT else "the given keys"))
    lids = {i[0] for i in m.iters if i[1] in (T, ("keys", T), M, ("keys", M))}
    for st, v in res:
        if isfalse(I, st, v):
            continue
        done = {g[1] for g in st.ghost if isinstance(g, tuple) and g[0] == "done" and st.ghost[g] in ("eof", "zero")}
        ctx.require(lids <= done, "a map is only accepted after all its keys were checked", "J02:map:early", w, "a map can be accepted without checking all its keys", st)
    # ---- validateVariant
    fn = p.fn(JT + "::validateVariant")
    w = fnwhere(fn)
    T, V = params_of(fn)
    m = LoopFlags([x for x in names if x != JT + "::validateVariant"] + [JT + "::init"])
    res, I = ctx.run(fn, m)
    n = 0
    for st, v in res:
        if isfalse(I, st, v):
            continue
        call = v if v[0] == "call" else None
        def good(c):
            return c[1] in names and contains_term(c[3][-1], V) and (c[1].endswith(("validateBasicType", "validateEnum")) or contains_term(c[3][0], T))
        ok = call is not None and good(call) or first_true(st, good)
        n += 1
        ctx.require(ok, "a value is only accepted by its validator", "J02:variant", w, "a value is accepted without validation", st)
        ty = [a for a, x in st.facts.items() if x and a[0] == "eq" and is_c(a[1]) and a[2][0] == "call" and a[2][1].endswith("QVariant::type")]
        kind = {10: "validateProperty validateEnum validateBasicType", 8: "validateMap", 9: "validateList"}
        for a in ty:
            want = kind.get(a[1][1], "")
            used = call[1] if call is not None else next((b[1][1] for b, x in st.facts.items() if x and b[0] == "f" and str(b[2]).endswith("first") and b[1][0] == "call"), "")
            ctx.require(used.rsplit("::", 1)[-1] in want.split(), "template kinds use their own validator", "J02:kind", w, "template type %s is validated by %s" % (a[1][1], used), st)
    if n < 4:
        raise AnalysisError("validateVariant: only %d accepting paths found" % n)
    # ---- validateProperty
    fn = p.fn(JT + "::validateProperty")
    w = fnwhere(fn)
    T, V = params_of(fn)
    m = LoopFlags([JT + "::basicTypeToString", JT + "::init"])
    m.overloads = (JT + "::basicTypeToString",)
    res, I = ctx.run(fn, m)
    bt = {e["n"].rsplit("::", 1)[-1]: e["v"] for e in p.enums[JT + "::BasicType"]["v"]}
    qt = {30: "Uuid", 10: "String", 1: "Bool", 2: "Int", 3: "UInt", 6: "Double"}
    cases = set()
    for st, v in res:
        if isfalse(I, st, v):
            continue
        names_ = set()
        for a, x in st.facts.items():
            if x and a[0] == "eq":
                for q in (a[1], a[2]):
                    if q[0] == "call" and q[1].startswith(JT + "::basicTypeToString(") and is_c(q[3][0]) and contains_term(a[1] if q is a[2] else a[2], T):
                        names_.add((q[3][0][1], q))
        f = v[1] if v[0] == "pair" else None
        ok = False
        for code, q in names_:
            nm = q_name(q, bt, qt)
            cases.add(nm)
            if nm in ("Variant", "Object"):
                ok = True
            elif f is not None and f[0] == "call" and f[1].endswith("canConvert") and f[2] == V and is_c(f[3][0]) and qt.get(f[3][0][1]) == nm:
                ok = True
            elif f is not None and truth(I, st, f) is True and any(x and a[0] == "call" and a[1].endswith("canConvert") and a[2] == V and is_c(a[3][0]) and qt.get(a[3][0][1]) == nm for a, x in st.facts.items()):
                ok = True
        ctx.require(ok, "a property is only accepted if it converts to its declared type", "J02:property", w, "a property is accepted without conversion check", st)
    ctx.require({"Uuid", "String", "Bool", "UInt"} <= cases, "the declared property types are validated", "J02:types", w, "property types validated: %s" % sorted(x for x in cases if x))
    # ---- names of the property types
    fns = [f for f in p.fns.values() if f["n"] == JT + "::basicTypeToString" and "Type" in f["params"][0]["t"] and "QVariant" in f["params"][0]["t"]]
    for fn in fns:
        res, I = ctx.run(fn, Monitor())
        a = params_of(fn)[0]
        for st, v in res:
            for at, x in st.facts.items():
                if x and at[0] == "eq" and is_c(at[1]) and at[2] == a and at[1][1] in qt:
                    ctx.require(v == C(qt[at[1][1]]), "property types are named as declared", "J02:typename", fnwhere(fn), "type %s is named %s" % (qt[at[1][1]], show(v)[:40]), st)
    # ---- validateList
    fn = p.fn(JT + "::validateList")
    w = fnwhere(fn)
    T, V = params_of(fn)
    m = LoopFlags([x for x in names if x != JT + "::validateList"])
    res, I = ctx.run(fn, m)
    for lid, Rr, st0, outs in m.iters:
        if not any(kind in ("n", "k") for kind, x, v in outs):
            ctx.bad("J02:list", w, "the validation of a list stops at its first entry")
        for kind, x, v in outs:
            if kind in ("n", "k"):
                ok = first_true(x, lambda c: c[1] == JT + "::validateVariant" and contains_term(c[3][0], T) and contains_term(c[3][1], V))
                ctx.require(ok, "every list entry is validated", "J02:list", w, "a list entry is accepted without validation", x)
            elif kind == "b":
                ctx.bad("J02:list", w, "the validation of a list stops early", x)
    ctx.need(2, "every declared key is looked up")
    ctx.need(1, "every list entry is validated")


def q_name(q, bt, qt):
    """name of the type a basicTypeToString call stands for"""
    d = qt if "QVariant::Type" in q[1] else {v: k for k, v in bt.items()}
    return d.get(q[3][0][1])


def isfalse(I, st, v):
    """the returned validation result is negative"""
    if v[0] == "pair":
        return truth(I, st, v[1]) is False
    if v[0] == "call":
        return first_false(st, v)
    return False


# ============================================================================ J03
def order(st):
    return [e for e in st.ghost.get("log", ()) if e[0] in ("send", "kill")]


def closes_after(ctx, st, I, R, tc, w, key):
    """the connection is closed iff that was requested, once, after the response"""
    o = order(st)
    kills = [e for e in o if e[0] == "kill"]
    kr = truth(I, st, fieldval(st, I, tc, R.killreq))
    if kr is True:
        ctx.require(len(kills) == 1 and kills[0][1] == tc and o[-1] is kills[0], "a connection to be closed is closed after the response", key + ":close", w,
                    "a connection that is to be closed after the response is not closed then", st)
    else:
        ctx.require(not kills and kr is False, "a connection not to be closed stays open", key + ":keep", w,
                    "the connection is closed without request" if kills else "the request to close the connection is not looked at", st)


def check_J03(ctx):
    r = Rpc(ctx)
    R, I, w = r.R, r.I, r.w
    kinds = set()
    for st, sends, kills, inv in r.exits():
        if r.noreply(st, inv):
            ctx.require(not kills and not sends, "an internal error changes nothing", "J03:internal", w, "an internal error closes a connection", st)
            continue
        if inv is not None and r.is_async(st, inv):
            ctx.require(not kills, "a pending request keeps its connection", "J03:pending", w, "the connection is closed while its answer is pending", st)
            continue
        if inv is None:
            b = r.bad(st)
            ctx.require(b != "", "only protocol errors are refused", "J03:reason", w, "a valid request is refused", st)
            kinds.add(b)
            o = order(st)
            ctx.require([e[0] for e in o] == ["send", "kill"] and o[0][1] == o[1][1] == r.tc, "a protocol error is answered and then closes the connection", "J03:error", w,
                        "a protocol error (%s) causes: %s" % (b, ", ".join("%s %s" % (e[0], "requester" if e[1] == r.tc else "other") for e in o) or "nothing"), st)
            a = sends and answer(R, I, sends[0][2])
            if a:
                ctx.require(a[0].get("status") == C("error") and "error" in a[0], "a protocol error is answered with an error", "J03:status", w, "a protocol error is answered with %s" % show(a[0].get("status", NULL)), st)
            for f in (R.killreq, R.slip, R.slipafter):
                v0 = ("f", r.tc, f)
                ctx.require(fieldval(st, I, r.tc, f) == v0, "a protocol error changes no other state", "J03:state", w, "a protocol error changes %s" % f.rsplit("::", 1)[-1], st)
        else:
            closes_after(ctx, st, I, R, r.tc, w, "J03:sync")
            ctx.require(r.bad(st) == "", "no request with a protocol error is executed", "J03:executed", w, "a request with an invalid %s is executed" % r.bad(st), st)
    for k in ("json", "id", "method", "namespace", "params"):
        ctx.require(k in kinds, "every kind of protocol error is refused", "J03:kind:" + k, w, "an invalid %s is not refused" % k)
    afn = slot_of(ctx, JR + "::finished", JS)
    m = RpcMon(R)
    res, I2 = ctx.run(afn, m)
    w = fnwhere(afn)
    for st, v in res:
        sends = L(st, "send")
        if not sends or not sends[0][1]:
            ctx.require(not L(st, "kill"), "nothing is closed for a vanished requester", "J03:vanished", w, "a connection is closed although the requester vanished", st)
            continue
        closes_after(ctx, st, I2, R, sends[0][1], w, "J03:async")
        rep = [t for t in subterms(sends[0][1]) if t[0] == "get"]
        to = truth(I2, st, ("f", rep[0][2], r.tout)) if rep else None
        if to is True:
            ctx.require(bool(L(st, "kill")), "a timed out request closes its connection", "J03:timeout", w, "a timed out request leaves its connection open", st)
    ctx.need(5, "a protocol error is answered and then closes the connection")
    ctx.need(1, "a connection to be closed is closed after the response")
    ctx.need(1, "a connection not to be closed stays open")


# ============================================================================ J04
def channel(ctx, R, I, st, s, key, w):
    """management messages go through frame 0 of a framed connection and raw otherwise"""
    slip0 = I.decide(("f", s[1], R.slip), st) if s[1] else None
    a = answer(R, I, s[2])
    if a is None:
        ctx.bad(key + ":form", w, "a management message is %s" % show(s[2])[:150], st)
        return
    m, addr, nl = a
    if addr is None:
        ctx.require(slip0 is False, "unframed connections get raw messages", key + ":raw", w, "a raw message is sent on a connection that %s" % ("is framed" if slip0 else "may be framed"), st)
    else:
        ctx.require(slip0 is True, "framed connections get framed messages", key + ":framed", w, "a framed message is sent on a connection that %s" % ("is not framed" if slip0 is False else "may not be framed"), st)
        ctx.require(addr == C(0), "management messages use address 0", key + ":address", w, "a management message is sent in the tunnel %s" % show(addr), st)
    sp = R.slip_payload(s[2], I)
    js = [t for t in subterms(sp[1] if sp else s[2]) if t[0] == "call" and t[1] == "QJsonDocument::toJson"]
    ctx.require(all(t[3] and t[3][0] == C(1) for t in js), "management messages are one line", key + ":oneline", w,
                "a management message is not written in the compact form: a line inside of it may end with a closing brace, which ends the message for its receiver", st)
    ctx.require(nl, "management messages are newline terminated", key + ":newline", w, "a management message is not terminated by a newline", st)


def callers_of(p, f):
    r = []
    for g in p.fns.values():
        for part in [g.get("body")] + [i["e"] for i in g.get("inits", [])]:
            if part and any(n.get("k") in ("call", "fn") and n.get("f") == f["f"] for n in walk(part)):
                r.append(g)
                break
    return r


def check_J04(ctx):
    from rules_tunnel import mutates
    r = Rpc(ctx)
    R, I, w, p = r.R, r.I, r.w, ctx.p
    sl0 = ("f", r.tc, R.slip)
    for st, sends, kills, inv in r.exits():
        for s in sends:
            channel(ctx, R, I, st, s, "J04", w)
        end = fieldval(st, I, r.tc, R.slip)
        sa = truth(I, st, fieldval(st, I, r.tc, R.slipafter))
        ok = inv is not None and sends and not kills and not r.noreply(st, inv) and not r.is_async(st, inv)
        if ok and sa is True:
            ctx.require(truth(I, st, end) is True, "framing is enabled after a successful server registration", "J04:enable", w, "the requested framing is not enabled", st)
            ctx.require(sends[0][3] == I.decide(sl0, st), "framing is enabled after the answer", "J04:early", w, "framing is enabled before the answer is sent", st)
        elif ok:
            ctx.require(end == sl0 and sa is False, "framing changes only on request", "J04:unasked", w, "framing is %s" % ("changed without request" if end != sl0 else "not enabled on request"), st)
        else:
            ctx.require(end == sl0 or I.decide(end, st) == I.decide(sl0, st) is not None, "framing changes only on success", "J04:refused", w, "framing is changed by a request that was not successful", st)
    # later answers and notifications
    afn = slot_of(ctx, JR + "::finished", JS)
    m = RpcMon(R)
    res, I2 = ctx.run(afn, m)
    for st, v in res:
        for s in L(st, "send"):
            channel(ctx, R, I2, st, s, "J04:late", fnwhere(afn))
    fn = p.fn(JS + "::sendNotification")
    wn = fnwhere(fn)
    m = RpcMon(R)
    res, I3 = ctx.run(fn, m)
    ps = params_of(fn)
    tc = [a for a in ps if "TransportClient" in a[3]][0]
    strs = [a for a in ps if "QString" in a[3]]
    par = [a for a in ps if "QMap" in a[3] or "QVariantMap" in a[3]][0]
    strs = [a for a in strs if a is not par]
    for st, v in res:
        if is_null(I3, st, ("f", tc, R.iface)) is True:
            continue
        sends = L(st, "send")
        if not ctx.require(len(sends) == 1 and sends[0][1] == tc and not L(st, "kill"), "a notification is sent once to its receiver", "J04:notify", wn, "%d messages are sent for one notification" % len(sends), st):
            continue
        channel(ctx, R, I3, st, sends[0], "J04:notify", wn)
        a = answer(R, I3, sends[0][2])
        if a:
            mm = a[0]
            ctx.require(mm.get("params") == par, "a notification carries its parameters", "J04:notify:params", wn, "params is %s" % show(mm.get("params", NULL)), st)
            nm = cat_parts(mm.get("notification", NULL))
            ctx.require(nm == (strs[0], C("."), strs[1]) or list(nm or ()) == [strs[0], C("."), strs[1]], "a notification is named namespace.name", "J04:notify:name", wn,
                        "a notification is named %s" % show(mm.get("notification", NULL)), st)
            ctx.require("status" not in mm, "a notification is no response", "J04:notify:status", wn, "a notification looks like a response", st)
    # the framing state has no other writers
    work = [f for f in p.fns.values() if mutates(f, R.slip) and not f.get("ctor")]
    seen = {f["f"] for f in work}
    direct = set(seen)
    if not work:
        raise AnalysisError("no writer of the framing state found")
    while work:
        f = work.pop()
        if f["f"] == r.fn["f"]:
            ctx.ok("framing is only changed by the request processing")
            continue
        cs = callers_of(p, f)
        connected = f["f"] in {c["slot"] for c in p.connections}
        if f["f"].startswith("lambda@") or connected or not cs and f["f"] not in direct:
            ctx.bad("J04:writer:" + f["n"], fnwhere(f), "the framing of a connection is changed outside of the request processing")
        for g in cs:
            if g["f"] not in seen:
                seen.add(g["f"])
                work.append(g)
    ctx.need(2, "unframed connections get raw messages")
    ctx.need(2, "framed connections get framed messages")
    ctx.need(1, "framing is enabled after a successful server registration")
    ctx.need(1, "framing is only changed by the request processing")


# ============================================================================ J05
class AfterKill(Monitor):
    """processing a packet may kill the connection of its sender"""

    def __init__(self, R):
        self.R = R
        self.PD = JS + "::processDataPacket"
        self.opaque = R.CODEC | {self.PD, NS + "Engine::instance", NS + "TunnelProxyClient::processData", NS + "TransportClient::processData"}
        self.iters = []
        self.bads = []

    def event(self, st, ev):
        R, I = self.R, self.I
        if ev.kind in ("call", "enter") and ev.name == self.PD:
            tc = ev.args[0]
            k = fieldval(st, I, tc, R.killed)
            st.ghost["pk"] = st.ghost.get("pk", ())[:2] + ((tc, ev.args[1], truth(I, st, k)),)
            st.ghost["any"] = 1
            st.heap[("fl", tc, R.killed)] = ("fresh", "packet", (ev.node.get("l"),))
        elif R.is_send(ev):
            for t in subterms(ev.args[1]):
                if t[0] == "elem" and t[1][0] == "call" and t[1][1].endswith("::processData"):
                    st.ghost["fw"] = (truth(I, st, fieldval(st, I, t[1][2], R.killed)),)
                    break

    def loop_iter(self, interp, loop, st_in, outs):
        self.iters.append((loop, st_in, [(k, x, v, x.ghost.pop("pk", ()), x.ghost.pop("fw", ())) for k, x, v in outs]))


def check_J05(ctx):
    R = Roles(ctx.p)
    p = ctx.p
    fn = slot_of(ctx, R.TI + "::dataAvailable", R.S)
    w = fnwhere(fn)
    m = AfterKill(R)
    res, I = ctx.run(fn, m)
    n = 0
    for loop, st0, outs in m.iters:
        Rl = loop[1]
        if not (Rl is not None and Rl[0] == "call" and Rl[1].endswith("::processData") and Rl[2] is not None):
            continue
        el = ("elem", Rl, loop[0])
        src = Rl[2]
        entry = fieldval(st0, I, src, R.killed)
        for kind, x, v, new, fw in outs:
            n += 1
            frames = I.decide(I.mk_eq(("f", src, R.type), C(R.T_SERVER)), x) is True and truth(I, x, fieldval(x, I, src, R.slip)) is True
            if kind in ("n", "k") and not new and not frames:
                ctx.require(I.decide(entry, x) is True, "packets are processed unless the connection was closed", "J05:skip", w, "a received packet is skipped", x)
            for tc, dat, killed in new:
                ctx.require(tc == src, "packets are processed on behalf of their sender", "J05:sender", w, "a packet of %s is processed for %s" % (show(src), show(tc)), x)
                ctx.require(killed is False, "nothing is processed after the connection was closed", "J05:killed", w, "a packet may be processed after the connection was closed", x)
                ctx.require(contains_term(dat, el), "each packet is processed in order", "J05:packet", w, "the packet processed is %s" % show(dat)[:80], x)
            ctx.require(len(new) <= 1, "each packet is processed once", "J05:once", w, "a packet is processed twice", x)
            for k in fw:
                ctx.require(k is False, "nothing is forwarded after the connection was closed", "J05:forward", w, "a frame is forwarded after its sender was closed", x)
            if kind in ("r", "b"):
                k1 = fieldval(x, I, src, R.killed)
                ctx.require(I.decide(entry, x) is True or truth(I, x, k1) is True, "processing stops only when the connection was closed", "J05:stop", w,
                            "the remaining packets are dropped although the connection is open", x)
    if not n:
        raise AnalysisError("no packet loop found")
    # data of unknown connections is ignored
    pd = p.fn(JS + "::processData")
    m2 = AfterKill(R)
    res, I2 = ctx.run(pd, m2)
    tc = [a for a in params_of(pd) if "TransportClient" in a[3]][0]
    lst = ("f", THIS, p.field(JS, "m_clients", r"TransportClient \*>$"))
    for loop, st0, outs in m2.iters:
        for kind, x, v, new, fw in outs:
            if new:
                ctx.require(I2.decide(I2.has(lst, tc), x) is True, "only registered connections are processed", "J05:member", fnwhere(pd), "data of an unregistered connection is processed", x)
    for st, v in res:
        if I2.decide(I2.has(lst, tc), st) is not True:
            ctx.require(not st.ghost.get("any"), "only registered connections are processed", "J05:member", fnwhere(pd), "data of an unregistered connection is processed", st)
    # killConnection sets the flag and closes its own connection
    kf = p.fn(R.TC + "::killConnection")
    mk = RpcMon(R)
    res, I3 = ctx.run(kf, mk)
    for st, v in res:
        if is_null(I3, st, ("f", THIS, R.iface)) is True:
            continue
        ks = L(st, "kill")
        ctx.require(truth(I3, st, fieldval(st, I3, THIS, R.killed)) is True, "closing a connection is remembered", "J05:remember", fnwhere(kf), "a closed connection is not marked as closed", st)
        ctx.require(len(ks) == 1 and ks[0][1] == THIS, "exactly the own connection is closed", "J05:own", fnwhere(kf), "killConnection closes %s" % (show(ks[0][1]) if ks and ks[0][1] else "another or no connection"), st)
    from rules_tunnel import mutates
    for f in p.fns.values():
        if mutates(f, R.killed) and not f.get("ctor") and f["f"] != kf["f"]:
            res, I4 = ctx.run(f, Monitor())
            for st, v in res:
                k = fieldval(st, I4, THIS, R.killed)
                ctx.require(k == ("f", THIS, R.killed) or truth(I4, st, k) is True, "a closed connection stays closed", "J05:reset:" + f["n"], fnwhere(f), "the mark of a closed connection is removed", st)
    ctx.need(1, "nothing is processed after the connection was closed")
    ctx.need(1, "closing a connection is remembered")
    ctx.need(1, "exactly the own connection is closed")



# ============================================================================ I01
TH = NS + "TunnelProxyHandler"
SETTERS = ("setDescription", "setParams", "setReturns")


class DescMon(Monitor):
    """what the constructor of a handler describes"""

    def __init__(self):
        self.opaque = frozenset([JH + "::" + s for s in SETTERS] + [JT + "::basicTypeToString", JT + "::tunnelProxyErrorRef", JT + "::basicTypeRef"])
        self.overloads = (JT + "::basicTypeToString",)

    def event(self, st, ev):
        if ev.kind in ("call", "enter") and ev.name.startswith(JH + "::set"):
            st.ghost["desc"] = st.ghost.get("desc", ()) + ((ev.short(), ev.args[0], ev.args[1]),)


def described(ctx, cls):
    """{method: {setDescription|setParams|setReturns: term}} of one handler class"""
    p = ctx.p
    cts = [f for f in p.fns.values() if f.get("ctor") and f.get("cls") == cls and f.get("body")]
    d = {}
    for fn in cts:
        res, I = ctx.run(fn, DescMon())
        for st, v in res:
            for what, name, val in st.ghost.get("desc", ()):
                if not is_c(name):
                    raise AnalysisError("%s describes a method with a computed name" % cls)
                d.setdefault(name[1], {}).setdefault(what, []).append(val)
    return d, cts


def tname(ctx, t):
    """declared type of a template value"""
    if is_c(t) and isinstance(t[1], str):
        return t[1]
    if t[0] == "call" and t[1].startswith(JT + "::basicTypeToString(") and is_c(t[3][0]):
        qt = {30: "Uuid", 10: "String", 1: "Bool", 2: "Int", 3: "UInt", 6: "Double"}
        bt = {e["v"]: e["n"].rsplit("::", 1)[-1] for e in ctx.p.enums[JT + "::BasicType"]["v"]}
        return (qt if "QVariant::Type" in t[1] else bt).get(t[3][0][1])
    if t[0] == "call" and t[1] == JT + "::tunnelProxyErrorRef":
        return "$ref:TunnelProxyError"
    return None


# the documented API: parameters, results (README/API version 0.x)
API = {
    "RemoteProxy": {"Hello": ({}, {"server": "String", "name": "String", "version": "String", "apiVersion": "String"}),
                    "Introspect": ({}, {"methods": "Object", "types": "Object", "notifications": "Object"})},
    "TunnelProxy": {"RegisterServer": ({"serverName": "String", "serverUuid": "Uuid"}, {"tunnelProxyError": "$ref:TunnelProxyError", "slipEnabled": "Bool"}),
                    "RegisterClient": ({"clientName": "String", "clientUuid": "Uuid", "serverUuid": "Uuid"}, {"tunnelProxyError": "$ref:TunnelProxyError"}),
                    "DisconnectClient": ({"socketAddress": "UInt"}, {"tunnelProxyError": "$ref:TunnelProxyError"}),
                    "Ping": ({"timestamp": "UInt"}, {"timestamp": "UInt"})},
}
APINOTE = {"TunnelProxy": {"ClientConnected": {"clientName": "String", "clientUuid": "String", "clientPeerAddress": "String", "socketAddress": "UInt"},
                           "ClientDisconnected": {"socketAddress": "UInt"}}}
CTYPES = {"String": ("QString",), "Uuid": ("QUuid",), "UInt": ("unsigned int", "unsigned short", "uint", "quint16"), "Int": ("int",), "Bool": ("bool",)}


class ReplyMon(RpcMon):
    def __init__(self, R):
        RpcMon.__init__(self, R, (JR + "::createReply", JR + "::createAsyncReply", JH + "::createReply", JH + "::createAsyncReply", JT + "::allTypes", JT + "::tunnelProxyErrorToString",
                                  NS + "TunnelProxyServer::registerServer", NS + "TunnelProxyServer::registerClient", NS + "TunnelProxyServer::disconnectClient", NS + "Engine::serverName"))

    def event(self, st, ev):
        RpcMon.event(self, st, ev)
        if ev.kind in ("call", "enter") and ev.short() in ("createReply", "createAsyncReply"):
            st.ghost["reply"] = tuple(ev.args)
        elif ev.kind in ("call", "enter") and ev.name.startswith(NS + "TunnelProxyServer::") and ev.short() in ("registerServer", "registerClient", "disconnectClient"):
            st.ghost["op"] = (ev.short(), tuple(ev.args), ev.extra)


def allkeys(t):
    """keys inserted into a map term (loop contributions ignored), None if unknown"""
    ks = {}
    while t[0] == "ins":
        if not is_c(t[2]):
            return None
        ks.setdefault(t[2][1], t[3])
        t = t[1]
    return ks if t == EMPTY else None


def check_I01(ctx):
    p = ctx.p
    R = Roles(p)
    H = {"RemoteProxy": JS, "TunnelProxy": TH}
    for ns, cls in H.items():
        fn = p.fn(cls + "::name")
        res, I = ctx.run(fn, Monitor())
        ctx.require(all(v == C(ns) for st, v in res), "handlers are reachable under their documented namespace", "I01:name:" + ns, fnwhere(fn), "the namespace of %s is %s" % (cls, show(res[0][1])))
        desc, cts = described(ctx, cls)
        w = fnwhere(cts[0]) if cts else cls
        meths = {m["n"].rsplit("::", 1)[-1]: m for m in p.classes[cls]["methods"]}
        for name, (params, returns) in API[ns].items():
            d = desc.get(name, {})
            key = "I01:%s.%s" % (ns, name)
            if not ctx.require(all(len(d.get(s, ())) >= 1 for s in SETTERS), "documented methods are described", key, w, "the method %s.%s is not fully described" % (ns, name)):
                continue
            m = meths.get(name)
            sig = m and [q["t"].replace("remoteproxy::", "") for q in m["params"]]
            ok = m and m.get("mode") == "qt_invokable" and m["ret"].replace(" ", "").endswith("JsonReply*") and len(sig) == 2 and \
                ("QVariantMap" in sig[0] or "QMap<QString" in sig[0]) and sig[1].replace(" ", "") == "TransportClient*"
            ctx.require(ok, "described methods can be invoked", key + ":invokable", w, "the described method %s.%s cannot be invoked by name" % (ns, name))
            for what, want, tag in (("setParams", params, "params"), ("setReturns", returns, "returns")):
                got = mapitems(d[what][-1])
                got = got and {k: tname(ctx, v) for k, v in got.items()} if got is not None else None
                ctx.require((got or {}) == want and got is not None, "methods are described as documented", key + ":" + tag, w, "%s of %s.%s are described as %s" % (tag, ns, name, got))
        for name, params in APINOTE.get(ns, {}).items():
            d = desc.get(name, {})
            key = "I01:%s.%s" % (ns, name)
            got = mapitems(d["setParams"][-1]) if d.get("setParams") else None
            got = {k: tname(ctx, v) for k, v in got.items()} if got is not None else None
            ctx.require(got == params and "setReturns" not in d and d.get("setDescription"), "notifications are described as documented", key, w, "the notification %s.%s is described as %s" % (ns, name, got))
            m = meths.get(name)
            ctx.require(m and m.get("mode") == "qt_signal", "described notifications are signals", key + ":signal", w, "the notification %s.%s is not introspectable" % (ns, name))
        # what the methods do
        for c, m, mf in invokables(p):
            if c != cls:
                continue
            name = m["n"].rsplit("::", 1)[-1]
            if name not in API[ns]:
                ctx.require(name not in desc, "no undocumented methods", "I01:extra:" + name, fnwhere(mf), "%s is described but not part of the documented API" % name)
                continue
            implements(ctx, R, ns, name, mf)
    registered(ctx, R)
    notified(ctx, R)
    errors(ctx)
    clientside(ctx)
    ctx.need(6, "documented methods are described")
    ctx.need(6, "methods answer exactly the described results")


def implements(ctx, R, ns, name, mf):
    p = ctx.p
    params, returns = API[ns][name]
    mon = ReplyMon(R)
    res, I = ctx.run(mf, mon)
    par = params_of(mf)
    w = fnwhere(mf)
    key = "I01:%s.%s" % (ns, name)
    for st, v in res:
        rep = st.ghost.get("reply")
        if not ctx.require(rep is not None and rep[-2] == C(name), "methods answer as themselves", key + ":as", w, "%s answers as %s" % (name, show(rep[-2]) if rep else "nobody"), st):
            continue
        ks = allkeys(rep[-1])
        ctx.require(ks is not None and set(ks) == set(returns), "methods answer exactly the described results", key + ":keys", w, "%s answers %s" % (name, sorted(ks) if ks is not None else show(rep[-1])[:80]), st)
        terms = [t for a in list(st.facts) + [rep[-1]] + ([a for a in st.ghost["op"][1]] if "op" in st.ghost else []) for t in subterms(a)]
        read = {t[2][1] for t in terms if t[0] == "get" and t[1] == par[0] and is_c(t[2])}
        ctx.require(read <= set(params), "methods read only described parameters", key + ":read", w, "%s reads the undescribed parameter %s" % (name, sorted(read - set(params))), st)
        if not ks:
            continue
        if name == "Ping":
            ctx.require(deconv(ks.get("timestamp")) == ("get", par[0], C("timestamp")), "a ping returns its timestamp", key + ":echo", w, "Ping returns %s" % show(ks.get("timestamp", NULL)), st)
        if name == "Hello":
            for k in ("server", "version", "apiVersion"):
                ctx.require(is_c(ks[k]) and isinstance(ks[k][1], str) and ks[k][1] != "" if k in ks else False, "hello identifies the server", key + ":" + k, w, "%s is %s" % (k, show(ks.get(k, NULL))), st)
            nm = ks.get("name", NULL)
            ctx.require(nm[0] == "call" and nm[1] in (NS + "Engine::serverName", NS + "ProxyConfiguration::serverName") or nm[0] == "f" and nm[2].startswith(NS + "ProxyConfiguration::"), "hello tells the name of the server", key + ":name", w, "name is %s" % show(nm), st)
        if "op" in st.ghost:
            op, args, ret = st.ghost["op"]
            want = {"RegisterServer": ["serverUuid", "serverName"], "RegisterClient": ["clientUuid", "clientName", "serverUuid"], "DisconnectClient": ["socketAddress"]}.get(name, [])
            ctx.require(op == name[0].lower() + name[1:] and args[0] == ("f", par[1], R.cid), "methods act for their caller", key + ":op", w, "%s performs %s for %s" % (name, op, show(args[0])), st)
            for a, k in zip(args[1:], want):
                ctx.require(deconv(a) == ("get", par[0], C(k)), "parameters are passed on", key + ":arg:" + k, w, "%s is passed on as %s" % (k, show(a)), st)
        elif name == "DisconnectClient":
            ctx.bad(key + ":op", w, "DisconnectClient does not disconnect", st)
        if "tunnelProxyError" in ks:
            e = ks["tunnelProxyError"]
            ok = e[0] == "call" and e[1] == JT + "::tunnelProxyErrorToString" and ("op" not in st.ghost or e[3][0] == st.ghost["op"][2] or contains_term(e, st.ghost["op"][2]))
            ctx.require(ok, "methods answer the outcome of their operation", key + ":error", w, "%s answers %s" % (name, show(e)), st)
            if "slipEnabled" in ks and e[0] == "call":
                no = C(enumval(p, R.S + "::TunnelProxyError", "TunnelProxyErrorNoError"))
                s = truth(I, st, ks["slipEnabled"])
                o = I.decide(I.mk_eq(e[3][0], no), st)
                ctx.require(ks["slipEnabled"] == I.mk_eq(e[3][0], no) or s is not None and s == o, "framing is announced exactly on success", key + ":slip", w,
                            "slipEnabled is %s" % show(ks["slipEnabled"]), st)


def deconv(t):
    """strip value conversions"""
    while t is not None:
        if t[0] == "icast" and t[2] >= 32:
            t = t[1]
        elif t[0] == "call" and t[1].startswith("QVariant::to") and t[2] is not None:
            t = t[2]
        else:
            break
    return t


def registered(ctx, R):
    """both handlers are registered under their own name"""
    p = ctx.p
    fn = p.fn(JS + "::registerHandler")
    res, I = ctx.run(fn, Monitor())
    a = params_of(fn)[0]
    h = p.field(JS, "m_handlers", r"JsonHandler \*>")
    for st, v in res:
        t = I.load(st, ("fl", THIS, h))
        ctx.require(t[0] == "ins" and t[1] == ("f", THIS, h) and t[3] == a and t[2][0] == "call" and t[2][1].endswith("::name") and t[2][2] == a, "handlers are registered under their own name",
                    "I01:registerHandler", fnwhere(fn), "the handler table becomes %s" % show(t)[:120], st)

    class M(Monitor):
        opaque = DescMon().opaque | {JS + "::registerHandler", NS + "Engine::instance"}

        def event(self, st, ev):
            if ev.kind in ("call", "enter") and ev.name == JS + "::registerHandler":
                st.ghost["regs"] = st.ghost.get("regs", ()) + ((ev.obj, ev.args[0]),)
    ct = [f for f in p.fns.values() if f.get("ctor") and f.get("cls") == R.S]
    for fn in ct:
        res, I = ctx.run(fn, M())
        for st, v in res:
            rs = st.ghost.get("regs", ())
            js = I.load(st, ("fl", THIS, R.json))
            kinds = sorted("self" if h == js else h[1] if h[0] == "new" else show(h) for o, h in rs)
            ctx.require(kinds == sorted(["self", TH]) and all(o == js for o, h in rs), "both namespaces are served", "I01:served", fnwhere(fn), "registered handlers: %s" % kinds, st)
    ctx.need(1, "both namespaces are served")


def notified(ctx, R):
    """every notification the server sends is a documented one with exactly its parameters"""
    p = ctx.p
    SN = JS + "::sendNotification"

    class M(RpcMon):
        def event(self, st, ev):
            if ev.kind in ("call", "enter") and ev.name == SN:
                sent.append((ev.args, ev.where(), st.copy()))
    sites = [f for f in p.fns.values() if any(n.get("k") == "call" and n.get("n") == SN for n in walk(f["body"]))]
    names = set()
    for f in sites:
        roots, seen, work = [], {f["f"]}, [f]
        while work:
            g = work.pop()
            cs = [c for c in callers_of(p, g) if c["f"] not in seen]
            if not cs or g.get("cls") == R.S:
                roots.append(g)
                continue
            for c in cs:
                seen.add(c["f"])
                work.append(c)
        for g in roots:
            sent = []
            mon = M(R, (SN,))
            ctx.run(g, mon)
            for args, wh, st in sent:
                ns, nm = args[0], args[1]
                if not ctx.require(is_c(ns) and is_c(nm) and nm[1] in APINOTE.get(ns[1], {}), "only documented notifications are sent", "I01:note:" + f["n"], wh, "the notification %s.%s is sent" % (show(ns), show(nm)), st):
                    continue
                names.add(nm[1])
                ks = allkeys(args[2])
                ctx.require(ks is not None and set(ks) == set(APINOTE[ns[1]][nm[1]]), "notifications carry exactly the described values", "I01:notekeys:" + nm[1], wh,
                            "%s carries %s" % (nm[1], sorted(ks) if ks is not None else show(args[2])[:80]), st)
    ctx.require(names == set(APINOTE["TunnelProxy"]), "every documented notification is sent", "I01:notes", SN, "only the notifications %s are sent" % sorted(names))


def errors(ctx):
    """error codes are told by their names"""
    p = ctx.p
    e = p.enums[NS + "TunnelProxyServer::TunnelProxyError"]
    fn = p.fn(JT + "::tunnelProxyErrorToString")
    m = Monitor()
    m.opaque = frozenset((JT + "::init",))
    res, I = ctx.run(fn, m)
    a = params_of(fn)[0]
    for st, v in res:
        k = [t for t in subterms(v) if t[0] == "call" and t[1].endswith("QMetaEnum::valueToKey")]
        arg = k[0][3][0] if k else None
        byidx = arg is not None and arg[0] == "call" and arg[1].endswith("QMetaEnum::value") and arg[3] == (a,)
        direct = arg == a or arg is not None and deconv(arg) == a
        en = any(t[0] == "call" and t[1].endswith("indexOfEnumerator") and t[3] == (C("TunnelProxyError"),) for t in subterms(v))
        own = any(t[0] in ("glob", "g", "gl") and "TunnelProxyServer::staticMetaObject" in str(t) or "TunnelProxyServer::staticMetaObject" in str(t) for t in [v])
        ctx.require((byidx or direct) and en and own, "error codes are told by their names", "I01:errname", fnwhere(fn), "an error is told as %s" % show(v)[:150], st)
        if byidx:
            vals = [x["v"] for x in e["v"]]
            ctx.require(vals == list(range(len(vals))), "error codes are numbered by position", "I01:errindex", e["file"], "the error codes are %s, but their names are looked up by position" % vals)
    names = {x["n"].rsplit("::", 1)[-1] for x in e["v"]}
    want = {"TunnelProxyError" + n for n in ("NoError", "InvalidUuid", "InternalServerError", "ServerNotFound", "ForbiddenCall", "AlreadyRegistered", "NotRegistered", "UnknownSocketAddress")}
    ctx.require(names >= want, "the documented error codes exist", "I01:errors", e["file"], "missing error codes: %s" % sorted(want - names))


def clientside(ctx):
    """the client libraries speak the described API"""
    from rules_client import REQ, NOTES
    for full, (ps, slip) in REQ.items():
        ns, name = full.split(".")
        want = API.get(ns, {}).get(name)
        ok = want is not None and set(ps) == set(want[0])
        for k, (ty, i) in ps.items():
            ok = ok and any(t in CTYPES[want[0][k]] for t in ty.split("|"))
        ctx.require(ok, "library requests match the described parameters", "I01:req:" + full, "proxyjsonrpcclient.cpp", "the library sends %s for %s" % (sorted(ps), full))
    for n, (sig, ks) in NOTES.items():
        ctx.require(set(ks) <= set(APINOTE["TunnelProxy"].get(n, {})), "library reads described notification values", "I01:lnote:" + n, "proxyjsonrpcclient.cpp", "the library reads %s of %s" % (ks, n))
    allowed = {"id", "status", "params", "error", "notification", "method"}
    for d in API.values():
        for ps, rs in d.values():
            allowed |= set(rs)
    for d in APINOTE.values():
        for ps in d.values():
            allowed |= set(ps)
    n = 0
    for f in ctx.p.fns.values():
        if "libnymea-remoteproxyclient/" not in f["file"]:
            continue
        for x in walk(f["body"]):
            if x.get("k") == "call" and x["n"].rsplit("::", 1)[-1] in ("value", "contains", "take") and "QString, QVariant" in (x.get("ot") or "") and x["args"]:
                a = x["args"][0]
                while a.get("k") == "copy" or a.get("k") == "ctor" and len(a["args"]) == 1:
                    a = a["e"] if a["k"] == "copy" else a["args"][0]
                if a.get("k") == "const" and isinstance(a.get("v"), str):
                    n += 1
                    if a["v"] not in allowed and f["n"].endswith("processDataPacket") and a["v"] in ("name", "uuid"):
                        continue
                    ctx.require(a["v"] in allowed, "the library reads only described values", "I01:lib:%s:%s" % (f["n"], a["v"]), "%s:%s (%s)" % (f["file"], x["l"], f["n"]), "the library reads the undescribed value %s" % a["v"])
    if n < 8:
        raise AnalysisError("only %d values read by the client libraries found" % n)
