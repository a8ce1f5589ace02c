"""Rule framework: context (violations, obligations, evidence), interpreter helpers, role resolution."""
import json, os, sys, time
from model import AnalysisError, VERIF
from program import Program, walk, strip_ptr
from absint import (Interp, Monitor, State, Frame, show, subterms, mentions, contains_term, C, NULL, TRUE, FALSE, EMPTY, VOID,
                    is_c, cat_parts, base)

KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.p = prog
        self.viol = {}
        self.oblig = {}
        self.fns = set()
        self.exits = 0
        self.states = 0
        self.entries = []
        self.notes = []
        self.assumptions = []

    # ---- verdicts
    def ok(self, what, n=1):
        self.oblig[what] = self.oblig.get(what, 0) + n

    def bad(self, key, where, msg, st=None):
        """key identifies the construct; where is 'file:line (function)'"""
        if key not in self.viol:
            path = []
            if st is not None:
                path = ["%s %s" % (show(a)[:160], "true" if v else "false") for a, v in list(st.facts.items())[-14:]]
            self.viol[key] = {"key": key, "where": where, "msg": msg, "path": path}

    def require(self, cond, what, key, where, msg, st=None):
        if cond:
            self.ok(what)
        else:
            self.oblig.setdefault(what, 0)
            self.bad(key, where, msg, st)
        return cond

    def need(self, n, what):
        """at least n instances of an obligation must have been found, else the analysis is vacuous"""
        if self.oblig.get(what, 0) < n and not self.viol:
            raise AnalysisError("vacuous: obligation '%s' found %d times, expected at least %d" % (what, self.oblig.get(what, 0), n))

    # ---- running the interpreter
    def run(self, fn, mon, this=("this",), args=None, st=None, emit_inline=None, caps=None):
        if isinstance(fn, str):
            f = self.p.fns.get(fn) or self.p.fn(fn)
        else:
            f = fn
        I = Interp(self.p, mon)
        if self.tier == "thorough":
            I.MERGE = 64
        I.MERGE = max(I.MERGE, getattr(mon, "MERGE", 0))
        mon.I = I
        mon.ctx = self
        if emit_inline:
            I.emit_inline = emit_inline
        res = I.run(f, this=this, args=args, st=st, caps=caps)
        self.fns |= I.visited
        self.exits += len(res)
        self.states += I.nstates
        if f["f"] not in self.entries:
            self.entries.append(f["f"])
        self.I = I
        return res, I


def fnwhere(f):
    return "%s:%s (%s)" % (f["file"], f.get("l", "?"), f["n"])


# ------------------------------------------------------------------ role resolution
class Roles:
    """names of the state the rules talk about (by name, by type if renamed)"""
    NS = "remoteproxy::"

    def __init__(self, p):
        self.p = p
        F = p.field
        N = self.NS
        self.S = N + "TunnelProxyServer"
        self.proxyClients = F(self.S, "m_proxyClients", r"QHash<QUuid, .*TunnelProxyClient \*>")
        self.sctab = F(self.S, "m_tunnelProxyServerConnections", r"TunnelProxyServerConnection \*>")
        self.cctab = F(self.S, "m_tunnelProxyClientConnections", r"TunnelProxyClientConnection \*>")
        self.json = F(self.S, "m_jsonRpcServer", r"JsonRpcServer \*")
        SC = N + "TunnelProxyServerConnection"
        CC = N + "TunnelProxyClientConnection"
        TC = N + "TransportClient"
        self.SC, self.CC, self.TC = SC, CC, TC
        self.sc_tc = F(SC, "m_transportClient", r"TransportClient \*")
        self.sc_clients = F(SC, "m_clientConnections", r"Q(Hash|Map)<QUuid")
        self.sc_addr = F(SC, "m_clientConnectionsAddresses", r"Q(Hash|Map)<(quint16|unsigned short)")
        self.sc_uuid = F(SC, "m_serverUuid", r"QUuid")
        self.cc_tc = F(CC, "m_transportClient", r"TransportClient \*")
        self.cc_sc = F(CC, "m_serverConnection", r"TunnelProxyServerConnection \*")
        self.cc_addr = F(CC, "m_socketAddress", r"quint16|unsigned short")
        self.cc_uuid = F(CC, "m_clientUuid")
        self.iface = F(TC, "m_interface", r"TransportInterface")
        self.cid = F(TC, "m_clientId")
        self.uuid = F(TC, "m_uuid")
        self.tname = F(TC, "m_name")
        self.peer = F(TC, "m_peerAddress", r"QHostAddress")
        self.buf = F(TC, "m_dataBuffer", r"QByteArray")
        self.killreq = F(TC, "m_killConnectionRequested")
        try:
            self.killed = F(TC, "m_connectionKilled")
        except AnalysisError:
            self.killed = TC + "::<killed flag>"
        self.slip = F(TC, "m_slipEnabled")
        self.slipafter = F(TC, "m_slipAfterResponseEnabled")
        self.type = F(N + "TunnelProxyClient", "m_type", r"Type$")
        en = p.enums.get(N + "TunnelProxyClient::Type")
        if not en:
            raise AnalysisError("enum TunnelProxyClient::Type not found")
        v = {e["n"].rsplit("::", 1)[-1]: e["v"] for e in en["v"]}
        self.T_NONE, self.T_SERVER, self.T_CLIENT = v["TypeNone"], v["TypeServer"], v["TypeClient"]
        self.fr_addr = F("SlipDataProcessor::Frame", "socketAddress", r"quint16|unsigned short")
        self.fr_data = F("SlipDataProcessor::Frame", "data", r"QByteArray")
        self.TI = N + "TransportInterface"
        self.SERIAL = "SlipDataProcessor::serializeData"
        self.BUILD = "SlipDataProcessor::buildFrame"
        self.PARSE = "SlipDataProcessor::parseFrame"
        for n in (self.SERIAL, self.BUILD, self.PARSE):
            p.fn(n)
        self.CODEC = frozenset((self.SERIAL, self.BUILD, self.PARSE))

    # -- terms
    def f(self, obj, field):
        return ("f", obj, field)

    def pc(self, cid, this=("this",)):
        return ("get", ("f", this, self.proxyClients), cid)

    def sc_of(self, pc, this=("this",)):
        return ("get", ("f", this, self.sctab), ("f", pc, self.uuid))

    def cc_of(self, pc, this=("this",)):
        return ("get", ("f", this, self.cctab), ("f", pc, self.uuid))

    # -- sinks
    def is_send(self, ev):
        return ev.kind == "call" and ev.short() == "sendData" and self._ti(ev)

    def is_kill(self, ev):
        return ev.kind == "call" and ev.short() == "killClientConnection" and self._ti(ev)

    def _ti(self, ev):
        c = ev.name.rsplit("::", 1)[0]
        return c == self.TI or self.TI in self.p.classes.get(c, {"allbases": []})["allbases"]

    def client_of(self, ev, I, st):
        """the transport client T such that obj == T.interface and args[0] == T.clientId; None if they disagree"""
        o, a = ev.obj, ev.args[0]
        if o[0] == "f" and o[2] == self.iface and a[0] == "f" and a[2] == self.cid and o[1] == a[1]:
            return o[1]
        # fresh objects: look the cells up
        for c, v in st.heap.items():
            if c[0] == "fl" and c[2] == self.iface and v == o:
                if st.heap.get(("fl", c[1], self.cid)) == a:
                    return c[1]
        return None

    def slip_payload(self, t, I):
        """(address, data) of serializeData(buildFrame(frame)); None otherwise"""
        if t[0] == "call" and t[1] == self.SERIAL and len(t[3]) == 1:
            b = t[3][0]
            if b[0] == "call" and b[1] == self.BUILD and len(b[3]) == 1:
                fr = b[3][0]
                return I.fieldof(fr, self.fr_addr), I.fieldof(fr, self.fr_data)
        return None


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line:
                continue
            j = json.loads(line)
            if j.get("property") == pid and j.get("status", "known") == "known":
                res.append(j)
    return res


def is_null(I, st, t):
    return I.decide(I.mk_eq(t, NULL), st)


def truth(I, st, t):
    return I.decide(t, st)


def fieldval(st, I, obj, field):
    """current value of obj->field in st"""
    return I.load(st, I.ptr_loc(st, obj, field))


def mapget(I, m, key):
    return I.get(m, C(key))
