"""Rules for the wire codec: T03 (SLIP + frame header), T04 (reassembly from arbitrary chunks).

The loops over the input bytes are turned into finite transducers: one abstract execution of the loop body per
(control state, path); the guards of a path are evaluated for each of the 256 byte values, its effect on the output
buffer is read off the abstract heap.  The transducers are compared with the RFC 1055 reference by a product construction,
so the verdict holds for inputs of every length."""
from framework import *
from absint import byte

THIS = ("this",)

END, ESC, TEND, TESC = 0xC0, 0xDB, 0xDC, 0xDD
DESER = "SlipDataProcessor::deserializeData"


class Unknown(Exception):
    pass


def val(t, env):
    """concrete value of a term under env: (term -> int or None); raises Unknown"""
    r = env(t)
    if r is not None:
        return r
    k = t[0]
    if k == "c":
        if isinstance(t[1], bool):
            return int(t[1])
        if isinstance(t[1], int):
            return t[1]
        if isinstance(t[1], str) and len(t[1]) == 1:
            return ord(t[1])
        raise Unknown
    if k == "enc8" or k == "ctorobj" and len(t[2]) == 1 and t[1] in ("QChar", "QLatin1Char"):
        return val(t[1] if isinstance(t[1], tuple) else C(t[1]) if k == "enc8" else t[2][0], env) & 0xff
    if k == "byte":
        return val(t[1], env) & 0xff
    if k == "sbyte":
        n = val(t[1], env) & 0xff
        return n - 256 if n > 127 else n
    if k == "icast":
        n = val(t[1], env) & ((1 << t[2]) - 1)
        return n - (1 << t[2]) if t[3] and n >> (t[2] - 1) else n
    if k == "op":
        if t[1] in ("neg", "~"):
            n = val(t[2], env)
            return -n if t[1] == "neg" else ~n
        a, b = val(t[2], env), val(t[3], env)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                    "<<": lambda: a << b, ">>": lambda: a >> b, "%": lambda: a % b, "/": lambda: a // b}[t[1]]()
        except Exception:
            raise Unknown
    if k == "ite":
        return val(t[2] if truthv(t[1], env) else t[3], env)
    if k in ("eq", "lt", "not", "tobool", "and", "or"):
        return int(truthv(t, env))
    raise Unknown


def truthv(a, env):
    if a[0] in ("eq", "lt"):
        r = env(a)
        if r is not None:
            return bool(r)
    if a[0] == "eq":
        return val(a[1], env) == val(a[2], env)
    if a[0] == "lt":
        return val(a[1], env) < val(a[2], env)
    if a[0] == "not":
        return not truthv(a[1], env)
    if a[0] == "and":
        return truthv(a[1], env) and truthv(a[2], env)
    if a[0] == "or":
        return truthv(a[1], env) or truthv(a[2], env)
    if a[0] == "tobool":
        return val(a[1], env) != 0
    return val(a, env) != 0


def consistent(facts, env):
    for a, v in facts:
        try:
            if truthv(a, env) != v:
                return False
        except Unknown:
            pass
    return True


class LoopMon(Monitor):
    """collects the iterations and exits of the loops that read the input"""
    keep_consts = True

    def __init__(self, data, opaque=()):
        self.data = data
        self.opaque = frozenset(opaque)
        self.iters = []
        self.exits = []

    def loop_iter(self, interp, loop, st_in, outs):
        self.iters.append((loop[0], loop[1], st_in.copy(), [(k, x.copy(), v) for k, x, v in outs], loop[2]))

    def loop_exit(self, interp, lid, x, how):
        n = len(self.exits)
        x.ghost[("exit", lid)] = n
        self.exits.append((lid, how, x.copy()))


def is_read(t, data, I):
    """offset term of a read of one input byte: ('elem',..) -> 0, get(data, X) -> X"""
    if t[0] == "elem" and t[1] == data:
        return C(0)
    if t[0] == "get" and t[1] == data:
        return t[2]
    return None


class Transducer:
    """byte transducer of the (single) loop that reads `data` and appends to the returned buffer"""

    def __init__(self, ctx, fn, data, mon, res, I, out=None):
        self.I, self.data, self.fn = I, data, fn
        lids = []
        for lid, R, st, outs, fr in mon.iters:
            if R == data or any(self.reads(x) for k, x, v in outs):
                if lid not in lids:
                    lids.append(lid)
        if len(lids) != 1:
            raise AnalysisError("%s: expected one loop over the input, found %d" % (fn["n"], len(lids)))
        self.lid = lid = lids[0]
        # output cell
        cells = set()
        for st, v in res:
            for t in subterms(v):
                if t[0] == "phi" and t[1] == lid:
                    cells.add(t[2])
        if out is not None:
            cells = {out}
        if len(cells) != 1:
            raise AnalysisError("%s: cannot identify the output of the loop" % fn["n"])
        self.out = next(iter(cells))
        iters = [i for i in mon.iters if i[0] == lid]
        self.idx = None
        for _, R, st, outs, fr in iters:
            if R == data:
                continue
            for k, x, v in outs:
                for off in self.reads(x):
                    for t in subterms(off):
                        if t[0] == "phi" and t[1] == lid:
                            if self.idx is not None and self.idx != t[2]:
                                raise AnalysisError("%s: two input positions" % fn["n"])
                            self.idx = t[2]
        # control state: local cells alive at the loop head, except the input position and the output
        self.cells = set(iters[0][2].env) - {self.idx, self.out}
        for _, R, st, outs, fr in iters:
            for k, x, v in outs:
                self.cells -= {c for c in self.cells if x.env.get(c, ("",))[0] in ("idx", "itelem", "elem")}
        self.trans = []
        self.start = set()
        n = 0
        for _, R, st, outs, fr in iters:
            base = self.cell(st, self.idx) if R != data else C(0)
            cin = self.ctrl(st)
            if n == 0:
                self.start.add(cin)
            n += 1
            Bin = self.cell(st, self.out)
            for k, x, v in outs:
                Bout = self.cell(x, self.out)
                items = self.delta(Bin, Bout)
                adv = 1 if R == data else self.advance(base, self.cell(x, self.idx))
                self.trans.append({"c": cin, "base": base, "facts": list(x.facts.items()), "kind": k, "items": items, "n": adv,
                                   "c2": self.ctrl(x), "ret": v, "st": x, "bin": Bin, "bout": Bout})
        # exits behind the loop
        self.tails = {}
        for st, v in res:
            e = st.ghost.get(("exit", lid))
            if e is None:
                continue
            _, how, x = mon.exits[e]
            Bx = self.cell(x, self.out)
            self.tails.setdefault((self.ctrl(x), how), []).append((self.delta(Bx, v) if v != EMPTY or Bx == EMPTY else "reject", Bx == EMPTY, x, v))

    def cell(self, st, c):
        if c is None:
            return C(0)
        return self.I.load(st, c)

    def reads(self, x):
        res = set()
        for a in list(x.facts) + [v for v in x.env.values()] + [v for v in x.heap.values()]:
            for t in subterms(a):
                if t[0] == "get" and t[1] == self.data:
                    res.add(t[2])
        return res

    def ctrl(self, st):
        return frozenset((c, v[1]) for c, v in st.env.items() if is_c(v) and isinstance(v[1], (bool, int)) and c in self.cells)

    def advance(self, a, b):
        if is_c(a) and is_c(b):
            return b[1] - a[1]
        if a == b:
            return 0
        if b[0] == "op" and b[1] == "+" and b[2] == a and is_c(b[3]):
            return b[3][1]
        raise AnalysisError("%s: cannot follow the input position (%s -> %s)" % (self.fn["n"], show(a), show(b)))

    def delta(self, a, b):
        pa, pb = cat_parts(a), cat_parts(b)
        if pb[:len(pa)] != pa:
            return None
        return pb[len(pa):]

    def env(self, base, bs, eof, t):
        """valuation for input bytes bs (None beyond)"""
        def at(i):
            if 0 <= i < len(bs):
                return bs[i] - 256 if bs[i] > 127 else bs[i]
            raise Unknown

        def pos(off):
            if off == base:
                return 0
            try:
                if is_c(base) and is_c(off):
                    return off[1] - base[1]
                return self.advance(base, off)
            except AnalysisError:
                raise Unknown

        def f(x):
            if x[0] == "elem" and x[1] == self.data:
                return at(0)
            if x[0] == "get" and x[1] == self.data:
                return at(pos(x[2]))
            if x[0] == "lt" and x[2] == ("count", self.data):
                p = pos(x[1])
                if p < len(bs):
                    return 1
                if eof:
                    return 0
                raise Unknown
            if x[0] == "lt" and x[1] == ("count", self.data) and is_c(x[2]) and is_c(base):
                k = x[2][1] - base[1]       # count - base < k
                if len(bs) >= k:
                    return 0
                if eof:
                    return 1
                raise Unknown
            if x[0] == "eq" and ("count", self.data) in x[1:]:
                o = x[1] if x[2] == ("count", self.data) else x[2]
                if o == C(0):
                    return 0
                p = pos(o)
                if p < len(bs):
                    return 0
                if p == len(bs) and eof:
                    return 1
                raise Unknown
            return None
        return f

    def run(self, c, bs, eof):
        """all results of feeding bs in control state c: set of (status, output bytes, ctrl)"""
        res = set()
        seen = set()
        work = [(c, 0, ())]
        while work:
            c, p, out = work.pop()
            if (c, p, out) in seen:
                continue
            seen.add((c, p, out))
            if p == len(bs):
                if not eof:
                    res.add(("cont", out, c))
                    continue
                hit = False
                for (cx, how), ts in self.tails.items():
                    if how == "eof" and cx == c:
                        for items, amb, x, v in ts:
                            hit = True
                            if not (amb and v == EMPTY):
                                res.add(self.final(items, amb, out, ()))
                if not hit:
                    res.add(("noexit", out, c))
                continue
            rest = bs[p:]
            hit = False
            # a normal exit of the loop although there is input left
            for (cx, how), ts in self.tails.items():
                if how in ("eof", "zero") and cx == c and self.idx is not None:
                    for items, amb, x, v in ts:
                        if not self.contradicted(x.facts.items(), self.env(self.cell(x, self.idx), rest, eof, None)):
                            res.add(("stops early", out, None))
            for t in self.trans:
                if t["c"] != c:
                    continue
                env = self.env(t["base"], rest, eof, t)
                if not consistent(t["facts"], env):
                    continue
                hit = True
                if t["kind"] == "r":
                    if t["ret"] == EMPTY and t["bin"] == EMPTY and not t["items"]:
                        continue        # null and empty result cannot be told apart in the first iteration
                    res.add(("reject", (), None) if t["ret"] == EMPTY else self.final(self.delta(t["bin"], t["ret"]), False, out, rest))
                    continue
                if t["items"] is None:
                    res.add(("garbled", out, None))
                    continue
                try:
                    o = tuple(val(i, env) & 0xff for i in t["items"])
                except Unknown:
                    res.add(("unknown-output %s" % show(t["items"][0])[:60], out, None))
                    continue
                if t["kind"] == "b":
                    for (cx, how), ts in self.tails.items():
                        if how == "break" and cx == t["c2"]:
                            for items, amb, x, v in ts:
                                if consistent([f for f in x.facts.items()], env) and not (amb and v == EMPTY):
                                    res.add(self.final(items, amb, out + o, ()))
                    continue
                if t["n"] <= 0:
                    res.add(("stuck", out, None))
                    continue
                work.append((t["c2"], p + t["n"], out + o))
                if p + t["n"] > len(bs):
                    res.add(("overrun", out, None))
                    work.pop()
            if not hit:
                res.add(("stuck", out, None))
        return res

    def contradicted(self, facts, env):
        for a, v in facts:
            try:
                if truthv(a, env) != v:
                    return True
            except Unknown:
                pass
        return False

    def final(self, items, amb, out, rest):
        if items == "reject":
            return ("reject", (), None)
        if items is None:
            return ("garbled", (), None)
        try:
            return ("accept", out + tuple(val(i, lambda t: None) & 0xff for i in items), None)
        except Unknown:
            return ("unknown-tail", out, None)


def reach(T, words):
    """control states reachable at symbol boundaries"""
    todo = list(T.start)
    seen = set(todo)
    while todo:
        c = todo.pop()
        for w in words:
            for s, o, c2 in T.run(c, w, False):
                if s == "cont" and c2 not in seen:
                    seen.add(c2)
                    todo.append(c2)
    return seen


def enc_ref(v):
    return (ESC, TEND) if v == END else (ESC, TESC) if v == ESC else (v,)


def expand(items):
    r = []
    for t in items:
        if t[0] == "enc":
            n = {"unsigned short": 2, "short": 2, "unsigned int": 4, "int": 4, "unsigned char": 1, "signed char": 1}.get(t[1].replace("&", "").strip())
            if n is None:
                r.append(t)
                continue
            for i in range(n):
                r.append(("byte", ("op", ">>", t[2], C(8 * (n - 1 - i)))) if n - 1 - i else ("byte", t[2]))
        else:
            r.append(t)
    return tuple(r)


def morphism(t, data):
    """data.replace(a, x).replace(b, y) as a list of (byte, bytes); None if it is something else"""
    if t == data:
        return []
    if t[0] == "mut" and t[1] == "replace" and len(t[3]) >= 2:
        m = morphism(t[2], data)
        if m is None:
            return None
        a, b = [tobytes(x) for x in t[3][:2]]
        if a is None or b is None or len(a) != 1:
            return None
        return m + [(a[0], b)]
    return None


def tobytes(t):
    if is_c(t) and isinstance(t[1], int):
        return (t[1] & 0xff,)
    if is_c(t) and isinstance(t[1], str):
        return tuple(ord(c) & 0xff for c in t[1])
    if t[0] in ("byte", "sbyte", "enc8"):
        try:
            return (val(t, lambda x: None) & 0xff,)
        except Unknown:
            return None
    if t[0] == "cat":
        r = ()
        for x in t[1:]:
            b = tobytes(x)
            if b is None:
                return None
            r += b
        return r
    return None


def run_codec(ctx, name, opaque=()):
    fn = ctx.p.fn(name)
    p0 = fn["params"][0]
    data = ("p", 0, p0["n"], p0["t"])
    m = LoopMon(data, opaque)
    res, I = ctx.run(fn, m)
    return fn, data, m, res, I


def bypass(ctx, what, w, res, I, data):
    """every result depends on the data: no exit leaves before the bytes are looked at (except for no data at all)"""
    for st, v in res:
        if any(isinstance(g, tuple) and g[0] == "exit" for g in st.ghost) or I.decide(I.mk_eq(("count", data), C(0)), st) is True:
            continue
        if any(t[0] in ("elem", "get") and t[1] == data for a in list(st.facts) + [v] for t in subterms(a)):
            continue
        ctx.bad("T03:%s:bypass" % what, w, "data of some lengths is answered with %s without being looked at" % show(v)[:60], st)


def check_T03(ctx):
    R = Roles(ctx.p)
    # ---------------- encoder
    fn, data, m, res, I = run_codec(ctx, R.SERIAL)
    w = fnwhere(fn)
    mo = None
    if len(res) == 1:
        v = res[0][1]
        ps = cat_parts(v)
        if ps and morphism(ps[0], data) is not None:
            mo = morphism(ps[0], data)
            tail = tobytes(("cat",) + ps[1:]) if len(ps) > 1 else ()
    if mo is not None:
        for b in range(256):
            bs = (b,)
            for a, r in mo:
                bs = tuple(y for x in bs for y in (r if x == a else (x,)))
            ctx.require(bs == enc_ref(b), "encoder output per byte", "T03:enc:%02x" % b, w, "byte 0x%02X is encoded as %s" % (b, hexs(bs)))
        ctx.require(tail == (END,), "encoder terminates the frame", "T03:enc:end", w, "the frame ends with %s" % hexs(tail or ()))
    else:
        T = Transducer(ctx, fn, data, m, res, I)
        for c in reach(T, [(b,) for b in range(256)]):
            for b in range(256):
                for s, o, c2 in T.run(c, (b,), False):
                    ctx.require(s == "cont" and o == enc_ref(b), "encoder output per byte", "T03:enc:%02x" % b, w,
                                "byte 0x%02X is encoded as %s (%s)" % (b, hexs(o), s))
            for s, o, c2 in T.run(c, (), True):
                ctx.require(s == "accept" and o == (END,), "encoder terminates the frame", "T03:enc:end", w, "the frame ends with %s (%s)" % (hexs(o), s))
        # input without any byte
        bypass(ctx, "enc", w, res, I, data)
        for st, v in res:
            if I.decide(I.mk_eq(("count", data), C(0)), st) is True:
                ctx.require(tobytes(("cat",) + cat_parts(v)) == (END,), "encoder terminates the empty frame", "T03:enc:empty", w, "no data is encoded as %s" % show(v))
    # ---------------- decoder
    fn, data, m, res, I = run_codec(ctx, DESER)
    w = fnwhere(fn)
    bypass(ctx, "dec", w, res, I, data)
    T = Transducer(ctx, fn, data, m, res, I)
    good = [(b,) for b in range(256) if b not in (END, ESC)] + [(ESC, TEND), (ESC, TESC)]
    dec = {(ESC, TEND): (END,), (ESC, TESC): (ESC,)}
    for c in reach(T, good):
        for wd in good:
            for s, o, c2 in T.run(c, wd, False):
                ctx.require(s == "cont" and o == dec.get(wd, wd), "decoder inverts the encoder", "T03:dec:%s" % hexs(wd), w,
                            "%s is decoded as %s (%s)" % (hexs(wd), hexs(o), s))
        for x in range(256):
            if x in (TEND, TESC):
                continue
            for s, o, c2 in T.run(c, (ESC, x), False):
                ctx.require(s == "reject", "invalid escape rejected", "T03:badesc:%02x" % x, w, "the invalid escape DB %02X is not rejected (%s)" % (x, s))
        for s, o, c2 in T.run(c, (ESC,), True):
            ctx.require(s == "reject", "truncated escape rejected", "T03:truncesc", w, "data ending within an escape sequence is not rejected (%s)" % s)
        for wd in ((), (END,), (END, 0x41)):
            for s, o, c2 in T.run(c, wd, not wd):
                ctx.require(s == "accept" and o == (), "end of frame delivers the decoded data", "T03:dec:end", w,
                            "end of frame %s: %s" % (hexs(wd) or "(end of data)", (s, hexs(o))))
    # ---------------- frame header
    header(ctx, R)
    ctx.need(256, "encoder output per byte")
    ctx.need(256, "decoder inverts the encoder")
    ctx.need(254, "invalid escape rejected")
    ctx.need(1, "truncated escape rejected")


def hexs(b):
    return " ".join("%02X" % x if isinstance(x, int) else str(x) for x in b)


def header(ctx, R):
    # build: two big endian address bytes, then the payload bytes
    fn = ctx.p.fn(R.BUILD)
    frame = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    A, D = ("f", frame, R.fr_addr), ("f", frame, R.fr_data)
    m = LoopMon(D)
    res, I = ctx.run(fn, m)
    w = fnwhere(fn)
    for st, v in res:
        parts = expand(cat_parts(v))
        ph = [t for t in parts if t[0] == "phi"]
        if ph:
            # header written before the copy loop: initial value of the output cell
            lid, cell = ph[0][1], ph[0][2]
            its = [i for i in m.iters if i[0] == lid]
            head = expand(cat_parts(I.load(its[0][2], cell))) if its else ()
            T = Transducer(ctx, fn, D, m, [(st, v)], I)
            okcopy = True
            for c in reach(T, [(b,) for b in range(256)]):
                for b in range(256):
                    if {(s, o) for s, o, _ in T.run(c, (b,), False)} != {("cont", (b,))}:
                        okcopy = False
            ctx.require(okcopy, "payload copied unchanged", "T03:build:payload", w, "the payload bytes are not copied unchanged into the frame", st)
            rest = parts[1:] if parts[0] == ph[0] else None
            ctx.require(rest == (), "nothing follows the payload", "T03:build:tail", w, "the frame is %s" % show(v)[:200], st)
        else:
            empty = I.decide(I.mk_eq(("count", D), C(0)), st) is True
            if parts and parts[-1] == D:
                parts, empty = parts[:-1], True
            ctx.require(empty, "payload copied unchanged", "T03:build:payload", w, "the frame is %s" % show(v)[:200], st)
            head = parts
        ctx.require(be16(head, A), "header is the big endian address", "T03:build:address", w, "the frame header is %s" % show(("cat",) + tuple(head))[:200], st)
    # parse
    fn = ctx.p.fn(R.PARSE)
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    m = LoopMon(data)
    res, I = ctx.run(fn, m)
    w = fnwhere(fn)
    n = 0
    for st, v in res:
        short = any(a[0] == "lt" and a[1] == ("count", data) and is_c(a[2]) and a[2][1] <= 2 and x for a, x in st.facts.items())
        if short:
            continue
        a = I.fieldof(v, R.fr_addr)
        d = I.fieldof(v, R.fr_data)
        ctx.require(dec16(a, data), "address decoded from the first two bytes", "T03:parse:address", w, "the address is parsed as %s" % show(a)[:200], st)
        n += 1
        if d[0] == "phi":
            ctx.require(parse_copy(ctx, m, d, data, I), "payload is everything behind the address", "T03:parse:payload", w,
                        "the payload is not a copy of the bytes behind the address", st)
        elif d == EMPTY:
            ok = any(x[0] == "call" and x[1].endswith("atEnd") and y for x, y in st.facts.items()) or \
                any(("count", data) in x[1:] for x in st.facts if x[0] in ("eq", "lt")) or rs_end(st)
            ctx.require(ok, "empty payload only at the end of data", "T03:parse:empty", w, "the payload is dropped", st)
        else:
            ctx.require(mid2(d, data), "payload is everything behind the address", "T03:parse:payload", w, "the payload is parsed as %s" % show(d)[:200], st)
    ctx.need(1, "header is the big endian address")
    ctx.need(1, "address decoded from the first two bytes")
    ctx.need(1, "payload is everything behind the address")


def rs_end(st):
    return any("atEnd" in str(a) for a in st.facts)


def be16(head, A):
    if len(head) != 2:
        return False
    for a in range(65536):
        env = lambda t: a if t == A else None
        try:
            if (val(head[0], env) & 0xff, val(head[1], env) & 0xff) != (a >> 8, a & 0xff):
                return False
        except Unknown:
            return False
    return True


def dec16(a, data):
    if a[0] == "dec":
        return a[1].strip() in ("unsigned short",) and a[2] == ("rstream", data, 0)
    for x in range(0, 65536, 1):
        def env(t):
            if t[0] == "get" and t[1] == data and t[2] in (C(0), C(1)):
                b = (x >> 8) if t[2] == C(0) else x & 0xff
                return b - 256 if b > 127 else b
            return None
        try:
            if val(a, env) & 0xffff != x:
                return False
        except Unknown:
            return False
    return True


def mid2(d, data):
    return d[0] == "call" and d[1].rsplit("::", 1)[-1] in ("mid", "sliced") and d[2] == data and d[3] and d[3][0] == C(2) and \
        (len(d[3]) == 1 or d[3][1] == C(-1)) or \
        d[0] == "call" and d[1] == "right" and d[2] == data and d[3] == (("op", "+", ("count", data), C(-2)),)


def parse_copy(ctx, m, d, data, I):
    """loop: while not at the end, read one byte from the stream and append it"""
    lid, cell = d[1], d[2]
    its = [i for i in m.iters if i[0] == lid]
    if not its:
        return False
    for k, (l, R, st, outs, fr) in enumerate(its):
        Bin = I.load(st, cell)
        if k == 0 and Bin != EMPTY:
            return False
        pos0 = any(v == ("rstream", data, 2) for v in st.env.values())
        if k == 0 and not pos0 and not any(True for x in [1]):
            return False
        for kind, x, v in outs:
            if kind not in ("n", "k"):
                return False
            Bout = I.load(x, cell)
            pa, pb = cat_parts(Bin), cat_parts(Bout)
            if pb[:len(pa)] != pa or len(pb) != len(pa) + 1:
                return False
            it = pb[-1]
            while it[0] in ("byte", "sbyte"):
                it = it[1]
            if it[0] == "dec":
                if it[1].strip() not in ("unsigned char", "signed char"):
                    return False
                if k == 0 and it[2] != ("rstream", data, 2):
                    return False
            elif it[0] in ("get",) and it[1] == data:
                if k == 0 and it[2] != C(2):
                    return False
            else:
                return False
    # it stops at the end only
    for l, how, x in m.exits:
        if l == lid and how not in ("eof", "zero"):
            return False
    return True


# ============================================================================ T04
class ReMon(LoopMon):
    def __init__(self, data, opaque, R, deliver):
        LoopMon.__init__(self, data, opaque)
        self.R = R
        self.deliver = deliver

    def event(self, st, ev):
        self.deliver(self, st, ev)


def reassembly(ctx, tag, fn, m, I, res, data, buf, delivered, lost_ok, where_):
    """checks every iteration of the loop over the received bytes; delivered(st_in, x) -> list of delivered frame terms"""
    its = [i for i in m.iters if i[1] == data or any(t[0] == "get" and t[1] == data for k, x, v in i[3] for a in x.facts for t in subterms(a))]
    lids = []
    for i in its:
        if i[0] not in lids:
            lids.append(i[0])
    if len(lids) != 1:
        raise AnalysisError("%s: expected one loop over the received data, found %d" % (fn["n"], len(lids)))
    lid = lids[0]
    w = "%s:%s (%s)" % (fn["file"], lid[2], fn["n"])
    for n, (l, Rr, st, outs, fr) in enumerate(its):
        Bin = I.load(st, buf)
        if n == 0:
            ctx.require(Bin == ("f", buf[1], buf[2]), "the reassembly buffer survives between reads", "T04:%s:lost" % tag, w,
                        "the data kept from earlier reads is replaced by %s" % show(Bin), st)
            if Bin != ("f", buf[1], buf[2]):
                return lid
        base = C(0)
        if Rr != data:
            raise AnalysisError("%s: unsupported loop over the received data" % fn["n"])
        for kind, x, v in outs:
            Bout = I.load(x, buf)
            frames = delivered(st, x)
            decoded = ("call", DESER, None, (Bin,))
            isempty = I.decide(I.mk_eq(("count", Bin), C(0)), x)
            null = None
            for a, y in x.facts.items():
                if a[0] == "call" and a[1].rsplit("::", 1)[-1] == "isNull" and a[2] == decoded:
                    null = y
                if a == ("eq", C(0), ("count", decoded)):
                    null = y
            for b in range(256):
                env = lambda t: (b - 256 if b > 127 else b) if t == ("elem", data, lid) else None
                if not consistent(x.facts.items(), env):
                    continue
                key = "T04:%s:" % tag
                if kind not in ("n", "k"):
                    if lost_ok(x):
                        ctx.ok("connection closed while processing")
                        continue
                    ctx.bad(key + "abort", w, "byte 0x%02X ends the handling of the rest of the read" % b, x)
                    continue
                if b != END:
                    p0, p1 = cat_parts(Bin), cat_parts(Bout)
                    good = p1[:len(p0)] == p0 and len(p1) == len(p0) + 1
                    if good:
                        try:
                            good = val(p1[-1], env) & 0xff == b
                        except Unknown:
                            good = False
                    ctx.require(good, "data byte kept for the frame", key + "byte", w, "byte 0x%02X turns the buffer into %s" % (b, show(Bout)[:100]), x)
                    ctx.require(not frames, "no frame before its end byte", key + "early", w, "a frame is delivered at byte 0x%02X" % b, x)
                else:
                    ctx.require(Bout == EMPTY or (isempty is True and Bout == Bin), "buffer empty behind an end byte", key + "rest", w,
                                "data of a finished frame stays in the buffer (%s)" % show(Bout)[:100], x)
                    if isempty is True:
                        ctx.require(all(f == decoded for f in frames) and len(frames) <= 0, "nothing delivered for an empty frame", key + "empty", w,
                                    "something is delivered although there is no data", x)
                    elif null is True:
                        ctx.require(not frames, "malformed frame dropped", key + "malformed", w, "a malformed frame is delivered", x)
                    elif null is None:
                        ctx.require(not frames, "decoding result checked", key + "unchecked", w, "a frame is delivered without checking that it is well formed", x)
                        if not frames:
                            ctx.bad(key + "dropped", w, "a complete frame is not delivered", x)
                    else:
                        good = len(frames) == 1 and frames[0] == decoded
                        ctx.require(good, "complete frame delivered once, decoded", key + "frame", w,
                                    "a complete frame is delivered as %s" % [show(f)[:80] for f in frames], x)
    return lid


def check_T04(ctx):
    R = Roles(ctx.p)
    # ---- server side: reassembly of a framed server connection
    fn = ctx.p.fn("remoteproxy::TunnelProxyClient::processData")
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    m = LoopMon(data, R.CODEC | {DESER})
    st0 = State()
    st0.heap[("fl", ("this",), R.slip)] = TRUE
    res, I = ctx.run(fn, m, st=st0)
    buf = ("fl", ("this",), R.buf)
    box = {}

    def delivered(st, x):
        fs = []
        for c, v in x.env.items():
            old = st.env.get(c)
            if v[0] == "app" and old is not None:
                t = v
                out = []
                while t[0] == "app" and t != old:
                    out.append(t[2])
                    t = t[1]
                if t == old:
                    fs += reversed(out)
                    box["cell"] = c
        return fs
    lid = reassembly(ctx, "server", fn, m, I, res, data, buf, delivered, lambda x: False, None)
    w = fnwhere(fn)
    for i in m.iters:
        if i[0] == lid and box.get("cell") is not None:
            for kind, x, v in i[3]:
                t, old = x.env.get(box["cell"], VOID), i[2].env.get(box["cell"])
                while t[0] == "app" and t != old:
                    t = t[1]
                ctx.require(t == old or kind == "r", "earlier frames of the read are kept, in order", "T04:server:frames", w, "the frames completed before in the same read become %s" % show(x.env.get(box["cell"], VOID))[:100], x)
    for st, v in res:
        zero = I.decide(I.mk_eq(("count", data), C(0)), st) is True
        if zero:
            ctx.require(v == EMPTY and I.load(st, buf) == ("f", ("this",), R.buf), "empty read changes nothing", "T04:server:zero", w, "an empty read changes the buffer", st)
            continue
        e = st.ghost.get(("exit", lid))
        if e is None:
            raise AnalysisError("%s: a path leaves the function without passing the loop" % fn["n"])
        x = m.exits[e][2]
        ctx.require(box.get("cell") is not None and v == I.load(x, box["cell"]), "all frames of a read are returned", "T04:server:return", w,
                    "the frames of a read are returned as %s" % show(v)[:120], st)
        ctx.require(I.load(st, buf) == I.load(x, buf), "partial frame kept for the next read", "T04:server:keep", w,
                    "behind the read the buffer is %s" % show(I.load(st, buf))[:100], st)
    # ---- client library side
    client_side(ctx, R, "T04")
    for t in ("data byte kept for the frame", "complete frame delivered once, decoded", "malformed frame dropped"):
        ctx.need(2, t)


def client_side(ctx, R, what):
    p = ctx.p
    CS = "remoteproxyclient::TunnelProxySocketServer"
    fn = slot_of(ctx, "remoteproxyclient::ProxyConnection::dataReceived", CS)
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    fbuf = p.field(CS, "m_dataBuffer", r"QByteArray")
    fstate = p.field(CS, "m_state", r"State$")
    fjson = p.field(CS, "m_jsonClient", r"JsonRpcClient \*")
    fsock = p.field(CS, "m_tunnelProxySockets", r"TunnelProxySocket \*>")
    running = enumval(p, CS + "::State", "StateRunning")
    JPD = "remoteproxyclient::JsonRpcClient::processData"
    DR = "remoteproxyclient::TunnelProxySocket::dataReceived"

    def deliver(m, st, ev):
        if ev.kind in ("call", "enter") and ev.name == JPD:
            st.ghost[("dl", min(len([g for g in st.ghost if g[0] == "dl"]), 3))] = ("json", ev.obj, ev.args[0])
        elif ev.kind == "emit" and ev.name == DR:
            st.ghost[("dl", min(len([g for g in st.ghost if g[0] == "dl"]), 3))] = ("sock", ev.obj, ev.args[0])
    m = ReMon(data, R.CODEC | {DESER, JPD}, R, deliver)
    old = m.loop_iter

    def li(interp, loop, st_in, outs):
        old(interp, loop, st_in, outs)
        for k, x, v in outs:
            for g in [g for g in x.ghost if g[0] == "dl"]:
                del x.ghost[g]
    m.loop_iter = li
    st0 = State()
    st0.heap[("fl", ("this",), fstate)] = C(running)
    res, I = ctx.run(fn, m, st=st0)
    buf = ("fl", ("this",), fbuf)

    def dls(x):
        return [x.ghost[g] for g in sorted(g for g in x.ghost if isinstance(g, tuple) and g[0] == "dl")]

    def delivered(st, x):
        fs = []
        for kind, o, a in dls(x):
            if a[0] == "f" and a[2] == R.fr_data and a[1][0] == "call" and a[1][1] == R.PARSE:
                fs.append(a[1][3][0])
            else:
                fs.append(a)
        # a frame for an unknown socket is delivered nowhere: still counts as handled
        if not fs and what == "T04":
            for a, y in x.facts.items():
                k = a[2][2] if y and a[0] == "eq" and a[1] == NULL and a[2][0] == "get" and a[2][1] == ("f", ("this",), fsock) else \
                    a[2] if not y and a[0] == "has" and a[1] == ("f", ("this",), fsock) else None
                if k is not None:
                    if k[0] == "f" and k[2] == R.fr_addr and k[1] == ("call", R.PARSE, None, (("call", DESER, None, (I.load(st, buf),)),)):
                        fs.append(k[1][3][0])
                        break
        return fs

    def closed(x):
        return is_null(I, x, I.load(x, ("fl", ("this",), fjson))) is True
    if what == "T04":
        lid = reassembly(ctx, "client", fn, m, I, res, data, buf, delivered, closed, None)
        w = fnwhere(fn)
        for st, v in res:
            b = I.load(st, buf)
            if closed(st):
                continue
            e = st.ghost.get(("exit", lid))
            if e is None:
                raise AnalysisError("%s: a path leaves the function without passing the loop" % fn["n"])
            ctx.require(b == I.load(m.exits[e][2], buf), "partial frame kept for the next read", "T04:client:keep", w,
                        "behind the read the buffer is %s" % show(b)[:100], st)
        return
    # T05: demultiplexing of the decoded frames
    for n, (l, Rr, st, outs, fr) in enumerate(m.iters):
        if Rr != data:
            continue
        w = "%s:%s (%s)" % (fn["file"], l[2], fn["n"])
        for kind, x, v in outs:
            ds = dls(x)
            ctx.require(len(ds) <= 1, "frame delivered at most once", "T05:twice", w, "a frame is delivered %d times" % len(ds), x)
            for dk, o, a in ds:
                ok = a[0] == "f" and a[2] == R.fr_data and a[1][0] == "call" and a[1][1] == R.PARSE
                if not ctx.require(ok, "payload delivered unchanged", "T05:payload", w, "delivered data is %s" % show(a)[:120], x):
                    continue
                A = ("f", a[1], R.fr_addr)
                z = I.decide(I.mk_eq(A, C(0)), x)
                if dk == "json":
                    ctx.require(z is True and o == I.load(x, ("fl", ("this",), fjson)), "only address 0 reaches the management client", "T05:mgmt", w,
                                "a frame whose address is not 0 is handled as management message", x)
                else:
                    ctx.require(z is False, "address 0 never reaches a tunnel socket", "T05:zero", w, "a management frame reaches a tunnel socket", x)
                    ctx.require(o == ("get", ("f", ("this",), fsock), A), "frame reaches the socket of its address", "T05:socket", w,
                                "the frame is delivered to %s" % show(o)[:160], x)
            if not ds and kind in ("n", "k"):
                # a decoded frame that is not delivered: only for an unknown address
                D = ("call", DESER, None, (I.load(st, ("fl", ("this",), fbuf)),))
                for a, y in x.facts.items():
                    dn = a[0] == "call" and a[1].rsplit("::", 1)[-1] == "isNull" and a[2] == D or a == ("eq", C(0), ("count", D))
                    if dn and y is False:
                        A = ("f", ("call", R.PARSE, None, (D,)), R.fr_addr)
                        unknown = is_null(I, x, ("get", ("f", ("this",), fsock), A)) is True
                        ctx.require(unknown and I.decide(I.mk_eq(A, C(0)), x) is False, "only frames for unknown addresses are dropped", "T05:drop", w,
                                    "a well formed frame is dropped", x)


def enumval(p, enum, name):
    en = p.enums.get(enum)
    if not en:
        raise AnalysisError("enum %s not found" % enum)
    for e in en["v"]:
        if e["n"].rsplit("::", 1)[-1] == name:
            return e["v"]
    raise AnalysisError("enumerator %s not found" % name)


def slot_of(ctx, sig, cls):
    s = [x for x in ctx.p.slots_of(sig, cls) if ctx.p.fns.get(x)]
    if len(s) != 1:
        raise AnalysisError("expected one slot of %s for %s, found %d" % (cls, sig, len(s)))
    return ctx.p.fns[s[0]]


# ============================================================================ T05
class IOMon(Monitor):
    """counts the observable outputs of one event: data handed to the transport / the JSON client / the application"""

    fbuf = None

    def __init__(self, R):
        self.R = R
        self.opaque = R.CODEC | {DESER, "remoteproxyclient::JsonRpcClient::processData", "remoteproxyclient::JsonRpcClient::processDataPacket"}

    def event(self, st, ev):
        k = None
        if ev.kind in ("call", "enter") and ev.name == "remoteproxyclient::ProxyConnection::sendData":
            k = "sent"
        elif ev.kind in ("call", "enter") and ev.name == "remoteproxyclient::JsonRpcClient::processData":
            k = "json"
        elif ev.kind == "emit" and ev.short() in ("dataReady", "dataReceived"):
            k = "emit"
        if k:
            n = st.ghost.get(k, ())
            if len(n) < 3:
                st.ghost[k] = n + ((ev.obj, ev.args[0]),)
            if k == "json" and self.fbuf:
                st.ghost["jsonbuf"] = self.I.load(st, self.fbuf)


def one(st, k):
    e = st.ghost.get(k, ())
    return e[0] if len(e) == 1 else None


def check_T05(ctx):
    R = Roles(ctx.p)
    p = ctx.p
    NS = "remoteproxyclient::"
    client_side(ctx, R, "T05")
    ctx.need(1, "payload delivered unchanged")
    ctx.need(1, "only address 0 reaches the management client")
    ctx.need(1, "frame reaches the socket of its address")
    # ---- the server library before the registration: everything belongs to the management client
    CS = NS + "TunnelProxySocketServer"
    fn = slot_of(ctx, NS + "ProxyConnection::dataReceived", CS)
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    st0 = State()
    fstate = p.field(CS, "m_state", r"State$")
    st0.heap[("fl", ("this",), fstate)] = C(enumval(p, CS + "::State", "StateRegister"))
    m = IOMon(R)
    res, I = ctx.run(fn, m, st=st0)
    fjson = p.field(CS, "m_jsonClient", r"JsonRpcClient \*")
    for st, v in res:
        if is_null(I, st, ("f", ("this",), fjson)) is True:
            continue
        ctx.require(one(st, "json") == (("f", ("this",), fjson), data) and not st.ghost.get("emit"), "unframed data is handled by the management client",
                    "T05:preslip", fnwhere(fn), "data received before the registration is handled as %s" % show_io(st), st)
    # ---- sending on a tunnel socket
    TS = NS + "TunnelProxySocket"
    fn = p.fn(TS + "::writeData")
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    conn = p.field(TS, "m_connection", r"ProxyConnection")
    addr = p.field(TS, "m_socketAddress", r"quint16|unsigned short")
    m = IOMon(R)
    res, I = ctx.run(fn, m)
    for st, v in res:
        if is_null(I, st, ("f", ("this",), conn)) is True:
            continue
        if not st.ghost.get("sent") and I.decide(I.mk_eq(("count", data), C(0)), st) is True:
            continue
        o = one(st, "sent")
        sp = R.slip_payload(o[1], I) if o else None
        ctx.require(o is not None and o[0] == ("f", ("this",), conn) and sp == (("f", ("this",), addr), data), "socket data is sent as one frame with the socket's address",
                    "T05:write", fnwhere(fn), "writeData sends %s" % show_io(st), st)
    # ---- constructor: the socket keeps the announced address
    ann = slot_of(ctx, NS + "JsonRpcClient::tunnelProxyClientConnected", CS)
    socks = p.field(CS, "m_tunnelProxySockets", r"TunnelProxySocket \*>")
    fconn = p.field(CS, "m_connection", r"ProxyConnection")
    par = [("p", i, q["n"], q["t"]) for i, q in enumerate(ann["params"])]
    a = [x for x in par if "quint16" in x[3] or "unsigned short" in x[3]]
    if len(a) != 1:
        raise AnalysisError("unexpected signature of %s" % ann["f"])
    m = IOMon(R)
    res, I = ctx.run(ann, m)
    for st, v in res:
        s = I.get(I.load(st, ("fl", ("this",), socks)), a[0])
        ctx.require(s[0] == "new" and fieldval(st, I, s, addr) == a[0] and fieldval(st, I, s, conn) == ("f", ("this",), fconn),
                    "socket created for the announced address", "T05:new", fnwhere(ann),
                    "the socket entered for an announced address is %s" % show(s)[:100], st)
    # ---- client side: after the registration the connection is transparent
    CC = NS + "TunnelProxyRemoteConnection"
    fn = slot_of(ctx, NS + "ProxyConnection::dataReceived", CC)
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    fstate = p.field(CC, "m_state", r"State$")
    ready = C(enumval(p, CC + "::State", "StateRemoteConnected"))
    fjson = p.field(CC, "m_jsonClient", r"JsonRpcClient \*")
    fconn = p.field(CC, "m_connection", r"ProxyConnection")
    m = IOMon(R)
    res, I = ctx.run(fn, m)
    for st, v in res:
        r = I.decide(I.mk_eq(("f", ("this",), fstate), ready), st)
        if r is not False:
            ctx.require(one(st, "emit") == (("this",), data) and not st.ghost.get("json"), "tunnel data is handed to the application unchanged",
                        "T05:remote:rx", fnwhere(fn), "received tunnel data is handled as %s" % show_io(st), st)
        elif is_null(I, st, ("f", ("this",), fjson)) is not True:
            ctx.require(one(st, "json") == (("f", ("this",), fjson), data) and not st.ghost.get("emit"), "data before the tunnel exists is handled by the management client",
                        "T05:remote:mgmt", fnwhere(fn), "data received before the tunnel exists is handled as %s" % show_io(st), st)
        else:
            ctx.require(not st.ghost.get("emit"), "no tunnel data before the tunnel exists", "T05:remote:early", fnwhere(fn), "data is handed to the application before the tunnel exists", st)
    fn = p.fn(CC + "::sendData")
    data = ("p", 0, fn["params"][0]["n"], fn["params"][0]["t"])
    m = IOMon(R)
    res, I = ctx.run(fn, m)
    for st, v in res:
        r = I.decide(I.mk_eq(("f", ("this",), fstate), ready), st)
        o = one(st, "sent")
        if r is True and (is_null(I, st, ("f", ("this",), fconn)) is not True):
            ctx.require(o == (("f", ("this",), fconn), data) and truth(I, st, v) is True, "application data is sent unchanged",
                        "T05:remote:tx", fnwhere(fn), "sendData sends %s and returns %s" % (show_io(st), show(v)), st)
        else:
            ctx.require(not st.ghost.get("sent") and truth(I, st, v) is False, "nothing is sent without a tunnel", "T05:remote:refuse", fnwhere(fn),
                        "without a tunnel sendData sends %s and returns %s" % (show_io(st), show(v)), st)
    for n in ("frame reaches the socket of its address", "tunnel data is handed to the application unchanged", "application data is sent unchanged",
              "socket data is sent as one frame with the socket's address", "socket created for the announced address",
              "nothing is sent without a tunnel"):
        ctx.need(1, n)


def check_X02(ctx):
    from rules_transport import client_transport
    client_transport(ctx)


def check_T06(ctx):
    """what follows the response to the registration is tunnel data, wherever the network cuts"""
    R = Roles(ctx.p)
    p = ctx.p
    NS = "remoteproxyclient::"
    CS, CC, JC = NS + "TunnelProxySocketServer", NS + "TunnelProxyRemoteConnection", NS + "JsonRpcClient"
    # ---- the management client takes exactly its messages out of the stream
    from rules_limits import splitter
    jbuf = p.field(JC, "m_dataBuffer", r"QByteArray")
    splitter(ctx, "client", p.fn(JC + "::processData"), jbuf, State(), JC + "::processDataPacket", None, "T06")
    # ---- the rest is handled as tunnel data
    for cls, ready_ in ((CS, "StateRunning"), (CC, "StateRemoteConnected")):
        switch(ctx, p, R, cls, C(enumval(p, cls + "::State", ready_)), jbuf)
    # ---- data and answers are handled when they arrive, not later in another state
    for c in p.connections:
        sg = (c["sig"] or "").split("(")[0]
        if p.fns.get(c["fn"], {}).get("cls") in (CS, CC) and sg in (NS + "ProxyConnection::dataReceived", NS + "JsonReply::finished"):
            ty = [a for a in c["node"]["args"] if isinstance(a, dict) and a.get("t", "").endswith("Qt::ConnectionType")]
            v = ty[0].get("v") if ty and ty[0].get("k") == "const" else None if ty else 0
            ctx.require(v is not None and (v & 0x7f) in (0, 1) and (not v & 0x100 or sg.endswith("finished")), "data and answers are handled in the order and the state they arrive in",
                        "T06:direct:%s:%s" % (sg.rsplit("::", 2)[-2], (c["slot"] or "").split("(")[0].rsplit("::", 1)[-1]), "%s:%d (%s)" % (c["file"], c["l"], c["fn"].split("(")[0]),
                        "%s is delivered later (connection type %s): data behind the response to the registration, or data of a lost connection, is handled in the wrong state" % (sg, v))
    # ---- the beginning of a frame is neither thrown away nor kept for another connection
    fn = slot_of(ctx, NS + "ProxyConnection::dataReceived", CS)
    fstate = p.field(CS, "m_state", r"State$")
    fjson = p.field(CS, "m_jsonClient", r"JsonRpcClient \*")
    fbuf = ("fl", THIS, p.field(CS, "m_dataBuffer", r"QByteArray"))
    st0 = State()
    st0.heap[("fl", THIS, fstate)] = C(enumval(p, CS + "::State", "StateRegister"))
    m = IOMon(R)
    m.fbuf = fbuf
    res, I = ctx.run(fn, m, st=st0)
    rs, Is = ctx.run(p.fn(CS + "::startServer"), IOMon(R))
    fresh = all(v == FALSE or Is.load(x, fbuf) == EMPTY for x, v in rs)
    for st, v in res:
        if is_null(I, st, ("f", THIS, fjson)) is True:
            continue
        at = st.ghost.get("jsonbuf", VOID)
        ctx.require(I.load(st, fbuf) == at, "a frame that begins behind the registration is kept", "T06:buffer", fnwhere(fn),
                    "the beginning of a frame received together with the response to the registration is thrown away", st)
        ctx.require(at == EMPTY or fresh, "no part of a frame survives its connection", "T06:stale", fnwhere(fn), "the beginning of a frame of an earlier connection is kept for the next one", st)
    for n, k in (("what follows the registration is tunnel data", 2), ("a frame that begins behind the registration is kept", 1), ("the message is removed from the buffer before it is processed", 1)):
        ctx.need(k, n)


class Switch(IOMon):
    """the data handed on behind the registration"""

    def __init__(self, R, dfn, fields):
        IOMon.__init__(self, R)
        self.dfn = dfn
        self.fields = fields
        self.opaque = frozenset(self.opaque | {dfn["n"]})

    def event(self, st, ev):
        IOMon.event(self, st, ev)
        if ev.name == self.dfn["n"] and ev.kind in ("call", "enter"):
            st.ghost["rest"] = st.ghost.get("rest", ()) + ((ev.args[0], self.I.load(st, ("fl", THIS, self.fields))),)


def switch(ctx, p, R, cls, ready, jbuf):
    from rules_client import Role2, reg_slot
    r = Role2(ctx, cls)
    short = cls.rsplit("::", 1)[-1]
    state = r.state
    jf = r.json
    J = ("f", THIS, jf)
    B = ("f", J, jbuf)
    dfn = slot_of(ctx, "remoteproxyclient::ProxyConnection::dataReceived", cls)
    f = reg_slot(ctx, r)
    if not ctx.require(f is not None, "the answer to the registration is handled", "T06:switch:slot:" + short, fnwhere(r.changed), "nothing handles the answer to the registration"):
        return
    if True:
        m = Switch(R, dfn, state)
        res, I = ctx.run(f, m)
        w = fnwhere(f)
        for st, v in res:
            if I.load(st, ("fl", THIS, state)) != ready:
                continue
            if is_null(I, st, J) is True:
                continue
            got = st.ghost.get("rest", ()) + tuple((a, ready) for o, a in st.ghost.get("emit", ()))
            left = I.load(st, ("fl", J, jbuf))
            none = I.decide(I.mk_eq(("count", B), C(0)), st) is True
            ok = none and not got or got == ((B, ready),) and left == EMPTY
            ctx.require(ok, "what follows the registration is tunnel data", "T06:switch:" + short, w,
                        "after the registration the data already received is handled as %s and the management client keeps %s" % (
                            ", ".join(show(a)[:60] for a, s in got) or "nothing", show(left)[:80]), st)


def show_io(st):
    r = []
    for k in ("sent", "json", "emit"):
        for o, a in st.ghost.get(k, ()):
            r.append("%s(%s) on %s" % (k, show(a)[:100], show(o)[:60]))
    return "; ".join(r) or "nothing"
