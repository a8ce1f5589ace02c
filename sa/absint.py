"""Disjunctive abstract interpretation over the extracted typed AST.

Abstract values are value terms (access paths, uninterpreted results of library calls, allocation
sites); abstract states are finite maps from abstract cells to terms, plus branch facts (term -> bool)
plus the automaton state ("ghost") of the property monitor.  Calls to repository functions are
analysed in context (inlined summaries, recursion cut); loops are solved by fixpoint with widening of
every cell the body changes.  No solver is involved: a branch is pruned only when its normalised
condition is already a known fact (or follows by constant/enum/interval comparison).
"""
import re
import sys
from model import AnalysisError
from program import strip_ptr, walk

sys.setrecursionlimit(20000)
MAXSTATES = 6000
MAXDEPTH = 14

NULL = ("c", None)
TRUE = ("c", True)
FALSE = ("c", False)
EMPTY = ("empty",)
VOID = ("void",)


def C(v):
    return ("c", v)


def is_c(t):
    return t[0] == "c"


# ----------------------------------------------------------------------------- term helpers
def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def contains_term(t, s):
    return any(x == s for x in subterms(t))


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 7:
        return "…"
    if not t or not isinstance(t[0], str):
        return "(%s)" % ", ".join(show(x, d + 1) for x in t)
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == "c":
        return repr(t[1])
    if k == "p":
        return t[2]
    if k == "this":
        return "this"
    if k == "f":
        return "%s.%s" % (s(t[1]), t[2].rsplit("::", 1)[-1])
    if k == "g":
        return t[1]
    if k == "call":
        return "%s%s(%s)" % ((s(t[2]) + "." if t[2] else ""), t[1].rsplit("::", 1)[-1], ", ".join(s(x) for x in t[3]))
    if k in ("get", "ins", "rem", "app", "cat", "eq", "lt", "isnull", "count", "has", "elem"):
        return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:] if isinstance(x, tuple)))
    if k == "fresh":
        return "%s#" % (t[1].rsplit("::", 1)[-1])
    if k == "new":
        return "new %s" % t[1].rsplit("::", 1)[-1]
    return "%s(%s)" % (k, ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:4]))


class State:
    __slots__ = ("env", "heap", "facts", "ghost", "ver", "trace")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.ghost = {}
        self.ver = {}
        self.trace = ()

    def copy(self):
        n = State.__new__(State)
        n.env = dict(self.env)
        n.heap = dict(self.heap)
        n.facts = dict(self.facts)
        n.ghost = dict(self.ghost)
        n.ver = dict(self.ver)
        n.trace = self.trace
        return n

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                frozenset(self.ghost.items()), frozenset(self.ver.items()))

    def note(self, *x):
        self.trace = self.trace + (x,) if len(self.trace) < 60 else self.trace


class Frame:
    __slots__ = ("no", "fn", "this", "ctx", "loops")

    def __init__(self, no, fn, this, ctx, loops):
        self.no = no
        self.fn = fn
        self.this = this
        self.ctx = ctx      # tuple of call-site lines
        self.loops = loops  # active loop ids (tuple)


class Event:
    __slots__ = ("kind", "name", "fid", "obj", "args", "node", "fr", "file", "line", "targets", "st", "extra")

    def __init__(self, kind, name, fid, obj, args, node, fr, st, targets=None, extra=None):
        self.kind = kind
        self.name = name
        self.fid = fid
        self.obj = obj
        self.args = tuple(args)
        self.node = node
        self.fr = fr
        self.file = fr.fn["file"] if fr else "?"
        self.line = node.get("l", 0) if node else 0
        self.targets = targets
        self.st = st
        self.extra = extra

    def short(self):
        return self.name.rsplit("::", 1)[-1]

    def where(self):
        return "%s:%d (%s)" % (self.file, self.line, self.fr.fn["n"] if self.fr else "?")


class Monitor:
    """Property automaton; override the hooks needed."""
    opaque = frozenset()     # qualified names never analysed in context
    inline_virtual = True

    def event(self, st, ev):
        pass

    def branch(self, st, atom, val, fr, node):
        pass

    def write(self, st, loc, val, fr, node):
        pass

    def loop_iter(self, interp, loop, st_in, outs):
        pass

    def is_opaque(self, name, fid):
        return name in self.opaque


CONTAINERS = ("QHash", "QMap", "QMultiHash", "QMultiMap", "QList", "QVector", "QStringList", "QByteArray", "QString",
              "QSet", "QJsonObject", "QJsonArray", "QQueue", "QStack", "QListSpecialMethods", "QLinkedList", "QVarLengthArray")
STRINGS = ("QByteArray", "QString", "QStringList", "QLatin1String", "QByteArrayLiteral", "QStringLiteral", "QStringBuilder")
TRANSPARENT_CTORS = ("QString", "QByteArray", "QVariant", "QLatin1String", "QJsonValue", "QLatin1Char", "QChar",
                     "QStringList", "QFlags", "QPointer", "QSharedPointer", "QList", "QVector", "QHash", "QMap", "QJsonObject",
                     "QUrl", "QFlag", "QSet", "QJsonArray", "QFileInfo", "QDir")
DEFAULT_EMPTY = ("QString", "QByteArray", "QList", "QVector", "QHash", "QMap", "QStringList", "QSet", "QJsonObject",
                 "QJsonArray", "QMultiHash", "QMultiMap", "QQueue")
SCALARS = ("bool", "int", "unsigned int", "short", "unsigned short", "char", "long", "unsigned long", "quint16", "quint32", "qint64", "quint64", "double", "float")
NORETURN = ("exit", "_exit", "_Exit", "quick_exit", "abort", "std::exit", "std::abort", "std::terminate")
STRCONV = ("toUtf8", "fromUtf8", "constData", "data", "toStdString", "c_str")
RAWPTR = ("constData", "data", "c_str")     # pointers to the bytes: the length is lost


def uncptr(t):
    return t[1] if t[0] == "cptr" else t


def cstr(t):
    """the string read from a pointer to its bytes: ends at the first zero byte"""
    return ("call", "cstr", t[1], ()) if t[0] == "cptr" else t


def sized(t, n):
    """the string read from a pointer and a length"""
    if t[0] != "cptr":
        return None
    while n[0] == "cast":
        n = n[2]
    if n == ("count", t[1]):
        return t[1]
    return ("call", "slice", t[1], (n,))
LOSSY = ("toLatin1", "toLocal8Bit", "fromLatin1", "fromLocal8Bit")


def lossy(short, t):
    """a conversion through an 8 bit character set: keeps constants (ASCII in this code), nothing else"""
    return t if t[0] == "c" else ("call", "QString::" + short, t, ())


def utf8(t):
    """bytes read as UTF-8 text: bytes that are no valid UTF-8 get lost"""
    return t if t[0] in ("c", "lst") or t == EMPTY else ("call", "QString::fromUtf8", t, ())


# ---- options of the command line (QCommandLineParser)
def option_names(t):
    while t[0] == "mut" and t[1].startswith("QCommandLineOption"):
        t = t[2]
    if t[0] == "c" and isinstance(t[1], str):
        return [t[1]]
    if t[0] == "ctorobj" and t[1] == "QCommandLineOption" and t[2]:
        return term_strings(t[2][0])
    return []


def term_strings(n):
    if n[0] == "c":
        return [n[1]]
    if n[0] == "app":
        return term_strings(n[1]) + term_strings(n[2])
    if n[0] == "lst":
        return [q[1] for q in n[1] if q[0] == "c"]
    if n[0] == "cat":
        return [s for q in n[1:] for s in term_strings(q)]
    return []


def option_name(parser, opt):
    """the (longest) name of the option of the parser that is asked for; only options declared before the arguments were processed exist"""
    known, done = {}, False
    while parser[0] == "mut":
        if parser[1] == "QCommandLineParser::process":
            done = True
        if done and parser[1] in ("QCommandLineParser::addOption", "QCommandLineParser::addOptions") and parser[3]:
            o = parser[3][0]
            for q in o[1] if o[0] == "lst" else (o,):
                ns = option_names(q)
                for x in ns:
                    known[x] = max(ns, key=len)
        parser = parser[2]
    ns = option_names(opt)
    c = {known[x] for x in ns if x in known}
    return c.pop() if len(c) == 1 else "undeclared option " + "/".join(ns)


class Interp:
    def __init__(self, prog, monitor=None, opaque=(), inline_filter=None, log_args=False, havoc_signals=False):
        self.p = prog
        self.m = monitor or Monitor()
        self.opaque = set(opaque)
        self.inline_filter = inline_filter
        self.log_args = log_args
        self.visited = set()
        self.nstates = 0
        self.ncalls = 0
        self.emit_inline = {}
        self.consts = {}
        self.stack = []
        self.outcomes = None

    # =================================================================== entry
    def run(self, fn, this=("this",), args=None, st=None, ctx=(), caps=None):
        """analyse fn as an entry; returns list of (state, retval) for all exits"""
        st = st or State()
        if args is None:
            args = [("p", i, p["n"], p["t"]) for i, p in enumerate(fn["params"])]
        args = [("val", a) for a in args]
        return self.invoke(st, fn, this, args, None, Frame(0, fn, this, ctx, ()), entry=True, caps=caps)

    # =================================================================== state utils
    def dedupe(self, outs):
        """outs: list of (kind, st, val)"""
        if len(outs) <= 1:
            return outs
        seen = {}
        res = []
        for o in outs:
            k = (o[0], o[2], o[1].key())
            if k in seen:
                continue
            seen[k] = True
            res.append(o)
        self.nstates += len(res)
        if len(res) > MAXSTATES:
            res = self.join(res)
        return res

    def join(self, outs):
        """over budget: merge states with equal automaton state and equal return value (drop differing facts)"""
        groups = {}
        for kind, st, val in outs:
            k = (kind, val, frozenset(st.ghost.items()))
            groups.setdefault(k, []).append(st)
        res = []
        for (kind, val, _), sts in groups.items():
            a = sts[0].copy()
            for b in sts[1:]:
                a.facts = {x: v for x, v in a.facts.items() if b.facts.get(x) == v}
                for d, e in ((a.env, b.env), (a.heap, b.heap)):
                    for c in list(d):
                        if e.get(c) != d[c]:
                            d[c] = ("phi", "join", c)
                    for c in e:
                        if c not in d:
                            d[c] = ("phi", "join", c)
            res.append((kind, a, val))
        if len(res) > MAXSTATES:
            raise AnalysisError("state explosion in %s" % (self.stack[-1] if self.stack else "?"))
        return res

    MERGE = 6

    def merge(self, outs, tag):
        """states agreeing on every cell, the automaton and the value are merged (facts intersected)"""
        if len(outs) <= self.MERGE:
            return outs
        groups = {}
        for o in outs:
            st = o[1]
            k = (o[0], o[2], frozenset(st.env.items()), frozenset(st.heap.items()), frozenset(st.ghost.items()))
            groups.setdefault(k, []).append(o)
        if len(groups) == len(outs):
            return outs
        res = []
        for k, os in groups.items():
            if len(os) == 1:
                res.append(os[0])
                continue
            a = os[0][1].copy()
            for o in os[1:]:
                b = o[1]
                a.facts = {x: v for x, v in a.facts.items() if b.facts.get(x) == v}
                for c in set(a.ver) | set(b.ver):
                    if a.ver.get(c) != b.ver.get(c):
                        a.ver[c] = ("vjoin", tag)
            res.append((os[0][0], a, os[0][2]))
        return res

    # =================================================================== conditions
    def norm(self, t, st):
        """boolean term -> (atom, polarity) or ('c', bool)"""
        pol = True
        while True:
            k = t[0]
            if k == "not":
                t = t[1]
                pol = not pol
                continue
            if k == "c":
                return (C(bool(t[1]) == pol), True)
            if k == "tobool":
                t = ("not", self.mk_eq(t[1], NULL)) if not (len(t) > 2 and t[2]) else ("not", self.mk_eq(t[1], C(0)))
                continue
            if k == "eq" and t[1][0] == "c" and (t[1][1] is True or t[1][1] is False):
                pol = pol if t[1][1] else not pol
                t = t[2]
                continue
            if k == "lt":
                a, b = t[1], t[2]
                if a == C(0) and b[0] == "count":
                    t = ("not", self.mk_eq(b, C(0)))
                    continue
                if b == C(1) and a[0] == "count":
                    t = self.mk_eq(a, C(0))
                    continue
                if is_c(a) and is_c(b):
                    return (C((a[1] < b[1]) == pol), True)
                if a[0] == "icast0":
                    t = ("lt", a[1], b)
            if k == "isnull" or k == "eq":
                pass
            return (t, pol)

    def mk_eq(self, a, b):
        if a == b and not (a[0] == "undef"):
            return TRUE
        if is_c(a) and is_c(b):
            return C(a[1] == b[1])
        nn = ("new", "this", "addr", "lam", "fn")
        if (a[0] in nn and b == NULL) or (b[0] in nn and a == NULL):
            return FALSE
        if a[0] == "new" and b[0] == "new":
            return FALSE
        # count() == 0 forms
        if is_c(b) and not is_c(a):
            a, b = b, a
        if b[0] == "count" and b[1][0] in ("keys", "values"):
            b = ("count", b[1][1])
        if a == C(0) and b[0] == "has01":
            return ("not", b[1])
        if a == C(0) and b == ("count", EMPTY):
            return TRUE
        if a == C(0) and b[0] == "count" and b[1][0] in ("app", "ins"):
            return FALSE
        if a == C(0) and b[0] == "count" and b[1][0] in ("lst", "ctorobj"):
            l = b[1]
            if l[0] == "ctorobj" and l[1].startswith(("std::vector", "std::list", "std::array", "QVector", "QList")):
                l = l[2][0] if l[2] and l[2][0][0] == "lst" else ("lst", ()) if not l[2] else l
            if l[0] == "lst":
                return C(not l[1])
        if a == C(0) and b[0] == "count" and b[1][0] == "cat" and any(
                is_c(x) and isinstance(x[1], str) and len(x[1]) for x in b[1][1:]):
            return FALSE
        if not is_c(a) and repr(a) > repr(b):
            a, b = b, a
        return ("eq", a, b)

    def lookup(self, atom, st):
        """True/False/None"""
        if atom[0] == "c":
            return bool(atom[1])
        v = st.facts.get(atom)
        if v is not None:
            return v
        if atom[0] == "eq":
            a, b = atom[1], atom[2]
            if is_c(a):
                lo, hi, ne, eqv = self.bounds(b, st)
                if eqv is not None:
                    return eqv == a[1]
                if a[1] in ne:
                    return False
                if isinstance(a[1], (int, float)) and not isinstance(a[1], bool):
                    if lo is not None and a[1] < lo:
                        return False
                    if hi is not None and a[1] > hi:
                        return False
                if a[1] is None and b[0] == "elem" and b[1][0] != "keys":
                    return False        # nor do lists of objects
                if a[1] is None and b[0] == "get":
                    h = self.lookup(self.has(b[1], b[2]), st) if True else None
                    if h is not None:
                        return not h        # tables never hold null pointers
                if a == C(0) and b[0] == "count":
                    n = st.facts.get(("eq", C(True), ("call", "isNull", b[1], ())))
                    if n:
                        return True
        elif atom[0] == "lt":
            a, b = atom[1], atom[2]
            if is_c(b) and isinstance(b[1], (int, float)):
                lo, hi, ne, eqv = self.bounds(a, st)
                if eqv is not None and isinstance(eqv, (int, float)):
                    return eqv < b[1]
                if hi is not None and hi < b[1]:
                    return True
                if lo is not None and lo >= b[1]:
                    return False
            elif is_c(a) and isinstance(a[1], (int, float)):
                lo, hi, ne, eqv = self.bounds(b, st)
                if eqv is not None and isinstance(eqv, (int, float)):
                    return a[1] < eqv
                if lo is not None and lo > a[1]:
                    return True
                if hi is not None and hi <= a[1]:
                    return False
        elif atom[0] == "or" or atom[0] == "and":
            pass
        elif atom[0] == "call" and atom[1].endswith("isNull") and atom[2] is not None:
            if atom[2] == EMPTY or atom[2] == ("ctorobj", "QUuid", ()):
                return True
        elif atom[0] == "has":
            g = ("get", atom[1], atom[2])
            if st.facts.get(("eq", NULL, g)) is False:
                return True
            for cn in (("count", atom[1]),):
                if st.facts.get(("eq", C(0), cn)) is True:
                    return False
            if atom[2][0] == "elem" and atom[2][1] in (atom[1], ("keys", atom[1])):
                return True
        return None

    def bounds(self, t, st):
        lo = hi = eqv = None
        ne = set()
        if t[0] == "count":
            lo = 0
        if t[0] == "icast":
            bits, sgn = t[2], t[3]
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sgn else (0, (1 << bits) - 1)
        for a, v in st.facts.items():
            if a[0] == "eq" and a[2] == t and is_c(a[1]):
                if v:
                    eqv = a[1][1]
                else:
                    ne.add(a[1][1])
            elif a[0] == "lt":
                if a[1] == t and is_c(a[2]) and isinstance(a[2][1], (int, float)):
                    if v:
                        hi = a[2][1] - 1 if hi is None else min(hi, a[2][1] - 1)
                    else:
                        lo = a[2][1] if lo is None else max(lo, a[2][1])
                elif a[2] == t and is_c(a[1]) and isinstance(a[1][1], (int, float)):
                    if v:
                        lo = a[1][1] + 1 if lo is None else max(lo, a[1][1] + 1)
                    else:
                        hi = a[1][1] if hi is None else min(hi, a[1][1])
        if lo is not None and hi is not None and lo == hi and eqv is None:
            eqv = lo
        return lo, hi, ne, eqv

    def decide(self, t, st):
        if t[0] == "and":
            a, b = self.decide(t[1], st), self.decide(t[2], st)
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if t[0] == "or":
            a, b = self.decide(t[1], st), self.decide(t[2], st)
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if t[0] == "ite":
            c = self.decide(t[1], st)
            if c is not None:
                return self.decide(t[2] if c else t[3], st)
            return None
        atom, pol = self.norm(t, st)
        if atom[0] == "not":
            raise AssertionError
        if atom[0] in ("and", "or", "ite"):
            v = self.decide(atom, st)
        else:
            v = self.lookup(atom, st)
        if v is None:
            return None
        return v == pol

    def assume(self, t, st, want, fr=None, node=None):
        """list of states refined with t == want (0 or more)"""
        if t[0] == "not":
            return self.assume(t[1], st, not want, fr, node)
        if t[0] == "and":
            if want:
                r = []
                for s in self.assume(t[1], st, True, fr, node):
                    r += self.assume(t[2], s, True, fr, node)
                return r
            r = self.assume(t[1], st, False, fr, node)
            for s in self.assume(t[1], st, True, fr, node):
                r += self.assume(t[2], s, False, fr, node)
            return r
        if t[0] == "or":
            return self.assume(("and", ("not", t[1]), ("not", t[2])), st, not want, fr, node)
        if t[0] == "ite":
            r = []
            for s in self.assume(t[1], st, True, fr, node):
                r += self.assume(t[2], s, want, fr, node)
            for s in self.assume(t[1], st, False, fr, node):
                r += self.assume(t[3], s, want, fr, node)
            return r
        atom, pol = self.norm(t, st)
        if atom[0] in ("and", "or", "ite"):
            return self.assume(atom, st, want == pol, fr, node)
        v = self.lookup(atom, st)
        val = (want == pol)
        if v is not None:
            return [st] if v == val else []
        s = st.copy()
        s.facts[atom] = val
        # derived facts
        if atom[0] == "eq" and atom[1] == NULL and atom[2][0] == "get":
            h = ("has", atom[2][1], atom[2][2])
            if h not in s.facts:
                s.facts[h] = not val
        elif atom[0] == "has" and not val:
            pass
        self.m.branch(s, atom, val, fr, node)
        return [s]

    # =================================================================== containers
    def has(self, X, k):
        while True:
            if X[0] == "ins":
                if X[2] == k:
                    return TRUE
                if is_c(X[2]) and is_c(k):
                    X = X[1]
                    continue
            elif X[0] == "rem":
                if X[2] == k:
                    return FALSE
                if is_c(X[2]) and is_c(k):
                    X = X[1]
                    continue
            elif X[0] == "app":
                if X[2] == k:
                    return TRUE
            elif X == EMPTY:
                return FALSE
            return ("has", X, k)

    def get(self, X, k, default=None):
        while True:
            if X[0] == "ins":
                if X[2] == k:
                    return X[3]
                if is_c(X[2]) and is_c(k):
                    X = X[1]
                    continue
            elif X[0] == "rem":
                if is_c(X[2]) and is_c(k) and X[2] != k:
                    X = X[1]
                    continue
                if X[2] == k:
                    return default if default is not None else NULL
            elif X == EMPTY:
                return default if default is not None else NULL
            elif X[0] == "lst" and is_c(k) and isinstance(k[1], int) and 0 <= k[1] < len(X[1]):
                return X[1][k[1]]
            if k[0] == "idx" and k[1] == X:
                return ("elem", X, k[2])
            if k[0] == "idx" and X[0] in ("keys", "values") and k[1] == X[1]:
                return ("elem", X if X[0] == "keys" else X[1], k[2])
            if k[0] == "elem" and k[1] == ("keys", X):
                return ("elem", X, k[2])
            return ("get", X, k)

    def cat(self, *parts):
        r = []
        for p in parts:
            if p == EMPTY or p == C(""):
                continue
            if p[0] == "cat":
                r.extend(p[1:])
            else:
                r.append(p)
        # merge consecutive string constants
        out = []
        for p in r:
            if out and is_c(p) and is_c(out[-1]) and isinstance(p[1], str) and isinstance(out[-1][1], str):
                out[-1] = C(out[-1][1] + p[1])
            else:
                out.append(p)
        if not out:
            return EMPTY
        if len(out) == 1:
            return out[0]
        return ("cat",) + tuple(out)

    # =================================================================== locations
    def load(self, st, loc):
        k = loc[0]
        if k == "v":
            v = st.env.get(loc)
            if v is None:
                return ("undef", loc[2])
            if v[0] == "ref":
                return self.load(st, v[1])
            return self.assemble(st, loc, v)
        if k == "fl":
            v = st.heap.get(loc)
            if v is None:
                v = self.fieldof(("deref", loc[1]), loc[2]) if False else ("f", loc[1], loc[2])
            return self.assemble(st, loc, v)
        if k == "sf":
            v = st.heap.get(loc)
            if v is not None:
                return self.assemble(st, loc, v)
            return self.fieldof(self.load(st, loc[1]), loc[2])
        if k == "g":
            v = st.heap.get(loc)
            return v if v is not None else ("g", loc[1])
        if k == "ix":
            return self.get(self.load(st, loc[1]), loc[2])
        if k == "tmp":
            return loc[1]
        if k == "deref":
            v = st.heap.get(loc)
            return v if v is not None else ("deref", loc[1])
        raise AnalysisError("load %r" % (loc,))

    def assemble(self, st, loc, v):
        subs = None
        for c, x in st.heap.items():
            if c[0] == "sf" and c[1] == loc:
                subs = subs or {}
                subs[c[2]] = self.load(st, c)
        if subs:
            if v[0] == "with":
                d = dict(v[2])
                d.update(subs)
                return ("with", v[1], tuple(sorted(d.items())))
            return ("with", v, tuple(sorted(subs.items())))
        return v

    def fieldof(self, v, f):
        if v[0] in ("with", "obj"):
            for n, x in v[2]:
                if n == f:
                    return x
            if v[0] == "with":
                return self.fieldof(v[1], f)
        if v[0] == "ite":
            return ("ite", v[1], self.fieldof(v[2], f), self.fieldof(v[3], f))
        if v[0] == "pair":
            if f.endswith("::first"):
                return v[1]
            if f.endswith("::second"):
                return v[2]
        if v[0] == "addr":
            return ("f", v, f)
        return ("f", v, f)

    def resolve(self, st, loc):
        while loc[0] == "v":
            v = st.env.get(loc)
            if v is not None and v[0] == "ref":
                loc = v[1]
                continue
            break
        return loc

    def store(self, st, loc, val, fr=None, node=None):
        loc = self.resolve(st, loc)
        k = loc[0]
        self.m.write(st, loc, val, fr, node)
        if k == "v":
            self.clear_sub(st, loc)
            st.env[loc] = val
        elif k in ("fl", "sf", "g", "deref"):
            self.clear_sub(st, loc)
            st.heap[loc] = val
        elif k == "ix":
            self.store(st, loc[1], ("ins", self.load(st, loc[1]), loc[2], val), fr, node)
        elif k == "tmp":
            pass
        else:
            raise AnalysisError("store %r" % (loc,))

    def clear_sub(self, st, loc):
        dead = [c for c in st.heap if c[0] == "sf" and c[1] == loc]
        for c in dead:
            del st.heap[c]
            self.clear_sub(st, c)

    def ptr_loc(self, st, ptr, field):
        """location of ptr->field"""
        if ptr[0] == "addr":
            return ("sf", ptr[1], field)
        return ("fl", ptr, field)

    # =================================================================== statements
    def block(self, stmts, st, fr):
        live = [("n", st, None)]
        done = []
        for s in stmts:
            nxt = []
            for kind, x, v in live:
                nxt += self.exec(s, x, fr)
            live = []
            for o in nxt:
                (live if o[0] == "n" else done).append(o)
            live = self.dedupe(live)
            if not live:
                break
        return self.dedupe(live + done)

    def exec(self, s, st, fr):
        if s is None:
            return [("n", st, None)]
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%s" % (s.get("cls", k), fr.fn["file"], s.get("l")))
        return m(s, st, fr)

    def x_block(self, s, st, fr):
        return self.block(s["b"], st, fr)

    def x_null(self, s, st, fr):
        return [("n", st, None)]

    def logchain(self, e):
        """(category function or None, [operands], level) of a logging statement, None for other expressions"""
        ops = []
        while isinstance(e, dict) and e.get("k") == "call":
            n = e.get("n", "")
            if n.startswith("QMessageLogger::"):
                ops += e.get("args") or []
                cat = None
                todo = [e]
                while todo:
                    q = todo.pop()
                    if isinstance(q, dict):
                        if q.get("k") == "call" and q.get("t", "").replace("const ", "").strip("& ") == "QLoggingCategory" and not q.get("obj"):
                            cat = q.get("f")
                        todo += list(q.values())
                    elif isinstance(q, list):
                        todo += q
                return cat, ops, n.rsplit("::", 1)[-1]
            if n.endswith("operator<<") and e.get("obj"):
                ops += e.get("args") or []
                e = e["obj"]
            elif n.endswith("operator<<") and len(e.get("args") or []) == 2:
                ops.append(e["args"][1])
                e = e["args"][0]
            elif e.get("obj"):
                e = e["obj"]
            else:
                return None
            while isinstance(e, dict) and e.get("k") != "call" and (e.get("e") or e.get("k") == "ctor" and e.get("args")):
                e = e["args"][0] if e["k"] == "ctor" and e.get("args") else e.get("e")
        return None

    def logged(self, s, st, fr):
        hook = getattr(self.m, "logged", None)
        if hook is None or not s.get("e"):
            return
        c = self.logchain(s["e"])
        if c is None:
            return
        vals = []
        for o in c[1]:
            vals += [(v, x, o) for x, v in self.ev(o, st.copy(), fr)]
        hook(st, c[0], c[2], vals, fr, s)

    def x_expr(self, s, st, fr):
        self.logged(s, st, fr)
        return self.dedupe([("n", x, None) for x, v in self.ev(s["e"], st, fr)])

    def x_log(self, s, st, fr):
        self.logged(s, st, fr)
        if self.log_args and s.get("e"):
            r = []
            for x, v in self.ev(s["e"], st, fr):
                r.append(("n", x, None))
            return self.dedupe(r)
        return [("n", st, None)]

    def x_decl(self, s, st, fr):
        states = [st]
        for d in s["d"]:
            nxt = []
            loc = ("v", fr.no, d["id"])
            for x in states:
                if d.get("static"):
                    x.env[loc] = ("ref", ("g", fr.fn["n"] + "::" + d["n"]))
                    nxt.append(x)
                    continue
                if d["init"] is None:
                    x = x.copy()
                    self.clear_sub(x, loc)
                    x.env[loc] = ("undef", d["n"])
                    nxt.append(x)
                    continue
                if d["ref"]:
                    for y, l in self.lv(d["init"], x, fr):
                        y = y.copy()
                        if l[0] == "tmp":
                            y.env[loc] = l[1]
                        else:
                            y.env[loc] = ("ref", l)
                        nxt.append(y)
                    continue
                for y, v in self.ev(d["init"], x, fr):
                    y = y.copy()
                    self.clear_sub(y, loc)
                    # strip object-with-cells
                    y.env[loc] = v
                    self.m.write(y, loc, v, fr, d)
                    nxt.append(y)
            states = nxt
        return self.dedupe([("n", x, None) for x in states])

    def cond_states(self, c, st, fr):
        """evaluate condition expr; returns (true states, false states)"""
        T, F = [], []
        for x, v in self.ev_cond(c, st, fr):
            d = self.decide(v, x)
            if d is True:
                T.append(x)
            elif d is False:
                F.append(x)
            else:
                T += self.assume(v, x, True, fr, c)
                F += self.assume(v, x, False, fr, c)
        return T, F

    def ev_cond(self, c, st, fr):
        """like ev but short circuit operators fork states"""
        if c["k"] == "bin" and c["op"] in ("&&", "||"):
            T, F = self.cond_states(c["a"], st, fr)
            r = []
            if c["op"] == "&&":
                r += [(x, FALSE) for x in F]
                for x in T:
                    r += self.ev_cond(c["b"], x, fr)
            else:
                r += [(x, TRUE) for x in T]
                for x in F:
                    r += self.ev_cond(c["b"], x, fr)
            return r
        if c["k"] == "un" and c["op"] == "!":
            return [(x, self.mk_not(v)) for x, v in self.ev_cond(c["e"], st, fr)]
        return self.ev(c, st, fr)

    def mk_not(self, v):
        if v[0] == "not":
            return v[1]
        if is_c(v):
            return C(not v[1])
        return ("not", v)

    def x_if(self, s, st, fr):
        outs = []
        pre = [("n", st, None)]
        if s.get("init"):
            pre = self.exec(s["init"], st, fr)
        if s.get("cv"):
            p2 = []
            for k, x, v in pre:
                p2 += self.exec(s["cv"], x, fr)
            pre = p2
        for k, x, v in pre:
            T, F = self.cond_states(s["c"], x, fr)
            for t in self.ded_states(T):
                outs += self.exec(s["t"], t, fr)
            for t in self.ded_states(F):
                outs += self.exec(s["f"], t, fr)
        return self.dedupe(outs)

    def ded_states(self, sts):
        return [o[1] for o in self.dedupe([("n", x, None) for x in sts])]

    def x_return(self, s, st, fr):
        if s["e"] is None:
            return [("r", st, VOID)]
        return self.dedupe([("r", x, v) for x, v in self.ev(s["e"], st, fr)])

    def x_break(self, s, st, fr):
        return [("b", st, None)]

    def x_continue(self, s, st, fr):
        return [("k", st, None)]

    def x_try(self, s, st, fr):
        return self.exec(s["b"], st, fr)

    def x_case(self, s, st, fr):
        return self.exec(s["s"], st, fr)

    def x_default(self, s, st, fr):
        return self.exec(s["s"], st, fr)

    # ---- switch
    def x_switch(self, s, st, fr):
        items = []   # (labels, stmt); labels list of expr or 'default'
        body = s["b"]
        stmts = body["b"] if body and body["k"] == "block" else [body]
        for b in stmts:
            labels = []
            while b is not None and b["k"] in ("case", "default"):
                labels.append(b["v"] if b["k"] == "case" else "default")
                b = b["s"]
            items.append((labels, b))
        outs = []
        for x, v in self.ev(s["c"], st, fr):
            consts = []
            for labels, b in items:
                for l in labels:
                    if l != "default":
                        consts.append(self.ev(l, x, fr)[0][1])
            # states for default / no match
            rest = [x]
            for cst in consts:
                n = []
                for y in rest:
                    n += self.assume(self.mk_eq(v, cst), y, False, fr, s)
                rest = n
            if rest:
                en = self.p.enums.get(s.get("ty", ""))
                if en and all(any(is_c(c) and c[1] == e["v"] for c in consts) for e in en["v"]):
                    rest = []
            hasdef = False
            for i, (labels, b) in enumerate(items):
                if not labels:
                    continue
                ent = []
                for l in labels:
                    if l == "default":
                        hasdef = True
                        ent += rest
                    else:
                        ent += self.assume(self.mk_eq(v, self.ev(l, x, fr)[0][1]), x, True, fr, s)
                for y in self.ded_states(ent):
                    res = self.block([b2 for _, b2 in items[i:]], y, fr)
                    for kind, z, val in res:
                        outs.append(("n", z, None) if kind == "b" else (kind, z, val))
            if not hasdef:
                outs += [("n", y, None) for y in rest]
        return self.dedupe(outs)

    # ---- loops
    def loop_id(self, s, fr):
        return ("L", fr.fn["f"], s["l"], fr.ctx)

    def mentions_loop(self, t, lid):
        return any(x == lid for x in subterms(t))

    def widen(self, base, st, lid, keep=(), W=None):
        n = st.copy()
        W = set() if W is None else W
        for d, b in ((n.env, base.env), (n.heap, base.heap)):
            for c, v in list(d.items()):
                if c in keep:
                    continue
                bv = b.get(c)
                if getattr(self.m, "keep_consts", False) and is_c(v) and c not in W and (v[1] is None or isinstance(v[1], (bool, int))):
                    ks = self.consts.setdefault((lid, c), [])
                    if not any(k is v[1] or k == v[1] for k in ks):
                        ks.append(v[1])
                    if len(ks) <= 3:
                        continue
                if bv != v or c in W:
                    if bv is None and c[0] == "v":
                        # local declared inside the loop body: dead at the loop head
                        del d[c]
                        continue
                    W.add(c)
                    d[c] = ("phi", lid, c)
        n.facts = {a: v for a, v in n.facts.items() if not self.mentions_loop(a, lid)}
        n.ver = {a: v for a, v in n.ver.items() if not self.mentions_loop(a, lid)}
        for g in [g for g in n.ghost if isinstance(g, tuple) and g and g[0] == "mark" and self.mentions_loop(g, lid)]:
            del n.ghost[g]
        return n

    def run_loop(self, lid, init, fr, head, body, step, R=None, keep=()):
        """generic fixpoint.  head(st)->(T,F); body(st)->outcomes; step(st)->[st]"""
        lfr = Frame(fr.no, fr.fn, fr.this, fr.ctx, fr.loops + (lid,))
        outs = []
        exits = []
        seen = set()
        frontier = list(init)
        bodyouts = []
        zero = []
        eof = []
        it = 0
        W = set()
        lx = getattr(self.m, "loop_exit", None)
        ls = getattr(self.m, "loop_step", None)
        while frontier:
            nxt = []
            for st in frontier:
                T, F = head(st, lfr)
                if it == 0:
                    zero += F
                else:
                    exits += F
                    eof += F
                for x in F:
                    if lx:
                        lx(self, lid, x, "zero" if it == 0 else "eof")
                for t in self.ded_states(T):
                    res = body(t, lfr)
                    self.m.loop_iter(self, (lid, R, fr, it), t, res)
                    bodyouts += res
                    for kind, x, v in res:
                        if kind in ("n", "k"):
                            for y in step(x, lfr):
                                if ls:
                                    ls(lid, y)
                                w = self.widen(st, y, lid, keep, W)
                                kk = w.key()
                                if kk not in seen:
                                    seen.add(kk)
                                    nxt.append(w)
                        elif kind == "b":
                            if lx:
                                lx(self, lid, x, "break")
                            exits.append(x)
                        else:
                            outs.append((kind, x, v))
            frontier = [o[1] for o in self.merge([("n", x, None) for x in self.ded_states(nxt)], lid)]
            it += 1
            if it > 40:
                raise AnalysisError("loop fixpoint does not converge in %s:%s" % (fr.fn["file"], lid[2]))
        # universally quantified marks
        foralls = set()
        if R is not None and bodyouts and all(o[0] in ("n", "k") for o in bodyouts):
            marks = None
            for o in bodyouts:
                ms = {g[2] for g in o[1].ghost if isinstance(g, tuple) and g and g[0] == "mark" and g[1][0] == "elem"
                      and g[1][2] == lid}
                marks = ms if marks is None else marks & ms
            foralls = {("forall", R, w) for w in (marks or ())}
        if R is not None and R[0] != "takeq":
            self.absent(R, lid, bodyouts, zero + eof)
        for x in zero + exits:
            for f in foralls:
                x.ghost[f] = 1
            for g in [g for g in x.ghost if isinstance(g, tuple) and g and g[0] == "mark" and self.mentions_loop(g, lid)]:
                del x.ghost[g]
            outs.append(("n", x, None))
        return self.merge(self.dedupe(outs), lid)

    def absent(self, R, lid, bodyouts, ends):
        """a search loop that went through all elements without a match: what was searched is not in there"""
        T = R[1] if R[0] in ("keys", "values") else R
        e = ("elem", R, lid)
        common = None
        for kind, x, _ in bodyouts:
            if kind not in ("n", "k"):
                continue
            no = set()
            for a, v in x.facts.items():
                if v or a[0] != "eq":
                    continue
                for l, r in ((a[1], a[2]), (a[2], a[1])):
                    if self.mentions_loop(r, lid):
                        continue
                    if l == e:
                        no.add(("has", R, r))
                        no.add(("has", T, r) if R[0] == "keys" else ("has", R, r))
                    elif l == ("elem", T, lid) and R[0] == "keys":
                        no.add(("has", ("values", T), r))
            common = no if common is None else common & no
        for x in ends:
            for a in common or ():
                x.facts[a] = False

    def strip_values(self, R):
        while R[0] in ("values",):
            R = R[1]
        return R

    def x_rfor(self, s, st, fr):
        outs = []
        lid = self.loop_id(s, fr)
        loc = ("v", fr.no, s["v"]["id"])
        for x0, R in self.ev(s["r"], st, fr):
            R = self.strip_values(R)
            if R[0] == "lst":
                # literal list: unroll
                live = [("n", x0, None)]
                brk = []
                for e in R[1]:
                    nx = []
                    for k, x, v in live:
                        y = x.copy()
                        y.env[loc] = e
                        for o in self.exec(s["b"], y, fr):
                            if o[0] in ("n", "k"):
                                nx.append(("n", o[1], None))
                            elif o[0] == "b":
                                brk.append(("n", o[1], None))
                            else:
                                outs.append(o)
                    live = self.dedupe(nx)
                outs += live + brk
                continue
            if R == EMPTY:
                outs.append(("n", x0, None))
                continue
            elem = ("elem", R, lid)
            isref = s["v"].get("ref")
            first = [True]

            def head(x, lfr, R=R):
                d = self.decide(self.mk_eq(("count", R), C(0)), x)
                T, F = [], []
                if not getattr(x, "_dummy", False):
                    pass
                # zero iterations only on first visit
                if x.ghost.get(("in", lid)):
                    y = x.copy()
                    del y.ghost[("in", lid)]
                    F.append(y)
                    T.append(x.copy())
                else:
                    if d is not False:
                        F += self.assume(self.mk_eq(("count", R), C(0)), x, True)
                    if d is not True:
                        T += self.assume(self.mk_eq(("count", R), C(0)), x, False)
                return T, F

            def body(x, lfr, elem=elem):
                y = x.copy()
                y.ghost.pop(("in", lid), None)
                y.env[loc] = elem
                return self.exec(s["b"], y, lfr)

            def step(x, lfr):
                y = x.copy()
                y.env.pop(loc, None)
                y.ghost[("in", lid)] = 1
                return [y]
            res = self.run_loop(lid, [x0], fr, head, body, step, R)
            for kind, x, v in res:
                if ("in", lid) in x.ghost:
                    x = x.copy()
                    del x.ghost[("in", lid)]
                x.env.pop(loc, None)
                outs.append((kind, x, v))
        return self.dedupe(outs)

    def x_while(self, s, st, fr):
        lid = self.loop_id(s, fr)
        # while (!X.isEmpty()) { e = X.takeFirst(); ... }
        R = self.take_loop(s, st, fr)
        if R is None:
            f = self.while_as_for(s) or self.while_postinc(s)
            if f and self.counted(self.split_counted(f), st, fr):
                return self.x_for(f, st, fr)
            j = self.java_loop(s, st, fr)
            if j:
                return self.counted_loop(j[0], st, fr, lid, j[1], j[2], "it")

        def head(x, lfr):
            pre = [("n", x, None)]
            if s.get("cv"):
                pre = self.exec(s["cv"], x, lfr)
            T, F = [], []
            for _, y, _ in pre:
                a, b = self.cond_states(s["c"], y, lfr)
                T += a
                F += b
            return T, F

        def body(x, lfr):
            return self.exec(s["b"], x, lfr)
        if R is not None:
            return self.run_take_loop(s, st, fr, lid, R, head, body)
        return self.run_loop(lid, [st], fr, head, body, lambda x, l: [x])

    def take_loop(self, s, st, fr):
        """recognise while(!X.isEmpty()) consuming loops on a local container; returns (loc, term)"""
        c = s["c"]
        neg = False
        while c["k"] == "un" and c["op"] == "!":
            c = c["e"]
            neg = not neg
        if c["k"] == "tobool":
            c = c["e"]
        obj = None
        if c["k"] == "call" and c["n"].rsplit("::", 1)[-1] in ("isEmpty", "empty") and neg:
            obj = c.get("obj")
        elif c["k"] == "bin" and c["op"] in (">", "!="):
            a = c["a"]
            if a["k"] == "call" and a["n"].rsplit("::", 1)[-1] in ("count", "size", "length"):
                obj = a.get("obj")
        if obj is None:
            return None
        takes = [n for n in walk(s["b"]) if n.get("k") == "call" and n["n"].rsplit("::", 1)[-1] in
                 ("takeFirst", "takeLast", "takeAt", "dequeue", "pop", "removeFirst", "removeLast", "pop_front", "pop_back")
                 and n.get("obj") and self.same_lv(n["obj"], obj)]
        if len(takes) != 1:
            return None
        r = self.lv(obj, st, fr)
        if len(r) != 1:
            return None
        loc = self.resolve(r[0][0], r[0][1])
        return (loc, self.strip_values(self.load(st, loc)))

    def same_lv(self, a, b):
        if a.get("k") != b.get("k"):
            return False
        if a["k"] == "var":
            return a["id"] == b["id"]
        if a["k"] == "mem":
            return a["f"] == b["f"] and self.same_lv(a["b"], b["b"])
        return a["k"] == "this"

    def run_take_loop(self, s, st, fr, lid, R, head, body):
        loc, term = R
        x0 = st.copy()

        def head2(x, lfr):
            y = x.copy()
            self.store(y, loc, ("takeq", term, lid))
            T, F = [], []
            if x.ghost.get(("in", lid)):
                F.append(y.copy())
                del F[-1].ghost[("in", lid)]
                self.store(F[-1], loc, EMPTY)
                T.append(y)
            else:
                e = self.mk_eq(("count", term), C(0))
                F += self.assume(e, x, True)
                T += self.assume(e, y, False)
            return T, F

        def body2(x, lfr):
            y = x.copy()
            y.ghost.pop(("in", lid), None)
            return body(y, lfr)

        def step(x, lfr):
            y = x.copy()
            y.ghost[("in", lid)] = 1
            return [y]
        res = self.run_loop(lid, [x0], fr, head2, body2, step, term, keep=(loc,))
        for k, x, v in res:
            x.ghost.pop(("in", lid), None)
        return res

    def x_do(self, s, st, fr):
        lid = self.loop_id(s, fr)

        def head(x, lfr):
            if not x.ghost.get(("in", lid)):
                return [x.copy()], []
            T, F = self.cond_states(s["c"], x, lfr)
            return T, F

        def body(x, lfr):
            y = x.copy()
            y.ghost.pop(("in", lid), None)
            return self.exec(s["b"], y, lfr)

        def step(x, lfr):
            y = x.copy()
            y.ghost[("in", lid)] = 1
            return [y]
        res = self.run_loop(lid, [st], fr, head, body, step)
        for k, x, v in res:
            x.ghost.pop(("in", lid), None)
        return res

    def x_for(self, s, st, fr):
        lid = self.loop_id(s, fr)
        pre = self.exec(s["init"], st, fr) if s["init"] else [("n", st, None)]
        outs = []
        s = self.split_counted(s)
        for k0, x0, _ in pre:
            info = self.counted(s, x0, fr)
            if info:
                loc, R, ityp = info
                outs += self.counted_loop(s, x0, fr, lid, loc, R, ityp)
                continue

            lo = self.const_range(s, x0, fr)

            def head(x, lfr, lo=lo):
                if lo:
                    v = x.env.get(lo[0])
                    if v and v[0] == "phi":
                        x = x.copy()
                        x.facts[("lt", v, C(lo[1]))] = False
                if s["c"] is None:
                    return [x], []
                return self.cond_states(s["c"], x, lfr)

            def body(x, lfr):
                return self.exec(s["b"], x, lfr)

            def step(x, lfr):
                if s["inc"] is None:
                    return [x]
                return [y for y, v in self.ev(s["inc"], x, lfr)]
            outs += self.run_loop(lid, [x0], fr, head, body, step)
        return self.dedupe(outs)

    def incvar(self, inc):
        """the local variable v of an increment ++v, v++, v += 1"""
        v = None
        if inc["k"] == "un" and inc["op"] == "++":
            v = inc["e"]
        elif inc["k"] == "bin" and inc["op"] == "+=" and inc["b"].get("v") == 1:
            v = inc["a"]
        elif inc["k"] == "call" and inc.get("op") == "++":
            v = inc.get("obj") or inc["args"][0]
        if v and v.get("k") == "var" and v.get("vk") not in ("global", "slocal"):
            return v
        return None

    def while_as_for(self, s):
        """i = 0; while (i < n) { ...; ++i; } without continue: a counted loop"""
        b = s["b"]
        if s.get("cv") or b["k"] != "block" or not b["b"]:
            return None
        last = b["b"][-1]
        inc = last["e"] if last["k"] == "expr" else last
        if not inc or inc.get("k") not in ("un", "bin", "call") or self.incvar(inc) is None:
            return None

        def cont(n, top=True):
            if isinstance(n, dict):
                if n.get("k") == "continue":
                    return True
                if not top and n.get("k") in ("while", "for", "rfor", "do"):
                    return False
                return any(cont(x, False) for x in n.values())
            if isinstance(n, list):
                return any(cont(x, False) for x in n)
            return False
        if cont(b):
            return None
        return dict(s, k="for", init=None, inc=inc, b=dict(b, b=b["b"][:-1]))

    def while_postinc(self, s):
        """while (i < n) { x = list.at(i++); ... } with no other use of i in the body"""
        b = s["b"]
        if s.get("cv") or b["k"] != "block" or not b["b"]:
            return None
        incs = [n for n in walk(b["b"][0]) if n.get("k") == "un" and n.get("op") == "++" and n.get("post") and self.incvar(n)]
        if len(incs) != 1:
            return None
        v = self.incvar(incs[0])
        if len([n for n in walk(b) if n.get("k") == "var" and n.get("id") == v["id"]]) != 1:
            return None

        def repl(n):
            if n is incs[0]:
                return v
            if isinstance(n, dict):
                return {k: repl(x) for k, x in n.items()}
            if isinstance(n, list):
                return [repl(x) for x in n]
            return n
        return dict(s, k="for", init=None, inc=incs[0], b=repl(b))

    def java_loop(self, s, st, fr):
        """while (it.hasNext()) { ... it.next() ... } over a QListIterator, QHashIterator, ..."""
        b = s["b"]
        if s.get("cv"):
            return None
        cs = conjuncts(s["c"])
        hn = [c for c in cs if c.get("k") == "call" and c["n"].rsplit("::", 1)[-1] == "hasNext" and (c.get("obj") or {}).get("k") == "var"]
        if len(hn) != 1:
            return None
        v = hn[0]["obj"]
        if v.get("vk") in ("global", "slocal"):
            return None
        first = b["b"][0] if b["k"] == "block" and b["b"] else b
        isnext = lambda n: n.get("k") == "call" and (n.get("obj") or {}).get("k") == "var" and n["obj"]["id"] == v["id"] and \
            n["n"].rsplit("::", 1)[-1] in ("next", "previous", "toFront", "toBack", "remove", "findNext", "hasNext", "peekNext")
        uses = [n for n in walk(b) if isnext(n)]
        if len(uses) != 1 or uses[0]["n"].rsplit("::", 1)[-1] != "next" or not any(n is uses[0] for n in walk(first)):
            return None
        loc = ("v", fr.no, v["id"])
        cur = st.env.get(loc)
        if cur is None or cur[0] != "it" or cur[2] != "begin":
            return None
        chk = [{"k": "if", "l": s["l"], "c": e, "t": {"k": "null", "l": s["l"]}, "f": {"k": "break", "l": s["l"]}} for e in cs if e is not hn[0]]
        return dict(s, b={"k": "block", "l": s["l"], "b": chk + [b]}), loc, cur[1]

    def algorithm(self, e, name, st, vals, fr):
        """std::for_each / any_of / all_of / none_of / find_if over a whole container with a lambda"""
        if len(vals) != 3 or vals[0][0] != "it" or vals[0][2] != "begin" or vals[1] != ("it", vals[0][1], "end") or vals[2][0] != "lam":
            return None
        lam = vals[2]
        lf = self.p.fns.get(lam[1])
        if not lf:
            return None
        R = vals[0][1]
        lid = self.loop_id(e, fr)
        loc = ("v", ("algo", fr.no), (e["l"], fr.ctx) + fr.loops)
        endv = {"for_each": lam, "any_of": FALSE, "all_of": TRUE, "none_of": TRUE, "find_if": ("it", R, "end")}[name]
        if R == EMPTY:
            return [(st, endv)]
        elem = ("elem", R, lid)
        zero = self.mk_eq(("count", R), C(0))
        x0 = st.copy()
        x0.env[loc] = endv

        def head(x, lfr):
            if x.ghost.get(("in", lid)):
                y = x.copy()
                del y.ghost[("in", lid)]
                return [x.copy()], [y]
            return self.assume(zero, x, False), self.assume(zero, x, True)

        def body(x, lfr):
            y = x.copy()
            y.ghost.pop(("in", lid), None)
            outs = []
            for z, v in self.invoke(y, lf, lam[3], [("val", elem)], e, lfr, caps=lam[2]):
                if name == "for_each":
                    outs.append(("n", z, None))
                    continue
                stop = name != "all_of"
                for t in self.assume(v, z, stop):
                    t.env[loc] = {"any_of": TRUE, "all_of": FALSE, "none_of": FALSE, "find_if": ("itelem", R, lid)}[name]
                    outs.append(("b", t, None))
                for t in self.assume(v, z, not stop):
                    outs.append(("n", t, None))
            return outs

        def step(x, lfr):
            y = x.copy()
            y.ghost[("in", lid)] = 1
            return [y]
        res = []
        for kind, x, _ in self.run_loop(lid, [x0], fr, head, body, step, R, keep=(loc,)):
            x.ghost.pop(("in", lid), None)
            v = x.env.pop(loc, endv)
            res.append((x, v))
        return res

    def split_counted(self, s):
        """for (init; i < n && rest; inc) body   ==>   for (init; i < n; inc) { if (!rest) break; body }"""
        c = s["c"]
        inc = s["inc"]
        if not c or not inc:
            return s
        cs = conjuncts(c)
        v = self.incvar(inc)
        if len(cs) < 2 or v is None:
            return s
        vid = v["id"]

        def bound(e):
            if e["k"] == "bin" and e["op"] in ("<", "!=", ">"):
                ops = [strip(e["a"]), strip(e["b"])]
            elif e["k"] == "call" and e.get("op") == "!=":
                ops = [strip(x) for x in ([e["obj"]] if e.get("obj") else []) + e["args"]]
            else:
                return False
            return any(o and o.get("k") == "var" and o.get("id") == vid for o in ops)
        b = [e for e in cs if bound(e)]
        if len(b) != 1:
            return s
        rest = [e for e in cs if e is not b[0]]
        chk = [{"k": "if", "l": s["l"], "c": e, "t": {"k": "null", "l": s["l"]}, "f": {"k": "break", "l": s["l"]}} for e in rest]
        s = dict(s)
        s["c"] = b[0]
        s["b"] = {"k": "block", "l": s["l"], "b": chk + [s["b"]]}
        return s

    def const_range(self, s, st, fr):
        """for (T i = k; i < m; ++i) with constants in the range of T: i never gets below k; returns (loc, k)"""
        c, inc = s["c"], s["inc"]
        d = self.incvar(inc) if c and inc else None
        if d is None or c["k"] != "bin" or c["op"] not in ("<", "<="):
            return None
        vid = d["id"]
        loc = ("v", fr.no, vid)
        cur = st.env.get(loc)
        if cur is None or not is_c(cur) or type(cur[1]) is not int or cur[1] < 0:
            return None

        def isvar(e):
            return e and e.get("k") == "var" and e.get("id") == vid
        a = strip(c["a"])
        m = self.ev(c["b"], st.copy(), fr)
        if not isvar(a) or len(m) != 1 or not is_c(m[0][1]) or type(m[0][1][1]) is not int:
            return None
        top = {"unsigned char": 255, "signed char": 127, "char": 127, "short": 32767, "unsigned short": 65535, "int": 2 ** 31 - 1, "unsigned int": 2 ** 32 - 1}.get(d.get("t"), None)
        if top is None or m[0][1][1] + (c["op"] == "<=") > top:
            return None
        for n in walk(s["b"]):
            if n.get("k") == "un" and n.get("op") in ("++", "--", "&") and isvar(n["e"]):
                return None
            if n.get("k") == "bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and isvar(n["a"]):
                return None
            if n.get("k") == "lambda":
                return None
            if n.get("k") == "call" and any(isvar(x) for x in n.get("args", ()) if isinstance(x, dict)) and " &" in n.get("f", "") and not n.get("f", "").split("(", 1)[-1].count("const "):
                return None
        return loc, cur[1]

    def counted(self, s, st, fr):
        """for (i = 0; i < R.count(); ++i) / iterator loops over a whole container"""
        c, inc = s["c"], s["inc"]
        if not c or not inc:
            return None
        d = self.incvar(inc)
        if d is None:
            return None
        vid = d["id"]
        loc = ("v", fr.no, vid)
        cur = st.env.get(loc)
        if cur is None:
            return None

        def isvar(e):
            return e and e.get("k") == "var" and e.get("id") == vid
        # no other assignment of the counter in the body
        for n in walk(s["b"]):
            if n.get("k") == "un" and n.get("op") in ("++", "--") and isvar(n["e"]):
                return None
            if n.get("k") == "bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and isvar(n["a"]):
                return None
            if n.get("k") == "call" and n.get("op") in ("++", "--", "+=", "=") and isvar(n.get("obj")):
                return None
            if n.get("k") == "un" and n.get("op") == "&" and isvar(n["e"]):
                return None
        if cur == C(0):
            lim = None
            if c["k"] == "bin" and c["op"] in ("<", "!=") and isvar(strip(c["a"])):
                lim = c["b"]
            elif c["k"] == "bin" and c["op"] in (">", "!=") and isvar(strip(c["b"])):
                lim = c["a"]
            if lim is None:
                return None
            r = self.ev(lim, st.copy(), fr)
            if len(r) != 1:
                return None
            v = r[0][1]
            while v[0] == "icast" and v[2] >= 32:
                v = v[1]
            if v[0] == "count" and d.get("t") not in ("unsigned short", "short", "unsigned char", "signed char", "char", "bool"):
                return (loc, v[1], "idx")
            return None
        if cur[0] == "it" and cur[2] == "begin":
            e = None
            if c["k"] == "call" and c.get("op") == "!=":
                ops = ([c["obj"]] if c.get("obj") else []) + c["args"]
                o = [a for a in ops if not isvar(strip(a))]
                if len(o) == 1:
                    r = self.ev(o[0], st.copy(), fr)
                    if len(r) == 1 and r[0][1] == ("it", cur[1], "end"):
                        return (loc, cur[1], "it")
        return None

    def counted_loop(self, s, st, fr, lid, loc, R, ityp):
        R0 = R
        Rs = self.strip_values(R)
        if R == EMPTY:
            return [("n", st, None)]
        e = self.mk_eq(("count", Rs), C(0))

        def head(x, lfr):
            T, F = [], []
            if x.ghost.get(("in", lid)):
                y = x.copy()
                del y.ghost[("in", lid)]
                y.env[loc] = ("count", Rs) if ityp == "idx" else ("it", Rs, "end")
                F.append(y)
                T.append(x.copy())
            else:
                F += self.assume(e, x, True)
                T += self.assume(e, x, False)
            return T, F

        def body(x, lfr):
            y = x.copy()
            y.ghost.pop(("in", lid), None)
            y.env[loc] = ("idx", Rs, lid) if ityp == "idx" else ("itelem", Rs, lid)
            return self.exec(s["b"], y, lfr)

        def step(x, lfr):
            y = x.copy()
            y.ghost[("in", lid)] = 1
            return [y]
        res = self.run_loop(lid, [st], fr, head, body, step, Rs, keep=(loc,))
        for k, x, v in res:
            x.ghost.pop(("in", lid), None)
        return res

    # =================================================================== expressions
    def ev(self, e, st, fr):
        if e is None:
            return [(st, VOID)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s:%s" % (e["k"], fr.fn["file"], e.get("l")))
        return m(e, st, fr)

    def e_const(self, e, st, fr):
        return [(st, C(e["v"]))]

    def e_zero(self, e, st, fr):
        t = e["t"]
        if t.endswith("*"):
            return [(st, NULL)]
        if t == "bool":
            return [(st, FALSE)]
        if t in ("int", "unsigned int", "unsigned short", "short", "long", "unsigned long", "char", "unsigned char", "long long",
                 "unsigned long long"):
            return [(st, C(0))]
        if base(t) in DEFAULT_EMPTY:
            return [(st, EMPTY)]
        return [(st, ("obj", strip_ptr(t), ()))]

    def e_this(self, e, st, fr):
        return [(st, fr.this)]

    def e_fn(self, e, st, fr):
        return [(st, ("fn", e["f"]))]

    def e_copy(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_var(self, e, st, fr):
        return [(st, self.load(st, self.var_loc(e, fr)))]

    def var_loc(self, e, fr):
        if e.get("vk") == "global":
            return ("g", e["q"])
        if e.get("vk") == "slocal":
            return ("g", fr.fn["n"] + "::" + e["n"])
        return ("v", fr.no, e["id"])

    def e_mem(self, e, st, fr):
        return [(x, self.load(x, l)) for x, l in self.lv(e, st, fr)]

    def e_list(self, e, st, fr):
        states = [(st, ())]
        for a in e["a"]:
            nxt = []
            for x, vs in states:
                for y, v in self.ev(a, x, fr):
                    nxt.append((y, vs + (v,)))
            states = nxt
        if e.get("fs"):
            return [(x, ("obj", strip_ptr(e["t"]), tuple(sorted(zip(e["fs"], vs))))) for x, vs in states]
        t = (e.get("t") or "").strip()
        if len(e["a"]) == 1 and (t.endswith("*") or t in SCALARS):
            return [(x, vs[0]) for x, vs in states]
        return [(x, ("lst", vs)) for x, vs in states]

    def e_tobool(self, e, st, fr):
        return [(x, ("tobool", v, 1) if e.get("int") else ("tobool", v)) if not is_c(v) else (x, C(bool(v[1])))
                for x, v in self.ev(e["e"], st, fr)]

    def e_icast(self, e, st, fr):
        r = []
        for x, v in self.ev(e["e"], st, fr):
            r.append((x, self.icast(v, e["bits"], e["sgn"], e["fbits"], e["fsgn"])))
        return r

    def icast(self, v, bits, sgn, fbits, fsgn):
        if is_c(v) and isinstance(v[1], int) and not isinstance(v[1], bool):
            n = v[1] & ((1 << bits) - 1)
            if sgn and n >= 1 << (bits - 1):
                n -= 1 << bits
            return C(n)
        if bits > fbits or bits == fbits:
            # widening (or same width): value kept; negative source values of same width/unsigned target are
            # not distinguished (no code here depends on them), except the 8 bit char/byte conversions
            if bits == fbits and bits == 8 and sgn != fsgn:
                return self.byteof(v, sgn)
            if bits == fbits and bits == 16 and sgn != fsgn:
                return v[1] if v[0] == "resign" else ("resign", v, bits, sgn)
            return v
        if bits == 8:
            return self.byteof(v, sgn)
        if v[0] == "icast" and v[2] <= bits:
            return v
        if v[0] in ("byte", "sbyte"):
            return v
        return ("icast", v, bits, sgn)

    def byteof(self, v, sgn):
        while v[0] in ("byte", "sbyte"):
            v = v[1]
        return ("sbyte" if sgn else "byte", v)

    def e_dyncast(self, e, st, fr):
        return [(x, v if v[0] == "new" or v == NULL else ("cast", strip_ptr(e["t"]), v)) for x, v in self.ev(e["e"], st, fr)]

    def e_downcast(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_lambda(self, e, st, fr):
        caps = []
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
                continue
            if c.get("ref"):
                r = self.lv(c["e"], st, fr)
                caps.append((c["id"], ("ref", self.resolve(r[0][0], r[0][1]))))
            else:
                v = self.ev(c["e"], st, fr)[0][1]
                caps.append((c["id"], v))
        return [(st, ("lam", e["f"], tuple(caps), this if this is not None else fr.this))]

    def e_other(self, e, st, fr):
        cur = [(st, ())]
        for a in e["ch"]:
            nxt = []
            for x, vs in cur:
                for y, v in self.ev(a, x, fr):
                    nxt.append((y, vs + (v,)))
            cur = nxt
        return [(x, ("other", e["cls"], vs)) for x, vs in cur]

    def e_index(self, e, st, fr):
        r = []
        for x, a in self.ev(e["a"], st, fr):
            for y, b in self.ev(e["b"], x, fr):
                r.append((y, self.get(uncptr(a), b)))
        return r

    def e_cond(self, e, st, fr):
        T, F = self.cond_states(e["c"], st, fr)
        r = []
        for x in T:
            r += self.ev(e["a"], x, fr)
        for x in F:
            r += self.ev(e["b"], x, fr)
        return r

    def e_un(self, e, st, fr):
        op = e["op"]
        if op == "&":
            r = []
            for x, l in self.lv(e["e"], st, fr):
                l = self.resolve(x, l)
                if l[0] == "deref":
                    r.append((x, l[1]))
                else:
                    r.append((x, ("addr", l)))
            return r
        if op == "*":
            return [(x, self.load(x, l)) for x, l in self.lv(e, st, fr)]
        if op in ("++", "--"):
            r = []
            for x, l in self.lv(e["e"], st, fr):
                old = self.load(x, l)
                new = self.arith("+" if op == "++" else "-", old, C(1))
                new = self.wrap_t(new, e["t"])
                y = x.copy()
                self.store(y, l, new, fr, e)
                r.append((y, old if e.get("post") else new))
            return r
        if op == "!":
            return [(x, self.mk_not(v)) for x, v in self.ev(e["e"], st, fr)]
        if op == "-":
            return [(x, C(-v[1]) if is_c(v) else ("op", "neg", v)) for x, v in self.ev(e["e"], st, fr)]
        if op == "~":
            return [(x, ("op", "~", v)) for x, v in self.ev(e["e"], st, fr)]
        return [(x, ("op", op, v)) for x, v in self.ev(e["e"], st, fr)]

    def wrap_t(self, v, t):
        w = {"unsigned short": (16, False), "short": (16, True), "unsigned char": (8, False), "char": (8, True)}.get(t)
        if w and v[0] == "op":
            return ("icast", v, w[0], w[1]) if w[0] != 8 else ("byte", v)
        return v

    def arith(self, op, a, b):
        if is_c(a) and is_c(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                if op == "+":
                    return C(a[1] + b[1])
                if op == "-":
                    return C(a[1] - b[1])
                if op == "*":
                    return C(a[1] * b[1])
                if op == "/" and b[1]:
                    return C(int(a[1] / b[1]) if isinstance(a[1], int) and isinstance(b[1], int) else a[1] / b[1])
                if op == "%" and b[1]:
                    return C(a[1] % b[1])
                if op == "&":
                    return C(a[1] & b[1])
                if op == "|":
                    return C(a[1] | b[1])
                if op == "<<":
                    return C(a[1] << b[1])
                if op == ">>":
                    return C(a[1] >> b[1])
            except Exception:
                pass
        if op in ("+", "-") and b == C(0):
            return a
        if op == "+" and a == C(0):
            return b
        if op == "-" and is_c(b) and isinstance(b[1], (int, float)):
            return self.arith("+", a, C(-b[1]))
        if op == "+" and is_c(a):
            a, b = b, a
        if op == "+" and is_c(b) and a[0] == "op" and a[1] == "+" and is_c(a[3]):
            return self.arith("+", a[2], C(a[3][1] + b[1]))
        if op in ("+", "*", "&", "|", "^") and repr(a) > repr(b) and not is_c(b):
            a, b = b, a
        return ("op", op, a, b)

    def compare(self, op, a, b):
        if op == "==":
            return self.mk_eq(a, b)
        if op == "!=":
            return self.mk_not(self.mk_eq(a, b))
        if op == "<":
            return self.mk_lt(a, b)
        if op == ">":
            return self.mk_lt(b, a)
        if op == "<=":
            return self.mk_not(self.mk_lt(b, a))
        if op == ">=":
            return self.mk_not(self.mk_lt(a, b))

    def mk_lt(self, a, b):
        if is_c(a) and is_c(b):
            return C(a[1] < b[1])
        # move constants: x + c < d
        if a[0] == "op" and a[1] == "+" and is_c(a[3]) and is_c(b):
            return ("lt", a[2], C(b[1] - a[3][1]))
        # integer canonical form: c < x  ==  not (x < c+1)
        if is_c(a) and isinstance(a[1], int) and not isinstance(a[1], bool):
            return ("not", ("lt", b, C(a[1] + 1)))
        return ("lt", a, b)

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return self.ev_cond(e, st, fr)
        if op == ",":
            r = []
            for x, _ in self.ev(e["a"], st, fr):
                r += self.ev(e["b"], x, fr)
            return r
        if op == "=":
            r = []
            for x, v in self.ev(e["b"], st, fr):
                for y, l in self.lv(e["a"], x, fr):
                    y = y.copy()
                    self.store(y, l, v, fr, e)
                    r.append((y, v))
            return r
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = []
            for x, v in self.ev(e["b"], st, fr):
                for y, l in self.lv(e["a"], x, fr):
                    y = y.copy()
                    n = self.wrap_t(self.arith(op[:-1], self.load(y, l), v), e["t"])
                    self.store(y, l, n, fr, e)
                    r.append((y, n))
            return r
        r = []
        for x, a in self.ev(e["a"], st, fr):
            for y, b in self.ev(e["b"], x, fr):
                if op in ("==", "!=") and (self.boolcmp(e["a"], a, b) or self.boolcmp(e["b"], b, a)):
                    p, c = (a, b) if is_c(b) else (b, a)
                    r.append((y, p if bool(c[1]) == (op == "==") else self.mk_not(p)))
                elif op in ("==", "!=", "<", ">", "<=", ">="):
                    r.append((y, self.compare(op, a, b)))
                else:
                    r.append((y, self.arith(op, a, b)))
        return r

    def boolcmp(self, node, v, c):
        """v is a truth value compared with the constant true or false"""
        return node["k"] == "icast" and node.get("from") == "bool" and is_c(c) and c[1] in (0, 1) and not is_c(v)

    # ---- lvalues
    def lv(self, e, st, fr):
        k = e["k"]
        if k == "var":
            return [(st, self.var_loc(e, fr))]
        if k == "mem":
            if e["arrow"]:
                r = []
                for x, p in self.ev(e["b"], st, fr):
                    self.deref(x, p, e, fr)
                    r.append((x, self.ptr_loc(x, p, e["f"])))
                return r
            if e["b"]["k"] == "this":
                return [(st, ("fl", fr.this, e["f"]))]
            r = []
            for x, l in self.lv(e["b"], st, fr):
                l = self.resolve(x, l)
                if l[0] == "tmp":
                    r.append((x, ("tmp", self.fieldof(l[1], e["f"]))))
                elif l[0] == "deref":
                    r.append((x, self.ptr_loc(x, l[1], e["f"])))
                else:
                    r.append((x, ("sf", l, e["f"])))
            return r
        if k == "un" and e["op"] == "*":
            r = []
            for x, p in self.ev(e["e"], st, fr):
                self.deref(x, p, e, fr)
                if p[0] == "addr":
                    r.append((x, p[1]))
                else:
                    r.append((x, ("deref", p)))
            return r
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            return [(x, l) for y, v in self.ev(e, st, fr) for x, l in self.lv(e["e"], y, fr)]
        if k == "index":
            r = []
            for x, l in self.lv(e["a"], st, fr):
                for y, b in self.ev(e["b"], x, fr):
                    r.append((y, ("ix", self.resolve(y, l), b)))
            return r
        if k == "call" and e.get("op") == "[]" and e.get("obj") and base(e.get("ot", "")) in CONTAINERS:
            r = []
            for x, l in self.lv(e["obj"], st, fr):
                for y, b in self.ev(e["args"][0], x, fr):
                    self.seq(y, base(e["ot"]), self.load(y, self.resolve(y, l)), "operator[]", [b], e, fr)
                    r.append((y, ("ix", self.resolve(y, l), b)))
            return r
        if k == "call" and e.get("n", "").rsplit("::", 1)[-1] in ("first", "last", "front", "back") and e.get("obj") and \
                base(e.get("ot", "")) in CONTAINERS and not e.get("cm"):
            r = []
            for x, l in self.lv(e["obj"], st, fr):
                self.seq(x, base(e["ot"]), self.load(x, self.resolve(x, l)), e["n"].rsplit("::", 1)[-1], [], e, fr)
                r.append((x, ("ix", self.resolve(x, l), C(0) if e["n"].endswith(("first", "front")) else C("last"))))
            return r
        if k == "call" and e.get("op") in ("=", "+=", "<<") and e.get("obj"):
            # chained: evaluate then the object location
            r = []
            for x, v in self.ev(e, st, fr):
                r += [(y, ("tmp", v) if l[0] == "tmp" else l) for y, l in self.lv(e["obj"], x, fr)]
            return r
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            return [(x, l) for y, v in self.ev(e, st, fr) for x, l in self.lv(e["a"], y, fr)]
        if k in ("icast", "downcast", "copy"):
            if k in ("downcast",):
                return self.lv(e["e"], st, fr)
        return [(x, ("tmp", v)) for x, v in self.ev(e, st, fr)]

    def seq(self, st, cls, X, op, vals, node, fr):
        """access to an element of a sequence that has to exist (hook for the bounds rule)"""
        h = getattr(self.m, "seq", None)
        if h and op in ("first", "last", "front", "back", "constFirst", "constLast", "at", "operator[]", "takeFirst", "takeLast", "removeFirst",
                        "removeLast", "takeAt", "removeAt", "dequeue", "pop", "pop_front", "pop_back", "top", "head") and \
                cls in ("QByteArray", "QString", "QStringList", "QList", "QVector", "QQueue", "QStack", "QListSpecialMethods", "QJsonArray", "QVarLengthArray"):
            h(st, X, op, list(vals), node, fr, self)

    def deref(self, st, p, node, fr):
        """pointer dereference observed (hook for the null rule)"""
        h = getattr(self.m, "deref", None)
        if h:
            h(st, p, node, fr, self)

    # ---- objects
    def fresh(self, name, node, fr):
        return ("fresh", name, (fr.fn["n"], node.get("l", 0), fr.ctx) + fr.loops)

    def e_ctor(self, e, st, fr):
        cls = e["cls"]
        r = []
        for x, args in self.args(e, st, fr):
            vals = [self.argval(x, a) for a in args]
            short = cls.rsplit("::", 1)[-1]
            real = [v for v, a in zip(vals, e["args"]) if not (isinstance(a, dict) and a.get("def"))]
            if real and real[0][0] == "cptr" and short in ("QString", "QByteArray"):
                real = [sized(real[0], real[1])] if len(real) == 2 else [cstr(real[0])]
            else:
                real = [uncptr(v) for v in real]
            if short == "QReturnArgument":
                # Q_RETURN_ARG(T, variable): the variable is set by the QMetaObject::invokeMethod call it is passed to
                y = x.copy()
                v = self.fresh("invoked", e, fr)
                for a in args:
                    if a[0] == "loc":
                        self.store(y, self.resolve(y, a[1]), v, fr, e)
                r.append((y, ("ctorobj", cls, (real[0], v))))
                continue
            if not real and short in DEFAULT_EMPTY:
                r.append((x, EMPTY))
            elif short in ("QHash", "QMap") and len(real) == 1 and real[0][0] == "lst" and all(q[0] == "pair" for q in real[0][1]):
                t = EMPTY
                for q in real[0][1]:
                    t = ("ins", t, q[1], q[2])
                r.append((x, t))
            elif short == "QString" and len(real) == 1 and "QByteArray" in e["f"].split("(", 1)[-1]:
                r.append((x, utf8(real[0])))
            elif short in TRANSPARENT_CTORS and len(real) == 1:
                r.append((x, real[0]))
            elif short in ("QString", "QByteArray") and len(real) == 2:
                r.append((x, ("call", short, None, tuple(real))))
            elif short in ("QPair", "pair") and len(real) == 2:
                r.append((x, ("pair", real[0], real[1])))
            elif short == "QDataStream" and real and real[0][0] == "addr":
                r.append((x, ("wstream", real[0][1])))
            elif short == "QDataStream" and real:
                r.append((x, ("rstream", real[0], 0)))
            elif short in ("QHashIterator", "QListIterator", "QMapIterator", "QSetIterator", "QVectorIterator",
                           "QMutableListIterator", "QMutableHashIterator", "QMutableMapIterator") and real:
                r.append((x, ("it", self.strip_values(real[0]), "begin")))
            elif short in ("QHash", "QMap", "QList", "QVector", "QSet", "QStringList") and len(real) == 1:
                r.append((x, real[0]))
            elif e.get("repo") and e["f"] in self.p.fns and not self.m.is_opaque(cls, e["f"]):
                loc = ("v", ("tmpobj", fr.no), (e["l"], fr.ctx) + fr.loops)
                y = x.copy()
                y.env[loc] = ("obj", cls, ())
                for z, _ in self.construct(y, e["f"], cls, ("addr", loc), args, e, fr):
                    v = self.load(z, loc)
                    self.clear_sub(z, loc)
                    z.env.pop(loc, None)
                    r.append((z, v))
            elif e.get("repo") or cls in self.p.classes:
                fs = []
                for f in self.p.classes.get(cls, {"fields": []})["fields"]:
                    if f.get("init"):
                        fs.append((f["n"], self.ev(f["init"], x, fr)[0][1]))
                    else:
                        fs.append((f["n"], self.default_of(f["t"], f["n"])))
                r.append((x, ("obj", cls, tuple(sorted(fs)))))
            else:
                self.emit_event(x, "ctor", cls, e["f"], None, vals, e, fr)
                r.append((x, ("ctorobj", cls, tuple(real))))
        return r

    def default_of(self, t, n):
        b = base(t)
        if b in DEFAULT_EMPTY:
            return EMPTY
        if b.startswith("Q") and not t.endswith("*"):
            return ("ctorobj", b, ())
        return ("undef", n)

    def e_new(self, e, st, fr):
        cls = e["cls"]
        r = []
        for x, args in self.args(e, st, fr):
            obj = ("new", cls, (fr.fn["n"], e["l"], e.get("col", 0), fr.ctx) + fr.loops)
            x = x.copy()
            # a fresh object: forget whatever an earlier iteration stored in it
            for c in [c for c in x.heap if c[0] == "fl" and c[1] == obj]:
                del x.heap[c]
            vals = [self.argval(x, a) for a in args]
            self.emit_event(x, "new", cls, e.get("f"), obj, vals, e, fr)
            if e.get("repo") and e["f"] in self.p.fns and not self.m.is_opaque(cls, e["f"]):
                for z, _ in self.construct(x, e["f"], cls, obj, args, e, fr):
                    r.append((z, obj))
            else:
                self.init_fields(x, cls, obj, fr)
                r.append((x, obj))
        return r

    def init_fields(self, st, cls, this, fr):
        c = self.p.classes.get(cls)
        if not c:
            return
        for f in c["fields"]:
            loc = self.ptr_loc(st, this, f["n"])
            if f.get("init"):
                v = self.ev(f["init"], st, fr)[0][1]
                st.heap[loc] = v
            else:
                b = base(f["t"])
                if b in DEFAULT_EMPTY:
                    st.heap[loc] = EMPTY

    def construct(self, st, fid, cls, this, args, node, fr):
        f = self.p.fns[fid]
        if len(fr.ctx) > MAXDEPTH:
            return [(st, VOID)]
        self.init_fields(st, cls, this, fr)
        return self.invoke(st, f, this, args, node, fr)

    def e_delete(self, e, st, fr):
        r = []
        for x, v in self.ev(e["e"], st, fr):
            x = x.copy()
            self.emit_event(x, "delete", strip_ptr(e["t"]), None, v, [], e, fr)
            r.append((x, VOID))
        return r

    # =================================================================== calls
    def args(self, e, st, fr):
        """evaluate arguments; each is ('val', term) or ('loc', loc)"""
        rm = e.get("rm") or []
        cur = [(st, [])]
        for i, a in enumerate(e["args"]):
            nxt = []
            isref = i < len(rm) and rm[i]
            for x, vs in cur:
                if isref:
                    for y, l in self.lv(a, x, fr):
                        l = self.resolve(y, l)
                        nxt.append((y, vs + [("loc", l) if l[0] != "tmp" else ("val", l[1])]))
                else:
                    for y, v in self.ev(a, x, fr):
                        nxt.append((y, vs + [("val", v)]))
            cur = nxt
        return cur

    def argval(self, st, a):
        return a[1] if a[0] == "val" else self.load(st, a[1])

    def emit_event(self, st, kind, name, fid, obj, args, node, fr, targets=None, extra=None):
        ev = Event(kind, name, fid, obj, args, node, fr, st, targets, extra)
        self.m.event(st, ev)
        return ev

    def e_call(self, e, st, fr):
        self.ncalls += 1
        n = e["n"]
        short = n.rsplit("::", 1)[-1]
        # evaluate object
        objs = [(st, None, None)]   # (state, object value, object location)
        if e.get("obj") is not None:
            objs = []
            ok = e["obj"]
            is_ptr = e.get("arrow")
            if is_ptr or ok["k"] == "this":
                for x, v in self.ev(ok, st, fr):
                    if ok["k"] != "this":
                        self.deref(x, v, e, fr)
                    objs.append((x, v, None))
            else:
                for x, l in self.lv(ok, st, fr):
                    l = self.resolve(x, l)
                    if l[0] == "tmp":
                        objs.append((x, l[1], None))
                    else:
                        objs.append((x, self.load(x, l), l))
        res = []
        for x, ov, oloc in objs:
            for y, args in self.args(e, x, fr):
                res += self.call1(e, n, short, y, ov, oloc, args, fr)
        if len(res) > 1:
            res = [(o[1], o[2]) for o in self.dedupe([("n", s, v) for s, v in res])]
        return res

    def call1(self, e, n, short, st, ov, oloc, args, fr):
        fid = e["f"]
        f = self.p.fns.get(fid)
        if n == "wmove" and f is None:
            return [(st, C(0))]      # curses: placing the cursor succeeds (only the text is of interest)
        if n in NORETURN and f is None:
            self.emit_event(st, "exit", n, fid, None, [self.argval(st, a) for a in args], e, fr)
            return []
        if n in ("std::for_each", "std::any_of", "std::all_of", "std::none_of", "std::find_if"):
            r = self.algorithm(e, short, st, [self.argval(st, a) for a in args], fr)
            if r is not None:
                return r
        # lambda object invocation
        if ov is not None and ov[0] == "lam":
            if "(*)" in e.get("t", ""):
                return [(st, ov)]    # conversion to a function pointer
            lf = self.p.fns.get(ov[1])
            if lf:
                return self.invoke(st, lf, ov[3], args, e, fr, caps=ov[2])
        if n == "?indirect" and ov is not None and ov[0] == "fn":
            f = self.p.fns.get(ov[1])
            fid = ov[1]
            n = f["n"] if f else n
            ov = None
        if n.startswith("std::function") and short == "operator()" and ov is not None and ov[0] == "lam":
            lf = self.p.fns.get(ov[1])
            return self.invoke(st, lf, ov[3], args, e, fr, caps=ov[2])
        targets = None
        if e.get("repo") or f is not None:
            # virtual dispatch
            if e.get("virt"):
                sc = e.get("ut") or e.get("ot")
                dyn = ov[1] if ov is not None and ov[0] == "new" else None
                if dyn:
                    t = self.p._impl(fid, dyn)
                    targets = [t] if t else []
                elif ov is not None and ov[0] in ("this",) and fr.this == ov:
                    targets = self.p.overriders(fid, sc)
                else:
                    targets = self.p.overriders(fid, sc)
                if len(targets) == 1 and targets[0] in self.p.fns:
                    f = self.p.fns[targets[0]]
                else:
                    f = None
            if self.p.is_signal(fid):
                return self.do_emit(e, n, st, ov, args, fr)
            if f is not None and not self.m.is_opaque(n, fid) and n not in self.opaque and f["n"] not in self.opaque:
                if self.inline_filter is None or self.inline_filter(f):
                    vals = [self.argval(st, a) for a in args]
                    this = ov
                    if oloc is not None:
                        this = ("addr", oloc)
                    self.emit_event(st, "enter", f["n"], f["f"], this, vals, e, fr)
                    if len(fr.ctx) < MAXDEPTH and f["f"] not in self.stack:
                        return self.invoke(st, f, this, args, e, fr)
        return self.external(e, n, short, st, ov, oloc, args, fr, targets)

    def do_emit(self, e, n, st, ov, args, fr):
        vals = [self.argval(st, a) for a in args]
        st = st.copy()
        self.emit_event(st, "emit", n, e["f"], ov, vals, e, fr)
        slots = self.emit_inline.get(n)
        states = [st]
        if slots:
            for s in slots:
                f = self.p.fns.get(s[0])
                if not f:
                    continue
                nxt = []
                for x in states:
                    a = args[:len(f["params"])]
                    this = s[1] if len(s) > 1 else ov
                    if f["f"] in self.stack:
                        nxt.append(x)
                        continue
                    nxt += [y for y, v in self.invoke(x, f, this, [("val", self.argval(x, q)) for q in a], e, fr)]
                states = nxt
        return [(x, VOID) for x in states]

    def invoke(self, st, f, this, args, node, fr, entry=False, caps=None):
        """analyse f's body in context; returns [(state, value)]"""
        self.visited.add(f["f"])
        no = fr.no + 1
        ctx = fr.ctx if entry else fr.ctx + ((fr.fn["n"], node.get("l", 0) if node else 0),)
        nf = Frame(no, f, this, ctx, fr.loops)
        st = st.copy()
        # a stale frame with this number is dead
        for c in [c for c in st.env if c[1] == no]:
            del st.env[c]
        for i, p in enumerate(f["params"]):
            loc = ("v", no, p["id"])
            if i < len(args):
                a = args[i]
                if a[0] == "loc" and p["ref"]:
                    st.env[loc] = ("ref", a[1])
                else:
                    st.env[loc] = self.argval(st, a)
            else:
                st.env[loc] = ("undef", p["n"])
        if caps:
            for vid, v in caps:
                st.env[("v", no, vid)] = v
        self.stack.append(f["f"])
        try:
            states = [st]
            for i in f.get("inits", []):
                nxt = []
                for x in states:
                    if i.get("field"):
                        if not i["written"] and not (i["e"] and i["e"]["k"] not in ("ctor",)):
                            nxt.append(x)
                            continue
                        for y, v in self.ev(i["e"], x, nf):
                            y = y.copy()
                            self.store(y, self.ptr_loc(y, this, i["field"]), v, nf, i)
                            nxt.append(y)
                    elif i.get("base") or i.get("deleg"):
                        e = i["e"]
                        if e and e["k"] == "ctor" and e.get("repo") and e["f"] in self.p.fns:
                            for y, a in self.args(e, x, nf):
                                if i.get("base"):
                                    self.init_fields(y, e["cls"], this, nf)
                                nxt += [z for z, _ in self.invoke(y, self.p.fns[e["f"]], this, a, e, nf)]
                        elif e and e["k"] == "ctor" and i["written"]:
                            nxt += [y for y, a in self.args(e, x, nf)]
                        else:
                            nxt.append(x)
                    else:
                        nxt.append(x)
                states = nxt
            outs = []
            for x in states:
                outs += self.exec(f["body"], x, nf)
        finally:
            self.stack.pop()
        res = []
        for kind, x, v in outs:
            if kind in ("n", "r"):
                x = x.copy()
                if v is None:
                    v = VOID
                if not entry:
                    for c in [c for c in x.env if c[1] == no]:
                        del x.env[c]
                    for c in [c for c in x.heap if c[0] == "sf" and self.root(c)[0] == "v" and self.root(c)[1] == no]:
                        del x.heap[c]
                res.append((x, v))
        hook = getattr(self.m, "leave", None)
        if hook:
            for x, v in res:
                hook(x, f, this, v, node, fr)
        if len(res) > 1:
            res = self.dedupe([("n", s, v) for s, v in res])
            if not entry:
                res = self.merge(res, (f["f"], ctx))
            res = [(o[1], o[2]) for o in res]
        return res

    def root(self, loc):
        while loc[0] in ("sf", "ix"):
            loc = loc[1]
        return loc

    # ------------------------------------------------------------------ external calls
    def set_loc(self, st, oloc, v, fr, e):
        st = st.copy()
        if oloc is not None:
            self.store(st, oloc, v, fr, e)
        return st

    def external(self, e, n, short, st, ov, oloc, args, fr, targets):
        vals = [self.argval(st, a) for a in args]
        if any(v[0] == "cptr" for v in vals):
            if len(vals) >= 2 and vals[0][0] == "cptr" and short in ("write", "append", "fromUtf8", "fromLatin1", "fromRawData", "fromLocal8Bit", "setRawData", "prepend"):
                vals = [sized(vals[0], vals[1])] + vals[2:]
            elif ov is not None and (short in ("append", "prepend", "push_back", "insert") or e.get("op") in ("+", "+=", "<<")) or e.get("op") == "+" or short == "write" and n != "QDebug::write":
                vals = [cstr(v) for v in vals]
            else:
                vals = [uncptr(v) for v in vals]
        if ov is not None and ov[0] == "cptr":
            ov = ov[1]
        ncls = n.rsplit("::", 1)[0].rsplit("::", 1)[-1] if "::" in n else ""
        op = e.get("op")
        # ---------- iterator handling
        r = self.iter_call(e, n, short, op, st, ov, oloc, vals, fr)
        if r is not None:
            return r
        # ---------- operators on values
        if op in ("==", "!=") and (len(vals) + (ov is not None)) == 2:
            a, b = ([ov] if ov is not None else []) + vals
            if a == EMPTY:
                a = C("") if is_c(b) else a
            if is_c(a) and a[1] == "" or is_c(b) and b[1] == "":
                o = b if is_c(a) and a[1] == "" else a
                q = self.mk_eq(C(0), ("count", o))
            else:
                q = self.mk_eq(a, b)
            return [(st, q if op == "==" else self.mk_not(q))]
        if op in ("<", ">", "<=", ">=") and (len(vals) + (ov is not None)) == 2:
            a, b = ([ov] if ov is not None else []) + vals
            return [(st, self.compare(op, a, b))]
        if op == "!" and ov is not None:
            return [(st, self.mk_not(("tobool", ov)))]
        if op == "->" or (op == "*" and not vals and ov is not None):
            return [(st, ov)]
        if op == "=" and ov is not None and len(vals) == 1:
            if oloc is not None:
                return [(self.set_loc(st, oloc, vals[0], fr, e), vals[0])]
            return [(st, vals[0])]
        if op == "()" and ov is not None:
            return [(st, ("call", n, ov, tuple(vals)))]
        if op == "+":
            ops = ([ov] if ov is not None else []) + vals
            return [(st, self.cat(*ops))]
        if op == "|" and len(vals) + (ov is not None) == 2:
            ops = ([ov] if ov is not None else []) + vals
            return [(st, self.arith("|", ops[0], ops[1]))]
        # ---------- streams
        ostreams = ("QDebug", "QTextStream", "QDataStream")
        if op == "<<" and ov is not None and ov[0] == "wstream":
            t = e["args"][0].get("t", "?")
            y = st.copy()
            pt = re.search(r"\((.*)\)", e["f"]).group(1)
            v = vals[0]
            item = ("enc", pt, v) if pt != "unsigned char" and pt != "signed char" else (v if is_c(v) else byte(v))
            if is_c(item):
                item = ("enc8", item[1])
            self.store(y, ov[1], ("cat",) + (cat_parts(self.load(y, ov[1])) + (item,)), fr, e)
            return [(y, ov)]
        if op == ">>" and ov is not None and ov[0] in ("rstream", "phi"):
            y = st.copy()
            pt = re.search(r"\((.*)\)", e["f"]).group(1)
            if args[0][0] == "loc":
                self.store(y, args[0][1], ("dec", pt.replace(" &", ""), ov), fr, e)
            if oloc is not None:
                if ov[0] == "rstream":
                    self.store(y, oloc, ("rstream", ov[1], ov[2] + size_of(pt) if isinstance(ov[2], int) else ov[2]), fr, e)
            return [(y, ov)]
        if op == "<<" and (ncls in ostreams or any(x in e["f"] for x in ("QDebug", "QTextStream"))):
            if (ncls == "QTextStream" or "QTextStream" in e["f"]) and vals:
                t = vals[-1]
                if t[0] == "call" and t[1] == "cstr":
                    t = lossy("fromLatin1", t)      # a C string: read as ISO 8859-1 (Qt 5)
                self.emit_event(st, "print", n, e["f"], ov, [t], e, fr)
            return [(st, ov if ov is not None else (vals[0] if vals else VOID))]
        if n.startswith("QMessageLogger") or ncls == "QDebug" or ncls == "QDebugStateSaver":
            return [(st, ("dbg",))]
        # ---------- containers and strings
        if ov is not None and (ncls in CONTAINERS or ncls in STRINGS):
            r = self.container(e, ncls, short, op, st, ov, oloc, vals, args, fr)
            if r is not None:
                return r
        if ov is None and short == "fromUtf8" and len(vals) >= 1:
            v = vals[0]
            if v[0] == "cptr":
                v = sized(v, vals[1]) if len(vals) > 1 and not is_c(vals[1]) else cstr(v)
            elif len(vals) > 1 and not is_c(v) and not is_c(vals[1]):
                v = ("call", "slice", v, (vals[1],))
            return [(st, utf8(v))]
        if ov is None and short in STRCONV and len(vals) >= 1:
            return [(st, vals[0])]
        if ov is None and short in LOSSY and len(vals) >= 1:
            return [(st, lossy(short, vals[0]))]
        if short in LOSSY and ov is not None and not vals:
            return [(st, lossy(short, ov))]
        if short in STRCONV and ov is not None and not vals:
            return [(st, ("cptr", ov) if short in RAWPTR and not is_c(ov) else ov)]
        if ncls == "QCommandLineParser" and ov is not None and short in ("isSet", "value", "values") and vals:
            return [(st, ("call", n, None, (C(option_name(ov, vals[0])),)))]
        if ncls == "QVariant" and ov is not None and short in ("toBool", "toMap", "toList", "toString", "toInt", "toUInt", "toUuid",
                                                            "toULongLong", "toByteArray", "toStringList", "toLongLong", "toDouble"):
            v = ("call", "QVariant::" + short, ov, ())
            if short == "toMap" and ov[0] in ("ins", "empty"):
                v = ov
            if is_c(ov) and isinstance(ov[1], str) and short == "toString":
                v = ov
            if is_c(ov) and isinstance(ov[1], bool) and short == "toBool":
                v = ov
            return [(self.havoc_out(st, e, v, args, fr), v)]
        if n in ("qMin", "qMax", "std::min", "std::max") and len(vals) == 2:
            return [(st, ("call", n, None, tuple(vals)))]
        if n in ("std::move", "std::forward", "qAsConst", "std::as_const", "qobject_cast", "qFlagLocation", "qUtf8Printable", "qPrintable"):
            if n == "qobject_cast":
                return [(st, ("cast", strip_ptr(e["t"]), vals[0]))]
            return [(st, vals[0] if vals else VOID)]
        if n.endswith("QOverload::of") or short == "of":
            return [(st, vals[0] if vals else VOID)]
        if short in ("qMakePair", "make_pair") and len(vals) == 2:
            return [(st, ("pair", vals[0], vals[1]))]
        # ---------- generic
        y = st.copy()
        is_ptr_obj = e.get("arrow") or (e.get("obj") or {}).get("k") == "this"
        pure = bool(e.get("cm")) or bool(e.get("static")) or e.get("obj") is None
        if n in ("rand", "QUuid::createUuid", "QDateTime::currentDateTime", "QDateTime::currentDateTimeUtc", "QTime::currentTime"):
            pure = False
        noarg_obj = ov
        if n.startswith("QTimer::"):
            is_ptr_obj = True       # timers have identity: their state is not part of a value
        ver = y.ver.get(ov) if (ov is not None and is_ptr_obj) else None
        if (e.get("repo") and (self.m.is_opaque(n, e["f"]) or n in self.opaque)) or \
                (pure and not (e.get("repo") and not e.get("cm"))):
            if n in getattr(self.m, "overloads", ()):
                n = n + e["f"][e["f"].index("("):]
            t = ("call", n, ov, tuple(vals)) if ver is None else ("call", n, ov, tuple(vals), ver)
            if short == "isEmpty" and not vals and ov is not None and not is_ptr_obj:
                t = self.mk_eq(C(0), ("count", ov))
            val = t
        else:
            val = self.fresh(n, e, fr)
        if e.get("t") == "void":
            val = VOID
        y = self.havoc_out(y, e, val, args, fr)
        self.emit_event(y, "call", n, e["f"], ov, vals, e, fr, targets, extra=val)
        if not e.get("cm") and ov is not None:
            if is_ptr_obj:
                y.ver[ov] = ("at", fr.fn["n"], e.get("l", 0), fr.ctx) + fr.loops
            elif oloc is not None and not e.get("static"):
                self.store(y, oloc, ("mut", n, ov, tuple(vals)), fr, e)
        return [(y, val)]

    def havoc_out(self, st, e, val, args, fr):
        y = st
        if e["n"] in ("QObject::connect", "QObject::disconnect"):
            return y
        i = 0
        for a in args:
            locs = []
            if a[0] == "loc":
                locs.append(a[1])
            else:
                for s in subterms(a[1]):
                    if s[0] == "addr" and isinstance(s[1], tuple) and s[1] and s[1][0] in ("v", "fl", "sf", "g"):
                        locs.append(s[1])
                    elif s[0] == "lam":
                        break
            for l in locs:
                if l[0] == "v" and isinstance(l[1], tuple):
                    continue
                if y is st:
                    y = st.copy()
                self.store(y, l, ("out", val if val != VOID else self.fresh(e["n"], e, fr), i), fr, e)
            i += 1
        return y

    def iter_call(self, e, n, short, op, st, ov, oloc, vals, fr):
        if ov is not None and short in ("begin", "constBegin", "cbegin", "end", "constEnd", "cend") and not vals:
            return [(st, ("it", self.strip_values(ov), "begin" if "egin" in short else "end"))]
        if ov is not None and short in ("find", "constFind") and len(vals) == 1 and ov[0] != "it":
            return [(st, ("it", ov, ("at", vals[0])))]
        if short == "find" and ov is None and len(vals) == 3 and vals[0][0] == "it":
            return [(st, ("it", vals[0][1], ("at", vals[2])))]
        if ov is not None and short == "erase" and len(vals) == 1 and vals[0][0] == "it" and isinstance(vals[0][2], tuple):
            y = self.set_loc(st, oloc, ("rem", ov, vals[0][2][1]), fr, e)
            return [(y, VOID)]
        ops = ([ov] if ov is not None else []) + list(vals)
        if op in ("==", "!=") and len(ops) == 2 and all(o[0] in ("it", "itelem") for o in ops):
            a, b = ops
            if a[0] == "it" and isinstance(a[2], tuple) and b == ("it", a[1], "end"):
                q = self.mk_not(self.has(a[1], a[2][1]))
            elif b[0] == "it" and isinstance(b[2], tuple) and a == ("it", b[1], "end"):
                q = self.mk_not(self.has(b[1], b[2][1]))
            elif (a[0] == "itelem" and b == ("it", a[1], "end")) or (b[0] == "itelem" and a == ("it", b[1], "end")):
                q = FALSE
            elif a == b:
                q = TRUE
            elif a[0] == b[0] == "it" and a[1] == b[1] and {a[2], b[2]} == {"begin", "end"}:
                q = self.mk_eq(("count", a[1]), C(0))
            else:
                q = ("eq", a, b)
            return [(st, q if op == "==" else self.mk_not(q))]
        if ov is not None and ov[0] == "it" and isinstance(ov[2], tuple):
            if op in ("*", "->") or short == "value":
                return [(st, self.get(ov[1], ov[2][1]))]
            if short == "key":
                return [(st, ov[2][1])]
        if ov is not None and ov[0] == "it" and ov[2] == "begin" and (op in ("*", "->") or short in ("key", "value")) and not vals:
            k = self.get(("keys", ov[1]), C(0))
            if short == "key":
                return [(st, k)]
            if "QHash" in n or "QMap" in n or "QMulti" in n:
                return [(st, self.get(ov[1], k))]
            return [(st, self.get(ov[1], C(0)))]
        if ov is not None and ov[0] == "itelem":
            if op in ("*", "->") or short == "value":
                return [(st, ("elem", ov[1], ov[2]))]
            if short == "next":
                if "Hash" in n or "Map" in n:
                    return [(st, ov)]
                return [(st, ("elem", ov[1], ov[2]))]
            if short == "key":
                return [(st, ("elem", ("keys", ov[1]), ov[2]))]
        return None

    def container(self, e, ncls, short, op, st, X, oloc, vals, args, fr):
        strs = ncls in ("QByteArray", "QString")
        L = lambda v: [(st, v)]
        self.seq(st, ncls, X, short, vals, e, fr)
        if short in ("contains",) and len(vals) >= 1:
            if strs:
                return L(("call", "contains", X, tuple(vals[:1])))
            Y = X
            if Y[0] == "keys":
                Y = Y[1]
            elif Y[0] == "values":
                return L(("hasval", Y[1], vals[0]))
            return L(self.has(Y, vals[0]))
        if short in ("count", "size", "length") and not vals:
            Y = X[1] if X[0] in ("keys", "values") else X
            if Y[0] == "lst":
                return L(C(len(Y[1])))
            if is_c(Y) and isinstance(Y[1], str):
                return L(C(len(Y[1])))
            if Y == EMPTY:
                return L(C(0))
            return L(("count", Y))
        if short in ("isEmpty", "empty"):
            Y = X[1] if X[0] in ("keys", "values") else X
            if Y == EMPTY:
                return L(TRUE)
            return L(self.mk_eq(C(0), ("count", Y)))
        if short == "isNull" and strs:
            return L(("call", "isNull", X, ()) if X != EMPTY else TRUE)
        if short in ("value", "at", "operator[]") and len(vals) >= 1 and not (strs and len(vals) > 1):
            d = vals[1] if len(vals) > 1 else None
            g = self.get(X, vals[0], d)
            if d is not None and g[0] == "get" and d not in (NULL, EMPTY, C(0), C(""), FALSE) and not (d[0] == "ctorobj" and not d[2]):
                g = ("ite", self.has(X, vals[0]), g, d)
            return L(g)
        if short in ("first", "front", "constFirst") and not vals:
            return L(self.get(X, C(0)))
        if short in ("last", "back", "constLast") and not vals:
            return L(self.get(X, C("last")))
        if short == "values" and not vals:
            return L(X if X == EMPTY else ("values", X))
        if short == "keys" and not vals:
            return L(X if X == EMPTY else ("keys", X))
        if short in ("firstKey", "lastKey") and not vals:
            return L(self.get(("keys", X), C(0 if short == "firstKey" else "last")))
        if short == "key":
            return L(("keyof", X, vals[0]))
        if short == "keys" and len(vals) == 1:
            return L(("keysof", X, vals[0]))
        set_ = lambda v, ret=VOID: [(self.set_loc(st, oloc, v, fr, e), ret)]
        if short in ("insert", "insertMulti") and len(vals) == 2 and not strs:
            if ncls in ("QList", "QVector"):
                return set_(("app", X, vals[1]) if X == EMPTY or vals[0] == ("count", X) else ("mut", short, X, tuple(vals)))
            return set_(("ins", X, vals[0], vals[1]))
        if short == "insert" and len(vals) == 1:
            return set_(("app", X, vals[0]))
        if short in ("append", "push_back", "enqueue", "push") or (op in ("<<", "+=")):
            v = vals[0] if vals else EMPTY
            if strs:
                if len(vals) > 1:
                    v = ("call", "slice", None, tuple(vals))
                new = self.cat(X, v)
                return set_(new, new)
            if op == "+=" or (e["args"] and base(e["args"][0].get("t", "")) in ("QList", "QStringList") and ncls != "QList"):
                new = ("cat", X, v) if X != EMPTY else v
                return set_(new, new)
            new = ("app", X, v)
            return set_(new, new)
        if short in ("prepend", "push_front"):
            v = vals[0]
            return set_(self.cat(v, X) if strs else ("app", X, v) if X == EMPTY else ("mut", short, X, (v,)))
        if short in ("remove", "take", "removeAll", "removeOne", "takeFirst", "takeLast", "removeFirst", "removeLast",
                     "takeAt", "removeAt", "dequeue", "pop", "pop_front", "pop_back") and not strs:
            if X[0] == "takeq":
                return set_(X, ("elem", X[1], X[2]))
            if short in ("takeFirst", "removeFirst", "dequeue", "pop_front"):
                return set_(("mut", short, X, ()), self.get(X, C(0)))
            if short in ("takeLast", "removeLast", "pop", "pop_back"):
                return set_(("mut", short, X, ()), self.get(X, C("last")))
            if short in ("takeAt", "removeAt"):
                return set_(("mut", short, X, tuple(vals)), self.get(X, vals[0]))
            k = vals[0]
            if short == "take":
                v = self.get(X, k)
                return set_(("rem", X, k), v)
            return set_(("rem", X, k), ("has01", self.has(X, k)))
        if short == "clear":
            return set_(EMPTY)
        if short == "swap" and args and args[0][0] == "loc":
            y = self.set_loc(st, oloc, vals[0], fr, e)
            self.store(y, args[0][1], X, fr, e)
            return [(y, VOID)]
        if short in ("reserve", "squeeze", "detach"):
            return L(VOID)
        if strs and short in STRCONV and not vals:
            return L(("cptr", X) if short in RAWPTR and not is_c(X) else X)
        if strs and short in LOSSY and not vals:
            return L(lossy(short, X))
        if strs and short in ("trimmed", "toLower", "toUpper", "simplified"):
            return L(("call", short, X, ()))
        if strs and short in ("chop", "truncate", "remove", "replace", "insert", "fill", "resize") and not e.get("cm"):
            new = ("mut", short, X, tuple(vals))
            return set_(new, new)
        if e.get("cm") or e.get("static"):
            return L(("call", short, X, tuple(vals)))
        new = ("mut", short, X, tuple(vals))
        return set_(new, new)


def cat_parts(t):
    if t == EMPTY:
        return ()
    if t[0] == "cat":
        return t[1:]
    return (t,)


def byte(v):
    return v if v[0] == "byte" else ("byte", v)


def base(t):
    t = strip_ptr(t or "")
    t = re.sub(r"<.*$", "", t)
    return t.rsplit("::", 1)[-1]


def conjuncts(e):
    e = strip(e)
    if e.get("k") == "bin" and e.get("op") == "&&":
        return conjuncts(e["a"]) + conjuncts(e["b"])
    return [e]


def strip(e):
    while e["k"] in ("icast", "copy"):
        e = e["e"]
    return e


def size_of(pt):
    return {"unsigned short": 2, "short": 2, "unsigned char": 1, "signed char": 1, "unsigned int": 4, "int": 4}.get(
        pt.replace("&", "").strip(), 100)
