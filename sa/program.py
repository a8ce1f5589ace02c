"""Program model: functions, classes, class hierarchy, signal/slot connections."""
import re
from model import parse_all, AnalysisError


def strip_ptr(t):
    t = t.strip()
    while t.endswith("*") or t.endswith("&") or t.endswith("const"):
        t = t[:-5].strip() if t.endswith("const") else t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    return t


class Program:
    def __init__(self, tus=None):
        tus = tus or parse_all()
        self.ntu = len(tus)
        self.fns = {}
        self.classes = {}
        self.globals = {}
        self.enums = {}
        self.enumval = {}
        for tu in tus:
            for c in tu["classes"]:
                self.classes.setdefault(c["n"], c)
            for e in tu["enums"]:
                self.enums.setdefault(e["n"], e)
            for g in tu["globals"]:
                self.globals.setdefault(g["n"], g)
            for f in tu["functions"]:
                self.fns.setdefault(f["f"], f)
        self.methods = {}      # fid -> decl record
        self.fields = {}
        self.subs = {}
        for c in self.classes.values():
            for m in c["methods"]:
                m["cls"] = c["n"]
                self.methods[m["f"]] = m
            for f in c["fields"]:
                f["cls"] = c["n"]
                self.fields[f["n"]] = f
            for b in c["allbases"]:
                self.subs.setdefault(b, set()).add(c["n"])
        self.by_name = {}
        for fid, f in self.fns.items():
            self.by_name.setdefault(f["n"], []).append(f)
        self.connections = []
        self._collect_connections()

    # ------------------------------------------------------------------
    def cls(self, short):
        """class by (possibly unqualified) name"""
        if short in self.classes:
            return self.classes[short]
        c = [v for k, v in self.classes.items() if k.endswith("::" + short)]
        if len(c) == 1:
            return c[0]
        raise AnalysisError("class %s not found" % short)

    def fn(self, name, arity=None, required=True):
        c = self.by_name.get(name, [])
        if arity is not None:
            c = [f for f in c if len(f["params"]) == arity]
        if len(c) == 1:
            return c[0]
        if not c and not required:
            return None
        if not c:
            raise AnalysisError("anchor vanished: no definition of %s" % name)
        raise AnalysisError("ambiguous anchor %s" % name)

    def field(self, cls, name, type_re=None):
        """field by name, else (renamed) the only field of that class with a matching type"""
        c = self.cls(cls)
        full = c["n"] + "::" + name
        for f in c["fields"]:
            if f["n"] == full:
                return full
        if type_re:
            m = [f["n"] for f in c["fields"] if re.search(type_re, f["t"])]
            if len(m) == 1:
                return m[0]
        raise AnalysisError("anchor vanished: field %s::%s" % (cls, name))

    def is_signal(self, fid):
        m = self.methods.get(fid)
        return bool(m and m["mode"] == "qt_signal")

    def is_qobject(self, cls):
        c = self.classes.get(cls)
        return bool(c and "QObject" in c["allbases"])

    def overriders(self, fid, static_cls):
        """possible targets of a virtual call to fid on an object of static class static_cls (CHA)"""
        res = []
        cands = set([static_cls]) | self.subs.get(static_cls, set())
        for cn in sorted(cands):
            c = self.classes.get(cn)
            if not c:
                continue
            t = self._impl(fid, cn)
            if t and t not in res:
                # skip abstract classes (they cannot be the dynamic type)
                if not self._abstract(cn):
                    res.append(t)
        return res

    def _abstract(self, cn):
        c = self.classes.get(cn)
        if not c:
            return False
        pure = set()
        impl = set()
        for b in [cn] + c["allbases"]:
            bc = self.classes.get(b)
            if not bc:
                continue
            for m in bc["methods"]:
                if m["pure"]:
                    pure.add(m["f"])
                elif m["virt"]:
                    impl.update(m["ov"])
        return bool(pure - impl)

    def _impl(self, fid, cn):
        """the implementation of virtual fid that class cn uses"""
        chain = [cn]
        seen = set()
        while chain:
            x = chain.pop(0)
            if x in seen:
                continue
            seen.add(x)
            c = self.classes.get(x)
            if not c:
                continue
            for m in c["methods"]:
                if m["f"] == fid or fid in m["ov"]:
                    return m["f"]
            chain.extend(strip_ptr(b) for b in c["bases"])
        return None

    # ------------------------------------------------------------------
    def _collect_connections(self):
        for f in self.fns.values():
            for n in walk(f["body"]):
                if n.get("k") == "call" and n.get("n") == "QObject::connect":
                    c = self._conn(n, f)
                    if c:
                        self.connections.append(c)
            for i in f.get("inits", []):
                for n in walk(i["e"]):
                    if n.get("k") == "call" and n.get("n") == "QObject::connect":
                        c = self._conn(n, f)
                        if c:
                            self.connections.append(c)

    def _conn(self, n, f):
        sig = slot = None
        sender = n["args"][0] if n["args"] else None
        recv = None
        rest = n["args"][1:]
        for a in rest:
            s = fnref(a)
            if s and not sig:
                sig = s
                continue
            if s and not slot:
                slot = s
                continue
            lam = lamref(a)
            if lam:
                slot = lam
                continue
            st = strref(a)
            if st and st[:1] in "12" and "(" in st:
                if not sig:
                    sig = st
                elif not slot:
                    slot = st
                continue
            if sig and not slot and recv is None:
                recv = a
        if slot and slot[:1] in "12" and not slot.startswith("lambda"):
            # resolve SLOT(name(args)) in the receiver's class
            cls = None
            if recv is None and n.get("obj") is not None:
                cls = f.get("cls")
            elif recv is not None and recv.get("k") == "this":
                cls = f.get("cls")
            nm = re.match(r"[12]([A-Za-z_0-9]+)\(", slot)
            if nm and cls:
                r = self.find_method(cls, nm.group(1))
                if r:
                    slot = r
        if sig and sig[:1] == "2":
            nm = re.match(r"2([A-Za-z_0-9]+)\(", sig)
            t = etype(sender)
            if nm and t:
                if t in self.classes:
                    r = self.find_method(t, nm.group(1))
                    if r:
                        sig = r
                    else:
                        sig = t + "::" + nm.group(1)
                else:
                    sig = t + "::" + nm.group(1)
        return {"sig": sig, "slot": slot, "node": n, "fn": f["f"], "file": f["file"], "l": n["l"]}

    def find_method(self, cls, name):
        c = self.classes.get(cls)
        if not c:
            return None
        for b in [cls] + c["allbases"]:
            bc = self.classes.get(b)
            if not bc:
                continue
            for m in bc["methods"]:
                if m["n"].rsplit("::", 1)[-1] == name:
                    return m["f"]
        return None

    def slots_of(self, sig_name, cls=None):
        """fids of the slots connected to a signal given by qualified name"""
        r = []
        for c in self.connections:
            s = c["sig"] or ""
            if s.split("(")[0] == sig_name or s.split("(")[0].endswith("::" + sig_name):
                if c["slot"] and (cls is None or c["slot"].startswith(cls) or
                                  (self.fns.get(c["fn"], {}).get("cls") == cls)):
                    if c["slot"] not in r:
                        r.append(c["slot"])
        return r


def etype(e):
    if not e:
        return None
    return strip_ptr(e.get("t", "")) or None


def fnref(a):
    while isinstance(a, dict):
        if a.get("k") == "fn":
            return a["f"]
        if a.get("k") == "copy":
            a = a["e"]
            continue
        if a.get("k") == "call" and a.get("n", "").endswith("::of") and a["args"]:
            a = a["args"][0]
            continue
        if a.get("k") == "un" and a.get("op") == "&":
            a = a["e"]
            continue
        if a.get("k") == "call" and a.get("op") == "()" and a["args"]:
            a = a["args"][-1]
            continue
        return None
    return None


def lamref(a):
    while isinstance(a, dict):
        if a.get("k") == "lambda":
            return a["f"]
        if a.get("k") in ("copy",):
            a = a["e"]
            continue
        if a.get("k") == "ctor" and len(a["args"]) == 1:
            a = a["args"][0]
            continue
        return None
    return None


def strref(a):
    if isinstance(a, dict):
        if a.get("k") == "const" and a.get("t") == "str":
            return a["v"]
        if a.get("k") == "call" and a.get("n", "").endswith("qFlagLocation") and a["args"]:
            return strref(a["args"][0])
    return None


def walk(x):
    """all dict nodes of a tree, pre-order (lambda bodies are separate functions)"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            yield y
            stack.extend(reversed([v for v in y.values() if isinstance(v, (dict, list))]))
        elif isinstance(y, list):
            stack.extend(reversed([v for v in y if isinstance(v, (dict, list))]))
