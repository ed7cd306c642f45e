"""State, values and program representation for the abstract interpreter."""
import json
from fractions import Fraction
from poly import *
import poly as P


class Loc:
    __slots__ = ("obj", "path", "_h")

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = path
        self._h = hash((obj, path))

    def __eq__(self, o):
        return isinstance(o, Loc) and self.obj == o.obj and self.path == o.path

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return self._h

    def f(self, name):
        return Loc(self.obj, self.path + (name,))

    def __repr__(self):
        return "&%d%s" % (self.obj, "".join("." + str(x) for x in self.path))


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Unk:
    """unknown value of unknown/opaque kind"""

    def __repr__(self):
        return "unk"


UNK = Unk()


class Fn:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Fn) and o.id == self.id

    def __hash__(self):
        return hash(("fn", self.id))

    def __repr__(self):
        return "fn:" + str(self.id)


class Iter:
    """iterator: seq = Loc of container, elem = element object id / '*' (some anonymous element) /
    None (determined by pos); pos = number of elements before it (Poly) or None"""
    __slots__ = ("seq", "elem", "pos")

    def __init__(self, seq, elem, pos):
        self.seq = seq
        self.elem = elem
        self.pos = pos

    def __repr__(self):
        return "it(%r,%r,%r)" % (self.seq, self.elem, self.pos)

    def __eq__(self, o):
        return isinstance(o, Iter) and (self.seq, self.elem, self.pos) == (o.seq, o.elem, o.pos)

    def __hash__(self):
        return hash((self.seq, self.elem, self.pos))


class AnyElem:
    """pointer to some anonymous element of a container"""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def __eq__(self, o):
        return isinstance(o, AnyElem) and self.seq == o.seq

    def __hash__(self):
        return hash(("any", self.seq))

    def __repr__(self):
        return "any(%r)" % (self.seq,)


class Seq:
    __slots__ = ("kind", "et", "size", "fidx", "felem", "mats", "tmpl", "tsyms", "rows", "cols", "attr", "cut", "ptmpl", "otmpl")

    # cut, ptmpl: a loop has rewritten the elements before position cut; ptmpl describes those (other than felem),
    # otmpl the elements it has not reached; tmpl covers both
    def __init__(self, kind, et, size, fidx=None, felem=None, mats=(), tmpl=None, tsyms=frozenset(),
                 rows=None, cols=None, attr=None, cut=None, ptmpl=None, otmpl=None):
        self.kind = kind
        self.et = et
        self.size = size
        self.fidx = fidx
        self.felem = felem
        self.mats = mats
        self.tmpl = tmpl
        self.tsyms = tsyms
        self.rows = rows
        self.cols = cols
        self.attr = attr
        self.cut = cut
        self.ptmpl = ptmpl
        self.otmpl = otmpl

    def rep(self, **kw):
        d = {k: getattr(self, k) for k in Seq.__slots__}
        if "cut" not in kw and self.cut is not None and not kw.keys().isdisjoint(("tmpl", "size", "attr", "felem")):
            d["cut"] = d["ptmpl"] = d["otmpl"] = None
        d.update(kw)
        return Seq(**d)

    def __repr__(self):
        return "Seq(%s,size=%r,fidx=%r,felem=%r,mats=%r,tmpl=%r%s)" % (
            self.kind, self.size, self.fidx, self.felem, [(p, o) for p, o, _ in self.mats], self.tmpl,
            ",cut=%r,ptmpl=%r" % (self.cut, self.ptmpl) if self.cut is not None else "")


# conditions: True / False / ('c',kind,Poly) / ('b',key) / ('n',c) / ('and',a,b) / ('or',a,b)
def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "n":
        return c[1]
    if c[0] == "c":
        k, p = negate(c[1], c[2])
        return ("c", k, p)
    if c[0] == "and":
        return ("or", cnot(c[1]), cnot(c[2]))
    if c[0] == "or":
        return ("and", cnot(c[1]), cnot(c[2]))
    return ("n", c)


def iscond(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ("c", "b", "n", "and", "or"))


def mkcmp(kind, p):
    if p.isconst():
        c = p.cval()
        return {"<=": c <= 0, "<": c < 0, "=": c == 0, "!": c != 0}[kind]
    return ("c", kind, p)


class Frame:
    __slots__ = ("fid", "vars", "this")

    def __init__(self, fid, vars, this):
        self.fid = fid
        self.vars = vars
        self.this = this


class St:
    __slots__ = ("heap", "cons", "bools", "frames", "imp", "ghost", "globals", "focus", "trace")

    def fork(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.cons = self.cons
        s.bools = dict(self.bools)
        s.frames = [Frame(f.fid, f.vars, f.this) for f in self.frames]
        s.imp = self.imp
        s.ghost = dict(self.ghost)
        s.globals = dict(self.globals)
        s.focus = self.focus
        s.trace = self.trace
        return s

    @staticmethod
    def new():
        s = St.__new__(St)
        s.heap = {}
        s.cons = frozenset()
        s.bools = {}
        s.frames = []
        s.imp = frozenset()
        s.ghost = {}
        s.globals = {}
        s.focus = None
        s.trace = ()
        return s

    def ent(self, kind, p):
        if p.isconst():
            c = p.cval()
            return {"<=": c <= 0, "<": c < 0, "=": c == 0, "!": c != 0}[kind]
        return entails(self.cons, kind, p)

    def add(self, kind, p):
        """in place; False if infeasible"""
        if p.isconst():
            c = p.cval()
            return {"<=": c <= 0, "<": c < 0, "=": c == 0, "!": c != 0}[kind]
        r = add_constraint(self.cons, kind, p)
        if r is None:
            return False
        self.cons = r
        return True

    def bind(self, vid, loc):
        f = self.frames[-1]
        v = dict(f.vars)
        v[vid] = loc
        f.vars = v

    # raw heap access
    def get(self, loc, default=None):
        o = self.heap.get(loc.obj)
        if o is None:
            return default
        return o.get(loc.path, default)

    def put(self, loc, v):
        o = self.heap.get(loc.obj)
        o = dict(o) if o is not None else {}
        o[loc.path] = v
        self.heap[loc.obj] = o

    def clear_prefix(self, loc):
        o = self.heap.get(loc.obj)
        if o is None:
            self.heap[loc.obj] = {}
            return
        n = len(loc.path)
        self.heap[loc.obj] = {p: v for p, v in o.items()
                              if isinstance(p, str) or p[:n] != loc.path}

    def taint(self, why):
        self.imp = self.imp | {why}


class Prog:
    def __init__(self, path):
        d = json.load(open(path, encoding="latin-1"))
        self.functions = d["functions"]
        self.fdecls = d["fdecls"]
        self.records = d["records"]
        self.types = d["types"]
        self.globals = {g["id"]: g for g in d["globals"]}
        self.enums = d["enums"]
        for R in self.records.values():
            if "vecbase" in R and "fields" in R:        # a container as a base class is a member called $vec
                R["fields"].append({"n": "$vec", "t": R["vecbase"], "q": "$vec", "access": 0, "init": False})
        self.disambiguate()
        self.byname = {}
        for i, f in self.functions.items():
            f["id"] = i
            self.byname.setdefault(f["q"], []).append(f)

    def disambiguate(self):
        """same-named fields of different base classes of one record get distinct keys"""
        amb = set()
        for rid, R in self.records.items():
            if not R.get("bases"):
                continue
            where = {}
            seen, work = set(), [rid]
            while work:
                r = work.pop()
                if r in seen or r not in self.records:
                    continue
                seen.add(r)
                for x in self.records[r].get("fields", ()):
                    where.setdefault(x["n"], []).append(r)
                work.extend(self.records[r].get("bases", ()))
            for n, rs in where.items():
                if len(rs) > 1:
                    amb.update((r, n) for r in rs)
        if not amb:
            return
        for rid, R in self.records.items():
            for x in R.get("fields", ()):
                if (rid, x["n"]) in amb:
                    x["n"] = x["n"] + "@" + rid
        work = [f for f in self.functions.values()] + list(self.globals.values())
        while work:
            n = work.pop()
            if isinstance(n, dict):
                if "fr" in n and (n["fr"], n.get("f")) in amb:
                    n["f"] = n["f"] + "@" + n["fr"]
                work.extend(v for v in n.values() if isinstance(v, (dict, list)))
            else:
                work.extend(v for v in n if isinstance(v, (dict, list)))

    def T(self, t):
        return self.types[t] if t is not None and t >= 0 else {"s": "?", "k": "other"}

    def strip(self, t):
        """type index with references removed"""
        T = self.T(t)
        while T.get("k") in ("ref", "rref"):
            t = T["to"]
            T = self.T(t)
        return t
