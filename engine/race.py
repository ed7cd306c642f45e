"""Effect analysis of OpenMP regions.

Every access a parallel region makes (through all calls into the analysed sources) is given an access path: a root
(a variable declared outside the region, `this`, a global, or the target of a pointer) and fields / element steps.
Elements selected by exactly the work-sharing index are private to the iteration ("i").  A write that another
iteration can also reach is a race."""
from collections import namedtuple

Loc = namedtuple("Loc", "root path ty")      # ty: type id of the designated object
Ptr = namedtuple("Ptr", "locs")              # pointer, reference or iterator value
IDX = "I"
TOP = None
MAXDEPTH = 24

META = {"size", "empty", "rows", "cols", "capacity", "max_size", "length", "innerSize", "outerSize", "count", "dimensions"}
ELEM = {"operator[]", "at", "operator()", "coeff", "coeffRef", "col", "row"}
VIEW = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "front", "back", "c_str"}
SAME = {"array", "matrix", "derived", "transpose", "noalias", "const_cast_derived", "const_derived", "eval_view",
        "operator->", "operator*", "get", "value", "base", "real"}
SUB = {"segment", "head", "tail", "block", "topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "reshaped", "diagonal"}
PASS = {"std::move", "std::forward", "std::addressof", "std::ref", "std::as_const", "std::cref", "std::addressof"}
RANDOM = {"std::rand", "rand", "srand", "std::srand", "random", "drand48"}
JOIN = {"std::max", "std::min"}
SYNC = {"critical", "atomic", "ordered"}


class Access:
    __slots__ = ("kind", "loc", "where", "fn", "sync", "stack")

    def __init__(self, kind, loc, where, stack, sync):
        self.kind, self.loc, self.where, self.stack, self.sync = kind, loc, where, stack, sync


class Race:
    def __init__(self, d):
        self.d = d
        self.F, self.FD, self.T, self.R = d["functions"], d["fdecls"], d["types"], d["records"]
        self.unknown = set()
        self.regions = []
        self.maxsteps = 400000

    # ---- types
    def ty(self, t):
        return self.T[t] if t is not None and t < len(self.T) else {"k": "void", "s": "?"}

    def strip(self, t):
        while t is not None and self.ty(t)["k"] in ("ref", "rref", "lref"):
            t = self.ty(t)["to"]
        return t

    def pointee(self, t):
        x = self.ty(self.strip(t))
        return x.get("to") if x["k"] == "ptr" else None

    def tname(self, t):
        s = self.ty(self.strip(t))["s"]
        return s.replace("const ", "").strip()

    def isconst(self, t):
        return self.ty(t)["s"].lstrip().startswith("const ") or self.ty(t).get("const", False)

    # ---- finding the regions
    def run(self):
        for fid, f in sorted(self.F.items()):
            self.find(f.get("body"), f)
        return self

    def find(self, s, f):
        if isinstance(s, dict):
            if s.get("k") == "omp" and ("parallel" in s.get("dir", "")):
                self.region(s, f)
                return
            for v in s.values():
                self.find(v, f)
        elif isinstance(s, list):
            for v in s:
                self.find(v, f)

    def region(self, s, f):
        self.acc = []
        self.env = {}
        self.localids = set()
        self.content = {}
        self.stack = [f["q"]]
        self.cls = f.get("cls")
        self.steps = 0
        self.sync = 0
        self.fid0 = f
        priv = set()
        for c in s.get("clauses", ()):
            if c["k"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                for e in c.get("a", ()):
                    if e.get("k") == "var":
                        priv.add(e["id"])
        self.localids |= priv
        outer_aliases(self, f.get("body"), s)
        for _ in range(2):  # pointer contents of local variables settle on the second pass
            self.acc = []
            self.omp_body(s, first=True)
        self.regions.append((f, s, list(self.acc), self.conflicts()))

    def omp_body(self, s, first=False):
        d = s.get("dir", "")
        b = s.get("b")
        if "for" in d and isinstance(b, dict):
            while b and b.get("k") == "block" and len(b["s"]) == 1:
                b = b["s"][0]
            if b.get("k") == "for":
                for v in (b.get("init") or {}).get("s", ()) if b.get("init") else ():
                    self.localids.add(v["id"])
                    self.env[v["id"]] = IDX
                self.ev(b.get("c"))
                self.stmt(b.get("b"))
                return
        self.stmt(b)

    # ---- statements
    def stmt(self, s):
        if not s:
            return
        self.steps += 1
        k = s["k"]
        if k in ("block", "decls"):
            for x in s["s"]:
                self.stmt(x)
        elif k == "decl":
            self.decl(s)
        elif k == "expr":
            self.ev(s["e"])
        elif k == "if":
            self.stmt(s.get("init"))
            if s.get("cv"):
                self.decl(s["cv"])
            self.ev(s["c"])
            self.stmt(s.get("a"))
            self.stmt(s.get("b"))
        elif k in ("while", "do", "for"):
            self.stmt(s.get("init"))
            for _ in range(2):
                self.ev(s.get("c"))
                self.stmt(s.get("b"))
                self.ev(s.get("inc"))
        elif k == "forrange":
            r = self.ev(s["range"])
            v = s["var"]
            self.localids.add(v["id"])
            locs = []
            for l in self.locs(r):
                locs.append(self.step(l, "*", self.elemtype(l.ty, self.strip(v["t"]))))
            if self.ty(v["t"])["k"] in ("ref", "rref", "lref"):
                self.env[v["id"]] = Ptr(tuple(locs))
            else:
                for l in locs:
                    self.access("r", l, s.get("l"))
                self.store_local(v["id"], self.load(locs, v["t"]))
            for _ in range(2):
                self.stmt(s["b"])
        elif k == "return":
            v = self.ev(s.get("e")) if s.get("e") else TOP
            self.rets[-1].append(v) if self.rets else None
        elif k in ("switch",):
            self.ev(s["c"])
            self.stmt(s["b"])
        elif k in ("case", "default"):
            self.stmt(s["b"])
        elif k == "omp":
            d = s.get("dir", "")
            if d in SYNC or d.startswith(("critical", "atomic")):
                self.sync += 1
                self.stmt(s.get("b"))
                self.sync -= 1
            elif "for" in d:
                self.omp_body(s)
            else:
                self.stmt(s.get("b"))

    def decl(self, v):
        if v.get("static"):
            self.env[v["id"]] = Ptr((Loc(("global", self.stack[-1] + "::" + v["n"]), (), v["t"]),))
            return
        self.localids.add(v["id"])
        val = self.ev(v["init"]) if v.get("init") else TOP
        if self.ty(v["t"])["k"] in ("ref", "rref", "lref"):
            self.env[v["id"]] = val if isinstance(val, Ptr) else Ptr((Loc(("local", v["id"]), (), self.strip(v["t"])),))
        else:
            self.store_local(v["id"], val)

    def store_local(self, vid, val):
        old = self.content.get(vid)
        if val == IDX and old in (None, IDX):
            self.content[vid] = IDX
        elif isinstance(val, Ptr):
            self.content[vid] = join(old, val) if isinstance(old, Ptr) else val
        elif old == IDX:
            self.content[vid] = "top"

    rets = []

    # ---- locations
    def locs(self, v):
        return v.locs if isinstance(v, Ptr) else ()

    def step(self, l, x, ty):
        return Loc(l.root, (l.path + ((x, self.tname(l.ty)),))[:12], ty)

    def elemtype(self, t, dflt=None):
        x = self.ty(self.strip(t))
        return x.get("elem", x.get("to", dflt))

    def private(self, l):
        return l.root[0] == "local"

    def per_iter(self, l):
        return l.root[0] == "deref" and l.root[3] or any(s[0] == "[i]" for s in l.path)

    def access(self, kind, l, where):
        if self.private(l):
            return
        self.acc.append(Access(kind, l, where, tuple(self.stack), self.sync))

    def load(self, locs, t):
        """value read from locs (of type t)"""
        t = self.strip(t)
        out = None
        for l in locs:
            if l.root[0] == "local" and not l.path and l.root[1] in self.content:
                c = self.content[l.root[1]]
                out = c if out is None else join(out, c)
        if out is not None:
            return out if out != "top" else TOP
        pt = self.pointee(t)
        x = self.ty(t)
        if pt is None and not isiter(x["s"]):
            if x["k"] == "rec" and any(l.root[0] == "local" for l in locs):
                return Ptr(tuple(locs))
            return Ptr(tuple(locs)) if x["k"] == "rec" else TOP
        res = []
        for l in locs:
            if isiter(x["s"]) and l.root[0] == "iter":
                res.append(l)
                continue
            p = self.per_iter(l)
            tgt = pt if pt is not None else None
            name = self.tname(tgt) if tgt is not None else iter_target(x["s"])
            res.append(Loc(("deref", name, (l.root, l.path) if p else None, bool(p)), (), tgt))
        return Ptr(tuple(res))

    # ---- expressions: an lvalue or pointer evaluates to Ptr(locations)
    def ev(self, e):
        if not isinstance(e, dict):
            return TOP
        self.steps += 1
        if self.steps > self.maxsteps:
            self.unknown.add("region too large")
            return TOP
        k = e.get("k")
        m = getattr(self, "e_" + k, None) if k else None
        if m:
            return m(e)
        if k in ("int", "float", "null", "str", "zero", "fn"):
            return TOP
        for x in e.get("a", ()) if isinstance(e.get("a"), list) else ():
            self.ev(x)
        if isinstance(e.get("e"), dict):
            return self.ev(e["e"])
        return TOP

    def e_var(self, e):
        i = e["id"]
        if e.get("global"):
            return Ptr((Loc(("global", e.get("q", e["n"])), (), e["t"]),))
        v = self.env.get(i)
        if v is IDX or v == IDX:
            self.content.setdefault(i, IDX)
            return Ptr((Loc(("local", i), (), e["t"]),))
        if v is not None:
            return v
        if i in self.localids:
            return Ptr((Loc(("local", i), (), e["t"]),))
        if e.get("isref"):
            return Ptr((Loc(("deref", self.tname(e["t"]), None, False), (), self.strip(e["t"])),))
        return Ptr((Loc(("var", i, e["n"]), (), e["t"]),))

    def e_this(self, e):
        return self.this[-1] if self.this else Ptr((Loc(("this",), (), self.pointee(e["t"])),))

    this = []

    def e_mem(self, e):
        b = self.ev(e["b"])
        out = []
        for l in self.locs(b):
            out.append(Loc(l.root, (l.path + ((e["f"], self.tname(l.ty) if l.ty is not None else e["q"].rsplit("::", 1)[0]),))[:12], e["t"]))
        if not out:
            # member of a value
            return Ptr((Loc(("local", "tmp"), (), e["t"]),))
        if e.get("isref"):
            return self.load([Loc(l.root, l.path, None) for l in out], e["t"]) or Ptr(tuple(out))
        return Ptr(tuple(out))

    def e_load(self, e):
        v = self.ev(e["e"])
        for l in self.locs(v):
            self.access("r", l, e.get("l"))
        return self.load(self.locs(v), e["t"])

    def e_cast(self, e):
        v = self.ev(e["e"])
        if e.get("ck") in ("ArrayToPointerDecay",):
            return Ptr(tuple(self.step(l, "*", self.elemtype(l.ty)) for l in self.locs(v)))
        return v

    def e_un(self, e):
        v = self.ev(e["e"])
        op = e["op"]
        if op in ("++", "--"):
            for l in self.locs(v):
                self.access("w", l, e.get("l"))
                if l.root[0] == "local" and not l.path:
                    c = self.content.get(l.root[1])
                    if c == IDX:
                        self.content[l.root[1]] = "top"
            return v
        if op in ("&", "*", "__extension__"):
            return v
        return TOP

    def e_assign(self, e):
        b = self.ev(e["b"])
        a = self.ev(e["a"])
        for l in self.locs(a):
            self.access("w", l, e.get("l"))
            if l.root[0] == "local" and not l.path:
                self.store_local(l.root[1], b)
        return a

    def e_cassign(self, e):
        self.ev(e["b"])
        a = self.ev(e["a"])
        for l in self.locs(a):
            self.access("w", l, e.get("l"))
            self.access("r", l, e.get("l"))
            if l.root[0] == "local" and not l.path and self.content.get(l.root[1]) == IDX:
                self.content[l.root[1]] = "top"
        return a

    def e_bin(self, e):
        a, b = self.ev(e["a"]), self.ev(e["b"])
        if e["op"] in ("+", "-") and isinstance(a, Ptr):
            return self.advance(a, b if e["op"] == "+" else TOP)
        if e["op"] == "," or e["op"] in (".*", "->*"):
            return b
        return TOP

    def e_cond(self, e):
        self.ev(e["c"])
        a, b = self.ev(e["a"]), self.ev(e["b"])
        return join(a, b)

    def e_idx(self, e):
        a, b = self.ev(e["a"]), self.ev(e["b"])
        out = []
        for l in self.locs(a):
            if l.path and l.path[-1][0] == "*":
                out.append(Loc(l.root, l.path[:-1] + (("[i]" if b == IDX else "*", l.path[-1][1]),), e["t"]))
            elif l.root[0] == "deref" and not l.path:
                out.append(Loc(l.root, (("[i]" if b == IDX else "*", l.root[1]),), e["t"]))
            else:
                out.append(self.step(l, "[i]" if b == IDX else "*", e["t"]))
        return Ptr(tuple(out))

    def e_ilist(self, e):
        for x in e["a"]:
            self.use(self.ev(x), e)
        return TOP

    def e_lambda(self, e):
        return ("lambda", e["id"])

    def e_new(self, e):
        self.ev(e.get("init"))
        return Ptr((Loc(("local", "new" + str(e.get("l"))), (), e.get("at")),))

    def e_delete(self, e):
        for l in self.locs(self.ev(e["e"])):
            self.access("w", l, e.get("l"))
        return TOP

    def use(self, v, e):
        for l in self.locs(v):
            self.access("r", l, e.get("l"))

    def e_ctor(self, e):
        f = self.F.get(e["id"])
        args = [self.ev(a) for a in e["a"]]
        if e.get("copy"):
            self.use(args[0], e) if args else None
            return Ptr(tuple(self.iterval(self.locs(args[0]), None))) if args and isiter(self.ty(self.strip(e["t"]))["s"]) else TOP
        if f is not None and f.get("body"):
            tmp = Ptr((Loc(("local", "tmp"), (), e["t"]),))
            for i in f.get("inits", ()):
                pass
            self.inline(f, tmp, args, e)
            return TOP
        self.extern(e, self.FD.get(e["id"], {}), None, args, ctor=True)
        s = self.ty(self.strip(e["t"]))["s"]
        if isiter(s) and args:
            return args[0]
        return TOP

    def e_call(self, e):
        obj = self.ev(e["obj"]) if e.get("obj") is not None else None
        args = [self.ev(a) for a in e["a"]]
        if "fe" in e:
            fe = self.ev(e["fe"])
            if isinstance(fe, tuple) and fe and fe[0] == "lambda" and fe[1] in self.F:
                return self.inline(self.F[fe[1]], None, args, e)
            # user's function: writes through non-const pointers only
            for a, x in zip(args, e["a"]):
                self.pass_arg(a, x.get("t"), e)
            return TOP
        f = self.F.get(e["id"])
        if obj is not None and isinstance(obj, tuple) and not isinstance(obj, Ptr) and obj and obj[0] == "lambda":
            if obj[1] in self.F:
                return self.inline(self.F[obj[1]], None, args, e)
        if f is not None and f.get("body"):
            return self.inline(f, obj, args, e)
        return self.extern(e, self.FD.get(e["id"], {}), obj, args)

    def pass_arg(self, v, t, e):
        """an argument handed to code that is not analysed"""
        if t is None:
            self.use(v, e)
            return
        x = self.ty(t)
        if x["k"] == "ptr" or x["k"] in ("ref", "lref", "rref"):
            for l in self.locs(v):
                self.access("r" if self.isconst(x["to"]) else "w", l, e.get("l"))
        else:
            self.use(v, e)

    def inline(self, f, obj, args, e):
        if len(self.stack) > MAXDEPTH or self.stack.count(f["q"]) > 2:
            return TOP
        saved = {}
        for p, a in zip(f["params"], args):
            saved[p["id"]] = (self.env.get(p["id"]), self.content.get(p["id"]))
            self.localids.add(p["id"])
            self.content.pop(p["id"], None)
            self.env.pop(p["id"], None)
            if self.ty(p["t"])["k"] in ("ref", "rref", "lref"):
                self.env[p["id"]] = a if isinstance(a, Ptr) else Ptr((Loc(("local", p["id"]), (), self.strip(p["t"])),))
                if a == IDX:
                    self.content[p["id"]] = IDX
            else:
                if self.ty(self.strip(p["t"]))["k"] == "rec" and not isiter(self.ty(self.strip(p["t"]))["s"]):
                    self.use(a, e)
                else:
                    self.store_local(p["id"], a)
        self.this = self.this + [obj if isinstance(obj, Ptr) else Ptr((Loc(("local", "tmp"), (), f.get("clst")),))] if f.get("cls") and not f.get("static") else self.this + [Ptr((Loc(("this",), (), None),))] if not f.get("cls") else self.this + [Ptr(())]
        self.stack.append(f["q"])
        self.rets = self.rets + [[]]
        if f.get("ctor"):
            for i in f.get("inits", ()):
                self.ev(i.get("e"))
        self.stmt(f.get("body"))
        r = TOP
        for v in self.rets[-1]:
            r = v if r is TOP else join(r, v)
        self.rets = self.rets[:-1]
        self.this = self.this[:-1]
        self.stack.pop()
        for pid, (a, c) in saved.items():
            for d, v in ((self.env, a), (self.content, c)):
                if v is None:
                    d.pop(pid, None)
                else:
                    d[pid] = v
        if f.get("rt") is not None and self.ty(f["rt"])["k"] not in ("ref", "lref", "rref", "ptr") and not isiter(self.ty(f["rt"])["s"]):
            self.use(r, e)
            return IDX if r == IDX else TOP
        return r

    def extern(self, e, fd, obj, args, ctor=False):
        q = e.get("q") or fd.get("q", "?")
        n = q.rsplit("::", 1)[-1]
        w = e.get("l")
        if q in RANDOM:
            self.access("w", Loc(("global", q + " state"), (), None), w)
            return TOP
        if q in PASS:
            return args[0] if args else TOP
        if q in JOIN:
            for a in args:
                self.use(a, e)
            return join(args[0], args[1]) if len(args) == 2 else TOP
        pt = fd.get("pt", ())
        if obj is not None and not ctor:
            os_ = self.locs(obj)
            it = isiter(fd.get("clsname", "") or q) or any(isiter(self.ty(self.strip(l.ty))["s"]) for l in os_ if l.ty is not None)
            if n in ("operator->", "operator*") and it:
                for l in os_:
                    self.access("r", l, w)
                tgt = self.pointee(e["t"]) if self.ty(self.strip(e["t"]))["k"] == "ptr" else self.strip(e["t"])
                out = [self.retype(x, tgt) for x in self.iterval(os_, tgt)]
                return Ptr(tuple(out))
            if n in META:
                for l in os_:
                    self.access("r", self.step(l, "#size", None), w)
                return TOP
            if n == "operator()" and q.startswith("std::"):
                if not q.startswith(("std::function", "std::less", "std::greater", "std::equal", "std::hash", "std::plus")):
                    for l in os_:
                        self.access("w", l, w)
                for a, t in list(zip(args, pt)) + [(a, None) for a in args[len(pt):]]:
                    self.pass_arg(a, t, e)
                return TOP
            if n in ELEM:
                idx = any(a == IDX for a in args)
                for a in args:
                    self.use(a, e)
                tt = self.strip(e["t"])
                # elements of std::vector<bool> share their words
                return Ptr(tuple(self.step(l, "[i]" if idx and "vector<bool" not in self.tname(l.ty) and "_Bit" not in self.tname(l.ty)
                                           else "*", tt) for l in os_))
            if n in VIEW:
                if n in ("front", "back"):
                    return Ptr(tuple(self.step(l, "*", self.strip(e["t"])) for l in os_))
                return Ptr(tuple(self.step(l, "*", self.elemtype(l.ty)) for l in os_))
            if n in SUB:
                for a in args:
                    self.use(a, e)
                return Ptr(tuple(self.step(l, "*", e["t"]) for l in os_))
            if n in SAME:
                return Ptr(tuple(os_))
            if n in ("operator++", "operator--", "operator+=", "operator-=") and it:
                for l in os_:
                    self.access("w", l, w)
                return obj
            if n in ("operator+", "operator-") and it:
                return self.advance(Ptr(tuple(self.iterval(os_, None))), args[0] if args and n == "operator+" else TOP)
            for a, t in list(zip(args, pt)) + [(a, None) for a in args[len(pt):]]:
                self.pass_arg(a, t, e)
            if fd.get("const") or n.startswith("operator==") or n.startswith("operator!="):
                for l in os_:
                    self.access("r", l, w)
                return TOP
            for l in os_:
                self.access("w", l, w)
                if n == "operator=" and l.root[0] == "local" and not l.path and args:
                    self.store_local(l.root[1], args[0])
            return Ptr(tuple(os_))
        if q.startswith(("std::thread::", "std::async")):
            self.unknown.add(q)
        for a, t in list(zip(args, pt)) + [(a, None) for a in args[len(pt):]]:
            self.pass_arg(a, t, e)
        return TOP

    def iterval(self, os_, tgt):
        """what the iterators kept in (or denoted by) os_ designate"""
        out = []
        for l in os_:
            stored = l.ty is not None and isiter(self.ty(self.strip(l.ty))["s"])
            if l.root[0] == "local" and not l.path and isinstance(self.content.get(l.root[1]), Ptr):
                out += self.content[l.root[1]].locs
            elif not stored:
                out.append(l)
            else:
                p = self.per_iter(l)
                name = self.tname(tgt) if tgt is not None else iter_target(self.ty(self.strip(l.ty))["s"])
                out.append(Loc(("deref", name, (l.root, l.path) if p else None, bool(p)), (), tgt))
        return list(dict.fromkeys(out))

    def advance(self, a, by):
        if by == IDX:
            return Ptr(tuple(Loc(l.root, l.path[:-1] + (("[i]", l.path[-1][1]),), l.ty) if l.path and l.path[-1][0] == "*" else l for l in a.locs))
        return a

    def retype(self, l, t):
        return Loc(l.root, l.path, t)

    # ---- conflicts
    def conflicts(self):
        out, seen = [], set()
        for a in self.acc:
            if a.kind != "w":
                continue
            for b in self.acc:
                if a.sync and b.sync:
                    continue
                if not self.overlap(a.loc, b.loc):
                    continue
                key = (a.where, show(a.loc))
                if key in seen:
                    continue
                seen.add(key)
                out.append((a, b))
        return out

    def overlap(self, a, b):
        """can two different iterations reach a common object through a and b?"""
        if a.root == b.root:
            if a.root[0] == "deref" and a.root[3]:
                return False          # element of this iteration on both sides
            return self.comparable(a.path, b.path)
        if a.root[0] == "deref" and b.root[0] == "deref":
            if a.root[1] == b.root[1]:
                return self.comparable(a.path, b.path)
            return self.inside(a, b) or self.inside(b, a)
        if a.root[0] == "deref":
            return self.inside(a, b)
        if b.root[0] == "deref":
            return self.inside(b, a)
        return False

    def comparable(self, p, q):
        for x, y in zip(p, q):
            if x[0] == "[i]" and y[0] == "[i]":
                return False
            if x[0] == "#size" or y[0] == "#size":
                return x[0] == y[0]
            if x[0] in ("*", "[i]") and y[0] in ("*", "[i]"):
                continue
            if x[0] != y[0]:
                return False
        return True

    def inside(self, d, l):
        """the target of pointer d (a d.root[1]) may be an object on the path of l"""
        t = d.root[1]
        for i, (s, owner) in enumerate(l.path):
            if owner == t and self.comparable(d.path, l.path[i:]):
                return True
        return l.ty is not None and self.tname(l.ty) == t


def outer_aliases(R, body, region):
    """references and pointers declared before the region: what they designate"""
    def go(s):
        if s is region or not isinstance(s, dict):
            return s is region
        if s.get("k") in ("block", "decls"):
            for x in s["s"]:
                if go(x):
                    return True
            return False
        if s.get("k") == "decl":
            if R.ty(s["t"])["k"] in ("ref", "rref", "lref") and s.get("init"):
                v = R.ev(s["init"])
                if isinstance(v, Ptr):
                    R.env[s["id"]] = v
            return False
        for key in ("a", "b"):
            if isinstance(s.get(key), dict) and go(s[key]):
                return True
        return False
    R.stack = ["?"]
    go(body)
    R.stack = [R.fid0["q"]]
    R.acc = []


def isiter(s):
    return "iterator" in s or "_Iterator" in s or "Iterator" in s.split("<")[0]


def iter_target(s):
    i = s.find("<")
    return s[i + 1:s.rfind(">")].split(",")[0].strip() if i >= 0 else s


def join(a, b):
    if a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return Ptr(tuple(dict.fromkeys(a.locs + b.locs)))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return a if isinstance(a, Ptr) else b
    return TOP


def show(l):
    r = l.root
    s = {"this": "this", "local": "local"}.get(r[0]) or (r[2] if r[0] == "var" else r[1] if r[0] == "global" else ("*(%s)" % r[1]) + ("@own" if r[3] else ""))
    for x in l.path:
        s += x[0] if x[0].startswith("[") else "[*]" if x[0] == "*" else "." + x[0]
    return s
