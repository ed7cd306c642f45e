"""Abstract interpreter over the extracted program (see DESIGN.md)."""
import sys, os, time
from fractions import Fraction
from core import *
import poly as P
import models

sys.setrecursionlimit(20000)


DBG = os.environ.get('VPDBG')
SMALL = 4  # arrays of at most this many numbers are tracked component by component


class Stuck(Exception):
    pass


class Interp:
    MAXSTATES = 400

    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or {}
        self.nobj = 1
        self.reports = {}
        self.asserts = {}
        self.undef = None
        self.called = set()
        self.unsupported = {}
        self.events = {}
        self.depth = 0
        self.guardlog = None
        self.loops = 0
        self.budget = self.cfg.get("budget", 4000000)
        self.steps = 0
        self.nan = self.cfg.get("nan", False)
        self.finite = self.cfg.get("finite", False)
        self.curloc = "?"

    # ------------------------------------------------------------------ reports
    def report(self, kind, st, loc, msg):
        key = (kind, loc, msg)
        r = self.reports.get(key)
        definite = not st.imp
        if r is None:
            self.reports[key] = {"definite": definite, "imp": sorted(st.imp), "trace": st.trace,
                                 "stack": [self.fname(f.fid) for f in st.frames], "cons": st.cons}
        elif definite and not r["definite"]:
            r["definite"] = True
            r["imp"] = []
            r["trace"] = st.trace
            r["stack"] = [self.fname(f.fid) for f in st.frames]
            r["cons"] = st.cons

    def unsup(self, st, what):
        self.unsupported[what] = self.unsupported.get(what, 0) + 1
        st.taint(what)

    def taint(self, st, what):
        self.unsup(st, what)

    def user_site(self, st):
        return self.curloc

    def fname(self, fid):
        f = self.p.functions.get(fid)
        return f["q"] if f else str(fid)

    # ------------------------------------------------------------------ objects
    def new_obj(self, st, t, mode="undef"):
        self.nobj += 1
        o = self.nobj
        d = {"#t": t}
        if mode == "unk":
            d["#u"] = True
        elif mode == "zero":
            d["#z"] = True
        st.heap[o] = d
        return o

    def kindof(self, t):
        return self.p.T(t).get("k")

    def fresh_of(self, st, t, name="v"):
        T = self.p.T(self.p.strip(t))
        k = T.get("k")
        if k in ("int", "enum"):
            return fresh("int", name)
        if k == "uint":
            x = fresh("int", name)
            st.add("<=", -x)
            return x
        if k == "float":
            return fresh("real", name)
        if k == "bool":
            return ("b", fresh("int", "bool").single())
        if k == "ptr":
            o = self.new_obj(st, T["to"], "unk")
            return Loc(o)
        if k == "rec" and models.is_iter(T["s"]):
            return UNK
        return UNK

    def zero_of(self, t):
        k = self.kindof(self.p.strip(t))
        if k in ("int", "uint", "float", "enum"):
            return ZERO
        if k == "bool":
            return False
        if k == "ptr":
            return NULL
        return UNK

    def load(self, st, loc, t, where=None):
        o = st.heap.get(loc.obj)
        if o is None:
            self.unsup(st, "load from unknown object")
            return self.fresh_of(st, t)
        if o.get("#dead"):
            self.report("uaf", st, where or self.curloc, "access to an erased element")
        v = o.get(loc.path)
        if v is None:
            # whole-object scalar inside unknown parent?
            if o.get("#u"):
                v = self.fresh_of(st, t, loc.path[-1] if loc.path else "v")
                st.put(loc, v)
                return v
            if o.get("#z"):
                v = self.zero_of(t)
                st.put(loc, v)
                return v
            v = UNDEF
        if v is UNDEF:
            if self.undef is not None:      # part of a vector: a read only when the part is
                self.undef.append(where or self.curloc)
                return self.fresh_of(st, t, "undef")
            if not o.get("#anon"):
                self.report("uninit", st, where or self.curloc,
                        "read of uninitialised " + (".".join(map(str, loc.path)) or "object"))
            v = self.fresh_of(st, t, "undef")
            st.put(loc, v)
            return v
        if isinstance(v, AnyElem):
            e = self.anon_instance(st, v.seq, None)
            v = Loc(e)
            st.put(loc, v)
        elif isinstance(v, Iter) and v.elem == "*":
            e = self.anon_instance(st, v.seq, None)
            v = Iter(v.seq, e, None)
            st.put(loc, v)
        return v

    def rd(self, st, v, t):
        """value of v which may be an lvalue (Loc of a scalar object) or already a value"""
        if isinstance(v, Loc):
            T = self.p.T(self.p.strip(t)) if t is not None else {}
            if T.get("k") == "ptr":
                o = st.heap.get(v.obj)
                # pointer prvalue vs lvalue is decided by caller; here: lvalue
                return self.load(st, v, t)
            return self.load(st, v, t if t is not None else -1)
        return v

    # ------------------------------------------------------------------ sequences
    def seq_t(self, t):
        return models.seq_info(self.p, t)

    def getseq(self, st, loc):
        v = st.get(loc)
        if isinstance(v, Seq):
            if v.cut is not None:
                return self.collapse(st, loc, v)
            return v
        o = st.heap.get(loc.obj)
        if o is None:
            return None
        t = self.type_at(st, loc)
        info = self.seq_t(t) if t is not None else None
        if info is None:
            return None
        unk = o.get("#u")
        s = self.make_seq(st, loc, info, unk)
        return s

    def make_seq(self, st, loc, info, unk, zero=False):
        kind, et, n = info
        if n is not None:
            size = Poly.const(n) if isinstance(n, int) else n
        elif unk:
            size = fresh("int", "size")
            st.add("<=", -size)
        else:
            size = ZERO
        s = Seq(kind, et, size)
        st.put(loc, s)
        s = self.fill_new(st, loc, s, unk, zero)
        return s

    def small(self, s):
        """arrays of a few numbers, all of whose components are tracked"""
        return s.kind in ("array", "eigen") and s.size.isconst() and 1 <= s.size.cval() <= self.cfg.get("small", SMALL) and \
            self.kindof(s.et) in ("float", "int", "uint", "bool")

    def keeps(self, s):
        """containers whose materialised elements stay apart from the template"""
        lim = self.cfg.get("exact", 2)
        return self.small(s) or s.felem is None and s.size.isconst() and 1 <= s.size.cval() <= lim and all(m[0].isconst() for m in s.mats) and \
            (lim > 2 or s.size.cval() == len(s.mats) and s.kind in ("vector", "list", "array") and self.kindof(s.et) == "rec")

    def kept(self, s, path, d):
        """materialised elements of s (a field of object d) that stay apart from the template"""
        if not s.mats:
            return ()
        if self.keeps(s):
            return s.mats
        if path and path[-1] == "$vec":
            # an index stored in the object that is the container
            ix = {v.key for p, v in d.items() if not isinstance(p, str) and p[:-1] == path[:-1] and isinstance(v, Poly) and v.isint()}
            return [m for m in s.mats if m[0].key in ix]
        return ()

    def collapse(self, st, loc, v):
        """once a loop has rewritten all the elements, only the rewritten form remains"""
        cut = v.cut
        if v.fidx is not None and st.ent("=", v.fidx - cut):
            cut = cut + 1
        if st.ent("<=", v.size - cut):
            v = v.rep(tmpl=v.ptmpl, cut=None, ptmpl=None, otmpl=None)
            st.put(loc, v)
        return v

    def fill_new(self, st, loc, s, unk, zero=False):
        """give a freshly sized sequence its template and (scalar arrays) its focus component"""
        K = st.ghost.get("K")
        if self.small(s):
            mats = []
            for i in range(int(s.size.cval())):
                o = self.new_obj(st, s.et, "unk" if unk else ("zero" if zero else "undef"))
                if unk:
                    st.put(Loc(o), self.fresh_of(st, s.et, "el"))
                d = dict(st.heap[o])
                d["#own"] = loc
                st.heap[o] = d
                mats.append((Poly.const(i), o, None))
            s = s.rep(tmpl=self.new_obj(st, s.et, "undef"), mats=tuple(mats), attr="dim", felem=None, fidx=None)
            st.put(loc, s)
            return s
        t = self.new_obj(st, s.et, "unk" if unk else ("zero" if zero else "undef"))
        syms = frozenset()
        if unk and self.kindof(s.et) in ("float", "int", "uint"):
            x = fresh("real" if self.kindof(s.et) == "float" else "int", "anon")
            st.put(Loc(t), x)
            syms = frozenset([x.single()])
        fe = None
        if K is not None and s.size != ZERO and self.kindof(s.et) in ("float", "int", "uint") and \
                s.kind in ("array", "vector", "eigen") and st.ent("<", K - s.size):
            fe = self.new_obj(st, s.et, "unk" if unk else ("zero" if zero else "undef"))
            if unk:
                st.put(Loc(fe), self.fresh_of(st, s.et, "foc"))
        s = s.rep(tmpl=t, tsyms=syms, felem=fe, fidx=K if fe else None,
                  attr="dim" if self.kindof(s.et) in ("float", "int", "uint") else None)
        if fe:
            st.heap[fe] = dict(st.heap[fe])
            st.heap[fe]["#own"] = loc
        st.put(loc, s)
        return s

    def type_at(self, st, loc):
        o = st.heap.get(loc.obj)
        t = self.p.strip(o.get("#t", -1))
        for f in loc.path:
            t = self.field_type(t, f)
            if t is None:
                return None
            t = self.p.strip(t)
        return t

    def field_type(self, t, f):
        T = self.p.T(t)
        if T.get("s", "").startswith("std::pair<"):
            ta = T.get("targs")
            return ta[0]["t"] if f == "first" else ta[1]["t"]
        rid = T.get("rid")
        seen = set()
        st = [rid]
        while st:
            r = st.pop()
            if r in seen or r is None:
                continue
            seen.add(r)
            R = self.p.records.get(r)
            if not R:
                continue
            for x in R.get("fields", ()):
                if x["n"] == f:
                    return x["t"]
            st.extend(R.get("bases", ()))
        return None

    def anon_instance(self, st, seqloc, pos):
        """materialise an anonymous element (pos may be None = unknown position)"""
        s = self.getseq(st, seqloc)
        ren = {}
        group = [(seqloc, s)]
        if s.attr == "dim" and pos is not None:
            for ob, d in list(st.heap.items()):
                for path, v in d.items():
                    if isinstance(v, Seq) and v.attr == "dim" and v is not s and v.tsyms and v.tmpl is not None:
                        if not self.small(v) and not any(p == pos for p, _, _ in v.mats):
                            group.append((Loc(ob, path), v))
        syms = set()
        for _, g in group:
            syms |= g.tsyms
        for a in syms:
            A = P.ATOMS[a]
            ren[a] = fresh(A.kind, A.name)
        if ren:
            extra = []
            for k, p in st.cons:
                if any(x in ren for m in p.t for x in m):
                    c = cnorm(k, p.subst(ren))
                    if c not in (True, False):
                        extra.append(c)
            if extra:
                st.cons = st.cons | frozenset(extra)
        res = None
        for gl, g in group:
            if g.tmpl is None:
                e = self.new_obj(st, g.et, "unk")
            elif g.cut is not None and pos is not None and st.ent("<", pos - g.cut):
                e = self.copy_obj(st, g.ptmpl, ren)
            elif g.cut is not None and g.otmpl is not None and pos is not None and st.ent("<=", g.cut - pos):
                e = self.copy_obj(st, g.otmpl, ren)
            else:
                e = self.copy_obj(st, g.tmpl, ren)
            d = st.heap[e]
            d["#own"] = gl
            d["#anon"] = True
            if pos is not None:
                st.put(gl, g.rep(mats=g.mats + ((pos, e, st.heap[e]),)))
            if gl == seqloc:
                res = e
        if s.attr and isinstance(s.attr, tuple) and s.attr[0] == "sorted" and pos is not None:
            self.assume_sorted(st, seqloc, pos, res)
        return res

    def assume_sorted(self, st, seqloc, pos, e):
        s = self.getseq(st, seqloc)
        cmpf = s.attr[1]
        if isinstance(cmpf, Loc) and cmpf.obj not in st.heap:
            return
        others = []
        if s.felem is not None:
            others.append((s.fidx, s.felem))
        for p, o, _ in s.mats:
            if o != e:
                others.append((p, o))
        for q, o in others:
            if st.ent("<", pos - q):
                a, b = o, e
            elif st.ent("<", q - pos):
                a, b = e, o
            else:
                continue
            # !cmp(a,b) where a comes after b
            rs = self.call_value(st.fork(), cmpf, [Loc(a), Loc(b)])
            if len(rs) != 1:
                continue
            s2, v = rs[0]
            if isinstance(v, Loc):
                v = self.load(s2, v, None)
            if v is True:
                continue
            if iscond(v) and v is not False:
                c = cnot(v)
                # adopt heap changes (lazy materialisation) and the fact
                st.heap = s2.heap
                st.cons = s2.cons
                if c[0] == "c":
                    st.add(c[1], c[2])

    def copy_obj(self, st, src, ren=None):
        """fresh object with the contents of src"""
        d = st.heap[src]
        self.nobj += 1
        o = self.nobj
        nd = {}
        st.heap[o] = nd
        for p, v in list(d.items()):
            if p in ("#own", "#anon", "#dead"):
                continue
            nd[p] = self.copy_val(st, v, ren, Loc(o, p) if not isinstance(p, str) else None)
        return o

    def copy_val(self, st, v, ren=None, newloc=None):
        if isinstance(v, Poly):
            return v.subst(ren) if ren else v
        if isinstance(v, Seq):
            s = v
            fe = s.felem
            if fe is not None:
                fe = self.copy_obj(st, fe, ren)
                if newloc is not None:
                    st.heap[fe]["#own"] = newloc
            if ren:
                s = s.rep(size=s.size.subst(ren), fidx=s.fidx.subst(ren) if s.fidx is not None else None)
            mats = []
            for p, o, orig in s.mats:
                if (s.attr == "dim" or self.cfg.get("anyorder")) and o in st.heap:
                    no = self.copy_obj(st, o, ren)
                    st.heap[no]["#anon"] = True
                    if newloc is not None:
                        st.heap[no]["#own"] = newloc
                    mats.append((p, no, st.heap[no] if orig is not None and st.heap.get(o) is orig else None))
            return s.rep(felem=fe, mats=tuple(mats))
        if ren and iscond(v) and v not in (True, False) and v[0] == "c":
            return mkcmp(v[1], v[2].subst(ren))
        return v

    def slice_fields(self, f, *locs):
        """the fields a base-class copy touches, when an object of a derived class is sliced"""
        rid = f.get("cls") if f else None
        R = self.p.records.get(rid)
        if R is None:
            return None
        names, seen, work = set(), set(), [rid]
        while work:
            r = work.pop()
            if r in seen or r not in self.p.records:
                continue
            seen.add(r)
            names.update(x["n"] for x in self.p.records[r].get("fields", ()))
            work.extend(self.p.records[r].get("bases", ()))
        return names

    def copy_struct(self, st, dst, src, only=None):
        """assign the object at src to dst (Locs); only: names of the fields of a sliced copy"""
        o = st.heap.get(src.obj)
        if o is None:
            return
        if o.get("#dead"):
            self.report("uaf", st, self.curloc, "copy from an erased element")
        if st.heap.get(dst.obj, {}).get("#dead"):
            self.report("uaf", st, self.curloc, "write to an erased element")
        if src == dst:
            return
        n = len(src.path)
        items = [(p, v) for p, v in o.items() if not isinstance(p, str) and p[:n] == src.path]
        if only is not None and all(len(p) == n or p[n] in only for p, _ in items):
            only = None if all(len(p) > n for p, _ in items) and not any(
                not isinstance(p, str) and p[:len(dst.path)] == dst.path and len(p) > len(dst.path) and p[len(dst.path)] not in only
                for p in st.heap.get(dst.obj, {})) else only
        if only is not None:
            m = len(dst.path)
            items = [(p, v) for p, v in items if len(p) > n and p[n] in only]
            st.heap[dst.obj] = {p: v for p, v in st.heap.get(dst.obj, {}).items()
                                if isinstance(p, str) or p[:m] != dst.path or len(p) == m or p[m] not in only}
        else:
            st.clear_prefix(dst)
        for p, v in items:
            q = Loc(dst.obj, dst.path + p[n:])
            nv = self.copy_val(st, v, None, q)
            d = dict(st.heap[dst.obj])
            d[q.path] = nv
            st.heap[dst.obj] = d
        if o.get("#u") and not st.heap[dst.obj].get("#u"):
            # unread fields of an unknown object stay unknown in the copy
            if not dst.path:
                d = dict(st.heap[dst.obj])
                d["#u"] = True
                st.heap[dst.obj] = d
            else:
                self.force_fields(st, src, dst)

    def force_fields(self, st, src, dst):
        t = self.type_at(st, src)
        if t is None:
            return
        T = self.p.T(t)
        if self.seq_t(t):
            if st.get(dst) is None:
                s = self.getseq(st, src)
                st.put(dst, self.copy_val(st, s, None, dst))
            return
        if T.get("k") == "rec":
            rid = T.get("rid")
            stack = [rid]
            while stack:
                R = self.p.records.get(stack.pop())
                if not R:
                    continue
                for x in R.get("fields", ()):
                    if st.get(dst.f(x["n"])) is None:
                        ft = x["t"]
                        if self.kindof(ft) == "rec":
                            self.force_fields(st, src.f(x["n"]), dst.f(x["n"]))
                        elif self.kindof(ft) in ("int", "uint", "float", "bool", "enum", "ptr"):
                            st.put(dst.f(x["n"]), self.load(st, src.f(x["n"]), ft))
                stack.extend(R.get("bases", ()))
        elif st.get(dst) is None and T.get("k") in ("int", "uint", "float", "bool", "enum", "ptr"):
            st.put(dst, self.load(st, src, t))

    def elem_at(self, st, seqloc, pos, where=None):
        """-> [(st, objid)]"""
        s = self.getseq(st, seqloc)
        if s is None:
            self.unsup(st, "element of unknown container")
            return [(st, self.new_obj(st, -1, "unk"))]
        if not st.ent("<", pos - s.size):
            if st.ent("<=", s.size - pos):
                self.report("oob", st, where or self.curloc, "access past the end of a %s" % s.kind)
                return []
            self.report("oob?", st, where or self.curloc, "index may reach the end of a %s" % s.kind)
            if not st.add("<", pos - s.size):
                return []
        if not st.ent("<=", -pos):
            if st.ent("<", pos):
                self.report("oob", st, where or self.curloc, "access before the start of a %s" % s.kind)
                return []
            self.report("oob?", st, where or self.curloc, "index may be negative in a %s" % s.kind)
            if not st.add("<=", -pos):
                return []
        for p, o, _ in s.mats:
            if p == pos:
                return [(st, o)]
        res = []
        if s.mats and not pos.isconst() and self.keeps(s) and (self.small(s) or s.size.cval() == len(s.mats)):
            for p, o, _ in s.mats:
                s1 = st.fork()
                if s1.add("=", pos - p):
                    res.append((s1, o))
            return res
        if s.felem is not None:
            d = pos - s.fidx
            if st.ent("=", d):
                return [(st, s.felem)]
            lt = st.ent("<", d)
            gt = not lt and st.ent("<", -d)
            if not lt and not gt:
                s1 = st.fork()
                if s1.add("=", d):
                    res.append((s1, s.felem))
                s2 = st.fork()
                if s2.add("<", d):
                    res.extend(self._anon_at(s2, seqloc, pos))
                s3 = st.fork()
                if s3.add("<", -d):
                    res.extend(self._anon_at(s3, seqloc, pos))
                return res
        return self._anon_at(st, seqloc, pos)

    def _anon_at(self, st, seqloc, pos):
        s = self.getseq(st, seqloc)
        for p, o, _ in s.mats:
            if p == pos or st.ent("=", p - pos):
                return [(st, o)]
        return [(st, self.anon_instance(st, seqloc, pos))]

    def deref_iter(self, st, it, where=None):
        """-> [(st, objid)]"""
        if it.elem is not None and it.elem not in ("*", "?"):
            if st.heap.get(it.elem, {}).get("#dead"):
                self.report("uaf", st, where or self.curloc, "dereference of an iterator to an erased element")
            return [(st, it.elem)]
        if it.elem == "?":
            self.report("uaf", st, where or self.curloc, "iterator may refer to an erased element")
            it = Iter(it.seq, "*", None)
        if it.elem == "*":
            return [(st, self.anon_instance(st, it.seq, None))]
        if it.pos is None:
            self.unsup(st, "iterator with unknown position")
            return [(st, self.anon_instance(st, it.seq, None))]
        return self.elem_at(st, it.seq, it.pos, where)

    def mentions_focus(self, st, obj, seen=None):
        F = st.focus
        if F is None:
            return False
        if obj == F:
            return True
        d = st.heap.get(obj)
        if not d:
            return False
        for p, v in d.items():
            if isinstance(v, Loc) and not isinstance(p, str):
                if v.obj == F:
                    return True
                if self.tracks(st, v.obj):
                    return True
            elif isinstance(v, Iter):
                if v.elem == F or (isinstance(v.elem, int) and self.tracks(st, v.elem)):
                    return True
        return False

    def tracks(self, st, obj):
        """object is a focus slot of some container that itself mentions the focus"""
        own = st.heap.get(obj, {}).get("#own")
        if own is None:
            return False
        s = st.get(own)
        return isinstance(s, Seq) and s.felem == obj and s.attr != "dim"

    def settle_iters(self, st, obj):
        """decide for each positional iterator held by obj whether it stands on the focus"""
        if st.focus is None:
            return [st]
        work, out = [st], []
        while work:
            x = work.pop()
            for p, v in x.heap[obj].items():
                if isinstance(v, Iter) and v.elem is None and v.pos is not None:
                    q = self.getseq(x, v.seq)
                    if q is not None and q.felem is not None and (q.felem == x.focus or self.mentions_focus(x, q.felem)):
                        d = v.pos - q.fidx
                        if x.ent("=", d):
                            x.put(Loc(obj, p), Iter(v.seq, q.felem, v.pos))
                            work.append(x)
                            break
                        if not x.ent("<", d) and not x.ent("<", -d):
                            for k, r in (("=", d), ("<", d), ("<", -d)):
                                y = x.fork()
                                if y.add(k, r):
                                    work.append(y)
                            break
            else:
                out.append(x)
        return out

    def seq_append(self, st, seqloc, init):
        """append one element; init(st, objid) -> [st]. returns [(st, objid)]"""
        s = self.getseq(st, seqloc)
        e = self.new_obj(st, s.et)
        st.heap[e] = dict(st.heap[e])
        st.heap[e]["#own"] = seqloc
        out = []
        for st2 in [x for y in init(st, e) for x in self.settle_iters(y, e)]:
            s = self.getseq(st2, seqloc)
            ft = st2.ghost.get("focus_t")
            attr = s.attr if s.attr == "dim" else None
            if ft is not None and st2.focus is None and self.p.T(s.et)["s"] == ft and s.kind in ("list", "vector") \
                    and st2.ghost.get("focus_on", True):
                s1 = st2.fork()
                s1.focus = e
                s1.put(seqloc, s.rep(size=s.size + 1, fidx=s.size, felem=e, attr=attr))
                out.append((s1, e))
                st2 = st2.fork()
            elif self.mentions_focus(st2, e):
                if s.felem is None:
                    st2.put(seqloc, s.rep(size=s.size + 1, fidx=s.size, felem=e, attr=attr))
                    out.append((st2, e))
                    continue
                else:
                    st2.ghost["dup"] = True
            d = dict(st2.heap[e])
            d["#anon"] = True
            st2.heap[e] = d
            st2.put(seqloc, s.rep(size=s.size + 1, mats=s.mats + ((s.size, e, None),), attr=attr))
            out.append((st2, e))
        return out

    # fold a modified anonymous element back into the template of its container
    def fold(self, st, seqloc, obj, pos=None):
        s = self.getseq(st, seqloc)
        new = self.generalise(st, obj)
        track = self.cfg.get("prefix") and self.kindof(s.et) == "rec"
        if s.tmpl is None or not track and (st.heap[s.tmpl].keys() <= {"#t", "#z"} and not st.heap[s.tmpl].get("#u") and s.kind not in ("array", "eigen") and s.attr != "dim"):
            st.put(seqloc, s.rep(tmpl=new))
            return
        cut, pt, ot = s.cut, s.ptmpl, s.otmpl
        if track and cut is None and all(p == "#anon" or p == "#own" or p == "#t" or st.heap[s.tmpl].get(p) == v for p, v in st.heap[new].items()) \
                and len([1 for p in st.heap[s.tmpl] if not isinstance(p, str)]) == len([1 for p in st.heap[new] if not isinstance(p, str)]):
            return
        syms = set(s.tsyms)
        if not track or pos is None or s.kind not in ("list", "vector") or s.attr == "dim":
            cut = pt = ot = None
        elif cut is None:
            ot = s.tmpl
            if pos == ZERO or s.fidx is not None and st.ent("=", pos - 1) and st.ent("=", s.fidx):
                cut, pt = pos + 1, new
        elif st.ent("<", pos - cut):
            pt = self.join_top(st, pt, new, syms)
        elif st.ent("=", pos - cut) or s.fidx is not None and st.ent("=", pos - cut - 1) and st.ent("=", s.fidx - cut):
            cut, pt = pos + 1, self.join_top(st, pt, new, syms)
        else:
            cut = pt = None
        if cut is None:
            ot = None
        o = self.join_top(st, s.tmpl, new, syms)
        for x in (o, pt):
            if x is not None:
                d = dict(st.heap[x])
                d["#t"] = s.et
                st.heap[x] = d
        st.put(seqloc, self.getseq(st, seqloc).rep(tmpl=o, tsyms=frozenset(syms), cut=cut, ptmpl=pt, otmpl=ot))

    joined = None

    def join_top(self, st, old, new, syms):
        """join of two element descriptions, with the affine relations between their numeric fields"""
        saved, self.joined = self.joined, []
        try:
            o = self.join_objs(st, old, new, syms, {})
            j = self.joined
        finally:
            self.joined = saved
        if 2 <= len(j) <= 8:
            hs, ns, ss = ({i: t[k] for i, t in enumerate(j)} for k in (0, 1, 2))
            eqs = [cnorm(k, p) for k, p in hull_eqs(st, st, hs, ns, ss, None, (), (), ())]
            eqs = [c for c in eqs if c not in (True, False) and len(c[1].atoms()) > 1]
            if eqs:
                st.cons = st.cons | frozenset(eqs)
        return o

    def join_objs(self, st, old, new, syms, pm):
        """least common generalisation of two objects; syms: symbols bound by the template"""
        od, nd = st.heap[old], st.heap[new]
        self.nobj += 1
        o = self.nobj
        res = {"#t": od.get("#t", nd.get("#t", -1))}
        st.heap[o] = res
        if od.get("#u") or nd.get("#u"):
            res["#u"] = True
        if od.get("#z") and nd.get("#z"):
            res["#z"] = True
        if "#own" in od:
            res["#own"] = od["#own"]
        for p in sorted((p for p in set(od) | set(nd) if not isinstance(p, str)), key=repr):
            a, b = od.get(p), nd.get(p)
            if a is None and isinstance(b, Seq):
                a = self.getseq(st, Loc(old, p))
            elif b is None and isinstance(a, Seq):
                b = self.getseq(st, Loc(new, p))
            if a is None or b is None:
                # missing: undefined / zero / unknown
                if a is None and od.get("#z"):
                    a = self.zero_like(b)
                if b is None and nd.get("#z"):
                    b = self.zero_like(a)
                if a is None or b is None:
                    if (a is None and not od.get("#u")) or (b is None and not nd.get("#u")):
                        res[p] = UNDEF
                    continue
            if a is b or (a == b and not isinstance(a, Seq)):
                res[p] = a
            elif isinstance(a, Poly) and isinstance(b, Poly):
                res[p] = self.join_pair(st, a, b, syms, pm)
            elif isinstance(a, Seq) and isinstance(b, Seq):
                x = self.join_seqs(st, a, b, syms, pm, Loc(o, p))
                if x is None:
                    res["#u"] = True
                else:
                    res[p] = x
            elif a is UNDEF or b is UNDEF:
                res[p] = UNDEF
            elif iscond(a) and iscond(b):
                res["#u"] = True
            else:
                res["#u"] = True
        return o

    def join_pair(self, st, a, b, syms, pm):
        k = (self.eqrep(st, a), self.eqrep(st, b))
        x = pm.get(k)
        if x is None:
            x = pm[k] = self.join_poly(st, a, b, syms)
            if self.joined is not None:
                self.joined.append((a, b, x))
        return x

    def eqrep(self, st, a):
        """the smallest symbol known equal to a"""
        t = a.single()
        if t is None:
            return a.key
        seen, work = {t}, [t]
        while work:
            u = work.pop()
            for k, p in st.cons:
                if k != "=" or len(p.t) != 2:
                    continue
                ms = list(p.t)
                if all(len(m) == 1 for m in ms) and (u,) in p.t and p.t[ms[0]] == -p.t[ms[1]]:
                    v = ms[1][0] if ms[0] == (u,) else ms[0][0]
                    if v not in seen:
                        seen.add(v)
                        work.append(v)
        return ("eq", min(seen))

    def join_seqs(self, st, a, b, syms, pm, loc):
        def num(u, v):
            if u is None or v is None:
                return None
            return u if u == v else self.join_pair(st, u, v, syms, pm)
        if a.kind != b.kind or a.et != b.et:
            return None
        size, rows, cols = num(a.size, b.size), num(a.rows, b.rows), num(a.cols, b.cols)
        felem = None
        if a.felem is not None and b.felem is not None and a.fidx == b.fidx:
            felem = self.join_objs(st, a.felem, b.felem, syms, pm)
            st.heap[felem]["#own"] = loc
        mats = []
        ok = len(a.mats) == len(b.mats)
        if ok:
            for (p, x, _), (q, y, _) in zip(a.mats, b.mats):
                if p != q:
                    ok = False
                    break
                m = self.join_objs(st, x, y, syms, pm)
                st.heap[m]["#own"] = loc
                st.heap[m]["#anon"] = True
                mats.append((p, m, None))
        if not ok:
            mats = []
        if a.tmpl is None or b.tmpl is None:
            tmpl, ts = None, frozenset()
        elif a.tmpl == b.tmpl:
            tmpl, ts = a.tmpl, a.tsyms
        else:
            if len(a.tsyms) == len(b.tsyms) == 1:
                # both unknown numbers: one of the two stands for both when nothing is known about it
                pass
            t = set(a.tsyms) | set(b.tsyms)
            tmpl = self.join_top(st, a.tmpl, b.tmpl, t)
            ts = frozenset(t)
        if not ok and (a.mats or b.mats):
            tmpl, ts = None, frozenset()
        return a.rep(size=size, rows=rows, cols=cols, fidx=a.fidx if felem is not None else None, felem=felem,
                     mats=tuple(mats), tmpl=tmpl, tsyms=ts)

    def zero_like(self, v):
        if isinstance(v, Poly):
            return ZERO
        if iscond(v):
            return False
        return None

    def join_poly(self, st, a, b, syms):
        t = a.single()
        owned = t is not None and t in syms
        x = fresh("int" if a.isint() and b.isint() else "real", "anon")
        xs = x.single()
        cands = []
        if owned:
            for k, p in st.cons:
                if any(t in m for m in p.t):
                    cands.append((k, p.subst({t: x})))
        else:
            cands += [("<=", x - a), ("<=", a - x)]
        bs = b.single()
        if bs is not None:
            for k, p in st.cons:
                if any(bs in m for m in p.t):
                    cands.append((k, p.subst({bs: x})))
        cands += [("<=", x), ("<=", -x), ("<", x), ("<", -x)]
        keep = []
        for k, p in cands:
            c = cnorm(k, p)
            if c in (True, False):
                continue
            if entails(st.cons, c[0], c[1].subst({xs: a})) and entails(st.cons, c[0], c[1].subst({xs: b})):
                keep.append(c)
        st.cons = st.cons | frozenset(keep)
        syms.add(xs)
        if owned:
            syms.discard(t)
        return x

    def generalise(self, st, obj):
        """copy of obj in which references to anonymous elements are generalised"""
        o = self.copy_obj(st, obj)
        d = st.heap[o]
        for p, v in list(d.items()):
            if isinstance(p, str):
                continue
            if isinstance(v, Loc):
                h = st.heap.get(v.obj, {})
                if h.get("#anon") and not v.path:
                    d[p] = AnyElem(h["#own"])
            elif isinstance(v, Iter):
                if isinstance(v.elem, int) and st.heap.get(v.elem, {}).get("#anon"):
                    d[p] = Iter(v.seq, "*", None)
                elif v.elem is None:
                    d[p] = Iter(v.seq, "*", None)
        return o

    # ------------------------------------------------------------------ conditions
    def assume(self, st, c, truth=True):
        """-> list of states in which c == truth (st may be reused)"""
        if not truth:
            c = cnot(c)
        if c is True:
            return [st]
        if c is False:
            return []
        if c is UNK or c is None:
            return [st]
        k = c[0]
        if k == "c":
            return [st] if st.add(c[1], c[2]) else []
        if k == "b":
            v = st.bools.get(c[1])
            if v is None:
                st.bools[c[1]] = True
                return [st]
            return [st] if v else []
        if k == "n":
            c2 = c[1]
            if c2[0] == "b":
                v = st.bools.get(c2[1])
                if v is None:
                    st.bools[c2[1]] = False
                    return [st]
                return [st] if not v else []
            return self.assume(st, cnot(c2), True)
        if k == "and":
            out = []
            for s in self.assume(st, c[1]):
                out.extend(self.assume(s, c[2]))
            return out
        if k == "or":
            out = self.assume(st.fork(), c[1])
            for s in self.assume(st, cnot(c[1])):
                out.extend(self.assume(s, c[2]))
            return out
        raise Stuck("assume %r" % (c,))

    def decide(self, st, c):
        """True/False/None"""
        if c is True or c is False:
            return c
        if c is UNK or c is None:
            return None
        k = c[0]
        if k == "c":
            if st.ent(c[1], c[2]):
                return True
            n = negate(c[1], c[2])
            if st.ent(n[0], n[1]):
                return False
            if c[1] in "=!":
                q = cnorm("!", c[2])
                if q in st.cons:
                    return c[1] == "!"
            return None
        if k == "b":
            return st.bools.get(c[1])
        if k == "n":
            r = self.decide(st, c[1])
            return None if r is None else not r
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None

    def branch(self, st, c):
        """-> (true states, false states)"""
        if self.guardlog is not None:
            _cond_atoms(c, self.guardlog)
        d = self.decide(st, c)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        return self.assume(st.fork(), c, True), self.assume(st, c, False)

    def tobool(self, st, v, t=None):
        if isinstance(v, Loc) and t is not None and self.kindof(self.p.strip(t)) != "ptr":
            v = self.load(st, v, t)
        if iscond(v):
            return v
        if isinstance(v, Poly):
            return mkcmp("!", v)
        if v is NULL:
            return False
        if isinstance(v, (Loc, Fn)):
            return True
        return ("b", fresh("int", "bool").single())

    def toint(self, st, v):
        """condition -> [(st, Poly)]"""
        if isinstance(v, Poly):
            return [(st, v)]
        if v is True:
            return [(st, ONE)]
        if v is False:
            return [(st, ZERO)]
        if iscond(v):
            a, b = self.branch(st, v)
            return [(s, ONE) for s in a] + [(s, ZERO) for s in b]
        return [(st, fresh("int", "i"))]

    def fcmp(self, kind, p, isfloat):
        if self.finite and (0,) in p.t:
            return (p.t[(0,)] < 0) if kind in ("<", "<=") else kind == "!"
        if self.nan and isfloat:
            if p.isconst():
                return mkcmp(kind, p)
            if kind in "=!":
                k2, q = cnorm("=", p)
                c = ("b", ("fc", "=", q.key))
                return c if kind == "=" else ("n", c)
            g = 0
            return ("b", ("fc", kind, p.key))
        return mkcmp(kind, p)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Stuck("budget")
        if e is None:
            return [(st, None)]
        return getattr(self, "e_" + e["k"], self.e_other)(e, st)

    def evs(self, es, st):
        """evaluate list of expressions left to right -> [(st, [vals])]"""
        res = [(st, [])]
        for i, e in enumerate(es):
            nr = []
            if i and self.complex(e):
                for s, vs in res:
                    # pending operands must survive joins inside the call
                    keys = []
                    for k, v in enumerate(vs):
                        if isinstance(v, (Poly, Loc, Iter)) or (isinstance(v, tuple) and iscond(v)):
                            o = self.new_obj(s, -1)
                            s.put(Loc(o), v)
                            key = ("tmp", self.depth, id(e), k)
                            s.bind(key, Loc(o))
                            keys.append((k, key))
                    for s2, v in self.ev(e, s):
                        vs2 = list(vs)
                        fr = s2.frames[-1]
                        nv = dict(fr.vars)
                        for k, key in keys:
                            l = nv.pop(key, None)
                            if l is not None:
                                vs2[k] = s2.get(l)
                        fr.vars = nv
                        nr.append((s2, vs2 + [v]))
            else:
                for s, vs in res:
                    for s2, v in self.ev(e, s):
                        nr.append((s2, vs + [v]))
            res = nr
        return res

    def complex(self, e):
        """may evaluating e run a loop of the analysed program?"""
        if not isinstance(e, dict):
            return False
        c = e.get("_cx")
        if c is None:
            c = False
            if e.get("k") == "call" and ("fe" in e or e.get("id") in self.p.functions):
                c = True
            elif e.get("k") == "ctor" and e.get("id") in self.p.functions:
                c = True
            else:
                for k, x in e.items():
                    if isinstance(x, dict):
                        if self.complex(x):
                            c = True
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, dict) and self.complex(y):
                                c = True
            e["_cx"] = c
        return c

    # ------------------------------------------------------------------ liveness of locals
    def uses(self, n):
        """ids of the variables mentioned in a subtree"""
        if not isinstance(n, dict):
            return frozenset()
        u = n.get("_us")
        if u is None:
            acc = set()
            if n.get("k") == "var":
                acc.add(n["id"])
            if n.get("k") == "lambda":
                for c in n.get("caps", ()):
                    if isinstance(c, dict) and "id" in c:
                        acc.add(c["id"])
            for k, x in n.items():
                if isinstance(x, dict):
                    acc |= self.uses(x)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            acc |= self.uses(y)
            u = n["_us"] = frozenset(acc)
        return u

    @staticmethod
    def declared(s):
        if s is None:
            return ()
        if s["k"] == "decl":
            return (s["id"],)
        if s["k"] == "decls":
            return tuple(x["id"] for x in s["s"] if x["k"] == "decl")
        return ()

    def fixed_indices(self, n):
        """variables from outside a loop that index containers inside it and never change there"""
        r = n.get("_fi")
        if r is None:
            idx, other = set(), set()

            def walk(e, sub):
                k = e.get("k")
                if k == "var":
                    other.add(e["id"])
                    return
                if k == "load" and isinstance(e.get("e"), dict) and e["e"].get("k") == "var":
                    if sub:
                        idx.add(e["e"]["id"])
                    return
                if k == "cast" or k == "paren":
                    if isinstance(e.get("e"), dict):
                        walk(e["e"], sub)
                    return
                at = k == "call" and e.get("q", "").rsplit("::", 1)[-1] in ("operator[]", "at")
                for key, x in e.items():
                    if key.startswith("_"):
                        continue
                    if isinstance(x, dict):
                        walk(x, k == "idx" and key == "b")
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, dict):
                                walk(y, at and key == "a")
            walk(n, False)
            r = n["_fi"] = tuple(sorted(idx - other))
        return r

    def split_indices(self, entry, node):
        """before a loop: tell apart the cases index < / = / > position of the tracked element, for every index the loop
        uses but does not change; -> states, tags to remove afterwards"""
        ids = self.fixed_indices(node)
        tags = []
        if not ids:
            return entry, tags
        for i in ids:
            tag = "ix%s" % i
            out = []
            for st in entry:
                l = st.frames[-1].vars.get(i) if st.frames else None
                v = st.get(l) if isinstance(l, Loc) and l.obj in st.heap else None
                f = None
                if isinstance(v, Poly) and v.isint() and tag not in st.ghost:
                    f = next((q.fidx for d in st.heap.values() for q in d.values()
                              if isinstance(q, Seq) and q.fidx is not None and q.kind == "vector"), None)
                if f is None:
                    out.append(st)
                    continue
                for rel, q in (("<", v - f), ("=", v - f), (">", f - v)):
                    s2 = st.fork()
                    if s2.add("=" if rel == "=" else "<", q):
                        s2.ghost = dict(s2.ghost)
                        s2.ghost[tag] = rel
                        out.append(s2)
                if tag not in tags:
                    tags.append(tag)
            entry = out
        return entry, tags

    def plan(self, n):
        """for a block: variables that die after each statement"""
        p = n.get("_pl")
        if p is None:
            ss = n["s"]
            decl = set(n.get("_par", ()))
            p = []
            for i, x in enumerate(ss):
                decl |= set(self.declared(x))
                rest = set()
                for y in ss[i + 1:]:
                    rest |= self.uses(y)
                dead = {d for d in decl if d not in rest}
                decl -= dead
                p.append(frozenset(dead))
            alld = set(n.get("_par", ()))
            for x in ss:
                alld |= set(self.declared(x))
            p = n["_pl"] = (p, frozenset(alld))
        return p

    @staticmethod
    def unbind(st, ids):
        f = st.frames[-1]
        if any(i in f.vars for i in ids):
            f.vars = {k: v for k, v in f.vars.items() if k not in ids}

    def e_other(self, e, st):
        if e.get("cls") in ("SourceLocExpr", "PredefinedExpr", "StringLiteral"):
            return [(st, ("str", str(e.get("cls"))))]
        self.unsup(st, "expr:" + str(e.get("cls", e["k"])))
        return [(st, self.fresh_of(st, e.get("t", -1)))]

    def e_int(self, e, st):
        v = int(e["v"])
        if self.kindof(e["t"]) == "bool":
            return [(st, bool(v))]
        return [(st, Poly.const(v))]

    def e_float(self, e, st):
        v = e["v"]
        if "Inf" in v or "inf" in v:
            return [(st, -PINF if v.startswith("-") else PINF)]
        if "NaN" in v or "nan" in v:
            return [(st, fresh("real", "NaN"))]
        f = float(v)
        return [(st, Poly.const(Fraction(repr(f)) if abs(f) < 1e300 else Fraction(v)))]

    def e_str(self, e, st):
        return [(st, ("str", e.get("v", "")))]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_throw(self, e, st):
        return []

    def e_this(self, e, st):
        return [(st, st.frames[-1].this)]

    def e_fn(self, e, st):
        return [(st, Fn(e["id"]))]

    def global_loc(self, st, e):
        i = e["id"]
        if i in st.globals:
            return st.globals[i]
        g = self.p.globals.get(i)
        t = e["t"]
        o = self.new_obj(st, t, "zero" if g else "unk")
        loc = Loc(o)
        st.globals[i] = loc
        if g and g.get("init") is not None:
            fr = st.frames
            st.frames = fr + [Frame("glob", {}, None)]
            r = self.ev(g["init"], st)
            if len(r) == 1:
                s2, v = r[0]
                if s2 is not st:
                    st.heap, st.cons, st.globals = s2.heap, s2.cons, s2.globals
                if isinstance(v, Loc) and self.kindof(self.p.strip(t)) == "rec":
                    st.globals[i] = v
                    loc = v
                elif v is not None:
                    st.put(loc, v)
            st.frames = fr
        elif g is None or not (g.get("const") or g.get("constexpr")):
            if g is not None and "VPG" not in g["q"]:
                st.heap[o] = {"#t": t, "#z": True}
        return loc

    def e_var(self, e, st):
        i = e["id"]
        for f in (st.frames[-1],):
            v = f.vars.get(i)
            if v is not None:
                return [(st, v)]
        if e.get("global"):
            return [(st, self.global_loc(st, e))]
        # captured variables of enclosing frames (by-reference lambdas are bound explicitly)
        self.unsup(st, "unbound variable " + e["n"])
        o = self.new_obj(st, e["t"], "unk")
        st.bind(i, Loc(o))
        return [(st, Loc(o))]

    def e_mem(self, e, st):
        out = []
        for s, b in self.ev(e["b"], st):
            if isinstance(b, Iter):
                for s2, o in self.deref_iter(s, b, e.get("l")):
                    out.append((s2, self.member(s2, Loc(o), e)))
                continue
            if b is NULL:
                self.report("null", s, self.curloc, "member access through a null pointer")
                continue
            if not isinstance(b, Loc):
                self.unsup(s, "member of %s" % type(b).__name__)
                o = self.new_obj(s, e["t"], "unk")
                out.append((s, Loc(o)))
                continue
            if e.get("arrow") and self.pointee_array(s, b, e["b"]) is not None:
                for s2, o in self.elem_at(s, b, ZERO):
                    out.append((s2, self.member(s2, Loc(o), e)))
                continue
            out.append((s, self.member(s, b, e)))
        return out

    def pointee_array(self, st, v, x):
        """the array whose first element the pointer expression x, of value v, designates"""
        T = self.p.T(self.p.strip(x.get("t", -1)))
        return self.decayed(st, v, T["to"]) if T.get("k") == "ptr" else None

    def member(self, st, b, e):
        l = b.f(e["f"])
        if e.get("isref"):
            v = st.get(l)
            if isinstance(v, Loc):
                return v
        return l

    def e_load(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if isinstance(v, Loc):
                v = self.load(s, v, e["t"], e.get("l"))
                if isinstance(v, Iter) and self.kindof(self.p.strip(e["t"])) == "ptr":
                    v = self.at_elem(s, v)
            out.append((s, v))
        return out

    def e_cast(self, e, st):
        ck = e["ck"]
        out = []
        for s, v in self.ev(e["e"], st):
            if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                out.append((s, self.tobool(s, v)))
            elif ck in ("IntegralCast", "BooleanToSignedIntegral"):
                for s2, p in self.toint(s, v):
                    out.extend(self.int_cast(s2, p, e["t"], e["e"].get("t"), e.get("l")))
            elif ck in ("IntegralToFloating",):
                out.extend(self.toint(s, v))
            elif ck == "FloatingToIntegral":
                out.append((s, self.trunc(s, v)))
            elif ck in ("FloatingCast", "BitCast", "ToVoid", "ArrayToPointerDecay", "LValueBitCast",
                        "UserDefinedConversion", "ConstructorConversion"):
                if ck == "FloatingCast" and isinstance(v, Loc):
                    v = self.load(s, v, e["e"].get("t"))
                out.append((s, v))
            elif ck == "NullToPointer":
                out.append((s, NULL))
            elif ck in ("PointerToIntegral",):
                out.append((s, fresh("int", "addr")))
            else:
                self.unsup(s, "cast:" + ck)
                out.append((s, self.fresh_of(s, e["t"])))
        return out

    def int_cast(self, st, p, t, ft, where):
        T, F = self.p.T(t), self.p.T(ft)
        bits = T.get("bits", 32)
        if T.get("k") in ("int", "enum"):
            c = p.cval()
            if isinstance(c, int) and c >= 2 ** 31:
                for b in (64, 32):
                    if c >= 2 ** b - 2 ** 31:
                        return [(st, p - 2 ** b)]
            return [(st, p)]
        if T.get("k") == "uint":
            if st.ent("<=", -p):
                return [(st, p)]
            if st.ent("<", p):
                return [(st, p + 2 ** bits)]
            s2 = st.fork()
            out = []
            if st.add("<=", -p):
                out.append((st, p))
            if s2.add("<", p):
                out.append((s2, p + 2 ** bits))
            return out
        return [(st, p)]

    def trunc(self, st, v):
        if not isinstance(v, Poly):
            return fresh("int", "trunc")
        if v.isint():
            return v
        if v.isconst():
            return Poly.const(int(v.cval()))
        q = app("trunc", (v,), "int")
        if st.ent("<=", -v):
            st.add("<=", q - v)
            st.add("<", v - q - 1)
            st.add("<=", -q)
            # t < n integer upper bounds carry over
        else:
            st.add("<", q - v - 1)
            st.add("<", v - q - 1)
        return q

    def e_un(self, e, st):
        op = e["op"]
        out = []
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            for s, l in self.ev(e["e"], st):
                v = self.load(s, l, e["e"]["t"])
                if isinstance(v, Poly):
                    nv = v + d
                    rs = [(s, nv)]
                    if self.kindof(self.p.strip(e["e"]["t"])) == "uint" and d < 0:
                        rs = self.int_cast(s, nv, self.p.strip(e["e"]["t"]), -1, e.get("l"))
                    for s2, nv in rs:
                        self.store(s2, l, nv)
                        out.append((s2, v if e.get("post") else l))
                elif isinstance(v, (Loc, Iter)) and self.as_iter(s, v) is not None:
                    self.store(s, l, models.it_step(self, s, self.as_iter(s, v), d))
                    out.append((s, v if e.get("post") else l))
                elif isinstance(v, Loc):
                    self.unsup(s, "pointer arithmetic")
                    out.append((s, l))
                else:
                    self.unsup(s, "++ on " + type(v).__name__)
                    out.append((s, l))
            return out
        for s, v in self.ev(e["e"], st):
            if op == "*":
                if v is NULL:
                    self.report("null", s, e.get("l"), "dereference of null")
                    continue
                if isinstance(v, Iter):
                    for s2, o in self.deref_iter(s, v, e.get("l")):
                        out.append((s2, Loc(o)))
                    continue
                q = self.decayed(s, v, e["t"])
                if q is not None:
                    for s2, o in self.elem_at(s, v, ZERO):
                        out.append((s2, Loc(o)))
                    continue
                out.append((s, v))
            elif op == "&":
                out.append((s, v))
            elif op == "!":
                out.append((s, cnot(self.tobool(s, v))))
            elif op == "-":
                for s2, p in self.toint(s, v):
                    out.append((s2, -p))
            elif op in ("+", "__extension__"):
                out.append((s, v))
            else:
                self.unsup(s, "unary " + op)
                out.append((s, self.fresh_of(s, e["t"])))
        return out

    def store(self, st, loc, v):
        o = st.heap.get(loc.obj)
        if o is not None and o.get("#dead"):
            self.report("uaf", st, self.curloc, "write to an erased element")
        own = o.get("#own") if o else None
        st.put(loc, v)
        if own is not None and isinstance(v, (Loc, Iter)):
            self.retarget(st, own, loc.obj)
        w = self.cfg.get("on_store")
        if w:
            w(self, st, loc, v)

    def retarget(self, st, own, obj):
        """a slot of container `own` was overwritten with a reference: maintain the focus slot"""
        s = st.get(own)
        if not isinstance(s, Seq):
            return
        if s.felem == obj and not self.mentions_focus(st, obj) and obj != st.focus:
            d = dict(st.heap[obj])
            d["#anon"] = True
            st.heap[obj] = d
            st.put(own, s.rep(felem=None, fidx=None, mats=s.mats + ((s.fidx, obj, None),), attr=None))
        elif s.felem is None and self.mentions_focus(st, obj):
            for i, (p, o, orig) in enumerate(s.mats):
                if o == obj:
                    d = dict(st.heap[obj])
                    d.pop("#anon", None)
                    st.heap[obj] = d
                    st.put(own, s.rep(felem=obj, fidx=p, mats=s.mats[:i] + s.mats[i + 1:], attr=None))
                    break

    def e_assign(self, e, st):
        out = []
        for s, (r, l) in self.evs([e["b"], e["a"]], st):
            if isinstance(r, Loc) and self.kindof(self.p.strip(e["b"].get("t", -1))) == "rec":
                self.copy_struct(s, l, r)
                out.append((s, l))
                continue
            if isinstance(l, Loc):
                self.store(s, l, r)
            out.append((s, l))
        return out

    def e_cassign(self, e, st):
        out = []
        for s, (r, l) in self.evs([e["b"], e["a"]], st):
            cur = self.load(s, l, e["a"]["t"])
            for s2, v in self.arith(s, e["op"], cur, r, e.get("ct", e["t"]), e.get("l")):
                lt = self.p.strip(e["a"]["t"])
                if self.kindof(lt) == "uint" and isinstance(v, Poly):
                    rs = self.int_cast(s2, v, lt, -1, e.get("l"))
                elif self.kindof(lt) == "int" and isinstance(v, Poly) and self.kindof(e.get("ct", -1)) == "float":
                    rs = [(s2, self.trunc(s2, v))]
                else:
                    rs = [(s2, v)]
                for s3, v3 in rs:
                    self.store(s3, l, v3)
                    out.append((s3, l))
        return out

    def mul(self, st, a, b):
        r = a * b
        if a.isconst() or b.isconst():
            return r
        for x, y in ((a, b), (b, a)):
            if x.single() is not None and not x.isint() and (P.ATOMS[x.single()].name == "u01" or (
                    st.ent("<=", -x) and st.ent("<=", x - 1))):
                sg = 1 if st.ent("<=", -y) else -1 if st.ent("<=", y) else 0
                if sg:
                    y, r1 = y.scale(sg), r.scale(sg)
                    new = [cnorm("<=", -r1), cnorm("<=", r1 - y)]
                    if P.ATOMS[x.single()].name == "u01" and st.ent("<", -y):
                        new.append(cnorm("<", r1 - y))
                    lim = st.ghost.get("draws")
                    if lim is not None and P.ATOMS[x.single()].name == "u01" and all(v.isconst() for v in lim):
                        new += [cnorm("<=", y.scale(lim[0].cval()) - r1), cnorm("<=", r1 - y.scale(lim[1].cval()))]
                    st.cons = st.cons | {c for c in new if c not in (True, False)}
                return r
        for x, y in ((a, b), (b, a)):
            if x.single() is None and all(len(m) <= 1 for m in x.t):
                us = [m[0] for m in x.t if m and P.ATOMS[m[0]].name == "u01"]
                if us and len(us) <= 2 and len(y.t) <= 6:
                    for u in us:
                        self.mul(st, Poly.atom(u) if hasattr(Poly, "atom") else Poly({(u,): 1}), y)
                    break
        if a == b:
            c = cnorm("<=", -r)
            if c not in (True, False):
                st.cons = st.cons | {c}
            return r
        sa = st.ent("<=", -a) and 1 or (st.ent("<=", a) and -1 or 0)
        if sa:
            sb = st.ent("<=", -b) and 1 or (st.ent("<=", b) and -1 or 0)
            if sb:
                c = cnorm("<=", r.scale(-sa * sb))
                if c not in (True, False):
                    st.cons = st.cons | {c}
        return r

    def div(self, st, a, b, isint):
        if not isint:
            if b.isconst():
                if b.cval() == 0:
                    return fresh("real", "div0")
                return a.scale(Fraction(1) / b.cval())
            # cancel a common monomial factor
            if len(b.t) == 1:
                (m, c), = b.t.items()
                if a.t and all(self._divides(m, n) for n in a.t):
                    return Poly({self._quot(n, m): Fraction(v) / c for n, v in a.t.items()})
                a2 = self._eqreduce(st, a, m)
                if a2 is not None and all(self._divides(m, n) for n in a2.t):
                    return Poly({self._quot(n, m): Fraction(v) / c for n, v in a2.t.items()})
            if a == b:
                return ONE
            inv = app("inv", (b,))
            if st.ent("<", -b):
                st.add("<", -inv)
            return self.mul(st, a, inv)
        if a.isconst() and b.isconst() and b.cval() != 0:
            x, y = a.cval(), b.cval()
            q = abs(x) // abs(y)
            return Poly.const(q if (x >= 0) == (y >= 0) else -q)
        if b == ONE:
            return a
        if b.isconst() and b.cval() > 0 and st.ent("<=", -a) and all(type(c) is int for c in a.t.values()):
            c = b.cval()
            q = app("fdiv", (a, c), "int")
            st.add("<=", -q)
            st.add("<=", q.scale(c) - a)
            st.add("<=", a - q.scale(c) - (c - 1))
            return q
        q = app("idiv", (a, b), "int")
        if st.ent("<=", -a) and st.ent("<", -b):
            st.add("<=", -q)
            st.add("<=", q - a)
            bq = b * q
            for c in (cnorm("<=", bq - a), cnorm("<", a - bq - b)):
                if c not in (True, False):
                    st.cons = st.cons | {c}
        return q

    @staticmethod
    def _eqreduce(st, a, m):
        """a rewritten with the known equalities into multiples of monomial m, or None"""
        at = set(a.atoms()) | set(m)
        eqs = [p for k, p in st.cons if k == "="]
        rel = []
        for _ in range(3):
            new = [p for p in eqs if p.atoms() & at and not any(p is q for q in rel)]
            if not new:
                break
            rel += new
            for p in new:
                at |= p.atoms()
        if not rel or len(rel) > 16:
            return None
        a = Poly(a.t)
        rows = [Poly(p.t) for p in rel]
        done = []
        while rows:
            p = rows.pop()
            piv = next((n for n in sorted(p.t, key=str) if n and n != m), None)
            if piv is None and len(p.t) == 2 and m in p.t:
                piv = ()
            if piv is None:
                continue
            c = Fraction(p.t[piv])

            def red(q):
                return q - p.scale(Fraction(q.t[piv]) / c) if piv in q.t else q
            rows = [r for r in map(red, rows) if r.t]
            a = red(a)
            done.append(p)
        # second pass: eliminated monomials may have come back
        return a if a.t and all(n != () for n in a.t) else None

    @staticmethod
    def _divides(m, n):
        n = list(n)
        for x in m:
            if x in n:
                n.remove(x)
            else:
                return False
        return True

    @staticmethod
    def _quot(n, m):
        n = list(n)
        for x in m:
            n.remove(x)
        return tuple(n)

    def absorb(self, r):
        """infinity plus a finite number is infinity (every other number is finite)"""
        if self.finite and (0,) in r.t and len(r.t) > 1:
            return PINF if r.t[(0,)] > 0 else -PINF
        return r

    def arith(self, st, op, a, b, t, where):
        """-> [(st, value)]"""
        out = []
        if isinstance(a, Loc) and isinstance(b, Poly):
            return self.ptr_arith(st, op, a, b)
        if isinstance(a, Iter) and isinstance(b, Poly) and op in ("+", "-"):
            return [(st, models.it_step(self, st, a, b if op == "+" else -b))]
        if op in ("&", "|", "^") and iscond(a) and iscond(b):
            if op == "&":
                return [(st, self.c_and(a, b))]
            if op == "|":
                return [(st, self.c_or(a, b))]
        for s, pa in self.toint(st, a):
            for s2, pb in self.toint(s, b):
                T = self.p.T(t)
                isf = T.get("k") == "float"
                if op in ("+", "*", "<<") and T.get("k") == "uint" and pa.isconst() and pb.isconst():
                    x, y = pa.cval(), pb.cval()
                    r = x + y if op == "+" else x * y if op == "*" else x << y if 0 <= y < 64 else 0
                    out.append((s2, Poly.const(r % 2 ** T.get("bits", 32))))
                elif op == "+":
                    out.append((s2, self.absorb(pa + pb)))
                elif op == "-":
                    r = self.absorb(pa - pb)
                    if T.get("k") == "uint":
                        out.extend(self.int_cast(s2, r, t, t, where))
                    else:
                        out.append((s2, r))
                elif op == "*":
                    out.append((s2, self.mul(s2, pa, pb)))
                elif op == "/":
                    if not isf and s2.ent("=", pb):
                        self.report("div0", s2, where, "division by zero")
                        continue
                    out.append((s2, self.div(s2, pa, pb, not isf)))
                elif op == "%":
                    if s2.ent("=", pb):
                        self.report("div0", s2, where, "modulo by zero")
                        continue
                    if pa.isconst() and pb.isconst():
                        x, y = pa.cval(), pb.cval()
                        r = abs(x) % abs(y)
                        out.append((s2, Poly.const(r if x >= 0 else -r)))
                        continue
                    exact = pb.isconst() and pb.cval() > 0 and s2.ent("<=", -pa) and all(type(c) is int for c in pa.t.values())
                    q = self.div(s2, pa, pb, True)
                    if exact:
                        out.append((s2, pa - q.scale(pb.cval())))
                        continue
                    r = app("imod", (pa, pb), "int")
                    if s2.ent("<=", -pa) and s2.ent("<", -pb):
                        s2.add("<=", -r)
                        s2.add("<", r - pb)
                        s2.add("<=", r - pa)
                        if pb.isconst():
                            s2.add("=", pa - q * pb - r)
                    out.append((s2, r))
                elif op == "<<" and pb.isconst() and 0 <= pb.cval() < 64:
                    out.append((s2, pa.scale(2 ** pb.cval())))
                elif op == ">>" and pb.isconst() and 0 <= pb.cval() < 64:
                    out.append((s2, self.div(s2, pa, Poly.const(2 ** pb.cval()), True)))
                elif op in ("&", "|", "^", "<<", ">>"):
                    if pa.isconst() and pb.isconst():
                        x, y = pa.cval(), pb.cval()
                        out.append((s2, Poly.const({"&": x & y, "|": x | y, "^": x ^ y,
                                                    "<<": x << y if y < 200 else 0, ">>": x >> y}[op])))
                    else:
                        out.append((s2, app("bit" + op, (pa, pb), "int")))
                else:
                    self.unsup(s2, "op " + op)
                    out.append((s2, self.fresh_of(s2, t)))
        return out

    def decayed(self, st, v, t):
        """the array whose first element the pointer v to an object of type t designates"""
        if not isinstance(v, Loc):
            return None
        q = st.get(v)
        if q is None:
            q = self.getseq(st, v)
        if not (isinstance(q, Seq) and q.kind == "array" and q.et is not None):
            return None
        name = [self.p.T(self.p.strip(x)).get("s", "?").replace("const ", "").strip() for x in (t, q.et)]
        return q if name[0] == name[1] and name[0] != "?" else None

    def as_iter(self, st, v):
        """a pointer to an element of a container as a position in it"""
        if isinstance(v, Iter):
            return v
        if isinstance(v, Loc):
            own = st.heap.get(v.obj, {}).get("#own")
            if own is not None and not v.path and isinstance(st.get(own), Seq) and st.get(own).kind in ("vector", "array", "eigen"):
                it = Iter(own, v.obj, None)
                p = models.iter_pos(self, st, it)
                return Iter(own, None, p) if p is not None else None
            q = st.get(v)
            if q is None or q is UNDEF:
                q = self.getseq(st, v)
            if isinstance(q, Seq) and q.kind == "array":
                return Iter(v, None, ZERO)
        return None

    def at_elem(self, st, it):
        """the element a pointer stands on, where that is one known element"""
        q = st.get(it.seq)
        if it.elem is None and it.pos is not None and isinstance(q, Seq):
            if q.felem is not None and q.fidx is not None and q.fidx == it.pos:
                return Loc(q.felem)
            for p, o, _ in q.mats:
                if p == it.pos:
                    return Loc(o)
        return it

    def ptr_arith(self, st, op, a, b):
        d = st.heap.get(a.obj, {})
        own = d.get("#own")
        if own is not None and not a.path:
            s = st.get(own)
            if isinstance(s, Seq):
                pos = None
                if s.felem == a.obj:
                    pos = s.fidx
                for p, o, _ in s.mats:
                    if o == a.obj:
                        pos = p
                if pos is not None:
                    np = pos + b if op == "+" else pos - b
                    if s.kind in ("vector", "array") and st.ent("=", np - s.size):
                        return [(st, Iter(own, None, np))]
                    return [(s2, Loc(o)) for s2, o in self.elem_at(st, own, np)]
        if b == ZERO:
            return [(st, a)]
        q = st.get(a)
        if isinstance(q, Seq) and q.kind == "array" and isinstance(b, Poly):
            np = b if op == "+" else -b
            if st.ent("=", np - q.size):
                return [(st, Iter(a, None, np))]
            return [(s2, Loc(o)) for s2, o in self.elem_at(st, a, np)]
        self.unsup(st, "pointer arithmetic")
        return [(st, Loc(self.new_obj(st, d.get("#t", -1), "unk")))]

    def c_and(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return ("and", a, b)

    def c_or(self, a, b):
        if a is False:
            return b
        if b is False:
            return a
        if a is True or b is True:
            return True
        return ("or", a, b)

    def e_bin(self, e, st):
        op = e["op"]
        out = []
        if op in ("&&", "||"):
            for s, a in self.ev(e["a"], st):
                ca = self.tobool(s, a)
                t, f = self.branch(s, ca)
                if op == "&&":
                    for s2 in t:
                        for s3, b in self.ev(e["b"], s2):
                            out.append((s3, self.tobool(s3, b)))
                    out.extend((s2, False) for s2 in f)
                else:
                    for s2 in f:
                        for s3, b in self.ev(e["b"], s2):
                            out.append((s3, self.tobool(s3, b)))
                    out.extend((s2, True) for s2 in t)
            return out
        if op == ",":
            for s, _ in self.ev(e["a"], st):
                out.extend(self.ev(e["b"], s))
            return out
        for s, (a, b) in self.evs([e["a"], e["b"]], st):
            if op in ("<", "<=", ">", ">=", "==", "!="):
                out.extend(self.compare(s, op, a, b, e))
            else:
                if isinstance(a, (Loc, Iter)) and isinstance(b, (Loc, Iter)) and op == "-":
                    x, y = self.as_iter(s, a), self.as_iter(s, b)
                    if x is not None and y is not None and x.seq == y.seq:
                        px, py = models.iter_pos(self, s, x), models.iter_pos(self, s, y)
                        if px is not None and py is not None:
                            out.append((s, px - py))
                            continue
                    self.unsup(s, "pointer difference")
                    out.append((s, fresh("int", "pdiff")))
                    continue
                out.extend(self.arith(s, op, a, b, e["t"], e.get("l")))
        return out

    def compare(self, st, op, a, b, e=None):
        if isinstance(a, (Loc, Null, Fn)) and isinstance(b, (Loc, Null, Fn)):
            if op in ("==", "!="):
                if type(a) is type(b) and isinstance(a, Null):
                    r = True
                elif isinstance(a, Null) or isinstance(b, Null) or type(a) is not type(b):
                    r = False
                elif a == b:
                    r = True
                elif isinstance(a, Loc) and a.obj != b.obj and st.heap.get(a.obj, {}).get("#anon") and st.heap.get(b.obj, {}).get("#anon") \
                        and st.heap[a.obj].get("#own") == st.heap[b.obj].get("#own") and a.path == b.path:
                    own = st.heap[a.obj].get("#own")
                    q = st.get(own) if isinstance(own, Loc) and own.obj in st.heap else None
                    at = {m[1]: m[0] for m in q.mats} if isinstance(q, Seq) else {}
                    pa, pb = at.get(a.obj), at.get(b.obj)
                    if isinstance(pa, Poly) and isinstance(pb, Poly) and (
                            self.cfg.get("exact") or st.ent("<", pa - pb) or st.ent("<", pb - pa)):
                        r = mkcmp("=", pa - pb)
                    else:
                        r = ("b", fresh("int", "same").single())
                else:
                    r = False
                return [(st, r if op == "==" else cnot(r))]
            # pointer ordering: an arbitrary but fixed total order
            if isinstance(a, Loc) and isinstance(b, Loc):
                if a == b:
                    return [(st, op in ("<=", ">="))]
                aa, ab = app("addr", (a.obj, a.path), "int"), app("addr", (b.obj, b.path), "int")
                st.add("!", aa - ab)
                a, b = aa, ab
        if isinstance(a, Iter) or isinstance(b, Iter):
            return models.iter_compare(self, st, op, a, b)
        if iscond(a) and iscond(b) and op in ("==", "!="):
            if a in (True, False) or b in (True, False):
                if b in (True, False):
                    a, b = b, a
                r = b if a is True else cnot(b)
                return [(st, r if op == "==" else cnot(r))]
        out = []
        for s, pa in self.toint(st, a):
            for s2, pb in self.toint(s, b):
                isf = e is not None and self.kindof(self.p.strip(e["a"].get("t", -1))) == "float"
                if op in ("<", "<="):
                    r = self.fcmp(op, pa - pb, isf)
                elif op in (">", ">="):
                    r = self.fcmp("<" if op == ">" else "<=", pb - pa, isf)
                else:
                    r = self.fcmp("=" if op == "==" else "!", pa - pb, isf)
                out.append((s2, r))
        return out

    def e_cond(self, e, st):
        out = []
        for s, c in self.ev(e["c"], st):
            t, f = self.branch(s, self.tobool(s, c))
            for s2 in t:
                out.extend(self.ev(e["a"], s2))
            for s2 in f:
                out.extend(self.ev(e["b"], s2))
        return out

    def e_idx(self, e, st):
        out = []
        for s, (a, b) in self.evs([e["a"], e["b"]], st):
            if isinstance(a, Loc):
                sq = self.getseq(s, a)
                if sq is not None:
                    for s2, o in self.elem_at(s, a, b, e.get("l")):
                        out.append((s2, Loc(o)))
                    continue
                if isinstance(b, Poly):
                    out.extend(self.ptr_arith(s, "+", a, b))
                    continue
            if isinstance(a, Iter) and isinstance(b, Poly):
                for s2, o in self.deref_iter(s, models.it_step(self, s, a, b), e.get("l")):
                    out.append((s2, Loc(o)))
                continue
            self.unsup(s, "index")
            out.append((s, Loc(self.new_obj(s, e["t"], "unk"))))
        return out

    def e_zero(self, e, st):
        T = self.p.T(e["t"])
        if T.get("k") == "rec":
            return [(st, Loc(self.new_obj(st, e["t"], "zero")))]
        return [(st, self.zero_of(e["t"]))]

    def e_ilist(self, e, st):
        T = self.p.T(e["t"])
        if T.get("k") not in ("rec", "arr"):
            if len(e["a"]) == 1:
                return self.ev(e["a"][0], st)
            return [(st, self.zero_of(e["t"]))]
        out = []
        for s, vs in self.evs(e["a"], st):
            o = self.new_obj(s, e["t"], "zero")
            info = self.seq_t(e["t"])
            if T.get("k") == "rec" and info is None:
                R = self.p.records.get(T.get("rid"), {})
                for fld, v in zip(R.get("fields", ()), vs):
                    self.init_loc(s, Loc(o).f(fld["n"]), fld["t"], v)
            elif info is not None:
                # element-wise initialisation of a sequence
                if len(vs) == 1 and isinstance(vs[0], Loc) and isinstance(s.get(vs[0]), Seq):
                    # std::array brace elision: the inner array
                    self.copy_struct(s, Loc(o), vs[0])
                else:
                    self.make_seq(s, Loc(o), (info[0], info[1], len(vs) if info[2] is None else info[2]), False)
                    ss = [s]
                    for i, v in enumerate(vs):
                        ns = []
                        for x in ss:
                            for x2, eo in self.elem_at(x, Loc(o), Poly.const(i)):
                                self.init_loc(x2, Loc(eo), info[1], v)
                                ns.append(x2)
                        ss = ns
                    for x in ss:
                        out.append((x, Loc(o)))
                    continue
            out.append((s, Loc(o)))
        return out

    def init_loc(self, st, loc, t, v):
        """initialise storage of type t at loc from value v"""
        k = self.kindof(self.p.strip(t))
        if self.kindof(t) in ("ref", "rref"):
            st.put(loc, v)
        elif isinstance(v, Loc) and k in ("rec", "arr"):
            self.copy_struct(st, loc, v)
        elif isinstance(v, Loc) and k in ("int", "uint", "float", "bool", "enum"):
            st.put(loc, self.load(st, v, t))
        elif v is not None:
            st.put(loc, v)

    def e_lambda(self, e, st):
        o = self.new_obj(st, e["t"])
        d = st.heap[o]
        d["#lam"] = e["id"]
        for c in e["caps"]:
            if c.get("this"):
                d[("this",)] = st.frames[-1].this
            else:
                l = st.frames[-1].vars.get(c["id"])
                if l is None:
                    continue
                if c["byref"]:
                    d[("cap", c["id"])] = l
                else:
                    if isinstance(l, Loc):
                        n = self.copy_obj(st, l.obj) if not l.path else None
                        if n is None:
                            n = self.new_obj(st, self.type_at(st, l))
                            self.copy_struct(st, Loc(n), l)
                        d = st.heap[o]
                        d[("cap", c["id"])] = Loc(n)
        return [(st, Loc(o))]

    def e_new(self, e, st):
        self.unsup(st, "new")
        return [(st, Loc(self.new_obj(st, e["at"], "unk")))]

    def e_delete(self, e, st):
        self.unsup(st, "delete")
        return [(st, None)]

    def e_pseudodtor(self, e, st):
        return [(st, None)]

    # ------------------------------------------------------------------ calls
    def e_ctor(self, e, st):
        self.curloc = e.get("l", self.curloc)
        out = []
        for s, vs in self.evs(e["a"], st):
            o = self.new_obj(s, e["t"], "zero" if e.get("zero") else "undef")
            for s2 in self.construct(s, Loc(o), e, vs):
                out.append((s2, Loc(o)))
        return out

    def construct(self, st, loc, e, vs):
        """run constructor call e (ctor expr) on storage loc -> [st]"""
        f = self.p.functions.get(e["id"])
        fd = self.p.fdecls.get(e["id"], {})
        if e.get("copy") and (f is None or f.get("implicit") or f.get("defaulted")):
            v = vs[0]
            if isinstance(v, Loc):
                self.copy_struct(st, loc, v, self.slice_fields(f))
            elif v is not None:
                st.put(loc, v)
            return [st]
        if f is not None:
            return [s for s, _ in self.call_fn(st, f, vs, loc, e.get("l"))]
        r = models.construct(self, st, loc, e, vs)
        if r is not None:
            return r
        if e.get("def"):
            return [st]  # trivial / library default constructor
        self.unsup(st, "ctor " + str(fd.get("q")))
        d = dict(st.heap[loc.obj])
        d["#u"] = True
        st.heap[loc.obj] = d
        return [st]

    def call_value(self, st, fv, args):
        """call a function pointer / closure"""
        if isinstance(fv, Fn):
            f = self.p.functions.get(fv.id)
            if f:
                return self.call_fn(st, f, args, None, self.curloc)
            fd = self.p.fdecls.get(fv.id, {})
            return self.call_unknown(st, fd, args, None, fd.get("rt", -1))
        if isinstance(fv, Loc):
            d = st.heap.get(fv.obj, {})
            if "#lam" in d:
                f = self.p.functions.get(d["#lam"])
                if f:
                    return self.call_fn(st, f, args, fv, self.curloc, lam=d)
            # class functor: operator()
            t = self.type_at(st, fv)
            T = self.p.T(t) if t is not None else {}
            R = self.p.records.get(T.get("rid"), {})
            for m in R.get("methods", ()):
                if m["n"] == "operator()" and m["id"] in self.p.functions:
                    return self.call_fn(st, self.p.functions[m["id"]], args, fv, self.curloc)
        if fv is NULL:
            self.report("null", st, self.curloc, "call through a null function pointer")
            return []
        self.unsup(st, "indirect call")
        return [(st, UNK)]

    def e_call(self, e, st):
        loc = e.get("l")
        out = []
        if "fe" in e:
            for s, fv in self.ev(e["fe"], st):
                for s2, vs in self.evs(e["a"], s):
                    self.curloc = loc
                    if isinstance(fv, Loc) and self.kindof(self.p.strip(e["fe"].get("t", -1))) == "ptr":
                        v = s2.get(fv)
                        if isinstance(v, (Fn, Null)):
                            fv = v
                    out.extend(self.call_value(s2, fv, vs))
            return out
        fid = e["id"]
        f = self.p.functions.get(fid)
        q = e["q"]
        h = models.INTRINSICS.get(q)
        if h is not None:
            self.curloc = loc
            return h(self, e, st)
        exprs = ([e["obj"]] if "obj" in e else []) + e["a"]
        for s, vs in self.evs(exprs, st):
            self.curloc = loc
            if "obj" in e:
                obj, args = vs[0], vs[1:]
                if isinstance(obj, Iter) and self.kindof(self.p.strip(e["obj"].get("t", -1))) == "ptr":
                    for s2, o in self.deref_iter(s, obj, loc):
                        out.extend(self.call_resolved(s2, e, fid, f, q, Loc(o), args, loc))
                    continue
                if obj is NULL:
                    self.report("null", s, loc, "method call on a null pointer")
                    continue
                if e.get("arrow") and self.pointee_array(s, obj, e["obj"]) is not None:
                    for s2, o in self.elem_at(s, obj, ZERO):
                        out.extend(self.call_resolved(s2, e, fid, f, q, Loc(o), args, loc))
                    continue
            else:
                obj, args = None, vs
            out.extend(self.call_resolved(s, e, fid, f, q, obj, args, loc))
        return out

    def call_resolved(self, s, e, fid, f, q, obj, args, loc):
        hook = self.cfg.get("hooks", {}).get(q)
        if hook:
            r = hook(self, s, e, obj, args)
            if r is not None:
                return r
        if f is not None:
            if q.endswith("::operator=") and (f.get("implicit") or f.get("defaulted")) and isinstance(obj, Loc):
                if isinstance(args[0], Loc):
                    self.copy_struct(s, obj, args[0], self.slice_fields(f))
                return [(s, obj)]
            if isinstance(obj, Loc) and "#lam" in s.heap.get(obj.obj, {}):
                return self.call_fn(s, f, args, obj, loc, lam=s.heap[obj.obj])
            return self.call_fn(s, f, args, obj, loc)
        r = models.call(self, s, e, q, obj, args)
        if r is not None:
            return r
        if q.endswith("::operator=") and isinstance(obj, Loc) and args and isinstance(args[0], Loc):
            self.copy_struct(s, obj, args[0])
            return [(s, obj)]
        return self.call_unknown(s, self.p.fdecls.get(fid, {}), args, obj, e["t"])

    def call_unknown(self, st, fd, args, obj, rt):
        q = fd.get("q", "?")
        if not fd.get("noreturn"):
            self.unsup(st, "call " + q)
        else:
            return []
        for i, a in enumerate(args):
            if isinstance(a, Loc):
                pt = (fd.get("pt") or [])
                if i < len(pt):
                    T = self.p.T(pt[i])
                    if T.get("k") in ("ref", "ptr") and not self.p.T(T["to"]).get("const"):
                        self.havoc(st, a)
        if isinstance(obj, Loc) and not fd.get("const"):
            self.havoc(st, obj)
        T = self.p.T(rt)
        if T.get("k") in ("rec",) or T.get("k") in ("ref", "rref"):
            return [(st, Loc(self.new_obj(st, self.p.strip(rt), "unk")))]
        return [(st, self.fresh_of(st, rt) if rt is not None and rt >= 0 else None)]

    def havoc(self, st, loc):
        st.clear_prefix(loc)
        t = self.type_at(st, loc)
        if not loc.path:
            d = dict(st.heap[loc.obj])
            d["#u"] = True
            st.heap[loc.obj] = d
            if self.seq_t(t):
                self.getseq(st, loc)
        elif t is not None and self.kindof(t) != "rec":
            st.put(loc, self.fresh_of(st, t))
        elif t is not None and self.seq_t(t):
            self.make_seq(st, loc, self.seq_t(t), True)
        else:
            tmp = self.new_obj(st, t, "unk")
            self.force_fields(st, Loc(tmp), loc)

    def call_fn(self, st, f, args, this, loc, lam=None):
        self.called.add(f["id"])
        if self.depth > 60:
            self.unsup(st, "recursion depth")
            return [(st, self.fresh_of(st, f["rt"]))]
        again = sum(1 for fr in st.frames if fr.fid == f["id"])
        if again > 3 and (again > 40 or not all(a.isconst() for a in args if isinstance(a, Poly)) or not any(isinstance(a, Poly) for a in args)):
            self.unsup(st, "recursion " + f["q"])
            return [(st, self.fresh_of(st, f["rt"]))]
        pre = self.cfg.get("on_call")
        if pre:
            r = pre(self, st, f, args, this, loc)
            if r is not None:
                return r
        vars = {}
        for p, a in zip(f["params"], args):
            T = self.p.T(p["t"])
            if T.get("k") in ("ref", "rref"):
                if isinstance(a, Loc):
                    to = self.p.T(T["to"])
                    if to.get("k") == "ptr" and not self._is_ptr_storage(st, a):
                        o = self.new_obj(st, T["to"])
                        st.put(Loc(o), a)
                        vars[p["id"]] = Loc(o)
                    else:
                        vars[p["id"]] = a
                else:
                    o = self.new_obj(st, T["to"])
                    st.put(Loc(o), a)
                    vars[p["id"]] = Loc(o)
            elif T.get("k") == "rec":
                if isinstance(a, Loc):
                    vars[p["id"]] = a  # prvalue temporaries are already fresh copies (ctor node)
                else:
                    o = self.new_obj(st, p["t"])
                    if a is not None:
                        st.put(Loc(o), a)
                    vars[p["id"]] = Loc(o)
            else:
                o = self.new_obj(st, p["t"])
                if isinstance(a, Loc) and (self.kindof(p["t"]) in ("int", "uint", "float", "bool", "enum") or
                                           lam is not None and self.kindof(p["t"]) == "ptr" and models.is_slot(self, st, a)):
                    a = self.load(st, a, p["t"], loc)     # an element handed over by a library loop
                st.put(Loc(o), a)
                vars[p["id"]] = Loc(o)
        if lam is not None:
            for k, v in lam.items():
                if isinstance(k, tuple) and k and k[0] == "cap":
                    vars[k[1]] = v
            if ("this",) in lam:
                this = lam[("this",)]
        st.frames.append(Frame(f["id"], vars, this))
        self.depth += 1
        try:
            states = [st]
            if f.get("ctor"):
                states = self.ctor_inits(st, f)
            out = []
            for s in states:
                b = f["body"]
                if b is not None and b["k"] == "block" and "_par" not in b:
                    b["_par"] = [p["id"] for p in f["params"]]
                fl = self.ex(b, s)
                for s2, v in fl["r"]:
                    s2.frames.pop()
                    out.append((s2, v))
                for s2 in fl["n"]:
                    s2.frames.pop()
                    out.append((s2, None))
        finally:
            self.depth -= 1
        self.curloc = loc
        if len(out) > 12:
            out = self.dedupe_rets(out)
        return out

    def _is_ptr_storage(self, st, a):
        v = st.get(a)
        if isinstance(v, (Loc, Null, Fn, AnyElem, Undef)):
            return True
        t = self.type_at(st, a) if a.obj in st.heap else None
        return t is not None and self.kindof(t) == "ptr"

    def ctor_inits(self, st, f):
        states = [st]
        for ini in f.get("inits", ()):
            ns = []
            for s in states:
                this = s.frames[-1].this
                x = ini["e"]
                if "f" in ini:
                    tgt = this.f(ini["f"])
                    if x is None:
                        ns.append(s)
                        continue
                    if x["k"] == "ctor":
                        for s2, vs in self.evs(x["a"], s):
                            if x.get("zero"):
                                pass
                            ns.extend(self.construct_sub(s2, tgt, x, vs))
                    else:
                        for s2, v in self.ev(x, s):
                            self.init_loc(s2, tgt, ini["ft"], v)
                            ns.append(s2)
                else:
                    if x is not None and x["k"] == "ctor":
                        for s2, vs in self.evs(x["a"], s):
                            ns.extend(self.construct_base(s2, this, x, vs))
                    elif x is not None and x["k"] == "ilist":
                        ns.append(s)
                    else:
                        for s2, v in self.ev(x, s):
                            ns.append(s2)
            states = ns
        return states

    def construct_sub(self, st, loc, x, vs):
        """construct a member sub-object"""
        f = self.p.functions.get(x["id"])
        if f is not None and not (x.get("copy") and (f.get("implicit") or f.get("defaulted"))):
            return [s for s, _ in self.call_fn(st, f, vs, loc, x.get("l"))]
        return self.construct(st, loc, x, vs)

    def construct_base(self, st, this, x, vs):
        f = self.p.functions.get(x["id"])
        if f is not None:
            if x.get("copy"):
                return [st] if (f.get("implicit") or f.get("defaulted")) else [s for s, _ in self.call_fn(st, f, vs, this, x.get("l"))]
            return [s for s, _ in self.call_fn(st, f, vs, this, x.get("l"))]
        return [st]

    # ------------------------------------------------------------------ statements
    # flows: n (states), b, c (states), r [(st,val)]
    @staticmethod
    def flows(n=()):
        return {"n": list(n), "b": [], "c": [], "r": []}

    def ex(self, s, st):
        if s is None:
            return self.flows([st])
        m = getattr(self, "x_" + s["k"], None)
        if m is None:
            self.unsup(st, "stmt:" + s.get("cls", s["k"]))
            return self.flows([st])
        if "l" in s:
            self.curloc = s["l"]
        return m(s, st)

    def seqx(self, stmts, states):
        fl = self.flows()
        cur = list(states)
        for x in stmts:
            nxt = []
            for st in cur:
                f = self.ex(x, st)
                nxt.extend(f["n"])
                fl["b"] += f["b"]
                fl["c"] += f["c"]
                fl["r"] += f["r"]
            cur = nxt
            if len(cur) > 6:
                cur = self.dedupe(cur)
            if not cur:
                break
        fl["n"] = cur
        return fl

    def x_block(self, s, st):
        dead, alld = self.plan(s)
        fl = self.flows()
        cur = [st]
        for i, x in enumerate(s["s"]):
            nxt = []
            for st in cur:
                f = self.ex(x, st)
                nxt.extend(f["n"])
                fl["b"] += f["b"]
                fl["c"] += f["c"]
                fl["r"] += f["r"]
            cur = nxt
            d = dead[i]
            if d:
                for y in cur:
                    self.unbind(y, d)
            if len(cur) > 6:
                cur = self.dedupe(cur)
            if not cur:
                break
        fl["n"] = cur
        if alld:
            for k in ("b", "c"):
                for y in fl[k]:
                    self.unbind(y, alld)
        return fl

    def x_decls(self, s, st):
        return self.seqx(s["s"], [st])

    def x_decl(self, s, st):
        t = s["t"]
        T = self.p.T(t)
        if s.get("static"):
            if s["id"] in st.globals:
                st.bind(s["id"], st.globals[s["id"]])
                return self.flows([st])
        fl = self.flows()
        if "init" not in s:
            o = self.new_obj(st, t)
            st.bind(s["id"], Loc(o))
            fl["n"].append(st)
        elif T.get("k") in ("ref", "rref"):
            for s2, v in self.ev(s["init"], st):
                if isinstance(v, Loc):
                    s2.bind(s["id"], v)
                else:
                    o = self.new_obj(s2, T["to"])
                    if v is not None:
                        s2.put(Loc(o), v)
                    s2.bind(s["id"], Loc(o))
                fl["n"].append(s2)
        else:
            for s2, v in self.ev(s["init"], st):
                if isinstance(v, Loc) and T.get("k") in ("rec", "arr"):
                    # prvalue: adopt the temporary
                    if s["init"]["k"] in ("ctor", "call", "ilist", "lambda", "zero", "cond"):
                        s2.bind(s["id"], v)
                    else:
                        o = self.new_obj(s2, t)
                        self.copy_struct(s2, Loc(o), v)
                        s2.bind(s["id"], Loc(o))
                elif v is UNK and T.get("rec") == "std::pair":
                    self.unsup(s2, "unknown pair")
                    s2.bind(s["id"], Loc(self.new_obj(s2, t, "unk")))
                else:
                    o = self.new_obj(s2, t)
                    if v is not None:
                        s2.put(Loc(o), v)
                    s2.bind(s["id"], Loc(o))
                fl["n"].append(s2)
        if s.get("static"):
            for s2 in fl["n"]:
                s2.globals[s["id"]] = s2.frames[-1].vars[s["id"]]
        return fl

    def x_expr(self, s, st):
        return self.flows([s2 for s2, _ in self.ev(s["e"], st)])

    def x_null(self, s, st):
        return self.flows([st])

    def x_break(self, s, st):
        f = self.flows()
        st.trace = (s["l"],)
        f["b"].append(st)
        return f

    def x_continue(self, s, st):
        f = self.flows()
        f["c"].append(st)
        return f

    def x_return(self, s, st):
        f = self.flows()
        if "e" not in s:
            f["r"].append((st, None))
        else:
            f["r"].extend(self.ev(s["e"], st))
        return f

    def x_if(self, s, st):
        states = [st]
        fl = self.flows()
        if "init" in s and s["init"]:
            fl0 = self.ex(s["init"], st)
            states = fl0["n"]
        for st in states:
            if "cv" in s:
                f0 = self.x_decl(s["cv"], st)
                sts = f0["n"]
            else:
                sts = [st]
            for st1 in sts:
                for s2, c in self.ev(s["c"], st1):
                    t, f = self.branch(s2, self.tobool(s2, c))
                    for x in t:
                        self._acc(fl, self.ex(s["a"], x))
                    for x in f:
                        if s.get("b") is not None:
                            self._acc(fl, self.ex(s["b"], x))
                        else:
                            fl["n"].append(x)
        return fl

    @staticmethod
    def _acc(a, b):
        for k in a:
            a[k] += b[k]

    def x_switch(self, s, st):
        fl = self.flows()
        body = s["b"]["s"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten nested case labels
        items = []  # (labels, stmt)
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["b"]
            items.append((labels, x))
        for s2, v in self.ev(s["c"], st):
            vs = self.toint(s2, v)
            for s3, p in vs:
                rest = [s3]
                starts = []
                default = None
                for i, (labels, _) in enumerate(items):
                    for lb in labels:
                        if lb["k"] == "default":
                            default = i
                            continue
                        cv = self.ev(lb["v"], s3.fork())[0][1]
                        nr = []
                        for r in rest:
                            c = mkcmp("=", p - cv)
                            t, f = self.branch(r, c)
                            starts.extend((i, x) for x in t)
                            nr.extend(f)
                        rest = nr
                for r in rest:
                    if default is not None:
                        starts.append((default, r))
                    else:
                        fl["n"].append(r)
                for i, x in starts:
                    f = self.seqx([it[1] for it in items[i:] if it[1] is not None], [x])
                    fl["n"] += f["n"] + f["b"]
                    fl["c"] += f["c"]
                    fl["r"] += f["r"]
        return fl

    def x_case(self, s, st):
        return self.ex(s["b"], st)

    x_default = x_case

    def x_while(self, s, st):
        return self.loop([st], s["c"], s["b"], None, s)

    def x_do(self, s, st):
        f = self.ex(s["b"], st)
        entry = f["n"] + f["c"]
        g = self.loop(entry, s["c"], s["b"], None, s)
        g["n"] += f["b"]
        g["r"] += f["r"]
        return g

    def x_for(self, s, st):
        states = [st]
        if s.get("init"):
            states = self.ex(s["init"], st)["n"]
        fl = self.loop(states, s.get("c"), s["b"], s.get("inc"), s)
        d = self.declared(s.get("init"))
        if d:
            for k in ("n", "b", "c"):
                for y in fl[k]:
                    self.unbind(y, d)
        return fl

    def x_omp(self, s, st):
        h = self.cfg.get("on_omp")
        states = [st]
        if h:
            states = h(self, st, s)
        else:
            for c in s.get("clauses", ()):
                if c.get("k") == "schedule" and c.get("chunk"):
                    states = self.omp_chunk(states, s, c)
        fl = self.flows()
        for x in states:
            self._acc(fl, self.ex(s["b"], x))
        return fl

    def omp_chunk(self, states, s, c):
        out = []
        pre = []
        for k in ("pre", "pre2"):
            if s.get(k):
                pre.append(s[k])
        for st in states:
            sts = [st]
            if s.get("pre2"):
                sts = self.ex(s["pre2"], st)["n"]
            for x in sts:
                for s2, v in self.ev(c["chunk"], x):
                    ev = self.events.setdefault(("chunk", s["l"]), {"ok": 0, "bad": 0, "imp": []})
                    if isinstance(v, Poly) and s2.ent("<", -v):
                        ev["ok"] += 1
                    else:
                        ev["bad"] += 1
                        ev["imp"].append(sorted(s2.imp))
                        self.report("chunk", s2, s["l"], "schedule chunk size is not provably >= 1")
                    out.append(s2)
        return out

    # range-for: hidden cursor
    def x_forrange(self, s, st):
        fl = self.flows()
        starts = []
        for s2, r in self.ev(s["range"], st):
            r = models.basevec(self, s2, r)
            if isinstance(r, Loc) and self.getseq(s2, r) is not None:
                starts.append((s2, Iter(r, None, ZERO), None))
                continue
            # a class with its own begin and end, which return pointers into one container
            ok = False
            if isinstance(r, Loc) and "bi" in s:
                s2.bind(s["rv"], r)
                for s3, (a, b) in self.evs([s["bi"], s["ei"]], s2):
                    a, b = self.as_iter(s3, a), self.as_iter(s3, b)
                    if a is not None and b is not None and a.seq == b.seq:
                        pa, pb = models.iter_pos(self, s3, a), models.iter_pos(self, s3, b)
                        if pa is not None and pb is not None:
                            self.unbind(s3, [s["rv"]])
                            starts.append((s3, Iter(a.seq, None, pa), pb))
                            ok = True
            if not ok:
                self.unsup(s2, "range-for over unknown")
                fl["n"].append(s2)
        for s2, first, last in starts:
            cur = self.new_obj(s2, -1)
            s2.put(Loc(cur), first)
            cid = ("rng", id(s))
            s2.bind(cid, Loc(cur))
            node = {"k": "for", "l": s.get("l")}

            def cond(st, cid=cid, last=last):
                l = st.frames[-1].vars[cid]
                it = st.get(l)
                n = last if last is not None else self.getseq(st, it.seq).size
                return [(st, mkcmp("<", it.pos - n) if it.pos is not None else UNK)]

            def body(st, cid=cid):
                l = st.frames[-1].vars[cid]
                it = st.get(l)
                f = self.flows()
                for st2, o in self.deref_iter(st, it):
                    T = self.p.T(s["var"]["t"])
                    if T.get("k") in ("ref", "rref"):
                        st2.bind(s["var"]["id"], Loc(o))
                    else:
                        n = self.new_obj(st2, s["var"]["t"])
                        self.copy_struct(st2, Loc(n), Loc(o))
                        st2.bind(s["var"]["id"], Loc(n))
                    self._acc(f, self.ex(s["b"], st2))
                return f

            def inc(st, cid=cid):
                l = st.frames[-1].vars[cid]
                it = st.get(l)
                if it.pos is None:
                    self.unsup(st, "range-for cursor lost")
                    return []
                st.put(l, Iter(it.seq, None, it.pos + 1))
                self.unbind(st, [s["var"]["id"]])
                return [(st, None)]

            f = self.loop([s2], cond, body, inc, dict(node, _fi=self.fixed_indices(s["b"])))
            for x in f["n"]:
                v = dict(x.frames[-1].vars)
                v.pop(cid, None)
                v.pop(s["var"]["id"], None)
                x.frames[-1].vars = v
            self._acc(fl, f)
        return fl

    # ------------------------------------------------------------------ loops
    def loop(self, entry, cond, body, inc, node):
        self.loops += 1
        nin, t0 = len(entry), time.time()
        evc = cond if callable(cond) else ((lambda st: self.ev(cond, st)) if cond is not None else (lambda st: [(st, True)]))
        exb = body if callable(body) else (lambda st: self.ex(body, st))
        evi = inc if callable(inc) else ((lambda st: self.ev(inc, st)) if inc is not None else (lambda st: [(st, None)]))
        heads = {}
        order = []
        lhook = self.cfg.get("on_loop_iter")
        tags = []
        if not self.cfg.get("exact"):
            entry, tags = self.split_indices(entry, node)

        def add(st):
            for st1 in self.concretise(st):
                ci = Canon(self, st1)
                h = heads.get(ci.skel)
                if h is None:
                    heads[ci.skel] = {"c": ci, "dirty": True, "n": 0, "out": None}
                    if DBG == "3" and self.depth < 9:
                        print("  NEWHEAD", node.get("l"), len(heads), sorted(map(repr, ci.st.cons)))
                        ci.dump()
                    order.append(ci.skel)
                else:
                    if merge(self, h["c"], ci, h.get("guards", ())):
                        h["dirty"] = True
                        if DBG == "3" and self.depth < 9:
                            print("  DIRTY", order.index(ci.skel), sorted(map(repr, h["c"].st.cons)))
                            h["c"].dump()
            if len(heads) > self.cfg.get("maxheads", 150):
                raise Stuck("too many loop classes at %s" % node.get("l"))

        done = self.flows()
        if self.cfg.get("unroll"):
            entry = self.unroll(entry, evc, exb, evi, done)
        for st in entry:
            st.trace = ()
            add(st)
        rounds = 0
        while True:
            dirty = [k for k in order if heads[k]["dirty"]]
            if not dirty:
                break
            k = dirty[0]
            h = heads[k]
            h["dirty"] = False
            h["n"] += 1
            rounds += 1
            if h["n"] > 14:
                # widen: forget all constraints of this class
                self.unsup(h["c"].st, "loop widening %s" % node.get("l"))
                h["c"].st.cons = frozenset()
            if h["n"] > 20:
                raise Stuck("loop does not stabilise at %s" % node.get("l"))
            st = h["c"].st.fork()
            out = self.flows()
            self.guardlog, og = [], self.guardlog
            tested = []
            for s2, c in evc(st):
                t, f = self.branch(s2, self.tobool(s2, c))
                tested.append((t, f))
            guards, self.guardlog = self.guardlog, og
            h["guards"] = guards
            for t, f in tested:
                out["n"] += f
                for x in t:
                    before = x.fork() if lhook else None
                    fl = exb(x)
                    out["n"] += fl["b"]
                    out["r"] += fl["r"]
                    nexts = fl["n"] + fl["c"]
                    after = []
                    for y in nexts:
                        for z, _ in evi(y):
                            after.append(z)
                    if lhook:
                        lhook(self, node, before, after, out)
                    if len(after) > 6:
                        after = self.dedupe(after)
                    for z in after:
                        z.trace = ()
                        add(z)
            h["out"] = out
        fl = self.flows()
        self._acc(fl, done)
        for k in order:
            self._acc(fl, heads[k]["out"])
        if DBG == "4":
            print("LOOPOUT", node.get("l"))
            for x in fl["n"]:
                print("   ==", sorted(map(repr, x.cons)))
                Canon.dump(type("D", (), {"st": x}))
        if DBG:
            print("%sLOOP %s in=%d heads=%d rounds=%d out=%d t=%.1f" % (
                "  " * self.depth, node.get("l", "?").rsplit("/", 1)[-1], nin, len(heads), rounds, len(fl["n"]), time.time() - t0), flush=True)
            if DBG == "2" and len(heads) > 6:
                hs = [heads[k]["c"] for k in order]
                ref = hs[0].skel
                for h in hs[1:]:
                    print("      diff", [(a, b) for a, b in zip(ref, h.skel) if a != b][:4], len(ref), len(h.skel))
        if len(fl["n"]) > 1:
            fl["n"] = self.dedupe(fl["n"], 2)
        if tags:
            for xs in fl.values():
                for x in xs:
                    x = x[0] if isinstance(x, tuple) else x
                    x.ghost = {k: v for k, v in x.ghost.items() if k not in tags}
        return fl

    def unroll(self, entry, evc, exb, evi, done):
        """run the iterations whose condition is decided one by one; -> states left for the fixpoint"""
        rest, cur = [], list(entry)
        for _ in range(self.cfg["unroll"]):
            nxt = []
            for st in cur:
                keep = st.fork()
                res = [(s2, self.decide(s2, self.tobool(s2, c))) for s2, c in evc(st)]
                if any(d is None for _, d in res):
                    rest.append(keep)
                    continue
                for s2, d in res:
                    if not d:
                        done["n"].append(s2)
                        continue
                    fl = exb(s2)
                    done["n"] += fl["b"]
                    done["r"] += fl["r"]
                    for y in fl["n"] + fl["c"]:
                        nxt.extend(z for z, _ in evi(y))
            cur = self.dedupe(nxt) if len(nxt) > max(6, self.cfg.get("maxper", 0)) else nxt
            if not cur:
                break
            if len(cur) > max(40, 4 * self.cfg.get("maxper", 0)):
                if self.cfg.get("exact"):       # what follows is no longer one case at a time
                    for x in cur:
                        x.imp = x.imp | frozenset(["too many cases"])
                break
        return rest + cur

    def concretise(self, st):
        """decide stored boolean formulas by forking"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            hit = None
            for o, d in s.heap.items():
                for p, v in d.items():
                    if isinstance(v, tuple) and v and not isinstance(p, str) and iscond(v) and v[0] != "b" and not (v[0] == "n" and v[1][0] == "b"):
                        if self._is_template(s, o):
                            continue
                        hit = (o, p, v)
                        break
                if hit:
                    break
            if not hit:
                out.append(s)
                continue
            o, p, v = hit
            t, f = self.branch(s, v)
            for x in t:
                x.put(Loc(o, p), True)
                work.append(x)
            for x in f:
                x.put(Loc(o, p), False)
                work.append(x)
        return out

    def _is_template(self, s, o):
        return False

    def dedupe(self, states, maxper=1):
        """drop subsumed states; join the states of one skeleton when there are many"""
        seen = {}
        order = []
        for s in states:
            for s1 in self.concretise(s):
                c = Canon(self, s1, True)
                sk = (c.skel, tuple(x.key if x.isconst() else None for x in c.slots), s1.trace)
                g = seen.get(sk)
                if g is None:
                    g = seen[sk] = []
                    order.append(sk)
                key = tuple(x.key for x in c.slots)
                if any(k == key and o.st.cons <= c.st.cons and o.st.imp >= c.st.imp for k, o in g):
                    continue
                g[:] = [(k, o) for k, o in g if not (k == key and c.st.cons <= o.st.cons and c.st.imp >= o.st.imp)]
                g.append((key, c))
        out = []
        for sk in order:
            g = seen[sk]
            if len(g) > max(maxper, self.cfg.get("maxper", 0)):
                h = g[0][1]
                for _, c in g[1:]:
                    merge(self, h, c)
                out.append(h.st)
            else:
                out.extend(c.st for _, c in g)
        return out

    def dedupe_rets(self, rets):
        if any(not s.frames for s, _ in rets):
            return rets
        groups = {}
        for s, v in rets:
            groups.setdefault(type(v).__name__, []).append((s, v))
        out = []
        rid = ("ret", 0)
        for s, v in rets:
            if v is None or isinstance(v, (bool, Poly, Loc, Iter)):
                o = self.new_obj(s, -1)
                if v is not None:
                    s.put(Loc(o), v)
                s.bind(rid, Loc(o))
                out.append(s)
            else:
                out.append(None)
        if any(x is None for x in out):
            for s, v in rets:
                vv = dict(s.frames[-1].vars)
                vv.pop(rid, None)
                s.frames[-1].vars = vv
            return rets
        res = []
        for s in self.dedupe(out):
            l = s.frames[-1].vars[rid]
            v = s.get(l)
            vv = dict(s.frames[-1].vars)
            vv.pop(rid, None)
            s.frames[-1].vars = vv
            res.append((s, v))
        return res


PINNED = ("list",)


NREL = 3


class Canon:
    """canonical skeleton of a state: everything but the numbers"""

    def __init__(self, I, st, fine=False):
        self.I = I
        self.st = st
        self.owned = set()
        self.fine = fine
        self.build()

    def roots(self):
        st = self.st
        r = []
        for i, f in enumerate(st.frames):
            r.append(("fr", i, f.fid))
            if isinstance(f.this, Loc):
                r.append(f.this)
            for k in sorted(f.vars, key=repr):
                r.append(("v", k if not isinstance(k, tuple) else k))
                r.append(f.vars[k])
        for k in sorted(st.globals):
            r.append(("g", k))
            r.append(st.globals[k])
        return r

    def pin(self, v):
        """the materialised element an iterator stands on is kept apart from the summary"""
        st = self.st
        if v.elem is None and v.pos is not None and v.seq.obj in st.heap:
            q = st.heap[v.seq.obj].get(v.seq.path)
            if isinstance(q, Seq) and q.kind in PINNED:
                for m in q.mats:
                    if m[0] == v.pos:
                        return m[1]
        return None

    def reach(self):
        """objects reachable without going through materialised anonymous elements"""
        st = self.st
        seen = set()
        work = []

        def push(o):
            if isinstance(o, int) and o in st.heap and o not in seen:
                seen.add(o)
                work.append(o)

        def val(v, p=(), d={}):
            if isinstance(v, Loc):
                push(v.obj)
            elif isinstance(v, Iter):
                push(v.seq.obj)
                if isinstance(v.elem, int):
                    push(v.elem)
                else:
                    push(self.pin(v))
            elif isinstance(v, AnyElem):
                push(v.seq.obj)
            elif isinstance(v, Seq):
                if v.felem is not None:
                    push(v.felem)
                if v.tmpl is not None:
                    push(v.tmpl)
                if v.ptmpl is not None:
                    push(v.ptmpl)
                if v.otmpl is not None:
                    push(v.otmpl)
                if isinstance(v.attr, tuple) and isinstance(v.attr[1], Loc):
                    push(v.attr[1].obj)
                for m in self.I.kept(v, p, d):
                    push(m[1])
        for r in self.roots():
            val(r)
        if st.focus is not None:
            push(st.focus)
        for k, v in st.ghost.items():
            val(v)
        ints = None
        self.slots_kept = set()
        while True:
            while work:
                o = work.pop()
                for p, v in st.heap[o].items():
                    val(v, p, st.heap[o])
            # the slot of a pointer vector that a live index denotes, while its target is also referred to directly
            for o in list(seen):
                for p, v in st.heap[o].items():
                    if isinstance(v, Seq) and v.kind == "vector" and v.mats:
                        for m in v.mats:
                            if m[1] in seen or m[1] not in st.heap:
                                continue
                            t = st.heap[m[1]].get(())
                            if not (isinstance(t, Loc) and not t.path and t.obj in seen and st.heap[t.obj].get("#anon")):
                                continue
                            if ints is None:
                                ints = set()
                                for f in st.frames[-3:]:
                                    for x in f.vars.values():
                                        if isinstance(x, Loc) and not x.path and x.obj in st.heap:
                                            y = st.heap[x.obj].get(())
                                            if isinstance(y, Poly) and y.isint():
                                                ints.add(y.key)
                            if m[0].key in ints:
                                self.slots_kept.add(m[1])
                                push(m[1])
            if not work:
                return seen

    def build(self):
        st, I = self.st, self.I
        # drop unreferenced materialised elements, folding modified ones
        for _ in range(3):
            seen = self.reach()
            again = False
            for o in list(seen):
                d = st.heap.get(o)
                for p, v in list(d.items()):
                    if isinstance(v, Seq) and v.mats:
                        keep = []
                        for m in v.mats:
                            if m[1] in seen:
                                keep.append(m)
                        if len(keep) != len(v.mats):
                            lost = [m for m in v.mats if m[1] not in seen]
                            st.put(Loc(o, p), v.rep(mats=tuple(keep)))
                            for pos, mo, orig in lost:
                                q = st.get(Loc(o, p))
                                if mo in st.heap and (orig is None or st.heap[mo] is not orig or q.cut is not None and not st.ent("<", pos - q.cut)):
                                    I.fold(st, Loc(o, p), mo, pos)
                                    again = True
            if not again:
                break
        seen = self.reach()
        if I.cfg.get("prefix"):
            # a prefix that ends at the tracked element extends over it once every iterator has passed
            its = {}
            for o in seen:
                for p, v in st.heap[o].items():
                    if isinstance(v, Iter) and v.pos is not None and v.seq is not None:
                        its.setdefault((v.seq.obj, v.seq.path), []).append(v.pos)
            loc = [st.heap[l.obj].get(()) for l in (st.frames[-1].vars.values() if st.frames else ())
                   if isinstance(l, Loc) and not l.path and l.obj in st.heap]
            loc = [v for v in loc if isinstance(v, Poly) and v.isint()]
            for o in seen:
                for p, v in list(st.heap[o].items()):
                    if isinstance(v, Seq) and v.cut is not None:
                        v = I.collapse(st, Loc(o, p), v)
                        ps = its.get((o, p), ())
                        if v.cut is not None and v.fidx is not None and st.ent("=", v.fidx - v.cut) and \
                                (ps and all(st.ent("<", v.fidx - q) for q in ps) or not ps and any(st.ent("=", v.fidx + 1 - q) for q in loc)):
                            st.put(Loc(o, p), v.rep(cut=v.cut + 1))
        num = {}
        order = []
        slots = []
        addr = []
        skel = []
        self.bslots = []
        pend = []
        tsyms = set()

        def ref(o):
            if not isinstance(o, int):
                return o
            if o not in num:
                num[o] = len(order)
                order.append(o)
            return num[o]

        def slot(p, a):
            slots.append(p)
            addr.append(a)

        def val(v, o, path):
            if isinstance(v, Poly):
                slot(v, (o, path, "v"))
                return "N"
            if v is True or v is False:
                return v
            if isinstance(v, Loc):
                return ("L", ref(v.obj), v.path)
            if isinstance(v, Iter):
                r = ("I", ref(v.seq.obj), v.seq.path, ref(v.elem), v.pos is None, ref(self.pin(v)))
                if v.pos is not None:
                    slot(v.pos, (o, path, "pos"))
                    s = st.get(v.seq)
                    if isinstance(s, Seq) and s.fidx is not None:
                        d = v.pos - s.fidx
                        if st.ent("<=", d):
                            rel = "<="
                        elif st.ent("<", -d):
                            rel = ">"
                        else:
                            rel = "?"
                        r = r + (rel,)
                return r
            if isinstance(v, AnyElem):
                return ("A", ref(v.seq.obj), v.seq.path)
            if isinstance(v, Seq):
                slot(v.size, (o, path, "size"))
                if v.fidx is not None:
                    slot(v.fidx, (o, path, "fidx"))
                if v.cut is not None:
                    slot(v.cut, (o, path, "cut"))
                if v.rows is not None:
                    slot(v.rows, (o, path, "rows"))
                    slot(v.cols, (o, path, "cols"))
                pend.append((o, path))
                tsyms.update(v.tsyms)
                a = v.attr if not isinstance(v.attr, tuple) else ("sorted", ref(v.attr[1].obj) if isinstance(v.attr[1], Loc) else None)
                ks = I.kept(v, path, st.heap[o]) if o in st.heap else ()
                if self.slots_kept:
                    ks = list(ks) + [m for m in v.mats if m[1] in self.slots_kept and m not in ks]
                if ks:
                    a = (a,) + tuple(ref(m[1]) for m in sorted(ks, key=lambda m: m[0].cval() if m[0].isconst() else -1))
                return ("S", v.kind, ref(v.felem) if v.felem is not None else None,
                        ref(v.tmpl) if v.tmpl is not None else None, a, v.rows is None, ref(v.ptmpl), ref(v.otmpl))
            if isinstance(v, tuple) and v and v[0] in ("b", "n", "c", "and", "or"):
                d = I.decide(st, v)
                if d is not None:
                    return d
                self.bslots.append((o, path))
                return "B?"
            if isinstance(v, Fn):
                return ("F", v.id)
            if isinstance(v, tuple) and v and v[0] == "str":
                return v
            return type(v).__name__
        for r in self.roots():
            if isinstance(r, Loc):
                skel.append(("L", ref(r.obj), r.path))
            else:
                skel.append(r)
        if st.focus is not None:
            skel.append(("focus", ref(st.focus)))
        for k in sorted(st.ghost):
            v = st.ghost[k]
            if isinstance(v, (Loc, Iter)):
                skel.append((k, val(v, None, k)))
            elif isinstance(v, Poly):
                skel.append((k, v.key))
            else:
                skel.append((k, v))
        i = 0
        while True:
            while i < len(order):
                o = order[i]
                i += 1
                d = st.heap.get(o)
                if d is None:
                    skel.append((num[o], "gone"))
                    continue
                items = []
                for p in sorted(d, key=lambda x: (isinstance(x, str), repr(x))):
                    v = d[p]
                    if isinstance(p, str):
                        if p in ("#own",):
                            continue
                        items.append((p, v if not isinstance(v, (Loc,)) else 0))
                    else:
                        items.append((p, val(v, o, p)))
                skel.append((num[o], tuple(items)))
            # materialised elements that are referenced
            grew = False
            for o, path in pend:
                v = st.heap[o][path]
                mm = []
                for k, m in enumerate(v.mats):
                    if m[1] in num:
                        mm.append((num[m[1]], k, m[0]))
                mm.sort(key=lambda x: x[0])
                for n, k, pos in mm:
                    slot(pos, (o, path, ("mat", k)))
                skel.append(("m", tuple(x[0] for x in mm)))
            pend = []
            if i >= len(order):
                break
        # position predicates of integer locals against focus indexes
        if st.frames:
            fidxs = []
            for o in order:
                for p, v in st.heap.get(o, {}).items():
                    if isinstance(v, Seq) and v.fidx is not None and not any(v.fidx == f for f in fidxs):
                        fidxs.append(v.fidx)
            rel = []
            for l in [fr.vars[k] for fr in st.frames[-NREL:] for k in sorted(fr.vars, key=repr)]:
                if not isinstance(l, Loc) or l.path or l.obj not in st.heap:
                    continue
                v = st.heap[l.obj].get(())
                if isinstance(v, Poly) and len(fidxs) <= 4 and v.isint() and I.kindof(st.heap[l.obj].get("#t", -1)) in ("int", "uint"):
                    for f in fidxs:
                        d = v - f
                        if st.ent("<=", d):
                            rel.append("=" if self.fine and st.ent("<=", -d) else "<=")
                        elif st.ent("<", -d):
                            rel.append(">")
                        else:
                            rel.append("?")
            skel.append(tuple(rel))
        self.slots = slots
        self.addr = addr
        self.order = order
        self.tsyms = tsyms
        self.skel = tuple(skel)
        # garbage: objects and constraints
        st.heap = {o: d for o, d in st.heap.items() if o in num}
        live = set()
        for p in slots:
            live |= p.deep_atoms()
        live |= tsyms
        for k, v in st.ghost.items():
            if isinstance(v, Poly):
                live |= v.deep_atoms()
        live = P.with_apps(live, st.cons)
        gone = project(st.cons, live)
        if I.cfg.get("exact") and P.lost_doubt(st.cons, gone):
            st.imp = st.imp | frozenset(["nonlinear condition without a witness"])
        st.cons = gone
        for o, path in self.bslots:
            st.put(Loc(o, path), ("b", fresh("int", "bool").single()))
        st.bools = {}
        self.live = live

    def invariants(self):
        """structural facts of containers, which must survive every weakening"""
        st = self.st
        for o in self.order:
            for p, v in st.heap.get(o, {}).items():
                if isinstance(v, Seq):
                    fs = [("<=", -v.size)]
                    if v.fidx is not None:
                        fs = [("<=", -v.fidx), ("<", v.fidx - v.size)]
                    if v.cut is not None:
                        fs = fs + [("<=", -v.cut), ("<=", v.cut - v.size)]
                    for k, q in fs:
                        c = cnorm(k, q)
                        if c not in (True, False) and not st.ent(*c):
                            st.cons = st.cons | {c}

    def dump(self):
        st = self.st
        for o, d in sorted(st.heap.items()):
            print("      ", o, "FOCUS" if o == st.focus else "", {(".".join(map(str, p)) if isinstance(p, tuple) else p): v for p, v in d.items()})
        print("      frames", [(f.fid, f.vars) for f in st.frames], "ghost", st.ghost, "globals", st.globals)

    def set_slot(self, j, v):
        o, path, role = self.addr[j]
        st = self.st
        if o is None:
            old = st.ghost[path]
            if role == "v":
                st.ghost[path] = v
            elif role == "pos":
                st.ghost[path] = Iter(old.seq, old.elem, v)
            self.slots[j] = v
            return
        old = st.heap[o][path]
        if role == "v":
            new = v
        elif role == "pos":
            new = Iter(old.seq, old.elem, v)
        elif role in ("size", "fidx", "rows", "cols", "cut"):
            new = old.rep(**{"cut": old.cut, role: v})
        else:
            k = role[1]
            m = old.mats[k]
            new = old.rep(mats=old.mats[:k] + ((v, m[1], m[2]),) + old.mats[k + 1:])
        st.put(Loc(o, path), new)
        self.slots[j] = v


def _cond_atoms(c, out):
    if isinstance(c, tuple) and c:
        if c[0] == "c":
            if len(out) < 12 and (c[1], c[2]) not in out:
                out.append((c[1], c[2]))
        else:
            for x in c[1:]:
                _cond_atoms(x, out)


def guard_forms(guards):
    """weak inequalities suggested by the conditions a loop tests"""
    for k, p in guards:
        yield "<=", p
        yield "<=", -p
        if p.isint():
            yield "<=", p - 1
            yield "<=", -p - 1


def live_bounds(S, v, live, owned):
    """upper (+1) and lower (-1) bounds of v over quantities alive on both sides, when v mentions one dead monomial"""
    dead = [m for m in v.t if any(a not in live or a in owned for a in m)]
    if len(dead) != 1 or (len(dead[0]) < 2 and P.ATOMS[dead[0][0]].name != "u01"):
        return []
    m = dead[0]
    rest = Poly({k: c for k, c in v.t.items() if k != m})
    out = []
    for k, p in S.cons:
        if k == "=" or m not in p.t:
            continue
        c = Fraction(p.t[m])
        r = Poly({q: w for q, w in p.t.items() if q != m})
        if any(a not in live or a in owned for a in r.atoms()):
            continue
        b = r.scale(-1 / c)                 # m <= b when c > 0, m >= b when c < 0
        w = Fraction(v.t[m])
        out.append((1 if (c > 0) == (w > 0) else -1, rest + b.scale(w)))
    return out[:8]


def merge(I, H, N, guards=()):
    """widen/join N into H (same skeleton). True if H changed."""
    hs, ns = H.slots, N.slots
    HS, NS = H.st, N.st
    owned = H.owned | H.tsyms
    subst = {}
    owner = {}
    for j, h in enumerate(hs):
        a = h.single()
        if a is not None and a in owned and a not in subst:
            subst[a] = ns[j]
            owner[a] = j
    own_slots = set(owner.values())
    # anonymous quantities that only occur inside other values: match those of N with those of H
    for j, h in enumerate(hs):
        if j in own_slots or h.isconst() or h.key == ns[j].key or h.single() is not None or h.isint():
            continue
        hv = h.subst(subst)
        if hv == ns[j]:
            continue
        ua = [a for a in hv.atoms() if a not in N.live and a not in owned and a not in subst]
        ub = [b for b in ns[j].atoms() if b not in H.live]
        if len(ua) == 1 and len(ub) == 1 and P.ATOMS[ua[0]].kind == P.ATOMS[ub[0]].kind and P.ATOMS[ua[0]].op is None and \
                hv.subst({ua[0]: Poly({(ub[0],): 1})}) == ns[j]:
            subst[ua[0]] = Poly({(ub[0],): 1})
    gen = []
    for j, h in enumerate(hs):
        if j in own_slots:
            continue
        hv = h.subst(subst)
        if hv == ns[j] or NS.ent("=", hv - ns[j]):
            continue
        gen.append(j)
        if DBG == "5":
            print("GEN", getattr(I, "curloc", None), H.addr[j], hs[j], "<-", ns[j], "|", hv)
    changed = False
    if NS.imp - HS.imp:
        HS.imp = HS.imp | NS.imp
        changed = True
    if not gen:
        keep = set()
        for c in HS.cons:
            p = c[1].subst(subst)
            if _holds(NS, c[0], p):
                keep.add(c)
            else:
                changed = True
                if c[0] == "<" and not p.isint():
                    d, dn = cnorm("<=", c[1]), cnorm("<=", p)
                    if d not in (True, False) and _holds(HS, d[0], d[1]) and (dn is True or (dn is not False and _holds(NS, dn[0], dn[1]))):
                        keep.add(d)
        if DBG == "5" and changed:
            for c in HS.cons:
                if c not in keep:
                    print("LOST", getattr(I, "curloc", None), c, "|", c[1].subst(subst), "| N has", [d for d in NS.cons if d[1].atoms() & c[1].subst(subst).atoms()])
        if changed:
            # a lost constraint may have been the only witness of a weaker one
            weak = set()
            vals = []
            seenk = set()
            for j, h in enumerate(hs):
                if h.key not in seenk:
                    seenk.add(h.key)
                    vals.append((h, ns[j]))

            def cand0(k, p):
                c = cnorm(k, p)
                if c not in (True, False):
                    weak.add(c)
            lost = set()
            for c in HS.cons:
                if c not in keep:
                    lost |= c[1].atoms()
            near = set(lost)
            for c in HS.cons:
                if c[1].atoms() & lost:
                    near |= c[1].atoms()
            singles = {h.single(): h for h in hs if h.single() is not None}
            for a, y in singles.items():
                if a not in near:
                    continue
                cand0("<=", y)
                cand0("<=", -y)
                if y.isint():
                    cand0("<", -y)
                if a not in lost:
                    continue
                for v, _ in vals:
                    if v.isint() == y.isint() and v is not y:
                        cand0("<=", y - v)
                        cand0("<=", v - y)
                        if y.isint():
                            cand0("<", y - v)
                            cand0("<", v - y)
            for j, h in enumerate(hs):
                a, n = h.single(), ns[j]
                if a in lost and a in owned and not n.isconst() and all(x in H.live and x not in owned for x in n.atoms()):
                    cand0("<=", h - n)
                    cand0("<=", n - h)
            for k, p in guard_forms(guards):
                cand0(k, p)
            fixed = {a for a in H.live & N.live if a not in owned}
            if fixed & lost:
                for S in (HS, NS):
                    weak |= P.project(frozenset(c for c in S.cons if c[1].atoms() & fixed), fixed)
            for c in weak:
                if c in keep or not (c[1].atoms() <= H.live):
                    continue
                if _holds(HS, c[0], c[1]) and _holds(NS, c[0], c[1].subst(subst)):
                    keep.add(c)
            HS.cons = P.minimise(frozenset(keep))
            H.invariants()
        return changed
    ysyms = {}
    mapH, mapN = {}, dict(subst)
    tset = {}
    tmpls = {t for d in HS.heap.values() for v in d.values() if isinstance(v, Seq) for t in (v.tmpl, v.ptmpl, v.otmpl) if t is not None}
    shared = {}
    for j in gen:
        isint = hs[j].isint() and ns[j].isint()
        o = H.addr[j][0]
        up = set()
        while o is not None and o not in tmpls and o not in up:
            up.add(o)
            own = HS.heap.get(o, {}).get("#own")
            o = own.obj if isinstance(own, Loc) else None
        sk = (hs[j].key, ns[j].key, o if o in tmpls else None)
        y = shared.get(sk)
        if y is not None:
            ysyms[j] = y
            continue
        y = shared[sk] = fresh("int" if isint else "real", slotname(H, j))
        ysyms[j] = y
        a = y.single()
        mapH[a] = hs[j]
        mapN[a] = ns[j]
    cands = set()

    def cand(k, p):
        c = cnorm(k, p)
        if c not in (True, False):
            cands.add(c)
    for c in HS.cons:
        cands.add(c)
        if c[0] == "=":
            cand("<=", c[1])
            cand("<=", -c[1])
            for a in c[1].atoms():
                if a in owned and P.ATOMS[a].kind == "int":
                    cand("<=", -Poly({(a,): 1}))
    # rewriting of constraints through slot values
    slotsym = {}
    for j in gen:
        slotsym[j] = ysyms[j]
    for a, j in owner.items():
        slotsym[j] = Poly({(a,): 1})

    def rewriters(vals):
        rw = {}
        for j, y in slotsym.items():
            v = vals[j]
            lin = [m for m in v.t if m]
            if len(lin) == 1 and len(lin[0]) == 1 and v.t[lin[0]] in (1, -1):
                a = lin[0][0]
                k = v.t[lin[0]]
                cst = Poly.const(v.cval())
                rw.setdefault(a, []).append((y - cst).scale(k))
            elif len(lin) == 2 and all(len(m) == 1 for m in lin):
                for m in lin:
                    if v.t[m] in (1, -1):
                        rest = Poly({n: c for n, c in v.t.items() if n != m})
                        if not any(x in owned for x in rest.atoms()):
                            rw.setdefault(m[0], []).append((y - rest).scale(v.t[m]))
        return rw
    # values built from quantities that are generalised themselves
    ren = {}
    for j in gen:
        a = hs[j].single()
        if a is not None and a not in ren:
            ren[a] = ysyms[j]
    for j in gen:
        if hs[j].single() is None and not hs[j].isconst() and not hs[j].isint() and any(a in ren for a in hs[j].atoms()):
            cand("=", ysyms[j] - hs[j].subst({a: y for a, y in ren.items() if a in hs[j].atoms()}))
    common_live = H.live & N.live
    for S, vals in ((HS, hs), (NS, ns)):
        rw = rewriters(vals)
        for k, p in list(S.cons) + (list(guard_forms(guards)) if S is HS else []):
            at = p.atoms()
            if S is HS and (k, p) not in S.cons:
                cand(k, p)
            xs = [a for a in at if a in rw]
            if not xs or len(xs) > 3:
                continue
            opts = [{}]
            for a in xs:
                alt = rw[a][:4]
                no = []
                for o in opts:
                    for r in alt:
                        q = dict(o)
                        q[a] = r
                        no.append(q)
                    if S is HS or a not in owned:
                        no.append(dict(o))
                opts = no
                if len(opts) > 40:
                    opts = opts[:40]
            for o in opts:
                if o:
                    q = p.subst(o)
                    cand(k, q)
                    if k == "=":
                        cand("<=", q)
                        cand("<=", -q)
    # templates
    vals = []
    seenk = set()
    for j, h in enumerate(hs):
        v = slotsym.get(j, h)
        if v.key in seenk:
            continue
        seenk.add(v.key)
        vals.append((j, v, hs[j], ns[j]))
    nvals = {t: sum(1 for _, v, h, n in vals if (h.isint() and n.isint()) == t) for t in (True, False)}
    for j in gen:
        y, h, n = ysyms[j], hs[j], ns[j]
        isint = h.isint() and n.isint()
        cand("<=", y)
        cand("<=", -y)
        if h.isconst():
            cand("<=", y - h)
            cand("<=", h - y)
        if not any(a in owned for a in h.atoms()):
            cand("<=", y - h)
            cand("<=", h - y)
        if not n.isconst() and all(a in common_live and a not in owned for a in n.atoms()):
            cand("<=", y - n)
            cand("<=", n - y)
        for S, v in ((HS, h), (NS, n)):
            if not isint and not v.isconst():
                for k, b in live_bounds(S, v, common_live, owned):
                    cand("<=", (y - b) if k > 0 else (b - y))
        if nvals[isint] <= 60:
            for jj, v, hv, nv in vals:
                if jj == j or (hv.isint() != h.isint()):
                    continue
                if isint and not (v.isint()):
                    continue
                cand("<=", y - v)
                cand("<=", v - y)
                if isint:
                    cand("<", y - v)
                    cand("<", v - y)
                elif v.single() is not None and hv == nv:
                    cand("<=", y + v)
                    cand("<=", -y - v)
    # facts about the quantities both states share
    fixed = {a for a in common_live if a not in owned}
    if fixed:
        for S in (HS, NS):
            for c in P.project(frozenset(c for c in S.cons if c[1].atoms() & fixed), fixed):
                cands.add(c)
    # affine equalities
    try:
        for k, p in hull_eqs(HS, NS, hs, ns, slotsym, owner, owned, H.live, N.live):
            cand(k, p)
    except ZeroDivisionError:
        pass
    keep = set()
    ynew = {ysyms[j].single() for j in gen}
    Hlive = H.live | ynew
    moduli = {P.ATOMS[a].args[1] for S in (HS, NS) for _, p in S.cons for m in p.t for a in m if P.ATOMS[a].op == "fdiv"}
    for j in gen:
        y = ysyms[j]
        if y.isint():
            for md in moduli:
                cand("=", y - P.app("fdiv", (y, md), "int").scale(md))
    Hlive = P.with_apps(Hlive, cands)
    for c in cands:
        k, p = c
        if not (p.atoms() <= Hlive):
            continue
        if _holds(HS, k, p.subst(mapH)) and _holds(NS, k, p.subst(mapN)):
            keep.add(c)
        elif k == "<" and not p.isint():
            c = cnorm("<=", p)
            if c not in (True, False) and c not in keep and _holds(HS, c[0], c[1].subst(mapH)) and _holds(NS, c[0], c[1].subst(mapN)):
                keep.add(c)
    # bounds whose only witness was lost
    lost = set()
    for c in HS.cons:
        if c not in keep:
            lost |= c[1].atoms()
    if lost:
        near = set(lost)
        for c in HS.cons:
            if c[1].atoms() & lost:
                near |= c[1].atoms()
        for a in near & Hlive & owned:
            if P.ATOMS[a].kind != "int" or P.ATOMS[a].op is not None:
                continue
            y = Poly({(a,): 1})
            qs = [("<=", -y), ("<", -y), ("<=", y)]
            if a in lost:
                for _, v, hv, nv in vals:
                    if v.isint() and hv.isint() and nv.isint() and v.key != y.key:
                        qs += [("<=", y - v), ("<=", v - y), ("<", y - v), ("<", v - y)]
            for k, p in qs:
                c = cnorm(k, p)
                if c in (True, False) or c in cands or not (c[1].atoms() <= Hlive):
                    continue
                if _holds(HS, c[0], c[1].subst(mapH)) and _holds(NS, c[0], c[1].subst(mapN)):
                    keep.add(c)
    HS.cons = frozenset(keep)
    for j in gen:
        H.set_slot(j, ysyms[j])
        H.owned.add(ysyms[j].single())
        o, path, role = H.addr[j]
        _own_tsym(H, o, ysyms[j].single())
    live = set()
    for p in H.slots:
        live |= p.deep_atoms()
    H.live = live | H.tsyms
    for k, v in HS.ghost.items():
        if isinstance(v, Poly):
            H.live |= v.deep_atoms()
    H.live = P.with_apps(H.live, HS.cons)
    if any(not (c[1].atoms() <= H.live) for c in HS.cons):
        HS.cons = P.project(HS.cons, H.live)
    HS.cons = P.minimise(HS.cons)
    H.invariants()
    if DBG == "5":
        for j in gen:
            print("   =>", ysyms[j], [c for c in HS.cons if ysyms[j].single() in c[1].atoms()], "KEPT", [c for c in keep if ysyms[j].single() in c[1].atoms()])
    return True


def _own_tsym(H, o, a):
    """if o is a template object, its new symbols belong to the container"""
    seen = set()
    while o is not None and o not in seen:
        seen.add(o)
        for ob, d in H.st.heap.items():
            for p, v in d.items():
                if isinstance(v, Seq) and o in (v.tmpl, v.ptmpl, v.otmpl):
                    H.st.put(Loc(ob, p), v.rep(tsyms=v.tsyms | {a}))
                    H.tsyms.add(a)
                    return
        own = H.st.heap.get(o, {}).get("#own")
        o = own.obj if isinstance(own, Loc) else None


def slotname(H, j):
    o, path, role = H.addr[j]
    if role != "v":
        return str(role if isinstance(role, str) else role[0])
    if path and isinstance(path, tuple):
        return str(path[-1])
    return "s"


def _holds(S, k, p):
    c = cnorm(k, p)
    if c in (True, False):
        return c
    if c in S.cons:
        return True
    return entails(S.cons, c[0], c[1])


def hull_eqs(HS, NS, hs, ns, slotsym, owner, owned, liveH, liveN):
    ylist = sorted(slotsym)
    ysyms = [slotsym[j].single() for j in ylist]
    # common coordinates: non-owned atoms appearing in the slot values or equalities
    z = set()
    for j in ylist:
        for v in (hs[j], ns[j]):
            z |= v.atoms()
    z = {a for a in z if a not in owned and a in liveH and a in liveN}
    # atoms tied to those by equalities of either state
    more = []
    for S in (HS, NS):
        m = set()
        for k, p in S.cons:
            if k == "=" and all(len(t) <= 1 for t in p.t):
                m |= p.atoms()
        more.append(m)
    extra = {a for a in (more[0] | more[1]) if a not in owned and a in liveH and a in liveN}
    if len(ysyms) + len(z | extra) <= 60:
        z |= extra
    coords = ysyms + sorted(z)
    if len(coords) > 60:
        return []
    sets = []
    for S, vals in ((HS, hs), (NS, ns)):
        # parameters: all atoms/monomials occurring
        exprs = [vals[j] for j in ylist] + [Poly({(a,): 1}) for a in sorted(z)]
        # solve equalities of S to reduce parameters
        sub = {}
        eqs = [p for k, p in S.cons if k == "="]
        work = list(eqs)
        while work:
            e = work.pop()
            for a, r in sub.items():
                if any(a in m for m in e.t):
                    e = e.subst({a: r})
            if e.isconst():
                continue
            piv = None
            for m in e.t:
                if len(m) == 1 and not any(m[0] in n for n in e.t if n != m):
                    piv = m
                    break
            if piv is None:
                continue
            c = e.t[piv]
            r = Poly({m: v for m, v in e.t.items() if m != piv}).scale(Fraction(-1) / c)
            a = piv[0]
            sub = {b: q.subst({a: r}) for b, q in sub.items()}
            sub[a] = r
        exprs = [x.subst(sub) for x in exprs]
        params = sorted({m for x in exprs for m in x.t if m})
        pt = [Fraction(x.cval()) for x in exprs]
        dirs = [[Fraction(x.t.get(m, 0)) for x in exprs] for m in params]
        sets.append((pt, dirs))
    out = []
    for a, c in affine_hull(sets, coords):
        p = Poly.const(c)
        for k, s in zip(a, coords):
            if k:
                p = p + Poly({(s,): k if k.denominator != 1 else k.numerator})
        out.append(("=", p))
    return out
