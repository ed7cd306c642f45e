"""Models of the standard library (and of the verification intrinsics)."""
import re
from core import *
import poly as P

LISTS = {"std::list": "list", "std::__cxx11::list": "list", "std::vector": "vector", "std::deque": "vector",
         "std::array": "array", "std::unordered_set": "set", "std::set": "set",
         "std::unordered_map": "map", "std::map": "map",
         "std::unordered_multimap": "multimap", "std::multimap": "multimap", "std::initializer_list": "array"}

_info = {}


def is_iter(s):
    s = s.split("<", 1)[0] + "<"
    return "_iterator<" in s


def seq_info(p, t):
    key = (id(p), t)
    if key in _info:
        return _info[key]
    T = p.T(t)
    r = None
    if T.get("k") == "rec":
        name = T.get("rec", "")
        kind = LISTS.get(name)
        ta = T.get("targs")
        if kind in ("list", "vector", "set") and ta:
            r = (kind, ta[0]["t"], None)
        elif kind == "array" and ta:
            r = (kind, ta[0]["t"], ta[1].get("i") if len(ta) > 1 else None)
        elif kind in ("map", "multimap") and ta:
            r = (kind, pair_type(p, ta[0]["t"], ta[1]["t"]), None)
        elif name in ("Eigen::Array", "Eigen::Matrix") and ta:
            import eig
            r = eig.info(p, T)
    elif T.get("k") == "arr":
        r = ("array", T["to"], T.get("n"))
    _info[key] = r
    return r


def pair_type(p, a, b):
    s = "std::pair<VP," + p.T(a)["s"] + "," + p.T(b)["s"] + ">"
    for i, T in enumerate(p.types):
        if T and T.get("s") == s:
            return i
    p.types.append({"s": s, "k": "rec", "rec": "std::pair", "targs": [{"t": a}, {"t": b}]})
    return len(p.types) - 1


# ------------------------------------------------------------------ iterators
def iter_pos(I, st, it):
    """position of an iterator as Poly or None"""
    if it.pos is not None:
        return it.pos
    s = st.get(it.seq)
    if isinstance(s, Seq):
        if it.elem is not None and it.elem == s.felem:
            return s.fidx
        for p, o, _ in s.mats:
            if o == it.elem:
                return p
    return None


def storage(I, st, e, name, args):
    """raw storage of a known number of elements, as an array whose elements are not initialised yet"""
    if name == "allocate":
        args = [a for a in args if isinstance(ival(I, st, a), Poly)]
        n = ival(I, st, args[0]) if args else None
        t = I.p.T(e["t"])
        if n is None or not n.isconst() or t.get("k") != "ptr":
            return None
        o = I.new_obj(st, -1)
        I.make_seq(st, Loc(o), ("array", t["to"], n), False)
        return [(st, Loc(o))]
    args = [a for a in args if not (isinstance(a, Loc) and I.p.T(st.heap.get(a.obj, {}).get("#t", -1)).get("rec", "").startswith("std::allocator"))]
    if name == "deallocate" and args:
        p = pval(I, st, args[0])
        it = I.as_iter(st, p)
        if it is None or it.seq.path or not isinstance(st.get(it.seq), Seq):
            return None
        if st.heap.get(it.seq.obj, {}).get("#dead"):
            I.report("uaf", st, e.get("l"), "storage freed twice")
            return []
        if iter_pos(I, st, it) != ZERO:
            I.report("uaf", st, e.get("l"), "freed pointer is not the start of its storage")
            return []
        q = st.get(it.seq)
        for o in [it.seq.obj, q.felem] + [m[1] for m in q.mats]:
            if o is not None:
                st.heap[o] = dict(st.heap[o], **{"#dead": True})
        return [(st, None)]
    if name in ("construct", "destroy", "construct_at", "destroy_at") and len(args) in (1, 2):
        p = pval(I, st, args[0])
        if isinstance(p, Iter) or isinstance(p, Loc) and I.getseq(st, p) is not None:
            it = I.as_iter(st, p)
            if it is None:
                return None
            es = I.deref_iter(st, it, e.get("l"))
        elif isinstance(p, Loc):
            es = [(st, p.obj)] if not p.path else None
        else:
            es = None
        if es is None:
            return None
        out = []
        for s, o in es:
            if name.startswith("destroy"):
                out.append((s, None))
            elif len(args) == 1:
                t = st.heap[o].get("#t", -1)
                out += [(x, None) for x in new_elem_default(I, s, o, t)]
            else:
                I.init_loc(s, Loc(o), s.heap[o].get("#t", -1), args[1])
                out.append((s, None))
        return out
    return None


def iter_compare(I, st, op, a, b):
    if isinstance(a, Iter) != isinstance(b, Iter):
        # a pointer to an element against a position
        it, lo = (a, b) if isinstance(a, Iter) else (b, a)
        if isinstance(lo, Null):
            return [(st, op == "!=")] if op in ("==", "!=") else [(st, ("b", P.fresh("int", "it").single()))]
        x = I.as_iter(st, lo)
        if x is not None:
            a, b = (a, x) if it is a else (x, b)
    if not (isinstance(a, Iter) and isinstance(b, Iter)):
        I.unsup(st, "iterator comparison")
        return [(st, ("b", P.fresh("int", "it").single()))]
    pa, pb = iter_pos(I, st, a), iter_pos(I, st, b)
    if pa is not None and pb is not None:
        d = pa - pb
        k = {"==": ("=", d), "!=": ("!", d), "<": ("<", d), "<=": ("<=", d), ">": ("<", -d), ">=": ("<=", -d)}[op]
        return [(st, mkcmp(*k))]
    if op in ("==", "!="):
        eq = None
        if a.elem is not None and b.elem is not None:
            if a.elem == b.elem and a.elem not in ("*", "?"):
                eq = True
            elif st.focus is not None and (a.elem == st.focus) != (b.elem == st.focus):
                eq = False
        else:
            # one is a position: end() against a stored element
            x, y = (a, b) if a.elem is not None else (b, a)
            s = st.get(y.seq)
            if isinstance(s, Seq) and y.pos is not None and st.ent("=", y.pos - s.size):
                eq = False
        if eq is not None:
            return [(st, eq if op == "==" else not eq)]
    return [(st, ("b", P.fresh("int", "it").single()))]


def as_seq(I, st, obj):
    if isinstance(obj, Loc):
        return I.getseq(st, obj)
    return None


def basevec(I, st, obj):
    """the container sub-object of an object whose class derives from a standard container"""
    if not isinstance(obj, Loc) or isinstance(st.get(obj), (Seq, Iter)):
        return obj
    t = I.type_at(st, obj)
    if t is None:
        return obj
    work = [I.p.T(t).get("rid")]
    while work:
        R = I.p.records.get(work.pop())
        if R:
            if "vecbase" in R and "fields" in R:
                return obj.f("$vec")
            work.extend(R.get("bases", ()))
    return obj


def ival(I, st, v, t=None):
    """iterator/scalar value behind v"""
    if isinstance(v, Loc):
        x = st.get(v)
        if x is not None and not isinstance(x, Seq):
            return I.load(st, v, t if t is not None else -1)
        if x is None and st.heap.get(v.obj, {}).get("#t", -1) != -1:
            t2 = I.type_at(st, v)
            if t2 is not None and I.kindof(t2) in ("int", "uint", "float", "bool", "enum", "ptr"):
                return I.load(st, v, t2)
    return v


def shift(I, st, seqloc, at, delta, gone=None):
    """element removed (delta=-1) at position `at` (Poly or None) or inserted before it (+1):
    adjust focus index, materialised positions and iterators of seqloc. -> [st] (size not changed
    here)."""
    s = I.getseq(st, seqloc)
    states = [st]
    fidx0 = s.fidx
    if s.fidx is not None:
        if at is None:
            k = P.fresh("int", "k")
            st.add("<=", -k)
            st.add("<", k - (s.size + delta))
            st.put(seqloc, s.rep(fidx=k))
        else:
            d = at - s.fidx
            if st.ent("<", d) if delta < 0 else st.ent("<=", d):
                st.put(seqloc, s.rep(fidx=s.fidx + delta))
            elif st.ent("<", -d):
                pass
            else:
                s2 = st.fork()
                out = []
                if st.add("<" if delta < 0 else "<=", d):
                    st.put(seqloc, s.rep(fidx=s.fidx + delta))
                    out.append(st)
                if s2.add("<", -d):
                    out.append(s2)
                states = out
    for x in states:
        s = I.getseq(x, seqloc)
        mats = []
        for p, o, orig in s.mats:
            if at is None:
                drop_mat(I, x, seqloc, o, orig)
                continue
            d = at - p
            if x.ent("=", d) and delta < 0:
                continue
            if x.ent("<", d) if delta < 0 else x.ent("<=", d):
                mats.append((p + delta, o, orig))
            elif x.ent("<", -d):
                mats.append((p, o, orig))
            else:
                drop_mat(I, x, seqloc, o, orig)
        s = I.getseq(x, seqloc)
        x.put(seqloc, s.rep(mats=tuple(mats)))
        # live iterators
        elems = {v.tmpl for d in x.heap.values() for v in d.values() if isinstance(v, Seq) and v.tmpl is not None}
        for o, d in list(x.heap.items()):
            indep = o not in elems and "#own" not in d
            for path, v in list(d.items()):
                if at is None and delta < 0 and indep and isinstance(v, Iter) and v.seq == seqloc:
                    # an unknown (non-tracked) element disappears: it may be the one referred to
                    if v.elem is None and s.fidx is not None and x.ent("=", v.pos - fidx0):
                        x.put(Loc(o, path), Iter(v.seq, s.felem, None))
                        continue
                    if v.elem is None and x.ent("=", v.pos - s.size):
                        x.put(Loc(o, path), Iter(v.seq, None, s.size - 1))
                        continue
                    if v.elem is None or (v.elem != s.felem and v.elem not in ("*", "?") and v.elem != gone
                                          and not any(m[1] == v.elem for m in s.mats)):
                        x.put(Loc(o, path), Iter(v.seq, "?", None))
                        continue
                if isinstance(v, Iter) and v.seq == seqloc and v.pos is not None:
                    if at is None:
                        np = None
                    else:
                        dd = at - v.pos
                        if x.ent("<", dd) if delta < 0 else x.ent("<=", dd):
                            np = v.pos + delta
                        elif x.ent("<", -dd) or x.ent("=", dd):
                            np = v.pos
                        else:
                            np = None
                    if np is None and v.elem is None:
                        # keep the element identity if we can
                        e = None
                        s0 = I.getseq(x, seqloc)
                        x.put(Loc(o, path), Iter(v.seq, "*", None))
                    elif np is None or np is not v.pos:
                        x.put(Loc(o, path), Iter(v.seq, v.elem, np))
    return states


def drop_mat(I, st, seqloc, o, orig):
    if orig is None or st.heap.get(o) is not orig:
        I.fold(st, seqloc, o)


def resolve_iter(I, st, it):
    """-> [(st, elem obj, pos or None)]"""
    out = []
    for s2, o in I.deref_iter(st, it):
        out.append((s2, o, iter_pos(I, s2, it if it.elem is None else Iter(it.seq, o, it.pos))))
    return out


def erase_elem(I, st, seqloc, o, pos):
    """erase element object o at pos (Poly/None) -> [st]"""
    s = I.getseq(st, seqloc)
    if st.heap.get(o, {}).get("#dead"):
        I.report("uaf", st, I.curloc, "element erased twice")
        return []
    if o == s.felem:
        at = s.fidx
        st.put(seqloc, s.rep(felem=None, fidx=None))
    else:
        at = pos
    d = dict(st.heap.get(o, {}))
    d["#dead"] = True
    st.heap[o] = d
    # iterators that designate this element by position only: remember the element
    for oo, dd in list(st.heap.items()):
        for path, v in list(dd.items()):
            if isinstance(v, Iter) and v.seq == seqloc and v.elem is None and v.pos is not None and at is not None:
                if st.ent("=", v.pos - at):
                    st.put(Loc(oo, path), Iter(v.seq, o, None))
    out = []
    s = I.getseq(st, seqloc)
    st.put(seqloc, s.rep(mats=tuple(m for m in s.mats if m[1] != o)))
    for x in shift(I, st, seqloc, at, -1, o):
        s = I.getseq(x, seqloc)
        x.put(seqloc, s.rep(size=s.size - 1))
        if not x.add("<=", -(s.size - 1)):
            continue
        out.append((x, at))
    return out


def truncate(I, st, loc, n):
    """drop elements from position n on (n <= size known feasible)"""
    s = I.getseq(st, loc)
    out = []
    states = [st]
    if s.felem is not None:
        d = s.fidx - n
        a, b = I.branch(st, mkcmp("<", d))
        for x in b:
            q = I.getseq(x, loc)
            if q.attr != "dim":
                dd = dict(x.heap[q.felem])
                dd["#dead"] = True
                x.heap[q.felem] = dd
            x.put(loc, q.rep(felem=None, fidx=None))
        states = a + b
    for x in states:
        q = I.getseq(x, loc)
        mats = tuple(m for m in q.mats if x.ent("<", m[0] - n))
        x.put(loc, q.rep(size=n, mats=mats))
    return states


# ------------------------------------------------------------------ containers
def construct(I, st, loc, e, vs):
    t = e["t"]
    T = I.p.T(t)
    info = seq_info(I.p, t)
    if info is not None:
        if info[0] == "eigen":
            import eig
            return eig.construct(I, st, loc, e, info, vs)
        vs = [v for v in vs if not (isinstance(v, Loc) and not v.path and v.obj in st.heap
                                    and I.p.T(st.heap[v.obj].get("#t", -1)).get("rec", "").startswith("std::allocator"))]
        vals = [ival(I, st, v) for v in vs]
        if not vs or info[0] == "array":
            if vs and isinstance(vs[0], Loc) and as_seq(I, st, vs[0]):
                I.copy_struct(st, loc, vs[0])
                return [st]
            I.make_seq(st, loc, info, False)
            return [st]
        if isinstance(vals[0], Poly):
            I.make_seq(st, loc, (info[0], info[1], vals[0]), False, zero=len(vs) == 1)
            if len(vs) >= 2:
                fill(I, st, loc, vs[1])
            return resize_focus(I, st, loc)
        if isinstance(vs[0], Loc) and as_seq(I, st, vs[0]) is not None:
            I.copy_struct(st, loc, vs[0])
            s = I.getseq(st, loc)
            st.put(loc, s.rep(kind=info[0], et=info[1]))
            return [st]
        if I.cfg.get("exact") and len(vals) == 2 and info[0] in ("vector", "list"):
            r = known_range(I, st, itpos(I, st, vs[0]), itpos(I, st, vs[1]))
            if r is not None:
                st.put(loc, Seq(info[0], info[1], ZERO))
                return append_range(I, st, loc, r)
        if isinstance(vals[0], Iter) and len(vals) == 2 and isinstance(vals[1], Iter):
            return range_copy(I, st, loc, info, vals[0], vals[1])
        I.make_seq(st, loc, info, False)
        if info[0] not in ("set", "map", "multimap"):
            I.unsup(st, "container constructor")
        return [st]
    rec = T.get("rec", "")
    if rec == "std::pair":
        a = T["targs"]
        if len(vs) == 2:
            I.init_loc(st, loc.f("first"), a[0]["t"], ival(I, st, vs[0]) if I.kindof(I.p.strip(a[0]["t"])) != "ptr" else pval(I, st, vs[0]))
            I.init_loc(st, loc.f("second"), a[1]["t"], ival(I, st, vs[1]) if I.kindof(I.p.strip(a[1]["t"])) != "ptr" else pval(I, st, vs[1]))
            return [st]
        if len(vs) == 1 and isinstance(vs[0], Loc):
            I.copy_struct(st, loc, vs[0])
            return [st]
        if not vs:
            for n, x in (("first", a[0]["t"]), ("second", a[1]["t"])):
                z = I.zero_of(x)
                if z is not UNK:
                    st.put(loc.f(n), z)
            return [st]
    if is_iter(T["s"]):
        if vs:
            v = ival(I, st, vs[0])
            st.put(loc, v)
        else:
            st.put(loc, UNDEF)
        return [st]
    if rec in ("std::less", "std::greater", "std::hash", "std::allocator", "std::equal_to"):
        d = dict(st.heap[loc.obj])
        d["#fun"] = rec
        st.heap[loc.obj] = d
        return [st]
    if rec.startswith("std::uniform_real_distribution"):
        a = [ival(I, st, v) for v in vs]
        st.put(loc.f("a"), a[0] if a else ZERO)
        st.put(loc.f("b"), a[1] if len(a) > 1 else ONE)
        return [st]
    if rec.startswith("std::uniform_int_distribution"):
        a = [ival(I, st, v) for v in vs]
        st.put(loc.f("a"), a[0] if a else ZERO)
        st.put(loc.f("b"), a[1] if len(a) > 1 else P.fresh("int", "max"))
        return [st]
    if rec.startswith("std::normal_distribution") or rec.startswith("std::mersenne_twister") or rec.startswith("std::random_device") \
            or rec.startswith("std::chrono") or rec.startswith("std::reference_wrapper"):
        return [st]
    if rec.startswith("std::function"):
        if vs and isinstance(vs[0], Loc):
            d = dict(st.heap[loc.obj])
            for k, v in st.heap[vs[0].obj].items():
                if k != "#t":
                    d[k] = v
            st.heap[loc.obj] = d
        elif vs and isinstance(vs[0], Fn):
            st.put(loc, vs[0])
        return [st]
    if rec.startswith("Eigen::"):
        import eig
        return eig.construct_expr(I, st, loc, e, vs)
    return None


def pval(I, st, v):
    """pointer value: v may be the pointer itself or an lvalue holding it"""
    if isinstance(v, Loc) and I._is_ptr_storage(st, v):
        return I.load(st, v, -1)
    return v


def resize_focus(I, st, loc):
    """after a container got n default elements: choose the focus among them if required"""
    s = I.getseq(st, loc)
    ft = st.ghost.get("focus_t")
    if ft is not None and st.focus is None and I.p.T(s.et)["s"] == ft and s.kind in ("list", "vector") \
            and st.ghost.get("focus_on", True) and not st.ent("<=", s.size):
        s1 = st.fork()
        k = P.fresh("int", "k")
        if s1.add("<=", -k) and s1.add("<", k - s.size):
            e = I.new_obj(s1, s.et)
            s1.heap[e] = dict(s1.heap[e])
            s1.heap[e]["#own"] = loc
            s1.focus = e
            s1.put(loc, s.rep(felem=e, fidx=k))
            return [(s1, e)] and [s1, st]
    return [st]


def default_init_elems(I, st, loc, run_ctor):
    """run the element default constructor on the focus element and on the template"""
    s = I.getseq(st, loc)
    states = [st]
    return states


def find_default_ctor(I, t):
    T = I.p.T(t)
    R = I.p.records.get(T.get("rid"))
    if not R:
        return None
    for m in R.get("methods", ()):
        f = I.p.functions.get(m["id"])
        if f and f.get("ctor") and not f["params"]:
            return f
    return None


def new_elem_default(I, st, obj, t, zero=True):
    """value-initialise the element object -> [st]"""
    k = I.kindof(t)
    if k != "rec":
        st.put(Loc(obj), I.zero_of(t))
        return [st]
    f = find_default_ctor(I, t)
    if f is not None:
        return [s for s, _ in I.call_fn(st, f, [], Loc(obj), I.curloc)]
    info = seq_info(I.p, t)
    if info:
        I.make_seq(st, Loc(obj), info, False, zero=True)
        return [st]
    d = dict(st.heap[obj])
    d["#z"] = True
    st.heap[obj] = d
    return [st]


def fill(I, st, loc, v):
    s = I.getseq(st, loc)
    for o in ([s.felem] if s.felem else []) + ([s.tmpl] if s.tmpl else []):
        I.init_loc(st, Loc(o), s.et, v)
    st.put(loc, I.getseq(st, loc).rep(mats=(), tsyms=frozenset()))


def range_copy(I, st, loc, info, a, b):
    s = I.getseq(st, a.seq)
    I.make_seq(st, loc, info, False)
    if s is not None and a.pos is not None and b.pos is not None and st.ent("=", a.pos) and st.ent("=", b.pos - s.size):
        I.copy_struct(st, loc, a.seq)
        q = I.getseq(st, loc)
        st.put(loc, q.rep(kind=info[0], et=info[1]))
        return [st]
    I.unsup(st, "range construction")
    n = P.fresh("int", "size")
    st.add("<=", -n)
    I.make_seq(st, loc, (info[0], info[1], n), True)
    return [st]


def same_size(I, st, loc, n):
    """the size turned out to be n already"""
    q = I.getseq(st, loc)
    K = st.ghost.get("K")
    if q.size == n:
        return st
    if q.attr == "dim" and not q.mats and q.cut is None:
        st.put(loc, q.rep(size=n))
        if q.felem is None and K is not None and st.ent("<", K - n):
            fe = I.anon_instance(st, loc, None)
            d = dict(st.heap[fe])
            d.pop("#anon", None)
            d["#own"] = loc
            st.heap[fe] = d
            st.put(loc, I.getseq(st, loc).rep(felem=fe, fidx=K))
    return st


def resize(I, st, loc, n, val=None):
    """resize container to n (Poly)"""
    s = I.getseq(st, loc)
    out = []
    if s.size == ZERO or st.ent("=", s.size):
        info = (s.kind, s.et, n)
        if val is None and I.kindof(s.et) == "rec" and seq_info(I.p, s.et) is None:
            # elements with constructors: template + possibly the focus
            q = Seq(s.kind, s.et, n, rows=s.rows, cols=s.cols)
            st.put(loc, q)
            t = I.new_obj(st, s.et)
            for x in new_elem_default(I, st, t, s.et):
                x.put(loc, I.getseq(x, loc).rep(tmpl=t))
                for y in resize_focus(I, x, loc):
                    q = I.getseq(y, loc)
                    if q.felem is not None:
                        out.extend(new_elem_default(I, y, q.felem, s.et))
                    else:
                        out.append(y)
            return out
        I.make_seq(st, loc, info, False, zero=True)
        if val is not None:
            fill(I, st, loc, val)
        if I.kindof(s.et) == "rec":
            q = I.getseq(st, loc)
            if q.tmpl is not None and seq_info(I.p, s.et) is not None:
                pass
        return resize_focus(I, st, loc)
    lt, ge = I.branch(st, mkcmp("<", n - s.size))
    for x in lt:
        out.extend(truncate(I, x, loc, n))
    for x in ge:
        q = I.getseq(x, loc)
        if x.ent("=", n - q.size):
            out.append(same_size(I, x, loc, n))
            continue
        eq, gt = I.branch(x, mkcmp("=", n - q.size))
        out.extend(same_size(I, y, loc, n) for y in eq)
        for y in gt:
            q = I.getseq(y, loc)
            # grow: new anonymous zero/default elements
            e = I.new_obj(y, q.et)
            y.heap[e] = dict(y.heap[e])
            for z in new_elem_default(I, y, e, q.et):
                if val is not None:
                    I.init_loc(z, Loc(e), q.et, val)
                I.fold(z, loc, e)
                q2 = I.getseq(z, loc)
                K = z.ghost.get("K")
                z.put(loc, q2.rep(size=n))
                if q2.attr == "dim" and q2.felem is None and K is not None and z.ent("<", K - n):
                    fe = I.copy_obj(z, e)
                    z.heap[fe]["#own"] = loc
                    z.put(loc, I.getseq(z, loc).rep(felem=fe, fidx=K))
                    out.append(z)
                    continue
                # the focus may be among the new ones
                ft = z.ghost.get("focus_t")
                if ft is not None and z.focus is None and I.p.T(q.et)["s"] == ft and z.ghost.get("focus_on", True):
                    w = z.fork()
                    k = P.fresh("int", "k")
                    if w.add("<=", q.size - k) and w.add("<", k - n):
                        fe = I.new_obj(w, q.et)
                        w.heap[fe] = dict(w.heap[fe])
                        w.heap[fe]["#own"] = loc
                        w.focus = fe
                        w.put(loc, I.getseq(w, loc).rep(felem=fe, fidx=k))
                        out.extend(new_elem_default(I, w, fe, q.et))
                out.append(z)
    return out


def init_elem(I, st, obj, et, args, argtypes=None):
    """emplace construct element of type et from args -> [st]"""
    k = I.kindof(et)
    if not args:
        return new_elem_default(I, st, obj, et)
    if k == "ptr":
        st.put(Loc(obj), pval(I, st, args[0]))
        return [st]
    if k == "rec":
        T = I.p.T(et)
        if is_iter(T["s"]):
            st.put(Loc(obj), ival(I, st, args[0]))
            return [st]
        if len(args) == 1 and isinstance(args[0], Loc):
            # copy (or conversion from the same type)
            I.copy_struct(st, Loc(obj), args[0])
            return [st]
        if T.get("rec") == "std::pair" and len(args) == 2:
            a = T["targs"]
            I.init_loc(st, Loc(obj).f("first"), a[0]["t"], pv(I, st, args[0], a[0]["t"]))
            I.init_loc(st, Loc(obj).f("second"), a[1]["t"], pv(I, st, args[1], a[1]["t"]))
            return [st]
        if seq_info(I.p, et):
            e = {"t": et, "a": [], "k": "ctor", "id": None}
            r = construct(I, st, Loc(obj), e, args)
            if r is not None:
                return r
        # user constructor with matching arity
        R = I.p.records.get(T.get("rid"), {})
        for m in R.get("methods", ()):
            f = I.p.functions.get(m["id"])
            if f and f.get("ctor") and len(f["params"]) == len(args) and not f.get("implicit"):
                return [s for s, _ in I.call_fn(st, f, args, Loc(obj), I.curloc)]
        I.unsup(st, "emplace of " + T["s"])
        d = dict(st.heap[obj])
        d["#u"] = True
        st.heap[obj] = d
        return [st]
    v = ival(I, st, args[0], et)
    out = []
    for s2, x in (I.toint(st, v) if k != "bool" else [(st, v)]):
        s2.put(Loc(obj), x)
        out.append(s2)
    return out


def pv(I, st, v, t):
    return pval(I, st, v) if I.kindof(I.p.strip(t)) == "ptr" else ival(I, st, v)


def method(I, st, e, q, obj, args):
    name = q.rsplit("::", 1)[-1]
    s = as_seq(I, st, obj)
    if s is None:
        return None
    if s.kind == "eigen":
        import eig
        return eig.method(I, st, e, name, obj, args)
    L = obj
    if name in ("begin", "cbegin"):
        if I.cfg.get("exact") and re.match(r"std::(multi)?(map|set)\b", q) and not (s.size.isconst() and s.size.cval() <= 1):
            I.unsup(st, "order of an ordered container")
        return [(st, Iter(L, None, ZERO))]
    if name in ("end", "cend"):
        return [(st, Iter(L, None, s.size))]
    if name in ("rbegin", "rend", "crbegin", "crend"):
        I.unsup(st, "reverse iterator")
        return [(st, UNK)]
    if name == "size":
        return [(st, s.size)]
    if name == "empty":
        return [(st, mkcmp("=", s.size))]
    if name in ("reserve", "shrink_to_fit", "rehash"):
        return [(st, None)]
    if name == "capacity":
        c = P.fresh("int", "cap")
        st.add("<=", s.size - c)
        return [(st, c)]
    if name == "max_size":
        return [(st, P.fresh("int", "maxsize"))]
    if name == "data":
        if st.ent("<", -s.size):
            return [(x, Loc(o)) for x, o in I.elem_at(st, L, ZERO)]
        return [(st, UNK)]
    if name in ("emplace_back", "push_back"):
        out = []
        for x, o in I.seq_append(st, L, lambda s2, eo: init_elem(I, s2, eo, s.et, args)):
            out.append((x, Loc(o)))
        return out
    if name in ("emplace_front", "push_front") or (name in ("insert", "emplace") and s.kind in ("list", "vector")):
        return insert(I, st, e, name, L, s, args)
    if name in ("back", "front"):
        if st.ent("=", s.size):
            I.report("oob", st, I.curloc, "%s() of an empty %s" % (name, s.kind))
            return []
        pos = ZERO if name == "front" else s.size - 1
        return [(x, Loc(o)) for x, o in I.elem_at(st, L, pos)]
    if name in ("pop_back", "pop_front"):
        if st.ent("=", s.size):
            I.report("oob", st, I.curloc, "%s() on an empty %s" % (name, s.kind))
            return []
        pos = ZERO if name == "pop_front" else s.size - 1
        out = []
        for x, o in I.elem_at(st, L, pos):
            for y, at in erase_elem(I, x, L, o, pos):
                out.append((y, None))
        return out
    if name == "clear":
        out = []
        for x in truncate(I, st, L, ZERO):
            q2 = I.getseq(x, L)
            x.put(L, Seq(q2.kind, q2.et, ZERO))
            out.append((x, None))
        return out
    if name == "resize":
        n = ival(I, st, args[0])
        return [(x, None) for x in resize(I, st, L, n, args[1] if len(args) > 1 else None)]
    if name == "assign":
        n = ival(I, st, args[0])
        if len(args) == 2 and (isinstance(n, Iter) or I.kindof(I.p.strip(e["a"][0].get("t", -1))) == "ptr"):
            r = known_range(I, st, itpos(I, st, args[0]), itpos(I, st, args[1])) if I.cfg.get("exact") else None
            if r is None or r[0] == L:
                return None
            out = []
            for x in truncate(I, st, L, ZERO):
                q2 = I.getseq(x, L)
                x.put(L, Seq(q2.kind, q2.et, ZERO))
                out.extend((y, None) for y in append_range(I, x, L, r))
            return out
        if isinstance(n, Poly):
            out = []
            for x in truncate(I, st, L, ZERO):
                q2 = I.getseq(x, L)
                x.put(L, Seq(q2.kind, q2.et, ZERO))
                out.extend((y, None) for y in resize(I, x, L, n, args[1]))
            return out
    if name == "erase" and s.kind in ("list", "vector"):
        a = [ival(I, st, v) for v in args]
        if len(a) == 1 and isinstance(a[0], Iter):
            out = []
            for x, o, pos in resolve_iter(I, st, a[0]):
                for y, at in erase_elem(I, x, L, o, pos):
                    out.append((y, Iter(L, None, at) if at is not None else Iter(L, "*", None)))
            return out
        if len(a) == 2 and all(isinstance(v, Iter) and v.pos is not None for v in a):
            q2 = I.getseq(st, L)
            if st.ent("=", a[1].pos - q2.size):
                return [(x, Iter(L, None, I.getseq(x, L).size)) for x in truncate(I, st, L, a[0].pos)]
        I.unsup(st, "range erase")
        return [(st, UNK)]
    if name in ("operator[]", "at") and s.kind in ("vector", "array"):
        i = ival(I, st, args[0])
        return [(x, Loc(o)) for x, o in I.elem_at(st, L, i, e.get("l"))]
    if name == "fill":
        for x in [st]:
            fill(I, st, L, args[0])
        return [(st, None)]
    if name == "swap" and args and isinstance(args[0], Loc):
        return swap_objs(I, st, L, args[0])
    if name == "operator=":
        if isinstance(args[0], Loc):
            I.copy_struct(st, L, args[0])
        return [(st, L)]
    if s.kind in ("set", "map"):
        return assoc(I, st, e, name, L, s, args)
    if s.kind == "multimap":
        return multi(I, st, e, name, L, s, args)
    if name == "sort" and s.kind == "list":
        f = args[0] if args else ("less",)
        shuffle_seq(I, st, L, None)
        return [(st, None)]
    if name in ("remove_if", "unique", "merge", "splice", "reverse"):
        if name == "reverse":
            q2 = I.getseq(st, L)
            st.put(L, q2.rep(fidx=q2.size - 1 - q2.fidx if q2.fidx is not None else None, mats=()))
            return [(st, None)]
        if name == "remove_if":
            return remove_if(I, st, L, args[0])
    return None


def append_range(I, st, L, r):
    """append copies of the elements of a known range -> [st]"""
    sts = [st]
    for k in range(r[2]):
        nxt = []
        for s in sts:
            for s1, o in I.elem_at(s, r[0], r[1] + k):
                et = I.getseq(s1, L).et
                nxt += [y for y, _ in I.seq_append(s1, L, lambda s2, eo: init_elem(I, s2, eo, et, [Loc(o)]))]
        sts = nxt
    return sts


def insert(I, st, e, name, L, s, args):
    if name in ("emplace_front", "push_front"):
        pos, vals = ZERO, args
    else:
        it = ival(I, st, args[0])
        if not isinstance(it, Iter) or it.pos is None:
            I.unsup(st, "insert at unknown position")
            return [(st, UNK)]
        pos, vals = it.pos, args[1:]
        if name == "insert" and len(vals) == 2:
            r = known_range(I, st, itpos(I, st, vals[0]), itpos(I, st, vals[1])) if I.cfg.get("exact") else None
            if r is not None and st.ent("=", pos - s.size):
                return [(x, Iter(L, None, pos)) for x in append_range(I, st, L, r)]
            I.unsup(st, "range insert")
            return [(st, UNK)]
    if name not in ("emplace_front", "push_front") and st.ent("=", pos - s.size):
        return [(x, Iter(L, None, pos)) for x, o in I.seq_append(st, L, lambda s2, eo: init_elem(I, s2, eo, s.et, vals))]
    out = []
    for x in shift(I, st, L, pos, +1):
        q = I.getseq(x, L)
        eo = I.new_obj(x, q.et)
        x.heap[eo] = dict(x.heap[eo])
        x.heap[eo]["#own"] = L
        for y in init_elem(I, x, eo, q.et, vals):
            q = I.getseq(y, L)
            if I.mentions_focus(y, eo) and q.felem is None:
                y.put(L, q.rep(size=q.size + 1, felem=eo, fidx=pos))
            else:
                d = dict(y.heap[eo])
                d["#anon"] = True
                y.heap[eo] = d
                y.put(L, q.rep(size=q.size + 1, mats=q.mats + ((pos, eo, None),)))
            out.append((y, Iter(L, None, pos)))
    return out


def remove_if(I, st, L, pred):
    cur = I.new_obj(st, -1)
    st.put(Loc(cur), Iter(L, None, ZERO))
    cid = ("rmif", I.curloc)
    st.bind(cid, Loc(cur))
    pid = ("rmifp", I.curloc)
    if isinstance(pred, Loc):
        st.bind(pid, pred)

    def cond(st):
        it = st.get(st.frames[-1].vars[cid])
        return [(st, mkcmp("<", it.pos - I.getseq(st, L).size) if it.pos is not None else UNK)]

    def body(st):
        l = st.frames[-1].vars[cid]
        it = st.get(l)
        f = I.flows()
        for x, o in I.deref_iter(st, it):
            pr = x.frames[-1].vars[pid] if isinstance(pred, Loc) else pred
            for y, v in I.call_value(x, pr, [Loc(o)]):
                t, n = I.branch(y, I.tobool(y, v))
                for z in t:
                    for w, at in erase_elem(I, z, L, o, it.pos):
                        w.put(w.frames[-1].vars[cid], Iter(L, None, at))
                        f["n"].append(w)
                for z in n:
                    it2 = z.get(z.frames[-1].vars[cid])
                    z.put(z.frames[-1].vars[cid], Iter(L, None, it2.pos + 1))
                    f["n"].append(z)
        return f
    fl = I.loop([st], cond, body, None, {"l": I.curloc, "k": "for"})
    out = []
    for x in fl["n"]:
        v = dict(x.frames[-1].vars)
        v.pop(cid, None)
        v.pop(pid, None)
        x.frames[-1].vars = v
        out.append((x, None))
    return out


def key_eq(I, st, a, b):
    if isinstance(a, Loc) and isinstance(b, Loc):
        if a == b:
            return True
        if st.focus in (a.obj, b.obj):
            return False
        own = st.heap.get(a.obj, {}).get("#own")
        if own is not None and own == st.heap.get(b.obj, {}).get("#own") and not a.path and not b.path:
            q = st.get(own)
            at = {o: p for p, o, _ in q.mats} if isinstance(q, Seq) else {}
            if a.obj in at and b.obj in at and st.ent("!", at[a.obj] - at[b.obj]):
                return False
        return None
    if isinstance(a, Poly) and isinstance(b, Poly):
        if st.ent("=", a - b):
            return True
        if st.ent("!", a - b):
            return False
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.elem is not None and a.elem == b.elem and a.elem != "*":
            return True
        if st.focus in (a.elem, b.elem):
            return False
    return None


def slot_key(I, st, s, o):
    l = Loc(o) if s.kind == "set" else Loc(o).f("first")
    v = st.get(l)
    if isinstance(v, AnyElem) or (isinstance(v, Iter) and v.elem == "*"):
        v = I.load(st, l, -1)
    return v


def assoc_find(I, st, L, key):
    """-> [(st, obj or None, pos)]: the element with this key"""
    s = I.getseq(st, L)
    if s.felem is not None:
        r = key_eq(I, st, slot_key(I, st, s, s.felem), key)
        if r is True:
            return [(st, s.felem, s.fidx)]
    for p, o, _ in s.mats:
        if key_eq(I, st, slot_key(I, st, s, o), key) is True:
            return [(st, o, p)]
    if st.ent("=", s.size):
        return [(st, None, None)]
    if (isinstance(key, Loc) and key.obj == st.focus) or (isinstance(key, Iter) and key.elem == st.focus):
        # only the focus slot can hold a reference to the focus
        return [(st, None, None)]
    objs = known_slots(s)
    if objs is not None and all(key_eq(I, st, slot_key(I, st, s, o), key) is False for o in objs):
        return [(st, None, None)]
    out = []
    # an anonymous slot may hold it
    st2 = st.fork()
    n = s.size - (1 if s.felem is not None else 0)
    if st.add("<=", ONE - n):
        o = I.anon_instance(st, L, None)
        kl = Loc(o) if s.kind == "set" else Loc(o).f("first")
        st.put(kl, key)
        p = P.fresh("int", "slot")
        st.add("<=", -p)
        st.add("<", p - s.size)
        if s.fidx is not None:
            st.add("!", p - s.fidx)
        s = I.getseq(st, L)
        st.put(L, s.rep(mats=s.mats + ((p, o, st.heap[o]),)))
        out.append((st, o, p))
    if not (s.attr == "total"):
        out.append((st2, None, None))
    return out


def assoc(I, st, e, name, L, s, args):
    def kv(a):
        a2 = pval(I, st, a)
        return ival(I, st, a2) if not isinstance(a2, Loc) else a2
    if name in ("find", "count", "contains"):
        key = key_of(I, st, s, args[0])
        out = []
        for x, o, p in assoc_find(I, st, L, key):
            if name == "find":
                q = I.getseq(x, L)
                out.append((x, Iter(L, o, p) if o is not None else Iter(L, None, q.size)))
            elif name == "count":
                out.append((x, ONE if o is not None else ZERO))
            else:
                out.append((x, o is not None))
        return out
    if name in ("operator[]", "at"):
        key = key_of(I, st, s, args[0])
        out = []
        for x, o, p in assoc_find(I, st, L, key):
            if o is None:
                for y, no in assoc_insert(I, x, L, s, key, None):
                    out.append((y, Loc(no).f("second")))
            else:
                out.append((x, Loc(o).f("second")))
        return out
    if name in ("insert", "emplace"):
        if s.kind == "map":
            if len(args) == 2:
                key, val = key_of(I, st, s, args[0]), args[1]
            else:
                pr = args[0]
                key, val = st.get(pr.f("first")), st.get(pr.f("second"))
        else:
            key, val = key_of(I, st, s, args[0]), None
        out = []

        def where(x, o, new):
            if not I.cfg.get("exact"):
                return UNK
            r = I.new_obj(x, e["t"])
            x.put(Loc(r).f("first"), Iter(L, o, None))
            x.put(Loc(r).f("second"), new)
            return Loc(r)
        for x, o, p in assoc_find(I, st, L, key):
            if o is None:
                for y, no in assoc_insert(I, x, L, s, key, val):
                    out.append((y, where(y, no, True)))
            else:
                out.append((x, where(x, o, False)))
        return out
    if name == "erase":
        a = args[0]
        v = ival(I, st, a)
        out = []
        if isinstance(v, Iter):
            for x, o, pos in resolve_iter(I, st, v):
                for y, at in erase_elem(I, x, L, o, pos):
                    out.append((y, Iter(L, None, at) if at is not None else Iter(L, "*", None)))
            return out
        key = key_of(I, st, s, a)
        for x, o, p in assoc_find(I, st, L, key):
            if o is None:
                out.append((x, ZERO))
            else:
                for y, at in erase_elem(I, x, L, o, p):
                    out.append((y, ONE))
        return out
    return None


def multi(I, st, e, name, L, s, args):
    """multimap: the elements with one key are neighbours; only where every element is known"""
    if name == "erase":
        v = ival(I, st, args[0])
        if isinstance(v, Iter):
            out = []
            for x, o, pos in resolve_iter(I, st, v):
                for y, at in erase_elem(I, x, L, o, pos):
                    out.append((y, Iter(L, None, at) if at is not None else Iter(L, "*", None)))
            return out
        return None
    if name not in ("emplace", "insert", "equal_range", "count", "find", "contains"):
        return None
    if name in ("emplace", "insert"):
        if len(args) == 2:
            key, val = key_of(I, st, s, args[0]), args[1]
        else:
            key, val = st.get(args[0].f("first")), st.get(args[0].f("second"))
    else:
        key = key_of(I, st, s, args[0])
    out = []
    for x, lo, hi in multi_range(I, st, L, s, key):
        if lo is None:
            I.unsup(x, "multimap with unknown elements")
            out.append((x, UNK))
            continue
        if name == "count":
            out.append((x, Poly.const(hi - lo)))
        elif name == "contains":
            out.append((x, hi > lo))
        elif name == "find":
            out.append((x, Iter(L, None, Poly.const(lo) if hi > lo else I.getseq(x, L).size)))
        elif name == "equal_range":
            o = I.new_obj(x, e["t"])
            end = I.getseq(x, L).size
            x.put(Loc(o).f("first"), Iter(L, None, Poly.const(lo) if hi > lo else end))
            x.put(Loc(o).f("second"), Iter(L, None, Poly.const(hi) if hi > lo else end))
            out.append((x, Loc(o)))
        else:
            n = I.getseq(x, L).size
            for y, no in assoc_insert(I, x, L, s, key, val):
                q = I.getseq(y, L)
                if hi > lo:
                    y.put(L, q.rep(mats=tuple((Poly.const(hi) if o == no else p + 1 if p.cval() >= hi else p, o, g) for p, o, g in q.mats)))
                out.append((y, Iter(L, None, Poly.const(hi) if hi > lo else n)))
    return out


def multi_range(I, st, L, s, key):
    """-> [(st, first, last)]: where the elements with this key are"""
    objs = known_slots(s)
    if objs is None or s.felem is not None:
        return [(st, None, None)]
    states = [(st, [])]
    for o in objs:
        nx = []
        for x, hit in states:
            k = I.load(x, Loc(o).f("first"), -1)
            d = key_eq(I, x, k, key)
            if d is None and isinstance(k, Poly) and isinstance(key, Poly):
                t, n = I.branch(x, mkcmp("=", k - key))
                nx += [(y, hit + [True]) for y in t] + [(y, hit + [False]) for y in n]
            elif d is None:
                return [(st, None, None)]
            else:
                nx.append((x, hit + [d]))
        states = nx
    out = []
    for x, hit in states:
        at = [i for i, h in enumerate(hit) if h]
        if at and at != list(range(at[0], at[-1] + 1)):
            out.append((x, None, None))
        else:
            out.append((x, at[0], at[-1] + 1) if at else (x, 0, 0))
    return out


def key_of(I, st, s, a):
    kt = s.et if s.kind == "set" else I.p.T(s.et)["targs"][0]["t"]
    if I.kindof(kt) == "ptr":
        return pval(I, st, a)
    return ival(I, st, a)


def assoc_insert(I, st, L, s, key, val):
    vt = None if s.kind == "set" else I.p.T(s.et)["targs"][1]["t"]

    def init(x, o):
        if s.kind == "set":
            x.put(Loc(o), key)
            return [x]
        x.put(Loc(o).f("first"), key)
        if val is None:
            z = I.zero_of(vt)
            if z is UNK:
                info = seq_info(I.p, vt)
                if info:
                    I.make_seq(x, Loc(o).f("second"), info, False)
            else:
                x.put(Loc(o).f("second"), z)
        else:
            I.init_loc(x, Loc(o).f("second"), vt, pv(I, x, val, vt))
        return [x]
    return I.seq_append(st, L, init)


def shuffle_seq(I, st, L, cmpf):
    s = I.getseq(st, L)
    if I.cfg.get("anyorder") and cmpf is None and s.size.isconst() and len(s.mats) == s.size.cval():
        return      # every element is known and the property does not depend on their order
    for p, o, orig in s.mats:
        drop_mat(I, st, L, o, orig)
    s = I.getseq(st, L)
    k = None
    if s.felem is not None and s.attr != "dim":
        k = P.fresh("int", "k")
        st.add("<=", -k)
        st.add("<", k - s.size)
    st.put(L, s.rep(mats=(), fidx=k if s.felem is not None and s.attr != "dim" else s.fidx,
                    attr=("sorted", cmpf) if cmpf is not None else s.attr if s.attr == "dim" else None))


def whole(I, st, a, b):
    if not (isinstance(a, Iter) and isinstance(b, Iter)) or a.pos is None or b.pos is None:
        return False
    s = I.getseq(st, a.seq)
    return s is not None and st.ent("=", a.pos) and st.ent("=", b.pos - s.size)


def swap_objs(I, st, a, b):
    if a == b:
        return [(st, None)]
    oa, ob = st.heap.get(a.obj, {}).get("#own"), st.heap.get(b.obj, {}).get("#own")
    if oa is not None and oa == ob and not a.path and not b.path:
        s = st.get(oa)
        pos = {}
        if s.felem is not None:
            pos[s.felem] = s.fidx
        for p, o, _ in s.mats:
            pos[o] = p
        if a.obj in pos and b.obj in pos and s.attr != "dim":
            np = {a.obj: pos[b.obj], b.obj: pos[a.obj]}
            st.put(oa, s.rep(fidx=np.get(s.felem, s.fidx) if s.felem is not None else None,
                             mats=tuple((np.get(o, p), o, None if o in np else orig) for p, o, orig in s.mats), attr=None))
            return [(st, None)]
    t = I.new_obj(st, -1)
    st.heap[t] = {"#t": I.type_at(st, a) if I.type_at(st, a) is not None else -1}
    va, vb = st.get(a), st.get(b)
    if va is not None and vb is not None and not isinstance(va, Seq):
        I.store(st, a, vb)
        I.store(st, b, va)
        return [(st, None)]
    I.copy_struct(st, Loc(t), a)
    I.copy_struct(st, a, b)
    I.copy_struct(st, b, Loc(t))
    return [(st, None)]


def pick(I, st, a, b, less, isf):
    """min/max selection: fork"""
    return None


def it_step(I, st, it, n):
    p = iter_pos(I, st, it) if isinstance(it, Iter) else None
    if p is None:
        I.unsup(st, "iterator step from unknown position")
        return Iter(it.seq, "*", None) if isinstance(it, Iter) else UNK
    return Iter(it.seq, None, p + n)


def call(I, st, e, q, obj, args):
    """-> [(st,value)] or None when not modelled"""
    if obj is not None and q.startswith("std::"):
        obj = basevec(I, st, obj)
    if obj is not None:
        if isinstance(obj, Loc):
            it = st.get(obj)
            if isinstance(it, Iter):
                if it.elem == "*":
                    it = I.load(st, obj, -1, e.get("l"))
                return iter_method(I, st, e, q, obj, it, args)
            if "iterator" in q:
                name = q.rsplit("::", 1)[-1]
                if name == "operator=":
                    I.store(st, obj, ival(I, st, args[0]))
                    return [(st, obj)]
                v = I.load(st, obj, e.get("t", -1), e.get("l"))
                if isinstance(v, Iter):
                    return iter_method(I, st, e, q, obj, v, args)
                I.taint(st, "unknown iterator")
            if "#fun" in st.heap.get(obj.obj, {}):
                fn = st.heap[obj.obj]["#fun"]
                if q.endswith("operator()"):
                    a, b = ival(I, st, args[0]), ival(I, st, args[1])
                    return I.compare(st, {"std::less": "<", "std::greater": ">"}.get(fn, "=="), a, b)
        if isinstance(obj, Iter):
            return iter_method(I, st, e, q, None, obj, args)
        r = method(I, st, e, q, obj, args)
        if r is not None:
            return r
        if "uniform_real_distribution" in q and q.endswith("operator()"):
            a, b = st.get(obj.f("a")), st.get(obj.f("b"))
            u = P.fresh("real", "u01")
            st.add("<=", -u)
            st.add("<", u - 1)
            lim = st.ghost.get("draws")
            if lim is not None and a == ZERO and b == ONE:
                st.add("<=", lim[0] - u)
                st.add("<", u - lim[1])
            ev = I.cfg.get("on_rand")
            if ev:
                ev(I, st, u)
            if a == ZERO and b == ONE:
                return [(st, u)]
            return [(st, a + I.mul(st, u, b - a))]
        if "uniform_int_distribution" in q and q.endswith("operator()"):
            a, b = st.get(obj.f("a")), st.get(obj.f("b"))
            u = P.fresh("int", "ri")
            st.add("<=", a - u)
            st.add("<=", u - b)
            return [(st, u)]
        if "normal_distribution" in q and q.endswith("operator()"):
            return [(st, P.fresh("real", "norm"))]
        if "mersenne_twister" in q or "random_device" in q:
            return [(st, P.fresh("int", "rnd"))]
        if q.startswith("std::function") and q.endswith("operator()"):
            v = st.get(obj)
            return I.call_value(st, v if isinstance(v, (Fn,)) else obj, args)
        if q.startswith("Eigen::"):
            import eig
            return eig.method(I, st, e, q.rsplit("::", 1)[-1], obj, args)
    if q.startswith("std::") and "alloc" in q:
        r = storage(I, st, e, q.rsplit("::", 1)[-1], args)
        if r is not None:
            return r
    f = FREE.get(q)
    if f is not None:
        return f(I, st, e, args)
    if obj is None:
        name = q.rsplit("::", 1)[-1]
        if name in ("operator==", "operator!=", "operator<", "operator-", "operator+", "operator<=", "operator>", "operator>=") and len(args) == 2:
            a, b = ival(I, st, args[0]), ival(I, st, args[1])
            if isinstance(a, Iter) or isinstance(b, Iter):
                op = name[8:]
                if op == "-":
                    pa, pb = iter_pos(I, st, a), iter_pos(I, st, b)
                    if pa is not None and pb is not None:
                        return [(st, pa - pb)]
                    I.unsup(st, "iterator difference")
                    return [(st, P.fresh("int", "d"))]
                if op == "+":
                    return [(st, it_step(I, st, b, a))]
                return iter_compare(I, st, op, a, b)
        if q.startswith("Eigen::"):
            import eig
            return eig.free(I, st, e, name, args)
    return None


def iter_method(I, st, e, q, loc, it, args):
    name = q.rsplit("::", 1)[-1]
    if name in ("operator*", "operator->"):
        return [(x, Loc(o)) for x, o in I.deref_iter(st, it, e.get("l"))]
    if name in ("operator++", "operator--"):
        d = 1 if name == "operator++" else -1
        if isinstance(it.elem, int) and st.heap.get(it.elem, {}).get("#dead"):
            I.report("uaf", st, e.get("l"), "increment of an iterator to an erased element")
            return []
        n = it_step(I, st, it, d)
        if loc is not None:
            st.put(loc, n)
        if args:
            return [(st, it)]
        return [(st, loc if loc is not None else n)]
    if name in ("operator+=", "operator-="):
        d = ival(I, st, args[0])
        n = it_step(I, st, it, d if name == "operator+=" else -d)
        if loc is not None:
            st.put(loc, n)
        return [(st, loc if loc is not None else n)]
    if name in ("operator+", "operator-"):
        d = ival(I, st, args[0])
        if isinstance(d, Poly):
            return [(st, it_step(I, st, it, d if name == "operator+" else -d))]
    if name in ("operator==", "operator!=", "operator<"):
        return iter_compare(I, st, name[8:], it, ival(I, st, args[0]))
    if name == "operator[]":
        d = ival(I, st, args[0])
        n = it_step(I, st, it, d)
        return [(x, Loc(o)) for x, o in I.deref_iter(st, n, e.get("l"))]
    if name == "base":
        return [(st, it)]
    if name == "operator=":
        v = ival(I, st, args[0])
        if loc is not None:
            I.store(st, loc, v)
        return [(st, loc)]
    return None


# ------------------------------------------------------------------ free functions
FREE = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


@free("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::__addressof")
def f_move(I, st, e, a):
    if len(a) == 3:
        return f_copy(I, st, e, a)
    return [(st, a[0])]


@free("std::make_pair")
def f_make_pair(I, st, e, a):
    o = I.new_obj(st, I.p.strip(e["t"]))
    ta = I.p.T(I.p.strip(e["t"]))["targs"]
    I.init_loc(st, Loc(o).f("first"), ta[0]["t"], pv(I, st, a[0], ta[0]["t"]))
    I.init_loc(st, Loc(o).f("second"), ta[1]["t"], pv(I, st, a[1], ta[1]["t"]))
    return [(st, Loc(o))]


def minmax(less_first):
    def f(I, st, e, a):
        if len(a) == 1 and isinstance(a[0], Loc) and as_seq(I, st, a[0]) is not None:
            q = as_seq(I, st, a[0])
            n = q.size.cval() if q.size.isconst() else 0
            if not 1 <= n <= 8:
                I.unsup(st, "min over initializer_list")
                return [(st, I.fresh_of(st, e["t"]))]
            cur = [(s, ival(I, s, Loc(o))) for s, o in I.elem_at(st, a[0], ZERO)]
            for k in range(1, n):
                nxt = []
                for s, m in cur:
                    for s1, o in I.elem_at(s, a[0], P.Poly.const(k) if hasattr(P.Poly, "const") else ZERO + k):
                        nxt += f(I, s1, e, [m, ival(I, s1, Loc(o))])
                cur = nxt
            return cur
        x, y = ival(I, st, a[0]), ival(I, st, a[1])
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            I.unsup(st, "min/max operands"); import os; os.environ.get("VPDBG") and print("MM", x, y, a)
            return [(st, I.fresh_of(st, e["t"]))]
        isf = I.kindof(I.p.strip(e["t"])) == "float"
        if len(a) > 2:
            out = []
            for s2, v in I.call_value(st, a[2], [a[1], a[0]] if less_first else [a[0], a[1]]):
                t, n = I.branch(s2, I.tobool(s2, v))
                out += [(z, y) for z in t] + [(z, x) for z in n]
            return out
        # std::min(a,b): b<a ? b : a ; std::max(a,b): a<b ? b : a
        c = I.fcmp("<", y - x if less_first else x - y, isf)
        t, n = I.branch(st, c)
        return [(z, y) for z in t] + [(z, x) for z in n]
    return f


@free("memcpy", "std::memcpy", "memmove", "std::memmove")
def memcpy(I, st, e, args):
    d, f = (I.as_iter(st, pval(I, st, a)) for a in args[:2])
    n = ival(I, st, args[2])
    if d is not None and f is not None and isinstance(n, Poly):
        q, r = st.get(d.seq), st.get(f.seq)
        a, b = iter_pos(I, st, d), iter_pos(I, st, f)
        T = I.p.T(I.p.strip(q.et)) if isinstance(q, Seq) else {}
        if isinstance(r, Seq) and T.get("k") in ("int", "uint", "float") and I.p.T(I.p.strip(r.et)).get("bits") == T.get("bits") and \
                a is not None and b is not None and n.isconst() and n.cval() * 8 % T["bits"] == 0 and n.cval() * 8 // T["bits"] <= 64:
            states = [st]
            for k in range(int(n.cval() * 8 // T["bits"])):
                nxt = []
                for s in states:
                    for s1, o in I.elem_at(s, f.seq, b + k, e.get("l")):
                        v = s1.get(Loc(o))
                        for s2, o2 in I.elem_at(s1, d.seq, a + k, e.get("l")):
                            if v is not None:
                                s2.put(Loc(o2), v)
                            nxt.append(s2)
                states = nxt
            return [(s, args[0]) for s in states]
    I.unsup(st, "memcpy")
    return [(st, args[0])]


FREE["std::min"] = FREE["std::fmin"] = FREE["fmin"] = minmax(True)
FREE["std::max"] = FREE["std::fmax"] = FREE["fmax"] = minmax(False)


@free("std::clamp")
def f_clamp(I, st, e, a):
    x, lo, hi = [ival(I, st, v) for v in a[:3]]
    out = []
    t, n = I.branch(st, I.fcmp("<", x - lo, True))
    out += [(z, lo) for z in t]
    for z in n:
        t2, n2 = I.branch(z, I.fcmp("<", hi - z_id(x), True))
        out += [(w, hi) for w in t2] + [(w, x) for w in n2]
    return out


def z_id(x):
    return x


@free("std::swap")
def f_swap(I, st, e, a):
    return swap_objs(I, st, a[0], a[1])


@free("std::iter_swap")
def f_iter_swap(I, st, e, a):
    out = []
    for x, o, _ in resolve_iter(I, st, ival(I, st, a[0])):
        for y, o2, _ in resolve_iter(I, x, ival(I, x, a[1])):
            out.extend(swap_objs(I, y, Loc(o), Loc(o2)))
    return out


@free("std::sort", "std::stable_sort")
def f_sort(I, st, e, a):
    x, y = ival(I, st, a[0]), ival(I, st, a[1])
    if I.cfg.get("anyorder"):
        x, y = [elem_iter(I, st, q["t"], b, v) for q, b, v in zip(e["a"], a, (x, y))]
        r = exact_sort(I, st, x, y, a[2] if len(a) > 2 else None)
        if r is not None:
            return r
    if not whole(I, st, x, y):
        # a sub-range: positions inside become unknown
        if isinstance(x, Iter) and isinstance(y, Iter):
            return partial_shuffle(I, st, x, y)
        I.unsup(st, "sort range")
        return [(st, None)]
    cmpf = a[2] if len(a) > 2 else None
    if isinstance(cmpf, Loc) and isinstance(st.get(cmpf), Fn):
        cmpf = st.get(cmpf)
    cmpf2 = cmpf if cmpf is not None else "<"
    if not isinstance(cmpf2, Fn):
        cmpf2 = cmpf if isinstance(cmpf, Loc) else None
    I.events.setdefault(("sort", I.curloc), 0)
    shuffle_seq(I, st, x.seq, cmpf2)
    if cmpf2 is not None and cmpf2 != "<":
        place_extreme(I, st, x.seq, cmpf2)
    # keep closures alive through a ghost root
    return [(st, None)]


def known_slots(s):
    """the elements in order when every one of them is known"""
    if not s.size.isconst():
        return None
    d = {}
    for p, o, _ in s.mats:
        if not p.isconst():
            return None
        d[int(p.cval())] = o
    if s.felem is not None and s.attr != "dim":
        if s.fidx is None or not s.fidx.isconst():
            return None
        d[int(s.fidx.cval())] = s.felem
    n = int(s.size.cval())
    if len(d) != n or any(i not in d for i in range(n)):
        return None
    return [d[i] for i in range(n)]


def elem_iter(I, st, t, a, v):
    """a pointer to an element of a known container is a position in it"""
    if I.kindof(I.p.strip(t)) != "ptr":
        return v
    for l in (pval(I, st, a), a):
        if isinstance(l, Iter):
            return l
        if isinstance(l, Loc) and not l.path:
            own = st.heap.get(l.obj, {}).get("#own")
            q = st.get(own) if own is not None else None
            if isinstance(q, Seq):
                for p, o, _ in q.mats:
                    if o == l.obj:
                        return Iter(own, o, p)
                if q.felem == l.obj:
                    return Iter(own, l.obj, q.fidx)
    return v


def exact_sort(I, st, x, y, cmpf):
    """sort a range whose elements are all known: -> the states, one per outcome of the comparisons (ties keep their order)"""
    if not (isinstance(x, Iter) and isinstance(y, Iter)) or x.pos is None or y.pos is None or cmpf is None:
        return None
    s = I.getseq(st, x.seq)
    objs = known_slots(s) if s is not None else None
    if objs is None or not x.pos.isconst() or not y.pos.isconst():
        return None
    lo, hi = int(x.pos.cval()), int(y.pos.cval())
    if not 0 <= lo <= hi <= len(objs):
        return None
    if isinstance(cmpf, Loc) and isinstance(st.get(cmpf), Fn):
        cmpf = st.get(cmpf)
    st = st.fork()
    tmp = ("xs", I.curloc)
    if isinstance(cmpf, Loc) and st.frames:
        st.bind(tmp, cmpf)
    work = [(st, (), lo, 0)]     # state, sorted part, next element, how far it has moved down
    done = []
    while work:
        z, out, i, k = work.pop()
        if i == hi:
            done.append((z, list(out)))
            continue
        if len(work) + len(done) > 200:
            return None
        if k == len(out):
            work.append((z, (objs[i],) + out, i + 1, 0))
            continue
        for w, v in I.call_value(z, cmpf, [Loc(objs[i]), Loc(out[len(out) - 1 - k])]):
            if isinstance(v, Loc):
                v = I.load(w, v, None)
            d = I.decide(w, v)
            t, n = ([w], []) if d is True else ([], [w]) if d is False else I.branch(w, I.tobool(w, v))
            work += [(q, out, i, k + 1) for q in t]
            j = len(out) - k
            work += [(q, out[:j] + (objs[i],) + out[j:], i + 1, 0) for q in n]
    res = []
    for z, out in done:
        s = I.getseq(z, x.seq)
        new = objs[:lo] + out + objs[hi:]
        org = {o: orig for _, o, orig in s.mats}
        z.put(x.seq, s.rep(mats=tuple((P.Poly.const(i), o, org[o]) for i, o in enumerate(new) if o in org),
                           fidx=P.Poly.const(new.index(s.felem)) if s.felem is not None and s.attr != "dim" else s.fidx,
                           attr=s.attr if s.attr == "dim" else None))
        if z.frames and tmp in z.frames[-1].vars:
            z.frames[-1].vars = {k: v for k, v in z.frames[-1].vars.items() if k != tmp}
        res.append((z, None))
    return res


def place_extreme(I, st, L, cmpf):
    """a tracked element that compares before (after) every other one is first (last) once sorted"""
    s = I.getseq(st, L)
    if s is None or s.felem is None or s.fidx is None:
        return
    for first in (True, False):
        z = st.fork()
        if not z.add("<=", ONE - s.fidx if first else s.fidx - s.size + 2):
            continue
        pos = ZERO if first else s.size - 1
        z.put(L, I.getseq(z, L).rep(attr=None))
        rs = I._anon_at(z, L, pos)
        ok = bool(rs)
        for y, e in rs:
            a, b = Loc(s.felem), Loc(e)
            for w, v in I.call_value(y, cmpf, [a, b] if first else [b, a]):
                if isinstance(v, Loc):
                    v = I.load(w, v, None)
                if I.decide(w, v) is not True:
                    ok = False
        if ok:
            st.add("=", s.fidx if first else s.fidx - s.size + 1)
            return


def partial_shuffle(I, st, x, y):
    s = I.getseq(st, x.seq)
    if s is None or x.pos is None or y.pos is None:
        I.unsup(st, "sort range")
        return [(st, None)]
    out = []
    states = [st]
    if s.fidx is not None:
        inside, outside = I.branch(st, ("and", mkcmp("<=", x.pos - s.fidx), mkcmp("<", s.fidx - y.pos)))
        states = []
        for z in inside:
            k = P.fresh("int", "k")
            if z.add("<=", x.pos - k) and z.add("<", k - y.pos):
                z.put(x.seq, I.getseq(z, x.seq).rep(fidx=k))
                states.append(z)
        states += outside
    for z in states:
        s = I.getseq(z, x.seq)
        keep = []
        for p, o, orig in s.mats:
            if z.ent("<", p - x.pos) or z.ent("<=", y.pos - p):
                keep.append((p, o, orig))
            else:
                drop_mat(I, z, x.seq, o, orig)
        s = I.getseq(z, x.seq)
        z.put(x.seq, s.rep(mats=tuple(keep), attr=None if s.attr != "dim" else s.attr))
        out.append((z, None))
    return out


@free("std::nth_element", "std::partial_sort")
def f_nth(I, st, e, a):
    x, y = ival(I, st, a[0]), ival(I, st, a[2])
    return partial_shuffle(I, st, x, y)


@free("std::shuffle", "std::random_shuffle")
def f_shuffle(I, st, e, a):
    x, y = ival(I, st, a[0]), ival(I, st, a[1])
    if whole(I, st, x, y):
        shuffle_seq(I, st, x.seq, None)
        return [(st, None)]
    return partial_shuffle(I, st, x, y)


@free("std::next")
def f_next(I, st, e, a):
    n = ival(I, st, a[1]) if len(a) > 1 else ONE
    return [(st, it_step(I, st, itpos(I, st, a[0]), n))]


@free("std::prev")
def f_prev(I, st, e, a):
    n = ival(I, st, a[1]) if len(a) > 1 else ONE
    return [(st, it_step(I, st, itpos(I, st, a[0]), -n))]


@free("std::advance")
def f_advance(I, st, e, a):
    it = st.get(a[0]) if isinstance(a[0], Loc) else a[0]
    if isinstance(it, Loc):
        it = I.as_iter(st, it)
    if not isinstance(it, Iter):
        return None
    st.put(a[0], it_step(I, st, it, ival(I, st, a[1])))
    return [(st, None)]


@free("std::distance")
def f_distance(I, st, e, a):
    x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
    px, py = (iter_pos(I, st, v) if isinstance(v, Iter) else None for v in (x, y))
    if px is None or py is None:
        I.unsup(st, "distance")
        return [(st, P.fresh("int", "d"))]
    return [(st, py - px)]


@free("std::begin", "std::cbegin")
def f_begin(I, st, e, a):
    return [(st, Iter(a[0], None, ZERO))]


@free("std::end", "std::cend")
def f_end(I, st, e, a):
    return [(st, Iter(a[0], None, I.getseq(st, a[0]).size))]


@free("std::size")
def f_size(I, st, e, a):
    return [(st, I.getseq(st, a[0]).size)]


def by_value(I, st, fn, args):
    """arguments of a callee of a library loop: elements taken by value are copies"""
    d = st.heap.get(fn.obj, {}) if isinstance(fn, Loc) else {}
    f = I.p.functions.get(d.get("#lam") if "#lam" in d else getattr(fn, "id", None))
    if f is None:
        return args
    out = []
    for p, a in zip(f["params"], args):
        if isinstance(a, Loc) and I.p.T(p["t"]).get("k") == "rec" and not isinstance(st.get(a), (Iter, Loc)):
            o = I.new_obj(st, p["t"])
            I.copy_struct(st, Loc(o), a)
            a = Loc(o)
        out.append(a)
    return out


def is_slot(I, st, a):
    """an element of a container of pointers (not what such an element points to)"""
    own = st.heap.get(a.obj, {}).get("#own")
    q = st.get(own) if own is not None and not a.path else None
    return isinstance(q, Seq) and I.kindof(I.p.strip(q.et)) == "ptr" and isinstance(st.get(a), (Loc, Iter, Null))


def itarg(I, st, v):
    """an iterator passed by value: a pointer, or an object that holds a position"""
    return st.get(v) if isinstance(v, Loc) and isinstance(st.get(v), Iter) else v


def itpos(I, st, v):
    """an iterator argument as a position; a pointer to an element of a container is one"""
    v = itarg(I, st, v)
    if isinstance(v, Loc):
        x = I.as_iter(st, v)
        return x if x is not None else ival(I, st, v)
    return v


def known_range(I, st, a, b, most=64):
    """positions [a, b) of a container as (sequence, first, length), where they are known"""
    if isinstance(a, Null) and isinstance(b, Null):
        return (None, ZERO, 0)
    x, y = I.as_iter(st, a), I.as_iter(st, b)
    if x is None or y is None or x.seq != y.seq:
        return None
    p, q = iter_pos(I, st, x), iter_pos(I, st, y)
    if p is None or q is None:
        return None
    n = q - p
    if not n.isconst():
        return None
    n = n.cval()
    return (x.seq, p, n) if isinstance(n, int) and 0 <= n <= most else None


def assign_elem(I, st, o, v, et):
    """element object o = v, by the element's own assignment operator if it has one -> [st]"""
    et = I.p.strip(et)
    if I.kindof(et) != "rec":
        I.store(st, Loc(o), ival(I, st, v))
        return [st]
    own = [f for f in I.p.functions.values() if f["q"].endswith("::operator=") and not f.get("implicit") and not f.get("defaulted")
           and f.get("clst") == et and len(f["params"]) == 1 and I.p.strip(f["params"][0]["t"]) == et
           and I.p.T(f["params"][0]["t"]).get("k") == "ref"]
    if own:
        return [s for s, _ in I.call_fn(st, own[0], [v], Loc(o), I.curloc)]
    if isinstance(v, Loc):
        I.copy_struct(st, Loc(o), v)
    else:
        I.unsup(st, "assignment of an element")
    return [st]


@free("std::fill", "std::fill_n")
def f_fill(I, st, e, a):
    x, y = itarg(I, st, a[0]), itarg(I, st, a[1]) if not e["q"].endswith("_n") else ival(I, st, a[1])
    if whole(I, st, x, y):
        fill(I, st, x.seq, a[2])
        return [(st, None)]
    if isinstance(y, Poly):
        x = I.as_iter(st, x)
        y = it_step(I, st, x, y) if x is not None else None
    r = known_range(I, st, x, y) if I.cfg.get("exact") else None
    et = getattr(st.get(r[0]), "et", None) if r and r[0] is not None else None
    if r is not None and (r[2] == 0 or et is not None):
        sts = [st]
        for k in range(r[2]):
            nxt = []
            for s in sts:
                for s2, o in I.elem_at(s, r[0], r[1] + k):
                    nxt.extend(assign_elem(I, s2, o, a[2], et))
            sts = nxt
        return [(s, None) for s in sts]
    I.unsup(st, "fill range")
    return [(st, None)]


@free("std::exchange")
def f_exchange(I, st, e, a):
    if not isinstance(a[0], Loc) or I.kindof(I.p.strip(e["t"])) == "rec":
        return None
    old = I.load(st, a[0], e["t"], e.get("l"))
    v = st.get(a[1]) if isinstance(a[1], Loc) else a[1]
    if v is None or I.kindof(I.p.strip(e["t"])) == "ptr" and not isinstance(v, (Loc, Iter, Null)):
        v = a[1]
    I.store(st, a[0], v)
    return [(st, old)]


@free("std::copy", "std::copy_n")
def f_copy(I, st, e, a):
    if len(a) != 3:
        return None
    x, d = itarg(I, st, a[0]), itarg(I, st, a[2])
    y = itarg(I, st, a[1]) if not e["q"].endswith("_n") else ival(I, st, a[1])
    if isinstance(y, Poly):
        x = I.as_iter(st, x)
        y = it_step(I, st, x, y) if x is not None else None
    r = known_range(I, st, x, y) if I.cfg.get("exact") else None
    if r is not None and r[2] == 0:
        return [(st, d)]
    d = I.as_iter(st, d)
    p = iter_pos(I, st, d) if d is not None else None
    et = getattr(st.get(d.seq), "et", None) if d is not None else None
    if r is None or p is None or et is None:
        return None
    sts = [st]
    for k in range(r[2]):
        nxt = []
        for s in sts:
            for s1, i in I.elem_at(s, r[0], r[1] + k):
                for s2, o in I.elem_at(s1, d.seq, p + k):
                    nxt.extend(assign_elem(I, s2, o, Loc(i), et))
        sts = nxt
    return [(s, Iter(d.seq, None, p + r[2])) for s in sts]


@free("std::abs", "abs", "std::fabs", "fabs", "__builtin_fabs", "std::__builtin_fabs")
def f_abs(I, st, e, a):
    x = ival(I, st, a[0])
    if not isinstance(x, Poly):
        return [(st, I.fresh_of(st, e["t"]))]
    if I.nan:
        return [(st, P.app("abs", (x,), "int" if x.isint() else "real"))]
    t, n = I.branch(st, mkcmp("<=", -x))
    return [(z, x) for z in t] + [(z, -x) for z in n]


def mathfn(name, pos=None):
    def f(I, st, e, a):
        xs = [ival(I, st, v) for v in a]
        if not all(isinstance(x, Poly) for x in xs):
            return [(st, I.fresh_of(st, e["t"]))]
        if name == "pow" and xs[1].isconst() and isinstance(xs[1].cval(), int) and 0 <= xs[1].cval() <= 8:
            r = ONE
            for _ in range(xs[1].cval()):
                r = I.mul(st, r, xs[0])
            return [(st, r)]
        if name == "sqrt" and xs[0].isconst() and xs[0].cval() in (0, 1):
            return [(st, xs[0])]
        r = P.app(name, tuple(xs), "real")
        if pos == "pos" and not I.nan:
            st.add("<", -r)
            if name in ("exp", "exp2") and r.single() is not None:
                # increasing
                for o in {m[0] for _, q in st.cons for m in q.t if len(m) == 1 and P.ATOMS[m[0]].op == name}:
                    x, y = xs[0], P.ATOMS[o].args[0]
                    for u, v, ru, rv in ((x, y, r, Poly({(o,): 1})), (y, x, Poly({(o,): 1}), r)):
                        if st.ent("<=", u - v):
                            st.add("<" if st.ent("<", u - v) else "<=", ru - rv)
        elif pos == "nonneg" and not I.nan:
            st.add("<=", -r)
        return [(st, r)]
    return f


for _n, _p in (("exp", "pos"), ("pow", None), ("sqrt", "nonneg"), ("log", None), ("sin", None), ("cos", None),
               ("tan", None), ("ceil", None), ("round", None), ("log10", None), ("log2", None), ("atan", None),
               ("acos", None), ("asin", None), ("atan2", None), ("cbrt", None), ("exp2", "pos"), ("hypot", "nonneg")):
    FREE["std::" + _n] = FREE[_n] = mathfn(_n, _p)


@free("std::floor", "floor")
def f_floor(I, st, e, a):
    x = ival(I, st, a[0])
    q = P.app("floor", (x,), "int")
    st.add("<=", q - x)
    st.add("<", x - q - 1)
    return [(st, q)]


@free("std::isnan", "isnan", "std::isinf")
def f_isnan(I, st, e, a):
    if I.nan:
        return [(st, ("b", P.fresh("int", "isnan").single()))]
    return [(st, False)]


@free("std::isfinite")
def f_isfinite(I, st, e, a):
    if I.nan:
        return [(st, ("b", P.fresh("int", "isfin").single()))]
    return [(st, True)]


@free("std::thread::hardware_concurrency", "omp_get_max_threads", "omp_get_num_procs", "omp_get_thread_num")
def f_hw(I, st, e, a):
    x = P.fresh("int", "hw")
    st.add("<=", -x)
    return [(st, x)]


@free("Eigen::setNbThreads", "omp_set_num_threads", "Eigen::initParallel", "std::ios_base::sync_with_stdio")
def f_noop(I, st, e, a):
    return [(st, None)]


@free("__assert_fail", "abort", "exit", "std::abort", "std::exit", "std::terminate")
def f_dead(I, st, e, a):
    return []


def extremum(isbetter_args):
    """std::min_element / max_element by interpretation"""
    def f(I, st, e, a):
        x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
        cmpf = a[2] if len(a) > 2 else None
        if not isinstance(x, Iter) or x.pos is None or not isinstance(y, Iter) or y.pos is None:
            I.unsup(st, "min_element")
            return [(st, UNK)]
        lid = ("me", e.get("l"))
        cb, cc = I.new_obj(st, -1), I.new_obj(st, -1)
        st.put(Loc(cb), x)
        st.put(Loc(cc), x)
        st.bind(lid + ("b",), Loc(cb))
        st.bind(lid + ("c",), Loc(cc))
        if isinstance(cmpf, Loc):
            st.bind(lid + ("f",), cmpf)
        ce = I.new_obj(st, -1)
        st.put(Loc(ce), y)
        st.bind(lid + ("e",), Loc(ce))

        def V(st, n):
            return st.frames[-1].vars[lid + (n,)]

        def cond(st):
            return iter_compare(I, st, "!=", st.get(V(st, "c")), st.get(V(st, "e")))

        def body(st):
            f = I.flows()
            for s1, oc, _ in resolve_iter(I, st, st.get(V(st, "c"))):
                for s2, ob, _ in resolve_iter(I, s1, s1.get(V(s1, "b"))):
                    args = [Loc(oc), Loc(ob)] if isbetter_args else [Loc(ob), Loc(oc)]
                    if cmpf is None:
                        rs = I.compare(s2, "<", ival(I, s2, args[0]), ival(I, s2, args[1]))
                    else:
                        rs = I.call_value(s2, s2.frames[-1].vars.get(lid + ("f",), cmpf), args)
                    for s3, v in rs:
                        t, n = I.branch(s3, I.tobool(s3, v))
                        for z in t:
                            c = z.get(V(z, "c"))
                            z.put(V(z, "b"), Iter(c.seq, oc, iter_pos(I, z, c)))
                            f["n"].append(z)
                        f["n"].extend(n)
            return f

        def inc(st):
            c = st.get(V(st, "c"))
            st.put(V(st, "c"), it_step(I, st, c, 1))
            return [(st, None)]
        fl = I.loop([st], cond, body, inc, {"l": e.get("l"), "k": "for"})
        out = []
        for s in fl["n"]:
            r = s.get(V(s, "b"))
            vv = dict(s.frames[-1].vars)
            for n in "bcef":
                vv.pop(lid + (n,), None)
            s.frames[-1].vars = vv
            out.append((s, r))
        return out
    return f


FREE["std::min_element"] = extremum(True)
FREE["std::max_element"] = extremum(False)


def algo_loop(kind):
    """for_each / any_of / all_of / none_of / count_if / find_if by interpretation"""
    def f(I, st, e, a):
        x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
        fn = a[2]
        if not isinstance(x, Iter) or x.pos is None or not isinstance(y, Iter) or y.pos is None:
            I.unsup(st, kind)
            return [(st, I.fresh_of(st, e["t"]))]
        lid = ("al", e.get("l"))
        cc, ce = I.new_obj(st, -1), I.new_obj(st, -1)
        st.put(Loc(cc), x)
        st.put(Loc(ce), y)
        st.bind(lid + ("c",), Loc(cc))
        st.bind(lid + ("e",), Loc(ce))
        cn = I.new_obj(st, -1)
        st.put(Loc(cn), ZERO)
        st.bind(lid + ("n",), Loc(cn))
        if isinstance(fn, Loc):
            st.bind(lid + ("f",), fn)

        def V(st, n):
            return st.frames[-1].vars[lid + (n,)]

        def cond(st):
            return iter_compare(I, st, "!=", st.get(V(st, "c")), st.get(V(st, "e")))

        def body(st):
            f = I.flows()
            for s1, oc, _ in resolve_iter(I, st, st.get(V(st, "c"))):
                g = s1.frames[-1].vars.get(lid + ("f",), fn)
                for s2, v in I.call_value(s1, g, by_value(I, s1, g, [Loc(oc)])):
                    if kind == "for_each":
                        f["n"].append(s2)
                        continue
                    t, n = I.branch(s2, I.tobool(s2, v))
                    if kind == "count_if":
                        for z in t:
                            z.put(V(z, "n"), z.get(V(z, "n")) + 1)
                        f["n"] += t + n
                    elif kind == "all_of":
                        f["r"] += [(z, False) for z in n]
                        f["n"] += t
                    elif kind in ("any_of", "none_of"):
                        f["r"] += [(z, kind == "any_of") for z in t]
                        f["n"] += n
                    elif kind == "find_if":
                        f["r"] += [(z, z.get(V(z, "c"))) for z in t]
                        f["n"] += n
            return f

        def inc(st):
            st.put(V(st, "c"), it_step(I, st, st.get(V(st, "c")), 1))
            return [(st, None)]
        fl = I.loop([st], cond, body, inc, {"l": e.get("l"), "k": "for"})
        out = []
        ends = [(s, {"for_each": UNK, "count_if": s.get(V(s, "n")), "all_of": True, "any_of": False, "none_of": True,
                     "find_if": s.get(V(s, "e"))}[kind]) for s in fl["n"]]
        for s, r in ends + fl["r"]:
            vv = dict(s.frames[-1].vars)
            for n in "cenf":
                vv.pop(lid + (n,), None)
            s.frames[-1].vars = vv
            out.append((s, r))
        return out
    return f


for _k in ("for_each", "any_of", "all_of", "none_of", "count_if", "find_if"):
    FREE["std::" + _k] = algo_loop(_k)


def seq_loop(I, st, e, x, y, cells, step, result):
    """a library loop over the elements of [x, y): cells are the loop's own variables,
    step(st, V, element) -> flows, result(st, V) -> [(st, value)]"""
    lid = ("sl", e.get("l"), e.get("q"))
    cells = dict(cells, c=x, e=y)
    for n, v in cells.items():
        if n == "f" and not isinstance(v, Loc):
            continue
        if n in ("f",):
            st.bind(lid + (n,), v)
            continue
        o = I.new_obj(st, -1)
        st.put(Loc(o), v)
        st.bind(lid + (n,), Loc(o))

    def V(st, n):
        return st.frames[-1].vars[lid + (n,)]

    def cond(st):
        return iter_compare(I, st, "!=", st.get(V(st, "c")), st.get(V(st, "e")))

    def body(st):
        f = I.flows()
        for s1, oc, _ in resolve_iter(I, st, st.get(V(st, "c"))):
            g = step(s1, V, oc)
            for k in ("n", "r"):
                f[k] += g.get(k, [])
        return f

    def inc(st):
        for n in ("c", "d", "g"):
            if n in cells:
                st.put(V(st, n), it_step(I, st, st.get(V(st, n)), 1))
        return [(st, None)]
    fl = I.loop([st], cond, body, inc, {"l": e.get("l"), "k": "for"})
    out = []
    for s, r in [z for s in fl["n"] for z in result(s, V)] + fl["r"]:
        vv = dict(s.frames[-1].vars)
        for n in cells:
            vv.pop(lid + (n,), None)
        s.frames[-1].vars = vv
        out.append((s, r))
    return out


def is_range(x, y):
    return isinstance(x, Iter) and x.pos is not None and isinstance(y, Iter) and y.pos is not None


@free("std::accumulate")
def f_accumulate(I, st, e, a):
    x, y, t = itpos(I, st, a[0]), itpos(I, st, a[1]), I.p.strip(e["t"])
    init = ival(I, st, a[2])
    fn = a[3] if len(a) > 3 else None
    if not is_range(x, y) or not isinstance(init, Poly):
        I.unsup(st, "accumulate")
        return [(st, I.fresh_of(st, e["t"], "sum"))]
    isint = I.kindof(t) in ("int", "uint")
    if isint:
        init = I.trunc(st, init)

    def step(s, V, o):
        acc = s.get(V(s, "acc"))
        if fn is None:
            v = ival(I, s, Loc(o))
            rs = [(s, acc + v)] if isinstance(v, Poly) else [(s, None)]
        else:
            rs = I.call_value(s, s.frames[-1].vars.get(("sl", e.get("l"), e.get("q"), "f"), fn), [acc, Loc(o)])
        out = []
        for s2, v in rs:
            v = ival(I, s2, v) if v is not None else None
            if not isinstance(v, Poly):
                I.unsup(s2, "accumulate")
                v = I.fresh_of(s2, e["t"], "sum")
            s2.put(V(s2, "acc"), I.trunc(s2, v) if isint else v)
            out.append(s2)
        return {"n": out}
    return seq_loop(I, st, e, x, y, {"acc": init, "f": fn}, step, lambda s, V: [(s, s.get(V(s, "acc")))])


@free("std::transform")
def f_transform(I, st, e, a):
    two = len(a) == 5
    x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
    g = itpos(I, st, a[2]) if two else None
    d, fn = itpos(I, st, a[3 if two else 2]), a[-1]
    if not is_range(x, y) or not isinstance(d, Iter) or d.pos is None or two and (not isinstance(g, Iter) or g.pos is None):
        return None

    def step(s, V, o):
        out = []
        second = resolve_iter(I, s, s.get(V(s, "g"))) if two else [(s, None, None)]
        for s1, og, _ in second:
            args = [Loc(o)] + ([Loc(og)] if two else [])
            for s2, v in I.call_value(s1, s1.frames[-1].vars.get(("sl", e.get("l"), e.get("q"), "f"), fn), args):
                for s3, od, _ in resolve_iter(I, s2, s2.get(V(s2, "d"))):
                    q = s3.get(s3.get(V(s3, "d")).seq)
                    out += assign_elem(I, s3, od, v, q.et)
        return {"n": out}
    cells = {"d": d, "f": fn}
    if two:
        cells["g"] = g
    return seq_loop(I, st, e, x, y, cells, step, lambda s, V: [(s, s.get(V(s, "d")))])


@free("std::generate", "std::generate_n", "std::iota")
def f_generate(I, st, e, a):
    x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
    if e["q"].endswith("_n"):
        n = ival(I, st, a[1])
        if not isinstance(x, Iter) or not isinstance(n, Poly) or not st.ent("<=", -n):
            return None
        y = it_step(I, st, x, n)
    if not is_range(x, y):
        return None
    iota = e["q"].endswith("iota")
    init = ival(I, st, a[2]) if iota else ZERO
    if not isinstance(init, Poly):
        return None
    fn = a[2]

    def step(s, V, o):
        et = s.get(s.get(V(s, "c")).seq).et
        if iota:
            v = s.get(V(s, "n"))
            s.put(V(s, "n"), v + 1)
            return {"n": assign_elem(I, s, o, v, et)}
        out = []
        for s2, v in I.call_value(s, s.frames[-1].vars.get(("sl", e.get("l"), e.get("q"), "f"), fn), []):
            out += assign_elem(I, s2, o, v, et)
        return {"n": out}
    return seq_loop(I, st, e, x, y, {"n": init, "f": None if iota else fn}, step, lambda s, V: [(s, None)])


@free("std::find", "std::count")
def f_find(I, st, e, a):
    x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
    v = ival(I, st, a[2])
    if not is_range(x, y) or not isinstance(v, (Poly, Loc)) and v is not NULL:
        return None
    find = e["q"].endswith("find")

    def step(s, V, o):
        f = {"n": [], "r": []}
        for s1, c in I.compare(s, "==", ival(I, s, Loc(o)), v):
            t, n = I.branch(s1, I.tobool(s1, c))
            if find:
                f["r"] += [(z, z.get(V(z, "c"))) for z in t]
            else:
                for z in t:
                    z.put(V(z, "n"), z.get(V(z, "n")) + 1)
                f["n"] += t
            f["n"] += n
        return f
    return seq_loop(I, st, e, x, y, {"n": ZERO}, step, lambda s, V: [(s, s.get(V(s, "e" if find else "n")))])


# ------------------------------------------------------------------ intrinsics (driver side)
INTRINSICS = {}


def intr(name):
    def d(f):
        INTRINSICS[name] = f
        return f
    return d


@intr("VP_any_int")
def vp_any_int(I, e, st):
    return [(st, P.fresh("int", "any"))]


@intr("VP_any_size")
def vp_any_size(I, e, st):
    x = P.fresh("int", "n")
    st.add("<=", -x)
    return [(st, x)]


@intr("VP_any_double")
def vp_any_double(I, e, st):
    return [(st, P.fresh("real", "any"))]


@intr("VP_any_bool")
def vp_any_bool(I, e, st):
    return [(st, ("b", P.fresh("int", "any").single()))]


@intr("VP_assume")
def vp_assume(I, e, st):
    out = []
    for s, c in I.ev(e["a"][0], st):
        out.extend((x, None) for x in I.assume(s, I.tobool(s, c)))
    return out


@intr("VP_assert")
def vp_assert(I, e, st):
    out = []
    for s, (c, m) in I.evs(e["a"][:2], st):
        c = I.tobool(s, c)
        d = I.decide(s, c)
        name = m[1] if isinstance(m, tuple) else str(m)
        rec = I.asserts.setdefault(name, {"ok": 0, "fail": 0, "maybe": 0, "where": e.get("l")})
        if d is True:
            rec["ok"] += 1
        else:
            if not s.imp:
                # a condition beyond linear arithmetic fails only where a point of the path shows it
                bad = [P.witness(x.cons - s.cons, x.cons) for x in I.assume(s.fork(), cnot(c))]
                if bad and all(b is False for b in bad) or any(k != "!" and P.row_id((k, p)) < 0 for k, p in s.cons):
                    s.imp = s.imp | frozenset(["nonlinear condition without a witness"])
            if s.imp:
                rec["maybe"] += 1
            else:
                rec["fail"] += 1
            if I.cfg.get("debug"):
                print("ASSERT FAIL", name, d, c, "imp", s.imp)
                print("   cons", sorted(map(repr, s.cons)))
                print("   focus", s.focus, s.heap.get(s.focus))
            I.report("assert", s, I.user_site(s), name)
        for x in I.assume(s, c):
            out.append((x, None))
    return out


@intr("VP_equal")
def vp_equal(I, e, st):
    """two terms are equal: the same normal form, or entailed; different only when they differ at sample points of the path"""
    out = []
    for s, (a, b, m) in I.evs(e["a"][:3], st):
        name = m[1] if isinstance(m, tuple) else str(m)
        rec = I.asserts.setdefault(name, {"ok": 0, "fail": 0, "maybe": 0, "where": e.get("l")})
        v = "maybe"
        w = None
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a == b or s.ent("=", a - b) or P.same(a, b) or P.same_ratio(a, b):
                v = "ok"
            else:
                v, w = P.differ(a, b, s.cons)
        if v == "fail" and s.imp:
            v = "maybe"
        rec[v] += 1
        if v == "fail":
            I.report("assert", s, I.user_site(s), name + (" (%s)" % w if w else ""))
        elif v == "maybe":
            s.imp = s.imp | frozenset(["undecided equality"])
            I.report("assert", s, I.user_site(s), name)
        out.append((s, None))
    return out


@intr("VP_is_focus")
def vp_is_focus(I, e, st):
    out = []
    for s, v in I.ev(e["a"][0], st):
        out.append((s, isinstance(v, Loc) and v.obj == s.focus))
    return out


@intr("VP_has_focus")
def vp_has_focus(I, e, st):
    return [(st, st.focus is not None)]


@intr("VP_focus_alive")
def vp_focus_alive(I, e, st):
    return [(st, st.focus is not None and not st.heap.get(st.focus, {}).get("#dead"))]


@intr("VP_focus_elems")
def vp_focus_elems(I, e, st):
    st.ghost["focus_t"] = I.p.T(e["targs"][0]["t"])["s"]
    return [(st, None)]


@intr("VP_focus_off")
def vp_focus_off(I, e, st):
    st.ghost["focus_on"] = False
    return [(st, None)]


@intr("VP_focus_on")
def vp_focus_on(I, e, st):
    st.ghost["focus_on"] = True
    return [(st, None)]


@intr("VP_dims")
def vp_dims(I, e, st):
    out = []
    for s, v in I.ev(e["a"][0], st):
        K = P.fresh("int", "K")
        s.add("<=", -K)
        s.add("<", K - v)
        s.ghost["K"] = K
        out.append((s, None))
    return out


@intr("VP_draws")
def vp_draws(I, e, st):
    """from here on every uniform draw from [0,1) is at least a and less than b"""
    out = []
    for s, (a, b) in I.evs(e["a"], st):
        s.ghost["draws"] = (a, b)
        out.append((s, None))
    return out


@intr("VP_K")
def vp_k(I, e, st):
    return [(st, st.ghost["K"])]


@intr("VP_same")
def vp_same(I, e, st):
    out = []
    for s, (a, b) in I.evs(e["a"], st):
        out.append((s, isinstance(a, Loc) and isinstance(b, Loc) and a == b))
    return out


@intr("VP_havoc")
def vp_havoc(I, e, st):
    out = []
    for s, v in I.ev(e["a"][0], st):
        I.havoc(s, v)
        out.append((s, None))
    return out


@intr("VP_prefix")
def vp_prefix(I, e, st):
    """from here on, loops that rewrite a container front to back are tracked by the rewritten prefix"""
    I.cfg["prefix"] = True
    return [(st, None)]


def bound_atoms(st, obj, mark, free, bound):
    """atoms newer than mark in the contents of obj; those bound by nested templates apart"""
    for p, v in st.heap[obj].items():
        if isinstance(v, P.Poly):
            free.update(a for m in v.t for a in m if a >= mark)
        elif isinstance(v, tuple) and v and v[0] == "c":
            free.update(a for m in v[2].t for a in m if a >= mark)
        elif isinstance(v, Seq):
            for q in (v.size, v.rows, v.cols):
                if isinstance(q, P.Poly):
                    free.update(a for m in q.t for a in m if a >= mark)
            if v.tmpl is not None:
                bound_atoms(st, v.tmpl, mark, free, bound)
                bound.update(v.tsyms)
            if v.felem is not None:
                bound_atoms(st, v.felem, mark, free, bound)
            for _, o, _ in v.mats:
                if o in st.heap:
                    bound_atoms(st, o, mark, free, bound)


@intr("VP_each")
def vp_each(I, e, st):
    """the same code for each element of a container, which does not depend on other elements or on the position"""
    out = []
    for s, (c, f) in I.evs(e["a"], st):
        q = I.getseq(s, c)
        d = s.heap[f.obj]
        fn = I.p.functions[d["#lam"]]

        def run(s, o):
            rs = [(a, b) for a, b in I.call_fn(s, fn, [Loc(o)], f, I.curloc, lam=d)]
            if len(rs) != 1:
                raise RuntimeError("VP_each: code with branches")
            return rs[0][0]
        mark = len(P.ATOMS)
        o = I.anon_instance(s, c, None)
        s = run(s, o)
        t = I.generalise(s, o)
        free, bound = set(), set()
        bound_atoms(s, t, mark, free, bound)
        for k, p in s.cons:
            free.update(a for m in p.t for a in m if a >= mark)
        h = dict(s.heap[t])
        h.pop("#anon", None)
        h.pop("#own", None)
        s.heap[t] = h
        if q.felem is not None:
            s = run(s, q.felem)
        s.put(c, I.getseq(s, c).rep(tmpl=t, tsyms=frozenset(free - bound), mats=()))
        out.append((s, None))
    return out


@intr("VP_havoc_elems")
def vp_havoc_elems(I, e, st):
    """unknown contents, same size"""
    out = []
    for s, v in I.ev(e["a"][0], st):
        q = I.getseq(s, v)
        if q is None:
            I.havoc(s, v)
        else:
            q = Seq(q.kind, q.et, q.size, rows=q.rows, cols=q.cols)
            s.put(v, q)
            I.fill_new(s, v, q, True)
        out.append((s, None))
    return out


@intr("VP_dump")
def vp_dump(I, e, st):
    for s, vs in I.evs(e["a"], st):
        print("DUMP", vs, [s.get(v) if isinstance(v, Loc) else v for v in vs], "cons:", sorted(map(repr, s.cons)), "imp:", s.imp)
    return [(st, None)]


@intr("VP_reach")
def vp_reach(I, e, st):
    out = []
    for s, (m,) in I.evs(e["a"], st):
        k = ("reach", m[1])
        I.events[k] = I.events.get(k, 0) + 1
        out.append((s, None))
    return out
