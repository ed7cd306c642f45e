"""Model of the Eigen operations used by the library.

An array is a Seq of kind 'eigen' (rows, cols, size = rows*cols).  Elementwise expressions are evaluated eagerly on the
components that are tracked: every component of a small fixed-size array, else the arbitrary component K (VP_dims), else
none.  Products, reductions over untracked components, inverses, blocks ... yield unknown values, never wrong ones."""
from core import *
import poly as P
import models as M

DYN = -1
SMALL = 4


class EX:
    """value of an Eigen expression; comps: {key: value} with key an int (full) or 'K'; None = nothing known"""
    __slots__ = ("rows", "cols", "size", "comps", "full", "t", "view", "off", "undef", "vw")

    def __init__(self, rows, cols, size, comps, full, t=None, view=None):
        self.rows, self.cols, self.size, self.comps, self.full, self.t, self.view = rows, cols, size, comps, full, t, view
        self.off = None
        self.undef = None
        self.vw = None

    def __repr__(self):
        return "EX(%r,%r,%r)" % (self.rows, self.cols, self.comps)


def dims(p, T):
    """(scalar type index, rows, cols) of a plain Eigen type"""
    a = T.get("targs") or []
    return a[0]["t"], a[1].get("i"), a[2].get("i")


def info(p, T):
    et, r, c = dims(p, T)
    n = r * c if r is not None and c is not None and r > 0 and c > 0 else None
    return ("eigen", et, n)


def plain(I, st, L):
    """Seq of an Eigen array object with rows/cols filled in"""
    s = I.getseq(st, L)
    if s is None or s.kind != "eigen":
        return None
    if s.rows is None:
        t = I.type_at(st, L)
        T = I.p.T(t) if t is not None else {}
        if T.get("rec") in ("Eigen::Array", "Eigen::Matrix"):
            _, r, c = dims(I.p, T)
        else:
            r = c = None
        if r is not None and r > 0:
            rows = Poly.const(r)
        elif c == 1:
            rows = s.size
        else:
            rows = None
        if c is not None and c > 0:
            cols = Poly.const(c)
        elif r == 1:
            cols = s.size
        else:
            cols = None
        if rows is None or cols is None:
            z = s.size == ZERO
            if rows is None:
                rows = ZERO if z else P.fresh("int", "rows")
                st.add("<=", -rows)
            if cols is None:
                cols = ZERO if z else P.fresh("int", "cols")
                st.add("<=", -cols)
            if not z:
                pr = I.mul(st, rows, cols)
                st.add("=", pr - s.size)
        s = s.rep(rows=rows, cols=cols)
        st.put(L, s)
    return s


def cn(p):
    return p.cval() if isinstance(p, Poly) and p.isconst() else None


def comps_of(I, st, L, s):
    """[(st, comps, full)]"""
    n = cn(s.size)
    if n is not None and I.small(s):
        states = [(st, {})]
        for i in range(int(n)):
            nx = []
            for x, c in states:
                for y, o in I.elem_at(x, L, Poly.const(i)):
                    v = I.load(y, Loc(o), s.et)
                    nx.append((y, dict(c, **{}) | {i: v}))
            states = nx
        return [(x, c, True) for x, c in states]
    K = st.ghost.get("K")
    if K is not None and s.felem is not None and s.fidx == K:
        v = I.load(st, Loc(s.felem), s.et)
        return [(st, {"K": v}, False)]
    if K is not None and st.ent("<", K - s.size) and st.ent("<=", -K):
        out = []
        for x, o in I.elem_at(st, L, K):
            out.append((x, {"K": I.load(x, Loc(o), s.et)}, False))
        return out
    return [(st, None, False)]


def used(I, st, x):
    if x.undef:
        I.report("uninit", st, x.undef, "read of uninitialised object")
        x.undef = None


def get(I, st, v, t=None):
    """-> [(st, EX or scalar Poly)]"""
    if isinstance(v, EX):
        used(I, st, v)
        return [(st, v)]
    if isinstance(v, Loc):
        x = st.get(v)
        if isinstance(x, EX):
            used(I, st, x)
            return [(st, x)]
        s = plain(I, st, v)
        if s is not None:
            return [(z, EX(z.get(v).rows if isinstance(z.get(v), Seq) else s.rows, s.cols, s.size, c, f, s.et, None))
                    for z, c, f in comps_of(I, st, v, s)]
        x = M.ival(I, st, v)
        return [(st, x)]
    return [(st, v)]


def unknown(rows=None, cols=None, size=None, t=None):
    return EX(rows, cols, size, None, False, t)


def bcast(I, st, f, xs):
    """apply f(st, [scalars]) -> [(st, v)] to every tracked component"""
    arrs = [x for x in xs if isinstance(x, EX)]
    ref = arrs[0]
    for a in arrs[1:]:
        if ref.size is None or (ref.comps is None and a.comps is not None and a.size is not None):
            ref = a
    res = EX(ref.rows, ref.cols, ref.size, None, False, ref.t)
    if any(a.comps is None for a in arrs):
        return [(st, res)]
    keys = set(arrs[0].comps)
    for a in arrs[1:]:
        keys &= set(a.comps)
    if not keys:
        return [(st, res)]
    full = all(a.full for a in arrs) and all(set(a.comps) == keys for a in arrs)
    states = [(st, {})]
    for k in sorted(keys, key=str):
        nx = []
        for x, c in states:
            for y, v in f(x, [a.comps[k] if isinstance(a, EX) else a for a in xs]):
                nx.append((y, c | {k: v}))
        states = nx
    return [(x, EX(ref.rows, ref.cols, ref.size, c, full, ref.t)) for x, c in states]


def isnum(v):
    return isinstance(v, Poly)


def b_arith(I, op):
    def f(st, v):
        a, b = v
        if not (isnum(a) and isnum(b)):
            return [(st, P.fresh("real", "e"))]
        if op == "+":
            return [(st, a + b)]
        if op == "-":
            return [(st, a - b)]
        if op == "*":
            return [(st, I.mul(st, a, b))]
        if op == "/":
            r = I.div(st, a, b, False)
            return r if isinstance(r, list) else [(st, r)]
        if op == "min":
            t, n = I.branch(st, I.fcmp("<", b - a, True))
            return [(z, b) for z in t] + [(z, a) for z in n]
        if op == "max":
            t, n = I.branch(st, I.fcmp("<", a - b, True))
            return [(z, b) for z in t] + [(z, a) for z in n]
        if op in ("&&", "||"):
            return [(st, ("and" if op == "&&" else "or", a, b))]
        raise AssertionError(op)
    return f


def b_cmp(I, op):
    def f(st, v):
        a, b = v
        if not (isnum(a) and isnum(b)):
            return [(st, ("b", P.fresh("int", "cmp").single()))]
        k, d = {"<": ("<", a - b), "<=": ("<=", a - b), ">": ("<", b - a), ">=": ("<=", b - a),
                "==": ("=", a - b), "!=": ("!", a - b)}[op]
        return [(st, I.fcmp(k, d, True) if k in ("<", "<=") else mkcmp(k, d))]
    return f


def b_bool(I, op):
    def f(st, v):
        a, b = v
        if not (iscond(a) and iscond(b)):
            return [(st, ("b", P.fresh("int", "cmp").single()))]
        return [(st, I.c_and(a, b) if op == "&&" else I.c_or(a, b))]
    return f


def binop(I, st, op, a, b):
    out = []
    for s1, x in get(I, st, a):
        for s2, y in get(I, s1, b):
            if not isinstance(x, EX) and not isinstance(y, EX):
                out.append((s2, unknown()))
                continue
            f = b_cmp(I, op) if op in ("<", "<=", ">", ">=", "==", "!=") else \
                b_bool(I, op) if op in ("&&", "||") else b_arith(I, op)
            out.extend(bcast(I, s2, f, [x, y]))
    return out


def reduce_bool(I, st, x, all_):
    if x.comps is None:
        st.taint("reduction over untracked components")
        return [(st, ("b", P.fresh("int", "all" if all_ else "any").single()))]
    c = True if all_ else False
    for k in sorted(x.comps, key=str):
        v = x.comps[k]
        if not iscond(v):
            v = ("b", P.fresh("int", "bit").single())
        c = I.c_and(c, v) if all_ else I.c_or(c, v)
    if x.full:
        return [(st, c)]
    # untracked components: they matter only where the tracked ones do not decide
    tr, fa = I.branch(st, c)
    out = [(z, not all_) for z in (fa if all_ else tr)]
    for z in (tr if all_ else fa):
        z.taint("reduction over untracked components")
        out.append((z, ("b", P.fresh("int", "rest").single())))
    return out


def set_dims(I, st, L, s, rows, cols, size):
    """dynamic arrays take the dimensions of what is assigned to them"""
    t = I.type_at(st, L)
    T = I.p.T(t) if t is not None else {}
    n = None
    if T.get("rec") in ("Eigen::Array", "Eigen::Matrix"):
        n = info(I.p, T)[2]
    if n is not None:
        return s
    if size is None:
        size = P.fresh("int", "size")
        st.add("<=", -size)
        rows = cols = None
    s = s.rep(size=size, rows=rows, cols=cols)
    st.put(L, s)
    return plain(I, st, L)


def assign(I, st, L, x):
    """-> [st]"""
    if st.heap.get(L.obj, {}).get("#dead"):
        I.report("uaf", st, I.curloc, "write to an erased element")
    s = plain(I, st, L)
    if isinstance(x, EX):
        s = set_dims(I, st, L, s, x.rows, x.cols, x.size)
        comps, full = x.comps, x.full
    else:
        comps, full = ("all", x), False
    put_comps(I, st, L, s, comps)
    return [st]


def put_comps(I, st, L, s, comps):
    K = st.ghost.get("K")
    kind = I.kindof(s.et)
    if comps is not None and not isinstance(comps, tuple):
        comps = {k: (v if isinstance(v, Poly) or (kind == "bool" and iscond(v)) else I.fresh_of(st, s.et, "e"))
                 for k, v in comps.items()}
    if isinstance(comps, tuple) and not isinstance(comps[1], Poly):
        comps = None
    tm = I.new_obj(st, s.et, "unk")
    syms = frozenset()
    if isinstance(comps, tuple):
        st.put(Loc(tm), comps[1])
    elif kind in ("float", "int", "uint"):
        a = I.fresh_of(st, s.et, "anon")
        st.put(Loc(tm), a)
        syms = frozenset([a.single()])
    fe = fi = None
    mats = ()
    dim = "dim" if kind in ("float", "int", "uint") else None
    if I.small(s):
        old = {int(p_.cval()): o for p_, o, _ in s.mats if p_.isconst()}
        for i in range(int(s.size.cval())):
            v = comps[1] if isinstance(comps, tuple) else (comps or {}).get(i)
            if v is None:
                v = I.fresh_of(st, s.et, "e")
            o = old.get(i)
            if o is None:
                o = I.new_obj(st, s.et)
            d = dict(st.heap[o])
            d["#own"] = L
            d[()] = v
            d.pop("#u", None)
            st.heap[o] = d
            mats += ((Poly.const(i), o, None),)
    elif K is not None:
        val = comps[1] if isinstance(comps, tuple) else (comps or {}).get("K")
        if val is None and st.ent("<", K - s.size):
            val = I.fresh_of(st, s.et, "e")
        if val is not None and (isinstance(comps, dict) or st.ent("<", K - s.size)):
            fe = I.new_obj(st, s.et)
            st.put(Loc(fe), val)
            d = dict(st.heap[fe])
            d["#own"] = L
            st.heap[fe] = d
            fi = K
    st.put(L, s.rep(tmpl=tm, tsyms=syms, felem=fe, fidx=fi, mats=mats, attr=dim))


def resize(I, st, L, rows, cols, zero=False):
    s = plain(I, st, L)
    t = I.type_at(st, L)
    T = I.p.T(t)
    _, r, c = dims(I.p, T)
    n = info(I.p, T)[2]
    if n is not None:
        rows, cols = Poly.const(r), Poly.const(c)
    if rows is None:
        rows = s.rows
    if cols is None:
        cols = s.cols
    one = Poly.const(1)
    size = rows if cols == one else cols if rows == one else I.mul(st, rows, cols)
    if not zero and st.ent("=", size - s.size):
        st.put(L, s.rep(rows=rows, cols=cols))
        return [st]
    s2 = Seq("eigen", s.et, size, rows=rows, cols=cols)
    st.put(L, s2)
    I.fill_new(st, L, s2, False, zero)
    return [st]


def construct(I, st, loc, e, info_, vs):
    t = e["t"]
    T = I.p.T(t)
    kind, et, n = info_
    _, r, c = dims(I.p, T)
    I.make_seq(st, loc, (kind, et, n), False)
    plain(I, st, loc)
    # the defaulted SFINAE argument of the converting constructors carries no data
    al = e.get("a") or []
    vs = [v for i, v in enumerate(vs) if v is not None and not (i and i < len(al) and al[i].get("def"))]
    if not vs:
        return [st]
    if len(vs) == 1:
        v = vs[0]
        out = []
        for s, x in get(I, st, v):
            if isinstance(x, EX):
                out.extend(assign(I, s, loc, x))
            elif n is None and isnum(x):
                rows, cols = (Poly.const(1), x) if r == 1 else (x, Poly.const(1))
                out.extend(resize(I, s, loc, rows, cols))
            elif isnum(x) and n is not None:
                # a fixed-size vector constructed from an integer leaves the coefficients undefined
                out.append(s)
            else:
                M_unk(I, s, loc)
                out.append(s)
        return out
    xs = [M.ival(I, st, v) for v in vs]
    if n is None and len(vs) == 2 and all(isnum(x) for x in xs) and not (r is not None and r > 0 and c is not None and c > 0):
        return resize(I, st, loc, xs[0], xs[1])
    if n is not None and n == len(vs):
        s = plain(I, st, loc)
        K = st.ghost.get("K")
        if I.small(s):
            put_comps(I, st, loc, s, {i: x for i, x in enumerate(xs)})
        else:
            put_comps(I, st, loc, s, None)
        return [st]
    M_unk(I, st, loc)
    return [st]


def M_unk(I, st, loc):
    s = plain(I, st, loc)
    if s.size is not None and s.size.isconst() and not s.size.cval():
        I.unsup(st, "eigen construct")
    put_comps(I, st, loc, s, None)


def construct_expr(I, st, loc, e, vs):
    """expression/Block/Map temporaries"""
    if len(vs) == 1:
        for s, x in get(I, st, vs[0]):
            if isinstance(x, EX):
                s.put(loc, x)
                return [s]
    if not vs and I.p.T(e.get("t", -1)).get("s", "").endswith("::PrivateType"):
        return [st]     # the tag Eigen's conversions are overloaded on
    I.unsup(st, "eigen expression object")
    st.put(loc, unknown())
    return [st]


FRESHRED = {"sum", "prod", "mean", "norm", "squaredNorm", "determinant", "trace", "dot", "stableNorm", "minCoeff",
            "maxCoeff", "nonZeros", "lpNorm", "count"}
NONNEG = {"norm", "squaredNorm", "stableNorm", "count", "nonZeros"}
OPS = {"operator+": "+", "operator-": "-", "operator*": "*", "operator/": "/", "operator<": "<", "operator<=": "<=",
       "operator>": ">", "operator>=": ">=", "operator==": "==", "operator!=": "!=", "operator&&": "&&",
       "operator||": "||", "cwiseMin": "min", "cwiseMax": "max", "cwiseProduct": "*", "cwiseQuotient": "/",
       "min": "min", "max": "max", "cwiseEqual": "==", "cwiseLess": "<"}
UNARY = {"abs", "exp", "log", "sqrt", "square", "cube", "sin", "cos", "tan", "floor", "ceil", "round", "inverse", "cwiseAbs",
         "cwiseSqrt", "cwiseInverse", "log10", "isNaN", "isInf", "isFinite", "sign", "operator-", "operator!", "pow"}
SAME = {"array", "matrix", "derived", "eval", "noalias", "matrix", "const_cast_derived", "const_derived"}


def grid(x):
    """(rows, cols) of a matrix all of whose elements are tracked"""
    if not isinstance(x, EX) or not x.full or not x.comps or x.rows is None or x.cols is None:
        return None
    r, c = cn(x.rows), cn(x.cols)
    if r is None or c is None or len(x.comps) != r * c or not all(isnum(v) for v in x.comps.values()):
        return None
    return int(r), int(c)


def known(r, c, comps, t=None):
    return EX(Poly.const(r), Poly.const(c), Poly.const(r * c), comps, True, t)


def product(I, st, x, y):
    a, b = grid(x), grid(y)
    if a is None or b is None or a[1] != b[0]:
        return unknown()
    comps = {}
    for i in range(a[0]):
        for j in range(b[1]):
            v = ZERO
            for k in range(a[1]):
                v = v + I.mul(st, x.comps[i + k * a[0]], y.comps[k + j * b[0]])
            comps[i + j * a[0]] = v
    return known(a[0], b[1], comps, x.t)


def det(I, st, m, n):
    """m: {(r, c): value}"""
    if n == 1:
        return m[0, 0]
    r = ZERO
    for j in range(n):
        v = I.mul(st, m[0, j], det(I, st, minor(m, n, 0, j), n - 1))
        r = r + v if j % 2 == 0 else r - v
    return r


def minor(m, n, i, j):
    return {(a - (a > i), b - (b > j)): m[a, b] for a in range(n) for b in range(n) if a != i and b != j}


def inverse(I, st, x):
    g = grid(x)
    if g is None or g[0] != g[1] or not 1 <= g[0] <= 3:
        return None
    n = g[0]
    m = {(i, j): x.comps[i + j * n] for i in range(n) for j in range(n)}
    d = det(I, st, m, n)
    comps = {}
    for i in range(n):
        for j in range(n):
            c = det(I, st, minor(m, n, j, i), n - 1) if n > 1 else ONE
            q = I.div(st, c if (i + j) % 2 == 0 else -c, d, False)
            comps[i + j * n] = q
    return known(n, n, comps, x.t)


def spread(I, st, op, x, y):
    """x.rowwise() op v, x.colwise() op v"""
    g, h = grid(x), grid(y)
    if g is None or h is None or h != ((1, g[1]) if x.vw == "rowwise" else (g[0], 1)):
        return None
    r, c = g
    z = {i + j * r: y.comps[j if x.vw == "rowwise" else i] for i in range(r) for j in range(c)}
    u = EX(x.rows, x.cols, x.size, x.comps, True, x.t)
    return bcast(I, st, b_arith(I, op), [u, EX(x.rows, x.cols, x.size, z, True, x.t)])


def lines(x):
    """the rows or columns a vector-wise reduction runs over"""
    g = grid(x)
    if g is None or x.vw is None:
        return None
    r, c = g
    return [[x.comps[i + j * r] for j in range(c)] for i in range(r)] if x.vw == "rowwise" else \
        [[x.comps[i + j * r] for i in range(r)] for j in range(c)]


def is_matrix_op(q):
    return "MatrixBase" in q or "VectorwiseOp" in q or "PermutationBase" in q or "Product" in q


def method(I, st, e, name, obj, args):
    q = e.get("q", "")
    x0 = st.get(obj) if isinstance(obj, Loc) else obj
    L = obj if isinstance(obj, Loc) and not isinstance(x0, EX) else None
    s = plain(I, st, L) if L is not None else None
    if L is not None and s is None:
        L = None
    if name in SAME:
        return [(st, obj)]
    if name in ("rows", "cols", "size"):
        if s is not None:
            return [(st, getattr(s, name))]
        ex = get(I, st, obj)[0][1]
        v = getattr(ex, name, None) if isinstance(ex, EX) else None
        if v is None:
            v = P.fresh("int", name)
            st.add("<=", -v)
        return [(st, v)]
    if name in ("innerSize", "outerSize"):
        v = P.fresh("int", name)
        st.add("<=", -v)
        return [(st, v)]
    if name in ("operator[]", "operator()", "coeff", "coeffRef", "x", "y", "z", "w", "value"):
        if name in ("x", "y", "z", "w"):
            args = [Poly.const("xyzw".index(name))]
        iv = [M.ival(I, st, a) for a in args]
        if L is not None and len(iv) == 1 and isnum(iv[0]):
            return [(z, Loc(o)) for z, o in I.elem_at(st, L, iv[0], e.get("l"))]
        if L is not None and len(iv) == 2 and all(map(isnum, iv)):
            return elem2(I, st, L, s, iv[0], iv[1], e)
        out = []
        for z, ex in get(I, st, obj):
            k = cn(iv[0]) if iv else None
            if isinstance(ex, EX) and ex.comps and k is not None and len(iv) == 1 and int(k) in ex.comps:
                out.append((z, ex.comps[int(k)]))
            elif isinstance(ex, EX) and ex.comps and iv and isnum(iv[0]) and "K" in ex.comps and len(iv) == 1 and \
                    z.ent("=", iv[0] - z.ghost["K"]):
                out.append((z, ex.comps["K"]))
            else:
                out.append((z, I.fresh_of(z, e["t"])))
        return out
    if name == "data":
        if s is not None and st.ent("<", -s.size):
            return [(x, Loc(o)) for x, o in I.elem_at(st, L, ZERO)]
        return [(st, UNK)]
    if name in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
        if L is None:
            r = segment_write(I, st, obj, name, args[0])
            return r if r is not None else view_write(I, st, obj)
        out = []
        if name == "operator=":
            for z, x in get(I, st, args[0]):
                if isinstance(args[0], Loc) and args[0] == L:
                    out.append((z, obj))
                    continue
                if isinstance(args[0], Loc) and not isinstance(z.get(args[0]), EX):
                    r = z.get(args[0])
                    t = I.type_at(z, L)
                    n = info(I.p, I.p.T(t))[2] if t is not None and I.p.T(t).get("rec") in ("Eigen::Array", "Eigen::Matrix") else None
                    I.copy_struct(z, L, args[0])
                    q2 = I.getseq(z, L)
                    if q2 is not None:
                        z.put(L, q2.rep(et=s.et))
                    out.append((z, obj))
                    continue
                out.extend((y, obj) for y in assign(I, z, L, x if isinstance(x, EX) else unknown(s.rows, s.cols, s.size)))
            return out
        op = name[8]
        if op == "*" and is_matrix_op(q) and not scalar_arg(I, st, args[0]):
            for z in assign(I, st, L, unknown(s.rows, s.cols, s.size)):
                out.append((z, obj))
            return out
        for z, x in binop(I, st, op, L, args[0]):
            x = EX(s.rows, s.cols, s.size, x.comps, x.full, s.et)
            out.extend((y, obj) for y in assign(I, z, L, x))
        return out
    if name in ("setZero", "setOnes", "setConstant", "fill", "setRandom"):
        out = []
        iv = [M.ival(I, st, a) for a in args]
        val = {"setZero": ZERO, "setOnes": ONE}.get(name)
        if name in ("setConstant", "fill"):
            val = iv[-1]
            iv = iv[:-1]
        if L is None:
            return view_write(I, st, obj)
        if iv:
            if len(iv) == 1:
                _, r, c = dims(I.p, I.p.T(I.type_at(st, L)))
                iv = [Poly.const(1), iv[0]] if r == 1 else [iv[0], Poly.const(1)]
            states = resize(I, st, L, iv[0], iv[1], True)
        else:
            states = [st]
        for z in states:
            q2 = plain(I, z, L)
            if name == "setRandom" and L is not None and "double" in str(I.p.T(I.type_at(z, L)).get("s", "")):
                n = cn(q2.size)
                rk = rand_unit(I, z)
                ks = {"K": rk()} if not (n is not None and n <= SMALL) else {i: rk() for i in range(int(n))}
                out.extend((y, obj) for y in assign(I, z, L, EX(q2.rows, q2.cols, q2.size, ks, "K" not in ks)))
                continue
            put_comps(I, z, L, q2, ("all", val) if isnum(val) else None)
            out.append((z, obj))
        return out
    if name in ("resize", "conservativeResize"):
        if L is None:
            return [(st, None)]
        iv = [M.ival(I, st, a) if not is_nochange(I, st, a, e, i) else None for i, a in enumerate(args)]
        iv = [v if isnum(v) else None for v in iv]
        if len(iv) == 1:
            _, r, c = dims(I.p, I.p.T(I.type_at(st, L)))
            iv = [Poly.const(1), iv[0]] if r == 1 else [iv[0], Poly.const(1)]
        if name == "conservativeResize":
            for z in resize(I, st, L, iv[0], iv[1]):
                M_unk(I, z, L)
                return [(z, None)]
        return [(z, None) for z in resize(I, st, L, iv[0], iv[1])]
    if name in ("swap",):
        if L is not None and isinstance(args[0], Loc) and plain(I, st, args[0]) is not None:
            return M.swap_objs(I, st, L, args[0])
        return [(st, None)]
    if name in OPS and len(args) == 1:
        op = OPS[name]
        if "VectorwiseOp" in q:
            out = []
            for z, x in get(I, st, obj):
                for w, y in get(I, z, args[0]):
                    r = spread(I, w, op, x, y) if isinstance(x, EX) and x.vw and op in "+-*/" else None
                    if r is None:
                        out = None
                        break
                    out.extend(r)
                if out is None:
                    break
            if out is not None:
                return out
            ex = get(I, st, obj)[0][1]
            return [(st, unknown(ex.rows, ex.cols, ex.size) if isinstance(ex, EX) else unknown())]
        if op == "*" and is_matrix_op(q) and not scalar_arg(I, st, args[0]):
            return [(w, product(I, w, x, y)) for z, x in get(I, st, obj) for w, y in get(I, z, args[0])]
        return binop(I, st, op, obj, args[0])
    if name in ("all", "any"):
        out = []
        for z, x in get(I, st, obj):
            if isinstance(x, EX):
                out.extend(reduce_bool(I, z, x, name == "all"))
            else:
                out.append((z, ("b", P.fresh("int", name).single())))
        return out
    if name in FRESHRED:
        return reduction(I, st, obj, name, e, args)
    if name in UNARY and not (name == "inverse" and is_matrix_op(q)):
        return unary(I, st, obj, name, args)
    if name in ("begin", "end", "cbegin", "cend") and L is not None:
        return [(st, Iter(L, None, ZERO if "begin" in name else s.size))]
    if name in ("col", "row", "block", "segment", "head", "tail", "transpose", "colwise", "rowwise", "diagonal",
                "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "replicate", "reshaped",
                "topLeftCorner", "asDiagonal", "inverse", "cast", "select", "normalized", "real", "unaryExpr", "vec"):
        x = get(I, st, obj)[0][1] if L is None else None
        if name == "cast" or name == "real":
            return get(I, st, obj)
        if name == "select" and len(args) == 2:
            return sel(I, st, obj, args[0], args[1])
        u = unknown()
        seg = segment(I, st, obj, L, s, name, args, e)
        if seg is not None:
            return seg
        part = whole_view(I, st, obj, L, s, name, args, e)
        if part is not None:
            return part
        if name == "transpose" and s is not None:
            u = unknown(s.cols, s.rows, s.size)
        elif name == "col" and s is not None:
            chk(I, st, M.ival(I, st, args[0]), s.cols, e)
            u = unknown(s.rows, Poly.const(1), s.rows)
        elif name == "row" and s is not None:
            chk(I, st, M.ival(I, st, args[0]), s.rows, e)
            u = unknown(Poly.const(1), s.cols, s.cols)
        elif name in ("colwise", "rowwise", "inverse") and s is not None:
            u = unknown(s.rows, s.cols, s.size)
        elif isinstance(x, EX):
            if name == "transpose":
                u = unknown(x.cols, x.rows, x.size)
            elif name in ("colwise", "rowwise", "inverse", "normalized"):
                u = unknown(x.rows, x.cols, x.size)
        u.view = L if L is not None else (x.view if isinstance(x, EX) else None)
        return [(st, u)]
    if name == "operator<<":
        if L is not None:
            M_unk(I, st, L)
        return [(st, UNK)]
    if "IOFormat" in q or name in ("format",):
        return [(st, UNK)]
    return None


def chk(I, st, i, n, e):
    if not isnum(i) or n is None:
        return
    if not st.ent("<", i - n):
        I.report("oob" if st.ent("<=", n - i) else "oob?", st, e.get("l"), "row or column index may reach the end of a matrix")
    if not st.ent("<=", -i):
        I.report("oob" if st.ent("<", i) else "oob?", st, e.get("l"), "row or column index may be negative in a matrix")


def elem2(I, st, L, s, r, c, e):
    chk(I, st, r, s.rows, e)
    chk(I, st, c, s.cols, e)
    nr = cn(s.rows)
    pos = None
    if nr is not None:
        pos = r + c.scale(nr)
    elif cn(s.cols) == 1:
        pos = r + I.mul(st, c, s.rows)
    if pos is not None:
        if not (st.ent("<", pos - s.size) and st.ent("<=", -pos)):
            if not (st.add("<", pos - s.size) and st.add("<=", -pos)):
                return []
        return [(z, Loc(o)) for z, o in I.elem_at(st, L, pos, e.get("l"))]
    return [(st, Loc(I.anon_instance(st, L, None)))]


def is_nochange(I, st, a, e, i):
    return not isnum(M.ival(I, st, a))


def scalar_arg(I, st, a):
    if isinstance(a, EX):
        return False
    if isinstance(a, Loc):
        x = st.get(a)
        if isinstance(x, (EX, Seq)):
            return False
        return plain(I, st, a) is None
    return True


def segment(I, st, obj, L, s, name, args, e):
    """part of a vector all of whose components are tracked"""
    if name not in ("head", "tail", "segment", "topRows", "bottomRows", "middleRows"):
        return None
    out = []
    iv = [M.ival(I, st, a) for a in args]
    if not iv or not all(isnum(v) and v.isconst() for v in iv):
        return None
    I.undef = []
    got = get(I, st, obj)
    lazy, I.undef = I.undef, None
    for z, x in got:
        n = cn(x.size) if isinstance(x, EX) and x.size is not None else None
        if n is None or not x.full or not x.comps or x.cols is None or cn(x.cols) != 1:
            return None
        if name in ("segment", "middleRows"):
            if len(iv) != 2:
                return None
            off, k = cn(iv[0]), cn(iv[1])
        else:
            k = cn(iv[0])
            off = 0 if name in ("head", "topRows") else n - k
        if off < 0 or k < 0 or off + k > n:
            I.report("oob", z, e.get("l"), "part of a vector that is longer than the vector")
            continue
        u = EX(Poly.const(k), Poly.const(1), Poly.const(k), {i: x.comps[off + i] for i in range(int(k))}, True, x.t)
        u.undef = lazy[0] if lazy else None
        u.view = L if L is not None else x.view if x.off is not None else None
        u.off = int(off) + (x.off or 0)
        out.append((z, u))
    return out


def whole_view(I, st, obj, L, s, name, args, e):
    """transpose, inverse, a row, a column, row-wise or column-wise view of a matrix whose elements are all tracked"""
    if name not in ("transpose", "inverse", "row", "col", "rowwise", "colwise", "diagonal") or name == "diagonal" and args or name == "inverse" and args:
        return None
    I.undef = []
    got = get(I, st, obj)
    lazy, I.undef = I.undef, None
    out = []
    for z, x in got:
        g = grid(x)
        if g is None or x.vw is not None:
            return None
        r, c = g
        if name in ("row", "col"):
            k = M.ival(I, z, args[0])
            if not isnum(k) or not k.isconst():
                return None
            k, n = int(k.cval()), r if name == "row" else c
            if not 0 <= k < n:
                I.report("oob", z, e.get("l"), "%s index outside a matrix" % ("row" if name == "row" else "column"))
                continue
            u = known(r, 1, {i: x.comps[i + k * r] for i in range(r)}, x.t) if name == "col" else \
                known(1, c, {j: x.comps[k + j * r] for j in range(c)}, x.t)
            if name == "col":
                u.view = L if L is not None else x.view if x.off is not None else None
                u.off = k * r + (x.off or 0)
            else:
                u.view = L if L is not None else x.view
        elif name == "transpose":
            u = known(c, r, {j + i * c: x.comps[i + j * r] for i in range(r) for j in range(c)}, x.t)
            u.view = L if L is not None else x.view
        elif name == "diagonal":
            n = min(r, c)
            u = known(n, 1, {i: x.comps[i + i * r] for i in range(n)}, x.t)
            u.view = L if L is not None else x.view
        elif name == "inverse":
            used(I, z, x)
            u = inverse(I, z, x)
            if u is None:
                return None
        else:
            u = known(r, c, x.comps, x.t)
            u.vw = name
            u.view = L if L is not None else x.view
        u.undef = lazy[0] if lazy else x.undef
        out.append((z, u))
    return out


def segment_write(I, st, obj, name, a):
    x = obj if isinstance(obj, EX) else (st.get(obj) if isinstance(obj, Loc) else None)
    if not isinstance(x, EX) or x.off is None or x.view is None or plain(I, st, x.view) is None or name != "operator=":
        return None
    out = []
    for z, y in get(I, st, a):
        if not isinstance(y, EX) or not y.full or y.size is None or cn(y.size) != cn(x.size):
            return None
        states = [z]
        for i in range(int(cn(x.size))):
            nx = []
            for w in states:
                for w2, o in I.elem_at(w, x.view, Poly.const(x.off + i)):
                    I.store(w2, Loc(o), y.comps[i])
                    nx.append(w2)
            states = nx
        out.extend((w, obj) for w in states)
    return out


def view_write(I, st, obj):
    """assignment through a block: the array it belongs to gets unknown contents"""
    x = obj if isinstance(obj, EX) else (st.get(obj) if isinstance(obj, Loc) else None)
    if isinstance(x, EX) and x.view is not None and plain(I, st, x.view) is not None:
        M_unk(I, st, x.view)
    return [(st, obj)]


def sel(I, st, c, a, b):
    out = []
    for s1, x in get(I, st, c):
        for s2, y in get(I, s1, a):
            for s3, z in get(I, s2, b):
                if not isinstance(x, EX):
                    out.append((s3, unknown()))
                    continue

                def f(w, v):
                    if not iscond(v[0]):
                        return [(w, P.fresh("real", "e"))]
                    t, n = I.branch(w, v[0])
                    return [(u, v[1]) for u in t] + [(u, v[2]) for u in n]
                out.extend(bcast(I, s3, f, [x, y, z]))
    return out


def unary(I, st, obj, name, args):
    def f(s, v):
        x = v[0]
        if name in ("isNaN", "isInf"):
            return [(s, ("b", P.fresh("int", "nan").single()) if I.nan else False)]
        if name == "isFinite":
            return [(s, ("b", P.fresh("int", "nan").single()) if I.nan else True)]
        if name == "operator!":
            return [(s, cnot(x) if iscond(x) else ("b", P.fresh("int", "n").single()))]
        if not isnum(x):
            return [(s, P.fresh("real", "e"))]
        if name == "operator-":
            return [(s, -x)]
        if name == "square":
            return [(s, I.mul(s, x, x))]
        if name == "cube":
            return [(s, I.mul(s, I.mul(s, x, x), x))]
        if name in ("inverse", "cwiseInverse"):
            return [(s, P.app("inv", (x,), "real"))]
        if name == "sign":
            return [(s, P.app("sign", (x,), "real"))]
        g = {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(name, name)
        fn = M.FREE.get("std::" + g)
        if fn is None:
            return [(s, P.fresh("real", "e"))]
        return fn(I, s, {"t": -1, "l": I.curloc}, [x] + [M.ival(I, s, a) for a in args])
    out = []
    for s, x in get(I, st, obj):
        if isinstance(x, EX):
            out.extend(bcast(I, s, f, [x]))
        else:
            out.append((s, unknown()))
    return out


def fold_line(I, st, name, vs):
    """-> [(st, value, position)] for a reduction over known values, or None"""
    if name in ("sum", "mean"):
        r = vs[0]
        for v in vs[1:]:
            r = r + v
        return [(st, I.div(st, r, Poly.const(len(vs)), False) if name == "mean" else r, None)]
    if name == "prod":
        r = vs[0]
        for v in vs[1:]:
            r = I.mul(st, r, v)
        return [(st, r, None)]
    if name == "squaredNorm":
        r = ZERO
        for v in vs:
            r = r + I.mul(st, v, v)
        return [(st, r, None)]
    if name in ("minCoeff", "maxCoeff"):
        states = [(st, vs[0], 0)]
        for i, v in enumerate(vs[1:], 1):
            nx = []
            for z, cur, k in states:
                t, n = I.branch(z, I.fcmp("<", v - cur if name == "minCoeff" else cur - v, True))
                nx += [(y, v, i) for y in t] + [(y, cur, k) for y in n]
            states = nx
        return states
    return None


def reduction(I, st, obj, name, e, args=()):
    out = []
    for s, x in get(I, st, obj):
        ls = lines(x) if isinstance(x, EX) else None
        if ls is not None:
            states = [(s, {})]
            for i, vs in enumerate(ls):
                nx = []
                for z, c in states:
                    for w, v, _ in fold_line(I, z, name, vs) or [(z, P.fresh("real", name), None)]:
                        nx.append((w, c | {i: v}))
                states = nx
            n = len(ls)
            out.extend((z, known(*((n, 1) if x.vw == "rowwise" else (1, n)), c, x.t)) for z, c in states)
            continue
        g = grid(x)
        if name == "determinant" and g is not None and g[0] == g[1] and g[0] <= 4:
            out.append((s, det(I, s, {(i, j): x.comps[i + j * g[0]] for i in range(g[0]) for j in range(g[0])}, g[0])))
            continue
        if g is not None and 1 in g and name in ("minCoeff", "maxCoeff") and len(args) == 1 and I.cfg.get("anyorder"):
            for z, v, k in fold_line(I, s, name, [x.comps[i] for i in range(len(x.comps))]):
                dst = M.pval(I, z, args[0])
                if isinstance(dst, Loc):
                    I.store(z, dst, Poly.const(k))
                out.append((z, v))
            continue
        if isinstance(x, EX) and x.full and x.comps and all(isnum(v) for v in x.comps.values()):
            vs = [x.comps[k] for k in sorted(x.comps)]
            if name == "sum":
                r = vs[0]
                for v in vs[1:]:
                    r = r + v
                out.append((s, r))
                continue
            if name in ("minCoeff", "maxCoeff"):
                states = [(s, vs[0])]
                for v in vs[1:]:
                    nx = []
                    for z, cur in states:
                        t, n = I.branch(z, mkcmp("<", v - cur if name == "minCoeff" else cur - v))
                        nx += [(y, v) for y in t] + [(y, cur) for y in n]
                    states = nx
                out.extend(states)
                continue
            if name == "squaredNorm":
                r = ZERO
                for v in vs:
                    r = r + I.mul(s, v, v)
                out.append((s, r))
                continue
        r = P.fresh("int" if name in ("count", "nonZeros") else "real", name)
        if name in NONNEG:
            s.add("<=", -r)
        if name in ("minCoeff", "maxCoeff") and isinstance(x, EX) and x.comps and isnum(x.comps.get("K")):
            s.add("<=", r - x.comps["K"] if name == "minCoeff" else x.comps["K"] - r)
        # index outputs
        out.append((s, r))
    return out


def free(I, st, e, name, args):
    if name in OPS and len(args) == 2:
        op = OPS[name]
        q = e.get("q", "")
        if op == "*" and not scalar_arg(I, st, args[0]) and not scalar_arg(I, st, args[1]):
            return [(w, product(I, w, x, y)) for z, x in get(I, st, args[0]) for w, y in get(I, z, args[1])]
        return binop(I, st, op, args[0], args[1])
    if name in UNARY and args:
        return unary(I, st, args[0], name, args[1:])
    if name in ("Zero", "Ones", "Constant", "Random", "Identity", "LinSpaced", "UnitRandom", "Unit"):
        T = I.p.T(e.get("t", -1))
        iv = [M.ival(I, st, a) for a in args]
        val = {"Zero": ZERO, "Ones": ONE}.get(name)
        if name == "Constant":
            val = iv[-1]
            iv = iv[:-1]
        return [(st, const_expr(I, st, e, iv, rand_unit(I, st) if name == "Random" and "double" in T.get("s", "") else val))]
    if name in ("swap",):
        return [(st, None)]
    return None


def rand_unit(I, st):
    def f():
        r = fresh("real", "rnd")
        st.add("<=", -r - 1)
        st.add("<=", r - 1)
        return r
    return f


def const_expr(I, st, e, iv, val):
    """Zero()/Ones()/Constant(): dimensions from the arguments or the expression type"""
    import re
    T = I.p.T(e.get("t", -1))
    m = re.search(r"Eigen::(?:Array|Matrix)<\w+, (-?\d+), (-?\d+)", T.get("s", ""))
    r, c = (int(m.group(1)), int(m.group(2))) if m else (DYN, DYN)
    one = Poly.const(1)
    if len(iv) == 2:
        rows, cols = iv
    elif len(iv) == 1:
        rows, cols = (one, iv[0]) if r == 1 else (iv[0], one)
    else:
        rows = Poly.const(r) if r > 0 else None
        cols = Poly.const(c) if c > 0 else None
    size = None
    if rows is not None and cols is not None:
        size = rows if cols == one else cols if rows == one else I.mul(st, rows, cols)
    comps, full = None, False
    if callable(val) and size is not None:
        n = cn(size)
        if st.ghost.get("K") is not None and not (n is not None and n <= SMALL):
            comps = {"K": val()}
        elif n is not None and n <= SMALL:
            comps, full = {i: val() for i in range(int(n))}, True
    elif isnum(val) and size is not None:
        n = cn(size)
        lim = max(SMALL, I.cfg.get("small", SMALL)) if I.cfg.get("anyorder") else SMALL
        if st.ghost.get("K") is not None and not (n is not None and n <= lim):
            comps = {"K": val}
        elif n is not None and n <= lim:
            comps, full = {i: val for i in range(int(n))}, True
    return EX(rows, cols, size, comps, full)
