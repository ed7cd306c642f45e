"""Polynomials over atoms, and the linear (polyhedral) constraint domain used by the abstract
interpreter.  Everything is exact (ints / Fractions); entailment is decided by Gauss elimination
plus Fourier-Motzkin projection on the relevant connected component."""
from fractions import Fraction
from math import gcd, floor


class Atom:
    __slots__ = ("id", "kind", "name", "op", "args")

    def __init__(self, i, kind, name, op=None, args=()):
        self.id = i
        self.kind = kind
        self.name = name
        self.op = op
        self.args = args


ATOMS = []
_APP = {}


def fresh(kind, name):
    a = Atom(len(ATOMS), kind, name)
    ATOMS.append(a)
    return Poly({(a.id,): 1})


def app(op, args, kind="real"):
    """interned uninterpreted application"""
    if op == "fdiv":
        # floor division by a positive integer constant: additive in multiples of it
        a, c = args
        q, r = {}, {}
        for m, k in a.t.items():
            if k // c:
                q[m] = k // c
            if k % c:
                r[m] = k % c
        if not r or (len(r) == 1 and () in r):
            return Poly(q)
        if q:
            return Poly(q) + app(op, (Poly(r), c), kind)
    key = (op, tuple(a.key if isinstance(a, Poly) else a for a in args), kind)
    a = _APP.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, op, op, tuple(args))
        ATOMS.append(a)
        _APP[key] = a
    return Poly({(a.id,): 1})


def _norm(c):
    if type(c) is int:
        return c
    if c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_key", "_hash", "_da")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._da = None
        self._hash = None

    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c} if c != 0 else {})

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v if type(v) is int else _norm(v)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = _norm(v)
        return Poly(r)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def deep_atoms(self):
        s = self._da
        if s is not None:
            return s
        s = set()
        stack = [self]
        while stack:
            p = stack.pop()
            for m in p.t:
                for a in m:
                    if a not in s:
                        s.add(a)
                        stack.extend(x for x in ATOMS[a].args if isinstance(x, Poly))
        self._da = s = frozenset(s)
        return s

    def single(self):
        """atom id if this is exactly one atom with coefficient 1"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def subst(self, mp):
        """mp: atom id -> Poly (simultaneous); also inside applications"""
        if not self.t:
            return self
        da = self.deep_atoms()
        if not any(a in da for a in mp):
            return self
        r = Poly({})
        for m, c in self.t.items():
            p = Poly.const(c)
            for a in m:
                p = p * subst_atom(a, mp)
            r = r + p
        return r

    def isint(self):
        for m, c in self.t.items():
            if type(c) is not int:
                return False
            for a in m:
                if ATOMS[a].kind != "int":
                    return False
        return True

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            n = "*".join(aname(a) for a in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(n)
            elif c == -1:
                out.append("-" + n)
            else:
                out.append("%s*%s" % (c, n))
        return " + ".join(out).replace("+ -", "- ")


def aname(a):
    A = ATOMS[a]
    if A.op:
        return "%s(%s)" % (A.op, ",".join(map(repr, A.args)))
    return "%s#%d" % (A.name, a)


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    A = ATOMS[a]
    if A.args:
        na = tuple(x.subst(mp) if isinstance(x, Poly) else x for x in A.args)
        if any(x is not y for x, y in zip(na, A.args)):
            return app(A.op, na, A.kind)
    return Poly({(a,): 1})


ZERO = Poly({})
ONE = Poly.const(1)
PINF = Poly({(0,): 1})
ATOMS.append(Atom(0, "real", "+inf"))

# ---------------------------------------------------------------- constraints
# a constraint is (kind, Poly), kind in '<=','<','=','!'  meaning  p kind 0


def cnorm(kind, p):
    """normalise; returns True / False / (kind,p)"""
    if p.isconst():
        c = p.cval()
        return {"<=": c <= 0, "<": c < 0, "=": c == 0, "!": c != 0}[kind]
    # scale to integer coprime coefficients
    den = 1
    for c in p.t.values():
        if type(c) is not int:
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = p.scale(den)
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, abs(c))
    isint = p.isint()
    if isint:
        if kind == "<":
            p = p + 1
            kind = "<="
            if p.isconst():
                return cnorm(kind, p)
        if g > 1:
            c0 = p.t.get((), 0)
            if kind == "<=":
                q = {m: c // g for m, c in p.t.items() if m}
                # sum q + c0/g <= 0  -> sum q <= floor(-c0/g)
                cc = -((-c0) // g)
                if cc != 0:
                    q[()] = cc
                p = Poly(q)
            else:
                if c0 % g:
                    return kind == "!"
                p = Poly({m: c // g for m, c in p.t.items()})
    else:
        g = gcd(g, abs(p.t.get((), 0)))
        if g > 1:
            p = Poly({m: c // g for m, c in p.t.items()})
    if kind in "=!":
        # sign canonical
        lead = min(m for m in p.t if m)
        if p.t[lead] < 0:
            p = -p
    return (kind, p)


def negate(kind, p):
    if kind == "<=":
        return ("<", -p)
    if kind == "<":
        return ("<=", -p)
    if kind == "=":
        return ("!", p)
    return ("=", p)


def with_apps(live, cons):
    """live atoms plus the quotients of live quantities"""
    add = set()
    for _, p in cons:
        for m in p.t:
            for a in m:
                if a not in live and ATOMS[a].op in ("fdiv", "inv") and ATOMS[a].args[0].atoms() <= live:
                    add.add(a)
    return live | add if add else live


def component(cons, seeds):
    """constraints connected to the monomials in seeds"""
    byvar = {}
    for c in cons:
        for m in c[1].t:
            if m:
                byvar.setdefault(m, []).append(c)
    seen = set()
    out = set()
    st = list(seeds)
    while st:
        m = st.pop()
        if m in seen:
            continue
        seen.add(m)
        for c in byvar.get(m, ()):
            if c not in out:
                out.add(c)
                st.extend(x for x in c[1].t if x and x not in seen)
    return out


STATS = {"entail": 0}
import ctypes, os
from array import array
_L = None


def _lib():
    global _L
    if _L is None:
        p = os.environ.get("VP_LIN") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "lin.so")
        _L = ctypes.CDLL(p)
        _L.lin_row.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
        _L.lin_entails.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int]
        _L.lin_minimise.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
    return _L


_MON = {}
_ROW = {}
_KN = {"<=": 0, "<": 1, "=": 2}


def mon_id(m):
    i = _MON.get(m)
    if i is None:
        i = _MON[m] = len(_MON)
        _lib().lin_var(i, 1 if all(ATOMS[a].kind == "int" for a in m) else 0)
    return i


_BIG = 1 << 60


def row_id(c):
    """intern a normalised constraint in the kernel; -1 if not representable"""
    r = _ROW.get(c)
    if r is None:
        k, p = c
        vs, cs = array("i"), array("q")
        c0 = 0
        ok = k != "!"
        if ok:
            x = p.t.get((), 0)
            if isinstance(x, int) and abs(x) >= _BIG and (x > 0 or k == "="):
                # a huge constant: keep the weaker bound the kernel can represent
                p = Poly({m: y if x > 0 else -y for m, y in p.t.items() if m})
                p.t[()] = _BIG >> 1
                k = "<=" if k == "=" else k
            for m, x in p.t.items():
                if not isinstance(x, int) or abs(x) >= _BIG:
                    ok = False
                    break
                if m:
                    vs.append(mon_id(m))
                    cs.append(x)
                else:
                    c0 = x
        r = _lib().lin_row(_KN[k], c0, len(vs), vs.buffer_info()[0], cs.buffer_info()[0]) if ok else -1
        _ROW[c] = r
    return r


_SETS = {}


def ids_of(cons):
    a = _SETS.get(cons)
    if a is None:
        a = array("i", [r for r in map(row_id, cons) if r >= 0])
        if len(_SETS) > 50000:
            _SETS.clear()
        _SETS[cons] = a
    return a


_memo = {}


def entails(cons, kind, p):
    """does the conjunction cons entail (p kind 0)?  cons: frozenset of normalised constraints"""
    g = cnorm(kind, p)
    if g is True:
        return True
    if g in cons:
        return True
    if g is False:
        return False
    kind, p = g
    STATS["entail"] += 1
    if kind == "=":
        return entails(cons, "<=", p) and entails(cons, "<=", -p)
    if kind == "!":
        return entails(cons, "<", p) or entails(cons, "<", -p)
    if not cons:
        return False
    key = (cons, g)
    r = _memo.get(key)
    if r is not None:
        return r
    n = cnorm(*negate(kind, p))
    if n is False:
        return True
    if n is True:
        return False
    nid = row_id(n)
    if nid < 0:
        return False
    ids = ids_of(cons)
    r = bool(_lib().lin_entails(len(ids), ids.buffer_info()[0], nid))
    if len(_memo) > 400000:
        _memo.clear()
    _memo[key] = r
    return r


def minimise(cons):
    """drop inequalities implied by the others"""
    if len(cons) < 4:
        return cons
    lst = sorted(cons, key=lambda c: (-len(c[1].t), str(c[0]), c[1].key))
    cand, negs = array("i"), array("i")
    back = {}
    for c in lst:
        r = row_id(c)
        if r < 0:
            continue
        back[r] = c
        if c[0] == "=":
            continue
        n = cnorm(*negate(*c))
        if n in (True, False):
            continue
        cand.append(r)
        negs.append(row_id(n))
    ids = ids_of(cons)
    out = array("i", [0] * len(ids))
    k = _lib().lin_minimise(len(ids), ids.buffer_info()[0], len(cand), cand.buffer_info()[0],
                            negs.buffer_info()[0], out.buffer_info()[0])
    return frozenset([back[r] for r in out[:k]] + [c for c in lst if row_id(c) < 0])


def _dedupe(cs):
    """keep only the strongest constraint per linear part"""
    best = {}
    for k, p in cs:
        c0 = p.t.get((), 0)
        lin = tuple(sorted((m, c) for m, c in p.t.items() if m))
        o = best.get(lin)
        if o is None or c0 > o[0] or (c0 == o[0] and k == "<"):
            best[lin] = (c0, k, p)
    return {(k, p) for c0, k, p in best.values()}


def add_constraint(cons, kind, p):
    """returns new frozenset or None if infeasible"""
    g = cnorm(kind, p)
    if g is True:
        return cons
    if g is False:
        return None
    if g in cons:
        return cons
    kind, p = g
    n = negate(kind, p)
    if entails(cons, n[0], n[1]):
        return None
    if kind == "=":
        nn = cnorm("!", p)
        if nn in cons:
            return None
    if kind == "!":
        if entails(cons, "<=", p):
            return add_constraint(cons, "<", p)
        if entails(cons, "<=", -p):
            return add_constraint(cons, "<", -p)
        return cons | {g}
    if kind == "<=":
        o = cnorm("<=", -p)
        if o in cons:
            return add_constraint(cons - {o}, "=", p)
    out = cons | {g}
    # upgrade disequalities
    if kind in ("<=", "="):
        for c in cons:
            if c[0] == "!" and (set(c[1].t) & set(p.t)):
                q = c[1]
                if entails(out, "<=", q):
                    r = cnorm("<", q)
                elif entails(out, "<=", -q):
                    r = cnorm("<", -q)
                else:
                    continue
                if r is False:
                    return None
                if r is not True:
                    out = (out - {c}) | {r}
        if out is not cons and kind == "=":
            pass
    return out


def project(cons, keep):
    """drop atoms not in keep (set of atom ids); deep atoms inside applications count."""
    good, bad = set(), []
    for c in cons:
        if all(a in keep for m in c[1].t for a in m):
            good.add(c)
        else:
            bad.append(c)
    if not bad:
        return cons
    # monomials to eliminate
    def isbad(m):
        return any(a not in keep for a in m)

    eqs = [p for k, p in bad if k == "="]
    ineq = {(k, p) for k, p in bad if k in ("<=", "<")}
    # substitute equalities
    while eqs:
        e = eqs.pop()
        piv = None
        for m in e.t:
            if m and isbad(m) and (piv is None or abs(e.t[m]) == 1):
                piv = m
        if piv is None:
            r = cnorm("=", e)
            if r not in (True, False):
                good.add(r)
            continue
        c = e.t[piv]
        rest = Poly({m: v for m, v in e.t.items() if m != piv})

        def sub(p):
            k = p.t.get(piv)
            if k is None:
                return p
            q = Poly({m: v for m, v in p.t.items() if m != piv})
            return q + rest.scale(Fraction(-k) / c)

        neqs = []
        for p in eqs:
            r = cnorm("=", sub(p))
            if r not in (True, False):
                neqs.append(r[1])
        eqs = neqs
        nin = set()
        for k, p in ineq:
            r = cnorm(k, sub(p))
            if r not in (True, False):
                nin.add(r)
        ineq = nin
    work = _dedupe(ineq)
    while True:
        cnt = {}
        for k, p in work:
            for m, c in p.t.items():
                if m and isbad(m):
                    a = cnt.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
        if not cnt:
            break
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos, neg, rest = [], [], set()
        for k, p in work:
            c = p.t.get(m)
            if c is None:
                rest.add((k, p))
            elif c > 0:
                pos.append((k, p, c))
            else:
                neg.append((k, p, -c))
        if len(pos) * len(neg) + len(rest) > 200:
            work = _dedupe(rest)
            continue
        for k1, p1, c1 in pos:
            for k2, p2, c2 in neg:
                r = cnorm("<" if "<" in (k1, k2) else "<=", p1.scale(c2) + p2.scale(c1))
                if r not in (True, False):
                    rest.add(r)
        work = _dedupe(rest)
    return frozenset(good | set(work))


def affine_hull(rowsets, coords):
    """rowsets: list of (point, dirs): point = list of Fractions (len coords+0), dirs list of
    vectors.  Returns list of equations (coef list, const) valid on the hull of all flats."""
    n = len(coords)
    p0 = rowsets[0][0]
    span = []
    for pt, dirs in rowsets:
        span.extend(dirs)
        span.append([a - b for a, b in zip(pt, p0)])
    # row-reduce span
    basis = []
    for v in span:
        v = [Fraction(x) for x in v]
        for piv, b in basis:
            if v[piv] != 0:
                f = v[piv]
                v = [x - f * y for x, y in zip(v, b)]
        piv = next((i for i, x in enumerate(v) if x != 0), None)
        if piv is None:
            continue
        f = v[piv]
        v = [x / f for x in v]
        nb = []
        for q, b in basis:
            if b[piv] != 0:
                f = b[piv]
                b = [x - f * y for x, y in zip(b, v)]
            nb.append((q, b))
        nb.append((piv, v))
        basis = nb
    pivs = {q: b for q, b in basis}
    eqs = []
    # nullspace of basis rows: for each free coordinate f: a_f=1, a_piv = -b[f]
    for f in range(n):
        if f in pivs:
            continue
        a = [Fraction(0)] * n
        a[f] = Fraction(1)
        for q, b in pivs.items():
            a[q] = -b[f]
        c = -sum(x * y for x, y in zip(a, p0))
        eqs.append((a, c))
    return eqs


# ---- comparison of terms at sample points
def _feval(op, xs):
    import math
    if op == "inv":
        return 1.0 / xs[0]
    if op == "abs":
        return abs(xs[0])
    if op == "round":
        return math.floor(abs(xs[0]) + 0.5) * (1 if xs[0] >= 0 else -1)
    if op == "trunc":
        return float(math.trunc(xs[0]))
    if op == "sign":
        return (xs[0] > 0) - (xs[0] < 0)
    if op == "cbrt":
        return math.copysign(abs(xs[0]) ** (1 / 3), xs[0])
    if op == "exp2":
        return 2.0 ** xs[0]
    if op in ("floor", "ceil", "sin", "cos", "tan", "exp", "sqrt", "log", "log10", "log2", "asin", "acos", "atan", "atan2", "hypot", "pow"):
        return float(getattr(math, op)(*xs))
    if op == "fdiv":
        return math.floor(xs[0] / xs[1])
    if op == "idiv":
        return math.trunc(xs[0] / xs[1])
    raise KeyError(op)


def value(p, env):
    """value of a term when its free symbols have the values in env"""
    r = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a in m:
            x = env.get(a)
            if x is None:
                A = ATOMS[a]
                if A.op is None:
                    raise KeyError(A.name)
                x = env[a] = _feval(A.op, [value(y, env) if isinstance(y, Poly) else y for y in A.args])
            v *= x
        r += v
    return r


def rounded(p, memo=None):
    """the term with every constant rounded to 13 significant digits (terms equal up to the rounding of constants)"""
    memo = {} if memo is None else memo

    def rc(c):
        return Fraction("%.12e" % float(c)) if abs(c) < 10 ** 300 else c
    r = Poly({})
    for m, c in p.t.items():
        q = Poly.const(rc(c))
        for a in m:
            if a not in memo:
                A = ATOMS[a]
                memo[a] = Poly({(a,): 1}) if A.op is None or A.op == "fdiv" else app(A.op, tuple(
                    rounded(y, memo) if isinstance(y, Poly) else y for y in A.args), A.kind)
            q = q * memo[a]
        r = r + q
    return r


def same(a, b):
    a, b = rounded(a), rounded(b)
    return all(abs(a.t.get(m, 0) - c) <= Fraction(1, 10 ** 11) * abs(c) for m, c in b.t.items()) and set(a.t) <= set(b.t)


class TooBig(Exception):
    pass


def _times(a, b):
    if len(a.t) * len(b.t) > 60000:
        raise TooBig()
    return a * b


def ratio(p, memo):
    """(numerator, {denominator factor: exponent}) without reciprocals"""
    parts = []
    for m, c in p.t.items():
        num, den = Poly({(): c}), {}
        rest = []
        for x in m:
            A = ATOMS[x]
            if A.op != "inv":
                rest.append(x)
                continue
            if x not in memo:
                memo[x] = ratio(A.args[0], memo)
            n, d = memo[x]      # 1 / (n / d) = d / n
            for q, k in d.items():
                for _ in range(k):
                    num = _times(num, q)
            if n.isconst():
                num = num.scale(Fraction(1) / n.cval())
            else:
                den[n] = den.get(n, 0) + 1
        if rest:
            num = _times(num, Poly({tuple(rest): 1}))
        parts.append((num, den))
    top = {}
    for _, d in parts:
        for q, k in d.items():
            top[q] = max(top.get(q, 0), k)
    r = ZERO
    for n, d in parts:
        for q, k in top.items():
            for _ in range(k - d.get(q, 0)):
                n = _times(n, q)
        r = r + n
        if len(r.t) > 20000:
            raise TooBig()
    return r, top


def same_ratio(a, b):
    """the same quotient of polynomials wherever every denominator differs from zero"""
    try:
        n, _ = ratio(a - b, {})
    except TooBig:
        return False
    return not n.t


def leaves(p, seen, out):
    for m in p.t:
        for a in m:
            if a in seen:
                continue
            seen.add(a)
            A = ATOMS[a]
            if A.op is None:
                out.add(a)
            for y in A.args:
                if isinstance(y, Poly):
                    leaves(y, seen, out)


def differ(a, b, cons):
    """("fail", witness) when the terms differ at points that satisfy cons, else ("maybe", None)"""
    import random
    rnd = random.Random(7)
    seen, ls = set(), set()
    for p in (a, b):
        leaves(p, seen, ls)
    rel = [(k, p) for k, p in cons if any(x in seen for x in p.atoms())]
    more = set(seen)
    for _, p in rel:
        leaves(p, more, ls)
    ls = sorted(ls)
    if any(ATOMS[x].name not in ("any", "n", "i", "draw") for x in ls):
        return "maybe", None
    pins = {}
    for k, p in rel:      # symbols with a known value
        if k == "=" and len(p.atoms()) == 1 and all(len(m) <= 1 for m in p.t):
            x = next(iter(p.atoms()))
            pins[x] = float(Fraction(-p.cval()) / p.t[(x,)])
    comps = _orders(rel, set(ls))
    hits = tried = 0
    wit = None
    for i in range(6000):
        sc = (1.0, 0.5, 3.0, 10.0, 100.0)[i % 5]
        env = {}
        for x in ls:
            v = rnd.uniform(-sc, sc) if i % 2 else rnd.uniform(0, sc)
            env[x] = pins.get(x, float(round(v)) if ATOMS[x].kind == "int" else v)
        for xs, below in comps:
            _arrange(env, xs, below, rnd)
        try:
            if not all(_holds(k, value(p, env)) for k, p in rel):
                continue
            x, y = value(a, env), value(b, env)
        except (KeyError, TypeError):
            return "maybe", None
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        if x != x or y != y or abs(x) > 1e12 or abs(y) > 1e12:
            continue
        tried += 1
        if abs(x - y) > 1e-5 * (1e-3 + abs(x) + abs(y)):
            hits += 1
            wit = "%.6g instead of %.6g at %s" % (x, y, ", ".join("%s=%.4g" % (ATOMS[q].name, env[q]) for q in ls[:6]))
        if tried >= 40 or hits >= 3:
            break
    return ("fail", wit) if hits >= 3 else ("maybe", None)


SAMPLED = ("any", "n", "i", "draw", "u01")


def nonlinear(p):
    return any(len(m) > 1 or m and ATOMS[m[0]].op is not None for m in p.t)


def witness(new, cons):
    """do the constraints have a solution? True when a sample satisfies them, False when none was found, None when the
    constraints are linear (the engine decides those itself) or speak of symbols that cannot be sampled"""
    import random
    if not any(nonlinear(p) for _, p in (new or cons)):
        return None
    seen, ls = set(), set()
    for _, p in (new or [x for x in cons if nonlinear(x[1])]):
        leaves(p, seen, ls)
    left = set(cons)
    rel = []
    while True:
        hit = [x for x in left if not _leafset(x[1]).isdisjoint(ls)]
        if not hit:
            break
        for x in hit:
            leaves(x[1], seen, ls)
            left.discard(x)
        rel += hit
    ls = sorted(ls)
    if any(ATOMS[x].name not in SAMPLED for x in ls):
        return None
    rnd = random.Random(11)
    solved = {}
    for k, p in sorted((x for x in rel if x[0] == "="), key=repr):
        for m in sorted(p.t):
            if len(m) == 1 and m[0] in ls and m[0] not in solved and ATOMS[m[0]].op is None \
                    and not any(m[0] in _leafset(Poly({n: 1})) for n in p.t if n != m) and not any(m[0] in _leafset(q) for q in solved.values()):
                solved[m[0]] = (p - Poly({m: p.t[m]})).scale(Fraction(-1) / p.t[m])
                break
    comps = _orders(rel, set(ls) - set(solved))
    for i in range(8000):
        sc = (1.0, 0.5, 3.0, 10.0, 100.0)[i % 5]
        env = {}
        for x in ls:
            if ATOMS[x].name == "u01":
                env[x] = rnd.random()
            else:
                v = rnd.uniform(-sc, sc) if i % 2 else rnd.uniform(0, sc)
                env[x] = float(round(v)) if ATOMS[x].kind == "int" else v
        for xs, below in comps:
            _arrange(env, xs, below, rnd)
        try:
            for x in reversed(list(solved)):
                env[x] = value(solved[x], dict(env))
            if all(_clear(k, p, env) if nonlinear(p) and k in ("<", "<=") else _holds(k, value(p, env)) for k, p in rel):
                return True
        except (KeyError, TypeError):
            return None
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
    return False


_DOUBT = {}


def lost_doubt(cons, left):
    """does dropping cons down to left hide a condition beyond the kernel, or a nonlinear one no sample satisfies?"""
    gone = [c for c in cons - left if c[0] != "!"]
    if any(row_id(c) < 0 for c in gone):
        return True
    gone = frozenset(c for c in gone if nonlinear(c[1]))
    if not gone:
        return False
    r = _DOUBT.get((cons, gone))
    if r is None:
        r = _DOUBT[(cons, gone)] = witness(gone, cons) is False
    return r


def _clear(k, p, env):
    """the constraint holds by more than rounding can account for"""
    v = value(p, env)
    if k == "<=" and v == 0 and p.isint() and not _onedge(p, env):
        return True
    if not v < 0:
        return False
    return v < -1e-6 * sum(abs(value(Poly({m: c}), env)) for m, c in p.t.items())


def _onedge(p, env):
    """does a step function in the term sit where it steps, so that rounding decides its value?"""
    for m in p.t:
        for a in m:
            at = ATOMS[a]
            if at.op in ("trunc", "floor", "ceil", "round", "fdiv", "idiv"):
                xs = [value(x, env) for x in at.args]
                x = 2 * (xs[0] / xs[1] if len(xs) > 1 else xs[0])
                if abs(x - round(x)) < 1e-6 * max(1.0, abs(x)):
                    return True
            if any(isinstance(x, Poly) and _onedge(x, env) for x in at.args or ()):
                return True
    return False


_LEAFSET = {}


def _leafset(p):
    r = _LEAFSET.get(p)
    if r is None:
        r = set()
        leaves(p, set(), r)
        if len(_LEAFSET) > 50000:
            _LEAFSET.clear()
        _LEAFSET[p] = r
    return r


def _arrange(env, xs, below, rnd):
    vals = sorted(env[x] for x in xs)
    left = dict((x, set(below[x])) for x in xs)
    for v in vals:
        x = rnd.choice(sorted(y for y in left if not left[y]) or [min(left)])
        env[x] = v
        del left[x]
        for y in left:
            left[y].discard(x)


def _orders(rel, ls):
    """symbols known only by their order: [(connected symbols, those known to be smaller than each)]"""
    below = {}
    for k, p in rel:
        if k in ("<", "<=") and len(p.t) == 2 and all(len(m) == 1 for m in p.t):
            (a,), (b,) = p.t
            if p.t[(a,)] == -p.t[(b,)] and a in ls and b in ls and ATOMS[a].kind == ATOMS[b].kind:
                lo, hi = (a, b) if p.t[(a,)] > 0 else (b, a)
                below.setdefault(hi, set()).add(lo)
                below.setdefault(lo, set())
    out, seen = [], set()
    for x in sorted(below):
        if x in seen:
            continue
        comp, work = set(), [x]
        while work:
            y = work.pop()
            if y not in comp:
                comp.add(y)
                work += below[y]
                work += [z for z in below if y in below[z]]
        seen |= comp
        out.append((sorted(comp), below))
    return out


def _holds(k, v):
    return v <= 1e-12 if k == "<=" else v < 0 if k == "<" else abs(v) < 1e-9 if k == "=" else v != 0
