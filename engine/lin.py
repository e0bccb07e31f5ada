"""Linear expressions over integer symbols and the polyhedral constraint store."""
import ctypes
import os
from fractions import Fraction
from math import gcd

_BUILD = os.environ.get("VP_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"))
_lib = ctypes.CDLL(os.path.join(_BUILD, "libpoly.so"))
_lib.vp_feasible.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
_lib.vp_feasible.restype = ctypes.c_int

SYMNAMES = []


def newsym(name):
    SYMNAMES.append(name)
    return len(SYMNAMES) - 1


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def isconst(self):
        return not self.t

    def divisible(self, k):
        return self.c % k == 0 and all(v % k == 0 for _, v in self.t)

    def div(self, k):
        return Lin(self.c // k, tuple((s, v // k) for s, v in self.t))

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        """replace symbols by Lin"""
        r = Lin(self.c)
        for s, k in self.t:
            if s in m:
                r = r + m[s] * k
            else:
                r = r + Lin(0, ((s, k),))
        return r

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = ""
        for s, k in self.t:
            n = SYMNAMES[s] if s < len(SYMNAMES) else "s%d" % s
            if k == 1:
                out += "+" + n
            elif k == -1:
                out += "-" + n
            else:
                out += "%+d*%s" % (k, n)
        if self.c:
            out += "%+d" % self.c
        return out[1:] if out[0] == "+" else out


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def sym(name):
    return Lin(0, ((newsym(name), 1),))


_cache = {}
STATS = {"lp": 0, "lpcache": 0, "syn": 0}


def _norm(lin):
    """normalise lin >= 0 : returns (terms, const) with integer tightening"""
    g = 0
    for _, k in lin.t:
        g = gcd(g, k)
    if g > 1:
        return tuple((s, k // g) for s, k in lin.t), lin.c // g
    return lin.t, lin.c


def _run(cl, integer=0, wantsol=False):
    if _isbig(cl):
        STATS["lp"] += 1
        if integer:
            r, p = _bigrun(cl)
        else:
            ok, p = _bigquery(cl)
            r = int(ok)
        return (r, p) if wantsol else r
    syms = {}
    for t, c in cl:
        for s, _ in t:
            if s not in syms:
                syms[s] = len(syms)
    n = len(syms)
    m = len(cl)
    buf = (ctypes.c_int64 * (m * (n + 1)))()
    i = 0
    for t, c in cl:
        for s, k in t:
            buf[i * (n + 1) + syms[s]] = k
        buf[i * (n + 1) + n] = c
        i += 1
    sol = (ctypes.c_int64 * max(n, 1))() if wantsol else None
    r = _lib.vp_feasible(n, m, buf, sol, integer)
    STATS["lp"] += 1
    if r == 2 and not integer:
        ok, p = _bigquery(cl)
        return (int(ok), p) if wantsol else int(ok)
    if wantsol:
        return r, {s: sol[j] for s, j in syms.items()} if r == 1 else None
    return r


CORES = {}
NEVER = 1 << 300
BIG = 1 << 58


def _isbig(cl):
    for t, c in cl:
        if c > BIG or c < -BIG:
            return True
        for _, k in t:
            if k > BIG or k < -BIG:
                return True
    return False


class _Simplex:
    """exact rational feasibility of rows (terms, const) >= 0 with unbounded integers"""

    def __init__(self, cl):
        syms = {}
        for t, c in cl:
            for s, _ in t:
                if s not in syms:
                    syms[s] = len(syms)
        self.syms = syms
        n, m = len(syms), len(cl)
        self.n, self.m = n, m
        self.T = []
        self.lo = [None] * n
        for t, c in cl:
            r = {}
            for s, k in t:
                r[syms[s]] = Fraction(k)
            self.T.append(r)
            self.lo.append(Fraction(-c))
        self.basic = list(range(n, n + m))
        self.val = [Fraction(0)] * (n + m)
        self.conf = None

    def check(self):
        T, lo, val, basic = self.T, self.lo, self.val, self.basic
        for it in range(4000):
            r = -1
            for i, b in enumerate(basic):
                if lo[b] is not None and val[b] < lo[b] and (r < 0 or b < basic[r]):
                    r = i
            if r < 0:
                return True
            b = basic[r]
            c = None
            for v, a in T[r].items():
                if a > 0 or lo[v] is None or lo[v] < val[v]:
                    if c is None or v < c:
                        c = v
            if c is None:
                self.conf = r
                return False
            theta = (lo[b] - val[b]) / T[r][c]
            clipped = False
            if theta < 0 and lo[c] is not None and val[c] + theta < lo[c]:
                theta = lo[c] - val[c]
                clipped = True
            for i, row in enumerate(T):
                a = row.get(c)
                if a:
                    val[basic[i]] += a * theta
            val[c] += theta
            if clipped:
                continue
            # pivot
            row = T[r]
            p = row.pop(c)
            new = {v: -a / p for v, a in row.items()}
            new[b] = 1 / p
            T[r] = new
            basic[r] = c
            for i in range(len(T)):
                if i == r:
                    continue
                ri = T[i]
                f = ri.pop(c, None)
                if f is None:
                    continue
                for v, a in new.items():
                    x = ri.get(v, 0) + f * a
                    if x:
                        ri[v] = x
                    else:
                        ri.pop(v, None)
        return None


def _bigquery(cl):
    """as _query, with unbounded integers"""
    S = _Simplex(cl)
    r = S.check()
    if r is False:
        rows = [S.basic[S.conf]] + list(S.T[S.conf])
        if any(v < S.n for v in rows):
            return False, None
        return False, [cl[v - S.n] for v in rows]
    if r is None:
        return True, None
    if all(S.val[j].denominator == 1 for j in S.syms.values()):
        return True, {s: int(S.val[j]) for s, j in S.syms.items() if S.val[j]}
    return True, None


def _bigrun(cl, depth=24):
    """an integer point: (1, point), 0 when there is none, 2 when not found"""
    S = _Simplex(cl)
    r = S.check()
    if r is False:
        return 0, None
    if r is None:
        return 2, None
    for s, j in S.syms.items():
        v = S.val[j]
        if v.denominator != 1:
            break
    else:
        return 1, {s: int(S.val[j]) for s, j in S.syms.items()}
    if depth <= 0:
        return 2, None
    fl = v.numerator // v.denominator
    res = 0
    for row in ((((s, -1),), fl), (((s, 1),), -fl - 1)):
        r, p = _bigrun(cl + [row], depth - 1)
        if r == 1:
            return 1, p
        if r == 2:
            res = 2
    return res, None


def _query(cl, start=None):
    """feasibility of a list of (terms, const): (feasible, integral model or None); an
    infeasible answer is remembered through its core"""
    if _isbig(cl):
        STATS["lp"] += 1
        return _bigquery(cl)
    syms = {}
    for t, c in cl:
        for s, _ in t:
            if s not in syms:
                syms[s] = len(syms)
    n = len(syms)
    m = len(cl)
    w = n + 1
    buf = [0] * (m * w)
    o = 0
    for t, c in cl:
        for s, k in t:
            buf[o + syms[s]] = k
        o += w
        buf[o - 1] = c
    arr = (ctypes.c_int64 * (m * w))(*buf)
    sol = (ctypes.c_int64 * max(n, 1))(*([start.get(s, 0) for s in syms] if start and all(-BIG < v < BIG for v in start.values()) else ()))
    integral = ctypes.c_int(0)
    core = (ctypes.c_int * (m + n + 2))()
    nc = ctypes.c_int(-1)
    r = _lib.vp_query(n, m, arr, sol, ctypes.byref(integral), core, ctypes.byref(nc))
    STATS["lp"] += 1
    if r == 2:
        return _bigquery(cl)
    if r == 0:
        return False, ([cl[core[i]] for i in range(nc.value)] if nc.value >= 0 else None)
    if r == 1 and integral.value:
        return True, {s: sol[j] for s, j in syms.items() if sol[j]}
    return True, None


class Cons:
    """conjunction of lin >= 0; dict terms -> smallest constant.  `models` are integer points
    of the concretisation (absent symbols are 0)"""
    __slots__ = ("d", "idx", "bad", "models")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self.idx = None
        self.bad = False
        self.models = () if self.d else ({},)

    def copy(self):
        c = Cons(dict(self.d))
        c.idx = self.idx
        c.bad = self.bad
        c.models = self.models
        return c

    def add(self, lin):
        """assert lin >= 0; returns False if syntactically contradictory"""
        t, c = _norm(lin)
        if not t:
            if c < 0:
                self.bad = True
            return not self.bad
        o = self.d.get(t)
        if o is None or c < o:
            self.d[t] = c
            if o is None:
                self.idx = None
            if self.models:
                self.models = tuple(m for m in self.models if sum([k * m.get(s, 0) for s, k in t]) + c >= 0)
        return True

    def addeq(self, lin):
        self.add(lin)
        self.add(-lin)

    def _index(self):
        if self.idx is None:
            # connected components
            comp = {}
            lists = {}
            for t in self.d:
                tgt = None
                for s, _ in t:
                    r = comp.get(s)
                    if r is None:
                        continue
                    if tgt is None:
                        tgt = r
                    elif r is not tgt:
                        if len(r[0]) > len(tgt[0]):
                            r, tgt = tgt, r
                        tgt[0].extend(r[0])
                        tgt[1].extend(r[1])
                        for x in r[1]:
                            comp[x] = tgt
                if tgt is None:
                    tgt = ([], [])
                tgt[0].append(t)
                for s, _ in t:
                    if s not in comp:
                        comp[s] = tgt
                        tgt[1].append(s)
            self.idx = comp
        return self.idx

    def related(self, syms):
        idx = self._index()
        out = []
        seen = []
        for s in syms:
            r = idx.get(s)
            if r is not None and not any(r is x for x in seen):
                seen.append(r)
                out += r[0]
        return out

    def feasible_with(self, lin):
        """may  (self and lin>=0)  hold?"""
        t, c = _norm(lin)
        if not t:
            return c >= 0
        d = self.d
        for m in self.models:
            if sum([k * m.get(s, 0) for s, k in t]) + c >= 0:
                STATS["syn"] += 1
                return True
        o = d.get(tuple([(s, -k) for s, k in t]))
        if o is not None:
            # -t + o >= 0  => t <= o ; need t >= -c
            if -c > o:
                STATS["syn"] += 1
                return False
        o = d.get(t)
        if o is not None and o <= c:
            STATS["syn"] += 1
            return True  # already implied (store assumed feasible)
        cores = CORES.get(t)
        if cores is not None:
            for i, (cq, rows) in enumerate(cores):
                if c <= cq:
                    for x, xc in rows:
                        if d.get(x, NEVER) > xc:
                            break
                    else:
                        STATS["lpcache"] += 1
                        if i:
                            cores.insert(0, cores.pop(i))
                        return False
        rel = self.related([s for s, _ in t]) if self.models else list(d)
        cl = [(x, d[x]) for x in rel if x is not t and x != t]
        cl.append((t, c))
        ok, ex = _query(cl, self.models[0] if self.models else None)
        if ok:
            if ex is not None:
                if self.models:
                    b = dict(self.models[0])
                    for x in rel:
                        for s, _ in x:
                            b.pop(s, None)
                    b.update(ex)
                    ex = b
                self.models = (ex,) + self.models[:7]
            return True
        if ex is not None:
            q = next((x for x in ex if x[0] is t), None)
            if q is not None:
                rows = tuple(x for x in ex if x[0] is not t)
                cs = CORES.setdefault(t, [])
                cs.insert(0, (c, rows))
                if len(cs) > 24:
                    cs.pop()
        return False

    def entails(self, lin):
        t, c = _norm(lin)
        if not t:
            return c >= 0
        o = self.d.get(t)
        if o is not None and o <= c:
            STATS["syn"] += 1
            return True
        return not self.feasible_with(-lin - 1)

    def entails_eq(self, lin):
        if not lin.t:
            return lin.c == 0
        return self.entails(lin) and self.entails(-lin)

    def witness(self):
        """integer point of the concretisation, or None if not found/empty"""
        if self.bad:
            return None
        cl = list(self.d.items())
        if not cl:
            return {}
        r, sol = _run(cl, 1, True)
        if r == 1:
            return sol
        return None

    def feasible(self):
        if self.bad:
            return False
        cl = list(self.d.items())
        if not cl:
            return True
        if self.models:
            return True
        ok, ex = _query(cl)
        if ok and ex is not None:
            self.models = (ex,)
        return ok

    def join(self, o):
        d = {}
        for t, c in self.d.items():
            oc = o.d.get(t)
            if oc is not None:
                if c < oc and o.entails(Lin(c, t)):
                    d[t] = c
                elif oc < c and self.entails(Lin(oc, t)):
                    d[t] = oc
                else:
                    d[t] = max(c, oc)
            elif o.entails(Lin(c, t)):
                d[t] = c
        for t, c in o.d.items():
            if t not in d:
                sc = self.d.get(t)
                if sc is None and self.entails(Lin(c, t)):
                    d[t] = c
        J = Cons(d)
        if d:
            J.models = (self.models + o.models)[:8]
        return J

    def exact_join(self, o, J):
        """is the join J of self and o exactly their union (so that nothing is lost)?"""
        da = [Lin(c, t) for t, c in self.d.items() if J.d.get(t, c + 1) > c]
        if not da:
            return True
        db = [Lin(c, t) for t, c in o.d.items() if J.d.get(t, c + 1) > c]
        if not db:
            return True
        for a in da:
            na = -a - 1
            if not J.feasible_with(na):
                continue
            K = J.copy()
            K.add(na)
            for b in db:
                if not K.entails(b):
                    return False
        return True

    def __repr__(self):
        return " & ".join("%r>=0" % Lin(c, t) for t, c in self.d.items())
