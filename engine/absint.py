"""Abstract interpreter over normalised LLVM IR (see irdump).

Abstract state = polyhedral constraints over integer symbols x segmented array
heap x SSA environment.  Nothing is executed: branches are split only when the
numeric domain cannot decide them, states are joined at control-flow merges and
loops are summarised by invariants inferred from linear templates.
"""
import heapq
import json
from lin import Lin, L, Cons, SYMNAMES, newsym, STATS

UNDEF = ("undef",)


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off=Lin(0)):
        self.base = base
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return "&%r+%r" % (self.base, self.off)


NULL = Ptr(None, Lin(0))


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "Agg%r" % (self.v,)


class NeedSplit(Exception):
    """alts: list of lists of Lin (each list a conjunction of lin>=0)"""

    def __init__(self, alts, seg=None):
        self.alts = alts
        self.seg = seg    # boundary condition of an array segment, when that caused the split


class PathEnd(Exception):
    pass


class Undecided(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


def split_ge(l):
    return NeedSplit([[l], [-l - 1]])


def split_eq(l):
    return NeedSplit([[l, -l], [l - 1], [-l - 1]])


_symcache = {}


def nsym(name):
    """symbol interned by name (names are per-state deterministic)"""
    r = _symcache.get(name)
    if r is None:
        r = Lin(0, ((newsym(name), 1),))
        _symcache[name] = r
    return r


# standard exceptions and what they derive from
BASES = {"_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
         "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
         "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
         "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
         "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
         "_ZTISt12system_error": "_ZTISt13runtime_error"}


def catches(clause, t):
    """does a handler of the type clause catch an exception of type t?"""
    while t is not None:
        if t == clause:
            return True
        t = BASES.get(t)
    return False


class Obj:
    __slots__ = ("kind", "name", "size", "align", "fields", "regions", "arr", "freed", "meta", "redir", "init")

    def __init__(self, kind, name, size=None, align=1, regions=(), init=None, meta=None):
        self.kind = kind
        self.name = name
        self.size = size
        self.align = align
        self.fields = {}
        self.regions = regions
        self.arr = {}
        self.freed = False
        self.meta = meta
        self.redir = {}
        self.init = init  # lazy-initialisation tag for the world

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.name = self.name
        o.size = self.size
        o.align = self.align
        o.fields = dict(self.fields)
        o.regions = self.regions
        o.arr = dict(self.arr)
        o.freed = self.freed
        o.meta = self.meta
        o.redir = self.redir
        o.init = self.init
        return o


class State:
    __slots__ = ("cons", "mem", "ms", "ev", "trace")

    def __init__(self):
        self.cons = Cons()
        self.mem = {}
        self.ms = {"ctr": 0}
        self.ev = ()
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.cons = self.cons.copy()
        s.mem = dict(self.mem)
        s.ms = dict(self.ms)
        s.ev = self.ev
        s.trace = self.trace
        return s

    def fresh(self, p):
        self.ms["ctr"] += 1
        return nsym("%s#%d" % (p, self.ms["ctr"]))

    def newoid(self):
        self.ms["ctr"] += 1
        return self.ms["ctr"]

    def w(self, oid):
        o = self.mem[oid].copy()
        self.mem[oid] = o
        return o

    def assume(self, lins):
        for l in lins:
            if not self.cons.feasible_with(l):
                return False
            self.cons.add(l)
        return not self.cons.bad


# ---------------------------------------------------------------- conditions
def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "not":
        return c[1]
    if c[0] == "ge":
        return ("ge", -c[1] - 1)
    if c[0] == "eq":
        return ("ne", c[1])
    if c[0] == "ne":
        return ("eq", c[1])
    return ("not", c)


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)


CONDS = ("ge", "eq", "ne", "not", "and", "or", "lz")


def haslz(c):
    """does the condition involve a comparison that is only evaluated when its outcome matters"""
    if not isinstance(c, tuple):
        return False
    if c[0] in ("and", "or"):
        return haslz(c[1]) or haslz(c[2])
    if c[0] == "not":
        return haslz(c[1])
    return c[0] == "lz"


def iscond(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in CONDS)


# ------------------------------------------------------------------ program
class Fn:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.args = d["args"]
        self.decl = "decl" in d
        self.ret = d["ret"]
        if self.decl:
            return
        self.blocks = d["blocks"]
        self.loops = {}
        for lp in d["loops"]:
            self.loops[lp["header"]] = set(lp["blocks"])
        self._succ()
        self._rpo()
        self._live()

    def _succ(self):
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            if t["op"] in ("br", "invoke"):
                s = list(t["succ"])
            elif t["op"] == "switch":
                s = [t["def"]] + [c[1] for c in t["cases"]]
            else:
                s = []
            self.succ.append(s)

    def _rpo(self):
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}

    def _uses(self, ins):
        def ops(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "v" and isinstance(x[1], int):
                    yield x[1]
                else:
                    for y in x:
                        if isinstance(y, list):
                            yield from ops(y)
        for k in ("a", "base", "vars", "callee"):
            if k in ins:
                yield from ops(ins[k])

    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]  # succ block -> pred -> set
        for i, b in enumerate(self.blocks):
            for ins in b:
                if ins["op"] == "phi":
                    for p, v in ins["in"]:
                        if v[0] == "v":
                            phiuse[i].setdefault(p, set()).add(v[1])
                else:
                    for u in self._uses(ins):
                        if u not in de[i]:
                            use[i].add(u)
                if "id" in ins:
                    de[i].add(ins["id"])
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[i]:
                    out |= livein[s]
                    out |= phiuse[s].get(i, set())
                li = use[i] | (out - de[i])
                if li != livein[i]:
                    livein[i] = li
                    ch = True
        # phi defs are in de, so livein excludes own phis; keep live after phis
        self.livein = livein
        self.live_after_phi = []
        for i, b in enumerate(self.blocks):
            ph = set(ins["id"] for ins in b if ins["op"] == "phi")
            self.live_after_phi.append(livein[i] | ph)


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.fns = {x["name"]: Fn(x) for x in d["functions"]}
        self.globals = {g["name"]: g for g in d["globals"]}
        self.di = d["di"]
        self.byid = {t["id"]: t for t in self.di if t["id"]}


def locstr(ins):
    loc = ins.get("loc") or []
    parts = []
    for f, ln, fi in loc:
        if ln and "/repo/" in fi:
            parts.append("%s:%d(%s)" % (fi.split("/repo/")[-1], ln, f.split("<")[0]))
    return " < ".join(parts[:4]) if parts else (
        "%s:%d" % (loc[0][2].split("/")[-1], loc[0][1]) if loc else "?")


# --------------------------------------------------------------- interpreter
class Interp:
    MAXITEMS = 6000

    def __init__(self, prog, world):
        self.P = prog
        self.W = world
        self.viols = []      # dicts
        self.undec = []
        self.quiet = 0
        self.stats = {"instr": 0, "splits": 0, "merges": 0, "loops": 0, "unrolled": 0, "paths": 0, "calls": 0,
                      "memops": 0, "invariants": 0}
        self.addr = {}
        self.addrinv = {}
        self.covered = set()
        self.curins = None
        self.depth = 0
        self.harv = None      # guards seen while a loop body is probed
        self.noloop = False   # follow loops iteration by iteration instead of summarising them
        self.segrec = None    # segment boundaries crossed while a loop body is probed
        world.I = self

    # --- reporting
    def report(self, cat, msg, st, ins=None):
        if self.quiet:
            return
        ins = ins or self.curins
        loc = locstr(ins) if ins else "?"
        key = (cat, msg, loc)
        for v in self.viols:
            if v["key"] == key:
                v["n"] += 1
                return
        w = st.cons.witness()
        if w is None:
            if st.cons.feasible():
                self.undecide("%s: %s at %s (no integer witness found)" % (cat, msg, loc))
            return
        wit = {SYMNAMES[s]: int(v) for s, v in sorted(w.items())}
        self.viols.append({"key": key, "cat": cat, "msg": msg, "loc": loc, "witness": wit, "wsyms": dict(w), "cons": st.cons,
                           "path": list(st.trace)[-60:], "n": 1, "entry": getattr(self, "entry", "")})

    def undecide(self, msg):
        if self.quiet:
            return
        if msg not in self.undec:
            self.undec.append(msg)

    # --- decisions
    def decide(self, st, c):
        r = self.tri(st, c)
        if r is None:
            self.needsplit(st, c)
        return r

    def tri(self, st, c):
        if c is True or c is False:
            return c
        k = c[0]
        if self.harv is not None and k in ("ge", "eq", "ne"):
            self.harv[c[1]] = 1
        if k == "ge":
            l = c[1]
            if not l.t:
                return l.c >= 0
            if st.cons.entails(l):
                return True
            if not st.cons.feasible_with(l):
                return False
            return None
        if k in ("eq", "ne"):
            l = c[1]
            if not l.t:
                r = l.c == 0
            else:
                a = st.cons.entails(l)
                b = st.cons.entails(-l)
                if a and b:
                    r = True
                elif (a and not st.cons.feasible_with(-l)) or (b and not st.cons.feasible_with(l)):
                    r = False
                elif not st.cons.feasible_with(l) or not st.cons.feasible_with(-l):
                    r = False
                else:
                    return None
            return r if k == "eq" else not r
        if k == "not":
            r = self.tri(st, c[1])
            return None if r is None else not r
        if k == "and":
            x, y = (c[2], c[1]) if haslz(c[1]) else (c[1], c[2])
            a = self.tri(st, x)
            if a is False:
                return False
            if a is None and haslz(y):
                return None          # only relevant where the other operand is true
            b = self.tri(st, y)
            if b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if k == "or":
            x, y = (c[2], c[1]) if haslz(c[1]) else (c[1], c[2])
            a = self.tri(st, x)
            if a is True:
                return True
            if a is None and haslz(y):
                return None
            b = self.tri(st, y)
            if b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if k == "lz":
            return self.W.lazycond(st, c)
        raise Undecided("condition %r" % (c,))

    def needsplit(self, st, c):
        k = c[0]
        if k == "ge":
            raise split_ge(c[1])
        if k in ("eq", "ne"):
            raise split_eq(c[1])
        if k == "not":
            return self.needsplit(st, c[1])
        if k in ("and", "or"):
            for x in sorted((c[1], c[2]), key=haslz):
                if self.tri(st, x) is None:
                    return self.needsplit(st, x)
        raise Undecided("cannot split %r" % (c,))

    def ent(self, st, l):
        return st.cons.entails(l)

    def eqv(self, st, a, b):
        """semantic equality of two abstract values, decided without splitting; True or not-known"""
        if a is b or a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return st.cons.entails_eq(a - b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base or (isinstance(a.base, tuple) and isinstance(b.base, tuple) and
                                    self.eqv(st, a.base, b.base)):
                return st.cons.entails_eq(a.off - b.off)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eqv(st, x, y) for x, y in zip(a, b))
        if isinstance(a, Agg) and isinstance(b, Agg):
            return self.eqv(st, a.v, b.v)
        if iscond(a) and isinstance(b, Lin) and b.isconst():
            t = self.tri(st, a)
            return t is not None and int(t) == b.c
        if iscond(b) and isinstance(a, Lin) and a.isconst():
            return self.eqv(st, b, a)
        if iscond(a) and iscond(b):
            ta = self.tri(st, a)
            tb = self.tri(st, b)
            return ta is not None and ta == tb
        return False

    # --- pointers / addresses
    def addrsym(self, base):
        s = self.addr.get(base)
        if s is None:
            s = nsym("&%r" % (base,))
            self.addr[base] = s
            self.addrinv[s.t[0][0]] = base
        return s

    def ptr2int(self, st, p):
        if p.base is None:
            return p.off
        return self.addrsym(p.base) + p.off

    def int2ptr(self, l):
        c = [(s, k) for s, k in l.t if s in self.addrinv and k == 1]
        if len(c) == 1:
            s = c[0][0]
            return Ptr(self.addrinv[s], l - Lin(0, ((s, 1),)))
        if l.isconst() and 0 <= l.c < 4096:
            return Ptr(None, l)       # an offset from null: any access through it is reported
        raise Undecided("integer %r used as pointer" % l)

    # --- operands
    def val(self, st, env, o):
        k = o[0]
        if k == "v":
            return env[o[1]]
        if k == "c":
            w, v = o[1], int(o[2])
            if w == 1:
                return bool(v)
            if w > 64 or (w == 64 and v >= 1 << 63):
                # keep as signed for 64-bit constants
                v = v - (1 << w) if v >= 1 << (w - 1) else v
            return Lin(v)
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "fn":
            return Ptr("fn:" + o[1], Lin(0))
        if k == "g":
            return Ptr("g:" + o[1], Lin(o[2]))
        if k == "zero":
            return self.W.zero(o[1])
        if k == "cf":
            return ("fconst", o[1], o[2])
        if k == "agg":
            return self.W.constagg(o)
        if k == "ce":
            if o[1] == "ptrtoint":
                return self.ptr2int(st, self.val(st, env, o[2][0]))
            if o[1] in ("bitcast", "addrspacecast"):
                return self.val(st, env, o[2][0])
            if o[1] == "inttoptr":
                return self.int2ptr(self.val(st, env, o[2][0]))
        raise Undecided("operand %r" % (o,))

    # --- object resolution
    def resolve(self, st, p, what):
        """Ptr -> (oid, off)"""
        if not isinstance(p, Ptr):
            if p is UNDEF or p == UNDEF:
                self.report("uninit", "%s through an uninitialised pointer" % what, st)
                raise PathEnd()
            raise Undecided("%s through non-pointer %r" % (what, p))
        b = p.base
        if b is None:
            self.report("null", "%s through a null pointer" % what, st)
            raise PathEnd()
        if isinstance(b, tuple):
            b = self.W.resolve(st, b)
            if b is None:
                self.report("null", "%s through a null pointer" % what, st)
                raise PathEnd()
        if isinstance(b, str):
            if b not in st.mem:
                self.W.globalobj(st, b)
        o = st.mem.get(b)
        if o is None:
            self.report("uaf", "%s of a dead object" % what, st)
            raise PathEnd()
        if o.freed:
            self.report("uaf", "%s after free of %s" % (what, o.name), st)
            raise PathEnd()
        return b, p.off

    def region(self, st, o, off, size, what):
        """find (region, idx) for offset, or None when it is a scalar field"""
        if not o.regions:
            return None
        if off.isconst():
            for r in o.regions:
                if r[0] <= off.c < r[0] + r[1] * r[2]:
                    idx = off - r[0]
                    if not idx.divisible(r[1]):
                        if r[1] > size:
                            raise Undecided("partial element access")
                        raise Undecided("misaligned element access")
                    return r, idx.div(r[1])
            return None
        cand = []
        for r in o.regions:
            lo = off - r[0]
            if st.cons.feasible_with(lo) and st.cons.feasible_with(Lin(r[0] + r[1] * r[2]) - size - off):
                cand.append(r)
        best = None
        for r in cand:
            if st.cons.entails(off - r[0]) and st.cons.entails(Lin(r[0] + r[1] * r[2]) - size - off):
                best = r
        if best is None:
            # possibly out of every region
            for r in cand:
                lo = off - r[0]
                hi = Lin(r[0] + r[1] * r[2]) - size - off
                # which side may fail?
                for l in (lo, hi):
                    if not st.cons.entails(l):
                        raise split_ge(l)
            self.report("oob", "%s outside the bounds of %s" % (what, o.name), st)
            raise PathEnd()
        idx = off - best[0]
        if not idx.divisible(best[1]):
            raise Undecided("element offset %r not divisible by %d" % (idx, best[1]))
        return best, idx.div(best[1])

    # --- segments
    def seg_find(self, st, segs, idx):
        for i, (lo, hi, c) in enumerate(segs):
            # idx >= lo known from previous steps; test idx < hi
            d = hi - idx - 1
            if st.cons.entails(d):
                return i
            if st.cons.feasible_with(d):
                raise NeedSplit([[d], [-d - 1]], d)
        raise Undecided("index %r beyond segments" % idx)

    def seg_elem(self, c, idx):
        if c[0] == "src":
            return ("el", c[1], idx + c[2])
        if c[0] == "val":
            return c[1]
        return UNDEF

    def seg_content(self, st, v, idx):
        if isinstance(v, tuple) and v and v[0] == "el":
            return ("src", v[1], v[2] - idx)
        if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == "el" and v.off == Lin(0):
            return ("src", v.base[1], v.base[2] - idx)
        if v == UNDEF:
            return ("undef",)
        return ("val", v)

    def seg_read(self, st, segs, idx):
        i = self.seg_find(st, segs, idx)
        return self.seg_elem(segs[i][2], idx)

    def seg_write(self, st, segs, idx, v):
        i = self.seg_find(st, segs, idx)
        lo, hi, c = segs[i]
        out = list(segs[:i])
        if not st.cons.entails(lo - idx):
            out.append((lo, idx, c))
        out.append((idx, idx + 1, self.seg_content(st, v, idx)))
        if not st.cons.entails(idx + 1 - hi):
            out.append((idx + 1, hi, c))
        out += segs[i + 1:]
        return tuple(out)

    def seg_slice(self, st, segs, a, b, loose=False):
        """segments of [a,b) ; splits when orders are unknown (loose: a segment that may be
        empty is kept rather than deciding whether it is)"""
        out = []
        for lo, hi, c in segs:
            # skip if hi <= a
            t = self.tri(st, ("ge", a - hi))
            if t is None and loose and st.cons.entails(hi - a):
                t = False
            if t is None:
                # if lo<=a anyway and ... need order of a and hi
                raise split_ge(a - hi)
            if t:
                continue
            t = self.tri(st, ("ge", lo - b))
            if t is None and loose and st.cons.entails(b - lo):
                t = False
            if t is None:
                raise split_ge(lo - b)
            if t:
                break
            if st.cons.entails(lo - a):
                l2 = lo
            elif st.cons.entails(a - lo):
                l2 = a
            else:
                raise split_ge(lo - a)
            if st.cons.entails(b - hi):
                h2 = hi
            elif st.cons.entails(hi - b):
                h2 = b
            else:
                raise split_ge(b - hi)
            out.append((l2, h2, c))
        return out

    def seg_shift(self, segs, d):
        out = []
        for lo, hi, c in segs:
            if c[0] == "src":
                c = ("src", c[1], c[2] - d)
            out.append((lo + d, hi + d, c))
        return out

    def seg_replace(self, st, segs, a, b, new):
        """replace [a,b) by new segments (covering it)"""
        cap = segs[-1][1]
        left = self.seg_slice(st, segs, segs[0][0], a, True)
        right = self.seg_slice(st, segs, b, cap, True)
        return self.seg_norm(st, left + new + right)

    def seg_norm(self, st, segs):
        out = []
        for s in segs:
            if s[0] == s[1]:
                continue
            if out and out[-1][1] == s[0]:
                p = out[-1]
                if p[2] == s[2] or (p[2][0] == s[2][0] and self.eqv(st, p[2], s[2]) and p[2][0] != "val"):
                    out[-1] = (p[0], s[1], p[2])
                    continue
            out.append(s)
        return tuple(out) if out else tuple(segs[:1])

    def segs_equal(self, st, A, B, lo=None, hi=None):
        """do A and B describe the same contents (on the common range)? no splitting"""
        i = j = 0
        A = list(A)
        B = list(B)
        if not A or not B:
            return A == B
        pos = A[0][0]
        if not st.cons.entails_eq(pos - B[0][0]):
            return False
        end = A[-1][1]
        if not st.cons.entails_eq(end - B[-1][1]):
            return False
        while i < len(A) and j < len(B):
            # skip empty
            if st.cons.entails(pos - A[i][1]):
                i += 1
                continue
            if st.cons.entails(pos - B[j][1]):
                j += 1
                continue
            ca, cb = A[i][2], B[j][2]
            ha, hb = A[i][1], B[j][1]
            if st.cons.entails(hb - ha):
                h = ha
            elif st.cons.entails(ha - hb):
                h = hb
            else:
                return False
            if not self.content_eq(st, ca, cb, pos, h):
                return False
            pos = h
        return True

    def seg_clean(self, st, segs):
        """drop segments known to be empty"""
        out = [x for x in segs if not st.cons.entails(x[0] - x[1])]
        return tuple(out) if len(out) < len(segs) and out else segs

    def seg_wf(self, st, segs):
        """is this a partition into consecutive non-negative ranges in st?"""
        for i, (lo, hi, c) in enumerate(segs):
            if not st.cons.entails(hi - lo):
                return False
            if i and segs[i - 1][1] != lo and not st.cons.entails_eq(segs[i - 1][1] - lo):
                return False
        return True

    def content_eq(self, st, a, b, lo, hi):
        if a == b:
            return True
        if a[0] == "src" and b[0] == "src":
            return a[1] == b[1] and st.cons.entails_eq(a[2] - b[2])
        if a[0] == "val" and b[0] == "val":
            return self.eqv(st, a[1], b[1])
        return self.W.content_eq(st, a, b, lo, hi)

    # --- load/store
    def load(self, st, p, size, ty, ins=None):
        rd = self.W.redirect(st, p, size)
        if rd is not None:
            oid2, rn, idx = rd
            self.stats["memops"] += 1
            v = self.seg_read(st, st.mem[oid2].arr[rn], idx)
            return Ptr(v, Lin(0)) if ty[0] == "p" and isinstance(v, tuple) and v[0] == "el" else v
        b, off = self.resolve(st, p, "read")
        o = st.mem[b]
        self.stats["memops"] += 1
        r = self.region(st, o, off, size, "read")
        if r is not None:
            reg, idx = r
            if reg[1] != size:
                return self.W.wideload(st, b, reg, idx, size, ty, ins)
            v = self.seg_read(st, o.arr[reg[3]], idx)
            if ty[0] == "p" and isinstance(v, tuple) and v[0] == "el":
                return Ptr(v, Lin(0))
            self.W.slotread(st, v)
            return self.W.loaded(st, v, ty)
        if not off.isconst():
            if o.size is not None:
                return self.symfield(st, b, off, size, ty)
            raise Undecided("symbolic offset %r in %s" % (off, o.name))
        k = off.c
        if o.size is not None and (k < 0 or k + size > o.size):
            self.report("oob", "read outside the bounds of %s" % o.name, st)
            raise PathEnd()
        if k in o.redir:
            oid2, rn, idx = o.redir[k]
            v = self.seg_read(st, st.mem[oid2].arr[rn], idx)
            if ty[0] == "p" and isinstance(v, tuple) and v[0] == "el":
                return Ptr(v, Lin(0))
            return v
        f = o.fields.get(k)
        if f is not None:
            if f[0] == size:
                return self.W.loaded(st, f[1], ty)
            if f[0] == 16 and size == 8 and isinstance(f[1], Agg):
                return f[1].v[0]
            return self.W.partial_load(st, b, k, size, ty)
        for fo, (fs, fv) in o.fields.items():
            if fo < k + size and k < fo + fs:
                return self.W.partial_load(st, b, k, size, ty)
        return self.W.lazyload(st, b, k, size, ty)

    def symfield(self, st, b, off, size, ty):
        raise Undecided("symbolic offset into %s" % st.mem[b].name)

    def store(self, st, p, size, v, ty=None):
        rd = self.W.redirect(st, p, size)
        if rd is not None:
            oid2, rn, idx = rd
            self.stats["memops"] += 1
            if isinstance(v, Ptr):
                v = self.W.canonptr(st, v)
            segs = self.seg_write(st, st.mem[oid2].arr[rn], idx, v)
            st.w(oid2).arr[rn] = segs
            self.W.wrote(st, oid2, rn)
            return
        b, off = self.resolve(st, p, "write")
        o = st.mem[b]
        self.stats["memops"] += 1
        if o.kind == "const":
            self.report("constwrite", "write to constant object %s" % o.name, st)
            raise PathEnd()
        r = self.region(st, o, off, size, "write")
        if r is not None:
            reg, idx = r
            if reg[1] != size:
                if size > reg[1] and size % reg[1] == 0 and isinstance(v, (Agg,)):
                    raise Undecided("wide store")
                return self.W.widestore(st, b, reg, idx, size, v)
            segs = self.seg_write(st, o.arr[reg[3]], idx, v)
            o = st.w(b)
            o.arr[reg[3]] = segs
            self.W.wrote(st, b, reg[3])
            return
        if not off.isconst():
            raise Undecided("store at symbolic offset %r in %s" % (off, o.name))
        k = off.c
        if o.size is not None and (k < 0 or k + size > o.size):
            self.report("oob", "write outside the bounds of %s" % o.name, st)
            raise PathEnd()
        if k in o.redir:
            oid2, rn, idx = o.redir[k]
            if isinstance(v, Ptr):
                v = self.W.canonptr(st, v)
            segs = self.seg_write(st, st.mem[oid2].arr[rn], idx, v)
            st.w(oid2).arr[rn] = segs
            self.W.wrote(st, b, k)
            return
        o = st.w(b)
        for fo in list(o.fields):
            fs = o.fields[fo][0]
            if fo < k + size and k < fo + fs and not (fo == k and fs == size):
                if fo >= k and fo + fs <= k + size:
                    del o.fields[fo]
                else:
                    self.W.partial_store(st, o, fo, fs, k, size)
        o.fields[k] = (size, v)
        self.W.wrote(st, b, k)

    def memcpy(self, st, dst, src, n, ins):
        t = self.tri(st, ("ge", n - 1))
        if t is False:
            return
        if n.isconst() and isinstance(src, Ptr) and isinstance(dst, Ptr):
            pass
        elif t is None:
            raise split_ge(n - 1)
        sb, so = self.resolve(st, src, "read")
        db, do = self.resolve(st, dst, "write")
        S, D = st.mem[sb], st.mem[db]
        self.stats["memops"] += 1
        sr = self.region_range(st, S, so, n, "read")
        dr = self.region_range(st, D, do, n, "write")
        if sr is None and dr is None:
            if n.isconst() and so.isconst() and do.isconst():
                return self.copy_fields(st, sb, so.c, db, do.c, n.c)
            raise Undecided("memcpy with symbolic layout")
        if sr is not None and dr is not None:
            rs, si = sr
            rd, di = dr
            if rs[1] != rd[1] or not n.divisible(rs[1]):
                raise Undecided("memcpy element size mismatch")
            cnt = n.div(rs[1])
            sl = self.seg_slice(st, S.arr[rs[3]], si, si + cnt)
            sl = self.seg_shift(sl, di - si)
            new = self.seg_replace(st, D.arr[rd[3]], di, di + cnt, sl)
            st.w(db).arr[rd[3]] = new
            self.W.wrote(st, db, rd[3])
            return
        if not n.isconst():
            raise Undecided("memcpy array<->scalar with symbolic size")
        if sr is not None:
            rs, si = sr
            if n.c % rs[1]:
                raise Undecided("partial element memcpy")
            vals = [self.seg_read(st, S.arr[rs[3]], si + i) for i in range(n.c // rs[1])]
            for i, v in enumerate(vals):
                self.store(st, Ptr(db, do + i * rs[1]), rs[1], v)
            return
        rd, di = dr
        if n.c % rd[1]:
            raise Undecided("partial element memcpy")
        vals = [self.load(st, Ptr(sb, so + i * rd[1]), rd[1], ["x"]) for i in range(n.c // rd[1])]
        if len(vals) == 1:
            new = self.seg_write(st, D.arr[rd[3]], di, vals[0])
            st.w(db).arr[rd[3]] = new
            self.W.wrote(st, db, rd[3])
            return
        segs = D.arr[rd[3]]
        for i, v in enumerate(vals):
            segs = self.seg_write(st, segs, di + i, v)
        st.w(db).arr[rd[3]] = segs
        self.W.wrote(st, db, rd[3])

    def region_range(self, st, o, off, n, what):
        if not o.regions:
            if o.size is not None:
                if not st.cons.entails(off):
                    raise split_ge(off)
                hi = Lin(o.size) - n - off if not isinstance(o.size, Lin) else o.size - n - off
                if not st.cons.entails(hi):
                    if st.cons.feasible_with(hi):
                        raise split_ge(hi)
                    self.report("oob", "%s outside the bounds of %s" % (what, o.name), st)
                    raise PathEnd()
            return None
        if off.isconst() and n.isconst():
            inside = [r for r in o.regions if r[0] <= off.c < r[0] + r[1] * r[2]]
            if not inside:
                return None
            r = inside[0]
            if off.c + n.c > r[0] + r[1] * r[2]:
                if off.c == r[0] and o.size is not None and off.c + n.c <= o.size:
                    raise Undecided("bulk copy of several members")
                self.report("oob", "%s past the end of array %s of %s" % (what, r[3], o.name), st)
                raise PathEnd()
            if (off.c - r[0]) % r[1]:
                raise Undecided("partial element copy")
            return r, Lin((off.c - r[0]) // r[1])
        for r in o.regions:
            lo = off - r[0]
            hi = Lin(r[0] + r[1] * r[2]) - n - off
            if st.cons.entails(lo) and st.cons.entails(hi):
                if not lo.divisible(r[1]):
                    raise Undecided("partial element copy")
                return r, lo.div(r[1])
        for r in o.regions:
            lo = off - r[0]
            hi = Lin(r[0] + r[1] * r[2]) - n - off
            if st.cons.feasible_with(lo) and st.cons.feasible_with(hi):
                for l in (lo, hi):
                    if not st.cons.entails(l):
                        raise split_ge(l)
        self.report("oob", "%s outside the bounds of %s" % (what, o.name), st)
        raise PathEnd()

    def copy_fields(self, st, sb, so, db, do, n):
        S, D = st.mem[sb], st.mem[db]
        for o, off, w in ((S, so, "read"), (D, do, "write")):
            if o.size is not None and (off < 0 or off + n > o.size):
                self.report("oob", "%s outside the bounds of %s" % (w, o.name), st)
                raise PathEnd()
        vals = []
        for fo, (fs, fv) in S.fields.items():
            if fo >= so and fo + fs <= so + n:
                vals.append((fo - so, fs, fv))
            elif fo < so + n and so < fo + fs:
                raise Undecided("memcpy splits a field")
        if S.init is not None:
            vals = self.W.lazyfields(st, sb, so, n, vals)
        if S.redir or D.redir:
            for k in list(S.redir) + []:
                if so <= k < so + n:
                    raise Undecided("memcpy over redirected field")
        D = st.w(db)
        for fo in list(D.fields):
            fs = D.fields[fo][0]
            if fo < do + n and do < fo + fs:
                if fo >= do and fo + fs <= do + n:
                    del D.fields[fo]
                else:
                    raise Undecided("memcpy overwrites part of a field")
        for o, fs, fv in vals:
            D.fields[do + o] = (fs, fv)
        if D.init is not None:
            have = set((o, s) for o, s, _ in vals)
            for o, s in self.W.layout_fields(st, db, do, n):
                if (o - do, s) not in have:
                    D.fields[o] = (s, UNDEF)
        self.W.wrote(st, db, do)

    # ------------------------------------------------------------ functions
    def call(self, fn, args, st):
        """returns list of (state, kind, value), kind in ret/throw"""
        self.depth += 1
        self.stats["calls"] += 1
        if self.depth > self.W.maxdepth:
            self.depth -= 1
            raise Undecided("call depth bound in %s" % fn.dem[:80])
        try:
            env = {}
            for a, v in zip(fn.args, args):
                env[a["id"]] = v
            allocas = []
            fr = (fn, allocas)
            outs = []
            res = self.run_region(fr, None, 0, [(st, env, None)], None, outs)
            assert not res[0] and not res[1]
            for s, k, v in outs:
                for oid in list(s.mem):
                    o = s.mem[oid]
                    if o.kind == "alloca" and o.meta == self.depth:
                        del s.mem[oid]
            return self.merge_outs(outs)
        finally:
            self.depth -= 1

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        res = []
        for s, k, v in outs:
            done = False
            for i, (s2, k2, v2) in enumerate(res):
                if k2 != k:
                    continue
                m = self.merge2(s2, {0: v2}, s, {0: v}, (0,))
                if m:
                    res[i] = (m[0], k, m[1][0])
                    done = True
                    break
            if not done:
                res.append((s, k, v))
        return res

    # merging of states
    def mval(self, A, a, B, b):
        """value valid in both states, or None"""
        if a is b or a == b:
            return a
        if self.eqv(B, a, b):
            return a
        if self.eqv(A, a, b):
            return b
        return None

    def merge2(self, A, ea, B, eb, live):
        if len(A.mem) != len(B.mem):
            return None
        if A.ms.keys() != B.ms.keys():
            return None
        if A.mem.keys() != B.mem.keys():
            return None
        env = {}
        for v in live:
            if v in ea and v in eb:
                m = self.mval(A, ea[v], B, eb[v])
                if m is None:
                    return None
                env[v] = m
            elif v in ea or v in eb:
                return None
        if A.ev != B.ev:
            m = self.mval(A, A.ev, B, B.ev)
            if m is None:
                return None
            ev = m
        else:
            ev = A.ev
        ms = {}
        for k in A.ms:
            if k == "ctr":
                ms[k] = max(A.ms[k], B.ms[k])
                continue
            m = self.mval(A, A.ms[k], B, B.ms[k])
            if m is None:
                return None
            ms[k] = m
        mem = {}
        keepc = []
        for oid, oa in A.mem.items():
            ob = B.mem[oid]
            if oa is ob:
                mem[oid] = oa
                continue
            if oa.freed != ob.freed or oa.kind != ob.kind or oa.name != ob.name:
                return None
            o = oa.copy()
            if oa.meta is not ob.meta:
                m = self.mval(A, oa.meta, B, ob.meta)
                if m is None:
                    return None
                o.meta = m
            if oa.redir is not ob.redir and oa.redir != ob.redir:
                return None
            if oa.fields is not ob.fields:
                ka, kb = oa.fields, ob.fields
                for k in set(ka) | set(kb):
                    if k not in ka or k not in kb:
                        if oa.init is not None:
                            # lazily initialised: the present one must equal the initial value
                            m = self.W.lazy_merge(A, B, oid, k)
                            if m is None:
                                return None
                            o.fields[k] = m
                            continue
                        # field unwritten on one side => undefined there
                        if oa.kind == "alloca":
                            o.fields.pop(k, None)
                            continue
                        return None
                    if ka[k][0] != kb[k][0]:
                        return None
                    m = self.mval(A, ka[k][1], B, kb[k][1])
                    if m is None:
                        if oa.kind == "alloca" and (ka[k][1] == UNDEF or kb[k][1] == UNDEF):
                            m = UNDEF
                        else:
                            return None
                    o.fields[k] = (ka[k][0], m)
            if oa.arr is not ob.arr:
                if oa.arr.keys() != ob.arr.keys():
                    return None
                for k in oa.arr:
                    sa, sb = oa.arr[k], ob.arr[k]
                    if sa is sb or sa == sb:
                        continue
                    sa, sb = self.seg_clean(A, sa), self.seg_clean(B, sb)
                    if self.seg_wf(B, sa) and self.seg_wf(A, sa) and self.segs_equal(B, sa, sb):
                        ch = sa
                    elif self.seg_wf(A, sb) and self.seg_wf(B, sb) and self.segs_equal(A, sa, sb):
                        ch = sb
                    else:
                        return None
                    o.arr[k] = ch
                    for lo, hi, _ in ch:
                        keepc.append(hi - lo)
            mem[oid] = o
        S = State.__new__(State)
        S.cons = A.cons.join(B.cons)
        if not A.cons.exact_join(B.cons, S.cons):
            self.stats["kept"] = self.stats.get("kept", 0) + 1
            return None
        for l in keepc:
            S.cons.add(l)
        S.mem = mem
        S.ms = ms
        S.ev = ev
        S.trace = A.trace
        self.stats["merges"] += 1
        return S, env

    def merge_items(self, fn, b, items):
        """items after phi resolution: (st, env)"""
        if len(items) < 2:
            return items
        live = fn.live_after_phi[b]
        res = []
        for st, env in items:
            done = False
            for i in range(len(res)):
                m = self.merge2(res[i][0], res[i][1], st, env, live)
                if m:
                    res[i] = m
                    done = True
                    break
            if not done:
                res.append((st, env))
        return res

    def phis(self, fn, b, st, env, prev):
        """resolve phi nodes, prune env; returns new env"""
        blk = fn.blocks[b]
        new = {}
        for ins in blk:
            if ins["op"] != "phi":
                break
            for p, o in ins["in"]:
                if p == prev:
                    new[ins["id"]] = self.val(st, env, o)
                    break
            else:
                raise Undecided("phi without incoming edge")
        live = fn.livein[b]
        e2 = {}
        for v in live:
            if v in env:
                e2[v] = env[v]
        e2.update(new)
        return e2

    def run_region(self, fr, blocks, start, items, hdr, outs, skipphi=False):
        """run items from block `start`; edges to hdr -> latch, edges leaving blocks -> exits.
        returns (latch, exits): lists of (st, env, prev[, target])"""
        fn = fr[0]
        latch, exits = [], []
        pend = {}
        heap = []

        def push(b, it):
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (fn.rpo.get(b, 1 << 30), b))
            pend[b].append(it)

        for it in items:
            push(start, it)
        first = True
        total = 0
        while heap:
            _, b = heapq.heappop(heap)
            its = pend.pop(b)
            total += len(its)
            if total > self.MAXITEMS:
                raise Undecided("state explosion in %s" % fn.dem[:80])
            if b in fn.loops and not (first and b == hdr):
                # nested loop (b != hdr because edges to hdr are latched)
                lb = fn.loops[b]
                if blocks is None or lb <= blocks:
                    ex = self.run_loop(fr, b, lb, its, outs)
                    for st, env, prev, tgt in ex:
                        if blocks is not None and tgt not in blocks:
                            exits.append((st, env, prev, tgt))
                        elif tgt == hdr:
                            latch.append((st, env, prev))
                        else:
                            push(tgt, (st, env, prev))
                    first = False
                    continue
            ready = []
            if skipphi and first and b == start:
                ready = [(st, env) for st, env, prev in its]
            else:
                for st, env, prev in its:
                    ready.append((st, self.phis(fn, b, st, env, prev)))
            first = False
            ready = self.merge_items(fn, b, ready)
            for st, env in ready:
                for st2, env2, tgt in self.run_block(fr, b, st, env, outs):
                    if hdr is not None and tgt == hdr:
                        latch.append((st2, env2, b))
                    elif blocks is not None and tgt not in blocks:
                        exits.append((st2, env2, b, tgt))
                    else:
                        push(tgt, (st2, env2, b))
        return latch, exits

    def run_block(self, fr, b, st, env, outs):
        """returns list of (state, env, target)"""
        fn = fr[0]
        blk = fn.blocks[b]
        res = []
        i0 = 0
        while i0 < len(blk) and blk[i0]["op"] == "phi":
            i0 += 1
        stack = [(st, env, i0)]
        while stack:
            st, env, i = stack.pop()
            n = len(blk)
            while i < n:
                ins = blk[i]
                self.stats["instr"] += 1
                self.curins = ins
                try:
                    r = self.step(fr, st, env, ins, outs)
                except NeedSplit as e:
                    self.stats["splits"] += 1
                    if e.seg is not None and self.segrec is not None:
                        self.segrec[e.seg] = 1
                    alts = []
                    for alt in e.alts:
                        s2 = st.copy()
                        if s2.assume(alt):
                            s2.trace = s2.trace + ("%s: %s" % (locstr(ins), " & ".join("%r>=0" % a for a in alt)),)
                            alts.append(s2)
                    if not alts:
                        break  # contradictory state
                    if len(alts) == 1:
                        st = alts[0]
                        continue
                    for s2 in alts[1:]:
                        stack.append((s2, dict(env), i))
                    st = alts[0]
                    continue
                except PathEnd:
                    break
                except Undecided as e:
                    self.undecide("%s [%s] at %s" % (e.msg, ins["op"], locstr(ins)))
                    if self.quiet:
                        self.qfail = True
                    break
                if r is None:
                    i += 1
                    continue
                # r: list of ("next",st,env) / ("goto",st,env,target)
                for k in r:
                    if k[0] == "next":
                        stack.append((k[1], k[2], i + 1))
                    else:
                        res.append((k[1], k[2], k[3]))
                break
        return res

    # ----------------------------------------------------------------- loops
    def run_loop(self, fr, hdr, lb, items, outs):
        fn = fr[0]
        ready = []
        for st, env, prev in items:
            ready.append((st, self.phis(fn, hdr, st, env, prev)))
        # NOTE phi values are now in env; header is then executed with skipphi
        ready = self.merge_items(fn, hdr, ready)
        exits = []
        self.stats["loops"] += 1
        kinds = None if self.noloop else self.classify(fn, hdr, lb)
        stack = [(st, env, 0, False) for st, env in ready]
        while stack:
            st, env, phase, peeled = stack.pop()
            ex = None
            if kinds is not None:
                q0, h0, s0 = self.quiet, self.harv, self.segrec
                no = len(outs)
                try:
                    ex, more = self.loop_numeric(fr, hdr, lb, st, env, kinds, outs, phase)
                    for st2, env2 in more:
                        stack.append((st2, env2, phase + 1, peeled))
                except Undecided as e:
                    self.lastloopfail = e.msg
                    del outs[no:]
                    self.W.note("loop at %s not summarised: %s" % (locstr(fn.blocks[hdr][0]), e.msg))
                    ex = None
                except NeedSplit as e:
                    del outs[no:]
                    self.stats["splits"] += 1
                    for alt in e.alts:
                        s2 = st.copy()
                        if s2.assume(alt):
                            stack.append((s2, dict(env), phase, peeled))
                    ex = []
                finally:
                    self.quiet, self.harv, self.segrec = q0, h0, s0
            if ex is None and kinds is not None and self.W.peel and not peeled:
                # the first iteration may be special: follow it, then generalise from there
                latch, ex = self.run_region(fr, lb, hdr, [(st, env, None)], hdr, outs, skipphi=True)
                nxt = [(s, self.phis(fn, hdr, s, e, prev)) for s, e, prev in latch]
                for s, e in self.merge_items(fn, hdr, nxt):
                    stack.append((s, e, 0, True))
            elif ex is None:
                ex = self.loop_unroll(fr, hdr, lb, st, env, outs)
            exits += ex
        return exits

    def classify(self, fn, hdr, lb):
        """phi id -> ('ind', step, isptr) | ('other',); None if the loop walks a linked structure"""
        defs = {}
        for b in lb:
            for ins in fn.blocks[b]:
                if "id" in ins:
                    defs[ins["id"]] = ins
        kinds = {}
        latches = [b for b in lb if hdr in fn.succ[b]]
        for ins in fn.blocks[hdr]:
            if ins["op"] != "phi":
                break
            lv = [o for p, o in ins["in"] if p in latches]
            if len(lv) < 1:
                return None
            steps = []
            for o in lv:
                if o[0] != "v":
                    steps = None
                    break
                if o[1] == ins["id"]:
                    steps.append(0)
                    continue
                d = defs.get(o[1])
                tot = 0
                while d is not None:
                    if d["op"] == "getelementptr" and not d.get("vars") and not d.get("bad"):
                        tot += d["coff"]
                        nx = d["base"]
                    elif d["op"] == "getelementptr" and len(d.get("vars", ())) == 1 and d["vars"][0][0][0] == "c":
                        tot += d["coff"] + int(d["vars"][0][0][2]) * d["vars"][0][1]
                        nx = d["base"]
                    elif d["op"] == "add" and d["a"][1][0] == "c":
                        k = int(d["a"][1][2])
                        w = d["a"][1][1]
                        tot += k - (1 << w) if k >= 1 << (w - 1) else k
                        nx = d["a"][0]
                    elif d["op"] == "sub" and d["a"][1][0] == "c":
                        tot -= int(d["a"][1][2])
                        nx = d["a"][0]
                    else:
                        tot = None
                        break
                    if nx[0] != "v":
                        tot = None
                        break
                    if nx[1] == ins["id"]:
                        break
                    d = defs.get(nx[1])
                else:
                    tot = None
                if tot is None:
                    steps = None
                    break
                steps.append(tot)
            if steps and len(set(steps)) == 1:
                kinds[ins["id"]] = ("ind", steps[0], ins["ty"][0] == "p")
            else:
                if ins["ty"][0] == "p":
                    # pointer reloaded from memory or from a call => traversal
                    for o in lv:
                        if o[0] == "v" and self.walks(defs, o[1], ins["id"], set()):
                            return None
                kinds[ins["id"]] = ("other",)
        return kinds

    def walks(self, defs, v, phi, seen):
        if v in seen or v == phi:
            return False
        seen.add(v)
        d = defs.get(v)
        if d is None:
            return False
        if d["op"] in ("load", "call", "invoke", "extractvalue", "inttoptr"):
            return True
        if d["op"] == "phi":
            return any(o[0] == "v" and self.walks(defs, o[1], phi, seen) for _, o in d["in"])
        if d["op"] == "select":
            return any(o[0] == "v" and self.walks(defs, o[1], phi, seen) for o in d["a"][1:])
        if d["op"] == "getelementptr":
            return d["base"][0] == "v" and self.walks(defs, d["base"][1], phi, seen)
        return False

    def loop_unroll(self, fr, hdr, lb, st, env, outs):
        fn = fr[0]
        items = [(st, env, None)]
        exits = []
        n = 0
        self.stats["unrolled"] += 1
        while items:
            latch, ex = self.run_region(fr, lb, hdr, items, hdr, outs, skipphi=True)
            exits += ex
            n += 1
            nxt = []
            for s, e, prev in latch:
                nxt.append((s, self.phis(fn, hdr, s, e, prev)))
            nxt = self.merge_items(fn, hdr, nxt)
            items = [(s, e, None) for s, e in nxt]
            if n > self.W.unroll and items:
                self.undecide("loop bound %d exceeded at %s" % (self.W.unroll, locstr(fn.blocks[hdr][-1])))
                if self.quiet:
                    self.qfail = True
                break
        return exits

    def loop_numeric(self, fr, hdr, lb, st0, env0, kinds, outs, phase=0, restr=None):
        """one phase of a loop -> (exits, entry states of the next phase).  A phase covers the
        iterations for which every condition of restr (functions of the iteration number) holds."""
        fn = fr[0]
        if phase > 8:
            raise Undecided("too many loop phases")
        phis = list(kinds)
        for p in phis:
            v0 = env0[p]
            if isinstance(v0, Ptr) and isinstance(v0.base, tuple):
                c = self.W.canonptr(st0, v0)
                if c.base != v0.base:
                    b0 = v0.base
                    for k, v in env0.items():
                        if isinstance(v, Ptr) and v.base == b0:
                            env0[k] = Ptr(c.base, v.off)
        st = st0.copy()
        n = st.fresh("n")
        st.cons.add(n)
        env = dict(env0)
        gsyms = []   # (phi, sym, init Lin, scale)
        usyms = []   # phis without a value so far
        for p in phis:
            k = kinds[p]
            v0 = env0[p]
            if k[0] == "ind":
                if isinstance(v0, Lin):
                    env[p] = v0 + n * k[1]
                elif isinstance(v0, Ptr):
                    env[p] = Ptr(v0.base, v0.off + n * k[1])
                else:
                    raise Undecided("induction over %r" % (v0,))
            else:
                if isinstance(v0, Lin):
                    x = st.fresh("x")
                    env[p] = x
                    gsyms.append((p, x, v0, None))
                elif isinstance(v0, Ptr) and v0.base is not None:
                    x = st.fresh("x")
                    esz = self.W.ptrscale(st, v0)
                    env[p] = Ptr(v0.base, v0.off + x * esz)
                    gsyms.append((p, x, Lin(0), (v0, esz)))
                elif v0 == UNDEF:
                    env[p] = UNDEF
                    usyms.append(p)
                elif iscond(v0):
                    # boolean phi: split on its value
                    raise Undecided("boolean loop variable")
                else:
                    raise Undecided("loop variable %r" % (v0,))
        entry_sub = {n.t[0][0]: Lin(0)}
        for p, x, i0, sc in gsyms:
            entry_sub[x.t[0][0]] = i0
        rl = []
        for mk in restr or ():
            l = mk(n)
            rl.append(l)
            st.cons.add(l)
        # templates
        bounds = {}
        for bnd in self.W.bounds(st0):
            bounds[bnd] = 1
        bounds[Lin(0)] = 1
        bounds[Lin(1)] = 1
        used = set()
        for b in lb:
            for ins in fn.blocks[b]:
                for u in fn._uses(ins):
                    used.add(u)
        for u in used:
            v = env0.get(u)
            if isinstance(v, Lin) and len(v.t) <= 3 and not any(s in self.addrinv for s, _ in v.t):
                bounds[v] = 1
            elif isinstance(v, Ptr):
                for p in phis:
                    v0 = env0[p]
                    if isinstance(v0, Ptr) and v0.base == v.base and v0.base is not None:
                        d = v.off - v0.off
                        kk = kinds[p]
                        sc = abs(kk[1]) if kk[0] == "ind" and kk[1] else (self.W.ptrscale(st, v0) if kk[0] != "ind" else 1)
                        if sc and d.divisible(sc):
                            bounds[d.div(sc)] = 1
        terms = []
        if any(kinds[p][0] == "ind" for p in phis):
            steps = set()
            for p in phis:
                if kinds[p][0] == "ind" and kinds[p][1]:
                    s = abs(kinds[p][1])
                    if isinstance(env0[p], Ptr):
                        sc = self.W.ptrscale(st, env0[p])
                        s = s // sc if sc and s % sc == 0 else 1
                        s = s or 1
                        v0 = self.W.ptridx(st, env0[p])
                        if v0 is not None:
                            terms.append(v0 + n * ((1 if kinds[p][1] > 0 else -1) * s))
                    else:
                        terms.append(env0[p] + n * kinds[p][1])
                    steps.add(s)
            for s in steps or {1}:
                terms.append(n * s)
        xs = []
        for p, x, i0, sc in gsyms:
            xs.append(x)
            if sc is not None:
                ix = self.W.ptridx(st, sc[0])
                if ix is not None and ix != Lin(0):
                    xs.append(ix + x)
        terms += xs
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                terms.append(xs[i] + xs[j])
                terms.append(xs[i] - xs[j])
        cands = []
        seen = set()
        for t in terms:
            for bnd in bounds:
                for cnd in (t - bnd, bnd - t):
                    if not any(s in entry_sub for s, _ in cnd.t):
                        continue
                    if cnd in seen:
                        continue
                    seen.add(cnd)
                    if st0.cons.entails(cnd.subst(entry_sub)):
                        cands.append(cnd)
        # memory effect candidates (filled after the first probe)
        summary, partial = None, False
        q0 = self.quiet
        rounds = 0
        memstate = None
        while True:
            rounds += 1
            if rounds > 40:
                raise Undecided("loop invariant inference did not converge")
            sg = st.copy()
            for c in cands:
                sg.cons.add(c)
            if not sg.cons.feasible():
                # generic iteration unreachable
                break
            if summary is not None:
                summary(sg)
            self.quiet = q0 + 1
            qf0 = getattr(self, "qfail", False)
            self.qfail = False
            h0, s0 = self.harv, self.segrec
            self.harv, self.segrec = {}, {}
            try:
                latch, ex = self.run_region(fr, lb, hdr, [(sg.copy(), dict(env), None)], hdr, [], skipphi=True)
            finally:
                self.quiet = q0
                qf = self.qfail
                self.qfail = qf0
                harv, segrec = self.harv, self.segrec
                self.harv, self.segrec = h0, s0
                if h0 is not None:
                    h0.update(harv)
            if qf:
                raise Undecided("loop body not analysable under candidate invariant")
            # restrict the phase to the iterations before an array segment ends
            if self.writes(sg, latch):
                ns = n.t[0][0]
                for l in segrec:
                    if dict(l.t).get(ns, 0) == 0 or any(s in entry_sub and s != ns for s, _ in l.t):
                        continue
                    l0 = l.subst(entry_sub)
                    t = self.tri(st0, ("ge", l0) if l0.t else l0.c >= 0)
                    if t is None:
                        raise split_ge(l0)
                    r = l if t else -l - 1
                    if r in rl:
                        continue
                    return self.loop_numeric(fr, hdr, lb, st0, env0, kinds, outs, phase,
                                             list(restr or ()) + [lambda m, r=r, ns=ns: r.subst({ns: m})])
            # the guards of the loop body are the natural invariant templates
            if rounds <= 4:
                new = False
                hl = list(harv)
                # guards about a value that becomes the loop variable in the next iteration
                for s, e, prev in latch:
                    ne = self.phis(fn, hdr, s, e, prev)
                    for p, x, i0, sc in gsyms:
                        v = ne[p]
                        if sc is not None:
                            if not isinstance(v, Ptr) or v.base != sc[0].base or not (v.off - sc[0].off).divisible(sc[1]):
                                continue
                            v = (v.off - sc[0].off).div(sc[1])
                        if not isinstance(v, Lin) or v == x:
                            continue
                        for m, a in v.t:
                            if m in entry_sub or abs(a) != 1 or len(v.t) > 4:
                                continue
                            for l in harv:
                                k = dict(l.t).get(m, 0)
                                if k and abs(k) <= 2:
                                    hl.append(l - (v - x) * (k * a))
                for l in hl:
                    if not any(s in entry_sub for s, _ in l.t):
                        continue
                    for cnd in (l, l + 1, -l, -l - 1):
                        if cnd in seen:
                            continue
                        seen.add(cnd)
                        if st0.cons.entails(cnd.subst(entry_sub)):
                            cands.append(cnd)
                            new = True
                if new:
                    continue
            # iterations that leave the phase
            nl, pex = [], []
            for s, e, prev in latch:
                if rl:
                    inn = s.copy()
                    if inn.assume([l.subst({n.t[0][0]: n + 1}) for l in rl]):
                        nl.append((inn, e, prev))
                else:
                    nl.append((s, e, prev))
            latch = nl
            # memory effects
            if summary is None or partial:
                eff = self.loop_effects(sg, latch, n)
                if eff:
                    summary, partial = self.make_summary(st0, sg, eff, n, not partial)
                    continue
            keep = []
            sub_l = []
            for s, e, prev in latch:
                ne = self.phis(fn, hdr, s, e, prev)
                sub = {n.t[0][0]: n + 1}
                for p in usyms:
                    if ne[p] != UNDEF:
                        raise Undecided("loop variable without initial value")
                for p in phis:
                    k = kinds[p]
                    if k[0] == "ind":
                        exp = env[p] + k[1] if isinstance(env[p], Lin) else Ptr(env[p].base, env[p].off + k[1])
                        if not self.eqv(s, ne[p], exp):
                            raise Undecided("induction variable mismatch")
                for p, x, i0, sc in gsyms:
                    v = ne[p]
                    if sc is None:
                        if not isinstance(v, Lin):
                            raise Undecided("loop variable changes type")
                        sub[x.t[0][0]] = v
                    else:
                        v0, esz = sc
                        if not isinstance(v, Ptr) or v.base != v0.base:
                            raise Undecided("loop pointer changes object")
                        d = v.off - v0.off
                        if not d.divisible(esz):
                            raise Undecided("loop pointer stride")
                        sub[x.t[0][0]] = d.div(esz)
                sub_l.append((s, sub))
            changed = False
            for c in cands:
                ok = all(s.cons.entails(c.subst(sub)) for s, sub in sub_l)
                if ok:
                    keep.append(c)
                else:
                    changed = True
            cands = keep
            if summary is not None and not changed:
                # inductiveness of the memory summary
                for s, sub in sub_l:
                    ref = st.copy()
                    ref.cons = s.cons
                    nn = Lin(0, n.t) + 1
                    summary(ref, nn)
                    if not self.mem_equal(s, ref):
                        raise Undecided("memory effect of loop is not inductive")
            elif summary is None and not changed:
                for s, sub in sub_l:
                    if not self.mem_equal(s, sg):
                        raise Undecided("loop changes memory")
            if not changed:
                break
        self.stats["invariants"] += len(cands)
        sg = st.copy()
        for c in cands:
            sg.cons.add(c)
        if not sg.cons.feasible():
            return [], []
        if summary is not None:
            summary(sg)
        latch, ex = self.run_region(fr, lb, hdr, [(sg.copy(), dict(env), None)], hdr, outs, skipphi=True)
        more = []
        for l in rl:
            for s, e, prev in latch:
                s2 = s.copy()
                if s2.assume([-l.subst({n.t[0][0]: n + 1}) - 1]):
                    more.append((s2, self.phis(fn, hdr, s2, e, prev)))
        return ex, more

    def writes(self, sg, latch):
        """does an iteration change memory?"""
        for s, e, prev in latch:
            for oid, o in sg.mem.items():
                p = s.mem.get(oid)
                if p is o or p is None:
                    continue
                if o.kind == "alloca" and not o.regions:
                    continue
                for k in o.arr:
                    if p.arr[k] is not o.arr[k]:
                        return True
        return False

    def mem_equal(self, s, ref):
        """same memory (pre-existing objects), decided under s.cons"""
        if s.ev != ref.ev and not self.eqv(s, s.ev, ref.ev):
            return False
        for oid, o in ref.mem.items():
            p = s.mem.get(oid)
            if p is o:
                continue
            if p is None or p.freed != o.freed:
                return False
            for k in set(o.fields) | set(p.fields):
                if k not in o.fields or k not in p.fields:
                    if o.kind == "alloca" or o.init is not None:
                        if o.init is not None and not self.W.lazy_same(s, ref, oid, k):
                            return False
                        continue
                    return False
                if not self.eqv(s, o.fields[k][1], p.fields[k][1]):
                    if o.kind == "alloca" and o.meta == "scratch":
                        continue
                    return False
            for k in o.arr:
                if o.arr[k] is not p.arr[k] and not self.segs_equal(s, o.arr[k], p.arr[k]):
                    return False
        return True

    def loop_effects(self, sg, latch, n):
        """collect memory changes of one generic iteration"""
        if not latch:
            return None
        eff = {}
        for s, e, prev in latch:
            for oid, o in sg.mem.items():
                p = s.mem.get(oid)
                if p is o or p is None:
                    continue
                if p.freed != o.freed:
                    raise Undecided("loop frees objects")
                for k in p.fields:
                    if k not in o.fields:
                        if o.init is not None:
                            continue
                        eff[(oid, "f", k)] = (p.fields[k][0], None, p.fields[k][1])
                    elif p.fields[k][1] != o.fields[k][1] and not self.eqv(s, p.fields[k][1], o.fields[k][1]):
                        eff[(oid, "f", k)] = (p.fields[k][0], o.fields[k][1], p.fields[k][1])
                for k in p.arr:
                    if p.arr[k] is not o.arr[k] and not self.segs_equal(s, p.arr[k], o.arr[k]):
                        # find the written single-element segments
                        ws = []
                        oldset = set(o.arr[k])
                        for seg in p.arr[k]:
                            if seg not in oldset and (seg[1] == seg[0] + 1 or self.eqv(s, seg[1], seg[0] + 1)):
                                ws.append((seg[0], seg[2]))
                        eff.setdefault((oid, "a", k), []).extend(ws)
        return eff

    def make_summary(self, st0, sg, eff, n, first):
        """generalise the changes of one iteration; array positions may be kept in fields, so that
        they are only known once the fields are generalised (second result: arrays left for later)"""
        ns = n.t[0][0]
        plan = []
        later = False
        anyf = any(k[1] == "f" for k in eff)
        for key, e in eff.items():
            oid, kind, k = key
            if kind == "f":
                size, old, new = e
                if old is None:
                    plan.append(("fu", oid, k, size))
                    continue
                o0 = st0.mem[oid].fields[k][1]
                if isinstance(old, Lin) and isinstance(new, Lin):
                    d = new - old
                    if d.isconst():
                        plan.append(("f", oid, k, size, o0, d.c))
                        continue
                if isinstance(old, Ptr) and isinstance(new, Ptr) and old.base == new.base and (new.off - old.off).isconst():
                    plan.append(("f", oid, k, size, o0, (new.off - old.off).c))
                    continue
                raise Undecided("loop updates a field non-linearly")
            cand = None
            for idx, c in e:
                cf = dict(idx.t).get(ns, 0)
                if abs(cf) != 1:
                    continue
                if c[0] == "src" and dict(c[2].t).get(ns, 0) != 0:
                    continue
                cand = (idx, cf, c)
                break
            if cand is None:
                if first and anyf:
                    later = True
                    continue
                raise Undecided("loop writes an array irregularly")
            idx, cf, c = cand
            start = idx.subst({ns: Lin(0)})
            plan.append(("a", oid, k, start, cf, c))

        def summary(s, nn=None):
            nn = n if nn is None else nn
            for pl in plan:
                if pl[0] == "fu":
                    continue
                if pl[0] == "f":
                    _, oid, k, size, o0, d = pl
                    v = o0 + nn * d if isinstance(o0, Lin) else Ptr(o0.base, o0.off + nn * d)
                    s.w(oid).fields[k] = (size, v)
                else:
                    _, oid, k, start, cf, c = pl
                    lo, hi = (start, start + nn) if cf > 0 else (start + 1 - nn, start + 1)
                    segs = st0.mem[oid].arr[k]
                    try:
                        new = self.seg_replace(s, segs, lo, hi, [(lo, hi, c)])
                    except NeedSplit as e:
                        raise Undecided("loop array effect crosses segments at %r" % (e.alts,))
                    s.w(oid).arr[k] = new
        return summary, later

    # ------------------------------------------------------------ instructions
    def step(self, fr, st, env, ins, outs):
        op = ins["op"]
        f = getattr(self, "i_" + op, None)
        if f is None:
            raise Undecided("unsupported instruction %s" % op)
        return f(fr, st, env, ins, outs)

    def V(self, st, env, ins, i):
        return self.val(st, env, ins["a"][i])

    def i_alloca(self, fr, st, env, ins, outs):
        oid = st.newoid()
        o = Obj("alloca", "local:" + ins.get("nm", ""), size=ins["size"], align=ins["align"])
        o.meta = self.depth
        self.W.alloca(st, o, ins)
        st.mem[oid] = o
        env[ins["id"]] = Ptr(oid, Lin(0))

    def i_getelementptr(self, fr, st, env, ins, outs):
        if ins.get("bad"):
            raise Undecided("gep")
        b = self.val(st, env, ins["base"])
        off = Lin(ins["coff"])
        for v, k in ins["vars"]:
            x = self.val(st, env, v)
            x = self.toint(st, x)
            off = off + x * k
        if b == UNDEF:
            env[ins["id"]] = UNDEF
            return
        if not isinstance(b, Ptr):
            b = self.topt(st, b)
        env[ins["id"]] = Ptr(b.base, b.off + off)

    def topt(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, tuple) and v and v[0] == "el":
            return Ptr(v, Lin(0))
        if isinstance(v, Lin):
            return self.int2ptr(v)
        raise Undecided("pointer expected, got %r" % (v,))

    def toint(self, st, v):
        if isinstance(v, Lin):
            return v
        if v is True:
            return Lin(1)
        if v is False:
            return Lin(0)
        if iscond(v):
            return Lin(1 if self.decide(st, v) else 0)
        if isinstance(v, Ptr):
            return self.ptr2int(st, v)
        if v == UNDEF:
            self.report("uninit", "use of an uninitialised value", st)
            raise PathEnd()
        r = self.W.toint(st, v)
        if r is not None:
            return r
        raise Undecided("integer expected, got %r" % (v,))

    def tocond(self, st, v):
        if iscond(v):
            return v
        if isinstance(v, Lin):
            return ("ne", v) if v.t else v.c != 0
        if v == UNDEF:
            self.report("uninit", "branch on an uninitialised value", st)
            raise PathEnd()
        raise Undecided("condition expected, got %r" % (v,))

    def i_load(self, fr, st, env, ins, outs):
        p = self.V(st, env, ins, 0)
        if not isinstance(p, Ptr):
            p = self.topt(st, p) if p != UNDEF else p
        self.W.access(st, p, ins, False)
        v = self.load(st, p, ins["size"], ins["ty"], ins)
        if ins["ty"] == ["i", 1] and isinstance(v, Lin):
            v = self.tocond(st, v)
        env[ins["id"]] = v

    def i_store(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        p = self.V(st, env, ins, 1)
        if not isinstance(p, Ptr):
            p = self.topt(st, p) if p != UNDEF else p
        self.W.access(st, p, ins, True)
        if v is True or v is False:
            v = Lin(int(v))
        if isinstance(v, Agg):
            raise Undecided("aggregate store")
        self.store(st, p, ins["size"], v, ins["vty"])

    def i_br(self, fr, st, env, ins, outs):
        if "a" not in ins or not ins["a"]:
            return [("goto", st, env, ins["succ"][0])]
        c = self.tocond(st, self.V(st, env, ins, 0))
        r = self.decide(st, c)
        return [("goto", st, env, ins["succ"][0 if r else 1])]

    def i_switch(self, fr, st, env, ins, outs):
        v = self.toint(st, self.V(st, env, ins, 0))
        for k, t in ins["cases"]:
            if self.decide(st, ("eq", v - int(k))):
                return [("goto", st, env, t)]
        return [("goto", st, env, ins["def"])]

    def i_ret(self, fr, st, env, ins, outs):
        v = self.val(st, env, ins["a"][0]) if ins["a"] else None
        outs.append((st, "ret", v))
        return []

    def i_resume(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        e = v.v[0] if isinstance(v, Agg) else None
        outs.append((st, "throw", e.base[4:] if isinstance(e, Ptr) and str(e.base).startswith("exc:") else None))
        return []

    def i_unreachable(self, fr, st, env, ins, outs):
        self.W.unreachable(st, ins)
        return []

    def i_freeze(self, fr, st, env, ins, outs):
        env[ins["id"]] = self.V(st, env, ins, 0)

    def i_select(self, fr, st, env, ins, outs):
        a, b = self.V(st, env, ins, 1), self.V(st, env, ins, 2)
        c = self.V(st, env, ins, 0)
        if not iscond(c) and not isinstance(c, Lin):
            r = self.W.vecselect(st, c, a, b, ins)
            env[ins["id"]] = r
            return
        c = self.tocond(st, c)
        if a == b:
            env[ins["id"]] = a
            return
        if ins["ty"] == ["i", 1]:
            a2, b2 = self.tocond(st, a) if a != UNDEF else False, self.tocond(st, b) if b != UNDEF else False
            env[ins["id"]] = cor(cand(c, a2), cand(cnot(c), b2))
            return
        env[ins["id"]] = a if self.decide(st, c) else b

    def i_extractvalue(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        for i in ins["idx"]:
            if v == UNDEF:
                break
            if not isinstance(v, Agg):
                raise Undecided("extractvalue of %r" % (v,))
            v = v.v[i]
        env[ins["id"]] = v

    def i_insertvalue(self, fr, st, env, ins, outs):
        a = self.V(st, env, ins, 0)
        v = self.V(st, env, ins, 1)
        if len(ins["idx"]) != 1:
            raise Undecided("nested insertvalue")
        n = len(ins["ty"][3]) if ins["ty"][0] == "s" else ins["ty"][1]
        l = list(a.v) if isinstance(a, Agg) else [UNDEF] * n
        l[ins["idx"][0]] = v
        env[ins["id"]] = Agg(l)

    def i_landingpad(self, fr, st, env, ins, outs):
        t = st.ms.get("exc")
        sel = Lin(0)
        for c in ins.get("clauses", ()):
            if c is None:
                sel = Lin(1)
                break
            if t is None:
                # an exception of unknown type may or may not be caught
                k = st.ms.get("excs", 0)
                z = nsym("caught%d" % k)
                st.cons.add(z)
                st.cons.add(Lin(1) - z)
                m = self.decide(st, ("ge", z - 1))
                st.ms["excs"] = k + 1
                if m:
                    t = c
            if t is not None and catches(c, t):
                sel = Lin(self.typeid(c))
                break
        else:
            if not ins["cleanup"]:
                st.ms.pop("exc", None)
                outs.append((st, "throw", t))       # nothing is caught here
                return []
        st.ms.pop("exc", None)
        env[ins["id"]] = Agg([Ptr("exc:" + t if t else "exc", Lin(0)), sel])

    def typeid(self, name):
        return self.__dict__.setdefault("typeids", {}).setdefault(name, 2 + len(self.typeids if "typeids" in self.__dict__ else ()))

    # arithmetic
    def arith(self, st, env, ins):
        a, b = self.V(st, env, ins, 0), self.V(st, env, ins, 1)
        return a, b

    def i_add(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if ins["ty"][0] == "v":
            env[ins["id"]] = self.W.vecop(st, "add", a, b, ins)
            return
        env[ins["id"]] = self.toint(st, a) + self.toint(st, b)

    def i_sub(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if ins["ty"][0] == "v":
            env[ins["id"]] = self.W.vecop(st, "sub", a, b, ins)
            return
        env[ins["id"]] = self.toint(st, a) - self.toint(st, b)

    def i_mul(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        a, b = self.toint(st, a), self.toint(st, b)
        if b.isconst():
            env[ins["id"]] = a * b.c
        elif a.isconst():
            env[ins["id"]] = b * a.c
        else:
            env[ins["id"]] = self.W.mul(st, a, b)

    def i_shl(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        a, b = self.toint(st, a), self.toint(st, b)
        if not b.isconst():
            raise Undecided("variable shift")
        env[ins["id"]] = a * (1 << b.c)

    def divk(self, st, a, k, signed):
        """floor/trunc division by positive constant"""
        if a.divisible(k):
            return a.div(k)
        if not st.cons.entails(a):
            if st.cons.feasible_with(a):
                raise split_ge(a)
            if signed:
                # trunc toward zero of a negative number
                q = self.divk(st, -a, k, signed)
                return -q
            raise Undecided("unsigned division of a negative value")
        key = ("div", a, k)
        q = nsym("(%r)/%d" % (a, k))
        st.cons.add(a - q * k)
        st.cons.add(q * k + (k - 1) - a)
        st.cons.add(q)
        return q

    def i_sdiv(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        a, b = self.toint(st, a), self.toint(st, b)
        if not b.isconst() or b.c == 0:
            raise Undecided("division by %r" % b)
        if ins.get("exact"):
            if a.divisible(b.c):
                env[ins["id"]] = a.div(b.c)
                return
        if b.c < 0:
            raise Undecided("division by negative")
        env[ins["id"]] = self.divk(st, a, b.c, True)

    def i_udiv(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        a = self.toint(st, self.W.unlane(st, a))
        b = self.toint(st, b)
        if not b.isconst() or b.c <= 0:
            env[ins["id"]] = self.W.udiv(st, a, b)
            return
        env[ins["id"]] = self.divk(st, a, b.c, False)

    def i_lshr(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if isinstance(a, tuple) or ins["ty"][0] == "v":
            r = self.W.bitop(st, "lshr", a, b, ins)
            if r is not None:
                env[ins["id"]] = r
                return
        a, b = self.toint(st, a), self.toint(st, b)
        if not b.isconst():
            raise Undecided("variable shift")
        env[ins["id"]] = self.divk(st, a, 1 << b.c, False)

    def i_ashr(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if ins["ty"][0] == "v":
            env[ins["id"]] = self.W.vecop(st, "ashr", a, b, ins)
            return
        a, b = self.toint(st, a), self.toint(st, b)
        if not b.isconst():
            raise Undecided("variable shift")
        k = 1 << b.c
        if a.divisible(k):
            env[ins["id"]] = a.div(k)
            return
        if st.cons.entails(a):
            env[ins["id"]] = self.divk(st, a, k, False)
        elif st.cons.feasible_with(a):
            raise split_ge(a)
        else:
            # floor division of a negative number
            q = self.divk(st, -a + (k - 1), k, False)
            env[ins["id"]] = -q

    def i_urem(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        a, b = self.toint(st, a), self.toint(st, b)
        if not b.isconst() or b.c <= 0:
            env[ins["id"]] = self.W.urem(st, a, b)
            return
        env[ins["id"]] = a - self.divk(st, a, b.c, False) * b.c

    i_srem = i_urem

    def i_and(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if ins["ty"] == ["i", 1]:
            env[ins["id"]] = cand(self.tocond(st, a), self.tocond(st, b))
            return
        r = self.W.bitop(st, "and", a, b, ins)
        if r is not None:
            env[ins["id"]] = r
            return
        if iscond(a) and isinstance(b, Lin) and b.isconst():
            env[ins["id"]] = a if b.c & 1 else Lin(0)
            return
        a, b = self.toint(st, a), self.toint(st, b)
        if a.isconst() and not b.isconst():
            a, b = b, a
        if a.isconst() and b.isconst():
            env[ins["id"]] = Lin(a.c & b.c)
            return
        if b.isconst():
            m = b.c
            w = ins["ty"][1]
            if m < 0:
                m &= (1 << w) - 1
            inv = ((1 << w) - 1) ^ m
            if inv == 0:
                env[ins["id"]] = a
                return
            if m & (m + 1) == 0:       # low mask
                env[ins["id"]] = a - self.divk(st, a, m + 1, False) * (m + 1)
                return
            if inv & (inv + 1) == 0:   # align down
                env[ins["id"]] = self.divk(st, a, inv + 1, False) * (inv + 1)
                return
        env[ins["id"]] = self.W.bitand(st, a, b)

    def i_or(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if ins["ty"] == ["i", 1]:
            env[ins["id"]] = cor(self.tocond(st, a), self.tocond(st, b))
            return
        r = self.W.bitop(st, "or", a, b, ins)
        if r is not None:
            env[ins["id"]] = r
            return
        a, b = self.toint(st, a), self.toint(st, b)
        if a.isconst() and b.isconst():
            env[ins["id"]] = Lin(a.c | b.c)
            return
        if b.isconst() and b.c == 0:
            env[ins["id"]] = a
            return
        env[ins["id"]] = self.W.bitor(st, a, b)

    def i_xor(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        if ins["ty"] == ["i", 1]:
            if b is True:
                env[ins["id"]] = cnot(self.tocond(st, a))
                return
            if b is False:
                env[ins["id"]] = a
                return
            x, y = self.tocond(st, a), self.tocond(st, b)
            env[ins["id"]] = cor(cand(x, cnot(y)), cand(cnot(x), y))
            return
        r = self.W.bitop(st, "xor", a, b, ins)
        if r is not None:
            env[ins["id"]] = r
            return
        if iscond(a) and isinstance(b, Lin) and b == Lin(1):
            env[ins["id"]] = cnot(a)
            return
        a, b = self.toint(st, a), self.toint(st, b)
        if b.isconst() and (b.c == -1 or b.c == (1 << ins["ty"][1]) - 1):
            env[ins["id"]] = -a - 1
            return
        if a.isconst() and b.isconst():
            env[ins["id"]] = Lin(a.c ^ b.c)
            return
        raise Undecided("xor")

    # casts
    def hookcast(self, st, env, ins, v):
        if isinstance(v, tuple) and v and v != UNDEF and not iscond(v):
            r = self.W.cast(st, ins["op"], v, ins)
            if r is not None:
                env[ins["id"]] = r
                return True
        return False

    def i_insertelement(self, fr, st, env, ins, outs):
        env[ins["id"]] = self.W.insertel(st, self.V(st, env, ins, 0), self.V(st, env, ins, 1), self.V(st, env, ins, 2), ins)

    def i_extractelement(self, fr, st, env, ins, outs):
        env[ins["id"]] = self.W.extractel(st, self.V(st, env, ins, 0), self.V(st, env, ins, 1), ins)

    def i_shufflevector(self, fr, st, env, ins, outs):
        env[ins["id"]] = self.W.shufflevec(st, self.V(st, env, ins, 0), self.V(st, env, ins, 1), ins.get("mask", ()), ins)

    def i_zext(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        if ins["ty"][0] == "v":
            env[ins["id"]] = self.W.veccast(st, "zext", v, ins)
            return
        if self.hookcast(st, env, ins, v):
            return
        if isinstance(v, Lin) and not v.isconst() or (isinstance(v, Lin) and v.c < 0):
            w = ins["oty"][1]
            if not st.cons.entails(v):
                if st.cons.feasible_with(v):
                    raise split_ge(v)
                v = v + (1 << w)
        if v is True:
            v = Lin(1)
        if v is False:
            v = Lin(0)
        env[ins["id"]] = v

    def i_sext(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        if ins["ty"][0] == "v":
            env[ins["id"]] = self.W.veccast(st, "sext", v, ins)
            return
        if self.hookcast(st, env, ins, v):
            return
        w = ins["oty"][1]
        if isinstance(v, Lin) and v.isconst() and v.c >= 1 << (w - 1):
            v = v - (1 << w)
        if iscond(v):
            v = Lin(-1 if self.decide(st, v) else 0)
        env[ins["id"]] = v

    def i_trunc(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        if ins["ty"][0] == "v":
            env[ins["id"]] = self.W.veccast(st, "trunc", v, ins)
            return
        if self.hookcast(st, env, ins, v):
            return
        if ins["ty"] == ["i", 1]:
            if iscond(v):
                env[ins["id"]] = v
                return
            if v == UNDEF:
                env[ins["id"]] = v
                return
            v = self.toint(st, v)
            if v.isconst():
                env[ins["id"]] = bool(v.c & 1)
                return
            raise Undecided("trunc to i1")
        if isinstance(v, Lin):
            w = ins["ty"][1]
            if v.isconst():
                x = v.c & ((1 << w) - 1)
                v = Lin(x)
            elif not (st.cons.entails(v + (1 << (w - 1))) and st.cons.entails(Lin((1 << w) - 1) - v)):
                raise Undecided("narrowing of %r" % v)
        env[ins["id"]] = v

    def i_ptrtoint(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        if v == UNDEF:
            env[ins["id"]] = v
            return
        v = self.topt(st, v)
        if isinstance(v.base, tuple):
            v = Ptr(self.W.resolve(st, v.base), v.off)
        env[ins["id"]] = self.ptr2int(st, v)

    def i_inttoptr(self, fr, st, env, ins, outs):
        env[ins["id"]] = self.int2ptr(self.toint(st, self.V(st, env, ins, 0)))

    def i_bitcast(self, fr, st, env, ins, outs):
        v = self.V(st, env, ins, 0)
        if ins["ty"][0] == "v" or ins["oty"][0] == "v":
            v = self.W.vecbitcast(st, v, ins)
        env[ins["id"]] = v

    # comparisons
    def i_icmp(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        env[ins["id"]] = self.icmp(st, ins["pred"], a, b, ins)

    def i_fcmp(self, fr, st, env, ins, outs):
        a, b = self.arith(st, env, ins)
        env[ins["id"]] = self.W.fcmp(st, ins["pred"], a, b, ins)

    def icmp(self, st, pred, a, b, ins):
        if ins["oty"][0] == "v":
            return self.W.veccmp(st, pred, a, b, ins)
        r = self.W.icmp(st, pred, a, b, ins)
        if r is not None:
            return r
        if a == UNDEF or b == UNDEF:
            return ("lz", "undef")
        if ins["oty"][0] == "p":
            a, b = self.topt(st, a), self.topt(st, b)
            return self.pcmp(st, pred, a, b)
        if iscond(a) or iscond(b):
            if iscond(b):
                a, b = b, a
            if isinstance(b, Lin) and b.isconst() and pred in ("eq", "ne"):
                if b.c == 0:
                    c = cnot(a)
                elif b.c in (1, -1):
                    c = a
                else:
                    c = False
                return c if pred == "eq" else cnot(c)
            if iscond(b) and pred in ("eq", "ne"):
                c = cor(cand(a, b), cand(cnot(a), cnot(b)))
                return c if pred == "eq" else cnot(c)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        a, b = self.toint(st, a), self.toint(st, b)
        if pred == "eq":
            return ("eq", a - b) if (a - b).t else (a - b).c == 0
        if pred == "ne":
            return ("ne", a - b) if (a - b).t else (a - b).c != 0
        if pred[0] == "u":
            w = ins["oty"][1]
            a = self.unsigned(st, a, w)
            b = self.unsigned(st, b, w)
        p = pred[1:]
        if p == "lt":
            l = b - a - 1
        elif p == "le":
            l = b - a
        elif p == "gt":
            l = a - b - 1
        else:
            l = a - b
        return ("ge", l) if l.t else l.c >= 0

    def unsigned(self, st, a, w):
        if any(s in self.addrinv for s, _ in a.t):
            return a
        if st.cons.entails(a):
            return a
        if st.cons.feasible_with(a):
            raise split_ge(a)
        return a + (1 << w)

    def pcmp(self, st, pred, a, b):
        if pred in ("eq", "ne"):
            for x in (a, b):
                if isinstance(x.base, tuple) and x.base[0] == "el":
                    pass
            c = self.ptreq(st, a, b)
            return c if pred == "eq" else cnot(c)
        if a.base == b.base:
            d = b.off - a.off
            p = pred[1:]
            l = {"lt": d - 1, "le": d, "gt": -d - 1, "ge": -d}[p]
            return ("ge", l) if l.t else l.c >= 0
        raise Undecided("ordering of unrelated pointers")

    def ptreq(self, st, a, b):
        r = self.W.ptreqhook(st, a, b)
        if r is not None:
            return r
        if a.base is None and b.base is None:
            d = a.off - b.off
            return ("eq", d) if d.t else d.c == 0
        ba, bb = a.base, b.base
        if ba != bb:
            if isinstance(ba, tuple):
                if bb is None and self.W.nonnull(st, ba):
                    return False
                ba = self.W.resolve(st, ba)
            if isinstance(bb, tuple):
                if ba is None and self.W.nonnull(st, bb):
                    return False
                bb = self.W.resolve(st, bb)
        if ba == bb:
            d = a.off - b.off
            return ("eq", d) if d.t else d.c == 0
        return self.W.distinct(st, ba, bb)

    # calls
    def i_call(self, fr, st, env, ins, outs):
        return self.docall(fr, st, env, ins, outs, None)

    def i_invoke(self, fr, st, env, ins, outs):
        return self.docall(fr, st, env, ins, outs, ins["succ"])

    def docall(self, fr, st, env, ins, outs, succ):
        cn = ins.get("cn")
        args = []
        for o in ins["a"]:
            if o[0] == "md":
                args.append(None)
            elif o[0] == "unk":
                args.append(None)
            else:
                args.append(self.val(st, env, o))
        if cn is None:
            cv = self.val(st, env, ins["callee"])
            if isinstance(cv, Ptr) and isinstance(cv.base, str) and cv.base.startswith("fn:"):
                cn = cv.base[3:]
            else:
                raise Undecided("indirect call")
        res = None
        if cn.startswith("llvm."):
            res = self.intrinsic(st, env, cn, args, ins)
        else:
            fn = self.P.fns.get(cn)
            res = self.W.callhook(st, cn, args, ins)
            if res is None:
                if fn is not None and not fn.decl:
                    st1 = st
                    # nested splits are handled inside; keep curins for reports
                    res = self.call(fn, args, st1.copy())
                    self.curins = ins
                else:
                    res = self.W.external(st, cn, args, ins)
        out = []
        nret = sum(1 for x in res if x[1] == "ret")
        for s, k, v in res:
            if k == "ret":
                e = env if nret == 1 else dict(env)
                if "id" in ins:
                    e[ins["id"]] = v
                if succ is not None:
                    out.append(("goto", s, e, succ[0]))
                else:
                    out.append(("next", s, e))
            elif k == "throw":
                if succ is not None:
                    if v is not None:
                        s.ms["exc"] = v
                    out.append(("goto", s, dict(env), succ[1]))
                else:
                    outs.append((s, "throw", v))
        if len(out) == 1 and out[0][0] == "next" and out[0][1] is st:
            return None
        return out

    def intrinsic(self, st, env, cn, args, ins):
        if cn.startswith("llvm.memcpy") or cn.startswith("llvm.memmove"):
            n = self.toint(st, args[2])
            self.memcpy(st, self.topt(st, args[0]), self.topt(st, args[1]), n, ins)
            return [(st, "ret", None)]
        if cn.startswith("llvm.memset"):
            self.W.memset(st, self.topt(st, args[0]), args[1], self.toint(st, args[2]), ins)
            return [(st, "ret", None)]
        if cn.startswith("llvm.is.constant"):
            return [(st, "ret", False)]
        if cn.startswith("llvm.expect"):
            return [(st, "ret", args[0])]
        if cn.startswith("llvm.assume") or cn.startswith("llvm.experimental") or cn.startswith("llvm.donothing") or \
                cn.startswith("llvm.prefetch"):
            return [(st, "ret", None)]
        if cn.startswith("llvm.umax") or cn.startswith("llvm.umin") or cn.startswith("llvm.smax") or cn.startswith("llvm.smin"):
            a, b = self.toint(st, args[0]), self.toint(st, args[1])
            if cn[5] == "u":
                a, b = self.unsigned(st, a, 64), self.unsigned(st, b, 64)
            ge = self.decide(st, ("ge", a - b) if (a - b).t else (a - b).c >= 0)
            mx = a if ge else b
            mn = b if ge else a
            return [(st, "ret", mx if "max" in cn[5:10] else mn)]
        if cn.startswith("llvm.trap"):
            self.W.unreachable(st, ins)
            return []
        if cn.startswith("llvm.eh.typeid"):
            a = args[0]
            return [(st, "ret", Lin(self.typeid(a.base[2:] if isinstance(a, Ptr) and str(a.base).startswith("g:") else str(a))))]
        r = self.W.intrinsic(st, cn, args, ins)
        if r is not None:
            return [(st, "ret", r)]
        raise Undecided("intrinsic %s" % cn)


# ------------------------------------------------------------------- world
class World:
    """default model of everything outside the analysed function"""
    unroll = 40
    maxdepth = 40
    peel = False

    def __init__(self):
        self.notes = []

    def note(self, m):
        if m not in self.notes:
            self.notes.append(m)

    def resolve(self, st, ref):
        raise Undecided("unknown pointer %r" % (ref,))

    def nonnull(self, st, ref):
        return False

    def distinct(self, st, a, b):
        return False

    def redirect(self, st, p, size):
        return None

    def canonptr(self, st, p):
        return p

    def ptreqhook(self, st, a, b):
        return None

    def globalobj(self, st, b):
        if b in ("exc",):
            st.mem[b] = Obj("heap", b)
            return
        name = b[2:]
        g = self.I.P.globals.get(name)
        if g is None:
            raise Undecided("global %s" % b)
        o = Obj("const" if g["const"] else "global", name, size=g["size"])
        if "init" in g:
            self.initglobal(o, 0, g["init"], g["ty"])
        st.mem[b] = o

    def initglobal(self, o, off, init, ty):
        k = init[0]
        if k == "c":
            o.fields[off] = (max(1, init[1] // 8), Lin(int(init[2])))
        elif k == "null":
            o.fields[off] = (8, NULL)
        elif k == "agg" and ty[0] == "a":
            es = self.tysize(ty[2])
            for i, e in enumerate(init[1]):
                self.initglobal(o, off + i * es, e, ty[2])
        elif k == "agg" and ty[0] == "s":
            for (eo, et), e in zip(ty[3], init[1]):
                self.initglobal(o, off + eo, e, et)
        elif k == "g" or k == "fn":
            o.fields[off] = (8, self.I.val(None, {}, init))

    def tysize(self, ty):
        if ty[0] == "i":
            return (ty[1] + 7) // 8
        if ty[0] == "p":
            return 8
        if ty[0] == "f":
            return ty[1] // 8
        if ty[0] in ("a", "v"):
            return ty[1] * self.tysize(ty[2])
        if ty[0] == "s":
            return ty[2]
        return 0

    def zero(self, ty):
        if ty[0] == "s":
            return Agg([self.zero(t) for _, t in ty[3]])
        if ty[0] == "a":
            return Agg([self.zero(ty[2])] * ty[1])
        if ty[0] == "p":
            return NULL
        if ty[0] == "i":
            return Lin(0) if ty[1] > 1 else False
        return ("zero", str(ty))

    def constagg(self, o):
        return ("constagg", json.dumps(o))

    def alloca(self, st, o, ins):
        pass

    def loaded(self, st, v, ty):
        if ty[0] == "p" and isinstance(v, tuple) and v and v[0] == "el":
            return Ptr(v, Lin(0))
        if ty == ["i", 64] and isinstance(v, Ptr):
            return v
        return v

    def wideload(self, st, b, reg, idx, size, ty, ins):
        raise Undecided("%d-byte read of %d-byte elements" % (size, reg[1]))

    def widestore(self, st, b, reg, idx, size, v):
        raise Undecided("%d-byte write of %d-byte elements" % (size, reg[1]))

    def partial_load(self, st, b, k, size, ty):
        raise Undecided("partial field read")

    def partial_store(self, st, o, fo, fs, k, size):
        raise Undecided("partial field write")

    def lazyload(self, st, b, k, size, ty):
        o = st.mem[b]
        if o.init is None:
            return UNDEF
        raise Undecided("lazy field %d of %s" % (k, o.name))

    def lazyfields(self, st, sb, so, n, vals):
        raise Undecided("copy of a lazily initialised object")

    def layout_fields(self, st, b, off, n):
        return []

    def lazy_merge(self, A, B, oid, k):
        return None

    def lazy_same(self, s, ref, oid, k):
        return False

    def wrote(self, st, b, k):
        pass

    def access(self, st, p, ins, write):
        pass

    def slotread(self, st, v):
        """a single array slot is read"""

    def content_eq(self, st, a, b, lo, hi):
        return False

    def bounds(self, st):
        return []

    def ptrscale(self, st, p):
        """element size of the array p points into"""
        o = st.mem.get(p.base)
        if o is None:
            raise Undecided("loop pointer base")
        for r in o.regions:
            if st.cons.entails(p.off - r[0]) and st.cons.entails(Lin(r[0] + r[1] * r[2]) - p.off) and (p.off - r[0]).divisible(r[1]):
                return r[1]
        raise Undecided("loop pointer not into an array")

    def ptridx(self, st, p):
        o = st.mem.get(p.base)
        if o is None:
            return None
        for r in o.regions:
            if st.cons.entails(p.off - r[0]) and st.cons.entails(Lin(r[0] + r[1] * r[2]) - p.off) and (p.off - r[0]).divisible(r[1]):
                return (p.off - r[0]).div(r[1])
        return None

    def lazycond(self, st, c):
        if c[1] == "undef":
            self.I.report("uninit", "branch depends on an uninitialised value", st)
            raise PathEnd()
        return None

    def toint(self, st, v):
        return None

    def icmp(self, st, pred, a, b, ins):
        return None

    def fcmp(self, st, pred, a, b, ins):
        raise Undecided("fcmp")

    def bitop(self, st, op, a, b, ins):
        return None

    def unlane(self, st, a):
        return a

    def mul(self, st, a, b):
        raise Undecided("non-linear product")

    def udiv(self, st, a, b):
        raise Undecided("division by a symbolic value")

    def urem(self, st, a, b):
        raise Undecided("remainder by a symbolic value")

    def bitand(self, st, a, b):
        raise Undecided("bitwise and")

    def bitor(self, st, a, b):
        raise Undecided("bitwise or")

    def cast(self, st, op, v, ins):
        return None

    def insertel(self, st, v, x, i, ins):
        raise Undecided("vector element")

    def extractel(self, st, v, i, ins):
        raise Undecided("vector element")

    def shufflevec(self, st, a, b, mask, ins):
        raise Undecided("vector shuffle")

    def vecop(self, st, op, a, b, ins):
        raise Undecided("vector op")

    def veccast(self, st, op, v, ins):
        raise Undecided("vector cast")

    def vecbitcast(self, st, v, ins):
        raise Undecided("vector bitcast")

    def veccmp(self, st, pred, a, b, ins):
        raise Undecided("vector compare")

    def vecselect(self, st, c, a, b, ins):
        raise Undecided("vector select")

    def unreachable(self, st, ins):
        pass

    def callhook(self, st, cn, args, ins):
        return None

    def memset(self, st, p, v, n, ins):
        raise Undecided("memset")

    def intrinsic(self, st, cn, args, ins):
        return None

    def terminate(self, st, ins):
        """an exception leaves a function that must not throw"""
        self.I.report("throw", "a failure ends the program: an exception leaves a function declared noexcept", st)

    def external(self, st, cn, args, ins):
        if cn == "__cxa_allocate_exception":
            oid = st.newoid()
            st.mem[oid] = Obj("heap", "exception object")
            return [(st, "ret", Ptr(oid, Lin(0)))]
        if cn in ("__cxa_throw", "__cxa_rethrow"):
            st.ev = st.ev + (("throw",),)
            if cn == "__cxa_rethrow":
                t = st.ms.get("caught", ())
                return [(st, "throw", t[-1] if t else None)]
            t = args[1]
            return [(st, "throw", t.base[2:] if isinstance(t, Ptr) and str(t.base).startswith("g:") else None)]
        if cn == "__cxa_free_exception":
            return [(st, "ret", None)]
        if cn == "__cxa_end_catch":
            st.ms["caught"] = st.ms.get("caught", ())[:-1]
            if not st.ms["caught"]:
                del st.ms["caught"]
            return [(st, "ret", None)]
        if cn == "__cxa_begin_catch":
            b = args[0].base if isinstance(args[0], Ptr) else ""
            st.ms["caught"] = st.ms.get("caught", ()) + (b[4:] if str(b).startswith("exc:") else None,)
            return [(st, "ret", Ptr("exc", Lin(0)))]
        if cn.startswith("_ZNSt13runtime_errorC") or cn.startswith("_ZNSt12out_of_rangeC") or \
                cn.startswith("_ZNSt11logic_errorC") or cn.startswith("_ZNSt16invalid_argumentC") or \
                cn.startswith("_ZNSt12length_errorC") or cn.startswith("_ZNSt9bad_alloc"):
            return [(st, "ret", None)]
        if cn.startswith("_ZSt") and "throw" in cn:
            st.ev = st.ev + (("throw",),)
            return [(st, "throw", None)]
        if cn in ("__clang_call_terminate", "_ZSt9terminatev"):
            self.terminate(st, ins)
            return []
        if cn == "abort":
            return []
        raise Undecided("external function %s" % cn)
