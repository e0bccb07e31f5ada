"""Abstract models of the containers on top of the interpreter: what an arbitrary
well-formed container looks like (the pre-state), and what each operation must
leave behind (the post-condition).  All of it is symbolic in sizes, positions and
contents; nothing is executed."""
import traceback
import re
from runner import SoftTimeout
from lin import Lin, L
from absint import (Ptr, NULL, UNDEF, Agg, NeedSplit, PathEnd, Undecided, Obj, State, World, Interp,
                    nsym, split_ge, split_eq, locstr)


class LayoutError(Exception):
    pass


class DMLayout:
    """byte layout of one dense_map instantiation, taken from debug info"""

    def __init__(self, comp, length):
        self.comp = comp
        self.size = comp["size"]
        self.length = length
        ms = [m for m in comp["members"]]
        by = {m[0]: m for m in ms}
        arrs = [m for m in ms if m[2][0] in ("comp", "arr") and m[2][-1] and m[2][-1] >= length and
                (m[2][0] == "arr" or str(m[2][1]).startswith("array<"))]
        k = by.get("keys_") or (arrs[0] if len(arrs) > 0 else None)
        v = by.get("values_") or (arrs[1] if len(arrs) > 1 else None)
        s = by.get("size_")
        if s is None:
            c = [m for m in ms if m[2][0] == "base" and m[2][2] >= 1]
            s = c[0] if len(c) == 1 else None
        if k is None or v is None or s is None:
            raise LayoutError("dense_map layout not recognised: %s" % [m[0] for m in ms])
        self.koff, self.voff, self.soff = k[1], v[1], s[1]
        self.ssz = s[2][2]
        self.ksz = k[2][-1] // length
        self.vsz = v[2][-1] // length
        cm = by.get("comp_")
        self.coff = cm[1] if cm is not None and cm[2][-1] > 1 else None

    def regions(self, base=0, pre=""):
        return ((base + self.koff, self.ksz, self.length, pre + "keys"),
                (base + self.voff, self.vsz, self.length, pre + "vals"))


def find_comp(prog, pred):
    for t in prog.di:
        if t["name"] and pred(t):
            return t
    raise LayoutError("type not found")


def dm_layout(prog, key, val, length, extra=""):
    pat = re.compile(r"^dense_map<%s, %s, %dUL, .*%s" % (re.escape(key) if key else "[^,]*", re.escape(val), length, extra))
    return DMLayout(find_comp(prog, lambda t: bool(pat.match(t["name"])) and not t["name"].endswith("iterator<false>")), length)


def where(e):
    t = traceback.extract_tb(e.__traceback__)[-1]
    return "%s %s (%s:%d)" % (type(e).__name__, e, t.filename.split("/")[-1], t.lineno)


class Ctx:
    """one analysed entry: interpreter + obligations"""

    def __init__(self, prog, world):
        self.I = Interp(prog, world)
        self.W = world
        self.obl = 0       # obligations discharged
        self.finals = 0

    def forall(self, st, f):
        """run f on st, splitting the state as needed"""
        stack = [st]
        n = 0
        while stack:
            s = stack.pop()
            n += 1
            if n > 4000:
                self.I.undecide("post-condition needs too many case splits")
                return
            try:
                f(s.copy())
            except NeedSplit as e:
                for alt in e.alts:
                    s2 = s.copy()
                    if s2.assume(alt):
                        stack.append(s2)
            except PathEnd:
                pass
            except Undecided as e:
                self.I.undecide("post-condition: %s" % e.msg)
            except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
                self.I.undecide("post-condition cannot follow the state: %s" % where(e))

    def run(self, name, st, args, post):
        I = self.I
        I.entry = name
        fn = I.P.fns.get(name)
        if fn is None or fn.decl:
            raise LayoutError("entry %s missing" % name)
        st0 = st.copy()
        before, I.viols = I.viols, []
        try:
            self.analyse(name, fn, st, args, post)
        except SoftTimeout:
            I.undecide("%s: time limit" % name)
        if I.viols:
            self.confirm(name, fn, st0, args, post)
        I.viols = before + I.viols

    CONFIRM = 5
    UNROLL = True      # follow loops iteration by iteration when an alarm is confirmed

    def confirm(self, name, fn, st0, args, post):
        """Every alarm is re-derived with its witness fixed as the initial state (loops are then
        followed iteration by iteration, nothing is generalised); an alarm that does not persist
        is imprecision of the abstraction and is reported as undecided instead."""
        from absint import Interp
        from lin import SYMNAMES
        I = self.I
        obl, fin, unroll = self.obl, self.finals, self.W.unroll
        tries, good = {}, {}
        for v in I.viols:
            cat = v["cat"]
            if cat in good or tries.get(cat, 0) >= self.CONFIRM:
                continue
            tries[cat] = tries.get(cat, 0) + 1
            for wit in self.witnesses(v):
                J = type(I)(I.P, self.W)
                J.noloop = self.UNROLL
                J.addr, J.addrinv = I.addr, I.addrinv
                J.entry = name
                self.I = J
                self.W.unroll = 500
                s = st0.copy()
                ok = True
                for sy, val in wit.items():
                    if "#" not in SYMNAMES[sy]:
                        ok = ok and s.assume([Lin(-val, ((sy, 1),)), Lin(val, ((sy, -1),))])
                try:
                    if ok:
                        self.analyse(name, fn, s, args, post)
                finally:
                    self.I = I
                    self.W.I = I
                    self.W.unroll = unroll
                for x in J.viols:
                    good.setdefault(x["cat"], (v, x))
                if cat in good:
                    break
        self.obl, self.finals = obl, fin
        old = I.viols
        I.viols = []
        for cat, (v, x) in good.items():
            x["abstract"] = v["msg"]
            if x["loc"] == "?":
                x["loc"] = v["loc"]
            I.viols.append(x)
        for v in old:
            if v["cat"] not in good:
                I.undecide("alarm not confirmed: %s: %s at %s" % (v["cat"], v["msg"], v["loc"]))

    def witnesses(self, v):
        """the recorded point of an alarm's state, then points extreme in the initial quantities"""
        from lin import SYMNAMES
        yield v["wsyms"]
        syms = [y for y in sorted(v["wsyms"]) if "#" not in SYMNAMES[y] and "?" not in SYMNAMES[y] and "/" not in SYMNAMES[y]][:6]
        seen = [v["wsyms"]]

        def push(c, y, sign):
            # move symbol y as far as c allows (at most 1024 away)
            base = c.witness()
            if base is None:
                return c
            lo, hi = 0, 1024
            x0 = base.get(y, 0)
            while lo < hi:
                mid = (lo + hi + 1) // 2
                if c.feasible_with(Lin(-sign * x0 - mid, ((y, sign),))):
                    lo = mid
                else:
                    hi = mid - 1
            c = c.copy()
            c.add(Lin(-sign * x0 - lo, ((y, sign),)))
            return c
        alts = [[(y, 1)] for y in syms] + [[(y, 1) for y in syms], [(y, 1) for y in reversed(syms)]] + [[(y, -1)] for y in syms]
        for alt in alts:
            c = v["cons"].copy()
            for y, sign in alt:
                c = push(c, y, sign)
            w = c.witness()
            if w is not None and w not in seen:
                seen.append(w)
                yield w

    def analyse(self, name, fn, st, args, post):
        I = self.I
        try:
            outs = I.call(fn, args, st)
        except Undecided as e:
            I.undecide("%s: %s" % (name, e.msg))
            return
        except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
            I.undecide("%s: cannot follow the code: %s" % (name, where(e)))
            return
        rets = [r for r in fn.blocks if r[-1]["op"] in ("ret", "resume")]
        I.curins = rets[0][-1] if rets else None
        for s, k, v in outs:
            self.finals += 1
            I.stats["paths"] += 1
            self.forall(s, lambda s2, k=k, v=v: post(s2, k, v))

    # obligation helpers (inside forall)
    def require(self, st, cond, cat, msg):
        self.obl += 1
        r = self.I.tri(st, cond) if not isinstance(cond, bool) else cond
        if r is True:
            return True
        if r is None:
            # find a refuting half if it is non-empty
            self.I.needsplit(st, cond)
        self.I.report(cat, msg, st)
        return False

    def match(self, st, A, B):
        """segment lists equal as sequences; splits when needed.  -> True/False"""
        I = self.I
        A = [s for s in A]
        B = [s for s in B]
        pos = Lin(0)
        i = j = 0
        while True:
            while i < len(A) and I.decide(st, ("ge", pos - A[i][1]) if (pos - A[i][1]).t else (pos - A[i][1]).c >= 0):
                i += 1
            while j < len(B) and I.decide(st, ("ge", pos - B[j][1]) if (pos - B[j][1]).t else (pos - B[j][1]).c >= 0):
                j += 1
            if i >= len(A) or j >= len(B):
                return i >= len(A) and j >= len(B)
            ha, hb = A[i][1], B[j][1]
            d = hb - ha
            h = ha if I.decide(st, ("ge", d) if d.t else d.c >= 0) else hb
            if not self.ceq(st, A[i][2], B[j][2], pos, h):
                return False
            pos = h

    def ceq(self, st, a, b, lo, hi):
        I = self.I
        if a == b:
            return a[0] != "undef"
        if a[0] == "src" and b[0] == "src":
            if a[1] != b[1]:
                return I.W.content_eq(st, a, b, lo, hi)
            d = a[2] - b[2]
            return I.decide(st, ("eq", d) if d.t else d.c == 0)
        if "undef" in (a[0], b[0]):
            return False
        if a[0] == "val" and b[0] == "val":
            x, y = a[1], b[1]
            if isinstance(x, Lin) and isinstance(y, Lin):
                d = x - y
                return I.decide(st, ("eq", d) if d.t else d.c == 0)
            return I.eqv(st, x, y) or self.sameel(st, x, y) or I.W.content_eq(st, a, b, lo, hi)
        if {a[0], b[0]} == {"src", "val"}:
            (_, arr, off), (_, y) = (a, b) if a[0] == "src" else (b, a)
            d = hi - lo - 1
            if I.decide(st, ("eq", d) if d.t else d.c == 0) and self.sameel(st, ("el", arr, off + lo), y):
                return True
        return I.W.content_eq(st, a, b, lo, hi)

    def sameel(self, st, x, y):
        if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "el" and y[0] == "el" and x[1] == y[1]):
            return False
        d = x[2] - y[2]
        return self.I.decide(st, ("eq", d) if d.t else d.c == 0)


def seq(parts):
    """[(len, content)] -> positioned segments; src contents are given relative to
    the source start index: ('src', arr, start)"""
    out = []
    p = Lin(0)
    for n, c in parts:
        n = L(n)
        if c[0] == "src":
            c = ("src", c[1], L(c[2]) - p)
        out.append((p, p + n, c))
        p = p + n
    return out, p


class MapWorld(World):
    """worlds with keys ordered by vp_less and one search key X"""
    unroll = 70

    def __init__(self):
        World.__init__(self)
        self.arrs = {}     # array name -> dict(cut, eq, rank)
        self.openpairs = {}
        self.layouts = []  # DMLayout list for local objects
        self.vless = 0

    # ---- pre-state helpers
    def keyarr(self, name, n, cut=None, q=None, rank=0):
        self.arrs[name] = {"n": n, "cut": cut, "q": q, "rank": rank}

    def mkdm(self, st, oid, lay, name, n, kname=None, vname=None, kind="heap", size=None, base=0):
        o = Obj(kind, name, size=lay.size if size is None else size, align=64, regions=lay.regions(base))
        if isinstance(n, Lin) and n.isconst() and n.c == 0:
            o.arr["keys"] = ((Lin(0), Lin(lay.length), ("undef",)),)
            o.arr["vals"] = ((Lin(0), Lin(lay.length), ("undef",)),)
        else:
            o.arr["keys"] = ((Lin(0), n, ("src", kname, Lin(0))), (n, Lin(lay.length), ("undef",)))
            o.arr["vals"] = ((Lin(0), n, ("src", vname, Lin(0))), (n, Lin(lay.length), ("undef",)))
        o.fields[base + lay.soff] = (lay.ssz, n)
        st.mem[oid] = o
        return Ptr(oid, Lin(0))

    def rawdm(self, st, oid, lay, name):
        o = Obj("heap", name, size=lay.size, align=64, regions=lay.regions())
        for r in ("keys", "vals"):
            o.arr[r] = ((Lin(0), Lin(lay.length), ("undef",)),)
        st.mem[oid] = o
        return Ptr(oid, Lin(0))

    def scalar(self, st, oid, val=None, size=8, kind="heap", name=None):
        o = Obj(kind, name or str(oid), size=size, align=8)
        if val is not None:
            o.fields[0] = (size, val)
        st.mem[oid] = o
        return Ptr(oid, Lin(0))

    def alloca(self, st, o, ins):
        for lay in self.layouts:
            if ins["size"] == lay.size:
                o.regions = lay.regions()
                for r in ("keys", "vals"):
                    o.arr[r] = ((Lin(0), Lin(lay.length), ("undef",)),)

    def bounds(self, st):
        return self.bnd

    bnd = ()

    # ---- ordering oracle
    def less(self, st, a, b):
        if a == UNDEF or b == UNDEF:
            self.I.report("uninit", "comparison reads an unoccupied slot", st)
            raise PathEnd()
        if a == b:
            return False
        ka = a[0] if isinstance(a, tuple) else None
        kb = b[0] if isinstance(b, tuple) else None
        if ka == "el" and kb == "X":
            A = self.arrs.get(a[1])
            if A and A["cut"] is not None:
                return ("ge", A["cut"] - a[2] - 1)
        if ka == "X" and kb == "el":
            A = self.arrs.get(b[1])
            if A and A["cut"] is not None:
                return ("ge", b[2] - A["cut"] - A["q"])
        if ka == "el" and kb == "el":
            if a[1] == b[1]:
                d = b[2] - a[2] - 1
                return ("ge", d) if d.t else d.c >= 0
            A, B = self.arrs.get(a[1]), self.arrs.get(b[1])
            if A and B and A["rank"] is None and B["rank"] is None:
                return self.openless(st, a, b)
            if A and B and A["rank"] != B["rank"]:
                return A["rank"] < B["rank"]
        raise Undecided("order of %r and %r" % (a, b))

    def openless(self, st, a, b):
        """keys of two sorted arrays nothing relates: either outcome, the outcomes of all the
        comparisons of a path being those of some two strictly increasing sequences"""
        from lin import SYMNAMES
        swap = a[1] > b[1]
        x, y = (b, a) if swap else (a, b)
        if any("#" in SYMNAMES[v] for e in (x[2], y[2]) for v, _ in e.t):
            raise Undecided("order of %r and %r" % (a, b))
        nm = "%s[%s]:%s[%s]" % (x[1], x[2], y[1], y[2])
        lt, gt = nsym("lt:" + nm), nsym("gt:" + nm)
        for c in (lt, gt, 1 - lt - gt):
            st.cons.add(c)
        for i, j, l2, g2 in self.openpairs.setdefault((x[1], y[1]), {}).values():
            if l2 == lt:
                continue
            for (i1, j1, l1, g1), (i2, j2, lb, gb) in (((x[2], y[2], lt, gt), (i, j, l2, g2)), ((i, j, l2, g2), (x[2], y[2], lt, gt))):
                di, dj = i2 - i1, j1 - j2
                if all(self.I.tri(st, ("ge", d) if d.t else d.c >= 0) is True for d in (di, dj)):
                    st.cons.add(gb - g1)
                    st.cons.add(l1 - lb)
                    d = di + dj - 1
                    if self.I.tri(st, ("ge", d) if d.t else d.c >= 0) is True:
                        st.cons.add(gb + l1 - 1)
        self.openpairs[x[1], y[1]][nm] = (x[2], y[2], lt, gt)
        return ("ge", (gt if swap else lt) - 1)

    def equiv(self, st, a, b):
        from absint import cand, cnot
        x, y = self.less(st, a, b), self.less(st, b, a)
        for z in (x, y):
            pass
        def simp(c):
            if isinstance(c, tuple) and c[0] == "ge" and not c[1].t:
                return c[1].c >= 0
            return c
        return cand(cnot(simp(x)), cnot(simp(y)))

    def external(self, st, cn, args, ins):
        if cn in ("vp_less", "vp_keq"):
            self.vless += 1
            a = self.I.load(st, self.I.topt(st, args[0]), 8, ["i", 64])
            b = self.I.load(st, self.I.topt(st, args[1]), 8, ["i", 64])
            r = self.less(st, a, b) if cn == "vp_less" else self.equiv(st, a, b)
            if isinstance(r, tuple) and r[0] == "ge" and not r[1].t:
                r = r[1].c >= 0
            return [(st, "ret", r)]
        if cn in ("vp_copy", "vp_dflt"):
            s2 = st.copy()
            s2.ev = s2.ev + (("badvalue",),)
            return [(s2, "throw", None), (st, "ret", args[0] if cn == "vp_copy" else Lin(0))]
        return World.external(self, st, cn, args, ins)

    def bothcmp(self):
        pass


# ------------------------------------------------------------------ dense_map
class DMCheck:
    """obligations of every dense_map operation for one instantiation"""

    def __init__(self, prog, length, key="K", val="V", trackval=True, length2=None):
        self.P = prog
        self.N = length
        self.lay = dm_layout(prog, key, val, length)
        self.N2 = length2 or length      # capacity of the second map of two-map operations
        self.lay2 = dm_layout(prog, key, val, self.N2)

    def ctx(self):
        w = MapWorld()
        w.layouts = [self.lay] + ([self.lay2] if self.N2 != self.N else [])
        c = Ctx(self.P, w)
        return c, w

    def pre(self, w, st, found=None, nmin=0):
        n, c, q = nsym("n"), nsym("c"), nsym("q")
        st.cons.add(n - nmin)
        st.cons.add(Lin(self.N) - n)
        st.cons.add(c)
        st.cons.add(q)
        st.cons.add(Lin(1) - q)
        st.cons.add(n - c - q)
        w.keyarr("k", n, c, q)
        w.bnd = (n, c, c + q, Lin(self.N))
        m = w.mkdm(st, "M", self.lay, "map", n, "k", "v")
        return m, n, c, q

    def args(self, w, st):
        k = w.scalar(st, "karg", ("X",), kind="const", name="key argument")
        v = w.scalar(st, "varg", ("VX",), kind="const", name="value argument")
        idx = w.scalar(st, "idx", name="result index")
        ins = w.scalar(st, "ins", size=1, name="result flag")
        return k, v, idx, ins

    # -- helpers for post-conditions
    def fld(self, st, oid, off=0):
        f = st.mem[oid].fields.get(off)
        return f[1] if f else UNDEF

    def content(self, C, st, oid, parts_k, parts_v, what):
        """the object holds exactly the given key and value sequences"""
        o = st.mem[oid]
        n = self.fld(st, oid, (self.lay2 if oid == "M2" else self.lay).soff)
        if not isinstance(n, Lin):
            C.require(st, False, "content", "%s: size is not set" % what)
            return
        ek, nk = seq(parts_k)
        ev, nv = seq(parts_v)
        d = n - nk
        if not C.require(st, ("eq", d) if d.t else d.c == 0, "size", "%s: size() does not equal the number of elements" % what):
            return
        for r, e, nm in (("keys", ek, "key"), ("vals", ev, "value")):
            C.obl += 1
            got = C.I.seg_slice(st, o.arr[r], Lin(0), n)
            if not C.match(st, got, e):
                C.I.report("content", "%s: stored %s sequence differs from the required one" % (what, nm), st)

    def same(self, C, st, oid, n, what, k="k", v="v"):
        self.content(C, st, oid, [(n, ("src", k, 0))], [(n, ("src", v, 0))], what)

    def eqres(self, C, st, oid, exp, what):
        g = self.fld(st, oid)
        if not isinstance(g, Lin):
            C.require(st, False, "result", "%s is not set" % what)
            return
        d = g - L(exp)
        C.require(st, ("eq", d) if d.t else d.c == 0, "result", "%s is wrong" % what)

    def flag(self, C, st, oid, exp, what):
        g = self.fld(st, oid)
        if isinstance(g, Lin):
            r = C.I.decide(st, ("ne", g) if g.t else g.c != 0)
        elif isinstance(g, (tuple, bool)) and g != UNDEF:
            r = C.I.decide(st, g)
        else:
            r = None
        C.require(st, r is exp, "result", "%s is wrong" % what)

    def isfull(self, C, st, n):
        return C.I.decide(st, ("ge", n - self.N))

    def isfound(self, C, st, q):
        return C.I.decide(st, ("ge", q - 1))

    # -- operations
    def op_insertlike(self, entry, mode, alias=False):
        """alias: the value given is a reference to a value stored in the same map"""
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st)
        k, v, idx, ins = self.args(w, st)
        VX = ("VX",)
        if alias:
            j = nsym("j")
            st.cons.add(j)
            st.cons.add(n - j - 1)
            w.bnd += (j,)
            v = Ptr("M", j * self.lay.vsz + self.lay.voff)
            VX = ("el", "v", j)
        taken = mode == "arg"
        if taken:
            # the value is made from an argument that gives something away
            mode = "emplace"
            st.mem["varg"].kind = "heap"
        if mode == "hint":
            args = [m, c, k, v, idx, ins]
        elif mode == "sub":
            st.mem["ref"] = Obj("heap", "result reference", size=8)
            args = [m, k, Ptr("ref", Lin(0))]
        else:
            args = [m, k, v, idx, ins]

        def post(s, kind, val):
            what = entry
            found = self.isfound(C, s, q)
            full = self.isfull(C, s, n)
            early = mode in ("insert", "hint", "emplace")
            throws = full and (early or not found)
            if kind == "throw":
                C.require(s, throws or ("badvalue",) in s.ev, "throw", "%s throws although there is room" % what)
                self.same(C, s, "M", n, what + " after throwing")
                return
            if not C.require(s, (not throws) or (found and early), "throw", "%s on a full container does not throw" % what):
                return
            if found:
                if taken:
                    C.require(s, s.mem["varg"].fields[0][1] == ("VX",), "content", what + " of a present key uses up its argument")
                if mode == "assign":
                    self.content(C, s, "M", [(n, ("src", "k", 0))],
                                 [(c, ("src", "v", 0)), (1, ("val", VX)), (n - c - 1, ("src", "v", c + 1))], what)
                else:
                    self.same(C, s, "M", n, what + " of a present key")
            else:
                nv = ("val", VX) if mode != "sub" else ("val", Lin(0))
                self.content(C, s, "M",
                             [(c, ("src", "k", 0)), (1, ("val", ("X",))), (n - c, ("src", "k", c))],
                             [(c, ("src", "v", 0)), (1, nv), (n - c, ("src", "v", c))], what)
            if mode == "sub":
                g = self.fld(s, "ref")
                ok = isinstance(g, Ptr) and g.base == "M" and C.I.decide(s, ("eq", g.off - self.lay.voff - c * self.lay.vsz) if
                                                                        (g.off - self.lay.voff - c * self.lay.vsz).t else
                                                                        (g.off - self.lay.voff - c * self.lay.vsz).c == 0)
                C.require(s, ok, "result", "reference returned by operator[] is not the element's value")
            else:
                self.eqres(C, s, "idx", c, "position returned by " + what)
                self.flag(C, s, "ins", not found, "inserted flag returned by " + what)
        C.run(entry, st, args, post)
        return C

    def op_lookup(self, entry, mode):
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st)
        k, v, idx, ins = self.args(w, st)

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "%s throws" % entry):
                return
            self.same(C, s, "M", n, entry)
            if mode == "lower":
                e = c
            elif mode == "upper":
                e = c + q
            else:
                e = c if self.isfound(C, s, q) else n
            self.eqres(C, s, "idx", e, "position returned by " + entry)
        C.run(entry, st, [m, k, idx], post)
        return C

    def op_erase_it(self, entry):
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st, nmin=1)
        k, v, idx, ins = self.args(w, st)
        h = nsym("h")
        st.cons.add(h)
        st.cons.add(n - h - 1)

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "erase throws"):
                return
            self.content(C, s, "M", [(h, ("src", "k", 0)), (n - h - 1, ("src", "k", h + 1))],
                         [(h, ("src", "v", 0)), (n - h - 1, ("src", "v", h + 1))], entry)
            self.eqres(C, s, "idx", h, "position returned by erase")
        C.run(entry, st, [m, h, idx], post)
        return C

    def op_erase_key(self, entry, alias=False):
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st)
        k, v, idx, ins = self.args(w, st)
        if alias:
            # the key given is a reference to the stored key itself
            st.cons.add(q - 1)
            k = Ptr("M", c * self.lay.ksz + self.lay.koff)

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "erase throws"):
                return
            if self.isfound(C, s, q):
                self.content(C, s, "M", [(c, ("src", "k", 0)), (n - c - 1, ("src", "k", c + 1))],
                             [(c, ("src", "v", 0)), (n - c - 1, ("src", "v", c + 1))], entry)
                self.eqres(C, s, "idx", 1, "count returned by erase(key)")
            else:
                self.same(C, s, "M", n, entry)
                self.eqres(C, s, "idx", 0, "count returned by erase(key)")
        C.run(entry, st, [m, k, idx], post)
        return C

    def op_update_key(self, entry):
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st, nmin=1)
        k, v, idx, ins = self.args(w, st)
        h = nsym("h")
        st.cons.add(h)
        st.cons.add(n - h - 1)

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "unsafe_update_key throws"):
                return
            self.content(C, s, "M", [(h, ("src", "k", 0)), (1, ("val", ("X",))), (n - h - 1, ("src", "k", h + 1))],
                         [(n, ("src", "v", 0))], entry)
        C.run(entry, st, [m, h, k], post)
        return C

    def two(self, w, st, rank1=0, rank2=1):
        """two well-formed maps, all keys of one below the other's"""
        m, n, c, q = self.pre(w, st)
        n2 = nsym("n2")
        st.cons.add(n2)
        st.cons.add(Lin(self.N2) - n2)
        w.arrs["k"]["rank"] = rank1
        w.keyarr("k2", n2, rank=rank2)
        m2 = w.mkdm(st, "M2", self.lay2, "map2", n2, "k2", "v2")
        w.bnd = (n, n2, Lin(self.N)) + ((Lin(self.N2),) if self.N2 != self.N else ())
        return m, n, m2, n2

    def op_split(self, entry):
        C, w = self.ctx()
        st = State()
        m, n, m2, n2 = self.two(w, st)
        h = nsym("h")
        st.cons.add(h)
        st.cons.add(n - h)
        w.bnd = w.bnd + (h,)

        def post(s, kind, val):
            empty = C.I.decide(s, ("eq", n2))
            fits = self.N2 == self.N or C.I.decide(s, ("ge", Lin(self.N2) - n + h))
            if kind == "throw":
                C.require(s, not (empty and fits), "throw", "split_at into an empty container throws although it fits")
                self.same(C, s, "M", n, entry)
                self.same(C, s, "M2", n2, entry, "k2", "v2")
                return
            if not C.require(s, empty, "throw", "split_at into a non-empty container does not throw"):
                return
            if not C.require(s, fits, "throw", "split_at into a container that is too small does not throw"):
                return
            self.same(C, s, "M", h, entry + " (left part)")
            self.content(C, s, "M2", [(n - h, ("src", "k", h))], [(n - h, ("src", "v", h))], entry + " (right part)")
        C.run(entry, st, [m, h, m2], post)
        return C

    def op_transfer(self, entry, prefix):
        C, w = self.ctx()
        st = State()
        m, n, m2, n2 = self.two(w, st, 0 if prefix else 1, 1 if prefix else 0)
        t = nsym("t")
        st.cons.add(t)
        st.cons.add(Lin(2 * max(self.N, self.N2)) - t)
        w.bnd = w.bnd + (t, n2 - t, n + t)

        def post(s, kind, val):
            ok = C.I.decide(s, ("ge", n2 - t)) and C.I.decide(s, ("ge", Lin(self.N) - n - t))
            if kind == "throw":
                C.require(s, not ok, "throw", "%s throws although it fits" % entry)
                self.same(C, s, "M", n, entry)
                self.same(C, s, "M2", n2, entry, "k2", "v2")
                return
            if not C.require(s, ok, "throw", "%s beyond source size or capacity does not throw" % entry):
                return
            if prefix:
                self.content(C, s, "M", [(n, ("src", "k", 0)), (t, ("src", "k2", 0))],
                             [(n, ("src", "v", 0)), (t, ("src", "v2", 0))], entry + " (destination)")
                self.content(C, s, "M2", [(n2 - t, ("src", "k2", t))], [(n2 - t, ("src", "v2", t))], entry + " (source)")
            else:
                self.content(C, s, "M", [(t, ("src", "k2", n2 - t)), (n, ("src", "k", 0))],
                             [(t, ("src", "v2", n2 - t)), (n, ("src", "v", 0))], entry + " (destination)")
                self.content(C, s, "M2", [(n2 - t, ("src", "k2", 0))], [(n2 - t, ("src", "v2", 0))], entry + " (source)")
        C.run(entry, st, [m, m2, t], post)
        return C

    def op_copy(self, entry, mode):
        C, w = self.ctx()
        st = State()
        if mode in ("copyctor", "movector"):
            m, n, c, q = self.pre(w, st)
            p = w.rawdm(st, "M2", self.lay, "new map")
            args = [p, m]
        elif mode == "self":
            m, n, c, q = self.pre(w, st)
            args = [m, m]
        else:
            m, n, m2, n2 = self.two(w, st, None, None)
            args = [m2, m]

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "%s throws" % entry):
                return
            if mode == "self":
                self.same(C, s, "M", n, entry)
                return
            self.same(C, s, "M2", n, entry + " (target)")
            if mode.startswith("copy"):
                self.same(C, s, "M", n, entry + " (source)")
            else:
                self.content(C, s, "M", [], [], entry + " (moved-from source)")
        C.run(entry, st, args, post)
        return C

    def op_clear(self, entry):
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st)

        def post(s, kind, val):
            C.require(s, kind == "ret", "throw", "clear throws")
            self.content(C, s, "M", [], [], entry)
        C.run(entry, st, [m], post)
        return C

    def op_observers(self, entry):
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st)
        out = Obj("heap", "out", size=32)
        st.mem["out"] = out

        def post(s, kind, val):
            C.require(s, kind == "ret", "throw", "observer throws")
            self.same(C, s, "M", n, entry)
            for off, e in ((0, n), (8, Lin(self.N))):
                g = self.fld(s, "out", off)
                d = (g if isinstance(g, Lin) else Lin(-7)) - e
                C.require(s, ("eq", d) if d.t else d.c == 0, "result", "size()/capacity() is wrong")
            for off, cond, nm in ((16, ("eq", n), "empty()"), (17, ("eq", n - self.N), "full()")):
                g = self.fld(s, "out", off)
                if isinstance(g, Lin):
                    g = ("ne", g) if g.t else g.c != 0
                r = C.I.decide(s, g)
                C.require(s, r == C.I.decide(s, cond), "result", nm + " is wrong")
        C.run(entry, st, [m, Ptr("out", Lin(0))], post)
        return C

    def op_iter(self, entry, rev=False):
        """dereference, arithmetic and comparison of iterators"""
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st, nmin=1)
        h, d = nsym("h"), nsym("d")
        st.cons.add(h)
        st.cons.add(n - h - 1)
        st.cons.add(h + d)
        st.cons.add(n - h - d - 1)
        st.mem["out"] = Obj("heap", "out", size=160)
        kind = "reverse iterator: " if rev else ""

        def at(i):
            return n - 1 - i if rev else L(i)

        def post(s, kind_, val):
            C.require(s, kind_ == "ret", "throw", "iterator operation throws")
            self.same(C, s, "M", n, entry)

            def get(off):
                return self.fld(s, "out", off)

            def isel(off, arr, i, nm):
                g = get(off)
                i = at(i)
                ok = isinstance(g, tuple) and g[0] == "el" and g[1] == arr and \
                    C.I.decide(s, ("eq", g[2] - i) if (g[2] - i).t else (g[2] - i).c == 0)
                C.require(s, ok, "result", kind + nm)
            isel(0, "k", h, "*it does not give the key at its position")
            isel(8, "v", h, "*it does not give the value at its position")
            isel(16, "k", h + d, "*(it + d) is not the element d positions on")
            isel(24, "k", h + d, "it[d] is not the element d positions on")
            isel(32, "v", h + d, "it[d].second is not the value d positions on")
            isel(40, "k", h, "(it + d) - d does not return to it")
            isel(48, "k", h + d, "it += d is not the element d positions on")
            isel(56, "k", h, "it -= d does not return")
            isel(64, "k", h, "++/-- round trip does not return")
            isel(72, "k", n - 1, "*--end() is not the last element")
            isel(80, "k", n - 1, "it-- does not return the old position")
            isel(88, "v", h + d, "begin() + i is not the element at i")
            isel(96, "k", h, "it-> does not give the key at its position")
            isel(104, "k", h, "it++ does not return the old position")
            isel(112, "k", h, "-- after it++ does not return")
            isel(120, "k", n - 1, "++ after it-- does not return")
            isel(128, "k", h, "end() - (end() - it) is not it")
            g = get(136)
            x = (g if isinstance(g, Lin) else Lin(99)) - d
            C.require(s, ("eq", x) if x.t else x.c == 0, "result", kind + "(it + d) - it is not d")
            for off, cond, nm in ((144, ("eq", d), "=="), (145, ("ge", d - 1), "<"), (146, ("ge", d), "<="),
                                  (147, ("ge", -d - 1), ">"), (148, ("ge", -d), ">="), (149, ("ne", d), "!=")):
                g = get(off)
                if isinstance(g, Lin):
                    g = ("ne", g) if g.t else g.c != 0
                r = C.I.decide(s, g)
                C.require(s, r == C.I.decide(s, cond), "result", "%siterator operator%s is wrong" % (kind, nm))
        C.run(entry, st, [m, h, d, Ptr("out", Lin(0))], post)
        return C

    def op_ends(self, entry):
        """ranges span all elements; conversion keeps the position"""
        C, w = self.ctx()
        st = State()
        m, n, c, q = self.pre(w, st)
        h = nsym("h")
        st.cons.add(h)
        st.cons.add(n - h)
        st.mem["out"] = Obj("heap", "out", size=56)

        def post(s, kind, val):
            C.require(s, kind == "ret", "throw", "iterator operation throws")
            self.same(C, s, "M", n, entry)
            for off, e, nm in ((0, n, "end() - begin()"), (8, n, "cend() - cbegin()"), (16, n, "rend() - rbegin()"),
                               (24, n, "crend() - crbegin()"), (40, h, "the position of a converted iterator"),
                               (48, n - h, "the distance of a converted iterator from the end")):
                g = self.fld(s, "out", off)
                d = (g if isinstance(g, Lin) else Lin(-7)) - e
                C.require(s, ("eq", d) if d.t else d.c == 0, "result", nm + " is wrong")
            for off, cond, nm in ((32, ("eq", n), "begin() == end()"), (33, True, "equality of a converted iterator"),
                                  (34, False, "inequality of a converted iterator"), (35, ("eq", n), "rbegin() == rend()")):
                g = self.fld(s, "out", off)
                if isinstance(g, Lin):
                    g = ("ne", g) if g.t else g.c != 0
                C.require(s, C.I.decide(s, g) == C.I.decide(s, cond), "result", nm + " is wrong")
        C.run(entry, st, [m, h, Ptr("out", Lin(0))], post)
        return C

    def op_write(self, entry):
        """writing a value through an iterator changes that value only"""
        C, w = self.ctx()
        for way in range(5):
            st = State()
            m, n, c, q = self.pre(w, st, nmin=1)
            k, v, idx, ins = self.args(w, st)
            h, d = nsym("h"), nsym("d")
            st.cons.add(h)
            st.cons.add(n - h - 1)
            st.cons.add(d)
            st.cons.add(h - d)

            def post(s, kind, val):
                C.require(s, kind == "ret", "throw", "writing through an iterator throws")
                self.content(C, s, "M", [(n, ("src", "k", 0))],
                             [(h, ("src", "v", 0)), (1, ("val", ("VX",))), (n - h - 1, ("src", "v", h + 1))], "writing through an iterator")
            C.run(entry, st, [m, h, d, Lin(way), v], post)
        return C
