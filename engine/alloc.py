"""Allocators and the multi-size pool above the single-size memory pool, whose operations are taken by contract:
every call of a pool is recorded (or may throw); what is decided is which pool is asked for what."""
import re

from absint import (NULL, UNDEF, NeedSplit, Obj, PathEnd, Ptr, State, Undecided, iscond, nsym, split_ge)
from lin import L, Lin
from pool import PoolInterp
from worlds import Ctx, LayoutError, MapWorld, find_comp

KEEP = r"fast_containers::(MultiSize)?HugePagePool::(allocate|deallocate|(MultiSize)?HugePagePool|~(MultiSize)?HugePagePool)\("
KEEP1 = r"fast_containers::HugePagePool::(allocate|deallocate|HugePagePool|~HugePagePool)\("
M64 = (1 << 64) - 1


class AllocWorld(MapWorld):
    def __init__(self):
        MapWorld.__init__(self)
        self.cur = None
        self.off0 = None
        self.names = {}
        self.unroll = 200

    def wildptr(self, l):
        raise Undecided("integer %r used as pointer" % l)

    def which(self, cn):
        if cn not in self.names:
            f = self.I.P.fns.get(cn)
            r = None
            if f is not None:
                m = re.search(r"fast_containers::((?:MultiSize)?HugePagePool)::(~?\w+)\(", f.dem.split(" [")[0])
                if m and m.group(2).lstrip("~") in ("allocate", "deallocate", m.group(1)):
                    r = (m.group(1), {m.group(1): "ctor", "~" + m.group(1): "dtor"}.get(m.group(2), m.group(2)))
            self.names[cn] = r
        return self.names[cn]

    def same(self, st, d):
        return self.I.decide(st, ("eq", d) if d.t else d.c == 0)

    def callhook(self, st, cn, args, ins):
        w = self.which(cn)
        if w is None:
            return None
        I = self.I
        kind, op = w
        p = I.topt(st, args[0])
        if op == "ctor":
            o = st.mem.get(p.base)
            a, c = [I.norm(st, I.toint(st, x)) for x in (args[1], args[3])]
            b = args[2]
            b = I.decide(st, I.tocond(st, b))
            s = st.copy()
            s.w(p.base).meta = ("pool", kind)
            s.ev = s.ev + (("ctor", kind, p.base, a, b, c),)
            bad = st.copy()
            bad.ms["fault"] = True
            return [(s, "ret", None), (bad, "throw", "_ZTISt9bad_alloc")]
        o = st.mem.get(p.base) if isinstance(p.base, str) else None
        if p.base is None:
            I.report("null", "a null pool is used", st)
            raise PathEnd()
        if o is None or not isinstance(o.meta, tuple) or o.meta[:1] != ("pool",) or p.off.t or p.off.c:
            I.report("uaf", "an object that is no pool is used as one", st)
            raise PathEnd()
        if o.freed:
            I.report("uaf", "a destroyed pool is used", st)
            raise PathEnd()
        if op == "dtor":
            s = st.copy()
            s.ev = s.ev + (("dtor", p.base),)
            return [(s, "ret", None)]
        if op == "allocate":
            n, al = [I.norm(st, I.toint(st, x)) for x in args[1:3]]
            s = st.copy()
            s.ms["blocks"] = s.ms.get("blocks", 0) + 1
            oid = "blk:%d" % s.ms["blocks"]
            s.mem[oid] = Obj("heap", "block", size=None, align=1)
            s.ev = s.ev + (("alloc", p.base, n, al, oid),)
            bad = st.copy()
            bad.ms["fault"] = True
            bad.ev = bad.ev + (("alloc", p.base, n, al, None),)
            res = [(s, "ret", Ptr(oid, Lin(0))), (bad, "throw", "_ZTISt9bad_alloc")]
            z = st.copy()
            if z.assume([-n]):
                z.ev = z.ev + (("alloc", p.base, n, al, None),)
                return [(z, "ret", NULL)] + ([x for x in res if x[0].assume([n - 1])])
            return res
        n = I.norm(st, I.toint(st, args[2]))
        q = I.topt(st, args[1])
        s = st.copy()
        s.ev = s.ev + (("free", p.base, q, n),)
        return [(s, "ret", None)]

    # --- the map of pools
    def flag(self, st, name):
        z = nsym(name)
        st.cons.add(z)
        st.cons.add(Lin(1) - z)
        return self.I.decide(st, ("ge", z - 1))

    def node(self, st, key):
        """(state, object of the entry for key, was it there)"""
        I = self.I
        key = I.norm(st, key)
        for k, oid in st.ms.get("nodes", ()):
            if self.same(st, k - key):
                return oid, oid is not None
        i = len(st.ms.get("nodes", ()))
        present = self.flag(st, "present%d" % i)
        oid = None
        if present:
            live = st.ms.get("livekey")
            live = live is not None and self.same(st, live - key)
            has = live or self.flag(st, "haspool%d" % i)
        else:
            live = st.ms.get("livekey")
            if live is not None and self.same(st, live - key):
                raise PathEnd()        # a block of that size is live, so its pool exists
        s = st
        if present:
            oid = "node%d" % i
            o = Obj("heap", "map entry", size=16, align=8)
            o.fields[0] = (8, key)
            o.fields[8] = (8, NULL)
            if has:
                pl = "pool%d" % i
                s.mem[pl] = Obj("heap", "pool of an existing class", size=None, align=8, meta=("pool", "HugePagePool"))
                o.fields[8] = (8, Ptr(pl, Lin(0)))
            s.mem[oid] = o
        s.ms["nodes"] = st.ms.get("nodes", ()) + ((key, oid),)
        return oid, present

    def external(self, st, cn, args, ins):
        I = self.I
        if cn in ("vp_map_find", "vp_map_make"):
            st2 = st.copy()
            key = I.toint(st2, args[1])
            oid, _ = self.node(st2, key)
            if cn == "vp_map_find":
                return [(st2, "ret", Ptr(oid, Lin(0)) if oid else NULL)]
            made = I.topt(st2, args[2])
            if oid is not None:
                I.store(st2, made, 1, Lin(0))
                return [(st2, "ret", Ptr(oid, Lin(0)))]
            bad = st2.copy()
            bad.ms["fault"] = True
            i = len(st2.ms.get("nodes", ()))
            oid = "made%d" % i
            o = Obj("heap", "map entry", size=16, align=8)
            o.fields[0] = (8, I.norm(st2, key))
            o.fields[8] = (8, NULL)
            st2.mem[oid] = o
            k = I.norm(st2, key)
            st2.ms["nodes"] = tuple((a, oid if a == k else b) for a, b in st2.ms["nodes"])
            I.store(st2, made, 1, Lin(1))
            return [(st2, "ret", Ptr(oid, Lin(0))), (bad, "throw", "_ZTISt9bad_alloc")]
        if cn == "vp_map_size":
            x = nsym("entries")
            st.cons.add(x)
            return [(st, "ret", x)]
        if cn == "vp_map_free":
            st.ev = st.ev + (("mapfree",),)
            return [(st, "ret", None)]
        if cn == "vp_map_erase":
            st.ev = st.ev + (("erase",),)
            return [(st, "ret", nsym("erased"))]
        if cn in ("_Znwm", "_ZnwmSt11align_val_t"):
            s = st.copy()
            bad = st.copy()
            bad.ms["fault"] = True
            s.ms["news"] = s.ms.get("news", 0) + 1
            oid = "new%d" % s.ms["news"]
            n = I.toint(st, args[0])
            s.mem[oid] = Obj("heap", "new object", size=n.c if n.isconst() else None, align=16)
            return [(s, "ret", Ptr(oid, Lin(0))), (bad, "throw", "_ZTISt9bad_alloc")]
        if cn.startswith("_ZdlPv"):
            p = I.topt(st, args[0])
            if p.base is None:
                return [(st, "ret", None)]
            if p.base not in st.mem or st.mem[p.base].freed:
                I.report("uaf", "delete of a dead object", st)
                raise PathEnd()
            st.w(p.base).freed = True
            return [(st, "ret", None)]
        return MapWorld.external(self, st, cn, args, ins)

    def intrinsic(self, st, cn, args, ins):
        I = self.I
        if cn.startswith(("llvm.ctlz.i64", "llvm.ctlz.i32")):
            w = ins["ty"][1]
            a = I.norm(st, I.toint(st, args[0]), w)
            if a.isconst():
                return Lin(w - a.c.bit_length())
            k = self.bitlen(st, a, w)
            return Lin(w - k)
        if cn.startswith("llvm.ctpop.i64"):
            a = I.norm(st, I.toint(st, args[0]))
            if a.isconst():
                return Lin(bin(a.c).count("1"))
            raise Undecided("population count")
        return MapWorld.intrinsic(self, st, cn, args, ins)

    def bitlen(self, st, a, w):
        """number of significant bits: the value's range is split at powers of two"""
        wit = st.cons.witness()
        if wit is None:
            raise PathEnd()
        v = a.c + sum(k * wit.get(s, 0) for s, k in a.t)
        k = max(0, int(v)).bit_length()
        lo, hi = (1 << (k - 1)) if k else 0, (1 << k) - 1
        for c in (a - lo, Lin(hi) - a):
            if not st.cons.entails(c):
                raise split_ge(c)
        return k


class AllocCheck(Ctx):
    UNROLL = False

    def __init__(self, prog):
        w = AllocWorld()
        self.I = PoolInterp(prog, w)
        self.I.noloop = True
        self.UNROLL = True
        self.W = w
        self.obl = 0
        self.finals = 0

    def cond(self, l):
        return ("ge", l) if l.t else l.c >= 0

    def eqc(self, l):
        return ("eq", l) if l.t else l.c == 0

    def sym(self, st, name, lo=0, hi=M64):
        x = nsym(name)
        st.cons.add(x - lo)
        st.cons.add(Lin(hi) - x)
        return x

    def out(self, s, oid="out", off=0):
        f = s.mem[oid].fields.get(off)
        if f is None or f[1] == UNDEF:
            raise Undecided("result not written")
        return f[1]

    def args3(self, st):
        h = self.sym(st, "hugepages", 0, 1)
        return [self.sym(st, "initial"), ("ge", h - 1), self.sym(st, "growth")]

    def truth(self, s, c):
        return self.I.decide(s, self.I.tocond(s, c))


# ------------------------------------------------------------------ multi-size pool
class MultiCheck(AllocCheck):
    """A05"""

    def __init__(self, prog):
        AllocCheck.__init__(self, prog)
        self.size = find_comp(prog, lambda t: t["name"] == "MultiSizeHugePagePool")["size"]

    def constructed(self):
        """an arbitrary multi-size pool: the configuration is what the constructor stored, the map is arbitrary"""
        st = State()
        st.mem["mp"] = Obj("heap", "multi-size pool", size=self.size, align=8)
        args = self.args3(st)
        res = []

        def post(s, kind, val):
            self.require(s, kind == "ret", "throw", "construction throws")
            s.ev = ()
            res.append(s)
        self.run("vpe_ctor", st, [Ptr("mp", Lin(0))] + args, post)
        if not res and not self.I.viols:
            raise LayoutError("the constructor of MultiSizeHugePagePool was not followed")
        return res

    def fits(self, s, r, by):
        """r is the smallest class at least by (1 <= by <= 2^63)"""
        r = self.I.norm(s, r)
        self.require(s, self.cond(r - by), "class", "the size class is smaller than the request")
        for lo, hi, g in ((1, 512, 64), (513, 2048, 256)):
            if self.I.decide(s, self.cond(Lin(hi) - by)):
                q = self.I.divk(s, r, g, False)
                self.require(s, self.eqc(r - q * g), "class", "the size class of a request of up to %d bytes is no multiple of %d" % (hi, g))
                self.require(s, self.cond(by + g - 1 - r), "class", "the size class is not the smallest that fits")
                return
        if not r.isconst():
            v = self.W.bitlen(s, r, 64)
            self.require(s, self.eqc(r - (1 << (v - 1))), "class", "the size class of a large request is no power of two")
            self.require(s, self.cond(by * 2 - r - 1), "class", "the size class is not the smallest that fits")
            return
        self.require(s, r.c > 0 and r.c & (r.c - 1) == 0, "class", "the size class of a large request is no power of two")
        self.require(s, self.cond(by - r.c // 2 - 1), "class", "the size class is not the smallest that fits")

    def op_class(self):
        for lo, hi in ((0, 0), (1, 512), (513, 2048), (2049, 1 << 63)):
            st = State()
            st.mem["out"] = Obj("heap", "out", size=8)
            by = self.sym(st, "bytes", lo, hi)

            def post(s, kind, val):
                self.require(s, kind == "ret", "throw", "get_size_class throws")
                r = self.I.toint(s, self.out(s))
                if self.I.decide(s, self.eqc(by)):
                    self.require(s, self.eqc(self.I.norm(s, r)), "class", "no bytes have a size class")
                    return
                self.fits(s, r, by)
            self.run("vpe_class", st, [by, Ptr("out", Lin(0))], post)
        return self

    def classof(self, s, by):
        """the documented class as a term (1 <= by <= 2^63)"""
        for hi, g in ((512, 64), (2048, 256)):
            if self.I.decide(s, self.cond(Lin(hi) - by)):
                return self.I.divk(s, by + (g - 1), g, False) * g
        k = self.W.bitlen(s, by - 1, 64)
        return Lin(1 << k)

    def poolkey(self, s, base):
        for k, oid in s.ms.get("nodes", ()):
            if oid is not None:
                f = s.mem[oid].fields.get(8)
                if f and isinstance(f[1], Ptr) and f[1].base == base:
                    return k
        return None

    def nopool(self, s, evs, what):
        self.require(s, not [e for e in evs if e[0] in ("alloc", "free", "dtor")], "class", what)

    def op_alloc(self):
        for st in self.constructed():
            for lo, hi in ((0, 0), (1, 512), (513, 2048), (2049, 1 << 63), ((1 << 63) + 1, M64)):
                s0 = st.copy()
                s0.mem["out"] = Obj("heap", "out", size=8)
                by = self.sym(s0, "bytes", lo, hi)
                al = self.sym(s0, "alignment", 1, 1 << 62)

                def post(s, kind, val, lo=lo):
                    evs = s.ev
                    if lo == 0:
                        self.nopool(s, evs, "a request of no bytes reaches a pool")
                        if kind == "ret":
                            p = self.I.topt(s, self.out(s))
                            self.require(s, p.base is None and self.I.decide(s, self.eqc(p.off)), "class", "a request of no bytes yields memory")
                        return
                    als = [e for e in evs if e[0] == "alloc"]
                    if lo > 1 << 63:
                        self.require(s, kind == "throw", "class", "a request beyond the largest size class is not refused")
                        self.nopool(s, evs, "a request beyond the largest size class reaches a pool")
                        return
                    self.ctors(s, evs)
                    if kind == "throw":
                        self.require(s, bool(s.ms.get("fault")), "throw", "allocate throws although nothing failed")
                        return
                    self.require(s, not s.ms.get("fault"), "throw", "a failure is swallowed")
                    if not self.require(s, len(als) == 1, "class", "a request is not served by exactly one pool"):
                        return
                    self.nopool(s, [e for e in evs if e[0] != "alloc"], "allocate releases memory")
                    _, pool, n, a, blk = als[0]
                    c = self.classof(s, by)
                    k = self.poolkey(s, pool)
                    self.require(s, k is not None, "class", "the pool that serves the request is not kept")
                    if k is not None:
                        self.require(s, self.eqc(k - c), "class", "the request is served by the pool of another size class")
                    self.require(s, self.eqc(n - c), "class", "the pool of a size class is asked for blocks of another size")
                    self.require(s, self.eqc(a - al), "class", "the requested alignment is not passed on")
                    p = self.I.topt(s, self.out(s))
                    self.require(s, p.base == blk and self.I.decide(s, self.eqc(p.off)), "class", "the block returned is not the one allocated")
                self.run("vpe_alloc", s0, [Ptr("mp", Lin(0)), by, al, Ptr("out", Lin(0))], post)
        return self

    def ctors(self, s, evs):
        for e in evs:
            if e[0] == "ctor":
                h = self.I.decide(s, self.cond(nsym("hugepages") - 1))
                self.require(s, self.eqc(e[3] - nsym("initial")), "class", "a pool is made with a wrong initial size")
                self.require(s, e[4] == h, "class", "a pool is made with a wrong huge-page setting")
                self.require(s, self.eqc(e[5] - nsym("growth")), "class", "a pool is made with a wrong growth size")

    def op_dealloc(self):
        for st in self.constructed():
            for case, lo, hi in (("null", 0, M64), ("block", 0, 0), ("block", 1, 512), ("block", 513, 2048), ("block", 2049, 1 << 63)):
                s0 = st.copy()
                by = self.sym(s0, "bytes", lo, hi)
                s0.mem["b"] = Obj("heap", "the block", size=None, align=1)
                p = NULL if case == "null" else Ptr("b", Lin(0))
                live = case == "block" and lo > 0
                if live and hi <= 2048:
                    g = 64 if hi <= 512 else 256
                    q = nsym("class")
                    s0.ms["livekey"] = q * g
                    s0.cons.add(q * g - by)
                    s0.cons.add(by + (g - 1) - q * g)
                starts = [s0]
                if live and hi > 2048:
                    starts = []
                    for k in range(12, 64):
                        s1 = s0.copy()
                        s1.ms["livekey"] = Lin(1 << k)
                        if s1.assume([Lin(1 << k) - by, by - (1 << (k - 1)) - 1]):
                            starts.append(s1)

                def post(s, kind, val, live=live):
                    self.require(s, kind == "ret", "throw", "deallocate throws")
                    fr = [e for e in s.ev if e[0] == "free"]
                    if not live:
                        self.nopool(s, s.ev, "a null pointer or an empty block reaches a pool")
                        return
                    self.require(s, not [e for e in s.ev if e[0] in ("alloc", "ctor", "dtor", "erase")], "class", "deallocate allocates or drops a pool")
                    if not self.require(s, len(fr) == 1, "class", "a released block does not reach exactly one pool"):
                        return
                    _, pool, q, n = fr[0]
                    c = s.ms["livekey"]
                    k = self.poolkey(s, pool)
                    self.require(s, k is not None and self.I.decide(s, self.eqc(k - c)), "class", "the block is released to the pool of another size class")
                    self.require(s, self.eqc(n - c), "class", "the block is released with a size it was not allocated with")
                    self.require(s, q.base == "b" and self.I.decide(s, self.eqc(q.off)), "class", "another pointer is released")
                for s1 in starts:
                    self.run("vpe_dealloc", s1, [Ptr("mp", Lin(0)), p, by], post)
        return self

    def op_getpool(self):
        for st in self.constructed():
            st.mem["out"] = Obj("heap", "out", size=8)
            c = self.sym(st, "class")

            def post(s, kind, val):
                self.require(s, kind == "ret", "throw", "get_pool throws")
                p = self.I.topt(s, self.out(s))
                n = s.ms.get("nodes", ())
                if not self.require(s, len(n) == 1 and self.I.decide(s, self.eqc(n[0][0] - c)), "class", "get_pool looks up another class"):
                    return
                f = s.mem[n[0][1]].fields[8][1] if n[0][1] else NULL
                self.require(s, p == f, "class", "get_pool returns another pool")
            self.run("vpe_getpool", st, [Ptr("mp", Lin(0)), c, Ptr("out", Lin(0))], post)
        return self


    def op_observers(self):
        """what the pool reports about itself"""
        for st in self.constructed():
            st.mem["out"] = Obj("heap", "out", size=24)
            st.mem["mp"].kind = "const"

            def post(s, kind, val):
                if not self.require(s, kind == "ret", "throw", "an observer throws"):
                    return
                h = self.I.decide(s, self.cond(nsym("hugepages") - 1))
                self.require(s, self.truth(s, self.out(s)) is h, "observe", "using_hugepages does not report the configured setting")
                n = self.I.toint(s, self.out(s, "out", 8))
                self.require(s, self.eqc(n - nsym("entries")), "observe", "active_size_classes is not the number of pools")
                m = self.I.topt(s, self.out(s, "out", 16))
                self.require(s, m.base == "mp", "observe", "get_pools returns something else than the pools")
            self.run("vpe_observers", st, [Ptr("mp", Lin(0)), Ptr("out", Lin(0))], post)
        return self


# ------------------------------------------------------------------ allocators
class HandleCheck(AllocCheck):
    """A06, A07: one allocator instantiation; kind is plain, policy or multi"""

    def __init__(self, prog, kind, role="leaf", urole="leaf", pool=None):
        AllocCheck.__init__(self, prog)
        self.kind, self.role, self.urole, self.pl = kind, role, urole, pool
        comps = {}
        for t in prog.di:
            if t["name"]:
                comps.setdefault(t["name"], t)
        pre = {"plain": "HugePageAllocator<", "policy": "PolicyBasedHugePageAllocator<", "multi": "MultiSizeHugePageAllocator<"}[kind]
        al = [t for t in prog.di if t["name"] and t["name"].startswith(pre) and t["members"]]
        if not al:
            raise LayoutError("allocator type not found")
        offs = set()
        for t in al:
            self.asize = t["size"]
            o = {}
            for m in t["members"]:
                n = str(m[2][1])
                if n.startswith("vp_shared_ptr<"):
                    o["leaf"] = m[1]
                elif n == "TwoPoolPolicy":
                    for q in comps["TwoPoolPolicy"]["members"]:
                        o["leaf" if q[0] == "leaf_pool_" else "internal"] = m[1] + q[1]
            offs.add(tuple(sorted(o.items())))
        if len(offs) != 1:
            raise LayoutError("allocator members not recognised")
        self.off = dict(offs.pop())
        if set(self.off) != ({"leaf", "internal"} if kind == "policy" else {"leaf"}):
            raise LayoutError("allocator members not recognised: %s" % sorted(self.off))
        g = [x for x in prog.globals if x == "vp_sizes"] if hasattr(prog, "globals") else []
        self.pool_kind = "MultiSizeHugePagePool" if kind == "multi" else "HugePagePool"

    def sizes(self):
        st = State()
        st.mem["o"] = Obj("heap", "o", size=40)
        r = {}

        def post(s, kind, val):
            for i in range(5):
                r[i] = self.I.toint(s, self.out(s, "o", 8 * i)).c
        self.run("vpe_sizes", st, [Ptr("o", Lin(0))], post)
        self.obl, self.finals = 0, 0
        self.tsize, self.talign, self.usize, self.ualign, self.asize = [r[i] for i in range(5)]

    def mkpool(self, st, oid):
        if oid in st.mem:
            return
        o = Obj("heap", "pool " + oid, size=None, align=16, meta=("pool", self.pool_kind))
        st.mem[oid] = o
        if self.pl is not None:
            for k in ("init", "growth"):
                o.fields[self.pl.off[k]] = (8, self.sym(st, "%s of %s" % (k, oid)))
            h = self.sym(st, "huge of %s" % oid, 0, 1)
            o.fields[self.pl.off["huge"]] = (1, ("ge", h - 1))

    def mk(self, st, name, leaf=None, internal=None):
        o = Obj("heap", "allocator " + name, size=self.asize, align=8)
        st.mem[name] = o
        for k, p in (("leaf", leaf or name + ".pool"), ("internal", internal or name + ".inner")):
            if k in self.off:
                self.mkpool(st, p)
                o.fields[self.off[k]] = (8, Ptr(p, Lin(0)))
        return o

    def pools(self, s, name):
        r = {}
        for k, off in self.off.items():
            f = s.mem[name].fields.get(off)
            if f is None or f[1] == UNDEF:
                r[k] = "nothing"
                continue
            p = self.I.topt(s, f[1])
            r[k] = p.base if isinstance(p, Ptr) and not p.off.t and not p.off.c else "?"
        return r

    def keeps(self, s, name, leaf, internal, what):
        p = self.pools(s, name)
        self.require(s, p["leaf"] == leaf, "route", what)
        if "internal" in p:
            self.require(s, p["internal"] == internal, "route", what)

    def serving(self, name, role):
        return name + (".inner" if role == "internal" and self.kind == "policy" else ".pool")

    def op_allocate(self):
        st = State()
        self.sizes()
        self.mk(st, "a")
        st.mem["out"] = Obj("heap", "out", size=8)
        n = self.sym(st, "n")
        T, al = self.tsize, self.talign

        def post(s, kind, val):
            al_ = [e for e in s.ev if e[0] == "alloc"]
            self.require(s, not [e for e in s.ev if e[0] in ("free", "ctor", "dtor")], "route", "allocate does more than allocate")
            self.keeps(s, "a", "a.pool", "a.inner", "allocate changes the allocator's pools")
            if self.I.decide(s, self.eqc(n)):
                self.require(s, kind == "throw" or not [e for e in al_ if e[4]], "count", "memory is taken for no objects")
                return
            single = self.kind != "multi"
            bad = False
            if single:
                bad = not self.I.decide(s, self.eqc(n - 1))
            else:
                bad = self.I.decide(s, self.cond(n - M64 // T - 1))
            if bad:
                self.require(s, kind == "throw", "count", "an unsupported number of objects is not refused" if single else
                             "a number of objects whose size does not fit is not refused")
                self.require(s, not [e for e in al_ if e[4]], "count", "memory is taken for a refused request")
                return
            if kind == "throw":
                ok = bool(s.ms.get("fault")) or (not single and self.I.decide(s, self.cond(n - ((1 << 63) - 1) // T - 1)))
                self.require(s, ok, "throw", "allocate throws although nothing failed")
                self.require(s, not [e for e in al_ if e[4]], "route", "memory is lost when allocation fails")
                return
            got = [e for e in al_ if e[4]]
            if not self.require(s, len(got) == 1, "route", "a request is not served by exactly one pool"):
                return
            _, pool, by, a, blk = got[0]
            self.require(s, pool == self.serving("a", self.role), "route", "the memory comes from a pool that is not the type's")
            want = n * T if not single else Lin(T)
            self.require(s, self.cond(by - want), "count", "fewer bytes are requested than the objects need")
            self.require(s, self.eqc(by - want), "count", "the bytes requested are not the size of the objects")
            ok = a.isconst() and a.c > 0 and a.c & (a.c - 1) == 0 and a.c % al == 0
            self.require(s, ok, "count", "the alignment requested does not suit the type")
            p = self.I.topt(s, self.out(s))
            self.require(s, p.base == blk and self.I.decide(s, self.eqc(p.off)), "route", "the block returned is not the one allocated")
        self.run("vpe_alloc", st, [Ptr("a", Lin(0)), n, Ptr("out", Lin(0))], post)
        return self

    def op_deallocate(self):
        self.sizes()
        for case in ("null", "block"):
            st = State()
            self.mk(st, "a")
            st.mem["b"] = Obj("heap", "the block", size=None, align=1)
            T = self.tsize
            n = self.sym(st, "n", 0, M64 if self.kind != "multi" else ((1 << 63) - 1) // T)   # what can have been allocated
            p = NULL if case == "null" else Ptr("b", Lin(0))

            def post(s, kind, val, case=case):
                fr = [e for e in s.ev if e[0] == "free"]
                self.require(s, not [e for e in s.ev if e[0] in ("alloc", "ctor", "dtor")], "route", "deallocate does more than release")
                self.keeps(s, "a", "a.pool", "a.inner", "deallocate changes the allocator's pools")
                if case == "null" or self.I.decide(s, self.eqc(n)):
                    self.require(s, not fr, "route", "a null pointer or no object reaches a pool")
                    self.require(s, kind == "ret" or (case == "block"), "throw", "releasing a null pointer throws") if case != "null" else None
                    return
                single = self.kind != "multi"
                if single:
                    if not self.I.decide(s, self.eqc(n - 1)):
                        self.require(s, not fr, "count", "a block is released with an unsupported number of objects")
                        return
                self.require(s, kind == "ret", "throw", "deallocate throws")
                if not self.require(s, len(fr) == 1, "route", "a released block does not reach exactly one pool"):
                    return
                _, pool, q, by = fr[0]
                self.require(s, pool == self.serving("a", self.role), "route", "the memory is released to a pool that is not the type's")
                want = n * T if not single else Lin(T)
                self.require(s, self.eqc(by - want), "count", "the block is released with another size than it was requested with")
                self.require(s, q.base == "b" and self.I.decide(s, self.eqc(q.off)), "route", "another pointer is released")
            self.run("vpe_dealloc", st, [Ptr("a", Lin(0)), p, n], post)
        return self

    def op_copies(self):
        self.sizes()
        A, R = Ptr("a", Lin(0)), Ptr("r", Lin(0))

        def quiet(s, kind, what):
            self.require(s, kind == "ret", "throw", what + " throws")
            self.require(s, not s.ev, "route", what + " uses or makes a pool")

        def raw(st, name):
            st.mem[name] = Obj("heap", "allocator " + name, size=self.asize, align=8)
        for entry, what in (("vpe_copy", "copy construction"), ("vpe_move", "move construction"), ("vpe_select", "the copy for a copied container"),
                            ("vpe_copy_assign", "copy assignment"), ("vpe_move_assign", "move assignment")):
            selfs = (False, True) if "assign" in entry else (False,)
            for me in selfs:
                st = State()
                self.mk(st, "a")
                if "assign" in entry:
                    self.mk(st, "r")
                else:
                    raw(st, "r")

                def post(s, kind, val, what=what, me=me):
                    quiet(s, kind, what)
                    if kind != "ret":
                        return
                    if not me:
                        self.keeps(s, "r", "a.pool", "a.inner", what + " does not share the pools of its source")
                    self.keeps(s, "a", "a.pool", "a.inner", what + (" to itself loses the pools" if me else " takes the pools away from its source"))
                self.run(entry, st, [A if me else R, A], post)
        for me in (False, True):
            st = State()
            self.mk(st, "a")
            self.mk(st, "r")

            def post(s, kind, val, me=me):
                quiet(s, kind, "swap")
                x = ("a", "a") if me else ("r", "a")
                self.keeps(s, "a", x[0] + ".pool", x[0] + ".inner", "swap does not exchange the pools")
                if not me:
                    self.keeps(s, "r", "a.pool", "a.inner", "swap does not exchange the pools")
            self.run("vpe_swap", st, [A if me else R, A], post)
        # conversion to another type
        st = State()
        self.mk(st, "a")
        raw(st, "r")

        def post(s, kind, val):
            self.keeps(s, "a", "a.pool", "a.inner", "conversion takes the pools away from its source")
            if self.kind != "plain":
                quiet(s, kind, "conversion to another type")
                if kind == "ret":
                    self.keeps(s, "r", "a.pool", "a.inner", "conversion to another type does not share the pools")
                return
            if kind == "throw":
                self.require(s, bool(s.ms.get("fault")), "throw", "conversion throws although nothing failed")
                return
            c = [e for e in s.ev if e[0] == "ctor"]
            p = self.pools(s, "r")["leaf"]
            if p == "a.pool":
                self.require(s, not c, "route", "conversion makes a pool it does not use")
                return
            if not self.require(s, len(c) == 1 and c[0][2] == p and len(s.ev) == 1, "route", "conversion to another type yields no pool of its own"):
                return
            h = self.I.decide(s, self.cond(nsym("huge of a.pool") - 1))
            self.require(s, self.eqc(c[0][3] - nsym("init of a.pool")), "route", "the new pool has another initial size than its model")
            self.require(s, c[0][4] == h, "route", "the new pool has another huge-page setting than its model")
            self.require(s, self.eqc(c[0][5] - nsym("growth of a.pool")), "route", "the new pool has another growth size than its model")
        self.run("vpe_convert", st, [R, A], post)
        return self

    def op_equal(self):
        self.sizes()
        for entry in ("vpe_equal", "vpe_equal_rebound"):
            for leaf in (False, True):
                for inner in (False, True) if self.kind == "policy" else (False,):
                    st = State()
                    self.mk(st, "a")
                    self.mk(st, "b", "a.pool" if leaf else None, "a.inner" if inner else None)
                    st.mem["o"] = Obj("heap", "o", size=2)
                    rb = entry.endswith("rebound")
                    pa = self.serving("a", self.role)
                    pb = st.mem["b"].fields[self.off["internal" if (self.urole if rb else self.role) == "internal" and self.kind == "policy" else "leaf"]][1].base
                    exact = leaf == inner or self.kind != "policy"

                    def post(s, kind, val, pa=pa, pb=pb, exact=exact, rb=rb):
                        self.require(s, kind == "ret" and not s.ev, "route", "comparison throws or uses a pool")
                        e = self.truth(s, self.out(s, "o", 0))
                        ne = self.truth(s, self.out(s, "o", 1))
                        self.require(s, e != ne, "route", "== and != agree")
                        if pa != pb and not rb:
                            self.require(s, not e, "route", "allocators of different pools compare equal")
                        elif exact and not rb or pa == pb and not rb and exact:
                            self.require(s, e, "route", "allocators that share their pools compare different")
                        elif rb and self.kind != "policy":
                            self.require(s, e == (pa == pb), "route", "comparison with another type does not tell whether the pools are shared")
                    self.run(entry, st, [Ptr("a", Lin(0)), Ptr("b", Lin(0)), Ptr("o", Lin(0))], post)
        return self

    def op_make(self):
        self.sizes()
        st = State()
        st.mem["r"] = Obj("heap", "allocator", size=self.asize, align=8)
        h = self.sym(st, "hugepages", 0, 1)
        H = ("ge", h - 1)
        if self.kind == "policy":
            a = [self.sym(st, x) for x in ("leaf size", "inner size", "leaf growth", "inner growth")]
            args = [a[0], a[1], H, a[2], a[3]]
            exp = {"leaf": (a[0], a[2]), "internal": (a[1], a[3])}
        else:
            a = [self.sym(st, x) for x in ("size", "growth")]
            args = [a[0], H, a[1]]
            exp = {"leaf": (a[0], a[1])}

        def post(s, kind, val):
            if kind == "throw":
                self.require(s, bool(s.ms.get("fault")), "throw", "construction throws although nothing failed")
                return
            p = self.pools(s, "r")
            c = {e[2]: e for e in s.ev if e[0] == "ctor"}
            if self.kind == "multi":
                # the multi-size pool's constructor only stores its configuration
                pass
            self.require(s, len(s.ev) == len(exp) == len(c), "route", "a new allocator does not have exactly its own pools")
            hh = self.I.decide(s, H)
            for k, (i, g) in exp.items():
                e = c.get(p[k])
                if not self.require(s, e is not None, "route", "a pool of a new allocator is not a new one"):
                    continue
                self.require(s, self.eqc(e[3] - i), "route", "a new pool has a wrong initial size")
                self.require(s, e[4] == hh, "route", "a new pool has a wrong huge-page setting")
                self.require(s, self.eqc(e[5] - g), "route", "a new pool has a wrong growth size")
        self.run("vpe_make", st, [Ptr("r", Lin(0))] + args, post)
        if self.kind == "policy":
            st = State()
            st.mem["r"] = Obj("heap", "policy", size=16, align=8)
            for i, x in enumerate(("l", "i")):
                self.mkpool(st, "pool." + x)
                st.mem[x] = Obj("heap", "owner", size=8, align=8)
                st.mem[x].fields[0] = (8, Ptr("pool." + x, Lin(0)))
            base = min(self.off.values())

            def post2(s, kind, val):
                self.require(s, kind == "ret", "throw", "making a policy throws")
                for k, x in (("leaf", "l"), ("internal", "i")):
                    p = self.I.topt(s, self.out(s, "r", self.off[k] - base))
                    self.require(s, p.base == "pool." + x, "route", "a policy does not keep the pools it was given")
            self.run("vpe_policy", st, [Ptr("r", Lin(0)), Ptr("l", Lin(0)), Ptr("i", Lin(0))], post2)
        if self.kind == "multi":
            st = State()
            st.mem["r"] = Obj("heap", "allocator", size=self.asize, align=8)
            self.mkpool(st, "pool.l")
            st.mem["l"] = Obj("heap", "owner", size=8, align=8)
            st.mem["l"].fields[0] = (8, Ptr("pool.l", Lin(0)))

            def post3(s, kind, val):
                self.require(s, kind == "ret", "throw", "construction throws")
                self.require(s, self.pools(s, "r")["leaf"] == "pool.l", "route", "an allocator does not keep the pool it was given")
            self.run("vpe_ctor", st, [Ptr("r", Lin(0)), Ptr("l", Lin(0))], post3)
        return self
