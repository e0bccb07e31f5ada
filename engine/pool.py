"""The memory pool: abstract model of an arbitrary well-formed HugePagePool, of the operating
system's mapping calls and of the vectors it keeps its books in; machine-word arithmetic.

A pool is well-formed when its regions are recorded mappings, [next_free, next_free+remaining) lies in
the mapping it currently carves blocks from and holds no live block, the free lists have distinct block
sizes, and a released block sits on the list of its size."""
import re
from lin import Lin, L
from absint import (Ptr, NULL, UNDEF, Obj, State, Interp, NeedSplit, PathEnd, Undecided, nsym, split_ge, split_eq, cnot, iscond)
from worlds import Ctx, LayoutError, MapWorld, find_comp

PAGE = 4096
TOP = 1 << 47          # user address space
HUGE = 2 * 1024 * 1024
MAP_SHARED, MAP_PRIVATE, MAP_FIXED, MAP_ANON, MAP_HUGETLB = 1, 2, 0x10, 0x20, 0x40000
STATS = ("allocations", "deallocations", "growth_events", "bytes_allocated", "current_usage", "peak_usage")


class PoolLayout:
    def __init__(self, prog):
        c = find_comp(prog, lambda t: t["name"] == "HugePagePool")
        self.size = c["size"]
        by = {m[0]: m for m in c["members"]}
        comps = {}
        for t in prog.di:
            if t["name"]:
                comps.setdefault(t["name"], t)

        def elem(m):
            n = str(m[2][1]) if m[2][0] == "comp" else ""
            if not n.startswith("vp_vector<"):
                return None
            n = n[len("vp_vector<"):].rstrip(">").strip()
            return comps.get(n) or comps.get(n.split("::")[-1])
        vecs = []
        for m in c["members"]:
            e = elem(m)
            if e:
                vecs.append((m, e))
        if len(vecs) != 2:
            raise LayoutError("pool members not recognised: %s" % [m[0] for m in c["members"]])
        reg = [x for x in vecs if "region" in x[0][0]] or vecs[:1]
        self.regs, regel = reg[0][0][1], reg[0][1]
        lst = [x for x in vecs if x[0][1] != self.regs][0]
        self.lists, lstel = lst[0][1], lst[1]

        def ptrint(e):
            p = [m[1] for m in e["members"] if m[2][0] == "ptr"]
            i = [m[1] for m in e["members"] if m[2][0] != "ptr"]
            if len(p) != 1 or len(i) != 1 or e["size"] != 16:
                raise LayoutError("layout of %s not recognised" % e["name"])
            return p[0], i[0]
        self.rbase, self.rsize = ptrint(regel)
        self.lhead, self.lsize = ptrint(lstel)
        ptrs = [m for m in c["members"] if m[2][0] == "ptr"]
        nf = by.get("next_free_") or (ptrs[0] if len(ptrs) == 1 else None)
        if nf is None:
            raise LayoutError("pool members not recognised: %s" % [m[0] for m in c["members"]])
        self.next = nf[1]
        self.off, self.stats = {}, {}
        for nm, alt in (("rem", "bytes_remaining_"), ("init", "initial_size_"), ("growth", "growth_size_"), ("huge", "using_hugepages_")):
            if alt in by:
                self.off[nm] = by[alt][1]
        st = by.get("stats_")
        if st is not None:
            sc = comps.get(str(st[2][1]))
            for m in (sc or {"members": ()})["members"]:
                if m[0] in STATS:
                    self.stats[m[0]] = st[1] + m[1]
        if len(self.off) != 4 or len(self.stats) != len(STATS):
            self.observe(prog, c, comps)
        if len(self.off) != 4 or len(self.stats) != len(STATS):
            raise LayoutError("pool members not recognised: %s" % [m[0] for m in c["members"]])

    def observe(self, prog, c, comps):
        """members that go by other names are identified by the public observers that return them"""
        st = State()
        o = Obj("heap", "pool", size=self.size, align=16)
        st.mem["pool"] = o
        st.mem["o"] = Obj("heap", "o", size=88)
        where = {}

        def scalar(off, ty, sz):
            y = nsym("member%d" % off)
            where[y.t[0][0]] = off
            o.fields[off] = (sz, y if sz == 8 else ("ge", y - 1))

        def members(c, base):
            for m in c["members"]:
                if m[2][0] == "comp":
                    d = comps.get(str(m[2][1]))
                    if d is not None and not str(m[2][1]).startswith("vp_vector<"):
                        members(d, base + m[1])
                elif m[2][0] == "base" or m[2][0] == "enum":
                    scalar(base + m[1], m[2], m[2][2])
        members(c, 0)
        C = Ctx.__new__(PoolCheck)
        C.lay, C.obl, C.finals = self, 0, 0
        C.W = PoolWorld(self)
        C.I = PoolInterp(prog, C.W)
        got = {}

        def post(s, kind, val):
            for off, f in s.mem["o"].fields.items():
                v = f[1]
                if iscond(v) and not isinstance(v, bool):
                    v = v[1] + 1 if v[0] == "ge" else v[1]
                if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][0] in where:
                    got.setdefault(off, where[v.t[0][0]])
        C.run("vpe_observers", st, [Ptr("pool", Lin(0)), Ptr("o", Lin(0))], post)
        for nm, off in (("rem", 8), ("init", 16), ("growth", 24), ("huge", 0)):
            if nm not in self.off and off in got:
                self.off[nm] = got[off]
        for i, k in enumerate(("allocations", "deallocations", "growth_events", "bytes_allocated", "current_usage", "peak_usage")):
            if k not in self.stats and 32 + 8 * i in got:
                self.stats[k] = got[32 + 8 * i]


class PoolInterp(Interp):
    """64-bit machine arithmetic: values are kept unreduced and brought into range where it matters"""

    def norm(self, st, a, w=64):
        m = 1 << w
        if a.isconst():
            return Lin(a.c % m)
        for _ in range(8):
            if not st.cons.entails(a):
                if st.cons.feasible_with(a):
                    raise split_ge(a)
                a = a + m
                continue
            h = Lin(m - 1) - a
            if not st.cons.entails(h):
                if st.cons.feasible_with(h):
                    raise NeedSplit([[h], [-h - 1]])
                a = a - m
                continue
            return a
        raise Undecided("value range")

    def unsigned(self, st, a, w):
        return self.norm(st, a, w)

    def divk(self, st, a, k, signed):
        if not signed:
            a = self.norm(st, a)
        if a.divisible(k) or k == 1:
            return a.div(k)
        if a.isconst():
            return Lin(a.c // k if a.c >= 0 else -(-a.c // k))
        m = Lin(a.c // k, tuple((s, c // k) for s, c in a.t if c % k == 0))
        r = a - m * k
        if m.t and st.cons.entails(r):
            return m + Interp.divk(self, st, r, k, signed)
        return Interp.divk(self, st, a, k, signed)

    def icmp(self, st, pred, a, b, ins):
        if pred in ("eq", "ne") and isinstance(a, Lin) and isinstance(b, Lin) and ins["oty"] == ["i", 64]:
            a, b = self.norm(st, a), self.norm(st, b)
        return Interp.icmp(self, st, pred, a, b, ins)

    def i_zext(self, fr, st, env, ins, outs):
        Interp.i_zext(self, fr, st, env, ins, outs)

    def addrsym(self, base):
        s = self.addr.get(base)
        if s is None:
            y = nsym("&%s" % (base,))
            s = y * PAGE if str(base).startswith("mem:") else y
            self.addr[base] = s
            self.addrinv[s.t[0][0]] = base
        return s

    def ptr2int(self, st, p):
        if p.base is None:
            return p.off
        if isinstance(p.base, tuple):
            p = Ptr(self.W.resolve(st, p.base), p.off)
            if p.base is None:
                return p.off
        st.ms["lastaddr"] = p.base
        return self.addrsym(p.base) + p.off

    def int2ptr(self, l):
        if l.isconst():
            return Ptr(None, l)
        for s, k in l.t:
            b = self.addrinv.get(s)
            if b is not None and self.addr[b].t[0][1] == k:
                return Ptr(b, l - self.addr[b])
        return self.W.wildptr(l)

    def i_inttoptr(self, fr, st, env, ins, outs):
        self.W.cur = st
        v = self.V(st, env, ins, 0)
        if isinstance(v, tuple) or isinstance(v, Ptr):
            env[ins["id"]] = self.topt(st, v)
            return
        env[ins["id"]] = self.int2ptr(self.toint(st, v))

    def raw(self, st, p, what, size):
        if not isinstance(p, Ptr) or not isinstance(p.base, str) or not p.base.startswith("mem:"):
            return False
        o = st.mem.get(p.base)
        if o is None or o.freed:
            self.report("uaf", "%s of unmapped memory" % what, st)
            raise PathEnd()
        self.stats["memops"] += 1
        for l in (p.off, L(o.meta[1]) - p.off - size):
            if not self.decide(st, ("ge", l) if l.t else l.c >= 0):
                self.report("oob", "%s outside the mapped region" % what, st)
                raise PathEnd()
        if p.base == "mem:cur" and what == "write":
            l = p.off - self.W.off0
            if not self.decide(st, ("ge", l) if l.t else l.c >= 0):
                self.report("overlap", "the pool writes over memory it has handed out", st)
                raise PathEnd()
        return True

    def load(self, st, p, size, ty, ins=None):
        if self.raw(st, p, "read", size):
            raise Undecided("read of raw pool memory")
        return Interp.load(self, st, p, size, ty, ins)

    def store(self, st, p, size, v, ty=None):
        if self.raw(st, p, "write", size):
            return
        return Interp.store(self, st, p, size, v, ty)

    def memcpy(self, st, dst, src, n, ins):
        if any(isinstance(p, Ptr) and p.base in st.mem and st.mem[p.base].kind == "vec" for p in (dst, src)):
            if not n.isconst() or n.c % 8 or n.c > 64:
                raise Undecided("bulk copy of vector elements")
            vals = [self.load(st, Ptr(src.base, src.off + i), 8, ["x"], ins) for i in range(0, n.c, 8)]
            for i, v in enumerate(vals):
                self.store(st, Ptr(dst.base, dst.off + 8 * i), 8, v)
            return
        return Interp.memcpy(self, st, dst, src, n, ins)


def tok(v, arr):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "el" and v[1] == arr


class PoolWorld(MapWorld):
    """externals of the pool"""

    def __init__(self, lay):
        MapWorld.__init__(self)
        self.lay = lay
        self.f = nsym("list")          # index of the list for this request's size (number of lists: none)
        self.bytes = nsym("bytes")
        self.off0 = nsym("next")
        self.cur = None

    # --- vectors
    def redirect(self, st, p, size):
        o = st.mem.get(p.base) if isinstance(p, Ptr) and not isinstance(p.base, tuple) else None
        if o is None or o.kind != "vec":
            return None
        if o.freed:
            self.I.report("uaf", "use of a reference into a vector that has since grown", st)
            raise PathEnd()
        es = o.meta[0]
        c = p.off.c % es
        b = p.off - c
        if size != 8 or c % 8 or not b.divisible(es):
            raise Undecided("irregular access to a vector element")
        i = b.div(es)
        for l in (i, o.meta[1] - i - 1):
            if not self.I.decide(st, ("ge", l) if l.t else l.c >= 0):
                self.I.report("oob", "access outside the elements of %s" % o.name, st)
                raise PathEnd()
        return p.base, "f%d" % c, i

    def ptrscale(self, st, p):
        o = st.mem.get(p.base)
        if o is not None and o.kind == "vec":
            return o.meta[0]
        if o is not None and o.kind == "raw":
            return 1
        return MapWorld.ptrscale(self, st, p)

    def ptridx(self, st, p):
        o = st.mem.get(p.base)
        if o is not None and o.kind == "vec" and p.off.divisible(o.meta[0]):
            return p.off.div(o.meta[0])
        if o is not None and o.kind == "raw":
            return p.off
        return MapWorld.ptridx(self, st, p)

    def mkvec(self, st, oid, name, es, n, cap, arrs):
        o = Obj("vec", name, align=16, meta=(es, cap))
        for k in range(0, es, 8):
            segs = arrs.get(k)
            o.arr["f%d" % k] = tuple(segs) if segs else ((Lin(0), cap, ("undef",)),)
        st.mem[oid] = o

    # --- tokens
    def hkey(self, st, i):
        return "f" if self.isf(st, i) else repr(i)

    def isf(self, st, i):
        d = i - self.f
        return self.I.decide(st, ("eq", d) if d.t else d.c == 0)

    def icmp(self, st, pred, a, b, ins):
        if tok(a, "bs") or tok(b, "bs"):
            if not tok(a, "bs"):
                a, b = b, a
                pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
            if pred in ("eq", "ne"):
                if isinstance(b, Lin) and b == self.bytes:
                    d = a[2] - self.f
                    c = ("eq", d) if d.t else d.c == 0
                    return c if pred == "eq" else cnot(c)
                if tok(b, "bs"):
                    d = a[2] - b[2]
                    c = ("eq", d) if d.t else d.c == 0
                    return c if pred == "eq" else cnot(c)
        return None

    def toint(self, st, v):
        if tok(v, "bs"):
            if self.isf(st, v[2]):
                return self.bytes
            x = nsym("blocksize[%r]" % (v[2],))
            st.cons.add(x - 8)
            st.cons.add(Lin((1 << 64) - 1) - x)
            return x
        if tok(v, "rs"):
            x = nsym("regionsize[%r]" % (v[2],))
            st.cons.add(x - 1)
            st.cons.add(Lin(TOP) - x)
            return x
        return None

    def hnull(self, st, i):
        z = nsym("empty[%s]" % self.hkey(st, i))
        st.cons.add(z)
        st.cons.add(Lin(1) - z)
        return self.I.decide(st, ("ge", z - 1))

    def resolve(self, st, ref):
        if tok(ref, "hd"):
            if self.hnull(st, ref[2]):
                return None
            k = self.hkey(st, ref[2])
            oid = "blk:" + k
            if oid not in st.mem:
                o = Obj("heap", "free block", size=None, align=1)
                o.fields[0] = (8, ("nx", k))
                o.meta = ("blk", ref)
                st.mem[oid] = o
                a = self.I.addrsym(oid)
                st.cons.add(a - 8)
                st.cons.add(Lin(TOP) - a - self.toint(st, ("el", "bs", ref[2])))
            return oid
        if tok(ref, "rb"):
            raise Undecided("access through a recorded region")
        if ref[0] == "nx":
            raise Undecided("walk down a free list")
        return MapWorld.resolve(self, st, ref)

    def loaded(self, st, v, ty):
        if ty[0] == "p" and isinstance(v, tuple) and v and v[0] in ("el", "nx"):
            return Ptr(v, Lin(0))
        return v

    def ptreqhook(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y.base is None and isinstance(x.base, tuple):
                if tok(x.base, "hd"):
                    return self.hnull(st, x.base[2])
                if tok(x.base, "rb"):
                    return False
                if x.base[0] == "nx":
                    z = nsym("last[%s]" % x.base[1])
                    st.cons.add(z)
                    st.cons.add(Lin(1) - z)
                    return ("ge", z - 1)
        if isinstance(a.base, tuple) and a.base == b.base:
            d = a.off - b.off
            return ("eq", d) if d.t else d.c == 0
        if "ret" in (a.base, b.base) and all(isinstance(x.base, str) and (x.base == "ret" or x.base.startswith("mem:")) for x in (a, b)):
            d = self.I.ptr2int(st, a) - self.I.ptr2int(st, b)      # the block may lie in any mapping
            return ("eq", d) if d.t else d.c == 0
        return None

    def wildptr(self, l):
        """an address computed without an explicit base: relate it to the mapping the arithmetic began with"""
        st = self.cur
        b = st.ms.get("lastaddr") if st is not None else None
        if b is None:
            raise Undecided("integer %r used as pointer" % l)
        return Ptr(b, l - self.I.addrsym(b))

    # --- operating system
    def newmap(self, st, n, huge):
        st.ms["maps"] = st.ms.get("maps", 0) + 1
        oid = "mem:new%d" % st.ms["maps"]
        st.mem[oid] = Obj("raw", "new mapping", meta=("raw", n, huge))
        self.place(st, oid, n)
        return oid

    def place(self, st, oid, n):
        a = self.I.addrsym(oid)
        st.cons.add(a - 16 * PAGE)
        st.cons.add(Lin(TOP) - a - n)

    def external(self, st, cn, args, ins):
        I = self.I
        if cn == "mmap":
            addr, n, prot, flags, fd, off = [I.topt(st, args[0])] + [I.toint(st, x) for x in args[1:6]]
            if not (prot.isconst() and flags.isconst()):
                raise Undecided("mmap with variable protection or flags")
            fl = flags.c
            if prot.c & 3 != 3 or not fl & MAP_ANON or not fl & (MAP_SHARED | MAP_PRIVATE):
                I.report("map", "the mapping is not readable and writable anonymous memory", st)
            if fl & MAP_FIXED:
                I.report("map", "the mapping may replace memory that is in use", st)
            n = I.norm(st, n)
            st.ev = st.ev + (("mmap", "huge" if fl & MAP_HUGETLB else "plain"),)
            bad = st.copy()
            bad.ms["fault"] = True
            res = [(bad, "ret", Ptr(None, Lin(-1)))]
            ok = st.copy()
            if ok.assume([n - 1, Lin(TOP) - n]):
                if fl & MAP_HUGETLB:
                    q = I.divk(ok, n, HUGE, False)
                    if not I.tri(ok, ("eq", n - q * HUGE) if (n - q * HUGE).t else (n - q * HUGE).c == 0):
                        I.report("map", "a huge-page mapping has a length that is no multiple of the page size, so it cannot be "
                                 "unmapped with that length", ok)
                oid = self.newmap(ok, n, bool(fl & MAP_HUGETLB))
                res.append((ok, "ret", Ptr(oid, Lin(0))))
            return res
        if cn == "munmap":
            self.unmap(st, I.topt(st, args[0]), args[1])
            return [(st, "ret", Lin(0))]
        if cn in ("madvise", "posix_madvise"):
            adv = I.toint(st, args[2])
            if not adv.isconst() or adv.c in (4, 8, 9, 21):
                p = args[0]
                if not (isinstance(p, Ptr) and isinstance(p.base, str) and p.base.startswith("mem:new")):
                    I.report("overlap", "advice that discards the contents of memory that may be in use", st)
            return [(st, "ret", Lin(0))]
        if cn == "vp_vec_new":
            es = args[0].c
            oid = "vec#%d" % st.newoid()
            self.mkvec(st, oid, "a vector", es, Lin(0), Lin(0), {})
            return [(st, "ret", Ptr(oid, Lin(0)))]
        if cn == "vp_vec_free":
            p = args[0]
            if p.base not in st.mem or st.mem[p.base].freed:
                I.report("uaf", "a vector is destroyed twice", st)
                raise PathEnd()
            st.w(p.base).freed = True
            return [(st, "ret", None)]
        if cn == "vp_vec_room":
            p, n, cap, es = args[0], I.toint(st, args[1]), I.toint(st, args[2]), args[3].c
            o = st.mem.get(p.base)
            if o is None or o.freed:
                I.report("uaf", "use of a dead vector", st)
                raise PathEnd()
            bad = st.copy()
            bad.ms["fault"] = True
            oid = "vec#%d" % st.newoid()
            arrs = {}
            for k, segs in o.arr.items():
                if segs[0][0] == segs[-1][1] and len(segs) == 1:
                    new = []
                else:
                    new = I.seg_slice(st, segs, Lin(0), n)
                arrs[int(k[1:])] = new + [(n, cap, ("undef",))]
            self.mkvec(st, oid, o.name, es, n, cap, arrs)
            st.w(p.base).freed = True
            if st.ms.get(("vec", p.base)):
                st.ms[("vec", oid)] = st.ms[("vec", p.base)]
            return [(st, "ret", Ptr(oid, Lin(0))), (bad, "throw", "_ZTISt9bad_alloc")]
        if cn in ("_Znwm", "_ZdlPvm", "_ZdlPv"):
            raise Undecided("direct use of operator new")
        return MapWorld.external(self, st, cn, args, ins)

    def unmap(self, st, p, size):
        I = self.I
        b = p.base
        if b is None:
            I.report("map", "munmap of a null pointer", st)
            raise PathEnd()
        if p.off.t or p.off.c:
            if not I.decide(st, ("eq", p.off)):
                I.report("map", "munmap of an address inside a region", st)
                raise PathEnd()
        if tok(b, "rb"):
            i = b[2]
            if tok(size, "rs"):
                d = size[2] - i
                if not I.decide(st, ("eq", d) if d.t else d.c == 0):
                    I.report("map", "a region is unmapped with the length of another", st)
                    raise PathEnd()
            else:
                n = I.toint(st, size)
                I.report("map", "a region is unmapped with a length it was not mapped with", st)
                raise PathEnd()
            segs = st.mem["unmapped"].arr["u"]
            if I.seg_read(st, segs, i) != ("val", 0) and I.seg_read(st, segs, i) != 0:
                I.report("map", "a region is unmapped twice", st)
                raise PathEnd()
            st.w("unmapped").arr["u"] = I.seg_write(st, segs, i, 1)
            return
        if not isinstance(b, str) or not b.startswith("mem:"):
            I.report("map", "munmap of memory that was not mapped", st)
            raise PathEnd()
        o = st.mem[b]
        if o.freed:
            I.report("map", "a region is unmapped twice", st)
            raise PathEnd()
        n = I.toint(st, size)
        if not self.samepages(st, n, o.meta[1]):
            I.report("map", "a region is unmapped with a length it was not mapped with", st)
            raise PathEnd()
        st.w(b).freed = True

    def samepages(self, st, a, b):
        I = self.I
        d = a - b
        if not d.t and d.c == 0 or st.cons.entails_eq(d):
            return True
        a, b = I.norm(st, a), I.norm(st, b)
        d = I.divk(st, a + (PAGE - 1), PAGE, False) - I.divk(st, b + (PAGE - 1), PAGE, False)
        return I.decide(st, ("eq", d) if d.t else d.c == 0)


class PoolCheck(Ctx):
    UNROLL = False

    def __init__(self, prog):
        self.lay = PoolLayout(prog)
        w = PoolWorld(self.lay)
        self.I = PoolInterp(prog, w)
        self.W = w
        self.obl = 0
        self.finals = 0

    # --- pre-state
    def pre(self, needlist=False):
        lay, w = self.lay, self.W
        st = State()
        c = st.cons
        n, m, S, rem, by = nsym("regions"), nsym("lists"), nsym("size"), nsym("remaining"), self.W.bytes
        c.add(n - 1)
        c.add(m)
        c.add(Lin(1 << 40) - n)
        c.add(Lin(1 << 40) - m)
        c.add(S - 1)
        c.add(rem)
        c.add(w.off0)
        c.add(S - w.off0 - rem)
        c.add(Lin(TOP) - S)
        st.mem["mem:cur"] = Obj("raw", "the current region", meta=("raw", S, None))
        w.place(st, "mem:cur", S)
        p = Obj("heap", "pool", size=lay.size, align=16)
        st.mem["pool"] = p
        rr, lr = nsym("regionroom"), nsym("listroom")
        for x in (rr, lr):
            c.add(x)
            c.add(Lin(1 << 40) - x)
        w.mkvec(st, "regs", "the region table", 16, n, n + rr, {
            lay.rbase: [(Lin(0), n - 1, ("src", "rb", Lin(0))), (n - 1, n, ("val", Ptr("mem:cur", Lin(0)))), (n, n + rr, ("undef",))],
            lay.rsize: [(Lin(0), n - 1, ("src", "rs", Lin(0))), (n - 1, n, ("val", S)), (n, n + rr, ("undef",))]})
        w.mkvec(st, "lists", "the free lists", 16, m, m + lr, {
            lay.lsize: [(Lin(0), m, ("src", "bs", Lin(0))), (m, m + lr, ("undef",))],
            lay.lhead: [(Lin(0), m, ("src", "hd", Lin(0))), (m, m + lr, ("undef",))]})
        un = Obj("ghost", "unmapped")
        un.arr["u"] = ((Lin(0), n, ("val", 0)),)
        st.mem["unmapped"] = un
        # the list for this size: f < m, or f == m when there is none
        c.add(w.f)
        c.add((m - 1 if needlist else m) - w.f)
        c.add(by)
        c.add(Lin((1 << 64) - 1) - by)
        F = p.fields
        for base, vec, cnt, room in ((lay.regs, "regs", n, rr), (lay.lists, "lists", m, lr)):
            F[base] = (8, Ptr(vec, Lin(0)))
            F[base + 8] = (8, cnt)
            F[base + 16] = (8, room)
        F[lay.next] = (8, Ptr("mem:cur", w.off0))
        F[lay.off["rem"]] = (8, rem)
        for k in ("init", "growth"):
            x = nsym(k)
            c.add(x)
            c.add(Lin((1 << 64) - 1) - x)
            F[lay.off[k]] = (8, x)
        hp = nsym("hugepages")
        c.add(hp)
        c.add(Lin(1) - hp)
        F[lay.off["huge"]] = (1, ("ge", hp - 1))
        self.s0 = {}
        for k in STATS:
            x = nsym(k)
            self.s0[k] = x
            c.add(x)
            c.add(Lin(1 << 62) - x)
            F[lay.stats[k]] = (8, x)
        c.add(self.s0["peak_usage"] - self.s0["current_usage"])
        c.add(self.s0["bytes_allocated"] - self.s0["current_usage"])
        self.n, self.m, self.S, self.rem = n, m, S, rem
        return st

    # --- observations
    def fld(self, s, off):
        f = s.mem["pool"].fields.get(off)
        if f is None:
            raise Undecided("pool member at %d" % off)
        return f[1]

    def cond(self, l):
        return ("ge", l) if l.t else l.c >= 0

    def eqc(self, l):
        return ("eq", l) if l.t else l.c == 0

    def num(self, s, v):
        return self.I.norm(s, self.I.toint(s, v))

    def vec(self, s, base):
        p = self.fld(s, base)
        n = self.I.toint(s, self.fld(s, base + 8))
        if not isinstance(p, Ptr) or p.base not in s.mem or s.mem[p.base].kind != "vec":
            raise Undecided("vector data")
        return s.mem[p.base], n

    def alloc_ok(self, s):
        return self.I.decide(s, self.cond(self.W.bytes - 1))

    def tail(self, s, base, lo, hi):
        """the unused tail after the operation must lie in a mapping and hold no live block"""
        lay = self.lay
        p = self.I.topt(s, self.fld(s, lay.next))
        r = self.num(s, self.fld(s, lay.off["rem"]))
        z = self.I.decide(s, self.eqc(r))
        if z:
            self.obl += 1
            return
        if not (isinstance(p.base, str) and p.base.startswith("mem:") and p.base in s.mem):
            self.obl += 1
            self.I.report("tail", "the unused part of the pool is not inside a region", s)
            return
        o = s.mem[p.base]
        self.require(s, not o.freed, "tail", "the unused part of the pool is in an unmapped region")
        self.require(s, self.cond(p.off), "tail", "the unused part of the pool starts before its region")
        self.require(s, self.cond(L(o.meta[1]) - p.off - r), "tail", "the bytes counted as remaining reach past the end of the region")
        if p.base == "mem:cur":
            self.require(s, self.cond(p.off - self.W.off0), "tail", "memory already handed out is counted as unused again")
            self.require(s, self.cond(self.W.off0 + self.rem - p.off - r), "tail", "the bytes counted as remaining reach past the end of the region")
        if base is not None and base == p.base:
            a = self.I.tri(s, self.cond(p.off - hi))
            b = self.I.tri(s, self.cond(lo - p.off - r))
            if a or b:
                self.obl += 1
            elif a is None and b is None:
                raise split_ge(p.off - hi)
            elif a is None:
                raise split_ge(p.off - hi)
            elif b is None:
                raise split_ge(lo - p.off - r)
            else:
                self.I.report("tail", "the block handed out stays counted as unused", s)

    def regions(self, s):
        """every mapping is recorded once with its length; earlier records untouched"""
        lay = self.lay
        o, n = self.vec(s, lay.regs)
        maps = [k for k in s.mem if isinstance(k, str) and k.startswith("mem:new") and not s.mem[k].freed]
        maps.sort()
        segb = [x for x in self.I.seg_slice(s, o.arr["f%d" % lay.rbase], Lin(0), n)]
        segs = [x for x in self.I.seg_slice(s, o.arr["f%d" % lay.rsize], Lin(0), n)]
        self.require(s, self.eqc(n - self.n - len(maps)), "map", "the number of recorded regions does not match the mappings")
        q = self.n
        exp = [(Lin(0), q - 1, ("src", "rb", Lin(0))), (q - 1, q, ("val", Ptr("mem:cur", Lin(0))))]
        pos = q
        for k in maps:
            exp.append((pos, pos + 1, ("val", Ptr(k, Lin(0)))))
            pos = pos + 1
        ok = self.require(s, self.match(s, segb, exp), "map", "the recorded regions are not the mapped ones, each once")
        if ok:
            exp = [(Lin(0), q - 1, ("src", "rs", Lin(0))), (q - 1, q, ("val", self.S))]
            sz = []
            for i in range(len(maps)):
                sz.append(self.I.seg_read(s, o.arr["f%d" % lay.rsize], q + i))
            self.require(s, self.match(s, self.I.seg_slice(s, segs, Lin(0), q), exp), "map", "the recorded length of an earlier region changed")
            for k, z in zip(maps, sz):
                if not isinstance(z, Lin):
                    z = self.I.toint(s, z)
                self.require(s, self.W.samepages(s, z, L(s.mem[k].meta[1])), "map", "a region is recorded with a length other than the mapped one")
                if s.mem[k].meta[2]:
                    zq = self.I.divk(s, z, HUGE, False)
                    self.require(s, self.eqc(z - zq * HUGE), "map", "a huge-page region is recorded with a length that cannot be unmapped")
        self.require(s, not s.mem["mem:cur"].freed and self.match(s, s.mem["unmapped"].arr["u"], [(Lin(0), q, ("val", 0))]),
                     "map", "a region in use is unmapped")
        return len(maps)

    def lists(self, s, head=None, added=None):
        """the free lists are the old ones, except that list f's head is `head`; `added`: a list for
        this size may have been appended"""
        lay = self.lay
        o, n = self.vec(s, lay.lists)
        m = self.m
        none = self.eqc(self.W.f - m)
        hit = not self.I.decide(s, none)
        extra = n - m
        x = self.I.decide(s, self.eqc(extra))
        bs = self.I.seg_slice(s, o.arr["f%d" % lay.lsize], Lin(0), n)
        hd = self.I.seg_slice(s, o.arr["f%d" % lay.lhead], Lin(0), n)
        eb = [(Lin(0), m, ("src", "bs", Lin(0)))]
        eh = [(Lin(0), m, ("src", "hd", Lin(0)))]
        if hit and head is not None:
            f = self.W.f
            eh = [(Lin(0), f, ("src", "hd", Lin(0))), (f, f + 1, ("val", head)), (f + 1, m, ("src", "hd", Lin(0)))]
        if not x:
            self.require(s, self.eqc(extra - 1), "list", "the number of free lists changes by more than one")
            self.require(s, not hit, "list", "a second free list for the same block size appears")
            self.require(s, added is not False, "list", "a free list appears")
            eb.append((m, m + 1, ("val", self.W.bytes)))
            eh.append((m, m + 1, ("val", NULL)))
        elif added and not hit:
            self.require(s, False, "list", "a block was handed out but there is no free list for its size, so it can never be recycled")
        self.require(s, self.match(s, [q for q in bs], eb), "list", "the block sizes of the free lists change")
        self.require(s, self.match(s, [self.heads(q) for q in hd], eh), "list", "a free list loses, repeats or gains blocks it should not")

    @staticmethod
    def heads(q):
        lo, hi, c = q
        if c[0] == "val" and isinstance(c[1], Ptr) and isinstance(c[1].base, tuple) and c[1].base[0] == "nx":
            return lo, hi, ("val", c[1].base)
        if c[0] == "val" and isinstance(c[1], Lin) and c[1] == Lin(0):
            return lo, hi, ("val", NULL)
        return q

    def stats(self, s, d):
        for k in STATS:
            v = self.num(s, self.fld(s, self.lay.stats[k]))
            e = d.get(k, self.s0[k])
            self.require(s, self.eqc(v - e), "stats", "the statistic %s is not updated exactly" % k)

    def rest(self, s):
        """members that never change"""
        for k in ("init", "growth"):
            self.require(s, self.eqc(self.num(s, self.fld(s, self.lay.off[k])) - nsym(k)), "list", "the pool's configuration changes")

    # --- operations
    def op_allocate(self, al):
        W = self.W
        st = self.pre()
        st.mem["out"] = Obj("heap", "out", size=8)
        by = W.bytes
        # blocks are at least as large as a pointer (documented requirement)
        if not st.assume([]):
            return self
        zero = st.copy()
        zero.assume([-by])
        st.assume([by - 8])

        def post(s, kind, val):
            self.rest(s)
            maps = self.regions(s)
            grown = dict(self.s0)
            grown["growth_events"] = self.s0["growth_events"] + maps
            if kind == "throw":
                self.require(s, bool(s.ms.get("fault")) or self.I.tri(s, self.cond(by - (1 << 47) + (1 << 31))) is True,
                             "throw", "allocate throws although nothing failed")
                self.tail(s, None, None, None)
                self.lists(s)
                self.stats(s, grown)
                return
            f = s.mem["out"].fields.get(0)
            p = self.I.topt(s, f[1]) if f and f[1] != UNDEF else None
            if p is None:
                raise Undecided("returned pointer")
            if isinstance(p.base, tuple):
                b = W.resolve(s, p.base)
                p = Ptr(b, p.off) if b is not None else NULL
            if not self.alloc_ok(s):
                self.require(s, p.base is None and self.I.decide(s, self.eqc(p.off)), "block", "a request of no bytes does not yield a null pointer")
                self.tail(s, None, None, None)
                self.lists(s, added=False)
                self.stats(s, grown)
                return
            if p.base is None:
                self.require(s, False, "block", "allocate returns a null pointer")
                return
            a = self.I.ptr2int(s, p)
            q = self.I.divk(s, a, al, False)
            self.require(s, self.eqc(a - q * al), "align", "the block is not aligned as requested")
            e = dict(grown)
            e["allocations"] = self.s0["allocations"] + 1
            e["bytes_allocated"] = self.s0["bytes_allocated"] + by
            cu = self.s0["current_usage"] + by
            e["current_usage"] = cu
            e["peak_usage"] = cu if self.I.decide(s, self.cond(cu - self.s0["peak_usage"])) else self.s0["peak_usage"]
            if str(p.base).startswith("blk:"):
                o = s.mem[p.base]
                self.require(s, self.eqc(p.off), "recycle", "a recycled block is handed out at an offset")
                ix = o.meta[1][2]
                sz = by if W.isf(s, ix) else self.I.toint(s, ("el", "bs", ix))
                self.require(s, self.cond(sz - by), "recycle", "a recycled block is smaller than the request")
                self.require(s, W.isf(s, ix), "recycle", "a recycled block comes from the list of another size")
                self.require(s, self.eqc(a - q * al), "recycle", "a recycled block is not aligned as requested")
                self.tail(s, None, None, None)
                self.lists(s, head=("nx", p.base[4:]))
                self.stats(s, e)
                return
            o = s.mem.get(p.base)
            if o is None or o.kind != "raw":
                raise Undecided("block in %r" % (p,))
            lo, hi = p.off, p.off + by
            self.require(s, not o.freed, "block", "the block lies in an unmapped region")
            self.require(s, self.cond(lo), "block", "the block starts before its region")
            self.require(s, self.cond(L(o.meta[1]) - hi), "block", "the block reaches past the end of the region")
            if p.base == "mem:cur":
                self.require(s, self.cond(lo - W.off0), "overlap", "the block overlaps memory already handed out")
                self.require(s, self.cond(W.off0 + self.rem - hi), "block", "the block reaches past the unused part of the region")
            self.tail(s, p.base, lo, hi)
            self.lists(s, added=True)
            self.stats(s, e)
            # a suitable released block is preferred
            if not self.I.decide(s, self.eqc(W.f - self.m)) and not W.hnull(s, W.f):
                b = W.resolve(s, ("el", "hd", W.f))
                aa = self.I.addrsym(b)
                qq = self.I.divk(s, aa, al, False)
                self.require(s, not self.I.decide(s, self.eqc(aa - qq * al)), "recycle", "a released block that suits the request is not recycled")
        args = [Ptr("pool", Lin(0)), by, Lin(al), Ptr("out", Lin(0))]
        self.run("vpe_alloc", st, args, post)
        self.run("vpe_alloc", zero, args, post)
        return self

    def op_deallocate(self):
        W = self.W
        by = W.bytes
        for case in ("block", "inside", "null", "none"):
            blk = case in ("block", "inside")
            st = self.pre(needlist=blk)
            o = Obj("heap", "released block", size=None, align=8)
            o.fields[0] = (8, ("old", "word"))
            st.mem["ret"] = o
            a = self.I.addrsym("ret")
            st.cons.add(a - 8)
            st.cons.add(Lin(TOP) - a - (by if blk else 0))
            if case == "inside":
                # the block was carved from the region in use
                ro = a - self.I.addrsym("mem:cur")
                st.cons.add(ro)
                st.cons.add(W.off0 - ro - by)
            if blk:
                ok = st.assume([by - 8, self.s0["current_usage"] - by])
            elif case == "none":
                ok = st.assume([-by])
            else:
                ok = True
            assert ok

            def post(s, kind, val, case=case):
                self.require(s, kind == "ret", "throw", "deallocate throws")
                self.rest(s)
                self.regions(s)
                self.tail(s, None, None, None)
                e = dict(self.s0)
                w = s.mem["ret"].fields.get(0)
                if case not in ("block", "inside"):
                    self.lists(s, added=False)
                    self.stats(s, e)
                    return
                e["deallocations"] = self.s0["deallocations"] + 1
                e["current_usage"] = self.s0["current_usage"] - by
                self.lists(s, head=Ptr("ret", Lin(0)), added=False)
                x = w[1] if w else None
                if isinstance(x, Ptr) and isinstance(x.base, tuple):
                    x = x.base
                if tok(x, "hd"):
                    d = x[2] - W.f
                    self.require(s, self.eqc(d), "list", "the released block is linked to the wrong list")
                elif isinstance(x, Ptr) and x.base is None:
                    self.require(s, W.hnull(s, W.f), "list", "the blocks released earlier are lost")
                else:
                    self.require(s, False, "list", "the released block is not linked to the blocks released before it")
                self.stats(s, e)
            p = NULL if case == "null" else Ptr("ret", Lin(0))
            self.run("vpe_dealloc", st, [Ptr("pool", Lin(0)), p, by], post)
        return self

    def op_ctor(self):
        W, lay = self.W, self.lay
        st = State()
        st.mem["pool"] = Obj("heap", "pool", size=lay.size, align=16)
        args = [Ptr("pool", Lin(0))]
        for k in ("init", "growth"):
            x = nsym(k)
            st.cons.add(x)
            st.cons.add(Lin((1 << 64) - 1) - x)
        hp = nsym("hugepages")
        st.cons.add(hp)
        st.cons.add(Lin(1) - hp)
        args += [nsym("init"), ("ge", hp - 1), nsym("growth")]

        def post(s, kind, val):
            maps = [k for k in s.mem if isinstance(k, str) and k.startswith("mem:new") and not s.mem[k].freed]
            if kind == "throw":
                self.require(s, bool(s.ms.get("fault")) or bool([e for e in s.ev if e[0] == "mmap"]), "throw", "construction throws although nothing failed")
                self.require(s, not maps, "map", "a mapping is lost when construction fails")
                return
            o, n = self.vec(s, lay.regs)
            self.require(s, self.eqc(n - len(maps)), "map", "the number of recorded regions does not match the mappings")
            sz = []
            for i, k in enumerate(sorted(maps)):
                b = self.I.seg_read(s, o.arr["f%d" % lay.rbase], Lin(i))
                z = self.I.seg_read(s, o.arr["f%d" % lay.rsize], Lin(i))
                self.require(s, isinstance(b, Ptr) and b == Ptr(k, Lin(0)), "map", "the recorded region is not the mapped one")
                if not isinstance(z, Lin):
                    raise Undecided("recorded length")
                self.require(s, W.samepages(s, z, L(s.mem[k].meta[1])), "map", "a region is recorded with a length other than the mapped one")
                if s.mem[k].meta[2]:
                    zq = self.I.divk(s, z, HUGE, False)
                    self.require(s, self.eqc(z - zq * HUGE), "map", "a huge-page region is recorded with a length that cannot be unmapped")
            p = self.I.topt(s, self.fld(s, lay.next))
            r = self.num(s, self.fld(s, lay.off["rem"]))
            if not self.I.decide(s, self.eqc(r)):
                ok = isinstance(p.base, str) and p.base in maps
                self.require(s, ok, "tail", "the unused part of the pool is not inside a region")
                if ok:
                    self.require(s, self.cond(p.off), "tail", "the unused part of the pool starts before its region")
                    self.require(s, self.cond(L(s.mem[p.base].meta[1]) - p.off - r), "tail",
                                 "the bytes counted as remaining reach past the end of the region")
            _, m = self.vec(s, lay.lists)
            self.require(s, self.eqc(m), "list", "a new pool has free lists")
            for k in ("init", "growth"):
                self.require(s, self.eqc(self.num(s, self.fld(s, lay.off[k])) - nsym(k)), "list", "the pool's configuration is not the requested one")
            for k in STATS:
                self.require(s, self.eqc(self.num(s, self.fld(s, lay.stats[k]))), "stats", "the statistic %s does not start at zero" % k)
            hv = self.fld(s, lay.off["huge"])
            hv = self.I.decide(s, self.I.tocond(s, hv))
            mh = any(s.mem[k].meta[2] for k in maps)
            self.require(s, hv == mh, "list", "using_hugepages does not tell what the pool is made of")
        self.run("vpe_ctor", st, args, post)
        return self

    def op_dtor(self):
        W = self.W
        st = self.pre()
        # the last region is as arbitrary as the others
        o = st.w("regs")
        n = self.n
        rr = nsym("regionroom")
        o.arr["f%d" % self.lay.rbase] = ((Lin(0), n, ("src", "rb", Lin(0))), (n, n + rr, ("undef",)))
        o.arr["f%d" % self.lay.rsize] = ((Lin(0), n, ("src", "rs", Lin(0))), (n, n + rr, ("undef",)))

        def post(s, kind, val):
            self.require(s, kind == "ret", "throw", "the destructor throws")
            self.require(s, self.match(s, s.mem["unmapped"].arr["u"], [(Lin(0), n, ("val", 1))]), "map",
                         "a region is not unmapped when the pool is destroyed")
        self.run("vpe_dtor", st, [Ptr("pool", Lin(0))], post)
        return self

    def op_observers(self):
        W, lay = self.W, self.lay
        st = self.pre()
        st.mem["o"] = Obj("heap", "o", size=88)

        def post(s, kind, val):
            F = s.mem["o"].fields
            exp = {8: self.rem, 16: nsym("init"), 24: nsym("growth")}
            for i, k in enumerate(("allocations", "deallocations", "growth_events", "bytes_allocated", "current_usage", "peak_usage")):
                exp[32 + 8 * i] = self.s0[k]
            for off, e in exp.items():
                v = self.num(s, F[off][1])
                self.require(s, self.eqc(v - e), "stats", "an observer does not report %s" % e)
            for off in (0, 1):
                v = F[off][1]
                h = self.I.decide(s, self.I.tocond(s, v))
                e = self.I.decide(s, self.cond(nsym("hugepages") - 1))
                self.require(s, h == e, "stats", "using_hugepages misreports")
        self.run("vpe_observers", st, [Ptr("pool", Lin(0)), Ptr("o", Lin(0))], post)
        return self
