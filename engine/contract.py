"""Whole-container operations that are loops over other public operations (copying, construction
from a range, erasing a range, moving element by element) are decided against the contracts of
those operations, which C01-C04, C11 and C12 decide from their bodies: a tree is a sequence of
elements, an iterator a position in it.  The operation's own body is interpreted as usual."""
from lin import Lin, L
from absint import Ptr, NULL, UNDEF, Agg, PathEnd, Undecided, Obj, State, nsym
from tree import TreeWorld, TreeCheck, GE, EQ, simp, tokarr
from worlds import Ctx

BIG = 1 << 40
KO, VO, RO = 0, 1 << 45, 1 << 46

# calls kept as calls in the analysed program
KEEP = (r">::(insert|emplace|emplace_hint|try_emplace|insert_or_assign|erase|find|begin|end|cbegin|cend|clear|size|empty|"
        r"deallocate_tree|~btree)(<|\(|$)|::iterator::operator")


def short(d):
    out, dep = [], 0
    for a, b in (("operator<=>", "operator@cmp"), ("operator<", "operator@lt"), ("operator->", "operator@arrow"),
                 ("operator>", "operator@gt")):
        d = d.replace(a, b)
    for c in d:
        if c == "<":
            dep += 1
        elif c == ">":
            dep -= 1
        elif dep == 0:
            out.append(c)
    return "".join(out)


class SeqWorld(TreeWorld):
    peel = True

    def terminate(self, st, ins):
        """moves of whole trees are declared noexcept and take memory: a failure ends the program, as documented"""

    def __init__(self, lay, height, canthrow=False):
        TreeWorld.__init__(self, lay, height, canthrow)
        self.names = {}
        self.lists = {}

    def mname(self, cn):
        if cn not in self.names:
            f = self.I.P.fns.get(cn)
            r = None
            if f is not None and "btree<" in f.dem:
                s = short(f.dem).split("(")[0]
                i = s.find("fast_containers::btree::")
                if i >= 0:
                    r = s[i + len("fast_containers::btree::"):]
            self.names[cn] = r
        return self.names[cn]

    # -- abstract trees
    def seqtree(self, st, T, name, n, removal=False):
        lay = self.lay
        o = Obj("heap", "tree " + T, size=lay.tsize, align=8, init="seq", meta=("seq", name))
        o.fields[lay.tla] = (8, Ptr("tag:%sl" % name, Lin(0)))
        o.fields[lay.tia] = (8, Ptr("tag:%si" % name, Lin(0)))
        o.fields[lay.tsizeoff] = (8, n)
        st.mem[T] = o
        for k in "li":
            st.mem.setdefault("tag:%s%s" % (name, k), Obj("heap", "allocator " + k, size=8))
        q = Obj("heap", "elements of " + T, size=1 << 50,
                regions=((KO, 8, BIG, "keys"), (VO, 8, BIG, "vals"), (RO, 8, BIG, "rm")))
        q.arr["keys"] = ((Lin(0), n, ("src", name + ".k", Lin(0))), (n, Lin(BIG), ("undef",)))
        q.arr["vals"] = ((Lin(0), n, ("src", name + ".v", Lin(0))), (n, Lin(BIG), ("undef",)))
        q.arr["rm"] = ((Lin(0), n, ("val", Lin(0))), (n, Lin(BIG), ("undef",)))
        q.fields[1 << 47] = (8, n)             # end position
        q.fields[(1 << 47) + 8] = (8, Lin(0))  # epoch: counts what may invalidate iterators
        q.meta = "seq"
        st.mem["q:" + T] = q
        return Ptr(T, Lin(0))

    def qlen(self, st, T):
        return st.mem["q:" + T].fields[1 << 47][1]

    def epoch(self, st, T):
        return st.mem["q:" + T].fields[(1 << 47) + 8][1]

    def bump(self, st, T):
        st.w("q:" + T).fields[(1 << 47) + 8] = (8, self.epoch(st, T) + 1)

    def lazyload(self, st, b, k, size, ty):
        m = st.mem[b].meta
        if isinstance(m, tuple) and m and m[0] in ("seq", "dead"):
            raise Undecided("internals of an abstract tree are used")
        return TreeWorld.lazyload(self, st, b, k, size, ty)

    def lazyfields(self, st, sb, so, n, vals):
        m = st.mem[sb].meta
        if isinstance(m, tuple) and m and m[0] in ("seq", "dead"):
            return vals
        return TreeWorld.lazyfields(self, st, sb, so, n, vals)

    def lazy_same(self, s, ref, oid, k):
        if st_seq(s.mem[oid]):
            return False
        return TreeWorld.lazy_same(self, s, ref, oid, k)

    def lazy_merge(self, A, B, oid, k):
        if st_seq(A.mem[oid]):
            return None
        return TreeWorld.lazy_merge(self, A, B, oid, k)

    def isseq(self, st, p):
        return isinstance(p, Ptr) and not isinstance(p.base, tuple) and p.base in st.mem and not p.off.t and p.off.c == 0 and \
            isinstance(st.mem[p.base].meta, tuple) and st.mem[p.base].meta[0] == "seq"

    # -- iterators
    def mkit(self, st, p, T, rank):
        b, off = self.I.resolve(st, p, "write")
        o = st.w(b)
        k = off.c
        for fo in list(o.fields):
            if k <= fo < k + 32:
                del o.fields[fo]
        o.fields[k] = (8, rank)
        o.fields[k + 8] = (8, Ptr(T, Lin(0)))
        o.fields[k + 16] = (8, self.epoch(st, T) if T is not None else Lin(0))

    def getit(self, st, p):
        if not isinstance(p, Ptr) or isinstance(p.base, tuple) or p.base not in st.mem or p.off.t:
            return None
        o, k = st.mem[p.base], p.off.c
        f = [o.fields.get(k + 8 * i) for i in range(3)]
        if any(x is None for x in f) or not isinstance(f[1][1], Ptr) or not isinstance(f[1][1].base, str):
            return None
        T = f[1][1].base
        if not self.isseq(st, f[1][1]):
            return None
        if not isinstance(f[0][1], Lin):
            raise Undecided("position of an inserted element is used")
        if self.I.decide(st, simp(("ne", f[2][1] - self.epoch(st, T)))):
            self.I.report("iter", "an iterator is used after an operation that may have invalidated it", st)
            raise PathEnd()
        return T, f[0][1]

    def live(self, st, T, r, what):
        n = self.qlen(st, T)
        if not self.I.decide(st, GE(n - r - 1)) or not self.I.decide(st, GE(r)):
            self.I.report("iter", "%s outside the sequence" % what, st)
            raise PathEnd()
        if not self.logtree(st, T) and self.I.seg_read(st, st.mem["q:" + T].arr["rm"], r) != Lin(0):
            self.I.report("iter", "%s an erased element" % what, st)
            raise PathEnd()

    def logtree(self, st, T):
        return len(st.mem[T].meta) > 2

    def itop(self, st, op, args):
        post = op in ("operator++", "operator--") and len(args) == 3
        this = args[1] if post else args[0]
        x = self.getit(st, this)
        if x is None:
            return None
        T, r = x
        n = self.qlen(st, T)
        if op == "operator==" or op == "operator!=":
            y = self.getit(st, args[1])
            if y is None:
                raise Undecided("comparison with another kind of iterator")
            e = EQ(r - y[1]) if T == y[0] else False
            if op == "operator!=":
                from absint import cnot
                e = cnot(e) if not isinstance(e, bool) else not e
            return e
        if op in ("operator*", "operator@arrow"):
            self.live(st, T, r, "dereference")
            q = "q:" + T
            return Agg([Ptr(q, r * 8 + KO), Ptr(q, r * 8 + VO)])
        if op in ("operator++", "operator--"):
            if op == "operator++":
                self.live(st, T, r, "stepping over an element")
                r2 = r + 1
            else:
                r2 = r - 1
                self.live(st, T, r2, "stepping back to an element")
            if not self.logtree(st, T) and self.I.decide(st, GE(n - r2 - 1)) and \
                    self.I.seg_read(st, st.mem["q:" + T].arr["rm"], r2) != Lin(0):
                raise Undecided("stepping over erased elements")
            if post:
                self.mkit(st, args[0], T, r)
            self.mkit(st, this, T, r2)
            return this if not post else None
        raise Undecided("iterator operation " + op)

    def tok(self, st, p):
        return self.I.load(st, self.I.topt(st, p), 8, ["i", 64])

    INSERTS = ("insert", "emplace", "emplace_hint", "try_emplace", "insert_or_assign")

    def callhook(self, st, cn, args, ins):
        m = self.mname(cn)
        if m is None:
            return None
        # on a copy: the effect is all or nothing when a question in between needs a case split
        return self.contract(st.copy(), m, args)

    def contract(self, st, m, args):
        I = self.I
        if m.startswith("iterator::"):
            op = m[len("iterator::"):]
            if not op.startswith("operator"):
                return None
            v = self.itop(st, op, args)
            if v is None and not (op in ("operator++", "operator--") and len(args) == 3 and self.getit(st, args[1])):
                return None
            return [(st, "ret", v)]
        if "::" in m:
            return None
        if m in self.INSERTS:
            this = args[1]
            if not self.isseq(st, this):
                if not self.toseq(st, this):
                    return None
            T = this.base
            if m == "insert" and len(args) == 3:
                k, v = self.tok(st, args[2]), self.tok(st, args[2] + 8)
            elif m == "emplace_hint" and len(args) == 5:
                k, v = self.tok(st, args[3]), self.tok(st, args[4])
            elif len(args) == 4:
                k, v = self.tok(st, args[2]), self.tok(st, args[3])
            else:
                raise Undecided("form of " + m)
            if not self.logtree(st, T):
                raise Undecided("insertion into a tree that is being read")
            out = []
            if self.canthrow:
                s2 = st.copy()
                s2.ev = s2.ev + (("badalloc",),)
                out.append((s2, "throw", None))
            if self.lay.tsizeoff in st.mem[T].fields:
                raise Undecided("insertion after the size was set directly")
            q = st.w("q:" + T)
            n = self.qlen(st, T)
            for r, x in (("keys", k), ("vals", v)):
                q.arr[r] = I.seg_write(st, q.arr[r], n, x)
            q.fields[1 << 47] = (8, n + 1)
            self.bump(st, T)
            # the returned pair is left unspecified
            o = args[0]
            if m != "emplace_hint" or True:
                b, off = I.resolve(st, o, "write")
                w = st.w(b)
                w.fields = {x: y for x, y in w.fields.items() if not off.c <= x < off.c + 40}
                w.fields[off.c] = (8, ("?",))
                w.fields[off.c + 8] = (8, Ptr(T, Lin(0)))
                w.fields[off.c + 16] = (8, self.epoch(st, T))
            out.append((st, "ret", None))
            return out
        nret = {"begin": 1, "end": 1, "cbegin": 1, "cend": 1, "find": 1}.get(m, 0)
        if m == "erase":
            nret = 1 if len(args) == 3 else 0
            if len(args) != 3:
                return None
        if len(args) <= nret:
            return None
        this = args[nret]
        if not self.isseq(st, this):
            return None
        T = this.base
        n = self.qlen(st, T)
        q = st.mem["q:" + T]
        if m in ("begin", "cbegin"):
            if not self.logtree(st, T) and I.decide(st, GE(n - 1)) and I.seg_read(st, q.arr["rm"], Lin(0)) != Lin(0):
                raise Undecided("begin() after erasure")
            self.mkit(st, args[0], T, Lin(0))
            return [(st, "ret", None)]
        if m in ("end", "cend"):
            self.mkit(st, args[0], T, n)
            return [(st, "ret", None)]
        if m in ("size", "empty"):
            if self.logtree(st, T):
                raise Undecided("size of a tree being built")
            sz = st.mem[T].fields[self.lay.tsizeoff][1]
            return [(st, "ret", sz if m == "size" else EQ(sz))]
        if m == "find":
            k = self.tok(st, args[2])
            if not (isinstance(k, tuple) and k[0] == "el" and k[1] == st.mem[T].meta[1] + ".k"):
                raise Undecided("find of a foreign key")
            if I.seg_read(st, q.arr["rm"], k[2]) == Lin(0):
                self.mkit(st, args[0], T, k[2])
            else:
                self.mkit(st, args[0], T, n)
            return [(st, "ret", None)]
        if m == "erase":
            x = self.getit(st, args[2])
            if x is None or x[0] != T:
                raise Undecided("erase at a foreign position")
            if self.logtree(st, T):
                raise Undecided("erase from a tree being built")
            r = x[1]
            self.live(st, T, r, "erase")
            if st.mem[T].kind == "const":
                I.report("constwrite", "a constant tree is modified", st)
                raise PathEnd()
            w = st.w("q:" + T)
            w.arr["rm"] = I.seg_write(st, w.arr["rm"], r, Lin(1))
            self.bump(st, T)
            t = st.w(T)
            t.fields[self.lay.tsizeoff] = (8, t.fields[self.lay.tsizeoff][1] - 1)
            if I.decide(st, GE(n - r - 2)) and I.seg_read(st, st.mem["q:" + T].arr["rm"], r + 1) != Lin(0):
                raise Undecided("erasure before an erased element")
            self.mkit(st, args[0], T, r + 1)
            return [(st, "ret", None)]
        if m == "clear":
            if st.mem[T].kind == "const":
                I.report("constwrite", "a constant tree is modified", st)
                raise PathEnd()
            w = st.w("q:" + T)
            for r in ("keys", "vals", "rm"):
                w.arr[r] = ((Lin(0), Lin(BIG), ("undef",)),)
            w.fields[1 << 47] = (8, Lin(0))
            self.bump(st, T)
            st.w(T).fields[self.lay.tsizeoff] = (8, Lin(0))
            return [(st, "ret", None)]
        if m in ("deallocate_tree", "~btree"):
            w = st.w(T)
            w.meta = ("dead",)
            return [(st, "ret", None)]
        raise Undecided("operation %s on an abstract tree" % m)

    def toseq(self, st, this):
        """a concrete tree becomes abstract when elements are inserted into it: it must be a valid
        empty tree, or the untouched original one (whose elements it then starts with)"""
        lay, I = self.lay, self.I
        if not isinstance(this, Ptr) or this.base not in st.mem or this.off.t or this.off.c:
            return False
        T = this.base
        o = st.mem[T]
        if o.size != lay.tsize:
            return False

        def f(x):
            v = o.fields.get(x)
            return v[1] if v else None
        meta = o.meta if isinstance(o.meta, tuple) else None
        init = ()
        if meta is not None and meta[0] == "tree" and self.pristine.get(T) is not None and o is self.pristine[T] and \
                not (I.decide(st, EQ(meta[3]))):
            n = meta[3]
            init = ((Lin(0), n, ("src", meta[1] + "*.k", Lin(0))),)
            root = meta[1]
        else:
            sz, leaf = f(lay.tsizeoff), f(lay.tisleaf)
            if not isinstance(sz, Lin) or not isinstance(leaf, Lin):
                raise Undecided("insertion into a tree that is not set up")
            if I.decide(st, simp(("ne", sz))) or not I.decide(st, simp(("ne", leaf))):
                raise Undecided("insertion into a partly built tree")
            p = f(lay.troot)
            root = p.base if isinstance(p, Ptr) and not p.off.t and p.off.c == 0 else None
            r = st.mem.get(root)
            if r is None or r.freed or r.size != lay.lsize:
                raise Undecided("insertion into a tree without a root leaf")
            rn = r.fields.get(lay.ldoff + lay.ldm.soff)
            if rn is None or not isinstance(rn[1], Lin) or not I.decide(st, EQ(rn[1])):
                raise Undecided("insertion into a tree whose root is not empty")
            for x in (lay.tleft, lay.tright):
                v = f(x)
                if v is None and meta is not None and meta[0] == "tree":
                    v = self.initval(st, T, x)
                if v != p:
                    I.report("ends", "elements are inserted into a tree whose end leaves are not set", st)
                    raise PathEnd()
            n = Lin(0)
        w = st.w(T)
        w.meta = ("seq", T, "log", root)
        w.init = "seq"
        for x in (lay.tsizeoff, lay.tisleaf, lay.troot, lay.tleft, lay.tright):
            w.fields.pop(x, None)
        q = Obj("heap", "elements of " + T, size=1 << 50, regions=((KO, 8, BIG, "keys"), (VO, 8, BIG, "vals")))
        for k, e in (("keys", ".k"), ("vals", ".v")):
            q.arr[k] = tuple((a, b, ("src", c[1][:-2] + e, c[2])) for a, b, c in init) + ((n, Lin(BIG), ("undef",)),)
        q.fields[1 << 47] = (8, n)
        q.fields[(1 << 47) + 8] = (8, Lin(0))
        q.meta = "seq"
        st.mem["q:" + T] = q
        return True

    pristine = {}

    # -- element sources given from outside
    def ptrscale(self, st, p):
        return 16 if p.base == "il" else TreeWorld.ptrscale(self, st, p)

    def ptridx(self, st, p):
        return (p.off.div(16) if p.off.divisible(16) else None) if p.base == "il" else TreeWorld.ptridx(self, st, p)

    def redirect(self, st, p, size):
        if isinstance(p, Ptr) and p.base == "il":
            for c, r in ((0, "keys"), (8, "vals")):
                d = p.off - c
                if d.divisible(16):
                    return ("in", r, d.div(16))
            raise Undecided("partial access to an initializer list")
        return TreeWorld.redirect(self, st, p, size)

    def external(self, st, cn, args, ins):
        if cn in ("vp_key", "vp_val"):
            i = self.I.toint(st, args[0])
            n = self.inlen
            if not self.I.decide(st, GE(n - i - 1)) or not self.I.decide(st, GE(i)):
                self.I.report("iter", "input iterator dereferenced outside its range", st)
                raise PathEnd()
            return [(st, "ret", Ptr("in", i * 8 + (KO if cn == "vp_key" else VO)))]
        return TreeWorld.external(self, st, cn, args, ins)

    def less(self, st, a, b):
        def sq(x):
            return isinstance(x, tuple) and x and x[0] == "el" and x[1][:-2] not in self.roots.values() and \
                "/" not in x[1] and x[1].endswith(".k")
        if sq(a) and sq(b) and a[1] == b[1] and a[1] != "in.k":
            return GE(b[2] - a[2] - 1)
        return TreeWorld.less(self, st, a, b)


def st_seq(o):
    return isinstance(o.meta, tuple) and o.meta and o.meta[0] in ("seq", "dead")


class SeqCheck(TreeCheck):
    def wctx(self, **kw):
        w = SeqWorld(self.lay, self.H, **kw)
        w.pristine = {}
        return Ctx(self.P, w), w

    def same(self, C, st, T, src, n, what):
        """the log of T is exactly the elements of src in order (or a rearrangement of them)"""
        q = st.mem["q:" + T]
        ln = C.W.qlen(st, T)
        C.obl += 1
        ok = C.I.decide(st, EQ(ln - n))
        if ok:
            for r, e in (("keys", ".k"), ("vals", ".v")):
                got = C.I.seg_slice(st, q.arr[r], Lin(0), ln)
                ok = ok and C.match(st, got, [(Lin(0), n, ("src", src + e, Lin(0)))])
        if not ok and self.permuted(C, st, q, ln, src, n):
            ok = True
        if not ok:
            C.require(st, False, "content", "%s: the elements are not exactly those of the source" % what)

    def fieldsok(self, C, s, n, mode, what):
        """the insertions keep count: nothing else may set the size or the links of the tree they built"""
        lay, f = self.lay, s.mem["T2"].fields
        C.obl += 1
        if any(x in f for x in (lay.tisleaf, lay.troot, lay.tleft, lay.tright)):
            raise Undecided("internals of an abstract tree are written")
        if lay.tsizeoff not in f:
            return
        v = f[lay.tsizeoff][1]
        if mode in ("range", "list"):
            # equivalent keys among the elements are stored once
            C.require(s, C.I.decide(s, GE(1 - n)), "size", "%s: size() is overwritten with a number that need not be that of the stored elements" % what)
        else:
            C.require(s, isinstance(v, Lin) and C.I.decide(s, EQ(v - n)), "size", "%s: size() is overwritten with a wrong number" % what)

    def permuted(self, C, st, q, ln, src, n):
        if src == "in":
            return False
        v = st.cons.witness()
        if v is None or not C.I.noloop:
            return False
        toks = []
        for r, e in (("keys", ".k"), ("vals", ".v")):
            ts = []
            for lo, hi, c in C.I.seg_slice(st, q.arr[r], Lin(0), ln):
                if c[0] != "src" or c[1] != src + e:
                    return False
                a, b, o = (x.eval(v) if hasattr(x, "eval") else None for x in (lo, hi, c[2]))
                if a is None:
                    return False
                ts += [int(i + o) for i in range(int(a), int(b))]
            toks.append(ts)
        nn = n.eval(v)
        return toks[0] == toks[1] and sorted(set(toks[0])) == list(range(int(nn)))

    def op_seq(self, entry, mode, h2=0, throwing=False):
        C, w = self.wctx(canthrow=throwing)
        st = State()
        what = entry[4:]
        n = nsym("n:S")
        st.cons.add(n)
        st.cons.add(Lin(BIG - 1) - n)
        st.mem["flag"] = Obj("heap", "result flag", size=1)
        lay = self.lay
        size2 = None
        w.bnd = (n,)
        T2 = Ptr("T2", Lin(0))
        src = "S"
        if mode in ("copyctor", "range", "list"):
            st.mem["T2"] = Obj("heap", "new tree", size=lay.tsize, align=8)
        else:
            size2 = w.tree(st, "T2", h2, False, "2", "2")
            w.pristine = {"T2": st.mem["T2"]}
        if mode in ("range", "list"):
            src = "in"
            w.inlen = n
            q = Obj("const", "input elements", size=1 << 50, regions=((KO, 8, BIG, "keys"), (VO, 8, BIG, "vals")))
            q.arr["keys"] = ((Lin(0), n, ("src", "in.k", Lin(0))), (n, Lin(BIG), ("undef",)))
            q.arr["vals"] = ((Lin(0), n, ("src", "in.v", Lin(0))), (n, Lin(BIG), ("undef",)))
            st.mem["in"] = q
            for k in "li":
                st.mem["tag:" + k] = Obj("heap", "allocator " + k, size=8)
            if mode == "range":
                args = [T2, n, Ptr("tag:l", Lin(0))]
            else:
                st.mem["ilo"] = Obj("const", "initializer list", size=16)
                st.mem["ilo"].fields = {0: (8, Ptr("il", Lin(0))), 8: (8, n)}
                args = [T2, Ptr("ilo", Lin(0)), Ptr("tag:l", Lin(0))]
        else:
            S = w.seqtree(st, "S", "S", n)
            if mode.startswith("copy"):
                st.mem["S"].kind = "const"
            args = [T2, S] + ([Ptr("flag", Lin(0))] if mode != "copyctor" else [])

        def post(s, kind, val):
            o = s.mem["T2"]
            meta = o.meta if isinstance(o.meta, tuple) else ("raw",)
            if kind == "throw":
                if not C.require(s, ("badalloc",) in s.ev, "throw", "%s throws although nothing failed" % what):
                    return
                if mode in ("copyctor", "range", "list"):
                    # the object under construction must have given everything back
                    C.require(s, meta[0] != "seq", "leak", "%s: elements are not released after an exception" % what)
                    for oid, x in s.mem.items():
                        if isinstance(x.meta, tuple) and x.meta[0] == "new" and meta[0] != "dead":
                            C.require(s, x.freed, "leak", "%s: %s is not released after an exception" % (what, x.name))
                return
            empty = C.I.decide(s, GE(-n))
            seen = []
            if meta[0] == "seq":
                self.same(C, s, "T2", src, n, what + " (target)")
                self.fieldsok(C, s, n, mode, what)
                seen = [meta[3]]
            elif meta[0] == "dead":
                C.require(s, False, "structure", "%s: the target has been destroyed" % what)
                return
            else:
                C.require(s, empty, "content", "%s: nothing is inserted from a non-empty source" % what)
                S = self.tree_ok(C, s, "T2", what + " (target)", lambda x: [], Lin(0))
                seen = S.seen if S else []
            if size2 is not None and "2R" not in seen:
                self.allgone(C, s, "2R", what)
            self.noleak(C, s, seen, what)
            if mode.startswith("copy"):
                self.same(C, s, "S", "S", n, what + " (source)")
            elif mode == "move":
                C.require(s, EQ(C.W.qlen(s, "S")), "content", "%s: the moved-from tree is not empty" % what)
            if mode in ("copyassign", "move"):
                C.require(s, self.flagval(C, s, "flag", 0) is True, "result", "%s does not return the target" % what)
        C.run(entry, st, args, post)
        return C

    def op_eraserange(self, entry):
        C, w = self.wctx()
        st = State()
        n, a, b = nsym("n:S"), nsym("first"), nsym("last")
        for l in (n, a, b - a, n - b, Lin(BIG - 1) - n):
            st.cons.add(l)
        w.bnd = (n, a, b)
        t = w.seqtree(st, "S", "S", n)
        for oid, r in (("ia", a), ("ib", b)):
            st.mem[oid] = Obj("heap", "iterator", size=48)
            w.mkit(st, Ptr(oid, Lin(0)), "S", r)
        st.mem["res"] = Obj("heap", "result", size=max(self.res.values()) + 8)

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "erase of a range throws"):
                return
            q = s.mem["q:S"]
            C.obl += 1
            want = [(Lin(0), a, ("val", Lin(0))), (a, b, ("val", Lin(1))), (b, n, ("val", Lin(0)))]
            if not C.match(s, C.I.seg_slice(s, q.arr["rm"], Lin(0), n), want):
                C.require(s, False, "content", "erase of a range does not remove exactly the elements in [first, last)")
            sz = self.fld(s, "S", self.lay.tsizeoff)
            C.require(s, EQ(sz - (n - (b - a))), "size", "size() after erase of a range is wrong")

            def el(i):
                return (("el", "S.k", i), ("el", "S.v", i)) if C.I.decide(s, GE(n - i - 1)) else None
            e = el(b)
            self.result2(C, s, "erase of a range", e, el(b + 1) if e else None)
        C.run(entry, st, [t, Ptr("ia", Lin(0)), Ptr("ib", Lin(0)), Ptr("res", Lin(0))], post)
        return C

    def result2(self, C, st, what, exp, nxt):
        r = self.res
        for e, kf, vf, x in (("end", "key", "val", exp), ("end2", "key2", "val2", nxt)):
            g = self.flagval(C, st, "res", r[e])
            if not C.require(st, g is (x is None), "result", "%s: returned position is wrong" % what) or x is None:
                return
            for f, y in ((kf, x[0]), (vf, x[1])):
                z = self.fld(st, "res", r[f])
                C.require(st, isinstance(z, tuple) and z[0] == "el" and z[1] == y[1] and C.I.decide(st, EQ(z[2] - y[2])),
                          "result", "%s: returned position is wrong" % what)
