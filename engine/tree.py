"""Abstract model of btree on top of the interpreter: an arbitrary well-formed tree of a
given height whose nodes are materialised only where the code looks, the order of
arbitrary keys in it relative to a search key, and the checks of what an operation
leaves behind.  Sizes, positions and contents are symbolic throughout."""
import re
from lin import Lin, L
from absint import (Ptr, NULL, UNDEF, NeedSplit, PathEnd, Undecided, Obj, State, nsym, split_ge, split_eq,
                    cand, cor, cnot, iscond)
from worlds import Ctx, DMLayout, LayoutError, MapWorld

MAXH = 3


def simp(c):
    if isinstance(c, tuple) and c[0] in ("ge", "eq", "ne") and not c[1].t:
        v = c[1].c
        return v >= 0 if c[0] == "ge" else (v == 0 if c[0] == "eq" else v != 0)
    return c


def GE(l):
    return simp(("ge", L(l)))


def EQ(l):
    return simp(("eq", L(l)))


class TreeLayout:
    def __init__(self, prog, leafcap, innercap):
        di = prog.di
        byid = prog.byid

        def one(pred, what):
            c = [t for t in di if t["name"] and pred(t)]
            if not c:
                raise LayoutError("type %s not found" % what)
            return c[0]
        self.leafcap, self.innercap = leafcap, innercap
        bt = one(lambda t: re.match(r"^btree<[^,<>]*, \w+, %dUL, %dUL, " % (leafcap, innercap), t["name"]), "btree")
        leaf = one(lambda t: t["name"] == "leaf_node" and t["id"] and "5btree" in t["id"], "leaf_node")
        inner = one(lambda t: t["name"] == "internal_node" and t["id"] and "5btree" in t["id"], "internal_node")

        def members(t):
            out = {}
            for m in t["members"]:
                if m[0]:
                    out[m[0]] = (m[1], m[2])
                elif m[2][0] == "comp" and m[2][2] in byid:
                    for k, v in members(byid[m[2][2]]).items():
                        out[k] = (m[1] + v[0], v[1])
            return out

        known = {"data", "next_leaf", "prev_leaf", "parent", "leaf_children", "internal_children", "children_are_leaves",
                 "internal_root_", "leaf_root_", "root_is_leaf_", "size_", "leftmost_leaf_", "rightmost_leaf_", "leaf_alloc_",
                 "internal_alloc_", "comp_"}

        def kind(ty):
            n = str(ty[1])
            if ty[0] == "comp":
                return "comp " + ("dense_map" if n.startswith("dense_map<") else n)
            return "%s %s" % (ty[0], n)

        def need(ms, name, knd):
            """the member of this name, or the one that took its place: same type, with a name of its own"""
            if name in ms:
                return ms[name]
            cand = sorted((v[0], k) for k, v in ms.items() if k not in known and kind(v[1]) == knd)
            words = [w for w in ("next", "prev", "left", "right", "root", "size", "parent", "leaf", "inter") if w in name]
            same = [c for c in cand if any(w in c[1].lower() for w in words)]
            for w in words:
                c = [x for x in (same or cand) if w in x[1].lower()]
                if len(c) >= 1:
                    cand = c
                    break
            if len(cand) != 1:
                raise LayoutError("member %s not found" % name)
            return ms[cand[0][1]]

        def dm(ty, length):
            return DMLayout(byid[ty[2]], length)
        lm, im, tm = members(leaf), members(inner), members(bt)
        self.lsize, self.isize, self.tsize = leaf["size"], inner["size"], bt["size"]
        d = need(lm, "data", "comp dense_map")
        self.ldoff, self.ldm = d[0], dm(d[1], leafcap)
        self.lnext, self.lprev, self.lpar = need(lm, "next_leaf", "ptr leaf_node")[0], need(lm, "prev_leaf", "ptr leaf_node")[0], need(lm, "parent", "ptr internal_node")[0]
        c = need(im, "leaf_children", "comp dense_map")
        self.idoff, self.idm = c[0], dm(c[1], innercap)
        c2 = need(im, "internal_children", "comp dense_map")
        k = dm(c2[1], innercap)
        if (c2[0], k.koff, k.voff, k.soff) != (c[0], self.idm.koff, self.idm.voff, self.idm.soff):
            raise LayoutError("leaf_children and internal_children differ in layout")
        self.iflag, self.ipar = need(im, "children_are_leaves", "base bool")[0], need(im, "parent", "ptr internal_node")[0]
        self.troot, self.tleafroot = need(tm, "internal_root_", "ptr internal_node")[0], need(tm, "leaf_root_", "ptr leaf_node")[0]
        self.tisleaf, self.tsizeoff = need(tm, "root_is_leaf_", "base bool")[0], need(tm, "size_", "base unsigned long")[0]
        self.tleft, self.tright = need(tm, "leftmost_leaf_", "ptr leaf_node")[0], need(tm, "rightmost_leaf_", "ptr leaf_node")[0]
        al = [sorted(v[0] for k, v in tm.items() if v[1][0] == "comp" and str(v[1][1]).endswith("::%s>" % x)) for x in ("leaf_node", "internal_node")]
        if len(al[0]) != 1 or len(al[1]) != 1:
            raise LayoutError("allocators not found")
        la, ia = al
        self.tla, self.tia = la[0], ia[0]
        self.vsz = self.ldm.vsz
        # documented occupancy rules
        ml, mi = (leafcap + 1) // 2, (innercap + 1) // 2
        self.lmin, self.imin = ml - ml // 4, mi - mi // 4

    def lregions(self):
        return self.ldm.regions(self.ldoff)

    def iregions(self):
        return self.idm.regions(self.idoff)


def tokarr(a):
    n, k = a.rsplit(".", 1)
    return n, k


class TreeWorld(MapWorld):
    unroll = 24
    maxdepth = 60

    def __init__(self, lay, height, canthrow=False):
        MapWorld.__init__(self)
        self.lay = lay
        self.H = height
        self.path = {}       # node on the search path -> (cut, eq, child index or None)
        self.canthrow = canthrow
        self.roots = {}      # tree oid -> root oid
        self.tags = {}       # original root oid -> prefix of its allocators

    # ------------------------------------------------------------- pre-state
    def node(self, st, oid, level, n, parent=None, idx=None):
        """an arbitrary well-formed node; level 0 is a leaf"""
        lay = self.lay
        if level == 0:
            o = Obj("heap", "leaf " + oid, size=lay.lsize, align=64, regions=lay.lregions(), init="leaf")
            d, off, cap, vk = lay.ldm, lay.ldoff, lay.leafcap, ".v"
        else:
            o = Obj("heap", "inner node " + oid, size=lay.isize, align=64, regions=lay.iregions())
            d, off, cap, vk = lay.idm, lay.idoff, lay.innercap, ".ch"
            o.fields[lay.iflag] = (1, Lin(1 if level == 1 else 0))
        o.arr["keys"] = ((Lin(0), n, ("src", oid + ".k", Lin(0))), (n, Lin(cap), ("undef",)))
        o.arr["vals"] = ((Lin(0), n, ("src", oid + vk, Lin(0))), (n, Lin(cap), ("undef",)))
        o.fields[off + d.soff] = (d.ssz, n)
        po = lay.lpar if level == 0 else lay.ipar
        if parent is None:
            o.fields[po] = (8, NULL)
        else:
            o.redir = {po: ("cp:" + parent, "cpar", idx)}
        o.meta = ("node", parent, idx, level, n)
        st.mem[oid] = o
        if level:
            cp = Obj("pseudo", "parents of the children of " + oid, regions=((0, 8, cap, "cpar"),))
            cp.arr["cpar"] = ((Lin(0), n, ("val", Ptr(oid, Lin(0)))), (n, Lin(cap), ("undef",)))
            st.mem["cp:" + oid] = cp
            fr = Obj("pseudo", "released children of " + oid, regions=((0, 8, cap, "cfr"),))
            fr.arr["cfr"] = ((Lin(0), n, ("val", Lin(0))), (n, Lin(cap), ("undef",)))
            st.mem["fr:" + oid] = fr
            st.ms["kids:" + oid] = ()
        return oid

    def bound(self, st, lo, x, hi):
        st.cons.add(x - lo)
        st.cons.add(Lin(hi) - x)

    def tree(self, st, T, height, withpath, pre="", tag=None):
        """an arbitrary well-formed tree object"""
        tag = pre if tag is None else tag
        lay = self.lay
        o = Obj("heap", "tree " + T, size=lay.tsize, align=8, init="tree")
        root = pre + "R"
        n = nsym("n:" + root)
        if height == 0:
            self.bound(st, 0, n, lay.leafcap)
            size = n
        else:
            self.bound(st, 2, n, lay.innercap)
            size = nsym("size:" + T)
            st.cons.add(size - 2 * min(lay.lmin, lay.leafcap))
        self.node(st, root, height, n)
        o.fields[lay.tisleaf] = (1, Lin(1 if height == 0 else 0))
        o.fields[lay.troot] = (8, Ptr(root, Lin(0)))
        o.fields[lay.tsizeoff] = (8, size)
        o.fields[lay.tla] = (8, Ptr("tag:%sl" % tag, Lin(0)))
        o.fields[lay.tia] = (8, Ptr("tag:%si" % tag, Lin(0)))
        o.meta = ("tree", root, height, size)
        st.mem[T] = o
        for k in "li":
            st.mem["tag:%s%s" % (tag, k)] = Obj("heap", "allocator %s%s" % (tag, k), size=8)
        self.roots[T] = root
        self.tags[root] = tag
        if withpath:
            self.mkpath(st, root, height)
        return size

    def mkpath(self, st, root, height):
        """the position of the search key X: cut/eq at every node on its path"""
        lay = self.lay
        cur, lev = root, height
        bn = []
        up = None
        while True:
            n = st.mem[cur].meta[4]
            c, q = nsym("c:" + cur), nsym("q:" + cur)
            cap = lay.innercap if lev else lay.leafcap
            st.cons.add(c)
            st.cons.add(q)
            st.cons.add(Lin(1) - q)
            st.cons.add(n - c - q)
            bn += [n, c]
            if up is not None:
                # first key of this node relative to X, as seen from the parent
                us, uq = up
                self.bound(st, 0, us, 1)
                st.cons.add(c - us)
                st.cons.add(us * cap - c)
                st.cons.add(q - uq)
                st.cons.add(Lin(1) - us - uq)
                st.cons.add(uq - q + us)
            if lev == 0:
                self.path[cur] = (c, q, None)
                break
            s = nsym("s:" + cur)
            d = c - s
            st.cons.add(d)
            st.cons.add(n - d - 1)
            st.cons.add((s + q) * cap - d)
            self.path[cur] = (c, q, d)
            up = (s, q)
            bn += [d, d + 1, c + q]
            nm = "%s/X" % cur
            self.mkkid(st, cur, d, nm)
            cur = nm
            lev -= 1
        self.leaf = cur
        self.bnd = tuple(bn) + (Lin(lay.leafcap), Lin(lay.innercap))

    def mkkid(self, st, P, idx, name):
        lay = self.lay
        level = st.mem[P].meta[3] - 1
        n = nsym("n:" + name)
        if level == 0:
            self.bound(st, lay.lmin, n, lay.leafcap)
        else:
            self.bound(st, lay.imin, n, lay.innercap)
        self.node(st, name, level, n, P, idx)
        st.ms["kids:" + P] = st.ms["kids:" + P] + ((idx, name),)
        return name

    def kid(self, st, P, idx):
        """the child of P at a position of its original child array"""
        for e, oid in st.ms["kids:" + P]:
            d = idx - e
            r = self.I.tri(st, EQ(d))
            if r is True:
                return oid
            if r is None:
                raise split_eq(d)
        k = self.mkkid(st, P, idx, "%s/%r" % (P, idx))
        if self.released(st, P, idx):
            st.w(k).freed = True
        return k

    def released(self, st, P, idx):
        segs = st.mem["fr:" + P].arr["cfr"]
        if all(c != ("val", Lin(1)) for _, _, c in segs):
            return False
        return self.I.seg_read(st, segs, idx) == Lin(1)

    def resolve(self, st, ref):
        if ref[0] == "el":
            n, k = tokarr(ref[1])
            if k == "ch":
                return self.kid(st, n, ref[2])
        raise Undecided("pointer %r" % (ref,))

    def nonnull(self, st, ref):
        return ref[0] == "el"

    def distinct(self, st, a, b):
        return False

    def isch(self, b):
        return isinstance(b, tuple) and b[0] == "el" and b[1].endswith(".ch")

    def ptreqhook(self, st, a, b):
        if a.off.t or b.off.t or a.off.c or b.off.c:
            return None
        x, y = a.base, b.base
        if not self.isch(x):
            x, y = y, x
        if not self.isch(x):
            return None
        P, i = tokarr(x[1])[0], x[2]
        if y is None:
            return False
        if self.isch(y):
            Q, j = tokarr(y[1])[0], y[2]
            return EQ(i - j) if P == Q else False
        o = st.mem.get(y)
        if o is None:
            return None
        m = o.meta
        if isinstance(m, tuple) and m[0] == "node" and m[1] == P:
            return EQ(i - m[2])
        return False

    def redirect(self, st, p, size):
        if not isinstance(p, Ptr) or not self.isch(p.base) or p.off.t:
            return None
        P = tokarr(p.base[1])[0]
        lev = st.mem[P].meta[3] - 1
        po = self.lay.lpar if lev == 0 else self.lay.ipar
        if p.off.c != po:
            return None
        for e, oid in st.ms["kids:" + P]:
            if st.mem[oid].freed:
                d = p.base[2] - e
                if self.I.decide(st, EQ(d)):
                    self.I.report("uaf", "parent link of a released node is used", st)
                    raise PathEnd()
        if self.released(st, P, p.base[2]):
            self.I.report("uaf", "parent link of a released node is used", st)
            raise PathEnd()
        return ("cp:" + P, "cpar", p.base[2])

    # ------------------------------------------------------- original links
    def first(self, st, N):
        """pointer to the first leaf below an original node"""
        m = st.mem[N].meta
        while m[3] > 1:
            N = self.kid(st, N, Lin(0))
            m = st.mem[N].meta
        if m[3] == 0:
            return Ptr(N, Lin(0))
        return Ptr(("el", N + ".ch", Lin(0)), Lin(0))

    def last(self, st, N):
        m = st.mem[N].meta
        while m[3] > 1:
            N = self.kid(st, N, m[4] - 1)
            m = st.mem[N].meta
        if m[3] == 0:
            return Ptr(N, Lin(0))
        return Ptr(("el", N + ".ch", m[4] - 1), Lin(0))

    def neighbour(self, st, P, i, fwd):
        """first (last) leaf after (before) the subtree at original position i of P"""
        while True:
            m = st.mem[P].meta
            if fwd:
                ok = self.I.decide(st, GE(m[4] - i - 2))
                j = i + 1
            else:
                ok = self.I.decide(st, GE(i - 1))
                j = i - 1
            if ok:
                if m[3] == 1:
                    return Ptr(("el", P + ".ch", j), Lin(0))
                K = self.kid(st, P, j)
                return self.first(st, K) if fwd else self.last(st, K)
            if m[1] is None:
                return NULL
            P, i = m[1], m[2]

    def initval(self, st, oid, k):
        """original value of a link that has not been written"""
        o = st.mem[oid]
        m = o.meta
        lay = self.lay
        if m[0] == "tree":
            if k == lay.tleft:
                return self.first(st, m[1])
            if k == lay.tright:
                return self.last(st, m[1])
            return None
        if m[0] == "node" and m[3] == 0 and k in (lay.lnext, lay.lprev):
            if m[1] is None:
                return NULL
            return self.neighbour(st, m[1], m[2], k == lay.lnext)
        return None

    def lazyload(self, st, b, k, size, ty):
        o = st.mem[b]
        if o.init is None:
            return UNDEF
        v = self.initval(st, b, k)
        if v is None:
            return UNDEF
        return v

    def lazyfields(self, st, sb, so, n, vals):
        o = st.mem[sb]
        have = {x for x, _, _ in vals}
        for k in ((self.lay.tleft, self.lay.tright) if o.meta[0] == "tree" else (self.lay.lnext, self.lay.lprev)):
            if so <= k and k + 8 <= so + n and k - so not in have:
                v = self.initval(st, sb, k)
                if v is not None:
                    vals = vals + [(k - so, 8, v)]
        return vals

    def _quietinit(self, st, oid, k):
        try:
            return self.initval(st.copy(), oid, k)
        except NeedSplit:
            return None

    def lazy_merge(self, A, B, oid, k):
        fa, fb = A.mem[oid].fields.get(k), B.mem[oid].fields.get(k)
        f, S, O = (fa, B, A) if fa is not None else (fb, A, B)
        v = self._quietinit(S, oid, k)
        if v is None:
            return None
        m = self.I.mval(O, f[1], S, v)
        return None if m is None else (f[0], m)

    def lazy_same(self, s, ref, oid, k):
        f = s.mem[oid].fields.get(k) or ref.mem[oid].fields.get(k)
        v = self._quietinit(s, oid, k)
        return v is not None and self.I.eqv(s, f[1], v)

    # --------------------------------------------------------------- order
    def chain(self, st, N, i):
        out = [(N, i)]
        m = st.mem[N].meta
        while m[1] is not None:
            out.append((m[1], m[2]))
            m = st.mem[m[1]].meta
        out.reverse()
        return out

    def restpos(self, st, ch):
        """is any of the remaining positions > 0 ?"""
        r = False
        for _, i in ch:
            r = cor(r, GE(i - 1))
        return self.I.decide(st, r)

    def less(self, st, a, b):
        if a == UNDEF or b == UNDEF:
            self.I.report("uninit", "comparison reads a slot that holds no element", st)
            raise PathEnd()
        if a == b:
            return False
        ax, bx = a == ("X",), b == ("X",)
        if ax or bx:
            t = b if ax else a
            if not (isinstance(t, tuple) and t[0] == "el"):
                raise Undecided("order of %r and %r" % (a, b))
            N, k = tokarr(t[1])
            i = t[2]
            m = st.mem[N].meta
            while N not in self.path:
                P, e = m[1], m[2]
                if P is None:
                    raise Undecided("order of %r and %r" % (a, b))
                if P in self.path:
                    d = self.path[P][2]
                    below = self.I.decide(st, GE(d - e - 1))
                    return (not below) if ax else below
                N = P
                m = st.mem[N].meta
            c, q, _ = self.path[N]
            return GE(i - c - q) if ax else GE(c - i - 1)
        if not (isinstance(a, tuple) and a[0] == "el" and isinstance(b, tuple) and b[0] == "el"):
            raise Undecided("order of %r and %r" % (a, b))
        A = self.chain(st, tokarr(a[1])[0], a[2])
        B = self.chain(st, tokarr(b[1])[0], b[2])
        if A[0][0] != B[0][0]:
            raise Undecided("order of keys of different trees")
        k = 0
        while k + 1 < len(A) and k + 1 < len(B) and A[k + 1][0] == B[k + 1][0]:
            k += 1
        i, j = A[k][1], B[k][1]
        la, lb = k + 1 == len(A), k + 1 == len(B)
        d = j - i
        if la and lb:
            return GE(d - 1)
        if not la and not lb:
            return self.I.decide(st, GE(d - 1))
        if la:
            r = self.I.tri(st, EQ(d))
            if r is False:
                return GE(d - 1)
            return GE(d) if self.restpos(st, B[k + 1:]) else GE(d - 1)
        return GE(d - 1)

    def canon(self, st, t):
        """the highest node in which the key appears as a separator (needs known positions)"""
        while isinstance(t, tuple) and t[0] == "el":
            N, k = tokarr(t[1])
            m = st.mem[N].meta
            if k != "k" or m[1] is None or not st.cons.entails_eq(t[2]):
                break
            t = ("el", m[1] + ".k", m[2])
        return t

    def keyeq(self, st, a, b):
        """are two key tokens the same key?  decides (may split)"""
        I = self.I
        if a == b:
            return True
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "el" and b[0] == "el"):
            return False
        A = self.chain(st, tokarr(a[1])[0], a[2])
        B = self.chain(st, tokarr(b[1])[0], b[2])
        if A[0][0] != B[0][0]:
            return False
        for k in range(max(len(A), len(B))):
            i = A[k][1] if k < len(A) else Lin(0)
            j = B[k][1] if k < len(B) else Lin(0)
            if not I.decide(st, EQ(i - j)):
                return False
            if k + 1 < len(A) and k + 1 < len(B) and A[k + 1][0] != B[k + 1][0]:
                return False
        return True

    def eltok(self, c, lo):
        if c[0] == "src":
            return ("el", c[1], c[2] + lo)
        if c[0] == "val":
            v = c[1]
            if isinstance(v, Ptr) and isinstance(v.base, tuple) and not v.off.t and v.off.c == 0:
                return v.base
            return v
        return UNDEF

    def content_eq(self, st, a, b, lo, hi):
        """contents given differently on [lo,hi): only single elements can coincide"""
        if not st.cons.entails_eq(hi - lo - 1):
            return False
        x, y = self.eltok(a, lo), self.eltok(b, lo)
        if x == UNDEF or y == UNDEF:
            return False
        x, y = self.canon(st, x), self.canon(st, y)
        if x == y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "el" and y[0] == "el" and x[1] == y[1]:
            return st.cons.entails_eq(x[2] - y[2])
        return False

    # ------------------------------------------------------------- destruction of nodes
    dtor = False        # follow the destruction of each node's element arrays (kept calls of ~dense_map)

    def callhook(self, st, cn, args, ins):
        f = self.I.P.fns.get(cn) if self.dtor else None
        if f is None or not re.search(r"::~dense_map\(", f.dem):
            return None
        st = st.copy()
        x = self.nodeof(st, self.I.topt(st, args[0]))
        if x is None:
            return [(st, "ret", None)]
        if self.pending(st, x) is not None:
            self.I.report("dtor", "the elements of a node are destroyed twice", st)
        st.ms["dead"] = st.ms.get("dead", ()) + (x,)
        return [(st, "ret", None)]

    def nodeof(self, st, p):
        """the node a pointer leads into: (its object, None) or (its parent, its place below the parent)"""
        I = self.I
        if self.isch(p.base):
            P, i = tokarr(p.base[1])[0], p.base[2]
            if st.mem[P].meta[3] == 1 and not any(I.decide(st, EQ(i - e)) for e, _ in st.ms["kids:" + P]):
                if self.released(st, P, i):
                    I.report("uaf", "the elements of a released leaf are destroyed", st)
                    raise PathEnd()
                return (P, i)
        oid, _ = I.resolve(st, p, "destruction")
        o = st.mem[oid]
        if o.kind == "heap" and isinstance(o.meta, tuple) and o.meta[0] in ("node", "new"):
            return (oid, None)
        return None

    def pending(self, st, x):
        """the number of the destroyed and not yet released node x"""
        for n, y in enumerate(st.ms.get("dead", ())):
            if x[0] == y[0] and (x[1] is None) == (y[1] is None) and (x[1] is None or self.I.decide(st, EQ(x[1] - y[1]))):
                return n
        return None

    def destroyed(self, st, x):
        n = self.pending(st, x)
        if n is None:
            self.I.report("dtor", "a node is released without destroying its elements", st)
        else:
            d = st.ms["dead"]
            st.ms["dead"] = d[:n] + d[n + 1:]

    # ------------------------------------------------------------- externals
    def external(self, st, cn, args, ins):
        lay = self.lay
        if cn == "vp_alloc":
            n = self.I.toint(st, args[1])
            if not n.isconst() or n.c not in (lay.lsize, lay.isize):
                raise Undecided("allocation of %r bytes" % n)
            leaf = n.c == lay.lsize
            out = []
            if self.canthrow:
                s2 = st.copy()
                s2.ev = s2.ev + (("badalloc",),)
                out.append((s2, "throw", None))
            oid = st.newoid()
            o = Obj("heap", "new leaf" if leaf else "new inner node", size=n.c, align=64,
                    regions=lay.lregions() if leaf else lay.iregions())
            cap = lay.leafcap if leaf else lay.innercap
            for r in ("keys", "vals"):
                o.arr[r] = ((Lin(0), Lin(cap), ("undef",)),)
            o.meta = ("new", "leaf" if leaf else "inner", self.tagname(st, args[0]))
            st.mem[oid] = o
            out.append((st, "ret", Ptr(oid, Lin(0))))
            return out
        if cn == "vp_free":
            p = self.I.topt(st, args[1])
            if p.base is None:
                return [(st, "ret", None)]
            if self.isch(p.base) and not p.off.t and p.off.c == 0:
                P, i = tokarr(p.base[1])[0], p.base[2]
                if st.mem[P].meta[3] == 1 and not any(self.I.decide(st, EQ(i - e)) for e, _ in st.ms["kids:" + P]):
                    if self.released(st, P, i):
                        self.I.report("uaf", "a leaf is released twice", st)
                        raise PathEnd()
                    n = self.I.toint(st, args[2])
                    if not n.isconst() or n.c != lay.lsize:
                        self.I.report("free", "a leaf is released with the wrong size", st)
                    tag, want = self.tagname(st, args[0]), self.nodetag(st, P, 0)
                    if tag != want:
                        self.I.report("free", "a leaf is released through allocator %s but came from %s" % (tag, want), st)
                    if self.dtor:
                        self.destroyed(st, (P, i))
                    fr = st.w("fr:" + P)
                    fr.arr["cfr"] = self.I.seg_write(st, fr.arr["cfr"], i, Lin(1))
                    return [(st, "ret", None)]
            oid, off = self.I.resolve(st, p, "release")
            o = st.mem[oid]
            m = o.meta
            n = self.I.toint(st, args[2])
            if o.kind != "heap" or not isinstance(m, tuple) or m[0] not in ("node", "new") or off.t or off.c:
                self.I.report("free", "%s is released but was not allocated as a node" % o.name, st)
                raise PathEnd()
            leaf = m[3] == 0 if m[0] == "node" else m[1] == "leaf"
            if not n.isconst() or n.c != (lay.lsize if leaf else lay.isize):
                self.I.report("free", "%s is released with the wrong size" % o.name, st)
            tag = self.tagname(st, args[0])
            want = m[2] if m[0] == "new" else self.nodetag(st, oid)
            if tag != want:
                self.I.report("free", "%s is released through allocator %s but came from %s" % (o.name, tag, want), st)
            if self.dtor:
                self.destroyed(st, (oid, None))
            st.w(oid).freed = True
            if m[0] == "node" and m[3] and m[1] is not None and not st.ms["kids:" + oid]:
                # an inner node released after all of its children: the slot of its parent now
                # stands for a wholly released subtree
                if self.I.segs_equal(st, st.mem["fr:" + oid].arr["cfr"],
                                     ((Lin(0), m[4], ("val", Lin(1))), (m[4], Lin(lay.innercap), ("undef",)))):
                    P = m[1]
                    fr = st.w("fr:" + P)
                    fr.arr["cfr"] = self.I.seg_write(st, fr.arr["cfr"], m[2], Lin(1))
                    st.ms["kids:" + P] = tuple(x for x in st.ms["kids:" + P] if x[1] != oid)
                    for x in (oid, "cp:" + oid, "fr:" + oid):
                        del st.mem[x]
                    del st.ms["kids:" + oid]
            return [(st, "ret", None)]
        return MapWorld.external(self, st, cn, args, ins)

    def tagname(self, st, p):
        return p.base if isinstance(p, Ptr) else None

    def nodetag(self, st, oid, level=None):
        """the allocator an original node came from"""
        lev = st.mem[oid].meta[3] if level is None else level
        n = oid
        while st.mem[n].meta[1] is not None:
            n = st.mem[n].meta[1]
        return "tag:%s%s" % (self.tags[n], "l" if lev == 0 else "i")

    def canonptr(self, st, p):
        if self.isch(p.base):
            return Ptr(self.resolve(st, p.base), p.off)
        return p


# ------------------------------------------------------------------ exit checks
class Shape:
    """the final tree, walked from the tree object"""

    def __init__(self):
        self.seq = []     # content pieces, in order
        self.units = []   # leaves in order: ('leaf', oid) / ('sub', P, a, b)
        self.seen = []


class TreeCheck:
    def __init__(self, prog, leafcap, innercap, height, part=None):
        self.part = part
        self.P = prog
        self.lay = TreeLayout(prog, leafcap, innercap)
        self.H = height
        t = [t for t in prog.di if t["name"] == "R" and any(m[0] == "key2" for m in t["members"])]
        self.res = {m[0]: m[1] for m in t[0]["members"]} if t else {}

    def ctx(self, **kw):
        w = TreeWorld(self.lay, self.H, **kw)
        return Ctx(self.P, w), w

    def pre(self, w, st):
        self.size0 = w.tree(st, "T", self.H, True)
        for l in self.partcons(w, st):
            st.cons.add(l)
        w.scalar(st, "karg", ("X",), kind="const", name="key argument")
        w.scalar(st, "varg", ("VX",), kind="const", name="value argument")
        st.mem["res"] = Obj("heap", "result", size=max(self.res.values()) + 8 if self.res else 64)
        st.mem["res2"] = Obj("heap", "second result", size=max(self.res.values()) + 8 if self.res else 64)
        return Ptr("T", Lin(0)), Ptr("karg", Lin(0)), Ptr("varg", Lin(0)), Ptr("res", Lin(0))

    def partcons(self, w, st):
        """the part of the pre-states this unit analyses (the parts of an operation cover all of them)"""
        lay, out = self.lay, []
        if not self.part:
            return out
        nodes = []
        o = w.leaf
        while o is not None:
            nodes.append(o)
            o = st.mem[o].meta[1]
        for a in self.part.split("+"):
            k, j = a[:-1], int(a[-1])
            x = nodes[j]
            n = st.mem[x].meta[4]
            cap = lay.leafcap if j == 0 else lay.innercap
            mn = lay.lmin if j == 0 else (lay.imin if j < self.H else 2)
            if j == self.H and j == 0:
                mn = 0
            c, q, d = w.path[x]
            out += {"full": [n - cap], "room": [Lin(cap - 1) - n],
                    "low": [Lin(mn) - n], "rich": [n - mn - 1],
                    "first": [-d] if d is not None else [], "inner": [d - 1] if d is not None else [],
                    "last": [d + 1 - n] if d is not None else [], "notlast": [n - d - 2] if d is not None else [],
                    "has": [q - 1], "hasnt": [-q]}[k]
        return out

    @staticmethod
    def parts(kind, H):
        """a cover of the pre-states of an operation (each line is a complementary pair or chain)"""
        if kind == "insert" and H >= 1:
            out = ["room0"]
            for j in range(1, H + 1):
                out.append("+".join("full%d" % i for i in range(j)) + "+room%d" % j)
            out.append("+".join("full%d" % i for i in range(H + 1)))
            return out
        if kind in ("erase", "erasehas") and H >= 1:
            out = (["hasnt0"] if kind == "erase" else []) + ["has0+rich0"]
            # the leaf is at its minimum: by its position among its siblings, and how far a merge propagates
            pos = lambda j: ["first%d" % j, "inner%d+last%d" % (j, j), "inner%d+notlast%d" % (j, j)]
            base = "has0+low0"
            for p in pos(1):
                if H == 1:
                    out.append(base + "+" + p)
                    continue
                out.append(base + "+" + p + "+rich1")
                for p2 in pos(2):
                    x = base + "+" + p + "+low1+" + p2
                    if H == 2:
                        out.append(x)
                        continue
                    out.append(x + "+rich2")
                    for p3 in pos(3):
                        out.append(x + "+low2+" + p3)
            return out
        return [None]

    # -- original contents below a node, given the materialised nodes of the final state
    def kidslist(self, C, st, P):
        """materialised children sorted by position (the order is decided)"""
        ks = list(st.ms["kids:" + P])
        out = []
        for e, oid in ks:
            i = 0
            while i < len(out) and C.I.decide(st, GE(e - out[i][0] - 1)):
                i += 1
            out.insert(i, (e, oid))
        return out

    def origseq(self, C, st, N):
        o = st.mem[N]
        m = o.meta
        if m[3] == 0:
            return [("e", N, Lin(0), m[4])]
        out = []
        pos = Lin(0)
        for e, oid in self.kidslist(C, st, N):
            out.append(("sub", N, pos, e))
            out += self.origseq(C, st, oid)
            pos = e + 1
        out.append(("sub", N, pos, m[4]))
        return out

    def emptyp(self, C, st, it):
        if it[0] == "x":
            return False
        if it[0] == "e":
            return C.I.decide(st, GE(-it[3]))
        return C.I.decide(st, GE(it[2] - it[3]))

    def seqmatch(self, C, st, A, B):
        """A, B: ('e',leaf,start,len) / ('x',keytok,valtok) / ('sub',P,a,b)"""
        A = list(reversed(A))
        B = list(reversed(B))

        def norm(x):
            while x and self.emptyp(C, st, x[-1]):
                x.pop()
        while True:
            norm(A)
            norm(B)
            if not A or not B:
                return None if not A and not B else ("an element is %s" % ("missing" if B else "left over"))
            a, b = A.pop(), B.pop()
            if a[0] != b[0]:
                # a single element of a leaf may be given as ('x', token) on one side
                if {a[0], b[0]} == {"x", "e"}:
                    x, e = (a, b) if a[0] == "x" else (b, a)
                    if self.isel(C, st, x[1], e[1] + ".k", e[2]) and self.isel(C, st, x[2], e[1] + ".v", e[2]):
                        rest = ("e", e[1], e[2] + 1, e[3] - 1)
                        (B if a[0] == "x" else A).append(rest)
                        continue
                return "elements differ from the required sequence"
            if a[0] == "x":
                if not (a[1] == b[1] or (a[1][0] == "el" and b[1][0] == "el" and self.isel(C, st, a[1], b[1][1], b[1][2]))):
                    return "a key differs from the required one"
                if not (a[2] == b[2] or C.I.eqv(st, a[2], b[2])):
                    return "a value differs from the required one"
                continue
            if a[1] != b[1]:
                return "elements are out of order"
            if not C.I.decide(st, EQ(a[2] - b[2])):
                return "elements are missing, duplicated or out of order"
            if a[0] == "e":
                d = a[3] - b[3]
                if C.I.decide(st, EQ(d)):
                    continue
                if C.I.decide(st, GE(d)):
                    A.append(("e", a[1], a[2] + b[3], d))
                else:
                    B.append(("e", b[1], b[2] + a[3], -d))
            else:
                d = a[3] - b[3]
                if C.I.decide(st, EQ(d)):
                    continue
                if C.I.decide(st, GE(d)):
                    A.append(("sub", a[1], b[3], a[3]))
                else:
                    B.append(("sub", b[1], a[3], b[3]))

    def isel(self, C, st, t, arr, i):
        return isinstance(t, tuple) and t[0] == "el" and t[1] == arr and C.I.decide(st, EQ(t[2] - i))

    # -- walking the final structure
    def fld(self, st, oid, off):
        f = st.mem[oid].fields.get(off)
        return f[1] if f else UNDEF

    def load(self, C, st, oid, off):
        """a pointer field as the code would read it"""
        o = st.mem[oid]
        if off in o.redir:
            oid2, rn, idx = o.redir[off]
            v = C.I.seg_read(st, st.mem[oid2].arr[rn], idx)
            return Ptr(v, Lin(0)) if isinstance(v, tuple) and v and v[0] == "el" else v
        f = o.fields.get(off)
        if f is not None:
            v = f[1]
            return Ptr(v, Lin(0)) if isinstance(v, tuple) and v and v[0] == "el" else v
        if o.init is not None:
            v = C.W.initval(st, oid, off)
            return UNDEF if v is None else v
        return UNDEF

    def leafref(self, C, st, p):
        """normal form of a pointer to a leaf"""
        if p == UNDEF or not isinstance(p, Ptr):
            return ("undef",)
        if p.base is None:
            return ("null",)
        if p.off.t or p.off.c:
            return ("bad",)
        b = p.base
        if isinstance(b, tuple):
            P, i = tokarr(b[1])[0], b[2]
            for e, oid in st.ms["kids:" + P]:
                if C.I.decide(st, EQ(i - e)):
                    return ("oid", oid)
            return ("ch", P, i)
        return ("oid", b)

    def refeq(self, C, st, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "oid":
            return a[1] == b[1]
        if a[0] == "ch":
            return a[1] == b[1] and C.I.decide(st, EQ(a[2] - b[2]))
        return a[0] == "null"

    def walk(self, C, st, S, oid, parent, level, isroot, T):
        """returns the smallest key below (a token) or None"""
        I, lay = C.I, self.lay
        o = st.mem.get(oid)
        if o is None or o.kind != "heap" or not isinstance(o.meta, tuple) or o.meta[0] not in ("node", "new"):
            C.require(st, False, "structure", "a child pointer does not lead to a node")
            return None
        m = o.meta
        if o.freed:
            C.require(st, False, "leak", "%s was released but is still reachable" % o.name)
            return None
        if oid in S.seen:
            C.require(st, False, "structure", "%s is reachable twice" % o.name)
            return None
        S.seen.append(oid)
        kind = ("leaf" if m[3] == 0 else "inner") if m[0] == "node" else m[1]
        if not C.require(st, kind == ("leaf" if level == 0 else "inner"), "depth", "leaves are not all at the same depth"):
            return None
        dm, off, cap = (lay.ldm, lay.ldoff, lay.leafcap) if level == 0 else (lay.idm, lay.idoff, lay.innercap)
        n = self.fld(st, oid, off + dm.soff)
        if not isinstance(n, Lin):
            C.require(st, False, "structure", "size of %s is not set" % o.name)
            return None
        C.require(st, GE(Lin(cap) - n), "capacity", "%s holds more elements than its capacity" % o.name)
        if isroot:
            if level:
                C.require(st, GE(n - 2), "depth", "an inner root has fewer than two children")
        else:
            C.require(st, GE(n - 1), "structure", "an empty node is part of the tree")
            lo = lay.lmin if level == 0 else lay.imin
            C.require(st, GE(n - lo), "fill", "%s holds fewer than the minimum less hysteresis" % o.name)
        par = self.load(C, st, oid, lay.lpar if level == 0 else lay.ipar)
        C.obl += 1
        if not (isinstance(par, Ptr) and self.ptrsame(C, st, par, parent)):
            C.require(st, False, "parent", "parent link of %s does not lead to its parent" % o.name)
        keys = I.seg_slice(st, o.arr["keys"], Lin(0), n)
        vals = I.seg_slice(st, o.arr["vals"], Lin(0), n)
        if level == 0:
            S.units.append(("leaf", oid))
            self.leafseq(C, st, S, keys, vals)
            if not keys:
                return None
            return C.W.eltok(keys[0][2], Lin(0)) if I.decide(st, GE(n - 1)) else None
        f = self.fld(st, oid, lay.iflag)
        C.require(st, isinstance(f, Lin) and EQ(f - (1 if level == 1 else 0)), "depth",
                  "children_are_leaves of %s is wrong" % o.name)
        exp = []
        first = None
        for lo, hi, c in vals:
            if c[0] == "src":
                P, k = tokarr(c[1])
                if k != "ch":
                    C.require(st, False, "structure", "a child slot of %s does not hold a node" % o.name)
                    return None
                a, b = lo + c[2], hi + c[2]
                pos = a
                for e, kd in self.kidslist(C, st, P):
                    if not I.decide(st, GE(e - a)) or not I.decide(st, GE(b - e - 1)):
                        continue
                    self.range(C, st, S, P, pos, e, oid, level)
                    exp.append((pos - c[2], e - c[2], ("src", P + ".k", c[2])))
                    mk = self.walk(C, st, S, kd, oid, level - 1, False, T)
                    if mk is None:
                        return None
                    exp.append((e - c[2], e - c[2] + 1, self.keycontent(mk, e - c[2])))
                    pos = e + 1
                self.range(C, st, S, P, pos, b, oid, level)
                exp.append((pos - c[2], b - c[2], ("src", P + ".k", c[2])))
            elif c[0] == "val" and isinstance(c[1], Ptr) and not isinstance(c[1].base, tuple) and c[1].base is not None \
                    and not c[1].off.t and c[1].off.c == 0:
                # a run of one slot
                if not C.require(st, EQ(hi - lo - 1), "structure", "%s appears in several child slots" % o.name):
                    return None
                mk = self.walk(C, st, S, c[1].base, oid, level - 1, False, T)
                if mk is None:
                    return None
                exp.append((lo, hi, self.keycontent(mk, lo)))
            else:
                C.require(st, False, "structure", "a child slot of %s does not hold a node" % o.name)
                return None
        C.obl += 1
        exp = [x for x in exp if not I.decide(st, GE(x[0] - x[1]))]
        if not self.keysmatch(C, st, keys, exp):
            C.require(st, False, "separator", "keys of %s are not the smallest keys below its children" % o.name)
        if exp:
            return C.W.eltok(exp[0][2], exp[0][0])
        return None

    def keycontent(self, tok, lo):
        if isinstance(tok, tuple) and tok[0] == "el":
            return ("src", tok[1], tok[2] - lo)
        return ("val", tok)

    def keysmatch(self, C, st, A, B):
        """key runs equal as sequences of keys (a key may be named through any node)"""
        I = C.I
        i = j = 0
        pos = Lin(0)
        while True:
            while i < len(A) and I.decide(st, GE(pos - A[i][1])):
                i += 1
            while j < len(B) and I.decide(st, GE(pos - B[j][1])):
                j += 1
            if i >= len(A) or j >= len(B):
                return i >= len(A) and j >= len(B)
            d = B[j][1] - A[i][1]
            h = A[i][1] if I.decide(st, GE(d)) else B[j][1]
            a, b = A[i][2], B[j][2]
            if a[0] == "src" and b[0] == "src" and a[1] == b[1]:
                if not I.decide(st, EQ(a[2] - b[2])):
                    return False
            else:
                if a[0] == "undef" or b[0] == "undef":
                    return False
                if not I.decide(st, EQ(h - pos - 1)):
                    return False
                if not C.W.keyeq(st, C.W.eltok(a, pos), C.W.eltok(b, pos)):
                    return False
            pos = h

    def ptrsame(self, C, st, p, oid):
        if oid is None:
            return p.base is None
        if p.off.t or p.off.c:
            return False
        if p.base == oid:
            return True
        r = C.W.ptreqhook(st, p, Ptr(oid, Lin(0)))
        return bool(r) if isinstance(r, bool) or r is None else C.I.decide(st, r)

    def range(self, C, st, S, P, a, b, parent, level):
        """untouched children a..b-1 of the original node P, now below `parent`"""
        I = C.I
        if I.decide(st, GE(a - b)):
            return
        if not C.require(st, st.mem[P].meta[3] == level, "depth", "leaves are not all at the same depth"):
            return
        segs = I.seg_slice(st, st.mem["cp:" + P].arr["cpar"], a, b)
        C.obl += 1
        for lo, hi, c in segs:
            if I.decide(st, GE(lo - hi)):
                continue
            ok = c[0] == "val" and isinstance(c[1], Ptr) and self.ptrsame(C, st, c[1], parent)
            if c[0] == "src":
                ok = False
            if not ok:
                C.require(st, False, "parent", "parent link of a child of %s does not lead to it" % st.mem[parent].name)
        fr = st.mem["fr:" + P].arr["cfr"]
        if any(c == ("val", Lin(1)) for _, _, c in fr):
            for lo, hi, c in I.seg_slice(st, fr, a, b):
                if c == ("val", Lin(1)) and not I.decide(st, GE(lo - hi)):
                    C.require(st, False, "leak", "a child of %s was released but is still reachable" % st.mem[parent].name)
        S.seq.append(("sub", P, a, b))
        S.units.append(("sub", P, a, b))

    def leafseq(self, C, st, S, keys, vals):
        I = C.I
        i = j = 0
        pos = Lin(0)
        while i < len(keys) and j < len(vals):
            while i < len(keys) and I.decide(st, GE(pos - keys[i][1])):
                i += 1
            while j < len(vals) and I.decide(st, GE(pos - vals[j][1])):
                j += 1
            if i >= len(keys) or j >= len(vals):
                break
            d = vals[j][1] - keys[i][1]
            h = keys[i][1] if I.decide(st, GE(d)) else vals[j][1]
            a, b = keys[i][2], vals[j][2]
            done = False
            if a[0] == "src" and b[0] == "src":
                A, ka = tokarr(a[1])
                B, kb = tokarr(b[1])
                if A == B and ka == "k" and kb == "v" and st.mem[A].meta[3] == 0 and I.decide(st, EQ(a[2] - b[2])):
                    S.seq.append(("e", A, a[2] + pos, h - pos))
                    done = True
            if not done:
                if a[0] == "undef" or b[0] == "undef":
                    C.require(st, False, "content", "a slot below size() holds no element")
                    return
                if not I.decide(st, EQ(h - pos - 1)):
                    C.require(st, False, "content", "keys and values are not paired")
                    return
                S.seq.append(("x", C.W.eltok(a, pos), C.W.eltok(b, pos)))
            pos = h

    # first/last leaf of a unit, and its links
    def ufirst(self, C, st, u):
        if u[0] == "leaf":
            return ("oid", u[1])
        if st.mem[u[1]].meta[3] == 1:
            return ("ch", u[1], u[2])
        return ("sub", u[1], u[2], "first")

    def ulast(self, C, st, u):
        if u[0] == "leaf":
            return ("oid", u[1])
        if st.mem[u[1]].meta[3] == 1:
            return ("ch", u[1], u[3] - 1)
        return ("sub", u[1], u[3] - 1, "last")

    def linkchecks(self, C, st, S, T):
        lay, W = self.lay, C.W
        us = S.units
        if not us:
            return      # nothing could be walked: reported already

        def nxt(u):
            if u[0] == "leaf":
                return self.linkref(C, st, u[1], lay.lnext)
            return self.subref(C, st, u[1], u[3], True)

        def prv(u):
            if u[0] == "leaf":
                return self.linkref(C, st, u[1], lay.lprev)
            return self.subref(C, st, u[1], u[2] - 1, False)

        def same(a, b):
            if a[0] == "sub" or b[0] == "sub":
                if a[0] != b[0]:
                    return False
                return a[1] == b[1] and a[3] == b[3] and C.I.decide(st, EQ(a[2] - b[2]))
            return self.refeq(C, st, a, b)
        for i, u in enumerate(us):
            nx = self.ufirst(C, st, us[i + 1]) if i + 1 < len(us) else ("null",)
            pv = self.ulast(C, st, us[i - 1]) if i else ("null",)
            nm = st.mem[u[1]].name if u[0] == "leaf" else "an untouched leaf below " + st.mem[u[1]].name
            C.obl += 2
            if not same(nxt(u), nx):
                C.require(st, False, "chain", "next link of %s does not lead to the following leaf" % nm)
            if not same(prv(u), pv):
                C.require(st, False, "chain", "previous link of %s does not lead to the preceding leaf" % nm)
        C.obl += 2
        f = self.tref(C, st, T, lay.tleft)
        if not same(f, self.ufirst(C, st, us[0])):
            C.require(st, False, "ends", "leftmost leaf of the tree is wrong")
        f = self.tref(C, st, T, lay.tright)
        if not same(f, self.ulast(C, st, us[-1])):
            C.require(st, False, "ends", "rightmost leaf of the tree is wrong")

    def tref(self, C, st, T, off):
        return self.linkref(C, st, T, off)

    def linkref(self, C, st, oid, off):
        """the leaf a link field leads to; an unwritten field is described without
        materialising the nodes it passes"""
        o = st.mem[oid]
        if off not in o.fields and o.init is not None and isinstance(o.meta, tuple):
            m = o.meta
            lay = self.lay
            if m[0] == "tree":
                if m[2] == 0:
                    return ("oid", m[1])
                if off == lay.tleft:
                    return self.subref(C, st, m[1], Lin(0), True)
                return self.subref(C, st, m[1], st.mem[m[1]].meta[4] - 1, False)
            if m[0] == "node":
                if m[1] is None:
                    return ("null",)
                if off == lay.lnext:
                    return self.subref(C, st, m[1], m[2] + 1, True)
                return self.subref(C, st, m[1], m[2] - 1, False)
        return self.leafref(C, st, self.load(C, st, oid, off))

    def subref(self, C, st, P, j, fwd):
        """original first (last) leaf at child position j of P, walking past the ends"""
        I = C.I
        while True:
            m = st.mem[P].meta
            inside = I.decide(st, GE(m[4] - j - 1)) if fwd else I.decide(st, GE(j))
            if inside:
                break
            if m[1] is None:
                return ("null",)
            P, j = m[1], (m[2] + 1 if fwd else m[2] - 1)
        while True:
            m = st.mem[P].meta
            kd = None
            for e, oid in st.ms["kids:" + P]:
                if I.decide(st, EQ(j - e)):
                    kd = oid
            if kd is None:
                if m[3] == 1:
                    return ("ch", P, j)
                return ("sub", P, j, "first" if fwd else "last")
            km = st.mem[kd].meta
            if km[3] == 0:
                return ("oid", kd)
            P, j = kd, (Lin(0) if fwd else km[4] - 1)

    def tree_ok(self, C, st, T, what, expseq, size, cats=None):
        """the complete well-formedness and content obligations of tree object T"""
        lay, I = self.lay, C.I
        S = Shape()
        leaf = self.fld(st, T, lay.tisleaf)
        if not isinstance(leaf, Lin):
            C.require(st, False, "structure", "%s: root kind is not set" % what)
            return
        isleaf = I.decide(st, simp(("ne", leaf)))
        p = self.fld(st, T, lay.troot)
        if isinstance(p, tuple) and p and p[0] == "el":
            p = Ptr(p, Lin(0))
        if not isinstance(p, Ptr) or p.base is None:
            C.require(st, False, "structure", "%s: tree has no root" % what)
            return
        b = p.base
        if isinstance(b, tuple):
            b = C.W.resolve(st, b)
        level = 0
        if not C.require(st, b in st.mem and not st.mem[b].freed, "uaf", "%s: the root has been released" % what):
            return
        if not isleaf:
            level = self.levelof(C, st, b)
            if not C.require(st, level >= 1, "structure", "%s: root is marked inner but leads to a leaf" % what):
                return
        self.what = what
        self.walk(C, st, S, b, None, level, True, T)
        if I.viols and False:
            return
        self.linkchecks(C, st, S, T)
        C.obl += 1
        exp = expseq(st)
        r = self.seqmatch(C, st, S.seq, exp)
        if r:
            C.require(st, False, "content", "%s: %s" % (what, r))
            size = self.actualsize(C, st, S.seq, exp, size)
        sz = self.fld(st, T, lay.tsizeoff)
        C.require(st, size is not None and isinstance(sz, Lin) and EQ(sz - size), "size",
                  "%s: size() is not the number of elements" % what)
        tl, ti = C.W.tagname(st, self.fld(st, T, lay.tla)), C.W.tagname(st, self.fld(st, T, lay.tia))
        for kd, oid in [("n", x) for x in S.seen] + [("s", x[1]) for x in S.seq if x[0] == "sub"]:
            m = st.mem[oid].meta
            C.obl += 1
            if m[0] == "new":
                got, leaf = m[2], m[1] == "leaf"
            elif kd == "n":
                got, leaf = C.W.nodetag(st, oid), m[3] == 0
            else:
                got, leaf = C.W.nodetag(st, oid, m[3] - 1), m[3] == 1
            if got != (tl if leaf else ti):
                C.require(st, False, "alloc", "%s: a node came from allocator %s but the tree will release it through %s" %
                          (what, got, tl if leaf else ti))
        return S

    def actualsize(self, C, st, seq, exp, size):
        """number of elements really in the tree, given that of the required sequence; None: whole
        subtrees are missing or duplicated"""
        def split(q):
            n, subs = Lin(0), []
            for x in q:
                if x[0] == "x":
                    n = n + 1
                elif x[0] == "e":
                    n = n + x[3]
                elif not C.I.decide(st, GE(x[2] - x[3])):
                    subs.append(x)
            return n, subs
        n, a = split(seq)
        m, b = split(exp)
        for x in a:
            y = next((y for y in b if y[1] == x[1] and C.I.decide(st, EQ(x[2] - y[2])) and C.I.decide(st, EQ(x[3] - y[3]))), None)
            if y is None:
                return None
            b.remove(y)
        return None if b else size + n - m

    def levelof(self, C, st, oid, d=0):
        o = st.mem.get(oid)
        if o is None or not isinstance(o.meta, tuple) or d > 6:
            return -1
        m = o.meta
        if m[0] == "node":
            return m[3]
        if m[0] != "new":
            return -1
        if m[1] == "leaf":
            return 0
        c = o.arr["vals"][0][2]
        if c[0] == "src":
            return st.mem[tokarr(c[1])[0]].meta[3]
        if c[0] == "val" and isinstance(c[1], Ptr):
            b = c[1].base
            if isinstance(b, tuple):
                return st.mem[tokarr(b[1])[0]].meta[3]
            return self.levelof(C, st, b, d + 1) + 1
        return -1

    def noleak(self, C, st, seen, what):
        for oid, o in st.mem.items():
            if o.kind == "heap" and isinstance(o.meta, tuple) and o.meta[0] in ("node", "new"):
                C.obl += 1
                if not o.freed and oid not in seen:
                    C.require(st, False, "leak", "%s: %s is neither reachable nor released" % (what, o.name))

    def allgone(self, C, st, N, what):
        """every original node at and below N has been released"""
        I = C.I
        o = st.mem[N]
        C.obl += 1
        if not C.require(st, o.freed, "leak", "%s: %s is not released" % (what, o.name)):
            return
        m = o.meta
        if m[3] == 0:
            return
        pos = Lin(0)
        segs = st.mem["fr:" + N].arr["cfr"]
        for e, oid in self.kidslist(C, st, N) + [(m[4], None)]:
            if not I.decide(st, GE(pos - e)):
                for lo, hi, c in I.seg_slice(st, segs, pos, e):
                    if c != ("val", Lin(1)) and not I.decide(st, GE(lo - hi)):
                        C.require(st, False, "leak", "%s: a subtree of %s is not released" % (what, o.name))
                        return
            if oid is not None:
                self.allgone(C, st, oid, what)
            pos = e + 1

    # -- expected contents
    def expected(self, C, edit, root="R"):
        """original sequence with the leaf on X's path edited by edit(leaf, c, n)"""
        def f(st):
            out = []
            for it in self.origseq(C, st, root):
                if it[0] == "e" and edit is not None and it[1] == C.W.leaf:
                    out += edit(it[1], C.W.path[it[1]][0], it[3])
                else:
                    out.append(it)
            return out
        return f

    @staticmethod
    def keep(leaf, c, n):
        return [("e", leaf, Lin(0), n)]

    @staticmethod
    def inserted(v):
        def f(leaf, c, n):
            return [("e", leaf, Lin(0), c), ("x", ("X",), v), ("e", leaf, c, n - c)]
        return f

    @staticmethod
    def removed(leaf, c, n):
        return [("e", leaf, Lin(0), c), ("e", leaf, c + 1, n - c - 1)]

    @staticmethod
    def assigned(v):
        def f(leaf, c, n):
            return [("e", leaf, Lin(0), c), ("x", ("el", leaf + ".k", c), v), ("e", leaf, c + 1, n - c - 1)]
        return f

    def at(self, C, st, leaf, i):
        """(key, value) tokens of the original element at position i of a leaf, or of the first
        element after it; None at the end of the tree"""
        W = C.W
        m = st.mem[leaf].meta
        if C.I.decide(st, GE(m[4] - i - 1)):
            return ("el", leaf + ".k", i), ("el", leaf + ".v", i)
        if m[1] is None:
            return None
        p = W.neighbour(st, m[1], m[2], True)
        if p.base is None:
            return None
        q = W.resolve(st, p.base)
        return ("el", q + ".k", Lin(0)), ("el", q + ".v", Lin(0))

    def flagval(self, C, st, oid, off):
        g = self.fld(st, oid, off)
        if isinstance(g, Lin):
            return C.I.decide(st, simp(("ne", g)))
        if iscond(g):
            return C.I.decide(st, g)
        return None

    def result(self, C, st, what, exp, nxt, oid="res", valexp=None):
        """the position returned designates exp=(key,val) tokens, followed by nxt (None: end)"""
        r = self.res
        e = self.flagval(C, st, oid, r["end"])
        if not C.require(st, e is (exp is None), "result", "%s: returned position %s" %
                         (what, "is not the end" if exp is None else "is the end")):
            return
        if exp is None:
            return
        k, v = self.fld(st, oid, r["key"]), self.fld(st, oid, r["val"])
        C.require(st, C.W.keyeq(st, k, exp[0]), "result", "%s: returned position has the wrong key" % what)
        C.require(st, self.valeq(C, st, v, exp[1]), "result", "%s: returned position has the wrong value" % what)
        e2 = self.flagval(C, st, oid, r["end2"])
        if not C.require(st, e2 is (nxt is None), "result", "%s: the position after the returned one %s" %
                         (what, "is not the end" if nxt is None else "is the end")):
            return
        if nxt is None:
            return
        k, v = self.fld(st, oid, r["key2"]), self.fld(st, oid, r["val2"])
        C.require(st, C.W.keyeq(st, k, nxt[0]), "result", "%s: the position after the returned one has the wrong key" % what)
        C.require(st, self.valeq(C, st, v, nxt[1]), "result", "%s: the position after the returned one has the wrong value" % what)

    def valeq(self, C, st, a, b):
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "el" and b[0] == "el" and a[1] == b[1]:
            return C.I.decide(st, EQ(a[2] - b[2]))
        return C.I.eqv(st, a, b)

    def found(self, C, st):
        return C.I.decide(st, GE(C.W.path[C.W.leaf][1] - 1))

    # -- operations
    def op_insert(self, entry, mode, alias=False, faults=False, how=0):
        """alias: the value given is a reference to a value stored in the leaf that will change;
        faults: allocations and value copies may fail; how: which position is given as the hint"""
        C, w = self.ctx(canthrow=faults)
        st = State()
        t, k, v, r = self.pre(w, st)
        VX = ("VX",) if mode != "sub" else Lin(0)
        if alias:
            lf, lay = w.leaf, self.lay
            j = nsym("j")
            st.cons.add(j)
            st.cons.add(st.mem[lf].meta[4] - j - 1)
            w.bnd += (j,)
            v = Ptr(lf, j * lay.ldm.vsz + (lay.ldoff + lay.ldm.voff))
            VX = ("el", lf + ".v", j)
        if mode == "pair":
            kv = Obj("const", "pair argument", size=16)
            kv.fields = {0: (8, ("X",)), 8: (8, ("VX",))}
            st.mem["kv"] = kv
            args = [t, Ptr("kv", Lin(0)), r]
        elif mode == "sub":
            st.mem["ref"] = Obj("heap", "result reference", size=8)
            args = [t, k, Ptr("ref", Lin(0))]
        else:
            args = [t, k, v, r]
        if mode == "hint":
            j = nsym("j")
            st.cons.add(j)
            args += [Lin(how), j]
        if mode in ("move", "arg"):
            st.mem["varg"].kind = "heap"
        what = entry[4:]

        def post(s, kind, val):
            failed = ("badalloc",) in s.ev or ("badvalue",) in s.ev
            if kind == "throw" and failed:
                how = what + " after a failed " + ("allocation" if ("badalloc",) in s.ev else "value copy")
                S = self.tree_ok(C, s, "T", how, self.expected(C, self.keep), self.size0)
                if S:
                    self.noleak(C, s, S.seen, how)
                return
            if not C.require(s, kind == "ret", "throw", "%s throws" % what):
                return
            if not C.require(s, not failed, "throw", "%s hides a failure" % what):
                return
            leaf = w.leaf
            c = w.path[leaf][0]
            fnd = self.found(C, s)
            if not fnd:
                S = self.tree_ok(C, s, "T", what, self.expected(C, self.inserted(VX)), self.size0 + 1)
            elif mode in ("assign", "move"):
                S = self.tree_ok(C, s, "T", what, self.expected(C, self.assigned(VX)), self.size0)
            else:
                S = self.tree_ok(C, s, "T", what, self.expected(C, self.keep), self.size0)
            if S:
                self.noleak(C, s, S.seen, what)
            if mode == "arg" and fnd:
                C.require(s, s.mem["varg"].fields[0][1] == ("VX",), "content", "%s of a present key uses up its argument" % what)
            if mode == "sub":
                g = self.fld(s, "ref", 0)
                x = C.I.load(s, g, 8, ["i", 64]) if isinstance(g, Ptr) else UNDEF
                ex = ("el", leaf + ".v", c) if fnd else VX
                C.require(s, self.valeq(C, s, x, ex), "result", "%s: reference to the wrong element" % what)
                return
            if fnd:
                ex = (("el", leaf + ".k", c), VX if mode in ("assign", "move") else ("el", leaf + ".v", c))
                nx = self.at(C, s, leaf, c + 1)
            else:
                ex = (("X",), VX)
                nx = self.at(C, s, leaf, c)
            self.result(C, s, what, ex, nx)
            if mode != "hint":
                f = self.flagval(C, s, "res", self.res["flag"])
                C.require(s, f is (not fnd), "result", "%s: inserted flag is wrong" % what)
        C.run(entry, st, args, post)
        return C

    def op_lookup(self, entry, mode):
        C, w = self.ctx()
        st = State()
        t, k, v, r = self.pre(w, st)
        st.mem["T"].kind = "const"
        what = entry[4:]
        args = [t, k, r]
        if mode == "range":
            args = [t, k, r, Ptr("res2", Lin(0))]
        if mode == "count":
            st.mem["cnt"] = Obj("heap", "count", size=8)
            st.mem["has"] = Obj("heap", "contains", size=1)
            args = [t, k, Ptr("cnt", Lin(0)), Ptr("has", Lin(0))]
        if mode == "at":
            st.mem["ref"] = Obj("heap", "result reference", size=8)
            args = [t, k, Ptr("ref", Lin(0))]

        def post(s, kind, val):
            leaf = w.leaf
            c, q, _ = w.path[leaf]
            fnd = self.found(C, s)
            if mode == "at" and not fnd:
                C.require(s, kind == "throw", "throw", "%s of an absent key does not throw" % what)
            elif not C.require(s, kind == "ret", "throw", "%s throws" % what):
                return
            self.tree_ok(C, s, "T", what, self.expected(C, self.keep), self.size0)
            if kind == "throw":
                return
            if mode == "at":
                g = self.fld(s, "ref", 0)
                x = C.I.load(s, g, 8, ["i", 64]) if isinstance(g, Ptr) else UNDEF
                C.require(s, self.valeq(C, s, x, ("el", leaf + ".v", c)), "result", "%s: reference to the wrong element" % what)
                return
            if mode == "count":
                g = self.fld(s, "cnt", 0)
                C.require(s, isinstance(g, Lin) and EQ(g - (1 if fnd else 0)), "result", "count is wrong")
                C.require(s, self.flagval(C, s, "has", 0) is fnd, "result", "contains is wrong")
                return
            el = self.at(C, s, leaf, c)
            nx = self.at(C, s, leaf, c + 1) if el is not None else None
            if el is not None and not (isinstance(el[0], tuple) and el[0][1] == leaf + ".k"):
                # the element is the first one of the following leaf
                q2 = tokarr(el[0][1])[0]
                nx = self.at(C, s, q2, Lin(1))
            if mode == "find":
                self.result(C, s, what, el if fnd else None, nx)
            elif mode == "lower":
                self.result(C, s, what, el, nx)
            elif mode == "upper":
                if fnd:
                    self.upper(C, s, what, leaf, c + 1)
                else:
                    self.result(C, s, what, el, nx)
            elif mode == "range":
                self.result(C, s, what + " (first)", el, nx)
                if fnd:
                    self.upper(C, s, what + " (second)", leaf, c + 1, "res2")
                else:
                    self.result(C, s, what + " (second)", el, nx, "res2")
        C.run(entry, st, args, post)
        return C

    def upper(self, C, s, what, leaf, i, oid="res"):
        el = self.at(C, s, leaf, i)
        nx = None
        if el is not None:
            n2 = tokarr(el[0][1])[0]
            nx = self.at(C, s, n2, el[0][2] + 1)
        self.result(C, s, what, el, nx, oid)

    def op_erase(self, entry, mode, alias=False):
        """alias: the key given is a reference to the stored key itself"""
        C, w = self.ctx()
        st = State()
        t, k, v, r = self.pre(w, st)
        what = entry[4:]
        if alias:
            lf, lay = w.leaf, self.lay
            st.cons.add(w.path[lf][1] - 1)
            k = Ptr(lf, w.path[lf][0] * lay.ldm.ksz + (lay.ldoff + lay.ldm.koff))
        if mode == "key":
            st.mem["cnt"] = Obj("heap", "count", size=8)
            args = [t, k, Ptr("cnt", Lin(0))]
        else:
            st.cons.add(w.path[w.leaf][1] - 1)
            args = [t, k, r]

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "%s throws" % what):
                return
            leaf = w.leaf
            c = w.path[leaf][0]
            fnd = self.found(C, s)
            S = self.tree_ok(C, s, "T", what, self.expected(C, self.removed if fnd else self.keep),
                             self.size0 - (1 if fnd else 0))
            if S:
                self.noleak(C, s, S.seen, what)
            if mode == "key":
                g = self.fld(s, "cnt", 0)
                C.require(s, isinstance(g, Lin) and EQ(g - (1 if fnd else 0)), "result", "%s: returned count is wrong" % what)
            else:
                self.upper(C, s, what, leaf, c + 1)
        C.run(entry, st, args, post)
        return C

    # -- iterators
    def before(self, C, st, leaf, i):
        """tokens of the original element before position i of a leaf; None at the beginning"""
        W = C.W
        m = st.mem[leaf].meta
        if C.I.decide(st, GE(i - 1)):
            return ("el", leaf + ".k", i - 1), ("el", leaf + ".v", i - 1)
        if m[1] is None:
            return None
        p = W.neighbour(st, m[1], m[2], False)
        if p.base is None:
            return None
        q = W.resolve(st, p.base)
        n = st.mem[q].meta[4]
        return ("el", q + ".k", n - 1), ("el", q + ".v", n - 1)

    def extreme(self, C, st, fwd):
        W = C.W
        root = "R"
        p = W.first(st, root) if fwd else W.last(st, root)
        q = p.base if not isinstance(p.base, tuple) else W.resolve(st, p.base)
        n = st.mem[q].meta[4]
        if C.I.decide(st, GE(-n)):
            return None
        i = Lin(0) if fwd else n - 1
        return ("el", q + ".k", i), ("el", q + ".v", i)

    def posis(self, C, st, what, exp, oid):
        r = self.res
        e = self.flagval(C, st, oid, r["end"])
        if not C.require(st, e is (exp is None), "result", "%s %s" % (what, "is not the end" if exp is None else "is the end")):
            return
        if exp is None:
            return
        for kf, vf, nm in (("key", "val", "*"), ("key2", "val2", "->")):
            k, v = self.fld(st, oid, r[kf]), self.fld(st, oid, r[vf])
            C.require(st, C.W.keyeq(st, k, exp[0]), "result", "%s: wrong key through %s" % (what, nm))
            C.require(st, self.valeq(C, st, v, exp[1]), "result", "%s: wrong value through %s" % (what, nm))

    def flagis(self, C, st, oid, want, msg):
        C.require(st, self.flagval(C, st, oid, self.res["flag"]) is want, "result", msg)

    def op_functions(self, entry, mode):
        """the function objects and the allocator a tree hands out"""
        C, w = self.ctx()
        st = State()
        t, k, v, r = self.pre(w, st)
        st.mem["T"].kind = "const"
        for n, x in (("a", "A"), ("b", "B")):
            w.scalar(st, n, (x,), kind="const", name="key " + n)
            w.scalar(st, "v" + n, ("V" + x,), kind="const", name="value " + n)
        st.mem["fn"] = Obj("heap", "result", size=16)

        def callhook(st, cn, args, ins):
            if cn != "vp_less":
                return None
            q = []
            for a in args[:2]:
                q.append(C.I.load(st, C.I.topt(st, a), 8, ["i", 64], ins))
            q = ("less", q[0], q[1])
            if q in st.ms:
                return [(st, "ret", Lin(st.ms[q]))]
            res = []
            for b in (0, 1):
                s = st.copy()
                s.ms[q] = b
                res.append((s, "ret", Lin(b)))
            return res
        w.callhook = callhook

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "an observer throws"):
                return
            e = s.ms.get(("less", ("A",), ("B",)))
            for off, nm in ((0, "key_comp()"), (1, "key_compare"), (2, "value_comp()")):
                g = self.flagval(C, s, "fn", off)
                C.require(s, e is not None and g is bool(e), "observe", "%s does not order keys as the tree's comparator does" % nm)
            g = self.fld(s, "fn", 8)
            C.require(s, isinstance(g, Ptr) and g.base in ("tag:l", "tag:i") and not g.off.t and not g.off.c, "observe",
                      "get_allocator is not the allocator of the tree")
            self.tree_ok(C, s, "T", "observing", self.expected(C, self.keep), self.size0)
        C.run(entry, st, [t] + [Ptr(x, Lin(0)) for x in ("a", "b", "va", "vb", "fn")], post)
        return C

    def op_step(self, entry, mode):
        C, w = self.ctx()
        st = State()
        t, k, v, r = self.pre(w, st)
        st.mem["res3"] = Obj("heap", "third result", size=max(self.res.values()) + 8)
        outs = [Ptr(x, Lin(0)) for x in ("res", "res2", "res3")]
        st.mem["T"].kind = "const"
        what = entry[4:]
        args = [t] + ([] if mode in ("rends", "ends") else [k]) + outs

        def post(s, kind, val):
            if not C.require(s, kind == "ret", "throw", "%s throws" % what):
                return
            S = self.tree_ok(C, s, "T", what, self.expected(C, self.keep), self.size0)
            leaf = w.leaf
            c = w.path[leaf][0]
            if mode in ("rends", "ends"):
                a, z = self.extreme(C, s, mode == "ends"), self.extreme(C, s, mode != "ends")
                self.posis(C, s, "first position", a, "res")
                if mode == "ends":
                    self.flagis(C, s, "res", True, "cbegin()/cend() differ from begin()/end()")
                if a is None:
                    return
                if mode == "rends":
                    n1, l1 = a[0][2], tokarr(a[0][1])[0]
                    self.posis(C, s, "position after rbegin()", self.before(C, s, l1, n1), "res2")
                    self.flagis(C, s, "res", True, "r++ does not return the old position or does not move")
                self.posis(C, s, "position before the end", z, "res3")
                self.flagis(C, s, "res3", True, "stepping back from the end and forth does not return to it")
                return
            el = self.at(C, s, leaf, c)
            if mode == "back":
                first = self.extreme(C, s, True)
                self.posis(C, s, "begin()", first, "res3")
                if el is None:
                    pv = self.extreme(C, s, False)
                else:
                    pv = self.before(C, s, tokarr(el[0][1])[0], el[0][2])
                self.flagis(C, s, "res", pv is None, "comparison with begin() is wrong")
                if pv is None:
                    return
                self.posis(C, s, "position after --", pv, "res2")
                self.flagis(C, s, "res2", True, "-- does not return the iterator or does not move")
                self.flagis(C, s, "res3", True, "++ after -- does not return to the position")
                return
            e = self.flagval(C, s, "res", self.res["end"])
            if not C.require(s, e is (el is None), "result", "end position is wrong") or el is None:
                return
            l1, i1 = tokarr(el[0][1])[0], el[0][2]
            if mode == "fwd":
                self.posis(C, s, "old position of it++", el, "res")
                self.posis(C, s, "position after ++", self.at(C, s, l1, i1 + 1), "res2")
                self.posis(C, s, "position after ++ and --", el, "res3")
                self.flagis(C, s, "res", True, "it++ and ++it differ, or comparison is wrong")
                self.flagis(C, s, "res2", True, "it-- does not return the old position or does not step back")
                return
            if isinstance(self.fld(s, "res", self.res["n"]), Lin):
                raise Undecided("reverse iterators cannot be built from forward ones")
            self.posis(C, s, "old position of r++", el, "res")
            self.posis(C, s, "reverse position after ++", self.before(C, s, l1, i1), "res2")
            self.flagis(C, s, "res", True, "r++ does not move")
            self.flagis(C, s, "res2", True, "r-- does not return the old position or does not step back")
            nx = self.at(C, s, l1, i1 + 1)
            self.flagis(C, s, "res3", nx is None, "comparison with rbegin() is wrong")
            if nx is not None:
                self.posis(C, s, "reverse position after --", nx, "res3")
        C.run(entry, st, args, post)
        return C

    # -- whole-tree operations
    def op_whole(self, entry, mode, h2=0, same=True, faults=False):
        """clear, destruction, construction, move and swap, at node level"""
        C, w = self.ctx(canthrow=faults)
        st = State()
        what = entry[4:]
        self.size0 = w.tree(st, "T", self.H, False)
        t = Ptr("T", Lin(0))
        st.mem["flag"] = Obj("heap", "result flag", size=1)
        w.bnd = (Lin(self.lay.leafcap), Lin(self.lay.innercap))
        size2 = None
        empty = lambda s: []
        if mode in ("movector", "ctor"):
            st.mem["T2"] = Obj("heap", "new tree", size=self.lay.tsize, align=8)
            args = [Ptr("T2", Lin(0)), t]
            if mode == "ctor":
                args = [Ptr("T2", Lin(0)), Ptr("tag:l", Lin(0))]
        elif mode in ("moveassign", "swap"):
            size2 = w.tree(st, "T2", h2, False, "2", "" if same else "2")
            args = [Ptr("T2", Lin(0)), t, Ptr("flag", Lin(0))]
        else:
            args = [t, Ptr("flag", Lin(0))]

        def post(s, kind, val):
            seen = []
            if kind == "throw" and faults and ("badalloc",) in s.ev:
                S = self.tree_ok(C, s, "T", what + " after a failed allocation", self.expected(C, None), self.size0)
                self.noleak(C, s, S.seen if S else [], what + " after a failed allocation")
                return
            if not C.require(s, kind == "ret", "throw", "%s throws" % what):
                return

            def ok(T, who, seq, size):
                S = self.tree_ok(C, s, T, "%s (%s)" % (what, who), seq, size)
                if S:
                    seen.extend(S.seen)
            R, R2 = self.expected(C, None), self.expected(C, None, "2R")
            if mode == "destroy":
                self.allgone(C, s, "R", what)
            elif mode == "clear":
                ok("T", "tree", empty, Lin(0))
                if "R" not in seen:
                    self.allgone(C, s, "R", what)
            elif mode == "ctor":
                ok("T2", "new tree", empty, Lin(0))
                ok("T", "other tree", R, self.size0)
            elif mode in ("movector", "moveassign"):
                ok("T2", "target", R, self.size0)
                ok("T", "moved-from tree", empty, Lin(0))
                if mode == "moveassign" and "2R" not in seen:
                    self.allgone(C, s, "2R", what)
            elif mode == "swap":
                ok("T2", "second tree", R, self.size0)
                ok("T", "first tree", R2, size2)
            else:
                ok("T", "tree", R, self.size0)
            self.noleak(C, s, seen, what)
            if mode in ("moveassign", "self"):
                C.require(s, self.flagval(C, s, "flag", 0) is True, "result", "%s does not return the target" % what)
        C.run(entry, st, args, post)
        return C


class DtorCheck(TreeCheck):
    """every node that is released has had its elements destroyed exactly once; no other node has"""

    def ctx(self, **kw):
        C, w = TreeCheck.ctx(self, **kw)
        w.dtor = True
        run = C.run

        def wrapped(entry, st, args, post):
            st.ms["dead"] = ()

            def both(s, kind, val):
                post(s, kind, val)
                C.require(s, not s.ms["dead"], "dtor", "the elements of a node are destroyed but the node stays")
            run(entry, st, args, both)
        C.run = wrapped
        return C, w
