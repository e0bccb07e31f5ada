"""Vector lane model: dense_map with SearchMode::SIMD.

Vector registers are tuples of lanes; a lane holds the bits of a stored key (possibly xored
with a constant), the search key, a constant, or an all-ones/all-zeros mask whose value is a
condition of the numeric domain.  A lane comparison is translated to the key order only when
the instruction's notion of order (signed, unsigned, floating) on those bits is the order of the
key type; otherwise its outcome is unrelated to the order and left open."""
from lin import Lin, L
from absint import (Ptr, UNDEF, NeedSplit, PathEnd, Undecided, Obj, State, nsym, split_ge, cnot, cand, cor, iscond)
from worlds import MapWorld, DMCheck, dm_layout, Ctx


class Vec:
    """lanes: tuple of (width in bits, value)"""
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = tuple(l)

    def bits(self):
        return sum(w for w, _ in self.l)

    def __eq__(self, o):
        return isinstance(o, Vec) and self.l == o.l

    def __hash__(self):
        return hash(self.l)

    def __repr__(self):
        return "Vec%r" % (self.l[:3],)


def simp(c):
    if isinstance(c, tuple) and c[0] in ("ge", "eq", "ne") and not c[1].t:
        return {"ge": c[1].c >= 0, "eq": c[1].c == 0, "ne": c[1].c != 0}[c[0]]
    return c


def neg(c):
    return simp(cnot(c))


class SimdWorld(MapWorld):
    # order of the key type: "s" signed, "u" unsigned, "f" floating
    def __init__(self, kind, bits, desc, nan=False):
        MapWorld.__init__(self)
        self.kind = kind
        self.kbits = bits
        self.desc = desc
        self.nan = nan

    # ---- key bits:  KB = ("kb", token, w0, m, ext, w, m2)
    def iskey(self, v):
        return isinstance(v, tuple) and v and (v[0] == "kb" or v == ("X",) or (v[0] == "el" and v[1] in self.arrs))

    def kb(self, v):
        if v[0] == "kb":
            return v
        return ("kb", v, self.kbits, 0, None, self.kbits, 0)

    def unkb(self, v):
        if v[0] == "kb" and v[3] == 0 and v[4] is None:
            return v[1]
        return v

    def cast(self, st, op, v, ins):
        if v[0] == "bits":
            return self.bitscast(op, v, ins)
        if not self.iskey(v) or ins["ty"][0] != "i":
            return None
        _, tok, w0, m, ext, w, m2 = self.kb(v)
        nw = ins["ty"][1]
        if op == "trunc":
            if nw == w0:
                return self.unkb(("kb", tok, w0, m ^ (m2 & ((1 << w0) - 1)), None, w0, 0))
            if ext and nw > w0:
                return ("kb", tok, w0, m, ext, nw, m2 & ((1 << nw) - 1))
            raise Undecided("partial key bits")
        e = "z" if op == "zext" else "s"
        if ext is None:
            return ("kb", tok, w0, m, e, nw, 0)
        if m2 == 0 and (ext == e or ext == "z"):
            return ("kb", tok, w0, m, ext, nw, 0)
        raise Undecided("key bits extended twice")

    def order(self, k, signed):
        """which raw order a comparison of these bits follows: 's', 'u' or None"""
        _, tok, w0, m, ext, w, m2 = k
        if m2:
            return None
        top = 1 << (w0 - 1)
        if m not in (0, top):
            return None
        if ext is None:
            base = "s" if signed else "u"
        elif ext == "z":
            base = "u"
        else:
            base = "s" if signed else "u"
        if m:
            base = "u" if base == "s" else "s"
        return base

    def free(self, tag, a, b):
        s = nsym("?%s(%r,%r)" % (tag, a, b))
        st = self.curst
        st.cons.add(s)
        st.cons.add(Lin(1) - s)
        return ("ge", s - 1)

    def num(self, st, pred, a, b):
        """comparison of two key tokens in the key type's numeric order"""
        if self.nan and (a == ("X",) or b == ("X",)):
            return pred == "ne"
        if self.desc:
            lt = lambda x, y: simp(self.less(st, y, x))
        else:
            lt = lambda x, y: simp(self.less(st, x, y))
        if pred == "lt":
            return lt(a, b)
        if pred == "gt":
            return lt(b, a)
        if pred == "le":
            return neg(lt(b, a))
        if pred == "ge":
            return neg(lt(a, b))
        e = self.equiv(st, a, b)
        return e if pred == "eq" else neg(e)

    def keycmp(self, st, pred, a, b):
        """a, b: lane or scalar values, integer predicate"""
        self.curst = st
        ka, kb = self.iskey(a), self.iskey(b)
        if a == UNDEF or b == UNDEF:
            return ("lz", "undef")
        if not (ka and kb):
            return ("lz", "open", pred, a, b)
        a, b = self.kb(a), self.kb(b)
        if pred in ("eq", "ne"):
            if a[2:] == b[2:]:
                if self.kind == "f":
                    return self.free(pred, a, b)     # bit equality is not the order's equivalence
                return self.num(st, pred, a[1], b[1])
            return self.free(pred, a, b)
        sg = pred[0] == "s"
        oa, ob = self.order(a, sg), self.order(b, sg)
        if oa is not None and oa == ob == self.kind and a[2] == b[2]:
            return self.num(st, pred[1:], a[1], b[1])
        return self.free(pred, a, b)

    def lazycond(self, st, c):
        if c[1] == "open":
            raise Undecided("comparison of %r and %r" % (c[3], c[4]))
        return MapWorld.lazycond(self, st, c)

    def fnum(self, st, pred, a, b):
        self.curst = st
        if a == UNDEF or b == UNDEF:
            return ("lz", "undef")
        if pred in ("true", "false"):
            return pred == "true"
        if not (self.iskey(a) and self.iskey(b)):
            return ("lz", "open", pred, a, b)
        a, b = self.kb(a), self.kb(b)
        if self.kind != "f" or a[3] or b[3] or a[4] or b[4]:
            return self.free(pred, a, b)
        x = self.nan and (a[1] == ("X",) or b[1] == ("X",))
        if pred in ("ord", "uno"):
            return x == (pred == "uno")
        if x:
            return pred[0] == "u"
        p = pred[1:]
        return self.num(st, {"eq": "eq", "ne": "ne"}.get(p, p), a[1], b[1])

    # ---- hooks of the interpreter
    def icmp(self, st, pred, a, b, ins):
        if self.isbits(a) or self.isbits(b):
            return self.bitscmp(st, pred, a, b, ins)
        if self.iskey(a) or self.iskey(b):
            return self.keycmp(st, pred, a, b)
        return None

    def fcmp(self, st, pred, a, b, ins):
        if isinstance(a, Vec):
            n = len(a.l)
            a, b = self.relane(a, ins["oty"][2][1]), self.relane(b, ins["oty"][2][1])
            return Vec([(1, ("m", self.fnum(st, pred, x, y))) for (_, x), (_, y) in zip(a.l, b.l)])
        return self.fnum(st, pred, a, b)

    def zero(self, ty):
        if ty[0] == "v":
            w = ty[2][1] if ty[2][0] != "p" else 64
            return Vec([(w, ("k", 0))] * ty[1])
        return MapWorld.zero(self, ty)

    def constagg(self, o):
        ty = o[2]
        if ty[0] != "v":
            return MapWorld.constagg(self, o)
        w = ty[2][1]
        out = []
        for e in o[1]:
            if e[0] == "c":
                out.append((w, ("k", int(e[2]) & ((1 << w) - 1))))
            elif e[0] == "undef":
                out.append((w, UNDEF))
            else:
                out.append((w, ("opq", str(e))))
        return Vec(out)

    def lane(self, v, w):
        """scalar value -> lane value"""
        if v == UNDEF:
            return v
        if isinstance(v, Lin) and v.isconst():
            return ("k", v.c & ((1 << w) - 1))
        if v is True or v is False:
            return ("k", ((1 << w) - 1) if v else 0)
        if self.iskey(v):
            k = self.kb(v)
            if k[5] != w:
                raise Undecided("key bits of another width in a vector")
            return self.unkb(k)
        if isinstance(v, tuple) and v[0] == "fconst":
            import struct
            try:
                x = float(v[1])
                b = struct.pack("<d" if w == 64 else "<f", x)
                return ("k", int.from_bytes(b, "little"))
            except (ValueError, OverflowError, TypeError):
                return ("opq", str(v))
        if isinstance(v, tuple) and v[0] in ("pk", "m", "k", "opq"):
            return v
        return ("opq", repr(v))

    def flat(self, v, w):
        """lane(s) for a scalar of w bits"""
        if isinstance(v, tuple) and v and v[0] == "pk":
            return [x for x in v[1]]
        return [(w, self.lane(v, w))]

    def relane(self, v, w):
        if not isinstance(v, Vec):
            raise Undecided("vector expected")
        out = []
        i = 0
        L_ = []
        for lw, x in v.l:
            if lw != w and x != UNDEF and x[0] == "pk":
                L_ += list(self.unpack(Vec([(lw, x)])).l)
            else:
                L_.append((lw, x))
        while i < len(L_):
            lw, x = L_[i]
            if lw == w:
                out.append((w, x))
                i += 1
            elif lw > w:
                if lw % w:
                    raise Undecided("vector lanes")
                for j in range(lw // w):
                    if x == UNDEF:
                        y = UNDEF
                    elif x[0] == "k":
                        y = ("k", (x[1] >> (w * j)) & ((1 << w) - 1))
                    elif x[0] == "m":
                        y = x
                    else:
                        y = ("opq", "part %d of %r" % (j, x))
                    out.append((w, y))
                i += 1
            else:
                tot = 0
                grp = []
                while tot < w and i < len(L_):
                    grp.append(L_[i])
                    tot += L_[i][0]
                    i += 1
                if tot != w:
                    raise Undecided("vector lanes")
                xs = [x for _, x in grp]
                if all(x == UNDEF for x in xs):
                    y = UNDEF
                elif all(x != UNDEF and x[0] == "k" for x in xs):
                    a = 0
                    sh = 0
                    for gw, x in grp:
                        a |= x[1] << sh
                        sh += gw
                    y = ("k", a)
                elif all(x == xs[0] for x in xs) and xs[0] != UNDEF and xs[0][0] == "m":
                    y = xs[0]
                else:
                    y = ("pk", tuple(grp))
                out.append((w, y))
        return Vec(out)

    def natural(self, a, b=None):
        """lane width at which the non-constant lanes of a (and b) keep their meaning"""
        ws = [w for v in (a, b) if v is not None for w, x in v.l if x != UNDEF and x[0] not in ("k", "m", "pk")]
        if ws:
            return min(ws)
        return min(w for v in (a, b) if v is not None for w, x in v.l)

    def unpack(self, v):
        out = []
        for w, x in v.l:
            if x != UNDEF and x[0] == "pk":
                out += list(self.unpack(Vec(x[1])).l)
            else:
                out.append((w, x))
        return Vec(out)

    def veccmp(self, st, pred, a, b, ins):
        w = ins["oty"][2][1]
        a, b = self.relane(self.unpack(a), w), self.relane(self.unpack(b), w)
        out = []
        for (_, x), (_, y) in zip(a.l, b.l):
            out.append((1, ("m", self.lanecmp(st, pred, x, y, w))))
        return Vec(out)

    def lanecmp(self, st, pred, x, y, w):
        if x == UNDEF or y == UNDEF:
            return ("lz", "undef")
        if x[0] == "k" and y[0] == "k":
            p, q = x[1], y[1]
            if pred[0] == "s":
                h = 1 << (w - 1)
                p, q = (p ^ h), (q ^ h)
            return {"lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q, "eq": p == q, "ne": p != q}[
                pred if pred in ("eq", "ne") else pred[1:]]
        if "m" in (x[0], y[0]) and "k" in (x[0], y[0]):
            m, k = (x, y) if x[0] == "m" else (y, x)
            ones = (1 << w) - 1
            tv = self.lanecmp(st, pred, *((("k", ones), k) if x[0] == "m" else (k, ("k", ones))), w)
            fv = self.lanecmp(st, pred, *((("k", 0), k) if x[0] == "m" else (k, ("k", 0))), w)
            if tv == fv:
                return tv
            return m[1] if tv else neg(m[1])
        if self.iskey(x) and self.iskey(y):
            return self.keycmp(st, pred, x, y)
        self.curst = st
        if x[0] in ("k", "m") or y[0] in ("k", "m"):
            return ("lz", "open", pred, x, y)
        return self.free(pred, x, y)

    def veccast(self, st, op, v, ins):
        w = ins["ty"][2][1]
        out = []
        for lw, x in v.l:
            if x != UNDEF and x[0] == "m" and (op == "sext" or op == "trunc"):
                out.append((w, x))
            elif x != UNDEF and x[0] == "k":
                k = x[1]
                if op == "sext" and k >> (lw - 1) & 1:
                    k |= ((1 << w) - 1) ^ ((1 << lw) - 1)
                out.append((w, ("k", k & ((1 << w) - 1))))
            elif x == UNDEF:
                out.append((w, x))
            else:
                raise Undecided("vector %s" % op)
        return Vec(out)

    def vecbitcast(self, st, v, ins):
        ty = ins["ty"]
        if v == UNDEF:
            return v
        if ty[0] == "v":
            w = ty[2][1]
            if not isinstance(v, Vec):
                v = Vec(self.flat(v, self.scalarbits(ins["oty"])))
            if w == 1 or any(x != UNDEF and x[0] == "m" and lw == 1 for lw, x in v.l):
                if w == 1 and all(lw == 1 for lw, _ in v.l):
                    return v
                raise Undecided("bitcast of predicates")
            return self.relane(v, w)
        # vector -> scalar
        if all(lw == 1 for lw, _ in v.l):
            return ("bits", len(v.l), tuple(x[1] if x[0] == "m" else bool(x[1]) for _, x in v.l))
        return self.scalar_of(v)

    def scalarbits(self, ty):
        return 64 if ty[0] == "p" else ty[1]

    def scalar_of(self, v):
        v = self.relane(self.unpack(v), v.bits())
        x = v.l[0][1]
        return self.scal(x)

    def scal(self, x):
        if x == UNDEF:
            return x
        if x[0] == "k":
            return Lin(x[1])
        return x

    def insertel(self, st, v, x, i, ins):
        n, w = ins["ty"][1], self.scalarbits(ins["ty"][2])
        if v == UNDEF:
            v = Vec([(w, UNDEF)] * n)
        i = self.I.toint(st, i)
        if not i.isconst():
            raise Undecided("variable lane")
        v = self.relane(v, w)
        l = list(v.l)
        fl = self.flat(x, w)
        l[i.c] = fl[0] if len(fl) == 1 else (w, ("pk", tuple(fl)))
        return Vec(l)

    def extractel(self, st, v, i, ins):
        w = self.scalarbits(ins["ty"])
        i = self.I.toint(st, i)
        if v == UNDEF:
            return UNDEF
        if not i.isconst():
            raise Undecided("variable lane")
        return self.scal(self.relane(self.unpack(v), w).l[i.c][1])

    def shufflevec(self, st, a, b, mask, ins):
        w = self.scalarbits(ins["ty"][2])
        n = None
        la = []
        for v in (a, b):
            if v == UNDEF:
                la.append(None)
            else:
                la.append(self.relane(v, w).l)
                n = len(la[-1])
        out = []
        for m in mask:
            src = None
            if m >= 0 and n:
                src = la[0] if m < n else la[1]
            out.append((w, UNDEF) if src is None else src[m % n])
        return Vec(out)

    def wideload(self, st, b, reg, idx, size, ty, ins):
        es = reg[1]
        if size < es or size % es or es * 8 != self.kbits or reg[3] not in ("keys",):
            raise Undecided("%d-byte read of %d-byte elements" % (size, es))
        n = size // es
        end = Lin(reg[2]) - idx - n
        if not st.cons.entails(end):
            if st.cons.feasible_with(end):
                raise split_ge(end)
            self.I.report("oob", "vector read past the end of the key array", st)
            raise PathEnd()
        segs = st.mem[b].arr[reg[3]]
        lanes = []
        for j in range(n):
            v = self.I.seg_read(st, segs, idx + j)
            lanes.append((self.kbits, v))
        if ty[0] == "v":
            return Vec(lanes)
        return ("pk", tuple(lanes))

    def loaded(self, st, v, ty):
        if ty[0] == "v" and not isinstance(v, Vec) and v != UNDEF:
            w = 8 * self.tysize(ty)
            return Vec([(w, self.lane(v, w))])
        return v

    # ---- bit masks
    def isbits(self, v):
        return isinstance(v, tuple) and len(v) > 0 and v[0] == "bits"

    def bits(self, v, n):
        if self.isbits(v):
            return v
        if isinstance(v, Lin) and v.isconst():
            return ("bits", n, tuple(bool(v.c >> i & 1) for i in range(n)))
        if iscond(v):
            return ("bits", n, (v,) + (False,) * (n - 1))
        return None

    def bitscast(self, op, v, ins):
        n = ins["ty"][1]
        c = v[2]
        if op == "trunc":
            if n == 1:
                return c[0]
            return ("bits", n, c[:n])
        fill = c[-1] if op == "sext" else False
        return self.unbits(("bits", n, c + (fill,) * (n - len(c))))

    def unbits(self, v):
        if all(c is True or c is False for c in v[2]):
            return Lin(sum(1 << i for i, c in enumerate(v[2]) if c))
        return v

    def allof(self, cs):
        """conjunction; of several lower bounds on the same expression only the tightest is kept"""
        best = {}
        rest = []
        for c in cs:
            if c is True:
                continue
            if c is False:
                return False
            if c[0] == "ge":
                k = c[1].t
                if k not in best or c[1].c < best[k].c:
                    best[k] = c[1]
            elif c not in rest:
                rest.append(c)
        out = True
        for l in best.values():
            out = cand(out, ("ge", l))
        for c in rest:
            out = cand(out, c)
        return out

    def bitscmp(self, st, pred, a, b, ins):
        n = ins["oty"][1]
        a, b = self.bits(a, n), self.bits(b, n)
        if a is None or b is None:
            raise Undecided("comparison of a mask")
        if pred in ("eq", "ne"):
            if all(isinstance(x, bool) for x in b[2]):
                r = self.allof([x if y else neg(x) for x, y in zip(a[2], b[2])])
            elif all(isinstance(x, bool) for x in a[2]):
                r = self.allof([y if x else neg(y) for x, y in zip(a[2], b[2])])
            else:
                r = self.allof([x if x == y else cor(cand(x, y), cand(neg(x), neg(y))) for x, y in zip(a[2], b[2])])
            return r if pred == "eq" else neg(r)
        if all(isinstance(x, bool) for x in b[2]):
            v = sum(1 << i for i, x in enumerate(b[2]) if x)
            if pred in ("ugt",) and v == 0:
                return neg(self.allof([neg(x) for x in a[2]]))
            if pred == "slt" and v == 0:
                return a[2][-1]
            if pred == "sge" and v == 0:
                return neg(a[2][-1])
            if pred == "sgt" and v == 0 and a[2][-1] is False:
                return neg(self.allof([neg(x) for x in a[2]]))
            if pred == "ult" and v == (1 << n) - 1:
                return neg(self.allof(list(a[2])))
        raise Undecided("comparison of a mask")

    def bitop(self, st, op, a, b, ins):
        if isinstance(a, Vec) or isinstance(b, Vec):
            return self.vecbit(st, op, a, b, ins)
        if ins["ty"][0] != "i":
            return None
        n = ins["ty"][1]
        if self.isbits(a) or self.isbits(b):
            x, y = self.bits(a, n), self.bits(b, n)
            if op == "lshr":
                if not (isinstance(b, Lin) and b.isconst()):
                    raise Undecided("variable shift of a mask")
                return self.unbits(("bits", n, x[2][b.c:] + (False,) * b.c))
            if x is None or y is None:
                raise Undecided("mask arithmetic")
            out = []
            for p, q in zip(x[2], y[2]):
                if op == "and":
                    out.append(cand(p, q))
                elif op == "or":
                    out.append(cor(p, q))
                elif p is True or p is False:
                    out.append(neg(q) if p else q)
                elif q is True or q is False:
                    out.append(neg(p) if q else p)
                else:
                    out.append(cor(cand(p, neg(q)), cand(neg(p), q)))
            return self.unbits(("bits", n, tuple(out)))
        if self.iskey(a) or self.iskey(b):
            if self.iskey(b):
                a, b = b, a
            if op == "lshr" or not (isinstance(b, Lin) and b.isconst()):
                raise Undecided("key bit arithmetic")
            _, tok, w0, m, ext, w, m2 = self.kb(a)
            c = b.c & ((1 << w) - 1)
            if op == "xor":
                if ext is None:
                    return self.unkb(("kb", tok, w0, m ^ c, None, w0, 0))
                lo = c & ((1 << w0) - 1)
                hi = c >> w0
                if hi == 0 and ext == "z":
                    return ("kb", tok, w0, m ^ lo, "z", w, m2)
                return ("kb", tok, w0, m, ext, w, m2 ^ c)
            if op == "and" and c == (1 << w0) - 1 and ext and m2 >> w0 << w0 == m2:
                return ("kb", tok, w0, m, "z", w, 0)
            raise Undecided("key bit arithmetic")
        return None

    def vecbit(self, st, op, a, b, ins):
        if a == UNDEF or b == UNDEF:
            raise Undecided("undefined vector operand")
        a, b = self.unpack(a), self.unpack(b)
        w = self.natural(a, b)
        a, b = self.relane(a, w), self.relane(b, w)
        out = []
        ones = (1 << w) - 1
        for (_, x), (_, y) in zip(a.l, b.l):
            if x != UNDEF and x[0] == "k":
                x, y = y, x
            if x == UNDEF or y == UNDEF:
                out.append((w, UNDEF))
            elif x[0] == "k" and y[0] == "k":
                out.append((w, ("k", {"and": x[1] & y[1], "or": x[1] | y[1], "xor": x[1] ^ y[1]}[op])))
            elif y[0] == "k" and y[1] in (0, ones):
                k = y[1]
                if op == "and":
                    out.append((w, x if k else ("k", 0)))
                elif op == "or":
                    out.append((w, ("k", ones) if k else x))
                elif k == 0:
                    out.append((w, x))
                elif x[0] == "m":
                    out.append((w, ("m", neg(x[1]))))
                elif self.iskey(x):
                    out.append((w, self.bitop(st, op, x, Lin(k), {"ty": ["i", w]})))
                else:
                    out.append((w, ("opq", "%s(%r,%r)" % (op, x, y))))
            elif y[0] == "k" and self.iskey(x) and op == "xor":
                out.append((w, self.lane(self.bitop(st, op, x, Lin(y[1]), {"ty": ["i", w]}), w)))
            elif x[0] == "m" and y[0] == "m":
                p, q = x[1], y[1]
                c = cand(p, q) if op == "and" else cor(p, q) if op == "or" else cor(cand(p, neg(q)), cand(neg(p), q))
                out.append((w, ("m", c)))
            else:
                out.append((w, ("opq", "%s(%r,%r)" % (op, x, y))))
        return Vec(out)

    def vecop(self, st, op, a, b, ins):
        raise Undecided("vector %s" % op)

    def topbits(self, v, w):
        v = self.relane(self.unpack(v), w)
        out = []
        for lw, x in v.l:
            if x == UNDEF:
                out.append(("lz", "undef"))
            elif x[0] == "m":
                out.append(x[1])
            elif x[0] == "k":
                out.append(bool(x[1] >> (w - 1) & 1))
            else:
                out.append(("lz", "open", "sign", x, None))
        return out

    def prefix(self, st, cs):
        """number of leading False entries of a condition list, as a linear expression"""
        i = 0
        n = len(cs)
        while i < n:
            c = cs[i]
            if c is True:
                return Lin(i)
            if c is False:
                i += 1
                continue
            if c[0] == "ge":
                # a run of groups  L, L+1, L+2, ... each repeated g times
                g = 1
                while i + g < n and cs[i + g] == c:
                    g += 1
                G = 1
                while True:
                    j = i + G * g
                    if j + g <= n and all(isinstance(cs[j + k], tuple) and cs[j + k][0] == "ge" and
                                          cs[j + k][1] == c[1] + G for k in range(g)):
                        G += 1
                    else:
                        break
                if G > 1:
                    if self.I.decide(st, c):
                        return Lin(i)
                    last = c[1] + (G - 1)
                    if self.I.decide(st, ("ge", last)):
                        return -c[1] * g + i
                    i += G * g
                    continue
            if self.I.decide(st, c):
                return Lin(i)
            i += 1
        return Lin(n)

    def intrinsic(self, st, cn, args, ins):
        if "pmovmskb" in cn:
            v = self.topbits(args[0], 8)
            return self.unbits(("bits", 32, tuple(v) + (False,) * (32 - len(v))))
        if ".movmsk.ps" in cn or ".movmsk.pd" in cn:
            v = self.topbits(args[0], 32 if ".ps" in cn else 64)
            return self.unbits(("bits", 32, tuple(v) + (False,) * (32 - len(v))))
        if cn.startswith("llvm.cttz") or cn.startswith("llvm.x86.bmi.tzcnt"):
            a = args[0]
            if self.isbits(a):
                return self.prefix(st, list(a[2]))
            if isinstance(a, Lin) and a.isconst():
                w = ins["ty"][1]
                x = a.c & ((1 << w) - 1)
                return Lin(w if x == 0 else (x & -x).bit_length() - 1)
        if cn.startswith("llvm.ctpop"):
            a = args[0]
            if self.isbits(a):
                # a run of True followed by False only
                cs = [neg(c) for c in a[2]]
                p = self.prefix(st, cs)
                return self.popcount(st, a[2], p)
            if isinstance(a, Lin) and a.isconst():
                return Lin(bin(a.c & ((1 << ins["ty"][1]) - 1)).count("1"))
        if cn.startswith("llvm.vector.reduce.") and isinstance(args[0], Vec):
            cs = [x[1] if x[0] == "m" else bool(x[1]) for _, x in args[0].l if x != UNDEF]
            if len(cs) == len(args[0].l) and all(w == 1 for w, _ in args[0].l):
                if ".and." in cn:
                    return self.allof(cs)
                if ".or." in cn:
                    return neg(self.allof([neg(c) for c in cs]))
        return MapWorld.intrinsic(self, st, cn, args, ins)

    def popcount(self, st, cs, p):
        if not p.isconst():
            # p entries are true; the rest of that run is false by monotonicity, entries outside
            # the run have to be decided one by one
            run = None
            for i, c in enumerate(cs):
                t = self.I.tri(st, c)
                if t is None and not (isinstance(c, tuple) and c[0] == "ge"):
                    raise Undecided("popcount of an irregular mask")
                if t is None:
                    if run is not None and c[1].t != run:
                        raise Undecided("popcount of an irregular mask")
                    run = c[1].t
                elif t is True and run is not None:
                    raise Undecided("popcount of an irregular mask")
            return p
        n = 0
        for c in cs:
            if c is True or c is False:
                n += c
            else:
                n += bool(self.I.decide(st, c))
        return Lin(n)

    def unlane(self, st, a):
        return a

    # ---- alignment of every access that requires more than the element's own
    def access(self, st, p, ins, write):
        al = ins.get("align", 1)
        if al <= 8 or not isinstance(p, Ptr) or isinstance(p.base, tuple) or p.base is None:
            return
        o = st.mem.get(p.base)
        if o is None or o.kind == "alloca":
            return
        self.nalign = getattr(self, "nalign", 0) + 1
        if o.align % al == 0 and p.off.divisible(al):
            return
        if o.align % al:
            self.I.report("align", "a %d-byte aligned access to %s, which is only %d-byte aligned" % (al, o.name, o.align), st)
            raise PathEnd()
        q = self.I.divk(st, p.off, al, False)
        r = p.off - q * al
        if not self.I.decide(st, ("eq", r)):
            self.I.report("align", "a %d-byte aligned access at an address that need not be a multiple of %d" % (al, al), st)
            raise PathEnd()


class SimdCheck(DMCheck):
    """DMCheck over a map whose keys are a primitive type"""

    def __init__(self, prog, length, kind, bits, desc, nan=False):
        self.P = prog
        self.N = length
        self.kind, self.bits, self.desc, self.nan = kind, bits, desc, nan
        self.lay = dm_layout(prog, None, "V", length)
        g = prog.globals.get("vp_align")
        self.align = int(g["init"][2]) if g else None

    def ctx(self):
        w = SimdWorld(self.kind, self.bits, self.desc, self.nan)
        w.layouts = [self.lay]
        return Ctx(self.P, w), w

    def pre(self, w, st, found=None, nmin=0):
        r = DMCheck.pre(self, w, st, found, nmin)
        if self.nan:
            # nothing is ordered before NaN and NaN is ordered before nothing
            st.cons.add(-r[2])
        st.mem["M"].align = self.align
        return r

    def two(self, w, st, rank1=0, rank2=1):
        r = DMCheck.two(self, w, st, rank1, rank2)
        st.mem["M2"].align = self.align
        return r

    def args(self, w, st):
        k = w.scalar(st, "karg", ("X",), size=self.bits // 8, kind="const", name="key argument")
        v = w.scalar(st, "varg", ("VX",), kind="const", name="value argument")
        idx = w.scalar(st, "idx", name="result index")
        ins = w.scalar(st, "ins", size=1, name="result flag")
        return k, v, idx, ins
