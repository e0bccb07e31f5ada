"""K01: keys are related through the comparator only."""
from absint import Program, PathEnd, Ptr, Undecided, locstr, nsym
from build import AnalysisBroken, BuildError, Tmp, compile_ir, try_compile
from lin import Lin
from props_bt import ASSUME, OPS as BTOPS
from props_dm import OPS as DMOPS
from report import Report
from runner import parallel, run_units
from tree import TreeCheck, TreeWorld
from worlds import Ctx, DMCheck, MapWorld, dm_layout


class RawKeys:
    """mixed into a world: an instruction that looks into a key is a violation"""
    kbytes = 8

    def rawkey(self, v):
        if not isinstance(v, tuple) or not v:
            return False
        if v == ("X",):
            return True
        return v[0] == "el" and isinstance(v[1], str) and (v[1] in self.arrs or v[1].endswith(".k"))

    def rawuse(self, st, how):
        self.I.report("rawkey", "a key is examined other than by the comparator (%s)" % how, st)
        raise PathEnd()

    def icmp(self, st, pred, a, b, ins):
        if self.rawkey(a) or self.rawkey(b):
            self.rawuse(st, "compared by its bits")
        return super().icmp(st, pred, a, b, ins)

    def fcmp(self, st, pred, a, b, ins):
        if self.rawkey(a) or self.rawkey(b):
            self.rawuse(st, "compared as a number")
        return super().fcmp(st, pred, a, b, ins)

    def toint(self, st, v):
        if self.rawkey(v):
            self.rawuse(st, "used in arithmetic")
        return super().toint(st, v)

    def external(self, st, cn, args, ins):
        if cn in ("memcmp", "bcmp", "strcmp", "__memcmpeq"):
            for a in args[:2]:
                p = self.I.topt(st, a)
                if isinstance(p, Ptr):
                    o = st.mem.get(p.base)
                    if o is not None and (str(p.base) == "karg" or any("keys" in r[3] for r in o.regions)):
                        self.rawuse(st, "compared by " + cn)
        return super().external(st, cn, args, ins)


class RawMap(RawKeys, MapWorld):
    def external(self, st, cn, args, ins):
        if cn in ("vp_less", "vp_keq"):
            n = self.kbytes
            self.vless += 1
            a, b = (self.I.load(st, self.I.topt(st, x), n, ["i", 8 * n]) for x in args[:2])
            r = self.less(st, a, b) if cn == "vp_less" else self.equiv(st, a, b)
            if isinstance(r, tuple) and r[0] == "ge" and not r[1].t:
                r = r[1].c >= 0
            return [(st, "ret", r)]
        return super().external(st, cn, args, ins)


class RawTree(RawKeys, TreeWorld):
    pass


class RawDM(DMCheck):
    def __init__(self, prog, length, kbytes):
        self.P = prog
        self.N = length
        self.kb = kbytes
        self.lay = self.lay2 = dm_layout(prog, None, "V", length)
        self.N2 = length

    def ctx(self):
        w = RawMap()
        w.kbytes = self.kb
        w.layouts = [self.lay]
        return Ctx(self.P, w), w

    def args(self, w, st):
        k, v, idx, ins = DMCheck.args(self, w, st)
        w.scalar(st, "karg", ("X",), size=self.kb, kind="const", name="key argument")
        return k, v, idx, ins


class RawBT(TreeCheck):
    def ctx(self, **kw):
        w = RawTree(self.lay, self.H, **kw)
        return Ctx(self.P, w), w


def _dm(js, n, kb, op):
    return DMOPS[op](RawDM(Program(js), n, kb))


def _bt(js, leaf, inner, h, op, part):
    m, e, mode, _, kw = (BTOPS[op] + ({},))[:5]
    return getattr(RawBT(Program(js), leaf, inner, h, part), m)(e, mode, **kw)


MEMBERS = """
#include <fast_containers/btree.hpp>
#include <vector>
using namespace kressler::fast_containers;
struct K { long v; };                       // copyable, movable, default constructible, nothing else
struct V { long v; };
struct C { bool operator()(const K& a, const K& b) const; };
template class kressler::fast_containers::dense_map<K, V, 8, C, SearchMode::Linear>;
template class kressler::fast_containers::dense_map<K, V, 8, C, SearchMode::Binary>;
template class kressler::fast_containers::btree<K, V, 8, 8, C, SearchMode::Linear>;
template class kressler::fast_containers::btree<K, V, 8, 8, C, SearchMode::Binary>;
"""

RAWDM = [("long", 8, "Linear", 8), ("double", 8, "Binary", 8), ("unsigned char", 1, "Linear", 33)]
RAWBT = [("long", "Linear", 24, 18), ("double", "Binary", 9, 8)]
DMSKIP = ("iterators", "size/capacity/empty/full")
BTLIST = ["insert", "insert(pair)", "emplace", "emplace_hint", "try_emplace", "insert_or_assign", "insert_or_assign(move)",
          "operator[]", "at", "at const", "find", "find const", "lower_bound", "upper_bound", "equal_range", "count/contains",
          "erase(key)", "erase(iterator)"]


def k01(tier):
    rep = Report("uses of keys in dense_map and btree",
                 "(a) a key type with nothing but default construction, copying and moving must type-check with every member "
                 "instantiated; (b) for a key type whose relations other than the comparator are declared but never defined, no "
                 "reachable instruction of any operation calls one; (c) for arithmetic keys with an opaque comparator, abstract "
                 "interpretation of every operation shows that no key value reaches a comparison, arithmetic or memcmp")
    rep.assumptions = ASSUME[1:] + ["vectorised search compares keys by design and only with std::less or std::greater (D04)"]
    # (a)
    e = try_compile(MEMBERS)
    rep.units.append("all members with a minimal key type")
    rep.add("obligations")
    for x in e[:3]:
        viol(rep, "needs-more", "the containers need more of a key than copying and the comparator: " + x[x.find("include/"):][:300],
             x[x.find("include/"):].split(": error")[0], "all members")
    if e:
        return rep
    with Tmp() as tmp:
        jobs = [("dm.cpp", ("VP_MODE=" + m, "VP_LEN=8", "VP_POISON"), None) for m in ("Linear", "Binary")] + \
               [("bt.cpp", ("VP_MODE=" + m, "VP_LEAF=24", "VP_INNER=18", "VP_POISON"), None) for m in ("Linear", "Binary")] + \
               [("bt.cpp", ("VP_MODE=Linear", "VP_LEAF=24", "VP_INNER=18", "VP_POISON", "VP_SEQ"), None)]
        n = len(jobs)
        jobs += [("dm.cpp", ("VP_MODE=" + m, "VP_LEN=%d" % l, "VP_KEY=" + k, "VP_EXTCMP"), None) for k, _, m, l in RAWDM]
        jobs += [("bt.cpp", ("VP_MODE=" + m, "VP_LEAF=%d" % a, "VP_INNER=%d" % b, "VP_KEY=" + k, "VP_EXTCMP"), None)
                 for k, m, a, b in RAWBT]
        jss = parallel(lambda j: compile_ir(j[0], j[1], keep=j[2], tmp=tmp), jobs)
        # (b)
        for (src, defs, _), js in zip(jobs[:n], jss[:n]):
            scan(rep, Program(js), "%s %s" % (src.split(".")[0], " ".join(defs)))
        # (c)
        tasks = []
        for (k, kb, m, l), js in zip(RAWDM, jss[n:]):
            for op in DMOPS:
                if op not in DMSKIP and "iterators" not in op:
                    tasks.append((_dm, op, "dense_map<%s,V,%d,Cmp,%s>" % (k, l, m), (js, l, kb, op), 300))
        for (k, m, a, b), js in zip(RAWBT, jss[n + len(RAWDM):]):
            for op in BTLIST:
                for h in ((1, 0) if tier == "quick" else (2, 1, 0)):
                    kind = BTOPS[op][3]
                    for part in TreeCheck.parts(kind, h) if kind else [None]:
                        tasks.append((_bt, op + (" [%s]" % part if part else ""), "btree<%s,V,%d,%d,Cmp,%s> height %d" % (k, a, b, m, h),
                                      (js, a, b, h, op, part), 1600))
        for u in run_units(tasks):
            rep.merge_unit(u, ("rawkey",))
    return rep


def viol(rep, cat, msg, loc, entry, config=""):
    rep.violations.append({"cat": cat, "msg": msg, "loc": loc, "entry": entry, "config": config, "witness": {}, "path": []})


def relation(dem):
    """demangled name of a called function -> the key relation it is, if any"""
    if dem.startswith("operator") and "K const&" in dem:
        return dem
    if dem.startswith("std::hash<K>::operator()"):
        return dem
    return None


def scan(rep, P, cfg):
    nf = nc = 0
    entries = [n for n in P.fns if n.startswith("vpe_")]
    if len(entries) < 20:
        raise AnalysisBroken("entries missing in " + cfg)
    seen, todo = set(entries), list(entries)
    declared = False
    while todo:
        n = todo.pop()
        f = P.fns.get(n)
        if f is None or f.decl:
            continue
        nf += 1
        for b in f.blocks:
            for ins in b:
                if ins["op"] not in ("call", "invoke"):
                    continue
                nc += 1
                cn = ins.get("cn")
                g = P.fns.get(cn)
                r = relation(g.dem) if g is not None else None
                if r:
                    viol(rep, "relation", "a key relation other than the comparator is used: %s" % r, locstr(ins), n, cfg)
                if cn == "vp_less":
                    declared = True
                if cn in P.fns and cn not in seen:
                    seen.add(cn)
                    todo.append(cn)
    if not declared:
        raise AnalysisBroken("no comparator call found in " + cfg)
    rep.units.append("all calls reachable from the operations [%s]" % cfg)
    rep.add("functions_scanned", nf)
    rep.add("calls_scanned", nc)
    rep.add("obligations", nc)


PROPS = {"K01": k01}
