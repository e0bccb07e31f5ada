"""D09: slots behind the last element of a dense map hold nothing."""
from absint import UNDEF, Program
from build import AnalysisBroken, Tmp, compile_keyed
from lin import L, Lin
from report import Report
from runner import parallel, run_units
from worlds import DMCheck
import props_dm


class OwnCheck(DMCheck):
    """the operations of dense_map on keys and values that are emptied by moving (0: owns nothing); loops are followed
    iteration by iteration (a single pass writes both ends of a shift)"""

    strict = False      # slots behind the last element hold nothing that may be read (instead of: hold nothing)

    def ctx(self):
        C, w = DMCheck.ctx(self)
        C.I.noloop = True
        if self.strict:
            def slotread(st, v):
                if v == UNDEF:
                    w.I.report("uninit", "a slot that holds no element is read", st)
            w.slotread = slotread
            return C, w
        run = C.run

        def wrapped(entry, st, args, post):
            for oid in ("M", "M2"):
                if oid in st.mem and oid + "raw" not in st.ms:
                    o = st.w(oid)
                    f = o.fields.get(self.lay.soff)
                    if f is None:
                        continue
                    for r in ("keys", "vals"):
                        o.arr[r] = tuple((lo, hi, ("val", Lin(0)) if c == ("undef",) else c) for lo, hi, c in o.arr[r])

            def both(s, kind, val):
                post(s, kind, val)
                self.released(C, s)
            run(entry, st, args, both)
        C.run = wrapped
        return C, w

    def released(self, C, s):
        for oid in ("M", "M2"):
            o = s.mem.get(oid)
            if o is None:
                continue
            n = self.fld(s, oid, self.lay.soff)
            if not isinstance(n, Lin):
                continue
            for r, nm in (("keys", "key"), ("vals", "value")):
                C.obl += 1
                got = C.I.seg_slice(s, o.arr[r], n, L(self.N))
                for lo, hi, c in got:
                    if c[0] == "val" and isinstance(c[1], Lin) and (c[1] == Lin(0) or s.cons.entails_eq(c[1])):
                        continue
                    d = hi - lo
                    if C.I.decide(s, ("ge", d - 1) if d.t else d.c >= 1):
                        C.I.report("release", "a slot behind the last element keeps a %s" % nm, s)


OPS = [o for o in props_dm.OPS if "iterators" not in o and "rvalue" not in o and "bound" not in o and not o.startswith(("find", "size/", "range"))]


def _unit(js, n, op):
    return props_dm.OPS[op](OwnCheck(Program(js), n))


class StrictCheck(OwnCheck):
    strict = True


def _strict(js, n, op):
    return props_dm.OPS[op](StrictCheck(Program(js), n))


def units(tier, tmp, ops, strict=False):
    """the operations on maps of such keys and values (strict: also with the reads of slots without an element as obligations;
    whole-map copies and moves, which treat every slot alike, are left out)"""
    cf = [("Linear", 3), ("Binary", 4)] + ([("Linear", 6), ("Binary", 7), ("Linear", 1)] if tier == "thorough" else [])
    jss = parallel(lambda c: compile_keyed("dm.cpp", ("VP_MODE=" + c[0], "VP_LEN=%d" % c[1], "VP_OWN"), tmp=tmp)[0], cf)
    ts = [(_unit, op + " of owning elements", "dense_map<K,V,%d,Cmp,%s>" % (c[1], c[0]), (js, c[1], op), 600)
          for c, js in zip(cf, jss) for op in ops if op in OPS]
    if strict:
        ts += [(_strict, op + ", element reads", "dense_map<K,V,%d,Cmp,%s>" % (c[1], c[0]), (js, c[1], op), 600)
               for c, js in zip(cf, jss) for op in ops if op in OPS and "construction" not in op and "assignment" not in op]
    return ts


def d09(tier):
    rep = Report("slots of dense_map behind the last element after every mutating operation",
                 "abstract interpretation of the instantiated template's LLVM IR with key and value types that own a resource (moving "
                 "takes it away); from any map whose unoccupied slots are empty, every exit leaves them empty; loops are followed "
                 "iteration by iteration, occupancy, positions and contents stay symbolic")
    rep.assumptions = list(props_dm.ASSUME)
    with Tmp() as tmp:
        tasks = units(tier, tmp, OPS)
        for u in run_units(tasks):
            rep.merge_unit(u, ("release", "uaf", "null"))
    if len(rep.units) != len(tasks):
        raise AnalysisBroken("missing units")
    return rep


PROPS = {"D09": d09}
