"""D04 / D08: SearchMode::SIMD for every supported key type, decided on lanes."""
from absint import Program
from build import AnalysisBroken, BuildError, Tmp, compile_ir
from props_dm import OPS, ASSUME
from report import Report
from runner import parallel, run_units
from simd import SimdCheck

# distinct key types with a vectorised search on this platform: raw order and width
TYPES = {"char": ("s", 8), "signed char": ("s", 8), "unsigned char": ("u", 8), "short": ("s", 16), "unsigned short": ("u", 16),
         "int": ("s", 32), "unsigned": ("u", 32), "long": ("s", 64), "unsigned long": ("u", 64), "float": ("f", 32),
         "double": ("f", 64)}
OPLIST = ["lower_bound const", "lower_bound", "find const", "find", "upper_bound const", "upper_bound", "insert",
          "insert_hint", "insert_or_assign", "erase(key)"]


def _unit(js, n, kind, bits, desc, nan, op):
    C = OPS[op](SimdCheck(Program(js), n, kind, bits, desc, nan))
    C.I.stats["invariants"] = C.I.stats.get("invariants", 0)
    return C


def configs(tier):
    out = []
    for t in TYPES:
        for o in ("less", "greater"):
            for n in ((100, 13) if tier == "quick" else (100, 13, 1, 7, 16, 32, 33, 64, 255, 256)):
                out.append((t, o, n, True))
    # targets without AVX2 use the fallback
    for t in ("unsigned short", "double") if tier == "quick" else TYPES:
        for o in ("less", "greater"):
            out.append((t, o, 13, False))
    return out


def simd_check(what, rule, ops, cats=None, nocats=()):
    def run(tier):
        rep = Report(what, rule)
        rep.assumptions = ASSUME[2:] + ["stored floating-point keys are not NaN (search keys may be)",
                                        "x86-64 with AVX2 (vector path) or without (fallback path); little-endian",
                                        "the map object satisfies its declared alignment"]
        cf = configs(tier)
        with Tmp() as tmp:
            def comp(c):
                t, o, n, avx = c
                return compile_ir("dm.cpp", ("VP_KEY=" + t, "VP_ORDER=" + o, "VP_MODE=SIMD", "VP_LEN=%d" % n) +
                                  (() if avx else ("VP_NOAVX",)), ("-mavx2",) if avx else (), tmp=tmp)
            jss = parallel(comp, cf)
            tasks = []
            for (t, o, n, avx), js in zip(cf, jss):
                kind, bits = TYPES[t]
                cfg = "dense_map<%s,V,%d,std::%s,SIMD>%s" % (t, n, o, "" if avx else " without AVX2")
                for op in ops:
                    tasks.append((_unit, op, cfg, (js, n, kind, bits, o == "greater", False, op), 300))
                if kind == "f":
                    for op in ("lower_bound const", "lower_bound"):
                        if op in ops:
                            tasks.append((_unit, op + " of NaN", cfg, (js, n, kind, bits, o == "greater", True, op), 300))
            for u in run_units(tasks):
                if nocats:
                    u["viols"] = [v for v in u["viols"] if v["cat"] not in nocats]
                rep.merge_unit(u, cats)
        if len(rep.units) != len(tasks):
            raise AnalysisBroken("missing units")
        return rep
    return run


RULE = ("abstract interpretation of the instantiated search's LLVM IR with a vector-lane domain: a lane comparison counts as "
        "the key order only if the instruction's order on those bits is the key type's order; ")
PROPS = {
    "D04": simd_check("lookups and updates of dense_map with SearchMode::SIMD return the position a scalar scan returns, "
                      "every supported key type and both orders, any size and search key (NaN included)",
                      RULE + "each exit must entail the scalar post-condition", OPLIST, nocats=("align",)),
    "D08": simd_check("every vector load of the search lies in the key array, meets the alignment of its instruction, and no "
                      "outcome depends on slots behind the last element",
                      RULE + "every memory access is an obligation (bounds, alignment), branching on a lane read from an "
                      "unoccupied slot is a violation", OPLIST, cats=("align", "oob", "uninit", "null", "uaf")),
}
