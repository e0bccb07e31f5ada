"""Properties of btree decided by abstract interpretation over lazily materialised trees."""
import re

import alloc

import props_dm
from absint import Program
from build import AnalysisBroken, Tmp, compile_ir, compile_keyed
from report import Report
from runner import parallel, run_units
from contract import KEEP, SeqCheck
from tree import DtorCheck, TreeCheck

ASSUME = ["Compare is a strict weak ordering without side effects and does not throw",
          "Key and Value are the analysed instantiation's trivially copyable types unless stated otherwise",
          "the pre-state is any tree the class's own invariants admit, of the listed heights; a height-3 tree's "
          "operations touch nodes the same way at any greater height (each level is handled by the same code)",
          "LLVM's front end and the clean-up passes of irdump translate the source faithfully"]

# name -> (method, entry, mode, partition)
OPS = {
    "insert": ("op_insert", "vpe_insert", "insert", "insert"),
    "insert(pair)": ("op_insert", "vpe_insert_pair", "pair", "insert"),
    "emplace": ("op_insert", "vpe_emplace", "insert", "insert"),
    "emplace_hint": ("op_insert", "vpe_emplace_hint", "hint", "insert"),
    "try_emplace": ("op_insert", "vpe_try_emplace", "insert", "insert"),
    "try_emplace(rvalue)": ("op_insert", "vpe_try_emplace_arg", "arg", "insert"),
    "insert_or_assign": ("op_insert", "vpe_assign", "assign", "insert"),
    "insert_or_assign(move)": ("op_insert", "vpe_assign_move", "move", "insert"),
    "operator[]": ("op_insert", "vpe_subscript", "sub", "insert"),
    "at": ("op_lookup", "vpe_at", "at", None),
    "at const": ("op_lookup", "vpe_cat", "at", None),
    "find": ("op_lookup", "vpe_find", "find", None),
    "find const": ("op_lookup", "vpe_cfind", "find", None),
    "lower_bound": ("op_lookup", "vpe_lower", "lower", None),
    "upper_bound": ("op_lookup", "vpe_upper", "upper", None),
    "equal_range": ("op_lookup", "vpe_range", "range", None),
    "count/contains": ("op_lookup", "vpe_count", "count", None),
    "++ and it-- at any element": ("op_step", "vpe_fwd", "fwd", None),
    "-- at any position": ("op_step", "vpe_back", "back", None),
    "reverse ++/-- at any element": ("op_step", "vpe_rstep", "rstep", None),
    "rbegin/rend": ("op_step", "vpe_rends", "rends", None),
    "crbegin/crend": ("op_step", "vpe_crends", "rends", None),
    "cbegin/cend": ("op_step", "vpe_cends", "ends", None),
    "erase(key)": ("op_erase", "vpe_erase_key", "key", "erase"),
    "erase(iterator)": ("op_erase", "vpe_erase_it", "it", "erasehas"),
    "insert of a stored value": ("op_insert", "vpe_insert", "insert", "insert", {"alias": True}),
    "emplace of a stored value": ("op_insert", "vpe_emplace", "insert", "insert", {"alias": True}),
    "try_emplace of a stored value": ("op_insert", "vpe_try_emplace", "insert", "insert", {"alias": True}),
    "insert_or_assign of a stored value": ("op_insert", "vpe_assign", "assign", "insert", {"alias": True}),
    "erase(key) by a stored key": ("op_erase", "vpe_erase_key", "key", "erasehas", {"alias": True}),
}
# the positions a hint may have: see harness/bt.cpp
HINTS = ["begin", "lower bound", "after the lower bound", "before the lower bound", "any element of the same leaf",
         "any element of the next leaf", "any element of the previous leaf"]
OPS.update({"emplace_hint (%s)" % n: ("op_insert", "vpe_emplace_hint", "hint", "insert", {"how": i + 1}) for i, n in enumerate(HINTS)})
FAULTY = ["insert", "insert(pair)", "emplace", "emplace_hint", "try_emplace", "insert_or_assign", "insert_or_assign(move)", "operator[]"]

# whole-tree operations on arbitrary trees: name -> (entry, mode, number of trees, allocator, same allocator instance)
WHOLE = {
    "constructor": ("vpe_ctor", "ctor", 0, "Al", True),
    "move constructor": ("vpe_movector", "movector", 1, "Al", True),
    "move assignment, equal allocators": ("vpe_moveassign", "moveassign", 2, "Al", True),
    "move assignment, propagating allocators": ("vpe_moveassign", "moveassign", 2, "AlP", False),
    "swap, equal allocators": ("vpe_swap", "swap", 2, "Al", True),
    "swap, propagating allocators": ("vpe_swap", "swap", 2, "AlP", False),
    "self move assignment": ("vpe_selfmove", "self", 1, "Al", True),
    "self copy assignment": ("vpe_selfcopy", "self", 1, "Al", True),
    "self swap": ("vpe_selfswap", "self", 1, "Al", True),
    "clear": ("vpe_clear", "clear", 1, "Al", True),
    "destructor": ("vpe_destroy", "destroy", 1, "Al", True),
}
# operations decided against the contracts of the operations they call: name -> (entry, mode, target tree exists)
SEQ = {
    "copy constructor": ("vpe_copyctor", "copyctor", False),
    "copy assignment": ("vpe_copyassign", "copyassign", True),
    "move assignment, different allocators": ("vpe_moveelems", "move", True),
    "range constructor": ("vpe_rangector", "range", False),
    "initializer-list constructor": ("vpe_listctor", "list", False),
    "erase(range)": ("vpe_erase_range", "eraserange", False),
}

_progs = {}


def program(js):
    if js not in _progs:
        _progs.clear()
        _progs[js] = Program(js)
    return _progs[js]


def _unit(js, leaf, inner, h, op, part):
    m, e, mode, _, kw = (OPS[op] + ({},))[:5]
    D = TreeCheck(program(js), leaf, inner, h, part)
    return getattr(D, m)(e, mode, **kw)


def _faulty(js, leaf, inner, h, op, part):
    m, e, mode = OPS[op][:3]
    return TreeCheck(program(js), leaf, inner, h, part).op_insert(e, mode, faults=True)


def _whole(js, leaf, inner, h, h2, op, faults=False):
    e, mode, _, _, same = WHOLE[op]
    return TreeCheck(program(js), leaf, inner, h).op_whole(e, mode, h2, same, faults)


def _seq(js, leaf, inner, h2, op, throwing):
    e, mode, _ = SEQ[op]
    D = SeqCheck(program(js), leaf, inner, 0)
    return D.op_eraserange(e) if mode == "eraserange" else D.op_seq(e, mode, h2, throwing)


def compile_bt(c, tmp, alloc="Al", seq=False, throwing=False):
    d = ("VP_MODE=" + c[0], "VP_LEAF=%d" % c[1], "VP_INNER=%d" % c[2])
    if alloc != "Al":
        d += ("VP_ALLOC=" + alloc,)
    if throwing:
        d += ("VP_VTHROW",)
    return compile_keyed("bt.cpp", d + (("VP_SEQ",) if seq else ()), keep=KEEP if seq else None, tmp=tmp)[0]


def bt_check(what, rule, ops, cats=None, quick=(2, 2), whole=(), seq=()):
    """ops: list of operation names or (name, max height in the quick tier); whole, seq: names of
    whole-tree operations"""
    def run(tier):
        rep = Report(what, rule)
        rep.assumptions = list(ASSUME)
        cf = [("Linear", 24, 18), ("Binary", 9, 8), ("Linear", 256, 127)]
        if tier == "thorough":
            cf += [("Binary", 8, 11), ("Linear", 64, 33)]
        with Tmp() as tmp:
            variants = [(c, "Al", False) for c in cf if ops or whole]
            wcf = cf if tier == "thorough" else cf[:1]
            if any(WHOLE[o][3] == "AlP" for o in whole):
                variants += [(c, "AlP", False) for c in wcf]
            if seq:
                variants += [(c, "Al", True) for c in wcf]
            jss = dict(zip(variants, parallel(lambda v: compile_bt(v[0], tmp, v[1], v[2]), variants)))
            tasks, deep = [], []
            for c in wcf:
                cn = "btree<K,V,%d,%d,Cmp,%s,%%s>" % (c[1], c[2], c[0])
                H = 3 if tier == "thorough" else 2
                for op in whole:
                    nt, al = WHOLE[op][2:4]
                    for h in range(H if nt else 0, -1, -1):
                        for h2 in range(H if nt == 2 else 0, -1, -1):
                            tasks.append((_whole, op, cn % al + (" heights %d and %d" % (h2, h) if nt == 2 else " height %d" % h),
                                          (jss[c, al, False], c[1], c[2], h, h2, op), 1600))
                for op in seq:
                    for h2 in range(H if SEQ[op][2] else 0, -1, -1):
                        for thr in ((False, True) if op != "erase(range)" else (False,)):
                            tasks.append((_seq, op + (" with failing allocations" if thr else ""),
                                          cn % "Al" + " any number of elements" + (", target of height %d" % h2 if SEQ[op][2] else ""),
                                          (jss[c, "Al", True], c[1], c[2], h2, op, thr), 1600))
            for c in cf:
                js = jss.get((c, "Al", False))
                main = c == cf[0]
                for op in ops:
                    hq = quick[0]
                    if isinstance(op, tuple) and len(op) == 3:
                        # inner nodes below inner nodes have siblings only from height 3 on
                        op, hq, flt = op
                        for part in TreeCheck.parts(OPS[op][3], hq) if main and tier == "quick" else ():
                            if re.search(flt, part):
                                deep.append((_unit, op + " [%s]" % part, "btree<K,V,%d,%d,Cmp,%s> height %d" % (c[1], c[2], c[0], hq),
                                              (js, c[1], c[2], hq, op, part), 1600))
                        continue
                    if isinstance(op, tuple):
                        op, hq = op
                    hmax = hq if tier == "quick" else 3
                    if not main:
                        hmax -= 1
                    for h in range(hmax, -1, -1):
                        kind = OPS[op][3]
                        for part in TreeCheck.parts(kind, h) if kind else [None]:
                            tasks.append((_unit, op + (" [%s]" % part if part else ""),
                                          "btree<K,V,%d,%d,Cmp,%s> height %d" % (c[1], c[2], c[0], h),
                                          (js, c[1], c[2], h, op, part), 1600))
            tasks += deep
            us = run_units(tasks)
            for u in us:
                rep.merge_unit(u, cats)
        if len(rep.units) != len(tasks) or not tasks:
            raise AnalysisBroken("missing units")
        return rep
    return run


def fault_check(what, rule):
    """every insertion with allocations and value copies that may fail at any point"""
    def run(tier):
        rep = Report(what, rule)
        rep.assumptions = [a for a in ASSUME if "trivially" not in a] + \
            ["moving a value, copying a key and comparing keys do not throw"]
        cf = [("Linear", 24, 18)] + ([("Binary", 9, 8), ("Binary", 8, 11)] if tier == "thorough" else [])
        H = 3 if tier == "thorough" else 2
        with Tmp() as tmp:
            jss = parallel(lambda c: (compile_bt(c, tmp, throwing=True), compile_bt(c, tmp), compile_bt(c, tmp, seq=True)), cf)
            tasks = []
            for c, (jt, jp, js) in zip(cf, jss):
                cn = "btree<K,V,%d,%d,Cmp,%s>" % (c[1], c[2], c[0])
                main = c == cf[0]
                for op in FAULTY:
                    for h in range(H if main else H - 1, -1, -1):
                        for part in TreeCheck.parts("insert", h):
                            tasks.append((_faulty, op + (" [%s]" % part if part else ""), cn + " height %d" % h,
                                          (jt, c[1], c[2], h, op, part), 1600))
                for h in range(H + 1):
                    tasks.append((_whole, "clear with failing allocations", cn + " height %d" % h, (jp, c[1], c[2], h, 0, "clear", True), 1600))
                if tier == "quick":
                    for part in TreeCheck.parts("insert", 3):
                        if "full1" in part:
                            tasks.append((_faulty, "insert [%s]" % part, cn + " height 3", (jt, c[1], c[2], 3, "insert", part), 1600))
                for op in SEQ:
                    if SEQ[op][1] in ("copyctor", "range", "list"):
                        tasks.append((_seq, op + " with failing insertions", cn, (js, c[1], c[2], 0, op, True), 1600))
            tasks += props_dm.fault_units(tier, tmp)
            for u in run_units(tasks):
                rep.merge_unit(u, FAULTCATS)
        if len(rep.units) != len(tasks) or not tasks:
            raise AnalysisBroken("missing units")
        return rep
    return run


def _functions(js, leaf, inner, h):
    return TreeCheck(program(js), leaf, inner, h).op_functions("vpe_functions", "fn")


def _dtor(js, leaf, inner, h, op, part):
    m, e, mode, _, kw = (OPS[op] + ({},))[:5]
    D = DtorCheck(program(js), leaf, inner, h, part)
    return getattr(D, m)(e, mode, **kw)


def _wdtor(js, leaf, inner, h, h2, op):
    e, mode, _, _, same = WHOLE[op]
    return DtorCheck(program(js), leaf, inner, h).op_whole(e, mode, h2, same)


def dtors(tier):
    """C14"""
    rep = Report("destruction of the elements of nodes by every operation that releases nodes", RULE + "; keys and values have a destructor; "
                 "a node may be released only after the destructor of its element arrays was called, once, and no node that stays may have "
                 "seen that call")
    rep.assumptions = list(ASSUME)
    # in the first kind only the comparator has a destructor: the arrays of a node still move as blocks
    cf = [(("Linear", 24, 18), 1, 2), (("Linear", 24, 18), 2, 1)]
    if tier == "thorough":
        cf = [(("Linear", 24, 18), 1, 3), (("Linear", 24, 18), 2, 2), (("Binary", 9, 8), 2, 2), (("Linear", 256, 127), 1, 2)]
    with Tmp() as tmp:
        jss = parallel(lambda c: compile_keyed("bt.cpp", ("VP_MODE=" + c[0][0], "VP_LEAF=%d" % c[0][1], "VP_INNER=%d" % c[0][2],
                                                          "VP_DTOR=%d" % c[1]), keep=r"::~dense_map\(", tmp=tmp)[0], cf)
        tasks = []
        for (c, kind, H), js in zip(cf, jss):
            cn = "btree<K,V,%d,%d,Cmp,%s> of %s" % (c[1], c[2], c[0], ("plain elements", "elements with destructors")[kind - 1])
            for op in WHOLE:
                nt, al = WHOLE[op][2:4]
                if al == "Al":
                    for h in range(H if nt else 0, -1, -1):
                        for h2 in range(H if nt == 2 else 0, -1, -1):
                            tasks.append((_wdtor, op, cn + (" heights %d and %d" % (h2, h) if nt == 2 else " height %d" % h),
                                          (js, c[1], c[2], h, h2, op), 1600))
            for op, top in [("erase(key)", H), ("erase(iterator)", H), ("insert", H), ("insert_or_assign", H), ("operator[]", H)]:
                if kind == 2 and op not in ("erase(key)", "insert"):
                    continue
                for h in range(top, -1, -1):
                    for part in TreeCheck.parts(OPS[op][3], h):
                        tasks.append((_dtor, op + (" [%s]" % part if part else ""), cn + " height %d" % h,
                                      (js, c[1], c[2], h, op, part), 1600))
        if tier == "quick":
            (c, _, _), js = cf[0], jss[0]
            for op, h, flt in DEEPERA + DEEPINS:
                tasks += [(_dtor, op + " [%s]" % part, "btree<K,V,%d,%d,Cmp,%s> of plain elements height %d" % (c[1], c[2], c[0], h),
                           (js, c[1], c[2], h, op, part), 1600)
                          for part in TreeCheck.parts(OPS[op][3], h) if re.search(flt, part)]
        for u in run_units(tasks):
            rep.merge_unit(u, ("dtor", "free", "uaf", "leak"))
    if len(rep.units) != len(tasks):
        raise AnalysisBroken("missing units")
    return rep


def observers(tier):
    """C13"""
    from props_alloc import _multi
    rep = Report("function objects, allocator and observers handed out by trees and multi-size pools", "abstract interpretation of "
                 "the instantiated template's LLVM IR from an arbitrary well-formed tree (or multi-size pool) with arbitrary keys, "
                 "values and an uninterpreted comparator: each answer must be the comparator's on the same keys in the same order, "
                 "the allocator of the tree, the configuration of the pool")
    rep.assumptions = list(ASSUME)
    cf = [("Linear", 24, 18), ("Binary", 9, 8)] + ([("Binary", 256, 127)] if tier == "thorough" else [])
    with Tmp() as tmp:
        jss = parallel(lambda c: (compile_bt(c, tmp), compile_bt(c, tmp, alloc="AlP")), cf)
        tasks = []
        for c, js in zip(cf, jss):
            cn = "btree<K,V,%d,%d,Cmp,%s>" % (c[1], c[2], c[0])
            for j, al in zip(js, ("", ", propagating allocators")):
                for h in range(2):
                    tasks.append((_functions, "function objects and allocator" + al, cn + " height %d" % h, (j, c[1], c[2], h), 300))
        js = compile_ir("mpool.cpp", (), keep=alloc.KEEP1, tmp=tmp)
        tasks.append((_multi, "observers", "MultiSizeHugePagePool", (js, "op_observers"), 300))
        for u in run_units(tasks):
            rep.merge_unit(u)
    if len(rep.units) != len(tasks):
        raise AnalysisBroken("missing units")
    return rep


FAULTCATS = ("content", "size", "ends", "chain", "structure", "depth", "parent", "separator", "capacity", "leak", "free", "uaf",
             "null", "oob", "throw")
RULE = ("abstract interpretation of the instantiated template's LLVM IR from an arbitrary well-formed tree of each height "
        "(any node sizes, any keys, any position of the search key; nodes materialised lazily) to every exit; polyhedral "
        "numeric domain, segmented array contents, inferred loop invariants; each exit must entail the post-condition")
INS = ["insert", "insert(pair)", "emplace", "try_emplace", "insert_or_assign", "operator[]"]
MAPOPS = ["emplace", "emplace_hint", "try_emplace", "try_emplace(rvalue)", "insert_or_assign", "insert_or_assign(move)", "operator[]", "at", "at const"]
ERA = ["erase(key)", "erase(iterator)"]
MUT = ["insert", "insert_or_assign", "operator[]", "emplace_hint"] + ERA
DEEPERA = [("erase(key)", 3, r"(first1|inner1\+last1).*low2")]
DEEPINS = [("insert", 3, "full1")]
LOOK = [(o, 3) for o in ("find", "find const", "lower_bound", "upper_bound", "equal_range", "count/contains", "at", "at const")]
ALLBUTFILL = ("content", "size", "ends", "chain", "structure", "depth", "parent", "separator", "capacity", "leak", "free", "uaf",
              "null", "oob", "uninit", "constwrite", "result", "throw", "overlap", "order", "iter")
TRANSFER = [o for o in WHOLE if o not in ("clear", "destructor")]
COPIES = [o for o in SEQ if o != "erase(range)"]

PROPS = {
    "C01": bt_check("insertion into a tree: exact contents, order, returned position and well-formedness afterwards", RULE,
                    INS + DEEPINS + [(o, 1) for o in OPS if "of a stored" in o], ALLBUTFILL),
    "C02": bt_check("erasure from a tree: exact contents, order, result and well-formedness afterwards", RULE,
                    ERA + DEEPERA + ["erase(key) by a stored key"], ALLBUTFILL, seq=["erase(range)"]),
    "C03": bt_check("tree lookups: exact position for every key, nothing modified", RULE, LOOK + [("insert", 1), ("erase(key)", 1)],
                    ("content", "size", "structure", "separator", "uaf", "null", "oob", "uninit", "constwrite", "result", "throw", "order")),
    "C04": bt_check("leaf chain and end leaves after every mutation; iteration results", RULE, MUT + [("find", 2), ("lower_bound", 2), ("upper_bound", 2)],
                    ("chain", "ends", "structure", "uaf", "null", "result", "content", "oob", "uninit", "iter"),
                    whole=TRANSFER + ["clear"], seq=COPIES),
    "C05": bt_check("separators, parent links, uniform depth, child kind after every mutation", RULE, MUT + DEEPERA + DEEPINS,
                    ("separator", "parent", "depth", "structure", "uaf", "null", "oob", "uninit", "content")),
    "C06": bt_check("node occupancy after every mutation", RULE, MUT + DEEPERA, ("fill", "capacity", "depth", "structure", "oob", "overlap")),
    "C07": bt_check("size() after every mutation", RULE, MUT, ("size",), whole=TRANSFER + ["clear"], seq=COPIES + ["erase(range)"]),
    "C08": bt_check("release of nodes by every mutation", RULE, MUT + DEEPERA + DEEPINS, ("leak", "free", "uaf", "null", "oob", "alloc"),
                    whole=list(WHOLE), seq=COPIES),
    "C09": bt_check("copy, move, swap and self-assignment of whole trees: contents, structure, node ownership and allocators afterwards",
                    RULE + "; copies and element-wise moves are decided against the contracts of the operations they call", [],
                    ALLBUTFILL + ("alloc", "fill"), whole=list(WHOLE), seq=COPIES),
    "C12": bt_check("stepping and dereferencing iterators at every position", RULE,
                    [(o, 3) for o in ("++ and it-- at any element", "-- at any position", "reverse ++/-- at any element",
                                      "rbegin/rend", "crbegin/crend", "cbegin/cend")],
                    ("result", "content", "structure", "constwrite", "uaf", "null", "oob", "uninit", "throw", "order")),
    "C11": bt_check("emplace, emplace_hint, try_emplace, insert_or_assign, operator[], at", RULE,
                    MAPOPS + [(o, 1) for o in OPS if o.startswith("emplace_hint (")] + [(o, 1) for o in OPS if "of a stored" in o and not o.startswith("insert of")], ALLBUTFILL),
    "C13": observers,
    "C14": dtors,
    "C10": fault_check("insertion, clearing and construction when allocating a node or constructing or copying a value fails",
                       RULE + "; every allocation and every value construction or copy has a failing outcome, after which the "
                       "container must be as before and nothing may be leaked"),
}
