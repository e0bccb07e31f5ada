"""Properties of dense_map decided by abstract interpretation."""
from absint import Program
from build import AnalysisBroken, Tmp, compile_keyed
from report import Report
from runner import parallel, run_units
from worlds import DMCheck, LayoutError

ASSUME = ["Compare is a strict weak ordering without side effects and does not throw",
          "Key and Value are the analysed instantiations' trivially copyable types unless stated otherwise",
          "LLVM's front end and the clean-up passes of irdump translate the source faithfully"]

_progs = {}

OPS = {
    "insert": lambda D: D.op_insertlike("vpe_insert", "insert"),
    "insert_hint": lambda D: D.op_insertlike("vpe_insert_hint", "hint"),
    "try_emplace": lambda D: D.op_insertlike("vpe_try_emplace", "emplace"),
    "try_emplace(rvalue)": lambda D: D.op_insertlike("vpe_try_emplace_arg", "arg"),
    "insert_or_assign": lambda D: D.op_insertlike("vpe_assign", "assign"),
    "operator[]": lambda D: D.op_insertlike("vpe_subscript", "sub"),
    "insert of a stored value": lambda D: D.op_insertlike("vpe_insert", "insert", True),
    "insert_hint of a stored value": lambda D: D.op_insertlike("vpe_insert_hint", "hint", True),
    "try_emplace of a stored value": lambda D: D.op_insertlike("vpe_try_emplace", "emplace", True),
    "insert_or_assign of a stored value": lambda D: D.op_insertlike("vpe_assign", "assign", True),
    "erase(key) by a stored key": lambda D: D.op_erase_key("vpe_erase_key", True),
    "find": lambda D: D.op_lookup("vpe_find", "find"),
    "find const": lambda D: D.op_lookup("vpe_cfind", "find"),
    "lower_bound": lambda D: D.op_lookup("vpe_lower", "lower"),
    "lower_bound const": lambda D: D.op_lookup("vpe_clower", "lower"),
    "upper_bound": lambda D: D.op_lookup("vpe_upper", "upper"),
    "upper_bound const": lambda D: D.op_lookup("vpe_cupper", "upper"),
    "erase(iterator)": lambda D: D.op_erase_it("vpe_erase_it"),
    "erase(key)": lambda D: D.op_erase_key("vpe_erase_key"),
    "unsafe_update_key": lambda D: D.op_update_key("vpe_update_key"),
    "split_at": lambda D: D.op_split("vpe_split"),
    "transfer_prefix_from": lambda D: D.op_transfer("vpe_prefix", True),
    "transfer_suffix_from": lambda D: D.op_transfer("vpe_suffix", False),
    "copy construction": lambda D: D.op_copy("vpe_copy_ctor", "copyctor"),
    "move construction": lambda D: D.op_copy("vpe_move_ctor", "movector"),
    "copy assignment": lambda D: D.op_copy("vpe_copy_assign", "copy"),
    "move assignment": lambda D: D.op_copy("vpe_move_assign", "move"),
    "copy self-assignment": lambda D: D.op_copy("vpe_copy_assign", "self"),
    "move self-assignment": lambda D: D.op_copy("vpe_move_assign", "self"),
    "clear": lambda D: D.op_clear("vpe_clear"),
    "size/capacity/empty/full": lambda D: D.op_observers("vpe_observers"),
    "iterators": lambda D: D.op_iter("vpe_iter"),
    "const iterators": lambda D: D.op_iter("vpe_citer"),
    "const iterators of a mutable map": lambda D: D.op_iter("vpe_ccter"),
    "reverse iterators": lambda D: D.op_iter("vpe_riter", True),
    "const reverse iterators": lambda D: D.op_iter("vpe_criter", True),
    "const reverse iterators of a mutable map": lambda D: D.op_iter("vpe_crcter", True),
    "range ends and conversions": lambda D: D.op_ends("vpe_ends"),
    "writes through iterators": lambda D: D.op_write("vpe_write"),
}


MIXED = {
    "split_at another capacity": lambda D: D.op_split("vpe_split2"),
    "transfer_prefix_from another capacity": lambda D: D.op_transfer("vpe_prefix2", True),
    "transfer_suffix_from another capacity": lambda D: D.op_transfer("vpe_suffix2", False),
}


def _unit(js, n, op):
    return OPS[op](DMCheck(Program(js), n))


def _mixed(js, n, op, n2):
    return MIXED[op](DMCheck(Program(js), n, length2=n2))


def mixed_configs(tier):
    return [("Linear", 8, 5), ("Linear", 8, 13)] + ([("Binary", 33, 6), ("Binary", 4, 64), ("Linear", 2, 1), ("Binary", 1, 2)] if tier == "thorough" else [])


def configs(tier):
    c = [("Linear", 8), ("Binary", 8), ("Linear", 33), ("Binary", 150)]
    if tier == "thorough":
        c += [("Binary", 64), ("Linear", 1), ("Binary", 1), ("Binary", 7), ("Linear", 128), ("Linear", 2), ("Binary", 3)]
    return c


def fault_units(tier, tmp):
    """insertion when constructing or copying a value may fail (for C10)"""
    cf = configs(tier)[:3]
    jss = parallel(lambda c: compile_keyed("dm.cpp", ("VP_MODE=" + c[0], "VP_LEN=%d" % c[1], "VP_VTHROW"), tmp=tmp)[0], cf)
    return [(_unit, "dense_map " + op + " with failing value copies", "dense_map<K,V,%d,Cmp,%s>" % (c[1], c[0]), (js, c[1], op), 300)
            for c, js in zip(cf, jss) for op in ("insert", "insert_hint", "try_emplace", "insert_or_assign", "operator[]")]


def dm_check(what, rule, ops, cats=None, modes=None, mixed=False):
    def run(tier):
        rep = Report(what, rule)
        rep.assumptions = list(ASSUME)
        with Tmp() as tmp:
            cf = [c for c in configs(tier) if modes is None or c[0] in modes]

            def comp(c):
                js, eq = compile_keyed("dm.cpp", ("VP_MODE=" + c[0], "VP_LEN=%d" % c[1]), tmp=tmp)
                return js
            jss = parallel(comp, cf)
            tasks = []
            for c, js in zip(cf, jss):
                for op in ops:
                    tasks.append((_unit, op, "dense_map<K,V,%d,Cmp,%s>" % (c[1], c[0]), (js, c[1], op), 300))
            if mixed:
                mc = mixed_configs(tier)
                jss = parallel(lambda c: compile_keyed("dm.cpp", ("VP_MODE=" + c[0], "VP_LEN=%d" % c[1], "VP_LEN2=%d" % c[2]), tmp=tmp)[0], mc)
                for c, js in zip(mc, jss):
                    for op in MIXED:
                        tasks.append((_mixed, op, "dense_map<K,V,%d,Cmp,%s> with one of capacity %d" % (c[1], c[0], c[2]), (js, c[1], op, c[2]), 300))
            # element types with moves of their own: the shifts are then loops over single elements
            import props_own
            tasks += props_own.units(tier, tmp, ops, mixed and len(ops) == len(OPS))
            for u in run_units(tasks):
                u["viols"] = [v for v in u["viols"] if v["cat"] != "release"]      # D09
                rep.merge_unit(u, cats)
        if len(rep.units) != len(tasks) or not tasks:
            raise AnalysisBroken("missing units")
        return rep
    return run


RULE = ("abstract interpretation of the instantiated template's LLVM IR from an arbitrary well-formed map "
        "(any size 0..Length, any keys, any search position) to every exit; polyhedral numeric domain, segmented "
        "array contents, inferred loop invariants; each exit must entail the operation's post-condition")

PROPS = {
    "D01": dm_check("mutating operations of dense_map: stored key/value sequences, size, returned position and flag", RULE,
                    ["insert", "insert_hint", "try_emplace", "try_emplace(rvalue)", "insert_or_assign", "operator[]", "erase(iterator)",
                     "erase(key)", "unsafe_update_key", "clear"] + [o for o in OPS if " stored " in o]),
    "D02": dm_check("capacity and bounds of dense_map: no slot outside the arrays or unoccupied is used, full containers throw "
                    "and stay unchanged", RULE + "; every memory access is an obligation",
                    list(OPS), cats=("oob", "uninit", "null", "uaf", "throw", "overlap", "constwrite", "content", "size"), mixed=True),
    "D03": dm_check("find/lower_bound/upper_bound of dense_map (const and non-const) in Linear and Binary mode", RULE,
                    ["find", "find const", "lower_bound", "lower_bound const", "upper_bound", "upper_bound const"]),
    "D05": dm_check("split_at / transfer_prefix_from / transfer_suffix_from", RULE,
                    ["split_at", "transfer_prefix_from", "transfer_suffix_from"], mixed=True),
    "D06": dm_check("copy and move construction/assignment of dense_map, including self-assignment", RULE,
                    ["copy construction", "move construction", "copy assignment", "move assignment",
                     "copy self-assignment", "move self-assignment"]),
    "D10": dm_check("dense_map iterators and observers", RULE, ["size/capacity/empty/full", "range ends and conversions", "writes through iterators"] +
                  [o for o in OPS if "iterators" in o and "writes" not in o]),
}
