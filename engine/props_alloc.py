"""Properties of the memory pools and allocators decided by abstract interpretation."""
from absint import Program
from alloc import KEEP, KEEP1, HandleCheck, MultiCheck
from build import AnalysisBroken, BuildError, Tmp, compile_ir
from pool import PoolCheck, PoolLayout
from report import Report
from runner import parallel, run_units

ASSUME = ["mmap returns fresh page-aligned memory of the requested length (huge pages: a multiple of 2 MiB) below 2^47, or fails",
          "std::vector, std::unordered_map and std::shared_ptr behave as the standard says (they are replaced by contracts; any growth may throw)",
          "callers respect the documented preconditions: alignment is a power of two, blocks have at least the size of a pointer, "
          "a block is released once with the size it was requested with",
          "LLVM's front end and the clean-up passes of irdump translate the source faithfully"]
MEM = ("oob", "uaf", "null", "uninit", "constwrite")


def _pool(js, op, *a):
    C = PoolCheck(Program(js))
    return getattr(C, op)(*a)


def aligns(tier):
    if tier == "thorough":
        return [1 << i for i in range(31)]
    return [1, 8, 16, 64, 128, 4096, 1 << 21]


def pool_check(what, cats, ops):
    def run(tier):
        rep = Report(what, "abstract interpretation of the pool's LLVM IR from an arbitrary well-formed pool (any number of regions "
                     "and free lists, any unused tail, any request size up to 2^64-1), machine-word arithmetic modulo 2^64; every "
                     "exit, including those after a failed mapping or a failed vector growth, must leave a well-formed pool and "
                     "satisfy the operation's post-condition")
        rep.assumptions = list(ASSUME)
        tasks = []
        with Tmp() as tmp:
            js = compile_ir("pool.cpp", ("ALLOCATOR_STATS",), tmp=tmp)
            for op in ops:
                if op == "op_allocate":
                    for a in aligns(tier):
                        tasks.append((_pool, "allocate", "alignment %d" % a, (js, op, a), 600))
                else:
                    tasks.append((_pool, op[3:], "", (js, op), 600))
            for u in run_units(tasks):
                rep.merge_unit(u, cats)
        if len(rep.units) != len(tasks):
            raise AnalysisBroken("missing units")
        return rep
    return run


def _multi(js, op):
    return getattr(MultiCheck(Program(js)), op)()


def a05(tier):
    rep = Report("size classes of MultiSizeHugePagePool: choice, routing of requests and releases, configuration of new pools",
                 "abstract interpretation of the multi-size pool's LLVM IR with any request size, alignment, configuration and set of "
                 "existing pools; calls of the single-size pools are recorded (A01-A04 are their contract) and may fail")
    rep.assumptions = list(ASSUME)
    with Tmp() as tmp:
        js = compile_ir("mpool.cpp", (), keep=KEEP1, tmp=tmp)
        ops = ["op_class", "op_alloc", "op_dealloc", "op_getpool"]
        for u in run_units([(_multi, o[3:], "", (js, o), 600) for o in ops]):
            rep.merge_unit(u)
    if len(rep.units) != len(ops):
        raise AnalysisBroken("missing units")
    return rep


_layout = {}


def _handle(js, kind, role, urole, pjs, op):
    if pjs and pjs not in _layout:
        _layout[pjs] = PoolLayout(Program(pjs))
    return getattr(HandleCheck(Program(js), kind, role, urole, _layout.get(pjs)), op)()


# type, pool the policy documents for it, optional (names private types)
TYPES = [("Plain<24,8>", "leaf", False), ("LeafLike", "leaf", False), ("InnerLike", "internal", False), ("BothLike", "leaf", False),
         ("Tree::leaf_node", "leaf", True), ("Tree::internal_node", "internal", True)]
MORE = [("Plain<8,8>", "leaf", False), ("Plain<4096,4096>", "leaf", False), ("Plain<128,128>", "leaf", False), ("Plain<1000000,8>", "leaf", False)]
TINY = [("Plain<1,1>", "leaf", False), ("Plain<3,1>", "leaf", False), ("Plain<7,1>", "leaf", False)]


def handle_configs(tier):
    out = []
    ts = TYPES + (MORE if tier == "thorough" else MORE[2:3])
    for i, (t, r, o) in enumerate(ts):
        us = ts if tier == "thorough" else [ts[(i + 1) % len(ts)], ts[(i + 2) % len(ts)]]
        for u, ur, uo in us:
            if u != t:
                out.append(("policy", ("VP_POLICY", "VP_T=" + t, "VP_U=" + u), r, ur, o or uo))
    for t, r, o in ts[:1] + ts[3:4] + ts[6:]:
        out.append(("plain", ("VP_T=" + t,), "leaf", "leaf", o))
    for t, r, o in ts[:1] + ts[6:] + TINY:
        out.append(("multi", ("VP_MULTI", "VP_ALLOC=MultiSizeHugePageAllocator", "VP_T=" + t), "leaf", "leaf", o))
    return out


def handle_check(what, ops, cats):
    def run(tier):
        rep = Report(what, "abstract interpretation of the allocators' LLVM IR for every entry (allocate, deallocate, copies, moves, "
                     "assignments, swap, conversions, comparison, factories) with symbolic counts and configurations; calls of the "
                     "pools are recorded and compared with the pool the policy assigns to the type")
        rep.assumptions = list(ASSUME)
        cf = handle_configs(tier)
        with Tmp() as tmp:
            pjs = compile_ir("pool.cpp", ("ALLOCATOR_STATS",), tmp=tmp)

            def comp(c):
                try:
                    return compile_ir("alloc.cpp", c[1], keep=KEEP, tmp=tmp)
                except BuildError:
                    if not c[4]:
                        raise
                    return None
            jss = parallel(comp, cf)
            tasks = []
            for (kind, defs, r, ur, opt), js in zip(cf, jss):
                if js is None:
                    rep.add("configurations_skipped")
                    continue
                name = kind + " " + ", ".join(d.split("=")[1] for d in defs if d.startswith(("VP_T=", "VP_U=")))
                for op in ops:
                    tasks.append((_handle, op[3:], name, (js, kind, r, ur, pjs if kind != "multi" else None, op), 300))
            for u in run_units(tasks):
                rep.merge_unit(u, cats)
        if len(rep.units) != len(tasks):
            raise AnalysisBroken("missing units")
        return rep
    return run


ALL = ["op_ctor", "op_allocate", "op_deallocate", "op_dtor"]
PROPS = {
    "A01": pool_check("blocks handed out by HugePagePool: containment, disjointness, alignment, growth",
                      ("block", "align", "overlap", "tail", "throw") + MEM, ["op_ctor", "op_allocate", "op_deallocate"]),
    "A02": pool_check("recycling of released blocks by HugePagePool", ("recycle", "list", "throw", "tail") + MEM,
                      ["op_ctor", "op_allocate", "op_deallocate"]),
    "A03": pool_check("statistics of HugePagePool", ("stats",), ["op_ctor", "op_allocate", "op_deallocate", "op_observers"]),
    "A04": pool_check("mapping and unmapping of regions by HugePagePool", ("map", "throw", "tail") + MEM, ALL),
    "A05": a05,
    "A06": handle_check("routing of memory between the allocators and their pools", ["op_allocate", "op_deallocate", "op_copies", "op_equal", "op_make"],
                        ("route", "throw") + MEM),
    "A07": handle_check("counts, sizes and alignments the allocators request", ["op_allocate", "op_deallocate"], ("count", "throw") + MEM),
}
