AI = "abstract interpretation (polyhedra x segmented arrays) of the instantiated template's LLVM IR"
DM_NOTE = ("Every exit of every operation is shown to satisfy its post-condition from an arbitrary well-formed map, for the "
           "analysed instantiations. Trusts clang's front end, the IR exporter and the analyser; assumes a pure strict-weak-order comparator.")
BT_NOTE = ("Every exit of every listed operation is shown to leave a well-formed tree with exactly the required contents, from an "
           "arbitrary well-formed tree of height 0-2 (quick) or 0-3 (thorough), with symbolic node fill, keys and positions; "
           "for the analysed instantiations. Trusts clang's front end, the IR exporter and the analyser; assumes a pure strict-weak-order comparator.")
AIT = "abstract interpretation (polyhedra x segmented arrays x lazily materialised tree shape) of the instantiated template's LLVM IR"
CLAIMS = {
    "C01": (AIT, BT_NOTE), "C02": (AIT, BT_NOTE), "C03": (AIT, BT_NOTE), "C04": (AIT, BT_NOTE), "C05": (AIT, BT_NOTE),
    "C06": (AIT, BT_NOTE), "C07": (AIT, BT_NOTE), "C08": (AIT, BT_NOTE), "C09": (AIT, BT_NOTE + " Copying and element-wise moves are decided for any number of elements against the contracts (C01-C04, C11, C12) of the operations they call."),
    "C10": (AIT, BT_NOTE + " Faults are modelled at every node allocation and every value copy or default construction; failing key copies and comparators are outside the claim."),
    "C11": (AIT, BT_NOTE), "C12": (AIT, BT_NOTE), "C13": (AIT, "Every exit of every observer, from an arbitrary well-formed tree of height 0-1 or an arbitrary multi-size pool, with an uninterpreted comparator whose every outcome is explored. Trusts clang's front end, the IR exporter and the analyser."),
    "C14": (AIT + ", with a typestate (live, destroyed, released) per node", BT_NOTE + " Keys and values have a destructor; the destructor of a node's map is taken to destroy its arrays."),
    "D01": (AI, DM_NOTE), "D02": (AI, DM_NOTE), "D03": (AI, DM_NOTE), "D05": (AI, DM_NOTE), "D06": (AI, DM_NOTE), "D10": (AI, DM_NOTE),
    "D09": (AI + " with owning key and value types", "Every exit of every mutating operation for maps of the listed lengths (quick 3 and 4, thorough also 1, 6, 7); loops are followed iteration by iteration, so the claim is bounded by the analysed lengths, with symbolic occupancy, positions and contents. Trusts clang's front end, the IR exporter and the analyser."),
    "D04": ("abstract interpretation of LLVM IR with a vector-lane domain over polyhedra", DM_NOTE + " All 11 distinct key types with a vectorised search, both orders, with and without AVX2; stored keys are not NaN."),
    "D08": ("abstract interpretation of LLVM IR with a vector-lane domain over polyhedra", DM_NOTE + " All 11 distinct key types with a vectorised search, both orders."),
    "T01": ("compile-time acceptance and rejection witnesses decided by the type checker",
            "Each unit is one instantiation the type checker must accept, or must reject with a diagnostic that comes from the repository's own constraint or static_assert. Trusts clang's front end."),
    "D07": ("type-level write-reachability over the type-checked AST of the public handles",
            "Every type reachable from a container through public operations is enumerated, with each way to a stored key or value; the const-iterator hole of the tree is recorded as a known finding. Trusts clang's front end."),
    "N01": ("abstract interpretation of the size heuristics with symbolic sizeof (exact over the integers)",
            "The heuristic's formula is analysed with symbolic key and value sizes; every size is covered. Trusts clang's front end and the IR exporter."),
    "K01": ("call-graph scan for key relations, abstract interpretation with opaque key tokens, compile witness with a minimal key type",
            "Any instruction of any operation that looks into a key other than through the comparator is a violation, for custom comparators; vectorised search compares keys by design and is D04's. Trusts clang's front end, the IR exporter and the analyser."),
}
PT = "abstract interpretation (polyhedra x segmented arrays, arithmetic modulo 2^64) of the pool's LLVM IR against contracts of the standard containers and of mmap"
PN = ("Every exit of every operation, from an arbitrary well-formed pool, including every failed mapping and failed vector growth; alignments are the listed powers of two "
      "(quick: 7 values, thorough: 2^0..2^30), sizes are symbolic over the whole 64-bit range. Trusts clang's front end, the IR exporter, the analyser and the contracts of std::vector and mmap; "
      "callers respect the documented preconditions of deallocate.")
for _p in ("A01", "A02", "A03", "A04"):
    CLAIMS[_p] = (PT, PN)
CLAIMS["A05"] = (PT, "Every request size of the 64-bit range and every set of existing pools; the single-size pools are taken by their contract (A01-A04). Trusts clang's front end, the IR exporter, the analyser and the contract of std::unordered_map.")
HN = ("All entries of the three allocators for a list of object types (plain, over-aligned, leaf-like, inner-like, the tree's own nodes) with symbolic counts; pool calls are recorded and compared with the "
      "pool assigned to the type. Trusts clang's front end, the IR exporter, the analyser and the contract of std::shared_ptr (reference counting itself is not modelled).")
CLAIMS["A06"] = (PT, HN)
CLAIMS["A07"] = (PT, HN)
NA = {}
