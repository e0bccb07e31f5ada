"""Properties decided on types and constants: T01 (unsupported instantiations are rejected), D07 (element
handles), N01 (node-size heuristics)."""
import re

from absint import Interp, NeedSplit, Obj, PathEnd, Program, Ptr, State, Undecided, nsym, split_ge
from build import AnalysisBroken, BuildError, Tmp, ast_dump, compile_ir, make_pch, try_compile
from lin import Lin
from report import Report
from runner import parallel, run_units
from worlds import Ctx, MapWorld


def unit(rep, entry, config, obligations=1):
    rep.units.append("%s [%s]" % (entry, config) if config else entry)
    rep.add("obligations", obligations)


def alarm(rep, cat, msg, loc, entry, config=""):
    rep.violations.append({"cat": cat, "msg": msg, "loc": loc, "entry": entry, "config": config, "witness": {}, "path": []})


# ------------------------------------------------------------------ T01
PRE = """#pragma once
#include <fast_containers/btree.hpp>
#include <string>
using namespace kressler::fast_containers;
struct SK { int v; };
enum EK : int { EA };
enum class EC : long { EA };
struct Conv { operator int() const; };
struct LessSK { bool operator()(const SK& a, const SK& b) const; };
struct LessInt { bool operator()(int a, int b) const; };
struct LessAny { template <class A, class B> bool operator()(const A& a, const B& b) const; };
struct LessStr { bool operator()(const std::string& a, const std::string& b) const; };
struct LessInh : std::less<int> {};
struct NoDefault { explicit NoDefault(int); bool operator()(int a, int b) const; };
struct NotBool { struct R {}; R operator()(int a, int b) const; };
struct OneArg { bool operator()(int a) const; };
using V = int;
"""
DM = "void f() { dense_map<{K}, V, {N}, {C}, SearchMode::{M}> m; using K = {K}; const K k{{}}; m.insert(k, V()); m.find(k); m.lower_bound(k); m.erase(k); }"
BT = "void f() { btree<{K}, V, {N}, {I}, {C}, SearchMode::{M}> m; using K = {K}; const K k{{}}; m.insert(k, V()); m.find(k); m.lower_bound(k); m.erase(k); }"
INTS = ["std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t", "std::uint32_t", "std::int64_t",
        "std::uint64_t", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long",
        "unsigned long", "float", "double"]


def prog(kind, k, c, m, n=16, i=16):
    t = DM if kind == "dense_map" else BT
    return t.replace("{K}", k).replace("{C}", c).replace("{M}", m).replace("{N}", str(n)).replace(
        "{I}", str(i)).replace("{{}}", "{}")


def t01_cases(tier):
    acc, rej = [], []
    for kind in ("dense_map", "btree"):
        for k in INTS:
            for o in ("less", "greater"):
                acc.append((kind, k, "std::%s<%s>" % (o, k), "SIMD", 16, 16))
        for m in ("Linear", "Binary"):
            for k, c in (("int", "std::less<int>"), ("int", "std::less<>"), ("int", "std::greater<void>"), ("int", "LessInt"),
                         ("int", "LessAny"), ("SK", "LessSK"), ("std::string", "LessStr"), ("std::string", "std::less<std::string>"),
                         ("EK", "std::less<EK>"), ("void*", "std::less<void*>"), ("long double", "std::less<long double>"),
                         ("bool", "std::greater<bool>"), ("Conv", "LessInt"), ("__int128", "std::less<__int128>")):
                acc.append((kind, k, c, m, 16, 16))
            for c in ("NoDefault", "NotBool", "OneArg", "LessStr", "int", "std::less<std::string>"):
                rej.append((kind, "int", c, m, 16, 16, "comparator cannot compare the keys or be default constructed"))
        for k in ("SK", "std::string", "bool", "long double", "__int128", "void*", "EK", "EC", "wchar_t", "char16_t", "std::nullptr_t"):
            c = "LessSK" if k == "SK" else "std::less<%s>" % k
            rej.append((kind, k, c, "SIMD", 16, 16, "key type without vectorised search"))
        for k in ("int", "unsigned char", "long", "double", "float", "unsigned short"):
            for c in ("LessAny", "std::less<>", "std::greater<void>", "std::less<long double>"):
                rej.append((kind, k, c, "SIMD", 16, 16, "comparator without vectorised search"))
        rej.append((kind, "int", "LessInt", "SIMD", 16, 16, "comparator without vectorised search"))
        rej.append((kind, "int", "LessInh", "SIMD", 16, 16, "comparator without vectorised search"))
        for k in ("float", "unsigned int", "short"):
            rej.append((kind, k, "std::less_equal<%s>" % k, "SIMD", 16, 16, "comparator without vectorised search"))
    for m, k, c in (("Linear", "int", "LessInt"), ("Binary", "int", "LessInt"), ("SIMD", "int", "std::less<int>")):
        for n in (8, 9, 12, 63, 64, 65, 128, 256):
            acc.append(("btree", k, c, m, n, 8))
            acc.append(("btree", k, c, m, 8, n))
        for n in range(8):
            rej.append(("btree", k, c, m, n, 16, "leaf node size below the minimum of 8"))
            rej.append(("btree", k, c, m, 16, n, "inner node size below the minimum of 8"))
    return acc, rej


def t01(tier):
    rep = Report("compile-time acceptance and rejection of container instantiations",
                 "every supported combination must type-check and every unsupported one must be rejected by the front end; each "
                 "rejected program differs from an accepted one only in the named parameter")
    rep.assumptions = ["clang's front end decides type-correctness as any conforming compiler does", "x86-64 Linux type sizes"]
    acc, rej = t01_cases(tier)
    # supported combinations: several per translation unit, split up when one fails
    flags = [("-mavx2",), ()]
    jobs = []
    for f in flags:
        a = acc if f else [c for c in acc if c[3] == "SIMD" and c[0] == "dense_map"]
        for i in range(0, len(a), 12):
            jobs.append((f, a[i:i + 12]))

    def many(job):
        f, cs = job
        body = "".join(prog(*c).replace("void f()", "void f%d()" % j) + "\n" for j, c in enumerate(cs))
        if not try_compile(body, f, pch[f]):
            return []
        return [(c, try_compile(prog(*c), f, pch[f])) for c in cs]
    tmp = Tmp()
    with tmp as d:
        pch = dict(zip(flags, parallel(lambda f: make_pch(PRE, f, d), flags)))
        res = parallel(many, jobs)
        rejs = [(f, c) for f in flags for c in rej if f or c[3] == "SIMD"]
        rejres = parallel(lambda j: try_compile(prog(*j[1][:6]), j[0], pch[j[0]]), rejs)
    for (f, cs), r in zip(jobs, res):
        for c in cs:
            unit(rep, "accept " + name(c), " ".join(f))
        for c, e in r:
            if e:
                alarm(rep, "rejected", "a supported combination does not compile: " + short(e[0]), where(e), "accept " + name(c))
    rep.add("accepted_programs", sum(len(cs) for _, cs in jobs))

    for (f, c), e in zip(rejs, rejres):
        unit(rep, "reject " + name(c), " ".join(f))
        if not e:
            alarm(rep, "accepted", "an unsupported combination compiles (%s%s)" % (c[6], "" if f else ", without AVX2"),
                  "include/fast_containers/%s.hpp" % c[0], "reject " + name(c))
        else:
            if len(rep.samples) < 5:
                rep.samples.append({"program": name(c), "diagnostic": short(e[0])})
    rep.add("rejected_programs", len(rejs))
    return rep


def name(c):
    kind, k, c_, m, n, i = c[:6]
    if kind == "btree":
        return "btree<%s, int, %s, %s, %s, %s>" % (k, n, i, c_, m)
    return "dense_map<%s, int, %s, %s, %s>" % (k, n, c_, m)


def short(e):
    return re.sub(r"^\S*/include/", "include/", e)[:300]


def where(errs):
    for e in errs:
        m = re.match(r"\S*/(include/fast_containers/[^:]+:\d+)", e)
        if m:
            return m.group(1)
    return "?"


# ------------------------------------------------------------------ D07
FOLLOW = re.compile(r"^(dense_map<|btree<|std::pair<|std::reverse_iterator<)")


def d07(tier):
    rep = Report("types of all public members reachable from dense_map and btree objects, const and non-const, and constraint "
                 "facts about their handles",
                 "reachability over the type-checked program: from a container, through any chain of public members, no mutable "
                 "access path to the key type and, from a const container, none to the value type; plus facts decided by overload "
                 "resolution (assignability, convertibility)")
    rep.assumptions = ["programs use the public interface without casts that remove const",
                       "unsafe_update_key is an operation of dense_map, not a handle"]
    recs = ast_dump("handles.cpp", "kressler|^std::(pair|reverse_iterator)", norm=lambda l: l.replace("kressler::fast_containers::", ""))
    cls = {}
    for r in recs:
        cls.setdefault(r["class"], []).append(r)
    roots = {"dense_map": [c for c in cls if c == "dense_map<K, V, 8, Cmp, SearchMode::Binary>"],
             "btree": [c for c in cls if c == "btree<K, V, 8, 8, Cmp>"]}
    for k, v in roots.items():
        if len(v) != 1:
            raise AnalysisBroken("container class %s not found: %r" % (k, v))
    # implicit/explicit conversions between handle classes by constructors
    conv = {}
    for c, rs in cls.items():
        for r in rs:
            if r["kind"] == "ctor" and not r["deleted"] and not r["tmpl"] and len(r["params"]) == 1:
                p = r["params"][0]
                if p.get("cls") and p["cls"] != c:
                    conv.setdefault(p["cls"], []).append((c, r, p["ref"] == "&" and not p["const"]))
    seen_members = set()

    def follow(kind, root, fromconst, entry0):
        """entry0: a public member of the root; explore everything its result gives access to"""
        found = []
        stack = []
        seen = set()

        def give(t, path, rec, objconst=False, stored=False):
            ref = t["ref"]
            const = t["const"] or (ref == "" and objconst)
            lv = ref != "" or stored
            c = t.get("cls", t.get("base"))
            if t.get("auto"):
                rep.undecided.append("%s: deduced return type of %s" % (kind, rec["name"]))
                return
            if c in ("K", "V"):
                if lv and not const and ref != "&&":
                    if c == "K" or fromconst:
                        found.append((c, path, rec))
                elif lv and not const and ref == "&&" and (c == "K" or fromconst):
                    found.append((c, path, rec))
                return
            if not t.get("cls") or not FOLLOW.match(c):
                return
            if c == root:
                return            # the container itself again
            s = (c, const, lv)
            if s in seen:
                return
            seen.add(s)
            stack.append((c, const, lv, path))

        give(entry0["ret"], [entry0], entry0)
        while stack:
            c, const, stored, path = stack.pop()
            if c not in cls:
                if c.startswith(("dense_map<", "btree<")) and not c.endswith("_node"):
                    rep.undecided.append("%s: members of %s are not known" % (kind, c))
                continue
            for r in cls[c]:
                rep.add("members_visited")
                seen_members.add((c, r.get("name"), r["loc"]))
                if r["kind"] == "field":
                    give(r["type"], path + [r], r, objconst=const and not r["mutable"], stored=stored)
                elif r["kind"] == "base":
                    give(r["type"], path + [r], r, objconst=const, stored=stored)
                elif r["kind"] == "method":
                    if const and not r["const"] and not r["static"]:
                        continue
                    if r["name"] == "operator=" or r["deleted"]:
                        continue
                    give(r["ret"], path + [r], r)
            for d, r, needmut in conv.get(c, ()):
                if needmut and const:
                    continue
                s = (d, False, False)
                if s not in seen and FOLLOW.match(d):
                    seen.add(s)
                    stack.append((d, False, False, path + [r]))
        return found

    for kind in ("dense_map", "btree"):
        root = roots[kind][0]
        for r in cls[root]:
            if r["kind"] == "field":
                alarm(rep, "handle", "public data member %s" % r["name"], relloc(r["loc"]), "%s::%s" % (kind, r["name"]))
            if r["kind"] != "method" or r["deleted"] or r["name"] == "operator=":
                continue
            for fromconst in ((False, True) if r["const"] or r["static"] else (False,)):
                e = "%s%s::%s" % ("const " if fromconst else "", kind, r["name"])
                unit(rep, e, relloc(r["loc"]))
                hits = {}
                for x in follow(kind, root, fromconst, r):
                    hits.setdefault(x[0], x)
                for c, path, rec in hits.values():
                    alarm(rep, "mutable-key" if c == "K" else "mutable-value",
                          "%s gives mutable access to a stored %s: %s" % (
                              e, "key" if c == "K" else "value", " -> ".join("%s (%s)" % (x.get("name") or x["kind"], relloc(x["loc"])) for x in path)),
                          relloc(rec["loc"]), e)
    rep.add("handle_members", len(seen_members))
    if len(seen_members) < 30:
        raise AnalysisBroken("hardly any handle members found")
    with Tmp() as tmp:
        P = Program(compile_ir("handles.cpp", tmp=tmp))
    facts = {n: g for n, g in P.globals.items() if n.startswith(("no_", "yes_"))}
    if len(facts) < 20:
        raise AnalysisBroken("facts missing")
    for n, g in sorted(facts.items()):
        v = g["init"][0] == "c" and int(g["init"][2]) != 0
        unit(rep, n, "constraint fact")
        if v != n.startswith("yes_"):
            alarm(rep, "fact", "%s is %s" % (n, v), "include/fast_containers/%s.hpp" % ("btree" if "_bt_" in n else "dense_map"), n)
    return rep


def relloc(l):
    return re.sub(r"^.*/include/fast_containers/", "include/fast_containers/", l)


# ------------------------------------------------------------------ N01
class SizeWorld(MapWorld):
    def globalobj(self, st, b):
        if b in ("g:vp_ksize", "g:vp_vsize"):
            o = Obj("const", b[2:], size=8)
            o.fields[0] = (8, nsym("ksize" if b == "g:vp_ksize" else "vsize"))
            st.mem[b] = o
            return
        MapWorld.globalobj(self, st, b)

    def udiv(self, st, a, b):
        """constant / symbol: split the divisor's range into the intervals of equal quotient"""
        if not a.isconst():
            return MapWorld.udiv(self, st, a, b)
        if not st.cons.entails(b - 1):
            if st.cons.feasible_with(b - 1):
                raise split_ge(b - 1)
            self.I.report("div0", "division by zero", st)
            raise PathEnd()
        if st.cons.entails(b - a.c - 1):
            return Lin(0)
        if st.cons.feasible_with(b - a.c - 1):
            raise split_ge(b - a.c - 1)
        w = st.cons.witness()
        if w is None:
            raise PathEnd()
        v = b.c + sum(k * w.get(s, 0) for s, k in b.t)
        q = a.c // v
        lo, hi = a.c // (q + 1) + 1, a.c // q
        for c in (b - lo, Lin(hi) - b):
            if not st.cons.entails(c):
                raise split_ge(c)
        return Lin(q)


class SizeCheck(Ctx):
    def __init__(self, js):
        Ctx.__init__(self, Program(js), SizeWorld())

    def go(self, entry, lo, hi, what):
        st = State()
        k, v = nsym("ksize"), nsym("vsize")
        for x in (k, v):
            st.cons.add(x - 1)
            st.cons.add(Lin(1 << 40) - x)
        o = Obj("heap", "out", size=8)
        st.mem["out"] = o

        def post(s, kind, val):
            self.require(s, kind == "ret", "throw", what + " throws")
            f = s.mem["out"].fields.get(0)
            r = f[1] if f else None
            if not isinstance(r, Lin):
                raise Undecided("result of %s" % entry)
            self.require(s, ("ge", r - lo) if r.t else r.c >= lo, "limit", "%s can be below %d" % (what, lo))
            self.require(s, ("ge", Lin(hi) - r) if r.t else r.c <= hi, "limit", "%s can exceed %d" % (what, hi))
            if not r.divisible(8):
                q = self.I.divk(s, r, 8, False)
                d = r - q * 8
                self.require(s, ("eq", d) if d.t else d.c == 0, "multiple", "%s need not be a multiple of 8" % what)
            else:
                self.obl += 1
        self.run(entry, st, [Ptr("out", Lin(0))], post)
        return self


def _size(js, entry, lo, hi, what):
    return SizeCheck(js).go(entry, lo, hi, what)


def n01(tier):
    rep = Report("default_leaf_node_size and default_internal_node_size for symbolic key and value sizes",
                 "the bodies of the heuristics are compiled with sizeof left symbolic and abstractly interpreted over all sizes "
                 "1..2^40 (quotients by exact case split of the divisor's range): multiple of 8, inside the documented limits")
    rep.assumptions = ["object sizes are between 1 and 2^40 bytes"]
    with Tmp() as tmp:
        js = compile_ir("nsize.cpp", tmp=tmp)
        tasks = [(_size, "default_leaf_node_size", "symbolic sizes", (js, "vpe_leaf", 8, 64, "the default leaf node size"), 300),
                 (_size, "default_internal_node_size", "symbolic sizes", (js, "vpe_internal", 16, 64, "the default inner node size"), 300)]
        for u in run_units(tasks):
            rep.merge_unit(u)
    # default-configured trees compile and use the heuristics
    sizes = [1, 2, 3, 8, 24, 31, 64, 200, 1000, 2048, 5000, 100000]
    code = PRE + "template <int N> struct A { char a[N]; }; struct LA { template <class T> bool operator()(const T&, const T&) const; };\n"
    for a in sizes:
        for b in sizes if tier == "thorough" else (1, 40, 3000):
            code += ("static_assert(requires { sizeof(btree<A<%d>, A<%d>, default_leaf_node_size<A<%d>, A<%d>>(), "
                     "default_internal_node_size<A<%d>>(), LA>); });\n" % (a, b, a, b, a))
            code += "template class kressler::fast_containers::btree<A<%d>, A<%d>, default_leaf_node_size<A<%d>, A<%d>>(), default_internal_node_size<A<%d>>(), LA>;\n" % (a, b, a, b, a) if (a, b) in ((1, 1), (100000, 3000)) else ""
            unit(rep, "default-sized btree compiles", "sizeof(Key)=%d sizeof(Value)=%d" % (a, b))
    code += ("static_assert(std::is_same_v<btree<int, long>, btree<int, long, default_leaf_node_size<int, long>(), "
             "default_internal_node_size<int>()>>);\n")
    e = try_compile(code)
    for x in e[:3]:
        alarm(rep, "default", "a default-configured tree does not compile: " + short(x), where(e), "default-sized btree")
    return rep


PROPS = {"T01": t01, "D07": d07, "N01": n01}
