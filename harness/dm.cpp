#include "common.hpp"
#include <fast_containers/dense_map.hpp>
#include <memory>
using namespace kressler::fast_containers;
using DM = dense_map<K, V, VP_LEN, Cmp, SearchMode::VP_MODE>;
using CDM = const DM;
#define E extern "C" void
extern "C" const unsigned long vp_align = alignof(DM);
E vpe_insert(DM& m, const K& k, const V& v, long* idx, bool* ins) {
  auto r = m.insert(k, v);
  *idx = r.first - m.begin();
  *ins = r.second;
}
E vpe_insert_hint(DM& m, long h, const K& k, const V& v, long* idx, bool* ins) {
  auto r = m.insert_hint(m.begin() + h, k, v);
  *idx = r.first - m.begin();
  *ins = r.second;
}
E vpe_try_emplace(DM& m, const K& k, const V& v, long* idx, bool* ins) {
  auto r = m.try_emplace(k, v);
  *idx = r.first - m.begin();
  *ins = r.second;
}
#ifdef VP_ARG
E vpe_try_emplace_arg(DM& m, const K& k, Arg& a, long* idx, bool* ins) {
  auto r = m.try_emplace(k, std::move(a));
  *idx = r.first - m.begin();
  *ins = r.second;
}
#endif
E vpe_assign(DM& m, const K& k, const V& v, long* idx, bool* ins) {
  auto r = m.insert_or_assign(k, v);
  *idx = r.first - m.begin();
  *ins = r.second;
}
E vpe_subscript(DM& m, const K& k, V** out) { *out = &m[k]; }
E vpe_find(DM& m, const K& k, long* idx) { *idx = m.find(k) - m.begin(); }
E vpe_cfind(CDM& m, const K& k, long* idx) { *idx = m.find(k) - m.begin(); }
E vpe_lower(DM& m, const K& k, long* idx) { *idx = m.lower_bound(k) - m.begin(); }
E vpe_clower(CDM& m, const K& k, long* idx) { *idx = m.lower_bound(k) - m.begin(); }
E vpe_upper(DM& m, const K& k, long* idx) { *idx = m.upper_bound(k) - m.begin(); }
E vpe_cupper(CDM& m, const K& k, long* idx) { *idx = m.upper_bound(k) - m.begin(); }
E vpe_erase_it(DM& m, long h, long* idx) { *idx = m.erase(m.begin() + h) - m.begin(); }
E vpe_erase_key(DM& m, const K& k, long* idx) { *idx = m.erase(k); }
E vpe_update_key(DM& m, long h, const K& k) { m.unsafe_update_key(m.begin() + h, k); }
E vpe_split(DM& m, long h, DM& o) { m.split_at(m.begin() + h, o); }
E vpe_prefix(DM& m, DM& s, unsigned long t) { m.transfer_prefix_from(s, t); }
E vpe_suffix(DM& m, DM& s, unsigned long t) { m.transfer_suffix_from(s, t); }
#ifdef VP_LEN2
using DM2 = dense_map<K, V, VP_LEN2, Cmp, SearchMode::VP_MODE>;
E vpe_split2(DM& m, long h, DM2& o) { m.split_at(m.begin() + h, o); }
E vpe_prefix2(DM& m, DM2& s, unsigned long t) { m.transfer_prefix_from(s, t); }
E vpe_suffix2(DM& m, DM2& s, unsigned long t) { m.transfer_suffix_from(s, t); }
#endif
E vpe_copy_ctor(DM* p, CDM& m) { ::new (static_cast<void*>(p)) DM(m); }
E vpe_move_ctor(DM* p, DM& m) { ::new (static_cast<void*>(p)) DM(std::move(m)); }
E vpe_copy_assign(DM& a, CDM& b) { a = b; }
E vpe_move_assign(DM& a, DM& b) { a = std::move(b); }
E vpe_clear(DM& m) { m.clear(); }
struct Obs {
  unsigned long size, cap;
  bool empty, full;
};
E vpe_observers(CDM& m, Obs* o) {
  o->size = m.size();
  o->cap = m.capacity();
  o->empty = m.empty();
  o->full = m.full();
}
struct It {
  K a0;
  V a1;
  K a2, a3;
  V a4;
  K a5, a6, a7, a8, a9, a10;
  V a11;
  K a12, a13, a14, a15, a16;
  long diff;
  bool eq, lt, le, gt, ge, ne;
};
template <class I>
static inline void iter(I b, I e, long h, long d, It* o) {
  auto it = b + h;
  o->a0 = (*it).first;
  o->a1 = (*it).second;
  auto jt = it + d;
  o->a2 = (*jt).first;
  o->a3 = it[d].first;
  o->a4 = it[d].second;
  o->a5 = (*(jt - d)).first;
  auto kt = it;
  o->a6 = (*(kt += d)).first;
  o->a7 = (*(kt -= d)).first;
  o->a13 = (*kt++).first;
  o->a14 = (*--kt).first;
  ++kt;
  o->a8 = (*--kt).first;
  auto f = e;
  --f;
  o->a9 = (*f).first;
  auto g = f--;
  o->a10 = (*g).first;
  o->a15 = (*++f).first;
  o->a11 = (*(b + (h + d))).second;
  o->a12 = it->first;
  o->a16 = (*(e - (e - it))).first;
  o->diff = jt - it;
  o->eq = it == jt;
  o->lt = it < jt;
  o->le = it <= jt;
  o->gt = it > jt;
  o->ge = it >= jt;
  o->ne = it != jt;
}
E vpe_iter(DM& m, long h, long d, It* o) { iter(m.begin(), m.end(), h, d, o); }
E vpe_citer(CDM& m, long h, long d, It* o) { iter(m.begin(), m.end(), h, d, o); }
E vpe_ccter(DM& m, long h, long d, It* o) { iter(m.cbegin(), m.cend(), h, d, o); }
E vpe_riter(DM& m, long h, long d, It* o) { iter(m.rbegin(), m.rend(), h, d, o); }
E vpe_criter(CDM& m, long h, long d, It* o) { iter(m.rbegin(), m.rend(), h, d, o); }
E vpe_crcter(DM& m, long h, long d, It* o) { iter(m.crbegin(), m.crend(), h, d, o); }
struct Ends {
  long n, cn, rn, crn;
  bool none, ceq, cne, rnone;
  long at, cat;
};
E vpe_ends(DM& m, long h, Ends* o) {
  CDM& c = m;
  o->n = m.end() - m.begin();
  o->cn = c.end() - c.begin();
  o->rn = m.rend() - m.rbegin();
  o->crn = c.rend() - c.rbegin();
  o->none = m.begin() == m.end();
  o->rnone = c.rbegin() == c.rend();
  DM::const_iterator x = m.begin() + h;
  o->ceq = x == c.begin() + h;
  o->cne = x != m.cbegin() + h;
  o->at = x - c.begin();
  o->cat = m.cend() - x;
}
E vpe_write(DM& m, long h, long d, int way, const V& v) {
  auto it = m.begin() + h;
  if (way == 0) {
    (*it).second = v;
  } else if (way == 1) {
    it->second = v;
  } else if (way == 2) {
    it.value_ref() = v;
  } else if (way == 3) {
    (it - d)[d].second = v;
  } else {
    auto r = m.rend() - (h + 1);
    r->second = v;
  }
}
