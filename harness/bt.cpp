#include "common.hpp"
#include <fast_containers/btree.hpp>
#include <initializer_list>
#include <memory>
using namespace kressler::fast_containers;
extern "C" void* vp_alloc(void* tag, unsigned long bytes);
extern "C" void vp_free(void* tag, void* p, unsigned long bytes) noexcept;
template <class T>
struct Al {
  using value_type = T;
  void* tag;
  Al() noexcept : tag(nullptr) {}
  explicit Al(void* t) noexcept : tag(t) {}
  template <class U>
  Al(const Al<U>& o) noexcept : tag(o.tag) {}
  T* allocate(std::size_t n) { return static_cast<T*>(vp_alloc(tag, n * sizeof(T))); }
  void deallocate(T* p, std::size_t n) noexcept { vp_free(tag, p, n * sizeof(T)); }
  template <class U>
  bool operator==(const Al<U>& o) const noexcept { return tag == o.tag; }
};
// the same, but containers take the allocator along when moved or swapped
template <class T>
struct AlP : Al<T> {
  using value_type = T;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  AlP() noexcept = default;
  explicit AlP(void* t) noexcept : Al<T>(t) {}
  template <class U>
  AlP(const AlP<U>& o) noexcept : Al<T>(o.tag) {}
  template <class U>
  bool operator==(const AlP<U>& o) const noexcept { return this->tag == o.tag; }
};
#ifndef VP_ALLOC
#define VP_ALLOC Al
#endif
using T = btree<K, V, VP_LEAF, VP_INNER, Cmp, SearchMode::VP_MODE, VP_ALLOC<std::pair<K, V>>>;
using CT = const T;
#define E extern "C" void
struct R {
  K key;
  V val;
  K key2;
  V val2;
  bool end, end2, flag;
  unsigned long n;
};
// what a position designates, observed through the public interface, and what follows it
template <class TT, class I>
static inline void obs(TT& t, I it, R* o) {
  o->end = it == t.end();
  if (!o->end) {
    o->key = it->first;
    o->val.v = it->second.v;
    ++it;
    o->end2 = it == t.end();
    if (!o->end2) {
      o->key2 = it->first;
      o->val2.v = it->second.v;
    }
  }
}
E vpe_insert(T& t, const K& k, const V& v, R* o) {
  auto r = t.insert(k, v);
  o->flag = r.second;
  obs(t, r.first, o);
}
E vpe_insert_pair(T& t, const T::value_type& kv, R* o) {
  auto r = t.insert(kv);
  o->flag = r.second;
  obs(t, r.first, o);
}
E vpe_emplace(T& t, const K& k, const V& v, R* o) {
  auto r = t.emplace(k, v);
  o->flag = r.second;
  obs(t, r.first, o);
}
// a hint is only a hint: any valid position of the tree may be given
enum { HEND, HBEGIN, HLOWER, HAFTER, HBEFORE, HSAME, HNEXT, HPREV };
template <class TT>
static inline typename TT::iterator hint(TT& t, const K& k, unsigned how, unsigned long j) {
  auto e = t.end();
  if (how == HEND) return e;
  if (how == HBEGIN) return t.begin();
  auto it = t.lower_bound(k);
  if (how == HLOWER) return it;
  if (how == HAFTER) return it == e ? it : ++it;
  if (how == HBEFORE) return it == t.begin() ? it : --it;
  if constexpr (requires { it.leaf_node_->data.begin() + 1; it.leaf_it_ = it.leaf_node_->data.begin(); it.leaf_node_->next_leaf; }) {
    auto* l = it.leaf_node_;
    if (l && how == HNEXT) l = l->next_leaf;
    if (l && how == HPREV) l = l->prev_leaf;
    if (!l || j >= l->data.size()) return it;
    it.leaf_node_ = l;
    it.leaf_it_ = l->data.begin() + (long)j;
  }
  return it;
}
E vpe_emplace_hint(T& t, const K& k, const V& v, R* o, unsigned how, unsigned long j) {
  obs(t, t.emplace_hint(hint(t, k, how, j), k, v), o);
}
E vpe_try_emplace(T& t, const K& k, const V& v, R* o) {
  auto r = t.try_emplace(k, v);
  o->flag = r.second;
  obs(t, r.first, o);
}
#ifdef VP_ARG
E vpe_try_emplace_arg(T& t, const K& k, Arg& a, R* o) {
  auto r = t.try_emplace(k, std::move(a));
  o->flag = r.second;
  obs(t, r.first, o);
}
#endif
E vpe_assign(T& t, const K& k, const V& v, R* o) {
  auto r = t.insert_or_assign(k, v);
  o->flag = r.second;
  obs(t, r.first, o);
}
E vpe_assign_move(T& t, const K& k, V& v, R* o) {
  auto r = t.insert_or_assign(k, std::move(v));
  o->flag = r.second;
  obs(t, r.first, o);
}
E vpe_subscript(T& t, const K& k, V** out) { *out = &t[k]; }
E vpe_at(T& t, const K& k, V** out) { *out = &t.at(k); }
E vpe_cat(CT& t, const K& k, const V** out) { *out = &t.at(k); }
E vpe_find(T& t, const K& k, R* o) { obs(t, t.find(k), o); }
E vpe_cfind(CT& t, const K& k, R* o) { obs(t, t.find(k), o); }
E vpe_lower(T& t, const K& k, R* o) { obs(t, t.lower_bound(k), o); }
E vpe_upper(T& t, const K& k, R* o) { obs(t, t.upper_bound(k), o); }
E vpe_range(T& t, const K& k, R* a, R* b) {
  auto r = t.equal_range(k);
  obs(t, r.first, a);
  obs(t, r.second, b);
}
E vpe_count(CT& t, const K& k, unsigned long* n, bool* c) {
  *n = t.count(k);
  *c = t.contains(k);
}
E vpe_erase_key(T& t, const K& k, unsigned long* n) { *n = t.erase(k); }
E vpe_erase_it(T& t, const K& k, R* o) { obs(t, t.erase(t.find(k)), o); }
E vpe_observers(CT& t, unsigned long* n, bool* e) {
  *n = t.size();
  *e = t.empty();
}
struct Fn {
  bool key, keyc, pair;
  void* tag;
};
E vpe_functions(CT& t, const K& a, const K& b, const V& x, const V& y, Fn* o) {
  o->key = t.key_comp()(a, b);
  o->keyc = T::key_compare()(a, b);
  o->pair = t.value_comp()(T::value_type(a, x), T::value_type(b, y));
  if constexpr (requires { t.get_allocator().tag; }) o->tag = t.get_allocator().tag;
}

// one position, read through * and through ->
template <class TT, class I>
static inline void at1(TT& t, I it, R* o) {
  o->end = it == t.end();
  if (!o->end) {
    o->key = (*it).first;
    o->val.v = (*it).second.v;
    o->key2 = it->first;
    o->val2.v = it->second.v;
  }
}
template <class I>
static inline void at2(I it, I end, R* o) {
  o->end = it == end;
  if (!o->end) {
    o->key = (*it).first;
    o->val.v = (*it).second.v;
    o->key2 = it->first;
    o->val2.v = it->second.v;
  }
}
// a: the position, b: the one ++ leads to, c: back again
template <class TT>
static inline void fwd(TT& t, const K& k, R* a, R* b, R* c) {
  auto it = t.lower_bound(k);
  a->end = it == t.end();
  if (a->end) return;
  auto old = it++;
  at1(t, old, a);
  at1(t, it, b);
  auto x = old;
  auto& y = ++x;
  a->flag = x == it && &y == &x && !(x != it) && !(x == old) && x != old;
  auto z = it--;
  b->flag = z == x && it == old;
  at1(t, it, c);
}
template <class TT>
static inline void back(TT& t, const K& k, R* a, R* b, R* c) {
  auto it = t.lower_bound(k);
  at1(t, t.begin(), c);
  a->flag = it == t.begin();
  if (a->flag) return;
  auto old = it;
  auto& y = --it;
  b->flag = &y == &it && it != old;
  at1(t, it, b);
  auto x = it;
  ++x;
  c->flag = x == old;
}
E vpe_fwd(T& t, const K& k, R* a, R* b, R* c) { fwd(t, k, a, b, c); }
E vpe_back(T& t, const K& k, R* a, R* b, R* c) { back(t, k, a, b, c); }
// reverse iteration from the outer ends
E vpe_rends(T& t, R* a, R* b, R* c) {
  auto r = t.rbegin(), e = t.rend();
  at2(r, e, a);
  if (a->end) return;
  auto old = r++;
  a->flag = old == t.rbegin() && r != old;
  at2(r, e, b);
  auto x = e;
  --x;
  at2(x, e, c);
  ++x;
  c->flag = x == e;
}
E vpe_crends(CT& t, R* a, R* b, R* c) {
  auto r = t.crbegin(), e = t.crend();
  at2(r, e, a);
  if (a->end) return;
  auto old = r++;
  a->flag = old == t.rbegin() && r != old && e == t.rend();
  at2(r, e, b);
  auto x = e;
  x--;
  at2(x, e, c);
  x++;
  c->flag = x == e;
}
E vpe_cends(CT& t, R* a, R* b, R* c) {
  auto i = t.cbegin(), e = t.cend();
  at2(i, e, a);
  a->flag = i == t.begin() && e == t.end();
  if (a->end) return;
  auto x = e;
  --x;
  at2(x, e, c);
  ++x;
  c->flag = x == e;
}
// a reverse iterator at any element (built from the forward one)
template <class TT>
static inline void rstep(TT& t, const K& k, R* a, R* b, R* c) {
  auto it = t.lower_bound(k);
  a->end = it == t.end();
  if (a->end) return;
  if constexpr (requires { typename T::reverse_iterator(&t, it.leaf_node_, *it.leaf_it_); }) {
    typename T::reverse_iterator r(&t, it.leaf_node_, *it.leaf_it_);
    auto e = t.rend();
    auto old = r++;
    at2(old, e, a);
    at2(r, e, b);
    b->flag = true;
    a->flag = r != old;
    if (old == t.rbegin()) {
      c->flag = true;
    } else {
      c->flag = false;
      auto y = old--;
      at2(old, e, c);
      ++old;
      b->flag = y == old;
    }
  } else {
    a->n = 1;
  }
}
E vpe_rstep(T& t, const K& k, R* a, R* b, R* c) { rstep(t, k, a, b, c); }

// whole-tree operations
E vpe_ctor(T* p, void* tag) { new (p) T(T::allocator_type(tag)); }
E vpe_movector(T* p, T& o) { new (p) T(std::move(o)); }
E vpe_moveassign(T& a, T& b, bool* f) { *f = &(a = std::move(b)) == &a; }
E vpe_selfmove(T& a, bool* f) {
  T& b = a;
  *f = &(a = std::move(b)) == &a;
}
E vpe_selfcopy(T& a, bool* f) {
  const T& b = a;
  *f = &(a = b) == &a;
}
E vpe_swap(T& a, T& b, bool*) { a.swap(b); }
E vpe_selfswap(T& a, bool* f) {
  a.swap(a);
  *f = true;
}
E vpe_clear(T& a, bool*) { a.clear(); }
E vpe_destroy(T& a, bool*) { a.~T(); }
#ifdef VP_SEQ
// operations decided against the contracts of the operations they are made of
extern "C" const K* vp_key(unsigned long) noexcept;
extern "C" const V* vp_val(unsigned long) noexcept;
struct In {
  struct Pr {
    const K& first;
    const V& second;
    const Pr* operator->() const { return this; }
  };
  unsigned long i;
  Pr operator*() const { return {*vp_key(i), *vp_val(i)}; }
  Pr operator->() const { return {*vp_key(i), *vp_val(i)}; }
  In& operator++() {
    ++i;
    return *this;
  }
  In operator++(int) {
    In t = *this;
    ++i;
    return t;
  }
  bool operator==(const In& o) const { return i == o.i; }
  bool operator!=(const In& o) const { return i != o.i; }
};
E vpe_copyctor(T* p, CT& o) { new (p) T(o); }
E vpe_copyassign(T& a, CT& b, bool* f) { *f = &(a = b) == &a; }
E vpe_moveelems(T& a, T& b, bool* f) { *f = &(a = std::move(b)) == &a; }
E vpe_rangector(T* p, unsigned long n, void* tag) { new (p) T(In{0}, In{n}, T::allocator_type(tag)); }
E vpe_listctor(T* p, std::initializer_list<T::value_type>& l, void* tag) { new (p) T(l, T::allocator_type(tag)); }
E vpe_erase_range(T& t, T::iterator& a, T::iterator& b, R* o) { obs(t, t.erase(a, b), o); }
#endif
