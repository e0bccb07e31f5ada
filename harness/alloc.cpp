// the allocators over an owner with a contract; the pools stay calls
#include "pool_std.hpp"
#define vector vp_vector
#define unordered_map vp_unordered_map
#define shared_ptr vp_shared_ptr
#define make_shared vp_make_shared
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <fast_containers/btree.hpp>
#undef vector
#undef unordered_map
#undef shared_ptr
#undef make_shared
using namespace kressler::fast_containers;
#define E extern "C" void
template <unsigned long N, unsigned long A>
struct alignas(A) Plain {
  char b[N];
};
struct LeafLike {
  LeafLike* next_leaf;
  long x[6];
};
struct InnerLike {
  bool children_are_leaves;
  void* c[9];
};
struct BothLike {
  BothLike* next_leaf;
  bool children_are_leaves;
  char more[300];
};
using Tree = btree<long, long, 16, 16>;
#ifndef VP_T
#define VP_T Plain<24, 8>
#endif
#ifndef VP_U
#define VP_U Plain<100, 4>
#endif
#ifndef VP_ALLOC
#define VP_ALLOC HugePageAllocator
#endif
using T = VP_T;
using U = VP_U;
#ifdef VP_POLICY
using A = PolicyBasedHugePageAllocator<T, TwoPoolPolicy>;
using B = PolicyBasedHugePageAllocator<U, TwoPoolPolicy>;
#else
using A = VP_ALLOC<T>;
using B = VP_ALLOC<U>;
#endif
static_assert(std::is_same_v<std::allocator_traits<A>::rebind_alloc<U>, B>);
static_assert(std::is_same_v<std::allocator_traits<A>::value_type, T>);
extern "C" const unsigned long vp_sizes[6] = {sizeof(T), alignof(T), sizeof(U), alignof(U), sizeof(A), alignof(A)};
E vpe_sizes(unsigned long* o) {
  o[0] = sizeof(T);
  o[1] = alignof(T);
  o[2] = sizeof(U);
  o[3] = alignof(U);
  o[4] = sizeof(A);
}
E vpe_alloc(A& a, unsigned long n, T** out) { *out = a.allocate(n); }
E vpe_dealloc(A& a, T* p, unsigned long n) { a.deallocate(p, n); }
E vpe_copy(A* r, const A& a) { ::new (static_cast<void*>(r)) A(a); }
E vpe_move(A* r, A& a) { ::new (static_cast<void*>(r)) A(std::move(a)); }
E vpe_copy_assign(A& r, const A& a) { r = a; }
E vpe_move_assign(A& r, A& a) { r = std::move(a); }
E vpe_swap(A& r, A& a) {
  using std::swap;
  swap(r, a);
}
E vpe_select(A* r, const A& a) {
  ::new (static_cast<void*>(r)) A(std::allocator_traits<A>::select_on_container_copy_construction(a));
}
E vpe_convert(B* r, const A& a) { ::new (static_cast<void*>(r)) B(a); }
E vpe_equal(const A& a, const A& b, bool* o) {
  o[0] = a == b;
  o[1] = a != b;
}
E vpe_equal_rebound(const A& a, const B& b, bool* o) {
  o[0] = a == b;
  o[1] = a != b;
}
#ifdef VP_POLICY
E vpe_make(void* r, unsigned long l, unsigned long i, bool hp, unsigned long lg, unsigned long ig) {
  using R = decltype(make_two_pool_allocator<long, long>(l, i, hp, lg, ig));
  ::new (r) R(make_two_pool_allocator<long, long>(l, i, hp, lg, ig));
}
E vpe_policy(TwoPoolPolicy* r, std::vp_shared_ptr<HugePagePool>& l, std::vp_shared_ptr<HugePagePool>& i) {
  ::new (static_cast<void*>(r)) TwoPoolPolicy(l, i);
}
#elif defined(VP_MULTI)
E vpe_make(A* r, unsigned long l, bool hp, unsigned long lg) {
  ::new (static_cast<void*>(r)) A(make_multi_size_hugepage_allocator<T>(l, hp, lg));
}
E vpe_ctor(A* r, std::vp_shared_ptr<MultiSizeHugePagePool>& l) { ::new (static_cast<void*>(r)) A(l); }
#else
E vpe_make(A* r, unsigned long l, bool hp, unsigned long lg) { ::new (static_cast<void*>(r)) A(l, hp, lg); }
#endif
