// MultiSizeHugePagePool over a map with a contract; the single-size pools stay calls
#include "pool_std.hpp"
#define vector vp_vector
#define unordered_map vp_unordered_map
#define map vp_unordered_map
#include <fast_containers/multi_size_hugepage_pool.hpp>
#undef vector
#undef unordered_map
#undef map
using namespace kressler::fast_containers;
using P = MultiSizeHugePagePool;
#define E extern "C" void
E vpe_ctor(P* p, unsigned long init, bool hp, unsigned long growth) { ::new (static_cast<void*>(p)) P(init, hp, growth); }
E vpe_alloc(P& p, unsigned long bytes, unsigned long al, void** out) { *out = p.allocate(bytes, al); }
E vpe_dealloc(P& p, void* ptr, unsigned long bytes) { p.deallocate(ptr, bytes); }
E vpe_class(unsigned long bytes, unsigned long* out) { *out = P::get_size_class(bytes); }
E vpe_getpool(const P& p, unsigned long c, const HugePagePool** out) { *out = p.get_pool(c); }
struct Obs {
  bool huge;
  unsigned long n;
  const void* map;
};
E vpe_observers(const P& p, Obs* o) {
  o->huge = p.using_hugepages();
  o->n = p.active_size_classes();
  o->map = &p.get_pools();
}
// only to have the pool's members emitted
E vpe_pool(HugePagePool& p) { p.deallocate(p.allocate(8, 8), 8); }
