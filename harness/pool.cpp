// HugePagePool over a vector with a contract instead of libstdc++'s
#include "pool_std.hpp"
#define vector vp_vector
#include <fast_containers/hugepage_pool.hpp>
#undef vector
using namespace kressler::fast_containers;
using P = HugePagePool;
using CP = const P;
#define E extern "C" void
E vpe_ctor(P* p, unsigned long init, bool hp, unsigned long growth) { ::new (static_cast<void*>(p)) P(init, hp, growth); }
E vpe_dtor(P& p) { p.~P(); }
E vpe_alloc(P& p, unsigned long bytes, unsigned long al, void** out) { *out = p.allocate(bytes, al); }
E vpe_dealloc(P& p, void* ptr, unsigned long bytes) { p.deallocate(ptr, bytes); }
struct Obs {
  bool huge, conf;
  unsigned long remaining, initial, growth, allocations, deallocations, growths, total, usage, peak;
};
E vpe_observers(CP& p, Obs* o) {
  o->huge = p.using_hugepages();
  o->conf = p.is_hugepages_enabled();
  o->remaining = p.bytes_remaining();
  o->initial = p.initial_size();
  o->growth = p.growth_size();
  o->allocations = p.get_allocations();
  o->deallocations = p.get_deallocations();
  o->growths = p.get_growth_events();
  o->total = p.get_bytes_allocated();
  o->usage = p.get_current_usage();
  o->peak = p.get_peak_usage();
}
