// The node-size heuristics as run-time functions of symbolic object sizes: the standard headers
// and dense_map.hpp are parsed normally, then btree.hpp with sizeof and constexpr redefined so that
// the bodies of the constexpr functions are compiled instead of folded.
#include <fast_containers/dense_map.hpp>
#include <algorithm>
#include <bit>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <utility>
struct SymK {
  char c;
};
struct SymV {
  char c;
};
extern "C" unsigned long vp_ksize, vp_vsize;
template <class T>
inline unsigned long vp_sizeof() {
  if constexpr (std::is_same_v<T, SymK>)
    return vp_ksize;
  else if constexpr (std::is_same_v<T, SymV>)
    return vp_vsize;
  else if constexpr (std::is_same_v<T, std::pair<SymK, SymV>>)
    return vp_ksize + vp_vsize;
  else
    return sizeof(T);
}
#define sizeof(...) vp_sizeof<__VA_ARGS__>()
#define constexpr
#define consteval
#include <fast_containers/btree.hpp>
#undef constexpr
#undef consteval
#undef sizeof
extern "C" void vpe_leaf(unsigned long* out) { *out = kressler::fast_containers::default_leaf_node_size<SymK, SymV>(); }
extern "C" void vpe_internal(unsigned long* out) { *out = kressler::fast_containers::default_internal_node_size<SymK>(); }
