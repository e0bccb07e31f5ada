// Shared harness declarations.  Nothing here is ever executed: the harness only
// instantiates the templates under /repo so that their IR can be analysed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>

#ifdef VP_KEY
#include <functional>
using K = VP_KEY;
#elif defined(VP_POISON)
// every relation but the comparator is declared and never defined: a use of one stays a visible call
#include <compare>
#include <functional>
struct K {
  long v;
};
bool operator==(const K&, const K&);
bool operator!=(const K&, const K&);
bool operator<(const K&, const K&);
bool operator>(const K&, const K&);
bool operator<=(const K&, const K&);
bool operator>=(const K&, const K&);
std::strong_ordering operator<=>(const K&, const K&);
bool operator!(const K&);
K operator+(const K&, const K&);
K operator-(const K&, const K&);
template <>
struct std::hash<K> {
  std::size_t operator()(const K&) const;
};
#elif defined(VP_OWN)
// keys and values that own something: moving takes it away, the default owns nothing (0)
struct Owner {
  long v;
  Owner() : v(0) {}
  Owner(const Owner& o) : v(o.v) {}
  Owner(Owner&& o) noexcept : v(o.v) { o.v = 0; }
  Owner& operator=(const Owner& o) {
    v = o.v;
    return *this;
  }
  Owner& operator=(Owner&& o) noexcept {
    long t = o.v;
    o.v = 0;
    v = t;
    return *this;
  }
  ~Owner() {}
};
struct K : Owner {};
#elif defined(VP_DTOR) && VP_DTOR == 2
// destroying an element is not a no-op, so that the destruction of a node's arrays stays visible
struct K {
  long v;
  ~K() {}
};
#else
struct K {
  long v;
};
#endif
#if defined(VP_DTOR) && VP_DTOR == 2
struct V {
  long v;
  ~V() {}
};
#elif defined(VP_OWN)
struct V : Owner {};
#elif defined(VP_VTHROW)
// values whose construction and copying may fail; moving does not
extern "C" long vp_copy(long);
extern "C" long vp_dflt();
struct V {
  long v;
  V() : v(vp_dflt()) {}
  V(const V& o) : v(vp_copy(o.v)) {}
  V(V&& o) noexcept : v(o.v) {}
  V& operator=(const V& o) {
    v = vp_copy(o.v);
    return *this;
  }
  V& operator=(V&& o) noexcept {
    v = o.v;
    return *this;
  }
};
#else
#define VP_ARG
// what a value can be made from by taking something away
struct Arg {
  long v;
};
struct V {
  long v;
  V() = default;
  V(Arg&& a) : v(a.v) { a.v = 0; }
};
#endif
#if defined(VP_KEY) && !defined(VP_EXTCMP)
using Cmp = std::VP_ORDER<K>;
#else
extern "C" bool vp_less(const K*, const K*) noexcept;
extern "C" bool vp_keq(const K*, const K*) noexcept;
struct Cmp {
  bool operator()(const K& a, const K& b) const noexcept {
    return vp_less(&a, &b);
  }
#if defined(VP_DTOR) && VP_DTOR == 1
  ~Cmp() {}
#endif
};
#ifdef VP_KEY_HAS_EQ
inline bool operator==(const K& a, const K& b) { return vp_keq(&a, &b); }
#endif
#endif
