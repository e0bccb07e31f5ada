// Contract-level stand-ins for the standard containers and owners used by the allocators.  Their
// operations are either one-liners over an element array or calls of undefined functions, so that the
// analysis of the allocators does not depend on libstdc++'s internals.  Nothing here is ever executed.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
extern "C" void* vp_vec_new(unsigned long elsize) noexcept;
extern "C" void vp_vec_free(void* data) noexcept;
// makes room for element n (may throw bad_alloc); references into the old array die
extern "C" void* vp_vec_room(void* data, unsigned long n, unsigned long cap, unsigned long elsize);
namespace std {
template <class T>
class vp_vector {
 public:
  using value_type = T;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  vp_vector() noexcept : data_(static_cast<T*>(vp_vec_new(sizeof(T)))), n_(0), room_(0) {}
  vp_vector(const vp_vector&) = delete;
  vp_vector& operator=(const vp_vector&) = delete;
  ~vp_vector() { vp_vec_free(data_); }
  iterator begin() noexcept { return data_; }
  iterator end() noexcept { return data_ + n_; }
  const_iterator begin() const noexcept { return data_; }
  const_iterator end() const noexcept { return data_ + n_; }
  const_iterator cbegin() const noexcept { return data_; }
  const_iterator cend() const noexcept { return data_ + n_; }
  T* data() noexcept { return data_; }
  const T* data() const noexcept { return data_; }
  size_t size() const noexcept { return n_; }
  bool empty() const noexcept { return n_ == 0; }
  size_t capacity() const noexcept { return n_ + room_; }
  T& operator[](size_t i) noexcept { return data_[i]; }
  const T& operator[](size_t i) const noexcept { return data_[i]; }
  T& front() noexcept { return data_[0]; }
  T& back() noexcept { return data_[n_ - 1]; }
  const T& front() const noexcept { return data_[0]; }
  const T& back() const noexcept { return data_[n_ - 1]; }
  void reserve(size_t k) {
    if (k > n_ + room_) {
      data_ = static_cast<T*>(vp_vec_room(data_, n_, k, sizeof(T)));
      room_ = k - n_;
    }
  }
  void push_back(const T& x) {
    const T y(x);
    room();
    data_[n_] = y;
    ++n_;
  }
  template <class... A>
  T& emplace_back(A&&... a) {
    const T y(static_cast<A&&>(a)...);
    room();
    data_[n_] = y;
    ++n_;
    return data_[n_ - 1];
  }
  void pop_back() noexcept { --n_; }
  void clear() noexcept { n_ = 0; }

 private:
  void room() {
    if (room_ != 0) {
      --room_;
    } else {
      data_ = static_cast<T*>(vp_vec_room(data_, n_, n_ + 1, sizeof(T)));
    }
  }
  T* data_;
  size_t n_;
  size_t room_;  // elements that fit without moving
};

// shared ownership without the counter: who points where
template <class T>
class vp_shared_ptr {
 public:
  using element_type = T;
  constexpr vp_shared_ptr() noexcept : p_(nullptr) {}
  constexpr vp_shared_ptr(nullptr_t) noexcept : p_(nullptr) {}
  explicit vp_shared_ptr(T* p) : p_(p) {}
  vp_shared_ptr(const vp_shared_ptr& o) noexcept : p_(o.p_) {}
  vp_shared_ptr(vp_shared_ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  vp_shared_ptr& operator=(const vp_shared_ptr& o) noexcept {
    p_ = o.p_;
    return *this;
  }
  vp_shared_ptr& operator=(vp_shared_ptr&& o) noexcept {
    T* q = o.p_;
    o.p_ = nullptr;
    p_ = q;
    return *this;
  }
  ~vp_shared_ptr() {}
  T* get() const noexcept { return p_; }
  T& operator*() const noexcept { return *p_; }
  T* operator->() const noexcept { return p_; }
  explicit operator bool() const noexcept { return p_ != nullptr; }
  void reset() noexcept { p_ = nullptr; }
  void swap(vp_shared_ptr& o) noexcept {
    T* q = p_;
    p_ = o.p_;
    o.p_ = q;
  }
  template <class U>
  friend bool operator==(const vp_shared_ptr& a, const vp_shared_ptr<U>& b) noexcept {
    return a.get() == b.get();
  }
  friend bool operator==(const vp_shared_ptr& a, nullptr_t) noexcept { return a.p_ == nullptr; }

 private:
  T* p_;
};
template <class T, class... A>
vp_shared_ptr<T> vp_make_shared(A&&... a) {
  return vp_shared_ptr<T>(::new T(static_cast<A&&>(a)...));
}

// a map with unique keys: elements are found or made by undefined functions
}  // namespace std
extern "C" void* vp_map_find(const void* map, unsigned long key) noexcept;  // null when absent
extern "C" void* vp_map_make(void* map, unsigned long key, bool* made);     // finds or makes; may throw
extern "C" unsigned long vp_map_size(const void* map) noexcept;
extern "C" void vp_map_free(void* map) noexcept;
extern "C" unsigned long vp_map_erase(void* map, unsigned long key) noexcept;
namespace std {
template <class K, class V, class... R>
class vp_unordered_map {
 public:
  using key_type = K;
  using mapped_type = V;
  using value_type = pair<const K, V>;
  using size_type = size_t;
  struct iterator {
    value_type* p = nullptr;
    value_type& operator*() const { return *p; }
    value_type* operator->() const { return p; }
    bool operator==(const iterator&) const = default;
  };
  struct const_iterator {
    const value_type* p = nullptr;
    const_iterator() = default;
    const_iterator(const value_type* q) : p(q) {}
    const_iterator(iterator i) : p(i.p) {}
    const value_type& operator*() const { return *p; }
    const value_type* operator->() const { return p; }
    bool operator==(const const_iterator&) const = default;
  };
  vp_unordered_map() : tag_(0) {}
  vp_unordered_map(const vp_unordered_map&) = delete;
  vp_unordered_map& operator=(const vp_unordered_map&) = delete;
  ~vp_unordered_map() { vp_map_free(this); }
  V& operator[](K k) { return node(k, nullptr)->second; }
  V& at(K k) {
    value_type* p = static_cast<value_type*>(vp_map_find(this, static_cast<unsigned long>(k)));
    if (p == nullptr) {
      throw out_of_range("");
    }
    return p->second;
  }
  const V& at(K k) const { return const_cast<vp_unordered_map*>(this)->at(k); }
  iterator find(K k) { return {static_cast<value_type*>(vp_map_find(this, static_cast<unsigned long>(k)))}; }
  const_iterator find(K k) const { return {static_cast<const value_type*>(vp_map_find(this, static_cast<unsigned long>(k)))}; }
  bool contains(K k) const { return vp_map_find(this, static_cast<unsigned long>(k)) != nullptr; }
  size_t count(K k) const { return contains(k); }
  iterator end() { return {}; }
  const_iterator end() const { return {}; }
  const_iterator cend() const { return {}; }
  template <class... A>
  pair<iterator, bool> try_emplace(K k, A&&... a) {
    bool made = false;
    value_type* p = node(k, &made);
    if (made) {
      p->second = V(static_cast<A&&>(a)...);
    }
    return {iterator{p}, made};
  }
  template <class A>
  pair<iterator, bool> emplace(K k, A&& a) {
    return try_emplace(k, static_cast<A&&>(a));
  }
  template <class A>
  pair<iterator, bool> insert_or_assign(K k, A&& a) {
    bool made = false;
    value_type* p = node(k, &made);
    p->second = static_cast<A&&>(a);
    return {iterator{p}, made};
  }
  size_t erase(K k) { return vp_map_erase(this, static_cast<unsigned long>(k)); }
  size_t size() const { return vp_map_size(this); }
  bool empty() const { return size() == 0; }

 private:
  value_type* node(K k, bool* made) {
    bool m = false;
    value_type* p = static_cast<value_type*>(vp_map_make(this, static_cast<unsigned long>(k), &m));
    if (made != nullptr) {
      *made = m;
    }
    return p;
  }
  unsigned long tag_;
};
}  // namespace std
