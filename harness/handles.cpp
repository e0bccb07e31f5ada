// Instantiates every container class so that the types of all public handles are complete.
#include <fast_containers/btree.hpp>
using namespace kressler::fast_containers;
struct K {
  long v;
};
struct V {
  long v;
};
struct Cmp {
  bool operator()(const K& a, const K& b) const noexcept;
};
using DMB = dense_map<K, V, 8, Cmp, SearchMode::Binary>;
using BT = btree<K, V, 8, 8, Cmp>;
template class kressler::fast_containers::dense_map<K, V, 8, Cmp, SearchMode::Binary>;
template class kressler::fast_containers::btree<K, V, 8, 8, Cmp>;

// facts that depend on overload resolution and constraint satisfaction
template <class T>
concept KeyAssignable = requires(T t, K k) { t.first = k; };
template <class T>
concept KeyPtrAssignable = requires(T t, K k) { (*t).first = k; } || requires(T t, K k) { t->first = k; } ||
                           requires(T t, K k) { t[0].first = k; } || requires(T t, K k) { (*t).first.v = 1; } ||
                           requires(T t, K k) { t->first.v = 1; } || requires(T t) { std::get<0>(*t) = K{}; };
template <class T>
concept ValAssignable = requires(T t, V v) { (*t).second = v; } || requires(T t, V v) { t->second = v; } ||
                        requires(T t, V v) { t[0].second = v; } || requires(T t, V v) { t.value_ref() = v; };
template <class T>
concept ValAssignableAll = requires(T t, V v) {
  (*t).second = v;
  t->second = v;
};
template <class T>
concept Subscript = requires(T t, K k) { t[k]; };
template <class C>
using ItOf = decltype(std::declval<C&>().begin());
template <class C>
using RItOf = decltype(std::declval<C&>().rbegin());
#define FACT(name, ...) extern "C" const bool name = (__VA_ARGS__);
// must be false
FACT(no_dm_key_iterator, KeyPtrAssignable<ItOf<DMB>>)
FACT(no_dm_key_const_iterator, KeyPtrAssignable<ItOf<const DMB>>)
FACT(no_dm_key_reverse_iterator, KeyPtrAssignable<RItOf<DMB>>)
FACT(no_dm_key_const_reverse_iterator, KeyPtrAssignable<RItOf<const DMB>>)
FACT(no_dm_value_const_iterator, ValAssignable<ItOf<const DMB>>)
FACT(no_dm_value_const_reverse_iterator, ValAssignable<RItOf<const DMB>>)
FACT(no_dm_iterator_from_const_iterator, std::is_constructible_v<DMB::iterator, DMB::const_iterator>)
FACT(no_dm_iterator_assign_const_iterator, std::is_assignable_v<DMB::iterator&, DMB::const_iterator>)
FACT(no_dm_const_subscript, Subscript<const DMB>)
FACT(no_bt_key_iterator, KeyPtrAssignable<ItOf<BT>>)
FACT(no_bt_key_const_iterator, KeyPtrAssignable<ItOf<const BT>>)
FACT(no_bt_key_reverse_iterator, KeyPtrAssignable<RItOf<BT>>)
FACT(no_bt_key_const_reverse_iterator, KeyPtrAssignable<RItOf<const BT>>)
FACT(no_bt_const_subscript, Subscript<const BT>)
template <class T>
concept C_no_bt_const_at = requires(const T& t, K k, V v) { t.at(k) = v; };
FACT(no_bt_const_at, C_no_bt_const_at<BT>)
template <class T>
concept C_no_bt_const_clear = requires(const T& t) { t.clear(); };
FACT(no_bt_const_clear, C_no_bt_const_clear<BT>)
template <class T>
concept C_no_bt_const_erase = requires(const T& t, K k) { t.erase(k); };
FACT(no_bt_const_erase, C_no_bt_const_erase<BT>)
template <class T>
concept C_no_bt_const_insert = requires(const T& t, K k, V v) { t.insert(k, v); };
FACT(no_bt_const_insert, C_no_bt_const_insert<BT>)
template <class T>
concept C_no_dm_const_insert = requires(const T& t, K k, V v) { t.insert(k, v); };
FACT(no_dm_const_insert, C_no_dm_const_insert<DMB>)
// must be true
FACT(yes_dm_value_iterator, ValAssignableAll<ItOf<DMB>>)
FACT(yes_bt_value_iterator, ValAssignableAll<ItOf<BT>>)
FACT(yes_bt_value_reverse_iterator, ValAssignableAll<RItOf<BT>>)
FACT(yes_dm_const_iterator_from_iterator, std::is_convertible_v<DMB::iterator, DMB::const_iterator>)
FACT(yes_bt_const_iterator_from_iterator, std::is_convertible_v<BT::iterator, BT::const_iterator>)
template <class T>
concept C_yes_dm_subscript_value = requires(T& t, K k, V v) { t[k] = v; };
FACT(yes_dm_subscript_value, C_yes_dm_subscript_value<DMB>)
template <class T>
concept C_yes_bt_subscript_value = requires(T& t, K k, V v) { t[k] = v; };
FACT(yes_bt_subscript_value, C_yes_bt_subscript_value<BT>)
template <class T>
concept C_yes_bt_at_value = requires(T& t, K k, V v) { t.at(k) = v; };
FACT(yes_bt_at_value, C_yes_bt_at_value<BT>)
