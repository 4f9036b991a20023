// installs: unordered_map.h
// Verification model of std::unordered_map / unordered_multimap-free: an association list in insertion order.
#ifndef _UNORDERED_MAP_H
#define _UNORDERED_MAP_H 1
#include <bits/stl_pair.h>
#include "vf_intrin.h"
namespace std _GLIBCXX_VISIBILITY(default)
{
  template<typename _V> struct __vf_node { __vf_node* _M_next; _V _M_v; template<typename... _A> __vf_node(_A&&... __a): _M_next(nullptr), _M_v(std::forward<_A>(__a)...) {} };
  template<typename _V> struct __vf_citer;
  template<typename _V> struct __vf_iter
  {
    typedef _V value_type; typedef _V& reference; typedef _V* pointer; typedef ptrdiff_t difference_type; typedef forward_iterator_tag iterator_category;
    __vf_node<_V>* _M_p;
    __vf_iter(__vf_node<_V>* __p = nullptr): _M_p(__p) {}
    _V& operator*() const { return _M_p->_M_v; }
    _V* operator->() const { return &_M_p->_M_v; }
    __vf_iter& operator++() { _M_p = _M_p->_M_next; return *this; }
    __vf_iter operator++(int) { __vf_iter __t(*this); _M_p = _M_p->_M_next; return __t; }
    friend bool operator==(const __vf_iter& __a, const __vf_iter& __b) { return __a._M_p == __b._M_p; }
  };
  template<typename _V> struct __vf_citer
  {
    typedef _V value_type; typedef const _V& reference; typedef const _V* pointer; typedef ptrdiff_t difference_type; typedef forward_iterator_tag iterator_category;
    const __vf_node<_V>* _M_p;
    __vf_citer(const __vf_node<_V>* __p = nullptr): _M_p(__p) {}
    __vf_citer(__vf_iter<_V> __i): _M_p(__i._M_p) {}
    const _V& operator*() const { return _M_p->_M_v; }
    const _V* operator->() const { return &_M_p->_M_v; }
    __vf_citer& operator++() { _M_p = _M_p->_M_next; return *this; }
    __vf_citer operator++(int) { __vf_citer __t(*this); _M_p = _M_p->_M_next; return __t; }
    friend bool operator==(const __vf_citer& __a, const __vf_citer& __b) { return __a._M_p == __b._M_p; }
  };
  template<typename _K, typename _T, typename _H = hash<_K>, typename _P = equal_to<_K>, typename _A = allocator<pair<const _K, _T>>>
  class unordered_map
  {
  public:
    typedef _K key_type; typedef _T mapped_type; typedef pair<const _K, _T> value_type; typedef size_t size_type;
    typedef __vf_iter<value_type> iterator; typedef __vf_citer<value_type> const_iterator;
    typedef _H hasher; typedef _P key_equal; typedef _A allocator_type; typedef ptrdiff_t difference_type;
    typedef value_type& reference; typedef const value_type& const_reference;
  private:
    typedef __vf_node<value_type> _N;
    _N* _M_h = nullptr; _N* _M_t = nullptr; size_t _M_n = 0;
    _N* __find(const _K& __k) const { for (_N* __p = _M_h; __p; __p = __p->_M_next) if (_P()(__p->_M_v.first, __k)) return __p; return nullptr; }
    void __link(_N* __x) { if (_M_t) _M_t->_M_next = __x; else _M_h = __x; _M_t = __x; ++_M_n; }
  public:
    unordered_map() {}
    explicit unordered_map(size_t) {}
    unordered_map(const unordered_map& __o) { for (_N* __p = __o._M_h; __p; __p = __p->_M_next) __link(new _N(__p->_M_v)); }
    unordered_map(unordered_map&& __o) noexcept: _M_h(__o._M_h), _M_t(__o._M_t), _M_n(__o._M_n) { __o._M_h = __o._M_t = nullptr; __o._M_n = 0; }
    unordered_map(initializer_list<value_type> __l) { for (auto& __v: __l) insert(__v); }
    template<typename _It, typename = _RequireInputIter<_It>> unordered_map(_It __b, _It __e) { for (; __b != __e; ++__b) insert(*__b); }
    ~unordered_map() { clear(); }
    unordered_map& operator=(const unordered_map& __o) { if (this != &__o) { unordered_map __t(__o); swap(__t); } return *this; }
    unordered_map& operator=(unordered_map&& __o) noexcept { swap(__o); return *this; }
    void swap(unordered_map& __o) noexcept { std::swap(_M_h, __o._M_h); std::swap(_M_t, __o._M_t); std::swap(_M_n, __o._M_n); }
    void clear() noexcept { while (_M_h) { _N* __p = _M_h; _M_h = __p->_M_next; delete __p; } _M_t = nullptr; _M_n = 0; }
    iterator begin() noexcept { return _M_h; } iterator end() noexcept { return nullptr; }
    const_iterator begin() const noexcept { return _M_h; } const_iterator end() const noexcept { return nullptr; }
    const_iterator cbegin() const noexcept { return _M_h; } const_iterator cend() const noexcept { return nullptr; }
    bool empty() const noexcept { return _M_n == 0; } size_t size() const noexcept { return _M_n; }
    iterator find(const _K& __k) { return __find(__k); } const_iterator find(const _K& __k) const { return __find(__k); }
    size_t count(const _K& __k) const { return __find(__k) ? 1 : 0; } bool contains(const _K& __k) const { return __find(__k) != nullptr; }
    _T& at(const _K& __k) { _N* __p = __find(__k); if (!__p) std::__throw_out_of_range("at"); return __p->_M_v.second; }
    const _T& at(const _K& __k) const { _N* __p = __find(__k); if (!__p) std::__throw_out_of_range("at"); return __p->_M_v.second; }
    _T& operator[](const _K& __k) { _N* __p = __find(__k); if (!__p) { __p = new _N(piecewise_construct, forward_as_tuple(__k), forward_as_tuple()); __link(__p); } return __p->_M_v.second; }
    template<typename... _As> pair<iterator, bool> emplace(_As&&... __a)
    { _N* __x = new _N(std::forward<_As>(__a)...); _N* __p = __find(__x->_M_v.first); if (__p) { delete __x; return {iterator(__p), false}; } __link(__x); return {iterator(__x), true}; }
    template<typename... _As> pair<iterator, bool> try_emplace(const _K& __k, _As&&... __a)
    { _N* __p = __find(__k); if (__p) return {iterator(__p), false}; __p = new _N(piecewise_construct, forward_as_tuple(__k), forward_as_tuple(std::forward<_As>(__a)...)); __link(__p); return {iterator(__p), true}; }
    pair<iterator, bool> insert(const value_type& __v) { return emplace(__v); }
    pair<iterator, bool> insert(value_type&& __v) { return emplace(std::move(__v)); }
    template<typename _V> pair<iterator, bool> insert_or_assign(const _K& __k, _V&& __v)
    { _N* __p = __find(__k); if (__p) { __p->_M_v.second = std::forward<_V>(__v); return {iterator(__p), false}; } return emplace(__k, std::forward<_V>(__v)); }
    iterator erase(const_iterator __i)
    {
      _N* __q = nullptr;
      for (_N* __p = _M_h; __p; __q = __p, __p = __p->_M_next)
        if (__p == __i._M_p) { _N* __n = __p->_M_next; if (__q) __q->_M_next = __n; else _M_h = __n; if (_M_t == __p) _M_t = __q; --_M_n; delete __p; return __n; }
      return nullptr;
    }
    iterator erase(iterator __i) { return erase(const_iterator(__i)); }
    size_t erase(const _K& __k) { _N* __p = __find(__k); if (!__p) return 0; erase(const_iterator(iterator(__p))); return 1; }
    void reserve(size_t) {}
  };
  template<typename _K, typename _T, typename _H = hash<_K>, typename _P = equal_to<_K>, typename _A = allocator<pair<const _K, _T>>>
  class unordered_multimap;
  template<typename _K, typename _T, typename _H, typename _P, typename _A>
  void swap(unordered_map<_K, _T, _H, _P, _A>& __a, unordered_map<_K, _T, _H, _P, _A>& __b) noexcept { __a.swap(__b); }
}
#endif
