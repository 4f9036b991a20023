// Verification model of std::vector: exact size, contents; storage object whose extent is exactly size()
// (so every access through data(), iterators or operator[] outside [0,size) is an obligation).
#ifndef _STL_VECTOR_H
#define _STL_VECTOR_H 1
#include <bits/stl_iterator_base_funcs.h>
#include <bits/functexcept.h>
#include <bits/concept_check.h>
#include <initializer_list>
#include "vf_intrin.h"
#include <compare>
namespace std _GLIBCXX_VISIBILITY(default)
{
  template<typename _Tp, typename _Alloc = std::allocator<_Tp>> class vector
  {
  public:
    typedef _Tp value_type;
    typedef _Tp* pointer;
    typedef const _Tp* const_pointer;
    typedef _Tp& reference;
    typedef const _Tp& const_reference;
    typedef __gnu_cxx::__normal_iterator<pointer, vector> iterator;
    typedef __gnu_cxx::__normal_iterator<const_pointer, vector> const_iterator;
    typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    typedef std::reverse_iterator<iterator> reverse_iterator;
    typedef size_t size_type;
    typedef ptrdiff_t difference_type;
    typedef _Alloc allocator_type;
  private:
    _Tp* _M_b;
    size_type _M_n;
    static constexpr bool __triv = __is_trivially_copyable(_Tp);
    void __alloc(size_type __n) { _M_b = (_Tp*)__vf_alloc(__n * sizeof(_Tp)); _M_n = __n; }
    void __grow(size_type __n) { __vf_resize(_M_b, __n * sizeof(_Tp)); _M_n = __n; }
    static void __destroy(_Tp* __b, _Tp* __e)
    { if constexpr (!__is_trivially_destructible(_Tp)) for (; __b != __e; ++__b) __b->~_Tp(); }
    static void __copy(_Tp* __d, const _Tp* __s, size_type __n)
    {
      if constexpr (__triv) { __builtin_memmove((void*)__d, (const void*)__s, __n * sizeof(_Tp)); }
      else for (size_type __i = 0; __i < __n; ++__i) ::new((void*)(__d + __i)) _Tp(__s[__i]);
    }
    static void __value(_Tp* __d, size_type __n)
    {
      if constexpr (is_integral<_Tp>::value || is_enum<_Tp>::value || is_pointer<_Tp>::value)
        { __builtin_memset((void*)__d, 0, __n * sizeof(_Tp)); }
      else for (size_type __i = 0; __i < __n; ++__i) ::new((void*)(__d + __i)) _Tp();
    }
    static void __fill(_Tp* __d, size_type __n, const _Tp& __v)
    {
      if constexpr (sizeof(_Tp) == 1 && is_integral<_Tp>::value)
        { __builtin_memset((void*)__d, (unsigned char)__v, __n); }
      else for (size_type __i = 0; __i < __n; ++__i) ::new((void*)(__d + __i)) _Tp(__v);
    }
    template<typename _It> void __app(_It __b, _It __e)
    {
      if constexpr (is_same<_It, iterator>::value || is_same<_It, const_iterator>::value || is_pointer<_It>::value)
        {
          size_type __k = __e - __b, __o = _M_n;
          const _Tp* __s;
          if constexpr (is_pointer<_It>::value)
            {
              if constexpr (is_same<remove_cv_t<remove_pointer_t<_It>>, _Tp>::value) __s = __b;
              else { for (; __b != __e; ++__b) emplace_back(*__b); return; }
            }
          else __s = __b.base();
          __grow(__o + __k);
          __copy(_M_b + __o, __s, __k);
        }
      else
        for (; __b != __e; ++__b) emplace_back(*__b);
    }
    // moves the elements [__from, old size) by __gap places up
    void __gap(size_type __from, size_type __k)
    {
      size_type __o = _M_n;
      __grow(__o + __k);
      if constexpr (__triv) { __builtin_memmove((void*)(_M_b + __from + __k), (const void*)(_M_b + __from), (__o - __from) * sizeof(_Tp)); }
      else for (size_type __i = __o; __i > __from; --__i)
        { ::new((void*)(_M_b + __i - 1 + __k)) _Tp(std::move(_M_b[__i - 1])); _M_b[__i - 1].~_Tp(); }
    }
  public:
    vector() noexcept { __alloc(0); }
    void __vf_uninit(size_type __n) { __grow(__n); }
    explicit vector(const _Alloc&) noexcept { __alloc(0); }
    explicit vector(size_type __n, const _Alloc& = _Alloc()) { __alloc(__n); __value(_M_b, __n); }
    vector(size_type __n, const _Tp& __v, const _Alloc& = _Alloc()) { __alloc(__n); __fill(_M_b, __n, __v); }
    vector(const vector& __o) { __alloc(__o._M_n); __copy(_M_b, __o._M_b, __o._M_n); }
    vector(const vector& __o, const _Alloc&) { __alloc(__o._M_n); __copy(_M_b, __o._M_b, __o._M_n); }
    vector(vector&& __o) noexcept : _M_b(__o._M_b), _M_n(__o._M_n) { __o.__alloc(0); }
    vector(initializer_list<_Tp> __l, const _Alloc& = _Alloc()) { __alloc(__l.size()); __copy(_M_b, __l.begin(), __l.size()); }
    template<typename _It, typename = std::_RequireInputIter<_It>>
    vector(_It __b, _It __e, const _Alloc& = _Alloc()) { __alloc(0); __app(__b, __e); }
    ~vector() { __destroy(_M_b, _M_b + _M_n); __vf_free(_M_b); }
    vector& operator=(const vector& __o)
    { if (this != &__o) { vector __t(__o); swap(__t); } return *this; }
    vector& operator=(vector&& __o) noexcept
    { if (this != &__o) { __destroy(_M_b, _M_b + _M_n); __vf_free(_M_b); _M_b = __o._M_b; _M_n = __o._M_n; __o.__alloc(0); } return *this; }
    vector& operator=(initializer_list<_Tp> __l) { vector __t(__l); swap(__t); return *this; }
    void assign(size_type __n, const _Tp& __v) { vector __t(__n, __v); swap(__t); }
    template<typename _It, typename = std::_RequireInputIter<_It>>
    void assign(_It __b, _It __e) { vector __t(__b, __e); swap(__t); }
    void assign(initializer_list<_Tp> __l) { vector __t(__l); swap(__t); }
    allocator_type get_allocator() const noexcept { return allocator_type(); }
    iterator begin() noexcept { return iterator(_M_b); }
    const_iterator begin() const noexcept { return const_iterator(_M_b); }
    iterator end() noexcept { return iterator(_M_b + _M_n); }
    const_iterator end() const noexcept { return const_iterator(_M_b + _M_n); }
    reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
    reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
    const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }
    const_reverse_iterator crbegin() const noexcept { return rbegin(); }
    const_reverse_iterator crend() const noexcept { return rend(); }
    size_type size() const noexcept { return _M_n; }
    size_type max_size() const noexcept { return size_type(-1) / 2 / sizeof(_Tp); }
    size_type capacity() const noexcept { return _M_n; }
    bool empty() const noexcept { return _M_n == 0; }
    void reserve(size_type) {}
    void shrink_to_fit() {}
    void resize(size_type __n)
    {
      size_type __o = _M_n;
      if (__n < __o) { __destroy(_M_b + __n, _M_b + __o); __grow(__n); }
      else { __grow(__n); __value(_M_b + __o, __n - __o); }
    }
    void resize(size_type __n, const _Tp& __v)
    {
      size_type __o = _M_n;
      if (__n < __o) { __destroy(_M_b + __n, _M_b + __o); __grow(__n); }
      else { __grow(__n); __fill(_M_b + __o, __n - __o, __v); }
    }
    reference operator[](size_type __i) noexcept { __vf_require(__i < _M_n, "vector index in range"); return _M_b[__i]; }
    const_reference operator[](size_type __i) const noexcept { __vf_require(__i < _M_n, "vector index in range"); return _M_b[__i]; }
    reference at(size_type __i) { if (__i >= _M_n) std::__throw_out_of_range("at"); return _M_b[__i]; }
    const_reference at(size_type __i) const { if (__i >= _M_n) std::__throw_out_of_range("at"); return _M_b[__i]; }
    reference front() noexcept { __vf_require(_M_n != 0, "vector not empty"); return _M_b[0]; }
    const_reference front() const noexcept { __vf_require(_M_n != 0, "vector not empty"); return _M_b[0]; }
    reference back() noexcept { __vf_require(_M_n != 0, "vector not empty"); return _M_b[_M_n - 1]; }
    const_reference back() const noexcept { __vf_require(_M_n != 0, "vector not empty"); return _M_b[_M_n - 1]; }
    _Tp* data() noexcept { return _M_b; }
    const _Tp* data() const noexcept { return _M_b; }
    void push_back(const _Tp& __v) { emplace_back(__v); }
    void push_back(_Tp&& __v) { emplace_back(std::move(__v)); }
    template<typename... _Args> reference emplace_back(_Args&&... __a)
    {
      size_type __o = _M_n;
      __grow(__o + 1);
      ::new((void*)(_M_b + __o)) _Tp(std::forward<_Args>(__a)...);
      return _M_b[__o];
    }
    void pop_back() noexcept { __vf_require(_M_n != 0, "vector not empty"); __destroy(_M_b + _M_n - 1, _M_b + _M_n); __grow(_M_n - 1); }
    template<typename... _Args> iterator emplace(const_iterator __p, _Args&&... __a)
    {
      size_type __o = __p - cbegin();
      _Tp __t(std::forward<_Args>(__a)...);
      __gap(__o, 1);
      ::new((void*)(_M_b + __o)) _Tp(std::move(__t));
      return begin() + __o;
    }
    iterator insert(const_iterator __p, const _Tp& __v) { return emplace(__p, __v); }
    iterator insert(const_iterator __p, _Tp&& __v) { return emplace(__p, std::move(__v)); }
    iterator insert(const_iterator __p, size_type __n, const _Tp& __v)
    { vector __t(__n, __v); return insert(__p, __t.begin(), __t.end()); }
    iterator insert(const_iterator __p, initializer_list<_Tp> __l) { return insert(__p, __l.begin(), __l.end()); }
    template<typename _It, typename = std::_RequireInputIter<_It>>
    iterator insert(const_iterator __p, _It __b, _It __e)
    {
      size_type __o = __p - cbegin();
      vector __t(__b, __e);
      __gap(__o, __t._M_n);
      __copy(_M_b + __o, __t._M_b, __t._M_n);
      return begin() + __o;
    }
    iterator erase(const_iterator __p) { return erase(__p, __p + 1); }
    iterator erase(const_iterator __b, const_iterator __e)
    {
      size_type __f = __b - cbegin(), __k = __e - __b;
      if (__k) {
        __vf_require(__f + __k <= _M_n, "erase range in vector");
        if constexpr (__triv) __builtin_memmove((void*)(_M_b + __f), (const void*)(_M_b + __f + __k), (_M_n - __f - __k) * sizeof(_Tp));
        else {
          for (size_type __i = __f; __i + __k < _M_n; ++__i) _M_b[__i] = std::move(_M_b[__i + __k]);
          __destroy(_M_b + _M_n - __k, _M_b + _M_n);
        }
        __grow(_M_n - __k);
      }
      return begin() + __f;
    }
    void swap(vector& __o) noexcept
    { _Tp* __b = _M_b; size_type __n = _M_n; _M_b = __o._M_b; _M_n = __o._M_n; __o._M_b = __b; __o._M_n = __n; }
    void clear() noexcept { __destroy(_M_b, _M_b + _M_n); __grow(0); }
  };
  template<typename _It, typename _Val = typename iterator_traits<_It>::value_type, typename = _RequireInputIter<_It>>
    vector(_It, _It) -> vector<_Val>;
  template<typename _Tp, typename _Alloc> bool operator==(const vector<_Tp, _Alloc>& __a, const vector<_Tp, _Alloc>& __b)
  {
    if (__a.size() != __b.size()) return false;
    if constexpr (is_integral<_Tp>::value) return __builtin_memcmp(__a.data(), __b.data(), __a.size() * sizeof(_Tp)) == 0;
    else
    for (size_t __i = 0; __i < __a.size(); ++__i) if (!(__a[__i] == __b[__i])) return false;
    return true;
  }
  template<typename _Tp, typename _Alloc> bool operator<(const vector<_Tp, _Alloc>& __a, const vector<_Tp, _Alloc>& __b)
  { return std::lexicographical_compare(__a.begin(), __a.end(), __b.begin(), __b.end()); }
  template<typename _Tp, typename _Alloc> void swap(vector<_Tp, _Alloc>& __a, vector<_Tp, _Alloc>& __b) noexcept { __a.swap(__b); }
  // vector<bool>: one byte per element
}
#endif
