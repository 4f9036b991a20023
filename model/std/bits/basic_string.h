// Components for manipulating sequences of characters -*- C++ -*-

// Copyright (C) 1997-2023 Free Software Foundation, Inc.
//
// This file is part of the GNU ISO C++ Library.  This library is free
// software; you can redistribute it and/or modify it under the
// terms of the GNU General Public License as published by the
// Free Software Foundation; either version 3, or (at your option)
// any later version.

// This library is distributed in the hope that it will be useful,
// but WITHOUT ANY WARRANTY; without even the implied warranty of
// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
// GNU General Public License for more details.

// Under Section 7 of GPL version 3, you are granted additional
// permissions described in the GCC Runtime Library Exception, version
// 3.1, as published by the Free Software Foundation.

// You should have received a copy of the GNU General Public License and
// a copy of the GCC Runtime Library Exception along with this program;
// see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
// <http://www.gnu.org/licenses/>.

/** @file bits/basic_string.h
 *  This is an internal header file, included by other library headers.
 *  Do not attempt to use it directly. @headername{string}
 */

//
// ISO C++ 14882: 21 Strings library
//

#ifndef _BASIC_STRING_H
#define _BASIC_STRING_H 1

#pragma GCC system_header

#include <ext/alloc_traits.h>
#include <debug/debug.h>

#if __cplusplus >= 201103L
#include <initializer_list>
#endif

#if __cplusplus >= 201703L
# include <string_view>
#include "vf_intrin.h"
#endif

#if ! _GLIBCXX_USE_CXX11_ABI
# include "cow_string.h"
#else
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
_GLIBCXX_BEGIN_NAMESPACE_CXX11

#ifdef __cpp_lib_is_constant_evaluated
// Support P0980R1 in C++20.
# define __cpp_lib_constexpr_string 201907L
#elif __cplusplus >= 201703L && _GLIBCXX_HAVE_IS_CONSTANT_EVALUATED
// Support P0426R1 changes to char_traits in C++17.
# define __cpp_lib_constexpr_string 201611L
#endif

  /**
   *  @class basic_string basic_string.h <string>
   *  @brief  Managing sequences of characters and character-like objects.
   *
   *  @ingroup strings
   *  @ingroup sequences
   *  @headerfile string
   *  @since C++98
   *
   *  @tparam _CharT  Type of character
   *  @tparam _Traits  Traits for character type, defaults to
   *                   char_traits<_CharT>.
   *  @tparam _Alloc  Allocator type, defaults to allocator<_CharT>.
   *
   *  Meets the requirements of a <a href="tables.html#65">container</a>, a
   *  <a href="tables.html#66">reversible container</a>, and a
   *  <a href="tables.html#67">sequence</a>.  Of the
   *  <a href="tables.html#68">optional sequence requirements</a>, only
   *  @c push_back, @c at, and @c %array access are supported.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    // ---- verification model of std::basic_string (contract model: exact size, contents, NUL terminator) ----
    class basic_string
    {
    public:
      typedef _Traits traits_type;
      typedef _CharT value_type;
      typedef _Alloc allocator_type;
      typedef size_t size_type;
      typedef ptrdiff_t difference_type;
      typedef _CharT& reference;
      typedef const _CharT& const_reference;
      typedef _CharT* pointer;
      typedef const _CharT* const_pointer;
      typedef __gnu_cxx::__normal_iterator<pointer, basic_string> iterator;
      typedef __gnu_cxx::__normal_iterator<const_pointer, basic_string> const_iterator;
      typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
      typedef std::reverse_iterator<iterator> reverse_iterator;
      static const size_type npos = static_cast<size_type>(-1);
    private:
      _CharT* _M_p;
      size_type _M_n;
      typedef basic_string_view<_CharT, _Traits> __sv_type;
      template<typename _Tp, typename _Res>
        using _If_sv = enable_if_t<__and_<is_convertible<const _Tp&, __sv_type>,
              __not_<is_convertible<const _Tp*, const basic_string*>>,
              __not_<is_convertible<const _Tp&, const _CharT*>>>::value, _Res>;
      void __alloc0() { _M_p = (_CharT*)__vf_alloc(0); _M_n = 0; }
      static void __cp(_CharT* __d, const _CharT* __s, size_type __n) { __builtin_memmove((void*)__d, (const void*)__s, __n * sizeof(_CharT)); }
      static void __st(_CharT* __d, size_type __n, _CharT __c)
      {
        if constexpr (sizeof(_CharT) == 1) __builtin_memset((void*)__d, (unsigned char)__c, __n);
        else for (size_type __i = 0; __i < __n; ++__i) __d[__i] = __c;
      }
      // the terminator exists while somebody looks at it: storage is exactly size() (+1 after c_str())
      void __term() const { __vf_resize(_M_p, (_M_n + 1) * sizeof(_CharT)); _M_p[_M_n] = _CharT(); }
      void __setlen(size_type __n)
      { __vf_resize(_M_p, __n * sizeof(_CharT)); _M_n = __n; }
      void __init(const _CharT* __s, size_type __n)
      { _M_p = (_CharT*)__vf_alloc(__n * sizeof(_CharT)); _M_n = __n; __cp(_M_p, __s, __n); }
    public:
      _CharT* __vf_p() const { return _M_p; }
      void __vf_uninit(size_type __n) { __setlen(__n); }
      bool __vf_same(const basic_string& __o) const { return _M_n == __o._M_n && __builtin_memcmp(_M_p, __o._M_p, _M_n * sizeof(_CharT)) == 0; }
    private:
    public:
      basic_string() { __alloc0(); }
      explicit basic_string(const _Alloc&) { __alloc0(); }
      basic_string(const basic_string& __o) { __init(__o._M_p, __o._M_n); }
      basic_string(const basic_string& __o, const _Alloc&) { __init(__o._M_p, __o._M_n); }
      basic_string(const basic_string& __o, size_type __pos, size_type __n = npos)
      { __o.__chk(__pos); __init(__o._M_p + __pos, __o.__lim(__pos, __n)); }
      basic_string(const basic_string& __o, size_type __pos, const _Alloc&)
      { __o.__chk(__pos); __init(__o._M_p + __pos, __o.__lim(__pos, npos)); }
      basic_string(const basic_string& __o, size_type __pos, size_type __n, const _Alloc&)
      { __o.__chk(__pos); __init(__o._M_p + __pos, __o.__lim(__pos, __n)); }
      basic_string(const _CharT* __s, size_type __n, const _Alloc& = _Alloc()) { __init(__s, __n); }
      template<typename = _RequireAllocator<_Alloc>>
      basic_string(const _CharT* __s, const _Alloc& = _Alloc()) { __init(__s, _Traits::length(__s)); }
      template<typename = _RequireAllocator<_Alloc>>
      basic_string(size_type __n, _CharT __c, const _Alloc& = _Alloc())
      { __alloc0(); __setlen(__n); __st(_M_p, __n, __c); }
      basic_string(basic_string&& __o) noexcept : _M_p(__o._M_p), _M_n(__o._M_n) { __o.__alloc0(); }
      basic_string(basic_string&& __o, const _Alloc&) noexcept : _M_p(__o._M_p), _M_n(__o._M_n) { __o.__alloc0(); }
      basic_string(initializer_list<_CharT> __l, const _Alloc& = _Alloc()) { __init(__l.begin(), __l.size()); }
      basic_string(nullptr_t) = delete;
      template<typename _It, typename = std::_RequireInputIter<_It>>
      basic_string(_It __b, _It __e, const _Alloc& = _Alloc()) { __alloc0(); __app(__b, __e); }
      template<typename _Tp, typename = _If_sv<_Tp, void>>
      basic_string(const _Tp& __t, size_type __pos, size_type __n, const _Alloc& = _Alloc())
      { __sv_type __v = __t; __v = __v.substr(__pos, __n); __init(__v.data(), __v.size()); }
      template<typename _Tp, typename = _If_sv<_Tp, void>>
      explicit basic_string(const _Tp& __t, const _Alloc& = _Alloc())
      { __sv_type __v = __t; __init(__v.data(), __v.size()); }
      ~basic_string() { __vf_free(_M_p); }
      basic_string& operator=(const basic_string& __o) { if (this != &__o) return assign(__o._M_p, __o._M_n); return *this; }
      basic_string& operator=(const _CharT* __s) { return assign(__s); }
      basic_string& operator=(_CharT __c) { return assign(1, __c); }
      basic_string& operator=(basic_string&& __o) noexcept
      { if (this != &__o) { __vf_free(_M_p); _M_p = __o._M_p; _M_n = __o._M_n; __o.__alloc0(); } return *this; }
      basic_string& operator=(initializer_list<_CharT> __l) { return assign(__l.begin(), __l.size()); }
      template<typename _Tp> _If_sv<_Tp, basic_string&> operator=(const _Tp& __t) { return assign(__t); }
      operator __sv_type() const noexcept { return __sv_type(_M_p, _M_n); }
      iterator begin() noexcept { return iterator(_M_p); }
      const_iterator begin() const noexcept { return const_iterator(_M_p); }
      iterator end() noexcept { return iterator(_M_p + _M_n); }
      const_iterator end() const noexcept { return const_iterator(_M_p + _M_n); }
      reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
      const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
      reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
      const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
      const_iterator cbegin() const noexcept { return begin(); }
      const_iterator cend() const noexcept { return end(); }
      size_type size() const noexcept { return _M_n; }
      size_type length() const noexcept { return _M_n; }
      size_type max_size() const noexcept { return (size_type(-1) >> 1) / sizeof(_CharT) - 1; }
      size_type capacity() const noexcept { return _M_n; }
      bool empty() const noexcept { return _M_n == 0; }
      void resize(size_type __n, _CharT __c = _CharT())
      { size_type __o = _M_n; __setlen(__n); if (__n > __o) __st(_M_p + __o, __n - __o, __c); }
      void shrink_to_fit() noexcept {}
      void reserve(size_type) {}
      void reserve() {}
      void clear() noexcept { __setlen(0); }
      reference operator[](size_type __i) { if (__i >= _M_n) { __vf_require(__i == _M_n, "string index in range"); __term(); } return _M_p[__i]; }
      const_reference operator[](size_type __i) const { if (__i >= _M_n) { __vf_require(__i == _M_n, "string index in range"); __term(); } return _M_p[__i]; }
      reference at(size_type __i) { if (__i >= _M_n) std::__throw_out_of_range("at"); return _M_p[__i]; }
      const_reference at(size_type __i) const { if (__i >= _M_n) std::__throw_out_of_range("at"); return _M_p[__i]; }
      reference front() { __vf_require(_M_n != 0, "string not empty"); return _M_p[0]; }
      const_reference front() const { __vf_require(_M_n != 0, "string not empty"); return _M_p[0]; }
      reference back() { __vf_require(_M_n != 0, "string not empty"); return _M_p[_M_n - 1]; }
      const_reference back() const { __vf_require(_M_n != 0, "string not empty"); return _M_p[_M_n - 1]; }
      basic_string& operator+=(const basic_string& __s) { return append(__s._M_p, __s._M_n); }
      basic_string& operator+=(const _CharT* __s) { return append(__s); }
      basic_string& operator+=(_CharT __c) { push_back(__c); return *this; }
      basic_string& operator+=(initializer_list<_CharT> __l) { return append(__l.begin(), __l.size()); }
      template<typename _Tp> _If_sv<_Tp, basic_string&> operator+=(const _Tp& __t) { return append(__t); }
      basic_string& append(const basic_string& __s) { return append(__s._M_p, __s._M_n); }
      basic_string& append(const basic_string& __s, size_type __pos, size_type __n = npos)
      { __s.__chk(__pos); return append(__s._M_p + __pos, __s.__lim(__pos, __n)); }
      basic_string& append(const _CharT* __s, size_type __n)
      { size_type __o = _M_n; __setlen(__o + __n); __cp(_M_p + __o, __s, __n); return *this; }
      basic_string& append(const _CharT* __s) { return append(__s, _Traits::length(__s)); }
      basic_string& append(size_type __n, _CharT __c)
      { size_type __o = _M_n; __setlen(__o + __n); __st(_M_p + __o, __n, __c); return *this; }
      basic_string& append(initializer_list<_CharT> __l) { return append(__l.begin(), __l.size()); }
      template<typename _It, typename = std::_RequireInputIter<_It>>
      basic_string& append(_It __b, _It __e) { __app(__b, __e); return *this; }
      template<typename _Tp> _If_sv<_Tp, basic_string&> append(const _Tp& __t) { __sv_type __v = __t; return append(__v.data(), __v.size()); }
      void push_back(_CharT __c) { size_type __o = _M_n; __setlen(__o + 1); _M_p[__o] = __c; }
      void pop_back() { __vf_require(_M_n != 0, "string not empty"); __setlen(_M_n - 1); }
      basic_string& assign(const basic_string& __s) { return *this = __s; }
      basic_string& assign(basic_string&& __s) { return *this = std::move(__s); }
      basic_string& assign(const basic_string& __s, size_type __pos, size_type __n = npos)
      { __s.__chk(__pos); return assign(__s._M_p + __pos, __s.__lim(__pos, __n)); }
      basic_string& assign(const _CharT* __s, size_type __n)
      { _CharT* __q = _M_p; __init(__s, __n); __vf_free(__q); return *this; }
      basic_string& assign(const _CharT* __s) { return assign(__s, _Traits::length(__s)); }
      basic_string& assign(size_type __n, _CharT __c) { __setlen(__n); __st(_M_p, __n, __c); return *this; }
      template<typename _It, typename = std::_RequireInputIter<_It>>
      basic_string& assign(_It __b, _It __e) { basic_string __t(__b, __e); swap(__t); return *this; }
      basic_string& assign(initializer_list<_CharT> __l) { return assign(__l.begin(), __l.size()); }
      template<typename _Tp> _If_sv<_Tp, basic_string&> assign(const _Tp& __t) { __sv_type __v = __t; return assign(__v.data(), __v.size()); }
      basic_string& insert(size_type __pos, const _CharT* __s, size_type __n)
      { return replace(__pos, 0, __s, __n); }
      basic_string& insert(size_type __pos, const basic_string& __s) { return replace(__pos, 0, __s._M_p, __s._M_n); }
      basic_string& insert(size_type __pos, const _CharT* __s) { return replace(__pos, 0, __s, _Traits::length(__s)); }
      basic_string& insert(size_type __pos, size_type __n, _CharT __c) { basic_string __t(__n, __c); return replace(__pos, 0, __t._M_p, __n); }
      iterator insert(const_iterator __p, _CharT __c)
      { size_type __o = __p - begin(); insert(__o, 1, __c); return begin() + __o; }
      template<typename _It, typename = std::_RequireInputIter<_It>>
      iterator insert(const_iterator __p, _It __b, _It __e)
      { size_type __o = __p - cbegin(); basic_string __t(__b, __e); insert(__o, __t); return begin() + __o; }
      basic_string& erase(size_type __pos = 0, size_type __n = npos)
      { __chk(__pos); return replace(__pos, __lim(__pos, __n), _M_p, 0); }
      iterator erase(const_iterator __p) { size_type __o = __p - cbegin(); erase(__o, 1); return begin() + __o; }
      iterator erase(const_iterator __b, const_iterator __e)
      { size_type __o = __b - cbegin(); erase(__o, __e - __b); return begin() + __o; }
      basic_string& replace(size_type __pos, size_type __n1, const _CharT* __s, size_type __n2)
      {
        __chk(__pos); __n1 = __lim(__pos, __n1);
        size_type __tail = _M_n - __pos - __n1;
        basic_string __t;
        __t.__setlen(__pos + __n2 + __tail);
        __cp(__t._M_p, _M_p, __pos);
        __cp(__t._M_p + __pos, __s, __n2);
        __cp(__t._M_p + __pos + __n2, _M_p + __pos + __n1, __tail);
        swap(__t);
        return *this;
      }
      basic_string& replace(size_type __pos, size_type __n, const basic_string& __s) { return replace(__pos, __n, __s._M_p, __s._M_n); }
      basic_string& replace(size_type __pos, size_type __n, const _CharT* __s) { return replace(__pos, __n, __s, _Traits::length(__s)); }
      basic_string& replace(size_type __pos, size_type __n, size_type __n2, _CharT __c) { basic_string __t(__n2, __c); return replace(__pos, __n, __t); }
      basic_string& replace(const_iterator __b, const_iterator __e, const basic_string& __s) { return replace(__b - cbegin(), __e - __b, __s); }
      size_type copy(_CharT* __d, size_type __n, size_type __pos = 0) const
      { __chk(__pos); __n = __lim(__pos, __n); __cp(__d, _M_p + __pos, __n); return __n; }
      void swap(basic_string& __o) noexcept
      { _CharT* __p = _M_p; size_type __n = _M_n; _M_p = __o._M_p; _M_n = __o._M_n; __o._M_p = __p; __o._M_n = __n; }
      const _CharT* c_str() const noexcept { __term(); return _M_p; }
      const _CharT* data() const noexcept { __term(); return _M_p; }
      _CharT* data() noexcept { __term(); return _M_p; }
      allocator_type get_allocator() const noexcept { return allocator_type(); }
      size_type find(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      {
        if (__n == 0) return __pos <= _M_n ? __pos : npos;
        for (size_type __i = __pos; __i < _M_n && __n <= _M_n - __i; ++__i)
          if (_Traits::compare(_M_p + __i, __s, __n) == 0) return __i;
        return npos;
      }
      size_type find(const basic_string& __s, size_type __pos = 0) const noexcept { return find(__s._M_p, __pos, __s._M_n); }
      size_type find(const _CharT* __s, size_type __pos = 0) const noexcept { return find(__s, __pos, _Traits::length(__s)); }
      size_type find(_CharT __c, size_type __pos = 0) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (_M_p[__i] == __c) return __i; return npos; }
      template<typename _Tp> _If_sv<_Tp, size_type> find(const _Tp& __t, size_type __pos = 0) const noexcept
      { __sv_type __v = __t; return find(__v.data(), __pos, __v.size()); }
      size_type rfind(_CharT __c, size_type __pos = npos) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (_M_p[__i] == __c) return __i; } return npos; }
      size_type rfind(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      {
        if (__n > _M_n) return npos;
        size_type __i = _M_n - __n; if (__pos < __i) __i = __pos;
        do { if (_Traits::compare(_M_p + __i, __s, __n) == 0) return __i; } while (__i-- > 0);
        return npos;
      }
      size_type rfind(const basic_string& __s, size_type __pos = npos) const noexcept { return rfind(__s._M_p, __pos, __s._M_n); }
      size_type rfind(const _CharT* __s, size_type __pos = npos) const noexcept { return rfind(__s, __pos, _Traits::length(__s)); }
      size_type find_first_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (_Traits::find(__s, __n, _M_p[__i])) return __i; return npos; }
      size_type find_first_of(const basic_string& __s, size_type __pos = 0) const noexcept { return find_first_of(__s._M_p, __pos, __s._M_n); }
      size_type find_first_of(const _CharT* __s, size_type __pos = 0) const noexcept { return find_first_of(__s, __pos, _Traits::length(__s)); }
      size_type find_first_of(_CharT __c, size_type __pos = 0) const noexcept { return find(__c, __pos); }
      size_type find_last_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (_Traits::find(__s, __n, _M_p[__i])) return __i; } return npos; }
      size_type find_last_of(const basic_string& __s, size_type __pos = npos) const noexcept { return find_last_of(__s._M_p, __pos, __s._M_n); }
      size_type find_last_of(const _CharT* __s, size_type __pos = npos) const noexcept { return find_last_of(__s, __pos, _Traits::length(__s)); }
      size_type find_last_of(_CharT __c, size_type __pos = npos) const noexcept { return rfind(__c, __pos); }
      size_type find_first_not_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (!_Traits::find(__s, __n, _M_p[__i])) return __i; return npos; }
      size_type find_first_not_of(const basic_string& __s, size_type __pos = 0) const noexcept { return find_first_not_of(__s._M_p, __pos, __s._M_n); }
      size_type find_first_not_of(const _CharT* __s, size_type __pos = 0) const noexcept { return find_first_not_of(__s, __pos, _Traits::length(__s)); }
      size_type find_first_not_of(_CharT __c, size_type __pos = 0) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (_M_p[__i] != __c) return __i; return npos; }
      size_type find_last_not_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (!_Traits::find(__s, __n, _M_p[__i])) return __i; } return npos; }
      size_type find_last_not_of(const basic_string& __s, size_type __pos = npos) const noexcept { return find_last_not_of(__s._M_p, __pos, __s._M_n); }
      size_type find_last_not_of(const _CharT* __s, size_type __pos = npos) const noexcept { return find_last_not_of(__s, __pos, _Traits::length(__s)); }
      size_type find_last_not_of(_CharT __c, size_type __pos = npos) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (_M_p[__i] != __c) return __i; } return npos; }
      basic_string substr(size_type __pos = 0, size_type __n = npos) const
      { __chk(__pos); return basic_string(_M_p + __pos, __lim(__pos, __n)); }
      static int __cmp(const _CharT* __a, size_type __n, const _CharT* __b, size_type __m)
      {
        size_type __l = __n < __m ? __n : __m;
        int __r;
        if constexpr (sizeof(_CharT) == 1) __r = __builtin_memcmp(__a, __b, __l); else __r = __l ? _Traits::compare(__a, __b, __l) : 0;
        if (__r == 0) __r = __n < __m ? -1 : (__n > __m ? 1 : 0);
        return __r;
      }
      int compare(const basic_string& __s) const { return __cmp(_M_p, _M_n, __s._M_p, __s._M_n); }
      int compare(size_type __pos, size_type __n, const basic_string& __s) const
      { __chk(__pos); return __cmp(_M_p + __pos, __lim(__pos, __n), __s._M_p, __s._M_n); }
      int compare(const _CharT* __s) const noexcept { return __cmp(_M_p, _M_n, __s, _Traits::length(__s)); }
      int compare(size_type __pos, size_type __n, const _CharT* __s) const
      { __chk(__pos); return __cmp(_M_p + __pos, __lim(__pos, __n), __s, _Traits::length(__s)); }
      int compare(size_type __pos, size_type __n, const _CharT* __s, size_type __m) const
      { __chk(__pos); return __cmp(_M_p + __pos, __lim(__pos, __n), __s, __m); }
      template<typename _Tp> _If_sv<_Tp, int> compare(const _Tp& __t) const { __sv_type __v = __t; return __cmp(_M_p, _M_n, __v.data(), __v.size()); }
      bool starts_with(__sv_type __x) const noexcept { return __sv_type(_M_p, _M_n).starts_with(__x); }
      bool starts_with(_CharT __x) const noexcept { return _M_n && _M_p[0] == __x; }
      bool starts_with(const _CharT* __x) const noexcept { return __sv_type(_M_p, _M_n).starts_with(__x); }
      bool ends_with(__sv_type __x) const noexcept { return __sv_type(_M_p, _M_n).ends_with(__x); }
      bool ends_with(_CharT __x) const noexcept { return _M_n && _M_p[_M_n - 1] == __x; }
      bool ends_with(const _CharT* __x) const noexcept { return __sv_type(_M_p, _M_n).ends_with(__x); }
      void __chk(size_type __pos) const { if (__pos > _M_n) std::__throw_out_of_range("basic_string"); }
      size_type __lim(size_type __pos, size_type __n) const noexcept { size_type __r = _M_n - __pos; return __n < __r ? __n : __r; }
      template<typename _It> void __app(_It __b, _It __e)
      {
        if constexpr (is_same<_It, iterator>::value || is_same<_It, const_iterator>::value)
          { append(static_cast<const _CharT*>(__b.base()), size_type(__e - __b)); }
        else if constexpr (is_convertible<_It, const _CharT*>::value)
          { append(static_cast<const _CharT*>(__b), size_type(__e - __b)); }
        else
          for (; __b != __e; ++__b) push_back(*__b);
      }
      template<typename, typename, typename> friend class basic_stringbuf;
    };
_GLIBCXX_END_NAMESPACE_CXX11
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace std
#endif  // _GLIBCXX_USE_CXX11_ABI

namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION

#if __cpp_deduction_guides >= 201606
_GLIBCXX_BEGIN_NAMESPACE_CXX11
  template<typename _InputIterator, typename _CharT
	     = typename iterator_traits<_InputIterator>::value_type,
	   typename _Allocator = allocator<_CharT>,
	   typename = _RequireInputIter<_InputIterator>,
	   typename = _RequireAllocator<_Allocator>>
    basic_string(_InputIterator, _InputIterator, _Allocator = _Allocator())
      -> basic_string<_CharT, char_traits<_CharT>, _Allocator>;

  // _GLIBCXX_RESOLVE_LIB_DEFECTS
  // 3075. basic_string needs deduction guides from basic_string_view
  template<typename _CharT, typename _Traits,
	   typename _Allocator = allocator<_CharT>,
	   typename = _RequireAllocator<_Allocator>>
    basic_string(basic_string_view<_CharT, _Traits>, const _Allocator& = _Allocator())
      -> basic_string<_CharT, _Traits, _Allocator>;

  template<typename _CharT, typename _Traits,
	   typename _Allocator = allocator<_CharT>,
	   typename = _RequireAllocator<_Allocator>>
    basic_string(basic_string_view<_CharT, _Traits>,
		 typename basic_string<_CharT, _Traits, _Allocator>::size_type,
		 typename basic_string<_CharT, _Traits, _Allocator>::size_type,
		 const _Allocator& = _Allocator())
      -> basic_string<_CharT, _Traits, _Allocator>;
_GLIBCXX_END_NAMESPACE_CXX11
#endif

  template<typename _Str>
    
    inline _Str
    __str_concat(typename _Str::value_type const* __lhs,
		 typename _Str::size_type __lhs_len,
		 typename _Str::value_type const* __rhs,
		 typename _Str::size_type __rhs_len,
		 typename _Str::allocator_type const& __a)
    {
      typedef typename _Str::allocator_type allocator_type;
      typedef __gnu_cxx::__alloc_traits<allocator_type> _Alloc_traits;
      _Str __str(_Alloc_traits::_S_select_on_copy(__a));
      __str.reserve(__lhs_len + __rhs_len);
      __str.append(__lhs, __lhs_len);
      __str.append(__rhs, __rhs_len);
      return __str;
    }

  // operator+
  /**
   *  @brief  Concatenate two strings.
   *  @param __lhs  First string.
   *  @param __rhs  Last string.
   *  @return  New string with value of @a __lhs followed by @a __rhs.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    {
      typedef basic_string<_CharT, _Traits, _Alloc> _Str;
      return std::__str_concat<_Str>(__lhs.c_str(), __lhs.size(),
				     __rhs.c_str(), __rhs.size(),
				     __lhs.get_allocator());
    }

  /**
   *  @brief  Concatenate C string and string.
   *  @param __lhs  First string.
   *  @param __rhs  Last string.
   *  @return  New string with value of @a __lhs followed by @a __rhs.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT,_Traits,_Alloc>
    operator+(const _CharT* __lhs,
	      const basic_string<_CharT,_Traits,_Alloc>& __rhs)
    {
      __glibcxx_requires_string(__lhs);
      typedef basic_string<_CharT, _Traits, _Alloc> _Str;
      return std::__str_concat<_Str>(__lhs, _Traits::length(__lhs),
				     __rhs.c_str(), __rhs.size(),
				     __rhs.get_allocator());
    }

  /**
   *  @brief  Concatenate character and string.
   *  @param __lhs  First string.
   *  @param __rhs  Last string.
   *  @return  New string with @a __lhs followed by @a __rhs.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT,_Traits,_Alloc>
    operator+(_CharT __lhs, const basic_string<_CharT,_Traits,_Alloc>& __rhs)
    {
      typedef basic_string<_CharT, _Traits, _Alloc> _Str;
      return std::__str_concat<_Str>(__builtin_addressof(__lhs), 1,
				     __rhs.c_str(), __rhs.size(),
				     __rhs.get_allocator());
    }

  /**
   *  @brief  Concatenate string and C string.
   *  @param __lhs  First string.
   *  @param __rhs  Last string.
   *  @return  New string with @a __lhs followed by @a __rhs.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      const _CharT* __rhs)
    {
      __glibcxx_requires_string(__rhs);
      typedef basic_string<_CharT, _Traits, _Alloc> _Str;
      return std::__str_concat<_Str>(__lhs.c_str(), __lhs.size(),
				     __rhs, _Traits::length(__rhs),
				     __lhs.get_allocator());
    }
  /**
   *  @brief  Concatenate string and character.
   *  @param __lhs  First string.
   *  @param __rhs  Last string.
   *  @return  New string with @a __lhs followed by @a __rhs.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(const basic_string<_CharT, _Traits, _Alloc>& __lhs, _CharT __rhs)
    {
      typedef basic_string<_CharT, _Traits, _Alloc> _Str;
      return std::__str_concat<_Str>(__lhs.c_str(), __lhs.size(),
				     __builtin_addressof(__rhs), 1,
				     __lhs.get_allocator());
    }

#if __cplusplus >= 201103L
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(basic_string<_CharT, _Traits, _Alloc>&& __lhs,
	      const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return std::move(__lhs.append(__rhs)); }

  template<typename _CharT, typename _Traits, typename _Alloc>
    
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      basic_string<_CharT, _Traits, _Alloc>&& __rhs)
    { return std::move(__rhs.insert(0, __lhs)); }

  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(basic_string<_CharT, _Traits, _Alloc>&& __lhs,
	      basic_string<_CharT, _Traits, _Alloc>&& __rhs)
    {
#if _GLIBCXX_USE_CXX11_ABI
      using _Alloc_traits = allocator_traits<_Alloc>;
      bool __use_rhs = false;
      if _GLIBCXX17_CONSTEXPR (typename _Alloc_traits::is_always_equal{})
	__use_rhs = true;
      else if (__lhs.get_allocator() == __rhs.get_allocator())
	__use_rhs = true;
      if (__use_rhs)
#endif
	{
	  const auto __size = __lhs.size() + __rhs.size();
	  if (__size > __lhs.capacity() && __size <= __rhs.capacity())
	    return std::move(__rhs.insert(0, __lhs));
	}
      return std::move(__lhs.append(__rhs));
    }

  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(const _CharT* __lhs,
	      basic_string<_CharT, _Traits, _Alloc>&& __rhs)
    { return std::move(__rhs.insert(0, __lhs)); }

  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(_CharT __lhs,
	      basic_string<_CharT, _Traits, _Alloc>&& __rhs)
    { return std::move(__rhs.insert(0, 1, __lhs)); }

  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(basic_string<_CharT, _Traits, _Alloc>&& __lhs,
	      const _CharT* __rhs)
    { return std::move(__lhs.append(__rhs)); }

  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline basic_string<_CharT, _Traits, _Alloc>
    operator+(basic_string<_CharT, _Traits, _Alloc>&& __lhs,
	      _CharT __rhs)
    { return std::move(__lhs.append(1, __rhs)); }
#endif

  // operator ==
  /**
   *  @brief  Test equivalence of two strings.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *  @return  True if @a __lhs.compare(@a __rhs) == 0.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline bool
    operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT
    {
      return __lhs.size() == __rhs.size()
	       && !__builtin_memcmp(__lhs.__vf_p(), __rhs.__vf_p(), __lhs.size() * sizeof(_CharT));
    }

  /**
   *  @brief  Test equivalence of string and C string.
   *  @param __lhs  String.
   *  @param __rhs  C string.
   *  @return  True if @a __lhs.compare(@a __rhs) == 0.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD 
    inline bool
    operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const _CharT* __rhs)
    {
      return __lhs.size() == _Traits::length(__rhs)
	       && !__builtin_memcmp(__lhs.__vf_p(), __rhs, __lhs.size() * sizeof(_CharT));
    }

#if __cpp_lib_three_way_comparison
  /**
   *  @brief  Three-way comparison of a string and a C string.
   *  @param __lhs  A string.
   *  @param __rhs  A null-terminated string.
   *  @return  A value indicating whether `__lhs` is less than, equal to,
   *	       greater than, or incomparable with `__rhs`.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    [[nodiscard]]
    constexpr auto
    operator<=>(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
		const basic_string<_CharT, _Traits, _Alloc>& __rhs) noexcept
    -> decltype(__detail::__char_traits_cmp_cat<_Traits>(0))
    { return __detail::__char_traits_cmp_cat<_Traits>(__lhs.compare(__rhs)); }

  /**
   *  @brief  Three-way comparison of a string and a C string.
   *  @param __lhs  A string.
   *  @param __rhs  A null-terminated string.
   *  @return  A value indicating whether `__lhs` is less than, equal to,
   *	       greater than, or incomparable with `__rhs`.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    [[nodiscard]]
    constexpr auto
    operator<=>(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
		const _CharT* __rhs) noexcept
    -> decltype(__detail::__char_traits_cmp_cat<_Traits>(0))
    { return __detail::__char_traits_cmp_cat<_Traits>(__lhs.compare(__rhs)); }
#else
  /**
   *  @brief  Test equivalence of C string and string.
   *  @param __lhs  C string.
   *  @param __rhs  String.
   *  @return  True if @a __rhs.compare(@a __lhs) == 0.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator==(const _CharT* __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return __rhs == __lhs; }

  // operator !=
  /**
   *  @brief  Test difference of two strings.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *  @return  True if @a __lhs.compare(@a __rhs) != 0.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator!=(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT
    { return !(__lhs == __rhs); }

  /**
   *  @brief  Test difference of C string and string.
   *  @param __lhs  C string.
   *  @param __rhs  String.
   *  @return  True if @a __rhs.compare(@a __lhs) != 0.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator!=(const _CharT* __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return !(__rhs == __lhs); }

  /**
   *  @brief  Test difference of string and C string.
   *  @param __lhs  String.
   *  @param __rhs  C string.
   *  @return  True if @a __lhs.compare(@a __rhs) != 0.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator!=(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const _CharT* __rhs)
    { return !(__lhs == __rhs); }

  // operator <
  /**
   *  @brief  Test if string precedes string.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *  @return  True if @a __lhs precedes @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator<(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT
    { return __lhs.compare(__rhs) < 0; }

  /**
   *  @brief  Test if string precedes C string.
   *  @param __lhs  String.
   *  @param __rhs  C string.
   *  @return  True if @a __lhs precedes @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator<(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      const _CharT* __rhs)
    { return __lhs.compare(__rhs) < 0; }

  /**
   *  @brief  Test if C string precedes string.
   *  @param __lhs  C string.
   *  @param __rhs  String.
   *  @return  True if @a __lhs precedes @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator<(const _CharT* __lhs,
	      const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return __rhs.compare(__lhs) > 0; }

  // operator >
  /**
   *  @brief  Test if string follows string.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *  @return  True if @a __lhs follows @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator>(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT
    { return __lhs.compare(__rhs) > 0; }

  /**
   *  @brief  Test if string follows C string.
   *  @param __lhs  String.
   *  @param __rhs  C string.
   *  @return  True if @a __lhs follows @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator>(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	      const _CharT* __rhs)
    { return __lhs.compare(__rhs) > 0; }

  /**
   *  @brief  Test if C string follows string.
   *  @param __lhs  C string.
   *  @param __rhs  String.
   *  @return  True if @a __lhs follows @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator>(const _CharT* __lhs,
	      const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return __rhs.compare(__lhs) < 0; }

  // operator <=
  /**
   *  @brief  Test if string doesn't follow string.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *  @return  True if @a __lhs doesn't follow @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator<=(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT
    { return __lhs.compare(__rhs) <= 0; }

  /**
   *  @brief  Test if string doesn't follow C string.
   *  @param __lhs  String.
   *  @param __rhs  C string.
   *  @return  True if @a __lhs doesn't follow @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator<=(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const _CharT* __rhs)
    { return __lhs.compare(__rhs) <= 0; }

  /**
   *  @brief  Test if C string doesn't follow string.
   *  @param __lhs  C string.
   *  @param __rhs  String.
   *  @return  True if @a __lhs doesn't follow @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator<=(const _CharT* __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return __rhs.compare(__lhs) >= 0; }

  // operator >=
  /**
   *  @brief  Test if string doesn't precede string.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *  @return  True if @a __lhs doesn't precede @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator>=(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT
    { return __lhs.compare(__rhs) >= 0; }

  /**
   *  @brief  Test if string doesn't precede C string.
   *  @param __lhs  String.
   *  @param __rhs  C string.
   *  @return  True if @a __lhs doesn't precede @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator>=(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
	       const _CharT* __rhs)
    { return __lhs.compare(__rhs) >= 0; }

  /**
   *  @brief  Test if C string doesn't precede string.
   *  @param __lhs  C string.
   *  @param __rhs  String.
   *  @return  True if @a __lhs doesn't precede @a __rhs.  False otherwise.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    _GLIBCXX_NODISCARD
    inline bool
    operator>=(const _CharT* __lhs,
	     const basic_string<_CharT, _Traits, _Alloc>& __rhs)
    { return __rhs.compare(__lhs) <= 0; }
#endif // three-way comparison

  /**
   *  @brief  Swap contents of two strings.
   *  @param __lhs  First string.
   *  @param __rhs  Second string.
   *
   *  Exchanges the contents of @a __lhs and @a __rhs in constant time.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    
    inline void
    swap(basic_string<_CharT, _Traits, _Alloc>& __lhs,
	 basic_string<_CharT, _Traits, _Alloc>& __rhs)
    _GLIBCXX_NOEXCEPT_IF(noexcept(__lhs.swap(__rhs)))
    { __lhs.swap(__rhs); }


  /**
   *  @brief  Read stream into a string.
   *  @param __is  Input stream.
   *  @param __str  Buffer to store into.
   *  @return  Reference to the input stream.
   *
   *  Stores characters from @a __is into @a __str until whitespace is
   *  found, the end of the stream is encountered, or str.max_size()
   *  is reached.  If is.width() is non-zero, that is the limit on the
   *  number of characters stored into @a __str.  Any previous
   *  contents of @a __str are erased.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    basic_istream<_CharT, _Traits>&
    operator>>(basic_istream<_CharT, _Traits>& __is,
	       basic_string<_CharT, _Traits, _Alloc>& __str);

  template<>
    basic_istream<char>&
    operator>>(basic_istream<char>& __is, basic_string<char>& __str);

  /**
   *  @brief  Write string to a stream.
   *  @param __os  Output stream.
   *  @param __str  String to write out.
   *  @return  Reference to the output stream.
   *
   *  Output characters of @a __str into os following the same rules as for
   *  writing a C string.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    inline basic_ostream<_CharT, _Traits>&
    operator<<(basic_ostream<_CharT, _Traits>& __os,
	       const basic_string<_CharT, _Traits, _Alloc>& __str)
    {
      // _GLIBCXX_RESOLVE_LIB_DEFECTS
      // 586. string inserter not a formatted function
      return __ostream_insert(__os, __str.data(), __str.size());
    }

  /**
   *  @brief  Read a line from stream into a string.
   *  @param __is  Input stream.
   *  @param __str  Buffer to store into.
   *  @param __delim  Character marking end of line.
   *  @return  Reference to the input stream.
   *
   *  Stores characters from @a __is into @a __str until @a __delim is
   *  found, the end of the stream is encountered, or str.max_size()
   *  is reached.  Any previous contents of @a __str are erased.  If
   *  @a __delim is encountered, it is extracted but not stored into
   *  @a __str.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    basic_istream<_CharT, _Traits>&
    getline(basic_istream<_CharT, _Traits>& __is,
	    basic_string<_CharT, _Traits, _Alloc>& __str, _CharT __delim);

  /**
   *  @brief  Read a line from stream into a string.
   *  @param __is  Input stream.
   *  @param __str  Buffer to store into.
   *  @return  Reference to the input stream.
   *
   *  Stores characters from is into @a __str until &apos;\n&apos; is
   *  found, the end of the stream is encountered, or str.max_size()
   *  is reached.  Any previous contents of @a __str are erased.  If
   *  end of line is encountered, it is extracted but not stored into
   *  @a __str.
   */
  template<typename _CharT, typename _Traits, typename _Alloc>
    inline basic_istream<_CharT, _Traits>&
    getline(basic_istream<_CharT, _Traits>& __is,
	    basic_string<_CharT, _Traits, _Alloc>& __str)
    { return std::getline(__is, __str, __is.widen('\n')); }

#if __cplusplus >= 201103L
  /// Read a line from an rvalue stream into a string.
  template<typename _CharT, typename _Traits, typename _Alloc>
    inline basic_istream<_CharT, _Traits>&
    getline(basic_istream<_CharT, _Traits>&& __is,
	    basic_string<_CharT, _Traits, _Alloc>& __str, _CharT __delim)
    { return std::getline(__is, __str, __delim); }

  /// Read a line from an rvalue stream into a string.
  template<typename _CharT, typename _Traits, typename _Alloc>
    inline basic_istream<_CharT, _Traits>&
    getline(basic_istream<_CharT, _Traits>&& __is,
	    basic_string<_CharT, _Traits, _Alloc>& __str)
    { return std::getline(__is, __str); }
#endif

  template<>
    basic_istream<char>&
    getline(basic_istream<char>& __in, basic_string<char>& __str,
	    char __delim);

#ifdef _GLIBCXX_USE_WCHAR_T
  template<>
    basic_istream<wchar_t>&
    getline(basic_istream<wchar_t>& __in, basic_string<wchar_t>& __str,
	    wchar_t __delim);
#endif  

_GLIBCXX_END_NAMESPACE_VERSION
} // namespace

#if __cplusplus >= 201103L

#include <ext/string_conversions.h>
#include <bits/charconv.h>

namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
_GLIBCXX_BEGIN_NAMESPACE_CXX11

#if _GLIBCXX_USE_C99_STDLIB
  // 21.4 Numeric Conversions [string.conversions].
  inline int
  stoi(const string& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa<long, int>(&std::strtol, "stoi", __str.c_str(),
					__idx, __base); }

  inline long
  stol(const string& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::strtol, "stol", __str.c_str(),
			     __idx, __base); }

  inline unsigned long
  stoul(const string& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::strtoul, "stoul", __str.c_str(),
			     __idx, __base); }

  inline long long
  stoll(const string& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::strtoll, "stoll", __str.c_str(),
			     __idx, __base); }

  inline unsigned long long
  stoull(const string& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::strtoull, "stoull", __str.c_str(),
			     __idx, __base); }

  // NB: strtof vs strtod.
  inline float
  stof(const string& __str, size_t* __idx = 0)
  { return __gnu_cxx::__stoa(&std::strtof, "stof", __str.c_str(), __idx); }

  inline double
  stod(const string& __str, size_t* __idx = 0)
  { return __gnu_cxx::__stoa(&std::strtod, "stod", __str.c_str(), __idx); }

  inline long double
  stold(const string& __str, size_t* __idx = 0)
  { return __gnu_cxx::__stoa(&std::strtold, "stold", __str.c_str(), __idx); }
#endif // _GLIBCXX_USE_C99_STDLIB

  // DR 1261. Insufficent overloads for to_string / to_wstring

  _GLIBCXX_NODISCARD
  inline string
  to_string(int __val)
#if _GLIBCXX_USE_CXX11_ABI && (__CHAR_BIT__ * __SIZEOF_INT__) <= 32
  noexcept // any 32-bit value fits in the SSO buffer
#endif
  {
    const bool __neg = __val < 0;
    const unsigned __uval = __neg ? (unsigned)~__val + 1u : __val;
    const auto __len = __detail::__to_chars_len(__uval);
    string __str(__neg + __len, '-');
    __detail::__to_chars_10_impl(&__str[__neg], __len, __uval);
    return __str;
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(unsigned __val)
#if _GLIBCXX_USE_CXX11_ABI && (__CHAR_BIT__ * __SIZEOF_INT__) <= 32
  noexcept // any 32-bit value fits in the SSO buffer
#endif
  {
    string __str(__detail::__to_chars_len(__val), '\0');
    __detail::__to_chars_10_impl(&__str[0], __str.size(), __val);
    return __str;
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(long __val)
#if _GLIBCXX_USE_CXX11_ABI && (__CHAR_BIT__ * __SIZEOF_LONG__) <= 32
  noexcept // any 32-bit value fits in the SSO buffer
#endif
  {
    const bool __neg = __val < 0;
    const unsigned long __uval = __neg ? (unsigned long)~__val + 1ul : __val;
    const auto __len = __detail::__to_chars_len(__uval);
    string __str(__neg + __len, '-');
    __detail::__to_chars_10_impl(&__str[__neg], __len, __uval);
    return __str;
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(unsigned long __val)
#if _GLIBCXX_USE_CXX11_ABI && (__CHAR_BIT__ * __SIZEOF_LONG__) <= 32
  noexcept // any 32-bit value fits in the SSO buffer
#endif
  {
    string __str(__detail::__to_chars_len(__val), '\0');
    __detail::__to_chars_10_impl(&__str[0], __str.size(), __val);
    return __str;
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(long long __val)
  {
    const bool __neg = __val < 0;
    const unsigned long long __uval
      = __neg ? (unsigned long long)~__val + 1ull : __val;
    const auto __len = __detail::__to_chars_len(__uval);
    string __str(__neg + __len, '-');
    __detail::__to_chars_10_impl(&__str[__neg], __len, __uval);
    return __str;
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(unsigned long long __val)
  {
    string __str(__detail::__to_chars_len(__val), '\0');
    __detail::__to_chars_10_impl(&__str[0], __str.size(), __val);
    return __str;
  }

#if _GLIBCXX_USE_C99_STDIO
  // NB: (v)snprintf vs sprintf.

  _GLIBCXX_NODISCARD
  inline string
  to_string(float __val)
  {
    const int __n = 
      __gnu_cxx::__numeric_traits<float>::__max_exponent10 + 20;
    return __gnu_cxx::__to_xstring<string>(&std::vsnprintf, __n,
					   "%f", __val);
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(double __val)
  {
    const int __n = 
      __gnu_cxx::__numeric_traits<double>::__max_exponent10 + 20;
    return __gnu_cxx::__to_xstring<string>(&std::vsnprintf, __n,
					   "%f", __val);
  }

  _GLIBCXX_NODISCARD
  inline string
  to_string(long double __val)
  {
    const int __n = 
      __gnu_cxx::__numeric_traits<long double>::__max_exponent10 + 20;
    return __gnu_cxx::__to_xstring<string>(&std::vsnprintf, __n,
					   "%Lf", __val);
  }
#endif // _GLIBCXX_USE_C99_STDIO

#if defined(_GLIBCXX_USE_WCHAR_T) && _GLIBCXX_USE_C99_WCHAR
  inline int 
  stoi(const wstring& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa<long, int>(&std::wcstol, "stoi", __str.c_str(),
					__idx, __base); }

  inline long 
  stol(const wstring& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::wcstol, "stol", __str.c_str(),
			     __idx, __base); }

  inline unsigned long
  stoul(const wstring& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::wcstoul, "stoul", __str.c_str(),
			     __idx, __base); }

  inline long long
  stoll(const wstring& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::wcstoll, "stoll", __str.c_str(),
			     __idx, __base); }

  inline unsigned long long
  stoull(const wstring& __str, size_t* __idx = 0, int __base = 10)
  { return __gnu_cxx::__stoa(&std::wcstoull, "stoull", __str.c_str(),
			     __idx, __base); }

  // NB: wcstof vs wcstod.
  inline float
  stof(const wstring& __str, size_t* __idx = 0)
  { return __gnu_cxx::__stoa(&std::wcstof, "stof", __str.c_str(), __idx); }

  inline double
  stod(const wstring& __str, size_t* __idx = 0)
  { return __gnu_cxx::__stoa(&std::wcstod, "stod", __str.c_str(), __idx); }

  inline long double
  stold(const wstring& __str, size_t* __idx = 0)
  { return __gnu_cxx::__stoa(&std::wcstold, "stold", __str.c_str(), __idx); }

#ifndef _GLIBCXX_HAVE_BROKEN_VSWPRINTF
  // DR 1261.
  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(int __val)
  { return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf, 4 * sizeof(int),
					    L"%d", __val); }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(unsigned __val)
  { return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf,
					    4 * sizeof(unsigned),
					    L"%u", __val); }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(long __val)
  { return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf, 4 * sizeof(long),
					    L"%ld", __val); }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(unsigned long __val)
  { return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf,
					    4 * sizeof(unsigned long),
					    L"%lu", __val); }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(long long __val)
  { return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf,
					    4 * sizeof(long long),
					    L"%lld", __val); }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(unsigned long long __val)
  { return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf,
					    4 * sizeof(unsigned long long),
					    L"%llu", __val); }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(float __val)
  {
    const int __n =
      __gnu_cxx::__numeric_traits<float>::__max_exponent10 + 20;
    return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf, __n,
					    L"%f", __val);
  }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(double __val)
  {
    const int __n =
      __gnu_cxx::__numeric_traits<double>::__max_exponent10 + 20;
    return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf, __n,
					    L"%f", __val);
  }

  _GLIBCXX_NODISCARD
  inline wstring
  to_wstring(long double __val)
  {
    const int __n =
      __gnu_cxx::__numeric_traits<long double>::__max_exponent10 + 20;
    return __gnu_cxx::__to_xstring<wstring>(&std::vswprintf, __n,
					    L"%Lf", __val);
  }
#endif // _GLIBCXX_HAVE_BROKEN_VSWPRINTF
#endif // _GLIBCXX_USE_WCHAR_T && _GLIBCXX_USE_C99_WCHAR

_GLIBCXX_END_NAMESPACE_CXX11
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace

#endif /* C++11 */

#if __cplusplus >= 201103L

#include <bits/functional_hash.h>

namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION

  // _GLIBCXX_RESOLVE_LIB_DEFECTS
  // 3705. Hashability shouldn't depend on basic_string's allocator

  template<typename _CharT, typename _Alloc,
	   typename _StrT = basic_string<_CharT, char_traits<_CharT>, _Alloc>>
    struct __str_hash_base
    : public __hash_base<size_t, _StrT>
    {
      [[__nodiscard__]]
      size_t
      operator()(const _StrT& __s) const noexcept
      { return _Hash_impl::hash(__s.data(), __s.length() * sizeof(_CharT)); }
    };

#ifndef _GLIBCXX_COMPATIBILITY_CXX0X
  /// std::hash specialization for string.
  template<typename _Alloc>
    struct hash<basic_string<char, char_traits<char>, _Alloc>>
    : public __str_hash_base<char, _Alloc>
    { };

  /// std::hash specialization for wstring.
  template<typename _Alloc>
    struct hash<basic_string<wchar_t, char_traits<wchar_t>, _Alloc>>
    : public __str_hash_base<wchar_t, _Alloc>
    { };

  template<typename _Alloc>
    struct __is_fast_hash<hash<basic_string<wchar_t, char_traits<wchar_t>,
					    _Alloc>>>
    : std::false_type
    { };
#endif /* _GLIBCXX_COMPATIBILITY_CXX0X */

#ifdef _GLIBCXX_USE_CHAR8_T
  /// std::hash specialization for u8string.
  template<typename _Alloc>
    struct hash<basic_string<char8_t, char_traits<char8_t>, _Alloc>>
    : public __str_hash_base<char8_t, _Alloc>
    { };
#endif

  /// std::hash specialization for u16string.
  template<typename _Alloc>
    struct hash<basic_string<char16_t, char_traits<char16_t>, _Alloc>>
    : public __str_hash_base<char16_t, _Alloc>
    { };

  /// std::hash specialization for u32string.
  template<typename _Alloc>
    struct hash<basic_string<char32_t, char_traits<char32_t>, _Alloc>>
    : public __str_hash_base<char32_t, _Alloc>
    { };

#if ! _GLIBCXX_INLINE_VERSION
  // PR libstdc++/105907 - __is_fast_hash affects unordered container ABI.
  template<> struct __is_fast_hash<hash<string>> : std::false_type { };
  template<> struct __is_fast_hash<hash<wstring>> : std::false_type { };
  template<> struct __is_fast_hash<hash<u16string>> : std::false_type { };
  template<> struct __is_fast_hash<hash<u32string>> : std::false_type { };
#ifdef _GLIBCXX_USE_CHAR8_T
  template<> struct __is_fast_hash<hash<u8string>> : std::false_type { };
#endif
#else
  // For versioned namespace, assume every std::hash<basic_string<>> is slow.
  template<typename _CharT, typename _Traits, typename _Alloc>
    struct __is_fast_hash<hash<basic_string<_CharT, _Traits, _Alloc>>>
    : std::false_type
    { };
#endif

#if __cplusplus >= 201402L

#define __cpp_lib_string_udls 201304L

  inline namespace literals
  {
  inline namespace string_literals
  {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wliteral-suffix"

#if __cpp_lib_constexpr_string >= 201907L
# define _GLIBCXX_STRING_CONSTEXPR
#else
# define _GLIBCXX_STRING_CONSTEXPR
#endif

    _GLIBCXX_DEFAULT_ABI_TAG _GLIBCXX_STRING_CONSTEXPR
    inline basic_string<char>
    operator""s(const char* __str, size_t __len)
    { return basic_string<char>{__str, __len}; }

    _GLIBCXX_DEFAULT_ABI_TAG _GLIBCXX_STRING_CONSTEXPR
    inline basic_string<wchar_t>
    operator""s(const wchar_t* __str, size_t __len)
    { return basic_string<wchar_t>{__str, __len}; }

#ifdef _GLIBCXX_USE_CHAR8_T
    _GLIBCXX_DEFAULT_ABI_TAG _GLIBCXX_STRING_CONSTEXPR
    inline basic_string<char8_t>
    operator""s(const char8_t* __str, size_t __len)
    { return basic_string<char8_t>{__str, __len}; }
#endif

    _GLIBCXX_DEFAULT_ABI_TAG _GLIBCXX_STRING_CONSTEXPR
    inline basic_string<char16_t>
    operator""s(const char16_t* __str, size_t __len)
    { return basic_string<char16_t>{__str, __len}; }

    _GLIBCXX_DEFAULT_ABI_TAG _GLIBCXX_STRING_CONSTEXPR
    inline basic_string<char32_t>
    operator""s(const char32_t* __str, size_t __len)
    { return basic_string<char32_t>{__str, __len}; }

#undef _GLIBCXX_STRING_CONSTEXPR
#pragma GCC diagnostic pop
  } // inline namespace string_literals
  } // inline namespace literals

#if __cplusplus >= 201703L
  namespace __detail::__variant
  {
    template<typename> struct _Never_valueless_alt; // see <variant>

    // Provide the strong exception-safety guarantee when emplacing a
    // basic_string into a variant, but only if moving the string cannot throw.
    template<typename _Tp, typename _Traits, typename _Alloc>
      struct _Never_valueless_alt<std::basic_string<_Tp, _Traits, _Alloc>>
      : __and_<
	is_nothrow_move_constructible<std::basic_string<_Tp, _Traits, _Alloc>>,
	is_nothrow_move_assignable<std::basic_string<_Tp, _Traits, _Alloc>>
	>::type
      { };
  }  // namespace __detail::__variant
#endif // C++17
#endif // C++14

_GLIBCXX_END_NAMESPACE_VERSION
} // namespace std

#endif // C++11

#endif /* _BASIC_STRING_H */
