    // ---- verification model of std::basic_string (contract model: exact size, contents, NUL terminator) ----
    class basic_string
    {
    public:
      typedef _Traits traits_type;
      typedef _CharT value_type;
      typedef _Alloc allocator_type;
      typedef size_t size_type;
      typedef ptrdiff_t difference_type;
      typedef _CharT& reference;
      typedef const _CharT& const_reference;
      typedef _CharT* pointer;
      typedef const _CharT* const_pointer;
      typedef __gnu_cxx::__normal_iterator<pointer, basic_string> iterator;
      typedef __gnu_cxx::__normal_iterator<const_pointer, basic_string> const_iterator;
      typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
      typedef std::reverse_iterator<iterator> reverse_iterator;
      static const size_type npos = static_cast<size_type>(-1);
    private:
      _CharT* _M_p;
      size_type _M_n;
      typedef basic_string_view<_CharT, _Traits> __sv_type;
      template<typename _Tp, typename _Res>
        using _If_sv = enable_if_t<__and_<is_convertible<const _Tp&, __sv_type>,
              __not_<is_convertible<const _Tp*, const basic_string*>>,
              __not_<is_convertible<const _Tp&, const _CharT*>>>::value, _Res>;
      void __alloc0() { _M_p = (_CharT*)__vf_alloc(0); _M_n = 0; }
      static void __cp(_CharT* __d, const _CharT* __s, size_type __n) { __builtin_memmove((void*)__d, (const void*)__s, __n * sizeof(_CharT)); }
      static void __st(_CharT* __d, size_type __n, _CharT __c)
      {
        if constexpr (sizeof(_CharT) == 1) __builtin_memset((void*)__d, (unsigned char)__c, __n);
        else for (size_type __i = 0; __i < __n; ++__i) __d[__i] = __c;
      }
      // the terminator exists while somebody looks at it: storage is exactly size() (+1 after c_str())
      void __term() const { __vf_resize(_M_p, (_M_n + 1) * sizeof(_CharT)); _M_p[_M_n] = _CharT(); }
      void __setlen(size_type __n)
      { __vf_resize(_M_p, __n * sizeof(_CharT)); _M_n = __n; }
      void __init(const _CharT* __s, size_type __n)
      { _M_p = (_CharT*)__vf_alloc(__n * sizeof(_CharT)); _M_n = __n; __cp(_M_p, __s, __n); }
    public:
      _CharT* __vf_p() const { return _M_p; }
      void __vf_uninit(size_type __n) { __setlen(__n); }
      bool __vf_same(const basic_string& __o) const { return _M_n == __o._M_n && __builtin_memcmp(_M_p, __o._M_p, _M_n * sizeof(_CharT)) == 0; }
    private:
    public:
      basic_string() { __alloc0(); }
      explicit basic_string(const _Alloc&) { __alloc0(); }
      basic_string(const basic_string& __o) { __init(__o._M_p, __o._M_n); }
      basic_string(const basic_string& __o, const _Alloc&) { __init(__o._M_p, __o._M_n); }
      basic_string(const basic_string& __o, size_type __pos, size_type __n = npos)
      { __o.__chk(__pos); __init(__o._M_p + __pos, __o.__lim(__pos, __n)); }
      basic_string(const basic_string& __o, size_type __pos, const _Alloc&)
      { __o.__chk(__pos); __init(__o._M_p + __pos, __o.__lim(__pos, npos)); }
      basic_string(const basic_string& __o, size_type __pos, size_type __n, const _Alloc&)
      { __o.__chk(__pos); __init(__o._M_p + __pos, __o.__lim(__pos, __n)); }
      basic_string(const _CharT* __s, size_type __n, const _Alloc& = _Alloc()) { __init(__s, __n); }
      template<typename = _RequireAllocator<_Alloc>>
      basic_string(const _CharT* __s, const _Alloc& = _Alloc()) { __init(__s, _Traits::length(__s)); }
      template<typename = _RequireAllocator<_Alloc>>
      basic_string(size_type __n, _CharT __c, const _Alloc& = _Alloc())
      { __alloc0(); __setlen(__n); __st(_M_p, __n, __c); }
      basic_string(basic_string&& __o) noexcept : _M_p(__o._M_p), _M_n(__o._M_n) { __o.__alloc0(); }
      basic_string(basic_string&& __o, const _Alloc&) noexcept : _M_p(__o._M_p), _M_n(__o._M_n) { __o.__alloc0(); }
      basic_string(initializer_list<_CharT> __l, const _Alloc& = _Alloc()) { __init(__l.begin(), __l.size()); }
      basic_string(nullptr_t) = delete;
      template<typename _It, typename = std::_RequireInputIter<_It>>
      basic_string(_It __b, _It __e, const _Alloc& = _Alloc()) { __alloc0(); __app(__b, __e); }
      template<typename _Tp, typename = _If_sv<_Tp, void>>
      basic_string(const _Tp& __t, size_type __pos, size_type __n, const _Alloc& = _Alloc())
      { __sv_type __v = __t; __v = __v.substr(__pos, __n); __init(__v.data(), __v.size()); }
      template<typename _Tp, typename = _If_sv<_Tp, void>>
      explicit basic_string(const _Tp& __t, const _Alloc& = _Alloc())
      { __sv_type __v = __t; __init(__v.data(), __v.size()); }
      ~basic_string() { __vf_free(_M_p); }
      basic_string& operator=(const basic_string& __o) { if (this != &__o) return assign(__o._M_p, __o._M_n); return *this; }
      basic_string& operator=(const _CharT* __s) { return assign(__s); }
      basic_string& operator=(_CharT __c) { return assign(1, __c); }
      basic_string& operator=(basic_string&& __o) noexcept
      { if (this != &__o) { __vf_free(_M_p); _M_p = __o._M_p; _M_n = __o._M_n; __o.__alloc0(); } return *this; }
      basic_string& operator=(initializer_list<_CharT> __l) { return assign(__l.begin(), __l.size()); }
      template<typename _Tp> _If_sv<_Tp, basic_string&> operator=(const _Tp& __t) { return assign(__t); }
      operator __sv_type() const noexcept { return __sv_type(_M_p, _M_n); }
      iterator begin() noexcept { return iterator(_M_p); }
      const_iterator begin() const noexcept { return const_iterator(_M_p); }
      iterator end() noexcept { return iterator(_M_p + _M_n); }
      const_iterator end() const noexcept { return const_iterator(_M_p + _M_n); }
      reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
      const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
      reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
      const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
      const_iterator cbegin() const noexcept { return begin(); }
      const_iterator cend() const noexcept { return end(); }
      size_type size() const noexcept { return _M_n; }
      size_type length() const noexcept { return _M_n; }
      size_type max_size() const noexcept { return (size_type(-1) >> 1) / sizeof(_CharT) - 1; }
      size_type capacity() const noexcept { return _M_n; }
      bool empty() const noexcept { return _M_n == 0; }
      void resize(size_type __n, _CharT __c = _CharT())
      { size_type __o = _M_n; __setlen(__n); if (__n > __o) __st(_M_p + __o, __n - __o, __c); }
      void shrink_to_fit() noexcept {}
      void reserve(size_type) {}
      void reserve() {}
      void clear() noexcept { __setlen(0); }
      reference operator[](size_type __i) { if (__i >= _M_n) { __vf_require(__i == _M_n, "string index in range"); __term(); } return _M_p[__i]; }
      const_reference operator[](size_type __i) const { if (__i >= _M_n) { __vf_require(__i == _M_n, "string index in range"); __term(); } return _M_p[__i]; }
      reference at(size_type __i) { if (__i >= _M_n) std::__throw_out_of_range("at"); return _M_p[__i]; }
      const_reference at(size_type __i) const { if (__i >= _M_n) std::__throw_out_of_range("at"); return _M_p[__i]; }
      reference front() { __vf_require(_M_n != 0, "string not empty"); return _M_p[0]; }
      const_reference front() const { __vf_require(_M_n != 0, "string not empty"); return _M_p[0]; }
      reference back() { __vf_require(_M_n != 0, "string not empty"); return _M_p[_M_n - 1]; }
      const_reference back() const { __vf_require(_M_n != 0, "string not empty"); return _M_p[_M_n - 1]; }
      basic_string& operator+=(const basic_string& __s) { return append(__s._M_p, __s._M_n); }
      basic_string& operator+=(const _CharT* __s) { return append(__s); }
      basic_string& operator+=(_CharT __c) { push_back(__c); return *this; }
      basic_string& operator+=(initializer_list<_CharT> __l) { return append(__l.begin(), __l.size()); }
      template<typename _Tp> _If_sv<_Tp, basic_string&> operator+=(const _Tp& __t) { return append(__t); }
      basic_string& append(const basic_string& __s) { return append(__s._M_p, __s._M_n); }
      basic_string& append(const basic_string& __s, size_type __pos, size_type __n = npos)
      { __s.__chk(__pos); return append(__s._M_p + __pos, __s.__lim(__pos, __n)); }
      basic_string& append(const _CharT* __s, size_type __n)
      { size_type __o = _M_n; __setlen(__o + __n); __cp(_M_p + __o, __s, __n); return *this; }
      basic_string& append(const _CharT* __s) { return append(__s, _Traits::length(__s)); }
      basic_string& append(size_type __n, _CharT __c)
      { size_type __o = _M_n; __setlen(__o + __n); __st(_M_p + __o, __n, __c); return *this; }
      basic_string& append(initializer_list<_CharT> __l) { return append(__l.begin(), __l.size()); }
      template<typename _It, typename = std::_RequireInputIter<_It>>
      basic_string& append(_It __b, _It __e) { __app(__b, __e); return *this; }
      template<typename _Tp> _If_sv<_Tp, basic_string&> append(const _Tp& __t) { __sv_type __v = __t; return append(__v.data(), __v.size()); }
      void push_back(_CharT __c) { size_type __o = _M_n; __setlen(__o + 1); _M_p[__o] = __c; }
      void pop_back() { __vf_require(_M_n != 0, "string not empty"); __setlen(_M_n - 1); }
      basic_string& assign(const basic_string& __s) { return *this = __s; }
      basic_string& assign(basic_string&& __s) { return *this = std::move(__s); }
      basic_string& assign(const basic_string& __s, size_type __pos, size_type __n = npos)
      { __s.__chk(__pos); return assign(__s._M_p + __pos, __s.__lim(__pos, __n)); }
      basic_string& assign(const _CharT* __s, size_type __n)
      { _CharT* __q = _M_p; __init(__s, __n); __vf_free(__q); return *this; }
      basic_string& assign(const _CharT* __s) { return assign(__s, _Traits::length(__s)); }
      basic_string& assign(size_type __n, _CharT __c) { __setlen(__n); __st(_M_p, __n, __c); return *this; }
      template<typename _It, typename = std::_RequireInputIter<_It>>
      basic_string& assign(_It __b, _It __e) { basic_string __t(__b, __e); swap(__t); return *this; }
      basic_string& assign(initializer_list<_CharT> __l) { return assign(__l.begin(), __l.size()); }
      template<typename _Tp> _If_sv<_Tp, basic_string&> assign(const _Tp& __t) { __sv_type __v = __t; return assign(__v.data(), __v.size()); }
      basic_string& insert(size_type __pos, const _CharT* __s, size_type __n)
      { return replace(__pos, 0, __s, __n); }
      basic_string& insert(size_type __pos, const basic_string& __s) { return replace(__pos, 0, __s._M_p, __s._M_n); }
      basic_string& insert(size_type __pos, const _CharT* __s) { return replace(__pos, 0, __s, _Traits::length(__s)); }
      basic_string& insert(size_type __pos, size_type __n, _CharT __c) { basic_string __t(__n, __c); return replace(__pos, 0, __t._M_p, __n); }
      iterator insert(const_iterator __p, _CharT __c)
      { size_type __o = __p - begin(); insert(__o, 1, __c); return begin() + __o; }
      template<typename _It, typename = std::_RequireInputIter<_It>>
      iterator insert(const_iterator __p, _It __b, _It __e)
      { size_type __o = __p - cbegin(); basic_string __t(__b, __e); insert(__o, __t); return begin() + __o; }
      basic_string& erase(size_type __pos = 0, size_type __n = npos)
      { __chk(__pos); return replace(__pos, __lim(__pos, __n), _M_p, 0); }
      iterator erase(const_iterator __p) { size_type __o = __p - cbegin(); erase(__o, 1); return begin() + __o; }
      iterator erase(const_iterator __b, const_iterator __e)
      { size_type __o = __b - cbegin(); erase(__o, __e - __b); return begin() + __o; }
      basic_string& replace(size_type __pos, size_type __n1, const _CharT* __s, size_type __n2)
      {
        __chk(__pos); __n1 = __lim(__pos, __n1);
        size_type __tail = _M_n - __pos - __n1;
        basic_string __t;
        __t.__setlen(__pos + __n2 + __tail);
        __cp(__t._M_p, _M_p, __pos);
        __cp(__t._M_p + __pos, __s, __n2);
        __cp(__t._M_p + __pos + __n2, _M_p + __pos + __n1, __tail);
        swap(__t);
        return *this;
      }
      basic_string& replace(size_type __pos, size_type __n, const basic_string& __s) { return replace(__pos, __n, __s._M_p, __s._M_n); }
      basic_string& replace(size_type __pos, size_type __n, const _CharT* __s) { return replace(__pos, __n, __s, _Traits::length(__s)); }
      basic_string& replace(size_type __pos, size_type __n, size_type __n2, _CharT __c) { basic_string __t(__n2, __c); return replace(__pos, __n, __t); }
      basic_string& replace(const_iterator __b, const_iterator __e, const basic_string& __s) { return replace(__b - cbegin(), __e - __b, __s); }
      size_type copy(_CharT* __d, size_type __n, size_type __pos = 0) const
      { __chk(__pos); __n = __lim(__pos, __n); __cp(__d, _M_p + __pos, __n); return __n; }
      void swap(basic_string& __o) noexcept
      { _CharT* __p = _M_p; size_type __n = _M_n; _M_p = __o._M_p; _M_n = __o._M_n; __o._M_p = __p; __o._M_n = __n; }
      const _CharT* c_str() const noexcept { __term(); return _M_p; }
      const _CharT* data() const noexcept { __term(); return _M_p; }
      _CharT* data() noexcept { __term(); return _M_p; }
      allocator_type get_allocator() const noexcept { return allocator_type(); }
      size_type find(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      {
        if (__n == 0) return __pos <= _M_n ? __pos : npos;
        for (size_type __i = __pos; __i < _M_n && __n <= _M_n - __i; ++__i)
          if (_Traits::compare(_M_p + __i, __s, __n) == 0) return __i;
        return npos;
      }
      size_type find(const basic_string& __s, size_type __pos = 0) const noexcept { return find(__s._M_p, __pos, __s._M_n); }
      size_type find(const _CharT* __s, size_type __pos = 0) const noexcept { return find(__s, __pos, _Traits::length(__s)); }
      size_type find(_CharT __c, size_type __pos = 0) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (_M_p[__i] == __c) return __i; return npos; }
      template<typename _Tp> _If_sv<_Tp, size_type> find(const _Tp& __t, size_type __pos = 0) const noexcept
      { __sv_type __v = __t; return find(__v.data(), __pos, __v.size()); }
      size_type rfind(_CharT __c, size_type __pos = npos) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (_M_p[__i] == __c) return __i; } return npos; }
      size_type rfind(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      {
        if (__n > _M_n) return npos;
        size_type __i = _M_n - __n; if (__pos < __i) __i = __pos;
        do { if (_Traits::compare(_M_p + __i, __s, __n) == 0) return __i; } while (__i-- > 0);
        return npos;
      }
      size_type rfind(const basic_string& __s, size_type __pos = npos) const noexcept { return rfind(__s._M_p, __pos, __s._M_n); }
      size_type rfind(const _CharT* __s, size_type __pos = npos) const noexcept { return rfind(__s, __pos, _Traits::length(__s)); }
      size_type find_first_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (_Traits::find(__s, __n, _M_p[__i])) return __i; return npos; }
      size_type find_first_of(const basic_string& __s, size_type __pos = 0) const noexcept { return find_first_of(__s._M_p, __pos, __s._M_n); }
      size_type find_first_of(const _CharT* __s, size_type __pos = 0) const noexcept { return find_first_of(__s, __pos, _Traits::length(__s)); }
      size_type find_first_of(_CharT __c, size_type __pos = 0) const noexcept { return find(__c, __pos); }
      size_type find_last_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (_Traits::find(__s, __n, _M_p[__i])) return __i; } return npos; }
      size_type find_last_of(const basic_string& __s, size_type __pos = npos) const noexcept { return find_last_of(__s._M_p, __pos, __s._M_n); }
      size_type find_last_of(const _CharT* __s, size_type __pos = npos) const noexcept { return find_last_of(__s, __pos, _Traits::length(__s)); }
      size_type find_last_of(_CharT __c, size_type __pos = npos) const noexcept { return rfind(__c, __pos); }
      size_type find_first_not_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (!_Traits::find(__s, __n, _M_p[__i])) return __i; return npos; }
      size_type find_first_not_of(const basic_string& __s, size_type __pos = 0) const noexcept { return find_first_not_of(__s._M_p, __pos, __s._M_n); }
      size_type find_first_not_of(const _CharT* __s, size_type __pos = 0) const noexcept { return find_first_not_of(__s, __pos, _Traits::length(__s)); }
      size_type find_first_not_of(_CharT __c, size_type __pos = 0) const noexcept
      { for (size_type __i = __pos; __i < _M_n; ++__i) if (_M_p[__i] != __c) return __i; return npos; }
      size_type find_last_not_of(const _CharT* __s, size_type __pos, size_type __n) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (!_Traits::find(__s, __n, _M_p[__i])) return __i; } return npos; }
      size_type find_last_not_of(const basic_string& __s, size_type __pos = npos) const noexcept { return find_last_not_of(__s._M_p, __pos, __s._M_n); }
      size_type find_last_not_of(const _CharT* __s, size_type __pos = npos) const noexcept { return find_last_not_of(__s, __pos, _Traits::length(__s)); }
      size_type find_last_not_of(_CharT __c, size_type __pos = npos) const noexcept
      { size_type __i = _M_n; if (__pos < __i) __i = __pos + 1; while (__i > 0) { --__i; if (_M_p[__i] != __c) return __i; } return npos; }
      basic_string substr(size_type __pos = 0, size_type __n = npos) const
      { __chk(__pos); return basic_string(_M_p + __pos, __lim(__pos, __n)); }
      static int __cmp(const _CharT* __a, size_type __n, const _CharT* __b, size_type __m)
      {
        size_type __l = __n < __m ? __n : __m;
        int __r;
        if constexpr (sizeof(_CharT) == 1) __r = __builtin_memcmp(__a, __b, __l); else __r = __l ? _Traits::compare(__a, __b, __l) : 0;
        if (__r == 0) __r = __n < __m ? -1 : (__n > __m ? 1 : 0);
        return __r;
      }
      int compare(const basic_string& __s) const { return __cmp(_M_p, _M_n, __s._M_p, __s._M_n); }
      int compare(size_type __pos, size_type __n, const basic_string& __s) const
      { __chk(__pos); return __cmp(_M_p + __pos, __lim(__pos, __n), __s._M_p, __s._M_n); }
      int compare(const _CharT* __s) const noexcept { return __cmp(_M_p, _M_n, __s, _Traits::length(__s)); }
      int compare(size_type __pos, size_type __n, const _CharT* __s) const
      { __chk(__pos); return __cmp(_M_p + __pos, __lim(__pos, __n), __s, _Traits::length(__s)); }
      int compare(size_type __pos, size_type __n, const _CharT* __s, size_type __m) const
      { __chk(__pos); return __cmp(_M_p + __pos, __lim(__pos, __n), __s, __m); }
      template<typename _Tp> _If_sv<_Tp, int> compare(const _Tp& __t) const { __sv_type __v = __t; return __cmp(_M_p, _M_n, __v.data(), __v.size()); }
      bool starts_with(__sv_type __x) const noexcept { return __sv_type(_M_p, _M_n).starts_with(__x); }
      bool starts_with(_CharT __x) const noexcept { return _M_n && _M_p[0] == __x; }
      bool starts_with(const _CharT* __x) const noexcept { return __sv_type(_M_p, _M_n).starts_with(__x); }
      bool ends_with(__sv_type __x) const noexcept { return __sv_type(_M_p, _M_n).ends_with(__x); }
      bool ends_with(_CharT __x) const noexcept { return _M_n && _M_p[_M_n - 1] == __x; }
      bool ends_with(const _CharT* __x) const noexcept { return __sv_type(_M_p, _M_n).ends_with(__x); }
      void __chk(size_type __pos) const { if (__pos > _M_n) std::__throw_out_of_range("basic_string"); }
      size_type __lim(size_type __pos, size_type __n) const noexcept { size_type __r = _M_n - __pos; return __n < __r ? __n : __r; }
      template<typename _It> void __app(_It __b, _It __e)
      {
        if constexpr (is_same<_It, iterator>::value || is_same<_It, const_iterator>::value)
          { append(static_cast<const _CharT*>(__b.base()), size_type(__e - __b)); }
        else if constexpr (is_convertible<_It, const _CharT*>::value)
          { append(static_cast<const _CharT*>(__b), size_type(__e - __b)); }
        else
          for (; __b != __e; ++__b) push_back(*__b);
      }
      template<typename, typename, typename> friend class basic_stringbuf;
    };
