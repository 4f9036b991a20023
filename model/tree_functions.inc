
  // ---- verification model: search tree without rebalancing (every node but the header is black) ----
  inline _Rb_tree_node_base* __vf_next(_Rb_tree_node_base* __x)
  {
    if (__x->_M_right) { __x = __x->_M_right; while (__x->_M_left) __x = __x->_M_left; return __x; }
    _Rb_tree_node_base* __y = __x->_M_parent;
    while (__x == __y->_M_right) { __x = __y; __y = __y->_M_parent; }
    return __x->_M_right != __y ? __y : __x;
  }
  inline _Rb_tree_node_base* __vf_prev(_Rb_tree_node_base* __x)
  {
    if (__x->_M_color == _S_red && __x->_M_parent->_M_parent == __x) return __x->_M_right;
    if (__x->_M_left) { __x = __x->_M_left; while (__x->_M_right) __x = __x->_M_right; return __x; }
    _Rb_tree_node_base* __y = __x->_M_parent;
    while (__x == __y->_M_left) { __x = __y; __y = __y->_M_parent; }
    return __y;
  }
  inline _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* __x) throw () { return __vf_next(__x); }
  inline const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* __x) throw () { return __vf_next(const_cast<_Rb_tree_node_base*>(__x)); }
  inline _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* __x) throw () { return __vf_prev(__x); }
  inline const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* __x) throw () { return __vf_prev(const_cast<_Rb_tree_node_base*>(__x)); }
  inline void _Rb_tree_insert_and_rebalance(const bool __left, _Rb_tree_node_base* __x, _Rb_tree_node_base* __p, _Rb_tree_node_base& __h) throw ()
  {
    __x->_M_parent = __p;
    __x->_M_left = __x->_M_right = nullptr;
    __x->_M_color = _S_black;
    if (__left) {
      __p->_M_left = __x;
      if (__p == &__h) { __h._M_parent = __x; __h._M_right = __x; }
      else if (__p == __h._M_left) __h._M_left = __x;
    } else {
      __p->_M_right = __x;
      if (__p == __h._M_right) __h._M_right = __x;
    }
  }
  inline _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const __z, _Rb_tree_node_base& __h) throw ()
  {
    _Rb_tree_node_base* __y = __z;
    _Rb_tree_node_base* __x;
    if (!__y->_M_left) __x = __y->_M_right;
    else if (!__y->_M_right) __x = __y->_M_left;
    else { __y = __y->_M_right; while (__y->_M_left) __y = __y->_M_left; __x = __y->_M_right; }
    if (__y != __z) {
      __z->_M_left->_M_parent = __y;
      __y->_M_left = __z->_M_left;
      if (__y != __z->_M_right) {
        if (__x) __x->_M_parent = __y->_M_parent;
        __y->_M_parent->_M_left = __x;
        __y->_M_right = __z->_M_right;
        __z->_M_right->_M_parent = __y;
      }
      if (__h._M_parent == __z) __h._M_parent = __y;
      else if (__z->_M_parent->_M_left == __z) __z->_M_parent->_M_left = __y;
      else __z->_M_parent->_M_right = __y;
      __y->_M_parent = __z->_M_parent;
    } else {
      if (__x) __x->_M_parent = __y->_M_parent;
      if (__h._M_parent == __z) __h._M_parent = __x;
      else if (__z->_M_parent->_M_left == __z) __z->_M_parent->_M_left = __x;
      else __z->_M_parent->_M_right = __x;
      if (__h._M_left == __z) {
        if (!__z->_M_right) __h._M_left = __z->_M_parent;
        else { while (__x->_M_left) __x = __x->_M_left; __h._M_left = __x; }
      }
      __x = __h._M_parent == nullptr ? nullptr : __z->_M_left;
      if (__h._M_right == __z) {
        if (!__z->_M_left) __h._M_right = __z->_M_parent;
        else { while (__x->_M_right) __x = __x->_M_right; __h._M_right = __x; }
      }
    }
    return __z;
  }
