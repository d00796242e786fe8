// Red-black tree primitives of libstdc++, compiled together with the library
// under test, so that accesses to released map nodes are seen by the memory
// checker (the copies inside libstdc++.so are not instrumented).
#include <map>

namespace std {

namespace {
typedef _Rb_tree_node_base N;

N* inc(N* x) {
  if(x->_M_right != nullptr) {
    x = x->_M_right;
    while(x->_M_left != nullptr) x = x->_M_left;
  } else {
    N* y = x->_M_parent;
    while(x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if(x->_M_right != y) x = y;
  }
  return x;
}
N* dec(N* x) {
  if(x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if(x->_M_left != nullptr) {
    N* y = x->_M_left;
    while(y->_M_right != nullptr) y = y->_M_right;
    x = y;
  } else {
    N* y = x->_M_parent;
    while(x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
void rot_left(N* x, N*& root) {
  N* y = x->_M_right;
  x->_M_right = y->_M_left;
  if(y->_M_left != nullptr) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if(x == root)
    root = y;
  else if(x == x->_M_parent->_M_left)
    x->_M_parent->_M_left = y;
  else
    x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
void rot_right(N* x, N*& root) {
  N* y = x->_M_left;
  x->_M_left = y->_M_right;
  if(y->_M_right != nullptr) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if(x == root)
    root = y;
  else if(x == x->_M_parent->_M_right)
    x->_M_parent->_M_right = y;
  else
    x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
} // namespace

N* _Rb_tree_increment(N* x) noexcept { return inc(x); }
const N* _Rb_tree_increment(const N* x) noexcept { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) noexcept { return dec(x); }
const N* _Rb_tree_decrement(const N* x) noexcept { return dec(const_cast<N*>(x)); }

void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& header) noexcept {
  N*& root = header._M_parent;
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_red;
  if(left) {
    p->_M_left = x;
    if(p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if(p == header._M_left)
      header._M_left = x;
  } else {
    p->_M_right = x;
    if(p == header._M_right) header._M_right = x;
  }
  while(x != root && x->_M_parent->_M_color == _S_red) {
    N* const xpp = x->_M_parent->_M_parent;
    if(x->_M_parent == xpp->_M_left) {
      N* const y = xpp->_M_right;
      if(y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if(x == x->_M_parent->_M_right) {
          x = x->_M_parent;
          rot_left(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rot_right(xpp, root);
      }
    } else {
      N* const y = xpp->_M_left;
      if(y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if(x == x->_M_parent->_M_left) {
          x = x->_M_parent;
          rot_right(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rot_left(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}

N* _Rb_tree_rebalance_for_erase(N* const z, N& header) noexcept {
  N*& root = header._M_parent;
  N*& leftmost = header._M_left;
  N*& rightmost = header._M_right;
  N* y = z;
  N* x = nullptr;
  N* xp = nullptr;
  if(y->_M_left == nullptr)
    x = y->_M_right;
  else if(y->_M_right == nullptr)
    x = y->_M_left;
  else {
    y = y->_M_right;
    while(y->_M_left != nullptr) y = y->_M_left;
    x = y->_M_right;
  }
  if(y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if(y != z->_M_right) {
      xp = y->_M_parent;
      if(x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if(root == z)
      root = y;
    else if(z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = y;
    else
      z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color c = y->_M_color;
    y->_M_color = z->_M_color;
    z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if(x) x->_M_parent = y->_M_parent;
    if(root == z)
      root = x;
    else if(z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = x;
    else
      z->_M_parent->_M_right = x;
    if(leftmost == z) {
      if(z->_M_right == nullptr)
        leftmost = z->_M_parent;
      else {
        N* w = x;
        while(w->_M_left != nullptr) w = w->_M_left;
        leftmost = w;
      }
    }
    if(rightmost == z) {
      if(z->_M_left == nullptr)
        rightmost = z->_M_parent;
      else {
        N* w = x;
        while(w->_M_right != nullptr) w = w->_M_right;
        rightmost = w;
      }
    }
  }
  if(y->_M_color != _S_red) {
    while(x != root && (x == nullptr || x->_M_color == _S_black))
      if(x == xp->_M_left) {
        N* w = xp->_M_right;
        if(w->_M_color == _S_red) {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rot_left(xp, root);
          w = xp->_M_right;
        }
        if((w->_M_left == nullptr || w->_M_left->_M_color == _S_black) &&
           (w->_M_right == nullptr || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        } else {
          if(w->_M_right == nullptr || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black;
            w->_M_color = _S_red;
            rot_right(w, root);
            w = xp->_M_right;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if(w->_M_right) w->_M_right->_M_color = _S_black;
          rot_left(xp, root);
          break;
        }
      } else {
        N* w = xp->_M_left;
        if(w->_M_color == _S_red) {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rot_right(xp, root);
          w = xp->_M_left;
        }
        if((w->_M_right == nullptr || w->_M_right->_M_color == _S_black) &&
           (w->_M_left == nullptr || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        } else {
          if(w->_M_left == nullptr || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black;
            w->_M_color = _S_red;
            rot_left(w, root);
            w = xp->_M_left;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if(w->_M_left) w->_M_left->_M_color = _S_black;
          rot_right(xp, root);
          break;
        }
      }
    if(x) x->_M_color = _S_black;
  }
  return y;
}
} // namespace std
