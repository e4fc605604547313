// Library pieces that live in libstdc++.so, compiled to bitcode so that the
// symbolic executor runs them as ordinary code.  Not part of the native replay.
#include <cctype>
#include <cstdlib>
#include <string>
#include <map>
#include <list>
#include <system_error>
#include <unordered_map>
template class std::basic_string<char>;
extern "C" {
// integers written as text
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long long text(const char *p, char **e, int b, bool &neg) {
  const char *s = p; neg = false;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((b == 0 || b == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) { p += 2; b = 16; }
  else if (b == 0) b = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false;
  while (digit(*p) < b) { v = v * b + digit(*p++); any = true; }
  if (e) *e = const_cast<char *>(any ? p : s);
  return v;
}
#define TEXT(T, name) T name(const char *p, char **e, int b) noexcept { bool n; T v = (T)text(p, e, b, n); return n ? -v : v; }
TEXT(long, __isoc23_strtol) TEXT(long long, __isoc23_strtoll) TEXT(unsigned long, __isoc23_strtoul) TEXT(unsigned long long, __isoc23_strtoull)
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return isupper(c) || islower(c); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isxdigit(int c) noexcept { return digit((char)c) < 16; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
div_t div(int a, int b) noexcept { return {a / b, a % b}; }
int atoi(const char *p) noexcept { return (int)__isoc23_strtol(p, nullptr, 10); }
TEXT(long, __isoc99_strtol) TEXT(unsigned long, __isoc99_strtoul)
}
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// ordered binary tree without rebalancing: same observable map behaviour.  The header
// keeps leftmost/rightmost/root; the root is painted black and all others black too, the
// header red, as _Rb_tree_decrement expects.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto link = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  _Rb_tree_node_base *nl = h._M_left, *nr = h._M_right;
  if (nl == z) nl = _Rb_tree_increment(z);
  if (nr == z) nr = (h._M_left == z) ? &h : _Rb_tree_decrement(z);
  if (!z->_M_left) link(z, z->_M_right);
  else if (!z->_M_right) link(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { link(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    link(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  h._M_left = nl; h._M_right = nr;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t k = 13; while (k < n) k = k * 2 + 1; _M_next_resize = k; return k; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > _M_next_resize) { std::size_t k = _M_next_bkt(ne + ni > nb * 2 ? ne + ni : nb * 2); return {true, k}; }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 131 + ((const unsigned char *)p)[i]; return h; }
namespace {
struct FakeCat final : std::error_category {
  const char *name() const noexcept override { return "category"; }
  std::string message(int) const override { return std::string(); }
};
}
inline namespace _V2 {
const error_category &generic_category() noexcept { static FakeCat c; return c; }
const error_category &system_category() noexcept { static FakeCat c; return c; }
error_category::~error_category() = default;
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, generic_category()); }
std::__cow_string error_category::_M_message(int) const { __builtin_trap(); }
}
}  // namespace std
