// Models of the non-template parts of libstdc++ and of the C++ ABI. Everything that is a template in
// libstdc++ (string, vector, map, stringstream, ...) is executed from its real headers.
#include <sstream>
#include <ostream>
#include <map>
#include <unordered_set>
#include <list>
#include <typeinfo>
#include <new>
#define MODEL __attribute__((section("sxmodel"), noinline))
typedef unsigned long u64;

extern "C" {
extern "C" void sx_guard(int);
MODEL int __cxa_guard_acquire(u64* g) { if (*(char*)g) return 0; sx_guard(1); return 1; }   // one thread initialises, under a lock
MODEL void __cxa_guard_release(u64* g) { *(char*)g = 1; sx_guard(0); }
MODEL void* __cxa_begin_catch(void* p) { return p; }
void* __dso_handle = nullptr; char __libc_single_threaded = 1;
}
// ---- RTTI: single inheritance chains (the code base uses nothing else)
extern "C" { char _ZTVN10__cxxabiv117__class_type_infoE[64]; char _ZTVN10__cxxabiv120__si_class_type_infoE[64]; char _ZTVN10__cxxabiv121__vmi_class_type_infoE[64]; }
struct sxTI { void* vt; const char* name; sxTI* base; };
extern "C" MODEL void* __dynamic_cast(const void* src, const void* st, const void* dt, long off) {
  (void)st; (void)off;
  void* const* vt = *(void* const* const*)src; long top = ((long const*)vt)[-2]; sxTI* t = ((sxTI* const*)vt)[-1];
  while (t) {
    if ((void*)t == dt) return (char*)src + top;
    if (t->vt == (void*)(_ZTVN10__cxxabiv120__si_class_type_infoE + 16)) t = t->base;
    else if (t->vt == (void*)(_ZTVN10__cxxabiv117__class_type_infoE + 16)) return nullptr;
    else __builtin_trap();
  }
  return nullptr;
}
// ---- red-black tree (ordering semantics only: an unbalanced search tree satisfies the same contract)
namespace std {
MODEL _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x; }
MODEL const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
MODEL _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y; }
MODEL const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
MODEL void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
// removal: the node is spliced out of the (unbalanced) search tree
MODEL _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto put = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* x) { if (h._M_parent == o) h._M_parent = x; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = x; else o->_M_parent->_M_right = x; if (x) x->_M_parent = o->_M_parent; };
  if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment(z) : &h;
  if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h;
  if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left); else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z; }
// hashes of text: any function of the text will do; this one keeps the bucket numbers concrete
MODEL size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
MODEL size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n; }
// ---- std::list
namespace __detail {
MODEL void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
MODEL void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
MODEL void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
MODEL void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = x; } while (t != this); }
MODEL void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base *n = x._M_next, *p = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = n; y._M_prev = p; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// ---- hash policy: growth by powers of two plus one (only the number of buckets differs from libstdc++)
namespace __detail {
MODEL std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = 1; while (b < n) b = b * 2 + 1; if (b == 1) b = 2; _M_next_resize = b; return b; }
MODEL std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
  if (elt + ins > _M_next_resize || bkt < elt + ins) { std::size_t b = bkt; while (b < elt + ins || b < 13) b = b * 2 + 1; if (b > bkt) { _M_next_resize = b; return {true, b}; } _M_next_resize = bkt; }
  return {false, 0}; }
}
// ---- iostreams: no locale, numbers in an encoding of their own
MODEL locale::locale() throw() : _M_impl(nullptr) {}
MODEL locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
MODEL locale::~locale() throw() {}
MODEL const locale& locale::operator=(const locale& o) throw() { return *this; }
MODEL ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(0) {}
MODEL ios_base::~ios_base() {}
MODEL void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
template <> MODEL void basic_ios<char>::_M_cache_locale(const locale&) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> MODEL char basic_ios<char>::widen(char c) const { return c; }
template <> MODEL char basic_ios<char>::narrow(char c, char) const { return c; }
static ostream& sxput(ostream& o, const char* s, streamsize n) { if (o.rdbuf()) o.rdbuf()->sputn(s, n); o.width(0); return o; }
// Numbers are written as '#' and 16 letters (one for each half byte), so that symbolic numbers need no case split on their digits.
// A format other than the usual one is marked (hexadecimal, a width, a precision, ...).
static void sxfmt(ostream& o, bool flt) { auto f = o.flags(); char c = 0; if ((f & ios_base::basefield) != ios_base::dec && (f & ios_base::basefield)) c = 'x'; else if (f & ios_base::showpos) c = '+'; else if (o.width() > 1) c = 'w'; else if (flt && (o.precision() != 6 || (f & (ios_base::floatfield | ios_base::showpoint)))) c = 'p'; if (c) sxput(o, &c, 1); }
static ostream& sxnum(ostream& o, u64 v, bool flt = false) { sxfmt(o, flt); char t[17]; t[0] = '#'; for (int i = 0; i < 16; i++) t[1 + i] = (char)('A' + (v >> (60 - 4 * i) & 15)); return sxput(o, t, 17); }
template <> template <> MODEL ostream& ostream::_M_insert<long>(long v) { return sxnum(*this, (u64)v); }
template <> template <> MODEL ostream& ostream::_M_insert<unsigned long>(unsigned long v) { return sxnum(*this, v); }
template <> template <> MODEL ostream& ostream::_M_insert<long long>(long long v) { return sxnum(*this, (u64)v); }
template <> template <> MODEL ostream& ostream::_M_insert<unsigned long long>(unsigned long long v) { return sxnum(*this, v); }
template <> template <> MODEL ostream& ostream::_M_insert<bool>(bool v) { return flags() & ios_base::boolalpha ? sxput(*this, v ? "true" : "false", v ? 4 : 5) : sxput(*this, v ? "1" : "0", 1); }
template <> template <> MODEL ostream& ostream::_M_insert<double>(double v) { u64 x; __builtin_memcpy(&x, &v, 8); return sxnum(*this, x, true); }
template <> template <> MODEL ostream& ostream::_M_insert<const void*>(const void* v) { return sxput(*this, "0x0", 3); }
}  // namespace std

// std::to_string writes numbers the same way.
static std::string sxstr(u64 v) { char t[17]; t[0] = '#'; for (int i = 0; i < 16; i++) t[1 + i] = (char)('A' + (v >> (60 - 4 * i) & 15)); return std::string(t, 17); }
#define SXSTR(M, T) extern "C" __attribute__((used, section("sxmodel"), noinline)) std::string sxfor__ZNSt7__cxx119to_stringE##M(T v) { return sxstr((u64)v); }
SXSTR(i, int) SXSTR(j, unsigned) SXSTR(l, long) SXSTR(m, unsigned long) SXSTR(x, long long) SXSTR(y, unsigned long long)
// ---- std::cout / std::cerr: a bounded capture buffer
extern "C" { alignas(16) char _ZSt4cout[512]; alignas(16) char _ZSt4cerr[512]; alignas(16) char _ZSt4clog[512]; }
char sx_cout_buf[1 << 20]; u64 sx_cout_len;
extern "C" void sx_effect(int);
struct sxCapture : std::streambuf {
  bool keep; sxCapture(bool k) : keep(k) {}
  int_type overflow(int_type c) override { if (c != traits_type::eof()) { char ch = (char)c; xsputn(&ch, 1); } return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { sx_effect(keep ? 1 : 2); if (keep) for (std::streamsize i = 0; i < n; i++) { if (sx_cout_len < sizeof sx_cout_buf) sx_cout_buf[sx_cout_len] = s[i]; sx_cout_len++; } return n; }
};
alignas(16) static char sxb1[sizeof(sxCapture)], sxb2[sizeof(sxCapture)];
extern "C" void sx_tables_init();
extern "C" MODEL void sx_global_init() {
  sx_tables_init();
  new (_ZSt4cout) std::ostream(new (sxb1) sxCapture(true));
  new (_ZSt4cerr) std::ostream(new (sxb2) sxCapture(false));
  new (_ZSt4clog) std::ostream((std::streambuf*)sxb2);
}
