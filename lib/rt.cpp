// Models (assumed contracts) for the non-header parts of the C++ standard library that the verified code calls.
// They are compiled only for the engine; native replays use the real libstdc++.
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <memory_resource>
#include <exception>
#include <typeinfo>
#include <functional>
#include <future>
#include <cstring>
#include <cstdlib>
#include <cstdint>
void operator delete(void *, std::size_t) noexcept; void operator delete(void *, std::size_t, std::align_val_t) noexcept; void operator delete[](void *, std::size_t) noexcept;
extern "C" char *strerror_r(int, char *b, size_t n) noexcept { if (n) { size_t i = 0; for (const char *m = "os error"; *m && i + 1 < n; ) b[i++] = *m++; b[i] = 0; } return b; }
extern "C" int snprintf(char *b, unsigned long n, const char *, ...) { if (n > 1) { b[0] = '0'; b[1] = 0; } return 1; }
extern "C" int vsnprintf(char *b, size_t n, const char *f, __builtin_va_list) noexcept { size_t i = 0; for (; f[i]; i++) if (i + 1 < n) b[i] = f[i]; if (n) b[i < n ? i : n - 1] = 0; return (int)i; }
extern "C" char *strerror(int) noexcept { static char m[] = "os error"; return m; }
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

// __cow_string is opaque: keep the text in a heap buffer
struct vp_cow { char *p; };
static char *dupstr(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); memcpy(p, s, n + 1); return p; }
static vp_cow *cow(const void *e) { return (vp_cow *)((char *)e + 8); }
#define VP_EXC(C, B) \
  C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const string &s) { cow(this)->p = dupstr(s.c_str()); }
logic_error::logic_error(const char *s) { cow(this)->p = dupstr(s); }
logic_error::logic_error(const logic_error &o) noexcept { cow(this)->p = dupstr(cow(&o)->p); }
logic_error::logic_error(logic_error &&o) noexcept { cow(this)->p = dupstr(cow(&o)->p); }
logic_error &logic_error::operator=(const logic_error &o) noexcept { free(cow(this)->p); cow(this)->p = dupstr(cow(&o)->p); return *this; }
logic_error::~logic_error() noexcept { free(cow(this)->p); }
const char *logic_error::what() const noexcept { return cow(this)->p; }
runtime_error::runtime_error(const string &s) { cow(this)->p = dupstr(s.c_str()); }
runtime_error::runtime_error(const char *s) { cow(this)->p = dupstr(s); }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o) { cow(this)->p = dupstr(cow(&o)->p); }
runtime_error::runtime_error(runtime_error &&o) noexcept { cow(this)->p = dupstr(cow(&o)->p); }
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { free(cow(this)->p); cow(this)->p = dupstr(cow(&o)->p); return *this; }
runtime_error::~runtime_error() noexcept { free(cow(this)->p); }
const char *runtime_error::what() const noexcept { return cow(this)->p; }
VP_EXC(domain_error, logic_error)
VP_EXC(invalid_argument, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int i) { throw std::runtime_error("system_error"); }

type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct vp_cat final : error_category { const char *n; vp_cat(const char *n) : n(n) {} const char *name() const noexcept override { return n; } string message(int) const override { return n; } };
const error_category &generic_category() noexcept { static vp_cat c("generic"); return c; }
const error_category &system_category() noexcept { static vp_cat c("system"); return c; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
}
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string::~__cow_string() {}

namespace pmr {
memory_resource::~memory_resource() {}
struct vp_newdel final : memory_resource {
  void *do_allocate(size_t n, size_t a) override { if (a <= __STDCPP_DEFAULT_NEW_ALIGNMENT__) return ::operator new(n); return ::operator new(n, align_val_t(a)); }
  void do_deallocate(void *p, size_t n, size_t a) noexcept override { if (a <= __STDCPP_DEFAULT_NEW_ALIGNMENT__) ::operator delete(p, n); else ::operator delete(p, n, align_val_t(a)); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
alignas(vp_newdel) static char newdel_buf[sizeof(vp_newdel)]; 
memory_resource *new_delete_resource() noexcept { static vp_newdel r; return &r; }
static memory_resource *def_res;
memory_resource *get_default_resource() noexcept { return def_res ? def_res : new_delete_resource(); }
memory_resource *set_default_resource(memory_resource *r) noexcept { auto o = get_default_resource(); def_res = r; return o; }
struct vp_null final : memory_resource {
  void *do_allocate(size_t, size_t) override { throw bad_alloc(); }
  void do_deallocate(void *, size_t, size_t) override {}
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
memory_resource *null_memory_resource() noexcept { static vp_null r; return &r; }
// monotonic_buffer_resource: overflow chunks come from the upstream resource and are all returned on release
class monotonic_buffer_resource::_Chunk { public: _Chunk *next; void *p; size_t n, a; };
void monotonic_buffer_resource::_M_new_buffer(size_t bytes, size_t alignment)
{
  size_t n = bytes > _M_next_bufsiz ? bytes : _M_next_bufsiz, a = alignment > alignof(max_align_t) ? alignment : alignof(max_align_t);
  void *p = _M_upstream->allocate(n, a);
  _M_head = new _Chunk{_M_head, p, n, a};
  _M_current_buf = p; _M_avail = n; _M_next_bufsiz = n + n / 2;
}
void monotonic_buffer_resource::_M_release_buffers() noexcept
{
  auto c = _M_head; _M_head = nullptr;
  while (c) { auto n = c->next; _M_upstream->deallocate(c->p, c->n, c->a); delete c; c = n; }
}
monotonic_buffer_resource::~monotonic_buffer_resource() { release(); }
// unsynchronized_pool_resource: modelled as a pass-through that returns what is left on destruction
struct __pool_resource::_BigBlock { void *p; size_t n, a; };
struct __pool_resource::_Pool { _Pool *next; void *p; size_t n, a; };
__pool_resource::__pool_resource(const pool_options &o, memory_resource *u) : _M_opts(o), _M_unpooled(u), _M_npools(0) {}
__pool_resource::~__pool_resource() {}
unsynchronized_pool_resource::unsynchronized_pool_resource(const pool_options &o, memory_resource *u) : _M_impl(o, u) {}
void *unsynchronized_pool_resource::do_allocate(size_t n, size_t a)
{
  void *p = _M_impl.resource()->allocate(n, a);
  _M_pools = new _Pool{_M_pools, p, n, a};
  return p;
}
void unsynchronized_pool_resource::do_deallocate(void *p, size_t n, size_t a)
{
  for (_Pool **q = &_M_pools; *q; q = &(*q)->next)
    if ((*q)->p == p)
    {
      auto x = *q; *q = x->next;
      _M_impl.resource()->deallocate(p, n, a);
      delete x;
      return;
    }
  __builtin_trap(); // not allocated here
}
void unsynchronized_pool_resource::release()
{
  while (auto x = _M_pools) { _M_pools = x->next; _M_impl.resource()->deallocate(x->p, x->n, x->a); delete x; }
}
unsynchronized_pool_resource::~unsynchronized_pool_resource() { release(); }
}
}
#include <random>
// the seed of the default random engine: one of two values (used for the order in which race looks at its awaitables)
extern "C" unsigned vp_choice(const char *, unsigned);
std::random_device::result_type std::random_device::_M_getval() { return 1 + vp_choice("seed", 2); }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
#include <list>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept
{
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
  auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = x; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
  if (x._M_next != &x)
  {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}}

// threads: the engine runs them, switching at every synchronisation
#include <thread>
extern "C" { unsigned long vp_thread_start(void (*)(void *), void *); void vp_thread_join(unsigned long); unsigned long vp_thread_id(); }
static void vp_thread_main(void *p) noexcept { std::unique_ptr<std::thread::_State> s(static_cast<std::thread::_State *>(p)); s->_M_run(); }
namespace std
{
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) { auto k = vp_thread_start(&vp_thread_main, s.release()); _M_id = id(0x1234 + k); }
void thread::join() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); vp_thread_join(_M_id._M_thread - 0x1234); _M_id = id(); }
void thread::detach() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); _M_id = id(); }
}

// thread-specific data and once-control
static __thread void *vp_tss[16]; static unsigned vp_tss_n;
extern "C" int pthread_key_create(unsigned *k, void (*)(void *)) noexcept { *k = vp_tss_n++; return vp_tss_n <= 16 ? 0 : 11; }
extern "C" int pthread_key_delete(unsigned) noexcept { return 0; }
extern "C" void *pthread_getspecific(unsigned k) noexcept { return vp_tss[k]; }
extern "C" int pthread_setspecific(unsigned k, const void *v) noexcept { vp_tss[k] = const_cast<void *>(v); return 0; }
extern "C" int pthread_once(int *c, void (*f)()) { if (!*c) { *c = 1; f(); } return 0; }
#include <future>
namespace std {
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
__thread void *__once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *, unsigned, bool, chrono::seconds, chrono::nanoseconds) { __builtin_trap(); }   // the only thread would hang
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *, unsigned, bool, chrono::seconds, chrono::nanoseconds) { __builtin_trap(); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) {}
struct vp_fcat final : error_category { const char *name() const noexcept override { return "future"; } string message(int) const override { return {}; } };
const error_category &future_category() noexcept { static vp_fcat c; return c; }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future error"; }
}

// C library
extern "C" { char *vp_strchr(const char *s, int c) noexcept __asm__("strchr"); char *vp_strchr(const char *s, int c) noexcept { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } } }
extern "C" {
unsigned htonl(unsigned x) noexcept { return __builtin_bswap32(x); }
unsigned ntohl(unsigned x) noexcept { return __builtin_bswap32(x); }
unsigned short htons(unsigned short x) noexcept { return __builtin_bswap16(x); }
unsigned short ntohs(unsigned short x) noexcept { return __builtin_bswap16(x); }
int atoi(const char *s) noexcept { int r = 0; while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0'); return r; }
}
