// C07: coroutine frames and the resources they come from
#pragma once
#define main vp_cobalt_main
#include <boost/cobalt/detail/main.hpp>
#undef main
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/detail/wrapper.hpp>
#include <comb.hpp>
#include <optional>
namespace pmr = std::pmr; using u64 = std::uint64_t;

// the arbitrary memory resource: one block at a time of arbitrary size
struct one_res final : pmr::memory_resource
{
  unsigned allocs = 0, deallocs = 0; u64 n = 0, a = 0; char *p = nullptr; bool live = false;
  void *do_allocate(std::size_t n_, std::size_t a_) override
  {
    VP_CHECK(!live, "one allocation per frame"); allocs++; n = n_; a = a_; live = true;
    VP_CHECK(a_ == alignof(std::max_align_t), "a frame is requested with the default alignment");
    return p = (char *)vp_arena(n_ + 16) + 16;
  }
  void do_deallocate(void *q, std::size_t n_, std::size_t a_) override
  {
    deallocs++;
    VP_CHECK(live, "a frame is freed to the resource it came from");
    VP_CHECK(q == p, "the frame is freed with the pointer that was allocated");
    VP_CHECK(n_ == n, "the frame is freed with the size that was allocated");
    VP_CHECK(a_ == a, "the frame is freed with the alignment that was allocated");
    live = false;
  }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
  void usable(void *f, u64 size, const char *what)
  {
    u64 o = (char *)f - p;
    VP_CHECK((allocs == 1) & live & (deallocs == 0), what);
    VP_CHECK((o <= n) & (n - o >= size), "the frame lies inside the block");
    VP_CHECK((u64)f % alignof(std::max_align_t) == 0, "the frame is aligned");
  }
};
// the arbitrary memory resource: several blocks
struct res_t final : pmr::memory_resource
{
  struct blk { void *p; u64 n, a; bool live; } b[8]; unsigned nb = 0, live = 0;
  void *do_allocate(std::size_t n, std::size_t a) override { void *p = ::operator new(n); b[nb++] = {p, n, a, true}; live++; return p; }
  void do_deallocate(void *q, std::size_t n, std::size_t a) override
  {
    for (unsigned i = 0; i < nb; i++)
      if (b[i].p == q && b[i].live)
      {
        VP_CHECK(b[i].n == n && b[i].a == a, "the frame is freed with the size and alignment that were allocated");
        b[i].live = false; live--; ::operator delete(q); return;
      }
    vp_fail_("a frame is freed once, to the resource it came from");
  }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct defaults { pmr::memory_resource *old; defaults(pmr::memory_resource *r) : old(cobalt::this_thread::set_default_resource(r)) {} ~defaults() { cobalt::this_thread::set_default_resource(old); } };
#if defined(__cpp_sized_deallocation)
#define FREE(P, p, n) P::operator delete(p, n)
#else
#define FREE(P, p, n) P::operator delete(p)
#endif

// ---- operator new/delete of the promises: every frame size, every position of the allocator, every default resource
using base = cobalt::promise_memory_resource_base;
struct param { u64 x[3]; };
VP_CONTRACT(promise_new_delete)
{
  one_res given, dflt, later; defaults d(&dflt);
  u64 size = vp_input("frame size", 40); vp_assume(size > 0);
  std::allocator_arg_t tag; pmr::polymorphic_allocator<void> al(&given); param a; const int b = 0; void *f;
  bool own = true;
  switch (vp_choice("arguments", 5))
  {
  case 0: f = base::operator new(size); own = false; break;
  case 1: f = base::operator new(size, a, b); own = false; break;
  case 2: f = base::operator new(size, tag, al); break;
  case 3: f = base::operator new(size, a, tag, al, b); break;
  default: f = base::operator new(size, a, b, tag, al); break;
  }
  one_res &r = own ? given : dflt;
  r.usable(f, size, "the frame comes from the given resource, otherwise from the one of the thread");
  VP_CHECK((given.allocs + dflt.allocs == 1) & (later.allocs == 0), "the frame is allocated once");
  for (unsigned i = 0; i < 1; i++) ((volatile char *)f)[vp_conc(0)] = 1;
  cobalt::this_thread::set_default_resource(&later);
  FREE(base, f, size);
  VP_CHECK(!r.live, "the frame is freed");
  VP_CHECK(given.deallocs + dflt.deallocs == 1 && later.deallocs == 0, "the frame is freed once");
  VP_COVER("end");
}
// nothing the frame stores can change where it is freed to
VP_CONTRACT(promise_new_delete_written)
{
  one_res dflt; defaults d(&dflt);
  u64 size = vp_input("frame size", 40), at = vp_input("offset", 40); vp_assume(size > 0); vp_assume(at < size);
  char *f = (char *)base::operator new(size);
  f[at] = (char)vp_u8("byte");
  FREE(base, f, size);
  VP_CHECK(!dflt.live, "the frame is freed");
  VP_COVER("end");
}
VP_CONTRACT(main_new_delete)
{
  using M = cobalt::detail::main_promise;
  one_res r, later; M::my_resource = &r;
  u64 size = vp_input("frame size", 40), at = vp_input("offset", 40); vp_assume(size > 0); vp_assume(at < size);
  char *f = (char *)M::operator new(size);
  r.usable(f, size, "the frame of main comes from its resource");
  f[at] = (char)vp_u8("byte");
  FREE(M, f, size);
  VP_CHECK(!r.live, "the frame is freed");
  VP_COVER("end");
}
VP_CONTRACT(composition_new_delete)
{
  using P = cobalt::detail::composition_promise<boost::system::error_code>;
  struct handler { pmr::memory_resource *r; pmr::polymorphic_allocator<void> get_allocator() const { return r; } };
  one_res r, later; defaults d(&later); handler h{&r}; param a;
  u64 size = vp_input("frame size", 40), at = vp_input("offset", 40); vp_assume(size > 0); vp_assume(at < size);
  char *f = (char *)(vp_bool("argument") ? P::operator new(size, a, h) : P::operator new(size, h));
  r.usable(f, size, "the frame comes from the resource of the handler");
  f[at] = (char)vp_u8("byte");
  P::operator delete(f);
  VP_CHECK(!r.live, "the frame is freed");
  VP_CHECK(later.allocs == 0, "only the resource of the handler is used");
  VP_COVER("end");
}

// ---- allocate_coroutine: an arbitrary allocator (any state) in front of one block
template<unsigned Pad> struct state { std::uint32_t id; char pad[Pad]; };
template<> struct state<0> { std::uint32_t id; };
struct pool { static one_res *&r() { static one_res *p; return p; } };
template<typename T, unsigned Pad> struct alloc
{
  using value_type = T; state<Pad> s;
  template<typename U> struct rebind { using other = alloc<U, Pad>; };
  alloc(std::uint32_t id) { s.id = id; }
  template<typename U> alloc(const alloc<U, Pad> &o) { s.id = o.s.id; }
  T *allocate(std::size_t n) { return (T *)pool::r()->allocate(n * sizeof(T), alignof(T)); }
  void deallocate(T *p, std::size_t n) { VP_CHECK(s.id == ident(), "the frame is freed by a copy of the allocator it came from"); pool::r()->deallocate(p, n * sizeof(T), alignof(T)); }
  template<typename U> bool operator==(const alloc<U, Pad> &o) const { return s.id == o.s.id; }
  static std::uint32_t &ident() { static std::uint32_t i; return i; }
};
template<unsigned Pad> struct alloc<void, Pad>
{
  using value_type = void; state<Pad> s;
  template<typename U> struct rebind { using other = alloc<U, Pad>; };
  alloc(std::uint32_t id) { s.id = id; }
  template<typename U> alloc(const alloc<U, Pad> &o) { s.id = o.s.id; }
  template<typename U> bool operator==(const alloc<U, Pad> &o) const { return s.id == o.s.id; }
};
template<typename A> void wrapped(A al, one_res &r)
{
  u64 size = vp_input("frame size", 40), at = vp_input("offset", 40); vp_assume(size > 0); vp_assume(at < size);
  char *f = (char *)cobalt::allocate_coroutine(size, al);
  r.usable(f, size, "the frame comes from the allocator");
  f[at] = (char)vp_u8("byte");
#if defined(__cpp_sized_deallocation)
  cobalt::deallocate_coroutine<A>(f, size);
#else
  cobalt::deallocate_coroutine<A>(f);
#endif
  VP_CHECK(!r.live, "the frame is freed");
}
VP_CONTRACT(wrapper_pmr) { one_res r, d2; defaults d(&d2); wrapped(pmr::polymorphic_allocator<void>(&r), r); VP_COVER("end"); }
template<unsigned Pad> void custom() { one_res r; pool::r() = &r; auto id = vp_u32("id"); alloc<std::max_align_t, Pad>::ident() = id; wrapped(alloc<void, Pad>(id), r); }
VP_CONTRACT(wrapper_small) { custom<0>(); VP_COVER("end"); }
VP_CONTRACT(wrapper_medium) { custom<21>(); VP_COVER("end"); }
VP_CONTRACT(wrapper_large) { custom<60>(); VP_COVER("end"); }

// ---- whole coroutines: created with or without an allocator, the default changes, then they finish, throw or are destroyed
struct probe { unsigned *n; ~probe() { ++*n; } };
using al_t = pmr::polymorphic_allocator<void>;
struct coro_env { env_t env; res_t given, first, later; op o, after; outcome out; unsigned dead = 0; pmr::memory_resource *seen = nullptr; coro_env() { o.mode = -3; o.v = vp_u32("v"); o.fail = vp_bool("fail"); after.use_slot = false; } };
#define BODY(R) probe p{&e.dead}; e.seen = (co_await cobalt::this_coro::allocator).resource(); R co_await aw<>{{&e.o}};
cobalt::promise<u32> p0(coro_env &e) { BODY(co_return) }
cobalt::promise<u32> p1(std::allocator_arg_t, al_t, coro_env &e) { BODY(co_return) }
cobalt::promise<u32> p2(coro_env &e, std::allocator_arg_t, al_t) { BODY(co_return) }
cobalt::task<u32> t0(coro_env &e) { BODY(co_return) }
cobalt::task<u32> t1(std::allocator_arg_t, al_t, coro_env &e) { BODY(co_return) }
cobalt::task<u32> t2(coro_env &e, std::allocator_arg_t, al_t) { BODY(co_return) }
cobalt::generator<u32> g0(coro_env &e) { BODY(co_yield) co_return 0; }
cobalt::generator<u32> g1(std::allocator_arg_t, al_t, coro_env &e) { BODY(co_yield) co_return 0; }
cobalt::generator<u32> g2(coro_env &e, std::allocator_arg_t, al_t) { BODY(co_yield) co_return 0; }
struct object
{
  cobalt::promise<u32> p(coro_env &e, std::allocator_arg_t, al_t) { BODY(co_return) }
  cobalt::task<u32> t(coro_env &e, std::allocator_arg_t, al_t) { BODY(co_return) }
};
template<typename C> void frames(C make, bool eager)
{
  coro_env e; vp_mark();
  {
    defaults d(&e.first);
    bool own = false;
    auto c = make(e, own);
    res_t &r = own ? e.given : e.first;
    VP_CHECK(r.nb == 1 && e.given.nb + e.first.nb == 1, "the frame is allocated once, from the given resource or the one of the thread");
    cobalt::this_thread::set_default_resource(&e.later);
    VP_CHECK(r.live + e.dead == 1 || !eager, "the frame lives until the coroutine ended");
    if (vp_bool("await"))
    {
      client([&]() -> decltype(c) & { return c; }, [](outcome &x, u32 v) { x.set(outcome::value, v); }, e.out, &e.after);
      VP_CHECK(e.seen == (own || eager ? &r : pmr::get_default_resource()), "the coroutine reports the resource it was given");
      if (e.o.pending)
      {
        if (vp_bool("shutdown")) { e.o.sl.clear(); e.o.pending = false; e.o.h.destroy(); }
        else e.o.complete();
      }
      if (e.after.pending) e.after.complete();
      if (e.env.ctx.head && vp_bool("run")) while (e.env.ctx.run_one());
    }
    else if (e.o.pending) { if (vp_bool("complete")) e.o.complete(); else { e.o.sl.clear(); e.o.pending = false; e.o.h.destroy(); } }
  }
  if (vp_bool("discard")) e.env.ctx.clear(); else while (e.env.ctx.run_one());
  VP_CHECK(e.given.live == 0 && e.first.live == 0, "every frame is freed to the resource it came from");
  VP_CHECK(e.given.nb + e.first.nb + e.later.nb == 1, "nothing else is allocated");
  VP_CHECK(vp_live() == 0, "everything is freed");
}
#define MAKE(C, ...) frames([](coro_env &e, bool &own) { object ob; al_t al(&e.given); std::allocator_arg_t tag; switch (vp_choice("form", C)) { __VA_ARGS__ } }
VP_CONTRACT(promise_frames)
{
  MAKE(4, case 0: return p0(e); case 1: own = true; return p1(tag, al, e); case 2: own = true; return p2(e, tag, al); default: own = true; return ob.p(e, tag, al);), true);
  VP_COVER("end");
}
VP_CONTRACT(task_frames)
{
  MAKE(4, case 0: return t0(e); case 1: own = true; return t1(tag, al, e); case 2: own = true; return t2(e, tag, al); default: own = true; return ob.t(e, tag, al);), false);
  VP_COVER("end");
}
VP_CONTRACT(generator_frames)
{
  MAKE(3, case 0: return g0(e); case 1: own = true; return g1(tag, al, e); default: own = true; return g2(e, tag, al);), true);
  VP_COVER("end");
}
cobalt::detached d0(coro_env &e) { BODY((void)) }
cobalt::detached d1(std::allocator_arg_t, al_t, coro_env &e) { BODY((void)) }
cobalt::detached d2(coro_env &e, std::allocator_arg_t, al_t) { BODY((void)) }
VP_CONTRACT(detached_frames)
{
  coro_env e; e.o.fail = false; vp_mark();
  {
    defaults d(&e.first); al_t al(&e.given); std::allocator_arg_t tag; bool own = true;
    switch (vp_choice("form", 3)) { case 0: own = false; d0(e); break; case 1: d1(tag, al, e); break; default: d2(e, tag, al); }
    res_t &r = own ? e.given : e.first;
    VP_CHECK(r.nb == 1 && e.given.nb + e.first.nb == 1, "the frame is allocated once, from the given resource or the one of the thread");
    VP_CHECK(e.seen == &r, "the coroutine reports the resource its frame came from");
    cobalt::this_thread::set_default_resource(&e.later);
    VP_CHECK(r.live == e.o.pending, "the frame lives until the coroutine ended");
    if (e.o.pending) { if (vp_bool("shutdown")) { e.o.sl.clear(); e.o.pending = false; e.o.h.destroy(); } else e.o.complete(); }
  }
  VP_CHECK(e.given.live == 0 && e.first.live == 0 && e.dead == 1, "every frame is freed to the resource it came from");
  VP_CHECK(e.given.nb + e.first.nb + e.later.nb == 1, "nothing else is allocated");
  VP_CHECK(vp_live() == 0, "everything is freed");
  VP_COVER("end");
}
// the promise cannot be constructed (no executor): the frame goes back as well
VP_CONTRACT(creation_fails)
{
  coro_env e; e.o.fail = false;
  { gctx tmp; cobalt::this_thread::set_executor(gexec(tmp)); }
  VP_CHECK(!cobalt::this_thread::has_executor(), "no executor is set");
  vp_mark();
  {
    defaults d(&e.first); al_t al(&e.given); std::allocator_arg_t tag; bool own = vp_bool("own");
    try
    {
      switch (vp_choice("kind", 3))
      {
      case 0: if (own) p1(tag, al, e); else p0(e); break;
      case 1: if (own) g1(tag, al, e); else g0(e); break;
      default: if (own) d1(tag, al, e); else d0(e);
      }
    }
    catch (...) { from_current_exception(e.out); }
    VP_CHECK(e.out.kind == outcome::std_exc, "creating a coroutine without an executor fails");
    VP_CHECK((own ? e.given : e.first).nb == 1 && e.given.nb + e.first.nb == 1, "the frame was allocated once");
  }
  VP_CHECK(e.dead == 0 && e.given.live == 0 && e.first.live == 0, "every frame is freed to the resource it came from");
  VP_CHECK(vp_live() == 0, "everything is freed");
  VP_COVER("end");
}
// the resource fails: nothing is freed, the error is reported
struct bad_res final : pmr::memory_resource
{
  unsigned allocs = 0;
  void *do_allocate(std::size_t, std::size_t) override { allocs++; throw thrown{7}; }
  void do_deallocate(void *, std::size_t, std::size_t) override { vp_fail_("a frame that was never allocated is not freed"); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
VP_CONTRACT(allocation_fails)
{
  coro_env e; bad_res bad; vp_mark();
  {
    defaults d(&e.first); al_t al(&bad); std::allocator_arg_t tag;
    try
    {
      switch (vp_choice("kind", 4))
      {
      case 0: p1(tag, al, e); break;
      case 1: g1(tag, al, e); break;
      case 2: t1(tag, al, e); break;
      default: d1(tag, al, e);
      }
    }
    catch (...) { from_current_exception(e.out); }
  }
  VP_CHECK(e.out.is_exc(7) && bad.allocs == 1 && e.given.nb + e.first.nb == 0, "the error of the resource is reported");
  VP_CHECK(e.dead == 0 && vp_live() == 0, "everything is freed");
  VP_COVER("end");
}
// a library coroutine that wraps a completion: its frame comes from the allocator associated with the completion
struct completion
{
  using allocator_type = al_t; al_t a; allocator_type get_allocator() const { return a; }
  using executor_type = cobalt::executor; executor_type x; const executor_type &get_executor() const { return x; }
  unsigned *runs, *dead; bool own = true;
  completion(al_t a, executor_type x, unsigned *r, unsigned *d) : a(a), x(x), runs(r), dead(d) {}
  completion(completion &&o) : a(o.a), x(o.x), runs(o.runs), dead(o.dead), own(std::exchange(o.own, false)) {}
  ~completion() { if (own) ++*dead; }
  void operator()() { ++*runs; }
};
VP_CONTRACT(wrapped_completion)
{
  coro_env e; unsigned runs = 0, dead = 0; vp_mark();
  {
    defaults d(&e.later);
    cobalt::unique_handle<void> h(cobalt::detail::post_coroutine(completion(&e.given, e.env.exec, &runs, &dead)).address());
    VP_CHECK(e.given.live == 1 && runs == 0 && dead == 0, "the frame comes from the associated allocator");
    if (vp_bool("resume"))
    {
      std::move(h)();
      VP_CHECK(!h && e.given.live == 0 && runs == 0 && dead == 0, "the frame is gone before the completion runs");
      if (vp_bool("run")) { while (e.env.ctx.run_one()); VP_CHECK(runs == 1, "the completion runs once"); } else { e.env.ctx.clear(); VP_CHECK(runs == 0, "a discarded completion does not run"); }
      VP_COVER("resumed");
    }
    else { h.reset(); VP_CHECK(runs == 0 && e.env.ctx.queued == 0, "a destroyed completion does not run"); }
  }
  VP_CHECK(dead == 1, "the completion is destroyed once");
  VP_CHECK(e.given.live == 0 && e.first.nb + e.later.nb == 0, "every frame is freed to the resource it came from");
  VP_CHECK(vp_live() == 0, "everything is freed");
  VP_COVER("end");
}
