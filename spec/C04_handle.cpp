// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
#include <boost/cobalt/unique_handle.hpp>
#include <boost/cobalt/detail/handler.hpp>
#include <boost/cobalt/detail/util.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/dispatch.hpp>
#include <comb.hpp>
#include <optional>
#include <tuple>
using cobalt::unique_handle;

// an arbitrary suspended coroutine: counts how often it is resumed and destroyed; it ends or suspends again when it is resumed
struct track { unsigned resumed = 0, dead = 0; bool ends = false; };
struct coro
{
  struct promise_type
  {
    track *t; promise_type(track *t) : t(t) {}
    ~promise_type() { VP_CHECK(t->dead == 0, "a coroutine is destroyed at most once"); t->dead++; }
    using executor_type = cobalt::executor; const executor_type &get_executor() const { return E().exec; }
    using cancellation_slot_type = asio::cancellation_slot; cancellation_slot_type get_cancellation_slot() const { return E().sig.slot(); }
    coro get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vp_fail_("no exception"); }
  };
  std::coroutine_handle<promise_type> h;
};
using P = coro::promise_type;
coro loop(track *t) { do { t->resumed++; if (t->ends) break; co_await std::suspend_always{}; } while (true); }

// ---- one operation on two handles in any state
template<typename T> struct pair_t
{
  env_t env; track t[3]; coro c[3]; std::optional<unique_handle<T>> a, b; track *ta = nullptr, *tb = nullptr;
  T *ptr(unsigned i) { if constexpr (std::is_void_v<T>) return c[i].h.address(); else return &c[i].h.promise(); }
  unique_handle<T> own(unsigned i, unsigned how)
  {
    if (how == 0) return unique_handle<T>(ptr(i));
    if (how == 1) return unique_handle<T>::from_address(c[i].h.address());
    if constexpr (!std::is_void_v<T>) return unique_handle<T>::from_promise(*ptr(i)); else { unique_handle<T> h; h.reset(ptr(i)); return h; }
  }
  pair_t() : c{loop(&t[0]), loop(&t[1]), loop(&t[2])}
  {
    if (vp_bool("a owns")) { a.emplace(own(0, vp_choice("made", 3))); ta = &t[0]; } else if (vp_bool("null")) a.emplace(nullptr); else a.emplace();
    if (vp_bool("b owns")) { b.emplace(own(1, 0)); tb = &t[1]; } else b.emplace();
    for (auto &x : t) if (&x == ta || &x == tb) x.ends = false;
  }
  void state(std::optional<unique_handle<T>> &h, track *x)
  {
    if (!h) return;
    VP_CHECK(bool(*h) == (x != nullptr) && (*h != nullptr) == (x != nullptr) && (*h == nullptr) == !x, "a handle says whether it owns a coroutine");
    if (x)
    {
      unsigned i = x - t;
      VP_CHECK(h->address() == c[i].h.address() && (void *)h->get() == (void *)ptr(i) && !h->done(), "a handle refers to the coroutine it owns");
      if constexpr (!std::is_void_v<T>) VP_CHECK(&**h == ptr(i) && h->operator->() == ptr(i) && &h->promise() == ptr(i), "a handle refers to the promise of its coroutine");
    }
  }
  // the pre-state plus the expected changes
  void check(unsigned r0 = 0, unsigned d0 = 0, unsigned r1 = 0, unsigned d1 = 0, unsigned r2 = 0, unsigned d2 = 0)
  {
    VP_CHECK(t[0].resumed == r0 && t[1].resumed == r1 && t[2].resumed == r2, "exactly the coroutine that was asked for is resumed, once");
    VP_CHECK(t[0].dead == d0 && t[1].dead == d1 && t[2].dead == d2, "exactly the coroutine whose owner went away is destroyed, once");
    state(a, ta); state(b, tb);
  }
  ~pair_t()
  {
    unsigned da = t[0].dead, db = t[1].dead; track *x = a ? ta : nullptr, *y = b ? tb : nullptr;
    a.reset(); b.reset();
    VP_CHECK(t[0].dead == da + (x == &t[0] || y == &t[0]) && t[1].dead == db + (x == &t[1] || y == &t[1]), "a handle destroys the coroutine it owns when it goes away");
    for (unsigned i = 0; i < 3; i++) if (!t[i].dead) c[i].h.destroy();
    for (auto &z : t) VP_CHECK(z.dead == 1, "every coroutine is destroyed once");
  }
};
template<typename T> void moves()
{
  pair_t<T> s; bool oa = s.ta, ob = s.tb;
  switch (vp_choice("move", 5))
  {
  case 0: { unique_handle<T> n(std::move(*s.a)); track *x = s.ta; s.ta = nullptr; s.check(); s.b.reset(); s.tb = nullptr; s.check(0, 0, 0, ob); s.a.reset(); s.check(0, 0, 0, ob); s.a.emplace(std::move(n)); s.ta = x; s.check(0, 0, 0, ob); break; }
  case 1: { *s.a = std::move(*s.b); s.ta = s.tb; s.tb = nullptr; s.check(0, oa); break; }
  case 2: { s.a->reset(); s.ta = nullptr; s.check(0, oa); s.a->reset(); s.check(0, oa); break; }
  case 3: { s.a->reset(s.ptr(2)); s.ta = &s.t[2]; s.check(0, oa); break; }
  default: { s.a->destroy(); s.ta = nullptr; s.check(0, oa); *s.b = nullptr; s.tb = nullptr; s.check(0, oa, 0, ob); }
  }
}
template<typename T> void uses()
{
  pair_t<T> s;
  if (!s.ta) return;
  bool ends = vp_bool("ends"); s.t[0].ends = ends;
  switch (vp_choice("use", 5))
  {
  case 0: { auto h = s.a->release(); s.ta = nullptr; s.check(); if (vp_bool("destroy")) { h.destroy(); s.check(0, 1); } else { h.resume(); s.check(1, ends); } break; }
  case 1: std::move(*s.a)(); s.ta = nullptr; s.check(1, ends); break;
  case 2: std::move(*s.a).resume(); s.ta = nullptr; s.check(1, ends); break;
  case 3: if (!ends) { (*s.a)(); s.check(1); s.a->resume(); s.check(2); } break;
  default:
    { // handed to the executor: runs or is discarded
      unsigned q = s.env.ctx.queued;
      if constexpr (!std::is_void_v<T>) { if (vp_bool("dispatch")) asio::dispatch(E().exec, std::move(*s.a)); else if (vp_bool("own executor")) asio::post(std::move(*s.a)); else asio::post(E().exec, std::move(*s.a)); }
      else { if (vp_bool("dispatch")) asio::dispatch(E().exec, std::move(*s.a)); else asio::post(E().exec, std::move(*s.a)); }
      s.ta = nullptr; s.check();
      VP_CHECK(s.env.ctx.queued == q + 1, "the coroutine is handed to its executor once");
      if (vp_bool("run")) { s.env.ctx.run(); s.check(1, ends); } else { s.env.ctx.clear(); s.check(0, 1); }
    }
  }
}
VP_CONTRACT(handle_moves) { moves<P>(); VP_COVER("end"); }
VP_CONTRACT(handle_uses) { uses<P>(); VP_COVER("end"); }
VP_CONTRACT(erased_handle_moves) { moves<void>(); VP_COVER("end"); }
VP_CONTRACT(erased_handle_uses) { uses<void>(); VP_COVER("end"); }
VP_CONTRACT(noop_handle)
{
  unique_handle<std::noop_coroutine_promise> h, g(nullptr); h = std::move(g);
  VP_CHECK(bool(h) && h != nullptr && !(h == nullptr) && h.done(), "the noop handle is always there");
  h(); h.resume(); h.destroy(); h.release().resume(); VP_CHECK(h.address() != nullptr, "the noop handle is always there");
  VP_COVER("end");
}

// ---- the completion handler: owns the coroutine until it is invoked
using CI = cobalt::detail::completed_immediately_t;
template<typename... A> struct comp
{
  env_t env; track t; coro c; std::optional<std::tuple<A...>> result; CI ci = CI::no; bool with_ci; std::optional<cobalt::completion_handler<A...>> h;
  comp() : c(loop(&t)) 
  {
    t.ends = vp_bool("ends"); with_ci = vp_bool("tracked");
    if (with_ci) switch (vp_choice("phase", 4)) { case 0: ci = CI::no; break; case 1: ci = CI::maybe; break; case 2: ci = CI::yes; break; default: ci = CI::initiating; }
    h.emplace(c.h, result, with_ci ? &ci : nullptr);
    VP_CHECK(h->get_executor() == E().exec && h->get_cancellation_slot() == env.sig.slot(), "the handler reports the executor and slot of the coroutine");
    if (vp_bool("move")) { auto g = std::move(*h); h.reset(); VP_CHECK(t.dead == 0 && t.resumed == 0, "moving a handler does not touch the coroutine"); h.emplace(std::move(g)); }
  }
  void invoke(A... a)
  {
    CI was = ci;
    bool in = with_ci && was == CI::maybe;
    std::move(*h)(a...);
    VP_CHECK(t.resumed == (in ? 0u : 1u) && t.dead == (t.ends && !in), "the coroutine is resumed exactly once, unless it is still being suspended");
    VP_CHECK(!with_ci || ci == (in ? CI::yes : was), "a completion during the initiation is recorded");
    if (!t.dead || t.ends) VP_CHECK(result.has_value() && *result == std::tuple<A...>(a...), "the result is the one it completed with");
    h.reset();
    VP_CHECK(t.resumed == (in ? 0u : 1u) && t.dead == (t.ends && !in), "an invoked handler no longer owns the coroutine");
    if (in) { c.h.resume(); VP_CHECK(t.resumed == 1, "resumable once"); }
    if (!t.dead) c.h.destroy();
  }
  void discard()
  {
    h.reset();
    VP_CHECK(t.resumed == 0 && t.dead == 1, "a discarded handler destroys the coroutine once");
    VP_CHECK(!result.has_value(), "a discarded handler has no result");
  }
  void post(A... a)
  {
    if (with_ci) ci = CI::no;
    auto x = h->get_executor();
    asio::post(x, [h = std::move(*h), a...]() mutable { std::move(h)(a...); });
    h.reset();
    VP_CHECK(t.resumed == 0 && t.dead == 0, "a queued handler keeps the coroutine");
    if (vp_bool("run")) { env.ctx.run(); VP_CHECK(t.resumed == 1 && t.dead == t.ends, "a queued handler resumes once"); VP_CHECK(result.has_value() && *result == std::tuple<A...>(a...), "the result is the one it completed with"); if (!t.dead) c.h.destroy(); }
    else { env.ctx.clear(); VP_CHECK(t.resumed == 0 && t.dead == 1, "a discarded handler destroys the coroutine once"); }
  }
  void any(A... a) { switch (vp_choice("what", 3)) { case 0: invoke(a...); break; case 1: discard(); break; default: post(a...); } VP_CHECK(t.dead == 1, "every coroutine is destroyed once"); }
};
VP_CONTRACT(handler_none) { comp<> c; c.any(); VP_COVER("end"); }
VP_CONTRACT(handler_values) { comp<boost::system::error_code, u32> c; c.any(boost::system::error_code((int)vp_u32("ec"), boost::system::generic_category()), vp_u32("n")); VP_COVER("end"); }
VP_CONTRACT(handler_exception) { comp<std::exception_ptr> c; c.any(vp_bool("error") ? std::make_exception_ptr(thrown{1}) : nullptr); VP_COVER("end"); }
// an initiation that throws with the handler in its hands: the coroutine still runs, so it is neither resumed nor destroyed
VP_CONTRACT(handler_thrown)
{
  env_t env; track t; coro c = loop(&t); std::optional<std::tuple<>> result; CI ci = CI::initiating; bool caught = false;
  try { cobalt::completion_handler<> h(c.h, result, &ci); throw thrown{1}; } catch (thrown &) { caught = true; }
  VP_CHECK(caught && t.dead == 0 && t.resumed == 0, "an initiation that throws does not take the coroutine with it");
  c.h.destroy();
  VP_COVER("end");
}
// the immediate executor: runs inline only during the initiation, and never resumes then
VP_CONTRACT(immediate_executor)
{
  comp<u32> s; u32 v = vp_u32("v"); CI was = s.ci; auto x = s.h->get_immediate_executor(); bool inl = s.with_ci && (was == CI::initiating || was == CI::maybe), uses = vp_bool("completes");
  unsigned called = 0;
  if (uses) x.execute([h = std::move(*s.h), v, &called]() mutable { called++; std::move(h)(v); });
  else x.execute([&called] { called++; });
  VP_CHECK(called == inl && s.env.ctx.queued == !inl, "an immediate completion runs inline exactly during the initiation, otherwise it is queued");
  VP_CHECK(s.t.resumed == 0 && s.t.dead == 0, "an immediate completion never resumes recursively");
  if (uses) s.h.reset();
  if (inl)
  {
    VP_CHECK(s.ci == (uses ? CI::yes : CI::initiating), "a completion during the initiation is recorded");
    if (uses) { VP_CHECK(s.result.has_value() && std::get<0>(*s.result) == v, "the result is the one it completed with"); s.c.h.destroy(); VP_COVER("inline"); }
  }
  else
  {
    if (s.with_ci) s.ci = CI::no;
    s.env.ctx.run();
    VP_CHECK(called == 1 && s.t.resumed == uses, "a queued completion runs once");
    if (uses && !s.t.dead) s.c.h.destroy();
  }
  s.h.reset();
  if (!s.t.dead) s.c.h.destroy();
  VP_CHECK(s.t.dead == 1, "every coroutine is destroyed once");
  VP_COVER("end");
}
// a coroutine that ends itself
VP_CONTRACT(self_destroy)
{
  env_t env; track t; coro c = loop(&t);
  if (vp_bool("with executor")) cobalt::detail::self_destroy(std::coroutine_handle<void>(c.h), env.exec); else cobalt::detail::self_destroy(c.h);
  if (vp_bool("run")) env.ctx.run(); else env.ctx.clear();
  VP_CHECK(t.dead == 1 && t.resumed == 0, "a coroutine that ends itself is destroyed once");
  VP_COVER("end");
}
