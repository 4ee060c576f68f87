// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <memory>
#include <boost/asio/associated_immediate_executor.hpp>
#include <boost/asio/async_result.hpp>
using boost::system::error_code;

// the initiating function of an arbitrary asio operation: it may complete through the immediate executor, during one of several steps,
// later from the executor, throw, or report through ready().
enum how_t { ready_, immediate, composed_immediate, composed_posted, posted, throws, pending_, how_n };
struct watch
{
  how_t how; unsigned initiated = 0, completed = 0, resumed = 0; bool nested = false, inside = false, small = true, handler_ok = true, posted_now = false; unsigned cancels = 0; asio::cancellation_type ct{};
  void (*fire)(watch *) = nullptr; void *h = nullptr; void (*drop)(watch *) = nullptr;
};
template<typename Handler, typename... A> void start(watch *w, Handler h, A... a)
{
  VP_CHECK(++w->initiated == 1, "an operation is initiated once");
  w->inside = true;
  struct out_ { watch *w; ~out_() { w->inside = false; } } g{w};
  VP_CHECK(asio::get_associated_executor(h) == E().exec, "the handler reports the executor of the awaiter");
  auto slot = asio::get_associated_cancellation_slot(h);
  VP_CHECK(w->nested ? slot.is_connected() && !(slot == E().sig.slot()) : slot == E().sig.slot(), "the handler reports the cancellation slot of the awaiter");
  // the allocator: usable, and released before completion
  {
    auto al = asio::get_associated_allocator(h); using A2 = typename std::allocator_traits<decltype(al)>::template rebind_alloc<unsigned long>;
    A2 a2(al); auto n = vp_live(); auto p = a2.allocate(4); for (int i = 0; i < 4; i++) p[i] = i; VP_CHECK(!w->small || vp_live() == n, "small allocations of the operation come from the awaitable"); VP_CHECK(p[3] == 3, "the allocated memory is usable"); a2.deallocate(p, 4);
  }
  auto ex = asio::get_associated_immediate_executor(h, E().exec);
  auto done = [w, h = std::move(h), a...]() mutable { VP_CHECK(++w->completed == 1, "ghost: completes once"); std::move(h)(a...); };
  switch (w->how)
  {
  case throws: throw thrown{7};
  case immediate: ex.execute(std::move(done)); VP_CHECK(w->resumed == 0, "a completion during the initiation does not resume recursively"); break;
  case composed_immediate:
    ex.execute([ex, done = std::move(done)]() mutable { ex.execute(std::move(done)); });
    VP_CHECK(w->resumed == 0, "a completion during the initiation does not resume recursively"); break;
  case composed_posted:
    // the first step of a composed operation completes immediately, the second one later
    ex.execute([done = std::move(done)]() mutable { asio::post(E().exec, std::move(done)); });
    VP_CHECK(w->resumed == 0, "an intermediate step does not resume"); break;
  case posted: asio::post(E().exec, std::move(done)); break;
  default:
  {
    using D = decltype(done);
    if (slot.is_connected()) slot.assign([w](asio::cancellation_type t) { w->cancels++; w->ct = t; });
    w->h = new D(std::move(done));
    // later steps run through the immediate executor as well, which must not run them inline any more
    w->fire = [](watch *w) { auto p = static_cast<D *>(w->h); auto d = std::move(*p); delete p; w->h = nullptr; std::move(d)(); };
    w->drop = [](watch *w) { auto p = static_cast<D *>(w->h); w->h = nullptr; delete p; };
  }
  }
}
template<typename... A> struct gop : cobalt::op<A...>
{
  watch *w; std::tuple<A...> v;
  gop(watch *w, A... a) : w(w), v(a...) {}
  void ready(cobalt::handler<A...> h) override { if (w->how == ready_) std::apply([&](auto... a) { h(a...); }, v); }
  void initiate(cobalt::completion_handler<A...> h) override { std::apply([&](auto... a) { start(w, std::move(h), a...); }, v); }
};
struct scene1
{
  env_t env; watch w; outcome out; op after; std::uint32_t v1, v2; int code; bool fails, dropped = false; unsigned gone = 0;
  scene1()
  {
    w.how = (how_t)vp_choice("how", how_n); v1 = vp_u32("v1"); v2 = vp_u32("v2"); fails = vp_bool("fails"); code = 0;
    if (fails) { code = (int)vp_u32("code"); vp_assume(code != 0); }
    if (vp_bool("thread has another executor")) cobalt::this_thread::set_executor(gexec(env.ctx, 9));
    vp_mark();
  }
  error_code ec() const { return error_code(code, boost::system::system_category()); }
  std::exception_ptr ep() const { return fails ? std::make_exception_ptr(thrown{v2}) : nullptr; }
  void pump()
  {
    bool sync = w.how == ready_ || w.how == immediate || w.how == composed_immediate || w.how == throws;
    VP_CHECK(out.count == sync, "the awaiter is resumed when the operation completed, not before");
    if (w.how == pending_)
    {
      if (vp_bool("cancel")) { env.sig.emit(asio::cancellation_type::partial); VP_CHECK(w.cancels == 1 && w.ct == asio::cancellation_type::partial, "cancellation of the awaiter is forwarded to the operation"); }
      if (vp_bool("discard")) { env.sig.slot().clear(); dropped = true; w.drop(&w); }
      else w.fire(&w);
    }
    env.ctx.run();
    auto c = w.cancels; env.sig.emit(asio::cancellation_type::terminal); VP_CHECK(w.cancels == c, "a cancellation after the operation is done does not reach it");
    VP_CHECK(w.initiated == (w.how != ready_), "an operation that is ready is not initiated, any other is once");
    if (dropped) { VP_CHECK(out.count == 0 && gone == 1, "discarding the handler destroys the coroutine without resuming it"); VP_COVER("dropped"); }
    else
    {
      VP_CHECK(out.count == 1, "the coroutine is resumed exactly once");
      if (w.how == throws) VP_CHECK(out.is_exc(7), "an exception of the initiation reaches the awaiter");
    }
  }
  bool has_result() const { return !dropped && w.how != throws; }
  void close()
  {
    if (!dropped) { VP_CHECK(gone == 0, "the coroutine is alive"); after.complete(); }
    VP_CHECK(gone == 1, "the coroutine ends once");
    VP_CHECK(vp_live() == 0, "everything is freed exactly once");
    VP_COVER("end");
  }
};
template<typename F, typename R> root run_(F f, R r, scene1 &s)
{
  struct d { unsigned *n; ~d() { ++*n; } } g{&s.gone};
  try { auto o = f(); if constexpr (std::is_void_v<decltype(o.operator co_await().await_resume())>) { co_await o; s.w.resumed++; s.out.set(outcome::value, 0); } else { auto v = co_await o; s.w.resumed++; r(v); } }
  catch (...) { s.w.resumed++; from_current_exception(s.out); }
  co_await aw<void>{{&s.after}};
}
auto none_ = [](auto &) {};
VP_CONTRACT(op_void) { scene1 s; run_([&] { return gop<>(&s.w); }, none_, s); s.pump(); if (s.has_result()) VP_CHECK(s.out.kind == outcome::value, "success"); s.close(); VP_COVER("end"); }
VP_CONTRACT(op_ec)
{
  scene1 s; run_([&] { return gop<error_code>(&s.w, s.ec()); }, none_, s); s.pump();
  if (s.has_result()) VP_CHECK(s.fails ? s.out.is_sys(s.ec()) : s.out.kind == outcome::value, "the error or success the operation completed with");
  s.close(); VP_COVER("end");
}
VP_CONTRACT(op_ec_value)
{
  scene1 s; run_([&] { return gop<error_code, u32>(&s.w, s.ec(), s.v1); }, [&](u32 v) { s.out.set(outcome::value, v); }, s); s.pump();
  if (s.has_result()) VP_CHECK(s.fails ? s.out.is_sys(s.ec()) : s.out.is_value(s.v1), "the error or value the operation completed with");
  s.close(); VP_COVER("end");
}
// a value that owns memory
VP_CONTRACT(op_owned)
{
  scene1 s; run_([&] { return gop<error_code, std::shared_ptr<u32>>(&s.w, s.ec(), std::make_shared<u32>(s.v1)); }, [&](std::shared_ptr<u32> &v) { VP_CHECK(!!v, "a value is not lost while it is transferred"); s.out.set(outcome::value, *v); }, s); s.pump();
  if (s.has_result()) VP_CHECK(s.fails ? s.out.is_sys(s.ec()) : s.out.is_value(s.v1), "the error or value the operation completed with");
  s.close(); VP_COVER("end");
}
VP_CONTRACT(op_values)
{
  scene1 s; bool ok = false; run_([&] { return gop<u32, u32>(&s.w, s.v1, s.v2); }, [&](std::tuple<u32, u32> v) { ok = (std::get<0>(v) == s.v1) & (std::get<1>(v) == s.v2); s.out.set(outcome::value, 0); }, s); s.pump();
  if (s.has_result()) VP_CHECK(s.out.kind == outcome::value && ok, "the values the operation completed with");
  s.close(); VP_COVER("end");
}
VP_CONTRACT(op_ep_values)
{
  scene1 s; bool ok = false; run_([&] { return gop<std::exception_ptr, u32, u32>(&s.w, s.ep(), s.v1, s.v2); }, [&](std::tuple<u32, u32> v) { ok = (std::get<0>(v) == s.v1) & (std::get<1>(v) == s.v2); s.out.set(outcome::value, 0); }, s); s.pump();
  if (s.has_result()) VP_CHECK(s.fails ? s.out.is_exc(s.v2) : (s.out.kind == outcome::value && ok), "the exception or values the operation completed with");
  s.close(); VP_COVER("end");
}
// through the completion token
VP_CONTRACT(use_op_token)
{
  scene1 s; vp_assume(s.w.how != ready_);
  run_([&] { return asio::async_initiate<const cobalt::use_op_t &, void(error_code, u32)>([](auto h, watch *w, error_code e, u32 v) { start(w, std::move(h), e, v); }, cobalt::use_op, &s.w, s.ec(), s.v1); },
       [&](u32 v) { s.out.set(outcome::value, v); }, s);
  s.pump();
  if (s.has_result()) VP_CHECK(s.fails ? s.out.is_sys(s.ec()) : s.out.is_value(s.v1), "the error or value the operation completed with");
  s.close(); VP_COVER("end");
}
// in a coroutine of the library, as a deferred operation
cobalt::promise<u32> deferring(scene1 *s)
{
  u32 v = co_await asio::async_initiate<const asio::deferred_t &, void(error_code, u32)>([](auto h, watch *w, error_code e, u32 v) { start(w, std::move(h), e, v); }, asio::deferred, &s->w, s->ec(), s->v1);
  s->w.resumed++; co_return v;
}
VP_CONTRACT(deferred_op)
{
  scene1 s; vp_assume(s.w.how != ready_); s.w.nested = true; cobalt::this_thread::set_executor(s.env.exec);
  [](scene1 &s) -> root
  {
    struct d { unsigned *n; ~d() { ++*n; } } g{&s.gone};
    try { s.out.set(outcome::value, co_await deferring(&s)); } catch (...) { from_current_exception(s.out); }
    co_await aw<void>{{&s.after}};
  }(s);
  if (s.w.how == pending_)
  {
    if (vp_bool("cancel")) { s.env.sig.emit(asio::cancellation_type::total); VP_CHECK(s.w.cancels == 1 && s.w.ct == asio::cancellation_type::total, "cancellation of the awaiter is forwarded to the operation"); }
    s.w.fire(&s.w);
    auto c = s.w.cancels; s.env.sig.emit(asio::cancellation_type::terminal); VP_CHECK(s.w.cancels == c, "a cancellation after the operation is done does not reach it");
  }
  s.env.ctx.run();
  VP_CHECK(s.out.count == 1, "the coroutine is resumed exactly once");
  if (s.w.how == throws) VP_CHECK(s.out.is_exc(7), "an exception of the initiation reaches the awaiter");
  else VP_CHECK(s.fails ? s.out.is_sys(s.ec()) : s.out.is_value(s.v1), "the error or value the operation completed with");
  s.close(); VP_COVER("end");
}
// a step run through the immediate executor after the initiation is posted, never run inline
VP_CONTRACT(immediate_later)
{
  env_t env; unsigned ran = 0;
  auto state = (cobalt::detail::completed_immediately_t)vp_choice("state", 4); auto st0 = state; bool null_ = vp_bool("null");
  cobalt::detail::completion_handler_noop_executor ex{env.exec, null_ ? nullptr : &state};
  bool marks = vp_bool("completes");
  ex.execute([&] { ran++; VP_CHECK(null_ || st0 == cobalt::detail::completed_immediately_t::no || st0 == cobalt::detail::completed_immediately_t::yes || state == cobalt::detail::completed_immediately_t::maybe, "an inline step is marked"); if (marks) state = cobalt::detail::completed_immediately_t::yes; });
  bool inl = !null_ && (st0 == cobalt::detail::completed_immediately_t::initiating || st0 == cobalt::detail::completed_immediately_t::maybe);
  VP_CHECK(ran == inl && env.ctx.queued == !inl, "inline only during the initiation");
  if (inl) VP_CHECK(state == (marks ? cobalt::detail::completed_immediately_t::yes : cobalt::detail::completed_immediately_t::initiating), "the state tells if the operation completed");
  env.ctx.run(); VP_CHECK(ran == 1, "a step runs exactly once");
  VP_COVER("end");
}

// ---- a composed operation: its awaiter is resumed once with its results, after its steps, and everything of it is freed before
struct heap_t : cobalt::pmr::memory_resource
{
  unsigned n = 0;
  void *do_allocate(std::size_t s, std::size_t) override { n++; return ::operator new(s); }
  void do_deallocate(void *p, std::size_t, std::size_t) override { n--; ::operator delete(p); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct comp final : cobalt::op<error_code, u32>
{
  scene1 *s; unsigned kind, local = 0; comp(scene1 *s, unsigned kind) : s(s), kind(kind) {}
  void initiate(cobalt::completion_handler<error_code, u32>) final
  {
    struct d { unsigned *n; ~d() { ++*n; } } g{&ended()};
    error_code e; u32 v = 0;
    if (kind == 0) { auto [a, b] = co_await asio::async_initiate<const asio::deferred_t &, void(error_code, u32)>([](auto h, watch *w, error_code e, u32 v) { start(w, std::move(h), e, v); }, asio::deferred, &s->w, s->ec(), s->v1); e = a; v = b; }
    else if (kind == 1) { auto [a, b] = co_await asio::async_initiate<const cobalt::use_op_t &, void(error_code, u32)>([](auto h, watch *w, error_code e, u32 v) { start(w, std::move(h), e, v); }, cobalt::use_op, &s->w, s->ec(), s->v1); e = a; v = b; }
    else if (kind == 2) { gop<error_code, u32> o(&s->w, s->ec(), s->v1); auto [a, b] = co_await o; e = a; v = b; }
    else { VP_CHECK((co_await cobalt::this_coro::executor) == E().exec, "a composed operation runs on the executor of its awaiter"); e = s->ec(); v = s->v1; }
    VP_CHECK(s->out.count == 0, "the awaiter is not resumed before the operation ended");
    if (s->v2 & 1) { co_await asio::post(E().exec, asio::deferred); }
    co_return {e, v + 1};
  }
  static unsigned &ended() { static unsigned n; return n; }
};
struct comp_on { comp &o; heap_t *r; auto operator co_await() { return o.operator co_await().replace_resource(r); } };
void composed(unsigned kind)
{
  comp::ended() = 0; scene1 s; vp_assume(s.w.how != throws); vp_assume(s.w.how != ready_ || kind >= 2); s.w.nested = true; s.w.small = false; bool heap = vp_bool("heap");
  s.v2 = vp_choice("two steps", 2);
  [](scene1 &s, unsigned kind, bool heap) -> root
  {
    struct d { unsigned *n; ~d() { ++*n; } } g{&s.gone};
    heap_t res;
    try
    {
      comp c(&s, kind); u32 v;
      if (heap) v = co_await comp_on{c, &res}; else v = co_await c;
      s.out.set(outcome::value, v);
    }
    catch (...) { from_current_exception(s.out); }
    VP_CHECK(comp::ended() == 1 && res.n == 0, "a composed operation is gone when its awaiter is resumed");
    co_await aw<void>{{&s.after}};
  }(s, kind, heap);
  if (kind < 3 && s.w.how == pending_)
  {
    VP_CHECK(s.out.count == 0 && comp::ended() == 0, "the awaiter is resumed when the operation completed, not before");
    if (vp_bool("cancel")) { s.env.sig.emit(asio::cancellation_type::total); VP_CHECK(s.w.cancels == 1 && s.w.ct == asio::cancellation_type::total, "cancellation of the awaiter is forwarded to the operation"); }
    s.w.fire(&s.w);
    auto c = s.w.cancels; s.env.sig.emit(asio::cancellation_type::terminal); VP_CHECK(s.w.cancels == c, "a cancellation after the operation is done does not reach it");
  }
  s.env.ctx.run();
  VP_CHECK(s.out.count == 1, "the coroutine is resumed exactly once");
  VP_CHECK(s.fails ? s.out.is_sys(s.ec()) : s.out.is_value(s.v1 + 1), "the error or value the operation completed with");
  s.close();
}
VP_CONTRACT(composed_deferred) { composed(0); VP_COVER("end"); }
VP_CONTRACT(composed_use_op) { composed(1); VP_COVER("end"); }
VP_CONTRACT(composed_op) { composed(2); VP_COVER("end"); }
VP_CONTRACT(composed_immediate) { composed(3); VP_COVER("end"); }
// an exception that leaves a composed operation before it suspended reaches its awaiter; the compiler may destroy the frame (and the
// promise in it) as part of that, which must not destroy the awaiter.
struct throwing_step
{
  unsigned *destroyed; bool initiating; std::optional<std::tuple<error_code>> res; cobalt::detail::completed_immediately_t ci{}; heap_t heap; bool thrown_ = false;
  bool await_ready() { return false; }
  template<typename P> bool await_suspend(std::coroutine_handle<P> h)
  {
    ci = initiating ? cobalt::detail::completed_immediately_t::initiating : cobalt::detail::completed_immediately_t::no;
    try
    {
      cobalt::completion_handler<error_code> ch(h, res, &heap, &ci);
      using pr = cobalt::detail::composition_promise<error_code>;
      try { throw thrown{7}; }
      catch (...)
      {
        std::exception_ptr ep;
        {
          pr p(ch);
          try { p.unhandled_exception(); VP_CHECK(false, "an exception of a composed operation is passed on"); } catch (thrown &t) { VP_CHECK(t.id == 7, "it is the exception thrown"); ep = std::current_exception(); }
        }
        VP_CHECK(*destroyed == 0, "the awaiter is not destroyed with the composed operation that threw");
        std::rethrow_exception(ep);
      }
    }
    catch (thrown &) { thrown_ = true; return false; }
    return true;
  }
  bool await_resume() { return thrown_; }
};
VP_CONTRACT(composed_throws)
{
  env_t env; vp_mark(); unsigned gone = 0; op after; outcome out;
  [](unsigned &gone, op &after, outcome &out) -> root
  {
    struct d { unsigned *n; ~d() { ++*n; } } g{&gone};
    if (co_await throwing_step{&gone, true}) out.set(outcome::value, 7);
    co_await aw<void>{{&after}};
  }(gone, after, out);
  VP_CHECK(gone == 0 && out.is_value(7) && out.count == 1, "the awaiter goes on with the exception");
  after.complete(); VP_CHECK(gone == 1 && vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
