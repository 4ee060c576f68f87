// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error thread
// vp-assume: the schedules are all orders of the synchronisations of the two threads (mutex, condition variable, atomic object, end of thread); between two of them a thread is one step, which is sound because every other access is shown to be ordered (no-data-race). Atomic objects are sequentially consistent; condition variables wake up only when notified; std::thread always starts
// vp-assume: the owner runs a ghost executor (spec/thr.hpp), the thread asio's real io_context
#include <thr.hpp>
struct seen_t
{
  unsigned n = 0, dead = 0, done = 0, cancelled = 0; cobalt::executor own; std::thread::id id; u32 v = 0;
  void inside(cobalt::executor x)
  {
    n++; own = x; id = std::this_thread::get_id();
    VP_CHECK(cobalt::this_thread::has_executor() && cobalt::this_thread::get_executor() == x, "the executor of the thread is the one its coroutine runs on");
    VP_CHECK(x != owner_t::me()->exec, "the thread has an executor of its own");
  }
};
// opened by the owner
struct gate
{
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; bool open = false; asio::any_completion_handler<void()> h; std::optional<cobalt::executor> x;
  auto wait(cobalt::executor x)
  {
    return asio::async_initiate<const cobalt::use_op_t &, void()>([](auto h, cobalt::executor x, gate *g)
    {
      pthread_mutex_lock(&g->m); g->x = x; bool now = g->open; if (!now) g->h = std::move(h); pthread_mutex_unlock(&g->m);
      if (now) asio::post(x, std::move(h));
    }, cobalt::use_op, x, this);
  }
  void go() { pthread_mutex_lock(&m); open = true; if (h) asio::post(*x, std::move(h)); pthread_mutex_unlock(&m); }
};
cobalt::promise<void> idle(seen_t *s) { probe p{&s->dead}; co_await park(co_await cobalt::this_coro::executor, s); }
enum kind { at_once, suspends, throws_later, cancellable, for_ever, waits, left = 8 };       // left: a promise is left behind that never completes
cobalt::thread body(seen_t *s, unsigned k, gate *g, u32 v)
{
  probe p{&s->dead}; auto x = co_await cobalt::this_coro::executor; s->inside(x);
  if (k & left) { s->n++; +idle(s); }
  k &= left - 1;
  if (k == for_ever) co_await park(x, s);
  if (k == suspends) co_await asio::post(x, cobalt::use_op);
  if (k == waits) co_await g->wait(x);
  if (k == throws_later) { co_await g->wait(x); throw thrown{v}; }
  if (k == cancellable) try { co_await park(x, s); } catch (boost::system::system_error &e) { VP_CHECK(e.code() == asio::error::operation_aborted, "a cancelled thread that goes on is told"); s->cancelled += 100; }
  s->done++;
}
enum form { plain, result, tuple_ };
template<class T> oroot waiter(T t, form k, outcome &o)
{
  try
  {
    if (k == plain) { co_await std::forward<T>(t); o.set(outcome::value, 0); }
    else if (k == result) { auto r = co_await cobalt::as_result(std::forward<T>(t)); if (r.has_error()) from_exception(o, r.error()); else o.set(outcome::value, 0); }
    else { std::tuple<std::exception_ptr> r = co_await cobalt::as_tuple(std::forward<T>(t)); if (std::get<0>(r)) from_exception(o, std::get<0>(r)); else o.set(outcome::value, 0); }
  }
  catch (...) { from_current_exception(o); }
}
void all() { vp_thread_preempt(1000); vp_mark(); }
VP_CONTRACT(value)
{
  all();
  {
    owner_t w; seen_t s; outcome o; gate g; form k = form(vp_choice("form", 3));
    waiter<cobalt::thread>(body(&s, vp_choice("body", 2), &g, 0), k, o);
    while (!o.count) w.ctx.run_one();
    VP_CHECK(o.count == 1 && o.is_value(0), "awaiting a thread yields its result exactly once");
    VP_CHECK(s.n == 1 && s.done == 1 && s.dead == 1, "the coroutine of the thread ran to its end");
    VP_CHECK(s.id != std::this_thread::get_id(), "the coroutine runs on its own thread");
    VP_CHECK(w.res.live == 0, "the owner's memory is returned");
    vp_thread_end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(value_lvalue)
{
  all();
  {
    owner_t w; seen_t s; outcome o; gate g;
    {
      auto t = body(&s, vp_choice("body", 2), &g, 0);
      waiter<cobalt::thread &>(t, plain, o);
      while (!o.count) w.ctx.run_one();
      VP_CHECK(o.count == 1 && o.is_value(0), "awaiting a thread yields its result exactly once");
      VP_CHECK(s.n == 1 && s.done == 1 && s.dead == 1, "the coroutine of the thread ran to its end");
      VP_CHECK(t.joinable(), "a thread awaited as an lvalue is not joined");
    }
    VP_CHECK(w.res.live == 0, "the owner's memory is returned");
    vp_thread_end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(failure)
{
  all();
  {
    owner_t w; seen_t s; outcome o; gate g; u32 v = vp_u32("v");
    waiter<cobalt::thread>(body(&s, throws_later, &g, v), form(vp_choice("form", 3)), o);
    g.go();
    while (!o.count) w.ctx.run_one();
    VP_CHECK(o.count == 1 && o.is_exc(v), "awaiting a thread yields its exception exactly once");
    VP_CHECK(s.n == 1 && s.done == 0 && s.dead == 1, "the coroutine of the thread ended with the exception");
    VP_CHECK(w.res.live == 0, "the owner's memory is returned");
    vp_thread_end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(join)
{
  all();
  {
    owner_t w; seen_t s; gate g;
    auto t = body(&s, vp_choice("body", 2), &g, 0);
    VP_CHECK(t.joinable() && t.get_id() != std::thread::id(), "a new thread can be joined");
    auto id = t.get_id();
    t.join();
    VP_CHECK(!t.joinable() && s.n == 1 && s.done == 1 && s.dead == 1 && s.id == id, "join waits for the end of the coroutine");
    bool threw = false; try { t.get_executor(); } catch (asio::bad_executor &) { threw = true; }
    VP_CHECK(threw, "a finished thread has no executor");
    if (vp_bool("cancel")) t.cancel();
    auto u = std::move(t);
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(destroy)
{
  all();
  {
    owner_t w; seen_t s; gate g; unsigned k = vp_choice("body", 3);      // the second one is never resumed if the thread is stopped first
    { auto t = body(&s, k == 2 ? for_ever + 0u : k, &g, 0); }
    VP_CHECK(s.n == s.dead, "the coroutine of the thread is destroyed exactly once");
    vp_thread_end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(destroy_leftover)
{
  all();
  {
    owner_t w; seen_t s; gate g;
    { auto t = body(&s, for_ever | left, &g, 0); }
    VP_CHECK(s.n == s.dead, "everything on the thread is destroyed exactly once");
    vp_thread_end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(failure_leftover)
{
  all();
  {
    owner_t w; seen_t s; outcome o; gate g;
    waiter<cobalt::thread>(body(&s, throws_later | left, &g, 7), plain, o);
    g.go();
    while (!o.count) w.ctx.run_one();
    VP_CHECK(o.count == 1 && o.is_exc(7), "awaiting a thread yields its exception exactly once");
    vp_thread_end();
    VP_CHECK(s.n == s.dead, "everything on the thread is destroyed exactly once");
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(cancel_awaited)
{
  all();
  {
    owner_t w; seen_t s; outcome o; gate g; auto type = vp_bool("partial") ? asio::cancellation_type::partial : asio::cancellation_type::terminal;
    waiter<cobalt::thread>(body(&s, cancellable, &g, 0), plain, o);
    w.sig.emit(type);
    while (!o.count) w.ctx.run_one();
    VP_CHECK(o.count == 1 && o.is_value(0), "the outcome of the cancelled thread is delivered exactly once");
    VP_CHECK(s.n == 1 && s.done == 1 && s.dead == 1, "the cancelled coroutine ran to its end");
    VP_CHECK(s.cancelled == 100 || (s.cancelled == 101 && s.v == (u32)type), "cancelling the awaiting coroutine reaches the thread and keeps its type");
    vp_thread_end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(detach)
{
  all();
  {
    owner_t w; seen_t s; gate g;
    {
      auto t = body(&s, vp_choice("body", 2), &g, 0);
      t.detach();
      VP_CHECK(!t.joinable(), "a detached thread is not joinable");
    }
    vp_thread_end();
    VP_CHECK(s.n == 1 && s.done == 1 && s.dead == 1, "a detached thread runs to its end");
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(cancel)
{
  all();
  {
    owner_t w; seen_t s; gate g; auto type = vp_bool("partial") ? asio::cancellation_type::partial : asio::cancellation_type::terminal;
    auto t = body(&s, cancellable, &g, 0);
    t.cancel(type);
    t.join();
    VP_CHECK(s.n == 1 && s.done == 1 && s.dead == 1, "the cancelled coroutine ran to its end");
    VP_CHECK(s.cancelled == 100 || (s.cancelled == 101 && s.v == (u32)type), "the cancellation reaches the thread and keeps its type");
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(cancel_races)
{
  all();
  {
    owner_t w; seen_t s; outcome o; gate g;
    {
      auto t = body(&s, at_once, &g, 0);
      switch (vp_choice("then", 4))
      {
      case 0: t.cancel(); t.join(); break;
      case 1: t.cancel(); t.detach(); break;
      case 2: t.cancel(); break;
      case 3:
        waiter<cobalt::thread>(std::move(t), plain, o);
        w.sig.emit(asio::cancellation_type::terminal);
        while (!o.count) w.ctx.run_one();
        VP_CHECK(o.count == 1 && o.is_value(0), "the outcome of the thread is delivered exactly once");
        w.sig.emit(asio::cancellation_type::terminal);
      }
    }
    vp_thread_end();
    VP_CHECK(s.n == s.dead && s.n == s.done, "the coroutine of the thread is destroyed exactly once");
    VP_CHECK(w.res.live == 0, "the owner's memory is returned");
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(executor)
{
  all();
  {
    owner_t w; seen_t s; gate g; unsigned ran = 0; std::thread::id id;
    auto t = body(&s, waits, &g, 0);
    auto x = t.get_executor();
    asio::post(x, [&] { ran++; id = std::this_thread::get_id(); });
    g.go();
    t.join();
    VP_CHECK(ran == 1 && id == s.id && x == s.own, "what is posted to the executor of a thread runs on that thread");
    VP_CHECK(s.n == 1 && s.done == 1 && s.dead == 1, "the coroutine of the thread ran to its end");
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
